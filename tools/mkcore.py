"""mkcore.py [ID...]: writes seeded/ID for the planted bugs of the core crates (a demonstration compiled into a copy of the crate, over a stand-in for wasabi_wasm)"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
PRELUDE = open(V + "/tools/core_demo.rs").read()
SH = r'''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR RUSTFLAGS
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/w" "$t/wasabi/src" "$t/s" "$t/bin"
cp "$here/wasabi.rs" "$t/wasabi/src/lib.rs"
cp -r wastrumentation/src "$t/w/src" || exit 3
cp -r wastrumentation-static-analysis/src "$t/s/src"; rm -f "$t/s/src/main.rs"
cp "$here/demo.rs" "$t/w/src/demo.rs"; echo 'pub mod demo;' >> "$t/w/src/lib.rs"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$here/merge.sh" ] && cp "$here/merge.sh" "$t/bin/wasm-merge" && chmod +x "$t/bin/wasm-merge"
cp /opt/vp/ws/Cargo.lock "$t/Cargo.lock"
pkg() { printf '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n' "$1"; }
{ pkg wasabi_wasm; } > "$t/wasabi/Cargo.toml"
{ pkg wastrumentation; printf 'wasabi_wasm = { path = "../wasabi" }\nwasm-merge = { path = "%s/wasm-merge" }\nindoc = "2"\nthiserror = "2"\n' "$repo"; } > "$t/w/Cargo.toml"
{ pkg wastrumentation-static-analysis; printf 'wasabi_wasm = { path = "../wasabi" }\nwastrumentation = { path = "../w" }\n'; } > "$t/s/Cargo.toml"
{ pkg demo; printf 'wasabi_wasm = { path = "wasabi" }\nwastrumentation = { path = "w" }\nwastrumentation-static-analysis = { path = "s" }\n[workspace]\n'; } > "$t/Cargo.toml"
cd "$t" && cargo build --offline -q --target-dir "$t/target" 2> "$t/log" || { cat "$t/log"; exit 4; }
PATH="$t/bin:$PATH" TMPDIR="$t" "$t/target/debug/demo"
'''
# with the analysis front ends over stand-ins for their compilers
SH_FRONT = SH.replace('cp "$here/main.rs"', """mkdir -p "$t/f/src" "$t/serde/src"; cp "$here/front.rs" "$t/f/src/lib.rs"; cp "$here/serde.rs" "$t/serde/src/lib.rs"
for l in rust webassembly; do cp "supported-languages/$l/src/generate/analysis/mod.rs" "$t/f/src/$l.rs" || exit 3; done
cp supported-languages/assemblyscript/src/generate/analysis/wasp.rs "$t/f/src/assemblyscript.rs" || exit 3
cp supported-languages/assemblyscript/src/generate/analysis/util.rs "$t/f/src/util.rs" || exit 3
cp "$here/main.rs\"""").replace("{ pkg demo; printf '", """{ printf '[package]\\nname = "serde"\\nversion = "1.0.0"\\nedition = "2021"\\n[lib]\\nproc-macro = true\\n'; } > "$t/serde/Cargo.toml"
{ pkg front | sed s/2021/2024/; printf 'wastrumentation = { path = "../w" }\\nserde = { path = "../serde" }\\nwasp-compiler = { path = "%s/wasp-compiler" }\\n' "$repo"; } > "$t/f/Cargo.toml"
{ pkg demo; printf 'front = { path = "f" }\\n""")
MAIN = "fn main() { wastrumentation::demo::main() }\n"
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo, main=None, merge=None, front=False):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, main=main or MAIN, merge=merge, front=front)
exec(open(V + "/tools/core_seeds.py").read())
def write(id):
    s = SEEDS[id]; d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mk_")
    subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
    for f, old, new in s["edits"]:
        p = f"{t}/r/{f}"; x = open(p).read()
        assert x.count(old) == 1, (id, f, x.count(old), old)
        open(p, "w").write(x.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=t + "/r", stdout=subprocess.PIPE).stdout
    shutil.rmtree(t)
    put = lambda n, c: open(f"{d}/{n}", "wb" if isinstance(c, bytes) else "w").write(c)
    put("patch.diff", diff); put("demo.sh", SH_FRONT if s["front"] else SH); os.chmod(d + "/demo.sh", 0o755)
    put("demo.rs", PRELUDE + s["demo"]); put("main.rs", s["main"])
    shutil.copy(V + "/replay/core/wasabi_wasm/src/lib.rs", d + "/wasabi.rs")
    if s["front"]: shutil.copy(V + "/replay/core/src/front.rs", d + "/front.rs"); shutil.copy(V + "/replay/core/serde/src/lib.rs", d + "/serde.rs")
    if s["merge"]: put("merge.sh", s["merge"])
    put("meta.json", json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1))
for i in sys.argv[1:] or SEEDS: write(i); print(i)
