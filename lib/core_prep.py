"""Puts together the crate `replay-core` in BUILD/src_core from the sources in REPO: the wastrumentation crate, the static
analysis and the analysis-side standard library are copied as they are (plus the harness as an extra module of the first),
and the analysis front ends (hook groups), with stand-ins for the crates that cannot be had offline (wasabi_wasm, libm, serde's derive) and for the
compilers of the front ends."""
import os, shutil

CARGO = {
    "Cargo.toml": """[package]
name = "replay-core"
version = "0.0.0"
edition = "2021"
[[bin]]
name = "replay-core"
path = "src/main.rs"
[[bin]]
name = "stub-merge"
path = "src/stub.rs"
[dependencies]
wasabi_wasm = {{ path = "{core}/wasabi_wasm" }}
wastrumentation = {{ path = "wastrumentation" }}
wastrumentation-static-analysis = {{ path = "static" }}
wastrumentation-rs-stdlib = {{ path = "stdlib" }}
front = {{ path = "front" }}
[workspace]
[profile.dev]
opt-level = 1
debug = 0
overflow-checks = true
[profile.dev.package."*"]
opt-level = 1
""",
    "wastrumentation/Cargo.toml": """[package]
name = "wastrumentation"
version = "0.1.0"
edition = "2021"
[dependencies]
wasabi_wasm = {{ path = "{core}/wasabi_wasm" }}
wasm-merge = {{ path = "{repo}/wasm-merge" }}
indoc = "2"
thiserror = "{thiserror}"
""",
    "static/Cargo.toml": """[package]
name = "wastrumentation-static-analysis"
version = "0.1.0"
edition = "2021"
[dependencies]
wasabi_wasm = {{ path = "{core}/wasabi_wasm" }}
wastrumentation = {{ path = "../wastrumentation" }}
[lib]
path = "src/lib.rs"
""",
    "front/Cargo.toml": """[package]
name = "front"
version = "0.1.0"
edition = "2024"
[dependencies]
wastrumentation = {{ path = "../wastrumentation" }}
wasp-compiler = {{ path = "{repo}/wasp-compiler" }}
serde = {{ path = "{core}/serde" }}
""",
    "stdlib/Cargo.toml": """[package]
name = "wastrumentation-rs-stdlib"
version = "0.1.0"
edition = "2021"
[dependencies]
cfg-if = "1.0"
libm = {{ path = "{core}/libm" }}
[features]
std = []
default = ["std"]
""",
}


def prepare(verif, repo, build):
    dst = os.path.join(build, "src_core")
    core = os.path.join(verif, "replay", "core")
    want = {}

    def put(rel, text):
        want[rel] = text

    def tree(src, rel):
        for d, _, fs in os.walk(src):
            for f in fs:
                p = os.path.join(d, f)
                put(os.path.join(rel, os.path.relpath(p, src)), open(p, "rb").read())

    try:
        for k, v in CARGO.items():
            put(k, v.format(core=core, repo=repo, thiserror="2").encode())
        tree(os.path.join(repo, "wastrumentation", "src"), "wastrumentation/src")
        put("wastrumentation/src/lib.rs", want["wastrumentation/src/lib.rs"] + b"\npub mod verif_replay;\n")
        m = "wastrumentation/src/parse_nesting/mod.rs"
        put(m, want[m] + b"\npub use high_level_body::{Body as VerifUntypedBody, Instr as VerifUntypedInstr};\n")
        put("wastrumentation/src/verif_replay.rs", open(core + "/src/harness.rs", "rb").read())
        put("wastrumentation/src/verif_tables.rs", open(core + "/src/tables.rs", "rb").read())
        put("static/src/lib.rs", open(os.path.join(repo, "wastrumentation-static-analysis/src/lib.rs"), "rb").read())
        tree(os.path.join(repo, "wastrumentation-instr-lib/tests/analyses/rust/wastrumentation-rs-stdlib/src"), "stdlib/src")
        l = "stdlib/src/lib.rs"
        put(l, b"\n".join(x for x in want[l].split(b"\n") if b"asm_experimental_arch" not in x))
        put("front/src/lib.rs", open(core + "/src/front.rs", "rb").read())
        for l, f in (("rust", "mod"), ("webassembly", "mod"), ("assemblyscript", "wasp")):
            put(f"front/src/{l}.rs", open(os.path.join(repo, f"supported-languages/{l}/src/generate/analysis/{f}.rs"), "rb").read())
        put("src/main.rs", open(core + "/src/main.rs", "rb").read())
        put("src/stub.rs", open(core + "/src/stub.rs", "rb").read())
        put("Cargo.lock", open(core + "/Cargo.lock", "rb").read() if os.path.exists(core + "/Cargo.lock") else open("/opt/vp/ws/Cargo.lock", "rb").read())
    except (OSError, KeyError) as e:
        return f"the sources of the core crate are not where they were: {e}"
    for d, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, dst) not in want:
                os.remove(p)
    for k, v in want.items():
        p = os.path.join(dst, k)
        if os.path.exists(p) and open(p, "rb").read() == v:
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(v)
    return ""
