#!/usr/bin/env python3
"""tools/seed.py ID [--checks]: confirm seeded/<ID>: applies, builds, stable tests pass, demo 0/nonzero;
with --checks also runs the quick check of its property against /repo with the patch applied (and undone)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd, t=900, env=None):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
    return p.returncode, p.stdout.decode("utf-8", "replace")
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        ok = []
        if "--only-checks" not in sys.argv:
            tmp = tempfile.mkdtemp(prefix="seed_")
            try:
                sh(f"cp -a /repo {tmp}/repo", "/")
                r = tmp + "/repo"
                demo = tmp + "/demo"; os.mkdir(demo)
                for f in os.listdir(d):
                    if not f.endswith((".diff", ".patch")) and f != "meta.json":
                        s = os.path.join(d, f)
                        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(demo, f))
                rc, o = sh(f"bash {demo}/demo.sh", r, 300); ok.append(("demo-clean", rc == 0, o))
                rc, o = sh(f"git apply {d}/patch.diff", r); ok.append(("apply", rc == 0, o))
                ws = tmp + "/ws"; os.mkdir(ws)
                for m in ("wasm-merge", "wasp-compiler"): os.symlink(r + "/" + m, ws + "/" + m)
                t = open(r + "/Cargo.toml").read()
                import re
                open(ws + "/Cargo.toml", "w").write(re.sub(r"^members\s*=\s*\[[^\]]*\]", 'members = ["wasm-merge", "wasp-compiler"]', t, count=1, flags=re.M))
                shutil.copy("/opt/vp/ws/Cargo.lock", ws)
                rc, o = sh(f". /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/seed_target; cd {ws}; cargo test --workspace --no-fail-fast --offline 2>&1", ws, 900)
                stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                bad = [s for s in stable if ("test " + s.split("src/lib.rs::")[1] + " ... ok") not in o]
                ok.append(("stable-tests", not bad, str(bad) + o[-1500:]))
                rc, o = sh(f"bash {demo}/demo.sh", r, 300); ok.append(("demo-bug", rc != 0, o))
            finally:
                shutil.rmtree(tmp)
            print(i, meta["property"], " ".join(f"{n}={'ok' if k else 'BAD'}" for n, k, _ in ok))
            for n, k, o in ok:
                if not k: print("----", n, o[-1500:])
            if "-v" in sys.argv: print(ok[-1][2][-600:])
        if "--checks" in sys.argv or "--only-checks" in sys.argv:
            rc, o = sh(f"git apply {d}/patch.diff", "/repo")
            try:
                rc, o = sh(f"python3 check.py {meta['property']} quick", V)
                print(i, "CHECK rc", rc, "\n   ", "\n    ".join(l[:260] for l in o.splitlines()[-6:]))
            finally:
                sh("git checkout -- .", "/repo")
main()
