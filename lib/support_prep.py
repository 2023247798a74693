"""Puts together the crate `replay-support` in BUILD/src_support: the generator of the Rust support library and the two modules of
wastrumentation it uses are copied from REPO as they are, with stand-ins for the compiler the library is given to."""
import os

CARGO = {
    "Cargo.toml": """[package]
name = "replay-support"
version = "0.0.0"
edition = "2024"
[[bin]]
name = "replay-support"
path = "src/main.rs"
[dependencies]
wastrumentation = { path = "wastrumentation" }
rust_to_wasm_compiler = { path = "rust_to_wasm_compiler" }
[workspace]
[profile.dev]
debug = 0
overflow-checks = true
""",
    "wastrumentation/Cargo.toml": """[package]
name = "wastrumentation"
version = "0.1.0"
edition = "2021"
[dependencies]
""",
    "wastrumentation/src/lib.rs": "pub mod compiler;\npub mod wasm_constructs;\n",
    "rust_to_wasm_compiler/Cargo.toml": """[package]
name = "rust_to_wasm_compiler"
version = "0.0.0"
edition = "2021"
""",
    "rust_to_wasm_compiler/src/lib.rs": "#[derive(Debug, Clone, Copy, PartialEq, Eq)]\npub enum WasiSupport { Enabled, Disabled }\n#[derive(Debug, Clone, Copy, PartialEq, Eq)]\npub enum Profile { Dev, Release }\n",
}


def prepare(verif, repo, build):
    dst = os.path.join(build, "src_support")
    here = os.path.join(verif, "replay", "support", "src")
    lib = os.path.join(repo, "supported-languages/rust/src/generate/instrumentation")
    want = {k: v.encode() for k, v in CARGO.items()}
    read = lambda *p: open(os.path.join(*p), "rb").read()
    try:
        for m in ("compiler", "wasm_constructs"):
            want[f"wastrumentation/src/{m}/mod.rs"] = read(repo, "wastrumentation/src", m, "mod.rs")
        want["src/rust.rs"] = read(lib, "mod.rs")
        want["src/default_manifest_source.toml"] = read(lib, "default_manifest_source.toml")
        for f in ("main.rs", "compile.rs", "wee_alloc.rs"):
            want["src/" + f] = read(here, f)
    except OSError as e:
        return f"the sources of the Rust front end are not where they were: {e}"
    for d, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, dst) not in want and f != "Cargo.lock" and "/target" not in d:
                os.remove(p)
    for k, v in want.items():
        p = os.path.join(dst, k)
        if os.path.exists(p) and open(p, "rb").read() == v:
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(v)
    return ""
