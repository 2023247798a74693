"""mkrlib.py: writes seeded/K45-* (planted bugs of the Rust support library; the demonstration compiles the library the real generator writes and uses it)"""
import json, os, shutil, subprocess, tempfile, sys
V = "/verif"
sys.path.insert(0, V + "/lib")
import support_prep as sp
F = "supported-languages/rust/src/generate/instrumentation/mod.rs"
def pkg(k): return sp.CARGO[k].replace("replay-support", "demo").replace("[profile.dev]\ndebug = 0\noverflow-checks = true\n", "")
SH = r'''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR RUSTFLAGS
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/wastrumentation/src" "$t/rust_to_wasm_compiler/src" "$t/out"
cat > "$t/Cargo.toml" <<'X'
%sX
cat > "$t/wastrumentation/Cargo.toml" <<'X'
%sX
cat > "$t/wastrumentation/src/lib.rs" <<'X'
%sX
cat > "$t/rust_to_wasm_compiler/Cargo.toml" <<'X'
%sX
cat > "$t/rust_to_wasm_compiler/src/lib.rs" <<'X'
%sX
cp -r wastrumentation/src/compiler wastrumentation/src/wasm_constructs "$t/wastrumentation/src" || exit 3
cp supported-languages/rust/src/generate/instrumentation/mod.rs "$t/src/rust.rs" || exit 3
cp supported-languages/rust/src/generate/instrumentation/default_manifest_source.toml "$t/src/" || exit 3
cp "$here"/main.rs "$here"/compile.rs "$t/src/"
cd "$t" && cargo build --offline -q --target-dir "$t/target" 2> "$t/log" || { cat "$t/log"; exit 4; }
"$t/target/debug/demo" "$t/out" || exit 5
cp "$here/wee_alloc.rs" "$here/driver.rs" "$t/out"; cd "$t/out"
r="rustc --edition 2021 --cap-lints=allow -L . --out-dir ."
$r --crate-type=rlib --crate-name=wee_alloc wee_alloc.rs || exit 6
$r --crate-type=rlib --crate-name=support --cfg=test support.rs || exit 7
$r --crate-type=bin --crate-name=driver driver.rs || exit 8
./driver
''' % (pkg("Cargo.toml"), *[sp.CARGO[k] for k in ("wastrumentation/Cargo.toml", "wastrumentation/src/lib.rs", "rust_to_wasm_compiler/Cargo.toml", "rust_to_wasm_compiler/src/lib.rs")])
MAIN = '''mod compile;
#[allow(dead_code)]
mod rust;
use wastrumentation::wasm_constructs::{Signature, WasmType::*};
fn main() {
    let f = |r, a| Signature { return_types: r, argument_types: a };
    let text = rust::generate_lib(&[%s]).1.0;
    std::fs::write(std::env::args().nth(1).unwrap() + "/support.rs", text).unwrap();
}
'''
DRIVER = '''#![allow(unused)]
extern crate support; extern crate wee_alloc;
use std::sync::atomic::Ordering::Relaxed;
extern "C" {
%s
fn wastrumentation_stack_load_i32(p: usize, o: usize) -> i32; fn wastrumentation_stack_load_f32(p: usize, o: usize) -> f32; fn wastrumentation_stack_load_i64(p: usize, o: usize) -> i64; fn wastrumentation_stack_load_f64(p: usize, o: usize) -> f64;
fn wastrumentation_stack_store_i32(p: usize, v: i32, o: usize); fn wastrumentation_stack_store_f32(p: usize, v: f32, o: usize); fn wastrumentation_stack_store_i64(p: usize, v: i64, o: usize); fn wastrumentation_stack_store_f64(p: usize, v: f64, o: usize);
fn wastrumentation_stack_load_type(p: usize, o: usize) -> i32;
}
fn main() { unsafe {
%s
} }
'''
S = {
 "K45-arg-slot": dict(sigs="f(vec![I32, I64], vec![F64, I32])", edits=[('''fn store_arg{n}_{generic_name}(stack_ptr: usize, a{n}: WasmValue) {{
    wastrumentation_memory_store(stack_ptr, a{n}, {slot_index});''', '''fn store_arg{n}_{generic_name}(stack_ptr: usize, a{n}: WasmValue) {{
    wastrumentation_memory_store(stack_ptr, a{n}, {first_slot} + {n});'''),
   ('''    let all_arg_stores = (0..args_count).map(|n| {
        let slot_index = rets_count + n;
''', '''    let first_slot = usize::from(rets_count > 0);
    let all_arg_stores = (0..args_count).map(|n| {
''')],
   needs="a function with at least two results and an argument, whose argument is written through the specialised store", breaks="storing an argument overwrites a result (or another argument) of a function with several results",
   decl="fn allocate_ret_i32_i64_arg_f64_i32(a: f64, b: i32) -> usize; fn store_arg0_ret_i32_i64_arg_f64_i32(p: usize, v: f64); fn store_arg1_ret_i32_i64_arg_f64_i32(p: usize, v: i32); fn load_arg0_ret_i32_i64_arg_f64_i32(p: usize) -> f64; fn load_arg1_ret_i32_i64_arg_f64_i32(p: usize) -> i32; fn store_rets_ret_i32_i64_arg_f64_i32(p: usize, a: i32, b: i64); fn load_ret1_ret_i32_i64_arg_f64_i32(p: usize) -> i64;",
   body='''let p = allocate_ret_i32_i64_arg_f64_i32(1.5, 7);
store_rets_ret_i32_i64_arg_f64_i32(p, 3, 4);
store_arg0_ret_i32_i64_arg_f64_i32(p, 2.5); store_arg1_ret_i32_i64_arg_f64_i32(p, 9);
assert_eq!((load_arg0_ret_i32_i64_arg_f64_i32(p), load_arg1_ret_i32_i64_arg_f64_i32(p), load_ret1_ret_i32_i64_arg_f64_i32(p)), (2.5, 9, 4));'''),
 "K45-types-order": dict(sigs="f(vec![F32], vec![I64, I32])", edits=[('''        .iter()
        .chain(signature_args.iter())
        .map(WasmType::runtime_enum_variant)
        .enumerate()
''', '''        .iter()
        .chain(signature_args.iter().rev())
        .map(WasmType::runtime_enum_variant)
        .enumerate()
''')],
   needs="a function whose arguments do not all have the same type", breaks="the types buffer lists the types of the arguments in the wrong order: an analysis reads a slot as another type",
   decl="fn allocate_types_ret_f32_arg_i64_i32() -> usize;",
   body='''let t = allocate_types_ret_f32_arg_i64_i32();
assert_eq!([wastrumentation_stack_load_type(t, 0), wastrumentation_stack_load_type(t, 1), wastrumentation_stack_load_type(t, 2)], [1, 2, 0]);'''),
 "K45-free-size": dict(sigs="f(vec![I32, I32], vec![I64, I64, I64])", edits=[('''    stack_deallocate_values(ptr, {total_slots});''', '''    stack_deallocate_values(ptr, {freed_slots});'''),
   ('''    // No deallocation for empty signatures
}}"
        );
    }
''', '''    // No deallocation for empty signatures
}}"
        );
    }
    let freed_slots = rets_count.max(args_count);
''')],
   needs="a function with arguments and results; the buffer is given back with fewer slots than were taken", breaks="the allocator is handed back another size than was allocated",
   decl="fn allocate_ret_i32_i32_arg_i64_i64_i64(a: i64, b: i64, c: i64) -> usize; fn free_values_ret_i32_i32_arg_i64_i64_i64(p: usize);",
   body='''let p = allocate_ret_i32_i32_arg_i64_i64_i64(1, 2, 3);
free_values_ret_i32_i32_arg_i64_i64_i64(p);
assert_eq!(wee_alloc::BAD.load(Relaxed), 0);'''),
 "K45-negative-zero": dict(sigs="f(vec![], vec![F32])", edits=[('''    wastrumentation_memory_store(ptr, WasmValue::new_f32(value), offset);''', '''    wastrumentation_memory_store(ptr, WasmValue::new_f32(value + 0.0), offset);''')],
   needs="an analysis that writes -0.0 to an f32 slot", breaks="the sign of a zero an analysis stores is lost",
   decl="fn allocate_ret_arg_f32(a: f32) -> usize; fn load_arg0_ret_arg_f32(p: usize) -> f32;",
   body='''let p = allocate_ret_arg_f32(1.0);
wastrumentation_stack_store_f32(p, -0.0, 0);
assert_eq!(load_arg0_ret_arg_f32(p).to_bits(), 0x80000000);'''),
 "K45-first-of-count": dict(sigs="f(vec![I32], vec![I32]), f(vec![], vec![]), f(vec![F64], vec![I64, I32]), f(vec![F64], vec![F32, I32])", edits=[('''        let signature_length = (signature.return_types.len(), signature.argument_types.len());
        if !processed''', '''        let signature_length = (signature.return_types.len(), signature.argument_types.len().min(1));
        if !processed''')],
   needs="two signatures with equally many results and different positive numbers of arguments", breaks="the shared functions for the second number of arguments are missing: the library does not compile",
   decl="fn allocate_ret_i32_arg_i32(a: i32) -> usize;", body='''let p = allocate_ret_i32_arg_i32(5); assert_eq!(wastrumentation_stack_load_i32(p, 1), 5);'''),
}
for id, s in S.items():
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mk_"); subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
    p = f"{t}/r/{F}"; x = open(p).read()
    for old, new in s["edits"]:
        assert x.count(old) == 1, (id, x.count(old), old)
        x = x.replace(old, new)
    open(p, "w").write(x)
    diff = subprocess.run(["git", "diff"], cwd=t + "/r", stdout=subprocess.PIPE).stdout.decode()
    shutil.rmtree(t)
    put = lambda n, c: open(f"{d}/{n}", "w").write(c)
    put("patch.diff", diff); put("demo.sh", SH); os.chmod(d + "/demo.sh", 0o755)
    put("main.rs", MAIN % s["sigs"]); put("driver.rs", DRIVER % (s["decl"], s["body"]))
    for f in ("compile.rs", "wee_alloc.rs"): shutil.copy(f"{V}/replay/support/src/{f}", d)
    put("meta.json", json.dumps({"property": "C45", "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1))
