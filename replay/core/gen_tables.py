#!/usr/bin/env python3
"""writes src/tables.rs: the leaf instructions, the hooks and the interface functions by name"""
import sys, re
sys.path.insert(0, "../../units")
from gen_wasabi import INSTR
leaf = [x for x in INSTR if not re.match(r"(Block|Loop|If|Else|End)\b", x)]
o = "// written by gen_tables.py\n"
def pat(x):
    m = re.match(r"(\w+)\((.*)\)$", x)
    if m:
        v = ", ".join("abcd"[i] for i in range(m.group(2).count(",") + 1 - (m.group(2).count("<") and 0)))
        return m.group(1), f"({v})", re.sub(r"\b([a-d])\b", r"*\1", f"({v})")
    if "{" in x: return x.split()[0], " { table, default }", " { table: table.clone(), default: *default }"
    return x, "", ""
for name, src, dst in (("nested", "W", "H"), ("flat", "H", "W"), ("untyped", "W", "U")):
    ty = dict(W="wasabi_wasm::Instr", H="HighLevelInstr", U="VerifUntypedInstr")
    o += f"pub fn leaf_{name}(x: &{ty[src]}) -> Option<{ty[dst]}> {{ Some(match x {{\n"
    for l in leaf:
        n, p, q = pat(l)
        o += f"    {ty[src]}::{n}{p} => {ty[dst]}::{n}{q},\n"
    o += "    _ => return None,\n}) }\n"
H = []
def h(mod, prop, names):
    for n in names: H.append((mod, prop, n))
h("block_loop", "C25", "BlockPre BlockPost LoopPre LoopPost Select".split())
h("branch_if", "C26", "IfThen IfThenPost IfThenElse IfThenElsePost Br BrIf BrTable".split())
h("function_call_indirect", "C27", "Pre Post IndirectPre IndirectPost".split())
h("simple_operations", "C28", """Drop Return ConstI32 ConstF32 ConstI64 ConstF64 UnaryI32ToI32 UnaryI64ToI32 UnaryI64ToI64 UnaryF32ToF32 UnaryF64ToF64 UnaryF32ToI32 UnaryF64ToI32
UnaryI32ToI64 UnaryF32ToI64 UnaryF64ToI64 UnaryI32ToF32 UnaryI64ToF32 UnaryF64ToF32 UnaryI32ToF64 UnaryI64ToF64 UnaryF32ToF64
BinaryI32I32toI32 BinaryI64I64toI32 BinaryF32F32toI32 BinaryF64F64toI32 BinaryI64I64toI64 BinaryF32F32toF32 BinaryF64F64toF64""".split())
T = "I32 F32 I64 F64".split()
h("memory", "C29", ["MemorySize", "MemoryGrow"] + [a + t for t in T for a in ("LocalGet", "LocalSet", "LocalTee", "GlobalGet", "GlobalSet")] + [t + a for t in T for a in ("Store", "Load")])
# interface function, field and hook
def snake(n):
    m = re.match(r"Unary(...)To(...)$", n)
    if m: return f"unary_{m[1]}_to_{m[2]}".lower()
    m = re.match(r"Binary(...)(...)to(...)$", n)
    if m: return f"binary_{m[1]}_{m[2]}_to_{m[3]}".lower()
    m = re.match(r"(Local|Global)(Get|Set|Tee)(...)$", n)
    if m: return "_".join(m.groups()).lower()
    m = re.match(r"(...)(Store|Load)$", n)
    if m: return "_".join(m.groups()).lower()
    return {"BlockPre": "pre_block", "BlockPost": "post_block", "LoopPre": "pre_loop", "LoopPost": "post_loop", "Select": "select",
            "IfThen": "if_then_trap", "IfThenPost": "if_then_post_trap", "IfThenElse": "if_then_else_trap", "IfThenElsePost": "if_then_else_post_trap",
            "Br": "br_trap", "BrIf": "br_if_trap", "BrTable": "br_table_trap", "Pre": "pre_trap_call", "Post": "post_trap_call",
            "IndirectPre": "pre_trap_call_indirect", "IndirectPost": "post_trap_call_indirect", "Drop": "drop_trap", "Return": "return_trap",
            "ConstI32": "const_i32_trap", "ConstF32": "const_f32_trap", "ConstI64": "const_i64_trap", "ConstF64": "const_f64_trap",
            "MemorySize": "memory_size", "MemoryGrow": "memory_grow"}[n]
src = open("/repo/wastrumentation/src/analysis/mod.rs").read()
ifs = set(re.findall(r"^\s*interface_(\w+)\s", src, re.M))
def iface(n):
    s = snake(n)
    for c in (s, s.replace("_trap", ""), {"BrIf": "br_if", "Pre": "call_pre", "Post": "call_post", "IndirectPre": "call_indirect_pre", "IndirectPost": "call_indirect_post"}.get(n, "")):
        if c in ifs: return c
    sys.exit(f"no interface for {n} ({s}) in {sorted(ifs)}")
used = [iface(n) for _, _, n in H]
assert len(set(used)) == len(H) == len(ifs), (len(H), sorted(ifs - set(used)))
o += "pub struct Hook { pub name: &'static str, pub prop: &'static str, pub field: &'static str, pub make: fn(Idx<Function>) -> Box<dyn TransformationStrategy>, pub interface: fn() -> WasmExport, pub get: fn(&AnalysisInterface) -> &Option<WasmExport>, pub set: fn(&mut AnalysisInterface, WasmExport) }\n"
o += f"pub const HOOKS: [Hook; {len(H)}] = [\n"
for (m, p, n), i in zip(H, used):
    f = snake(n)
    o += f'    Hook {{ name: "{n}", prop: "{p}", field: "{f}", make: |i| Box::new(crate::instrument::{m}::Target::{n}(i)), interface: AnalysisInterface::interface_{i}, get: |a| &a.{f}, set: |a, e| a.{f} = Some(e) }},\n'
o += "];\n"
open("src/tables.rs", "w").write(o)
