"""C33: the declared type and name of every hook (run from units/: python3 gen_iface.py > iface.vu)"""
# hook, name, operands, static operands pushed at the call site, what the program goes on with
T = {}
def h(f, name, ops, stat, back):
    T[f] = (name, ops.split(), stat.split(), back.split())
h("if_then", "specialized_if_then_k", "I32", "I32 I32", "I32")              # condition; inputs, results
h("if_then_post", "trap_if_then_post", "", "", "")
h("if_then_else", "specialized_if_then_else_k", "I32", "I32 I32", "I32")
h("if_then_else_post", "trap_if_then_else_post", "", "", "")
h("br", "specialized_br", "", "I64", "")                                    # label
h("br_if", "specialized_br_if", "I32", "I32", "I32")
h("br_table", "specialized_br_table", "I32", "I32 I32", "I32")              # index; runtime label, default
h("call_pre", "specialized_call_pre", "", "I32", "")                        # target
h("call_post", "specialized_call_post", "", "I32", "")
h("call_indirect_pre", "specialized_call_indirect_pre", "I32", "I32", "I32")  # index; table
h("call_indirect_post", "specialized_call_indirect_post", "", "I32", "")
h("select", "specialized_select", "I32", "", "I32")
h("return", "return_trap", "", "", "")
h("drop", "drop_trap", "", "", "")
for t in ("I32", "F32", "I64", "F64"):
    l = t.lower()
    h(f"const_{l}", f"trap_const_{l}", t, "", t)
    for k in ("get", "set", "tee"): h(f"local_{k}_{l}", f"trap_local_{k}_{l}", t, "I64", t)      # index
    for k in ("get", "set"): h(f"global_{k}_{l}", f"trap_global_{k}_{l}", t, "I64", t)
    h(f"{l}_store", f"trap_{l}_store", f"I32 {t}", "I64 I32", "")                                # address, value; offset, operator
    h(f"{l}_load", f"trap_{l}_load", "I32", "I64 I32", t)
for s in ("i32_to_i32 i64_to_i32 i64_to_i64 f32_to_f32 f64_to_f64 f32_to_i32 f64_to_i32 i32_to_i64 f32_to_i64 f64_to_i64 i32_to_f32 i64_to_f32 f64_to_f32 i32_to_f64 i64_to_f64 f32_to_f64").split():
    a, b = s.split("_to_")
    h(f"unary_{s}", f"unary_{s}", a.upper(), "I32", b.upper())                                   # operator
for s in "i32_i32_to_i32 i64_i64_to_i32 f32_f32_to_i32 f64_f64_to_i32 i64_i64_to_i64 f32_f32_to_f32 f64_f64_to_f64".split():
    a, b = s.split("_to_")
    h(f"binary_{s}", f"binary_{s}", " ".join(x.upper() for x in a.split("_")), "I32", b.upper())
h("memory_size", "trap_memory_size", "I32", "I64", "I32")
h("memory_grow", "trap_memory_grow", "I32", "I64", "I32")
for k in ("block", "loop"):
    h(f"pre_{k}", f"trap_{k}_pre", "", "I32 I32", "")                                            # inputs, results
    h(f"post_{k}", f"trap_{k}_post", "", "", "")
E = list(T) + ["generic_apply", "call_base"]
NAMES = {k: v[0] for k, v in T.items()} | {"generic_apply": "generic_apply", "call_base": "call_base"}

def tree(names, used=()):
    """a decision tree over length and characters that tells the names apart"""
    if len(names) == 1: return f"{E.index(names[0])}"
    best = None
    lens = sorted({len(NAMES[n]) for n in names})
    if len(lens) > 1 and "len" not in used:
        out = ""
        for l in lens[:-1]: out += f"if s.len() == {l} {{ {tree([n for n in names if len(NAMES[n]) == l], ('len',))} }} else "
        return out + f"{{ {tree([n for n in names if len(NAMES[n]) == lens[-1]], ('len',))} }}"
    n0 = len(NAMES[names[0]])
    k = max(range(n0), key=lambda k: len({NAMES[n][k] for n in names}))
    cs = sorted({NAMES[n][k] for n in names})
    assert len(cs) > 1, names
    out = ""
    for c in cs[:-1]: out += f"if s[{k}] == '{c}' {{ {tree([n for n in names if NAMES[n][k] == c], ('len',))} }} else "
    return out + f"{{ {tree([n for n in names if NAMES[n][k] == cs[-1]], ('len',))} }}"

def ts(l): return "seq![" + ", ".join(f"WasmType::{x}" for x in l) + "]" if l else "Seq::<WasmType>::empty()"
print("""@@include lib.vu
@@module analysis wastrumentation/src/analysis/mod.rs
@@drop analysis::use*
@@drop analysis::ProcessedAnalysis*
@@derive analysis::WasmType Clone, Copy
@@derive analysis::WasmImport
@@derive analysis::WasmExport
@@derive analysis::AnalysisInterface
@@raw vxlib
// Trusted: a String made from a str has the same text
pub broadcast axiom fn axiom_str_text(v: &str) ensures (#[trigger] <String as vstd::std_specs::convert::FromSpec::<&str>>::from_spec(v))@ == v@;
pub broadcast axiom fn axiom_str_ok() ensures #[trigger] <String as vstd::std_specs::convert::FromSpec::<&str>>::obeys_from_spec();
@@raw hooknames
pub open spec fn known_name(i: int) -> Seq<char> {""")
print("    " + " else ".join(f"if i == {i} {{ \"{NAMES[e]}\"@ }}" for i, e in enumerate(E)) + " else { Seq::empty() }\n}")
print(f"pub open spec fn hooks() -> int {{ {len(E)} }}")
print(f"/// which hook a name belongs to\npub open spec fn which(s: Seq<char>) -> int {{ {tree(E)} }}")
N = 20
for i, e in enumerate(E):
    print(f"proof fn lem_which{i}() ensures which(\"{NAMES[e]}\"@) == {i} {{ reveal_strlit(\"{NAMES[e]}\"); }}")
print("proof fn lem_which(i: int) requires 0 <= i < hooks() ensures which(known_name(i)) == i {")
print("    " + " else ".join(f"if i == {i} {{ lem_which{i}(); }}" for i in range(len(E))))
print("}\n/// hook names are pairwise distinct\npub proof fn lem_names_distinct(i: int, j: int) requires 0 <= i < hooks(), 0 <= j < hooks(), known_name(i) == known_name(j)\n    ensures i == j, // [C33]\n{ lem_which(i); lem_which(j); }")
print("""@@raw analysis
use self::WasmType::{F32, F64, I32, I64};
use crate::hooknames::*;
broadcast use {axiom_str_text, axiom_str_ok};
/// the shape of the stack at the call sites of a hook
pub open spec fn shape(operands: Seq<WasmType>, statics: Seq<WasmType>) -> Seq<WasmType> { operands + statics + seq![WasmType::I64, WasmType::I64] }""")
for i, f in enumerate(T):
    name, ops, stat, back = T[f]
    print(f"""@@fn analysis::AnalysisInterface::interface_{f}
@contract
    ensures r.args@ =~= shape({ts(ops)}, {ts(stat)}), // [C33]
        r.results@ =~= {ts(back)}, // [C33]
        r.name@ == "{name}"@, // [C33?]""")
print("""@@fn analysis::AnalysisInterface::interface_generic_apply
@contract
    ensures r.0.args@ =~= seq![WasmType::I32, WasmType::I32, WasmType::I32, WasmType::I32, WasmType::I32, WasmType::I32, WasmType::I32], // [C33]
        r.0.results@.len() == 0, r.1.results@.len() == 0, // [C33]
        r.1.args@ =~= seq![WasmType::I32, WasmType::I32], // [C33]
        r.0.name@ == "generic_apply"@, // [C33?]
        r.1.name@ == "call_base"@, // [C33?]""")
