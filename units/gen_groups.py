"""units/groups.vu: hook groups to hooks (C43) (run from units/: python3 gen_groups.py > groups.vu)"""
import io, contextlib
g = {}
with contextlib.redirect_stdout(io.StringIO()): exec(open("gen_iface.py").read(), g)
T, ts = g["T"], g["ts"]
FIELD = {"call_pre": "pre_trap_call", "call_post": "post_trap_call", "call_indirect_pre": "pre_trap_call_indirect", "call_indirect_post": "post_trap_call_indirect"}
for k in ("if_then", "if_then_post", "if_then_else", "if_then_else_post", "br", "br_if", "br_table", "drop", "return"): FIELD[k] = k + "_trap"
for t in "i32 i64 f32 f64".split(): FIELD[f"const_{t}"] = f"const_{t}_trap"
f = lambda k: FIELD.get(k, k)
ONE = dict(CallPre="call_pre", CallPost="call_post", CallIndirectPre="call_indirect_pre", CallIndirectPost="call_indirect_post", IfThen="if_then", IfThenPost="if_then_post",
    IfThenElse="if_then_else", IfThenElsePost="if_then_else_post", Branch="br", BranchIf="br_if", BranchTable="br_table", Select="select", Drop="drop", Return="return",
    MemorySize="memory_size", MemoryGrow="memory_grow", BlockPre="pre_block", BlockPost="post_block", LoopPre="pre_loop", LoopPost="post_loop")
GROUP = {k: [v] for k, v in ONE.items()}
for n, p in dict(Unary="unary_", Binary="binary_", Const="const_", Local="local_", Global="global_").items(): GROUP[n] = [k for k in T if k.startswith(p)]
for n, p in dict(Store="_store", Load="_load").items(): GROUP[n] = [k for k in T if k.endswith(p)]
assert sorted(sum(GROUP.values(), [])) == sorted(T), set(T) ^ set(sum(GROUP.values(), []))
ALL = ["GenericApply"] + list(GROUP)
# the advice of a WASP program that asks for a group
ADVICE = dict(IfThen="TrapIfThen", IfThenElse="TrapIfThenElse", BranchIf="TrapBrIf", BranchTable="TrapBrTable", CallIndirectPre="TrapCallIndirectPre", CallIndirectPost="TrapCallIndirectPost",
    BlockPre="TrapBlockPre", BlockPost="TrapBlockPost", LoopPre="TrapLoopPre", LoopPost="TrapLoopPost", Select="TrapSelect")
print(r"""@@include lib.vu
@@include sets.vu
@@opt loops
@@opt conv
@@map wastrumentation::analysis crate::analysis
@@map wastrumentation::compiler crate::compiler
@@map wasp_compiler::ast crate::ast
@@module analysis wastrumentation/src/analysis/mod.rs
@@drop analysis::use*
@@derive analysis::WasmType Clone, Copy
@@derive analysis::WasmImport
@@derive analysis::WasmExport
@@derive analysis::AnalysisInterface
@@raw vxlib
// Trusted: a String made from a str has the same text
pub broadcast axiom fn axiom_str_text(v: &str) ensures (#[trigger] <String as vstd::std_specs::convert::FromSpec::<&str>>::from_spec(v))@ == v@;
pub broadcast axiom fn axiom_str_ok() ensures #[trigger] <String as vstd::std_specs::convert::FromSpec::<&str>>::obeys_from_spec();
@@raw compiler
pub trait SourceCodeBound { type SourceCode; }
@@module ast::wasp wasp-compiler/src/ast/wasp.rs
@@only ast::wasp Root; AdviceDefinition; TrapSignature; TrapApply; ApplyHookSignature; ApplyGen; ApplySpe; GenericTarget; WasmParameter; WasmType; TrapIfThen; TrapIfThenElse; TrapBrIf; TrapBrTable; TrapCall; TrapCallIndirectPre; TrapCallIndirectPost; TrapBlockPre; TrapBlockPost; TrapLoopPre; TrapLoopPost; TrapSelect; BranchFormalCondition; BranchFormalLabel; BranchFormalTarget; BranchFormalDefault; FormalTable; FormalIndex; FormalTarget; SelectFormalCondition
@@module ast::pest wasp-compiler/src/ast/pest/mod.rs
@@only ast::pest CallQualifier
@@drop ast::pest::use*
@@drop ast::wasp::use*
@@derive ast::wasp::WasmType Clone, Copy
@@raw ast::wasp
use crate::ast::pest::CallQualifier;
@@raw provided
use crate::analysis::*;
/// what a WASP program, or a set of groups, asks for
#[verifier::ext_equal]
pub enum Group { """ + ", ".join(ALL) + """ }
pub enum Sw { Off, On }
pub open spec fn sw(b: bool) -> Sw { if b { Sw::On } else { Sw::Off } }
pub open spec fn decl_generic_apply(e: (WasmExport, WasmImport)) -> bool {
    e.0.name@ == "generic_apply"@ && e.0.args@ =~= seq![WasmType::I32, WasmType::I32, WasmType::I32, WasmType::I32, WasmType::I32, WasmType::I32, WasmType::I32] && e.0.results@.len() == 0
    && e.1.name@ == "call_base"@ && e.1.args@ =~= seq![WasmType::I32, WasmType::I32] && e.1.results@.len() == 0
}""")
for k, (name, ops, stat, back) in T.items():
    print(f"#[verifier::opaque] pub open spec fn decl_{k}(e: WasmExport) -> bool {{ e.name@ == \"{name}\"@ && e.args@ =~= {ts(ops + stat + ['I64', 'I64'])} && e.results@ =~= {ts(back)} }}")
EXPORTS = "(WasmExport, WasmImport)"
print(f"#[verifier::opaque] pub open spec fn g_GenericApply(o: Option<{EXPORTS}>, on: Sw) -> bool {{ match o {{ Some(e) => on is On && decl_generic_apply(e), None => on is Off }} }}")
for n, ks in GROUP.items():
    print(f"#[verifier::opaque] pub open spec fn g_{n}(" + ", ".join(f"o{j}: Option<WasmExport>" for j in range(len(ks))) + ", on: Sw) -> bool { " + " && ".join(f"(match o{j} {{ Some(e) => on is On && decl_{k}(e), None => on is Off }})" for j, k in enumerate(ks)) + " }")
def held(i, n, on): return f"g_{n}(" + ", ".join([f"{i}.{f(k)}" for k in GROUP[n]] if n in GROUP else [f"{i}.generic_interface"]) + f", {on})"
print("pub open spec fn provides(i: AnalysisInterface, s: spec_fn(Group) -> Sw) -> bool {\n    " + "\n    && ".join(held("i", n, f"s(Group::{n})") for n in ALL) + "\n}")
flds = lambda n: [f(k) for k in GROUP[n]] if n in GROUP else ["generic_interface"]
print("/// all but one group are as they were\n#[verifier::opaque] pub open spec fn kept(g: Group, a: AnalysisInterface, b: AnalysisInterface) -> bool {\n    " + "\n    && ".join(f"(g is {n} || (" + " && ".join(f"a.{k} == b.{k}" for k in flds(n)) + "))" for n in ALL) + "\n}")
print("/// that one is provided\n#[verifier::opaque] pub open spec fn fresh(g: Group, b: AnalysisInterface) -> bool { match g {\n    " + "\n    ".join(f"Group::{n} => {held('b', n, 'Sw::On')}," for n in ALL) + "\n} }")
print("""pub proof fn lem_step(g: Group, a: AnalysisInterface, b: AnalysisInterface, s: spec_fn(Group) -> Sw, t: spec_fn(Group) -> Sw)
    requires provides(a, s), kept(g, a, b), fresh(g, b), forall|h: Group| #[trigger] t(h) == (if h == g { Sw::On } else { s(h) })
    ensures provides(b, t)
{ reveal(kept); reveal(fresh); """ + " ".join(f"assert({held('b', n, f't(Group::{n})')});" for n in ALL) + " }")
print("""@@raw analysis
use crate::compiler::SourceCodeBound;
use self::WasmType::{F32, F64, I32, I64};
broadcast use {crate::vxlib::axiom_str_text, crate::vxlib::axiom_str_ok};
// Trusted: the derived default has nothing in it
impl Default for AnalysisInterface { #[verifier::external_body] fn default() -> (r: Self) ensures crate::provided::provides(r, |g: crate::provided::Group| crate::provided::Sw::Off) { unimplemented!() } }""")
for k in list(T):
    name, ops, stat, back = T[k]
    print(f"@@fn analysis::AnalysisInterface::interface_{k}\n@contract\n    ensures crate::provided::decl_{k}(r), // [C43]")
    print(f"@start\n    proof {{ reveal(crate::provided::decl_{k}); }}")
print("@@fn analysis::AnalysisInterface::interface_generic_apply\n@contract\n    ensures crate::provided::decl_generic_apply(r), // [C43]")
REV = " ".join(f"reveal(g_{n});" for n in ALL)
SET = " ".join(f"if *x0 is {n} {{ assert({held('interface', n, 'Sw::On')}) by {{ reveal(g_{n}); }} }}" for n in ALL)
CASES = "\n".join(f"*x0 is {n}" for n in ALL)
for m, d, L, S in (("rust_analysis", "rust", "Rust", "RustSource"), ("wasm_analysis", "webassembly", "WebAssembly", "WebAssemblySource")):
    spec = L + "AnalysisSpec" if L == "Rust" else "WasmAnalysisSpec"
    print(f"""@@module {m} supported-languages/{d}/src/generate/analysis/mod.rs
@@drop {m}::use*
@@derive {m}::Hook Clone, Copy
@@raw {m}
use crate::analysis::*;
use crate::provided::*;
use crate::compiler::*;
use crate::sets::*;
pub struct {L} {{}}
#[verifier::external_body] pub struct {S} {{ x: u8 }}
impl SourceCodeBound for {L} {{ type SourceCode = {S}; }}
pub open spec fn of(h: Hook) -> Group {{ match h {{ {", ".join(f"Hook::{n} => Group::{n}" for n in ALL)} }} }}
pub open spec fn hook(g: Group) -> Hook {{ match g {{ {", ".join(f"Group::{n} => Hook::{n}" for n in ALL)} }} }}
#[verifier::opaque] pub open spec fn chosen(s: Set<Hook>) -> spec_fn(Group) -> Sw {{ |g: Group| sw(s.contains(hook(g))) }}
#[verifier::opaque] pub open spec fn sofar(s: Seq<Hook>) -> spec_fn(Group) -> Sw {{ |g: Group| sw(s.contains(hook(g))) }}
proof fn lem_more(s: Seq<Hook>, k: int) requires 0 <= k < s.len()
    ensures forall|g: Group| #[trigger] sofar(s.take(k + 1))(g) == (if g == of(s[k]) {{ Sw::On }} else {{ sofar(s.take(k))(g) }})
{{ reveal(sofar); assert(s.take(k + 1) =~= s.take(k).push(s[k]));
   assert forall|g: Group| #[trigger] sofar(s.take(k + 1))(g) == (if g == of(s[k]) {{ Sw::On }} else {{ sofar(s.take(k))(g) }}) by {{
       let h = hook(g); assert(of(h) == g); assert(hook(of(s[k])) == s[k]);
       let a = s.take(k + 1); let b = s.take(k);
       if a.contains(h) {{ let i = choose|i: int| 0 <= i < a.len() && a[i] == h; if i < k {{ assert(b[i] == h); }} else {{ assert(h == s[k]); }} }}
       if b.contains(h) {{ let i = choose|i: int| 0 <= i < b.len() && b[i] == h; assert(a[i] == h); }}
       if g == of(s[k]) {{ assert(a[k] == h); }}
   }} }}
proof fn lem_none() ensures forall|g: Group| (#[trigger] sofar(Seq::<Hook>::empty())(g)) is Off {{ reveal(sofar); }}
proof fn lem_all(s: Seq<Hook>, m: Set<Hook>) requires lists(s, m) ensures forall|g: Group| #[trigger] chosen(m)(g) == sofar(s)(g) {{ reveal(sofar); reveal(chosen); }}
@@fn {m}::Hook::all_hooks
@contract
    ensures forall|h: Hook| #[trigger] r@.contains(h), // [C43]
@@fn {m}::interface_from
@contract
    ensures provides(r, chosen($p0@)), // [C43]
@lbefore 0
    proof {{ lem_none(); assert($p0.order().take(0) =~= Seq::<Hook>::empty()); }}
@loop 0
invariant refs(all0, $p0.order()), lists($p0.order(), $p0@), provides(interface, sofar($p0.order().take(idx0))), // [C43]
@lstart 0
    proof {{ assert(x0 == all0[idx0 - 1]); lem_more($p0.order(), idx0 - 1); }} let ghost i0 = interface;
@lend 0
    proof {{ assert(kept(of(*x0), i0, interface)) by {{ reveal(kept); }} assert(fresh(of(*x0), interface)) by {{ {SET} reveal(fresh); }}
        lem_step(of(*x0), i0, interface, sofar($p0.order().take(idx0 - 1)), sofar($p0.order().take(idx0))); }}
@lafter 0
    proof {{ assert($p0.order().take($p0.order().len() as int) =~= $p0.order()); lem_all($p0.order(), $p0@); }}
@lcases 0
{CASES}
@@fn {m}::<From<{spec}>forProcessedAnalysis<{L}>>::from
@contract
    ensures provides(r.analysis_interface, chosen($p0.hooks@)), // [C43]
        r.analysis_library == $p0.source, // [C43]
""")
ASC = " ".join(f"if asks(*x0, Group::{n}) {{ assert({held('wasp_interface', n, 'Sw::On')}) by {{ reveal(g_{n}); }} }}" for n in ["GenericApply", "CallPre", "CallPost", *ADVICE])
print(f"""@@module asc_analysis supported-languages/assemblyscript/src/generate/analysis/wasp.rs
@@drop asc_analysis::use*
@@raw asc_analysis
use crate::analysis::AnalysisInterface;
use crate::ast::pest::CallQualifier;
use crate::ast::wasp::*;
use crate::provided::*;
/// an advice asks for a group
pub open spec fn asks(a: AdviceDefinition, g: Group) -> bool {{
    match a {{ AdviceDefinition::AdviceTrap(t) => match g {{
        Group::GenericApply => t matches TrapSignature::TrapApply(x) && x.apply_hook_signature is Gen,
        Group::CallPre => t matches TrapSignature::TrapCall(x) && x.call_qualifier is Pre,
        Group::CallPost => t matches TrapSignature::TrapCall(x) && x.call_qualifier is Post,
        {"".join(f'''
        Group::{g} => t is {a},''' for g, a in ADVICE.items())}
        _ => false,
    }}, _ => false }}
}}
pub open spec fn goal(a: AdviceDefinition) -> Group {{ if asks(a, Group::GenericApply) {{ Group::GenericApply }} else if asks(a, Group::CallPre) {{ Group::CallPre }} else if asks(a, Group::CallPost) {{ Group::CallPost }}{"".join(f" else if asks(a, Group::{g}) {{ Group::{g} }}" for g in list(ADVICE)[:-1])} else {{ Group::{list(ADVICE)[-1]} }} }}
#[verifier::opaque] pub open spec fn asked(s: Seq<AdviceDefinition>) -> spec_fn(Group) -> Sw {{ |g: Group| sw(exists|k: int| 0 <= k < s.len() && asks(#[trigger] s[k], g)) }}
pub open spec fn speaks(a: AdviceDefinition) -> bool {{ a matches AdviceDefinition::AdviceTrap(t) && (t matches TrapSignature::TrapApply(x) && x.apply_hook_signature is Spe) }}
proof fn lem_none() ensures forall|g: Group| (#[trigger] asked(Seq::<AdviceDefinition>::empty())(g)) is Off {{ reveal(asked); }}
proof fn lem_asked(s: Seq<AdviceDefinition>, k: int) requires 0 <= k < s.len()
    ensures forall|g: Group| #[trigger] asked(s.take(k + 1))(g) == (if asks(s[k], g) {{ Sw::On }} else {{ asked(s.take(k))(g) }})
{{ assert forall|g: Group| #[trigger] asked(s.take(k + 1))(g) == (if asks(s[k], g) {{ Sw::On }} else {{ asked(s.take(k))(g) }}) by {{
    reveal(asked);
    let a = s.take(k + 1); let b = s.take(k);
    if asked(a)(g) is On {{ let i = choose|i: int| 0 <= i < a.len() && asks(#[trigger] a[i], g); if i < k {{ assert(b[i] == a[i]); }} }}
    if asked(b)(g) is On {{ let i = choose|i: int| 0 <= i < b.len() && asks(#[trigger] b[i], g); assert(a[i] == b[i]); }}
    if asks(s[k], g) {{ assert(a[k] == s[k]); }}
}} }}
@@fn asc_analysis::<From<&WaspRoot>forAnalysisInterface>::from
@panics true
@contract
    ensures provides(r, asked($p0.0.0@)), // [C43]
@lbefore 0
    proof {{ lem_none(); assert($p0.0.0@.take(0) =~= Seq::<AdviceDefinition>::empty()); }}
@loop 0
invariant crate::sets::refs(all0, $p0.0.0@), provides(wasp_interface, asked($p0.0.0@.take(idx0))), // [C43]
@lstart 0
    proof {{ assert(x0 == all0[idx0 - 1]); lem_asked($p0.0.0@, idx0 - 1); }} let ghost i0 = wasp_interface;
@lend 0
    proof {{ let g = goal(*x0); if !(x0 is AdviceTrap) {{ assert(wasp_interface == i0); assert forall|h: Group| #[trigger] asked($p0.0.0@.take(idx0))(h) == asked($p0.0.0@.take(idx0 - 1))(h) by {{}} assert(provides(i0, asked($p0.0.0@.take(idx0 - 1)))); }} else {{ assert(asks(*x0, g)); assert forall|h: Group| asks(*x0, h) implies h == g by {{}}; assert(kept(g, i0, wasp_interface)) by {{ reveal(kept); }} assert(fresh(g, wasp_interface)) by {{ {ASC} reveal(fresh); }}
        lem_step(g, i0, wasp_interface, asked($p0.0.0@.take(idx0 - 1)), asked($p0.0.0@.take(idx0))); }} }}
@lafter 0
    proof {{ assert($p0.0.0@.take($p0.0.0@.len() as int) =~= $p0.0.0@); }}
""")
