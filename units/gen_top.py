"""units/top.vu: selection, hook wiring and the whole instrumentation pipeline (C40, C42) (run from units/: python3 gen_top.py > top.vu)"""
K = {"block_loop": "BlockPre BlockPost LoopPre LoopPost Select", "branch_if": "IfThen IfThenPost IfThenElse IfThenElsePost Br BrIf BrTable", "function_call_indirect": "Pre Post IndirectPre IndirectPost"}
TY = ["I32", "I64", "F32", "F64"]
low = str.lower
H = [("pre_block", "block_loop", "BlockPre"), ("post_block", "block_loop", "BlockPost"), ("pre_loop", "block_loop", "LoopPre"), ("post_loop", "block_loop", "LoopPost"), ("select", "block_loop", "Select"),
     ("pre_trap_call", "function_call_indirect", "Pre"), ("post_trap_call", "function_call_indirect", "Post"), ("pre_trap_call_indirect", "function_call_indirect", "IndirectPre"), ("post_trap_call_indirect", "function_call_indirect", "IndirectPost"),
     ("if_then_trap", "branch_if", "IfThen"), ("if_then_post_trap", "branch_if", "IfThenPost"), ("if_then_else_trap", "branch_if", "IfThenElse"), ("if_then_else_post_trap", "branch_if", "IfThenElsePost"),
     ("br_trap", "branch_if", "Br"), ("br_if_trap", "branch_if", "BrIf"), ("br_table_trap", "branch_if", "BrTable"), ("drop_trap", "simple_operations", "Drop"), ("return_trap", "simple_operations", "Return")]
H += [(f"const_{low(t)}_trap", "simple_operations", f"Const{t}") for t in ["I32", "F32", "I64", "F64"]]
H += [(f"unary_{low(a)}_to_{low(b)}", "simple_operations", f"Unary{a}To{b}") for a, b in [x.split(">") for x in "I32>I32 I64>I32 I64>I64 F32>F32 F64>F64 F32>I32 F64>I32 I32>I64 F32>I64 F64>I64 I32>F32 I64>F32 F64>F32 I32>F64 I64>F64 F32>F64".split()]]
H += [(f"binary_{low(a)}_{low(a)}_to_{low(b)}", "simple_operations", f"Binary{a}{a}to{b}") for a, b in [x.split(">") for x in "I32>I32 I64>I32 F32>I32 F64>I32 I64>I64 F32>F32 F64>F64".split()]]
H += [("memory_size", "memory", "MemorySize"), ("memory_grow", "memory", "MemoryGrow")]
H += [(f"{a}_{b}_{low(t)}", "memory", f"{a.title()}{b.title()}{t}") for t in ["I32", "F32", "I64", "F64"] for a, b in (("local", "get"), ("local", "set"), ("local", "tee"), ("global", "get"), ("global", "set"))]
H += [(f"{low(t)}_{o}", "memory", f"{t}{o.title()}") for o in ("store", "load") for t in ("F32", "F64", "I32", "I64")]
assert len(H) == 75
V = {"block_loop": "Block", "branch_if": "Branch", "function_call_indirect": "Call", "memory": "Memory", "simple_operations": "Simple"}
M = list(V)
INJ = ["inject_memory_loads", "inject_memory_stores", "inject_memory_grow", "inject_memory_size"]
def cases(f): return "".join(f"    {'else ' if i else ''}{'if k == %d ' % i if i < 74 else ''}{{ {f(h)} }}\n" for i, h in enumerate(H))
print(r"""@@include lib.vu
@@include wasabi.vu
@@include sets.vu
@@map wasabi_wasm crate::wasabi_wasm
@@opt loops
@@opt localfns
@@opt conv
@@module instrument wastrumentation/src/instrument/mod.rs
@@only instrument WasabiValType; <From<WasmType>forWasabiValType>; ValTypeVec; <From<Vec<WasmType>>forValTypeVec>; FunctionTypeConvertible; <FunctionTypeConvertibleforWasmExport>; <FunctionTypeConvertibleforWasmImport>; Instrumented; instrument; uses_reference_types; Instrumentable; <InstrumentableforModule>; TransformationStrategy
@@drop instrument::usestd*
@@module analysis wastrumentation/src/analysis/mod.rs
@@only analysis WasmExport; WasmImport; WasmType; AnalysisInterface
@@drop analysis::use*
@@drop analysis::AnalysisInterface::*
@@derive analysis::WasmExport
@@derive analysis::WasmImport
@@derive analysis::WasmType Clone, Copy
@@derive analysis::AnalysisInterface
@@module error wastrumentation/src/error.rs
@@only error InstrumentationError
@@drop error::use*
@@derive error::InstrumentationError
@@raw error
use crate::parse_nesting::LowToHighError;
use crate::wasabi_wasm::*;
@@module instrument::function_application wastrumentation/src/instrument/function_application.rs
@@only instrument::function_application INSTRUMENTATION_STACK_MODULE; INSTRUMENTATION_ANALYSIS_MODULE; INSTRUMENTATION_INSTRUMENTED_MODULE; instrument
@@drop instrument::function_application::use*
@@raw instrument::function_application
use crate::wasabi_wasm::*;
use crate::analysis::*;
use crate::compiler::*;
use crate::sets::*;
""")
for m in M:
    print(f"@@module instrument::{m} wastrumentation/src/instrument/{m}.rs\n@@only instrument::{m} Target; <TransformationStrategyforTarget>" + ("; " + "; ".join(INJ) if m == "memory" else ""))
    print(f"@@derive instrument::{m}::Target Clone, Copy\n@@drop instrument::{m}::use*\n@@raw instrument::{m}\nuse super::TransformationStrategy;\nuse crate::wasabi_wasm::*;\nuse crate::parse_nesting::HighLevelBody;")
    print(f"@@rawimpl instrument::{m}::<TransformationStrategyforTarget>\nopen spec fn made(&self) -> crate::vxfn::Made {{ crate::vxfn::Made::{V[m]}(*self) }}")
print(r"""@@rawimpl instrument::TransformationStrategy
spec fn made(&self) -> crate::vxfn::Made;
@@raw vxfn
// a hook kind with the function it calls
use crate::wasabi_wasm::{Idx, Function};
use crate::instrument::TransformationStrategy;
pub enum Made { """ + ", ".join(f"{V[m]}(crate::instrument::{m}::Target)" for m in M) + r""" }
pub open spec fn made_of<T: TransformationStrategy>(t: T) -> Made { t.made() }
pub fn call(f: &Box<dyn VxFn>, i: Idx<Function>) -> (r: Box<dyn TransformationStrategy>) ensures r.made() == f.made(i) { f.call(i) }
pub trait VxFn { spec fn made(&self, i: Idx<Function>) -> Made; fn call(&self, i: Idx<Function>) -> (r: Box<dyn TransformationStrategy>) ensures r.made() == self.made(i); }
@@raw compiler
#[verifier::external_body] #[verifier::accept_recursive_types(L)] pub struct Library<L> { l: L }
pub trait LibGeneratable: Sized { }
@@raw parse_nesting
use crate::wasabi_wasm::*;
// the nested body; lifting and lowering have their own contracts (C20 to C23)
#[verifier::external_body] pub struct HighLevelBody { x: () }
#[verifier::external_body] pub struct LowToHighError { x: () }
pub struct LowLevelBody(pub Vec<Instr>);
pub uninterp spec fn lifted(m: Module, f: Function, c: Code, i: Idx<Function>, b: HighLevelBody) -> bool;
pub uninterp spec fn lowered(b: HighLevelBody) -> LowLevelBody;
impl TryFrom<(&Module, &Function, &Code, &Idx<Function>)> for HighLevelBody {
    type Error = LowToHighError;
    #[verifier::external_body]
    fn try_from(x: (&Module, &Function, &Code, &Idx<Function>)) -> (r: Result<Self, LowToHighError>) ensures r matches Ok(b) ==> lifted(*x.0, *x.1, *x.2, *x.3, b) { unimplemented!() }
}
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<(&'a Module, &'a Function, &'a Code, &'a Idx<Function>)> for HighLevelBody {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: (&'a Module, &'a Function, &'a Code, &'a Idx<Function>)) -> Result<Self, LowToHighError> { vstd::prelude::arbitrary() }
}
impl From<HighLevelBody> for LowLevelBody { #[verifier::external_body] fn from(v: HighLevelBody) -> (r: Self) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<HighLevelBody> for LowLevelBody { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: HighLevelBody) -> Self { lowered(v) } }
@@raw vxlib
/// Trusted: Iterator::zip with a vector
#[verifier::external_body]
pub fn zip<I: Iterator, T>(a: I, b: Vec<T>) -> (r: std::vec::IntoIter<(I::Item, T)>)
    requires a.obeys_prophetic_iter_laws(), a.decrease() is Some
    ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some, IteratorSpec::will_return_none(&r),
        IteratorSpec::remaining(&r).len() == if a.remaining().len() < b@.len() { a.remaining().len() } else { b@.len() },
        forall|i: int| 0 <= i < IteratorSpec::remaining(&r).len() ==> (#[trigger] IteratorSpec::remaining(&r)[i]).0 == a.remaining()[i] && IteratorSpec::remaining(&r)[i].1 == b@[i]
{ unimplemented!() }
/// Trusted: slice contains
pub uninterp spec fn has_item<T>(s: Seq<T>, x: T) -> bool;
pub broadcast axiom fn axiom_has_item(s: Seq<u32>, x: u32) ensures #[trigger] has_item(s, x) == s.contains(x);
pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool) ensures r == has_item(s@, *x);
pub broadcast axiom fn axiom_str_to_string(s: &str, res: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<str>(s, res) ==> s@ == res@;
@@raw wasabi_wasm
pub struct Offsets { x: u8 }
pub struct ParseIssues { x: u8 }
pub struct ParseError { x: u8 }
pub struct EncodeError { x: u8 }
pub uninterp spec fn parsed(b: Seq<u8>, m: Module) -> bool;
pub uninterp spec fn encoded(m: Module, b: Seq<u8>) -> bool;
pub open spec fn listing(r: Seq<(Idx<Function>, &Function)>, s: Seq<Function>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] r[i]).0 == mk::<Function>(i as u32) && *r[i].1 == s[i] }
impl Function { #[verifier::external_body] pub fn code(&self) -> (r: Option<&Code>) ensures match self.code { ImportOrPresent::Import(..) => r is None, ImportOrPresent::Present(c) => r is Some && *r->0 == c } { unimplemented!() } }
impl Clone for Local { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn imported(f: Function, t: FunctionType, m: Seq<char>, n: Seq<char>) -> bool {
    f.type_ == t && f.export@.len() == 0 && (f.code matches ImportOrPresent::Import(a, b) && a@ == m && b@ == n)
}
impl Module {
    #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: Result<(Module, Offsets, ParseIssues), ParseError>) ensures r matches Ok(m) ==> parsed(b@, m.0) && m.0.functions@.len() <= u32::MAX { unimplemented!() }
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: Result<Vec<u8>, EncodeError>) ensures r matches Ok(b) ==> encoded(*self, b@) { unimplemented!() }
    #[verifier::external_body] pub fn functions<'a>(&'a self) -> (r: std::vec::IntoIter<(Idx<Function>, &'a Function)>)
        ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some, IteratorSpec::will_return_none(&r), listing(IteratorSpec::remaining(&r), self.functions@) { unimplemented!() }
    #[verifier::external_body]
    pub fn function(&self, i: Idx<Function>) -> (r: &Function) requires i.n() < self.functions@.len() ensures *r == self.functions@[i.n() as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn function_mut(&mut self, i: Idx<Function>) -> (r: &mut Function)
        requires i.n() < old(self).functions@.len()
        ensures *r == old(self).functions@[i.n() as int], final(self).functions@ == old(self).functions@.update(i.n() as int, *final(r)),
            final(self).memories == old(self).memories, final(self).tables == old(self).tables, final(self).elements == old(self).elements,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_function_import(&mut self, t: FunctionType, module: String, name: String) -> (r: Idx<Function>)
        ensures r.n() == old(self).functions@.len(), final(self).functions@.len() == old(self).functions@.len() + 1,
            final(self).functions@.drop_last() =~= old(self).functions@, imported(final(self).functions@.last(), t, module@, name@),
            final(self).memories == old(self).memories, final(self).tables == old(self).tables, final(self).elements == old(self).elements,
    { unimplemented!() }
}
@@raw wiring
use crate::wasabi_wasm::*;
use crate::analysis::*;
use crate::instrument::*;
use crate::parse_nesting::*;
use crate::compiler::*;
use crate::vxfn::*;
use crate::sets::*;
pub open spec fn vt(t: WasmType) -> ValType { match t { WasmType::I32 => ValType::I32, WasmType::F32 => ValType::F32, WasmType::I64 => ValType::I64, WasmType::F64 => ValType::F64 } }
pub open spec fn vts(s: Seq<WasmType>) -> Seq<ValType> { Seq::new(s.len(), |i: int| vt(s[i])) }
// ---- which functions ----
pub open spec fn any_ref(s: Seq<ValType>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Ref }
pub open spec fn has_refs(t: FunctionType) -> bool { any_ref(t.ins()) || any_ref(t.outs()) }
pub open spec fn asked(ts: Option<Vec<u32>>, i: u32) -> bool { ts is None || ts->0@.contains(i) }
pub open spec fn wanted(m: Seq<Function>, ts: Option<Vec<u32>>, i: u32) -> bool { i < m.len() && !has_refs(m[i as int].type_) && asked(ts, i) }
pub open spec fn wanted_code(m: Seq<Function>, ts: Option<Vec<u32>>, i: u32) -> bool { wanted(m, ts, i) && m[i as int].code is Present }
pub open spec fn chosen(s: Set<Idx<Function>>, m: Seq<Function>, ts: Option<Vec<u32>>, n: int) -> bool { forall|i: Idx<Function>| #[trigger] s.contains(i) <==> i.n() < n && wanted(m, ts, i.n()) }
pub open spec fn chosen_code(s: Set<Idx<Function>>, m: Seq<Function>, ts: Option<Vec<u32>>, n: int) -> bool { forall|i: Idx<Function>| #[trigger] s.contains(i) <==> i.n() < n && wanted_code(m, ts, i.n()) }
// ---- which hooks: the field of the interface and the instrumentation it asks for ----
#[verifier::opaque]
pub open spec fn field(a: AnalysisInterface, k: int) -> Option<WasmExport> {
""" + cases(lambda h: "a." + h[0]) + r"""}
#[verifier::opaque]
pub open spec fn kind(k: int, i: Idx<Function>) -> Made {
""" + cases(lambda h: f"Made::{V[h[1]]}({h[1]}::Target::{h[2]}(i))") + r"""}
/// the hooks the analysis provides, among the first n
pub open spec fn provided(a: AnalysisInterface, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else if field(a, n - 1) is Some { provided(a, n - 1).push(n - 1) } else { provided(a, n - 1) } }
pub open spec fn import_of(f: Function, e: WasmExport) -> bool { imported(f, fty(vts(e.args@), vts(e.results@)), "WASTRUMENTATION_ANALYSIS"@, e.name@) }
pub open spec fn same_rest(m: Module, n: Module) -> bool { m.memories == n.memories && m.tables == n.tables && m.elements == n.elements }
/// each provided hook is imported once, in order
#[verifier::opaque]
pub open spec fn installed(a: AnalysisInterface, n: int, m0: Module, m1: Module, hs: Seq<Made>) -> bool {
    let p = provided(a, n); let b = m0.functions@.len();
    &&& m1.functions@.len() == b + p.len() && hs.len() == p.len() && same_rest(m0, m1)
    &&& m1.functions@.take(b as int) =~= m0.functions@
    &&& forall|j: int| 0 <= j < p.len() ==> import_of(m1.functions@[b + j], field(a, #[trigger] p[j])->0)
    &&& forall|j: int| 0 <= j < p.len() ==> hs[j] == kind(#[trigger] p[j], mk((b + j) as u32))
}
#[verifier::opaque]
pub open spec fn entry(t: (&Option<WasmExport>, Box<dyn VxFn>), a: AnalysisInterface, k: int) -> bool { *t.0 == field(a, k) && forall|i: Idx<Function>| #[trigger] t.1.made(i) == kind(k, i) }
#[verifier::opaque]
pub open spec fn table(t: Seq<(&Option<WasmExport>, Box<dyn VxFn>)>, a: AnalysisInterface) -> bool { t.len() == 75 && forall|k: int| 0 <= k < 75 ==> entry(#[trigger] t[k], a, k) }
pub open spec fn mades(v: Seq<Box<dyn TransformationStrategy>>) -> Seq<Made> { Seq::new(v.len(), |j: int| v[j].made()) }
// ---- the instrumentation of the bodies ----
/// one hook over one body (the contracts of C25 to C31 say what it does)
pub uninterp spec fn transformed(h: Made, b: HighLevelBody, m: Module, r: HighLevelBody, n: Module) -> bool;
/// functions may be added at the end, nothing else changes
#[verifier::opaque]
pub open spec fn upward(m: Module, n: Module) -> bool { m.functions@.len() <= n.functions@.len() && n.functions@.take(m.functions@.len() as int) =~= m.functions@ && same_rest(m, n) }
pub struct At { pub b: HighLevelBody, pub m: Module }
pub open spec fn trace(hs: Seq<Made>, t: Seq<At>, n: int) -> bool { t.len() == n + 1 && forall|j: int| 0 <= j < n ==> transformed(hs[j], (#[trigger] t[j]).b, t[j].m, t[j + 1].b, t[j + 1].m) }
/// every hook once, in order
pub open spec fn all_hooks(hs: Seq<Made>, b: HighLevelBody, m: Module, r: HighLevelBody, n: Module) -> bool {
    exists|t: Seq<At>| #[trigger] trace(hs, t, hs.len() as int) && t[0] == (At { b, m }) && t.last() == (At { b: r, m: n })
}
#[verifier::opaque]
pub open spec fn bodies(hs: Seq<Made>, bs: Seq<HighLevelBody>, ms: Seq<Module>, rs: Seq<HighLevelBody>, n: int) -> bool {
    ms.len() == n + 1 && rs.len() == n && forall|j: int| 0 <= j < n ==> all_hooks(hs, #[trigger] bs[j], ms[j], rs[j], ms[j + 1])
}
pub open spec fn lifts(m: Module, o: Seq<Idx<Function>>, bs: Seq<HighLevelBody>, n: int) -> bool {
    bs.len() == n && forall|j: int| 0 <= j < n ==> m.functions@[(#[trigger] o[j]).n() as int].code is Present && lifted(m, m.functions@[o[j].n() as int], m.functions@[o[j].n() as int].code->Present_0, o[j], bs[j])
}
pub open spec fn with_body(f: Function, g: Function, b: HighLevelBody) -> bool {
    g.type_ == f.type_ && g.export == f.export && g.name == f.name && f.code is Present && g.code is Present && g.code->Present_0.body == lowered(b).0 && g.code->Present_0.locals@ =~= f.code->Present_0.locals@
}
pub open spec fn among(o: Seq<Idx<Function>>, k: int, i: int) -> bool { exists|j: int| 0 <= j < k && (#[trigger] o[j]).n() == i }
/// the selected functions get the new bodies, no other function changes
#[verifier::opaque]
pub open spec fn replaced(m: Module, n: Module, o: Seq<Idx<Function>>, rs: Seq<HighLevelBody>, k: int) -> bool {
    &&& n.functions@.len() == m.functions@.len() && same_rest(m, n)
    &&& forall|j: int| 0 <= j < k ==> with_body(m.functions@[(#[trigger] o[j]).n() as int], n.functions@[o[j].n() as int], rs[j])
    &&& forall|i: int| 0 <= i < m.functions@.len() && !among(o, k, i) ==> #[trigger] n.functions@[i] == m.functions@[i]
}
/// the interception of whole functions (the contract of C41 says what it does)
pub uninterp spec fn intercepts<L>(m: Module, n: Module, s: Seq<Idx<Function>>, e: WasmExport, i: WasmImport, l: Library<L>) -> bool;
/// functions outside the selection stay
pub open spec fn keeps(m: Module, n: Module, s: Set<Idx<Function>>) -> bool {
    m.functions@.len() <= n.functions@.len() && forall|i: int| 0 <= i < m.functions@.len() && !s.contains(mk(i as u32)) ==> #[trigger] n.functions@[i] == m.functions@[i]
}
/// the memory helpers are added (C32)
pub uninterp spec fn helped(k: int, m: Module, n: Module) -> bool;
pub open spec fn helpers(k: int, m: Module, n: Module) -> bool { helped(k, m, n) && upward(m, n) }
pub open spec fn all_helpers(m: Module, n: Module) -> bool { exists|a: Module, b: Module, c: Module| #[trigger] helpers(0, m, a) && #[trigger] helpers(1, a, b) && #[trigger] helpers(2, b, c) && helpers(3, c, n) }
pub struct Run { pub m0: Module, pub all: HashSet<Idx<Function>>, pub sel: HashSet<Idx<Function>>, pub m1: Module, pub hs: Seq<Made>, pub bs: Seq<HighLevelBody>, pub ms: Seq<Module>, pub rs: Seq<HighLevelBody>, pub m3: Module, pub m4: Module, pub m5: Module }
pub open spec fn selects(w: Run, b: Seq<u8>, ts: Option<Vec<u32>>) -> bool {
    parsed(b, w.m0) && chosen(w.all@, w.m0.functions@, ts, w.m0.functions@.len() as int) && chosen_code(w.sel@, w.m0.functions@, ts, w.m0.functions@.len() as int) && lists(w.sel.order(), w.sel@)
}
pub open spec fn wires(w: Run, a: AnalysisInterface) -> bool {
    &&& installed(a, 75, w.m0, w.m1, w.hs)
    &&& lifts(w.m0, w.sel.order(), w.bs, w.sel.order().len() as int)
    &&& bodies(w.hs, w.bs, w.ms, w.rs, w.bs.len() as int) && w.ms[0] == w.m1
    &&& replaced(w.ms.last(), w.m3, w.sel.order(), w.rs, w.sel.order().len() as int)
}
pub open spec fn finishes<L: LibGeneratable>(w: Run, a: AnalysisInterface, r: Instrumented<L>) -> bool {
    &&& match a.generic_interface { None => w.m4 == w.m3 && r.instrumentation_library is None, Some(g) => r.instrumentation_library is Some && intercepts(w.m3, w.m4, w.all.order(), g.0, g.1, r.instrumentation_library->0) }
    &&& all_helpers(w.m4, w.m5) && encoded(w.m5, r.module@)
}
/// functions that are not selected are in the result as they were; selected imports too, unless whole functions are intercepted
pub open spec fn spares(w: Run, ts: Option<Vec<u32>>, generic: bool) -> bool {
    let m = w.m0.functions@;
    m.len() <= w.m5.functions@.len() && forall|i: int| 0 <= i < m.len() && (!wanted(m, ts, i as u32) || (!generic && m[i].code is Import)) ==> #[trigger] w.m5.functions@[i] == m[i]
}
pub proof fn lem_installed_start(a: AnalysisInterface, m: Module) ensures installed(a, 0, m, m, Seq::empty()) { reveal(installed); assert(m.functions@.take(m.functions@.len() as int) =~= m.functions@); }
pub proof fn lem_installed_none(a: AnalysisInterface, k: int, m0: Module, m: Module, hs: Seq<Made>) requires 0 <= k, installed(a, k, m0, m, hs), field(a, k) is None ensures installed(a, k + 1, m0, m, hs) { reveal(installed); }
pub proof fn lem_installed_some(a: AnalysisInterface, k: int, m0: Module, m: Module, n: Module, hs: Seq<Made>, h: Made)
    requires 0 <= k, installed(a, k, m0, m, hs), field(a, k) is Some, n.functions@.len() == m.functions@.len() + 1, n.functions@.drop_last() =~= m.functions@, same_rest(m, n),
        import_of(n.functions@.last(), field(a, k)->0), h == kind(k, mk(m.functions@.len() as u32))
    ensures installed(a, k + 1, m0, n, hs.push(h))
{
    reveal(installed);
    let p = provided(a, k); let q = provided(a, k + 1); let b = m0.functions@.len(); let gs = hs.push(h);
    assert(q == p.push(k));
    assert forall|i: int| 0 <= i < m.functions@.len() implies #[trigger] n.functions@[i] == m.functions@[i] by { assert(n.functions@.drop_last()[i] == m.functions@[i]); }
    assert(n.functions@.take(b as int) =~= m.functions@.take(b as int));
    assert forall|j: int| 0 <= j < q.len() implies import_of(n.functions@[b + j], field(a, #[trigger] q[j])->0) by { if j < p.len() { assert(q[j] == p[j]); assert(n.functions@[b + j] == m.functions@[b + j]); } }
    assert forall|j: int| 0 <= j < q.len() implies gs[j] == kind(#[trigger] q[j], mk((b + j) as u32)) by { if j < p.len() { assert(q[j] == p[j]); } }
}
pub proof fn lem_installed_up(a: AnalysisInterface, k: int, m0: Module, m: Module, hs: Seq<Made>) requires installed(a, k, m0, m, hs) ensures upward(m0, m) { reveal(installed); reveal(upward); }
pub proof fn lem_upward(a: Module, b: Module, c: Module) ensures upward(a, a), upward(a, b) && upward(b, c) ==> upward(a, c) {
    reveal(upward);
    assert(a.functions@.take(a.functions@.len() as int) =~= a.functions@);
    if upward(a, b) && upward(b, c) {
        assert forall|i: int| 0 <= i < a.functions@.len() implies c.functions@[i] == a.functions@[i] by { assert(b.functions@.take(a.functions@.len() as int)[i] == a.functions@[i]); assert(c.functions@.take(b.functions@.len() as int)[i] == b.functions@[i]); }
        assert(c.functions@.take(a.functions@.len() as int) =~= a.functions@);
    }
}
pub proof fn lem_up_at(a: Module, b: Module, i: int) requires upward(a, b), 0 <= i < a.functions@.len() ensures a.functions@.len() <= b.functions@.len(), b.functions@[i] == a.functions@[i] { reveal(upward); assert(b.functions@.take(a.functions@.len() as int)[i] == a.functions@[i]); }
pub proof fn lem_helpers(m: Module, n: Module) requires all_helpers(m, n) ensures upward(m, n) {
    let (a, b, c) = choose|a: Module, b: Module, c: Module| #[trigger] helpers(0, m, a) && #[trigger] helpers(1, a, b) && #[trigger] helpers(2, b, c) && helpers(3, c, n);
    lem_upward(m, a, b); lem_upward(m, b, c); lem_upward(m, c, n);
}
pub proof fn lem_bodies_start(hs: Seq<Made>, bs: Seq<HighLevelBody>, m: Module) ensures bodies(hs, bs, seq![m], Seq::empty(), 0) { reveal(bodies); }
pub proof fn lem_bodies_step(hs: Seq<Made>, bs: Seq<HighLevelBody>, ms: Seq<Module>, rs: Seq<HighLevelBody>, n: int, r: HighLevelBody, m: Module)
    requires 0 <= n < bs.len(), bodies(hs, bs, ms, rs, n), all_hooks(hs, bs[n], ms.last(), r, m)
    ensures bodies(hs, bs, ms.push(m), rs.push(r), n + 1)
{
    reveal(bodies);
    let ns = ms.push(m); let ss = rs.push(r);
    assert forall|j: int| 0 <= j < n + 1 implies all_hooks(hs, #[trigger] bs[j], ns[j], ss[j], ns[j + 1]) by { if j < n { assert(all_hooks(hs, bs[j], ms[j], rs[j], ms[j + 1])); } }
}
pub proof fn lem_trace_step(hs: Seq<Made>, t: Seq<At>, n: int, x: At)
    requires 0 <= n < hs.len(), trace(hs, t, n), transformed(hs[n], t.last().b, t.last().m, x.b, x.m)
    ensures trace(hs, t.push(x), n + 1)
{ let u = t.push(x); assert forall|j: int| 0 <= j < n + 1 implies transformed(hs[j], (#[trigger] u[j]).b, u[j].m, u[j + 1].b, u[j + 1].m) by { if j < n { assert(u[j] == t[j]); assert(u[j + 1] == t[j + 1]); } } }
pub open spec fn inside(o: Seq<Idx<Function>>, n: int) -> bool { o.no_duplicates() && forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j]).n() < n }
pub proof fn lem_replaced_start(m: Module, o: Seq<Idx<Function>>, rs: Seq<HighLevelBody>) ensures replaced(m, m, o, rs, 0) { reveal(replaced); }
pub proof fn lem_replaced_at(m: Module, n: Module, o: Seq<Idx<Function>>, rs: Seq<HighLevelBody>, k: int)
    requires replaced(m, n, o, rs, k), 0 <= k < o.len(), inside(o, m.functions@.len() as int)
    ensures n.functions@.len() == m.functions@.len(), n.functions@[o[k].n() as int] == m.functions@[o[k].n() as int]
{ reveal(replaced); if among(o, k, o[k].n() as int) { let j = choose|j: int| 0 <= j < k && (#[trigger] o[j]).n() == o[k].n(); axiom_idx_ext(o[j]); axiom_idx_ext(o[k]); } assert(n.functions@[o[k].n() as int] == m.functions@[o[k].n() as int]); }
pub proof fn lem_replaced_len(m0: Module, m: Module, n: Module, o: Seq<Idx<Function>>, rs: Seq<HighLevelBody>, k: int) requires upward(m0, m), replaced(m, n, o, rs, k) ensures m0.functions@.len() <= n.functions@.len() { reveal(upward); reveal(replaced); }
pub proof fn lem_replaced_step(m: Module, n: Module, x: Module, o: Seq<Idx<Function>>, rs: Seq<HighLevelBody>, k: int)
    requires replaced(m, n, o, rs, k), 0 <= k < o.len(), inside(o, m.functions@.len() as int), x.functions@.len() == n.functions@.len(), same_rest(n, x),
        forall|i: int| 0 <= i < n.functions@.len() && i != o[k].n() ==> #[trigger] x.functions@[i] == n.functions@[i], with_body(m.functions@[o[k].n() as int], x.functions@[o[k].n() as int], rs[k])
    ensures replaced(m, x, o, rs, k + 1)
{
    reveal(replaced);
    assert forall|j: int| 0 <= j < k + 1 implies with_body(m.functions@[(#[trigger] o[j]).n() as int], x.functions@[o[j].n() as int], rs[j]) by { if j < k { axiom_idx_ext(o[j]); axiom_idx_ext(o[k]); assert(o[j].n() != o[k].n()); assert(x.functions@[o[j].n() as int] == n.functions@[o[j].n() as int]); } }
    assert forall|i: int| 0 <= i < m.functions@.len() && !among(o, k + 1, i) implies #[trigger] x.functions@[i] == m.functions@[i] by {
        assert(o[k].n() != i);
        assert(!among(o, k, i)) by { if among(o, k, i) { let j = choose|j: int| 0 <= j < k && (#[trigger] o[j]).n() == i; assert(among(o, k + 1, i)); } }
        assert(x.functions@[i] == n.functions@[i]); assert(n.functions@[i] == m.functions@[i]);
    }
}
pub open spec fn zipped(v: Seq<(&Idx<Function>, HighLevelBody)>, o: Seq<Idx<Function>>, rs: Seq<HighLevelBody>) -> bool { v.len() == o.len() && rs.len() == o.len() && forall|i: int| 0 <= i < o.len() ==> *(#[trigger] v[i]).0 == o[i] && v[i].1 == rs[i] }
pub proof fn lem_spares(w: Run, b: Seq<u8>, ts: Option<Vec<u32>>, generic: bool)
    requires selects(w, b, ts), w.m0.functions@.len() <= u32::MAX, upward(w.m0, w.ms.last()), replaced(w.ms.last(), w.m3, w.sel.order(), w.rs, w.sel.order().len() as int), if generic { keeps(w.m3, w.m4, w.all@) } else { w.m4 == w.m3 }, all_helpers(w.m4, w.m5)
    ensures spares(w, ts, generic)
{
    lem_helpers(w.m4, w.m5);
    let m = w.m0.functions@; let o = w.sel.order(); let m2 = w.ms.last();
    reveal(replaced);
    if m.len() > 0 { lem_up_at(w.m0, m2, 0); lem_up_at(w.m4, w.m5, 0); } else { reveal(upward); }
    assert forall|i: int| 0 <= i < m.len() && (!wanted(m, ts, i as u32) || (!generic && m[i].code is Import)) implies #[trigger] w.m5.functions@[i] == m[i] by {
        axiom_idx::<Function>(i as u32);
        assert(!w.sel@.contains(mk(i as u32)));
        assert(!among(o, o.len() as int, i)) by { if among(o, o.len() as int, i) { let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).n() == i; axiom_idx_ext(o[j]); assert(o.contains(o[j])); assert(w.sel@.contains(o[j])); } }
        lem_up_at(w.m0, m2, i);
        assert(w.m3.functions@[i] == m2.functions@[i]);
        if generic { assert(!w.all@.contains(mk(i as u32))); assert(w.m4.functions@[i] == w.m3.functions@[i]); }
        lem_up_at(w.m4, w.m5, i);
    }
}
@@raw instrument
use crate::vxfn::VxFn;
use crate::sets::*;
use crate::wiring::*;
use crate::parse_nesting::{lifted, lowered};
use crate::wasabi_wasm::*;
broadcast use {group_wasabi, crate::vxlib::axiom_string_to_string, crate::vxlib::axiom_str_to_string, crate::vxlib::axiom_has_item};
@@fn instrument::TransformationStrategy::transform
@contract
    ensures transformed(self.made(), *$p1, *old($p2), r, *final($p2)), upward(*old($p2), *final($p2)),
""")
for m in M:
    print(f"""@@fn instrument::{m}::<TransformationStrategyforTarget>::transform
@external""")
for k, f in enumerate(INJ):
    print(f"""@@fn instrument::memory::{f}
@external
@contract
    ensures crate::wiring::helpers({k}, *old($p0), *final($p0)),""")
print(r"""@@fn instrument::function_application::instrument
@external
@contract
    requires forall|i: Idx<Function>| #[trigger] $p1@.contains(i) ==> i.n() < old($p0).functions@.len(),
    ensures crate::wiring::intercepts(*old($p0), *final($p0), $p1.order(), *$p2, *$p3, r), crate::wiring::keeps(*old($p0), *final($p0), $p1@),
@@fn instrument::<From<WasmType>forWasabiValType>::from
@contract
    ensures r.0 == vt($p0), // [C40?]
@@fn instrument::<From<Vec<WasmType>>forValTypeVec>::from
@contract
    ensures r.0@ =~= vts($p0@), // [C40?]
@loop 0
invariant all0 == $p0@, vx_out0@ =~= vts($p0@).take(idx0),
@lstart 0
    proof { assert(x0 == all0[idx0 - 1]); }
@@fn instrument::<FunctionTypeConvertibleforWasmExport>::as_function_type
@contract
    ensures r == fty(vts(self.args@), vts(self.results@)), // [C40?]
@@fn instrument::<InstrumentableforModule>::install
@contract
    ensures r.n() == old(self).functions@.len(), final(self).functions@.len() == old(self).functions@.len() + 1, final(self).functions@.drop_last() =~= old(self).functions@, same_rest(*old(self), *final(self)), // [C40?]
        import_of(final(self).functions@.last(), *$p1), // [C40?]
@@fn instrument::uses_reference_types
@contract
    ensures r == has_refs($p0.type_), // [C42?]
@loop 0
invariant refs(all0, $p0.type_.ins()), forall|i: int| 0 <= i < idx0 ==> !(#[trigger] $p0.type_.ins()[i] is Ref),
@lstart 0
    proof { assert(x0 == all0[idx0 - 1]); }
@loop 1
invariant refs(all1, $p0.type_.outs()), forall|i: int| 0 <= i < idx1 ==> !(#[trigger] $p0.type_.outs()[i] is Ref),
@lstart 1
    proof { assert(x1 == all1[idx1 - 1]); }

@@fn instrument::instrument
@attr #[verifier::rlimit(200)]
@contract
    ensures r matches Ok(x) ==> exists|w: Run| #[trigger] selects(w, $p0@, *$p2) && spares(w, *$p2, $p1.generic_interface is Some) && encoded(w.m5, x.module@), // [C42?]
        r matches Ok(x) ==> exists|w: Run| #[trigger] selects(w, $p0@, *$p2) && wires(w, *$p1) && finishes(w, *$p1, x), // [C40?]
@start
    let ghost bytes = $p0@; let ghost ts = *$p2; let ghost ai = *$p1;
@loop 0
invariant ts == *$p2, listing(all0, module.functions@), module.functions@.len() <= u32::MAX, chosen(vx_out0@, module.functions@, ts, idx0),
@lstart 0
    proof { assert(x0 == all0[idx0 - 1]); }
@after target_indices_including_imports
    let ghost m0 = module; let ghost all = target_indices_including_imports;
@loop 1
invariant ts == *$p2, listing(all1, module.functions@), module.functions@.len() <= u32::MAX, chosen_code(vx_out1@, module.functions@, ts, idx1),
@lstart 1
    proof { assert(x1 == all1[idx1 - 1]); }
@after target_indices
    let ghost sel = target_indices; let ghost o = sel.order();
@loop 2
invariant refs(all2, o), lists(o, sel@), m0 == module, chosen_code(sel@, m0.functions@, ts, m0.functions@.len() as int), lifts(m0, o, vx_out2@, idx2),
@lstart 2
    let ghost i = o[idx2 - 1];
    proof { assert(x2 == all2[idx2 - 1]); assert(*x2 == i); assert(o.contains(i)); assert(sel@.contains(i)); }
@after target_high_level_functions
    let ghost bs = target_high_level_functions@;
@after traps_target_generators
    proof {
        let t = traps_target_generators@;
        assert(t.len() == 75);
"""+"\n".join(f"        assert(entry(t[{k}], ai, {k})) by {{ reveal(entry); reveal(field); reveal(kind); }}" for k in range(75))+r"""
        assert(table(t, ai)) by { reveal(table); }
        lem_installed_start(ai, m0); assert(mades(Seq::empty()) =~= Seq::empty());
    }
@loop 3
invariant table(all3, ai), installed(ai, idx3, m0, module, mades(vx_out3@)),
@lstart 3
    let ghost k = idx3 - 1; let ghost ml = module; let ghost vl = vx_out3@;
    proof { assert(x3 == all3[k]); reveal(table); assert(entry(all3[k], ai, k)); reveal(entry); }
@lend 3
    proof {
        if field(ai, k) is None { lem_installed_none(ai, k, m0, module, mades(vl)); }
        else { lem_installed_some(ai, k, m0, ml, module, mades(vl), kind(k, mk(ml.functions@.len() as u32))); assert(mades(vx_out3@) =~= mades(vl).push(kind(k, mk(ml.functions@.len() as u32)))); }
    }
@after targets
    let ghost hs = mades(targets@); let ghost m1 = module; let ghost mut ms = seq![m1];
    proof { lem_bodies_start(hs, bs, m1); lem_installed_up(ai, 75, m0, m1, hs); }
@loop 4
invariant all4 == bs, hs == mades(targets@), bodies(hs, bs, ms, vx_out5@, idx4), ms.len() == idx4 + 1, ms[0] == m1, ms.last() == module, upward(m0, module),
@lstart 4
    let ghost b = x4; let ghost mm = module; let ghost rl = vx_out5@;
    proof { assert(x4 == all4[idx4 - 1]); lem_upward(mm, mm, mm); }
@lbefore 5
    let ghost mut t = seq![At { b, m: mm }];
@loop 5
invariant refs(all5, targets@), hs == mades(targets@), trace(hs, t, idx5), t[0] == (At { b, m: mm }), t.last() == (At { b: vx_acc4, m: module }), upward(mm, module),
@lstart 5
    let ghost before = module;
    proof { assert(x5 == all5[idx5 - 1]); }
@lend 5
    proof { let x = At { b: vx_acc4, m: module }; lem_trace_step(hs, t, idx5 - 1, x); t = t.push(x); lem_upward(mm, before, module); }
@lafter 5
    proof { assert(idx5 == hs.len()); assert(trace(hs, t, hs.len() as int)); assert(all_hooks(hs, b, mm, vx_acc4, module)); }
@lend 4
    proof { lem_bodies_step(hs, bs, ms, rl, idx4 - 1, vx_out5@.last(), module); assert(rl.push(vx_out5@.last()) =~= vx_out5@); ms = ms.push(module); lem_upward(m0, mm, module); }
@after transformed_bodies
    let ghost rs = transformed_bodies@; let ghost m2 = module; let ghost mut m3 = module;
    proof {
        assert(rs.len() == o.len()) by { reveal(bodies); }
        assert(inside(o, m2.functions@.len() as int)) by { assert forall|j: int| 0 <= j < o.len() implies (#[trigger] o[j]).n() < m2.functions@.len() by { assert(o.contains(o[j])); assert(sel@.contains(o[j])); lem_up_at(m0, m2, o[j].n() as int); } }
        lem_replaced_start(m2, o, rs);
    }
@loop 6
invariant zipped(all6, o, rs), inside(o, m2.functions@.len() as int), replaced(m2, module, o, rs, idx6),
@lstart 6
    let ghost k = idx6 - 1; let ghost i = o[k]; let ghost ml = module;
    proof { assert(x6 == all6[k]); lem_replaced_at(m2, ml, o, rs, k); }
@lend 6
    proof { lem_replaced_step(m2, ml, module, o, rs, k); }
@lafter 6
    proof { m3 = module; lem_replaced_len(m0, m2, m3, o, rs, o.len() as int); }
@after instrumentation_library
    let ghost m4 = module;
@end
    proof {
        let w = Run { m0, all, sel, m1, hs, bs, ms, rs, m3, m4, m5: module };
        assert(selects(w, bytes, ts));
        assert(wires(w, ai));
        lem_spares(w, bytes, ts, ai.generic_interface is Some);
    }
""")
