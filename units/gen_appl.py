"""units/appl.vu: support library imports and function interception (C41) (run from units/: python3 gen_appl.py > appl.vu)"""
SETS = open("sets.vu").read()
print(r"""@@include names.vu
@@include wasabi.vu
@@opt loops
@@opt localfns
@@opt ess
@@opt conv
@@opt maypanic
@@module stack_library wastrumentation/src/stack_library.rs
@@derive stack_library::ModuleLinkedStackHooks
@@drop stack_library::use*
@@map wasabi_wasm crate::wasabi_wasm
@@module instrument::function_application wastrumentation/src/instrument/function_application.rs
@@module instrument wastrumentation/src/instrument/mod.rs
@@only instrument WasabiValType; <From<WasmType>forWasabiValType>; ValTypeVec; <From<Vec<WasmType>>forValTypeVec>; FunctionTypeConvertible; <FunctionTypeConvertibleforWasmExport>; <FunctionTypeConvertibleforWasmImport>
@@drop instrument::use*
@@module analysis wastrumentation/src/analysis/mod.rs
@@only analysis WasmExport; WasmImport; WasmType
@@drop analysis::use*
@@derive analysis::WasmExport
@@derive analysis::WasmImport
@@derive analysis::WasmType Clone, Copy
@@raw instrument
use crate::analysis::*;
use crate::intercept::*;
use crate::wasabi_wasm::*;
@@drop instrument::function_application::usestd*
@@raw instrument::function_application
use crate::intercept::*;
use crate::linking::{more, rest, all_linked, linked, lem_more, pairs};
use crate::sets::*;
use crate::wasabi_wasm::*;
broadcast use {group_wasabi, crate::vxlib::axiom_str_text, crate::vxlib::axiom_str_ok, crate::vxlib::axiom_string_to_string};
@@include sets.vu
@@raw wasabi_wasm
pub open spec fn imported(f: Function, t: FunctionType, m: Seq<char>, n: Seq<char>) -> bool {
    f.type_ == t && f.export@.len() == 0 && (f.code matches ImportOrPresent::Import(a, b) && a@ == m && b@ == n)
}
impl Function { #[verifier::external_body] pub fn code(&self) -> (r: Option<&Code>) ensures match self.code { ImportOrPresent::Import(..) => r is None, ImportOrPresent::Present(c) => r is Some && *r->0 == c } { unimplemented!() } }
impl Module {
    #[verifier::external_body]
    pub fn function(&self, i: Idx<Function>) -> (r: &Function) requires i.n() < self.functions@.len() ensures *r == self.functions@[i.n() as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn add_function_import(&mut self, t: FunctionType, module: String, name: String) -> (r: Idx<Function>)
        ensures r.n() == old(self).functions@.len(), final(self).functions@.len() == old(self).functions@.len() + 1,
            final(self).functions@.drop_last() =~= old(self).functions@, imported(final(self).functions@.last(), t, module@, name@),
            final(self).memories == old(self).memories, final(self).tables == old(self).tables, final(self).elements == old(self).elements,
    { unimplemented!() }
}
impl Clone for Instr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn refs_of(r: Seq<(Idx<Local>, &Local)>, s: Seq<Local>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r[i]).1 == s[i] }
impl Function {
    // the declared locals, without the parameters
    #[verifier::external_body] pub fn locals<'a>(&'a self) -> (r: std::vec::IntoIter<(Idx<Local>, &'a Local)>)
        ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some, IteratorSpec::will_return_none(&r),
            refs_of(IteratorSpec::remaining(&r), if self.code is Present { self.code->Present_0.locals@ } else { Seq::empty() }) { unimplemented!() }
    // the new local comes after the parameters and the locals that exist
    #[verifier::external_body] pub fn add_fresh_local(&mut self, t: ValType) -> (r: Idx<Local>)
        requires old(self).code is Present
        ensures final(self).code is Present, final(self).code->Present_0.body == old(self).code->Present_0.body, final(self).code->Present_0.locals@.len() == old(self).code->Present_0.locals@.len() + 1,
            final(self).code->Present_0.locals@.drop_last() =~= old(self).code->Present_0.locals@, final(self).code->Present_0.locals@.last().type_ == t,
            final(self).type_ == old(self).type_, final(self).export == old(self).export, final(self).name == old(self).name,
            r == mk::<Local>((old(self).type_.ins().len() + old(self).code->Present_0.locals@.len()) as u32) { unimplemented!() }
    #[verifier::external_body] pub fn code_mut(&mut self) -> (r: Option<&mut Code>)
        ensures match old(self).code { ImportOrPresent::Import(..) => r is None && *final(self) == *old(self),
            ImportOrPresent::Present(c) => r is Some && *r->0 == c && final(self).code == ImportOrPresent::Present(*final(r->0)) && final(self).type_ == old(self).type_ && final(self).export == old(self).export && final(self).name == old(self).name } { unimplemented!() }
}
impl Code { #[verifier::external_body] pub fn new() -> (r: Code) ensures r.locals@.len() == 0, r.body@.len() == 0 { unimplemented!() } }
impl Module {
    #[verifier::external_body]
    pub fn function_mut(&mut self, i: Idx<Function>) -> (r: &mut Function)
        requires i.n() < old(self).functions@.len()
        ensures *r == old(self).functions@[i.n() as int], final(self).functions@ == old(self).functions@.update(i.n() as int, *final(r)),
            final(self).memories == old(self).memories, final(self).tables == old(self).tables, final(self).elements == old(self).elements,
    { unimplemented!() }
}
@@raw intercept
use crate::wasabi_wasm::*;
use crate::analysis::{WasmType, WasmExport, WasmImport};
use crate::stack_library::ModuleLinkedStackHooks;
use crate::linking::{all_linked, linked, more, covered};
use crate::sets::HashMap;
use crate::sets::lists;
pub open spec fn vt(t: WasmType) -> ValType { match t { WasmType::I32 => ValType::I32, WasmType::F32 => ValType::F32, WasmType::I64 => ValType::I64, WasmType::F64 => ValType::F64 } }
pub open spec fn vts(s: Seq<WasmType>) -> Seq<ValType> { Seq::new(s.len(), |i: int| vt(s[i])) }
pub open spec fn get(l: int) -> Instr { Instr::Local(LocalOp::Get, mk(l as u32)) }
pub open spec fn set(l: int) -> Instr { Instr::Local(LocalOp::Set, mk(l as u32)) }
pub open spec fn num(n: int) -> Instr { Instr::Const(Val::I32(n as i32)) }
pub open spec fn gets(n: nat) -> Seq<Instr> { Seq::new(n, |i: int| get(i)) }
/// each value is loaded from the buffer
pub open spec fn loading(v: Seq<Idx<Function>>, p: Instr) -> Seq<Instr> decreases v.len() { if v.len() == 0 { Seq::empty() } else { loading(v.drop_last(), p).push(p).push(Instr::Call(v.last())) } }
/// the uninstrumented function, called on the arguments in the buffer, with its results stored in the buffer
pub open spec fn shim(copy: Idx<Function>, h: ModuleLinkedStackHooks) -> Seq<Instr> { (seq![get(0)] + loading(h.arg_load_n@, get(0))) + seq![Instr::Call(copy), Instr::Call(h.ret_store_all), Instr::End] }
/// arguments stored in a fresh buffer; the analysis called once; the results read from the buffer; the buffers released
pub open spec fn announce(slot: int, f: Idx<Function>, t: FunctionType, present: bool, g: Idx<Function>) -> Seq<Instr> {
    seq![num(slot), num(f.n() as int), num(t.ins().len() as int), num(t.outs().len() as int), get(t.ins().len() as int), get(t.ins().len() as int + 1), num(if present { 0 } else { 1 }), Instr::Call(g)]
}
pub open spec fn allocate(t: FunctionType, h: ModuleLinkedStackHooks) -> Seq<Instr> {
    gets(t.ins().len()).push(Instr::Call(h.allocate_values_buffer)).push(set(t.ins().len() as int)).push(Instr::Call(h.allocate_types_buffer)).push(set(t.ins().len() as int + 1))
}
pub open spec fn release(t: FunctionType, h: ModuleLinkedStackHooks, b: Seq<Instr>) -> Seq<Instr> {
    b.push(get(t.ins().len() as int)).push(Instr::Call(h.free_values_buffer)).push(get(t.ins().len() as int + 1)).push(Instr::Call(h.free_types_buffer)).push(Instr::End)
}
pub open spec fn wrap(slot: int, f: Idx<Function>, t: FunctionType, present: bool, g: Idx<Function>, h: ModuleLinkedStackHooks) -> Seq<Instr> {
    release(t, h, allocate(t, h) + announce(slot, f, t, present, g) + loading(h.ret_load_n@, get(t.ins().len() as int)))
}
pub open spec fn types_in(l: Seq<Local>) -> Seq<ValType> { Seq::new(l.len(), |i: int| l[i].type_) }
pub open spec fn copied(f: Function, c: Function) -> bool {
    match f.code { ImportOrPresent::Import(a, b) => imported(c, f.type_, a@, b@), ImportOrPresent::Present(code) => newfn(c, f.type_, types_in(code.locals@), code.body@) }
}
pub open spec fn wrapped(f: Function, w: Function, body: Seq<Instr>) -> bool {
    &&& w.type_ == f.type_ && w.export == f.export && w.name == f.name
    &&& w.code is Present && w.code->Present_0.body@ == body
    &&& w.code->Present_0.locals@.len() == 2 && w.code->Present_0.locals@[0].type_ == ValType::I32 && w.code->Present_0.locals@[1].type_ == ValType::I32
}
/// function o of the program is intercepted: its code moved to function b, reached through slot k of the table
#[verifier::opaque]
pub open spec fn applied(m: Seq<Function>, n: Seq<Function>, l: Map<FunctionType, ModuleLinkedStackHooks>, o: Idx<Function>, k: int, b: int, g: Idx<Function>) -> bool {
    let f = m[o.n() as int]; let h = l[f.type_];
    &&& copied(f, n[b])
    &&& newfn(n[b + 1], fty(seq![ValType::I32], Seq::empty()), seq![ValType::I32], shim(mk(b as u32), h))
    &&& wrapped(f, n[o.n() as int], wrap(k, o, f.type_, f.code is Present, g, h))
}
pub open spec fn among(o: Seq<Idx<Function>>, k: int, i: int) -> bool { exists|j: int| 0 <= j < k && (#[trigger] o[j]).n() == i }
#[verifier::opaque]
pub open spec fn applying(m: Seq<Function>, n: Seq<Function>, l: Map<FunctionType, ModuleLinkedStackHooks>, o: Seq<Idx<Function>>, k: int, g: Idx<Function>) -> bool {
    &&& n.len() == m.len() + 2 * k
    &&& forall|i: int| 0 <= i < m.len() && !among(o, k, i) ==> #[trigger] n[i] == m[i]
    &&& forall|j: int| 0 <= j < k ==> applied(m, n, l, #[trigger] o[j], j, m.len() + 2 * j, g)
}
pub open spec fn in_range(o: Seq<Idx<Function>>, n: int) -> bool { forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j]).n() < n }
pub proof fn lem_applying_start(m: Seq<Function>, l: Map<FunctionType, ModuleLinkedStackHooks>, o: Seq<Idx<Function>>, g: Idx<Function>) ensures applying(m, m, l, o, 0, g) { reveal(applying); }
pub proof fn lem_untouched(m: Seq<Function>, n: Seq<Function>, l: Map<FunctionType, ModuleLinkedStackHooks>, o: Seq<Idx<Function>>, k: int, g: Idx<Function>)
    requires applying(m, n, l, o, k, g), 0 <= k < o.len(), o.no_duplicates(), in_range(o, m.len() as int)
    ensures n.len() == m.len() + 2 * k, n[o[k].n() as int] == m[o[k].n() as int]
{
    broadcast use group_wasabi;
    reveal(applying);
    if among(o, k, o[k].n() as int) { let j = choose|j: int| 0 <= j < k && (#[trigger] o[j]).n() == o[k].n(); axiom_idx_ext(o[j]); axiom_idx_ext(o[k]); assert(o[j] == o[k]); }
    assert(n[o[k].n() as int] == m[o[k].n() as int]);
}
pub proof fn lem_applying_step(m: Seq<Function>, n: Seq<Function>, x: Seq<Function>, l: Map<FunctionType, ModuleLinkedStackHooks>, o: Seq<Idx<Function>>, k: int, g: Idx<Function>)
    requires applying(m, n, l, o, k, g), 0 <= k < o.len(), o.no_duplicates(), in_range(o, m.len() as int),
        x.len() == n.len() + 2, forall|i: int| 0 <= i < n.len() && i != o[k].n() ==> #[trigger] x[i] == n[i], applied(m, x, l, o[k], k, m.len() + 2 * k, g)
    ensures applying(m, x, l, o, k + 1, g)
{
    reveal(applying);
    assert forall|i: int| 0 <= i < m.len() && !among(o, k + 1, i) implies #[trigger] x[i] == m[i] by {
        assert(o[k].n() != i);
        assert(!among(o, k, i)) by { if among(o, k, i) { let j = choose|j: int| 0 <= j < k && (#[trigger] o[j]).n() == i; assert(among(o, k + 1, i)); } }
        assert(n[i] == m[i]);
    }
    assert forall|j: int| 0 <= j < k + 1 implies applied(m, x, l, #[trigger] o[j], j, m.len() + 2 * j, g) by {
        if j < k {
            assert(applied(m, n, l, o[j], j, m.len() + 2 * j, g));
            axiom_idx_ext(o[j]); axiom_idx_ext(o[k]);
            assert(o[j].n() != o[k].n());
            assert(x[m.len() + 2 * j] == n[m.len() + 2 * j]); assert(x[m.len() + 2 * j + 1] == n[m.len() + 2 * j + 1]); assert(x[o[j].n() as int] == n[o[j].n() as int]);
            reveal(applied);
        }
    }
}
pub open spec fn slots(v: Seq<Idx<Function>>, b: int) -> bool { forall|j: int| 0 <= j < v.len() ==> #[trigger] v[j] == mk::<Function>((b + 2 * j + 1) as u32) }
pub open spec fn entries(v: Seq<Vec<Instr>>, b: int, n: int) -> bool { v.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] v[j])@ =~= seq![Instr::RefFunc(mk((b + 2 * j + 1) as u32)), Instr::End] }
/// the result of the interception: b functions with the support functions m1, one table and one element segment more
#[verifier::opaque]
pub open spec fn intercepted(m1: Module, m2: Module, l: Map<FunctionType, ModuleLinkedStackHooks>, o: Seq<Idx<Function>>, g: Idx<Function>, imp: WasmImport) -> bool {
    let b = m1.functions@.len() as int; let n = o.len() as int;
    &&& m2.functions@.len() > 0 && applying(m1.functions@, m2.functions@.drop_last(), l, o, n, g)
    &&& m2.memories == m1.memories
    &&& m2.tables@.len() == m1.tables@.len() + 1 && m2.tables@.drop_last() =~= m1.tables@
    &&& ({ let t = m2.tables@.last(); t.limits.initial_size == n && t.limits.max_size == Some(n as u32) && t.import is None && t.ref_type == RefType::FuncRef && t.export@.len() == 0 })
    &&& m2.elements@.len() == m1.elements@.len() + 1 && m2.elements@.drop_last() =~= m1.elements@
    &&& ({ let e = m2.elements@.last(); e.typ == RefType::FuncRef && entries(e.init@, b, n) && (e.mode matches ElementMode::Active { table, offset } && table == mk::<Table>(m1.tables@.len() as u32) && offset@ =~= seq![num(0), Instr::End]) })
    &&& call_base(m2.functions@.last(), imp, m1.tables@.len() as int)
}
/// the analysis reaches the uninstrumented function through the table slot it is given
pub open spec fn call_base(f: Function, imp: WasmImport, table: int) -> bool {
    &&& f.type_ == fty(vts(imp.args@), vts(imp.results@))
    &&& f.export@.len() == 1 && f.export@[0]@ == imp.name@
    &&& f.code is Present && f.code->Present_0.locals@.len() == 0
    &&& f.code->Present_0.body@ =~= seq![get(1), get(0), Instr::CallIndirect(fty(seq![ValType::I32], Seq::empty()), mk(table as u32)), Instr::End]
}
/// what the interception adds on its way: the module with the support functions, their links, and the library asked for
pub struct Inside { pub m: Module, pub links: HashMap<FunctionType, ModuleLinkedStackHooks>, pub asked: Seq<crate::wasm_constructs::Signature> }
pub open spec fn done(d: Inside, m0: Module, m2: Module, o: Seq<Idx<Function>>, e: WasmExport, i: WasmImport) -> bool {
    &&& hooked(m0.functions@, d.m.functions@, e) && all_linked(d.links@, d.m.functions@)
    &&& crate::linking::rest(m0, d.m) && crate::linking::asked(d.asked, d.links.order())
    &&& intercepted(d.m, m2, d.links@, o, mk(m0.functions@.len() as u32), i)
}
/// functions outside the selection stay
pub open spec fn keeps(m: Module, n: Module, s: Set<Idx<Function>>) -> bool {
    m.functions@.len() <= n.functions@.len() && forall|i: int| 0 <= i < m.functions@.len() && !s.contains(mk(i as u32)) ==> #[trigger] n.functions@[i] == m.functions@[i]
}
pub proof fn lem_keeps(d: Inside, m0: Module, m2: Module, o: Seq<Idx<Function>>, e: WasmExport, i: WasmImport, s: Set<Idx<Function>>)
    requires done(d, m0, m2, o, e, i), lists(o, s)
    ensures keeps(m0, m2, s)
{
    reveal(intercepted); reveal(applying);
    let m = m0.functions@; let a = d.m.functions@; let n = m2.functions@; let x = n.drop_last();
    assert forall|i: int| 0 <= i < m.len() && !s.contains(mk(i as u32)) implies #[trigger] n[i] == m[i] by {
        assert(!among(o, o.len() as int, i)) by { if among(o, o.len() as int, i) { let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).n() == i; axiom_idx_ext(o[j]); assert(o.contains(o[j])); assert(s.contains(o[j])); } }
        assert(x[i] == a[i]); assert(a.take(m.len() as int)[i] == m[i]); assert(n[i] == x[i]);
    }
}
pub proof fn lem_loading(v: Seq<Idx<Function>>, p: Instr, i: int) requires 0 < i <= v.len()
    ensures loading(v.take(i), p) == loading(v.take(i - 1), p).push(p).push(Instr::Call(v[i - 1]))
{ assert(v.take(i).drop_last() =~= v.take(i - 1)); assert(v.take(i).last() == v[i - 1]); }
pub proof fn lem_hooked(m0: Seq<Function>, a: Seq<Function>, m1: Seq<Function>, e: WasmExport)
    requires a.len() == m0.len() + 1, a.drop_last() =~= m0, imported(a.last(), fty(vts(e.args@), vts(e.results@)), "WASTRUMENTATION_ANALYSIS"@, e.name@), more(a, m1)
    ensures hooked(m0, m1, e), forall|i: int| 0 <= i < m0.len() ==> #[trigger] m1[i] == m0[i], forall|i: int| 0 <= i < m0.len() ==> #[trigger] a[i] == m0[i]
{
    reveal(more);
    assert forall|i: int| 0 <= i < m0.len() implies #[trigger] m1[i] == m0[i] by { assert(m1.take(a.len() as int)[i] == a[i]); assert(a.drop_last()[i] == a[i]); }
    assert forall|i: int| 0 <= i < m0.len() implies #[trigger] a[i] == m0[i] by { assert(a.drop_last()[i] == a[i]); }
    assert(m1.take(a.len() as int)[m0.len() as int] == a.last());
    assert(m1.take(m0.len() as int) =~= m0);
}
pub open spec fn ready(m: Seq<Function>, l: Map<FunctionType, ModuleLinkedStackHooks>, o: Seq<Idx<Function>>) -> bool {
    all_linked(l, m) && in_range(o, m.len() as int) && covered(l, m, o, o.len() as int)
}
/// the generic hook is imported under the name the analysis gives it
pub open spec fn hooked(m0: Seq<Function>, m1: Seq<Function>, e: WasmExport) -> bool {
    m0.len() < m1.len() && m1.take(m0.len() as int) =~= m0 && imported(m1[m0.len() as int], fty(vts(e.args@), vts(e.results@)), "WASTRUMENTATION_ANALYSIS"@, e.name@)
}
@@raw compiler
use crate::wasm_constructs::Signature;
pub struct Library<L> { l: L }
pub trait LibGeneratable: Sized {
    spec fn lib(s: Seq<Signature>) -> Library<Self>;
    fn generate_lib(signatures: &[Signature]) -> (r: Library<Self>) ensures r == Self::lib(signatures@);
}
@@raw vxlib
pub broadcast axiom fn axiom_str_text(v: &str) ensures (#[trigger] <String as vstd::std_specs::convert::FromSpec::<&str>>::from_spec(v))@ == v@;
pub broadcast axiom fn axiom_str_ok() ensures #[trigger] <String as vstd::std_specs::convert::FromSpec::<&str>>::obeys_from_spec();
/// Trusted: each item with its number
#[verifier::external_body]
pub fn enumerate<I: Iterator>(it: I) -> (r: std::vec::IntoIter<(usize, I::Item)>)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some
    ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some, IteratorSpec::will_return_none(&r), IteratorSpec::remaining(&r).len() == it.remaining().len(),
        forall|i: int| 0 <= i < it.remaining().len() ==> (#[trigger] IteratorSpec::remaining(&r)[i]).0 == i && IteratorSpec::remaining(&r)[i].1 == it.remaining()[i]
{ unimplemented!() }
pub trait VxItems<T> { spec fn items(&self) -> Seq<T>; }
impl<T> VxItems<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } }
impl<'a, T: Copy> VxItems<T> for &'a [T] { open spec fn items(&self) -> Seq<T> { self@ } }
/// Trusted: Vec::extend from a vector or from a slice of copyable items
#[verifier::external_body]
pub fn extend<T, S: VxItems<T>>(v: &mut Vec<T>, s: S) ensures final(v)@ == old(v)@ + s.items() { unimplemented!() }
pub trait VxMust: Sized { type T; spec fn there(&self) -> bool; spec fn val(&self) -> Self::T; fn must(self) -> (r: Self::T) ensures self.there(), r == self.val(); }
impl<T> VxMust for Option<T> { type T = T; open spec fn there(&self) -> bool { self is Some } open spec fn val(&self) -> T { self->0 } #[verifier::external_body] fn must(self) -> (r: T) { self.unwrap() } }
impl<T, E> VxMust for Result<T, E> { type T = T; open spec fn there(&self) -> bool { self is Ok } open spec fn val(&self) -> T { self->Ok_0 } #[verifier::external_body] fn must(self) -> (r: T) { match self { Ok(v) => v, Err(_) => panic!() } } }
// Trusted: try_from between integer types gives the same number (or panics)
#[verifier::external_body]
pub fn conv<A: Integer, B: Integer>(a: A) -> (r: B) ensures r as int == a as int { unimplemented!() }
// Trusted: extend_from_slice appends clones (instructions are equal to their clones)
#[verifier::external_body]
pub fn ess(v: &mut Vec<crate::wasabi_wasm::Instr>, s: &[crate::wasabi_wasm::Instr]) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }
@@raw linking
use crate::wasabi_wasm::*;
use crate::wasm_constructs::{Signature, SignatureSide, WasmType};
use crate::named::*;
use crate::stack_library::ModuleLinkedStackHooks;
pub open spec fn wt(v: ValType) -> WasmType { match v { ValType::I32 => WasmType::I32, ValType::I64 => WasmType::I64, ValType::F32 => WasmType::F32, ValType::F64 => WasmType::F64,
    ValType::Ref(RefType::FuncRef) => WasmType::Ref(crate::wasm_constructs::RefType::FuncRef), ValType::Ref(RefType::ExternRef) => WasmType::Ref(crate::wasm_constructs::RefType::ExternRef) } }
pub open spec fn wts(s: Seq<ValType>) -> Seq<WasmType> { Seq::new(s.len(), |i: int| wt(s[i])) }
pub open spec fn is_sig(s: Signature, t: FunctionType) -> bool { s.return_types@ =~= wts(t.outs()) && s.argument_types@ =~= wts(t.ins()) }
/// the function with this index is the support function for this purpose of that function type
pub open spec fn support(m: Seq<Function>, i: Idx<Function>, t: FunctionType, p: Purpose, of: FunctionType) -> bool {
    i.n() < m.len() && imported(m[i.n() as int], t, "wastrumentation_stack"@, nm(p, wts(of.outs()), wts(of.ins())))
}
pub open spec fn loads(m: Seq<Function>, v: Seq<Idx<Function>>, side: SignatureSide, ts: Seq<ValType>, of: FunctionType, n: int) -> bool {
    v.len() == n && forall|i: int| 0 <= i < n ==> support(m, #[trigger] v[i], fty(seq![ValType::I32], seq![ts[i]]), Purpose::Load(side, i as nat), of)
}
pub open spec fn stores(m: Seq<Function>, v: Seq<Idx<Function>>, side: SignatureSide, ts: Seq<ValType>, of: FunctionType, n: int) -> bool {
    v.len() == n && forall|i: int| 0 <= i < n ==> support(m, #[trigger] v[i], fty(seq![ValType::I32, ts[i]], Seq::empty()), Purpose::Store(side, i as nat), of)
}
#[verifier::opaque]
pub open spec fn linked(h: ModuleLinkedStackHooks, t: FunctionType, m: Seq<Function>) -> bool {
    &&& h.function_type == t
    &&& support(m, h.allocate_values_buffer, fty(t.ins(), seq![ValType::I32]), Purpose::Allocate, t)
    &&& support(m, h.allocate_types_buffer, fty(Seq::empty(), seq![ValType::I32]), Purpose::AllocateTypes, t)
    &&& support(m, h.free_values_buffer, fty(seq![ValType::I32], Seq::empty()), Purpose::FreeValues, t)
    &&& support(m, h.free_types_buffer, fty(seq![ValType::I32], Seq::empty()), Purpose::FreeTypes, t)
    &&& loads(m, h.arg_load_n@, SignatureSide::Argument, t.ins(), t, t.ins().len() as int)
    &&& loads(m, h.ret_load_n@, SignatureSide::Return, t.outs(), t, t.outs().len() as int)
    &&& stores(m, h.arg_store_n@, SignatureSide::Argument, t.ins(), t, t.ins().len() as int)
    &&& stores(m, h.ret_store_n@, SignatureSide::Return, t.outs(), t, t.outs().len() as int)
    &&& support(m, h.ret_store_all, fty(seq![ValType::I32] + t.outs(), Seq::empty()), Purpose::StoreRets, t)
}
/// support functions were added, nothing else changed
#[verifier::opaque]
pub open spec fn more(m: Seq<Function>, n: Seq<Function>) -> bool {
    &&& m.len() <= n.len() && n.take(m.len() as int) =~= m
    &&& forall|i: int| m.len() <= i < n.len() ==> ((#[trigger] n[i]).code matches ImportOrPresent::Import(a, _) && a@ == "wastrumentation_stack"@) && n[i].export@.len() == 0
}
pub open spec fn rest(m: Module, n: Module) -> bool { m.memories == n.memories && m.tables == n.tables && m.elements == n.elements }
pub proof fn lem_more(a: Seq<Function>, b: Seq<Function>, c: Seq<Function>) ensures more(a, a), more(a, b) && more(b, c) ==> more(a, c)
{ reveal(more); assert(a.take(a.len() as int) =~= a); if more(a, b) && more(b, c) {
    assert forall|i: int| 0 <= i < a.len() implies c[i] == a[i] by { assert(b.take(a.len() as int)[i] == a[i]); assert(c.take(b.len() as int)[i] == b[i]); }
    assert(c.take(a.len() as int) =~= a);
    assert forall|i: int| a.len() <= i < c.len() implies ((#[trigger] c[i]).code matches ImportOrPresent::Import(a, _) && a@ == "wastrumentation_stack"@) && c[i].export@.len() == 0 by { if i < b.len() { assert(c.take(b.len() as int)[i] == b[i]); } }
} }
pub proof fn lem_more_one(a: Seq<Function>, b: Seq<Function>, t: FunctionType, n: Seq<char>) requires b.len() == a.len() + 1, b.drop_last() =~= a, imported(b.last(), t, "wastrumentation_stack"@, n) ensures more(a, b)
{ reveal(more); assert(b.take(a.len() as int) =~= a); }
pub proof fn lem_support_more(a: Seq<Function>, b: Seq<Function>, i: Idx<Function>, t: FunctionType, p: Purpose, of: FunctionType) requires more(a, b), support(a, i, t, p, of) ensures support(b, i, t, p, of)
{ reveal(more); assert(b.take(a.len() as int)[i.n() as int] == a[i.n() as int]); }
pub proof fn lem_lists_more(a: Seq<Function>, b: Seq<Function>, v: Seq<Idx<Function>>, side: SignatureSide, ts: Seq<ValType>, of: FunctionType, n: int) requires more(a, b)
    ensures loads(a, v, side, ts, of, n) ==> loads(b, v, side, ts, of, n), stores(a, v, side, ts, of, n) ==> stores(b, v, side, ts, of, n)
{
    if loads(a, v, side, ts, of, n) { assert forall|i: int| 0 <= i < n implies support(b, #[trigger] v[i], fty(seq![ValType::I32], seq![ts[i]]), Purpose::Load(side, i as nat), of) by { lem_support_more(a, b, v[i], fty(seq![ValType::I32], seq![ts[i]]), Purpose::Load(side, i as nat), of); } }
    if stores(a, v, side, ts, of, n) { assert forall|i: int| 0 <= i < n implies support(b, #[trigger] v[i], fty(seq![ValType::I32, ts[i]], Seq::empty()), Purpose::Store(side, i as nat), of) by { lem_support_more(a, b, v[i], fty(seq![ValType::I32, ts[i]], Seq::empty()), Purpose::Store(side, i as nat), of); } }
}
pub proof fn lem_linked_more(h: ModuleLinkedStackHooks, t: FunctionType, a: Seq<Function>, b: Seq<Function>) requires more(a, b), linked(h, t, a) ensures linked(h, t, b)
{
    reveal(linked);
    lem_support_more(a, b, h.allocate_values_buffer, fty(t.ins(), seq![ValType::I32]), Purpose::Allocate, t);
    lem_support_more(a, b, h.allocate_types_buffer, fty(Seq::empty(), seq![ValType::I32]), Purpose::AllocateTypes, t);
    lem_support_more(a, b, h.free_values_buffer, fty(seq![ValType::I32], Seq::empty()), Purpose::FreeValues, t);
    lem_support_more(a, b, h.free_types_buffer, fty(seq![ValType::I32], Seq::empty()), Purpose::FreeTypes, t);
    lem_support_more(a, b, h.ret_store_all, fty(seq![ValType::I32] + t.outs(), Seq::empty()), Purpose::StoreRets, t);
    lem_lists_more(a, b, h.arg_load_n@, SignatureSide::Argument, t.ins(), t, t.ins().len() as int);
    lem_lists_more(a, b, h.ret_load_n@, SignatureSide::Return, t.outs(), t, t.outs().len() as int);
    lem_lists_more(a, b, h.arg_store_n@, SignatureSide::Argument, t.ins(), t, t.ins().len() as int);
    lem_lists_more(a, b, h.ret_store_n@, SignatureSide::Return, t.outs(), t, t.outs().len() as int);
}
/// the function types that have support functions
#[verifier::opaque]
pub open spec fn all_linked(l: Map<FunctionType, ModuleLinkedStackHooks>, m: Seq<Function>) -> bool { forall|t: FunctionType| #[trigger] l.contains_key(t) ==> linked(l[t], t, m) }
pub proof fn lem_all_linked_more(l: Map<FunctionType, ModuleLinkedStackHooks>, a: Seq<Function>, b: Seq<Function>) requires more(a, b), all_linked(l, a) ensures all_linked(l, b)
{ reveal(all_linked); assert forall|t: FunctionType| #[trigger] l.contains_key(t) implies linked(l[t], t, b) by { lem_linked_more(l[t], t, a, b); } }
pub open spec fn pairs(v: Seq<(usize, &ValType)>, s: Seq<ValType>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i]).0 == i && *v[i].1 == s[i] }
pub open spec fn covered(l: Map<FunctionType, ModuleLinkedStackHooks>, m: Seq<Function>, o: Seq<Idx<Function>>, n: int) -> bool { forall|k: int| 0 <= k < n ==> l.contains_key(m[(#[trigger] o[k]).n() as int].type_) }
/// one signature per linked function type
pub open spec fn asked(s: Seq<Signature>, ts: Seq<FunctionType>) -> bool { s.len() == ts.len() && forall|i: int| 0 <= i < s.len() ==> is_sig(#[trigger] s[i], ts[i]) }
@@raw stack_library
use crate::linking::*;
use crate::named::*;
use crate::wasabi_wasm::*;
use crate::vxlib::*;
use crate::sets::*;
use crate::compiler::*;
use crate::wasm_constructs::{RefType as LibGenRefType, Signature, SignatureSide, WasmType};
use crate::instrument::function_application::INSTRUMENTATION_STACK_MODULE;
broadcast use {group_wasabi, crate::vxlib::axiom_str_text, crate::vxlib::axiom_str_ok};
@@fn stack_library::WasabiFunctionType<'_>::val_type_to_wasm_type
@contract
    ensures r == wt($p0), // [C41?]
@@fn stack_library::WasabiFunctionType<'_>::convert_reftype
@ret out
@contract
    ensures WasmType::Ref(out) == wt(ValType::Ref($p0)), // [C41?]
@@fn stack_library::<From<WasabiFunctionType<'_>>forSignature>::from
@contract
    ensures is_sig(r, *$p0.0), // [C41?]
@loop 0
invariant function_type == $p0.0, refs(all0, $p0.0.outs()), vx_out0@ =~= wts($p0.0.outs()).take(idx0),
@lstart 0
    proof { assert(x0 == all0[idx0 - 1]); }
@loop 1
invariant function_type == $p0.0, refs(all1, $p0.0.ins()), vx_out1@ =~= wts($p0.0.ins()).take(idx1),
@lstart 1
    proof { assert(x1 == all1[idx1 - 1]); }
@@fn stack_library::<From<(FunctionType,&mutModule)>forModuleLinkedStackHooks>::from
@contract
    ensures linked(r, $p0.0, final($p0.1).functions@), // [C41?]
        more(old($p0.1).functions@, final($p0.1).functions@), rest(*old($p0.1), *final($p0.1)), // [C41?]
@start
    let ghost mm = *module; let ghost m0 = mm.functions@;
@after allocate_values_buffer
    let ghost m1 = module.functions@; proof { lem_more_one(m0, m1, fty(function_type.ins(), seq![ValType::I32]), nm(Purpose::Allocate, wts(function_type.outs()), wts(function_type.ins()))); }
@after free_values_buffer
    let ghost m2 = module.functions@; proof { lem_more_one(m1, m2, fty(seq![ValType::I32], Seq::empty()), nm(Purpose::FreeValues, wts(function_type.outs()), wts(function_type.ins()))); }
@after allocate_types_buffer
    let ghost m3 = module.functions@; proof { lem_more_one(m2, m3, fty(Seq::empty(), seq![ValType::I32]), nm(Purpose::AllocateTypes, wts(function_type.outs()), wts(function_type.ins()))); }
@after free_types_buffer
    let ghost m4 = module.functions@; proof { lem_more_one(m3, m4, fty(seq![ValType::I32], Seq::empty()), nm(Purpose::FreeTypes, wts(function_type.outs()), wts(function_type.ins()))); lem_more(m4, m4, m4); }
@loop 0
invariant is_sig(lib_gen_signature, function_type), more(m4, module.functions@), rest(mm, *module), pairs(all0, function_type.ins()), loads(module.functions@, vx_out0@, SignatureSide::Argument, function_type.ins(), function_type, idx0),
@lstart 0
    let ghost ml = module.functions@; let ghost vl = vx_out0@;
    proof { assert(x0 == all0[idx0 - 1]); }
@lend 0
    proof {
        let i = idx0 - 1; let t = function_type;
        lem_more_one(ml, module.functions@, fty(seq![ValType::I32], seq![t.ins()[i]]), nm(Purpose::Load(SignatureSide::Argument, i as nat), wts(t.outs()), wts(t.ins())));
        lem_more(m4, ml, module.functions@);
        lem_lists_more(ml, module.functions@, vl, SignatureSide::Argument, t.ins(), t, i);
        assert forall|j: int| 0 <= j < idx0 implies support(module.functions@, #[trigger] vx_out0@[j], fty(seq![ValType::I32], seq![t.ins()[j]]), Purpose::Load(SignatureSide::Argument, j as nat), t) by { if j < i { assert(vx_out0@[j] == vl[j]); } }
    }
@after arg_load_n
    let ghost m5 = module.functions@; proof { lem_more(m5, m5, m5); }
@loop 1
invariant is_sig(lib_gen_signature, function_type), more(m5, module.functions@), rest(mm, *module), pairs(all1, function_type.outs()), loads(module.functions@, vx_out1@, SignatureSide::Return, function_type.outs(), function_type, idx1),
@lstart 1
    let ghost ml = module.functions@; let ghost vl = vx_out1@;
    proof { assert(x1 == all1[idx1 - 1]); }
@lend 1
    proof {
        let i = idx1 - 1; let t = function_type;
        lem_more_one(ml, module.functions@, fty(seq![ValType::I32], seq![t.outs()[i]]), nm(Purpose::Load(SignatureSide::Return, i as nat), wts(t.outs()), wts(t.ins())));
        lem_more(m5, ml, module.functions@);
        lem_lists_more(ml, module.functions@, vl, SignatureSide::Return, t.outs(), t, i);
        assert forall|j: int| 0 <= j < idx1 implies support(module.functions@, #[trigger] vx_out1@[j], fty(seq![ValType::I32], seq![t.outs()[j]]), Purpose::Load(SignatureSide::Return, j as nat), t) by { if j < i { assert(vx_out1@[j] == vl[j]); } }
    }
@after ret_load_n
    let ghost m6 = module.functions@; proof { lem_more(m6, m6, m6); }
@loop 2
invariant is_sig(lib_gen_signature, function_type), more(m6, module.functions@), rest(mm, *module), pairs(all2, function_type.ins()), stores(module.functions@, vx_out2@, SignatureSide::Argument, function_type.ins(), function_type, idx2),
@lstart 2
    let ghost ml = module.functions@; let ghost vl = vx_out2@;
    proof { assert(x2 == all2[idx2 - 1]); }
@lend 2
    proof {
        let i = idx2 - 1; let t = function_type;
        lem_more_one(ml, module.functions@, fty(seq![ValType::I32, t.ins()[i]], Seq::empty()), nm(Purpose::Store(SignatureSide::Argument, i as nat), wts(t.outs()), wts(t.ins())));
        lem_more(m6, ml, module.functions@);
        lem_lists_more(ml, module.functions@, vl, SignatureSide::Argument, t.ins(), t, i);
        assert forall|j: int| 0 <= j < idx2 implies support(module.functions@, #[trigger] vx_out2@[j], fty(seq![ValType::I32, t.ins()[j]], Seq::empty()), Purpose::Store(SignatureSide::Argument, j as nat), t) by { if j < i { assert(vx_out2@[j] == vl[j]); } }
    }
@after arg_store_n
    let ghost m7 = module.functions@; proof { lem_more(m7, m7, m7); }
@loop 3
invariant is_sig(lib_gen_signature, function_type), more(m7, module.functions@), rest(mm, *module), pairs(all3, function_type.outs()), stores(module.functions@, vx_out3@, SignatureSide::Return, function_type.outs(), function_type, idx3),
@lstart 3
    let ghost ml = module.functions@; let ghost vl = vx_out3@;
    proof { assert(x3 == all3[idx3 - 1]); }
@lend 3
    proof {
        let i = idx3 - 1; let t = function_type;
        lem_more_one(ml, module.functions@, fty(seq![ValType::I32, t.outs()[i]], Seq::empty()), nm(Purpose::Store(SignatureSide::Return, i as nat), wts(t.outs()), wts(t.ins())));
        lem_more(m7, ml, module.functions@);
        lem_lists_more(ml, module.functions@, vl, SignatureSide::Return, t.outs(), t, i);
        assert forall|j: int| 0 <= j < idx3 implies support(module.functions@, #[trigger] vx_out3@[j], fty(seq![ValType::I32, t.outs()[j]], Seq::empty()), Purpose::Store(SignatureSide::Return, j as nat), t) by { if j < i { assert(vx_out3@[j] == vl[j]); } }
    }
@after ret_store_n
    let ghost m8 = module.functions@; proof { lem_more(m8, m8, m8); }
@after ret_store_all
    let ghost m9 = module.functions@;
    proof {
        let t = function_type;
        lem_more_one(m8, m9, fty(seq![ValType::I32] + t.outs(), Seq::empty()), nm(Purpose::StoreRets, wts(t.outs()), wts(t.ins())));
        lem_more(m7, m8, m9); lem_more(m6, m7, m9); lem_more(m5, m6, m9); lem_more(m4, m5, m9); lem_more(m3, m4, m9); lem_more(m2, m3, m9); lem_more(m1, m2, m9); lem_more(m0, m1, m9);
        lem_support_more(m1, m9, allocate_values_buffer, fty(t.ins(), seq![ValType::I32]), Purpose::Allocate, t);
        lem_support_more(m2, m9, free_values_buffer, fty(seq![ValType::I32], Seq::empty()), Purpose::FreeValues, t);
        lem_support_more(m3, m9, allocate_types_buffer, fty(Seq::empty(), seq![ValType::I32]), Purpose::AllocateTypes, t);
        lem_support_more(m4, m9, free_types_buffer, fty(seq![ValType::I32], Seq::empty()), Purpose::FreeTypes, t);
        lem_lists_more(m5, m9, arg_load_n@, SignatureSide::Argument, t.ins(), t, t.ins().len() as int);
        lem_lists_more(m6, m9, ret_load_n@, SignatureSide::Return, t.outs(), t, t.outs().len() as int);
        lem_lists_more(m7, m9, arg_store_n@, SignatureSide::Argument, t.ins(), t, t.ins().len() as int);
        lem_lists_more(m8, m9, ret_store_n@, SignatureSide::Return, t.outs(), t, t.outs().len() as int);
        reveal(linked);
    }
@@fn stack_library::ModuleLinkedStackHooks::from_function_type_module
@contract
    ensures linked(r, $p0, final($p1).functions@), // [C41?]
        more(old($p1).functions@, final($p1).functions@), rest(*old($p1), *final($p1)), // [C41?]
@@fn stack_library::StackLibrary<Language>::from_module
@contract
    requires forall|i: Idx<Function>| #[trigger] $p1@.contains(i) ==> i.n() < old($p0).functions@.len(),
    ensures all_linked(r.signature_import_links@, final($p0).functions@), // [C41?]
        forall|i: Idx<Function>| #[trigger] $p1@.contains(i) ==> r.signature_import_links@.contains_key(old($p0).functions@[i.n() as int].type_), // [C41?]
        more(old($p0).functions@, final($p0).functions@), rest(*old($p0), *final($p0)), // [C41?]
        exists|s: Seq<Signature>| #[trigger] asked(s, r.signature_import_links.order()) && r.library == Language::lib(s), // [C41?]
@start
    let ghost mm = *$p0; let ghost m0 = mm.functions@;
    proof { lem_more(m0, m0, m0); reveal(all_linked); }
@loop 0
invariant refs(all0, $p1.order()), lists($p1.order(), $p1@), forall|i: Idx<Function>| #[trigger] $p1@.contains(i) ==> i.n() < m0.len(),
    more(m0, $p0.functions@), rest(mm, *$p0), all_linked(vx_acc0@, $p0.functions@), covered(vx_acc0@, m0, $p1.order(), idx0),
@lstart 0
    let ghost ml = $p0.functions@; let ghost al = vx_acc0@; let ghost i0 = $p1.order()[idx0 - 1]; let ghost t0 = m0[i0.n() as int].type_;
    proof { assert(x0 == all0[idx0 - 1]); assert(*x0 == i0); assert($p1.order().contains(i0)); assert($p1@.contains(i0)); reveal(more); assert(ml.take(m0.len() as int)[i0.n() as int] == m0[i0.n() as int]); }
@lend 0
    proof {
        let now = $p0.functions@;
        lem_more(ml, now, now); lem_more(m0, ml, now); lem_all_linked_more(al, ml, now);
        assert(vx_acc0@.contains_key(t0));
        assert forall|t: FunctionType| #[trigger] vx_acc0@.contains_key(t) implies linked(vx_acc0@[t], t, now) by { reveal(all_linked); if al.contains_key(t) && !(t == t0 && !al.contains_key(t0)) { assert(vx_acc0@[t] == al[t]); } }
        reveal(all_linked);
        assert(covered(vx_acc0@, m0, $p1.order(), idx0));
    }
@lafter 0
    proof { assert forall|i: Idx<Function>| #[trigger] $p1@.contains(i) implies vx_acc0@.contains_key(m0[i.n() as int].type_) by { let k = choose|k: int| 0 <= k < $p1.order().len() && $p1.order()[k] == i; } }
@loop 1
invariant refs(all1, signature_import_links.order()), asked(vx_out1@, signature_import_links.order().take(idx1)),
@lstart 1
    proof { assert(x1 == all1[idx1 - 1]); }
@lafter 1
    proof { assert(signature_import_links.order().take(idx1) =~= signature_import_links.order()); }

@@fn instrument::<From<WasmType>forWasabiValType>::from
@contract
    ensures r.0 == vt($p0), // [C41?]
@@fn instrument::<From<Vec<WasmType>>forValTypeVec>::from
@contract
    ensures r.0@ =~= vts($p0@), // [C41?]
@loop 0
invariant all0 == $p0@, vx_out0@ =~= vts($p0@).take(idx0),
@lstart 0
    proof { assert(x0 == all0[idx0 - 1]); }
@@fn instrument::<FunctionTypeConvertibleforWasmExport>::as_function_type
@contract
    ensures r == fty(vts(self.args@), vts(self.results@)), // [C41?]
@@fn instrument::<FunctionTypeConvertibleforWasmImport>::as_function_type
@contract
    ensures r == fty(vts(self.args@), vts(self.results@)), // [C41?]
@@fn instrument::function_application::instrument
@contract
    requires forall|i: Idx<Function>| #[trigger] $p1@.contains(i) ==> i.n() < old($p0).functions@.len(),
    ensures exists|d: Inside| #[trigger] done(d, *old($p0), *final($p0), $p1.order(), *$p2, *$p3) && r == InstrumentationLanguage::lib(d.asked), // [C41?]
        keeps(*old($p0), *final($p0), $p1@), // [C42?]
@start
    let ghost mm = *$p0; let ghost g = mk::<Function>(mm.functions@.len() as u32); let ghost o = $p1.order();
@after generic_apply_index
    let ghost a = $p0.functions@;
@after apply_table_funs
    let ghost m1 = *$p0; let ghost mf = m1.functions@; let ghost l = signature_import_links@;
    proof {
        lem_hooked(mm.functions@, a, mf, *$p2); lem_applying_start(mf, l, o, g);
        assert(forall|j: int| 0 <= j < o.len() && lists(o, $p1@) ==> $p1@.contains(#[trigger] o[j]));
        assert(forall|j: int| 0 <= j < o.len() && lists(o, $p1@) ==> l.contains_key(mf[(#[trigger] o[j]).n() as int].type_));
    }
@loop 0
invariant refs(all0, o), lists(o, $p1@), ready(mf, l, o), l == signature_import_links@, g == generic_apply_index, mf == m1.functions@,
    applying(mf, $p0.functions@, l, o, idx0, g), rest(m1, *$p0), slots(apply_table_funs@, mf.len() as int), apply_table_funs@.len() == idx0,
@lstart 0
    let ghost k = idx0 - 1; let ghost i = o[k]; let ghost nf = $p0.functions@; let ghost f = mf[i.n() as int]; let ghost h = l[f.type_];
    proof { assert(x0 == all0[k]); assert(*x0 == i); lem_untouched(mf, nf, l, o, k, g); assert(linked(h, f.type_, mf)) by { reveal(all_linked); } }
@loop 1
invariant f.code is Present, refs_of(all1, f.code->Present_0.locals@), vx_out0@ =~= types_in(f.code->Present_0.locals@).take(idx1),
@lstart 1
    proof { assert(x1 == all1[idx1 - 1]); }
@loop 2
invariant refs(all2, h.arg_load_n@), apply_instructions@ =~= seq![get(0)] + loading(h.arg_load_n@.take(idx2), get(0)),
@lstart 2
    proof { assert(x2 == all2[idx2 - 1]); lem_loading(h.arg_load_n@, get(0), idx2); }
@loop 3
invariant pairs(all3, f.type_.ins()), vx_out1@ =~= gets(idx3 as nat),
@lstart 3
    proof { assert(x3 == all3[idx3 - 1]); }
@lbefore 4
    let ghost b4 = instrumented_body@;
@loop 4
invariant stack_ptr_local == mk::<crate::wasabi_wasm::Local>(f.type_.ins().len() as u32), refs(all4, h.ret_load_n@), instrumented_body@ =~= b4 + loading(h.ret_load_n@.take(idx4), get(f.type_.ins().len() as int)),
@lstart 4
    proof { assert(x4 == all4[idx4 - 1]); lem_loading(h.ret_load_n@, get(f.type_.ins().len() as int), idx4); }
@lend 0
    proof {
        let x = $p0.functions@; let b = nf.len() as int; let t = f.type_;
        assert(copied(f, x[b]));
        assert(h.arg_load_n@.take(h.arg_load_n@.len() as int) =~= h.arg_load_n@); assert(h.ret_load_n@.take(h.ret_load_n@.len() as int) =~= h.ret_load_n@);
        assert(newfn(x[b + 1], fty(seq![ValType::I32], Seq::empty()), seq![ValType::I32], shim(mk(b as u32), h)));
        assert(x[i.n() as int].code->Present_0.body@ =~= wrap(k, i, t, f.code is Present, g, h));
        assert(wrapped(f, x[i.n() as int], wrap(k, i, t, f.code is Present, g, h)));
        reveal(applied);
        lem_applying_step(mf, nf, $p0.functions@, l, o, k, g); }
@loop 5
invariant refs(all5, apply_table_funs@), slots(apply_table_funs@, mf.len() as int), entries(vx_out2@, mf.len() as int, idx5),
@lstart 5
    proof { assert(x5 == all5[idx5 - 1]); }
@lafter 5
    proof { assert(apply_table_funs@.len() == o.len()); }
@end
    proof {
        let asked = choose|s: Seq<crate::wasm_constructs::Signature>| #[trigger] crate::linking::asked(s, signature_import_links.order()) && library == InstrumentationLanguage::lib(s);
        let d = Inside { m: m1, links: signature_import_links, asked };
        let m2 = *$p0;
        assert(m2.functions@.drop_last() =~= last.functions@);
        assert(call_base(m2.functions@.last(), *$p3, m1.tables@.len() as int));
        assert(m2.tables@.drop_last() =~= m1.tables@); assert(m2.elements@.drop_last() =~= m1.elements@);
        reveal(intercepted);
        assert(intercepted(m1, m2, l, o, g, *$p3));
        assert(rest(mm, m1));
        assert(done(d, mm, m2, o, *$p2, *$p3));
        lem_keeps(d, mm, m2, o, *$p2, *$p3, $p1@);
    }
@after apply_count
    let ghost last = *$p0;
""")
