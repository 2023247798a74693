#!/usr/bin/env python3
"""units/pure.vu: which functions the static analysis reports (C37)"""
from gen_nest import *
LIB = """@@raw vxlib
// a value that is there, or a panic (which gives no result)
pub trait VxMust: Sized { type T; spec fn there(&self) -> bool; spec fn val(&self) -> Self::T; fn must(self) -> (r: Self::T) ensures self.there(), r == self.val(); }
impl<T> VxMust for Option<T> { type T = T; open spec fn there(&self) -> bool { self is Some } open spec fn val(&self) -> T { self->0 } #[verifier::external_body] fn must(self) -> (r: T) { self.unwrap() } }
impl<T, E> VxMust for Result<T, E> { type T = T; open spec fn there(&self) -> bool { self is Ok } open spec fn val(&self) -> T { self->Ok_0 } #[verifier::external_body] fn must(self) -> (r: T) { match self { Ok(v) => v, Err(_) => panic!() } } }
pub fn find<I: Iterator, F: Fn(&I::Item) -> bool>(it: I, f: F) -> (r: Option<I::Item>)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some, forall|x: I::Item| f.requires((&x,))
    ensures match r {
        Some(x) => exists|i: int| 0 <= i < it.remaining().len() && x == #[trigger] it.remaining()[i] && f.ensures((&x,), true),
        None => forall|i: int| 0 <= i < it.remaining().len() ==> f.ensures((&(#[trigger] it.remaining()[i]),), false),
    }
{
    let mut src = it;
    let ghost all = src.remaining();
    let ghost mut n: int = 0;
    loop
        invariant all == it.remaining(), src.obeys_prophetic_iter_laws(), src.decrease() is Some, 0 <= n <= all.len(), src.remaining() =~= all.skip(n), forall|x: I::Item| f.requires((&x,)),
            forall|i: int| 0 <= i < n ==> f.ensures((&(#[trigger] all[i]),), false),
        decreases src.decrease().unwrap()
    {
        match src.next() {
            None => return None,
            Some(x) => {
                proof { assert(x == all[n]); n = n + 1; }
                if f(&x) { return Some(x); }
            }
        }
    }
}
pub fn filter_map_set<I: Iterator, P: Fn(&I::Item) -> bool, F: Fn(I::Item) -> u32>(it: I, p: P, f: F) -> (r: std::collections::HashSet<u32>)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some, forall|x: I::Item| p.requires((&x,)), forall|x: I::Item| f.requires((x,))
    ensures forall|v: u32| r@.contains(v) ==> exists|i: int| 0 <= i < it.remaining().len() && p.ensures((&it.remaining()[i],), true) && f.ensures((#[trigger] it.remaining()[i],), v),
        forall|i: int| 0 <= i < it.remaining().len() ==> p.ensures((&#[trigger] it.remaining()[i],), false) || exists|v: u32| #[trigger] r@.contains(v) && f.ensures((it.remaining()[i],), v),
{
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let mut src = it;
    let ghost all = src.remaining();
    let ghost mut n: int = 0;
    let mut out: std::collections::HashSet<u32> = std::collections::HashSet::new();
    loop
        invariant all == it.remaining(), src.obeys_prophetic_iter_laws(), src.decrease() is Some, 0 <= n <= all.len(), src.remaining() =~= all.skip(n), forall|x: I::Item| p.requires((&x,)), forall|x: I::Item| f.requires((x,)),
            forall|v: u32| out@.contains(v) ==> exists|i: int| 0 <= i < n && p.ensures((&all[i],), true) && f.ensures((#[trigger] all[i],), v),
            forall|i: int| 0 <= i < n ==> p.ensures((&#[trigger] all[i],), false) || exists|v: u32| #[trigger] out@.contains(v) && f.ensures((all[i],), v),
        decreases src.decrease().unwrap()
    {
        match src.next() {
            None => return out,
            Some(x) => {
                let ghost o0 = out@;
                proof { assert(x == all[n]); n = n + 1; }
                if p(&x) {
                    let v = f(x);
                    out.insert(v);
                    proof { assert forall|w: u32| out@.contains(w) implies exists|i: int| 0 <= i < n && p.ensures((&all[i],), true) && f.ensures((#[trigger] all[i],), w) by { if w == v { let i = n - 1; assert(p.ensures((&all[i],), true) && f.ensures((all[i],), v)); } else { assert(o0.contains(w)); } }
                        assert forall|i: int| 0 <= i < n implies p.ensures((&#[trigger] all[i],), false) || exists|v: u32| #[trigger] out@.contains(v) && f.ensures((all[i],), v) by { if i == n - 1 { assert(out@.contains(v) && f.ensures((all[i],), v)); } else if !p.ensures((&all[i],), false) { let w = choose|w: u32| #[trigger] o0.contains(w) && f.ensures((all[i],), w); assert(out@.contains(w)); } } }
                }
            }
        }
    }
}
"""
PHEAD = """@@include lib.vu
@@include wasabi.vu
@@extern wasabi_wasm
@@opt find
@@opt maypanic
@@opt setcollect
@@opt localfns
@@map wastrumentation crate
@@module parse_nesting wastrumentation/src/parse_nesting/mod.rs
@@module parse_nesting::high_level_body wastrumentation/src/parse_nesting/high_level_body.rs
@@module parse_nesting::typed_high_level_body wastrumentation/src/parse_nesting/typed_high_level_body.rs
@@module parse_nesting::typed_high_level_body_error wastrumentation/src/parse_nesting/typed_high_level_body_error.rs
@@drop parse_nesting::typed_high_level_body::TypedHighLevelInstr::to_trap_call
@@drop parse_nesting::typed_high_level_body::TypedHighLevelInstr::instrument_with
@@drop parse_nesting::typed_high_level_body::TypedHighLevelInstr::place_original
@@drop parse_nesting::typed_high_level_body::TypedHighLevelInstr::place_untouched
@@drop parse_nesting::typed_high_level_body::TypedHighLevelInstr::is_uninstrumented
@@drop parse_nesting::typed_high_level_body::TypedHighLevelInstr::new_uninstrumented
@@module pure wastrumentation-static-analysis/src/lib.rs
@@derive parse_nesting::high_level_body::LowLevelBody
@@derive parse_nesting::typed_high_level_body::Body
@@derive parse_nesting::typed_high_level_body::TypedHighLevelInstr
@@derive parse_nesting::typed_high_level_body::Instr
@@derive parse_nesting::typed_high_level_body_error::LowToHighError
@@derive pure::AnalysisTargetFunction
@@derive pure::Purity
@@derive pure::PurityEstimate PartialEq, Eq
@@only parse_nesting::high_level_body LowLevelBody
@@module parse_nesting::typed_indexed_instr wastrumentation/src/parse_nesting/typed_indexed_instr.rs
@@only parse_nesting::typed_indexed_instr TypedIndexedInstr
@@drop parse_nesting::high_level_body::LowLevelBody::from_recurse
@@drop parse_nesting::typed_high_level_body::use*
@@derive parse_nesting::typed_indexed_instr::TypedIndexedInstr
@@only parse_nesting::typed_high_level_body BodyInner; Body; TypedHighLevelInstr; Instr; <TryFrom<(&Module,&Function,&Code,&Idx<Function>)>forBody>
@@raw wasabi_wasm
impl Function { #[verifier::external_body] pub fn code(&self) -> (r: Option<&Code>) ensures match self.code { ImportOrPresent::Import(..) => r is None, ImportOrPresent::Present(c) => r is Some && *r->0 == c } { unimplemented!() } }
#[verifier::external_body] pub struct ParseError { e: () }
impl Module {
    // Trusted: every function of the module with its index, in order
    #[verifier::external_body] pub fn functions<'a>(&'a self) -> (r: std::vec::IntoIter<(Idx<Function>, &'a Function)>)
        ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some, IteratorSpec::remaining(&r).len() == self.functions@.len(),
            forall|i: int| 0 <= i < self.functions@.len() ==> (#[trigger] IteratorSpec::remaining(&r)[i]).0.n() == i && *IteratorSpec::remaining(&r)[i].1 == self.functions@[i] { unimplemented!() }
    pub uninterp spec fn parsed(b: Seq<u8>) -> Option<Module>;
    #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: Result<(Module, u8, u8), ParseError>)
        ensures match r { Ok(m) => Self::parsed(b@) == Some(m.0), Err(_) => Self::parsed(b@) is None } { unimplemented!() }
}
"""
CON = """
@@raw parse_nesting::typed_high_level_body
use crate::wasabi_wasm::{types::InferredInstructionType, BinaryOp, Code, Data, Element, Function, FunctionType, Global, GlobalOp, Idx, Label, LoadOp, Local, LocalOp, Memarg, Memory, Module, RefType, StoreOp, Table, UnaryOp, Val, ValType, Instr as W};
pub use crate::parse_nesting::typed_high_level_body_error::*;
use crate::tree::*;
use crate::vview::*;
@@fn parse_nesting::typed_high_level_body::<TryFrom<(&Module,&Function,&Code,&Idx<Function>)>forBody>::try_from
@external
@contract
    ensures r is Ok ==> ws(flat(vs(r->Ok_0.0@))).push(F::I(W::End)) =~= fvs($p0.2.body@),
@@raw safe
use crate::tree::*;
use crate::vview::*;
use crate::wasabi_wasm::{Instr as W, Module};
use crate::parse_nesting::typed_high_level_body::*;
use crate::pure::{AnalysisTargetFunction, Purity};
/// an instruction that touches no state other than that of its own call, when calls may only go to `p` or to the function itself
pub open spec fn safe(w: F, me: u32, p: spec_fn(u32) -> bool) -> bool { match w {
    F::I(W::Call(g)) => g.n() == me || p(g.n()),
    F::I(W::CallIndirect(..)) | F::I(W::Global(..)) | F::I(W::TableGet(..)) | F::I(W::TableSet(..)) | F::I(W::TableSize(..)) | F::I(W::TableGrow(..)) | F::I(W::TableFill(..))
    | F::I(W::TableCopy(..)) | F::I(W::TableInit(..)) | F::I(W::ElemDrop(..)) | F::I(W::Load(..)) | F::I(W::Store(..)) | F::I(W::MemorySize(..)) | F::I(W::MemoryGrow(..))
    | F::I(W::MemoryFill) | F::I(W::MemoryCopy) | F::I(W::MemoryInit(..)) | F::I(W::DataDrop(..)) => false,
    _ => true,
} }
#[verifier::opaque]
pub open spec fn safes(s: Seq<F>, me: u32, p: spec_fn(u32) -> bool) -> bool { forall|k: int| 0 <= k < s.len() ==> safe(#[trigger] s[k], me, p) }
pub broadcast proof fn lem_safes_empty(me: u32, p: spec_fn(u32) -> bool) ensures #[trigger] safes(Seq::empty(), me, p) { reveal(safes); }
pub broadcast proof fn lem_safes_push(s: Seq<F>, w: F, me: u32, p: spec_fn(u32) -> bool) ensures #[trigger] safes(s.push(w), me, p) == (safes(s, me, p) && safe(w, me, p))
{ reveal(safes); if safes(s.push(w), me, p) { assert(s.push(w)[s.len() as int] == w); assert forall|k: int| 0 <= k < s.len() implies safe(#[trigger] s[k], me, p) by { assert(s.push(w)[k] == s[k]); } } }
pub broadcast proof fn lem_safes_add(s: Seq<F>, t: Seq<F>, me: u32, p: spec_fn(u32) -> bool) ensures #[trigger] safes(s + t, me, p) == (safes(s, me, p) && safes(t, me, p))
{ reveal(safes); if safes(s + t, me, p) {
    assert forall|k: int| 0 <= k < s.len() implies safe(#[trigger] s[k], me, p) by { assert((s + t)[k] == s[k]); }
    assert forall|k: int| 0 <= k < t.len() implies safe(#[trigger] t[k], me, p) by { assert((s + t)[k + s.len()] == t[k]); }
} }
pub proof fn lem_safes_more(s: Seq<F>, me: u32, p: spec_fn(u32) -> bool, q: spec_fn(u32) -> bool) requires forall|i: u32| #[trigger] p(i) ==> q(i), safes(s, me, p) ensures safes(s, me, q) { reveal(safes); assert forall|k: int| 0 <= k < s.len() implies safe(#[trigger] s[k], me, q) by { assert(safe(s[k], me, p)); } }
/// a nested body, at any depth
pub open spec fn body_safe(b: Seq<TypedHighLevelInstr>, me: u32, p: spec_fn(u32) -> bool) -> bool { safes(ws(flat(vs(b))), me, p) }
/// what the list of analysed functions says is pure
pub open spec fn pures(t: Seq<AnalysisTargetFunction>) -> spec_fn(u32) -> bool { |i: u32| pure_in(t, i) }
pub open spec fn none() -> spec_fn(u32) -> bool { |i: u32| false }
pub open spec fn members(s: Set<u32>) -> spec_fn(u32) -> bool { |i: u32| s.contains(i) }
pub open spec fn pure_in(t: Seq<AnalysisTargetFunction>, i: u32) -> bool { exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).index.n() == i && t[k].purity is Pure }
/// what the list may say about function `k` of the module, when `p` are the pure ones
pub open spec fn fair(m: Module, x: AnalysisTargetFunction, k: int, p: spec_fn(u32) -> bool) -> bool {
    x.index.n() == k && match x.purity {
        Purity::Unknown(b) => m.functions@[k].code is Present && ws(flat(vs(b.0@))).push(F::I(W::End)) =~= fvs(m.functions@[k].code->Present_0.body@),
        Purity::Pure => m.functions@[k].code is Present && safes(fvs(m.functions@[k].code->Present_0.body@), k as u32, p),
        Purity::Impure => true,
    }
}
/// the promise: a set of functions that stay to themselves
pub open spec fn untouching(m: Module, p: spec_fn(u32) -> bool) -> bool { forall|i: u32| #[trigger] p(i) ==> i < m.functions@.len() && m.functions@[i as int].code is Present && safes(fvs(m.functions@[i as int].code->Present_0.body@), i, p) }
pub proof fn lem_fair(m: Module, t: Seq<AnalysisTargetFunction>, p: spec_fn(u32) -> bool, q: spec_fn(u32) -> bool)
    requires t.len() == m.functions@.len(), forall|k: int| 0 <= k < t.len() ==> fair(m, #[trigger] t[k], k, p), forall|i: u32| #[trigger] p(i) ==> q(i)
    ensures forall|k: int| 0 <= k < t.len() ==> fair(m, #[trigger] t[k], k, q)
{ assert forall|k: int| 0 <= k < t.len() implies fair(m, #[trigger] t[k], k, q) by { if t[k].purity is Pure { lem_safes_more(fvs(m.functions@[k].code->Present_0.body@), k as u32, p, q); } } }
pub proof fn lem_pures(t: Seq<AnalysisTargetFunction>, u: Seq<AnalysisTargetFunction>)
    requires t.len() == u.len(), forall|k: int| 0 <= k < t.len() ==> t[k].index.n() == (#[trigger] u[k]).index.n() && (t[k].purity is Pure ==> u[k].purity is Pure)
    ensures forall|i: u32| #[trigger] (pures(t))(i) ==> (pures(u))(i)
{ assert forall|i: u32| #[trigger] (pures(t))(i) implies (pures(u))(i) by { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).index.n() == i && t[k].purity is Pure; assert(u[k].index.n() == i); } }
pub open spec fn gathered(t: Seq<AnalysisTargetFunction>, s: Set<u32>) -> bool {
    &&& forall|v: u32| #[trigger] s.contains(v) ==> exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).purity is Pure && t[k].index.n() == v
    &&& forall|k: int| 0 <= k < t.len() && (#[trigger] t[k]).purity is Pure ==> s.contains(t[k].index.n())
}
pub broadcast proof fn lem_result(m: Module, t: Seq<AnalysisTargetFunction>, s: Set<u32>)
    requires t.len() == m.functions@.len(), forall|k: int| 0 <= k < t.len() ==> fair(m, #[trigger] t[k], k, pures(t)), gathered(t, s)
    ensures #![trigger untouching(m, members(s)), pures(t)] untouching(m, members(s))
{
    lem_fair(m, t, pures(t), members(s));
    assert forall|i: u32| #[trigger] (members(s))(i) implies i < m.functions@.len() && m.functions@[i as int].code is Present && safes(fvs(m.functions@[i as int].code->Present_0.body@), i, members(s)) by {
        assert(s.contains(i));
        let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).purity is Pure && t[k].index.n() == i;
        assert(fair(m, t[k], k, members(s)));
    }
}
// ---- the other direction: what is not reported has a reason
pub open spec fn impure_in(t: Seq<AnalysisTargetFunction>, i: u32) -> bool { exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).index.n() == i && t[k].purity is Impure }
/// everything but what the list says is impure
pub open spec fn nots(t: Seq<AnalysisTargetFunction>) -> spec_fn(u32) -> bool { |i: u32| !impure_in(t, i) }
pub open spec fn in_place(t: Seq<AnalysisTargetFunction>) -> bool { forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).index.n() == k }
/// a function given up on has a reason, whatever is found out about the others
pub open spec fn owed(m: Module, x: AnalysisTargetFunction, k: int, q: spec_fn(u32) -> bool) -> bool {
    x.purity is Impure && m.functions@[k].code is Present ==> !safes(fvs(m.functions@[k].code->Present_0.body@), k as u32, q)
}
pub open spec fn open_end(m: Module, x: AnalysisTargetFunction, k: int, p: spec_fn(u32) -> bool) -> bool {
    x.purity is Unknown && m.functions@[k].code is Present ==> !safes(fvs(m.functions@[k].code->Present_0.body@), k as u32, p)
}
pub open spec fn same_kind(a: Purity, b: Purity) -> bool { (a is Pure <==> b is Pure) && (a is Impure <==> b is Impure) && (a is Unknown <==> b is Unknown) }
pub proof fn lem_owed(m: Module, t: Seq<AnalysisTargetFunction>, q: spec_fn(u32) -> bool, r: spec_fn(u32) -> bool)
    requires t.len() == m.functions@.len(), forall|k: int| 0 <= k < t.len() ==> owed(m, #[trigger] t[k], k, q), forall|i: u32| #[trigger] r(i) ==> q(i)
    ensures forall|k: int| 0 <= k < t.len() ==> owed(m, #[trigger] t[k], k, r)
{ assert forall|k: int| 0 <= k < t.len() implies owed(m, #[trigger] t[k], k, r) by { assert(owed(m, t[k], k, q)); if t[k].purity is Impure && m.functions@[k].code is Present { let s = fvs(m.functions@[k].code->Present_0.body@); if safes(s, k as u32, r) { lem_safes_more(s, k as u32, r, q); } } } }
pub proof fn lem_nots(t: Seq<AnalysisTargetFunction>, u: Seq<AnalysisTargetFunction>)
    requires t.len() == u.len(), forall|k: int| 0 <= k < t.len() ==> t[k].index.n() == (#[trigger] u[k]).index.n() && (t[k].purity is Impure ==> u[k].purity is Impure)
    ensures forall|i: u32| #[trigger] (nots(u))(i) ==> (nots(t))(i)
{ assert forall|i: u32| #[trigger] (nots(u))(i) implies (nots(t))(i) by { if impure_in(t, i) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).index.n() == i && t[k].purity is Impure; assert(u[k].index.n() == i); } } }
pub proof fn lem_open(m: Module, t: Seq<AnalysisTargetFunction>, u: Seq<AnalysisTargetFunction>)
    requires t.len() == u.len(), t.len() == m.functions@.len(), in_place(t), in_place(u), forall|k: int| 0 <= k < t.len() ==> same_kind(t[k].purity, (#[trigger] u[k]).purity), forall|k: int| 0 <= k < u.len() ==> open_end(m, #[trigger] u[k], k, pures(t))
    ensures forall|k: int| 0 <= k < u.len() ==> open_end(m, #[trigger] u[k], k, pures(u))
{
    assert forall|i: u32| #[trigger] (pures(u))(i) implies (pures(t))(i) by { let k = choose|k: int| 0 <= k < u.len() && (#[trigger] u[k]).index.n() == i && u[k].purity is Pure; assert(t[k].index.n() == i && t[k].purity is Pure); }
    assert forall|k: int| 0 <= k < u.len() implies open_end(m, #[trigger] u[k], k, pures(u)) by { assert(open_end(m, u[k], k, pures(t))); if u[k].purity is Unknown && m.functions@[k].code is Present { let s = fvs(m.functions@[k].code->Present_0.body@); if safes(s, k as u32, pures(u)) { lem_safes_more(s, k as u32, pures(u), pures(t)); } } }
}
/// the promise: whoever could be in the set is
pub open spec fn complete(m: Module, p: spec_fn(u32) -> bool) -> bool { forall|k: int| 0 <= k < m.functions@.len() && (#[trigger] m.functions@[k]).code is Present && k <= u32::MAX && !p(k as u32) ==> !safes(fvs(m.functions@[k].code->Present_0.body@), k as u32, p) }
#[verifier::opaque]
pub open spec fn settled(m: Module, t: Seq<AnalysisTargetFunction>) -> bool { t.len() == m.functions@.len() && in_place(t) && (forall|k: int| 0 <= k < t.len() ==> open_end(m, #[trigger] t[k], k, pures(t))) && forall|k: int| 0 <= k < t.len() ==> owed(m, #[trigger] t[k], k, nots(t)) }
pub broadcast proof fn lem_complete(m: Module, t: Seq<AnalysisTargetFunction>, s: Set<u32>)
    requires settled(m, t), gathered(t, s)
    ensures #![trigger complete(m, members(s)), settled(m, t)] complete(m, members(s))
{
    reveal(settled);
    assert forall|i: u32| #[trigger] (members(s))(i) implies (pures(t))(i) by { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).purity is Pure && t[k].index.n() == i; assert(t[k].index.n() == i); }
    assert forall|i: u32| #[trigger] (members(s))(i) implies (nots(t))(i) by { assert((pures(t))(i)); let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).index.n() == i && t[k].purity is Pure; if impure_in(t, i) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).index.n() == i && t[j].purity is Impure; assert(j == k); } }
    assert forall|k: int| 0 <= k < m.functions@.len() && (#[trigger] m.functions@[k]).code is Present && k <= u32::MAX && !(members(s))(k as u32) implies !safes(fvs(m.functions@[k].code->Present_0.body@), k as u32, members(s)) by {
        let b = fvs(m.functions@[k].code->Present_0.body@);
        assert(t[k].index.n() == k);
        if t[k].purity is Pure { assert(s.contains(t[k].index.n())); }
        assert(open_end(m, t[k], k, pures(t)) && owed(m, t[k], k, nots(t)));
        if safes(b, k as u32, members(s)) { lem_safes_more(b, k as u32, members(s), pures(t)); lem_safes_more(b, k as u32, members(s), nots(t)); }
    }
}
/// a safe body has safe parts
pub proof fn lem_part(b: Seq<TypedHighLevelInstr>, i: int, me: u32, p: spec_fn(u32) -> bool)
    requires 0 <= i < b.len(), body_safe(b, me, p)
    ensures safes(ws(flat1(vt(b[i]))), me, p)
    decreases b.len()
{
    broadcast use {group_tree, group_v, lem_safes_push, lem_safes_add, lem_safes_empty};
    let n = b.len() - 1;
    assert(b =~= b.take(n as int).push(b[n as int]));
    assert(vs(b) =~= vs(b.take(n as int)).push(vt(b[n as int])));
    if i < n { assert(b.take(n as int)[i] == b[i]); lem_part(b.take(n as int), i, me, p); }
}
pub broadcast group group_safe { lem_complete, lem_result, lem_safes_empty, lem_safes_push, lem_safes_add }
@@raw pure
use crate::tree::*;
use crate::vview::*;
use crate::safe::*;
broadcast use {crate::wasabi_wasm::group_wasabi, group_tree, group_v, group_safe};
pub open spec fn alike(a: AnalysisTargetFunction, b: AnalysisTargetFunction) -> bool { a.index.n() == b.index.n() && match (a.purity, b.purity) { (Purity::Unknown(x), Purity::Unknown(y)) => vs(x.0@) == vs(y.0@), (Purity::Pure, Purity::Pure) => true, (Purity::Impure, Purity::Impure) => true, _ => false } }
// Trusted: #[derive(PartialEq)]
impl vstd::std_specs::cmp::PartialEqSpecImpl for PurityEstimate { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &PurityEstimate) -> bool { *self == *o } }
pub open spec fn estimates(e: Seq<PurityEstimate>, t: Seq<AnalysisTargetFunction>) -> bool { e.len() == t.len() && forall|k: int| 0 <= k < t.len() ==> estimated(#[trigger] e[k], t[k].purity) }
pub open spec fn estimated(e: PurityEstimate, p: Purity) -> bool { (e is Pure <==> p is Pure) && (e is Impure <==> p is Impure) && (e is Unknown <==> p is Unknown) }
impl Clone for AnalysisTargetFunction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures alike(*self, r) { unimplemented!() } }
impl Clone for Purity { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures match (*self, r) { (Purity::Unknown(a), Purity::Unknown(b)) => vs(a.0@) == vs(b.0@), (Purity::Pure, Purity::Pure) => true, (Purity::Impure, Purity::Impure) => true, _ => false } { unimplemented!() } }
@@fn pure::is_pure
@attr
#[verifier::exec_allows_no_decreases_clause]
@contract
    ensures r is Pure ==> body_safe($p1@, $p0.n(), pures($p2@)), // [C37]
        r is Impure ==> !body_safe($p1@, $p0.n(), nots($p2@)), // [C44]
        r is Unknown && in_place($p2@) ==> !body_safe($p1@, $p0.n(), pures($p2@)), // [C44]
@loop 0
invariant all0.len() == $p1@.len(), forall|k: int| 0 <= k < all0.len() ==> *(#[trigger] all0[k]) == $p1@[k], body_safe($p1@.take(idx0), $p0.n(), pures($p2@)), // [C37]
@lbefore 0
proof { assert($p1@.take(0) =~= Seq::empty()); }
@lstart 0
proof {
    assert($p1@.take(idx0) =~= $p1@.take(idx0 - 1).push(*x0));
    assert(*x0 == $p1@[idx0 - 1]);
    if body_safe($p1@, $p0.n(), pures($p2@)) { lem_part($p1@, idx0 - 1, $p0.n(), pures($p2@)); }
    if body_safe($p1@, $p0.n(), nots($p2@)) { lem_part($p1@, idx0 - 1, $p0.n(), nots($p2@)); }
}
@lafter 0
proof { assert($p1@.take($p1@.len() as int) =~= $p1@); }
@closure 0
ret (__r: bool)
ensures __r == ($0.index.n() == target_index.n()),
@@fn pure::immutable_functions
@attr
#[verifier::exec_allows_no_decreases_clause]
@contract
    ensures untouching(*$p0, members(r@)), // [C37]
        complete(*$p0, members(r@)), // [C44]
@closure 0
types (Idx<Function>, &Function)
ret (__r: AnalysisTargetFunction)
requires $0.0.n() < $p0.functions@.len() && *$0.1 == $p0.functions@[$0.0.n() as int],
ensures fair(*$p0, __r, $0.0.n() as int, none()), __r.purity is Impure ==> !(($0.1).code is Present),
@closure 1
types AnalysisTargetFunction
ret (__r: AnalysisTargetFunction)
requires $0.index.n() < $p0.functions@.len() && fair(*$p0, $0, $0.index.n() as int, pures(high_level_functions@)) && owed(*$p0, $0, $0.index.n() as int, nots(high_level_functions@)) && in_place(high_level_functions@),
ensures fair(*$p0, __r, $0.index.n() as int, pures(high_level_functions@)), $0.purity is Pure ==> __r.purity is Pure, $0.purity is Impure ==> __r.purity is Impure,
    owed(*$p0, __r, $0.index.n() as int, nots(high_level_functions@)), open_end(*$p0, __r, $0.index.n() as int, pures(high_level_functions@)),
@closure 2
ret (__r: PurityEstimate)
ensures estimated(__r, $0.purity),
@closure 3
ret (__r: PurityEstimate)
ensures estimated(__r, $0.purity),
@loop 0
invariant high_level_functions@.len() == $p0.functions@.len(), forall|k: int| 0 <= k < high_level_functions@.len() ==> fair(*$p0, #[trigger] high_level_functions@[k], k, pures(high_level_functions@)), // [C37]
    in_place(high_level_functions@), forall|k: int| 0 <= k < high_level_functions@.len() ==> owed(*$p0, #[trigger] high_level_functions@[k], k, nots(high_level_functions@)), // [C44]
ensures settled(*$p0, high_level_functions@), // [C44]
@after reiterate
proof { lem_pures(high_level_functions@, reiterate@); lem_fair(*$p0, reiterate@, pures(high_level_functions@), pures(reiterate@)); lem_nots(high_level_functions@, reiterate@); lem_owed(*$p0, reiterate@, nots(high_level_functions@), nots(reiterate@)); }
@after post_iteration_result
proof {
    let (t, u) = (high_level_functions@, reiterate@);
    assert(estimates(pre_iteration_result@, t));
    assert(estimates(post_iteration_result@, u));
    if pre_iteration_result@ =~= post_iteration_result@ {
        assert forall|k: int| 0 <= k < t.len() implies same_kind(t[k].purity, (#[trigger] u[k]).purity) by { assert(estimated(pre_iteration_result@[k], t[k].purity) && estimated(post_iteration_result@[k], u[k].purity)); }
        lem_open(*$p0, t, u);
        assert(settled(*$p0, u)) by { reveal(settled); }
    }
}
@after high_level_functions
proof { lem_fair(*$p0, high_level_functions@, none(), pures(high_level_functions@)); }
@closure 4
ret (__r: bool)
ensures __r == ($0.purity is Pure),
@closure 5
ret (__r: u32)
ensures __r == $0.index.n(),
@cafter 5
proof {
    let t = high_level_functions@;
    assert(forall|k: int| 0 <= k < t.len() ==> *(#[trigger] remc5[k]) == t[k]);
    assert forall|k: int| 0 <= k < t.len() && (#[trigger] t[k]).purity is Pure implies __r@.contains(t[k].index.n()) by { let x = remc5[k]; assert(*x == t[k]); }
    assert(gathered(t, __r@));
}
@@fn pure::immutable_functions_from_binary
@contract
    ensures match r { Some(s) => Module::parsed($p0@) is Some && untouching(Module::parsed($p0@)->0, members(s@)), None => true }, // [C37]
        match r { Some(s) => complete(Module::parsed($p0@)->0, members(s@)), None => true }, // [C44]
"""
def text():
    i, j = TREE.index("@@raw"), 0
    return PHEAD + LIB + TREE + TYPES + typed() + CON
if __name__ == "__main__":
    open("pure.vu", "w").write(text())
