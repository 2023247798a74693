#!/usr/bin/env python3
"""units/nest.vu: flat instruction lists <-> nested bodies (C20, C21)"""
from gen_wasabi import *
LEAF = [x for x in INSTR if not re.match(r"(Block|Loop|If|Else|End|BrTable)\b", x)]
def leaf_arms(ty):
    out = []
    for x in LEAF:
        m = re.match(r"(\w+)(?:\((.*)\))?$", x)
        n = m.group(1)
        if m.group(2) is None:
            out.append(f"        {ty}::{n} => X::Op(F::I(W::{n})),")
        else:
            k = len(re.sub(r"<[^<>]*>", "", m.group(2)).split(","))
            a = ", ".join(f"a{i}" for i in range(k))
            out.append(f"        {ty}::{n}({a}) => X::Op(F::I(W::{n}({a}))),")
    return "\n".join(out)

def view(p, elem, instr, bv, vnode):
    """view of one of the two nested representations: p prefix; elem the vector element; bv(b) the vector of a body"""
    return f"""
pub closed spec fn {p}i(x: {instr}) -> X decreases x {{
    match x {{
        {instr}::Block(t, b) => X::Block(t, {p}n({bv('b')}, {bv('b')}@.len())),
        {instr}::Loop(t, b) => X::Loop(t, {p}n({bv('b')}, {bv('b')}@.len())),
        {instr}::If(t, a, None) => X::If(t, {p}n({bv('a')}, {bv('a')}@.len()), None),
        {instr}::If(t, a, Some(b)) => X::If(t, {p}n({bv('a')}, {bv('a')}@.len()), Some({p}n({bv('b')}, {bv('b')}@.len()))),
        {instr}::BrTable {{ table, default }} => X::Op(F::Table(table@, default)),
{leaf_arms(instr)}
    }}
}}
{vnode}
pub closed spec fn {p}n(b: Vec<{elem}>, n: nat) -> Seq<N> decreases b, n {{
    if n == 0 || n > b@.len() {{ Seq::empty() }} else {{ {p}n(b, (n - 1) as nat).push({p}t(b[n - 1])) }}
}}
pub closed spec fn {p}s(b: Seq<{elem}>) -> Seq<N> {{ Seq::new(b.len(), |i: int| {p}t(b[i])) }}
proof fn lem_{p}n(b: Vec<{elem}>, n: nat)
    requires n <= b@.len()
    ensures {p}n(b, n) == {p}s(b@.take(n as int))
    decreases n
{{
    if n > 0 {{ lem_{p}n(b, (n - 1) as nat); }}
    assert({p}n(b, n) =~= {p}s(b@.take(n as int)));
}}
pub broadcast proof fn lem_{p}i(x: {instr})
    ensures #[trigger] {p}i(x) == (match x {{
        {instr}::Block(t, b) => X::Block(t, {p}s({bv('b')}@)),
        {instr}::Loop(t, b) => X::Loop(t, {p}s({bv('b')}@)),
        {instr}::If(t, a, None) => X::If(t, {p}s({bv('a')}@), None),
        {instr}::If(t, a, Some(b)) => X::If(t, {p}s({bv('a')}@), Some({p}s({bv('b')}@))),
        {instr}::BrTable {{ table, default }} => X::Op(F::Table(table@, default)),
{leaf_arms(instr)}
    }})
{{
    match x {{
        {instr}::Block(t, b) => {{ lem_{p}n({bv('b')}, {bv('b')}@.len()); assert({bv('b')}@.take({bv('b')}@.len() as int) =~= {bv('b')}@); }}
        {instr}::Loop(t, b) => {{ lem_{p}n({bv('b')}, {bv('b')}@.len()); assert({bv('b')}@.take({bv('b')}@.len() as int) =~= {bv('b')}@); }}
        {instr}::If(t, a, None) => {{ lem_{p}n({bv('a')}, {bv('a')}@.len()); assert({bv('a')}@.take({bv('a')}@.len() as int) =~= {bv('a')}@); }}
        {instr}::If(t, a, Some(b)) => {{ lem_{p}n({bv('a')}, {bv('a')}@.len()); assert({bv('a')}@.take({bv('a')}@.len() as int) =~= {bv('a')}@); lem_{p}n({bv('b')}, {bv('b')}@.len()); assert({bv('b')}@.take({bv('b')}@.len() as int) =~= {bv('b')}@); }}
        _ => {{}}
    }}
}}
pub broadcast proof fn lem_{p}s_push(b: Seq<{elem}>, x: {elem})
    ensures #[trigger] {p}s(b.push(x)) == {p}s(b).push({p}t(x))
{{ assert({p}s(b.push(x)) =~= {p}s(b).push({p}t(x))); }}
pub broadcast proof fn lem_{p}s_empty()
    ensures #[trigger] {p}s(Seq::empty()) == Seq::<N>::empty()
{{ assert({p}s(Seq::empty()) =~= Seq::<N>::empty()); }}
pub broadcast proof fn lem_{p}s_len(b: Seq<{elem}>)
    ensures #[trigger] {p}s(b).len() == b.len()
{{ }}
pub broadcast proof fn lem_{p}s_index(b: Seq<{elem}>, i: int)
    requires 0 <= i < b.len()
    ensures #[trigger] {p}s(b)[i] == {p}t(b[i])
{{ }}
// Trusted: #[derive(Clone)] copies the value
impl Clone for {elem} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures {p}t(r) == {p}t(*self) {{ unimplemented!() }} }}
pub broadcast proof fn lem_{p}s_clone(a: Vec<{elem}>, b: Vec<{elem}>)
    requires #[trigger] vstd::std_specs::vec::vec_clone_trigger(a, b), a@.len() == b@.len(), forall|i: int| 0 <= i < a@.len() ==> cloned(#[trigger] a@[i], b@[i])
    ensures {p}s(a@) == {p}s(b@)
{{ assert forall|i: int| 0 <= i < a@.len() implies {p}t(a@[i]) == {p}t(b@[i]) by {{ assert(cloned(a@[i], b@[i])); }} assert({p}s(a@) =~= {p}s(b@)); }}
"""

def group(p, more=()):
    return f"pub broadcast group group_{p} {{ lem_{p}i, lem_{p}s_push, lem_{p}s_empty, lem_{p}s_len, lem_{p}s_index, lem_{p}s_clone{''.join(', ' + m for m in more)} }}\n"

TREE = """@@raw tree
use crate::wasabi_wasm::{FunctionType, Idx, Function, Module, Label, Val, Instr as W, types::InferredInstructionType as Ty};
use crate::parse_nesting::typed_high_level_body_error::LowToHighError as E;
use crate::parse_nesting::typed_indexed_instr::TypedIndexedInstr as TII;
use crate::wasabi_wasm::types::infer;

/// a flat instruction as mathematical data
pub enum F { Table(Seq<Label>, Label), I(W) }
pub open spec fn fv(x: W) -> F { match x { W::BrTable { table, default } => F::Table(table@, default), _ => F::I(x) } }
pub open spec fn fvs(s: Seq<W>) -> Seq<F> { Seq::new(s.len(), |k: int| fv(s[k])) }
// Trusted: #[derive(Clone)] copies the value
impl Clone for W { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures fv(r) == fv(*self) { unimplemented!() } }
pub broadcast proof fn lem_fvs_push(s: Seq<W>, x: W)
    ensures #[trigger] fvs(s.push(x)) == fvs(s).push(fv(x))
{ assert(fvs(s.push(x)) =~= fvs(s).push(fv(x))); }
pub broadcast proof fn lem_fvs_add(s: Seq<W>, t: Seq<W>)
    ensures #[trigger] fvs(s + t) == fvs(s) + fvs(t)
{ assert(fvs(s + t) =~= fvs(s) + fvs(t)); }
pub broadcast proof fn lem_fvs_empty()
    ensures #[trigger] fvs(Seq::empty()) == Seq::<F>::empty()
{ assert(fvs(Seq::empty()) =~= Seq::<F>::empty()); }
/// where an instruction stands in the program, and whether it is marked as injected
pub struct At { pub f: u32, pub i: usize, pub ins: bool }
/// a nested body as mathematical data
pub struct N { pub at: Option<At>, pub ty: Option<Ty>, pub x: X }
pub enum X { Block(FunctionType, Seq<N>), Loop(FunctionType, Seq<N>), If(FunctionType, Seq<N>, Option<Seq<N>>), Op(F) }

// ---- what a nested body stands for: its instructions in order, each construct opened and closed around its content ----
pub struct It { pub w: F, pub at: Option<At>, pub ty: Option<Ty> }
pub open spec fn mark(w: W) -> Seq<It> { seq![It { w: F::I(w), at: None, ty: None }] }
pub open spec fn opens(n: N, w: W) -> Seq<It> { seq![It { w: F::I(w), at: n.at, ty: None }] }
pub open spec fn flat1(n: N) -> Seq<It> decreases n {
    match n.x {
        X::Op(w) => seq![It { w, at: n.at, ty: n.ty }],
        X::Block(t, a) => opens(n, W::Block(t)) + flatn(a, a.len()) + mark(W::End),
        X::Loop(t, a) => opens(n, W::Loop(t)) + flatn(a, a.len()) + mark(W::End),
        X::If(t, a, None) => opens(n, W::If(t)) + flatn(a, a.len()) + mark(W::End),
        X::If(t, a, Some(b)) => opens(n, W::If(t)) + flatn(a, a.len()) + mark(W::Else) + flatn(b, b.len()) + mark(W::End),
    }
}
pub open spec fn flatn(s: Seq<N>, n: nat) -> Seq<It> decreases s, n {
    if n == 0 || n > s.len() { Seq::empty() } else { flatn(s, (n - 1) as nat) + flat1(s[n - 1]) }
}
pub closed spec fn flat(s: Seq<N>) -> Seq<It> { flatn(s, s.len()) }
pub broadcast proof fn lem_flat_empty()
    ensures #[trigger] flat(Seq::empty()) == Seq::<It>::empty()
{ }
proof fn lem_flatn_push(s: Seq<N>, x: N, n: nat)
    requires n <= s.len()
    ensures flatn(s.push(x), n) == flatn(s, n)
    decreases n
{ if n > 0 { lem_flatn_push(s, x, (n - 1) as nat); } }
pub broadcast proof fn lem_flat_push(s: Seq<N>, x: N)
    ensures #[trigger] flat(s.push(x)) == flat(s) + flat1(x)
{ lem_flatn_push(s, x, s.len()); assert(s.push(x)[s.len() as int] == x); }
pub broadcast proof fn lem_flat1(x: N)
    ensures #[trigger] flat1(x) == (match x.x {
        X::Op(w) => seq![It { w, at: x.at, ty: x.ty }],
        X::Block(t, a) => opens(x, W::Block(t)) + flat(a) + mark(W::End),
        X::Loop(t, a) => opens(x, W::Loop(t)) + flat(a) + mark(W::End),
        X::If(t, a, None) => opens(x, W::If(t)) + flat(a) + mark(W::End),
        X::If(t, a, Some(b)) => opens(x, W::If(t)) + flat(a) + mark(W::Else) + flat(b) + mark(W::End),
    })
{ }
pub closed spec fn ws(s: Seq<It>) -> Seq<F> { Seq::new(s.len(), |k: int| s[k].w) }
pub broadcast proof fn lem_ws_add(a: Seq<It>, b: Seq<It>)
    ensures #[trigger] ws(a + b) == ws(a) + ws(b)
{ assert(ws(a + b) =~= ws(a) + ws(b)); }
pub broadcast proof fn lem_ws_push(a: Seq<It>, x: It)
    ensures #[trigger] ws(a.push(x)) == ws(a).push(x.w)
{ assert(ws(a.push(x)) =~= ws(a).push(x.w)); }
pub broadcast proof fn lem_ws_one(x: It)
    ensures #[trigger] ws(seq![x]) == seq![x.w]
{ assert(ws(seq![x]) =~= seq![x.w]); }
pub broadcast proof fn lem_ws_empty()
    ensures #[trigger] ws(Seq::empty()) == Seq::<F>::empty()
{ assert(ws(Seq::empty()) =~= Seq::<F>::empty()); }
pub broadcast proof fn lem_ws_len(a: Seq<It>)
    ensures #[trigger] ws(a).len() == a.len()
{ }
pub broadcast proof fn lem_ws_index(a: Seq<It>, k: int)
    requires 0 <= k < a.len()
    ensures #[trigger] ws(a)[k] == a[k].w
{ }

// ---- which flat lists are well nested, and what is wrong with the others ----
/// an open construct; a conditional that has not met its else is open as `Then`
pub enum K { Then, Other }
pub open spec fn step(st: Seq<K>, w: F) -> Result<Seq<K>, E> {
    match w {
        F::I(W::Block(_)) | F::I(W::Loop(_)) => Ok(st.push(K::Other)),
        F::I(W::If(_)) => Ok(st.push(K::Then)),
        F::I(W::Else) => if st.len() > 0 && st.last() is Then { Ok(st.drop_last().push(K::Other)) } else { Err(E::IfDidNotPrecedeElse) },
        F::I(W::End) => if st.len() > 0 { Ok(st.drop_last()) } else { Err(E::ExcessiveEnd) },
        _ => Ok(st),
    }
}
pub open spec fn scan(st0: Seq<K>, s: Seq<F>, n: nat) -> Result<Seq<K>, E> decreases n {
    if n == 0 { Ok(st0) } else { match scan(st0, s, (n - 1) as nat) { Err(e) => Err(e), Ok(st) => step(st, s[n - 1]) } }
}
/// the first defect of a body
pub open spec fn defect(s: Seq<F>) -> Option<E> {
    if s.len() == 0 || s.last() != F::I(W::End) { Some(E::BodyNonEndTermination) } else {
        match scan(Seq::empty(), s, (s.len() - 1) as nat) { Err(e) => Some(e), Ok(st) => if st.len() > 0 { Some(E::MissingEnd) } else { None } }
    }
}
pub proof fn lem_scan_err(s: Seq<F>, n: nat, m: nat)
    requires n <= m, scan(Seq::empty(), s, n) is Err
    ensures scan(Seq::empty(), s, m) == scan(Seq::empty(), s, n)
    decreases m
{ if n < m { lem_scan_err(s, n, (m - 1) as nat); } }
proof fn lem_scan_take(st: Seq<K>, s: Seq<F>, t: Seq<F>, n: nat)
    requires n <= s.len(), n <= t.len(), forall|k: int| 0 <= k < n ==> s[k] == t[k]
    ensures scan(st, s, n) == scan(st, t, n)
    decreases n
{ if n > 0 { lem_scan_take(st, s, t, (n - 1) as nat); } }
proof fn lem_scan_add(st: Seq<K>, a: Seq<F>, b: Seq<F>, mid: Seq<K>, n: nat)
    requires scan(st, a, a.len()) == Ok::<Seq<K>, E>(mid), n <= b.len()
    ensures scan(st, a + b, a.len() + n) == scan(mid, b, n)
    decreases n
{
    if n == 0 { lem_scan_take(st, a, a + b, a.len()); } else { lem_scan_add(st, a, b, mid, (n - 1) as nat); assert((a + b)[a.len() + n - 1] == b[n - 1]); }
}
proof fn lem_scan_one(st: Seq<K>, w: F)
    ensures scan(st, seq![w], 1) == step(st, w)
{ reveal_with_fuel(scan, 2); }
/// opening, content and end leave the open constructs as they were
proof fn lem_scan_group(st: Seq<K>, o: W, a: Seq<F>, k: K)
    requires step(st, F::I(o)) == Ok::<Seq<K>, E>(st.push(k)), scan(st.push(k), a, a.len()) == Ok::<Seq<K>, E>(st.push(k))
    ensures scan(st, seq![F::I(o)] + a + seq![F::I(W::End)], a.len() + 2) == Ok::<Seq<K>, E>(st)
{
    let so = seq![F::I(o)]; let se = seq![F::I(W::End)];
    lem_scan_one(st, F::I(o)); lem_scan_add(st, so, a, st.push(k), a.len());
    lem_scan_one(st.push(k), F::I(W::End)); lem_scan_add(st, so + a, se, st.push(k), 1);
    assert(st.push(k).drop_last() =~= st);
}
pub proof fn lem_scan_flat1(st: Seq<K>, n: N)
    ensures plain(n) ==> scan(st, ws(flat1(n)), flat1(n).len()) == Ok::<Seq<K>, E>(st)
    decreases n, 0nat
{
    if plain(n) {
    reveal_with_fuel(plain, 2);
    match n.x {
        X::Op(w) => { lem_scan_one(st, w); lem_ws_one(flat1(n)[0]); assert(ws(flat1(n)) =~= seq![w]); }
        X::Block(t, a) => { let k = st.push(K::Other); lem_scan_flat(k, a, a.len()); lem_scan_group(st, W::Block(t), ws(flatn(a, a.len())), K::Other);
            assert(ws(flat1(n)) =~= seq![F::I(W::Block(t))] + ws(flatn(a, a.len())) + seq![F::I(W::End)]); }
        X::Loop(t, a) => { let k = st.push(K::Other); lem_scan_flat(k, a, a.len()); lem_scan_group(st, W::Loop(t), ws(flatn(a, a.len())), K::Other);
            assert(ws(flat1(n)) =~= seq![F::I(W::Loop(t))] + ws(flatn(a, a.len())) + seq![F::I(W::End)]); }
        X::If(t, a, None) => { let k = st.push(K::Then); lem_scan_flat(k, a, a.len()); lem_scan_group(st, W::If(t), ws(flatn(a, a.len())), K::Then);
            assert(ws(flat1(n)) =~= seq![F::I(W::If(t))] + ws(flatn(a, a.len())) + seq![F::I(W::End)]); }
        X::If(t, a, Some(b)) => {
            let k = st.push(K::Then); let o = st.push(K::Other);
            lem_scan_flat(k, a, a.len()); lem_scan_flat(o, b, b.len());
            let so = seq![F::I(W::If(t))]; let sl = seq![F::I(W::Else)]; let se = seq![F::I(W::End)];
            let fa = ws(flatn(a, a.len())); let fb = ws(flatn(b, b.len()));
            lem_scan_one(st, F::I(W::If(t))); lem_scan_add(st, so, fa, k, fa.len());
            lem_scan_one(k, F::I(W::Else)); lem_scan_add(st, so + fa, sl, k, 1);
            assert(k.drop_last() =~= st); assert(k.last() is Then);
            lem_scan_add(st, so + fa + sl, fb, o, fb.len());
            lem_scan_one(o, F::I(W::End)); lem_scan_add(st, so + fa + sl + fb, se, o, 1);
            assert(o.drop_last() =~= st);
            assert(ws(flat1(n)) =~= so + fa + sl + fb + se);
        }
    }
    }
}
pub proof fn lem_scan_flat(st: Seq<K>, s: Seq<N>, n: nat)
    requires n <= s.len()
    ensures plains(s, n) ==> scan(st, ws(flatn(s, n)), flatn(s, n).len()) == Ok::<Seq<K>, E>(st)
    decreases s, n
{
    if plains(s, n) {
    reveal_with_fuel(plains, 2);
    if n > 0 {
        lem_scan_flat(st, s, (n - 1) as nat); lem_scan_flat1(st, s[n - 1]);
        let a = ws(flatn(s, (n - 1) as nat)); let b = ws(flat1(s[n - 1]));
        lem_scan_add(st, a, b, st, b.len());
        assert(ws(flatn(s, n)) =~= a + b);
    }
    }
}
/// leaves are instructions that neither open nor close anything (there is no way to write another leaf)
pub open spec fn plain(n: N) -> bool decreases n {
    match n.x {
        X::Op(w) => !frame(w),
        X::Block(t, a) => plains(a, a.len()),
        X::Loop(t, a) => plains(a, a.len()),
        X::If(t, a, None) => plains(a, a.len()),
        X::If(t, a, Some(b)) => plains(a, a.len()) && plains(b, b.len()),
    }
}
pub open spec fn plains(s: Seq<N>, n: nat) -> bool decreases s, n {
    n == 0 || n > s.len() || (plains(s, (n - 1) as nat) && plain(s[n - 1]))
}
pub open spec fn frame(w: F) -> bool { match w { F::I(W::Block(_)) | F::I(W::Loop(_)) | F::I(W::If(_)) | F::I(W::Else) | F::I(W::End) => true, _ => false } }
/// what comes from a nested body is well nested: nesting accepts exactly the flattened bodies
pub proof fn lem_flattened_is_accepted(s: Seq<N>)
    requires plains(s, s.len())
    ensures defect(ws(flat(s)).push(F::I(W::End))) is None
{
    lem_scan_flat(Seq::empty(), s, s.len());
    let w = ws(flat(s)); let e = w.push(F::I(W::End));
    lem_scan_take(Seq::empty(), w, e, w.len());
}

// ---- C21: what the nested body has to say about each place ----
pub open spec fn closes(w: F) -> bool { w == F::I(W::Else) || w == F::I(W::End) }
pub open spec fn placed1(f: Function, m: Module, i: u32, s: Seq<F>, k: int) -> It {
    It { w: s[k], at: if closes(s[k]) { None } else { Some(At { f: i, i: k as usize, ins: false }) }, ty: if frame(s[k]) { None } else { infer(f, m, s.take(k + 1)) } }
}
pub open spec fn placed(f: Function, m: Module, i: u32, s: Seq<F>, n: nat) -> Seq<It> { Seq::new(n, |k: int| placed1(f, m, i, s, k)) }
pub proof fn lem_locations_differ(f: Function, m: Module, i: u32, s: Seq<F>, j: int, k: int)
    requires 0 <= j < k < s.len(), s.len() <= usize::MAX
    ensures placed(f, m, i, s, s.len())[j].at is Some ==> placed(f, m, i, s, s.len())[j].at != placed(f, m, i, s, s.len())[k].at
{ }
/// the whole body type checks
pub open spec fn wt(f: Function, m: Module, s: Seq<F>) -> bool { forall|k: int| 0 <= k < s.len() ==> infer(f, m, #[trigger] s.take(k + 1)) is Some }
pub open spec fn indexed(v: Seq<TII>, f: Function, m: Module, i: u32, s: Seq<F>, n: nat) -> bool {
    v.len() == n && forall|k: int| 0 <= k < n ==> {
        &&& (#[trigger] v[k]).funct_index == i && v[k].instr_index == k && fv(v[k].instr) == s[k]
        &&& Some(v[k].type_) == infer(f, m, s.take(k + 1))
    }
}

pub broadcast group group_tree { lem_fvs_push, lem_fvs_add, lem_fvs_empty, lem_flat_empty, lem_flat_push, lem_flat1, lem_ws_push, lem_ws_add, lem_ws_one, lem_ws_empty, lem_ws_len, lem_ws_index }
"""
def arms(low):
    return ""

def typed():
    return f"""@@raw vview
use crate::tree::*;
use crate::wasabi_wasm::{{FunctionType, Instr as W}};
use crate::parse_nesting::typed_high_level_body::*;
{view("v", "TypedHighLevelInstr", "Instr", lambda b: b, '''pub closed spec fn vt(x: TypedHighLevelInstr) -> N decreases x {
    N { at: Some(At { f: x.funct_index, i: x.instr_index, ins: x.instrumentation_instruction }), ty: Some(x.type_), x: vi(x.instr) }
}
pub broadcast proof fn lem_vt(x: TypedHighLevelInstr)
    ensures #[trigger] vt(x) == (N { at: Some(At { f: x.funct_index, i: x.instr_index, ins: x.instrumentation_instruction }), ty: Some(x.type_), x: vi(x.instr) })
{ }''')}
impl Clone for Instr {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures vi(r) == vi(*self) {{ unimplemented!() }} }}
{group("v", ["lem_vt"])}
"""
def untyped():
    return f"""@@raw uview
use crate::tree::*;
use crate::wasabi_wasm::{{FunctionType, Instr as W}};
use crate::parse_nesting::high_level_body::{{Instr, Body}};
{view("u", "Instr", "Instr", lambda b: b + ".0", '''pub open spec fn ut(x: Instr) -> N decreases x, 1nat { N { at: None, ty: None, x: ui(x) } }''').replace("decreases x {\n    match x", "decreases x, 0nat {\n    match x")}
{group("u")}
"""
HEAD = """@@include lib.vu
@@include enum.vu
@@include wasabi.vu
@@extern wasabi_wasm
@@opt ess
@@opt mapcollect
@@module parse_nesting wastrumentation/src/parse_nesting/mod.rs
@@module parse_nesting::high_level_body wastrumentation/src/parse_nesting/high_level_body.rs
@@module parse_nesting::typed_high_level_body wastrumentation/src/parse_nesting/typed_high_level_body.rs
@@module parse_nesting::typed_high_level_body_error wastrumentation/src/parse_nesting/typed_high_level_body_error.rs
@@module parse_nesting::typed_indexed_instr wastrumentation/src/parse_nesting/typed_indexed_instr.rs
@@drop parse_nesting::typed_high_level_body::TypedHighLevelInstr::to_trap_call
@@drop parse_nesting::typed_high_level_body::TypedHighLevelInstr::instrument_with
@@drop parse_nesting::typed_high_level_body::TypedHighLevelInstr::place_original
@@drop parse_nesting::typed_high_level_body::TypedHighLevelInstr::place_untouched
@@drop parse_nesting::typed_high_level_body::TypedHighLevelInstr::is_uninstrumented
@@derive parse_nesting::high_level_body::Body
@@derive parse_nesting::high_level_body::Instr
@@derive parse_nesting::high_level_body::LowLevelBody
@@derive parse_nesting::typed_high_level_body::Body
@@derive parse_nesting::typed_high_level_body::TypedHighLevelInstr
@@derive parse_nesting::typed_high_level_body::Instr
@@derive parse_nesting::typed_high_level_body_error::LowToHighError
@@only parse_nesting::typed_high_level_body BodyInner; Body; TypedHighLevelInstr; TypedHighLevelInstr::new_uninstrumented; Instr; Instr::if_then; Instr::if_then_else; from_recurse; <TryFrom*; <From*
"""
TYPES = """@@raw wasabi_wasm::types
use crate::wasabi_wasm::{Function, Module, Instr};
use crate::tree::{F, fv};
pub struct ErrorInner { pub instruction_idx: Option<crate::wasabi_wasm::Idx<Instr>>, pub instruction: Option<Instr>, pub function_name: Option<String> }
pub struct TypeError(pub Box<ErrorInner>);
// Trusted: the type checker is deterministic; what it says of an instruction depends on the function, the module and the
// instructions before it
#[verifier::external_body] pub struct TypeChecker<'a> { x: &'a () }
pub uninterp spec fn infer(f: Function, m: Module, s: Seq<F>) -> Option<InferredInstructionType>;
impl<'a> TypeChecker<'a> {
    pub uninterp spec fn fun(&self) -> Function;
    pub uninterp spec fn md(&self) -> Module;
    pub uninterp spec fn seen(&self) -> Seq<F>;
    #[verifier::external_body] pub fn begin_function(f: &'a Function, m: &'a Module) -> (r: TypeChecker<'a>)
        ensures r.fun() == *f, r.md() == *m, r.seen() == Seq::<F>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn check_next_instr(&mut self, i: &Instr) -> (r: Result<InferredInstructionType, TypeError>)
        ensures final(self).fun() == old(self).fun(), final(self).md() == old(self).md(), final(self).seen() == old(self).seen().push(fv(*i)),
            r is Ok == infer(old(self).fun(), old(self).md(), old(self).seen().push(fv(*i))) is Some,
            r is Ok ==> infer(old(self).fun(), old(self).md(), old(self).seen().push(fv(*i))) == Some(r->Ok_0) { unimplemented!() }
}
"""
def pre(ent, elem, kinds, p):
    """the part of the flat body that lies before the body being collected"""
    return f"""
pub open spec fn opener(x: {ent}) -> Seq<It> {{ match x {{
{kinds}
}} }}
pub open spec fn kind(x: {ent}) -> K {{ KIND }}
pub open spec fn kinds(s: Seq<{ent}>) -> Seq<K> {{ Seq::new(s.len(), |k: int| kind(s[k])) }}
pub open spec fn pre(s: Seq<{ent}>, b: Seq<Vec<{elem}>>, n: nat) -> Seq<It> decreases n {{
    if n == 0 {{ Seq::empty() }} else {{ pre(s, b, (n - 1) as nat) + flat({p}s(b[n - 1]@)) + opener(s[n - 1]) }}
}}
pub proof fn lem_pre_take(s: Seq<{ent}>, b: Seq<Vec<{elem}>>, t: Seq<{ent}>, c: Seq<Vec<{elem}>>, n: nat)
    requires n <= s.len(), n <= t.len(), n <= b.len(), n <= c.len(), forall|k: int| 0 <= k < n ==> s[k] == t[k] && b[k] == c[k]
    ensures pre(s, b, n) == pre(t, c, n)
    decreases n
{{ if n > 0 {{ lem_pre_take(s, b, t, c, (n - 1) as nat); }} }}
pub proof fn lem_pre_last(s: Seq<{ent}>, b: Seq<Vec<{elem}>>)
    requires s.len() == b.len()
    ensures s.len() > 0 ==> pre(s, b, b.len()) == pre(s.drop_last(), b.drop_last(), b.drop_last().len()) + flat({p}s(b.last()@)) + opener(s.last())
{{ if s.len() > 0 {{ lem_pre_take(s, b, s.drop_last(), b.drop_last(), (s.len() - 1) as nat); }} }}
/// the flat body up to here, while `c` is being collected inside the open constructs
pub closed spec fn sofar(s: Seq<{ent}>, b: Seq<Vec<{elem}>>, c: Seq<{elem}>) -> Seq<It> {{ pre(s, b, b.len()) + flat({p}s(c)) }}
pub proof fn lem_start() ensures sofar(Seq::empty(), Seq::empty(), Seq::empty()) == Seq::<It>::empty() {{ assert(sofar(Seq::empty(), Seq::empty(), Seq::empty()) =~= Seq::<It>::empty()); }}
pub proof fn lem_done(c: Seq<{elem}>) ensures sofar(Seq::empty(), Seq::empty(), c) == flat({p}s(c)) {{ assert(sofar(Seq::empty(), Seq::empty(), c) =~= flat({p}s(c))); }}
/// what one more instruction adds: a construct opened, an else met, a construct closed, or a leaf
pub proof fn lem_step(s: Seq<{ent}>, b: Seq<Vec<{elem}>>, c: Seq<{elem}>, t: Seq<{ent}>, d: Seq<Vec<{elem}>>, e: Seq<{elem}>)
    requires s.len() == b.len(), t.len() == d.len()
    ensures
        t.len() == s.len() + 1 && (forall|k: int| 0 <= k < s.len() ==> t[k] == s[k] && d[k] == b[k]) && {p}s(d.last()@) == {p}s(c) && e.len() == 0 && opener(t.last()).len() == 1
            ==> sofar(t, d, e) == sofar(s, b, c).push(opener(t.last())[0]),
        t.len() == s.len() && s.len() > 0 && (forall|k: int| 0 <= k < s.len() - 1 ==> t[k] == s[k]) && d =~= b && e.len() == 0 && opener(t.last()) == opener(s.last()) + flat({p}s(c)) + mark(W::Else)
            ==> sofar(t, d, e) == sofar(s, b, c).push(mark(W::Else)[0]),
        t.len() + 1 == s.len() && (forall|k: int| 0 <= k < t.len() ==> t[k] == s[k] && d[k] == b[k]) && e.len() > 0 && e.drop_last() =~= b.last()@ && flat1({p}t(e.last())) == opener(s.last()) + flat({p}s(c)) + mark(W::End)
            ==> sofar(t, d, e) == sofar(s, b, c).push(mark(W::End)[0]),
        t =~= s && d =~= b && e.len() > 0 && e.drop_last() =~= c && flat1({p}t(e.last())).len() == 1 ==> sofar(t, d, e) == sofar(s, b, c).push(flat1({p}t(e.last()))[0]),
{{
    lem_pre_last(s, b); lem_pre_last(t, d);
    if e.len() > 0 {{ assert(e.drop_last().push(e.last()) =~= e); lem_flat_push({p}s(e.drop_last()), {p}t(e.last())); }} else {{ assert(e =~= Seq::empty()); }}
    if t.len() == s.len() + 1 && (forall|k: int| 0 <= k < s.len() ==> t[k] == s[k] && d[k] == b[k]) && {p}s(d.last()@) == {p}s(c) && e.len() == 0 && opener(t.last()).len() == 1 {{
        assert(t.drop_last() =~= s && d.drop_last() =~= b);
        assert(sofar(t, d, e) =~= sofar(s, b, c).push(opener(t.last())[0]));
    }}
    if t.len() == s.len() && s.len() > 0 && (forall|k: int| 0 <= k < s.len() - 1 ==> t[k] == s[k]) && d =~= b && e.len() == 0 && opener(t.last()) == opener(s.last()) + flat({p}s(c)) + mark(W::Else) {{
        assert(t.drop_last() =~= s.drop_last());
        assert(sofar(t, d, e) =~= sofar(s, b, c).push(mark(W::Else)[0]));
    }}
    if t.len() + 1 == s.len() && (forall|k: int| 0 <= k < t.len() ==> t[k] == s[k] && d[k] == b[k]) && e.len() > 0 && e.drop_last() =~= b.last()@ && flat1({p}t(e.last())) == opener(s.last()) + flat({p}s(c)) + mark(W::End) {{
        assert(t =~= s.drop_last() && d =~= b.drop_last());
        assert(sofar(t, d, e) =~= sofar(s, b, c).push(mark(W::End)[0]));
    }}
    if t =~= s && d =~= b && e.len() > 0 && e.drop_last() =~= c && flat1({p}t(e.last())).len() == 1 {{
        assert(sofar(t, d, e) =~= sofar(s, b, c).push(flat1({p}t(e.last()))[0]));
    }}
}}
pub broadcast proof fn lem_kinds_push(s: Seq<{ent}>, x: {ent})
    ensures #[trigger] kinds(s.push(x)) == kinds(s).push(kind(x))
{{ assert(kinds(s.push(x)) =~= kinds(s).push(kind(x))); }}
pub broadcast proof fn lem_kinds_pop(s: Seq<{ent}>)
    ensures s.len() > 0 ==> #[trigger] kinds(s.drop_last()) == kinds(s).drop_last()
{{ if s.len() > 0 {{ assert(kinds(s.drop_last()) =~= kinds(s).drop_last()); }} }}
pub broadcast proof fn lem_kinds_empty()
    ensures #[trigger] kinds(Seq::empty()) == Seq::<K>::empty()
{{ assert(kinds(Seq::empty()) =~= Seq::<K>::empty()); }}
pub broadcast group group_pre {{ lem_kinds_push, lem_kinds_pop, lem_kinds_empty }}
"""

def contracts():
    o = []
    for mod, p in (("high_level_body", "u"), ("typed_high_level_body", "v")):
        M = f"parse_nesting::{mod}"
        typed = p == "v"
        rec = f"{M}::from_recurse" if typed else f"{M}::LowLevelBody::from_recurse"
        inner = "$p0@" if typed else "$p0.0@"
        elem = "TypedHighLevelInstr" if typed else "Instr"
        o.append(f"""
@@raw {M}
use crate::tree::*;
use crate::{p}view::*; use crate::{p}pre::*;
{"use crate::wasabi_wasm::types::infer;" if typed else ""}
broadcast use {{crate::wasabi_wasm::group_wasabi, group_tree, group_{p}, group_pre}};
""")
        if typed:
            t = pre("Entered", elem, """    Entered { entered_type: EnteredType::Block, .. } => at(x, W::Block(x.type_)),
    Entered { entered_type: EnteredType::Loop, .. } => at(x, W::Loop(x.type_)),
    Entered { entered_type: EnteredType::IfStart, .. } => at(x, W::If(x.type_)),
    Entered { entered_type: EnteredType::IfThenElse(a), .. } => at(x, W::If(x.type_)) + flat(vs(a@)) + mark(W::Else),""", p)
            t = t.replace("KIND", "if x.entered_type is IfStart { K::Then } else { K::Other }").replace("pub open spec fn opener", "pub open spec fn at(x: Entered, w: W) -> Seq<It> { seq![It { w: F::I(w), at: Some(At { f: x.funct_index, i: x.index, ins: false }), ty: None }] }\npub open spec fn opener")
        else:
            t = pre("Entered", elem, """    Entered::Block(t) => mark(W::Block(t)),
    Entered::Loop(t) => mark(W::Loop(t)),
    Entered::IfStart(t) => mark(W::If(t)),
    Entered::IfThenElse { type_, then_body } => mark(W::If(type_)) + flat(us(then_body.0@)) + mark(W::Else),""", p)
            t = t.replace("KIND", "if x is IfStart { K::Then } else { K::Other }")
        o.append("use crate::wasabi_wasm::Instr as W;\n")
        o.append(f"@@raw {p}pre\nuse crate::tree::*; use crate::{p}view::*; use crate::{M}::*; use crate::wasabi_wasm::Instr as W;\nbroadcast use {{crate::wasabi_wasm::group_wasabi, group_tree, group_{p}}};\n" + t)
        o.append(f"""
@@fn {M}::<TryFrom<wasabi_wasm::Instr>forInstr>::try_from
@contract
    ensures match $p0 {{
        wasabi_wasm::Instr::Block(_) | wasabi_wasm::Instr::Loop(_) | wasabi_wasm::Instr::If(_) | wasabi_wasm::Instr::Else | wasabi_wasm::Instr::End => r is Err,
        _ => r is Ok && {p}i(r->Ok_0) == X::Op(fv($p0)),
    }}, // [C20] [C21]
@@fn {rec}
@attr
#[verifier::exec_allows_no_decreases_clause]
@contract
    ensures fvs(r@) == ws(flat({p}s({inner}))), // [C20]
@lbefore 0
let ghost src = all0;
proof {{ assert({p}s(src.take(0)) =~= Seq::empty()); }}
@loop 0
invariant all0 == src, fvs(result@) == ws(flat({p}s(src.take(idx0)))), // [C20]
@lstart 0
proof {{ assert(src.take(idx0) =~= src.take(idx0 - 1).push(x0)); }}
@lafter 0
proof {{ assert(src.take(src.len() as int) =~= src); }}
@@fn {M}::<From<Body>forLowLevelBody>::from
@contract
    ensures fvs(r.0@) == ws(flat({p}s($p0.0@))).push(F::I(W::End)), // [C20]
""")
    o.append("""
@@fn parse_nesting::high_level_body::<TryFrom<LowLevelBody>forBody>::try_from
@contract
    ensures defect(fvs($p0.0@)) is Some ==> r == Err::<Body, LowToHighError>(defect(fvs($p0.0@))->0), // [C20]
        defect(fvs($p0.0@)) is None ==> r is Ok && ws(flat(us(r->Ok_0.0@))).push(F::I(W::End)) =~= fvs($p0.0@), // [C20]
@after current_body
let ghost src = fvs($p0.0@);
@lbefore 0
proof { lem_start(); assert(entered_stack@ =~= Seq::empty() && body_stack@ =~= Seq::empty() && current_body@ =~= Seq::empty()); }
@loop 0
invariant src == fvs($p0.0@), src.len() > 0, src.last() == F::I(W::End), all0.len() == src.len() - 1, forall|k: int| 0 <= k < all0.len() ==> fv(*(#[trigger] all0[k])) == src[k],
    entered_stack@.len() == body_stack@.len(), scan(Seq::empty(), src, idx0 as nat) == Ok::<Seq<K>, LowToHighError>(kinds(entered_stack@)), // [C20]
    ws(sofar(entered_stack@, body_stack@, current_body@)) == src.take(idx0), // [C20]
@lstart 0
let ghost e0 = entered_stack@;
let ghost b0 = body_stack@;
let ghost c0 = current_body@;
proof {
    assert(scan(Seq::empty(), src, idx0 as nat) == step(kinds(e0), src[idx0 - 1]));
    assert(src.take(idx0) =~= src.take(idx0 - 1).push(src[idx0 - 1]));
    if step(kinds(e0), src[idx0 - 1]) is Err { lem_scan_err(src, idx0 as nat, (src.len() - 1) as nat); }
}
@lend 0
proof {
    lem_step(e0, b0, c0, entered_stack@, body_stack@, current_body@);
    assert(step(kinds(e0), src[idx0 - 1]) is Ok);
    assert(kinds(entered_stack@) =~= step(kinds(e0), src[idx0 - 1])->Ok_0);
}
@lafter 0
proof { if entered_stack@.len() == 0 { assert(entered_stack@ =~= Seq::empty() && body_stack@ =~= Seq::empty()); lem_done(current_body@); } assert(src.take(src.len() - 1) =~= src.drop_last()); assert(src.drop_last().push(src.last()) =~= src); }
@@fn parse_nesting::typed_high_level_body::<TryFrom<(&Module,&Function,&Code,&Idx<Function>)>forBody>::try_from
@contract
    ensures !wt(*$p0.1, *$p0.0, fvs($p0.2.body@)) ==> r is Err && r->Err_0 is TypeInference, // [C20]
        wt(*$p0.1, *$p0.0, fvs($p0.2.body@)) && defect(fvs($p0.2.body@)) is Some ==> r == Err::<Body, LowToHighError>(defect(fvs($p0.2.body@))->0), // [C20]
        wt(*$p0.1, *$p0.0, fvs($p0.2.body@)) && defect(fvs($p0.2.body@)) is None ==> r is Ok && ws(flat(vs(r->Ok_0.0@))).push(F::I(W::End)) =~= fvs($p0.2.body@), // [C20]
        r is Ok ==> flat(vs(r->Ok_0.0@)) + mark(W::End) =~= placed(*$p0.1, *$p0.0, $p0.3.n(), fvs($p0.2.body@), $p0.2.body@.len()), // [C21]
@closure 0
ret (__r: LowToHighError)
ensures __r is TypeInference,
@after current_body
let ghost src = fvs($p0.2.body@);
let ghost (gm, gf, gi) = (*$p0.0, *$p0.1, $p0.3.n());
@lbefore 0
proof { lem_start(); assert(entered_stack@ =~= Seq::empty() && body_stack@ =~= Seq::empty() && current_body@ =~= Seq::empty()); }
@loop 0
invariant src == fvs($p0.2.body@), gm == *$p0.0, gf == *$p0.1, gi == $p0.3.n(), src.len() > 0, src.last() == F::I(W::End), wt(gf, gm, src), forall|k: int| 0 <= k < entered_stack@.len() ==> (#[trigger] entered_stack@[k]).funct_index == gi, all0.len() == src.len() - 1,
    forall|k: int| 0 <= k < all0.len() ==> (#[trigger] all0[k]).funct_index == gi && all0[k].instr_index == k && fv(all0[k].instr) == src[k] && Some(all0[k].type_) == infer(gf, gm, src.take(k + 1)),
    entered_stack@.len() == body_stack@.len(), scan(Seq::empty(), src, idx0 as nat) == Ok::<Seq<K>, LowToHighError>(kinds(entered_stack@)), // [C20]
    ws(sofar(entered_stack@, body_stack@, current_body@)) == src.take(idx0), // [C20]
    sofar(entered_stack@, body_stack@, current_body@) == placed(gf, gm, gi, src, idx0 as nat), // [C21]
@lstart 0
let ghost e0 = entered_stack@;
let ghost b0 = body_stack@;
let ghost c0 = current_body@;
proof {
    assert(scan(Seq::empty(), src, idx0 as nat) == step(kinds(e0), src[idx0 - 1]));
    assert(src.take(idx0) =~= src.take(idx0 - 1).push(src[idx0 - 1]));
    assert(placed(gf, gm, gi, src, idx0 as nat) =~= placed(gf, gm, gi, src, (idx0 - 1) as nat).push(placed1(gf, gm, gi, src, idx0 - 1)));
    if step(kinds(e0), src[idx0 - 1]) is Err { lem_scan_err(src, idx0 as nat, (src.len() - 1) as nat); }
}
@lend 0
proof {
    lem_step(e0, b0, c0, entered_stack@, body_stack@, current_body@);
    assert(step(kinds(e0), src[idx0 - 1]) is Ok);
    assert(kinds(entered_stack@) =~= step(kinds(e0), src[idx0 - 1])->Ok_0);
}
@lafter 0
proof { if entered_stack@.len() == 0 { assert(entered_stack@ =~= Seq::empty() && body_stack@ =~= Seq::empty()); lem_done(current_body@); } assert(src.take(src.len() - 1) =~= src.drop_last()); assert(src.drop_last().push(src.last()) =~= src); }
@@fn parse_nesting::typed_high_level_body::TypedHighLevelInstr::new_uninstrumented
@contract
    ensures vt(r) == (N { at: Some(At { f: $p0, i: $p1, ins: false }), ty: Some($p2), x: vi($p3) }), // [C20] [C21]
@@fn parse_nesting::typed_high_level_body::Instr::if_then
@contract
    ensures vi(r) == X::If($p0, vs($p1@), None), // [C20] [C21]
@@fn parse_nesting::typed_high_level_body::Instr::if_then_else
@contract
    ensures vi(r) == X::If($p0, vs($p1@), Some(vs($p2@))), // [C20] [C21]
@@fn parse_nesting::high_level_body::Instr::if_then
@contract
    ensures ui(r) == X::If($p0, us($p1.0@), None), // [C20]
@@fn parse_nesting::high_level_body::Instr::if_then_else
@contract
    ensures ui(r) == X::If($p0, us($p1.0@), Some(us($p2.0@))), // [C20]
@@raw parse_nesting::typed_indexed_instr
use crate::tree::*; use crate::wasabi_wasm::types::infer;
broadcast use {crate::wasabi_wasm::group_wasabi, group_tree};
@@fn parse_nesting::typed_indexed_instr::type_inference_index_function
@contract
    ensures r is Ok == wt(*$p0, *$p2, fvs($p1.body@)), // [C20] [C21]
        r is Ok ==> indexed(r->Ok_0@, *$p0, *$p2, $p3.n(), fvs($p1.body@), $p1.body@.len()), // [C20] [C21]
@loop 0
invariant all0.len() == $p1.body@.len(), forall|k: int| 0 <= k < all0.len() ==> (#[trigger] all0[k]).0 == k && *all0[k].1 == $p1.body@[k],
    type_checker.fun() == *$p0, type_checker.md() == *$p2, type_checker.seen() =~= fvs($p1.body@).take(idx0), // [C20] [C21]
    forall|k: int| 0 <= k < idx0 ==> infer(*$p0, *$p2, #[trigger] fvs($p1.body@).take(k + 1)) is Some, // [C20] [C21]
    indexed(vx_out@, *$p0, *$p2, $p3.n(), fvs($p1.body@), idx0 as nat), // [C20] [C21]
@lbefore 0
proof { assert(fvs($p1.body@).len() == $p1.body.len()); }
@lstart 0
proof { assert(fvs($p1.body@).take(idx0) =~= fvs($p1.body@).take(idx0 - 1).push(fvs($p1.body@)[idx0 - 1])); }
@closure 0
ret (__r: TypedIndexedInstr)
ensures __r.funct_index == original_idx.n(), __r.instr_index == index, __r.type_ == $0, fv(__r.instr) == fv(*instr),
""")
    return "".join(o)

def text():
    return HEAD + TREE + TYPES + untyped() + typed() + contracts()
if __name__ == "__main__":
    open("nest.vu", "w").write(text())
