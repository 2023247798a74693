#!/usr/bin/env python3
"""units for the hook placement code: one unit per file of wastrumentation/src/instrument, sharing one specification"""
from gen_wasabi import *

VIEW = """
// the nested body as mathematical data: the same tree with sequences instead of vectors
pub struct STI { pub f: u32, pub i: usize, pub t: InferredInstructionType, pub ins: bool, pub x: SI }
pub enum SI { Block(FunctionType, Seq<STI>), Loop(FunctionType, Seq<STI>), If(FunctionType, Seq<STI>, Option<Seq<STI>>), Table(Seq<Label>, Label), Leaf(Instr) }
pub closed spec fn vt(x: TypedHighLevelInstr) -> STI decreases x {
    STI { f: x.funct_index, i: x.instr_index, t: x.type_, ins: x.instrumentation_instruction, x: vi(x.instr) }
}
pub closed spec fn vi(x: Instr) -> SI decreases x {
    match x {
        Instr::Block(t, b) => SI::Block(t, vn(b, b@.len())),
        Instr::Loop(t, b) => SI::Loop(t, vn(b, b@.len())),
        Instr::If(t, a, None) => SI::If(t, vn(a, a@.len()), None),
        Instr::If(t, a, Some(b)) => SI::If(t, vn(a, a@.len()), Some(vn(b, b@.len()))),
        Instr::BrTable { table, default } => SI::Table(table@, default),
        _ => SI::Leaf(x),
    }
}
pub closed spec fn vn(b: Vec<TypedHighLevelInstr>, n: nat) -> Seq<STI> decreases b, n {
    if n == 0 || n > b@.len() { Seq::empty() } else { vn(b, (n - 1) as nat).push(vt(b[n - 1])) }
}
pub closed spec fn vs(b: Seq<TypedHighLevelInstr>) -> Seq<STI> { Seq::new(b.len(), |i: int| vt(b[i])) }
proof fn lem_vn(b: Vec<TypedHighLevelInstr>, n: nat)
    requires n <= b@.len()
    ensures vn(b, n) == vs(b@.take(n as int))
    decreases n
{
    if n > 0 { lem_vn(b, (n - 1) as nat); }
    assert(vn(b, n) =~= vs(b@.take(n as int)));
}
pub broadcast proof fn lem_vi(x: Instr)
    ensures #[trigger] vi(x) == (match x {
        Instr::Block(t, b) => sblock(t, vs(b@)),
        Instr::Loop(t, b) => sloop(t, vs(b@)),
        Instr::If(t, a, None) => sif(t, vs(a@), None),
        Instr::If(t, a, Some(b)) => sif(t, vs(a@), Some(vs(b@))),
        Instr::BrTable { table, default } => SI::Table(table@, default),
        _ => SI::Leaf(x),
    })
{
    match x {
        Instr::Block(t, b) => { lem_vn(b, b@.len()); assert(b@.take(b@.len() as int) =~= b@); }
        Instr::Loop(t, b) => { lem_vn(b, b@.len()); assert(b@.take(b@.len() as int) =~= b@); }
        Instr::If(t, a, None) => { lem_vn(a, a@.len()); assert(a@.take(a@.len() as int) =~= a@); }
        Instr::If(t, a, Some(b)) => { lem_vn(a, a@.len()); assert(a@.take(a@.len() as int) =~= a@); lem_vn(b, b@.len()); assert(b@.take(b@.len() as int) =~= b@); }
        _ => {}
    }
}
pub broadcast proof fn lem_vt(x: TypedHighLevelInstr)
    ensures #[trigger] vt(x) == (STI { f: x.funct_index, i: x.instr_index, t: x.type_, ins: x.instrumentation_instruction, x: vi(x.instr) })
{ }
pub broadcast proof fn lem_vs_push(b: Seq<TypedHighLevelInstr>, x: TypedHighLevelInstr)
    ensures #[trigger] vs(b.push(x)) == vs(b).push(vt(x))
{ assert(vs(b.push(x)) =~= vs(b).push(vt(x))); }
pub broadcast proof fn lem_vs_add(a: Seq<TypedHighLevelInstr>, b: Seq<TypedHighLevelInstr>)
    ensures #[trigger] vs(a + b) == vs(a) + vs(b)
{ assert(vs(a + b) =~= vs(a) + vs(b)); }
pub broadcast proof fn lem_vs_empty()
    ensures #[trigger] vs(Seq::empty()) == Seq::<STI>::empty()
{ assert(vs(Seq::empty()) =~= Seq::<STI>::empty()); }
pub broadcast proof fn lem_vs_len(b: Seq<TypedHighLevelInstr>)
    ensures #[trigger] vs(b).len() == b.len()
{ }
pub broadcast proof fn lem_vs_index(b: Seq<TypedHighLevelInstr>, i: int)
    requires 0 <= i < b.len()
    ensures #[trigger] vs(b)[i] == vt(b[i])
{ }
pub open spec fn sblock(t: FunctionType, a: Seq<STI>) -> SI { SI::Block(t, a) }
pub open spec fn sloop(t: FunctionType, a: Seq<STI>) -> SI { SI::Loop(t, a) }
pub open spec fn sif(t: FunctionType, a: Seq<STI>, c: Option<Seq<STI>>) -> SI { SI::If(t, a, c) }
// trees are compared by their elements
pub broadcast proof fn lem_block_ext(t: FunctionType, a: Seq<STI>, b: Seq<STI>)
    ensures a =~= b ==> #[trigger] sblock(t, a) == #[trigger] sblock(t, b)
{ }
pub broadcast proof fn lem_loop_ext(t: FunctionType, a: Seq<STI>, b: Seq<STI>)
    ensures a =~= b ==> #[trigger] sloop(t, a) == #[trigger] sloop(t, b)
{ }
pub broadcast proof fn lem_if_ext(t: FunctionType, a: Seq<STI>, b: Seq<STI>, c: Option<Seq<STI>>, d: Option<Seq<STI>>)
    ensures a =~= b && (c is Some == d is Some) && (c is Some ==> c->0 =~= d->0) ==> #[trigger] sif(t, a, c) == #[trigger] sif(t, b, d)
{ }
pub broadcast group group_view { lem_vi, lem_vt, lem_vs_push, lem_vs_add, lem_vs_empty, lem_vs_len, lem_vs_index, lem_block_ext, lem_loop_ext, lem_if_ext }
// Trusted: #[derive(Clone)] copies the value
impl Clone for Instr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures vi(r) == vi(*self) { unimplemented!() } }
impl Clone for TypedHighLevelInstr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures vt(r) == vt(*self) { unimplemented!() } }

// ---- what the injected code looks like, from the property statements ----
pub open spec fn inj1(o: STI, x: SI) -> STI { STI { f: o.f, i: o.i, t: InferredInstructionType::Unreachable, ins: true, x } }
/// injected instructions carry the location of the observed instruction `o`
pub open spec fn inj(o: STI, xs: Seq<SI>) -> Seq<STI> { Seq::new(xs.len(), |k: int| inj1(o, xs[k])) }
/// the hook call: function index, instruction index, call
pub open spec fn hookcall(o: STI, h: Idx<Function>) -> Seq<SI> {
    seq![SI::Leaf(Instr::Const(Val::I64(o.f as i64))), SI::Leaf(Instr::Const(Val::I64(o.i as i64))), SI::Leaf(Instr::Call(h))]
}
pub open spec fn c32(v: int) -> SI { SI::Leaf(Instr::Const(Val::I32(v as i32))) }
pub open spec fn c64(v: int) -> SI { SI::Leaf(Instr::Const(Val::I64(v as i64))) }
pub enum Act {
    Keep,
    /// injected code before and after the instruction
    Around(Seq<SI>, Seq<SI>),
    /// injected code first and last in the body of a block or loop / the arms of a conditional
    Inside(Seq<SI>, Seq<SI>),
    /// the hook call takes the place of the instruction
    Replace(Seq<SI>),
    /// exit hook of a conditional without else: the new else arm only calls the hook
    Arms(Seq<SI>),
}
"""

LIB = """@@raw vxlib
// Trusted: try_from between integer types gives the same number (or panics)
#[verifier::external_body]
pub fn conv<A: Integer, B: Integer>(a: A) -> (r: B) ensures r as int == a as int { unimplemented!() }
// Trusted: From between integer types keeps the value
pub broadcast axiom fn axiom_u32_i64(v: u32) ensures #[trigger] <i64 as vstd::std_specs::convert::FromSpec::<u32>>::from_spec(v) == v as i64;
pub broadcast axiom fn axiom_u32_i64_ok() ensures #[trigger] <i64 as vstd::std_specs::convert::FromSpec::<u32>>::obeys_from_spec();
pub broadcast group group_ints { axiom_u32_i64, axiom_u32_i64_ok }
// Trusted: extend_from_slice appends clones
pub trait VxCat: Sized { spec fn vx_cat(a: Seq<Self>, b: Seq<Self>, r: Seq<Self>) -> bool; }
impl VxCat for crate::parse_nesting::TypedHighLevelInstr {
    open spec fn vx_cat(a: Seq<Self>, b: Seq<Self>, r: Seq<Self>) -> bool { crate::view::vs(r) == crate::view::vs(a) + crate::view::vs(b) }
}
impl VxCat for crate::wasabi_wasm::Instr { open spec fn vx_cat(a: Seq<Self>, b: Seq<Self>, r: Seq<Self>) -> bool { r == a + b } }
#[verifier::external_body]
pub fn ess<T: VxCat>(v: &mut Vec<T>, s: &[T])
    ensures T::vx_cat(old(v)@, s@, final(v)@)
{ unimplemented!() }
"""

HEAD = """@@include lib.vu
@@include wasabi.vu
@@extern wasabi_wasm
@@opt conv
@@opt ess
@@module parse_nesting wastrumentation/src/parse_nesting/mod.rs
@@module parse_nesting::typed_high_level_body wastrumentation/src/parse_nesting/typed_high_level_body.rs
@@only parse_nesting
@@drop parse_nesting::usehigh_level_body*
@@drop parse_nesting::usetyped_high_level_body_error*
@@only parse_nesting::typed_high_level_body BodyInner; Body; TypedHighLevelInstr; Instr
@@drop parse_nesting::typed_high_level_body::usesuper*
@@derive parse_nesting::typed_high_level_body::Body
@@derive parse_nesting::typed_high_level_body::TypedHighLevelInstr
@@derive parse_nesting::typed_high_level_body::Instr
@@raw parse_nesting::typed_high_level_body
use crate::view::*;
broadcast use {crate::wasabi_wasm::group_wasabi, group_view, crate::vxlib::group_ints};
@@raw view
use crate::parse_nesting::typed_high_level_body::{Instr, TypedHighLevelInstr};
use crate::wasabi_wasm::{FunctionType, Idx, Function, Label, Val, types::InferredInstructionType};
""" + VIEW + LIB + """
@@fn parse_nesting::typed_high_level_body::TypedHighLevelInstr::new_uninstrumented
@contract
    ensures vt(r) == (STI { f: $p0, i: $p1, t: $p2, ins: false, x: vi($p3) }), // [C22] [C21]
@@fn parse_nesting::typed_high_level_body::TypedHighLevelInstr::to_trap_call
@contract
    requires !vt(*self).ins, // [C23]
    ensures vs(r@) =~= inj(vt(*self), hookcall(vt(*self), *$p1)), // [C22]
@@fn parse_nesting::typed_high_level_body::TypedHighLevelInstr::instrument_with
@contract
    requires !vt(*self).ins, // [C23]
    ensures vt(r) == inj1(vt(*self), vi($p1)), // [C22]
@@fn parse_nesting::typed_high_level_body::TypedHighLevelInstr::place_original
@contract
    requires !vt(*self).ins, // [C23]
    ensures vt(r) == (STI { x: vi($p1), ..vt(*self) }), // [C22] [C23]
@@fn parse_nesting::typed_high_level_body::TypedHighLevelInstr::place_untouched
@contract
    ensures vt(r) == (STI { x: vi($p1), ..vt(*self) }), // [C22] [C23]
@@fn parse_nesting::typed_high_level_body::TypedHighLevelInstr::is_uninstrumented
@contract
    ensures r == !vt(*self).ins, // [C23]
@@fn parse_nesting::typed_high_level_body::Instr::if_then
@contract
    ensures vi(r) == sif($p0, vs($p1@), None),
@@fn parse_nesting::typed_high_level_body::Instr::if_then_else
@contract
    ensures vi(r) == sif($p0, vs($p1@), Some(vs($p2@))),
"""

TR = """
// ---- what a hook does to a body ----
pub open spec fn wrap(o: STI, p: Seq<SI>, b: Seq<STI>, q: Seq<SI>) -> Seq<STI> { inj(o, p) + b + inj(o, q) }
pub open spec fn oner(x: STI, h: Target) -> Seq<STI> decreases x, 1nat {
    if x.ins { seq![downr(x, h, Seq::empty(), Seq::empty())] } else {
        match act(h, x) {
            Act::Keep => seq![downr(x, h, Seq::empty(), Seq::empty())],
            Act::Around(p, q) => inj(x, p) + seq![downr(x, h, Seq::empty(), Seq::empty())] + inj(x, q),
            Act::Inside(p, q) => seq![downr(x, h, p, q)],
            Act::Replace(p) => inj(x, p),
            Act::Arms(q) => match x.x {
                SI::If(t, a, None) => seq![inj1(x, sif(t, wrap(x, Seq::empty(), seqn(a, h, a.len()), q), Some(inj(x, q))))],
                _ => seq![x],
            },
        }
    }
}
/// the instruction with its nested bodies transformed
pub open spec fn downr(x: STI, h: Target, p: Seq<SI>, q: Seq<SI>) -> STI decreases x, 0nat {
    match x.x {
        SI::Block(t, a) => STI { x: sblock(t, wrap(x, p, seqn(a, h, a.len()), q)), ..x },
        SI::Loop(t, a) => STI { x: sloop(t, wrap(x, p, seqn(a, h, a.len()), q)), ..x },
        SI::If(t, a, None) => STI { x: sif(t, wrap(x, p, seqn(a, h, a.len()), q), None), ..x },
        SI::If(t, a, Some(b)) => STI { x: sif(t, wrap(x, p, seqn(a, h, a.len()), q), Some(wrap(x, p, seqn(b, h, b.len()), q))), ..x },
        _ => x,
    }
}
#[verifier::opaque]
pub open spec fn seqn(s: Seq<STI>, h: Target, n: nat) -> Seq<STI> decreases s, n {
    if n == 0 || n > s.len() { Seq::empty() } else { seqn(s, h, (n - 1) as nat) + oner(s[n - 1], h) }
}
pub open spec fn tr(s: Seq<STI>, h: Target) -> Seq<STI> { seqn(s, h, s.len()) }
pub broadcast proof fn lem_step(s: Seq<STI>, h: Target, n: nat)
    requires n < s.len()
    ensures #[trigger] seqn(s, h, n) == seqn(s, h, n), seqn(s, h, n + 1) == seqn(s, h, n) + oner(s[n as int], h)
{ reveal_with_fuel(seqn, 2); }
pub proof fn lem_zero(s: Seq<STI>, h: Target)
    ensures seqn(s, h, 0) == Seq::<STI>::empty()
{ reveal(seqn); }
// the same, unfolded once
pub open spec fn one(x: STI, h: Target) -> Seq<STI> {
    if x.ins { seq![down(x, h, Seq::empty(), Seq::empty())] } else {
        match act(h, x) {
            Act::Keep => seq![down(x, h, Seq::empty(), Seq::empty())],
            Act::Around(p, q) => inj(x, p) + seq![down(x, h, Seq::empty(), Seq::empty())] + inj(x, q),
            Act::Inside(p, q) => seq![down(x, h, p, q)],
            Act::Replace(p) => inj(x, p),
            Act::Arms(q) => match x.x {
                SI::If(t, a, None) => seq![inj1(x, sif(t, wrap(x, Seq::empty(), tr(a, h), q), Some(inj(x, q))))],
                _ => seq![x],
            },
        }
    }
}
/// the instruction with its nested bodies transformed
pub open spec fn down(x: STI, h: Target, p: Seq<SI>, q: Seq<SI>) -> STI {
    match x.x {
        SI::Block(t, a) => STI { x: sblock(t, wrap(x, p, tr(a, h), q)), ..x },
        SI::Loop(t, a) => STI { x: sloop(t, wrap(x, p, tr(a, h), q)), ..x },
        SI::If(t, a, None) => STI { x: sif(t, wrap(x, p, tr(a, h), q), None), ..x },
        SI::If(t, a, Some(b)) => STI { x: sif(t, wrap(x, p, tr(a, h), q), Some(wrap(x, p, tr(b, h), q))), ..x },
        _ => x,
    }
}
pub proof fn lem_one(x: STI, h: Target)
    ensures oner(x, h) == one(x, h)
{
    reveal(seqn);
    assert forall|p: Seq<SI>, q: Seq<SI>| downr(x, h, p, q) == down(x, h, p, q) by { reveal_with_fuel(downr, 2); }
    reveal_with_fuel(oner, 2);
}
"""

# removing what is injected: K/K1/KN carry the helper index of the branch unit
def erase(plain, k=False):
    K, KD, KA = (", k", ", k: nat", ", k + hsn(s, h, (n - 1) as nat).len()") if k else ("", "", "")
    KB = ", k + hs(a, h).len()" if k else ""
    QA = "forall|kk: nat| act(h, x, kk) is Keep || act(h, x, kk) is Around || act(h, x, kk) is Inside" if k else "act(h, x) is Keep || act(h, x) is Around || act(h, x) is Inside"
    return f"""
// ---- C23: after a hook that only observes, removing everything injected gives back the original ----
pub open spec fn unmark(x: STI) -> STI decreases x, 0nat {{
    match x.x {{
        SI::Block(t, a) => STI {{ x: sblock(t, strip(a, a.len())), ..x }},
        SI::Loop(t, a) => STI {{ x: sloop(t, strip(a, a.len())), ..x }},
        SI::If(t, a, None) => STI {{ x: sif(t, strip(a, a.len()), None), ..x }},
        SI::If(t, a, Some(b)) => STI {{ x: sif(t, strip(a, a.len()), Some(strip(b, b.len()))), ..x }},
        _ => x,
    }}
}}
#[verifier::opaque]
pub open spec fn strip(s: Seq<STI>, n: nat) -> Seq<STI> decreases s, n {{
    if n == 0 || n > s.len() {{ Seq::empty() }} else if s[n - 1].ins {{ strip(s, (n - 1) as nat) }} else {{ strip(s, (n - 1) as nat).push(unmark(s[n - 1])) }}
}}
pub proof fn lem_strip_take(s: Seq<STI>, t: Seq<STI>, n: nat)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures strip(s, n) == strip(t, n)
    decreases n
{{ reveal(strip); if n > 0 {{ assert(s[n - 1] == t[n - 1]); lem_strip_take(s, t, (n - 1) as nat); }} }}
pub proof fn lem_strip_add(a: Seq<STI>, b: Seq<STI>, n: nat)
    requires n <= b.len()
    ensures strip(a + b, a.len() + n) =~= strip(a, a.len()) + strip(b, n)
    decreases n
{{
    reveal(strip);
    if n == 0 {{ lem_strip_take(a + b, a, a.len()); }} else {{ lem_strip_add(a, b, (n - 1) as nat); assert((a + b)[a.len() + n - 1] == b[n - 1]); }}
}}
pub proof fn lem_strip_inj(o: STI, p: Seq<SI>, n: nat)
    requires n <= p.len()
    ensures strip(inj(o, p), n) == Seq::<STI>::empty()
    decreases n
{{ reveal(strip); if n > 0 {{ lem_strip_inj(o, p, (n - 1) as nat); }} }}
pub proof fn lem_strip_wrap(o: STI, p: Seq<SI>, b: Seq<STI>, q: Seq<SI>)
    ensures strip(wrap(o, p, b, q), wrap(o, p, b, q).len()) =~= strip(b, b.len())
{{
    lem_strip_add(inj(o, p) + b, inj(o, q), q.len()); lem_strip_add(inj(o, p), b, b.len());
    lem_strip_inj(o, p, p.len()); lem_strip_inj(o, q, q.len());
}}
pub proof fn lem_strip_one(x: STI)
    ensures strip(seq![x], 1) =~= (if x.ins {{ Seq::empty() }} else {{ seq![unmark(x)] }})
{{ reveal_with_fuel(strip, 2); }}
/// hooks that only observe
pub open spec fn observer(h: Target) -> bool {{ {plain} }}
pub proof fn lem_observer(h: Target, x: STI)
    requires observer(h)
    ensures {QA}
{{ }}
pub proof fn lem_down(x: STI, h: Target{KD}, p: Seq<SI>, q: Seq<SI>)
    requires observer(h)
    ensures unmark(down(x, h{K}, p, q)) == unmark(x)
    decreases x, 0nat
{{
    reveal(strip); reveal_with_fuel(unmark, 2);
    match x.x {{
        SI::Block(t, a) => {{ lem_strip_tr(a, h{K}, a.len()); lem_strip_wrap(x, p, tr(a, h{K}), q); }}
        SI::Loop(t, a) => {{ lem_strip_tr(a, h{K}, a.len()); lem_strip_wrap(x, p, tr(a, h{K}), q); }}
        SI::If(t, a, None) => {{ lem_strip_tr(a, h{K}, a.len()); lem_strip_wrap(x, p, tr(a, h{K}), q); }}
        SI::If(t, a, Some(b)) => {{ lem_strip_tr(a, h{K}, a.len()); lem_strip_wrap(x, p, tr(a, h{K}), q); lem_strip_tr(b, h{KB}, b.len()); lem_strip_wrap(x, p, tr(b, h{KB}), q); }}
        _ => {{ }}
    }}
}}
pub proof fn lem_strip_tr(s: Seq<STI>, h: Target{KD}, n: nat)
    requires observer(h), n <= s.len()
    ensures strip(seqn(s, h{K}, n), seqn(s, h{K}, n).len()) =~= strip(s, n)
    decreases s, n
{{
    if n == 0 {{ lem_zero(s, h{K}); reveal(strip); }} else {{
        let x = s[n - 1]; let e = Seq::<SI>::empty();
        lem_step(s, h{K}, (n - 1) as nat);
        lem_strip_tr(s, h{K}, (n - 1) as nat);
        {"let k2 = k + hsn(s, h, (n - 1) as nat).len();" if k else ""}
        lem_one(x, h{K[:-1] + "k2" if k else ""});
        lem_observer(h, x);
        let o = one(x, h{", k2" if k else ""});
        lem_strip_add(seqn(s, h{K}, (n - 1) as nat), o, o.len());
        let d = down(x, h{", k2" if k else ""}, e, e);
        lem_down(x, h{", k2" if k else ""}, e, e);
        lem_strip_one(d);
        match act(h, x{", k2" if k else ""}) {{
            Act::Around(p, q) => {{ if !x.ins {{
                lem_strip_add(inj(x, p) + seq![d], inj(x, q), q.len()); lem_strip_add(inj(x, p), seq![d], 1);
                lem_strip_inj(x, p, p.len()); lem_strip_inj(x, q, q.len());
            }} }}
            Act::Inside(p, q) => {{ lem_down(x, h{", k2" if k else ""}, p, q); lem_strip_one(down(x, h{", k2" if k else ""}, p, q)); }}
            _ => {{ }}
        }}
        assert(strip(s, n) == (if x.ins {{ strip(s, (n - 1) as nat) }} else {{ strip(s, (n - 1) as nat).push(unmark(x)) }})) by {{ reveal_with_fuel(strip, 2); }}
    }}
}}
/// no instruction is marked as injected
pub open spec fn orig1(x: STI) -> bool decreases x, 0nat {{
    !x.ins && match x.x {{
        SI::Block(t, a) => orig(a, a.len()),
        SI::Loop(t, a) => orig(a, a.len()),
        SI::If(t, a, None) => orig(a, a.len()),
        SI::If(t, a, Some(b)) => orig(a, a.len()) && orig(b, b.len()),
        _ => true,
    }}
}}
#[verifier::opaque]
pub open spec fn orig(s: Seq<STI>, n: nat) -> bool decreases s, n {{
    n == 0 || n > s.len() || (orig(s, (n - 1) as nat) && orig1(s[n - 1]))
}}
pub proof fn lem_orig1(x: STI)
    requires orig1(x)
    ensures unmark(x) == x
    decreases x, 0nat
{{
    reveal(strip); reveal(orig); reveal_with_fuel(unmark, 2); reveal_with_fuel(orig1, 2);
    match x.x {{
        SI::Block(t, a) => {{ lem_orig(a, a.len()); assert(a.take(a.len() as int) =~= a); }}
        SI::Loop(t, a) => {{ lem_orig(a, a.len()); assert(a.take(a.len() as int) =~= a); }}
        SI::If(t, a, None) => {{ lem_orig(a, a.len()); assert(a.take(a.len() as int) =~= a); }}
        SI::If(t, a, Some(b)) => {{ lem_orig(a, a.len()); assert(a.take(a.len() as int) =~= a); lem_orig(b, b.len()); assert(b.take(b.len() as int) =~= b); }}
        _ => {{ }}
    }}
}}
pub proof fn lem_orig(s: Seq<STI>, n: nat)
    requires orig(s, n), n <= s.len()
    ensures strip(s, n) =~= s.take(n as int)
    decreases s, n
{{
    reveal_with_fuel(orig, 2); reveal_with_fuel(strip, 2);
    if n > 0 {{ lem_orig(s, (n - 1) as nat); lem_orig1(s[n - 1]); }}
}}
/// the statement: an observing hook leaves the original program in place
pub proof fn lem_only_observes(s: Seq<STI>, h: Target{KD})
    requires observer(h), orig(s, s.len())
    ensures strip(tr(s, h{K}), tr(s, h{K}).len()) =~= s
{{ lem_strip_tr(s, h{K}, s.len()); lem_orig(s, s.len()); assert(s.take(s.len() as int) =~= s); }}
"""

USES = """
use crate::view::*;
use crate::hspec::*;
broadcast use {crate::wasabi_wasm::group_wasabi, group_view, crate::vxlib::group_ints};
"""

STRAT = """@@module instrument wastrumentation/src/instrument/mod.rs
@@only instrument TransformationStrategy
@@drop instrument::usestd*
@@drop instrument::usecrate::compiler*
@@drop instrument::usecrate::analysis*
@@drop instrument::usecrate::error*
@@drop instrument::useself*
@@drop instrument::usecrate::parse_nesting::LowLevelBody*
"""
def unit(name, file, act, prop, extra="", cases=(), plain="true"):
    o = HEAD
    m = f"instrument::{name}"
    o += STRAT + f"""@@module {m} wastrumentation/src/instrument/{file}
@@derive {m}::Target Clone, Copy
@@raw {m}
{USES}
@@raw hspec
use crate::view::*;
use crate::{m}::Target;
use crate::parse_nesting::HighLevelInstr as Instr;
use crate::wasabi_wasm::*;
use crate::wasabi_wasm::types::*;
{act}
{TR}
{erase(plain)}
@@fn {m}::<TransformationStrategyforTarget>::transform
@contract
    ensures vs(r.0@) == tr(vs($p1.0@), *self), // [{prop}] [C22?] [C23?]
        *final($p2) == *old($p2), // [{prop}] [C42?]
{extra}
"""
    o += f"""@@fn {m}::transform
@attr
#[verifier::exec_allows_no_decreases_clause]
@contract
    ensures vs(r@) == tr(vs($p0@), $p1), // [{prop}] [C22?] [C23?]
@lbefore 0
proof {{ lem_zero(vs($p0@), $p1); }}
@loop 0
invariant all0.len() == $p0@.len(), forall|k: int| 0 <= k < all0.len() ==> *(#[trigger] all0[k]) == $p0@[k],
   vs(result@) =~= seqn(vs($p0@), $p1, idx0 as nat), // [{prop}] [C22?] [C23?]
@lstart 0
proof {{ lem_step(vs($p0@), $p1, (idx0 - 1) as nat); assert(vs($p0@)[idx0 - 1] == vt(*x0)); lem_one(vt(*x0), $p1); }}
"""
    if cases:
        o += "@lcases 0\n" + "".join(f"x0.instr is {c}\n" for c in cases)
    return o

CNT = "seq![c32(t.ins().len() as int), c32(t.outs().len() as int)]"
ACT_BLOCK = f"""
pub open spec fn act(h: Target, x: STI) -> Act {{
    match (h, x.x) {{
        (Target::BlockPre(f), SI::Block(t, _)) => Act::Inside({CNT} + hookcall(x, f), Seq::empty()),
        (Target::BlockPost(f), SI::Block(t, _)) => Act::Inside(Seq::empty(), hookcall(x, f)),
        (Target::LoopPre(f), SI::Loop(t, _)) => Act::Inside({CNT} + hookcall(x, f), Seq::empty()),
        (Target::LoopPost(f), SI::Loop(t, _)) => Act::Inside(Seq::empty(), hookcall(x, f)),
        (Target::Select(f), SI::Leaf(Instr::Select)) => Act::Around(hookcall(x, f), Seq::empty()),
        (Target::Select(f), SI::Leaf(Instr::TypedSelect(_))) => Act::Around(hookcall(x, f), Seq::empty()),
        _ => Act::Keep,
    }}
}}
"""

ACT_CALL = """
pub open spec fn act(h: Target, x: STI) -> Act {
    match (h, x.x) {
        (Target::Pre(f), SI::Leaf(Instr::Call(c))) => Act::Around(seq![c32(c.n() as int)] + hookcall(x, f), Seq::empty()),
        (Target::Post(f), SI::Leaf(Instr::Call(c))) => Act::Around(Seq::empty(), seq![c32(c.n() as int)] + hookcall(x, f)),
        (Target::IndirectPre(f), SI::Leaf(Instr::CallIndirect(_, t))) => Act::Around(seq![c32(t.n() as int)] + hookcall(x, f), Seq::empty()),
        (Target::IndirectPost(f), SI::Leaf(Instr::CallIndirect(_, t))) => Act::Around(Seq::empty(), seq![c32(t.n() as int)] + hookcall(x, f)),
        _ => Act::Keep,
    }
}
"""

T4 = ("I32", "F32", "I64", "F64")
UTY = ["I32ToI32", "I64ToI32", "I64ToI64", "F32ToF32", "F64ToF64", "F32ToI32", "F64ToI32", "I32ToI64", "F32ToI64", "F64ToI64", "I32ToF32", "I64ToF32", "F64ToF32", "I32ToF64", "I64ToF64", "F32ToF64"]
BTY = ["I32I32toI32", "I64I64toI32", "F32F32toI32", "F64F64toI32", "I64I64toI64", "F32F32toF32", "F64F64toF64"]
ACT_SIMPLE = table("un_in", "UnaryOp", [(o, "ValType::" + un_ty(o)[0]) for o in UN], "ValType") \
  + table("un_out", "UnaryOp", [(o, "ValType::" + un_ty(o)[1]) for o in UN], "ValType") \
  + table("bin_in", "BinaryOp", [(o, "ValType::" + bin_ty(o)[0]) for o in BIN], "ValType") \
  + table("bin_out", "BinaryOp", [(o, "ValType::" + bin_ty(o)[1]) for o in BIN], "ValType") + """
pub uninterp spec fn un_code(o: UnaryOp) -> i32;
pub uninterp spec fn bin_code(o: BinaryOp) -> i32;
/// the operand and result type a unary hook is for, and its import
pub open spec fn un_hook(h: Target) -> Option<(ValType, ValType, Idx<Function>)> {
    match h {
""" + "".join(f"        Target::Unary{t}(f) => Some((ValType::{t[:3]}, ValType::{t[5:]}, f)),\n" for t in UTY) + """        _ => None,
    }
}
/// the operand and result type a binary hook is for, and its import
pub open spec fn bin_hook(h: Target) -> Option<(ValType, ValType, Idx<Function>)> {
    match h {
""" + "".join(f"        Target::Binary{t}(f) => Some((ValType::{t[:3]}, ValType::{t[8:]}, f)),\n" for t in BTY) + """        _ => None,
    }
}
pub open spec fn act(h: Target, x: STI) -> Act {
    match (h, x.x) {
        (Target::Drop(f), SI::Leaf(Instr::Drop)) => Act::Around(hookcall(x, f), Seq::empty()),
        (Target::Return(f), SI::Leaf(Instr::Return)) => Act::Around(hookcall(x, f), Seq::empty()),
        (Target::ConstI32(f), SI::Leaf(Instr::Const(Val::I32(_)))) => Act::Around(Seq::empty(), hookcall(x, f)),
        (Target::ConstF32(f), SI::Leaf(Instr::Const(Val::F32(_)))) => Act::Around(Seq::empty(), hookcall(x, f)),
        (Target::ConstI64(f), SI::Leaf(Instr::Const(Val::I64(_)))) => Act::Around(Seq::empty(), hookcall(x, f)),
        (Target::ConstF64(f), SI::Leaf(Instr::Const(Val::F64(_)))) => Act::Around(Seq::empty(), hookcall(x, f)),
        (_, SI::Leaf(Instr::Unary(o))) => match un_hook(h) {
            Some((a, b, f)) if a == un_in(o) && b == un_out(o) => Act::Replace(seq![c32(un_code(o) as int)] + hookcall(x, f)),
            _ => Act::Keep,
        },
        (_, SI::Leaf(Instr::Binary(o))) => match bin_hook(h) {
            Some((a, b, f)) if a == bin_in(o) && b == bin_out(o) => Act::Replace(seq![c32(bin_code(o) as int)] + hookcall(x, f)),
            _ => Act::Keep,
        },
        _ => Act::Keep,
    }
}
"""
S = "instrument::simple_operations"
EX_SIMPLE = f"""
@@fn {S}::<WastrumentationSerializableforUnaryOp>::serialize
@external
@contract
    ensures r == un_code(*self),
@@fn {S}::<WastrumentationSerializableforBinaryOp>::serialize
@external
@contract
    ensures r == bin_code(*self),
"""

def names(kind):
    return [f"{kind}{t}" for t in ("I32", "F32", "I64", "F64")]
ACT_MEM = table("st_ty", "StoreOp", [(o, "ValType::" + o[:3]) for o in STORE], "ValType") + table("ld_ty", "LoadOp", [(o, "ValType::" + o[:3]) for o in LOAD], "ValType") + """
pub uninterp spec fn st_code(o: StoreOp) -> i32;
pub uninterp spec fn ld_code(o: LoadOp) -> i32;
""" + "".join(f"""pub open spec fn {fn}(h: Target) -> Option<(ValType, Idx<Function>)> {{
    match h {{
""" + "".join(f"        Target::{pat.replace('*', t)}(f) => Some((ValType::{t}, f)),\n" for t in ("I32", "F32", "I64", "F64")) + """        _ => None,
    }
}
""" for fn, pat in (("lget", "LocalGet*"), ("lset", "LocalSet*"), ("ltee", "LocalTee*"), ("gget", "GlobalGet*"), ("gset", "GlobalSet*"), ("store", "*Store"), ("load", "*Load"))) + """
/// the instruction pops `a` and pushes `b`
pub open spec fn shape(x: STI, a: Seq<ValType>, b: Seq<ValType>) -> bool {
    match x.t { InferredInstructionType::Reachable(t) => t.ins() =~= a && t.outs() =~= b, _ => false }
}
pub open spec fn act(h: Target, x: STI) -> Act {
    match x.x {
        SI::Leaf(Instr::MemorySize(m)) => match h {
            Target::MemorySize(f) => Act::Around(Seq::empty(), seq![c64(m.n() as int)] + hookcall(x, f)),
            _ => Act::Keep,
        },
        SI::Leaf(Instr::MemoryGrow(m)) => match h {
            Target::MemoryGrow(f) => Act::Replace(seq![c64(m.n() as int)] + hookcall(x, f)),
            _ => Act::Keep,
        },
        SI::Leaf(Instr::Local(LocalOp::Get, l)) => match lget(h) {
            Some((t, f)) if shape(x, seq![], seq![t]) => Act::Around(Seq::empty(), seq![c64(l.n() as int)] + hookcall(x, f)),
            _ => Act::Keep,
        },
        SI::Leaf(Instr::Local(LocalOp::Set, l)) => match lset(h) {
            Some((t, f)) if shape(x, seq![t], seq![]) => Act::Around(seq![c64(l.n() as int)] + hookcall(x, f), Seq::empty()),
            _ => Act::Keep,
        },
        SI::Leaf(Instr::Local(LocalOp::Tee, l)) => match ltee(h) {
            Some((t, f)) if shape(x, seq![t], seq![t]) => Act::Around(seq![c64(l.n() as int)] + hookcall(x, f), Seq::empty()),
            _ => Act::Keep,
        },
        SI::Leaf(Instr::Global(GlobalOp::Get, l)) => match gget(h) {
            Some((t, f)) if shape(x, seq![], seq![t]) => Act::Around(Seq::empty(), seq![c64(l.n() as int)] + hookcall(x, f)),
            _ => Act::Keep,
        },
        SI::Leaf(Instr::Global(GlobalOp::Set, l)) => match gset(h) {
            Some((t, f)) if shape(x, seq![t], seq![]) => Act::Around(seq![c64(l.n() as int)] + hookcall(x, f), Seq::empty()),
            _ => Act::Keep,
        },
        SI::Leaf(Instr::Store(o, m)) => match store(h) {
            Some((t, f)) if t == st_ty(o) => Act::Replace(seq![c64(m.offset as int), c32(st_code(o) as int)] + hookcall(x, f)),
            _ => Act::Keep,
        },
        SI::Leaf(Instr::Load(o, m)) => match load(h) {
            Some((t, f)) if t == ld_ty(o) => Act::Replace(seq![c64(m.offset as int), c32(ld_code(o) as int)] + hookcall(x, f)),
            _ => Act::Keep,
        },
        _ => Act::Keep,
    }
}
"""
M = "instrument::memory"
EX_MEM = f"""
@@only {M} Target; transform; <TransformationStrategyforTarget>; Serialize; <SerializeforStoreOp>; <SerializeforLoadOp>
@@fn {M}::<SerializeforStoreOp>::serialize
@external
@contract
    ensures r == st_code(*self),
@@fn {M}::<SerializeforLoadOp>::serialize
@external
@contract
    ensures r == ld_code(*self),
"""

if __name__ == "__main__":
    w = lambda n, t: open(n + ".vu", "w").write(t)
    w("hooks_block", unit("block_loop", "block_loop.rs", ACT_BLOCK, "C25"))
    w("hooks_call", unit("function_call_indirect", "function_call_indirect.rs", ACT_CALL, "C27"))
    w("hooks_simple", unit("simple_operations", "simple_operations.rs", ACT_SIMPLE, "C28", EX_SIMPLE, ["Drop", "Return", "Const", "Unary", "Binary", "If", "Loop", "Block"], "un_hook(h) is None && bin_hook(h) is None"))
    w("hooks_mem", unit("memory", "memory.rs", ACT_MEM, "C29", EX_MEM, ["MemorySize", "MemoryGrow", "Local", "Global", "Store", "Load", "If", "Loop", "Block"], "store(h) is None && load(h) is None && !(h is MemoryGrow)"))
