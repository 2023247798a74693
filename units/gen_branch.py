#!/usr/bin/env python3
"""the branch unit: conditional and branch hooks, and the helper function generated for a branch table"""
from gen_hooks import *

BRSPEC = r"""
@@raw brspec
use crate::wasabi_wasm::*;
use crate::vxlib::flatv;
// ---- what a helper function computes: execution of forward-only WebAssembly code with one i32 parameter ----
pub struct Fr { pub h: nat, pub a: nat }
pub enum Mode { Run, Skip(nat), ToElse(nat) }
pub open spec fn brto(stack: Seq<int>, labels: Seq<Fr>, d: nat) -> Seq<int>
    recommends d < labels.len()
{
    let l = labels[labels.len() - 1 - d];
    stack.take(l.h as int) + stack.skip(stack.len() - l.a)
}
pub open spec fn brok(stack: Seq<int>, labels: Seq<Fr>, d: nat) -> bool {
    d < labels.len() && stack.len() >= labels[labels.len() - 1 - d].h + labels[labels.len() - 1 - d].a
}
/// the values on the stack when the code ends, or None when it does not end normally or uses something not modelled
#[verifier::opaque]
pub open spec fn run(c: Seq<Instr>, arg: i32, pc: nat, stack: Seq<int>, labels: Seq<Fr>, m: Mode) -> Option<Seq<int>>
    decreases c.len() - pc
{
    if pc >= c.len() { None } else {
        let n = pc + 1;
        match m {
            Mode::Skip(k) => match c[pc as int] {
                Instr::Block(_) | Instr::Loop(_) | Instr::If(_) => run(c, arg, n, stack, labels, Mode::Skip(k + 1)),
                Instr::End => if k > 0 { run(c, arg, n, stack, labels, Mode::Skip((k - 1) as nat)) } else if labels.len() > 0 { run(c, arg, n, stack, labels.drop_last(), Mode::Run) } else { None },
                _ => run(c, arg, n, stack, labels, m),
            },
            Mode::ToElse(k) => match c[pc as int] {
                Instr::Block(_) | Instr::Loop(_) | Instr::If(_) => run(c, arg, n, stack, labels, Mode::ToElse(k + 1)),
                Instr::Else => if k == 0 { run(c, arg, n, stack, labels, Mode::Run) } else { run(c, arg, n, stack, labels, m) },
                Instr::End => if k > 0 { run(c, arg, n, stack, labels, Mode::ToElse((k - 1) as nat)) } else if labels.len() > 0 { run(c, arg, n, stack, labels.drop_last(), Mode::Run) } else { None },
                _ => run(c, arg, n, stack, labels, m),
            },
            Mode::Run => match c[pc as int] {
                Instr::Block(t) => if stack.len() < t.ins().len() { None } else {
                    run(c, arg, n, stack, labels.push(Fr { h: (stack.len() - t.ins().len()) as nat, a: t.outs().len() }), m) },
                Instr::If(t) => if stack.len() < t.ins().len() + 1 { None } else {
                    run(c, arg, n, stack.drop_last(), labels.push(Fr { h: (stack.len() - 1 - t.ins().len()) as nat, a: t.outs().len() }),
                        if stack.last() != 0 { Mode::Run } else { Mode::ToElse(0) }) },
                Instr::Else => run(c, arg, n, stack, labels, Mode::Skip(0)),
                Instr::End => if labels.len() > 0 { run(c, arg, n, stack, labels.drop_last(), m) } else { Some(stack) },
                Instr::Return => Some(stack),
                Instr::Const(Val::I32(v)) => run(c, arg, n, stack.push(v as int), labels, m),
                Instr::Local(LocalOp::Get, l) => if l.n() == 0 { run(c, arg, n, stack.push(arg as int), labels, m) } else { None },
                Instr::Drop => if stack.len() > 0 { run(c, arg, n, stack.drop_last(), labels, m) } else { None },
                Instr::Nop => run(c, arg, n, stack, labels, m),
                Instr::Unary(UnaryOp::I32Eqz) => if stack.len() > 0 { run(c, arg, n, stack.drop_last().push(if stack.last() == 0 { 1int } else { 0int }), labels, m) } else { None },
                Instr::Br(d) => if brok(stack, labels, d.v as nat) { run(c, arg, n, brto(stack, labels, d.v as nat), labels.take(labels.len() - d.v), Mode::Skip(d.v as nat)) } else { None },
                Instr::BrIf(d) => if stack.len() == 0 { None } else if stack.last() == 0 { run(c, arg, n, stack.drop_last(), labels, m) } else {
                    if brok(stack.drop_last(), labels, d.v as nat) { run(c, arg, n, brto(stack.drop_last(), labels, d.v as nat), labels.take(labels.len() - d.v), Mode::Skip(d.v as nat)) } else { None } },
                Instr::BrTable { table, default } => if stack.len() == 0 { None } else {
                    let d = entry(table@, default, stack.last() as i32);
                    if brok(stack.drop_last(), labels, d as nat) { run(c, arg, n, brto(stack.drop_last(), labels, d as nat), labels.take(labels.len() - d), Mode::Skip(d as nat)) } else { None } },
                _ => None,
            },
        }
    }
}
/// the label a branch table goes to for an index
pub open spec fn entry(table: Seq<Label>, default: Label, i: i32) -> u32 {
    if (i as u32) < table.len() { table[(i as u32) as int].v } else { default.v }
}
pub open spec fn observes(body: Seq<Instr>, table: Seq<Label>, default: Label, i: i32) -> bool {
    match run(body, i, 0, Seq::empty(), Seq::empty(), Mode::Run) { Some(s) => s =~= seq![i as int, entry(table, default, i) as i32 as int], None => false }
}
/// the code returns its argument together with the label the table would branch to
pub closed spec fn correct(body: Seq<Instr>, table: Seq<Label>, default: Label) -> bool {
    forall|i: i32| #[trigger] observes(body, table, default, i)
}

// ---- the three forms that are generated ----
pub open spec fn g0() -> Instr { Instr::Local(LocalOp::Get, mk(0)) }
pub open spec fn k32(l: Label) -> Instr { Instr::Const(Val::I32(l.v as i32)) }
pub open spec fn seg(l: Label) -> Seq<Instr> { seq![g0(), k32(l), Instr::Return, Instr::End] }
pub open spec fn nothing() -> FunctionType { fty(Seq::empty(), Seq::empty()) }
pub open spec fn big(body: Seq<Instr>, table: Seq<Label>, default: Label) -> bool {
    let n = table.len() as int;
    &&& body.len() == n + 4 + 4 * n + 3
    &&& forall|j: int| 0 <= j <= n ==> #[trigger] body[j] == Instr::Block(nothing())
    &&& body[n + 1] == g0()
    &&& body[n + 2] is BrTable && body[n + 2]->BrTable_default.v == n && body[n + 2]->table@.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] body[n + 2]->table@[j]).v == j
    &&& body[n + 3] is End
    &&& forall|j: int| 0 <= j < n ==> body.subrange(n + 4 + 4 * j, n + 4 + 4 * j + 4) =~= seg(#[trigger] table[j])
    &&& body[n + 4 + 4 * n] == g0() && body[n + 4 + 4 * n + 1] == k32(default) && body[n + 4 + 4 * n + 2] is End
}
pub open spec fn none(body: Seq<Instr>, table: Seq<Label>, default: Label) -> bool {
    table.len() == 0 && body =~= seq![g0(), k32(default), Instr::End]
}
pub open spec fn single(body: Seq<Instr>, table: Seq<Label>, default: Label) -> bool {
    table.len() == 1 && body =~= seq![g0(), g0(), Instr::Unary(UnaryOp::I32Eqz), Instr::If(fty(Seq::empty(), seq![ValType::I32])), k32(table[0]), Instr::Else, k32(default), Instr::End, Instr::End]
}
pub broadcast proof fn lem_none(body: Seq<Instr>, table: Seq<Label>, default: Label)
    requires none(body, table, default)
    ensures #[trigger] correct(body, table, default)
{
    broadcast use axiom_idx;
    assert forall|i: i32| observes(body, table, default, i) by {
        let e = Seq::<int>::empty(); let l = Seq::<Fr>::empty();
        assert(body[0] == g0() && body[1] == k32(default) && body[2] is End);
        let s1 = e.push(i as int); let s2 = s1.push(default.v as i32 as int);
        assert(run(body, i, 0, e, l, Mode::Run) == run(body, i, 1, s1, l, Mode::Run)) by { reveal(run); }
        assert(run(body, i, 1, s1, l, Mode::Run) == run(body, i, 2, s2, l, Mode::Run)) by { reveal(run); }
        assert(run(body, i, 2, s2, l, Mode::Run) == Some(s2)) by { reveal(run); }
    }
}
pub broadcast proof fn lem_single(body: Seq<Instr>, table: Seq<Label>, default: Label)
    requires single(body, table, default)
    ensures #[trigger] correct(body, table, default)
{
    broadcast use {axiom_idx, axiom_fty};
    assert forall|i: i32| observes(body, table, default, i) by {
        assert((i == 0) == ((i as u32) < 1)) by (bit_vector);
        let e = Seq::<int>::empty(); let l = Seq::<Fr>::empty();
        let l1 = l.push(Fr { h: 1, a: 1 });
        assert(body[0] == g0() && body[1] == g0() && body[2] == Instr::Unary(UnaryOp::I32Eqz) && body[3] == Instr::If(fty(Seq::empty(), seq![ValType::I32])));
        assert(body[4] == k32(table[0]) && body[5] is Else && body[6] == k32(default) && body[7] is End && body[8] is End);
        let s1 = e.push(i as int); let s2 = s1.push(i as int); let z = if i == 0 { 1int } else { 0int };
        let s3 = s1.push(z);
        assert(run(body, i, 0, e, l, Mode::Run) == run(body, i, 1, s1, l, Mode::Run)) by { reveal(run); }
        assert(run(body, i, 1, s1, l, Mode::Run) == run(body, i, 2, s2, l, Mode::Run)) by { reveal(run); }
        assert(s2.drop_last() =~= s1 && s3.drop_last() =~= s1);
        assert(run(body, i, 2, s2, l, Mode::Run) == run(body, i, 3, s3, l, Mode::Run)) by { reveal(run); }
        assert(l1.drop_last() =~= l);
        if i == 0 {
            let s4 = s1.push(table[0].v as i32 as int);
            assert(run(body, i, 3, s3, l, Mode::Run) == run(body, i, 4, s1, l1, Mode::Run)) by { reveal(run); }
            assert(run(body, i, 4, s1, l1, Mode::Run) == run(body, i, 5, s4, l1, Mode::Run)) by { reveal(run); }
            assert(run(body, i, 5, s4, l1, Mode::Run) == run(body, i, 6, s4, l1, Mode::Skip(0))) by { reveal(run); }
            assert(run(body, i, 6, s4, l1, Mode::Skip(0)) == run(body, i, 7, s4, l1, Mode::Skip(0))) by { reveal(run); }
            assert(run(body, i, 7, s4, l1, Mode::Skip(0)) == run(body, i, 8, s4, l, Mode::Run)) by { reveal(run); }
            assert(run(body, i, 8, s4, l, Mode::Run) == Some(s4)) by { reveal(run); }
        } else {
            let s4 = s1.push(default.v as i32 as int);
            assert(run(body, i, 3, s3, l, Mode::Run) == run(body, i, 4, s1, l1, Mode::ToElse(0))) by { reveal(run); }
            assert(run(body, i, 4, s1, l1, Mode::ToElse(0)) == run(body, i, 5, s1, l1, Mode::ToElse(0))) by { reveal(run); }
            assert(run(body, i, 5, s1, l1, Mode::ToElse(0)) == run(body, i, 6, s1, l1, Mode::Run)) by { reveal(run); }
            assert(run(body, i, 6, s1, l1, Mode::Run) == run(body, i, 7, s4, l1, Mode::Run)) by { reveal(run); }
            assert(run(body, i, 7, s4, l1, Mode::Run) == run(body, i, 8, s4, l, Mode::Run)) by { reveal(run); }
            assert(run(body, i, 8, s4, l, Mode::Run) == Some(s4)) by { reveal(run); }
        }
    }
}
pub broadcast proof fn lem_correct_ext(b: Seq<Instr>, t: Seq<Label>, u: Seq<Label>, d: Label)
    requires #[trigger] correct(b, t, d), t =~= u
    ensures #[trigger] correct(b, u, d)
{ }
spec fn labs(n: nat) -> Seq<Fr> { Seq::new(n, |i: int| Fr { h: 0, a: 0 }) }
proof fn lem_enter(c: Seq<Instr>, table: Seq<Label>, default: Label, i: i32, j: nat)
    requires big(c, table, default), j <= table.len() + 1
    ensures run(c, i, 0, Seq::empty(), Seq::empty(), Mode::Run) == run(c, i, j, Seq::empty(), labs(j), Mode::Run)
    decreases j
{
    broadcast use group_wasabi;
    reveal(run);
    if j == 0 { assert(labs(0) =~= Seq::empty()); } else {
        lem_enter(c, table, default, i, (j - 1) as nat);
        assert(c[j - 1] == Instr::Block(nothing()));
        assert(labs((j - 1) as nat).push(Fr { h: 0, a: 0 }) =~= labs(j));
    }
}
proof fn lem_seg(c: Seq<Instr>, table: Seq<Label>, default: Label, q: int)
    requires big(c, table, default), 0 <= q < table.len()
    ensures c[table.len() as int + 4 + 4 * q] == g0(), c[table.len() as int + 4 + 4 * q + 1] == k32(table[q]), c[table.len() as int + 4 + 4 * q + 2] is Return, c[table.len() as int + 4 + 4 * q + 3] is End
{
    let s = c.subrange(table.len() as int + 4 + 4 * q, table.len() as int + 4 + 4 * q + 4);
    assert(s =~= seg(table[q]));
    assert(s[0] == g0() && s[1] == k32(table[q]) && s[2] is Return && s[3] is End);
    assert(c[table.len() as int + 4 + 4 * q] == s[0] && c[table.len() as int + 4 + 4 * q + 1] == s[1] && c[table.len() as int + 4 + 4 * q + 2] == s[2] && c[table.len() as int + 4 + 4 * q + 3] == s[3]);
}
proof fn lem_skip(c: Seq<Instr>, table: Seq<Label>, default: Label, i: i32, l: Seq<Fr>, q: nat, k: nat)
    requires big(c, table, default), q + k <= table.len()
    ensures run(c, i, table.len() + 3 + 4 * q, Seq::empty(), l, Mode::Skip(k)) == run(c, i, table.len() + 3 + 4 * (q + k), Seq::empty(), l, Mode::Skip(0))
    decreases k
{
    if k > 0 {
        let p = table.len() + 3 + 4 * q;
        if q > 0 { lem_seg(c, table, default, q - 1); }
        lem_seg(c, table, default, q as int);
        assert(c[p as int] is End);
        reveal_with_fuel(run, 5);
        lem_skip(c, table, default, i, l, q + 1, (k - 1) as nat);
    }
}
/// the three parts of the general form
pub open spec fn parts(c: Seq<Instr>, table: Seq<Label>, default: Label, a: Seq<Instr>, m: Seq<Instr>, b: Seq<Instr>) -> bool {
    &&& a.len() == table.len() && forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] == Instr::Block(nothing())
    &&& b.len() == 4 * table.len() && forall|j: int| 0 <= j < table.len() ==> #[trigger] piece(b, j) =~= seg(table[j])
    &&& m.len() == 4 && m[0] == Instr::Block(nothing()) && m[1] == g0() && m[3] is End && m[2] is BrTable
    &&& m[2]->BrTable_default.v == table.len() && m[2]->table@.len() == table.len() && forall|j: int| 0 <= j < table.len() ==> (#[trigger] m[2]->table@[j]).v == j
    &&& c =~= a + m + b + seq![g0(), k32(default), Instr::End]
}
pub proof fn lem_parts(c: Seq<Instr>, table: Seq<Label>, default: Label, a: Seq<Instr>, m: Seq<Instr>, b: Seq<Instr>)
    requires table.len() < 0xffff_ffff, parts(c, table, default, a, m, b)
    ensures correct(c, table, default)
{
    let n = table.len() as int;
    let t = seq![g0(), k32(default), Instr::End];
    assert(c[n] == m[0] && c[n + 1] == m[1] && c[n + 2] == m[2] && c[n + 3] == m[3]);
    assert forall|j: int| 0 <= j <= n implies #[trigger] c[j] == Instr::Block(nothing()) by { if j < n { assert(c[j] == a[j]); } }
    assert forall|j: int| 0 <= j < n implies c.subrange(n + 4 + 4 * j, n + 4 + 4 * j + 4) =~= seg(#[trigger] table[j]) by {
        assert(piece(b, j) =~= seg(table[j]));
        assert(c.subrange(n + 4 + 4 * j, n + 4 + 4 * j + 4) =~= b.subrange(4 * j, 4 * j + 4));
    }
    assert(c[n + 4 + 4 * n] == t[0] && c[n + 4 + 4 * n + 1] == t[1] && c[n + 4 + 4 * n + 2] == t[2]);
    lem_big(c, table, default);
}
/// the same for code put together piece by piece
pub broadcast proof fn lem_concat(a: Seq<Instr>, m: Seq<Instr>, b: Seq<Instr>, t: Seq<Instr>, table: Seq<Label>, default: Label)
    requires table.len() < 0xffff_ffff, parts(Seq::<Instr>::empty() + a + m + b + t, table, default, a, m, b)
    ensures #[trigger] correct(Seq::<Instr>::empty() + a + m + b + t, table, default)
{ lem_parts(Seq::<Instr>::empty() + a + m + b + t, table, default, a, m, b); }
pub proof fn lem_big(c: Seq<Instr>, table: Seq<Label>, default: Label)
    requires big(c, table, default), table.len() < 0xffff_ffff
    ensures #[trigger] correct(c, table, default)
{
    broadcast use group_wasabi;
    let n = table.len();
    assert forall|i: i32| observes(c, table, default, i) by {
        let e = Seq::<int>::empty();
        let d = if (i as u32) < n { (i as u32) as nat } else { n };
        lem_enter(c, table, default, i, n + 1);
        let ls = labs(n + 1);
        assert(c[(n + 1) as int] == g0());
        assert(run(c, i, n + 1, e, ls, Mode::Run) == run(c, i, n + 2, e.push(i as int), ls, Mode::Run)) by { reveal(run); }
        let l2 = ls.take(ls.len() - d);
        assert(run(c, i, n + 2, e.push(i as int), ls, Mode::Run) == run(c, i, n + 3, e, l2, Mode::Skip(d))) by {
            reveal(run);
            let s = e.push(i as int);
            assert(s.drop_last() =~= e);
            assert(entry(c[(n + 2) as int]->table@, c[(n + 2) as int]->BrTable_default, s.last() as i32) == d);
            assert(brto(e, ls, d) =~= e);
        }
        lem_skip(c, table, default, i, l2, 0, d);
        let p = n + 3 + 4 * d;
        if d > 0 { lem_seg(c, table, default, d - 1); }
        assert(c[p as int] is End);
        assert(run(c, i, p, e, l2, Mode::Skip(0)) == run(c, i, p + 1, e, l2.drop_last(), Mode::Run)) by { reveal(run); }
        let l3 = l2.drop_last();
        if d < n { lem_seg(c, table, default, d as int); } else { assert(l3.len() == 0); }
        let t = entry(table, default, i);
        assert(c[(p + 1) as int] == g0());
        assert(run(c, i, p + 1, e, l3, Mode::Run) == run(c, i, p + 2, e.push(i as int), l3, Mode::Run)) by { reveal(run); }
        assert(c[(p + 2) as int] == Instr::Const(Val::I32(t as i32)));
        assert(run(c, i, p + 2, e.push(i as int), l3, Mode::Run) == run(c, i, p + 3, e.push(i as int).push(t as i32 as int), l3, Mode::Run)) by { reveal(run); }
        assert(run(c, i, p + 3, e.push(i as int).push(t as i32 as int), l3, Mode::Run) == Some(e.push(i as int).push(t as i32 as int))) by { reveal(run); }
    }
}
/// pieces of one or four instructions, put together
pub broadcast proof fn lem_flat1(l: Seq<Vec<Instr>>, n: nat)
    requires n <= l.len(), forall|j: int| 0 <= j < n ==> (#[trigger] l[j])@.len() == 1
    ensures (#[trigger] flatv(l, n)).len() == n, forall|j: int| 0 <= j < n ==> #[trigger] flatv(l, n)[j] == l[j]@[0]
    decreases n
{ if n > 0 { lem_flat1(l, (n - 1) as nat); } }
pub open spec fn piece(b: Seq<Instr>, j: int) -> Seq<Instr> { b.subrange(4 * j, 4 * j + 4) }
pub broadcast proof fn lem_flat4(l: Seq<Vec<Instr>>, n: nat)
    requires n <= l.len(), forall|j: int| 0 <= j < n ==> (#[trigger] l[j])@.len() == 4
    ensures (#[trigger] flatv(l, n)).len() == 4 * n, forall|j: int| 0 <= j < n ==> #[trigger] piece(flatv(l, n), j) == l[j]@
    decreases n
{
    if n > 0 {
        lem_flat4(l, (n - 1) as nat);
        let a = flatv(l, (n - 1) as nat); let r = flatv(l, n);
        assert(r =~= a + l[n - 1]@);
        assert forall|j: int| 0 <= j < n implies #[trigger] piece(r, j) == l[j]@ by {
            assert(r.subrange(4 * j, 4 * j + 4) =~= l[j]@) by { if j < n - 1 { assert(piece(a, j) == l[j]@); assert(r.subrange(4 * j, 4 * j + 4) =~= a.subrange(4 * j, 4 * j + 4)); } }
        }
    }
}
pub broadcast group group_helper { lem_none, lem_single, lem_concat, lem_flat1, lem_flat4 }
"""

TRK = """
use crate::brspec::*;
// ---- what a hook does to a body; k is the index the next generated function will get ----
pub open spec fn wrap(o: STI, p: Seq<SI>, b: Seq<STI>, q: Seq<SI>) -> Seq<STI> { inj(o, p) + b + inj(o, q) }
/// the branch tables a helper function is generated for, in order
pub open spec fn hso(x: STI, h: Target) -> Seq<(Seq<Label>, Label)> decreases x, 1nat {
    match x.x {
        SI::Table(t, d) => if !x.ins && h is BrTable { seq![(t, d)] } else { Seq::empty() },
        SI::Block(t, a) => hsn(a, h, a.len()),
        SI::Loop(t, a) => hsn(a, h, a.len()),
        SI::If(t, a, None) => hsn(a, h, a.len()),
        SI::If(t, a, Some(b)) => hsn(a, h, a.len()) + hsn(b, h, b.len()),
        _ => Seq::empty(),
    }
}
#[verifier::opaque]
pub open spec fn hsn(s: Seq<STI>, h: Target, n: nat) -> Seq<(Seq<Label>, Label)> decreases s, n {
    if n == 0 || n > s.len() { Seq::empty() } else { hsn(s, h, (n - 1) as nat) + hso(s[n - 1], h) }
}
pub open spec fn hs(s: Seq<STI>, h: Target) -> Seq<(Seq<Label>, Label)> { hsn(s, h, s.len()) }
pub open spec fn oner(x: STI, h: Target, k: nat) -> Seq<STI> decreases x, 1nat {
    if x.ins { seq![downr(x, h, k, Seq::empty(), Seq::empty())] } else {
        match act(h, x, k) {
            Act::Keep => seq![downr(x, h, k, Seq::empty(), Seq::empty())],
            Act::Around(p, q) => inj(x, p) + seq![downr(x, h, k, Seq::empty(), Seq::empty())] + inj(x, q),
            Act::Inside(p, q) => seq![downr(x, h, k, p, q)],
            Act::Replace(p) => inj(x, p),
            Act::Arms(q) => match x.x {
                SI::If(t, a, None) => seq![inj1(x, sif(t, wrap(x, Seq::empty(), seqn(a, h, k, a.len()), q), Some(inj(x, q))))],
                _ => seq![x],
            },
        }
    }
}
pub open spec fn downr(x: STI, h: Target, k: nat, p: Seq<SI>, q: Seq<SI>) -> STI decreases x, 0nat {
    match x.x {
        SI::Block(t, a) => STI { x: sblock(t, wrap(x, p, seqn(a, h, k, a.len()), q)), ..x },
        SI::Loop(t, a) => STI { x: sloop(t, wrap(x, p, seqn(a, h, k, a.len()), q)), ..x },
        SI::If(t, a, None) => STI { x: sif(t, wrap(x, p, seqn(a, h, k, a.len()), q), None), ..x },
        SI::If(t, a, Some(b)) => STI { x: sif(t, wrap(x, p, seqn(a, h, k, a.len()), q), Some(wrap(x, p, seqn(b, h, k + hs(a, h).len(), b.len()), q))), ..x },
        _ => x,
    }
}
#[verifier::opaque]
pub open spec fn seqn(s: Seq<STI>, h: Target, k: nat, n: nat) -> Seq<STI> decreases s, n {
    if n == 0 || n > s.len() { Seq::empty() } else { seqn(s, h, k, (n - 1) as nat) + oner(s[n - 1], h, k + hsn(s, h, (n - 1) as nat).len()) }
}
pub open spec fn tr(s: Seq<STI>, h: Target, k: nat) -> Seq<STI> { seqn(s, h, k, s.len()) }
pub proof fn lem_step(s: Seq<STI>, h: Target, k: nat, n: nat)
    requires n < s.len()
    ensures seqn(s, h, k, n + 1) == seqn(s, h, k, n) + oner(s[n as int], h, k + hsn(s, h, n).len()), hsn(s, h, n + 1) == hsn(s, h, n) + hso1(s[n as int], h)
{ reveal_with_fuel(seqn, 2); reveal_with_fuel(hsn, 2); reveal_with_fuel(hso, 2); }
pub proof fn lem_zero(s: Seq<STI>, h: Target, k: nat)
    ensures seqn(s, h, k, 0) == Seq::<STI>::empty(), hsn(s, h, 0) == Seq::<(Seq<Label>, Label)>::empty()
{ reveal(seqn); reveal(hsn); }
// the same, unfolded once
pub open spec fn hso1(x: STI, h: Target) -> Seq<(Seq<Label>, Label)> {
    match x.x {
        SI::Table(t, d) => if !x.ins && h is BrTable { seq![(t, d)] } else { Seq::empty() },
        SI::Block(t, a) => hs(a, h),
        SI::Loop(t, a) => hs(a, h),
        SI::If(t, a, None) => hs(a, h),
        SI::If(t, a, Some(b)) => hs(a, h) + hs(b, h),
        _ => Seq::empty(),
    }
}
pub open spec fn one(x: STI, h: Target, k: nat) -> Seq<STI> {
    if x.ins { seq![down(x, h, k, Seq::empty(), Seq::empty())] } else {
        match act(h, x, k) {
            Act::Keep => seq![down(x, h, k, Seq::empty(), Seq::empty())],
            Act::Around(p, q) => inj(x, p) + seq![down(x, h, k, Seq::empty(), Seq::empty())] + inj(x, q),
            Act::Inside(p, q) => seq![down(x, h, k, p, q)],
            Act::Replace(p) => inj(x, p),
            Act::Arms(q) => match x.x {
                SI::If(t, a, None) => seq![inj1(x, sif(t, wrap(x, Seq::empty(), tr(a, h, k), q), Some(inj(x, q))))],
                _ => seq![x],
            },
        }
    }
}
pub open spec fn down(x: STI, h: Target, k: nat, p: Seq<SI>, q: Seq<SI>) -> STI {
    match x.x {
        SI::Block(t, a) => STI { x: sblock(t, wrap(x, p, tr(a, h, k), q)), ..x },
        SI::Loop(t, a) => STI { x: sloop(t, wrap(x, p, tr(a, h, k), q)), ..x },
        SI::If(t, a, None) => STI { x: sif(t, wrap(x, p, tr(a, h, k), q), None), ..x },
        SI::If(t, a, Some(b)) => STI { x: sif(t, wrap(x, p, tr(a, h, k), q), Some(wrap(x, p, tr(b, h, k + hs(a, h).len()), q))), ..x },
        _ => x,
    }
}
pub proof fn lem_one(x: STI, h: Target, k: nat)
    ensures oner(x, h, k) == one(x, h, k)
{
    reveal(seqn); reveal(hsn);
    assert forall|p: Seq<SI>, q: Seq<SI>| downr(x, h, k, p, q) == down(x, h, k, p, q) by { reveal_with_fuel(downr, 2); }
    reveal_with_fuel(oner, 2);
}
// ---- the functions added to the module ----
/// a helper function for a branch table
pub open spec fn helper(f: Function, t: (Seq<Label>, Label)) -> bool {
    f.type_ == fty(seq![ValType::I32], seq![ValType::I32, ValType::I32]) && f.export@.len() == 0 && f.code is Present && (t.0.len() < 0xffff_ffff ==> correct(f.code->Present_0.body@, t.0, t.1))
}
pub closed spec fn grew(a: Module, b: Module, l: Seq<(Seq<Label>, Label)>) -> bool {
    &&& b.functions@.len() == a.functions@.len() + l.len()
    &&& forall|i: int| 0 <= i < a.functions@.len() ==> #[trigger] b.functions@[i] == a.functions@[i]
    &&& forall|i: int| a.functions@.len() <= i < b.functions@.len() ==> helper(#[trigger] b.functions@[i], l[i - a.functions@.len()])
    &&& b.memories == a.memories && b.tables == a.tables && b.elements == a.elements
}
pub broadcast proof fn lem_grew_len(a: Module, b: Module, l: Seq<(Seq<Label>, Label)>)
    requires #[trigger] grew(a, b, l)
    ensures b.functions@.len() == a.functions@.len() + l.len()
{ }
/// the same, while a body is being transformed
pub closed spec fn upto(a: Module, b: Module, l: Seq<(Seq<Label>, Label)>) -> bool { grew(a, b, l) }
pub proof fn lem_up_zero(a: Module)
    ensures upto(a, a, Seq::empty())
{ }
pub proof fn lem_up_end(a: Module, b: Module, l: Seq<(Seq<Label>, Label)>)
    requires upto(a, b, l)
    ensures grew(a, b, l)
{ }
pub broadcast proof fn lem_up_len(a: Module, b: Module, l: Seq<(Seq<Label>, Label)>)
    requires #[trigger] upto(a, b, l)
    ensures b.functions@.len() == a.functions@.len() + l.len()
{ }
pub broadcast proof fn lem_up_add(a: Module, b: Module, c: Module, l: Seq<(Seq<Label>, Label)>, t: Seq<Label>, d: Label)
    requires #[trigger] upto(a, b, l), c.functions@.len() == b.functions@.len() + 1, c.functions@.drop_last() =~= b.functions@, helper(c.functions@.last(), (t, d)),
        c.memories == b.memories, c.tables == b.tables, c.elements == b.elements,
    ensures #[trigger] upto(a, c, l + seq![(t, d)])
{
    assert forall|i: int| 0 <= i < b.functions@.len() implies #[trigger] c.functions@[i] == b.functions@[i] by { assert(c.functions@.drop_last()[i] == c.functions@[i]); }
}
pub broadcast proof fn lem_up_trans(a: Module, b: Module, c: Module, l: Seq<(Seq<Label>, Label)>, m: Seq<(Seq<Label>, Label)>)
    requires #[trigger] upto(a, b, l), #[trigger] grew(b, c, m)
    ensures upto(a, c, l + m)
{ }
pub broadcast proof fn lem_up_ext(a: Module, b: Module, l: Seq<(Seq<Label>, Label)>, m: Seq<(Seq<Label>, Label)>)
    requires #[trigger] upto(a, b, l), l =~= m
    ensures #[trigger] upto(a, b, m)
{ }
pub broadcast group group_grew { lem_grew_len, lem_up_len, lem_up_add, lem_up_trans, lem_up_ext }
"""
ACT = f"""
pub open spec fn act(h: Target, x: STI, k: nat) -> Act {{
    match (h, x.x) {{
        (Target::Br(f), SI::Leaf(Instr::Br(l))) => Act::Around(seq![c64(l.v as int)] + hookcall(x, f), Seq::empty()),
        (Target::BrIf(f), SI::Leaf(Instr::BrIf(l))) => Act::Around(seq![c32(l.v as int)] + hookcall(x, f), Seq::empty()),
        (Target::BrTable(f), SI::Table(t, d)) => Act::Around(seq![SI::Leaf(Instr::Call(mk(k as u32))), c32(d.v as int)] + hookcall(x, f), Seq::empty()),
        (Target::IfThen(f), SI::If(t, _, None)) => Act::Around({CNT} + hookcall(x, f), Seq::empty()),
        (Target::IfThenPost(f), SI::If(t, _, None)) => Act::Arms(hookcall(x, f)),
        (Target::IfThenElse(f), SI::If(t, _, Some(_))) => Act::Around({CNT} + hookcall(x, f), Seq::empty()),
        (Target::IfThenElsePost(f), SI::If(t, _, Some(_))) => Act::Inside(Seq::empty(), hookcall(x, f)),
        _ => Act::Keep,
    }}
}}
"""
B = "instrument::branch_if"
G = B + "::generate_branch_table"
LIB2 = """@@raw vxlib
pub open spec fn flatv<B>(s: Seq<Vec<B>>, n: nat) -> Seq<B> decreases n {
    if n == 0 || n > s.len() { Seq::empty() } else { flatv(s, (n - 1) as nat) + s[n - 1]@ }
}
// Trusted: to_vec clones the elements, into_boxed_slice keeps them
pub assume_specification<T: Clone> [<[T]>::to_vec](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned(s@[i], #[trigger] r@[i]);
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::into_boxed_slice](v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;
// Trusted: flat_map, collected, is the concatenation of the results in order
#[verifier::external_body]
pub fn flat_map_vec<I: Iterator, B, F: Fn(I::Item) -> Vec<B>>(it: I, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < IteratorSpec::remaining(&it).len() ==> call_requires(f, (#[trigger] IteratorSpec::remaining(&it)[i],))
    ensures exists|l: Seq<Vec<B>>| #![trigger flatv(l, l.len())] l.len() == IteratorSpec::remaining(&it).len() && r@ == flatv(l, l.len())
        && forall|i: int| 0 <= i < l.len() ==> call_ensures(f, (IteratorSpec::remaining(&it)[i],), #[trigger] l[i])
{ it.flat_map(|x| f(x)).collect() }
// Trusted: map with From::from, collected
#[verifier::external_body]
pub fn map_into<I: Iterator, B: From<I::Item>>(it: I) -> (r: Vec<B>)
    ensures r@.len() == IteratorSpec::remaining(&it).len(),
        <B as vstd::std_specs::convert::FromSpec<I::Item>>::obeys_from_spec() ==> forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == <B as vstd::std_specs::convert::FromSpec<I::Item>>::from_spec(IteratorSpec::remaining(&it)[i])
{ it.map(|x| B::from(x)).collect() }
"""
UNIT = HEAD.replace("@@raw vxlib\n", "@@raw vxlib\n", 1) + BRSPEC + LIB2 + STRAT + f"""
@@module {B} wastrumentation/src/instrument/branch_if.rs
@@module {G} wastrumentation/src/instrument/branch_if/generate_branch_table.rs
@@derive {B}::Target Clone, Copy
@@derive {G}::BrTable
@@raw {B}
{USES.replace('group_ints}','group_ints, crate::hspec::group_grew, crate::brspec::lem_correct_ext}')}
use crate::brspec::*;
@@raw {G}
use crate::brspec::*;
broadcast use {{crate::wasabi_wasm::group_wasabi, group_helper}};
@@raw hspec
use crate::view::*;
use crate::{B}::Target;
use crate::parse_nesting::HighLevelInstr as Instr;
use crate::wasabi_wasm::*;
{ACT}
{erase('!(h is IfThenPost)', True)}
{TRK}
@@fn {G}::<ReifiedforBrTable>::reify
@contract
    ensures self.table@.len() < 0xffff_ffff ==> correct(r.body@, self.table@, self.default), // [C31]
@@fn {G}::BrTable::generate_body
@contract
    ensures self.table@.len() < 0xffff_ffff ==> correct(r@, self.table@, self.default), // [C31]
@closure 0
types &Label
ret (v: Vec<Instr>)
ensures v@ =~= seq![Instr::Block(nothing())],
@closure 1
types &Label
ret (v: Vec<Instr>)
ensures v@ =~= seg(*$0),
@@fn {G}::BrTable::to_br_table_for_generation
@contract
    ensures r is BrTable && r->BrTable_default.v == self.table@.len() as u32 && r->table@.len() == self.table@.len()
        && forall|j: int| 0 <= j < self.table@.len() ==> (#[trigger] r->table@[j]).v == j as u32, // [C31]
@@fn {B}::<TransformationStrategyforTarget>::transform
@contract
    ensures vs(r.0@) == tr(vs($p1.0@), *self, old($p2).functions@.len()), // [C26] [C22?] [C23?]
        grew(*old($p2), *final($p2), hs(vs($p1.0@), *self)), // [C31] [C26] [C22?] [C23?] [C42?]
@@fn {B}::transform
@attr
#[verifier::exec_allows_no_decreases_clause]
@contract
    ensures vs(r@) == tr(vs($p0@), $p1, old($p2).functions@.len()), // [C26] [C22?] [C23?]
        grew(*old($p2), *final($p2), hs(vs($p0@), $p1)), // [C31] [C26] [C22?] [C23?]
@lbefore 0
proof {{ lem_zero(vs($p0@), $p1, old($p2).functions@.len()); lem_up_zero(*old($p2)); }}
@loop 0
invariant all0.len() == $p0@.len(), forall|k: int| 0 <= k < all0.len() ==> *(#[trigger] all0[k]) == $p0@[k],
   vs(result@) =~= seqn(vs($p0@), $p1, old($p2).functions@.len(), idx0 as nat), // [C26] [C22?] [C23?]
   upto(*old($p2), *$p2, hsn(vs($p0@), $p1, idx0 as nat)), // [C31] [C26] [C22?] [C23?]
@lstart 0
proof {{ lem_step(vs($p0@), $p1, old($p2).functions@.len(), (idx0 - 1) as nat); assert(vs($p0@)[idx0 - 1] == vt(*x0)); lem_one(vt(*x0), $p1, $p2.functions@.len()); }}
@lafter 0
proof {{ lem_up_end(*old($p2), *$p2, hs(vs($p0@), $p1)); }}
@lcases 0
x0.instr is BrTable
x0.instr is Br || x0.instr is BrIf
x0.instr is If
x0.instr is Block || x0.instr is Loop
"""
if __name__ == "__main__":
    open("hooks_branch.vu", "w").write(UNIT)
