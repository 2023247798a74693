"""C32: the injected memory helpers (run from units/: python3 gen_memh.py > memh.vu)"""
import subprocess
loads = [("instrumented_base_load_i32", "I32Load", "I32"), ("instrumented_base_load_i64", "I64Load", "I64"), ("instrumented_base_load_f32", "F32Load", "F32"), ("instrumented_base_load_f64", "F64Load", "F64"),
  ("instrumented_base_load_i32_8S", "I32Load8S", "I32"), ("instrumented_base_load_i32_8U", "I32Load8U", "I32"), ("instrumented_base_load_i32_16S", "I32Load16S", "I32"), ("instrumented_base_load_i32_16U", "I32Load16U", "I32"),
  ("instrumented_base_load_i64_8S", "I64Load8S", "I64"), ("instrumented_base_load_i64_8U", "I64Load8U", "I64"), ("instrumented_base_load_i64_16S", "I64Load16S", "I64"), ("instrumented_base_load_i64_16U", "I64Load16U", "I64"), ("instrumented_base_load_i64_32S", "I64Load32S", "I64"), ("instrumented_base_load_i64_32U", "I64Load32U", "I64")]
stores = [("instrumented_base_store_i32", "I32Store", "I32"), ("instrumented_base_store_i64", "I64Store", "I64"), ("instrumented_base_store_f32", "F32Store", "F32"), ("instrumented_base_store_f64", "F64Store", "F64"),
  ("instrumented_base_store_i32_8", "I32Store8", "I32"), ("instrumented_base_store_i32_16", "I32Store16", "I32"), ("instrumented_base_store_i64_8", "I64Store8", "I64"), ("instrumented_base_store_i64_16", "I64Store16", "I64"), ("instrumented_base_store_i64_32", "I64Store32", "I64")]
def tab(f, l, mk, ty, els): return f"pub open spec fn {f}(k: int) -> {ty} {{ " + " else ".join(f"if k == {i} {{ {mk(x)} }}" for i, x in enumerate(l[:-1])) + f" else {{ {mk(l[-1])} }} }}"
SPEC = r"""
@@include lib.vu
@@include wasabi.vu
@@module memory wastrumentation/src/instrument/memory.rs
@@only memory inject_memory_loads; inject_memory_stores; inject_memory_grow; inject_memory_size
@@map wasabi_wasm crate::wasabi_wasm
@@drop memory::use*
@@raw wasabi_wasm
// Trusted: the zero of a number type; the memory argument without offset; access to a function of the module by its index
pub uninterp spec fn zero(t: ValType) -> Val;
pub uninterp spec fn align<T>(op: T) -> u8; // the largest valid alignment of an access
impl ValType { #[verifier::external_body] pub fn zero(&self) -> (r: Val) requires !(*self is Ref) ensures r == zero(*self) { unimplemented!() } }
impl Memarg { #[verifier::external_body] pub fn default<T>(op: T) -> (r: Memarg) ensures r.offset == 0, r.alignment_exp_bytes == align(op) { unimplemented!() } }
impl Module {
    #[verifier::external_body]
    pub fn function_mut(&mut self, i: Idx<Function>) -> (r: &mut Function)
        requires i.n() < old(self).functions@.len()
        ensures *r == old(self).functions@[i.n() as int], final(self).functions@ == old(self).functions@.update(i.n() as int, *final(r)),
            final(self).memories == old(self).memories, final(self).tables == old(self).tables, final(self).elements == old(self).elements,
    { unimplemented!() }
}
@@raw helperspec
use crate::wasabi_wasm::*;
// ---- what a helper does: its straight-line code, run on symbolic arguments ----
pub enum V { Arg(u32), Const(Val), Add(Box<V>, Box<V>), Load(LoadOp, u32, Box<V>), Size, Grow(Box<V>) }
/// an effect on the memory, in order
pub enum Eff { Store(StoreOp, u32, V, V), Load(LoadOp, u32, V), Grow(V) }
#[verifier::opaque]
pub open spec fn sym(c: Seq<Instr>, pc: nat, s: Seq<V>, e: Seq<Eff>) -> Option<(Seq<V>, Seq<Eff>)> decreases c.len() - pc {
    if pc >= c.len() { None } else { match c[pc as int] {
        Instr::End => Some((s, e)),
        Instr::Nop => sym(c, pc + 1, s, e),
        Instr::Const(v) => sym(c, pc + 1, s.push(V::Const(v)), e),
        Instr::Local(LocalOp::Get, l) => sym(c, pc + 1, s.push(V::Arg(l.n())), e),
        Instr::Binary(BinaryOp::I32Add) => if s.len() < 2 { None } else { sym(c, pc + 1, s.drop_last().drop_last().push(V::Add(Box::new(s[s.len() - 2]), Box::new(s.last()))), e) },
        Instr::Load(op, a) => if s.len() < 1 || a.alignment_exp_bytes > align(op) { None } else { sym(c, pc + 1, s.drop_last().push(V::Load(op, a.offset, Box::new(s.last()))), e.push(Eff::Load(op, a.offset, s.last()))) },
        Instr::Store(op, a) => if s.len() < 2 || a.alignment_exp_bytes > align(op) { None } else { sym(c, pc + 1, s.drop_last().drop_last(), e.push(Eff::Store(op, a.offset, s[s.len() - 2], s.last()))) },
        Instr::MemorySize(m) => if m.n() != 0 { None } else { sym(c, pc + 1, s.push(V::Size), e) },
        Instr::MemoryGrow(m) => if m.n() != 0 || s.len() < 1 { None } else { sym(c, pc + 1, s.drop_last().push(V::Grow(Box::new(s.last()))), e.push(Eff::Grow(s.last()))) },
        _ => None,
    } }
}
pub open spec fn does(f: Function) -> Option<(Seq<V>, Seq<Eff>)> { if f.code is Present { sym(f.code->Present_0.body@, 0, Seq::empty(), Seq::empty()) } else { None } }
pub open spec fn only_export(f: Function, name: Seq<char>) -> bool { f.export@.len() == 1 && f.export@[0]@ == name }
/// pointer plus offset, in either order
pub open spec fn is_sum(v: V, a: u32, b: u32) -> bool { v matches V::Add(x, y) && ((*x == V::Arg(a) && *y == V::Arg(b)) || (*x == V::Arg(b) && *y == V::Arg(a))) }
#[verifier::opaque]
pub open spec fn is_load(f: Function, memory: bool, k: int) -> bool {
    let (op, t) = (load_op(k), load_type(k));
    &&& f.type_ == fty(seq![ValType::I32, ValType::I32], seq![t])
    &&& only_export(f, load_name(k))
    &&& does(f) matches Some(d) && if memory { d.0.len() == 1 && d.1.len() == 1 && (d.1[0] matches Eff::Load(o, n, a) && o == op && n == 0 && is_sum(a, 0, 1) && d.0[0] == V::Load(op, 0, Box::new(a))) } else { d.0 =~= seq![V::Const(zero(t))] && d.1.len() == 0 }
}
#[verifier::opaque]
pub open spec fn is_store(f: Function, memory: bool, k: int) -> bool {
    let (op, t) = (store_op(k), store_type(k));
    &&& f.type_ == fty(seq![ValType::I32, t, ValType::I32], Seq::empty())
    &&& only_export(f, store_name(k))
    &&& does(f) matches Some(d) && d.0.len() == 0 && if memory { d.1.len() == 1 && (d.1[0] matches Eff::Store(o, n, a, v) && o == op && n == 0 && is_sum(a, 0, 2) && v == V::Arg(1)) } else { d.1.len() == 0 }
}
#[verifier::opaque]
pub open spec fn is_grow(f: Function, memory: bool) -> bool {
    &&& f.type_ == fty(seq![ValType::I32, ValType::I32], seq![ValType::I32])
    &&& only_export(f, "instrumented_memory_grow"@)
    &&& does(f) matches Some(d) && if memory { d.0 =~= seq![V::Grow(Box::new(V::Arg(0)))] && d.1 =~= seq![Eff::Grow(V::Arg(0))] } else { d.0 =~= seq![V::Const(Val::I32(-1i32))] && d.1.len() == 0 }
}
#[verifier::opaque]
pub open spec fn is_size(f: Function, memory: bool) -> bool {
    &&& f.type_ == fty(seq![ValType::I32], seq![ValType::I32])
    &&& only_export(f, "instrumented_memory_size"@)
    &&& does(f) matches Some(d) && d.1.len() == 0 && if memory { d.0 =~= seq![V::Size] } else { d.0 =~= seq![V::Const(Val::I32(0))] }
}
/// only functions are added, and n of them
pub open spec fn grown(m0: Module, m1: Module, n: int) -> bool {
    &&& m1.functions@.len() == m0.functions@.len() + n
    &&& forall|i: int| 0 <= i < m0.functions@.len() ==> #[trigger] m1.functions@[i] == m0.functions@[i]
    &&& m1.memories == m0.memories && m1.tables == m0.tables && m1.elements == m0.elements
}
pub open spec fn has_memory(m: Module) -> bool { m.memories@.len() > 0 }

#[verifier::opaque]
pub open spec fn load_table(t: Seq<(&str, LoadOp, ValType)>) -> bool { t.len() == loads() && forall|k: int| 0 <= k < loads() ==> (#[trigger] t[k]).0@ == load_name(k) && t[k].1 == load_op(k) && t[k].2 == load_type(k) }
#[verifier::opaque]
pub open spec fn store_table(t: Seq<(&str, StoreOp, ValType)>) -> bool { t.len() == stores() && forall|k: int| 0 <= k < stores() ==> (#[trigger] t[k]).0@ == store_name(k) && t[k].1 == store_op(k) && t[k].2 == store_type(k) }
pub open spec fn load_step(m0: Module, m1: Module, n: int) -> bool { grown(m0, m1, n) && forall|k: int| 0 <= k < n ==> is_load(#[trigger] m1.functions@[m0.functions@.len() + k], has_memory(m0), k) }
pub open spec fn store_step(m0: Module, m1: Module, n: int) -> bool { grown(m0, m1, n) && forall|k: int| 0 <= k < n ==> is_store(#[trigger] m1.functions@[m0.functions@.len() + k], has_memory(m0), k) }
"""
print(SPEC)
for nm, l in (("load", loads), ("store", stores)):
    p = "LoadOp" if nm == "load" else "StoreOp"
    print(f"pub open spec fn {nm}s() -> int {{ {len(l)} }}")
    print(tab(f"{nm}_name", l, lambda x: f'"{x[0]}"@', "Seq<char>", ""))
    print(tab(f"{nm}_op", l, lambda x: f"{p}::{x[1]}", p, ""))
    print(tab(f"{nm}_type", l, lambda x: f"ValType::{x[2]}", "ValType", ""))
print(r"""
pub proof fn lem_loaded(f: Function, k: int, memory: bool)
    requires 0 <= k < loads(), f.type_ == fty(seq![ValType::I32, ValType::I32], seq![load_type(k)]), only_export(f, load_name(k)), f.code is Present,
        memory ==> ({ let c = f.code->Present_0.body@; c.len() == 5 && c[0] == Instr::Local(LocalOp::Get, mk(0)) && c[1] == Instr::Local(LocalOp::Get, mk(1)) && c[2] == Instr::Binary(BinaryOp::I32Add) && (c[3] matches Instr::Load(op, a) && op == load_op(k) && a.offset == 0 && a.alignment_exp_bytes == align(op)) && c[4] is End }),
        !memory ==> f.code->Present_0.body@ =~= seq![Instr::Const(zero(load_type(k))), Instr::End]
    ensures is_load(f, memory, k)
{
    broadcast use group_wasabi;
    reveal(is_load); reveal_with_fuel(sym, 6);
    let c = f.code->Present_0.body@;
    if !memory { assert(c[0] == Instr::Const(zero(load_type(k)))); assert(c[1] is End); }
    else {
        let s1 = Seq::<V>::empty().push(V::Arg(0)); let s2 = s1.push(V::Arg(1));
        assert(s2.drop_last() =~= s1); assert(s1.drop_last() =~= Seq::empty());
        let a = V::Add(Box::new(V::Arg(0)), Box::new(V::Arg(1)));
        assert(is_sum(a, 0, 1));
        let s3 = Seq::<V>::empty().push(a);
        assert(s3.drop_last() =~= Seq::empty());
    }
}
pub proof fn lem_stored(f: Function, k: int, memory: bool)
    requires 0 <= k < stores(), f.type_ == fty(seq![ValType::I32, store_type(k), ValType::I32], Seq::empty()), only_export(f, store_name(k)), f.code is Present,
        memory ==> ({ let c = f.code->Present_0.body@; c.len() == 6 && c[0] == Instr::Local(LocalOp::Get, mk(0)) && c[1] == Instr::Local(LocalOp::Get, mk(2)) && c[2] == Instr::Binary(BinaryOp::I32Add) && c[3] == Instr::Local(LocalOp::Get, mk(1)) && (c[4] matches Instr::Store(op, a) && op == store_op(k) && a.offset == 0 && a.alignment_exp_bytes == align(op)) && c[5] is End }),
        !memory ==> f.code->Present_0.body@ =~= seq![Instr::End]
    ensures is_store(f, memory, k)
{
    broadcast use group_wasabi;
    reveal(is_store); reveal_with_fuel(sym, 7);
    let c = f.code->Present_0.body@;
    if !memory { assert(c[0] is End); }
    else {
        let s1 = Seq::<V>::empty().push(V::Arg(0)); let s2 = s1.push(V::Arg(2));
        assert(s2.drop_last() =~= s1); assert(s1.drop_last() =~= Seq::empty());
        let a = V::Add(Box::new(V::Arg(0)), Box::new(V::Arg(2)));
        assert(is_sum(a, 0, 2));
        let s3 = Seq::<V>::empty().push(a); let s4 = s3.push(V::Arg(1));
        assert(s4.drop_last() =~= s3);
        assert(s3.drop_last() =~= Seq::empty());
    }
}
pub proof fn lem_grow(f: Function, memory: bool)
    requires f.type_ == fty(seq![ValType::I32, ValType::I32], seq![ValType::I32]), only_export(f, "instrumented_memory_grow"@), f.code is Present,
        memory ==> f.code->Present_0.body@ =~= seq![Instr::Local(LocalOp::Get, mk(0)), Instr::MemoryGrow(mk(0)), Instr::End],
        !memory ==> f.code->Present_0.body@ =~= seq![Instr::Const(Val::I32(-1i32)), Instr::End]
    ensures is_grow(f, memory)
{
    broadcast use group_wasabi;
    reveal(is_grow); reveal_with_fuel(sym, 4);
    let s1 = Seq::<V>::empty().push(V::Arg(0)); assert(s1.drop_last() =~= Seq::empty());
}
pub proof fn lem_size(f: Function, memory: bool)
    requires f.type_ == fty(seq![ValType::I32], seq![ValType::I32]), only_export(f, "instrumented_memory_size"@), f.code is Present,
        memory ==> f.code->Present_0.body@ =~= seq![Instr::MemorySize(mk(0)), Instr::End],
        !memory ==> f.code->Present_0.body@ =~= seq![Instr::Const(Val::I32(0)), Instr::End]
    ensures is_size(f, memory)
{ broadcast use group_wasabi; reveal(is_size); reveal_with_fuel(sym, 4); }
@@raw memory
use crate::helperspec::*;
use crate::wasabi_wasm::*;
broadcast use group_wasabi;
@@fn memory::inject_memory_loads
@contract
    requires old($p0).memories@.len() <= 1, old($p0).functions@.len() < 0xffff_0000,
    ensures grown(*old($p0), *final($p0), loads()), // [C32?] [C42?]
        load_step(*old($p0), *final($p0), loads()), // [C32?]
@loop 0
invariant load_table(all0), old($p0).memories@.len() <= 1, old($p0).functions@.len() < 0xffff_0000, load_step(*old($p0), *$p0, idx0),
@lbefore 0
    proof { reveal(load_table); }
@lstart 0
    proof { reveal(load_table); assert(x0 == all0[idx0 - 1]); }
    let ghost m1 = *$p0;
@lend 0
    proof {
        reveal(load_table); let k = idx0 - 1; assert(x0 == all0[k]);
        lem_loaded($p0.functions@.last(), k, has_memory(*old($p0)));
        assert(forall|i: int| 0 <= i < m1.functions@.len() ==> #[trigger] $p0.functions@[i] == m1.functions@[i]);
        assert(grown(*old($p0), *$p0, idx0));
        assert forall|q: int| 0 <= q < idx0 implies is_load(#[trigger] $p0.functions@[old($p0).functions@.len() + q], has_memory(*old($p0)), q) by { if q < k { assert($p0.functions@[old($p0).functions@.len() + q] == m1.functions@[old($p0).functions@.len() + q]); } }
    }
@@fn memory::inject_memory_stores
@contract
    requires old($p0).memories@.len() <= 1, old($p0).functions@.len() < 0xffff_0000,
    ensures grown(*old($p0), *final($p0), stores()), // [C32?] [C42?]
        store_step(*old($p0), *final($p0), stores()), // [C32?]
@loop 0
invariant store_table(all0), old($p0).memories@.len() <= 1, old($p0).functions@.len() < 0xffff_0000, store_step(*old($p0), *$p0, idx0),
@lbefore 0
    proof { reveal(store_table); }
@lstart 0
    proof { reveal(store_table); assert(x0 == all0[idx0 - 1]); }
    let ghost m1 = *$p0;
@lend 0
    proof {
        reveal(store_table); let k = idx0 - 1; assert(x0 == all0[k]);
        lem_stored($p0.functions@.last(), k, has_memory(*old($p0)));
        assert(forall|i: int| 0 <= i < m1.functions@.len() ==> #[trigger] $p0.functions@[i] == m1.functions@[i]);
        assert(grown(*old($p0), *$p0, idx0));
        assert forall|q: int| 0 <= q < idx0 implies is_store(#[trigger] $p0.functions@[old($p0).functions@.len() + q], has_memory(*old($p0)), q) by { if q < k { assert($p0.functions@[old($p0).functions@.len() + q] == m1.functions@[old($p0).functions@.len() + q]); } }
    }
@@fn memory::inject_memory_grow
@contract
    requires old($p0).memories@.len() <= 1, old($p0).functions@.len() < 0xffff_0000,
    ensures grown(*old($p0), *final($p0), 1), // [C32?] [C42?]
        is_grow(final($p0).functions@[old($p0).functions@.len() as int], has_memory(*old($p0))), // [C32?]
@end
    proof { let f = $p0.functions@.last(); assert(f.export@.len() == 1); lem_grow(f, has_memory(*old($p0))); }
@@fn memory::inject_memory_size
@contract
    requires old($p0).memories@.len() <= 1, old($p0).functions@.len() < 0xffff_0000,
    ensures grown(*old($p0), *final($p0), 1), // [C32?] [C42?]
        is_size(final($p0).functions@[old($p0).functions@.len() as int], has_memory(*old($p0))), // [C32?]
@end
    proof { let f = $p0.functions@.last(); assert(f.export@.len() == 1); lem_size(f, has_memory(*old($p0))); }
""")
