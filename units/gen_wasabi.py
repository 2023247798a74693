#!/usr/bin/env python3
"""the trusted picture of the wasabi_wasm types used by the code under contract (units/wasabi.vu)"""
import re
UN = """I32Eqz I64Eqz I32Clz I32Ctz I32Popcnt I64Clz I64Ctz I64Popcnt F32Abs F32Neg F32Ceil F32Floor F32Trunc F32Nearest F32Sqrt
F64Abs F64Neg F64Ceil F64Floor F64Trunc F64Nearest F64Sqrt I32WrapI64 I32TruncF32S I32TruncF32U I32TruncF64S I32TruncF64U
I32TruncSatF32S I32TruncSatF32U I32TruncSatF64S I32TruncSatF64U I64ExtendI32S I64ExtendI32U I64TruncF32S I64TruncF32U I64TruncF64S
I64TruncF64U I64TruncSatF32S I64TruncSatF32U I64TruncSatF64S I64TruncSatF64U F32ConvertI32S F32ConvertI32U F32ConvertI64S
F32ConvertI64U F32DemoteF64 F64ConvertI32S F64ConvertI32U F64ConvertI64S F64ConvertI64U F64PromoteF32 I32ReinterpretF32
I64ReinterpretF64 F32ReinterpretI32 F64ReinterpretI64 I32Extend8S I32Extend16S I64Extend8S I64Extend16S I64Extend32S""".split()
def cmpi(t): return [t + x for x in "Eq Ne LtS LtU GtS GtU LeS LeU GeS GeU".split()]
def cmpf(t): return [t + x for x in "Eq Ne Lt Gt Le Ge".split()]
def ari(t): return [t + x for x in "Add Sub Mul DivS DivU RemS RemU And Or Xor Shl ShrS ShrU Rotl Rotr".split()]
def arf(t): return [t + x for x in "Add Sub Mul Div Min Max Copysign".split()]
BIN = cmpi("I32") + cmpi("I64") + cmpf("F32") + cmpf("F64") + ari("I32") + ari("I64") + arf("F32") + arf("F64")
STORE = "I32Store I64Store F32Store F64Store I32Store8 I32Store16 I64Store8 I64Store16 I64Store32".split()
LOAD = "I32Load I64Load F32Load F64Load I32Load8S I32Load8U I32Load16S I32Load16U I64Load8S I64Load8U I64Load16S I64Load16U I64Load32S I64Load32U".split()

def un_ty(o):
    """operand and result type of a unary operator, from its WebAssembly name"""
    r = o[:3]
    if o.endswith("Eqz"): return r, "I32"
    m = re.search(r"(Wrap|Trunc|TruncSat|Extend|Convert|Demote|Promote|Reinterpret)([IF]\d\d)[SU]?$", o)
    if m: return m.group(2), r
    return r, r
def bin_ty(o):
    t = o[:3]
    return t, ("I32" if o[3:] in "Eq Ne LtS LtU GtS GtU LeS LeU GeS GeU Lt Gt Le Ge".split() else t)

INSTR = """Unreachable; Nop; Block(FunctionType); Loop(FunctionType); If(FunctionType); Else; End; Br(Label); BrIf(Label);
BrTable { table: Box<[Label]>, default: Label }; Return; Call(Idx<Function>); CallIndirect(FunctionType, Idx<Table>); RefNull(RefType); RefIsNull;
RefFunc(Idx<Function>); Drop; Select; TypedSelect(ValType); Local(LocalOp, Idx<Local>); Global(GlobalOp, Idx<Global>); TableGet(Idx<Table>);
TableSet(Idx<Table>); TableSize(Idx<Table>); TableGrow(Idx<Table>); TableFill(Idx<Table>); TableCopy(Idx<Table>, Idx<Table>);
TableInit(Idx<Table>, Idx<Element>); ElemDrop(Idx<Element>); Load(LoadOp, Memarg); Store(StoreOp, Memarg); MemorySize(Idx<Memory>);
MemoryGrow(Idx<Memory>); MemoryFill; MemoryCopy; MemoryInit(Idx<Data>); DataDrop(Idx<Data>); Const(Val); Unary(UnaryOp); Binary(BinaryOp)"""
INSTR = [x.strip() for x in INSTR.replace("\n", " ").split(";")]

MOD = """
pub enum ImportOrPresent<T> { Import(String, String), Present(T) }
pub struct Function { pub type_: FunctionType, pub code: ImportOrPresent<Code>, pub export: Vec<String>, pub name: Option<String> }
pub struct Module { pub functions: Vec<Function>, pub memories: Vec<Memory>, pub tables: Vec<Table>, pub elements: Vec<Element> }
// Trusted: a function is added at the end and gets the next index
pub open spec fn newfn(f: Function, t: FunctionType, locals: Seq<ValType>, body: Seq<Instr>) -> bool {
    f.type_ == t && f.export@.len() == 0 && f.code is Present && f.code->Present_0.body@ == body
        && f.code->Present_0.locals@.len() == locals.len() && forall|i: int| 0 <= i < locals.len() ==> (#[trigger] f.code->Present_0.locals@[i]).type_ == locals[i]
}
impl Module {
    #[verifier::external_body]
    pub fn add_function(&mut self, t: FunctionType, locals: Vec<ValType>, body: Vec<Instr>) -> (r: Idx<Function>)
        ensures r.n() == old(self).functions@.len(), final(self).functions@.len() == old(self).functions@.len() + 1,
            final(self).functions@.drop_last() =~= old(self).functions@, newfn(final(self).functions@.last(), t, locals@, body@),
            final(self).memories == old(self).memories, final(self).tables == old(self).tables, final(self).elements == old(self).elements,
    { unimplemented!() }
}
"""
def enum(n, vs):
    return f"#[derive(Clone, Copy)] pub enum {n} {{ {', '.join(vs)} }}\n"

def table(fname, ty, rows, out):
    """a spec function given by a table"""
    groups = {}
    for o, v in rows:
        groups.setdefault(v, []).append(o)
    arms = "".join("        " + " | ".join(f"{ty}::{o}" for o in os) + f" => {v},\n" for v, os in groups.items())
    return f"pub open spec fn {fname}(o: {ty}) -> {out} {{\n    match o {{\n{arms}    }}\n}}\n"

def text():
    t = """@@raw wasabi_wasm
// Trusted: the data types of the wasabi_wasm crate, with the meaning of the few operations on them that are used.
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Idx<T> { v: u32, t: core::marker::PhantomData<T> }
impl<T> Clone for Idx<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for Idx<T> {}
pub uninterp spec fn mk<T>(n: u32) -> Idx<T>;
impl<T> Idx<T> {
    pub uninterp spec fn n(&self) -> u32;
    #[verifier::external_body] pub fn to_u32(&self) -> (r: u32) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body] pub fn to_usize(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
}
// an index is its number
pub broadcast axiom fn axiom_idx<T>(n: u32) ensures (#[trigger] mk::<T>(n)).n() == n;
pub broadcast axiom fn axiom_idx_ext<T>(i: Idx<T>) ensures mk::<T>(#[trigger] i.n()) == i;
impl<T> From<u32> for Idx<T> { #[verifier::external_body] fn from(v: u32) -> (r: Self) { unimplemented!() } }
impl<T> vstd::std_specs::convert::FromSpecImpl<u32> for Idx<T> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u32) -> Self { mk(v) } }
// conversions from usize give an index with that number or panic
impl<T> From<usize> for Idx<T> { #[verifier::external_body] fn from(v: usize) -> (r: Self) { unimplemented!() } }
impl<T> vstd::std_specs::convert::FromSpecImpl<usize> for Idx<T> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: usize) -> Self { mk(v as u32) } }
impl<T> PartialEq for Idx<T> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl<T> Eq for Idx<T> {}

#[derive(Clone, Copy)] pub struct Label { pub v: u32 }
impl Label { pub fn to_u32(&self) -> (r: u32) ensures r == self.v { self.v } }
impl From<usize> for Label { #[verifier::external_body] fn from(v: usize) -> (r: Self) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<usize> for Label { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: usize) -> Self { Label { v: v as u32 } } }

#[derive(Clone, Copy)] pub enum RefType { FuncRef, ExternRef }
#[derive(Clone, Copy)] pub enum ValType { I32, I64, F32, F64, Ref(RefType) }
#[derive(Clone, Copy)] pub enum LocalOp { Get, Set, Tee }
#[derive(Clone, Copy)] pub enum GlobalOp { Get, Set }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct F32 { v: u32 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct F64 { v: u64 }
#[derive(Clone, Copy)] pub enum Val { I32(i32), I64(i64), F32(F32), F64(F64) }
#[derive(Clone, Copy)] pub struct Memarg { pub alignment_exp_bytes: u8, pub offset: u32 }

#[verifier::external_body] pub struct FunctionType { t: &'static () }
impl Clone for FunctionType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for FunctionType {}
pub uninterp spec fn fty(ins: Seq<ValType>, outs: Seq<ValType>) -> FunctionType;
impl FunctionType {
    pub uninterp spec fn ins(&self) -> Seq<ValType>;
    pub uninterp spec fn outs(&self) -> Seq<ValType>;
    #[verifier::external_body] pub fn new(i: &[ValType], o: &[ValType]) -> (r: FunctionType) ensures r == fty(i@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn empty() -> (r: FunctionType) ensures r == fty(Seq::empty(), Seq::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn inputs(&self) -> (r: &[ValType]) ensures r@ == self.ins() { unimplemented!() }
    #[verifier::external_body] pub fn results(&self) -> (r: &[ValType]) ensures r@ == self.outs() { unimplemented!() }
}
// a function type is its inputs and results
pub broadcast axiom fn axiom_fty(a: Seq<ValType>, b: Seq<ValType>) ensures (#[trigger] fty(a, b)).ins() == a && fty(a, b).outs() == b;
pub broadcast axiom fn axiom_fty_ext(t: FunctionType) ensures #![trigger t.ins()] #![trigger t.outs()] fty(t.ins(), t.outs()) == t;
pub broadcast proof fn lem_fty_ext(a: Seq<ValType>, b: Seq<ValType>, c: Seq<ValType>, d: Seq<ValType>) ensures a =~= c && b =~= d ==> #[trigger] fty(a, b) == #[trigger] fty(c, d) { }

pub struct Local { pub type_: ValType, pub name: Option<String> }
pub struct Global { x: u8 }
#[derive(Clone, Copy)] pub struct Limits { pub initial_size: u32, pub max_size: Option<u32> }
pub struct Table { pub limits: Limits, pub import: Option<(String, String)>, pub ref_type: RefType, pub export: Vec<String> }
pub enum ElementMode { Passive, Active { table: Idx<Table>, offset: Vec<Instr> }, Declarative }
pub struct Memory { pub limits: Limits, pub import: Option<(String, String)>, pub export: Vec<String> }
pub struct Data { x: u8 }
pub struct Element { pub typ: RefType, pub init: Vec<Vec<Instr>>, pub mode: ElementMode }
"""
    t += enum("UnaryOp", UN) + enum("BinaryOp", BIN) + enum("StoreOp", STORE) + enum("LoadOp", LOAD)
    t += "pub enum Instr { " + ", ".join(INSTR) + " }\n"
    t += MOD
    t += "pub struct Code { pub locals: Vec<Local>, pub body: Vec<Instr> }\n"
    t += "pub broadcast group group_wasabi { axiom_idx, axiom_idx_ext, axiom_fty, axiom_fty_ext, lem_fty_ext }\n"
    t += """@@raw wasabi_wasm::types
use crate::wasabi_wasm::FunctionType;
#[derive(Clone, Copy)] pub enum InferredInstructionType { Reachable(FunctionType), Unreachable }
"""
    return t

if __name__ == "__main__":
    open("wasabi.vu", "w").write(text())
