//! Stand-in for the wasabi_wasm crate, whose source is not available offline: the data types and the few
//! operations the code under test uses. `from_bytes` / `to_bytes` go through a registry instead of the binary format.
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub struct Idx<T>(pub u32, PhantomData<fn() -> T>);
impl<T> Clone for Idx<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for Idx<T> {}
impl<T> PartialEq for Idx<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T> Eq for Idx<T> {}
impl<T> PartialOrd for Idx<T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<T> Ord for Idx<T> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
impl<T> Hash for Idx<T> { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<T> std::fmt::Debug for Idx<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "#{}", self.0) } }
impl<T> Idx<T> { pub fn to_u32(self) -> u32 { self.0 } pub fn to_usize(self) -> usize { self.0 as usize } }
impl<T> From<u32> for Idx<T> { fn from(v: u32) -> Self { Idx(v, PhantomData) } }
impl<T> From<usize> for Idx<T> { fn from(v: usize) -> Self { Idx(u32::try_from(v).unwrap(), PhantomData) } }

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Label(pub u32);
impl std::fmt::Debug for Label { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "L{}", self.0) } }
impl Label { pub fn to_u32(self) -> u32 { self.0 } pub fn to_usize(self) -> usize { self.0 as usize } }
impl From<u32> for Label { fn from(v: u32) -> Self { Label(v) } }
impl From<usize> for Label { fn from(v: usize) -> Self { Label(u32::try_from(v).unwrap()) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum RefType { FuncRef, ExternRef }
impl RefType { pub const ALL: &'static [RefType] = &[RefType::FuncRef, RefType::ExternRef]; }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum ValType { I32, I64, F32, F64, Ref(RefType) }
impl ValType { pub fn zero(&self) -> Val { match self { ValType::I32 => Val::I32(0), ValType::I64 => Val::I64(0), ValType::F32 => Val::F32(F32(0)), ValType::F64 => Val::F64(F64(0)), ValType::Ref(_) => panic!("no zero") } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum LocalOp { Get, Set, Tee }
impl LocalOp { pub const ALL: &'static [LocalOp] = &[LocalOp::Get, LocalOp::Set, LocalOp::Tee]; }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum GlobalOp { Get, Set }
impl GlobalOp { pub const ALL: &'static [GlobalOp] = &[GlobalOp::Get, GlobalOp::Set]; }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct F32(pub u32);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct F64(pub u64);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val { I32(i32), I64(i64), F32(F32), F64(F64) }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Memarg { pub alignment_exp_bytes: u8, pub offset: u32 }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum UnaryOp { I32Eqz, I64Eqz, I32Clz, I32Ctz, I32Popcnt, I64Clz, I64Ctz, I64Popcnt, F32Abs, F32Neg, F32Ceil, F32Floor, F32Trunc, F32Nearest, F32Sqrt, F64Abs, F64Neg, F64Ceil, F64Floor, F64Trunc, F64Nearest, F64Sqrt, I32WrapI64, I32TruncF32S, I32TruncF32U, I32TruncF64S, I32TruncF64U, I32TruncSatF32S, I32TruncSatF32U, I32TruncSatF64S, I32TruncSatF64U, I64ExtendI32S, I64ExtendI32U, I64TruncF32S, I64TruncF32U, I64TruncF64S, I64TruncF64U, I64TruncSatF32S, I64TruncSatF32U, I64TruncSatF64S, I64TruncSatF64U, F32ConvertI32S, F32ConvertI32U, F32ConvertI64S, F32ConvertI64U, F32DemoteF64, F64ConvertI32S, F64ConvertI32U, F64ConvertI64S, F64ConvertI64U, F64PromoteF32, I32ReinterpretF32, I64ReinterpretF64, F32ReinterpretI32, F64ReinterpretI64, I32Extend8S, I32Extend16S, I64Extend8S, I64Extend16S, I64Extend32S }
impl UnaryOp { pub const ALL: &'static [UnaryOp] = &[UnaryOp::I32Eqz, UnaryOp::I64Eqz, UnaryOp::I32Clz, UnaryOp::I32Ctz, UnaryOp::I32Popcnt, UnaryOp::I64Clz, UnaryOp::I64Ctz, UnaryOp::I64Popcnt, UnaryOp::F32Abs, UnaryOp::F32Neg, UnaryOp::F32Ceil, UnaryOp::F32Floor, UnaryOp::F32Trunc, UnaryOp::F32Nearest, UnaryOp::F32Sqrt, UnaryOp::F64Abs, UnaryOp::F64Neg, UnaryOp::F64Ceil, UnaryOp::F64Floor, UnaryOp::F64Trunc, UnaryOp::F64Nearest, UnaryOp::F64Sqrt, UnaryOp::I32WrapI64, UnaryOp::I32TruncF32S, UnaryOp::I32TruncF32U, UnaryOp::I32TruncF64S, UnaryOp::I32TruncF64U, UnaryOp::I32TruncSatF32S, UnaryOp::I32TruncSatF32U, UnaryOp::I32TruncSatF64S, UnaryOp::I32TruncSatF64U, UnaryOp::I64ExtendI32S, UnaryOp::I64ExtendI32U, UnaryOp::I64TruncF32S, UnaryOp::I64TruncF32U, UnaryOp::I64TruncF64S, UnaryOp::I64TruncF64U, UnaryOp::I64TruncSatF32S, UnaryOp::I64TruncSatF32U, UnaryOp::I64TruncSatF64S, UnaryOp::I64TruncSatF64U, UnaryOp::F32ConvertI32S, UnaryOp::F32ConvertI32U, UnaryOp::F32ConvertI64S, UnaryOp::F32ConvertI64U, UnaryOp::F32DemoteF64, UnaryOp::F64ConvertI32S, UnaryOp::F64ConvertI32U, UnaryOp::F64ConvertI64S, UnaryOp::F64ConvertI64U, UnaryOp::F64PromoteF32, UnaryOp::I32ReinterpretF32, UnaryOp::I64ReinterpretF64, UnaryOp::F32ReinterpretI32, UnaryOp::F64ReinterpretI64, UnaryOp::I32Extend8S, UnaryOp::I32Extend16S, UnaryOp::I64Extend8S, UnaryOp::I64Extend16S, UnaryOp::I64Extend32S]; }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum BinaryOp { I32Eq, I32Ne, I32LtS, I32LtU, I32GtS, I32GtU, I32LeS, I32LeU, I32GeS, I32GeU, I64Eq, I64Ne, I64LtS, I64LtU, I64GtS, I64GtU, I64LeS, I64LeU, I64GeS, I64GeU, F32Eq, F32Ne, F32Lt, F32Gt, F32Le, F32Ge, F64Eq, F64Ne, F64Lt, F64Gt, F64Le, F64Ge, I32Add, I32Sub, I32Mul, I32DivS, I32DivU, I32RemS, I32RemU, I32And, I32Or, I32Xor, I32Shl, I32ShrS, I32ShrU, I32Rotl, I32Rotr, I64Add, I64Sub, I64Mul, I64DivS, I64DivU, I64RemS, I64RemU, I64And, I64Or, I64Xor, I64Shl, I64ShrS, I64ShrU, I64Rotl, I64Rotr, F32Add, F32Sub, F32Mul, F32Div, F32Min, F32Max, F32Copysign, F64Add, F64Sub, F64Mul, F64Div, F64Min, F64Max, F64Copysign }
impl BinaryOp { pub const ALL: &'static [BinaryOp] = &[BinaryOp::I32Eq, BinaryOp::I32Ne, BinaryOp::I32LtS, BinaryOp::I32LtU, BinaryOp::I32GtS, BinaryOp::I32GtU, BinaryOp::I32LeS, BinaryOp::I32LeU, BinaryOp::I32GeS, BinaryOp::I32GeU, BinaryOp::I64Eq, BinaryOp::I64Ne, BinaryOp::I64LtS, BinaryOp::I64LtU, BinaryOp::I64GtS, BinaryOp::I64GtU, BinaryOp::I64LeS, BinaryOp::I64LeU, BinaryOp::I64GeS, BinaryOp::I64GeU, BinaryOp::F32Eq, BinaryOp::F32Ne, BinaryOp::F32Lt, BinaryOp::F32Gt, BinaryOp::F32Le, BinaryOp::F32Ge, BinaryOp::F64Eq, BinaryOp::F64Ne, BinaryOp::F64Lt, BinaryOp::F64Gt, BinaryOp::F64Le, BinaryOp::F64Ge, BinaryOp::I32Add, BinaryOp::I32Sub, BinaryOp::I32Mul, BinaryOp::I32DivS, BinaryOp::I32DivU, BinaryOp::I32RemS, BinaryOp::I32RemU, BinaryOp::I32And, BinaryOp::I32Or, BinaryOp::I32Xor, BinaryOp::I32Shl, BinaryOp::I32ShrS, BinaryOp::I32ShrU, BinaryOp::I32Rotl, BinaryOp::I32Rotr, BinaryOp::I64Add, BinaryOp::I64Sub, BinaryOp::I64Mul, BinaryOp::I64DivS, BinaryOp::I64DivU, BinaryOp::I64RemS, BinaryOp::I64RemU, BinaryOp::I64And, BinaryOp::I64Or, BinaryOp::I64Xor, BinaryOp::I64Shl, BinaryOp::I64ShrS, BinaryOp::I64ShrU, BinaryOp::I64Rotl, BinaryOp::I64Rotr, BinaryOp::F32Add, BinaryOp::F32Sub, BinaryOp::F32Mul, BinaryOp::F32Div, BinaryOp::F32Min, BinaryOp::F32Max, BinaryOp::F32Copysign, BinaryOp::F64Add, BinaryOp::F64Sub, BinaryOp::F64Mul, BinaryOp::F64Div, BinaryOp::F64Min, BinaryOp::F64Max, BinaryOp::F64Copysign]; }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum StoreOp { I32Store, I64Store, F32Store, F64Store, I32Store8, I32Store16, I64Store8, I64Store16, I64Store32 }
impl StoreOp { pub const ALL: &'static [StoreOp] = &[StoreOp::I32Store, StoreOp::I64Store, StoreOp::F32Store, StoreOp::F64Store, StoreOp::I32Store8, StoreOp::I32Store16, StoreOp::I64Store8, StoreOp::I64Store16, StoreOp::I64Store32]; }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum LoadOp { I32Load, I64Load, F32Load, F64Load, I32Load8S, I32Load8U, I32Load16S, I32Load16U, I64Load8S, I64Load8U, I64Load16S, I64Load16U, I64Load32S, I64Load32U }
impl LoadOp { pub const ALL: &'static [LoadOp] = &[LoadOp::I32Load, LoadOp::I64Load, LoadOp::F32Load, LoadOp::F64Load, LoadOp::I32Load8S, LoadOp::I32Load8U, LoadOp::I32Load16S, LoadOp::I32Load16U, LoadOp::I64Load8S, LoadOp::I64Load8U, LoadOp::I64Load16S, LoadOp::I64Load16U, LoadOp::I64Load32S, LoadOp::I64Load32U]; }
pub fn un_in(o: UnaryOp) -> ValType { match o { UnaryOp::I32Eqz => ValType::I32, UnaryOp::I64Eqz => ValType::I64, UnaryOp::I32Clz => ValType::I32, UnaryOp::I32Ctz => ValType::I32, UnaryOp::I32Popcnt => ValType::I32, UnaryOp::I64Clz => ValType::I64, UnaryOp::I64Ctz => ValType::I64, UnaryOp::I64Popcnt => ValType::I64, UnaryOp::F32Abs => ValType::F32, UnaryOp::F32Neg => ValType::F32, UnaryOp::F32Ceil => ValType::F32, UnaryOp::F32Floor => ValType::F32, UnaryOp::F32Trunc => ValType::F32, UnaryOp::F32Nearest => ValType::F32, UnaryOp::F32Sqrt => ValType::F32, UnaryOp::F64Abs => ValType::F64, UnaryOp::F64Neg => ValType::F64, UnaryOp::F64Ceil => ValType::F64, UnaryOp::F64Floor => ValType::F64, UnaryOp::F64Trunc => ValType::F64, UnaryOp::F64Nearest => ValType::F64, UnaryOp::F64Sqrt => ValType::F64, UnaryOp::I32WrapI64 => ValType::I64, UnaryOp::I32TruncF32S => ValType::F32, UnaryOp::I32TruncF32U => ValType::F32, UnaryOp::I32TruncF64S => ValType::F64, UnaryOp::I32TruncF64U => ValType::F64, UnaryOp::I32TruncSatF32S => ValType::F32, UnaryOp::I32TruncSatF32U => ValType::F32, UnaryOp::I32TruncSatF64S => ValType::F64, UnaryOp::I32TruncSatF64U => ValType::F64, UnaryOp::I64ExtendI32S => ValType::I32, UnaryOp::I64ExtendI32U => ValType::I32, UnaryOp::I64TruncF32S => ValType::F32, UnaryOp::I64TruncF32U => ValType::F32, UnaryOp::I64TruncF64S => ValType::F64, UnaryOp::I64TruncF64U => ValType::F64, UnaryOp::I64TruncSatF32S => ValType::F32, UnaryOp::I64TruncSatF32U => ValType::F32, UnaryOp::I64TruncSatF64S => ValType::F64, UnaryOp::I64TruncSatF64U => ValType::F64, UnaryOp::F32ConvertI32S => ValType::I32, UnaryOp::F32ConvertI32U => ValType::I32, UnaryOp::F32ConvertI64S => ValType::I64, UnaryOp::F32ConvertI64U => ValType::I64, UnaryOp::F32DemoteF64 => ValType::F64, UnaryOp::F64ConvertI32S => ValType::I32, UnaryOp::F64ConvertI32U => ValType::I32, UnaryOp::F64ConvertI64S => ValType::I64, UnaryOp::F64ConvertI64U => ValType::I64, UnaryOp::F64PromoteF32 => ValType::F32, UnaryOp::I32ReinterpretF32 => ValType::F32, UnaryOp::I64ReinterpretF64 => ValType::F64, UnaryOp::F32ReinterpretI32 => ValType::I32, UnaryOp::F64ReinterpretI64 => ValType::I64, UnaryOp::I32Extend8S => ValType::I32, UnaryOp::I32Extend16S => ValType::I32, UnaryOp::I64Extend8S => ValType::I64, UnaryOp::I64Extend16S => ValType::I64, UnaryOp::I64Extend32S => ValType::I64 } }
pub fn un_out(o: UnaryOp) -> ValType { match o { UnaryOp::I32Eqz => ValType::I32, UnaryOp::I64Eqz => ValType::I32, UnaryOp::I32Clz => ValType::I32, UnaryOp::I32Ctz => ValType::I32, UnaryOp::I32Popcnt => ValType::I32, UnaryOp::I64Clz => ValType::I64, UnaryOp::I64Ctz => ValType::I64, UnaryOp::I64Popcnt => ValType::I64, UnaryOp::F32Abs => ValType::F32, UnaryOp::F32Neg => ValType::F32, UnaryOp::F32Ceil => ValType::F32, UnaryOp::F32Floor => ValType::F32, UnaryOp::F32Trunc => ValType::F32, UnaryOp::F32Nearest => ValType::F32, UnaryOp::F32Sqrt => ValType::F32, UnaryOp::F64Abs => ValType::F64, UnaryOp::F64Neg => ValType::F64, UnaryOp::F64Ceil => ValType::F64, UnaryOp::F64Floor => ValType::F64, UnaryOp::F64Trunc => ValType::F64, UnaryOp::F64Nearest => ValType::F64, UnaryOp::F64Sqrt => ValType::F64, UnaryOp::I32WrapI64 => ValType::I32, UnaryOp::I32TruncF32S => ValType::I32, UnaryOp::I32TruncF32U => ValType::I32, UnaryOp::I32TruncF64S => ValType::I32, UnaryOp::I32TruncF64U => ValType::I32, UnaryOp::I32TruncSatF32S => ValType::I32, UnaryOp::I32TruncSatF32U => ValType::I32, UnaryOp::I32TruncSatF64S => ValType::I32, UnaryOp::I32TruncSatF64U => ValType::I32, UnaryOp::I64ExtendI32S => ValType::I64, UnaryOp::I64ExtendI32U => ValType::I64, UnaryOp::I64TruncF32S => ValType::I64, UnaryOp::I64TruncF32U => ValType::I64, UnaryOp::I64TruncF64S => ValType::I64, UnaryOp::I64TruncF64U => ValType::I64, UnaryOp::I64TruncSatF32S => ValType::I64, UnaryOp::I64TruncSatF32U => ValType::I64, UnaryOp::I64TruncSatF64S => ValType::I64, UnaryOp::I64TruncSatF64U => ValType::I64, UnaryOp::F32ConvertI32S => ValType::F32, UnaryOp::F32ConvertI32U => ValType::F32, UnaryOp::F32ConvertI64S => ValType::F32, UnaryOp::F32ConvertI64U => ValType::F32, UnaryOp::F32DemoteF64 => ValType::F32, UnaryOp::F64ConvertI32S => ValType::F64, UnaryOp::F64ConvertI32U => ValType::F64, UnaryOp::F64ConvertI64S => ValType::F64, UnaryOp::F64ConvertI64U => ValType::F64, UnaryOp::F64PromoteF32 => ValType::F64, UnaryOp::I32ReinterpretF32 => ValType::I32, UnaryOp::I64ReinterpretF64 => ValType::I64, UnaryOp::F32ReinterpretI32 => ValType::F32, UnaryOp::F64ReinterpretI64 => ValType::F64, UnaryOp::I32Extend8S => ValType::I32, UnaryOp::I32Extend16S => ValType::I32, UnaryOp::I64Extend8S => ValType::I64, UnaryOp::I64Extend16S => ValType::I64, UnaryOp::I64Extend32S => ValType::I64 } }
pub fn bin_in(o: BinaryOp) -> ValType { match o { BinaryOp::I32Eq => ValType::I32, BinaryOp::I32Ne => ValType::I32, BinaryOp::I32LtS => ValType::I32, BinaryOp::I32LtU => ValType::I32, BinaryOp::I32GtS => ValType::I32, BinaryOp::I32GtU => ValType::I32, BinaryOp::I32LeS => ValType::I32, BinaryOp::I32LeU => ValType::I32, BinaryOp::I32GeS => ValType::I32, BinaryOp::I32GeU => ValType::I32, BinaryOp::I64Eq => ValType::I64, BinaryOp::I64Ne => ValType::I64, BinaryOp::I64LtS => ValType::I64, BinaryOp::I64LtU => ValType::I64, BinaryOp::I64GtS => ValType::I64, BinaryOp::I64GtU => ValType::I64, BinaryOp::I64LeS => ValType::I64, BinaryOp::I64LeU => ValType::I64, BinaryOp::I64GeS => ValType::I64, BinaryOp::I64GeU => ValType::I64, BinaryOp::F32Eq => ValType::F32, BinaryOp::F32Ne => ValType::F32, BinaryOp::F32Lt => ValType::F32, BinaryOp::F32Gt => ValType::F32, BinaryOp::F32Le => ValType::F32, BinaryOp::F32Ge => ValType::F32, BinaryOp::F64Eq => ValType::F64, BinaryOp::F64Ne => ValType::F64, BinaryOp::F64Lt => ValType::F64, BinaryOp::F64Gt => ValType::F64, BinaryOp::F64Le => ValType::F64, BinaryOp::F64Ge => ValType::F64, BinaryOp::I32Add => ValType::I32, BinaryOp::I32Sub => ValType::I32, BinaryOp::I32Mul => ValType::I32, BinaryOp::I32DivS => ValType::I32, BinaryOp::I32DivU => ValType::I32, BinaryOp::I32RemS => ValType::I32, BinaryOp::I32RemU => ValType::I32, BinaryOp::I32And => ValType::I32, BinaryOp::I32Or => ValType::I32, BinaryOp::I32Xor => ValType::I32, BinaryOp::I32Shl => ValType::I32, BinaryOp::I32ShrS => ValType::I32, BinaryOp::I32ShrU => ValType::I32, BinaryOp::I32Rotl => ValType::I32, BinaryOp::I32Rotr => ValType::I32, BinaryOp::I64Add => ValType::I64, BinaryOp::I64Sub => ValType::I64, BinaryOp::I64Mul => ValType::I64, BinaryOp::I64DivS => ValType::I64, BinaryOp::I64DivU => ValType::I64, BinaryOp::I64RemS => ValType::I64, BinaryOp::I64RemU => ValType::I64, BinaryOp::I64And => ValType::I64, BinaryOp::I64Or => ValType::I64, BinaryOp::I64Xor => ValType::I64, BinaryOp::I64Shl => ValType::I64, BinaryOp::I64ShrS => ValType::I64, BinaryOp::I64ShrU => ValType::I64, BinaryOp::I64Rotl => ValType::I64, BinaryOp::I64Rotr => ValType::I64, BinaryOp::F32Add => ValType::F32, BinaryOp::F32Sub => ValType::F32, BinaryOp::F32Mul => ValType::F32, BinaryOp::F32Div => ValType::F32, BinaryOp::F32Min => ValType::F32, BinaryOp::F32Max => ValType::F32, BinaryOp::F32Copysign => ValType::F32, BinaryOp::F64Add => ValType::F64, BinaryOp::F64Sub => ValType::F64, BinaryOp::F64Mul => ValType::F64, BinaryOp::F64Div => ValType::F64, BinaryOp::F64Min => ValType::F64, BinaryOp::F64Max => ValType::F64, BinaryOp::F64Copysign => ValType::F64 } }
pub fn bin_out(o: BinaryOp) -> ValType { match o { BinaryOp::I32Eq => ValType::I32, BinaryOp::I32Ne => ValType::I32, BinaryOp::I32LtS => ValType::I32, BinaryOp::I32LtU => ValType::I32, BinaryOp::I32GtS => ValType::I32, BinaryOp::I32GtU => ValType::I32, BinaryOp::I32LeS => ValType::I32, BinaryOp::I32LeU => ValType::I32, BinaryOp::I32GeS => ValType::I32, BinaryOp::I32GeU => ValType::I32, BinaryOp::I64Eq => ValType::I32, BinaryOp::I64Ne => ValType::I32, BinaryOp::I64LtS => ValType::I32, BinaryOp::I64LtU => ValType::I32, BinaryOp::I64GtS => ValType::I32, BinaryOp::I64GtU => ValType::I32, BinaryOp::I64LeS => ValType::I32, BinaryOp::I64LeU => ValType::I32, BinaryOp::I64GeS => ValType::I32, BinaryOp::I64GeU => ValType::I32, BinaryOp::F32Eq => ValType::I32, BinaryOp::F32Ne => ValType::I32, BinaryOp::F32Lt => ValType::I32, BinaryOp::F32Gt => ValType::I32, BinaryOp::F32Le => ValType::I32, BinaryOp::F32Ge => ValType::I32, BinaryOp::F64Eq => ValType::I32, BinaryOp::F64Ne => ValType::I32, BinaryOp::F64Lt => ValType::I32, BinaryOp::F64Gt => ValType::I32, BinaryOp::F64Le => ValType::I32, BinaryOp::F64Ge => ValType::I32, BinaryOp::I32Add => ValType::I32, BinaryOp::I32Sub => ValType::I32, BinaryOp::I32Mul => ValType::I32, BinaryOp::I32DivS => ValType::I32, BinaryOp::I32DivU => ValType::I32, BinaryOp::I32RemS => ValType::I32, BinaryOp::I32RemU => ValType::I32, BinaryOp::I32And => ValType::I32, BinaryOp::I32Or => ValType::I32, BinaryOp::I32Xor => ValType::I32, BinaryOp::I32Shl => ValType::I32, BinaryOp::I32ShrS => ValType::I32, BinaryOp::I32ShrU => ValType::I32, BinaryOp::I32Rotl => ValType::I32, BinaryOp::I32Rotr => ValType::I32, BinaryOp::I64Add => ValType::I64, BinaryOp::I64Sub => ValType::I64, BinaryOp::I64Mul => ValType::I64, BinaryOp::I64DivS => ValType::I64, BinaryOp::I64DivU => ValType::I64, BinaryOp::I64RemS => ValType::I64, BinaryOp::I64RemU => ValType::I64, BinaryOp::I64And => ValType::I64, BinaryOp::I64Or => ValType::I64, BinaryOp::I64Xor => ValType::I64, BinaryOp::I64Shl => ValType::I64, BinaryOp::I64ShrS => ValType::I64, BinaryOp::I64ShrU => ValType::I64, BinaryOp::I64Rotl => ValType::I64, BinaryOp::I64Rotr => ValType::I64, BinaryOp::F32Add => ValType::F32, BinaryOp::F32Sub => ValType::F32, BinaryOp::F32Mul => ValType::F32, BinaryOp::F32Div => ValType::F32, BinaryOp::F32Min => ValType::F32, BinaryOp::F32Max => ValType::F32, BinaryOp::F32Copysign => ValType::F32, BinaryOp::F64Add => ValType::F64, BinaryOp::F64Sub => ValType::F64, BinaryOp::F64Mul => ValType::F64, BinaryOp::F64Div => ValType::F64, BinaryOp::F64Min => ValType::F64, BinaryOp::F64Max => ValType::F64, BinaryOp::F64Copysign => ValType::F64 } }
pub fn st_ty(o: StoreOp) -> ValType { match o { StoreOp::I32Store => ValType::I32, StoreOp::I64Store => ValType::I64, StoreOp::F32Store => ValType::F32, StoreOp::F64Store => ValType::F64, StoreOp::I32Store8 => ValType::I32, StoreOp::I32Store16 => ValType::I32, StoreOp::I64Store8 => ValType::I64, StoreOp::I64Store16 => ValType::I64, StoreOp::I64Store32 => ValType::I64 } }
pub fn ld_ty(o: LoadOp) -> ValType { match o { LoadOp::I32Load => ValType::I32, LoadOp::I64Load => ValType::I64, LoadOp::F32Load => ValType::F32, LoadOp::F64Load => ValType::F64, LoadOp::I32Load8S => ValType::I32, LoadOp::I32Load8U => ValType::I32, LoadOp::I32Load16S => ValType::I32, LoadOp::I32Load16U => ValType::I32, LoadOp::I64Load8S => ValType::I64, LoadOp::I64Load8U => ValType::I64, LoadOp::I64Load16S => ValType::I64, LoadOp::I64Load16U => ValType::I64, LoadOp::I64Load32S => ValType::I64, LoadOp::I64Load32U => ValType::I64 } }
pub trait MemoryOp { fn width(&self) -> u8; }
impl MemoryOp for StoreOp { fn width(&self) -> u8 { match self { StoreOp::I32Store => 4, StoreOp::I64Store => 8, StoreOp::F32Store => 4, StoreOp::F64Store => 8, StoreOp::I32Store8 => 1, StoreOp::I32Store16 => 2, StoreOp::I64Store8 => 1, StoreOp::I64Store16 => 2, StoreOp::I64Store32 => 4 } } }
impl MemoryOp for LoadOp { fn width(&self) -> u8 { match self { LoadOp::I32Load => 4, LoadOp::I64Load => 8, LoadOp::F32Load => 4, LoadOp::F64Load => 8, LoadOp::I32Load8S => 1, LoadOp::I32Load8U => 1, LoadOp::I32Load16S => 2, LoadOp::I32Load16U => 2, LoadOp::I64Load8S => 1, LoadOp::I64Load8U => 1, LoadOp::I64Load16S => 2, LoadOp::I64Load16U => 2, LoadOp::I64Load32S => 4, LoadOp::I64Load32U => 4 } } }
impl Memarg { pub fn default(op: impl MemoryOp) -> Self { Memarg { alignment_exp_bytes: op.width().trailing_zeros() as u8, offset: 0 } } }

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct FunctionType { ins: &'static [ValType], outs: &'static [ValType] }
impl std::fmt::Debug for FunctionType { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}->{:?}", self.ins, self.outs) } }
thread_local! { static LISTS: RefCell<std::collections::HashMap<Vec<ValType>, &'static [ValType]>> = Default::default(); }
fn intern(l: &[ValType]) -> &'static [ValType] {
    LISTS.with(|s| *s.borrow_mut().entry(l.to_vec()).or_insert_with(|| Box::leak(l.to_vec().into_boxed_slice())))
}
impl FunctionType {
    pub fn new(i: &[ValType], o: &[ValType]) -> Self { FunctionType { ins: intern(i), outs: intern(o) } }
    pub fn empty() -> Self { Self::new(&[], &[]) }
    pub fn inputs(&self) -> &[ValType] { self.ins }
    pub fn results(&self) -> &[ValType] { self.outs }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Local { pub type_: ValType, pub name: Option<String> }
impl Local { pub fn new(type_: ValType) -> Self { Local { type_, name: None } } }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct GlobalType(pub ValType, pub bool);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Global { pub type_: GlobalType }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Limits { pub initial_size: u32, pub max_size: Option<u32> }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Table { pub limits: Limits, pub import: Option<(String, String)>, pub ref_type: RefType, pub export: Vec<String> }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Memory { pub limits: Limits, pub import: Option<(String, String)>, pub export: Vec<String> }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Data { pub bytes: Vec<u8> }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ElementMode { Passive, Active { table: Idx<Table>, offset: Vec<Instr> }, Declarative }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Element { pub typ: RefType, pub init: Vec<Vec<Instr>>, pub mode: ElementMode }

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Instr { Unreachable, Nop, Block(FunctionType), Loop(FunctionType), If(FunctionType), Else, End, Br(Label), BrIf(Label), BrTable { table: Box<[Label]>, default: Label }, Return, Call(Idx<Function>), CallIndirect(FunctionType, Idx<Table>), RefNull(RefType), RefIsNull, RefFunc(Idx<Function>), Drop, Select, TypedSelect(ValType), Local(LocalOp, Idx<Local>), Global(GlobalOp, Idx<Global>), TableGet(Idx<Table>), TableSet(Idx<Table>), TableSize(Idx<Table>), TableGrow(Idx<Table>), TableFill(Idx<Table>), TableCopy(Idx<Table>, Idx<Table>), TableInit(Idx<Table>, Idx<Element>), ElemDrop(Idx<Element>), Load(LoadOp, Memarg), Store(StoreOp, Memarg), MemorySize(Idx<Memory>), MemoryGrow(Idx<Memory>), MemoryFill, MemoryCopy, MemoryInit(Idx<Data>), DataDrop(Idx<Data>), Const(Val), Unary(UnaryOp), Binary(BinaryOp) }

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ImportOrPresent<T> { Import(String, String), Present(T) }
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Code { pub locals: Vec<Local>, pub body: Vec<Instr> }
impl Code { pub fn new() -> Self { Code { locals: vec![], body: vec![] } } }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Function { pub type_: FunctionType, pub code: ImportOrPresent<Code>, pub export: Vec<String>, pub name: Option<String> }
impl Function {
    pub fn new(type_: FunctionType, code: Code, export: Vec<String>) -> Self { Function { type_, code: ImportOrPresent::Present(code), export, name: None } }
    pub fn new_imported(type_: FunctionType, module: String, name: String, export: Vec<String>) -> Self { Function { type_, code: ImportOrPresent::Import(module, name), export, name: None } }
    pub fn code(&self) -> Option<&Code> { match &self.code { ImportOrPresent::Present(c) => Some(c), _ => None } }
    pub fn code_mut(&mut self) -> Option<&mut Code> { match &mut self.code { ImportOrPresent::Present(c) => Some(c), _ => None } }
    pub fn import(&self) -> Option<(&str, &str)> { match &self.code { ImportOrPresent::Import(m, n) => Some((m, n)), _ => None } }
    pub fn param_count(&self) -> usize { self.type_.ins.len() }
    /// the declared locals, without the parameters
    pub fn locals(&self) -> impl Iterator<Item = (Idx<Local>, &Local)> {
        let n = self.param_count();
        self.code().into_iter().flat_map(move |c| c.locals.iter().enumerate().map(move |(i, l)| (Idx::from(n + i), l)))
    }
    pub fn param_or_local_type(&self, i: Idx<Local>) -> Option<ValType> {
        let n = i.to_usize();
        if n < self.param_count() { Some(self.type_.ins[n]) } else { self.code().and_then(|c| c.locals.get(n - self.param_count())).map(|l| l.type_) }
    }
    pub fn add_fresh_local(&mut self, t: ValType) -> Idx<Local> {
        let n = self.param_count();
        let c = self.code_mut().expect("cannot add a local to an import");
        c.locals.push(Local::new(t));
        (n + c.locals.len() - 1).into()
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Module { pub name: Option<String>, pub functions: Vec<Function>, pub globals: Vec<Global>, pub tables: Vec<Table>, pub memories: Vec<Memory>, pub datas: Vec<Data>, pub elements: Vec<Element>, pub start: Option<Idx<Function>> }
#[derive(Debug)]
pub struct ParseError(pub String);
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for ParseError {}
#[derive(Debug)]
pub struct EncodeError(pub String);
impl std::fmt::Display for EncodeError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for EncodeError {}
pub struct Offsets;
#[derive(Debug)]
pub struct ParseIssue;
thread_local! { static MODULES: RefCell<std::collections::HashMap<u64, Module>> = Default::default(); static NEXT: std::cell::Cell<u64> = Default::default(); }
impl Module {
    pub fn new() -> Self { Self::default() }
    pub fn from_bytes(b: &[u8]) -> Result<(Module, Offsets, Vec<ParseIssue>), ParseError> {
        let b: [u8; 12] = b.try_into().map_err(|_| ParseError("not a stand-in module".into()))?;
        if &b[..4] != b"stub" { return Err(ParseError("not a stand-in module".into())); }
        let k = u64::from_le_bytes(b[4..].try_into().unwrap());
        MODULES.with(|m| m.borrow().get(&k).cloned()).map(|m| (m, Offsets, vec![])).ok_or(ParseError("unknown module".into()))
    }
    pub fn to_bytes(&self) -> Result<Vec<u8>, EncodeError> {
        let k = NEXT.with(|n| { let k = n.get(); n.set(k + 1); k });
        MODULES.with(|m| { let mut m = m.borrow_mut(); m.insert(k, self.clone()); if k >= 64 { m.remove(&(k - 64)); } });
        let mut v = b"stub".to_vec();
        v.extend(k.to_le_bytes());
        Ok(v)
    }
    pub fn function(&self, i: Idx<Function>) -> &Function { &self.functions[i.to_usize()] }
    pub fn function_mut(&mut self, i: Idx<Function>) -> &mut Function { &mut self.functions[i.to_usize()] }
    pub fn functions(&self) -> impl Iterator<Item = (Idx<Function>, &Function)> { self.functions.iter().enumerate().map(|(i, f)| (i.into(), f)) }
    pub fn global(&self, i: Idx<Global>) -> &Global { &self.globals[i.to_usize()] }
    pub fn add_function(&mut self, type_: FunctionType, locals: Vec<ValType>, body: Vec<Instr>) -> Idx<Function> {
        self.functions.push(Function::new(type_, Code { locals: locals.into_iter().map(Local::new).collect(), body }, vec![]));
        (self.functions.len() - 1).into()
    }
    pub fn add_function_import(&mut self, type_: FunctionType, module: String, name: String) -> Idx<Function> {
        self.functions.push(Function::new_imported(type_, module, name, vec![]));
        (self.functions.len() - 1).into()
    }
}

pub mod types {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum InferredInstructionType { Reachable(FunctionType), Unreachable }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct TypeErrorInner { pub message: String, pub instruction_idx: Option<Idx<Instr>>, pub instruction: Option<Instr>, pub function_name: Option<String> }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct TypeError(pub Box<TypeErrorInner>);
    impl std::fmt::Display for TypeError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0.message) } }
    impl std::error::Error for TypeError {}
    struct Frame { is_if: bool, ty: FunctionType, dead: bool }
    /// the type of every instruction, without checking the operand stack; code after a jump is unreachable
    pub struct TypeChecker<'a> { f: &'a Function, m: &'a Module, frames: Vec<Frame> }
    impl<'a> TypeChecker<'a> {
        pub fn begin_function(f: &'a Function, m: &'a Module) -> Self { TypeChecker { f, m, frames: vec![Frame { is_if: false, ty: f.type_, dead: false }] } }
        pub fn check_next_instr(&mut self, i: &Instr) -> Result<InferredInstructionType, TypeError> {
            use ValType::*;
            let err = |s: &str| Err(TypeError(Box::new(TypeErrorInner { message: s.into(), instruction_idx: None, instruction: None, function_name: None })));
            let t = |a: &[ValType], b: &[ValType]| FunctionType::new(a, b);
            let Some(top) = self.frames.last() else { return err("code after the end of the function") };
            let dead = top.dead;
            let ty = match i {
                Instr::Block(x) | Instr::Loop(x) => { self.frames.push(Frame { is_if: false, ty: *x, dead }); *x }
                Instr::If(x) => { self.frames.push(Frame { is_if: true, ty: *x, dead }); t(&[&[I32], x.ins].concat(), x.outs) }
                Instr::Else => { let n = self.frames.len(); let outer = n >= 2 && self.frames[n - 2].dead; let f = self.frames.last_mut().unwrap(); if !f.is_if { return err("else without if"); } f.is_if = false; f.dead = outer; t(&[], &[]) }
                Instr::End => { let f = self.frames.pop().unwrap(); t(&[], f.ty.outs) }
                Instr::Local(o, l) => { let Some(v) = self.f.param_or_local_type(*l) else { return err("no such local") }; match o { LocalOp::Get => t(&[], &[v]), LocalOp::Set => t(&[v], &[]), LocalOp::Tee => t(&[v], &[v]) } }
                Instr::Global(o, g) => { let Some(v) = self.m.globals.get(g.to_usize()) else { return err("no such global") }; let v = v.type_.0; match o { GlobalOp::Get => t(&[], &[v]), GlobalOp::Set => t(&[v], &[]) } }
                Instr::Call(f) => { let Some(f) = self.m.functions.get(f.to_usize()) else { return err("no such function") }; f.type_ }
                Instr::CallIndirect(x, _) => t(&[x.ins, &[I32]].concat(), x.outs),
                Instr::Const(v) => t(&[], &[match v { Val::I32(_) => I32, Val::I64(_) => I64, Val::F32(_) => F32, Val::F64(_) => F64 }]),
                Instr::Unary(o) => t(&[un_in(*o)], &[un_out(*o)]),
                Instr::Binary(o) => t(&[bin_in(*o), bin_in(*o)], &[bin_out(*o)]),
                Instr::Load(o, _) => t(&[I32], &[ld_ty(*o)]),
                Instr::Store(o, _) => t(&[I32, st_ty(*o)], &[]),
                Instr::MemorySize(_) => t(&[], &[I32]),
                Instr::MemoryGrow(_) => t(&[I32], &[I32]),
                Instr::BrIf(_) | Instr::BrTable { .. } | Instr::Drop => t(&[I32], &[]),
                Instr::Select => t(&[I32, I32, I32], &[I32]),
                Instr::TypedSelect(v) => t(&[*v, *v, I32], &[*v]),
                _ => t(&[], &[]),
            };
            if matches!(i, Instr::Br(_) | Instr::BrTable { .. } | Instr::Return | Instr::Unreachable) { self.frames.last_mut().unwrap().dead = true; }
            Ok(if dead && !matches!(i, Instr::End | Instr::Else) { InferredInstructionType::Unreachable } else { InferredInstructionType::Reachable(ty) })
        }
    }
}
