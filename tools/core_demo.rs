#![allow(dead_code, unused_imports)]
use crate::analysis::*;
use crate::instrument::*;
use crate::parse_nesting::*;
use wasabi_wasm::*;
use wasabi_wasm::ValType::{F32 as F, F64 as D, I32 as I, I64 as L};
pub struct Lang;
impl crate::compiler::LibGeneratable for Lang {
    fn generate_lib(_: &[crate::wasm_constructs::Signature]) -> crate::compiler::Library<Self> { crate::compiler::Library { content: String::new(), language: std::marker::PhantomData } }
}
pub struct Opts(pub String);
impl crate::compiler::SourceCodeBound for Lang { type DefaultCompilerOptions = Opts; type SourceCode = String; }
impl crate::compiler::DefaultCompilerOptions<Lang> for Opts { fn default_for(l: String) -> Self { Opts(l) } }
/// a module with one function
pub fn one(t: FunctionType, locals: &[ValType], body: Vec<Instr>) -> Module { let mut m = Module::new(); m.add_function(t, locals.to_vec(), body); m }
pub fn ft(a: &[ValType], b: &[ValType]) -> FunctionType { FunctionType::new(a, b) }
pub fn i32c(n: i32) -> Instr { Instr::Const(Val::I32(n)) }
pub fn i64c(n: i64) -> Instr { Instr::Const(Val::I64(n)) }
pub fn run(m: &Module, a: &AnalysisInterface, ts: Option<Vec<u32>>) -> Module {
    let r = crate::instrument::instrument::<Lang>(&m.to_bytes().unwrap(), a, &ts).unwrap_or_else(|e| panic!("{e}"));
    Module::from_bytes(&r.module).unwrap().0
}
pub fn body(m: &Module, f: u32) -> Vec<Instr> { m.function(f.into()).code().expect("code").body.clone() }
/// the number an import has
pub fn import(m: &Module, name: &str) -> u32 { m.functions.iter().position(|f| f.import().is_some_and(|(_, n)| n == name)).unwrap_or_else(|| panic!("{name} is not imported")) as u32 }
pub fn exported<'a>(m: &'a Module, name: &str) -> &'a Function { m.functions.iter().find(|f| f.export.iter().any(|e| e == name)).unwrap_or_else(|| panic!("{name} is not exported")) }
/// what a call of `callee` in the body is preceded by
pub fn calls(b: &[Instr], callee: u32) -> Vec<usize> { b.iter().enumerate().filter(|(_, i)| **i == Instr::Call(callee.into())).map(|(k, _)| k).collect() }
