//! The analysis front ends with a stand-in for their compilers: the source of an analysis is a number.
pub mod compile {
    use wastrumentation::compiler::SourceCodeBound;
    pub struct Rust;
    pub struct WebAssembly;
    pub mod options {
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        pub struct RustSource(pub u64);
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        pub struct WebAssemblySource(pub u64);
    }
    pub struct Options;
    impl<L: SourceCodeBound> wastrumentation::compiler::DefaultCompilerOptions<L> for Options { fn default_for(_: L::SourceCode) -> Self { Options } }
    impl SourceCodeBound for Rust { type DefaultCompilerOptions = Options; type SourceCode = options::RustSource; }
    impl SourceCodeBound for WebAssembly { type DefaultCompilerOptions = Options; type SourceCode = options::WebAssemblySource; }
}
pub mod assemblyscript;
pub mod rust;
pub mod webassembly;
/// the parsed program
pub fn program(text: &str) -> Result<wasp_compiler::ast::wasp::Root, String> { wasp_compiler::compile(text).map(|c| c.wasp_root).map_err(|e| format!("{e:?}")) }
