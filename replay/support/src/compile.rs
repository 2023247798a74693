//! stand-ins for the compiler side of the front end: only the text of the library is looked at
use wastrumentation::compiler::{DefaultCompilerOptions, SourceCodeBound};
pub struct Rust;
pub struct Options;
impl<L: SourceCodeBound> DefaultCompilerOptions<L> for Options { fn default_for(_: L::SourceCode) -> Self { Options } }
impl SourceCodeBound for Rust { type DefaultCompilerOptions = Options; type SourceCode = options::RustSource; }
pub mod options {
    pub use rust_to_wasm_compiler::{Profile, WasiSupport};
    #[derive(Debug, Clone)]
    pub struct ManifestSource(pub String);
    #[derive(Debug, Clone)]
    pub struct RustSourceCode(pub String);
    #[derive(Debug, Clone)]
    pub enum RustSource { SourceCode(WasiSupport, ManifestSource, RustSourceCode), Manifest(WasiSupport, std::path::PathBuf) }
    pub struct CompilerOptions { pub source: RustSource, pub profile: Profile }
}
