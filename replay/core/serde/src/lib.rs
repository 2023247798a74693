//! stand-in: the derive gives nothing
#[proc_macro_derive(Deserialize)]
pub fn deserialize(_: proc_macro::TokenStream) -> proc_macro::TokenStream { proc_macro::TokenStream::new() }
