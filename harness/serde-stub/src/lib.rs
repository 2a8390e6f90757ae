//! Stand-in for serde: the generated code derives `::serde::Serialize` and
//! `::serde::Deserialize`; no property looks at them, so they expand to nothing.
use proc_macro::TokenStream;
#[proc_macro_derive(Serialize, attributes(serde))]
pub fn ser(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(Deserialize, attributes(serde))]
pub fn de(_: TokenStream) -> TokenStream { TokenStream::new() }
