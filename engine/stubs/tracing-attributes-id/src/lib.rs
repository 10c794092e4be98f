use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn instrument(_: TokenStream, item: TokenStream) -> TokenStream { item }
