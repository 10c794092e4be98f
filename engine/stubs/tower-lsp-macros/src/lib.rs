use proc_macro::TokenStream;
/// Identity: the stand-in trait has native `async fn`s.
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream { item }
