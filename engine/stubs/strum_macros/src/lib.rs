use proc_macro::TokenStream;
use quote::quote;
fn into(input: TokenStream) -> TokenStream {
    let d: syn::DeriveInput = syn::parse(input).unwrap();
    let n = &d.ident;
    quote!(
        impl From<&#n> for &'static str { fn from(_: &#n) -> &'static str { loop {} } }
        impl From<#n> for &'static str { fn from(_: #n) -> &'static str { loop {} } }
    ).into()
}
#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static_str(input: TokenStream) -> TokenStream { into(input) }
#[proc_macro_derive(Display, attributes(strum))]
pub fn display(input: TokenStream) -> TokenStream {
    let d: syn::DeriveInput = syn::parse(input).unwrap();
    let n = &d.ident;
    quote!(impl std::fmt::Display for #n { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }).into()
}
