use proc_macro::TokenStream;
use quote::quote;
/// Only the generated option-parser constructor's signature.
#[proc_macro_derive(Bpaf, attributes(bpaf))]
pub fn bpaf(input: TokenStream) -> TokenStream {
    let d: syn::DeriveInput = syn::parse(input).unwrap();
    let n = &d.ident;
    let mut s = String::new();
    for (i, c) in n.to_string().chars().enumerate() { if c.is_uppercase() && i > 0 { s.push('_'); } s.extend(c.to_lowercase()); }
    let f = syn::Ident::new(&s, n.span());
    quote!(pub fn #f() -> bpaf::OptionParser<#n> { loop {} }).into()
}
