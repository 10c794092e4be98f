use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_derive(FieldNamesAsArray, attributes(field_names_as_array))]
pub fn names(input: TokenStream) -> TokenStream {
    let d: syn::DeriveInput = syn::parse(input).unwrap();
    let n = &d.ident;
    let syn::Data::Struct(s) = &d.data else { panic!() };
    let f: Vec<String> = s.fields.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
    let l = f.len();
    quote!(impl #n { pub const FIELD_NAMES_AS_ARRAY: [&'static str; #l] = [#(#f),*]; }).into()
}
