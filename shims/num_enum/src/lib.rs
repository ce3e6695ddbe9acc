//! Offline stand-in for `num_enum`: `FromPrimitive` on a `repr(u8)` enum with a
//! `#[num_enum(default)]` variant.
use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_derive(FromPrimitive, attributes(num_enum))]
pub fn from_primitive(item: TokenStream) -> TokenStream {
    let e = syn::parse_macro_input!(item as syn::ItemEnum);
    let name = &e.ident;
    let mut default = None;
    let mut arms = Vec::new();
    for v in &e.variants {
        let id = &v.ident;
        if v.attrs.iter().any(|a| a.path().is_ident("num_enum")) { default = Some(id.clone()); }
        arms.push(quote!{ if x == #name::#id as u8 { return #name::#id; } });
    }
    let default = default.expect("no default");
    quote!{
        impl ::core::convert::From<u8> for #name {
            fn from(x: u8) -> Self { #(#arms)* #name::#default }
        }
    }.into()
}
