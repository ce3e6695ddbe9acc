//! The macros that bfffsd's main function needs; it is compiled, but not run.
use proc_macro::{TokenStream, TokenTree};
/// tokio::main
#[proc_macro_attribute]
pub fn main(_attr: TokenStream, item: TokenStream) -> TokenStream { item }
/// clap::Parser
#[proc_macro_derive(Parser, attributes(clap, arg, command))]
pub fn parser(item: TokenStream) -> TokenStream {
    let mut it = item.into_iter();
    while let Some(t) = it.next() {
        if t.to_string() == "struct" || t.to_string() == "enum" {
            if let Some(TokenTree::Ident(name)) = it.next() {
                return format!("impl ::clap::Parser for {name} {{}}").parse().unwrap();
            }
        }
    }
    TokenStream::new()
}
