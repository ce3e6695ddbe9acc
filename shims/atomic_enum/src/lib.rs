//! Offline stand-in for the `atomic_enum` crate: `#[atomic_enum] enum X {..}`
//! defines `AtomicX` with `new`, `load` and `store`.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn atomic_enum(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut name = None;
    let mut it = item.clone().into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t {
            if i.to_string() == "enum" {
                if let Some(TokenTree::Ident(n)) = it.next() {
                    name = Some(n.to_string());
                }
                break;
            }
        }
    }
    let name = name.expect("atomic_enum: not an enum");
    let s = format!("
        #[derive(Clone, Copy, Debug, Eq, PartialEq)]
        #[repr(usize)]
        {item}
        #[derive(Debug)]
        struct Atomic{name}(::std::sync::atomic::AtomicUsize);
        #[allow(dead_code)]
        impl Atomic{name} {{
            pub const fn new(v: {name}) -> Self {{
                Self(::std::sync::atomic::AtomicUsize::new(v as usize))
            }}
            pub fn load(&self, o: ::std::sync::atomic::Ordering) -> {name} {{
                // Only values of the enum are ever stored
                unsafe {{ ::std::mem::transmute::<usize, {name}>(self.0.load(o)) }}
            }}
            pub fn store(&self, v: {name}, o: ::std::sync::atomic::Ordering) {{
                self.0.store(v as usize, o)
            }}
        }}");
    s.parse().unwrap()
}
