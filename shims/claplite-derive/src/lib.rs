//! derive(Parser)
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Expr, Fields, Lit, Token, Type};

fn kebab(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() { if i > 0 { o.push('-') } o.extend(c.to_lowercase()) }
        else if c == '_' { o.push('-') }
        else { o.push(c) }
    }
    o
}
fn lit(e: &Expr) -> Option<Lit> { if let Expr::Lit(l) = e { Some(l.lit.clone()) } else { None } }

#[proc_macro_derive(Parser, attributes(clap, arg, command))]
pub fn parser(item: TokenStream) -> TokenStream {
    let d = parse_macro_input!(item as DeriveInput);
    let name = &d.ident;
    match &d.data {
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let (id, k) = (&v.ident, kebab(&v.ident.to_string()));
                quote!(#k => Ok(#name::#id(::clap::Parser::from_args(args)?)),)
            });
            quote!(impl ::clap::Parser for #name {
                fn from_args(mut args: Vec<String>) -> ::std::result::Result<Self, String> {
                    if args.is_empty() { return Err("a command is required".into()) }
                    let c = args.remove(0);
                    match c.as_str() { #(#arms)* _ => Err(format!("unrecognized subcommand {c}")) }
                }
            })
        }
        Data::Struct(s) => {
            let Fields::Named(fs) = &s.fields else { panic!("named fields only") };
            let (mut spec, mut get) = (Vec::new(), Vec::new());
            for f in &fs.named {
                let id = f.ident.as_ref().unwrap();
                let sid = id.to_string();
                let ty = if let Type::Path(p) = &f.ty { p.path.segments.last().unwrap().ident.to_string() } else { panic!("type of {sid}") };
                let (mut short, mut long, mut required, mut delim, mut default, mut sub, mut nargs) = (None, None, None, None, None, false, None);
                for a in &f.attrs {
                    if !["clap", "arg", "command"].iter().any(|n| a.path().is_ident(n)) { continue }
                    a.parse_nested_meta(|m| {
                        let key = m.path.get_ident().unwrap().to_string();
                        let val: Option<Expr> = if m.input.peek(Token![=]) { Some(m.value()?.parse()?) }
                            else if m.input.peek(syn::token::Paren) { let c; syn::parenthesized!(c in m.input); Some(c.parse()?) }
                            else { None };
                        let l = val.as_ref().and_then(lit);
                        match key.as_str() {
                            "short" => short = Some(match l { Some(Lit::Char(c)) => c.value(), _ => sid.chars().next().unwrap() }),
                            "long" => long = Some(match l { Some(Lit::Str(s)) => s.value(), _ => kebab(&sid) }),
                            "required" => required = Some(matches!(l, Some(Lit::Bool(b)) if b.value)),
                            "value_delimiter" => if let Some(Lit::Char(c)) = l { delim = Some(c.value()) },
                            "default_value" => if let Some(Lit::Str(s)) = l { default = Some(s.value()) },
                            "num_args" => nargs = Some(matches!(l, Some(Lit::Int(i)) if i.base10_digits() == "1")),
                            "subcommand" => sub = true,
                            "action" | "help" | "version" | "value_name" | "about" => (),
                            k => panic!("claplite: {k} of {sid}"),
                        }
                        Ok(())
                    }).unwrap();
                }
                let flag = ty == "bool";
                let many = ty == "Vec";
                let positional = short.is_none() && long.is_none();
                let single = positional && nargs == Some(true);
                let required = required.unwrap_or(!flag && !many && ty != "Option" && default.is_none());
                let o = |x: Option<char>| match x { Some(c) => quote!(Some(#c)), None => quote!(None) };
                let p = |x: &Option<String>| match x { Some(c) => quote!(Some(#c)), None => quote!(None) };
                let (short, long, delim, default) = (o(short), p(&long), o(delim), p(&default));
                spec.push(quote!(::clap::Arg { id: #sid, short: #short, long: #long, flag: #flag, many: #many, single: #single,
                    required: #required, delim: #delim, default: #default, subcommand: #sub }));
                get.push(if sub { quote!(#id: ::clap::Parser::from_args(::std::mem::take(&mut r.rest))?) }
                    else if flag { quote!(#id: r.flag(#sid)) }
                    else if many { quote!(#id: r.many(#sid)?) }
                    else if ty == "Option" { quote!(#id: r.opt(#sid)?) }
                    else { quote!(#id: r.one(#sid)?) });
            }
            quote!(impl ::clap::Parser for #name {
                #[allow(unused_mut)]
                fn from_args(args: Vec<String>) -> ::std::result::Result<Self, String> {
                    let mut r = ::clap::Raw::new(&[#(#spec),*], args)?;
                    Ok(Self { #(#get),* })
                }
            })
        }
        _ => panic!("union"),
    }.into()
}
