//! As much of clap as the bfffs command needs, working the same, and what takes
//! its output and exit status.
pub use claplite_derive::Parser;
use std::{cell::RefCell, fmt::{self, Display}, io, str::FromStr};

/// The process would have exited
pub struct Exited(pub i32);
pub fn exit(code: i32) -> ! { std::panic::resume_unwind(Box::new(Exited(code))) }

thread_local! {
    static ARGS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static OUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static ERR: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}
pub fn set_args(args: Vec<String>) { ARGS.with(|a| *a.borrow_mut() = args) }
pub fn take_output() -> (String, String) {
    let f = |x: Vec<u8>| String::from_utf8_lossy(&x).into_owned();
    (f(OUT.take()), f(ERR.take()))
}
pub fn out(a: fmt::Arguments) { OUT.with(|o| o.borrow_mut().extend(a.to_string().into_bytes())) }
pub fn err(a: fmt::Arguments) { ERR.with(|o| o.borrow_mut().extend(a.to_string().into_bytes())) }
pub struct Stdout;
impl Stdout { pub fn lock(&self) -> Stdout { Stdout } }
impl io::Write for Stdout {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { OUT.with(|o| o.borrow_mut().extend(b)); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
pub fn stdout() -> Stdout { Stdout }

pub enum ArgAction { Set, Append, SetTrue }

#[macro_export]
macro_rules! crate_version { () => { "0" } }

pub struct Arg {
    pub id: &'static str,
    pub short: Option<char>,
    pub long: Option<&'static str>,
    pub flag: bool,
    pub many: bool,
    /// Of a positional argument: at most one
    pub single: bool,
    pub required: bool,
    pub delim: Option<char>,
    pub default: Option<&'static str>,
    pub subcommand: bool,
}

pub trait Parser: Sized {
    fn from_args(args: Vec<String>) -> Result<Self, String>;
    fn parse() -> Self {
        match Self::from_args(ARGS.take()) {
            Ok(x) => x,
            Err(e) => { err(format_args!("{e}\n")); exit(2) }
        }
    }
}

pub struct Raw { vals: Vec<(&'static str, Vec<String>)>, pub rest: Vec<String> }

impl Raw {
    pub fn new(spec: &[Arg], args: Vec<String>) -> Result<Self, String> {
        let mut r = Raw { vals: spec.iter().map(|a| (a.id, Vec::new())).collect(), rest: Vec::new() };
        let mut it = args.into_iter();
        let mut pos: Vec<&Arg> = spec.iter().filter(|a| a.short.is_none() && a.long.is_none()).collect();
        let mut only = false;
        while let Some(a) = it.next() {
            let mut found = None;
            if !only && a == "--" { only = true; continue }
            if !only && a.starts_with("--") {
                let (n, v) = match a[2..].split_once('=') { Some((n, v)) => (n, Some(v.to_string())), None => (&a[2..], None) };
                let x = spec.iter().find(|x| x.long == Some(n)).ok_or(format!("unexpected argument {a}"))?;
                found = Some((x, v));
            } else if !only && a.starts_with('-') && a.len() > 1 {
                let mut cs = a[1..].char_indices();
                loop {
                    let Some((_, c)) = cs.next() else { break };
                    let x = spec.iter().find(|x| x.short == Some(c)).ok_or(format!("unexpected argument {a}"))?;
                    if x.flag { r.add(x, "true".into())?; continue }
                    let rest = cs.as_str();
                    let rest = rest.strip_prefix('=').unwrap_or(rest);
                    found = Some((x, if rest.is_empty() { None } else { Some(rest.to_string()) }));
                    break
                }
                if found.is_none() { continue }
            }
            match found {
                Some((x, None)) if x.flag => r.add(x, "true".into())?,
                Some((x, Some(_))) if x.flag => return Err(format!("{} takes no value", x.id)),
                Some((x, v)) => {
                    let v = match v {
                        Some(v) => v,
                        None => it.next().filter(|v| !v.starts_with('-') || v == "-").ok_or(format!("{} needs a value", x.id))?,
                    };
                    r.add(x, v)?
                }
                None => {
                    let Some(x) = pos.first().copied() else { return Err(format!("unexpected argument {a}")) };
                    if x.subcommand {
                        r.rest.push(a);
                        r.rest.extend(it.by_ref());
                        break
                    }
                    r.add(x, a)?;
                    if !x.many || x.single { pos.remove(0); }
                }
            }
        }
        for x in spec {
            let v = &mut r.vals.iter_mut().find(|v| v.0 == x.id).unwrap().1;
            if v.is_empty() {
                if let Some(d) = x.default { *v = match x.delim { Some(c) => d.split(c).map(str::to_string).collect(), None => vec![d.to_string()] } }
            }
            if x.subcommand { if r.rest.is_empty() { return Err("a command is required".into()) } }
            else if v.is_empty() && x.required { return Err(format!("{} is required", x.id)) }
        }
        Ok(r)
    }
    fn add(&mut self, x: &Arg, v: String) -> Result<(), String> {
        let vs = &mut self.vals.iter_mut().find(|v| v.0 == x.id).unwrap().1;
        if !vs.is_empty() && (!x.many || x.single) { return Err(format!("{} given twice", x.id)) }
        match x.delim {
            Some(c) => vs.extend(v.split(c).map(str::to_string)),
            None => vs.push(v),
        }
        Ok(())
    }
    pub fn many<T: FromStr>(&mut self, id: &str) -> Result<Vec<T>, String> where T::Err: Display {
        let i = self.vals.iter().position(|v| v.0 == id).unwrap();
        self.vals[i].1.drain(..).map(|s| s.parse::<T>().map_err(|e| format!("invalid value {s}: {e}"))).collect()
    }
    pub fn opt<T: FromStr>(&mut self, id: &str) -> Result<Option<T>, String> where T::Err: Display { Ok(self.many(id)?.pop()) }
    pub fn one<T: FromStr>(&mut self, id: &str) -> Result<T, String> where T::Err: Display { Ok(self.opt(id)?.unwrap()) }
    pub fn flag(&mut self, id: &str) -> bool { self.many::<String>(id).is_ok_and(|v| !v.is_empty()) }
}
