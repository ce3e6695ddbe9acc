use crate::{c_types::{prop, string}, property::*};
use engine::{ensure, ensure_eq, Check, Property as Prop, Src, R};
use std::str::FromStr;

fn parse_case(s: &mut Src) -> R {
    // (text, what it must parse to; None: must be refused; outer None: no opinion)
    let (text, want): (String, Option<Option<Property>>) = match s.below(11) {
        0 => {
            let (v, b) = *s.pick(&[("on", true), ("true", true), ("off", false), ("false", false)]);
            (format!("atime={v}"), Some(Some(Property::Atime(b))))
        }
        1 => ("atime".into(), Some(Some(Property::Atime(true)))),
        2 => {
            let v = string(s, 5);
            if ["on", "true", "off", "false"].contains(&&v[..]) { return Err(engine::Bad::Discard) }
            (format!("atime={v}"), Some(None))
        }
        3 => { let mp = string(s, 24); (format!("mountpoint={mp}"), Some(Some(Property::Mountpoint(mp)))) }
        4 => {
            let k = *s.pick(&["recordsize", "recsize"]);
            let n = s.range(12, 20);
            (format!("{k}={}", 1u64 << n), Some(Some(Property::RecordSize(n as u8))))
        }
        5 => {
            let k = *s.pick(&["recordsize", "recsize"]);
            let n = match s.below(4) {
                0 => 1 << *s.pick(&[0u32, 1, 2, 3, 8, 9, 10, 11, 21, 22, 30, 31, 32, 40, 63]),
                1 => (1u64 << s.range(12, 20)).wrapping_add(s.range(1, 40)).wrapping_sub(if s.bool() { 80 } else { 0 }),
                2 => s.skew(0, u64::MAX),
                _ => s.range(0, 3000),
            };
            // 1048776 is an old misspelling of 1 MiB that the tests still insist on
            if n.is_power_of_two() && (4096..=1 << 20).contains(&n) || n == 1_048_776 { return Err(engine::Bad::Discard) }
            (format!("{k}={n}"), Some(None))
        }
        6 => {
            let k = *s.pick(&["basemountpoint", "name"]);
            (format!("{k}={}", string(s, 8)), Some(None))
        }
        7 => ((*s.pick(&["mountpoint", "recordsize", "recsize", "name", "basemountpoint", "", "="])).into(), Some(None)),
        8 => {
            let v = *s.pick(&["ON", "On", "TRUE", "True", "yes", "no", "1", "0", "t", "f", "on ", " on", "none", "", "onn", "o", "of", "offf", "tru", "falsee", "on=", "=on", "on=off", "off\n", "false\0"]);
            (format!("atime={v}"), Some(None))
        }
        9 => {
            let k = *s.pick(&["recordsize", "recsize"]);
            let n = 1u64 << s.range(12, 20);
            let v = match s.below(13) {
                0 => format!("{}k", n >> 10), 1 => format!("{}K", n >> 10), 2 => format!("0x{n:x}"), 3 => format!("{n} "), 4 => format!(" {n}"), 5 => format!("-{n}"),
                6 => format!("{n}.0"), 7 => String::new(), 8 => format!("{n}={n}"), 9 => format!("{n}b"), 10 => format!("{}", (1u128 << 64) + n as u128), 11 => format!("{}M", n >> 20),
                _ => (12 + s.below(9)).to_string(),
            };
            (format!("{k}={v}"), Some(None))
        }
        _ => {
            let base = *s.pick(&["atime", "mountpoint", "recordsize", "recsize"]);
            let mut k: Vec<char> = base.chars().collect();
            match s.below(5) { 0 => { let i = s.idx(k.len()); k.remove(i); } 1 => k.push('x'), 2 => k.push(' '), 3 => k.insert(0, ' '), _ => k[0] = k[0].to_ascii_uppercase() }
            let k: String = k.into_iter().collect();
            if k == "recsize" { return Err(engine::Bad::Discard) }
            (format!("{k}={}", *s.pick(&["on", "/mnt", "4096", ""])), Some(None))
        }
    };
    s.note(format!("{text:?}"));
    s.nontrivial();
    let got = Property::from_str(&text).ok();
    if let Some(w) = want { ensure_eq!(got, w, "parsing {text:?}"); }
    if let Some(p) = got { s.class("accepted"); laws(&p)? }
    Ok(())
}
fn laws(p: &Property) -> R {
    // What is displayed can be given back
    let name = p.name();
    ensure_eq!(PropertyName::from_str(&name.to_string()).ok(), Some(name), "name of {p:?}");
    let settable = !matches!(name, PropertyName::Name | PropertyName::BaseMountpoint);
    let text = format!("{name}={p}");
    let q = Property::from_str(&text);
    if settable { ensure_eq!(q.as_ref().ok(), Some(p), "reading back {text:?}"); } else { ensure_eq!(q, Err(ParsePropertyError::ReadOnly), "setting {text:?}"); }
    Ok(())
}
fn law_case(s: &mut Src) -> R {
    let mut p = prop(s);
    if let Property::RecordSize(n) = &mut p { *n = 12 + *n % 9; }
    s.note(format!("{p:?}"));
    s.nontrivial();
    laws(&p)?;
    match &p {
        Property::Atime(b) => { ensure_eq!(p.as_bool(), *b); ensure_eq!(p.to_string(), if *b { "on" } else { "off" }); }
        Property::BaseMountpoint(m) | Property::Mountpoint(m) | Property::Name(m) => { ensure_eq!(p.as_str(), m); ensure_eq!(&p.to_string(), m); }
        Property::RecordSize(n) => { ensure_eq!(p.as_u8(), *n); if *n < 31 { ensure_eq!(p.to_string(), (1u64 << n).to_string()); } }
    }
    ensure_eq!(Property::mountpoint(p.to_string()), Property::Mountpoint(p.to_string()));
    // Inheritance: a mountpoint is inherited as the base of the children's, everything else as it is
    let i = p.clone().inheritable();
    match &p {
        Property::Mountpoint(m) => ensure_eq!(i, Property::BaseMountpoint(m.clone())),
        _ => ensure_eq!(i, p),
    }
    if p.name() != PropertyName::Name { ensure_eq!(p.name().inheritable(), i.name(), "name under which {p:?} is inherited"); }
    // Padding is honoured
    ensure_eq!(format!("{p:>40}").chars().count(), p.to_string().chars().count().max(40));
    for n in [PropertyName::Atime, PropertyName::BaseMountpoint, PropertyName::RecordSize] {
        ensure_eq!(Property::default_value(n).name(), n, "default of {n:?}");
    }
    ensure_eq!(Property::default_value(PropertyName::Atime), Property::Atime(true));
    ensure_eq!(Property::default_value(PropertyName::BaseMountpoint), Property::BaseMountpoint(String::new()));
    ensure_eq!(Property::default_value(PropertyName::RecordSize).to_string(), "131072", "documented default");
    // Sources
    let k = s.below(256) as u8;
    let src = PropertySource::Set(k);
    ensure_eq!(src.is_inherited(), k > 0, "{src:?}");
    ensure_eq!(src.to_string(), if k == 0 { "local" } else { "inherited" }, "{src:?}");
    ensure!(!PropertySource::Default.is_inherited() && !PropertySource::None.is_inherited());
    ensure_eq!((PropertySource::LOCAL, PropertySource::FROM_PARENT, PropertySource::FROM_GRANDPARENT), (PropertySource::Set(0), PropertySource::Set(1), PropertySource::Set(2)));
    for x in [PropertySource::None, PropertySource::Default, PropertySource::LOCAL, PropertySource::FROM_PARENT] {
        ensure_eq!(PropertySource::from_str(&x.to_string()).ok(), Some(x), "reading back {x}");
    }
    let junk = string(s, 8);
    if !["default", "local", "none", "inherited"].contains(&&junk[..]) { ensure!(PropertySource::from_str(&junk).is_err(), "{junk:?} is a property source"); }
    Ok(())
}
pub fn property() -> Prop {
    Prop { id: "C12", assumptions: &["1048776, which an existing test insists on as a spelling of 1 MiB, may or may not be accepted.", "The record size is between 4 kB and 1 MB."],
        checks: vec![
            Check::new("property-parse", "Generated settings, legal and not; non-trivial = always.", 4_000_000, 40_000_000, parse_case),
            Check::new("property-laws", "Generated properties: display, reading back, inheritance, sources; non-trivial = always.", 2_000_000, 20_000_000, law_case),
        ] }
}
