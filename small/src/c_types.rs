use crate::{property::*, types::*};
use engine::{ensure, ensure_eq, Check, Property as Prop, Src, R};
use speedy::{Readable, Writable};
use std::{hash::{Hash, Hasher}, str::FromStr};

fn num(s: &mut Src) -> u64 { s.skew(0, u64::MAX) }

fn roundtrip<T>(s: &mut Src, t: &T, want: Option<&[u8]>) -> R
where T: for<'a> Readable<'a, speedy::LittleEndian> + Writable<speedy::LittleEndian> + PartialEq + std::fmt::Debug {
    let b = t.write_to_vec().unwrap();
    ensure_eq!(b.len(), t.bytes_needed().unwrap(), "announced size of {t:?}");
    if let Some(w) = want { ensure_eq!(&b[..], w, "encoding of {t:?}"); }
    ensure_eq!(&T::read_from_buffer(&b).map_err(|e| engine::Bad::Fail(format!("{t:?} doesn't decode: {e}")))?, t, "decoded");
    // Trailing data isn't consumed
    let mut b2 = b.clone();
    b2.push(s.below(256) as u8);
    ensure_eq!(&T::read_with_length_from_buffer(&b2).0.unwrap(), t, "decoded with a tail");
    ensure_eq!(T::read_with_length_from_buffer(&b2).1, b.len(), "consumed by {t:?}");
    // Truncated data is refused
    if !b.is_empty() {
        let n = s.idx(b.len());
        ensure!(T::read_from_buffer(&b[..n]).is_err(), "{n} of {} bytes decode", b.len());
    }
    Ok(())
}
fn json<T>(t: &T) -> R where T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug {
    let j = serde_json::to_string(t).unwrap();
    let u: T = serde_json::from_str(&j).map_err(|e| engine::Bad::Fail(format!("{j} doesn't parse: {e}")))?;
    ensure_eq!(&u, t, "via {j}");
    Ok(())
}
fn h<T: Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }

pub fn string(s: &mut Src, max: usize) -> String {
    const CS: &[char] = &['a', 'b', 'Z', '0', '9', '/', '=', ' ', '.', '-', '_', '\t', '\n', '\0', 'é', '中', '😀', ':', ',', '@'];
    const WORDS: &[&str] = &["on", "off", "true", "none", "legacy", "inherited", "default", "local", "4096", "/", "//", "/mnt", "/mnt/", "..", "a=b", "name", "atime=off", "MNT", "%s", "\\", "'"];
    if s.chance(1, 12) {
        // Familiar words, and combinations of them
        let n = s.urange(1, 4);
        return (0..n).map(|_| *s.pick(WORDS)).collect::<String>().chars().take(max).collect();
    }
    let n = if max >= 20 && s.chance(1, 100) { let m = if s.chance(1, 30) { 70_000 } else { 1100 }; s.skew(0, m) as usize } else { s.urange(0, max) };
    (0..n).map(|_| *s.pick(CS)).collect()
}
pub fn prop(s: &mut Src) -> Property {
    match s.below(5) {
        0 => Property::Atime(s.bool()),
        1 => Property::BaseMountpoint(string(s, 20)),
        2 => Property::Mountpoint(string(s, 20)),
        3 => Property::Name(string(s, 20)),
        _ => Property::RecordSize(s.below(64) as u8),
    }
}
const NAMES: [PropertyName; 5] = [PropertyName::Atime, PropertyName::BaseMountpoint, PropertyName::Mountpoint, PropertyName::Name, PropertyName::RecordSize];

pub fn enc_case(s: &mut Src) -> R {
    s.nontrivial();
    let (c, l) = (s.skew(0, 0xffff) as u16, num(s));
    let p = PBA::new(c, l);
    s.note(format!("{p:?}"));
    ensure_eq!((p.cluster, p.lba), (c, l));
    roundtrip(s, &p, Some(&[&c.to_le_bytes()[..], &l.to_le_bytes()].concat()))?;
    ensure_eq!(p.write_to_vec().unwrap().len(), PBA::TYPICAL_SIZE, "size of an address");
    json(&p)?;
    // Ordering: by cluster, then by address
    let q = PBA::new(if s.bool() { c } else { s.skew(0, 0xffff) as u16 }, if s.bool() { l } else { num(s) });
    ensure_eq!(p.cmp(&q), (p.cluster, p.lba).cmp(&(q.cluster, q.lba)), "order of {p:?} and {q:?}");
    ensure_eq!(p == q, (p.cluster, p.lba) == (q.cluster, q.lba), "equality of {p:?} and {q:?}");
    if p == q { ensure_eq!(h(&p), h(&q), "hash"); }

    let (a, b) = (num(s), num(s));
    let r = RID(a);
    roundtrip(s, &r, Some(&a.to_le_bytes()))?;
    ensure_eq!(r.write_to_vec().unwrap().len(), RID::TYPICAL_SIZE, "size of a record ID");
    json(&r)?;
    ensure_eq!(r.cmp(&RID(b)), a.cmp(&b), "order of record IDs");
    ensure_eq!(r.to_string(), a.to_string(), "display of a record ID");

    let (a, b) = (s.skew(0, u32::MAX as u64) as u32, s.skew(0, u32::MAX as u64) as u32);
    let t = TxgT::from(a);
    roundtrip(s, &t, Some(&a.to_le_bytes()))?;
    json(&t)?;
    ensure_eq!(t.cmp(&TxgT::from(b)), a.cmp(&b), "order of transactions");
    ensure_eq!(u32::from(t), a, "transaction number");
    ensure_eq!(t.checked_add(TxgT::from(b)), a.checked_add(b).map(TxgT::from), "{a} + {b}");
    if let Some(sum) = a.checked_add(b) {
        ensure_eq!(t + b, TxgT::from(sum), "{a} + {b}");
        let mut u = t;
        u += b;
        ensure_eq!(u, TxgT::from(sum), "{a} += {b}");
        ensure_eq!(u - b, t, "{sum} - {b}");
    }
    ensure!(TXG_MAX < TxgT::from(u32::MAX) && (TXG_MAX + 1).checked_add(TxgT::from(0)).is_some(), "there must be a transaction after the last legal one");

    let raw = { let v = s.bytes(16); let mut x = [0u8; 16]; x.copy_from_slice(&v); x };
    let u = Uuid::from_uuid(uuid::Uuid::from_bytes(raw));
    roundtrip(s, &u, Some(&raw))?;
    json(&u)?;
    ensure_eq!(serde_json::to_value(u).unwrap(), serde_json::to_value(raw).unwrap(), "a UUID is sixteen plain bytes");
    ensure_eq!(Uuid::parse_str(&u.to_string()).ok(), Some(u), "UUID text");
    ensure_eq!(Uuid::from_str(&u.to_string().to_uppercase()).ok(), Some(u), "UUID text");
    // The text of no UUID is none
    let mut bad = u.to_string();
    match s.below(5) {
        0 => bad.insert(0, ' '),
        1 => bad.push(*s.pick(&[' ', '\n', '0', '-', '\0'])),
        2 => { bad.pop(); }
        3 => { let i = s.idx(bad.len()); bad.replace_range(i..i + 1, *s.pick(&["g", " ", "_", "ß"])); }
        _ => { bad = bad.replacen('-', "", 1) }
    }
    ensure!(Uuid::parse_str(&bad).is_err(), "{bad:?} was taken for a UUID");
    ensure!(Uuid::from_str(&bad).is_err(), "{bad:?} was taken for a UUID");
    ensure_eq!(0u32.write_to_vec().unwrap().len(), u32::TYPICAL_SIZE, "size of u32");
    ensure_eq!(0f32.write_to_vec().unwrap().len(), f32::TYPICAL_SIZE, "size of f32");
    let raw2 = { let mut x = raw; if s.bool() { x[s.idx(16)] ^= 1 << s.below(8) } x };
    let u2 = Uuid::from_uuid(uuid::Uuid::from_bytes(raw2));
    ensure_eq!(u.cmp(&u2), raw.cmp(&raw2), "order of UUIDs");
    ensure_eq!(u == u2, raw == raw2, "equality of UUIDs");
    Ok(())
}

pub fn prop_enc_case(s: &mut Src) -> R {
    s.nontrivial();
    let p = prop(s);
    s.note(format!("{p:?}"));
    let (tag, rest): (u32, Vec<u8>) = match &p {
        Property::Atime(b) => (0, vec![*b as u8]),
        Property::BaseMountpoint(x) => (1, [&(x.len() as u32).to_le_bytes()[..], x.as_bytes()].concat()),
        Property::Mountpoint(x) => (2, [&(x.len() as u32).to_le_bytes()[..], x.as_bytes()].concat()),
        Property::Name(x) => (3, [&(x.len() as u32).to_le_bytes()[..], x.as_bytes()].concat()),
        Property::RecordSize(n) => (4, vec![*n]),
    };
    roundtrip(s, &p, Some(&[&tag.to_le_bytes()[..], &rest].concat()))?;
    json(&p)?;
    let n = *s.pick(&NAMES);
    roundtrip(s, &n, Some(&(NAMES.iter().position(|x| *x == n).unwrap() as u32).to_le_bytes()))?;
    json(&n)?;
    let src = match s.below(3) { 0 => PropertySource::None, 1 => PropertySource::Default, _ => PropertySource::Set(s.below(256) as u8) };
    roundtrip(s, &src, None)?;
    json(&src)?;
    // Garbage is refused or decoded, and what is decoded is encodable
    let len = s.urange(0, 24);
    let mut g = s.bytes(len);
    if len > 3 && s.bool() { g[..4].copy_from_slice(&(s.below(7) as u32).to_le_bytes()) }
    if let Ok(x) = Property::read_from_buffer(&g) { roundtrip(s, &x, None)?; s.class("garbage-decodes") }
    if let Ok(x) = PropertyName::read_from_buffer(&g) { roundtrip(s, &x, None)? }
    if let Ok(x) = Error::read_from_buffer(&g) { roundtrip(s, &x, None)? }
    Ok(())
}

pub fn encoding() -> Prop {
    Prop { id: "C10", assumptions: &["The encodings pinned here are those of the present on-disk and wire formats."],
        checks: vec![
            Check::new("scalars", "Random addresses, record IDs, transactions and UUIDs: encoding, decoding, truncation, order, text; non-trivial = always.", 1_600_000, 16_000_000, enc_case),
            Check::new("properties", "Random properties, names, sources and garbage; non-trivial = always.", 4_000_000, 40_000_000, prop_enc_case),
        ] }
}

macro_rules! errs { ($($e:ident)*) => { &[$((stringify!($e), libc::$e)),*] } }
const ERRNOS: &[(&str, i32)] = errs!(EPERM ENOENT ESRCH EINTR EIO ENXIO E2BIG ENOEXEC EBADF ECHILD EDEADLK ENOMEM EACCES EFAULT
    ENOTBLK EBUSY EEXIST EXDEV ENODEV ENOTDIR EISDIR EINVAL ENFILE EMFILE ENOTTY ETXTBSY EFBIG ENOSPC ESPIPE EROFS EMLINK EPIPE
    EDOM ERANGE EAGAIN EINPROGRESS EALREADY ENOTSOCK EDESTADDRREQ EMSGSIZE EPROTOTYPE ENOPROTOOPT EPROTONOSUPPORT ESOCKTNOSUPPORT
    EOPNOTSUPP EPFNOSUPPORT EAFNOSUPPORT EADDRINUSE EADDRNOTAVAIL ENETDOWN ENETUNREACH ENETRESET ECONNABORTED ECONNRESET ENOBUFS
    EISCONN ENOTCONN ESHUTDOWN ETOOMANYREFS ETIMEDOUT ECONNREFUSED ELOOP ENAMETOOLONG EHOSTDOWN EHOSTUNREACH ENOTEMPTY EPROCLIM
    EUSERS EDQUOT ESTALE EREMOTE EBADRPC ERPCMISMATCH EPROGUNAVAIL EPROGMISMATCH EPROCUNAVAIL ENOLCK ENOSYS EFTYPE EAUTH ENEEDAUTH
    EIDRM ENOMSG EOVERFLOW ECANCELED EILSEQ ENOATTR EDOOFUS EBADMSG EMULTIHOP ENOLINK EPROTO ENOTCAPABLE ECAPMODE ENOTRECOVERABLE
    EOWNERDEAD EINTEGRITY);

fn errno_case(s: &mut Src) -> R {
    s.nontrivial();
    let want = if s.bool() { Some(*s.pick(ERRNOS)) } else { None };
    let n = match want { Some(w) => w.1, None => match s.below(3) { 0 => s.range(0, 600) as i32, 1 => s.any() as i32, _ => -(s.range(0, 300) as i32) } };
    let want = ERRNOS.iter().find(|e| e.1 == n);
    let name = want.map(|w| w.0).unwrap_or("EUNKNOWN");
    s.note(format!("{n} is {name}"));
    let e = Error::from(std::io::Error::from_raw_os_error(n));
    ensure_eq!(format!("{e:?}"), name, "errno {n} from the OS");
    if let Some(w) = want { s.class("known"); ensure_eq!(i32::from(e), w.1, "back to an errno"); }
    ensure!(!e.to_string().is_empty());
    // On the wire
    if i16::try_from(n).is_ok() {
        let b = (n as i16).to_le_bytes();
        let d = Error::read_from_buffer(&b).map_err(|e| engine::Bad::Fail(format!("errno {n} doesn't decode: {e}")))?;
        ensure_eq!(format!("{d:?}"), name, "errno {n} from the wire");
        roundtrip(s, &d, Some(&if want.is_some() { (n as i16).to_le_bytes() } else { 256i16.to_le_bytes() }))?;
    }
    // Errors that carry no errno
    let k = *s.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::NotFound, std::io::ErrorKind::UnexpectedEof]);
    ensure_eq!(format!("{:?}", Error::from(std::io::Error::new(k, "x"))), "EUNKNOWN");
    // nix knows only what the platform defines
    let x = nix::errno::Errno::from_raw(n);
    let got = format!("{:?}", Error::from(x));
    let nn = x as i32;
    let wn = ERRNOS.iter().find(|e| e.1 == nn).map(|w| w.0).unwrap_or("EUNKNOWN");
    ensure_eq!(got, wn, "errno {n} from nix");
    Ok(())
}
pub fn errno() -> Prop {
    Prop { id: "C11", assumptions: &["On this platform, errnos that only FreeBSD has are given numbers of their own."],
        checks: vec![Check::new("errnos", "Random errnos, half of them known ones; non-trivial = always.", 2_000_000, 20_000_000, errno_case)] }
}
