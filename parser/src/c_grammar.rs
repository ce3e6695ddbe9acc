use crate::{pool_create_ast::*, pool_create_parser::PoolParser};
use engine::{catch, ensure, ensure_eq, Bad, Check, Property as Prop, Src, R};

// An independent reading of the grammar
#[derive(Clone, Copy, Debug, PartialEq)]
enum Tok<'a> { Mirror, Raid, Name(&'a str), Num(&'a str) }
fn lex(t: &str) -> Option<Vec<Tok<'_>>> {
    let b = t.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    while i < b.len() {
        let s = i;
        match b[i] {
            b' ' | b'\t' | b'\n' => { i += 1; continue }
            b'0'..=b'9' => {
                while i < b.len() && b[i].is_ascii_digit() { i += 1 }
                v.push(Tok::Num(&t[s..i]));
            }
            b'/' | b'a'..=b'z' | b'A'..=b'Z' => {
                while i < b.len() && ![b' ', b'\t', b'\n'].contains(&b[i]) { i += 1 }
                v.push(match &t[s..i] { "mirror" => Tok::Mirror, "raid" => Tok::Raid, n => Tok::Name(n) });
            }
            _ => return None,
        }
    }
    Some(v)
}
fn names<'a>(t: &[Tok<'a>], i: &mut usize) -> Vec<&'a str> {
    let mut v = vec![];
    while let Some(Tok::Name(n)) = t.get(*i) { v.push(*n); *i += 1 }
    v
}
fn mirrors<'a>(t: &[Tok<'a>], i: &mut usize) -> Option<Vec<Mirror<'a>>> {
    let mut v = vec![];
    while t.get(*i) == Some(&Tok::Mirror) {
        *i += 1;
        let n = names(t, i);
        if n.is_empty() { return None }
        v.push(Mirror(n));
    }
    Some(v)
}
fn num(t: &[Tok], i: &mut usize) -> Option<i16> {
    let Some(Tok::Num(n)) = t.get(*i) else { return None };
    *i += 1;
    n.parse().ok()
}
fn model(text: &str) -> Option<Pool<'_>> {
    let t = lex(text)?;
    let mut i = 0;
    let mut v = vec![];
    match t.first()? {
        Tok::Name(_) => v.extend(names(&t, &mut i).into_iter().map(Tlv::Disk)),
        Tok::Mirror => v.extend(mirrors(&t, &mut i)?.into_iter().map(Tlv::Mirror)),
        Tok::Raid => while t.get(i) == Some(&Tok::Raid) {
            i += 1;
            let k = num(&t, &mut i)?;
            let f = num(&t, &mut i)?;
            let vdevs: Vec<_> = match t.get(i)? {
                Tok::Mirror => mirrors(&t, &mut i)?.into_iter().map(RaidChild::Mirror).collect(),
                _ => names(&t, &mut i).into_iter().map(|d| RaidChild::Disk(Disk(d))).collect(),
            };
            if vdevs.is_empty() { return None }
            v.push(Tlv::Raid(Raid { k, f, vdevs }));
        },
        Tok::Num(_) => return None,
    }
    (i == t.len()).then_some(Pool(v))
}

fn name(s: &mut Src) -> String {
    const FIRST: &[u8] = b"/abdmrZA";
    const REST: &[u8] = b"da0/1mirraid9-_.:Z~+%@\"'\\(*[";
    match s.below(12) {
        0 => format!("/dev/da{}", s.below(300)),
        1 => format!("da{}", s.below(30)),
        2 => format!("/tmp/bfffs.{}.img", s.below(10)),
        3 => format!("mirror{}", s.below(10)),
        4 => format!("raid{}", s.below(10)),
        5 => "/mirror".into(),
        6 => "Raid".into(),
        7 => (*s.pick(&["mirro", "rai", "raidz", "mirrors", "/raid", "MIRROR"])).into(),
        8 => format!("/dev/disk/é{}", s.below(10)),
        _ => {
            let n = s.urange(0, 12);
            let n = if s.chance(1, 20) { s.urange(0, 1100) } else { n };
            let mut v = vec![if s.bool() { *s.pick(FIRST) } else { (if s.bool() { b'a' } else { b'A' }) + s.below(26) as u8 } as char];
            v.extend((0..n).map(|_| if s.chance(3, 4) { *s.pick(REST) } else { s.range(33, 126) as u8 } as char));
            let t: String = v.into_iter().collect();
            if t == "raid" || t == "mirror" { "x".into() } else { t }
        }
    }
}
fn number(s: &mut Src) -> String {
    let n = s.skew(0, 70000);
    match s.below(8) {
        0 => format!("{n:06}"),
        1 => (*s.pick(&["32767", "32768", "65535", "65536", "2147483648", "9223372036854775808", "99999999999999999999999999"])).into(),
        _ => s.skew(0, 32767).to_string(),
    }
}
fn sep(s: &mut Src) -> &'static str { *s.pick(&[" ", " ", " ", "  ", "\t", "\n", " \t "]) }

/// A legal specification, printed, must be read back as it was
fn legal(s: &mut Src) -> R {
    let shape = s.below(4);
    let n = if s.chance(1, 10) { s.urange(1, 40) } else { s.urange(1, 4) };
    // (k, f, children)
    let mut words: Vec<String> = vec![];
    let mut tops: Vec<(i16, i16, Vec<Vec<String>>)> = vec![];
    for _ in 0..n {
        let kids: Vec<Vec<String>> = match shape {
            0 => vec![vec![name(s)]],
            1 => vec![{ let m = s.urange(1, 4); (0..m).map(|_| name(s)).collect() }],
            2 => { let m = if s.chance(1, 10) { s.urange(1, 60) } else { s.urange(1, 6) }; (0..m).map(|_| vec![name(s)]).collect() }
            _ => { let m = s.urange(1, 4); (0..m).map(|_| { let q = s.urange(1, 3); (0..q).map(|_| name(s)).collect() }).collect() }
        };
        let (k, f) = (s.skew(0, 32767) as i16, s.skew(0, 32767) as i16);
        if shape >= 2 {
            words.extend(["raid".into(), if s.chance(1, 8) { format!("{k:07}") } else { k.to_string() }, f.to_string()]);
        }
        for kid in &kids {
            if shape % 2 == 1 { words.push("mirror".into()) }
            words.extend(kid.iter().cloned());
        }
        tops.push((k, f, kids));
    }
    let mut text = String::new();
    if s.chance(1, 8) { text += sep(s) }
    for (i, w) in words.iter().enumerate() {
        if i > 0 { text += sep(s) }
        text += w;
    }
    if s.chance(1, 8) { text += sep(s) }
    s.note(format!("{text:?}"));
    s.nontrivial();
    let want = Pool(tops.iter().map(|(k, f, kids)| {
        let strs = |v: &'_ Vec<String>| -> Vec<&str> { unsafe { std::mem::transmute(v.iter().map(|x| &x[..]).collect::<Vec<&str>>()) } };
        match shape {
            0 => Tlv::Disk(&kids[0][0]),
            1 => Tlv::Mirror(Mirror(strs(&kids[0]))),
            2 => Tlv::Raid(Raid { k: *k, f: *f, vdevs: kids.iter().map(|d| RaidChild::Disk(Disk(&d[0]))).collect() }),
            _ => Tlv::Raid(Raid { k: *k, f: *f, vdevs: kids.iter().map(|m| RaidChild::Mirror(Mirror(strs(m)))).collect() }),
        }
    }).collect());
    s.class(["disks", "mirrors", "raid of disks", "raid of mirrors"][shape as usize]);
    match PoolParser::new().parse(&text) {
        Ok(p) => ensure_eq!(p, want, "{text:?}"),
        Err(e) => return Err(Bad::Fail(format!("{text:?} was refused: {e:?}"))),
    }
    Ok(())
}
/// Any sequence of words is accepted if and only if it's in the grammar, and never panics
fn arbitrary(s: &mut Src) -> R {
    let n = s.urange(0, 14);
    let mut text = String::new();
    let mut last = 0;
    for i in 0..n {
        if i > 0 && !s.chance(1, 40) { text += sep(s) }
        // Mostly follow the grammar, sometimes not
        let k = if s.chance(3, 4) {
            match last { 1 => 3, 2 => 2, 22 => 2, _ => s.weighted(&[0, 2, 2, 8]) as u64 }
        } else { s.below(5) };
        match k {
            0 => text += &number(s),
            1 => text += "mirror",
            2 if last == 2 || last == 22 => text += &number(s),
            2 => text += "raid",
            3 => text += &name(s),
            _ => text += s.pick(&["-", "0", ",", "=", "#", "é", "--", "raid", "mirror", "3 1", "1.5", "-1", "+3"]),
        }
        last = match (k, last) { (1, _) => 1, (2, 2) => 22, (2, 22) => 3, (2, _) => 2, _ => 0 };
    }
    s.note(format!("{text:?}"));
    let want = model(&text);
    if n > 1 { s.nontrivial() }
    s.class(if want.is_some() { "legal" } else { "illegal" });
    match catch(|| PoolParser::new().parse(&text).map_err(|e| format!("{e:?}"))) {
        Ok(got) => ensure_eq!(got.as_ref().ok(), want.as_ref(), "{text:?}: {:?}", got),
        Err(m) => ensure!(false, "{text:?}: {m}"),
    }
    Ok(())
}
pub fn property() -> Prop {
    Prop { id: "C13", assumptions: &["Words are separated by spaces, tabs and newlines."], checks: vec![
        Check::new("grammar-legal", "Printed specifications of every shape (disks, mirrors, RAID of disks, RAID of mirrors), read back; non-trivial = always.", 60_000, 800_000, legal),
        Check::new("grammar-arbitrary", "Sequences of words, legal and not, compared with an independent recursive-descent reading; non-trivial = at least two words.", 100_000, 1_600_000, arbitrary),
    ] }
}
