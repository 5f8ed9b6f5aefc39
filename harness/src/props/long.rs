//! Enumerated long inputs for the monitors about texts and about values as objects: every length
//! up to about 300, and lengths around powers of two up to 2^20, with the interesting thing at the
//! first, the last and in between positions.
use super::msg::{self, accessors, array_one};
use super::sizes::{ascii, dotted, path, SIZES};
use super::text::{append, match_one, names_one, pair, parse_one, rules_one, sig_one, types_one};
use crate::conv::{self, RR};
use crate::ctx::*;
use crate::model::*;
use crate::{bail, build, ensure};
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;

const NS: u64 = SIZES.len() as u64;
fn spots(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 63, 64, 127, 128, 254, 255, 256, 257, 4095, 4096, 65535, 65536, n / 2, n / 3];
    for k in 1..4 {
        v.push(n.saturating_sub(k));
    }
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    v
}

// ---- names

pub fn c09_enums() -> u64 {
    320 + NS
}
pub fn c09(k: u64, c: &mut Ctx) -> Out {
    if k >= 320 {
        let n = SIZES[(k - 320) as usize].min(262_144);
        let ok = path(n).into_bytes();
        names_one(&ok, c)?;
        names_one(dotted(n).as_bytes(), c)?;
        for at in spots(n) {
            for x in [b'.', b'/', 0xc3, b'-'] {
                let mut b = ok.clone();
                b[at] = x;
                names_one(&b, c)?;
            }
        }
        c.n("long texts", 1);
        return Ok(());
    }
    let n = k as usize + 1;
    let mut texts = vec![ascii(n), path(n)];
    if n >= 4 {
        texts.push(dotted(n));
        texts.push(format!(":{}", dotted(n - 1)));
        texts.push(format!(":{}", "0.".repeat(n)[..n - 2].to_string() + "z"));
        texts.push("k.".repeat(n)[..n - 1].to_string() + "z");
        texts.push("/k".repeat(n)[..n - 1].to_string() + "z");
    }
    for t in &texts {
        names_one(t.as_bytes(), c)?;
    }
    c.n("lengths", 1);
    // one odd byte at every position
    if n <= 40 || n % 16 == 0 || (250..258).contains(&n) {
        for t in &texts {
            for at in 0..n.min(t.len()) {
                for x in [b'.', b'/', b'-', b'0', b' ', 0x80] {
                    let mut b = t.clone().into_bytes();
                    b[at] = x;
                    names_one(&b, c)?;
                }
            }
        }
    }
    Ok(())
}

// ---- object paths

pub fn c10_enums() -> u64 {
    260 + NS
}
pub fn c10(k: u64, c: &mut Ctx) -> Out {
    let n = if k < 260 { k as usize + 1 } else { SIZES[(k - 260) as usize].min(262_144) };
    let el = |i: usize| ["a", "bc", "_", "0d", "e"][(i * 7 + i / 5) % 5].to_string();
    // long elements
    let e = ascii(n);
    for base in ["/", "/a", "/a/b_/c"] {
        let mut p = build!(c, conv::path(base));
        let mut m: Vec<String> = if base == "/" { vec![] } else { base[1..].split('/').map(|x| x.into()).collect() };
        let (q, qm) = (p.clone(), m.clone());
        append(&mut p, &mut m, &e, c)?;
        pair(&p, &q, &m, &qm)?;
        pair(&q, &p, &qm, &m)?;
        append(&mut p, &mut m, "z", c)?;
        append(&mut p, &mut m, "", c)?;
        pair(&p, &q, &m, &qm)?;
        // neighbours of the long element
        for at in spots(n) {
            let mut x = e.clone().into_bytes();
            for odd in [b'/', b'-', b'A', b'_'] {
                x[at] = odd;
                let x = String::from_utf8(x.clone()).unwrap();
                let (mut r, mut rm) = (q.clone(), qm.clone());
                append(&mut r, &mut rm, &x, c)?;
                pair(&p, &r, &m, &rm)?;
                pair(&r, &p, &rm, &m)?;
            }
        }
        for cut in [1, 2, n / 2] {
            if cut > 0 && cut < n {
                let (mut r, mut rm) = (q.clone(), qm.clone());
                append(&mut r, &mut rm, &e[..cut], c)?;
                pair(&p, &r, &m, &rm)?;
                let (mut r, mut rm) = (q.clone(), qm.clone());
                append(&mut r, &mut rm, &e[..n - cut], c)?;
                pair(&p, &r, &m, &rm)?;
            }
        }
    }
    // many elements
    let ma: Vec<String> = (0..n).map(el).collect();
    let join = |m: &[String]| if m.is_empty() { "/".to_string() } else { m.iter().map(|x| format!("/{}", x)).collect() };
    let a = build!(c, conv::path(&join(&ma)));
    let mut cuts = spots(n + 1);
    cuts.push(n);
    for at in cuts {
        let mb = ma[..at].to_vec();
        let b = build!(c, conv::path(&join(&mb)));
        pair(&a, &b, &ma, &mb)?;
        pair(&b, &a, &mb, &ma)?;
        if at > 0 {
            let mut mb = mb;
            mb[at - 1].push('x');
            let b = build!(c, conv::path(&join(&mb)));
            pair(&a, &b, &ma, &mb)?;
            pair(&b, &a, &mb, &ma)?;
        }
    }
    let (mut p, mut m) = (build!(c, conv::path(&join(&ma))), ma);
    append(&mut p, &mut m, "last", c)?;
    append(&mut p, &mut m, "no/t", c)?;
    pair(&p, &a, &m, &m[..n].to_vec())?;
    c.key(1 << 59 | n as u64);
    c.n("long paths", 1);
    Ok(())
}

// ---- signatures

pub fn c11_enums() -> u64 {
    300 + NS
}
pub fn c11(k: u64, c: &mut Ctx) -> Out {
    let b = |x: u8| RT::B(x);
    if k >= 300 {
        let n = SIZES[(k - 300) as usize];
        for t in [&b"y"[..], b"ay", b"(s)", b"a{sv}", b"a", b"(", b"v)"] {
            let x: Vec<u8> = t.iter().copied().cycle().take(n).collect();
            sig_one(&x, c)?;
        }
        if n < 5000 {
            types_one(&vec![b(b'y'); n], c)?;
            types_one(&[RT::S(vec![b(b's'); n])], c)?;
        }
        c.n("long texts", 1);
        return Ok(());
    }
    let n = k as usize;
    types_one(&vec![b(b'y'); n], c)?;
    types_one(&(0..n).map(|i| b(b"ybnqiuxtdsoghv"[i % 14])).collect::<Vec<_>>(), c)?;
    if n > 0 {
        types_one(&[RT::S(vec![b(b'v'); n])], c)?;
        types_one(&vec![RT::A(Box::new(b(b'y'))); n], c)?;
        types_one(&vec![RT::S(vec![b(b'y')]); n], c)?;
        types_one(&vec![RT::A(Box::new(RT::D(Box::new((b(b's'), b(b'v')))))); n], c)?;
        types_one(&[b(b'y'), RT::S(vec![RT::S(vec![b(b'x'); n])])], c)?;
    }
    c.n("lengths", 1);
    // one odd character at every position
    if n > 0 && n < 258 && (n % 8 == 0 || n > 250) {
        for t in [&b"y"[..], b"ay", b"(s)", b"a{sv}"] {
            let x: Vec<u8> = t.iter().copied().cycle().take(n).collect();
            sig_one(&x, c)?;
            for at in 0..n {
                for ch in b"ra({})\0\xff" {
                    let mut y = x.clone();
                    y[at] = *ch;
                    sig_one(&y, c)?;
                }
            }
        }
    }
    Ok(())
}

// ---- values

pub fn c12_enums() -> u64 {
    130 + NS
}
pub fn c12(k: u64, c: &mut Ctx) -> Out {
    let n = if k < 130 { k as usize + 1 } else { SIZES[(k - 130) as usize].min(65_537) };
    let forms: [(RT, RV, RV); 5] = [
        (RT::B(b'u'), RV::U(1), RV::I(1)),
        (RT::B(b's'), RV::S("a".into()), RV::O("/a".into())),
        (RT::B(b'v'), RV::V(Box::new(RV::Y(1))), RV::Y(1)),
        (RT::S(vec![RT::B(b'y'), RT::B(b's')]), RV::R(vec![RV::Y(1), RV::S("".into())]), RV::R(vec![RV::Y(1), RV::O("/".into())])),
        (
            RT::A(Box::new(RT::B(b'y'))),
            RV::A(RT::B(b'y'), vec![RV::Y(1)]),
            RV::A(RT::B(b'b'), vec![]),
        ),
    ];
    for (t, good, bad) in forms {
        let mut xs = vec![good.clone(); n];
        array_one(&t, &xs, c)?;
        for at in spots(n) {
            xs[at] = bad.clone();
            array_one(&t, &xs, c)?;
            xs[at] = good.clone();
        }
    }
    // a struct of many members
    let v = RV::R((0..n).map(|i| if i % 3 == 0 { RV::Y(i as u8) } else { RV::S("m".into()) }).collect());
    let lib = build!(c, conv::val(&v));
    msg::types_of(&v, &lib, c)?;
    c.key(1 << 59 | k);
    c.n("long lists", 1);
    Ok(())
}

// ---- match rules

fn contents(n: usize) -> Vec<String> {
    let cyc = |t: &str| {
        let mut s = String::new();
        let mut it = t.chars().cycle();
        while let Some(ch) = it.next() {
            if s.len() + ch.len_utf8() > n {
                break;
            }
            s.push(ch);
        }
        s
    };
    let mut v = vec![ascii(n), cyc("'"), cyc(","), cyc("\\"), cyc("\\'"), cyc("',"), cyc("a'\\,= \u{e9}\u{1f600}"), cyc("\u{20ac}")];
    // one special character at a place
    for at in spots(n).into_iter().rev().take(5) {
        for ch in ["'", ",", "\\"] {
            let mut x = ascii(n);
            x.replace_range(at..at + 1, ch);
            v.push(x);
        }
    }
    v
}
/// All characters, in blocks.
pub const BLOCKS: u64 = 0x110;
fn block(k: u64) -> Vec<char> {
    ((k as u32) << 12..(k as u32 + 1) << 12).filter_map(char::from_u32).collect()
}
pub fn c14_enums() -> u64 {
    NS + 70 + BLOCKS
}
pub fn c14(k: u64, c: &mut Ctx) -> Out {
    if k >= NS + 70 {
        for x in block(k - NS - 70).chunks(21) {
            let r: Vec<RR> = (0..).zip(x).flat_map(|(i, x)| [RR::Arg(i * 3, x.to_string()), RR::Arg(i * 3 + 1, format!("{}a", x)), RR::Arg(i * 3 + 2, format!("a,{}", x))]).collect();
            rules_one(&r, c)?;
        }
        c.n("blocks of characters", 1);
        return Ok(());
    }
    let n = if k < NS { SIZES[k as usize].min(131_073) } else { (k - NS) as usize + 1 };
    for x in contents(n) {
        rules_one(&[RR::Arg(0, x.clone())], c)?;
        if n < 70_000 {
            rules_one(&[RR::Type(1), RR::Arg(63, x.clone()), RR::Member("m".into()), RR::Arg(5, x)], c)?;
        }
    }
    rules_one(&[RR::Path(path(n)), RR::PathNs(path(n + 1)), RR::ArgPath(7, path(n)), RR::Eaves(true)], c)?;
    // many rules
    let many: Vec<RR> = (0..n.min(8193))
        .map(|i| match i % 5 {
            0 => RR::Arg(i % 64, format!("v{}", i)),
            1 => RR::ArgPath(i % 64, format!("/p{}", i)),
            2 => RR::Eaves(i % 2 == 0),
            3 => RR::Arg((i / 7) % 64, "a','b".into()),
            _ => RR::Type((i % 4) as u8 + 1),
        })
        .collect();
    rules_one(&many, c)?;
    c.n("long values and lists", 1);
    Ok(())
}
pub fn c15_enums() -> u64 {
    NS + 40 + BLOCKS
}
pub fn c15(k: u64, c: &mut Ctx) -> Out {
    if k >= NS + 40 {
        let b = block(k - NS - 40);
        for x in b.chunks(16) {
            let r: Vec<String> = (0..).zip(x).flat_map(|(i, x)| [format!("arg{}={}", i * 4, x), format!("arg{}='{}'", i * 4 + 1, x), format!("arg{}={}a", i * 4 + 2, x), format!("arg{}=a{}", i * 4 + 3, x)]).collect();
            parse_one(&r.join(","), c)?;
        }
        for x in &b[..b.len().min(if k < NS + 43 { 4096 } else { 64 })] {
            for t in [format!("{}=a", x), format!("arg0{}=a", x), format!("{}arg0=a", x), format!("arg0=a,{}", x), format!("arg0=a{}type=signal", x), format!("type={}signal", x), format!("eavesdrop=true{}", x), format!("arg{}=a", x), format!("member=a{}", x), format!("path=/a{}", x)] {
                parse_one(&t, c)?;
            }
        }
        c.n("blocks of characters", 1);
        return Ok(());
    }
    let n = if k < NS { SIZES[k as usize].min(131_073) } else { (k - NS) as usize + 1 };
    for x in contents(n) {
        for t in [format!("arg0={}", x), format!("arg0='{}'", x), format!("arg1=a,arg0='{}',type=signal", x), format!("'{}'=a", x), x] {
            parse_one(&t, c)?;
        }
    }
    let rep = |t: &str| t.repeat(n / t.len() + 1);
    for t in [
        format!("path={}", path(n)),
        format!("path='{}',path_namespace={}", path(n), path(n + 1)),
        format!("path={}/", path(n)),
        format!("arg3path=''{}''", path(n)),
        format!("arg{}1=x", "0".repeat(n)),
        format!("arg{}1path=/x", "0".repeat(n)),
        format!("arg{}=x", "1".repeat(n)),
        format!("{}=x", ascii(n)),
        format!("{}{}", "arg0=x,".repeat(n.min(8193)), "arg1=y"),
        "arg0=x,".repeat(n.min(8193)),
        format!("{}{}", "arg0=x,".repeat(n.min(8193)), "arg64=y"),
        format!("arg64=y,{}", "arg0=x,".repeat(n.min(8193))),
        format!("arg0={}'", rep("''")),
        format!("arg0={}", rep("''")),
        format!("member={}", ascii(n)),
        format!("interface={}", dotted(n)),
        format!("sender=:{}", dotted(n)),
        format!("destination=:{}", dotted(n)),
        format!("arg0namespace={}", dotted(n)),
        rep(","),
        rep("="),
        rep("arg0"),
    ] {
        parse_one(&t, c)?;
    }
    c.n("long values and lists", 1);
    Ok(())
}
pub fn c16_enums() -> u64 {
    NS + 40 + BLOCKS
}
pub fn c16(k: u64, c: &mut Ctx) -> Out {
    if k >= NS + 40 {
        // characters as values, and behind paths and names
        let mut m = RM::empty();
        m.ty = 2;
        m.reply_serial = Some(1);
        let mut other = 'x';
        for x in block(k - NS - 40) {
            m.body = vec![RV::S(format!("a.b{}", x)), RV::S(x.to_string()), RV::S(format!("/a{}", x)), RV::S(format!("a{}b", x)), RV::S(format!("{}/a", x))];
            let rs = [
                RR::Arg(1, x.to_string()),
                RR::Arg(0, format!("a.b{}", x)),
                RR::Arg(3, format!("a{}b", x)),
                RR::Arg(1, other.to_string()),
                RR::Arg(1, x.to_lowercase().to_string()),
                RR::Arg(1, x.to_uppercase().to_string()),
                RR::Arg(0, "a.b".into()),
                RR::Arg(3, "ab".into()),
                RR::Arg0Ns("a.b".into()),
                RR::ArgPath(2, "/a".into()),
                RR::ArgPath(4, "/a".into()),
                RR::ArgPath(4, "/".into()),
            ];
            let (lo, hi) = rs.split_at(3);
            match_one(&m, lo, c)?;
            for r in hi {
                match_one(&m, std::slice::from_ref(r), c)?;
            }
            other = x;
        }
        c.n("blocks of characters", 1);
        return Ok(());
    }
    let n = if k < NS { SIZES[k as usize].min(131_073) } else { (k - NS) as usize + 4 };
    let mut m = RM::empty();
    m.ty = 1 + (k % 4) as u8;
    m.reply_serial = Some(1);
    m.member = Some(ascii(n.min(255)));
    m.interface = Some(dotted(n.min(255)));
    m.error_name = Some("e.e".into());
    m.sender = Some(format!(":{}", dotted(n.min(254))));
    m.destination = Some(format!(":{}", dotted(n.min(254))));
    m.path = Some(path(n));
    let (t, p) = (ascii(n), path(n));
    let long = format!("{}.{}", m.interface.as_ref().unwrap(), ascii(n));
    m.body = vec![RV::S(long.clone()), RV::S(t.clone()), RV::S(p.clone()), RV::O(p.clone())];
    let tweak = |x: &str, at: usize| -> String {
        let mut b = x.as_bytes().to_vec();
        if b[at] != b'/' && b[at] != b'.' && b[at] != b':' {
            b[at] = if b[at] == b'B' { b'C' } else { b'B' };
        }
        String::from_utf8(b).unwrap()
    };
    let ok = |k: Kind, x: &str| valid_name(k, x.as_bytes());
    let mut rs = vec![
        RR::Arg(0, long),
        RR::Arg(1, t.clone()),
        RR::Arg(2, p.clone()),
        RR::Arg(3, p.clone()),
        RR::Path(p.clone()),
        RR::PathNs(p.clone()),
        RR::ArgPath(2, p.clone()),
        RR::ArgPath(3, p.clone()),
        RR::Member(m.member.clone().unwrap()),
        RR::Interface(m.interface.clone().unwrap()),
        RR::Sender(m.sender.clone().unwrap()),
        RR::Dest(m.destination.clone().unwrap()),
        RR::Arg0Ns(m.interface.clone().unwrap()),
    ];
    match_one(&m, &rs, c)?;
    for at in spots(n) {
        rs.clear();
        let x = tweak(&t, at);
        rs.push(RR::Arg(1, x));
        rs.push(RR::Arg(1, t[..at].to_string()));
        rs.push(RR::Arg(2, p[..at].to_string()));
        for x in [tweak(&p, at), p[..at].to_string(), p[..at].trim_end_matches('/').to_string(), format!("{}/{}", p, at), format!("{}b", p)] {
            if ok(Kind::Path, &x) {
                rs.push(RR::Path(x.clone()));
                rs.push(RR::PathNs(x.clone()));
                rs.push(RR::ArgPath(2, x.clone()));
                rs.push(RR::ArgPath(3, x));
            }
        }
        macro_rules! name {
            ($f:ident, $k:ident, $r:ident) => {
                let y = m.$f.clone().unwrap();
                if at < y.len() {
                    for x in [tweak(&y, at), y[..at].to_string(), y[at..].to_string()] {
                        if ok(Kind::$k, &x) {
                            rs.push(RR::$r(x));
                        }
                    }
                }
            };
        }
        name!(member, Member, Member);
        name!(interface, Interface, Interface);
        name!(interface, Interface, Arg0Ns);
        name!(sender, Bus, Sender);
        name!(destination, Unique, Dest);
        // one by one as well as together
        match_one(&m, &rs, c)?;
    }
    // long lists in which one rule decides
    let mut m2 = m.clone();
    m2.body = (0..70).map(|i| RV::S(format!("v{}", i))).collect();
    let many = n.min(300);
    let mut rs: Vec<RR> = (0..many).map(|i| RR::Arg(i % 64, format!("v{}", i % 64))).collect();
    match_one(&m2, &rs, c)?;
    for at in spots(many) {
        let old = std::mem::replace(&mut rs[at], RR::Arg(at % 64, "other".into()));
        match_one(&m2, &rs, c)?;
        rs[at] = old;
    }
    c.n("long values and lists", 1);
    Ok(())
}

// ---- messages as objects

/// Names of every length: path, interface, member, error, two bus names, a text.
fn names(n: usize) -> [String; 7] {
    let l = |lo: usize| n.max(lo).min(255);
    [
        path(n),
        dotted(l(3)),
        ascii(l(1)),
        dotted(258 - l(3)),
        dotted(l(4)),
        format!(":{}", dotted(l(4) - 1)),
        super::sizes::multi(n),
    ]
}
pub fn c18_enums() -> u64 {
    257 + NS + BLOCKS
}
/// Names of the `k`-th length, and a text: of that length, or of all characters of a block.
fn names_and_text(k: u64) -> (usize, [String; 7]) {
    if k < 257 + NS {
        let n = if k < 257 { k as usize + 1 } else { SIZES[(k - 257) as usize].min(131_073) };
        return (n, names(n));
    }
    let mut x = names(9);
    let b = block(k - 257 - NS);
    x[6] = b.iter().take(if k % 3 == 0 { 1 } else { 4096 }).collect();
    if k % 2 == 0 {
        x[6].insert(0, 'a');
    }
    if k % 5 == 0 {
        x[6].push('a');
    }
    (9, x)
}
pub fn c18(k: u64, c: &mut Ctx) -> Out {
    let (n, [p, i, mb, e, b1, b2, t]) = names_and_text(k);
    for ty in 1..=4 {
        let mut m = RM::empty();
        m.ty = ty;
        m.le = (k + ty as u64) % 2 == 0;
        m.serial = (n as u32).wrapping_mul(0x0100_0193);
        m.path = Some(p.clone());
        m.interface = Some(i.clone());
        m.member = Some(mb.clone());
        m.error_name = Some(e.clone());
        m.reply_serial = Some(9);
        m.sender = Some(b1.clone());
        m.destination = Some(b2.clone());
        m.body = vec![RV::S(t.clone()); n % 255 + 1];
        if n > 1000 {
            m.body.truncate(2);
        }
        let msg = build!(c, conv::msg(&m));
        msg::reply_one(&m, &msg, &t, &e, c)?;
        std::mem::swap(&mut m.sender, &mut m.destination);
        m.path = None;
        if ty == 2 || ty == 3 {
            let msg = build!(c, conv::msg(&m));
            msg::reply_one(&m, &msg, &t, &e, c)?;
        }
    }
    c.key(1 << 59 | k);
    c.n("names of enumerated lengths", 1);
    Ok(())
}
pub fn c25(k: u64, c: &mut Ctx) -> Out {
    let (_, [p, i, mb, _, b1, b2, t]) = names_and_text(k);
    let v = super::sizes::get(k * 37 % super::sizes::count(false), false).and_then(|m| m.body.first().cloned()).unwrap_or(RV::Y(1));
    msg::c25_one(p.clone(), i.clone(), b1, mb.clone(), t.clone(), v.clone(), c)?;
    c.n("names of enumerated lengths", 1);
    msg::c25_one(p, i, b2, mb, t, v, c)
}
/// Bodies built value by value, past the number of values a message can carry.
pub fn c20_enums() -> u64 {
    16
}
pub fn c20(k: u64, c: &mut Ctx) -> Out {
    let mut m = RM::empty();
    m.ty = (k % 4) as u8 + 1;
    m.le = k % 2 == 0;
    m.path = Some("/p".into());
    m.interface = Some("i.j".into());
    m.member = Some("m".into());
    m.error_name = Some("e.f".into());
    m.reply_serial = Some(5);
    let mut msg = build!(c, conv::msg(&m));
    for i in 0..300u64 {
        let v = match k {
            0..=13 => super::wirep::leaf(b"ybnqiuxtdsoghv"[k as usize], i * 3 + i / 5),
            14 => RV::R(vec![RV::Y(i as u8), RV::S("x".repeat(i as usize))]),
            _ => super::wirep::leaf(b"ybnqiuxtdsoghv"[(i % 14) as usize], i),
        };
        msg.add_value(build!(c, conv::val(&v)));
        m.body.push(v);
        if i % 7 == 3 {
            m.serial = (i as u32).wrapping_mul(0x0101_0101);
            msg.set_serial(m.serial);
        }
        if i % 11 == 5 {
            let ok = msg.encode_with_fds().is_ok();
            ensure!(ok == encode_limit(&m).is_none(), "a body of {} values: encodes: {}", m.body.len(), ok);
        }
        if i % 13 == 6 {
            let (h, b) = match msg.split() {
                Ok(x) => x,
                Err(e) => bail!("a body of {} values cannot be split: {:?}", m.body.len(), e),
            };
            ensure!(conv::rvs(&b) == m.body, "splitting changed a body of {} values", m.body.len());
            msg = Message::new(h, b);
        }
        accessors(&msg, &m).map_err(|e| format!("after {} values: {}", i + 1, e))?;
        c.n("steps", 1);
    }
    c.key(1 << 59 | k);
    Ok(())
}
/// Items which differ in one place of many.
pub fn c26_enums() -> u64 {
    64 + NS
}
pub fn c26(k: u64, c: &mut Ctx) -> Out {
    c.key(1 << 59 | k);
    if k < 64 {
        let n = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 192, 200, 253, 254, 255, 256, 257]
            [(k / 2) as usize];
        for kind in KINDS {
            let base = match kind {
                Kind::Path => path(n),
                Kind::Member => ascii(n),
                Kind::Unique => format!(":{}", dotted(n.max(4) - 1)),
                Kind::Bus if k % 2 == 1 => format!(":{}", dotted(n.max(4) - 1)),
                _ => dotted(n.max(3)),
            };
            if !valid_name(kind, base.as_bytes()) {
                continue;
            }
            for at in 0..base.len() {
                let mut ts = vec![base.clone(), base.clone()];
                for x in if k % 2 == 0 { [b'A', b'_'] } else { [b'z', b'9'] } {
                    let mut b = base.clone().into_bytes();
                    if b[at] != b'/' && b[at] != b'.' && b[at] != b':' {
                        b[at] = x;
                    }
                    ts.push(String::from_utf8(b).unwrap());
                }
                ts.push(base[..at].to_string());
                ts.push(format!("{}q", base));
                ts.retain(|t| valid_name(kind, t.as_bytes()));
                msg::names_laws(kind, &ts, c)?;
            }
        }
        return Ok(());
    }
    // arrays, structs, bodies and texts
    let n = SIZES[(k - 64) as usize].min(65_537);
    let mk = |form: u64, v: Vec<RV>| match form {
        0 => RV::A(RT::B(b'u'), v),
        1 => RV::R(v),
        _ => RV::V(Box::new(RV::R(v))),
    };
    for form in 0..3 {
        let base: Vec<RV> = (0..n).map(|i| RV::U(i as u32)).collect();
        let a = build!(c, conv::val(&mk(form, base.clone())));
        let same = build!(c, conv::val(&mk(form, base.clone())));
        ensure!(a == same && !(a != same), "two equal values of {} parts differ", n);
        for at in spots(n) {
            let mut v = base.clone();
            v[at] = RV::U(u32::MAX);
            let b = build!(c, conv::val(&mk(form, v.clone())));
            ensure!(a != b && !(a == b) && a < b && b > a, "values which differ in part {} of {}: == {}, order {:?}", at, n, a == b, a.partial_cmp(&b));
            v.remove(at);
            let d = build!(c, conv::val(&mk(form, v)));
            ensure!(a != d && a.partial_cmp(&d) == d.partial_cmp(&a).map(|o| o.reverse()), "a value without part {} of {}", at, n);
            c.n("different pairs", 2);
        }
    }
    let t = ascii(n);
    for at in spots(n) {
        let mut b = t.clone().into_bytes();
        b[at] = b'~';
        let (x, y) = (Value::String(t.clone()), Value::String(String::from_utf8(b).unwrap()));
        ensure!(x != y && x < y && x == x.clone(), "texts which differ at {} of {}", at, n);
    }
    Ok(())
}
