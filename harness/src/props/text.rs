//! Monitors about names, paths, signatures and match rules: C09-C11, C14-C16.
use crate::conv::{self, RR};
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::tape::Src;
use crate::{bail, build, ensure};
use dbus_message_parser::match_rule::MatchRule;
use dbus_message_parser::value::*;
use std::convert::TryFrom;

/// `n`-th text over an alphabet, shortest first.
pub fn nth(alpha: &[char], mut n: u64) -> String {
    let k = alpha.len() as u64;
    let mut len = 0;
    let mut size = 1;
    while n >= size {
        n -= size;
        size *= k;
        len += 1;
    }
    let mut s: Vec<char> = vec![];
    for _ in 0..len {
        s.push(alpha[(n % k) as usize]);
        n /= k;
    }
    s.into_iter().rev().collect()
}
pub fn count(k: u64, len: u32) -> u64 {
    (0..=len).map(|l| k.pow(l)).sum()
}
const BLOCK: u64 = 1000;

macro_rules! name_check {
    ($t:ident, $k:expr, $b:expr, $c:expr) => {{
        let b: &[u8] = $b;
        let want = valid_name($k, b);
        let show = || brief(&format!("{:?}", String::from_utf8_lossy(b)), 700);
        let mut made: Vec<$t> = vec![];
        let r = $t::try_from(b);
        let e = if want { None } else { $t::try_from(b).err() };
        ensure!(r.is_ok() == want, "{} from bytes {} ({} bytes): {:?}, the grammar says {}", stringify!($t), show(), b.len(), r, want);
        made.extend(r);
        if let Ok(s) = std::str::from_utf8(b) {
            let r = $t::try_from(s);
            ensure!(r.as_ref().err() == e.as_ref(), "{} from borrowed text {}: {:?}, but from bytes {:?}", stringify!($t), show(), r, e);
            ensure!(r.is_ok() == want, "{} from borrowed text {} ({} bytes): {:?}, the grammar says {}", stringify!($t), show(), b.len(), r, want);
            made.extend(r);
            let r = $t::try_from(s.to_string());
            ensure!(r.as_ref().err() == e.as_ref(), "{} from owned text {}: {:?}, but from bytes {:?}", stringify!($t), show(), r, e);
            ensure!(r.is_ok() == want, "{} from owned text {} ({} bytes): {:?}, the grammar says {}", stringify!($t), show(), b.len(), r, want);
            made.extend(r);
        }
        $c.n(if want { concat!("valid ", stringify!($t)) } else { concat!("invalid ", stringify!($t)) }, 1);
        if want {
            let s = std::str::from_utf8(b).unwrap();
            ensure!(made.len() == 3, "{} {}: only {} of 3 sources", stringify!($t), show(), made.len());
            for (i, x) in made.iter().enumerate() {
                let a: &str = x.as_ref();
                ensure!(a == s, "{} from {}: borrowing gives {:?}", stringify!($t), show(), a);
                ensure!(x.to_string() == s, "{} from {}: display gives {:?}", stringify!($t), show(), x.to_string());
                ensure!(x == s, "{} from {}: not equal to its own text", stringify!($t), show());
                for o in others(s) {
                    ensure!(*x != *o.as_str(), "{} from {}: equal to the different text {:?}", stringify!($t), show(), o);
                }
                ensure!(x == &made[(i + 1) % 3], "{} from {}: sources give unequal names", stringify!($t), show());
                let t: String = x.clone().into();
                ensure!(t == s, "{} from {}: conversion to text gives {:?}", stringify!($t), show(), t);
            }
        }
    }};
}
fn others(s: &str) -> Vec<String> {
    let mut v = vec![format!("{}a", s), s[..s.len() - 1].to_string(), format!(":{}", s), s[1..].to_string()];
    let l = s.as_bytes()[s.len() - 1];
    v.push(format!("{}{}", &s[..s.len() - 1], if l == b'b' { 'c' } else { 'b' }));
    v.push(String::new());
    v
}
pub fn names_one(b: &[u8], c: &mut Ctx) -> Out {
    name_check!(Interface, Kind::Interface, b, c);
    name_check!(Member, Kind::Member, b, c);
    name_check!(Error, Kind::Error, b, c);
    name_check!(UniqueConnectionName, Kind::Unique, b, c);
    name_check!(WellKnownBusName, Kind::WellKnown, b, c);
    name_check!(Bus, Kind::Bus, b, c);
    name_check!(ObjectPath, Kind::Path, b, c);
    if let (true, Ok(s)) = (valid_name(Kind::Bus, b), std::str::from_utf8(b)) {
        for x in [Bus::try_from(b), Bus::try_from(s), Bus::try_from(s.to_string())] {
            match x {
                Ok(Bus::UniqueConnectionName(n)) => ensure!(b[0] == b':' && n == *s, "{:?} is made a unique connection name {:?}", s, n),
                Ok(Bus::WellKnownBusName(n)) => ensure!(b[0] != b':' && n == *s, "{:?} is made a well-known name {:?}", s, n),
                Err(e) => bail!("bus name {:?}: {:?}", s, e),
            }
        }
    }
    c.key_bytes(b);
    Ok(())
}
pub fn c09(s: &mut Src, c: &mut Ctx) -> Out {
    let k = KINDS[s.below(7)];
    let b = gen::name_any(s, k);
    c.sample(|| format!("{:?} {:?}", k, String::from_utf8_lossy(&b)));
    names_one(&b, c)
}
const NA: [char; 9] = ['/', '.', ':', '-', '_', '0', 'a', 'Z', '\u{e9}'];
fn na(t: bool) -> u64 {
    (count(9, if t { 7 } else { 6 }) + BLOCK - 1) / BLOCK
}
const TEMPLATES: [&str; 10] =
    ["a.b", "ab.cd.ef", ":1.2", ":a-.b", "a-b.c-", "/", "/a", "/ab/c_", "Mem", "org.freedesktop.DBus"];
fn c09_short(t: bool) -> u64 {
    na(t) + TEMPLATES.len() as u64 + 7 * 12
}
pub fn c09_enums(t: bool) -> u64 {
    c09_short(t) + super::long::c09_enums()
}
pub fn c09_enum(n: u64, c: &mut Ctx) -> Out {
    let short = c09_short(c.thorough);
    if n >= short {
        return super::long::c09(n - short, c);
    }
    let t = c.thorough;
    if n < na(t) {
        for i in n * BLOCK..((n + 1) * BLOCK).min(count(9, if t { 7 } else { 6 })) {
            names_one(nth(&NA, i).as_bytes(), c)?;
        }
        c.n("short texts enumerated", BLOCK);
        return Ok(());
    }
    let n = n - na(t);
    if let Some(w) = TEMPLATES.get(n as usize) {
        // every byte at every position: replaced, inserted; and every two-byte character
        let b = w.as_bytes();
        for at in 0..=b.len() {
            for v in 0..=255u8 {
                let mut x = b.to_vec();
                x.insert(at, v);
                names_one(&x, c)?;
                if at < b.len() {
                    let mut x = b.to_vec();
                    x[at] = v;
                    names_one(&x, c)?;
                }
            }
        }
        for ch in (0x80..0x250).chain([0x212a, 0x2160, 0xff21, 0xff10, 0x1d7d8]).filter_map(char::from_u32) {
            let mut x = w.to_string();
            x.push(ch);
            x.push('a');
            names_one(x.as_bytes(), c)?;
        }
        return Ok(());
    }
    // every length around the limit in several shapes
    let n = n - TEMPLATES.len() as u64;
    let (shape, len) = ((n / 12) as usize, 250 + (n % 12) as usize);
    for len in [len, len * 2, len + 5, len + 240] {
        let x = match shape {
            0 => "a".repeat(len),
            1 => format!("a.{}", "b".repeat(len - 2)),
            2 => format!("{}.a", "b".repeat(len - 2)),
            3 => format!(":1.{}", "2".repeat(len - 3)),
            4 => "ab.".repeat(len)[..len].to_string(),
            5 => format!("/{}", "a".repeat(len - 1)),
            _ => {
                let mut x = ":".to_string();
                x.push_str(&"1.".repeat(len));
                x[..len].to_string()
            }
        };
        names_one(x.as_bytes(), c)?;
    }
    Ok(())
}

/// A path as its elements.
fn els(p: &str) -> Vec<String> {
    if p == "/" {
        vec![]
    } else {
        p[1..].split('/').map(|x| x.to_string()).collect()
    }
}
fn join(e: &[String]) -> String {
    if e.is_empty() {
        "/".into()
    } else {
        e.iter().map(|x| format!("/{}", x)).collect()
    }
}
pub fn pair(a: &ObjectPath, b: &ObjectPath, ma: &[String], mb: &[String]) -> Out {
    let below = ma.len() > mb.len() && ma[..mb.len()] == mb[..];
    ensure!(a.starts_with(b) == below, "{} starts_with {}: {}, expected {}", a, b, a.starts_with(b), below);
    let got: Option<Vec<String>> = a.strip_prefix_elements(b).map(|x| x.map(|y| y.to_string()).collect());
    let want = if below { Some(ma[mb.len()..].to_vec()) } else { None };
    ensure!(got == want, "{} strip_prefix_elements {}: {:?}, expected {:?}", a, b, got, want);
    Ok(())
}
pub fn append(p: &mut ObjectPath, m: &mut Vec<String>, e: &str, c: &mut Ctx) -> Out {
    let ok = !e.is_empty() && e.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_');
    let before = p.to_string();
    let r = p.append(e);
    ensure!(r == ok, "appending {:?} to {}: {}", e, before, r);
    if ok {
        m.push(e.to_string());
        c.n("elements appended", 1);
    } else {
        c.n("elements refused", 1);
    }
    let want = join(m);
    let got: &str = p.as_ref();
    ensure!(got == want, "appending {:?} to {}: path becomes {:?}, expected {:?}", e, before, got, want);
    ensure!(p == want.as_str() && p.to_string() == want, "appending {:?} to {}: views of the path disagree", e, before);
    match ObjectPath::try_from(want.as_str()) {
        Ok(q) => ensure!(&q == p, "{} differs from itself parsed again", want),
        Err(e) => bail!("path {:?} is no longer valid: {:?}", want, e),
    }
    Ok(())
}
pub fn c10(s: &mut Src, c: &mut Ctx) -> Out {
    let mut pool: Vec<(ObjectPath, Vec<String>)> = vec![];
    let mut log = String::new();
    let start = if s.chance(100) { "/".to_string() } else { gen::name(s, Kind::Path) };
    let p = if start == "/" && s.chance(128) { ObjectPath::default() } else { build!(c, conv::path(&start)) };
    ensure!(p.to_string() == start, "{:?} became {:?}", start, p.to_string());
    log += &start;
    pool.push((p, els(&start)));
    let steps = 1 + s.size(30);
    for _ in 0..steps {
        let i = s.below(pool.len());
        match s.below(8) {
            0..=2 => {
                let e: String = match s.below(4) {
                    0 => s.pick(&["a", "b", "ab", "_", "0", "", "/", "a/", "/a", "-", ".", "\u{e9}", "a b", "a\0"]).to_string(),
                    1 => String::from_utf8_lossy(&gen::name_any(s, Kind::Member)).into_owned(),
                    2 => gen::name(s, Kind::Member),
                    _ => gen::text(s),
                };
                log += &format!(" append {} {:?}", i, e);
                let (p, m) = &mut pool[i];
                append(p, m, &e, c)?;
            }
            3 => {
                let mut x = pool[i].clone();
                if s.chance(100) && !x.1.is_empty() {
                    // an ancestor
                    let n = s.below(x.1.len() + 1);
                    x.1.truncate(n);
                    x.0 = build!(c, conv::path(&join(&x.1)));
                } else if s.chance(128) && !x.1.is_empty() {
                    // a sibling-like neighbour: change one element slightly
                    let k = s.below(x.1.len());
                    let e = &mut x.1[k];
                    if e.len() > 1 && s.chance(128) {
                        e.pop();
                    } else {
                        e.push(s.pick(&['a', '_', '0']));
                    }
                    x.0 = build!(c, conv::path(&join(&x.1)));
                }
                if pool.len() < 12 {
                    pool.push(x);
                }
            }
            4 => {
                let t = gen::name(s, Kind::Path);
                if pool.len() < 12 {
                    pool.push((build!(c, conv::path(&t)), els(&t)));
                }
            }
            _ => {
                let j = s.below(pool.len());
                let ((a, ma), (b, mb)) = (&pool[i], &pool[j]);
                c.n("pairs compared", 2);
                pair(a, b, ma, mb)?;
                pair(b, a, mb, ma)?;
            }
        }
    }
    for (a, ma) in &pool {
        for (b, mb) in &pool {
            c.n("pairs compared", 1);
            pair(a, b, ma, mb)?;
        }
    }
    c.sample(|| log.clone());
    c.key_bytes(log.as_bytes());
    Ok(())
}
const PE: [&str; 5] = ["a", "b", "ab", "_", "a_"];
fn small_path(mut n: usize) -> Vec<String> {
    // 1 + 5 + 25 + 125
    let mut len = 0;
    let mut size = 1;
    while n >= size {
        n -= size;
        size *= 5;
        len += 1;
    }
    (0..len)
        .map(|_| {
            let e = PE[n % 5].to_string();
            n /= 5;
            e
        })
        .collect()
}
const NP: usize = 156;
fn c10_short(_: bool) -> u64 {
    NP as u64 + 10
}
pub fn c10_enums(t: bool) -> u64 {
    c10_short(t) + super::long::c10_enums()
}
pub fn c10_enum(n: u64, c: &mut Ctx) -> Out {
    let short = c10_short(c.thorough);
    if n >= short {
        return super::long::c10(n - short, c);
    }
    if (n as usize) < NP {
        let ma = small_path(n as usize);
        let a = build!(c, conv::path(&join(&ma)));
        for j in 0..NP {
            let mb = small_path(j);
            let b = build!(c, conv::path(&join(&mb)));
            c.n("pairs compared", 1);
            c.key(n << 20 | j as u64);
            pair(&a, &b, &ma, &mb)?;
        }
        return Ok(());
    }
    // every character as (part of) an element
    let k = (n as usize) - NP;
    let (base, form) = (["/", "/a"][k % 2], k / 2);
    for ch in (0..0x300).filter_map(char::from_u32) {
        let e = match form {
            0 => format!("{}", ch),
            1 => format!("a{}", ch),
            2 => format!("{}a", ch),
            3 => format!("a{}b", ch),
            _ => format!("{}{}", ch, ch),
        };
        let mut p = build!(c, conv::path(base));
        let mut m = els(base);
        c.key(1 << 60 | n << 20 | ch as u64);
        append(&mut p, &mut m, &e, c)?;
        append(&mut p, &mut m, "z", c)?;
    }
    Ok(())
}

pub fn sig_one(b: &[u8], c: &mut Ctx) -> Out {
    let want = parse_sig(b);
    let show = || brief(&format!("{:?}", String::from_utf8_lossy(b)), 600);
    let r = Type::from_bytes_to_signature(b);
    let want_t = want.as_ref().map(|x| conv::tys(x));
    ensure!(
        r.as_ref().ok() == want_t.as_ref(),
        "signature from bytes {} ({} bytes): {}, expected {}",
        show(),
        b.len(),
        brief(&format!("{:?}", r), 800),
        brief(&format!("{:?}", want_t), 800)
    );
    let single = want_t.as_ref().filter(|x| x.len() == 1).map(|x| &x[0]);
    let t = Type::try_from(b);
    ensure!(t.as_ref().ok() == single, "type from bytes {}: {}, expected {:?}", show(), brief(&format!("{:?}", t), 800), single);
    if let Ok(s) = std::str::from_utf8(b) {
        let r2 = Type::from_string_to_signature(s);
        ensure!(r2 == r, "signature from text {} differs from the one from bytes: {}", show(), brief(&format!("{:?}", r2), 800));
        let t2 = Type::try_from(s);
        ensure!(t2 == t, "type from text {} differs from the one from bytes: {}", show(), brief(&format!("{:?}", t2), 800));
    }
    if let Ok(ts) = &r {
        c.n("signatures accepted", 1);
        let s = std::str::from_utf8(b).unwrap();
        let p = Type::from_signature_to_string(ts);
        ensure!(p.as_deref().ok() == Some(s), "{} prints as {:?}", show(), p);
        let d: String = ts.iter().map(|t| t.to_string()).collect();
        ensure!(d == s, "{} displays as {:?}", show(), d);
    } else {
        c.n("signatures rejected", 1);
    }
    c.key_bytes(b);
    Ok(())
}
/// Types to text.
pub fn types_one(ts: &[RT], c: &mut Ctx) -> Out {
    let ok = sig_ok(ts);
    let text = sig_text(ts);
    ensure!(ok == parse_sig(text.as_bytes()).is_some(), "oracle: {}", text);
    let lib = conv::tys(ts);
    let r = Type::from_signature_to_string(&lib);
    c.n(if ok { "type trees printed" } else { "type trees refused" }, 1);
    match (&r, ok) {
        (Ok(t), true) => ensure!(*t == text, "types print as {:?}, expected {:?}", t, text),
        (Err(_), false) => {}
        _ => bail!("printing {} ({} bytes): {:?}, its text {}", brief(&text, 600), text.len(), r.as_ref().map(|_| ()), if ok { "parses" } else { "does not parse" }),
    }
    if ok {
        let d: String = lib.iter().map(|t| t.to_string()).collect();
        ensure!(d == text, "types display as {:?}, expected {:?}", d, text);
        let r = Type::from_string_to_signature(&text);
        ensure!(r.as_ref() == Ok(&lib), "{} parses to {:?}", text, r);
    }
    Ok(())
}
fn type_list(s: &mut Src) -> Vec<RT> {
    match s.below(3) {
        0 => gen::signature(s),
        1 => {
            let n = 1 + s.size(3);
            (0..n).map(|_| gen::rtype_any(s)).collect()
        }
        _ => vec![gen::rtype_any(s)],
    }
}
fn sig_near(s: &mut Src, ts: &[RT]) -> Vec<u8> {
    let mut b = sig_text(ts).into_bytes();
    if s.chance(40) {
        b = s.blob(400, |r, d| {
            if r.chance(40) {
                return d.str(r);
            }
            let n = r.below(12) * r.below(30);
            (0..n).map(|_| b"yaaa((){}vs"[r.below(11)]).collect()
        });
    }
    for _ in 0..s.below(4) {
        let at = s.below(b.len() + 1);
        let ch = if s.chance(200) { s.pick(b"ybnqiuxtdsoghva(){}rem*?@&^z\0") } else { s.u8() };
        match s.below(3) {
            0 => b.insert(at, ch),
            1 if at < b.len() => {
                b.remove(at);
            }
            _ if at < b.len() => b[at] = ch,
            _ => b.push(ch),
        }
    }
    b
}
pub fn sig_bytes(s: &mut Src) -> Vec<u8> {
    let ts = type_list(s);
    sig_near(s, &ts)
}
pub fn c11(s: &mut Src, c: &mut Ctx) -> Out {
    let ts = type_list(s);
    types_one(&ts, c)?;
    let b = sig_near(s, &ts);
    c.sample(|| String::from_utf8_lossy(&b).into_owned());
    sig_one(&b, c)
}
const SA: [char; 7] = ['y', 'v', 'a', '(', ')', '{', '}'];
fn sa(t: bool) -> u64 {
    count(7, if t { 8 } else { 7 })
}
fn c11_short(t: bool) -> u64 {
    sa(t) / BLOCK + 1 + 64
}
pub fn c11_enums(t: bool) -> u64 {
    c11_short(t) + super::long::c11_enums()
}
pub fn c11_enum(n: u64, c: &mut Ctx) -> Out {
    let short = c11_short(c.thorough);
    if n >= short {
        return super::long::c11(n - short, c);
    }
    let blocks = sa(c.thorough) / BLOCK + 1;
    if n < blocks {
        for i in n * BLOCK..((n + 1) * BLOCK).min(sa(c.thorough)) {
            sig_one(nth(&SA, i).as_bytes(), c)?;
        }
        c.n("short texts enumerated", BLOCK);
        return Ok(());
    }
    let n = n - blocks;
    let (kind, k) = (n % 8, n / 8);
    let d = 29 + k as usize; // 29..36
    let wrap = |t: RT, kind: u64| match kind {
        0 => RT::A(Box::new(t)),
        1 => RT::S(vec![t]),
        2 => RT::D(Box::new((RT::B(b's'), t))),
        _ => RT::D(Box::new((t, RT::B(b's')))),
    };
    let mut ts = vec![];
    match kind {
        0..=3 => {
            let mut t = RT::B(b'y');
            for _ in 0..d {
                t = wrap(t, kind);
            }
            // alone, beside a shallow type, in a struct next to a sibling
            ts.push(vec![t.clone()]);
            ts.push(vec![RT::B(b's'), t.clone(), RT::B(b'v')]);
            ts.push(vec![RT::S(vec![RT::A(Box::new(RT::B(b'y'))), t.clone(), RT::B(b'u')])]);
            ts.push(vec![RT::A(Box::new(t.clone()))]);
            ts.push(vec![RT::D(Box::new((t.clone(), RT::B(b'y'))))]);
            // the depth is per branch
            ts.push(vec![RT::S(vec![t.clone(), t])]);
        }
        4 => {
            // all three depths together
            let mut t = RT::B(b'y');
            for i in 0..d {
                t = wrap(t, 0);
                t = wrap(t, 1);
                if i < 20 {
                    t = wrap(t, 2);
                }
            }
            ts.push(vec![t]);
        }
        5 => {
            // lengths 253..=260
            let len = 253 + k as usize;
            ts.push(vec![RT::B(b'y'); len]);
            ts.push(vec![RT::S(vec![RT::B(b'y'); len - 2])]);
            let mut v = vec![RT::A(Box::new(RT::B(b'y'))); len / 2];
            if len % 2 == 1 {
                v.push(RT::B(b's'))
            }
            ts.push(v);
        }
        6 => {
            let len = 253 + k as usize;
            let mut t = vec![RT::B(b's'); len - 4];
            t.push(RT::S(vec![RT::B(b'u'), RT::B(b'v')]));
            ts.push(t);
            let mut v = vec![RT::A(Box::new(RT::B(b'y')))];
            v.extend(vec![RT::B(b'x'); len - 2]);
            ts.push(v);
        }
        _ => {
            // every byte as a type code, in every position of a small signature
            for x in 0..=255u8 {
                for base in [&b"y"[..], b"ay", b"(yv)", b"a{sv}", b"{ss}s"] {
                    for at in 0..base.len() {
                        let mut b = base.to_vec();
                        b[at] = x;
                        sig_one(&b, c)?;
                    }
                }
            }
            return Ok(());
        }
    }
    for t in ts {
        types_one(&t, c)?;
        let b = sig_text(&t).into_bytes();
        sig_one(&b, c)?;
        for cut in [1, 2, 3] {
            sig_one(&b[..b.len() - cut], c)?;
        }
    }
    Ok(())
}

pub fn rules_one(rs: &[RR], c: &mut Ctx) -> Out {
    let lib = build!(c, conv::rules(rs));
    let t = MatchRule::encode(&lib);
    c.key_bytes(t.as_bytes());
    let parts: Vec<String> = lib.iter().map(|r| r.to_string()).collect();
    ensure!(t == parts.join(","), "rules print as {:?}, one by one as {:?}", brief(&t, 600), brief(&format!("{:?}", parts), 600));
    let back = match MatchRule::decode(&t) {
        Ok(b) => b,
        Err(e) => bail!("printed rules {:?} do not parse: {:?}; rules {}", brief(&t, 800), e, brief(&format!("{:?}", rs), 800)),
    };
    let got: Vec<RR> = back.iter().map(conv::rr).collect();
    ensure!(got == rs, "printed rules {:?} parse to {}, expected {}", brief(&t, 800), brief(&format!("{:?}", got), 800), brief(&format!("{:?}", rs), 800));
    ensure!(back == lib, "parsed rules differ from the printed ones by ==: {:?}", brief(&t, 800));
    ensure!(MatchRule::encode(&back) == t, "printing again gives {:?} after {:?}", brief(&MatchRule::encode(&back), 800), brief(&t, 800));
    for (p, r) in parts.iter().zip(&lib) {
        match MatchRule::try_from(p.as_str()) {
            Ok(x) => ensure!(x == *r, "printed rule {:?} parses alone to {:?}", brief(p, 800), x),
            Err(e) => bail!("printed rule {:?} does not parse alone: {:?}", brief(p, 800), e),
        }
    }
    c.n("rules printed and parsed", rs.len() as u64);
    Ok(())
}
pub fn c14(s: &mut Src, c: &mut Ctx) -> Out {
    let n = s.size(8);
    let rs: Vec<RR> = (0..n).map(|_| gen::rule(s, None)).collect();
    c.sample(|| format!("{:?}", rs));
    rules_one(&rs, c)
}
const QA: [char; 6] = ['\'', ',', '\\', '=', 'a', '\u{e9}'];
fn c14_short(t: bool) -> u64 {
    count(6, if t { 7 } else { 5 }) / BLOCK + 1 + 66
}
pub fn c14_enums(t: bool) -> u64 {
    c14_short(t) + super::long::c14_enums()
}
pub fn c14_enum(n: u64, c: &mut Ctx) -> Out {
    let short = c14_short(c.thorough);
    if n >= short {
        return super::long::c14(n - short, c);
    }
    let total = count(6, if c.thorough { 7 } else { 5 });
    let blocks = total / BLOCK + 1;
    if n < blocks {
        for i in n * BLOCK..((n + 1) * BLOCK).min(total) {
            let x = nth(&QA, i);
            rules_one(&[RR::Arg(0, x.clone())], c)?;
            rules_one(&[RR::Arg(1, x.clone()), RR::Type(1), RR::Arg(63, x)], c)?;
        }
        return Ok(());
    }
    // every index, every kind
    let i = (n - blocks) as usize;
    if i < 64 {
        rules_one(&[RR::Arg(i, "x".into()), RR::ArgPath(i, "/x".into()), RR::Arg(63 - i, String::new()), RR::ArgPath(63 - i, "/".into())], c)
    } else {
        for t in 1..=4 {
            rules_one(&[RR::Type(t), RR::Eaves(i == 64), RR::Eaves(i == 65)], c)?;
        }
        for x in 0..0x3000u32 {
            if let Some(ch) = char::from_u32(if i == 64 { x } else { 0xf000 + x }) {
                rules_one(&[RR::Arg(i - 60, format!("{}{}", ch, ch)), RR::Member("m".into())], c)?;
            }
        }
        rules_one(&[], c)
    }
}

/// Reference: text to raw rules with unquoted values.
fn ref_split(t: &str) -> Option<Vec<(String, String, String)>> {
    let ch: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < ch.len() {
        let start = i;
        let mut key = String::new();
        while i < ch.len() && (ch[i].is_ascii_alphanumeric() || ch[i] == '_') {
            key.push(ch[i]);
            i += 1;
        }
        if key.is_empty() || i == ch.len() || ch[i] != '=' {
            return None;
        }
        i += 1;
        let mut v: Vec<char> = vec![];
        let mut quoted = false;
        let mut after_backslash = false;
        while i < ch.len() {
            let x = ch[i];
            if quoted {
                if x == '\'' {
                    quoted = false
                } else {
                    v.push(x)
                }
                after_backslash = false;
            } else if x == ',' {
                break;
            } else if x == '\'' {
                if after_backslash {
                    *v.last_mut().unwrap() = '\'';
                } else {
                    quoted = true;
                }
                after_backslash = false;
            } else {
                v.push(x);
                after_backslash = x == '\\';
            }
            i += 1;
        }
        if quoted {
            return None;
        }
        out.push((ch[start..i].iter().collect(), key, v.into_iter().collect()));
        i += 1; // the comma
    }
    Some(out)
}
fn ref_rule(key: &str, v: &str) -> Option<RR> {
    let name = |k: Kind| if valid_name(k, v.as_bytes()) { Some(v.to_string()) } else { None };
    let index = |d: &str| -> Option<usize> {
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let d = d.trim_start_matches('0');
        match d.len() {
            0 => Some(0),
            1 | 2 => d.parse().ok().filter(|x| *x < 64),
            _ => None,
        }
    };
    match key {
        "type" => {
            let k = ["method_call", "method_return", "error", "signal"].iter().position(|x| *x == v)?;
            Some(RR::Type(k as u8 + 1))
        }
        "sender" => name(Kind::Bus).map(RR::Sender),
        "interface" => name(Kind::Interface).map(RR::Interface),
        "member" => name(Kind::Member).map(RR::Member),
        "path" => name(Kind::Path).map(RR::Path),
        "path_namespace" => name(Kind::Path).map(RR::PathNs),
        "destination" => name(Kind::Unique).map(RR::Dest),
        "eavesdrop" => match v {
            "true" => Some(RR::Eaves(true)),
            "false" => Some(RR::Eaves(false)),
            _ => None,
        },
        "arg0namespace" => name(Kind::Interface).map(RR::Arg0Ns),
        _ => {
            let k = key.strip_prefix("arg")?;
            match k.strip_suffix("path") {
                Some(d) => {
                    let i = index(d)?;
                    name(Kind::Path).map(|p| RR::ArgPath(i, p))
                }
                None => index(k).map(|i| RR::Arg(i, v.to_string())),
            }
        }
    }
}
pub fn parse_one(t: &str, c: &mut Ctx) -> Out {
    c.key_bytes(t.as_bytes());
    let raw = ref_split(t);
    let want: Option<Vec<RR>> = raw.as_ref().and_then(|r| r.iter().map(|(_, k, v)| ref_rule(k, v)).collect());
    let r = MatchRule::decode(t);
    let got: Option<Vec<RR>> = r.as_ref().ok().map(|r| r.iter().map(conv::rr).collect());
    ensure!(
        got == want,
        "rule text {:?} parses to {}, expected {}",
        brief(t, 1000),
        brief(&format!("{:?}", r), 800),
        brief(&format!("{:?}", want), 800)
    );
    c.n(if want.is_some() { "texts accepted" } else { "texts rejected" }, 1);
    if let (Some(raw), Some(want)) = (&raw, &want) {
        for ((x, _, _), w) in raw.iter().zip(want) {
            match MatchRule::try_from(x.as_str()) {
                Ok(y) => ensure!(conv::rr(&y) == *w, "rule {:?} alone parses to {:?}, expected {:?}", brief(x, 600), y, w),
                Err(e) => bail!("rule {:?} alone does not parse: {:?}", brief(x, 600), e),
            }
        }
        c.n("single rules parsed", want.len() as u64);
    } else if let Some(raw) = &raw {
        // parts on their own are as good as the reference says
        for (x, k, v) in raw {
            let w = ref_rule(k, v);
            let y = MatchRule::try_from(x.as_str());
            let g = y.as_ref().ok().map(conv::rr);
            ensure!(g == w, "rule {:?} alone parses to {:?}, expected {:?}", brief(x, 600), y, w);
        }
    } else if !t.contains(',') {
        let y = MatchRule::try_from(t);
        ensure!(y.is_err(), "{:?} is rejected as a list but accepted as a single rule: {:?}", brief(t, 600), y);
    }
    Ok(())
}
const KEYS: [&str; 32] = [
    "arg18446744073709551615", "arg18446744073709551615path", "arg64path", "arg256", "arg65536path", "arg4294967296", "arg9223372036854775808", "arg062",
    "type", "sender", "interface", "member", "path", "path_namespace", "destination", "arg0", "arg63", "arg64", "arg1path", "arg0namespace", "eavesdrop",
    "arg", "argpath", "arg1namespace", "arg00", "arg007path", "arg18446744073709551616", "arg-1", "Type", "arg0pathpath", "unknown", "arg+1",
];
fn quote(s: &mut Src, v: &str) -> String {
    // one of many spellings
    let mut o = String::new();
    let mode = s.below(4);
    let mut q = false;
    for ch in v.chars() {
        match mode {
            0 => o.push(ch),
            1 => {
                if !q {
                    o.push('\'');
                    q = true;
                }
                if ch == '\'' {
                    o.push_str("'\\''");
                } else {
                    o.push(ch)
                }
            }
            _ => {
                if s.chance(60) {
                    o.push('\'');
                    q = !q;
                }
                if ch == '\'' {
                    if q {
                        o.push_str("'\\''")
                    } else {
                        o.push_str("\\'")
                    }
                } else if ch == ',' && !q {
                    o.push_str("','")
                } else {
                    o.push(ch)
                }
            }
        }
    }
    if q && !s.chance(20) {
        o.push('\'');
    }
    o
}
pub fn rule_text(s: &mut Src) -> String {
    let n = s.size(6);
    let mut t = String::new();
    for i in 0..n {
        if i > 0 {
            t.push(',');
        }
        let key = if s.chance(210) {
            KEYS[s.below(KEYS.len())].to_string()
        } else if s.chance(100) {
            format!("arg{}{}", s.int(1), s.pick(&["", "path", "namespace"]))
        } else {
            gen::text(s)
        };
        let k = match key.as_str() {
            "sender" => Some(Kind::Bus),
            "interface" | "arg0namespace" => Some(Kind::Interface),
            "member" => Some(Kind::Member),
            "destination" => Some(Kind::Unique),
            x if x.contains("path") => Some(Kind::Path),
            _ => None,
        };
        let v = match k {
            Some(k) if s.chance(225) => {
                if s.chance(40) {
                    String::from_utf8_lossy(&gen::name_any(s, k)).into_owned()
                } else {
                    gen::name(s, k)
                }
            }
            _ if key == "type" && s.chance(225) => s.pick(&["method_call", "method_return", "error", "signal", "Signal", "signal "]).to_string(),
            _ if key == "eavesdrop" && s.chance(225) => s.pick(&["true", "false", "True", "1", ""]).to_string(),
            _ => gen::text(s),
        };
        t += &key;
        if !s.chance(3) {
            t.push('=');
        }
        t += &quote(s, &v);
    }
    if s.chance(30) {
        t.push(',');
    }
    for _ in 0..s.below(8) / 5 {
        // damage
        let mut ch: Vec<char> = t.chars().collect();
        let at = s.below(ch.len() + 1);
        let x = s.pick(&['\'', '\\', ',', '=', ' ', 'a', '0']);
        if s.chance(128) {
            ch.insert(at, x);
        } else if at < ch.len() {
            ch.remove(at);
        }
        t = ch.into_iter().collect();
    }
    t
}
pub fn c15(s: &mut Src, c: &mut Ctx) -> Out {
    let t = rule_text(s);
    c.sample(|| t.clone());
    parse_one(&t, c)
}
const VA: [char; 6] = ['\'', ',', '\\', '=', 'a', ' '];
fn c15_short(t: bool) -> u64 {
    2 * (count(6, if t { 7 } else { 6 }) / BLOCK + 1) + KEYS.len() as u64 + 2
}
pub fn c15_enums(t: bool) -> u64 {
    c15_short(t) + super::long::c15_enums()
}
pub fn c15_enum(n: u64, c: &mut Ctx) -> Out {
    let short = c15_short(c.thorough);
    if n >= short {
        return super::long::c15(n - short, c);
    }
    let total = count(6, if c.thorough { 7 } else { 6 });
    let blocks = total / BLOCK + 1;
    if n < 2 * blocks {
        let (n, form) = (n / 2, n % 2);
        for i in n * BLOCK..((n + 1) * BLOCK).min(total) {
            let x = nth(&VA, i);
            if form == 0 {
                parse_one(&format!("arg0={}", x), c)?;
            } else {
                // the whole text, with 'a' standing for a complete rule
                parse_one(&x.replace('a', "arg1=a"), c)?;
            }
        }
        c.n("short texts enumerated", BLOCK);
        return Ok(());
    }
    let n = (n - 2 * blocks) as usize;
    if n < KEYS.len() {
        for v in ["", "a", "a.b", "/a", "/", ":1.2", "'a.b'", "signal", "true", "a.b,", "\\'", "'", "/a/", "a..b", "1", "'/a'", "false,type=error", ":a"] {
            parse_one(&format!("{}={}", KEYS[n], v), c)?;
            parse_one(&format!("type=signal,{}={}", KEYS[n], v), c)?;
            parse_one(&format!("{}{}", KEYS[n], v), c)?;
            parse_one(&format!(" {}={}", KEYS[n], v), c)?;
            parse_one(&format!("{} ={}", KEYS[n], v), c)?;
        }
        return Ok(());
    }
    // all indices, spelled plainly, with zeros and with junk
    for i in 0..400u32 {
        for k in ["", "path", "namespace"] {
            for v in ["/a", "a.b"] {
                parse_one(&format!("arg{}{}={}", i, k, v), c)?;
                parse_one(&format!("arg0{}{}={}", i, k, v), c)?;
                parse_one(&format!("arg{}{}{}={}", i, k, k, v), c)?;
            }
        }
        if n > KEYS.len() {
            if let Some(ch) = char::from_u32(i) {
                parse_one(&format!("arg{}=b", ch), c)?;
                parse_one(&format!("arg1{}=b", ch), c)?;
                parse_one(&format!("{}arg1=b", ch), c)?;
                parse_one(&format!("arg1=b,{}", ch), c)?;
                parse_one(&format!("type=signal{}", ch), c)?;
            }
        }
    }
    Ok(())
}

fn below(ns: &str, v: &str, sep: char) -> bool {
    v == ns || v.starts_with(&format!("{}{}", ns, sep)) || (ns.ends_with(sep) && v.starts_with(ns))
}
fn ref_match(r: &RR, m: &RM) -> bool {
    match r {
        RR::Type(t) => m.ty == *t,
        RR::Sender(x) => m.sender.as_ref() == Some(x),
        RR::Interface(x) => m.interface.as_ref() == Some(x),
        RR::Member(x) => m.member.as_ref() == Some(x),
        RR::Path(x) => m.path.as_ref() == Some(x),
        RR::PathNs(x) => m.path.as_ref().map_or(false, |p| below(x, p, '/')),
        RR::Dest(x) => m.destination.as_ref() == Some(x),
        RR::Arg(i, x) => matches!(m.body.get(*i), Some(RV::S(y)) if x == y),
        RR::ArgPath(i, x) => matches!(m.body.get(*i), Some(RV::S(y)) | Some(RV::O(y)) if below(x, y, '/')),
        RR::Arg0Ns(x) => matches!(m.body.first(), Some(RV::S(y)) if below(x, y, '.')),
        RR::Eaves(_) => true,
    }
}
pub fn match_one(m: &RM, rs: &[RR], c: &mut Ctx) -> Out {
    let msg = build!(c, conv::msg(m));
    let lib = build!(c, conv::rules(rs));
    let mut all = true;
    let show = |r: &[RR]| format!("rules {} message {}", brief(&format!("{:?}", r), 700), brief(&format!("{:?}", m), 1200));
    for (r, l) in rs.iter().zip(&lib) {
        let want = ref_match(r, m);
        all &= want;
        c.n(if want { "rules matching" } else { "rules not matching" }, 1);
        ensure!(l.matching_rule(&msg) == want, "rule matches: {}, expected {}; {}", !want, want, show(&[r.clone()]));
        ensure!(
            MatchRule::matching_rules(std::slice::from_ref(l), &msg) == want,
            "a list of one rule matches: {}, expected {}; {}",
            !want,
            want,
            show(&[r.clone()])
        );
    }
    let g = MatchRule::matching_rules(&lib, &msg);
    ensure!(g == all, "the list matches: {}, expected {}; {}", g, all, show(rs));
    ensure!(MatchRule::matching_rules(&[], &msg), "the empty list does not match; {}", show(&[]));
    c.key_bytes(format!("{:?}{:?}", rs, m).as_bytes());
    Ok(())
}
pub fn c16(s: &mut Src, c: &mut Ctx) -> Out {
    let mut m = gen::header(s);
    let p = gen::name(s, Kind::Path);
    let i = gen::name(s, Kind::Interface);
    let n = if s.chance(30) { 60 + s.below(10) } else { s.size(5) };
    let mut fu = gen::fuel(s);
    for _ in 0..n {
        let v = match s.below(6) {
            0 => {
                let x = gen::below_of(s, &p, '/');
                if valid_name(Kind::Path, x.as_bytes()) && s.chance(128) {
                    RV::O(x)
                } else {
                    RV::S(x)
                }
            }
            1 => RV::S(gen::below_of(s, &i, '.')),
            2 => RV::S(gen::text(s)),
            3 => RV::O(gen::name(s, Kind::Path)),
            4 => {
                // almost a text
                let x = gen::below_of(s, &p, '/');
                match s.below(3) {
                    0 => RV::V(Box::new(RV::S(x))),
                    1 => RV::A(RT::B(b's'), vec![RV::S(x)]),
                    _ => RV::R(vec![RV::S(x)]),
                }
            }
            _ => {
                let t = gen::rtype(s, 10, 3);
                gen::value(s, &t, &mut fu, 1)
            }
        };
        m.body.push(v);
    }
    if s.chance(140) {
        let x = gen::below_of(s, &p, '/');
        if valid_name(Kind::Path, x.as_bytes()) {
            m.path = Some(x);
        }
    }
    let mut rs = vec![];
    for _ in 0..1 + s.size(7) {
        let k = s.below((m.body.len() + 1).min(64));
        rs.push(match s.below(8) {
            0 => RR::PathNs(p.clone()),
            1 => RR::ArgPath(gen::any_index(s, k), p.clone()),
            2 => RR::Arg0Ns(i.clone()),
            3 => RR::Path(p.clone()),
            _ => gen::rule(s, Some(&m)),
        });
    }
    c.sample(|| format!("{:?} {:?}", rs, m));
    match_one(&m, &rs, c)
}
const MA: [char; 3] = ['/', 'a', 'b'];
const DA: [char; 3] = ['.', 'a', 'b'];
fn c16_short(t: bool) -> u64 {
    count(3, if t { 6 } else { 5 }) + 16
}
pub fn c16_enums(t: bool) -> u64 {
    c16_short(t) + super::long::c16_enums()
}
pub fn c16_enum(n: u64, c: &mut Ctx) -> Out {
    let short = c16_short(c.thorough);
    if n >= short {
        return super::long::c16(n - short, c);
    }
    let total = count(3, if c.thorough { 6 } else { 5 });
    let mut m = RM::empty();
    m.ty = 2;
    m.reply_serial = Some(1);
    if n < total {
        // one value against all namespaces
        let (v, w) = (nth(&MA, n), nth(&DA, n));
        for k in 0..count(3, 5) {
            let (ns, nd) = (nth(&MA, k), nth(&DA, k));
            if valid_name(Kind::Path, ns.as_bytes()) {
                m.body = vec![RV::S(v.clone()), RV::Y(0)];
                m.path = None;
                if valid_name(Kind::Path, v.as_bytes()) {
                    m.path = Some(v.clone());
                    m.body[1] = RV::O(v.clone());
                }
                match_one(&m, &[RR::ArgPath(0, ns.clone()), RR::ArgPath(1, ns.clone()), RR::PathNs(ns.clone()), RR::Path(ns.clone())], c)?;
                match_one(&m, &[RR::Arg(0, ns.clone()), RR::Arg(1, ns.clone()), RR::ArgPath(2, ns)], c)?;
            }
            if valid_name(Kind::Interface, nd.as_bytes()) {
                m.path = None;
                m.body = vec![RV::S(w.clone()), RV::S(w.clone())];
                match_one(&m, &[RR::Arg0Ns(nd.clone())], c)?;
                m.interface = Some(nd.clone());
                match_one(&m, &[RR::Interface(nd.clone()), RR::Arg0Ns(nd.clone())], c)?;
                if valid_name(Kind::Interface, w.as_bytes()) {
                    match_one(&m, &[RR::Interface(w.clone())], c)?;
                    m.interface = None;
                    match_one(&m, &[RR::Interface(w.clone())], c)?;
                }
                m.interface = None;
            }
        }
        return Ok(());
    }
    // every combination of type, names present / equal / different, unique and well-known
    let n = n - total;
    let (ty, has) = ((n % 4) as u8 + 1, n / 4);
    let mut m = RM::empty();
    m.ty = ty;
    let s = |x: &str| Some(x.to_string());
    m.path = s("/p");
    m.interface = s("i.i");
    m.member = s("m");
    m.error_name = s("e.e");
    m.reply_serial = Some(3);
    if has & 1 == 1 {
        m.sender = s(":1.1");
        m.destination = s("a.b");
    }
    if has & 2 == 2 {
        m.sender = s("a.b");
        m.destination = s(":1.1");
    }
    for b in [vec![], vec![RV::S("a.b".into())], (0..70).map(|i| RV::S(format!("s{}", i))).collect::<Vec<_>>()] {
        m.body = b;
        for t in 1..=4 {
            for x in [":1.1", ":1.2", "a.b", "a.b.c", ":a.b"] {
                let mut rs = vec![RR::Type(t), RR::Sender(x.into()), RR::Eaves(t == 1), RR::Eaves(t == 2)];
                if x.starts_with(':') {
                    rs.push(RR::Dest(x.into()));
                } else {
                    rs.push(RR::Arg0Ns(x.into()));
                }
                match_one(&m, &rs, c)?;
                rs.remove(0);
                match_one(&m, &rs, c)?;
            }
            for f in ["m", "M", "mm", "i"] {
                match_one(&m, &[RR::Member(f.into())], c)?;
            }
        }
        for i in 0..64 {
            for j in 0..70usize {
                if i == j || j < 2 || j % 13 == 0 {
                    match_one(&m, &[RR::Arg(i, format!("s{}", j))], c)?;
                }
            }
        }
    }
    Ok(())
}
