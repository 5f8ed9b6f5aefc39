//! Workload generators. All decisions come from the tape.
use crate::conv::RR;
use crate::model::*;
use crate::rng::Rng;
use crate::tape::{Dict, Src};

fn len_policy(r: &mut Rng, d: &Dict, max: usize) -> usize {
    let v = match r.below(16) {
        0..=5 => r.below(6),
        6..=9 => r.below(20),
        10 => d.num(r) as usize,
        11 => (1usize << r.below(13)).wrapping_add(r.below(3)).wrapping_sub(1),
        12 => 250 + r.below(10),
        13 => r.below(300),
        _ => r.below(40),
    };
    if v > max {
        r.below(max + 1)
    } else {
        v
    }
}
fn name_raw(r: &mut Rng, d: &Dict, k: Kind) -> Vec<u8> {
    let sep = if k == Kind::Path { b'/' } else { b'.' };
    let colon = matches!(k, Kind::Unique) || (k == Kind::Bus && r.chance(110));
    let mut o = vec![];
    if colon {
        o.push(b':');
    }
    if r.chance(60) {
        o.extend(d.str(r));
        if r.chance(128) {
            return o;
        }
    }
    let want = match r.below(8) {
        0 => 253 + r.below(5),
        1 => len_policy(r, d, 300),
        _ => 3 + r.below(24),
    };
    let alpha: &[u8] = match r.below(5) {
        0 => b"a",
        1 => b"ab_",
        2 => b"A9_-z0",
        3 => b"azAZ_09-",
        _ => b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-",
    };
    let p = [10, 40, 90][r.below(3)];
    while o.len() < want {
        if r.chance(p) {
            o.push(sep);
        }
        o.push(alpha[r.below(alpha.len())]);
    }
    o
}
/// A valid name.
pub fn name(s: &mut Src, k: Kind) -> String {
    let raw = s.blob(400, |r, d| name_raw(r, d, k));
    fix_name(k, &raw)
}
/// A name of the kind with probability about a half, otherwise something near it.
pub fn name_any(s: &mut Src, k: Kind) -> Vec<u8> {
    let mut b = s.blob(600, |r, d| name_raw(r, d, k));
    if s.chance(200) {
        b = fix_name(k, &b).into_bytes();
    }
    if s.chance(150) {
        for _ in 0..1 + s.below(2) {
            let at = if b.is_empty() { 0 } else { s.below(b.len() + 1) };
            let c = if s.chance(128) {
                s.pick(b"./:-_09aZ~ \x00\x7f\x80\xff")
            } else {
                s.u8()
            };
            match s.below(4) {
                0 => b.insert(at, c),
                1 if at < b.len() => b[at] = c,
                2 if at < b.len() => {
                    b.remove(at);
                }
                3 => {
                    let n = 1 + s.size(260);
                    for _ in 0..n {
                        b.insert(at, if c == b'.' { b'a' } else { c });
                    }
                }
                _ => b.push(c),
            }
        }
    }
    b
}

/// Any text.
pub fn text(s: &mut Src) -> String {
    let b = s.blob(20000, |r, d| match r.below(10) {
        0 => vec![],
        1..=2 => d.str(r),
        3 => {
            let n = len_policy(r, d, 5000);
            let c = b'a' + r.below(26) as u8;
            vec![c; n]
        }
        4 => {
            let n = len_policy(r, d, 60);
            let set = ['\'', ',', '\\', '=', ' ', 'a', '/', '.', '\u{e9}', '\u{1F600}', '\0', '\n', '"', '{', '\u{ffff}'];
            (0..n).map(|_| set[r.below(set.len())]).collect::<String>().into_bytes()
        }
        5 => {
            let n = len_policy(r, d, 40);
            (0..n)
                .map(|_| char::from_u32((r.next() % 0x11_0000) as u32).unwrap_or('\u{fffd}'))
                .collect::<String>()
                .into_bytes()
        }
        6 => {
            let k = KINDS[r.below(7)];
            name_raw(r, d, k)
        }
        _ => {
            let n = len_policy(r, d, 200);
            (0..n).map(|_| 32 + r.below(95) as u8).collect()
        }
    });
    let mut t = match String::from_utf8(b) {
        Ok(s) => s,
        Err(e) => String::from_utf8_lossy(e.as_bytes()).into_owned(),
    };
    if s.chance(24) {
        // a character which programs treat in some special way
        let x = s.pick(&[
            '\u{feff}', '\0', '\u{fffd}', '\u{fffe}', '\u{301}', '\u{200d}', '\u{200b}', '\u{202e}', '\u{2028}', '\u{85}', '\u{a0}', '\u{7f}', '\u{80}',
            '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\r', '\n', '\t', ' ', '\u{130}', '\u{df}', '\u{1e9e}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '%', '{',
        ]);
        match s.below(3) {
            0 => t.insert(0, x),
            1 => t.push(x),
            _ => {
                let mut at = t.len() / 2;
                while !t.is_char_boundary(at) {
                    at -= 1;
                }
                t.insert(at, x)
            }
        }
    }
    t
}

/// A type. `room`: bytes of signature available.
pub fn rtype(s: &mut Src, room: usize, depth: usize) -> RT {
    let k = s.u8();
    if depth == 0 && k >= 250 && room > 70 {
        // a deep chain
        let mut t = RT::B(s.pick(b"ysvtbg"));
        let mut left = room.min(250) - 8;
        let (mut a, mut st, mut de) = (0, 0, 0);
        let n = s.size(96);
        for _ in 0..n {
            match s.below(3) {
                0 if a < 32 && left > 1 => {
                    a += 1;
                    left -= 1;
                    t = RT::A(Box::new(t))
                }
                1 if st < 32 && left > 2 => {
                    st += 1;
                    left -= 2;
                    t = RT::S(vec![t])
                }
                2 if de < 32 && left > 3 => {
                    de += 1;
                    left -= 3;
                    t = RT::D(Box::new((RT::B(b'y'), t)))
                }
                _ => {}
            }
        }
        return t;
    }
    if room >= 2 && depth < 6 && k < 90 {
        if k < 40 {
            if room >= 6 && s.chance(70) {
                // dictionary
                let key = RT::B(s.pick(b"sybnqiuxtdog"));
                let v = rtype(s, room - 5, depth + 2);
                return RT::A(Box::new(RT::D(Box::new((key, v)))));
            }
            return RT::A(Box::new(rtype(s, room - 1, depth + 1)));
        }
        if k < 75 && room >= 4 {
            let n = 1 + s.size((room - 3).min(40));
            let mut ts = vec![];
            let mut left = room - 2;
            for _ in 0..n {
                if left == 0 {
                    break;
                }
                let t = rtype(s, left, depth + 1);
                left -= t.sig().len();
                ts.push(t);
            }
            return RT::S(ts);
        }
        if room >= 5 {
            let a = rtype(s, (room - 2) / 2, depth + 1);
            let b = rtype(s, room - 2 - a.sig().len(), depth + 1);
            return RT::D(Box::new((a, b)));
        }
    }
    RT::B(s.pick(b"ybnqiuxtdsogvvhyssy"))
}

pub struct Fuel {
    pub nodes: isize,
    pub fds: Vec<i32>,
    pub maxvd: usize,
}
pub fn fuel(s: &mut Src) -> Fuel {
    let nodes = if s.chance(12) { 1500 } else { 20 + s.below(100) as isize };
    let n = if s.chance(24) { 1 + s.size(600) } else { 1 + s.below(5) };
    let fds = if s.chance(40) {
        (0..n).map(|_| s.int(4) as i32).collect()
    } else {
        let base = s.below(20) as i32;
        (0..n as i32).map(|i| base + i).collect()
    };
    Fuel { nodes, fds, maxvd: 4 }
}
pub fn value(s: &mut Src, t: &RT, f: &mut Fuel, vd: usize) -> RV {
    f.nodes -= 1;
    match t {
        RT::B(c) => match c {
            b'y' => RV::Y(s.int(1) as u8),
            b'b' => RV::B(s.chance(128)),
            b'n' => RV::N(s.int(2) as i16),
            b'q' => RV::Q(s.int(2) as u16),
            b'i' => RV::I(s.int(4) as i32),
            b'u' => RV::U(s.int(4) as u32),
            b'x' => RV::X(s.int(8) as i64),
            b't' => RV::T(s.int(8)),
            b'd' => {
                if s.chance(80) {
                    let v = [0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, f64::MAX, 0.1];
                    RV::D(s.pick(&v).to_bits())
                } else {
                    RV::D(s.int(8))
                }
            }
            b's' => {
                let x = text(s);
                f.nodes -= (x.len() / 64) as isize;
                RV::S(x)
            }
            b'o' => RV::O(name(s, Kind::Path)),
            b'g' => RV::G(signature(s)),
            b'h' => {
                let i = s.below(f.fds.len());
                RV::H(f.fds[i])
            }
            b'v' => {
                let t = if vd + 1 >= f.maxvd || f.nodes <= 0 {
                    RT::B(s.pick(b"ybnqiuxtdsogh"))
                } else if s.chance(100) {
                    RT::B(b'v')
                } else {
                    rtype(s, 60, 1)
                };
                let mut t = t;
                if vd + 1 >= f.maxvd {
                    t = devariant(&t);
                }
                RV::V(Box::new(value(s, &t, f, vd + 1)))
            }
            _ => unreachable!(),
        },
        RT::A(e) => {
            let n = if f.nodes <= 0 { 0 } else { s.size((f.nodes as usize).min(4000)) };
            let mut xs = Vec::new();
            for _ in 0..n {
                if f.nodes <= 0 {
                    break;
                }
                xs.push(value(s, e, f, vd));
            }
            RV::A((**e).clone(), xs)
        }
        RT::S(ts) => RV::R(ts.iter().map(|t| value(s, t, f, vd)).collect()),
        RT::D(p) => RV::E(Box::new((value(s, &p.0, f, vd), value(s, &p.1, f, vd)))),
    }
}
fn devariant(t: &RT) -> RT {
    match t {
        RT::B(b'v') => RT::B(b'y'),
        RT::B(c) => RT::B(*c),
        RT::A(t) => RT::A(Box::new(devariant(t))),
        RT::S(ts) => RT::S(ts.iter().map(devariant).collect()),
        RT::D(p) => RT::D(Box::new((devariant(&p.0), devariant(&p.1)))),
    }
}
/// A valid signature (as a value).
pub fn signature(s: &mut Src) -> Vec<RT> {
    let n = if s.chance(16) { s.size(255) } else { s.size(6) };
    let mut left = 255usize;
    let mut v = vec![];
    for _ in 0..n {
        if left == 0 {
            break;
        }
        let t = rtype(s, left.min(if n > 8 { 4 } else { 255 }), 0);
        left -= t.sig().len();
        v.push(t);
    }
    v
}
/// A body within all limits.
pub fn body(s: &mut Src, f: &mut Fuel) -> Vec<RV> {
    let n = if s.chance(6) { s.size(255) } else { s.size(5) };
    let mut left = 255usize;
    let mut v = vec![];
    for _ in 0..n {
        if left == 0 {
            break;
        }
        let t = rtype(s, left.min(if n > 8 { 3 } else { 255 }), 0);
        left -= t.sig().len();
        v.push(value(s, &t, f, 0));
    }
    v
}
/// Header part of a message.
pub fn header(s: &mut Src) -> RM {
    let mut m = RM::empty();
    m.le = s.chance(128);
    m.ty = s.below(4) as u8 + 1;
    m.flags = s.below(8) as u8;
    m.ver = if s.chance(200) { 1 } else { s.u8() };
    m.serial = s.int(4) as u32;
    let opt = s.pick(&[30u32, 128, 230]);
    let req = RM::required(m.ty);
    let want = |s: &mut Src, c: u8| s.chance(opt) || req.contains(&c);
    if want(s, 1) {
        m.path = Some(name(s, Kind::Path));
    }
    if want(s, 2) {
        m.interface = Some(name(s, Kind::Interface));
    }
    if want(s, 3) {
        m.member = Some(name(s, Kind::Member));
    }
    if want(s, 4) {
        m.error_name = Some(name(s, Kind::Error));
    }
    if want(s, 5) {
        m.reply_serial = Some(s.int(4) as u32);
    }
    if want(s, 6) {
        m.destination = Some(name(s, Kind::Bus));
    }
    if want(s, 7) {
        m.sender = Some(name(s, Kind::Bus));
    }
    if s.chance(30) {
        m.unix_fds = Some(s.int(4) as u32);
    }
    m
}
pub fn message(s: &mut Src) -> RM {
    let mut m = header(s);
    let mut f = fuel(s);
    m.body = body(s, &mut f);
    m
}
/// A random permutation of the field list of `m` (or the identity).
pub fn order(s: &mut Src, m: &RM) -> Vec<usize> {
    let n = m.fields().len();
    let mut v: Vec<usize> = (0..n).collect();
    if s.chance(190) {
        for i in (1..n).rev() {
            let j = s.below(i + 1);
            v.swap(i, j);
        }
    }
    v
}

/// A type without regard to the limits (but bounded in total).
pub fn rtype_any(s: &mut Src) -> RT {
    if s.chance(80) {
        let mut t = RT::B(s.pick(b"ysvtbg"));
        let (pa, ps) = (s.below(100), s.below(100));
        for _ in 0..s.size(150) {
            let k = s.below(100);
            t = if k < pa {
                RT::A(Box::new(t))
            } else if k < pa + ps {
                RT::S(vec![t])
            } else {
                RT::D(Box::new((RT::B(b's'), t)))
            };
        }
        t
    } else if s.chance(20) {
        let t = RT::S(vec![]);
        if s.chance(128) {
            RT::A(Box::new(t))
        } else {
            RT::S(vec![RT::B(b'y'), t])
        }
    } else {
        rtype(s, 300, 0)
    }
}
/// One value tree which may break the limits on nesting or signature length.
pub fn value_any(s: &mut Src, f: &mut Fuel) -> RV {
    match s.below(10) {
        0 => {
            // nested variants, possibly through containers
            let n = s.size(8);
            let t = RT::B(s_pick_basic(s));
            let mut v = value(s, &t, f, 3);
            for _ in 0..n {
                v = RV::V(Box::new(v));
                match s.below(6) {
                    0 => v = RV::A(RT::B(b'v'), vec![v]),
                    1 => v = RV::R(vec![RV::Y(1), v]),
                    2 => v = RV::E(Box::new((RV::Y(1), v))),
                    _ => {}
                }
            }
            v
        }
        1 => {
            let t = rtype_any(s);
            RV::A(t, vec![])
        }
        2 => {
            let n = s.size(4);
            RV::G((0..n).map(|_| rtype_any(s)).collect())
        }
        3 => {
            // nested structs / dict entries as values
            let n = s.size(40);
            let mut v = RV::Y(s.u8());
            for _ in 0..n {
                v = if s.chance(128) { RV::R(vec![v]) } else { RV::E(Box::new((RV::B(true), v))) };
            }
            v
        }
        4 => {
            // nested arrays
            let n = s.size(40);
            let mut v = RV::Y(s.u8());
            for _ in 0..n {
                v = RV::A(v.ty(), vec![v]);
            }
            v
        }
        5 => {
            let t = rtype_any(s);
            RV::V(Box::new(RV::A(t, vec![])))
        }
        6 => RV::R((0..1 + s.size(300)).map(|_| RV::Y(1)).collect()),
        _ => {
            let t = rtype(s, 255, 0);
            value(s, &t, f, 0)
        }
    }
}
fn s_pick_basic(s: &mut Src) -> u8 {
    s.pick(b"ybnqiuxtdsogh")
}
pub fn message_any(s: &mut Src) -> RM {
    let mut m = header(s);
    let mut f = fuel(s);
    let n = if s.chance(20) { s.size(300) } else { s.size(4) };
    for _ in 0..n {
        if n > 10 {
            m.body.push(RV::Y(s.u8()));
        } else {
            let v = value_any(s, &mut f);
            m.body.push(v);
        }
    }
    m
}

/// Hostile bytes: a wire image with some places damaged, or noise.
pub fn hostile(s: &mut Src, w: &crate::wire::Wire) -> Vec<u8> {
    let mut b = w.bytes.clone();
    if s.chance(8) {
        return s.blob(2000, |r, d| {
            let n = len_policy(r, d, 400);
            let mut v: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            if v.len() > 4 {
                v[0] = b"lB"[r.below(2)];
                v[1] = 1 + r.below(4) as u8;
                v[2] = 0;
            }
            v
        });
    }
    let n = match s.below(8) {
        0 => 0,
        1..=5 => 1,
        _ => 1 + s.below(4),
    };
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        // aim at a span (structure-aware) or anywhere
        let (at, len) = if s.chance(190) && !w.spans.is_empty() {
            let i = s.below(w.spans.len());
            let sp = &w.spans[i];
            (sp.at.min(b.len() - 1), sp.len)
        } else if s.chance(60) {
            (s.below(16.min(b.len())), 1)
        } else {
            (s.below(b.len()), 1)
        };
        match s.below(9) {
            0 => {
                let i = at + s.below(len.max(1));
                if i < b.len() {
                    b[i] = s.int(1) as u8
                }
            }
            1 => {
                let i = at + s.below(len.max(1));
                if i < b.len() {
                    b[i] ^= 1 << s.below(8)
                }
            }
            2 | 3 => {
                // replace a number
                let v = s.int(4) as u32;
                let v = if w.bytes[0] == b'l' { v.to_le_bytes() } else { v.to_be_bytes() };
                for i in 0..4.min(len.max(1)) {
                    if at + i < b.len() {
                        b[at + i] = v[4 - 4.min(len.max(1)) + i]
                    }
                }
            }
            4 => {
                // nudge a 4-byte number
                if at + 4 <= b.len() && len >= 4 {
                    let a: [u8; 4] = b[at..at + 4].try_into().unwrap();
                    let le = w.bytes[0] == b'l';
                    let v = if le { u32::from_le_bytes(a) } else { u32::from_be_bytes(a) };
                    let k = s.pick(&[1u32, 2, 3, 4, 7, 8, 16, 0u32.wrapping_sub(1), 0u32.wrapping_sub(2), 0u32.wrapping_sub(4), 0u32.wrapping_sub(8)]);
                    let v = v.wrapping_add(k);
                    let a = if le { v.to_le_bytes() } else { v.to_be_bytes() };
                    b[at..at + 4].copy_from_slice(&a);
                }
            }
            5 => {
                let k = s.below(b.len() + 1);
                b.truncate(k)
            }
            6 => {
                let c = s.u8();
                b.insert(at, c)
            }
            7 => {
                b.remove(at);
            }
            _ => {
                // text replacement inside the span
                let c = s.pick(b"\x00\xff/.:-avz(){}s\x80\xc3\xe2");
                let i = at + s.below(len.max(1));
                if i < b.len() {
                    b[i] = c
                }
            }
        }
    }
    b
}

/// Extends a base name with something, to get near misses of namespaces.
pub fn below_of(s: &mut Src, base: &str, sep: char) -> String {
    let mut x = base.to_string();
    match s.below(8) {
        0 => {}
        1 | 2 => {
            if !x.ends_with(sep) {
                x.push(sep);
            }
            x.push_str("sub");
        }
        3 => x.push_str("x"),
        4 => x.push(sep),
        5 => {
            x.pop();
        }
        6 => x.insert(0, s.pick(&[sep, 'x'])),
        _ => {
            let c = if sep == '/' { '.' } else { '/' };
            x.push(c);
            x.push('y');
        }
    }
    x
}
/// The constructor of path arguments takes any index.
pub fn any_index(s: &mut Src, i: usize) -> usize {
    if s.chance(230) {
        i
    } else {
        s.int(8) as usize
    }
}
/// A match rule; when `m` is given, biased to be about that message.
pub fn rule(s: &mut Src, m: Option<&RM>) -> RR {
    let near = |s: &mut Src, k: Kind, x: Option<&String>| -> String {
        match x {
            Some(x) if s.chance(170) => {
                if !x.is_empty() && s.chance(60) {
                    let mut b = x.clone().into_bytes();
                    let i = s.below(b.len());
                    match s.below(3) {
                        0 => b[i] = s.u8(),
                        1 => {
                            b.remove(i);
                        }
                        _ => b.push(b'a'),
                    }
                    if valid_name(k, &b) {
                        return String::from_utf8(b).unwrap();
                    }
                }
                if valid_name(k, x.as_bytes()) {
                    x.clone()
                } else {
                    fix_name(k, x.as_bytes())
                }
            }
            _ => name(s, k),
        }
    };
    // a proper or improper ancestor of a path / dotted name
    fn up(s: &mut Src, x: &str, sep: char) -> String {
        let es: Vec<&str> = x.split(sep).collect();
        let n = 1 + s.below(es.len());
        let y = es[..n].join(&sep.to_string());
        if y.is_empty() && sep == '/' {
            "/".into()
        } else {
            y
        }
    }
    let argidx = |s: &mut Src, m: Option<&RM>| -> usize {
        match m {
            Some(m) if !m.body.is_empty() && s.chance(220) => s.below((m.body.len() + 1).min(64)),
            _ => s.size(63),
        }
    };
    let strs = |m: Option<&RM>, i: usize| -> Option<String> {
        match m.and_then(|m| m.body.get(i)) {
            Some(RV::S(x)) | Some(RV::O(x)) => Some(x.clone()),
            _ => None,
        }
    };
    match s.below(11) {
        0 => RR::Type(s.below(4) as u8 + 1),
        1 => RR::Sender(near(s, Kind::Bus, m.and_then(|m| m.sender.as_ref()))),
        2 => RR::Interface(near(s, Kind::Interface, m.and_then(|m| m.interface.as_ref()))),
        3 => RR::Member(near(s, Kind::Member, m.and_then(|m| m.member.as_ref()))),
        4 => RR::Path(near(s, Kind::Path, m.and_then(|m| m.path.as_ref()))),
        5 => {
            let p = near(s, Kind::Path, m.and_then(|m| m.path.as_ref()));
            RR::PathNs(if s.chance(150) { up(s, &p, '/') } else { p })
        }
        6 => RR::Dest(near(s, Kind::Unique, m.and_then(|m| m.destination.as_ref()))),
        7 => {
            let i = argidx(s, m);
            let x = match strs(m, i) {
                Some(mut x) if s.chance(200) => {
                    if s.chance(60) {
                        x.push('x')
                    }
                    x
                }
                _ => text(s),
            };
            RR::Arg(i, x)
        }
        8 => {
            let i = argidx(s, m);
            let p = near(s, Kind::Path, strs(m, i).as_ref());
            RR::ArgPath(i, if s.chance(150) { up(s, &p, '/') } else { p })
        }
        9 => {
            let p = near(s, Kind::Interface, strs(m, 0).as_ref());
            let u = up(s, &p, '.');
            RR::Arg0Ns(if valid_name(Kind::Interface, u.as_bytes()) { u } else { p })
        }
        _ => RR::Eaves(s.chance(128)),
    }
}
