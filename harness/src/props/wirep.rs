//! Monitors about the wire format: C01-C06, C13, C17, C24.
pub use crate::ops_core::within;
use crate::conv;
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::hash_bytes;
use crate::tape::Src;
use super::sizes;
use crate::wire::{self, Raw};
use crate::{bail, build, ensure};
use bytes::Bytes;
use dbus_message_parser::decode::DecodeError;
use dbus_message_parser::message::Message;

pub fn bytes(b: &[u8]) -> Bytes {
    // half of them somewhere inside a larger buffer, with other bytes around
    let k = (b.len() + b.last().copied().unwrap_or(0) as usize) % 16;
    if k < 8 {
        return Bytes::copy_from_slice(b);
    }
    within(b, k - 7)
}
fn with_count(m: &RM, n: usize) -> RM {
    let mut w = m.clone();
    if n > 0 {
        w.unix_fds = Some(n as u32);
    }
    w
}
fn has_nan(v: &[RV]) -> bool {
    let mut nan = false;
    for x in v {
        x.walk(&mut |y| {
            if let RV::D(b) = y {
                nan |= f64::from_bits(*b).is_nan()
            }
        })
    }
    nan
}

fn c01_one(m: &RM, hand: Option<Vec<RT>>, c: &mut Ctx) -> Out {
    let h = build!(c, conv::header_with(m, hand.as_deref().map(conv::tys)));
    let msg = Message::new(h, build!(c, conv::vals(&m.body)));
    let (b, fds) = match msg.encode_with_fds() {
        Ok(x) => x,
        Err(_) => {
            c.n("refused by the encoder", 1);
            return Ok(());
        }
    };
    let b = b.freeze();
    c.n("encoded", 1);
    c.n("encoded bytes", b.len() as u64);
    c.max("body values", m.body.len() as u64);
    c.key_bytes(&b);
    let (d, used, nfds) = match Message::decode_with_fds(b.clone(), &fds) {
        Ok(x) => x,
        Err(e) => bail!("encoded message does not decode: {:?}; bytes {}", e, brief(&hex(&b), 2000)),
    };
    ensure!(used == b.len(), "decode consumed {} of {} encoded bytes: {}", used, b.len(), brief(&hex(&b), 2000));
    ensure!(nfds == fds.len(), "decode used {} descriptors, the encoder returned {}", nfds, fds.len());
    conv::same(&d, &with_count(m, fds.len())).map_err(|e| format!("{}; bytes {}", e, brief(&hex(&b), 2000)))?;
    let plain = match msg.encode() {
        Ok(x) => x,
        Err(e) => bail!("encode_with_fds succeeded but encode failed: {:?}", e),
    };
    ensure!(plain[..] == b[..], "encode and encode_with_fds give different bytes");
    if fds.is_empty() {
        match Message::decode(b.clone()) {
            Ok((d2, u2)) => {
                ensure!(u2 == used, "decode without descriptors consumed {} instead of {}", u2, used);
                conv::same(&d2, m)?;
                if hand.is_none() && !has_nan(&m.body) {
                    ensure!(d2 == msg, "decoded message differs from the encoded one by ==");
                }
            }
            Err(e) => bail!("encoded message does not decode without descriptors: {:?}", e),
        }
    } else {
        c.n("messages with descriptors", 1);
    }
    Ok(())
}
pub fn c01(s: &mut Src, c: &mut Ctx) -> Out {
    let m = if s.chance(20) { gen::message_any(s) } else { gen::message(s) };
    let hand = if s.chance(26) { Some(gen::signature(s)) } else { None };
    c.sample(|| format!("{:?}", m));
    c01_one(&m, hand, c)
}

/// Systematic messages: every pair of basic types next to each other in each container, in both
/// byte orders and with each header offset modulo 8.
const LEAF: &[u8] = b"ybnqiuxtdsoghv";
pub fn leaf(t: u8, k: u64) -> RV {
    match t {
        b'y' => RV::Y(k as u8),
        b'b' => RV::B(k & 1 == 1),
        b'n' => RV::N(k as i16),
        b'q' => RV::Q(k as u16),
        b'i' => RV::I(k as i32),
        b'u' => RV::U(k as u32),
        b'x' => RV::X(k as i64),
        b't' => RV::T(k),
        b'd' => RV::D(k),
        b's' => RV::S("abcdefgh"[..(k % 9) as usize].to_string()),
        b'o' => RV::O(["/", "/a", "/ab", "/ab/c"][(k % 4) as usize].into()),
        b'g' => RV::G(parse_sig(&b"a{sv}(yx)"[..[0, 5, 9][(k % 3) as usize]]).unwrap()),
        b'h' => RV::H((k % 5) as i32),
        _ => RV::V(Box::new(leaf(LEAF[(k % 13) as usize], k / 13))),
    }
}
fn pairs(thorough: bool) -> u64 {
    // type pairs x shapes x (thorough: more constants)
    14 * 14 * 8 * if thorough { 16 } else { 2 }
}
pub fn c01_enums(thorough: bool) -> u64 {
    pairs(thorough) + sizes::count(thorough)
}
/// The `n`-th enumerated message: pairs of types, then sizes.
fn enumerated(n: u64, c: &mut Ctx) -> Option<RM> {
    let p = pairs(c.thorough);
    if n < p {
        return Some(systematic(n));
    }
    let m = sizes::get(n - p, c.thorough);
    if m.is_some() {
        c.n("messages of enumerated sizes", 1);
    }
    m
}
pub fn systematic(n: u64) -> RM {
    let (a, n) = (LEAF[(n % 14) as usize], n / 14);
    let (b, n) = (LEAF[(n % 14) as usize], n / 14);
    let (shape, k) = (n % 8, n / 8);
    let mut h = k.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (a as u64) << 17 ^ (b as u64) << 3 ^ shape << 40;
    h ^= h >> 31;
    let mut m = RM::empty();
    m.le = k & 1 == 0;
    m.ty = 4;
    m.flags = (h % 8) as u8;
    m.serial = h as u32;
    m.path = Some("/p".into());
    m.interface = Some("i.j".into());
    m.member = Some("mmmmmmmm"[..1 + (h % 8) as usize].into());
    let (x, y) = (leaf(a, h), leaf(b, h >> 8));
    let (ta, tb) = (x.ty(), y.ty());
    m.body = match shape {
        0 => vec![x, y],
        1 => vec![RV::R(vec![x, y])],
        2 => vec![RV::A(RT::S(vec![ta.clone(), tb.clone()]), vec![RV::R(vec![x.clone(), y.clone()]), RV::R(vec![x, y])])],
        3 => vec![x, RV::A(tb.clone(), vec![y.clone(), y.clone(), y])],
        4 => vec![x, RV::A(RT::D(Box::new((ta.clone(), tb.clone()))), vec![])],
        5 => vec![RV::A(RT::D(Box::new((ta.clone(), tb))), vec![RV::E(Box::new((x.clone(), y.clone()))), RV::E(Box::new((x, y)))])],
        6 => {
            let y = if y.variant_depth() > 2 { RV::Y(0) } else { y };
            vec![x, RV::V(Box::new(RV::A(y.ty(), vec![y])))]
        }
        _ => vec![RV::R(vec![x, RV::A(RT::A(Box::new(tb.clone())), vec![RV::A(tb.clone(), vec![]), RV::A(tb, vec![y])])])],
    };
    m
}
pub fn c01_enum(n: u64, c: &mut Ctx) -> Out {
    enumerated(n, c).map_or(Ok(()), |m| c01_one(&m, None, c))
}

/// A table of descriptors and an index for every occurrence.
fn table(s: &mut Src, fds: &[i32]) -> (Vec<i32>, Vec<Vec<u32>>) {
    // shuffled, with duplicates and strangers
    let mut t: Vec<i32> = vec![];
    let extra = s.below(4);
    for _ in 0..extra {
        t.push(s.int(4) as i32);
    }
    for f in fds {
        for _ in 0..1 + s.below(3) / 2 {
            let at = s.below(t.len() + 1);
            t.insert(at, *f);
        }
    }
    let idx = fds.iter().map(|f| (0..t.len()).filter(|i| t[*i] == *f).map(|i| i as u32).collect()).collect();
    (t, idx)
}
fn foreign(s: &mut Src, m: &RM) -> (wire::Wire, Vec<i32>) {
    let o = gen::order(s, m);
    let fds = m.fds();
    let (t, idx) = table(s, &fds);
    let mut choice: Vec<u8> = vec![];
    for _ in 0..8 {
        choice.push(s.u8());
    }
    let mut k = 0usize;
    let w = Raw::from_rm(m, &o).encode(true, &mut |fd| {
        let p = fds.iter().position(|x| *x == fd).unwrap();
        let v = &idx[p];
        k += 1;
        v[choice[k % 8] as usize % v.len()]
    });
    (w, t)
}

pub fn c02(s: &mut Src, c: &mut Ctx) -> Out {
    let m = gen::message(s);
    let (w, t) = foreign(s, &m);
    let mut b = if s.chance(60) { gen::hostile(s, &w) } else { w.bytes };
    if s.chance(60) {
        for _ in 0..s.size(40) {
            let x = s.u8();
            b.push(x);
        }
    }
    c02_one(&b, &t, c)
}
pub fn c02_enum(n: u64, c: &mut Ctx) -> Out {
    let m = match enumerated(n, c) {
        Some(m) => m,
        None => return Ok(()),
    };
    // the fields in another order than the library writes them
    let k = m.fields().len();
    let order: Vec<usize> = (0..k).map(|i| (k - 1 - i + n as usize) % k).collect();
    let w = wire::encode(&m, &order, false);
    c02_one(&w.bytes, &m.fds(), c)
}
fn c02_one(b: &[u8], t: &[i32], c: &mut Ctx) -> Out {
    let (d, used, _) = match Message::decode_with_fds(bytes(b), t) {
        Ok(x) => x,
        Err(_) => {
            c.n("did not decode", 1);
            return Ok(());
        }
    };
    c.n("decoded", 1);
    c.key_bytes(b);
    c.sample(|| format!("{} used {}", brief(&hex(b), 400), used));
    let rm = conv::observe(&d)?;
    let (e, f) = match d.encode_with_fds() {
        Ok(x) => x,
        Err(x) => bail!("received message cannot be encoded: {:?}; received {}", x, brief(&hex(&b), 3000)),
    };
    let e = e.freeze();
    let (d2, u2, _) = match Message::decode_with_fds(e.clone(), &f) {
        Ok(x) => x,
        Err(x) => bail!("re-encoded message does not decode: {:?}; received {} re-encoded {}", x, brief(&hex(&b), 2000), brief(&hex(&e), 2000)),
    };
    ensure!(u2 == e.len(), "re-encoded message: decode consumed {} of {}", u2, e.len());
    conv::same(&d2, &with_count(&rm, f.len())).map_err(|x| format!("after re-encoding: {}; received {}", x, brief(&hex(&b), 2000)))?;
    let (e2, f2) = match d2.encode_with_fds() {
        Ok(x) => x,
        Err(x) => bail!("re-decoded message cannot be encoded: {:?}", x),
    };
    ensure!(e2[..] == e[..], "encoding is not canonical: {} then {}", brief(&hex(&e), 2000), brief(&hex(&e2), 2000));
    ensure!(f2 == f, "descriptor list changed: {:?} then {:?}", f, f2);
    Ok(())
}

fn c03_one(m: &RM, c: &mut Ctx) -> Out {
    let msg = build!(c, conv::msg(m));
    let (b, fds) = match msg.encode_with_fds() {
        Ok(x) => x,
        Err(_) => {
            c.n("refused by the encoder", 1);
            return Ok(());
        }
    };
    c.n("encoded", 1);
    c.key_bytes(&b);
    let h = || brief(&hex(&b), 3000);
    let d = match wire::decode(&b, &fds) {
        Ok(d) => d,
        Err(e) => bail!("the reference decoder rejects the encoded bytes ({:?}): {}", e, h()),
    };
    ensure!(d.used == b.len(), "{} bytes follow the body: {}", b.len() - d.used, h());
    let want = with_count(m, fds.len());
    if d.m != want {
        bail!("{}; bytes {}", conv::diff(&d.m, &want), h());
    }
    // byte for byte, given the order of header fields the library chose
    let mut codes: Vec<u8> = want.fields().iter().map(|f| f.0).collect();
    let order: Vec<usize> = d.order.iter().map(|c| codes.iter().position(|x| x == c).unwrap_or(0)).collect();
    let mut o2 = d.order.clone();
    o2.sort();
    codes.sort();
    ensure!(o2 == codes, "header fields {:?}, expected {:?}: {}", d.order, codes, h());
    let w = wire::encode(&want, &order, false);
    if w.bytes[..] != b[..] {
        let at = w.bytes.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(w.bytes.len().min(b.len()));
        bail!("encoded bytes differ from the wire format at {}: got {} expected {}", at, h(), brief(&hex(&w.bytes), 3000));
    }
    c.n("header fields seen", d.order.len() as u64);
    Ok(())
}
pub fn c03(s: &mut Src, c: &mut Ctx) -> Out {
    let m = if s.chance(10) { gen::message_any(s) } else { gen::message(s) };
    c.sample(|| format!("{:?}", m));
    c03_one(&m, c)
}
pub fn c03_enum(n: u64, c: &mut Ctx) -> Out {
    enumerated(n, c).map_or(Ok(()), |m| c03_one(&m, c))
}

/// Compare both decoders on some bytes.
pub fn c04_one(b: &[u8], fds: &[i32], c: &mut Ctx) -> Out {
    let l = Message::decode_with_fds(bytes(b), fds);
    let r = wire::decode(b, fds);
    let h = || brief(&hex(b), 3000);
    match (l, r) {
        (Err(_), Err(e)) => {
            if let wire::RE::Bad(x) = e {
                c.n(&format!("rejected: {}", x), 1);
            } else {
                c.n("rejected: short", 1);
            }
        }
        (Ok((m, used, nfds)), Ok(r)) => {
            c.n("accepted", 1);
            ensure!(used == r.used, "decode consumed {} bytes, the message has {}: {}", used, r.used, h());
            ensure!(nfds == r.nfds, "decode reports {} descriptors used, expected {}: {}", nfds, r.nfds, h());
            conv::same(&m, &r.m).map_err(|e| format!("{}; bytes {}", e, h()))?;
        }
        // the reference gave up
        (_, Err(wire::RE::Bad("budget"))) => {
            c.n("no verdict: too many values", 1);
            return Ok(());
        }
        (Ok(_), Err(e)) => bail!("accepts bytes that are no well-formed message ({:?}): {} fds {:?}", e, h(), fds.len()),
        (Err(e), Ok(_)) => bail!("rejects a well-formed message with {:?}: {} fds {}", e, h(), fds.len()),
    }
    // without descriptors
    let l = Message::decode(bytes(b));
    let r = wire::decode(b, &[]);
    match (l, r) {
        (Ok((m, used)), Ok(r)) => {
            ensure!(used == r.used, "decode (no descriptors) consumed {} instead of {}", used, r.used);
            if fds.is_empty() {
                return Ok(());
            }
            conv::same(&m, &r.m).map_err(|e| format!("without descriptors: {}; bytes {}", e, h()))
        }
        (Err(_), Err(_)) => Ok(()),
        (l, r) => bail!("without descriptors: library {:?}, reference ok: {}: {}", l.map(|_| ()), r.is_ok(), h()),
    }
}
/// Structural damage before encoding.
fn damage(s: &mut Src, r: &mut Raw) {
    let n = r.fields.len();
    match s.below(12) {
        0 if n > 0 => {
            let i = s.below(n);
            r.fields.remove(i);
        }
        1 if n > 0 => {
            let f = r.fields[s.below(n)].clone();
            let at = s.below(n + 1);
            r.fields.insert(at, f);
        }
        2 if n > 0 => {
            // another code
            let i = s.below(n);
            let code = if s.chance(128) { s.below(11) as u8 } else { s.u8() };
            if let RV::R(x) = &mut r.fields[i] {
                x[0] = RV::Y(code);
            }
        }
        3 if n > 0 => {
            // another value
            let i = s.below(n);
            let t = gen::rtype(s, 20, 3);
            let mut f = gen::fuel(s);
            let v = gen::value(s, &t, &mut f, 1);
            if let RV::R(x) = &mut r.fields[i] {
                x[1] = RV::V(Box::new(v));
            }
        }
        4 | 5 => {
            // add a field
            let code = if s.chance(200) { 1 + s.below(9) as u8 } else { s.u8() };
            let v = match code {
                1 => RV::O(gen::name(s, Kind::Path)),
                2 | 3 | 4 | 6 | 7 => {
                    let k = [Kind::Interface, Kind::Member, Kind::Error, Kind::Bus, Kind::Bus][match code {
                        2 => 0,
                        3 => 1,
                        4 => 2,
                        6 => 3,
                        _ => 4,
                    }];
                    RV::S(String::from_utf8_lossy(&gen::name_any(s, k)).into_owned())
                }
                5 | 9 => RV::U(s.int(4) as u32),
                8 => RV::G(gen::signature(s)),
                _ => RV::S(gen::text(s)),
            };
            let at = s.below(n + 1);
            r.fields.insert(at, wire::field(code, v));
        }
        6 => r.flags = s.u8(),
        7 => r.ty = if s.chance(128) { s.below(6) as u8 } else { s.u8() },
        8 => {
            let t = gen::rtype(s, 20, 3);
            let mut f = gen::fuel(s);
            let v = gen::value_any(s, &mut f);
            let _ = t;
            r.body.push(v);
        }
        9 => r.body_len = Some(s.int(4) as u32),
        10 => {
            r.body.pop();
        }
        _ => {
            // a name field with a wrong name
            for f in &mut r.fields {
                if let RV::R(x) = f {
                    if let (RV::Y(code), RV::V(v)) = (x[0].clone(), &mut x[1]) {
                        let k = match code {
                            2 => Kind::Interface,
                            3 => Kind::Member,
                            4 => Kind::Error,
                            6 | 7 => Kind::Bus,
                            _ => continue,
                        };
                        if s.chance(128) {
                            **v = RV::S(String::from_utf8_lossy(&gen::name_any(s, k)).into_owned());
                        }
                    }
                }
            }
        }
    }
}
/// Bytes that are mostly not a message of this library's encoder, with descriptors.
pub fn hostile_bytes(s: &mut Src) -> (Vec<u8>, Vec<i32>) {
    let m = if s.chance(40) { gen::message_any(s) } else { gen::message(s) };
    let o = gen::order(s, &m);
    let mut r = Raw::from_rm(&m, &o);
    if s.chance(120) {
        for _ in 0..1 + s.below(3) / 2 {
            damage(s, &mut r);
        }
    }
    let fds: Vec<i32> = {
        let mut v = vec![];
        for x in &r.body {
            x.walk(&mut |y| {
                if let RV::H(f) = y {
                    if !v.contains(f) && v.len() < 300 {
                        v.push(*f)
                    }
                }
            });
        }
        v
    };
    let fds2 = fds.clone();
    let w = r.encode(true, &mut |f| fds2.iter().position(|x| *x == f).unwrap_or(9999) as u32);
    let mut fds = fds;
    if s.chance(20) {
        fds.pop();
    }
    if s.chance(40) {
        fds.push(s.int(4) as i32);
    }
    let b = if s.chance(150) { gen::hostile(s, &w) } else { w.bytes };
    (b, fds)
}
pub fn c04(s: &mut Src, c: &mut Ctx) -> Out {
    let (b, fds) = hostile_bytes(s);
    c.sample(|| hex(&b));
    c.key_bytes(&b);
    c04_one(&b, &fds, c)
}
/// A few fixed messages for exhaustive single-byte substitution.
pub fn fixed(i: usize) -> RM {
    let mut m = RM::empty();
    m.le = i % 2 == 0;
    m.ty = (i % 4) as u8 + 1;
    m.flags = (i % 8) as u8;
    m.serial = 0x01020304;
    let req = RM::required(m.ty);
    let all = i >= 4;
    let on = |c: u8| all || req.contains(&c);
    let s = |x: &str| Some(x.to_string());
    if on(1) {
        m.path = s("/a/b_1")
    }
    if on(2) {
        m.interface = s("a.b1._c")
    }
    if on(3) {
        m.member = s("Mem_1")
    }
    if on(4) {
        m.error_name = s("e.f.g")
    }
    if on(5) {
        m.reply_serial = Some(7)
    }
    if all {
        m.destination = s(":1.2-x");
        m.sender = s("a-b.c");
        m.unix_fds = Some(2);
    }
    use RV::*;
    m.body = match i {
        0 => vec![],
        1 => vec![Y(1), T(2), S("h\u{e9}".into()), O("/x".into())],
        2 => vec![A(RT::D(Box::new((RT::B(b's'), RT::B(b'v')))), vec![E(Box::new((S("k".into()), V(Box::new(U(5))))))])],
        3 => vec![B(true), N(-1), G(vec![RT::A(Box::new(RT::B(b'i')))]), D(0x3ff0_0000_0000_0000), A(RT::B(b'q'), vec![Q(1), Q(2), Q(3)])],
        4 => vec![R(vec![Y(9), X(-2), R(vec![I(3), S("".into())])]), H(4), H(5), H(4)],
        5 => vec![V(Box::new(V(Box::new(V(Box::new(V(Box::new(B(false)))))))))],
        6 => vec![A(RT::A(Box::new(RT::B(b's'))), vec![A(RT::B(b's'), vec![S("a".into())]), A(RT::B(b's'), vec![])])],
        _ => vec![A(RT::S(vec![RT::B(b'y'), RT::B(b'o')]), vec![R(vec![Y(1), O("/".into())]), R(vec![Y(2), O("/b".into())])])],
    };
    m
}
const NFIXED: usize = 8;
pub fn fixed_wire(i: usize) -> (Vec<u8>, Vec<i32>) {
    let m = fixed(i);
    let n = m.fields().len();
    // a rotated field order
    let order: Vec<usize> = (0..n).map(|k| (k + i) % n).collect();
    (wire::encode(&m, &order, false).bytes, m.fds())
}
pub fn c04_enums(t: bool) -> u64 {
    c04_fixed() + sizes::count(t) + HUGE + UTF8
}
fn c04_fixed() -> u64 {
    (0..NFIXED).map(|i| fixed_wire(i).0.len() as u64).sum()
}
/// A message of an enumerated size, and with each length in it, or a byte near a boundary, damaged.
fn c04_sized(n: u64, c: &mut Ctx) -> Out {
    let m = match sizes::get(n, c.thorough) {
        Some(m) => m,
        None => return Ok(()),
    };
    let fds = m.fds();
    let w = wire::encode(&m, &[], true);
    c.n("messages of enumerated sizes", 1);
    c.key_bytes(&w.bytes);
    c04_one(&w.bytes, &fds, c)?;
    // the longer, the fewer
    let room = (3_000_000 / (w.bytes.len() + 1000)).max(3).min(60);
    use wire::Sp::*;
    let spots: Vec<(usize, usize)> = w
        .spans
        .iter()
        .filter(|s| matches!(s.k, StrLen | ArrLen | SigLen | BodyLen | Fd | Nul | Pad | Bool))
        .map(|s| (s.at, s.len))
        .collect();
    let mut b = w.bytes.clone();
    for k in 0..room {
        let (at, len) = match spots.len() {
            l if k < 3 => spots[k.min(l - 1)],
            l if k < 6 => spots[l - 1 - (k - 3).min(l - 1)],
            l => spots[(k * 7919 + n as usize * 31) % l],
        };
        let pos = at + if k % 3 == 0 || m.le != (k % 3 == 1) { 0 } else { len - 1 };
        let old = b[pos];
        b[pos] = match k % 4 {
            0 | 1 => old.wrapping_add(1),
            2 => old.wrapping_sub(1),
            _ => old ^ 0x80,
        };
        c.n("lengths damaged", 1);
        c04_one(&b, &fds, c).map_err(|e| format!("byte {} changed from {:#x} to {:#x}: {}", pos, old, b[pos], e))?;
        b[pos] = old;
    }
    for cut in [1, 2, 9] {
        c04_one(&b[..b.len() - cut], &fds, c)?;
    }
    if !fds.is_empty() {
        c04_one(&b, &fds[..fds.len() - 1], c)?;
    }
    b.extend_from_slice(&[1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    c04_one(&b, &fds, c)
}
/// Arrays of 64 MiB and messages of 128 MiB, one byte less and one byte more.
const HUGE: u64 = 18;
fn c04_huge(n: u64, c: &mut Ctx) -> Out {
    let mib64 = wire::MAX_ARRAY;
    let delta = (n % 3) as usize;
    let mut m = base();
    m.le = n % 2 == 0;
    let txt = |k: usize| RV::S("y".repeat(k));
    let sarr = |content: usize| RV::A(RT::B(b's'), vec![txt(content - 5)]);
    let target = mib64 - 1 + delta;
    match n / 3 {
        0 => m.body = vec![sarr(target)],
        1 => m.body = vec![RV::V(Box::new(sarr(target)))],
        2 => m.body = vec![RV::A(RT::S(vec![RT::B(b's')]), vec![RV::R(vec![txt(target - 5)])]), RV::Y(1)],
        3 => m.body = vec![RV::A(RT::A(Box::new(RT::B(b's'))), vec![sarr(target - 4)])],
        k => {
            m.body = vec![RV::S(String::new())];
            let at = wire::encode(&m, &[], false).body_at;
            m.body = vec![txt(wire::MAX_MSG - 1 + delta - at - 5)];
            if k == 5 {
                // the same, with bytes of the next message behind it
                let mut b = wire::encode(&m, &[], false).bytes;
                b.extend_from_slice(&[b'l'; 100]);
                c.n("messages at 128 MiB", 1);
                return c04_one(&b, &[], c);
            }
        }
    }
    c.n("messages at 64 or 128 MiB", 1);
    let b = wire::encode(&m, &[], false).bytes;
    c.key(n);
    c04_one(&b, &[], c)
}
/// Every sequence of one, two and three bytes (the longer ones where the first calls for them), and
/// four-byte ones at the boundaries, as content of a string: alone, behind and before a letter.
const UTF8: u64 = 256 * 4;
fn c04_utf8(n: u64, c: &mut Ctx) -> Out {
    let (lead, part) = ((n % 256) as u8, (n / 256) as u8);
    c.key(3 << 60 | n);
    let mut buf: Vec<Vec<u8>> = vec![];
    for len in 0..8 {
        let mut m = base();
        m.body = vec![RV::S("z".repeat(len)), RV::Y(1)];
        buf.push(wire::encode(&m, &[], false).bytes);
    }
    let mut k = 0;
    let mut one = |x: &[u8]| -> Out {
        let b = &mut buf[x.len()];
        let at = b.len() - 2 - x.len();
        b[at..at + x.len()].copy_from_slice(x);
        k += 1;
        c04_one(b, &[], c).map_err(|e| format!("string content {}: {}", hex(x), e))
    };
    if part == 0 {
        one(&[lead])?;
        one(&[lead, b'a'])?;
        one(&[b'a', lead])?;
    }
    for s in part * 64..=part * 64 + 63 {
        one(&[lead, s])?;
        one(&[lead, s, b'a'])?;
        one(&[b'a', lead, s])?;
        one(&[b'a', lead, s, b'a'])?;
        if lead < 0xe0 {
            continue;
        }
        for t in 0..=255u8 {
            one(&[lead, s, t])?;
            if lead >= 0xf0 && [0, 0x7f, 0x80, 0x8f, 0x90, 0xbf, 0xc0, 0xff].contains(&t) {
                for u in [0, 0x7f, 0x80, 0xbf, 0xc0, 0xff] {
                    one(&[lead, s, t, u])?;
                    one(&[lead, s, t, u, b'a'])?;
                    one(&[b'a', lead, s, t, u])?;
                }
            }
        }
    }
    c.n("byte sequences as content of a string", k);
    Ok(())
}
pub fn c04_enum(mut n: u64, c: &mut Ctx) -> Out {
    let f = c04_fixed();
    if n >= f {
        let s = sizes::count(c.thorough);
        return match n - f {
            n if n < s => c04_sized(n, c),
            n if n < s + HUGE => c04_huge(n - s, c),
            n => c04_utf8(n - s - HUGE, c),
        };
    }
    let mut i = 0;
    let (mut b, fds) = fixed_wire(0);
    while n >= b.len() as u64 {
        n -= b.len() as u64;
        i += 1;
        b = fixed_wire(i).0;
    }
    let fds = if i == 0 { fds } else { fixed_wire(i).1 };
    let at = n as usize;
    for v in 0..=255u8 {
        let mut x = b.clone();
        x[at] = v;
        c.key_bytes(&x);
        c04_one(&x, &fds, c).map_err(|e| format!("fixed message {} byte {} = {:#x}: {}", i, at, v, e))?;
    }
    c.n("single-byte substitutions", 256);
    Ok(())
}

pub fn c05(s: &mut Src, c: &mut Ctx) -> Out {
    let n = 1 + s.below(4);
    let mut ms = vec![];
    let mut stream: Vec<u8> = vec![];
    let mut ends = vec![0usize];
    for _ in 0..n {
        let m = gen::message(s);
        let o = gen::order(s, &m);
        let w = wire::encode(&m, &o, false);
        stream.extend_from_slice(&w.bytes);
        ends.push(stream.len());
        ms.push(m);
    }
    // a message starts at a multiple of its own start: nothing is aligned to the stream
    let pre = s.below(20);
    let mut buf = vec![0xA5u8; pre];
    buf.extend_from_slice(&stream);
    let tail = match s.below(5) {
        0 => vec![0; s.size(64)],
        1 => vec![0xff; s.size(64)],
        2 => stream[..stream.len().min(40)].to_vec(),
        3 => vec![],
        _ => s.blob(64, |r, _| (0..r.below(40)).map(|_| r.next() as u8).collect()),
    };
    buf.extend_from_slice(&tail);
    let all = Bytes::from(buf);
    c.key_bytes(&all);
    c.sample(|| format!("{} messages, ends {:?}, tail {}", n, ends, hex(&tail)));
    // in place
    for i in 0..n {
        let (a, e) = (ends[i], ends[i + 1]);
        let len = e - a;
        let fds = ms[i].fds();
        let mut views = vec![all.slice(pre + a..), all.slice(pre + a..pre + e)];
        for t in [&b""[..], b"\0", b"\0\0\0\0\0\0\0\0\0", b"l\x01\0\x01", &[0xff; 17]] {
            let mut x = stream[a..e].to_vec();
            x.extend_from_slice(t);
            views.push(Bytes::from(x));
        }
        for v in views {
            c.n("decodes in place", 1);
            let extra = v.len() - len;
            let v2 = v.clone();
            match Message::decode_with_fds(v, &fds) {
                Ok((m, used, _)) => {
                    ensure!(used == len, "message of {} bytes followed by {} bytes: length {} reported; {}", len, extra, used, brief(&hex(&v2), 2000));
                    conv::same(&m, &ms[i]).map_err(|x| format!("followed by {} bytes: {}", extra, x))?;
                }
                Err(x) => bail!("message followed by {} bytes does not decode: {:?}; {}", extra, x, brief(&hex(&v2), 2000)),
            }
            if fds.is_empty() {
                match Message::decode(v2) {
                    Ok((_, used)) => ensure!(used == len, "length {} reported for a message of {} bytes", used, len),
                    Err(x) => bail!("message does not decode: {:?}", x),
                }
            }
        }
    }
    // a receiver
    let mut cuts: Vec<usize> = (0..s.below(10))
        .map(|_| {
            if s.chance(90) {
                let e = ends[s.below(ends.len())];
                (e + s.below(5)).saturating_sub(2).min(stream.len())
            } else {
                s.below(stream.len() + 1)
            }
        })
        .collect();
    cuts.push(stream.len());
    cuts.sort();
    let (mut i, mut at, mut have) = (0, 0, 0);
    for cut in cuts {
        have = cut.max(have);
        loop {
            if at == have && i == n {
                break;
            }
            let r = Message::decode_with_fds(bytes(&stream[at..have]), &ms.get(i).map_or(vec![], |m| m.fds()));
            let complete = i < n && have >= ends[i + 1];
            c.n("receiver steps", 1);
            match r {
                Ok((m, used, _)) => {
                    ensure!(complete, "message {} decodes although only {} of {} bytes arrived", i, have - at, ends[i + 1] - at);
                    ensure!(used == ends[i + 1] - at, "message {} of {} bytes: length {} reported", i, ends[i + 1] - at, used);
                    conv::same(&m, &ms[i]).map_err(|x| format!("message {} of the stream: {}", i, x))?;
                    at += used;
                    i += 1;
                }
                Err(DecodeError::NotEnoughBytes(..)) if !complete => break,
                Err(e) => bail!("message {} of the stream (complete: {}): {:?}", i, complete, e),
            }
        }
    }
    ensure!(i == n && at == stream.len(), "{} of {} messages received", i, n);
    c.n("messages received", n as u64);
    Ok(())
}

pub fn c05_enums(t: bool) -> u64 {
    sizes::count(t) + LONGTAIL
}
const LONGTAIL: u64 = 8;
/// A message of an enumerated size in a stream: alone, with another one and with rubbish behind it.
pub fn c05_enum(n: u64, c: &mut Ctx) -> Out {
    let s = sizes::count(c.thorough);
    let long = n >= s;
    let m = if long { Some(fixed(n as usize % NFIXED)) } else { sizes::get(n, c.thorough) };
    let m = match m {
        Some(m) if m.body.iter().all(|v| v.variant_depth() <= 4) => m,
        _ => return Ok(()),
    };
    let fds = m.fds();
    let w = wire::encode(&m, &[], false).bytes;
    let len = w.len();
    let next = fixed_wire(n as usize % NFIXED);
    let mut all = w;
    all.extend_from_slice(&next.0);
    let at = all.len();
    if long {
        // more bytes than a message may have
        all.resize(wire::MAX_MSG + 1 + (n as usize - s as usize) * 4099, b'B');
        c.n("streams of more than 128 MiB", 1);
    } else {
        all.resize(at + [0, 1, 7, 255, 300, 4096][n as usize % 6], 0xff);
        c.n("messages of enumerated sizes", 1);
    }
    let all = Bytes::from(all);
    let views = [all.slice(..len), all.slice(..at), all.clone(), all.slice(..(len + 1).min(all.len())), all.slice(..(len + 65536).min(all.len()))];
    c.key(n);
    for v in views {
        let extra = v.len() - len;
        c.n("decodes in place", 1);
        match Message::decode_with_fds(v, &fds) {
            Ok((d, used, _)) => {
                ensure!(used == len, "message of {} bytes followed by {} bytes: length {} reported", len, extra, used);
                conv::same(&d, &m).map_err(|x| format!("followed by {} bytes: {}", extra, x))?;
            }
            Err(x) => bail!("message of {} bytes followed by {} bytes does not decode: {:?}; {}", len, extra, x, brief(&hex(&all), 1000)),
        }
    }
    match Message::decode_with_fds(all.slice(len..), &next.1) {
        Ok((_, used, _)) => ensure!(used == at - len, "the message behind it has {} bytes, {} reported", at - len, used),
        Err(x) => bail!("the message behind it does not decode: {:?}", x),
    }
    Ok(())
}

pub fn c06(s: &mut Src, c: &mut Ctx) -> Out {
    let m = gen::message(s);
    let o = gen::order(s, &m);
    let w = wire::encode(&m, &o, false);
    let fds = m.fds();
    let full = Bytes::from(w.bytes);
    c.key_bytes(&full);
    c.sample(|| hex(&full));
    let n = full.len();
    if Message::decode_with_fds(full.clone(), &fds).is_err() {
        c.n("skipped: the complete message does not decode", 1);
        return Ok(());
    }
    let mut cuts: Vec<usize> = if n <= 500 { (0..n).collect() } else { (0..300).chain(n - 100..n).collect() };
    if n > 500 {
        for _ in 0..100 {
            cuts.push(s.below(n));
        }
    }
    c06_cuts(&full, &fds, cuts, c)
}
pub fn c06_enums(t: bool) -> u64 {
    sizes::count(t)
}
pub fn c06_enum(n: u64, c: &mut Ctx) -> Out {
    let m = match sizes::get(n, c.thorough) {
        Some(m) => m,
        None => return Ok(()),
    };
    let w = wire::encode(&m, &[], true);
    let fds = m.fds();
    let full = Bytes::from(w.bytes);
    let n = full.len();
    c.key_bytes(&full);
    c.n("messages of enumerated sizes", 1);
    if Message::decode_with_fds(full.clone(), &fds).is_err() {
        c.n("skipped: the complete message does not decode", 1);
        return Ok(());
    }
    let mut cuts: Vec<usize> = (n.saturating_sub(12)..n).collect();
    let k = w.spans.len();
    let some = (2_000_000 / (n + 3000)).max(4).min(40);
    for i in 0..some {
        let s = &w.spans[if i < 5 { k.saturating_sub(1 + i) } else { (i * 7919 + n) % k }];
        for x in [s.at, s.at + 1, s.at + s.len - 1, s.at + s.len] {
            cuts.push(x);
        }
    }
    for p in 4..27 {
        cuts.extend([(1usize << p) - 1, 1 << p, (1 << p) + 1, w.body_at + (1 << p)]);
    }
    cuts.retain(|x| *x < n);
    c06_cuts(&full, &fds, cuts, c)
}
fn c06_cuts(full: &Bytes, fds: &[i32], cuts: Vec<usize>, c: &mut Ctx) -> Out {
    let n = full.len();
    for k in cuts {
        c.n("prefixes", 1);
        match Message::decode_with_fds(full.slice(..k), fds) {
            Err(DecodeError::NotEnoughBytes(len, off)) => {
                ensure!(len == k, "prefix of {} bytes: error says {} bytes; {}", k, len, brief(&hex(full), 2000));
                ensure!(
                    off > k && off <= n,
                    "prefix of {} of {} bytes: error says offset {}; {}",
                    k,
                    n,
                    off,
                    brief(&hex(full), 2000)
                );
            }
            Err(e) => bail!("prefix of {} of {} bytes: {:?}; {}", k, n, e, brief(&hex(full), 2000)),
            Ok(_) => bail!("prefix of {} of {} bytes decodes; {}", k, n, brief(&hex(full), 2000)),
        }
    }
    Ok(())
}

fn c13_one(m: &RM, c: &mut Ctx) -> Out {
    let msg = build!(c, conv::msg(m));
    let lim = encode_limit(m);
    let r = msg.encode_with_fds();
    match (lim, r) {
        (None, Ok((b, fds))) => {
            c.n("within the limits", 1);
            match wire::decode(&b, &fds) {
                Ok(d) => {
                    let want = with_count(m, fds.len());
                    ensure!(d.used == b.len() && d.m == want, "encoded bytes are damaged: {}", conv::diff(&d.m, &want));
                }
                Err(e) => bail!("encoded bytes are not decodable ({:?}): {}", e, brief(&hex(&b), 2000)),
            }
            if let Err(e) = Message::decode_with_fds(b.freeze(), &fds) {
                bail!("encoding succeeds but its bytes do not decode: {:?}", e);
            }
            Ok(())
        }
        (Some(w), Err(_)) => {
            c.n(&format!("refused: {}", w), 1);
            Ok(())
        }
        (Some(w), Ok((b, _))) => bail!("encodes beyond the limit ({}): {}", w, brief(&hex(&b), 2000)),
        (None, Err(e)) => bail!("refuses a message within the limits: {:?}; {}", e, brief(&format!("{:?}", m), 1500)),
    }
}
pub fn c13(s: &mut Src, c: &mut Ctx) -> Out {
    let m = if s.chance(200) { gen::message_any(s) } else { gen::message(s) };
    c.key_bytes(format!("{:?}", m).as_bytes());
    c.sample(|| format!("{:?}", m));
    c13_one(&m, c)
}
pub fn c13_enums(t: bool) -> u64 {
    c13_limits(t) + c13_fds(t) + c13_sizes(t)
}
fn c13_limits(t: bool) -> u64 {
    SMALL_LIMITS + if t { 40 } else { 20 }
}
fn c13_fds(t: bool) -> u64 {
    (DISTINCT.len() * TOTAL.len()) as u64 * if t { 15 } else { 3 }
}
fn c13_sizes(t: bool) -> u64 {
    sizes::count(t)
}
const SMALL_LIMITS: u64 = 60 + NESTS;
/// 12 ways to nest, 4..6 and 30..36 levels, 8 places.
const NESTS: u64 = 12 * 9 * 8;
fn base() -> RM {
    let mut m = RM::empty();
    m.ty = 2;
    m.reply_serial = Some(1);
    m
}
/// A value nested `d` deep in the `k`-th way.
pub fn nest(k: u64, d: usize) -> RV {
    let mut v = RV::Y(7);
    for i in 0..d {
        v = match k {
            0 => RV::R(vec![v]),
            1 => RV::E(Box::new((RV::Y(1), v))),
            2 => RV::E(Box::new((v, RV::Y(1)))),
            3 => RV::A(v.ty(), vec![v]),
            4 => RV::A(v.ty(), vec![]),
            5 => RV::R(vec![RV::Y(0), v, RV::S("x".into())]),
            6 => RV::R(vec![RV::Y(0), RV::T(4), v]),
            7 => RV::R(vec![v, RV::A(RT::B(b's'), vec![])]),
            8 => RV::R(vec![RV::A(v.ty(), vec![v])]),
            9 => RV::E(Box::new((RV::R(vec![RV::B(true)]), RV::A(v.ty(), vec![v])))),
            10 => {
                let w = RV::E(Box::new((RV::Y(0), RV::R(vec![v]))));
                RV::A(w.ty(), vec![w])
            }
            _ => {
                if i % 8 == 7 && d < 10 {
                    RV::V(Box::new(v))
                } else if i % 2 == 0 {
                    RV::R(vec![v])
                } else {
                    RV::E(Box::new((RV::S("k".into()), v)))
                }
            }
        };
    }
    v
}
fn nest_one(n: u64, c: &mut Ctx) -> Out {
    let (k, n) = (n % 12, n / 12);
    let d = [3usize, 15, 16, 30, 31, 32, 33, 34, 35][(n % 9) as usize];
    let v = nest(k, d);
    let var = |v: RV| RV::V(Box::new(v));
    let mut m = base();
    m.le = (k + n) % 2 == 0;
    m.body = match n / 9 {
        0 => vec![v],
        1 => vec![var(v)],
        2 => vec![RV::Y(1), var(RV::Y(0)), v.clone(), v],
        3 => vec![RV::R(vec![RV::Y(1), var(v)])],
        4 => vec![RV::A(RT::B(b'v'), vec![var(RV::Y(0)), var(v)])],
        5 => vec![RV::G(vec![v.ty(), RT::B(b'y')]), RV::S("x".into())],
        6 => vec![var(var(var(var(v))))],
        _ => vec![nest(0, 30), RV::E(Box::new((RV::Y(9), var(v))))],
    };
    c.key(1 << 60 | n << 8 | k);
    c.n("nestings at a limit", 1);
    c13_one(&m, c)
}
pub fn c13_enum(n: u64, c: &mut Ctx) -> Out {
    let (a, b) = (c13_limits(c.thorough), c13_fds(c.thorough));
    if n >= a {
        let m = if n < a + b { repeated(n - a).map(|x| x.0) } else { sizes::get(n - a - b, c.thorough) };
        return m.map_or(Ok(()), |m| {
            c.key(8 << 59 | n);
            c13_one(&m, c)
        });
    }
    if n < NESTS {
        return nest_one(n, c);
    }
    if n < SMALL_LIMITS {
        let n = n - NESTS;
        // nesting and signature length, at and around each limit
        let (k, place) = (n % 10, n / 10);
        let t = match k {
            0..=2 => {
                let mut t = RT::B(b'y');
                for _ in 0..31 + k {
                    t = RT::A(Box::new(t));
                }
                t
            }
            3..=5 => {
                let mut t = RT::B(b'y');
                for _ in 0..31 + k - 3 {
                    t = RT::S(vec![t]);
                }
                t
            }
            6..=7 => {
                let mut t = RT::B(b'y');
                for _ in 0..32 + k - 6 {
                    t = RT::D(Box::new((RT::B(b'y'), t)));
                }
                t
            }
            8 => RT::S(vec![RT::B(b'y'); 252]),
            _ => RT::S(vec![RT::B(b'y'); 253]),
        };
        let mut m = base();
        m.le = n % 2 == 0;
        m.body = match place {
            0 => vec![RV::A(t, vec![])],
            1 => vec![RV::G(vec![t])],
            2 => vec![RV::V(Box::new(RV::A(t, vec![])))],
            3 => vec![RV::A(RT::B(b'g'), vec![RV::G(vec![t])])],
            4 => {
                // as a value
                fn mk(t: &RT) -> RV {
                    match t {
                        RT::A(e) => RV::A((**e).clone(), vec![]),
                        RT::S(ts) => RV::R(ts.iter().map(mk).collect()),
                        RT::D(p) => RV::E(Box::new((mk(&p.0), mk(&p.1)))),
                        RT::B(_) => RV::Y(3),
                    }
                }
                vec![mk(&t)]
            }
            _ => (0..255 + (k as usize % 3) - 1).map(|i| RV::Y(i as u8)).collect(),
        };
        return c13_one(&m, c);
    }
    // 64 MiB arrays and 128 MiB messages
    let n = n - SMALL_LIMITS;
    let mib64 = 64usize << 20;
    let txt = |k: usize| RV::S("x".repeat(k));
    let sarr = |content: usize| RV::A(RT::B(b's'), vec![txt(content - 5)]);
    let over = (n % 2) as usize;
    let mut m = base();
    m.le = n % 4 < 2;
    let ok = over == 0;
    match (n / 2) % 10 {
        0 => m.body = vec![sarr(mib64 + over)],
        1 => m.body = vec![RV::V(Box::new(sarr(mib64 + over)))],
        2 => {
            // the inner array fills the outer one
            let inner = mib64 - 4 + over;
            m.body = vec![RV::A(RT::A(Box::new(RT::B(b's'))), vec![sarr(inner)])]
        }
        3 => {
            // two members; alignment counts inside the content
            let a = 5usize;
            let first = RV::S("x".into()); // 4 + 1 + 1 = 6, then 2 bytes padding
            let rest = mib64 - 8 - a + over;
            m.body = vec![RV::Y(1), RV::A(RT::B(b's'), vec![first, txt(rest)])]
        }
        4 => {
            // padding before the first element does not count: array of structs
            let t = RT::S(vec![RT::B(b's')]);
            m.body = vec![RV::A(t, vec![RV::R(vec![txt(mib64 - 5 + over)])])]
        }
        5 | 6 => {
            // whole message: header 16 + fields, then the body
            let two = (n / 2) % 10 == 6;
            m.body = if two { vec![RV::S(String::new()), RV::S(String::new())] } else { vec![RV::S(String::new())] };
            let h = wire::encode(&m, &[], false).body_at;
            let room = wire::MAX_MSG - h;
            m.body = if two {
                let a = 1 << 20; // 4 + a + 1, then 3 bytes of padding
                vec![txt(a), txt(room - (4 + a + 1 + 3) - 5 + over)]
            } else {
                vec![txt(room - 5 + over)]
            }
        }
        7 => {
            // the body alone is within the limit but not with the header
            m.body = vec![txt(wire::MAX_MSG - 5 - 8)];
            let msg = build!(c, conv::msg(&m));
            ensure!(msg.encode().is_err(), "encodes a message of more than 128 MiB (body alone within the limit)");
            c.n("refused: size", 1);
            return Ok(());
        }
        8 => {
            // several arrays, each within the limit, together near 128 MiB
            let k = 60usize << 20;
            m.body = vec![sarr(k), sarr(k + over)];
            let msg = build!(c, conv::msg(&m));
            ensure!(msg.encode().is_ok(), "refuses two arrays of 60 MiB in a message below 128 MiB");
            c.n("accepted: size", 1);
            return Ok(());
        }
        _ => {
            // a plain string longer than an array may be
            m.body = vec![txt(mib64 + 10 + over)];
            let msg = build!(c, conv::msg(&m));
            ensure!(msg.encode().is_ok(), "refuses a string of 64 MiB in a message below 128 MiB");
            c.n("accepted: size", 1);
            return Ok(());
        }
    }
    c.key(n);
    let msg = build!(c, conv::msg(&m));
    let r = msg.encode();
    match (r, ok) {
        (Ok(b), true) => {
            c.n("accepted: size", 1);
            let want = wire::encode(&m, &[], false).bytes;
            ensure!(b.len() == want.len(), "case {}: encoded to {} bytes instead of {}", n, b.len(), want.len());
            ensure!(b[..] == want[..] || wire::decode(&b, &[]).map_or(false, |d| d.m == m), "case {}: damaged bytes", n);
            match Message::decode(b.freeze()) {
                Ok((d, used)) => ensure!(used == want.len() && d.get_body() == &build!(c, conv::vals(&m.body))[..], "case {}: does not decode to the same", n),
                Err(e) => bail!("case {}: encoded message at the limit does not decode: {:?}", n, e),
            }
            Ok(())
        }
        (Err(_), false) => {
            c.n("refused: size", 1);
            Ok(())
        }
        (Ok(_), false) => bail!("size case {}: encodes one byte past the limit", n),
        (Err(e), true) => bail!("size case {}: refuses a message exactly at the limit: {:?}", n, e),
    }
}

fn fdize(s: &mut Src, t: &RT, p: u32) -> RT {
    match t {
        RT::B(b'v') => RT::B(b'v'),
        RT::B(x) => RT::B(if s.chance(p) { b'h' } else { *x }),
        RT::A(t) => RT::A(Box::new(fdize(s, t, p))),
        RT::S(ts) => RT::S(ts.iter().map(|t| fdize(s, t, p)).collect()),
        RT::D(d) => RT::D(Box::new((fdize(s, &d.0, p), fdize(s, &d.1, p)))),
    }
}
/// The descriptors an encoder returns, and the indices it writes.
fn c17_encode(m: &RM, want: &[i32], c: &mut Ctx) -> Out {
    let msg = build!(c, conv::msg(m));
    match msg.encode_with_fds() {
        Ok((b, fds)) => {
            ensure!(fds == want, "encoder returned descriptors {:?}, the body has {:?}", brief(&format!("{:?}", fds), 500), brief(&format!("{:?}", want), 500));
            match wire::decode(&b, &fds) {
                Ok(d) => {
                    let w = with_count(m, want.len());
                    ensure!(d.m.unix_fds == w.unix_fds, "header says {:?} descriptors, expected {:?}", d.m.unix_fds, w.unix_fds);
                    ensure!(d.m.body == w.body, "{}", conv::diff(&d.m, &w));
                    ensure!(d.nfds == want.len(), "the highest index used is {} of {}", d.nfds, want.len());
                }
                Err(e) => c.n(&format!("reference rejects: {:?}", e), 1),
            }
        }
        Err(_) => c.n("refused by the encoder", 1),
    }
    Ok(())
}
/// Arrays of many descriptors, some of them distinct.
const DISTINCT: &[usize] = &[1, 2, 3, 16, 17, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257, 300, 511, 512, 1024, 4096];
const TOTAL: &[usize] = &[2, 5, 64, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, 131073];
/// The `n`-th such message; (occurrences, distinct, order, way).
fn repeated(n: u64) -> Option<(RM, (usize, usize, u64, usize))> {
    let (n, how) = (n / 3, n % 3);
    let (d, n) = (DISTINCT[n as usize % DISTINCT.len()], n as usize / DISTINCT.len());
    let (total, n) = (TOTAL[n % TOTAL.len()], n / TOTAL.len());
    if d > total || d * total > 80_000_000 {
        return None;
    }
    let fd = |i: usize| RV::H(match how {
        0 => i % d,
        1 => if i < d { i } else { d - 1 - i % d },
        _ => i * d / total,
    } as i32 * 3 - 5);
    let mut m = base();
    m.le = (n + d + total) % 2 == 0;
    let h = RT::B(b'h');
    let all: Vec<RV> = (0..total).map(fd).collect();
    let kind = (n + how as usize + d * 3 + total) % 5;
    m.body = match kind {
        0 => vec![RV::A(h, all)],
        1 => vec![fd(total - 1), RV::V(Box::new(RV::A(h, all))), fd(0)],
        2 => vec![RV::A(RT::A(Box::new(h.clone())), all.chunks(300).map(|x| RV::A(h.clone(), x.to_vec())).collect()), fd(0)],
        3 => vec![RV::A(RT::S(vec![h.clone(), RT::B(b's'), h]), all.chunks(2).map(|x| RV::R(vec![x[0].clone(), RV::S("x".into()), x[x.len() - 1].clone()])).collect())],
        _ if total <= 255 => all,
        _ => vec![RV::A(RT::B(b'v'), all.into_iter().map(|x| RV::V(Box::new(x))).collect())],
    };
    Some((m, (total, d, how, kind)))
}
fn c17_repeated(n: u64, c: &mut Ctx) -> Out {
    let (m, (total, d, how, kind)) = match repeated(n) {
        Some(x) => x,
        None => return Ok(()),
    };
    let want = m.fds();
    c.key(5 << 59 | (d as u64) << 30 | (total as u64) << 8 | how << 4 | kind as u64);
    c.n("tables written", 1);
    c17_encode(&m, &want, c).map_err(|e| format!("{} descriptors of which {} distinct (order {}, way {}): {}", total, d, how, kind, e))
}
pub fn c17(s: &mut Src, c: &mut Ctx) -> Out {
    let mut m = gen::header(s);
    let mut f = gen::fuel(s);
    let n = 1 + s.size(5);
    let p = s.pick(&[60u32, 128, 250]);
    let mut room = 255usize;
    for _ in 0..n {
        let t = gen::rtype(s, room.min(60), 0);
        let t = fdize(s, &t, p);
        if t.sig().len() > room {
            break;
        }
        room -= t.sig().len();
        let mut v = gen::value(s, &t, &mut f, 0);
        if s.chance(60) && v.variant_depth() < 4 && room > 0 && sig_ok(&[v.ty()]) {
            room += t.sig().len();
            room -= 1;
            v = RV::V(Box::new(v));
        }
        m.body.push(v);
    }
    let want = m.fds();
    c.n("descriptors", want.len() as u64);
    c.max("distinct descriptors", want.len() as u64);
    c17_encode(&m, &want, c)?;
    // decoding with a foreign table
    let (mut w, t) = foreign(s, &m);
    c.key_bytes(&w.bytes);
    c.sample(|| format!("table {:?} bytes {}", t, hex(&w.bytes)));
    let r = wire::decode(&w.bytes, &t);
    match (Message::decode_with_fds(bytes(&w.bytes), &t), &r) {
        (Ok((d, _, nfds)), Ok(r)) => {
            ensure!(nfds == r.nfds, "decode reports {} descriptors used, expected {} (table of {}); {}", nfds, r.nfds, t.len(), brief(&hex(&w.bytes), 2000));
            let got = conv::rvs(d.get_body());
            ensure!(got == r.m.body, "descriptors mixed up with table {:?}: got {} expected {}", t, brief(&format!("{:?}", got), 800), brief(&format!("{:?}", r.m.body), 800));
            ensure!(d.get_unix_fds() == r.m.unix_fds, "descriptor count changed by decoding");
            c.n("decoded", 1);
        }
        (Err(DecodeError::NotEnoughFds(..)), Ok(_)) => bail!("not enough descriptors reported although all indices are inside the table of {}; {}", t.len(), brief(&hex(&w.bytes), 2000)),
        _ => c.n("other outcome", 1),
    }
    // an index outside the table
    let spans: Vec<usize> = w.spans.iter().filter(|x| x.k == wire::Sp::Fd).map(|x| x.at).collect();
    if !spans.is_empty() && r.is_ok() {
        let at = spans[s.below(spans.len())];
        let i = match s.below(4) {
            0 => t.len() as u32,
            1 => t.len() as u32 + 1 + s.below(10) as u32,
            2 => u32::MAX - s.below(3) as u32,
            _ => (t.len() as u32).wrapping_add(s.int(4) as u32).max(t.len() as u32),
        };
        let b = if m.le { i.to_le_bytes() } else { i.to_be_bytes() };
        w.bytes[at..at + 4].copy_from_slice(&b);
        c.n("indices outside", 1);
        match Message::decode_with_fds(bytes(&w.bytes), &t) {
            Err(DecodeError::NotEnoughFds(..)) => {}
            x => bail!("descriptor index {} outside a table of {}: {:?}", i, t.len(), x.map(|_| "decoded")),
        }
        match Message::decode(bytes(&w.bytes)) {
            Err(DecodeError::NotEnoughFds(..)) => {}
            x => bail!("descriptor indices without any descriptors: {:?}", x.map(|_| "decoded")),
        }
    }
    Ok(())
}

/// Tables of descriptors of many sizes, every kind of index.
pub fn c17_enums(t: bool) -> u64 {
    c17_tables(t) + (DISTINCT.len() * TOTAL.len()) as u64 * if t { 15 } else { 3 }
}
fn c17_tables(t: bool) -> u64 {
    TABLES.len() as u64 * 12 + if t { 12 } else { 0 }
}
const TABLES: &[usize] = &[
    1, 2, 3, 4, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095,
    4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131073, 1048577,
];
pub fn c17_enum(n: u64, c: &mut Ctx) -> Out {
    let tables = c17_tables(c.thorough);
    if n >= tables {
        return c17_repeated(n - tables, c);
    }
    let (k, n) = (n % 12, (n / 12) as usize);
    let size = TABLES.get(n).copied().unwrap_or(17_000_001);
    let t: Vec<i32> = (0..size).map(|i| 7 + i as i32 * 3).collect();
    let mut m = base();
    m.le = (k as usize + n) % 2 == 0;
    // the values in the body are indices here
    let idx: Vec<usize> = match k % 4 {
        0 => vec![0],
        1 => vec![size - 1, size / 2],
        2 => vec![0, size / 2, size - 1, size / 3, 0],
        _ => vec![size / 2, size.min(256) - 1, size.min(65536) - 1, (size - 1).min(256), (size - 1).min(65536)],
    };
    let h: Vec<RV> = idx.iter().map(|i| RV::H(*i as i32)).collect();
    m.body = match k / 4 {
        0 => h,
        1 => vec![RV::A(RT::B(b'h'), h)],
        _ => vec![RV::Y(1), RV::V(Box::new(RV::R(h)))],
    };
    if k % 2 == 0 {
        m.unix_fds = Some(size as u32);
    }
    let b = Raw::from_rm(&m, &[]).encode(false, &mut |x| x as u32).bytes;
    c.key_bytes(&b);
    c.n("table sizes and indices", 1);
    let high = idx.iter().max().unwrap() + 1;
    let mut want = m.clone();
    for v in &mut want.body {
        v.walk_mut(&mut |x| {
            if let RV::H(i) = x {
                *i = 7 + *i * 3
            }
        });
    }
    match Message::decode_with_fds(bytes(&b), &t) {
        Ok((d, used, nfds)) => {
            ensure!(used == b.len(), "{} of {} bytes used", used, b.len());
            ensure!(nfds == high, "indices {:?} in a table of {}: {} descriptors reported as used, expected {}", idx, size, nfds, high);
            conv::same(&d, &want).map_err(|e| format!("indices {:?} in a table of {}: {}", idx, size, e))?;
        }
        Err(e) => bail!("indices {:?} in a table of {} descriptors: {:?}", idx, size, e),
    }
    // the table one too small
    match Message::decode_with_fds(bytes(&b), &t[..high - 1]) {
        Err(DecodeError::NotEnoughFds(..)) => {}
        x => bail!("indices {:?} in a table of {}: {:?}", idx, high - 1, x.map(|_| "decoded")),
    }
    // indices that only fit after truncation
    for wrap in [256usize, 65536, 1 << 31] {
        if size <= wrap {
            let b = Raw::from_rm(&m, &[]).encode(false, &mut |x| (x as usize + wrap) as u32).bytes;
            match Message::decode_with_fds(bytes(&b), &t) {
                Err(DecodeError::NotEnoughFds(..)) => {}
                x => bail!("indices {:?} + {} in a table of {}: {:?}", idx, wrap, size, x.map(|_| "decoded")),
            }
        }
    }
    Ok(())
}

fn c24_one(m: &RM, c: &mut Ctx) -> Out {
    let (mut l, mut b) = (m.clone(), m.clone());
    l.le = true;
    b.le = false;
    let (ml, mb) = (build!(c, conv::msg(&l)), build!(c, conv::msg(&b)));
    let (el, eb) = (ml.encode_with_fds(), mb.encode_with_fds());
    let ((el, fl), (eb, fb)) = match (el, eb) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(x), Err(y)) => {
            c.n("refused in both", 1);
            ensure!(x == y, "encoding fails differently: {:?} and {:?}", x, y);
            return Ok(());
        }
        (x, y) => bail!("encodes in one byte order only: little {:?} big {:?}", x.map(|_| ()), y.map(|_| ())),
    };
    c.n("encoded in both", 1);
    c.key(hash_bytes(3, &el));
    let h = || format!("little {} big {}", brief(&hex(&el), 2000), brief(&hex(&eb), 2000));
    ensure!(fl == fb, "descriptor lists differ: {:?} {:?}", fl, fb);
    ensure!(el.len() == eb.len(), "lengths differ: {} and {}; {}", el.len(), eb.len(), h());
    // expected big-endian bytes: swap the numbers of the little-endian bytes
    if let Ok(d) = wire::decode(&el, &fl) {
        let want = with_count(&l, fl.len());
        let codes: Vec<u8> = want.fields().iter().map(|f| f.0).collect();
        let order: Vec<usize> = d.order.iter().filter_map(|x| codes.iter().position(|y| y == x)).collect();
        let w = wire::encode(&want, &order, true);
        if w.bytes[..] == el[..] {
            let mut x = el.to_vec();
            ensure!(x[0] == b'l' && eb[0] == b'B', "byte order marks; {}", h());
            x[0] = b'B';
            for s in &w.spans {
                use wire::Sp::*;
                if matches!(s.k, Num | Bool | StrLen | ArrLen | Fd | BodyLen | Serial) {
                    x[s.at..s.at + s.len].reverse();
                }
            }
            c.n("bytes compared", x.len() as u64);
            if x[..] != eb[..] {
                let at = x.iter().zip(eb.iter()).position(|(a, b)| a != b).unwrap_or(0);
                bail!("byte {} differs by more than byte order; {}", at, h());
            }
        }
    }
    let (dl, db) = (Message::decode_with_fds(el.clone().freeze(), &fl), Message::decode_with_fds(eb.clone().freeze(), &fb));
    match (dl, db) {
        (Ok((x, u, n)), Ok((y, v, k))) => {
            ensure!(u == v && n == k, "consumed {} and {} bytes, {} and {} descriptors", u, v, n, k);
            conv::same(&x, &with_count(&l, fl.len())).map_err(|e| format!("little: {}; {}", e, h()))?;
            conv::same(&y, &with_count(&b, fb.len())).map_err(|e| format!("big: {}; {}", e, h()))
        }
        (x, y) => bail!("decode: little {:?} big {:?}; {}", x.map(|_| ()), y.map(|_| ()), h()),
    }
}
pub fn c24(s: &mut Src, c: &mut Ctx) -> Out {
    let m = if s.chance(40) { gen::message_any(s) } else { gen::message(s) };
    c.sample(|| format!("{:?}", m));
    c24_one(&m, c)
}
pub fn c24_enum(n: u64, c: &mut Ctx) -> Out {
    enumerated(n, c).map_or(Ok(()), |m| c24_one(&m, c))
}
