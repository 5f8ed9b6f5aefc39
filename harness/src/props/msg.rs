//! Monitors about values, headers and messages as objects: C12, C18, C19, C20, C25, C26.
use crate::conv;
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::hash_bytes;
use crate::tape::Src;
use crate::wire;
use crate::{bail, build, ensure};
use bytes::Bytes;
use dbus_message_parser::decode::DecodeError;
use dbus_message_parser::match_rule::MatchRule;
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

fn hkey(c: &mut Ctx, x: &impl Debug) {
    let t = format!("{:?}", x);
    c.key(hash_bytes(3, t.as_bytes()));
}

// ---- C12

/// Depth of struct and dict entry nesting as seen by `get_type` (arrays by their declared type,
/// variants opaque).
fn value_depth(v: &RV) -> (usize, usize) {
    match v {
        RV::R(xs) => {
            let mut m = (0, 0);
            for x in xs {
                let d = value_depth(x);
                m = (m.0.max(d.0), m.1.max(d.1));
            }
            (m.0 + 1, m.1)
        }
        RV::E(p) => {
            let (a, b) = (value_depth(&p.0), value_depth(&p.1));
            (a.0.max(b.0), a.1.max(b.1) + 1)
        }
        _ => (0, 0),
    }
}
fn type_ok(v: &RV) -> bool {
    let d = value_depth(v);
    d.0 <= 32 && d.1 <= 32
}
/// Every sub-value's type. False when one is not constructible.
pub fn types_of(v: &RV, lib: &Value, c: &mut Ctx) -> Out {
    let t = lib.get_type();
    if type_ok(v) {
        let want = conv::ty(&v.ty());
        ensure!(t.as_ref() == Ok(&want), "type of {}: {:?}, expected {}", brief(&format!("{:?}", v), 300), t, brief(&v.ty().sig(), 300));
        ensure!(want.get_alignment() == v.ty().align(), "alignment of {}: {}", v.ty().sig(), want.get_alignment());
        c.n("types computed", 1);
    } else {
        ensure!(t.is_err(), "type of a value nested {:?} deep: {:?}", value_depth(v), t.map(|t| brief(&t.to_string(), 300)));
        c.n("types refused", 1);
    }
    match (v, lib) {
        (RV::A(t, xs), Value::Array(a)) => {
            ensure!(conv::rt(a.get_type()) == *t, "array's element type is {:?}, declared {:?}", a.get_type(), t);
            ensure!(conv::rvs(a.as_ref()) == *xs, "array does not keep its elements");
            ensure!(conv::rvs(&Vec::<Value>::from(a.clone())) == *xs, "array does not give back its elements");
            for (x, y) in xs.iter().zip(a.as_ref()) {
                types_of(x, y, c)?;
            }
        }
        (RV::R(xs), Value::Struct(a)) => {
            ensure!(conv::rvs(a.as_ref()) == *xs, "struct does not keep its members");
            ensure!(conv::rvs(&Vec::<Value>::from(a.clone())) == *xs, "struct does not give back its members");
            for (x, y) in xs.iter().zip(a.as_ref()) {
                types_of(x, y, c)?;
            }
        }
        (RV::E(p), Value::DictEntry(q)) => {
            types_of(&p.0, &q.0, c)?;
            types_of(&p.1, &q.1, c)?;
        }
        (RV::V(x), Value::Variant(y)) => types_of(x, y, c)?,
        _ => {}
    }
    Ok(())
}
pub fn array_one(t: &RT, xs: &[RV], c: &mut Ctx) -> Out {
    let vs = build!(c, conv::vals(xs));
    let good = xs.iter().all(|x| type_ok(x) && x.ty() == *t);
    let r = Array::new(vs.clone(), conv::ty(t));
    c.n(if good { "arrays accepted" } else { "arrays refused" }, 1);
    match &r {
        Ok(a) => {
            ensure!(good, "an array of {} is built from {}", t.sig(), brief(&format!("{:?}", xs), 600));
            ensure!(conv::rvs(a.as_ref()) == xs && conv::rt(a.get_type()) == *t, "array differs from its elements: {:?}", a);
        }
        Err(e) => {
            ensure!(!good, "an array of {} is refused ({:?}): {}", brief(&t.sig(), 300), e, brief(&format!("{:?}", xs), 600));
            if let ArrayError::TypeMismatch(want, got) = e {
                let named = xs.iter().any(|x| type_ok(x) && conv::ty(&x.ty()) == *got && x.ty() != *t);
                ensure!(conv::rt(want) == *t && named, "array of {} of {}: the error says {:?}", t.sig(), brief(&format!("{:?}", xs), 400), e);
            } else {
                ensure!(xs.iter().any(|x| !type_ok(x)), "array of {} of {}: the error says {:?}", t.sig(), brief(&format!("{:?}", xs), 400), e);
            }
        }
    }
    let r = Struct::try_from(vs);
    ensure!(r.is_ok() != xs.is_empty(), "a struct of {} members: {:?}", xs.len(), r.map(|_| ()));
    if let Ok(r) = r {
        ensure!(conv::rvs(r.as_ref()) == xs, "struct differs from its members: {:?}", r);
        ensure!(conv::rvs(&Vec::from(r)) == xs, "struct does not give back its members");
    }
    Ok(())
}
/// The element lists of c12's enumerated cases: every leaf type against every declared type.
fn c12_short(_: bool) -> u64 {
    14 * 14 + 8
}
pub fn c12_enums(t: bool) -> u64 {
    c12_short(t) + super::long::c12_enums()
}
pub fn c12_enum(n: u64, c: &mut Ctx) -> Out {
    let short = c12_short(c.thorough);
    if n >= short {
        return super::long::c12(n - short, c);
    }
    const L: &[u8] = b"ybnqiuxtdsoghv";
    c.key(1 << 61 | n);
    if n < 196 {
        let (t, u) = (L[(n / 14) as usize], L[(n % 14) as usize]);
        let (a, b) = (super::wirep::leaf(t, 3), super::wirep::leaf(u, 5));
        let (ta, tb) = (RT::B(t), RT::B(u));
        for xs in [vec![b.clone()], vec![a.clone(), b.clone()], vec![a.clone(), a.clone(), b.clone()], vec![b.clone(), a.clone()]] {
            array_one(&ta, &xs, c)?;
            // one level down
            let w: Vec<RV> = xs.iter().map(|x| RV::R(vec![x.clone(), RV::Y(0)])).collect();
            array_one(&RT::S(vec![ta.clone(), RT::B(b'y')]), &w, c)?;
            let w: Vec<RV> = xs.iter().map(|x| RV::E(Box::new((RV::Y(0), x.clone())))).collect();
            array_one(&RT::D(Box::new((RT::B(b'y'), ta.clone()))), &w, c)?;
            let w: Vec<RV> = xs.iter().map(|x| RV::E(Box::new((x.clone(), RV::Y(0))))).collect();
            array_one(&RT::D(Box::new((ta.clone(), RT::B(b'y')))), &w, c)?;
            let w: Vec<RV> = xs.iter().map(|x| RV::A(x.ty(), vec![])).collect();
            array_one(&RT::A(Box::new(ta.clone())), &w, c)?;
            let w: Vec<RV> = xs.iter().map(|x| RV::V(Box::new(x.clone()))).collect();
            array_one(&RT::B(b'v'), &w, c)?;
            array_one(&ta, &w, c)?;
            let w: Vec<RV> = xs.iter().map(|x| RV::R(vec![x.clone()])).collect();
            array_one(&ta, &w, c)?;
        }
        for (v, t) in [
            (RV::R(vec![a.clone(), b.clone()]), RT::S(vec![ta.clone(), tb.clone()])),
            (RV::R(vec![a.clone(), b.clone()]), RT::S(vec![tb.clone(), ta.clone()])),
            (RV::R(vec![a.clone(), b.clone()]), RT::S(vec![ta.clone()])),
            (RV::R(vec![a.clone(), b.clone()]), RT::D(Box::new((ta.clone(), tb.clone())))),
            (RV::E(Box::new((a.clone(), b.clone()))), RT::S(vec![ta.clone(), tb.clone()])),
            (RV::E(Box::new((a.clone(), b.clone()))), RT::D(Box::new((tb.clone(), ta.clone())))),
            (RV::A(ta.clone(), vec![]), RT::A(Box::new(tb.clone()))),
            (RV::A(ta.clone(), vec![a.clone()]), ta.clone()),
            (RV::A(RT::A(Box::new(ta.clone())), vec![RV::A(ta.clone(), vec![])]), RT::A(Box::new(RT::A(Box::new(tb.clone()))))),
        ] {
            let lib = build!(c, conv::val(&v));
            types_of(&v, &lib, c)?;
            array_one(&t, &[v.clone()], c)?;
            array_one(&v.ty(), &[v.clone(), v], c)?;
        }
        return Ok(());
    }
    // depth limits: structs, dict entries by key and by value, mixed, hidden behind arrays and
    // variants
    let n = n - 196;
    for d in 28..36usize {
        let mut v = RV::Y(7);
        for i in 0..d {
            v = match n {
                0 => RV::R(vec![v]),
                1 => RV::E(Box::new((RV::Y(1), v))),
                2 => RV::E(Box::new((v, RV::Y(1)))),
                3 => RV::R(vec![RV::Y(0), v, RV::S("x".into())]),
                4 if i % 2 == 0 => RV::R(vec![v]),
                4 => RV::E(Box::new((RV::B(true), v))),
                5 => RV::V(Box::new(RV::R(vec![v]))),
                6 => {
                    let w = RV::R(vec![v]);
                    if i == 15 && type_ok(&w) {
                        RV::A(w.ty(), vec![w])
                    } else {
                        w
                    }
                }
                _ => RV::A(v.ty(), vec![v]),
            };
        }
        let lib = build!(c, conv::val(&v));
        types_of(&v, &lib, c)?;
        array_one(&v.ty(), &[v.clone()], c)?;
        // both families at their limit
        let mut w = v.clone();
        for _ in 0..32 {
            w = if n == 0 || n == 3 { RV::E(Box::new((RV::Y(0), w))) } else { RV::R(vec![w]) };
        }
        let lib = build!(c, conv::val(&w));
        types_of(&w, &lib, c)?;
    }
    Ok(())
}
pub fn c12(s: &mut Src, c: &mut Ctx) -> Out {
    let mut f = gen::fuel(s);
    let v = gen::value_any(s, &mut f);
    hkey(c, &v);
    c.sample(|| format!("{:?}", v));
    let lib = build!(c, conv::val(&v));
    types_of(&v, &lib, c)?;
    // an element list: one type with a possible intruder
    let t = if s.chance(100) { v.ty() } else { gen::rtype(s, 60, 2) };
    let n = s.size(20);
    let mut xs: Vec<RV> = (0..n).map(|_| gen::value(s, &t, &mut f, 1)).collect();
    if v.ty() == t {
        xs.push(v);
    }
    if s.chance(128) && !xs.is_empty() {
        let at = s.below(xs.len());
        let x = match s.below(4) {
            0 => gen::value_any(s, &mut f),
            1 => {
                // the same shape with one leaf of another type
                let mut t = t.clone();
                retype(&mut t, s.u8() as usize, s.pick(b"ybnqiuxtdsoghv"));
                gen::value(s, &t, &mut f, 1)
            }
            2 => RV::V(Box::new(xs[at].clone())),
            _ => RV::R(vec![xs[at].clone()]),
        };
        xs[at] = x;
    }
    array_one(&t, &xs, c)
}
fn retype(t: &mut RT, mut k: usize, b: u8) {
    fn go(t: &mut RT, k: &mut usize, b: u8) -> bool {
        match t {
            RT::B(c) => {
                if *k == 0 {
                    *c = b;
                    return true;
                }
                *k -= 1;
                false
            }
            RT::A(t) => go(t, k, b),
            RT::S(ts) => ts.iter_mut().any(|t| go(t, k, b)),
            RT::D(p) => go(&mut p.0, k, b) || go(&mut p.1, k, b),
        }
    }
    k %= t.sig().len().max(1);
    go(t, &mut k, b);
}

// ---- C18

fn reply_of(m: &RM) -> RM {
    let mut r = RM::empty();
    r.le = m.le;
    r.ty = 2;
    r.flags = 1;
    r.ver = 1;
    r.serial = 0;
    r.reply_serial = Some(m.serial);
    r.destination = m.sender.clone();
    r.sender = m.destination.clone();
    r
}
fn error_of(m: &RM, name: &str, text: &str) -> RM {
    let mut r = reply_of(m);
    r.ty = 3;
    r.error_name = Some(name.into());
    r.body = vec![RV::S(text.into())];
    r
}
const ERR: &str = "org.freedesktop.DBus.Error.";
pub fn reply_one(m: &RM, msg: &Message, prop: &str, err: &str, c: &mut Ctx) -> Out {
    let (h, _) = match msg.clone().split() {
        Ok(x) => x,
        Err(e) => bail!("split: {:?}", e),
    };
    let en = build!(c, conv::error(err));
    let both = |what: &str, a: Option<Message>, b: Option<Message>, want: Option<RM>| -> Out {
        for (from, x) in [("message", &a), ("header", &b)] {
            match (x, &want) {
                (None, None) => {}
                (Some(x), Some(w)) => conv::same(x, w).map_err(|e| format!("{} of a {}: {}", what, from, e))?,
                _ => bail!("{} of a {}: {}, expected {}", what, from, if x.is_some() { "a reply" } else { "none" }, if want.is_some() { "one" } else { "none" }),
            }
        }
        if a != b {
            bail!("{}: replies of message and header differ", what);
        }
        Ok(())
    };
    let call = m.ty == 1;
    let no_call = error_of(m, &format!("{}MessageType", ERR), "Message is not a method call");
    let split = |r: Result<Message, Message>| match r {
        Ok(m) => (Some(m), None),
        Err(m) => (None, Some(m)),
    };
    let (a, ae) = split(msg.method_return());
    let (b, be) = split(h.method_return());
    both("method_return", a, b, if call { Some(reply_of(m)) } else { None })?;
    both("refused method_return", ae, be, if call { None } else { Some(no_call) })?;
    let e = |k: &str, t: String| error_of(m, &format!("{}{}", ERR, k), &t);
    both(
        "unknown_property",
        Some(msg.unknown_property(prop)),
        Some(h.unknown_property(prop)),
        Some(e("UnknownProperty", format!("does not have a property {}", prop))),
    )?;
    both(
        "unknown_path",
        msg.unknown_path(),
        h.unknown_path(),
        m.path.as_ref().map(|p| e("UnknownPath", format!("does not have a path {}", p))),
    )?;
    both(
        "unknown_interface",
        msg.unknown_interface(),
        h.unknown_interface(),
        m.interface.as_ref().map(|p| e("UnknownInterface", format!("does not have an interface {}", p))),
    )?;
    both(
        "unknown_member",
        msg.unknown_member(),
        h.unknown_member(),
        m.member.as_ref().map(|p| e("UnknownMember", format!("does not have a member {}", p))),
    )?;
    both("invalid_args", Some(msg.invalid_args(prop.into())), Some(h.invalid_args(prop.into())), Some(e("InvalidArgs", prop.into())))?;
    both("error", Some(msg.error(en.clone(), prop.into())), Some(h.error(en, prop.into())), Some(error_of(m, err, prop)))?;
    conv::same(msg, m).map_err(|e| format!("replying changed the message: {}", e))?;
    c.n("replies compared", 16);
    Ok(())
}
pub fn c18(s: &mut Src, c: &mut Ctx) -> Out {
    let mut m = gen::message(s);
    let prop = gen::text(s);
    let err = gen::name(s, Kind::Error);
    hkey(c, &(&m, &prop, &err));
    c.sample(|| format!("{:?} {:?}", m, prop));
    let mut msg = build!(c, conv::msg(&m));
    if s.chance(100) {
        // as received
        if let Ok((b, f)) = msg.encode_with_fds() {
            if let Ok((d, _, n)) = Message::decode_with_fds(b.freeze(), &f) {
                msg = d;
                if n > 0 {
                    m.unix_fds = Some(n as u32);
                }
                c.n("received messages answered", 1);
            }
        }
    }
    reply_one(&m, &msg, &prop, &err, c)
}
pub fn subset(ty: u8, mask: u64) -> RM {
    let mut m = RM::empty();
    m.ty = ty;
    m.le = mask & 1 == 0;
    m.serial = 0x0102_0304 + mask as u32;
    m.flags = (mask % 8) as u8;
    m.ver = 2;
    let s = |b: u64, x: &str| if mask >> b & 1 == 1 { Some(x.to_string()) } else { None };
    m.path = s(0, "/pa/th");
    m.interface = s(1, "in.ter");
    m.member = s(2, "Mem");
    m.error_name = s(3, "er.ror");
    m.reply_serial = s(4, "").map(|_| 77);
    m.destination = s(5, "de.st");
    m.sender = s(6, ":1.9");
    m.unix_fds = s(7, "").map(|_| 5);
    if mask >> 8 & 1 == 1 {
        m.body = vec![RV::S("first".into()), RV::U(9)];
    }
    m
}
fn c18_short(_: bool) -> u64 {
    4 * 512
}
pub fn c18_enums(t: bool) -> u64 {
    c18_short(t) + super::long::c18_enums()
}
pub fn c18_enum(n: u64, c: &mut Ctx) -> Out {
    let short = c18_short(c.thorough);
    if n >= short {
        return super::long::c18(n - short, c);
    }
    let m = subset((n % 4) as u8 + 1, n / 4);
    if !RM::required(m.ty).iter().all(|f| m.has(*f)) {
        return Ok(());
    }
    c.key(1 << 61 | n);
    let msg = build!(c, conv::msg(&m));
    for swap in 0..2 {
        let mut m = m.clone();
        let mut msg = msg.clone();
        if swap == 1 {
            std::mem::swap(&mut m.sender, &mut m.destination);
            m.le = !m.le;
            m.serial = [0, u32::MAX, 1][(n % 3) as usize];
            msg = build!(c, conv::msg(&m));
        }
        reply_one(&m, &msg, "Prop", "a.b", c)?;
        reply_one(&m, &msg, "", "org.freedesktop.DBus.Error.MessageType", c)?;
    }
    Ok(())
}

// ---- C19

fn missing(e: &MessageHeaderError) -> u8 {
    match e {
        MessageHeaderError::MissingPath => 1,
        MessageHeaderError::MissingInterface => 2,
        MessageHeaderError::MissingMember => 3,
        MessageHeaderError::MissingErrorName => 4,
        MessageHeaderError::MissingReplySerial => 5,
    }
}
/// Header construction and decoding with exactly the fields of `m`.
fn header_one(m: &RM, c: &mut Ctx) -> Out {
    let mut f = build!(c, conv::fields(m));
    if !m.body.is_empty() {
        f.signature = Some(conv::tys(&m.sig()));
    }
    let miss: Vec<u8> = RM::required(m.ty).iter().copied().filter(|x| !m.has(*x)).collect();
    let r = MessageHeader::new(m.le, conv::mtype(m.ty), conv::flags(m.flags), m.ver, m.serial, f.clone());
    c.n(if miss.is_empty() { "headers accepted" } else { "headers refused" }, 1);
    match &r {
        Ok(h) => {
            ensure!(miss.is_empty(), "a header of type {} is built without field(s) {:?}", m.ty, miss);
            let vs: Vec<Value> = f.clone().into();
            ensure!(h.get_serial() == m.serial && h.get_type() == conv::mtype(m.ty), "header has serial {} and type {:?}", h.get_serial(), h.get_type());
            header_accessors(h, m, f.signature.as_deref())?;
            let back = MessageHeaderFields::try_from(vs);
            ensure!(back.as_ref() == Ok(&f), "fields converted to values and back: {:?}, expected {:?}", back, f);
        }
        Err(e) => {
            ensure!(!miss.is_empty(), "a header of type {} with fields {:?} is refused: {:?}", m.ty, m.fields().iter().map(|f| f.0).collect::<Vec<_>>(), e);
            ensure!(miss.contains(&missing(e)), "a header of type {} lacks {:?}, the error names {:?}", m.ty, miss, e);
        }
    }
    let order: Vec<usize> = (0..m.fields().len()).collect();
    let w = wire::encode(m, &order, false);
    match Message::decode(Bytes::copy_from_slice(&w.bytes)) {
        Ok((d, _)) => {
            ensure!(miss.is_empty(), "a message of type {} without field(s) {:?} decodes", m.ty, miss);
            conv::same(&d, m)?;
        }
        Err(e) => {
            ensure!(!miss.is_empty(), "a message of type {} with all fields it needs does not decode: {:?}", m.ty, e);
            match &e {
                DecodeError::MessageHeaderError(h) => ensure!(miss.contains(&missing(h)), "a message of type {} lacks {:?}, the error names {:?}", m.ty, miss, e),
                _ => bail!("a message of type {} lacks {:?}, decoding fails with {:?}", m.ty, miss, e),
            }
        }
    }
    Ok(())
}
pub fn c19_enums(_: bool) -> u64 {
    4 * 512 + 9 * 40
}
pub fn c19_enum(n: u64, c: &mut Ctx) -> Out {
    c.key(1 << 61 | n);
    if n < 4 * 512 {
        return header_one(&subset((n % 4) as u8 + 1, n / 4), c);
    }
    // each field: each basic value in it, alone, and after each other field; each code
    let n = n - 4 * 512;
    let (code, k) = ((n % 9) as u8 + 1, n / 9);
    let good = |code: u8| -> RV {
        match code {
            1 => RV::O("/a".into()),
            2 => RV::S("a.b".into()),
            3 => RV::S("m".into()),
            4 => RV::S("e.f".into()),
            6 => RV::S(":1.2".into()),
            7 => RV::S("x.y".into()),
            8 => RV::G(vec![RT::B(b'y')]),
            _ => RV::U(4),
        }
    };
    let f = |code: u8, v: RV| RV::R(vec![RV::Y(code), RV::V(Box::new(v))]);
    let list = |v: RV, at: usize| -> Vec<RV> {
        let mut l: Vec<RV> = (1..=9).filter(|x| *x != code).map(|x| f(x, good(x))).collect();
        l.insert(at.min(l.len()), v);
        l
    };
    for at in [0usize, 3, 8] {
        if k < 16 {
            let v = match k {
                0..=13 => super::wirep::leaf(b"ybnqiuxtdsoghv"[k as usize], 1),
                14 => RV::A(RT::B(b's'), vec![RV::S("a.b".into())]),
                _ => RV::R(vec![good(code)]),
            };
            fields_one(&list(f(code, v.clone()), at), c)?;
            fields_one(&[f(code, v)], c)?;
        } else if k < 32 {
            // codes 0 and 10..
            let bad = [0u8, 10, 11, 15, 16, 17, 32, 64, 127, 128, 129, 130, 200, 254, 255, 12][(k - 16) as usize];
            fields_one(&list(f(bad, good(code)), at), c)?;
        } else if k == 32 {
            for d in 1..=9u8 {
                let mut l = list(f(code, good(code)), at);
                l.push(f(d, good(d)));
                fields_one(&l, c)?;
                let mut l = vec![f(code, good(code))];
                l.push(f(d, good(d)));
                fields_one(&l, c)?;
            }
        } else {
            let g = RV::V(Box::new(good(code)));
            let v = match k {
                33 => RV::Y(code),
                34 => RV::R(vec![RV::Y(code)]),
                35 => RV::R(vec![RV::Y(code), g.clone(), g]),
                36 => RV::R(vec![RV::Y(code), good(code)]),
                37 => RV::R(vec![RV::U(code as u32), g]),
                38 => RV::E(Box::new((RV::Y(code), g))),
                _ => RV::R(vec![RV::Y(code), RV::V(Box::new(g))]),
            };
            fields_one(&list(v.clone(), at), c)?;
            fields_one(&[v], c)?;
        }
    }
    Ok(())
}
/// The faults of a list of header field values, and what the list says.
#[derive(Debug)]
enum Fault {
    Struct(RV),
    Length(usize),
    Variant(RV),
    Byte(RV),
    Code(u8),
    Type(u8, RV),
    Name(u8, String),
    Multiple(u8, RV),
}
#[derive(Debug, Default, PartialEq, Clone)]
struct FieldSet(std::collections::BTreeMap<u8, RV>);
fn field_model(vs: &[RV]) -> (FieldSet, Vec<Fault>) {
    let mut set = FieldSet::default();
    let mut faults = vec![];
    for v in vs {
        let RV::R(xs) = v else {
            faults.push(Fault::Struct(v.clone()));
            continue;
        };
        if xs.len() != 2 {
            faults.push(Fault::Length(xs.len()));
            continue;
        }
        let n = faults.len();
        if !matches!(xs[0], RV::Y(_)) {
            faults.push(Fault::Byte(xs[0].clone()));
        }
        if !matches!(xs[1], RV::V(_)) {
            faults.push(Fault::Variant(xs[1].clone()));
        }
        if faults.len() > n {
            continue;
        }
        let (RV::Y(code), RV::V(x)) = (&xs[0], &xs[1]) else { unreachable!() };
        let code = *code;
        if code == 0 || code > 9 {
            faults.push(Fault::Code(code));
            continue;
        }
        if set.0.contains_key(&code) {
            faults.push(Fault::Multiple(code, (**x).clone()));
        }
        let kind = match code {
            2 => Some(Kind::Interface),
            3 => Some(Kind::Member),
            4 => Some(Kind::Error),
            6 | 7 => Some(Kind::Bus),
            _ => None,
        };
        match (code, &**x) {
            (1, RV::O(_)) | (5, RV::U(_)) | (8, RV::G(_)) | (9, RV::U(_)) => {}
            (2 | 3 | 4 | 6 | 7, RV::S(t)) => {
                if !valid_name(kind.unwrap(), t.as_bytes()) {
                    faults.push(Fault::Name(code, t.clone()));
                    continue;
                }
            }
            (_, x) => {
                faults.push(Fault::Type(code, x.clone()));
                continue;
            }
        }
        set.0.insert(code, (**x).clone());
    }
    (set, faults)
}
fn set_of(f: &MessageHeaderFields) -> FieldSet {
    let mut s = FieldSet::default();
    let mut put = |k: u8, v: Option<RV>| {
        if let Some(v) = v {
            s.0.insert(k, v);
        }
    };
    put(1, f.path.as_ref().map(|x| RV::O(x.as_ref().into())));
    put(2, f.interface.as_ref().map(|x| RV::S(x.as_ref().into())));
    put(3, f.member.as_ref().map(|x| RV::S(x.as_ref().into())));
    put(4, f.error_name.as_ref().map(|x| RV::S(x.as_ref().into())));
    put(5, f.reply_serial.map(RV::U));
    put(6, f.destination.as_ref().map(|x| RV::S(x.as_ref().into())));
    put(7, f.sender.as_ref().map(|x| RV::S(x.as_ref().into())));
    put(8, f.signature.as_ref().map(|x| RV::G(conv::rts(x))));
    put(9, f.unix_fds.map(RV::U));
    s
}
type FE = MessageHeaderFieldsError;
fn names_fault(e: &FE, f: &Fault) -> bool {
    let eq = |v: &Value, w: &RV| conv::rv(v) == *w;
    match (e, f) {
        (FE::Struct(v), Fault::Struct(w)) | (FE::Variant(v), Fault::Variant(w)) | (FE::Byte(v), Fault::Byte(w)) => eq(v, w),
        (FE::Length(n), Fault::Length(m)) => n == m,
        (FE::InvalidNumber(n), Fault::Code(m)) => n == m,
        (FE::Path(v), Fault::Type(1, w))
        | (FE::Interface(v), Fault::Type(2, w))
        | (FE::Member(v), Fault::Type(3, w))
        | (FE::ErrorName(v), Fault::Type(4, w))
        | (FE::ReplySerial(v), Fault::Type(5, w))
        | (FE::Destination(v), Fault::Type(6, w))
        | (FE::Sender(v), Fault::Type(7, w))
        | (FE::Signature(v), Fault::Type(8, w))
        | (FE::UnixFDs(v), Fault::Type(9, w)) => eq(v, w),
        (FE::InterfaceError(e), Fault::Name(2, t)) => Interface::try_from(t.as_str()).as_ref().err() == Some(e),
        (FE::MemberError(e), Fault::Name(3, t)) => Member::try_from(t.as_str()).as_ref().err() == Some(e),
        (FE::ErrorError(e), Fault::Name(4, t)) => Error::try_from(t.as_str()).as_ref().err() == Some(e),
        (FE::BusError(e), Fault::Name(6 | 7, t)) => Bus::try_from(t.as_str()).as_ref().err() == Some(e),
        (FE::MultiplePath(v), Fault::Multiple(1, w))
        | (FE::MultipleInterface(v), Fault::Multiple(2, w))
        | (FE::MultipleMember(v), Fault::Multiple(3, w))
        | (FE::MultipleErrorName(v), Fault::Multiple(4, w))
        | (FE::MultipleReplySerial(v), Fault::Multiple(5, w))
        | (FE::MultipleDestination(v), Fault::Multiple(6, w))
        | (FE::MultipleSender(v), Fault::Multiple(7, w))
        | (FE::MultipleSignature(v), Fault::Multiple(8, w))
        | (FE::MultipleUnixFDs(v), Fault::Multiple(9, w)) => eq(v, w),
        _ => false,
    }
}
fn fields_one(vs: &[RV], c: &mut Ctx) -> Out {
    let lib = build!(c, conv::vals(vs));
    let (want, faults) = field_model(vs);
    let show = || brief(&format!("{:?}", vs), 900);
    let r = MessageHeaderFields::try_from(lib);
    c.n(["field lists accepted", "field lists with one fault", "field lists with several faults"][faults.len().min(2)], 1);
    match &r {
        Ok(f) => {
            ensure!(faults.is_empty(), "a field list is accepted in spite of {:?}: {}", faults[0], show());
            let got = set_of(f);
            ensure!(got == want, "fields {:?} from {}", got, show());
            let back: Vec<Value> = f.clone().into();
            let list: Vec<RV> = want.0.iter().map(|(k, v)| RV::R(vec![RV::Y(*k), RV::V(Box::new(v.clone()))])).collect();
            ensure!(conv::rvs(&back) == list, "fields converted back give {:?}, expected {}", back, brief(&format!("{:?}", list), 600));
            let again = MessageHeaderFields::try_from(back);
            ensure!(again.as_ref() == Ok(f), "fields converted to values and back: {:?}", again);
        }
        Err(e) => {
            ensure!(!faults.is_empty(), "a valid field list is refused with {:?}: {}", e, show());
            // of several faults, any may be named
            ensure!(faults.iter().any(|f| names_fault(e, f)), "the error {:?} names none of the faults {:?} of {}", e, faults, show());
        }
    }
    Ok(())
}
/// Does the error name a fault of the list?
pub fn true_fault(e: &FE, vs: &[RV]) -> bool {
    field_model(vs).1.iter().any(|f| names_fault(e, f))
}
/// A list of header field values: (mostly) valid fields in any order with some faults.
pub fn field_values(s: &mut Src) -> (Vec<RV>, RM) {
    let mut m = gen::header(s);
    m.body = if s.chance(100) { vec![RV::Y(1)] } else { vec![] };
    let mut vs: Vec<RV> = m
        .fields()
        .into_iter()
        .map(|(k, v)| RV::R(vec![RV::Y(k), RV::V(Box::new(v))]))
        .collect();
    if s.chance(60) {
        let g = gen::signature(s);
        vs.retain(|v| !matches!(v, RV::R(x) if x[0] == RV::Y(8)));
        vs.push(RV::R(vec![RV::Y(8), RV::V(Box::new(RV::G(g)))]));
    }
    for i in (1..vs.len()).rev() {
        let j = s.below(i + 1);
        vs.swap(i, j);
    }
    let mut fu = gen::Fuel { nodes: 12, fds: vec![3], maxvd: 3 };
    let n = match s.below(4) {
        0 => 0,
        1 | 2 => 1,
        _ => 1 + s.below(3),
    };
    for _ in 0..n {
        let at = s.below(vs.len() + 1);
        let t = gen::rtype(s, 12, 3);
        let any = gen::value(s, &t, &mut fu, 1);
        let old = vs.get(at).cloned();
        let (code, inner) = match &old {
            Some(RV::R(x)) => match (x.first(), x.get(1)) {
                (Some(RV::Y(k)), Some(RV::V(v))) => (*k, (**v).clone()),
                _ => (1, any.clone()),
            },
            _ => (s.below(12) as u8, any.clone()),
        };
        let var = |v: RV| RV::V(Box::new(v));
        let new = match s.below(9) {
            0 => any,
            1 => RV::R(vec![RV::Y(code)]),
            2 => RV::R(vec![RV::Y(code), var(inner), any]),
            3 => RV::R(vec![RV::Y(code), inner]),
            4 => RV::R(vec![any, var(inner)]),
            5 => RV::R(vec![RV::Y(s.int(1) as u8), var(inner)]),
            6 => RV::R(vec![RV::Y(code), var(any)]),
            7 => {
                let k = match code {
                    2 => Kind::Interface,
                    3 => Kind::Member,
                    4 => Kind::Error,
                    1 => Kind::Path,
                    _ => Kind::Bus,
                };
                let t = String::from_utf8_lossy(&gen::name_any(s, k)).into_owned();
                RV::R(vec![RV::Y(code), var(RV::S(t))])
            }
            _ => {
                // a duplicate, the same or another value
                if let Some(o) = old {
                    let o = match (o, s.chance(100)) {
                        (RV::R(x), true) if x.len() == 2 => match (&x[0], &x[1]) {
                            (RV::Y(5 | 9), _) => RV::R(vec![x[0].clone(), var(RV::U(s.int(4) as u32))]),
                            _ => RV::R(x),
                        },
                        (o, _) => o,
                    };
                    let to = s.below(vs.len() + 1);
                    vs.insert(to, o);
                }
                continue;
            }
        };
        if at < vs.len() {
            vs[at] = new
        } else {
            vs.push(new)
        }
    }
    (vs, m)
}
pub fn c19(s: &mut Src, c: &mut Ctx) -> Out {
    let (vs, mut m) = field_values(s);
    hkey(c, &vs);
    c.sample(|| format!("{:?}", vs));
    fields_one(&vs, c)?;
    // drop some fields and build a header of the remaining ones
    for k in 1..=9u8 {
        if s.chance(40) {
            m.clear(k);
        }
    }
    if s.chance(100) {
        m.ty = s.below(4) as u8 + 1;
    }
    header_one(&m, c)
}

// ---- C20

fn header_accessors(h: &MessageHeader, m: &RM, sig: Option<&[Type]>) -> Out {
    let s = |x: Option<&str>| x.map(|x| x.to_string());
    macro_rules! f {
        ($get:ident, $has:ident, $want:expr, $got:expr) => {{
            ensure!($got == $want, "header: {} gives {:?}, expected {:?}", stringify!($get), $got, $want);
            ensure!(h.$has() == $want.is_some(), "header: {} gives {}, the field is {:?}", stringify!($has), h.$has(), $want);
        }};
    }
    f!(get_path, has_path, m.path, s(h.get_path().map(|x| x.as_ref())));
    f!(get_interface, has_interface, m.interface, s(h.get_interface().map(|x| x.as_ref())));
    f!(get_member, has_member, m.member, s(h.get_member().map(|x| x.as_ref())));
    f!(get_error_name, has_error_name, m.error_name, s(h.get_error_name().map(|x| x.as_ref())));
    f!(get_reply_serial, has_reply_serial, m.reply_serial, h.get_reply_serial());
    f!(get_destination, has_destination, m.destination, s(h.get_destination().map(|x| x.as_ref())));
    f!(get_sender, has_sender, m.sender, s(h.get_sender().map(|x| x.as_ref())));
    f!(get_unix_fds, has_unix_fds, m.unix_fds, h.get_unix_fds());
    f!(get_signature, has_signature, sig, h.get_signature());
    ensure!(h.get_serial() == m.serial, "header: serial {}, expected {}", h.get_serial(), m.serial);
    ensure!(h.get_type() == conv::mtype(m.ty), "header: type {:?}, expected {}", h.get_type(), m.ty);
    Ok(())
}
pub fn accessors(h: &Message, m: &RM) -> Out {
    let s = |x: Option<&str>| x.map(|x| x.to_string());
    macro_rules! f {
        ($get:ident, $has:ident, $want:expr, $got:expr) => {{
            ensure!($got == $want, "message: {} gives {:?}, expected {:?}", stringify!($get), $got, $want);
            ensure!(h.$has() == $want.is_some(), "message: {} gives {}, the field is {:?}", stringify!($has), h.$has(), $want);
        }};
    }
    f!(get_path, has_path, m.path, s(h.get_path().map(|x| x.as_ref())));
    f!(get_interface, has_interface, m.interface, s(h.get_interface().map(|x| x.as_ref())));
    f!(get_member, has_member, m.member, s(h.get_member().map(|x| x.as_ref())));
    f!(get_error_name, has_error_name, m.error_name, s(h.get_error_name().map(|x| x.as_ref())));
    f!(get_reply_serial, has_reply_serial, m.reply_serial, h.get_reply_serial());
    f!(get_destination, has_destination, m.destination, s(h.get_destination().map(|x| x.as_ref())));
    f!(get_sender, has_sender, m.sender, s(h.get_sender().map(|x| x.as_ref())));
    f!(get_unix_fds, has_unix_fds, m.unix_fds, h.get_unix_fds());
    ensure!(h.get_serial() == m.serial, "message: serial {}, expected {}", h.get_serial(), m.serial);
    ensure!(h.get_type() == conv::mtype(m.ty), "message: type {:?}, expected {}", h.get_type(), m.ty);
    ensure!(
        conv::rvs(h.get_body()) == m.body,
        "message: body {}, expected {}",
        brief(&format!("{:?}", h.get_body()), 500),
        brief(&format!("{:?}", m.body), 500)
    );
    let ok = m.body.iter().all(type_ok);
    match h.get_signature() {
        Ok(t) => ensure!(ok && conv::rts(&t) == m.sig(), "message: signature {:?}, the body is of {}", t, sig_text(&m.sig())),
        Err(e) => ensure!(!ok, "message: no signature: {:?}, the body is of {}", e, sig_text(&m.sig())),
    }
    ensure!(h.has_signature() == !m.body.is_empty(), "message: has_signature is {}, the body has {} values", h.has_signature(), m.body.len());
    Ok(())
}
pub fn c20(s: &mut Src, c: &mut Ctx) -> Out {
    // a pool of messages with their shadows; the second part of the shadow is the signature kept
    // in the header
    let mut pool: Vec<(Message, RM, Option<Vec<RT>>)> = vec![];
    let mut log: Vec<String> = vec![];
    let mut f = gen::fuel(s);
    f.nodes = f.nodes.min(80);
    let steps = 1 + s.size(24);
    for _ in 0..steps {
        let op = if pool.is_empty() { s.below(2) } else { s.below(16) };
        let at = if pool.is_empty() { 0 } else { s.below(pool.len()) };
        match op {
            0 => {
                let m = gen::header(s);
                log.push(format!("new header {}", m.ty));
                let sig = if s.chance(40) { Some(gen::signature(s)) } else { None };
                let h = build!(c, conv::header_with(&m, sig.as_ref().map(|x| conv::tys(x))));
                header_accessors(&h, &m, sig.as_ref().map(|x| conv::tys(x)).as_deref())?;
                pool.push((Message::new(h, vec![]), m, sig));
            }
            1 => {
                let m = gen::message(s);
                log.push(format!("new message {}", m.ty));
                pool.push((build!(c, conv::msg(&m)), m, None));
            }
            2..=6 => {
                let v = match s.below(6) {
                    0 => gen::value_any(s, &mut f),
                    1 => RV::H(f.fds[s.below(f.fds.len())]),
                    _ => {
                        let t = gen::rtype(s, 20, 2);
                        gen::value(s, &t, &mut f, 0)
                    }
                };
                log.push(format!("{}: add_value {}", at, brief(&format!("{:?}", v), 80)));
                pool[at].0.add_value(build!(c, conv::val(&v)));
                pool[at].1.body.push(v);
            }
            7 | 8 => {
                let x = s.int(4) as u32;
                log.push(format!("{}: set_serial {}", at, x));
                pool[at].0.set_serial(x);
                pool[at].1.serial = x;
            }
            9 => {
                log.push(format!("{}: clone", at));
                let x = (pool[at].0.clone(), pool[at].1.clone(), pool[at].2.clone());
                ensure!(x.0 == pool[at].0 || has_nan(&x.1), "{:?}: a clone differs from its original", log);
                pool.push(x);
            }
            10 => {
                log.push(format!("{}: encode", at));
                let r = pool[at].0.encode_with_fds();
                let want = encode_limit(&pool[at].1);
                ensure!(r.is_ok() == want.is_none(), "{:?}: encoding gives {:?}, expected {:?}", log, r.err(), want);
                let _ = pool[at].0.encode();
            }
            11 | 12 => {
                log.push(format!("{}: encode and decode", at));
                if let Ok((b, fds)) = pool[at].0.encode_with_fds() {
                    match Message::decode_with_fds(b.freeze(), &fds) {
                        Ok((d, _, _)) => {
                            let mut m = pool[at].1.clone();
                            if !fds.is_empty() {
                                m.unix_fds = Some(fds.len() as u32);
                            }
                            pool.push((d, m, None));
                        }
                        Err(e) => bail!("{:?}: encoded message does not decode: {:?}", log, e),
                    }
                }
            }
            _ => {
                let re = s.chance(200);
                log.push(format!("{}: split{}", at, if re { " and new" } else { "" }));
                let (msg, m, sig) = pool.swap_remove(at);
                let ok = m.body.iter().all(type_ok);
                match msg.split() {
                    Ok((h, b)) => {
                        ensure!(ok, "{:?}: a body without signature was split", log);
                        let sig = if m.body.is_empty() { sig } else { Some(m.sig()) };
                        header_accessors(&h, &m, sig.as_ref().map(|x| conv::tys(x)).as_deref()).map_err(|e| format!("{:?}: split: {}", log, e))?;
                        ensure!(conv::rvs(&b) == m.body, "{:?}: splitting changed the body to {:?}", log, b);
                        if re {
                            pool.push((Message::new(h, b), m, sig));
                        } else {
                            // the header with another body
                            let v = RV::S("other".into());
                            let mut m = m;
                            m.body = vec![v.clone()];
                            pool.push((Message::new(h, vec![build!(c, conv::val(&v))]), m, sig));
                        }
                    }
                    Err(e) => ensure!(!ok, "{:?}: split failed: {:?}", log, e),
                }
            }
        }
        if pool.len() > 4 {
            let k = s.below(pool.len());
            pool.swap_remove(k);
            log.push(format!("drop {}", k));
        }
        c.n("steps", 1);
        for (i, (msg, m, _)) in pool.iter().enumerate() {
            accessors(msg, m).map_err(|e| format!("after {}: message {}: {}", brief(&format!("{:?}", log), 1200), i, e))?;
        }
        c.n("messages compared with their shadow", pool.len() as u64);
    }
    hkey(c, &log);
    c.sample(|| format!("{:?}", log));
    for (i, (msg, m, _)) in pool.iter().enumerate() {
        if encode_limit(m).is_none() {
            conv::same(msg, m).map_err(|e| format!("after {}: message {}: {}", brief(&format!("{:?}", log), 1200), i, e))?;
        }
    }
    Ok(())
}
fn has_nan(m: &RM) -> bool {
    let mut nan = false;
    for x in &m.body {
        x.walk(&mut |y| {
            if let RV::D(b) = y {
                nan |= f64::from_bits(*b).is_nan()
            }
        })
    }
    nan
}

// ---- C25

pub fn c25(s: &mut Src, c: &mut Ctx) -> Out {
    let (p, i, d, mb) = (gen::name(s, Kind::Path), gen::name(s, Kind::Interface), gen::name(s, Kind::Bus), gen::name(s, Kind::Member));
    let prop = gen::text(s);
    let mut f = gen::fuel(s);
    let v = if s.chance(60) { gen::value_any(s, &mut f) } else { let t = gen::rtype(s, 100, 0); gen::value(s, &t, &mut f, 1) };
    c.sample(|| format!("{:?} {:?} {:?} {:?} {:?} {:?}", p, i, d, mb, prop, v));
    c25_one(p, i, d, mb, prop, v, c)
}
pub fn c25_one(p: String, i: String, d: String, mb: String, prop: String, v: RV, c: &mut Ctx) -> Out {
    hkey(c, &(&p, &i, &d, &mb, &prop, &v));
    let lp = build!(c, conv::path(&p));
    let li = build!(c, conv::interface(&i));
    let ld = build!(c, conv::bus(&d));
    let lm = build!(c, conv::member(&mb));
    let lv = build!(c, conv::val(&v));
    let mut m = RM::empty();
    m.le = true;
    m.ty = 1;
    m.ver = 1;
    m.serial = 0;
    m.flags = 0;
    m.path = Some(p);
    m.interface = Some(i.clone());
    m.member = Some(mb);
    m.destination = Some(d);
    let ck = |what: &str, x: Message, m: &RM| -> Out {
        accessors(&x, m).map_err(|e| format!("{}: {}", what, e))?;
        if m.body.iter().all(type_ok) {
            let (h, _) = x.clone().split().map_err(|e| format!("{}: split: {:?}", what, e))?;
            let mut hm = m.clone();
            hm.body = vec![];
            conv::same(&Message::new(h, vec![]), &hm).map_err(|e| format!("{}: header: {}", what, e))?;
            if encode_limit(m).is_none() {
                conv::same(&x, m).map_err(|e| format!("{}: {}", what, e))?;
            }
        }
        Ok(())
    };
    ck("method_call", Message::method_call(ld.clone(), lp.clone(), li.clone(), lm.clone()), &m)?;
    let mut g = m.clone();
    g.ty = 4;
    g.flags = 1;
    g.destination = None;
    ck("signal", Message::signal(lp.clone(), li.clone(), lm), &g)?;
    m.interface = Some("org.freedesktop.DBus.Properties".into());
    m.member = Some("GetAll".into());
    m.body = vec![RV::S(i)];
    ck("properties_get_all", Message::properties_get_all(ld.clone(), lp.clone(), li.clone()), &m)?;
    m.member = Some("Get".into());
    m.body.push(RV::S(prop.clone()));
    ck("property_get", Message::property_get(ld.clone(), lp.clone(), li.clone(), &prop), &m)?;
    m.member = Some("Set".into());
    m.body.push(RV::V(Box::new(v)));
    ck("property_set", Message::property_set(ld, lp, li, &prop, lv), &m)?;
    c.n("messages compared", 5);
    Ok(())
}

// ---- C26

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// Equality: `want(i, j)` says whether items i and j are equal.
fn eq_laws<T: PartialEq + Debug>(xs: &[T], want: impl Fn(usize, usize) -> bool, c: &mut Ctx) -> Out {
    for i in 0..xs.len() {
        for j in 0..xs.len() {
            let w = want(i, j);
            ensure!(
                (xs[i] == xs[j]) == w && (xs[i] != xs[j]) != w,
                "{} == {} is {}, != is {}, expected {}",
                brief(&format!("{:?}", xs[i]), 500),
                brief(&format!("{:?}", xs[j]), 500),
                xs[i] == xs[j],
                xs[i] != xs[j],
                w
            );
            c.n(if w { "equal pairs" } else { "different pairs" }, 1);
        }
    }
    Ok(())
}
fn hash_laws<T: PartialEq + Hash + Debug>(xs: &[T], c: &mut Ctx) -> Out {
    for a in xs {
        for b in xs {
            ensure!(a != b || hash(a) == hash(b), "{:?} and {:?} are equal but hash differently", a, b);
            c.n("hashes compared", 1);
        }
    }
    Ok(())
}
/// `partial`: items which are not equal to themselves may be unordered.
fn ord_laws<T: PartialOrd + Debug>(xs: &[T], partial: impl Fn(usize) -> bool, c: &mut Ctx) -> Out {
    let sh = |x: &T| brief(&format!("{:?}", x), 400);
    for i in 0..xs.len() {
        for j in 0..xs.len() {
            let (a, b) = (&xs[i], &xs[j]);
            let r = a.partial_cmp(b);
            ensure!(r.map(|o| o.reverse()) == b.partial_cmp(a), "{} and {} compare {:?} and {:?}", sh(a), sh(b), r, b.partial_cmp(a));
            ensure!(r.is_some() || partial(i) || partial(j), "{} and {} are unordered", sh(a), sh(b));
            ensure!((r == Some(Ordering::Equal)) == (a == b), "{} and {} compare {:?}, == is {}", sh(a), sh(b), r, a == b);
            ensure!(
                (a < b) == (r == Some(Ordering::Less)) && (a > b) == (r == Some(Ordering::Greater)) && (a <= b) == matches!(r, Some(Ordering::Less | Ordering::Equal)),
                "{} and {}: operators disagree with {:?}",
                sh(a),
                sh(b),
                r
            );
            for k in 0..xs.len() {
                let z = &xs[k];
                if a <= b && b <= z {
                    ensure!(a <= z, "order is not transitive: {} <= {} <= {}", sh(a), sh(b), sh(z));
                    ensure!(!(a < b || b < z) || a < z, "order is not transitive: {} {} {}", sh(a), sh(b), sh(z));
                }
            }
            c.n("pairs ordered", 1);
        }
    }
    Ok(())
}
fn total_laws<T: Ord + Debug>(xs: &[T]) -> Out {
    for a in xs {
        for b in xs {
            ensure!(Some(a.cmp(b)) == a.partial_cmp(b), "cmp and partial_cmp of {:?} and {:?} differ", a, b);
        }
    }
    Ok(())
}
fn text_order<T: Ord + Debug>(xs: &[T], ts: &[String]) -> Out {
    for i in 0..xs.len() {
        for j in 0..xs.len() {
            ensure!(
                xs[i].cmp(&xs[j]) == ts[i].as_bytes().cmp(ts[j].as_bytes()),
                "{:?} and {:?} compare {:?}, their texts {:?}",
                xs[i],
                xs[j],
                xs[i].cmp(&xs[j]),
                ts[i].cmp(&ts[j])
            );
        }
    }
    Ok(())
}
macro_rules! name_laws {
    ($t:ident, $ts:expr, $c:expr, $hash:expr) => {{
        let mut xs: Vec<$t> = vec![];
        for t in $ts.iter() {
            xs.push(match $t::try_from(t.as_str()) {
                Ok(x) => x,
                Err(_) => return Ok(()),
            });
        }
        for x in &xs {
            ensure!(x.clone() == *x, "clone of {:?} differs", x);
        }
        eq_laws(&xs, |i, j| $ts[i] == $ts[j], $c)?;
        ord_laws(&xs, |_| false, $c)?;
        total_laws(&xs)?;
        for (i, x) in xs.iter().enumerate() {
            for (j, t) in $ts.iter().enumerate() {
                ensure!((*x == *t.as_str()) == ($ts[i] == $ts[j]), "{:?} compared with the text {:?}", x, t);
            }
        }
        xs
    }};
}
fn tweak_text(s: &mut Src, k: Kind, t: &str) -> String {
    let mut b = t.as_bytes().to_vec();
    let at = s.below(b.len());
    match s.below(5) {
        0 => b[at] = s.pick(b"ab_./:09Zz-"),
        1 => b.insert(at, s.pick(b"ab_/.0Zz-")),
        2 => {
            b.remove(at);
        }
        3 => b[at] ^= 0x20,
        _ => b.push(s.pick(b"a_0Z")),
    }
    fix_name(k, &b)
}
fn tweak_value(s: &mut Src, v: &RV, f: &mut gen::Fuel) -> RV {
    let mut v = v.clone();
    let mut n = 0;
    v.walk(&mut |_| n += 1);
    let at = s.below(n);
    let mut i = 0;
    let bits = s.int(8);
    let alt = s.below(6);
    let t = gen::rtype(s, 10, 4);
    let new = gen::value(s, &t, f, 2);
    let mut put = Some(new);
    v.walk_mut(&mut |x| {
        if i == at {
            match x {
                _ if alt == 0 => {
                    if let Some(n) = put.take() {
                        *x = n
                    }
                }
                RV::D(b) => {
                    *b = if alt == 1 && f64::from_bits(*b) == 0.0 {
                        *b ^ 1 << 63
                    } else if alt == 2 {
                        f64::NAN.to_bits()
                    } else {
                        bits
                    }
                }
                RV::Y(b) => *b = bits as u8,
                RV::B(b) => *b = !*b,
                RV::N(b) => *b = bits as i16,
                RV::Q(b) => *b = bits as u16,
                RV::I(b) => *b = bits as i32,
                RV::H(b) => *b = bits as i32,
                RV::U(b) => *b = bits as u32,
                RV::X(b) => *b = bits as i64,
                RV::T(b) => *b = bits,
                RV::S(t) => t.push('x'),
                RV::O(t) => *t = fix_name(Kind::Path, format!("{}/x", t).as_bytes()),
                RV::G(g) => g.push(RT::B(b'y')),
                RV::A(t, xs) => {
                    if xs.is_empty() {
                        *t = RT::A(Box::new(t.clone()))
                    } else {
                        xs.pop();
                    }
                }
                RV::R(xs) => xs.reverse(),
                RV::E(p) => {
                    let q = (p.1.clone(), p.0.clone());
                    **p = q
                }
                RV::V(x) => {
                    let y = (**x).clone();
                    *x = Box::new(RV::V(Box::new(y)))
                }
            }
        }
        i += 1;
    });
    v
}
fn nan_in(v: &[RV]) -> bool {
    let mut m = RM::empty();
    m.body = v.to_vec();
    has_nan(&m)
}
fn tweak_msg(s: &mut Src, m: &RM, f: &mut gen::Fuel) -> RM {
    let mut m = m.clone();
    let tw = |s: &mut Src, k: Kind, x: &mut Option<String>| {
        *x = match x {
            Some(t) if s.chance(170) => Some(tweak_text(s, k, &t.clone())),
            Some(_) => None,
            None => Some(gen::name(s, k)),
        }
    };
    match s.below(14) {
        0 => m.le = !m.le,
        1 => m.ty = s.below(4) as u8 + 1,
        2 => m.flags ^= 1 << s.below(3),
        3 => m.ver ^= 1 << s.below(8),
        4 => m.serial ^= 1 << s.below(32),
        5 => tw(s, Kind::Path, &mut m.path),
        6 => tw(s, Kind::Interface, &mut m.interface),
        7 => tw(s, Kind::Member, &mut m.member),
        8 => tw(s, Kind::Error, &mut m.error_name),
        9 => m.reply_serial = m.reply_serial.map(|x| x ^ 1 << s.below(32)),
        10 => tw(s, Kind::Bus, &mut m.destination),
        11 => tw(s, Kind::Bus, &mut m.sender),
        12 => m.unix_fds = if m.unix_fds.is_some() && s.chance(100) { None } else { Some(s.int(4) as u32) },
        _ => {
            if m.body.is_empty() || s.chance(60) {
                m.body.push(RV::Y(1));
            } else {
                let i = s.below(m.body.len());
                m.body[i] = tweak_value(s, &m.body[i], f);
            }
        }
    }
    if !RM::required(m.ty).iter().all(|f| m.has(*f)) {
        m.ty = 2;
        m.reply_serial.get_or_insert(1);
    }
    m
}
/// All laws of the names of one kind.
pub fn names_laws(k: Kind, ts: &[String], c: &mut Ctx) -> Out {
    match k {
        Kind::Interface => {
            let xs = name_laws!(Interface, ts, c, true);
            hash_laws(&xs, c)?;
            text_order(&xs, ts)
        }
        Kind::Member => {
            let xs = name_laws!(Member, ts, c, true);
            hash_laws(&xs, c)?;
            text_order(&xs, ts)
        }
        Kind::Error => {
            let xs = name_laws!(Error, ts, c, true);
            hash_laws(&xs, c)?;
            text_order(&xs, ts)
        }
        Kind::Path => {
            let xs = name_laws!(ObjectPath, ts, c, true);
            hash_laws(&xs, c)?;
            text_order(&xs, ts)
        }
        Kind::Unique => {
            let xs = name_laws!(UniqueConnectionName, ts, c, false);
            text_order(&xs, ts)
        }
        Kind::WellKnown => {
            let xs = name_laws!(WellKnownBusName, ts, c, false);
            text_order(&xs, ts)
        }
        Kind::Bus => {
            let xs = name_laws!(Bus, ts, c, false);
            // names of the two kinds may come in either order
            for i in 0..xs.len() {
                for j in 0..xs.len() {
                    if ts[i].starts_with(':') == ts[j].starts_with(':') {
                        text_order(&[xs[i].clone(), xs[j].clone()], &[ts[i].clone(), ts[j].clone()])?;
                    }
                }
            }
            Ok(())
        }
    }
}
pub fn c26(s: &mut Src, c: &mut Ctx) -> Out {
    let mut f = gen::fuel(s);
    f.nodes = f.nodes.min(60);
    match s.below(6) {
        0 => {
            // names
            let k = KINDS[s.below(7)];
            let a = gen::name(s, k);
            let mut ts = vec![a.clone()];
            for _ in 0..2 + s.below(2) {
                let t = match s.below(4) {
                    0 => a.clone(),
                    1 => gen::name(s, k),
                    _ => tweak_text(s, k, &a),
                };
                ts.push(t);
            }
            ts.retain(|t| valid_name(k, t.as_bytes()));
            hkey(c, &(k as u8, &ts));
            c.sample(|| format!("{:?} {:?}", k, ts));
            c.n("name triples", 1);
            names_laws(k, &ts, c)
        }
        1 => {
            // types
            let a = if s.chance(60) { gen::rtype_any(s) } else { gen::rtype(s, 60, 0) };
            let mut ts = vec![a.clone(), a.clone()];
            for _ in 0..2 {
                let mut t = a.clone();
                match s.below(5) {
                    0 => t = gen::rtype(s, 60, 0),
                    1 => t = RT::A(Box::new(t)),
                    2 => t = RT::S(vec![t]),
                    _ => retype(&mut t, s.u8() as usize, s.pick(b"ybnqiuxtdsoghv")),
                }
                ts.push(t);
            }
            hkey(c, &ts);
            c.sample(|| format!("{:?}", ts));
            c.n("type triples", 1);
            let xs = conv::tys(&ts);
            eq_laws(&xs, |i, j| ts[i] == ts[j], c)?;
            hash_laws(&xs, c)?;
            ord_laws(&xs, |_| false, c)?;
            total_laws(&xs)?;
            ensure!(xs.clone() == xs, "clone differs");
            Ok(())
        }
        2 | 3 => {
            // values
            let a = if s.chance(60) {
                gen::value_any(s, &mut f)
            } else {
                let t = gen::rtype(s, 40, 0);
                gen::value(s, &t, &mut f, 1)
            };
            let mut vs = vec![a.clone(), a.clone()];
            for _ in 0..2 {
                let v = tweak_value(s, &a, &mut f);
                vs.push(v);
            }
            let mut xs = vec![];
            let mut ms = vec![];
            for v in &vs {
                // tweaking may have made arrays inhomogeneous
                if let Ok(x) = conv::val(v) {
                    xs.push(x);
                    ms.push(v.clone());
                }
            }
            hkey(c, &ms);
            c.sample(|| format!("{:?}", ms));
            c.n("value triples", 1);
            eq_laws(&xs, |i, j| ms[i].num_eq(&ms[j]), c)?;
            let nan: Vec<bool> = ms.iter().map(|m| nan_in(std::slice::from_ref(m))).collect();
            ord_laws(&xs, |i| nan[i], c)?;
            for (x, n) in xs.iter().zip(&nan) {
                ensure!(*n || x.clone() == *x, "clone of {:?} differs", x);
            }
            containers(&xs, &ms, &nan, c)
        }
        4 => {
            // rules
            let m = gen::message(s);
            let a = gen::rule(s, Some(&m));
            let mut rs = vec![a.clone(), a.clone(), gen::rule(s, Some(&m))];
            use crate::conv::RR;
            rs.push(match &a {
                RR::Sender(x) => RR::Sender(tweak_text(s, Kind::Bus, x)),
                RR::Interface(x) if s.chance(60) => RR::Arg0Ns(x.clone()),
                RR::Arg0Ns(x) => RR::Interface(x.clone()),
                RR::Interface(x) => RR::Interface(tweak_text(s, Kind::Interface, x)),
                RR::Member(x) => RR::Member(tweak_text(s, Kind::Member, x)),
                RR::Path(x) => RR::PathNs(x.clone()),
                RR::PathNs(x) => RR::Path(x.clone()),
                RR::Dest(x) => RR::Dest(tweak_text(s, Kind::Unique, x)),
                RR::Arg(i, x) if s.chance(100) => RR::Arg((*i + 1) % 64, x.clone()),
                RR::Arg(i, x) => RR::Arg(*i, format!("{}.", x)),
                RR::ArgPath(i, x) if s.chance(100) => RR::ArgPath((*i + 1) % 64, x.clone()),
                RR::ArgPath(i, x) => RR::ArgPath(*i, tweak_text(s, Kind::Path, x)),
                RR::Eaves(b) => RR::Eaves(!b),
                RR::Type(t) => RR::Type(t % 4 + 1),
            });
            hkey(c, &rs);
            c.sample(|| format!("{:?}", rs));
            c.n("rule triples", 1);
            let xs: Vec<MatchRule> = build!(c, conv::rules(&rs));
            eq_laws(&xs, |i, j| rs[i] == rs[j], c)
        }
        _ => {
            // headers, fields, messages
            let a = gen::message(s);
            let mut ms = vec![a.clone(), a.clone()];
            for _ in 0..2 {
                let m = tweak_msg(s, &a, &mut f);
                ms.push(m);
            }
            ms.retain(|m| conv::msg(m).is_ok());
            hkey(c, &ms);
            c.sample(|| format!("{:?}", ms));
            c.n("message triples", 1);
            let mut xs = vec![];
            let mut hs = vec![];
            let mut fs = vec![];
            let mut fm = vec![];
            let mut hm = vec![];
            for m in &ms {
                xs.push(build!(c, conv::msg(m)));
                hs.push(build!(c, conv::header(m)));
                fs.push(build!(c, conv::fields(m)));
                let mut h = m.clone();
                h.body = vec![];
                hm.push(h.clone());
                let k: Vec<(u8, RV)> = h.fields();
                fm.push(k);
            }
            eq_laws(&xs, |i, j| hm[i] == hm[j] && veq(&ms[i].body, &ms[j].body), c)?;
            let nan: Vec<bool> = ms.iter().map(has_nan).collect();
            ord_laws(&xs, |i| nan[i], c)?;
            eq_laws(&hs, |i, j| hm[i] == hm[j], c)?;
            ord_laws(&hs, |_| false, c)?;
            total_laws(&hs)?;
            eq_laws(&fs, |i, j| fm[i] == fm[j], c)?;
            ord_laws(&fs, |_| false, c)?;
            total_laws(&fs)?;
            for (x, n) in xs.iter().zip(&nan) {
                ensure!(*n || x.clone() == *x, "clone of a message differs: {:?}", x);
            }
            ensure!(hs.clone() == hs && fs.clone() == fs, "clone of a header differs");
            Ok(())
        }
    }
}
fn containers(xs: &[Value], ms: &[RV], nan: &[bool], c: &mut Ctx) -> Out {
    let (mut aa, mut am, mut an, mut ss, mut sm, mut sn) = (vec![], vec![], vec![], vec![], vec![], vec![]);
    for ((x, m), n) in xs.iter().zip(ms).zip(nan) {
        match x {
            Value::Array(a) => {
                aa.push(a.clone());
                am.push(m.clone());
                an.push(*n);
            }
            Value::Struct(a) => {
                ss.push(a.clone());
                sm.push(m.clone());
                sn.push(*n);
            }
            _ => {}
        }
    }
    eq_laws(&aa, |i, j| am[i].num_eq(&am[j]), c)?;
    ord_laws(&aa, |i| an[i], c)?;
    eq_laws(&ss, |i, j| sm[i].num_eq(&sm[j]), c)?;
    ord_laws(&ss, |i| sn[i], c)
}
