//! Monitors about totality, work, memory and memory safety: C07, C08, C22.
use super::ops::{self, Digest, Op};
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::hash_bytes;
use crate::tape::Src;
use crate::wire::{self, Raw};
use crate::{alloc, cov, driver};
use crate::{bail, ensure};
use bytes::Bytes;
use dbus_message_parser::match_rule::MatchRule;
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::convert::TryFrom;

pub const STACK: usize = 2 << 20;
/// Run on a thread with a small stack. A panic is a violation; a stack overflow kills the worker,
/// which the parent process notices.
pub fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, f)
            .map_err(|e| format!("harness: {}", e))?
            .join()
            .map_err(|_| driver::last_panic())
    })
}
fn op_key(op: &Op) -> u64 {
    hash_bytes(11, format!("{:?}", op).as_bytes())
}
/// A deeply nested value built without the model (which would recurse on its own).
fn deep_value(s: &mut Src, n: usize) -> Value {
    let mut v = if s.chance(128) { Value::Byte(1) } else { Value::String("x".into()) };
    let p = s.below(4);
    let mut depth = 0;
    for _ in 0..n {
        let k = if p == 3 { s.below(4) } else { p };
        v = match k {
            0 => Value::Struct(Struct::try_from(vec![v]).unwrap()),
            1 => Value::DictEntry(Box::new((Value::Byte(0), v))),
            2 => Value::Variant(Box::new(v)),
            _ => match v.get_type() {
                Ok(t) if depth < 60 => {
                    depth += 1;
                    Value::Array(Array::new(vec![v], t).unwrap())
                }
                _ => Value::Variant(Box::new(v)),
            },
        };
    }
    v
}
fn deep_type(s: &mut Src, n: usize) -> Type {
    let mut t = Type::Byte;
    let p = s.below(4);
    for _ in 0..n {
        t = match if p == 3 { s.below(3) } else { p } {
            0 => Type::Array(Box::new(t)),
            1 => Type::Struct(vec![t]),
            _ => Type::DictEntry(Box::new((Type::String, t))),
        };
    }
    t
}
fn deep_one(v: Value, t: Type) -> (u64, usize) {
    let mut d = Digest::new(false);
    use ops::Sink;
    let mut m = Message::method_call("a.b".try_into().unwrap(), "/".try_into().unwrap(), "a.b".try_into().unwrap(), "m".try_into().unwrap());
    m.add_value(v.clone());
    m.add_value(Value::Signature(vec![t.clone()]));
    m.add_value(Value::Variant(Box::new(v.clone())));
    d.show("message", &m);
    d.show("type", &t);
    d.disp("type", &t);
    d.text("eq", &format!("{} {:?} {:?}", v == v.clone(), v.partial_cmp(&v.clone()), t.cmp(&t.clone())));
    match v.get_type() {
        Ok(t) => d.disp("type", &t),
        Err(e) => d.disp("error", &e),
    }
    match Type::from_signature_to_string(&[t.clone()]) {
        Ok(t) => d.text("sig", &t),
        Err(e) => d.disp("error", &e),
    }
    match Array::new(vec![v.clone()], t) {
        Ok(a) => d.show("array", &a),
        Err(e) => d.disp("error", &e),
    }
    match m.encode() {
        Ok(b) => ops::decode_bytes(&b.freeze(), &[], &mut d),
        Err(e) => d.disp("error", &e),
    }
    match m.clone().split() {
        Ok((h, _)) => d.show("header", &h),
        Err(e) => d.disp("error", &e),
    }
    d.text("eq", &(m == m.clone()).to_string());
    (d.h, d.items as usize)
}

// ---- work

#[derive(Clone, Debug)]
enum Input {
    Msg(Vec<u8>, Vec<i32>),
    Rule(String),
}
fn process(i: &Input) -> bool {
    match i {
        Input::Msg(b, fds) => {
            let b = Bytes::copy_from_slice(b);
            Message::decode_with_fds(b, fds).is_ok()
        }
        Input::Rule(t) => MatchRule::decode(t).is_ok(),
    }
}
fn size(i: &Input) -> usize {
    match i {
        Input::Msg(b, _) => b.len(),
        Input::Rule(t) => t.len(),
    }
}
/// (executed edges, bytes allocated in total)
fn measure(i: &Input) -> (u64, u64, bool) {
    let (m, s) = (alloc::mark(), cov::steps());
    let ok = process(i);
    (cov::steps() - s, m.total() as u64, ok)
}
/// `a` is the input at size n, `b` the same at 4n.
fn linear(a: &Input, b: &Input, what: &str, c: &mut Ctx) -> Out {
    let (s1, m1, o1) = measure(a);
    let (s4, m4, o4) = measure(b);
    let k = size(b) as u64 / size(a).max(1) as u64 + 1;
    let k = k.max(4);
    c.n("input pairs measured", 1);
    c.n(if o4 { "large inputs accepted" } else { "large inputs rejected" }, 1);
    c.max("edges per input byte", s4 / size(b).max(1) as u64);
    if o1 != o4 {
        // not the same path: no comparison
        return Ok(());
    }
    ensure!(s4 * 2 <= s1 * k * 3 + 40_000, "{}: {} edges for {} bytes but {} for {} bytes", what, s1, size(a), s4, size(b));
    ensure!(m4 * 4 <= m1 * k * 7 + 262_144, "{}: {} bytes allocated in total for {} bytes of input but {} for {}", what, m1, size(a), m4, size(b));
    Ok(())
}
fn array_msg(e: &RT, unit: &[RV], n: usize, le: bool) -> Input {
    let mut m = RM::empty();
    m.le = le;
    m.ty = 2;
    m.reply_serial = Some(1);
    let mut fds = vec![];
    let xs: Vec<RV> = (0..n)
        .map(|i| {
            let x = unit[i % unit.len()].clone();
            if let RV::H(_) = x {
                fds.push(i as i32);
                return RV::H(i as i32);
            }
            x
        })
        .collect();
    m.body = vec![RV::A(e.clone(), xs)];
    let r = Raw::from_rm(&m, &(0..m.fields().len()).collect::<Vec<_>>());
    let nf = fds.len();
    let w = r.encode(false, &mut |f| if (f as usize) < nf { f as u32 } else { 0 });
    if fds.is_empty() {
        fds.push(0);
    }
    Input::Msg(w.bytes, fds)
}
fn one_value(v: RV) -> Input {
    let mut m = RM::empty();
    m.ty = 2;
    m.reply_serial = Some(1);
    m.body = vec![v];
    Input::Msg(wire::encode(&m, &[0, 1], false).bytes, vec![0])
}
const NSHAPE: u64 = 44;
/// The shape at `n` units.
fn shape(k: u64, n: usize) -> Input {
    let b = |c: u8| RT::B(c);
    let s = |x: &str| RV::S(x.into());
    match k {
        0..=13 => {
            let v = super::wirep::leaf(b"ybnqiuxtdsoghv"[k as usize], 7);
            array_msg(&v.ty(), &[v.clone()], n, k % 2 == 0)
        }
        14 => array_msg(&RT::S(vec![b(b'y'), b(b's')]), &[RV::R(vec![RV::Y(1), s("ab")])], n, true),
        15 => array_msg(&RT::D(Box::new((b(b's'), b(b'v')))), &[RV::E(Box::new((s("k"), RV::V(Box::new(RV::U(3))))))], n, false),
        16 => array_msg(&RT::A(Box::new(b(b'y'))), &[RV::A(b(b'y'), vec![]), RV::A(b(b'y'), vec![RV::Y(1); 9])], n, true),
        17 => {
            // empty arrays of a long element type
            let t = RT::S(vec![b(b'y'); 200]);
            array_msg(&RT::A(Box::new(t.clone())), &[RV::A(t, vec![])], n, true)
        }
        18 => {
            let t = RT::S(vec![b(b'y'); 200]);
            array_msg(&b(b'v'), &[RV::V(Box::new(RV::A(t, vec![])))], n, true)
        }
        19 => array_msg(&b(b'v'), &[RV::V(Box::new(RV::V(Box::new(RV::V(Box::new(RV::Y(1)))))))], n, false),
        20 => {
            let (mut t, mut v) = (b(b'y'), RV::Y(1));
            for _ in 0..29 {
                v = RV::A(t.clone(), vec![v]);
                t = RT::A(Box::new(t));
            }
            array_msg(&t, &[v], n, true)
        }
        21 => {
            let mut v = RV::Y(1);
            for _ in 0..30 {
                v = RV::R(vec![v]);
            }
            array_msg(&v.ty(), &[v], n, true)
        }
        22 => one_value(RV::S("x".repeat(n * 8))),
        23 => one_value(RV::S("\u{20ac}".repeat(n * 3))),
        24 => one_value(RV::O("/a".repeat(n * 4))),
        25 => one_value(RV::O(format!("/{}", "a".repeat(n * 8)))),
        26 => {
            let mut m = RM::empty();
            m.ty = 1;
            m.path = Some("/ab".repeat(n * 2));
            m.member = Some("m".into());
            Input::Msg(wire::encode(&m, &[0, 1], false).bytes, vec![])
        }
        27 => array_msg(&b(b'g'), &[RV::G(vec![b(b'y'); 255])], n, true),
        28 => one_value(RV::V(Box::new(RV::A(b(b's'), vec![s("abc"); n])))),
        29 => one_value(RV::R(vec![RV::A(b(b'y'), vec![RV::Y(0); n * 8]), RV::A(b(b't'), vec![RV::T(0); n]), s(&"z".repeat(n))])),
        30 => Input::Rule((0..n).map(|i| format!("arg{}='v{}',", i % 64, i)).collect()),
        31 => Input::Rule(format!("arg0={}", "abcd".repeat(n * 2))),
        32 => Input::Rule(format!("arg0='{}'", "a,=\\".repeat(n * 2))),
        33 => Input::Rule(format!("arg0={}", "\\'".repeat(n * 4))),
        34 => Input::Rule(format!("arg0={}", "''".repeat(n * 4))),
        35 => Input::Rule(format!("arg0={}", "'x'y\\".repeat(n * 2))),
        36 => Input::Rule(format!("path={}", "/ab".repeat(n * 3))),
        37 => Input::Rule(format!("arg3path='{}'", "/a".repeat(n * 4))),
        38 => Input::Rule("eavesdrop=true,member=Ab,type='signal',path_namespace=/a/b,".repeat(n)),
        39 => Input::Rule(format!("arg0='{}", "x".repeat(n * 8))),
        40 => Input::Rule("a".repeat(n * 8)),
        41 => Input::Rule(format!("arg0={}", "\\".repeat(n * 8))),
        42 => Input::Rule(format!("{}member=1", "interface=a.b,".repeat(n))),
        _ => Input::Rule(format!("arg1={}", "\u{e9}'\u{1F600}'".repeat(n))),
    }
}
fn spoil(i: Input, how: u64) -> Input {
    match (i, how) {
        (Input::Msg(mut b, f), 1) => {
            b.pop();
            Input::Msg(b, f)
        }
        (Input::Msg(mut b, f), 2) => {
            *b.last_mut().unwrap() ^= 0xff;
            Input::Msg(b, f)
        }
        (Input::Msg(mut b, f), 3) => {
            // some bytes more
            b.extend_from_slice(&[0x55; 100]);
            Input::Msg(b, f)
        }
        (Input::Rule(t), 1) => Input::Rule(format!("{}'", t)),
        (Input::Rule(t), 2) => Input::Rule(format!("{},x=1", t)),
        (i, _) => i,
    }
}
fn big(t: bool) -> usize {
    if t {
        400_000
    } else {
        60_000
    }
}
pub const BIG_CPU: f64 = 10.0;
/// Long inputs to everything that is not decoding.
const LONG: u64 = 40;
fn long(k: u64, n: usize) -> Op {
    use crate::conv::RR;
    let rep = |x: &str| x.repeat(n / x.len());
    let sig = |body: Vec<RV>, path: String| {
        let mut m = RM::empty();
        m.ty = 4;
        m.path = Some(path);
        m.interface = Some("a.b".into());
        m.member = Some("m".into());
        m.body = body;
        m
    };
    let s = |x: String| RV::S(x);
    match k {
        0 => Op::Name(rep("a").into_bytes()),
        1 => Op::Name(rep("a.").into_bytes()),
        2 => Op::Name(format!(":{}1", rep("1.")).into_bytes()),
        3 => Op::Name(rep("/a").into_bytes()),
        4 => Op::Name(rep("/").into_bytes()),
        5 => Op::Name(rep("-").into_bytes()),
        6 => Op::Name(vec![0xff; n]),
        7 => Op::Name(rep(".").into_bytes()),
        8 => Op::Name(rep("\u{e9}").into_bytes()),
        9 => Op::Sig(rep("y").into_bytes()),
        10 => Op::Sig(rep("a").into_bytes()),
        11 => Op::Sig(rep("(").into_bytes()),
        12 => Op::Sig(rep("{y").into_bytes()),
        13 => Op::Sig(rep("(y)").into_bytes()),
        14 => Op::Sig(rep("{yv}").into_bytes()),
        15 => Op::Sig(format!("({})", rep("as")).into_bytes()),
        16 => Op::Sig(rep(")").into_bytes()),
        17 => Op::Path(rep("/a"), format!("{}/b", rep("/a")), vec!["c".into(), rep("d"), rep("/"), rep("-")]),
        18 => Op::Path(rep("/a"), rep("/a"), vec![]),
        19 => Op::Path("/".into(), rep("/abc"), vec![]),
        20 => Op::Path(format!("/{}", rep("a")), format!("/{}/b", rep("a")), vec![]),
        21 => Op::Path(format!("/x{}", rep("/ab")), rep("/ab"), vec![]),
        22 => {
            let p = rep("/ab");
            let m = sig(vec![s(p.clone()), RV::O(p.clone())], format!("{}/c", p));
            Op::Match(vec![RR::PathNs(p.clone()), RR::Path(p.clone()), RR::ArgPath(0, p.clone()), RR::ArgPath(1, p.clone()), RR::Arg(0, p)], m)
        }
        23 => {
            let m = sig(vec![s(rep("a.")), s(rep("/a")), s(rep("/")), s(rep("\u{20ac}"))], "/".into());
            let mut r: Vec<RR> = (0..4).map(|i| RR::ArgPath(i, "/a/a".into())).collect();
            r.extend((0..4).map(|i| RR::Arg(i, rep("/a"))));
            r.push(RR::Arg0Ns("a.a".into()));
            Op::Match(r, m)
        }
        24 => {
            let r = (0..n / 10).map(|i| RR::Arg(i % 64, format!("v'{}", i % 7))).collect();
            Op::Match(r, sig(vec![s("v'0".into())], "/".into()))
        }
        25 => Op::Match(vec![RR::Eaves(true); n / 10], sig(vec![], "/".into())),
        26 => Op::Match(vec![RR::Arg(0, rep("'")), RR::Arg(1, rep("\\")), RR::Arg(2, rep("',")), RR::Arg(63, rep("x"))], sig(vec![], "/".into())),
        27 => Op::Reply(sig(vec![s(rep("x")); 3], rep("/a")), rep("y")),
        28 => Op::Enc(sig(vec![RV::Y(1); n], "/".into())),
        29 => Op::Enc(sig(vec![RV::A(RT::B(b's'), vec![s("x".into()); n / 4])], rep("/a"))),
        30 => Op::Enc(sig(vec![RV::R(vec![RV::V(Box::new(RV::U(1))); 200])], "/".into())),
        31 => Op::Enc(sig(vec![RV::R(vec![RV::Y(1); n])], "/".into())),
        32 => Op::Enc(sig(vec![RV::G(vec![RT::B(b'y'); n]), RV::G(vec![RT::S(vec![RT::B(b'y'); n])])], "/".into())),
        33 => Op::Enc(sig(vec![RV::A(RT::B(b'h'), (0..n as i32 / 40).map(RV::H).collect())], "/".into())),
        34 => Op::Types(RT::S(vec![RT::B(b'y'); n]), vec![RV::R(vec![RV::Y(0); n])]),
        35 => Op::Types(RT::B(b'y'), vec![RV::Y(0); n]),
        36 => Op::Fields((0..n / 10).map(|i| RV::R(vec![RV::Y((i % 10) as u8), RV::V(Box::new(s(rep("x").chars().take(50).collect())))])).collect()),
        37 => Op::Fields(vec![RV::R(vec![RV::Y(1), RV::V(Box::new(RV::O(rep("/a"))))])]),
        38 => Op::Fields(vec![RV::R(vec![RV::Y(2), RV::V(Box::new(s(rep("a."))))])]),
        _ => Op::Fields(vec![RV::R(vec![RV::Y(8), RV::V(Box::new(RV::G(vec![RT::B(b'y'); n])))])]),
    }
}
const DEEP: u64 = 128;
pub fn c07_enums(_: bool) -> u64 {
    NSHAPE * 4 + NSHAPE + DEEP + 4 + LONG
}
pub fn c07_enum(n: u64, c: &mut Ctx) -> Out {
    c.key(1 << 61 | n);
    if n < NSHAPE * 4 {
        let (k, how) = (n % NSHAPE, n / NSHAPE);
        let what = format!("shape {} variant {}", k, how);
        linear(&spoil(shape(k, 300), how), &spoil(shape(k, 1200), how), &what, c)?;
        linear(&spoil(shape(k, 1500), how), &spoil(shape(k, 6000), how), &what, c)?;
        return Ok(());
    }
    let n = n - NSHAPE * 4;
    if n < NSHAPE {
        // a large input, also to see work that executes no edges of the library (copying, searching)
        let k = big(c.thorough);
        let i = shape(n, match n {
            17 | 18 | 20 | 21 | 27 => k / 20,
            // texts of two megabytes: shifting them by one place for each character takes a minute
            22..=26 | 31..=37 | 39..=41 => k * 4,
            _ => k,
        });
        let t = driver::cpu();
        process(&i);
        let d = driver::cpu() - t;
        c.n("large inputs timed", 1);
        c.max("ms CPU for a large input", (d * 1000.0) as u64);
        ensure!(d < BIG_CPU, "shape {}: {:.1} s of CPU for {} bytes of input", n, d, size(&i));
        return Ok(());
    }
    let n = n - NSHAPE;
    if n < DEEP {
        // deepest nesting of each kind, and with each kind innermost
        let depth = [198, 255, 256, 257, 300, 511, 513, 600][(n / 16) as usize];
        let r = small_stack(move || {
            let dict = crate::tape::Dict::default();
            let none = crate::tape::Mirror::none();
            let mut tape = vec![(n & 1) as u8 * 255, (n / 2 % 4) as u8];
            let mut s = Src::new(&mut tape, n, &dict, &none);
            let v = deep_value(&mut s, depth);
            let mut tape = vec![(n % 4) as u8];
            let mut s = Src::new(&mut tape, n, &dict, &none);
            let t = deep_type(&mut s, depth);
            deep_one(v, t)
        })?;
        c.n("results formatted", r.1 as u64);
        c.n("values nested 198 to 600 deep", 1);
        return Ok(());
    }
    let n = n - DEEP;
    if n >= 4 {
        let k = n - 4;
        let o = long(k, if c.thorough { 2_000_000 } else { 400_000 });
        let r = small_stack(move || {
            let t = driver::cpu();
            let mut d = Digest::new(false);
            ops::run(&o, &mut d);
            (d.items, driver::cpu() - t)
        })?;
        c.n("results formatted", r.0);
        c.n("long inputs to other operations", 1);
        c.max("ms CPU for a long input", (r.1 * 1000.0) as u64);
        ensure!(r.1 < BIG_CPU * 4.0, "long input {}: {:.1} s of CPU", k, r.1);
        return Ok(());
    }
    // the deepest decodable messages: 4 variants, each with 32 arrays, structs and dict entries
    let mut v = RV::Y(1);
    for _ in 0..4 {
        for i in 0..if n == 3 { 31 } else { 32 } {
            let _ = i;
            v = match n {
                0 => RV::E(Box::new((RV::Y(0), RV::R(vec![v])))),
                _ => RV::R(vec![RV::E(Box::new((RV::Y(0), v)))]),
            };
        }
        let mut t = v.ty();
        if n < 2 {
            for _ in 0..32 {
                v = RV::A(t, vec![v]);
                t = v.ty();
            }
        }
        v = RV::V(Box::new(v));
    }
    let mut m = fixed_reply();
    m.body = vec![v];
    let b = wire::encode(&m, &(0..m.fields().len()).collect::<Vec<_>>(), false).bytes;
    let r = small_stack(move || {
        let mut d = Digest::new(true);
        ops::run(&Op::Dec(b, vec![]), &mut d);
        d.log.unwrap()
    })?;
    ensure!(r.contains("extent"), "the deepest message is not decoded: {}", r);
    c.n("deepest messages decoded on a small stack", 1);
    Ok(())
}
fn fixed_reply() -> RM {
    let mut m = RM::empty();
    m.ty = 2;
    m.reply_serial = Some(1);
    m
}
pub fn c07(s: &mut Src, c: &mut Ctx) -> Out {
    match s.below(24) {
        0 => {
            // random shapes
            let t = gen::rtype(s, 100, 0);
            let mut f = gen::Fuel { nodes: 12, fds: vec![0], maxvd: 4 };
            let n = 1 + s.below(3);
            let unit: Vec<RV> = (0..n).map(|_| gen::value(s, &t, &mut f, 0)).collect();
            let one = size(&array_msg(&t, &unit, n, true)).max(8);
            let k = (60_000 / one).clamp(30, 2000);
            let (le, how) = (s.chance(128), s.below(4) as u64);
            let (a, b) = (array_msg(&t, &unit, k, le), array_msg(&t, &unit, 4 * k, le));
            c.key(hash_bytes(5, format!("{:?}", unit).as_bytes()));
            linear(&spoil(a, how), &spoil(b, how), &format!("array of {} of {}", t.sig(), brief(&format!("{:?}", unit), 300)), c)
        }
        1 => {
            let u = super::text::rule_text(s);
            let k = (4000 / (u.len() + 1)).clamp(20, 1000);
            let (a, b) = match s.below(3) {
                0 => (format!("{},", u).repeat(k), format!("{},", u).repeat(4 * k)),
                1 => (format!("arg0={}", u.repeat(k)), format!("arg0={}", u.repeat(4 * k))),
                _ => {
                    let u = u.replace('\'', "");
                    (format!("arg0='{}'", u.repeat(k)), format!("arg0='{}'", u.repeat(4 * k)))
                }
            };
            c.key(hash_bytes(5, a.as_bytes()));
            linear(&Input::Rule(a), &Input::Rule(b), &format!("repeated rule text {:?}", brief(&u, 300)), c)
        }
        2 => {
            let n = s.size(600);
            let v = deep_value(s, n);
            let n = s.size(600);
            let t = deep_type(s, n);
            c.key(hash_bytes(6, format!("{:?} {:?}", v, t).as_bytes()));
            let r = small_stack(move || deep_one(v, t))?;
            c.n("results formatted", r.1 as u64);
            Ok(())
        }
        _ => {
            let n = 1 + s.below(4);
            let v: Vec<Op> = (0..n).map(|_| ops::gen_op(s)).collect();
            // every operation is an evaluation
            c.evals += n as u64 - 1;
            for o in &v {
                c.key(op_key(o));
                if let Op::Dec(b, f) = o {
                    let (e, _, _) = measure(&Input::Msg(b.clone(), f.clone()));
                    c.max("edges per input byte", e / b.len().max(16) as u64);
                    ensure!(e <= 20_000 * (b.len() as u64 + 16), "decoding {} bytes executes {} edges: {}", b.len(), e, brief(&hex(b), 1000));
                }
            }
            c.sample(|| format!("{:?}", v));
            let k = v.len() as u64;
            let r = small_stack(move || {
                let mut d = Digest::new(false);
                for o in &v {
                    ops::run(o, &mut d);
                }
                (d.items, d.bytes)
            })?;
            c.n("operations", k);
            c.n("results formatted", r.0);
            c.n("bytes of results", r.1);
            Ok(())
        }
    }
}

// ---- C08

pub const MEM_FACTOR: usize = 4096;
pub const MEM_CONST: usize = 64 << 10;
fn mem_one(b: &[u8], fds: &[i32], c: &mut Ctx) -> Out {
    let input = Bytes::copy_from_slice(b);
    let mut net = [0isize; 3];
    let mut peak = 0;
    let mut ok = false;
    for n in net.iter_mut() {
        let m = alloc::mark();
        {
            let r = Message::decode_with_fds(input.clone(), fds);
            peak = peak.max(m.peak());
            ok = r.is_ok();
        }
        *n = m.net();
    }
    c.n("decodes measured", 3);
    c.n(if ok { "accepted" } else { "rejected" }, 1);
    c.max("peak bytes", peak as u64);
    if b.len() > 64 {
        c.max("peak per input byte", (peak / b.len()) as u64);
    }
    let bound = MEM_FACTOR * b.len() + MEM_CONST;
    ensure!(peak <= bound, "decoding {} bytes held {} bytes of memory (bound {}): {}", b.len(), peak, bound, brief(&hex(b), 1500));
    ensure!(
        !(net[1] > 0 && net[2] > 0),
        "decoding {} bytes leaves memory allocated although the result was dropped: {:?} bytes in three repetitions: {}",
        b.len(),
        net,
        brief(&hex(b), 1500)
    );
    Ok(())
}
const CLAIMS: [u32; 12] = [
    0x03ff_ffff, 0x0400_0000, 0x0400_0001, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x00ff_ffff, 0x0100_0000, 0x0080_0000, 0x07ff_ff00, 0x0800_0000,
    0x03ff_fff8,
];
pub fn c08_enums(t: bool) -> u64 {
    NSHAPE + 12 + HIST + super::wirep::c04_enums(t)
}
/// Histories: many different inputs are decoded and dropped; nothing may pile up.
const HIST: u64 = 16;
fn history(n: u64, c: &mut Ctx) -> Out {
    let dict = std::mem::take(&mut c.dict);
    let none = crate::tape::Mirror::none();
    let per = if c.thorough { 4000 } else { 800 };
    let mut net = [0isize; 5];
    let mut bytes = 0;
    for (round, k) in net.iter_mut().enumerate() {
        let v: Vec<(Bytes, Vec<i32>)> = (0..per)
            .map(|i| {
                let mut tape = vec![];
                let mut s = Src::new(&mut tape, (n << 40) | ((round as u64) << 32) | i, &dict, &none);
                let (b, f) = if n % 2 == 0 {
                    let m = gen::message(&mut s);
                    let o = gen::order(&mut s, &m);
                    let nf = m.fds().len();
                    (wire::encode(&m, &o, false).bytes, (0..nf as i32).collect())
                } else {
                    super::wirep::hostile_bytes(&mut s)
                };
                // the first clone of a buffer allocates its counter
                let b = Bytes::from(b);
                drop(b.clone());
                (b, f)
            })
            .collect();
        for (b, _) in &v {
            bytes += b.len();
        }
        let mark = alloc::mark();
        for (b, f) in &v {
            let _ = std::hint::black_box(Message::decode_with_fds(b.clone(), f));
        }
        *k = mark.net();
    }
    c.dict = dict;
    c.n("decodes measured", 5 * per);
    c.n("histories of different inputs", 1);
    ensure!(
        net[1..].iter().any(|k| *k <= 0),
        "decoding {} different inputs ({} bytes) and dropping the results leaves {:?} bytes allocated in five rounds",
        5 * per,
        bytes,
        net
    );
    Ok(())
}
pub fn c08_enum(n: u64, c: &mut Ctx) -> Out {
    c.key(1 << 61 | n);
    if n < NSHAPE {
        for how in 0..4 {
            for k in [1, 10, 100, 2000] {
                if let Input::Msg(b, f) = spoil(shape(n, k), how) {
                    mem_one(&b, &f, c)?;
                }
            }
        }
        return Ok(());
    }
    let n = n - NSHAPE;
    if n < HIST {
        return history(n, c);
    }
    let n = n - HIST;
    if n < 12 {
        // a large array announced, a part supplied
        let b = |c: u8| RT::B(c);
        let ts = [b(b'y'), b(b't'), b(b's'), b(b'v'), RT::S(vec![b(b'y')]), RT::A(Box::new(b(b'y'))), RT::D(Box::new((b(b'y'), b(b'y'))))];
        for t in ts {
            for size in [0usize, 8, 1000, 20_000] {
                let mut m = fixed_reply();
                m.body = vec![RV::A(t.clone(), vec![])];
                let o = [0, 1];
                let mut r = Raw::from_rm(&m, &o);
                let w = r.encode(false, &mut |_| 0);
                let mut x = w.bytes.clone();
                let claim = CLAIMS[n as usize];
                x[w.body_at..w.body_at + 4].copy_from_slice(&if m.le { claim.to_le_bytes() } else { claim.to_be_bytes() });
                // the body length says the same, or little
                for bl in [claim.wrapping_add(8), size as u32 + 8] {
                    r.body_len = Some(bl);
                    let h = r.encode(false, &mut |_| 0);
                    let mut y = x.clone();
                    y[4..8].copy_from_slice(&h.bytes[4..8]);
                    y.resize(y.len() + size, 0);
                    mem_one(&y, &[], c)?;
                }
            }
        }
        return Ok(());
    }
    let mut n = n - 12;
    for i in 0.. {
        let (b, fds) = super::wirep::fixed_wire(i);
        if n >= b.len() as u64 {
            n -= b.len() as u64;
            continue;
        }
        let at = n as usize;
        for k in CLAIMS {
            for e in [k.to_le_bytes(), k.to_be_bytes()] {
                let mut x = b.clone();
                for (i, v) in e.iter().enumerate() {
                    if at + i < x.len() {
                        x[at + i] = *v;
                    }
                }
                mem_one(&x, &fds, c)?;
                c.n("announced lengths", 1);
            }
        }
        return Ok(());
    }
    Ok(())
}
pub fn c08(s: &mut Src, c: &mut Ctx) -> Out {
    let (mut b, fds) = if s.chance(30) {
        let t = gen::rtype(s, 200, 0);
        let mut f = gen::Fuel { nodes: 10, fds: vec![0], maxvd: 4 };
        let u = gen::value(s, &t, &mut f, 0);
        let n = 1 + s.size(300);
        let how = s.below(4) as u64;
        match spoil(array_msg(&t, &[u], n, s.chance(128)), how) {
            Input::Msg(b, f) => (b, f),
            _ => unreachable!(),
        }
    } else {
        super::wirep::hostile_bytes(s)
    };
    if s.chance(60) && b.len() >= 4 {
        // announce more than there is
        let at = s.below(b.len() - 3);
        let v = s.pick(&CLAIMS);
        let x = if b[0] == b'l' { v.to_le_bytes() } else { v.to_be_bytes() };
        b[at..at + 4].copy_from_slice(&x);
    }
    c.key_bytes(&b);
    c.sample(|| hex(&b));
    mem_one(&b, &fds, c)
}

// ---- C22

pub fn c22(s: &mut Src, c: &mut Ctx) -> Out {
    let n = 1 + s.below(3);
    let v: Vec<Op> = (0..n).map(|_| ops::gen_op(s)).collect();
    c.sample(|| format!("{:?}", v));
    safe_ops(&v, c)
}
/// Looks at everything but copies and formats little.
#[derive(Default)]
struct Light {
    items: u64,
    shown: u64,
    x: u8,
}
impl ops::Sink for Light {
    fn text(&mut self, _: &str, s: &str) {
        self.items += 1;
        // the interpreter checks that the bytes exist and are initialised
        let b = s.as_bytes();
        for i in [0, b.len() / 2, b.len().saturating_sub(1)] {
            self.x ^= b.get(i).copied().unwrap_or(0);
        }
    }
    fn bytes(&mut self, _: &str, b: &[u8]) {
        self.items += 1;
        b.iter().for_each(|x| self.x ^= x);
    }
    fn show<T: std::fmt::Debug>(&mut self, what: &str, t: &T) {
        // only the first one of an operation, and errors
        self.shown += 1;
        if self.shown == 2 || what.ends_with("error") {
            let s = format!("{:?}", t);
            self.text(what, &s);
        }
    }
    fn disp<T: std::fmt::Display>(&mut self, what: &str, t: &T) {
        self.shown += 1;
        if self.shown == 2 || what.ends_with("error") {
            let s = format!("{}", t);
            self.text(what, &s);
        }
    }
}
pub fn safe_ops(v: &[Op], c: &mut Ctx) -> Out {
    if c.light {
        for o in v {
            let mut l = Light::default();
            ops::run(o, &mut l);
            std::hint::black_box(l.x);
            c.n("operations", 1);
            c.n("texts checked", l.items);
        }
        return Ok(());
    }
    c.evals += v.len() as u64 - 1;
    for o in v {
        c.key(op_key(o));
        let mut net = [0isize; 3];
        let mut bad = None;
        for k in net.iter_mut() {
            let m = alloc::mark();
            let mut d = Digest::new(false);
            ops::run(o, &mut d);
            c.n("texts checked", d.items);
            c.n("bytes checked", d.bytes);
            if bad.is_none() {
                bad = d.bad;
            }
            if bad.is_some() {
                break;
            }
            *k = m.net();
            if *k == 0 {
                break;
            }
        }
        if let Some(b) = bad {
            bail!("not UTF-8: {} from {}", b, brief(&format!("{:?}", o), 800));
        }
        ensure!(!net.iter().all(|n| *n > 0), "memory is leaked: {:?} bytes in three repetitions of {}", net, brief(&format!("{:?}", o), 800));
        c.n("operations", 1);
    }
    Ok(())
}
