//! C21, enumerated cases: one operation repeated many thousands of times in a process; every
//! repetition gives what the first gave, and afterwards so do many other operations.
use super::ops::{self, Digest, Op};
use crate::conv::{self, RR};
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use crate::rng::hash_bytes;
use crate::tape::{Dict, Mirror, Src};
use bytes::Bytes;
use dbus_message_parser::match_rule::{Arg, MatchRule};
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::collections::HashSet;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

fn h<T: Debug>(t: &T) -> u64 {
    hash_bytes(3, format!("{:?}", t).as_bytes())
}
fn vary(n: usize) -> RV {
    (0..n).fold(RV::Y(1), |v, _| RV::V(Box::new(v)))
}
fn call(le: bool, body: Vec<RV>) -> RM {
    RM {
        le,
        serial: 7,
        path: Some("/p/q".into()),
        interface: Some("a.b".into()),
        member: Some("m".into()),
        destination: Some("c.d".into()),
        sender: Some(":1.2".into()),
        body,
        ..RM::empty()
    }
}
fn rich(le: bool) -> RM {
    let t = |s: &str| parse_sig(s.as_bytes()).unwrap();
    let entry = RV::E(Box::new((RV::S("k".into()), RV::V(Box::new(RV::U(5))))));
    call(
        le,
        vec![
            RV::B(true),
            RV::S("text \u{e9}".into()),
            RV::O("/x".into()),
            RV::G(t("a{sv}")),
            RV::V(Box::new(RV::N(3))),
            RV::A(t("{sv}").remove(0), vec![entry]),
            RV::R(vec![RV::Y(1), RV::T(2)]),
            RV::A(t("t").remove(0), vec![]),
            RV::H(3),
            RV::H(9),
        ],
    )
}
/// Operations on fixed inputs; each returns a digest of its result.
type Step = (String, Box<dyn Fn() -> u64>);
fn steps() -> Vec<Step> {
    let mut v: Vec<Step> = vec![];
    // decoding: a valid message and one for each way in which changing a byte spoils it
    for le in [true, false] {
        let m = rich(le);
        let w = crate::wire::encode(&m, &(0..m.fields().len()).collect::<Vec<_>>(), false).bytes;
        let mut seen = HashSet::new();
        let mut inputs = vec![w.clone(), w[..w.len() - 1].to_vec(), w[..17].to_vec(), vec![]];
        for i in 0..w.len() {
            for x in [1, 0x40, 0xff] {
                let mut b = w.clone();
                b[i] ^= x;
                inputs.push(b);
            }
        }
        for (at, b) in inputs.into_iter().enumerate() {
            let r = Message::decode_with_fds(Bytes::from(b.clone()), &[3, 9]);
            let kind: String = format!("{:?}", r.map(|_| ())).chars().filter(|c| !c.is_ascii_digit()).take(40).collect();
            if seen.insert(kind.clone()) {
                let b = Bytes::from(b);
                let f = move || match Message::decode_with_fds(b.clone(), &[3, 9]) {
                    Ok((m, n, f)) => n as u64 * 1000 + f as u64 + m.get_body().len() as u64 * 1_000_000,
                    Err(e) => h(&e),
                };
                v.push((format!("decode (input {}: {})", at, kind), Box::new(f)));
            }
        }
    }
    // encoding
    let empty = RV::A(RT::B(b'y'), vec![]);
    let deep = (0..33).fold(RT::B(b'y'), |t, _| RT::A(Box::new(t)));
    let st = (0..33).fold(RV::Y(1), |v, _| RV::R(vec![v]));
    for (what, body) in [
        ("rich", rich(true).body),
        ("empty", vec![]),
        ("empty array", vec![empty]),
        ("variants", vec![vary(4)]),
        ("too deep variants", vec![vary(5)]),
        ("a long signature", vec![RV::Y(1); 255]),
        ("too long a signature", vec![RV::Y(1); 256]),
        ("too deep an array", vec![RV::A(deep.clone(), vec![])]),
        ("too deep structures", vec![st]),
        ("a faulty signature", vec![RV::G(vec![RT::S(vec![])])]),
        ("too deep a signature", vec![RV::G(vec![deep])]),
    ] {
        for le in [true, false] {
            if let Ok(m) = conv::msg(&call(le, body.clone())) {
                let f = move || match m.encode_with_fds() {
                    Ok((b, f)) => hash_bytes(f.len() as u64, &b),
                    Err(e) => h(&e),
                };
                v.push((format!("encode {} {}", what, le), Box::new(f)));
            }
        }
    }
    // match rules
    for t in [
        "type=signal", "sender=a.b", "sender=:1.2", "interface=a.b", "member=m", "path=/p", "path_namespace=/p", "destination=:1.2",
        "arg0=x", "arg63=x", "arg64=x", "arg0='a,b'", "arg0=\\'", "arg0='", "arg0path=/p/", "arg1path=/p", "arg0namespace=a.b",
        "eavesdrop=true", "eavesdrop=maybe", "type=x", "sender=.", "interface=a", "member=1", "path=p", "path_namespace=p", "destination=a.b",
        "x=y", "=", "a", "arg=x", "argx=x", "a b=c", "", "type=signal,member=m,arg3=x", "arg0path=x", "arg0namespace=1",
    ] {
        let f = move || h(&MatchRule::decode(t));
        v.push((format!("parse {:?}", t), Box::new(f)));
        let f = move || h(&MatchRule::try_from(t));
        v.push((format!("parse one {:?}", t), Box::new(f)));
        if let Ok(r) = MatchRule::decode(t) {
            let f = move || hash_bytes(1, MatchRule::encode(&r).as_bytes());
            v.push((format!("print {:?}", t), Box::new(f)));
        }
    }
    let yes = call(true, vec![RV::S("x".into()), RV::O("/p".into()), RV::S("a.b.c".into())]);
    if let Ok(m) = conv::msg(&yes) {
        for r in [
            RR::Type(1), RR::Type(4), RR::Sender(":1.2".into()), RR::Sender("c.d".into()), RR::Interface("a.b".into()), RR::Interface("a.c".into()),
            RR::Member("m".into()), RR::Member("n".into()), RR::Path("/p/q".into()), RR::Path("/p".into()), RR::PathNs("/p".into()), RR::PathNs("/q".into()),
            RR::Dest(":1.2".into()), RR::Arg(0, "x".into()), RR::Arg(0, "y".into()), RR::ArgPath(1, "/p".into()), RR::ArgPath(1, "/q".into()),
            RR::Arg0Ns("a.b".into()), RR::Eaves(true), RR::Eaves(false),
        ] {
            if let Ok(r) = conv::rule(&r) {
                let m = m.clone();
                let rs = vec![r];
                v.push((format!("match {:?}", rs), Box::new(move || MatchRule::matching_rules(&rs, &m) as u64)));
            }
        }
        for k in 0..7 {
            let m = m.clone();
            let f = move || match k {
                0 => h(&m.method_return()),
                1 => h(&m.unknown_path()),
                2 => h(&m.unknown_interface()),
                3 => h(&m.unknown_member()),
                4 => h(&m.unknown_property("p")),
                5 => h(&m.invalid_args("r".into())),
                _ => h(&m.clone().split().map(|(h, b)| Message::new(h, b) == m)),
            };
            v.push((format!("reply {}", k), Box::new(f)));
        }
    }
    // names
    macro_rules! names {
        ($($t:ident: $($s:literal)*;)*) => { $($({
            v.push((format!("{} {:?}", stringify!($t), $s), Box::new(|| h(&$t::try_from($s)))));
            v.push((format!("{} {:?} from bytes", stringify!($t), $s), Box::new(|| h(&$t::try_from($s.as_bytes())))));
        })*)* };
    }
    names! {
        Interface: "a.b_1.c" "a" "" "1.a" "a..b" "a.-";
        Member: "m1_" "" "1" "a.b";
        Error: "a.b_1.c" "a" "" "1.a" "a..b" "a.-";
        UniqueConnectionName: ":1.2-a_" "1" ":1" ":1..2" ":" "" ":1./";
        WellKnownBusName: "a.b-c_" "a" "" "1.a" "a..b" ":1.2" "a./";
        Bus: "a.b" ":1.2" "" ":" "a";
        ObjectPath: "/" "/a/B_1" "" "a" "/a/" "//" "/a-b";
    }
    for s in ["a", "_1", "", "/", "-", "a b"] {
        let f = move || {
            let mut p = ObjectPath::default();
            h(&(p.append(s), p.append("z"), &p, p.starts_with(&ObjectPath::default())))
        };
        v.push((format!("append {:?}", s), Box::new(f)));
    }
    let p = [ObjectPath::try_from("/a/b"), ObjectPath::try_from("/a"), ObjectPath::try_from("/a_")];
    if let [Ok(a), Ok(b), Ok(c)] = p {
        let f = move || h(&[a.starts_with(&b), a.starts_with(&c), b.starts_with(&a), a.starts_with(&a), a.strip_prefix_elements(&b).map_or(0, |i| i.count()) == 1]);
        v.push(("starts_with".into(), Box::new(f)));
    }
    // types, values, header fields
    for s in ["a{sv}", "(yt)", "aaai", "ss", "", "(", "()", "{s}", "{sss}", "a", "z", "((((((((((((((((((((((((((((((((("] {
        v.push((format!("signature {:?}", s), Box::new(move || h(&Type::from_string_to_signature(s)))));
        v.push((format!("type {:?}", s), Box::new(move || h(&Type::try_from(s)))));
        if let Ok(t) = Type::from_string_to_signature(s) {
            v.push((format!("print signature {:?}", s), Box::new(move || h(&(Type::from_signature_to_string(&t), t.iter().map(|t| (t.to_string(), t.get_alignment())).collect::<Vec<_>>())))));
        }
    }
    v.push(("array".into(), Box::new(|| h(&Array::new(vec![Value::Byte(1)], Type::Byte)))));
    v.push(("mixed array".into(), Box::new(|| h(&Array::new(vec![Value::Byte(1)], Type::Int16)))));
    v.push(("structure".into(), Box::new(|| h(&Struct::try_from(vec![Value::Byte(1)])))));
    v.push(("empty structure".into(), Box::new(|| h(&Struct::try_from(vec![])))));
    v.push(("argument".into(), Box::new(|| h(&(Arg::try_from((63, "x".to_string())), Arg::try_from((64, "x".to_string())))))));
    let field = |n: u8, v: RV| RV::R(vec![RV::Y(n), RV::V(Box::new(v))]);
    let s = |t: &str| RV::S(t.into());
    for (what, vs) in [
        ("good", vec![field(1, RV::O("/".into())), field(3, s("m")), field(5, RV::U(1)), field(8, RV::G(vec![RT::B(b's')]))]),
        ("twice", vec![field(3, s("m")), field(3, s("m"))]),
        ("other type", vec![field(3, RV::U(1))]),
        ("bad name", vec![field(2, s("1"))]),
        ("unknown", vec![field(10, RV::U(1))]),
        ("zero", vec![field(0, RV::U(1))]),
        ("no structure", vec![RV::Y(1)]),
        ("short", vec![RV::R(vec![RV::Y(1)])]),
        ("no variant", vec![RV::R(vec![RV::Y(3), s("m")])]),
    ] {
        if let Ok(vs) = conv::vals(&vs) {
            let f = move || match MessageHeaderFields::try_from(vs.clone()) {
                Err(e) => h(&e),
                Ok(f) => {
                    let t = [MessageType::MethodCall, MessageType::MethodReturn, MessageType::Error, MessageType::Signal];
                    h(&t.iter().map(|t| MessageHeader::new(true, *t, MessageFlags::empty(), 1, 1, f.clone()).err()).collect::<Vec<_>>())
                }
            };
            v.push((format!("fields: {}", what), Box::new(f)));
        }
    }
    let a = Type::try_from("a{sv}").ok();
    let f = move || {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        a.hash(&mut s);
        s.finish() ^ h(&a.clone())
    };
    v.push(("hash a type".into(), Box::new(f)));
    v
}
const GROUP: usize = 4;
fn count() -> usize {
    static N: OnceLock<usize> = OnceLock::new();
    *N.get_or_init(|| steps().len())
}
pub fn c21_enums(_: bool) -> u64 {
    count().div_ceil(GROUP) as u64
}
/// Many other operations, with what each gave when the process was young.
fn probes() -> &'static (Vec<Op>, Vec<u64>, Vec<u64>) {
    static P: OnceLock<(Vec<Op>, Vec<u64>, Vec<u64>)> = OnceLock::new();
    P.get_or_init(|| {
        let d = Dict::default();
        let none = Mirror::none();
        let ops: Vec<Op> = (0..60)
            .map(|i| {
                let mut tape = vec![];
                ops::gen_op(&mut Src::new(&mut tape, 77 + i, &d, &none))
            })
            .collect();
        let first = ops.iter().map(run).collect();
        let small = steps().iter().map(|s| (s.1)()).collect();
        (ops, first, small)
    })
}
fn run(o: &Op) -> u64 {
    let mut d = Digest::new(false);
    ops::run(o, &mut d);
    d.h
}
pub fn c21_enum(n: u64, c: &mut Ctx) -> Out {
    let times: u64 = if c.light { 50 } else if c.slow { 500 } else if c.thorough { 1_100_000 } else { 70_000 };
    let p = probes();
    let all = steps();
    for i in n as usize * GROUP..all.len().min((n as usize + 1) * GROUP) {
        let (what, f) = &all[i];
        c.key(hash_bytes(29, what.as_bytes()));
        for k in 0..times {
            let r = f();
            ensure!(r == p.2[i], "the same call gives something else after {} repetitions: {}", k, what);
        }
        c.n("repetitions of one call in a process", times);
        for (j, s) in all.iter().enumerate() {
            ensure!((s.1)() == p.2[j], "after {} repetitions of one call ({}) another gives something else: {}", times, what, s.0);
        }
        for (o, first) in p.0.iter().zip(&p.1) {
            ensure!(run(o) == *first, "after {} repetitions of one call ({}) another gives something else: {:?}", times, what, o);
        }
        c.n("other calls compared after many repetitions of one", (all.len() + p.0.len()) as u64);
    }
    Ok(())
}
