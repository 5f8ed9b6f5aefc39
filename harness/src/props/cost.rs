//! C28: the cost of everything but decoding grows with the size of what it is applied to.
use crate::alloc;
use crate::conv::{self, RR};
use crate::cov;
use crate::ctx::*;
use crate::driver;
use crate::gen;
use crate::model::*;
use crate::rng::hash_bytes;
use crate::tape::Src;
use crate::ensure;
use dbus_message_parser::match_rule::MatchRule;
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::convert::TryFrom;

/// What an operation cost.
#[derive(Clone, Copy, Debug)]
struct Cost {
    edges: u64,
    /// bytes allocated in total
    total: u64,
    peak: u64,
    /// memory left after the result was dropped
    net: i64,
    cpu: f64,
    /// how the operation ended; costs of different ends are not comparable
    end: u64,
}
fn cost(mut f: impl FnMut() -> u64) -> Cost {
    let t = driver::cpu();
    let (m, s) = (alloc::mark(), cov::steps());
    let end = f();
    let c = Cost { edges: cov::steps() - s, total: m.total() as u64, peak: m.peak() as u64, net: m.net() as i64, cpu: 0.0, end };
    Cost { cpu: driver::cpu() - t, ..c }
}
/// One operation at two sizes.
fn grows(what: &str, a: (usize, Cost), b: (usize, Cost), c: &mut Ctx) -> Out {
    c.n("costs compared", 1);
    if a.1.end != b.1.end {
        c.n("costs of different results", 1);
        return Ok(());
    }
    let k = (b.0 as u64 / a.0.max(1) as u64 + 1).max(4);
    c.max("edges per unit of size", b.1.edges / b.0.max(1) as u64);
    c.max("peak bytes per unit of size", b.1.peak / b.0.max(1) as u64);
    ensure!(b.1.edges * 2 <= a.1.edges * k * 3 + 40_000, "{}: {} edges at size {} but {} at size {}", what, a.1.edges, a.0, b.1.edges, b.0);
    ensure!(b.1.total * 4 <= a.1.total * k * 7 + 262_144, "{}: {} bytes allocated in total at size {} but {} at size {}", what, a.1.total, a.0, b.1.total, b.0);
    ensure!(b.1.peak * 4 <= a.1.peak * k * 7 + 262_144, "{}: {} bytes held at size {} but {} at size {}", what, a.1.peak, a.0, b.1.peak, b.0);
    Ok(())
}

// ---- families of items, by size

/// A family of messages: `n` units.
pub fn family(k: u64, n: usize) -> RM {
    let mut m = RM::empty();
    m.ty = 4;
    m.path = Some("/a".into());
    m.interface = Some("a.b".into());
    m.member = Some("m".into());
    m.sender = Some(":1.2".into());
    m.le = k % 2 == 0;
    let b = |x: u8| RT::B(x);
    let arr = |v: RV| vec![RV::A(v.ty(), vec![v; n])];
    m.body = match k {
        0..=13 => arr(super::wirep::leaf(b"ybnqiuxtdsoghv"[k as usize], 7)),
        14 => arr(RV::R(vec![RV::Y(1), RV::S("ab".into())])),
        15 => arr(RV::E(Box::new((RV::S("k".into()), RV::V(Box::new(RV::U(3))))))),
        16 => arr(RV::A(b(b'y'), vec![])),
        17 => arr(RV::A(RT::S(vec![b(b'y'); 200]), vec![])),
        18 => arr(RV::V(Box::new(RV::V(Box::new(RV::V(Box::new(RV::Y(1)))))))),
        19 => {
            let mut v = RV::Y(1);
            for _ in 0..29 {
                v = RV::A(v.ty(), vec![v]);
            }
            arr(v)
        }
        20 => {
            let mut v = RV::Y(1);
            for _ in 0..30 {
                v = RV::R(vec![v]);
            }
            arr(v)
        }
        21 => vec![RV::S("x".repeat(n * 8))],
        22 => vec![RV::S("\u{20ac}\u{1F600}".repeat(n * 3))],
        23 => vec![RV::O("/a".repeat(n * 4))],
        24 => {
            m.path = Some("/ab".repeat(n * 3));
            vec![]
        }
        25 => arr(RV::G(vec![b(b'y'); 255])),
        26 => vec![RV::V(Box::new(RV::R(vec![RV::V(Box::new(RV::R(vec![RV::A(b(b't'), vec![RV::T(1); n])])))])))],
        // many values: the signature is too long
        27 => vec![RV::Y(1); 300 + n],
        28 => vec![RV::R(vec![RV::Y(1); 300 + n])],
        29 => vec![RV::A(b(b's'), (0..n).map(|i| RV::S(format!("{}", i))).collect())],
        30 => vec![RV::A(b(b'h'), (0..n).map(|i| RV::H((i % 8) as i32)).collect())],
        31 => vec![RV::A(b(b'v'), (0..n).map(|i| RV::V(Box::new(super::wirep::leaf(b"ybnqiuxtdsogv"[i % 13], i as u64)))).collect())],
        32 => vec![RV::Y(1), RV::A(b(b'y'), vec![RV::Y(1); n]), RV::A(b(b'x'), vec![RV::X(-1); n]), RV::S("y".repeat(n))],
        33 => {
            // arrays in arrays
            let k = (n as f64).sqrt() as usize + 1;
            vec![RV::A(RT::A(Box::new(b(b'q'))), vec![RV::A(b(b'q'), vec![RV::Q(1); k]); k])]
        }
        34 => vec![RV::D(1.5f64.to_bits()); 250].into_iter().chain([RV::A(b(b'd'), vec![RV::D(0); n])]).collect(),
        _ => {
            m.path = Some("/ab".repeat(n));
            m.error_name = Some("a.b".into());
            vec![RV::O("/ab".repeat(n)), RV::S("/ab".repeat(n))]
        }
    };
    m
}
const FAM: u64 = 36;
const OPS: [&str; 17] = [
    "encode", "encode_with_fds", "clone", "compare", "debug", "split", "signature", "invalid_args", "unknown_path", "take apart", "add_value", "array", "struct",
    "types", "header", "match", "drop",
];
fn op(what: &str, m: &Message, n: usize, rules: &[MatchRule]) -> Cost {
    let body: Vec<Value> = m.get_body().to_vec();
    let copy = m.clone();
    match what {
        "encode" => cost(|| m.encode().is_ok() as u64),
        "encode_with_fds" => cost(|| m.encode_with_fds().is_ok() as u64),
        "clone" => cost(|| {
            drop(m.clone());
            0
        }),
        "compare" => cost(|| (*m == copy) as u64 + 2 * (m.partial_cmp(&copy) == Some(std::cmp::Ordering::Equal)) as u64),
        "debug" => cost(|| {
            std::hint::black_box(format!("{:?}", m));
            0
        }),
        "split" => {
            let mut x = Some(copy);
            cost(|| x.take().unwrap().split().is_ok() as u64)
        }
        "signature" => cost(|| m.get_signature().is_ok() as u64),
        "invalid_args" => {
            let t = "t".repeat(n);
            cost(|| {
                drop(m.invalid_args(t.clone()));
                0
            })
        }
        "unknown_path" => cost(|| {
            drop(m.unknown_path());
            drop(m.unknown_member());
            0
        }),
        "take apart" => {
            let mut x = Some(body);
            cost(|| {
                for v in x.take().unwrap() {
                    match v {
                        Value::Array(a) => drop(Vec::from(a)),
                        Value::Struct(a) => drop(Vec::from(a)),
                        _ => {}
                    }
                }
                0
            })
        }
        "add_value" => {
            let mut v = vec![];
            for x in &body {
                if let Value::Array(a) = x {
                    v.extend(a.as_ref().iter().cloned());
                }
            }
            let mut x = Some((m.clone(), v));
            cost(|| {
                let (mut m, v) = x.take().unwrap();
                for v in v {
                    m.add_value(v);
                }
                m.has_signature() as u64
            })
        }
        "array" => {
            let mut x: Vec<(Vec<Value>, Type)> = vec![];
            for v in &body {
                if let Value::Array(a) = v {
                    x.push((a.as_ref().to_vec(), a.get_type().clone()));
                }
            }
            cost(|| x.drain(..).map(|(v, t)| Array::new(v, t).is_ok() as u64).sum())
        }
        "struct" => {
            let mut x: Vec<Vec<Value>> = body
                .iter()
                .filter_map(|v| match v {
                    Value::Array(a) => Some(a.as_ref().to_vec()),
                    _ => None,
                })
                .collect();
            cost(|| x.drain(..).map(|v| Struct::try_from(v).is_ok() as u64).sum())
        }
        "types" => cost(|| body.iter().map(|v| v.get_type().is_ok() as u64).sum::<u64>().min(1)),
        "header" => match m.clone().split() {
            Ok((h, b)) => {
                let mut x = Some((h, b));
                cost(|| {
                    let (h, b) = x.take().unwrap();
                    Message::new(h, b).has_signature() as u64
                })
            }
            Err(_) => cost(|| 0),
        },
        "match" => {
            // all match; many of them about short values in front of the large ones
            let mut m = m.clone();
            let p = m.get_path().map_or("/a".to_string(), |p| p.to_string());
            let front = [RV::S("a.b.c".into()), RV::S("/a/b".into()), RV::O("/a/b".into()), RV::S(p)];
            let (h, b) = match m.split() {
                Ok(x) => x,
                Err(_) => return cost(|| 9),
            };
            m = Message::new(h, conv::vals(&front).unwrap().into_iter().chain(b).collect());
            let short = [RR::Arg(0, "a.b.c".into()), RR::Arg0Ns("a.b".into()), RR::ArgPath(1, "/a".into()), RR::ArgPath(2, "/".into()), RR::Interface("a.b".into()), RR::Member("m".into()), RR::Sender(":1.2".into()), RR::Eaves(true)];
            let short: Vec<MatchRule> = (0..n).filter_map(|i| conv::rule(&short[i % 8]).ok()).collect();
            let miss: Vec<MatchRule> = [RR::Arg(4, "x".into()), RR::ArgPath(4, "/x".into()), RR::Arg(63, "x".into()), RR::Dest(":1.3".into())].iter().filter_map(|r| conv::rule(r).ok()).collect();
            cost(|| {
                let all = MatchRule::matching_rules(rules, &m) as u64 + 2 * MatchRule::matching_rules(&short, &m) as u64;
                all + 4 * miss.iter().filter(|r| r.matching_rule(&m)).count() as u64
            })
        }
        _ => {
            let mut x = Some(copy);
            cost(|| {
                drop(x.take());
                0
            })
        }
    }
}
/// All operations on a message at two sizes.
fn message_costs(name: &str, a: &RM, na: usize, b: &RM, nb: usize, c: &mut Ctx) -> Out {
    let (Ok(x), Ok(y)) = (conv::msg(a), conv::msg(b)) else {
        c.n("skipped: not constructible", 1);
        return Ok(());
    };
    let rules = |n: usize, m: &RM| -> Vec<MatchRule> {
        let p = m.path.clone().unwrap_or_else(|| "/".into());
        let v = [RR::PathNs(p.clone()), RR::Path(p.clone()), RR::Type(m.ty), RR::Arg(0, p.clone()), RR::ArgPath(1, p), RR::Arg(63, "x".into()), RR::Eaves(true)];
        (0..n).filter_map(|i| conv::rule(&v[i % if m.path.as_ref().is_some_and(|p| p.len() > 100) { 7 } else { 3 }]).ok()).collect()
    };
    // few rules about long paths, or many about short ones
    let count = |n: usize, m: &RM| if m.path.as_ref().is_some_and(|p| p.len() > 100) { 7 } else { n };
    let (ra, rb) = (rules(count(na, a), a), rules(count(nb, b), b));
    op("encode", &x, na, &ra);
    for o in OPS {
        let (k, l) = (op(o, &x, na, &ra), op(o, &y, nb, &rb));
        grows(&format!("{} of {}", o, name), (na, k), (nb, l), c)?;
        if o != "take apart" && o != "add_value" && !["split", "array", "struct", "header", "drop"].contains(&o) {
            let again = op(o, &y, nb, &rb);
            ensure!(again.net <= 0 || l.net <= 0, "{} of {}: {} bytes of memory remain", o, name, l.net);
        }
    }
    // what an encoder holds is in proportion to what it returns or looks at
    if let Ok(e) = y.encode() {
        let p = op("encode", &y, nb, &[]);
        let held = memory_of(b);
        c.max("bytes held per byte encoded", p.peak / (e.len() as u64).max(1));
        ensure!(p.peak <= 16 * (e.len() + held) as u64 + 65_536, "encoding {} holds {} bytes for a result of {} bytes", name, p.peak, e.len());
        c.n("encodings measured", 1);
    }
    Ok(())
}
fn memory_of(m: &RM) -> usize {
    fn ty(t: &RT) -> usize {
        40 + match t {
            RT::B(_) => 0,
            RT::A(t) => ty(t),
            RT::S(v) => v.iter().map(ty).sum(),
            RT::D(p) => ty(&p.0) + ty(&p.1),
        }
    }
    let mut n = 300;
    for v in &m.body {
        v.walk(&mut |x| {
            n += 40
                + match x {
                    RV::S(s) | RV::O(s) => s.len(),
                    RV::G(v) => v.iter().map(ty).sum(),
                    RV::A(t, _) => ty(t),
                    _ => 0,
                }
        });
    }
    n + m.path.as_ref().map_or(0, |p| p.len())
}

// ---- other items

/// An operation without a message at size `n`.
fn single(k: u64, n: usize) -> (&'static str, usize, Cost) {
    let rep = |x: &str| x.repeat(n * 8 / x.len());
    let rules = |v: Vec<RR>| conv::rules(&v).unwrap_or_default();
    let path = |s: &str| ObjectPath::try_from(s);
    match k {
        0 => {
            let r = rules((0..n).map(|i| RR::Arg(i % 64, format!("v{}'", i))).collect());
            ("printing many rules", n, cost(|| MatchRule::encode(&r).is_empty() as u64))
        }
        1..=5 => {
            let t = rep(["x", "'", "\\", "a,", "\u{e9}'"][k as usize - 1]);
            let r = rules(vec![RR::Arg(0, t.clone())]);
            ("printing a rule with a long text", t.len(), cost(|| MatchRule::encode(&r).is_empty() as u64))
        }
        6 => {
            let r = rules(vec![RR::Path(rep("/a")), RR::PathNs(rep("/a")), RR::ArgPath(1, rep("/abc"))]);
            ("printing rules with long paths", n, cost(|| MatchRule::encode(&r).is_empty() as u64))
        }
        7 => (
            "appending to a path",
            n,
            cost(|| {
                let mut p = ObjectPath::default();
                (0..n).all(|_| p.append("ab")) as u64
            }),
        ),
        8 => {
            let e = rep("a");
            (
                "appending a long element",
                n,
                cost(|| {
                    let mut p = ObjectPath::default();
                    p.append(&e) as u64
                }),
            )
        }
        9 => {
            let (a, b) = (rep("/a") + "/b", rep("/a"));
            match (path(&a), path(&b)) {
                (Ok(a), Ok(b)) => ("asking for a prefix", n, cost(|| a.starts_with(&b) as u64 + a.strip_prefix_elements(&b).map_or(0, |i| i.count() as u64))),
                _ => ("asking for a prefix", n, cost(|| 9)),
            }
        }
        10 => {
            let a = rep("/a");
            match path(&a) {
                Ok(a) => {
                    let r = ObjectPath::default();
                    ("elements below the root", n, cost(|| a.strip_prefix_elements(&r).map_or(0, |i| (i.count() > 0) as u64)))
                }
                _ => ("elements below the root", n, cost(|| 9)),
            }
        }
        11..=17 => {
            let t = rep(["a", "a.b", "/ab", ":1.", "-", "/", "\u{e9}"][k as usize - 11]);
            (
                "parsing as names",
                n,
                cost(|| {
                    let b = t.as_bytes();
                    let _ = (Interface::try_from(b), Member::try_from(b), Error::try_from(b), Bus::try_from(b));
                    let _ = (UniqueConnectionName::try_from(b), WellKnownBusName::try_from(b));
                    ObjectPath::try_from(b).is_ok() as u64
                }),
            )
        }
        18..=24 => {
            let t = rep(["y", "a", "(", "{y", "(y)", "{yv}", "ay"][k as usize - 18]);
            ("parsing as types", n, cost(|| Type::from_string_to_signature(&t).is_ok() as u64 + Type::try_from(t.as_str()).is_ok() as u64))
        }
        25..=28 => {
            let t = [vec![RT::B(b'y'); n], vec![RT::S(vec![RT::B(b'y'); n])], vec![RT::A(Box::new(RT::S(vec![RT::D(Box::new((RT::B(b's'), RT::B(b'v')))); n])))], vec![RT::S(vec![RT::B(b'v')]); n]][k as usize - 25].clone();
            let t = conv::tys(&t);
            (
                "printing types",
                n,
                cost(|| {
                    for x in &t {
                        std::hint::black_box(x.to_string());
                    }
                    Type::from_signature_to_string(&t).is_ok() as u64
                }),
            )
        }
        29 => {
            let v: Vec<Value> = (0..n).filter_map(|i| conv::val(&RV::R(vec![RV::Y((i % 9) as u8 + 1), RV::V(Box::new(RV::S("a.b".into())))])).ok()).collect();
            let mut v = Some(v);
            ("converting header fields", n, cost(|| MessageHeaderFields::try_from(v.take().unwrap()).is_ok() as u64))
        }
        30 | 31 => {
            let v = if k == 30 { RV::O(rep("/a")) } else { RV::G(vec![RT::B(b'y'); n]) };
            let f = RV::R(vec![RV::Y(if k == 30 { 1 } else { 8 }), RV::V(Box::new(v))]);
            let mut v = conv::val(&f).ok().map(|v| vec![v]);
            ("converting a long header field", n, cost(|| v.take().map_or(9, |v| MessageHeaderFields::try_from(v).map(|f| Vec::<Value>::from(f).len() as u64).unwrap_or(0))))
        }
        32 | 33 => {
            // errors with much content
            let v: Vec<Value> = (0..n).filter_map(|i| conv::val(&if i + 1 == n { RV::U(1) } else { RV::S("x".into()) }).ok()).collect();
            let mut v = Some(v);
            if k == 32 {
                ("refusing an array", n, cost(|| Array::new(v.take().unwrap(), Type::String).map_err(|e| e.to_string()).is_ok() as u64))
            } else {
                (
                    "refusing header fields",
                    n,
                    cost(|| {
                        let s = Value::Struct(Struct::try_from(v.take().unwrap()).unwrap());
                        MessageHeaderFields::try_from(vec![s.clone(), s]).map_err(|e| format!("{} {:?}", e, e)).is_ok() as u64
                    }),
                )
            }
        }
        34 => {
            let a = rules((0..n).map(|i| RR::Arg(i % 64, format!("v{}", i))).collect());
            let b = rules((0..n).map(|i| RR::Arg(i % 64, format!("v{}", i))).collect());
            ("comparing rules", n, cost(|| (a == b) as u64 + 2 * format!("{:?}", a).is_empty() as u64))
        }
        35 => {
            let (s, i, d) = (rep("p"), "a.b", "c.d");
            let (Ok(p), Ok(i), Ok(d)) = (path("/p"), conv::interface(i), conv::bus(d)) else { return ("property calls", n, cost(|| 9)) };
            (
                "property calls",
                n,
                cost(|| {
                    let m = Message::property_get(d.clone(), p.clone(), i.clone(), &s);
                    let q = Message::property_set(d.clone(), p.clone(), i.clone(), &s, Value::String(s.clone()));
                    m.get_body().len() as u64 + q.get_body().len() as u64
                }),
            )
        }
        _ => {
            let f = (0..n as u32).map(|i| RV::U(i)).collect::<Vec<_>>();
            let Ok(v) = conv::vals(&f) else { return ("nothing", n, cost(|| 9)) };
            (
                "types one by one",
                n,
                cost(|| v.iter().map(|v| v.get_type().map(|t| t.get_alignment() as u64).unwrap_or(0)).max().unwrap_or(0)),
            )
        }
    }
}
const SINGLE: u64 = 37;
const SIZES: [(usize, usize); 2] = [(300, 1200), (1500, 6000)];
/// CPU seconds allowed for one operation on something large.
const BIG_CPU: f64 = 10.0;
pub fn c28_enums(_: bool) -> u64 {
    FAM * 2 + SINGLE * 2 + FAM + SINGLE
}
pub fn c28_enum(n: u64, c: &mut Ctx) -> Out {
    c.key(1 << 61 | n);
    if n < FAM * 2 {
        let (k, (a, b)) = (n % FAM, SIZES[(n / FAM) as usize]);
        return message_costs(&format!("message family {}", k), &family(k, a), a, &family(k, b), b, c);
    }
    let n = n - FAM * 2;
    if n < SINGLE * 2 {
        let (k, (a, b)) = (n % SINGLE, SIZES[(n / SINGLE) as usize]);
        single(k, a);
        let (w, na, x) = single(k, a);
        let (_, nb, y) = single(k, b);
        return grows(&format!("{} ({})", w, k), (na, x), (nb, y), c);
    }
    let n = n - SINGLE * 2;
    // large ones: work which executes no edges of the library
    let z = if c.thorough { 400_000 } else { 100_000 };
    if n < FAM {
        let z = if matches!(n, 17 | 19 | 20 | 25) { z / 50 } else { z };
        let m = family(n, z);
        let Ok(x) = conv::msg(&m) else { return Ok(()) };
        for o in OPS {
            let rules: Vec<MatchRule> = [RR::Type(4), RR::PathNs("/a".into()), RR::Arg(0, "x".into())].iter().filter_map(|r| conv::rule(r).ok()).collect();
            let k = op(o, &x, z, &rules);
            c.n("large items", 1);
            c.max("ms CPU for a large item", (k.cpu * 1000.0) as u64);
            ensure!(k.cpu < BIG_CPU, "{} of message family {} at size {}: {:.1} s of CPU", o, n, z, k.cpu);
        }
        return Ok(());
    }
    let (w, _, k) = single(n - FAM, z);
    c.n("large items", 1);
    c.max("ms CPU for a large item", (k.cpu * 1000.0) as u64);
    ensure!(k.cpu < BIG_CPU, "{} ({}) at size {}: {:.1} s of CPU", w, n - FAM, z, k.cpu);
    Ok(())
}
pub fn c28(s: &mut Src, c: &mut Ctx) -> Out {
    // an array of random elements in a random message
    let mut m = gen::header(s);
    let t = gen::rtype(s, 100, 0);
    let mut f = gen::Fuel { nodes: 12, fds: vec![0], maxvd: 4 };
    let n = 1 + s.below(3);
    let unit: Vec<RV> = (0..n).map(|_| gen::value(s, &t, &mut f, 0)).collect();
    let one = memory_of(&RM { body: unit.clone(), ..RM::empty() }) / n;
    let k = (30_000 / one.max(1)).clamp(30, 1000);
    let around = s.below(4);
    let mut body = |n: usize| {
        let v = RV::A(t.clone(), (0..n).map(|i| unit[i % unit.len()].clone()).collect());
        m.body = match around {
            0 => vec![v],
            1 => vec![RV::V(Box::new(v))],
            2 => vec![RV::Y(1), RV::R(vec![v, RV::Y(2)])],
            _ => vec![RV::A(RT::B(b'v'), vec![RV::V(Box::new(RV::R(vec![RV::V(Box::new(v))])))])],
        };
        m.clone()
    };
    let (a, b) = (body(k), body(4 * k));
    c.key(hash_bytes(9, format!("{:?}{}", unit, around).as_bytes()));
    c.sample(|| format!("{} and {} elements of {}: {:?}", k, 4 * k, t.sig(), unit));
    let name = format!("array of {} of {} (way {})", brief(&t.sig(), 200), brief(&format!("{:?}", unit), 300), around);
    message_costs(&name, &a, k, &b, 4 * k, c)
}
