//! One operation on arbitrary input through the whole public API, and everything that can be done
//! with its result. Also compiled for other builds and platforms (C29).
use crate::conv::{self, RR};
use crate::model::*;
use crate::rng::hash_bytes;
use bytes::Bytes;
use dbus_message_parser::match_rule::{Arg, MatchRule};
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::convert::TryFrom;
use std::fmt::{Debug, Display, Write};

#[derive(Clone, Debug)]
pub enum Op {
    Dec(Vec<u8>, Vec<i32>),
    Enc(RM),
    Rule(String),
    Name(Vec<u8>),
    Sig(Vec<u8>),
    Path(String, String, Vec<String>),
    Match(Vec<RR>, RM),
    Reply(RM, String),
    Types(RT, Vec<RV>),
    Fields(Vec<RV>),
}
/// Receives everything the library hands out.
pub trait Sink {
    fn text(&mut self, what: &str, s: &str);
    fn bytes(&mut self, what: &str, b: &[u8]);
    fn show<T: Debug>(&mut self, what: &str, t: &T)
    where
        Self: Sized,
    {
        let s = format!("{:?}", t);
        self.text(what, &s);
    }
    /// The error of a decoding.
    fn refused(&mut self, e: &dbus_message_parser::decode::DecodeError)
    where
        Self: Sized,
    {
        self.show("decode error", e);
        self.disp("decode error", e);
    }
    /// The indices to construct arguments of match rules with.
    fn indices(&mut self, t: &str) -> Vec<usize> {
        vec![t.len(), 62, 63, 64, 65, (1u64 << 32) as usize, ((1u64 << 32) + 5) as usize, usize::MAX / 2, usize::MAX - 1, usize::MAX]
    }
    /// Whether to parse this text as match rules.
    fn rule(&mut self, _: &str) -> bool {
        true
    }
    fn disp<T: Display>(&mut self, what: &str, t: &T)
    where
        Self: Sized,
    {
        let s = format!("{}", t);
        self.text(what, &s);
    }
}
/// Sums everything up in a hash and checks that texts are UTF-8.
pub struct Digest {
    pub h: u64,
    pub items: u64,
    pub bytes: u64,
    pub bad: Option<String>,
    pub log: Option<String>,
}
impl Digest {
    pub fn new(log: bool) -> Digest {
        Digest { h: 1, items: 0, bytes: 0, bad: None, log: if log { Some(String::new()) } else { None } }
    }
}
impl Sink for Digest {
    fn text(&mut self, what: &str, s: &str) {
        let b: &[u8] = std::hint::black_box(s.as_bytes());
        if let Err(e) = std::str::from_utf8(b) {
            if self.bad.is_none() {
                self.bad = Some(format!("{}: {:?}: {}", what, e, brief(&hex(b), 400)));
            }
        }
        self.bytes(what, b);
    }
    fn bytes(&mut self, what: &str, b: &[u8]) {
        self.items += 1;
        self.bytes += b.len() as u64;
        self.h = hash_bytes(hash_bytes(self.h, what.as_bytes()), b);
        if let Some(l) = &mut self.log {
            let _ = writeln!(l, "{}: {}", what, brief(&String::from_utf8_lossy(b), 300));
        }
    }
}
fn value_texts(v: &Value, k: &mut impl Sink) {
    match v {
        Value::String(s) => k.text("string", s),
        Value::ObjectPath(p) => k.text("path", p.as_ref()),
        Value::Array(a) => a.as_ref().iter().for_each(|x| value_texts(x, k)),
        Value::Struct(a) => a.as_ref().iter().for_each(|x| value_texts(x, k)),
        Value::DictEntry(p) => {
            value_texts(&p.0, k);
            value_texts(&p.1, k)
        }
        Value::Variant(x) => value_texts(x, k),
        Value::Signature(ts) => types(ts, k),
        _ => {}
    }
}
fn types(ts: &[Type], k: &mut impl Sink) {
    match Type::from_signature_to_string(ts) {
        Ok(s) => k.text("signature", &s),
        Err(e) => {
            k.show("signature error", &e);
            k.disp("signature error", &e)
        }
    }
    for t in ts {
        k.disp("type", t);
        k.text("align", &t.get_alignment().to_string());
    }
}
pub fn message(m: &Message, k: &mut impl Sink) {
    k.show("message", m);
    for v in m.get_body() {
        value_texts(v, k);
        match v.get_type() {
            Ok(t) => types(&[t], k),
            Err(e) => k.disp("type error", &e),
        }
    }
    match m.get_signature() {
        Ok(t) => types(&t, k),
        Err(e) => k.disp("signature error", &e),
    }
    #[cfg(unix)]
    let fds = (m.has_unix_fds(), m.get_unix_fds());
    #[cfg(not(unix))]
    let fds = (false, None::<u32>);
    k.text(
        "has",
        &format!(
            "{:?}",
            [
                m.has_path(),
                m.has_interface(),
                m.has_member(),
                m.has_error_name(),
                m.has_reply_serial(),
                m.has_destination(),
                m.has_sender(),
                m.has_signature(),
                fds.0
            ]
        ),
    );
    for t in [
        m.get_path().map(|x| x.as_ref() as &str),
        m.get_interface().map(|x| x.as_ref() as &str),
        m.get_member().map(|x| x.as_ref() as &str),
        m.get_error_name().map(|x| x.as_ref() as &str),
        m.get_destination().map(|x| x.as_ref() as &str),
        m.get_sender().map(|x| x.as_ref() as &str),
    ]
    .iter()
    .flatten()
    {
        k.text("name", t);
    }
    k.text("ints", &format!("{:?} {:?} {} {}", m.get_reply_serial(), fds.1, m.get_serial(), m.get_type()));
}
pub fn encode(m: &Message, k: &mut impl Sink) {
    #[cfg(unix)]
    let r = m.encode_with_fds();
    #[cfg(not(unix))]
    let r = m.encode().map(|b| (b, Vec::<i32>::new()));
    match r {
        Ok((b, f)) => {
            k.bytes("encoded", &b);
            k.show("fds", &f);
        }
        Err(e) => {
            k.show("encode error", &e);
            k.disp("encode error", &e);
        }
    }
    match m.encode() {
        Ok(b) => k.bytes("encoded", &b),
        Err(e) => k.show("encode error", &e),
    }
}
pub fn replies(m: &Message, k: &mut impl Sink) {
    k.show("method_return", &m.method_return());
    k.show("unknown_path", &m.unknown_path());
    k.show("unknown_interface", &m.unknown_interface());
    k.show("unknown_member", &m.unknown_member());
    k.show("unknown_property", &m.unknown_property("x"));
    k.show("invalid_args", &m.invalid_args("y".into()));
}
macro_rules! name {
    ($t:ident, $b:expr, $k:expr) => {{
        let b: &[u8] = $b;
        let one = |r: Result<$t, _>, k: &mut _| match r {
            Ok(n) => {
                let n: $t = n;
                Sink::text(k, stringify!($t), n.as_ref());
                Sink::disp(k, stringify!($t), &n);
                Sink::show(k, stringify!($t), &n);
                let s: String = n.clone().into();
                Sink::text(k, stringify!($t), &s);
                Sink::text(k, "eq", if n == *s.as_str() { "=" } else { "!" });
            }
            Err(e) => {
                Sink::show(k, stringify!($t), &e);
                Sink::disp(k, stringify!($t), &e);
            }
        };
        one($t::try_from(b), $k);
        if let Ok(s) = std::str::from_utf8(b) {
            one($t::try_from(s), $k);
            one($t::try_from(s.to_string()), $k);
        }
    }};
}
/// Without descriptors the call which has none.
fn decode(b: Bytes, fds: &[i32]) -> Result<(Message, usize, usize), dbus_message_parser::decode::DecodeError> {
    #[cfg(unix)]
    if !fds.is_empty() {
        return Message::decode_with_fds(b, fds);
    }
    let _ = fds;
    Message::decode(b).map(|(m, n)| (m, n, 0))
}
/// The bytes as a part of a larger buffer, `k` bytes from its beginning.
pub fn within(b: &[u8], k: usize) -> Bytes {
    let mut v = vec![0xaa; k];
    v.extend_from_slice(b);
    v.extend_from_slice(&[0x01; 9]);
    Bytes::from(v).slice(k..k + b.len())
}
pub fn decode_bytes(b: &Bytes, fds: &[i32], k: &mut impl Sink) {
    let r = decode(b.clone(), fds);
    match r {
        Ok((m, n, f)) => {
            k.text("extent", &format!("{} {}", n, f));
            message(&m, k);
            encode(&m, k);
            replies(&m, k);
            match m.clone().split() {
                Ok((h, body)) => {
                    k.show("header", &h);
                    k.text("body", if body == m.get_body() { "=" } else { "!" });
                    k.text("cmp", &format!("{:?}", Message::new(h, body).partial_cmp(&m)));
                }
                Err(e) => k.disp("split", &e),
            }
        }
        Err(e) => {
            k.refused(&e);
        }
    }
}
pub fn match_all(rs: &[MatchRule], m: &Message, k: &mut impl Sink) {
    k.text("printed", &MatchRule::encode(rs));
    k.text("all", &MatchRule::matching_rules(rs, m).to_string());
    for r in rs {
        k.text("one", &r.matching_rule(m).to_string());
    }
}
/// Perform the operation and everything that can be done with its result.
pub fn run(op: &Op, k: &mut impl Sink) {
    match op {
        Op::Dec(b, fds) => {
            decode_bytes(&Bytes::copy_from_slice(b), fds, k);
            // elsewhere in memory
            for at in [4, 1 + b.len() % 7] {
                let r = decode(within(b, at), fds);
                k.text("elsewhere", &r.as_ref().map_or("refused".into(), |(_, n, f)| format!("{} {}", n, f)));
            }
        }
        Op::Enc(m) => match conv::msg(m) {
            Ok(m) => {
                message(&m, k);
                encode(&m, k);
                match m.split() {
                    Ok((h, b)) => {
                        k.show("header", &h);
                        k.text("count", &b.len().to_string());
                    }
                    Err(e) => k.disp("split", &e),
                }
            }
            Err(e) => k.text("not constructible", &e),
        },
        Op::Rule(t) => {
            for i in k.indices(t) {
                let a = Arg::try_from((i, t.clone()));
                k.show("arg", &a);
                if let Ok(a) = a {
                    k.disp("arg", &a);
                    k.text("key", &a.get_key());
                }
            }
            if !k.rule(t) {
                return;
            }
            match MatchRule::decode(t) {
                Ok(rs) => {
                    k.show("rules", &rs);
                    k.text("printed", &MatchRule::encode(&rs));
                    for r in &rs {
                        match r {
                            MatchRule::Arg(a) => {
                                k.text("key", &a.get_key());
                                k.text("arg", a.get_value());
                                k.show("arg", &Arg::try_from((a.get_index() + 1, a.get_value().to_string())));
                            }
                            MatchRule::ArgPath(a) => {
                                k.text("key", &a.get_key());
                                k.text("arg", a.get_value().as_ref());
                            }
                            _ => {}
                        }
                    }
                }
                Err(e) => {
                    k.show("rule error", &e);
                    k.disp("rule error", &e);
                }
            }
            match MatchRule::try_from(t.as_str()) {
                Ok(r) => k.show("rule", &r),
                Err(e) => k.disp("rule error", &e),
            }
        }
        Op::Name(b) => {
            name!(Interface, b, k);
            name!(Member, b, k);
            name!(Error, b, k);
            name!(UniqueConnectionName, b, k);
            name!(WellKnownBusName, b, k);
            name!(Bus, b, k);
            name!(ObjectPath, b, k);
        }
        Op::Sig(b) => {
            match Type::from_bytes_to_signature(b) {
                Ok(t) => {
                    k.show("types", &t);
                    types(&t, k);
                }
                Err(e) => {
                    k.show("type error", &e);
                    k.disp("type error", &e);
                }
            }
            match Type::try_from(&b[..]) {
                Ok(t) => k.show("type", &t),
                Err(e) => k.disp("type error", &e),
            }
        }
        Op::Path(a, b, es) => {
            if let (Ok(mut a), Ok(b)) = (conv::path(a), conv::path(b)) {
                for e in es {
                    k.text("append", &a.append(e).to_string());
                    k.text("path", a.as_ref());
                }
                k.text("starts_with", &format!("{} {}", a.starts_with(&b), b.starts_with(&a)));
                for (x, y) in [(&a, &b), (&b, &a)] {
                    if let Some(es) = x.strip_prefix_elements(y) {
                        for e in es {
                            k.text("element", e);
                        }
                    }
                }
            }
        }
        Op::Match(rs, m) => {
            if let (Ok(rs), Ok(m)) = (conv::rules(rs), conv::msg(m)) {
                match_all(&rs, &m, k);
            }
        }
        Op::Reply(m, t) => {
            if let Ok(m) = conv::msg(m) {
                replies(&m, k);
                let r = m.unknown_property(t);
                message(&r, k);
                encode(&r, k);
                k.show("invalid_args", &m.invalid_args(t.clone()));
            }
        }
        Op::Types(t, vs) => {
            let t = conv::ty(t);
            types(&[t.clone()], k);
            if let Ok(vs) = conv::vals(vs) {
                for v in &vs {
                    match v.get_type() {
                        Ok(t) => types(&[t], k),
                        Err(e) => k.disp("type error", &e),
                    }
                }
                match Array::new(vs.clone(), t) {
                    Ok(a) => k.show("array", &a),
                    Err(e) => {
                        k.show("array error", &e);
                        k.disp("array error", &e)
                    }
                }
                match Struct::try_from(vs) {
                    Ok(a) => k.show("struct", &a),
                    Err(e) => k.disp("struct error", &e),
                }
            }
        }
        Op::Fields(vs) => {
            if let Ok(vs) = conv::vals(vs) {
                match MessageHeaderFields::try_from(vs) {
                    Ok(f) => {
                        k.show("fields", &f);
                        k.show("values", &Vec::<Value>::from(f.clone()));
                        for t in [MessageType::MethodCall, MessageType::MethodReturn, MessageType::Error, MessageType::Signal] {
                            match MessageHeader::new(true, t, MessageFlags::empty(), 1, 1, f.clone()) {
                                Ok(h) => k.show("header", &h),
                                Err(e) => k.disp("header error", &e),
                            }
                        }
                    }
                    Err(e) => {
                        k.show("fields error", &e);
                        k.disp("fields error", &e);
                    }
                }
            }
        }
    }
}
