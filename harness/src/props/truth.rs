//! C27: a refusal names a defect which the refused input really has.
use crate::conv;
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::tape::Src;
use crate::wire;
use crate::{bail, build, ensure};
use bytes::Bytes;
use dbus_message_parser::decode::DecodeError as D;
use dbus_message_parser::encode::EncodeError;
use dbus_message_parser::match_rule::{Arg, MatchRule, MatchRuleError as M};
use dbus_message_parser::message::{Message, MessageHeaderError, MessageHeaderFields, MessageHeaderFieldsError as F, MessageType};
use dbus_message_parser::value::*;
use std::convert::TryFrom;
use std::error::Error as StdError;
use std::fmt::Display;

// ---- texts

/// The text of an error is not empty, mentions all of `parts`, and every comparison in it holds.
fn text_ok(e: &impl Display, parts: &[String], c: &mut Ctx) -> Out {
    let t = e.to_string();
    ensure!(!t.trim().is_empty(), "the text of an error is empty; it should mention {:?}", parts);
    for p in parts {
        ensure!(t.contains(p.as_str()), "the text {:?} does not mention {:?}", brief(&t, 500), brief(p, 300));
    }
    c.n("error texts read", 1);
    if t.len() > 600 {
        return Ok(());
    }
    let w: Vec<&str> = t.split_whitespace().collect();
    for x in w.windows(3) {
        let (Ok(a), Ok(b)) = (x[0].parse::<u128>(), x[2].trim_end_matches('.').parse::<u128>()) else { continue };
        let ok = match x[1] {
            "<" => a < b,
            "<=" => a <= b,
            ">" => a > b,
            ">=" => a >= b,
            "==" => a == b,
            "!=" => a != b,
            _ => continue,
        };
        ensure!(ok, "the text {:?} states a falsehood", t);
        c.n("comparisons in error texts", 1);
    }
    Ok(())
}
/// The text of the wrapped error is part of the text.
fn inner_ok(e: &impl StdError, inner: &impl Display, c: &mut Ctx) -> Out {
    text_ok(e, &[inner.to_string()], c)
}
/// What a text says about the end or the beginning of the refused bytes.
fn edges_ok(t: &str, b: &[u8]) -> Out {
    for x in [b'.', b'/', b':', b'-', b'_'] {
        let q = format!("'{}'", x as char);
        if t.contains(&format!("must not end with {}", q)) {
            ensure!(b.last() == Some(&x), "the text {:?} about {:?}", t, String::from_utf8_lossy(b));
        }
        if t.contains(&format!("must begin with a {}", q)) {
            ensure!(b.first() != Some(&x), "the text {:?} about {:?}", t, String::from_utf8_lossy(b));
        }
    }
    Ok(())
}

// ---- names

/// What a name error claims.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Claim {
    Empty,
    Exceed(usize),
    Bad(u8),
    BeginDigit,
    BeginDot,
    NoColon,
    BeginAlnum,
    ElementDigit,
    ElementDot,
    EndDot,
    EndSlash,
    OneElement,
    Colon,
    EmptyElement,
    Unknown,
}
#[allow(unreachable_patterns)]
pub fn interface(e: &InterfaceError) -> Claim {
    use InterfaceError::*;
    match e {
        Empty => Claim::Empty,
        ExceedMaximum(n) => Claim::Exceed(*n),
        InvalidChar(x) => Claim::Bad(*x),
        ElementBeginDigit => Claim::ElementDigit,
        ElementBeginDot => Claim::ElementDot,
        EndDot => Claim::EndDot,
        Elements => Claim::OneElement,
        _ => Claim::Unknown,
    }
}
#[allow(unreachable_patterns)]
pub fn error(e: &ErrorError) -> Claim {
    use ErrorError::*;
    match e {
        Empty => Claim::Empty,
        ExceedMaximum(n) => Claim::Exceed(*n),
        InvalidChar(x) => Claim::Bad(*x),
        ElementBeginDigit => Claim::ElementDigit,
        ElementBeginDot => Claim::ElementDot,
        EndDot => Claim::EndDot,
        Elements => Claim::OneElement,
        _ => Claim::Unknown,
    }
}
#[allow(unreachable_patterns)]
pub fn member(e: &MemberError) -> Claim {
    use MemberError::*;
    match e {
        Empty => Claim::Empty,
        ExceedMaximum(n) => Claim::Exceed(*n),
        InvalidChar(x) => Claim::Bad(*x),
        BeginDigit => Claim::BeginDigit,
        _ => Claim::Unknown,
    }
}
#[allow(unreachable_patterns)]
pub fn path(e: &ObjectPathError) -> Claim {
    use ObjectPathError::*;
    match e {
        Empty => Claim::Empty,
        InvalidChar(x) => Claim::Bad(*x),
        BeginAlphanumericAndUnderscoreAndHyphen => Claim::BeginAlnum,
        EndSlash => Claim::EndSlash,
        ElementEmtpy => Claim::EmptyElement,
        _ => Claim::Unknown,
    }
}
#[allow(unreachable_patterns)]
pub fn unique(e: &UniqueConnectionNameError) -> Claim {
    use UniqueConnectionNameError::*;
    match e {
        Empty => Claim::Empty,
        ExceedMaximum(n) => Claim::Exceed(*n),
        InvalidChar(x) => Claim::Bad(*x),
        BeginColon => Claim::NoColon,
        BeginDot => Claim::BeginDot,
        ElementBeginDot => Claim::ElementDot,
        EndDot => Claim::EndDot,
        Elements => Claim::OneElement,
        Colon => Claim::Colon,
        _ => Claim::Unknown,
    }
}
#[allow(unreachable_patterns)]
pub fn well_known(e: &WellKnownBusNameError) -> Claim {
    use WellKnownBusNameError::*;
    match e {
        Empty => Claim::Empty,
        ExceedMaximum(n) => Claim::Exceed(*n),
        InvalidChar(x) => Claim::Bad(*x),
        BeginDigit => Claim::BeginDigit,
        BeginDot => Claim::BeginDot,
        ElementBeginDigit => Claim::ElementDigit,
        ElementBeginDot => Claim::ElementDot,
        EndDot => Claim::EndDot,
        Elements => Claim::OneElement,
        _ => Claim::Unknown,
    }
}
fn allowed(k: Kind, x: u8) -> bool {
    x.is_ascii_alphanumeric()
        || x == b'_'
        || match k {
            Kind::Path => x == b'/',
            Kind::Member => false,
            Kind::Interface | Kind::Error => x == b'.',
            Kind::WellKnown => x == b'.' || x == b'-',
            Kind::Unique | Kind::Bus => x == b'.' || x == b'-' || x == b':',
        }
}
/// Does the refused name have the claimed defect?
pub fn claim_holds(k: Kind, q: Claim, b: &[u8]) -> bool {
    let first = |f: fn(&u8) -> bool| b.first().is_some_and(f);
    let twice = |s: u8| b.windows(2).any(|w| w == [s, s]);
    match q {
        Claim::Empty => b.is_empty() || (k == Kind::Unique && b == b":"),
        Claim::Exceed(n) => n == b.len() && n > 255 && k != Kind::Path,
        Claim::Bad(x) => b.contains(&x) && !allowed(k, x),
        Claim::BeginDigit => first(|x| x.is_ascii_digit()),
        Claim::BeginDot => first(|x| *x == b'.'),
        Claim::NoColon => b.first() != Some(&b':'),
        Claim::BeginAlnum => first(|x| x.is_ascii_alphanumeric() || *x == b'_' || *x == b'-'),
        Claim::ElementDigit => {
            // the first element of a well-known name is a matter of BeginDigit
            let skip = (k == Kind::WellKnown) as usize;
            b.split(|x| *x == b'.').skip(skip).any(|e| e.first().is_some_and(|x| x.is_ascii_digit()))
        }
        Claim::ElementDot => twice(b'.') || b.starts_with(b".") || b.starts_with(b":."),
        Claim::EndDot => b.last() == Some(&b'.'),
        Claim::EndSlash => b.len() > 1 && b.last() == Some(&b'/'),
        Claim::OneElement => !b.contains(&b'.'),
        Claim::Colon => b.len() > 1 && b[1..].contains(&b':'),
        Claim::EmptyElement => twice(b'/'),
        Claim::Unknown => true,
    }
}
fn claim_data(q: Claim) -> Vec<String> {
    match q {
        Claim::Exceed(n) => vec![n.to_string()],
        Claim::Bad(x) => vec![x.to_string()],
        _ => vec![],
    }
}
fn say_name(k: Kind, q: Claim, e: &(impl StdError + std::fmt::Debug), b: &[u8], c: &mut Ctx) -> Out {
    let show = || brief(&format!("{:?}", String::from_utf8_lossy(b)), 700);
    ensure!(claim_holds(k, q, b), "{:?} {} ({} bytes) is refused with {:?}, which is not so", k, show(), b.len(), e);
    text_ok(e, &claim_data(q), c).map_err(|t| format!("{:?} {}: {:?}: {}", k, show(), e, t))?;
    edges_ok(&e.to_string(), b)?;
    c.n(
        match q {
            Claim::Unknown => "claims: unknown to the monitor",
            Claim::Bad(_) | Claim::Exceed(_) => "claims with data verified",
            _ => "claims verified",
        },
        1,
    );
    Ok(())
}
pub fn bus_error(e: &BusError, b: &[u8], c: &mut Ctx) -> Out {
    match e {
        BusError::UniqueConnectionNameError(i) => {
            ensure!(b.first() == Some(&b':'), "bus name {:?} is refused as a unique connection name", brief(&String::from_utf8_lossy(b), 500));
            say_name(Kind::Unique, unique(i), i, b, c)?;
            inner_ok(e, i, c)
        }
        BusError::WellKnownBusNameError(i) => {
            ensure!(b.first() != Some(&b':'), "bus name {:?} is refused as a well-known name", brief(&String::from_utf8_lossy(b), 500));
            say_name(Kind::WellKnown, well_known(i), i, b, c)?;
            inner_ok(e, i, c)
        }
    }
}
pub fn names_say(b: &[u8], c: &mut Ctx) -> Out {
    if let Err(e) = Interface::try_from(b) {
        say_name(Kind::Interface, interface(&e), &e, b, c)?
    }
    if let Err(e) = Error::try_from(b) {
        say_name(Kind::Error, error(&e), &e, b, c)?
    }
    if let Err(e) = Member::try_from(b) {
        say_name(Kind::Member, member(&e), &e, b, c)?
    }
    if let Err(e) = ObjectPath::try_from(b) {
        say_name(Kind::Path, path(&e), &e, b, c)?
    }
    if let Err(e) = UniqueConnectionName::try_from(b) {
        say_name(Kind::Unique, unique(&e), &e, b, c)?
    }
    if let Err(e) = WellKnownBusName::try_from(b) {
        say_name(Kind::WellKnown, well_known(&e), &e, b, c)?
    }
    if let Err(e) = Bus::try_from(b) {
        bus_error(&e, b, c)?
    }
    if let Ok(s) = std::str::from_utf8(b) {
        if let Err(e) = Bus::try_from(s) {
            bus_error(&e, b, c)?
        }
        if let Err(e) = Bus::try_from(s.to_string()) {
            bus_error(&e, b, c)?
        }
    }
    c.key_bytes(b);
    Ok(())
}

// ---- types

enum End {
    Complete,
    Incomplete,
    Bad,
    Curly(usize),
}
struct Scan {
    end: End,
    /// deepest nesting met: array, struct, dict
    deep: [usize; 3],
    /// end of the first complete type
    first: Option<usize>,
}
/// A signature read without regard for lengths and depths.
fn scan(b: &[u8]) -> Scan {
    enum F {
        A,
        S(usize),
        D(usize),
    }
    let mut st: Vec<F> = vec![];
    let mut d = [0usize; 3];
    let mut deep = [0usize; 3];
    let mut first = None;
    let mut i = 0;
    loop {
        // a complete dict or struct?
        let Some(&x) = b.get(i) else {
            return Scan { end: if st.is_empty() { End::Complete } else { End::Incomplete }, deep, first };
        };
        let mut done = false;
        match st.last() {
            Some(F::D(2)) => {
                if x != b'}' {
                    return Scan { end: End::Curly(i), deep, first };
                }
                st.pop();
                d[2] -= 1;
                done = true;
            }
            Some(F::S(n)) if *n > 0 && x == b')' => {
                st.pop();
                d[1] -= 1;
                done = true;
            }
            _ => match x {
                b'a' => {
                    st.push(F::A);
                    d[0] += 1;
                }
                b'(' => {
                    st.push(F::S(0));
                    d[1] += 1;
                }
                b'{' => {
                    st.push(F::D(0));
                    d[2] += 1;
                }
                x if b"ybnqiuxtdsoghv".contains(&x) => done = true,
                _ => return Scan { end: End::Bad, deep, first },
            },
        }
        for k in 0..3 {
            deep[k] = deep[k].max(d[k]);
        }
        i += 1;
        while done {
            match st.last_mut() {
                Some(F::A) => {
                    st.pop();
                    d[0] -= 1;
                }
                Some(F::S(n)) | Some(F::D(n)) => {
                    *n += 1;
                    done = false;
                }
                None => {
                    first = first.or(Some(i));
                    done = false;
                }
            }
        }
    }
}
/// Is the error true of the text? `one`: exactly one type is wanted.
#[allow(unreachable_patterns)]
fn type_claim(e: &TypeError, b: &[u8], one: bool) -> bool {
    let q = scan(b);
    match e {
        TypeError::InvalidChar(x) => b.contains(x) && !b"ybnqiuxtdsoghva({".contains(x),
        TypeError::ArrayDepth(n) => *n > 32 && *n as usize <= q.deep[0],
        TypeError::StructDepth(n) => *n > 32 && *n as usize <= q.deep[1],
        TypeError::DictDepth(n) => *n > 32 && *n as usize <= q.deep[2],
        TypeError::TooShort(l, o) => *l == b.len() && *o >= *l && (matches!(q.end, End::Incomplete) || (one && b.is_empty())),
        TypeError::ClosingCurlyBracket(o, x) => b.get(*o) == Some(x) && *x != b'}' && matches!(q.end, End::Curly(p) if p == *o),
        TypeError::MultiplyTypes => one && q.first.is_some_and(|n| n < b.len()),
        TypeError::ExceedMaximum(n) => *n == b.len() && *n > 255,
        _ => true,
    }
}
#[allow(unreachable_patterns)]
fn type_data(e: &TypeError) -> Vec<String> {
    match e {
        TypeError::InvalidChar(n) => vec![n.to_string()],
        TypeError::ArrayDepth(n) | TypeError::StructDepth(n) | TypeError::DictDepth(n) => vec![n.to_string()],
        TypeError::TooShort(a, b) => vec![a.to_string(), b.to_string()],
        TypeError::ClosingCurlyBracket(a, b) => vec![a.to_string(), b.to_string()],
        TypeError::ExceedMaximum(n) => vec![n.to_string()],
        _ => vec![],
    }
}
pub fn types_say(b: &[u8], c: &mut Ctx) -> Out {
    let show = || brief(&format!("{:?}", String::from_utf8_lossy(b)), 700);
    let mut judge = |e: TypeError, one: bool| -> Out {
        ensure!(type_claim(&e, b, one), "{} ({} bytes) as {} is refused with {:?}, which is not so", show(), b.len(), if one { "a type" } else { "a signature" }, e);
        let t = e.to_string().to_lowercase();
        for (says, is) in [("too big", "too short"), ("too short", "too big")] {
            ensure!(!(t.contains(says) && format!("{:?}", e).to_lowercase().replace("too", "too ").contains(is)), "the text {:?} of {:?}", t, e);
        }
        text_ok(&e, &type_data(&e), c).map_err(|t| format!("{}: {:?}: {}", show(), e, t))?;
        c.n("type errors verified", 1);
        Ok(())
    };
    if let Err(e) = Type::from_bytes_to_signature(b) {
        judge(e, false)?
    }
    if let Err(e) = Type::try_from(b) {
        judge(e, true)?
    }
    if let Ok(s) = std::str::from_utf8(b) {
        if let Err(e) = Type::from_string_to_signature(s) {
            judge(e, false)?
        }
        if let Err(e) = Type::try_from(s) {
            judge(e, true)?
        }
    }
    c.key_bytes(b);
    Ok(())
}
/// Is the error about printing a list of types true of it?
fn print_claim(e: &TypeError, ts: &[RT]) -> bool {
    let mut d = (0, 0, 0, false);
    for t in ts {
        let x = t.depths();
        d = (d.0.max(x.0), d.1.max(x.1), d.2.max(x.2), d.3 || x.3);
    }
    match e {
        TypeError::ArrayDepth(n) => *n > 32 && *n as usize <= d.0,
        TypeError::StructDepth(n) => *n > 32 && *n as usize <= d.1,
        TypeError::DictDepth(n) => *n > 32 && *n as usize <= d.2,
        TypeError::ExceedMaximum(n) => *n > 255 && *n <= sig_text(ts).len(),
        TypeError::InvalidChar(x) => *x == b')' && d.3,
        _ => false,
    }
}
pub fn print_say(ts: &[RT], c: &mut Ctx) -> Out {
    if let Err(e) = Type::from_signature_to_string(&conv::tys(ts)) {
        ensure!(print_claim(&e, ts), "printing the types {} is refused with {:?}, which is not so", brief(&sig_text(ts), 700), e);
        text_ok(&e, &type_data(&e), c)?;
        c.n("printing errors verified", 1);
    }
    Ok(())
}

// ---- match rules

const KEY: fn(char) -> bool = |x| x.is_ascii_alphanumeric() || x == '_';
/// Is the error true of one rule with this key and unquoted value?
#[allow(unreachable_patterns)]
fn rule_claim(e: &M, key: &str, v: &str, c: &mut Ctx) -> Result<bool, String> {
    let b = v.as_bytes();
    let arg = key.strip_prefix("arg");
    let argpath = arg.and_then(|k| k.strip_suffix("path"));
    let index = argpath.or(arg);
    let number = index.filter(|d| !d.is_empty() && d.bytes().all(|x| x.is_ascii_digit())).map(|d| d.trim_start_matches('0').to_string());
    Ok(match e {
        M::SenderError(i) => key == "sender" && bus_error(i, b, c).is_ok(),
        M::TypeUnknown => key == "type" && !["method_call", "method_return", "error", "signal"].contains(&v),
        M::InterfaceError(i) => key == "interface" && claim_holds(Kind::Interface, interface(i), b),
        M::MemberError(i) => key == "member" && claim_holds(Kind::Member, member(i), b),
        M::PathError(i) => key == "path" && claim_holds(Kind::Path, path(i), b),
        M::PathErrorNamespace(i) => key == "path_namespace" && claim_holds(Kind::Path, path(i), b),
        M::DestinationError(i) => key == "destination" && claim_holds(Kind::Unique, unique(i), b),
        M::ArgIndexTooBig(n) => *n >= 64 && number.as_deref() == Some(n.to_string().as_str()),
        M::ArgPathError(i) => argpath.is_some() && number.is_some() && claim_holds(Kind::Path, path(i), b),
        M::ArgIndexError(_) => match (index, &number) {
            (Some(_), Some(n)) => n.len() > 19,
            (Some(i), None) => i != "0namespace",
            _ => false,
        },
        M::Arg0NamespaceError(i) => key == "arg0namespace" && claim_holds(Kind::Interface, interface(i), b),
        M::EavesdropUnknown => key == "eavesdrop" && v != "true" && v != "false",
        M::KeyUnknown => {
            !["type", "sender", "interface", "member", "path", "path_namespace", "destination", "eavesdrop", "arg0namespace"].contains(&key)
                && number.is_none()
        }
        _ => false,
    })
}
fn rule_text_ok(e: &M, c: &mut Ctx) -> Out {
    let p = match e {
        M::KeyInvalidChar(x) => vec![x.to_string()],
        M::SenderError(i) => vec!["sender".into(), i.to_string()],
        M::TypeUnknown => vec!["type".into()],
        M::InterfaceError(i) => vec!["interface".into(), i.to_string()],
        M::MemberError(i) => vec!["member".into(), i.to_string()],
        M::PathError(i) => vec!["path".into(), i.to_string()],
        M::PathErrorNamespace(i) => vec!["path".into(), "namespace".into(), i.to_string()],
        M::DestinationError(i) => vec!["destination".into(), i.to_string()],
        M::ArgIndexTooBig(n) => vec![n.to_string()],
        M::ArgPathError(i) => vec!["arg".into(), "path".into(), i.to_string()],
        M::ArgIndexError(i) => vec![i.to_string()],
        M::Arg0NamespaceError(i) => vec!["arg0".into(), "namespace".into(), i.to_string()],
        M::EavesdropUnknown => vec!["eavesdrop".into()],
        _ => vec![],
    };
    text_ok(e, &p, c)
}
/// The rules of a text up to the first place where it cannot be split, and that place: the rest of
/// the text from the beginning of the rule, and whether a quote is open at its end.
struct Parts {
    rules: Vec<(String, String)>,
    stop: Option<(String, bool)>,
}
fn unquote(ch: &[char], list: bool) -> (String, bool, usize) {
    let mut v: Vec<char> = vec![];
    let (mut quoted, mut back) = (false, false);
    let mut i = 0;
    while i < ch.len() {
        let x = ch[i];
        if quoted {
            if x == '\'' {
                quoted = false
            } else {
                v.push(x)
            }
            back = false;
        } else if list && x == ',' {
            break;
        } else if x == '\'' {
            if back {
                *v.last_mut().unwrap() = '\'';
            } else {
                quoted = true;
            }
            back = false;
        } else {
            v.push(x);
            back = x == '\\';
        }
        i += 1;
    }
    (v.into_iter().collect(), quoted, i)
}
fn parts(t: &str) -> Parts {
    let ch: Vec<char> = t.chars().collect();
    let mut rules = vec![];
    let mut i = 0;
    while i < ch.len() {
        let k = ch[i..].iter().take_while(|x| KEY(**x)).count();
        let stop = |q| Some((ch[i..].iter().collect::<String>(), q));
        if k == 0 || ch.get(i + k) != Some(&'=') {
            return Parts { rules, stop: stop(false) };
        }
        let key: String = ch[i..i + k].iter().collect();
        let (v, open, n) = unquote(&ch[i + k + 1..], true);
        if open {
            // what the value would be is also known
            return Parts { rules, stop: stop(true) };
        }
        rules.push((key, v));
        i += k + 1 + n + 1;
    }
    Parts { rules, stop: None }
}
pub fn rules_say(t: &str, c: &mut Ctx) -> Out {
    c.key_bytes(t.as_bytes());
    if let Err(e) = MatchRule::decode(t) {
        let p = parts(t);
        let mut ok = false;
        for (k, v) in &p.rules {
            ok = ok || rule_claim(&e, k, v, c)?;
        }
        if let Some((rest, open)) = &p.stop {
            let key: String = rest.chars().take_while(|x| *x != '=' && *x != ',').collect();
            let next = rest.chars().find(|x| !KEY(*x));
            ok = ok
                || match &e {
                    M::KeyEmpty => rest.starts_with('=') || rest.starts_with(','),
                    M::KeyInvalidChar(x) => !open && (Some(*x) == next || (key.contains(*x) && !KEY(*x))) && *x != '=',
                    M::MissingEqual => !open && !rest.split(',').next().unwrap_or("").contains('='),
                    M::ValueClosingQuote => *open,
                    M::KeyUnknown => *open && rule_claim(&e, &key, "", c)?,
                    _ => false,
                };
        }
        ensure!(ok, "rule text {:?} is refused with {:?}, which is not so", brief(t, 900), e);
        rule_text_ok(&e, c).map_err(|x| format!("{:?}: {:?}: {}", brief(t, 700), e, x))?;
        c.n(
            match e {
                M::KeyInvalidChar(_) | M::KeyEmpty | M::MissingEqual | M::ValueClosingQuote => "errors about the form of rules verified",
                _ => "errors about the content of rules verified",
            },
            1,
        );
    }
    if let Err(e) = MatchRule::try_from(t) {
        let ok = match t.split_once('=') {
            None => match &e {
                M::MissingEqual => true,
                M::KeyInvalidChar(x) => t.contains(*x) && !KEY(*x),
                M::KeyEmpty => t.is_empty(),
                _ => false,
            },
            Some((k, raw)) => {
                let ch: Vec<char> = raw.chars().collect();
                let (v, open, _) = unquote(&ch, false);
                match &e {
                    M::KeyInvalidChar(x) => k.contains(*x) && !KEY(*x),
                    M::KeyEmpty => k.is_empty(),
                    M::ValueClosingQuote => open,
                    e => rule_claim(e, k, &v, c)?,
                }
            }
        };
        ensure!(ok, "the single rule {:?} is refused with {:?}, which is not so", brief(t, 900), e);
        rule_text_ok(&e, c)?;
        c.n("errors about single rules verified", 1);
    }
    Ok(())
}
fn indices(n: usize, c: &mut Ctx) -> Out {
    match Arg::try_from((n, String::new())) {
        Ok(_) => {}
        Err(M::ArgIndexTooBig(k)) => {
            ensure!(k == n && n > 63, "index {} is refused as {}", n, k);
            text_ok(&M::ArgIndexTooBig(k), &[n.to_string()], c)?;
        }
        Err(e) => bail!("index {} is refused with {:?}", n, e),
    }
    Ok(())
}
fn message_types(n: u8, c: &mut Ctx) -> Out {
    match MessageType::try_from(n) {
        Ok(t) => {
            ensure!((1..=4).contains(&n) && t as u8 == n, "message type {} is {:?}", n, t);
            ensure!(MessageType::try_from(t.to_string().as_str()) == Ok(t), "{:?} printed and parsed", t);
        }
        Err(e) => ensure!(!(1..=4).contains(&n) && e == n, "message type {} is refused as {}", n, e),
    }
    c.n("message types", 1);
    Ok(())
}

// ---- encoding

pub fn encode_say(m: &RM, c: &mut Ctx) -> Out {
    let msg = build!(c, conv::msg(m));
    let e = match msg.encode_with_fds() {
        Ok(_) => return Ok(()),
        Err(e) => e,
    };
    let show = || brief(&format!("{:?}", m), 1200);
    match &e {
        EncodeError::SignatureError(t) => {
            // some signature which has to be written
            let mut any = print_claim(t, &m.sig());
            for v in &m.body {
                v.walk(&mut |x| {
                    any = any
                        || match x {
                            RV::V(y) => print_claim(t, &[y.ty()]),
                            RV::G(ts) => print_claim(t, ts),
                            _ => false,
                        }
                });
            }
            ensure!(any, "encoding fails with {:?}, which is not so: {}", e, show());
            inner_ok(&e, t, c)?;
        }
        EncodeError::VariantDepth(n) => {
            let d = m.body.iter().map(|v| v.variant_depth()).max().unwrap_or(0);
            ensure!(*n > 4 && *n as usize <= d, "encoding fails with {:?}, the variants are nested {} deep: {}", e, d, show());
            text_ok(&e, &[n.to_string()], c)?;
        }
        _ => {
            // these messages are far from the other limits
            bail!("encoding fails with {:?}, which is not so: {}", e, show());
        }
    }
    let again = msg.encode().err();
    ensure!(again.is_some(), "encode() succeeds where encode_with_fds() fails with {:?}: {}", e, show());
    c.n("encoding errors verified", 1);
    Ok(())
}

// ---- header fields and decoding

const FIELD: [&str; 10] = ["", "path", "interface", "member", "error", "serial", "destination", "sender", "signature", "fds"];
/// The text about a header field names no other field, and mentions the value.
fn field_text_ok(e: &F, c: &mut Ctx) -> Out {
    let (code, v) = match e {
        F::MultiplePath(v) => (1, v),
        F::MultipleInterface(v) => (2, v),
        F::MultipleMember(v) => (3, v),
        F::MultipleErrorName(v) => (4, v),
        F::MultipleReplySerial(v) => (5, v),
        F::MultipleDestination(v) => (6, v),
        F::MultipleSender(v) => (7, v),
        F::MultipleSignature(v) => (8, v),
        F::MultipleUnixFDs(v) => (9, v),
        F::Struct(v) | F::Variant(v) | F::Byte(v) | F::Path(v) | F::Interface(v) | F::Member(v) | F::ErrorName(v) => (0, v),
        F::ReplySerial(v) | F::Destination(v) | F::Sender(v) | F::Signature(v) | F::UnixFDs(v) => (0, v),
        F::Length(n) => return text_ok(e, &[n.to_string()], c),
        F::InvalidNumber(n) => return text_ok(e, &[n.to_string()], c),
        F::InterfaceError(i) => return inner_ok(e, i, c),
        F::MemberError(i) => return inner_ok(e, i, c),
        F::ErrorError(i) => return inner_ok(e, i, c),
        F::BusError(i) => return inner_ok(e, i, c),
    };
    let d = format!("{:?}", v);
    text_ok(e, &[d.clone()], c)?;
    if code > 0 {
        let t = e.to_string().to_lowercase().replace(&d.to_lowercase(), "");
        for (k, w) in FIELD.iter().enumerate().skip(1) {
            ensure!(t.contains(w) == (k == code), "the text {:?} of {:?}", e.to_string(), e);
        }
        c.n("texts about repeated fields", 1);
    }
    Ok(())
}
/// The words for a field missing.
fn missing_text_ok(e: &MessageHeaderError, c: &mut Ctx) -> Out {
    let w = match e {
        MessageHeaderError::MissingPath => "Path",
        MessageHeaderError::MissingInterface => "Interface",
        MessageHeaderError::MissingMember => "Member",
        MessageHeaderError::MissingErrorName => "Error",
        MessageHeaderError::MissingReplySerial => "Serial",
    };
    text_ok(e, &[w.to_string(), "missing".to_string()], c)
}
pub fn fields_say(vs: &[RV], c: &mut Ctx) -> Out {
    let lib = build!(c, conv::vals(vs));
    if let Err(e) = MessageHeaderFields::try_from(lib) {
        ensure!(super::msg::true_fault(&e, vs), "the header fields {} are refused with {:?}, which is not so", brief(&format!("{:?}", vs), 900), e);
        field_text_ok(&e, c).map_err(|x| format!("{}: {}", brief(&format!("{:?}", vs), 600), x))?;
        c.n("header field errors read", 1);
    }
    Ok(())
}
/// An error about hostile bytes: the data it reports are in the bytes.
pub fn decode_say(b: &[u8], fds: &[i32], c: &mut Ctx) -> Out {
    c.key_bytes(b);
    let e = match Message::decode_with_fds(Bytes::copy_from_slice(b), fds) {
        Ok(_) => return Ok(()),
        Err(e) => e,
    };
    let le = b.first() == Some(&b'l');
    let word = |n: u32| {
        let w = if le { n.to_le_bytes() } else { n.to_be_bytes() };
        b.chunks(4).any(|x| x == w)
    };
    let ctx = || format!("{} with {} descriptors", brief(&hex(b), 1500), fds.len());
    let no = |w: &str| format!("decoding fails with {:?}, which is not so ({}): {}", e, w, ctx());
    let mut say: Vec<String> = vec![];
    let ok = match &e {
        D::NotEnoughBytes(n, o) => {
            say = vec![n.to_string(), o.to_string()];
            *n <= b.len() && o > n
        }
        D::InvalidBoolean(n) => {
            say = vec![n.to_string()];
            *n > 1 && word(*n)
        }
        D::Utf8Error(_) => b.iter().any(|x| *x > 0x7f),
        D::StringNotNull(x) | D::Padding(x) => {
            say = vec![x.to_string()];
            *x > 0 && b.contains(x)
        }
        D::ArrayTooBig(n) => {
            say = vec![n.to_string()];
            *n as usize > wire::MAX_ARRAY && word(*n)
        }
        D::ArrayInvalidLength(x, y) => {
            say = vec![x.to_string(), y.to_string()];
            x != y && *x <= b.len() && *y <= b.len()
        }
        D::Endianness(x) => {
            say = vec![x.to_string()];
            b[0] == *x && *x != b'l' && *x != b'B'
        }
        D::MessageType(x) => {
            say = vec![x.to_string()];
            b[1] == *x && !(1..=4).contains(x)
        }
        D::MessageFlags(x) => {
            say = vec![x.to_string()];
            b[2] == *x && *x > 7
        }
        D::NotEnoughFds(n, i) => {
            say = vec![n.to_string(), i.to_string()];
            *n == fds.len() && i >= n && word(*i as u32)
        }
        D::VariantDepth(n) => {
            say = vec![n.to_string()];
            *n > 4
        }
        D::BodySignatureMissing(n) => {
            say = vec![n.to_string()];
            *n > 0 && b.len() >= 8 && word(*n)
        }
        D::BodyLengthZero(_) => b.len() >= 8 && b[4..8] == [0; 4],
        D::SignatureError(t) => {
            say = vec![t.to_string()];
            match t {
                TypeError::InvalidChar(x) => b.contains(x) && !b"ybnqiuxtdsoghva({".contains(x),
                TypeError::ArrayDepth(n) => *n > 32 && b.windows(*n as usize).any(|w| w.iter().filter(|x| **x == b'a').count() > 0),
                TypeError::ExceedMaximum(_) => false,
                TypeError::ClosingCurlyBracket(o, x) => *x != b'}' && b.contains(x) && *o < 256,
                TypeError::TooShort(n, o) => *n < 256 && o >= n,
                _ => true,
            }
        }
        D::ObjectPathError(i) => {
            say = vec![i.to_string()];
            match path(i) {
                Claim::Bad(x) => b.contains(&x) && !allowed(Kind::Path, x),
                Claim::EmptyElement => b.windows(2).any(|w| w == b"//"),
                Claim::EndSlash => b.windows(2).any(|w| w == b"/\0"),
                _ => true,
            }
        }
        D::MessageHeaderError(h) => {
            missing_text_ok(h, c)?;
            say = vec![h.to_string()];
            true
        }
        D::MessageHeaderFieldsError(f) => {
            field_text_ok(f, c)?;
            say = vec![f.to_string()];
            match f {
                F::InvalidNumber(n) => b.contains(n) && (*n == 0 || *n > 9),
                F::InterfaceError(i) => embedded(Kind::Interface, interface(i), b),
                F::MemberError(i) => embedded(Kind::Member, member(i), b),
                F::ErrorError(i) => embedded(Kind::Error, error(i), b),
                F::BusError(BusError::UniqueConnectionNameError(i)) => embedded(Kind::Unique, unique(i), b),
                F::BusError(BusError::WellKnownBusNameError(i)) => embedded(Kind::WellKnown, well_known(i), b),
                _ => true,
            }
        }
        _ => true,
    };
    ensure!(ok, "{}", no("data"));
    text_ok(&e, &say, c).map_err(|x| format!("{:?}: {}: {}", e, x, ctx()))?;
    c.n("decoding errors verified", 1);
    Ok(())
}
/// Some text in the bytes could have the defect.
fn embedded(k: Kind, q: Claim, b: &[u8]) -> bool {
    match q {
        Claim::Bad(x) => b.contains(&x) && !allowed(k, x),
        Claim::Exceed(n) => n > 255 && n < b.len(),
        Claim::EndDot => b.windows(2).any(|w| w == b".\0"),
        Claim::ElementDot => b.contains(&b'.'),
        Claim::Colon => b.iter().filter(|x| **x == b':').count() > 0,
        _ => true,
    }
}

// ---- workload

pub fn c27(s: &mut Src, c: &mut Ctx) -> Out {
    match s.below(8) {
        0 | 1 => {
            let k = KINDS[s.below(7)];
            let mut b = gen::name_any(s, k);
            if s.chance(60) {
                b.extend(gen::name_any(s, k));
            }
            c.sample(|| format!("{:?}", String::from_utf8_lossy(&b)));
            names_say(&b, c)
        }
        2 => {
            let mut b = super::text::sig_bytes(s);
            if s.chance(60) {
                b.extend(super::text::sig_bytes(s));
            }
            types_say(&b, c)?;
            let ts: Vec<RT> = (0..s.below(4)).map(|_| gen::rtype_any(s)).collect();
            print_say(&ts, c)
        }
        3 | 4 => {
            let t = super::text::rule_text(s);
            rules_say(&t, c)
        }
        5 => {
            let m = gen::message_any(s);
            encode_say(&m, c)
        }
        6 => {
            let (vs, _) = super::msg::field_values(s);
            fields_say(&vs, c)
        }
        _ => {
            let m = gen::message(s);
            let o = gen::order(s, &m);
            let w = wire::encode(&m, &o, true);
            let b = gen::hostile(s, &w);
            let n = s.below(4);
            decode_say(&b, &[3, 4, 5][..n.min(3)], c)
        }
    }
}
const NA: [char; 8] = ['/', '.', ':', '-', '0', 'a', 'Z', '\u{e9}'];
const SA: [char; 7] = ['y', 'v', 'a', '(', ')', '{', '}'];
const RA: [char; 7] = ['=', ',', '\'', '\\', 'a', ' ', '0'];
const RULES: [(&str, &str); 24] = [
    ("type", "Signal"),
    ("sender", ":a"),
    ("sender", "a..b"),
    ("interface", "1a.b"),
    ("member", "a.b"),
    ("path", "/a/"),
    ("path", "a"),
    ("path_namespace", "/a//b"),
    ("path_namespace", ""),
    ("destination", "a.b"),
    ("destination", ":a.b."),
    ("arg64", "x"),
    ("arg65path", "/"),
    ("arg1path", "/a/"),
    ("arg", "x"),
    ("argpath", "/"),
    ("argx", "x"),
    ("arg99999999999999999999", "x"),
    ("arg1namespace", "a.b"),
    ("arg0namespace", "a"),
    ("eavesdrop", "yes"),
    ("unknown", "x"),
    ("arg0", "good"),
    ("member", "Good"),
];
const BLOCK: u64 = 500;
pub fn c27_enums(t: bool) -> u64 {
    let l = if t { 6 } else { 5 };
    (super::text::count(8, l) + super::text::count(7, l + 1) + super::text::count(7, l)) / BLOCK + 3 + 24 * 24 + 8 + 40 + 300
}
pub fn c27_enum(n: u64, c: &mut Ctx) -> Out {
    let l = if c.thorough { 6 } else { 5 };
    let mut n = n;
    let sizes = [super::text::count(8, l), super::text::count(7, l + 1), super::text::count(7, l)];
    for (k, size) in sizes.iter().enumerate() {
        let blocks = size / BLOCK + 1;
        if n < blocks {
            for i in n * BLOCK..((n + 1) * BLOCK).min(*size) {
                match k {
                    0 => names_say(super::text::nth(&NA, i).as_bytes(), c)?,
                    1 => types_say(super::text::nth(&SA, i).as_bytes(), c)?,
                    _ => {
                        let t = super::text::nth(&RA, i);
                        rules_say(&t, c)?;
                        rules_say(&format!("arg0={}", t), c)?;
                    }
                }
            }
            return Ok(());
        }
        n -= blocks;
    }
    if n < 24 * 24 {
        // two rules, each possibly faulty: alone, together, quoted, and broken
        let ((k1, v1), (k2, v2)) = (RULES[n as usize % 24], RULES[n as usize / 24]);
        for t in [
            format!("{}={}", k1, v1),
            format!("{}='{}'", k1, v1),
            format!("{}={},{}={}", k1, v1, k2, v2),
            format!("{}='{}',{}='{}'", k1, v1, k2, v2),
            format!("{}={},{}", k1, v1, k2),
            format!("{}={},{}='{}", k1, v1, k2, v2),
            format!("{}={}, {}={}", k1, v1, k2, v2),
            format!("{}={},={}", k1, v1, v2),
        ] {
            rules_say(&t, c)?;
        }
        return Ok(());
    }
    n -= 24 * 24;
    if n < 8 {
        for i in 0..256usize {
            indices(i, c)?;
            message_types(i as u8, c)?;
        }
        for i in 0..64 {
            indices(1 << i, c)?;
            indices((1usize << i) - 1, c)?;
            indices(usize::MAX - i, c)?;
        }
        return Ok(());
    }
    n -= 8;
    if n < 40 {
        // nestings at and beyond the limit, whole, cut, spoiled
        let d = 20 + n as usize;
        for x in ["a", "(", "{s"] {
            let open = x.repeat(d);
            let close = match x {
                "a" => String::new(),
                "(" => ")".repeat(d),
                _ => "}".repeat(d),
            };
            for t in [
                format!("{}y{}", open, close),
                open.clone(),
                format!("{}y", open),
                format!("{}z{}", open, close),
                format!("y{}y{}y", open, close),
                format!("{}y{}z", open, close),
                format!("a{}y{}", open, close),
                format!("({}y{})", open, close),
                format!("{{s{}y{}}}", open, close),
                format!("{{s{}y{}y", open, close),
            ] {
                types_say(t.as_bytes(), c)?;
                if let Some(ts) = lenient(t.as_bytes()) {
                    print_say(&ts, c)?;
                    print_say(&[ts.clone(), ts].concat(), c)?;
                }
            }
        }
        return Ok(());
    }
    n -= 40;
    // lengths around the limit, with and without a second fault
    let len = 120 + n as usize;
    for k in KINDS {
        let mut b = fix_name(k, &vec![b'a'; len]).into_bytes();
        names_say(&b, c)?;
        for (at, x) in [(0, b'.'), (1, b'.'), (b.len() / 2, b'!'), (b.len(), b'.'), (b.len(), b'/'), (2, b':'), (0, b'5')] {
            let mut b = b.clone();
            b.insert(at.min(b.len()), x);
            names_say(&b, c)?;
        }
        b.truncate(len);
        names_say(&b, c)?;
    }
    types_say("y".repeat(len).as_bytes(), c)?;
    types_say(format!("({}", "y".repeat(len)).as_bytes(), c)?;
    types_say(format!("({})", "y".repeat(len)).as_bytes(), c)?;
    types_say(format!("{}z", "y".repeat(len)).as_bytes(), c)?;
    print_say(&vec![RT::B(b'x'); len], c)?;
    print_say(&[RT::S(vec![RT::B(b'x'); len])], c)
}
/// The types of a well-formed text, without the limits.
fn lenient(b: &[u8]) -> Option<Vec<RT>> {
    fn one(b: &[u8], i: &mut usize) -> Option<RT> {
        let x = *b.get(*i)?;
        *i += 1;
        Some(match x {
            b'a' => RT::A(Box::new(one(b, i)?)),
            b'(' => {
                let mut v = vec![];
                while *b.get(*i)? != b')' {
                    v.push(one(b, i)?);
                }
                *i += 1;
                RT::S(v)
            }
            b'{' => {
                let p = (one(b, i)?, one(b, i)?);
                if *b.get(*i)? != b'}' {
                    return None;
                }
                *i += 1;
                RT::D(Box::new(p))
            }
            x if b"ybnqiuxtdsoghv".contains(&x) => RT::B(x),
            _ => return None,
        })
    }
    let mut i = 0;
    let mut v = vec![];
    while i < b.len() {
        v.push(one(b, &mut i)?);
    }
    Some(v)
}
