//! Conversions between the reference model and the library, through the public API only.
use crate::model::*;
use dbus_message_parser::match_rule::{Arg, ArgPath, MatchRule};
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::convert::TryFrom;

pub type E = String;
fn e<T: std::fmt::Debug>(what: &str) -> impl FnOnce(T) -> E + '_ {
    move |x| format!("could not construct a valid {}: {:?}", what, x)
}

pub fn ty(t: &RT) -> Type {
    match t {
        RT::B(c) => match c {
            b'y' => Type::Byte,
            b'b' => Type::Boolean,
            b'n' => Type::Int16,
            b'q' => Type::Uint16,
            b'i' => Type::Int32,
            b'u' => Type::Uint32,
            b'x' => Type::Int64,
            b't' => Type::Uint64,
            b'd' => Type::Double,
            b's' => Type::String,
            b'o' => Type::ObjectPath,
            b'g' => Type::Signature,
            #[cfg(unix)]
            b'h' => Type::UnixFD,
            b'v' => Type::Variant,
            x => unreachable!("type {}", x),
        },
        RT::A(t) => Type::Array(Box::new(ty(t))),
        RT::S(ts) => Type::Struct(tys(ts)),
        RT::D(p) => Type::DictEntry(Box::new((ty(&p.0), ty(&p.1)))),
    }
}
pub fn tys(ts: &[RT]) -> Vec<Type> {
    ts.iter().map(ty).collect()
}
pub fn rt(t: &Type) -> RT {
    match t {
        Type::Byte => RT::B(b'y'),
        Type::Boolean => RT::B(b'b'),
        Type::Int16 => RT::B(b'n'),
        Type::Uint16 => RT::B(b'q'),
        Type::Int32 => RT::B(b'i'),
        Type::Uint32 => RT::B(b'u'),
        Type::Int64 => RT::B(b'x'),
        Type::Uint64 => RT::B(b't'),
        Type::Double => RT::B(b'd'),
        Type::String => RT::B(b's'),
        Type::ObjectPath => RT::B(b'o'),
        Type::Signature => RT::B(b'g'),
        #[cfg(unix)]
        Type::UnixFD => RT::B(b'h'),
        Type::Variant => RT::B(b'v'),
        Type::Array(t) => RT::A(Box::new(rt(t))),
        Type::Struct(ts) => RT::S(rts(ts)),
        Type::DictEntry(p) => RT::D(Box::new((rt(&p.0), rt(&p.1)))),
    }
}
pub fn rts(ts: &[Type]) -> Vec<RT> {
    ts.iter().map(rt).collect()
}

pub fn val(v: &RV) -> Result<Value, E> {
    Ok(match v {
        RV::Y(x) => Value::Byte(*x),
        RV::B(x) => Value::Boolean(*x),
        RV::N(x) => Value::Int16(*x),
        RV::Q(x) => Value::Uint16(*x),
        RV::I(x) => Value::Int32(*x),
        RV::U(x) => Value::Uint32(*x),
        RV::X(x) => Value::Int64(*x),
        RV::T(x) => Value::Uint64(*x),
        RV::D(x) => Value::Double(f64::from_bits(*x)),
        RV::S(x) => Value::String(x.clone()),
        RV::O(x) => Value::ObjectPath(ObjectPath::try_from(x.as_str()).map_err(e("object path"))?),
        RV::G(x) => Value::Signature(tys(x)),
        #[cfg(unix)]
        RV::H(x) => Value::UnixFD(*x),
        #[cfg(not(unix))]
        RV::H(_) => return Err("no descriptors".into()),
        RV::A(t, xs) => {
            let xs = xs.iter().map(val).collect::<Result<Vec<_>, E>>()?;
            Value::Array(Array::new(xs, ty(t)).map_err(e("array"))?)
        }
        RV::R(xs) => {
            let xs = xs.iter().map(val).collect::<Result<Vec<_>, E>>()?;
            Value::Struct(Struct::try_from(xs).map_err(e("struct"))?)
        }
        RV::E(p) => Value::DictEntry(Box::new((val(&p.0)?, val(&p.1)?))),
        RV::V(x) => Value::Variant(Box::new(val(x)?)),
    })
}
pub fn vals(v: &[RV]) -> Result<Vec<Value>, E> {
    v.iter().map(val).collect()
}
pub fn rv(v: &Value) -> RV {
    match v {
        Value::Byte(x) => RV::Y(*x),
        Value::Boolean(x) => RV::B(*x),
        Value::Int16(x) => RV::N(*x),
        Value::Uint16(x) => RV::Q(*x),
        Value::Int32(x) => RV::I(*x),
        Value::Uint32(x) => RV::U(*x),
        Value::Int64(x) => RV::X(*x),
        Value::Uint64(x) => RV::T(*x),
        Value::Double(x) => RV::D(x.to_bits()),
        Value::String(x) => RV::S(x.clone()),
        Value::ObjectPath(x) => RV::O(x.as_ref().to_string()),
        Value::Signature(x) => RV::G(rts(x)),
        #[cfg(unix)]
        Value::UnixFD(x) => RV::H(*x),
        Value::Array(a) => RV::A(rt(a.get_type()), a.as_ref().iter().map(rv).collect()),
        Value::Struct(s) => RV::R(s.as_ref().iter().map(rv).collect()),
        Value::DictEntry(p) => RV::E(Box::new((rv(&p.0), rv(&p.1)))),
        Value::Variant(x) => RV::V(Box::new(rv(x))),
    }
}
pub fn rvs(v: &[Value]) -> Vec<RV> {
    v.iter().map(rv).collect()
}

pub fn mtype(t: u8) -> MessageType {
    match t {
        1 => MessageType::MethodCall,
        2 => MessageType::MethodReturn,
        3 => MessageType::Error,
        4 => MessageType::Signal,
        _ => unreachable!(),
    }
}
pub fn mtype_u8(t: MessageType) -> u8 {
    match t {
        MessageType::MethodCall => 1,
        MessageType::MethodReturn => 2,
        MessageType::Error => 3,
        MessageType::Signal => 4,
    }
}
pub fn interface(s: &str) -> Result<Interface, E> {
    Interface::try_from(s).map_err(e("interface"))
}
pub fn member(s: &str) -> Result<Member, E> {
    Member::try_from(s).map_err(e("member"))
}
pub fn path(s: &str) -> Result<ObjectPath, E> {
    ObjectPath::try_from(s).map_err(e("object path"))
}
pub fn bus(s: &str) -> Result<Bus, E> {
    Bus::try_from(s).map_err(e("bus name"))
}
pub fn unique(s: &str) -> Result<UniqueConnectionName, E> {
    UniqueConnectionName::try_from(s).map_err(e("unique connection name"))
}
pub fn error(s: &str) -> Result<Error, E> {
    Error::try_from(s).map_err(e("error name"))
}
fn opt<T>(x: &Option<String>, f: impl Fn(&str) -> Result<T, E>) -> Result<Option<T>, E> {
    x.as_deref().map(f).transpose()
}
/// Header fields without a signature.
pub fn fields(m: &RM) -> Result<MessageHeaderFields, E> {
    Ok(MessageHeaderFields {
        path: opt(&m.path, path)?,
        interface: opt(&m.interface, interface)?,
        member: opt(&m.member, member)?,
        error_name: opt(&m.error_name, error)?,
        reply_serial: m.reply_serial,
        destination: opt(&m.destination, bus)?,
        sender: opt(&m.sender, bus)?,
        signature: None,
        #[cfg(unix)]
        unix_fds: m.unix_fds,
    })
}
pub fn flags(f: u8) -> MessageFlags {
    MessageFlags::from_bits_truncate(f)
}
pub fn header_with(m: &RM, sig: Option<Vec<Type>>) -> Result<MessageHeader, E> {
    let mut f = fields(m)?;
    f.signature = sig;
    MessageHeader::new(m.le, mtype(m.ty), flags(m.flags), m.ver, m.serial, f).map_err(e("header"))
}
pub fn header(m: &RM) -> Result<MessageHeader, E> {
    header_with(m, None)
}
pub fn msg(m: &RM) -> Result<Message, E> {
    Ok(Message::new(header(m)?, vals(&m.body)?))
}

/// Everything a user can see of a message. Byte order, flags and version have no accessor; they
/// are read from the encoding of the same header with an empty body.
pub fn observe(m: &Message) -> Result<RM, E> {
    let (header, _) = m.clone().split().map_err(|x| format!("split failed: {:?}", x))?;
    let b = Message::new(header, vec![])
        .encode()
        .map_err(|x| format!("the header alone could not be encoded: {:?}", x))?;
    if b.len() < 16 {
        return Err(format!("encoded header is only {} bytes long", b.len()));
    }
    let le = match b[0] {
        b'l' => true,
        b'B' => false,
        x => return Err(format!("byte order mark {:#x}", x)),
    };
    let s = |x: Option<&dyn AsRef<str>>| x.map(|x| x.as_ref().to_string());
    Ok(RM {
        le,
        ty: mtype_u8(m.get_type()),
        flags: b[2],
        ver: b[3],
        serial: m.get_serial(),
        path: s(m.get_path().map(|x| x as _)),
        interface: s(m.get_interface().map(|x| x as _)),
        member: s(m.get_member().map(|x| x as _)),
        error_name: s(m.get_error_name().map(|x| x as _)),
        reply_serial: m.get_reply_serial(),
        destination: s(m.get_destination().map(|x| x as _)),
        sender: s(m.get_sender().map(|x| x as _)),
        #[cfg(unix)]
        unix_fds: m.get_unix_fds(),
        #[cfg(not(unix))]
        unix_fds: None,
        body: rvs(m.get_body()),
    })
}
/// As `observe`, and also compares with the header built from scratch (a second, independent
/// view of byte order, flags and version).
pub fn same(m: &Message, want: &RM) -> Result<(), E> {
    let got = observe(m)?;
    if &got != want {
        return Err(diff(&got, want));
    }
    let (h, _) = m.clone().split().map_err(|x| format!("split failed: {:?}", x))?;
    let sig = if want.body.is_empty() { None } else { Some(tys(&want.sig())) };
    let mut f = fields(want)?;
    f.signature = h.get_signature().map(|x| x.to_vec());
    if sig.is_some() && f.signature != sig {
        return Err(format!("split header has signature {:?}, the body has {:?}", f.signature, sig));
    }
    let w = MessageHeader::new(want.le, mtype(want.ty), flags(want.flags), want.ver, want.serial, f)
        .map_err(|x| format!("header could not be rebuilt: {:?}", x))?;
    if h != w {
        return Err(format!("header differs: got {:?}, expected {:?}", h, w));
    }
    Ok(())
}
pub fn diff(got: &RM, want: &RM) -> String {
    let mut o = vec![];
    macro_rules! c {
        ($($f:ident),*) => { $( if got.$f != want.$f {
            o.push(format!("{}: got {} expected {}", stringify!($f),
                brief(&format!("{:?}", got.$f), 300), brief(&format!("{:?}", want.$f), 300)));
        } )* };
    }
    c!(le, ty, flags, ver, serial, path, interface, member, error_name, reply_serial, destination, sender, unix_fds);
    if got.body.len() != want.body.len() {
        o.push(format!("body has {} values, expected {}", got.body.len(), want.body.len()));
    } else {
        for (i, (a, b)) in got.body.iter().zip(&want.body).enumerate() {
            if a != b {
                o.push(format!(
                    "body[{}]: got {} expected {}",
                    i,
                    brief(&format!("{:?}", a), 300),
                    brief(&format!("{:?}", b), 300)
                ));
                break;
            }
        }
    }
    format!("message differs: {}", o.join("; "))
}

/// Match rule model.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RR {
    Type(u8),
    Sender(String),
    Interface(String),
    Member(String),
    Path(String),
    PathNs(String),
    Dest(String),
    Arg(usize, String),
    ArgPath(usize, String),
    Arg0Ns(String),
    Eaves(bool),
}
pub fn rule(r: &RR) -> Result<MatchRule, E> {
    Ok(match r {
        RR::Type(t) => MatchRule::Type(mtype(*t)),
        RR::Sender(s) => MatchRule::Sender(bus(s)?),
        RR::Interface(s) => MatchRule::Interface(interface(s)?),
        RR::Member(s) => MatchRule::Member(member(s)?),
        RR::Path(s) => MatchRule::Path(path(s)?),
        RR::PathNs(s) => MatchRule::PathNamespace(path(s)?),
        RR::Dest(s) => MatchRule::Destination(unique(s)?),
        RR::Arg(i, s) => MatchRule::Arg(Arg::try_from((*i, s.clone())).map_err(e("arg"))?),
        RR::ArgPath(i, s) => MatchRule::ArgPath(ArgPath::from((*i, path(s)?))),
        RR::Arg0Ns(s) => MatchRule::Arg0Namespace(interface(s)?),
        RR::Eaves(b) => MatchRule::Eavesdrop(*b),
    })
}
pub fn rules(r: &[RR]) -> Result<Vec<MatchRule>, E> {
    r.iter().map(rule).collect()
}
pub fn rr(r: &MatchRule) -> RR {
    match r {
        MatchRule::Type(t) => RR::Type(mtype_u8(*t)),
        MatchRule::Sender(s) => RR::Sender(s.as_ref().into()),
        MatchRule::Interface(s) => RR::Interface(s.as_ref().into()),
        MatchRule::Member(s) => RR::Member(s.as_ref().into()),
        MatchRule::Path(s) => RR::Path(s.as_ref().into()),
        MatchRule::PathNamespace(s) => RR::PathNs(s.as_ref().into()),
        MatchRule::Destination(s) => RR::Dest(s.as_ref().into()),
        MatchRule::Arg(a) => RR::Arg(a.get_index(), a.get_value().into()),
        MatchRule::ArgPath(a) => RR::ArgPath(a.get_index(), a.get_value().as_ref().into()),
        MatchRule::Arg0Namespace(s) => RR::Arg0Ns(s.as_ref().into()),
        MatchRule::Eavesdrop(b) => RR::Eaves(*b),
    }
}
