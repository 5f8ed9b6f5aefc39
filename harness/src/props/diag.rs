//! C23: a single fault in an otherwise valid message is reported as that fault.
use crate::conv;
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::hash_bytes;
use crate::tape::{Dict, Mirror, Src};
use crate::wire::{self, field, Raw, Sp, Wire};
use crate::{bail, ensure};
use bytes::Bytes;
use dbus_message_parser::decode::DecodeError as D;
use dbus_message_parser::message::{Message, MessageHeaderError as H, MessageHeaderFieldsError as F};
use dbus_message_parser::value::*;
use std::convert::TryFrom;

/// What the decoder has to report.
enum Want {
    Is(D),
    /// Not enough bytes: the length of the buffer, and an offset beyond it.
    Short(usize),
}
struct Fault {
    what: &'static str,
    bytes: Vec<u8>,
    fds: Vec<i32>,
    want: Want,
    /// numbers which the formatted error has to mention
    nums: Vec<u64>,
}
fn judge(f: &Fault, c: &mut Ctx) -> Out {
    c.key(hash_bytes(17, &f.bytes) ^ f.fds.len() as u64);
    let b = Bytes::copy_from_slice(&f.bytes);
    let ctx = || format!("{}: {} with {} descriptors", f.what, brief(&hex(&f.bytes), 1500), f.fds.len());
    let rs = {
        let mut v = vec![Message::decode_with_fds(b.clone(), &f.fds).map(|_| ())];
        if f.fds.is_empty() {
            v.push(Message::decode(b).map(|_| ()));
        }
        v
    };
    for r in rs {
        let e = match r {
            Ok(_) => bail!("accepted although there is one fault, {}", ctx()),
            Err(e) => e,
        };
        match &f.want {
            Want::Is(w) => ensure!(format!("{:?}", e) == format!("{:?}", w), "reported as {:?} instead of {:?}, {}", e, w, ctx()),
            Want::Short(n) => match e {
                D::NotEnoughBytes(l, o) if l == *n && o > l => {}
                e => bail!("reported as {:?} instead of NotEnoughBytes({}, ..), {}", e, n, ctx()),
            },
        }
        if !f.nums.is_empty() {
            let t = format!("{}", e);
            for n in &f.nums {
                ensure!(t.contains(&n.to_string()), "the formatted error {:?} does not mention {}, {}", t, n, ctx());
            }
            c.n("formatted errors checked", f.nums.len() as u64);
        }
    }
    c.n(f.what, 1);
    Ok(())
}
fn put(b: &mut [u8], at: usize, v: u32, le: bool) {
    let x = if le { v.to_le_bytes() } else { v.to_be_bytes() };
    b[at..at + 4].copy_from_slice(&x);
}
fn get(b: &[u8], at: usize, le: bool) -> u32 {
    let x = [b[at], b[at + 1], b[at + 2], b[at + 3]];
    if le {
        u32::from_le_bytes(x)
    } else {
        u32::from_be_bytes(x)
    }
}
fn rest(k: u64, from: u8) -> u8 {
    from.wrapping_add((k % (256 - from as u64)) as u8)
}
/// The faults which are made by changing bytes of one span of the encoded message. `x` decides
/// about the new bytes.
fn at_span(m: &RM, w: &Wire, i: usize, x: u64, out: &mut Vec<Fault>) {
    let sp = &w.spans[i];
    let le = m.le;
    let fds = m.fds();
    let mut add = |what, bytes: Vec<u8>, want, nums: Vec<u64>| out.push(Fault { what, bytes, fds: fds.clone(), want: Want::Is(want), nums });
    let pos = sp.at + (x >> 16) as usize % sp.len.max(1);
    let with = |c: u8| {
        let mut b = w.bytes.clone();
        b[pos] = c;
        b
    };
    let num = |v: u32| {
        let mut b = w.bytes.clone();
        put(&mut b, sp.at, v, le);
        b
    };
    match sp.k {
        Sp::Pad => {
            let v = rest(x, 1);
            add("padding byte", with(v), D::Padding(v), vec![v as u64]);
        }
        Sp::Nul => {
            let v = rest(x, 1);
            add("terminator byte", with(v), D::StringNotNull(v), vec![v as u64]);
        }
        Sp::Bool => {
            let v = match x % 4 {
                0 => 2,
                1 => 1u32.swap_bytes(),
                2 => u32::MAX,
                _ => ((x >> 8) as u32).max(2),
            };
            add("boolean", num(v), D::InvalidBoolean(v), vec![v as u64]);
        }
        Sp::ArrLen => {
            let v = match x % 4 {
                0 => wire::MAX_ARRAY as u32 + 1,
                1 => u32::MAX,
                2 => wire::MAX_ARRAY as u32 + 1 + (x >> 8) as u32 % 5000,
                _ => (1 << 31) | (x >> 8) as u32,
            };
            add("array length too big", num(v), D::ArrayTooBig(v), vec![v as u64]);
            let (start, end, prev) = sp.arr;
            if end > start && end - prev > 1 {
                let e = prev + 1 + (x >> 20) as usize % (end - prev - 1);
                add("array length inside an element", num((e - start) as u32), D::ArrayInvalidLength(end, e), vec![end as u64, e as u64]);
            }
        }
        Sp::Fd => {
            let n = fds.len();
            let v = if x % 2 == 0 { n as u32 } else { (n as u32).saturating_add((x >> 8) as u32 >> (x % 24)) };
            add("descriptor index", num(v), D::NotEnoughFds(n, v as usize), vec![n as u64, v as u64]);
        }
        Sp::Str => {
            if sp.field == 0 {
                let v = [0x80, 0xbf, 0xc0, 0xc3, 0xe2, 0xf0, 0xf5, 0xff][(x % 8) as usize];
                let b = with(v);
                if let Err(e) = std::str::from_utf8(&b[sp.at..sp.at + sp.len]) {
                    add("string encoding", b, D::Utf8Error(e), vec![]);
                }
            }
        }
        Sp::Path => {
            let v = x as u8;
            if !(v.is_ascii_alphanumeric() || v == b'_' || v == b'/') {
                add("character of a path", with(v), D::ObjectPathError(ObjectPathError::InvalidChar(v)), vec![v as u64]);
            }
        }
        Sp::Sig | Sp::VarSig => {
            let v = x as u8;
            if !b"ybnqiuxtdsoghva(){}".contains(&v) {
                let at = pos - sp.at;
                let e = if w.bytes[pos] == b'}' { TypeError::ClosingCurlyBracket(at, v) } else { TypeError::InvalidChar(v) };
                add("character of a signature", with(v), D::SignatureError(e), vec![v as u64]);
            }
        }
        Sp::StrLen => {
            // beyond the end of the buffer
            let left = (w.bytes.len() - sp.at - 4) as u32;
            let v = left.saturating_add((x >> 8) as u32 >> (x % 24));
            let n = w.bytes.len();
            out.push(Fault { what: "string length beyond the end", bytes: num(v), fds: fds.clone(), want: Want::Short(n), nums: vec![n as u64] });
        }
        Sp::BodyLen => {
            let n = get(&w.bytes, 4, le);
            if n > 0 {
                let end = w.body_at + n as usize;
                let mut b = num(0);
                b.truncate(if x % 2 == 0 { w.body_at } else { b.len() });
                add("body length zero", b, D::BodyLengthZero(conv::tys(&m.sig())), vec![]);
                let less = 1 + (x >> 8) as u32 % n;
                if less < n {
                    add("body length too small", num(less), D::BodyLength(w.body_at + less as usize, end), vec![(w.body_at + less as usize) as u64, end as u64]);
                }
                let more = n + 1 + (x >> 8) as u32 % 64;
                let mut b = num(more);
                b.resize(w.body_at + more as usize + (x >> 40) as usize % 9, (x >> 32) as u8);
                add("body length too big", b, D::BodyLength(w.body_at + more as usize, end), vec![(w.body_at + more as usize) as u64, end as u64]);
            } else {
                let v = 1 + (x as u32 >> (x >> 32) % 32);
                let mut b = num(v);
                b.resize(b.len() + v.min(50) as usize, 0);
                add("body without signature", b, D::BodySignatureMissing(v), vec![v as u64]);
            }
        }
        Sp::Num | Sp::Byte | Sp::SigLen | Sp::Serial => {}
    }
}
/// Faults in the first four bytes.
fn at_start(m: &RM, w: &Wire, x: u64, out: &mut Vec<Fault>) {
    let v = x as u8;
    let fds = m.fds();
    let mut add = |what, at: usize, v: u8, e| {
        let mut b = w.bytes.clone();
        b[at] = v;
        out.push(Fault { what, bytes: b, fds: fds.clone(), want: Want::Is(e), nums: vec![v as u64] });
    };
    if v != b'l' && v != b'B' {
        add("byte order mark", 0, v, D::Endianness(v));
    }
    if !(1..=4).contains(&v) {
        add("message type", 1, v, D::MessageType(v));
    }
    if v > 7 {
        add("message flags", 2, v, D::MessageFlags(v));
    }
}

/// An invalid name with the one thing that is wrong with it.
#[derive(Debug)]
enum NameErr {
    I(InterfaceError),
    M(MemberError),
    E(ErrorError),
    U(UniqueConnectionNameError),
    W(WellKnownBusNameError),
    P(ObjectPathError),
}
fn bad_name(s: &mut Src, k: Kind) -> Option<(String, NameErr)> {
    let good = gen::name(s, k);
    let sep = if k == Kind::Path { '/' } else { '.' };
    let k = match k {
        Kind::Bus if good.starts_with(':') => Kind::Unique,
        Kind::Bus => Kind::WellKnown,
        k => k,
    };
    // where the elements begin
    let begins: Vec<usize> = {
        let from = (k == Kind::Unique || k == Kind::Path) as usize;
        std::iter::once(from).chain(good.match_indices(sep).map(|x| x.0 + 1).filter(|x| *x > from)).collect()
    };
    let b = begins[s.below(begins.len())];
    let how = s.below(8);
    let c = s.u8();
    let ins = |at: usize, x: &str| format!("{}{}{}", &good[..at], x, &good[at..]);
    let digit = ["0", "5", "9"][c as usize % 3];
    macro_rules! e {
        ($v:ident) => {
            match k {
                Kind::Interface => NameErr::I(InterfaceError::$v),
                Kind::Error => NameErr::E(ErrorError::$v),
                Kind::WellKnown => NameErr::W(WellKnownBusNameError::$v),
                _ => return None,
            }
        };
    }
    let (t, e) = match how {
        0 => {
            // a character that is not allowed, not as the first one of a bus name
            let ok = |c: u8| {
                c.is_ascii_alphanumeric()
                    || c == b'_'
                    || match k {
                        Kind::Member => false,
                        Kind::Interface | Kind::Error => c == b'.',
                        Kind::WellKnown => c == b'.' || c == b'-',
                        Kind::Path => c == b'/',
                        _ => c == b'.' || c == b'-' || c == b':',
                    }
            };
            let c = c & 0x7f;
            if ok(c) {
                return None;
            }
            let at = s.below(good.len());
            if at == 0 && matches!(k, Kind::Unique | Kind::WellKnown) {
                return None;
            }
            let mut b = good.clone().into_bytes();
            b[at] = c;
            let t = String::from_utf8(b).unwrap();
            let e = match k {
                Kind::Interface => NameErr::I(InterfaceError::InvalidChar(c)),
                Kind::Error => NameErr::E(ErrorError::InvalidChar(c)),
                Kind::Member => NameErr::M(MemberError::InvalidChar(c)),
                Kind::WellKnown => NameErr::W(WellKnownBusNameError::InvalidChar(c)),
                Kind::Path => NameErr::P(ObjectPathError::InvalidChar(c)),
                _ => NameErr::U(UniqueConnectionNameError::InvalidChar(c)),
            };
            (t, e)
        }
        1 => match k {
            Kind::Member => (String::new(), NameErr::M(MemberError::Empty)),
            Kind::Path => (String::new(), NameErr::P(ObjectPathError::Empty)),
            Kind::Unique => (":".into(), NameErr::U(UniqueConnectionNameError::Empty)),
            _ => (String::new(), e!(Empty)),
        },
        2 => {
            // only one element
            let x = good.split(sep).next().unwrap_or("").to_string();
            match k {
                Kind::Unique => (x, NameErr::U(UniqueConnectionNameError::Elements)),
                _ => (x, e!(Elements)),
            }
        }
        3 => {
            if good.len() >= 255 && k != Kind::Path {
                return None;
            }
            let t = format!("{}{}", good, sep);
            match k {
                Kind::Path if good != "/" => (t, NameErr::P(ObjectPathError::EndSlash)),
                Kind::Unique => (t, NameErr::U(UniqueConnectionNameError::EndDot)),
                _ => (t, e!(EndDot)),
            }
        }
        4 => {
            if good.len() >= 255 {
                return None;
            }
            let t = ins(b, digit);
            match k {
                Kind::Member => (t, NameErr::M(MemberError::BeginDigit)),
                Kind::WellKnown if b == 0 => (t, NameErr::W(WellKnownBusNameError::BeginDigit)),
                _ => (t, e!(ElementBeginDigit)),
            }
        }
        5 => {
            if good.len() >= 255 && k != Kind::Path {
                return None;
            }
            let t = ins(b, &sep.to_string());
            match k {
                Kind::Path => (t, NameErr::P(ObjectPathError::ElementEmtpy)),
                Kind::Unique => (t, NameErr::U(UniqueConnectionNameError::ElementBeginDot)),
                Kind::WellKnown if b == 0 => (t, NameErr::W(WellKnownBusNameError::BeginDot)),
                _ => (t, e!(ElementBeginDot)),
            }
        }
        6 => {
            let n = 256 + s.size(400);
            let t = format!("{}{}", good, "a".repeat(n - good.len().min(255)));
            let n = t.len();
            match k {
                Kind::Member => (t, NameErr::M(MemberError::ExceedMaximum(n))),
                Kind::Interface => (t, NameErr::I(InterfaceError::ExceedMaximum(n))),
                Kind::Error => (t, NameErr::E(ErrorError::ExceedMaximum(n))),
                Kind::WellKnown => (t, NameErr::W(WellKnownBusNameError::ExceedMaximum(n))),
                Kind::Unique => (t, NameErr::U(UniqueConnectionNameError::ExceedMaximum(n))),
                _ => return None,
            }
        }
        _ => match k {
            Kind::Unique if good.len() < 255 => {
                let at = 1 + s.below(good.len());
                (ins(at, ":"), NameErr::U(UniqueConnectionNameError::Colon))
            }
            Kind::Path if good != "/" => (good[1..].to_string(), NameErr::P(ObjectPathError::BeginAlphanumericAndUnderscoreAndHyphen)),
            _ => return None,
        },
    };
    Some((t, e))
}
fn wrap(s: &mut Src, v: RV) -> RV {
    match s.below(7) {
        0 => RV::R(vec![RV::Y(1), v]),
        1 => RV::A(v.ty(), vec![v]),
        2 => RV::V(Box::new(v)),
        3 => RV::E(Box::new((RV::U(7), v))),
        4 => RV::A(RT::D(Box::new((RT::B(b's'), v.ty()))), vec![RV::E(Box::new((RV::S("k".into()), v)))]),
        _ => v,
    }
}
fn name_error(e: NameErr) -> D {
    match e {
        NameErr::I(e) => D::MessageHeaderFieldsError(F::InterfaceError(e)),
        NameErr::M(e) => D::MessageHeaderFieldsError(F::MemberError(e)),
        NameErr::E(e) => D::MessageHeaderFieldsError(F::ErrorError(e)),
        NameErr::U(e) => D::MessageHeaderFieldsError(F::BusError(BusError::UniqueConnectionNameError(e))),
        NameErr::W(e) => D::MessageHeaderFieldsError(F::BusError(BusError::WellKnownBusNameError(e))),
        NameErr::P(e) => D::ObjectPathError(e),
    }
}
/// Faults made in the content before it is laid out.
fn in_content(s: &mut Src, m: &RM, out: &mut Vec<Fault>, c: &mut Ctx) -> Out {
    let mut m = m.clone();
    let order = gen::order(s, &m);
    let put_body = |m: &mut RM, v: RV, s: &mut Src| {
        let at = s.below(m.body.len() + 1);
        m.body.insert(at, v);
        if !sig_ok(&m.sig()) {
            let v = m.body.swap_remove(at);
            m.body = vec![v];
        }
    };
    let kind = s.below(14);
    let mut nums = vec![];
    let (what, r, want): (&'static str, Raw, D) = match kind {
        0..=2 => {
            // an invalid name in a header field
            let codes: Vec<u8> = [2u8, 3, 4, 6, 7, 1].iter().copied().filter(|c| m.has(*c)).collect();
            if codes.is_empty() {
                return Ok(());
            }
            let code = codes[s.below(codes.len())];
            let k = match code {
                1 => Kind::Path,
                2 => Kind::Interface,
                3 => Kind::Member,
                4 => Kind::Error,
                _ => Kind::Bus,
            };
            let Some((t, e)) = bad_name(s, k) else { return Ok(()) };
            direct(k, &t, &e)?;
            c.n("names diagnosed directly", 1);
            let mut r = Raw::from_rm(&m, &order);
            let v = if code == 1 { RV::O(t) } else { RV::S(t) };
            for f in r.fields.iter_mut() {
                if matches!(f, RV::R(x) if x[0] == RV::Y(code)) {
                    *f = field(code, v.clone());
                }
            }
            ("name in a header field", r, name_error(e))
        }
        3 => {
            let Some((t, e)) = bad_name(s, Kind::Path) else { return Ok(()) };
            direct(Kind::Path, &t, &e)?;
            let v = wrap(s, RV::O(t));
            put_body(&mut m, v, s);
            ("path in the body", Raw::from_rm(&m, &[]), name_error(e))
        }
        4 => {
            // too deep signature as a value
            let extra = s.below(3);
            let (mut t, e) = (RT::B(b'y'), s.below(3));
            for _ in 0..33 + extra {
                t = match e {
                    0 => RT::A(Box::new(t)),
                    1 => RT::S(vec![t]),
                    _ => RT::D(Box::new((RT::B(b'y'), t))),
                };
            }
            let e = match e {
                0 => TypeError::ArrayDepth(33),
                1 => TypeError::StructDepth(33),
                _ => TypeError::DictDepth(33),
            };
            nums.push(33);
            let v = RV::G(vec![t]);
            // a variant would have to be described by a signature itself, which is fine: type g
            let v = wrap(s, v);
            put_body(&mut m, v, s);
            ("depth of a signature", Raw::from_rm(&m, &[]), D::SignatureError(e))
        }
        5 => {
            let mut v = if s.chance(128) { RV::Y(1) } else { RV::U(3) };
            for _ in 0..5 + s.below(3) {
                v = RV::V(Box::new(match s.below(4) {
                    0 => RV::R(vec![v]),
                    1 => RV::A(v.ty(), vec![v]),
                    _ => v,
                }));
            }
            let v = wrap(s, v);
            put_body(&mut m, v, s);
            nums.push(5);
            ("variant depth", Raw::from_rm(&m, &[]), D::VariantDepth(5))
        }
        6 => {
            let n = {
                if m.body.is_empty() {
                    m.body.push(RV::U(s.int(4) as u32));
                }
                let w = wire::encode(&m, &[], false);
                w.bytes.len() - w.body_at
            };
            let mut r = Raw::from_rm(&m, &[]);
            r.fields.retain(|f| !matches!(f, RV::R(x) if x[0] == RV::Y(8)));
            if n == 0 {
                return Ok(());
            }
            nums.push(n as u64);
            ("missing body signature", r, D::BodySignatureMissing(n as u32))
        }
        7 | 8 => {
            let req = RM::required(m.ty);
            let code = req[s.below(req.len())];
            let mut r = Raw::from_rm(&m, &order);
            r.fields.retain(|f| !matches!(f, RV::R(x) if x[0] == RV::Y(code)));
            let e = match code {
                1 => H::MissingPath,
                2 => H::MissingInterface,
                3 => H::MissingMember,
                4 => H::MissingErrorName,
                _ => H::MissingReplySerial,
            };
            ("missing required field", r, D::MessageHeaderError(e))
        }
        9 => {
            let code = if s.chance(40) { 0 } else { rest(s.int(1), 10) };
            let mut f = gen::Fuel { nodes: 5, fds: vec![0], maxvd: 4 };
            let t = gen::rtype(s, 60, 0);
            let v = gen::value(s, &t, &mut f, 1);
            let v = if s.chance(20) { (0..s.below(4)).fold(RV::Y(1), |v, _| RV::V(Box::new(v))) } else { v };
            let mut fd = false;
            v.walk(&mut |x| fd |= matches!(x, RV::H(_)));
            let v = if fd { RV::Y(0) } else { v };
            let mut r = Raw::from_rm(&m, &order);
            let at = s.below(r.fields.len() + 1);
            r.fields.insert(at, field(code, v));
            nums.push(code as u64);
            ("unknown header field", r, D::MessageHeaderFieldsError(F::InvalidNumber(code)))
        }
        10 | 11 => {
            let fs = m.fields();
            let i = s.below(fs.len());
            let (code, old) = fs[i].clone();
            let v = if s.chance(128) {
                old
            } else {
                match code {
                    1 => RV::O(gen::name(s, Kind::Path)),
                    2 => RV::S(gen::name(s, Kind::Interface)),
                    3 => RV::S(gen::name(s, Kind::Member)),
                    4 => RV::S(gen::name(s, Kind::Error)),
                    6 | 7 => RV::S(gen::name(s, Kind::Bus)),
                    8 => RV::G(gen::signature(s)),
                    _ => RV::U(s.int(4) as u32),
                }
            };
            let mut r = Raw::from_rm(&m, &order);
            // behind the first one
            let first = r.fields.iter().position(|f| matches!(f, RV::R(x) if x[0] == RV::Y(code))).unwrap_or(0);
            let at = first + 1 + s.below(r.fields.len() - first);
            r.fields.insert(at, field(code, v.clone()));
            let Ok(v) = conv::val(&v) else { return Ok(()) };
            let e = match code {
                1 => F::MultiplePath(v),
                2 => F::MultipleInterface(v),
                3 => F::MultipleMember(v),
                4 => F::MultipleErrorName(v),
                5 => F::MultipleReplySerial(v),
                6 => F::MultipleDestination(v),
                7 => F::MultipleSender(v),
                8 => F::MultipleSignature(v),
                _ => F::MultipleUnixFDs(v),
            };
            ("repeated header field", r, D::MessageHeaderFieldsError(e))
        }
        12 => {
            let fs = m.fields();
            let i = s.below(fs.len());
            let (code, old) = fs[i].clone();
            let v = match s.below(9) {
                0 => RV::Y(s.u8()),
                1 => RV::U(s.int(4) as u32),
                2 => RV::S(gen::text(s)),
                3 => RV::O(gen::name(s, Kind::Path)),
                4 => RV::G(gen::signature(s)),
                5 => (0..1 + s.below(3)).fold(old.clone(), |v, _| RV::V(Box::new(v))),
                6 => RV::R(vec![old.clone()]),
                7 => RV::A(old.ty(), vec![old.clone()]),
                _ => RV::I(s.int(4) as i32),
            };
            if v.ty() == old.ty() {
                return Ok(());
            }
            let mut r = Raw::from_rm(&m, &order);
            for f in r.fields.iter_mut() {
                if matches!(f, RV::R(x) if x[0] == RV::Y(code)) {
                    *f = field(code, v.clone());
                }
            }
            let Ok(v) = conv::val(&v) else { return Ok(()) };
            let e = match code {
                1 => F::Path(v),
                2 => F::Interface(v),
                3 => F::Member(v),
                4 => F::ErrorName(v),
                5 => F::ReplySerial(v),
                6 => F::Destination(v),
                7 => F::Sender(v),
                8 => F::Signature(v),
                _ => F::UnixFDs(v),
            };
            ("type of a header field", r, D::MessageHeaderFieldsError(e))
        }
        _ => {
            // one descriptor less than needed, or none
            let fds = m.fds();
            if fds.is_empty() {
                return Ok(());
            }
            let w = wire::encode(&m, &order, true);
            let k = s.below(fds.len());
            // the first index which is not there, in order of appearance
            out.push(Fault {
                what: "missing descriptor",
                bytes: w.bytes,
                fds: fds[..k].to_vec(),
                want: Want::Is(D::NotEnoughFds(k, k)),
                nums: vec![k as u64],
            });
            return Ok(());
        }
    };
    let fds = m.fds();
    let pos = fds.clone();
    let w = r.encode(false, &mut |f| pos.iter().position(|x| *x == f).unwrap_or(0) as u32);
    out.push(Fault { what, bytes: w.bytes, fds, want: Want::Is(want), nums });
    Ok(())
}
/// The same name given to the type itself.
fn direct(k: Kind, t: &str, e: &NameErr) -> Out {
    macro_rules! d {
        ($t:ident, $w:expr) => {{
            let w = format!("{:?}", $w);
            for (from, r) in [
                ("text", $t::try_from(t).map(|_| ())),
                ("bytes", $t::try_from(t.as_bytes()).map(|_| ())),
                ("string", $t::try_from(t.to_string()).map(|_| ())),
            ] {
                match r {
                    Ok(_) => bail!("{} accepts {:?} from {}", stringify!($t), t, from),
                    Err(x) => ensure!(format!("{:?}", x) == w, "{:?} as {} from {}: reported as {:?} instead of {}", t, stringify!($t), from, x, w),
                }
            }
        }};
    }
    match (k, e) {
        (Kind::Interface, NameErr::I(e)) => d!(Interface, e),
        (Kind::Member, NameErr::M(e)) => d!(Member, e),
        (Kind::Error, NameErr::E(e)) => d!(Error, e),
        (Kind::Path, NameErr::P(e)) => d!(ObjectPath, e),
        (_, NameErr::U(e)) => {
            d!(UniqueConnectionName, e);
        }
        (_, NameErr::W(e)) => {
            d!(WellKnownBusName, e);
        }
        _ => {}
    }
    Ok(())
}
/// A variant at the end of the body whose signature is damaged in length.
fn in_variant(s: &mut Src, m: &RM, out: &mut Vec<Fault>) {
    let mut m = m.clone();
    m.body.push(RV::V(Box::new(RV::Y(7))));
    if !sig_ok(&m.sig()) {
        return;
    }
    let w = wire::encode(&m, &[], false);
    let mut b = w.bytes;
    let n = b.len();
    let (tail, e): (&[u8], TypeError) = match s.below(4) {
        0 => (b"\x02yy\0\x07", TypeError::MultiplyTypes),
        1 => (b"\x00\0", TypeError::TooShort(0, 0)),
        2 => (b"\x02(y\0\x07", TypeError::TooShort(2, 2)),
        _ => (b"\x01a\0\x07", TypeError::TooShort(1, 1)),
    };
    b.truncate(n - 4);
    b.extend_from_slice(tail);
    let len = get(&b, 4, m.le) + tail.len() as u32 - 4;
    put(&mut b, 4, len, m.le);
    out.push(Fault { what: "signature of a variant", bytes: b, fds: m.fds(), want: Want::Is(D::SignatureError(e)), nums: vec![] });
}
fn judge_all(v: &[Fault], c: &mut Ctx) -> Out {
    for f in v {
        judge(f, c)?;
    }
    Ok(())
}
pub fn c23(s: &mut Src, c: &mut Ctx) -> Out {
    let mut m = gen::message(s);
    if s.chance(60) {
        // more variety in the body
        let mut f = gen::fuel(s);
        let v = gen::body(s, &mut f);
        m.body.extend(v);
        if !sig_ok(&m.sig()) {
            m.body.truncate(1);
        }
    }
    let order = gen::order(s, &m);
    let mut v = vec![];
    match s.below(8) {
        0 => {
            let w = wire::encode(&m, &order, false);
            let x = s.int(8);
            at_start(&m, &w, x, &mut v);
        }
        1 => in_variant(s, &m, &mut v),
        2..=4 => in_content(s, &m, &mut v, c)?,
        _ => {
            let w = wire::encode(&m, &order, true);
            for _ in 0..4 {
                let i = s.below(w.spans.len());
                let x = s.int(8) ^ (s.u8() as u64) << 16;
                at_span(&m, &w, i, x, &mut v);
            }
        }
    }
    c.sample(|| v.first().map(|f| format!("{}: {}", f.what, hex(&f.bytes))).unwrap_or_default());
    judge_all(&v, c)
}
/// Systematic messages with every byte-level fault at every place, four values each.
pub fn c23_enums(thorough: bool) -> u64 {
    super::wirep::c01_enums(thorough)
}
pub fn c23_enum(n: u64, c: &mut Ctx) -> Out {
    let m = super::wirep::systematic(n);
    let nf = m.fields().len();
    let order: Vec<usize> = (0..nf).map(|k| (k + n as usize) % nf).collect();
    let w = wire::encode(&m, &order, true);
    let mut x = n.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    for i in 0..w.spans.len() {
        let mut v = vec![];
        let nk = if matches!(w.spans[i].k, Sp::Num | Sp::Byte) { 0 } else { 2 };
        for _ in 0..nk {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            at_span(&m, &w, i, x, &mut v);
        }
        judge_all(&v, c)?;
    }
    let mut v = vec![];
    at_start(&m, &w, x >> 9, &mut v);
    // content faults, with the choices made by the number of the case
    let d = Dict::default();
    let none = Mirror::none();
    let mut tape = vec![];
    let mut s = Src::new(&mut tape, n ^ 0x5eed, &d, &none);
    for _ in 0..3 {
        in_content(&mut s, &m, &mut v, c)?;
    }
    judge_all(&v, c)
}
