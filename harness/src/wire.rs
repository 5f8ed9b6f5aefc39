//! Independent reference implementation of the D-Bus wire format.
use crate::model::*;

pub const MAX_ARRAY: usize = 64 << 20;
pub const MAX_MSG: usize = 128 << 20;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sp {
    /// zero padding
    Pad,
    /// multi-byte number (byte order dependent)
    Num,
    /// boolean (4 bytes)
    Bool,
    /// 4-byte length of a string / object path
    StrLen,
    /// array length
    ArrLen,
    /// index of a descriptor
    Fd,
    /// text of a string, path
    Str,
    Path,
    /// text of a signature: value / variant
    Sig,
    VarSig,
    /// length byte of a signature
    SigLen,
    Nul,
    Byte,
    /// body length / serial in the fixed header
    BodyLen,
    Serial,
}
#[derive(Clone, Debug)]
pub struct Span {
    pub k: Sp,
    pub at: usize,
    pub len: usize,
    /// header field code this belongs to, or 0 for the body / fixed header
    pub field: u8,
    /// for ArrLen: (start of the content, end of the content, end of the last but one element)
    pub arr: (usize, usize, usize),
}

pub struct Enc<'a> {
    pub out: Vec<u8>,
    pub le: bool,
    pub spans: Vec<Span>,
    pub want_spans: bool,
    pub field: u8,
    pub fd: &'a mut dyn FnMut(i32) -> u32,
}
impl<'a> Enc<'a> {
    fn span(&mut self, k: Sp, at: usize, len: usize) {
        if self.want_spans && len > 0 {
            self.spans.push(Span { k, at, len, field: self.field, arr: (0, 0, 0) });
        }
    }
    pub fn pad(&mut self, a: usize) {
        let at = self.out.len();
        while self.out.len() % a != 0 {
            self.out.push(0);
        }
        self.span(Sp::Pad, at, self.out.len() - at);
    }
    fn num(&mut self, v: u64, n: usize, k: Sp) {
        self.pad(n);
        let at = self.out.len();
        let b = v.to_le_bytes();
        if self.le {
            self.out.extend_from_slice(&b[..n]);
        } else {
            self.out.extend(b[..n].iter().rev());
        }
        self.span(k, at, n);
    }
    fn text(&mut self, b: &[u8], k: Sp) {
        let at = self.out.len();
        self.out.extend_from_slice(b);
        self.span(k, at, b.len());
        let at = self.out.len();
        self.out.push(0);
        self.span(Sp::Nul, at, 1);
    }
    fn sig(&mut self, s: &str, k: Sp) {
        let at = self.out.len();
        self.out.push(s.len() as u8);
        self.span(Sp::SigLen, at, 1);
        self.text(s.as_bytes(), k);
    }
    pub fn val(&mut self, v: &RV) {
        match v {
            RV::Y(b) => {
                let at = self.out.len();
                self.out.push(*b);
                self.span(Sp::Byte, at, 1);
            }
            RV::B(b) => self.num(*b as u64, 4, Sp::Bool),
            RV::N(i) => self.num(*i as u16 as u64, 2, Sp::Num),
            RV::Q(i) => self.num(*i as u64, 2, Sp::Num),
            RV::I(i) => self.num(*i as u32 as u64, 4, Sp::Num),
            RV::U(i) => self.num(*i as u64, 4, Sp::Num),
            RV::X(i) => self.num(*i as u64, 8, Sp::Num),
            RV::T(i) => self.num(*i, 8, Sp::Num),
            RV::D(i) => self.num(*i, 8, Sp::Num),
            RV::H(fd) => {
                let i = (self.fd)(*fd);
                self.num(i as u64, 4, Sp::Fd)
            }
            RV::S(s) => {
                self.num(s.len() as u64, 4, Sp::StrLen);
                self.text(s.as_bytes(), Sp::Str);
            }
            RV::O(s) => {
                self.num(s.len() as u64, 4, Sp::StrLen);
                self.text(s.as_bytes(), Sp::Path);
            }
            RV::G(ts) => self.sig(&sig_text(ts), Sp::Sig),
            RV::A(t, xs) => {
                self.num(0, 4, Sp::ArrLen);
                let idx = self.spans.len().wrapping_sub(1);
                let lenat = self.out.len() - 4;
                self.pad(t.align());
                let start = self.out.len();
                let mut prev = start;
                for (i, x) in xs.iter().enumerate() {
                    if i + 1 == xs.len() {
                        prev = self.out.len();
                    }
                    self.val(x);
                }
                let n = self.out.len() - start;
                let b = (n as u32).to_le_bytes();
                for i in 0..4 {
                    self.out[lenat + i] = if self.le { b[i] } else { b[3 - i] };
                }
                if self.want_spans {
                    self.spans[idx].arr = (start, start + n, prev);
                }
            }
            RV::R(xs) => {
                self.pad(8);
                xs.iter().for_each(|x| self.val(x));
            }
            RV::E(p) => {
                self.pad(8);
                self.val(&p.0);
                self.val(&p.1);
            }
            RV::V(x) => {
                self.sig(&x.ty().sig(), Sp::VarSig);
                self.val(x);
            }
        }
    }
}

/// A message as laid out on the wire, before anything was checked.
#[derive(Clone, Debug)]
pub struct Raw {
    pub le: bool,
    pub ty: u8,
    pub flags: u8,
    pub ver: u8,
    pub serial: u32,
    /// the values inside the array of header field structures
    pub fields: Vec<RV>,
    pub body: Vec<RV>,
    /// declared body length = actual + delta
    pub body_len: Option<u32>,
}
pub struct Wire {
    pub bytes: Vec<u8>,
    pub spans: Vec<Span>,
    pub body_at: usize,
}
pub fn field(code: u8, v: RV) -> RV {
    RV::R(vec![RV::Y(code), RV::V(Box::new(v))])
}
impl Raw {
    /// `order`: permutation of the canonical field list.
    pub fn from_rm(m: &RM, order: &[usize]) -> Raw {
        let f = m.fields();
        let idx: Vec<usize> = if order.len() == f.len() { order.to_vec() } else { (0..f.len()).collect() };
        Raw {
            le: m.le,
            ty: m.ty,
            flags: m.flags,
            ver: m.ver,
            serial: m.serial,
            fields: idx.iter().map(|i| field(f[*i].0, f[*i].1.clone())).collect(),
            body: m.body.clone(),
            body_len: None,
        }
    }
    pub fn encode(&self, want_spans: bool, fd: &mut dyn FnMut(i32) -> u32) -> Wire {
        // The body is aligned to 8, so it can be encoded separately.
        let mut b = Enc { out: vec![], le: self.le, spans: vec![], want_spans, field: 0, fd };
        for v in &self.body {
            b.val(v);
        }
        let (body, bspans) = (b.out, b.spans);
        let mut nofd = |_| 0u32;
        let mut e = Enc { out: vec![], le: self.le, spans: vec![], want_spans, field: 0, fd: &mut nofd };
        e.out.push(if self.le { b'l' } else { b'B' });
        e.out.push(self.ty);
        e.out.push(self.flags);
        e.out.push(self.ver);
        e.num(self.body_len.unwrap_or(body.len() as u32) as u64, 4, Sp::BodyLen);
        e.num(self.serial as u64, 4, Sp::Serial);
        // array of (yv), with the field code recorded in the spans
        e.num(0, 4, Sp::ArrLen);
        let idx = e.spans.len().wrapping_sub(1);
        e.pad(8);
        let start = e.out.len();
        let mut prev = start;
        for (i, f) in self.fields.iter().enumerate() {
            if i + 1 == self.fields.len() {
                prev = e.out.len();
            }
            if let RV::R(x) = f {
                if let Some(RV::Y(c)) = x.first() {
                    e.field = *c;
                }
            }
            e.val(f);
            e.field = 0;
        }
        let n = e.out.len() - start;
        let nb = (n as u32).to_le_bytes();
        for i in 0..4 {
            e.out[12 + i] = if self.le { nb[i] } else { nb[3 - i] };
        }
        if want_spans {
            e.spans[idx].arr = (start, start + n, prev);
        }
        e.pad(8);
        let body_at = e.out.len();
        e.out.extend_from_slice(&body);
        for mut s in bspans {
            s.at += body_at;
            s.arr.0 += body_at;
            s.arr.1 += body_at;
            s.arr.2 += body_at;
            e.spans.push(s);
        }
        Wire { bytes: e.out, spans: e.spans, body_at }
    }
}
/// Reference encoding with the canonical descriptor table.
pub fn encode(m: &RM, order: &[usize], want_spans: bool) -> Wire {
    let fds = m.fds();
    let pos: std::collections::HashMap<i32, u32> = fds.iter().enumerate().map(|(i, f)| (*f, i as u32)).collect();
    Raw::from_rm(m, order).encode(want_spans, &mut |f| pos[&f])
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RE {
    Short,
    Bad(&'static str),
}
pub struct Dec<'a> {
    b: &'a [u8],
    at: usize,
    le: bool,
    fds: &'a [i32],
    pub maxfd: Option<usize>,
    budget: usize,
}
type R<T> = Result<T, RE>;
impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.at < n {
            return Err(RE::Short);
        }
        let r = &self.b[self.at..self.at + n];
        self.at += n;
        Ok(r)
    }
    fn pad(&mut self, a: usize) -> R<()> {
        while self.at % a != 0 {
            if self.take(1)?[0] != 0 {
                return Err(RE::Bad("padding"));
            }
        }
        Ok(())
    }
    fn num(&mut self, n: usize) -> R<u64> {
        self.pad(n)?;
        let le = self.le;
        let b = self.take(n)?;
        let mut v = 0u64;
        for i in 0..n {
            let x = if le { b[n - 1 - i] } else { b[i] };
            v = v << 8 | x as u64;
        }
        Ok(v)
    }
    fn text(&mut self, n: usize) -> R<&'a [u8]> {
        let b = self.take(n)?;
        if self.take(1)?[0] != 0 {
            return Err(RE::Bad("nul"));
        }
        Ok(b)
    }
    fn sig(&mut self) -> R<Vec<RT>> {
        let n = self.take(1)?[0] as usize;
        parse_sig(self.text(n)?).ok_or(RE::Bad("signature"))
    }
    fn val(&mut self, t: &RT, vd: usize) -> R<RV> {
        // every decoded value costs one unit: guards the reference against runaway inputs
        if self.budget == 0 {
            return Err(RE::Bad("budget"));
        }
        self.budget -= 1;
        Ok(match t {
            RT::B(b'y') => RV::Y(self.take(1)?[0]),
            RT::B(b'b') => match self.num(4)? {
                0 => RV::B(false),
                1 => RV::B(true),
                _ => return Err(RE::Bad("boolean")),
            },
            RT::B(b'n') => RV::N(self.num(2)? as u16 as i16),
            RT::B(b'q') => RV::Q(self.num(2)? as u16),
            RT::B(b'i') => RV::I(self.num(4)? as u32 as i32),
            RT::B(b'u') => RV::U(self.num(4)? as u32),
            RT::B(b'x') => RV::X(self.num(8)? as i64),
            RT::B(b't') => RV::T(self.num(8)?),
            RT::B(b'd') => RV::D(self.num(8)?),
            RT::B(b's') => {
                let n = self.num(4)? as usize;
                let b = self.text(n)?;
                RV::S(std::str::from_utf8(b).map_err(|_| RE::Bad("utf8"))?.to_string())
            }
            RT::B(b'o') => {
                let n = self.num(4)? as usize;
                let b = self.text(n)?;
                if !valid_name(Kind::Path, b) {
                    return Err(RE::Bad("path"));
                }
                RV::O(String::from_utf8(b.to_vec()).unwrap())
            }
            RT::B(b'g') => RV::G(self.sig()?),
            RT::B(b'h') => {
                let i = self.num(4)? as usize;
                if i >= self.fds.len() {
                    return Err(RE::Bad("fd"));
                }
                self.maxfd = self.maxfd.max(Some(i));
                RV::H(self.fds[i])
            }
            RT::B(_) => {
                if vd == 4 {
                    return Err(RE::Bad("variant depth"));
                }
                let mut ts = self.sig()?;
                if ts.len() != 1 {
                    return Err(RE::Bad("variant signature"));
                }
                let t = ts.pop().unwrap();
                RV::V(Box::new(self.val(&t, vd + 1)?))
            }
            RT::A(t) => RV::A((**t).clone(), self.array(t, vd)?),
            RT::S(ts) => {
                self.pad(8)?;
                RV::R(ts.iter().map(|t| self.val(t, vd)).collect::<R<Vec<_>>>()?)
            }
            RT::D(p) => {
                self.pad(8)?;
                let a = self.val(&p.0, vd)?;
                let b = self.val(&p.1, vd)?;
                RV::E(Box::new((a, b)))
            }
        })
    }
    fn array(&mut self, t: &RT, vd: usize) -> R<Vec<RV>> {
        let n = self.num(4)? as usize;
        if n > MAX_ARRAY {
            return Err(RE::Bad("array size"));
        }
        self.pad(t.align())?;
        let end = self.at + n;
        let mut v = vec![];
        while self.at < end {
            v.push(self.val(t, vd)?);
        }
        if self.at != end {
            return Err(RE::Bad("array end"));
        }
        Ok(v)
    }
}

pub struct Decoded {
    pub m: RM,
    pub used: usize,
    pub nfds: usize,
    pub order: Vec<u8>,
}
/// Reference decoder.
pub fn decode(b: &[u8], fds: &[i32]) -> Result<Decoded, RE> {
    let b = &b[..b.len().min(MAX_MSG)];
    let mut d = Dec { b, at: 0, le: true, fds, maxfd: None, budget: 10_000_000 };
    let mut m = RM::empty();
    m.le = match d.take(1)?[0] {
        b'l' => true,
        b'B' => false,
        _ => return Err(RE::Bad("endian")),
    };
    d.le = m.le;
    m.ty = d.take(1)?[0];
    if !(1..=4).contains(&m.ty) {
        return Err(RE::Bad("type"));
    }
    m.flags = d.take(1)?[0];
    if m.flags > 7 {
        return Err(RE::Bad("flags"));
    }
    m.ver = d.take(1)?[0];
    let body_len = d.num(4)? as usize;
    m.serial = d.num(4)? as u32;
    let yv = RT::S(vec![RT::B(b'y'), RT::B(b'v')]);
    let fields = d.array(&yv, 0)?;
    let mut order = vec![];
    let mut sig: Option<Vec<RT>> = None;
    for f in fields {
        let (c, v) = match f {
            RV::R(mut x) => match (x.pop(), x.pop()) {
                (Some(RV::V(v)), Some(RV::Y(c))) => (c, *v),
                _ => unreachable!(),
            },
            _ => unreachable!(),
        };
        if order.contains(&c) {
            return Err(RE::Bad("duplicate field"));
        }
        order.push(c);
        let name = |v: RV, k: Kind| -> R<Option<String>> {
            match v {
                RV::S(s) if valid_name(k, s.as_bytes()) => Ok(Some(s)),
                _ => Err(RE::Bad("field value")),
            }
        };
        match (c, v) {
            (1, RV::O(p)) => m.path = Some(p),
            (2, v) => m.interface = name(v, Kind::Interface)?,
            (3, v) => m.member = name(v, Kind::Member)?,
            (4, v) => m.error_name = name(v, Kind::Error)?,
            (5, RV::U(n)) => m.reply_serial = Some(n),
            (6, v) => m.destination = name(v, Kind::Bus)?,
            (7, v) => m.sender = name(v, Kind::Bus)?,
            (8, RV::G(s)) => sig = Some(s),
            (9, RV::U(n)) => m.unix_fds = Some(n),
            _ => return Err(RE::Bad("field")),
        }
    }
    for c in RM::required(m.ty) {
        if !m.has(*c) {
            return Err(RE::Bad("required field"));
        }
    }
    d.pad(8)?;
    match (body_len, sig) {
        (0, None) => {}
        (0, Some(s)) if s.is_empty() => {}
        (0, _) => return Err(RE::Bad("signature without body")),
        (_, None) => return Err(RE::Bad("body without signature")),
        (n, Some(s)) => {
            let end = d.at + n;
            for t in &s {
                m.body.push(d.val(t, 0)?);
            }
            if d.at != end {
                return Err(RE::Bad("body length"));
            }
        }
    }
    Ok(Decoded { used: d.at, nfds: d.maxfd.map_or(0, |x| x + 1), m, order })
}
