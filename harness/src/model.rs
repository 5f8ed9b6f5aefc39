//! Independent reference model: types, values, names, messages. Shares nothing with the library.
use std::fmt::Write;

/// A D-Bus type. `B` holds the type code of a basic type (ybnqiuxtdsogh) or 'v'.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum RT {
    B(u8),
    A(Box<RT>),
    S(Vec<RT>),
    D(Box<(RT, RT)>),
}
pub const BASIC: &[u8] = b"ybnqiuxtdsogh";

impl RT {
    pub fn align(&self) -> usize {
        match self {
            RT::B(c) => match c {
                b'y' | b'g' | b'v' => 1,
                b'n' | b'q' => 2,
                b'b' | b'i' | b'u' | b's' | b'o' | b'h' => 4,
                b'x' | b't' | b'd' => 8,
                _ => unreachable!(),
            },
            RT::A(_) => 4,
            RT::S(_) | RT::D(_) => 8,
        }
    }
    pub fn text(&self, o: &mut String) {
        match self {
            RT::B(c) => o.push(*c as char),
            RT::A(t) => {
                o.push('a');
                t.text(o)
            }
            RT::S(ts) => {
                o.push('(');
                for t in ts {
                    t.text(o)
                }
                o.push(')')
            }
            RT::D(d) => {
                o.push('{');
                d.0.text(o);
                d.1.text(o);
                o.push('}')
            }
        }
    }
    pub fn sig(&self) -> String {
        let mut s = String::new();
        self.text(&mut s);
        s
    }
    /// (array, struct, dict) depth maxima and whether an empty struct occurs
    pub fn depths(&self) -> (usize, usize, usize, bool) {
        match self {
            RT::B(_) => (0, 0, 0, false),
            RT::A(t) => {
                let d = t.depths();
                (d.0 + 1, d.1, d.2, d.3)
            }
            RT::S(ts) => {
                let mut m = (0, 0, 0, ts.is_empty());
                for t in ts {
                    let d = t.depths();
                    m = (m.0.max(d.0), m.1.max(d.1), m.2.max(d.2), m.3 || d.3);
                }
                (m.0, m.1 + 1, m.2, m.3)
            }
            RT::D(p) => {
                let (a, b) = (p.0.depths(), p.1.depths());
                (a.0.max(b.0), a.1.max(b.1), a.2.max(b.2) + 1, a.3 || b.3)
            }
        }
    }
}
pub fn sig_text(ts: &[RT]) -> String {
    let mut s = String::new();
    for t in ts {
        t.text(&mut s)
    }
    s
}
/// Is this type list a valid signature (within the limits)?
pub fn sig_ok(ts: &[RT]) -> bool {
    sig_text(ts).len() <= 255
        && ts.iter().all(|t| {
            let d = t.depths();
            d.0 <= 32 && d.1 <= 32 && d.2 <= 32 && !d.3
        })
}

/// Reference signature parser: iterative, with an explicit stack.
pub fn parse_sig(b: &[u8]) -> Option<Vec<RT>> {
    if b.len() > 255 {
        return None;
    }
    enum F {
        Top(Vec<RT>),
        Arr,
        St(Vec<RT>),
        De(Vec<RT>),
    }
    let mut st = vec![F::Top(vec![])];
    let (mut da, mut ds, mut dd) = (0, 0, 0);
    for &c in b {
        // a dict entry takes exactly two
        if let Some(F::De(v)) = st.last() {
            if v.len() == 2 && c != b'}' {
                return None;
            }
        }
        let mut done = match c {
            b'a' => {
                da += 1;
                st.push(F::Arr);
                None
            }
            b'(' => {
                ds += 1;
                st.push(F::St(vec![]));
                None
            }
            b'{' => {
                dd += 1;
                st.push(F::De(vec![]));
                None
            }
            b')' => match st.pop() {
                Some(F::St(v)) if !v.is_empty() => {
                    ds -= 1;
                    Some(RT::S(v))
                }
                _ => return None,
            },
            b'}' => match st.pop() {
                Some(F::De(mut v)) if v.len() == 2 => {
                    dd -= 1;
                    let y = v.pop().unwrap();
                    let x = v.pop().unwrap();
                    Some(RT::D(Box::new((x, y))))
                }
                _ => return None,
            },
            c if BASIC.contains(&c) || c == b'v' => Some(RT::B(c)),
            _ => return None,
        };
        if da > 32 || ds > 32 || dd > 32 {
            return None;
        }
        while let Some(t) = done.take() {
            match st.last_mut().unwrap() {
                F::Top(v) | F::St(v) | F::De(v) => v.push(t),
                F::Arr => {
                    st.pop();
                    da -= 1;
                    done = Some(RT::A(Box::new(t)));
                }
            }
        }
    }
    match (st.len(), st.pop()) {
        (1, Some(F::Top(v))) => Some(v),
        _ => None,
    }
}

/// A D-Bus value. Doubles are kept as bits.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RV {
    Y(u8),
    B(bool),
    N(i16),
    Q(u16),
    I(i32),
    U(u32),
    X(i64),
    T(u64),
    D(u64),
    S(String),
    O(String),
    G(Vec<RT>),
    H(i32),
    A(RT, Vec<RV>),
    R(Vec<RV>),
    E(Box<(RV, RV)>),
    V(Box<RV>),
}
impl RV {
    pub fn ty(&self) -> RT {
        match self {
            RV::Y(_) => RT::B(b'y'),
            RV::B(_) => RT::B(b'b'),
            RV::N(_) => RT::B(b'n'),
            RV::Q(_) => RT::B(b'q'),
            RV::I(_) => RT::B(b'i'),
            RV::U(_) => RT::B(b'u'),
            RV::X(_) => RT::B(b'x'),
            RV::T(_) => RT::B(b't'),
            RV::D(_) => RT::B(b'd'),
            RV::S(_) => RT::B(b's'),
            RV::O(_) => RT::B(b'o'),
            RV::G(_) => RT::B(b'g'),
            RV::H(_) => RT::B(b'h'),
            RV::V(_) => RT::B(b'v'),
            RV::A(t, _) => RT::A(Box::new(t.clone())),
            RV::R(v) => RT::S(v.iter().map(|x| x.ty()).collect()),
            RV::E(p) => RT::D(Box::new((p.0.ty(), p.1.ty()))),
        }
    }
    pub fn walk(&self, f: &mut impl FnMut(&RV)) {
        f(self);
        match self {
            RV::A(_, v) | RV::R(v) => v.iter().for_each(|x| x.walk(f)),
            RV::E(p) => {
                p.0.walk(f);
                p.1.walk(f)
            }
            RV::V(v) => v.walk(f),
            _ => {}
        }
    }
    pub fn walk_mut(&mut self, f: &mut impl FnMut(&mut RV)) {
        f(self);
        match self {
            RV::A(_, v) | RV::R(v) => v.iter_mut().for_each(|x| x.walk_mut(f)),
            RV::E(p) => {
                p.0.walk_mut(f);
                p.1.walk_mut(f)
            }
            RV::V(v) => v.walk_mut(f),
            _ => {}
        }
    }
    pub fn variant_depth(&self) -> usize {
        match self {
            RV::V(v) => 1 + v.variant_depth(),
            RV::A(_, v) | RV::R(v) => v.iter().map(|x| x.variant_depth()).max().unwrap_or(0),
            RV::E(p) => p.0.variant_depth().max(p.1.variant_depth()),
            _ => 0,
        }
    }
    /// Equality as the library's users see it: doubles compare as numbers.
    pub fn num_eq(&self, o: &RV) -> bool {
        match (self, o) {
            (RV::D(a), RV::D(b)) => f64::from_bits(*a) == f64::from_bits(*b),
            (RV::A(t, a), RV::A(u, b)) => t == u && veq(a, b),
            (RV::R(a), RV::R(b)) => veq(a, b),
            (RV::E(a), RV::E(b)) => a.0.num_eq(&b.0) && a.1.num_eq(&b.1),
            (RV::V(a), RV::V(b)) => a.num_eq(b),
            _ => self == o,
        }
    }
}
pub fn veq(a: &[RV], b: &[RV]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.num_eq(y))
}

/// Kinds of names.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Interface,
    Member,
    Error,
    Unique,
    WellKnown,
    Bus,
    Path,
}
pub const KINDS: [Kind; 7] =
    [Kind::Interface, Kind::Member, Kind::Error, Kind::Unique, Kind::WellKnown, Kind::Bus, Kind::Path];

/// Reference name grammar, by splitting into elements.
pub fn valid_name(k: Kind, b: &[u8]) -> bool {
    let word = |c: &u8| c.is_ascii_alphanumeric() || *c == b'_';
    let wordh = |c: &u8| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'-';
    let digit = |e: &[u8]| e.first().map_or(false, |c| c.is_ascii_digit());
    if k != Kind::Path && b.len() > 255 {
        return false;
    }
    match k {
        Kind::Path => {
            b == b"/"
                || (b.first() == Some(&b'/')
                    && b[1..].split(|c| *c == b'/').all(|e| !e.is_empty() && e.iter().all(word)))
        }
        Kind::Member => !b.is_empty() && !digit(b) && b.iter().all(word),
        Kind::Interface | Kind::Error => {
            let es: Vec<&[u8]> = b.split(|c| *c == b'.').collect();
            es.len() >= 2 && es.iter().all(|e| !e.is_empty() && !digit(e) && e.iter().all(word))
        }
        Kind::WellKnown => {
            let es: Vec<&[u8]> = b.split(|c| *c == b'.').collect();
            es.len() >= 2 && es.iter().all(|e| !e.is_empty() && !digit(e) && e.iter().all(wordh))
        }
        Kind::Unique => {
            if b.first() != Some(&b':') {
                return false;
            }
            let es: Vec<&[u8]> = b[1..].split(|c| *c == b'.').collect();
            es.len() >= 2 && es.iter().all(|e| !e.is_empty() && e.iter().all(wordh))
        }
        Kind::Bus => {
            if b.first() == Some(&b':') {
                valid_name(Kind::Unique, b)
            } else {
                valid_name(Kind::WellKnown, b)
            }
        }
    }
}

/// Turn arbitrary bytes into a valid name of the kind.
pub fn fix_name(k: Kind, raw: &[u8]) -> String {
    let hy = matches!(k, Kind::Unique | Kind::WellKnown | Kind::Bus);
    let ch = |c: u8| -> u8 {
        if c.is_ascii_alphanumeric() || c == b'_' || (hy && c == b'-') {
            c
        } else {
            b"abcxyzABCXYZ0123_"[c as usize % 17]
        }
    };
    let k = match k {
        Kind::Bus if raw.first() == Some(&b':') => Kind::Unique,
        Kind::Bus => Kind::WellKnown,
        k => k,
    };
    let sep = if k == Kind::Path { b'/' } else { b'.' };
    let body: &[u8] = if k == Kind::Unique && raw.first() == Some(&b':') { &raw[1..] } else { raw };
    let nodigit = !matches!(k, Kind::Unique | Kind::Path);
    let mut es: Vec<Vec<u8>> = if k == Kind::Member {
        vec![body.iter().map(|c| ch(*c)).collect()]
    } else {
        body.split(|c| *c == sep).filter(|e| !e.is_empty()).map(|e| e.iter().map(|c| ch(*c)).collect()).collect()
    };
    if nodigit {
        for e in &mut es {
            if e[..].first().map_or(false, |c| c.is_ascii_digit()) {
                e[0] = b'_';
            }
        }
    }
    if k == Kind::Member {
        if es[0].is_empty() {
            es[0].push(b'm');
        }
        es[0].truncate(255);
        return String::from_utf8(es.pop().unwrap()).unwrap();
    }
    let mut s = String::new();
    match k {
        Kind::Path => {
            for e in &es {
                s.push('/');
                s.push_str(std::str::from_utf8(e).unwrap());
            }
            if s.is_empty() {
                s.push('/')
            }
        }
        _ => {
            while es.len() < 2 {
                es.push(b"n".to_vec());
            }
            let lim = if k == Kind::Unique { 254 } else { 255 };
            // keep whole elements while they fit, cut the last one
            let mut out: Vec<u8> = vec![];
            for (i, e) in es.iter().enumerate() {
                let room = lim - out.len();
                if i == 0 {
                    out.extend(&e[..e.len().min(lim - 2)]);
                } else if room >= 2 {
                    out.push(b'.');
                    out.extend(&e[..e.len().min(room - 1)]);
                }
            }
            if k == Kind::Unique {
                s.push(':');
            }
            s.push_str(std::str::from_utf8(&out).unwrap());
        }
    }
    debug_assert!(valid_name(k, s.as_bytes()), "{:?} {:?}", k, s);
    s
}

/// Content of a message.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RM {
    pub le: bool,
    pub ty: u8,
    pub flags: u8,
    pub ver: u8,
    pub serial: u32,
    pub path: Option<String>,
    pub interface: Option<String>,
    pub member: Option<String>,
    pub error_name: Option<String>,
    pub reply_serial: Option<u32>,
    pub destination: Option<String>,
    pub sender: Option<String>,
    pub unix_fds: Option<u32>,
    pub body: Vec<RV>,
}
impl RM {
    pub fn empty() -> RM {
        RM {
            le: true,
            ty: 1,
            flags: 0,
            ver: 1,
            serial: 0,
            path: None,
            interface: None,
            member: None,
            error_name: None,
            reply_serial: None,
            destination: None,
            sender: None,
            unix_fds: None,
            body: vec![],
        }
    }
    pub fn sig(&self) -> Vec<RT> {
        self.body.iter().map(|v| v.ty()).collect()
    }
    /// Distinct descriptors in order of first occurrence.
    pub fn fds(&self) -> Vec<i32> {
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        for v in &self.body {
            v.walk(&mut |x| {
                if let RV::H(fd) = x {
                    if seen.insert(*fd) {
                        out.push(*fd)
                    }
                }
            });
        }
        out
    }
    /// Header fields in ascending code order. `sig` is added when the body is not empty.
    pub fn fields(&self) -> Vec<(u8, RV)> {
        let mut f = vec![];
        let s = |x: &Option<String>, c: u8, f: &mut Vec<(u8, RV)>| {
            if let Some(x) = x {
                f.push((c, RV::S(x.clone())))
            }
        };
        if let Some(p) = &self.path {
            f.push((1, RV::O(p.clone())));
        }
        s(&self.interface, 2, &mut f);
        s(&self.member, 3, &mut f);
        s(&self.error_name, 4, &mut f);
        if let Some(r) = self.reply_serial {
            f.push((5, RV::U(r)));
        }
        s(&self.destination, 6, &mut f);
        s(&self.sender, 7, &mut f);
        if !self.body.is_empty() {
            f.push((8, RV::G(self.sig())));
        }
        if let Some(n) = self.unix_fds {
            f.push((9, RV::U(n)));
        }
        f
    }
    /// Field codes a type requires.
    pub fn required(ty: u8) -> &'static [u8] {
        match ty {
            1 => &[1, 3],
            2 => &[5],
            3 => &[4, 5],
            4 => &[1, 2, 3],
            _ => &[],
        }
    }
    pub fn has(&self, code: u8) -> bool {
        match code {
            1 => self.path.is_some(),
            2 => self.interface.is_some(),
            3 => self.member.is_some(),
            4 => self.error_name.is_some(),
            5 => self.reply_serial.is_some(),
            6 => self.destination.is_some(),
            7 => self.sender.is_some(),
            8 => !self.body.is_empty(),
            9 => self.unix_fds.is_some(),
            _ => false,
        }
    }
    pub fn clear(&mut self, code: u8) {
        match code {
            1 => self.path = None,
            2 => self.interface = None,
            3 => self.member = None,
            4 => self.error_name = None,
            5 => self.reply_serial = None,
            6 => self.destination = None,
            7 => self.sender = None,
            9 => self.unix_fds = None,
            _ => {}
        }
    }
}

/// Why the reference says a message must not encode (None: it must).
pub fn encode_limit(m: &RM) -> Option<&'static str> {
    fn vals(v: &RV, vd: usize) -> Option<&'static str> {
        match v {
            RV::G(ts) if !sig_ok(ts) => Some("signature value"),
            RV::V(x) => {
                if vd + 1 > 4 {
                    return Some("variant depth");
                }
                if !sig_ok(&[x.ty()]) {
                    return Some("variant signature");
                }
                vals(x, vd + 1)
            }
            RV::A(_, xs) | RV::R(xs) => xs.iter().find_map(|x| vals(x, vd)),
            RV::E(p) => vals(&p.0, vd).or_else(|| vals(&p.1, vd)),
            _ => None,
        }
    }
    if !sig_ok(&m.sig()) {
        return Some("body signature");
    }
    m.body.iter().find_map(|v| vals(v, 0))
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        write!(s, "{:02x}", x).unwrap();
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim().as_bytes();
    s.chunks(2).filter_map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()).collect()
}
/// Short description for evidence samples and violation messages.
pub fn brief(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    }
}
