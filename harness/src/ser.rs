//! Operations as bytes, to hand them to another process.
use crate::conv::RR;
use crate::model::*;
use crate::ops_core::Op;

pub struct W(pub Vec<u8>);
impl W {
    fn u(&mut self, x: u64) {
        self.0.extend_from_slice(&x.to_le_bytes());
    }
    fn n(&mut self, x: usize) {
        self.0.extend_from_slice(&(x as u32).to_le_bytes());
    }
    fn b(&mut self, x: &[u8]) {
        self.n(x.len());
        self.0.extend_from_slice(x);
    }
    fn c(&mut self, x: u8) {
        self.0.push(x);
    }
    fn os(&mut self, x: &Option<String>) {
        match x {
            None => self.c(0),
            Some(s) => {
                self.c(1);
                self.b(s.as_bytes())
            }
        }
    }
    fn ou(&mut self, x: Option<u32>) {
        match x {
            None => self.c(0),
            Some(s) => {
                self.c(1);
                self.n(s as usize)
            }
        }
    }
    fn ty(&mut self, t: &RT) {
        match t {
            RT::B(c) => self.c(*c),
            RT::A(t) => {
                self.c(b'a');
                self.ty(t)
            }
            RT::S(ts) => {
                self.c(b'(');
                self.tys(ts)
            }
            RT::D(p) => {
                self.c(b'{');
                self.ty(&p.0);
                self.ty(&p.1)
            }
        }
    }
    fn tys(&mut self, ts: &[RT]) {
        self.n(ts.len());
        ts.iter().for_each(|t| self.ty(t));
    }
    fn val(&mut self, v: &RV) {
        match v {
            RV::Y(x) => {
                self.c(b'y');
                self.c(*x)
            }
            RV::B(x) => {
                self.c(b'b');
                self.c(*x as u8)
            }
            RV::N(x) => {
                self.c(b'n');
                self.u(*x as u64)
            }
            RV::Q(x) => {
                self.c(b'q');
                self.u(*x as u64)
            }
            RV::I(x) => {
                self.c(b'i');
                self.u(*x as u64)
            }
            RV::U(x) => {
                self.c(b'u');
                self.u(*x as u64)
            }
            RV::X(x) => {
                self.c(b'x');
                self.u(*x as u64)
            }
            RV::T(x) => {
                self.c(b't');
                self.u(*x)
            }
            RV::D(x) => {
                self.c(b'd');
                self.u(*x)
            }
            RV::S(x) => {
                self.c(b's');
                self.b(x.as_bytes())
            }
            RV::O(x) => {
                self.c(b'o');
                self.b(x.as_bytes())
            }
            RV::G(x) => {
                self.c(b'g');
                self.tys(x)
            }
            RV::H(x) => {
                self.c(b'h');
                self.u(*x as u64)
            }
            RV::A(t, xs) => {
                self.c(b'a');
                self.ty(t);
                self.vals(xs)
            }
            RV::R(xs) => {
                self.c(b'(');
                self.vals(xs)
            }
            RV::E(p) => {
                self.c(b'{');
                self.val(&p.0);
                self.val(&p.1)
            }
            RV::V(x) => {
                self.c(b'v');
                self.val(x)
            }
        }
    }
    fn vals(&mut self, vs: &[RV]) {
        self.n(vs.len());
        vs.iter().for_each(|v| self.val(v));
    }
    fn msg(&mut self, m: &RM) {
        for x in [m.le as u8, m.ty, m.flags, m.ver] {
            self.c(x);
        }
        self.n(m.serial as usize);
        for x in [&m.path, &m.interface, &m.member, &m.error_name, &m.destination, &m.sender] {
            self.os(x);
        }
        self.ou(m.reply_serial);
        self.ou(m.unix_fds);
        self.vals(&m.body);
    }
    fn rule(&mut self, r: &RR) {
        let (c, i, s): (u8, u64, &str) = match r {
            RR::Type(t) => (0, *t as u64, ""),
            RR::Sender(s) => (1, 0, s),
            RR::Interface(s) => (2, 0, s),
            RR::Member(s) => (3, 0, s),
            RR::Path(s) => (4, 0, s),
            RR::PathNs(s) => (5, 0, s),
            RR::Dest(s) => (6, 0, s),
            RR::Arg(i, s) => (7, *i as u64, s),
            RR::ArgPath(i, s) => (8, *i as u64, s),
            RR::Arg0Ns(s) => (9, 0, s),
            RR::Eaves(b) => (10, *b as u64, ""),
        };
        self.c(c);
        self.u(i);
        self.b(s.as_bytes());
    }
    pub fn op(&mut self, o: &Op) {
        match o {
            Op::Dec(b, f) => {
                self.c(0);
                self.b(b);
                self.n(f.len());
                f.iter().for_each(|x| self.u(*x as u64));
            }
            Op::Enc(m) => {
                self.c(1);
                self.msg(m)
            }
            Op::Rule(t) => {
                self.c(2);
                self.b(t.as_bytes())
            }
            Op::Name(b) => {
                self.c(3);
                self.b(b)
            }
            Op::Sig(b) => {
                self.c(4);
                self.b(b)
            }
            Op::Path(a, b, es) => {
                self.c(5);
                self.b(a.as_bytes());
                self.b(b.as_bytes());
                self.n(es.len());
                es.iter().for_each(|e| self.b(e.as_bytes()));
            }
            Op::Match(rs, m) => {
                self.c(6);
                self.n(rs.len());
                rs.iter().for_each(|r| self.rule(r));
                self.msg(m)
            }
            Op::Reply(m, t) => {
                self.c(7);
                self.msg(m);
                self.b(t.as_bytes())
            }
            Op::Types(t, vs) => {
                self.c(8);
                self.ty(t);
                self.vals(vs)
            }
            Op::Fields(vs) => {
                self.c(9);
                self.vals(vs)
            }
        }
    }
}
pub fn op_bytes(o: &Op) -> Vec<u8> {
    let mut w = W(vec![]);
    w.op(o);
    w.0
}

/// Reads what `W` wrote; anything else is a fault of the harness.
pub struct R<'a>(pub &'a [u8]);
impl R<'_> {
    fn c(&mut self) -> u8 {
        let x = self.0[0];
        self.0 = &self.0[1..];
        x
    }
    fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn n(&mut self) -> usize {
        let (a, b) = self.0.split_at(4);
        self.0 = b;
        u32::from_le_bytes(a.try_into().unwrap()) as usize
    }
    fn b(&mut self) -> Vec<u8> {
        let n = self.n();
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
    fn s(&mut self) -> String {
        String::from_utf8(self.b()).unwrap()
    }
    fn os(&mut self) -> Option<String> {
        if self.c() == 0 {
            None
        } else {
            Some(self.s())
        }
    }
    fn ou(&mut self) -> Option<u32> {
        if self.c() == 0 {
            None
        } else {
            Some(self.n() as u32)
        }
    }
    fn many<T>(&mut self, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let n = self.n();
        (0..n).map(|_| f(self)).collect()
    }
    fn ty(&mut self) -> RT {
        match self.c() {
            b'a' => RT::A(Box::new(self.ty())),
            b'(' => RT::S(self.many(|r| r.ty())),
            b'{' => {
                let k = self.ty();
                RT::D(Box::new((k, self.ty())))
            }
            c => RT::B(c),
        }
    }
    fn val(&mut self) -> RV {
        match self.c() {
            b'y' => RV::Y(self.c()),
            b'b' => RV::B(self.c() != 0),
            b'n' => RV::N(self.u() as i16),
            b'q' => RV::Q(self.u() as u16),
            b'i' => RV::I(self.u() as i32),
            b'u' => RV::U(self.u() as u32),
            b'x' => RV::X(self.u() as i64),
            b't' => RV::T(self.u()),
            b'd' => RV::D(self.u()),
            b's' => RV::S(self.s()),
            b'o' => RV::O(self.s()),
            b'g' => RV::G(self.many(|r| r.ty())),
            b'h' => RV::H(self.u() as i32),
            b'a' => {
                let t = self.ty();
                RV::A(t, self.many(|r| r.val()))
            }
            b'(' => RV::R(self.many(|r| r.val())),
            b'{' => {
                let k = self.val();
                RV::E(Box::new((k, self.val())))
            }
            b'v' => RV::V(Box::new(self.val())),
            c => panic!("value {}", c),
        }
    }
    fn msg(&mut self) -> RM {
        let (le, ty, flags, ver) = (self.c() != 0, self.c(), self.c(), self.c());
        let serial = self.n() as u32;
        let (path, interface, member) = (self.os(), self.os(), self.os());
        let (error_name, destination, sender) = (self.os(), self.os(), self.os());
        let (reply_serial, unix_fds) = (self.ou(), self.ou());
        let body = self.many(|r| r.val());
        RM { le, ty, flags, ver, serial, path, interface, member, error_name, reply_serial, destination, sender, unix_fds, body }
    }
    fn rule(&mut self) -> RR {
        let (c, i, s) = (self.c(), self.u(), self.s());
        match c {
            0 => RR::Type(i as u8),
            1 => RR::Sender(s),
            2 => RR::Interface(s),
            3 => RR::Member(s),
            4 => RR::Path(s),
            5 => RR::PathNs(s),
            6 => RR::Dest(s),
            7 => RR::Arg(i as usize, s),
            8 => RR::ArgPath(i as usize, s),
            9 => RR::Arg0Ns(s),
            _ => RR::Eaves(i != 0),
        }
    }
    pub fn op(&mut self) -> Op {
        match self.c() {
            0 => {
                let b = self.b();
                Op::Dec(b, self.many(|r| r.u() as i32))
            }
            1 => Op::Enc(self.msg()),
            2 => Op::Rule(self.s()),
            3 => Op::Name(self.b()),
            4 => Op::Sig(self.b()),
            5 => {
                let (a, b) = (self.s(), self.s());
                Op::Path(a, b, self.many(|r| r.s()))
            }
            6 => {
                let rs = self.many(|r| r.rule());
                Op::Match(rs, self.msg())
            }
            7 => {
                let m = self.msg();
                Op::Reply(m, self.s())
            }
            8 => {
                let t = self.ty();
                Op::Types(t, self.many(|r| r.val()))
            }
            9 => Op::Fields(self.many(|r| r.val())),
            c => panic!("operation {}", c),
        }
    }
}
