//! C29: what an operation gives, in a form that can be compared between builds and platforms.
use crate::conv::RR;
use crate::ops_core::{run, Op, Sink};
use crate::rng::hash_bytes;
use dbus_message_parser::decode::DecodeError;
use std::fmt::Write;

pub struct XSink {
    pub h: u64,
    pub items: u64,
    /// something about file descriptors was handed out
    pub fd: bool,
    /// a text was not in ASCII: how it is shown depends on the version of the tables of Unicode
    pub unicode: bool,
    pub log: Option<String>,
}
/// Whether the text has an index behind "arg" that needs more than 32 bits: refused everywhere, but
/// as no number at all where words are shorter.
fn long_index(t: &str) -> bool {
    t.match_indices("arg").any(|(i, _)| {
        let d: String = t[i + 3..].chars().take_while(|c| c.is_ascii_digit()).collect();
        let d = d.trim_start_matches('0');
        d.len() > 10 || d.parse::<u64>().map_or(false, |x| x > u32::MAX as u64)
    })
}
impl Sink for XSink {
    fn text(&mut self, what: &str, s: &str) {
        self.unicode |= !s.is_ascii();
        self.fd |= s.contains("UnixFD") || s.contains("unix_fds: Some");
        // a field which not every platform has
        if s.contains(", unix_fds: None") {
            self.bytes(what, s.replace(", unix_fds: None", "").as_bytes())
        } else {
            self.bytes(what, s.as_bytes())
        }
    }
    fn bytes(&mut self, what: &str, b: &[u8]) {
        self.items += 1;
        self.h = hash_bytes(hash_bytes(self.h, what.as_bytes()), b);
        if let Some(l) = &mut self.log {
            let _ = writeln!(l, "{}: {}", what, String::from_utf8_lossy(b).replace('\n', "\\n"));
        }
    }
    fn refused(&mut self, e: &DecodeError) {
        match e {
            // the end of the declared extent cannot be told where addresses have 32 bits
            DecodeError::IntegerOverflow(a, b) if *a as u64 + *b as u64 > u32::MAX as u64 && *a as u64 + (*b as u64) < 1 << 33 => {
                self.text("decode error", "the extent exceeds 32 bits")
            }
            DecodeError::NotEnoughBytes(_, n) | DecodeError::BodyLength(n, _) if *n as u64 > u32::MAX as u64 => {
                self.text("decode error", "the extent exceeds 32 bits")
            }
            e => {
                self.show("decode error", e);
                self.disp("decode error", e);
            }
        }
    }
    fn indices(&mut self, t: &str) -> Vec<usize> {
        vec![t.len(), 0, 9, 10, 62, 63, 64, 65, 1 << 31, u32::MAX as usize]
    }
    fn rule(&mut self, t: &str) -> bool {
        if long_index(t) {
            let r = dbus_message_parser::match_rule::MatchRule::decode(t);
            self.text("rules with a huge index", if r.is_ok() { "taken" } else { "refused" });
            return false;
        }
        true
    }
}
/// Runs the operation; a panic is a result like any other.
pub fn observe(op: &Op, log: bool) -> XSink {
    let mut k = XSink { h: 1, items: 0, fd: false, unicode: false, log: if log { Some(String::new()) } else { None } };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(op, &mut k)));
    if r.is_err() {
        k.bytes("panic", b"");
    }
    k
}
pub const NOT_WITHOUT_FDS: u8 = 1;
pub const NOT_ON_32: u8 = 2;
pub const NOT_WITH_OTHER_STD: u8 = 4;
/// Where the result of the operation cannot be compared, seen from a platform that has everything.
pub fn flags(op: &Op, k: &XSink) -> u8 {
    let mut f = 0;
    let has = |b: &[u8]| b.contains(&b'h');
    let fd = k.fd
        || match op {
            // only what is taken is known to have no descriptors
            Op::Dec(b, _) => has(b) || b.contains(&9),
            Op::Sig(b) => has(b),
            Op::Enc(_) | Op::Match(..) | Op::Reply(..) | Op::Types(..) | Op::Fields(_) => {
                let t = format!("{:?}", op);
                t.contains("H(") || t.contains("B(104)") || t.contains("unix_fds: Some") || (matches!(op, Op::Fields(_)) && t.contains("Y(9)"))
            }
            _ => false,
        };
    if fd {
        f |= NOT_WITHOUT_FDS;
    }
    if k.unicode || format!("{:?}", op).contains("\\u{") {
        f |= NOT_WITH_OTHER_STD;
    }
    if let Op::Match(rs, _) = op {
        if rs.iter().any(|r| matches!(r, RR::Arg(i, _) | RR::ArgPath(i, _) if *i as u64 > u32::MAX as u64)) {
            f |= NOT_ON_32;
        }
    }
    f
}
