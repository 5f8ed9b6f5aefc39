//! Generation of operations on arbitrary input, shared by C07, C21, C22 and C29.
use crate::conv::RR;
use crate::gen;
use crate::model::*;
pub use crate::ops_core::*;
use crate::tape::Src;

pub fn gen_op(s: &mut Src) -> Op {
    match s.below(16) {
        0..=3 => {
            let (b, f) = super::wirep::hostile_bytes(s);
            Op::Dec(b, f)
        }
        4 | 5 => Op::Enc(gen::message_any(s)),
        6 => Op::Enc(gen::message(s)),
        7 | 8 => Op::Rule(super::text::rule_text(s)),
        9 => {
            let k = KINDS[s.below(7)];
            Op::Name(gen::name_any(s, k))
        }
        10 => Op::Sig(super::text::sig_bytes(s)),
        11 => {
            let a = gen::name(s, Kind::Path);
            let b = gen::below_of(s, &a, '/');
            let n = s.size(6);
            let es = (0..n).map(|_| if s.chance(128) { gen::text(s) } else { gen::name(s, Kind::Member) }).collect();
            Op::Path(a, b, es)
        }
        12 => {
            let m = gen::message(s);
            let n = s.size(4);
            let rs = (0..n)
                .map(|_| match gen::rule(s, Some(&m)) {
                    RR::ArgPath(i, p) => RR::ArgPath(gen::any_index(s, i), p),
                    r => r,
                })
                .collect();
            Op::Match(rs, m)
        }
        13 => {
            let m = gen::message(s);
            let t = gen::text(s);
            Op::Reply(m, t)
        }
        14 => {
            let t = gen::rtype_any(s);
            let mut f = gen::fuel(s);
            let n = s.size(4);
            let vs = (0..n).map(|_| gen::value_any(s, &mut f)).collect();
            Op::Types(t, vs)
        }
        _ => Op::Fields(super::msg::field_values(s).0),
    }
}
