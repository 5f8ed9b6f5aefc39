//! C21: results depend on nothing but the arguments - not on the order of calls, on earlier calls,
//! or on other threads - and the values may be shared between threads.
use super::ops::{self, Digest, Op, Sink};
use crate::cov;
use crate::conv::{self, RR};
use crate::ctx::*;
use crate::driver;
use crate::gen;
use crate::model::*;
use crate::rng::hash_bytes;
use crate::tape::Src;
use crate::{bail, ensure};
use bytes::Bytes;
use dbus_message_parser::decode::DecodeError;
use dbus_message_parser::encode::EncodeError;
use dbus_message_parser::match_rule::{Arg, ArgPath, MatchRule, MatchRuleError};
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::marker::PhantomData;
use std::sync::Barrier;

/// Whether a type is Send / Sync, answered at run time: the inherent method exists only for Send
/// (Sync) types and is preferred over the method of the trait.
struct Is<T>(PhantomData<fn() -> T>);
trait No {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<T> No for Is<T> {}
struct IsSend<T>(PhantomData<fn() -> T>);
struct IsSync<T>(PhantomData<fn() -> T>);
impl<T> std::ops::Deref for IsSend<T> {
    type Target = Is<T>;
    fn deref(&self) -> &Is<T> {
        &Is(PhantomData)
    }
}
impl<T> std::ops::Deref for IsSync<T> {
    type Target = Is<T>;
    fn deref(&self) -> &Is<T> {
        &Is(PhantomData)
    }
}
impl<T: Send> IsSend<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Sync> IsSync<T> {
    fn sync(&self) -> bool {
        true
    }
}
macro_rules! auto {
    ($($t:ty),*) => {
        [$((stringify!($t), IsSend::<$t>(PhantomData).send(), IsSync::<$t>(PhantomData).sync())),*]
    };
}
fn shareable(c: &mut Ctx) -> Out {
    let v = auto!(
        Message, MessageHeader, MessageHeaderFields, MessageType, MessageFlags, Value, Type, Array, Struct, Interface,
        Member, Error, Bus, UniqueConnectionName, WellKnownBusName, ObjectPath, MatchRule, Arg, ArgPath, DecodeError,
        EncodeError, MatchRuleError, TypeError, ObjectPathError, InterfaceError, MemberError, BusError, ErrorError,
        MessageHeaderError, MessageHeaderFieldsError
    );
    for (n, send, sync) in v {
        ensure!(send && sync, "{} cannot be shared between threads: Send {}, Sync {}", n, send, sync);
    }
    // the probe itself
    let v2 = auto!(std::rc::Rc<u8>, std::cell::Cell<u8>);
    if v2.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>() != [(false, false), (true, false)] {
        eprintln!("harness: probe for Send and Sync is broken");
        std::process::exit(2);
    }
    c.n("types checked for Send and Sync", v.len() as u64);
    Ok(())
}
/// Lets a value be shared although the compiler cannot prove it (see `shareable`, which is checked
/// first).
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

fn one(o: &Op) -> u64 {
    let mut d = Digest::new(false);
    ops::run(o, &mut d);
    d.h
}
/// Where two runs differ.
fn explain(o: &Op, want: u64) -> String {
    let mut d = Digest::new(true);
    ops::run(o, &mut d);
    let again = if d.h == want { "as the first run again" } else { "different from the first run, now" };
    format!("operation {}; a further run is {}: {}", brief(&format!("{:?}", o), 600), again, brief(&d.log.unwrap_or_default(), 600))
}
fn shared(m: &Message, rs: &[MatchRule], b: &Bytes, fds: &[i32], k: &mut Digest) {
    ops::message(m, k);
    ops::encode(m, k);
    ops::replies(m, k);
    ops::match_all(rs, m, k);
    k.text("printed", &MatchRule::encode(rs));
    ops::decode_bytes(b, fds, k);
    let n = m.clone();
    k.text("cmp", &format!("{:?}", n.partial_cmp(m)));
    let (a, b) = (n.split(), m.clone().split());
    k.text("split", if a == b { "=" } else { "!" });
}
const THREADS: usize = 4;

pub fn c21(s: &mut Src, c: &mut Ctx) -> Out {
    if c.evals % 500 == 0 {
        shareable(c)?;
    }
    let n = 2 + s.below(4);
    let mut v: Vec<Op> = (0..n).map(|_| ops::gen_op(s)).collect();
    if s.chance(80) {
        // the same thing twice in a batch, or almost
        let o = match &v[0] {
            Op::Dec(b, f) => {
                let mut b = b.clone();
                if !b.is_empty() {
                    let i = s.below(b.len());
                    b[i] ^= 1 << s.below(8);
                }
                Op::Dec(b, f.clone())
            }
            Op::Enc(m) => {
                let mut m = m.clone();
                m.le = !m.le;
                Op::Enc(m)
            }
            o => o.clone(),
        };
        v.push(o);
    }
    c.sample(|| format!("{:?}", v));
    c.key(hash_bytes(13, format!("{:?}", v).as_bytes()));
    let first: Vec<u64> = v.iter().map(one).collect();
    for (i, o) in v.iter().enumerate().rev() {
        ensure!(one(o) == first[i], "the result depends on the order of the calls: {}", explain(o, first[i]));
    }
    c.n("operations repeated in another order", v.len() as u64);
    // earlier cases
    if !c.store.is_empty() {
        let k = c.evals as usize % c.store.len();
        let (o, h) = c.store[k].clone();
        ensure!(one(&o) == h, "the result depends on calls made in between: {}", explain(&o, h));
        c.n("operations of earlier cases repeated", 1);
    }
    let k = c.evals as usize % v.len();
    let e = (v[k].clone(), first[k]);
    if c.store.len() < 200 {
        c.store.push(e);
    } else {
        let i = c.evals as usize * 7 % 200;
        c.store[i] = e;
    }
    if !s.chance(110) {
        return Ok(());
    }
    // concurrently, on shared values
    let m = gen::message(s);
    let nr = s.size(4);
    let rules: Vec<RR> = (0..nr).map(|_| gen::rule(s, Some(&m))).collect();
    let w = crate::wire::encode(&m, &[], false);
    let (msg, rules) = match (conv::msg(&m), conv::rules(&rules)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => {
            c.n("skipped: not constructible", 1);
            return Ok(());
        }
    };
    let fds: Vec<i32> = m.fds();
    let sh = Share((msg, rules, Bytes::from(w.bytes), fds));
    let sum = || {
        let mut d = Digest::new(false);
        shared(&sh.0 .0, &sh.0 .1, &sh.0 .2, &sh.0 .3, &mut d);
        d.h
    };
    let alone = sum();
    let on = cov::pause();
    let bar = Barrier::new(THREADS);
    let r: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let sh = &sh;
        let (v, first, bar) = (&v, &first, &bar);
        let hs: Vec<_> = (0..THREADS)
            .map(|t| {
                sc.spawn(move || -> Out {
                    bar.wait();
                    for i in 0..v.len() {
                        let i = (i + t) % v.len();
                        let h = one(&v[i]);
                        ensure!(h == first[i], "the result differs while other threads run: {}", explain(&v[i], first[i]));
                    }
                    let sh = &sh.0;
                    for _ in 0..2 {
                        let mut d = Digest::new(false);
                        shared(&sh.0, &sh.1, &sh.2, &sh.3, &mut d);
                        if d.h != alone {
                            bail!("operations on a shared message give something else while other threads run");
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(driver::last_panic()))).collect()
    });
    cov::resume(on);
    for x in r {
        x?;
    }
    ensure!(sum() == alone, "operations on a shared message give something else afterwards: {:?}", m);
    c.n("operations run on 4 threads at once", (THREADS * v.len()) as u64);
    c.n("concurrent uses of shared messages, rules and buffers", (THREADS * 2) as u64);
    Ok(())
}
