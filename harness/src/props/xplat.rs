//! C29: the same operation in other builds of the library (without optimisation and with all
//! checks; optimised and without checks), each in a process of its own, gives what it gives here.
use super::ops::{self, Op};
use super::sizes;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use crate::rng::{hash_bytes, Rng};
use crate::ser;
use crate::tape::{Dict, Mirror, Src};
use crate::xsink;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Mutex, OnceLock};

struct Peer {
    name: &'static str,
    counter: &'static str,
    command: Vec<PathBuf>,
    /// operations with these flags are not for it
    not: u8,
    io: Option<(Child, ChildStdin, ChildStdout)>,
}
impl Peer {
    fn ask(&mut self, op: &[u8], log: bool) -> Result<Vec<u8>, String> {
        if self.io.is_none() {
            let mut c = Command::new(&self.command[0])
                .args(&self.command[1..])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap_or_else(|e| panic!("harness: {:?} cannot be started: {}", self.command, e));
            let (i, o) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
            self.io = Some((c, i, o));
        }
        let (_, i, o) = self.io.as_mut().unwrap();
        let mut talk = || -> std::io::Result<Vec<u8>> {
            let mut head = vec![if log { b'l' } else { b'h' }];
            head.extend_from_slice(&(op.len() as u32).to_le_bytes());
            i.write_all(&head)?;
            i.write_all(op)?;
            i.flush()?;
            let n = if log {
                let mut n = [0; 4];
                o.read_exact(&mut n)?;
                u32::from_le_bytes(n) as usize
            } else {
                8
            };
            let mut b = vec![0; n];
            o.read_exact(&mut b)?;
            Ok(b)
        };
        let r = talk();
        r.map_err(|_| {
            let (mut c, i, o) = self.io.take().unwrap();
            drop((i, o));
            format!("the {} build ends or hangs: {:?}", self.name, c.wait())
        })
    }
}
fn peers() -> &'static Mutex<Vec<Peer>> {
    static P: OnceLock<Mutex<Vec<Peer>>> = OnceLock::new();
    P.get_or_init(|| {
        // .build/<kind>/debug/vmon
        let exe = std::env::current_exe().unwrap();
        let b = exe.ancestors().nth(3).unwrap().join("xplat");
        let p = |name, counter, not, command| Peer { name, counter, not, command, io: None };
        let wasm = vec!["node".into(), b.join("serve.js"), b.join("xplat.wasm")];
        Mutex::new(vec![
            p("unoptimised, checking", "operations compared with the unoptimised build", 0, vec![b.join("debug/xplat")]),
            p("optimised, not checking", "operations compared with the optimised build", 0, vec![b.join("release/xplat")]),
            p("32-bit non-Unix", "operations compared with the 32-bit non-Unix build", xsink::NOT_WITHOUT_FDS | xsink::NOT_ON_32, wasm),
        ])
    })
}
fn first_difference(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("here {} there {}", brief(x, 300), brief(y, 300));
        }
    }
    format!("here {} results, there {}", a.lines().count(), b.lines().count())
}
fn one(op: &Op, c: &mut Ctx) -> Out {
    let raw = ser::op_bytes(op);
    c.key_bytes(&raw);
    let here = xsink::observe(op, false);
    let flags = xsink::flags(op, &here);
    for p in peers().lock().unwrap_or_else(|e| e.into_inner()).iter_mut() {
        if flags & p.not != 0 {
            continue;
        }
        let there = p.ask(&raw, false).map_err(|e| format!("{}: {}", e, brief(&format!("{:?}", op), 1500)))?;
        c.n(p.counter, 1);
        if there != here.h.to_le_bytes() {
            let a = xsink::observe(op, true).log.unwrap_or_default();
            let b = String::from_utf8_lossy(&p.ask(&raw, true)?).into_owned();
            return Err(format!("the {} build gives something else: {}: {}", p.name, first_difference(&a, &b), brief(&format!("{:?}", op), 1500)));
        }
    }
    c.n("results compared", here.items);
    c.n(&format!("kind {}", kind(op)), 1);
    Ok(())
}
pub fn kind(op: &Op) -> &'static str {
    match op {
        Op::Dec(..) => "decode",
        Op::Enc(_) => "build and encode",
        Op::Rule(_) => "match rule text",
        Op::Name(_) => "name",
        Op::Sig(_) => "signature",
        Op::Path(..) => "object path",
        Op::Match(..) => "matching",
        Op::Reply(..) => "replies",
        Op::Types(..) => "values",
        Op::Fields(_) => "header fields",
    }
}
pub fn c29(s: &mut Src, c: &mut Ctx) -> Out {
    let op = ops::gen_op(s);
    c.sample(|| format!("{:?}", op));
    one(&op, c)
}

// ---- enumerated: every four bytes of fixed messages replaced by numbers at the limits of what a
// word can hold, and messages of enumerated sizes

const WORDS: [u32; 12] =
    [u32::MAX, u32::MAX - 3, u32::MAX - 7, u32::MAX - 130, 0xffff_ff00, 0x8000_0000, 0x7fff_ffff, 0x7fff_fff8, 0x4000_0000, 0x0400_0000, 0x0800_0000, 0x00ff_fffd];
struct Fixed {
    bytes: Vec<u8>,
    le: bool,
}
fn fixed() -> &'static Vec<Fixed> {
    static F: OnceLock<Vec<Fixed>> = OnceLock::new();
    F.get_or_init(|| {
        let t = |s: &str| parse_sig(s.as_bytes()).unwrap();
        let mut v = vec![];
        for le in [true, false] {
            for k in 0..3 {
                let entry = RV::E(Box::new((RV::S("k".into()), RV::V(Box::new(RV::U(5))))));
                let m = RM {
                    le,
                    serial: 7,
                    ty: if k == 1 { 4 } else { 1 },
                    path: Some("/p/q".into()),
                    interface: Some("a.b".into()),
                    member: Some("m".into()),
                    sender: if k == 2 { Some(":1.2".into()) } else { None },
                    body: match k {
                        0 => vec![RV::S("text".into()), RV::A(t("{sv}").remove(0), vec![entry]), RV::O("/x".into()), RV::G(t("a{sv}"))],
                        1 => vec![],
                        _ => vec![
                            RV::A(t("t").remove(0), vec![RV::T(1), RV::T(2)]),
                            RV::R(vec![RV::Y(1), RV::V(Box::new(RV::A(t("y").remove(0), vec![RV::Y(3)])))]),
                            RV::A(t("as").remove(0), vec![RV::A(t("s").remove(0), vec![RV::S("z".into())])]),
                            RV::B(true),
                            RV::D(1.5f64.to_bits()),
                        ],
                    },
                    ..RM::empty()
                };
                let w = crate::wire::encode(&m, &(0..m.fields().len()).collect::<Vec<_>>(), false);
                v.push(Fixed { bytes: w.bytes, le });
            }
        }
        v
    })
}
fn words() -> u64 {
    fixed().iter().map(|f| ((f.bytes.len() - 3) * WORDS.len()) as u64).sum()
}
fn word(mut k: u64) -> (Op, bool) {
    for f in fixed() {
        let n = ((f.bytes.len() - 3) * WORDS.len()) as u64;
        if k < n {
            let (at, w) = (k as usize / WORDS.len(), WORDS[k as usize % WORDS.len()]);
            let mut b = f.bytes.clone();
            b[at..at + 4].copy_from_slice(&if f.le { w.to_le_bytes() } else { w.to_be_bytes() });
            return (Op::Dec(b, vec![]), at % 4 == 0);
        }
        k -= n;
    }
    unreachable!()
}
/// Of the messages of enumerated sizes one of three in the quick tier.
pub fn c29_enums(thorough: bool) -> u64 {
    words() + sizes::count(false) / if thorough { 1 } else { 3 }
}
pub fn enumerated(k: u64) -> Vec<Op> {
    if k < words() {
        return vec![word(k).0];
    }
    let Some(m) = sizes::get(k - words(), false) else { return vec![] };
    let w = crate::wire::encode(&m, &(0..m.fields().len()).collect::<Vec<_>>(), false);
    let fds = m.fds();
    vec![Op::Enc(m), Op::Dec(w.bytes, fds)]
}
pub fn c29_enum(k: u64, c: &mut Ctx) -> Out {
    for op in enumerated(k) {
        one(&op, c)?;
    }
    Ok(())
}

// ---- a list of operations for the platforms of which only an interpreter is there

/// Writes the list with what the operations give here; returns how many there are.
pub fn record(corpus: &Path, out: &Path, seed: u64, max: usize) -> Result<usize, String> {
    let mut ops: Vec<Op> = (0..words()).map(word).filter(|x| x.1).map(|x| x.0).collect();
    let mut tapes = vec![];
    for i in 0..64 {
        let Ok(b) = std::fs::read(corpus.join(format!("w{}.corpus", i))) else { continue };
        let mut b = &b[..];
        while b.len() > 2 {
            let n = u16::from_le_bytes([b[0], b[1]]) as usize;
            tapes.push(b[2..2 + n].to_vec());
            b = &b[2 + n..];
        }
    }
    let mut rng = Rng::new(seed ^ 29);
    let (dict, none) = (Dict::default(), Mirror::none());
    let kept = tapes.len();
    while tapes.len() < kept + 4000 {
        tapes.push((0..40).map(|_| rng.next() as u8).collect());
    }
    for mut t in tapes {
        let seed = rng.next();
        let mut s = Src::new(&mut t, seed, &dict, &none);
        ops.push(ops::gen_op(&mut s));
    }
    let mut seen = std::collections::HashSet::new();
    let mut list: Vec<(Op, Vec<u8>)> = ops.into_iter().map(|o| (ser::op_bytes(&o), o)).map(|(b, o)| (o, b)).collect();
    list.retain(|x| x.1.len() < 240 && seen.insert(hash_bytes(1, &x.1)));
    for i in (1..list.len()).rev() {
        list.swap(i, rng.below(i + 1));
    }
    list.truncate(max);
    let mut o = vec![];
    for (op, raw) in &list {
        let k = xsink::observe(op, false);
        o.push(xsink::flags(op, &k));
        o.extend_from_slice(&k.h.to_le_bytes());
        o.extend_from_slice(&(raw.len() as u32).to_le_bytes());
        o.extend_from_slice(raw);
    }
    std::fs::write(out, o).map_err(|e| e.to_string())?;
    ensure!(!list.is_empty(), "no operations");
    Ok(list.len())
}
/// What the `k`-th operation of the list gives here.
pub fn explain(list: &Path, k: usize) -> String {
    let b = std::fs::read(list).unwrap_or_default();
    let (mut at, mut i) = (0, 0);
    while at + 13 <= b.len() {
        let n = u32::from_le_bytes(b[at + 9..at + 13].try_into().unwrap()) as usize;
        if i == k {
            let op = ser::R(&b[at + 13..at + 13 + n]).op();
            return format!("OP {:?}\n{}", op, xsink::observe(&op, true).log.unwrap_or_default());
        }
        at += 13 + n;
        i += 1;
    }
    String::new()
}
