//! Parent process: starts workers, confirms crashes, merges results, writes evidence.
//! Worker process: enumerated cases, then coverage-guided tape fuzzing.
use crate::ctx::*;
use crate::model::{brief, hex, unhex};
use crate::rng::Rng;
use crate::tape::{mutate, Dict, Mirror, Src};
use crate::{alloc, cov};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

static PANIC: Mutex<String> = Mutex::new(String::new());
pub const MIRROR: usize = 1 << 20;

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let l = i.location().map(|l| l.to_string()).unwrap_or_default();
        if let Ok(mut p) = PANIC.lock() {
            *p = format!("panic at {}: {}", l, m);
        }
    }));
}
/// CPU time of the process in seconds.
pub fn cpu() -> f64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(2, &mut t) };
    t.s as f64 + t.n as f64 / 1e9
}
/// CPU limit of a single case; work which executes no edges of the library is not seen by the edge
/// limit.
pub const CASE_CPU: f64 = 90.0;
pub const EXIT_CPU: i32 = 79;
static STARTED: AtomicU64 = AtomicU64::new(u64::MAX);
fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = STARTED.load(Relaxed);
        if s != u64::MAX && cpu() - s as f64 / 1e3 > CASE_CPU {
            std::process::exit(EXIT_CPU);
        }
    });
}
fn started(on: bool) {
    STARTED.store(if on { (cpu() * 1e3) as u64 } else { u64::MAX }, Relaxed);
}
pub fn last_panic() -> String {
    PANIC.lock().map(|p| p.clone()).unwrap_or_default()
}
/// Run one case; a panic is a violation.
pub fn guard(f: impl FnOnce() -> Out) -> Out {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    }
}
fn run_tape(p: &Prop, c: &mut Ctx, tape: &mut Vec<u8>, seed: u64, m: &Mirror) -> (Out, usize) {
    m.start(1, 0, tape);
    let dict = std::mem::take(&mut c.dict);
    let mut s = Src::new(tape, seed, &dict, m);
    started(true);
    cov::begin(p.steps);
    let r = guard(|| (p.case)(&mut s, c));
    cov::end();
    started(false);
    let used = s.used();
    c.dict = dict;
    (r, used)
}
fn run_enum(p: &Prop, c: &mut Ctx, n: u64, m: &Mirror) -> Out {
    m.start(2, n, &[]);
    started(true);
    cov::begin(p.steps.saturating_mul(50));
    let r = guard(|| (p.enum_case)(n, c));
    cov::end();
    started(false);
    r
}

fn mine(repo: &str, d: &mut Dict) {
    fn walk(p: &Path, f: &mut Vec<PathBuf>) {
        if let Ok(rd) = std::fs::read_dir(p) {
            let mut es: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            es.sort();
            for e in es {
                if e.is_dir() {
                    walk(&e, f)
                } else if e.extension().map_or(false, |x| x == "rs") && !e.ends_with("tests.rs") {
                    f.push(e)
                }
            }
        }
    }
    let mut fs = vec![];
    walk(&Path::new(repo).join("src"), &mut fs);
    let mut nums = std::collections::BTreeSet::new();
    let mut strs = std::collections::BTreeSet::new();
    for f in fs {
        let Ok(t) = std::fs::read(&f) else { continue };
        scan(&t, &mut nums, &mut strs);
    }
    for s in &strs {
        nums.insert(s.len() as u64);
    }
    d.nums = nums.into_iter().collect();
    d.strs = strs.into_iter().collect();
}
fn scan(t: &[u8], nums: &mut std::collections::BTreeSet<u64>, strs: &mut std::collections::BTreeSet<Vec<u8>>) {
    let n = t.len();
    let mut i = 0;
    while i < n {
        let c = t[i];
        if c == b'/' && i + 1 < n && t[i + 1] == b'/' {
            while i < n && t[i] != b'\n' {
                i += 1
            }
        } else if c == b'"' || c == b'\'' {
            // char literals are at most a few bytes; otherwise a lifetime
            if c == b'\'' {
                let close = if i + 1 < n && t[i + 1] == b'\\' {
                    t[i + 2..n.min(i + 12)].iter().skip(1).position(|x| *x == b'\'').map(|p| i + 3 + p)
                } else {
                    t[(i + 1).min(n)..n.min(i + 6)].iter().position(|x| *x == b'\'').map(|p| i + 1 + p)
                };
                if close.is_none() {
                    i += 1;
                    continue;
                }
            }
            let q = c;
            i += 1;
            let mut o = vec![];
            while i < n && t[i] != q {
                if t[i] == b'\\' && i + 1 < n {
                    i += 1;
                    match t[i] {
                        b'n' => o.push(b'\n'),
                        b'r' => o.push(b'\r'),
                        b't' => o.push(b'\t'),
                        b'0' => o.push(0),
                        b'x' if i + 2 < n => {
                            let h = std::str::from_utf8(&t[i + 1..i + 3]).ok().and_then(|s| u8::from_str_radix(s, 16).ok());
                            o.push(h.unwrap_or(b'x'));
                            i += 2;
                        }
                        x => o.push(x),
                    }
                } else {
                    o.push(t[i]);
                }
                i += 1;
            }
            i += 1;
            if o.len() <= 300 {
                if q == b'\'' && o.len() == 1 {
                    nums.insert(o[0] as u64);
                }
                strs.insert(o);
            }
        } else if c.is_ascii_digit() && (i == 0 || !(t[i - 1].is_ascii_alphanumeric() || t[i - 1] == b'_')) {
            let mut j = i;
            while j < n && (t[j].is_ascii_alphanumeric() || t[j] == b'_') {
                j += 1
            }
            let s: String = String::from_utf8_lossy(&t[i..j]).replace('_', "").to_lowercase();
            let v = if let Some(h) = s.strip_prefix("0x") {
                u64::from_str_radix(h.trim_end_matches("u32").trim_end_matches("u8").trim_end_matches("usize"), 16).ok()
            } else if let Some(b) = s.strip_prefix("0b") {
                u64::from_str_radix(b, 2).ok()
            } else {
                let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
                s[..e].parse().ok()
            };
            if let Some(v) = v {
                nums.insert(v);
            }
            i = j;
        } else {
            i += 1;
        }
    }
}

pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub secs: f64,
    pub workers: usize,
    pub idx: usize,
    pub dir: PathBuf,
    pub tier: String,
    pub repo: String,
    pub evidence: Option<PathBuf>,
    pub replays: PathBuf,
    pub build: String,
    pub extra: Vec<(String, String)>,
    pub max_cases: u64,
    /// directory the corpora are left in
    pub keep: PathBuf,
}

fn map_mirror(path: &Path) -> Mirror {
    extern "C" {
        fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    }
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len(MIRROR as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), MIRROR, 3, 1, f.as_raw_fd(), 0) };
    if p as isize == -1 {
        return Mirror::none();
    }
    Mirror::new(p, MIRROR)
}

#[derive(Clone)]
pub struct Found {
    pub kind: String,
    pub n: u64,
    pub tape: Vec<u8>,
    pub what: String,
    pub history: Vec<Vec<u8>>,
}
fn write_replay(path: &Path, id: &str, f: &Found, seed: u64, idx: usize, cases: u64) {
    let h: Vec<String> = f.history.iter().map(|t| hex(t)).collect();
    let t = format!(
        "property={}\nkind={}\nn={}\nwhat={}\ntape={}\nseed={}\nworker={}\ncases={}\nhistory={}\n",
        id,
        f.kind,
        f.n,
        f.what.replace('\n', "\\n"),
        hex(&f.tape),
        seed,
        idx,
        cases,
        h.join(",")
    );
    let _ = std::fs::write(path, t);
}

/// Worker body; runs on a thread with a big stack.
pub fn worker(p: &Prop, a: &Args) -> i32 {
    install_panic_hook();
    watchdog();
    let mirror = map_mirror(&a.dir.join(format!("w{}.tape", a.idx)));
    let mut c = Ctx::new();
    c.thorough = a.tier == "thorough";
    c.slow = a.build != "cov";
    c.repo = a.repo.clone();
    c.worker = a.idx;
    mine(&a.repo, &mut c.dict);
    alloc::set_cap(3 << 30);
    let t0 = Instant::now();
    let mut found: Option<Found> = None;
    let mut history: VecDeque<Vec<u8>> = VecDeque::new();
    let mut enum_done = 0u64;
    let mut feats = vec![0u8; cov::MAXFEAT];
    let mut edges: HashSet<usize> = HashSet::new();
    let mut nfeat = 0usize;
    let total = (p.enums)(c.thorough);
    let mut n = a.idx as u64;
    while n < total {
        let r = run_enum(p, &mut c, n, &mirror);
        c.evals += 1;
        enum_done += 1;
        cov::features(|g, f| {
            edges.insert(g);
            if feats[f] == 0 {
                feats[f] = 1;
                nfeat += 1;
            }
        });
        cov::cmps(|v| c.dict.learn(v));
        if let Err(e) = r {
            found = Some(Found { kind: "enum".into(), n, tape: vec![], what: e, history: vec![] });
            break;
        }
        n += a.workers as u64;
    }
    let mut corpus: Vec<Vec<u8>> = vec![];
    let mut cases = 0u64;
    let mut rng = Rng::new(a.seed.wrapping_mul(0x1_0001).wrapping_add(a.idx as u64 + 1));
    let t1 = Instant::now();
    while found.is_none() && t1.elapsed().as_secs_f64() < a.secs && cases < a.max_cases {
        let mut tape = vec![];
        if !corpus.is_empty() && rng.below(3) != 0 {
            // prefer recent entries
            let k = if rng.chance(100) { corpus.len() - 1 - rng.below(corpus.len().min(32)) } else { rng.below(corpus.len()) };
            tape = corpus[k].clone();
            let o = rng.below(corpus.len());
            mutate(&mut tape, &corpus[o], &mut rng, &c.dict);
        }
        let seed = rng.next();
        let (r, used) = run_tape(p, &mut c, &mut tape, seed, &mirror);
        c.evals += 1;
        cases += 1;
        tape.truncate(used.max(1));
        let mut new = false;
        cov::features(|g, f| {
            if feats[f] == 0 {
                feats[f] = 1;
                nfeat += 1;
                edges.insert(g);
                new = true;
            }
        });
        cov::cmps(|v| c.dict.learn(v));
        if let Err(e) = r {
            found = Some(Found { kind: "tape".into(), n: 0, tape, what: e, history: history.iter().cloned().collect() });
            break;
        }
        if new && tape.len() < 1 << 16 && corpus.len() < 6000 {
            corpus.push(tape.clone());
        }
        if tape.len() < 1 << 14 {
            history.push_back(tape);
            if history.len() > 32 {
                history.pop_front();
            }
        }
    }
    let mut code = 0;
    if let Some(f) = found {
        let path = a.replays.join(format!("{}-{}-w{}.replay", a.prop, a.build, a.idx));
        write_replay(&path, &a.prop, &f, a.seed, a.idx, cases);
        println!("FOUND {} {}", path.display(), brief(&f.what, 1500).replace('\n', "\\n"));
        let _ = std::io::stdout().flush();
        if f.kind == "tape" {
            let g = shrink(p, &mut c, f, &mirror);
            write_replay(&path, &a.prop, &g, a.seed, a.idx, cases);
        }
        code = 1;
    }
    if !a.keep.as_os_str().is_empty() {
        // inputs for the runs under slow instrumentation
        // few and short tapes which reach every edge that was reached: the cheapest first
        let mut ts: Vec<(Vec<u8>, Vec<usize>, u64)> = vec![];
        for t in corpus.iter().filter(|t| t.len() <= 1500) {
            let mut x = t.clone();
            let _ = run_tape(p, &mut c, &mut x, 0, &Mirror::none());
            let mut es = vec![];
            cov::features(|g, _| es.push(g));
            ts.push((t.clone(), es, cov::steps()));
        }
        let mut have: HashSet<usize> = HashSet::new();
        let mut cover: Vec<Vec<u8>> = vec![];
        loop {
            let best = ts
                .iter()
                .map(|(t, es, n)| (es.iter().filter(|e| !have.contains(e)).count() as u64 * 1_000_000 / (n + 3000), t, es))
                .max_by_key(|x| x.0);
            match best {
                Some((k, t, es)) if k > 0 => {
                    have.extend(es);
                    cover.push(t.clone());
                }
                _ => break,
            }
        }
        ts.sort_by_key(|x| x.2);
        let ts = cover.into_iter().chain(ts.into_iter().map(|x| x.0));
        let mut o = vec![];
        for t in ts {
            o.extend_from_slice(&(t.len() as u16).to_le_bytes());
            o.extend_from_slice(&t);
        }
        let _ = std::fs::write(a.keep.join(format!("w{}.corpus", a.idx)), o);
    }
    let mut o = String::new();
    use std::fmt::Write as _;
    writeln!(o, "evals {}", c.evals).unwrap();
    writeln!(o, "enum {}", enum_done).unwrap();
    writeln!(o, "edges {}", edges.len()).unwrap();
    writeln!(o, "guards {}", cov::guards()).unwrap();
    writeln!(o, "features {}", nfeat).unwrap();
    writeln!(o, "corpus {}", corpus.len()).unwrap();
    writeln!(o, "secs {}", t0.elapsed().as_secs_f64()).unwrap();
    for (k, v) in &c.counters {
        writeln!(o, "c {} {}", v, k).unwrap();
    }
    for s in &c.samples {
        writeln!(o, "s {}", s.replace('\n', "\\n")).unwrap();
    }
    let _ = std::fs::write(a.dir.join(format!("w{}.out", a.idx)), o);
    let mut kb = Vec::with_capacity(c.keys.len() * 8);
    for k in &c.keys {
        kb.extend_from_slice(&k.to_le_bytes());
    }
    let _ = std::fs::write(a.dir.join(format!("w{}.keys", a.idx)), kb);
    code
}

fn shrink(p: &Prop, c: &mut Ctx, f: Found, m: &Mirror) -> Found {
    let t0 = Instant::now();
    let mut best = f;
    let mut chunk = best.tape.len() / 2;
    let none = Mirror::none();
    let _ = m;
    while chunk >= 1 && t0.elapsed() < Duration::from_secs(2) {
        let mut i = 0;
        while i < best.tape.len() && t0.elapsed() < Duration::from_secs(2) {
            for kind in 0..2 {
                let mut t = best.tape.clone();
                let e = (i + chunk).min(t.len());
                if kind == 0 {
                    t.drain(i..e);
                } else {
                    if t[i..e].iter().all(|x| *x == 0) {
                        continue;
                    }
                    t[i..e].iter_mut().for_each(|x| *x = 0);
                }
                let (r, used) = run_tape(p, c, &mut t, 0, &none);
                t.truncate(used);
                if let Err(e) = r {
                    if t.len() <= best.tape.len() && t != best.tape {
                        best.tape = t;
                        best.what = e;
                        break;
                    }
                }
            }
            i += chunk;
        }
        chunk /= 2;
    }
    best
}

/// Everything in one thread of one process, for interpreters: the tapes of a corpus and mutations
/// of them, until the time is up.
pub fn inproc(p: &Prop, a: &Args, corpus: &Path) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    let mut c = Ctx::new();
    c.light = true;
    let none = Mirror::none();
    let mut mine: Vec<Vec<u8>> = vec![];
    if let Ok(b) = std::fs::read(corpus.join(format!("w{}.corpus", a.idx))) {
        let mut b = &b[..];
        while b.len() > 2 {
            let n = u16::from_le_bytes([b[0], b[1]]) as usize;
            mine.push(b[2..2 + n].to_vec());
            b = &b[2 + n..];
        }
    }
    let mut rng = Rng::new(a.seed * 977 + a.idx as u64);
    let (mut cases, mut fresh) = (0u64, 0u64);
    let n = mine.len();
    for i in 0.. {
        if t0.elapsed().as_secs_f64() > a.secs || cases >= a.max_cases {
            break;
        }
        let mut tape = if i < n {
            std::mem::take(&mut mine[i])
        } else {
            fresh += 1;
            (0..40).map(|_| rng.next() as u8).collect()
        };
        let orig = tape.clone();
        let seed = rng.next();
        let dict = Dict::default();
        let r = {
            let mut s = Src::new(&mut tape, seed, &dict, &none);
            guard(|| (p.case)(&mut s, &mut c))
        };
        cases += 1;
        c.evals += 1;
        if let Err(e) = r {
            let path = a.replays.join(format!("{}-{}-s{}.replay", a.prop, a.build, a.idx));
            let f = Found { kind: "tape".into(), n: 0, tape, what: e.clone(), history: vec![] };
            write_replay(&path, &a.prop, &f, a.seed, a.idx, cases);
            println!("FOUND {} {}", path.display(), brief(&e, 1500).replace('\n', "\\n"));
            return 1;
        }
        if cases % 16 == 1 {
            // progress, so that a report can be related to a case
            let _ = std::fs::write(a.dir.join(format!("s{}.at", a.idx)), format!("{} {}", cases, hex(&orig)));
        }
    }
    println!("INPROC cases {} corpus {} fresh {} operations {} texts {}", cases, n, fresh,
        c.counters.get("operations").copied().unwrap_or(0), c.counters.get("texts checked").copied().unwrap_or(0));
    0
}

pub fn parse_replay(path: &Path) -> BTreeMap<String, String> {
    let t = std::fs::read_to_string(path).unwrap_or_default();
    t.lines().filter_map(|l| l.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect()
}
/// Re-run the case of a replay file: exit 1 if it still violates, 0 if not.
pub fn replay(p: &Prop, path: &Path, repo: &str, with_history: bool) -> i32 {
    install_panic_hook();
    watchdog();
    let m = parse_replay(path);
    let mut c = Ctx::new();
    c.repo = repo.into();
    mine(repo, &mut c.dict);
    alloc::set_cap(3 << 30);
    let none = Mirror::none();
    let get = |k: &str| m.get(k).cloned().unwrap_or_default();
    if with_history {
        for h in get("history").split(',').filter(|h| !h.is_empty()) {
            let mut t = unhex(h);
            let _ = run_tape(p, &mut c, &mut t, 0, &none);
        }
    }
    let r = if get("kind") == "enum" {
        run_enum(p, &mut c, get("n").parse().unwrap_or(0), &none)
    } else {
        let mut t = unhex(&get("tape"));
        run_tape(p, &mut c, &mut t, 0, &none).0
    };
    match r {
        Ok(()) => {
            println!("no violation");
            0
        }
        Err(e) => {
            println!("{}", e);
            1
        }
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

enum End {
    Ok,
    Found(String, String),
    Inconclusive(String),
}
fn spawn(a: &Args, idx: usize) -> std::process::Child {
    Command::new(std::env::current_exe().unwrap())
        .args([
            "worker",
            &a.prop,
            "--seed",
            &a.seed.to_string(),
            "--secs",
            &a.secs.to_string(),
            "--workers",
            &a.workers.to_string(),
            "--idx",
            &idx.to_string(),
            "--dir",
            a.dir.to_str().unwrap(),
            "--tier",
            &a.tier,
            "--repo",
            &a.repo,
            "--build",
            &a.build,
            "--max-cases",
            &a.max_cases.to_string(),
            "--keep",
            a.keep.to_str().unwrap(),
            "--replays",
            a.replays.to_str().unwrap(),
        ])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap()
}
fn wait(mut ch: std::process::Child, limit: Duration) -> (Option<i32>, String, String, bool) {
    use std::io::Read;
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let h = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let h2 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t = Instant::now();
    let mut timed = false;
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            _ => {}
        }
        if t.elapsed() > limit {
            timed = true;
            let _ = ch.kill();
            break ch.wait().unwrap();
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    use std::os::unix::process::ExitStatusExt;
    let code = st.code().or(st.signal().map(|s| 1000 + s));
    (code, h.join().unwrap_or_default(), h2.join().unwrap_or_default(), timed)
}
fn describe(code: Option<i32>, err: &str) -> String {
    let tail = brief(err.trim(), 1500);
    match code {
        Some(77) => "a single case executed more edges than its limit (does not terminate or super-linear work)".into(),
        Some(79) => format!("a single case used more than {} s of CPU time", CASE_CPU),
        Some(78) => "a single case allocated more than 3 GiB".into(),
        Some(1011) => format!("crashed with SIGSEGV {}", tail),
        Some(1006) => format!("aborted (SIGABRT) {}", tail),
        Some(EXIT_SAN) => format!("sanitizer report: {}", tail),
        x => format!("ended with {:?} {}", x, tail),
    }
}
/// Exit code the sanitizers are told to use (see check.py).
pub const EXIT_SAN: i32 = 86;
fn finish(a: &Args, idx: usize, ch: std::process::Child, retry: bool) -> End {
    // a worker needs its time slice plus the enumerated cases; far beyond that it hangs
    let limit = Duration::from_secs_f64(a.secs * 1.5 + 200.0);
    let (code, out, err, timed) = wait(ch, limit);
    if code == Some(0) {
        return End::Ok;
    }
    if code == Some(1) {
        if let Some(l) = out.lines().find_map(|l| l.strip_prefix("FOUND ")) {
            let (p, w) = l.split_once(' ').unwrap_or((l, ""));
            return End::Found(p.to_string(), w.to_string());
        }
    }
    // also found, but shrinking crashed
    if let Some(l) = out.lines().find_map(|l| l.strip_prefix("FOUND ")) {
        let (p, w) = l.split_once(' ').unwrap_or((l, ""));
        return End::Found(p.to_string(), w.to_string());
    }
    // crash: rebuild the case from the mirror and confirm it in a fresh process
    let mut what = describe(code, &err);
    if timed {
        what = format!("a worker was still in one case after {:?}: {}", limit, what);
    }
    let path = a.replays.join(format!("{}-{}-w{}-crash.replay", a.prop, a.build, idx));
    if let Ok(b) = std::fs::read(a.dir.join(format!("w{}.tape", idx))) {
        if b.len() > 24 {
            let u = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
            let (len, tag, n) = (u(0) as usize, u(8), u(16));
            let tape = b[24..24 + len.min(b.len() - 24)].to_vec();
            let f = Found { kind: if tag == 2 { "enum" } else { "tape" }.into(), n, tape, what: what.clone(), history: vec![] };
            write_replay(&path, &a.prop, &f, a.seed, idx, 0);
            if code == Some(EXIT_SAN) {
                let _ = std::fs::write(path.with_extension("log"), &err);
                return End::Found(path.display().to_string(), what);
            }
            let ch = Command::new(std::env::current_exe().unwrap())
                .args(["replay", path.to_str().unwrap(), "--repo", &a.repo])
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::piped())
                .spawn()
                .unwrap();
            let (c2, o2, e2, t2) = wait(ch, Duration::from_secs(120));
            if c2 != Some(0) && c2 != Some(1009) && !t2 {
                let w = if c2 == Some(1) && !o2.trim().is_empty() { o2.trim().to_string() } else { describe(c2, &e2) };
                return End::Found(path.display().to_string(), w);
            }
            if t2 {
                return End::Found(path.display().to_string(), "a single case runs for more than 120 s".into());
            }
            let _ = std::fs::remove_file(&path);
        }
    }
    // not reproduced alone (or killed from outside): run the same worker once more
    if !retry {
        eprintln!("worker {} ended unexpectedly ({}), running it again", idx, what);
        return finish(a, idx, spawn(a, idx), true);
    }
    if code == Some(1009) || code == Some(2) {
        return End::Inconclusive(what);
    }
    // the same deterministic sequence crashed twice without the single case doing so: history dependent
    let f = Found { kind: "worker".into(), n: 0, tape: vec![], what: what.clone(), history: vec![] };
    write_replay(&path, &a.prop, &f, a.seed, idx, 0);
    End::Found(path.display().to_string(), what)
}

pub fn check(p: &Prop, a: &Args) -> i32 {
    let t0 = Instant::now();
    let _ = std::fs::create_dir_all(&a.dir);
    let _ = std::fs::create_dir_all(&a.replays);
    let children: Vec<_> = (0..a.workers).map(|i| (i, spawn(a, i))).collect();
    let ends: Vec<End> = std::thread::scope(|s| {
        let hs: Vec<_> = children.into_iter().map(|(i, ch)| s.spawn(move || finish(a, i, ch, false))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    // merge
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut keys: HashSet<u64> = HashSet::new();
    let (mut evals, mut en, mut edges, mut guards, mut feat, mut corpus) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    for i in 0..a.workers {
        let t = std::fs::read_to_string(a.dir.join(format!("w{}.out", i))).unwrap_or_default();
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let num = || v.parse::<u64>().unwrap_or(0);
            match k {
                "evals" => evals += num(),
                "enum" => en += num(),
                "edges" => edges = edges.max(num()),
                "guards" => guards = num(),
                "features" => feat = feat.max(num()),
                "corpus" => corpus += num(),
                "c" => {
                    if let Some((n, name)) = v.split_once(' ') {
                        let n: u64 = n.parse().unwrap_or(0);
                        let e = counters.entry(name.to_string()).or_insert(0);
                        if name.starts_with("max_") {
                            *e = (*e).max(n)
                        } else {
                            *e += n
                        }
                    }
                }
                "s" if samples.len() < 6 => samples.push(v.to_string()),
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(a.dir.join(format!("w{}.keys", i))) {
            for c in b.chunks_exact(8) {
                keys.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let mut viol = 0;
    let mut inconclusive = None;
    let mut lines = vec![];
    for e in &ends {
        match e {
            End::Ok => {}
            End::Found(p, w) => {
                viol += 1;
                lines.push((p.clone(), w.clone()));
            }
            End::Inconclusive(w) => inconclusive = Some(w.clone()),
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    if let Some(ev) = &a.evidence {
        let mut o = String::from("{\n");
        o += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", json(&a.prop), json(&a.tier), a.seed);
        o += " \"coverage\": {\n";
        o += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", evals, keys.len());
        o += &format!("  \"rule\": {},\n", json(p.rule));
        o += &format!("  \"enumerated_cases\": {},\n  \"edges_reached\": {},\n  \"edges_total\": {},\n  \"coverage_features\": {},\n  \"corpus_tapes\": {},\n  \"workers\": {},\n", en, edges, guards, feat, corpus, a.workers);
        o += "  \"monitor\": {";
        o += &counters.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect::<Vec<_>>().join(", ");
        o += "},\n";
        for (k, v) in &a.extra {
            o += &format!("  {}: {},\n", json(k), v);
        }
        o += &format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "));
        o += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, viol);
        if let Some(d) = ev.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        if let Err(e) = std::fs::write(ev, o) {
            eprintln!("evidence: {}", e);
            return 2;
        }
    }
    println!(
        "{} {} seed {}: {} cases ({} enumerated), {} distinct, {}/{} edges, {} features, {:.1} s",
        a.prop, a.tier, a.seed, evals, en, keys.len(), edges, guards, feat, wall
    );
    for (p, w) in &lines {
        println!("what: {}", brief(w, 1500));
        println!("VIOLATION property={} replay={}", a.prop, p);
    }
    if viol > 0 {
        return 1;
    }
    if inconclusive.is_none() && (evals == 0 || keys.is_empty()) {
        inconclusive = Some("nothing was observed".into());
    }
    if let Some(w) = inconclusive {
        println!("inconclusive: {}", w);
        return 2;
    }
    0
}
