mod alloc;
mod conv;
mod cov;
mod ctx;
mod driver;
mod gen;
mod model;
mod ops_core;
mod props;
mod rng;
mod ser;
mod tape;
mod wire;
mod xsink;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

use std::path::PathBuf;
fn main() {
    let v: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| v.iter().position(|x| x == k).and_then(|i| v.get(i + 1)).cloned();
    let cmd = v.first().cloned().unwrap_or_default();
    let a = driver::Args {
        prop: v.get(1).cloned().unwrap_or_default(),
        seed: get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
        secs: get("--secs").and_then(|x| x.parse().ok()).unwrap_or(10.0),
        workers: get("--workers").and_then(|x| x.parse().ok()).unwrap_or(8),
        idx: get("--idx").and_then(|x| x.parse().ok()).unwrap_or(0),
        dir: PathBuf::from(get("--dir").unwrap_or_else(|| format!("/tmp/vmon.{}", std::process::id()))),
        tier: get("--tier").unwrap_or_else(|| "quick".into()),
        repo: get("--repo").unwrap_or_else(|| "/repo".into()),
        evidence: get("--evidence").map(PathBuf::from),
        replays: PathBuf::from(get("--replays").unwrap_or_else(|| "/verif/replays".into())),
        build: get("--build").unwrap_or_else(|| "cov".into()),
        extra: vec![],
        max_cases: get("--max-cases").and_then(|x| x.parse().ok()).unwrap_or(u64::MAX),
        keep: PathBuf::from(get("--keep").unwrap_or_default()),
    };
    let big = |f: Box<dyn FnOnce() -> i32 + Send>| -> i32 {
        std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| {
            eprintln!("harness: {}", driver::last_panic());
            2
        })
    };
    if cmd == "replay" || a.prop == "C30" {
        props::side::one_arena();
    }
    let code = match cmd.as_str() {
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        "check" => match props::find(&a.prop) {
            Some(p) => {
                let r = driver::check(p, &a);
                if get("--dir").is_none() {
                    let _ = std::fs::remove_dir_all(&a.dir);
                }
                r
            }
            None => 2,
        },
        "inproc" => match props::find(&a.prop) {
            // on the main thread, and returning from main: the interpreter looks for leaks at the end
            Some(p) => {
                if driver::inproc(p, &a, &PathBuf::from(get("--corpus").unwrap_or_default())) == 0 {
                    return;
                }
                1
            }
            None => 2,
        },
        "worker" => match props::find(&a.prop) {
            Some(p) => big(Box::new(move || driver::worker(p, &a))),
            None => 2,
        },
        // the operations for other platforms, and what one of them gives here
        "record" => {
            let out = PathBuf::from(&a.prop);
            let corpus = PathBuf::from(get("--corpus").unwrap_or_default());
            let max = a.max_cases.min(1 << 20) as usize;
            big(Box::new(move || {
                driver::install_panic_hook();
                match props::xplat::record(&corpus, &out, a.seed, max) {
                    Ok(n) => {
                        println!("RECORDED {}", n);
                        0
                    }
                    Err(e) => {
                        eprintln!("harness: {}", e);
                        2
                    }
                }
            }))
        }
        "explain" => {
            let (list, k) = (PathBuf::from(&a.prop), a.idx);
            big(Box::new(move || {
                driver::install_panic_hook();
                print!("{}", props::xplat::explain(&list, k));
                0
            }))
        }
        "replay" => {
            let path = PathBuf::from(&a.prop);
            let id = driver::parse_replay(&path).get("property").cloned().unwrap_or_default();
            let hist = v.iter().any(|x| x == "--history");
            match props::find(&id) {
                Some(p) => big(Box::new(move || driver::replay(p, &path, &a.repo, hist))),
                None => 2,
            }
        }
        _ => 2,
    };
    std::process::exit(code);
}
