//! The operations of C29 in another build or on another platform.
#![allow(dead_code)]
#[path = "../../harness/src/conv.rs"]
mod conv;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/ops_core.rs"]
mod ops_core;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/ser.rs"]
mod ser;
#[path = "../../harness/src/xsink.rs"]
mod xsink;

use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static SERVED: AtomicU64 = AtomicU64::new(0);

/// Requests on stdin: 'h' (hash) or 'l' (log), length, operation. Ends with stdin.
fn serve() {
    std::thread::spawn(|| {
        let (mut last, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let n = SERVED.load(Ordering::Relaxed);
            if n != last || n % 2 == 0 {
                last = n;
                since = Instant::now();
            } else if since.elapsed().as_secs() > 120 {
                std::process::abort();
            }
        }
    });
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut head = [0; 5];
    while i.read_exact(&mut head).is_ok() {
        let mut b = vec![0; u32::from_le_bytes(head[1..].try_into().unwrap()) as usize];
        if i.read_exact(&mut b).is_err() {
            return;
        }
        SERVED.fetch_add(1, Ordering::Relaxed);
        let op = ser::R(&b).op();
        let k = xsink::observe(&op, head[0] == b'l');
        SERVED.fetch_add(1, Ordering::Relaxed);
        let r = match &k.log {
            Some(l) => {
                let mut v = (l.len() as u32).to_le_bytes().to_vec();
                v.extend_from_slice(l.as_bytes());
                v
            }
            None => k.h.to_le_bytes().to_vec(),
        };
        if o.write_all(&r).is_err() || o.flush().is_err() {
            return;
        }
    }
}

#[cfg(miri)]
static OPS: &[u8] = include_bytes!(env!("XPLAT_OPS"));
#[cfg(not(miri))]
static OPS: &[u8] = &[];

/// A recorded list of operations with what they gave elsewhere: every `of`th from `at` on.
fn list(at: usize, of: usize, secs: f64) -> i32 {
    let t0 = Instant::now();
    let mut b = OPS;
    let (mut done, mut skipped, mut items) = (0u64, 0u64, 0u64);
    let mut i = 0;
    while b.len() >= 13 {
        let flags = b[0];
        let want = u64::from_le_bytes(b[1..9].try_into().unwrap());
        let n = u32::from_le_bytes(b[9..13].try_into().unwrap()) as usize;
        let raw = &b[13..13 + n];
        b = &b[13 + n..];
        i += 1;
        if (i - 1) % of != at {
            continue;
        }
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
        if flags & xsink::NOT_WITH_OTHER_STD != 0 || (cfg!(not(unix)) && flags & xsink::NOT_WITHOUT_FDS != 0) || (cfg!(target_pointer_width = "32") && flags & xsink::NOT_ON_32 != 0) {
            skipped += 1;
            continue;
        }
        let op = ser::R(raw).op();
        let k = xsink::observe(&op, false);
        done += 1;
        items += k.items;
        if k.h != want {
            let k = xsink::observe(&op, true);
            println!("DIFFERS {}", i - 1);
            for l in k.log.unwrap_or_default().lines() {
                println!("LOG {}", l);
            }
            println!("END");
            return 1;
        }
    }
    println!("COMPARED operations {} skipped {} items {}", done, skipped, items);
    0
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let v: Vec<String> = std::env::args().skip(1).collect();
    if v.first().map_or(false, |x| x == "list") {
        let n = |i: usize| v[i].parse::<usize>().unwrap();
        let c = list(n(1), n(2), n(3) as f64);
        if c != 0 {
            std::process::exit(c);
        }
    } else {
        let t = std::thread::Builder::new().stack_size(256 << 20).spawn(serve).unwrap();
        t.join().unwrap();
    }
}
