//! State shared by the monitors of one worker: counters, samples, set of distinct cases.
use crate::tape::Dict;
use std::collections::{BTreeMap, HashSet};

pub struct Ctx {
    pub thorough: bool,
    /// under an interpreter: no more work than necessary
    pub light: bool,
    /// under a sanitizer
    pub slow: bool,
    pub repo: String,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub keys: HashSet<u64>,
    pub dict: Dict,
    pub evals: u64,
    pub worker: usize,
    /// for history-dependent monitors
    pub store: Vec<(crate::props::ops::Op, u64)>,
}
impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            thorough: false,
            light: false,
            slow: false,
            repo: "/repo".into(),
            counters: BTreeMap::new(),
            samples: vec![],
            keys: HashSet::new(),
            dict: Dict::default(),
            evals: 0,
            worker: 0,
            store: vec![],
        }
    }
    /// Count an observed event of the monitor.
    pub fn n(&mut self, what: &str, k: u64) {
        if let Some(x) = self.counters.get_mut(what) {
            *x += k;
        } else {
            self.counters.insert(what.to_string(), k);
        }
    }
    pub fn max(&mut self, what: &str, k: u64) {
        let x = self.counters.entry(format!("max_{}", what)).or_insert(0);
        *x = (*x).max(k);
    }
    /// Identity of a non-trivial case.
    pub fn key(&mut self, h: u64) {
        if self.keys.len() < 3_000_000 {
            self.keys.insert(h);
        }
    }
    pub fn key_bytes(&mut self, b: &[u8]) {
        self.key(crate::rng::hash_bytes(7, b));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        // a few, spread over the run
        let k = self.evals;
        if self.samples.len() < 4 && !self.light && (k < 3 || k % 2003 == 17) {
            let s = f();
            self.samples.push(crate::model::brief(&s, 400));
        }
    }
}
pub type Out = Result<(), String>;
pub type CaseFn = fn(&mut crate::tape::Src, &mut Ctx) -> Out;
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub case: CaseFn,
    /// number of enumerated cases (quick, thorough) and the case itself
    pub enums: fn(bool) -> u64,
    pub enum_case: fn(u64, &mut Ctx) -> Out,
    /// executed-edge limit per case
    pub steps: u64,
}
pub fn no_enum(_: bool) -> u64 {
    0
}
pub fn no_case(_: u64, _: &mut Ctx) -> Out {
    Ok(())
}
#[macro_export]
macro_rules! bail {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)) } };
}
