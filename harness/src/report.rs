//! What a run observed.

use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;

#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
    pub verbose: bool,
}

impl Obs {
    pub fn add(&mut self, name: &str, n: u64) {
        match self.counters.get_mut(name) {
            Some(x) => *x += n,
            None => {
                self.counters.insert(name.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let name = format!("max {}", name);
        let x = self.counters.entry(name).or_insert(0);
        *x = (*x).max(n);
    }
    /// A distinct, non-trivial case.
    pub fn distinct(&mut self, hash: u64) {
        // (a limit for the memory: beyond it, the number reported is a minimum)
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(hash);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s.chars().take(700).collect());
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose && self.notes.len() < 4000 {
            let s = f();
            self.notes.push(s);
        }
    }
}

pub type Res = Result<(), String>;

pub struct Ctx {
    pub idx: u64,
    pub thorough: bool,
    pub seed: u64,
    pub rng: Rng,
    pub dir: PathBuf,
    pub obs: Obs,
}

impl Ctx {
    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }
    /// Scales an effort with the tier.
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
            }
        }
    }
    let mut h = H(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    h.finish()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7F => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond {
            return Err(format!($($arg)+));
        }
    };
}
