//! Native evaluation of the contracts on concrete inputs, against the compiled code of /repo.

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::LazyLock;

/// Outcome of one contract on one input.
pub enum Bad {
    /// the contract does not hold
    Violation(String),
    /// it does not hold in the way a known finding describes
    Known(&'static str, String),
    /// the oracle cannot judge this input (an operation the exact field does not have)
    Undecided(String),
}
pub type R = Result<(), Bad>;

pub fn bad<T>(s: impl Into<String>) -> Result<T, Bad> {
    Err(Bad::Violation(s.into()))
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::engine::Bad::Violation(format!($($t)*))); } };
}

#[derive(Default)]
pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    pub evals: u64,
    pub distinct: u64,
    pub undecided: u64,
    pub undecided_note: String,
    /// input, message, number of the evaluation
    pub fails: Vec<(String, String, u64)>,
    pub n_fails: u64,
    pub known: BTreeMap<&'static str, (u64, String, String)>,
    pub samples: Vec<String>,
    seen: HashSet<u64>,
    /// replay: print every outcome
    pub replay: bool,
    /// report this evaluation as a failure of that kind, and stop
    pub stop_at: Option<(u64, String)>,
    /// the last evaluation of a history that is run again
    pub until: Option<u64>,
}

/// Ends the search with what is found so far.
pub struct Stop(pub Ctx);

pub use crate::value_type::UNSUPPORTED;

/// The input whose evaluation ends the process (a stack overflow, an allocation without end) or does
/// not end: the process says at which evaluation (`QV_CRASH_AT n why`) and leaves with status 97; run
/// again with `QV_STOP_AT=n` it reports that input without evaluating it.
pub mod crash {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    pub static AT: AtomicU64 = AtomicU64::new(0);
    pub const HANG_S: u64 = 30;

    extern "C" {
        fn signal(sig: i32, handler: usize) -> usize;
        fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
        fn _exit(code: i32) -> !;
    }
    fn leave(why: &[u8]) -> ! {
        let mut n = AT.load(Relaxed);
        let mut digits = [b'0'; 20];
        let mut i = digits.len();
        loop {
            i -= 1;
            digits[i] = b'0' + (n % 10) as u8;
            n /= 10;
            if n == 0 {
                break;
            }
        }
        unsafe {
            write(2, b"\nQV_CRASH_AT ".as_ptr().cast(), 13);
            write(2, digits[i..].as_ptr().cast(), digits.len() - i);
            write(2, why.as_ptr().cast(), why.len());
            _exit(97)
        }
    }
    extern "C" fn aborted(_: i32) {
        leave(b" the process aborts (a stack overflow, or memory without end)\n")
    }
    pub fn watch() {
        const SIGABRT: i32 = 6;
        unsafe { signal(SIGABRT, aborted as extern "C" fn(i32) as usize) };
        std::thread::spawn(|| {
            let (mut last, mut still) = (u64::MAX, 0);
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let now = AT.load(Relaxed);
                still = if now == last && now != 0 { still + 1 } else { 0 };
                last = now;
                if still >= HANG_S {
                    leave(b" no result within 30 s\n")
                }
            }
        });
    }
}

impl Ctx {
    /// Evaluate the contract `f` on the input that `enc` writes down. `key`: a hash of the input when
    /// inputs are drawn at random (None: distinct by construction); `nontrivial`: counted as such.
    pub fn case(&mut self, key: Option<u64>, nontrivial: bool, enc: impl Fn() -> String, f: impl FnOnce() -> R) {
        self.evals += 1;
        if let Some((_, why)) = self.stop_at.take_if(|s| s.0 == self.evals) {
            self.fails = vec![(enc(), why, self.evals)];
            self.n_fails = 1;
            std::panic::resume_unwind(Box::new(Stop(std::mem::take(self))));
        }
        crash::AT.store(self.evals, std::sync::atomic::Ordering::Relaxed);
        let fresh = match key {
            None => true,
            Some(k) => self.seen.insert(k),
        };
        if fresh && nontrivial {
            self.distinct += 1;
        }
        if self.samples.len() < 4 && nontrivial && (self.evals % 97 == 1 || self.samples.is_empty()) {
            self.samples.push(enc());
        }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                if m.starts_with(UNSUPPORTED) {
                    Err(Bad::Undecided(m))
                } else {
                    Err(Bad::Violation(format!("panicked: {m}")))
                }
            }
        };
        match r {
            Ok(()) => {}
            Err(Bad::Violation(m)) => {
                self.n_fails += 1;
                if self.fails.len() < 5 || self.until == Some(self.evals) {
                    self.fails.push((enc(), m, self.evals));
                }
            }
            Err(Bad::Known(k, m)) => {
                let e = self.known.entry(k).or_insert_with(|| (0, enc(), m));
                e.0 += 1;
            }
            Err(Bad::Undecided(m)) => {
                self.undecided += 1;
                self.undecided_note = m;
            }
        }
        if self.until == Some(self.evals) {
            self.fails.retain(|f| f.2 == self.evals);
            std::panic::resume_unwind(Box::new(Stop(std::mem::take(self))));
        }
    }
}

fn env_list(name: &str) -> Vec<i64> {
    std::env::var(name).unwrap_or_default().split(',').filter_map(|t| t.parse().ok()).collect()
}
/// Numbers that the code mentions and the reviewed code did not (tools/words.py).
static WORDS: LazyLock<Vec<i64>> = LazyLock::new(|| env_list("QV_WORDS"));
static EXPONENTS: LazyLock<Vec<i64>> = LazyLock::new(|| env_list("QV_EXPONENTS"));
/// The code keeps state (tools/state.py): inputs come back, so that a stale answer shows.
pub static STATE: LazyLock<bool> = LazyLock::new(|| std::env::var("QV_STATE").is_ok_and(|v| v == "1"));

/// xorshift64*
#[derive(Clone)]
pub struct Rng(pub u64, BTreeMap<(i64, i64), i64>);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03 | 1, BTreeMap::new())
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    /// in lo..=hi; now and then a number that the code mentions
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        if !WORDS.is_empty() && hi.saturating_sub(lo) > 9 && self.next() % 16 == 0 {
            let w = WORDS[self.next() as usize % WORDS.len()].saturating_add((self.next() % 3) as i64 - 1);
            let w = match self.next() % 4 {
                0 => w.saturating_mul(16),
                1 => -w,
                _ => w,
            };
            if lo <= w && w <= hi {
                return w;
            }
        }
        if *STATE && hi.saturating_sub(lo) > 1 {
            // often the last number drawn from this range
            let v = match self.1.get(&(lo, hi)).copied() {
                Some(v) if self.next() % 3 == 0 => v,
                _ => self.uniform(lo, hi),
            };
            self.1.insert((lo, hi), v);
            return v;
        }
        self.uniform(lo, hi)
    }
    /// a number in lo..=hi that the code mentions, or a neighbour of one; now and then, if there is one
    pub fn word(&mut self, lo: i64, hi: i64) -> Option<i64> {
        if WORDS.is_empty() || self.next() % 8 != 0 {
            return None;
        }
        let w = WORDS[self.next() as usize % WORDS.len()];
        // a number of years or months may be one of days or months here
        let w = w.saturating_mul(*self.pick(&[1, 1, 1, -1, 365, 360, 12])).saturating_add(if self.next() % 4 == 0 { (self.next() % 17) as i64 - 8 } else { (self.next() % 3) as i64 - 1 });
        (lo <= w && w <= hi).then_some(w)
    }
    /// likewise the logarithm (to the base 2) of one
    pub fn exponent(&mut self, lo: i64, hi: i64) -> Option<i64> {
        if EXPONENTS.is_empty() || self.next() % 8 != 0 {
            return None;
        }
        let e = EXPONENTS[self.next() as usize % EXPONENTS.len()] + (self.next() % 7) as i64 - 3;
        (lo <= e && e <= hi).then_some(e)
    }
    fn uniform(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() as u128 % ((hi as i128 - lo as i128 + 1) as u128)) as i64
    }
    pub fn pick<'a, T>(&mut self, t: &'a [T]) -> &'a T {
        &t[self.uniform(0, t.len() as i64 - 1) as usize]
    }
}

pub fn hash(parts: &[i64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &p in parts {
        h ^= p as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58_476d_1ce4_e5b9);
        h ^= h >> 32;
    }
    h
}

/// Fields of an encoded input: `key=value key=value`.
pub struct Input(BTreeMap<String, String>);
impl Input {
    pub fn parse(s: &str) -> Input {
        Input(
            s.split_whitespace()
                .filter_map(|t| t.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())))
                .collect(),
        )
    }
    pub fn str(&self, k: &str) -> &str {
        self.0.get(k).unwrap_or_else(|| panic!("input lacks {k}"))
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(String::as_str)
    }
    pub fn int(&self, k: &str) -> i64 {
        self.str(k).parse().unwrap()
    }
    pub fn u64(&self, k: &str) -> u64 {
        self.str(k).parse().unwrap()
    }
    /// y:m:d
    pub fn ymd(&self, k: &str) -> (i64, i64, i64) {
        let v: Vec<i64> = self.str(k).split(':').map(|t| t.parse().unwrap()).collect();
        (v[0], v[1], v[2])
    }
    pub fn list(&self, k: &str) -> Vec<i64> {
        let s = self.str(k);
        if s == "-" {
            return vec![];
        }
        s.split(',').map(|t| t.parse().unwrap()).collect()
    }
}
pub fn join(v: &[i64]) -> String {
    if v.is_empty() {
        return "-".into();
    }
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
pub fn ymd((y, m, d): (i64, i64, i64)) -> String {
    format!("{y}:{m}:{d}")
}
