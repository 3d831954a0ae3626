//! A small property-based-testing engine.
//!
//! Every random decision of a case is drawn through `Src::choice`, which records it on a
//! tape.  A case is a pure function of its tape, so a failing tape can be shrunk and
//! replayed.  Choice 0 is always the simplest alternative.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub enum Stop {
    Fail(String),
    Discard,
}
pub type Res = Result<(), Stop>;

#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return Err($crate::engine::Stop::Fail(format!($($a)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Stop::Fail(format!($($a)*))) } } }

#[derive(Clone)]
pub struct Rng([u64; 4]);
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(mut seed: u64) -> Rng {
        Rng([splitmix(&mut seed), splitmix(&mut seed), splitmix(&mut seed), splitmix(&mut seed)])
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub tape: Vec<u64>,
    pub pool: Vec<u32>,
    pub vpool: Vec<[f32; 4]>,
    pub verbose: bool,
    pub notes: Vec<String>,
    pub labels: BTreeMap<&'static str, u64>,
    case_labels: Vec<&'static str>,
    trivial: bool,
    /// When set, library results are appended here (used by the cross-backend check).
    pub outputs: Option<Vec<u8>>,
}

impl Src {
    pub fn new(seed: u64) -> Src {
        Src {
            rng: Rng::new(seed),
            replay: None,
            pos: 0,
            tape: Vec::new(),
            pool: Vec::new(),
            vpool: Vec::new(),
            verbose: false,
            notes: Vec::new(),
            labels: BTreeMap::new(),
            case_labels: Vec::new(),
            trivial: false,
            outputs: None,
        }
    }
    pub fn reset(&mut self, seed: u64) {
        self.rng = Rng::new(seed);
        self.replay = None;
        self.clear();
    }
    pub fn reset_tape(&mut self, tape: &[u64]) {
        self.replay = Some(tape.to_vec());
        self.clear();
    }
    fn clear(&mut self) {
        self.pos = 0;
        self.tape.clear();
        self.pool.clear();
        self.vpool.clear();
        self.notes.clear();
        self.case_labels.clear();
        self.trivial = false;
    }
    /// A number in `0..n` (`n >= 1`).
    #[inline]
    pub fn choice(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            None => {
                // widening multiply: unbiased enough, deterministic
                ((self.rng.next() as u128 * n as u128) >> 64) as u64
            }
            Some(t) => {
                let raw = t.get(self.pos).copied().unwrap_or(0);
                if raw >= n { n - 1 } else { raw }
            }
        };
        self.pos += 1;
        self.tape.push(v);
        v
    }
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        self.choice(n as u64) as usize
    }
    #[inline]
    pub fn bool(&mut self) -> bool {
        self.choice(2) == 1
    }
    /// true with probability 1/n
    #[inline]
    pub fn one_in(&mut self, n: u64) -> bool {
        self.choice(n) == n - 1
    }
    #[inline]
    pub fn u32(&mut self) -> u32 {
        self.choice(1 << 32) as u32
    }
    pub fn label(&mut self, l: &'static str) {
        self.case_labels.push(l);
    }
    /// The case reached no interesting verdict (for example: too close to a decision boundary).
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
    #[inline]
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            let s = f();
            self.notes.push(s);
        }
    }
    #[inline]
    pub fn out(&mut self, bytes: &[u8]) {
        if let Some(o) = &mut self.outputs {
            o.extend_from_slice(bytes);
        }
    }
}

pub struct Check {
    pub name: String,
    /// multiplier on the case budget, in percent
    pub weight: u32,
    pub f: Box<dyn Fn(&mut Src) -> Res>,
}
pub fn check(name: impl Into<String>, weight: u32, f: impl Fn(&mut Src) -> Res + 'static) -> Check {
    Check { name: name.into(), weight, f: Box::new(f) }
}

pub fn hash(seed: u64, s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    splitmix(&mut h)
}

fn tape_hash(t: &[u64]) -> u64 {
    let mut h = 0x1234567u64;
    for x in t {
        h = (h ^ *x).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }));
}

/// The position of the run, for the crash handler.
pub static CUR_CASE: AtomicU64 = AtomicU64::new(0);
pub static CUR_CHECK: AtomicU64 = AtomicU64::new(0);
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static CUR_SHRINK: AtomicU64 = AtomicU64::new(0);

fn exec(c: &Check, s: &mut Src) -> Res {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    match catch_unwind(AssertUnwindSafe(|| (c.f)(s))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow().clone());
            Err(Stop::Fail(format!("panicked: {}", m.replace('\n', " "))))
        }
    }
}

pub struct Failure {
    pub tape: Vec<u64>,
    pub msg: String,
    pub notes: Vec<String>,
    pub case: u64,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub discards: u64,
    pub trivial: u64,
    pub distinct: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
}

fn shrink(c: &Check, s: &mut Src, tape: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    CUR_SHRINK.store(1, Ordering::Relaxed);
    let mut best = tape;
    let mut best_msg = msg;
    let mut budget = 6000u32;
    let mut attempt = |cand: &[u64], s: &mut Src, budget: &mut u32| -> Option<(Vec<u64>, String)> {
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        s.reset_tape(cand);
        match exec(c, s) {
            Err(Stop::Fail(m)) => Some((s.tape.clone(), m)),
            _ => None,
        }
    };
    fn key(t: &[u64]) -> (usize, u128) {
        (t.len(), t.iter().map(|x| *x as u128).sum())
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if let Some((t, m)) = attempt(&cand, s, &mut budget) {
                    if key(&t) < key(&best) {
                        best = t;
                        best_msg = m;
                        continue;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // minimise single choices
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if let Some((t, m)) = attempt(&cand, s, &mut budget) {
                    if key(&t) < key(&best) {
                        best = t;
                        best_msg = m;
                        i += 1;
                        continue;
                    }
                }
                let (mut lo, mut hi) = (0u64, best[i]);
                while hi - lo > 1 && budget > 0 && i < best.len() {
                    let mid = lo + (hi - lo) / 2;
                    let mut cand = best.clone();
                    cand[i] = mid;
                    match attempt(&cand, s, &mut budget) {
                        Some((t, m)) if key(&t) < key(&best) => {
                            best = t;
                            best_msg = m;
                            hi = mid;
                        }
                        _ => lo = mid,
                    }
                }
            }
            i += 1;
        }
        if best == before || budget == 0 {
            break;
        }
    }
    CUR_SHRINK.store(0, Ordering::Relaxed);
    (best, best_msg)
}

pub fn run(idx: usize, c: &Check, seed: u64, cases: u64, dump: Option<&mut Vec<u8>>) -> Report {
    let mut rep = Report::default();
    let base = hash(seed, &c.name);
    let mut s = Src::new(0);
    if dump.is_some() {
        s.outputs = Some(Vec::new());
    }
    let mut seen: HashSet<u64> = HashSet::with_capacity(cases as usize);
    CUR_CHECK.store(idx as u64, Ordering::Relaxed);
    for case in 0..cases {
        CUR_CASE.store(case, Ordering::Relaxed);
        s.reset(base.wrapping_add(case.wrapping_mul(0xD1B54A32D192ED03)));
        s.verbose = case < 2;
        let r = exec(c, &mut s);
        rep.evaluations += 1;
        match r {
            Ok(()) => {
                if s.trivial {
                    rep.trivial += 1;
                } else if seen.insert(tape_hash(&s.tape)) {
                    rep.distinct += 1;
                }
                for l in &s.case_labels {
                    *rep.labels.entry(l).or_insert(0) += 1;
                }
                if s.verbose && !s.notes.is_empty() && rep.samples.len() < 2 {
                    rep.samples.push(format!("{}: {}", c.name, s.notes.join("; ")));
                }
            }
            Err(Stop::Discard) => rep.discards += 1,
            Err(Stop::Fail(msg)) => {
                s.outputs = None;
                let tape = s.tape.clone();
                let (tape, msg) = shrink(c, &mut s, tape, msg);
                s.verbose = true;
                s.reset_tape(&tape);
                let msg = match exec(c, &mut s) {
                    Err(Stop::Fail(m)) => m,
                    _ => format!("{} (not reproduced when replayed)", msg),
                };
                rep.failure = Some(Failure { tape, msg, notes: s.notes.clone(), case });
                break;
            }
        }
    }
    if let (Some(d), Some(o)) = (dump, s.outputs.take()) {
        d.extend_from_slice(&o);
    }
    rep
}

pub fn replay(c: &Check, tape: &[u64]) -> (Result<(), String>, Vec<String>) {
    let mut s = Src::new(0);
    s.verbose = true;
    s.reset_tape(tape);
    let r = exec(c, &mut s);
    let n = s.notes.clone();
    match r {
        Err(Stop::Fail(m)) => (Err(m), n),
        _ => (Ok(()), n),
    }
}

/// Re-create the tape of case number `case` (used after a crash).
pub fn case_seed(c: &Check, seed: u64, case: u64) -> u64 {
    hash(seed, &c.name).wrapping_add(case.wrapping_mul(0xD1B54A32D192ED03))
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
