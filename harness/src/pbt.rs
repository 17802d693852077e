//! A small Hypothesis-style property-based-testing core.
//!
//! Every random decision of a case is a bounded draw `G::below(n)` that is recorded on a "choice
//! tape".  A case is a pure function of its tape; the tape is produced by a PRNG seeded from
//! (VERIF_SEED, property, sub-property, case index), and shrinking edits the tape.

use std::cell::RefCell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

#[derive(Clone, Default)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

/// Source of choices.
pub struct G {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    /// when set, `note` keeps human readable descriptions
    pub verbose: bool,
    pub notes: Vec<String>,
    pub labels: BTreeSet<String>,
    pub nontrivial: bool,
    pub excluded: u64,
    /// the pseudo-random source for bulk data is derived from a drawn seed
    depth: u32,
    echo: bool,
    /// print notes as they are made
    pub eager: bool,
}

impl G {
    pub fn random(seed: u64) -> Self {
        G {
            tape: vec![],
            pos: 0,
            rng: Some(Rng::new(seed)),
            verbose: false,
            notes: vec![],
            labels: BTreeSet::new(),
            nontrivial: false,
            excluded: 0,
            depth: 0,
            echo: false,
            eager: false,
        }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        let mut g = G::random(0);
        g.rng = None;
        g.tape = tape;
        g
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "harness: below(0)");
        match &mut self.rng {
            Some(r) => {
                let v = if n == u64::MAX { r.next() } else { r.below(n) };
                if self.echo {
                    use std::io::Write;
                    let mut o = std::io::stdout();
                    let _ = writeln!(o, "{v}");
                    let _ = o.flush();
                }
                self.tape.push(v);
                self.pos += 1;
                v
            }
            None => {
                if self.pos < self.tape.len() {
                    let v = self.tape[self.pos].min(n - 1);
                    self.tape[self.pos] = v;
                    self.pos += 1;
                    v
                } else {
                    // exhausted: the simplest choice
                    self.tape.push(0);
                    self.pos += 1;
                    0
                }
            }
        }
    }
    pub fn echo(&mut self, on: bool) {
        self.echo = on;
    }
    pub fn consumed(&self) -> Vec<u64> {
        let mut t = self.tape[..self.pos].to_vec();
        while t.last() == Some(&0) {
            t.pop();
        }
        t
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range, shrinks to lo
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// weighted index; shrinks to 0
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let tot: u64 = ws.iter().sum();
        let mut x = self.below(tot);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    /// A PRNG for bulk data: one draw on the tape.
    pub fn bulk(&mut self) -> Rng {
        let s = self.u64();
        Rng::new(s)
    }
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.insert(s.into());
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            if self.eager {
                println!("{s}");
            }
            self.notes.push(s);
        }
    }
    pub fn nested<T>(&mut self, f: impl FnOnce(&mut G) -> T) -> T {
        self.depth += 1;
        let r = f(self);
        self.depth -= 1;
        r
    }
    pub fn depth(&self) -> u32 {
        self.depth
    }
}

#[derive(Debug, Clone)]
pub enum Outcome {
    Pass,
    Fail(String),
}

pub type Res = Result<(), String>;
pub type PropFn = fn(&mut G) -> Res;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let msg: String = msg.chars().take(400).collect();
        if std::env::var_os("VX_BT").is_some() {
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                if p.is_none() {
                    *p = Some(format!("panic at {loc}: {msg}"))
                }
            }
        });
    }));
}

pub fn take_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// Runs code of the system under test, turning a panic into Err(text).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let _ = take_panic();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(take_panic().unwrap_or_else(|| "panic".into())),
    }
}

pub fn run_case(f: PropFn, g: &mut G) -> Outcome {
    let _ = take_panic();
    match catch_unwind(AssertUnwindSafe(|| f(g))) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(_) => Outcome::Fail(take_panic().unwrap_or_else(|| "panic".into())),
    }
}

/// Normalises a failure message into a signature (digits removed, first line, shortened).
pub fn signature(m: &str) -> String {
    let line = m.lines().next().unwrap_or("");
    let mut out = String::new();
    let mut in_digit = false;
    for c in line.chars().take(160) {
        if c.is_ascii_digit() {
            if !in_digit {
                out.push('#');
            }
            in_digit = true;
        } else {
            in_digit = false;
            out.push(c);
        }
    }
    out
}

/// A coarse signature which must be kept during shrinking: everything before the first ':'
pub fn coarse(m: &str) -> String {
    let line = m.lines().next().unwrap_or("");
    line.split(" | ").next().unwrap_or("").to_string()
}

/// Tape shrinking: returns the smallest failing tape found and its message.
pub fn shrink(
    tape: Vec<u64>,
    msg: String,
    max_runs: usize,
    mut try_tape: impl FnMut(&[u64]) -> Option<(Vec<u64>, String)>,
) -> (Vec<u64>, String, usize) {
    let mut best = tape;
    let mut best_msg = msg;
    let mut runs = 0usize;
    let started = std::time::Instant::now();
    let better = |a: &[u64], b: &[u64]| -> bool { (a.len(), a) < (b.len(), b) };
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand = $cand;
            let mut ok = false;
            if runs < max_runs && started.elapsed().as_secs() < 60 && cand != best {
                runs += 1;
                if let Some((used, m)) = try_tape(&cand) {
                    if better(&used, &best) {
                        best = used;
                        best_msg = m;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }
    loop {
        let before = best.clone();
        // delete chunks
        for size in [256usize, 64, 32, 16, 8, 4, 3, 2, 1] {
            if size > best.len() {
                continue;
            }
            let mut i = best.len().saturating_sub(size) as isize;
            while i >= 0 {
                let iu = i as usize;
                if iu + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(iu..iu + size);
                    if !attempt!(c) {
                        i -= 1.max(size as isize / 2);
                        continue;
                    }
                }
                i -= 1;
            }
        }
        // zero chunks
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..i + size] {
                        *x = 0;
                    }
                    attempt!(c);
                }
                i += size;
            }
        }
        // minimise each
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut hi = best[i];
            // binary search for a smaller value
            let mut guardn = 0;
            while lo < hi && guardn < 20 && i < best.len() {
                guardn += 1;
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt!(c) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            // decrement a size-like choice and delete following entries
            if i < best.len() && best[i] > 0 {
                for k in [1usize, 2, 3, 4, 6] {
                    if i < best.len() && best[i] > 0 && i + 1 + k <= best.len() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + k);
                        attempt!(c);
                    }
                }
            }
            i += 1;
        }
        if best == before || runs >= max_runs || started.elapsed().as_secs() >= 60 {
            break;
        }
    }
    (best, best_msg, runs)
}
