//! Choice source, run context, violations: everything a simulated run draws,
//! records and reports goes through here.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use rayon_core::sim::{self, Policy};

// ---------------------------------------------------------------- prng

pub fn mix64(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Prng(pub u64);
impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng(mix64(seed ^ 0x5851_F42D_4C95_7F2D))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix64(self.0)
    }
}
impl ark_std::rand::RngCore for Prng {
    fn next_u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&b[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

// ---------------------------------------------------------------- OS randomness seam

thread_local! {
    static OS_RANDOM: Cell<u64> = const { Cell::new(0x1234_5678) };
}
/// Every call for OS randomness in this process (hash-map seeds, uuid, ...)
/// lands here and is answered from a per-thread seeded stream.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let s = OS_RANDOM.with(|s| {
            let n = s.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
            s.set(n);
            n
        });
        *buf.add(i) = (mix64(s) >> 24) as u8;
    }
    len as isize
}
pub fn set_os_random(seed: u64) {
    OS_RANDOM.with(|s| s.set(mix64(seed)));
}

// ---------------------------------------------------------------- violations

#[derive(Clone, Debug)]
pub struct Violation {
    /// short stable name of what went wrong; minimisation keeps it
    pub class: String,
    pub detail: String,
}
pub type R<T = ()> = Result<T, Violation>;
pub fn fail<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), detail: detail.into() })
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = panic_text(info.payload());
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/src/").map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", msg, loc));
    }));
}
fn panic_text(p: &(dyn Any + Send)) -> String {
    let s = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    s.lines().next().unwrap_or("").chars().take(160).collect()
}
/// Run `f`; a panic becomes `Err(description)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

// ---------------------------------------------------------------- context of one run

/// One recorded draw: bound and value.
#[derive(Clone)]
enum Mode {
    Generate(Prng),
    Replay,
}

pub struct Ctx {
    mode: Mode,
    input: Vec<u64>,
    pos: usize,
    /// what was drawn, in order
    pub draws: Vec<u64>,
    /// schedule overrides: n-th installed schedule deviates exactly at these decisions
    overrides: BTreeMap<usize, Vec<u64>>,
    pub record_sched: bool,
    pub recorded: Vec<Vec<u64>>,
    installs: usize,
    sched_open: bool,
    /// events and faults, human readable
    pub trace: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub digest: u64,
    pub shape: u64,
    pub sched_hash: u64,
    pub decisions: u64,
    pub deviations: u64,
    pub forks: u64,
    pub nontrivial: bool,
    /// run seed (selects structured reference strings)
    pub seed: u64,
    pub thorough: bool,
    /// draws are also written here as they happen, so that a run that ends the
    /// process still leaves its input behind
    pub draw_log: Option<std::fs::File>,
}

impl Ctx {
    pub fn generate(seed: u64, case: u64, thorough: bool) -> Self {
        Self::new(Mode::Generate(Prng::new(mix64(seed) ^ mix64(case.wrapping_mul(0xD134_2543_DE82_EF95)))), vec![], seed, thorough)
    }
    pub fn replay(seed: u64, draws: Vec<u64>, overrides: BTreeMap<usize, Vec<u64>>, thorough: bool) -> Self {
        let mut c = Self::new(Mode::Replay, draws, seed, thorough);
        c.overrides = overrides;
        c
    }
    fn new(mode: Mode, input: Vec<u64>, seed: u64, thorough: bool) -> Self {
        Ctx {
            mode,
            input,
            pos: 0,
            draws: vec![],
            overrides: BTreeMap::new(),
            record_sched: false,
            recorded: vec![],
            installs: 0,
            sched_open: false,
            trace: vec![],
            counters: BTreeMap::new(),
            digest: 0xcbf2_9ce4_8422_2325,
            shape: 0,
            sched_hash: 0,
            decisions: 0,
            deviations: 0,
            forks: 0,
            nontrivial: false,
            seed,
            thorough,
            draw_log: None,
        }
    }
    pub fn with_seed(mut self, seed: u64) -> Self {
        self.seed = seed;
        self
    }
    /// Draw a value in `0..n`.
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.mode {
            Mode::Generate(p) => {
                let r = p.next();
                if n == u64::MAX {
                    r
                } else {
                    ((r as u128 * n as u128) >> 64) as u64
                }
            }
            Mode::Replay => {
                let v = self.input.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        self.draws.push(v);
        if let Some(f) = &mut self.draw_log {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn pick(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// true with probability num/den; `false` is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.pick(hi_incl - lo + 1)
    }
    pub fn seed64(&mut self) -> u64 {
        self.draw(1 << 32)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.pick(i + 1);
            v.swap(i, j);
        }
    }
    /// Record an event; everything recorded is part of what a run observed.
    pub fn say(&mut self, s: impl Into<String>) {
        let s = s.into();
        self.mix(s.as_bytes());
        self.note(s);
    }
    fn note(&mut self, s: String) {
        if self.trace.len() < 400 {
            self.trace.push(s);
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn fault(&mut self, k: &str) {
        self.count(&format!("fault.{}", k));
    }
    pub fn probe(&mut self, k: &str) {
        self.count(&format!("probe.{}", k));
    }
    /// Mix something observable into the run digest.
    pub fn mix(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.digest = (self.digest ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    /// Install a scheduler drawn from the source; closes the previous one.
    pub fn schedule(&mut self) {
        let policy = match self.draw(4) {
            0 => Policy::InOrder,
            1 => Policy::Reversed,
            _ => Policy::Random(self.seed64()),
        };
        let threads = [1usize, 4, 2, 3, 8, 16, 5][self.pick(7)];
        let threads = if policy == Policy::InOrder { threads } else { threads.max(2) };
        self.install(policy, threads);
    }
    pub fn install(&mut self, policy: Policy, threads: usize) {
        self.close_schedule();
        let k = self.installs;
        self.installs += 1;
        let policy = match self.overrides.get(&k) {
            Some(d) => Policy::Deviate(d.clone()),
            None => policy,
        };
        match &policy {
            Policy::Random(_) => self.count("schedule.random"),
            Policy::Reversed => self.count("schedule.reversed"),
            Policy::InOrder => self.count("schedule.in_order"),
            Policy::Deviate(_) => self.count("schedule.deviations"),
        }
        let shown = match &policy {
            Policy::Deviate(d) if d.len() > 64 => format!("Deviate({} decisions)", d.len()),
            p => format!("{:?}", p),
        };
        self.note(format!("schedule #{}: {} with {} worker(s)", k, shown, threads));
        sim::start(policy, threads);
        if self.record_sched {
            sim::record();
        }
        self.sched_open = true;
    }
    /// Account for a schedule that ran to its end.
    pub fn absorb(&mut self, st: sim::Stats) {
        self.decisions += st.decisions;
        self.deviations += st.deviations;
        self.forks += st.forks;
        self.sched_hash = mix64(self.sched_hash ^ st.hash ^ st.decisions);
    }
    pub fn close_schedule(&mut self) {
        if !self.sched_open {
            return;
        }
        sim::drain();
        self.absorb(sim::stats());
        if self.record_sched {
            self.recorded.push(sim::recorded());
        }
        self.sched_open = false;
    }
}
