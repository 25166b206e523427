//! The seeded scheduler behind every fork, join, scope and spawn.
//!
//! State is per OS thread, so independent simulated runs on different OS
//! threads never influence each other.  Every scheduling decision is one call
//! of [`decide`]; a run is an exact function of the configured [`Policy`].

use std::cell::{Cell, RefCell};

/// How scheduling decisions are made.
#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    /// Left half first, no stealing, tasks in spawn order.
    InOrder,
    /// Right half first, always "stolen", tasks in reverse order.
    Reversed,
    /// Every decision drawn from a seeded generator.
    Random(u64),
    /// In order except at the listed decision numbers.
    Deviate(Vec<u64>),
}

thread_local! {
    static POLICY: RefCell<Policy> = const { RefCell::new(Policy::InOrder) };
    static RNG: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static HASH: Cell<u64> = const { Cell::new(0) };
    static DEVIATIONS: Cell<u64> = const { Cell::new(0) };
    static FORKS: Cell<u64> = const { Cell::new(0) };
    static THREADS: Cell<usize> = const { Cell::new(1) };
    static WORKER: Cell<usize> = const { Cell::new(0) };
    static TRACE: RefCell<Option<Vec<u64>>> = const { RefCell::new(None) };
    static PENDING: RefCell<Vec<Box<dyn FnOnce()>>> = const { RefCell::new(Vec::new()) };
}

/// What a run did.
#[derive(Clone, Debug, Default)]
pub struct Stats {
    /// decisions taken
    pub decisions: u64,
    /// decisions that departed from the in-order schedule
    pub deviations: u64,
    /// forks (joins, scopes, spawned tasks)
    pub forks: u64,
    /// hash of the decision sequence
    pub hash: u64,
}

/// Start a run: reset all counters, install the policy and the worker count.
pub fn start(policy: Policy, threads: usize) {
    let seed = match &policy {
        Policy::Random(s) => *s,
        _ => 0,
    };
    POLICY.with(|p| *p.borrow_mut() = policy);
    RNG.with(|r| r.set(seed ^ 0x9E37_79B9_7F4A_7C15));
    COUNT.with(|c| c.set(0));
    HASH.with(|c| c.set(0xcbf2_9ce4_8422_2325));
    DEVIATIONS.with(|c| c.set(0));
    FORKS.with(|c| c.set(0));
    THREADS.with(|t| t.set(threads.max(1)));
    WORKER.with(|t| t.set(0));
    TRACE.with(|t| *t.borrow_mut() = None);
}

/// Record the numbers of the deviating decisions from now on.
pub fn record() {
    TRACE.with(|t| *t.borrow_mut() = Some(Vec::new()));
}

/// The recorded deviations.
pub fn recorded() -> Vec<u64> {
    TRACE.with(|t| t.borrow().clone().unwrap_or_default())
}

/// Counters of the current run.
pub fn stats() -> Stats {
    Stats {
        decisions: COUNT.with(|c| c.get()),
        deviations: DEVIATIONS.with(|c| c.get()),
        forks: FORKS.with(|c| c.get()),
        hash: HASH.with(|c| c.get()),
    }
}

pub(crate) fn threads() -> usize {
    THREADS.with(|t| t.get())
}

pub(crate) fn worker() -> usize {
    WORKER.with(|t| t.get())
}

pub(crate) fn fork() {
    FORKS.with(|c| c.set(c.get() + 1));
}

fn next_rand() -> u64 {
    RNG.with(|r| {
        let mut z = r.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        r.set(z);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    })
}

/// One scheduling decision: `false` is the in-order choice.
pub(crate) fn decide() -> bool {
    let n = COUNT.with(|c| {
        let n = c.get();
        c.set(n + 1);
        n
    });
    let d = POLICY.with(|p| match &*p.borrow() {
        Policy::InOrder => false,
        Policy::Reversed => true,
        Policy::Random(_) => next_rand() & 1 == 1,
        Policy::Deviate(list) => list.binary_search(&n).is_ok(),
    });
    if d {
        DEVIATIONS.with(|c| c.set(c.get() + 1));
        TRACE.with(|t| {
            if let Some(v) = t.borrow_mut().as_mut() {
                v.push(n)
            }
        });
    }
    HASH.with(|h| {
        h.set((h.get() ^ (1 + d as u64)).wrapping_mul(0x100_0000_01b3));
    });
    d
}

/// Run `f` as if on another worker when `moved`.
pub(crate) fn as_worker<R>(moved: bool, f: impl FnOnce() -> R) -> R {
    let old = worker();
    if moved {
        let n = threads();
        WORKER.with(|w| w.set((old + 1) % n));
    }
    struct Restore(usize);
    impl Drop for Restore {
        fn drop(&mut self) {
            let o = self.0;
            WORKER.with(|w| w.set(o));
        }
    }
    let _r = Restore(old);
    f()
}

pub(crate) fn defer(f: Box<dyn FnOnce()>) {
    PENDING.with(|p| p.borrow_mut().push(f));
}

/// Run everything `spawn`ed outside a scope and still pending.
pub fn drain() {
    loop {
        let f = PENDING.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_empty() {
                None
            } else if p.len() > 1 && decide() {
                p.pop()
            } else {
                Some(p.remove(0))
            }
        });
        match f {
            Some(f) => f(),
            None => return,
        }
    }
}
