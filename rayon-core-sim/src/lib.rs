//! Drop-in replacement for `rayon-core` used only by the simulation harness.
//!
//! It keeps rayon-core's public interface and semantics but executes all
//! parallel work on the calling thread.  Which half of a join runs first,
//! whether a half counts as stolen (which drives rayon's adaptive splitting),
//! the order of scoped and spawned tasks and the apparent number of workers
//! are decided by [`sim`].

use std::any::Any;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub mod sim;

/// Number of workers the simulator pretends to have.
pub fn current_num_threads() -> usize {
    sim::threads()
}
pub fn max_num_threads() -> usize {
    1024
}
pub fn current_thread_index() -> Option<usize> {
    Some(sim::worker())
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    sim::fork();
    let multi = sim::threads() > 1;
    // a real pool with one worker always runs a, then b, unstolen
    let b_first = multi && sim::decide();
    let stolen = multi && (b_first || sim::decide());
    let run_a = || catch_unwind(AssertUnwindSafe(|| oper_a(FnContext { migrated: false })));
    let run_b = || {
        catch_unwind(AssertUnwindSafe(|| {
            sim::as_worker(stolen, || oper_b(FnContext { migrated: stolen }))
        }))
    };
    let (ra, rb) = if b_first {
        let rb = run_b();
        let ra = run_a();
        (ra, rb)
    } else {
        let ra = run_a();
        if ra.is_err() && !stolen {
            // as in rayon: if `a` panics and `b` was not stolen, `b` never runs
            match ra {
                Err(p) => resume_unwind(p),
                Ok(_) => unreachable!(),
            }
        }
        let rb = run_b();
        (ra, rb)
    };
    match (ra, rb) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(p), _) => resume_unwind(p),
        (_, Err(p)) => resume_unwind(p),
    }
}

type Job<'scope> = Box<dyn FnOnce(&ScopeInner<'scope>) + 'scope>;

struct ScopeInner<'scope> {
    jobs: RefCell<VecDeque<Job<'scope>>>,
    panic: RefCell<Option<Box<dyn Any + Send>>>,
    fifo: bool,
}
// Only ever touched by the one OS thread that runs the scope.
unsafe impl Sync for ScopeInner<'_> {}
unsafe impl Send for ScopeInner<'_> {}

impl<'scope> ScopeInner<'scope> {
    fn new(fifo: bool) -> Self {
        ScopeInner { jobs: RefCell::new(VecDeque::new()), panic: RefCell::new(None), fifo }
    }
    fn push(&self, j: Job<'scope>) {
        sim::fork();
        self.jobs.borrow_mut().push_back(j);
    }
    fn run(&self) {
        loop {
            let (job, moved) = {
                let mut q = self.jobs.borrow_mut();
                if q.is_empty() {
                    break;
                }
                let multi = sim::threads() > 1;
                if q.len() > 1 && multi {
                    // pick any pending task: halve the candidates by decisions
                    let (mut lo, mut hi) = (0usize, q.len());
                    let mut moved = false;
                    while hi - lo > 1 {
                        let mid = lo + (hi - lo) / 2;
                        if sim::decide() {
                            lo = mid;
                            moved = true;
                        } else {
                            hi = mid;
                        }
                    }
                    (q.remove(lo), moved)
                } else if self.fifo {
                    (q.pop_front(), false)
                } else {
                    (q.pop_back(), false)
                }
            };
            let job = job.expect("job");
            let r = catch_unwind(AssertUnwindSafe(|| sim::as_worker(moved, || job(self))));
            if let Err(p) = r {
                self.panic.borrow_mut().get_or_insert(p);
            }
        }
        if let Some(p) = self.panic.borrow_mut().take() {
            resume_unwind(p);
        }
    }
}

macro_rules! scope_type {
    ($name:ident, $spawn:ident, $spawn_b:ident) => {
        pub struct $name<'scope> {
            inner: *const ScopeInner<'scope>,
            marker: PhantomData<Box<dyn FnOnce(&$name<'scope>) + Send + Sync + 'scope>>,
        }
        unsafe impl Send for $name<'_> {}
        unsafe impl Sync for $name<'_> {}
        impl fmt::Debug for $name<'_> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($name))
            }
        }
        impl<'scope> $name<'scope> {
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                let inner = unsafe { &*self.inner };
                inner.push(Box::new(move |i: &ScopeInner<'scope>| {
                    let s = $name { inner: i, marker: PhantomData };
                    body(&s)
                }));
            }
            pub fn $spawn_b<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let inner = unsafe { &*self.inner };
                let body = std::rc::Rc::new(body);
                for index in 0..sim::threads() {
                    let body = body.clone();
                    inner.push(Box::new(move |i: &ScopeInner<'scope>| {
                        let s = $name { inner: i, marker: PhantomData };
                        body(&s, BroadcastContext { index, n: sim::threads(), m: PhantomData })
                    }));
                }
            }
        }
    };
}
scope_type!(Scope, spawn, spawn_broadcast);
scope_type!(ScopeFifo, spawn_fifo, spawn_broadcast);

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(op)
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let inner = ScopeInner::new(false);
    let r = catch_unwind(AssertUnwindSafe(|| {
        op(&Scope { inner: &inner, marker: PhantomData })
    }));
    inner.run();
    r.unwrap_or_else(|p| resume_unwind(p))
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope_fifo(op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let inner = ScopeInner::new(true);
    let r = catch_unwind(AssertUnwindSafe(|| {
        op(&ScopeFifo { inner: &inner, marker: PhantomData })
    }));
    inner.run();
    r.unwrap_or_else(|p| resume_unwind(p))
}

pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    sim::fork();
    sim::defer(Box::new(func));
}
pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn(func)
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    let op = std::sync::Arc::new(op);
    for index in 0..sim::threads() {
        let op = op.clone();
        spawn(move || op(BroadcastContext { index, n: sim::threads(), m: PhantomData }));
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = sim::threads();
    let rev = n > 1 && sim::decide();
    let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
    for k in 0..n {
        let index = if rev { n - 1 - k } else { k };
        out[index] = Some(op(BroadcastContext { index, n, m: PhantomData }));
    }
    out.into_iter().map(|r| r.expect("ran")).collect()
}

pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    m: PhantomData<&'a ()>,
}
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
impl fmt::Debug for BroadcastContext<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "BroadcastContext({}/{})", self.index, self.n)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    Some(Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    Some(Yield::Idle)
}

#[derive(Debug)]
pub struct ThreadPool {
    threads: usize,
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        self.threads
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn(op)
    }
}

/// Never constructed: the simulator has no worker threads of its own.
#[derive(Debug)]
pub struct ThreadBuilder {
    _private: (),
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        0
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}

#[derive(Debug)]
pub struct ThreadPoolBuildError {
    _private: (),
}
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("simulated thread pool error")
    }
}
impl Error for ThreadPoolBuildError {}

#[derive(Debug, Default)]
pub struct ThreadPoolBuilder {
    threads: usize,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn thread_name<F>(self, _f: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        let threads = if self.threads == 0 { sim::threads() } else { self.threads };
        Ok(ThreadPool { threads })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
