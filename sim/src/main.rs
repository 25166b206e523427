//! Deterministic simulation of zksql: supervisor, workers, replay, minimiser.

mod core;
mod gen;
mod p_crypto;
mod p_helpers;
mod p_predict;
mod p_tamper;
mod p_witness;
mod props;
mod session;
mod supervise;
mod world;

use std::collections::BTreeMap;
use std::fs::File;
use std::io::Write;
use std::os::fd::FromRawFd;

use crate::core::*;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
}

/// Keep one private channel to the caller and silence everything the code
/// under test prints; bound memory so that a runaway allocation ends only us.
pub fn private_output() -> File {
    unsafe {
        let out = dup(1);
        let null = File::options().read(true).write(true).open("/dev/null").unwrap();
        use std::os::fd::AsRawFd;
        dup2(null.as_raw_fd(), 1);
        dup2(null.as_raw_fd(), 2);
        let lim = [6u64 << 30, 6u64 << 30];
        setrlimit(9, &lim); // RLIMIT_AS
        let zero = [0u64, 0];
        setrlimit(4, &zero); // RLIMIT_CORE
        File::from_raw_fd(out)
    }
}

pub struct Outcome {
    pub violation: Option<Violation>,
    pub ctx: Ctx,
}

/// Run one case in a thread of its own: thread-local state (scheduler, OS
/// randomness, hash seeds) starts fresh, so the case is a function of its draws.
pub fn run_case(run: fn(&mut Ctx) -> R, mut ctx: Ctx) -> Outcome {
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            set_os_random(0);
            let r = guard(|| {
                let r = run(&mut ctx);
                ctx.close_schedule();
                r
            });
            let violation = match r {
                Ok(Ok(())) => None,
                Ok(Err(v)) => Some(v),
                Err(msg) => {
                    let _ = guard(|| ctx.close_schedule());
                    Some(Violation { class: "panic".into(), detail: format!("unexpected panic: {}", msg) })
                }
            };
            Outcome { violation, ctx }
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| panic!("case thread died"))
}

// ---------------------------------------------------------------- replay files

#[derive(Clone, Default)]
pub struct Replay {
    pub property: String,
    pub scenario: String,
    pub class: String,
    pub detail: String,
    pub build: String,
    pub seed: u64,
    pub thorough: bool,
    /// either the case to generate, or the exact draws
    pub case: u64,
    pub draws: Option<Vec<u64>>,
    pub overrides: BTreeMap<usize, Vec<u64>>,
    /// cases run earlier in the same process, when the violation depends on
    /// what they left behind
    pub before: Vec<u64>,
    pub digest: u64,
    pub trace: Vec<String>,
}
fn nums(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}
impl Replay {
    pub fn write(&self, path: &str) {
        let mut s = String::new();
        s += &format!("property: {}\nscenario: {}\nclass: {}\n", self.property, self.scenario, self.class);
        s += &format!("detail: {}\n", self.detail.replace('\n', " | "));
        s += &format!("build: {}\nseed: {}\nthorough: {}\ncase: {}\n", self.build, self.seed, self.thorough, self.case);
        s += &format!("digest: {:016x}\n", self.digest);
        if !self.before.is_empty() {
            s += "before:";
            for x in &self.before {
                s += &format!(" {}", x);
            }
            s += "\n";
        }
        if let Some(d) = &self.draws {
            s += "draws:";
            for x in d {
                s += &format!(" {}", x);
            }
            s += "\n";
        }
        for (k, v) in &self.overrides {
            s += &format!("schedule {}:", k);
            for x in v {
                s += &format!(" {}", x);
            }
            s += "\n";
        }
        s += "trace:\n";
        for t in &self.trace {
            s += &format!("  {}\n", t.replace('\n', " | "));
        }
        if let Some(dir) = std::path::Path::new(path).parent() {
            let _ = std::fs::create_dir_all(dir);
        }
        let _ = std::fs::write(path, s);
    }
    pub fn read(path: &str) -> Option<Replay> {
        let text = std::fs::read_to_string(path).ok()?;
        let mut r = Replay::default();
        let mut in_trace = false;
        for l in text.lines() {
            if in_trace {
                r.trace.push(l.trim_start().to_string());
                continue;
            }
            let (k, v) = l.split_once(':')?;
            let v = v.trim();
            match k {
                "property" => r.property = v.into(),
                "scenario" => r.scenario = v.into(),
                "class" => r.class = v.into(),
                "detail" => r.detail = v.into(),
                "build" => r.build = v.into(),
                "seed" => r.seed = v.parse().ok()?,
                "thorough" => r.thorough = v == "true",
                "case" => r.case = v.parse().ok()?,
                "digest" => r.digest = u64::from_str_radix(v, 16).ok()?,
                "draws" => r.draws = Some(nums(v)),
                "before" => r.before = nums(v),
                "trace" => in_trace = true,
                _ => {
                    if let Some(n) = k.strip_prefix("schedule ") {
                        r.overrides.insert(n.parse().ok()?, nums(v));
                    }
                }
            }
        }
        Some(r)
    }
    pub fn context(&self) -> Ctx {
        match &self.draws {
            Some(d) => Ctx::replay(self.seed, d.clone(), self.overrides.clone(), self.thorough),
            None => Ctx::generate(case_seed(self.seed, &self.property, &self.build), self.case, self.thorough).with_seed(self.seed),
        }
    }
}
/// Cases of different properties and builds explore different inputs.
pub fn case_seed(seed: u64, property: &str, build: &str) -> u64 {
    let mut h = mix64(seed ^ 0xA5A5);
    for b in property.bytes().chain(build.bytes()) {
        h = mix64(h ^ b as u64);
    }
    h
}
pub fn build_name() -> &'static str {
    let me = std::env::current_exe().unwrap_or_default();
    if me.to_string_lossy().ends_with("-checked") {
        "checked"
    } else {
        "release"
    }
}

// ---------------------------------------------------------------- worker

/// Cases that are run twice, to see that nothing outside the simulator's
/// control (state kept by the process included) influences them.
fn twice(i: u64) -> bool {
    i % 16 == 5
}
/// Run a case, or run it twice and compare.
fn judged(run: fn(&mut Ctx) -> R, ctx: impl Fn() -> Ctx, again: bool) -> Outcome {
    let mut o = run_case(run, ctx());
    if again {
        let o2 = run_case(run, ctx());
        let same = o2.ctx.digest == o.ctx.digest
            && o2.ctx.sched_hash == o.ctx.sched_hash
            && o2.ctx.draws == o.ctx.draws
            && o2.violation.as_ref().map(|v| &v.class) == o.violation.as_ref().map(|v| &v.class);
        if o.violation.is_none() && !same {
            o.violation = Some(Violation {
                class: "irreproducible".into(),
                detail: "the same case run twice gave different results: something the simulator does not control influences them".into(),
            });
        }
    }
    o
}
fn one_line(s: &str) -> String {
    s.replace(['\n', '\t'], " ")
}

fn worker(a: &[String]) {
    let (pid, seed, thorough) = (&a[0], a[1].parse::<u64>().unwrap(), a[2] == "thorough");
    let (start, stride, end) = (a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap());
    let mut out = private_output();
    install_panic_hook();
    let scen = props::scenarios(pid);
    world::init_params(seed);
    let build = build_name();
    let cs = case_seed(seed, pid, build);
    let _ = writeln!(out, "R");
    let mut i = start;
    while i < end {
        let (name, run) = scen[props::slot(i, scen.len())];
        let _ = writeln!(out, "B\t{}", i);
        let again = twice(i);
        let o = judged(run, || Ctx::generate(cs, i, thorough).with_seed(seed), again);
        let c = &o.ctx;
        let violation = o.violation.clone();
        if let Some(v) = &violation {
            let r = Replay {
                property: pid.clone(),
                scenario: name.into(),
                class: v.class.clone(),
                detail: v.detail.clone(),
                build: build.into(),
                seed,
                thorough,
                case: i,
                draws: Some(c.draws.clone()),
                overrides: BTreeMap::new(),
                before: (start..i).step_by(stride as usize).collect(),
                digest: c.digest,
                trace: c.trace.clone(),
            };
            let path = format!("{}/raw-{}-{}-{}.replay", props::replay_dir(), pid, build, i);
            r.write(&path);
            let _ = writeln!(out, "V\t{}\t{}\t{}\t{}\t{}", i, name, v.class, path, one_line(&v.detail));
        }
        if i < 4 * scen.len() as u64 && c.nontrivial {
            let t: Vec<String> = c.trace.iter().take(14).map(|s| one_line(s).chars().take(220).collect()).collect();
            let _ = writeln!(out, "S\t{}\t{}\t{}", i, name, t.join("\t"));
        }
        let k: Vec<String> = c.counters.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
        let _ = writeln!(
            out,
            "E\t{}\t{:x}\t{:x}\t{:x}\t{}\t{}\t{}\t{}\t{}\t{}",
            i,
            c.digest,
            c.shape,
            c.sched_hash,
            c.decisions,
            c.deviations,
            c.forks,
            c.nontrivial as u8,
            again as u8,
            k.join(" ")
        );
        i += stride;
    }
    let _ = writeln!(out, "Q");
}

// ---------------------------------------------------------------- replay and shrink

fn find(pid: &str, scenario: &str) -> fn(&mut Ctx) -> R {
    props::scenarios(pid).into_iter().find(|s| s.0 == scenario).map(|s| s.1).unwrap_or_else(|| {
        eprintln!("unknown scenario {}/{}", pid, scenario);
        std::process::exit(2)
    })
}

/// `replay FILE [log]`: run it again, print what happens. Exit 1 when the
/// violation is reproduced.
fn replay(path: &str, log: Option<&String>) -> i32 {
    let Some(r) = Replay::read(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    if r.build != build_name() {
        // the other build of the same simulator
        let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
        let other = if r.build == "checked" { format!("{}-checked", me) } else { me.trim_end_matches("-checked").to_string() };
        let st = std::process::Command::new(other).arg("replay").arg(path).args(log).status();
        return st.ok().and_then(|s| s.code()).unwrap_or(134);
    }
    let run = find(&r.property, &r.scenario);
    let mut out = private_output();
    install_panic_hook();
    world::init_params(r.seed);
    let scen = props::scenarios(&r.property);
    for i in &r.before {
        let (name, run) = scen[props::slot(*i, scen.len())];
        let _ = writeln!(out, "  first, in the same process: case {} ({})", i, name);
        let cs = case_seed(r.seed, &r.property, &r.build);
        let _ = judged(run, || Ctx::generate(cs, *i, r.thorough).with_seed(r.seed), twice(*i));
    }
    let ctx = || {
        let mut ctx = r.context();
        if let Some(l) = log {
            ctx.draw_log = File::create(l).ok();
        }
        ctx
    };
    let o = judged(run, ctx, r.class == "irreproducible");
    for t in &o.ctx.trace {
        let _ = writeln!(out, "  {}", t);
    }
    match &o.violation {
        Some(v) => {
            let _ = writeln!(out, "reproduced: property={} scenario={} class={} digest={:016x}", r.property, r.scenario, v.class, o.ctx.digest);
            let _ = writeln!(out, "  {}", v.detail);
            let exact = r.draws.is_none() || (v.class == r.class && o.ctx.digest == r.digest);
            let _ = writeln!(out, "exactly as recorded: {}", exact);
            let _ = writeln!(out, "VIOLATION property={} replay={}", r.property, path);
            1
        }
        None => {
            let _ = writeln!(out, "no violation");
            0
        }
    }
}

struct Shrink {
    r: Replay,
    run: fn(&mut Ctx) -> R,
    left: usize,
    until: std::time::Instant,
    best: Outcome,
}
impl Shrink {
    fn ok(&self) -> bool {
        self.left > 0 && std::time::Instant::now() < self.until
    }
    fn attempt(&mut self, draws: Vec<u64>, overrides: BTreeMap<usize, Vec<u64>>, record: bool) -> bool {
        if !self.ok() {
            return false;
        }
        self.left -= 1;
        let mut ctx = Ctx::replay(self.r.seed, draws, overrides.clone(), self.r.thorough);
        ctx.record_sched = record;
        let o = run_case(self.run, ctx);
        let hit = o.violation.as_ref().map(|v| v.class == self.r.class).unwrap_or(false);
        if hit {
            self.r.overrides = overrides;
            self.best = o;
        }
        hit
    }
}

/// `shrink RAW OUT`: reduce draws and schedule while the same class of
/// violation remains.
fn shrink(raw: &str, out_path: &str, seconds: u64) -> i32 {
    let _out = private_output();
    install_panic_hook();
    let Some(r) = Replay::read(raw) else { return 2 };
    world::init_params(r.seed);
    let run = find(&r.property, &r.scenario);
    let first = run_case(run, r.context());
    let mut s = Shrink {
        run,
        left: 3000,
        until: std::time::Instant::now() + std::time::Duration::from_secs(seconds),
        best: first,
        r: r.clone(),
    };
    if s.best.violation.as_ref().map(|v| v.class != r.class).unwrap_or(true) {
        return 3; // did not reproduce: keep the raw file
    }
    let size = |d: &[u64]| (d.len(), d.iter().filter(|x| **x != 0).count());
    // draws: drop chunks, zero chunks, then lower single values
    loop {
        let before = size(&s.best.ctx.draws);
        let mut chunk = (s.best.ctx.draws.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < s.best.ctx.draws.len() && s.ok() {
                let cur = s.best.ctx.draws.clone();
                let j = (i + chunk).min(cur.len());
                let mut cut = cur[..i].to_vec();
                cut.extend_from_slice(&cur[j..]);
                let old = size(&cur);
                let keep = s.best_clone();
                if s.attempt(cut, BTreeMap::new(), false) && size(&s.best.ctx.draws) < old {
                    continue;
                }
                s.restore(keep);
                if cur[i..j].iter().any(|x| *x != 0) {
                    let mut z = cur.clone();
                    z[i..j].iter_mut().for_each(|x| *x = 0);
                    let keep = s.best_clone();
                    if !(s.attempt(z, BTreeMap::new(), false) && size(&s.best.ctx.draws) < old) {
                        s.restore(keep);
                    }
                }
                i += chunk;
            }
            if chunk == 1 {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
        if size(&s.best.ctx.draws) >= before || !s.ok() {
            break;
        }
    }
    for i in 0..s.best.ctx.draws.len() {
        for div in [0u64, 1, 2] {
            let mut cur = s.best.ctx.draws.clone();
            if i >= cur.len() || cur[i] <= 1 || !s.ok() {
                break;
            }
            cur[i] = match div {
                0 => 1,
                1 => cur[i] / 2,
                _ => cur[i] - 1,
            };
            let keep = s.best_clone();
            let n = s.best.ctx.draws.len();
            if !s.attempt(cur, BTreeMap::new(), false) || s.best.ctx.draws.len() > n {
                s.restore(keep);
            }
        }
    }
    // schedule: everything in order, else the fewest deviations
    let draws = s.best.ctx.draws.clone();
    let keep = s.best_clone();
    if s.attempt(draws.clone(), BTreeMap::new(), true) {
        let rec = s.best.ctx.recorded.clone();
        let all: BTreeMap<usize, Vec<u64>> = rec.iter().cloned().enumerate().collect();
        if s.attempt(draws.clone(), all.clone(), false) {
            let mut cur = all;
            let keys: Vec<usize> = cur.keys().copied().collect();
            for k in keys {
                let mut c = cur.clone();
                c.insert(k, vec![]);
                if s.attempt(draws.clone(), c.clone(), false) {
                    cur = c;
                    continue;
                }
                let mut chunk = (cur[&k].len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < cur[&k].len() && s.ok() {
                        let mut l = cur[&k].clone();
                        let j = (i + chunk).min(l.len());
                        l.drain(i..j);
                        let mut c = cur.clone();
                        c.insert(k, l);
                        if s.attempt(draws.clone(), c.clone(), false) {
                            cur = c;
                        } else {
                            i += chunk;
                        }
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk = (chunk / 2).max(1);
                }
            }
            // leave `best` describing exactly this schedule
            s.left = s.left.max(1);
            s.until = std::time::Instant::now() + std::time::Duration::from_secs(30);
            s.attempt(draws, cur, false);
        } else {
            s.restore(keep);
        }
    } else {
        s.restore(keep);
    }
    let b = &s.best;
    let mut r = s.r.clone();
    r.draws = Some(b.ctx.draws.clone());
    r.digest = b.ctx.digest;
    r.detail = b.violation.as_ref().map(|v| v.detail.clone()).unwrap_or_default();
    r.trace = b.ctx.trace.clone();
    r.write(out_path);
    0
}
impl Shrink {
    fn best_clone(&self) -> (Vec<u64>, BTreeMap<usize, Vec<u64>>) {
        (self.best.ctx.draws.clone(), self.r.overrides.clone())
    }
    fn restore(&mut self, k: (Vec<u64>, BTreeMap<usize, Vec<u64>>)) {
        if self.best.ctx.draws == k.0 && self.r.overrides == k.1 {
            return;
        }
        let o = run_case(self.run, Ctx::replay(self.r.seed, k.0, k.1.clone(), self.r.thorough));
        self.best = o;
        self.r.overrides = k.1;
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => {
            worker(&a[1..]);
            0
        }
        Some("replay") => replay(&a[1], a.get(2)),
        Some("shrink") => shrink(&a[1], &a[2], a.get(3).and_then(|s| s.parse().ok()).unwrap_or(40)),
        Some("check") => supervise::check(&a[1], &a[2..]),
        Some("list") => {
            for p in props::all() {
                println!("{} {:?}", p, props::scenarios(p).iter().map(|s| s.0).collect::<Vec<_>>());
            }
            0
        }
        _ => {
            eprintln!("usage: check PID [--cases N] [--wall S] | replay FILE | list");
            2
        }
    };
    std::process::exit(code)
}
