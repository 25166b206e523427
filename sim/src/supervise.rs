//! Runs the cases of one property across worker processes, notices aborts,
//! runaway memory and hangs from outside, minimises, and writes evidence.

use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::time::{Duration, Instant};

use crate::{props, Replay};

/// A single case takes milliseconds; one that takes this long does not end.
const HANG: Duration = Duration::from_secs(120);
const WORKERS: u64 = props::WORKERS;

enum Msg {
    Line(usize, String),
    End(usize),
}
struct Running {
    child: Child,
    current: Option<u64>,
    since: Instant,
    build: &'static str,
    start: u64,
    ready: bool,
    finished: bool,
    dead: bool,
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    rerun: u64,
    nontrivial: u64,
    digests: BTreeSet<String>,
    shapes: BTreeSet<String>,
    schedules: BTreeSet<String>,
    decisions: u64,
    deviations: u64,
    forks: u64,
    counters: BTreeMap<String, u64>,
    samples: BTreeMap<String, (String, Vec<String>)>,
    per_build: BTreeMap<String, u64>,
    per_scenario: BTreeMap<String, u64>,
}
struct Found {
    scenario: String,
    class: String,
    detail: String,
    path: String,
    times: u64,
}

struct Known {
    property: String,
    key: String,
    text: String,
}
fn known_findings() -> Vec<Known> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", props::home())).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("open: ")?;
            let mut it = l.splitn(3, ' ');
            let property = it.next()?.strip_prefix("property=")?.to_string();
            let key = it.next()?.strip_prefix("key=")?.to_string();
            Some(Known { property, key, text: it.next().unwrap_or("").to_string() })
        })
        .collect()
}

fn binary(build: &str) -> String {
    let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
    let me = me.trim_end_matches("-checked").to_string();
    if build == "checked" {
        format!("{}-checked", me)
    } else {
        me
    }
}

fn start(pid: &str, seed: u64, tier: &str, build: &'static str, from: u64, end: u64, id: usize, tx: &Sender<Msg>) -> Running {
    let mut child = Command::new(binary(build))
        .args(["worker", pid, &seed.to_string(), tier, &from.to_string(), &WORKERS.to_string(), &end.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("start worker");
    let out = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(Msg::Line(id, l)).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Msg::End(id));
    });
    Running { child, current: None, since: Instant::now(), build, start: from, ready: false, finished: false, dead: false }
}

/// Run one replay file in a process of its own. `None`: it did not end.
fn alone(path: &str, build: &str, limit: Duration, log: Option<&str>) -> (Option<i32>, String) {
    let mut c = Command::new(binary(build));
    c.arg("replay").arg(path);
    if let Some(l) = log {
        c.arg(l);
    }
    let mut child = match c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(_) => return (Some(2), String::new()),
    };
    let mut out = child.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut out, &mut s);
        s
    });
    let t = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => return (Some(st.code().unwrap_or(134)), h.join().unwrap_or_default()),
            Ok(None) if t.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                return (None, String::new());
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

/// Turn what a worker left into a replay file that reproduces in a process of
/// its own: the minimised case, or, when the case only fails after others that
/// ran in the same process, the case with the fewest of them.
fn settle(pid: &str, f: &mut Found, minimise: bool) {
    let Some(raw) = Replay::read(&f.path) else { return };
    let raw_path = f.path.clone();
    let out = format!("{}/{}-{}-{}.replay", props::replay_dir(), pid, f.scenario, f.class);
    let limit = Duration::from_secs(60);
    let exact = |path: &str| {
        let (code, text) = alone(path, &raw.build, limit, None);
        code == Some(1) && text.contains("exactly as recorded: true")
    };
    let mut r = raw.clone();
    r.before.clear();
    r.write(&raw_path);
    if exact(&raw_path) {
        if minimise && raw.class != "irreproducible" {
            let ok = Command::new(binary(&raw.build))
                .args(["shrink", &raw_path, &out, "30"])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .map(|s| s.success())
                .unwrap_or(false);
            if ok && exact(&out) {
                let _ = std::fs::remove_file(&raw_path);
                f.path = out;
                if let Some(r) = Replay::read(&f.path) {
                    f.detail = r.detail;
                }
                return;
            }
        }
    } else {
        let mut best = raw.before.clone();
        r.before = best.clone();
        r.write(&raw_path);
        if best.is_empty() || !exact(&raw_path) {
            f.detail += " [not reproduced by a replay in a process of its own]";
            return;
        }
        let tmp = format!("{}.tmp", raw_path);
        let until = Instant::now() + Duration::from_secs(90);
        let mut chunk = best.len().div_ceil(2);
        while !best.is_empty() && Instant::now() < until {
            let mut i = 0;
            while i < best.len() && Instant::now() < until {
                let mut d = best.clone();
                d.drain(i..(i + chunk).min(best.len()));
                r.before = d.clone();
                r.write(&tmp);
                if exact(&tmp) {
                    best = d;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        let _ = std::fs::remove_file(&tmp);
        r.before = best;
        r.write(&raw_path);
        f.detail += &format!(" [after {} other case(s) in the same process]", r.before.len());
    }
    if std::fs::rename(&raw_path, &out).is_ok() {
        f.path = out;
    }
}

/// A worker stopped answering in this case: find out whether the case does that
/// by itself, and if so leave a replay file with its draws.
fn confirm(pid: &str, seed: u64, tier: &str, build: &'static str, case: u64, class: &str) -> Option<Found> {
    let scen = props::scenarios(pid);
    let name = scen[props::slot(case, scen.len())].0;
    let path = format!("{}/{}-{}-{}-{}.replay", props::replay_dir(), pid, class, build, case);
    let log = format!("{}.draws", path);
    let mut r = Replay {
        property: pid.into(),
        scenario: name.into(),
        class: class.into(),
        detail: String::new(),
        build: build.into(),
        seed,
        thorough: tier == "thorough",
        case,
        ..Default::default()
    };
    r.write(&path);
    let (code, _) = alone(&path, build, HANG, Some(&log));
    let (class, what) = match code {
        Some(0) | Some(1) | Some(2) => {
            let _ = std::fs::remove_file(&log);
            let _ = std::fs::remove_file(&path);
            return None;
        }
        Some(c) => ("abort", format!("the process ended (status {}) instead of returning an error", c)),
        None => ("hang", format!("no answer within {} s", HANG.as_secs())),
    };
    let draws: Vec<u64> = std::fs::read(&log)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect();
    let _ = std::fs::remove_file(&log);
    r.class = class.into();
    r.detail = what.clone();
    r.draws = Some(draws.clone());
    r.write(&path);
    if class == "abort" {
        // cut the draws down while the process still dies
        let mut best = draws;
        let until = Instant::now() + Duration::from_secs(60);
        let mut chunk = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && Instant::now() < until {
                let j = (i + chunk).min(best.len());
                let mut hit = false;
                for zero in [false, true] {
                    let mut d = best.clone();
                    if zero {
                        if d[i..j].iter().all(|x| *x == 0) {
                            continue;
                        }
                        d[i..j].iter_mut().for_each(|x| *x = 0);
                    } else {
                        d.drain(i..j);
                    }
                    let tmp = format!("{}.tmp", path);
                    let mut t = r.clone();
                    t.draws = Some(d.clone());
                    t.write(&tmp);
                    let (code, _) = alone(&tmp, build, Duration::from_secs(20), None);
                    let _ = std::fs::remove_file(&tmp);
                    if matches!(code, Some(c) if c > 2) {
                        best = d;
                        hit = !zero;
                        break;
                    }
                }
                if !hit {
                    i += chunk;
                }
            }
            if chunk == 1 || Instant::now() >= until {
                break;
            }
            chunk /= 2;
        }
        r.draws = Some(best);
        r.write(&path);
    }
    Some(Found { scenario: name.into(), class: class.into(), detail: what, path, times: 1 })
}

pub fn check(pid: &str, args: &[String]) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { "thorough" } else { "quick" };
    let mut plan = props::plan(pid, tier == "thorough");
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let v: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        match a.as_str() {
            "--cases" => plan.release = v,
            "--checked" => plan.checked = v,
            "--wall" => plan.wall = v,
            _ => {}
        }
    }
    let scen = props::scenarios(pid);
    if scen.is_empty() {
        eprintln!("no such property: {}", pid);
        return 2;
    }
    let known = known_findings();
    let mut tally = Tally::default();
    let mut found: BTreeMap<String, Found> = BTreeMap::new();
    let mut unconfirmed = 0u64;
    let mut capped = false;

    for (build, end) in [("release", plan.release), ("checked", plan.checked)] {
        if end == 0 {
            continue;
        }
        let share = plan.release + plan.checked;
        let limit = if build == "release" {
            t0 + Duration::from_secs_f64(plan.wall as f64 * plan.release as f64 / share as f64)
        } else {
            t0 + Duration::from_secs(plan.wall)
        };
        let (tx, rx): (Sender<Msg>, Receiver<Msg>) = channel();
        let mut ws: Vec<Running> =
            (0..WORKERS.min(end)).map(|w| start(pid, seed, tier, build, w, end, w as usize, &tx)).collect();
        let mut stopping = false;
        loop {
            if ws.iter().all(|w| w.dead) {
                break;
            }
            let msg = rx.recv_timeout(Duration::from_millis(200)).ok();
            if !stopping && Instant::now() > limit {
                stopping = true;
                capped = true;
                for w in ws.iter_mut().filter(|w| !w.dead) {
                    w.finished = true;
                    let _ = w.child.kill();
                }
            }
            match msg {
                Some(Msg::Line(id, l)) => {
                    let w = &mut ws[id];
                    w.since = Instant::now();
                    let p: Vec<&str> = l.split('\t').collect();
                    match p[0] {
                        "R" => w.ready = true,
                        "B" => w.current = p.get(1).and_then(|x| x.parse().ok()),
                        "Q" => {
                            w.finished = true;
                            w.current = None;
                        }
                        "E" if p.len() >= 11 => {
                            let i: u64 = p[1].parse().unwrap_or(0);
                            w.current = None;
                            w.start = i + WORKERS;
                            tally.evaluations += 1;
                            *tally.per_build.entry(w.build.into()).or_insert(0) += 1;
                            *tally.per_scenario.entry(scen[props::slot(i, scen.len())].0.into()).or_insert(0) += 1;
                            tally.shapes.insert(p[3].into());
                            tally.schedules.insert(p[4].into());
                            tally.decisions += p[5].parse::<u64>().unwrap_or(0);
                            tally.deviations += p[6].parse::<u64>().unwrap_or(0);
                            tally.forks += p[7].parse::<u64>().unwrap_or(0);
                            if p[8] == "1" {
                                tally.nontrivial += 1;
                                tally.digests.insert(p[2].into());
                            }
                            tally.rerun += (p[9] == "1") as u64;
                            for kv in p[10].split(' ') {
                                if let Some((k, v)) = kv.split_once('=') {
                                    *tally.counters.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                                }
                            }
                        }
                        "V" if p.len() >= 6 => {
                            let key = format!("{}/{}", p[2], p[3]);
                            match found.get_mut(&key) {
                                Some(f) => {
                                    f.times += 1;
                                    let _ = std::fs::remove_file(p[4]);
                                }
                                None => {
                                    found.insert(
                                        key,
                                        Found {
                                            scenario: p[2].into(),
                                            class: p[3].into(),
                                            path: p[4].into(),
                                            detail: p[5].into(),
                                            times: 1,
                                        },
                                    );
                                }
                            }
                        }
                        "S" if p.len() >= 4 => {
                            tally
                                .samples
                                .entry(p[2].into())
                                .or_insert_with(|| (p[1].into(), p[3..].iter().map(|s| s.to_string()).collect()));
                        }
                        _ => {}
                    }
                }
                Some(Msg::End(id)) => {
                    let _ = ws[id].child.wait();
                    ws[id].dead = true;
                    if ws[id].finished {
                        continue;
                    }
                    // it died in the middle of something
                    if !ws[id].ready {
                        found.entry("parameters/abort".into()).or_insert(Found {
                            scenario: "parameters".into(),
                            class: "abort".into(),
                            detail: "parameters cannot be generated".into(),
                            path: "none".into(),
                            times: 1,
                        });
                        continue;
                    }
                    let case = ws[id].current.unwrap_or(ws[id].start);
                    restart(pid, seed, tier, build, case, "abort", &mut found, &mut unconfirmed);
                    if Instant::now() < limit && case + WORKERS < end {
                        ws[id] = start(pid, seed, tier, build, case + WORKERS, end, id, &tx);
                    }
                }
                None => {}
            }
            for id in 0..ws.len() {
                if ws[id].dead || ws[id].finished || ws[id].since.elapsed() < HANG {
                    continue;
                }
                let case = ws[id].current.unwrap_or(ws[id].start);
                ws[id].finished = true;
                let _ = ws[id].child.kill();
                restart(pid, seed, tier, build, case, "hang", &mut found, &mut unconfirmed);
                // the rest of this worker's cases are not run: a hang was found
            }
        }
    }
    let run_s = t0.elapsed().as_secs_f64();

    // minimise
    let mut lines = vec![];
    let mut bad = 0;
    let mut known_seen: BTreeSet<String> = BTreeSet::new();
    let mut shrunk = 0;
    for (key, f) in found.iter_mut() {
        if let Some(k) = known.iter().find(|k| k.property == pid && k.key == *key) {
            known_seen.insert(format!("KNOWN-FINDING: property={} {}: {} (seen {} times)", pid, key, k.text, f.times));
            let _ = std::fs::remove_file(&f.path);
            continue;
        }
        bad += 1;
        if f.path != "none" && f.class != "abort" && f.class != "hang" {
            settle(pid, f, shrunk < 4);
            shrunk += 1;
        }
        lines.push(format!("{} (seen {} times): {}", key, f.times, f.detail));
        lines.push(format!("VIOLATION property={} replay={}", pid, f.path));
    }
    for k in &known_seen {
        println!("{}", k);
    }
    for l in &lines {
        println!("{}", l);
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(pid, tier, seed, &tally, &plan, run_s, wall, bad, &known_seen, unconfirmed, capped);
    println!(
        "{}: {} runs ({} non-trivial, {} distinct) in {:.1} s, {} schedules, {} violation(s){}",
        pid,
        tally.evaluations,
        tally.nontrivial,
        tally.digests.len(),
        run_s,
        tally.schedules.len(),
        bad,
        if capped { " [stopped at the time limit]" } else { "" }
    );
    if bad > 0 {
        1
    } else if tally.evaluations == 0 {
        eprintln!("nothing ran");
        2
    } else {
        0
    }
}

#[allow(clippy::too_many_arguments)]
fn restart(
    pid: &str,
    seed: u64,
    tier: &str,
    build: &'static str,
    case: u64,
    class: &str,
    found: &mut BTreeMap<String, Found>,
    unconfirmed: &mut u64,
) {
    let scen = props::scenarios(pid);
    let name = scen[props::slot(case, scen.len())].0;
    for c in ["abort", "hang"] {
        if let Some(f) = found.get_mut(&format!("{}/{}", name, c)) {
            f.times += 1;
            return;
        }
    }
    match confirm(pid, seed, tier, build, case, class) {
        Some(f) => {
            found.insert(format!("{}/{}", f.scenario, f.class), f);
        }
        None => *unconfirmed += 1,
    }
}

// ---------------------------------------------------------------- evidence

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}
fn obj(it: impl Iterator<Item = (String, u64)>) -> String {
    let v: Vec<String> = it.map(|(k, v)| format!("{}: {}", q(&k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    pid: &str,
    tier: &str,
    seed: u64,
    t: &Tally,
    plan: &props::Plan,
    run_s: f64,
    wall: f64,
    bad: u64,
    known: &BTreeSet<String>,
    unconfirmed: u64,
    capped: bool,
) {
    let group = |p: &str| {
        let p = format!("{}.", p);
        obj(t.counters.iter().filter(|(k, _)| k.starts_with(&p)).map(|(k, v)| (k[p.len()..].to_string(), *v)))
    };
    let samples: Vec<String> = t
        .samples
        .iter()
        .take(8)
        .map(|(name, (i, lines))| {
            let l: Vec<String> = lines.iter().map(|s| q(s)).collect();
            format!("{{\"scenario\": {}, \"case\": {}, \"trace\": [{}]}}", q(name), i, l.join(", "))
        })
        .collect();
    let per_hour = if run_s > 0.0 { (t.evaluations as f64 * 3600.0 / run_s) as u64 } else { 0 };
    let s = format!(
        r#"{{
 "property": {pid}, "tier": {tier}, "seed": {seed}, "level": {level},
 "coverage": {{
  "evaluations": {ev},
  "distinct_nontrivial": {dn},
  "rule": {rule},
  "samples": [{samples}],
  "nontrivial_runs": {nt},
  "seeds_per_hour": {ph},
  "runs_repeated_and_compared": {rr},
  "simulated_time": {{"scheduler_decisions": {dec}, "decisions_departing_from_in_order": {dev}, "forks": {forks}, "protocol_steps": {steps}, "note": "the system has no clock; simulated time is counted in scheduler decisions and protocol steps"}},
  "faults_injected": {faults},
  "probes": {probes},
  "outcomes": {outcomes},
  "refused_at": {refused},
  "steps_by_kind": {kinds},
  "schedules": {scheds},
  "other_counters": {others},
  "distinct": {{"run_digests": {dd}, "program_shapes": {shapes}, "schedules": {ds}}},
  "runs_by_build": {builds},
  "runs_by_scenario": {scens},
  "planned": {{"release": {pr}, "checked": {pc}, "wall_s": {pw}, "stopped_at_time_limit": {capped}}},
  "real_components": {real},
  "stubs": {stubs},
  "known_findings_seen": [{known}],
  "unconfirmed_worker_deaths": {unconfirmed}
 }},
 "assumptions": [{assume}],
 "wall_s": {wall:.2},
 "violations": {bad}
}}
"#,
        pid = q(pid),
        tier = q(tier),
        level = q(props::level(pid)),
        ev = t.evaluations,
        dn = t.digests.len(),
        rule = q(&props::rule(pid)),
        samples = samples.join(", "),
        nt = t.nontrivial,
        ph = per_hour,
        rr = t.rerun,
        dec = t.decisions,
        dev = t.deviations,
        forks = t.forks,
        steps = t.counters.get("steps.total").copied().unwrap_or(0),
        faults = group("fault"),
        probes = group("probe"),
        outcomes = group("outcome"),
        refused = group("refused_at"),
        kinds = group("step"),
        scheds = group("schedule"),
        others = obj(
            t.counters
                .iter()
                .filter(|(k, _)| !["fault.", "probe.", "outcome.", "refused_at.", "step.", "schedule.", "steps."].iter().any(|p| k.starts_with(p)))
                .map(|(k, v)| (k.clone(), *v))
        ),
        dd = t.digests.len(),
        shapes = t.shapes.len(),
        ds = t.schedules.len(),
        builds = obj(t.per_build.iter().map(|(k, v)| (k.clone(), *v))),
        scens = obj(t.per_scenario.iter().map(|(k, v)| (k.clone(), *v))),
        pr = plan.release,
        pc = plan.checked,
        pw = plan.wall,
        real = q(props::REAL),
        stubs = q(props::STUBS),
        known = known.iter().map(|k| q(k)).collect::<Vec<_>>().join(", "),
        assume = props::assumptions(pid).iter().map(|a| q(a)).collect::<Vec<_>>().join(", "),
    );
    let dir = format!("{}/evidence", props::home());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, pid), s);
}
