//! The channel between the parties: proofs altered, cut, replayed, spliced or
//! malformed on the way to the verifier.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use ark_bls12_381::G1Affine;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};

use merlin::sim as tlog;
use merlin::sim::Event;
use zk_sql::arithmetic::VPAuxInfo;
use zk_sql::sim_hooks as h;
use zk_sql::subroutines::{BatchProof, IOPProof, PolyIOP, PolynomialCommitmentScheme, SumCheck, ZeroCheck};
use zk_sql::tracker::prelude::*;
use zk_sql::transcript::IOPTranscript;

use crate::core::*;
use crate::gen;
use crate::p_crypto::{any_vals, batch_bytes, batch_case, challenges, compensate_message, damage_g1, fresh_transcript, Sop, Tr};
use crate::session::begin;
use crate::world::*;

type SC = IOPProof<F>;

// ---------------------------------------------------------------- honest sessions

/// An honest exchange of a true program, and what its verifier relied on.
pub struct Honest {
    pub prog: Program,
    pub nv: usize,
    pub source: Source,
    pub proof: Proof,
    /// commitments the verifier took from the proof
    pub comms: Vec<TrackerID>,
    /// claimed sums it took from the proof
    pub sums: Vec<TrackerID>,
    /// all commitments it opened, in the order of the batch
    pub opened: Vec<TrackerID>,
    /// transcript state and log of the deciding call
    pub before: IOPTranscript<F>,
    pub steps_log: Vec<Event>,
    pub log: Vec<Event>,
    pub claims: (usize, usize),
}
fn program(ctx: &mut Ctx) -> Program {
    let mut p = Program::new();
    match ctx.draw(3) {
        0 => p = gen::tracker_program(ctx, false),
        1 => {
            for _ in 0..[1, 1, 1, 2, 3][ctx.pick(5)] {
                let k = ctx.pick(gen::ALL.len());
                (gen::ALL[k].1)(ctx, &mut p, false);
            }
        }
        _ => {
            // few columns, several claims
            let nv = ctx.range(1, 3);
            let n = ctx.range(1, 4);
            let mut cs = vec![];
            for _ in 0..n {
                let v = any_vals(ctx, nv);
                cs.push(p.commit(v));
            }
            for _ in 0..ctx.range(1, 3) {
                let (a, b) = (cs[ctx.pick(n)], cs[ctx.pick(n)]);
                let m = p.push(Step::Mul(a, b));
                if ctx.chance(1, 2) {
                    let d = p.commit(p.v(m).clone());
                    let z = p.push(Step::Sub(m, d));
                    p.push(Step::Zero(z));
                } else {
                    let s = p.v(m).iter().sum();
                    p.push(Step::Sum(m, s, false));
                }
                if ctx.chance(1, 3) {
                    gen::talk(ctx, &mut p);
                }
            }
            gen::own_sums(ctx, &mut p);
        }
    }
    p
}
/// Prove `prog`; `None` when the honest session itself is not accepted (which
/// other properties judge).
pub fn honest(ctx: &mut Ctx, prog: Program, nv: usize, source: Source) -> Option<Honest> {
    ctx.add("steps.total", 2 * prog.steps.len() as u64);
    let mut p = Prover::new(nv);
    let r = p.run(&prog).map_err(|e| e.1).and_then(|_| p.compile());
    let Ok(proof) = r else {
        ctx.count(if prog.truth() == Truth::True { "outcome.true_program_refused" } else { "outcome.no_honest_proof" });
        return None;
    };
    let mut v = Verifier::new(nv, source.clone());
    v.receive(proof.clone());
    tlog::record();
    let r = v.run(&prog);
    let steps_log = tlog::take();
    if r.is_err() {
        ctx.count(if prog.truth() == Truth::True { "outcome.true_program_refused" } else { "outcome.honest_proof_refused" });
        return None;
    }
    let t = v.t.clone_underlying_tracker();
    let mut opened: Vec<TrackerID> = t.materialized_comms.keys().cloned().collect();
    opened.sort();
    let mut own = BTreeSet::new();
    if let Source::Own(_) = source {
        for (i, s) in prog.steps.iter().enumerate() {
            if let Step::Commit(_) = s {
                own.insert(v.cols[prog.outs[i]].0.id);
            }
        }
    }
    let comms = opened.iter().filter(|i| !own.contains(i) && proof.comms.contains_key(i)).cloned().collect();
    let mut sums = vec![];
    let mut ids: Vec<TrackerID> = proof.sumcheck_claims.keys().cloned().collect();
    ids.sort();
    for id in ids {
        let claimed = t.sum_check_claims.iter().filter(|c| c.label == id).count();
        let known = prog.steps.iter().filter(|s| matches!(s, Step::Sum(c, _, true) if v.cols[*c].0.id == id)).count();
        if claimed > known {
            sums.push(id);
        }
    }
    // with nothing but zero columns every opening is valid everywhere and the
    // sum proof's result is compared with nothing: see `zero_columns`
    if opened.iter().all(|i| t.materialized_comms[i].0.is_zero()) {
        ctx.count("outcome.only_zero_columns");
        return None;
    }
    let claims = (t.zero_check_claims.len(), t.sum_check_claims.len());
    let before = t.transcript.clone();
    tlog::record();
    let verdict = v.decide();
    let log = tlog::take();
    if !verdict.accepted() {
        ctx.count(if prog.truth() == Truth::True { "outcome.true_program_refused" } else { "outcome.honest_proof_refused" });
        return None;
    }
    Some(Honest { prog, nv, source, proof, comms, sums, opened, before, steps_log, log, claims })
}
fn any_honest(ctx: &mut Ctx) -> Option<Honest> {
    let p = program(ctx);
    let nv = gen::srs_size(ctx, &p);
    let src = if ctx.chance(1, 4) { Source::Own(own_comms(&p, nv)) } else { Source::Proof };
    p.describe(ctx);
    ctx.say(format!("parameters for {} variables, verifier {} the commitments", nv, if matches!(src, Source::Proof) { "reads" } else { "knows" }));
    ctx.shape = mix64(p.steps.iter().fold(nv as u64, |a, s| mix64(a ^ s.name().len() as u64 ^ (s.name().as_bytes()[0] as u64) << 8)));
    honest(ctx, p, nv, src)
}
impl Honest {
    /// What the verdict on `p` depends on: everything but the parts the
    /// verifier never reads.
    pub fn relevant(&self, p: &Proof) -> Vec<u8> {
        let mut out = vec![];
        let mut put = |n: &str, b: Vec<u8>| {
            out.extend(n.as_bytes());
            out.extend((b.len() as u64).to_le_bytes());
            out.extend(b);
        };
        for id in &self.comms {
            put("comm", p.comms.get(id).map(comm_bytes).unwrap_or_default());
        }
        for id in &self.sums {
            put("sum", p.sumcheck_claims.get(id).map(ser).unwrap_or_default());
        }
        put("nv", p.sc_aux_info.num_variables.to_le_bytes().to_vec());
        put("deg", p.sc_aux_info.max_degree.to_le_bytes().to_vec());
        put("messages", ser(&p.sc_proof.proofs));
        put("opening", p.pcs_proof.first().map(batch_bytes).unwrap_or_default());
        out
    }
    pub fn verify(&self, proof: Proof) -> Verdict {
        let mut v = Verifier::new(self.nv, self.source.clone());
        v.receive(proof);
        v.finish(&self.prog)
    }
    /// the verifier after its steps, with another proof put in its hands
    pub fn decide(&self, proof: Proof) -> Option<Verdict> {
        let mut v = Verifier::new(self.nv, self.source.clone());
        v.receive(self.proof.clone());
        v.run(&self.prog).ok()?;
        v.receive(proof);
        Some(v.decide())
    }
    fn refuse(&self, ctx: &mut Ctx, class: &str, what: &str, proof: Proof) -> R {
        ctx.mix(&proof_bytes(&proof));
        let mut ve = Verifier::new(self.nv, self.source.clone());
        if ctx.chance(1, 4) {
            ve.receive(self.proof.clone());
            ctx.fault("true_proof_received_first");
        }
        ve.receive(proof);
        let v = ve.finish(&self.prog);
        ctx.mix(v.text().as_bytes());
        ctx.nontrivial = true;
        match v {
            Verdict::Accepted => fail(class, format!("accepted with {}", what)),
            Verdict::Refused { at, .. } if at == AGAIN => fail(class, format!("refused, then accepted when asked again, with {}", what)),
            Verdict::Refused { at, .. } => {
                ctx.count(if at == "decision" { "refused_at.decision" } else { "refused_at.steps" });
                Ok(())
            }
        }
    }
    /// challenges of the deciding call: coefficients of the sums, the rounds
    /// of the sum check, the batch weights, the rounds of the batch sum check
    fn tail(&self) -> Option<Tail> {
        let ch = challenges(&self.log);
        let nv = self.proof.sc_aux_info.num_variables;
        let k = self.opened.len();
        let ell = if k < 2 { 0 } else { (usize::BITS - (k - 1).leading_zeros()) as usize };
        let n = self.claims.1 + 1;
        let m = 2 * nv + ell + n;
        if ch.len() < m {
            return None;
        }
        let c = &ch[ch.len() - m..];
        Some(Tail { coef: c[..n].to_vec(), rounds: c[n..n + nv].to_vec(), t: c[n + nv..n + nv + ell].to_vec(), batch: c[n + nv + ell..].to_vec() })
    }
}
struct Tail {
    #[allow(dead_code)]
    coef: Vec<F>,
    rounds: Vec<F>,
    t: Vec<F>,
    batch: Vec<F>,
}
fn weight(t: &[F], i: usize) -> F {
    t.iter().enumerate().map(|(j, r)| if (i >> j) & 1 == 1 { *r } else { F::one() - r }).product()
}

// ---------------------------------------------------------------- C03

/// The places of a proof a fault can hit.
#[derive(Clone, Copy, Debug)]
enum Spot {
    Comm(TrackerID),
    Sum(TrackerID),
    Variables,
    Degree,
    Round(usize),
    Value(usize),
    BatchRound(usize),
    Element(usize),
}
fn spots(hn: &Honest) -> Vec<Spot> {
    let p = &hn.proof;
    let mut v: Vec<Spot> = hn.comms.iter().map(|i| Spot::Comm(*i)).collect();
    v.extend(hn.sums.iter().map(|i| Spot::Sum(*i)));
    v.push(Spot::Variables);
    v.push(Spot::Degree);
    v.extend((0..p.sc_proof.proofs.len()).map(Spot::Round));
    if let Some(b) = p.pcs_proof.first() {
        v.extend((0..b.f_i_eval_at_point_i.len()).map(Spot::Value));
        v.extend((0..h::batch_sum_check(b).proofs.len()).map(Spot::BatchRound));
        v.extend((0..h::batch_g_prime(b).proofs.len()).map(Spot::Element));
    }
    v
}
fn edit_message(ctx: &mut Ctx, sc: &mut SC, i: usize) {
    let n = sc.proofs.len();
    let d = nonzero_f(ctx);
    match ctx.draw(8) {
        0 => {
            let e = h::message_evals_mut(&mut sc.proofs[i]);
            if e.len() > 1 {
                e[0] += d;
                e[1] -= d;
            }
        }
        1 => {
            let e = h::message_evals_mut(&mut sc.proofs[i]);
            if let Some(x) = e.last_mut() {
                *x += d;
            }
        }
        2 => {
            sc.proofs.remove(i);
        }
        3 => {
            let m = sc.proofs[i].clone();
            sc.proofs.insert(i, m);
        }
        4 if n > 1 => {
            let j = (i + 1 + ctx.pick(n - 1)) % n;
            sc.proofs.swap(i, j);
        }
        5 => {
            h::message_evals_mut(&mut sc.proofs[i]).pop();
        }
        6 => h::message_evals_mut(&mut sc.proofs[i]).push(d),
        _ => {
            let e = h::message_evals_mut(&mut sc.proofs[i]);
            if !e.is_empty() {
                let a = ctx.pick(e.len());
                e[a] += d;
            }
        }
    }
}
/// Hit one place of the proof; says what was done.
fn hit(ctx: &mut Ctx, p: &mut Proof, s: Spot) -> &'static str {
    match s {
        Spot::Comm(id) => {
            let mut others: Vec<TrackerID> = p.comms.keys().filter(|o| **o != id).cloned().collect();
            others.sort();
            match ctx.draw(5) {
                0 => {
                    p.comms.remove(&id);
                    "commitment dropped"
                }
                1 if !others.is_empty() => {
                    let o = others[ctx.pick(others.len())];
                    if let (Some(a), Some(b)) = (p.comms.get(&id).cloned(), p.comms.get(&o).cloned()) {
                        p.comms.insert(id, b);
                        p.comms.insert(o, a);
                    }
                    "commitments swapped"
                }
                2 if !others.is_empty() => {
                    let o = others[ctx.pick(others.len())];
                    if let Some(b) = p.comms.get(&o).cloned() {
                        p.comms.insert(id, b);
                    }
                    "commitment overwritten by another"
                }
                _ => {
                    if let Some(c) = p.comms.get_mut(&id) {
                        damage_g1(ctx, &mut c.0);
                    }
                    "commitment altered"
                }
            }
        }
        Spot::Sum(id) => match ctx.draw(4) {
            0 => {
                p.sumcheck_claims.remove(&id);
                "claimed sum dropped"
            }
            1 => {
                p.sumcheck_claims.insert(id, F::zero());
                "claimed sum zeroed"
            }
            _ => {
                let d = nonzero_f(ctx);
                if let Some(x) = p.sumcheck_claims.get_mut(&id) {
                    *x += d;
                }
                "claimed sum altered"
            }
        },
        Spot::Variables => {
            let n = p.sc_aux_info.num_variables;
            p.sc_aux_info.num_variables = [n + 1, n.saturating_sub(1), 0, n + 7][ctx.pick(4)];
            "number of variables altered"
        }
        Spot::Degree => {
            let n = p.sc_aux_info.max_degree;
            p.sc_aux_info.max_degree = [n + 1, n.saturating_sub(1), 0, n + 7][ctx.pick(4)];
            "degree altered"
        }
        Spot::Round(i) => {
            if i < p.sc_proof.proofs.len() {
                edit_message(ctx, &mut p.sc_proof, i);
            }
            "round message altered"
        }
        Spot::Value(i) => {
            if let Some(b) = p.pcs_proof.first_mut() {
                let v = &mut b.f_i_eval_at_point_i;
                if i < v.len() {
                    match ctx.draw(5) {
                        0 => {
                            v.remove(i);
                        }
                        1 => {
                            let x = v[i];
                            v.insert(i, x);
                        }
                        2 => {
                            let j = (i + 1) % v.len();
                            v.swap(i, j);
                        }
                        _ => v[i] += nonzero_f(ctx),
                    }
                }
            }
            "opened value altered"
        }
        Spot::BatchRound(i) => {
            if let Some(b) = p.pcs_proof.first_mut() {
                let sc = h::batch_sum_check_mut(b);
                if i < sc.proofs.len() {
                    edit_message(ctx, sc, i);
                }
            }
            "batch round message altered"
        }
        Spot::Element(i) => {
            if let Some(b) = p.pcs_proof.first_mut() {
                let g = &mut h::batch_g_prime_mut(b).proofs;
                if i < g.len() {
                    match ctx.draw(5) {
                        0 => {
                            let _ = g.remove(i);
                        }
                        1 => {
                            let x = g[i];
                            g.insert(i, x);
                        }
                        2 => {
                            let j = (i + 1) % g.len();
                            g.swap(i, j);
                        }
                        _ => damage_g1(ctx, &mut g[i]),
                    }
                }
            }
            "opening element altered"
        }
    }
}
/// Several faults on one proof.
pub fn damaged(ctx: &mut Ctx) -> R {
    begin(ctx);
    let Some(hn) = any_honest(ctx) else { return Ok(()) };
    let all = spots(&hn);
    let mut p = hn.proof.clone();
    let n = [1usize, 1, 2, 3][ctx.pick(4)];
    let mut what = vec![];
    for _ in 0..n {
        let s = all[ctx.pick(all.len())];
        let w = hit(ctx, &mut p, s);
        ctx.fault(&w.replace(' ', "_"));
        ctx.say(format!("fault: {:?}: {}", s, w));
        what.push(w);
    }
    if hn.relevant(&p) == hn.relevant(&hn.proof) {
        return Ok(());
    }
    hn.refuse(ctx, "damaged-proof-accepted", &what.join(", "), p)
}
/// Every place of one proof hit once.
pub fn every_part(ctx: &mut Ctx) -> R {
    begin(ctx);
    let p = loop_small(ctx);
    let nv = gen::srs_size(ctx, &p);
    let src = if ctx.chance(1, 3) { Source::Own(own_comms(&p, nv)) } else { Source::Proof };
    p.describe(ctx);
    let Some(hn) = honest(ctx, p, nv, src) else { return Ok(()) };
    for s in spots(&hn) {
        let mut p = hn.proof.clone();
        let w = hit(ctx, &mut p, s);
        if hn.relevant(&p) == hn.relevant(&hn.proof) {
            continue;
        }
        ctx.fault(&w.replace(' ', "_"));
        ctx.count("parts_hit");
        let v = hn.verify(p);
        ctx.nontrivial = true;
        ctx.mix(v.text().as_bytes());
        if v.accepted() {
            return fail("damaged-proof-accepted", format!("accepted with {:?}: {}", s, w));
        }
    }
    Ok(())
}
fn loop_small(ctx: &mut Ctx) -> Program {
    let mut p = program(ctx);
    // keep the enumeration short
    if p.steps.len() > 30 || p.max_nv > 4 {
        p = Program::new();
        let v = any_vals(ctx, 2);
        let (a, b) = (p.commit(v.clone()), p.commit(v));
        let z = p.push(Step::Sub(a, b));
        p.push(Step::Zero(z));
        let s = p.v(a).iter().sum();
        p.push(Step::Sum(a, s, false));
    }
    p
}
/// Change what a program is about and keep its claims true.
fn other_data(ctx: &mut Ctx, p: &Program) -> Option<Program> {
    // columns are rebuilt from scaled commitments; only programs whose truth
    // survives that are used
    let k = nonzero_f(ctx);
    let mut q = Program::new();
    for s in &p.steps {
        match s {
            Step::Commit(v) => {
                let which = ctx.chance(1, 2);
                let w = if which { v.iter().map(|x| *x * k).collect() } else { v.clone() };
                q.commit(w);
            }
            Step::Public(v) => {
                q.public(v.clone());
            }
            Step::Sum(c, _, own) => {
                let s = q.v(*c).iter().sum();
                q.push(Step::Sum(*c, s, *own));
            }
            s => {
                q.push(s.clone());
            }
        }
    }
    let _ = Truth::True;
    if q.truth() == Truth::True {
        Some(q)
    } else {
        None
    }
}
fn prove(p: &Program, nv: usize) -> Option<Proof> {
    let mut pr = Prover::new(nv);
    pr.run(p).ok()?;
    let p = pr.compile().ok()?;
    if p.comms.values().all(|c| c.0.is_zero()) {
        return None;
    }
    Some(p)
}
/// A session over zero columns only: the one way an altered sum proof shows
/// that nothing is compared with its result.
pub fn zero_columns(ctx: &mut Ctx) -> R {
    begin(ctx);
    let nv = ctx.range(1, 4);
    let mut p = Program::new();
    let a = p.commit(vec![F::zero(); 1 << nv]);
    let m = p.push(Step::Mul(a, a));
    let b = p.commit(vec![F::zero(); 1 << nv]);
    let z = p.push(Step::Sub(m, b));
    p.push(Step::Zero(z));
    p.describe(ctx);
    let mut pr = Prover::new(nv);
    if pr.run(&p).is_err() {
        return Ok(());
    }
    let Ok(mut proof) = pr.compile() else { return Ok(()) };
    let n = proof.sc_proof.proofs.len();
    if n != nv {
        return Ok(());
    }
    let e = h::message_evals_mut(&mut proof.sc_proof.proofs[n - 1]);
    let d = nonzero_f(ctx);
    let l = e.len();
    if l < 3 {
        return Ok(());
    }
    e[l - 1] += d;
    ctx.fault("round_message_altered");
    ctx.say("fault: last value of the last round message altered");
    let mut ve = Verifier::new(nv, Source::Proof);
    ve.receive(proof);
    let verdict = ve.finish(&p);
    ctx.mix(verdict.text().as_bytes());
    ctx.nontrivial = true;
    if verdict.accepted() {
        return fail("unchecked-sum-proof-accepted", "an altered round message of a session over zero columns was accepted".to_string());
    }
    Ok(())
}
/// Whole proofs of other sessions handed to a verifier.
pub fn replayed(ctx: &mut Ctx) -> R {
    begin(ctx);
    let Some(hn) = any_honest(ctx) else { return Ok(()) };
    let kind = ctx.draw(4);
    let (what, other_prog, other_nv): (&str, Program, usize) = match kind {
        0 => {
            let Some(q) = other_data(ctx, &hn.prog) else { return Ok(()) };
            ("other data", q, hn.nv)
        }
        1 => {
            // the stale session had one more challenge, step, column or claim
            let mut q = Program::new();
            let at = ctx.pick(hn.prog.steps.len());
            let w = ctx.draw(3);
            if w == 0 {
                for (i, s) in hn.prog.steps.iter().enumerate() {
                    if i == at {
                        q.push(Step::Challenge);
                    }
                    q.push(s.clone());
                }
                ("a session with another challenge", q, hn.nv)
            } else {
                q = hn.prog.clone();
                let a = (0..q.cols.len()).find(|c| !q.v(*c).is_empty()).unwrap_or(0);
                if w == 1 {
                    let v = any_vals(ctx, q.nv(a));
                    q.commit(v);
                    ("a session with another column", q, hn.nv)
                } else {
                    let z = q.push(Step::Sub(a, a));
                    q.push(Step::Zero(z));
                    ("a session with another claim", q, hn.nv)
                }
            }
        }
        2 => {
            let nv = if hn.nv < MAX_NV { hn.nv + 1 } else { hn.nv - 1 };
            ("other parameters", hn.prog.clone(), nv)
        }
        _ => {
            let q = program(ctx);
            let nv = q.max_nv.max(hn.nv).clamp(1, MAX_NV);
            ("another statement", q, nv)
        }
    };
    if other_nv < other_prog.max_nv {
        return Ok(());
    }
    let Some(stale) = prove(&other_prog, other_nv) else { return Ok(()) };
    if hn.relevant(&stale) == hn.relevant(&hn.proof) {
        return Ok(());
    }
    ctx.fault(&format!("replayed_from_{}", what.replace(' ', "_")));
    ctx.say(format!("fault: replayed from {}", what));
    // a complete true proof about the commitments it carries is legitimate for
    // a verifier that takes the commitments from it
    let mut v = Verifier::new(hn.nv, hn.source.clone());
    if ctx.chance(1, 2) {
        v.receive(hn.proof.clone());
        ctx.fault("true_proof_received_first");
    }
    v.receive(stale.clone());
    tlog::record();
    let verdict = v.finish(&hn.prog);
    let seen = tlog::take();
    ctx.mix(verdict.text().as_bytes());
    ctx.nontrivial = true;
    if !verdict.accepted() {
        return Ok(());
    }
    // the same statement, proved by an honest session: accept is right
    if matches!(hn.source, Source::Proof) && other_nv == hn.nv && same_statement(&other_prog, &hn.prog) {
        ctx.count("outcome.legitimate_replay");
        return Ok(());
    }
    // statements that only differ in formulas are told apart by `other_formula`
    let mut w = Verifier::new(other_nv, Source::Proof);
    w.receive(stale);
    tlog::record();
    let fine = w.finish(&other_prog).accepted();
    if fine && tlog::take() == seen && other_nv == hn.nv {
        ctx.count("outcome.formulas_only_differ");
        return Ok(());
    }
    fail("replayed-proof-accepted", format!("accepted a proof from {}", what))
}
/// The two programs ask the same of whatever is committed.
fn same_statement(a: &Program, b: &Program) -> bool {
    let key = |p: &Program| -> Vec<String> {
        p.steps
            .iter()
            .map(|s| match s {
                Step::Commit(v) => format!("commit {}", v.len()),
                Step::Read(_) => String::new(),
                s => s.describe(),
            })
            .filter(|s| !s.is_empty())
            .collect()
    };
    key(a) == key(b)
}
/// A proof of a true statement presented for a false one over the same
/// columns, the two differing in a formula only.
pub fn other_formula(ctx: &mut Ctx) -> R {
    begin(ctx);
    let nv = ctx.range(1, 3);
    let mut p = Program::new();
    let v: Vec<F> = (0..1 << nv).map(|_| any_f(ctx)).collect();
    let mut w = v.clone();
    let r = ctx.pick(w.len());
    w[r] += nonzero_f(ctx);
    let (a, b, c) = (p.commit(v.clone()), p.commit(v), p.commit(w));
    let mut q = p.clone();
    let z = p.push(Step::Sub(a, b));
    p.push(Step::Zero(z));
    let z = q.push(Step::Sub(a, c));
    q.push(Step::Zero(z));
    p.describe(ctx);
    ctx.say("fault: the proof is presented for columns 0 and 2 instead");
    ctx.fault("replayed_for_another_formula");
    let Some(proof) = prove(&p, nv) else { return Ok(()) };
    let mut ve = Verifier::new(nv, Source::Proof);
    ve.receive(proof);
    let verdict = ve.finish(&q);
    ctx.nontrivial = true;
    ctx.mix(verdict.text().as_bytes());
    if verdict.accepted() {
        return fail("other-formula-accepted", "a proof of c0 = c1 was accepted as proof of the false c0 = c2 over the same commitments".to_string());
    }
    Ok(())
}
/// Parts of one proof put into another.
pub fn spliced(ctx: &mut Ctx) -> R {
    begin(ctx);
    let Some(hn) = any_honest(ctx) else { return Ok(()) };
    let q = match ctx.draw(3) {
        0 => other_data(ctx, &hn.prog),
        1 => {
            // same data, transcript shifted by one challenge
            let mut q = Program::new();
            q.push(hn.prog.steps[0].clone());
            q.push(Step::Challenge);
            for s in &hn.prog.steps[1..] {
                q.push(s.clone());
            }
            Some(q)
        }
        _ => Some(program(ctx)),
    };
    let Some(q) = q else { return Ok(()) };
    if q.max_nv > MAX_NV {
        return Ok(());
    }
    let Some(o) = prove(&q, hn.nv.max(q.max_nv)) else { return Ok(()) };
    let mut p = hn.proof.clone();
    let mut what = vec![];
    for k in 0..7u64 {
        if !ctx.chance(1, 3) {
            continue;
        }
        let b = (p.pcs_proof.first().cloned(), o.pcs_proof.first().cloned());
        let (Some(mut mine), Some(theirs)) = b else { continue };
        what.push(match k {
            0 => {
                p.comms = o.comms.clone();
                "commitments"
            }
            1 => {
                p.sumcheck_claims = o.sumcheck_claims.clone();
                "claimed sums"
            }
            2 => {
                p.sc_proof = o.sc_proof.clone();
                p.sc_aux_info = o.sc_aux_info.clone();
                "sum proof"
            }
            3 => {
                p.pcs_proof = o.pcs_proof.clone();
                "batch opening"
            }
            4 => {
                mine.f_i_eval_at_point_i = theirs.f_i_eval_at_point_i.clone();
                p.pcs_proof[0] = mine;
                "opened values"
            }
            5 => {
                *h::batch_sum_check_mut(&mut mine) = h::batch_sum_check(&theirs).clone();
                p.pcs_proof[0] = mine;
                "batch sum proof"
            }
            _ => {
                *h::batch_g_prime_mut(&mut mine) = h::batch_g_prime(&theirs).clone();
                p.pcs_proof[0] = mine;
                "opening elements"
            }
        });
    }
    let now = hn.relevant(&p);
    if now == hn.relevant(&hn.proof) || now == hn.relevant(&o) {
        return Ok(());
    }
    for w in &what {
        ctx.fault(&format!("spliced_{}", w.replace(' ', "_")));
    }
    ctx.say(format!("fault: spliced in: {}", what.join(", ")));
    hn.refuse(ctx, "spliced-proof-accepted", &format!("spliced {}", what.join(", ")), p)
}
/// Alterations that cancel under the challenges of the honest run: accepted
/// only if some challenge does not depend on what was altered.
pub fn compensating(ctx: &mut Ctx) -> R {
    begin(ctx);
    let Some(hn) = any_honest(ctx) else { return Ok(()) };
    let Some(t) = hn.tail() else { return Ok(()) };
    let mut p = hn.proof.clone();
    let k = hn.opened.len();
    if p.pcs_proof.is_empty() {
        return Ok(());
    }
    let what = match ctx.draw(6) {
        0 => {
            let v = &mut p.pcs_proof[0].f_i_eval_at_point_i;
            if k < 2 || v.len() != k {
                return Ok(());
            }
            let i = ctx.pick(k);
            let j = (i + 1 + ctx.pick(k - 1)) % k;
            let d = nonzero_f(ctx);
            let Some(inv) = weight(&t.t, j).inverse() else { return Ok(()) };
            v[i] += d;
            v[j] -= d * weight(&t.t, i) * inv;
            "opened values"
        }
        1 => {
            let n = t.rounds.len();
            if n == 0 || p.sc_proof.proofs.len() != n {
                return Ok(());
            }
            let i = ctx.pick(n);
            if !compensate_message(ctx, &mut p.sc_proof, i, t.rounds[i], F::zero()) {
                return Ok(());
            }
            "round message"
        }
        2 => {
            let n = t.batch.len();
            let sc = h::batch_sum_check_mut(&mut p.pcs_proof[0]);
            if n == 0 || sc.proofs.len() != n {
                return Ok(());
            }
            let i = ctx.pick(n);
            if !compensate_message(ctx, sc, i, t.batch[i], F::zero()) {
                return Ok(());
            }
            "batch round message"
        }
        3 => {
            // two commitments, their weighted sum kept
            if hn.comms.len() < 2 {
                return Ok(());
            }
            let i = ctx.pick(hn.comms.len());
            let j = (i + 1 + ctx.pick(hn.comms.len() - 1)) % hn.comms.len();
            let (a, b) = (hn.comms[i], hn.comms[j]);
            let pos = |id: TrackerID| hn.opened.iter().position(|x| *x == id).unwrap();
            let (wa, wb) = (weight(&t.t, pos(a)), weight(&t.t, pos(b)));
            let g = G1Affine::generator() * nonzero_f(ctx);
            for (id, w) in [(a, wb), (b, -wa)] {
                let c = p.comms.get_mut(&id).unwrap();
                c.0 = (c.0.into_group() + g * w).into_affine();
            }
            "commitments"
        }
        4 => {
            // every message restated at a higher degree
            let sc = &mut p.sc_proof;
            for m in sc.proofs.iter_mut() {
                let e = h::message_evals_mut(m);
                let n = e.len();
                let x = f(n as u64);
                let y = extrapolate(e, x);
                e.push(y);
            }
            p.sc_aux_info.max_degree += 1;
            "degree raised"
        }
        _ => {
            // a claimed sum and the first message
            let Some(_) = hn.sums.first() else { return Ok(()) };
            let id = hn.sums[ctx.pick(hn.sums.len())];
            let mut v = Verifier::new(hn.nv, hn.source.clone());
            v.receive(hn.proof.clone());
            if v.run(&hn.prog).is_err() {
                return Ok(());
            }
            let tr = v.t.clone_underlying_tracker();
            let coef: F = tr.sum_check_claims.iter().zip(&t.coef).filter(|(c, _)| c.label == id).map(|(_, k)| *k).sum();
            let d = nonzero_f(ctx);
            if t.rounds.is_empty() || p.sc_proof.proofs.is_empty() {
                return Ok(());
            }
            if !compensate_message(ctx, &mut p.sc_proof, 0, t.rounds[0], d * coef) {
                return Ok(());
            }
            *p.sumcheck_claims.get_mut(&id).unwrap() += d;
            "claimed sum and first message"
        }
    };
    if hn.relevant(&p) == hn.relevant(&hn.proof) {
        return Ok(());
    }
    ctx.fault(&format!("compensating_{}", what.replace(' ', "_")));
    ctx.say(format!("fault: compensating change of {}", what));
    hn.refuse(ctx, "compensating-proof-accepted", &format!("a compensating change: {}", what), p)
}
fn extrapolate(e: &[F], x: F) -> F {
    let n = e.len();
    (0..n)
        .map(|a| {
            e[a] * (0..n)
                .filter(|b| *b != a)
                .map(|b| (x - f(b as u64)) * (f(a as u64) - f(b as u64)).inverse().unwrap())
                .product::<F>()
        })
        .sum()
}
/// Bring a transcript to where an earlier run was after `events`.
fn advance(tr: &mut Tr, events: &[Event]) {
    let mut i = 0;
    while i < events.len() {
        match &events[i] {
            Event::Message(l, b) => {
                let _ = tr.append_message(l, b);
                i += 1;
            }
            Event::Challenge(l, _) => {
                tlog::record();
                let _ = tr.get_and_append_challenge(l);
                let n = tlog::take().len().max(1);
                i += n;
            }
        }
    }
}
/// The opening is made again, at a point or of values of the prover's choice,
/// by someone who follows the rest of the protocol.
pub fn reopened(ctx: &mut Ctx) -> R {
    begin(ctx);
    let Some(hn) = any_honest(ctx) else { return Ok(()) };
    let Some(t) = hn.tail() else { return Ok(()) };
    let nv = t.rounds.len();
    if nv == 0 || hn.proof.pcs_proof.is_empty() {
        return Ok(());
    }
    // the polynomials, from a prover that has done everything
    let mut pr = Prover::new(hn.nv);
    if pr.run(&hn.prog).is_err() || pr.compile().is_err() {
        return Ok(());
    }
    let pt = pr.t.clone_underlying_tracker();
    let mut polys: Vec<Arc<Mle>> = vec![];
    for id in &hn.opened {
        match pt.materialized_polys.get(id) {
            Some(m) if m.num_vars == nv => polys.push(m.clone()),
            _ => return Ok(()),
        }
    }
    // transcript up to the end of the sum check
    let chs: Vec<usize> = (0..hn.log.len()).filter(|i| matches!(hn.log[*i], Event::Challenge(..))).collect();
    let after = chs.len() - t.t.len() - t.batch.len();
    if after == 0 {
        return Ok(());
    }
    // the opening starts with the first value; everything before the first
    // message that follows the last round challenge and its echo
    let mut cut = chs[after - 1] + 1;
    let values = hn.opened.len();
    let start = chs.get(after).copied().unwrap_or(hn.log.len());
    if start < values || start - values < cut {
        return Ok(());
    }
    cut = start - values;
    let mut tr = hn.before.clone();
    advance(&mut tr, &hn.log[..cut]);
    let mut z = t.rounds.clone();
    let points: Vec<Vec<F>>;
    let mut evals: Vec<F>;
    let what = match ctx.draw(4) {
        0 => {
            // control: the honest opening again
            points = vec![z.clone(); values];
            evals = polys.iter().map(|m| mle_eval(&m.evaluations, &z)).collect();
            "nothing"
        }
        1 => {
            let i = ctx.pick(nv);
            z[i] += nonzero_f(ctx);
            points = vec![z.clone(); values];
            evals = polys.iter().map(|m| mle_eval(&m.evaluations, &z)).collect();
            "another point"
        }
        2 => {
            points = vec![z.clone(); values];
            evals = polys.iter().map(|m| mle_eval(&m.evaluations, &z)).collect();
            let i = ctx.pick(values);
            evals[i] += nonzero_f(ctx);
            "other values"
        }
        _ => {
            let i = ctx.pick(values);
            let mut m = (*polys[i]).clone();
            let r = ctx.pick(m.evaluations.len());
            m.evaluations[r] += nonzero_f(ctx);
            polys[i] = Arc::new(m);
            points = vec![z.clone(); values];
            evals = polys.iter().map(|m| mle_eval(&m.evaluations, &z)).collect();
            "another polynomial"
        }
    };
    let made = guard(|| P::multi_open(&params(hn.nv).prover, &polys, &points, &evals, &mut tr));
    let Ok(Ok(b)) = made else { return Ok(()) };
    let mut p = hn.proof.clone();
    p.pcs_proof[0] = b;
    p.sc_proof.point = z.clone();
    ctx.say(format!("fault: opening of {}", what));
    if what == "nothing" {
        let same = hn.relevant(&p) == hn.relevant(&hn.proof);
        ctx.count(if same { "control.reopening_reproduced" } else { "control.reopening_differs" });
        return Ok(());
    }
    if hn.relevant(&p) == hn.relevant(&hn.proof) {
        return Ok(());
    }
    ctx.fault(&format!("opening_of_{}", what.replace(' ', "_")));
    hn.refuse(ctx, "forged-opening-accepted", &format!("an opening of {}", what), p)
}

// ---------------------------------------------------------------- C04

const ABSURD: [usize; 9] = [0, 1, 2, 40, 63, 64, 1 << 20, 1 << 40, usize::MAX];

macro_rules! message {
    ($n:expr, $k:expr) => {
        h::prover_message(vec![$k; $n])
    };
}
/// Break the shape of a sum proof.
fn malform_sum(ctx: &mut Ctx, sc: &mut SC, nv: usize) -> &'static str {
    let n = sc.proofs.len();
    let k = any_f(ctx);
    let len = sc.proofs.first().map(|m| h::message_evals(m).len()).unwrap_or(2);
    match ctx.draw(13) {
        0 => {
            sc.proofs.clear();
            "no round messages"
        }
        1 => {
            sc.proofs.pop();
            "last round message missing"
        }
        2 => {
            if n > 0 {
                sc.proofs.remove(0);
            }
            "first round message missing"
        }
        3 => {
            sc.proofs.push(message!(len, k));
            "surplus round message"
        }
        4 => {
            let m = ctx.range(100, 3000);
            for _ in 0..m {
                sc.proofs.push(message!(1, k));
            }
            "many surplus round messages"
        }
        5 => {
            for m in sc.proofs.iter_mut() {
                h::message_evals_mut(m).clear();
            }
            "all round messages empty"
        }
        6 => {
            for m in sc.proofs.iter_mut() {
                h::message_evals_mut(m).truncate(1);
            }
            "all round messages of one value"
        }
        7 if n > 0 => {
            let i = ctx.pick(n);
            h::message_evals_mut(&mut sc.proofs[i]).clear();
            "round message empty"
        }
        8 if n > 0 => {
            let i = ctx.pick(n);
            h::message_evals_mut(&mut sc.proofs[i]).truncate(1);
            "round message of one value"
        }
        9 if n > 0 => {
            let i = ctx.pick(n);
            h::message_evals_mut(&mut sc.proofs[i]).pop();
            "round message short"
        }
        10 if n > 0 => {
            let i = ctx.pick(n);
            h::message_evals_mut(&mut sc.proofs[i]).push(k);
            "round message long"
        }
        11 if n > 0 => {
            let i = ctx.pick(n);
            h::message_evals_mut(&mut sc.proofs[i]).resize(20000, k);
            "round message huge"
        }
        _ => {
            sc.proofs = (0..nv + ctx.range(1, 60)).map(|_| message!(len, k)).collect();
            "other number of round messages"
        }
    }
}
fn malform_batch(ctx: &mut Ctx, b: &mut BatchProof<E, P>, nv: usize) -> &'static str {
    match ctx.draw(13) {
        0 => {
            b.f_i_eval_at_point_i.clear();
            *h::batch_sum_check_mut(b) = IOPProof::default();
            h::batch_g_prime_mut(b).proofs.clear();
            "empty batch opening"
        }
        1 => {
            b.f_i_eval_at_point_i.clear();
            "no opened values"
        }
        2 => {
            b.f_i_eval_at_point_i.pop();
            "opened value missing"
        }
        3 => {
            b.f_i_eval_at_point_i.push(any_f(ctx));
            "surplus opened value"
        }
        4 => {
            b.f_i_eval_at_point_i.resize(5000, any_f(ctx));
            "many opened values"
        }
        5 => {
            h::batch_g_prime_mut(b).proofs.clear();
            "no opening elements"
        }
        6 => {
            h::batch_g_prime_mut(b).proofs.pop();
            "opening element missing"
        }
        7 => {
            let g = if ctx.chance(1, 2) { G1Affine::zero() } else { G1Affine::generator() };
            h::batch_g_prime_mut(b).proofs.push(g);
            "surplus opening element"
        }
        8 => {
            for x in h::batch_g_prime_mut(b).proofs.iter_mut() {
                *x = G1Affine::zero();
            }
            "opening elements at infinity"
        }
        9 => {
            let n = ctx.range(65, 300);
            h::batch_g_prime_mut(b).proofs.resize(n, G1Affine::generator());
            "many opening elements"
        }
        _ => malform_sum(ctx, h::batch_sum_check_mut(b), nv),
    }
}
fn malform(ctx: &mut Ctx, p: &mut Proof, hn: &Honest) -> &'static str {
    // an absurd size may be there already, and is not to be built up here
    let nv = p.sc_aux_info.num_variables.min(100);
    let deg = p.sc_aux_info.max_degree.min(300);
    match ctx.draw(16) {
        0 => {
            *p = Proof::default();
            "empty proof"
        }
        1 => {
            p.pcs_proof.clear();
            "no batch opening"
        }
        2 => {
            p.sc_proof = IOPProof::default();
            "no sum proof"
        }
        3 => {
            p.sc_aux_info = VPAuxInfo::default();
            "no sizes"
        }
        4 => {
            p.sc_aux_info.num_variables = ABSURD[ctx.pick(ABSURD.len())];
            "absurd number of variables"
        }
        5 => {
            p.sc_aux_info.num_variables = if ctx.chance(1, 2) { nv + 1 } else { nv.saturating_sub(1) };
            "number of variables off by one"
        }
        6 => {
            p.sc_aux_info.max_degree = ABSURD[ctx.pick(ABSURD.len())];
            "absurd degree"
        }
        7 => {
            // consistent, but of another size
            let n = [0usize, 1, nv + 1, nv + 3, 40, 70, 200][ctx.pick(7)];
            let k = if ctx.chance(1, 2) { F::zero() } else { any_f(ctx) };
            p.sc_aux_info.num_variables = n;
            p.sc_proof.proofs = (0..n).map(|_| message!(deg + 1, k)).collect();
            p.sc_proof.point = vec![k; n];
            if ctx.chance(1, 2) {
                if let Some(b) = p.pcs_proof.first_mut() {
                    h::batch_sum_check_mut(b).proofs = (0..n).map(|_| message!(3, k)).collect();
                    h::batch_g_prime_mut(b).proofs.resize(n, G1Affine::zero());
                }
            }
            "sum proof of another size"
        }
        8 => {
            // consistent, but of another degree
            let d = [0usize, 1, deg + 1, deg.saturating_sub(1), 30, 64, 300][ctx.pick(7)];
            p.sc_aux_info.max_degree = d;
            for m in p.sc_proof.proofs.iter_mut() {
                h::message_evals_mut(m).resize(d.saturating_add(1), F::zero());
            }
            "sum proof of another degree"
        }
        9 => {
            // everything zero
            for m in p.sc_proof.proofs.iter_mut() {
                for x in h::message_evals_mut(m).iter_mut() {
                    *x = F::zero();
                }
            }
            if let Some(b) = p.pcs_proof.first_mut() {
                for x in b.f_i_eval_at_point_i.iter_mut() {
                    *x = F::zero();
                }
                for x in h::batch_g_prime_mut(b).proofs.iter_mut() {
                    *x = G1Affine::zero();
                }
            }
            "everything zero"
        }
        10 if !hn.comms.is_empty() => {
            let id = hn.comms[ctx.pick(hn.comms.len())];
            if ctx.chance(1, 2) {
                p.comms.remove(&id);
                "commitment missing"
            } else {
                p.comms.insert(id, Comm::default());
                "commitment at infinity"
            }
        }
        11 => {
            p.comms.clear();
            p.sumcheck_claims.clear();
            "no commitments and sums"
        }
        12 | 13 => malform_sum(ctx, &mut p.sc_proof, nv),
        _ => match p.pcs_proof.first().cloned() {
            Some(mut b) => {
                let w = malform_batch(ctx, &mut b, nv);
                p.pcs_proof[0] = b;
                w
            }
            None => "nothing",
        },
    }
}
fn judge_refusal(ctx: &mut Ctx, v: &Verdict, what: &str) -> R {
    ctx.mix(v.text().as_bytes());
    ctx.nontrivial = true;
    match v {
        Verdict::Accepted => fail("malformed-proof-accepted", format!("accepted with {}", what)),
        Verdict::Refused { at, panicked: true, msg } if at == "decision" => fail("decision-panicked", format!("{}: {}", what, msg)),
        Verdict::Refused { .. } => Ok(()),
    }
}
/// The verifier finds the malformation when it decides.
pub fn malformed_decision(ctx: &mut Ctx) -> R {
    begin(ctx);
    let Some(hn) = any_honest(ctx) else { return Ok(()) };
    for _ in 0..4 {
        let mut p = hn.proof.clone();
        let n = [1usize, 1, 1, 2][ctx.pick(4)];
        let w: Vec<&str> = (0..n).map(|_| malform(ctx, &mut p, &hn)).collect();
        // commitments and sums have been read by then
        let mut q = p.clone();
        q.comms = hn.proof.comms.clone();
        q.sumcheck_claims = hn.proof.sumcheck_claims.clone();
        if hn.relevant(&q) == hn.relevant(&hn.proof) {
            continue;
        }
        for x in &w {
            ctx.fault(&x.replace(' ', "_"));
        }
        ctx.say(format!("fault: {}", w.join(", ")));
        let Some(v) = hn.decide(p) else { return Ok(()) };
        judge_refusal(ctx, &v, &w.join(", "))?;
    }
    Ok(())
}
/// The verifier is handed the malformed proof at the start.
pub fn malformed_session(ctx: &mut Ctx) -> R {
    begin(ctx);
    let Some(hn) = any_honest(ctx) else { return Ok(()) };
    for _ in 0..3 {
        let mut p = hn.proof.clone();
        let w = malform(ctx, &mut p, &hn);
        if hn.relevant(&p) == hn.relevant(&hn.proof) {
            continue;
        }
        ctx.fault(&w.replace(' ', "_"));
        ctx.say(format!("fault: {}", w));
        let v = hn.verify(p);
        judge_refusal(ctx, &v, w)?;
    }
    Ok(())
}
fn refuse_call<T: std::fmt::Debug>(ctx: &mut Ctx, r: Result<T, String>, accepted: impl Fn(&T) -> bool, what: &str) -> R {
    ctx.nontrivial = true;
    match r {
        Err(e) => fail("verification-panicked", format!("{}: {}", what, e)),
        Ok(x) if accepted(&x) => fail("malformed-proof-accepted", format!("accepted with {}: {:?}", what, x)),
        Ok(_) => Ok(()),
    }
}
pub fn malformed_batch(ctx: &mut Ctx) -> R {
    begin(ctx);
    let b = batch_case(ctx);
    let mut tp = b.session.clone();
    let Ok(proof) = b.open(&b.evals, &mut tp) else { return Ok(()) };
    for _ in 0..4 {
        let mut p = proof.clone();
        let (mut comms, mut points) = (b.comms.clone(), b.points.clone());
        let what = match ctx.draw(8) {
            0 => {
                comms.clear();
                points.clear();
                "empty request"
            }
            1 => {
                comms.pop();
                "fewer commitments than points"
            }
            2 => {
                points.pop();
                "fewer points than commitments"
            }
            3 => {
                let k = [0usize, 1, b.nv + 1, b.nv.saturating_sub(1), 40][ctx.pick(5)];
                let i = ctx.pick(points.len());
                points[i].resize(k, F::one());
                "point of another size"
            }
            4 => {
                let k = [0usize, b.nv + 1, b.nv.saturating_sub(1), 40, 70][ctx.pick(5)];
                for z in points.iter_mut() {
                    z.resize(k, F::one());
                }
                "all points of another size"
            }
            _ => malform_batch(ctx, &mut p, b.nv),
        };
        if batch_bytes(&p) == batch_bytes(&proof) && points == b.points && comms.len() == b.comms.len() {
            continue;
        }
        ctx.fault(&what.replace(' ', "_"));
        ctx.say(format!("fault: {}", what));
        let mut tv = b.session.clone();
        let r = guard(|| b.verify(&comms, &points, &p, &mut tv));
        refuse_call(ctx, r, |x| matches!(x, Ok(true)), what)?;
    }
    Ok(())
}
pub fn malformed_opening(ctx: &mut Ctx) -> R {
    begin(ctx);
    let nv = ctx.range(1, 6);
    let keys = params((nv + ctx.range(0, 2)).min(MAX_NV));
    let vals = any_vals(ctx, nv);
    let pt = point(ctx, nv);
    ctx.say(format!("opening of a polynomial over {} variables", nv));
    let m = mle(&vals);
    let (Ok(c), Ok((o, val))) = (P::commit(&keys.prover, &m), P::open(&keys.prover, &m, &pt)) else { return Ok(()) };
    for _ in 0..3 {
        let (mut c2, mut o2, mut pt2, val2) = (c.clone(), o.clone(), pt.clone(), val);
        let what = match ctx.draw(9) {
            0 => {
                o2.proofs.clear();
                "no opening elements"
            }
            1 => {
                o2.proofs.pop();
                "opening element missing"
            }
            2 => {
                o2.proofs.push(G1Affine::zero());
                "surplus opening element"
            }
            3 => {
                o2.proofs.resize(500, G1Affine::generator());
                "many opening elements"
            }
            4 => {
                for x in o2.proofs.iter_mut() {
                    *x = G1Affine::zero();
                }
                "opening elements at infinity"
            }
            5 => {
                c2 = Comm::default();
                "commitment at infinity"
            }
            6 => {
                let k = [0usize, nv + 1, nv - 1, 40, 70][ctx.pick(5)];
                pt2.resize(k, F::one());
                "point of another size"
            }
            7 => {
                let k = [0usize, nv + 1, nv - 1, 40, 70][ctx.pick(5)];
                pt2.resize(k, F::one());
                o2.proofs.resize(k, G1Affine::zero());
                "point and opening of another size"
            }
            _ => {
                pt2.clear();
                o2.proofs.clear();
                "empty opening at no point"
            }
        };
        if c2 == c && o2.proofs == o.proofs && pt2 == pt {
            continue;
        }
        // a constant column has the same commitment and value under any size
        let constant = vals.iter().all(|x| *x == vals[0]);
        if constant && pt2.len() != nv {
            continue;
        }
        ctx.fault(&what.replace(' ', "_"));
        ctx.say(format!("fault: {}", what));
        let r = guard(|| P::verify(&keys.verifier, &c2, &pt2, &val2, &o2).map_err(|e| format!("{:?}", e)));
        refuse_call(ctx, r, |x| matches!(x, Ok(true)), what)?;
    }
    Ok(())
}
pub fn malformed_sumcheck(ctx: &mut Ctx) -> R {
    begin(ctx);
    let zero = ctx.chance(1, 2);
    let mut p = Sop::draw(ctx, 5, 8);
    if zero {
        // vanishing: subtract the polynomial from itself
        let n = p.terms.len();
        for i in 0..n {
            let (c, fs) = p.terms[i].clone();
            p.terms.push((-c, fs));
        }
    }
    ctx.say(p.describe());
    let t0 = fresh_transcript(ctx);
    let mut tp = t0.clone();
    let real = p.real();
    let r = if zero { <PolyIOP<F> as ZeroCheck<F>>::prove(&real, &mut tp) } else { <PolyIOP<F> as SumCheck<F>>::prove(&real, &mut tp) };
    let Ok(proof) = r else { return Ok(()) };
    let aux0 = real.aux_info.clone();
    for _ in 0..4 {
        let (mut sc, mut aux) = (proof.clone(), aux0.clone());
        let nv = aux.num_variables;
        let what = match ctx.draw(8) {
            0 => {
                aux.num_variables = ABSURD[ctx.pick(ABSURD.len())];
                "absurd number of variables"
            }
            1 => {
                // one more than the degree is computed from it
                aux.max_degree = ABSURD[ctx.pick(ABSURD.len() - 1)];
                "absurd degree"
            }
            2 => {
                let n = [0usize, nv + 1, nv - 1, 40, 100][ctx.pick(5)];
                aux.num_variables = n;
                sc.proofs.resize(n, message!(2, F::zero()));
                "sum proof of another size"
            }
            3 => {
                let d = [0usize, 1, aux.max_degree + 1, 40, 300][ctx.pick(5)];
                aux.max_degree = d;
                for m in sc.proofs.iter_mut() {
                    h::message_evals_mut(m).resize(d + 1 + zero as usize, F::zero());
                }
                "sum proof of another degree"
            }
            _ => malform_sum(ctx, &mut sc, nv),
        };
        if sc == proof && aux == aux0 {
            continue;
        }
        ctx.fault(&what.replace(' ', "_"));
        ctx.say(format!("fault: {}", what));
        let mut tv = t0.clone();
        let shape = sc.proofs.len() == aux.num_variables && sc.proofs.iter().all(|m| h::message_evals(m).len() == aux.max_degree + 1 + zero as usize);
        let sum = p.sum();
        let r = guard(|| {
            if zero {
                <PolyIOP<F> as ZeroCheck<F>>::verify(&sc, &aux, &mut tv).map(|s| s.expected_evaluation).map_err(|e| format!("{:?}", e))
            } else {
                <PolyIOP<F> as SumCheck<F>>::verify(sum, &sc, &aux, &mut tv).map(|s| s.expected_evaluation).map_err(|e| format!("{:?}", e))
            }
        });
        // a message list that has the right shape for the sizes stated may
        // reduce to a claim about the polynomial; that claim is the caller's to check
        refuse_call(ctx, r, |x| x.is_ok() && !shape, what)?;
    }
    Ok(())
}
/// Every malformation in turn, over one session.
pub fn every_malformation(ctx: &mut Ctx) -> R {
    begin(ctx);
    let p = loop_small(ctx);
    let nv = gen::srs_size(ctx, &p);
    p.describe(ctx);
    let Some(hn) = honest(ctx, p, nv, Source::Proof) else { return Ok(()) };
    let sizes = [0usize, 1, 2, 3, 40, 64, 1 << 20, usize::MAX - 1, usize::MAX];
    let nvp = hn.proof.sc_aux_info.num_variables;
    let mut cases: Vec<(String, Proof)> = vec![];
    for n in sizes {
        let mut p = hn.proof.clone();
        p.sc_aux_info.num_variables = n;
        cases.push((format!("{} variables", n), p));
        let mut p = hn.proof.clone();
        p.sc_aux_info.max_degree = n;
        cases.push((format!("degree {}", n), p));
        if n <= 64 {
            let mut p = hn.proof.clone();
            p.sc_proof.proofs.resize(n, message!(1, F::zero()));
            cases.push((format!("{} round messages", n), p));
            let mut p = hn.proof.clone();
            p.sc_aux_info.num_variables = n;
            p.sc_proof.proofs = (0..n).map(|_| message!(hn.proof.sc_aux_info.max_degree + 1, F::zero())).collect();
            cases.push((format!("{} consistent zero messages", n), p));
            for i in 0..nvp {
                let mut p = hn.proof.clone();
                h::message_evals_mut(&mut p.sc_proof.proofs[i]).resize(n, F::zero());
                cases.push((format!("message {} of {} values", i, n), p));
            }
            let mut p = hn.proof.clone();
            p.pcs_proof[0].f_i_eval_at_point_i.resize(n, F::zero());
            cases.push((format!("{} opened values", n), p));
            let mut p = hn.proof.clone();
            h::batch_sum_check_mut(&mut p.pcs_proof[0]).proofs.resize(n, message!(3, F::zero()));
            cases.push((format!("{} batch messages", n), p));
            for i in 0..nvp {
                let mut p = hn.proof.clone();
                h::message_evals_mut(&mut h::batch_sum_check_mut(&mut p.pcs_proof[0]).proofs[i]).resize(n, F::zero());
                cases.push((format!("batch message {} of {} values", i, n), p));
            }
            let mut p = hn.proof.clone();
            h::batch_g_prime_mut(&mut p.pcs_proof[0]).proofs.resize(n, G1Affine::zero());
            cases.push((format!("{} opening elements", n), p));
        }
    }
    for (what, p) in cases {
        if hn.relevant(&p) == hn.relevant(&hn.proof) {
            continue;
        }
        ctx.fault("enumerated_malformation");
        let Some(v) = hn.decide(p) else { return Ok(()) };
        judge_refusal(ctx, &v, &what)?;
    }
    Ok(())
}


// ---------------------------------------------------------------- C11 in sessions

fn drawn(log: &[Event]) -> Vec<Vec<u8>> {
    log.iter().filter_map(|e| if let Event::Challenge(_, b) = e { Some(b.clone()) } else { None }).collect()
}
/// `other` must keep at most the first `keep` challenges of `base` and share
/// none from then on.
fn diverges(ctx: &mut Ctx, base: &[Vec<u8>], other: &[Vec<u8>], keep: usize, what: &str) -> R {
    let n = base.len().min(other.len());
    let first = (0..n).find(|i| base[*i] != other[*i]);
    match first {
        None if n <= keep => {
            ctx.count("outcome.refused_before_the_next_challenge");
            return Ok(());
        }
        None => return fail("unbound-message", format!("{}: challenges {}..{} do not depend on it", what, keep, n)),
        Some(d) if d > keep => return fail("unbound-message", format!("{}: challenges {}..{} do not depend on it", what, keep, d)),
        Some(d) => {
            let known: BTreeSet<&Vec<u8>> = base.iter().collect();
            if let Some(i) = (d..other.len()).find(|i| known.contains(&other[*i])) {
                return fail("challenge-returns", format!("{}: challenge {} is one of the unaltered conversation's", what, i));
            }
        }
    }
    ctx.count("outcome.challenges_diverged");
    Ok(())
}
/// One message of a session's proof is altered on the way; every challenge the
/// verifier draws from then on must be another one.
pub fn session_binding(ctx: &mut Ctx) -> R {
    begin(ctx);
    let Some(hn) = any_honest(ctx) else { return Ok(()) };
    let base: Vec<Vec<u8>> = drawn(&hn.steps_log).into_iter().chain(drawn(&hn.log)).collect();
    let at_steps = drawn(&hn.steps_log).len();
    let k = hn.opened.len();
    let rounds = hn.proof.sc_proof.proofs.len();
    let Some(b) = hn.proof.pcs_proof.first() else { return Ok(()) };
    let batch_rounds = h::batch_sum_check(b).proofs.len();
    let ell = ark_std::log2(k.max(1)) as usize;
    let Some(at_batch) = base.len().checked_sub(batch_rounds + ell) else { return Ok(()) };
    let Some(at_rounds) = at_batch.checked_sub(rounds) else { return Ok(()) };
    let mut p = hn.proof.clone();
    let d = nonzero_f(ctx);
    let mut kinds = vec![0, 1, 2];
    if !hn.comms.is_empty() {
        kinds.push(3);
    }
    if !hn.sums.is_empty() {
        kinds.push(4);
    }
    let (keep, what) = match kinds[ctx.pick(kinds.len())] {
        0 if rounds > 0 => {
            let i = ctx.pick(rounds);
            let e = h::message_evals_mut(&mut p.sc_proof.proofs[i]);
            let j = ctx.pick(e.len());
            e[j] += d;
            (at_rounds + i, format!("round message {}", i))
        }
        1 if batch_rounds > 0 => {
            let i = ctx.pick(batch_rounds);
            let e = h::message_evals_mut(&mut h::batch_sum_check_mut(&mut p.pcs_proof[0]).proofs[i]);
            let j = ctx.pick(e.len());
            e[j] += d;
            (at_batch + ell + i, format!("batch round message {}", i))
        }
        3 => {
            let i = hn.comms[ctx.pick(hn.comms.len())].clone();
            // the step in which the verifier takes it
            let mut v = Verifier::new(hn.nv, hn.source.clone());
            v.receive(hn.proof.clone());
            tlog::record();
            while !v.done(&hn.prog) && !v.t.clone_underlying_tracker().materialized_comms.contains_key(&i) {
                if v.advance(&hn.prog).is_err() {
                    tlog::take();
                    return Ok(());
                }
            }
            let keep = drawn(&tlog::take()).len();
            let g = &mut p.comms.get_mut(&i).unwrap().0;
            *g = (*g + G1Affine::generator() * d).into_affine();
            (keep, format!("commitment {:?}", i))
        }
        4 => {
            let i = hn.sums[ctx.pick(hn.sums.len())].clone();
            *p.sumcheck_claims.get_mut(&i).unwrap() += d;
            (at_steps, format!("claimed sum {:?}", i))
        }
        _ => {
            let i = ctx.pick(k);
            p.pcs_proof[0].f_i_eval_at_point_i[i] += d;
            (at_batch, format!("opened value {}", i))
        }
    };
    ctx.say(format!("fault: {} altered", what));
    ctx.fault("message_altered");
    ctx.nontrivial = true;
    let mut v = Verifier::new(hn.nv, hn.source.clone());
    v.receive(p);
    tlog::record();
    let verdict = v.finish(&hn.prog);
    let seen = drawn(&tlog::take());
    ctx.mix(verdict.text().as_bytes());
    for c in &seen {
        ctx.mix(c);
    }
    ctx.add("steps.total", hn.prog.steps.len() as u64);
    diverges(ctx, &base, &seen, keep, &what)
}
/// Two provers whose sessions differ in one committed cell draw the same
/// challenges up to that commitment and others from then on.
pub fn prover_binding(ctx: &mut Ctx) -> R {
    begin(ctx);
    let mut p = program(ctx);
    for _ in 0..ctx.range(0, 2) {
        gen::talk(ctx, &mut p);
        let v = any_vals(ctx, 1 + (p.max_nv > 1) as usize);
        p.commit(v);
    }
    for _ in 0..[1, 1, 3, 6][ctx.pick(4)] {
        p.push(Step::Challenge);
    }
    let nv = gen::srs_size(ctx, &p);
    p.describe(ctx);
    let commits: Vec<usize> = (0..p.steps.len()).filter(|i| matches!(p.steps[*i], Step::Commit(_) | Step::Say(_))).collect();
    let k = commits[ctx.pick(commits.len())];
    let mut q = p.clone();
    if let Step::Say(x) = &mut q.steps[k] {
        *x += nonzero_f(ctx);
    } else if let Step::Commit(v) = &mut q.steps[k] {
        let r = ctx.pick(v.len());
        v[r] += nonzero_f(ctx);
    }
    ctx.say(format!("fault: step {} commits to another column or says another value", k));
    ctx.fault("message_altered");
    let run = |prog: &Program| {
        let mut pr = Prover::new(nv);
        tlog::record();
        let mut marks = vec![];
        while !pr.done(prog) {
            let r = pr.advance(prog);
            marks.push(tlog::take());
            tlog::record();
            if r.is_err() {
                break;
            }
        }
        let _ = pr.compile();
        let last = tlog::take();
        (marks, last)
    };
    let (a, ra) = run(&p);
    let (b, rb) = run(&q);
    let flat = |m: &[Vec<Event>], l: &[Event]| -> Vec<Vec<u8>> {
        m.iter().flat_map(|x| drawn(x)).chain(drawn(l)).collect()
    };
    let keep: usize = a[..k].iter().map(|x| drawn(x).len()).sum();
    let (x, y) = (flat(&a, &ra), flat(&b, &rb));
    for c in x.iter().chain(&y) {
        ctx.mix(c);
    }
    ctx.nontrivial = true;
    if x.len() < keep || y.len() < keep || x[..keep] != y[..keep] {
        return fail("same-conversation-different-challenges", format!("challenges before step {} differ", k));
    }
    ctx.add("steps.total", 2 * p.steps.len() as u64);
    diverges(ctx, &x, &y, keep, &format!("the message of step {}", k))
}
/// Many short sessions over a few columns, columns repeated, committed in
/// other orders or numbers, sums claimed in other orders: the challenge after a
/// conversation is a one-to-one function of the conversation, for both parties.
pub fn commit_sequences(ctx: &mut Ctx) -> R {
    begin(ctx);
    let nv = ctx.range(1, 2);
    let mut pool: Vec<Vec<F>> = vec![];
    for i in 0..ctx.range(2, 3) {
        let mut v = any_vals(ctx, nv);
        v[0] = f(3 * i as u64 + 1);
        if i == 1 && ctx.chance(1, 2) {
            // another column with the first one's sum
            v = pool[0].clone();
            v.rotate_left(1);
            if v == pool[0] {
                v[0] += f(1);
                v[1] -= f(1);
            }
        }
        if !pool.contains(&v) {
            pool.push(v);
        }
    }
    let k = pool.len();
    let said = f(ctx.draw(2));
    let item = |ctx: &mut Ctx| ctx.pick(k + 2); // k: a challenge, k+1: a value said
    let mut base: Vec<usize> = (0..ctx.range(2, 5)).map(|_| item(ctx)).collect();
    base.insert(0, ctx.pick(k));
    let mut seqs = vec![base];
    for _ in 0..ctx.range(2, 4) {
        let mut s = seqs[ctx.pick(seqs.len())].clone();
        let i = ctx.pick(s.len());
        match ctx.draw(5) {
            0 => s.insert(i, s[i]),
            1 if s.len() > 1 => {
                let j = if i + 1 < s.len() { i + 1 } else { i - 1 };
                s.swap(i, j)
            }
            2 if s.len() > 1 => {
                s.remove(i);
            }
            3 => {
                let x = item(ctx);
                s.insert(i, x)
            }
            _ => s[i] = item(ctx),
        }
        if s[0] < k {
            seqs.push(s);
        }
    }
    ctx.nontrivial = seqs.len() > 1;
    let mut known: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut back: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    let mut learn = |ctx: &mut Ctx, who: &str, hist: String, c: Vec<u8>| -> R {
        ctx.mix(&c);
        if let Some(x) = known.get(&hist) {
            if *x != c {
                return fail("same-conversation-different-challenges", format!("{}: after {}", who, hist));
            }
        }
        if let Some(x) = back.get(&c) {
            if *x != hist {
                return fail("unbound-message", format!("{}: the same challenge after {} and after {}", who, x, hist));
            }
        }
        known.insert(hist.clone(), c.clone());
        back.insert(c, hist);
        Ok(())
    };
    for s in &seqs {
        let mut p = Program::new();
        let mut cs = vec![];
        for x in s {
            if *x == k {
                p.push(Step::Challenge);
            } else if *x > k {
                p.push(Step::Say(said));
            } else {
                cs.push(p.commit(pool[*x].clone()));
            }
        }
        p.push(Step::Challenge);
        let plain = p.clone();
        let mut sums = vec![];
        for _ in 0..ctx.range(1, 3) {
            let c = cs[ctx.pick(cs.len())];
            let t: F = p.v(c).iter().sum();
            sums.push((c, t));
            p.push(Step::Sum(c, t, false));
        }
        ctx.say(format!("columns {:?} ({} is a challenge), sums of {:?}", s, k, sums.iter().map(|x| x.0).collect::<Vec<_>>()));
        let mut hist = String::from("columns");
        let mut hists = vec![];
        for x in s.iter().chain([&k]) {
            if *x == k {
                hists.push(hist.clone());
                hist += " challenge";
            } else {
                hist += &format!(" {}", x);
            }
        }
        let mut pr = Prover::new(nv);
        if pr.run(&p).is_err() {
            return Ok(());
        }
        let mut ve = Verifier::new(nv, Source::Own(own_comms(&p, nv)));
        while !ve.done(&plain) {
            if ve.advance(&plain).is_err() {
                return Ok(());
            }
        }
        if pr.challenges.len() != hists.len() || ve.challenges.len() != hists.len() {
            return Ok(());
        }
        for (i, h) in hists.iter().enumerate() {
            learn(ctx, "prover", h.clone(), ser(&pr.challenges[i]))?;
            learn(ctx, "verifier", h.clone(), ser(&ve.challenges[i]))?;
        }
        for (_, t) in &sums {
            hist += &format!(" sum {:?}", t);
        }
        tlog::record();
        let ok = pr.compile().is_ok();
        let d = drawn(&tlog::take());
        if ok && !d.is_empty() {
            learn(ctx, "prover", hist, d[0].clone())?;
        }
    }
    Ok(())
}
