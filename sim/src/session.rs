//! Scenarios that run whole prover/verifier sessions and judge them against
//! the reference model.

use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

use ark_ff::{One, Zero};
use ark_ff::Field as _;
use merlin::sim as tlog;
use rayon_core::sim::Policy;
use zk_sql::sim_hooks as h;
use zk_sql::subroutines::{MultilinearProverParam, MultilinearVerifierParam, PolynomialCommitmentScheme};
use zk_sql::tracker::prelude::*;

use crate::core::*;
use crate::gen;
use crate::world::*;

/// Everything a run fixes before it starts: the schedule and the hash seeds.
pub fn begin(ctx: &mut Ctx) {
    gen::plain();
    ctx.schedule();
    let s = ctx.seed64();
    set_os_random(s);
}
pub fn source(ctx: &mut Ctx, p: &Program, nv: usize) -> Source {
    if ctx.chance(1, 4) {
        Source::Own(own_comms(p, nv))
    } else {
        Source::Proof
    }
}
fn note(ctx: &mut Ctx, p: &Program, nv: usize) {
    for s in &p.steps {
        if s.is_gadget() {
            ctx.count(&format!("step.{}", s.name()));
        }
    }
    ctx.add("steps.total", 2 * p.steps.len() as u64);
    ctx.say(format!("session with parameters for {} variables", nv));
    p.describe(ctx);
    let sizes: BTreeSet<usize> = p.cols.iter().map(|c| c.nv).collect();
    ctx.shape = mix64(
        p.steps.iter().fold(nv as u64, |a, s| mix64(a ^ s.name().len() as u64 ^ (s.name().as_bytes()[0] as u64) << 8))
            ^ sizes.iter().fold(0, |a, n| a * 16 + *n as u64),
    );
    if sizes.len() > 1 {
        ctx.probe("mixed_sizes");
    }
    if p.cols.iter().any(|c| c.deg > 1) {
        ctx.probe("products");
    }
    if p.tainted {
        ctx.probe("materialised_products");
    }
    if p.commits() == 1 {
        ctx.probe("single_commitment");
    }
}
/// A proof that says other things than `proof` in every part.
pub fn worn(ctx: &mut Ctx, proof: &Proof) -> Proof {
    let mut w = proof.clone();
    let one = F::one();
    w.sumcheck_claims.values_mut().for_each(|x| *x += one);
    w.query_map.values_mut().for_each(|x| *x += one);
    let mut ids: Vec<TrackerID> = w.comms.keys().copied().collect();
    ids.sort();
    for id in ids {
        crate::p_crypto::damage_g1(ctx, &mut w.comms.get_mut(&id).expect("present").0);
    }
    if ctx.chance(1, 2) {
        w.sc_proof.proofs.pop();
    } else {
        w.sc_proof.proofs.reverse();
    }
    if ctx.chance(1, 2) {
        w.pcs_proof.clear();
    }
    w.sc_aux_info.num_variables += 1;
    w
}
/// One session through the real code, with its proof mixed into the digest.
pub fn session(ctx: &mut Ctx, prog: &Program, nv: usize, src: Source) -> (Verdict, Option<Prover>) {
    let mut p = Prover::new(nv);
    if let Err((i, e)) = p.run(prog) {
        return (Verdict::refused(&format!("prover step {} ({})", i, prog.steps[i].name()), &e), None);
    }
    let proof = match p.compile() {
        Ok(x) => x,
        Err(e) => return (Verdict::refused("prover compilation", &e), None),
    };
    ctx.mix(&proof_bytes(&proof));
    let mut v = Verifier::new(nv, src);
    // what it was handed before the proof no longer counts
    if ctx.chance(1, 8) {
        v.receive(worn(ctx, &proof));
        ctx.fault("other_proof_received_first");
    }
    v.receive(proof);
    let verdict = v.finish(prog);
    if p.cols.len() != prog.cols.len() || v.cols.len() != prog.cols.len() && verdict.accepted() {
        return (Verdict::refused("result shape", "the step returned another number of columns than it defines"), Some(p));
    }
    (verdict, Some(p))
}
fn falses(p: &Program) -> String {
    (0..p.steps.len())
        .filter(|i| p.truth_of(*i) == Truth::False)
        .map(|i| format!("step {} ({})", i, p.steps[i].name()))
        .collect::<Vec<_>>()
        .join(", ")
}
/// Compare the verdict with what the model says about the program.
pub fn judge(ctx: &mut Ctx, p: &Program, verdict: &Verdict) -> R {
    let t = p.truth();
    ctx.mix(verdict.text().as_bytes());
    ctx.say(format!("verdict: {}", verdict.text()));
    match t {
        Truth::True => ctx.count("outcome.true_program"),
        Truth::False => ctx.count("outcome.false_program"),
        Truth::Grey => ctx.count("outcome.undetermined_program"),
    }
    if t != Truth::Grey {
        ctx.nontrivial = true;
    }
    match (t, verdict) {
        (Truth::True, Verdict::Refused { at, msg, .. }) => {
            fail("true-program-refused", format!("every claim is true, yet the session was refused at {}: {}", at, msg))
        }
        (Truth::False, Verdict::Refused { at, .. }) if at == AGAIN => {
            fail("false-program-accepted", format!("refused, then accepted when asked again, although false: {}", falses(p)))
        }
        (Truth::False, Verdict::Accepted) => fail("false-program-accepted", format!("accepted although false: {}", falses(p))),
        (Truth::False, Verdict::Refused { at, .. }) => {
            let k = if at.starts_with("prover step") {
                "prover step"
            } else if at.starts_with("verifier step") {
                "verifier step"
            } else {
                at.as_str()
            };
            ctx.count(&format!("refused_at.{}", k.replace(' ', "_")));
            Ok(())
        }
        _ => Ok(()),
    }
}
/// A scenario that asks only whether something false was accepted leaves
/// refusals of true programs to the properties about those.
pub fn soundness(ctx: &mut Ctx, r: R) -> R {
    match r {
        Err(v) if v.class == "true-program-refused" || v.class == "wrong-result-table" => {
            ctx.count("outcome.true_program_refused");
            Ok(())
        }
        r => r,
    }
}
/// Columns the table steps return, compared with the model.
pub fn results(ctx: &mut Ctx, prog: &Program, p: &Prover) -> R {
    for (i, s) in prog.steps.iter().enumerate() {
        if !matches!(s, Step::Cross(..) | Step::FinalJoin(..) | Step::GroupBy { .. }) {
            continue;
        }
        let first = prog.outs[i];
        let end = if i + 1 < prog.outs.len() { prog.outs[i + 1] } else { prog.cols.len() };
        let sel = prog.v(end - 1).clone();
        for c in first..end {
            let got = p.cols[c].tracker.borrow_mut().evaluations(p.cols[c].id).clone();
            // a session ends with every column at the largest size, each row repeated
            let want = prog.v(c);
            if got.len() % want.len() != 0 {
                return fail("wrong-result-table", format!("step {} ({}): column {} has {} rows", i, s.name(), c - first, got.len()));
            }
            for r in 0..got.len() {
                let w = r / (got.len() / want.len());
                let skip = c + 1 < end && sel[w].is_zero() && !matches!(s, Step::Cross(..));
                if !skip && got[r] != want[w] {
                    return fail(
                        "wrong-result-table",
                        format!("step {} ({}): result column {} row {} is {}, expected {}", i, s.name(), c - first, w, show1(&got[r]), show1(&want[w])),
                    );
                }
            }
            ctx.count("result_columns_compared");
        }
    }
    Ok(())
}

fn lying(ctx: &mut Ctx) -> bool {
    if cfg!(debug_assertions) {
        false
    } else {
        ctx.chance(1, 2)
    }
}
/// `checked` builds concentrate on true programs.
fn lie_here(ctx: &mut Ctx) -> bool {
    let l = lying(ctx);
    if checked_build() {
        l && ctx.chance(1, 4)
    } else {
        l
    }
}
pub fn checked_build() -> bool {
    std::env::args().next().map(|a| a.ends_with("-checked")).unwrap_or(false)
}

// ---------------------------------------------------------------- C01, C02

pub fn true_programs(ctx: &mut Ctx) -> R {
    begin(ctx);
    let p = gen::tracker_program(ctx, false);
    let nv = gen::srs_size(ctx, &p);
    let src = source(ctx, &p, nv);
    note(ctx, &p, nv);
    let (v, _) = session(ctx, &p, nv, src);
    judge(ctx, &p, &v)
}
/// A session long enough for counters and orders to matter.
pub fn long_sessions(ctx: &mut Ctx) -> R {
    gadget(ctx, |ctx, p| gen::long(ctx, p, false))
}
pub fn long_lies(ctx: &mut Ctx) -> R {
    let r = gadget(ctx, |ctx, p| gen::long(ctx, p, true));
    soundness(ctx, r)
}
pub fn long_either(ctx: &mut Ctx) -> R {
    gadget(ctx, |ctx, p| {
        let lie = lie_here(ctx);
        gen::long(ctx, p, lie)
    })
}
pub fn lockstep_long(ctx: &mut Ctx) -> R {
    begin(ctx);
    let mut p = Program::new();
    gen::long(ctx, &mut p, false);
    lockstep_of(ctx, p)
}
pub fn high_degree(ctx: &mut Ctx) -> R {
    begin(ctx);
    let mut p = Program::new();
    let nv = ctx.range(1, 2);
    let deg = ctx.range(10, 40);
    let a: Vec<F> = (0..1 << nv).map(|_| any_f(ctx)).collect();
    let b: Vec<F> = (0..1 << nv).map(|_| any_f(ctx)).collect();
    let (a, b) = (p.commit(a), p.commit(b));
    let mut cur = a;
    for _ in 1..deg {
        let o = if ctx.chance(1, 2) { a } else { b };
        cur = p.push(Step::Mul(cur, o));
    }
    // the zero claim keeps the product virtual, a sum claim would read it
    let d = p.commit(p.v(cur).clone());
    let lie = lie_here(ctx);
    if lie {
        let k = nonzero_f(ctx);
        cur = p.push(Step::AddS(cur, k));
    }
    let z = p.push(Step::Sub(cur, d));
    p.push(Step::Zero(z));
    if ctx.chance(1, 2) {
        let s = p.v(cur).iter().sum();
        p.push(Step::Sum(cur, s, false));
    }
    note(ctx, &p, nv);
    let (v, _) = session(ctx, &p, nv, Source::Proof);
    judge(ctx, &p, &v)
}
pub fn true_gadgets(ctx: &mut Ctx) -> R {
    gadget(ctx, |ctx, p| {
        let k = ctx.pick(gen::ALL.len());
        (gen::ALL[k].1)(ctx, p, false);
    })
}
pub fn false_programs(ctx: &mut Ctx) -> R {
    begin(ctx);
    let p = gen::tracker_program(ctx, true);
    let nv = gen::srs_size(ctx, &p);
    let src = source(ctx, &p, nv);
    note(ctx, &p, nv);
    let (v, _) = session(ctx, &p, nv, src);
    let r = judge(ctx, &p, &v);
    soundness(ctx, r)
}
pub fn false_gadgets(ctx: &mut Ctx) -> R {
    let r = gadget(ctx, |ctx, p| {
        let k = ctx.pick(gen::ALL.len());
        (gen::ALL[k].1)(ctx, p, true);
    });
    soundness(ctx, r)
}
/// Columns of many rows.
pub fn tall_lies(ctx: &mut Ctx) -> R {
    let r = gadget(ctx, |ctx, p| gen::tall(ctx, p, true));
    soundness(ctx, r)
}
pub fn tall_truths(ctx: &mut Ctx) -> R {
    gadget(ctx, |ctx, p| gen::tall(ctx, p, false))
}
/// False claims whose falsities cancel each other.
pub fn false_cancelling(ctx: &mut Ctx) -> R {
    let r = gadget(ctx, |ctx, p| gen::cancelling(ctx, p, true));
    soundness(ctx, r)
}
/// One cell of one column of a large claim list is wrong.
pub fn one_among_many(ctx: &mut Ctx) -> R {
    begin(ctx);
    let mut p = Program::new();
    let nv = ctx.range(1, 4);
    let n = ctx.range(4, 12);
    let liar = ctx.pick(n);
    let mut sums = 0;
    for i in 0..n {
        let m = if ctx.chance(1, 3) { ctx.range(1, nv) } else { nv };
        let a: Vec<F> = (0..1 << m).map(|_| any_f(ctx)).collect();
        let mut b = a.clone();
        if i == liar {
            let e = gen::error(ctx, m);
            b.iter_mut().zip(e).for_each(|(x, e)| *x += e);
        }
        let (x, y) = (p.commit(a), p.commit(b.clone()));
        if ctx.chance(1, 3) {
            let s: F = p.v(x).iter().sum();
            p.push(Step::Sum(y, s, false));
            sums += 1;
        } else {
            let z = p.push(Step::Sub(x, y));
            p.push(Step::Zero(z));
        }
    }
    ctx.add("claims.sum", sums);
    gen::own_sums(ctx, &mut p);
    let s = gen::srs_size(ctx, &p);
    note(ctx, &p, s);
    let (v, _) = session(ctx, &p, s, Source::Proof);
    let r = judge(ctx, &p, &v);
    soundness(ctx, r)
}

/// A prover that lies about the claims, not about the columns: it follows the
/// protocol for a true statement over the same commitments and presents the
/// result as a proof of the false one.
pub fn forged_messages(ctx: &mut Ctx) -> R {
    begin(ctx);
    let nv = ctx.range(1, 3);
    let mut p = Program::new();
    let n = ctx.range(1, 3);
    for _ in 0..n {
        let v: Vec<F> = (0..1 << nv).map(|_| any_f(ctx)).collect();
        p.commit(v);
    }
    let mut v: Vec<F> = (0..1 << nv).map(|_| any_f(ctx)).collect();
    let r = ctx.pick(v.len());
    v[r] = nonzero_f(ctx);
    let c = p.commit(v);
    let mut honest = p.clone();
    p.push(Step::Zero(c));
    let z = honest.push(Step::Sub(c, c));
    honest.push(Step::Zero(z));
    note(ctx, &p, nv);
    ctx.say(format!("the prover proves step {} instead", honest.steps.len() - 1));
    ctx.fault("byzantine_prover");
    let mut pr = Prover::new(nv);
    if pr.run(&honest).is_err() {
        return Ok(());
    }
    let Ok(proof) = pr.compile() else { return Ok(()) };
    let mut ve = Verifier::new(nv, Source::Proof);
    ve.receive(proof);
    let verdict = ve.finish(&p);
    ctx.mix(verdict.text().as_bytes());
    ctx.nontrivial = true;
    if verdict.accepted() {
        return fail("substituted-claim-accepted", "a proof about another derived column was accepted as proof of a false zero claim".to_string());
    }
    Ok(())
}
/// Two claims of sums, both wrong, whose errors cancel under the challenges
/// the prover can predict.
pub fn compensating_sums(ctx: &mut Ctx) -> R {
    begin(ctx);
    let nv = ctx.range(1, 3);
    let mut p = Program::new();
    let n = match ctx.draw(8) {
        7 => ctx.range(5, 40),
        6 => ctx.range(5, 12),
        _ => ctx.range(2, 4),
    };
    let mut cs = vec![];
    for _ in 0..n {
        let v: Vec<F> = (0..1 << nv).map(|_| any_f(ctx)).collect();
        cs.push(p.commit(v));
    }
    for c in &cs {
        let s = p.v(*c).iter().sum();
        p.push(Step::Sum(*c, s, false));
    }
    let mut pr = Prover::new(nv);
    if let Err((i, e)) = pr.run(&p) {
        ctx.say(format!("prover step {}: {}", i, e));
        return Ok(());
    }
    // the coefficient each claimed sum gets
    tlog::record();
    let compiled = pr.compile();
    let log = tlog::take();
    let Ok(mut proof) = compiled else { return Ok(()) };
    let coef = crate::p_predict::scalars(&log).remove(&b"sumcheck challenge"[..]).unwrap_or_default();
    if coef.len() < n {
        return Ok(());
    }
    let (i, j) = match ctx.draw(3) {
        0 => (n - 2, n - 1),
        _ => {
            let i = ctx.pick(n);
            (i, (i + ctx.range(1, n - 1)) % n)
        }
    };
    let d = nonzero_f(ctx);
    use ark_ff::Field;
    let e = -d * coef[i] * coef[j].inverse().unwrap();
    for (k, x) in [(i, d), (j, e)] {
        let id = pr.cols[cs[k]].id;
        let Some(s) = proof.sumcheck_claims.get_mut(&id) else { return fail("missing-sum", "no claimed sum in the proof") };
        *s += x;
        let pos = p.steps.iter().position(|s| matches!(s, Step::Sum(c, ..) if *c == cs[k])).unwrap();
        if let Step::Sum(_, s, _) = &mut p.steps[pos] {
            *s += x;
        }
    }
    note(ctx, &p, nv);
    ctx.fault("compensating_sums");
    let mut ve = Verifier::new(nv, Source::Proof);
    ve.receive(proof);
    let verdict = ve.finish(&p);
    let r = judge(ctx, &p, &verdict);
    soundness(ctx, r)
}

// ---------------------------------------------------------------- C14 .. C20, C24

pub fn gadget(ctx: &mut Ctx, make: impl FnOnce(&mut Ctx, &mut Program)) -> R {
    begin(ctx);
    let mut p = Program::new();
    make(ctx, &mut p);
    gen::own_sums(ctx, &mut p);
    let nv = gen::srs_size(ctx, &p);
    let src = source(ctx, &p, nv);
    note(ctx, &p, nv);
    let (v, pr) = session(ctx, &p, nv, src);
    judge(ctx, &p, &v)?;
    if let (true, Some(pr)) = (p.truth() == Truth::True, pr) {
        results(ctx, &p, &pr)?;
    }
    Ok(())
}
macro_rules! gadget_scenarios {
    ($($name:ident),*) => { $(pub fn $name(ctx: &mut Ctx) -> R {
        gadget(ctx, |ctx, p| {
            let lie = lie_here(ctx);
            gen::$name(ctx, p, lie);
            if ctx.chance(1, 6) {
                gen::alias(ctx, p);
            }
        })
    })* };
}
gadget_scenarios!(
    bag_eq, bag_sum, multi, incl, no_zeros, sel_valid, perm, sort, supp, bag_disjoint, set_disjoint, union, diff, inter,
    index, final_join, join_red, group_by, cross, composed, cancelling, claims
);

/// The row pairs of a product, against its definition.
pub fn cross_rows(ctx: &mut Ctx) -> R {
    begin(ctx);
    let mut p = Program::new();
    let (na, nb) = (ctx.range(1, 3), ctx.range(1, 3));
    let (ca, cb) = (ctx.range(1, 3), ctx.range(1, 3));
    let (ta, tb) = (gen::tab(ctx, na, ca), gen::tab(ctx, nb, cb));
    let mut want = vec![];
    for i in 0..1usize << na {
        for j in 0..1usize << nb {
            if ta.sel[i].is_one() && tb.sel[j].is_one() {
                want.push(ta.cols.iter().map(|c| c[i]).chain(tb.cols.iter().map(|c| c[j])).collect::<Vec<F>>());
            }
        }
    }
    want.sort();
    let (a, b) = (gen::put(ctx, &mut p, ta), gen::put(ctx, &mut p, tb));
    let out = p.push(Step::Cross(a, b));
    note(ctx, &p, p.max_nv);
    let mut pr = Prover::new(p.max_nv);
    if let Err((i, e)) = pr.run(&p) {
        return fail("true-program-refused", format!("prover step {}: {}", i, e));
    }
    let cols: Vec<Vec<F>> = pr.cols[out..].iter().map(|c| c.evaluations()).collect();
    let n = cols.len();
    if n != ca + cb + 1 || cols.iter().any(|c| c.len() != 1 << (na + nb)) {
        return fail("wrong-result-table", "the product has the wrong shape");
    }
    let mut got: Vec<Vec<F>> =
        (0..cols[0].len()).filter(|r| !cols[n - 1][*r].is_zero()).map(|r| (0..n - 1).map(|c| cols[c][r]).collect()).collect();
    got.sort();
    for c in &cols {
        ctx.mix(&ser(c));
    }
    ctx.nontrivial = true;
    if got != want {
        return fail("wrong-result-table", format!("the product holds {} rows, its definition {}", got.len(), want.len()));
    }
    Ok(())
}
/// The order of independent steps does not matter.
pub fn reorder(ctx: &mut Ctx) -> R {
    begin(ctx);
    let n = ctx.range(2, 3);
    let lie = lie_here(ctx);
    let liar = if lie { ctx.pick(n) } else { n };
    let mut parts: Vec<Program> = vec![];
    for i in 0..n {
        let k = ctx.pick(gen::ALL.len());
        let mut p = Program::new();
        (gen::ALL[k].1)(ctx, &mut p, i == liar);
        parts.push(p);
    }
    ctx.shuffle(&mut parts);
    // interleave the parts step by step
    let mut all = Program::new();
    let mut maps: Vec<Vec<C>> = vec![vec![]; n];
    let mut pos = vec![0; n];
    while (0..n).any(|i| pos[i] < parts[i].steps.len()) {
        let open: Vec<usize> = (0..n).filter(|i| pos[*i] < parts[*i].steps.len()).collect();
        let i = open[ctx.pick(open.len())];
        let s = renumber(&parts[i].steps[pos[i]], &maps[i]);
        let first = all.push(s);
        let end = all.cols.len();
        maps[i].extend(first..end);
        pos[i] += 1;
    }
    let nv = gen::srs_size(ctx, &all);
    note(ctx, &all, nv);
    let (v, _) = session(ctx, &all, nv, Source::Proof);
    judge(ctx, &all, &v)
}
pub fn renumber(s: &Step, m: &[C]) -> Step {
    use Step::*;
    let b = |x: &B| B { v: m[x.v], s: m[x.s] };
    let t = |x: &T| T { cols: x.cols.iter().map(|c| m[*c]).collect(), sel: m[x.sel] };
    let bs = |x: &Vec<B>| x.iter().map(b).collect::<Vec<_>>();
    let cs = |x: &Vec<C>| x.iter().map(|c| m[*c]).collect::<Vec<_>>();
    match s {
        Commit(v) => Commit(v.clone()),
        Public(v) => Public(v.clone()),
        Add(x, y) => Add(m[*x], m[*y]),
        Sub(x, y) => Sub(m[*x], m[*y]),
        Mul(x, y) => Mul(m[*x], m[*y]),
        AddS(x, k) => AddS(m[*x], *k),
        MulS(x, k) => MulS(m[*x], *k),
        Front(x, k) => Front(m[*x], *k),
        Back(x, k) => Back(m[*x], *k),
        Read(x) => Read(m[*x]),
        Challenge => Challenge,
        Say(x) => Say(*x),
        Zero(x) => Zero(m[*x]),
        Sum(x, k, o) => Sum(m[*x], *k, *o),
        BagEq(x, y) => BagEq(b(x), b(y)),
        BagSum(x, y, z) => BagSum(b(x), b(y), b(z)),
        Multi(x, y, z, w) => Multi(bs(x), bs(y), cs(z), cs(w)),
        Incl(x, y, z) => Incl(b(x), b(y), z.map(|z| m[z])),
        NoZeros(x) => NoZeros(b(x)),
        SelValid(x) => SelValid(m[*x]),
        Perm(x, y, z) => Perm(b(x), b(y), m[*z]),
        Sort(x, y) => Sort(b(x), b(y)),
        Supp(x, y, z, w) => Supp(b(x), b(y), z.map(|z| m[z]), b(w)),
        BagDisjoint(x, y, a, r) => BagDisjoint(b(x), b(y), a.as_ref().map(|(c, p, q)| (b(c), m[*p], m[*q])), b(r)),
        SetDisjoint(x, y, r) => SetDisjoint(b(x), b(y), b(r)),
        Union(x, y, z, r) => Union(b(x), b(y), b(z), b(r)),
        Diff(x, y, z, w, c, r) => Diff(b(x), b(y), b(z), b(w), m[*c], b(r)),
        Inter(x, y, z, w, u, r) => Inter(b(x), b(y), b(z), b(w), b(u), b(r)),
        Cross(x, y) => Cross(t(x), t(y)),
        Index(x, y) => Index(t(x), t(y)),
        FinalJoin(x, y, i, j, a) => FinalJoin(t(x), t(y), *i, *j, a.as_ref().map(cs)),
        JoinRed(x, y, l, r, g) => JoinRed(b(x), b(y), m[*l], m[*r], b(g)),
        GroupBy { input, gcol, supp, ssel, smul, aggs, range } => GroupBy {
            input: t(input),
            gcol: *gcol,
            supp: m[*supp],
            ssel: m[*ssel],
            smul: m[*smul],
            aggs: aggs.iter().map(|(i, k, c)| (*i, *k, m[*c])).collect(),
            range: b(range),
        },
    }
}

// ---------------------------------------------------------------- C05

/// Fill the verifier's evaluation table with the evaluation of every committed
/// column at every part of `pt` that has the column's length.
fn fill_queries(v: &h::VerifierTracker<E, P>, p: &h::ProverTracker<E, P>, pt: &[F]) {
    let mut q = v.query_map.borrow_mut();
    q.clear();
    for id in v.materialized_comms.keys() {
        let Some(m) = p.materialized_polys.get(id) else { continue };
        let n = m.num_vars;
        if n > pt.len() {
            continue;
        }
        for s in 0..=pt.len() - n {
            q.insert((*id, pt[s..s + n].to_vec()), mle_eval(&m.evaluations, &pt[s..s + n]));
        }
    }
}
pub fn lockstep(ctx: &mut Ctx, prog: &Program, p: &h::ProverTracker<E, P>, pr: &Prover, ve: &Verifier) -> R {
    let v = ve.t.clone_underlying_tracker();
    if p.id_counter != v.id_counter {
        return fail("identities-diverge", format!("prover is at identity {}, verifier at {}", p.id_counter, v.id_counter));
    }
    let labels = |x: &Vec<h::TrackerSumcheckClaim<F>>| x.iter().map(|c| c.label.0).collect::<Vec<_>>();
    if labels(&p.sum_check_claims) != labels(&v.sum_check_claims) {
        return fail("sum-claims-diverge", format!("{:?} and {:?}", labels(&p.sum_check_claims), labels(&v.sum_check_claims)));
    }
    let zl: Vec<usize> = p.zero_check_claims.iter().map(|c| c.label.0).collect();
    let zr: Vec<usize> = v.zero_check_claims.iter().map(|c| c.label.0).collect();
    if zl != zr {
        return fail("zero-claims-diverge", format!("{:?} and {:?}", zl, zr));
    }
    if pr.challenges != ve.challenges {
        return fail("challenges-diverge", "a challenge drawn by both sides differs");
    }
    if (1..pr.challenges.len()).any(|i| pr.challenges[..i].contains(&pr.challenges[i])) {
        return fail("challenges-repeat", "two challenges of one session are equal");
    }
    for (i, (a, b)) in pr.cols.iter().zip(&ve.cols).enumerate() {
        if a.id != b.0.id {
            return fail("identities-diverge", format!("column {} is {} for the prover and {} for the verifier", i, a.id.0, b.0.id.0));
        }
    }
    if pr.cols.len() != ve.cols.len() {
        return fail("identities-diverge", "the parties hold different numbers of columns");
    }
    let (mut tp, mut tv) = (p.transcript.clone(), v.transcript.clone());
    if tp.get_and_append_challenge(b"probe").ok() != tv.get_and_append_challenge(b"probe").ok() {
        return fail("challenges-diverge", "the next challenge differs");
    }
    // what the handles offer beyond the steps
    let (mut hp, mut hv) = (PRef::new_from_tracker(p.clone()), ve.t.deep_copy());
    if hp.get_next_id() != hv.get_next_id() || hp.get_next_id().0 != p.id_counter {
        return fail("identities-diverge", "the next identity differs");
    }
    for (id, c) in &p.materialized_comms {
        if guard(|| hv.get_mat_comm(*id)).ok().as_ref() != Some(c) {
            return fail("commitments-diverge", format!("the commitment of {}", id.0));
        }
    }
    let said = any_f(ctx);
    let (sp, sv) = (hp.append_serializable_element(b"said", &said).is_ok(), hv.append_serializable_element(b"said", &said).is_ok());
    let k = ctx.range(1, 5);
    let (rp, rv) = (h::index_transform::utils::prover_sample_rands(&mut hp, k), h::index_transform::utils::verifier_sample_rands(&mut hv, k));
    match (rp, rv) {
        (Ok(a), Ok(b)) if sp && sv && a == b && a.len() == k && (1..k).all(|i| !a[..i].contains(&a[i])) => {}
        _ => return fail("challenges-diverge", format!("{} challenges sampled after a value both parties said", k)),
    }
    // formulas
    let n = p.id_counter;
    let stride = if n > 90 { 1 + n / 90 } else { 1 };
    let start = ctx.pick(stride);
    for id in (start..n).step_by(stride) {
        let id = TrackerID(id);
        let known = v.virtual_comms.borrow().contains_key(&id);
        let mat = p.materialized_polys.contains_key(&id);
        let virt = p.virtual_polys.contains_key(&id);
        if !mat && !virt {
            if known {
                return fail("identities-diverge", format!("identity {} exists for the verifier only", id.0));
            }
            continue;
        }
        if !known {
            if virt || p.materialized_comms.contains_key(&id) {
                return fail("identities-diverge", format!("identity {} exists for the prover only", id.0));
            }
            continue; // the constant behind a scalar addition
        }
        let nv = p.get_poly_nv(id);
        let mut pts: Vec<(Vec<F>, String)> = vec![];
        for k in 0..(1usize << nv).min(6) {
            let r = match k {
                0 => 0,
                1 => (1 << nv) - 1,
                _ => ctx.pick(1 << nv),
            };
            pts.push((vertex(r, nv), format!("row {}", r)));
        }
        if !prog.tainted {
            let pt = point(ctx, nv);
            let s = show(&pt);
            pts.push((pt, format!("point {}", s)));
        }
        for (pt, what) in pts {
            fill_queries(&v, p, &pt);
            let got = match ve.cols.iter().find(|c| c.0.id == id) {
                Some(c) => guard(|| c.0.eval_virtual_comm(&pt)),
                None => guard(|| v.eval_virtual_comm(id, &pt)),
            };
            let want = p.evaluate(id, &pt);
            v.query_map.borrow_mut().clear();
            ctx.count("formula_evaluations");
            match (got, want) {
                (Ok(Ok(a)), Some(b)) => {
                    if a != b {
                        return fail("formulas-diverge", format!("identity {} at {}: verifier {}, prover {}", id.0, what, show1(&a), show1(&b)));
                    }
                }
                (g, w) => {
                    return fail(
                        "formulas-diverge",
                        format!("identity {} at {}: verifier {:?}, prover {:?}", id.0, what, g.map(|x| x.is_ok()), w.is_some()),
                    )
                }
            }
        }
    }
    // the model
    for (i, c) in pr.cols.iter().enumerate() {
        let nv = prog.nv(i);
        if p.get_poly_nv(c.id) != nv {
            return fail("size-differs", format!("column {} has {} variables, expected {}", i, p.get_poly_nv(c.id), nv));
        }
        for _ in 0..3 {
            let r = ctx.pick(1 << nv);
            if !prog.cols[i].free && p.evaluate(c.id, &vertex(r, nv)) != Some(prog.v(i)[r]) {
                return fail("values-differ", format!("column {} row {}", i, r));
            }
        }
    }
    Ok(())
}
fn lockstep_of(ctx: &mut Ctx, p: Program) -> R {
    let nv = gen::srs_size(ctx, &p);
    let src = source(ctx, &p, nv);
    note(ctx, &p, nv);
    let mut pr = Prover::new(nv);
    if let Err((i, e)) = pr.run(&p) {
        if p.truth() == Truth::True {
            return fail("true-program-refused", format!("prover step {} ({}): {}", i, p.steps[i].name(), e));
        }
        return Ok(());
    }
    let before = pr.t.clone_underlying_tracker();
    let proof = match pr.compile() {
        Ok(x) => x,
        Err(e) => {
            if p.truth() == Truth::True {
                return fail("true-program-refused", format!("compilation: {}", e));
            }
            return Ok(());
        }
    };
    ctx.mix(&proof_bytes(&proof));
    let mut ve = Verifier::new(nv, src);
    ve.receive(proof);
    if let Err((i, e)) = ve.run(&p) {
        if p.truth() == Truth::True {
            return fail("true-program-refused", format!("verifier step {} ({}): {}", i, p.steps[i].name(), e));
        }
        return Ok(());
    }
    ctx.nontrivial = true;
    lockstep(ctx, &p, &before, &pr, &ve)?;
    // the decision draws the same challenges on both sides as well
    let verdict = ve.decide();
    if verdict.accepted() {
        let (mut tp, mut tv) = (pr.t.clone_underlying_tracker().transcript, ve.t.clone_underlying_tracker().transcript);
        if tp.get_and_append_challenge(b"probe").ok() != tv.get_and_append_challenge(b"probe").ok() {
            return fail("challenges-diverge", "the next challenge after the decision differs");
        }
    }
    Ok(())
}
/// A column multiplied again and again by a few others of its size.
fn tower(ctx: &mut Ctx, p: &mut Program, live: &mut Vec<C>) {
    let a = live[ctx.pick(live.len())];
    // columns of their own, so that the products stay single terms
    let nv = p.nv(a);
    let own: Vec<C> = (0..ctx.range(1, 2)).map(|_| p.commit(crate::p_crypto::any_vals(ctx, nv))).collect();
    let mut cur = own[0];
    for _ in 0..ctx.range(9, 24) {
        let o = own[ctx.pick(own.len())];
        cur = p.push(Step::Mul(cur, o));
    }
    live.push(cur);
}
pub fn lockstep_programs(ctx: &mut Ctx) -> R {
    begin(ctx);
    let mut p = Program::new();
    let mut sh = gen::shape(ctx);
    sh.ops = ctx.range(1, 12);
    let reads = ctx.chance(1, 3);
    let mut live = gen::arithmetic(ctx, &mut p, &sh, reads);
    if ctx.chance(1, 20) {
        tower(ctx, &mut p, &mut live);
    }
    for _ in 0..ctx.range(1, 3) {
        if ctx.chance(1, 3) {
            for _ in 0..[1, 1, 2, 4, 7][ctx.pick(5)] {
                gen::talk(ctx, &mut p);
            }
        }
        gen::claim(ctx, &mut p, &live, false);
    }
    lockstep_of(ctx, p)
}
pub fn lockstep_gadgets(ctx: &mut Ctx) -> R {
    begin(ctx);
    let mut p = Program::new();
    for _ in 0..ctx.range(1, 2) {
        let k = ctx.pick(gen::ALL.len());
        (gen::ALL[k].1)(ctx, &mut p, false);
    }
    lockstep_of(ctx, p)
}

// ---------------------------------------------------------------- C06

pub fn columns(ctx: &mut Ctx) -> R {
    begin(ctx);
    let mut p = Program::new();
    let mut sh = gen::shape(ctx);
    sh.ops = 0;
    let mut live = gen::arithmetic(ctx, &mut p, &sh, false);
    sh.ops = 1;
    let n = ctx.range(2, 14);
    let mut pr = Prover::new(p.max_nv);
    // copies: (tracker, columns known to it, program prefix it continues from)
    let mut reads: Vec<C> = vec![];
    if ctx.chance(1, 20) {
        tower(ctx, &mut p, &mut live);
    }
    for _ in 0..n {
        gen::op(ctx, &mut p, &mut live, &sh, true);
    }
    p.describe(ctx);
    while !pr.done(&p) {
        let i = pr.pos;
        if let Err(e) = pr.advance(&p) {
            return fail("operation-failed", format!("step {} ({}): {}", i, p.steps[i].name(), e));
        }
        ctx.count("steps.total");
        if pr.cols.is_empty() {
            continue;
        }
        match ctx.draw(6) {
            0 => {
                // read a column now and then
                let c = ctx.pick(pr.cols.len());
                ctx.count("column_reads");
                reads.push(c);
                let got = pr.cols[c].evaluations();
                if got != *p.v(c) {
                    return fail("values-differ", format!("after step {}: column {} reads {}, expected {}", i, c, show(&got), show(p.v(c))));
                }
            }
            1 => {
                // a copy goes its own way and leaves the original alone
                ctx.count("copies");
                copy_check(ctx, &p, &pr, i)?;
            }
            2 => {
                let c = ctx.pick(pr.cols.len());
                let r = ctx.pick(p.v(c).len());
                ctx.count("vertex_evaluations");
                if pr.cols[c].evaluate(&vertex(r, p.nv(c))) != Some(p.v(c)[r]) {
                    return fail("values-differ", format!("after step {}: column {} at row {}", i, c, r));
                }
            }
            3 => {
                let c = ctx.pick(pr.cols.len());
                if linear(&p, c) {
                    let pt = point(ctx, p.nv(c));
                    ctx.count("point_evaluations");
                    if pr.cols[c].evaluate(&pt) != Some(mle_eval(p.v(c), &pt)) {
                        return fail("evaluation-differs", format!("after step {}: column {} at {}", i, c, show(&pt)));
                    }
                }
            }
            _ => {}
        }
    }
    for (c, v) in pr.reads.iter() {
        if v != p.v(*c) {
            return fail("values-differ", format!("column {} was read back as {}, expected {}", c, show(v), show(p.v(*c))));
        }
    }
    ctx.nontrivial = p.steps.len() > 2;
    let mut order: Vec<C> = (0..pr.cols.len()).collect();
    ctx.shuffle(&mut order);
    for c in order {
        if pr.cols[c].num_vars() != p.nv(c) {
            return fail("size-differs", format!("column {} says {} variables, has {}", c, pr.cols[c].num_vars(), p.nv(c)));
        }
        if ctx.chance(1, 2) {
            let r = ctx.pick(p.v(c).len());
            ctx.count("vertex_evaluations");
            if pr.cols[c].evaluate(&vertex(r, p.nv(c))) != Some(p.v(c)[r]) {
                return fail("values-differ", format!("column {} at row {}", c, r));
            }
        }
        let avp = guard(|| pr.cols[c].to_arithmatic_virtual_poly());
        if let Ok(avp) = avp {
            let r = ctx.pick(p.v(c).len());
            match avp.evaluate(&vertex(r, p.nv(c))) {
                Ok(x) if x == p.v(c)[r] => {}
                _ => return fail("values-differ", format!("arithmetic form of column {} at row {}", c, r)),
            }
            ctx.count("arithmetic_forms");
        } else {
            return fail("operation-failed", format!("arithmetic form of column {}", c));
        }
        let id = pr.cols[c].id;
        if pr.t.clone_underlying_tracker().virtual_polys.contains_key(&id) {
            // the sum of products it stands for
            let r = ctx.pick(p.v(c).len());
            let x = guard(|| {
                let terms = pr.t.get_virt_poly(id);
                terms.iter().map(|(k, fs)| *k * fs.iter().map(|i| pr.t.get_mat_poly(*i).evaluations[r]).product::<F>()).sum::<F>()
            });
            if x.as_ref().ok() != Some(&p.v(c)[r]) {
                return fail("values-differ", format!("the terms of column {} at row {}: {:?}", c, r, x.map(|x| show1(&x))));
            }
            ctx.count("term_lists");
        }
        let got = pr.cols[c].evaluations();
        if guard(|| pr.t.get_mat_poly(id).evaluations.clone()).ok().as_ref() != Some(&got) {
            return fail("values-differ", format!("column {} is kept with other values than it reads", c));
        }
        ctx.mix(&ser(&got));
        if got != *p.v(c) {
            return fail("values-differ", format!("at the end: column {} reads {}, expected {}", c, show(&got), show(p.v(c))));
        }
    }
    Ok(())
}
/// column is a plain column or a linear combination of such
fn linear(p: &Program, c: C) -> bool {
    let i = (0..p.steps.len()).rev().find(|i| p.outs[*i] <= c && p.cols.len() > p.outs[*i] && !matches!(p.steps[*i], Step::Read(_) | Step::Challenge | Step::Say(_))).unwrap();
    let i = (0..=i).rev().find(|k| p.outs[*k] == c && !matches!(p.steps[*k], Step::Read(_) | Step::Challenge | Step::Say(_) | Step::Zero(_) | Step::Sum(..))).unwrap_or(i);
    match &p.steps[i] {
        Step::Commit(_) | Step::Public(_) | Step::Front(..) | Step::Back(..) => true,
        Step::Add(a, b) | Step::Sub(a, b) => linear(p, *a) && linear(p, *b),
        Step::AddS(a, _) | Step::MulS(a, _) => linear(p, *a),
        _ => false,
    }
}
fn copy_check(ctx: &mut Ctx, p: &Program, pr: &Prover, i: usize) -> R {
    let rc = if ctx.chance(1, 2) {
        Rc::new(RefCell::new(pr.t.clone_underlying_tracker()))
    } else {
        let mut t = pr.t.deep_copy();
        let x = t.track_mat_poly(mle(&[f(1), f(1)]));
        x.tracker
    };
    let mine: Vec<TPoly> = pr.cols.iter().map(|c| TPoly::new(c.id, c.num_vars, rc.clone())).collect();
    let (a, k) = (ctx.pick(mine.len()), any_f(ctx));
    let same: Vec<C> = (0..mine.len()).filter(|c| p.nv(*c) == p.nv(a)).collect();
    let b = same[ctx.pick(same.len())];
    let small = p.cols[a].terms * p.cols[b].terms <= 64;
    let (x, want): (TPoly, Vec<F>) = match ctx.draw(4) {
        0 if small => (mine[a].mul_poly(&mine[b]), p.v(a).iter().zip(p.v(b)).map(|(x, y)| *x * y).collect()),
        1 => (mine[a].add_scalar(k), p.v(a).iter().map(|x| *x + k).collect()),
        2 => (mine[a].sub_poly(&mine[b]), p.v(a).iter().zip(p.v(b)).map(|(x, y)| *x - y).collect()),
        _ => (mine[a].clone(), p.v(a).clone()),
    };
    let got = x.evaluations();
    if got != want {
        return fail("copy-differs", format!("after step {}: a copy of the session computes {}, expected {}", i, show(&got), show(&want)));
    }
    let c = ctx.pick(mine.len());
    let r = ctx.pick(p.v(c).len());
    if pr.cols[c].evaluate(&vertex(r, p.nv(c))) != Some(p.v(c)[r]) {
        return fail("copy-differs", format!("after step {}: work on a copy changed column {} of the original", i, c));
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

/// Run something under another schedule, worker count and hash seed, on a
/// thread of its own (as a fresh process would have its own hash seeds).
type Parts = Vec<(String, Vec<u8>)>;
fn elsewhere(policy: Policy, threads: usize, hash: u64, work: impl FnOnce() -> (Parts, String) + Send + 'static) -> (Result<(Parts, String), String>, rayon_core::sim::Stats) {
    let j = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        set_os_random(hash);
        rayon_core::sim::start(policy, threads);
        let r = guard(work);
        rayon_core::sim::drain();
        (r, rayon_core::sim::stats())
    });
    j.expect("spawn").join().expect("join")
}
fn whole_session(prog: &Program, nv: usize) -> (Parts, String) {
    let mut p = Prover::new(nv);
    if let Err((i, e)) = p.run(prog) {
        return (vec![], format!("prover step {}: {}", i, e));
    }
    let proof = match p.compile() {
        Ok(x) => x,
        Err(e) => return (vec![], format!("compilation: {}", e)),
    };
    let mut parts = proof_parts(&proof);
    for (c, vals) in &p.reads {
        parts.push((format!("read of column {}", c), ser(vals)));
    }
    for x in &p.challenges {
        parts.push(("challenge".into(), ser(x)));
    }
    let mut v = Verifier::new(nv, Source::Proof);
    v.receive(proof);
    let verdict = v.finish(prog).text();
    (parts, verdict)
}
/// Run the work on one worker in order, then under other schedules, worker
/// counts and hash seeds; all must come to the same bytes.
fn everywhere(ctx: &mut Ctx, variants: usize, steps: u64, work: impl Fn() -> (Parts, String) + Clone + Send + 'static) -> Result<Parts, Violation> {
    let (base, st) = elsewhere(Policy::InOrder, 1, 1, work.clone());
    ctx.absorb(st);
    let base = base.map_err(|e| fail::<()>("run-failed", e).unwrap_err())?;
    for (n, b) in &base.0 {
        ctx.mix(n.as_bytes());
        ctx.mix(b);
    }
    for k in 0..variants {
        let (policy, threads) = match ctx.draw(4) {
            0 => (Policy::Reversed, 4),
            _ => (Policy::Random(ctx.seed64()), [2usize, 3, 4, 5, 6, 7, 8, 12, 16][ctx.pick(9)]),
        };
        let hash = ctx.seed64();
        ctx.say(format!("variant {}: {:?}, {} workers, hash seed {}", k, policy, threads, hash));
        ctx.fault("schedule_change");
        ctx.fault("hash_seed_change");
        let (got, st) = elsewhere(policy, threads, hash, work.clone());
        ctx.absorb(st);
        ctx.add("steps.total", steps);
        let got = got.map_err(|e| fail::<()>("run-failed", e).unwrap_err())?;
        if got.1 != base.1 {
            return fail("verdict-varies", format!("{} and {}", base.1, got.1));
        }
        for (x, y) in base.0.iter().zip(&got.0) {
            if x != y {
                return fail("proof-varies", format!("{} differs between two runs on the same inputs", x.0));
            }
        }
        if base.0.len() != got.0.len() {
            return fail("proof-varies", "the proofs have different shapes");
        }
    }
    Ok(base.0)
}
pub fn same_everywhere(ctx: &mut Ctx) -> R {
    begin(ctx);
    let lie = ctx.chance(1, 6);
    let mut p = Program::new();
    match ctx.draw(16) {
        0..=4 => p = gen::tracker_program(ctx, lie),
        5 => gen::long(ctx, &mut p, lie),
        6..=10 => {
            let k = ctx.pick(gen::ALL.len());
            (gen::ALL[k].1)(ctx, &mut p, lie);
        }
        _ => {
            // larger columns so that the parallel work splits
            let nv = ctx.range(5, 8);
            let n = ctx.range(1, 3);
            let mut cs = vec![];
            for _ in 0..n {
                let mut g = Prng::new(ctx.seed64());
                cs.push(p.commit((0..1 << nv).map(|_| f(g.next())).collect()));
            }
            let mut m = cs[0];
            for c in &cs[1..] {
                m = p.push(Step::Mul(m, *c));
            }
            let d = p.commit(p.v(m).clone());
            let z = p.push(Step::Sub(m, d));
            p.push(Step::Zero(z));
            let s = p.v(m).iter().sum();
            p.push(Step::Sum(m, s, false));
        }
    }
    let nv = gen::srs_size(ctx, &p);
    if p.cols.iter().map(|c| c.vals.len()).sum::<usize>() < 400 {
        note(ctx, &p, nv);
    } else {
        ctx.say(format!("large program, {} steps", p.steps.len()));
    }
    let steps = 2 * p.steps.len() as u64;
    let q = p.clone();
    let base = everywhere(ctx, 2, steps, move || whole_session(&q, nv))?;
    ctx.nontrivial = !base.is_empty();
    Ok(())
}
/// The parallel functions on their own, over columns tall enough to be split,
/// against one worker and against their definition.
pub fn functions_everywhere(ctx: &mut Ctx) -> R {
    begin(ctx);
    ctx.nontrivial = true;
    let w = crate::p_crypto::Work::draw(ctx);
    let expected = w.expected();
    let base = everywhere(ctx, 3, 8, {
        let w = w.clone();
        move || w.run()
    })?;
    for (name, want) in &expected {
        if let Some((_, got)) = base.iter().find(|(n, _)| n == name) {
            if got != want {
                return fail("differs-from-definition", format!("{} is not what its definition gives", name));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

struct Alone {
    proof: Option<Vec<u8>>,
    verdict: String,
}
fn alone(prog: &Program, nv: usize) -> Alone {
    alone_under(prog, &params(nv).prover, &params(nv).verifier)
}
fn alone_under(prog: &Program, pk: &MultilinearProverParam<E>, vk: &MultilinearVerifierParam<E>) -> Alone {
    let mut p = Prover::with(pk.clone());
    if let Err((i, e)) = p.run(prog) {
        return Alone { proof: None, verdict: format!("prover step {}: {}", i, e) };
    }
    match p.compile() {
        Err(e) => Alone { proof: None, verdict: format!("compilation: {}", e) },
        Ok(x) => {
            let b = proof_bytes(&x);
            let mut v = Verifier::with(vk.clone(), Source::Proof);
            v.receive(x);
            Alone { proof: Some(b), verdict: v.finish(prog).text() }
        }
    }
}
pub fn interleaved(ctx: &mut Ctx) -> R {
    begin(ctx);
    let n = ctx.range(2, 4);
    let mut progs: Vec<Program> = vec![];
    for _ in 0..n {
        let lie = ctx.chance(1, 4);
        let mut p = Program::new();
        if ctx.chance(1, 4) && !progs.is_empty() {
            p = progs[progs.len() - 1].clone(); // the same session twice
        } else if ctx.chance(1, 2) {
            p = gen::tracker_program(ctx, lie);
        } else {
            let k = ctx.pick(gen::ALL.len());
            (gen::ALL[k].1)(ctx, &mut p, lie);
        }
        progs.push(p);
    }
    let nvs: Vec<usize> = progs.iter().map(|p| gen::srs_size(ctx, p)).collect();
    for (p, nv) in progs.iter().zip(&nvs) {
        note(ctx, p, *nv);
    }
    // sessions may run under parameters of their own
    let mut keys = vec![];
    for nv in &nvs {
        keys.push(if *nv <= 5 && ctx.chance(1, 4) {
            ctx.probe("own_parameters");
            let u = P::gen_srs_for_testing(&mut Prng::new(ctx.seed64()), *nv).expect("srs");
            P::trim(&u, None, Some(*nv)).expect("trim")
        } else {
            (params(*nv).prover.clone(), params(*nv).verifier.clone())
        });
    }
    let lone: Vec<Alone> = progs.iter().zip(&keys).map(|(p, k)| alone_under(p, &k.0, &k.1)).collect();
    // phases per session: 0 proving, 1 verifying, 2 done
    let mut provers: Vec<Prover> = keys.iter().map(|k| Prover::with(k.0.clone())).collect();
    let mut verifiers: Vec<Verifier> = keys.iter().map(|k| Verifier::with(k.1.clone(), Source::Proof)).collect();
    let mut phase = vec![0; n];
    let mut proofs: Vec<Option<Vec<u8>>> = vec![None; n];
    let mut verdicts: Vec<String> = vec![String::new(); n];
    let mut turn = 0u64;
    while phase.iter().any(|x| *x < 2) {
        let open: Vec<usize> = (0..n).filter(|i| phase[*i] < 2).collect();
        let i = open[ctx.pick(open.len())];
        turn += 1;
        if phase[i] == 0 {
            if !provers[i].done(&progs[i]) {
                let s = provers[i].pos;
                if let Err(e) = provers[i].advance(&progs[i]) {
                    verdicts[i] = format!("prover step {}: {}", s, e);
                    phase[i] = 2;
                }
            } else {
                match provers[i].compile() {
                    Ok(x) => {
                        proofs[i] = Some(proof_bytes(&x));
                        if ctx.chance(1, 6) {
                            verifiers[i].receive(worn(ctx, &x));
                            ctx.fault("other_proof_received_first");
                        }
                        verifiers[i].receive(x);
                        phase[i] = 1;
                    }
                    Err(e) => {
                        verdicts[i] = format!("compilation: {}", e);
                        phase[i] = 2;
                    }
                }
            }
        } else if !verifiers[i].done(&progs[i]) {
            let s = verifiers[i].pos;
            if let Err(e) = verifiers[i].advance(&progs[i]) {
                verdicts[i] = Verdict::refused(&format!("verifier step {} ({})", s, progs[i].steps[s].name()), &e).text();
                phase[i] = 2;
            }
        } else {
            verdicts[i] = verifiers[i].decide().text();
            phase[i] = 2;
        }
    }
    ctx.add("steps.interleaved", turn);
    ctx.nontrivial = true;
    for i in 0..n {
        ctx.mix(verdicts[i].as_bytes());
        if proofs[i] != lone[i].proof {
            return fail("session-influenced", format!("session {} produced another proof than alone", i));
        }
        if verdicts[i] != lone[i].verdict {
            return fail("session-influenced", format!("session {}: {} instead of {}", i, verdicts[i], lone[i].verdict));
        }
    }
    // what ran before leaves nothing behind in the process
    let accepted = Verdict::Accepted.text();
    for i in 0..n {
        match progs[i].truth() {
            Truth::True if verdicts[i] != accepted => {
                return fail("true-session-refused", format!("session {} is true, yet: {}", i, verdicts[i]));
            }
            _ => {}
        }
    }
    let i = ctx.pick(n);
    let again = alone_under(&progs[i], &keys[i].0, &keys[i].1);
    if again.proof != lone[i].proof || again.verdict != lone[i].verdict {
        return fail("earlier-sessions-influence", format!("session {} run again alone differs from its first run", i));
    }
    Ok(())
}
/// A prover copy made in mid-session continues like the session it was copied from.
pub fn prover_copies(ctx: &mut Ctx) -> R {
    begin(ctx);
    let mut p = Program::new();
    if ctx.chance(1, 2) {
        let k = ctx.pick(gen::ALL.len());
        (gen::ALL[k].1)(ctx, &mut p, false);
    } else {
        p = gen::tracker_program(ctx, false);
    }
    let nv = gen::srs_size(ctx, &p);
    note(ctx, &p, nv);
    let cut = ctx.range(1, p.steps.len());
    let lone = alone(&p, nv);
    let mut a = Prover::new(nv);
    for i in 0..cut {
        if let Err(e) = a.advance(&p) {
            return if lone.proof.is_none() { Ok(()) } else { fail("session-influenced", format!("step {}: {}", i, e)) };
        }
    }
    ctx.say(format!("copy made before step {}", cut));
    ctx.fault("session_copy");
    let mut b = copy_prover(&p, &a);
    // the two continue in interleaved order, one of them on another course
    let detour = ctx.chance(1, 2);
    let mut proofs: [Option<Vec<u8>>; 2] = [None, None];
    let mut failed = [false, false];
    for _ in 0..2 * (p.steps.len() + 2) {
        let k = ctx.pick(2);
        let s = if k == 0 { &mut a } else { &mut b };
        if failed[k] || proofs[k].is_some() {
            continue;
        }
        if detour && k == 1 && ctx.chance(1, 3) && !s.cols.is_empty() {
            let x = s.cols[ctx.pick(s.cols.len())].clone();
            let _ = guard(|| x.add_scalar(f(5)).evaluations());
            let _ = s.t.get_and_append_challenge(b"detour");
            continue;
        }
        if s.done(&p) {
            match s.compile() {
                Ok(x) => proofs[k] = Some(proof_bytes(&x)),
                Err(_) => failed[k] = true,
            }
        } else if s.advance(&p).is_err() {
            failed[k] = true;
        }
    }
    for (k, s) in [(0, &mut a), (1, &mut b)] {
        while !failed[k] && proofs[k].is_none() {
            if s.done(&p) {
                match s.compile() {
                    Ok(x) => proofs[k] = Some(proof_bytes(&x)),
                    Err(_) => failed[k] = true,
                }
            } else if s.advance(&p).is_err() {
                failed[k] = true;
            }
        }
        if (k == 0 || !detour) && proofs[k] != lone.proof {
            return fail("copy-influenced", format!("{} produced another proof than alone", ["the original", "the copy"][k]));
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
/// A verifier copy decides like its original, whatever the original does meanwhile.
pub fn verifier_copies(ctx: &mut Ctx) -> R {
    begin(ctx);
    let mut p = Program::new();
    let lie = ctx.chance(1, 4);
    if ctx.chance(1, 2) {
        let k = ctx.pick(gen::ALL.len());
        (gen::ALL[k].1)(ctx, &mut p, lie);
    } else {
        p = gen::tracker_program(ctx, lie);
    }
    let nv = gen::srs_size(ctx, &p);
    note(ctx, &p, nv);
    let lone = alone(&p, nv);
    let mut pr = Prover::new(nv);
    if pr.run(&p).is_err() {
        return Ok(());
    }
    let Ok(proof) = pr.compile() else { return Ok(()) };
    let mut a = Verifier::new(nv, Source::Proof);
    a.receive(proof);
    let cut = ctx.range(1, p.steps.len());
    for _ in 0..cut {
        if a.advance(&p).is_err() {
            return Ok(());
        }
    }
    ctx.fault("session_copy");
    ctx.say(format!("verifier copied before step {}", cut));
    let mut b = copy_verifier(&p, &a);
    let first = ctx.pick(2);
    let verdicts = if first == 0 {
        let x = a.finish(&p).text();
        (x, b.finish(&p).text())
    } else {
        let y = b.finish(&p).text();
        (a.finish(&p).text(), y)
    };
    ctx.nontrivial = true;
    for (who, v) in [("the original", &verdicts.0), ("the copy", &verdicts.1)] {
        if *v != lone.verdict {
            return fail("copy-influenced", format!("{}: {} instead of {}", who, v, lone.verdict));
        }
    }
    Ok(())
}
/// A copy of a prover's session. When the next step makes a column (whose handle
/// names the session it belongs to) the copy is taken by `deep_copy`.
fn copy_prover(p: &Program, a: &Prover) -> Prover {
    let rest = |t: PRef, cols: Vec<TPoly>| Prover { t, cols, pos: a.pos, challenges: a.challenges.clone(), reads: a.reads.clone() };
    if a.pos < p.steps.len() && matches!(p.steps[a.pos], Step::Commit(_) | Step::Public(_)) {
        let mut b = rest(a.t.deep_copy(), vec![]);
        if b.advance(p).is_ok() {
            let new = b.cols.pop().expect("a column");
            b.cols = a.cols.iter().map(|c| TPoly::new(c.id, c.num_vars, new.tracker.clone())).collect();
            b.cols.push(new);
            return b;
        }
    }
    let rc = Rc::new(RefCell::new(a.t.clone_underlying_tracker()));
    rest(PRef::new(rc.clone()), a.cols.iter().map(|c| TPoly::new(c.id, c.num_vars, rc.clone())).collect())
}
fn copy_verifier(p: &Program, a: &Verifier) -> Verifier {
    if a.pos < p.steps.len() && matches!(p.steps[a.pos], Step::Commit(_) | Step::Public(_)) {
        let mut b = Verifier::with(params(1).verifier.clone(), a.source.clone());
        b.t = a.t.deep_copy();
        b.pos = a.pos;
        b.challenges = a.challenges.clone();
        b.set_commits(a.commits());
        if b.advance(p).is_ok() {
            let (new, _) = b.cols.pop().expect("a column");
            b.cols = a.cols.iter().map(|(c, n)| (TComm::new(c.id, new.tracker.clone()), *n)).collect();
            b.cols.push((new, p.nv(a.cols.len())));
            return b;
        }
    }
    let rc = Rc::new(RefCell::new(a.t.clone_underlying_tracker()));
    let mut b = Verifier::with(params(1).verifier.clone(), a.source.clone());
    b.t = VRef::new(rc.clone());
    b.cols = a.cols.iter().map(|(c, n)| (TComm::new(c.id, rc.clone()), *n)).collect();
    b.pos = a.pos;
    b.challenges = a.challenges.clone();
    b.set_commits(a.commits());
    b
}
/// What a verifier derives after being copied must not leak into the copy.
pub fn verifier_copy_formulas(ctx: &mut Ctx) -> R {
    begin(ctx);
    let nv = ctx.range(1, 3);
    let pub1: Vec<F> = (0..1 << nv).map(|_| any_f(ctx)).collect();
    let mut p = Program::new();
    let c = p.public(pub1.clone());
    let mut a = Verifier::new(nv, Source::Proof);
    if a.run(&p).is_err() {
        return Ok(());
    }
    let b = copy_verifier(&p, &a);
    let (k1, k2) = (f(2), f(3));
    ctx.fault("session_copy");
    ctx.say("a verifier holding one public column is copied; the original derives 2*c, the copy 3*c");
    let x = a.cols[c].0.mul_scalar(k1);
    let y = b.cols[c].0.mul_scalar(k2);
    let r = ctx.pick(1 << nv);
    let pt = vertex(r, nv);
    ctx.nontrivial = true;
    let gx = guard(|| x.eval_virtual_comm(&pt).ok()).ok().flatten();
    let gy = guard(|| y.eval_virtual_comm(&pt).ok()).ok().flatten();
    if gx != Some(k1 * pub1[r]) || gy != Some(k2 * pub1[r]) {
        return fail("copied-verifier-formulas-shared", format!("at row {}: original {:?}, copy {:?}", r, gx.map(|v| show1(&v)), gy.map(|v| show1(&v))));
    }
    Ok(())
}
