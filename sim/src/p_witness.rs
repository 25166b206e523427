//! Provers that make up their witnesses: the columns a gadget itself commits
//! to (inverses, multiplicities, shifted or folded columns, result tables) are
//! replaced on their way into the tracker, everything else runs as shipped.
//! What is claimed stays what it was, so a false program must still be
//! refused, and an accepted table result must still be the right one.

use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;

use ark_ff::{Field, Zero};
use zk_sql::sim_hooks as h;

use crate::core::*;
use crate::gen;
use crate::session::*;
use crate::world::*;

#[derive(Clone, Debug)]
pub enum Alter {
    /// add to one row
    Row(usize, F),
    /// add an error column
    Error(Vec<F>),
    /// the values of an earlier commitment of the same size
    Copy(usize),
    Const(F),
    AddConst(F),
    Swap(usize, usize),
    Rotate(usize),
    Negate,
    /// another column altogether
    Whole(Vec<F>),
}
impl Alter {
    fn apply(&self, v: &mut Vec<F>, earlier: &[Vec<F>]) {
        let n = v.len();
        match self {
            Alter::Row(r, d) => v[r % n] += d,
            Alter::Error(e) if e.len() == n => v.iter_mut().zip(e).for_each(|(x, y)| *x += y),
            Alter::Copy(j) if earlier.get(*j).map(|c| c.len()) == Some(n) => *v = earlier[*j].clone(),
            Alter::Const(c) => *v = vec![*c; n],
            Alter::AddConst(c) => v.iter_mut().for_each(|x| *x += c),
            Alter::Swap(a, b) => v.swap(a % n, b % n),
            Alter::Rotate(k) => v.rotate_left(k % n),
            Alter::Whole(w) if w.len() == n => *v = w.clone(),
            Alter::Negate => v.iter_mut().for_each(|x| *x = -*x),
            _ => {}
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Alter::Row(..) => "witness_row_altered",
            Alter::Error(_) => "witness_error_added",
            Alter::Copy(_) => "witness_copied",
            Alter::Const(_) => "witness_constant",
            Alter::AddConst(_) => "witness_shifted",
            Alter::Swap(..) => "witness_rows_swapped",
            Alter::Rotate(_) => "witness_rotated",
            Alter::Negate => "witness_negated",
            Alter::Whole(_) => "witness_rewritten",
        }
    }
}
type Plan = Vec<(usize, Alter)>;

struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        h::set_fabricator(None);
    }
}

struct Outcome {
    verdict: Verdict,
    prover: Option<Prover>,
    /// every column committed, in order, as committed
    columns: Vec<Vec<F>>,
    /// which of them a gadget committed
    own: Vec<usize>,
    /// the true sums behind the prover's sum claims, in order
    sums: Vec<F>,
    /// sum claims and commitments the verifier had seen when it stopped
    seen: (usize, usize),
}

fn run(prog: &Program, nv: usize, plan: &Plan) -> Outcome {
    let _g = Guard;
    let columns: Rc<RefCell<Vec<Vec<F>>>> = Default::default();
    let (c2, p2) = (columns.clone(), plan.clone());
    h::set_fabricator(Some(Box::new(move |x: &mut dyn Any| {
        let Some(m) = x.downcast_mut::<Mle>() else { return };
        let mut cs = c2.borrow_mut();
        let k = cs.len();
        for (i, a) in &p2 {
            if *i == k {
                a.apply(&mut m.evaluations, &cs);
            }
        }
        cs.push(m.evaluations.clone());
    })));
    let mut pr = Prover::new(nv);
    let mut own = vec![];
    let mut out = Outcome { verdict: Verdict::Accepted, prover: None, columns: vec![], own: vec![], sums: vec![], seen: (0, 0) };
    while !pr.done(prog) {
        let i = pr.pos;
        let before = columns.borrow().len();
        let r = pr.advance(prog);
        if prog.steps[i].is_gadget() {
            own.extend(before..columns.borrow().len());
        }
        if let Err(e) = r {
            out.verdict = Verdict::refused(&format!("prover step {} ({})", i, prog.steps[i].name()), &e);
            out.own = own;
            out.columns = columns.borrow().clone();
            return out;
        }
    }
    out.own = own;
    out.columns = columns.borrow().clone();
    let mut t = pr.t.clone_underlying_tracker();
    for c in t.sum_check_claims.clone() {
        out.sums.push(t.evaluations(c.label).iter().sum());
    }
    let proof = match pr.compile() {
        Ok(p) => p,
        Err(e) => {
            out.verdict = Verdict::refused("prover compilation", &e);
            return out;
        }
    };
    let mut ve = Verifier::new(nv, Source::Proof);
    ve.receive(proof);
    out.verdict = ve.finish(prog);
    let t = ve.t.clone_underlying_tracker();
    out.seen = (t.sum_check_claims.len(), t.materialized_comms.len());
    out.prover = Some(pr);
    out
}

/// One made-up column put in step with another: two that a gadget commits to
/// one after the other made the same, or its first one made to follow an input.
fn in_step(ctx: &mut Ctx, o: &Outcome) -> Option<(usize, Alter)> {
    let same = |a: usize, b: usize| o.columns[a].len() == o.columns[b].len();
    if ctx.chance(1, 2) {
        let ks: Vec<usize> = o.own.iter().copied().filter(|k| o.own.contains(&(k + 1)) && same(*k, k + 1)).collect();
        if ks.is_empty() {
            return None;
        }
        let k = if ctx.chance(1, 2) { ks[0] } else { ks[ctx.pick(ks.len())] };
        return Some(if ctx.chance(1, 2) { (k, Alter::Whole(o.columns[k + 1].clone())) } else { (k + 1, Alter::Copy(k)) });
    }
    let k = o.own[0];
    let js: Vec<usize> = (0..k).filter(|j| !o.own.contains(j) && same(*j, k)).collect();
    if js.is_empty() {
        return None;
    }
    let d = f(ctx.draw(4));
    let v = &o.columns[js[ctx.pick(js.len())]];
    Some((k, Alter::Whole(v.iter().map(|x| *x + d).collect())))
}

fn any_alter(ctx: &mut Ctx, base: &Outcome) -> Option<(usize, Alter)> {
    let k = base.own[ctx.pick(base.own.len())];
    let v = &base.columns[k];
    let n = v.len();
    Some((
        k,
        match ctx.draw(9) {
            0 | 1 => Alter::Row(ctx.pick(n), nonzero_f(ctx)),
            2 => Alter::Error(gen::error(ctx, n.trailing_zeros() as usize)),
            3 | 4 => {
                let same: Vec<usize> = (0..base.columns.len()).filter(|j| *j != k && base.columns[*j].len() == n).collect();
                if same.is_empty() {
                    return None;
                }
                // the nearest ones more often
                let near: Vec<usize> = same.iter().copied().filter(|j| j.abs_diff(k) <= 2).collect();
                let from = if ctx.chance(1, 2) && !near.is_empty() { &near } else { &same };
                let j = from[from.len() - 1 - ctx.pick(from.len())];
                match ctx.draw(3) {
                    // itself, moved by a little: a column that keeps in step with it
                    0 => {
                        let d = f(ctx.draw(3) + 1);
                        Alter::Whole(base.columns[j].iter().map(|x| d + x).collect())
                    }
                    _ if j < k => Alter::Copy(j),
                    _ => Alter::Whole(base.columns[j].clone()),
                }
            }
            5 => Alter::Const(any_f(ctx)),
            6 => Alter::AddConst(nonzero_f(ctx)),
            7 => {
                if n < 2 {
                    return None;
                }
                let a = ctx.pick(n);
                Alter::Swap(a, (a + 1 + ctx.pick(n - 1)) % n)
            }
            _ if n > 1 => Alter::Rotate(ctx.range(1, n - 1)),
            _ => Alter::Negate,
        },
    ))
}

/// Rewrite two columns committed one after the other, read as values and
/// weights, so that every value keeps its total weight.
fn reweigh(ctx: &mut Ctx, o: &Outcome) -> Option<Vec<(usize, Alter)>> {
    let ks: Vec<usize> = o.own.iter().copied().filter(|k| o.own.contains(&(k + 1)) && o.columns[*k].len() == o.columns[k + 1].len()).collect();
    if ks.is_empty() {
        return None;
    }
    let k = if ctx.chance(1, 2) { ks[0] } else { ks[ctx.pick(ks.len())] };
    let (mut v, mut w) = (o.columns[k].clone(), o.columns[k + 1].clone());
    let n = v.len();
    // rows whose value stands in another weighted row too
    let twice: Vec<usize> = (0..n).filter(|i| !w[*i].is_zero() && (0..n).any(|j| j != *i && v[j] == v[*i] && !w[j].is_zero())).collect();
    match ctx.draw(4) {
        _ if !twice.is_empty() && ctx.chance(3, 4) => {
            // all the weight of a repeated value in one of its rows, the others free
            let x = v[twice[ctx.pick(twice.len())]];
            let rows: Vec<usize> = (0..n).filter(|i| v[*i] == x && !w[*i].is_zero()).collect();
            let keep = rows[ctx.pick(rows.len())];
            let sum: F = rows.iter().map(|i| w[*i]).sum();
            let free: Vec<usize> = rows.into_iter().filter(|i| *i != keep).collect();
            w[keep] = sum;
            for i in free {
                w[i] = F::zero();
                // in order: a copy of the first row goes to the front
                let first = v[0];
                v.remove(i);
                w.remove(i);
                v.insert(0, first);
                w.insert(0, F::zero());
            }
        }
        0 => {
            // split a weight between two rows of the same value
            let (i, j) = (ctx.pick(n), ctx.pick(n));
            if i == j || w[i].is_zero() || !w[j].is_zero() {
                return None;
            }
            let part = any_f(ctx);
            v[j] = v[i];
            w[j] = part;
            w[i] -= part;
        }
        1 => {
            // weights that cancel
            let free: Vec<usize> = (0..n).filter(|i| w[*i].is_zero()).collect();
            if free.len() < 2 {
                return None;
            }
            let (i, j) = (free[0], free[1]);
            let (x, d) = (v[ctx.pick(n)], nonzero_f(ctx));
            (v[i], v[j], w[i], w[j]) = (x, x, d, -d);
        }
        _ => {
            // the same rows in another order
            let (i, j) = (ctx.pick(n), ctx.pick(n));
            v.swap(i, j);
            w.swap(i, j);
        }
    }
    Some(vec![(k, Alter::Whole(v)), (k + 1, Alter::Whole(w))])
}

/// An alteration that makes the sums the verifier compared agree.
fn repair(ctx: &mut Ctx, prog: &Program, nv: usize, plan: &Plan, o: &Outcome) -> Option<(usize, Alter)> {
    let Verdict::Refused { at, .. } = &o.verdict else { return None };
    if !at.starts_with("verifier step") {
        return None;
    }
    let (claims, comms) = o.seen;
    let w = [2usize, 2, 3, 4][ctx.pick(4)];
    if claims < w || claims > o.sums.len() || comms < w {
        return None;
    }
    // left sums minus right sums
    let split = match w {
        2 => 1,
        _ => ctx.range(1, w - 1),
    };
    let gap = |s: &[F]| -> F { s[claims - w..claims - w + split].iter().sum::<F>() - s[claims - w + split..claims].iter().sum::<F>() };
    let d0 = gap(&o.sums);
    let k = comms - 1 - ctx.pick(w);
    if d0.is_zero() || !o.own.contains(&k) || k >= o.columns.len() {
        return None;
    }
    let n = o.columns[k].len();
    for _ in 0..3 {
        let r = ctx.pick(n);
        let mut p = plan.clone();
        p.push((k, Alter::Row(r, f(1))));
        let o1 = run(prog, nv, &p);
        if o1.sums.len() < claims {
            return None;
        }
        let slope = gap(&o1.sums) - d0;
        if !slope.is_zero() {
            return Some((k, Alter::Row(r, -d0 * slope.inverse().unwrap())));
        }
    }
    None
}

pub fn fabricated(ctx: &mut Ctx, make: impl FnOnce(&mut Ctx, &mut Program)) -> R {
    begin(ctx);
    let mut p = Program::new();
    make(ctx, &mut p);
    let nv = gen::srs_size(ctx, &p);
    p.describe(ctx);
    let truth = p.truth();
    if truth == Truth::Grey {
        return Ok(());
    }
    let mut plan: Plan = vec![];
    let mut o = run(&p, nv, &plan);
    ctx.add("steps.total", 2 * p.steps.len() as u64);
    let big = p.steps.iter().any(|x| matches!(x, Step::JoinRed(..) | Step::GroupBy { .. }));
    // small sessions are cheap: more alterations for them
    let cells: usize = o.columns.iter().map(|c| c.len()).sum();
    for round in 0..if big { 2 } else if cells <= 48 { 12 } else { 5 } {
        ctx.mix(o.verdict.text().as_bytes());
        ctx.say(format!("{:?}: {}", plan.iter().map(|x| (x.0, x.1.name())).collect::<Vec<_>>(), o.verdict.text()));
        if o.verdict.accepted() {
            if !plan.is_empty() || truth == Truth::False {
                ctx.nontrivial = true;
            }
            if truth == Truth::False {
                ctx.say(format!("{:?}", plan));
                return fail("fabricated-witness-accepted", format!("a false claim was accepted with witnesses altered: {:?}", plan.iter().map(|x| (x.0, x.1.name())).collect::<Vec<_>>()));
            }
            if let Some(pr) = &o.prover {
                results(ctx, &p, pr)?;
            }
            ctx.count("outcome.altered_witness_immaterial");
        }
        if o.own.is_empty() {
            ctx.count("outcome.no_witness");
            return Ok(());
        }
        if ctx.chance(1, 4) {
            if let Some(ps) = reweigh(ctx, &o) {
                ctx.fault("witness_reweighed");
                ctx.say(format!("fault: {:?}", ps));
                ctx.nontrivial = true;
                plan = ps;
                o = run(&p, nv, &plan);
                ctx.add("steps.total", 2 * p.steps.len() as u64);
                continue;
            }
        }
        // mend what the verifier noticed, or alter something else
        let a = match repair(ctx, &p, nv, &plan, &o) {
            Some(a) if ctx.chance(7, 8) => {
                ctx.fault("witness_solved_for_equal_sums");
                Some(a)
            }
            _ => {
                if round > 0 && ctx.chance(1, 2) {
                    plan.clear();
                }
                match if ctx.chance(1, 4) { in_step(ctx, &o) } else { None } {
                    Some(a) => {
                        ctx.fault("witness_put_in_step");
                        Some(a)
                    }
                    None => any_alter(ctx, &o),
                }
            }
        };
        let Some(a) = a else { continue };
        ctx.fault(a.1.name());
        ctx.say(format!("fault: commitment {} {:?}", a.0, a.1));
        ctx.nontrivial = true;
        plan.push(a);
        o = run(&p, nv, &plan);
        ctx.add("steps.total", 2 * p.steps.len() as u64);
    }
    let text = o.verdict.text();
    ctx.mix(text.as_bytes());
    if o.verdict.accepted() {
        if truth == Truth::False {
            ctx.say(format!("{:?}", plan));
            return fail("fabricated-witness-accepted", format!("a false claim was accepted with witnesses altered: {:?}", plan.iter().map(|x| (x.0, x.1.name())).collect::<Vec<_>>()));
        }
        if let Some(pr) = &o.prover {
            results(ctx, &p, pr)?;
        }
    }
    Ok(())
}

/// The witnesses of a true session, used for one whose data differ.
pub fn transplanted(ctx: &mut Ctx, make: impl FnOnce(&mut Ctx, &mut Program)) -> R {
    begin(ctx);
    let mut p = Program::new();
    make(ctx, &mut p);
    let nv = gen::srs_size(ctx, &p);
    p.describe(ctx);
    if p.truth() != Truth::True {
        return Ok(());
    }
    let donor = run(&p, nv, &vec![]);
    ctx.add("steps.total", 2 * p.steps.len() as u64);
    if !donor.verdict.accepted() {
        return fail("true-program-refused", donor.verdict.text());
    }
    if donor.own.is_empty() {
        return Ok(());
    }
    let editable: Vec<C> = p.outs.iter().zip(&p.steps).filter(|(_, s)| matches!(s, Step::Commit(_))).map(|x| *x.0).collect();
    let mut runs = 0;
    for _ in 0..40 {
        if runs == 4 {
            break;
        }
        let mut edits: std::collections::BTreeMap<C, Vec<F>> = Default::default();
        for _ in 0..[1, 1, 2][ctx.pick(3)] {
            let c = editable[ctx.pick(editable.len())];
            let mut v = edits.get(&c).unwrap_or(p.v(c)).clone();
            let r = ctx.pick(v.len());
            let binary = v.iter().all(|x| x.is_zero() || *x == f(1));
            v[r] = match ctx.draw(4) {
                _ if binary && !ctx.chance(1, 8) => f(1) - v[r],
                0 => any_f(ctx),
                1 => v[r] + f(1),
                _ => v[ctx.pick(v.len())],
            };
            edits.insert(c, v);
        }
        let q = crate::p_predict::rebuild(&p, &edits);
        if q.truth() != Truth::False {
            continue;
        }
        runs += 1;
        // a beginning of them, one run of them, or some; the rest is computed from what is there
        let n = donor.own.len();
        let taken: Vec<usize> = match ctx.draw(4) {
            0 => donor.own.clone(),
            1 => donor.own[..ctx.range(1, n.min(4))].to_vec(),
            2 => {
                let a = ctx.pick(n);
                donor.own[a..(a + ctx.range(1, 4)).min(n)].to_vec()
            }
            _ => donor.own.iter().copied().filter(|_| ctx.chance(1, 2)).collect(),
        };
        let plan: Plan = taken.iter().map(|k| (*k, Alter::Whole(donor.columns[*k].clone()))).collect();
        ctx.fault("witness_transplanted");
        ctx.nontrivial = true;
        ctx.say(format!("fault: columns {:?} altered, witnesses {:?} taken from the true session", edits.iter().collect::<Vec<_>>(), taken));
        let mut o = run(&q, nv, &plan);
        ctx.add("steps.total", 2 * q.steps.len() as u64);
        if !o.verdict.accepted() && ctx.chance(1, 3) {
            if let Some(a) = repair(ctx, &q, nv, &plan, &o) {
                ctx.fault("witness_solved_for_equal_sums");
                let mut plan = plan.clone();
                plan.push(a);
                o = run(&q, nv, &plan);
            }
        }
        ctx.mix(o.verdict.text().as_bytes());
        if o.verdict.accepted() {
            q.describe(ctx);
            return fail("fabricated-witness-accepted", format!("a false claim was accepted with the witnesses {:?} of a true session", taken));
        }
    }
    Ok(())
}

macro_rules! one_of {
    ($name:ident: $($g:ident),*) => {
        pub fn $name(ctx: &mut Ctx) -> R {
            const GS: &[gen::Gen] = &[$(gen::$g),*];
            if ctx.chance(1, 3) {
                return transplanted(ctx, |ctx, p| {
                    let k = ctx.pick(GS.len());
                    GS[k](ctx, p, false)
                });
            }
            fabricated(ctx, |ctx, p| {
                let k = ctx.pick(GS.len());
                let lie = ctx.chance(7, 8);
                GS[k](ctx, p, lie)
            })
        }
    };
}
one_of!(any_gadget: bag_eq, bag_sum, multi, incl, no_zeros, perm, sort, supp, bag_disjoint, set_disjoint, union, diff, inter, index, final_join, join_red, group_by);
one_of!(bags: bag_eq, bag_sum, multi);
one_of!(incl: incl);
one_of!(order: no_zeros, perm, sort, supp);
one_of!(sets: bag_disjoint, set_disjoint, union, diff, inter);
one_of!(tables: index, final_join);
one_of!(join_red: join_red);
one_of!(group_by: group_by);
