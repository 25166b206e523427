//! Provers that predict: the challenges of one honest session are taken down,
//! and the columns of the next are chosen so that it would pass if the same
//! challenges came again. What it claims is then false, so it must be refused,
//! unless a challenge does not depend on what it is meant to test.

use std::collections::BTreeMap;

use ark_ff::{Field, One, PrimeField, Zero};
use ark_serialize::CanonicalDeserialize;
use merlin::sim as tlog;
use merlin::sim::Event;

use crate::core::*;
use crate::gen;
use crate::session::*;
use crate::world::*;

/// The scalars drawn under each label, in order.
pub fn scalars(log: &[Event]) -> BTreeMap<&'static [u8], Vec<F>> {
    let mut out: BTreeMap<&'static [u8], Vec<F>> = BTreeMap::new();
    for (i, e) in log.iter().enumerate() {
        let Event::Challenge(l, b) = e else { continue };
        // the challenge is absorbed in turn, as the value that is used
        let used = match log.get(i + 1) {
            Some(Event::Message(m, b)) if m == l => F::deserialize_compressed(&b[..]).ok(),
            _ => None,
        };
        out.entry(l).or_default().push(used.unwrap_or_else(|| F::from_le_bytes_mod_order(b)));
    }
    out
}
/// What one honest session gives away about the challenges it uses.
struct Known {
    by_label: BTreeMap<&'static [u8], Vec<F>>,
    /// a bag (column, selector, multiplicities) and the shift its inverses use
    shifts: Vec<((C, C, Option<C>), F)>,
    /// columns folded together, with their coefficients
    folds: Vec<Vec<(C, F)>>,
}
fn record(p: &Program, nv: usize) -> Option<Known> {
    tlog::record();
    let mut pr = Prover::new(nv);
    let ran = pr.run(p).is_ok();
    let before = ran.then(|| observe(p, &pr));
    let ok = ran && pr.compile().is_ok();
    let by_label = scalars(&tlog::take());
    let (shifts, folds) = before?;
    ok.then(|| Known { by_label, shifts, folds })
}
/// Read shifts off the columns of inverses the prover committed, and folding
/// coefficients off its linear combinations, whatever they were drawn from.
fn observe(p: &Program, pr: &Prover) -> (Vec<((C, C, Option<C>), F)>, Vec<Vec<(C, F)>>) {
    let t = pr.t.clone_underlying_tracker();
    let mut shifts = vec![];
    for (v, s, m) in bags(p) {
        let live: Vec<usize> = (0..p.v(v).len()).filter(|i| p.v(s)[*i].is_one()).collect();
        let Some((i, j)) = live.iter().flat_map(|i| live.iter().map(move |j| (*i, *j))).find(|(i, j)| p.v(v)[*i] != p.v(v)[*j]) else { continue };
        for h in t.materialized_polys.values() {
            if h.evaluations.len() != p.v(v).len() {
                continue;
            }
            for weighted in [false, true] {
                let shift = |r: usize| -> Option<F> {
                    let w = if weighted { p.v(m?)[r] } else { F::one() };
                    Some(w * h.evaluations[r].inverse()? - p.v(v)[r])
                };
                if let (Some(x), Some(y)) = (shift(i), shift(j)) {
                    if x == y && !shifts.contains(&((v, s, m), x)) {
                        shifts.push(((v, s, m), x));
                    }
                }
            }
        }
    }
    let mut folds = vec![];
    for terms in t.virtual_polys.values() {
        let Some(x) = terms
            .iter()
            .map(|(k, ids)| {
                let c = (0..pr.cols.len()).find(|c| ids.len() == 1 && pr.cols[*c].id == ids[0])?;
                Some((c, *k))
            })
            .collect::<Option<Vec<(C, F)>>>()
        else {
            continue;
        };
        if x.len() > 1 {
            folds.push(x);
        }
    }
    shifts.sort();
    folds.sort();
    (shifts, folds)
}
/// The same program over other committed columns.
pub fn rebuild(p: &Program, edits: &BTreeMap<C, Vec<F>>) -> Program {
    let mut q = Program::new();
    for (i, s) in p.steps.iter().enumerate() {
        match (s, edits.get(&p.outs[i])) {
            (Step::Commit(_), Some(v)) => q.push(Step::Commit(v.clone())),
            _ => q.push(s.clone()),
        };
    }
    q
}
fn editable(p: &Program, c: C) -> bool {
    p.outs.iter().zip(&p.steps).any(|(o, s)| *o == c && matches!(s, Step::Commit(_)))
}
/// Tables of the program (columns that are folded together) and their selectors.
fn tables(p: &Program) -> Vec<(Vec<C>, C)> {
    let mut out = vec![];
    for s in &p.steps {
        match s {
            Step::Index(a, b) | Step::Cross(a, b) => {
                for t in [a, b] {
                    out.push((t.cols.clone(), t.sel));
                }
            }
            Step::FinalJoin(a, b, _, _, adv) => {
                out.push((a.cols.clone(), a.sel));
                if let Some(adv) = adv {
                    out.push((adv.clone(), b.sel));
                    out.push((b.cols.iter().chain(adv).copied().collect(), b.sel));
                }
            }
            Step::GroupBy { input, gcol, supp, ssel, smul, aggs, .. } => {
                out.push((input.cols.clone(), input.sel));
                let mut v = vec![*supp, *smul];
                v.extend(aggs.iter().map(|a| a.2));
                out.push((v, *ssel));
                for a in aggs {
                    out.push((vec![input.cols[*gcol], input.cols[a.0]], input.sel));
                }
            }
            Step::Multi(fs, gs, fm, gm) => {
                for (b, m) in fs.iter().zip(fm).chain(gs.iter().zip(gm)) {
                    out.push((vec![b.v, *m], b.s));
                }
            }
            _ => {}
        }
    }
    out
}
fn bags(p: &Program) -> Vec<(C, C, Option<C>)> {
    let mut out = vec![];
    for s in &p.steps {
        match s {
            Step::BagEq(a, b) => out.extend([a, b].map(|b| (b.v, b.s, None))),
            Step::BagSum(a, b, c) => out.extend([a, b, c].map(|b| (b.v, b.s, None))),
            Step::Perm(a, b, _) => out.extend([a, b].map(|b| (b.v, b.s, None))),
            Step::Multi(fs, gs, fm, gm) => {
                for (b, m) in fs.iter().zip(fm).chain(gs.iter().zip(gm)) {
                    out.push((b.v, b.s, Some(*m)));
                }
            }
            Step::Incl(a, b, _) => out.extend([a, b].map(|b| (b.v, b.s, None))),
            _ => {
                let mut s = s.clone();
                let (bags, _, cols) = gen::operands(&mut s);
                for b in &bags {
                    out.push((b.v, b.s, None));
                    out.extend(cols.iter().filter(|c| p.nv(***c) == p.nv(b.v)).map(|c| (b.v, b.s, Some(**c))));
                }
            }
        }
    }
    out
}
/// Coefficients a folding may have: a run of challenges, powers of one, or the
/// first numbers.
fn coefficients(ctx: &mut Ctx, ch: &BTreeMap<&'static [u8], Vec<F>>, n: usize) -> Vec<F> {
    let groups: Vec<&Vec<F>> = ch.values().collect();
    match ctx.draw(8) {
        0 => (0..n as u64).map(|i| f(i + 1)).collect(),
        1 => vec![F::one(); n],
        2 | 3 if !groups.is_empty() => {
            let g = groups[ctx.pick(groups.len())];
            let r = g[ctx.pick(g.len().min(3))];
            let e0 = ctx.draw(2);
            (0..n as u64).map(|i| r.pow([i + e0])).collect()
        }
        k if !groups.is_empty() => {
            let g = match ch.get(&b"r"[..]) {
                Some(g) if k < 7 => g,
                _ => groups[ctx.pick(groups.len())],
            };
            let start = if ctx.chance(1, 2) { 0 } else { ctx.pick(g.len()) };
            (0..n).map(|i| g[(start + i) % g.len()]).collect()
        }
        _ => (0..n as u64).map(|i| f(2).pow([i])).collect(),
    }
}
fn a_live_row(ctx: &mut Ctx, sel: &[F], n: usize) -> usize {
    let live: Vec<usize> = (0..sel.len().min(n)).filter(|i| sel[*i].is_one()).collect();
    if live.is_empty() || ctx.chance(1, 6) {
        ctx.pick(n)
    } else {
        live[ctx.pick(live.len())]
    }
}
/// Two columns changed in one row so that their folding stays what it was.
fn same_fold(ctx: &mut Ctx, p: &Program, ch: &BTreeMap<&'static [u8], Vec<F>>) -> Option<BTreeMap<C, Vec<F>>> {
    let ts: Vec<(Vec<C>, C)> = tables(p).into_iter().filter(|t| t.0.len() > 1).collect();
    let (cols, sel) = if !ts.is_empty() && ctx.chance(5, 6) {
        let t = ts[ctx.pick(ts.len())].clone();
        (t.0, p.v(t.1).clone())
    } else {
        let all: Vec<C> = (0..p.cols.len()).filter(|c| editable(p, *c)).collect();
        (all, vec![])
    };
    if cols.len() < 2 {
        return None;
    }
    let i = ctx.pick(cols.len());
    let j = (i + 1 + ctx.pick(cols.len() - 1)) % cols.len();
    let (x, y) = (cols[i], cols[j]);
    if x == y || p.nv(x) != p.nv(y) || !editable(p, x) || !editable(p, y) {
        return None;
    }
    let co = coefficients(ctx, ch, cols.len());
    let n = p.v(x).len();
    let row = a_live_row(ctx, &sel, n);
    let d = nonzero_f(ctx);
    let (mut vx, mut vy) = (p.v(x).clone(), p.v(y).clone());
    vx[row] += d * co[j];
    vy[row] -= d * co[i];
    Some([(x, vx), (y, vy)].into())
}
/// The same, with the very coefficients the session was seen to use.
fn same_known_fold(ctx: &mut Ctx, p: &Program, known: &Known) -> Option<BTreeMap<C, Vec<F>>> {
    let fold = &known.folds[ctx.pick(known.folds.len())];
    let can: Vec<&(C, F)> = fold.iter().filter(|(c, _)| editable(p, *c)).collect();
    if can.len() < 2 {
        return None;
    }
    let i = ctx.pick(can.len());
    let j = (i + 1 + ctx.pick(can.len() - 1)) % can.len();
    let ((x, cx), (y, cy)) = (*can[i], *can[j]);
    if x == y || p.nv(x) != p.nv(y) {
        return None;
    }
    let sel = tables(p).into_iter().find(|t| t.0.contains(&x) && t.0.contains(&y)).map(|t| p.v(t.1).clone()).unwrap_or_default();
    let row = a_live_row(ctx, &sel, p.v(x).len());
    let d = nonzero_f(ctx);
    let (mut vx, mut vy) = (p.v(x).clone(), p.v(y).clone());
    vx[row] += d * cy;
    vy[row] -= d * cx;
    Some([(x, vx), (y, vy)].into())
}
/// Two rows of a bag changed so that the sum of the inverses stays what it was.
fn same_inverses(ctx: &mut Ctx, p: &Program, known: &Known) -> Option<BTreeMap<C, Vec<F>>> {
    let seen: Vec<&((C, C, Option<C>), F)> = known.shifts.iter().filter(|k| editable(p, k.0 .0)).collect();
    let bs: Vec<_> = bags(p).into_iter().filter(|b| editable(p, b.0)).collect();
    if bs.is_empty() {
        return None;
    }
    let (mut v, mut s, mut m) = bs[ctx.pick(bs.len())];
    let mut its = None;
    if !seen.is_empty() && ctx.chance(2, 3) {
        let k = seen[ctx.pick(seen.len())];
        ((v, s, m), its) = (k.0, Some(k.1));
    }
    let n = p.v(v).len();
    let live: Vec<usize> = (0..n).filter(|i| p.v(s)[*i].is_one()).collect();
    if live.len() < 2 {
        return None;
    }
    let i = live[ctx.pick(live.len())];
    let j = live[ctx.pick(live.len())];
    if i == j {
        return None;
    }
    let ch = &known.by_label;
    let groups: Vec<&Vec<F>> = ch.values().collect();
    let g = match ch.get(&b"gamma"[..]) {
        Some(g) if ctx.chance(3, 4) => g[ctx.pick(g.len())],
        _ if !groups.is_empty() && ctx.chance(1, 2) => {
            let g = groups[ctx.pick(groups.len())];
            g[ctx.pick(g.len().min(4))]
        }
        _ => f(ctx.draw(5)),
    };
    let g = if ctx.chance(1, 3) { g } else { -g };
    let g = its.unwrap_or(g);
    let w = |i: usize| m.map(|m| p.v(m)[i]).unwrap_or(F::one());
    let mut c = p.v(v).clone();
    let sum = w(i) * (c[i] + g).inverse()? + w(j) * (c[j] + g).inverse()?;
    c[i] += nonzero_f(ctx);
    let rest = sum - w(i) * (c[i] + g).inverse()?;
    c[j] = w(j) * rest.inverse()? - g;
    Some([(v, c)].into())
}
/// Two rows of a column changed so that its value at a predicted point stays.
fn same_value(ctx: &mut Ctx, p: &Program, ch: &BTreeMap<&'static [u8], Vec<F>>) -> Option<BTreeMap<C, Vec<F>>> {
    let all: Vec<C> = (0..p.cols.len()).filter(|c| editable(p, *c) && p.nv(*c) > 0).collect();
    if all.is_empty() {
        return None;
    }
    let c = all[ctx.pick(all.len())];
    let nv = p.nv(c);
    let pt: Vec<F> = match ch.get(&b"0check r"[..]) {
        Some(g) if ctx.chance(3, 4) => {
            let n = g.len();
            let k = if ctx.chance(1, 2) { 0 } else { n.saturating_sub(nv) };
            (0..nv).map(|i| g[(k + i) % n]).collect()
        }
        Some(g) => {
            let r = g[ctx.pick(g.len())];
            vec![r; nv]
        }
        None => (0..nv as u64).map(|i| f(i + 2)).collect(),
    };
    let eq = |i: usize| -> F { (0..nv).map(|b| if i >> b & 1 == 1 { pt[b] } else { F::one() - pt[b] }).product() };
    let mut v = p.v(c).clone();
    let i = ctx.pick(v.len());
    let j = (i + 1 + ctx.pick(v.len() - 1)) % v.len();
    let d = nonzero_f(ctx);
    v[i] += d * eq(j);
    v[j] -= d * eq(i);
    Some([(c, v)].into())
}
pub fn predicted(ctx: &mut Ctx, make: impl FnOnce(&mut Ctx, &mut Program)) -> R {
    begin(ctx);
    let mut p = Program::new();
    if ctx.chance(1, 3) {
        // earlier steps, so that what is drawn for them is known before the rest is committed
        for _ in 0..[1, 1, 2, 3][ctx.pick(4)] {
            match ctx.draw(4) {
                0 => gen::incl(ctx, &mut p, false),
                1 => gen::index(ctx, &mut p, false),
                2 => gen::bag_sum(ctx, &mut p, false),
                _ => gen::bag_eq(ctx, &mut p, false),
            }
        }
    }
    make(ctx, &mut p);
    gen::own_sums(ctx, &mut p);
    if p.truth() != Truth::True {
        return Ok(());
    }
    let nv = gen::srs_size(ctx, &p);
    let Some(known) = record(&p, nv) else { return Ok(()) };
    let ch = &known.by_label;
    if checked_build() {
        return Ok(());
    }
    ctx.add("challenges_taken_down", ch.values().map(|v| v.len() as u64).sum());
    ctx.add("shifts_observed", known.shifts.len() as u64);
    ctx.add("foldings_observed", known.folds.len() as u64);
    let has_bags = !bags(&p).is_empty();
    let has_tables = !tables(&p).is_empty();
    let mut runs = 0;
    for _ in 0..12 {
        if runs == 3 {
            break;
        }
        let k = ctx.draw(8);
        let (name, e) = match k {
            0 | 7 if !known.folds.is_empty() => ("predicted_folding", same_known_fold(ctx, &p, &known)),
            0..=2 if has_tables => ("predicted_folding", same_fold(ctx, &p, ch)),
            0..=4 if has_bags => ("predicted_inverses", same_inverses(ctx, &p, &known)),
            5 => ("predicted_point", same_value(ctx, &p, ch)),
            _ => ("predicted_folding", same_fold(ctx, &p, ch)),
        };
        let Some(e) = e else { continue };
        let q = rebuild(&p, &e);
        if q.truth() != Truth::False {
            continue;
        }
        runs += 1;
        ctx.fault(name);
        q.describe(ctx);
        ctx.say(format!("fault: {} in columns {:?}", name, e.keys().collect::<Vec<_>>()));
        ctx.add("steps.total", 2 * q.steps.len() as u64);
        let (v, _) = session(ctx, &q, nv, Source::Proof);
        let r = judge(ctx, &q, &v);
        soundness(ctx, r)?;
    }
    Ok(())
}
macro_rules! one_of {
    ($name:ident: $($g:ident),*) => {
        pub fn $name(ctx: &mut Ctx) -> R {
            const GS: &[gen::Gen] = &[$(gen::$g),*];
            predicted(ctx, |ctx, p| {
                let k = ctx.pick(GS.len());
                GS[k](ctx, p, false)
            })
        }
    };
}
one_of!(bags_of: bag_eq, bag_sum, multi, multi);
one_of!(incl: incl);
one_of!(order: perm, no_zeros, sel_valid, sort, supp);
one_of!(sets: union, diff, inter, bag_disjoint, set_disjoint);
one_of!(tables_of: index, final_join);
one_of!(join_red: join_red);
one_of!(group_by: group_by);
one_of!(claims: claims, cancelling, composed);
pub fn programs(ctx: &mut Ctx) -> R {
    predicted(ctx, |ctx, p| {
        match ctx.draw(3) {
            0 if p.steps.is_empty() => *p = gen::tracker_program(ctx, false),
            0 => gen::claims(ctx, p, false),
            1 => [gen::bag_eq, gen::bag_sum, gen::multi, gen::incl][ctx.pick(4)](ctx, p, false),
            _ => [gen::index, gen::final_join, gen::group_by, gen::perm, gen::join_red][ctx.pick(5)](ctx, p, false),
        }
    })
}
