//! Witness helpers: what they compute, against plain references, under
//! several hash seeds and schedules, and whether the proofs they feed accept.

use std::collections::{BTreeMap, BTreeSet, HashMap};

use ark_ff::{Field, One, PrimeField, Zero};
use rayon_core::sim::Policy;
use zk_sql::sim_hooks as h;

use crate::core::*;
use crate::gen;
use crate::session::*;
use crate::world::*;

type Vals = Vec<Vec<F>>;
type Job<'a> = &'a (dyn Fn(&mut Prover) -> Result<Vals, String> + Sync);

fn text(e: impl std::fmt::Display) -> String {
    e.to_string().lines().next().unwrap_or("").chars().take(160).collect()
}
/// Run a helper here and again on threads with other schedules, worker counts
/// and hash seeds; all must return the same columns.
fn everywhere(ctx: &mut Ctx, p: &Program, job: Job) -> R<Result<Vals, String>> {
    let nv = p.max_nv;
    let mut first: Option<Result<Vals, String>> = None;
    for k in 0..3 {
        let (policy, threads) = if k == 0 { (Policy::InOrder, 1) } else { (Policy::Random(ctx.seed64()), [2usize, 4, 8, 3, 6][ctx.pick(5)]) };
        let hash = ctx.seed64();
        if k > 0 {
            ctx.fault("hash_seed_change");
            ctx.fault("schedule_change");
        }
        let (got, sched) = std::thread::scope(|sc| {
            let t = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || {
                set_os_random(hash);
                rayon_core::sim::start(policy, threads);
                let r = guard(|| {
                    let mut pr = Prover::new(nv);
                    pr.run(p).map_err(|(i, e)| format!("step {}: {}", i, e))?;
                    job(&mut pr)
                });
                rayon_core::sim::drain();
                (r, rayon_core::sim::stats())
            });
            t.expect("spawn").join().expect("join")
        });
        ctx.absorb(sched);
        let got = match got {
            Ok(x) => x,
            Err(e) => return fail("helper-aborts", e),
        };
        match &first {
            None => {
                match &got {
                    Ok(v) => v.iter().for_each(|c| ctx.mix(&ser(c))),
                    Err(e) => ctx.mix(e.as_bytes()),
                }
                first = Some(got)
            }
            Some(f) => {
                if *f != got {
                    return fail("helper-varies", format!("hash seed {} and another give different results", hash));
                }
            }
        }
    }
    ctx.add("steps.total", 3 * p.steps.len() as u64 + 3);
    Ok(first.unwrap())
}
fn must(r: Result<Vals, String>) -> R<Vals> {
    match r {
        Ok(v) => Ok(v),
        Err(e) => fail("helper-refuses", e),
    }
}
fn same(what: &str, got: &[F], want: &[F]) -> R {
    if got != want {
        return fail("helper-wrong", format!("{} is {}, expected {}", what, show(got), show(want)));
    }
    Ok(())
}
fn counts(v: &[F], s: &[F]) -> BTreeMap<F, u64> {
    let mut m = BTreeMap::new();
    for (x, s) in v.iter().zip(s) {
        if s.is_one() {
            *m.entry(*x).or_insert(0) += 1;
        }
    }
    m
}
/// Values and selector of a bag column pair, as a multiset over selected rows.
fn content(what: &str, v: &[F], s: &[F]) -> R<BTreeMap<F, u64>> {
    if v.len() != s.len() || s.iter().any(|x| !x.is_zero() && !x.is_one()) {
        return fail("helper-wrong", format!("{}: the selector is not one flag per row", what));
    }
    Ok(counts(v, s))
}
fn same_bag(what: &str, got: &BTreeMap<F, u64>, want: &BTreeMap<F, u64>) -> R {
    if got != want {
        let sh = |m: &BTreeMap<F, u64>| m.iter().map(|(k, n)| format!("{}x{}", n, show1(k))).collect::<Vec<_>>().join(" ");
        return fail("helper-wrong", format!("{} holds {{{}}}, expected {{{}}}", what, sh(got), sh(want)));
    }
    Ok(())
}
/// The proof the helper's result is for must be true and must verify.
fn accepted(ctx: &mut Ctx, p: &Program, what: &str) -> R {
    let nv = gen::srs_size(ctx, p);
    p.describe(ctx);
    match p.truth() {
        Truth::True => {}
        Truth::False => return fail("helper-result-false", format!("what the helper returned makes {} false", what)),
        Truth::Grey => {
            ctx.count("outcome.undetermined_program");
            return Ok(());
        }
    }
    let src = source(ctx, p, nv);
    let (v, _) = session(ctx, p, nv, src);
    ctx.add("steps.total", 2 * p.steps.len() as u64);
    ctx.count("outcome.proved_from_helper");
    ctx.count(&format!("proved.{}", what));
    if let Verdict::Refused { at, msg, .. } = v {
        return fail("helper-result-refused", format!("{} over the helper's result was refused at {}: {}", what, at, msg));
    }
    Ok(())
}
/// A bag over random rows; small integers when `g` is given.
fn any_bag(ctx: &mut Ctx, nv: usize, pool: &[F]) -> (Vec<F>, Vec<F>) {
    if nv >= 8 && ctx.chance(1, 2) {
        // one or two values, repeated hundreds of times
        ctx.probe("many_repeats");
        let few = &pool[..ctx.range(1, 2).min(pool.len())];
        let k = (1 << nv) - ctx.range(0, 3);
        let items = gen::from_pool(ctx, few, k);
        return gen::place(ctx, &items, nv);
    }
    let k = gen::fill(ctx, 1 << nv);
    let items = gen::from_pool(ctx, pool, k);
    gen::place(ctx, &items, nv)
}
/// A column that the helper reads: committed or derived.
fn put(ctx: &mut Ctx, p: &mut Program, b: &(Vec<F>, Vec<F>)) -> B {
    gen::bag(ctx, p, b.clone())
}
fn size(ctx: &mut Ctx) -> usize {
    if ctx.chance(1, 12) {
        return ctx.range(8, 9);
    }
    [2usize, 1, 3, 4][ctx.pick(4)]
}
fn ints(ctx: &mut Ctx, g: u64) -> Vec<F> {
    let n = ctx.range(1, 6);
    gen::increasing(ctx, n, g).into_iter().map(f).collect()
}
/// Two bags over one set of values, with duplicates straddling both sides and
/// in unselected rows.
fn two_bags(ctx: &mut Ctx, sets: bool) -> (u64, (Vec<F>, Vec<F>), (Vec<F>, Vec<F>)) {
    let g = gen::gap(ctx);
    let (mut na, mut nb) = ([2usize, 1, 3][ctx.pick(3)], [2usize, 1, 3][ctx.pick(3)]);
    if ctx.chance(1, 24) {
        if ctx.chance(1, 2) {
            na = 8;
        } else {
            nb = 8;
        }
    }
    let pl = ints(ctx, g);
    let side = |ctx: &mut Ctx, nv: usize| {
        if sets {
            let mut x = pl.clone();
            ctx.shuffle(&mut x);
            let k = ctx.range(0, x.len().min(1 << nv));
            x.truncate(k);
            // unselected rows may repeat anything
            let (mut v, s) = gen::place(ctx, &x, nv);
            for i in 0..v.len() {
                if s[i].is_zero() && ctx.chance(1, 2) {
                    v[i] = pl[ctx.pick(pl.len())];
                }
            }
            (v, s)
        } else {
            any_bag(ctx, nv, &pl)
        }
    };
    let a = side(ctx, na);
    let b = side(ctx, nb);
    (g, a, b)
}
/// Other values in place of those of both bags, equal where they were: beyond
/// 64 bits, close to the modulus, or in another order.
fn relabel(ctx: &mut Ctx, a: &mut [F], b: &mut [F]) {
    let seed = ctx.seed64();
    let word = ctx.range(1, 3) as u64;
    let kind = ctx.draw(4);
    let high = f(2).pow([64 * word]);
    for v in a.iter_mut().chain(b.iter_mut()) {
        let h = Prng::new(seed ^ v.into_bigint().0[0].wrapping_mul(0x9E37_79B9_7F4A_7C15)).next();
        *v = match kind {
            0 => -*v,
            1 => *v * high,
            _ => *v + f(h % 5) * high,
        };
    }
}
fn open(ctx: &mut Ctx, p: &Program) {
    p.describe(ctx);
    let shape = p.cols.iter().fold(p.steps.len() as u64, |a, c| mix64(a ^ c.nv as u64));
    ctx.shape = shape;
    ctx.nontrivial = true;
}

// ---------------------------------------------------------------- counting

pub fn multiplicities(ctx: &mut Ctx) -> R {
    begin(ctx);
    let nv = size(ctx);
    let pl = gen::pool(ctx);
    let mut a = any_bag(ctx, nv, &pl);
    if ctx.chance(1, 2) {
        relabel(ctx, &mut a.0, &mut []);
    }
    let mut p = Program::new();
    let b = put(ctx, &mut p, &a);
    open(ctx, &p);
    let flat = |m: HashMap<F, u64>| -> Vec<F> {
        let m: BTreeMap<F, u64> = m.into_iter().filter(|(_, n)| *n != 0).collect();
        m.into_iter().flat_map(|(k, n)| [k, f(n)]).collect()
    };
    let got = must(everywhere(ctx, &p, &|pr: &mut Prover| {
        let (v, s) = (mle(&a.0), mle(&a.1));
        Ok(vec![
            flat(h::util::prelude::bag_multiplicity_count(&pr.bag(&b))),
            flat(h::util::prelude::mle_multiplicity_count::<E>(&v, &s)),
            flat(h::util::prelude::vec_multiplicity_count::<E>(&a.0, &a.1)),
        ])
    })?)?;
    let want: Vec<F> = counts(&a.0, &a.1).into_iter().flat_map(|(k, n)| [k, f(n)]).collect();
    for (n, g) in ["of the bag", "of the column", "of the rows"].iter().zip(&got) {
        same(&format!("the multiplicity count {}", n), g, &want)?;
    }
    Ok(())
}

pub fn support(ctx: &mut Ctx) -> R {
    begin(ctx);
    let nv = size(ctx);
    let g = gen::gap(ctx);
    let small = ctx.chance(2, 3);
    let pl = if small { ints(ctx, g) } else { gen::pool(ctx) };
    let mut a = any_bag(ctx, nv, &pl);
    if !small && ctx.chance(2, 3) {
        relabel(ctx, &mut a.0, &mut []);
    }
    let mut p = Program::new();
    let b = put(ctx, &mut p, &a);
    open(ctx, &p);
    let got = must(everywhere(ctx, &p, &|pr: &mut Prover| {
        let (s, x, m) = h::bag_supp::utils::calc_bag_supp_advice(&pr.bag(&b)).map_err(text)?;
        Ok(vec![s.evaluations, x.evaluations, m.evaluations])
    })?)?;
    let want = counts(&a.0, &a.1);
    if got.iter().any(|c| c.len() != a.0.len()) {
        return fail("helper-wrong", "the support has another size than the bag");
    }
    let have = content("the support", &got[0], &got[1])?;
    same_bag("the support", &have, &want.keys().map(|k| (*k, 1)).collect())?;
    for i in 0..got[0].len() {
        let w = if got[1][i].is_zero() { 0 } else { want[&got[0][i]] };
        if got[2][i] != f(w) {
            return fail("helper-wrong", format!("row {}: multiplicity {} instead of {}", i, show1(&got[2][i]), w));
        }
    }
    let order: Vec<F> = (0..got[0].len()).filter(|i| got[1][*i].is_one()).map(|i| got[0][i]).collect();
    if order.windows(2).any(|w| w[0] >= w[1]) {
        return fail("helper-wrong", "the support is not sorted");
    }
    if small {
        let s = B { v: p.commit(got[0].clone()), s: p.commit(got[1].clone()) };
        let m = if ctx.chance(1, 2) { Some(p.commit(got[2].clone())) } else { None };
        let mut r = gen::range(ctx, &mut p, g);
        if p.nv(r.v) < 4 && ctx.chance(1, 2) {
            r = gen::range(ctx, &mut p, 15);
        }
        p.push(Step::Supp(b, s, m, r));
        accepted(ctx, &p, "support")?;
    }
    Ok(())
}

pub fn inclusion(ctx: &mut Ctx) -> R {
    begin(ctx);
    let (na, nb) = (size(ctx), size(ctx));
    let pl = gen::pool(ctx);
    let mut b = any_bag(ctx, nb, &pl);
    let rows: Vec<F> = b.0.iter().zip(&b.1).filter(|(_, s)| s.is_one()).map(|(v, _)| *v).collect();
    let subset = ctx.chance(3, 4);
    let mut a = if subset {
        let k = if rows.is_empty() { 0 } else { gen::fill(ctx, 1 << na) };
        let items = if k == 0 { vec![] } else { gen::from_pool(ctx, &rows, k) };
        gen::place(ctx, &items, na)
    } else {
        any_bag(ctx, na, &pl)
    };
    if ctx.chance(1, 3) {
        relabel(ctx, &mut a.0, &mut b.0);
    }
    let mut p = Program::new();
    let (ba, bb) = (put(ctx, &mut p, &a), put(ctx, &mut p, &b));
    open(ctx, &p);
    let got = must(everywhere(ctx, &p, &|pr: &mut Prover| {
        use h::bag_inclusion::utils as u;
        let x = u::calc_bag_inclusion_advice_from_bag(&pr.bag(&ba), &pr.bag(&bb));
        let y = u::calc_bag_inclusion_advice_from_mle::<E>(&mle(&a.0), &mle(&a.1), &mle(&b.0), &mle(&b.1));
        Ok(vec![x.evaluations, y.evaluations])
    })?)?;
    same("the advice from bags", &got[0], &got[1])?;
    let m = &got[0];
    if m.len() != b.0.len() {
        return fail("helper-wrong", "the advice has another size than the containing bag");
    }
    let ca = counts(&a.0, &a.1);
    let cb = counts(&b.0, &b.1);
    let have = weights(b.0.iter().zip(m).zip(&b.1).map(|((v, m), s)| (v, *m * *s)));
    let want = weights(ca.iter().filter(|(k, _)| cb.contains_key(k)).map(|(k, n)| (k, f(*n))));
    if have != want {
        return fail("helper-wrong", "over the selected rows the multiplicities do not add up to the included bag's");
    }
    if ca.keys().all(|k| cb.contains_key(k)) {
        let m = p.commit(m.clone());
        p.push(Step::Incl(ba.clone(), bb.clone(), Some(m)));
        accepted(ctx, &p, "inclusion")?;
    }
    Ok(())
}

pub fn disjointness(ctx: &mut Ctx) -> R {
    begin(ctx);
    let (g, mut a, b) = two_bags(ctx, false);
    let apart = ctx.chance(2, 3);
    if apart {
        // deselect on one side what the other also has
        let cb = counts(&b.0, &b.1);
        for i in 0..a.0.len() {
            if cb.contains_key(&a.0[i]) {
                a.1[i] = f(0);
            }
        }
    }
    let mut p = Program::new();
    let (ba, bb) = (put(ctx, &mut p, &a), put(ctx, &mut p, &b));
    open(ctx, &p);
    let got = must(everywhere(ctx, &p, &|pr: &mut Prover| {
        let (s, x, ma, mb) = h::bag_disjoint::utils::calc_bag_disjoint_advice(&pr.bag(&ba), &pr.bag(&bb)).map_err(text)?;
        Ok(vec![s.evaluations, x.evaluations, ma.evaluations, mb.evaluations])
    })?)?;
    if got.iter().any(|c| c.len() != got[0].len()) {
        return fail("helper-wrong", "the columns have different sizes");
    }
    let (ca, cb) = (counts(&a.0, &a.1), counts(&b.0, &b.1));
    let all: BTreeSet<F> = ca.keys().chain(cb.keys()).copied().collect();
    let have = content("the joint support", &got[0], &got[1])?;
    same_bag("the joint support", &have, &all.iter().map(|k| (*k, 1)).collect())?;
    for i in 0..got[0].len() {
        for (m, c, n) in [(&got[2], &ca, "first"), (&got[3], &cb, "second")] {
            let w = if got[1][i].is_zero() { 0 } else { c.get(&got[0][i]).copied().unwrap_or(0) };
            if m[i] != f(w) {
                return fail("helper-wrong", format!("row {}: {} multiplicity {} instead of {}", i, n, show1(&m[i]), w));
            }
        }
    }
    let order: Vec<F> = (0..got[0].len()).filter(|i| got[1][*i].is_one()).map(|i| got[0][i]).collect();
    if order.windows(2).any(|w| w[0] >= w[1]) {
        return fail("helper-wrong", "the joint support is not sorted");
    }
    if apart {
        let c = B { v: p.commit(got[0].clone()), s: p.commit(got[1].clone()) };
        let (ma, mb) = (p.commit(got[2].clone()), p.commit(got[3].clone()));
        let r = gen::range(ctx, &mut p, g.max(15));
        p.push(Step::BagDisjoint(ba, bb, Some((c, ma, mb)), r));
        accepted(ctx, &p, "disjointness")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- splits

fn split(ctx: &mut Ctx, sets: bool) -> R {
    begin(ctx);
    let (g, mut a, mut b) = two_bags(ctx, sets);
    if !sets && ctx.chance(1, 2) {
        relabel(ctx, &mut a.0, &mut b.0);
    }
    let mut p = Program::new();
    let (ba, bb) = (put(ctx, &mut p, &a), put(ctx, &mut p, &b));
    open(ctx, &p);
    let got = must(everywhere(ctx, &p, &|pr: &mut Prover| {
        let mut t = pr.t.clone();
        let (x, y) = (pr.bag(&ba), pr.bag(&bb));
        let bags = if sets {
            let (l, m, r) = h::util::prelude::set_lmr_split(&mut t, &x, &y).map_err(text)?;
            vec![l, m, r]
        } else {
            let (l, ma, mb, r) = h::util::prelude::bag_lmr_split(&mut t, &x, &y).map_err(text)?;
            vec![l, ma, mb, r]
        };
        Ok(bags.iter().flat_map(|b| [b.poly.evaluations(), b.selector.evaluations()]).collect())
    })?)?;
    let (ca, cb) = (counts(&a.0, &a.1), counts(&b.0, &b.1));
    let pick = |c: &BTreeMap<F, u64>, o: &BTreeMap<F, u64>, shared: bool| -> BTreeMap<F, u64> {
        c.iter().filter(|(k, _)| o.contains_key(k) == shared).map(|(k, n)| (*k, *n)).collect()
    };
    let bags: Vec<_> = (0..got.len() / 2).map(|i| content(&format!("part {}", i), &got[2 * i], &got[2 * i + 1])).collect::<R<_>>()?;
    if sets {
        same_bag("the left part", &bags[0], &pick(&ca, &cb, false))?;
        same_bag("the middle part", &bags[1], &pick(&ca, &cb, true))?;
        same_bag("the right part", &bags[2], &pick(&cb, &ca, false))?;
    } else {
        same_bag("the left part", &bags[0], &pick(&ca, &cb, false))?;
        same_bag("the first middle part", &bags[1], &pick(&ca, &cb, true))?;
        same_bag("the second middle part", &bags[2], &pick(&cb, &ca, true))?;
        same_bag("the right part", &bags[3], &pick(&cb, &ca, false))?;
    }
    let parts: Vec<B> = (0..got.len() / 2).map(|i| B { v: p.commit(got[2 * i].clone()), s: p.commit(got[2 * i + 1].clone()) }).collect();
    if !sets {
        p.push(Step::BagSum(parts[0].clone(), parts[1].clone(), ba));
        p.push(Step::BagSum(parts[3].clone(), parts[2].clone(), bb));
        return accepted(ctx, &p, "bag_split");
    }
    let r = gen::range(ctx, &mut p, g.max(15));
    if ctx.chance(1, 2) {
        p.push(Step::Inter(ba, bb, parts[0].clone(), parts[1].clone(), parts[2].clone(), r));
        accepted(ctx, &p, "set_intersection")
    } else {
        // which rows of the second set hold a middle element
        let (m, q) = (parts[1].clone(), bb.clone());
        let bm = must(everywhere(ctx, &p, &|pr: &mut Prover| {
            Ok(vec![h::bag_inclusion::utils::calc_bag_inclusion_advice_from_bag(&pr.bag(&m), &pr.bag(&q)).evaluations])
        })?)?;
        let bm = p.commit(bm[0].clone());
        p.push(Step::Diff(ba, bb, parts[0].clone(), parts[1].clone(), bm, r));
        accepted(ctx, &p, "set_difference")
    }
}
pub fn split_bags(ctx: &mut Ctx) -> R {
    split(ctx, false)
}
pub fn split_sets(ctx: &mut Ctx) -> R {
    split(ctx, true)
}

/// The split that lists every value once, with how often it occurs.
pub fn split_multiplicities(ctx: &mut Ctx) -> R {
    begin(ctx);
    let (_, mut a, mut b) = two_bags(ctx, false);
    if ctx.chance(1, 2) {
        relabel(ctx, &mut a.0, &mut b.0);
    }
    let mut p = Program::new();
    let (ba, bb) = (put(ctx, &mut p, &a), put(ctx, &mut p, &b));
    open(ctx, &p);
    let got = must(everywhere(ctx, &p, &|pr: &mut Prover| {
        let mut t = pr.t.clone();
        let (x, y) = (pr.bag(&ba), pr.bag(&bb));
        let (l, m, r, lm, am, bm, rm) = h::util::bag_lmr_multiplicity_split(&mut t, &x, &y).map_err(text)?;
        let mut out: Vals = [&l, &m, &r].iter().flat_map(|b| [b.poly.evaluations(), b.selector.evaluations()]).collect();
        out.extend([lm, am, bm, rm].iter().map(|c| c.evaluations()));
        Ok(out)
    })?)?;
    let (ca, cb) = (counts(&a.0, &a.1), counts(&b.0, &b.1));
    for (part, mul, of, other, shared, what) in [
        (0, 6, &ca, &cb, false, "the left part"),
        (1, 7, &ca, &cb, true, "the middle part, first bag"),
        (1, 8, &cb, &ca, true, "the middle part, second bag"),
        (2, 9, &cb, &ca, false, "the right part"),
    ] {
        let (v, s, m) = (&got[2 * part], &got[2 * part + 1], &got[mul]);
        let once = content(what, v, s)?;
        let want: BTreeMap<F, u64> = of.iter().filter(|(k, _)| other.contains_key(k) == shared).map(|(k, n)| (*k, *n)).collect();
        same_bag(what, &once, &want.keys().map(|k| (*k, 1)).collect())?;
        for i in (0..v.len()).filter(|i| s[*i].is_one()) {
            if m.get(i) != Some(&f(want[&v[i]])) {
                return fail("helper-wrong", format!("{}, row {}: multiplicity is not {}", what, i, want[&v[i]]));
            }
        }
    }
    let cols: Vec<C> = got.iter().map(|c| p.commit(c.clone())).collect();
    let bag = |i: usize| B { v: cols[2 * i], s: cols[2 * i + 1] };
    for (whole, n, part, mul) in [(ba, a.0.len(), 0, 6), (bb, b.0.len(), 2, 9)] {
        let ones = p.commit(vec![f(1); n]);
        p.push(Step::Multi(vec![whole], vec![bag(part), bag(1)], vec![ones], vec![cols[mul], cols[if part == 0 { 7 } else { 8 }]]));
    }
    accepted(ctx, &p, "multiplicity_split")
}

// ---------------------------------------------------------------- joins

pub fn join_partners(ctx: &mut Ctx) -> R {
    begin(ctx);
    let (g, mut a, mut b) = two_bags(ctx, false);
    let wide = ctx.chance(1, 3);
    if wide {
        relabel(ctx, &mut a.0, &mut b.0);
    }
    let mut p = Program::new();
    let (ba, bb) = (put(ctx, &mut p, &a), put(ctx, &mut p, &b));
    open(ctx, &p);
    let got = must(everywhere(ctx, &p, &|_: &mut Prover| {
        let (l, r) = h::join_reduction::calc_join_reduction_lr_sel_advice::<E>(&mle(&a.0), &mle(&a.1), &mle(&b.0), &mle(&b.1));
        Ok(vec![l.evaluations, r.evaluations])
    })?)?;
    for (x, y, s, n) in [(&a, &b, &got[0], "first"), (&b, &a, &got[1], "second")] {
        if s.len() != x.0.len() {
            return fail("helper-wrong", format!("{} selector has the wrong size", n));
        }
        let other = counts(&y.0, &y.1);
        for i in 0..s.len() {
            let want = f(!other.contains_key(&x.0[i]) as u64);
            if x.1[i].is_one() && s[i] != want || !s[i].is_zero() && !s[i].is_one() {
                return fail("helper-wrong", format!("{} bag, row {}: marked {}, expected {}", n, i, show1(&s[i]), show1(&want)));
            }
        }
    }
    if wide {
        // the proof compares keys within a range
        return Ok(());
    }
    let (l, r) = (p.commit(got[0].clone()), p.commit(got[1].clone()));
    let rg = gen::range(ctx, &mut p, g.max(15));
    p.push(Step::JoinRed(ba, bb, l, r, rg));
    accepted(ctx, &p, "join_reduction")
}

pub fn reindex(ctx: &mut Ctx) -> R {
    begin(ctx);
    let (na, nb) = ([2usize, 1, 3][ctx.pick(3)], [2usize, 1, 3][ctx.pick(3)]);
    let (ta, mut tb, ai, bi) = gen::join_tables(ctx, na, nb);
    // now and then a key without a partner
    let mut dangling = false;
    if ctx.chance(1, 4) {
        let j = ctx.pick(1 << nb);
        tb.sel[j] = f(1);
        let off: Vec<F> = (0..1 << na).filter(|i| ta.sel[*i].is_zero()).map(|i| ta.cols[ai][i]).collect();
        tb.cols[bi][j] = if !off.is_empty() && ctx.chance(1, 2) { off[ctx.pick(off.len())] } else { wide_f(ctx) };
    }
    let keys: BTreeMap<F, usize> = (0..1usize << na).filter(|i| ta.sel[*i].is_one()).map(|i| (ta.cols[ai][i], i)).collect();
    for j in 0..1usize << nb {
        dangling |= tb.sel[j].is_one() && !keys.contains_key(&tb.cols[bi][j]);
    }
    let (ca, cb, sa, sb) = (ta.cols.clone(), tb.cols.clone(), ta.sel.clone(), tb.sel.clone());
    let mut p = Program::new();
    let (a, b) = (gen::put(ctx, &mut p, ta), gen::put(ctx, &mut p, tb));
    open(ctx, &p);
    let _ = sa;
    let got = everywhere(ctx, &p, &|pr: &mut Prover| {
        use h::final_join_one_to_many::utils as u;
        let (x, y) = (pr.table(&a), pr.table(&b));
        let idx = u::calc_final_join_one_to_many_index_transform(&x, &y, ai, bi).map_err(text)?;
        let mut out: Vals = vec![idx.iter().map(|i| f(*i as u64)).collect()];
        for c in &x.col_vals {
            out.push(u::calc_index_transformed_bag(&idx, c, &y.selector).map_err(text)?.evaluations);
        }
        Ok(out)
    })?;
    let got = match (dangling, got) {
        (true, Ok(_)) => return fail("helper-wrong", "a selected key without a partner was given one"),
        (true, Err(_)) => {
            ctx.count("outcome.dangling_key_refused");
            return Ok(());
        }
        (false, g) => must(g)?,
    };
    if got[0].len() != 1 << nb {
        return fail("helper-wrong", "one index per row was promised");
    }
    for j in 0..1usize << nb {
        if sb[j].is_zero() {
            continue;
        }
        let i = keys[&cb[bi][j]];
        if got[0][j] != f(i as u64) {
            return fail("helper-wrong", format!("row {} is matched with row {}, not {}", j, show1(&got[0][j]), i));
        }
        for c in 0..ca.len() {
            if got[1 + c][j] != ca[c][i] {
                return fail("helper-wrong", format!("column {} row {}: {} instead of {}", c, j, show1(&got[1 + c][j]), show1(&ca[c][i])));
            }
        }
    }
    let cols: Vec<C> = got[1..].iter().map(|c| p.commit(c.clone())).collect();
    match ctx.draw(3) {
        0 => {
            p.push(Step::Index(a, T { cols, sel: b.sel }));
            accepted(ctx, &p, "index_transform")
        }
        _ => {
            p.push(Step::FinalJoin(a, b, ai, bi, Some(cols)));
            accepted(ctx, &p, "final_join")
        }
    }
}

pub fn products(ctx: &mut Ctx) -> R {
    begin(ctx);
    let nv = ctx.range(1, 3);
    let k = ctx.range(0, 3);
    let pl = gen::pool(ctx);
    let vals = gen::from_pool(ctx, &pl, 1 << nv);
    let mut p = Program::new();
    let c = gen::col(ctx, &mut p, vals.clone());
    open(ctx, &p);
    let got = must(everywhere(ctx, &p, &|pr: &mut Prover| {
        use h::cross_product::utils as u;
        let mut t = pr.t.clone();
        let x = u::front_alias_tracked_poly(&mut t, &pr.cols[c], k).evaluations();
        let y = u::back_alias_tracked_poly(&mut t, &pr.cols[c], k).evaluations();
        let z = pr.cols[c].evaluations();
        Ok(vec![x, y, z])
    })?)?;
    let front: Vec<F> = vals.iter().flat_map(|v| vec![*v; 1 << k]).collect();
    let back: Vec<F> = (0..1 << k).flat_map(|_| vals.clone()).collect();
    same("the column with variables added in front", &got[0], &front)?;
    same("the column with variables added at the back", &got[1], &back)?;
    same("the original column", &got[2], &vals)?;
    Ok(())
}
