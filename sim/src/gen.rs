//! Generators of step programs.  Each builds an instance that is true by
//! construction and, when asked to lie, damages one cell or selector of it;
//! the reference model (`Program::truth`) alone decides what is true.

use std::collections::BTreeMap;

use ark_ff::{Field, One, Zero};

use crate::core::{Ctx, Prng};
use crate::world::*;

// ---------------------------------------------------------------- values

/// A few distinct values to draw cells from, so that duplicates happen.
pub fn pool(ctx: &mut Ctx) -> Vec<F> {
    let n = ctx.range(1, 6);
    (0..n)
        .map(|i| match ctx.draw(4) {
            0 | 1 => f(i as u64 + ctx.draw(4)),
            2 => any_f(ctx),
            _ => wide_f(ctx),
        })
        .collect()
}
pub fn from_pool(ctx: &mut Ctx, pool: &[F], n: usize) -> Vec<F> {
    (0..n).map(|_| pool[ctx.pick(pool.len())]).collect()
}
/// How many of `len` rows are selected.
pub fn fill(ctx: &mut Ctx, len: usize) -> usize {
    match ctx.draw(8) {
        0 | 1 => len,
        2 => len - 1,
        3 => 1,
        4 => 0,
        _ => ctx.range(0, len),
    }
}
/// Between `lo` and `hi`, now and then a few more.
pub fn few(ctx: &mut Ctx, lo: usize, hi: usize) -> usize {
    if ctx.chance(1, 10) {
        ctx.range(hi + 1, hi + 4)
    } else {
        ctx.range(lo, hi)
    }
}
pub fn garbage(ctx: &mut Ctx, pool: &[F]) -> F {
    if pool.is_empty() || ctx.chance(1, 3) {
        any_f(ctx)
    } else {
        pool[ctx.pick(pool.len())]
    }
}
thread_local! { static TIDY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) } }
/// Whether this gadget's operands are laid out alike: items in the first rows,
/// equal sizes and counts likely, equal columns shared.
pub fn tidy() -> bool {
    TIDY.with(|t| t.get())
}
pub fn plain() {
    TIDY.with(|x| x.set(false));
}
pub fn mood(ctx: &mut Ctx) -> bool {
    let t = ctx.chance(1, 3);
    TIDY.with(|x| x.set(t));
    t
}
fn alike(ctx: &mut Ctx, a: usize, b: usize) -> usize {
    if tidy() && ctx.chance(2, 3) {
        a
    } else {
        b
    }
}
/// Rows chosen for `k` items among `len`.
pub fn slots(ctx: &mut Ctx, k: usize, len: usize) -> Vec<usize> {
    if tidy() {
        return (0..k).collect();
    }
    let mut r: Vec<usize> = (0..len).collect();
    if !ctx.chance(1, 4) {
        ctx.shuffle(&mut r);
    } else if ctx.chance(1, 2) {
        r.reverse();
    }
    r.truncate(k);
    r
}
/// Place items in random rows; every other row is unselected garbage.
pub fn place(ctx: &mut Ctx, items: &[F], nv: usize) -> (Vec<F>, Vec<F>) {
    let len = 1usize << nv;
    assert!(items.len() <= len);
    let rows = slots(ctx, items.len(), len);
    let mut v: Vec<Option<F>> = vec![None; len];
    let mut s = vec![f(0); len];
    for (r, x) in rows.iter().zip(items) {
        v[*r] = Some(*x);
        s[*r] = f(1);
    }
    let v = v.into_iter().map(|x| x.unwrap_or_else(|| garbage(ctx, items))).collect();
    (v, s)
}
pub fn selector(ctx: &mut Ctx, nv: usize) -> Vec<F> {
    let len = 1usize << nv;
    let k = fill(ctx, len);
    let mut s = vec![f(0); len];
    for r in slots(ctx, k, len) {
        s[r] = f(1);
    }
    s
}
pub fn log2_at_least(n: usize) -> usize {
    let mut k = 1;
    while (1usize << k) < n {
        k += 1;
    }
    k
}
/// `k` distinct increasing integers, gaps at most `gap`.
pub fn increasing(ctx: &mut Ctx, k: usize, gap: u64) -> Vec<u64> {
    let mut cur = ctx.draw(gap + 1);
    let mut out = vec![];
    for i in 0..k {
        if i > 0 {
            cur += match ctx.draw(3) {
                0 => 1,
                1 => gap,
                _ => 1 + ctx.draw(gap),
            };
        }
        out.push(cur);
    }
    out
}
/// A strictly sorted bag of the given increasing values over 2^nv rows, with
/// unselected rows in between that keep the raw column sorted.
pub fn sorted_bag(ctx: &mut Ctx, set: &[u64], nv: usize, gap: u64) -> (Vec<F>, Vec<F>) {
    let len = 1usize << nv;
    let mut rows = match ctx.draw(3) {
        0 => (len - set.len()..len).collect::<Vec<_>>(),
        1 => (0..set.len()).collect(),
        _ => slots(ctx, set.len(), len),
    };
    rows.sort();
    let mut v = vec![0u64; len];
    let mut s = vec![f(0); len];
    let mut j = 0;
    let mut prev: Option<u64> = None;
    let mut prev_sel = false;
    for i in 0..len {
        if j < rows.len() && rows[j] == i {
            v[i] = set[j];
            s[i] = f(1);
            j += 1;
            prev = Some(v[i]);
            prev_sel = true;
            continue;
        }
        let lo = match prev {
            None => None,
            Some(p) => Some(if prev_sel { p + 1 } else { p }),
        };
        let x = match (lo, set.get(j)) {
            (None, Some(q)) => q - ctx.draw(gap.min(*q) + 1),
            (None, None) => ctx.draw(gap + 1),
            (Some(l), Some(q)) => l + ctx.draw(q - l + 1),
            (Some(l), None) => l + if ctx.chance(1, 3) { ctx.draw(gap) } else { 0 },
        };
        v[i] = x;
        prev = Some(x);
        prev_sel = false;
    }
    (v.into_iter().map(f).collect(), s)
}

// ---------------------------------------------------------------- columns

/// A column with the given values: committed, public, or derived from others.
pub fn col(ctx: &mut Ctx, p: &mut Program, vals: Vec<F>) -> C {
    if let Some(c) = p.cols.iter().rposition(|c| c.vals == vals && !c.free) {
        // the same column may serve twice
        if ctx.chance(if tidy() { 5 } else { 2 }, 6) {
            return c;
        }
    }
    match ctx.draw(12) {
        8 => {
            let x: Vec<F> = vals.iter().map(|_| any_f(ctx)).collect();
            let y = vals.iter().zip(&x).map(|(v, x)| *v - x).collect();
            let (a, b) = (p.commit(x), p.commit(y));
            p.push(Step::Add(a, b))
        }
        9 => {
            let k = any_f(ctx);
            let a = p.commit(vals.iter().map(|v| *v - k).collect());
            p.push(Step::AddS(a, k))
        }
        10 => {
            let k = nonzero_f(ctx);
            let i = k.inverse().unwrap();
            let a = p.commit(vals.iter().map(|v| *v * i).collect());
            p.push(Step::MulS(a, k))
        }
        11 => match ctx.draw(3) {
            0 => p.uncommitted(vals),
            1 => {
                let y: Vec<F> = vals.iter().map(|_| nonzero_f(ctx)).collect();
                let x = vals.iter().zip(&y).map(|(v, y)| *v * y.inverse().unwrap()).collect();
                let (a, b) = (p.commit(x), p.commit(y));
                p.push(Step::Mul(a, b))
            }
            _ => {
                let x: Vec<F> = vals.iter().map(|_| any_f(ctx)).collect();
                let y = vals.iter().zip(&x).map(|(v, x)| *x - v).collect();
                let (a, b) = (p.commit(x), p.commit(y));
                p.push(Step::Sub(a, b))
            }
        },
        _ => p.commit(vals),
    }
}
pub fn bag(ctx: &mut Ctx, p: &mut Program, (v, s): (Vec<F>, Vec<F>)) -> B {
    let v = col(ctx, p, v);
    let s = if p.cols.len() > 40 { p.commit(s) } else { col(ctx, p, s) };
    B { v, s }
}
/// The operands of a step, but for range tables.
pub fn operands(s: &mut Step) -> (Vec<&mut B>, Vec<&mut T>, Vec<&mut C>) {
    use Step::*;
    let (mut b, mut t, mut c): (Vec<&mut B>, Vec<&mut T>, Vec<&mut C>) = (vec![], vec![], vec![]);
    match s {
        BagEq(x, y) | SetDisjoint(x, y, _) => b.extend([x, y]),
        BagSum(x, y, z) | Union(x, y, z, _) => b.extend([x, y, z]),
        Multi(x, y, m, n) => {
            b.extend(x.iter_mut().chain(y));
            c.extend(m.iter_mut().chain(n));
        }
        Incl(x, y, m) | Supp(x, y, m, _) => {
            b.extend([x, y]);
            c.extend(m);
        }
        NoZeros(x) | Sort(x, _) => b.push(x),
        Perm(x, y, k) => {
            b.extend([x, y]);
            c.push(k);
        }
        BagDisjoint(x, y, w, _) => {
            b.extend([x, y]);
            if let Some((z, m, n)) = w {
                b.push(z);
                c.extend([m, n]);
            }
        }
        Diff(w, x, y, z, m, _) => {
            b.extend([w, x, y, z]);
            c.push(m);
        }
        Inter(v, w, x, y, z, _) => b.extend([v, w, x, y, z]),
        Cross(x, y) | Index(x, y) => t.extend([x, y]),
        FinalJoin(x, y, _, _, w) => {
            t.extend([x, y]);
            if let Some(w) = w {
                c.extend(w);
            }
        }
        JoinRed(x, y, m, n, _) => {
            b.extend([x, y]);
            c.extend([m, n]);
        }
        GroupBy { input, supp, ssel, smul, aggs, .. } => {
            t.push(input);
            c.extend([supp, ssel, smul]);
            c.extend(aggs.iter_mut().map(|a| &mut a.2));
        }
        _ => {}
    }
    (b, t, c)
}
/// Let the last step use one column in two places: another selection of the
/// same column, another column under the same selector, a bag or table twice.
/// Whether the step is then true is the model's business.
pub fn alias(ctx: &mut Ctx, p: &mut Program) {
    let mut last = match p.steps.last() {
        Some(s) => s.clone(),
        None => return,
    };
    let resizes = matches!(last, Step::BagEq(..) | Step::Incl(_, _, None) | Step::SetDisjoint(..) | Step::BagDisjoint(_, _, None, _));
    let n = p.steps.len() - 1;
    let mut q = Program::new();
    for s in &p.steps[..n] {
        q.push(s.clone());
    }
    let (mut bags, mut tabs, mut cols) = operands(&mut last);
    let sel_like = |ctx: &mut Ctx, q: &mut Program, s: C| -> C {
        let mut v = q.v(s).clone();
        match ctx.draw(4) {
            0 => v.iter_mut().for_each(|x| *x = f(1) - *x),
            1 => ctx.shuffle(&mut v),
            2 => v = selector(ctx, v.len().trailing_zeros() as usize),
            _ => {
                let r = a_row(ctx, v.len());
                v[r] = f(1) - v[r];
            }
        }
        col(ctx, q, v)
    };
    if cols.len() > 1 && ctx.chance(1, 6) {
        let i = ctx.pick(cols.len());
        let j = (i + 1 + ctx.pick(cols.len() - 1)) % cols.len();
        let from = *cols[i];
        if q.cols[*cols[j]].nv == q.cols[from].nv {
            *cols[j] = from;
        }
    } else if bags.len() > 1 && !ctx.chance(1, 5) {
        let i = ctx.pick(bags.len());
        let j = (i + 1 + ctx.pick(bags.len() - 1)) % bags.len();
        let from = bags[i].clone();
        if q.cols[from.v].nv != q.cols[bags[j].v].nv && !resizes {
            return;
        }
        let same = q.cols[from.v].nv == q.cols[bags[j].v].nv;
        match ctx.draw(4) {
            0 => *bags[j] = from,
            1 if same => bags[j].s = from.s,
            2 if same => bags[j].v = from.v,
            _ => {
                let s = sel_like(ctx, &mut q, from.s);
                *bags[j] = B { v: from.v, s };
            }
        }
    } else if tabs.len() == 2 && !ctx.chance(1, 5) {
        let i = ctx.pick(2);
        let from = tabs[i].clone();
        let to = &mut *tabs[1 - i];
        if q.cols[from.sel].nv != q.cols[to.sel].nv {
            return;
        }
        match ctx.draw(3) {
            0 => to.sel = from.sel,
            k => {
                for (x, y) in to.cols.iter_mut().zip(&from.cols) {
                    *x = *y;
                }
                if k == 1 {
                    to.sel = from.sel;
                }
            }
        }
    } else {
        let mut all: Vec<&mut C> = cols.drain(..).collect();
        for b in bags.into_iter() {
            all.push(&mut b.v);
            all.push(&mut b.s);
        }
        for t in tabs.into_iter() {
            all.push(&mut t.sel);
            all.extend(t.cols.iter_mut());
        }
        if all.len() < 2 {
            return;
        }
        let i = ctx.pick(all.len());
        let from = *all[i];
        let like: Vec<usize> = (0..all.len()).filter(|j| *all[*j] != from && q.cols[*all[*j]].nv == q.cols[from].nv).collect();
        if like.is_empty() {
            return;
        }
        let j = like[ctx.pick(like.len())];
        *all[j] = from;
    }
    ctx.count("gen.aliased");
    q.push(last);
    *p = q;
}
/// The range 0 .. 2^k - 1 with k such that `gap` fits.
pub fn range(ctx: &mut Ctx, p: &mut Program, gap: u64) -> B {
    let mut k = log2_at_least(gap as usize + 1);
    match ctx.draw(12) {
        0 => k = k.max(5),
        1..=3 => k += 1,
        _ => {}
    }
    let v: Vec<F> = (0..1u64 << k).map(f).collect();
    let ones = vec![f(1); 1 << k];
    let v = if ctx.chance(1, 4) { p.uncommitted(v) } else { p.commit(v) };
    let s = if ctx.chance(1, 4) { p.uncommitted(ones) } else { p.commit(ones) };
    B { v, s }
}
pub fn gap(ctx: &mut Ctx) -> u64 {
    [3u64, 7, 1, 15][ctx.pick(4)]
}

// ---------------------------------------------------------------- damage

#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Val,
    Sel,
}
/// Damage one cell of one column.
/// A row, more often than not one where an off-by-one would show.
pub fn a_row(ctx: &mut Ctx, n: usize) -> usize {
    match ctx.draw(8) {
        0 => 0,
        1 => n - 1,
        2 => n.saturating_sub(2),
        3 => n / 2,
        4 => (n / 2).saturating_sub(1),
        _ => ctx.pick(n),
    }
}
pub fn damage(ctx: &mut Ctx, cols: &mut [(&mut Vec<F>, K)]) {
    let c = ctx.pick(cols.len());
    let (v, k) = &mut cols[c];
    let n = v.len();
    let r = a_row(ctx, n);
    if *k == K::Sel {
        v[r] = match ctx.draw(8) {
            7 => any_f(ctx),
            _ => f(1) - v[r],
        };
        return;
    }
    match ctx.draw(6) {
        0 => v[r] += f(1),
        1 => v[r] = v[ctx.pick(n)],
        2 => {
            let q = ctx.pick(n);
            v.swap(r, q)
        }
        3 => v[r] -= f(1),
        4 => v[r] = f(0),
        _ => v[r] = any_f(ctx),
    }
}
macro_rules! vals {
    ($($v:expr),*) => { &mut [$(($v, K::Val)),*] };
}

// ---------------------------------------------------------------- plain tracker programs

pub struct Shape {
    pub mixed: bool,
    pub max_nv: usize,
    pub max_deg: usize,
    pub ops: usize,
    pub bases: usize,
    pub extend: bool,
}
pub fn shape(ctx: &mut Ctx) -> Shape {
    let mixed = ctx.chance(1, 2);
    if ctx.chance(1, 40) {
        return Shape { mixed, max_nv: ctx.range(6, 8), max_deg: 3, ops: ctx.range(0, 4), bases: ctx.range(1, 3), extend: ctx.chance(1, 2) };
    }
    Shape {
        mixed,
        max_nv: [3usize, 2, 1, 4, 5][ctx.pick(5)],
        max_deg: match ctx.draw(12) {
            11 => 14,
            10 => 9,
            _ => 4,
        },
        ops: ctx.range(0, 9),
        bases: ctx.range(1, 6),
        extend: ctx.chance(1, 2),
    }
}
/// A column that resembles another: the same rows, continued, cut, repeated,
/// negated, reversed, or different in one row.
pub fn relative(ctx: &mut Ctx, like: &[F], nv: usize) -> Vec<F> {
    let (n, m) = (1usize << nv, like.len());
    match ctx.draw(7) {
        0 => (0..n).map(|i| if i < m { like[i] } else { f(0) }).collect(),
        1 => (0..n).map(|i| if i < m { like[i] } else { any_f(ctx) }).collect(),
        2 => (0..n).map(|i| like[i % m]).collect(),
        3 => (0..n).map(|i| like[i * m / n]).collect(),
        4 => (0..n).map(|i| -like[i % m]).collect(),
        5 => (0..n).map(|i| like[m - 1 - i % m]).collect(),
        _ => {
            let r = a_row(ctx, n);
            (0..n).map(|i| if i == r { any_f(ctx) } else { like[i % m] }).collect()
        }
    }
}
/// Base columns and arithmetic over them.
pub fn arithmetic(ctx: &mut Ctx, p: &mut Program, sh: &Shape, reads: bool) -> Vec<C> {
    let mut live: Vec<C> = vec![];
    for i in 0..sh.bases {
        let nv = if sh.mixed && i > 0 { ctx.range(1, sh.max_nv) } else { sh.max_nv };
        let vals: Vec<F> = match ctx.draw(8) {
            0 => vec![f(0); 1 << nv],
            1 => selector(ctx, nv),
            6 | 7 if i > 0 => {
                let like = p.v(live[ctx.pick(live.len())]).clone();
                relative(ctx, &like, nv)
            }
            2 => {
                let x = any_f(ctx);
                vec![x; 1 << nv]
            }
            _ => (0..1 << nv).map(|_| any_f(ctx)).collect(),
        };
        live.push(if ctx.chance(1, 8) && i > 0 { p.uncommitted(vals) } else { p.commit(vals) });
    }
    for _ in 0..sh.ops {
        op(ctx, p, &mut live, sh, reads);
    }
    live
}
pub fn op(ctx: &mut Ctx, p: &mut Program, live: &mut Vec<C>, sh: &Shape, reads: bool) {
    let a = live[ctx.pick(live.len())];
    let same: Vec<C> = live.iter().copied().filter(|c| p.nv(*c) == p.nv(a)).collect();
    let b = same[ctx.pick(same.len())];
    let (ca, cb) = (p.cols[a].clone(), p.cols[b].clone());
    let kind = ctx.draw(11);
    let new = match kind {
        0 | 1 if ca.terms + cb.terms <= 48 => p.push(Step::Add(a, b)),
        2 if ca.terms + cb.terms <= 48 => p.push(Step::Sub(a, b)),
        3 | 4 | 9 if ca.terms * cb.terms <= 32 && ca.deg + cb.deg <= sh.max_deg => p.push(Step::Mul(a, b)),
        5 if ca.terms < 48 => {
            let k = any_f(ctx);
            p.push(Step::AddS(a, k))
        }
        6 => {
            let k = any_f(ctx);
            p.push(Step::MulS(a, k))
        }
        7 | 8 if sh.extend && p.nv(a) < (sh.max_nv + 1).min(6) => {
            let room = (sh.max_nv + 1 - p.nv(a)).min(6 - p.nv(a));
            // now and then by no variable at all
            let k = if ctx.chance(1, 8) { 0 } else { ctx.range(1, room) };
            if kind == 7 {
                p.push(Step::Front(a, k))
            } else {
                p.push(Step::Back(a, k))
            }
        }
        10 if reads => {
            p.push(Step::Read(a));
            return;
        }
        _ => return,
    };
    live.push(new);
}
/// Something that is not zero everywhere, often in a way that a test with
/// too little randomness overlooks.
pub fn error(ctx: &mut Ctx, nv: usize) -> Vec<F> {
    let n = 1usize << nv;
    let mut e = vec![f(0); n];
    let d = nonzero_f(ctx);
    let i = match ctx.draw(3) {
        0 => 0,
        1 => n - 1,
        _ => ctx.pick(n),
    };
    match ctx.draw(12) {
        // zero at every point whose coordinates are related: two equal, two
        // that add up to one, one the product of two
        k @ 9..=11 if nv > 1 => {
            let a = ctx.pick(nv);
            let b = match ctx.draw(4) {
                0 => nv - 1,
                1 => (a + 1) % nv,
                2 if nv > 8 => (a + 8) % nv,
                _ => ctx.pick(nv),
            };
            let b = if a == b { (a + 1) % nv } else { b };
            let c = ctx.pick(nv);
            let c = if c == a { b } else { c };
            let bit = |r: usize, j: usize| if (r >> j) & 1 == 1 { d } else { f(0) };
            for (r, x) in e.iter_mut().enumerate() {
                *x = match k {
                    9 => bit(r, a) - bit(r, b),
                    10 => bit(r, a) + bit(r, b) - d,
                    _ => (if (r >> a) & 1 == 1 { bit(r, c) } else { f(0) }) - bit(r, b),
                };
            }
        }
        // two rows that cancel: any, with equally many bits set, neighbours in
        // one dimension
        1 if n > 1 => {
            let j = (i + 1 + ctx.pick(n - 1)) % n;
            e[i] = d;
            e[j] = -d;
        }
        2 | 3 if nv > 1 => {
            let w = ctx.range(1, nv - 1) as u32;
            let same: Vec<usize> = (0..n).filter(|r| r.count_ones() == w).collect();
            let a = ctx.pick(same.len());
            let b = (a + 1 + ctx.pick(same.len() - 1)) % same.len();
            e[same[a]] = d;
            e[same[b]] = -d;
        }
        4 if n > 1 => {
            let b = 1 << ctx.pick(nv);
            e[i] = d;
            e[i ^ b] = -d;
        }
        5 => {
            for (r, x) in e.iter_mut().enumerate() {
                *x = if r.count_ones() % 2 == 0 { d } else { -d };
            }
        }
        6 if n > 1 => {
            // everywhere, in sum zero
            for x in e.iter_mut() {
                *x = any_f(ctx);
            }
            let s: F = e.iter().sum();
            e[i] -= s;
        }
        7 => e = vec![d; n],
        _ => e[i] = d,
    }
    if e.iter().all(|x| x.is_zero()) {
        e[i] = d;
    }
    e
}
/// Claim a column zero, sometimes beside what it truly sums to, sometimes twice.
pub fn zero_claim(ctx: &mut Ctx, p: &mut Program, z: C) {
    let k: F = p.v(z).iter().sum();
    let beside = ctx.draw(6);
    if beside == 5 {
        p.push(Step::Sum(z, k, false));
    }
    p.push(Step::Zero(z));
    if beside == 4 {
        p.push(Step::Sum(z, k, false));
    }
    for _ in 0..ctx.draw(12) / 10 {
        p.push(Step::Zero(z));
    }
}
/// Claims whose falsities cancel when they are weighted alike, among true
/// ones, in any order.
pub fn cancelling(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    let nv = ctx.range(1, 3);
    let n = ctx.range(2, 4);
    let mut todo: Vec<(bool, Vec<F>, F)> = vec![]; // zero claim?, error column, error of the sum
    match ctx.draw(4) {
        0 => {
            let mut tot = vec![f(0); 1 << nv];
            for _ in 0..n - 1 {
                let e = error(ctx, nv);
                tot.iter_mut().zip(&e).for_each(|(t, x)| *t += x);
                todo.push((true, e, f(0)));
            }
            todo.push((true, tot.iter().map(|x| -*x).collect(), f(0)));
        }
        1 => {
            let mut tot = f(0);
            for _ in 0..n - 1 {
                let d = nonzero_f(ctx);
                tot += d;
                todo.push((false, vec![], d));
            }
            todo.push((false, vec![], -tot));
        }
        2 => {
            // one error in both kinds of claim
            let d = nonzero_f(ctx);
            let mut e = error(ctx, nv);
            let t: F = e.iter().sum();
            e[0] += d - t;
            todo.push((true, e, f(0)));
            todo.push((false, vec![], -d));
        }
        _ => {
            // one column, claimed more than once
            let d = nonzero_f(ctx);
            todo.push((false, vec![], f(0)));
            todo.push((false, vec![], d));
        }
    }
    let one = ctx.chance(1, 2);
    for _ in 0..ctx.pick(3) {
        let b = ctx.chance(1, 2);
        todo.push((b, vec![f(0); 1 << nv], f(0)));
    }
    ctx.shuffle(&mut todo);
    let v: Vec<F> = (0..1 << nv).map(|_| any_f(ctx)).collect();
    let base = p.commit(v);
    for (zero, e, d) in todo {
        if zero {
            let e = if lie { e } else { vec![f(0); 1 << nv] };
            let z = match ctx.draw(3) {
                0 => p.commit(e),
                1 => p.uncommitted(e),
                _ => {
                    let c = p.commit(p.v(base).iter().zip(&e).map(|(x, y)| *x + y).collect());
                    p.push(Step::Sub(c, base))
                }
            };
            zero_claim(ctx, p, z);
        } else {
            let c = if one {
                base
            } else {
                let v = (0..1 << nv).map(|_| any_f(ctx)).collect();
                p.commit(v)
            };
            let k: F = p.v(c).iter().sum::<F>() + if lie { d } else { f(0) };
            p.push(Step::Sum(c, k, false));
        }
    }
}
/// Both parties draw a challenge, or put a value of their own into the transcript.
pub fn talk(ctx: &mut Ctx, p: &mut Program) {
    if ctx.chance(1, 4) {
        let x = any_f(ctx);
        p.push(Step::Say(x));
    } else {
        p.push(Step::Challenge);
    }
}
/// A claim about a live column; true unless `lie`.
pub fn claim(ctx: &mut Ctx, p: &mut Program, live: &[C], lie: bool) {
    let t = live[ctx.pick(live.len())];
    if ctx.chance(1, 2) {
        let mut d = p.v(t).clone();
        if lie {
            let nv = p.nv(t);
            d.iter_mut().zip(error(ctx, nv)).for_each(|(x, e)| *x += e);
        }
        let c = p.commit(d);
        let z = if ctx.chance(1, 2) { p.push(Step::Sub(t, c)) } else { p.push(Step::Sub(c, t)) };
        zero_claim(ctx, p, z);
    } else {
        let k: F = p.v(t).iter().sum();
        let e = if lie { nonzero_f(ctx) } else { f(0) };
        // sometimes claimed twice, the lie first or last
        let twice = ctx.draw(6);
        if twice == 5 {
            p.push(Step::Sum(t, k, false));
        }
        p.push(Step::Sum(t, k + e, false));
        if twice == 4 {
            p.push(Step::Sum(t, k, false));
        }
    }
}
pub fn tracker_program(ctx: &mut Ctx, lie: bool) -> Program {
    mood(ctx);
    let mut p = Program::new();
    let sh = shape(ctx);
    let reads = ctx.chance(1, 3);
    let mut live = arithmetic(ctx, &mut p, &sh, reads);
    let n = match ctx.draw(6) {
        0 => 1,
        _ => ctx.range(1, 5),
    };
    let liar = if lie { ctx.pick(n) } else { n };
    for i in 0..n {
        if ctx.chance(1, 4) {
            talk(ctx, &mut p);
        }
        claim(ctx, &mut p, &live, i == liar);
        if ctx.chance(1, 3) {
            op(ctx, &mut p, &mut live, &sh, reads);
        }
    }
    own_sums(ctx, &mut p);
    p
}
/// Hundreds of columns and dozens of claims in one session.
pub fn long(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    let nv = ctx.range(1, 2);
    let phases = ctx.range(2, 5);
    let liar = if lie { ctx.pick(phases) } else { phases };
    let sh = Shape { mixed: true, max_nv: nv, max_deg: 3, ops: 0, bases: 0, extend: false };
    let mut live: Vec<C> = vec![];
    for i in 0..phases {
        let commits = match ctx.draw(40) {
            1 | 2 | 3 => ctx.range(30, 140),
            4 => ctx.range(250, 270),
            _ => ctx.range(1, 12),
        };
        for _ in 0..commits {
            let n = if ctx.chance(1, 4) { 1 } else { nv };
            let v: Vec<F> = (0..1 << n).map(|_| any_f(ctx)).collect();
            live.push(p.commit(v));
        }
        // column numbers grow on
        let more = [0usize, 20, 120, 250, 256, 300][ctx.pick(6)];
        let to = p.cols.len() + more;
        while p.cols.len() < to {
            if ctx.chance(1, 16) {
                op(ctx, p, &mut live, &sh, false);
                continue;
            }
            let c = live[ctx.pick(live.len())];
            p.push(Step::MulS(c, f(3)));
        }
        let n = match ctx.draw(32) {
            1..=7 => ctx.range(8, 40),
            8 | 9 => ctx.range(100, 280),
            _ => ctx.range(1, 4),
        };
        let k = ctx.pick(n);
        for j in 0..n {
            claim(ctx, p, &live, i == liar && j == k);
        }
    }
}
/// Where all sizes agree the verifier may state the sums itself.
pub fn own_sums(ctx: &mut Ctx, p: &mut Program) {
    if p.uniform() {
        for s in p.steps.iter_mut() {
            if let Step::Sum(_, _, own) = s {
                *own = ctx.chance(1, 2);
            }
        }
    }
}
/// Parameters at least as large as the session needs.
pub fn srs_size(ctx: &mut Ctx, p: &Program) -> usize {
    (p.max_nv + [0usize, 0, 1, 2, 0][ctx.pick(5)]).clamp(1, MAX_NV.max(p.max_nv))
}
/// A few columns of many rows; the falsity is one that too little randomness
/// overlooks.
pub fn tall(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    let nv = ctx.range(7, TALL_NV - 1);
    let n = ctx.range(1, 3);
    let random = |ctx: &mut Ctx| -> Vec<F> {
        let mut g = Prng::new(ctx.seed64());
        (0..1usize << nv).map(|_| f(g.next() % 5000)).collect()
    };
    let cs: Vec<C> = (0..n).map(|_| { let v = random(ctx); p.commit(v) }).collect();
    let mut m = cs[0];
    for c in &cs[1..] {
        m = p.push(Step::Mul(m, *c));
    }
    let k = ctx.range(1, 2);
    let liar = ctx.pick(k);
    for i in 0..k {
        let lie = lie && i == liar;
        if ctx.chance(2, 3) {
            let e = if lie { error(ctx, nv) } else { vec![f(0); 1 << nv] };
            let d = p.commit(p.v(m).iter().zip(&e).map(|(x, y)| *x + y).collect());
            let z = p.push(Step::Sub(m, d));
            p.push(Step::Zero(z));
        } else {
            let s = p.v(m).iter().sum::<F>() + if lie { nonzero_f(ctx) } else { f(0) };
            p.push(Step::Sum(m, s, false));
        }
    }
}

// ---------------------------------------------------------------- gadgets

fn nv_small(ctx: &mut Ctx) -> usize {
    match ctx.draw(20) {
        0 => 5,
        k => [2usize, 1, 3, 4, 3, 2][k as usize % 6],
    }
}
/// Now and then so many rows that a value occurs hundreds of times.
fn crowd(ctx: &mut Ctx, nv: usize) -> usize {
    if ctx.chance(1, 40) {
        ctx.range(8, 9)
    } else {
        nv
    }
}
fn nv_mid(ctx: &mut Ctx) -> usize {
    nv_small(ctx).min(if ctx.chance(1, 12) { 4 } else { 3 })
}
fn nv_sort(ctx: &mut Ctx) -> usize {
    match ctx.draw(24) {
        0 => 6,
        1 | 2 => 5,
        k => [2usize, 1, 3, 4, 3, 2][k as usize % 6],
    }
}

pub fn bag_eq(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    mood(ctx);
    let nv = nv_small(ctx);
    let nv = crowd(ctx, nv);
    let pl = pool(ctx);
    let k = fill(ctx, 1 << nv);
    let mut items = from_pool(ctx, &pl, k);
    let (mut av, mut asel) = place(ctx, &items, nv);
    ctx.shuffle(&mut items);
    let (mut bv, mut bs) = place(ctx, &items, nv);
    if lie {
        damage(ctx, &mut [(&mut av, K::Val), (&mut bv, K::Val), (&mut asel, K::Sel), (&mut bs, K::Sel)]);
    }
    let (a, b) = (bag(ctx, p, (av, asel)), bag(ctx, p, (bv, bs)));
    p.push(Step::BagEq(a, b));
}
pub fn bag_sum(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    if ctx.chance(1, 7) {
        return views(ctx, p, lie, 4);
    }
    mood(ctx);
    let (na, nb) = (nv_mid(ctx), nv_mid(ctx));
    let nb = alike(ctx, na, nb);
    let na = crowd(ctx, na);
    let pl = pool(ctx);
    let (ka, kb) = (fill(ctx, 1 << na), fill(ctx, 1 << nb));
    let (x, y) = (from_pool(ctx, &pl, ka), from_pool(ctx, &pl, kb));
    let mut z: Vec<F> = x.iter().chain(&y).copied().collect();
    ctx.shuffle(&mut z);
    let nc = log2_at_least(z.len()) + if ctx.chance(1, 4) { 1 } else { 0 };
    let (mut a, mut b, mut c) = (place(ctx, &x, na), place(ctx, &y, nb), place(ctx, &z, nc));
    if lie {
        damage(
            ctx,
            &mut [
                (&mut a.0, K::Val),
                (&mut b.0, K::Val),
                (&mut c.0, K::Val),
                (&mut a.1, K::Sel),
                (&mut b.1, K::Sel),
                (&mut c.1, K::Sel),
            ],
        );
    }
    let (a, b, c) = (bag(ctx, p, a), bag(ctx, p, b), bag(ctx, p, c));
    p.push(Step::BagSum(a, b, c));
}
pub fn multi(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    mood(ctx);
    let pl = pool(ctx);
    let (nf, ng) = (few(ctx, 1, 3), few(ctx, 1, 3));
    let mut side = |ctx: &mut Ctx, n: usize| -> Vec<(Vec<F>, Vec<F>, Vec<F>)> {
        (0..n)
            .map(|_| {
                let nv = nv_mid(ctx);
                let v = from_pool(ctx, &pl, 1 << nv);
                let s = selector(ctx, nv);
                let m = (0..1 << nv).map(|_| any_f(ctx)).collect();
                (v, s, m)
            })
            .collect()
    };
    let mut fs = side(ctx, nf);
    let mut gs = side(ctx, ng);
    // the last bag of the right side absorbs the difference
    let mut diff: BTreeMap<F, F> = BTreeMap::new();
    for (bags, sg) in [(&fs, f(1)), (&gs, -f(1))] {
        for (v, s, m) in bags.iter() {
            for i in 0..v.len() {
                *diff.entry(v[i]).or_insert(f(0)) += sg * s[i] * m[i];
            }
        }
    }
    diff.retain(|_, w| !w.is_zero());
    let nv = log2_at_least(diff.len().max(1));
    let items: Vec<F> = diff.keys().copied().collect();
    let (v, s) = place(ctx, &items, nv);
    let m = v.iter().zip(&s).map(|(x, s)| if s.is_zero() { any_f(ctx) } else { diff[x] }).collect();
    gs.push((v, s, m));
    if lie {
        let i = ctx.pick(fs.len() + gs.len());
        let (v, s, m) = if i < fs.len() { &mut fs[i] } else { &mut gs[i - nf] };
        damage(ctx, &mut [(v, K::Val), (m, K::Val), (s, K::Sel)]);
    }
    let mut put = |ctx: &mut Ctx, bags: Vec<(Vec<F>, Vec<F>, Vec<F>)>| -> (Vec<B>, Vec<C>) {
        let mut bs = vec![];
        let mut ms = vec![];
        for (v, s, m) in bags {
            bs.push(bag(ctx, p, (v, s)));
            ms.push(col(ctx, p, m));
        }
        (bs, ms)
    };
    let (fb, fm) = put(ctx, fs);
    let (gb, gm) = put(ctx, gs);
    p.push(Step::Multi(fb, gb, fm, gm));
}
pub fn incl(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    if ctx.chance(1, 7) {
        return views(ctx, p, lie, 5);
    }
    mood(ctx);
    let (na, nb) = (nv_small(ctx), nv_small(ctx));
    let nb = alike(ctx, na, nb);
    let na = crowd(ctx, na);
    let pl = pool(ctx);
    let kb = fill(ctx, 1 << nb);
    let y = from_pool(ctx, &pl, kb);
    let ka = if y.is_empty() { 0 } else { fill(ctx, 1 << na) };
    let x = if ka == 0 { vec![] } else { from_pool(ctx, &y, ka) };
    let (mut a, mut b) = (place(ctx, &x, na), place(ctx, &y, nb));
    let advice = ctx.chance(1, 2);
    let mut m: Vec<F> = vec![f(0); 1 << nb];
    if advice {
        // spread each multiplicity over the equal rows in any way
        let mut left: BTreeMap<F, F> = weights(x.iter().map(|v| (v, f(1))));
        for i in 0..m.len() {
            if b.1[i].is_zero() {
                m[i] = any_f(ctx);
            } else if let Some(w) = left.get_mut(&b.0[i]) {
                let more = (i + 1..m.len()).any(|j| !b.1[j].is_zero() && b.0[j] == b.0[i]);
                let take = if more && ctx.chance(1, 2) { any_f(ctx) } else { *w };
                m[i] = take;
                *w -= take;
            }
        }
    }
    if lie {
        if advice {
            damage(ctx, &mut [(&mut a.0, K::Val), (&mut b.0, K::Val), (&mut m, K::Val), (&mut a.1, K::Sel), (&mut b.1, K::Sel)]);
        } else {
            damage(ctx, &mut [(&mut a.0, K::Val), (&mut b.0, K::Val), (&mut a.1, K::Sel), (&mut b.1, K::Sel)]);
        }
    }
    let (a, b) = (bag(ctx, p, a), bag(ctx, p, b));
    let m = if advice { Some(col(ctx, p, m)) } else { None };
    p.push(Step::Incl(a, b, m));
}
pub fn no_zeros(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    mood(ctx);
    let nv = nv_small(ctx);
    let k = fill(ctx, 1 << nv);
    let items: Vec<F> = (0..k).map(|_| nonzero_f(ctx)).collect();
    let mut a = place(ctx, &items, nv);
    if lie {
        if ctx.chance(1, 2) && k > 0 {
            let rows: Vec<usize> = (0..a.1.len()).filter(|i| a.1[*i].is_one()).collect();
            let r = rows[ctx.pick(rows.len())];
            a.0[r] = f(0);
        } else {
            damage(ctx, &mut [(&mut a.0, K::Val), (&mut a.1, K::Sel)]);
        }
    }
    let a = bag(ctx, p, a);
    p.push(Step::NoZeros(a));
}
pub fn sel_valid(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    mood(ctx);
    let nv = nv_small(ctx);
    let mut s = selector(ctx, nv);
    if lie {
        damage(ctx, vals![&mut s]);
    }
    let c = col(ctx, p, s);
    p.push(Step::SelValid(c));
}
pub fn perm(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    mood(ctx);
    let nv = nv_small(ctx);
    let n = 1usize << nv;
    let pl = pool(ctx);
    let mut a = from_pool(ctx, &pl, n);
    let mut pm: Vec<usize> = (0..n).collect();
    ctx.shuffle(&mut pm);
    let mut b: Vec<F> = pm.iter().map(|i| a[*i]).collect();
    let mut pc: Vec<F> = pm.iter().map(|i| f(*i as u64)).collect();
    if lie {
        damage(ctx, vals![&mut a, &mut b, &mut pc]);
    }
    let s1 = if ctx.chance(1, 2) { vec![f(1); n] } else { selector(ctx, nv) };
    let s2 = if ctx.chance(1, 2) { vec![f(1); n] } else { selector(ctx, nv) };
    let (a, b) = (bag(ctx, p, (a, s1)), bag(ctx, p, (b, s2)));
    let c = col(ctx, p, pc);
    p.push(Step::Perm(a, b, c));
}
fn offset(ctx: &mut Ctx, v: &mut [F]) {
    if ctx.chance(1, 4) {
        // far from zero, but clear of the field's wrap-around
        let k = pow2(64 + ctx.pick(180)) + f(ctx.draw(1 << 20));
        for x in v.iter_mut() {
            *x += k;
        }
    }
}
pub fn sort(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    mood(ctx);
    let nv = nv_sort(ctx);
    let g = gap(ctx);
    let k = fill(ctx, 1 << nv);
    let set = increasing(ctx, k, g);
    let (mut v, mut s) = sorted_bag(ctx, &set, nv, g);
    offset(ctx, &mut v);
    if lie {
        let n = v.len();
        match ctx.draw(4) {
            0 => {
                // two neighbours equal
                let i = a_row(ctx, n - 1);
                v[i + 1] = v[i];
            }
            1 => {
                let i = a_row(ctx, n - 1);
                v.swap(i, i + 1);
            }
            _ => damage(ctx, &mut [(&mut v, K::Val), (&mut s, K::Sel)]),
        }
    }
    let b = bag(ctx, p, (v, s));
    let r = range(ctx, p, g);
    p.push(Step::Sort(b, r));
}
/// a bag over the given set, each element at least once
fn cover(ctx: &mut Ctx, set: &[u64], nv: usize) -> Vec<F> {
    let len = 1usize << nv;
    let mut items: Vec<F> = set.iter().map(|x| f(*x)).collect();
    if !items.is_empty() {
        let extra = ctx.range(0, len - items.len());
        for _ in 0..extra {
            let x = items[ctx.pick(set.len())];
            items.push(x);
        }
    }
    ctx.shuffle(&mut items);
    items
}
fn set_size(ctx: &mut Ctx, len: usize) -> usize {
    match ctx.draw(6) {
        0 => len,
        1 => 0,
        2 => 1,
        _ => ctx.range(0, len),
    }
}
pub fn supp(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    if ctx.chance(1, 7) {
        return views(ctx, p, lie, 7);
    }
    mood(ctx);
    let (na, ns) = (nv_small(ctx), nv_mid(ctx));
    let ns = alike(ctx, na.min(4), ns);
    let g = gap(ctx);
    let k = set_size(ctx, 1 << na.min(ns));
    let (na, k) = if na > 1 { let n = crowd(ctx, na); (n, if n > 7 { k.min(2) } else { k }) } else { (na, k) };
    let set = increasing(ctx, k, g);
    let items = cover(ctx, &set, na);
    let mut a = place(ctx, &items, na);
    let mut s = sorted_bag(ctx, &set, ns, g);
    if ctx.chance(1, 6) {
        let k = pow2(64 + ctx.pick(180));
        for x in a.0.iter_mut().chain(s.0.iter_mut()) {
            *x += k;
        }
    }
    let count = weights(a.0.iter().zip(&a.1).map(|(v, s)| (v, *s)));
    let mut m: Vec<F> = (0..1 << ns)
        .map(|i| if s.1[i].is_zero() { f(ctx.draw(3)) } else { count.get(&s.0[i]).copied().unwrap_or(f(0)) })
        .collect();
    let advice = ctx.chance(1, 2);
    if lie {
        match ctx.draw(4) {
            0 if !set.is_empty() => {
                // drop a group
                let rows: Vec<usize> = (0..s.1.len()).filter(|i| s.1[*i].is_one()).collect();
                let r = rows[ctx.pick(rows.len())];
                s.1[r] = f(0);
                if ctx.chance(1, 2) {
                    m[r] = f(0);
                }
            }
            1 => {
                // claim a group that is not there
                let rows: Vec<usize> = (0..s.1.len()).filter(|i| s.1[*i].is_zero()).collect();
                if !rows.is_empty() {
                    let r = rows[ctx.pick(rows.len())];
                    s.1[r] = f(1);
                    m[r] = f(0);
                }
            }
            _ => {
                let mut c = vec![(&mut a.0, K::Val), (&mut s.0, K::Val), (&mut a.1, K::Sel), (&mut s.1, K::Sel)];
                if advice {
                    c.push((&mut m, K::Val));
                }
                damage(ctx, &mut c)
            }
        }
    }
    let (a, s) = (bag(ctx, p, a), bag(ctx, p, s));
    let m = if advice { Some(col(ctx, p, m)) } else { None };
    let r = range(ctx, p, g);
    p.push(Step::Supp(a, s, m, r));
}
/// split an increasing set into two
fn split2(ctx: &mut Ctx, set: &[u64]) -> (Vec<u64>, Vec<u64>) {
    let mut x = vec![];
    let mut y = vec![];
    for (i, v) in set.iter().enumerate() {
        if if tidy() { i % 2 == 0 } else { ctx.chance(1, 2) } {
            x.push(*v)
        } else {
            y.push(*v)
        }
    }
    (x, y)
}
pub fn bag_disjoint(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    if ctx.chance(1, 7) {
        return views(ctx, p, lie, 0);
    }
    mood(ctx);
    let (na, nb) = (nv_mid(ctx), nv_mid(ctx));
    let nb = alike(ctx, na, nb);
    let g = gap(ctx);
    let k = set_size(ctx, 1 << na.min(nb));
    let n = crowd(ctx, 0);
    let (na, nb, k) = match n {
        0 => (na, nb, k),
        8 => (n, nb, k.min(2)),
        _ => (na, n, k.min(3)),
    };
    let set = increasing(ctx, k, g);
    let (x, y) = split2(ctx, &set);
    let (ix, iy) = (cover(ctx, &x, na), cover(ctx, &y, nb));
    let (mut a, mut b) = (place(ctx, &ix, na), place(ctx, &iy, nb));
    let advice = ctx.chance(1, 3);
    if !advice {
        if lie {
            overlap(ctx, &mut a, &mut b);
        }
        let (a, b) = (bag(ctx, p, a), bag(ctx, p, b));
        let r = range(ctx, p, g);
        p.push(Step::BagDisjoint(a, b, None, r));
        return;
    }
    let nc = log2_at_least(set.len().max(1)) + ctx.pick(2);
    let mut c = sorted_bag(ctx, &set, nc, g);
    let mult = |v: &(Vec<F>, Vec<F>)| weights(v.0.iter().zip(&v.1).map(|(v, s)| (v, *s)));
    let (wa, wb) = (mult(&a), mult(&b));
    let mut ma: Vec<F> = vec![];
    let mut mb: Vec<F> = vec![];
    for i in 0..c.0.len() {
        if c.1[i].is_zero() {
            let x = any_f(ctx);
            let left = ctx.chance(1, 2);
            ma.push(if left { x } else { f(0) });
            mb.push(if left { f(0) } else { x });
        } else {
            ma.push(wa.get(&c.0[i]).copied().unwrap_or(f(0)));
            mb.push(wb.get(&c.0[i]).copied().unwrap_or(f(0)));
        }
    }
    if lie {
        if ctx.chance(1, 3) {
            // a shared element, honestly counted on both sides
            overlap(ctx, &mut a, &mut b);
            let (wa, wb) = (mult(&a), mult(&b));
            for i in 0..c.0.len() {
                if c.1[i].is_one() {
                    ma[i] = wa.get(&c.0[i]).copied().unwrap_or(f(0));
                    mb[i] = wb.get(&c.0[i]).copied().unwrap_or(f(0));
                }
            }
        } else if !x.is_empty() && (0..c.0.len() - 1).any(|i| c.1[i].is_zero()) && ctx.chance(1, 3) {
            // a shared element, listed twice, once for each side
            let e = f(x[ctx.pick(x.len())]);
            let r = ctx.pick(b.0.len());
            b.0[r] = e;
            b.1[r] = f(1);
            let twin = (0..c.0.len()).find(|i| c.1[*i].is_one() && c.0[*i] == e).unwrap();
            let free: Vec<usize> = (0..c.0.len()).filter(|i| c.1[*i].is_zero()).collect();
            // beside it where the column stays in order
            let q = *free.iter().min_by_key(|i| i.abs_diff(twin)).unwrap();
            c.0[q] = e;
            c.1[q] = f(1);
            let wb = mult(&b);
            for i in 0..c.0.len() {
                if c.1[i].is_one() {
                    mb[i] = if i == twin { f(0) } else { wb.get(&c.0[i]).copied().unwrap_or(f(0)) };
                }
            }
            (ma[q], mb[twin]) = (f(0), f(0));
        } else {
            damage(
                ctx,
                &mut [
                    (&mut a.0, K::Val),
                    (&mut b.0, K::Val),
                    (&mut c.0, K::Val),
                    (&mut ma, K::Val),
                    (&mut mb, K::Val),
                    (&mut a.1, K::Sel),
                    (&mut b.1, K::Sel),
                    (&mut c.1, K::Sel),
                ],
            )
        }
    }
    let (a, b, c) = (bag(ctx, p, a), bag(ctx, p, b), bag(ctx, p, c));
    let (ma, mb) = (col(ctx, p, ma), col(ctx, p, mb));
    let r = range(ctx, p, g);
    p.push(Step::BagDisjoint(a, b, Some((c, ma, mb)), r));
}
/// Give two bags a shared element, or damage either.
fn overlap(ctx: &mut Ctx, a: &mut (Vec<F>, Vec<F>), b: &mut (Vec<F>, Vec<F>)) {
    let ra: Vec<usize> = (0..a.0.len()).filter(|i| a.1[*i].is_one()).collect();
    if !ra.is_empty() && ctx.chance(3, 4) {
        let x = a.0[ra[ctx.pick(ra.len())]];
        let r = ctx.pick(b.0.len());
        b.0[r] = x;
        if !ctx.chance(1, 8) {
            b.1[r] = f(1);
        }
    } else {
        damage(ctx, &mut [(&mut a.0, K::Val), (&mut b.0, K::Val), (&mut a.1, K::Sel), (&mut b.1, K::Sel)]);
    }
}
fn fs(x: &[u64]) -> Vec<F> {
    x.iter().map(|v| f(*v)).collect()
}
fn shuffled(ctx: &mut Ctx, x: &[u64]) -> Vec<F> {
    let mut v = fs(x);
    ctx.shuffle(&mut v);
    v
}
pub fn set_disjoint(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    if ctx.chance(1, 7) {
        return views(ctx, p, lie, 0);
    }
    mood(ctx);
    let (na, nb) = (nv_mid(ctx), nv_mid(ctx));
    let nb = alike(ctx, na, nb);
    let g = gap(ctx);
    let k = set_size(ctx, 1 << na.min(nb));
    let set = increasing(ctx, k, g);
    let (x, y) = split2(ctx, &set);
    let (ix, iy) = (shuffled(ctx, &x), shuffled(ctx, &y));
    let (mut a, mut b) = (place(ctx, &ix, na), place(ctx, &iy, nb));
    if lie {
        overlap(ctx, &mut a, &mut b);
    }
    let (a, b) = (bag(ctx, p, a), bag(ctx, p, b));
    let r = range(ctx, p, g);
    p.push(Step::SetDisjoint(a, b, r));
}
pub fn union(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    if ctx.chance(1, 7) {
        return views(ctx, p, lie, 1);
    }
    mood(ctx);
    let (na, nb) = (nv_mid(ctx), nv_mid(ctx));
    let nb = alike(ctx, na, nb);
    let g = gap(ctx);
    let k = set_size(ctx, 1 << na.min(nb));
    let set = increasing(ctx, k, g);
    let mut x = vec![];
    let mut y = vec![];
    for (i, v) in set.iter().enumerate() {
        match if tidy() { i as u64 % 3 } else { ctx.draw(3) } {
            0 => x.push(*v),
            1 => y.push(*v),
            _ => {
                x.push(*v);
                y.push(*v)
            }
        }
    }
    let (ix, iy) = (shuffled(ctx, &x), shuffled(ctx, &y));
    let (mut a, mut b) = (place(ctx, &ix, na), place(ctx, &iy, nb));
    let nu = log2_at_least(set.len().max(1)) + ctx.pick(2);
    let mut u = sorted_bag(ctx, &set, nu, g);
    if lie {
        damage(
            ctx,
            &mut [
                (&mut a.0, K::Val),
                (&mut b.0, K::Val),
                (&mut u.0, K::Val),
                (&mut a.1, K::Sel),
                (&mut b.1, K::Sel),
                (&mut u.1, K::Sel),
            ],
        );
    }
    let (a, b, u) = (bag(ctx, p, a), bag(ctx, p, b), bag(ctx, p, u));
    let r = range(ctx, p, g);
    p.push(Step::Union(a, b, u, r));
}
/// A size for a part of a set: as the whole, no more than needed, or any.
fn part_nv(ctx: &mut Ctx, items: usize, whole: usize) -> usize {
    let least = log2_at_least(items.max(1));
    match ctx.draw(5) {
        0 | 1 => whole,
        2 | 3 => least,
        _ => least.max(nv_mid(ctx)),
    }
}
/// Sets that are selections of one column, as filters of one table would be;
/// some of them hold a copy of their own with other unselected rows.
fn views(ctx: &mut Ctx, p: &mut Program, lie: bool, kind: usize) {
    let nv = [2usize, 1, 3, 2, 3, 4][ctx.pick(6)];
    let n = 1usize << nv;
    let g = gap(ctx);
    let set = fs(&increasing(ctx, n, g));
    let style = ctx.draw(4);
    let class: Vec<u64> = (0..n)
        .map(|i| match style {
            0 => ctx.draw(4),
            1 => 1 + ctx.draw(3),
            // equal halves, alternating
            2 => 1 + (i as u64 % 3),
            _ => 1 + 2 * (i as u64 % 2),
        })
        .collect();
    // 0 in neither, 1 left only, 2 both, 3 right only
    let sel = |which: &[u64]| -> Vec<F> { class.iter().map(|c| f(which.contains(c) as u64)).collect() };
    let mut sels: Vec<Vec<F>> = match kind {
        0 => vec![sel(&[1]), sel(&[3])],                                           // disjoint
        1 => vec![sel(&[1, 2]), sel(&[2, 3]), sel(&[1, 2, 3])],                    // union
        2 => vec![sel(&[1, 2]), sel(&[2, 3]), sel(&[1]), sel(&[2])],               // difference
        3 => vec![sel(&[1, 2]), sel(&[2, 3]), sel(&[1]), sel(&[2]), sel(&[3])],    // intersection
        4 => vec![sel(&[1]), sel(&[2, 3]), sel(&[1, 2, 3])],                       // sum of bags
        5 => vec![sel(&[2]), sel(&[1, 2, 3])],                                     // inclusion
        6 => vec![sel(&[1, 2]), sel(&[2, 3])],                                     // join
        _ => vec![sel(&[1, 2]), sel(&[1, 2])],                                     // support
    };
    let mut extra: Vec<Vec<F>> = match kind {
        2 => vec![sel(&[2])],
        5 => vec![sel(&[2])],
        6 => vec![sel(&[1]), sel(&[3])],
        7 => vec![sel(&[1, 2])],
        _ => vec![],
    };
    if lie {
        for _ in 0..ctx.range(1, 2) {
            let (k, r) = (ctx.pick(sels.len() + extra.len()), ctx.pick(n));
            let c = if k < sels.len() { &mut sels[k] } else { &mut extra[k - sels.len()] };
            c[r] = f(1) - c[r];
        }
    }
    let base = p.commit(set.clone());
    let column = |ctx: &mut Ctx, p: &mut Program, v: Vec<F>| -> C {
        match p.cols.iter().rposition(|c| c.vals == v && !c.free) {
            Some(c) if ctx.chance(3, 4) => c,
            _ => p.commit(v),
        }
    };
    let mut b: Vec<B> = vec![];
    for s in sels {
        let v = if ctx.chance(1, 4) {
            let mut v = set.clone();
            for (x, s) in v.iter_mut().zip(&s) {
                if s.is_zero() && ctx.chance(1, 2) && kind != 1 && kind != 7 {
                    *x = garbage(ctx, &set);
                }
            }
            column(ctx, p, v)
        } else {
            base
        };
        let s = column(ctx, p, s);
        b.push(B { v, s });
    }
    let e: Vec<C> = extra.into_iter().map(|v| column(ctx, p, v)).collect();
    let advice = ctx.chance(1, 2);
    let mut n = b.into_iter();
    let mut n = || n.next().unwrap();
    let s = match kind {
        0 => {
            let (x, y) = (n(), n());
            let r = range(ctx, p, g);
            if advice { Step::SetDisjoint(x, y, r) } else { Step::BagDisjoint(x, y, None, r) }
        }
        1 => Step::Union(n(), n(), n(), range(ctx, p, g)),
        2 => Step::Diff(n(), n(), n(), n(), e[0], range(ctx, p, g)),
        3 => Step::Inter(n(), n(), n(), n(), n(), range(ctx, p, g)),
        4 => Step::BagSum(n(), n(), n()),
        5 => Step::Incl(n(), n(), if advice { Some(e[0]) } else { None }),
        6 => Step::JoinRed(n(), n(), e[0], e[1], range(ctx, p, g)),
        _ => Step::Supp(n(), n(), if advice { Some(e[0]) } else { None }, range(ctx, p, g)),
    };
    p.push(s);
}
/// three-way split: only left, both, only right
fn split3(ctx: &mut Ctx, set: &[u64]) -> (Vec<u64>, Vec<u64>, Vec<u64>) {
    let (mut l, mut m, mut r) = (vec![], vec![], vec![]);
    for (i, v) in set.iter().enumerate() {
        match if tidy() { i as u64 % 3 } else { ctx.draw(3) } {
            0 => l.push(*v),
            1 => m.push(*v),
            _ => r.push(*v),
        }
    }
    (l, m, r)
}
pub fn diff(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    if ctx.chance(1, 7) {
        return views(ctx, p, lie, 2);
    }
    mood(ctx);
    let (na, nb) = (nv_mid(ctx), nv_mid(ctx));
    let nb = alike(ctx, na, nb);
    let g = gap(ctx);
    let k = set_size(ctx, 1 << na.min(nb));
    let set = increasing(ctx, k, g);
    let (l, m, r) = split3(ctx, &set);
    let join = |x: &Vec<u64>, y: &Vec<u64>| x.iter().chain(y).copied().collect::<Vec<u64>>();
    let (xa, xb) = (join(&l, &m), join(&m, &r));
    let (ia, ib, il, im) = (shuffled(ctx, &xa), shuffled(ctx, &xb), shuffled(ctx, &l), shuffled(ctx, &m));
    let (nl, nm) = (part_nv(ctx, l.len(), na), part_nv(ctx, m.len(), na));
    let (mut a, mut b) = (place(ctx, &ia, na), place(ctx, &ib, nb));
    let (mut lb, mut mb) = (place(ctx, &il, nl), place(ctx, &im, nm));
    let mid: Vec<F> = fs(&m);
    let mut bm: Vec<F> =
        (0..b.0.len()).map(|i| if b.1[i].is_zero() { any_f(ctx) } else { f(mid.contains(&b.0[i]) as u64) }).collect();
    if lie {
        if ctx.chance(1, 3) && !m.is_empty() {
            // an element that is in both is kept as difference
            let x = mid[ctx.pick(mid.len())];
            let r = ctx.pick(lb.0.len());
            lb.0[r] = x;
            lb.1[r] = f(1);
            if ctx.chance(1, 2) {
                if let Some(q) = (0..mb.0.len()).find(|i| mb.1[*i].is_one() && mb.0[*i] == x) {
                    mb.1[q] = f(0);
                }
                if let Some(q) = (0..b.0.len()).find(|i| b.1[*i].is_one() && b.0[*i] == x) {
                    bm[q] = f(0);
                }
            }
        } else if !l.is_empty() && mb.1.iter().any(|x| x.is_zero()) && ctx.chance(1, 3) {
            // an element of the difference is passed off as shared, the rest agrees
            let x = f(l[ctx.pick(l.len())]);
            let from = (0..lb.0.len()).find(|i| lb.1[*i].is_one() && lb.0[*i] == x);
            let to = (0..mb.0.len()).find(|i| mb.1[*i].is_zero());
            if let (Some(i), Some(j)) = (from, to) {
                lb.1[i] = f(0);
                mb.0[j] = x;
                mb.1[j] = f(1);
            }
        } else {
            damage(
                ctx,
                &mut [
                    (&mut a.0, K::Val),
                    (&mut b.0, K::Val),
                    (&mut lb.0, K::Val),
                    (&mut mb.0, K::Val),
                    (&mut bm, K::Val),
                    (&mut a.1, K::Sel),
                    (&mut b.1, K::Sel),
                    (&mut lb.1, K::Sel),
                    (&mut mb.1, K::Sel),
                ],
            );
        }
    }
    let (a, b, l, m) = (bag(ctx, p, a), bag(ctx, p, b), bag(ctx, p, lb), bag(ctx, p, mb));
    let bm = col(ctx, p, bm);
    let r = range(ctx, p, g);
    p.push(Step::Diff(a, b, l, m, bm, r));
}
pub fn inter(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    if ctx.chance(1, 7) {
        return views(ctx, p, lie, 3);
    }
    mood(ctx);
    let (na, nb) = (nv_mid(ctx), nv_mid(ctx));
    let nb = alike(ctx, na, nb);
    let g = gap(ctx);
    let k = set_size(ctx, 1 << na.min(nb));
    let set = increasing(ctx, k, g);
    let (l, m, r) = split3(ctx, &set);
    let join = |x: &Vec<u64>, y: &Vec<u64>| x.iter().chain(y).copied().collect::<Vec<u64>>();
    let (xa, xb) = (join(&l, &m), join(&m, &r));
    let its: Vec<Vec<F>> = [&xa, &xb, &l, &m, &r].iter().map(|x| shuffled(ctx, x)).collect();
    let (nl, nm, nr) = (part_nv(ctx, l.len(), na), part_nv(ctx, m.len(), na.min(nb)), part_nv(ctx, r.len(), nb));
    let mut bags: Vec<(Vec<F>, Vec<F>)> =
        [na, nb, nl, nm, nr].iter().zip(&its).map(|(nv, it)| place(ctx, it, *nv)).collect();
    if lie {
        if ctx.chance(1, 3) && !m.is_empty() {
            // a shared element is declared private on both sides
            let x = f(m[ctx.pick(m.len())]);
            if let Some(q) = (0..bags[3].0.len()).find(|i| bags[3].1[*i].is_one() && bags[3].0[*i] == x) {
                bags[3].1[q] = f(0);
            }
            for k in [2, 4] {
                let free = (0..bags[k].0.len()).find(|i| bags[k].1[*i].is_zero());
                if let Some(r) = free {
                    bags[k].0[r] = x;
                    bags[k].1[r] = f(1);
                }
            }
        } else {
            let mut c: Vec<(&mut Vec<F>, K)> = vec![];
            for b in bags.iter_mut() {
                c.push((&mut b.0, K::Val));
                c.push((&mut b.1, K::Sel));
            }
            damage(ctx, &mut c);
        }
    }
    let bs: Vec<B> = bags.into_iter().map(|b| bag(ctx, p, b)).collect();
    let rg = range(ctx, p, g);
    let mut it = bs.into_iter();
    let mut n = || it.next().unwrap();
    p.push(Step::Inter(n(), n(), n(), n(), n(), rg));
}

// ---------------------------------------------------------------- tables

pub struct Tab {
    pub cols: Vec<Vec<F>>,
    pub sel: Vec<F>,
}
pub fn put(ctx: &mut Ctx, p: &mut Program, t: Tab) -> T {
    let cols = t.cols.into_iter().map(|c| col(ctx, p, c)).collect();
    let sel = col(ctx, p, t.sel);
    T { cols, sel }
}
pub fn tab(ctx: &mut Ctx, nv: usize, ncols: usize) -> Tab {
    let n = 1usize << nv;
    let pl = pool(ctx);
    Tab { cols: (0..ncols).map(|_| from_pool(ctx, &pl, n)).collect(), sel: selector(ctx, nv) }
}
/// Damage a table, cell-wise or by mixing rows.
pub fn damage_tab(ctx: &mut Ctx, t: &mut Tab) {
    let n = t.sel.len();
    let k = ctx.pick(t.cols.len());
    let mixed = t.cols.len() > 4 && ctx.chance(1, 2);
    match if mixed { 2 } else { ctx.draw(4) } {
        0 | 1 => {
            // exchange one column's cells between two rows
            let (i, j) = (ctx.pick(n), ctx.pick(n));
            t.cols[k].swap(i, j);
        }
        2 if t.cols.len() > 1 => {
            // exchange two cells of one row, or of all
            let i = ctx.pick(n);
            let l = (k + ctx.range(1, t.cols.len() - 1)) % t.cols.len();
            if ctx.chance(1, 4) {
                t.cols.swap(k, l);
            } else {
                let (x, y) = (t.cols[k][i], t.cols[l][i]);
                t.cols[k][i] = y;
                t.cols[l][i] = x;
            }
        }
        _ => {
            let Tab { cols, sel } = t;
            damage(ctx, &mut [(&mut cols[k], K::Val), (sel, K::Sel)]);
        }
    }
}
pub fn index(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    mood(ctx);
    let (na, nb) = (nv_mid(ctx), nv_mid(ctx));
    let nb = alike(ctx, na, nb);
    let nc = match ctx.draw(8) {
        7 => ctx.range(5, 13),
        _ => few(ctx, 1, 4),
    };
    let a = tab(ctx, na, nc);
    let rows: Vec<usize> = (0..1 << na).filter(|i| a.sel[*i].is_one()).collect();
    let mut sel = selector(ctx, nb);
    if rows.is_empty() {
        sel = vec![f(0); 1 << nb];
    }
    let mut b = Tab { cols: vec![vec![]; nc], sel };
    for i in 0..1usize << nb {
        let r = if b.sel[i].is_one() { rows[ctx.pick(rows.len())] } else { ctx.pick(1 << na) };
        for c in 0..nc {
            b.cols[c].push(if b.sel[i].is_one() || ctx.chance(1, 2) { a.cols[c][r] } else { any_f(ctx) });
        }
    }
    let mut a = a;
    if lie {
        if ctx.chance(3, 4) {
            damage_tab(ctx, &mut b)
        } else {
            damage_tab(ctx, &mut a)
        }
    }
    let (a, b) = (put(ctx, p, a), put(ctx, p, b));
    p.push(Step::Index(a, b));
}
/// (primary table with distinct keys, foreign table whose keys all occur, key columns)
pub fn join_tables(ctx: &mut Ctx, na: usize, nb: usize) -> (Tab, Tab, usize, usize) {
    let (ca, cb) = (few(ctx, 1, 3), few(ctx, 1, 2));
    let (ai, bi) = (ctx.pick(ca), ctx.pick(cb));
    let mut a = tab(ctx, na, ca);
    let base = ctx.draw(4);
    let mut keys: Vec<F> = (0..1u64 << na).map(|i| f(base + 2 * i)).collect();
    ctx.shuffle(&mut keys);
    a.cols[ai] = keys;
    if ctx.chance(1, 3) {
        // de-activated rows may repeat a key
        for i in 0..1usize << na {
            if a.sel[i].is_zero() {
                a.cols[ai][i] = a.cols[ai][ctx.pick(1 << na)];
            }
        }
    }
    let rows: Vec<usize> = (0..1 << na).filter(|i| a.sel[*i].is_one()).collect();
    let mut b = tab(ctx, nb, cb);
    if tidy() && na == nb {
        b.sel = a.sel.clone();
    }
    for i in 0..1usize << nb {
        if rows.is_empty() {
            b.sel[i] = f(0);
        } else if b.sel[i].is_one() {
            b.cols[bi][i] = a.cols[ai][rows[ctx.pick(rows.len())]];
        } else if ctx.chance(1, 2) {
            b.cols[bi][i] = any_f(ctx);
        }
    }
    (a, b, ai, bi)
}
pub fn final_join(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    mood(ctx);
    let (na, nb) = (nv_mid(ctx), nv_mid(ctx));
    let nb = alike(ctx, na, nb);
    let (mut a, mut b, ai, bi) = join_tables(ctx, na, nb);
    let advice = ctx.chance(1, 2);
    let mut t: Vec<Vec<F>> = vec![];
    if advice {
        for c in 0..a.cols.len() {
            let mut v = vec![];
            for j in 0..1usize << nb {
                v.push(if b.sel[j].is_one() {
                    let k = b.cols[bi][j];
                    let i = (0..1 << na).find(|i| a.sel[*i].is_one() && a.cols[ai][*i] == k).unwrap();
                    a.cols[c][i]
                } else {
                    any_f(ctx)
                });
            }
            t.push(v);
        }
    }
    if lie {
        match ctx.draw(4) {
            0 => damage_tab(ctx, &mut a),
            1 => damage_tab(ctx, &mut b),
            _ if advice => {
                let mut tt = Tab { cols: t, sel: b.sel.clone() };
                let was = tt.sel.clone();
                damage_tab(ctx, &mut tt);
                tt.sel = was;
                t = tt.cols;
            }
            _ => damage(ctx, &mut [(&mut b.cols[bi], K::Val), (&mut b.sel, K::Sel)]),
        }
    }
    let (a, b) = (put(ctx, p, a), put(ctx, p, b));
    let adv = if advice { Some(t.into_iter().map(|c| col(ctx, p, c)).collect()) } else { None };
    p.push(Step::FinalJoin(a, b, ai, bi, adv));
}
pub fn join_red(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    if ctx.chance(1, 7) {
        return views(ctx, p, lie, 6);
    }
    mood(ctx);
    let (na, mut nb) = ([2usize, 1, 3][ctx.pick(3)], [2usize, 1, 3][ctx.pick(3)]);
    nb = alike(ctx, na, nb);
    // a table joined with itself
    let twin = ctx.chance(1, 8);
    if twin {
        nb = na;
    }
    let g = gap(ctx);
    let k = set_size(ctx, 1 << na.min(nb));
    let n = if twin { 0 } else if ctx.chance(1, 3) { crowd(ctx, 0) } else { 0 };
    let (na, nb, k) = match n {
        0 => (na, nb, k),
        8 => (n, nb, k.min(2)),
        _ => (na, n, k.min(3)),
    };
    let set = increasing(ctx, k, g);
    let (l, m, r) = if twin { (vec![], set.clone(), vec![]) } else { split3(ctx, &set) };
    let join = |x: &Vec<u64>, y: &Vec<u64>| x.iter().chain(y).copied().collect::<Vec<u64>>();
    let (xa, xb) = (join(&l, &m), join(&m, &r));
    let (ia, ib) = (cover(ctx, &xa, na), cover(ctx, &xb, nb));
    let (mut a, mut b) = (place(ctx, &ia, na), place(ctx, &ib, nb));
    if twin {
        b = a.clone();
    }
    let alone = |ctx: &mut Ctx, x: &(Vec<F>, Vec<F>), y: &[F]| -> Vec<F> {
        (0..x.0.len()).map(|i| if x.1[i].is_zero() { f(ctx.draw(2)) } else { f(!y.contains(&x.0[i]) as u64) }).collect()
    };
    let (mut ls, mut rs) = (alone(ctx, &a, &ib), alone(ctx, &b, &ia));
    if twin && ctx.chance(3, 4) {
        rs = ls.clone();
    }
    if lie {
        match ctx.draw(4) {
            0 | 1 => damage(ctx, &mut [(&mut ls, K::Sel), (&mut rs, K::Sel)]),
            2 => overlap(ctx, &mut a, &mut b),
            _ if !m.is_empty() => {
                // all rows of one shared key declared partnerless, on one or both sides
                let x = f(m[ctx.pick(m.len())]);
                let which = if twin { 2 } else { ctx.draw(3) };
                for (k, (bg, s)) in [(&a, &mut ls), (&b, &mut rs)].into_iter().enumerate() {
                    if which == 2 || which == k as u64 {
                        for i in 0..s.len() {
                            if bg.1[i].is_one() && bg.0[i] == x {
                                s[i] = f(1);
                            }
                        }
                    }
                }
            }
            _ => damage(ctx, &mut [(&mut a.0, K::Val), (&mut b.0, K::Val)]),
        }
    }
    let (a, b) = (bag(ctx, p, a), bag(ctx, p, b));
    let shared = twin && ls == rs && ctx.chance(3, 4);
    let l = col(ctx, p, ls);
    let r = if shared { l } else { col(ctx, p, rs) };
    let rg = range(ctx, p, g);
    p.push(Step::JoinRed(a, b, l, r, rg));
}
pub fn group_by(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    mood(ctx);
    // the verifier takes the support to be as large as the input
    let na = nv_small(ctx);
    let na = crowd(ctx, na);
    let ns = na;
    let g = gap(ctx);
    let mut k = set_size(ctx, 1 << na.min(ns));
    if na > 7 {
        k = k.min(2);
    }
    let set = increasing(ctx, k, g);
    let nc = few(ctx, 1, 3);
    let gcol = ctx.pick(nc);
    let items = cover(ctx, &set, na);
    let keys = place(ctx, &items, na);
    let mut input = tab(ctx, na, nc);
    input.cols[gcol] = keys.0;
    input.sel = keys.1;
    let mut s = sorted_bag(ctx, &set, ns, g);
    let agg = |c: Option<usize>, key: F| -> F {
        (0..1usize << na)
            .filter(|i| input.sel[*i].is_one() && input.cols[gcol][*i] == key)
            .map(|i| c.map(|c| input.cols[c][i]).unwrap_or(f(1)))
            .sum()
    };
    let mut m: Vec<F> = (0..1 << ns).map(|i| if s.1[i].is_zero() { f(0) } else { agg(None, s.0[i]) }).collect();
    let nagg = few(ctx, 0, 3);
    let mut instr: Vec<(usize, bool, Vec<F>)> = vec![];
    for _ in 0..nagg {
        let ci = ctx.pick(nc);
        let is_sum = ctx.chance(2, 3);
        // the column handed in with a count has no part in the result
        let whatever = !is_sum && ctx.chance(1, 3);
        let v = (0..1usize << ns)
            .map(|i| if s.1[i].is_zero() || whatever { any_f(ctx) } else { agg(if is_sum { Some(ci) } else { None }, s.0[i]) })
            .collect();
        instr.push((ci, is_sum, v));
    }
    if lie {
        match ctx.draw(7) {
            0 | 1 if instr.iter().any(|x| x.1) => {
                let sums: Vec<usize> = (0..instr.len()).filter(|i| instr[*i].1).collect();
                let k = sums[ctx.pick(sums.len())];
                damage(ctx, vals![&mut instr[k].2]);
            }
            2 => damage(ctx, vals![&mut m]),
            3 => damage(ctx, &mut [(&mut s.0, K::Val), (&mut s.1, K::Sel)]),
            4 => damage_tab(ctx, &mut input),
            6 if instr.iter().any(|x| x.1) => {
                // a sum said to be the number of rows
                let sums: Vec<usize> = (0..instr.len()).filter(|i| instr[*i].1).collect();
                let k = sums[ctx.pick(sums.len())];
                instr[k].2 = m.clone();
            }
            _ => {
                // leave a group out altogether
                let rows: Vec<usize> = (0..s.1.len()).filter(|i| s.1[*i].is_one()).collect();
                if !rows.is_empty() {
                    let r = rows[ctx.pick(rows.len())];
                    s.1[r] = f(0);
                    m[r] = f(0);
                }
            }
        }
    }
    let input = put(ctx, p, input);
    let sb = bag(ctx, p, s);
    let smul = col(ctx, p, m);
    let aggs: Vec<(usize, bool, C)> = instr.into_iter().map(|(i, t, v)| (i, t, if p.v(smul) == &v && ctx.chance(2, 3) { smul } else { col(ctx, p, v) })).collect();
    let r = range(ctx, p, g);
    p.push(Step::GroupBy { input, gcol, supp: sb.v, ssel: sb.s, smul, aggs, range: r });
}
pub fn cross(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    mood(ctx);
    let (na, nb) = ([1usize, 2, 3][ctx.pick(3)], [1usize, 2, 3][ctx.pick(3)]);
    let (ca, cb) = (few(ctx, 1, 3), few(ctx, 1, 3));
    let (a, b) = (tab(ctx, na, ca), tab(ctx, nb, cb));
    let (a, b) = (put(ctx, p, a), put(ctx, p, b));
    let out = p.push(Step::Cross(a, b));
    // then claim what the product must satisfy
    let n = p.cols.len() - out;
    match ctx.draw(3) {
        0 => {
            let k = ctx.pick(n);
            let mut d = p.v(out + k).clone();
            if lie {
                damage(ctx, vals![&mut d]);
            }
            let c = p.commit(d);
            let z = p.push(Step::Sub(out + k, c));
            p.push(Step::Zero(z));
        }
        1 => {
            let t = T { cols: (out..out + n - 1).collect(), sel: out + n - 1 };
            let mut rows = p.rows(&t);
            if rows.len() > 8 {
                ctx.shuffle(&mut rows);
                rows.truncate(8);
            }
            let nv = log2_at_least(rows.len().max(1));
            let mut o = Tab { cols: vec![vec![f(0); 1 << nv]; n - 1], sel: vec![f(0); 1 << nv] };
            for (i, r) in rows.iter().enumerate() {
                o.sel[i] = f(1);
                for (c, x) in r.iter().enumerate() {
                    o.cols[c][i] = *x;
                }
            }
            if lie {
                damage_tab(ctx, &mut o);
            }
            let o = put(ctx, p, o);
            p.push(Step::Index(t, o));
        }
        _ => {
            let k = ctx.pick(n - 1);
            let (v, s) = (p.v(out + k).clone(), p.v(out + n - 1).clone());
            let items: Vec<F> = v.iter().zip(&s).filter(|(_, s)| s.is_one()).map(|(v, _)| *v).collect();
            let nv = p.nv(out);
            let mut c = place(ctx, &items, nv);
            if lie {
                damage(ctx, &mut [(&mut c.0, K::Val), (&mut c.1, K::Sel)]);
            }
            let (cv, cs) = (p.commit(c.0), p.commit(c.1));
            p.push(Step::BagEq(B { v: out + k, s: out + n - 1 }, B { v: cv, s: cs }));
        }
    }
}
pub fn claims(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    mood(ctx);
    let mut sh = shape(ctx);
    sh.ops = ctx.range(0, 5);
    sh.max_deg = 4;
    let live = arithmetic(ctx, p, &sh, false);
    claim(ctx, p, &live, lie);
}

pub type Gen = fn(&mut Ctx, &mut Program, bool);
pub const ALL: &[(&str, Gen)] = &[
    ("bag_eq", bag_eq),
    ("bag_sum", bag_sum),
    ("multi", multi),
    ("incl", incl),
    ("no_zeros", no_zeros),
    ("sel_valid", sel_valid),
    ("perm", perm),
    ("sort", sort),
    ("supp", supp),
    ("bag_disjoint", bag_disjoint),
    ("set_disjoint", set_disjoint),
    ("union", union),
    ("diff", diff),
    ("inter", inter),
    ("index", index),
    ("final_join", final_join),
    ("join_red", join_red),
    ("group_by", group_by),
    ("cross", cross),
    ("claims", claims),
    ("cancelling", cancelling),
];

/// A step over the output of an earlier one.
pub fn feed(ctx: &mut Ctx, p: &mut Program, b: &B, lie: bool) {
    let (v, s) = (p.v(b.v).clone(), p.v(b.s).clone());
    let nv = p.nv(b.v);
    let mut items: Vec<F> = v.iter().zip(&s).filter(|(_, s)| s.is_one()).map(|(v, _)| *v).collect();
    match ctx.draw(4) {
        0 => {
            ctx.shuffle(&mut items);
            let mut c = place(ctx, &items, nv);
            if lie {
                damage(ctx, &mut [(&mut c.0, K::Val), (&mut c.1, K::Sel)]);
            }
            let c = bag(ctx, p, c);
            p.push(Step::BagEq(b.clone(), c));
        }
        1 => {
            let mut sup = items.clone();
            sup.sort();
            sup.dedup();
            let n2 = log2_at_least(sup.len().max(1));
            let mut c = place(ctx, &sup, n2);
            if lie {
                damage(ctx, &mut [(&mut c.0, K::Val), (&mut c.1, K::Sel)]);
            }
            let c = bag(ctx, p, c);
            p.push(Step::Incl(b.clone(), c, None));
        }
        2 => {
            let pl = pool(ctx);
            let extra = from_pool(ctx, &pl, 2);
            let other = place(ctx, &extra, 1);
            let mut all: Vec<F> = items.iter().chain(&extra).copied().collect();
            ctx.shuffle(&mut all);
            let n2 = log2_at_least(all.len());
            let mut c = place(ctx, &all, n2);
            if lie {
                damage(ctx, &mut [(&mut c.0, K::Val), (&mut c.1, K::Sel)]);
            }
            let (o, c) = (bag(ctx, p, other), bag(ctx, p, c));
            p.push(Step::BagSum(b.clone(), o, c));
        }
        _ => {
            if !p.cols[b.v].free && p.cols[b.v].terms * p.cols[b.s].terms <= 32 {
                // selected sum
                let m = p.push(Step::Mul(b.v, b.s));
                let mut k: F = p.v(m).iter().sum();
                if lie {
                    k += nonzero_f(ctx);
                }
                p.push(Step::Sum(m, k, false));
            } else {
                let mut sl = s.clone();
                if lie {
                    damage(ctx, vals![&mut sl]);
                }
                let c = p.commit(sl);
                p.push(Step::SelValid(c));
            }
        }
    }
}
/// Bags offered by the columns made so far: outputs of table steps and inputs.
pub fn offered(p: &Program) -> Vec<B> {
    let mut out = vec![];
    for (i, s) in p.steps.iter().enumerate() {
        let first = p.outs[i];
        let end = if i + 1 < p.outs.len() { p.outs[i + 1] } else { p.cols.len() };
        if matches!(s, Step::Cross(..) | Step::FinalJoin(..) | Step::GroupBy { .. }) && end > first + 1 {
            for c in first..end - 1 {
                if p.nv(c) <= 5 && p.sel_bin(end - 1) {
                    out.push(B { v: c, s: end - 1 });
                }
            }
        }
        match s {
            Step::BagEq(a, b) => out.extend([a.clone(), b.clone()]),
            Step::Union(_, _, u, _) => out.push(u.clone()),
            Step::Diff(_, _, l, ..) => out.push(l.clone()),
            Step::Inter(_, _, _, m, ..) => out.push(m.clone()),
            Step::JoinRed(a, ..) => out.push(a.clone()),
            _ => {}
        }
    }
    out.retain(|b| p.sel_bin(b.s));
    out
}
/// Several steps in one session.
pub fn composed(ctx: &mut Ctx, p: &mut Program, lie: bool) {
    let n = ctx.range(2, 4);
    let liar = if lie { ctx.pick(n) } else { n };
    for i in 0..n {
        let bad = i == liar;
        let off = offered(p);
        if !off.is_empty() && ctx.chance(2, 3) {
            let b = off[off.len() - 1 - ctx.pick(off.len())].clone();
            feed(ctx, p, &b, bad);
        } else {
            let k = if i == 0 && ctx.chance(1, 2) { [15usize, 17, 18, 11][ctx.pick(4)] } else { ctx.pick(ALL.len()) };
            (ALL[k].1)(ctx, p, bad);
        }
        if p.cols.len() > 60 {
            break;
        }
    }
}
