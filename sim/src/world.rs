//! The simulated system: parameters, columns, step programs, both parties,
//! and the plain reference model.

use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::OnceLock;

use ark_bls12_381::{Bls12_381, Fr, G1Affine};
use ark_ff::{Field, One, PrimeField, Zero};
use ark_poly::{DenseMultilinearExtension, MultilinearExtension};
use ark_serialize::CanonicalSerialize;

use zk_sql::sim_hooks as h;
use zk_sql::subroutines::{
    Commitment, MultilinearKzgPCS, MultilinearProverParam, MultilinearUniversalParams, MultilinearVerifierParam,
    PolynomialCommitmentScheme,
};
use zk_sql::tracker::prelude::*;

use crate::core::{guard, Ctx, Prng};

pub type E = Bls12_381;
pub type F = Fr;
pub type P = MultilinearKzgPCS<E>;
pub type Mle = DenseMultilinearExtension<F>;
pub type Proof = h::CompiledZKSQLProof<E, P>;
pub type Comm = Commitment<E>;
pub type TPoly = TrackedPoly<E, P>;
pub type TComm = TrackedComm<E, P>;
pub type PRef = ProverTrackerRef<E, P>;
pub type VRef = VerifierTrackerRef<E, P>;

// ---------------------------------------------------------------- parameters

pub const MAX_NV: usize = 9;
/// The largest parameters there are, made when first asked for.
pub const TALL_NV: usize = 12;

pub struct Params {
    pub universal: MultilinearUniversalParams<E>,
    pub prover: MultilinearProverParam<E>,
    pub verifier: MultilinearVerifierParam<E>,
}
static PARAMS: OnceLock<Vec<Params>> = OnceLock::new();
static TALL: [OnceLock<Params>; TALL_NV - MAX_NV] = [const { OnceLock::new() }; TALL_NV - MAX_NV];
static PARAMS_SEED: OnceLock<u64> = OnceLock::new();

fn make_params(seed: u64, nv: usize) -> Params {
    let nv = nv.max(1);
    let mut rng = Prng::new(seed ^ 0x5125_0000 ^ nv as u64);
    let universal = P::gen_srs_for_testing(&mut rng, nv).expect("srs");
    let (prover, verifier) = P::trim(&universal, None, Some(nv)).expect("trim");
    Params { universal, prover, verifier }
}

/// Structured reference strings for every size, derived from the run seed.
/// Generated once per process and outside any simulated schedule, so that no
/// case depends on which cases ran before it.
pub fn init_params(seed: u64) {
    PARAMS_SEED.get_or_init(|| seed);
    PARAMS.get_or_init(|| (0..=MAX_NV).map(|nv| make_params(seed, nv)).collect());
}
pub fn params(nv: usize) -> &'static Params {
    let nv = nv.clamp(1, TALL_NV);
    if nv <= MAX_NV {
        return &PARAMS.get().expect("parameters")[nv];
    }
    // on a thread of its own, which no simulated schedule sees
    TALL[nv - MAX_NV - 1].get_or_init(|| {
        let seed = *PARAMS_SEED.get().expect("parameters");
        std::thread::spawn(move || make_params(seed, nv)).join().expect("srs")
    })
}

// ---------------------------------------------------------------- field helpers

pub fn f(x: u64) -> F {
    F::from(x)
}
pub fn mle(vals: &[F]) -> Mle {
    let nv = vals.len().trailing_zeros() as usize;
    assert_eq!(1usize << nv, vals.len());
    DenseMultilinearExtension::from_evaluations_vec(nv, vals.to_vec())
}
/// Plain evaluation of the multilinear extension of `vals` at `pt`
/// (first coordinate is the least significant index bit).
pub fn mle_eval(vals: &[F], pt: &[F]) -> F {
    assert_eq!(vals.len(), 1 << pt.len());
    let mut v = vals.to_vec();
    for r in pt {
        v = v.chunks(2).map(|c| c[0] + *r * (c[1] - c[0])).collect();
    }
    v[0]
}
pub fn vertex(i: usize, nv: usize) -> Vec<F> {
    (0..nv).map(|b| f(((i >> b) & 1) as u64)).collect()
}
pub fn pow2(k: usize) -> F {
    F::from(2u64).pow([k as u64])
}
/// A field element: small, zero, one, minus one, or wide.
pub fn any_f(ctx: &mut Ctx) -> F {
    match ctx.draw(6) {
        0 => f(0),
        1 => f(1),
        2 => -f(1),
        3 => f(ctx.draw(16)),
        _ => wide_f(ctx),
    }
}
pub fn wide_f(ctx: &mut Ctx) -> F {
    let mut p = Prng::new(ctx.seed64() ^ 0xF1E1D);
    let mut b = [0u8; 48];
    for c in b.chunks_mut(8) {
        c.copy_from_slice(&p.next().to_le_bytes());
    }
    F::from_le_bytes_mod_order(&b)
}
pub fn nonzero_f(ctx: &mut Ctx) -> F {
    let v = any_f(ctx);
    if v.is_zero() {
        f(1)
    } else {
        v
    }
}
pub fn point(ctx: &mut Ctx, n: usize) -> Vec<F> {
    match ctx.draw(16) {
        // a row, the same coordinate everywhere, one coordinate apart
        15 => return (0..n).map(|_| f(ctx.draw(2))).collect(),
        14 => {
            let x = any_f(ctx);
            let mut p = vec![x; n];
            if n > 1 && ctx.chance(1, 2) {
                p[ctx.pick(n)] = any_f(ctx);
            }
            return p;
        }
        _ => {}
    }
    (0..n)
        .map(|_| match ctx.draw(8) {
            0 => f(0),
            1 => f(1),
            2 => -f(1),
            _ => wide_f(ctx),
        })
        .collect()
}
pub fn ser<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_compressed(&mut v).expect("serialize");
    v
}
pub fn show(v: &[F]) -> String {
    let s: Vec<String> = v.iter().map(show1).collect();
    format!("[{}]", s.join(","))
}
pub fn show1(x: &F) -> String {
    let m = -*x;
    for (v, sg) in [(x, ""), (&m, "-")] {
        let b = v.into_bigint();
        let l = b.as_ref();
        if l[1..].iter().all(|y| *y == 0) && l[0] < 1 << 32 {
            return format!("{}{}", sg, l[0]);
        }
    }
    format!("#{:08x}", x.into_bigint().as_ref()[0] as u32)
}

// ---------------------------------------------------------------- steps

pub type C = usize;
#[derive(Clone, Debug, PartialEq)]
pub struct B {
    pub v: C,
    pub s: C,
}
#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub cols: Vec<C>,
    pub sel: C,
}

#[derive(Clone, Debug)]
pub enum Step {
    Commit(Vec<F>),
    Public(Vec<F>),
    Add(C, C),
    Sub(C, C),
    Mul(C, C),
    AddS(C, F),
    MulS(C, F),
    Front(C, usize),
    Back(C, usize),
    /// the prover reads the column back
    Read(C),
    /// both parties draw a challenge
    Challenge,
    /// both parties put a value of their own into the transcript
    Say(F),
    Zero(C),
    /// claimed sum; `true`: the verifier states the sum itself
    Sum(C, F, bool),
    BagEq(B, B),
    BagSum(B, B, B),
    Multi(Vec<B>, Vec<B>, Vec<C>, Vec<C>),
    Incl(B, B, Option<C>),
    NoZeros(B),
    SelValid(C),
    Perm(B, B, C),
    Sort(B, B),
    Supp(B, B, Option<C>, B),
    BagDisjoint(B, B, Option<(B, C, C)>, B),
    SetDisjoint(B, B, B),
    Union(B, B, B, B),
    Diff(B, B, B, B, C, B),
    Inter(B, B, B, B, B, B),
    Cross(T, T),
    Index(T, T),
    FinalJoin(T, T, usize, usize, Option<Vec<C>>),
    JoinRed(B, B, C, C, B),
    GroupBy { input: T, gcol: usize, supp: C, ssel: C, smul: C, aggs: Vec<(usize, bool, C)>, range: B },
}

impl Step {
    pub fn name(&self) -> &'static str {
        use Step::*;
        match self {
            Commit(_) => "commit",
            Public(_) => "public",
            Add(..) => "add",
            Sub(..) => "sub",
            Mul(..) => "mul",
            AddS(..) => "add_scalar",
            MulS(..) => "mul_scalar",
            Front(..) => "front",
            Back(..) => "back",
            Read(_) => "read",
            Challenge => "challenge",
            Say(_) => "say",
            Zero(_) => "zero_claim",
            Sum(..) => "sum_claim",
            BagEq(..) => "bag_eq",
            BagSum(..) => "bag_sum",
            Multi(..) => "bag_multitool",
            Incl(_, _, None) => "bag_inclusion",
            Incl(..) => "bag_inclusion_advice",
            NoZeros(_) => "bag_no_zeros",
            SelValid(_) => "selector_valid",
            Perm(..) => "bag_presc_perm",
            Sort(..) => "bag_strict_sort",
            Supp(_, _, None, _) => "bag_supp",
            Supp(..) => "bag_supp_advice",
            BagDisjoint(_, _, None, _) => "bag_disjoint",
            BagDisjoint(..) => "bag_disjoint_advice",
            SetDisjoint(..) => "set_disjoint",
            Union(..) => "set_union",
            Diff(..) => "set_diff",
            Inter(..) => "set_intersect",
            Cross(..) => "cross_product",
            Index(..) => "index_transform",
            FinalJoin(_, _, _, _, None) => "final_join",
            FinalJoin(..) => "final_join_advice",
            JoinRed(..) => "join_reduction",
            GroupBy { .. } => "group_by",
        }
    }
    pub fn is_gadget(&self) -> bool {
        use Step::*;
        !matches!(
            self,
            Commit(_) | Public(_) | Add(..) | Sub(..) | Mul(..) | AddS(..) | MulS(..) | Front(..) | Back(..) | Read(_) | Zero(_) | Sum(..) | Challenge | Say(_)
        )
    }
    pub fn describe(&self) -> String {
        use Step::*;
        let b = |b: &B| format!("({},{})", b.v, b.s);
        match self {
            Commit(v) => format!("commit {}", show(v)),
            Public(v) => format!("public {}", show(v)),
            AddS(c, x) => format!("add_scalar c{} {}", c, show1(x)),
            MulS(c, x) => format!("mul_scalar c{} {}", c, show1(x)),
            Say(x) => format!("say {}", show1(x)),
            Sum(c, x, own) => format!("sum_claim c{} {} verifier_states={}", c, show1(x), own),
            Multi(fs, gs, mf, mg) => format!(
                "bag_multitool {:?} m{:?} | {:?} m{:?}",
                fs.iter().map(b).collect::<Vec<_>>(),
                mf,
                gs.iter().map(b).collect::<Vec<_>>(),
                mg
            ),
            s => {
                let d = format!("{:?}", s);
                d.replace("B { v: ", "(").replace(", s: ", ",").replace(" }", ")")
            }
        }
    }
}

// ---------------------------------------------------------------- reference model

#[derive(Clone, Debug)]
pub struct Col {
    pub nv: usize,
    pub vals: Vec<F>,
    /// number of multilinear factors in the largest product
    pub deg: usize,
    pub terms: usize,
    /// rows whose content the operation that made the column leaves open
    pub free: bool,
    pub committed: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Truth {
    True,
    False,
    Grey,
}
use Truth::*;
impl Truth {
    pub fn and(self, o: Truth) -> Truth {
        match (self, o) {
            (False, _) | (_, False) => False,
            (Grey, _) | (_, Grey) => Grey,
            _ => True,
        }
    }
    pub fn of(b: bool) -> Truth {
        if b {
            True
        } else {
            False
        }
    }
}

#[derive(Clone, Default)]
pub struct Program {
    pub steps: Vec<Step>,
    /// first output column of each step
    pub outs: Vec<usize>,
    pub cols: Vec<Col>,
    /// the largest number of variables any polynomial of the session has
    pub max_nv: usize,
    /// some product was materialised, so off-hypercube values may differ
    pub tainted: bool,
}

pub fn weights<'a>(it: impl Iterator<Item = (&'a F, F)>) -> BTreeMap<F, F> {
    let mut m: BTreeMap<F, F> = BTreeMap::new();
    for (k, w) in it {
        *m.entry(*k).or_insert(F::zero()) += w;
    }
    m.retain(|_, w| !w.is_zero());
    m
}
fn is_bin(x: &F) -> bool {
    x.is_zero() || x.is_one()
}

impl Program {
    pub fn new() -> Self {
        Self::default()
    }
    fn out(&mut self, vals: Vec<F>, deg: usize, terms: usize, committed: bool) {
        let nv = vals.len().trailing_zeros() as usize;
        self.max_nv = self.max_nv.max(nv);
        self.cols.push(Col { nv, vals, deg, terms, free: false, committed });
    }
    fn materialise(&mut self, c: C) {
        if self.cols[c].deg > 1 {
            self.tainted = true;
        }
        self.cols[c].deg = 1;
        self.cols[c].terms = 1;
    }
    pub fn commit(&mut self, vals: Vec<F>) -> C {
        self.push(Step::Commit(vals))
    }
    pub fn public(&mut self, vals: Vec<F>) -> C {
        self.push(Step::Public(vals))
    }
    /// An uncommitted column, unless nothing was committed before it: claims are
    /// about committed columns, and with no commitment there is no transcript.
    pub fn uncommitted(&mut self, vals: Vec<F>) -> C {
        if self.commits() == 0 {
            self.commit(vals)
        } else {
            self.public(vals)
        }
    }
    /// Append a step; returns the index of its first output column.
    pub fn push(&mut self, s: Step) -> C {
        use Step::*;
        let first = self.cols.len();
        match &s {
            Commit(v) => self.out(v.clone(), 1, 1, true),
            Public(v) => self.out(v.clone(), 1, 1, false),
            Add(a, b) | Sub(a, b) => {
                let neg = matches!(s, Sub(..));
                let (x, y) = (&self.cols[*a], &self.cols[*b]);
                let v = x.vals.iter().zip(&y.vals).map(|(p, q)| if neg { *p - *q } else { *p + *q }).collect();
                let (d, t) = (x.deg.max(y.deg), x.terms + y.terms);
                self.out(v, d, t, false)
            }
            Mul(a, b) => {
                let (x, y) = (&self.cols[*a], &self.cols[*b]);
                let v = x.vals.iter().zip(&y.vals).map(|(p, q)| *p * *q).collect();
                let (d, t) = (x.deg + y.deg, x.terms * y.terms);
                self.out(v, d, t, false)
            }
            AddS(a, k) => {
                let x = &self.cols[*a];
                let (v, d, t) = (x.vals.iter().map(|p| *p + k).collect(), x.deg, x.terms + 1);
                self.out(v, d, t, false)
            }
            MulS(a, k) => {
                let x = &self.cols[*a];
                let (v, d, t) = (x.vals.iter().map(|p| *p * k).collect(), x.deg, x.terms);
                self.out(v, d, t, false)
            }
            Front(a, k) => {
                self.materialise(*a);
                let x = &self.cols[*a].vals;
                let v = (0..x.len() << k).map(|i| x[i >> k]).collect();
                self.out(v, 1, 1, false)
            }
            Back(a, k) => {
                self.materialise(*a);
                let x = &self.cols[*a].vals;
                let v = (0..x.len() << k).map(|i| x[i % x.len()]).collect();
                self.out(v, 1, 1, false)
            }
            Read(a) => self.materialise(*a),
            Challenge | Say(_) | Zero(_) => {}
            Sum(..) => {}
            Cross(a, b) => {
                let (na, nb) = (self.cols[a.sel].nv, self.cols[b.sel].nv);
                let (la, lb) = (1usize << na, 1usize << nb);
                for c in a.cols.iter() {
                    let x = self.cols[*c].vals.clone();
                    self.out((0..la * lb).map(|i| x[i >> nb]).collect(), 1, 1, false);
                }
                for c in b.cols.iter() {
                    let x = self.cols[*c].vals.clone();
                    self.out((0..la * lb).map(|i| x[i % lb]).collect(), 1, 1, false);
                }
                let (x, y) = (self.cols[a.sel].vals.clone(), self.cols[b.sel].vals.clone());
                self.out((0..la * lb).map(|i| x[i >> nb] * y[i % lb]).collect(), 2, 1, false);
                self.tainted = true;
            }
            FinalJoin(a, b, ai, bi, adv) => {
                let bs = self.cols[b.sel].vals.clone();
                match adv {
                    Some(cs) => {
                        for c in cs {
                            let col = self.cols[*c].clone();
                            self.cols.push(col);
                        }
                    }
                    None => {
                        let akeys: Vec<Option<F>> = (0..self.cols[a.sel].vals.len())
                            .map(|i| if self.cols[a.sel].vals[i].is_one() { Some(self.cols[a.cols[*ai]].vals[i]) } else { None })
                            .collect();
                        let bk = self.cols[b.cols[*bi]].vals.clone();
                        for c in a.cols.iter() {
                            let x = self.cols[*c].vals.clone();
                            let v = (0..bs.len())
                                .map(|j| {
                                    if bs[j].is_one() {
                                        akeys.iter().rposition(|k| *k == Some(bk[j])).map(|i| x[i]).unwrap_or(f(0))
                                    } else {
                                        f(0)
                                    }
                                })
                                .collect();
                            self.out(v, 1, 1, false);
                            self.cols.last_mut().unwrap().free = true;
                        }
                    }
                }
                for c in b.cols.iter().chain([&b.sel]) {
                    let col = self.cols[*c].clone();
                    self.cols.push(col);
                }
                self.tainted = true;
            }
            GroupBy { supp, ssel, smul, aggs, .. } => {
                let mut cs = vec![*supp];
                for (_, is_sum, c) in aggs {
                    cs.push(if *is_sum { *c } else { *smul });
                }
                cs.push(*ssel);
                for c in cs {
                    let col = self.cols[c].clone();
                    self.cols.push(col);
                }
                self.tainted = true;
            }
            BagDisjoint(a, b, None, _) => {
                self.max_nv = self.max_nv.max(self.cols[a.v].nv.max(self.cols[b.v].nv) + 1);
            }
            SetDisjoint(a, b, _) | Union(a, b, _, _) => {
                self.max_nv = self.max_nv.max(self.cols[a.v].nv.max(self.cols[b.v].nv) + 1);
            }
            Diff(_, b, l, _, _, _) => {
                self.max_nv = self.max_nv.max(self.cols[l.v].nv.max(self.cols[b.v].nv) + 1);
            }
            Inter(_, _, l, _, r, _) => {
                self.max_nv = self.max_nv.max(self.cols[l.v].nv.max(self.cols[r.v].nv) + 1);
            }
            JoinRed(a, b, ..) => {
                self.max_nv = self.max_nv.max(self.cols[a.v].nv.max(self.cols[b.v].nv) + 1);
            }
            _ => {}
        }
        if s.is_gadget() {
            self.tainted = true;
        }
        self.steps.push(s);
        self.outs.push(first);
        first
    }
    pub fn v(&self, c: C) -> &Vec<F> {
        &self.cols[c].vals
    }
    pub fn nv(&self, c: C) -> usize {
        self.cols[c].nv
    }
    /// every polynomial of the session has the same number of variables
    pub fn uniform(&self) -> bool {
        !self.steps.iter().any(|s| s.is_gadget()) && self.cols.iter().all(|c| c.nv == self.max_nv)
    }

    // ---- truth of each claim

    fn w(&self, b: &B, m: Option<C>) -> BTreeMap<F, F> {
        let (v, s) = (self.v(b.v), self.v(b.s));
        weights((0..v.len()).map(|i| (&v[i], s[i] * m.map(|c| self.v(c)[i]).unwrap_or(f(1)))))
    }
    pub fn sel_bin(&self, c: C) -> bool {
        self.v(c).iter().all(is_bin)
    }
    fn support(&self, b: &B) -> Vec<F> {
        let mut s: Vec<F> = self.v(b.v).iter().zip(self.v(b.s)).filter(|(_, s)| !s.is_zero()).map(|(v, _)| *v).collect();
        s.sort();
        s
    }
    fn dedup(mut v: Vec<F>) -> Vec<F> {
        v.dedup();
        v
    }
    fn add_w(a: &BTreeMap<F, F>, b: &BTreeMap<F, F>) -> BTreeMap<F, F> {
        weights(a.iter().chain(b.iter()).map(|(k, w)| (k, *w)))
    }
    fn rangeset(&self, range: &B) -> std::collections::BTreeSet<F> {
        self.v(range.v).iter().copied().collect()
    }
    /// strictly sorted over `vals` with `sel`
    fn sorted_raw(&self, vals: &[F], sel: &[F], range: &B) -> Truth {
        let rs = self.rangeset(range);
        let n = vals.len();
        let diffs_ok = (0..n - 1).all(|i| rs.contains(&(vals[i + 1] - vals[i])));
        let sel_ok = (0..n - 1).all(|i| sel[i].is_zero() || vals[i + 1] != vals[i]);
        if diffs_ok && sel_ok {
            return True;
        }
        let chosen: Vec<F> = (0..n).filter(|i| !sel[*i].is_zero()).map(|i| vals[i]).collect();
        if chosen.windows(2).any(|w| w[0] >= w[1]) {
            return False;
        }
        Grey
    }
    fn sorted(&self, b: &B, range: &B) -> Truth {
        self.sorted_raw(self.v(b.v), self.v(b.s), range)
    }
    /// all selected values of `vals` distinct with gaps (from zero) in range
    fn distinct_set(&self, mut vals: Vec<F>, total: usize, range: &B, dup: Truth) -> Truth {
        let rs = self.rangeset(range);
        vals.sort();
        if vals.windows(2).any(|w| w[0] == w[1]) {
            return dup;
        }
        let pad = total > vals.len();
        let mut prev = if pad { Some(f(0)) } else { None };
        for v in &vals {
            if let Some(p) = prev {
                if !rs.contains(&(*v - p)) {
                    return Grey;
                }
            }
            prev = Some(*v);
        }
        if pad && total - vals.len() > 1 && !rs.contains(&f(0)) {
            return Grey;
        }
        True
    }
    fn incl(&self, a: &B, b: &B, m: Option<C>) -> Truth {
        match m {
            Some(m) => Truth::of(self.w(a, None) == self.w(b, Some(m))),
            None => {
                if !self.sel_bin(a.s) || !self.sel_bin(b.s) {
                    return Grey;
                }
                let bs = self.support(b);
                Truth::of(self.support(a).iter().all(|x| bs.binary_search(x).is_ok()))
            }
        }
    }
    fn set_disjoint(&self, a: &B, b: &B, range: &B) -> Truth {
        if !self.sel_bin(a.s) || !self.sel_bin(b.s) {
            return Grey;
        }
        let (x, y) = (self.support(a), self.support(b));
        if x.iter().any(|v| y.binary_search(v).is_ok()) {
            return False;
        }
        let total = 2usize << self.nv(a.v).max(self.nv(b.v));
        self.distinct_set(x.into_iter().chain(y).collect(), total, range, Grey)
    }
    fn bag_disjoint(&self, a: (&[F], &[F]), b: (&[F], &[F]), total: usize, range: &B) -> Truth {
        let sup = |x: (&[F], &[F])| -> Vec<F> {
            let mut s: Vec<F> = x.0.iter().zip(x.1).filter(|(_, s)| !s.is_zero()).map(|(v, _)| *v).collect();
            s.sort();
            s.dedup();
            s
        };
        let (x, y) = (sup(a), sup(b));
        if x.iter().any(|v| y.binary_search(v).is_ok()) {
            return False;
        }
        self.distinct_set(x.into_iter().chain(y).collect(), total, range, Grey)
    }
    pub fn truth_of(&self, i: usize) -> Truth {
        use Step::*;
        match &self.steps[i] {
            Zero(c) => Truth::of(self.v(*c).iter().all(|x| x.is_zero())),
            Sum(c, k, _) => Truth::of(self.v(*c).iter().sum::<F>() == *k),
            BagEq(a, b) => {
                if self.nv(a.v) != self.nv(b.v) {
                    return Grey;
                }
                Truth::of(self.w(a, None) == self.w(b, None))
            }
            BagSum(a, b, c) => Truth::of(Self::add_w(&self.w(a, None), &self.w(b, None)) == self.w(c, None)),
            Multi(fs, gs, mf, mg) => {
                let side = |bs: &Vec<B>, ms: &Vec<C>| {
                    bs.iter().zip(ms).fold(BTreeMap::new(), |acc, (b, m)| Self::add_w(&acc, &self.w(b, Some(*m))))
                };
                Truth::of(side(fs, mf) == side(gs, mg))
            }
            Incl(a, b, m) => self.incl(a, b, *m),
            NoZeros(b) => Truth::of((0..self.v(b.v).len()).all(|i| self.v(b.s)[i].is_zero() || !self.v(b.v)[i].is_zero())),
            SelValid(c) => Truth::of(self.sel_bin(*c)),
            Perm(a, b, p) => {
                if self.nv(a.v) != self.nv(b.v) || self.nv(a.v) != self.nv(*p) {
                    return Grey;
                }
                let n = self.v(a.v).len();
                let mut x: Vec<(F, F)> = (0..n).map(|i| (f(i as u64), self.v(a.v)[i])).collect();
                let mut y: Vec<(F, F)> = (0..n).map(|i| (self.v(*p)[i], self.v(b.v)[i])).collect();
                x.sort();
                y.sort();
                Truth::of(x == y)
            }
            Sort(b, r) => self.sorted(b, r),
            Supp(a, s, m, r) => self.supp(a, s, *m, r),
            BagDisjoint(a, b, adv, r) => {
                if !self.sel_bin(a.s) || !self.sel_bin(b.s) {
                    return Grey;
                }
                let total = 2usize << self.nv(a.v).max(self.nv(b.v));
                let base = self.bag_disjoint((self.v(a.v), self.v(a.s)), (self.v(b.v), self.v(b.s)), total, r);
                match adv {
                    None => base,
                    Some((c, ma, mb)) => {
                        if base == False {
                            return False;
                        }
                        if self.w(a, None) != self.w(c, Some(*ma)) || self.w(b, None) != self.w(c, Some(*mb)) {
                            return False;
                        }
                        if (0..self.v(*ma).len()).any(|i| !(self.v(*ma)[i] * self.v(*mb)[i]).is_zero()) {
                            return False;
                        }
                        self.sorted(c, r)
                    }
                }
            }
            SetDisjoint(a, b, r) => self.set_disjoint(a, b, r),
            Union(a, b, u, r) => {
                if !self.sel_bin(a.s) || !self.sel_bin(b.s) || !self.sel_bin(u.s) {
                    return Grey;
                }
                let mut all = self.support(a);
                all.extend(self.support(b));
                all.sort();
                let us = self.support(u);
                let want = Self::dedup(all);
                if want != us {
                    return False; // missing, extra or duplicated
                }
                self.sorted(u, r)
            }
            Diff(a, b, l, m, bm, r) => {
                if [a, b, l, m].iter().any(|x| !self.sel_bin(x.s)) {
                    return Grey;
                }
                self.set_disjoint(l, b, r)
                    .and(Truth::of(Self::add_w(&self.w(l, None), &self.w(m, None)) == self.w(a, None)))
                    .and(Truth::of(self.w(m, None) == self.w(b, Some(*bm))))
            }
            Inter(a, b, l, m, r, rg) => {
                if [a, b, l, m, r].iter().any(|x| !self.sel_bin(x.s)) {
                    return Grey;
                }
                self.set_disjoint(l, r, rg)
                    .and(Truth::of(Self::add_w(&self.w(l, None), &self.w(m, None)) == self.w(a, None)))
                    .and(Truth::of(Self::add_w(&self.w(m, None), &self.w(r, None)) == self.w(b, None)))
            }
            Index(a, b) => {
                if a.cols.len() != b.cols.len() || !self.sel_bin(a.sel) || !self.sel_bin(b.sel) {
                    return Grey;
                }
                let (x, y) = (self.rows(a), self.rows(b));
                Truth::of(y.iter().all(|r| x.contains(r)))
            }
            FinalJoin(a, b, ai, bi, adv) => {
                if !self.sel_bin(a.sel) || !self.sel_bin(b.sel) {
                    return Grey;
                }
                let arows = self.rows(a);
                let mut keys: Vec<F> = arows.iter().map(|r| r[*ai]).collect();
                keys.sort();
                let dup = keys.windows(2).any(|w| w[0] == w[1]);
                let n = self.v(b.sel).len();
                for j in 0..n {
                    if self.v(b.sel)[j].is_zero() {
                        continue;
                    }
                    let k = self.v(b.cols[*bi])[j];
                    if keys.binary_search(&k).is_err() {
                        return False;
                    }
                    if let Some(t) = adv {
                        let row: Vec<F> = t.iter().map(|c| self.v(*c)[j]).collect();
                        if row[*ai] != k || !arows.contains(&row) {
                            return False;
                        }
                    }
                }
                if dup {
                    Grey
                } else {
                    True
                }
            }
            JoinRed(a, b, l, r, rg) => {
                if !self.sel_bin(a.s) || !self.sel_bin(b.s) {
                    return Grey;
                }
                if !self.sel_bin(*l) || !self.sel_bin(*r) {
                    return False;
                }
                let (x, y) = (self.support(a), self.support(b));
                for (bag, sel, other) in [(a, l, &y), (b, r, &x)] {
                    for i in 0..self.v(bag.v).len() {
                        if self.v(bag.s)[i].is_zero() {
                            continue;
                        }
                        let alone = other.binary_search(&self.v(bag.v)[i]).is_err();
                        if self.v(*sel)[i].is_one() != alone {
                            return False;
                        }
                    }
                }
                // range condition of the three disjointness proofs inside
                let pick = |bag: &B, sel: C, want: bool| -> Vec<F> {
                    let mut v: Vec<F> = (0..self.v(bag.v).len())
                        .filter(|i| !self.v(bag.s)[*i].is_zero() && self.v(sel)[*i].is_one() == want)
                        .map(|i| self.v(bag.v)[i])
                        .collect();
                    v.sort();
                    v.dedup();
                    v
                };
                let (lv, rv, ma, mb) = (pick(a, *l, true), pick(b, *r, true), pick(a, *l, false), pick(b, *r, false));
                let (na, nb) = (self.nv(a.v), self.nv(b.v));
                let chain = |p: &Vec<F>, q: &Vec<F>, t: usize| self.distinct_set(p.iter().chain(q.iter()).copied().collect(), t, rg, Grey);
                chain(&lv, &rv, 2 << na.max(nb)).and(chain(&lv, &ma, 2 << na)).and(chain(&rv, &mb, 2 << nb))
            }
            GroupBy { input, gcol, supp, ssel, smul, aggs, range } => {
                if !self.sel_bin(input.sel) || !self.sel_bin(*ssel) {
                    return Grey;
                }
                let bag = B { v: input.cols[*gcol], s: input.sel };
                let sb = B { v: *supp, s: *ssel };
                let mut t = self.supp(&bag, &sb, Some(*smul), range);
                for (ci, is_sum, c) in aggs {
                    if *is_sum {
                        t = t.and(Truth::of(self.w(&bag, Some(input.cols[*ci])) == self.w(&sb, Some(*c))));
                    }
                }
                t
            }
            _ => True,
        }
    }
    fn supp(&self, a: &B, s: &B, m: Option<C>, r: &B) -> Truth {
        if !self.sel_bin(a.s) || !self.sel_bin(s.s) {
            return Grey;
        }
        let want = Self::dedup(self.support(a));
        let got = self.support(s);
        if want != got {
            return False;
        }
        if let Some(m) = m {
            if self.w(a, None) != self.w(s, Some(m)) {
                return False;
            }
        }
        self.sorted(s, r)
    }
    pub fn rows(&self, t: &T) -> Vec<Vec<F>> {
        (0..self.v(t.sel).len())
            .filter(|i| !self.v(t.sel)[*i].is_zero())
            .map(|i| t.cols.iter().map(|c| self.v(*c)[i]).collect())
            .collect()
    }
    pub fn truth(&self) -> Truth {
        (0..self.steps.len()).fold(True, |t, i| t.and(self.truth_of(i)))
    }
    pub fn describe(&self, ctx: &mut Ctx) {
        for (i, s) in self.steps.iter().enumerate() {
            let n = if i + 1 < self.outs.len() { self.outs[i + 1] } else { self.cols.len() } - self.outs[i];
            let o = match n {
                0 => String::new(),
                1 => format!("c{} = ", self.outs[i]),
                n => format!("c{}..c{} = ", self.outs[i], self.outs[i] + n - 1),
            };
            let t = match self.truth_of(i) {
                True => "",
                False => "   (false)",
                Grey => "   (undetermined)",
            };
            ctx.say(format!("step {}: {}{}{}", i, o, s.describe(), t));
        }
    }
    pub fn has_claims(&self) -> bool {
        self.steps.iter().any(|s| matches!(s, Step::Zero(_) | Step::Sum(..)) || (s.is_gadget() && !matches!(s, Step::Cross(..))))
    }
    pub fn commits(&self) -> usize {
        self.steps.iter().filter(|s| matches!(s, Step::Commit(_))).count()
    }
}

// ---------------------------------------------------------------- the prover

/// What the challenges drawn in between are called: names of the system's own as well.
fn label(k: usize) -> &'static [u8] {
    [&b"gamma"[..], b"sim", b"gamma", b"r", b"r", b"sumcheck challenge"][k % 6]
}
pub struct Prover {
    pub t: PRef,
    pub cols: Vec<TPoly>,
    pub pos: usize,
    pub challenges: Vec<F>,
    /// values read back: (column, values)
    pub reads: Vec<(C, Vec<F>)>,
}

fn flat<T>(r: Result<Result<T, PolyIOPErrors>, String>, panicked: &mut bool) -> Result<T, String> {
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("error: {}", e).lines().next().unwrap_or("").chars().take(160).collect()),
        Err(p) => {
            *panicked = true;
            Err(format!("panic: {}", p))
        }
    }
}

impl Prover {
    pub fn new(nv: usize) -> Self {
        Self::with(params(nv).prover.clone())
    }
    pub fn with(p: MultilinearProverParam<E>) -> Self {
        Prover { t: PRef::new_from_pcs_params(p), cols: vec![], pos: 0, challenges: vec![], reads: vec![] }
    }
    pub fn bag(&self, b: &B) -> Bag<E, P> {
        Bag::new(self.cols[b.v].clone(), self.cols[b.s].clone())
    }
    pub fn table(&self, t: &T) -> Table<E, P> {
        Table::new(t.cols.iter().map(|c| self.cols[*c].clone()).collect(), self.cols[t.sel].clone())
    }
    /// Run the next step of `prog`.
    pub fn advance(&mut self, prog: &Program) -> Result<(), String> {
        let s = prog.steps[self.pos].clone();
        let mut p = false;
        let r = guard(|| self.step(&s));
        self.pos += 1;
        flat(r, &mut p)
    }
    pub fn done(&self, prog: &Program) -> bool {
        self.pos >= prog.steps.len()
    }
    fn step(&mut self, s: &Step) -> Result<(), PolyIOPErrors> {
        use Step::*;
        let mut t = self.t.clone();
        let c = |i: &C| self.cols[*i].clone();
        let mut new: Vec<TPoly> = vec![];
        match s {
            Commit(v) => new.push(t.track_and_commit_poly(mle(v))?),
            Public(v) => new.push(t.track_mat_poly(mle(v))),
            Add(a, b) => new.push(c(a).add_poly(&c(b))),
            Sub(a, b) => new.push(c(a).sub_poly(&c(b))),
            Mul(a, b) => new.push(c(a).mul_poly(&c(b))),
            AddS(a, k) => new.push(c(a).add_scalar(*k)),
            MulS(a, k) => new.push(c(a).mul_scalar(*k)),
            Front(a, k) => new.push(c(a).increase_nv_front(*k)),
            Back(a, k) => new.push(c(a).increase_nv_back(*k)),
            Read(a) => {
                let v = c(a).evaluations();
                self.reads.push((*a, v));
            }
            Challenge => {
                let x = t.get_and_append_challenge(label(self.challenges.len()))?;
                self.challenges.push(x);
            }
            Say(x) => t.append_serializable_element(b"said", x)?,
            Zero(a) => t.add_zerocheck_claim(c(a).id),
            Sum(a, k, _) => t.add_sumcheck_claim(c(a).id, *k),
            BagEq(a, b) => h::bag_eq::bag_eq::BagEqIOP::<E, P>::prove(&mut t, &self.bag(a), &self.bag(b))?,
            BagSum(a, b, g) => h::bag_sum::bag_sum::BagSumIOP::<E, P>::prove(&mut t, &self.bag(a), &self.bag(b), &self.bag(g))?,
            Multi(fs, gs, mf, mg) => {
                let fs: Vec<_> = fs.iter().map(|b| self.bag(b)).collect();
                let gs: Vec<_> = gs.iter().map(|b| self.bag(b)).collect();
                let mf: Vec<_> = mf.iter().map(c).collect();
                let mg: Vec<_> = mg.iter().map(c).collect();
                h::bag_multitool::bag_multitool::BagMultitoolIOP::<E, P>::prove(&mut t, &fs, &gs, &mf, &mg)?
            }
            Incl(a, b, None) => h::bag_inclusion::bag_inclusion::BagInclusionIOP::<E, P>::prove(&mut t, &self.bag(a), &self.bag(b))?,
            Incl(a, b, Some(m)) => {
                h::bag_inclusion::bag_inclusion::BagInclusionIOP::<E, P>::prove_with_advice(&mut t, &self.bag(a), &self.bag(b), &c(m))?
            }
            NoZeros(b) => h::bag_no_zeros::BagNoZerosIOP::<E, P>::prove(&mut t, &self.bag(b))?,
            SelValid(a) => h::selector_valid::selector_valid::SelectorValidIOP::<E, P>::prove(&mut t, &c(a))?,
            Perm(a, b, p) => h::bag_presc_perm::bag_presc_perm::BagPrescPermIOP::<E, P>::prove(&mut t, &self.bag(a), &self.bag(b), &c(p))?,
            Sort(b, r) => h::bag_sort::bag_sort::BagStrictSortIOP::<E, P>::prove(&mut t, &self.bag(b), &self.bag(r))?,
            Supp(a, b, None, r) => h::bag_supp::bag_supp::BagSuppIOP::<E, P>::prove(&mut t, &self.bag(a), &self.bag(b), &self.bag(r))?,
            Supp(a, b, Some(m), r) => {
                h::bag_supp::bag_supp::BagSuppIOP::<E, P>::prove_with_advice(&mut t, &self.bag(a), &self.bag(b), &c(m), &self.bag(r))?
            }
            BagDisjoint(a, b, None, r) => {
                h::bag_disjoint::bag_disjoint::BagDisjointIOP::<E, P>::prove(&mut t, &self.bag(a), &self.bag(b), &self.bag(r))?
            }
            BagDisjoint(a, b, Some((cc, ma, mb)), r) => h::bag_disjoint::bag_disjoint::BagDisjointIOP::<E, P>::prove_with_advice(
                &mut t,
                &self.bag(a),
                &self.bag(b),
                &self.bag(cc),
                &c(ma),
                &c(mb),
                &self.bag(r),
            )?,
            SetDisjoint(a, b, r) => h::set_disjoint::set_disjoint::SetDisjointIOP::<E, P>::prove(&mut t, &self.bag(a), &self.bag(b), &self.bag(r))?,
            Union(a, b, u, r) => {
                h::set_union::set_union::SetUnionIOP::<E, P>::prove(&mut t, &self.bag(a), &self.bag(b), &self.bag(u), &self.bag(r))?
            }
            Diff(a, b, l, m, bm, r) => h::set_diff::set_diff::SetDiffIOP::<E, P>::prove(
                &mut t,
                &self.bag(a),
                &self.bag(b),
                &self.bag(l),
                &self.bag(m),
                &c(bm),
                &self.bag(r),
            )?,
            Inter(a, b, l, m, r, rg) => h::set_intersect::set_intersect::SetIntersectIOP::<E, P>::prove(
                &mut t,
                &self.bag(a),
                &self.bag(b),
                &self.bag(l),
                &self.bag(m),
                &self.bag(r),
                &self.bag(rg),
            )?,
            Cross(a, b) => {
                let x = h::cross_product::cross_product::CrossProductIOP::<E, P>::prover_cross_product(&self.table(a), &self.table(b))?;
                new.extend(x.col_vals);
                new.push(x.selector);
            }
            Index(a, b) => {
                h::index_transform::index_transform::IndexTransformIOP::<E, P>::prove(&mut t, &self.table(a), &self.table(b))?
            }
            FinalJoin(a, b, ai, bi, adv) => {
                use h::final_join_one_to_many::final_join_one_to_many::FinalJoinOneToManyIOP as J;
                let x = match adv {
                    None => J::<E, P>::prove(&mut t, &self.table(a), &self.table(b), *ai, *bi)?,
                    Some(cs) => {
                        let cs: Vec<_> = cs.iter().map(c).collect();
                        J::<E, P>::prove_with_advice(&mut t, &self.table(a), &self.table(b), *ai, *bi, &cs)?
                    }
                };
                new.extend(x.col_vals);
                new.push(x.selector);
            }
            JoinRed(a, b, l, r, rg) => h::join_reduction::join_reduction::JoinReductionIOP::<E, P>::prove(
                &mut t,
                &self.bag(a),
                &self.bag(b),
                &c(l),
                &c(r),
                &self.bag(rg),
            )?,
            GroupBy { input, gcol, supp, ssel, smul, aggs, range } => {
                use h::group_by::group_by::*;
                let ins = GroupByInstructionWithProvingAdvice {
                    grouping_cols: vec![*gcol],
                    support_cols: vec![c(supp)],
                    support_sel: c(ssel),
                    support_multiplicity: c(smul),
                    agg_instr: aggs
                        .iter()
                        .map(|(i, s, p)| (*i, if *s { AggregationType::Sum } else { AggregationType::Count }, c(p)))
                        .collect(),
                };
                let x = GroupByIOP::<E, P>::prove_with_advice(&mut t, &self.table(input), &ins, &self.bag(range))?;
                new.extend(x.col_vals);
                new.push(x.selector);
            }
        }
        self.cols.extend(new);
        Ok(())
    }
    pub fn run(&mut self, prog: &Program) -> Result<(), (usize, String)> {
        while !self.done(prog) {
            let i = self.pos;
            self.advance(prog).map_err(|e| (i, e))?;
        }
        Ok(())
    }
    pub fn compile(&mut self) -> Result<Proof, String> {
        let mut p = false;
        flat(guard(|| self.t.compile_proof()), &mut p)
    }
}

// ---------------------------------------------------------------- the verifier

/// Where the verifier takes the commitments of the base columns from.
#[derive(Clone)]
pub enum Source {
    /// from the proof it was sent (the usual protocol)
    Proof,
    /// it knows them independently (in commit-step order)
    Own(Rc<Vec<Comm>>),
}

pub struct Verifier {
    pub t: VRef,
    pub cols: Vec<(TComm, usize)>,
    pub pos: usize,
    pub challenges: Vec<F>,
    pub source: Source,
    commits: usize,
}

/// Refused at first and accepted when asked again.
pub const AGAIN: &str = "decision (not the second one)";

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accepted,
    Refused { at: String, panicked: bool, msg: String },
}
impl Verdict {
    pub fn accepted(&self) -> bool {
        *self == Verdict::Accepted
    }
    pub fn refused(at: &str, msg: &str) -> Self {
        Verdict::Refused { at: at.to_string(), panicked: msg.starts_with("panic"), msg: msg.to_string() }
    }
    pub fn text(&self) -> String {
        match self {
            Verdict::Accepted => "accepted".into(),
            Verdict::Refused { at, msg, .. } => format!("refused at {}: {}", at, msg),
        }
    }
}

impl Verifier {
    pub fn new(nv: usize, source: Source) -> Self {
        Self::with(params(nv).verifier.clone(), source)
    }
    pub fn with(p: MultilinearVerifierParam<E>, source: Source) -> Self {
        Verifier { t: VRef::new_from_pcs_params(p), cols: vec![], pos: 0, challenges: vec![], source, commits: 0 }
    }
    pub fn receive(&mut self, proof: Proof) {
        self.t.set_compiled_proof(proof);
    }
    pub fn commits(&self) -> usize {
        self.commits
    }
    pub fn set_commits(&mut self, n: usize) {
        self.commits = n;
    }
    pub fn done(&self, prog: &Program) -> bool {
        self.pos >= prog.steps.len()
    }
    fn bag(&self, b: &B) -> BagComm<E, P> {
        BagComm::new(self.cols[b.v].0.clone(), self.cols[b.s].0.clone(), self.cols[b.v].1)
    }
    fn table(&self, t: &T) -> TableComm<E, P> {
        TableComm::new(t.cols.iter().map(|c| self.cols[*c].0.clone()).collect(), self.cols[t.sel].0.clone(), self.cols[t.sel].1)
    }
    pub fn advance(&mut self, prog: &Program) -> Result<(), String> {
        let s = prog.steps[self.pos].clone();
        let mut p = false;
        let nvs: Vec<usize> = prog.cols.iter().map(|c| c.nv).collect();
        let r = guard(|| self.step(&s, &nvs));
        self.pos += 1;
        flat(r, &mut p)
    }
    fn step(&mut self, s: &Step, nvs: &[usize]) -> Result<(), PolyIOPErrors> {
        use Step::*;
        let mut t = self.t.clone();
        let c = |i: &C| self.cols[*i].0.clone();
        let mut new: Vec<TComm> = vec![];
        match s {
            Commit(_) => {
                let k = self.commits;
                self.commits += 1;
                new.push(match &self.source {
                    Source::Proof => {
                        let id = t.get_next_id();
                        t.transfer_prover_comm(id)
                    }
                    Source::Own(cs) => t.track_mat_comm(cs[k].clone())?,
                });
            }
            Public(v) => {
                let m = mle(v);
                let n = m.num_vars;
                new.push(t.track_virtual_comm(Box::new(move |pt: &[F]| {
                    assert_eq!(pt.len(), n, "public column evaluated at a point of the wrong size");
                    Ok(m.evaluate(pt).unwrap())
                })));
            }
            Add(a, b) => new.push(c(a).add_comms(&c(b))),
            Sub(a, b) => new.push(c(a).sub_comms(&c(b))),
            Mul(a, b) => new.push(c(a).mul_comms(&c(b))),
            AddS(a, k) => new.push(c(a).add_scalar(*k)),
            MulS(a, k) => new.push(c(a).mul_scalar(*k)),
            Front(a, k) => new.push(c(a).increase_nv_front(*k)),
            Back(a, k) => new.push(c(a).increase_nv_back(*k)),
            Read(_) => {}
            Challenge => {
                let x = t.get_and_append_challenge(label(self.challenges.len()))?;
                self.challenges.push(x);
            }
            Say(x) => t.append_serializable_element(b"said", x)?,
            Zero(a) => t.add_zerocheck_claim(c(a).id),
            Sum(a, k, own) => {
                if *own {
                    t.add_sumcheck_claim(c(a).id, *k);
                } else {
                    let id = c(a).id;
                    let got = t.get_prover_claimed_sum(id);
                    let max = self.t.clone_underlying_tracker().proof.sc_aux_info.num_variables;
                    let want = *k * pow2(max.saturating_sub(nvs[*a]));
                    if got != want {
                        return Err(PolyIOPErrors::InvalidVerifier("claimed sum is not the stated one".into()));
                    }
                    t.add_sumcheck_claim(id, got);
                }
            }
            BagEq(a, b) => h::bag_eq::bag_eq::BagEqIOP::<E, P>::verify(&mut t, &self.bag(a), &self.bag(b))?,
            BagSum(a, b, g) => h::bag_sum::bag_sum::BagSumIOP::<E, P>::verify(&mut t, &self.bag(a), &self.bag(b), &self.bag(g))?,
            Multi(fs, gs, mf, mg) => {
                let fs: Vec<_> = fs.iter().map(|b| self.bag(b)).collect();
                let gs: Vec<_> = gs.iter().map(|b| self.bag(b)).collect();
                let mf: Vec<_> = mf.iter().map(c).collect();
                let mg: Vec<_> = mg.iter().map(c).collect();
                h::bag_multitool::bag_multitool::BagMultitoolIOP::<E, P>::verify(&mut t, &fs, &gs, &mf, &mg)?
            }
            Incl(a, b, None) => h::bag_inclusion::bag_inclusion::BagInclusionIOP::<E, P>::verify(&mut t, &self.bag(a), &self.bag(b))?,
            Incl(a, b, Some(m)) => {
                h::bag_inclusion::bag_inclusion::BagInclusionIOP::<E, P>::verify_with_advice(&mut t, &self.bag(a), &self.bag(b), &c(m))?
            }
            NoZeros(b) => h::bag_no_zeros::BagNoZerosIOP::<E, P>::verify(&mut t, &self.bag(b))?,
            SelValid(a) => h::selector_valid::selector_valid::SelectorValidIOP::<E, P>::verify(&mut t, &c(a))?,
            Perm(a, b, p) => h::bag_presc_perm::bag_presc_perm::BagPrescPermIOP::<E, P>::verify(&mut t, &self.bag(a), &self.bag(b), &c(p))?,
            Sort(b, r) => h::bag_sort::bag_sort::BagStrictSortIOP::<E, P>::verify(&mut t, &self.bag(b), &self.bag(r))?,
            Supp(a, b, None, r) => h::bag_supp::bag_supp::BagSuppIOP::<E, P>::verify(&mut t, &self.bag(a), &self.bag(b), &self.bag(r))?,
            Supp(a, b, Some(m), r) => {
                h::bag_supp::bag_supp::BagSuppIOP::<E, P>::verify_with_advice(&mut t, &self.bag(a), &self.bag(b), &c(m), &self.bag(r))?
            }
            BagDisjoint(a, b, None, r) => {
                h::bag_disjoint::bag_disjoint::BagDisjointIOP::<E, P>::verify(&mut t, &self.bag(a), &self.bag(b), &self.bag(r))?
            }
            BagDisjoint(a, b, Some((cc, ma, mb)), r) => h::bag_disjoint::bag_disjoint::BagDisjointIOP::<E, P>::verify_with_advice(
                &mut t,
                &self.bag(a),
                &self.bag(b),
                &self.bag(cc),
                &c(ma),
                &c(mb),
                &self.bag(r),
            )?,
            SetDisjoint(a, b, r) => h::set_disjoint::set_disjoint::SetDisjointIOP::<E, P>::verify(&mut t, &self.bag(a), &self.bag(b), &self.bag(r))?,
            Union(a, b, u, r) => {
                h::set_union::set_union::SetUnionIOP::<E, P>::verify(&mut t, &self.bag(a), &self.bag(b), &self.bag(u), &self.bag(r))?
            }
            Diff(a, b, l, m, bm, r) => h::set_diff::set_diff::SetDiffIOP::<E, P>::verify(
                &mut t,
                &self.bag(a),
                &self.bag(b),
                &self.bag(l),
                &self.bag(m),
                &c(bm),
                &self.bag(r),
            )?,
            Inter(a, b, l, m, r, rg) => h::set_intersect::set_intersect::SetIntersectIOP::<E, P>::verify(
                &mut t,
                &self.bag(a),
                &self.bag(b),
                &self.bag(l),
                &self.bag(m),
                &self.bag(r),
                &self.bag(rg),
            )?,
            Cross(a, b) => {
                let x = h::cross_product::cross_product::CrossProductIOP::<E, P>::verifier_cross_product(&self.table(a), &self.table(b))?;
                new.extend(x.col_vals);
                new.push(x.selector);
            }
            Index(a, b) => {
                h::index_transform::index_transform::IndexTransformIOP::<E, P>::verify(&mut t, &self.table(a), &self.table(b))?
            }
            FinalJoin(a, b, ai, bi, adv) => {
                use h::final_join_one_to_many::final_join_one_to_many::FinalJoinOneToManyIOP as J;
                let x = match adv {
                    None => J::<E, P>::verify(&mut t, &self.table(a), &self.table(b), *ai, *bi)?,
                    Some(cs) => {
                        let cs: Vec<_> = cs.iter().map(c).collect();
                        J::<E, P>::verify_with_advice(&mut t, &self.table(a), &self.table(b), *ai, *bi, &cs)?
                    }
                };
                new.extend(x.col_vals);
                new.push(x.selector);
            }
            JoinRed(a, b, l, r, rg) => h::join_reduction::join_reduction::JoinReductionIOP::<E, P>::verify(
                &mut t,
                &self.bag(a),
                &self.bag(b),
                &c(l),
                &c(r),
                &self.bag(rg),
            )?,
            GroupBy { input, gcol, supp, ssel, smul, aggs, range } => {
                use h::group_by::group_by::*;
                let ins = GroupByInstructionWithVerifyingAdvice {
                    grouping_cols: vec![*gcol],
                    support_cols: vec![c(supp)],
                    support_sel: c(ssel),
                    support_multiplicity: c(smul),
                    agg_instr: aggs
                        .iter()
                        .map(|(i, s, p)| (*i, if *s { AggregationType::Sum } else { AggregationType::Count }, c(p)))
                        .collect(),
                };
                let x = GroupByIOP::<E, P>::verify_with_advice(&mut t, &self.table(input), &ins, &self.bag(range))?;
                new.extend(x.col_vals);
                new.push(x.selector);
            }
        }
        for x in new {
            let nv = nvs.get(self.cols.len()).copied().unwrap_or(0);
            self.cols.push((x, nv));
        }
        Ok(())
    }
    pub fn run(&mut self, prog: &Program) -> Result<(), (usize, String)> {
        while !self.done(prog) {
            let i = self.pos;
            self.advance(prog).map_err(|e| (i, e))?;
        }
        Ok(())
    }
    pub fn decide(&mut self) -> Verdict {
        let mut p = false;
        match flat(guard(|| self.t.verify_claims()), &mut p) {
            Ok(()) => Verdict::Accepted,
            // a refusal is final: asking again changes nothing
            Err(m) if !p && guard(|| self.t.verify_claims()).is_ok_and(|r| r.is_ok()) => Verdict::refused(AGAIN, &m),
            Err(m) => Verdict::refused("decision", &m),
        }
    }
    /// all remaining steps and the decision
    pub fn finish(&mut self, prog: &Program) -> Verdict {
        match self.run(prog) {
            Ok(()) => self.decide(),
            Err((i, e)) => Verdict::refused(&format!("verifier step {} ({})", i, prog.steps[i].name()), &e),
        }
    }
}

/// Commitments of the program's commit steps, made outside any session.
pub fn own_comms(prog: &Program, nv: usize) -> Rc<Vec<Comm>> {
    Rc::new(
        prog.steps
            .iter()
            .filter_map(|s| match s {
                Step::Commit(v) => Some(P::commit(&params(nv).prover, &mle(v)).expect("commit")),
                _ => None,
            })
            .collect(),
    )
}

/// One honest-code exchange: prove, hand the proof over, verify.
pub fn exchange(prog: &Program, nv: usize, source: Source) -> Verdict {
    let mut p = Prover::new(nv);
    if let Err((i, e)) = p.run(prog) {
        return Verdict::refused(&format!("prover step {} ({})", i, prog.steps[i].name()), &e);
    }
    let proof = match p.compile() {
        Ok(x) => x,
        Err(e) => return Verdict::refused("prover compilation", &e),
    };
    let mut v = Verifier::new(nv, source);
    v.receive(proof);
    v.finish(prog)
}

// ---------------------------------------------------------------- proofs as bytes

pub fn comm_bytes(c: &Comm) -> Vec<u8> {
    ser(&c.0)
}
/// Every part of a proof in canonical order.
pub fn proof_parts(p: &Proof) -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    let mut ids: Vec<_> = p.comms.keys().collect();
    ids.sort();
    for id in ids {
        out.push((format!("comm {}", id.0), comm_bytes(&p.comms[id])));
    }
    let mut ids: Vec<_> = p.sumcheck_claims.keys().collect();
    ids.sort();
    for id in ids {
        out.push((format!("sum {}", id.0), ser(&p.sumcheck_claims[id])));
    }
    out.push(("aux nv".into(), p.sc_aux_info.num_variables.to_le_bytes().to_vec()));
    out.push(("aux degree".into(), p.sc_aux_info.max_degree.to_le_bytes().to_vec()));
    out.push(("sc point".into(), ser(&p.sc_proof.point)));
    for (i, m) in p.sc_proof.proofs.iter().enumerate() {
        out.push((format!("sc msg {}", i), ser(h::message_evals(m))));
    }
    let mut q: Vec<_> = p.query_map.iter().map(|((id, pt), v)| (*id, ser(pt), ser(v))).collect();
    q.sort();
    for (id, pt, v) in q {
        out.push((format!("query {}", id.0), [pt, v].concat()));
    }
    for (k, b) in p.pcs_proof.iter().enumerate() {
        for (i, x) in b.f_i_eval_at_point_i.iter().enumerate() {
            out.push((format!("opening {} value {}", k, i), ser(x)));
        }
        let sc = h::batch_sum_check(b);
        out.push((format!("opening {} point", k), ser(&sc.point)));
        for (i, m) in sc.proofs.iter().enumerate() {
            out.push((format!("opening {} msg {}", k, i), ser(h::message_evals(m))));
        }
        for (i, x) in h::batch_g_prime(b).proofs.iter().enumerate() {
            out.push((format!("opening {} element {}", k, i), ser(x)));
        }
    }
    out
}
pub fn proof_bytes(p: &Proof) -> Vec<u8> {
    let mut v = vec![];
    for (n, b) in proof_parts(p) {
        v.extend(n.into_bytes());
        v.extend((b.len() as u64).to_le_bytes());
        v.extend(b);
    }
    v
}
pub fn g1_generator_like(ctx: &mut Ctx) -> G1Affine {
    use ark_ec::{AffineRepr, CurveGroup};
    (G1Affine::generator() * nonzero_f(ctx)).into_affine()
}
