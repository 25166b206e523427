//! Commitments, openings, sum and zero proofs, transcript, arithmetic, storage.

use std::sync::Arc;

use ark_bls12_381::{Fr, G1Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};

use merlin::sim as tlog;
use zk_sql::arithmetic as ar;
use zk_sql::arithmetic::{VPAuxInfo, VirtualPolynomial};
use zk_sql::sim_hooks as h;
use zk_sql::subroutines::{
    BatchProof, Commitment, IOPProof, MultilinearKzgProof, MultilinearProverParam, MultilinearUniversalParams, MultilinearVerifierParam,
    PolyIOP, PolynomialCommitmentScheme, StructuredReferenceString, SumCheck, ZeroCheck,
};
use zk_sql::tracker::prelude as du;
use zk_sql::transcript::IOPTranscript;

use crate::core::*;
use crate::session::begin;
use crate::world::*;

pub type Tr = IOPTranscript<F>;
type Opening = MultilinearKzgProof<E>;
type Batch = BatchProof<E, P>;
type SC = IOPProof<F>;

pub fn fresh_transcript(ctx: &mut Ctx) -> Tr {
    let mut t = Tr::new(b"simulation");
    let s = ctx.seed64();
    t.append_message(b"session", &s.to_le_bytes()).expect("append");
    t
}
pub fn any_vals(ctx: &mut Ctx, nv: usize) -> Vec<F> {
    match ctx.draw(10) {
        4 => {
            // linear in the index bits, with the same slopes again
            let (c, a, b) = (any_f(ctx), any_f(ctx), any_f(ctx));
            let k: Vec<F> = (0..nv).map(|_| if ctx.chance(3, 4) { a } else { b }).collect();
            (0..1usize << nv).map(|i| c + (0..nv).filter(|j| i >> j & 1 == 1).map(|j| k[j]).sum::<F>()).collect()
        }
        5 => {
            // row numbers, or a part of them over and over
            let (m, k) = (ctx.range(0, nv), ctx.draw(2) as u64);
            (0..1u64 << nv).map(|i| f(if k == 0 { i & ((1 << m) - 1) } else { i >> m })).collect()
        }
        0 => vec![f(0); 1 << nv],
        1 => {
            let k = any_f(ctx);
            vec![k; 1 << nv]
        }
        2 => {
            let mut v = vec![f(0); 1 << nv];
            let i = ctx.pick(v.len());
            v[i] = nonzero_f(ctx);
            v
        }
        3 => (0..1 << nv).map(|_| wide_f(ctx)).collect(),
        _ => {
            // many rows from one draw
            let mut p = Prng::new(ctx.seed64());
            (0..1 << nv)
                .map(|_| match p.next() % 5 {
                    0 => f(0),
                    1 => f(1),
                    2 => -f(1),
                    _ => f(p.next() % 1000),
                })
                .collect()
        }
    }
}
fn other_f(ctx: &mut Ctx, x: &F) -> F {
    *x + nonzero_f(ctx)
}
fn any_g1(ctx: &mut Ctx) -> G1Affine {
    match ctx.draw(4) {
        0 => G1Affine::zero(),
        1 => G1Affine::generator(),
        _ => {
            let k = wide_f(ctx);
            (G1Affine::generator() * k).into_affine()
        }
    }
}
/// Damage one group element so that it differs.
pub fn damage_g1(ctx: &mut Ctx, g: &mut G1Affine) {
    let old = *g;
    *g = match ctx.draw(4) {
        0 => (old.into_group() + G1Affine::generator()).into_affine(),
        1 => -old,
        _ => any_g1(ctx),
    };
    if *g == old {
        *g = (old.into_group() + G1Affine::generator()).into_affine();
    }
}
fn size(ctx: &mut Ctx, lo: usize, hi: usize) -> usize {
    // biased to small, now and then the largest
    if ctx.chance(1, 12) {
        hi
    } else {
        let m = (lo + 4).min(hi);
        ctx.range(lo, m)
    }
}

// ---------------------------------------------------------------- C07

struct Keys {
    prover: MultilinearProverParam<E>,
    verifier: MultilinearVerifierParam<E>,
    what: String,
}
/// Keys for `n` variables: generated at that size, or trimmed from larger
/// parameters; the two parties may have trimmed separately.
fn keys(ctx: &mut Ctx, n: usize) -> Keys {
    let from = if ctx.chance(1, 2) { size(ctx, n, MAX_NV) } else { n };
    let (p, v, how) = narrowed(ctx, &params(from).universal, n);
    if from > n {
        ctx.probe("trimmed_parameters");
    }
    Keys { prover: p, verifier: v, what: format!("keys for {} variables {} from {}", n, how, from) }
}
/// Keys for `n` variables out of larger parameters, by any of the ways the
/// library offers; each party may use a different one.
fn narrowed(ctx: &mut Ctx, u: &MultilinearUniversalParams<E>, n: usize) -> (MultilinearProverParam<E>, MultilinearVerifierParam<E>, &'static str) {
    let trimmed = || P::trim(u, None, Some(n)).expect("trim");
    match ctx.draw(5) {
        0 => (u.extract_prover_param(n), u.extract_verifier_param(n), "extracted"),
        1 => (trimmed().0, u.extract_verifier_param(n), "trimmed (prover) and extracted (verifier)"),
        2 => {
            let (p, v) = u.trim(n).expect("trim");
            (p, v, "trimmed directly")
        }
        3 => (u.extract_prover_param(n), trimmed().1, "extracted (prover) and trimmed (verifier)"),
        _ => {
            let (p, v) = trimmed();
            (p, v, "trimmed")
        }
    }
}

pub fn open_true(ctx: &mut Ctx) -> R {
    begin(ctx);
    let n = size(ctx, 1, MAX_NV);
    let k = keys(ctx, n);
    let m = ctx.range(1, n);
    let vals = any_vals(ctx, m);
    let pt = point(ctx, m);
    ctx.say(format!("{}, polynomial {} at {}", k.what, short(&vals), show(&pt)));
    ctx.nontrivial = true;
    let want = mle_eval(&vals, &pt);
    let Ok(c) = P::commit(&k.prover, &mle(&vals)) else { return fail("commit-refused", "commit failed") };
    let c2 = P::commit(&params(n).prover, &mle(&vals)).expect("commit");
    ctx.mix(&ser(&c));
    let (proof, got) = match P::open(&k.prover, &mle(&vals), &pt) {
        Ok(x) => x,
        Err(e) => return fail("open-refused", format!("{:?}", e)),
    };
    ctx.mix(&ser(&proof));
    if got != want {
        return fail("wrong-opening-value", format!("opening states {}, the value is {}", show1(&got), show1(&want)));
    }
    match P::verify(&k.verifier, &c, &pt, &want, &proof) {
        Ok(true) => {}
        r => return fail("true-opening-refused", format!("{:?}", r.map_err(|e| format!("{:?}", e)))),
    }
    // binding and homomorphism over the same keys
    let mut other = vals.clone();
    let i = ctx.pick(other.len());
    other[i] += nonzero_f(ctx);
    let co = P::commit(&k.prover, &mle(&other)).expect("commit");
    if co == c {
        return fail("commitment-not-binding", format!("row {} does not change the commitment", i));
    }
    let sum: Vec<F> = vals.iter().zip(&other).map(|(a, b)| *a + b).collect();
    let cs = P::commit(&k.prover, &mle(&sum)).expect("commit");
    if cs.0 != (c.0.into_group() + co.0).into_affine() {
        return fail("commitment-not-linear", "commitments do not add up");
    }
    let again = P::commit(&k.prover, &mle(&vals)).expect("commit");
    if again != c {
        return fail("commitment-not-a-function", "the same polynomial has two commitments");
    }
    let _ = c2;
    Ok(())
}
fn short(v: &[F]) -> String {
    if v.len() <= 16 {
        show(v)
    } else {
        format!("{} rows {}...", v.len(), show(&v[..8]))
    }
}

pub fn open_false(ctx: &mut Ctx) -> R {
    begin(ctx);
    let n = size(ctx, 1, 6);
    let k = keys(ctx, n);
    let m = ctx.range(1, n);
    let mut vals = any_vals(ctx, m);
    let mut pt = point(ctx, m);
    let c = P::commit(&k.prover, &mle(&vals)).expect("commit");
    let (mut proof, mut val) = P::open(&k.prover, &mle(&vals), &pt).expect("open");
    let honest = ser(&proof);
    let original = (c, pt.clone(), val);
    let mut c = c;
    ctx.say(format!("{}, polynomial {} at {}", k.what, short(&vals), show(&pt)));
    let mut unknown_poly = false;
    for _ in 0..ctx.range(1, 2) {
        let what = match ctx.draw(11) {
            0 => {
                val = other_f(ctx, &val);
                "value"
            }
            1 => {
                let i = ctx.pick(pt.len());
                pt[i] = other_f(ctx, &pt[i]);
                "point"
            }
            2 => {
                // commitment of another polynomial
                let i = ctx.pick(vals.len());
                vals[i] = other_f(ctx, &vals[i]);
                c = P::commit(&k.prover, &mle(&vals)).expect("commit");
                "commitment_of_other_polynomial"
            }
            3 => {
                damage_g1(ctx, &mut c.0);
                unknown_poly = true;
                "commitment"
            }
            4 => {
                let i = ctx.pick(proof.proofs.len().max(1));
                if let Some(g) = proof.proofs.get_mut(i) {
                    damage_g1(ctx, g);
                }
                "opening_element"
            }
            5 => {
                let l = proof.proofs.len();
                if l > 1 {
                    let (i, j) = (ctx.pick(l), ctx.pick(l));
                    proof.proofs.swap(i, j);
                }
                "opening_swap"
            }
            6 => {
                proof.proofs.pop();
                "opening_truncated"
            }
            7 => {
                let g = any_g1(ctx);
                proof.proofs.push(g);
                "opening_surplus"
            }
            8 => {
                // the opening of another point or polynomial
                let q = point(ctx, m);
                let other = any_vals(ctx, m);
                let (p2, _) = if ctx.chance(1, 2) { P::open(&k.prover, &mle(&vals), &q) } else { P::open(&k.prover, &mle(&other), &pt) }
                    .expect("open");
                proof = p2;
                "stale_opening"
            }
            9 => {
                if pt.len() > 1 {
                    let i = ctx.pick(pt.len() - 1);
                    pt.swap(i, i + 1);
                }
                "point_order"
            }
            _ => {
                // a zero opening element everywhere
                for g in proof.proofs.iter_mut() {
                    *g = G1Affine::zero();
                }
                "opening_zeroed"
            }
        };
        ctx.fault(what);
        ctx.say(format!("fault: {}", what));
    }
    let statement = if unknown_poly { None } else { Some(mle_eval(&vals, &pt) == val) };
    let untouched = ser(&proof) == honest;
    // True statement with the very opening an honest prover makes: allowed.
    let allowed = match statement {
        Some(true) => {
            let (p2, _) = P::open(&k.prover, &mle(&vals), &pt).expect("open");
            ser(&p2) == ser(&proof)
        }
        Some(false) => false,
        // the commitment of an unknown polynomial: with the honest opening kept
        // and point and value unchanged it cannot verify for a second commitment
        None => {
            if !untouched {
                return Ok(());
            }
            let c0 = P::commit(&k.prover, &mle(&vals)).expect("commit");
            c0 == c || mle_eval(&vals, &pt) != val || (c, pt.clone(), val) == original
        }
    };
    ctx.nontrivial = true;
    let r = guard(|| P::verify(&k.verifier, &c, &pt, &val, &proof));
    match r {
        Ok(Ok(true)) if !allowed => {
            fail("false-opening-accepted", format!("value {} at {} accepted (statement true: {:?})", show1(&val), show(&pt), statement))
        }
        Ok(r) => {
            ctx.mix(format!("{:?}", r.is_ok()).as_bytes());
            Ok(())
        }
        Err(e) => fail("panic", format!("verifying a damaged opening: {}", e)),
    }
}

pub fn open_size(ctx: &mut Ctx) -> R {
    begin(ctx);
    let n = ctx.range(1, 5);
    let k = keys(ctx, n);
    let m = ctx.range(n + 1, 6.max(n + 1));
    let vals = any_vals(ctx, m);
    ctx.say(format!("{}, polynomial of {} variables", k.what, m));
    ctx.nontrivial = true;
    ctx.fault("oversized_polynomial");
    match guard(|| P::commit(&k.prover, &mle(&vals))) {
        Ok(Err(_)) => {}
        Ok(Ok(_)) => return fail("oversized-accepted", "a polynomial larger than the parameters was committed"),
        Err(e) => return fail("panic", e),
    }
    let pt = point(ctx, m);
    match guard(|| P::open(&k.prover, &mle(&vals), &pt)) {
        Ok(Err(_)) => {}
        Ok(Ok(_)) => return fail("oversized-accepted", "a polynomial larger than the parameters was opened"),
        Err(e) => return fail("panic", e),
    }
    // a point of the wrong length
    let vals = any_vals(ctx, n);
    let l = (n + 1 + ctx.pick(3)) % (n + 3);
    if l != n {
        let pt = point(ctx, l);
        match guard(|| P::open(&k.prover, &mle(&vals), &pt)) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => return fail("wrong-length-accepted", format!("opened {} variables at a point of length {}", n, l)),
            Err(e) => return fail("panic", e),
        }
        let good = point(ctx, n);
        let c = P::commit(&k.prover, &mle(&vals)).expect("commit");
        let (proof, v) = P::open(&k.prover, &mle(&vals), &good).expect("open");
        let mut bad = good.clone();
        let z = any_f(ctx);
        bad.resize(l, z);
        match guard(|| P::verify(&k.verifier, &c, &bad, &v, &proof)) {
            Ok(Ok(true)) => return fail("wrong-length-accepted", format!("an opening at {} coordinates verified at {}", n, l)),
            Ok(_) => {}
            Err(e) => return fail("panic", e),
        }
    }
    for (deg, s) in [(None, None), (None, Some(n + 8))] {
        match guard(|| P::trim(&params(n).universal, deg, s)) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => return fail("oversized-accepted", "keys were trimmed beyond the parameters"),
            Err(e) => return fail("panic", e),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

pub struct BatchCase {
    pub nv: usize,
    pub polys: Vec<Vec<F>>,
    pub points: Vec<Vec<F>>,
    pub evals: Vec<F>,
    pub comms: Vec<Comm>,
    pub session: Tr,
}
pub fn batch_case(ctx: &mut Ctx) -> BatchCase {
    let nv = size(ctx, 1, 6);
    let k = if ctx.chance(1, 10) { ctx.range(9, 20) } else { ctx.range(1, 8) };
    let npts = ctx.range(1, k);
    let pts: Vec<Vec<F>> = (0..npts).map(|_| point(ctx, nv)).collect();
    let mut polys: Vec<Vec<F>> = vec![];
    for i in 0..k {
        let v = if i > 0 && ctx.chance(1, 5) { polys[ctx.pick(i)].clone() } else { any_vals(ctx, nv) };
        polys.push(v);
    }
    let points: Vec<Vec<F>> = (0..k).map(|_| pts[ctx.pick(npts)].clone()).collect();
    let evals: Vec<F> = polys.iter().zip(&points).map(|(p, z)| mle_eval(p, z)).collect();
    let comms = polys.iter().map(|p| P::commit(&params(nv).prover, &mle(p)).expect("commit")).collect();
    let session = fresh_transcript(ctx);
    ctx.say(format!("batch of {} polynomials over {} variables at {} distinct points", k, nv, npts));
    if k == 1 {
        ctx.probe("single_polynomial_batch");
    }
    BatchCase { nv, polys, points, evals, comms, session }
}
impl BatchCase {
    pub fn open(&self, evals: &[F], t: &mut Tr) -> Result<Batch, String> {
        let polys: Vec<Arc<Mle>> = self.polys.iter().map(|p| Arc::new(mle(p))).collect();
        P::multi_open(&params(self.nv).prover, &polys, &self.points, evals, t).map_err(|e| format!("{:?}", e))
    }
    pub fn verify(&self, comms: &[Comm], points: &[Vec<F>], b: &Batch, t: &mut Tr) -> Result<bool, String> {
        P::batch_verify(&params(self.nv).verifier, comms, points, b, t).map_err(|e| format!("{:?}", e))
    }
}
pub fn batch_bytes(b: &Batch) -> Vec<u8> {
    let mut v = ser(&b.f_i_eval_at_point_i);
    v.extend(ser(&h::batch_sum_check(b).proofs));
    v.extend(ser(h::batch_g_prime(b)));
    v
}

pub fn batch_true(ctx: &mut Ctx) -> R {
    begin(ctx);
    let b = batch_case(ctx);
    ctx.nontrivial = true;
    let (mut tp, mut tv) = (b.session.clone(), b.session.clone());
    let proof = match b.open(&b.evals, &mut tp) {
        Ok(p) => p,
        Err(e) => return fail("batch-open-refused", e),
    };
    ctx.mix(&batch_bytes(&proof));
    if proof.f_i_eval_at_point_i != b.evals {
        return fail("wrong-batch-values", "the batch opening states other values than it was asked to prove");
    }
    match b.verify(&b.comms, &b.points, &proof, &mut tv) {
        Ok(true) => {}
        r => return fail("true-batch-refused", format!("{:?}", r)),
    }
    let (x, y) = (tp.get_and_append_challenge(b"after").expect("challenge"), tv.get_and_append_challenge(b"after").expect("challenge"));
    if x != y {
        return fail("challenge-streams-diverge", "prover and verifier draw different challenges after the batch opening");
    }
    Ok(())
}

pub fn batch_false(ctx: &mut Ctx) -> R {
    begin(ctx);
    let b = batch_case(ctx);
    let k = b.polys.len();
    let mut stated = b.evals.clone();
    let (mut polys, mut points) = (b.polys.clone(), b.points.clone());
    let mut tp = b.session.clone();
    let lying = ctx.chance(1, 3);
    if lying {
        let i = ctx.pick(k);
        stated[i] = other_f(ctx, &stated[i]);
        if k > 1 && ctx.chance(1, 3) {
            // a second lie that keeps the plain sum of the values
            let j = (i + 1 + ctx.pick(k - 1)) % k;
            let d = b.evals[i] - stated[i];
            stated[j] += d;
        }
        ctx.fault("lying_prover_values");
    }
    let mut proof = match guard(|| b.open(&stated, &mut tp)) {
        Ok(Ok(p)) => p,
        _ => {
            ctx.nontrivial = lying;
            return Ok(());
        }
    };
    let before = batch_bytes(&proof);
    let mut comms = b.comms.clone();
    let mut unknown = false;
    let n = if lying { ctx.range(0, 1) } else { ctx.range(1, 2) };
    for _ in 0..n {
        let what = match ctx.draw(12) {
            0 => {
                let i = ctx.pick(proof.f_i_eval_at_point_i.len().max(1));
                if let Some(x) = proof.f_i_eval_at_point_i.get_mut(i) {
                    *x = *x + nonzero_f(ctx);
                }
                "value"
            }
            1 => {
                let i = ctx.pick(k);
                let r = ctx.pick(polys[i].len());
                polys[i][r] += nonzero_f(ctx);
                comms[i] = P::commit(&params(b.nv).prover, &mle(&polys[i])).expect("commit");
                "commitment_of_other_polynomial"
            }
            2 => {
                let i = ctx.pick(k);
                damage_g1(ctx, &mut comms[i].0);
                unknown = true;
                "commitment"
            }
            3 => {
                let i = ctx.pick(k);
                let j = ctx.pick(b.nv);
                points[i][j] = other_f(ctx, &points[i][j]);
                "point"
            }
            4 => {
                if k > 1 {
                    let i = ctx.pick(k - 1);
                    comms.swap(i, i + 1);
                    polys.swap(i, i + 1);
                }
                "commitment_order"
            }
            5 => {
                if k > 1 {
                    let i = ctx.pick(k - 1);
                    points.swap(i, i + 1);
                }
                "point_order"
            }
            6 => {
                let l = proof.f_i_eval_at_point_i.len();
                if l > 1 {
                    let i = ctx.pick(l - 1);
                    proof.f_i_eval_at_point_i.swap(i, i + 1);
                }
                "value_order"
            }
            7 => {
                let sc = h::batch_sum_check_mut(&mut proof);
                damage_sum_proof(ctx, sc);
                "round_message"
            }
            8 => {
                let g = h::batch_g_prime_mut(&mut proof);
                let i = ctx.pick(g.proofs.len().max(1));
                if let Some(x) = g.proofs.get_mut(i) {
                    damage_g1(ctx, x);
                }
                "opening_element"
            }
            9 => {
                // the same request of another session
                let mut t2 = fresh_transcript(ctx);
                match b.open(&b.evals, &mut t2) {
                    Ok(p) if batch_bytes(&p) != before => {
                        proof = p;
                        "replayed_from_other_session"
                    }
                    _ => return Ok(()),
                }
            }
            10 => {
                // values of another batch spliced in
                let mut t2 = fresh_transcript(ctx);
                match b.open(&b.evals, &mut t2) {
                    Ok(p) => {
                        match ctx.draw(2) {
                            0 => *h::batch_g_prime_mut(&mut proof) = h::batch_g_prime(&p).clone(),
                            _ => *h::batch_sum_check_mut(&mut proof) = h::batch_sum_check(&p).clone(),
                        }
                        "spliced"
                    }
                    _ => return Ok(()),
                }
            }
            _ => {
                match compensate_values(ctx, &b, &mut proof) {
                    true => "compensating_values",
                    false => return Ok(()),
                }
            }
        };
        ctx.fault(what);
        ctx.say(format!("fault: {}", what));
    }
    // two damages can undo each other
    if unknown {
        unknown = (0..k).any(|i| P::commit(&params(b.nv).prover, &mle(&polys[i])).expect("commit") != comms[i]);
    }
    let changed = batch_bytes(&proof) != before;
    let st = &proof.f_i_eval_at_point_i;
    let truth = st.len() == k && (0..k).all(|i| mle_eval(&polys[i], &points[i]) == st[i]);
    if unknown && (changed || !truth) {
        // no model of what the damaged commitment commits to
        return Ok(());
    }
    // after permuting equal entries the proof is the honest one of the new request
    if truth && !unknown {
        let nb = BatchCase { nv: b.nv, polys: polys.clone(), points: points.clone(), evals: st.clone(), comms: comms.clone(), session: b.session.clone() };
        let mut t2 = b.session.clone();
        if let Ok(p) = nb.open(st, &mut t2) {
            if batch_bytes(&p) == batch_bytes(&proof) {
                return Ok(());
            }
        }
    }
    ctx.nontrivial = true;
    let mut tv = b.session.clone();
    match guard(|| b.verify(&comms, &points, &proof, &mut tv)) {
        Ok(Ok(true)) => fail(
            "false-batch-accepted",
            format!("batch accepted; values true for the request: {}, proof altered: {}, commitment damaged: {}", truth, changed, unknown),
        ),
        Ok(_) => Ok(()),
        Err(e) => fail("panic", format!("verifying a damaged batch: {}", e)),
    }
}
pub fn challenges(log: &[tlog::Event]) -> Vec<F> {
    log.iter()
        .filter_map(|e| match e {
            tlog::Event::Challenge(_, b) => Some(F::from_le_bytes_mod_order(b)),
            _ => None,
        })
        .collect()
}
/// Change two values so that their combination under the challenges of the
/// honest run stays what it was: accepted only if those challenges did not
/// depend on the values.
fn compensate_values(ctx: &mut Ctx, b: &BatchCase, proof: &mut Batch) -> bool {
    let k = proof.f_i_eval_at_point_i.len();
    if k < 2 || k != b.comms.len() {
        return false;
    }
    let mut tv = b.session.clone();
    tlog::record();
    let r = guard(|| b.verify(&b.comms, &b.points, proof, &mut tv));
    let log = tlog::take();
    if r.is_err() {
        return false;
    }
    let ch = challenges(&log);
    let ell = (usize::BITS - (k - 1).leading_zeros()) as usize;
    if ch.len() < ell {
        return false;
    }
    let t = &ch[..ell];
    let w = |i: usize| t.iter().enumerate().map(|(j, r)| if (i >> j) & 1 == 1 { *r } else { f(1) - r }).product::<F>();
    let i = ctx.pick(k);
    let j = (i + 1 + ctx.pick(k - 1)) % k;
    let d = nonzero_f(ctx);
    let Some(inv) = w(j).inverse() else { return false };
    proof.f_i_eval_at_point_i[i] += d;
    proof.f_i_eval_at_point_i[j] -= d * w(i) * inv;
    true
}

// ---------------------------------------------------------------- C09, C10

/// A sum of products, its multilinear factors possibly shared.
pub struct Sop {
    pub nv: usize,
    pub mles: Vec<Vec<F>>,
    pub terms: Vec<(F, Vec<usize>)>,
}
impl Sop {
    pub fn draw(ctx: &mut Ctx, max_nv: usize, max_deg: usize) -> Self {
        let nv = size(ctx, 1, max_nv);
        let n = ctx.range(1, 4);
        let mles: Vec<Vec<F>> = (0..n).map(|_| any_vals(ctx, nv)).collect();
        let top = if ctx.chance(1, 6) { max_deg } else { 4.min(max_deg) };
        let terms = (0..ctx.range(1, 4))
            .map(|_| {
                let d = ctx.range(1, top);
                let c = any_f(ctx);
                (c, (0..d).map(|_| ctx.pick(n)).collect())
            })
            .collect();
        Sop { nv, mles, terms }
    }
    /// Many rows, few factors.
    pub fn tall(ctx: &mut Ctx) -> Self {
        let nv = ctx.range(8, 13);
        let n = ctx.range(1, 2);
        let mles: Vec<Vec<F>> = (0..n).map(|_| any_vals(ctx, nv)).collect();
        let terms = (0..ctx.range(1, 2))
            .map(|_| {
                let c = any_f(ctx);
                (c, (0..ctx.range(1, 3)).map(|_| ctx.pick(n)).collect())
            })
            .collect();
        Sop { nv, mles, terms }
    }
    pub fn degree(&self) -> usize {
        self.terms.iter().map(|t| t.1.len()).max().unwrap_or(0)
    }
    pub fn eval(&self, pt: &[F]) -> F {
        let e: Vec<F> = self.mles.iter().map(|m| mle_eval(m, pt)).collect();
        self.terms.iter().map(|(c, t)| *c * t.iter().map(|i| e[*i]).product::<F>()).sum()
    }
    pub fn row(&self, r: usize) -> F {
        self.terms.iter().map(|(c, t)| *c * t.iter().map(|i| self.mles[*i][r]).product::<F>()).sum()
    }
    pub fn sum(&self) -> F {
        (0..1usize << self.nv).map(|r| self.row(r)).sum()
    }
    pub fn real(&self) -> VirtualPolynomial<F> {
        let m: Vec<Arc<Mle>> = self.mles.iter().map(|v| Arc::new(mle(v))).collect();
        let mut p = VirtualPolynomial::new(self.nv);
        for (c, t) in &self.terms {
            p.add_mle_list(t.iter().map(|i| m[*i].clone()), *c).expect("term");
        }
        p
    }
    pub fn describe(&self) -> String {
        format!("{} variables, {} factors, terms {:?}", self.nv, self.mles.len(), self.terms.iter().map(|t| (show1(&t.0), t.1.clone())).collect::<Vec<_>>())
    }
    fn aux(&self) -> VPAuxInfo<F> {
        VPAuxInfo { max_degree: self.degree(), num_variables: self.nv, phantom: Default::default() }
    }
}
type Sub = (Vec<F>, F);
fn sum_prove(p: &VirtualPolynomial<F>, t: &mut Tr) -> Result<SC, String> {
    guard(|| <PolyIOP<F> as SumCheck<F>>::prove(p, t).map_err(|e| format!("{:?}", e))).and_then(|r| r)
}
fn sum_verify(sum: F, proof: &SC, aux: &VPAuxInfo<F>, t: &mut Tr) -> Result<Result<Sub, String>, String> {
    guard(|| {
        <PolyIOP<F> as SumCheck<F>>::verify(sum, proof, aux, t).map(|s| (s.point, s.expected_evaluation)).map_err(|e| format!("{:?}", e))
    })
}
fn zero_verify(proof: &SC, aux: &VPAuxInfo<F>, t: &mut Tr) -> Result<Result<Sub, String>, String> {
    guard(|| <PolyIOP<F> as ZeroCheck<F>>::verify(proof, aux, t).map(|s| (s.point, s.expected_evaluation)).map_err(|e| format!("{:?}", e)))
}

/// Damage a sum proof: one or more round messages change.
pub fn damage_sum_proof(ctx: &mut Ctx, sc: &mut SC) {
    let n = sc.proofs.len();
    if n == 0 {
        return;
    }
    let i = ctx.pick(n);
    match ctx.draw(6) {
        0 if n > 1 => {
            let j = (i + 1) % n;
            sc.proofs.swap(i, j);
        }
        1 => {
            // keep the sum of the first two evaluations
            let d = nonzero_f(ctx);
            let e = h::message_evals_mut(&mut sc.proofs[i]);
            if e.len() > 1 {
                e[0] += d;
                e[1] -= d;
            }
        }
        2 if n > 1 => {
            let j = (i + 1 + ctx.pick(n - 1)) % n;
            sc.proofs[i] = sc.proofs[j].clone();
        }
        3 => {
            let e = h::message_evals_mut(&mut sc.proofs[i]);
            let l = e.len();
            if l > 1 {
                let a = ctx.pick(l - 1);
                e.swap(a, a + 1);
            }
        }
        _ => {
            let d = nonzero_f(ctx);
            let e = h::message_evals_mut(&mut sc.proofs[i]);
            if !e.is_empty() {
                let a = ctx.pick(e.len());
                e[a] += d;
            }
        }
    }
}
/// Change round message `i` of `sc` so that at the challenge of the honest run
/// it takes the value it had, and its sum over 0 and 1 moves by `shift`
/// (or stays, when degree allows another change). Accepted only if that
/// challenge did not depend on the message.
pub fn compensate_message(ctx: &mut Ctx, sc: &mut SC, i: usize, r: F, shift: F) -> bool {
    let e = h::message_evals_mut(&mut sc.proofs[i]);
    let n = e.len();
    if n < 2 {
        return false;
    }
    // Lagrange basis at r
    let l: Vec<F> = (0..n)
        .map(|a| {
            (0..n)
                .filter(|b| *b != a)
                .map(|b| (r - f(b as u64)) * (f(a as u64) - f(b as u64)).inverse().unwrap())
                .product::<F>()
        })
        .collect();
    if n == 2 {
        // d0 + d1 = shift, d0 l0 + d1 l1 = 0
        let den = l[0] - l[1];
        let Some(inv) = den.inverse() else { return false };
        if shift.is_zero() {
            return false;
        }
        let d0 = -shift * l[1] * inv;
        e[0] += d0;
        e[1] += shift - d0;
        return true;
    }
    // choose d1 freely, d0 = shift - d1, fix up with the last evaluation
    let d1 = nonzero_f(ctx);
    let d0 = shift - d1;
    let Some(inv) = l[n - 1].inverse() else { return false };
    let dl = -(d0 * l[0] + d1 * l[1]) * inv;
    e[0] += d0;
    e[1] += d1;
    e[n - 1] += dl;
    true
}

pub fn sum_true(ctx: &mut Ctx) -> R {
    begin(ctx);
    let p = if ctx.chance(1, 12) { Sop::tall(ctx) } else { Sop::draw(ctx, 8, 24) };
    ctx.say(p.describe());
    let t0 = fresh_transcript(ctx);
    let (mut tp, mut tv) = (t0.clone(), t0);
    ctx.nontrivial = true;
    let poly = p.real();
    let proof = match sum_prove(&poly, &mut tp) {
        Ok(x) => x,
        Err(e) => return fail("sum-prove-refused", e),
    };
    ctx.mix(&ser(&proof.proofs));
    let s = p.sum();
    if <PolyIOP<F> as SumCheck<F>>::extract_sum(&proof) != s {
        return fail("wrong-extracted-sum", "the sum extracted from an honest proof is not the sum");
    }
    match sum_verify(s, &proof, &poly.aux_info, &mut tv) {
        Ok(Ok((pt, e))) => {
            if pt != proof.point {
                return fail("reduced-point-differs", "prover and verifier end at different points");
            }
            if p.eval(&pt) != e {
                return fail("reduced-claim-false", format!("the true sum was proved, but the reduced claim {} is false at {}", show1(&e), show(&pt)));
            }
        }
        Ok(Err(e)) => return fail("true-sum-refused", e),
        Err(e) => return fail("panic", e),
    }
    if tp.get_and_append_challenge(b"x").ok() != tv.get_and_append_challenge(b"x").ok() {
        return fail("challenge-streams-diverge", "prover and verifier draw different challenges after the sum proof");
    }
    Ok(())
}
pub fn sum_false(ctx: &mut Ctx) -> R {
    begin(ctx);
    let mut p = if ctx.chance(1, 12) { Sop::tall(ctx) } else { Sop::draw(ctx, 5, 12) };
    ctx.say(p.describe());
    let t0 = fresh_transcript(ctx);
    let mut tp = t0.clone();
    let poly = p.real();
    let Ok(mut proof) = sum_prove(&poly, &mut tp) else { return Ok(()) };
    let honest = ser(&proof.proofs);
    let mut s = p.sum();
    let what = match ctx.draw(8) {
        6 => {
            // a lie in the first variables, taken back in round i
            let i = ctx.pick(p.nv);
            for m in p.mles.iter_mut() {
                for r in 0..m.len() {
                    m[r] = m[r & ((2 << i) - 1)];
                }
            }
            let mut q = Sop { nv: p.nv, mles: p.mles.clone(), terms: p.terms.clone() };
            let (k, at) = (ctx.pick(q.mles.len()), ctx.pick(2 << i));
            let d = nonzero_f(ctx);
            (0..1usize << p.nv).filter(|r| r & ((2 << i) - 1) == at).for_each(|r| q.mles[k][r] += d);
            let Ok(x) = sum_prove(&q.real(), &mut t0.clone()) else { return Ok(()) };
            proof = x;
            s = q.sum();
            let rest = f(1u64 << (p.nv - i - 1));
            let want = p.eval(&proof.point) * rest;
            if s == p.sum() || !late(ctx, &mut proof, i, want) {
                return Ok(());
            }
            "late_message"
        }
        0 => {
            s = other_f(ctx, &s);
            "false_sum"
        }
        1 => {
            s = other_f(ctx, &s);
            damage_sum_proof(ctx, &mut proof);
            "false_sum_and_message"
        }
        2 => {
            let i = ctx.pick(p.nv);
            let shift = if i == 0 { nonzero_f(ctx) } else { f(0) };
            if i == 0 {
                s += shift;
            }
            let r = proof.point[i];
            if !compensate_message(ctx, &mut proof, i, r, shift) {
                return Ok(());
            }
            "compensating_message"
        }
        3 => {
            let shift = nonzero_f(ctx);
            s += shift;
            proof = adaptive(ctx, &p, shift, t0.clone(), false);
            "adaptive_prover"
        }
        4 => {
            // the proof of another polynomial of the same shape
            let mut q = Sop { nv: p.nv, mles: p.mles.clone(), terms: p.terms.clone() };
            let (i, r) = (ctx.pick(q.mles.len()), ctx.pick(1 << p.nv));
            q.mles[i][r] += nonzero_f(ctx);
            let Ok(x) = sum_prove(&q.real(), &mut t0.clone()) else { return Ok(()) };
            proof = x;
            s = q.sum();
            if s == p.sum() && (0..1usize << p.nv).all(|r| q.row(r) == p.row(r)) {
                return Ok(());
            }
            "proof_of_other_polynomial"
        }
        5 => {
            let mut t2 = fresh_transcript(ctx);
            let Ok(x) = sum_prove(&poly, &mut t2) else { return Ok(()) };
            proof = x;
            "replayed_from_other_session"
        }
        _ => {
            damage_sum_proof(ctx, &mut proof);
            "round_message"
        }
    };
    ctx.fault(what);
    ctx.say(format!("fault: {}", what));
    if s == p.sum() && ser(&proof.proofs) == honest {
        return Ok(());
    }
    ctx.nontrivial = true;
    match sum_verify(s, &proof, &p.aux(), &mut t0.clone()) {
        Ok(Ok((pt, e))) => {
            if p.eval(&pt) == e {
                return fail("false-sum-accepted", format!("{}: accepted and the reduced claim holds", what));
            }
            ctx.count("outcome.reduced_claim_false");
            Ok(())
        }
        Ok(Err(_)) => {
            ctx.count("outcome.refused");
            Ok(())
        }
        Err(e) => fail("panic", format!("{}: {}", what, e)),
    }
}
/// What the rounds of a zero check sum: the polynomial times the weights drawn
/// first; of a sum check the polynomial itself.
fn weighted(p: &Sop, t: &mut Tr, zero: bool) -> (Sop, usize) {
    let mut deg = p.degree();
    let mut q = Sop { nv: p.nv, mles: p.mles.clone(), terms: p.terms.clone() };
    if zero {
        let r = t.get_and_append_challenge_vectors(b"0check r", p.nv).expect("challenge");
        let eq = (0..1usize << p.nv).map(|i| (0..p.nv).map(|j| if (i >> j) & 1 == 1 { r[j] } else { f(1) - r[j] }).product::<F>()).collect();
        q.mles.push(eq);
        let k = q.mles.len() - 1;
        for t in q.terms.iter_mut() {
            t.1.push(k);
        }
        deg += 1;
    }
    (q, deg)
}
/// Part of the message of round `i` is altered once its challenge is known, so
/// that it takes the value `want` there; what it says about the sum stays. The
/// polynomial does not depend on the variables after `i`, so that the later
/// rounds only say that value over and over.
fn late(ctx: &mut Ctx, sc: &mut SC, i: usize, want: F) -> bool {
    let r = sc.point[i];
    let e = h::message_evals_mut(&mut sc.proofs[i]);
    let n = e.len();
    let l: Vec<F> = (0..n)
        .map(|a| (0..n).filter(|b| *b != a).map(|b| (r - f(b as u64)) * (f(a as u64) - f(b as u64)).inverse().unwrap()).product::<F>())
        .collect();
    let off = want - e.iter().zip(&l).map(|(x, y)| *x * y).sum::<F>();
    // one value past the first two, or the first two against each other
    if n > 2 && ctx.chance(2, 3) {
        let j = ctx.range(2, n - 1);
        let Some(inv) = l[j].inverse() else { return false };
        e[j] += off * inv;
    } else {
        let Some(inv) = (l[0] - l[1]).inverse() else { return false };
        e[0] += off * inv;
        e[1] -= off * inv;
    }
    let mut c = want;
    for k in i + 1..sc.proofs.len() {
        c *= f(2).inverse().unwrap();
        for x in h::message_evals_mut(&mut sc.proofs[k]).iter_mut() {
            *x = c;
        }
    }
    true
}
/// A dishonest prover that answers every round consistently with the running
/// false claim, as far as the protocol lets it: it carries an error whose sum
/// is `shift` through all rounds.
fn adaptive(ctx: &mut Ctx, p: &Sop, shift: F, mut t: Tr, zero: bool) -> SC {
    let mut deg = p.degree();
    let mut q = Sop { nv: p.nv, mles: p.mles.clone(), terms: p.terms.clone() };
    if zero {
        let r = t.get_and_append_challenge_vectors(b"0check r", p.nv).expect("challenge");
        let eq = (0..1usize << p.nv).map(|i| (0..p.nv).map(|j| if (i >> j) & 1 == 1 { r[j] } else { f(1) - r[j] }).product::<F>()).collect();
        q.mles.push(eq);
        let k = q.mles.len() - 1;
        for t in q.terms.iter_mut() {
            t.1.push(k);
        }
        deg += 1;
    }
    let mut aux = p.aux();
    aux.max_degree = deg;
    t.append_serializable_element(b"aux info", &aux).expect("append");
    let mut err = shift;
    let (mut pt, mut proofs) = (vec![], vec![]);
    let half = f(2).inverse().unwrap();
    for i in 0..p.nv {
        let rest = p.nv - i - 1;
        let mut e: Vec<F> = (0..=deg)
            .map(|x| {
                (0..1usize << rest)
                    .map(|b| {
                        let mut z: Vec<F> = pt.clone();
                        z.push(f(x as u64));
                        z.extend(vertex(b, rest));
                        q.eval(&z)
                    })
                    .sum()
            })
            .collect();
        // add an error polynomial with error(0)+error(1) = err
        let kind = ctx.draw(3);
        let line: Box<dyn Fn(F) -> F> = match kind {
            0 => Box::new(move |_| err * half),
            1 => Box::new(move |x| err * x),
            _ => Box::new(move |x| err * (f(1) - x)),
        };
        for (x, v) in e.iter_mut().enumerate() {
            *v += line(f(x as u64));
        }
        let m = h::prover_message(e);
        t.append_serializable_element(b"prover msg", &m).expect("append");
        proofs.push(m);
        let r = t.get_and_append_challenge(b"Internal round").expect("challenge");
        err = line(r);
        pt.push(r);
    }
    IOPProof { point: pt, proofs }
}

pub fn zero_true(ctx: &mut Ctx) -> R {
    begin(ctx);
    let p = zero_sop(ctx);
    ctx.say(p.describe());
    let t0 = fresh_transcript(ctx);
    let (mut tp, mut tv) = (t0.clone(), t0);
    ctx.nontrivial = true;
    let poly = p.real();
    let proof = match guard(|| <PolyIOP<F> as ZeroCheck<F>>::prove(&poly, &mut tp).map_err(|e| format!("{:?}", e))).and_then(|r| r) {
        Ok(x) => x,
        Err(e) => return fail("zero-prove-refused", e),
    };
    ctx.mix(&ser(&proof.proofs));
    match zero_verify(&proof, &poly.aux_info, &mut tv) {
        Ok(Ok((pt, e))) if p.eval(&pt) != e => fail("reduced-claim-false", format!("vanishing polynomial, but the reduced claim {} is false", show1(&e))),
        Ok(Ok((pt, _))) if pt != proof.point => fail("reduced-point-differs", "prover and verifier end at different points"),
        Ok(Ok(_)) => {
            if tp.get_and_append_challenge(b"x").ok() != tv.get_and_append_challenge(b"x").ok() {
                return fail("challenge-streams-diverge", "prover and verifier draw different challenges after the zero proof");
            }
            Ok(())
        }
        Ok(Err(e)) => fail("true-zero-refused", e),
        Err(e) => fail("panic", e),
    }
}
/// A sum of products that vanishes on every row.
fn zero_sop(ctx: &mut Ctx) -> Sop {
    let mut p = if ctx.chance(1, 10) { Sop::tall(ctx) } else { Sop::draw(ctx, 6, 10) };
    match ctx.draw(3) {
        0 => {
            // every term has a factor that vanishes where the others do not
            let n = p.mles.len();
            let m: Vec<F> = (0..1usize << p.nv).map(|r| if (0..n).all(|i| p.mles[i][r].is_zero()) { f(1) } else { f(0) }).collect();
            p.mles.push(m);
            for t in p.terms.iter_mut() {
                t.1.push(n);
            }
        }
        1 => {
            let neg: Vec<(F, Vec<usize>)> = p.terms.iter().map(|(c, t)| (-*c, t.iter().rev().cloned().collect())).collect();
            p.terms.extend(neg);
        }
        _ => {
            let m = (0..1usize << p.nv).map(|r| -p.row(r)).collect();
            p.mles.push(m);
            let k = p.mles.len() - 1;
            p.terms.push((f(1), vec![k]));
        }
    }
    p
}
pub fn zero_false(ctx: &mut Ctx) -> R {
    begin(ctx);
    let mut p = zero_sop(ctx);
    let t0 = fresh_transcript(ctx);
    let what;
    let mut proof;
    if ctx.chance(1, 2) {
        // true statement, altered messages
        let Ok(x) = <PolyIOP<F> as ZeroCheck<F>>::prove(&p.real(), &mut t0.clone()) else { return Ok(()) };
        proof = x;
        let honest = ser(&proof.proofs);
        if ctx.chance(1, 3) {
            let i = ctx.pick(p.nv);
            let r = proof.point[i];
            if !compensate_message(ctx, &mut proof, i, r, f(0)) {
                return Ok(());
            }
            what = "compensating_message";
        } else {
            damage_sum_proof(ctx, &mut proof);
            what = "round_message";
        }
        if ser(&proof.proofs) == honest {
            return Ok(());
        }
    } else {
        // one row, or a few, do not vanish
        let m = crate::gen::error(ctx, p.nv);
        let k = p.mles.len();
        p.mles.push(m);
        p.terms.push((f(1), vec![k]));
        match if p.nv > 6 { 1 + ctx.draw(2) } else { ctx.draw(4) } {
            3 => {
                // proof of a vanishing polynomial, taken back in the last round
                let mut q = Sop { nv: p.nv, mles: p.mles.clone(), terms: p.terms.clone() };
                q.mles[k] = vec![f(0); 1 << p.nv];
                let Ok(x) = <PolyIOP<F> as ZeroCheck<F>>::prove(&q.real(), &mut t0.clone()) else { return Ok(()) };
                proof = x;
                let r = t0.clone().get_and_append_challenge_vectors(b"0check r", p.nv).expect("challenge");
                let want = p.eval(&proof.point) * r.iter().zip(&proof.point).map(|(a, b)| *a * b + (f(1) - a) * (f(1) - b)).product::<F>();
                if !late(ctx, &mut proof, p.nv - 1, want) {
                    return Ok(());
                }
                what = "late_message";
            }
            0 => {
                // sum under the zero-check weights, so that the first round is consistent
                let mut t = t0.clone();
                let r = t.get_and_append_challenge_vectors(b"0check r", p.nv).expect("challenge");
                let s: F = (0..1usize << p.nv)
                    .map(|i| p.row(i) * (0..p.nv).map(|j| if (i >> j) & 1 == 1 { r[j] } else { f(1) - r[j] }).product::<F>())
                    .sum();
                proof = adaptive(ctx, &p, -s, t0.clone(), true);
                what = "adaptive_prover";
            }
            1 => {
                // proof of a vanishing polynomial over the same commitments
                let mut q = Sop { nv: p.nv, mles: p.mles.clone(), terms: p.terms.clone() };
                q.mles[k] = vec![f(0); 1 << p.nv];
                let Ok(x) = <PolyIOP<F> as ZeroCheck<F>>::prove(&q.real(), &mut t0.clone()) else { return Ok(()) };
                proof = x;
                what = "proof_of_other_polynomial";
            }
            _ => {
                let Ok(x) = <PolyIOP<F> as ZeroCheck<F>>::prove(&p.real(), &mut t0.clone()) else {
                    ctx.nontrivial = true;
                    return Ok(());
                };
                proof = x;
                what = "non_vanishing_row";
            }
        }
    }
    ctx.say(p.describe());
    ctx.fault(what);
    ctx.say(format!("fault: {}", what));
    ctx.nontrivial = true;
    match zero_verify(&proof, &p.aux(), &mut t0.clone()) {
        Ok(Ok((pt, e))) => {
            if p.eval(&pt) == e {
                return fail("false-zero-accepted", format!("{}: accepted and the reduced claim holds", what));
            }
            ctx.count("outcome.reduced_claim_false");
            Ok(())
        }
        Ok(Err(_)) => {
            ctx.count("outcome.refused");
            Ok(())
        }
        Err(e) => fail("panic", format!("{}: {}", what, e)),
    }
}

// ---------------------------------------------------------------- C11

const LABELS: [&[u8]; 16] = [
    b"a",
    b"b",
    b"ab",
    b"",
    b"prover msg",
    b"prover msh",
    b"0check r",
    b"aa",
    b"zerocheck challenge",
    b"zerocheck challenges",
    b"sumcheck challenge",
    b"Internal round",
    b"a label of more than thirty-two bytes, one",
    b"a label of more than thirty-two bytes, two",
    b"\0",
    b"a\0",
];

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Message(usize, Vec<u8>),
    Field(usize, F),
    Point(usize, G1Affine),
    Values(usize, Vec<F>),
    /// a number of so many bytes
    Number(usize, usize, u64),
    One(usize),
    Many(usize, usize),
}
fn any_op(ctx: &mut Ctx) -> Op {
    let l = ctx.pick(LABELS.len());
    match ctx.draw(9) {
        8 => {
            let (w, x) = ([1, 2, 4, 8][ctx.pick(4)], if ctx.chance(1, 2) { 0 } else { ctx.draw(256) });
            Op::Number(l, w, x)
        }
        0 => Op::Message(l, (0..ctx.pick(5)).map(|_| ctx.draw(3) as u8).collect()),
        1 => {
            let n = if ctx.chance(1, 3) { ctx.range(5, 600) } else { ctx.pick(5) };
            let b = ctx.draw(256) as u8;
            Op::Message(l, vec![b; n])
        }
        2 | 3 => Op::Field(l, any_f(ctx)),
        4 => Op::Point(l, any_g1(ctx)),
        5 => Op::Values(l, (0..ctx.pick(4)).map(|_| any_f(ctx)).collect()),
        6 => Op::Many(l, ctx.range(1, 3)),
        _ => Op::One(l),
    }
}
fn apply(t: &mut Tr, op: &Op) -> Result<Vec<F>, String> {
    let e = |e| format!("{:?}", e);
    match op {
        Op::Message(l, m) => t.append_message(LABELS[*l], m).map(|_| vec![]).map_err(e),
        Op::Field(l, x) => t.append_field_element(LABELS[*l], x).map(|_| vec![]).map_err(e),
        Op::Point(l, g) => t.append_serializable_element(LABELS[*l], &Commitment::<E>(*g)).map(|_| vec![]).map_err(e),
        Op::Values(l, v) => t.append_serializable_element(LABELS[*l], v).map(|_| vec![]).map_err(e),
        Op::Number(l, 1, x) => t.append_serializable_element(LABELS[*l], &(*x as u8)).map(|_| vec![]).map_err(e),
        Op::Number(l, 2, x) => t.append_serializable_element(LABELS[*l], &(*x as u16)).map(|_| vec![]).map_err(e),
        Op::Number(l, 4, x) => t.append_serializable_element(LABELS[*l], &(*x as u32)).map(|_| vec![]).map_err(e),
        Op::Number(l, _, x) => t.append_serializable_element(LABELS[*l], x).map(|_| vec![]).map_err(e),
        Op::One(l) => t.get_and_append_challenge(LABELS[*l]).map(|x| vec![x]).map_err(e),
        Op::Many(l, n) => t.get_and_append_challenge_vectors(LABELS[*l], *n).map_err(e),
    }
}
/// One edit that changes what was said or asked, or its order.
fn edit(ctx: &mut Ctx, ops: &[Op]) -> (Vec<Op>, usize, &'static str) {
    let mut v = ops.to_vec();
    let i = ctx.pick(v.len());
    let (what, at) = match ctx.draw(7) {
        6 => {
            // the same under the same label, as other bytes of the same value
            if let Op::Message(l, m) = norm(&v[i..i + 1])[0].clone() {
                let z = m.iter().rev().take_while(|b| **b == 0).count();
                v[i] = match ctx.draw(6) {
                    0 => Op::Message(l, m[..m.len() - z].to_vec()),
                    1 => Op::Message(l, m.iter().rev().cloned().collect()),
                    2 => Op::Number(l, [1, 2, 4, 8][ctx.pick(4)], m.first().copied().unwrap_or(0) as u64),
                    3 => Op::Field(l, f(m.first().copied().unwrap_or(0) as u64)),
                    4 => Op::Values(l, vec![]),
                    _ => Op::Message(l, vec![]),
                };
            }
            ("retyped", i)
        }
        0 => {
            v.remove(i);
            ("dropped", i)
        }
        1 => {
            let o = any_op(ctx);
            v.insert(i, o);
            ("inserted", i)
        }
        2 => {
            let o = v[i].clone();
            v.insert(i, o);
            ("duplicated", i)
        }
        3 if v.len() > 1 => {
            let j = if i + 1 < v.len() { i + 1 } else { i - 1 };
            v.swap(i, j);
            ("reordered", i.min(j))
        }
        4 => {
            // often a neighbour, which has a common beginning
            let other = if ctx.chance(1, 2) { 1 } else { ctx.pick(LABELS.len() - 1) + 1 };
            let m = |l: &mut usize| *l = (*l + other) % LABELS.len();
            match &mut v[i] {
                Op::Message(l, _) | Op::Field(l, _) | Op::Point(l, _) | Op::Values(l, _) | Op::Number(l, ..) | Op::One(l) | Op::Many(l, _) => m(l),
            }
            ("relabelled", i)
        }
        _ => {
            match &mut v[i] {
                Op::Message(_, m) => match ctx.draw(3) {
                    0 => m.push(0),
                    1 if !m.is_empty() => {
                        m.pop();
                    }
                    _ if !m.is_empty() => {
                        let j = ctx.pick(m.len());
                        m[j] ^= 1 << ctx.draw(8);
                    }
                    _ => m.push(1),
                },
                Op::Field(_, x) => *x += nonzero_f(ctx),
                Op::Point(_, g) => damage_g1(ctx, g),
                Op::Values(_, x) => {
                    if x.is_empty() || ctx.chance(1, 2) {
                        x.push(f(0));
                    } else {
                        let j = ctx.pick(x.len());
                        x[j] += nonzero_f(ctx);
                    }
                }
                Op::Number(_, w, x) => {
                    if ctx.chance(1, 2) {
                        *w = if *w == 8 { 1 } else { *w * 2 };
                    } else {
                        *x = (*x + 1 + ctx.draw(255)) % 256;
                    }
                }
                Op::One(l) => v[i] = Op::Many(*l, 2),
                Op::Many(_, n) => *n += 1,
            }
            ("changed", i)
        }
    };
    (v, at, what)
}
pub fn transcript_model(ctx: &mut Ctx) -> R {
    begin(ctx);
    let n = ctx.range(1, 9);
    let mut ops: Vec<Op> = (0..n).map(|_| any_op(ctx)).collect();
    // no challenge may be drawn before anything was said
    match guard(|| Tr::new(b"t").get_and_append_challenge(b"c")) {
        Ok(Err(_)) => {}
        Ok(Ok(_)) => return fail("challenge-from-nothing", "an empty transcript produced a challenge"),
        Err(e) => return fail("panic", e),
    }
    if matches!(ops[0], Op::One(_) | Op::Many(..)) {
        ops.insert(0, Op::Message(0, vec![1]));
    }
    ops.push(Op::Many(0, 2));
    ctx.say(format!("{:?}", ops));
    ctx.nontrivial = true;
    // same conversation, one of them continued from a copy
    let (mut a, mut b) = (Tr::new(b"t"), Tr::new(b"t"));
    let cut = ctx.pick(ops.len());
    let mut seen = vec![];
    for (i, op) in ops.iter().enumerate() {
        if i == cut {
            b = b.clone();
        }
        let x = guard(|| apply(&mut a, op))?;
        let y = guard(|| apply(&mut b, op))?;
        match (x, y) {
            (Ok(x), Ok(y)) => {
                if x != y {
                    return fail("same-conversation-different-challenges", format!("operation {}: {:?}", i, op));
                }
                for c in &x {
                    ctx.mix(&ser(c));
                }
                seen.extend(x);
            }
            (x, y) => return fail("transcript-refused", format!("operation {}: {:?} / {:?}", i, x, y)),
        }
    }
    for i in 0..seen.len() {
        if seen[..i].contains(&seen[i]) {
            return fail("repeated-challenge", format!("challenge {} repeats an earlier one", i));
        }
    }
    // another conversation
    let (mut v, at, what) = edit(ctx, &ops);
    for _ in 0..ctx.pick(2) {
        let (w, at2, _) = edit(ctx, &v);
        if at2 >= at {
            v = w;
        }
    }
    if v.is_empty() || matches!(v[0], Op::One(_) | Op::Many(..)) {
        return Ok(());
    }
    v.push(Op::Many(0, 2));
    let mut o2 = ops.clone();
    o2.push(Op::Many(0, 2));
    if norm(&v) == norm(&o2) {
        return Ok(());
    }
    ctx.fault(&format!("transcript_{}", what));
    ctx.say(format!("against ({} at {}) {:?}", what, at, v));
    let last = guard(|| apply(&mut a, o2.last().unwrap()))?;
    let mut c = Tr::new(b"t");
    let mut end = Ok(vec![]);
    for op in &v {
        end = guard(|| apply(&mut c, op))?;
    }
    match (last, end) {
        (Ok(x), Ok(y)) => {
            if x.iter().zip(&y).any(|(p, q)| p == q) {
                return fail("different-conversation-same-challenge", format!("{} at {}", what, at));
            }
            Ok(())
        }
        (x, y) => fail("transcript-refused", format!("{:?} / {:?}", x, y)),
    }
}
impl From<String> for Violation {
    fn from(s: String) -> Self {
        Violation { class: "unexpected-error".into(), detail: s }
    }
}
/// Several challenges at once are the same challenges one by one; a value
/// appended through a typed call is left out of comparisons with raw bytes.
fn norm(ops: &[Op]) -> Vec<Op> {
    let mut v = vec![];
    for o in ops {
        match o {
            Op::Many(l, n) => v.extend((0..*n).map(|_| Op::One(*l))),
            Op::Field(l, x) => v.push(Op::Message(*l, ser(x))),
            Op::Point(l, g) => v.push(Op::Message(*l, ser(g))),
            Op::Values(l, x) => v.push(Op::Message(*l, ser(x))),
            Op::Number(l, w, x) => v.push(Op::Message(*l, x.to_le_bytes()[..*w].to_vec())),
            o => v.push(o.clone()),
        }
    }
    v
}
/// Draw one by one and all at once: the same challenges.
pub fn transcript_vectors(ctx: &mut Ctx) -> R {
    begin(ctx);
    let mut a = fresh_transcript(ctx);
    let mut b = a.clone();
    let n = match ctx.draw(8) {
        0 => ctx.range(9, 24),
        1 => ctx.range(25, 90),
        _ => ctx.range(0, 8),
    };
    if ctx.chance(1, 6) {
        // late in a long history
        for _ in 0..ctx.range(8, 80) {
            if a.get_and_append_challenge(b"u").ok() != b.get_and_append_challenge(b"u").ok() {
                return fail("vector-of-challenges-differs", "two equal transcripts give different challenges");
            }
        }
    }
    let x = a.get_and_append_challenge_vectors(b"v", n).map_err(|e| format!("{:?}", e))?;
    let y: Result<Vec<F>, _> = (0..n).map(|_| b.get_and_append_challenge(b"v")).collect();
    let y = y.map_err(|e| format!("{:?}", e))?;
    ctx.nontrivial = true;
    if x != y || x.len() != n {
        return fail("vector-of-challenges-differs", "drawing several challenges differs from drawing them one by one");
    }
    if a.get_and_append_challenge(b"w").ok() != b.get_and_append_challenge(b"w").ok() {
        return fail("vector-of-challenges-differs", "the challenge after a vector of challenges differs");
    }
    if x.iter().collect::<std::collections::BTreeSet<_>>().len() != n {
        return fail("challenge-repeats", "a vector of challenges has the same one twice");
    }
    for c in &x {
        // uniform over the field: a challenge below 2^192 has probability 2^-63
        if c.into_bigint().num_bits() < 192 {
            return fail("challenge-too-small", show1(c));
        }
        ctx.mix(&ser(c));
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

macro_rules! same {
    ($got:expr, $want:expr, $what:expr) => {
        if $got != $want {
            return fail("arithmetic-differs", $what.to_string());
        }
    };
}
fn ref_fix_first(v: &[F], pt: &[F]) -> Vec<F> {
    let mut v = v.to_vec();
    for r in pt {
        v = v.chunks(2).map(|c| c[0] + *r * (c[1] - c[0])).collect();
    }
    v
}
fn ref_fix_last(v: &[F], pt: &[F]) -> Vec<F> {
    let mut v = v.to_vec();
    for r in pt.iter().rev() {
        let n = v.len() / 2;
        v = (0..n).map(|i| v[i] + *r * (v[i + n] - v[i])).collect();
    }
    v
}
fn ref_eq(x: &[F], y: &[F]) -> F {
    x.iter().zip(y).map(|(a, b)| *a * b + (f(1) - a) * (f(1) - b)).product()
}

pub fn arith_mle(ctx: &mut Ctx) -> R {
    begin(ctx);
    let nv = if ctx.chance(1, 8) { ctx.range(8, 12) } else { ctx.range(1, 7) };
    let v = any_vals(ctx, nv);
    let pt = point(ctx, nv);
    let m = mle(&v);
    ctx.say(format!("{} variables, rows {}, point {}", nv, short(&v), show(&pt)));
    ctx.nontrivial = true;
    let want = mle_eval(&v, &pt);
    same!(ar::evaluate_opt(&m, &pt), want, "evaluate_opt");
    same!(ar::evaluate_no_par(&m, &pt), want, "evaluate_no_par");
    let k = ctx.range(0, nv);
    let a = ar::fix_variables(&m, &pt[..k]);
    same!(a.num_vars, nv - k, "fix_variables: number of variables");
    same!(a.evaluations, ref_fix_first(&v, &pt[..k]), format!("fix_variables at {} coordinates", k));
    let b = ar::fix_last_variables(&m, &pt[nv - k..]);
    same!(b.num_vars, nv - k, "fix_last_variables: number of variables");
    same!(b.evaluations, ref_fix_last(&v, &pt[nv - k..]), format!("fix_last_variables at {} coordinates", k));
    if k > 0 {
        let c = ar::fix_last_variables_no_par(&m, &pt[nv - k..]);
        same!(c.num_vars, nv - k, "fix_last_variables_no_par: number of variables");
        same!(c.evaluations, ref_fix_last(&v, &pt[nv - k..]), "fix_last_variables_no_par");
    }
    // equality polynomial
    let e = ar::build_eq_x_r_vec(&pt).map_err(|e| format!("{:?}", e))?;
    let want: Vec<F> = (0..1usize << nv).map(|i| ref_eq(&vertex(i, nv), &pt)).collect();
    same!(e, want, "build_eq_x_r_vec");
    let e2 = ar::build_eq_x_r(&pt).map_err(|e| format!("{:?}", e))?;
    same!(e2.evaluations, want, "build_eq_x_r");
    let q = point(ctx, nv);
    same!(ar::eq_eval(&pt, &q).ok(), Some(ref_eq(&pt, &q)), "eq_eval");
    same!(ar::eq_eval(&pt, &q[1..]).is_err(), true, "eq_eval accepts points of different length");
    same!(du::eq_eval(&pt, &q).ok(), Some(ref_eq(&pt, &q)), "eq_eval of the tracker");
    same!(du::eq_eval(&pt[1..], &q).is_err(), true, "eq_eval of the tracker accepts points of different length");
    same!(du::build_eq_x_r(&pt).map_err(|e| format!("{:?}", e))?.evaluations, want, "build_eq_x_r of the tracker");
    same!(mle_eval(&e, &q), ref_eq(&pt, &q), "equality polynomial off the hypercube");
    // extension
    let j = ctx.range(0, 3);
    let fr = du::dmle_increase_nv_front(&Arc::new(m.clone()), nv + j);
    let bk = du::dmle_increase_nv_back(&Arc::new(m.clone()), nv + j);
    let n = 1usize << nv;
    same!(fr.evaluations, (0..n << j).map(|i| v[i >> j]).collect::<Vec<_>>(), "extension at the front");
    same!(bk.evaluations, (0..n << j).map(|i| v[i % n]).collect::<Vec<_>>(), "extension at the back");
    ctx.mix(&ser(&a.evaluations));
    Ok(())
}
pub fn arith_merge(ctx: &mut Ctx) -> R {
    begin(ctx);
    let nv = if ctx.chance(1, 6) { ctx.range(6, 10) } else { ctx.range(1, 5) };
    let k = if ctx.chance(1, 6) { ctx.range(10, 40) } else { ctx.range(1, 9) };
    let vs: Vec<Vec<F>> = (0..k).map(|_| any_vals(ctx, nv)).collect();
    let ms: Vec<Arc<Mle>> = vs.iter().map(|v| Arc::new(mle(v))).collect();
    ctx.say(format!("{} polynomials of {} variables", k, nv));
    ctx.nontrivial = true;
    let bits = if k == 1 { 0 } else { (usize::BITS - (k - 1).leading_zeros()) as usize };
    same!(ar::get_batched_nv(nv, k), nv + bits, "get_batched_nv");
    let g = ar::merge_polynomials(&ms).map_err(|e| format!("{:?}", e))?;
    let mut want: Vec<F> = vs.concat();
    want.resize(1 << (nv + bits), f(0));
    same!(g.num_vars, nv + bits, "merge_polynomials: number of variables");
    same!(g.evaluations, want, "merge_polynomials");
    let pt = point(ctx, nv);
    for i in 0..k {
        let q = ar::gen_eval_point(i, bits, &pt);
        same!(mle_eval(&g.evaluations, &q), mle_eval(&vs[i], &pt), format!("polynomial {} at its point of the merged one", i));
    }
    let mut bad = ms.clone();
    bad.push(Arc::new(mle(&any_vals(ctx, nv + 1))));
    same!(ar::merge_polynomials(&bad).is_err(), true, "merge_polynomials accepts different sizes");
    // index helpers
    let n = ctx.range(0, 64);
    let x = ctx.seed64() >> ctx.pick(64);
    let bits: Vec<bool> = (0..n).map(|i| (x >> i) & 1 == 1).collect();
    same!(ar::bit_decompose(x, n), bits, "bit_decompose");
    same!(du::bit_decompose(x, n), bits, "bit_decompose of the tracker");
    same!(du::binary_decompose::<F>(x, n), bits.iter().map(|b| f(*b as u64)).collect::<Vec<_>>(), "binary_decompose");
    let n = ctx.range(1, 24);
    let i = ctx.pick(1 << n);
    let (x0, x1, s) = ar::get_index(i, n);
    let low = i & ((1 << (n - 1)) - 1);
    same!((x0, x1, s), (low << 1, (low << 1) + 1, (i >> (n - 1)) & 1 == 1), format!("get_index({}, {})", i, n));
    // generated polynomials
    let (nv, c) = if ctx.chance(1, 6) { (ctx.range(5, 9), ctx.range(1, 9)) } else { (ctx.range(1, 4), ctx.range(1, 4)) };
    let len = (c as u64) << nv;
    same!(ar::identity_permutation::<F>(nv, c), (0..len).map(f).collect::<Vec<_>>(), "identity_permutation");
    let id: Vec<F> = ar::identity_permutation_mles::<F>(nv, c).iter().flat_map(|m| m.evaluations.clone()).collect();
    same!(id, (0..len).map(f).collect::<Vec<_>>(), "identity_permutation_mles");
    let seed = ctx.seed64();
    let mut pm: Vec<F> = ar::random_permutation(nv, c, &mut Prng::new(seed));
    let pms: Vec<F> = ar::random_permutation_mles::<F, _>(nv, c, &mut Prng::new(seed)).iter().flat_map(|m| m.evaluations.clone()).collect();
    same!(pm, pms, "random_permutation and random_permutation_mles differ for the same randomness");
    pm.sort();
    same!(pm, (0..len).map(f).collect::<Vec<_>>(), "random_permutation is not a permutation");
    let deg = ctx.range(1, 5);
    let (l, s) = ar::random_mle_list::<F, _>(nv, deg, &mut Prng::new(seed));
    same!(l.len(), deg, "random_mle_list: length");
    let t: F = (0..1usize << nv).map(|r| l.iter().map(|m| m.evaluations[r]).product::<F>()).sum();
    same!(t, s, "random_mle_list: the stated sum");
    let z = ar::random_zero_mle_list::<F, _>(nv, deg, &mut Prng::new(seed));
    same!(z.len(), deg, "random_zero_mle_list: length");
    for r in 0..1usize << nv {
        same!(z.iter().map(|m| m.evaluations[r]).product::<F>(), f(0), "random_zero_mle_list does not vanish");
    }
    Ok(())
}
pub fn arith_virtual(ctx: &mut Ctx) -> R {
    begin(ctx);
    let mut p = Sop::draw(ctx, 6, 9);
    let nv = p.nv;
    ctx.say(p.describe());
    ctx.nontrivial = true;
    // the real one is built over shared factors, some of them equal but distinct
    let mut arcs: Vec<Arc<Mle>> = p.mles.iter().map(|v| Arc::new(mle(v))).collect();
    let mut real = if ctx.chance(1, 4) {
        let c = any_f(ctx);
        let q = VirtualPolynomial::new_from_mle(&arcs[0], c);
        p.terms.insert(0, (c, vec![0]));
        q
    } else {
        VirtualPolynomial::new(nv)
    };
    let skip = real.products.len();
    for (c, t) in p.terms[skip..].to_vec() {
        real.add_mle_list(t.iter().map(|i| arcs[*i].clone()), c).map_err(|e| format!("{:?}", e))?;
    }
    for step in 0..ctx.pick(4) {
        let what = match ctx.draw(5) {
            0 => {
                let i = ctx.pick(arcs.len());
                let c = any_f(ctx);
                real.mul_by_mle(arcs[i].clone(), c).map_err(|e| format!("{:?}", e))?;
                for t in p.terms.iter_mut() {
                    t.0 *= c;
                    t.1.push(i);
                }
                "mul_by_mle(shared)"
            }
            1 => {
                let v = any_vals(ctx, nv);
                let c = any_f(ctx);
                let a = Arc::new(mle(&v));
                real.mul_by_mle(a.clone(), c).map_err(|e| format!("{:?}", e))?;
                arcs.push(a);
                p.mles.push(v);
                let k = p.mles.len() - 1;
                for t in p.terms.iter_mut() {
                    t.0 *= c;
                    t.1.push(k);
                }
                "mul_by_mle(new)"
            }
            2 => {
                let c = any_f(ctx);
                let t: Vec<usize> = (0..ctx.range(1, 4)).map(|_| ctx.pick(arcs.len())).collect();
                real.add_mle_list(t.iter().map(|i| arcs[*i].clone()), c).map_err(|e| format!("{:?}", e))?;
                p.terms.push((c, t));
                "add_mle_list"
            }
            3 => {
                // add another polynomial that shares factors with this one
                let c = any_f(ctx);
                let v = any_vals(ctx, nv);
                let a = Arc::new(mle(&v));
                arcs.push(a);
                p.mles.push(v);
                let mut o = VirtualPolynomial::new(nv);
                let mut terms = vec![];
                for _ in 0..ctx.range(1, 2) {
                    let t: Vec<usize> = (0..ctx.range(1, 3)).map(|_| arcs.len() - 1 - ctx.pick(arcs.len().min(2))).collect();
                    o.add_mle_list(t.iter().map(|i| arcs[*i].clone()), c).map_err(|e| format!("{:?}", e))?;
                    terms.push((c, t));
                }
                real = &real + &o;
                p.terms.extend(terms);
                "add"
            }
            _ => {
                let r = point(ctx, nv);
                real = real.build_f_hat(&r).map_err(|e| format!("{:?}", e))?;
                let eq: Vec<F> = (0..1usize << nv).map(|i| ref_eq(&vertex(i, nv), &r)).collect();
                arcs.push(Arc::new(mle(&eq)));
                p.mles.push(eq);
                let k = p.mles.len() - 1;
                for t in p.terms.iter_mut() {
                    t.1.push(k);
                }
                "build_f_hat"
            }
        };
        ctx.say(format!("operation {}: {}", step, what));
        ctx.count(&format!("op.{}", what));
    }
    let pt = point(ctx, nv);
    same!(real.aux_info.num_variables, nv, "number of variables");
    if real.aux_info.max_degree < p.degree() {
        return fail("arithmetic-differs", format!("stated degree {} is below the actual {}", real.aux_info.max_degree, p.degree()));
    }
    same!(real.evaluate(&pt).ok(), Some(p.eval(&pt)), "evaluate");
    let rows: Vec<F> = (0..1usize << nv).map(|r| p.row(r)).collect();
    same!(real.materialize().evaluations, rows, "materialize");
    same!(real.evaluate(&pt[1..]).is_err(), true, "evaluate accepts a short point");
    // wrong sizes and empty products are refused and change nothing visible
    let before = real.evaluate(&pt).ok();
    let small = Arc::new(mle(&any_vals(ctx, nv + 1)));
    same!(real.clone().mul_by_mle(small.clone(), f(1)).is_err(), true, "mul_by_mle accepts another size");
    same!(real.clone().add_mle_list(vec![small], f(1)).is_err(), true, "add_mle_list accepts another size");
    same!(real.clone().add_mle_list(vec![], f(1)).is_err(), true, "add_mle_list accepts an empty product");
    same!(real.evaluate(&pt).ok(), before, "a refused operation changed the polynomial");
    let seed = ctx.seed64();
    let (lo, n) = (ctx.range(1, 3), ctx.range(1, 3));
    let (q, s) = VirtualPolynomial::<F>::rand(nv, (lo, lo + 2), n, &mut Prng::new(seed)).map_err(|e| format!("{:?}", e))?;
    same!(q.materialize().evaluations.iter().sum::<F>(), s, "rand: the stated sum");
    let z = VirtualPolynomial::<F>::rand_zero(nv, (lo, lo + 2), n, &mut Prng::new(seed)).map_err(|e| format!("{:?}", e))?;
    same!(z.materialize().evaluations.iter().all(|x| x.is_zero()), true, "rand_zero does not vanish");
    ctx.mix(&ser(&rows));
    Ok(())
}

// ---------------------------------------------------------------- C12, functions

/// One job for the parallel functions of the library.
#[derive(Clone)]
pub struct Work {
    nv: usize,
    polys: Vec<Vec<F>>,
    pt: Vec<F>,
    cut: usize,
    terms: Vec<(F, Vec<usize>)>,
    zero: bool,
    open: bool,
    scalars: Vec<F>,
}
impl Work {
    pub fn draw(ctx: &mut Ctx) -> Self {
        let nv = if ctx.chance(1, 6) { ctx.range(11, 14) } else { ctx.range(3, 10) };
        let mut polys: Vec<Vec<F>> = vec![];
        for _ in 0..ctx.range(1, 4) {
            polys.push(if ctx.chance(1, 2) {
                let mut g = Prng::new(ctx.seed64());
                (0..1usize << nv).map(|_| f(g.next()) * f(g.next()) * f(g.next()) * f(g.next())).collect()
            } else {
                any_vals(ctx, nv)
            });
        }
        let n = polys.len();
        let terms = (0..ctx.range(1, 3))
            .map(|_| {
                let c = any_f(ctx);
                (c, (0..ctx.range(1, 4)).map(|_| ctx.pick(n)).collect())
            })
            .collect();
        let w = Work {
            nv,
            pt: point(ctx, nv),
            cut: ctx.range(0, nv),
            zero: ctx.chance(1, 2),
            open: nv <= 8 && ctx.chance(1, 3),
            scalars: (0..ctx.range(1, 600)).map(|_| f(ctx.seed64())).collect(),
            terms,
            polys,
        };
        ctx.say(format!("{} variables, {} polynomials, {} terms, cut at {}, zero proof {}, openings {}", nv, n, w.terms.len(), w.cut, w.zero, w.open));
        w
    }
    fn sop(&self) -> Sop {
        Sop { nv: self.nv, mles: self.polys.clone(), terms: self.terms.clone() }
    }
    /// What the definitions give, computed in plain loops.
    pub fn expected(&self) -> Vec<(String, Vec<u8>)> {
        let mut out: Vec<(String, Vec<u8>)> = vec![];
        let mut put = |n: String, v: Vec<u8>| out.push((n, v));
        for (i, v) in self.polys.iter().enumerate() {
            put(format!("evaluate_opt {}", i), ser(&mle_eval(v, &self.pt)));
            put(format!("fix_variables {}", i), ser(&ref_fix_first(v, &self.pt[..self.cut])));
            put(format!("fix_last_variables {}", i), ser(&ref_fix_last(v, &self.pt[self.cut..])));
        }
        let eq: Vec<F> = (0..1usize << self.nv).map(|i| ref_eq(&vertex(i, self.nv), &self.pt)).collect();
        put("build_eq_x_r_vec".into(), ser(&eq));
        put("tracker build_eq_x_r".into(), ser(&eq));
        let mut all = self.polys.concat();
        all.resize(self.polys.len().next_power_of_two() << self.nv, f(0));
        put("merge_polynomials".into(), ser(&all));
        let s = self.sop();
        put("evaluate".into(), ser(&s.eval(&self.pt)));
        put("materialize".into(), ser(&(0..1usize << self.nv).map(|r| s.row(r)).collect::<Vec<F>>()));
        put("sum".into(), ser(&s.sum()));
        out
    }
    pub fn run(&self) -> (Vec<(String, Vec<u8>)>, String) {
        let mut out: Vec<(String, Vec<u8>)> = vec![];
        let mut put = |n: String, v: Vec<u8>| out.push((n, v));
        let arcs: Vec<Arc<Mle>> = self.polys.iter().map(|v| Arc::new(mle(v))).collect();
        for (i, m) in arcs.iter().enumerate() {
            put(format!("evaluate_opt {}", i), ser(&ar::evaluate_opt(m, &self.pt)));
            put(format!("fix_variables {}", i), ser(&ar::fix_variables(m, &self.pt[..self.cut]).evaluations));
            put(format!("fix_last_variables {}", i), ser(&ar::fix_last_variables(m, &self.pt[self.cut..]).evaluations));
        }
        put("build_eq_x_r_vec".into(), ser(&ar::build_eq_x_r_vec(&self.pt).expect("eq")));
        put("tracker build_eq_x_r".into(), ser(&du::build_eq_x_r(&self.pt).expect("eq").evaluations));
        put("merge_polynomials".into(), ser(&ar::merge_polynomials(&arcs).expect("merge").evaluations));
        let mut p = VirtualPolynomial::new(self.nv);
        for (c, t) in &self.terms {
            p.add_mle_list(t.iter().map(|i| arcs[*i].clone()), *c).expect("term");
        }
        put("evaluate".into(), ser(&p.evaluate(&self.pt).expect("evaluate")));
        let m = p.materialize();
        put("materialize".into(), ser(&m.evaluations));
        put("build_f_hat".into(), ser(&p.build_f_hat(&self.pt).expect("f_hat").materialize().evaluations));
        let mut verdict = String::new();
        let mut tr = Tr::new(b"work");
        let sum: F = m.evaluations.iter().sum();
        put("sum".into(), ser(&sum));
        let proof = <PolyIOP<F> as SumCheck<F>>::prove(&p, &mut tr).expect("sum prove");
        put("sum proof".into(), [ser(&proof.point), ser(&proof.proofs)].concat());
        let mut tv = Tr::new(b"work");
        match <PolyIOP<F> as SumCheck<F>>::verify(sum, &proof, &p.aux_info, &mut tv) {
            Ok(s) => put("sum reduced".into(), [ser(&s.point), ser(&s.expected_evaluation)].concat()),
            Err(e) => verdict += &format!("sum proof refused: {:?};", e),
        }
        if self.zero {
            // every second row is zero in the first factor, the others in one more
            let mask = |k: usize| mle(&(0..1usize << self.nv).map(|r| if r % 2 == k { f(0) } else { f(7 + r as u64) }).collect::<Vec<F>>());
            let mut z = p.clone();
            z.mul_by_mle(Arc::new(mask(0)), f(1)).expect("mul");
            z.mul_by_mle(Arc::new(mask(1)), f(3)).expect("mul");
            let proof = <PolyIOP<F> as ZeroCheck<F>>::prove(&z, &mut tr).expect("zero prove");
            put("zero proof".into(), [ser(&proof.point), ser(&proof.proofs)].concat());
            match <PolyIOP<F> as ZeroCheck<F>>::verify(&proof, &z.aux_info, &mut tv) {
                Ok(s) => put("zero reduced".into(), [ser(&s.point), ser(&s.expected_evaluation)].concat()),
                Err(e) => verdict += &format!("zero proof refused: {:?};", e),
            }
        }
        if self.open {
            let k = params(self.nv);
            let comms: Vec<Comm> = arcs.iter().map(|m| P::commit(&k.prover, m).expect("commit")).collect();
            put("commitments".into(), ser(&comms));
            let (proof, v) = P::open(&k.prover, &arcs[0], &self.pt).expect("open");
            put("opening".into(), [ser(&proof), ser(&v)].concat());
            verdict += &format!("opening {:?};", P::verify(&k.verifier, &comms[0], &self.pt, &v, &proof).ok());
            let pts: Vec<Vec<F>> = (0..arcs.len()).map(|i| self.pt.iter().map(|x| *x + f((i % 2) as u64)).collect()).collect();
            let evals: Vec<F> = self.polys.iter().zip(&pts).map(|(p, z)| mle_eval(p, z)).collect();
            let b: Batch = P::multi_open(&k.prover, &arcs, &pts, &evals, &mut tr).expect("multi_open");
            put("batch opening".into(), batch_bytes(&b));
            verdict += &format!("batch {:?};", P::batch_verify(&k.verifier, &comms, &pts, &b, &mut tv).ok());
        }
        put("challenge after".into(), ser(&tr.get_and_append_challenge(b"x").expect("challenge")));
        put("verifier's challenge after".into(), ser(&tv.get_and_append_challenge(b"x").expect("challenge")));
        // inversions and products of many scalars at once
        let mut inv = self.scalars.clone();
        ark_ff::batch_inversion(&mut inv);
        put("scalars inverted".into(), ser(&inv));
        (out, verdict)
    }
}

// ---------------------------------------------------------------- C23

/// A simulated disk file: what survives a crash is decided block by block.
fn store(ctx: &mut Ctx, bytes: &[u8]) -> (Vec<u8>, &'static str) {
    let mut v = bytes.to_vec();
    let block = [16usize, 64, 512, 4096][ctx.pick(4)];
    let what = match ctx.draw(5) {
        0 => {
            let n = ctx.pick(v.len());
            v.truncate(n);
            "short_write"
        }
        1 => {
            // torn: everything after a block boundary reads back as zeros
            let nb = v.len().div_ceil(block);
            let at = ctx.pick(nb) * block;
            for b in v[at..].iter_mut() {
                *b = 0;
            }
            "torn_write_zero_tail"
        }
        2 => {
            // one block lost in the middle
            let nb = v.len().div_ceil(block);
            let at = ctx.pick(nb) * block;
            let end = (at + block).min(v.len());
            for b in v[at..end].iter_mut() {
                *b = 0;
            }
            "lost_block"
        }
        3 => {
            let nb = v.len().div_ceil(block);
            let (a, b) = (ctx.pick(nb) * block, ctx.pick(nb) * block);
            let n = block.min(v.len() - a).min(v.len() - b);
            let t = v[a..a + n].to_vec();
            v[b..b + n].copy_from_slice(&t);
            "misdirected_block"
        }
        _ => {
            let i = ctx.pick(v.len());
            v[i] ^= 1 << ctx.draw(8);
            "bit_flip"
        }
    };
    (v, what)
}
fn put<T: CanonicalSerialize>(x: &T, c: Compress) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_with_mode(&mut v, c).expect("serialize");
    v
}
fn get<T: CanonicalDeserialize>(b: &[u8], c: Compress) -> Result<Result<T, String>, String> {
    guard(|| T::deserialize_with_mode(b, c, Validate::Yes).map_err(|e| format!("{:?}", e)))
}
fn mode(ctx: &mut Ctx) -> Compress {
    if ctx.chance(1, 2) {
        Compress::No
    } else {
        Compress::Yes
    }
}
pub fn stored_intact(ctx: &mut Ctx) -> R {
    begin(ctx);
    let n = ctx.range(1, 5);
    let m = ctx.range(1, n);
    let c = mode(ctx);
    ctx.say(format!("parameters for {} variables, polynomial of {}", n, m));
    ctx.nontrivial = true;
    let p = params(n);
    fn back<T: CanonicalSerialize + CanonicalDeserialize>(x: &T, c: Compress, what: &str) -> Result<T, Violation> {
        let b = put(x, c);
        if b.len() != x.serialized_size(c) {
            return fail("serialised-size-wrong", what);
        }
        match get::<T>(&b, c) {
            Ok(Ok(y)) => {
                if put(&y, c) != b {
                    return fail("stored-copy-differs", what);
                }
                Ok(y)
            }
            Ok(Err(e)) => fail("intact-copy-refused", format!("{}: {}", what, e)),
            Err(e) => fail("panic", format!("reading {}: {}", what, e)),
        }
    }
    let u: MultilinearUniversalParams<E> = back(&p.universal, c, "universal parameters")?;
    // narrowed after reading, and possibly to fewer variables
    let n = ctx.range(m, n);
    let (kp, kv, how) = narrowed(ctx, &u, n);
    let (p, _) = P::trim(&p.universal, None, Some(n)).map_err(|e| format!("{:?}", e))?;
    ctx.say(format!("keys for {} variables {}", n, how));
    let pk: MultilinearProverParam<E> = back(&kp, c, "prover parameters")?;
    let vk: MultilinearVerifierParam<E> = back(&kv, c, "verifier parameters")?;
    let vals = any_vals(ctx, m);
    let pt = point(ctx, m);
    let cm = P::commit(&pk, &mle(&vals)).map_err(|e| format!("{:?}", e))?;
    if cm != P::commit(&p, &mle(&vals)).expect("commit") {
        return fail("stored-copy-behaves-differently", "commitment under read-back parameters differs");
    }
    let cm: Comm = back(&cm, c, "commitment")?;
    let (o, v) = P::open(&pk, &mle(&vals), &pt).map_err(|e| format!("{:?}", e))?;
    if o != P::open(&p, &mle(&vals), &pt).expect("open").0 {
        return fail("stored-copy-behaves-differently", "opening under read-back parameters differs");
    }
    let o: Opening = back(&o, c, "opening")?;
    if v != mle_eval(&vals, &pt) {
        return fail("stored-copy-behaves-differently", "opening value differs");
    }
    if !matches!(P::verify(&vk, &cm, &pt, &v, &o), Ok(true)) {
        return fail("stored-copy-behaves-differently", "a true opening is refused under read-back parameters");
    }
    if matches!(P::verify(&vk, &cm, &pt, &(v + f(1)), &o), Ok(true)) {
        return fail("stored-copy-behaves-differently", "a false opening verifies under read-back parameters");
    }
    ctx.mix(&put(&cm, c));
    Ok(())
}
pub fn stored_damaged(ctx: &mut Ctx) -> R {
    begin(ctx);
    let n = ctx.range(1, 4);
    let m = ctx.range(1, n);
    let c = mode(ctx);
    let p = params(n);
    let vals = any_vals(ctx, m);
    let pt = point(ctx, m);
    let cm = P::commit(&p.prover, &mle(&vals)).expect("commit");
    let (o, v) = P::open(&p.prover, &mle(&vals), &pt).expect("open");
    let kind = ctx.draw(5);
    let bytes = match kind {
        0 => put(&cm, c),
        1 => put(&o, c),
        2 => put(&p.verifier, c),
        3 => put(&p.prover, c),
        _ => put(&p.universal, c),
    };
    let (bad, what) = store(ctx, &bytes);
    if bad == bytes {
        return Ok(());
    }
    let names = ["commitment", "opening", "verifier parameters", "prover parameters", "universal parameters"];
    ctx.fault(what);
    ctx.say(format!("{} of {} bytes stored, {}", names[kind as usize], bytes.len(), what));
    ctx.nontrivial = true;
    // reading must not abort; a cut or torn copy must be refused
    let torn = what == "short_write";
    macro_rules! read {
        ($t:ty) => {
            match get::<$t>(&bad, c) {
                Err(e) => return fail("panic", format!("reading a damaged {}: {}", names[kind as usize], e)),
                Ok(Err(_)) => {
                    ctx.count("outcome.refused_when_read");
                    return Ok(());
                }
                Ok(Ok(x)) => {
                    ctx.count("outcome.read");
                    x
                }
            }
        };
    }
    match kind {
        0 => {
            let x = read!(Comm);
            if torn {
                return fail("short-copy-accepted", "a truncated commitment was read");
            }
            if x != cm && matches!(guard(|| P::verify(&p.verifier, &x, &pt, &v, &o)), Ok(Ok(true))) {
                return fail("damaged-commitment-verifies", what);
            }
        }
        1 => {
            let x = read!(Opening);
            if torn {
                return fail("short-copy-accepted", "a truncated opening was read");
            }
            match guard(|| P::verify(&p.verifier, &cm, &pt, &v, &x)) {
                Ok(Ok(true)) if x != o => return fail("damaged-opening-verifies", what),
                Err(e) => return fail("panic", e),
                _ => {}
            }
        }
        2 => {
            let x = read!(MultilinearVerifierParam<E>);
            if torn {
                return fail("short-copy-accepted", "truncated verifier parameters were read");
            }
            drop(x);
        }
        3 => {
            let _ = read!(MultilinearProverParam<E>);
            if torn {
                return fail("short-copy-accepted", "truncated prover parameters were read");
            }
        }
        _ => {
            let _ = read!(MultilinearUniversalParams<E>);
            if torn {
                return fail("short-copy-accepted", "truncated universal parameters were read");
            }
        }
    }
    Ok(())
}
/// Parameters made twice from the same randomness are the same; generation and
/// trimming keep what openings rely on.
pub fn params_generated(ctx: &mut Ctx) -> R {
    begin(ctx);
    let n = if ctx.chance(1, 6) { ctx.range(6, 8) } else { ctx.range(1, 5) };
    let s = ctx.seed64();
    let a = P::gen_srs_for_testing(&mut Prng::new(s), n).map_err(|e| format!("{:?}", e))?;
    let b = P::gen_srs_for_testing(&mut Prng::new(s), n).map_err(|e| format!("{:?}", e))?;
    ctx.nontrivial = true;
    ctx.say(format!("parameters for {} variables from {:x}", n, s));
    if put(&a, Compress::Yes) != put(&b, Compress::Yes) {
        return fail("parameters-not-reproducible", "same randomness, other parameters");
    }
    let k = ctx.range(1, n);
    let (pk, vk, how) = narrowed(ctx, &a, k);
    ctx.say(format!("keys for {} variables {}", k, how));
    let m = ctx.range(1, k);
    let (vals, pt) = (any_vals(ctx, m), point(ctx, m));
    let cm = P::commit(&pk, &mle(&vals)).map_err(|e| format!("{:?}", e))?;
    let (o, v) = P::open(&pk, &mle(&vals), &pt).map_err(|e| format!("{:?}", e))?;
    if v != mle_eval(&vals, &pt) || !matches!(P::verify(&vk, &cm, &pt, &v, &o), Ok(true)) {
        return fail("trimmed-parameters-inconsistent", format!("a true opening of {} variables fails under keys trimmed to {}", m, k));
    }
    // keys of other parameters never verify it
    let c = P::gen_srs_for_testing(&mut Prng::new(s ^ 1), n).map_err(|e| format!("{:?}", e))?;
    let (_, wk) = P::trim(&c, None, Some(k)).map_err(|e| format!("{:?}", e))?;
    let constant = vals.iter().all(|x| *x == vals[0]);
    if !constant && matches!(P::verify(&wk, &cm, &pt, &v, &o), Ok(true)) {
        return fail("foreign-parameters-accept", "an opening verifies under parameters it was not made with");
    }
    Ok(())
}

/// Several sets of parameters in one process, used in turn: what one leaves
/// behind never shows in another.
pub fn many_parameters(ctx: &mut Ctx) -> R {
    begin(ctx);
    let k = ctx.range(2, 4);
    let same = ctx.range(1, 4);
    let mut sets = vec![];
    for i in 0..k {
        let n = if ctx.chance(1, 2) { same } else { ctx.range(1, 4) };
        let u = P::gen_srs_for_testing(&mut Prng::new(ctx.seed64() ^ i as u64), n).map_err(|e| format!("{:?}", e))?;
        let (pk, vk, how) = narrowed(ctx, &u, n);
        ctx.say(format!("set {}: {} variables, {}", i, n, how));
        sets.push((n, pk, vk));
    }
    ctx.nontrivial = true;
    let mut made: Vec<(usize, Vec<F>, Vec<F>, Comm, Opening)> = vec![];
    for _ in 0..ctx.range(4, 10) {
        let i = ctx.pick(k);
        let (n, pk, _) = &sets[i];
        if made.is_empty() || ctx.chance(1, 2) {
            let m = ctx.range(1, *n);
            // often the polynomial and point another set was used with
            let (vals, pt) = match made.last() {
                Some((_, v, p, _, _)) if p.len() <= *n && ctx.chance(1, 2) => (v.clone(), p.clone()),
                _ => (any_vals(ctx, m), point(ctx, m)),
            };
            ctx.say(format!("set {}: commit to and open {} at {}", i, short(&vals), show(&pt)));
            let cm = P::commit(pk, &mle(&vals)).map_err(|e| format!("{:?}", e))?;
            let (o, v) = P::open(pk, &mle(&vals), &pt).map_err(|e| format!("{:?}", e))?;
            ctx.mix(&ser(&cm));
            if v != mle_eval(&vals, &pt) {
                return fail("wrong-opening-value", format!("set {}", i));
            }
            for (j, a, b, c, d) in &made {
                if *j == i && *a == vals && *b == pt && (*c != cm || *d != o) {
                    return fail("earlier-use-influences", format!("set {}: the same commitment or opening made twice differs", i));
                }
            }
            made.push((i, vals, pt, cm, o));
        } else {
            let (i, vals, pt, cm, o) = &made[ctx.pick(made.len())];
            let v = mle_eval(vals, pt);
            ctx.say(format!("set {}: verify {} at {}", i, short(vals), show(pt)));
            if !matches!(P::verify(&sets[*i].2, cm, pt, &v, o), Ok(true)) {
                return fail("true-opening-refused", format!("set {}: a true opening is refused", i));
            }
            if matches!(P::verify(&sets[*i].2, cm, pt, &(v + f(1)), o), Ok(true)) {
                return fail("false-opening-accepted", format!("set {}", i));
            }
        }
    }
    Ok(())
}

#[allow(unused)]
fn _unused(_: Fr) {}
