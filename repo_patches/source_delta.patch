From 788551918b52820db1751b12022627707b4c4655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 01/19] sim hooks: cfg(zksql_sim) re-exports and accessors for
 the simulation harness

---
 src/lib.rs                               |  5 +++
 src/sim_hooks.rs                         | 57 ++++++++++++++++++++++++
 src/tracker/mod.rs                       |  9 ++++
 src/zksql_poly_iop/join_reduction/mod.rs |  5 ++-
 src/zksql_poly_iop/mod.rs                | 31 ++++++++++++-
 5 files changed, 105 insertions(+), 2 deletions(-)
 create mode 100644 src/sim_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index ce2eeb2..4e3c5d1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // `zksql_sim` guards the simulation hooks
+
 pub mod arithmetic;
 pub mod subroutines;
 pub mod transcript;
@@ -6,4 +8,7 @@ pub mod zksql_poly_iop;
 
 pub mod tracker;
 
+#[cfg(zksql_sim)]
+pub mod sim_hooks;
+
 
diff --git a/src/sim_hooks.rs b/src/sim_hooks.rs
new file mode 100644
index 0000000..c8c35ea
--- /dev/null
+++ b/src/sim_hooks.rs
@@ -0,0 +1,57 @@
+//! Re-exports and accessors for the deterministic-simulation harness.
+//!
+//! Compiled only with `--cfg zksql_sim`; the shipped crate does not contain
+//! this module. It adds no behaviour: it makes the gadget modules reachable
+//! and lets the harness read and damage proof messages in flight.
+
+use ark_ec::pairing::Pairing;
+use ark_ff::PrimeField;
+
+use crate::subroutines::poly_iop::structs::{IOPProof, IOPProverMessage};
+use crate::subroutines::{BatchProof, PolynomialCommitmentScheme};
+
+pub use crate::tracker::sim_reexports::*;
+pub use crate::zksql_poly_iop::sim_reexports::*;
+
+/// Build one sumcheck round message out of raw evaluations.
+pub fn prover_message<F: PrimeField>(evaluations: Vec<F>) -> IOPProverMessage<F> {
+    IOPProverMessage { evaluations }
+}
+
+/// Read the evaluations of one sumcheck round message.
+pub fn message_evals<F: PrimeField>(msg: &IOPProverMessage<F>) -> &Vec<F> {
+    &msg.evaluations
+}
+
+/// Mutable access to the evaluations of one sumcheck round message.
+pub fn message_evals_mut<F: PrimeField>(msg: &mut IOPProverMessage<F>) -> &mut Vec<F> {
+    &mut msg.evaluations
+}
+
+/// The sumcheck proof inside a batch opening.
+pub fn batch_sum_check<E: Pairing, PCS: PolynomialCommitmentScheme<E>>(
+    proof: &BatchProof<E, PCS>,
+) -> &IOPProof<E::ScalarField> {
+    &proof.sum_check_proof
+}
+
+/// Mutable access to the sumcheck proof inside a batch opening.
+pub fn batch_sum_check_mut<E: Pairing, PCS: PolynomialCommitmentScheme<E>>(
+    proof: &mut BatchProof<E, PCS>,
+) -> &mut IOPProof<E::ScalarField> {
+    &mut proof.sum_check_proof
+}
+
+/// The single opening inside a batch opening.
+pub fn batch_g_prime<E: Pairing, PCS: PolynomialCommitmentScheme<E>>(
+    proof: &BatchProof<E, PCS>,
+) -> &PCS::Proof {
+    &proof.g_prime_proof
+}
+
+/// Mutable access to the single opening inside a batch opening.
+pub fn batch_g_prime_mut<E: Pairing, PCS: PolynomialCommitmentScheme<E>>(
+    proof: &mut BatchProof<E, PCS>,
+) -> &mut PCS::Proof {
+    &mut proof.g_prime_proof
+}
diff --git a/src/tracker/mod.rs b/src/tracker/mod.rs
index 04e008f..5a4bbab 100644
--- a/src/tracker/mod.rs
+++ b/src/tracker/mod.rs
@@ -10,3 +10,12 @@ mod verifier_tracker;
 mod verifier_wrapper;
 
 pub mod prelude;
+
+#[cfg(zksql_sim)]
+pub(crate) mod sim_reexports {
+    pub use super::prover_tracker::ProverTracker;
+    pub use super::tracker_structs::{
+        CompiledZKSQLProof, TrackerSumcheckClaim, TrackerZerocheckClaim,
+    };
+    pub use super::verifier_tracker::VerifierTracker;
+}
diff --git a/src/zksql_poly_iop/join_reduction/mod.rs b/src/zksql_poly_iop/join_reduction/mod.rs
index 02c0871..1ada346 100644
--- a/src/zksql_poly_iop/join_reduction/mod.rs
+++ b/src/zksql_poly_iop/join_reduction/mod.rs
@@ -1,3 +1,6 @@
 pub mod join_reduction;
 mod test;
-mod utils;
\ No newline at end of file
+mod utils;
+
+#[cfg(zksql_sim)]
+pub use utils::calc_join_reduction_lr_sel_advice;
diff --git a/src/zksql_poly_iop/mod.rs b/src/zksql_poly_iop/mod.rs
index f81f464..bbb5d4f 100644
--- a/src/zksql_poly_iop/mod.rs
+++ b/src/zksql_poly_iop/mod.rs
@@ -26,4 +26,33 @@ mod set_intersect;
 
 mod selector_valid;
 
-mod util;
\ No newline at end of file
+mod util;
+
+#[cfg(zksql_sim)]
+pub(crate) mod sim_reexports {
+    macro_rules! reexport {
+        ($($m:ident)*) => { $( pub mod $m { pub use super::super::$m::*; } )* };
+    }
+    reexport! {
+        bag_disjoint
+        bag_eq
+        bag_inclusion
+        bag_multitool
+        bag_no_zeros
+        bag_presc_perm
+        bag_sort
+        bag_sum
+        bag_supp
+        cross_product
+        final_join_one_to_many
+        group_by
+        index_transform
+        join_reduction
+        selector_valid
+        set_diff
+        set_disjoint
+        set_intersect
+        set_union
+        util
+    }
+}
-- 
2.43.0


From 575658fd8cdb4f7fd5f4eb305305db2b06352e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 02/19] fix: verify_claims accepts a proof whose batch opening
 does not verify

The boolean result of PCS::batch_verify was dropped. Smaller polynomials are
now extended at the front, as their commitments are, so that honest openings
of differently sized columns verify.
---
 src/tracker/prover_tracker.rs   | 4 +++-
 src/tracker/verifier_tracker.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index df3c1af..c4ab77b 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -496,7 +496,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         for (_, poly) in self.materialized_polys.iter_mut() {
             let old_nv = poly.num_vars();
             if old_nv != nv {
-                *poly = dmle_increase_nv_back(poly, nv); // increase_nv_back and increase_nv_front are equivalent, they cause the same sums, just be consistent
+                // both ends cause the same sums, but the commitment to a smaller polynomial
+                // is also the commitment to its extension at the front
+                *poly = dmle_increase_nv_front(poly, nv);
             }
         }
 
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 6e4bc99..2a6fbac 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -396,7 +396,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         let points = vec![sumcheck_point.clone(); comm_ids.len()];
         let batch_proof = self.proof.pcs_proof[0].clone();
         let pcs_verify_res = PCS::batch_verify(&self.pcs_params, &comms, points.as_slice(), &batch_proof, &mut self.transcript);
-        pcs_verify_res?;
+        if !pcs_verify_res? {
+            return Err(PolyIOPErrors::InvalidVerifier("PCS batch opening does not verify".to_string()));
+        }
 
         Ok(())
     }
-- 
2.43.0


From 5a114aaad994caf7912ba7fd2027d8247b285228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 03/19] fix: batch opening of a single polynomial fails

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index be42261..2d810a8 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -21,6 +21,7 @@ use crate::{
 };
 use crate::arithmetic::{build_eq_x_r_vec, DenseMultilinearExtension, VPAuxInfo, VirtualPolynomial};
 use ark_ec::{pairing::Pairing, scalar_mul::variable_base::VariableBaseMSM, CurveGroup};
+use ark_ff::PrimeField;
 
 use ark_std::{end_timer, log2, start_timer, One, Zero};
 use std::{collections::BTreeMap, iter, marker::PhantomData, ops::Deref, sync::Arc};
@@ -40,6 +41,14 @@ where
     pub(crate) g_prime_proof: PCS::Proof,
 }
 
+/// eq(t, i) for i in [0..2^|t|]; a single polynomial has an empty t
+fn eq_t_i<F: PrimeField>(t: &[F]) -> Result<Vec<F>, PCSError> {
+    if t.is_empty() {
+        return Ok(vec![F::one()]);
+    }
+    Ok(build_eq_x_r_vec(t)?)
+}
+
 /// Steps:
 /// 1. get challenge point t from transcript
 /// 2. build eq(t,i) for i in [0..k]
@@ -72,7 +81,7 @@ where
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
     
     // eq(t, i) for i in [0..k]
-    let eq_t_i_list = build_eq_x_r_vec(t.as_ref())?;
+    let eq_t_i_list = eq_t_i(&t)?;
 
     // \tilde g_i(b) = eq(t, i) * f_i(b)
     let timer = start_timer!(|| format!("compute tilde g for {} points", points.len()));
@@ -207,7 +216,7 @@ where
 
     // build g' commitment
     let step = start_timer!(|| "build homomorphic commitment");
-    let eq_t_list = build_eq_x_r_vec(t.as_ref())?;
+    let eq_t_list = eq_t_i(&t)?;
 
     let mut scalars = vec![];
     let mut bases = vec![];
-- 
2.43.0


From bca06c4ac3e595203d84bdded1f4ecda001c88b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 04/19] fix: batch verification trusts the sum check point in
 the proof

---
 .../pcs/multilinear_kzg/batching.rs           | 38 ++++++++++---------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 2d810a8..b3e8092 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -206,29 +206,15 @@ where
 
     let k = f_i_commitments.len();
     let ell = log2(k) as usize;
-    let num_var = proof.sum_check_proof.point.len();
+    let num_var = match points.first() {
+        Some(point) => point.len(),
+        None => return Err(PCSError::InvalidParameters("batch verification of no points".to_string())),
+    };
 
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
-
-    // sum check point (a2)
-    let a2 = &proof.sum_check_proof.point[..num_var];
-
-    // build g' commitment
-    let step = start_timer!(|| "build homomorphic commitment");
     let eq_t_list = eq_t_i(&t)?;
 
-    let mut scalars = vec![];
-    let mut bases = vec![];
-
-    for (i, point) in points.iter().enumerate() {
-        let eq_i_a2 = eq_eval(a2, point)?;
-        scalars.push(eq_i_a2 * eq_t_list[i]);
-        bases.push(f_i_commitments[i].0);
-    }
-    let g_prime_commit = E::G1::msm_unchecked(&bases, &scalars);
-    end_timer!(step);
-
     // ensure \sum_i eq(t, <i>) * f_i_evals matches the sum via SumCheck
     let mut sum = E::ScalarField::zero();
     for (i, &e) in eq_t_list.iter().enumerate().take(k) {
@@ -253,6 +239,22 @@ where
             ));
         },
     };
+    // sum check point (a2), as derived from the transcript
+    let a2 = &subclaim.point;
+
+    // build g' commitment
+    let step = start_timer!(|| "build homomorphic commitment");
+    let mut scalars = vec![];
+    let mut bases = vec![];
+
+    for (i, point) in points.iter().enumerate() {
+        let eq_i_a2 = eq_eval(a2, point)?;
+        scalars.push(eq_i_a2 * eq_t_list[i]);
+        bases.push(f_i_commitments[i].0);
+    }
+    let g_prime_commit = E::G1::msm_unchecked(&bases, &scalars);
+    end_timer!(step);
+
     let tilde_g_eval = subclaim.expected_evaluation;
 
     // verify commitment
-- 
2.43.0


From cbc8765b31a15aa25d1a370532976cb608429da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:39 +0000
Subject: [PATCH 05/19] fix: batch opening challenge does not depend on the
 claimed evaluations

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index b3e8092..fe3bc3d 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -77,9 +77,12 @@ where
     let k = polynomials.len();
     let ell = log2(k) as usize;
 
-    // challenge point t
+    // challenge point t, bound to the claimed evaluations
+    for eval in evals {
+        transcript.append_field_element("f_i eval".as_ref(), eval)?;
+    }
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
-    
+
     // eq(t, i) for i in [0..k]
     let eq_t_i_list = eq_t_i(&t)?;
 
@@ -211,7 +214,10 @@ where
         None => return Err(PCSError::InvalidParameters("batch verification of no points".to_string())),
     };
 
-    // challenge point t
+    // challenge point t, bound to the claimed evaluations
+    for eval in &proof.f_i_eval_at_point_i {
+        transcript.append_field_element("f_i eval".as_ref(), eval)?;
+    }
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
     let eq_t_list = eq_t_i(&t)?;
 
-- 
2.43.0


From d5b9824129595a1e20a3182b37a60a4c226ff791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:39 +0000
Subject: [PATCH 06/19] fix: sumcheck challenges do not depend on the claimed
 sums

---
 src/tracker/prover_tracker.rs   | 5 +++++
 src/tracker/verifier_tracker.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index c4ab77b..6fa6cfa 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -548,6 +548,11 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
 
         let nv = self.equalize_materialized_poly_nv();
 
+        // the claimed sums are prover messages, so the challenges below depend on them
+        for claim in self.sum_check_claims.clone().iter() {
+            self.append_serializable_element(b"claimed sum", &claim.claimed_sum)?;
+        }
+
         // 1)   aggregate the zerocheck claims into a single MLE
         //      Then convert the zerocheck_agg_poly to a sumcheck
         self.convert_zerocheck_claims_to_sumcheck_claim(nv); // Note: SumCheck val should be zero
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 2a6fbac..388ce0e 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -367,6 +367,11 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
     pub fn verify_claims(&mut self) -> Result<(), PolyIOPErrors> {
         let nv = self.proof.sc_aux_info.num_variables;
 
+        // the claimed sums are prover messages, so the challenges below depend on them
+        for claim in self.sum_check_claims.clone().iter() {
+            self.append_serializable_element(b"claimed sum", &claim.claimed_sum)?;
+        }
+
         // aggregate zerocheck claims into a single sumcheck claim
         self.convert_zerocheck_claims_to_sumcheck_claim(nv); // Note: SumCheck val should be zero
 
-- 
2.43.0


From 2a24b2791d417e417e6386f298a60414f6c5055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:39 +0000
Subject: [PATCH 07/19] fix: opening with missing or surplus elements is
 accepted

---
 src/subroutines/pcs/multilinear_kzg/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/mod.rs b/src/subroutines/pcs/multilinear_kzg/mod.rs
index 1e20549..f5c199e 100644
--- a/src/subroutines/pcs/multilinear_kzg/mod.rs
+++ b/src/subroutines/pcs/multilinear_kzg/mod.rs
@@ -283,6 +283,14 @@ fn verify_internal<E: Pairing>(
         )));
     }
 
+    if proof.proofs.len() != num_var {
+        return Err(PCSError::InvalidProof(format!(
+            "opening has {} elements for a point of length {}",
+            proof.proofs.len(),
+            num_var
+        )));
+    }
+
     let prepare_inputs_timer = start_timer!(|| "prepare pairing inputs");
 
     let scalar_size = E::ScalarField::MODULUS_BIT_SIZE as usize;
-- 
2.43.0


From 388d67b5ccf42871d8072da5975d3839696f80b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:39 +0000
Subject: [PATCH 08/19] fix: verifier evaluates a back-extended commitment at
 the wrong coordinates

---
 src/tracker/verifier_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 388ce0e..9685947 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -283,7 +283,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
             let poly_eval_box = virtual_comms.get(&poly_id).unwrap();
 
             // evaluate the polynomial at the point, ignoring the last added_nv coordinates
-            let truncated_pt = &pt[..added_nv];
+            let truncated_pt = &pt[..pt.len() - added_nv];
             let poly_eval: <E as Pairing>::ScalarField = poly_eval_box(truncated_pt)?;
             Ok(poly_eval)
         };
-- 
2.43.0


From 4a07d20d0cbdc3811e749e482cc61ba609d56d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 09/19] fix: sum and zero proofs with missing or malformed
 messages panic

---
 src/subroutines/poly_iop/sum_check/mod.rs      | 11 +++++++++--
 src/subroutines/poly_iop/sum_check/verifier.rs | 18 ++++++++++++------
 src/subroutines/poly_iop/zero_check/mod.rs     | 12 +++++++++++-
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/subroutines/poly_iop/sum_check/mod.rs b/src/subroutines/poly_iop/sum_check/mod.rs
index a400fcb..fe9044f 100644
--- a/src/subroutines/poly_iop/sum_check/mod.rs
+++ b/src/subroutines/poly_iop/sum_check/mod.rs
@@ -189,10 +189,17 @@ impl<F: PrimeField> SumCheck<F> for PolyIOP<F> {
     ) -> Result<Self::SumCheckSubClaim, PolyIOPErrors> {
         let start = start_timer!(|| "sum check verify");
 
+        if proof.proofs.len() != aux_info.num_variables {
+            return Err(PolyIOPErrors::InvalidProof(format!(
+                "{} round messages for {} variables",
+                proof.proofs.len(),
+                aux_info.num_variables
+            )));
+        }
+
         transcript.append_serializable_element(b"aux info", aux_info)?;
         let mut verifier_state = IOPVerifierState::verifier_init(aux_info);
-        for i in 0..aux_info.num_variables {
-            let prover_msg = proof.proofs.get(i).expect("proof is incomplete");
+        for prover_msg in proof.proofs.iter() {
             transcript.append_serializable_element(b"prover msg", prover_msg)?;
             IOPVerifierState::verify_round_and_update_state(
                 &mut verifier_state,
diff --git a/src/subroutines/poly_iop/sum_check/verifier.rs b/src/subroutines/poly_iop/sum_check/verifier.rs
index df11b73..ed18d65 100644
--- a/src/subroutines/poly_iop/sum_check/verifier.rs
+++ b/src/subroutines/poly_iop/sum_check/verifier.rs
@@ -105,6 +105,12 @@ impl<F: PrimeField> SumCheckVerifier<F> for IOPVerifierState<F> {
             ));
         }
 
+        if self.max_degree == 0 {
+            return Err(PolyIOPErrors::InvalidVerifier(
+                "a round message needs at least two evaluations".to_string(),
+            ));
+        }
+
         if self.polynomials_received.len() != self.num_vars {
             return Err(PolyIOPErrors::InvalidVerifier(
                 "insufficient rounds".to_string(),
@@ -120,11 +126,11 @@ impl<F: PrimeField> SumCheckVerifier<F> for IOPVerifierState<F> {
             .into_par_iter()
             .zip(self.challenges.clone().into_par_iter())
             .map(|(evaluations, challenge)| {
-                if evaluations.len() != self.max_degree + 1 {
+                if evaluations.len().checked_sub(1) != Some(self.max_degree) {
                     return Err(PolyIOPErrors::InvalidVerifier(format!(
-                        "incorrect number of evaluations: {} vs {}",
+                        "incorrect number of evaluations: {} for degree {}",
                         evaluations.len(),
-                        self.max_degree + 1
+                        self.max_degree
                     )));
                 }
                 interpolate_uni_poly::<F>(&evaluations, challenge)
@@ -138,11 +144,11 @@ impl<F: PrimeField> SumCheckVerifier<F> for IOPVerifierState<F> {
             .into_iter()
             .zip(self.challenges.clone().into_iter())
             .map(|(evaluations, challenge)| {
-                if evaluations.len() != self.max_degree + 1 {
+                if evaluations.len().checked_sub(1) != Some(self.max_degree) {
                     return Err(PolyIOPErrors::InvalidVerifier(format!(
-                        "incorrect number of evaluations: {} vs {}",
+                        "incorrect number of evaluations: {} for degree {}",
                         evaluations.len(),
-                        self.max_degree + 1
+                        self.max_degree
                     )));
                 }
                 interpolate_uni_poly::<F>(&evaluations, challenge)
diff --git a/src/subroutines/poly_iop/zero_check/mod.rs b/src/subroutines/poly_iop/zero_check/mod.rs
index 37cb19f..7b514d0 100644
--- a/src/subroutines/poly_iop/zero_check/mod.rs
+++ b/src/subroutines/poly_iop/zero_check/mod.rs
@@ -88,6 +88,17 @@ impl<F: PrimeField> ZeroCheck<F> for PolyIOP<F> {
     ) -> Result<Self::ZeroCheckSubClaim, PolyIOPErrors> {
         let start = start_timer!(|| "zero check verify");
 
+        // one message per variable, each with at least two evaluations
+        let length = fx_aux_info.num_variables;
+        if length == 0
+            || proof.proofs.len() != length
+            || proof.proofs.iter().any(|msg| msg.evaluations.len() < 2)
+        {
+            return Err(PolyIOPErrors::InvalidProof(
+                "zero check: proof is incomplete".to_string(),
+            ));
+        }
+
         // check that the sum is zero
         if proof.proofs[0].evaluations[0] + proof.proofs[0].evaluations[1] != F::zero() {
             return Err(PolyIOPErrors::InvalidProof(format!(
@@ -97,7 +108,6 @@ impl<F: PrimeField> ZeroCheck<F> for PolyIOP<F> {
         }
 
         // generate `r` and pass it to the caller for correctness check
-        let length = fx_aux_info.num_variables;
         let r = transcript.get_and_append_challenge_vectors(b"0check r", length)?;
 
         // hat_fx's max degree is increased by eq(x, r).degree() which is 1
-- 
2.43.0


From f52f7284ddeef3f2a71128a69678385b216c8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 10/19] fix: batch verification with mismatched lengths panics
 or ignores the surplus

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index fe3bc3d..3ebf3c9 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -208,6 +208,14 @@ where
     // TODO: sanity checks
 
     let k = f_i_commitments.len();
+    if points.len() != k || proof.f_i_eval_at_point_i.len() != k {
+        return Err(PCSError::InvalidParameters(format!(
+            "{} commitments, {} points, {} evaluations",
+            k,
+            points.len(),
+            proof.f_i_eval_at_point_i.len()
+        )));
+    }
     let ell = log2(k) as usize;
     let num_var = match points.first() {
         Some(point) => point.len(),
-- 
2.43.0


From d76d272ff4fceb064e99135d40470d3b08873dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 11/19] fix: verify_claims panics on a proof with missing or
 surplus parts

---
 src/tracker/verifier_tracker.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 9685947..ea1ebd5 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -365,7 +365,15 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
     }
 
     pub fn verify_claims(&mut self) -> Result<(), PolyIOPErrors> {
+        // the work below is bounded by what the prover sent
         let nv = self.proof.sc_aux_info.num_variables;
+        if self.proof.sc_proof.proofs.len() != nv {
+            return Err(PolyIOPErrors::InvalidProof(format!("{} round messages for {} variables", self.proof.sc_proof.proofs.len(), nv)));
+        }
+        let batch_proof = match self.proof.pcs_proof.first() {
+            Some(batch_proof) => batch_proof.clone(),
+            None => return Err(PolyIOPErrors::InvalidProof("the batch opening is missing".to_string())),
+        };
 
         // the claimed sums are prover messages, so the challenges below depend on them
         for claim in self.sum_check_claims.clone().iter() {
@@ -395,11 +403,10 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
 
         // verify the batch pcs proof
         let sumcheck_point = iop_verify_subclaim.point.clone();
-        let mut comm_ids = self.proof.comms.keys().cloned().collect::<Vec<TrackerID>>();
+        let mut comm_ids = self.materialized_comms.keys().cloned().collect::<Vec<TrackerID>>();
         comm_ids.sort(); // sort so the transcript is generated consistently
         let comms = comm_ids.iter().map(|id| self.get_mat_comm(*id).unwrap().clone()).collect::<Vec<PCS::Commitment>>();
         let points = vec![sumcheck_point.clone(); comm_ids.len()];
-        let batch_proof = self.proof.pcs_proof[0].clone();
         let pcs_verify_res = PCS::batch_verify(&self.pcs_params, &comms, points.as_slice(), &batch_proof, &mut self.transcript);
         if !pcs_verify_res? {
             return Err(PolyIOPErrors::InvalidVerifier("PCS batch opening does not verify".to_string()));
-- 
2.43.0


From 8d5eed512314e50a90570a7560261c1cd2cd6608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 12/19] fix: re-indexing proof multiplies the columns of a row
 instead of combining them

The product forgets which column a value came from, so rows with swapped or
rescaled cells were accepted. Rows are now combined as C0 + r*C1 + ..., as the
comment describes.
---
 src/zksql_poly_iop/index_transform/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/zksql_poly_iop/index_transform/utils.rs b/src/zksql_poly_iop/index_transform/utils.rs
index b249e11..c52226e 100644
--- a/src/zksql_poly_iop/index_transform/utils.rs
+++ b/src/zksql_poly_iop/index_transform/utils.rs
@@ -15,9 +15,9 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table.selector.clone();
-    for i in 0..table.col_vals.len() {
-        res_poly = res_poly.mul_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
+    let mut res_poly = table.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table.col_vals.len() {
+        res_poly = res_poly.add_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = Bag::new(res_poly, table.selector.clone());
 
@@ -35,9 +35,9 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table_comm.selector.clone();
-    for i in 0..table_comm.col_vals.len() {
-        res_poly = res_poly.mul_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
+    let mut res_poly = table_comm.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table_comm.col_vals.len() {
+        res_poly = res_poly.add_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = BagComm::new(res_poly, table_comm.selector.clone(), table_comm.num_vars);
 
-- 
2.43.0


From c43d7194f0c61f9824f0f903f16d4460e3d2cac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 13/19] fix: group-by result lacks its sum columns

---
 src/zksql_poly_iop/group_by/group_by.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zksql_poly_iop/group_by/group_by.rs b/src/zksql_poly_iop/group_by/group_by.rs
index ef7f9de..8365813 100644
--- a/src/zksql_poly_iop/group_by/group_by.rs
+++ b/src/zksql_poly_iop/group_by/group_by.rs
@@ -154,6 +154,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly.clone()],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
@@ -242,6 +243,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
-- 
2.43.0


From b6c0ce7c03275bf61148f61aac52c1e508cd035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 14/19] fix: join refuses tables whose unselected rows repeat a
 key

---
 .../final_join_one_to_many/final_join_one_to_many.rs         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
index 1b6d438..021103e 100644
--- a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
+++ b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
@@ -1,6 +1,7 @@
 
 use ark_ec::pairing::Pairing;
 use ark_poly::DenseMultilinearExtension;
+use ark_std::Zero;
 use std::collections::HashMap;
 use std::marker::PhantomData;
 
@@ -64,8 +65,12 @@ where PCS: PolynomialCommitmentScheme<E> {
         #[cfg(debug_assertions)] 
         {
             let table_a_join_col_evals = table_a.col_vals[a_join_col_index].evaluations();
+            let table_a_sel_evals = table_a.selector.evaluations();
             let mut counts = HashMap::<E::ScalarField, usize>::new();
             for i in 0..table_a_join_col_evals.len() {
+                if table_a_sel_evals[i].is_zero() {
+                    continue; // not a row of the table
+                }
                 let val = table_a_join_col_evals[i];
                 let count = counts.entry(val).or_insert(0);
                 *count += 1;
-- 
2.43.0


From 2550805fe4d8365d898431895056f8d118d8912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 15/19] fix: bag split merges the unsorted values

The two bags are filtered and sorted first, but the merge then walked the raw
rows, so unselected or unsorted rows gave wrong left, middle and right parts.
---
 src/zksql_poly_iop/util/intermed_bag_calc.rs | 30 +++++++-------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/zksql_poly_iop/util/intermed_bag_calc.rs b/src/zksql_poly_iop/util/intermed_bag_calc.rs
index a479b10..9988754 100644
--- a/src/zksql_poly_iop/util/intermed_bag_calc.rs
+++ b/src/zksql_poly_iop/util/intermed_bag_calc.rs
@@ -62,34 +62,26 @@ where
     let mut a_counter = 0;
     let mut b_counter = 0;
     while a_counter < sorted_a_evals.len() && b_counter < sorted_b_evals.len() {
-        if a_evals[a_counter] < b_evals[b_counter] {
-            l_evals.push(a_evals[a_counter]);
+        if sorted_a_evals[a_counter] < sorted_b_evals[b_counter] {
+            l_evals.push(sorted_a_evals[a_counter]);
             a_counter += 1;
-        } else if a_evals[a_counter] > b_evals[b_counter] {
-            r_evals.push(b_evals[b_counter]);
+        } else if sorted_a_evals[a_counter] > sorted_b_evals[b_counter] {
+            r_evals.push(sorted_b_evals[b_counter]);
             b_counter += 1;
         } else {
-            let match_eval = a_evals[a_counter];
-            while a_counter < sorted_a_evals.len() && a_evals[a_counter] == match_eval {
-                ma_evals.push(a_evals[a_counter]);
+            let match_eval = sorted_a_evals[a_counter];
+            while a_counter < sorted_a_evals.len() && sorted_a_evals[a_counter] == match_eval {
+                ma_evals.push(sorted_a_evals[a_counter]);
                 a_counter += 1;
             }
-            while b_counter < sorted_b_evals.len() && b_evals[b_counter] == match_eval {
-                mb_evals.push(b_evals[b_counter]);
+            while b_counter < sorted_b_evals.len() && sorted_b_evals[b_counter] == match_eval {
+                mb_evals.push(sorted_b_evals[b_counter]);
                 b_counter += 1;
             }
         }
     }
-    for i in a_counter..a_len {
-        if !a_sel_evals[i].is_zero() {
-            l_evals.push(a_evals[i]);
-        }
-    }
-    for i in b_counter..b_len {
-        if !b_sel_evals[i].is_zero() {
-            r_evals.push(b_evals[i]);
-        }
-    }
+    l_evals.extend_from_slice(&sorted_a_evals[a_counter..]);
+    r_evals.extend_from_slice(&sorted_b_evals[b_counter..]);
 
     // create selectors for the intermediate bags and extend things to the correct length
     let mut l_sel_evals = vec![E::ScalarField::one(); l_evals.len()];
-- 
2.43.0


From 8e2604897cedd9315d8565ac2c7513c974dc411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 16/19] sim hooks: let the simulator replace committed witness
 columns

---
 src/sim_hooks.rs              | 22 ++++++++++++++++++++++
 src/tracker/prover_tracker.rs |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/src/sim_hooks.rs b/src/sim_hooks.rs
index c8c35ea..d2ba14b 100644
--- a/src/sim_hooks.rs
+++ b/src/sim_hooks.rs
@@ -4,6 +4,9 @@
 //! this module. It adds no behaviour: it makes the gadget modules reachable
 //! and lets the harness read and damage proof messages in flight.
 
+use std::any::Any;
+use std::cell::RefCell;
+
 use ark_ec::pairing::Pairing;
 use ark_ff::PrimeField;
 
@@ -55,3 +58,22 @@ pub fn batch_g_prime_mut<E: Pairing, PCS: PolynomialCommitmentScheme<E>>(
 ) -> &mut PCS::Proof {
     &mut proof.g_prime_proof
 }
+
+thread_local! {
+    static FABRICATE: RefCell<Option<Box<dyn FnMut(&mut dyn Any)>>> = const { RefCell::new(None) };
+}
+
+/// Let `f` replace the columns this thread's provers commit to from now on
+/// (a prover that makes up its witnesses), or stop doing so.
+pub fn set_fabricator(f: Option<Box<dyn FnMut(&mut dyn Any)>>) {
+    FABRICATE.with(|x| *x.borrow_mut() = f);
+}
+
+pub(crate) fn fabricate<T: 'static>(mut value: T) -> T {
+    FABRICATE.with(|x| {
+        if let Some(f) = x.borrow_mut().as_mut() {
+            f(&mut value);
+        }
+    });
+    value
+}
diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index 6fa6cfa..574e6cd 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -115,6 +115,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         &mut self,
         polynomial: DenseMultilinearExtension<E::ScalarField>,
     ) -> Result<TrackerID, PCSError> {
+        #[cfg(zksql_sim)]
+        let polynomial = crate::sim_hooks::fabricate(polynomial);
+
         // commit to the p[olynomial
         let commitment = PCS::commit(self.pcs_param.clone(), &polynomial)?;
 
-- 
2.43.0


From 3e267e631d8f0dfed2412afb699d71096c1fbbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 17/19] fix: set disjointness requires a boolean selector on
 the merged bag

---
 src/zksql_poly_iop/set_disjoint/set_disjoint.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/zksql_poly_iop/set_disjoint/set_disjoint.rs b/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
index c86edc4..f42222d 100644
--- a/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
+++ b/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
@@ -9,6 +9,7 @@ use crate::{
     zksql_poly_iop::{
         bag_sum::bag_sum::BagSumIOP,
         bag_sort::bag_sort::BagStrictSortIOP,
+        selector_valid::selector_valid::SelectorValidIOP,
     },
 };
 use ark_std::Zero;
@@ -56,6 +57,13 @@ where PCS: PolynomialCommitmentScheme<E> {
         let sum_sel_poly = prover_tracker.track_and_commit_poly(sum_sel_mle)?;
         let sum_bag = &Bag::new(sum_poly, sum_sel_poly);
 
+        // Prove the bag_sum selector is boolean, otherwise an element in both bags
+        // could appear in bag_sum once with its selector counting it twice
+        SelectorValidIOP::<E, PCS>::prove(
+            prover_tracker,
+            &sum_bag.selector,
+        )?;
+
         // Prove the bag_sum was created correctly
         BagSumIOP::<E, PCS>::prove(
             prover_tracker,
@@ -89,6 +97,9 @@ where PCS: PolynomialCommitmentScheme<E> {
         let sum_sel_comm = verifier_tracker.transfer_prover_comm(sum_sel_id);
         let sum_bag = &BagComm::new(sum_comm, sum_sel_comm, sum_nv);
 
+        // verify the bag_sum selector is boolean
+        SelectorValidIOP::<E, PCS>::verify(verifier_tracker, &sum_bag.selector)?;
+
         // verify the bag_sum was created correctly
         BagSumIOP::<E, PCS>::verify(verifier_tracker, bag_a, bag_b, sum_bag)?;
 
-- 
2.43.0


From bc5b386c87d071cec880180fb000e79e0cd2d338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 18/19] sim hooks: reach bag_lmr_multiplicity_split

---
 src/zksql_poly_iop/util/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zksql_poly_iop/util/mod.rs b/src/zksql_poly_iop/util/mod.rs
index e281c82..386c835 100644
--- a/src/zksql_poly_iop/util/mod.rs
+++ b/src/zksql_poly_iop/util/mod.rs
@@ -1,3 +1,5 @@
 pub mod prelude;
 mod intermed_bag_calc;
-mod multiplicity_count;
\ No newline at end of file
+mod multiplicity_count;
+#[cfg(zksql_sim)]
+pub use intermed_bag_calc::bag_lmr_multiplicity_split;
-- 
2.43.0


From b26313cd04db4e08ebe03c7547b36bdc9fcccf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 19/19] fix: multiplicity split walks the sorted values, within
 bounds

---
 src/zksql_poly_iop/util/intermed_bag_calc.rs | 58 +++++++++-----------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/zksql_poly_iop/util/intermed_bag_calc.rs b/src/zksql_poly_iop/util/intermed_bag_calc.rs
index 9988754..2ae2f2b 100644
--- a/src/zksql_poly_iop/util/intermed_bag_calc.rs
+++ b/src/zksql_poly_iop/util/intermed_bag_calc.rs
@@ -190,33 +190,33 @@ where
     let mut a_index = 0;
     let mut b_index = 0;
     while a_index < sorted_a_evals.len() && b_index < sorted_b_evals.len() {
-        if a_evals[a_index] < b_evals[b_index] {
+        if sorted_a_evals[a_index] < sorted_b_evals[b_index] {
             let mut mul_counter: u64 = 0;
-            let val = a_evals[a_index];
-            while a_evals[a_index] == val {
+            let val = sorted_a_evals[a_index];
+            while a_index < sorted_a_evals.len() && sorted_a_evals[a_index] == val {
                 mul_counter += 1;
                 a_index += 1;
             }
-            l_evals.push(a_evals[a_index]);
+            l_evals.push(val);
             l_mul_evals.push(E::ScalarField::from(mul_counter));
-        } else if a_evals[a_index] > b_evals[b_index] {
+        } else if sorted_a_evals[a_index] > sorted_b_evals[b_index] {
             let mut mul_counter: u64 = 0;
-            let val = b_evals[b_index];
-            while b_evals[b_index] == val {
+            let val = sorted_b_evals[b_index];
+            while b_index < sorted_b_evals.len() && sorted_b_evals[b_index] == val {
                 mul_counter += 1;
                 b_index += 1;
             }
-            r_evals.push(b_evals[b_index]);
+            r_evals.push(val);
             r_mul_evals.push(E::ScalarField::from(mul_counter));
         } else {
-            let match_eval = a_evals[a_index];
+            let match_eval = sorted_a_evals[a_index];
             let mut a_mul_counter: u64 = 0;
             let mut b_mul_counter: u64 = 0;
-            while a_index < sorted_a_evals.len() && a_evals[a_index] == match_eval {
+            while a_index < sorted_a_evals.len() && sorted_a_evals[a_index] == match_eval {
                 a_mul_counter += 1;
                 a_index += 1;
             }
-            while b_index < sorted_b_evals.len() && b_evals[b_index] == match_eval {
+            while b_index < sorted_b_evals.len() && sorted_b_evals[b_index] == match_eval {
                 b_mul_counter += 1;
                 b_index += 1;
             }
@@ -225,29 +225,25 @@ where
             m_bmul_evals.push(E::ScalarField::from(b_mul_counter));
         }
     }
-    for i in a_index..a_len {
-        if !a_sel_evals[i].is_zero() {
-            let mut mul_counter: u64 = 0;
-            let val = a_evals[a_index];
-            while a_evals[a_index] == val {
-                mul_counter += 1;
-                a_index += 1;
-            }
-            l_evals.push(a_evals[a_index]);
-            l_mul_evals.push(E::ScalarField::from(mul_counter));
+    while a_index < sorted_a_evals.len() {
+        let mut mul_counter: u64 = 0;
+        let val = sorted_a_evals[a_index];
+        while a_index < sorted_a_evals.len() && sorted_a_evals[a_index] == val {
+            mul_counter += 1;
+            a_index += 1;
         }
+        l_evals.push(val);
+        l_mul_evals.push(E::ScalarField::from(mul_counter));
     }
-    for i in b_index..b_len {
-        if !b_sel_evals[i].is_zero() {
-            let mut mul_counter: u64 = 0;
-            let val = b_evals[b_index];
-            while b_evals[b_index] == val {
-                mul_counter += 1;
-                b_index += 1;
-            }
-            r_evals.push(b_evals[b_index]);
-            r_mul_evals.push(E::ScalarField::from(mul_counter));
+    while b_index < sorted_b_evals.len() {
+        let mut mul_counter: u64 = 0;
+        let val = sorted_b_evals[b_index];
+        while b_index < sorted_b_evals.len() && sorted_b_evals[b_index] == val {
+            mul_counter += 1;
+            b_index += 1;
         }
+        r_evals.push(val);
+        r_mul_evals.push(E::ScalarField::from(mul_counter));
     }
 
     // create selectors for the intermediate bags and extend things to the correct length
-- 
2.43.0

