#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

T="src/tracker/"; S="src/subroutines/"; G="src/zksql_poly_iop/"; A="src/arithmetic/"
HOOK="cfg(zksql_sim): gadget modules and proof-message fields are private or crate-visible"

prop("C01","Honest proofs of true claims always verify",
 "For every set of committed columns and every program of additions, subtractions, multiplications, scalar operations and variable extensions over them, claims that are true (zero everywhere, or summing to the stated value) can be proved, and a verifier that follows the same steps accepts the proof. This holds whatever the number of commitments and whether or not the columns have different sizes. It holds for every worker schedule and hash-iteration order.",
 ["programs","inputs","schedules"],"all tracker programs, column sizes and values, claim sets; all rayon schedules and hash seeds",
 "Tests use a handful of fixed programs with equally sized columns.",
 [T+"prover_tracker.rs",T+"verifier_tracker.rs",S+"pcs/multilinear_kzg/batching.rs"],
 [("claim compilation and batching",T+"prover_tracker.rs: compile_proof"),("verification",T+"verifier_tracker.rs: verify_claims")],
 [("claims","pending sum and zero claims","prover/verifier tracker")],["result of compiling the proof","verdict of the verifier"])
prop("C02","A false claim is never accepted",
 "If any claim registered by the two parties is false of the committed columns (a polynomial claimed zero is not zero at some row, or a claimed sum is wrong), the verifier never accepts, whether the prover runs the shipped code on those columns or fabricates its messages. This holds however small the falsity is (one row, one column, one claim among many) and whatever else is proved alongside.",
 ["programs","inputs","schedules"],"all programs, column contents and subsets of false claims",
 "Tests try a few blatantly wrong instances; a hole needs one specific row, claim position or size mix.",
 [T+"prover_tracker.rs",T+"verifier_tracker.rs",S+"poly_iop/sum_check/verifier.rs"],
 [("random linear combination of claims",T+"verifier_tracker.rs: verify_claims"),("round consistency",S+"poly_iop/sum_check/verifier.rs")],
 (),["verdict of the verifier"])
prop("C03","A damaged, truncated, replayed or spliced proof is never accepted",
 "If a proof is altered on its way to the verifier (any commitment, round message, opening value, opening element or claimed sum changed, dropped, duplicated, reordered or truncated), or is a stale proof of another session, other data or another statement, or is spliced from two proofs, the verifier does not accept it. Data the verdict does not depend on is exempt.",
 ["fault_sequences","inputs","programs"],"all alterations of every verdict-relevant field of every proof, all replays and splices",
 "No test alters a proof; a forgotten check or ignored verdict is invisible to honest runs.",
 [T+"verifier_tracker.rs",S+"pcs/multilinear_kzg/batching.rs",S+"poly_iop/sum_check/verifier.rs","src/transcript/mod.rs"],
 [("Fiat-Shamir transcript","src/transcript/mod.rs"),("batched opening check",S+"pcs/multilinear_kzg/batching.rs: batch_verify_internal")],
 (),["verdict of the verifier"],HOOK)
prop("C04","A malformed proof is refused with an error, promptly and without abort",
 "Given any malformed proof (missing or extra parts, empty vectors, wrong lengths, absurd sizes, points at infinity), the deciding verification step returns an error in time bounded by the size of what it was given. It never aborts, exhausts memory, loops, or accepts.",
 ["fault_sequences","inputs"],"all structural damage to compiled proofs, batch openings, single openings and sumcheck proofs",
 "Tests only feed well-formed proofs, so no shape check is exercised.",
 [T+"verifier_tracker.rs",S+"pcs/multilinear_kzg/batching.rs",S+"pcs/multilinear_kzg/mod.rs",S+"poly_iop/sum_check/mod.rs",S+"poly_iop/zero_check/mod.rs"],
 [("shape checks before use",T+"verifier_tracker.rs: verify_claims"),("length checks",S+"poly_iop/sum_check/verifier.rs")],
 (),["result of the deciding verification call"],HOOK)
prop("C05","Prover and verifier derive the same polynomials in lockstep",
 "After both parties run the same steps, every derived polynomial has the same identity on both sides, the same claims and challenges in the same order, and the verifier's formula for it evaluates, given the committed columns, to the prover's polynomial on every row, and at every other point too while no product has been read back. This covers sums, differences, products, scalar operations, variable extensions at either end, and every polynomial a query gadget derives.",
 ["programs","inputs"],"all programs and gadget invocations, all evaluation points",
 "The tests never compare the two sides' polynomials, and the verdict alone does not reveal a divergent formula.",
 [T+"prover_tracker.rs",T+"verifier_tracker.rs",T+"prover_wrapper.rs",T+"verifier_wrapper.rs"],
 [("closure per derived commitment",T+"verifier_tracker.rs"),("derived polynomial representation",T+"prover_tracker.rs")],
 [("identity counters","next identity on each side","trackers")],["identities, claims, challenges and evaluations on both sides"],HOOK)
prop("C06","Derived columns equal plain row-by-row arithmetic",
 "Whatever the order in which columns are combined, extended, evaluated and read back, the values of a derived column are exactly those of row-by-row field arithmetic on its sources, reading them never changes any other column, and evaluation at a point agrees with the multilinear extension of those values when the column is a plain or linear combination. A copied session continues independently of the original.",
 ["programs","histories","inputs"],"all sequences of column operations interleaved with reads, copies and evaluations",
 "Tests check short fixed chains; caching of materialised columns depends on the history of reads.",
 [T+"prover_tracker.rs",T+"prover_wrapper.rs",T+"dmle_utils.rs"],
 [("product-of-sums representation and materialisation",T+"prover_tracker.rs: materialize_poly")],
 (),["values and evaluations of derived columns"])
prop("C07","A commitment opens to the true evaluation, and to nothing else",
 "For every polynomial no larger than the parameters support and every point, the opening proof verifies for the polynomial's true value; it does not verify for any other value, point, commitment, or altered opening. A polynomial larger than the parameters is refused.",
 ["inputs","fault_sequences","configurations"],"all polynomials, sizes, points, parameter trims, values and alterations",
 "Tests check a few random polynomials and one wrong value.",
 [S+"pcs/multilinear_kzg/mod.rs",S+"pcs/multilinear_kzg/srs.rs",S+"pcs/multilinear_kzg/util.rs"],
 [("quotient commitments and pairing check",S+"pcs/multilinear_kzg/mod.rs: open_internal, verify_internal")],
 (),["opening value and verdict"])
prop("C08","A batch opening verifies exactly when every claimed value is true",
 "For every list of polynomials and points, of any length, with repeated or distinct points, the batch opening verifies when all claimed values are true, and does not verify if any single value, commitment, point, order or proof element differs. Prover and verifier leave the shared challenge stream in the same state.",
 ["inputs","fault_sequences","configurations"],"all batches, point patterns, and alterations",
 "Tests use random honest batches and one all-zero alteration.",
 [S+"pcs/multilinear_kzg/batching.rs"],
 [("random combination and inner sumcheck",S+"pcs/multilinear_kzg/batching.rs")],
 (),["batch verdict"],HOOK)
prop("C09","Sum proofs are complete and sound at every degree and size",
 "For every sum of products of multilinear polynomials, the sum proof verifies against the true sum and its final reduced claim holds at the reduced point; against any other sum, or after any change to a round message, it is refused or its final reduced claim is false. This holds for every degree and number of variables.",
 ["inputs","fault_sequences","schedules"],"all virtual polynomials, degrees, sums, message alterations and schedules",
 "Tests sample a few random low-degree shapes; interpolation has separate code for high degrees.",
 [S+"poly_iop/sum_check/mod.rs",S+"poly_iop/sum_check/prover.rs",S+"poly_iop/sum_check/verifier.rs"],
 [("round polynomial and interpolation",S+"poly_iop/sum_check")],
 (),["verdict and reduced claim"],HOOK)
prop("C10","Zero proofs accept exactly polynomials that vanish on every row",
 "For every sum of products of multilinear polynomials that is zero on the whole hypercube the zero proof verifies and its reduced claim holds; if it is non-zero at even one row, or any message is altered, the proof is refused or its reduced claim is false.",
 ["inputs","fault_sequences","schedules"],"all virtual polynomials, rows, message alterations",
 "Tests use generated zero polynomials and one random non-zero one.",
 [S+"poly_iop/zero_check/mod.rs",A+"virtual_polynomial.rs"],
 [("random eq-weighted sum",S+"poly_iop/zero_check/mod.rs")],
 (),["verdict and reduced claim"],HOOK)
prop("C11","Challenges depend on every message, its label and its order",
 "Two parties that append the same messages under the same labels in the same order draw identical challenges; if any message, label, order, or the number of messages differs, all later challenges differ. Successive challenges differ from each other, and drawing a challenge also changes the later ones.",
 ["histories","inputs"],"all message histories and all single edits of them",
 "No test compares transcripts of different histories.",
 ["src/transcript/mod.rs"],
 [("hash transcript with appended challenges","src/transcript/mod.rs")],
 (),["challenge values"])
prop("C12","Results do not depend on scheduling, worker count or hash seeds",
 "The same inputs yield bit-identical proofs, commitments, openings, challenges, polynomial values and verdicts under every interleaving of parallel work, every number of workers and every hash-iteration order, and parallel arithmetic agrees with its sequential definition.",
 ["schedules","configurations","inputs"],"all work-stealing schedules, worker counts, hash seeds, inputs",
 "Tests run under whatever schedule occurs and never compare two runs.",
 [A+"multilinear_polynomial.rs",A+"virtual_polynomial.rs",S+"poly_iop/sum_check/prover.rs",T+"prover_tracker.rs","src/util/mod.rs"],
 [("sorted identities and order-independent reductions",T+"prover_tracker.rs: compile_proof"),("parallel folds",S+"poly_iop/sum_check/prover.rs")],
 (),["serialised proofs and values"])
prop("C13","Multilinear and virtual polynomial arithmetic matches its definition",
 "Evaluating, fixing leading or trailing variables, merging, adding, scaling and multiplying multilinear and virtual polynomials, building equality polynomials, and generating zero or permuted polynomials all agree with the textbook definition over the hypercube for every size, including polynomials shared between several terms and every interleaving of the parallel work.",
 ["inputs","schedules"],"all polynomials, sizes, points and parallel schedules",
 "Tests compare a few random evaluations.",
 [A+"multilinear_polynomial.rs",A+"virtual_polynomial.rs",A+"util.rs",T+"dmle_utils.rs"],
 [("in-place folding and flattened products",A)],
 (),["values returned"])
prop("C14","Two bags are proved equal, summed or multiplicity-related exactly when they are",
 "Whenever two bags hold the same selected values with the same multiplicities (or two bags together equal a third, or collections agree once each row is weighted by its stated multiplicity) the proof verifies, and otherwise it never does. Unselected rows have no influence on the outcome, and for sums and multiplicity relations the bags may differ in size.",
 ["inputs","programs","schedules"],"all bag contents, selectors, multiplicities and sizes",
 "Tests sample one permuted instance and one unequal one.",
 [G+"bag_eq/bag_eq.rs",G+"bag_sum/bag_sum.rs",G+"bag_multitool/bag_multitool.rs"],
 [("log-derivative sums",G+"bag_multitool/bag_multitool.rs")],
 (),["verdict"],HOOK)
prop("C15","Inclusion is proved exactly when every selected value occurs in the super-bag",
 "If every selected value of one bag occurs among the selected values of the other, the proof verifies, with computed or correct supplied multiplicities; if some selected value does not occur, or the supplied multiplicities are wrong, it never does. Unselected rows have no influence.",
 ["inputs","programs","schedules"],"all bags, selectors, multiplicity advice and sizes",
 "Tests sample a few instances.",
 [G+"bag_inclusion/bag_inclusion.rs",G+"bag_inclusion/utils.rs"],
 [("multiplicity advice and log-derivative sums",G+"bag_inclusion")],
 (),["verdict"],HOOK)
prop("C16","Order, permutation, non-zero and support claims verify exactly when true",
 "A bag is proved strictly sorted, a prescribed permutation of another, free of zeros, or the duplicate-free support of another exactly when it is: true instances always verify and false ones never do, including violations at the first, last or wrap-around row and next to unselected rows. Selectors are proved binary exactly when every entry is zero or one.",
 ["inputs","programs","schedules"],"all bags, selectors, permutations, ranges and single-row violations",
 "Tests sample one positive and one or two negative instances per gadget.",
 [G+"bag_sort/bag_sort.rs",G+"bag_presc_perm/bag_presc_perm.rs",G+"bag_no_zeros/mod.rs",G+"bag_supp/bag_supp.rs",G+"selector_valid/selector_valid.rs"],
 [("rotation, difference range and inverse checks",G+"bag_sort/bag_sort.rs"),("indexed multiset equality",G+"bag_presc_perm/bag_presc_perm.rs")],
 (),["verdict"],HOOK)
prop("C17","Set and bag algebra claims verify exactly when true",
 "Disjointness of bags and sets, set union, set difference and set intersection are proved exactly when they hold: true instances with correct witnesses always verify, and an element missing, extra, duplicated or misplaced in any operand or witness is never accepted. Unselected rows have no influence.",
 ["inputs","programs","schedules"],"all operands, selectors, witnesses and sizes",
 "Tests sample one positive and one or two negative instances per gadget.",
 [G+"bag_disjoint/bag_disjoint.rs",G+"set_disjoint/set_disjoint.rs",G+"set_union/set_union.rs",G+"set_diff/set_diff.rs",G+"set_intersect/set_intersect.rs"],
 [("composition of support, inclusion and sum claims",G)],
 (),["verdict"],HOOK)
prop("C18","Table operations keep rows whole: product, re-indexing and joins",
 "A cross product contains exactly every pair of selected rows; a re-indexed table or join result is proved exactly when its selected rows, taken as whole rows across all columns, are those the operation defines. Swapping, altering or mixing the cells of one column between rows is never accepted.",
 ["inputs","programs","schedules"],"all tables, selectors, index columns and cell-level alterations",
 "Tests use small fixed tables and reject only grossly wrong ones.",
 [G+"cross_product/cross_product.rs",G+"cross_product/utils.rs",G+"index_transform/index_transform.rs",G+"index_transform/utils.rs",G+"final_join_one_to_many/final_join_one_to_many.rs",G+"final_join_one_to_many/utils.rs"],
 [("row folding into one column",G+"index_transform/utils.rs"),("variable extension at either end",G+"cross_product/utils.rs")],
 (),["verdict and result table"],HOOK)
prop("C19","Join reduction splits both inputs by shared keys exactly",
 "The reduction proves, for two key columns, which rows have a partner on the other side: with the correct split it always verifies, and a split that keeps a row without a partner or drops a row with one is never accepted.",
 ["inputs","programs","schedules"],"all key columns, selectors and candidate splits",
 "Tests sample a few splits.",
 [G+"join_reduction/join_reduction.rs",G+"join_reduction/utils.rs"],
 [("disjointness and inclusion of the two halves",G+"join_reduction/join_reduction.rs")],
 (),["verdict"],HOOK)
prop("C20","Grouping and aggregation results are exact",
 "A group-by result is proved exactly when its selected groups are the distinct keys of the selected input rows and each count and sum equals the aggregate over that group's selected rows; every requested aggregate appears in the result in order, and any wrong key, count, sum or missing group is never accepted. (The support columns the prover supplies have as many rows as the input table; the verifier takes that for granted.)",
 ["inputs","programs","schedules"],"all tables, selectors, aggregate lists and single-cell alterations of the result",
 "Tests sample a small fixed table.",
 [G+"group_by/group_by.rs"],
 [("support proof plus weighted log-derivative sums",G+"group_by/group_by.rs")],
 (),["verdict and result table"],HOOK)
prop("C21","Witness helpers compute what they promise",
 "Helpers that count multiplicities, build supports and inclusion multiplicities, split two bags or sets into left, middle and right parts, mark join partners, form products and re-index rows return the exact result over selected rows for every input, independent of hash-iteration order, and what they return is accepted by the matching proof.",
 ["inputs","schedules","configurations"],"all inputs and hash seeds",
 "Tests use small instances without duplicates straddling both sides or unselected rows.",
 [G+"util/intermed_bag_calc.rs",G+"util/multiplicity_count.rs",G+"bag_supp/utils.rs",G+"bag_inclusion/utils.rs",G+"bag_disjoint/utils.rs",G+"join_reduction/utils.rs",G+"cross_product/utils.rs",G+"final_join_one_to_many/utils.rs"],
 [("hash-map counting and merge walks",G+"util")],
 (),["returned columns"],HOOK)
prop("C22","Sessions do not influence each other",
 "Any number of prover and verifier sessions interleaved in one process each produce exactly the proof and verdict they produce alone, and a copy made in mid-session continues independently of its original.",
 ["histories","schedules"],"all interleavings of sessions and copies",
 "Tests run one session at a time.",
 [T+"prover_wrapper.rs",T+"verifier_wrapper.rs",T+"prover_tracker.rs",T+"verifier_tracker.rs"],
 [("per-session reference-counted state",T+"prover_wrapper.rs"),("shared closures",T+"verifier_tracker.rs")],
 (),["proofs and verdicts per session"])
prop("C23","Stored parameters, commitments and openings survive storage or are rejected",
 "Parameters, trimmed keys, commitments and opening proofs written out and read back intact behave exactly as the originals. A short, torn or truncated copy is refused when read, an altered commitment or opening never verifies, and reading never aborts.",
 ["crash_points","fault_sequences","configurations"],"all crash points and corruptions of the stored bytes, all trims",
 "No test serialises anything.",
 [S+"pcs/multilinear_kzg/srs.rs",S+"pcs/multilinear_kzg/mod.rs",S+"pcs/structs.rs"],
 [("canonical serialisation of every stored field",S+"pcs"),("parameter generation and trim",S+"pcs/multilinear_kzg/srs.rs")],
 (),["read-back result and verdicts obtained with it"])
prop("C24","A composed query proves all its steps at once, or nothing",
 "Several query steps proved in one session, the output of one feeding the next, verify together exactly when every step is true; a single false step anywhere makes the whole proof fail, and the order and number of steps have no other influence.",
 ["programs","inputs","histories"],"all compositions of steps with at most one falsified step",
 "Tests exercise each step alone.",
 [T+"prover_tracker.rs",T+"verifier_tracker.rs",G],
 [("shared claim list and single compiled proof",T+"prover_tracker.rs: compile_proof")],
 (),["verdict of the composed session"],HOOK)

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
