#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TODO = {}
FE = {"C03", "C04", "C23"}
BASE = ("Seeded search, not proof: assurance grows with the number of simulated runs and faults reported in the evidence file. "
        "Both parties run the shipped code in one process; trusted are the reference model in sim/src, the scheduler standing in for rayon-core, and the pairing arithmetic of ark-*. ")
NOTE = {
 "C01": "Random programs over random columns are proved and verified end to end; the model decides which are true, and every true one must be accepted.",
 "C02": "Programs with one false claim, fabricated sums and substituted claims; the model decides falsity, and an accepting verdict is a violation. One open known finding (substituted derived column).",
 "C03": "Every verdict-relevant field of real proofs is altered, dropped, duplicated, swapped, truncated, replayed or spliced, including alterations that cancel under challenges read from the transcript; acceptance is a violation.",
 "C04": "Structural damage at every layer, fed to the deciding call inside a guarded worker with time and memory limits; panic, abort, hang or acceptance is a violation.",
 "C05": "Both sides' identities, claims, challenges and evaluations are compared after every step of random programs and gadgets.",
 "C06": "Random sequences of column operations, reads and copies are compared with row-by-row arithmetic.",
 "C07": "Openings of random polynomials at random points against their true value, and against altered values, points, commitments and elements.",
 "C08": "Batches of random shape, sizes and repetition with true evaluations, and with one or two altered evaluations, points, commitments or messages, including pairs that cancel under challenges the prover can predict.",
 "C09": "Sum proofs over random virtual polynomials against the exact sum, with altered sums and messages.",
 "C10": "Zero proofs over random virtual polynomials that vanish everywhere or not at one vertex, with altered messages.",
 "C11": "Transcripts run against a reference model of what has been absorbed (order, labels, contents); histories that differ in one item must diverge, equal ones agree; session challenges must follow every item of the proof.",
 "C12": "The same session repeated under other schedules, worker counts and hash seeds must give the same bytes.",
 "C13": "Every operation on polynomials against brute-force evaluation on the hypercube and at random points.",
 "C21": "Every helper against a plain reference computation under random hash seeds, with the matching proof accepting its output.",
 "C22": "Several sessions and copies interleaved by the seeded scheduler must end as each does alone. One open known finding (copied verifier shares its formula table).",
 "C23": "Parameters, commitments and proofs go through a simulated store that tears, truncates, flips, duplicates and loses bytes; intact ones must decode to equal values, damaged ones must be refused or decode to an equal value, without aborting.",
 "C24": "Random compositions and reorderings of gadgets over shared tables, judged by the model.",
}
GADGET = "Random tables satisfying or violating the relation at one place are proved and verified end to end; a brute-force model decides the relation, and the verdict must agree."
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in TODO:
        na.append(dict(property=pid, reason=TODO[pid]))
        continue
    checks.append(dict(
        property=pid,
        quick_cmd=f"./check.sh {pid}",
        thorough_cmd=f"VERIF_TIER=thorough ./check.sh {pid}",
        technique="deterministic simulation with fault injection",
        level="fault_enumeration" if pid in FE else "exploration",
        level_note=BASE + NOTE.get(pid, GADGET)))
m = dict(version=1, setup_cmd="./build.sh",
    hooks=dict(guard="cfg(zksql_sim)", enable='RUSTFLAGS="--cfg zksql_sim" (set by /verif/build.sh)', source_commits=HOOKS if (HOOKS := os.popen("git -C /repo log --format=%H --grep='^sim hooks'").read().split()) else []),
    checks=checks, not_applicable=na,
    notes="Replays: sim/target/bin/zksql-sim replay FILE reproduces a violation from the file a check wrote.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
