//! Which scenarios decide which property, and how much of each is run.

use crate::core::{Ctx, R};
use crate::p_crypto as k;
use crate::p_helpers as hp;
use crate::p_predict as pp;
use crate::p_tamper as t;
use crate::p_witness as w;
use crate::session as s;

pub const WORKERS: u64 = 8;
pub type Scenario = (&'static str, fn(&mut Ctx) -> R);

pub struct Plan {
    pub release: u64,
    pub checked: u64,
    pub wall: u64,
}

/// Which scenario case `i` runs: every worker cycles through all of them.
pub fn slot(i: u64, n: usize) -> usize {
    ((i / WORKERS + 5 * (i % WORKERS)) % n as u64) as usize
}

/// /verif, found from where this binary was built to (sim/target/bin).
pub fn home() -> String {
    if let Ok(h) = std::env::var("VERIF_HOME") {
        return h;
    }
    let me = std::env::current_exe().unwrap();
    me.ancestors().nth(4).map(|p| p.to_string_lossy().to_string()).unwrap_or_else(|| ".".into())
}
pub fn replay_dir() -> String {
    format!("{}/replays", home())
}

pub fn all() -> Vec<&'static str> {
    vec![
        "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
        "C19", "C20", "C21", "C22", "C23", "C24",
    ]
}

macro_rules! list {
    ($($name:literal = $f:expr),* $(,)?) => { vec![$(($name, $f as fn(&mut Ctx) -> R)),*] };
}

pub fn scenarios(pid: &str) -> Vec<Scenario> {
    match pid {
        "C01" => list!["true_programs" = s::true_programs, "true_programs_2" = s::true_programs, "high_degree" = s::high_degree, "true_gadgets" = s::true_gadgets, "long_sessions" = s::long_sessions, "tall_columns" = s::tall_truths],
        "C02" => list![
            "false_programs" = s::false_programs,
            "false_gadgets" = s::false_gadgets,
            "one_among_many" = s::one_among_many,
            "forged_messages" = s::forged_messages,
            "compensating_sums" = s::compensating_sums,
            "false_cancelling" = s::false_cancelling,
            "made_up_witness" = w::any_gadget,
            "predicted_challenges" = pp::programs,
            "long_sessions" = s::long_lies,
            "tall_columns" = s::tall_lies,
        ],
        "C03" => list![
            "damaged" = t::damaged,
            "damaged_2" = t::damaged,
            "every_part" = t::every_part,
            "replayed" = t::replayed,
            "spliced" = t::spliced,
            "compensating" = t::compensating,
            "reopened" = t::reopened,
            "other_formula" = t::other_formula,
            "zero_columns" = t::zero_columns,
        ],
        "C04" => list![
            "malformed_decision" = t::malformed_decision,
            "malformed_session" = t::malformed_session,
            "malformed_batch" = t::malformed_batch,
            "malformed_opening" = t::malformed_opening,
            "malformed_sumcheck" = t::malformed_sumcheck,
            "every_malformation" = t::every_malformation,
        ],
        "C05" => list!["lockstep_programs" = s::lockstep_programs, "lockstep_gadgets" = s::lockstep_gadgets, "long_sessions" = s::lockstep_long],
        "C06" => list!["columns" = s::columns],
        "C07" => list!["open_true" = k::open_true, "open_false" = k::open_false, "open_false_2" = k::open_false, "open_size" = k::open_size],
        "C08" => list!["batch_true" = k::batch_true, "batch_false" = k::batch_false, "batch_false_2" = k::batch_false],
        "C09" => list!["sum_true" = k::sum_true, "sum_false" = k::sum_false],
        "C10" => list!["zero_true" = k::zero_true, "zero_false" = k::zero_false],
        "C11" => list!["transcript_model" = k::transcript_model, "transcript_model_2" = k::transcript_model, "transcript_vectors" = k::transcript_vectors, "session_binding" = t::session_binding, "prover_binding" = t::prover_binding, "commit_sequences" = t::commit_sequences],
        "C12" => list!["same_everywhere" = s::same_everywhere, "functions_everywhere" = s::functions_everywhere],
        "C13" => list!["arith_mle" = k::arith_mle, "arith_merge" = k::arith_merge, "arith_virtual" = k::arith_virtual],
        "C14" => list!["bag_eq" = s::bag_eq, "bag_sum" = s::bag_sum, "multi" = s::multi, "made_up_witness" = w::bags, "predicted_challenges" = pp::bags_of],
        "C15" => list!["incl" = s::incl, "made_up_witness" = w::incl, "predicted_challenges" = pp::incl],
        "C16" => list!["no_zeros" = s::no_zeros, "sel_valid" = s::sel_valid, "perm" = s::perm, "sort" = s::sort, "supp" = s::supp, "made_up_witness" = w::order, "predicted_challenges" = pp::order],
        "C17" => list![
            "bag_disjoint" = s::bag_disjoint,
            "set_disjoint" = s::set_disjoint,
            "union" = s::union,
            "diff" = s::diff,
            "inter" = s::inter,
            "made_up_witness" = w::sets,
            "predicted_challenges" = pp::sets,
        ],
        "C18" => list!["cross" = s::cross, "cross_rows" = s::cross_rows, "index" = s::index, "final_join" = s::final_join, "made_up_witness" = w::tables, "predicted_challenges" = pp::tables_of],
        "C19" => list!["join_red" = s::join_red, "join_red_2" = s::join_red, "made_up_witness" = w::join_red, "predicted_challenges" = pp::join_red],
        "C20" => list!["group_by" = s::group_by, "group_by_2" = s::group_by, "made_up_witness" = w::group_by, "predicted_challenges" = pp::group_by],
        "C21" => list![
            "multiplicities" = hp::multiplicities,
            "support" = hp::support,
            "inclusion" = hp::inclusion,
            "disjointness" = hp::disjointness,
            "split_bags" = hp::split_bags,
            "split_sets" = hp::split_sets,
            "split_multiplicities" = hp::split_multiplicities,
            "join_partners" = hp::join_partners,
            "reindex" = hp::reindex,
            "products" = hp::products,
        ],
        "C22" => list![
            "interleaved" = s::interleaved,
            "prover_copies" = s::prover_copies,
            "verifier_copies" = s::verifier_copies,
            "verifier_copy_formulas" = s::verifier_copy_formulas,
            "many_parameters" = k::many_parameters,
        ],
        "C23" => list![
            "stored_intact" = k::stored_intact,
            "stored_damaged" = k::stored_damaged,
            "stored_damaged_2" = k::stored_damaged,
            "params_generated" = k::params_generated,
        ],
        "C24" => list!["composed" = s::composed, "composed_2" = s::composed, "reorder" = s::reorder, "claims" = s::claims, "cancelling" = s::cancelling, "predicted_challenges" = pp::claims, "long_sessions" = s::long_either],
        _ => vec![],
    }
}

pub fn plan(pid: &str, thorough: bool) -> Plan {
    let (release, checked) = match pid {
        "C06" | "C09" | "C10" => (12000, 3000),
        "C07" | "C11" => (4800, 1200),
        "C13" => (16000, 4000),
        "C02" => (3200, 800),
        "C08" => (2400, 600),
        "C18" => (4000, 1000),
        "C01" | "C04" => (2000, 500),
        "C14" | "C15" | "C16" => (3200, 800),
        "C03" | "C05" | "C21" => (1600, 400),
        "C17" => (2400, 600),
        "C20" => (2400, 600),
        "C19" => (1600, 400),
        "C22" | "C23" | "C24" => (1200, 300),
        _ => (1000, 250),
    };
    if thorough {
        Plan { release: release * 30, checked: checked * 30, wall: 3000 }
    } else {
        Plan { release, checked, wall: 150 }
    }
}

pub fn level(pid: &str) -> &'static str {
    match pid {
        "C03" | "C04" | "C23" => "fault_enumeration",
        _ => "exploration",
    }
}

pub const REAL: &str = "all of /repo/src (arithmetic, transcript, commitment scheme, sum and zero proofs, trackers, every gadget and helper), ark-* arithmetic, and rayon's iterators; both parties run the shipped code";
pub const STUBS: &str = "rayon-core (work stealing) is the seeded scheduler in /verif/rayon-core-sim; merlin is the real one with a recorder of what it absorbs (/verif/merlin-sim); getrandom is a seeded stream; the channel and the store between the parties are the simulator's; dishonest provers, where a scenario uses one, are scripted";

pub fn rule(_pid: &str) -> String {
    "every case draws its inputs, schedule, hash seeds and faults from the seed; a case is non-trivial when the model could decide what must happen and the run reached that decision; distinct ones differ in the digest of everything observable (proof bytes, values, verdict)".into()
}
pub fn assumptions(_pid: &str) -> Vec<String> {
    vec![
        "challenges are drawn by the real transcript; a false claim that survives only with probability about degree*size/2^255 counts as refused".into(),
        "parallel tasks are interleaved at task granularity (fork, join, scope, spawn order and stealing), which is where rayon's safe interface lets order show".into(),
    ]
}
