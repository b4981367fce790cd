//! Which generated-input searches decide which property.

use crate::p_bss;
use crate::p_core::*;
use crate::p_mss;
use crate::pbt::{CheckFn, Prop, Sub};

fn s(name: &'static str, f: CheckFn, ops: (usize, usize), quick: u32, thorough: u32) -> Sub {
    Sub { name, f, ops, quick, thorough }
}

const A_MODEL: &str = "the reference tables and the table reader of the harness are right";
const A_ONE: &str = "operands of an operation come from one manager; values stay inside the integer range";
const A_FLOAT: &str = "floating-point results are compared with a relative tolerance";

pub fn props() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut v = all();
    #[cfg(feature = "direct")]
    for p in &mut v {
        use crate::p_direct as d;
        match p.id {
            "C08" => p.subs.push(s("family_counts", d::family_counts, (2, 6), 5000, 120000)),
            "C09" | "C10" => p.subs.push(s("bdd_direct", d::bdd_direct, (4, 30), 12000, 400000)),
            "C12" => p.subs.push(s("bdd_direct", d::bdd_direct, (4, 30), 15000, 500000)),
            "C13" => {
                p.subs.push(s("bdd_direct", d::bdd_direct, (4, 30), 12000, 400000));
                p.subs.push(s("counts_any", d::bss_counts, (2, 10), 6000, 150000));
            }
            "C19" | "C20" => p.subs.push(s("mt2_direct", d::mss_direct, (4, 25), 10000, 300000)),
            "C23" => {
                p.subs.push(s("mt2_direct", d::mss_direct, (4, 25), 10000, 300000));
                p.subs.push(s("counts_any", d::mss_counts, (2, 8), 4000, 100000));
            }
            _ => {}
        }
    }
    v
}

fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "proptest cases: a random variable layout (1-8 variables, or 11-13, or 20-150; levels with gaps, declared in any order) and a history of built tables, literals, connectives over earlier results, drops, cache clears; each result is read back at every assignment (or 40 sampled ones when wide) and compared with a truth-table model. Non-trivial: at least 3 connectives over at least 2 variables (wide: a result of more than 20 nodes; handles: at least 2 handle operations; huge: at least 2 operations among more than 65536 nodes).",
            assumptions: &[A_MODEL, A_ONE],
            subs: vec![
                s("bdd_ops", bdd_ops, (4, 40), 60000, 1500000),
                s("bdd_wide", bdd_wide, (10, 60), 10000, 100000),
                s("bdd_big", bdd_big, (20, 40), 100, 4000),
                s("handles", p_bss::handle_ops, (4, 40), 30000, 800000),
                s("bdd_huge", bdd_huge, (20, 30), 60, 960),
            ],
        },
        Prop {
            id: "C02",
            rule: "proptest histories per engine: tables built bottom-up, operations, drops, collections, and rebuilding of tables seen before by another route; any two held results of the same function must be one node, two different functions two nodes, and the reachable diagram is audited for order, reduction and uniqueness. Handle histories and path/cut families do the same through the handle types. Non-trivial: at least 2 operations and one rebuild over at least 2 variables (handles: at least 2 operations; path/cut sets: a family with at least 2 (multi-state 3) members; families: one of at least 3 sets; vector families: at least one family operation; wide, up to 520 variables: a result of more than 20 nodes; huge: at least 2 operations among more than 65536 nodes).",
            assumptions: &[A_MODEL, A_ONE],
            subs: vec![
                s("bdd", bdd_canon, (4, 40), 15000, 500000),
                s("zdd", zdd_canon, (4, 40), 15000, 500000),
                s("mdd", mdd_canon, (4, 40), 10000, 400000),
                s("mtmdd", mt_canon, (4, 40), 10000, 400000),
                s("mtmdd2", mt2_canon, (4, 40), 10000, 400000),
                s("zmdd", zm_canon, (4, 40), 10000, 400000),
                s("bss_handles", p_bss::handle_ops, (4, 40), 8000, 300000),
                s("bss_minsets", p_bss::minsets, (4, 40), 6000, 300000),
                s("bss_families", p_bss::families, (4, 40), 6000, 300000),
                s("mss_handles", p_mss::handle_ops, (4, 40), 8000, 300000),
                s("mss_minsets", p_mss::minsets, (4, 40), 6000, 300000),
                s("mss_vecfam", p_mss::vecfam, (4, 40), 6000, 300000),
                s("bdd_wide", bdd_wide_gc, (10, 60), 800, 30000),
                s("zdd_wide", zdd_wide_gc, (10, 60), 800, 30000),
                s("mdd_wide", mdd_wide_gc, (10, 60), 800, 30000),
                s("mtmdd_wide", mt_wide_gc, (10, 60), 800, 30000),
                s("mtmdd2_wide", mt2_wide_gc, (10, 60), 800, 30000),
                s("zmdd_wide", zm_wide_gc, (10, 60), 800, 30000),
                s("bdd_huge", bdd_huge, (20, 30), 16, 640),
                s("zdd_huge", zdd_huge, (20, 30), 16, 640),
                s("mdd_huge", mdd_huge, (20, 30), 16, 640),
                s("mt_huge", mt_huge, (20, 30), 16, 640),
                s("mt2_huge", mt2_huge, (30, 45), 16, 640),
                s("zm_huge", zm_huge, (20, 30), 16, 640),
            ],
        },
        Prop {
            id: "C03",
            rule: "proptest histories per engine dominated by drops, collections with random root lists (permuted, repeated, with terminals) and further operations and rebuilds; after each collection every root is read back at every assignment, and every later result is compared with the model. Non-trivial: at least one collection, at least one operation after it, and at least one reclaimed slot used again (wide: a result of more than 20 nodes; huge: at least 2 operations among more than 65536 nodes; mara: more than 300 collections and 1000 operations in one manager; hoard: more than 500 different roots at once and 20 operations after a collection).",
            assumptions: &[A_MODEL, A_ONE],
            subs: vec![
                s("bdd", bdd_gc, (8, 60), 15000, 500000),
                s("zdd", zdd_gc, (8, 60), 15000, 500000),
                s("mdd", mdd_gc, (8, 60), 12000, 400000),
                s("mtmdd", mt_gc, (8, 60), 12000, 400000),
                s("mtmdd2", mt2_gc, (8, 60), 12000, 400000),
                s("zmdd", zm_gc, (8, 60), 12000, 400000),
                s("bdd_wide", bdd_wide_gc, (10, 60), 4000, 60000),
                s("zdd_wide", zdd_wide_gc, (10, 60), 3200, 40000),
                s("mdd_wide", mdd_wide_gc, (10, 60), 3200, 40000),
                s("mtmdd_wide", mt_wide_gc, (10, 60), 3200, 40000),
                s("mtmdd2_wide", mt2_wide_gc, (10, 60), 4000, 60000),
                s("zmdd_wide", zm_wide_gc, (10, 60), 3200, 40000),
                s("bdd_big", bdd_big, (20, 40), 60, 3000),
                s("mt2_big", mt2_big, (20, 40), 60, 3000),
                s("bdd_huge", bdd_huge, (20, 30), 16, 640),
                s("zdd_huge", zdd_huge, (20, 30), 16, 640),
                s("mdd_huge", mdd_huge, (20, 30), 16, 640),
                s("mt_huge", mt_huge, (20, 30), 16, 640),
                s("mt2_huge", mt2_huge, (30, 45), 16, 640),
                s("zm_huge", zm_huge, (20, 30), 16, 640),
                s("hoard_bdd", hoard_bdd, (2, 4), 8, 400),
                s("hoard_zdd", hoard_zdd, (2, 4), 8, 400),
                s("hoard_mdd", hoard_mdd, (2, 4), 8, 400),
                s("hoard_mt", hoard_mt, (2, 4), 8, 400),
                s("hoard_mt2", hoard_mt2, (2, 4), 8, 400),
                s("hoard_zm", hoard_zm, (2, 4), 8, 400),
                s("mara_bdd", mara_bdd, (20, 30), 12, 300),
                s("mara_zdd", mara_zdd, (20, 30), 12, 300),
                s("mara_mdd", mara_mdd, (20, 30), 12, 300),
                s("mara_mt", mara_mt, (20, 30), 12, 300),
                s("mara_mt2", mara_mt2, (20, 30), 12, 300),
                s("mara_zm", mara_zm, (20, 30), 12, 300),
            ],
        },
        Prop {
            id: "C04",
            rule: "the collection histories of C03 with the live count compared after every collection with an independent reachability walk, a repeated collection required to change nothing, and slot growth forbidden while reclaimed slots are free; churn cases run the same build/drop/collect round ten times. Non-trivial: as C03; churn: at least 3 diagrams per round; huge: at least 2 operations among more than 65536 nodes.",
            assumptions: &[A_MODEL, A_ONE],
            subs: vec![
                s("bdd", bdd_gcx, (8, 60), 12000, 500000),
                s("zdd", zdd_gcx, (8, 60), 12000, 500000),
                s("mdd", mdd_gcx, (8, 60), 10000, 400000),
                s("mtmdd", mt_gcx, (8, 60), 10000, 400000),
                s("mtmdd2", mt2_gcx, (8, 60), 10000, 400000),
                s("zmdd", zm_gcx, (8, 60), 10000, 400000),
                s("churn_bdd", churn_bdd, (3, 15), 1500, 60000),
                s("churn_zdd", churn_zdd, (3, 15), 1500, 60000),
                s("churn_mdd", churn_mdd, (3, 15), 1500, 60000),
                s("churn_mtmdd", churn_mt, (3, 15), 1500, 60000),
                s("churn_mtmdd2", churn_mt2, (3, 15), 1500, 60000),
                s("churn_zmdd", churn_zm, (3, 15), 1500, 60000),
                s("bdd_huge", bdd_huge, (20, 30), 16, 640),
                s("zdd_huge", zdd_huge, (20, 30), 16, 640),
                s("mdd_huge", mdd_huge, (20, 30), 16, 640),
                s("mt_huge", mt_huge, (20, 30), 16, 640),
                s("mt2_huge", mt2_huge, (30, 45), 16, 640),
                s("zm_huge", zm_huge, (20, 30), 16, 640),
            ],
        },
        Prop {
            id: "C05",
            rule: "proptest histories over handles of the binary and multi-state managers: create, clone, combine, drop, set low thresholds, collect explicitly, evaluate expressions, hold enumerators and families across collections; every held handle is read back against its model table. Explicit collection must leave exactly what handles and variables reach; bound cases watch the live count of workloads that drop everything. Non-trivial: at least one collection (automatic or explicit) and at least 2 operations (bound, op_bound: well more nodes created than the bound allows to be live; family_pairs: at least one collection; bss_families: one of at least 3 sets; family_heavy: families were dropped; heavy: more than 65536 nodes and at least one collection; hoard: more than 400 different functions or families held at once and 20 operations after a collection).",
            assumptions: &[A_MODEL, A_ONE],
            subs: vec![
                s("bss_gc", p_bss::handle_gc, (8, 60), 20000, 600000),
                s("bss_bound", p_bss::handle_bound, (10, 40), 240, 16000),
                s("mss_gc", p_mss::handle_gc, (8, 60), 20000, 600000),
                s("family_bound", p_bss::family_bound, (20, 40), 240, 16000),
                s("mss_bound", p_mss::handle_bound, (10, 40), 240, 16000),
                s("family_heavy", p_mss::family_heavy, (90, 90), 8, 200),
                s("family_pairs", p_mss::family_pairs, (70, 90), 8, 200),
                s("bss_op_bound", p_bss::op_bound, (1, 1), 480, 16000),
                s("zdd_op_bound", p_bss::fam_op_bound, (1, 1), 144, 4000),
                s("mss_op_bound", p_mss::op_bound, (1, 1), 240, 8000),
                s("bss_heavy", p_bss::handle_heavy, (12, 24), 16, 800),
                s("mss_heavy", p_mss::handle_heavy, (12, 24), 16, 800),
                s("bss_families", p_bss::families, (8, 60), 8000, 300000),
                s("bss_hoard", p_bss::hoard, (2, 4), 16, 800),
                s("mss_hoard", p_mss::hoard, (2, 4), 16, 800),
                s("families_hoard", p_bss::families_hoard, (2, 4), 24, 1200),
                s("bss_long", p_bss::handle_gc, (400, 1500), 400, 10000),
                s("mss_long", p_mss::handle_gc, (400, 1500), 400, 10000),
            ],
        },
        Prop {
            id: "C06",
            rule: "cache_model: put/get/filter/clear histories of the operation cache against a map of the last value stored per key; cache_full: more than 12.7 million entries, past the largest size of the table. Engine histories repeat operations, clear caches in between, mix operations on the same operands, with diagrams large enough to collide in and grow the caches (class cache_grown). Non-trivial: cache_model: more than 20 entries held; cache_full: always; engines: at least 3 operations over at least 2 variables (huge: at least 2 among more than 65536 nodes); handles: at least 2 operations; twins, two managers of one kind used in turn: each used more than once.",
            assumptions: &[A_MODEL, A_ONE],
            subs: vec![
                s("cache_model", compute_cache, (5, 60), 3000, 100000),
                s("cache_full", cache_full, (1, 2), 8, 60),
                s("bdd", bdd_cache, (8, 60), 8000, 400000),
                s("zdd", zdd_cache, (8, 60), 8000, 400000),
                s("mdd", mdd_cache, (8, 60), 8000, 400000),
                s("mtmdd", mt_cache, (8, 60), 8000, 400000),
                s("mtmdd2", mt2_cache, (8, 60), 8000, 400000),
                s("zmdd", zm_cache, (8, 60), 8000, 400000),
                s("bdd_big", bdd_big, (20, 40), 60, 3000),
                s("zdd_big", zdd_big, (20, 40), 60, 3000),
                s("mdd_big", mdd_big, (20, 40), 60, 3000),
                s("mt_big", mt_big, (20, 40), 60, 3000),
                s("mt2_big", mt2_big, (20, 40), 60, 3000),
                s("zm_big", zm_big, (20, 40), 60, 3000),
                s("bss_handles", p_bss::handle_ops, (4, 40), 6000, 300000),
                s("mss_handles", p_mss::handle_ops, (4, 40), 6000, 300000),
                s("twin_bdd", twin_bdd, (8, 60), 3000, 100000),
                s("twin_zdd", twin_zdd, (8, 60), 3000, 100000),
                s("twin_mdd", twin_mdd, (8, 60), 3000, 100000),
                s("twin_mt", twin_mt, (8, 60), 3000, 100000),
                s("twin_mt2", twin_mt2, (8, 60), 3000, 100000),
                s("twin_zm", twin_zm, (8, 60), 3000, 100000),
                s("bss_twins", p_bss::twins, (4, 30), 3000, 100000),
                s("mss_twins", p_mss::twins, (4, 30), 3000, 100000),
                s("bdd_huge", bdd_huge, (20, 30), 24, 1200),
                s("zdd_huge", zdd_huge, (20, 30), 24, 1200),
                s("mdd_huge", mdd_huge, (20, 30), 24, 1200),
                s("mt_huge", mt_huge, (20, 30), 24, 1200),
                s("mt2_huge", mt2_huge, (30, 45), 24, 1200),
                s("zm_huge", zm_huge, (20, 30), 24, 1200),
            ],
        },
        Prop {
            id: "C07",
            rule: "proptest histories of families (tables over up to 7 elements, or explicit set lists over up to dozens of elements) under union, intersection, difference, product and division, in the core engine and through handles, compared with sets of sets computed from the definitions. Non-trivial: at least 3 operations over at least 2 elements (zdd_gc: as C03; families: one of at least 3 sets; wide: one of at least 10 sets; zdd_wide: a result of more than 20 nodes; huge: at least 2 operations among more than 65536 nodes).",
            assumptions: &[A_MODEL, A_ONE],
            subs: vec![
                s("zdd_ops", zdd_ops, (4, 40), 40000, 1000000),
                s("zdd_gc", zdd_gc, (8, 60), 10000, 300000),
                s("families", p_bss::families, (4, 40), 25000, 600000),
                s("families_wide", p_bss::families_wide, (4, 30), 6000, 150000),
                s("zdd_wide", zdd_wide, (10, 60), 9000, 80000),
                s("zdd_huge", zdd_huge, (20, 30), 60, 960),
            ],
        },
        Prop {
            id: "C08",
            rule: "families built from explicit lists (repeated elements, repeated sets, permuted) and by algebra, over few or dozens of elements; count, enumeration, membership and length compared with an explicit set of sets; products of many small families over disjoint elements with a known count. Non-trivial: a family of at least 3 sets was read back (wide: 10; minsets: 2; families_count: more than 2^32 sets). family_counts: products of families over up to 300 elements, counted in modular and 128-bit numbers; non-trivial: more than 2^64 members.",
            assumptions: &[A_MODEL, A_ONE],
            subs: vec![
                s("families", p_bss::families, (4, 40), 30000, 800000),
                s("families_wide", p_bss::families_wide, (4, 30), 8000, 200000),
                s("minsets", p_bss::minsets, (4, 40), 8000, 300000),
                s("families_count", p_bss::families_count, (2, 12), 4000, 100000),
            ],
        },
        Prop {
            id: "C09",
            rule: "random functions (tables, formulas, k-out-of-n) over up to 7 components with random probabilities (including 0, 1 and partly missing), plus read-once formulas over many components with a closed-form answer; results in f64, exact rational/modular and interval numbers compared with the sum over all states. Non-trivial: the function depends on at least 2 components (readonce: a diagram of more than 15 nodes). bdd_direct: the library's functions called on a core manager with any declaration order and level gaps; non-trivial: at least two kinds of query over at least 2 variables.",
            assumptions: &[A_MODEL, A_FLOAT],
            subs: vec![
                s("prob", p_bss::prob_bdd, (4, 40), 20000, 500000),
                s("readonce", p_bss::readonce, (4, 40), 8000, 150000),
            ],
        },
        Prop {
            id: "C10",
            rule: "as C09, comparing each component's measure with the difference of the two conditional sums, and absent components with zero. Non-trivial: the function depends on at least 2 components (readonce: a diagram of more than 15 nodes). bdd_direct: as C09.",
            assumptions: &[A_MODEL, A_FLOAT],
            subs: vec![
                s("bmeas", p_bss::bmeas_bdd, (4, 40), 20000, 500000),
                s("readonce", p_bss::readonce, (4, 40), 8000, 150000),
            ],
        },
        Prop {
            id: "C11",
            rule: "random monotone functions (and random non-monotone ones, which must be refused) over up to 7 components, read-once monotone formulas over many; families read back by enumeration and compared with brute-force minimal path and cut sets. Non-trivial: a family with at least 2 sets (readonce: a diagram of more than 15 nodes).",
            assumptions: &[A_MODEL],
            subs: vec![
                s("minsets", p_bss::minsets, (4, 40), 25000, 600000),
                s("readonce", p_bss::readonce, (4, 40), 8000, 150000),
            ],
        },
        Prop {
            id: "C12",
            rule: "lists of arbitrary formulas (repeated, constant, overlapping, empty) with k from 0 to far beyond the length, nested, and lists of many variables checked by exact probability; dual compared with the negated function at the complemented point. Non-trivial: a list of at least 3 inputs (kofn_wide: always, 5-45 inputs and one in forty 60-330; readonce: a diagram of more than 15 nodes). bdd_direct: gates and duals on a core manager, with undetermined leaves; non-trivial: at least two kinds of query over at least 2 variables.",
            assumptions: &[A_MODEL],
            subs: vec![
                s("gates", p_bss::gates, (4, 40), 25000, 600000),
                s("kofn_wide", p_bss::kofn_wide, (2, 20), 6000, 150000),
                s("readonce", p_bss::readonce, (4, 40), 6000, 150000),
            ],
        },
        Prop {
            id: "C13",
            rule: "random functions over up to 7 variables with every kind of requested outcome set; counts compared with the table, enumerated paths checked for disjointness, soundness, coverage and length. Non-trivial: a non-constant function whose root level exceeds its support, so that levels are skipped (counts_wide, functions of up to 63 levels made of parts with known counts: a count above 2^32; counts_sparse, functions of up to 300 variables true or false at few assignments: a root above level 63). bdd_direct: counts on a core manager with undetermined leaves; non-trivial: as C12. counts_any: up to 340 components, counts in modular, 128-bit and floating-point numbers; non-trivial: a root above level 63.",
            assumptions: &[A_MODEL],
            subs: vec![
                s("counts", p_bss::counts, (4, 40), 20000, 600000),
                s("counts_wide", p_bss::counts_wide, (2, 12), 4000, 100000),
                s("counts_sparse", p_bss::counts_sparse, (2, 10), 800, 20000),
            ],
        },
        Prop {
            id: "C14",
            rule: "expression strings printed from generated formula trees (random spacing, saved sub-expressions, new variables) must evaluate to that formula's table; mutated token streams are classified by a reference parser and must be errors exactly when malformed. Non-trivial: at least one well-formed expression among at least two in the same manager.",
            assumptions: &[A_MODEL],
            subs: vec![s("rpn", p_bss::rpn_bdd, (4, 40), 20000, 600000)],
        },
        Prop {
            id: "C15",
            rule: "as C01 for multi-valued Boolean diagrams (state counts 2 to 300), with undetermined leaves in a third of the cases. Non-trivial: at least 3 operations over at least 2 variables (wide: a result of more than 20 nodes; huge: at least 2 operations among more than 65536 nodes).",
            assumptions: &[A_MODEL, A_ONE],
            subs: vec![
                s("mdd_ops", mdd_ops, (4, 40), 40000, 1000000),
                s("mdd_wide", mdd_wide, (10, 60), 10000, 100000),
                s("mdd_big", mdd_big, (20, 40), 60, 3000),
                s("mt2_ops", mt2_ops32, (4, 40), 10000, 300000),
                s("handles", p_mss::handle_ops, (4, 40), 20000, 600000),
                s("mdd_huge", mdd_huge, (20, 30), 60, 960),
            ],
        },
        Prop {
            id: "C16",
            rule: "histories of integer-valued diagrams (negative values, zero divisors, undetermined points, 32- and 64-bit) under arithmetic, compared pointwise with integer arithmetic; products that could leave the integer range are not performed. Non-trivial: at least 3 operations over at least 2 variables (wide: a result of more than 20 nodes; huge: at least 2 operations among more than 65536 nodes).",
            assumptions: &[A_MODEL, A_ONE],
            subs: vec![
                s("mt_ops32", mt_ops32, (4, 40), 25000, 700000),
                s("mt_ops64", mt_ops64, (4, 40), 25000, 700000),
                s("mt_wide", mt_wide, (10, 60), 9000, 100000),
                s("mt_big", mt_big, (20, 40), 60, 3000),
                s("mt2_ops", mt2_ops64, (4, 40), 10000, 300000),
                s("handles", p_mss::handle_ops, (4, 40), 20000, 600000),
                s("mt_huge", mt_huge, (20, 30), 60, 960),
            ],
        },
        Prop {
            id: "C17",
            rule: "histories mixing value and Boolean diagrams: comparisons, selection, equality and logic, compared pointwise with the model. Non-trivial: at least 3 operations over at least 2 variables (wide: a result of more than 20 nodes; huge: at least 2 operations among more than 65536 nodes).",
            assumptions: &[A_MODEL, A_ONE],
            subs: vec![
                s("mt2_ops32", mt2_ops32, (4, 40), 25000, 700000),
                s("mt2_ops64", mt2_ops64, (4, 40), 25000, 700000),
                s("mt2_wide", mt2_wide, (10, 60), 9000, 100000),
                s("mt2_big", mt2_big, (20, 40), 60, 3000),
                s("handles", p_mss::handle_ops, (4, 40), 25000, 600000),
                s("mt2_huge", mt2_huge, (30, 45), 50, 960),
            ],
        },
        Prop {
            id: "C18",
            rule: "as C14 for the multi-state expression language (integers, Booleans, arithmetic, comparison, logic, min/max, if-then-else, saved sub-expressions). Non-trivial: at least two well-formed expressions in the same manager.",
            assumptions: &[A_MODEL, "kind mismatches, unknown variables and overflow are outside the domain"],
            subs: vec![s("rpn", p_mss::rpn, (4, 40), 20000, 600000)],
        },
        Prop {
            id: "C19",
            rule: "random value and Boolean functions over up to 5 multi-state components with random distributions and requested value sets (including impossible values), in f64, exact and interval numbers, queried repeatedly and in different orders, plus read-once functions over many components; compared with the sum over all states (lattice_long: hundreds of components, closed form). Non-trivial: the function depends on at least 2 components (readonce: more diagram nodes than components; lattice_long: a component above level 255). mt2_direct: the library's functions called on a core manager with any declaration order and level gaps; non-trivial: a probability over at least 2 variables.",
            assumptions: &[A_MODEL, A_FLOAT],
            subs: vec![
                s("prob", p_mss::prob, (4, 40), 20000, 500000),
                s("readonce", p_mss::readonce, (4, 40), 8000, 150000),
                s("lattice_long", p_mss::lattice_long, (2, 6), 600, 15000),
            ],
        },
        Prop {
            id: "C20",
            rule: "as C19, comparing every adjacent-state measure with the difference of conditional sums; with interval probabilities the measure at sampled points inside the intervals must lie in the result. Non-trivial: the function depends on at least 2 components. mt2_direct: as C19.",
            assumptions: &[A_MODEL, A_FLOAT],
            subs: vec![
                s("bmeas", p_mss::bmeas, (4, 40), 20000, 500000),
                s("readonce", p_mss::readonce, (4, 40), 8000, 150000),
            ],
        },
        Prop {
            id: "C21",
            rule: "random monotone multi-state functions (value and Boolean; non-monotone ones must be refused); families read back by enumeration and compared with brute-force minimal/maximal vectors per system value; series-parallel systems of many components with a known number of vectors. Non-trivial: a family with at least 3 vectors (lattice_wide: a count above 2^32; lattice_long: 200-340 components with a family reaching above level 255).",
            assumptions: &[A_MODEL],
            subs: vec![
                s("minsets", p_mss::minsets, (4, 40), 20000, 600000),
                s("lattice_wide", p_mss::lattice_wide, (2, 10), 1500, 40000),
                s("lattice_long", p_mss::lattice_long, (2, 6), 600, 15000),
            ],
        },
        Prop {
            id: "C22",
            rule: "vector families (minimal path/cut families and families made by intersection, difference and extraction at a level) queried by label, level, count and enumeration, compared with explicit vector sets; plus engine histories of the zero-suppressed multi-valued diagram. Non-trivial: at least one family operation (minsets: a family with at least 3 vectors); engine: at least 3 operations over at least 2 variables (zm_wide: a result of more than 20 nodes; huge: at least 2 among more than 65536 nodes; lattice_wide: a count above 2^32; lattice_long: 200-340 components with a family reaching above level 255).",
            assumptions: &[A_MODEL, A_ONE],
            subs: vec![
                s("zm_ops", zm_ops32, (4, 40), 20000, 600000),
                s("vecfam", p_mss::vecfam, (4, 40), 15000, 400000),
                s("minsets", p_mss::minsets, (4, 40), 10000, 400000),
                s("zm_wide", zm_wide, (10, 60), 9000, 80000),
                s("zm_huge", zm_huge, (20, 30), 60, 960),
                s("lattice_wide", p_mss::lattice_wide, (2, 10), 1500, 40000),
                s("lattice_long", p_mss::lattice_long, (2, 6), 600, 15000),
            ],
        },
        Prop {
            id: "C23",
            rule: "random value and Boolean functions with requested value sets; counts compared with the table, enumerated partial assignments checked for disjointness, soundness, coverage and length; read-once functions over many components. Non-trivial: as C13 (readonce: more diagram nodes than components; lattice_wide: a count above 2^32; counts_sparse, up to 200 components and few wanted assignments: a root above level 63). mt2_direct: as C19. counts_any: up to 340 components with mixed numbers of states, counts in modular, 128-bit and floating-point numbers; non-trivial: more than 2^64 assignments.",
            assumptions: &[A_MODEL],
            subs: vec![
                s("counts", p_mss::counts, (4, 40), 20000, 600000),
                s("readonce", p_mss::readonce, (4, 40), 6000, 150000),
                s("lattice_wide", p_mss::lattice_wide, (2, 10), 2000, 60000),
                s("counts_sparse", p_mss::counts_sparse, (2, 8), 500, 15000),
            ],
        },
        Prop {
            id: "C24",
            rule: "DOT text of random diagrams of every kind (core engines with arbitrary levels and undetermined leaves, handles, families), parsed and compared node by node and edge by edge with a walk of the diagram, and evaluated. Non-trivial: a graph of at least 5 nodes.",
            assumptions: &[A_MODEL, "labels contain no quotation marks"],
            subs: vec![
                s("bss_dot", p_bss::dot_bdd, (4, 40), 6000, 200000),
                s("mss_dot", p_mss::dot_mss, (4, 40), 6000, 200000),
                s("bdd", dot_core_bdd, (3, 20), 4000, 150000),
                s("zdd", dot_core_zdd, (3, 20), 4000, 150000),
                s("mdd", dot_core_mdd, (3, 20), 4000, 150000),
                s("mtmdd", dot_core_mt, (3, 20), 4000, 150000),
                s("mtmdd2", dot_core_mt2, (3, 20), 4000, 150000),
                s("zmdd", dot_core_zm, (3, 20), 4000, 150000),
            ],
        },
        Prop {
            id: "C25",
            rule: "random declaration sequences (repeats, different orders) and random functions; variable order, labels, levels, children, constant tests, terminal values and sizes compared with the declared sequence, the function table and an independent walk. Non-trivial: a diagram of at least 3 (multi-state 2) nodes (wide, up to 600 variables: a function of a variable above level 100).",
            assumptions: &[A_MODEL],
            subs: vec![
                s("bss_self", p_bss::self_desc_bdd, (4, 40), 15000, 500000),
                s("mss_self", p_mss::self_desc, (4, 40), 15000, 500000),
                s("bss_wide", p_bss::self_desc_wide, (3, 12), 1200, 40000),
                s("mss_wide", p_mss::self_desc_wide, (3, 12), 1200, 40000),
            ],
        },
    ]
}
