//! The table of properties and how their cases are drawn.
use crate::bssm;
use crate::engine::*;
use crate::extra;
use crate::generic::*;
use crate::mem;
use crate::mssm;
use crate::repro;
use crate::rt::*;
use crate::sched;

fn p01(c: &mut Case) -> R {
    if let Some(b) = aligned_bits(c) {
        return aligned_case::<FBdd>(c, b);
    }
    match c.idx % 40 {
        0 => exh_case::<FBdd>(c, c.idx / 40),
        _ => sem_case::<FBdd>(c),
    }
}
fn p02(c: &mut Case) -> R {
    if c.idx == 7 {
        return many_vars::<FBdd>(c);
    }
    if let Some(b) = aligned_bits(c) {
        return aligned_case::<FBdd>(c, b);
    }
    if c.idx % 400 == 3 {
        canon_large::<FBdd>(c)
    } else {
        canon_case::<FBdd>(c)
    }
}
fn p03(c: &mut Case) -> R {
    if let Some(p) = wrap_period(c) {
        return gc_wrap::<FBdd>(c, p);
    }
    if c.idx % 3 == 2 {
        gc_narrow::<FBdd>(c)
    } else {
        gc_case::<FBdd>(c)
    }
}
fn p04(c: &mut Case) -> R {
    if let Some(b) = aligned_bits(c) {
        return aligned_case::<FZdd>(c, b);
    }
    match c.idx % 40 {
        0 => exh_case::<FZdd>(c, c.idx / 40),
        x if x % 3 == 1 => zdd_sparse(c),
        _ => sem_case::<FZdd>(c),
    }
}
fn p05(c: &mut Case) -> R {
    if c.idx == 7 {
        return many_vars::<FZdd>(c);
    }
    if let Some(b) = aligned_bits(c) {
        return aligned_case::<FZdd>(c, b);
    }
    if c.idx % 400 == 3 {
        canon_large::<FZdd>(c)
    } else {
        canon_case::<FZdd>(c)
    }
}
fn p06(c: &mut Case) -> R {
    if let Some(p) = wrap_period(c) {
        return gc_wrap::<FZdd>(c, p);
    }
    if c.idx % 3 == 2 {
        gc_narrow::<FZdd>(c)
    } else {
        gc_case::<FZdd>(c)
    }
}
fn p07(c: &mut Case) -> R {
    if let Some(b) = aligned_bits(c) {
        return aligned_case::<FMdd>(c, b);
    }
    match c.idx % 40 {
        0 => exh_case::<FMdd>(c, c.idx / 40),
        _ => sem_case::<FMdd>(c),
    }
}
fn p08(c: &mut Case) -> R {
    if let Some(b) = aligned_bits(c) {
        return aligned_case::<FMt<i64>>(c, b);
    }
    match c.idx % 40 {
        0 => exh_case::<FMt<i64>>(c, c.idx / 40),
        x if x % 2 == 0 => sem_case::<FMt<i32>>(c),
        _ => sem_case::<FMt<i64>>(c),
    }
}
fn p09(c: &mut Case) -> R {
    if let Some(b) = aligned_bits(c) {
        return aligned_case::<FMt2<i32>>(c, b);
    }
    match c.idx % 40 {
        0 => exh_case::<FMt2<i32>>(c, c.idx / 40),
        x if x % 2 == 0 => sem_case::<FMt2<i32>>(c),
        _ => sem_case::<FMt2<i64>>(c),
    }
}
fn p10(c: &mut Case) -> R {
    match c.idx {
        7 => return many_vars::<FMdd>(c),
        8 => return many_vars::<FMt<i64>>(c),
        9 => return many_vars::<FMt2<i32>>(c),
        _ => (),
    }
    if let Some(b) = aligned_bits(c) {
        return match c.rng.below(3) {
            0 => aligned_case::<FMdd>(c, b),
            1 => aligned_case::<FMt<i64>>(c, b),
            _ => aligned_case::<FMt2<i32>>(c, b),
        };
    }
    match (c.idx % 400, c.idx % 3) {
        (3, _) => canon_large::<FMdd>(c),
        (4, _) => canon_large::<FMt<i64>>(c),
        (5, _) => canon_large::<FMt2<i32>>(c),
        (_, 0) => canon_case::<FMdd>(c),
        (_, 1) => canon_case::<FMt<i64>>(c),
        _ => canon_case::<FMt2<i32>>(c),
    }
}
fn p11(c: &mut Case) -> R {
    if let Some(p) = wrap_period(c) {
        return match c.idx % 4 {
            0 => gc_wrap::<FMdd>(c, p),
            1 => gc_wrap::<FMt<i64>>(c, p),
            2 => gc_wrap::<FMt2<i32>>(c, p),
            _ => gc_wrap::<FZm<i64>>(c, p),
        };
    }
    if c.idx % 3 == 2 {
        return match c.idx / 3 % 5 {
            0 => gc_narrow::<FMdd>(c),
            1 => gc_narrow::<FMt<i64>>(c),
            2 | 3 => gc_narrow::<FMt2<i32>>(c),
            _ => gc_narrow::<FZm<i64>>(c),
        };
    }
    match c.idx % 4 {
        0 => gc_case::<FMdd>(c),
        1 => gc_case::<FMt<i64>>(c),
        2 => gc_case::<FMt2<i32>>(c),
        _ => gc_case::<FZm<i64>>(c),
    }
}
fn p12(c: &mut Case) -> R {
    if c.idx == 7 {
        return many_vars::<FZm<i64>>(c);
    }
    if let Some(b) = aligned_bits(c) {
        return aligned_case::<FZm<i64>>(c, b);
    }
    match c.idx % 40 {
        0 => exh_case::<FZm<i64>>(c, c.idx / 40),
        5 | 25 => baseline_case::<i64>(c),
        x if x % 3 == 1 => canon_case::<FZm<i32>>(c),
        _ => sem_case::<FZm<i64>>(c),
    }
}
fn p14(c: &mut Case) -> R {
    if let Some(b) = aligned_bits(c) {
        return match c.rng.below(6) {
            0 => aligned_case::<FBdd>(c, b),
            1 => aligned_case::<FZdd>(c, b),
            2 => aligned_case::<FMdd>(c, b),
            3 => aligned_case::<FMt<i64>>(c, b),
            4 => aligned_case::<FMt2<i32>>(c, b),
            _ => aligned_case::<FZm<i64>>(c, b),
        };
    }
    if let Some(p) = wrap_period(c) {
        return match c.idx % 6 {
            0 => gc_wrap::<FBdd>(c, p),
            1 => gc_wrap::<FZdd>(c, p),
            2 => gc_wrap::<FMdd>(c, p),
            3 => gc_wrap::<FMt<i64>>(c, p),
            4 => gc_wrap::<FMt2<i32>>(c, p),
            _ => gc_wrap::<FZm<i64>>(c, p),
        };
    }
    let h = c.idx % 60 < 6;
    match c.idx % 6 {
        0 => cache_case::<FBdd>(c, h),
        1 => cache_case::<FZdd>(c, h),
        2 => cache_case::<FMdd>(c, h),
        3 => cache_case::<FMt<i64>>(c, h),
        4 => cache_case::<FMt2<i32>>(c, h),
        _ => cache_case::<FZm<i64>>(c, h),
    }
}

fn p15(c: &mut Case) -> R {
    if c.idx % 3000 == 9 {
        return bssm::many_handles(c);
    }
    if c.idx % 500 == 77 {
        bssm::handle_gc_default(c)
    } else if c.idx % 9 == 4 {
        bssm::rpn_case(c, true)
    } else {
        bssm::handle_gc_case(c)
    }
}
fn p17(c: &mut Case) -> R {
    bssm::prob_case(c, false)
}
fn p18(c: &mut Case) -> R {
    bssm::prob_case(c, true)
}
fn p21(c: &mut Case) -> R {
    if c.idx % 2 == 0 {
        bssm::interval_case(c)
    } else {
        mssm::interval_case::<i32>(c)
    }
}
fn p22(c: &mut Case) -> R {
    bssm::minsol_case(c)
}
fn p24(c: &mut Case) -> R {
    bssm::count_case(c)
}
fn p26(c: &mut Case) -> R {
    bssm::family_case(c)
}
fn p27(c: &mut Case) -> R {
    if c.idx % 2 == 0 {
        bssm::nary_case(c)
    } else {
        mssm::nary_case::<i32>(c)
    }
}
fn p28(c: &mut Case) -> R {
    bssm::rpn_case(c, false)
}
fn p32(c: &mut Case) -> R {
    if c.idx % 2 == 0 {
        bssm::nav_case(c)
    } else {
        mssm::nav_case::<i32>(c)
    }
}

fn p33(c: &mut Case) -> R {
    if c.idx % 400 == 111 {
        return sched::bdd(c, true);
    }
    match c.idx % 5 {
        0 | 1 => sched::bdd(c, false),
        2 => sched::zdd(c),
        3 => sched::mdd::<i32>(c),
        _ => sched::mdd::<i64>(c),
    }
}
fn p34(c: &mut Case) -> R {
    match c.idx % 16 {
        0..=7 => mem::lifetime_case(c),
        8 => mem::outlive_case(c),
        9 | 10 => mem::steady_bss(c),
        11 => mem::steady_zdd(c),
        12 => mem::steady_mss::<i32>(c),
        13 => mem::steady_mss::<i64>(c),
        14 => match c.rng.below(3) {
            0 => mem::steady_forest::<FBdd>(c),
            1 => mem::steady_forest::<FZdd>(c),
            _ => mem::steady_forest::<FMdd>(c),
        },
        _ => match c.rng.below(3) {
            0 => mem::steady_forest::<FMt<i64>>(c),
            1 => mem::steady_forest::<FMt2<i32>>(c),
            _ => mem::steady_forest::<FZm<i64>>(c),
        },
    }
}
fn p16(c: &mut Case) -> R {
    if c.idx % 21 == 13 {
        return mssm::family_gc_case::<i64>(c);
    }
    if c.idx % 3000 == 10 {
        return mssm::many_handles::<i32>(c);
    }
    if c.idx % 9 == 4 {
        return mssm::rpn_case::<i32>(c, true);
    }
    if c.idx % 2 == 0 {
        mssm::handle_gc_case::<i32>(c)
    } else {
        mssm::handle_gc_case::<i64>(c)
    }
}

fn p19(c: &mut Case) -> R {
    mssm::prob_case::<i32>(c, false)
}

fn p20(c: &mut Case) -> R {
    mssm::prob_case::<i32>(c, true)
}

fn p23(c: &mut Case) -> R {
    if c.idx % 2 == 0 {
        mssm::minsol_case::<i32>(c)
    } else {
        mssm::minsol_case::<i64>(c)
    }
}

fn p25(c: &mut Case) -> R {
    if c.idx % 3 == 0 {
        mssm::count_case::<i64>(c)
    } else {
        mssm::count_case::<i32>(c)
    }
}

fn p29(c: &mut Case) -> R {
    if c.idx % 3 == 0 {
        mssm::rpn_case::<i64>(c, false)
    } else {
        mssm::rpn_case::<i32>(c, false)
    }
}

fn p13(c: &mut Case) -> R {
    extra::cachetab_case(c)
}
fn p30(c: &mut Case) -> R {
    match c.idx % 7 {
        0 => extra::dot_case::<FBdd>(c),
        1 => extra::dot_case::<FZdd>(c),
        2 => extra::dot_case::<FMdd>(c),
        3 => extra::dot_case::<FMt<i64>>(c),
        4 => extra::dot_case::<FMt2<i32>>(c),
        5 => extra::dot_case::<FZm<i64>>(c),
        _ => extra::dot_handles(c),
    }
}
fn p31(c: &mut Case) -> R {
    match c.idx % 9 {
        0 => extra::cost_engine::<FBdd>(c),
        1 => extra::cost_engine::<FZdd>(c),
        2 => extra::cost_engine::<FMdd>(c),
        3 => extra::cost_engine::<FMt<i64>>(c),
        4 | 5 => extra::cost_engine::<FMt2<i32>>(c),
        6 => extra::cost_engine::<FZm<i64>>(c),
        7 => extra::cost_bss(c),
        _ => extra::cost_mss(c),
    }
}

pub static PROPS: &[Prop] = &[
    Prop {
        id: "P01",
        rule: "random histories of BDD operations (with collections, cache clears, gaps between levels, large forests), all pairs of 3-variable functions per operation, sampled large functions; distinct = (operation, operand tables) with a non-constant result",
        quick: 24000,
        thorough: 1000000,
        run: p01,
        must: &["ops_checked", "gc", "exhaustive_tuples", "ops_checked_big", "histories_beyond_65536_nodes"],
        assumptions: &["operands without undetermined leaves"],
    },
    Prop {
        id: "P02",
        rule: "functions reached by different construction orders, operators and node creation, before and after collections; distinct = function tables whose nodes were compared",
        quick: 32000,
        thorough: 800000,
        run: p02,
        must: &["rebuilt_same_node", "tables_read_back", "large_forests", "gc", "recreated_same_node"],
        assumptions: &[],
    },
    Prop {
        id: "P03",
        rule: "the same history on a forest that collects at random points and on a twin that never does; distinct = collection rounds by root set and reclaimed count",
        quick: 14000,
        thorough: 400000,
        run: p03,
        must: &["gc", "slots_reused", "slots_reclaimed", "nodes_unchanged_by_gc", "rounds_with_root_id_reuse", "ops_compared_with_twin"],
        assumptions: &["node ids given to gc are live"],
    },
    Prop {
        id: "P04",
        rule: "random histories of ZDD set algebra against explicit set families, all pairs of families over 3 elements, sparse families over many elements; distinct = (operation, operand families)",
        quick: 16000,
        thorough: 600000,
        run: p04,
        must: &["ops_checked", "op_divide", "divide_nonempty_quotient", "exhaustive_tuples", "gc"],
        assumptions: &["the divisor of a division is not the empty family"],
    },
    Prop {
        id: "P05",
        rule: "families reached by different construction orders; zero-suppression, order and uniqueness of all reachable nodes; distinct = family tables whose nodes were compared",
        quick: 20000,
        thorough: 600000,
        run: p05,
        must: &["rebuilt_same_node", "tables_read_back", "large_forests", "gc", "recreated_same_node"],
        assumptions: &[],
    },
    Prop {
        id: "P06",
        rule: "as P03, on the ZDD forest",
        quick: 28000,
        thorough: 800000,
        run: p06,
        must: &["gc", "slots_reused", "slots_reclaimed", "nodes_unchanged_by_gc", "rounds_with_root_id_reuse", "ops_compared_with_twin"],
        assumptions: &["node ids given to gc are live"],
    },
    Prop {
        id: "P07",
        rule: "random histories of boolean MDD operations over mixed radices (1 to 40 states), all pairs of small functions; distinct = (operation, operand tables)",
        quick: 36000,
        thorough: 1200000,
        run: p07,
        must: &["ops_checked", "gc", "exhaustive_tuples", "ops_checked_big", "histories_beyond_65536_nodes"],
        assumptions: &["undetermined operands only where the operation defines them"],
    },
    Prop {
        id: "P08",
        rule: "random histories of value operations including division by zero and undetermined leaves; distinct = (operation, operand tables)",
        quick: 28000,
        thorough: 1000000,
        run: p08,
        must: &["ops_checked", "gc", "exhaustive_tuples", "results_partly_undetermined", "ops_checked_big", "histories_beyond_65536_nodes"],
        assumptions: &["intermediate values stay inside the value type"],
    },
    Prop {
        id: "P09",
        rule: "random histories mixing value and boolean nodes (comparisons, ite, conditional selection); distinct = (operation, operand tables)",
        quick: 24000,
        thorough: 800000,
        run: p09,
        must: &["ops_checked", "gc", "exhaustive_tuples", "ops_checked_big"],
        assumptions: &["comparisons are judged on determined operands"],
    },
    Prop {
        id: "P10",
        rule: "as P02, on the boolean, multi-terminal and combined multi-valued forests",
        quick: 9000,
        thorough: 250000,
        run: p10,
        must: &["rebuilt_same_node", "tables_read_back", "large_forests", "gc", "recreated_same_node"],
        assumptions: &[],
    },
    Prop {
        id: "P11",
        rule: "as P03, on the MDD, MTMDD, combined and ZMDD forests",
        quick: 5000,
        thorough: 150000,
        run: p11,
        must: &["gc", "slots_reused", "slots_reclaimed", "nodes_unchanged_by_gc", "rounds_with_root_id_reuse", "ops_compared_with_twin"],
        assumptions: &["node ids given to gc are live"],
    },
    Prop {
        id: "P12",
        rule: "random histories of labelled-family algebra (intersect, setdiff, baseline) against explicit maps from vectors to labels; distinct = (operation, operand tables)",
        quick: 30000,
        thorough: 1000000,
        run: p12,
        must: &["ops_checked", "exhaustive_tuples", "rebuilt_same_node", "baselines_added", "baselines_present"],
        assumptions: &[],
    },
    Prop {
        id: "P13",
        rule: "random histories of put/get/liveness scan/clear against a map, small and 32-bit keys, tables grown past several doublings; distinct = (entries, keys known, id range)",
        quick: 16000,
        thorough: 600000,
        run: p13,
        must: &["puts", "probes", "liveness_scans", "clears", "tables_grown", "entries_recalled"],
        assumptions: &["values put are below 2^32-1, ids passed to liveness scans are inside the bitmap"],
    },
    Prop {
        id: "P14",
        rule: "operations answered by managers with long histories are replayed in fresh managers and after clearing the caches; distinct = (case, operation, operands)",
        quick: 6000,
        thorough: 200000,
        run: p14,
        must: &["compared_with_fresh_manager", "compared_after_clear", "ops_with_history", "histories_beyond_65536_nodes", "gc"],
        assumptions: &[],
    },
    Prop {
        id: "P15",
        rule: "random handle histories (clone, drop, combine, navigate, enumerate) with automatic collection at random thresholds; distinct = sets of tables held at a collection",
        quick: 40000,
        thorough: 1200000,
        run: p15,
        must: &["collections_observed", "default_threshold_collections", "children_outliving_parent", "enumerations_across_collections", "exact_collections"],
        assumptions: &["handles do not outlive their manager"],
    },
    Prop {
        id: "P16",
        rule: "as P15, multi-state functions and their families, the family forest pushed past its collection threshold; distinct = sets of tables held at a collection",
        quick: 6000,
        thorough: 200000,
        run: p16,
        must: &["collections_observed", "family_collections_observed", "children_outliving_parent", "enumerations_across_collections", "exact_collections", "families_rechecked"],
        assumptions: &["handles do not outlive their manager"],
    },
    Prop {
        id: "P17",
        rule: "random functions (tables, expressions, k-of-n, random diagrams) with exact field arithmetic and floats against the sum over all states; distinct = (function, state set)",
        quick: 150000,
        thorough: 6000000,
        run: p17,
        must: &["nontrivial_probabilities", "large_diagrams", "vars_without_probability"],
        assumptions: &[],
    },
    Prop {
        id: "P18",
        rule: "random functions with exact field arithmetic and floats against the difference of conditional probabilities; distinct = (function, state set)",
        quick: 80000,
        thorough: 3000000,
        run: p18,
        must: &["importances_compared", "large_diagrams"],
        assumptions: &[],
    },
    Prop {
        id: "P19",
        rule: "random multi-state functions with exact field arithmetic and floats against the sum over all state vectors; distinct = (function, labels)",
        quick: 150000,
        thorough: 6000000,
        run: p19,
        must: &["boolean_functions", "value_functions", "partly_undetermined_functions", "large_systems"],
        assumptions: &["every variable has a distribution with one entry per state"],
    },
    Prop {
        id: "P20",
        rule: "random multi-state functions against differences of conditional probabilities of adjacent states; distinct = (function, labels)",
        quick: 150000,
        thorough: 6000000,
        run: p20,
        must: &["importances_compared", "multi_state_importances", "large_systems"],
        assumptions: &["every variable has a distribution with one entry per state"],
    },
    Prop {
        id: "P21",
        rule: "random functions and probability boxes; points inside the boxes must be enclosed; distinct = (function, labels)",
        quick: 120000,
        thorough: 5000000,
        run: p21,
        must: &["points_checked_in_enclosures", "degenerate_boxes_compared"],
        assumptions: &["interval arithmetic without directed rounding: a slack of a few ulps is allowed"],
    },
    Prop {
        id: "P22",
        rule: "random, monotone and nearly monotone functions; families against the definition of minimal sets; distinct = function tables",
        quick: 150000,
        thorough: 5000000,
        run: p22,
        must: &["non_monotone_refused", "path_families", "cut_families", "families_of_3_or_more", "family_algebra", "large_families", "duals_compared"],
        assumptions: &[],
    },
    Prop {
        id: "P23",
        rule: "random, monotone and nearly monotone multi-state functions; every stratum and level against the definition; distinct = function tables",
        quick: 80000,
        thorough: 3000000,
        run: p23,
        must: &["non_monotone_refused", "path_families", "cut_families", "family_algebra", "large_families", "strata_compared", "levels_compared", "three_or_more_levels"],
        assumptions: &["functions without undetermined values"],
    },
    Prop {
        id: "P24",
        rule: "random functions: count, enumeration and size against the table; distinct = function tables",
        quick: 100000,
        thorough: 4000000,
        run: p24,
        must: &["enumerations_compared", "sizes_compared", "large_counts"],
        assumptions: &[],
    },
    Prop {
        id: "P25",
        rule: "random multi-state functions: count, enumeration and size against the table; distinct = function tables",
        quick: 100000,
        thorough: 4000000,
        run: p25,
        must: &["enumerations_compared", "sizes_compared", "large_counts"],
        assumptions: &[],
    },
    Prop {
        id: "P26",
        rule: "random handle histories of set-family algebra against explicit families; distinct = (operation, families)",
        quick: 300000,
        thorough: 9000000,
        run: p26,
        must: &["families_compared", "nonempty_quotients"],
        assumptions: &["elements are declared once per manager; sets given as lists may repeat elements"],
    },
    Prop {
        id: "P27",
        rule: "random lists of functions (repeated, constant, unordered) for the n-ary combinations; distinct = (operation, operand tables)",
        quick: 200000,
        thorough: 8000000,
        run: p27,
        must: &["kofn_compared", "empty_lists", "large_kofn", "multi_state_nary_compared"],
        assumptions: &[],
    },
    Prop {
        id: "P28",
        rule: "random well-formed and mutated expressions against an independent interpreter; distinct = expression texts",
        quick: 200000,
        thorough: 8000000,
        run: p28,
        must: &["expressions_compared", "malformed_expressions_refused"],
        assumptions: &[],
    },
    Prop {
        id: "P29",
        rule: "random well-formed and mutated multi-state expressions against an independent interpreter; distinct = expression texts",
        quick: 120000,
        thorough: 5000000,
        run: p29,
        must: &["expressions_compared", "malformed_expressions_refused"],
        assumptions: &["type-confused expressions and overflow are outside the claim"],
    },
    Prop {
        id: "P30",
        rule: "pictures of random diagrams of all six forests and all handle kinds, parsed and followed at every point; distinct = picture texts",
        quick: 90000,
        thorough: 3000000,
        run: p30,
        must: &["pictures_followed", "handle_pictures", "points_followed"],
        assumptions: &["variable labels contain no quote or semicolon"],
    },
    Prop {
        id: "P31",
        rule: "diagrams with up to 10^17 paths but few nodes: nodes created and arithmetic done are counted, each case has a CPU-time limit orders of magnitude above its cost; distinct = (operation, operand sizes)",
        quick: 16000,
        thorough: 600000,
        run: p31,
        must: &["operands_with_over_1e9_paths", "operations_costed", "analyses_costed", "multi_state_analyses_costed"],
        assumptions: &["cost is judged by counted work, and by a limit of 90 s CPU for cases that take milliseconds"],
    },
    Prop {
        id: "P32",
        rule: "random functions walked through the navigation interface only; distinct = function tables",
        quick: 150000,
        thorough: 6000000,
        run: p32,
        must: &["nodes_navigated", "multi_state_nodes_navigated", "family_nodes_navigated", "reports_compared_with_walk", "multi_state_reports_compared_with_walk"],
        assumptions: &[],
    },
    Prop {
        id: "P33",
        rule: "random handle histories at random and default thresholds, live nodes compared with the documented collection schedule after every operation; distinct = (threshold set, threshold re-armed)",
        quick: 25000,
        thorough: 2000000,
        run: p33,
        must: &["steps_followed", "family_steps_followed", "multi_state_steps_followed", "collections_observed", "collections_caused_inside_an_operation", "operations_below_threshold", "thresholds_raised", "default_threshold_raised", "looks_that_left_the_forest_alone"],
        assumptions: &["handles do not outlive their manager"],
    },
    Prop {
        id: "P34",
        rule: "allocated bytes and blocks compared before and after whole workloads, and between rounds of the same work in one manager; distinct = (kind of work, bytes held)",
        quick: 6000,
        thorough: 200000,
        run: p34,
        must: &["lifetimes_returned_everything", "handles_outliving_their_manager", "rounds_of_the_same_work", "rounds_over_many_components", "forest_rounds_settled"],
        assumptions: &["memory is what the global allocator has handed out; what the operating system keeps is not judged"],
    },
    Prop {
        id: "P35",
        rule: "random scripts of calls carried out in two managers, transcripts of every answer compared; distinct = (kind of answer, answer)",
        quick: 30000,
        thorough: 1000000,
        run: repro::repro_case,
        must: &["observations_compared", "binary_scripts_repeated", "family_scripts_repeated", "multi_state_scripts_repeated"],
        assumptions: &["answers delivered as unordered sets or maps are compared as such"],
    },
];
