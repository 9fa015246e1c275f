//! What each check runs, and what it must have observed to give a verdict.
use crate::ctx::{ALL_COMPS, Focus};
use crate::ph_cli as cli;
use crate::ph_diff as d;
use crate::ph_eq as eq;
use crate::ph_io as io;
use crate::ph_probe as probe;
use crate::ph_res as res;
use crate::ph_twin as twin;
use crate::ph_walk as walk;
use crate::runner::{Phase, Prop, ph, ph_t};

const ALL: Focus = Focus::FULL;
const NONE: Focus = Focus::NONE;
const EXPR_COMPS: &[&str] = &["bodies", "globals", "tables", "elems", "datas", "locals"];

/// Enumerations and workloads that reach every decoding routine.
fn enumerated() -> Vec<Phase> {
    vec![
        ph("tiny_sections", 14 * 256, 14 * 256, d::tiny_sections),
        ph("tiny_exprs", 10 * 256, 10 * 256, d::tiny_exprs),
        ph("tiny_types", d::TYPE_CTX as u64 * 256, d::TYPE_CTX as u64 * 256, d::tiny_types),
        ph("lebs", d::lebs_n(), d::lebs_n(), d::lebs),
        ph("leb_values", d::ints_n(), 20 * d::ints_n(), d::leb_values),
        ph("markers", d::markers_n(), 8 * d::markers_n(), d::markers),
        ph("opcodes", 4 * d::opcodes_n(), 400 * d::opcodes_n(), d::opcodes),
        ph("unassigned", 256 + 3 * 128, 256 + 3 * 65536, d::unassigned),
        ph("ids_and_preambles", 256, 256, d::ids_and_preambles),
    ]
}
fn broad(generated: u64, faults: u64) -> Vec<Phase> {
    vec![
        ph("generated", 4 * generated, 200 * generated, d::generated),
        ph("generated_sections", generated / 2, 50 * generated, d::generated_sections),
        ph("generated_code", 2 * generated, 100 * generated, d::generated_code),
        ph("faults", 4 * faults, 200 * faults, d::faults),
        ph("mutations", 4 * faults, 200 * faults, d::mutations),
        ph("section_mutations", 2 * faults, 100 * faults, d::section_mutations),
    ]
}
fn cat(v: Vec<Vec<Phase>>) -> Vec<Phase> {
    v.into_iter().flatten().collect()
}

const A_REF: &str = "the reference decoder and the encoder (written from the WebAssembly 3.0 grammar, sharing no code with wadec, and made to agree with each other on every generated module) state the grammar correctly";
const A_BRIDGE: &str = "the harness reads wadec's public result types by their documented meaning";
const RULE_DIFF: &str = "each case is one byte string decoded by wadec and by the independent reference decoder, verdict and (as far as the property concerns them) components compared; distinct_nontrivial counts distinct byte strings (enumerated strings are distinct by construction)";

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        focus: Focus { wrong_accept: true, ..NONE },
        rule: RULE_DIFF,
        assumptions: &[A_REF],
        level: "exploration",
        need: &[("malformed inputs decoded", 200_000), ("faults (section, item, cause)", 250), ("well-formed inputs decoded", 5_000)],
        phases: || {
            let more = vec![ph("count_pairs", d::count_pairs_n(), d::count_pairs_n(), d::count_pairs), ph("surpluses", d::surpluses_n(), d::surpluses_n(), d::surpluses), ph_t("hot_huge", 3, d::hot_huge_n(), d::hot_huge_n(), d::hot_huge), ph("walks", walk::walks_n(), 60 * walk::walks_n(), walk::walks), ph("scaled", 1_500, 30_000, d::scaled), ph("customs", 3_000, 100_000, d::customs)];
            let v: Vec<Phase> = {
            cat(vec![
                enumerated(),
                broad(6_000, 60_000),
                vec![
                    ph("prefixes", 2_000, 100_000, d::prefixes),
                    ph("cuts", 4_000, 200_000, d::cuts),
                    ph("bodies", 4_000, 200_000, d::bodies),
                    ph("orders3", 2744, 2744, d::orders3),
                    ph("orders", 4_000, 200_000, d::orders),
                    ph("data_shapes", 8_000, 200_000, d::data_shapes),
                    ph("locals", 2_000, 50_000, d::locals),
                    ph("late_faults", 3_000, 100_000, d::late_faults),
                    ph("deep", 50, 2_000, d::deep),
                    ph("utf8_enum", 4 * 256, 4 * 256, d::utf8_enum),
                    ph("utf8_long", 2_000, 50_000, d::utf8_long),
                    ph("random_bytes", 20_000, 2_000_000, d::random_bytes),
                    ph("sizes", d::sizes_n() * 3 / 4, d::sizes_n() + 2 * d::KINDS.len() as u64, d::sizes),
                    ph("orders4", 0, 38_416, d::orders4),
                    ph("tiny_sections3", 0, 14 << 16, d::tiny_sections3),
                    ph("tiny_types3", 0, (d::TYPE_CTX as u64) << 16, d::tiny_types3),
                    ph("tiny_exprs3", 0, 10 << 16, d::tiny_exprs3),
                    ph("utf8_enum3", 0, 4 << 16, d::utf8_enum3),
                ],
            ])
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C02",
        focus: Focus { wrong_reject: true, ..NONE },
        rule: RULE_DIFF,
        assumptions: &[A_REF],
        level: "exploration",
        need: &[("well-formed inputs decoded", 50_000), ("section kinds", 14), ("longest list", 65_000), ("deepest nesting", 1_000)],
        phases: || {
            let more = vec![ph("twins", 50_000, 2_000_000, twin::twins), ph("walks", walk::walks_n(), 60 * walk::walks_n(), walk::walks), ph("scaled", 1_000, 20_000, d::scaled), ph("hot_sizes", d::hot_sizes_n(), d::hot_sizes_n(), d::hot_sizes), ph_t("hot_huge", 3, d::hot_huge_n(), d::hot_huge_n(), d::hot_huge), ph_t("huge_sizes", 3, 0, 36, d::huge_sizes)];
            let v: Vec<Phase> = {
            cat(vec![
                vec![
                    ph("generated", 30_000, 2_000_000, d::generated),
                    ph("generated_sections", 8_000, 400_000, d::generated_sections),
                    ph("generated_types", 8_000, 400_000, d::generated_types),
                    ph("generated_code", 8_000, 400_000, d::generated_code),
                    ph("generated_payloads", 4_000, 200_000, d::generated_payloads),
                    ph("paddings", 4_000, 200_000, d::paddings),
                    ph("edge_values", 4_000, 200_000, d::edge_values),
                    ph("aliases", 4 * crate::spec::OPS.len() as u64, 200 * crate::spec::OPS.len() as u64, d::aliases),
                    ph("relayouts", 3_000, 200_000, d::relayouts),
                    ph("customs", 4_000, 200_000, d::customs),
                    ph("sizes", d::sizes_n() + d::KINDS.len() as u64, d::sizes_n() + 4 * d::KINDS.len() as u64, d::sizes),
                    ph("deep", 225, 10_000, d::deep),
                    ph("orders3", 2744, 2744, d::orders3),
                    ph("orders", 4_000, 200_000, d::orders),
                    ph("data_shapes", 8_000, 200_000, d::data_shapes),
                    ph("locals", 2_000, 50_000, d::locals),
                    ph("cuts", 2_000, 100_000, d::cuts),
                    ph("bodies", 2_000, 100_000, d::bodies),
                    ph("prefixes", 1_000, 50_000, d::prefixes),
                    ph("utf8_scalars", 2176, 2176, d::utf8_scalars),
                    ph("utf8_long", 2_000, 50_000, d::utf8_long),
                    ph("section_mutations", 20_000, 1_000_000, d::section_mutations),
                ],
                enumerated(),
                vec![
                    ph("orders4", 0, 38_416, d::orders4),
                    ph("tiny_sections3", 0, 14 << 16, d::tiny_sections3),
                    ph("tiny_types3", 0, (d::TYPE_CTX as u64) << 16, d::tiny_types3),
                    ph("tiny_exprs3", 0, 10 << 16, d::tiny_exprs3),
                ],
            ])
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C03",
        focus: Focus {
            comps: &["imports", "exports", "func_types", "tables", "mems", "tags", "globals", "start", "elems", "datas", "data_count", "customs"],
            ..NONE
        },
        rule: RULE_DIFF,
        assumptions: &[A_REF, A_BRIDGE],
        level: "exploration",
        need: &[("well-formed inputs decoded", 50_000), ("sections compared", 100_000), ("section kinds", 14), ("longest list", 65_000)],
        phases: || {
            let more = vec![ph("twins", 50_000, 2_000_000, twin::twins), ph("walks", walk::walks_n(), 60 * walk::walks_n(), walk::walks), ph("scaled", 800, 20_000, d::scaled), ph("hot_sizes", d::hot_sizes_n(), d::hot_sizes_n(), d::hot_sizes), ph_t("hot_huge", 3, d::hot_huge_n(), d::hot_huge_n(), d::hot_huge)];
            let v: Vec<Phase> = {
            vec![
                ph("generated", 30_000, 3_000_000, d::generated),
                ph("generated_sections", 20_000, 1_000_000, d::generated_sections),
                ph("generated_types", 4_000, 200_000, d::generated_types),
                ph("generated_payloads", 4_000, 200_000, d::generated_payloads),
                ph("paddings", 4_000, 200_000, d::paddings),
                ph("edge_values", 6_000, 300_000, d::edge_values),
                ph("relayouts", 4_000, 200_000, d::relayouts),
                ph("sizes", d::sizes_n() + d::KINDS.len() as u64, d::sizes_n() + 4 * d::KINDS.len() as u64, d::sizes),
                ph("customs", 4_000, 200_000, d::customs),
                ph("data_shapes", 4_000, 200_000, d::data_shapes),
                ph("tiny_sections", 14 * 256, 14 * 256, d::tiny_sections),
                ph("leb_values", d::ints_n(), 20 * d::ints_n(), d::leb_values),
                ph("section_mutations", 30_000, 2_000_000, d::section_mutations),
                ph("tiny_sections3", 0, 14 << 16, d::tiny_sections3),
            ]
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C04",
        focus: Focus { wrong_accept: true, wrong_reject: true, comps: EXPR_COMPS, ..NONE },
        rule: RULE_DIFF,
        assumptions: &[A_REF, A_BRIDGE],
        level: "exploration",
        need: &[("instructions compared", 300_000), ("well-formed inputs decoded", 20_000), ("malformed inputs decoded", 20_000), ("deepest nesting", 1_000)],
        phases: || {
            let more = vec![ph("twins", 50_000, 2_000_000, twin::twins), ph("walks", walk::walks_n(), 60 * walk::walks_n(), walk::walks), ph("scaled", 800, 20_000, d::scaled), ph("hot_sizes", d::hot_sizes_n(), d::hot_sizes_n(), d::hot_sizes), ph_t("hot_huge", 3, d::hot_huge_n(), d::hot_huge_n(), d::hot_huge)];
            let v: Vec<Phase> = {
            vec![
                ph("opcodes", 30 * d::opcodes_n(), 3_000 * d::opcodes_n(), d::opcodes),
                ph("unassigned", 256 + 3 * 384, 256 + 3 * 65_536, d::unassigned),
                ph("aliases", 6 * crate::spec::OPS.len() as u64, 300 * crate::spec::OPS.len() as u64, d::aliases),
                ph("tiny_exprs", 10 * 256, 10 * 256, d::tiny_exprs),
                ph("generated_code", 25_000, 3_000_000, d::generated_code),
                ph("deep", 450, 20_000, d::deep),
                ph("generated", 5_000, 500_000, d::generated),
                ph("generated_payloads", 3_000, 100_000, d::generated_payloads),
                ph("sizes", d::sizes_n() * 3 / 4, d::sizes_n() + d::KINDS.len() as u64, d::sizes),
                ph("tiny_exprs3", 0, 10 << 16, d::tiny_exprs3),
            ]
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C05",
        focus: ALL,
        rule: "each case is one integer encoding (enumerated lengths, padding and final bytes, or chosen values in every legal length) placed at one integer position of a small module, decoded by wadec and the reference; distinct_nontrivial counts distinct modules",
        assumptions: &[A_REF, A_BRIDGE],
        level: "exploration",
        need: &[("well-formed inputs decoded", 100_000), ("malformed inputs decoded", 100_000)],
        phases: || {
            vec![
                ph("lebs", d::lebs_n(), d::lebs_n(), d::lebs),
                ph("walks", walk::walks_n(), 60 * walk::walks_n(), walk::walks),
                ph("leb_values", 6 * d::ints_n(), 300 * d::ints_n(), d::leb_values),
                ph("paddings", 10_000, 500_000, d::paddings),
                ph("edge_values", 10_000, 500_000, d::edge_values),
                ph("tiny_sections", 14 * 256, 14 * 256, d::tiny_sections),
                ph("tiny_exprs", 10 * 256, 10 * 256, d::tiny_exprs),
                ph("tiny_types", d::TYPE_CTX as u64 * 256, d::TYPE_CTX as u64 * 256, d::tiny_types),
                ph("tiny_sections3", 0, 14 << 16, d::tiny_sections3),
                ph("tiny_types3", 0, (d::TYPE_CTX as u64) << 16, d::tiny_types3),
                ph("tiny_exprs3", 0, 10 << 16, d::tiny_exprs3),
            ]
        },
    },
    Prop {
        id: "C06",
        focus: Focus { wrong_accept: false, wrong_reject: true, comps: &["bodies", "globals", "tables", "elems", "datas", "customs"], ..NONE },
        rule: RULE_DIFF,
        assumptions: &[A_REF, A_BRIDGE],
        level: "exploration",
        need: &[("well-formed inputs decoded", 20_000), ("largest input", 1_000_000)],
        phases: || {
            let more = vec![ph("twins", 50_000, 2_000_000, twin::twins), ph("scaled", 500, 10_000, d::scaled), ph("hot_sizes", d::hot_sizes_n(), d::hot_sizes_n(), d::hot_sizes), ph_t("hot_huge", 3, d::hot_huge_n(), d::hot_huge_n(), d::hot_huge), ph_t("huge_sizes", 3, 0, 36, d::huge_sizes)];
            let v: Vec<Phase> = {
            vec![
                ph("generated_payloads", 40_000, 2_000_000, d::generated_payloads),
                ph("sizes", d::sizes_n() + d::KINDS.len() as u64, d::sizes_n() + 4 * d::KINDS.len() as u64, d::sizes),
                ph("opcodes", 10 * d::opcodes_n(), 1_000 * d::opcodes_n(), d::opcodes),
                ph("generated_code", 5_000, 300_000, d::generated_code),
                ph("customs", 4_000, 200_000, d::customs),
                ph("generated", 6_000, 500_000, d::generated),
            ]
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C07",
        focus: Focus {
            wrong_accept: true,
            wrong_reject: true,
            comps: &["types", "imports", "tables", "mems", "tags", "globals", "elems", "locals", "bodies"],
            ..NONE
        },
        rule: RULE_DIFF,
        assumptions: &[A_REF, A_BRIDGE],
        level: "exploration",
        need: &[("well-formed inputs decoded", 30_000), ("malformed inputs decoded", 30_000)],
        phases: || {
            let more = vec![ph("twins", 50_000, 2_000_000, twin::twins), ph("walks", walk::walks_n(), 60 * walk::walks_n(), walk::walks), ph("scaled", 800, 20_000, d::scaled), ph("hot_sizes", d::hot_sizes_n(), d::hot_sizes_n(), d::hot_sizes), ph_t("hot_huge", 3, d::hot_huge_n(), d::hot_huge_n(), d::hot_huge)];
            let v: Vec<Phase> = {
            vec![
                ph("tiny_types", d::TYPE_CTX as u64 * 256, d::TYPE_CTX as u64 * 256, d::tiny_types),
                ph("generated_types", 40_000, 3_000_000, d::generated_types),
                ph("markers", 2 * d::markers_n(), 20 * d::markers_n(), d::markers),
                ph("lebs", d::lebs_n(), d::lebs_n(), d::lebs),
                ph("leb_values", 2 * d::ints_n(), 50 * d::ints_n(), d::leb_values),
                ph("opcodes", 3 * d::opcodes_n(), 300 * d::opcodes_n(), d::opcodes),
                ph("paddings", 3_000, 200_000, d::paddings),
                ph("sizes", d::sizes_n() * 3 / 4, d::sizes_n() + d::KINDS.len() as u64, d::sizes),
                ph("tiny_types3", 0, (d::TYPE_CTX as u64) << 16, d::tiny_types3),
                ph("tiny_sections3", 0, 14 << 16, d::tiny_sections3),
            ]
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C08",
        focus: Focus { wrong_accept: true, wrong_reject: true, comps: &["headers", "consistency"], ..NONE },
        rule: RULE_DIFF,
        assumptions: &[A_REF, A_BRIDGE],
        level: "exploration",
        need: &[("well-formed inputs decoded", 10_000), ("malformed inputs decoded", 20_000), ("section kinds", 14)],
        phases: || {
            let more = vec![ph("twins", 50_000, 2_000_000, twin::twins), ph("count_pairs", d::count_pairs_n(), d::count_pairs_n(), d::count_pairs), ph("surpluses", d::surpluses_n(), d::surpluses_n(), d::surpluses), ph("scaled", 1_500, 30_000, d::scaled), ph("hot_sizes", d::hot_sizes_n(), d::hot_sizes_n(), d::hot_sizes), ph_t("hot_huge", 3, d::hot_huge_n(), d::hot_huge_n(), d::hot_huge)];
            let v: Vec<Phase> = {
            vec![
                ph("orders3", 2744, 2744, d::orders3),
                ph("orders", 20_000, 1_000_000, d::orders),
                ph("cuts", 6_000, 300_000, d::cuts),
                ph("relayouts", 8_000, 400_000, d::relayouts),
                ph("ids_and_preambles", 256, 256, d::ids_and_preambles),
                ph("customs", 4_000, 200_000, d::customs),
                ph("generated_sections", 8_000, 400_000, d::generated_sections),
                ph("tiny_sections", 14 * 256, 14 * 256, d::tiny_sections),
                ph("section_mutations", 10_000, 500_000, d::section_mutations),
                ph("bodies", 2_000, 100_000, d::bodies),
                ph("sizes", d::sizes_n() * 3 / 4, d::sizes_n() + d::KINDS.len() as u64, d::sizes),
                ph("orders4", 0, 38_416, d::orders4),
                ph("tiny_sections3", 0, 14 << 16, d::tiny_sections3),
            ]
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C09",
        focus: Focus { wrong_accept: true, wrong_reject: true, comps: &["func_types", "locals", "bodies", "consistency"], ..NONE },
        rule: RULE_DIFF,
        assumptions: &[A_REF, A_BRIDGE],
        level: "exploration",
        need: &[("well-formed inputs decoded", 8_000), ("malformed inputs decoded", 8_000)],
        phases: || {
            let more = vec![ph("twins", 50_000, 2_000_000, twin::twins), ph("count_pairs", d::count_pairs_n(), d::count_pairs_n(), d::count_pairs), ph("surpluses", d::surpluses_n(), d::surpluses_n(), d::surpluses), ph("walks", walk::walks_n(), 60 * walk::walks_n(), walk::walks), ph("scaled", 1_500, 30_000, d::scaled), ph("hot_sizes", d::hot_sizes_n(), d::hot_sizes_n(), d::hot_sizes), ph_t("hot_huge", 3, d::hot_huge_n(), d::hot_huge_n(), d::hot_huge)];
            let v: Vec<Phase> = {
            vec![
                ph("locals", 10_000, 500_000, d::locals),
                ph("bodies", 20_000, 1_000_000, d::bodies),
                ph("generated_code", 15_000, 1_000_000, d::generated_code),
                ph("generated_sections", 6_000, 300_000, d::generated_sections),
                ph("data_shapes", 4_000, 100_000, d::data_shapes),
                ph("orders3", 2744, 2744, d::orders3),
                ph("cuts", 3_000, 100_000, d::cuts),
                ph("sizes", d::sizes_n() * 3 / 4, d::sizes_n() + d::KINDS.len() as u64, d::sizes),
                ph("late_faults", 2_000, 100_000, d::late_faults),
            ]
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C10",
        focus: Focus { wrong_accept: true, wrong_reject: true, comps: &["data_count", "datas"], ..NONE },
        rule: RULE_DIFF,
        assumptions: &[A_REF, A_BRIDGE],
        level: "exploration",
        need: &[("well-formed inputs decoded", 8_000), ("malformed inputs decoded", 8_000), ("data count vs data section", 5)],
        phases: || {
            let more = vec![ph("twins", 50_000, 2_000_000, twin::twins), ph("count_pairs", d::count_pairs_n(), d::count_pairs_n(), d::count_pairs), ph("surpluses", d::surpluses_n(), d::surpluses_n(), d::surpluses), ph("scaled", 500, 20_000, d::scaled), ph("customs", 3_000, 100_000, d::customs), ph("hot_sizes", d::hot_sizes_n(), d::hot_sizes_n(), d::hot_sizes), ph_t("hot_huge", 3, d::hot_huge_n(), d::hot_huge_n(), d::hot_huge)];
            let v: Vec<Phase> = {
            vec![
                ph("data_shapes", 60_000, 3_000_000, d::data_shapes),
                ph("generated", 5_000, 500_000, d::generated),
                ph("generated_code", 8_000, 500_000, d::generated_code),
                ph("opcodes", 2 * d::opcodes_n(), 100 * d::opcodes_n(), d::opcodes),
                ph("orders3", 2744, 2744, d::orders3),
                ph("relayouts", 2_000, 100_000, d::relayouts),
                ph("sizes", d::sizes_n() * 3 / 4, d::sizes_n() + d::KINDS.len() as u64, d::sizes),
            ]
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C11",
        focus: Focus { crash: true, render: true, ..NONE },
        rule: "each case is one byte string decoded under a panic monitor (overflow checks and debug assertions on), its result rendered in every form; deep nesting runs in a process of its own; distinct_nontrivial counts distinct byte strings",
        assumptions: &["a crash shows as a panic, a signal or a stack overflow of the process", "stack depth is that of the release profile on an 8 MB stack"],
        level: "exploration",
        need: &[("results rendered", 150_000), ("faults (section, item, cause)", 250), ("deep nestings survived", 5)],
        phases: || {
            let more = vec![ph("walks", walk::walks_n(), 60 * walk::walks_n(), walk::walks), ph("scaled", 1_000, 20_000, d::scaled), ph("hot_sizes", d::hot_sizes_n(), d::hot_sizes_n(), d::hot_sizes), ph_t("hot_huge", 3, d::hot_huge_n(), d::hot_huge_n(), d::hot_huge)];
            let v: Vec<Phase> = {
            cat(vec![
                vec![ph("nesting", res::nesting_n(), res::nesting_n(), res::nesting)],
                enumerated(),
                broad(5_000, 40_000),
                vec![
                    ph("random_bytes", 40_000, 5_000_000, d::random_bytes),
                    ph("bombs", 3_000, 100_000, res::bombs),
                    ph("prefixes", 1_500, 50_000, d::prefixes),
                    ph("cuts", 2_000, 100_000, d::cuts),
                    ph("bodies", 2_000, 100_000, d::bodies),
                    ph("orders3", 2744, 2744, d::orders3),
                    ph("data_shapes", 4_000, 100_000, d::data_shapes),
                    ph("locals", 2_000, 50_000, d::locals),
                    ph("late_faults", 2_000, 50_000, d::late_faults),
                    ph("deep", 225, 5_000, d::deep),
                    ph("utf8_enum", 4 * 256, 4 * 256, d::utf8_enum),
                    ph("utf8_long", 2_000, 50_000, d::utf8_long),
                    ph("sizes", d::sizes_n() * 3 / 4, d::sizes_n() + 2 * d::KINDS.len() as u64, d::sizes),
                    ph("failures", 500, 20_000, io::failures),
                    ph("tiny_sections3", 0, 14 << 16, d::tiny_sections3),
                    ph("tiny_types3", 0, (d::TYPE_CTX as u64) << 16, d::tiny_types3),
                    ph("tiny_exprs3", 0, 10 << 16, d::tiny_exprs3),
                ],
            ])
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C12",
        focus: Focus { memory: true, ..NONE },
        rule: "each case is one byte string decoded under a counting allocator: peak live bytes against the bytes the reader handed out, and live bytes after dropping the result; distinct_nontrivial counts distinct byte strings",
        assumptions: &["the bound per byte received is three times the largest ratio measured when the check was written", "the counting allocator sees every allocation of the decoding thread"],
        level: "exploration",
        need: &[("decodes measured", 50_000), ("announced lengths", 20)],
        phases: || {
            let more = vec![ph("scaled", 1_000, 20_000, d::scaled), ph("hot_sizes", d::hot_sizes_n(), d::hot_sizes_n(), d::hot_sizes), ph_t("hot_huge", 3, d::hot_huge_n(), d::hot_huge_n(), d::hot_huge)];
            let v: Vec<Phase> = {
            cat(vec![
                vec![
                    ph_t("locals_bomb", 1, 4, 8, res::locals_bomb),
                    ph("bombs", 20_000, 1_000_000, res::bombs),
                    ph("sizes", d::sizes_n() + d::KINDS.len() as u64, d::sizes_n() + 4 * d::KINDS.len() as u64, d::sizes),
                    ph("deep", 225, 5_000, d::deep),
                    ph("locals", 2_000, 50_000, d::locals),
                ],
                broad(6_000, 20_000),
                vec![
                    ph("leaks_on_failure", 2_000, 100_000, res::leaks_on_failure),
                    ph("late_faults", 3_000, 100_000, d::late_faults),
                    ph("lebs", d::lebs_n(), d::lebs_n(), d::lebs),
                    ph("random_bytes", 10_000, 1_000_000, d::random_bytes),
                ],
            ])
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C13",
        focus: NONE,
        rule: "each case is one module shape decoded at two sizes; machine instructions (counted by callgrind-style instrumentation), read calls and bytes allocated per input byte compared between the sizes; distinct_nontrivial counts distinct modules measured",
        assumptions: &["instructions counted by valgrind's cachegrind on the release build stand for machine operations", "super-linear growth shows between the two sizes measured"],
        level: "exploration",
        need: &[("shapes measured by instruction count", 30), ("shapes measured in process", 30)],
        phases: || {
            let more = vec![ph("work_random", 400, 8_000, res::work_random)];
            let v: Vec<Phase> = {
            vec![
                ph("work_in_process", res::shapes_n(), res::shapes_n(), res::work_in_process),
                ph("work_counted", res::shapes_n(), res::shapes_n(), res::work_counted),
            ]
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C14",
        focus: NONE,
        rule: "each case is one input under one way of delivering its bytes, whose full result (module, or error with its cause chain and debug form) is compared with that of delivery at once; distinct_nontrivial counts distinct inputs",
        assumptions: &[A_BRIDGE],
        level: "exploration",
        need: &[("deliveries compared", 50_000), ("verdicts", 2), ("deliveries", 9), ("interruptions delivered", 100_000)],
        phases: || {
            let more = vec![ph("deliveries_scaled", 600, 20_000, io::deliveries_scaled)];
            let v: Vec<Phase> = {
            vec![
                ph("deliveries", 12_000, 600_000, io::deliveries),
                ph("splits", 600, 30_000, io::splits),
                ph("os_readers", 300, 10_000, io::os_readers),
            ]
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C15",
        focus: Focus { wrong_accept: true, wrong_reject: false, comps: &[], ..NONE },
        rule: "each case is one input with one injected reader failure (kind and byte offset), or cut short at one offset; distinct_nontrivial counts distinct inputs",
        assumptions: &["a failure is exhibited when the very error (its kind and text) is found by following the cause links"],
        level: "exploration",
        need: &[("failures delivered", 100_000), ("failure kinds", 30), ("boundary offsets", 2_000), ("prefixes of one module", 100)],
        phases: || {
            let more = vec![ph("failures_scaled", 600, 20_000, io::failures_scaled), ph("scaled", 800, 20_000, d::scaled)];
            let v: Vec<Phase> = {
            vec![
                ph("failures_at_ends", 3_000, 100_000, io::failures_at_ends),
                ph("failures", 1_500, 60_000, io::failures),
                ph("truncations", 1_500, 60_000, io::truncations),
            ]
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C16",
        focus: Focus { consume: true, ..NONE },
        rule: "each case is one decode through a reader that logs how many bytes were taken and whether the end was seen; the log is compared with the end of the section or body at fault computed by the reference; distinct_nontrivial counts distinct inputs",
        assumptions: &[A_REF],
        level: "exploration",
        need: &[("successful decodes watched", 10_000), ("failed decodes watched", 50_000), ("failed decodes with bytes behind the fault's section", 20_000)],
        phases: || {
            let more = vec![ph("walks", walk::walks_n(), 60 * walk::walks_n(), walk::walks), ph("scaled", 1_500, 30_000, d::scaled), ph("hot_sizes", d::hot_sizes_n(), d::hot_sizes_n(), d::hot_sizes), ph_t("hot_huge", 3, d::hot_huge_n(), d::hot_huge_n(), d::hot_huge)];
            let v: Vec<Phase> = {
            cat(vec![
                vec![
                    ph("consumption", 10_000, 500_000, io::consumption),
                    ph("consumption_short", 1_500, 60_000, io::consumption_short),
                    ph("generated", 5_000, 300_000, d::generated),
                    ph("faults", 30_000, 2_000_000, d::faults),
                    ph("cuts", 4_000, 200_000, d::cuts),
                    ph("bodies", 4_000, 200_000, d::bodies),
                    ph("orders", 4_000, 200_000, d::orders),
                    ph("orders3", 2744, 2744, d::orders3),
                    ph("sizes", d::sizes_n() * 3 / 4, d::sizes_n() + d::KINDS.len() as u64, d::sizes),
                    ph("late_faults", 2_000, 100_000, d::late_faults),
                    ph("markers", d::markers_n(), 4 * d::markers_n(), d::markers),
                ],
            ])
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C17",
        focus: NONE,
        rule: "each case is one decode of a corpus input after a history of other decodes, nested inside a suspended decode, concurrent with others, or in a process with another environment, directory or clock; its full result is compared with that of a fresh process or thread; distinct_nontrivial counts distinct inputs",
        assumptions: &["interference shows as a differing result; the crate forbids unsafe code, so data races need interior mutability in safe types"],
        level: "exploration",
        need: &[("decodes in histories", 5_000), ("repeated decodes", 1_000), ("decodes inside suspended decodes", 300), ("concurrent decodes", 1_000), ("concurrent decodes that overlapped another", 500), ("decodes in other surroundings", 5_000), ("decodes in another order", 5_000)],
        phases: || {
            let more = vec![ph("long_histories", 64, 1_600, io::long_histories), ph("surroundings", 60, 2_000, probe::surroundings), ph("orders_of_decodes", 400, 10_000, probe::orders_of_decodes), ph_t("tsan", 2, 60, 1_200, probe::tsan)];
            let v: Vec<Phase> = {
            vec![
                ph("histories", 1_500, 60_000, io::histories),
                ph("repeats", 100, 4_000, io::repeats),
                ph("nested", 600, 20_000, io::nested),
                ph_t("concurrent", 1, 60, 1_000, io::concurrent),
            ]
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C18",
        focus: Focus { wrong_accept: true, wrong_reject: true, comps: ALL_COMPS, ..NONE },
        rule: "each case is one module decoded with and without custom sections at chosen places; results compared apart from custom sections and headers; distinct_nontrivial counts distinct inputs",
        assumptions: &[A_REF, A_BRIDGE],
        level: "exploration",
        need: &[("custom section variants compared", 10_000)],
        phases: || {
            let more = vec![ph("scaled", 500, 10_000, d::scaled), ph("hot_sizes", d::hot_sizes_n(), d::hot_sizes_n(), d::hot_sizes), ph_t("hot_huge", 3, d::hot_huge_n(), d::hot_huge_n(), d::hot_huge)];
            let v: Vec<Phase> = vec![ph("customs", 30_000, 2_000_000, d::customs), ph("relayouts", 5_000, 200_000, d::relayouts)];
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C19",
        focus: Focus { loc: true, ..NONE },
        rule: "each case is one malformed input; the section and list positions named by the error are compared with those of the first fault the reference meets; distinct_nontrivial counts distinct byte strings",
        assumptions: &[A_REF, "a list position is what follows the word `position` in a message of the chain"],
        level: "exploration",
        need: &[("located failures judged", 60_000), ("located failures inside lists", 40_000), ("faults located (section, item, cause)", 200)],
        phases: || {
            let more = vec![ph("walks", walk::walks_n(), 60 * walk::walks_n(), walk::walks), ph("scaled", 1_500, 30_000, d::scaled)];
            let v: Vec<Phase> = {
            cat(vec![
                broad(1_000, 60_000),
                vec![
                    ph("late_faults", 8_000, 400_000, d::late_faults),
                    ph("markers", d::markers_n(), 8 * d::markers_n(), d::markers),
                    ph("lebs", d::lebs_n(), d::lebs_n(), d::lebs),
                    ph("tiny_sections", 14 * 256, 14 * 256, d::tiny_sections),
                    ph("tiny_exprs", 10 * 256, 10 * 256, d::tiny_exprs),
                    ph("tiny_types", d::TYPE_CTX as u64 * 256, d::TYPE_CTX as u64 * 256, d::tiny_types),
                    ph("prefixes", 1_000, 50_000, d::prefixes),
                    ph("cuts", 2_000, 100_000, d::cuts),
                    ph("bodies", 3_000, 100_000, d::bodies),
                    ph("deep", 50, 2_000, d::deep),
                    ph("utf8_enum", 4 * 256, 4 * 256, d::utf8_enum),
                ],
            ])
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C20",
        focus: Focus { root: true, ..NONE },
        rule: "each case is one malformed or truncated input (or one with a failing reader); the end of the error's cause chain is compared with the root cause the reference found; distinct_nontrivial counts distinct byte strings",
        assumptions: &[A_REF, "a value is stated when it appears in decimal or hexadecimal in the last message of the chain"],
        level: "exploration",
        need: &[("root causes judged", 60_000), ("root causes (section, item, cause)", 200)],
        phases: || {
            let more = vec![ph("walks", walk::walks_n(), 60 * walk::walks_n(), walk::walks), ph("scaled", 1_000, 20_000, d::scaled), ph("failures_scaled", 100, 2_000, io::failures_scaled)];
            let v: Vec<Phase> = {
            cat(vec![
                broad(1_000, 50_000),
                vec![
                    ph("markers", d::markers_n(), 8 * d::markers_n(), d::markers),
                    ph("lebs", d::lebs_n(), d::lebs_n(), d::lebs),
                    ph("unassigned", 256 + 3 * 128, 256 + 3 * 65_536, d::unassigned),
                    ph("ids_and_preambles", 256, 256, d::ids_and_preambles),
                    ph("tiny_sections", 14 * 256, 14 * 256, d::tiny_sections),
                    ph("tiny_exprs", 10 * 256, 10 * 256, d::tiny_exprs),
                    ph("tiny_types", d::TYPE_CTX as u64 * 256, d::TYPE_CTX as u64 * 256, d::tiny_types),
                    ph("prefixes", 1_000, 50_000, d::prefixes),
                    ph("utf8_enum", 4 * 256, 4 * 256, d::utf8_enum),
                    ph("failures", 500, 20_000, io::failures),
                    ph("late_faults", 2_000, 100_000, d::late_faults),
                ],
            ])
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C21",
        focus: Focus { numbers: true, ..NONE },
        rule: "each case is one input with a size, count or order mismatch; the numbers and kinds the error carries (fields and message) are compared with those counted by the reference; distinct_nontrivial counts distinct byte strings",
        assumptions: &[A_REF],
        level: "exploration",
        need: &[
            ("mismatch errors judged", 20_000),
            ("mismatches (kind)", 8),
            ("size mismatch of section", 14),
            ("out of order (section after section)", 70),
            ("duplicates of section", 13),
        ],
        phases: || {
            let more = vec![ph("count_pairs", d::count_pairs_n(), d::count_pairs_n(), d::count_pairs), ph("surpluses", d::surpluses_n(), d::surpluses_n(), d::surpluses), ph("scaled", 2_000, 40_000, d::scaled)];
            let v: Vec<Phase> = {
            vec![
                ph("cuts", 8_000, 400_000, d::cuts),
                ph("bodies", 15_000, 800_000, d::bodies),
                ph("orders3", 2744, 2744, d::orders3),
                ph("orders", 10_000, 500_000, d::orders),
                ph("data_shapes", 20_000, 800_000, d::data_shapes),
                ph("locals", 6_000, 300_000, d::locals),
                ph("faults", 30_000, 2_000_000, d::faults),
                ph("section_mutations", 20_000, 1_000_000, d::section_mutations),
                ph("mutations", 20_000, 1_000_000, d::mutations),
                ph("late_faults", 3_000, 100_000, d::late_faults),
            ]
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C22",
        focus: NONE,
        rule: "each case is one run of the command-line tool (input, way of passing it, flags, state of its output) whose exit status and outputs are compared with the library's verdict on the same bytes; distinct_nontrivial counts distinct (input, way) pairs",
        assumptions: &["the library linked into the harness is the one the tool was built with (both from /repo's working tree)"],
        level: "exploration",
        need: &[("tool runs", 4_000), ("ways of passing input", 15), ("verdicts", 2), ("input failures", 15), ("flags", 3)],
        phases: || {
            vec![
                ph("cli_runs", 4_000, 60_000, cli::runs),
                ph("cli_bad_inputs", cli::bad_n(), 10 * cli::bad_n(), cli::bad_inputs),
                ph("cli_outputs", 700, 14_000, cli::outputs),
                ph("cli_lengths", cli::lens_n(), 10 * cli::lens_n(), cli::run_lengths),
                ph("cli_scaled", 150, 3_000, cli::run_scaled),
            ]
        },
    },
    Prop {
        id: "C23",
        focus: NONE,
        rule: "each case is one run of the command-line tool whose report is compared with the library's error (message, numbered causes, debug form) or module (debug form) for the same bytes; distinct_nontrivial counts distinct inputs",
        assumptions: &["the library linked into the harness is the one the tool was built with (both from /repo's working tree)"],
        level: "exploration",
        need: &[("reports compared", 4_000), ("modules printed", 500), ("longest cause chain", 6)],
        phases: || {
            vec![
                ph("cli_reports", 6_000, 100_000, cli::reports),
                ph("cli_big", 66, 660, cli::big),
                ph("cli_report_lengths", cli::lens_n(), 10 * cli::lens_n(), cli::report_lengths),
                ph("cli_report_scaled", 150, 3_000, cli::report_scaled),
            ]
        },
    },
    Prop {
        id: "C24",
        focus: Focus { wrong_accept: true, wrong_reject: true, comps: &["imports", "exports", "customs"], ..NONE },
        rule: "each case is one byte string placed as a name in one of the four name positions, decoded by wadec and judged by the reference's own UTF-8 decoder; distinct_nontrivial counts distinct modules",
        assumptions: &["the harness's UTF-8 decoder follows the Unicode standard's table of well-formed sequences"],
        level: "exploration",
        need: &[("well-formed inputs decoded", 10_000), ("malformed inputs decoded", 50_000)],
        phases: || {
            let more = vec![ph("twins", 50_000, 2_000_000, twin::twins), ph("hot_sizes", d::hot_sizes_n(), d::hot_sizes_n(), d::hot_sizes), ph_t("hot_huge", 3, d::hot_huge_n(), d::hot_huge_n(), d::hot_huge), ph("scaled", 500, 10_000, d::scaled)];
            let v: Vec<Phase> = {
            vec![
                ph("utf8_enum", 4 * 256, 4 * 256, d::utf8_enum),
                ph("utf8_scalars", 2176, 2176, d::utf8_scalars),
                ph("utf8_long", 20_000, 1_000_000, d::utf8_long),
                ph("utf8_enum3", 256, 4 << 16, d::utf8_enum3),
                ph("customs", 2_000, 100_000, d::customs),
                ph("sizes", d::sizes_n() * 3 / 4, d::sizes_n() + d::KINDS.len() as u64, d::sizes),
            ]
        };
            cat(vec![v, more])
        },
    },
    Prop {
        id: "C25",
        focus: Focus { names: true, ..NONE },
        rule: "each case is one malformed or truncated input; the messages of the error's chain must speak of the item at fault (kind of index, name, limit, list, expression, family of instruction) and of no item beside it; distinct_nontrivial counts distinct byte strings",
        assumptions: &[A_REF, "what a message speaks of is decided by the words in it"],
        level: "exploration",
        need: &[("errors whose names were judged", 60_000), ("items named (section, item, cause)", 250), ("families of instructions named", 9)],
        phases: || {
            cat(vec![
                broad(1_000, 50_000),
                vec![ph("walks", walk::walks_n(), 60 * walk::walks_n(), walk::walks)],
                vec![
                    ph("markers", d::markers_n(), 8 * d::markers_n(), d::markers),
                    ph("lebs", d::lebs_n(), d::lebs_n(), d::lebs),
                    ph("unassigned", 256 + 3 * 128, 256 + 3 * 65_536, d::unassigned),
                    ph("ids_and_preambles", 256, 256, d::ids_and_preambles),
                    ph("tiny_sections", 14 * 256, 14 * 256, d::tiny_sections),
                    ph("tiny_exprs", 10 * 256, 10 * 256, d::tiny_exprs),
                    ph("tiny_types", d::TYPE_CTX as u64 * 256, d::TYPE_CTX as u64 * 256, d::tiny_types),
                    ph("prefixes", 1_000, 50_000, d::prefixes),
                    ph("utf8_enum", 4 * 256, 4 * 256, d::utf8_enum),
                    ph("late_faults", 2_000, 100_000, d::late_faults),
                ],
            ])
        },
    },
    Prop {
        id: "C26",
        focus: Focus { lists: true, ..NONE },
        rule: "each case is one input with a byte or value that is not allowed; the values the message says were expected are compared with those the grammar allows at that place, and their names with their meanings; distinct_nontrivial counts distinct byte strings",
        assumptions: &[A_REF, "the values expected are the numbers between the words `expected` and `got`"],
        level: "exploration",
        need: &[("lists of expected values judged", 10_000), ("lists judged (section, item)", 25), ("meanings of listed values judged", 10_000)],
        phases: || {
            cat(vec![
                broad(1_000, 50_000),
                vec![ph("walks", walk::walks_n(), 60 * walk::walks_n(), walk::walks)],
                vec![
                    ph("markers", d::markers_n(), 8 * d::markers_n(), d::markers),
                    ph("lebs", d::lebs_n(), d::lebs_n(), d::lebs),
                    ph("unassigned", 256 + 3 * 128, 256 + 3 * 65_536, d::unassigned),
                    ph("ids_and_preambles", 256, 256, d::ids_and_preambles),
                    ph("tiny_sections", 14 * 256, 14 * 256, d::tiny_sections),
                    ph("tiny_exprs", 10 * 256, 10 * 256, d::tiny_exprs),
                    ph("tiny_types", d::TYPE_CTX as u64 * 256, d::TYPE_CTX as u64 * 256, d::tiny_types),
                    ph("prefixes", 1_000, 50_000, d::prefixes),
                    ph("utf8_enum", 4 * 256, 4 * 256, d::utf8_enum),
                    ph("late_faults", 2_000, 100_000, d::late_faults),
                ],
            ])
        },
    },
    Prop {
        id: "C27",
        focus: NONE,
        rule: "each case is one decode, by a program instrumented with AddressSanitizer or MemorySanitizer or interpreted by Miri, of an input handed out in some manner (also by readers that look at their buffer, claim too much, panic or fail); distinct_nontrivial counts distinct inputs",
        assumptions: &["what the sanitizers and Miri do not report on the executions seen is taken as defined behaviour"],
        level: "exploration",
        need: &[("decodes watched", 20_000), ("reading manners", 7), ("verdicts", 3)],
        phases: || {
            vec![
                ph("miri", 24, 1_600, probe::miri),
                ph("asan", 200, 6_000, probe::asan),
                ph("msan", 200, 6_000, probe::msan),
            ]
        },
    },
    Prop {
        id: "C28",
        focus: NONE,
        rule: "each case is one input decoded by the same small program built for another platform or profile (release, development, 32-bit x86; big-endian 64- and 32-bit under Miri); a digest of its whole result is compared with that of the monitor's own process; distinct_nontrivial counts distinct inputs",
        assumptions: &[A_BRIDGE],
        level: "exploration",
        need: &[("release: decodes", 10_000), ("verdicts", 2)],
        phases: || {
            vec![
                ph("big_endian", 16, 800, probe::big_endian),
                ph("release", 600, 12_000, probe::release),
                ph("x86", 600, 12_000, probe::x86),
                ph("dev", 300, 6_000, probe::dev),
            ]
        },
    },
    Prop {
        id: "C29",
        focus: NONE,
        rule: "each case is one pair of decoded modules: two decodes of the same bytes, which must be equal and look the same, or two that differ in at least one part, which must be unequal and look different, in that part and as a whole; distinct_nontrivial counts distinct inputs",
        assumptions: &[A_BRIDGE],
        level: "exploration",
        need: &[("different modules compared", 20_000), ("equal modules compared", 2_000), ("instructions", 400), ("pairs compared", 1_000_000), ("things moved", 9), ("kinds of long lists", 40)],
        phases: || {
            vec![
                ph("neighbours", 350, 20_000, eq::neighbours),
                ph("instructions", 100, 2_000, eq::instructions),
                ph("shifts", 8_000, 400_000, eq::shifts),
                ph("long", 5 * d::KINDS.len() as u64, 60 * d::KINDS.len() as u64, eq::long),
                ph("section_sizes", 720, 7_200, eq::section_sizes),
                ph("groups", 400, 10_000, eq::groups),
            ]
        },
    },
];
