//! Evidence.
use crate::scn::gen;
use crate::search::{out_dir, Batch, Tot};
use crate::world::{ctr, NS, SITES};

pub fn title(p: &str) -> Option<&'static str> {
    const T: [&str; 31] = [
        "Populations stay non-empty, sorted and duplicate-free",
        "Each generation is exactly the elites plus the configured number of breedings",
        "Each individual in a population was evaluated exactly once after its last change",
        "Invalid individuals never enter a population",
        "Elites survive unchanged",
        "The result is the best individual found during the run",
        "Offspring replace their fittest parent only by the survival rule",
        "Generations, stagnation and callbacks follow the documented order",
        "Population statistics describe exactly the current population",
        "A panic in a callback reaches the caller and leaves the object usable",
        "Runs of one object are independent of its past",
        "Every run completes",
        "Generators are the model's and never shared",
        "Equal generators give equal runs on one worker",
        "Adaptive rates follow diversity within their ranges",
        "Operators are applied with the configured probabilities",
        "Selection: prepared once, always a member, documented pressure",
        "Permutation crossovers always yield a permutation",
        "Crossover offspring inherit from their parents as documented",
        "Mutations change a genome only in their documented way",
        "The initial population has exactly the requested make-up",
        "Invalid parameters are refused before any evolution work",
        "",
        "",
        "Common neighbours and partitions are exactly those shared by both genomes",
        "",
        "The bundled OneMax model behaves as documented",
        "A run holds on to nothing",
        "Creation, evaluation and breeding use all workers",
        "User-written algorithms are driven by the documented protocol",
        "Random pairs and ranges are in bounds, possible and fair",
    ];
    let n: usize = p.strip_prefix('C')?.parse().ok()?;
    T.get(n.checked_sub(1)?).copied().filter(|t| !t.is_empty())
}

pub fn text_hash(s: &str) -> u64 {
    let mut h = 7;
    for c in s.as_bytes().chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = simcore::hash2(h, u64::from_le_bytes(b));
    }
    h
}

pub fn counter_name(i: usize) -> String {
    let n = match i {
        _ if i < NS => return format!("calls_{}", SITES[i]),
        _ if i >= ctr::FAULT && i < ctr::FAULT + NS => return format!("panic_in_{}", SITES[i - ctr::FAULT]),
        41 => "invalid_nan",
        42 => "invalid_plus_infinity",
        43 => "invalid_minus_infinity",
        44 => "invalid_by_own_rule",
        ctr::GENS => "generations",
        ctr::RUNS => "evolution_runs",
        ctr::REFUSED => "refusals",
        ctr::ALL_INVALID => "all_invalid_starts",
        ctr::PANICKED => "runs_ended_by_injected_panic",
        ctr::STOPPED => "runs_stopped_by_progress",
        ctr::BREEDINGS => "breedings",
        ctr::ACCEPTED => "offspring_accepted",
        ctr::FALLBACK => "offspring_rejected",
        ctr::ELITES => "elites_checked",
        ctr::EXTREME => "extreme_random_draws",
        ctr::NESTED => "nested_parallel_callbacks",
        ctr::OPCHECKS => "operator_results_checked",
        ctr::SELCHECKS => "selections_checked",
        ctr::SAMPLES => "frequency_samples",
        ctr::UPDATES => "population_updates",
        ctr::CREATED => "random_individuals",
        ctr::PAIRS => "differential_pairs",
        ctr::RATECHECKS => "rate_checks",
        ctr::STATCHECKS => "statistics_checks",
        ctr::REENTRY => "callbacks_reentered_by_stealing",
        ctr::OVERLAP => "overlapping_breedings",
        ctr::SINGLE_SLOT => "generations_with_one_free_slot",
        ctr::DEDUPED => "duplicates_dropped",
        ctr::BEST_LOST => "best_individual_lost",
        ctr::ZERO_SPREAD => "zero_spread_populations",
        ctr::ADAPTED => "rate_adaptations",
        ctr::JUMPS => "clock_jumps",
        ctr::ITEMS => "lab_items",
        ctr::LIVECHECKS => "releases_checked",
        ctr::MEETINGS => "meetings_of_callbacks",
        ctr::BITSTRINGS => "onemax_generations_checked",
        ctr::PROTOCOL => "calls_of_user_algorithms_checked",
        _ => return format!("counter_{i}"),
    };
    n.into()
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

fn obj(v: &[(String, String)]) -> String {
    format!("{{{}}}", v.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", "))
}

pub fn evidence(focus: &str, tier: &str, seed: u64, b: &Batch, violations: usize, shipped_runs: u64) {
    let sum = |f: &dyn Fn(&Tot) -> u64| b.tots.iter().map(f).sum::<u64>();
    let runs = sum(&|t| t.runs);
    let per_hour = |x: u64| (x as f64 / b.wall * 3600.0) as u64;
    let mut faults: Vec<(String, String)> = vec![];
    let mut probes: Vec<(String, String)> = vec![];
    for i in 0..simcore::N_COUNTERS {
        let n = sum(&|t| t.counters[i]);
        let name = counter_name(i);
        if name.starts_with("panic_in_") || name.starts_with("invalid_") || name == "extreme_random_draws" || name == "clock_jumps" || name == "nested_parallel_callbacks" {
            if n > 0 {
                faults.push((name, n.to_string()));
            }
        } else if n > 0 {
            probes.push((name, n.to_string()));
        }
    }
    for (n, v) in [
        ("preemptions", sum(&|t| t.preempts)),
        ("task_stalls", sum(&|t| t.stalls)),
        ("spurious_wakeups", sum(&|t| t.spurious)),
        ("seeded_entropy_reads", sum(&|t| t.entropy)),
    ] {
        faults.push((n.into(), v.to_string()));
    }
    let list = |names: &[&str], f: &dyn Fn(&Tot, usize) -> u64| {
        obj(&names
            .iter()
            .enumerate()
            .map(|(i, n)| (n.to_string(), b.tots.iter().map(|t| f(t, i)).sum::<u64>().to_string()))
            .filter(|x| x.1 != "0")
            .collect::<Vec<_>>())
    };
    let mut samples: Vec<[u64; 6]> = b.tots.iter().flat_map(|t| t.sample[..t.sample_n as usize].iter().copied()).collect();
    samples.sort();
    let samples: Vec<String> = samples
        .iter()
        .take(6)
        .map(|s| {
            obj(&[
                ("run".into(), s[0].to_string()),
                ("scenario".into(), esc(&gen(focus, seed, s[0]).to_text())),
                ("tasks".into(), s[1].to_string()),
                ("steps".into(), s[2].to_string()),
                ("switches".into(), s[3].to_string()),
                ("schedule_hash".into(), esc(&format!("{:016x}", s[4]))),
            ])
        })
        .collect();
    let cov = obj(&[
        ("evaluations".into(), runs.to_string()),
        ("distinct_nontrivial".into(), sum(&|t| t.distinct).to_string()),
        (
            "rule".into(),
            esc("one case = one simulated run (scenario, schedule and faults drawn from VERIF_SEED and the run number); non-trivial: at least two task switches and library work done; distinct: different scenario, sequence of scheduled tasks, or order of callbacks"),
        ),
        ("samples".into(), format!("[{}]", samples.join(", "))),
        ("simulated_runs_per_hour".into(), per_hour(runs).to_string()),
        ("seeds_per_hour".into(), per_hour(runs).to_string()),
        ("shard_processes".into(), b.shards.to_string()),
        (
            "build".into(),
            esc(if crate::search::SHIPPED { "crate as shipped (no debug assertions)" } else { "crate with debug assertions and overflow checks" }),
        ),
        ("further_runs_with_the_crate_as_shipped".into(), shipped_runs.to_string()),
        ("runs_requested".into(), b.total.to_string()),
        ("simulated_seconds".into(), format!("{:.3}", sum(&|t| t.sim_ns) as f64 / 1e9)),
        ("scheduler_steps".into(), sum(&|t| t.steps).to_string()),
        ("library_basic_block_edges_executed".into(), sum(&|t| t.edges).to_string()),
        ("distinct_basic_block_edges_reached".into(), b.cov.to_string()),
        ("simulated_tasks".into(), sum(&|t| t.tasks).to_string()),
        ("context_switches".into(), sum(&|t| t.switches).to_string()),
        ("blocking_waits".into(), sum(&|t| t.blocks).to_string()),
        ("wakeups".into(), sum(&|t| t.wakes).to_string()),
        ("yields".into(), sum(&|t| t.yields).to_string()),
        ("runs_with_planned_faults".into(), sum(&|t| t.with_fault).to_string()),
        ("faults_and_perturbations_that_struck".into(), obj(&faults)),
        ("probes".into(), obj(&probes)),
        (
            "scenario_kinds".into(),
            list(
                &["run histories", "population updates", "selection", "extension", "reproducibility", "isolation", "concurrent runs", "frequencies", "operators"],
                &|t, i| t.kinds[i],
            ),
        ),
        ("algorithms".into(), list(&["standard", "adaptive", "trait defaults"], &|t, i| t.algs[i])),
        ("models".into(), list(&["minimal", "hook and improve", "own survival and validity", "own breed"], &|t, i| t.models[i])),
        (
            "schedulers".into(),
            list(&["run to block", "random preemption", "priorities with change points", "fixed gap round robin", "random preemption with starvation"], &|t, i| t.modes[i]),
        ),
        ("calling_contexts".into(), list(&["inside a pool", "global pool from outside", "pool with background work", "global pool from a user thread"], &|t, i| t.ctxs[i])),
        ("worker_counts".into(), {
            let names: Vec<String> = (0..17).map(|i| i.to_string()).collect();
            let r: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            list(&r, &|t, i| t.workers[i])
        }),
        ("determinism_reruns".into(), sum(&|t| t.checked).to_string()),
        ("determinism_mismatches".into(), sum(&|t| t.mismatched).to_string()),
        ("runs_violating_other_properties".into(), sum(&|t| t.other).to_string()),
        ("real_components".into(), esc("rusty_genes, rayon, rayon-core, crossbeam, parking_lot, object-pool, rand, std (unmodified)")),
        (
            "stub_components".into(),
            esc("futex, sched_yield, getrandom, clocks, sleeping, thread creation and joining (simulated at the libc boundary); user callbacks, individuals and generators (written for the simulation)"),
        ),
    ]);
    let text = obj(&[
        ("property".into(), esc(focus)),
        ("tier".into(), esc(tier)),
        ("seed".into(), seed.to_string()),
        ("level".into(), esc("exploration")),
        ("coverage".into(), cov),
        (
            "assumptions".into(),
            "[\"interleavings are explored at basic-block edges of rusty_genes, user callbacks and OS calls, with sequentially consistent memory\", \"seeded sampling, not enumeration\"]".into(),
        ),
        ("wall_s".into(), format!("{:.2}", b.wall)),
        ("violations".into(), violations.to_string()),
    ]);
    let dir = out_dir().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    if let Err(e) = std::fs::write(dir.join(format!("{focus}.json")), text + "\n") {
        eprintln!("writing evidence: {e}");
        std::process::exit(2);
    }
}
