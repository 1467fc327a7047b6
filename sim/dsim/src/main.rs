//! Deterministic simulation of rusty_genes: `dsim check C01 quick`, `dsim replay FILE`, `dsim one C01 INDEX`.
#![allow(static_mut_refs)]
mod evo;
mod extra;
mod labs;
mod model;
mod ops;
mod report;
mod scn;
mod search;
mod world;

use model::*;
use rusty_genes::*;
use scn::Scn;
use simcore::no_preempt;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum What {
    History,
    Lane,
    Reproduce,
    Isolated,
    Frequencies,
}

fn with<const L: usize, M, A>(scn: &Scn, what: What)
where
    M: SimModel<L>,
    M::Individual: SimInd,
    A: SimAlg<M>,
{
    match what {
        What::History => evo::history::<L, M, A>(scn),
        What::Lane => evo::lane_run::<L, M, A>(scn),
        What::Reproduce => evo::reproduce::<L, M, A>(scn),
        What::Isolated => evo::isolated::<L, M, A>(scn),
        What::Frequencies => evo::frequencies::<L, M, A>(scn),
    }
}

fn with_model<const L: usize, M>(scn: &Scn, what: What)
where
    M: SimModel<L>,
    M::Individual: SimInd,
{
    match scn.alg(L) {
        0 => with::<L, M, GeneticAlgorithm<M>>(scn, what),
        1 => with::<L, M, AdaptiveGeneticAlgorithm<M>>(scn, what),
        _ => with::<L, M, TraitAlg<M>>(scn, what),
    }
}

fn dispatch<const L: usize>(scn: &Scn, what: What) {
    match scn.h.model {
        0 => with_model::<L, ModelA<L>>(scn, what),
        1 => with_model::<L, ModelB<L>>(scn, what),
        2 => with_model::<L, ModelC<L>>(scn, what),
        _ => with_model::<L, ModelD<L>>(scn, what),
    }
}

fn body(scn: &Scn) {
    match scn.h.kind {
        0 => dispatch::<0>(scn, What::History),
        1 => labs::populations(scn),
        2 => labs::selection(scn),
        3 => match scn.h.model {
            0 => labs::extension::<ModelA<0>>(scn),
            1 => labs::extension::<ModelB<0>>(scn),
            _ => labs::extension::<ModelC<0>>(scn),
        },
        7 => dispatch::<0>(scn, What::Frequencies),
        8 if world::focus() == 25 => extra::partitions(scn),
        8 => labs::operators(scn),
        9 => extra::one_max(scn),
        10 => extra::protocol(scn),
        _ => {}
    }
}

fn global(n: usize) {
    rayon::ThreadPoolBuilder::new().num_threads(n).build_global().unwrap();
}

fn place(scn: &Scn) {
    let n = scn.h.workers.clamp(1, 16) as usize;
    let pool = || rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
    match scn.h.kind {
        4 => dispatch::<0>(scn, What::Reproduce),
        5 => dispatch::<0>(scn, What::Isolated),
        6 => {
            if scn.h.ctx == 2 {
                // two user threads bring their runs into the same pool
                let p = pool();
                std::thread::scope(|s| {
                    s.spawn(|| p.install(|| dispatch::<0>(scn, What::Lane)));
                    s.spawn(|| p.install(|| dispatch::<1>(scn, What::Lane)));
                });
            } else if scn.h.ctx == 0 {
                pool().install(|| rayon::join(|| dispatch::<0>(scn, What::Lane), || dispatch::<1>(scn, What::Lane)));
            } else {
                global(n);
                std::thread::scope(|s| {
                    s.spawn(|| dispatch::<0>(scn, What::Lane));
                    s.spawn(|| dispatch::<1>(scn, What::Lane));
                });
            }
        }
        _ => match scn.h.ctx {
            1 => {
                global(n);
                body(scn)
            }
            2 => {
                let p = pool();
                let k = 50 + scn.h.seed % 1500;
                for _ in 0..1 + scn.h.seed % 3 {
                    p.spawn(move || {
                        for _ in 0..k {
                            simcore::yield_point(true);
                        }
                    });
                }
                p.install(|| body(scn))
            }
            3 => {
                global(n);
                std::thread::scope(|s| {
                    s.spawn(|| body(scn));
                })
            }
            _ => pool().install(|| body(scn)),
        },
    }
}

/// Runs the scenario in this (fresh) process; never returns.
pub fn simulate(scn: &Scn, focus: &str) -> ! {
    world::set_focus(focus);
    evo::install_hook();
    for lane in 0..2 {
        world::new_world(lane, scn.alg(lane), scn.h.model, scn.h.workers.clamp(1, 16) as usize, scn.h.kind == 6);
        world::world(lane).faults = scn.faults.clone();
    }
    simcore::begin(scn.sched());
    let r = catch_unwind(AssertUnwindSafe(|| place(scn)));
    let _q = no_preempt();
    if r.is_err() {
        simcore::shared().add_message(&format!("panic outside of any run: {}\n", evo::last_panic()));
        simcore::finish(5);
    }
    simcore::finish(1)
}

fn no_aslr() {
    unsafe {
        if std::env::var_os("DSIM_CHILD").is_some() {
            return;
        }
        let p = libc::personality(0xffff_ffff);
        if p < 0 || p & libc::ADDR_NO_RANDOMIZE != 0 {
            return;
        }
        if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as _) < 0 {
            return;
        }
        std::env::set_var("DSIM_CHILD", "1");
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
        eprintln!("re-exec failed: {e}");
    }
}

fn main() {
    no_aslr();
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match arg(1) {
        "check" => search::check(arg(2), arg(3), seed),
        "replay" => search::replay(arg(2)),
        "one" => search::one(arg(2), seed, arg(3).parse().unwrap_or(0)),
        "determinism" => search::determinism(seed, arg(2).parse().unwrap_or(200)),
        _ => {
            eprintln!("usage: dsim check PROPERTY quick|thorough | replay FILE | one PROPERTY INDEX | determinism N");
            2
        }
    };
    std::process::exit(code);
}
