//! Drives evolutions: histories of runs on one object, with everything observed.
use crate::model::*;
use crate::scn::{real, RunSpec, Scn};
use crate::world::{self, GenFreq, count, ctr, enter, ghash, key, viol, viol_any, world, Injected, Origin, Seen, Site};
use rusty_genes::*;
use simcore::{hash2, no_preempt, Prng};
use std::panic::{catch_unwind, AssertUnwindSafe};

static mut LAST_PANIC: String = String::new();

#[allow(static_mut_refs)]
pub fn last_panic() -> String {
    unsafe { LAST_PANIC.clone() }
}

#[allow(static_mut_refs)]
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _q = no_preempt();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe { LAST_PANIC = format!("{m} at {l}") };
    }));
}

pub fn seen<I: SimInd>(pop: &Population<I>) -> Vec<Seen> {
    pop.iter()
        .map(|i| {
            let c = i.core();
            Seen { iid: c.iid, g: c.g.clone(), fit: c.fit, bad: c.bad }
        })
        .collect()
}

pub enum Done<I: Individual> {
    One(I),
    Pop(Population<I>),
}

/// What a run came to, as far as another run can be compared with it.
#[derive(Debug, PartialEq, Clone)]
pub struct Summary {
    pub hist: Vec<u64>,
    pub result: u64,
    pub ended: &'static str,
}

/// One run of an evolution object, with everything checked.
pub fn drive<const L: usize, M, A>(evo: &Evolution<A, M>, scn: &Scn, run: usize) -> Summary
where
    M: SimModel<L>,
    M::Individual: SimInd,
    A: SimAlg<M>,
{
    let spec: RunSpec = scn.runs[run].clone();
    let args = Args { magic: hash2(spec.rseed as u64, run as u64), spec: spec.clone() };
    let params = A::params(&spec);
    let alg = world(L).alg;
    let valid_params = crate::scn::valid(alg, &spec);
    let (given, single): (Vec<M::Individual>, Option<M::Individual>);
    {
        let _q = no_preempt();
        let w = world(L);
        w.start(run as i64, &spec);
        let mut p = Prng::stream(spec.dseed as u64, 55);
        let mut v = vec![];
        let n = match spec.entry {
            2 => spec.given.max(0),
            1 => 1,
            _ => 0,
        };
        for k in 0..n {
            let g = if k > 0 && p.chance(0.2) {
                // an equal individual among the given ones
                let i = p.below(v.len() as u64) as usize;
                let o: &M::Individual = &v[i];
                o.core().g.clone()
            } else {
                data_genome(&spec, &mut p)
            };
            let fit = if p.chance(0.5) { STALE } else { p.f64() };
            let iid = w.add(Origin::Given(k as u32), &g, fit);
            v.push(M::Individual::make(Core::new(iid, g, fit, false)));
        }
        if spec.entry == 1 {
            single = v.pop();
            given = vec![];
        } else {
            given = v;
            single = None;
        }
    }
    let mut answered_false = false;
    let progress = |pop: &Population<M::Individual>| -> bool {
        enter(L, Site::Progress);
        let _q = no_preempt();
        let w = world(L);
        if !valid_params {
            viol(&[22], format!("run {run}: progress was called although the parameters are invalid"));
        }
        let s = seen(pop);
        let eq = |a: usize, b: usize| s[a].g == s[b].g && (w.spec.eqfit == 0 || s[a].fit == s[b].fit);
        let fittest = if pop.is_empty() { f64::NAN } else { pop.fittest().core().fit };
        world(L).observe(pop.generation(), pop.stagnation(), &s, pop.stats(), fittest, &eq);
        if w.phase >= w.spec.gens {
            w.stopped = true;
            w.breeding = false;
            answered_false = true;
            count(ctr::STOPPED, 1);
            false
        } else {
            w.breeding = true;
            if w.alg == 0 && w.model == 0 {
                w.expect_rates = Some((real(w.spec.cx), real(w.spec.mu)));
            }
            true
        }
    };
    let r = catch_unwind(AssertUnwindSafe(|| match spec.entry {
        0 => Done::One(evo.run(&args, &params, progress)),
        1 => Done::One(evo.evolve_individual(single.unwrap(), &params, progress)),
        _ => Done::Pop(evo.evolve_population(given, &params, progress)),
    }));
    let _q = no_preempt();
    let w = world(L);
    w.active = false;
    w.run = -1;
    let struck = w.struck >= 0;
    let initial = if spec.entry == 2 { given_count(&spec) } else { initial_size(alg, &spec) };
    let any_valid = w.evals.iter().any(|&i| w.recs[i as usize].valid);
    let here = format!("run {run}");
    let ended;
    let mut result = 0;
    match r {
        Err(e) => {
            let injected = e.downcast_ref::<Injected>().is_some();
            if injected {
                ended = "panicked";
                count(ctr::PANICKED, 1);
                if !struck {
                    viol(&[10], format!("{here}: an injected panic came back although none struck"));
                }
            } else if struck {
                ended = "panicked";
                viol(&[10], format!("{here}: the panic of a callback arrived as another panic: {}", last_panic()));
            } else if !valid_params {
                ended = "refused";
                count(ctr::REFUSED, 1);
                if w.calls[Site::Evaluate as usize] > 0 {
                    viol(&[22], format!("{here}: {} individuals were evaluated before invalid parameters were refused", w.calls[Site::Evaluate as usize]));
                }
            } else if w.phase < 0 && !any_valid && w.evals.len() >= initial {
                ended = "all invalid";
                count(ctr::ALL_INVALID, 1);
            } else {
                ended = "broken";
                let mut t = vec![12];
                if w.phase < 0 && w.evals.is_empty() {
                    t.push(22); // valid parameters must be accepted
                }
                viol_any(&t, format!("{here}: panicked by itself in phase {}: {}", w.phase, last_panic()));
            }
        }
        Ok(done) => {
            ended = "completed";
            if struck {
                viol(&[10], format!("{here}: a callback panicked but the run returned normally"));
            }
            if !valid_params {
                viol(&[22], format!("{here}: a run with invalid parameters returned normally"));
            }
            if w.phase < 0 {
                viol(&[8, 4], format!("{here}: returned although progress was never called"));
            }
            if !answered_false {
                viol(&[8], format!("{here}: returned although progress never returned false"));
            }
            match done {
                Done::One(x) => {
                    let c = x.core();
                    let k = key(ghash(&c.g), c.fit, spec.eqfit != 0);
                    result = hash2(k, c.fit.to_bits());
                    match w.keys.get(&k) {
                        None => viol(&[6, 3], format!("{here}: the result (fitness {}) is none of the individuals progress saw", c.fit)),
                        Some(f) if f.to_bits() != c.fit.to_bits() => {
                            viol(&[6, 3], format!("{here}: the result has fitness {} but was seen with {f}", c.fit))
                        }
                        _ => {}
                    }
                    if c.fit < w.best {
                        viol(&[6], format!("{here}: the result has fitness {} but {} was found", c.fit, w.best));
                    }
                }
                Done::Pop(p) => {
                    let s = seen(&p);
                    let eq = |a: usize, b: usize| s[a].g == s[b].g && (spec.eqfit == 0 || s[a].fit == s[b].fit);
                    let fits: Vec<f64> = s.iter().map(|x| x.fit).collect();
                    let fittest = if p.is_empty() { f64::NAN } else { p.fittest().core().fit };
                    world::check_shape(&[1], &here, &fits, p.stats(), fittest, &eq);
                    let same = s.len() == w.members.len()
                        && s.iter().zip(&w.members).all(|(a, m)| key(ghash(&a.g), a.fit, spec.eqfit != 0) == m.key && a.fit.to_bits() == m.fit.to_bits());
                    if !same || p.generation() as i64 != w.phase || p.stagnation() != w.stagnation {
                        viol(&[8], format!("{here}: the returned population is not the one progress saw last"));
                    }
                    for x in &s {
                        result = hash2(result, hash2(ghash(&x.g), x.fit.to_bits()));
                    }
                }
            }
        }
    }
    if let Some(d) = w.selu.deviation() {
        viol(&[17], format!("{here}: {:?} does not select as documented: {d}", crate::model::strategy(&spec)));
    }
    w.check_released();
    simcore::log(hash2(result, w.hist.len() as u64));
    Summary { hist: w.hist.clone(), result, ended }
}

pub fn build<const L: usize, M, A>(dflt: bool) -> Evolution<A, M>
where
    M: SimModel<L>,
    M::Individual: SimInd,
    A: SimAlg<M>,
{
    if dflt {
        Evolution::default()
    } else {
        A::build_evolution(M::default())
    }
}

/// A history of runs on one object.
pub fn history<const L: usize, M, A>(scn: &Scn)
where
    M: SimModel<L>,
    M::Individual: SimInd,
    A: SimAlg<M>,
{
    let evo = build::<L, M, A>(scn.h.dflt != 0);
    for k in 0..scn.runs.len() {
        drive::<L, M, A>(&evo, scn, k);
    }
}

/// One run, on one of the two lanes of concurrent runs.
pub fn lane_run<const L: usize, M, A>(scn: &Scn)
where
    M: SimModel<L>,
    M::Individual: SimInd,
    A: SimAlg<M>,
{
    let evo = build::<L, M, A>(scn.h.dflt != 0);
    drive::<L, M, A>(&evo, scn, L.min(scn.runs.len() - 1));
}

fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}

/// Changes where the allocator puts what is allocated from now on.
fn scatter(seed: u64) {
    let mut kept: Vec<Vec<u8>> = vec![];
    for k in 0..seed % 60 {
        let x = hash2(seed, k);
        let size = if x % 3 == 0 { 1 + x / 8 % 5000 } else { 8 + x / 8 % 400 };
        kept.push(vec![0u8; size as usize]);
        if x / 5 % 3 == 0 {
            // a hole
            kept.swap_remove((x / 16 % kept.len() as u64) as usize);
        }
    }
    std::mem::forget(kept);
    std::mem::forget(vec![0u8; 1 + (seed % 5000) as usize]);
}

/// The same run twice under different process conditions, one worker.
pub fn reproduce<const L: usize, M, A>(scn: &Scn)
where
    M: SimModel<L>,
    M::Individual: SimInd,
    A: SimAlg<M>,
{
    let mut out: Vec<Summary> = vec![];
    for k in 0..2u64 {
        {
            let _q = no_preempt();
            simcore::reseed_entropy(hash2(scn.h.ent as u64, k));
            if k == 1 {
                simcore::jump_clock(hash2(scn.h.ent as u64, 99) % 10_000_000_000_000);
                count(ctr::JUMPS, 1);
                scatter(hash2(scn.h.ent as u64, 98));
            }
        }
        // other thread identifiers
        for _ in 0..hash2(scn.h.ent as u64, 97 + 100 * k) % 4 {
            std::thread::spawn(|| {}).join().unwrap();
        }
        if k == 1 {
            simcore::reseed_schedule(hash2(scn.h.sseed as u64, k));
        }
        let p = pool(1);
        out.push(p.install(|| {
            let evo = build::<L, M, A>(scn.h.dflt != 0);
            drive::<L, M, A>(&evo, scn, 0)
        }));
        drop(p);
    }
    count(ctr::PAIRS, 1);
    compare(&[14], "repeated", &out[0], &out[1]);
    // the initial evaluated population from given individuals does not depend on the number of workers
    if scn.runs[0].entry == 2 && !out[0].hist.is_empty() && scn.runs[0].land != 6 && scn.runs[0].land != 8 && scn.runs[0].land != 13 && scn.faults.is_empty() {
        let mut one = scn.clone();
        one.runs[0].gens = 0;
        let n = 2 + (scn.h.seed % 4) as usize;
        {
            let _q = no_preempt();
            world(L).workers = n;
        }
        let p = pool(n);
        let s = p.install(|| {
            let evo = build::<L, M, A>(scn.h.dflt != 0);
            drive::<L, M, A>(&evo, &one, 0)
        });
        if s.hist.first() != out[0].hist.first() {
            viol(&[14], format!("the initial population on {n} workers differs from the one on 1 worker"));
        }
    }
}

fn compare(tags: &[u32], how: &str, a: &Summary, b: &Summary) {
    let _q = no_preempt();
    if a != b {
        let at = a.hist.iter().zip(&b.hist).position(|(x, y)| x != y);
        viol(
            tags,
            format!(
                "the {how} run differs: {} generations and {} against {} generations and {}, first difference at generation {:?}",
                a.hist.len(),
                a.ended,
                b.hist.len(),
                b.ended,
                at
            ),
        );
    }
}

/// The last run on an object with a past, against the same run on a fresh object.
pub fn isolated<const L: usize, M, A>(scn: &Scn)
where
    M: SimModel<L>,
    M::Individual: SimInd,
    A: SimAlg<M>,
{
    let last = scn.runs.len() - 1;
    let p = pool(1);
    let a = p.install(|| {
        let evo = build::<L, M, A>(scn.h.dflt != 0);
        for k in 0..last {
            drive::<L, M, A>(&evo, scn, k);
        }
        drive::<L, M, A>(&evo, scn, last)
    });
    let b = p.install(|| {
        let evo = build::<L, M, A>(scn.h.dflt != 0);
        drive::<L, M, A>(&evo, scn, last)
    });
    count(ctr::PAIRS, 1);
    compare(&[11], "reused object's", &a, &b);
}

/// Long runs at fixed rates: how often operators are applied.
pub fn frequencies<const L: usize, M, A>(scn: &Scn)
where
    M: SimModel<L>,
    M::Individual: SimInd,
    A: SimAlg<M>,
{
    let evo = build::<L, M, A>(scn.h.dflt != 0);
    {
        let _q = no_preempt();
        world(L).freq = Default::default();
    }
    drive::<L, M, A>(&evo, scn, 0);
    let _q = no_preempt();
    let w = world(L);
    let f = w.freq.per_gen.clone();
    let bred: f64 = f.iter().map(|g| g.bred).sum();
    count(ctr::SAMPLES, bred as u64);
    if bred < 1000.0 {
        return;
    }
    // A second parent is missing only if every try picks an equal individual; parents are picked uniformly
    // here, so one try already succeeds with probability 1 - 1/members.
    let z = 6.5;
    // If the searches were observed, the portion that failed is known.
    let found = |g: &GenFreq| match g.missing {
        Some(m) => 1.0 - m,
        None if g.members > 1.0 => 1.0 - 1.0 / g.members,
        None => 0.0,
    };
    let most = |g: &GenFreq| match g.missing {
        Some(m) => 1.0 - m,
        None if g.members > 1.0 => 1.0,
        None => 0.0,
    };
    let test = |what: &str, seen: &dyn Fn(&GenFreq) -> f64, lo: &dyn Fn(&GenFreq) -> f64, hi: &dyn Fn(&GenFreq) -> f64| {
        let x: f64 = f.iter().map(seen).sum();
        let (mut a, mut b, mut va, mut vb) = (0.0, 0.0, 0.0, 0.0);
        for g in &f {
            a += g.bred * lo(g);
            b += g.bred * hi(g);
            va += g.bred * lo(g) * (1.0 - lo(g));
            vb += g.bred * hi(g) * (1.0 - hi(g));
        }
        if x < a - z * va.sqrt() - 4.0 || x > b + z * vb.sqrt() + 4.0 {
            viol(&[16], format!("{x} of {bred} offspring were {what}, expected {a:.1} to {b:.1} at the given rates"));
        }
    };
    test("mutated", &|g| g.mutated, &|g| g.mu, &|g| g.mu);
    test("crossed over", &|g| g.crossed, &|g| g.cx * found(g), &|g| g.cx * most(g));
    test("both crossed over and mutated", &|g| g.both, &|g| g.cx * found(g) * g.mu, &|g| g.cx * most(g) * g.mu);
    // breedings are independent of each other: generation counts are neither over- nor underdispersed
    let mut chi = [0.0, 0.0];
    let mut gens = [0.0, 0.0];
    for g in &f {
        if g.bred < 15.0 {
            continue;
        }
        if g.mu > 0.1 && g.mu < 0.9 {
            chi[0] += (g.mutated - g.bred * g.mu).powi(2) / (g.bred * g.mu * (1.0 - g.mu));
            gens[0] += 1.0;
        }
        if g.cx > 0.1 && g.cx < 0.9 && g.members >= 4.0 {
            let e = g.crossed.clamp(g.bred * g.cx * found(g), g.bred * g.cx * most(g));
            let q = g.cx * found(g);
            if q < 0.05 || q > 0.95 {
                continue;
            }
            chi[1] += (g.crossed - e).powi(2) / (g.bred * q * (1.0 - q));
            gens[1] += 1.0;
        }
    }
    for k in 0..2 {
        let n: f64 = gens[k];
        if n < 20.0 {
            continue;
        }
        let sd = (2.0 * n).sqrt();
        if chi[k] > n + 9.0 * sd || (k == 0 && chi[k] < n - 6.0 * sd) {
            viol(
                &[16],
                format!(
                    "{} is not decided independently: dispersion {:.1} over {n} generations",
                    ["mutation", "crossover"][k],
                    chi[k]
                ),
            );
        }
    }
}
