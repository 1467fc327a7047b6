//! Recorder and oracles. Everything here runs in harness mode (no preemption), reads no clock, draws no
//! randomness, and is touched by one task at a time.
use crate::scn::{real, Fault, RunSpec};
use std::collections::{BTreeMap, BTreeSet};

pub const NS: usize = 17;
pub const SITES: [&str; NS] = [
    "new_random", "crossover", "mutate", "improve", "evaluate", "survive", "pre_generation", "progress", "rng_new",
    "clone", "eq", "fitness", "is_valid", "rng_draw", "breed", "select", "prepare",
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Site {
    NewRandom,
    Crossover,
    Mutate,
    Improve,
    Evaluate,
    Survive,
    PreGen,
    Progress,
    RngNew,
    Clone,
    Eq,
    Fitness,
    Valid,
    RngDraw,
    Breed,
    Select,
    Prepare,
}

/// Counters beyond the callback sites (indices into Shared::counters).
pub mod ctr {
    pub const FAULT: usize = 20; // + site: panics struck
    pub const INVALID: usize = 40; // + kind: invalid evaluations injected
    pub const GENS: usize = 46;
    pub const RUNS: usize = 47;
    pub const REFUSED: usize = 48;
    pub const ALL_INVALID: usize = 49;
    pub const PANICKED: usize = 50;
    pub const STOPPED: usize = 51;
    pub const BREEDINGS: usize = 52;
    pub const ACCEPTED: usize = 53;
    pub const FALLBACK: usize = 54;
    pub const ELITES: usize = 55;
    pub const EXTREME: usize = 56;
    pub const NESTED: usize = 57;
    pub const OPCHECKS: usize = 58;
    pub const SELCHECKS: usize = 59;
    pub const SAMPLES: usize = 60;
    pub const UPDATES: usize = 61;
    pub const CREATED: usize = 62;
    pub const PAIRS: usize = 63;
    pub const RATECHECKS: usize = 64;
    pub const STATCHECKS: usize = 65;
    pub const REENTRY: usize = 66;
    pub const OVERLAP: usize = 67;
    pub const SINGLE_SLOT: usize = 68;
    pub const DEDUPED: usize = 69;
    pub const BEST_LOST: usize = 70;
    pub const ZERO_SPREAD: usize = 71;
    pub const ADAPTED: usize = 72;
    pub const JUMPS: usize = 73;
    pub const ITEMS: usize = 76;
    pub const LIVECHECKS: usize = 77;
    pub const MEETINGS: usize = 78;
    pub const BITSTRINGS: usize = 79;
    pub const PROTOCOL: usize = 80;
}

pub fn count(c: usize, n: u64) {
    simcore::shared().counters[c] += n;
}

/// Payload of an injected panic.
pub struct Injected;

static mut FOCUS: u32 = 0;

pub fn set_focus(p: &str) {
    unsafe { FOCUS = p[1..].parse().unwrap_or(0) }
}
pub fn focus() -> u32 {
    unsafe { FOCUS }
}

/// Records a violation of the listed properties; the run ends at once if the focused one is among them.
pub fn viol(tags: &[u32], msg: String) {
    let sh = simcore::shared();
    let f = focus();
    for &t in tags {
        sh.violated |= 1 << t;
    }
    let names: Vec<String> = tags.iter().map(|t| format!("C{t:02}")).collect();
    sh.add_message(&format!("[{}] {}\n", names.join(" "), msg));
    if f == 0 || tags.contains(&f) {
        simcore::finish(4);
    }
}

/// As `viol` for failures that make every property of the run moot.
pub fn viol_any(tags: &[u32], msg: String) {
    let mut t = tags.to_vec();
    if !t.contains(&focus()) && focus() != 0 {
        t.push(focus());
    }
    viol(&t, msg)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Origin {
    Given(u32),
    New,
    /// copied, unchanged so far, from this member of a population
    Member(u32),
    Cross(u32, u32),
    Bred,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub origin: Origin,
    pub mutn: u32,
    pub imp: u32,
    pub ev: u32,
    pub ghash: u64,
    pub fit: f64,
    pub valid: bool,
    pub phase: i64,
    pub member: bool,
    pub asked: u32,
    pub decision: bool,
    pub late: bool, // changed after evaluation
    pub order: bool, // operator after improvement or improvement after evaluation
}

#[derive(Clone, Debug)]
pub struct Mem {
    pub iid: u32,
    pub key: u64,
    pub fit: f64,
    pub ghash: u64,
}

#[derive(Clone, Debug, Default)]
pub struct RngInfo {
    pub in_breeding: bool,
    pub busy: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Hook {
    pub done: bool,
    pub prepares: u32,
    pub selects: u64,
    /// Searches for a distinct individual, and how many found none.
    pub sought: u64,
    pub missing: u64,
}

pub struct World {
    pub run: i64,
    pub alg: i64,
    pub model: i64,
    pub workers: usize,
    pub nested_env: bool,
    pub spec: RunSpec,
    pub active: bool,
    pub breeding: bool, // progress has said yes, population not yet replaced
    pub stopped: bool,
    pub struck: i64,
    pub calls: [u64; NS],
    pub faults: Vec<Fault>,
    pub recs: Vec<Rec>,
    pub phase: i64,
    pub members: Vec<Mem>,
    pub member_ids: BTreeMap<u32, usize>,
    pub keys: BTreeMap<u64, f64>,
    pub best: f64,
    pub best_lost: bool,
    pub stagnation: usize,
    pub evals: Vec<u32>,
    pub bred: Vec<u32>,
    pub initial: Vec<u32>,
    pub initial_eval: bool,
    pub hist: Vec<u64>,
    pub hook: Hook,
    pub probe: bool,
    pub rates_touched: bool,
    pub ref_std: Option<f64>,
    pub ref_exact: bool,
    pub last_rates: Option<(f64, f64)>,
    pub expect_rates: Option<(f64, f64)>,
    pub rngs: Vec<RngInfo>,
    pub rng_made: u64,
    pub factory_after: usize,
    pub last_rng: BTreeMap<usize, (u32, u64)>,
    pub draws: u64,
    pub freq: Freq,
    pub selu: SelU,
    pub custom_valid: bool,
    pub accepted_now: u64,
    pub live_base: [i64; 2],
    pub live_max: i64,
    pub live_bound: i64,
    pub meet: BTreeMap<(i64, usize), Meet>,
}

/// Callbacks that wait for each other.
#[derive(Default, Clone, Debug)]
pub struct Meet {
    pub want: u64,
    pub inside: u64,
    pub tasks: BTreeSet<usize>,
}

#[derive(Default, Clone)]
pub struct Freq {
    /// Per generation: parents to choose from, breedings, crossed, mutated, both, and the rates in force.
    pub per_gen: Vec<GenFreq>,
}

#[derive(Clone, Copy)]
pub struct GenFreq {
    pub members: f64,
    pub bred: f64,
    pub crossed: f64,
    pub mutated: f64,
    pub both: f64,
    /// Portion of the searches for a second parent that failed, if observed.
    pub missing: Option<f64>,
    pub cx: f64,
    pub mu: f64,
}

static mut WORLDS: [Option<Box<World>>; 2] = [None, None];

#[allow(static_mut_refs)]
pub fn world(lane: usize) -> &'static mut World {
    unsafe { WORLDS[lane].as_mut().expect("world") }
}

pub fn key(ghash: u64, fit: f64, eqfit: bool) -> u64 {
    if eqfit {
        simcore::hash2(ghash, fit.to_bits())
    } else {
        ghash
    }
}

pub fn ghash(g: &[u16]) -> u64 {
    let mut h = 0x1234_5678 ^ g.len() as u64;
    for &x in g {
        h = simcore::hash2(h, x as u64);
    }
    h
}

#[allow(static_mut_refs)]
pub fn new_world(lane: usize, alg: i64, model: i64, workers: usize, nested_env: bool) {
    unsafe {
        WORLDS[lane] = Some(Box::new(World {
            run: -1,
            alg,
            model,
            workers,
            nested_env,
            spec: RunSpec::default(),
            active: false,
            breeding: false,
            stopped: false,
            struck: -1,
            calls: [0; NS],
            faults: vec![],
            recs: vec![],
            phase: -1,
            members: vec![],
            member_ids: BTreeMap::new(),
            keys: BTreeMap::new(),
            best: f64::NEG_INFINITY,
            best_lost: false,
            stagnation: 0,
            evals: vec![],
            bred: vec![],
            initial: vec![],
            initial_eval: false,
            hist: vec![],
            hook: Hook::default(),
            probe: false,
            rates_touched: false,
            ref_std: None,
            ref_exact: false,
            last_rates: None,
            expect_rates: None,
            rngs: vec![],
            rng_made: 0,
            factory_after: 0,
            last_rng: BTreeMap::new(),
            draws: 0,
            freq: Freq::default(),
            selu: SelU::default(),
            custom_valid: model == 2,
            accepted_now: 0,
            live_base: [0; 2],
            live_max: 0,
            live_bound: i64::MAX,
            meet: BTreeMap::new(),
        }));
    }
}

/// Entry of every user callback: a preemption point, then possibly the injected panic.
#[inline]
pub fn enter(lane: usize, site: Site) {
    if simcore::quiet() {
        return;
    }
    simcore::yield_point(true);
    let strike = {
        let _q = simcore::no_preempt();
        let w = world(lane);
        w.calls[site as usize] += 1;
        simcore::shared().counters[site as usize] += 1;
        if site as usize <= Site::Progress as usize || site == Site::Breed {
            simcore::log(simcore::hash2(site as u64, simcore::current_task() as u64));
        }
        let n = w.calls[site as usize] as i64;
        let run = w.run;
        let hit = w
            .faults
            .iter()
            .position(|f| f.run == run && f.kind == 0 && f.site == site as i64 && f.nth == n);
        if let Some(i) = hit {
            w.struck = i as i64;
            count(ctr::FAULT + site as usize, 1);
            Some(i as i64)
        } else {
            None
        }
    };
    if strike.is_some() {
        std::panic::resume_unwind(Box::new(Injected));
    }
}

/// The kind of injected evaluation failure for this evaluation, if any.
pub fn eval_fault(lane: usize) -> Option<i64> {
    let w = world(lane);
    let n = w.calls[Site::Evaluate as usize] as i64;
    let run = w.run;
    w.faults
        .iter()
        .find(|f| f.run == run && f.kind > 0 && f.site == Site::Evaluate as i64 && f.nth == n)
        .map(|f| f.kind)
}


impl World {
    pub fn start(&mut self, run: i64, spec: &RunSpec) {
        self.run = run;
        self.spec = spec.clone();
        self.active = true;
        self.breeding = false;
        self.stopped = false;
        self.struck = -1;
        self.calls = [0; NS];
        self.recs.clear();
        self.phase = -1;
        self.members.clear();
        self.member_ids.clear();
        self.keys.clear();
        self.best = f64::NEG_INFINITY;
        self.best_lost = false;
        self.stagnation = 0;
        self.evals.clear();
        self.bred.clear();
        self.initial.clear();
        self.initial_eval = false;
        self.hist.clear();
        self.hook = Hook::default();
        self.selu = SelU::default();
        self.probe = false;
        self.rates_touched = false;
        self.ref_std = None;
        self.last_rates = None;
        self.expect_rates = None;
        self.rngs.clear();
        self.rng_made = 0;
        self.factory_after = 0;
        self.last_rng.clear();
        self.draws = 0;
        self.live_base = [crate::model::live(0), crate::model::live(1)];
        self.live_max = 0;
        let most = spec.pop.max(spec.pop0).max(spec.given).max(1);
        self.live_bound = if self.nested_env { i64::MAX } else { 4 * most + 16 };
        self.meet.clear();
        count(ctr::RUNS, 1);
    }

    pub fn here(&self) -> String {
        format!("run {} generation {}", self.run, self.phase)
    }

    // ------------------------------------------------------------------ individuals

    pub fn add(&mut self, origin: Origin, g: &[u16], fit: f64) -> u32 {
        self.check_live();
        let h = ghash(g);
        self.recs.push(Rec {
            origin,
            mutn: 0,
            imp: 0,
            ev: 0,
            ghash: h,
            fit,
            valid: false,
            phase: self.phase,
            member: false,
            asked: 0,
            decision: false,
            late: false,
            order: false,
        });
        (self.recs.len() - 1) as u32
    }

    /// One more individual is about to exist.
    fn check_live(&mut self) {
        if !self.active || self.nested_env {
            return;
        }
        let n = crate::model::live(0) - self.live_base[0] + 1;
        self.live_max = self.live_max.max(n);
        if n > self.live_bound {
            viol(&[28], format!("{}: {n} individuals are alive at the same time, with at most {} in a population", self.here(), (self.live_bound - 16) / 4));
        }
    }

    /// The run is over and its result has been dropped.
    pub fn check_released(&mut self) {
        if self.nested_env {
            return;
        }
        count(ctr::LIVECHECKS, 1);
        let n = crate::model::live(0) - self.live_base[0];
        if n != 0 {
            viol(&[28], format!("run {}: {n} individuals are still alive after the run and its result are gone", self.run));
        }
        let n = crate::model::live(1) - self.live_base[1];
        if n != 0 {
            viol(&[28], format!("run {}: {n} generators are still alive after the run", self.run));
        }
    }

    pub fn cloned(&mut self, src: u32) -> u32 {
        self.check_live();
        let s = self.recs[src as usize].clone();
        let r = if s.member {
            Rec { origin: Origin::Member(src), mutn: 0, imp: 0, ev: 0, asked: 0, decision: false, late: false, order: false, member: false, phase: self.phase, ..s }
        } else {
            Rec { phase: self.phase, ..s }
        };
        self.recs.push(r);
        (self.recs.len() - 1) as u32
    }

    /// The population member this individual is (a faithful copy of), if any.
    pub fn as_member(&self, iid: u32) -> Option<u32> {
        let mut i = iid;
        loop {
            let r = &self.recs[i as usize];
            if r.member {
                return Some(i);
            }
            match r.origin {
                Origin::Member(m) if r.mutn == 0 && r.imp == 0 && r.ev == 0 => i = m,
                _ => return None,
            }
        }
    }

    /// The current generation's member this individual is a faithful copy of.
    pub fn current_member(&self, iid: u32) -> Option<usize> {
        let mut i = iid;
        for _ in 0..100_000 {
            if let Some(&x) = self.member_ids.get(&i) {
                return Some(x);
            }
            match self.recs[i as usize].origin {
                Origin::Member(m) if self.recs[i as usize].mutn == 0 && self.recs[i as usize].ev == 0 => i = m,
                _ => return None,
            }
        }
        None
    }

    pub fn touch(&mut self, iid: u32, g: &[u16], what: Site) {
        let stopped = self.stopped;
        let here = self.here();
        let r = &mut self.recs[iid as usize];
        r.ghash = ghash(g);
        match what {
            Site::Mutate => {
                r.mutn += 1;
                if r.imp > 0 {
                    r.order = true;
                }
            }
            Site::Improve => r.imp += 1,
            _ => {}
        }
        if r.ev > 0 {
            r.late = true;
        }
        if r.member {
            viol(&[3, 5], format!("{here}: an individual that is in the population was changed"));
        }
        if stopped {
            viol(&[8], format!("{here}: {:?} after progress returned false", what));
        }
    }

    pub fn evaluated(&mut self, iid: u32, g: &[u16], fit: f64, valid: bool) {
        let here = self.here();
        if self.stopped {
            viol(&[8], format!("{here}: evaluation after progress returned false"));
        }
        let h = ghash(g);
        let r = &mut self.recs[iid as usize];
        r.ev += 1;
        r.ghash = h;
        r.fit = fit;
        r.valid = valid;
        r.phase = self.phase;
        let (ev, imp, mutn, member, order) = (r.ev, r.imp, r.mutn, r.member, r.order);
        if member {
            viol(&[3], format!("{here}: an individual of the population was evaluated again"));
        }
        if ev > 1 {
            viol(&[3], format!("{here}: an individual was evaluated {ev} times"));
        }
        self.evals.push(iid);
        if self.phase >= 0 {
            let want = if self.model == 1 || self.model == 2 { 1 } else { 0 };
            if self.model != 3 && imp != want {
                viol(&[3], format!("{here}: an offspring was evaluated after {imp} local improvements instead of {want}"));
            }
            if mutn > 1 {
                viol(&[3, 16], format!("{here}: an offspring was mutated {mutn} times"));
            }
            if order {
                viol(&[3], format!("{here}: an offspring was mutated after its local improvement"));
            }
        } else {
            self.initial_eval = true;
        }
    }

    // ------------------------------------------------------------------ generators

    pub fn rng_created(&mut self) -> u32 {
        self.rngs.push(RngInfo::default());
        self.rng_made += 1;
        if self.initial_eval || self.phase >= 0 {
            self.factory_after += 1;
            if self.spec.nested == 0 && !self.nested_env && self.factory_after > self.workers {
                viol(
                    &[13],
                    format!(
                        "{}: the model's generator factory was called {} times for breeding with {} workers",
                        self.here(),
                        self.factory_after,
                        self.workers
                    ),
                );
            }
        }
        (self.rngs.len() - 1) as u32
    }

    pub fn rng_bred(&mut self, id: u32) {
        if self.phase < 0 {
            return;
        }
        self.rngs[id as usize].in_breeding = true;
        if self.spec.nested == 0 && !self.nested_env {
            let n = self.rngs.iter().filter(|r| r.in_breeding).count();
            if n > self.workers {
                viol(&[13], format!("{}: {n} generators were used for breeding with {} workers", self.here(), self.workers));
            }
        }
    }

    // ------------------------------------------------------------------ elites

    /// Sizes of the elite group the algorithm may keep from n individuals.
    pub fn elite_sizes(&self, len: usize) -> (usize, usize) {
        if self.alg == 2 {
            return (1, 1);
        }
        let x = self.spec.pop as f64 * real(self.spec.elit);
        let lo = (x - 1e-9).max(0.0).floor() as usize;
        let hi = (x + 1e-9).floor() as usize;
        (lo.min(len), hi.min(len))
    }

    pub fn target(&self, phase: i64) -> usize {
        crate::model::target_size(self.alg, &self.spec, phase.max(0) as usize)
    }
}

// ---------------------------------------------------------------------------------------------
// Observation of populations

pub struct Seen {
    pub iid: u32,
    pub g: Vec<u16>,
    pub fit: f64,
    pub bad: bool,
}

pub fn two_pass(f: &[f64]) -> (f64, f64, f64, f64) {
    let n = f.len() as f64;
    let min = f.iter().cloned().fold(f64::INFINITY, f64::min);
    let max = f.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let mean = f.iter().map(|x| x / n).sum::<f64>();
    // corrected for the rounding of the mean
    let (s1, s2) = f.iter().map(|x| x - mean).fold((0.0, 0.0), |(a, b), d| (a + d, b + d * d));
    let var = if f.len() > 1 && min != max { (s2 - s1 * s1 / n) / (n - 1.0) } else { 0.0 };
    (min, max, mean + s1 / n, var)
}

/// Sorted, unique, consistent statistics. `eq(i, j)`: equality of individuals.
pub fn check_shape(tags1: &[u32], here: &str, fits: &[f64], st: &rusty_genes::PopulatedStats, fittest: f64, eq: &dyn Fn(usize, usize) -> bool) {
    let n = fits.len();
    if n == 0 {
        viol(tags1, format!("{here}: an empty population"));
        return;
    }
    for i in 1..n {
        // (written so that a NaN is not in order)
        if !(fits[i - 1] <= fits[i]) {
            viol(tags1, format!("{here}: population not in ascending order at {}: {} then {}", i - 1, fits[i - 1], fits[i]));
            break;
        }
    }
    // equal individuals have equal fitness, so only equal-fitness stretches are compared
    let mut i = 0;
    'outer: while i < n {
        let mut j = i;
        while j < n && fits[j] == fits[i] {
            j += 1;
        }
        for a in i..j {
            for b in a + 1..j {
                if b - a > 200 {
                    break;
                }
                if eq(a, b) {
                    viol(tags1, format!("{here}: equal individuals at positions {a} and {b} of {n}"));
                    break 'outer;
                }
            }
        }
        i = j.max(i + 1);
    }
    count(ctr::STATCHECKS, 1);
    let (min, max, mean, var) = two_pass(fits);
    let bad = |m: String| viol(&[9], format!("{here}: {m}"));
    if st.count() != n {
        bad(format!("statistics count {} for {} individuals", st.count(), n));
    }
    if st.min() != min || st.max() != max {
        bad(format!("statistics min/max {}/{} but fitness min/max {}/{}", st.min(), st.max(), min, max));
    }
    if st.arg_min() >= n || fits[st.arg_min()] != min {
        bad(format!("arg_min {} is not a minimum", st.arg_min()));
    }
    if st.arg_max() >= n || fits[st.arg_max()] != max {
        bad(format!("arg_max {} is not a maximum", st.arg_max()));
    }
    if fittest != max {
        bad(format!("fittest() has fitness {fittest}, the maximum is {max}"));
    }
    let scale = min.abs().max(max.abs());
    let eps = 16.0 * n as f64 * f64::EPSILON;
    if mean.is_finite() && !((st.avg() - mean).abs() <= eps * scale + 1e-300) {
        bad(format!("mean {} but {} expected", st.avg(), mean));
    }
    if scale < 1e150 && var.is_finite() {
        // what an online or two-pass algorithm may lose to rounding; summing squares loses far more
        let tol = 4.0 * eps * (var + scale * var.sqrt()) + (eps * scale).powi(2) + 1e-300;
        if !((st.var() - var).abs() <= tol) {
            bad(format!("variance {} but {} expected", st.var(), var));
        }
        let sd = st.std();
        if !((sd * sd - st.var()).abs() <= 1e-9 * st.var().abs() + 1e-300) {
            bad(format!("standard deviation {} with variance {}", sd, st.var()));
        }
    }
}

impl World {
    /// A population given to progress (gen counted by the caller) is checked against everything recorded.
    pub fn observe(&mut self, generation: usize, stagnation: usize, pop: &[Seen], st: &rusty_genes::PopulatedStats, fittest: f64, eq: &dyn Fn(usize, usize) -> bool) {
        let here = format!("run {} population {}", self.run, self.phase + 1);
        if self.stopped {
            viol(&[8], format!("{here}: progress was called again after it returned false"));
        }
        if self.struck >= 0 {
            viol(&[10], format!("{here}: progress was called after a callback had panicked"));
        }
        let fits: Vec<f64> = pop.iter().map(|s| s.fit).collect();
        check_shape(&[1], &here, &fits, st, fittest, eq);
        self.contents(&here, pop);
        if pop.is_empty() {
            return;
        }
        let best = fits.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let expect_gen = (self.phase + 1) as usize;
        if generation != expect_gen {
            viol(&[8], format!("{here}: generation() is {generation}, {expect_gen} expected"));
        }
        if self.phase < 0 {
            self.stagnation = 0;
        } else {
            let prev = self.members.iter().map(|m| m.fit).fold(f64::NEG_INFINITY, f64::max);
            if best > prev {
                self.stagnation = 0;
            } else {
                self.stagnation += 1;
            }
            if best < prev {
                self.best_lost = true;
                count(ctr::BEST_LOST, 1);
            }
            let (klo, _) = self.elite_sizes(self.members.len());
            if klo > 0 && best < prev {
                viol(&[5], format!("{here}: best fitness dropped from {prev} to {best} although {klo} elites are kept"));
            }
            // the hook ran once
            if self.model != 0 && !self.hook.done {
                viol(&[8], format!("{here}: the per-generation hook did not run before this generation was bred"));
            }
            if self.probe && self.hook.prepares != 1 {
                viol(&[17], format!("{here}: the selector was prepared {} times for one generation", self.hook.prepares));
            }
        }
        if stagnation != self.stagnation {
            viol(&[8], format!("{here}: stagnation() is {stagnation}, {} expected", self.stagnation));
        }
        let mems: Vec<Mem> = pop
            .iter()
            .map(|s| {
                let gh = ghash(&s.g);
                Mem { iid: s.iid, key: key(gh, s.fit, self.spec.eqfit != 0), fit: s.fit, ghash: gh }
            })
            .collect();
        if self.phase < 0 {
            self.check_initial(&here, &mems);
        } else if self.model == 3 {
            self.check_generation_tagged(&here, &mems);
        } else {
            self.check_generation(&here, &mems);
        }
        // the new population becomes current
        for m in &self.members {
            self.recs[m.iid as usize].member = true; // (stays marked: copies of old members are faithful copies)
        }
        self.member_ids.clear();
        for (i, m) in mems.iter().enumerate() {
            self.recs[m.iid as usize].member = true;
            self.member_ids.insert(m.iid, i);
            self.keys.insert(m.key, m.fit);
        }
        let mut h = mems.len() as u64;
        for m in &mems {
            h = simcore::hash2(h, simcore::hash2(m.ghash, m.fit.to_bits()));
        }
        simcore::log(h);
        self.hist.push(h);
        self.members = mems;
        self.best = self.best.max(best);
        self.phase += 1;
        self.evals.clear();
        self.bred.clear();
        self.hook = Hook::default();
        self.accepted_now = 0;
        count(ctr::GENS, 1);
    }

    /// Validity and freshness of what is in an observed population.
    fn contents(&mut self, here: &str, pop: &[Seen]) {
        for s in pop {
            if !s.fit.is_finite() || (self.custom_valid && s.bad) {
                viol(&[4], format!("{here}: an invalid individual (fitness {}) is in the population", s.fit));
            }
            let r = &self.recs[s.iid as usize];
            let gh = ghash(&s.g);
            let faithful = self.as_member(s.iid);
            if gh != r.ghash || r.late {
                viol(&[3], format!("{here}: an individual's genome changed after it was evaluated"));
            }
            if faithful.is_none() && r.ev != 1 {
                viol(&[3], format!("{here}: an individual in the population was evaluated {} times", r.ev));
            }
            if s.fit.to_bits() != r.fit.to_bits() {
                viol(&[3], format!("{here}: an individual carries fitness {} but evaluation gave {}", s.fit, r.fit));
            }
            if !r.valid {
                viol(&[4], format!("{here}: an individual evaluated as invalid is in the population"));
            }
        }
    }

    fn check_initial(&mut self, here: &str, mems: &[Mem]) {
        let r = &self.spec;
        let size = crate::model::initial_size(self.alg, r);
        let evals = self.evals.clone();
        let mut new = 0;
        let mut plain = 0;
        let mut mutated = 0;
        let mut given: Vec<u32> = vec![];
        let mut other = 0;
        for &i in &evals {
            let e = &self.recs[i as usize];
            if e.imp != 0 {
                other += 1;
            }
            match e.origin {
                Origin::New if e.mutn == 0 => new += 1,
                Origin::Given(k) => {
                    given.push(k);
                    if e.mutn == 0 {
                        plain += 1
                    } else if e.mutn == 1 {
                        mutated += 1
                    } else {
                        other += 1
                    }
                }
                _ => other += 1,
            }
        }
        let ok = match r.entry {
            0 => new == size && evals.len() == size && other == 0,
            1 => plain == 1 && mutated + 1 == size && new == 0 && other == 0,
            _ => {
                given.sort_unstable();
                let n = crate::model::given_count(r);
                mutated == 0 && new == 0 && other == 0 && given.len() == n && given.iter().enumerate().all(|(i, g)| i as u32 == *g)
            }
        };
        if !ok {
            viol(
                &[21, 3],
                format!(
                    "{here}: evaluated initial individuals: {new} random, {plain} given, {mutated} mutated once, {other} other; entry {} size {} given {}",
                    r.entry, size, r.given
                ),
            );
        }
        let want: BTreeSet<u64> = evals
            .iter()
            .filter(|&&i| self.recs[i as usize].valid)
            .map(|&i| {
                let e = &self.recs[i as usize];
                key(e.ghash, e.fit, self.spec.eqfit != 0)
            })
            .collect();
        let have: BTreeSet<u64> = mems.iter().map(|m| m.key).collect();
        if let Some(x) = want.difference(&have).next() {
            viol(&[1, 4, 21], format!("{here}: a valid initial individual ({x:x}) is missing ({} of {} present)", have.len(), want.len()));
        }
        if have.difference(&want).next().is_some() {
            viol(&[4, 21], format!("{here}: contains an individual that is not a valid initial one"));
        }
        let valid = evals.iter().filter(|&&i| self.recs[i as usize].valid).count();
        count(ctr::DEDUPED, (valid - have.len().min(valid)) as u64);
    }

    /// Elites are the top k of the sorted population: keys strictly above the boundary, and those tied at it.
    fn elites(&self, k: usize) -> (BTreeSet<u64>, BTreeSet<u64>, usize) {
        let m = &self.members;
        let n = m.len();
        if k == 0 {
            return Default::default();
        }
        let t = m[n - k].fit;
        let above: BTreeSet<u64> = m.iter().filter(|x| x.fit > t).map(|x| x.key).collect();
        let tied: BTreeSet<u64> = m.iter().filter(|x| x.fit == t).map(|x| x.key).collect();
        let need = k - above.len();
        (above, tied, need)
    }

    /// C05 on contents, for any model. Returns the keys that may be present as elites.
    fn check_elites(&mut self, here: &str, have: &BTreeSet<u64>) -> BTreeSet<u64> {
        let (klo, khi) = self.elite_sizes(self.members.len());
        let (above, tied, need) = self.elites(klo);
        if above.iter().any(|k| !have.contains(k)) || tied.iter().filter(|k| have.contains(k)).count() < need {
            viol(&[5, 2], format!("{here}: some of the {klo} fittest individuals of the previous generation are missing"));
        }
        count(ctr::ELITES, klo as u64);
        let (a2, t2, _) = self.elites(khi);
        above.union(&tied).cloned().chain(a2).chain(t2).collect()
    }

    fn check_generation_tagged(&mut self, here: &str, mems: &[Mem]) {
        let have: BTreeSet<u64> = mems.iter().map(|m| m.key).collect();
        let allowed = self.check_elites(here, &have);
        let target = self.target(self.phase);
        let (klo, khi) = self.elite_sizes(self.members.len());
        let n = self.bred.len();
        count(ctr::BREEDINGS, n as u64);
        if target.saturating_sub(khi) == 1 {
            count(ctr::SINGLE_SLOT, 1);
        }
        if n > target.saturating_sub(klo) || n < target.saturating_sub(khi) {
            viol(&[2], format!("{here}: {n} breedings for size {target} with {klo} elites"));
        }
        let bred: BTreeSet<u64> = self
            .bred
            .iter()
            .map(|&i| {
                let e = &self.recs[i as usize];
                key(e.ghash, e.fit, self.spec.eqfit != 0)
            })
            .collect();
        if let Some(_x) = bred.difference(&have).next() {
            let missing = bred.difference(&have).count();
            viol(&[2], format!("{here}: {missing} of {n} bred individuals are missing from the next generation"));
        }
        let extra: Vec<&u64> = have.iter().filter(|k| !bred.contains(k) && !allowed.contains(k)).collect();
        if !extra.is_empty() {
            viol(&[2], format!("{here}: {} individuals are neither elites nor bred in this generation", extra.len()));
        }
        if mems.len() > n + khi || mems.len() > target.max(khi) {
            viol(&[2], format!("{here}: {} individuals from {n} breedings and {khi} elites", mems.len()));
        }
        count(ctr::DEDUPED, (n + klo).saturating_sub(mems.len()) as u64);
    }

    fn check_generation(&mut self, here: &str, mems: &[Mem]) {
        let eqfit = self.spec.eqfit != 0;
        let have: BTreeSet<u64> = mems.iter().map(|m| m.key).collect();
        let mut allowed = self.check_elites(here, &have);
        let target = self.target(self.phase);
        let (klo, khi) = self.elite_sizes(self.members.len());
        let evals = self.evals.clone();
        let n = evals.len();
        count(ctr::BREEDINGS, n as u64);
        if target.saturating_sub(khi) == 1 {
            count(ctr::SINGLE_SLOT, 1);
        }
        if n > target.saturating_sub(klo) || n < target.saturating_sub(khi) {
            // (a breeding whose offspring is not evaluated counts as none)
            viol(&[2, 3], format!("{here}: {n} evaluated breedings for size {target} with {klo} elites"));
        }
        if mems.len() > target.max(khi) {
            viol(&[2], format!("{here}: {} individuals exceed the configured size {target}", mems.len()));
        }
        let (mut crossed, mut mutated, mut both) = (0, 0, 0);
        for &i in &evals {
            let e = self.recs[i as usize].clone();
            // parents
            let (parents, was_crossed) = match e.origin {
                Origin::Cross(a, b) => (vec![self.current_member(a), self.current_member(b)], true),
                Origin::Member(m) => (vec![self.current_member(m)], false),
                _ => (vec![None], false),
            };
            if was_crossed {
                crossed += 1
            }
            if e.mutn > 0 {
                mutated += 1
            }
            if was_crossed && e.mutn > 0 {
                both += 1
            }
            if parents.iter().any(|p| p.is_none()) {
                viol(&[7, 2], format!("{here}: an offspring's parent is not a member of the current population"));
                continue;
            }
            let parents: Vec<&Mem> = parents.iter().map(|p| &self.members[p.unwrap()]).collect();
            if parents.len() == 2 && parents[0].key == parents[1].key {
                viol(&[7, 17], format!("{here}: crossover combined two equal individuals"));
            }
            let pf = parents.iter().map(|m| m.fit).fold(f64::NEG_INFINITY, f64::max);
            let survives = if self.model == 2 {
                if e.valid && e.asked != 1 {
                    viol(&[7], format!("{here}: the survival rule was asked {} times about a valid offspring", e.asked));
                }
                e.decision
            } else {
                e.fit >= pf
            };
            let k = key(e.ghash, e.fit, eqfit);
            if e.valid && survives {
                self.accepted_now += 1;
                count(ctr::ACCEPTED, 1);
                allowed.insert(k);
                if !have.contains(&k) {
                    viol(&[7, 2], format!("{here}: a surviving offspring (fitness {}) is missing from the next generation", e.fit));
                }
            } else {
                count(ctr::FALLBACK, 1);
                let cands: Vec<u64> = parents.iter().filter(|m| m.fit == pf).map(|m| m.key).collect();
                if !cands.iter().any(|c| have.contains(c)) {
                    let t: &[u32] = if e.valid { &[7, 2] } else { &[4, 7, 2] };
                    viol(
                        t,
                        format!(
                            "{here}: the fittest parent (fitness {pf}) of a rejected {} offspring did not take its place",
                            if e.valid { "valid" } else { "invalid" }
                        ),
                    );
                }
                allowed.extend(cands);
            }
        }
        for m in mems {
            if !allowed.contains(&m.key) {
                // what is it?
                let rejected = evals.iter().any(|&i| {
                    let e = &self.recs[i as usize];
                    key(e.ghash, e.fit, eqfit) == m.key
                });
                let old = self.members.iter().any(|o| o.key == m.key);
                if rejected {
                    viol(&[7, 2], format!("{here}: an offspring (fitness {}) that lost against its parents is in the next generation", m.fit));
                } else if old {
                    viol(
                        &[7, 2],
                        format!("{here}: a previous individual (fitness {}) that is neither an elite nor the fittest parent of a rejected offspring is in the next generation", m.fit),
                    );
                } else {
                    viol(&[2, 7], format!("{here}: an individual from nowhere (fitness {}) is in the next generation", m.fit));
                }
                break;
            }
        }
        if let Some((cx, mu)) = self.expect_rates {
            let strict = |r: f64, c: usize, what: &str| {
                if r == 0.0 && c > 0 {
                    viol(&[16], format!("{here}: {c} of {n} offspring were {what} at rate 0"));
                }
            };
            strict(cx, crossed, "crossed over");
            strict(mu, mutated, "mutated");
            let (single, missing) = ((n - crossed) as u64, self.hook.missing);
            if cx == 1.0 && self.probe && self.members.len() > 1 && single > missing {
                viol(
                    &[16],
                    format!("{here}: {single} of {n} offspring were not crossed over at rate 1; {missing} times no second parent was found"),
                );
            }
            if mu == 1.0 && mutated < n {
                viol(&[16], format!("{here}: {} of {n} offspring were not mutated at rate 1", n - mutated));
            }
        }
        if let Some((cx, mu)) = self.expect_rates {
            self.freq.per_gen.push(GenFreq {
                members: self.members.len() as f64,
                bred: n as f64,
                crossed: crossed as f64,
                mutated: mutated as f64,
                both: both as f64,
                missing: (self.probe && self.hook.sought > 0).then(|| self.hook.missing as f64 / self.hook.sought as f64),
                cx: cx.clamp(0.0, 1.0),
                mu: mu.clamp(0.0, 1.0),
            });
        }
    }

    // ------------------------------------------------------------------ hook

    pub fn is_current(&self, generation: usize, ids: &mut dyn Iterator<Item = u32>) -> bool {
        if generation as i64 != self.phase {
            return false;
        }
        let mut n = 0;
        for i in ids {
            if n >= self.members.len() || self.members[n].iid != i {
                return false;
            }
            n += 1;
        }
        n == self.members.len()
    }

    /// The hook saw these rates; afterwards it may change them.
    pub fn hooked(&mut self, current: bool, cx: f64, mu: f64) {
        let here = self.here();
        if self.stopped {
            viol(&[8], format!("{here}: the per-generation hook ran after progress returned false"));
        }
        if self.phase < 0 || !self.breeding {
            viol(&[8], format!("{here}: the per-generation hook ran before progress"));
        }
        if self.hook.done {
            viol(&[8], format!("{here}: the per-generation hook ran twice in one generation"));
        }
        if !current {
            viol(&[8, 1], format!("{here}: the per-generation hook got a population other than the one progress saw last"));
        }
        if !self.evals.is_empty() || !self.bred.is_empty() {
            viol(&[8], format!("{here}: breeding started before the per-generation hook"));
        }
        self.hook.done = true;
        count(ctr::RATECHECKS, 1);
        match self.alg {
            0 => {
                let want = self.last_rates.unwrap_or((real(self.spec.cx), real(self.spec.mu)));
                let conf = (real(self.spec.cx), real(self.spec.mu));
                if (cx, mu) != want && (cx, mu) != conf {
                    viol(&[16], format!("{here}: rates at the hook are {cx}/{mu}, configured {}/{}", conf.0, conf.1));
                }
            }
            1 => self.check_adaptive(&here, cx, mu),
            _ => {}
        }
    }

    fn check_adaptive(&mut self, here: &str, cx: f64, mu: f64) {
        let (c1, c2) = (real(self.spec.cx), real(self.spec.cx2));
        let (m1, m2) = (real(self.spec.mu), real(self.spec.mu2));
        let g = self.phase;
        let fits: Vec<f64> = self.members.iter().map(|m| m.fit).collect();
        let (min, max, _, var) = two_pass(&fits);
        let scale = min.abs().max(max.abs());
        let exact0 = min == max;
        let sd = if exact0 { 0.0 } else { var.sqrt() };
        let reliable = exact0 || (sd.is_finite() && scale < 1e150 && sd > 1e-6 * scale);
        if exact0 {
            count(ctr::ZERO_SPREAD, 1);
        }
        let between = |x: f64, a: f64, b: f64| x >= a.min(b) - 1e-12 && x <= a.max(b) + 1e-12;
        if !self.rates_touched && !(between(cx, c1, c2) && between(mu, m1, m2)) {
            viol(&[15], format!("{here}: rates {cx}/{mu} are outside {c1}..{c2} / {m1}..{m2}"));
        }
        let close = |a: f64, b: f64| (a - b).abs() <= 1e-6;
        let mut computed = None;
        if g == 0 {
            self.ref_std = Some(sd);
            self.ref_exact = reliable;
            computed = Some((c2, m1));
        } else if self.spec.interval > 0 && g % self.spec.interval == 0 {
            count(ctr::ADAPTED, 1);
            if let (Some(s0), true, true) = (self.ref_std, self.ref_exact, reliable) {
                let d = if sd == 0.0 {
                    0.0
                } else if s0 == 0.0 {
                    1.0
                } else {
                    (sd / s0).clamp(0.0, 1.0)
                };
                computed = Some((c1 + (c2 - c1) * d, m2 + (m1 - m2) * d));
            } else if !(between(cx, c1, c2) && between(mu, m1, m2)) {
                viol(&[15], format!("{here}: rates {cx}/{mu} are outside {c1}..{c2} / {m1}..{m2}"));
            }
        } else if let Some((a, b)) = self.last_rates {
            if !(close(cx, a) && close(mu, b)) {
                viol(&[15], format!("{here}: rates changed from {a}/{b} to {cx}/{mu} in a generation the interval {} does not divide", self.spec.interval));
            }
        }
        if let Some((a, b)) = computed {
            if !(close(cx, a) && close(mu, b)) {
                viol(&[15], format!("{here}: rates are {cx}/{mu}, {a}/{b} expected"));
            }
        }
    }

    /// Rates in force for this generation's breeding, as left by the hook.
    pub fn hook_left(&mut self, cx: f64, mu: f64, touched: bool) {
        self.last_rates = Some((cx, mu));
        self.expect_rates = Some((cx, mu));
        if touched {
            self.rates_touched = true;
        }
    }
}

/// Where selections lie in the distribution they have to follow.
#[derive(Default)]
pub struct SelU {
    pub n: usize,
    mean: f64,
    spread: f64,
    low: f64,
    high: f64,
}

impl SelU {
    pub fn add(&mut self, u: f64) {
        self.n += 1;
        self.mean += u - 0.5;
        self.spread += (u - 0.5).powi(2) - 1.0 / 12.0;
        self.low += (u < 0.1) as u8 as f64 - 0.1;
        self.high += (u > 0.9) as u8 as f64 - 0.1;
    }

    /// What deviates from the uniform distribution by too much.
    pub fn deviation(&self) -> Option<String> {
        let n = self.n as f64;
        let far = |x: f64, var: f64| x.abs() > 6.5 * (n * var).sqrt() + 4.0;
        let d = |what: &str, x: f64, var: f64| far(x, var).then(|| format!("{what} {:.1} sigma off in {n} selections", x / (n * var).sqrt()));
        d("the mean rank is", self.mean, 1.0 / 12.0)
            .or(d("the spread of ranks is", self.spread, 1.0 / 180.0))
            .or(d("the share of the lowest tenth is", self.low, 0.09))
            .or(d("the share of the highest tenth is", self.high, 0.09))
    }
}
