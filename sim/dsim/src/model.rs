//! User code of the simulated system: individuals, models, generators, an algorithm relying on the trait's
//! defaults, a probe selector. Every callback reports to the recorder.
use crate::ops;
use crate::scn::{real, RunSpec};
use crate::world::{self, count, ctr, enter, ghash, viol, world, Origin, Site};
use rand::{Rng, RngCore};
use rusty_genes::*;
use simcore::{hash2, no_preempt, Prng};

// ------------------------------------------------------------------ generator

pub struct TestRng<const L: usize> {
    pub id: u32,
    pub run: i64,
    p: Prng,
    ext: f64,
    burst: u32,
    draws: u64,
    _live: Option<Live>,
}

impl<const L: usize> TestRng<L> {
    pub fn make() -> Self {
        enter(L, Site::RngNew);
        let _q = no_preempt();
        let w = world(L);
        let n = w.rng_made;
        let id = w.rng_created();
        TestRng {
            id,
            run: w.run,
            p: Prng::stream(w.spec.rseed as u64, 100 + n),
            ext: real(w.spec.ext),
            burst: 0,
            draws: 0,
            _live: Some(Live::new(1)),
        }
    }
    /// A generator outside any run (labs).
    pub fn lab(seed: u64, ext: f64) -> Self {
        TestRng { id: u32::MAX, run: -2, p: Prng::stream(seed, 9), ext, burst: 0, draws: 0, _live: None }
    }
    fn draw(&mut self) -> u64 {
        if self.run != -2 {
            enter(L, Site::RngDraw);
            let _q = no_preempt();
            let w = world(L);
            w.draws += 1;
            self.draws += 1;
            if self.run != w.run {
                if w.run >= 0 {
                    viol(&[11, 13], format!("{}: a generator of run {} is used in run {}", w.here(), self.run, w.run));
                }
            } else {
                let t = simcore::current_task();
                let d = w.draws;
                w.last_rng.insert(t, (self.id, d));
            }
        }
        let v = self.p.next();
        if self.ext > 0.0 && self.burst < 2 && self.p.f64() < self.ext {
            self.burst += 1;
            count(ctr::EXTREME, 1);
            return match v % 4 {
                0 => 0,
                1 => u64::MAX,
                2 => 1 << 63,
                _ => u64::MAX - (1 << 11),
            };
        }
        self.burst = 0;
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.draw() as u128 * n as u128) >> 64) as usize
    }
}

impl<const L: usize> RngCore for TestRng<L> {
    fn next_u32(&mut self) -> u32 {
        (self.draw() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.draw()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.draw().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

// ------------------------------------------------------------------ individuals

pub struct Core {
    pub iid: u32,
    pub g: Vec<u16>,
    pub fit: f64,
    pub bad: bool,
    _live: Live,
}

impl Core {
    pub fn new(iid: u32, g: Vec<u16>, fit: f64, bad: bool) -> Self {
        Core { iid, g, fit, bad, _live: Live::new(0) }
    }
}

/// Counts what is alive: individuals (0), generators of runs (1).
pub struct Live(usize);

pub static mut LIVE: [i64; 2] = [0; 2];

impl Live {
    pub fn new(k: usize) -> Self {
        let _q = no_preempt();
        unsafe { LIVE[k] += 1 };
        Live(k)
    }
}

impl Drop for Live {
    fn drop(&mut self) {
        let _q = no_preempt();
        unsafe { LIVE[self.0] -= 1 };
    }
}

pub fn live(k: usize) -> i64 {
    unsafe { LIVE[k] }
}

/// A fitness nobody evaluated: finite, so that using it instead of a fresh one is visible.
pub const STALE: f64 = 123456.75;

pub struct Args {
    pub magic: u64,
    pub spec: RunSpec,
}

pub trait SimInd: RandomIndividual<Args> {
    fn core(&self) -> &Core;
    fn core_mut(&mut self) -> &mut Core;
    fn make(c: Core) -> Self;
    const CUSTOM: bool;
}

pub fn permutation(spec: &RunSpec) -> bool {
    spec.xop % 10 != 6 && spec.mop != 4
}

pub fn effective_xop(spec: &RunSpec) -> i64 {
    if spec.mop == 4 && spec.xop % 10 != 6 && spec.xop != 7 {
        6
    } else {
        spec.xop
    }
}

pub fn data_genome(spec: &RunSpec, p: &mut Prng) -> Vec<u16> {
    let n = spec.glen as usize;
    if permutation(spec) {
        let mut v: Vec<u16> = (0..n as u16).collect();
        for i in (1..n).rev() {
            v.swap(i, p.below(i as u64 + 1) as usize);
        }
        v
    } else {
        (0..n).map(|_| p.below(5) as u16).collect()
    }
}

macro_rules! individual {
    ($name:ident, $custom:expr, { $($valid:item)* }) => {
        pub struct $name<const L: usize> { pub c: Core }
        impl<const L: usize> Clone for $name<L> {
            fn clone(&self) -> Self {
                enter(L, Site::Clone);
                let _q = no_preempt();
                let iid = if self.c.iid == u32::MAX { u32::MAX } else { world(L).cloned(self.c.iid) };
                $name { c: Core::new(iid, self.c.g.clone(), self.c.fit, self.c.bad) }
            }
        }
        impl<const L: usize> PartialEq for $name<L> {
            fn eq(&self, o: &Self) -> bool {
                enter(L, Site::Eq);
                let _q = no_preempt();
                self.c.g == o.c.g && (world(L).spec.eqfit == 0 || self.c.fit == o.c.fit)
            }
        }
        impl<const L: usize> Individual for $name<L> {
            fn fitness(&self) -> f64 {
                enter(L, Site::Fitness);
                self.c.fit
            }
            $($valid)*
        }
        impl<const L: usize> SimInd for $name<L> {
            fn core(&self) -> &Core { &self.c }
            fn core_mut(&mut self) -> &mut Core { &mut self.c }
            fn make(c: Core) -> Self { $name { c } }
            const CUSTOM: bool = $custom;
        }
        impl<const L: usize> RandomIndividual<Args> for $name<L> {
            fn new_random<R: Rng>(args: &Args, rng: &mut R) -> Self {
                enter(L, Site::NewRandom);
                meet::<L>(Site::NewRandom);
                let before = world(L).draws;
                let seed = rng.gen::<u64>();
                let _q = no_preempt();
                let w = world(L);
                count(ctr::CREATED, 1);
                if args.magic != hash2(w.spec.rseed as u64, w.run as u64) {
                    viol(&[21], format!("{}: new_random got arguments other than the given ones", w.here()));
                }
                let mine = w.last_rng.get(&simcore::current_task()).map(|x| x.1 > before).unwrap_or(false);
                if !mine && w.struck < 0 {
                    viol(&[13, 21, 14], format!("{}: a random individual was created with a generator that is not the model's", w.here()));
                }
                if w.stopped || w.phase >= 0 {
                    viol(&[21, 8], format!("{}: a random individual was created after the initial population", w.here()));
                }
                let g = data_genome(&args.spec, &mut Prng::new(seed));
                let iid = w.add(Origin::New, &g, STALE);
                w.initial.push(iid);
                $name { c: Core::new(iid, g, STALE, false) }
            }
        }
    };
}

individual!(IndD, false, {});
individual!(IndC, true, {
    fn is_valid(&self) -> bool {
        enter(L, Site::Valid);
        self.c.fit.is_finite() && !self.c.bad
    }
});

// ------------------------------------------------------------------ evaluation

fn uniform(h: u64) -> f64 {
    (simcore::mix(h) >> 11) as f64 / (1u64 << 53) as f64
}

fn landscape(w: &world::World, g: &[u16], h: u64) -> f64 {
    let u = uniform(h ^ w.spec.dseed as u64);
    let n = w.calls[Site::Evaluate as usize];
    match w.spec.land {
        0 => g.iter().enumerate().filter(|(i, x)| *i as u16 == **x).count() as f64,
        2 => 1.0,
        3 => (u * 3.0).floor() + 1.0,
        4 => -(u * 50.0).floor() - 1.0,
        5 => (if simcore::mix(h) & 1 == 0 { 1.0 } else { -1.0 }) * 10f64.powi((u * 300.0) as i32 - 150),
        6 => uniform(hash2(h, n)) + 0.001,
        7 => g.iter().enumerate().map(|(i, x)| (i as f64 + 1.0) * *x as f64).sum::<f64>() + 1.0,
        8 => 1000.0 - 10.0 * w.phase as f64 - uniform(hash2(h, n)),
        14 => {
            let size = if simcore::mix(h) & 2 == 0 { (1.0 + u) * 10f64.powi(307 - (u * 7.0) as i32) } else { u * f64::MIN_POSITIVE };
            (if simcore::mix(h) & 1 == 0 { size } else { -size })
        }
        13 => 1000.0 + 10.0 * w.phase as f64 + uniform(hash2(h, n)),
        9 => {
            if simcore::mix(h) & 1 == 0 {
                0.0
            } else {
                -0.0
            }
        }
        10 => 1e9 + (u * 4.0).floor(),
        11 => 1e15 + u * 100.0,
        12 => (u * 8.0).floor() * 1e-20,
        _ => u + 0.001,
    }
}

/// Sets the individual's fitness as the scenario says; harness mode.
fn assess<const L: usize, I: SimInd>(ind: &mut I) {
    let w = world(L);
    let c = ind.core_mut();
    let h = ghash(&c.g);
    let mut fit = landscape(w, &c.g, h);
    let mut bad = false;
    let mut kind = 0;
    if w.spec.inv > 0 {
        let x = hash2(h, w.spec.dseed as u64 ^ 0x5151);
        if (x % 1_000_000) < w.spec.inv as u64 {
            kind = 1 + ((x >> 32) % 4) as i64;
        }
    }
    if let Some(k) = world::eval_fault(L) {
        kind = k;
    }
    if kind == 4 && !I::CUSTOM {
        kind = 1;
    }
    match kind {
        1 => fit = f64::NAN,
        2 => fit = f64::INFINITY,
        3 => fit = f64::NEG_INFINITY,
        4 => bad = true,
        _ => {}
    }
    if kind != 0 {
        count(ctr::INVALID + kind as usize, 1);
    }
    c.fit = fit;
    c.bad = bad;
    let (iid, valid) = (c.iid, fit.is_finite() && !bad);
    let g = std::mem::take(&mut c.g);
    w.evaluated(iid, &g, fit, valid);
    ind.core_mut().g = g;
}

static mut DEPTH: [u32; 512] = [0; 512];

fn spin_for(n: u64) {
    for _ in 0..n {
        simcore::yield_point(true);
    }
}

/// Parallel work of the user's own inside a callback.
fn nested_work<const L: usize>() {
    let kind = world(L).spec.nested;
    if kind == 0 {
        return;
    }
    {
        let _q = no_preempt();
        count(ctr::NESTED, 1);
        unsafe {
            let t = simcore::current_task();
            DEPTH[t] += 1;
            if DEPTH[t] > 1 {
                count(ctr::REENTRY, 1);
            }
        }
    }
    // how long the parts take: the same for all, or very different ones
    let long = |n: u64| {
        let _q = no_preempt();
        let w = world(L);
        let h = hash2(w.calls[Site::Evaluate as usize] + 77, hash2(w.spec.rseed as u64, n));
        match h % 4 {
            0 => 1,
            1 => 2 + (h >> 8) % 6,
            2 => 10 + (h >> 8) % 30,
            _ => 40 + (h >> 8) % 60,
        }
    };
    let spin = spin_for;
    use rayon::prelude::*;
    match kind {
        1 => {
            rayon::join(|| spin(3), || spin(5));
        }
        2 => {
            let s: usize = (0..6usize)
                .into_par_iter()
                .map(|i| {
                    spin(2);
                    i
                })
                .sum();
            assert!(s == 15);
        }
        3 => {
            let (a, b) = (long(0), long(1));
            rayon::join(|| spin(a), || spin(b));
        }
        4 => {
            let t = [long(0), long(1), long(2), long(3)];
            let s: u64 = t.par_iter().map(|&n| { spin(n); n }).sum();
            assert!(s == t.iter().sum::<u64>());
        }
        _ => {
            let t = [long(0), long(1), long(2)];
            rayon::scope(|s| {
                for n in t {
                    s.spawn(move |_| spin_for(n));
                }
            });
        }
    }
    let _q = no_preempt();
    unsafe {
        DEPTH[simcore::current_task()] -= 1;
    }
}

/// In some scenarios the first callbacks of a kind wait until as many are in progress as there are workers.
fn meet<const L: usize>(site: Site) {
    if world(L).spec.hold == 0 {
        return;
    }
    let key;
    {
        let _q = no_preempt();
        let w = world(L);
        if w.nested_env || w.spec.nested != 0 || !w.active {
            return;
        }
        let phase = if w.breeding { w.phase + 1 } else { -1 };
        key = (phase, site as usize);
        let n = match site {
            Site::NewRandom => initial_size(w.alg, &w.spec),
            _ if phase >= 0 => {
                let t = target_size(w.alg, &w.spec, w.phase as usize);
                let e = if w.alg == 2 { 1 } else { (t as f64 * real(w.spec.elit)).ceil() as usize + 1 };
                t.saturating_sub(e)
            }
            _ if w.spec.entry == 2 => given_count(&w.spec),
            _ => initial_size(w.alg, &w.spec).saturating_sub(1),
        };
        let t = simcore::current_task();
        let hold = (w.spec.hold as usize).min(w.workers);
        let m = w.meet.entry(key).or_default();
        if m.want == 0 {
            m.want = if n >= 16 * hold { hold as u64 } else if n >= 32 && hold >= 2 { 2 } else { 1 };
            if m.want > 1 {
                count(ctr::MEETINGS, 1);
            }
        }
        if m.inside >= m.want || m.want == 1 {
            return;
        }
        m.inside += 1;
        m.tasks.insert(t);
    }
    let mut g = GATE.0.lock().unwrap();
    GATE.1.notify_all();
    loop {
        {
            let _q = no_preempt();
            let m = &world(L).meet[&key];
            if m.inside >= m.want {
                break;
            }
        }
        g = GATE.1.wait(g).unwrap();
    }
}

static GATE: (std::sync::Mutex<()>, std::sync::Condvar) = (std::sync::Mutex::new(()), std::sync::Condvar::new());

fn evaluate<const L: usize, I: SimInd>(ind: &mut I) {
    enter(L, Site::Evaluate);
    meet::<L>(Site::Evaluate);
    nested_work::<L>();
    let _q = no_preempt();
    assess::<L, I>(ind);
}

fn rng_used<const L: usize>(rng: &TestRng<L>) {
    let w = world(L);
    if rng.run == w.run {
        w.rng_bred(rng.id);
        let r = &mut w.rngs[rng.id as usize];
        if r.busy > 0 && w.spec.nested == 0 {
            viol(&[13], format!("{}: two simultaneous breedings share a generator", w.here()));
        }
    }
}

fn crossover<const L: usize, I: SimInd>(p1: &I, p2: &I, rng: &mut TestRng<L>) -> I {
    enter(L, Site::Crossover);
    let spec;
    {
        let _q = no_preempt();
        rng_used(rng);
        let w = world(L);
        if w.stopped {
            viol(&[8], format!("{}: crossover after progress returned false", w.here()));
        }
        if w.phase < 0 {
            viol(&[21, 8], format!("{}: crossover before the first generation", w.here()));
        }
        if w.breeding {
            let same = p1.core().g == p2.core().g && (w.spec.eqfit == 0 || p1.core().fit == p2.core().fit);
            if same {
                viol(&[7, 17], format!("{}: crossover of two equal individuals", w.here()));
            }
        }
        spec = w.spec.clone();
    }
    let g = ops::crossover(effective_xop(&spec), &p1.core().g, &p2.core().g, rng, permutation(&spec));
    let _q = no_preempt();
    let w = world(L);
    let iid = w.add(Origin::Cross(p1.core().iid, p2.core().iid), &g, STALE);
    I::make(Core::new(iid, g, STALE, false))
}

fn mutate<const L: usize, I: SimInd>(ind: &mut I, rng: &mut TestRng<L>) {
    enter(L, Site::Mutate);
    if !world(L).breeding {
        meet::<L>(Site::Mutate);
    }
    let mop;
    {
        let _q = no_preempt();
        rng_used(rng);
        mop = world(L).spec.mop;
    }
    ops::mutate(mop, &mut ind.core_mut().g, rng);
    let _q = no_preempt();
    let c = ind.core_mut();
    world(L).touch(c.iid, &c.g, Site::Mutate);
}

fn improve<const L: usize, I: SimInd>(ind: &mut I) {
    enter(L, Site::Improve);
    let _q = no_preempt();
    let w = world(L);
    let c = ind.core_mut();
    if w.phase < 0 {
        viol(&[21, 3], format!("{}: local improvement of an initial individual", w.here()));
    }
    if w.spec.improve != 0 && c.g.len() > 2 && ghash(&c.g) % 3 == 0 {
        c.g.swap(0, 1);
    }
    w.touch(c.iid, &c.g, Site::Improve);
}

// ------------------------------------------------------------------ probe selector

pub fn strategy(spec: &RunSpec) -> SelectionStrategy {
    match spec.sel {
        0 => SelectionStrategy::Tournament((spec.selp / 1_000_000).max(0) as usize),
        1 => SelectionStrategy::RouletteWheel,
        2 => SelectionStrategy::Rank,
        3 => SelectionStrategy::Linear(real(spec.selp)),
        4 => SelectionStrategy::Elitist(real(spec.selp)),
        _ => SelectionStrategy::Boltzmann(real(spec.selp), real(spec.selp2)),
    }
}

/// A setter that has to refuse what it is given.
fn refused(what: &str, f: impl FnOnce()) {
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok() {
        let _q = no_preempt();
        viol(&[22], format!("{what} was accepted"));
    }
    let _q = no_preempt();
    count(ctr::REFUSED, 1);
}

/// The selection of a run: as the strategy creates it, or made with other values, used with another population
/// and then set, as a model that controls its selection does.
pub fn selection_of<I, R>(spec: &RunSpec, other: Option<&Population<I>>) -> Box<dyn SelectionMechanism<I, R>>
where
    I: Individual,
    R: rand::Rng,
{
    let h = hash2(spec.dseed as u64, 4711);
    let say = |same: bool, what: &str| {
        if !same {
            let _q = no_preempt();
            viol(&[17], format!("{what} is not what was set for {:?}", strategy(spec)));
        }
    };
    let odd = (h >> 8) % 97;
    match (h % 3, strategy(spec)) {
        (0, SelectionStrategy::Tournament(k)) => {
            let was = 1 + odd as usize % 9;
            let mut t = TournamentSelection::new(was);
            refused("a tournament set to size 0", || t.set_size(0));
            say(t.size() == was, "the size after a refused one");
            t.set_size(k);
            say(t.size() == k, "the tournament size");
            Box::new(t)
        }
        (0, SelectionStrategy::Linear(b)) => {
            let mut t = LinearSelection::new(1.0 + odd as f64 / 97.0);
            t.set_bias(b);
            say(t.bias() == b, "the bias");
            Box::new(t)
        }
        (0, SelectionStrategy::Elitist(r)) => {
            let was = odd as f64 / 97.0;
            let mut t = ElitistSelection::new(was);
            let bad = [1.0, -0.001, f64::NAN, 1.5, f64::INFINITY][odd as usize % 5];
            refused("an elitist ratio outside [0,1)", || t.set_ratio(bad));
            say(t.ratio() == was, "the ratio after a refused one");
            t.set_ratio(r);
            say(t.ratio() == r, "the ratio");
            Box::new(t)
        }
        (0, SelectionStrategy::Boltzmann(t0, c0)) => {
            let was = 0.5 + odd as f64 / 97.0;
            let mut t = BoltzmannSelection::new(1.0 + odd as f64, was);
            if let Some(p) = other {
                for _ in 0..odd % 3 {
                    SelectionMechanism::<I, R>::prepare(&mut t, p);
                }
            }
            refused("a cooling rate of 0", || t.set_cooling_rate([0.0, -0.0][odd as usize % 2]));
            say(t.cooling_rate() == was, "the cooling rate after a refused one");
            t.set_cooling_rate(c0);
            t.set_temperature(t0);
            say(t.cooling_rate() == c0, "the cooling rate");
            say(t.temperature() == t0, "the temperature");
            Box::new(t)
        }
        (_, s) => s.create_selector(),
    }
}

pub struct Probe<const L: usize, I: SimInd> {
    inner: Box<dyn SelectionMechanism<I, TestRng<L>>>,
    /// The same selection with its temperature in sight.
    boltzmann: Option<BoltzmannSelection>,
    prepared: i64,
    /// Probability of each position of the current population to be selected, and of the positions before it.
    odds: Vec<(f64, f64)>,
}

impl<const L: usize, I: SimInd> Probe<L, I> {
    fn new(spec: &RunSpec) -> Self {
        let boltzmann = (spec.sel == 5).then(|| BoltzmannSelection::new(real(spec.selp), real(spec.selp2)));
        Probe { inner: selection_of(spec, None), boltzmann, prepared: 0, odds: vec![] }
    }
    /// Looks at the temperature and computes the distribution that the selection has to follow now.
    fn follow(&mut self, pop: &Population<I>) {
        self.prepared += 1;
        if let Some(b) = &mut self.boltzmann {
            let before = b.temperature();
            SelectionMechanism::<I, TestRng<L>>::prepare(b, pop);
            let _q = no_preempt();
            let (t, c) = (b.temperature(), b.cooling_rate());
            let want = before * c;
            if !((t - want).abs() <= 1e-9 * want.abs() || want.abs() < 1e-290 && t.abs() < 1e-280) {
                viol(&[17], format!("{}: the temperature went from {before:e} to {t:e} at a cooling rate of {c:e}", world(L).here()));
            }
        }
        let _q = no_preempt();
        let spec = &world(L).spec;
        self.odds.clear();
        if spec.ext == 0 {
            let fits: Vec<f64> = pop.iter().map(|i| i.core().fit).collect();
            let mut sum = 0.0;
            for e in crate::labs::expected(spec, &fits, self.prepared).unwrap_or_default() {
                self.odds.push((e, sum));
                sum += e;
            }
        }
    }
}

/// The provided methods of the trait, on top of what they have to be made of.
struct Provided<'p, const L: usize, I: SimInd>(&'p Probe<L, I>);

impl<const L: usize, I: SimInd> SelectionMechanism<I, TestRng<L>> for Provided<'_, L, I> {
    fn prepare(&mut self, _: &Population<I>) {}
    fn select<'a>(&self, pop: &'a Population<I>, rng: &mut TestRng<L>) -> (usize, &'a I) {
        self.0.select(pop, rng)
    }
}

impl<const L: usize, I: SimInd> SelectionMechanism<I, TestRng<L>> for Probe<L, I> {
    fn select_distinct<'a>(&self, pop: &'a Population<I>, rng: &mut TestRng<L>, tries: usize, not: &I) -> Option<(usize, &'a I)> {
        let found = Provided(self).select_distinct(pop, rng, tries, not);
        let _q = no_preempt();
        let w = world(L);
        w.hook.sought += 1;
        match found {
            None => w.hook.missing += 1,
            Some((_, i)) if i == not => {
                viol(&[17], format!("{}: the individual found is equal to the one to differ from", w.here()));
            }
            _ => {}
        }
        found
    }
    fn prepare(&mut self, pop: &Population<I>) {
        enter(L, Site::Prepare);
        {
            let _q = no_preempt();
            let w = world(L);
            w.hook.prepares += 1;
            let cur = w.is_current(pop.generation(), &mut pop.iter().map(|i| i.core().iid));
            if w.hook.prepares > 1 {
                viol(&[17], format!("{}: the selector was prepared {} times in one generation", w.here(), w.hook.prepares));
            }
            if !cur {
                viol(&[17], format!("{}: the selector was prepared with a population other than the current one", w.here()));
            }
            if w.hook.selects > 0 {
                viol(&[17], format!("{}: the selector was used before it was prepared", w.here()));
            }
        }
        self.inner.prepare(pop);
        self.follow(pop);
    }
    fn select<'a>(&self, pop: &'a Population<I>, rng: &mut TestRng<L>) -> (usize, &'a I) {
        enter(L, Site::Select);
        {
            let _q = no_preempt();
            let w = world(L);
            w.hook.selects += 1;
            count(ctr::SELCHECKS, 1);
            if w.hook.prepares == 0 || self.prepared == 0 {
                viol(&[17], format!("{}: the selector was used before it was prepared for this generation", w.here()));
            }
            if !w.is_current(pop.generation(), &mut pop.iter().map(|i| i.core().iid)) {
                viol(&[17], format!("{}: a parent was selected from a population other than the current one", w.here()));
            }
        }
        let (i, x) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.inner.select(pop, rng))) {
            Ok(r) => r,
            Err(e) => {
                let _q = no_preempt();
                if e.downcast_ref::<world::Injected>().is_none() {
                    viol(&[17, 12], format!("{}: selection panicked ({:?})", world(L).here(), strategy(&world(L).spec)));
                }
                drop(_q);
                std::panic::resume_unwind(e)
            }
        };
        let _q = no_preempt();
        if i >= pop.len() || !std::ptr::eq(&pop[i], x) {
            viol(&[17], format!("{}: selection returned index {i} with an individual that is not at that index", world(L).here()));
        }
        if let Some((e, before)) = self.odds.get(i) {
            // where the selection lies in its distribution: uniform between 0 and 1
            let w = world(L);
            let v = (hash2(w.spec.dseed as u64, w.selu.n as u64) >> 11) as f64 / (1u64 << 53) as f64;
            w.selu.add(before + v * e);
        }
        (i, x)
    }
}

fn pre_generation<const L: usize, M, I>(pop: &Population<I>, par: &mut ReproductionParameters<M>)
where
    I: SimInd + 'static,
    M: EvolutionModel<Individual = I, Rng = TestRng<L>>,
{
    enter(L, Site::PreGen);
    let _q = no_preempt();
    let w = world(L);
    let cur = w.is_current(pop.generation(), &mut pop.iter().map(|i| i.core().iid));
    w.hooked(cur, par.crossover_rate, par.mutation_rate);
    let mut touched = false;
    if w.spec.hook & 2 != 0 {
        let x = hash2(w.spec.dseed as u64, w.phase as u64 + 77);
        match x % 5 {
            0 => {
                par.crossover_rate = 0.0;
                par.mutation_rate = 1.0;
                touched = true;
            }
            1 => {
                par.crossover_rate = 1.0;
                par.mutation_rate = 0.0;
                touched = true;
            }
            2 => {
                par.crossover_rate = 0.5;
                par.mutation_rate = 0.5;
                touched = true;
            }
            _ => {}
        }
    }
    // some models make a new selection now and then, so that a Boltzmann selection starts again
    let anew = w.spec.dseed % 4 == 0 && hash2(w.spec.dseed as u64, w.phase as u64 + 177) % 6 == 0;
    if w.spec.hook & 1 != 0 && (w.phase == 0 || anew) {
        w.probe = true;
        par.parent_selector = Box::new(Probe::<L, I>::new(&w.spec));
    }
    let (a, b) = (par.crossover_rate, par.mutation_rate);
    w.hook_left(a, b, touched);
}

// ------------------------------------------------------------------ models

pub trait SimModel<const L: usize>: EvolutionModel<Rng = TestRng<L>> + Default + 'static
where
    Self::Individual: SimInd,
{
}

macro_rules! model {
    ($name:ident, $ind:ident, { $($extra:item)* }) => {
        #[derive(Default)]
        pub struct $name<const L: usize>;
        impl<const L: usize> EvolutionModel for $name<L> {
            type Individual = $ind<L>;
            type Rng = TestRng<L>;
            fn rng() -> TestRng<L> { TestRng::make() }
            fn crossover(&self, a: &$ind<L>, b: &$ind<L>, rng: &mut TestRng<L>) -> $ind<L> { crossover::<L, $ind<L>>(a, b, rng) }
            fn mutate(&self, i: &mut $ind<L>, rng: &mut TestRng<L>) { mutate::<L, $ind<L>>(i, rng) }
            fn evaluate(&self, i: &mut $ind<L>) { evaluate::<L, $ind<L>>(i) }
            $($extra)*
        }
        impl<const L: usize> SimModel<L> for $name<L> {}
    };
}

model!(ModelA, IndD, {});
model!(ModelB, IndD, {
    fn improve(&self, i: &mut IndD<L>) {
        improve::<L, IndD<L>>(i)
    }
    fn pre_generation(&mut self, p: &Population<IndD<L>>, r: &mut ReproductionParameters<Self>) {
        pre_generation::<L, Self, IndD<L>>(p, r)
    }
});
model!(ModelC, IndC, {
    fn improve(&self, i: &mut IndC<L>) {
        improve::<L, IndC<L>>(i)
    }
    fn pre_generation(&mut self, p: &Population<IndC<L>>, r: &mut ReproductionParameters<Self>) {
        pre_generation::<L, Self, IndC<L>>(p, r)
    }
    fn can_survive(&self, o: &IndC<L>, parent: &IndC<L>, pop: &Population<IndC<L>>, rng: &mut TestRng<L>) -> bool {
        enter(L, Site::Survive);
        let draw = rng.gen::<bool>();
        let _q = no_preempt();
        rng_used(rng);
        let w = world(L);
        if !w.is_current(pop.generation(), &mut pop.iter().map(|i| i.c.iid)) {
            viol(&[7], format!("{}: the survival rule got a population other than the current one", w.here()));
        }
        let d = match w.spec.surv {
            1 => true,
            2 => draw,
            3 => false,
            4 => o.c.fit > parent.c.fit,
            _ => o.c.fit >= parent.c.fit,
        };
        // the parent must be the offspring's fittest one
        let e = w.recs[o.c.iid as usize].clone();
        let ps = match e.origin {
            Origin::Cross(a, b) => vec![a, b],
            Origin::Member(m) => vec![m],
            _ => vec![],
        };
        let ps: Vec<usize> = ps.iter().filter_map(|&p| w.current_member(p)).collect();
        let best = ps.iter().map(|&p| w.members[p].fit).fold(f64::NEG_INFINITY, f64::max);
        let given = w.current_member(parent.c.iid);
        let ok = match given {
            Some(g) => ps.iter().any(|&p| w.members[p].key == w.members[g].key) && w.members[g].fit == best,
            None => false,
        };
        if !ok {
            viol(&[7], format!("{}: the survival rule was not given the offspring's fittest parent", w.here()));
        }
        let r = &mut w.recs[o.c.iid as usize];
        r.asked += 1;
        r.decision = d;
        d
    }
});
model!(ModelD, IndD, {
    fn pre_generation(&mut self, p: &Population<IndD<L>>, r: &mut ReproductionParameters<Self>) {
        pre_generation::<L, Self, IndD<L>>(p, r)
    }
    fn breed(&self, pop: &Population<IndD<L>>, par: &ReproductionParameters<Self>, rng: &mut TestRng<L>) -> IndD<L> {
        enter(L, Site::Breed);
        let mine = {
            let _q = no_preempt();
            rng_used(rng);
            let w = world(L);
            if w.stopped {
                viol(&[8], format!("{}: breeding after progress returned false", w.here()));
            }
            if !w.is_current(pop.generation(), &mut pop.iter().map(|i| i.c.iid)) {
                viol(&[2, 8], format!("{}: breeding from a population other than the current one", w.here()));
            }
            if let Some((a, b)) = w.expect_rates {
                if (par.crossover_rate, par.mutation_rate) != (a, b) {
                    viol(&[16], format!("{}: breeding with rates {}/{} instead of {a}/{b}", w.here(), par.crossover_rate, par.mutation_rate));
                }
            }
            if w.evals.is_empty() && w.rngs.iter().filter(|r| r.busy > 0).count() > 0 {
                count(ctr::OVERLAP, 1);
            }
            let ok = rng.run == w.run;
            if ok {
                w.rngs[rng.id as usize].busy += 1;
            }
            ok
        };
        struct Busy<const L: usize>(u32, bool);
        impl<const L: usize> Drop for Busy<L> {
            fn drop(&mut self) {
                if self.1 {
                    let _q = no_preempt();
                    world(L).rngs[self.0 as usize].busy -= 1;
                }
            }
        }
        let busy = Busy::<L>(rng.id, mine);
        let (_, parent) = par.parent_selector.select(pop, rng);
        let tag = rng.gen::<u64>();
        for _ in 0..2 {
            simcore::yield_point(true);
        }
        let pg = parent.c.g.len();
        let mut ind = {
            let _q = no_preempt();
            let w = world(L);
            let n = w.calls[Site::Breed as usize] + w.recs.len() as u64 * 4096;
            let h = hash2(tag, n);
            let g: Vec<u16> = vec![(n & 0xffff) as u16, (n >> 16) as u16, h as u16, (h >> 16) as u16, pg as u16];
            let iid = w.add(Origin::Bred, &g, STALE);
            IndD { c: Core::new(iid, g, STALE, false) }
        };
        enter(L, Site::Evaluate);
        meet::<L>(Site::Evaluate);
        nested_work::<L>();
        let _q = no_preempt();
        let w = world(L);
        let h = ghash(&ind.c.g);
        let fit = landscape(w, &ind.c.g, h);
        ind.c.fit = fit;
        let r = &mut w.recs[ind.c.iid as usize];
        r.ev = 1;
        r.fit = fit;
        r.valid = true;
        w.bred.push(ind.c.iid);
        drop(_q);
        drop(busy);
        ind
    }
});

// ------------------------------------------------------------------ algorithms

pub fn initial_size(alg: i64, r: &RunSpec) -> usize {
    (if alg == 2 && r.pop0 > 0 { r.pop0 } else { r.pop }).max(0) as usize
}

pub fn given_count(r: &RunSpec) -> usize {
    r.given.max(0) as usize
}

pub fn target_size(alg: i64, r: &RunSpec, gen: usize) -> usize {
    if alg == 2 {
        (r.pop - (gen as i64 % 3) * r.shrink).max(1) as usize
    } else {
        r.pop.max(0) as usize
    }
}

pub struct TraitParams {
    pub spec: RunSpec,
}

impl EvolutionParameters for TraitParams {
    fn initial_population_size(&self) -> usize {
        initial_size(2, &self.spec)
    }
    fn max_population_size(&self) -> usize {
        self.spec.pop.max(0) as usize
    }
    fn validate(&self) {}
}

/// An algorithm that relies on everything the trait provides by default.
pub struct TraitAlg<M: EvolutionModel> {
    model: M,
    spec: RunSpec,
    size: usize,
    breeding: ReproductionParameters<M>,
}

impl<M: EvolutionModel> From<M> for TraitAlg<M> {
    fn from(model: M) -> Self {
        TraitAlg { model, spec: RunSpec::default(), size: 0, breeding: Default::default() }
    }
}

impl<M: EvolutionModel + Default> Default for TraitAlg<M> {
    fn default() -> Self {
        Self::from(M::default())
    }
}

impl<M: EvolutionModel> EvolutionAlgorithm<M> for TraitAlg<M> {
    type Parameters = TraitParams;
    fn model(&self) -> &M {
        &self.model
    }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<M>, usize) {
        (&self.breeding, self.size)
    }
    fn configure(&mut self, p: &TraitParams) {
        p.validate();
        self.breeding.parent_selector = strategy(&p.spec).create_selector();
        self.breeding.crossover_rate = real(p.spec.cx);
        self.breeding.mutation_rate = real(p.spec.mu);
        self.spec = p.spec.clone();
    }
    fn prepare_for_next_population(&mut self, population: &Population<M::Individual>) {
        self.size = target_size(2, &self.spec, population.generation());
        self.model.pre_generation(population, &mut self.breeding);
        self.breeding.parent_selector.prepare(population);
    }
}

pub trait SimAlg<M: EvolutionModel>: EvolutionAlgorithm<M> + From<M> + Default {
    fn params(r: &RunSpec) -> Self::Parameters;
}

impl<M: EvolutionModel + Default> SimAlg<M> for GeneticAlgorithm<M> {
    fn params(r: &RunSpec) -> GeneticAlgorithmParameters {
        GeneticAlgorithmParameters {
            population_size: r.pop.max(0) as usize,
            elitism_rate: real(r.elit),
            crossover_rate: real(r.cx),
            mutation_rate: real(r.mu),
            selection_strategy: strategy(r),
        }
    }
}

impl<M: EvolutionModel + Default> SimAlg<M> for AdaptiveGeneticAlgorithm<M> {
    fn params(r: &RunSpec) -> AdaptiveGeneticAlgorithmParameters {
        AdaptiveGeneticAlgorithmParameters {
            population_size: r.pop.max(0) as usize,
            elitism_rate: real(r.elit),
            crossover_rate_range: real(r.cx)..real(r.cx2),
            mutation_rate_range: real(r.mu)..real(r.mu2),
            selection_strategy: strategy(r),
            parameter_adjustment_interval: r.interval.max(0) as usize,
        }
    }
}

impl<M: EvolutionModel + Default> SimAlg<M> for TraitAlg<M> {
    fn params(r: &RunSpec) -> TraitParams {
        TraitParams { spec: r.clone() }
    }
}
