//! The bundled OneMax model, user-written algorithms, common partitions.
use crate::evo::last_panic;
use crate::model::SimAlg;
use crate::scn::{RunSpec, Scn};
use crate::world::{self, count, ctr, viol, viol_any, Injected};
use object_pool::Pool;
use rand::{Error, Rng, RngCore};
use rusty_genes::one_max::*;
use rusty_genes::*;
use simcore::{hash2, no_preempt, Prng};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

// ------------------------------------------------------------------ OneMax

type Bits = (Vec<bool>, f64);

/// Whether `x` can have been bred from `prev`: at most one gene away from one parent or a single-point crossover of
/// two, and not worse than its parents.
fn bred_from(x: &Bits, prev: &[Bits], cross: bool, mutate: bool) -> bool {
    let n = x.0.len();
    let most = mutate as usize;
    // mismatches before / from each point on
    let pre: Vec<Vec<usize>> = prev
        .iter()
        .map(|p| {
            let mut v = vec![0];
            for i in 0..n {
                v.push(v[i] + (p.0[i] != x.0[i]) as usize);
            }
            v
        })
        .collect();
    for (a, p) in prev.iter().enumerate() {
        if p.1 > x.1 {
            continue;
        }
        if pre[a][n] <= most {
            return true;
        }
        if !cross {
            continue;
        }
        for (b, q) in prev.iter().enumerate() {
            if q.1 > x.1 {
                continue;
            }
            if (0..=n).any(|k| pre[a][k] + pre[b][n] - pre[b][k] <= most) {
                return true;
            }
        }
    }
    false
}

fn bits_run<A: SimAlg<OneMaxEvolutionModel>>(evo: &Evolution<A, OneMaxEvolutionModel>, scn: &Scn, run: usize, firsts: &mut BTreeSet<Vec<bool>>) {
    let s: RunSpec = scn.runs[run].clone();
    let len = s.glen.max(1) as usize;
    let pop = s.pop.max(1) as usize;
    let mut p = Prng::stream(s.dseed as u64, 61);
    let params = A::params(&s);
    let given: Vec<Vec<bool>> = match s.entry {
        2 => (0..s.given.max(1)).map(|_| (0..len).map(|_| p.chance(0.5)).collect()).collect(),
        1 => vec![(0..len).map(|_| p.chance(0.5)).collect()],
        _ => vec![],
    };
    let solve = s.hook == 1;
    let mut prev: Vec<Bits> = vec![];
    let mut best = f64::NEG_INFINITY;
    let mut gen = 0usize;
    let mut ended = false;
    let here = format!("OneMax run {run}");
    let score = |g: &[bool]| g.iter().filter(|&&b| b).count() as f64 / g.len() as f64;
    let adaptive = scn.h.alg == 1;
    let (cross, mutate) = if adaptive { (s.cx > 0 || s.cx2 > 0, s.mu > 0 || s.mu2 > 0) } else { (s.cx > 0, s.mu > 0) };
    let progress = |q: &Population<OneMax>| -> bool {
        simcore::yield_point(true);
        let _q = no_preempt();
        count(ctr::BITSTRINGS, 1);
        let now: Vec<Bits> = q.iter().map(|i| (i.genome().to_vec(), i.fitness())).collect();
        if ended {
            viol(&[8, 27], format!("{here}: progress was called after it had returned false"));
        }
        if q.generation() != gen {
            viol(&[8, 27], format!("{here}: generation {} instead of {gen}", q.generation()));
        }
        for (g, f) in &now {
            if g.len() != len {
                viol(&[27], format!("{here} generation {gen}: a genome of {} bits instead of {len}", g.len()));
                return false;
            }
            if *f != score(g) {
                viol(&[27, 3], format!("{here} generation {gen}: fitness {f} for {g:?}"));
            }
        }
        let fits: Vec<f64> = now.iter().map(|x| x.1).collect();
        world::check_shape(&[27, 1], &here, &fits, q.stats(), q.fittest().fitness(), &|a, b| now[a].0 == now[b].0);
        let top = fits.last().copied().unwrap_or(0.0);
        if gen == 0 {
            match s.entry {
                0 => {
                    if now.len() > pop || (len >= 64 && now.len() != pop) {
                        viol(&[27, 13, 21], format!("{here}: {} different random individuals of {len} bits instead of {pop}", now.len()));
                    }
                    if len >= 64 {
                        for (g, _) in &now {
                            if !firsts.insert(g.clone()) {
                                viol(&[27, 13], format!("{here}: a random individual was created again"));
                            }
                        }
                        let n = (len * now.len()) as f64;
                        let ones: f64 = fits.iter().map(|f| f * len as f64).sum();
                        if (ones - n / 2.0).abs() > 7.0 * (n / 4.0).sqrt() {
                            viol(&[27], format!("{here}: {ones} of {n} random bits are set"));
                        }
                        // no dependence between genes at any distance (a binomial number of agreements) ...
                        for lag in (1..len).filter(|l| len < 5000 || l % 64 == 0 && *l < 20_000 || *l < 70) {
                            let m = ((len - lag) * now.len()) as f64;
                            let agree: usize = now.iter().map(|x| (lag..len).filter(|&i| x.0[i] == x.0[i - lag]).count()).sum();
                            if (agree as f64 - m / 2.0).abs() > 8.0 * (m / 4.0).sqrt() {
                                viol(&[27], format!("{here}: {agree} of {m} random bits equal the one {lag} places before"));
                            }
                        }
                        // ... nor between individuals
                        for (i, (g, _)) in now.iter().enumerate() {
                            for (h, _) in &now[..i.min(40)] {
                                let agree = g.iter().zip(h).filter(|(a, b)| a == b).count() as f64;
                                if (agree - len as f64 / 2.0).abs() > 8.0 * (len as f64 / 4.0).sqrt() {
                                    viol(&[27], format!("{here}: two random individuals agree in {agree} of {len} bits"));
                                }
                            }
                        }
                        // and of each position
                        if now.len() >= 60 {
                            for i in 0..len {
                                let c = now.iter().filter(|x| x.0[i]).count();
                                if c == 0 || c == now.len() {
                                    viol(&[27], format!("{here}: bit {i} is the same in {} random individuals", now.len()));
                                }
                            }
                        }
                    }
                }
                1 => {
                    if !now.iter().any(|x| x.0 == given[0]) {
                        viol(&[27, 21], format!("{here}: the given individual is not in the initial population"));
                    }
                    if now.len() > pop || now.iter().any(|x| x.0.iter().zip(&given[0]).filter(|(a, b)| a != b).count() > 1) {
                        viol(&[27, 21], format!("{here}: the initial population is not made of mutations of the given individual"));
                    }
                }
                _ => {
                    let a: BTreeSet<&Vec<bool>> = given.iter().collect();
                    let b: BTreeSet<&Vec<bool>> = now.iter().map(|x| &x.0).collect();
                    if a != b {
                        viol(&[27, 21], format!("{here}: the initial population is not the given one"));
                    }
                }
            }
        } else {
            if now.len() > pop.max(1) {
                viol(&[27, 2], format!("{here} generation {gen}: {} individuals, more than {pop}", now.len()));
            }
            if now.len() * prev.len() * prev.len() * len < 3_000_000 {
                for x in &now {
                    if !prev.iter().any(|y| y.0 == x.0) && !bred_from(x, &prev, cross, mutate) {
                        viol(&[27, 7], format!("{here} generation {gen}: {:?} (fitness {}) cannot have been bred from {prev:?}", x.0, x.1));
                    }
                }
            }
            if (pop as f64 * crate::scn::real(s.elit)) as usize >= 1 && top < best {
                viol(&[27, 5], format!("{here} generation {gen}: the best fitness dropped from {best} to {top} in spite of elites"));
            }
        }
        best = best.max(top);
        prev = now;
        let go = top < 1.0 && gen < s.gens as usize;
        gen += 1;
        ended = !go;
        go
    };
    let mut one = None;
    let r = catch_unwind(AssertUnwindSafe(|| match s.entry {
        0 => one = Some(evo.run(&len, &params, progress)),
        1 => one = Some(evo.evolve_individual(given[0].clone().into(), &params, progress)),
        _ => {
            evo.evolve_population(given.iter().map(|g| g.clone().into()).collect(), &params, progress);
        }
    }));
    let _q = no_preempt();
    count(ctr::RUNS, 1);
    if r.is_err() {
        viol_any(&[27, 12], format!("{here}: panicked by itself in generation {gen}: {}", last_panic()));
    }
    if !ended {
        viol(&[27, 8], format!("{here}: returned although progress never returned false"));
    }
    if let Some(x) = one {
        if x.fitness() != best || x.fitness() != score(x.genome()) {
            viol(&[27, 6], format!("{here}: returned fitness {} although {best} was found", x.fitness()));
        }
    }
    if solve && best < 1.0 {
        viol(&[27], format!("{here}: {len} bits not solved in {gen} generations (best {best})"));
    }
    simcore::log(hash2(gen as u64, best.to_bits()));
}

fn bits_all<A: SimAlg<OneMaxEvolutionModel>>(scn: &Scn) {
    let evo: Evolution<A, OneMaxEvolutionModel> = if scn.h.dflt != 0 { Evolution::default() } else { A::build_evolution(OneMaxEvolutionModel) };
    let mut firsts = BTreeSet::new();
    for k in 0..scn.runs.len() {
        bits_run::<A>(&evo, scn, k, &mut firsts);
    }
}

pub fn one_max(scn: &Scn) {
    if scn.h.alg == 1 {
        bits_all::<AdaptiveGeneticAlgorithm<OneMaxEvolutionModel>>(scn)
    } else {
        bits_all::<GeneticAlgorithm<OneMaxEvolutionModel>>(scn)
    }
}

// ------------------------------------------------------------------ common partitions

pub fn partitions(scn: &Scn) {
    use rayon::prelude::*;
    (0..scn.h.count.max(1) as usize).into_par_iter().for_each(|k| {
        simcore::yield_point(true);
        let mut p = Prng::stream(hash2(scn.h.seed as u64, k as u64), 62);
        let (mut a, mut b) = {
            let _q = no_preempt();
            let n = 3 + p.below(scn.h.size.max(1) as u64) as usize;
            let base = p.below(60_000) as u16;
            let mut a: Vec<u16> = (0..n as u16).map(|i| base.wrapping_add(i.wrapping_mul(7))).collect();
            shuffle(&mut p, &mut a);
            let b = crate::labs::relative(&mut p, &a, true);
            (a, b)
        };
        compare(&a, &b);
        for _ in 0..p.below(4) {
            {
                let _q = no_preempt();
                crate::labs::next_pair(&mut p, &mut a, &mut b);
            }
            compare(&a, &b);
        }
    });
}

fn compare(a: &[u16], b: &[u16]) {
    let c = common_neighbors(a, b);
    let t = common_partitions(a, b);
    let _q = no_preempt();
    count(ctr::OPCHECKS, 1);
    let edges = |g: &[u16]| -> BTreeSet<(u16, u16)> {
        (0..g.len())
            .map(|i| {
                let (x, y) = (g[i], g[(i + 1) % g.len()]);
                (x.min(y), x.max(y))
            })
            .collect()
    };
    let both: BTreeSet<(u16, u16)> = edges(a).intersection(&edges(b)).copied().collect();
    let got: BTreeSet<(u16, u16)> = c.iter().map(|&(x, y)| (x.min(y), x.max(y))).collect();
    if got != both || c.len() != both.len() {
        viol(&[25], format!("common neighbours of {a:?} and {b:?}: {c:?}, not {both:?}"));
    }
    let mut all: Vec<u16> = t.iter().flatten().copied().collect();
    all.sort();
    let mut genes = a.to_vec();
    genes.sort();
    if all != genes {
        viol(&[25], format!("partitions of {a:?} and {b:?} do not hold each gene once: {t:?}"));
    }
    let mut used: BTreeSet<u16> = BTreeSet::new();
    for part in &t {
        if part.is_empty() {
            viol(&[25], format!("an empty partition of {a:?} and {b:?}: {t:?}"));
            continue;
        }
        for w in part.windows(2) {
            if !both.contains(&(w[0].min(w[1]), w[0].max(w[1]))) {
                viol(&[25], format!("{w:?} in a partition of {a:?} and {b:?} are not common neighbours"));
            }
        }
        used.extend(part);
        let end = *part.last().unwrap();
        if let Some(e) = both.iter().find(|e| (e.0 == end && !used.contains(&e.1)) || (e.1 == end && !used.contains(&e.0))) {
            viol(&[25], format!("partition {part:?} of {a:?} and {b:?} ends before its common neighbours {e:?} are together"));
        }
    }
}

fn shuffle<T>(p: &mut Prng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, p.below(i as u64 + 1) as usize);
    }
}

// ------------------------------------------------------------------ user-written algorithms

#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    Start,
    Extended,
    Configured,
    Initialized,
    Asked, // progress said yes
    Prepared,
    Elites,
    Bred,
    Replaced,
    Stopped,
}

struct Proto {
    run: i64,
    magic: u64,
    entry: i64,
    size: usize,
    step: Step,
    ids: Vec<u64>,      // what the vector handed over must hold
    population: Vec<u64>,
    generation: usize,
    next: u64,
    calls: u64,
    strike: u64,
    struck: bool,
    given: u64,
    prng: Prng,
    best: f64,
    progressed: u64,
}

static mut PROTO: Option<Box<Proto>> = None;

#[allow(static_mut_refs)]
fn proto() -> &'static mut Proto {
    unsafe { PROTO.as_mut().expect("proto") }
}

fn wrong(m: String) {
    let p = proto();
    viol(&[30], format!("run {} generation {} after {:?}: {m}", p.run, p.generation, p.step));
}

/// A method of user code is called: possibly it panics.
fn called() {
    simcore::yield_point(true);
    let hit = {
        let _q = no_preempt();
        count(ctr::PROTOCOL, 1);
        let p = proto();
        p.calls += 1;
        simcore::log(hash2(p.step as u64, p.calls));
        p.struck |= p.calls == p.strike;
        p.calls == p.strike
    };
    if hit {
        count(ctr::PANICKED, 1);
        resume_unwind(Box::new(Injected));
    }
}

#[derive(Debug)]
pub struct PInd {
    id: u64,
    fit: f64,
}

impl Clone for PInd {
    fn clone(&self) -> Self {
        PInd { id: self.id, fit: self.fit }
    }
}
impl PartialEq for PInd {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl Individual for PInd {
    fn fitness(&self) -> f64 {
        self.fit
    }
}
impl RandomIndividual<u64> for PInd {
    fn new_random<R: Rng>(_: &u64, _: &mut R) -> Self {
        let _q = no_preempt();
        wrong("a random individual was created although the model creates populations itself".into());
        fresh()
    }
}

fn fresh() -> PInd {
    let p = proto();
    p.next += 1;
    PInd { id: p.next, fit: p.prng.below(50) as f64 }
}

pub struct PRng {
    run: i64,
    x: u64,
}
impl RngCore for PRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.x = hash2(self.x, 1);
        self.x
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.fill(7)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        d.fill(7);
        Ok(())
    }
}

#[derive(Default)]
pub struct PModel;

impl EvolutionModel for PModel {
    type Individual = PInd;
    type Rng = PRng;
    fn rng() -> PRng {
        let _q = no_preempt();
        let p = proto();
        PRng { run: p.run, x: p.prng.next() }
    }
    fn crossover(&self, a: &PInd, _: &PInd, _: &mut PRng) -> PInd {
        wrong("crossover called although the algorithm breeds by itself".into());
        a.clone()
    }
    fn mutate(&self, _: &mut PInd, _: &mut PRng) {
        wrong("mutate called although the model and the algorithm do without".into());
    }
    fn evaluate(&self, _: &mut PInd) {
        wrong("evaluate called although the algorithm initializes by itself".into());
    }
    fn extend_population<T>(&self, v: &mut Vec<PInd>, size: usize, args: &T)
    where
        T: Sync,
        PInd: RandomIndividual<T>,
    {
        called();
        let _q = no_preempt();
        let p = proto();
        let a = unsafe { *(args as *const T as *const u64) };
        if p.entry != 0 || a != p.magic {
            wrong("extend_population called with other arguments, or in a run with given individuals".into());
        }
        extend(v, size)
    }
    fn extend_population_with(&self, v: &mut Vec<PInd>, size: usize, model: PInd) {
        called();
        let _q = no_preempt();
        let p = proto();
        if p.entry != 1 || model.id != p.given {
            wrong("extend_population_with called with another individual, or in another kind of run".into());
        }
        extend(v, size)
    }
}

fn extend(v: &mut Vec<PInd>, size: usize) {
    let p = proto();
    if !matches!(p.step, Step::Start | Step::Configured) || !p.ids.is_empty() {
        wrong("the initial population is created again".into());
    }
    if size != p.size {
        wrong(format!("{size} individuals requested instead of {}", p.size));
    }
    if !v.is_empty() {
        wrong("the initial population is extended from something".into());
    }
    for _ in 0..1 + p.prng.below(size.max(1) as u64) {
        v.push(fresh());
    }
    p.ids = v.iter().map(|i| i.id).collect();
    if p.step == Step::Start {
        p.step = Step::Extended;
    }
}

pub struct PParams {
    magic: u64,
    initial: usize,
    max: usize,
}
impl EvolutionParameters for PParams {
    fn initial_population_size(&self) -> usize {
        self.initial
    }
    fn max_population_size(&self) -> usize {
        self.max
    }
    fn validate(&self) {}
}

#[derive(Default)]
pub struct PAlg {
    model: PModel,
    par: ReproductionParameters<PModel>,
}

impl From<PModel> for PAlg {
    fn from(model: PModel) -> Self {
        PAlg { model, par: Default::default() }
    }
}

fn ids(v: &[PInd]) -> Vec<u64> {
    v.iter().map(|i| i.id).collect()
}

fn expect(at: Step, pop: &Population<PInd>, what: &str) {
    let p = proto();
    if p.step != at {
        wrong(format!("{what} called"));
    }
    if ids(pop) != p.population {
        wrong(format!("{what} got another population than progress"));
    }
}

impl EvolutionAlgorithm<PModel> for PAlg {
    type Parameters = PParams;
    fn model(&self) -> &PModel {
        &self.model
    }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<PModel>, usize) {
        (&self.par, 3)
    }
    fn configure(&mut self, q: &PParams) {
        called();
        let _q = no_preempt();
        let p = proto();
        if !matches!(p.step, Step::Start | Step::Extended) {
            wrong("configured again".into());
        }
        if q.magic != p.magic {
            wrong("configured with other parameters".into());
        }
        p.step = Step::Configured;
    }
    fn initialize_population(&self, v: Vec<PInd>) -> Population<PInd> {
        called();
        let _q = no_preempt();
        let p = proto();
        if p.step != Step::Configured {
            wrong("initialize_population called".into());
        }
        let mut a = ids(&v);
        let mut b = p.ids.clone();
        a.sort();
        b.sort();
        if a != b || v.is_empty() {
            wrong(format!("initialize_population got {:?} instead of {:?}", ids(&v), p.ids));
        }
        let mut v = v;
        v.retain(|i| i.id % 5 != 0);
        if v.is_empty() {
            v.push(fresh());
        }
        let q = Population::new(v);
        p.population = ids(&q);
        p.step = Step::Initialized;
        q
    }
    fn prepare_for_next_population(&mut self, q: &Population<PInd>) {
        called();
        let _q = no_preempt();
        expect(Step::Asked, q, "prepare_for_next_population");
        proto().step = Step::Prepared;
    }
    fn select_elites(&self, q: &Population<PInd>, v: &mut Vec<PInd>) {
        called();
        let _q = no_preempt();
        expect(Step::Prepared, q, "select_elites");
        let p = proto();
        if !v.is_empty() {
            wrong(format!("select_elites got {:?} to add to", ids(v)));
            v.clear();
        }
        let k = p.prng.below(q.len() as u64 + 1) as usize;
        v.extend(q.iter().rev().take(k).cloned());
        p.ids = ids(v);
        p.step = Step::Elites;
    }
    fn generate_new_population(&self, q: &Population<PInd>, v: &mut Vec<PInd>, pool: &Pool<PRng>) {
        called();
        let n = {
            let _q = no_preempt();
            expect(Step::Elites, q, "generate_new_population");
            let p = proto();
            if ids(v) != p.ids {
                wrong(format!("generate_new_population got {:?} instead of the elites {:?}", ids(v), p.ids));
            }
            p.prng.below(5)
        };
        let run = |_: u64| {
            let mut g = pool.pull(PModel::rng);
            let _q = no_preempt();
            if g.run != proto().run {
                wrong(format!("the pool holds a generator of run {}", g.run));
            }
            g.next_u64()
        };
        rayon::join(|| run(0), || run(1));
        let _q = no_preempt();
        let p = proto();
        for _ in 0..n {
            v.push(fresh());
        }
        p.ids = ids(v);
        p.step = Step::Bred;
    }
    fn replace_population(&self, q: &mut Population<PInd>, v: &mut Vec<PInd>) {
        called();
        let _q = no_preempt();
        expect(Step::Bred, q, "replace_population");
        let p = proto();
        if ids(v) != p.ids {
            wrong(format!("replace_population got {:?} instead of {:?}", ids(v), p.ids));
        }
        match p.prng.below(4) {
            0 => {} // keeps the population, leaves the offspring where it is
            1 if v.len() > 1 => {
                let mut half = v.split_off(v.len() / 2);
                q.replace(&mut half);
                p.generation += 1;
            }
            _ if !v.is_empty() => {
                q.replace(v);
                p.generation += 1;
            }
            _ => {}
        }
        p.population = ids(q);
        p.step = Step::Replaced;
    }
}

pub fn protocol(scn: &Scn) {
    let evo = if scn.h.dflt != 0 { Evolution::<PAlg, PModel>::default() } else { PAlg::build_evolution(PModel) };
    for (k, s) in scn.runs.iter().enumerate() {
        let (given, params) = {
            let _q = no_preempt();
            let next = unsafe {
                #[allow(static_mut_refs)]
                PROTO.as_ref().map(|p| p.next).unwrap_or(0)
            };
            unsafe {
                PROTO = Some(Box::new(Proto {
                    run: k as i64,
                    magic: s.rseed as u64,
                    entry: s.entry,
                    size: s.pop.max(0) as usize,
                    step: Step::Start,
                    ids: vec![],
                    population: vec![],
                    generation: 0,
                    next,
                    calls: 0,
                    strike: s.hook.max(0) as u64,
                    struck: false,
                    given: 0,
                    prng: Prng::stream(s.dseed as u64, 63),
                    best: f64::NEG_INFINITY,
                    progressed: 0,
                }))
            };
            let p = proto();
            let given: Vec<PInd> = (0..if s.entry == 0 { 0 } else if s.entry == 1 { 1 } else { s.given.max(1) }).map(|_| fresh()).collect();
            if s.entry == 1 {
                p.given = given[0].id;
            } else {
                p.ids = ids(&given);
            }
            (given, PParams { magic: p.magic, initial: p.size, max: s.pop0.max(0) as usize })
        };
        let gens = s.gens.max(0) as u64;
        let progress = |q: &Population<PInd>| -> bool {
            called();
            let _q = no_preempt();
            let p = proto();
            if !matches!(p.step, Step::Initialized | Step::Replaced) {
                wrong("progress called".into());
            }
            if ids(q) != p.population || q.generation() != p.generation {
                wrong(format!("progress got {:?} (generation {}) instead of {:?}", ids(q), q.generation(), p.population));
            }
            p.best = p.best.max(q.fittest().fit);
            p.progressed += 1;
            p.step = if p.progressed > gens { Step::Stopped } else { Step::Asked };
            p.step == Step::Asked
        };
        let magic = params.magic;
        let mut given = given;
        let r = catch_unwind(AssertUnwindSafe(|| match s.entry {
            0 => (Some(evo.run(&magic, &params, progress)), None),
            1 => (Some(evo.evolve_individual(given.pop().unwrap(), &params, progress)), None),
            _ => (None, Some(evo.evolve_population(given, &params, progress))),
        }));
        let _q = no_preempt();
        count(ctr::RUNS, 1);
        let p = proto();
        match r {
            Err(e) => {
                if e.downcast_ref::<Injected>().is_none() {
                    viol_any(&[30, 12], format!("run {k} after {:?}: panicked by itself: {}", p.step, last_panic()));
                } else if !p.struck {
                    wrong("an injected panic came back although none struck".into());
                }
            }
            Ok((one, many)) => {
                if p.struck {
                    wrong("user code panicked but the run returned normally".into());
                }
                if p.step != Step::Stopped {
                    wrong("returned".into());
                }
                if let Some(x) = one {
                    if x.fit != p.best {
                        viol(&[30, 6], format!("run {k}: returned fitness {} although {} was found", x.fit, p.best));
                    }
                }
                if let Some(q) = many {
                    if ids(&q) != p.population {
                        wrong("another population was returned than progress saw last".into());
                    }
                }
            }
        }
    }
}
