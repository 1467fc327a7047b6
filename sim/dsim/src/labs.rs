//! Parts of the library driven directly on simulated workers: populations, selectors, extension, operators.
use crate::model::*;
use crate::ops;
use crate::scn::{real, Scn};
use crate::world::{self, check_shape, count, ctr, key, viol, viol_any, world, Injected, Origin};
use rayon::prelude::*;
use rusty_genes::*;
use simcore::{hash2, no_preempt, Prng};
use std::cell::Cell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Ind = IndD<0>;
type R0 = TestRng<0>;

/// Library code that must not panic.
fn calm<T>(tags: &[u32], what: &str, f: impl FnOnce() -> T) -> T {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => x,
        Err(e) => {
            let _q = no_preempt();
            if e.downcast_ref::<Injected>().is_none() {
                viol_any(tags, format!("{what} panicked: {}", crate::evo::last_panic()));
            }
            std::panic::resume_unwind(e)
        }
    }
}

// ------------------------------------------------------------------ populations

/// Individuals with genomes from a small pool; equal individuals have equal fitness.
fn batch(p: &mut Prng, n: usize, style: u64, eqfit: bool, shift: f64) -> Vec<Ind> {
    let pool = match p.below(4) {
        0 => 1 + p.below(3),
        1 => 1 + n as u64 / 2,
        2 => 2 * n as u64 + 1,
        _ => 10 * n as u64 + 10,
    };
    let v: Vec<Ind> = (0..n)
        .map(|_| {
            let x = p.below(pool);
            let g = vec![x as u16, (x >> 16) as u16, style as u16];
            let h = hash2(x, style);
            let u = (h >> 11) as f64 / (1u64 << 53) as f64;
            let h2 = if eqfit { p.next() } else { h };
            let fit = shift
                + match style % 11 {
                    0 => 0.0,
                    1 => (h2 % 2) as f64,
                    2 => (h2 % 5) as f64,
                    3 => -((h2 % 7) as f64) - 1.0,
                    4 => (if h & 1 == 0 { 1.0 } else { -1.0 }) * 10f64.powi((u * 200.0) as i32 - 100),
                    5 => 1e6 + u,
                    6 => x as f64,
                    8 => 1e9 + (h2 % 4) as f64,
                    9 => 1e15 + (u * 100.0).floor(),
                    10 => u * 1e-20,
                    _ => u,
                };
            IndD { c: Core::new(u32::MAX, g, fit, false) }
        })
        .collect();
    match p.below(4) {
        // already ordered input
        0 => {
            let mut v = v;
            v.sort_by(|a, b| a.c.fit.partial_cmp(&b.c.fit).unwrap());
            v
        }
        1 => {
            let mut v = v;
            v.sort_by(|a, b| b.c.fit.partial_cmp(&a.c.fit).unwrap());
            v
        }
        _ => v,
    }
}

fn keys(v: &[Ind], eqfit: bool) -> Vec<u64> {
    v.iter().map(|i| hash2(key(world::ghash(&i.c.g), i.c.fit, eqfit), i.c.fit.to_bits())).collect()
}

fn examine(here: &str, pop: &Population<Ind>, want: &BTreeSet<u64>, eqfit: bool) {
    let fits: Vec<f64> = pop.iter().map(|i| i.c.fit).collect();
    let eq = |a: usize, b: usize| pop[a].c.g == pop[b].c.g && (!eqfit || pop[a].c.fit == pop[b].c.fit);
    let fittest = if pop.is_empty() { f64::NAN } else { pop.fittest().c.fit };
    check_shape(&[1], here, &fits, pop.stats(), fittest, &eq);
    let have: BTreeSet<u64> = keys(pop, eqfit).into_iter().collect();
    if let Some(_x) = want.difference(&have).next() {
        viol(&[1], format!("{here}: {} of {} distinct individuals were lost", want.difference(&have).count(), want.len()));
    }
    if have.difference(want).next().is_some() {
        viol(&[1], format!("{here}: holds an individual that was not given"));
    }
    if !pop.is_empty() && !pop.iter().any(|x| std::ptr::eq(x, pop.fittest())) {
        viol(&[9], format!("{here}: fittest() is not one of the individuals"));
    }
}

pub fn populations(scn: &Scn) {
    let mut p = Prng::stream(scn.h.seed as u64, 31);
    let eqfit = p.chance(0.4);
    let style = p.below(11);
    {
        let _q = no_preempt();
        world(0).spec.eqfit = eqfit as i64;
    }
    let n = scn.h.size.max(1) as usize;
    let (first, want) = {
        let _q = no_preempt();
        let v = batch(&mut p, n, style, eqfit, 0.0);
        let k: BTreeSet<u64> = keys(&v, eqfit).into_iter().collect();
        (v, k)
    };
    let use_try = p.chance(0.5);
    let mut pop = calm(&[1, 12], "building a population", || {
        if use_try {
            match Population::try_from(first) {
                Ok(p) => p,
                Err(_) => panic!("TryFrom refused a non-empty vector"),
            }
        } else {
            Population::new(first)
        }
    });
    let mut stagnation = 0;
    {
        let _q = no_preempt();
        examine("new population", &pop, &want, eqfit);
        if pop.generation() != 0 || pop.stagnation() != 0 {
            viol(&[8], format!("a new population has generation {} and stagnation {}", pop.generation(), pop.stagnation()));
        }
    }
    let mut shift = 0.0;
    for k in 0..scn.h.count.max(0) {
        let here = format!("update {}", k + 1);
        let (mut v, want, old, best) = {
            let _q = no_preempt();
            // better, equal, worse
            shift += [0.0, 0.0, 1.0, -1.0, 0.25][p.below(5) as usize] * if style == 10 { 1e-20 } else { 1.0 };
            let m = if p.chance(0.5) { n } else { 1 + p.below(2 * n as u64) as usize };
            let v = if p.chance(0.2) {
                // the same individuals again, twice
                pop.iter().chain(pop.iter()).cloned().collect()
            } else {
                batch(&mut p, m, style, eqfit, shift)
            };
            let w: BTreeSet<u64> = keys(&v, eqfit).into_iter().collect();
            (v, w, keys(&pop, eqfit), pop.iter().map(|i| i.c.fit).fold(f64::NEG_INFINITY, f64::max))
        };
        calm(&[1, 12], "updating a population", || pop.replace(&mut v));
        let _q = no_preempt();
        count(ctr::UPDATES, 1);
        examine(&here, &pop, &want, eqfit);
        let mut back = keys(&v, eqfit);
        let mut o = old;
        back.sort_unstable();
        o.sort_unstable();
        if back != o {
            viol(&[1], format!("{here}: the vector does not hold the previous population ({} individuals, {} expected)", v.len(), o.len()));
        }
        let now = pop.iter().map(|i| i.c.fit).fold(f64::NEG_INFINITY, f64::max);
        if now > best {
            stagnation = 0
        } else {
            stagnation += 1
        }
        if pop.generation() as i64 != k + 1 {
            viol(&[8], format!("{here}: generation() is {}", pop.generation()));
        }
        if pop.stagnation() != stagnation {
            viol(&[8], format!("{here}: stagnation() is {}, {stagnation} expected", pop.stagnation()));
        }
    }
    let _q = no_preempt();
    let k = keys(&pop, eqfit);
    let best = pop.iter().map(|i| i.c.fit).fold(f64::NEG_INFINITY, f64::max);
    if p.chance(0.5) {
        let v: Vec<Ind> = pop.into();
        if keys(&v, eqfit) != k {
            viol(&[1], "a population turned into a vector has other individuals".into());
        }
        if Population::try_from(Vec::<Ind>::new()).is_ok() {
            viol(&[1], "TryFrom accepted an empty vector".into());
        }
    } else {
        let f = pop.take_fittest();
        if f.c.fit != best || !k.contains(&keys(std::slice::from_ref(&f), eqfit)[0]) {
            viol(&[9], format!("take_fittest() gave fitness {}, the best is {best}", f.c.fit));
        }
    }
}

// ------------------------------------------------------------------ selection

pub fn expected(s: &crate::scn::RunSpec, fits: &[f64], prepared: i64) -> Option<Vec<f64>> {
    let n = fits.len();
    let nf = n as f64;
    Some(match s.sel {
        0 => {
            let k = (s.selp / 1_000_000) as f64;
            (0..n).map(|i| ((i as f64 + 1.0) / nf).powf(k) - (i as f64 / nf).powf(k)).collect()
        }
        1 => {
            let t: f64 = fits.iter().sum();
            if !(t > 0.0) || fits.iter().any(|f| *f < 0.0) {
                return None;
            }
            fits.iter().map(|f| f / t).collect()
        }
        2 => (0..n).map(|i| (i as f64 + 1.0) / (nf * (nf + 1.0) / 2.0)).collect(),
        3 => {
            let b = real(s.selp);
            if b > 2.0 {
                return None;
            }
            // P(position from the top < t * n) = b t - (b - 1) t^2
            let c = |t: f64| b * t - (b - 1.0) * t * t;
            (0..n)
                .map(|i| {
                    let d = (n - 1 - i) as f64;
                    c((d + 1.0) / nf) - c(d / nf)
                })
                .collect()
        }
        4 => {
            let x = nf * real(s.selp);
            // the boundary position is decided by rounding when the product is (nearly) integral
            if (x - x.round()).abs() < 1e-6 && x.round() != x.floor() {
                return None;
            }
            let lo = x.floor() as usize;
            (0..n).map(|i| if i < lo { 0.0 } else { 1.0 / (n - lo) as f64 }).collect()
        }
        _ => {
            let mut t = real(s.selp);
            for _ in 0..prepared {
                t *= real(s.selp2);
            }
            let max = fits.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            if t < 1e-290 {
                // frozen: only the fittest; among ties any
                return None;
            }
            let e: Vec<f64> = fits.iter().map(|f| ((f - max) / t).exp()).collect();
            let sum: f64 = e.iter().sum();
            e.iter().map(|x| x / sum).collect()
        }
    })
}

fn sel_pop(p: &mut Prng, n: usize, sel: i64, style: u64, scale: f64) -> Vec<Ind> {
    (0..n)
        .map(|i| {
            let u = p.f64();
            let fit = match style % 9 {
                0 => 1.0 + i as f64,
                1 => u + 0.01,
                2 => (u * 3.0).floor(), // ties, zeros
                3 => u * u * u * 1000.0,
                4 if sel != 1 => -1000.0 * u,
                5 if sel != 1 => 1e5 * (u - 0.5),
                6 if i > 0 => u * 1e-3,
                8 => 100.0 + u, // nearly the same
                _ => u * 700.0 + 0.5,
            };
            IndD { c: Core::new(u32::MAX, vec![i as u16, (i >> 16) as u16], fit * scale, false) }
        })
        .collect()
}

/// Selects given positions, and counts.
struct Lottery(Cell<usize>, Cell<u64>);

unsafe impl Sync for Lottery {}

impl SelectionMechanism<Ind, R0> for Lottery {
    fn prepare(&mut self, _: &Population<Ind>) {}
    fn select<'a>(&self, pop: &'a Population<Ind>, _: &mut R0) -> (usize, &'a Ind) {
        let k = self.0.replace(self.0.get() + 1);
        let i = hash2(self.1.get(), k as u64) as usize % pop.len().min(3);
        (i, &pop[i])
    }
}

pub fn selection(scn: &Scn) {
    let s = scn.runs[0].clone();
    let mut p = Prng::stream(scn.h.seed as u64, 32);
    let n = scn.h.size.max(1) as usize;
    {
        let _q = no_preempt();
        world(0).spec.eqfit = 0;
    }
    let style = p.below(9);
    let (a, b) = {
        let _q = no_preempt();
        let m = 1 + p.below(2 * n as u64) as usize;
        let scale = if p.chance(0.6) { 1.0 } else { [1e-9, 1e-4, 1e-2, 1e3, 1e9][p.below(5) as usize] };
        (sel_pop(&mut p, n, s.sel, style, scale), sel_pop(&mut p, m, s.sel, style + 1, scale))
    };
    let mut pop = Population::new(a);
    let other = Population::new(b);
    // not the first generation, and without improvement for some time
    if p.chance(0.3) {
        for _ in 0..1 + p.below(20) {
            let mut again = { let _q = no_preempt(); pop.to_vec() };
            calm(&[1, 12], "updating a population", || pop.replace(&mut again));
        }
    }
    let mut selector: Box<dyn SelectionMechanism<Ind, R0>> = selection_of(&s, Some(&other));
    let times = scn.h.count.max(1);
    calm(&[17, 12], "preparing a selector", || {
        for k in 0..times {
            if (times - k) % 2 == 0 && k + 1 != times {
                selector.prepare(&other)
            } else {
                selector.prepare(&pop)
            }
        }
    });
    if s.sel == 5 {
        // the same, looked at from outside
        let (t0, c0) = (real(s.selp), real(s.selp2));
        let t = calm(&[17, 12], "preparing a selector", || {
            let mut b = BoltzmannSelection::new(t0, c0);
            for _ in 0..times {
                SelectionMechanism::<Ind, R0>::prepare(&mut b, &pop);
            }
            b.temperature()
        });
        let _q = no_preempt();
        let want = (0..times).fold(t0, |t, _| t * c0);
        if !((t - want).abs() <= 1e-9 * want || want < 1e-290 && (0.0..1e-280).contains(&t)) {
            viol(&[17], format!("{:?} has temperature {t:e} after {times} preparations, {want:e} expected", strategy(&s)));
        }
    }
    let fits: Vec<f64> = pop.iter().map(|i| i.c.fit).collect();
    let what = format!("{:?} prepared {times} times, {} individuals", strategy(&s), pop.len());
    let lanes = world(0).workers * 2;
    // enough to see that a typical position is missing
    // and sometimes to see that a slope is a little off
    let total = if n < 40 { if scn.h.seed % 50 == 7 { 160_000 } else { 2400 } } else { (2400 + 60 * n).min(20_000) };
    let selector = &*selector;
    let popr = &pop;
    let whatr = &what;
    let pick = |rng: &mut R0, how: &str| -> usize {
        let (i, x) = calm(&[17, 12], &format!("{whatr}: selection{how}"), || selector.select(popr, rng));
        if i >= popr.len() || !std::ptr::eq(&popr[i], x) {
            let _q = no_preempt();
            viol(&[17], format!("{whatr}: index {i} with an individual that is not at that index"));
        }
        i
    };
    let seed = scn.h.seed as u64;
    let counts: Vec<u64> = (0..lanes)
        .into_par_iter()
        .map(|w| {
            let mut rng = R0::lab(hash2(seed, 50 + w as u64), 0.0);
            let mut c = vec![0u64; popr.len()];
            for _ in 0..total / lanes {
                c[pick(&mut rng, "")] += 1;
            }
            let mut rng = R0::lab(hash2(seed, 90 + w as u64), 0.3);
            for k in 0..60 {
                pick(&mut rng, " with extreme draws");
                let ex = &popr[k % popr.len()];
                let tries = k % 4;
                let r = calm(&[17, 12], &format!("{whatr}: distinct selection"), || selector.select_distinct(popr, &mut rng, tries, ex));
                if let Some((i, x)) = r {
                    let _q = no_preempt();
                    if x.c.g == ex.c.g {
                        viol(&[17], format!("{whatr}: distinct selection returned an individual equal to the excluded one"));
                    }
                    if i >= popr.len() || !std::ptr::eq(&popr[i], x) {
                        viol(&[17], format!("{whatr}: distinct selection gave index {i} with another individual"));
                    }
                }
            }
            c
        })
        .reduce(|| vec![0; popr.len()], |a, b| a.iter().zip(&b).map(|(x, y)| x + y).collect());
    let _q = no_preempt();
    count(ctr::SELCHECKS, (total + 120 * lanes) as u64);
    let nn: f64 = counts.iter().sum::<u64>() as f64;
    count(ctr::SAMPLES, nn as u64);
    let z = 6.5;
    if s.sel == 4 {
        let x = fits.len() as f64 * real(s.selp);
        let lo = (x - 1e-6).floor().max(0.0) as usize;
        if let Some(i) = (0..lo).find(|&i| counts[i] > 0) {
            viol(&[17], format!("{what}: position {i} was selected although only positions from {lo} on may be"));
        }
    }
    if s.sel == 5 && real(s.selp2) < 1.0 {
        let mut t = real(s.selp);
        for _ in 0..times {
            t *= real(s.selp2);
        }
        let max = fits[fits.len() - 1];
        // at a temperature of zero, after underflow, exp(fitness / temperature) is not defined
        if t < 1e-290 && t > 0.0 {
            if let Some(i) = (0..fits.len()).find(|&i| counts[i] > 0 && fits[i] < max) {
                viol(&[17], format!("{what}: position {i} (fitness {} below {max}) was selected at temperature {t:e}", fits[i]));
            }
        }
    }
    // the default way of excluding an individual, for a mechanism that knows nothing but select
    let lottery = Lottery(Cell::new(0), Cell::new(0));
    let mut rng = R0::lab(hash2(seed, 40), if seed % 3 == 0 { 0.25 } else { 0.0 });
    for k in 0..40 {
        lottery.0.set(0);
        lottery.1.set(hash2(seed, 400 + k));
        let ex = &pop[hash2(seed, 300 + k) as usize % pop.len().min(3)];
        let most = k as usize % 5;
        let r = SelectionMechanism::<Ind, R0>::select_distinct(&lottery, &pop, &mut rng, most, ex);
        let tries = lottery.0.get();
        let seen: Vec<usize> = (0..most as u64).map(|t| hash2(hash2(seed, 400 + k), t) as usize % pop.len().min(3)).collect();
        let want = seen.iter().position(|&i| pop[i].c.g != ex.c.g);
        if tries > most || r.map(|x| x.0) != want.map(|t| seen[t]) {
            viol(
                &[17],
                format!("distinct selection with {most} tries picked {:?} after {tries}, candidates {seen:?}", r.map(|x| x.0)),
            );
        }
    }
    if let Some(e) = expected(&s, &fits, times) {
        for i in 0..fits.len() {
            let m = nn * e[i];
            let sd = (m * (1.0 - e[i]).max(0.0)).sqrt();
            if (counts[i] as f64 - m).abs() > z * sd + 4.0 {
                viol(
                    &[17],
                    format!("{what}: position {i} (fitness {}) was selected {} times in {nn}, {m:.1} expected", fits[i], counts[i]),
                );
                break;
            }
        }
        // as many as expected among the least fit ones
        let (mut sum, mut seen) = (0.0, 0.0);
        for i in 0..fits.len() {
            sum += e[i];
            seen += counts[i] as f64;
            let sd = (nn * sum * (1.0 - sum).max(0.0)).sqrt();
            if (seen - nn * sum).abs() > z * sd + 4.0 + 1e-6 * nn {
                viol(&[17], format!("{what}: positions 0 to {i} were selected {seen} times in {nn}, {:.1} expected", nn * sum));
                break;
            }
        }
        // mean position
        let mean: f64 = e.iter().enumerate().map(|(i, p)| i as f64 * p).sum();
        let var: f64 = e.iter().enumerate().map(|(i, p)| (i as f64 - mean).powi(2) * p).sum();
        let got: f64 = counts.iter().enumerate().map(|(i, c)| i as f64 * *c as f64).sum::<f64>() / nn;
        if (got - mean).abs() > z * (var / nn).sqrt() + 4.0 * fits.len() as f64 / nn {
            viol(&[17], format!("{what}: mean position {got:.3}, {mean:.3} expected"));
        }
        count(ctr::ITEMS, 1);
    }
}

// ------------------------------------------------------------------ extension

pub fn extension<M>(scn: &Scn)
where
    M: SimModel<0>,
    M::Individual: SimInd,
{
    let spec = scn.runs[0].clone();
    let model = M::default();
    let mut p = Prng::stream(scn.h.seed as u64, 33);
    let args = Args { magic: hash2(spec.rseed as u64, 0), spec: spec.clone() };
    for k in 0..scn.h.count.max(1) {
        let n = match p.below(6) {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => 1 + p.below(scn.h.size.max(1) as u64) as usize,
        };
        let pre = if p.chance(0.4) { p.below(5) as usize } else { 0 };
        let with = p.chance(0.5);
        let mut v: Vec<M::Individual>;
        let before: Vec<u32>;
        let model_ind;
        {
            let _q = no_preempt();
            let w = world(0);
            w.start(0, &spec);
            w.live_bound = 1 << 40;
            // some not evaluated yet, some alike
            let first = data_genome(&spec, &mut p);
            let h = hash2(scn.h.seed as u64, 500 + k as u64);
            let mut given = |k: u32| {
                let g = if k > 1 && (h >> k) % 4 == 0 { first.clone() } else { data_genome(&spec, &mut p) };
                let fit = if (h >> (8 + k)) % 3 == 0 { f64::NAN } else { STALE };
                let iid = w.add(Origin::Given(k), &g, fit);
                M::Individual::make(Core::new(iid, g, fit, false))
            };
            v = (0..pre).map(|i| given(i as u32 + 1)).collect();
            model_ind = given(0);
            before = v.iter().map(|i| i.core().iid).collect();
        }
        let base = model_ind.core().g.clone();
        let here = format!("item {k}: {} of {n} to a vector of {pre}", if with { "extend_population_with" } else { "extend_population" });
        calm(&[21, 12], &here, || {
            if with {
                model.extend_population_with(&mut v, n, model_ind)
            } else {
                model.extend_population(&mut v, n, &args)
            }
        });
        let _q = no_preempt();
        let w = world(0);
        if v.len() != pre + n {
            viol(&[21], format!("{here}: {} individuals afterwards", v.len()));
        }
        if v.len() < pre || (0..pre).any(|i| v[i].core().iid != before[i] || w.recs[before[i] as usize].mutn != 0) {
            viol(&[21], format!("{here}: the individuals already there were changed"));
        }
        let new = &v[pre.min(v.len())..];
        let ids: BTreeSet<u32> = new.iter().map(|i| i.core().iid).collect();
        if ids.len() != new.len() {
            viol(&[21], format!("{here}: an individual occurs twice"));
        }
        let (mut plain, mut mutated, mut fresh) = (0, 0, 0);
        for i in new {
            let r = &w.recs[i.core().iid as usize];
            match r.origin {
                Origin::Given(0) if r.mutn == 0 && i.core().g == base => plain += 1,
                Origin::Given(0) if r.mutn == 1 => mutated += 1,
                Origin::New if r.mutn == 0 => fresh += 1,
                _ => {}
            }
            if r.imp > 0 || r.ev > 0 {
                viol(&[21], format!("{here}: a new individual was improved or evaluated"));
            }
        }
        let ok = if with { plain == n.min(1) && mutated == n.saturating_sub(1) && fresh == 0 } else { fresh == n && plain + mutated == 0 };
        if !ok {
            viol(&[21], format!("{here}: {fresh} random, {plain} unchanged, {mutated} mutated once, {} in all", new.len()));
        }
        let made = w.calls[world::Site::NewRandom as usize];
        if !with && made != n as u64 {
            viol(&[21], format!("{here}: {made} random individuals were created"));
        }
        let muts = w.calls[world::Site::Mutate as usize];
        if with && muts != n.saturating_sub(1) as u64 {
            viol(&[21], format!("{here}: mutate was called {muts} times"));
        }
        w.active = false;
        w.run = -1;
        count(ctr::ITEMS, 1);
    }
}

// ------------------------------------------------------------------ operators

fn genome(p: &mut Prng, n: usize, perm: bool) -> Vec<u16> {
    let mut v: Vec<u16> = (0..n as u16).map(|x| if perm { x * 3 + 1 } else { p.below(4) as u16 }).collect();
    if perm {
        for i in (1..n).rev() {
            v.swap(i, p.below(i as u64 + 1) as usize);
        }
    }
    v
}

/// A second parent: unrelated, or the first one rotated, reversed, changed a little or in parts.
pub fn relative(p: &mut Prng, a: &[u16], perm: bool) -> Vec<u16> {
    let n = a.len();
    let mut b = a.to_vec();
    match p.below(9) {
        0 => b.reverse(),
        1 if n > 0 => b.rotate_left(p.below(n as u64) as usize),
        2 if n > 1 => b.swap(p.below(n as u64) as usize, p.below(n as u64) as usize),
        3 if n > 2 => {
            let i = p.below(n as u64 - 1) as usize;
            b[i..].reverse()
        }
        4 | 5 | 6 if n > 2 => {
            match p.below(4) {
                0 => b.reverse(),
                1 => b.rotate_left(p.below(n as u64) as usize),
                _ => {}
            }
            for _ in 0..1 + p.below(2) {
                edit(p, &mut b, 0, n);
            }
        }
        _ if perm => mix(p, &mut b),
        _ => b = genome(p, n, perm),
    }
    b
}

fn mix(p: &mut Prng, v: &mut [u16]) {
    for i in (1..v.len()).rev() {
        v.swap(i, p.below(i as u64 + 1) as usize);
    }
}

/// Rearranges a part of the genes between two positions.
fn edit(p: &mut Prng, b: &mut [u16], from: usize, to: usize) {
    let n = (to - from) as u64;
    if n < 2 {
        return;
    }
    let (i, j) = (from + p.below(n + 1) as usize, from + p.below(n + 1) as usize);
    let part = &mut b[i.min(j)..i.max(j)];
    match p.below(4) {
        0 => part.reverse(),
        1 if !part.is_empty() => {
            let k = p.below(part.len() as u64) as usize;
            part.rotate_left(k)
        }
        2 => b.swap(from + p.below(n) as usize, from + p.below(n) as usize),
        _ => mix(p, part),
    }
}

/// The next pair of parents: new ones, or the previous ones with one or both changed, mostly with the same ends.
pub fn next_pair(p: &mut Prng, a: &mut Vec<u16>, b: &mut Vec<u16>) {
    let n = a.len();
    let ends = |p: &mut Prng, v: &mut Vec<u16>| {
        let k = (p.below(3) as usize).min(n / 3);
        for _ in 0..1 + p.below(2) {
            edit(p, v, k, n - k);
        }
    };
    match p.below(6) {
        0 => std::mem::swap(a, b),
        1 => ends(p, a),
        2 => {
            ends(p, a);
            ends(p, b)
        }
        3 => *b = relative(p, a, true),
        _ => ends(p, b),
    }
}

/// Random pairs and ranges, drawn on all workers.
fn positions(scn: &Scn) {
    let seed = scn.h.seed as u64;
    (0..scn.h.count.max(1) as usize).into_par_iter().for_each(|k| {
        let mut p = Prng::stream(hash2(seed, k as u64), 36);
        simcore::yield_point(true);
        let n = match p.below(8) {
            0 => [100, 1 << 16, (1 << 32) + 5, 1 << 40, 1 << 52][p.below(5) as usize] + p.below(9) as usize,
            1 => 1 + p.below(400) as usize,
            _ => 1 + p.below(scn.h.size.clamp(1, 14) as u64) as usize,
        };
        let lo = match p.below(3) {
            0 => 1,
            1 if p.chance(0.5) => n - p.below(n.min(20) as u64) as usize, // that fits few starts
            1 => p.below(n as u64 + 1) as usize,
            _ => p.below(n.min(4) as u64 + 1) as usize,
        };
        let hi = if p.chance(0.3) { lo } else { lo + p.below((n - lo) as u64 + 1) as usize };
        let one = |rng: &mut R0, which: usize| -> (usize, usize) {
            let name = ["random_pair", "random_range", "bounded_random_range"][which];
            let (a, b) = calm(&[31, 12], &format!("{name}, n = {n}, lengths {lo} to {hi}"), || match which {
                0 => random_pair(n, rng),
                w => {
                    let r = if w == 1 { random_range(n, rng) } else { bounded_random_range(n, lo, hi, rng) };
                    (r.start, r.end)
                }
            });
            let _q = no_preempt();
            let wrong = match which {
                0 => a == b || a >= n || b >= n,
                1 => a >= b || b > n,
                _ => a > b || b > n || b - a < lo || b - a > hi,
            };
            if wrong {
                viol(&[31], format!("{name}, n = {n}, lengths {lo} to {hi}: {a} and {b}"));
            }
            (a, b)
        };
        // the same stream gives the same, on whichever worker
        let (s1, mut rng) = (p.next(), R0::lab(p.next(), 0.3));
        for which in 0..3 {
            if which == 0 && n < 2 {
                continue;
            }
            for _ in 0..40 {
                one(&mut rng, which);
            }
            let (mut x, mut y) = (R0::lab(s1, 0.0), R0::lab(s1, 0.0));
            let a: Vec<_> = (0..4).map(|_| one(&mut x, which)).collect();
            simcore::yield_point(true);
            let b: Vec<_> = (0..4).map(|_| one(&mut y, which)).collect();
            if a != b {
                let _q = no_preempt();
                viol(&[31], format!("n = {n}, lengths {lo} to {hi}: {a:?} and then {b:?} from the same random stream"));
            }
        }
        // how often: pairs by both numbers, ranges by length and start
        let mut rng = R0::lab(p.next(), 0.0);
        for which in 0..3 {
            if which == 0 && n < 2 {
                continue;
            }
            let fair = |x: u128, m: u128| ((x * m.min(14) / m) as usize, m.min(14) as usize);
            let (l, h) = if which == 1 { (1, n) } else { (lo, hi) };
            let mut seen = std::collections::BTreeMap::<(usize, usize), u64>::new();
            let total = 1500;
            // preempting them all would take long
            let _q = no_preempt();
            for _ in 0..total {
                let (a, b) = one(&mut rng, which);
                let cell = if which == 0 {
                    (fair(a as u128, n as u128).0, fair(((b + n - a) % n - 1) as u128, n as u128 - 1).0)
                } else {
                    let len = b - a;
                    (fair((len - l) as u128, (h - l) as u128 + 1).0, fair(a as u128, (n - len) as u128 + 1).0)
                };
                *seen.entry(cell).or_default() += 1;
            }
            count(ctr::SAMPLES, total as u64);
            // exact where every value has a cell of its own, otherwise nearly
            let rows = fair(0, if which == 0 { n as u128 } else { (h - l) as u128 + 1 }).1;
            let row = |i: usize| seen.iter().filter(|c| c.0 .0 == i).map(|c| *c.1).sum::<u64>() as f64;
            let wide = if which == 0 { n > 14 } else { h - l + 1 > 14 };
            // no cell stands for more than twice as many values as another
            let odd = |got: f64, of: f64, cells: usize, wide: bool| {
                let (min, max) = if wide { (0.5 / cells as f64, 2.0 / cells as f64) } else { (1.0 / cells as f64, 1.0 / cells as f64) };
                got < of * min - 6.5 * (of * min).sqrt() - 8.0 || got > of * max + 6.5 * (of * max).sqrt() + 8.0
            };
            let name = ["pairs with first number", "ranges with length", "ranges with bounded length"][which];
            for i in 0..rows {
                let got = row(i);
                if odd(got, total as f64, rows, wide) {
                    viol(&[31], format!("n = {n}, lengths {l} to {h}: {got} {name} in part {i} of {rows}, of {total} draws"));
                }
            }
            if !wide {
                for i in 0..rows {
                    let m = if which == 0 { n - 1 } else { n - (l + i) + 1 };
                    for j in 0..m.min(14) {
                        let got = seen.get(&(i, j)).copied().unwrap_or(0) as f64;
                        if odd(got, row(i), m.min(14), m > 14) {
                            viol(&[31], format!("n = {n}, lengths {l} to {h}: {got} {name} in part {i}, second part {j} of {}, of {total} draws", m.min(14)));
                        }
                    }
                }
            }
        }
        // every single one, sometimes
        if k == 0 && seed % 8 == 3 {
            let n = 15 + p.below(70) as usize;
            let _q = no_preempt();
            let (mut pairs, mut ranges) = (vec![false; n * n], vec![false; n * (n + 1)]);
            for _ in 0..34 * n * n {
                let (a, b) = random_pair(n, &mut rng);
                let r = random_range(n, &mut rng);
                if a.max(b) >= n || r.end > n {
                    viol(&[31], format!("n = {n}: the pair {a}, {b} or the range {r:?}"));
                    return;
                }
                pairs[a * n + b] = true;
                ranges[r.start * (n + 1) + r.end] = true;
            }
            count(ctr::SAMPLES, 68 * (n * n) as u64);
            for a in 0..n {
                if let Some(b) = (0..n).find(|&b| pairs[a * n + b] != (a != b)) {
                    viol(&[31], format!("n = {n}: whether {a}, {b} is among {} random pairs: {}", 34 * n * n, a == b));
                }
                if let Some(b) = (0..=n).find(|&b| ranges[a * (n + 1) + b] != (a < b)) {
                    viol(&[31], format!("n = {n}: whether {a}..{b} is among {} random ranges: {}", 34 * n * n, a >= b));
                }
            }
        }
        // what has to be refused
        let mut rng = R0::lab(p.next(), 0.0);
        let bad = p.below(4);
        let m = 1 + p.below(20) as usize;
        let r = catch_unwind(AssertUnwindSafe(|| match bad {
            0 => { random_pair(1, &mut rng); }
            1 => { random_pair(0, &mut rng); }
            2 => { random_range(0, &mut rng); }
            _ => { bounded_random_range(m + 5, m + 1, m, &mut rng); }
        }));
        let _q = no_preempt();
        count(ctr::REFUSED, 1);
        count(ctr::ITEMS, 1);
        if r.is_ok() {
            viol(&[31], format!("{} was not refused", ["a pair of n = 1", "a pair of n = 0", "a range of n = 0", "min_len above max_len"][bad as usize]));
        }
    });
}

pub fn operators(scn: &Scn) {
    let s = scn.runs[0].clone();
    let seed = scn.h.seed as u64;
    let f = world::focus();
    if f == 31 {
        return positions(scn);
    }
    let size = scn.h.size.max(0) as usize;
    (0..scn.h.count.max(1) as usize).into_par_iter().for_each(|k| {
        let mut p = Prng::stream(hash2(seed, k as u64), 34);
        let mut rng = R0::lab(hash2(seed, 1000 + k as u64), if p.chance(0.3) { 0.25 } else { 0.0 });
        simcore::yield_point(true);
        let n = if p.chance(0.7) { size } else { p.below(size as u64 + 2) as usize };
        if f != 20 {
            let op = if p.chance(0.6) { s.xop % 20 } else { [p.below(7), 10 + p.below(7)][p.below(2) as usize] as i64 };
            let op = if op % 10 > 6 { 0 } else { op };
            let perm = op % 10 != 6;
            let mut a = genome(&mut p, n, perm);
            let mut b = relative(&mut p, &a, perm);
            ops::crossover::<0>(op, &a, &b, &mut rng, perm);
            // others that look alike, on the same thread
            if p.chance(0.4) {
                for _ in 0..1 + p.below(2) {
                    next_pair(&mut p, &mut a, &mut b);
                    ops::crossover::<0>(op, &a, &b, &mut rng, perm);
                }
            }
            // parents of different length must be refused
            if op != 10 && p.chance(0.25) {
                let mut c = b.clone();
                if p.chance(0.5) && !c.is_empty() {
                    c.truncate(p.below(c.len() as u64) as usize);
                } else {
                    c.push(4000);
                }
                let (x, y) = if p.chance(0.5) { (&a, &c) } else { (&c, &a) };
                let m = x.len().min(y.len());
                let pivot = x.first().or(y.first()).copied().unwrap_or(0);
                let (i, j) = (p.below(m as u64 + 1) as usize, p.below(m as u64 + 1) as usize);
                let r = catch_unwind(AssertUnwindSafe(|| match op {
                    11 => sequential_constructive_crossover(x, y, pivot),
                    12 => edge_recombination_crossover(x, y, pivot),
                    13 => partially_mapped_crossover(x, y, i.min(j)..i.max(j)),
                    14 => order_crossover(x, y, i.min(j)..i.max(j)),
                    15 => cycle_crossover(x, y),
                    16 => single_point_crossover(x, y, i),
                    _ => ops::xstrategy(op).crossover(x, y, &mut rng),
                }));
                let _q = no_preempt();
                count(ctr::REFUSED, 1);
                if let Ok(o) = r {
                    viol(&[18], format!("{:?} ({}) accepted parents of different length {x:?} and {y:?}: {o:?}", ops::xstrategy(op % 10), if op < 10 { "strategy" } else { "function" }));
                }
            }
        } else {
            let op = if p.chance(0.6) { s.mop } else { p.below(5) as i64 };
            let perm = p.chance(0.7);
            let mut g = genome(&mut p, n, perm);
            for _ in 0..1 + p.below(6) {
                ops::mutate::<0>(op, &mut g, &mut rng);
            }
        }
    });
    if f == 20 && s.mop < 5 && (2..=14).contains(&size) {
        // every position is affected now and then
        let mut p = Prng::stream(seed, 35);
        let g0 = genome(&mut p, size, true);
        let mut rng = R0::lab(hash2(seed, 77), 0.0);
        let mut hit = vec![false; size];
        for _ in 0..600 {
            let mut g = g0.clone();
            ops::mutate::<0>(s.mop, &mut g, &mut rng);
            for i in 0..size {
                hit[i] |= g[i] != g0[i];
            }
        }
        let _q = no_preempt();
        count(ctr::ITEMS, 1);
        if let Some(i) = hit.iter().position(|h| !h) {
            viol(&[20], format!("{:?} never affected position {i} of {size} in 600 mutations", ops::mstrategy(s.mop)));
        }
    }
    if f == 20 && s.mop < 5 && (15..=600).contains(&size) && (size > 64 || seed % 4 == 0) {
        // the same for longer genomes; the rarest position is affected by at least every size-th mutation
        let g0: Vec<u16> = (0..size as u16).collect();
        let mut rng = R0::lab(hash2(seed, 78), 0.0);
        let mut g = g0.clone();
        let mut hit = vec![false; size];
        let mut left = size;
        let most = 50 * size;
        let m = ops::mstrategy(s.mop);
        for _ in 0..most {
            m.mutate(&mut g, &mut rng);
            for i in 0..size {
                if g[i] != g0[i] {
                    left -= !hit[i] as usize;
                    hit[i] = true;
                    g[i] = g0[i];
                }
            }
            if left == 0 {
                break;
            }
        }
        let _q = no_preempt();
        count(ctr::ITEMS, 1);
        if let Some(i) = hit.iter().position(|h| !h) {
            viol(&[20], format!("{m:?} never affected position {i} of {size} in {most} mutations"));
        }
    }
}
