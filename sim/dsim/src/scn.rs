//! A simulated run as explicit data: everything that decides it, readable, shrinkable, replayable.
use simcore::{Prng, Sched};

/// Marks a rate that is not a number.
pub const NAN: i64 = i64::MIN;

/// Marks values that are hard to tell from valid ones, or from any number.
pub const ODD: [(i64, f64); 6] = [
    (NAN, f64::NAN),
    (i64::MIN + 1, f64::NEG_INFINITY),
    (i64::MIN + 2, -f64::MIN_POSITIVE),
    (i64::MIN + 3, -f64::EPSILON / 2.0),
    (i64::MAX - 1, 1.0 + f64::EPSILON),
    (i64::MAX, f64::INFINITY),
];

/// Rates and other real parameters are kept in millionths.
pub fn real(v: i64) -> f64 {
    match ODD.iter().find(|o| o.0 == v) {
        Some(o) => o.1,
        None => v as f64 / 1e6,
    }
}

macro_rules! fields {
    ($name:ident { $($f:ident = $d:expr),* $(,)? }) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $name { $(pub $f: i64),* }
        impl Default for $name { fn default() -> Self { $name { $($f: $d),* } } }
        impl $name {
            pub const NAMES: &'static [&'static str] = &[$(stringify!($f)),*];
            pub fn get(&self, i: usize) -> i64 { let v = [$(self.$f),*]; v[i] }
            pub fn set(&mut self, i: usize, x: i64) { let mut k = 0; $( if k == i { self.$f = x; } k += 1; )* let _ = k; }
            pub fn set_name(&mut self, n: &str, x: i64) -> bool {
                match Self::NAMES.iter().position(|m| *m == n) { Some(i) => { self.set(i, x); true } None => false }
            }
        }
    };
}

fields!(Head {
    kind = 0,     // 0 histories of runs, 1 population updates, 2 selection, 3 extension, 4 reproducibility,
                  // 5 isolation, 6 concurrent runs, 7 frequencies, 8 operators
    alg = 0,      // 0 standard, 1 adaptive, 2 trait defaults
    alg2 = -1,    // the other one of two concurrent runs, if it is another algorithm
    model = 1,    // 0 minimal, 1 hook + improve, 2 + own survival and validity, 3 own breed
    workers = 1,
    ctx = 0,      // 0 inside a pool, 1 outside (global pool), 2 inside a pool with other work, 3 from a user thread
    seed = 1,     // data of labs
    count = 1,    // lab items
    size = 4,     // lab sizes
    sseed = 1,
    mode = 0,
    gap = 50,
    fine = 0,
    wake = 0,
    spur = 0,
    ent = 1,
    dflt = 0,     // construct through Default instead of build_evolution
});

fields!(RunSpec {
    entry = 0,    // 0 run, 1 evolve_individual, 2 evolve_population
    pop = 3,
    pop0 = 0,     // trait-default algorithm: initial size if not 0
    given = 3,    // individuals given (evolve_population)
    elit = 0,
    cx = 800000,
    cx2 = 800000,
    mu = 100000,
    mu2 = 100000,
    sel = 0,      // 0 tournament 1 roulette 2 rank 3 linear 4 elitist 5 boltzmann
    selp = 1000000,
    selp2 = 1000000,
    interval = 1,
    gens = 2,
    glen = 4,
    land = 1,
    inv = 0,      // millionths of invalid evaluations (by genome)
    eqfit = 0,    // equality of individuals includes fitness
    surv = 0,     // model 2: 0 not worse, 1 always, 2 random, 3 never, 4 strictly better
    xop = 0,
    mop = 0,
    hook = 0,     // 1 probe selector, 2 rates changed by the hook, 3 both
    improve = 0,
    nested = 0,
    ext = 0,      // millionths of extreme random draws
    rseed = 1,
    dseed = 1,
    hold = 0,     // callbacks that wait for each other
    shrink = 0,   // trait-default algorithm: the target size varies by generation
});

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub run: i64,
    pub kind: i64, // 0 panic, 1 NaN, 2 +inf, 3 -inf, 4 invalid by own rule
    pub site: i64,
    pub nth: i64,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Scn {
    pub h: Head,
    pub runs: Vec<RunSpec>,
    pub faults: Vec<Fault>,
    pub trace: Option<Vec<(u64, u32)>>,
}

impl Scn {
    /// The algorithm of a lane.
    pub fn alg(&self, lane: usize) -> i64 {
        if self.h.kind == 6 && lane == 1 && self.h.alg2 >= 0 {
            self.h.alg2
        } else {
            self.h.alg
        }
    }

    pub fn sched(&self) -> Sched {
        Sched {
            seed: self.h.sseed as u64,
            mode: self.h.mode as u32,
            gap: self.h.gap.max(1) as u64,
            fine: self.h.fine != 0,
            wake: self.h.wake as u32,
            spurious: self.h.spur as u32,
            max_steps: if self.h.kind == 1 || large(self) { 2_000_000_000 } else { 20_000_000 },
            max_edges: if self.h.kind == 1 || large(self) { 2_000_000_000 } else { 200_000_000 },
            replay: self.trace.clone(),
            entropy: self.h.ent as u64,
        }
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let d = Head::default();
        for (i, n) in Head::NAMES.iter().enumerate() {
            if self.h.get(i) != d.get(i) {
                s += &format!("{n}={}\n", self.h.get(i));
            }
        }
        let d = RunSpec::default();
        for r in &self.runs {
            s += "run";
            for (i, n) in RunSpec::NAMES.iter().enumerate() {
                if r.get(i) != d.get(i) {
                    s += &format!(" {n}={}", r.get(i));
                }
            }
            s += "\n";
        }
        for f in &self.faults {
            s += &format!(
                "fault run={} kind={} site={} nth={}\n",
                f.run,
                f.kind,
                crate::world::SITES[f.site as usize],
                f.nth
            );
        }
        if let Some(t) = &self.trace {
            s += "schedule";
            for (st, tk) in t {
                s += &format!(" {st}:{tk}");
            }
            s += "\n";
        }
        s
    }

    pub fn parse(text: &str) -> Result<Scn, String> {
        let mut x = Scn::default();
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') || line.starts_with("property=") {
                continue;
            }
            let mut w = line.split_whitespace();
            let first = w.next().unwrap();
            match first {
                "run" => {
                    let mut r = RunSpec::default();
                    for kv in w {
                        let (k, v) = kv.split_once('=').ok_or("bad run field")?;
                        if !r.set_name(k, v.parse().map_err(|_| "bad number")?) {
                            return Err(format!("unknown run field {k}"));
                        }
                    }
                    x.runs.push(r);
                }
                "fault" => {
                    let mut f = Fault { run: 0, kind: 0, site: 0, nth: 0 };
                    for kv in w {
                        let (k, v) = kv.split_once('=').ok_or("bad fault field")?;
                        match k {
                            "run" => f.run = v.parse().map_err(|_| "bad number")?,
                            "kind" => f.kind = v.parse().map_err(|_| "bad number")?,
                            "nth" => f.nth = v.parse().map_err(|_| "bad number")?,
                            "site" => {
                                f.site = crate::world::SITES
                                    .iter()
                                    .position(|s| *s == v)
                                    .ok_or("unknown site")? as i64
                            }
                            _ => return Err("unknown fault field".into()),
                        }
                    }
                    x.faults.push(f);
                }
                "schedule" => {
                    let mut t = vec![];
                    for e in w {
                        let (a, b) = e.split_once(':').ok_or("bad schedule entry")?;
                        t.push((
                            a.parse().map_err(|_| "bad number")?,
                            b.parse().map_err(|_| "bad number")?,
                        ));
                    }
                    x.trace = Some(t);
                }
                _ => {
                    let (k, v) = line.split_once('=').ok_or(format!("bad line {line}"))?;
                    if !x.h.set_name(k, v.parse().map_err(|_| "bad number")?) {
                        return Err(format!("unknown field {k}"));
                    }
                }
            }
        }
        Ok(x)
    }
}

// ---------------------------------------------------------------------------------------------
// Generation

fn rate(p: &mut Prng) -> i64 {
    match p.below(6) {
        0 => 0,
        1 => 1_000_000,
        2 => 500_000,
        _ => p.below(1_000_001) as i64,
    }
}

pub fn selection(p: &mut Prng, r: &mut RunSpec) {
    r.sel = p.below(6) as i64;
    match r.sel {
        0 => r.selp = 1_000_000 * (1 + p.below(5) as i64),
        3 => r.selp = if p.chance(0.2) { 1_000_000 } else { 1_000_000 + p.below(1_000_001) as i64 },
        4 => r.selp = if p.chance(0.3) { 0 } else { p.below(1_000_000) as i64 },
        5 => {
            r.selp = *[1_000_000, 100_000, 5_000_000, 10_000, 100_000_000].get(p.below(5) as usize).unwrap();
            r.selp2 = *[1_000_000, 900_000, 500_000, 100_000, 990_000].get(p.below(5) as usize).unwrap();
        }
        _ => {}
    }
}

/// A valid run.
pub fn gen_run(p: &mut Prng, alg: i64, model: i64) -> RunSpec {
    let mut r = RunSpec {
        entry: p.below(3) as i64,
        pop: match p.below(10) {
            0 => 1,
            1 => 2,
            2 => 3,
            9 => 8 + p.below(24) as i64,
            _ => 2 + p.below(10) as i64,
        },
        ..Default::default()
    };
    if alg == 2 && p.chance(0.5) {
        r.pop0 = 1 + p.below(12) as i64;
    }
    if alg == 2 && p.chance(0.4) {
        r.shrink = 1 + p.below(3) as i64;
    }
    r.given = match p.below(8) {
        0 => 1,
        1 => r.pop * 2 + p.below(6) as i64,
        _ => 1 + p.below(2 * r.pop as u64 + 2) as i64,
    };
    r.elit = match p.below(6) {
        0 | 1 => 0,
        2 => 999_999,
        // leave exactly one free slot (or nearly so)
        3 => ((r.pop - 1).max(0) * 1_000_000) / r.pop.max(1) + 1,
        _ => p.below(1_000_000) as i64,
    };
    r.cx = rate(p);
    r.mu = rate(p);
    r.cx2 = rate(p);
    r.mu2 = rate(p);
    if alg == 1 && p.chance(0.8) {
        if r.cx > r.cx2 {
            std::mem::swap(&mut r.cx, &mut r.cx2);
        }
        if r.mu > r.mu2 {
            std::mem::swap(&mut r.mu, &mut r.mu2);
        }
    }
    selection(p, &mut r);
    r.interval = match p.below(5) {
        0 => 0,
        1 => 2,
        2 => 3,
        _ => 1,
    };
    r.gens = match p.below(10) {
        0 => 0,
        1 => 1,
        9 => 6 + p.below(12) as i64,
        _ => 1 + p.below(5) as i64,
    };
    r.glen = match p.below(8) {
        0 => p.below(4) as i64,
        _ => 3 + p.below(7) as i64,
    };
    r.land = p.below(14) as i64;
    if p.chance(0.3) {
        r.inv = p.below(600_000) as i64;
    }
    r.eqfit = p.chance(0.3) as i64;
    if r.land == 6 || r.land == 8 || r.land == 13 {
        r.eqfit = 1;
    }
    r.surv = if model == 2 { p.below(5) as i64 } else { 0 };
    // 0-6 strategies, 10-16 operator functions, 7 unique offspring
    r.xop = match p.below(3) {
        0 => p.below(7) as i64,
        1 => 10 + p.below(7) as i64,
        _ => 7,
    };
    r.mop = p.below(6) as i64;
    r.hook = if model != 0 { p.below(4) as i64 } else { 0 };
    r.improve = if model == 1 || model == 2 { p.below(2) as i64 } else { 0 };
    r.nested = if p.chance(0.15) { 1 + p.below(5) as i64 } else { 0 };
    r.ext = if p.chance(0.25) { p.below(300_000) as i64 } else { 0 };
    r.rseed = p.below(1 << 40) as i64;
    r.dseed = p.below(1 << 40) as i64;
    r
}

pub fn gen_fault(p: &mut Prng, run: i64, model: i64) -> Fault {
    let inv = p.chance(0.3);
    if inv {
        let far = if p.chance(0.5) { 8 } else { 60 };
        return Fault {
            run,
            kind: 1 + p.below(if model == 2 { 4 } else { 3 }) as i64,
            site: crate::world::Site::Evaluate as i64,
            nth: 1 + p.below(far) as i64,
        };
    }
    let site = p.below(crate::world::NS as u64) as i64;
    let far = if p.chance(0.5) { 6 } else if p.chance(0.7) { 40 } else { 300 };
    Fault {
        run,
        kind: 0,
        site,
        nth: 1 + p.below(far) as i64,
    }
}

/// A run that must be refused.
pub fn spoil(p: &mut Prng, alg: i64, r: &mut RunSpec) {
    if alg == 2 {
        // the harness's own algorithm validates nothing but the selector
        r.sel = 0;
        r.selp = 0;
        return;
    }
    let bad = |p: &mut Prng| match p.below(4) {
        0 if p.chance(0.75) => ODD[1 + p.below(5) as usize].0,
        0 => NAN,
        1 => -1 - p.below(1_000_000) as i64,
        2 => 1_000_001,
        _ => 1_000_001 + p.below(5_000_000) as i64,
    };
    loop {
        match p.below(9) {
            0 => r.pop = 0,
            1 => r.elit = match p.below(3) { 0 => 1_000_000, 1 => -1, _ => bad(p) },
            2 => r.cx = bad(p),
            3 => r.mu = bad(p),
            4 if alg == 1 => r.cx2 = bad(p),
            5 if alg == 1 => r.mu2 = bad(p),
            6 => {
                r.sel = 0;
                r.selp = 0;
            }
            7 => {
                r.sel = 4;
                r.selp = match p.below(3) { 0 => 1_000_000, 1 => -1, _ => bad(p) };
            }
            8 => {
                r.sel = 5;
                r.selp2 = 0;
            }
            _ => continue,
        }
        break;
    }
}

fn selector_ok(r: &RunSpec) -> bool {
    match r.sel {
        0 => r.selp >= 1_000_000,
        4 => (0..1_000_000).contains(&r.selp),
        5 => r.selp2 != 0,
        _ => true,
    }
}

/// Whether the parameters are valid for the algorithm.
pub fn valid(alg: i64, r: &RunSpec) -> bool {
    let unit = |v: i64| (0..=1_000_000).contains(&v);
    match alg {
        2 => selector_ok(r),
        _ => {
            r.pop >= 1
                && (0..1_000_000).contains(&r.elit)
                && unit(r.cx)
                && unit(r.mu)
                && (alg == 0 || (unit(r.cx2) && unit(r.mu2)))
                && selector_ok(r)
        }
    }
}

pub fn gen(focus: &str, seed: u64, idx: u64) -> Scn {
    let mut p = Prng::stream(simcore::hash2(seed, idx), 7);
    let p = &mut p;
    let mut x = Scn::default();
    let f: u32 = focus[1..].parse().unwrap_or(0);
    // which kind of scenario
    let kind: &[(u64, i64)] = match f {
        1 | 9 => &[(5, 0), (5, 1)],
        8 => &[(8, 0), (2, 1)],
        10 => &[(9, 0), (1, 6)],
        11 => &[(10, 5)],
        12 => &[(7, 0), (3, 6)],
        13 => &[(9, 0), (1, 6)],
        14 => &[(10, 4)],
        16 => &[(5, 0), (5, 7)],
        17 => &[(4, 0), (6, 2)],
        18 | 19 | 20 => &[(3, 0), (7, 8)],
        21 => &[(5, 0), (5, 3)],
        25 => &[(10, 8)],
        27 => &[(10, 9)],
        30 => &[(10, 10)],
        31 => &[(10, 8)],
        _ => &[(10, 0)],
    };
    let total: u64 = kind.iter().map(|k| k.0).sum();
    let mut t = p.below(total);
    for (w, k) in kind {
        if t < *w {
            x.h.kind = *k;
            break;
        }
        t -= w;
    }
    // schedule
    x.h.sseed = p.below(1 << 40) as i64;
    x.h.ent = p.below(1 << 40) as i64;
    x.h.seed = p.below(1 << 40) as i64;
    x.h.mode = match p.below(10) {
        0 => 0,
        1..=4 => 1,
        5 | 6 => 2,
        7 => 3,
        _ => 4,
    };
    x.h.fine = p.chance(0.6) as i64;
    x.h.gap = match p.below(4) {
        0 => 1 + p.below(8) as i64,
        1 => 10 + p.below(50) as i64,
        2 => 60 + p.below(400) as i64,
        _ => 5 + p.below(40) as i64,
    };
    if x.h.fine == 1 {
        x.h.gap *= 5;
    }
    x.h.wake = p.below(3) as i64;
    x.h.spur = if p.chance(0.3) { 50 + p.below(250) as i64 } else { 0 };
    x.h.workers = match p.below(6) {
        0 => 1,
        1 => 3,
        2 => 4,
        3 => 2 + p.below(6) as i64,
        _ => 2,
    };
    x.h.ctx = match p.below(8) {
        0 | 1 => 1,
        2 => 2,
        3 => 3,
        _ => 0,
    };
    x.h.alg = match p.below(10) {
        0..=3 => 0,
        4..=7 => 1,
        _ => 2,
    };
    x.h.model = p.below(4) as i64;
    x.h.dflt = p.below(2) as i64;

    // focus on what the property depends on
    match f {
        2 | 13 => {
            if p.chance(0.6) {
                x.h.model = 3
            }
        }
        5 => {
            if x.h.model == 3 && p.chance(0.5) {
                x.h.model = 2
            }
        }
        3 | 4 | 7 => {
            if x.h.model == 3 {
                x.h.model = p.below(3) as i64
            }
        }
        15 => {
            x.h.alg = 1;
            x.h.model = 1 + p.below(3) as i64;
        }
        16 => {
            if x.h.model == 3 {
                x.h.model = 1 + p.below(2) as i64
            }
            if p.chance(0.7) {
                x.h.alg = 0
            }
        }
        17 => {
            x.h.model = 1 + p.below(2) as i64;
            if x.h.alg == 2 {
                x.h.alg = p.below(2) as i64
            }
        }
        18 | 19 | 20 | 21 => {
            if x.h.model == 3 {
                x.h.model = p.below(3) as i64
            }
        }
        29 => {
            x.h.workers = 2 + p.below(6) as i64;
            x.h.gap = x.h.gap * 20 + 100;
        }
        22 => {
            if x.h.alg == 2 {
                x.h.alg = p.below(2) as i64
            }
        }
        _ => {}
    }
    match x.h.kind {
        0 => {
            let n = match f {
                29 => 1,
                10 | 22 => 2 + p.below(3),
                8 => 1 + p.below(3),
                _ => 1 + p.below(2),
            };
            for k in 0..n {
                let mut r = gen_run(p, x.h.alg, x.h.model);
                tune(p, f, &x.h, &mut r);
                if (f == 22 && k + 1 < n && p.chance(0.75)) || (f != 22 && f != 29 && n > 1 && k + 1 < n && p.chance(0.08)) {
                    spoil(p, x.h.alg, &mut r);
                } else if f == 22 && p.chance(0.5) {
                    boundary(p, &mut r);
                }
                x.runs.push(r);
                let nf = match f {
                    10 => (k + 1 < n || p.chance(0.3)) as u64 + p.chance(0.15) as u64,
                    3 | 4 => p.below(3),
                    12 => p.chance(0.1) as u64,
                    29 => 0,
                    _ => p.chance(0.2) as u64,
                };
                for _ in 0..nf {
                    let mut ft = gen_fault(p, k as i64, x.h.model);
                    if f == 10 && p.chance(0.7) {
                        ft.kind = 0;
                    }
                    if (f == 3 || f == 4) && p.chance(0.7) && ft.kind == 0 {
                        ft.kind = 1 + p.below(3) as i64;
                        ft.site = crate::world::Site::Evaluate as i64;
                    }
                    // with failing initial individuals placed first
                    x.faults.push(ft);
                }
            }
        }
        1 => {
            x.h.count = 1 + p.below(8) as i64;
            x.h.size = match p.below(24) {
                0 => 2001 + p.below(1500) as i64,
                1 => 1 + p.below(300) as i64,
                _ => 1 + p.below(24) as i64,
            };
            if x.h.size > 300 {
                x.h.count = 2;
                x.h.gap = 1000 + p.below(30_000) as i64;
            }
            // a very long life
            if matches!(f, 1 | 8 | 9) && x.h.size < 4 && simcore::hash2(x.h.seed as u64, 71) % 12 == 0 {
                x.h.count = if simcore::hash2(x.h.seed as u64, 72) % 10 == 0 { 66_500 } else { 4_500 };
                x.h.gap = 100_000;
            }
        }
        2 => {
            let mut r = gen_run(p, 0, 1);
            tune(p, f, &x.h, &mut r);
            r.ext = 0;
            if r.sel == 3 && p.chance(0.25) {
                r.selp = 2_000_000 + p.below(2_000_000) as i64;
            }
            x.runs.push(r);
            x.h.size = match p.below(6) {
                0 => 1 + p.below(2) as i64,
                1 => 20 + p.below(60) as i64,
                _ => 2 + p.below(14) as i64,
            };
            x.h.count = match p.below(4) {
                0 => 1,
                1 => 20 + p.below(400) as i64,
                _ => 1 + p.below(12) as i64,
            };
            x.h.fine = 0;
            x.h.gap = 200 + p.below(2000) as i64;
        }
        3 => {
            x.h.count = 1 + p.below(5) as i64;
            let far = if p.chance(0.2) { 60 } else { 14 };
            x.h.size = 1 + p.below(far) as i64;
            x.h.model = p.below(3) as i64;
            let mut r = gen_run(p, 0, x.h.model);
            tune(p, f, &x.h, &mut r);
            x.runs.push(r);
        }
        4 | 5 => {
            x.h.workers = 1;
            x.h.ctx = 0;
            let n = if x.h.kind == 5 { 2 + p.below(3) } else { 1 };
            for k in 0..n {
                let mut r = gen_run(p, x.h.alg, x.h.model);
                if r.xop == 2 || r.xop == 12 {
                    r.xop = 4;
                }
                if x.h.kind == 5 && k + 1 < n && p.chance(0.2) {
                    spoil(p, x.h.alg, &mut r);
                }
                if k + 1 == n {
                    r.gens = r.gens.max(1);
                }
                if x.h.kind == 5 && k + 1 < n && p.chance(0.3) {
                    x.faults.push(gen_fault(p, k as i64, x.h.model));
                }
                x.runs.push(r);
            }
            if x.h.kind == 5 && p.chance(0.4) {
                // the same configuration again after other runs
                let l = x.runs.len() - 1;
                let q = p.below(l as u64) as usize;
                let keep = (x.runs[l].rseed, x.runs[l].dseed);
                x.runs[l] = x.runs[q].clone();
                x.runs[l].rseed = keep.0;
                x.runs[l].dseed = keep.1;
            }
        }
        6 => {
            x.h.ctx = p.below(3) as i64;
            for _ in 0..2 {
                let mut r = gen_run(p, x.h.alg, x.h.model);
                r.gens = r.gens.min(5);
                x.runs.push(r);
            }
        }
        7 => {
            x.h.alg = p.below(2) as i64;
            x.h.model = if p.chance(0.3) { 1 } else { 2 };
            x.h.fine = 0;
            x.h.gap = 300 + p.below(3000) as i64;
            x.h.spur = 0;
            let mut r = gen_run(p, x.h.alg, x.h.model);
            r.surv = (x.h.model == 2) as i64;
            r.entry = p.below(3) as i64;
            r.pop = 40 + p.below(30) as i64;
            r.given = r.pop;
            r.glen = 9;
            r.land = *[1, 1, 2, 3].get(p.below(4) as usize).unwrap();
            r.inv = 0;
            r.gens = 60;
            r.sel = 0;
            r.selp = 1_000_000;
            r.ext = 0;
            r.eqfit = 0;
            r.nested = 0;
            r.xop = 7;
            r.mop = 5;
            r.improve = 0;
            r.hook = if p.chance(0.4) { 2 } else { 0 } + p.chance(0.6) as i64;
            r.elit = if p.chance(0.5) { 0 } else { 100_000 };
            x.runs.push(r);
        }
        8 => {
            x.h.count = if f == 31 { 2 + p.below(10) as i64 } else { 20 + p.below(60) as i64 };
            x.h.size = match p.below(8) {
                0 => p.below(3) as i64,
                1 => 12 + p.below(30) as i64,
                _ => 2 + p.below(10) as i64,
            };
            let mut r = gen_run(p, 0, 1);
            tune(p, f, &x.h, &mut r);
            x.runs.push(r);
        }
        9 => {
            x.h.alg = p.below(2) as i64;
            x.h.fine = 1;
            let n = 1 + p.below(2);
            for _ in 0..n {
                let mut r = gen_run(p, x.h.alg, 0);
                r.hook = 0;
                r.pop = 1 + p.below(14) as i64;
                r.given = 1 + p.below(14) as i64;
                r.gens = p.below(12) as i64;
                r.glen = match p.below(4) {
                    0 => 1 + p.below(4) as i64,
                    1 => 64 + p.below(80) as i64,
                    _ => 4 + p.below(20) as i64,
                };
                match p.below(4) {
                    0 => {
                        // must be solved
                        r.entry = 0;
                        r.hook = 1;
                        r.glen = 6 + p.below(7) as i64;
                        r.pop = 8 + p.below(8) as i64;
                        r.gens = 300 * r.glen;
                        r.mu = 500_000 + p.below(500_001) as i64;
                        r.mu2 = 500_000 + p.below(500_001) as i64;
                    }
                    1 => {
                        r.entry = 0;
                        r.glen = 64 + p.below(80) as i64;
                        r.pop = 30 + p.below(80) as i64;
                        r.gens = p.below(3) as i64;
                    }
                    _ => {}
                }
                if r.sel == 1 && (r.glen < 16 || r.pop < 4 || r.entry != 0) {
                    r.sel = 2;
                }
                x.runs.push(r);
            }
            x.h.gap = 20 + p.below(2000) as i64;
            x.h.spur = 0;
        }
        10 => {
            let n = 2 + p.below(4);
            for _ in 0..n {
                let mut r = gen_run(p, 2, 0);
                r.pop = 1 + p.below(10) as i64;
                r.pop0 = p.below(12) as i64;
                r.given = 1 + p.below(9) as i64;
                r.gens = p.below(7) as i64;
                // the call that panics
                r.hook = if p.chance(0.4) { 1 + p.below(30) as i64 } else { 0 };
                x.runs.push(r);
            }
        }
        _ => {}
    }
    let mut q = Prng::stream(simcore::hash2(seed, idx), 8);
    if x.h.kind == 6 && q.chance(0.4) {
        let other = q.below(3) as i64;
        if x.h.alg != other && valid(other, &x.runs[1]) {
            x.h.alg2 = other;
        }
    }
    if f == 12 && x.h.kind == 0 && x.faults.is_empty() && q.chance(0.3) {
        entangle(&mut q, &mut x);
    } else if f != 29 {
        enlarge(&mut q, &mut x);
    }
    x
}

/// Sizes where representations and ways of processing may change.
fn round(p: &mut Prng, least: i64, most: i64) -> i64 {
    let sizes: Vec<i64> = (4..=10).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).filter(|s| (least..=most).contains(s)).collect();
    sizes[p.below(sizes.len() as u64) as usize]
}

/// A few scenarios are much larger than the others.
fn enlarge(p: &mut Prng, x: &mut Scn) {
    let coarse = |p: &mut Prng, x: &mut Scn| {
        x.h.gap = 2000 + p.below(20_000) as i64;
        x.h.spur = 0;
    };
    if x.h.kind == 9 && p.chance(0.015) {
        // few individuals, many bits
        coarse(p, x);
        let long = p.chance(0.2);
        for r in &mut x.runs {
            r.hook = 0;
            r.glen = if long { 60_000 + p.below(80_000) as i64 } else { 900 + p.below(3500) as i64 };
            r.pop = 1 + p.below(4) as i64;
            r.given = 1 + p.below(4) as i64;
            r.gens = p.below(3) as i64;
        }
        return;
    }
    match x.h.kind {
        0 | 4 | 5 | 6 => {
            if x.h.kind != 6 && p.chance(0.006) {
                return huge(p, x);
            }
            if !p.chance(0.03) {
                return;
            }
            match p.below(3) {
                0 => {
                    for r in &mut x.runs {
                        if r.pop < 1 {
                            continue;
                        }
                        r.pop = if p.chance(0.4) { round(p, 60, 520) } else { 60 + p.below(300) as i64 };
                        r.given = if p.chance(0.4) { round(p, 15, 520) } else { 1 + p.below(r.pop as u64 + 20) as i64 };
                        r.gens = r.gens.min(3);
                        r.glen = r.glen.max(6);
                        r.nested = 0;
                        r.pop0 = 0;
                        if r.elit > 0 && p.chance(0.5) {
                            r.elit = 10_000 + p.below(100_000) as i64;
                        }
                    }
                    coarse(p, x);
                }
                1 => {
                    for r in &mut x.runs {
                        r.pop = r.pop.min(1 + p.below(5) as i64);
                        r.given = r.given.min(6);
                        r.gens = 100 + p.below(250) as i64;
                        r.interval = [1, 2, 3, 7, 50, 256, 1 << 40][p.below(7) as usize];
                        r.nested = 0;
                        if r.pop0 > 4 {
                            r.pop0 = 4;
                        }
                    }
                    coarse(p, x);
                }
                _ => {
                    if x.h.kind != 4 && x.h.kind != 5 {
                        x.h.workers = 8 + p.below(9) as i64;
                    }
                    for r in &mut x.runs {
                        if r.pop >= 1 {
                            r.pop = 10 + p.below(50) as i64;
                        }
                    }
                }
            }
        }
        2 => {
            if p.chance(0.02) {
                x.h.size = if p.chance(0.4) { round(p, 63, 1025) } else { 100 + p.below(1000) as i64 };
            }
            let r = &mut x.runs[0];
            if r.sel == 0 && p.chance(0.1) {
                r.selp = 1_000_000 * (6 + p.below(60) as i64);
            }
            if r.sel == 5 && p.chance(0.15) {
                r.selp = 1 + p.below(50) as i64;
            }
        }
        3 => {
            if p.chance(0.02) {
                x.h.size = if p.chance(0.4) { round(p, 63, 1025) } else { 100 + p.below(2000) as i64 };
                x.h.count = 2;
                coarse(p, x);
            }
        }
        9 => {
            if p.chance(0.03) {
                for r in &mut x.runs {
                    r.hook = 0;
                    r.glen = if p.chance(0.5) { round(p, 200, 1025) } else { 145 + p.below(1000) as i64 };
                    r.pop = r.pop.min(30);
                    r.gens = r.gens.min(4);
                }
                coarse(p, x);
            }
        }
        8 => {
            if p.chance(0.04) {
                x.h.count = 6;
                x.h.size = match p.below(12) {
                    0 | 1 => 1020 + p.below(60) as i64,
                    2..=6 => round(p, 31, 520),
                    _ => 40 + p.below(260) as i64,
                };
                coarse(p, x);
            }
        }
        _ => {}
    }
}

/// Thousands of individuals or generations, dozens of workers or of runs of one object.
fn huge(p: &mut Prng, x: &mut Scn) {
    x.h.gap = 2000 + p.below(50_000) as i64;
    x.h.spur = 0;
    for r in &mut x.runs {
        r.nested = 0;
        r.pop0 = r.pop0.min(4);
    }
    match p.below(4) {
        0 => {
            x.runs.truncate(1);
            x.faults.clear();
            let r = &mut x.runs[0];
            if r.pop >= 1 {
                r.pop = 1100 + p.below(2500) as i64;
                r.given = 1000 + p.below(2500) as i64;
                r.gens = 1 + p.below(2) as i64;
                r.glen = r.glen.max(7);
                if r.elit > 0 && p.chance(0.7) {
                    r.elit = 10_000 + p.below(300_000) as i64;
                }
            }
        }
        1 => {
            x.runs.truncate(1);
            let r = &mut x.runs[0];
            r.pop = r.pop.min(1 + p.below(3) as i64);
            r.given = r.given.min(3);
            r.gens = 900 + p.below(1500) as i64;
            r.interval = [1, 3, 10, 100, 1000][p.below(5) as usize];
        }
        2 => {
            let n = 10 + p.below(40) as usize;
            let few = x.runs.len();
            for k in few..n {
                let mut r = x.runs[k % few].clone();
                r.rseed += k as i64;
                r.dseed += k as i64;
                x.runs.push(r);
            }
            for r in &mut x.runs {
                r.pop = r.pop.min(1 + p.below(6) as i64);
                r.given = r.given.min(6);
                r.gens = r.gens.min(p.below(4) as i64);
            }
        }
        _ => {
            if x.h.kind == 0 {
                x.h.workers = 17 + p.below(60) as i64;
            }
            for r in &mut x.runs {
                if r.pop >= 1 {
                    r.pop = 20 + p.below(200) as i64;
                }
                r.gens = r.gens.min(4);
            }
        }
    }
}

/// Callbacks with a lot of parallel work of their own: workers take up other breedings while they wait.
fn entangle(p: &mut Prng, x: &mut Scn) {
    x.h.workers = 2 + p.below(4) as i64;
    for r in &mut x.runs {
        r.gens = r.gens.clamp(2, 4);
        if r.pop > 0 {
            r.pop = 20 + p.below(40) as i64;
            r.given = r.pop;
        }
        r.pop0 = 0;
        r.nested = 3 + p.below(3) as i64;
    }
}

/// Whether much more work than usual is to be expected.
pub fn large(x: &Scn) -> bool {
    x.h.size > 100 || x.h.workers > 8 || x.runs.len() > 6 || x.h.kind == 9 || x.runs.iter().any(|r| r.pop > 40 || r.gens > 60)
}

/// Valid values at the borders of what is accepted.
fn boundary(p: &mut Prng, r: &mut RunSpec) {
    match p.below(7) {
        0 => r.elit = 0,
        1 => r.elit = 999_999,
        2 => {
            r.cx = 0;
            r.cx2 = 0
        }
        3 => {
            r.cx = 1_000_000;
            r.cx2 = 1_000_000
        }
        4 => {
            r.mu = 0;
            r.mu2 = 1_000_000
        }
        5 => {
            r.sel = 4;
            r.selp = 0
        }
        _ => r.pop = 1,
    }
}

fn tune(p: &mut Prng, f: u32, h: &Head, r: &mut RunSpec) {
    if matches!(f, 1 | 2 | 4..=8) && p.chance(0.08) {
        // up to the ends of the number range; spreads overflow, which only matters to the properties not listed here
        r.land = 14;
    }
    match f {
        4 => {
            r.inv = p.below(900_000) as i64;
        }
        5 | 6 => {
            r.surv = if h.model == 2 { 1 + p.below(2) as i64 } else { 0 };
            r.gens = r.gens.max(2);
            if f == 6 {
                r.entry = p.below(2) as i64;
                if p.chance(0.6) {
                    r.elit = 0;
                }
            }
        }
        12 => {
            if p.chance(0.4) {
                r.nested = 1 + p.below(5) as i64;
                if r.nested > 2 && r.pop > 0 {
                    r.pop += p.below(30) as i64;
                }
            }
        }
        13 => {
            r.nested = 0;
            r.gens = r.gens.max(2);
        }
        15 => {
            r.gens = r.gens.max(2) + p.below(4) as i64;
            r.hook = p.below(2) as i64; // mostly leave the rates alone
            if p.chance(0.3) {
                r.land = *[2, 9, 3, 2].get(p.below(4) as usize).unwrap();
            }
        }
        16 => {
            r.hook = p.below(4) as i64;
            r.glen = r.glen.max(5);
        }
        17 => r.hook = if p.chance(0.8) { 1 } else { 3 },
        18 | 19 => {
            r.xop = if p.chance(0.5) { p.below(7) } else { 10 + p.below(7) } as i64;
            r.cx = 1_000_000;
            r.cx2 = 1_000_000;
            if f == 18 && (r.xop == 6 || r.xop == 16) {
                r.xop = p.below(6) as i64;
            }
            if r.xop % 10 != 6 {
                r.mop = p.below(4) as i64;
            }
        }
        20 => {
            r.mop = p.below(5) as i64;
            r.mu = 1_000_000;
            r.mu2 = 1_000_000;
        }
        21 => r.entry = p.below(3) as i64,
        28 => {
            if p.chance(0.5) && r.pop > 0 {
                r.pop = r.pop.min(1 + p.below(5) as i64);
                r.pop0 = r.pop0.min(4);
                r.given = r.given.min(5);
                r.gens = 30 + p.below(60) as i64;
                if p.chance(0.3) {
                    // improves in each generation
                    r.land = 13;
                    r.eqfit = 1;
                }
            }
        }
        29 => {
            r.nested = 0;
            r.inv = 0;
            r.hold = 2 + p.below(h.workers.max(2) as u64 - 1) as i64;
            r.pop = 34 + p.below(110) as i64;
            r.pop0 = 0;
            r.shrink = r.shrink.min(2);
            r.given = 16 * r.hold + p.below(60) as i64;
            r.gens = p.below(4) as i64;
            r.glen = r.glen.max(6);
            if r.elit > 500_000 {
                r.elit /= 4;
            }
        }
        _ => {}
    }
}
