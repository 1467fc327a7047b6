//! Seeded search over scenarios, schedules and faults; replay; minimisation.
use crate::report;
use crate::scn::{gen, Fault, Head, RunSpec, Scn};
use simcore::{hash2, in_child, Child, Shared, N_COUNTERS};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const CPU_S: u64 = 40;
pub const SAMPLES: usize = 8;

/// How a simulated run ended.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Fine,
    /// the focused property was seen violated
    Violated,
    Deadlock,
    Endless,
    Broken,
    Killed(i32),
}

impl End {
    pub fn bad(self) -> bool {
        self != End::Fine
    }
    fn class(self) -> u32 {
        match self {
            End::Fine => 0,
            End::Violated => 1,
            End::Deadlock | End::Endless => 2,
            End::Broken => 3,
            End::Killed(_) => 4,
        }
    }
}

pub fn run_once(sh: &'static mut Shared, scn: &Scn, focus: &str) -> End {
    sh.reset();
    let child = in_child(CPU_S, || crate::simulate(scn, focus));
    let f: u32 = focus[1..].parse().unwrap_or(0);
    let sh = simcore::shared();
    match child {
        Child::Timeout => {
            sh.add_message(&format!("the run used {CPU_S} s of CPU time without completing\n"));
            End::Endless
        }
        Child::Signal(s) => {
            sh.add_message(&format!("the process was killed by signal {s}\n"));
            End::Killed(s)
        }
        Child::Done => match sh.status {
            1 if f == 0 && sh.violated != 0 => End::Violated,
            1 => End::Fine,
            2 => End::Deadlock,
            3 => End::Endless,
            4 => End::Violated,
            5 => End::Broken,
            _ => {
                sh.add_message("the process exited on its own\n");
                End::Killed(0)
            }
        },
    }
}

#[repr(C)]
pub struct Tot {
    pub runs: u64,
    pub fine: u64,
    pub other: u64,
    pub distinct: u64,
    pub steps: u64,
    pub edges: u64,
    pub switches: u64,
    pub preempts: u64,
    pub forced: u64,
    pub blocks: u64,
    pub wakes: u64,
    pub spurious: u64,
    pub yields: u64,
    pub stalls: u64,
    pub entropy: u64,
    pub clock: u64,
    pub sim_ns: u64,
    pub tasks: u64,
    pub checked: u64,
    pub mismatched: u64,
    pub max_steps: [u64; 12], // by kind
    pub max_edges: [u64; 12],
    pub kinds: [u64; 12],
    pub algs: [u64; 3],
    pub models: [u64; 4],
    pub modes: [u64; 5],
    pub ctxs: [u64; 4],
    pub workers: [u64; 17],
    pub counters: [u64; N_COUNTERS],
    pub with_fault: u64,
    pub viol: u64, // index + 1
    pub viol_end: u64,
    pub other_idx: u64,
    pub other_mask: u64,
    pub sample_n: u64,
    pub sample: [[u64; 6]; SAMPLES], // idx, tasks, steps, switches, sched hash, violated mask
}

fn zeroed<T>(n: usize) -> &'static mut [T] {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>() * n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts_mut(p as *mut T, n)
    }
}

fn prints(sh: &Shared) -> [u64; 7] {
    [sh.step, sh.edges, sh.switches, sh.sched_hash, sh.log_hash, sh.trace_len as u64, sh.status as u64]
}

fn shard(me: usize, n: usize, sh: &'static mut Shared, tot: &mut Tot, best: &AtomicU64, focus: &str, seed: u64, total: u64, until: Instant) {
    simcore::pin(me);
    simcore::init(sh);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut idx = me as u64;
    while idx < total && idx < best.load(Ordering::Relaxed) && Instant::now() < until {
        let scn = gen(focus, seed, idx);
        let end = run_once(simcore::shared(), &scn, focus);
        let sh = simcore::shared();
        tot.runs += 1;
        tot.steps += sh.step;
        tot.edges += sh.edges;
        let kd = if crate::scn::large(&scn) { 11 } else { scn.h.kind as usize % 11 };
        tot.max_steps[kd] = tot.max_steps[kd].max(sh.step);
        tot.max_edges[kd] = tot.max_edges[kd].max(sh.edges);
        tot.switches += sh.switches;
        tot.preempts += sh.preempts;
        tot.forced += sh.forced;
        tot.blocks += sh.blocks;
        tot.wakes += sh.wakes;
        tot.spurious += sh.spurious;
        tot.yields += sh.yields;
        tot.stalls += sh.stalls;
        tot.entropy += sh.entropy_reads;
        tot.clock += sh.clock_reads;
        tot.sim_ns += sh.now_ns;
        tot.tasks += sh.tasks as u64;
        for i in 0..N_COUNTERS {
            tot.counters[i] += sh.counters[i];
        }
        tot.kinds[scn.h.kind as usize % 12] += 1;
        tot.algs[scn.h.alg as usize % 3] += 1;
        tot.models[scn.h.model as usize % 4] += 1;
        tot.modes[scn.h.mode as usize % 5] += 1;
        tot.ctxs[scn.h.ctx as usize % 4] += 1;
        tot.workers[scn.h.workers as usize % 17] += 1;
        tot.with_fault += !scn.faults.is_empty() as u64;
        let calls: u64 = sh.counters[..crate::world::NS].iter().sum();
        if sh.switches >= 2 && calls + sh.edges > 0 {
            let key = hash2(sh.sched_hash, hash2(sh.log_hash, report::text_hash(&scn.to_text())));
            seen.insert(key);
        }
        if (tot.sample_n as usize) < SAMPLES {
            tot.sample[tot.sample_n as usize] = [idx, sh.tasks as u64, sh.step, sh.switches, sh.sched_hash, sh.violated];
            tot.sample_n += 1;
        }
        if end == End::Fine {
            tot.fine += 1;
            if sh.violated != 0 {
                if tot.other == 0 {
                    tot.other_idx = idx;
                }
                tot.other += 1;
                tot.other_mask |= sh.violated;
            }
            if (idx / n as u64) % 50 == 7 {
                // the same integer must decide the same execution
                let a = prints(sh);
                run_once(simcore::shared(), &scn, focus);
                tot.checked += 1;
                if a != prints(simcore::shared()) {
                    tot.mismatched += 1;
                }
            }
        } else {
            tot.viol = idx + 1;
            tot.viol_end = end.class() as u64;
            best.fetch_min(idx, Ordering::Relaxed);
        }
        idx += n as u64;
    }
    tot.distinct = seen.len() as u64;
}

pub struct Batch {
    pub tots: &'static [Tot],
    pub shards: usize,
    pub wall: f64,
    pub cov: u64,
    pub total: u64,
}

fn batch(focus: &str, seed: u64, total: u64, secs: u64) -> Batch {
    let n = simcore::cpus().min(16);
    let start = Instant::now();
    let until = start + Duration::from_secs(secs);
    let mut shs: Vec<*mut Shared> = (0..n).map(|_| Shared::map() as *mut Shared).collect();
    let tots = zeroed::<Tot>(n);
    let best: &'static mut [AtomicU64] = zeroed(1);
    best[0].store(u64::MAX, Ordering::Relaxed);
    let mut pids = vec![];
    for me in 0..n {
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                shard(me, n, &mut *shs[me], &mut tots[me], &best[0], focus, seed, total, until);
                libc::_exit(0);
            }
            pids.push(pid);
        }
    }
    let mut failed = 0;
    for pid in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
        if st != 0 {
            failed += 1;
        }
    }
    if failed > 0 {
        eprintln!("{failed} shard processes failed");
        std::process::exit(2);
    }
    let mut cov = 0;
    for i in 0..simcore::MAX_COV {
        if shs.iter().any(|s| unsafe { (**s).cov[i] != 0 }) {
            cov += 1;
        }
    }
    shs.clear();
    Batch { tots, shards: n, wall: start.elapsed().as_secs_f64(), cov, total }
}

pub fn budget(focus: &str, tier: &str) -> (u64, u64) {
    let f: u32 = focus[1..].parse().unwrap_or(0);
    let (mut runs, mut secs) = (40_000u64, 90u64);
    match f {
        12 => (runs, secs) = (100_000, 120),
        16 => runs = 15_000,
        _ => {}
    }
    if tier == "thorough" {
        runs *= 30;
        secs = 600;
    }
    if let Some(s) = std::env::var("DSIM_SECS").ok().and_then(|s| s.parse().ok()) {
        secs = s;
        runs = u64::MAX / 4;
    }
    if let Some(s) = std::env::var("DSIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        runs = s;
    }
    (runs, secs)
}

pub fn out_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("DSIM_HOME").unwrap_or_else(|_| ".".into()))
}

pub fn check(focus: &str, tier: &str, seed: u64) -> i32 {
    if report::title(focus).is_none() || !(tier == "quick" || tier == "thorough") {
        eprintln!("unknown property {focus} or tier {tier}");
        return 2;
    }
    let (runs, secs) = budget(focus, tier);
    // first a share of the runs with the crate compiled as it ships
    let mut shipped_runs = 0;
    if !SHIPPED {
        match shipped(focus, tier, seed.wrapping_add(7_000_003), runs / 5, secs / 4) {
            Some((0, n)) => shipped_runs = n,
            Some((code, _)) => return code,
            None => {}
        }
    }
    println!("seed {seed} property {focus} tier {tier}: up to {runs} simulated runs, {secs} s");
    let b = batch(focus, seed, runs, secs);
    let found: Vec<u64> = b.tots.iter().filter(|t| t.viol > 0).map(|t| t.viol - 1).collect();
    report::evidence(focus, tier, seed, &b, found.len(), shipped_runs);
    let done: u64 = b.tots.iter().map(|t| t.runs).sum();
    println!(
        "{done} runs in {:.1} s, {} context switches, {} edges reached",
        b.wall,
        b.tots.iter().map(|t| t.switches).sum::<u64>(),
        b.cov
    );
    let most = |f: &dyn Fn(&Tot) -> &[u64; 12]| (0..12).map(|k| b.tots.iter().map(|t| f(t)[k]).max().unwrap_or(0)).max().unwrap_or(0);
    println!("longest run: {} steps, {} edges", most(&|t| &t.max_steps), most(&|t| &t.max_edges));
    if std::env::var_os("DSIM_LONGEST").is_some() {
        for k in 0..12 {
            println!("kind {k}: {} steps, {} edges", b.tots.iter().map(|t| t.max_steps[k]).max().unwrap(), b.tots.iter().map(|t| t.max_edges[k]).max().unwrap());
        }
    }
    let mism: u64 = b.tots.iter().map(|t| t.mismatched).sum();
    if mism > 0 {
        println!("note: {mism} of {} repeated runs differed", b.tots.iter().map(|t| t.checked).sum::<u64>());
    }
    let other: u64 = b.tots.iter().map(|t| t.other).sum();
    if other > 0 {
        let mask = b.tots.iter().fold(0, |m, t| m | t.other_mask);
        let names: Vec<String> = (1..64).filter(|i| mask >> i & 1 == 1).map(|i| format!("C{i:02}")).collect();
        println!("note: {other} runs violated other properties ({})", names.join(" "));
    }
    let Some(&idx) = found.iter().min() else {
        if done == 0 {
            eprintln!("nothing was run");
            return 2;
        }
        return 0;
    };
    // report
    simcore::init(Shared::map());
    simcore::pin(0);
    let scn = gen(focus, seed, idx);
    let end = run_once(simcore::shared(), &scn, focus);
    let msg = simcore::shared().message();
    println!("run {idx}: {end:?}\n{}", first_lines(&msg, 6));
    let (small, small_msg) = minimise(&scn, focus, end);
    let dir = out_dir().join("out");
    std::fs::create_dir_all(&dir).ok();
    let path = dir.join(format!("{focus}-{seed}-{idx}.replay"));
    let text = |s: &Scn, m: &str| {
        let m: String = first_lines(m, 4).lines().map(|l| format!("# {l}\n")).collect();
        let build = if SHIPPED { "# build=shipped\n" } else { "" };
        format!("# {}\n# VERIF_SEED={seed} run {idx}\n{m}{build}property={focus}\n{}", report::title(focus).unwrap_or(""), s.to_text())
    };
    std::fs::write(&path, text(&small, &small_msg)).expect("writing the replay file");
    // it must fail in a fresh process too
    if !replays(&path) {
        let mut full = scn.clone();
        full.trace = None;
        std::fs::write(&path, text(&full, &msg)).expect("writing the replay file");
        println!("note: the minimised run did not replay in a fresh process; the full one {}", if replays(&path) { "does" } else { "does not either" });
    }
    println!("{}", first_lines(&small_msg, 4));
    println!("VIOLATION property={focus} replay={}", path.display());
    1
}

/// This binary contains the crate without debug assertions and overflow checks.
pub const SHIPPED: bool = !cfg!(debug_assertions);

/// The same check by the other binary: exit code and number of runs.
fn shipped(focus: &str, tier: &str, seed: u64, runs: u64, secs: u64) -> Option<(i32, u64)> {
    let exe = std::env::current_exe().ok()?;
    let other = exe.parent()?.parent()?.join("shipped/dsim");
    if !other.exists() {
        return None;
    }
    let out = std::process::Command::new(other)
        .args(["check", focus, tier])
        .env("VERIF_SEED", seed.to_string())
        .env("DSIM_RUNS", runs.to_string())
        .env("DSIM_SECS", secs.to_string())
        .env_remove("DSIM_CHILD")
        .stderr(std::process::Stdio::inherit())
        .output()
        .ok()?;
    let text = String::from_utf8_lossy(&out.stdout);
    print!("{text}");
    let n = text.lines().find_map(|l| l.split_once(" runs in ")?.0.parse().ok()).unwrap_or(0);
    Some((out.status.code().unwrap_or(2), n))
}

fn replays(path: &std::path::Path) -> bool {
    let exe = std::env::current_exe().unwrap();
    std::process::Command::new(exe)
        .arg("replay")
        .arg(path)
        .stdout(std::process::Stdio::null())
        .env_remove("DSIM_CHILD")
        .status()
        .map(|s| s.code() == Some(1))
        .unwrap_or(false)
}

fn first_lines(s: &str, n: usize) -> String {
    s.lines().take(n).map(|l| l.chars().take(600).collect::<String>()).collect::<Vec<_>>().join("\n")
}

pub fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let focus = text.lines().find_map(|l| l.strip_prefix("property=")).unwrap_or("C00").trim().to_string();
    let scn = match Scn::parse(&text) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    simcore::init(Shared::map());
    simcore::pin(0);
    let end = run_once(simcore::shared(), &scn, &focus);
    let sh = simcore::shared();
    println!("{end:?}: {} tasks, {} steps, {} switches, schedule {:016x}, log {:016x}", sh.tasks, sh.step, sh.switches, sh.sched_hash, sh.log_hash);
    print!("{}", sh.message());
    if end.bad() {
        println!("VIOLATION property={focus} replay={file}");
        1
    } else {
        println!("no violation of {focus}");
        0
    }
}

pub fn one(focus: &str, seed: u64, idx: u64) -> i32 {
    simcore::init(Shared::map());
    simcore::pin(0);
    let scn = gen(focus, seed, idx);
    print!("{}", scn.to_text());
    let end = run_once(simcore::shared(), &scn, focus);
    let sh = simcore::shared();
    println!("{end:?} {:?} violated {:b}", prints(sh), sh.violated);
    for (i, c) in sh.counters.iter().enumerate() {
        if *c > 0 {
            print!("{}={c} ", report::counter_name(i));
        }
    }
    println!();
    print!("{}", sh.message());
    end.bad() as i32
}

/// Runs many scenarios of every property and prints their fingerprints, to be compared between processes.
pub fn determinism(seed: u64, n: u64) -> i32 {
    simcore::init(Shared::map());
    simcore::pin((std::process::id() % 8) as usize);
    for f in (1..=31u32).filter(|f| ![23, 24, 26].contains(f)) {
        let focus = format!("C{f:02}");
        for idx in 0..n {
            let scn = gen(&focus, seed, idx);
            let end = run_once(simcore::shared(), &scn, &focus);
            println!("{focus} {idx} {end:?} {:x?}", prints(simcore::shared()));
        }
    }
    0
}

// ------------------------------------------------------------------ minimisation

struct Mini<'a> {
    focus: &'a str,
    class: u32,
    until: Instant,
    tried: u64,
}

impl Mini<'_> {
    fn fails(&mut self, s: &Scn) -> bool {
        if Instant::now() > self.until {
            return false;
        }
        self.tried += 1;
        run_once(simcore::shared(), s, self.focus).class() == self.class
    }
    /// Removes chunks of a list.
    fn ddmin<T: Clone>(&mut self, base: &Scn, get: fn(&Scn) -> Vec<T>, set: fn(&mut Scn, Vec<T>)) -> Scn {
        let mut s = base.clone();
        let mut list = get(&s);
        let mut chunk = list.len().max(1);
        while !list.is_empty() && Instant::now() < self.until {
            let mut i = 0;
            let mut any = false;
            while i < list.len() {
                let end = (i + chunk).min(list.len());
                let mut l = list.clone();
                l.drain(i..end);
                let mut c = s.clone();
                set(&mut c, l.clone());
                if self.fails(&c) {
                    list = l;
                    s = c;
                    any = true;
                } else {
                    i = end;
                }
            }
            if chunk == 1 && !any {
                break;
            }
            if !any || chunk > list.len() {
                chunk = (chunk / 2).max(1);
            }
        }
        s
    }
}

fn minimise(scn: &Scn, focus: &str, end: End) -> (Scn, String) {
    let mut m = Mini { focus, class: end.class(), until: Instant::now() + Duration::from_secs(45), tried: 0 };
    let mut s = scn.clone();
    let full = simcore::shared().trace_vec();
    // the schedule as explicit preemptions; none at all is simplest
    let mut c = s.clone();
    c.trace = Some(vec![]);
    if m.fails(&c) {
        s = c;
    } else if full.len() < simcore::MAX_TRACE {
        c.trace = Some(full);
        if m.fails(&c) {
            s = c;
        }
    }
    for round in 0..6 {
        let before = s.to_text();
        if s.trace.is_some() {
            s = m.ddmin(&s, |s| s.trace.clone().unwrap(), |s, l| s.trace = Some(l));
        }
        s = m.ddmin(&s, |s| s.faults.clone(), |s, l| s.faults = l);
        // whole runs
        let mut k = 0;
        while k < s.runs.len() && s.runs.len() > 1 {
            let mut c = s.clone();
            c.runs.remove(k);
            c.faults = c
                .faults
                .iter()
                .filter(|f| f.run != k as i64)
                .map(|f| Fault { run: if f.run > k as i64 { f.run - 1 } else { f.run }, ..f.clone() })
                .collect();
            if m.fails(&c) {
                s = c;
            } else {
                k += 1;
            }
        }
        // numbers
        let hd = Head::default();
        for i in 0..Head::NAMES.len() {
            for v in smaller(s.h.get(i), hd.get(i)) {
                if matches!(Head::NAMES[i], "kind" | "alg" | "model") {
                    continue;
                }
                let mut c = s.clone();
                c.h.set(i, v);
                if m.fails(&c) {
                    s = c;
                    break;
                }
            }
        }
        let rd = RunSpec::default();
        for k in 0..s.runs.len() {
            for i in 0..RunSpec::NAMES.len() {
                if crate::scn::ODD.iter().any(|o| o.0 == s.runs[k].get(i)) {
                    continue;
                }
                for v in smaller(s.runs[k].get(i), rd.get(i)) {
                    let mut c = s.clone();
                    c.runs[k].set(i, v);
                    if crate::scn::valid(c.alg(k), &c.runs[k]) == crate::scn::valid(s.alg(k), &s.runs[k]) && m.fails(&c) {
                        s = c;
                        break;
                    }
                }
            }
        }
        for k in 0..s.faults.len() {
            for v in smaller(s.faults[k].nth, 1) {
                let mut c = s.clone();
                c.faults[k].nth = v;
                if v > 0 && m.fails(&c) {
                    s = c;
                    break;
                }
            }
        }
        if s.to_text() == before || round == 5 || Instant::now() > m.until {
            break;
        }
    }
    println!("minimised in {} runs: {} runs, {} faults, {} preemptions", m.tried, s.runs.len(), s.faults.len(), s.trace.as_ref().map(|t| t.len() as i64).unwrap_or(-1));
    run_once(simcore::shared(), &s, focus);
    let msg = simcore::shared().message();
    (s, msg)
}

fn smaller(v: i64, d: i64) -> Vec<i64> {
    let mut o = vec![];
    if v == d {
        return o;
    }
    o.push(d);
    if v > 1 {
        if v > 4 {
            o.push(v / 4);
        }
        o.push(v / 2);
        o.push(v - 1);
    }
    o.retain(|x| *x != v);
    o.dedup();
    o
}
