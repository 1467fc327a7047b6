//! Library operators called from user callbacks, each result checked against a small reference.
use crate::model::TestRng;
use crate::world::{count, ctr, viol, viol_any, Injected};
use rusty_genes::*;
use simcore::no_preempt;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

fn name(op: i64) -> &'static str {
    match op % 10 {
        0 => "GPX2",
        1 => "SCX",
        2 => "ERX",
        3 => "PMX",
        4 => "OX",
        5 => "CX",
        6 => "SPX",
        _ => "shuffle",
    }
}

pub fn xstrategy(op: i64) -> CrossoverStrategy {
    match op {
        0 => CrossoverStrategy::GeneralizedPartition2,
        1 => CrossoverStrategy::SequentialConstructive,
        2 => CrossoverStrategy::EdgeRecombination,
        3 => CrossoverStrategy::PartiallyMapped,
        4 => CrossoverStrategy::Order,
        5 => CrossoverStrategy::Cycle,
        _ => CrossoverStrategy::SinglePoint,
    }
}

pub fn mstrategy(op: i64) -> MutationStrategy {
    match op {
        0 => MutationStrategy::Swap,
        1 => MutationStrategy::Scramble,
        2 => MutationStrategy::Inversion,
        3 => MutationStrategy::Insertion,
        _ => MutationStrategy::Duplicate,
    }
}

/// Runs library code; a panic that was not injected violates `tags`.
fn guarded<T>(tags: &[u32], what: &dyn Fn() -> String, f: impl FnOnce() -> T) -> T {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => x,
        Err(e) => {
            if e.downcast_ref::<Injected>().is_none() {
                let _q = no_preempt();
                viol_any(tags, format!("{} panicked: {}", what(), crate::evo::last_panic()));
            }
            resume_unwind(e)
        }
    }
}

pub struct Cut {
    pub range: Option<(usize, usize)>,
    pub point: Option<usize>,
    pub pivot: Option<u16>,
}

pub fn crossover<const L: usize>(op: i64, p1: &[u16], p2: &[u16], rng: &mut TestRng<L>, perm: bool) -> Vec<u16> {
    let n = p1.len();
    if op == 7 || p1.len() != p2.len() {
        // the harness's own: a random rearrangement of the first parent
        let mut v = p1.to_vec();
        for i in (1..v.len()).rev() {
            v.swap(i, rng.below(i + 1));
        }
        return v;
    }
    let mut cut = Cut { range: None, point: None, pivot: None };
    let what = |c: &Cut| format!("{} of {:?} and {:?} (range {:?} point {:?} pivot {:?}, interface {})", name(op), p1, p2, c.range, c.point, c.pivot, if op < 10 { "strategy" } else { "function" });
    if op >= 10 {
        match op {
            11 | 12 => {
                if n > 0 {
                    cut.pivot = Some(p1[rng.below(n)])
                }
            }
            13 | 14 => {
                let a = rng.below(n + 1);
                let b = rng.below(n + 1);
                cut.range = Some(match rng.below(6) {
                    0 => (a, a),
                    1 => (0, n),
                    2 => (0, a),
                    3 => (a, n),
                    _ => (a.min(b), a.max(b)),
                });
            }
            16 => cut.point = Some(rng.below(n + 2)),
            _ => {}
        }
    }
    let tags: &[u32] = if op % 10 == 6 { &[19, 12] } else { &[18, 12] };
    let off = guarded(tags, &|| what(&cut), || match op {
        0..=6 => xstrategy(op).crossover(p1, p2, rng),
        10 => generalized_partition_2_crossover(p1, p2, |_, parts| rng.below(parts.len())),
        11 => match cut.pivot {
            Some(p) => sequential_constructive_crossover(p1, p2, p),
            None => vec![],
        },
        12 => match cut.pivot {
            Some(p) => edge_recombination_crossover(p1, p2, p),
            None => vec![],
        },
        13 => {
            let (a, b) = cut.range.unwrap();
            partially_mapped_crossover(p1, p2, a..b)
        }
        14 => {
            let (a, b) = cut.range.unwrap();
            order_crossover(p1, p2, a..b)
        }
        15 => cycle_crossover(p1, p2),
        _ => single_point_crossover(p1, p2, cut.point.unwrap()),
    });
    let _q = no_preempt();
    count(ctr::OPCHECKS, 1);
    check_crossover(op, p1, p2, &off, &cut, perm, &|| what(&cut));
    off
}

fn pmx_ref(p1: &[u16], p2: &[u16], a: usize, b: usize) -> Vec<u16> {
    let mut o = p1.to_vec();
    for i in 0..p1.len() {
        if i < a || i >= b {
            let mut g = p2[i];
            while let Some(k) = (a..b).find(|&k| p1[k] == g) {
                g = p2[k];
            }
            o[i] = g;
        }
    }
    o
}

fn ox_ref(p1: &[u16], p2: &[u16], a: usize, b: usize) -> Vec<u16> {
    let n = p1.len();
    let mut o = p1.to_vec();
    let fill: Vec<u16> = (0..n).map(|i| p2[(b + i) % n]).filter(|g| !p1[a..b].contains(g)).collect();
    for (k, g) in fill.iter().enumerate() {
        o[(b + k) % n] = *g;
    }
    o
}

fn adjacent(g: &[u16]) -> std::collections::BTreeSet<(u16, u16)> {
    let n = g.len();
    (0..n)
        .map(|i| {
            let (a, b) = (g[i], g[(i + 1) % n]);
            (a.min(b), a.max(b))
        })
        .collect()
}

fn check_crossover(op: i64, p1: &[u16], p2: &[u16], off: &[u16], cut: &Cut, perm: bool, what: &dyn Fn() -> String) {
    let n = p1.len();
    let k = op % 10;
    if off.len() != n {
        viol(&[18, 19], format!("{} returned {} genes: {off:?}", what(), off.len()));
        return;
    }
    if k == 6 {
        // single point
        let ok = match cut.point {
            Some(p) => (0..n).all(|i| off[i] == if i < p { p1[i] } else { p2[i] }),
            None => n == 0 || (0..=n).any(|p| (0..n).all(|i| off[i] == if i < p { p1[i] } else { p2[i] })),
        };
        if !ok {
            viol(&[19], format!("{} returned {off:?}", what()));
        }
        return;
    }
    if !perm {
        return;
    }
    let mut s = off.to_vec();
    s.sort_unstable();
    let mut t = p1.to_vec();
    t.sort_unstable();
    if s != t {
        viol(&[18], format!("{} returned {off:?}, not a permutation", what()));
        return;
    }
    if n < 2 {
        return;
    }
    let pos = |g: u16, v: &[u16]| v.iter().position(|x| *x == g).unwrap();
    match k {
        0 => {
            if n >= 3 {
                let common: Vec<_> = adjacent(p1).intersection(&adjacent(p2)).cloned().collect();
                let have = adjacent(off);
                let lost = common.iter().filter(|c| !have.contains(c)).count();
                if lost > 1 {
                    viol(&[19], format!("{} returned {off:?}: {lost} common adjacencies lost", what()));
                }
            }
        }
        1 => {
            if cut.pivot.map(|p| p != off[0]).unwrap_or(false) {
                viol(&[19], format!("{} returned {off:?}: does not start at the pivot", what()));
            }
            for i in 1..n {
                let seen = &off[..i];
                let s1 = p1[(pos(off[i - 1], p1) + 1) % n];
                let s2 = p2[(pos(off[i - 1], p2) + 1) % n];
                let c: Vec<u16> = [s1, s2].into_iter().filter(|g| !seen.contains(g)).collect();
                if !c.is_empty() && !c.contains(&off[i]) {
                    viol(&[19], format!("{} returned {off:?}: position {i} is not a parental successor although one is unvisited", what()));
                    break;
                }
            }
        }
        2 => {
            if cut.pivot.map(|p| p != off[0]).unwrap_or(false) {
                viol(&[19], format!("{} returned {off:?}: does not start at the pivot", what()));
            }
            let nb = |g: u16| -> std::collections::BTreeSet<u16> {
                [p1, p2]
                    .iter()
                    .flat_map(|p| {
                        let i = pos(g, p);
                        [p[(i + 1) % n], p[(i + n - 1) % n]]
                    })
                    .collect()
            };
            for i in 1..n {
                let seen = &off[..i];
                let free = |g: u16| nb(g).into_iter().filter(|x| !seen.contains(x)).count();
                let c: Vec<u16> = nb(off[i - 1]).into_iter().filter(|g| !seen.contains(g)).collect();
                if c.is_empty() {
                    continue;
                }
                let min = c.iter().map(|g| free(*g)).min().unwrap();
                if !c.contains(&off[i]) || free(off[i]) != min {
                    viol(&[19], format!("{} returned {off:?}: position {i} is not a parental neighbour with the fewest unvisited neighbours", what()));
                    break;
                }
            }
        }
        3 | 4 => {
            let f: &dyn Fn(usize, usize) -> Vec<u16> = if k == 3 { &|a, b| pmx_ref(p1, p2, a, b) } else { &|a, b| ox_ref(p1, p2, a, b) };
            let ok = match cut.range {
                // an empty range leaves nothing of the first parent to keep
                Some((a, b)) if a == b => off == p2 || off == f(a, b),
                Some((a, b)) => off == f(a, b),
                None if n > 48 => true,
                None => (0..n).any(|a| (a + 1..=n).any(|b| off == f(a, b))),
            };
            if !ok {
                viol(&[19], format!("{} returned {off:?}", what()));
            }
        }
        _ => {
            // cycles in order of their first position, alternating parents
            let mut done = vec![false; n];
            let mut first = true;
            for i in 0..n {
                if done[i] {
                    continue;
                }
                let mut j = i;
                while !done[j] {
                    done[j] = true;
                    let want = if first { p1[j] } else { p2[j] };
                    if off[j] != want {
                        viol(&[19], format!("{} returned {off:?}: position {j} is not from the {} parent", what(), if first { "first" } else { "second" }));
                        return;
                    }
                    j = pos(p2[j], p1);
                }
                first = !first;
            }
        }
    }
}

pub fn mutate<const L: usize>(op: i64, g: &mut [u16], rng: &mut TestRng<L>) {
    if op >= 5 {
        if g.len() > 1 {
            let i = rng.below(g.len());
            let j = rng.below(g.len());
            g.swap(i, j);
        }
        return;
    }
    let before = g.to_vec();
    let api = rng.below(2);
    let what = || format!("{:?} of {before:?}", mstrategy(op));
    guarded(&[20, 12], &what, || {
        if api == 0 {
            mstrategy(op).mutate(g, rng)
        } else {
            match op {
                0 => swap_mutation(g, rng),
                1 => scramble_mutation(g, rng),
                2 => inversion_mutation(g, rng),
                3 => insertion_mutation(g, rng),
                _ => duplicate_mutation(g, rng),
            }
        }
    });
    let _q = no_preempt();
    count(ctr::OPCHECKS, 1);
    check_mutation(op, &before, g, &what);
}

fn check_mutation(op: i64, b: &[u16], a: &[u16], what: &dyn Fn() -> String) {
    let n = b.len();
    let bad = || viol(&[20], format!("{} gave {a:?}", what()));
    if n < 2 {
        if a != b {
            bad();
        }
        return;
    }
    let differs: Vec<usize> = (0..n).filter(|&i| a[i] != b[i]).collect();
    let same_pair = |far: usize| (1..=far).any(|d| (d..n).any(|i| b[i] == b[i - d]));
    // the range in which the genomes differ, as it was before
    let span = |f: &dyn Fn(&mut [u16])| {
        let (i, j) = (differs[0], differs[differs.len() - 1]);
        let mut v = b[i..=j].to_vec();
        f(&mut v);
        v[..] == a[i..=j]
    };
    let ok = match op {
        // exchanging equal genes changes nothing
        0 => match differs[..] {
            [] => same_pair(n - 1),
            [i, j] => a[i] == b[j] && a[j] == b[i],
            _ => false,
        },
        1 => {
            let (mut x, mut y) = (a.to_vec(), b.to_vec());
            x.sort_unstable();
            y.sort_unstable();
            x == y
        }
        // a palindrome contains one of two or three genes
        2 if differs.is_empty() => same_pair(2),
        2 => span(&|v| v.reverse()),
        3 if differs.is_empty() => same_pair(1),
        3 => span(&|v| v.rotate_left(1)) || span(&|v| v.rotate_right(1)),
        _ => match differs[..] {
            [] => same_pair(n - 1),
            [k] => (0..n).any(|i| i != k && b[i] == a[k]),
            _ => false,
        },
    };
    if !ok {
        bad();
    }
}
