//! What is explored for each property: alphabets, roots and bounds.

use crate::fam::*;
use crate::{amort, astro, conv, empl, iters, traits};
use crate::vecdrv::{self, *};
use crate::vecdrv::Stats;

pub struct Job {
    pub name: String,
    /// The worker that can do it.
    pub bin: String,
    pub run: Box<dyn Fn(&mut Stats)>,
}

fn cls(f: &str) -> Cls {
    for_family!(f, F => F::CLS)
}

fn vec_job(tag: &str, fam: &'static str, plan: Plan, shards: usize, out: &mut Vec<Job>) {
    let idx = FAMILIES.iter().position(|f| *f == fam).unwrap() as u8;
    for s in 0..shards {
        let bin = format!("vec_{}", group(fam));
        let mut plan = plan.clone();
        plan.shard = (s, shards);
        out.push(Job {
            name: if shards > 1 { format!("{fam}/{tag}#{s}") } else { format!("{fam}/{tag}") },
            bin,
            run: Box::new(move |st| on!(vec { for_mine!(fam, F => vecdrv::explore::<F>(idx, &plan, st)) })),
        });
    }
}

fn fam_no(f: &str) -> u8 {
    FAMILIES.iter().position(|x| *x == f).unwrap() as u8
}
fn flat_job(bin: &str, tag: &str, fam: &'static str, shards: usize, out: &mut Vec<Job>, run: impl Fn(&mut Stats, (usize, usize)) + Clone + 'static) {
    for s in 0..shards {
        let run = run.clone();
        out.push(Job {
            name: if shards > 1 { format!("{fam}/{tag}#{s}") } else { format!("{fam}/{tag}") },
            bin: bin.into(),
            run: Box::new(move |st| run(st, (s, shards))),
        });
    }
}

const ROOM: Op = [WCAPBA, 4, 8, 4, 0]; // 5 elements, 40 bytes, alignment 16
fn roots(_: &str) -> Vec<Vec<Op>> {
    vec![vec![[NEW, 0, 0, 0, 0]], vec![ROOM], vec![[NEW, 0, 0, 0, 0], [PRELOAD, 0, 3, 0, 0]]]
}
/// Vectors of `n` elements: 17 to beyond every one- and (in bytes) two-byte boundary.
fn long_roots(f: &str, level: usize) -> Vec<Vec<Op>> {
    let mut l: Vec<(u8, u16, bool)> = vec![(0, 17, false), (3, 40, true)];
    if level > 0 {
        l.extend([(0, 70, false), (3, 130, true), (0, 260, false), (4, 260, true)]);
    }
    if level > 1 {
        l.extend([(0, 33, true), (1, 64, false), (2, 65, true), (4, 100, false), (3, 200, false), (1, 257, true), (2, 300, false),
            (0, 520, false), (4, 520, true), (3, 1030, false)]);
    }
    if f == "dynhuge" {
        // within what the allocator grants
        l.retain(|&(_, n, _)| n < 70);
    }
    let mut roots: Vec<Vec<Op>> = l.into_iter().map(|(p, n, shrunk)| {
        let [lo, hi] = n.to_le_bytes();
        let mut r = vec![[NEW, 0, 0, 0, 0], [PRELOAD, p, lo, hi, 0]];
        if shrunk {
            r.push([SHR, 0, 0, 0, 0]);
        }
        r
    }).collect();
    // much more room than elements
    let (roomy, aligned): (Op, Op) = ([WCAPBA, 25, 28, 4, 0], [WCAPBA, 27, 25, 6, 0]);
    roots.extend([vec![roomy], vec![roomy, [PRELOAD, 0, 3, 0, 0]], vec![roomy, [PRELOAD, 3, 17, 0, 0]], vec![aligned], vec![aligned, [PRELOAD, 0, 2, 0, 0]]]);
    roots
}
/// Vectors converted from `Vec` and coerced, or collected.
fn from_roots(f: &'static str) -> Vec<Vec<Op>> {
    let mut r = vec![];
    let nk = for_family!(f, F => F::KINDS.len()) as u8;
    let coerces = !matches!(f, "str" | "cstr" | "osstr" | "path");
    for k in 0..if coerces { nk } else { 0 } {
        for n in [0u8, 1, 2, 5, 17] {
            for spare in [0u8, 1, 3] {
                r.push(vec![[FROMVEC, k, n, spare, 0]]);
            }
        }
    }
    for p in 0..6 {
        for h in 0..4 {
            r.push(vec![[COLLECT, p, h, 0, 0]]);
            if p == 3 {
                r.push(vec![[COLLECT, p, h, 40, 0]]);
            }
        }
    }
    r
}
fn ctor_roots() -> Vec<Vec<Op>> {
    let mut r = vec![vec![[NEW, 0, 0, 0, 0]], vec![[DEFAULT, 0, 0, 0, 0]]];
    let ns = [0u8, 1, 3, 7];
    let bs = [0u8, 1, 2, 4, 5, 8];
    for n in ns {
        r.push(vec![[WCAP, n, 0, 0, 0]]);
        for b in bs {
            r.push(vec![[WCAPB, n, b, 0, 0]]);
            for al in [0u8, 1, 3, 4, 6] {
                r.push(vec![[WCAPBA, n, b, al, 0]]);
            }
        }
    }
    r
}

fn plan(prop: u8, roots: Vec<Vec<Op>>, build: u32, depth: usize, judge: u32) -> Plan {
    Plan {
        prop, roots, build, depth, judge, panics: false, ooms: false,
        max_len: 64, max_states: 2_000_000, judge_depth: depth, after: 0, struck_depth: 0, shard: (0, 1),
    }
}

/// How many operations before the one judged.
fn seq_depth(prop: u8, f: &str, level: usize) -> usize {
    if let Some(d) = std::env::var("MC_DEPTH").ok().and_then(|d| d.parse().ok()) {
        return d;
    }
    match level {
        _ if f == "dynhuge" => 1 + level / 2,
        0 => 1,
        1 => match f {
            _ if cls(f) == Cls::Sized => 4,
            "cstr" | "slicezst" | "slice16a16" => 3,
            "osstr" | "dyn" | "wrapdyn" if prop == 1 => 3,
            _ => 2,
        },
        _ => match f {
            _ if cls(f) == Cls::Sized => 6,
            "cstr" | "slicezst" => 4,
            _ => 3,
        },
    }
}
/// The same, where every operation judged is run again for every fault.
fn fault_depth(prop: u8, f: &str, level: usize) -> usize {
    if let Some(d) = std::env::var("MC_DEPTH").ok().and_then(|d| d.parse().ok()) {
        return d;
    }
    match level {
        _ if f == "dynhuge" => level / 2 + (level > 0 && prop != 18) as usize,
        0 => 0,
        1 => match f {
            "slice8" | "slice3" => 1,
            _ if cls(f) == Cls::Sized => 3,
            _ if prop == 11 => 2,
            "cstr" | "slicezst" | "osstr" | "slice16a16" | "sliceplain" => 2,
            "dyn" if prop != 18 => 2,
            _ => 1,
        },
        _ => match f {
            _ if cls(f) == Cls::Sized => 4,
            "cstr" | "slicezst" => 3,
            _ => 2,
        },
    }
}
/// How often the states that faults lead to are explored in turn, and those of which faults.
fn after(f: &str, level: usize) -> (usize, usize) {
    let var = |v: &str| std::env::var(v).ok().and_then(|d| d.parse().ok());
    let sized = (cls(f) == Cls::Sized) as usize;
    (var("MC_AFTER").unwrap_or(level.min(1)), var("MC_STRUCK").unwrap_or(if level > 1 { 1 + sized } else { sized }))
}
fn shards(f: &str) -> usize {
    match f {
        "dyn" | "dynbig" | "dynhuge" | "slice8" | "slice3" | "sliceu8" => 8,
        "wrapbytes" | "wrapdyn" | "str" | "path" | "slice16a16" | "sliceplain" => 4,
        "osstr" | "slicezst" => 2,
        _ => 1,
    }
}

/// `level`: 0 shallow, 1 quick, 2 thorough.
pub fn jobs(prop: u8, level: usize) -> Vec<Job> {
    let mut out = vec![];
    let seq = A_PUSH | A_INS | A_REM;
    for &f in FAMILIES {
        let sh = shards(f);
        let (deep, fdeep) = (seq_depth(prop, f, level), fault_depth(prop, f, level));
        let all = A_PUSHALL | A_INSALL | A_REMALL | A_MUT | A_EXT | A_EXTLONG | A_RES | A_SHR | A_TWO | A_DROP;
        let grow = seq | A_TWO | A_CAPB;
        match prop {
            1 => vec_job("ops", f, plan(1, roots(f), grow, deep, all), sh, &mut out),
            2 => vec_job("ops", f, plan(2, roots(f), grow, deep, all), sh, &mut out),
            3 => vec_job("ops", f, plan(3, roots(f), grow, deep, all | A_SHRALL), sh, &mut out),
            4 => vec_job("ops", f, plan(4, roots(f), grow, deep, A_PUSHALL | A_INSALL | A_REM | A_EXT | A_RES | A_SHRALL | A_TWO), sh, &mut out),
            5 => {
                vec_job("ctor", f, plan(5, ctor_roots(), 0, 0, A_PUSHALL | A_INSALL | A_RES | A_DROP), 1, &mut out);
                vec_job("ops", f, plan(5, roots(f), grow, deep, A_PUSHALL | A_INSALL | A_REMALL | A_MUT | A_RES | A_DROP), sh, &mut out);
            }
            6 => vec_job("ops", f, plan(6, roots(f), grow, deep, A_SHRALL), sh, &mut out),
            7 => flat_job("amort", "growth", f, 4, &mut out, move |st, s| on!(amort { for_mine!(f, F => amort::explore::<F>(7, fam_no(f), if f == "dynhuge" { level / 2 } else { level }, s, st)) })),
            8 => {
                vec_job("ctor", f, plan(8, ctor_roots(), 0, 0, A_EXACT), 1, &mut out);
                vec_job("ops", f, plan(8, roots(f), grow, deep, A_EXACT), sh, &mut out);
            }
            9 => {
                let mut p = plan(9, roots(f), grow, fdeep, A_TRYBOUND | A_RES | A_EXACT);
                p.ooms = true;
                (p.after, p.struck_depth) = after(f, level);
                vec_job("ops", f, p, sh, &mut out);
            }
            10 => {
                flat_job(&format!("iters_{}", group(f)), "calls", f, sh, &mut out, move |st, s| on!(iters { for_mine!(f, F => iters::explore::<F>(10, fam_no(f), level, s, st)) }));
                flat_job(&format!("iters_{}", group(f)), "long", f, sh, &mut out, move |st, s| on!(iters { for_mine!(f, F => iters::explore_long::<F>(10, fam_no(f), level, s, st)) }));
            }
            11 => {
                let mut p = plan(11, roots(f), seq | A_TWO | A_CAPB, fdeep,
                    A_FAULTSRC | A_PUSHALL | A_INSALL | A_REMALL | A_EXT | A_TWO | A_DROP);
                p.panics = true;
                (p.after, p.struck_depth) = after(f, level);
                vec_job("faults", f, p.clone(), sh, &mut out);
                if level > 1 {
                    (p.depth, p.judge_depth, p.after) = (0, 0, 2);
                    vec_job("two faults", f, p, 4, &mut out);
                }
            }
            12 => vec_job("ops", f, plan(12, roots(f), grow, deep, A_OOB | A_INSALL | A_REMALL), sh, &mut out),
            14 => vec_job("from", f, plan(14, from_roots(f), grow, if f == "dynhuge" { level.min(1) } else { level }, all), sh.max(2), &mut out),
            18 => {
                let mut p = plan(18, roots(f), grow, fdeep, A_FAULTSRC | all | A_EXACT);
                p.ooms = true;
                (p.after, p.struck_depth) = after(f, level);
                vec_job("faults", f, p.clone(), sh, &mut out);
                if level > 1 && f != "dynhuge" {
                    (p.depth, p.judge_depth, p.after) = (0, 0, 2);
                    vec_job("two faults", f, p, 4, &mut out);
                }
            }
            _ => {}
        }
        // long vectors
        let judge = match prop {
            1 | 2 => all,
            3 => all | A_SHRALL,
            4 => A_PUSHALL | A_INSALL | A_REM | A_EXT | A_RES | A_SHRALL | A_TWO,
            5 => A_PUSHALL | A_INSALL | A_REMALL | A_MUT | A_RES | A_DROP,
            6 => A_SHRALL,
            8 => A_EXACT,
            9 => A_TRYBOUND | A_RES | A_EXACT,
            12 => A_OOB | A_INSALL | A_REMALL,
            _ => 0,
        };
        if judge != 0 {
            let mut p = plan(prop, long_roots(f, level), A_CAPB | A_TWO, level / 2, judge);
            p.max_len = usize::MAX;
            vec_job("long", f, p, sh, &mut out);
            let mut p = plan(prop, from_roots(f), A_CAPB | A_TWO, level / 2, judge);
            p.ooms = prop == 9;
            vec_job("from", f, p, sh, &mut out);
        }
        if matches!(prop, 11 | 18) {
            let judge = if prop == 11 { A_FAULTSRC | A_PUSHALL | A_INSALL | A_REMALL | A_EXT | A_TWO | A_DROP } else { A_FAULTSRC | all | A_EXACT };
            let mut p = plan(prop, long_roots(f, level.saturating_sub(1)), 0, 0, judge);
            p.panics = prop == 11;
            p.ooms = prop == 18;
            vec_job("long", f, p, 1, &mut out);
            let mut p = plan(prop, from_roots(f), A_CAPB, level / 2, judge);
            p.panics = prop == 11;
            p.ooms = prop == 18;
            vec_job("from", f, p, sh, &mut out);
        }
    }
    if prop == 7 {
        for half in 0..2 {
            let name = ["large elements", "many elements"][half].into();
            out.push(Job { name, bin: "amort".into(), run: Box::new(move |st| on!(amort { amort::explore_big(prop, level, half, st) })) });
        }
        out.push(Job { name: "Vec::extend".into(), bin: "amort".into(), run: Box::new(move |st| on!(amort { amort::explore_vec(prop, level, st) })) });
    }
    if prop == 11 || prop == 18 {
        out.push(Job { name: "clone".into(), bin: "traits".into(), run: Box::new(move |st| on!(traits { traits::explore_faults(prop, prop == 18, level, st) })) });
    }
    if (15..18).contains(&prop) {
        for j in 0..=FAMILIES.len() + 11 {
            let name = match j {
                0 => "general".into(),
                j if j <= FAMILIES.len() => FAMILIES[j - 1].to_string(),
                j if j <= FAMILIES.len() + 6 => format!("long lists {}", j - FAMILIES.len() - 1),
                j => format!("texts {}", j - FAMILIES.len() - 7),
            };
            let bin = match j {
                j if j >= 1 && j <= FAMILIES.len() => format!("empl_{}", group(FAMILIES[j - 1])),
                j if j <= FAMILIES.len() + 6 => "empl_lists".into(),
                _ => "empl_texts".into(),
            };
            out.push(Job { name, bin, run: Box::new(move |st| anyon!(empl lists texts { empl::explore(prop, j, level, st) })) });
        }
    }
    if prop == 17 {
        out.push(Job { name: "with_emplacable_for".into(), bin: "empl_lists".into(), run: Box::new(move |st| on!(lists { empl::explore_with(prop, st) })) });
    }
    if prop == 14 {
        for j in 0..=FAMILIES.len() {
            let name = if j == 0 { "general".into() } else { format!("{}/conversions", FAMILIES[j - 1]) };
            out.push(Job { name, bin: "conv".into(), run: Box::new(move |st| on!(conv { conv::explore(14, j, level, st) })) });
        }
    }
    if matches!(prop, 1 | 3 | 4 | 5 | 9 | 10 | 12 | 14) {
        for s in 0..4 {
            out.push(Job { name: format!("astronomic lengths#{s}"), bin: "astro".into(),
                run: Box::new(move |st| on!(astro { astro::explore(prop, level, (s, 4), st) })) });
        }
    }
    if prop == 13 {
        for j in 0..traits::JOBS {
            out.push(Job { name: traits::job_name(j), bin: "traits".into(), run: Box::new(move |st| on!(traits { traits::explore(13, j, level, st) })) });
        }
    }
    out
}

/// The worker that can run a recorded case.
pub fn bin_of(case: &[u8]) -> String {
    let at = |i: usize| case.get(i).copied().unwrap_or(0) as usize;
    let fam = |i: usize| group(FAMILIES.get(at(i)).copied().unwrap_or(""));
    match case.first() {
        Some(b'V') => format!("vec_{}", fam(2)),
        Some(b'I') => format!("iters_{}", fam(2)),
        Some(b'A') => "amort".into(),
        Some(b'X') => "conv".into(),
        Some(b'Z') => "astro".into(),
        Some(b'T') => "traits".into(),
        _ => match at(2) {
            0 | 1 => format!("empl_{}", fam(5)),
            7 => "empl_texts".into(),
            _ => "empl_lists".into(),
        },
    }
}
/// The workers a property needs.
pub fn bins(prop: u8) -> Vec<String> {
    let mut v: Vec<String> = (0..3).flat_map(|l| jobs(prop, l)).map(|j| j.bin).collect();
    v.sort();
    v.dedup();
    v
}
