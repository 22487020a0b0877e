//! Runs the jobs of a property in worker processes, gathers what they covered, and reports.

use crate::plans::{bin_of, bins, jobs};
use crate::rt;
use crate::vecdrv::Stats;
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

fn dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_DIR").unwrap_or_else(|_| "/verif".into()))
}
fn prop_no(p: &str) -> u8 {
    p.trim_start_matches('C').parse().unwrap_or_else(|_| {
        eprintln!("unknown property {p}");
        std::process::exit(2)
    })
}
fn tier() -> String {
    let t = std::env::var("VERIF_TIER").unwrap_or_default();
    if t == "thorough" { t } else { "quick".into() }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// A case written out, by the worker it belongs to.
pub fn describe_here(case: &str) -> i32 {
    let case = unhex(case);
    println!("{}", match case.first() {
        Some(b'V') => on!(vec { crate::vecdrv::describe(&case) }),
        Some(b'I') => on!(iters { crate::iters::describe(&case) }),
        Some(b'A') => on!(amort { crate::amort::describe(&case) }),
        Some(b'E') => anyon!(empl lists texts { crate::empl::describe(&case) }),
        Some(b'X') => on!(conv { crate::conv::describe(&case) }),
        Some(b'Z') => on!(astro { crate::astro::describe(&case) }),
        Some(b'T') => on!(traits { crate::traits::describe(&case) }),
        _ => format!("case {}", hex(&case)),
    });
    0
}
fn describe(case: &[u8]) -> String {
    let exe = std::env::current_exe().unwrap().with_file_name(bin_of(case));
    match Command::new(exe).args(["describe", &hex(case)]).stdin(Stdio::null()).stderr(Stdio::null()).output() {
        Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).trim_end().to_string(),
        _ => format!("case {}", hex(case)),
    }
}
/// Runs one recorded case again.
fn run_case(case: &[u8]) -> Vec<String> {
    match case.first() {
        Some(b'V') => crate::vecdrv::rerun(case),
        Some(b'I') => crate::iters::rerun(case),
        Some(b'A') => crate::amort::rerun(case),
        Some(b'E') => anyon!(empl lists texts { crate::empl::rerun(case) }),
        Some(b'X') => crate::conv::rerun(case),
        Some(b'Z') => crate::astro::rerun(case),
        Some(b'T') => crate::traits::rerun(case),
        _ => vec!["unknown case".into()],
    }
}

pub fn list(p: &str, level: &str) -> i32 {
    for (i, j) in jobs(prop_no(p), level.parse().unwrap()).iter().enumerate() {
        println!("{i} {} ({})", j.name, j.bin);
    }
    0
}

pub fn list_bins(p: &str) -> i32 {
    println!("{}", bins(prop_no(p)).join(" "));
    0
}

pub fn work(p: &str, level: &str, job: usize, status: &str) -> i32 {
    rt::open_status(status);
    let js = jobs(prop_no(p), level.parse().unwrap());
    let mut st = Stats::default();
    (js[job].run)(&mut st);
    let mut out = String::new();
    let _ = writeln!(
        out, "STAT {} {} {} {} {} {} {}",
        st.states, st.transitions, st.execs, st.faults, st.other, st.truncated, st.depth
    );
    for s in &st.samples {
        let _ = writeln!(out, "SAMPLE {}", s.replace('\n', " "));
    }
    for (w, c) in &st.fails {
        let _ = writeln!(out, "FAIL {} {}", hex(c), w.replace('\n', " "));
    }
    if std::env::var("MC_OTHER").is_ok() {
        for s in &st.others {
            let _ = writeln!(out, "OTHER {s}");
        }
    }
    let _ = writeln!(out, "DONE");
    std::io::stdout().write_all(out.as_bytes()).unwrap();
    0
}

pub fn rerun(case: &str) -> i32 {
    let case = unhex(case);
    let fails = run_case(&case);
    for f in &fails {
        println!("FAILED {f}");
    }
    println!("DONE");
    (!fails.is_empty()) as i32
}

/// Runs one case in a child process.
fn rerun_child(exe: &Path, case: &[u8]) -> Vec<String> {
    let mut ch = Command::new(exe)
        .args(["rerun", &hex(case)])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t = Instant::now();
    loop {
        if let Some(_) = ch.try_wait().unwrap() {
            break;
        }
        if t.elapsed() > Duration::from_secs(60) {
            let _ = ch.kill();
            let _ = ch.wait();
            return vec!["does not terminate".into()];
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let o = ch.wait_with_output().unwrap();
    let s = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut v: Vec<String> = s.lines().filter_map(|l| l.strip_prefix("FAILED ")).map(String::from).collect();
    if !s.lines().any(|l| l == "DONE") {
        v.push(format!("the process died ({})", o.status));
    }
    v
}

pub fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let case = text.lines().find_map(|l| l.strip_prefix("case=")).unwrap_or("");
    let case = unhex(case);
    println!("{}", describe(&case));
    let exe = text.lines().find_map(|l| l.strip_prefix("profile="))
        .and_then(|p| builds().into_iter().find(|e| e.0 == p))
        .map_or_else(|| std::env::current_exe().unwrap().parent().unwrap().to_path_buf(), |e| e.1);
    let f = rerun_child(&exe.join(bin_of(&case)), &case);
    for x in &f {
        println!("FAILED {x}");
    }
    if f.is_empty() {
        println!("ok: does not fail");
    }
    (!f.is_empty()) as i32
}

/// Where the workers are: built with debug assertions, and without.
fn builds() -> Vec<(&'static str, PathBuf)> {
    let me = std::env::current_exe().unwrap();
    let mut v = vec![];
    let target = me.parent().unwrap().parent().unwrap();
    for (name, d) in [("debug", "debug"), ("release", "release")] {
        let e = target.join(d);
        if e.join("mc").exists() && std::env::var("MC_ONLY").map_or(true, |o| o == name) {
            v.push((name, e));
        }
    }
    v
}

struct Running {
    child: Child,
    job: usize,
    status: PathBuf,
    out: PathBuf,
    last: u64,
    since: Instant,
    start: Instant,
}

fn read_status(p: &Path) -> (u64, Vec<u8>) {
    let b = std::fs::read(p).unwrap_or_default();
    if b.len() < 16 {
        return (0, vec![]);
    }
    let c = u64::from_ne_bytes(b[..8].try_into().unwrap());
    let n = u64::from_ne_bytes(b[8..16].try_into().unwrap()) as usize;
    (c, b[16..(16 + n).min(b.len())].to_vec())
}
fn read_counter(p: &Path) -> u64 {
    use std::io::Read;
    let mut b = [0u8; 8];
    match std::fs::File::open(p).and_then(|mut f| f.read_exact(&mut b)) {
        Ok(()) => u64::from_ne_bytes(b),
        Err(_) => 0,
    }
}

const HANG: Duration = Duration::from_secs(90);

fn known(prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(dir().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            // finding: property=<id> case=<hex> <what>
            let l = l.strip_prefix("finding: property=")?;
            let (id, l) = l.split_once(' ')?;
            let l = l.strip_prefix("case=")?;
            let (case, what) = l.split_once(' ')?;
            (id == prop).then(|| (case.to_string(), what.to_string()))
        })
        .collect()
}

fn js_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let tier = tier();
    let no = prop_no(prop);
    // with debug assertions as deep as the tier says, without them a little less deep
    let t = (tier == "thorough") as usize;
    let mut js: Vec<(String, PathBuf, usize, usize)> = vec![];
    let only = std::env::var("MC_BINS");
    for (name, place) in &builds() {
        let level = if *name == "debug" { t + 1 } else { t };
        for (i, j) in jobs(no, level).iter().enumerate() {
            // for trying out: some of the workers only
            if only.as_ref().is_ok_and(|o| !o.split(',').any(|b| b == j.bin)) {
                continue;
            }
            let n = if *name == "debug" { j.name.clone() } else { format!("{}@{name}", j.name) };
            js.push((n, place.join(&j.bin), level, i));
        }
    }
    if js.is_empty() {
        eprintln!("no jobs for {prop}");
        return 2;
    }
    let dir = dir();
    let out_dir = dir.join("out");
    let work_dir = out_dir.join(format!("work-{prop}-{}", std::process::id()));
    std::fs::create_dir_all(&work_dir).unwrap();
    std::fs::create_dir_all(dir.join("evidence")).unwrap();
    let par: usize = std::env::var("MC_JOBS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    let mut todo: Vec<usize> = (0..js.len()).rev().collect();
    let mut running: Vec<Running> = vec![];
    let mut tot = [0u64; 7];
    let mut depth = 0;
    let mut samples: Vec<String> = vec![];
    let mut others: Vec<String> = vec![];
    // (what, case, job)
    let mut fails: Vec<(String, Vec<u8>, String)> = vec![];
    let mut broken: Vec<String> = vec![];
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    let mut stop = false;
    while !todo.is_empty() || !running.is_empty() {
        while running.len() < par && !stop {
            let Some(job) = todo.pop() else { break };
            let status = work_dir.join(format!("{job}.status"));
            let out = work_dir.join(format!("{job}.out"));
            let (_, exe, level, idx) = &js[job];
            let child = Command::new(exe)
                .args(["work", prop, &level.to_string(), &idx.to_string(), status.to_str().unwrap()])
                .stdin(Stdio::null())
                .stdout(std::fs::File::create(&out).unwrap())
                .stderr(std::fs::File::create(work_dir.join(format!("{job}.err"))).unwrap())
                .spawn()
                .unwrap();
            running.push(Running { child, job, status, out, last: 0, since: Instant::now(), start: Instant::now() });
        }
        if stop {
            todo.clear();
        }
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < running.len() {
            let r = &mut running[i];
            let mut hung = false;
            let ended = match r.child.try_wait().unwrap() {
                Some(s) => Some(s),
                None => {
                    let c = read_counter(&r.status);
                    if c != r.last {
                        r.last = c;
                        r.since = Instant::now();
                    } else if r.since.elapsed() > HANG {
                        hung = true;
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                    }
                    None
                }
            };
            if ended.is_none() && !hung {
                i += 1;
                continue;
            }
            let r = running.swap_remove(i);
            let text = std::fs::read_to_string(&r.out).unwrap_or_default();
            let name = &js[r.job].0;
            let mut done = false;
            for l in text.lines() {
                if let Some(s) = l.strip_prefix("STAT ") {
                    let v: Vec<u64> = s.split(' ').map(|x| x.parse::<u64>().unwrap()).collect();
                    for k in 0..6 {
                        tot[k] += v[k];
                    }
                    depth = depth.max(v[6]);
                    if verbose {
                        eprintln!("{name}: {s} in {:.1}s", r.start.elapsed().as_secs_f64());
                    }
                } else if let Some(s) = l.strip_prefix("SAMPLE ") {
                    samples.push(format!("{name}: {s}"));
                } else if let Some(s) = l.strip_prefix("FAIL ") {
                    let (c, w) = s.split_once(' ').unwrap();
                    fails.push((w.to_string(), unhex(c), name.clone()));
                } else if let Some(s) = l.strip_prefix("OTHER ") {
                    others.push(format!("{name}: {s}"));
                } else if l == "DONE" {
                    done = true;
                }
            }
            if hung {
                let (_, c) = read_status(&r.status);
                fails.push(("does not terminate".into(), c, name.clone()));
            } else if !done {
                let (n, c) = read_status(&r.status);
                let err = std::fs::read_to_string(work_dir.join(format!("{}.err", r.job))).unwrap_or_default();
                let err = err.lines().last().unwrap_or("").to_string();
                if n == 0 {
                    broken.push(format!("{name}: worker failed before the first case ({:?}) {err}", ended));
                } else {
                    fails.push((format!("the process died ({}) {err}", ended.unwrap()), c, name.clone()));
                }
            }
            if fails.len() >= 60 {
                stop = true;
            }
        }
    }
    // A crash of a worker counts only if the case crashes (or fails) on its own too.
    let exe_of = |name: &str| js.iter().find(|j| j.0 == name).unwrap().1.as_path();
    let mut findings = vec![];
    let kn = known(prop);
    let mut seen_known = vec![false; kn.len()];
    let mut shown = 0;
    let mut nviol = 0u64;
    fails.sort_by_key(|f| f.1.len());
    for (what, case, name) in &fails {
        if let Some(i) = kn.iter().position(|k| k.0 == hex(case)) {
            if !seen_known[i] {
                seen_known[i] = true;
                findings.push(format!("{prop} {}", kn[i].1));
            }
            continue;
        }
        let again = if shown < 6 { rerun_child(exe_of(name), case) } else { vec![what.clone()] };
        if again.is_empty() {
            broken.push(format!("{name}: not reproducible: {what}: {}", describe(case)));
            continue;
        }
        nviol += 1;
        if shown < 12 {
            shown += 1;
            let path = out_dir.join(format!("{prop}-{shown}.replay"));
            let text = format!(
                "property={prop}\njob={name}\nprofile={}\ncase={}\nwhat={what}\n{}\nreplay with: mc replay {}\n",
                if name.ends_with("@release") { "release" } else { "debug" }, hex(case), describe(case), path.display()
            );
            let _ = std::fs::write(&path, text);
            println!("VIOLATION property={prop} replay={}", path.display());
            println!("  {what}");
            println!("  {}", describe(case).replace('\n', "\n  "));
        }
    }
    for f in &findings {
        println!("KNOWN-FINDING: property={f}");
    }
    for o in others.iter().take(40) {
        println!("other: {o}");
    }
    // evidence
    let mut picked: Vec<String> = vec![];
    let step = (samples.len() / 12).max(1);
    for s in samples.iter().step_by(step).take(12) {
        picked.push(js_str(s));
    }
    let wall = t0.elapsed().as_secs_f64();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = format!(
        "{{\n \"property\": \"{prop}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \
         \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"faults_injected\": {},\n  \
         \"max_depth\": {depth},\n  \"states_cut_by_bounds\": {},\n  \"failures_belonging_to_other_properties\": {},\n  \"jobs\": {},\n  \
         \"exhaustive\": {},\n  \"explanation\": {},\n  \"samples\": [\n   {}\n  ]\n }},\n \
         \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {nviol}\n}}\n",
        tot[0], tot[1], tot[2], tot[3], tot[5], tot[4], js.len(),
        tot[5] == 0 && fails.is_empty() && broken.is_empty(),
        js_str("Every operation sequence (or call sequence, input shape and fault point) of the stated alphabets within the stated bounds was executed on the real code. states: distinct canonical states from which all operations of the judged alphabet were tried; transitions: operations judged; traces_validated_against_impl: histories executed from scratch on fresh real objects and compared with the reference model; exhaustive: no state within the depth bound was dropped because of the length or state-count bounds."),
        picked.join(",\n   "),
        js_str("the harness's reference model, element types and checking allocator; the compiler and standard library pinned by the repository; single-threaded use"),
    );
    std::fs::write(dir.join("evidence").join(format!("{prop}.json")), ev).unwrap();
    let _ = std::fs::remove_dir_all(&work_dir);
    println!(
        "{prop} {tier}: {} states, {} transitions, {} executions, {} faults, {} cut, {} other, depth {depth}, {:.1}s, {nviol} violations",
        tot[0], tot[1], tot[2], tot[3], tot[5], tot[4], wall
    );
    if nviol > 0 {
        return 1;
    }
    if !broken.is_empty() {
        for b in &broken {
            eprintln!("error: {b}");
        }
        return 3;
    }
    0
}
