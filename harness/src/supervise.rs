//! Workers, failure triage, shrinking, replay files and evidence.
use crate::run::*;
use crate::sim::{Stats, Violation};
use crate::tape::Lane;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}
fn me() -> PathBuf {
    std::env::current_exe().unwrap()
}
fn verif() -> PathBuf {
    std::env::var("FSIM_HOME").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

// ---------------------------------------------------------------- worker
/// id seed worker workers runs dir seconds
pub fn worker(a: &[String]) -> i32 {
    install_hook();
    let p = find(&a[0]).unwrap();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, w, nw, runs, secs) = (n(1), n(2), n(3), n(4), n(6));
    let dir = Path::new(&a[5]);
    let prog = fs::OpenOptions::new().write(true).create(true).open(dir.join(format!("p{w}"))).unwrap();
    let start = Instant::now();
    let mut st = Stats::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let (mut done, mut nontrivial, mut sim_time, mut steps, mut reruns, mut diverged) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<J> = vec![];
    let mut i = w;
    while i < runs {
        prog.write_all_at(&(i + 1).to_le_bytes(), 0).unwrap();
        let s = run_seed(seed, p.id, i);
        let verbose = i < 3;
        let o = execute(p, seed_lanes(s), verbose);
        done += 1;
        sim_time += o.sim_time;
        steps += o.steps;
        for (k, v) in &o.stats.counts {
            st.add(k, *v);
        }
        if o.nontrivial {
            nontrivial += 1;
            seen.insert(o.trace);
        }
        if verbose {
            samples.push(json!({"run": i, "seed": s, "trace_hash": format!("{:016x}", o.trace), "scenario": o.desc, "device_log_head": o.log.iter().filter(|l| !l.starts_with('#')).take(12).collect::<Vec<_>>()}));
        }
        if let Some(v) = o.fail {
            let f = json!({"run": i, "class": v.class, "detail": v.detail});
            fs::write(dir.join(format!("fail{w}")), f.to_string()).unwrap();
            break;
        }
        // one seed is one execution: sampled re-execution, from the seed and from its tapes
        if (i / nw) % 512 == 0 {
            reruns += 1;
            let a = execute(p, seed_lanes(s), false);
            let b = execute(p, o.tapes.lanes(), false);
            if a.trace != o.trace || b.trace != o.trace || a.fail.is_some() || b.fail.is_some() {
                diverged += 1;
            }
        }
        if done % 64 == 0 {
            if start.elapsed().as_secs() >= secs {
                break;
            }
            if let Ok(s) = fs::read_to_string(dir.join("stop")) {
                if i > s.trim().parse().unwrap_or(u64::MAX) {
                    break;
                }
            }
        }
        i += nw;
    }
    let mut h = Vec::with_capacity(seen.len() * 8);
    for x in &seen {
        h.extend_from_slice(&x.to_le_bytes());
    }
    fs::write(dir.join(format!("h{w}")), h).unwrap();
    let counts: BTreeMap<String, u64> = st.counts.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    let out = json!({"done": done, "nontrivial": nontrivial, "sim_time": sim_time, "steps": steps, "reruns": reruns, "diverged": diverged, "counts": counts, "samples": samples});
    fs::write(dir.join(format!("w{w}")), out.to_string()).unwrap();
    0
}

// ---------------------------------------------------------------- check
struct Failure {
    run: u64,
    v: Violation,
}

pub fn check(id: &str) -> i32 {
    let Some(p) = find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let runs = env_u64("FSIM_RUNS", if tier == "quick" { p.quick } else { p.thorough });
    let secs = env_u64("FSIM_SECS", if tier == "quick" { 420 } else { 3600 });
    let cores = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4);
    let nw = env_u64("FSIM_WORKERS", cores.clamp(1, 8));
    let home = verif();
    let dir = home.join("harness/target").join(format!("fsim-work-{}-{}", id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let code = check_in(p, seed, tier, runs, secs, nw, &home, &dir, t0);
    let _ = fs::remove_dir_all(&dir);
    code
}

fn spawn(args: &[String]) -> Child {
    Command::new(me()).args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn worker")
}

#[allow(clippy::too_many_arguments)]
fn check_in(p: &Prop, seed: u64, tier: &str, runs: u64, secs: u64, nw: u64, home: &Path, dir: &Path, t0: Instant) -> i32 {
    let hang = Duration::from_secs(60);
    let mut kids: Vec<(Child, u64, Instant, bool)> = (0..nw)
        .map(|w| {
            let a: Vec<String> = vec!["worker".into(), p.id.into(), seed.to_string(), w.to_string(), nw.to_string(), runs.to_string(), dir.display().to_string(), secs.to_string()];
            (spawn(&a), 0, Instant::now(), false)
        })
        .collect();
    let progress = |w: usize| -> u64 { fs::read(dir.join(format!("p{w}"))).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes).unwrap_or(0) };
    let mut fails: Vec<Failure> = vec![];
    loop {
        let mut live = 0;
        for w in 0..kids.len() {
            let k = &mut kids[w];
            if k.3 {
                continue;
            }
            match k.0.try_wait() {
                Ok(Some(st)) => {
                    k.3 = true;
                    if let Ok(s) = fs::read_to_string(dir.join(format!("fail{w}"))) {
                        let j: J = serde_json::from_str(&s).unwrap();
                        fails.push(Failure { run: j["run"].as_u64().unwrap(), v: Violation { class: j["class"].as_str().unwrap().into(), detail: j["detail"].as_str().unwrap().into() } });
                    } else if !st.success() {
                        let at = progress(w);
                        if at == 0 {
                            eprintln!("worker {w} did not start: {st}");
                            return 2;
                        }
                        fails.push(Failure { run: at - 1, v: abort_violation(st) });
                    }
                    if let Some(m) = fails.iter().map(|f| f.run).min() {
                        let _ = fs::write(dir.join("stop"), m.to_string());
                    }
                }
                Ok(None) => {
                    live += 1;
                    let at = progress(w);
                    if at != k.1 {
                        k.1 = at;
                        k.2 = Instant::now();
                    } else if k.2.elapsed() > hang && at > 0 {
                        let _ = k.0.kill();
                        let _ = k.0.wait();
                        k.3 = true;
                        fails.push(Failure { run: at - 1, v: Violation { class: "hang".into(), detail: "the run did not end within a minute of real time".into() } });
                        let _ = fs::write(dir.join("stop"), fails.iter().map(|f| f.run).min().unwrap().to_string());
                    }
                }
                Err(e) => {
                    eprintln!("wait: {e}");
                    return 2;
                }
            }
        }
        if live == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // aggregate
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut tot: BTreeMap<&str, u64> = BTreeMap::new();
    let mut samples: Vec<J> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    for w in 0..nw {
        if let Ok(s) = fs::read_to_string(dir.join(format!("w{w}"))) {
            let j: J = serde_json::from_str(&s).unwrap();
            for k in ["done", "nontrivial", "sim_time", "steps", "reruns", "diverged"] {
                *tot.entry(k).or_insert(0) += j[k].as_u64().unwrap_or(0);
            }
            for (k, v) in j["counts"].as_object().unwrap() {
                *counts.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
            }
            samples.extend(j["samples"].as_array().unwrap().iter().cloned());
        }
        if let Ok(b) = fs::read(dir.join(format!("h{w}"))) {
            hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    let explore = t0.elapsed().as_secs_f64();
    fails.sort_by_key(|f| f.run);
    let mut replay_path = None;
    let mut shrunk = J::Null;
    if let Some(f) = fails.first() {
        let (path, info) = report(p, seed, f, home, dir);
        replay_path = Some(path);
        shrunk = info;
    }
    let g = |k: &str| tot.get(k).copied().unwrap_or(0);
    let faults: BTreeMap<&String, &u64> = counts.iter().filter(|(k, _)| k.starts_with("fault_") || k.as_str() == "eof_reads").collect();
    let other: BTreeMap<&String, &u64> = counts.iter().filter(|(k, _)| !k.starts_with("fault_")).collect();
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": g("done"),
            "distinct_nontrivial": hashes.len(),
            "nontrivial_runs": g("nontrivial"),
            "rule": format!("{} Two runs count as distinct when the hash over the generated layout, every device event (kind, position, length), every scheduling decision and every client decision differs.", p.rule),
            "samples": samples,
            "planned_runs": runs,
            "stopped_by_time_limit": g("done") < runs && fails.is_empty(),
            "workers": nw,
            "runs_per_hour_one_seed_each": (g("done") as f64 / explore.max(0.001) * 3600.0) as u64,
            "simulated_time_ticks": g("sim_time"),
            "device_calls": g("steps"),
            "faults_injected": faults,
            "events": other,
            "determinism": {"reexecuted_runs": g("reruns"), "diverged": g("diverged")},
            "real_components": ["all of fitsrs (parsing, list traversal, data iterators, async reader, gzip front end, tile decoding, image decoder)", "flate2", "image", "std/futures buffered readers", "the struct command of fits-cli (C16)"],
            "simulated_components": ["storage device (std Read/Seek, futures AsyncRead)", "system calls of files opened by path (open, read, lseek) and captured standard output (C11, C16)", "executor, wakers, clock and timers", "the client program"],
            "stubbed_components": ["wcs crate (absent offline; never called)"],
            "minimised_failure": shrunk,
        },
        "assumptions": ["the generator and reference encoders in /verif/harness describe valid FITS", "the seed determines the run (re-execution counts above)"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": fails.len(),
    });
    let evd = home.join("evidence");
    let _ = fs::create_dir_all(&evd);
    if let Err(e) = fs::write(evd.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{}: {} runs ({} distinct non-trivial), {} device calls, {:.1} s, seed {seed}, tier {tier}",
        p.id, g("done"), hashes.len(), g("steps"), t0.elapsed().as_secs_f64()
    );
    if let Some(path) = replay_path {
        let f = &fails[0];
        println!("run {}: {}: {}", f.run, f.v.class, f.v.detail);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if g("done") == 0 {
        return 2;
    }
    0
}
fn abort_violation(st: std::process::ExitStatus) -> Violation {
    Violation { class: "abort".into(), detail: format!("the process ended: {} (allocation failure, stack exhaustion or abort)", st.signal().map(|s| format!("signal {s}")).unwrap_or_else(|| st.to_string())) }
}

// ---------------------------------------------------------------- triage
fn tj(t: &Tapes) -> J {
    json!({"file": t.file, "ops": t.ops, "dev": t.dev})
}
fn jt(j: &J) -> Tapes {
    let v = |k: &str| j[k].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    Tapes { file: v("file"), ops: v("ops"), dev: v("dev") }
}

/// Outcome of an attempt, in this process or another.
struct Tried {
    fail: Option<Violation>,
    tapes: Tapes,
    trace: u64,
}
fn attempt(p: &Prop, t: &Tapes, outside: Option<(&Path, Duration)>) -> Tried {
    match outside {
        None => {
            let o = execute(p, t.lanes(), false);
            Tried { fail: o.fail, tapes: o.tapes, trace: o.trace }
        }
        Some((dir, limit)) => {
            let f = dir.join("attempt.json");
            fs::write(&f, json!({"property": p.id, "tapes": tj(t)}).to_string()).unwrap();
            let fail = outside_run(&f, limit);
            Tried { fail, tapes: t.clone(), trace: 0 }
        }
    }
}
/// Run `exec` on the file in its own process.
fn outside_run(f: &Path, limit: Duration) -> Option<Violation> {
    let mut c = spawn(&["exec".into(), f.display().to_string()]);
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) if st.success() => return None,
            Ok(Some(st)) if st.code() == Some(1) => return Some(Violation { class: "ordinary".into(), detail: String::new() }),
            Ok(Some(st)) => return Some(abort_violation(st)),
            _ => {}
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return Some(Violation { class: "hang".into(), detail: format!("the run did not end within {} s of real time", limit.as_secs()) });
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}
/// Execute tapes or a seed; used for runs that may take the process down.
pub fn exec(f: &str) -> i32 {
    install_hook();
    let j: J = serde_json::from_str(&fs::read_to_string(f).unwrap()).unwrap();
    let p = find(j["property"].as_str().unwrap()).unwrap();
    let lanes = if let Some(s) = j["seed"].as_u64() {
        let mut l = seed_lanes(s);
        let d = j["sink"].as_str().unwrap();
        for (k, l) in l.iter_mut().enumerate() {
            l.sink = Some(fs::File::create(format!("{d}/sink{k}")).unwrap());
        }
        l
    } else {
        jt(&j["tapes"]).lanes()
    };
    match execute(p, lanes, false).fail {
        Some(_) => 1,
        None => 0,
    }
}

fn report(p: &Prop, seed: u64, f: &Failure, home: &Path, dir: &Path) -> (PathBuf, J) {
    install_hook();
    let s = run_seed(seed, p.id, f.run);
    let hard = f.v.class == "abort" || f.v.class == "hang";
    let limit = Duration::from_secs(if f.v.class == "hang" { 10 } else { 60 });
    let full: Tapes = if hard {
        let sf = dir.join("seed.json");
        fs::write(&sf, json!({"property": p.id, "seed": s, "sink": dir.display().to_string()}).to_string()).unwrap();
        let _ = outside_run(&sf, limit);
        let rd = |k: usize| -> Vec<u64> { fs::read(dir.join(format!("sink{k}"))).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect() };
        Tapes { file: rd(0), ops: rd(1), dev: rd(2) }
    } else {
        execute(p, seed_lanes(s), false).tapes
    };
    let t0 = Instant::now();
    let outside = if hard { Some((dir, limit)) } else { None };
    let (best, tries) = shrink(p, full.clone(), &f.v.class, outside, t0, Duration::from_secs(if hard { 90 } else { 45 }));
    // the replay file, from the minimised tapes
    let (v, trace, desc, log) = if hard {
        (f.v.clone(), 0, vec![], vec![])
    } else {
        let o = execute(p, best.lanes(), true);
        (o.fail.unwrap_or_else(|| f.v.clone()), execute(p, best.lanes(), false).trace, o.desc, o.log)
    };
    let rdir = home.join("replays");
    let _ = fs::create_dir_all(&rdir);
    let path = rdir.join(format!("{}-{:016x}.json", p.id, s));
    let j = json!({
        "property": p.id,
        "class": v.class,
        "detail": v.detail,
        "verif_seed": seed,
        "run": f.run,
        "run_seed": s,
        "trace_hash": format!("{trace:016x}"),
        "original_decisions": full.len(),
        "minimised_decisions": best.len(),
        "shrink_attempts": tries,
        "scenario": desc,
        "schedule_and_fault_trace": log,
        "tapes": tj(&best),
        "replay_with": format!("{} replay {}", me().display(), path.display()),
    });
    fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    (path, json!({"run": f.run, "class": v.class, "detail": v.detail, "decisions_before": full.len(), "decisions_after": best.len()}))
}

fn shrink(p: &Prop, start: Tapes, class: &str, outside: Option<(&Path, Duration)>, t0: Instant, limit: Duration) -> (Tapes, u64) {
    let mut best = start;
    let mut tries = 0u64;
    fn lane(t: &mut Tapes, k: usize) -> &mut Vec<u64> {
        match k {
            0 => &mut t.dev,
            1 => &mut t.ops,
            _ => &mut t.file,
        }
    }
    let mut test = |t: &Tapes, tries: &mut u64| -> Option<Tapes> {
        *tries += 1;
        let r = attempt(p, t, outside);
        let _ = r.trace;
        match r.fail {
            Some(v) if v.class == class => {
                // keep what was really drawn
                let mut n = r.tapes;
                for k in 0..3 {
                    let l = lane(&mut n, k);
                    while l.last() == Some(&0) {
                        l.pop();
                    }
                }
                Some(if n.len() <= t.len() { n } else { t.clone() })
            }
            _ => None,
        }
    };
    if let Some(b) = test(&best.clone(), &mut tries) {
        best = b;
    } else {
        return (best, tries);
    }
    loop {
        let before = (best.len(), lane(&mut best.clone(), 0).iter().chain(best.ops.iter()).chain(best.file.iter()).map(|x| *x as u128).sum::<u128>());
        for k in 0..3 {
            // drop, then zero, chunks of decisions
            for zero in [false, true] {
                let mut size = lane(&mut best, k).len().next_power_of_two().max(1);
                while size >= 1 {
                    let mut at = 0;
                    while at < lane(&mut best, k).len() {
                        if t0.elapsed() > limit {
                            return (best, tries);
                        }
                        let mut c = best.clone();
                        let l = lane(&mut c, k);
                        let e = (at + size).min(l.len());
                        if zero {
                            if l[at..e].iter().all(|x| *x == 0) {
                                at += size;
                                continue;
                            }
                            l[at..e].iter_mut().for_each(|x| *x = 0);
                        } else {
                            l.drain(at..e);
                        }
                        match test(&c, &mut tries) {
                            Some(b) => best = b,
                            None => at += size,
                        }
                        if zero {
                            at += size;
                        }
                    }
                    if size == 1 {
                        break;
                    }
                    size /= 2;
                }
            }
            // make single decisions smaller
            let mut at = 0;
            while at < lane(&mut best, k).len() {
                let v = lane(&mut best, k)[at];
                for cand in [v / 2, v.saturating_sub(1)] {
                    if t0.elapsed() > limit {
                        return (best, tries);
                    }
                    if cand < v && at < lane(&mut best, k).len() && lane(&mut best, k)[at] == v {
                        let mut c = best.clone();
                        lane(&mut c, k)[at] = cand;
                        if let Some(b) = test(&c, &mut tries) {
                            best = b;
                        }
                    }
                }
                at += 1;
            }
        }
        let after = (best.len(), lane(&mut best.clone(), 0).iter().chain(best.ops.iter()).chain(best.file.iter()).map(|x| *x as u128).sum::<u128>());
        if after >= before || t0.elapsed() > limit {
            return (best, tries);
        }
    }
}

// ---------------------------------------------------------------- replay
pub fn replay(f: &str) -> i32 {
    install_hook();
    let Ok(s) = fs::read_to_string(f) else {
        eprintln!("cannot read {f}");
        return 2;
    };
    let j: J = match serde_json::from_str(&s) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("{f}: {e}");
            return 2;
        }
    };
    let Some(p) = j["property"].as_str().and_then(find) else {
        eprintln!("{f}: no property");
        return 2;
    };
    let t = jt(&j["tapes"]);
    let class = j["class"].as_str().unwrap_or("");
    if class == "abort" || class == "hang" {
        match outside_run(Path::new(f), Duration::from_secs(20)) {
            Some(v) => {
                println!("{}: {}", v.class, v.detail);
                println!("VIOLATION property={} replay={f}", p.id);
                return 1;
            }
            None => {
                println!("the run ended without a violation");
                return 0;
            }
        }
    }
    let quiet = execute(p, t.lanes(), false);
    let o = execute(p, t.lanes(), true);
    for l in o.log.iter().take(2000) {
        println!("  {l}");
    }
    match o.fail {
        Some(v) => {
            let same = format!("{:016x}", quiet.trace) == j["trace_hash"].as_str().unwrap_or("") && v.class == class;
            println!("{}: {}", v.class, v.detail);
            println!("trace {:016x}, recorded {}: {}", quiet.trace, j["trace_hash"].as_str().unwrap_or("?"), if same { "identical" } else { "different" });
            println!("VIOLATION property={} replay={f}", p.id);
            1
        }
        None => {
            println!("the run ended without a violation");
            0
        }
    }
}
pub fn one(id: &str, i: u64) -> i32 {
    install_hook();
    let Some(p) = find(id) else { return 2 };
    let s = run_seed(env_u64("VERIF_SEED", 1), p.id, i);
    let lanes: [Lane; 3] = seed_lanes(s);
    let o = execute(p, lanes, true);
    for l in &o.log {
        println!("  {l}");
    }
    println!("trace {:016x} steps {} decisions {} fail {:?}", o.trace, o.steps, o.tapes.len(), o.fail);
    o.fail.is_some() as i32
}
