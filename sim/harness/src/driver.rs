//! Many runs: workers, aggregation, verdict, evidence.
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::rng::mix;
use simrt::sched::Shm;
use simrt::vfs::{FAULT_NAMES, NFAULT};

use crate::gen;
use crate::min::{hits, Min};
use crate::run::{self, Out};
use crate::scen::*;

#[derive(Serialize, Deserialize)]
pub struct Replay { pub property: String, pub message: String, pub index: u64, pub verif_seed: u64, pub scenario: Scen }

fn verif_seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
fn thorough() -> bool { std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") }

pub fn scenario(prop: &str, vs: u64, i: u64) -> Scen { gen::gen(prop, mix(mix(vs) ^ i)) }

fn root() -> std::path::PathBuf { std::env::var_os("FIGSIM_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into()) }

/// The listed findings of a property: defects that are known and not repaired, by identity.
pub fn findings(prop: &str) -> &'static [(String, String)] {
    static F: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let t = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
        t.lines().filter_map(|l| l.strip_prefix("finding: property=")).filter_map(|l| l.split_once(' ')).filter(|(p, _)| *p == prop)
            .filter_map(|(_, r)| r.strip_prefix("id=")?.split_once(' ')).map(|(i, t)| (i.to_string(), t.to_string())).collect()
    })
}

fn cpus() -> Vec<usize> {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&s), &mut s) != 0 { return vec![0] }
        let v: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &s)).collect();
        if v.is_empty() { vec![0] } else { v }
    }
}
fn pin(cpu: usize) { unsafe { let mut s: libc::cpu_set_t = std::mem::zeroed(); libc::CPU_SET(cpu, &mut s); libc::sched_setaffinity(0, std::mem::size_of_val(&s), &s); } }

#[derive(Default, Serialize, Deserialize)]
struct Sum {
    runs: u64, skipped: u64, nontrivial: u64, steps: u64, clock: u64, switches: u64, preemptions: u64, faulted: u64, multi: u64, changed: u64, unrepeated: u64, most: (u64, u64),
    faults: Vec<u64>, probes: BTreeMap<String, u64>, coarse: Vec<u64>, fine: Vec<u64>, viols: Vec<u64>, other: BTreeMap<String, u64>, hashes: Vec<(u64, u64)>,
}

struct Ctl { stop_at: AtomicU64, next: AtomicU64 }

fn worker(prop: &str, vs: u64, max: u64, until: Instant, ctl: &Ctl, keep: bool) -> Sum {
    let shm: *mut Shm = run::shared();
    let mut s = Sum { faults: vec![0; NFAULT], ..Default::default() };
    let (mut coarse, mut fine) = (HashSet::new(), HashSet::new());
    loop {
        // indices are handed out in order, so that everything below a violation gets run
        let i = ctl.next.fetch_add(1, SeqCst);
        if i >= max || i > ctl.stop_at.load(SeqCst) || Instant::now() > until { break }
        let sc = scenario(prop, vs, i);
        let mut o = run::run(&sc, shm);
        s.runs += 1;
        // a suspect that the same seed does not show again was caused by the machine (a stalled or killed process)
        if hits(&o, prop).is_some() {
            let again = run::run(&sc, shm);
            if hits(&again, prop).is_none() { s.unrepeated += 1; eprintln!("figsim: index {} did not repeat: {:?}", i, hits(&o, prop)) }
            o = again;
        }
        if keep { s.hashes.push((i, if o.fatal.is_some() { o.steps } else { mix(o.hash ^ o.steps) })) }
        if o.skip { s.skipped += 1; continue }
        s.most = s.most.max((o.steps, i));
        s.steps += o.steps; s.clock += o.clock; s.switches += o.switches; s.preemptions += o.preemptions;
        let nf: u32 = o.faults.iter().sum();
        for (a, b) in s.faults.iter_mut().zip(&o.faults) { *a += *b as u64 }
        for (k, v) in &o.probes { *s.probes.entry(k.clone()).or_insert(0) += v }
        if nf > 0 { s.faulted += 1 }
        if sc.tasks.len() > 1 { s.multi += 1 }
        if o.changed { s.changed += 1 }
        if nf > 0 || o.preemptions > 0 || o.changed { s.nontrivial += 1; coarse.insert(mix(o.coarse ^ nf as u64)); fine.insert(o.hash); }
        if hits(&o, prop).is_some() { s.viols.push(i); ctl.stop_at.fetch_min(i, SeqCst); }
        for v in &o.viols { for p in &v.props { if p != prop && p != "*" { *s.other.entry(p.clone()).or_insert(0) += 1 } } }
    }
    s.coarse = coarse.into_iter().collect();
    s.fine = fine.into_iter().collect();
    s
}

fn sweep(prop: &str, vs: u64, max: u64, until: Instant, workers: usize, keep: bool) -> Result<Sum, String> {
    let ctl: *mut Ctl = run::shared();
    let ctl = unsafe { (*ctl).stop_at = AtomicU64::new(u64::MAX); (*ctl).next = AtomicU64::new(0); &*ctl };
    let cpus = cpus();
    let mut kids = vec![];
    for w in 0..workers {
        unsafe {
            let mut fd = [0i32; 2];
            if libc::pipe(fd.as_mut_ptr()) != 0 { return Err("pipe".into()) }
            let pid = libc::fork();
            if pid < 0 { return Err("fork".into()) }
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fd[0]);
                pin(cpus[w % cpus.len()]);
                let s = worker(prop, vs, max, until, ctl, keep);
                let mut f: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(fd[1]);
                let _ = f.write_all(&serde_json::to_vec(&s).unwrap());
                drop(f);
                libc::_exit(0);
            }
            libc::close(fd[1]);
            kids.push((pid, fd[0]));
        }
    }
    let mut t = Sum { faults: vec![0; NFAULT], ..Default::default() };
    let (mut coarse, mut fine) = (HashSet::new(), HashSet::new());
    let mut err = None;
    for (pid, fd) in kids {
        let mut b = vec![];
        unsafe { let mut f: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(fd); let _ = f.read_to_end(&mut b); let mut st = 0; libc::waitpid(pid, &mut st, 0); }
        match serde_json::from_slice::<Sum>(&b) {
            Ok(s) => {
                t.runs += s.runs; t.skipped += s.skipped; t.nontrivial += s.nontrivial; t.steps += s.steps; t.clock += s.clock; t.switches += s.switches; t.preemptions += s.preemptions;
                t.faulted += s.faulted; t.multi += s.multi; t.changed += s.changed; t.unrepeated += s.unrepeated; t.most = t.most.max(s.most);
                for (a, b) in t.faults.iter_mut().zip(&s.faults) { *a += *b }
                for (k, v) in s.probes { *t.probes.entry(k).or_insert(0) += v }
                for (k, v) in s.other { *t.other.entry(k).or_insert(0) += v }
                coarse.extend(s.coarse); fine.extend(s.fine);
                t.viols.extend(s.viols); t.hashes.extend(s.hashes);
            }
            Err(e) => err = Some(format!("a worker failed: {}", e)),
        }
    }
    if let Some(e) = err { return Err(e) }
    t.coarse = coarse.into_iter().collect(); t.fine = fine.into_iter().collect();
    t.viols.sort(); t.hashes.sort();
    Ok(t)
}

fn budget(prop: &str) -> (u64, u64) {
    // runs and seconds; a quick check is bounded by runs, so that it explores the same ones on every machine
    let runs = if prop.starts_with('C') || prop == "F01" || prop == "J05" { 30_000 } else { 60_000 };
    if thorough() { (10_000_000, 780) } else { (runs, 150) }
}

pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let vs = verif_seed();
    let listed = findings(prop);
    let (mut max, mut secs) = budget(prop);
    if let Some(n) = std::env::var("FIGSIM_RUNS").ok().and_then(|s| s.parse().ok()) { max = n }
    if let Some(n) = std::env::var("FIGSIM_SECS").ok().and_then(|s| s.parse().ok()) { secs = n }
    let workers = std::env::var("FIGSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| cpus().len().min(8));
    println!("figsim: property {} VERIF_SEED={} tier {} up to {} runs on {} workers", prop, vs, if thorough() { "thorough" } else { "quick" }, max, workers);
    let s = match sweep(prop, vs, max, t0 + Duration::from_secs(secs), workers, false) { Ok(s) => s, Err(e) => { eprintln!("figsim: error: {}", e); return 2 } };
    let mut unrepro = s.unrepeated;
    let mut found = None;
    for &i in &s.viols {
        match confirm(prop, vs, i) { Some(p) => { found = Some(p); break } None => unrepro += 1 }
    }
    let wall = t0.elapsed().as_secs_f64();
    if let Err(e) = evidence(prop, vs, &s, wall, found.is_some() as u64, unrepro) { eprintln!("figsim: error: cannot write evidence: {}", e); return 2 }
    println!("figsim: {} runs, {} nontrivial, {} distinct, {} steps, {} faults, {:.1} s", s.runs, s.nontrivial, s.coarse.len(), s.steps, s.faults.iter().sum::<u64>(), wall);
    for (id, text) in listed { if s.probes.get(&format!("known_finding_{}", id.replace('-', "_"))).map_or(false, |n| *n > 0) { println!("KNOWN-FINDING: property={} {}: {}", prop, id, text) } }
    if let Some((path, msg)) = found {
        println!("figsim: {}", msg);
        println!("VIOLATION property={} replay={}", prop, path);
        return 1;
    }
    if unrepro > s.unrepeated || unrepro > 3 { eprintln!("figsim: error: {} suspected violations did not repeat", unrepro); return 2 }
    0
}

/// Runs a suspect again, minimises it and has a fresh process replay the result.
fn confirm(prop: &str, vs: u64, i: u64) -> Option<(String, String)> {
    let shm: *mut Shm = run::shared();
    pin(cpus()[0]);
    let sc = scenario(prop, vs, i);
    let mut o = Out::default();
    let mut full = None;
    for _ in 0..3 {
        o = run::run(&sc, shm);
        if hits(&o, prop).is_some() {
            let (sw, f) = run::trace(shm);
            let mut x = sc.clone();
            x.sched = Some(sw); x.faults = Some(f);
            full = Some(x);
            break;
        }
    }
    let full = full?;
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", prop, vs, i));
    let save = |s: &Scen, msg: &str| std::fs::write(&path, serde_json::to_vec_pretty(&Replay { property: prop.into(), message: msg.into(), index: i, verif_seed: vs, scenario: s.clone() }).unwrap());
    let hang = o.fatal.as_deref().map_or(false, |f| f.contains("does not end"));
    let mut m = Min { prop: prop.into(), shm, until: Instant::now() + Duration::from_secs(if hang { 0 } else { 25 }), tries: 0 };
    let small = if hang { full.clone() } else { m.run(full.clone()) };
    for s in [&small, &full] {
        let o = run::run(s, shm);
        let msg = match hits(&o, prop) { Some(m) => m, None => continue };
        if save(s, &msg).is_err() { continue }
        let again = std::process::Command::new(std::env::current_exe().ok()?).arg("replay").arg(&path).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).output().ok()?;
        if again.status.code() == Some(1) { return Some((path.to_string_lossy().into_owned(), msg)) }
    }
    // the trace does not lead back to it, but the seed does
    let o = run::run(&sc, shm);
    let msg = hits(&o, prop)?;
    save(&sc, &msg).ok()?;
    Some((path.to_string_lossy().into_owned(), msg))
}

pub fn replay(file: &str) -> i32 {
    let r: Replay = match std::fs::read(file).map_err(|e| e.to_string()).and_then(|b| unjson(&b)) { Ok(r) => r, Err(e) => { eprintln!("figsim: error: {}: {}", file, e); return 2 } };
    findings(&r.property);
    let shm: *mut Shm = run::shared();
    let o = run::run(&r.scenario, shm);
    match hits(&o, &r.property) {
        Some(m) => {
            println!("figsim: {}", m);
            for (t, ops) in r.scenario.tasks.iter().enumerate() { for op in ops { println!("  thread {}: {:?}", t, op) } }
            if let Some(s) = &r.scenario.sched { println!("  schedule (thread, its step, next thread): {:?}", s) }
            if let Some(f) = &r.scenario.faults { println!("  faults: {:?}", f.iter().map(|f| format!("thread {} call {}: {}", f[0], f[1], FAULT_NAMES[f[2] as usize])).collect::<Vec<_>>()) }
            println!("VIOLATION property={} replay={}", r.property, file);
            1
        }
        None => { println!("figsim: the violation did not occur"); 0 }
    }
}

pub fn one(prop: &str, i: u64, verbose: bool) -> i32 {
    findings(prop);
    let sc = scenario(prop, verif_seed(), i);
    if verbose { println!("{}", serde_json::to_string_pretty(&sc).unwrap()) }
    let shm: *mut Shm = run::shared();
    let o = run::run(&sc, shm);
    println!("{}", serde_json::to_string(&o).unwrap());
    0
}

/// Generates without running: every generator ends for every seed tried.
pub fn gens(prop: &str, n: u64) -> i32 {
    let mut h = 0;
    for i in 0..n { let s = scenario(prop, verif_seed(), i); h = mix(h ^ s.tasks.iter().map(|t| t.len() as u64).sum::<u64>()); }
    println!("{} {:016x}", n, h);
    0
}

pub fn hashes(prop: &str, n: u64, workers: usize) -> i32 {
    findings(prop);
    match sweep(prop, verif_seed(), n, Instant::now() + Duration::from_secs(600), workers, true) {
        Ok(s) => { for (i, h) in &s.hashes { println!("{} {:016x}", i, h) } 0 }
        Err(e) => { eprintln!("{}", e); 2 }
    }
}

fn evidence(prop: &str, vs: u64, s: &Sum, wall: f64, violations: u64, unrepro: u64) -> std::io::Result<()> {
    let faults: BTreeMap<&str, u64> = FAULT_NAMES.iter().zip(&s.faults).filter(|(_, n)| **n > 0).map(|(k, n)| (*k, *n)).collect();
    let per_hour = |n: u64| (n as f64 * 3600.0 / wall.max(0.001)) as u64;
    let samples: Vec<serde_json::Value> = (0..2).map(|i| {
        let sc = scenario(prop, vs, i);
        json!({ "index": i, "seed": sc.seed, "threads": sc.tasks.iter().map(|t| t.iter().map(|o| crate::exec::short(format!("{:?}", o))).collect::<Vec<_>>()).collect::<Vec<_>>(), "knobs": sc.knobs })
    }).collect();
    let v = json!({
        "property": prop, "tier": if thorough() { "thorough" } else { "quick" }, "seed": vs, "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": s.coarse.len(),
            "rule": "one evaluation is one simulated run of a generated scenario (threads, operations, sources, initial environment and file tree) under one seeded schedule and fault sequence; it is nontrivial if a thread was preempted inside the code under test, or a fault fired, or a source changed during the run; distinct by the hash of the order of the threads' system calls, atomic operations and operations, with the number of faults",
            "samples": samples,
            "runs_nontrivial": s.nontrivial,
            "runs_multi_threaded": s.multi,
            "runs_with_faults": s.faulted,
            "runs_with_source_changes": s.changed,
            "runs_discarded_as_ambiguous": s.skipped,
            "distinct_executions_by_full_schedule_hash": s.fine.len(),
            "runs_and_seeds_per_hour": per_hour(s.runs),
            "scheduling_steps": s.steps,
            "simulated_seconds": s.clock as f64 / 1e9,
            "context_switches": s.switches,
            "preemptions_inside_code_under_test": s.preemptions,
            "faults_fired": faults,
            "faults_fired_total": s.faults.iter().sum::<u64>(),
            "conditions_reached": s.probes,
            "most_steps_in_one_run": {"steps": s.most.0, "index": s.most.1},
            "violations_of_other_properties_seen": s.other,
            "suspects_not_repeated": unrepro,
            "real_components": ["figment (all of /repo/src, from the working tree)", "serde and the toml, json and yaml parsers", "tempfile, parking_lot, std (locks, file and environment interfaces)", "the process environment"],
            "stubbed_components": ["file system, descriptors and working directory (in-memory tree behind the libc interface)", "clocks and sleeping (simulated)", "getrandom (seeded)", "futex waiting and waking, thread choice (seeded scheduler)"],
        },
        "assumptions": [
            "threads switch only at scheduling points: function entries and atomic operations of figment, system calls, locks, and operations of the scenario; between two points memory is sequentially consistent",
            "the simulated file system is POSIX-like; the format parsers are trusted as the meaning of a text",
            "sampling: a clean result is evidence over the runs counted here, not a proof",
        ],
        "wall_s": wall, "violations": violations,
    });
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir)?;
    std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_vec_pretty(&v)?)
}
