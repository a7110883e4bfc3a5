//! Seeded search over simulated executions of texmo.
mod case;
mod model;
mod props;
mod rng;
mod sim;
mod text;

use case::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Opts {
    bin: PathBuf,
    lib: PathBuf,
    root: PathBuf,
    tier: String,
    seed: u64,
    jobs: usize,
    limit: u64,
    cases: Option<u64>,
    quiet: bool,
    times: bool,
}

/// `known: property=<id> key=<key> match=<text the message contains>`
struct Known {
    property: String,
    key: String,
    text: String,
}

fn known_findings(root: &Path) -> Vec<Known> {
    let mut out = Vec::new();
    for l in std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix("known: property=") {
            let (p, rest) = rest.split_once(" key=").unwrap_or((rest, ""));
            let (k, m) = rest.split_once(" match=").unwrap_or((rest, ""));
            if !k.is_empty() && !m.is_empty() {
                out.push(Known { property: p.trim().into(), key: k.trim().into(), text: m.trim().into() });
            }
        }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut o = Opts {
        bin: "".into(),
        lib: "".into(),
        root: ".".into(),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64,
        jobs: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        limit: 0,
        cases: None,
        quiet: false,
        times: false,
    };
    let mut pos = Vec::new();
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        let mut val = || it.next().unwrap_or_default();
        match a.as_str() {
            "--bin" => o.bin = val().into(),
            "--lib" => o.lib = val().into(),
            "--root" => o.root = val().into(),
            "--tier" => o.tier = val(),
            "--seed" => o.seed = val().parse().unwrap_or(1),
            "--jobs" => o.jobs = val().parse().unwrap_or(8),
            "--limit" => o.limit = val().parse().unwrap_or(0),
            "--cases" => o.cases = val().parse().ok(),
            "--times" => o.times = true,
            "--quiet" => o.quiet = true,
            _ => pos.push(a),
        }
    }
    if o.tier != "thorough" {
        o.tier = "quick".into();
    }
    if o.limit == 0 {
        o.limit = if o.tier == "quick" { 240 } else { 2700 };
    }
    let r = match pos.get(0).map(|s| s.as_str()) {
        Some("check") if pos.len() == 2 => check(&o, &pos[1]),
        Some("replay") if pos.len() == 2 => replay(&o, &pos[1]),
        Some("show") if pos.len() == 3 => show(&o, &pos[1], pos[2].parse().unwrap_or(0)),
        _ => {
            eprintln!("usage: dst check <property> | replay <file> | show <property> <index>");
            2
        }
    };
    std::process::exit(r);
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

struct Found {
    index: u64,
    case: Case,
    viol: Viol,
}

fn check(o: &Opts, id: &str) -> i32 {
    let t0 = Instant::now();
    let checks = props::checks();
    let ck = match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("no such property: {}", id);
            return 2;
        }
    };
    let thorough = o.tier == "thorough";
    let sim = sim::Sim::new(o.bin.clone(), o.lib.clone());
    let cx = Ctx::new(&sim);
    let known = known_findings(&o.root);
    let listed: Vec<Case> = match ck.enumerate {
        Some(f) => f(&cx, o.seed, thorough),
        None => vec![],
    };
    let enum_n = listed.len() as u64;
    let gen_n = o.cases.unwrap_or(if thorough { ck.thorough } else { ck.quick });
    let total = enum_n + gen_n;
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let known_hit: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let unreproduced: Mutex<Vec<String>> = Mutex::new(vec![]);
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let timed_out = AtomicBool::new(false);
    let failed = AtomicBool::new(false);
    std::thread::scope(|s| {
        for job in 0..o.jobs {
            let cpu = if o.jobs > 1 { Some(job) } else { None };
            let (cx, next, best, found, known, known_hit, unreproduced, distinct, timed_out, failed, listed) =
                (&cx, &next, &best, &found, &known, &known_hit, &unreproduced, &distinct, &timed_out, &failed, &listed);
            s.spawn(move || {
                sim::CPU.with(|c| c.set(cpu));
                let body = || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= total || i >= best.load(Ordering::SeqCst) || failed.load(Ordering::SeqCst) {
                        break;
                    }
                    if t0.elapsed() > Duration::from_secs(o.limit) {
                        timed_out.store(true, Ordering::SeqCst);
                        break;
                    }
                    // generated and listed cases take turns, so that both get their share
                    let case = make(ck, listed, gen_n, o.seed, i, thorough);
                    let tc = Instant::now();
                    let mut rt = Rt::new(cx, &case);
                    let res = judge(ck.eval, &case, &mut rt);
                    if o.times && tc.elapsed().as_secs_f64() > 1.0 {
                        eprintln!("case {} took {:.1} s ({} {} {:?} {} bytes)", i, tc.elapsed().as_secs_f64(), case.shape, case.t("type"), case.num, case.data.len());
                    }
                    {
                        let mut st = cx.stats.lock().unwrap();
                        st.cases += 1;
                        *st.shapes.entry(case.shape.clone() + if case.t("cmd").is_empty() || case.t("cmd") == case.shape { "" } else { ":" } + if case.t("cmd") == case.shape { "" } else { case.t("cmd") }).or_insert(0) += 1;
                        if rt.skipped {
                            st.skipped += 1;
                        } else if rt.nontrivial {
                            st.nontrivial += 1;
                            distinct.lock().unwrap().insert(hash_of(&(&rt.hashes, &case.data, &case.num, &case.txt, &case.blobs)));
                        }
                        if st.samples.len() < 3 && !rt.skipped && rt.nontrivial && case.data.len() < 700 && i % 7 == 3 {
                            let mut j = case.to_json();
                            j["index"] = json!(i);
                            j["taken_decisions"] = json!(rt.taken.iter().map(|t| t.as_ref().map(|v| v.iter().take(40).map(|d| json!([d.kind.to_string(), d.ord, d.v1, d.v2])).collect::<Vec<_>>())).collect::<Vec<_>>());
                            st.samples.push(j);
                        }
                    }
                    if i % 64 == 5 && res.is_ok() && case.shape != "full" {
                        let mut rt2 = Rt::new(cx, &case);
                        let again = judge(ck.eval, &case, &mut rt2);
                        let mut st = cx.stats.lock().unwrap();
                        st.rerun_checked += 1;
                        if again.is_err() || rt2.hashes != rt.hashes {
                            st.rerun_differ += 1;
                        }
                    }
                    if let Err(v) = res {
                        if let Some(k) = known.iter().find(|k| k.property == id && k.key == v.key && v.msg.contains(&k.text)) {
                            *known_hit.lock().unwrap().entry(format!("{}: {}", k.key, k.text)).or_insert(0) += 1;
                            continue;
                        }
                        // the same seed has to fail again
                        let again = (0..2).any(|_| {
                            let mut rt = Rt::new(cx, &case);
                            matches!(judge(ck.eval, &case, &mut rt), Err(w) if w.key == v.key)
                        });
                        if !again {
                            unreproduced.lock().unwrap().push(format!("case {}: {}: {}", i, v.key, v.msg));
                            continue;
                        }
                        let mut f = found.lock().unwrap();
                        if f.as_ref().map(|f| i < f.index).unwrap_or(true) {
                            best.store(i, Ordering::SeqCst);
                            *f = Some(Found { index: i, case, viol: v });
                        }
                    }
                };
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)).is_err() {
                    failed.store(true, Ordering::SeqCst);
                }
            });
        }
    });
    if failed.load(Ordering::SeqCst) {
        eprintln!("{}: the checker itself failed", id);
        return 2;
    }
    let search_s = t0.elapsed().as_secs_f64();
    let found = found.into_inner().unwrap();
    let mut replay_path = None;
    if let Some(f) = &found {
        eprintln!("{}: case {} violates the property: {}: {}; minimising", id, f.index, f.viol.key, f.viol.msg);
        replay_path = Some(report_violation(o, ck, &cx, f));
    }
    write_evidence(
        o,
        ck,
        &cx,
        Summary {
            wall: t0.elapsed().as_secs_f64(),
            search_s,
            enum_n,
            gen_n,
            distinct: distinct.into_inner().unwrap().len() as u64,
            timed_out: timed_out.load(Ordering::SeqCst),
            violations: found.is_some() as u64,
            unreproduced: unreproduced.into_inner().unwrap(),
            known: known_hit.lock().unwrap().clone(),
        },
    );
    for (k, n) in known_hit.into_inner().unwrap() {
        println!("KNOWN-FINDING: property={} {} ({} cases)", id, k, n);
    }
    {
        let st = cx.stats.lock().unwrap();
        if !o.quiet {
            println!(
                "{}: {} cases ({} listed, {} skipped, {} non-trivial), {} simulated runs, {} distinct schedules, {} distinct histories, {:.0} s simulated, {:.1} s; repeatability {}/{}",
                id,
                st.cases,
                enum_n,
                st.skipped,
                st.nontrivial,
                st.runs,
                st.sigs.len(),
                st.evs.len(),
                st.sim_ns as f64 / 1e9,
                t0.elapsed().as_secs_f64(),
                st.rerun_checked - st.rerun_differ,
                st.rerun_checked
            );
        }
    }
    match (found, replay_path) {
        (Some(f), Some(p)) => {
            println!("{}: {}", f.viol.key, f.viol.msg);
            println!("VIOLATION property={} replay={}", id, p.display());
            1
        }
        _ => 0,
    }
}

/// Case number `i`: listed cases are spread evenly among the generated ones.
fn make(ck: &props::Check, listed: &[Case], gen_n: u64, seed: u64, i: u64, thorough: bool) -> Case {
    let (e, g) = (listed.len() as u64, gen_n);
    let total = e + g;
    let before = (i as u128 * e as u128 / total as u128) as u64;
    let after = ((i + 1) as u128 * e as u128 / total as u128) as u64;
    let mut c = if after > before {
        listed[before as usize].clone()
    } else {
        let idx = i - before;
        let mut r = rng::Rng::derive(seed, ck.id, idx);
        (ck.gen)(&mut r, idx, thorough)
    };
    c.prop = ck.id.to_string();
    c
}

fn report_violation(o: &Opts, ck: &props::Check, cx: &Ctx, f: &Found) -> PathBuf {
    let mut m = Minimiser { cx, eval: ck.eval, key: f.viol.key.clone(), deadline: budget(75), evals: 0 };
    let (mut case, minimised) = match m.explicit(&f.case) {
        Some(mut c) => {
            m.minimise(&mut c);
            (c, true)
        }
        None => (f.case.clone(), false),
    };
    case.prop = ck.id.to_string();
    let mut rt = Rt::new(cx, &case);
    let msg = match judge(ck.eval, &case, &mut rt) {
        Err(v) => v.msg,
        Ok(()) => f.viol.msg.clone(),
    };
    let j = json!({
        "property": ck.id,
        "violation": f.viol.key,
        "message": msg,
        "seed": o.seed,
        "tier": o.tier,
        "case_index": f.index,
        "minimised": minimised,
        "how_to_read": "decisions: [I, n, 0, k] = file operation n transfers only k bytes; [I, n, 2, 0] = interrupted; [I, n, 3, e] = fails with errno e; [I, n, 5|6|7, p] = crash before|inside|after it (p=1: power failure); [P, n, thread, 0] = switch at basic block n; [B, n, thread, 0] = who runs when the thread blocks; [C, n, ..] = thread start n fails; [S, n, ..] = spurious wake-up; [F, n, ..] = which waiter a wake-up reaches; [T, n, ns, 0] = time passes at operation n; [L, n, ns, s] = operation n takes that long (s=1: the whole process stalls); [K, n, ns, step] = the clock jumps / the wall clock is set at reading n; [X, i, process, n] = that process does its next n file operations",
        "replay_command": "/verif/check.sh replay <this file>",
        "process_event_hashes": rt.hashes.iter().map(|h| format!("{:016x}", h)).collect::<Vec<_>>(),
        "case": case.to_json(),
        "original_case": f.case.to_json(),
    });
    let dir = o.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{}.json", ck.id, o.seed, f.index));
    std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()).expect("write the replay file");
    p
}

fn replay(o: &Opts, file: &str) -> i32 {
    let j: Value = match std::fs::read(file).ok().and_then(|d| serde_json::from_slice(&d).ok()) {
        Some(j) => j,
        None => {
            eprintln!("can't read {}", file);
            return 2;
        }
    };
    let case = Case::from_json(&j["case"]);
    let checks = props::checks();
    let ck = match checks.iter().find(|c| c.id == case.prop) {
        Some(c) => c,
        None => return 2,
    };
    let sim = sim::Sim::new(o.bin.clone(), o.lib.clone());
    let cx = Ctx::new(&sim);
    let mut rt = Rt::new(&cx, &case);
    let res = judge(ck.eval, &case, &mut rt);
    let hs: Vec<String> = rt.hashes.iter().map(|h| format!("{:016x}", h)).collect();
    let same = j["process_event_hashes"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect::<Vec<_>>() == hs).unwrap_or(false);
    println!("event histories {}", if same { "identical to the recorded ones" } else { "differ from the recorded ones" });
    match res {
        Err(v) => {
            println!("{}: {}", v.key, v.msg);
            println!("VIOLATION property={} replay={}", case.prop, file);
            1
        }
        Ok(()) => {
            println!("{}: holds in this execution", case.prop);
            0
        }
    }
}

fn show(o: &Opts, id: &str, idx: u64) -> i32 {
    let checks = props::checks();
    let ck = checks.iter().find(|c| c.id == id).expect("property");
    let thorough = o.tier == "thorough";
    let sim = sim::Sim::new(o.bin.clone(), o.lib.clone());
    let cx = Ctx::new(&sim);
    let listed: Vec<Case> = match ck.enumerate {
        Some(f) => f(&cx, o.seed, thorough),
        None => vec![],
    };
    let gen_n = o.cases.unwrap_or(if thorough { ck.thorough } else { ck.quick });
    let c = make(ck, &listed, gen_n, o.seed, idx, thorough);
    println!("{}", serde_json::to_string_pretty(&c.to_json()).unwrap());
    let t = Instant::now();
    let mut rt = Rt::new(&cx, &c);
    let r = judge(ck.eval, &c, &mut rt);
    println!("{:?} skipped {} nontrivial {} in {:.2} s", r.err().map(|v| v.key + ": " + &v.msg), rt.skipped, rt.nontrivial, t.elapsed().as_secs_f64());
    0
}

struct Summary {
    wall: f64,
    search_s: f64,
    enum_n: u64,
    gen_n: u64,
    distinct: u64,
    timed_out: bool,
    violations: u64,
    unreproduced: Vec<String>,
    known: BTreeMap<String, u64>,
}

fn write_evidence(o: &Opts, ck: &props::Check, cx: &Ctx, s: Summary) {
    let st = cx.stats.lock().unwrap();
    let per_hour = |n: u64| (n as f64 / s.search_s.max(0.001) * 3600.0).round();
    let guards = st.cov.len();
    let hit = st.cov.iter().filter(|x| **x != 0).count();
    let mut samples = st.samples.clone();
    if samples.is_empty() {
        samples.push(json!("no small non-trivial case among the sampled ones"));
    }
    let j = json!({
        "property": ck.id,
        "tier": o.tier,
        "seed": o.seed as i64,
        "level": ck.level,
        "coverage": {
            "evaluations": st.cases,
            "distinct_nontrivial": s.distinct,
            "rule": format!("{}. Distinct: by the hashes of the event histories together with the input.", ck.rule),
            "samples": samples,
            "listed_cases": s.enum_n,
            "generated_cases_planned": s.gen_n,
            "cases_skipped_because_the_precondition_failed": st.skipped,
            "cut_short_by_time_limit": s.timed_out,
            "simulated_runs": st.runs,
            "undisturbed_reference_runs": st.base_runs,
            "simulated_runs_per_hour": per_hour(st.runs),
            "seeds_per_hour": per_hour(st.cases),
            "simulated_seconds": (st.sim_ns as f64) / 1e9,
            "basic_blocks_executed_under_the_simulator": st.steps as f64,
            "file_operations_simulated": st.io,
            "thread_switches": st.switches,
            "longest_silence_of_a_successful_run_in_basic_blocks": st.max_silence,
            "most_threads_alive_in_a_run": st.max_threads,
            "faults_and_disturbances_injected": st.cnt,
            "run_endings": st.verdicts,
            "distinct_thread_schedules": st.sigs.len(),
            "distinct_event_histories": st.evs.len(),
            "measure_of_distinctness": "thread schedules: hash of all (position, thread) switches of runs with at least one; event histories: hash of all file operations, time readings and switches",
            "case_shapes": st.shapes,
            "oracle_counts": st.notes,
            "code_coverage": {"edges_instrumented": guards, "edges_hit_in_runs_that_recorded": hit},
            "repeatability": {"cases_run_twice": st.rerun_checked, "with_a_different_history": st.rerun_differ},
            "alarms_that_did_not_repeat": s.unreproduced,
            "known_findings_met": s.known,
            "system_calls_outside_the_model": st.unmodelled,
            "raw_system_calls_trapped": st.trapped,
            "real_components": ["all compiled code of texmo (built from /repo's working tree, cfg texmo_sim)", "its dependencies and the Rust standard library", "libc apart from the functions below"],
            "stubbed_components": ["files, directories and their durability (in-memory file system)", "standard output and error", "threads, mutexes, condition variables, futexes and the scheduler (one runs at a time, the simulator chooses)", "clocks and sleeping (virtual time)", "random bytes (HashMap keys)", "number of processors"],
        },
        "assumptions": ck.assumptions.iter().map(|a| a.to_string()).chain(["the simulator (/verif/shim/dst.c) models libc, threads and files faithfully".to_string(), "instrumented basic blocks are the only places, besides libc calls, where threads are pre-empted".to_string()]).collect::<Vec<_>>(),
        "wall_s": s.wall,
        "violations": s.violations,
    });
    let dir = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", ck.id)), serde_json::to_string_pretty(&j).unwrap()).expect("write the evidence");
}
