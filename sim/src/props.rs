//! One generator and one evaluation per property.
use crate::case::*;
use crate::model::*;
use crate::rng::Rng;
use crate::sim::*;
use crate::text;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub gen: fn(&mut Rng, u64, bool) -> Case,
    pub eval: EvalFn,
    /// Systematic cases: every file operation of some undisturbed runs.
    pub enumerate: Option<fn(&Ctx, u64, bool) -> Vec<Case>>,
    pub assumptions: &'static [&'static str],
}

const DATA: &str = "/sim/in/data.txt";
const PROC: &str = "/sim/in/processed.txt";
const TOKIN: &str = "/sim/in/tokens.json";
const TOK: &str = "/sim/tok";
const TOK2: &str = "/sim/tok2";
const OUT: &str = "/sim/out/out.txt";

// ---------------------------------------------------------------- scenarios

fn knob_env(c: &Case) -> Vec<(String, String)> {
    let mut v = Vec::new();
    for (k, e) in [
        ("file_chunk", "TEXMO_FILE_CHUNK"),
        ("mem_chunk", "TEXMO_MEMORY_CHUNK"),
        ("stream_size", "TEXMO_STREAM_SIZE"),
        ("stop_size", "TEXMO_STOP_SIZE"),
        ("parallel_size", "TEXMO_PARALLEL_SIZE"),
    ] {
        if c.has(k) {
            v.push((e.to_string(), c.n(k).to_string()));
        }
    }
    v
}

fn scenario(c: &Case, args: &[&str]) -> Scenario {
    let mut s = Scenario { args: args.iter().map(|a| a.to_string()).collect(), env: knob_env(c), ..Default::default() };
    s.dirs = ["/sim/in", "/sim/tmp", "/sim/out", TOK, TOK2].iter().map(|x| x.to_string()).collect();
    s.files.insert(DATA.into(), c.data.clone());
    for (k, v) in &c.blobs {
        s.files.insert(k.clone(), v.clone());
    }
    s
}

fn knob(mut s: Scenario, k: &str, v: u64) -> Scenario {
    s.env.retain(|(n, _)| n != k);
    s.env.push((k.into(), v.to_string()));
    s
}

fn optimize_sc(c: &Case) -> Scenario {
    let n = c.n("n").to_string();
    let m = c.n("min_data").to_string();
    let mut a = vec!["optimize", "-d", DATA, "-t", TOK, "-p", c.t("processing"), "--type", c.t("type"), "-n", &n];
    if c.blobs.contains_key(PROC) {
        a.extend(["--processed-data", PROC]);
    }
    if c.blobs.contains_key(TOKIN) {
        a.extend(["-i", TOKIN]);
    }
    if c.has("min_data") {
        a.extend(["--min-data-size", &m]);
    }
    scenario(c, &a)
}

fn convert_sc(c: &Case) -> Scenario {
    let mut a = vec!["convert-tokens", "-d", DATA, "-t", TOK, "-i", TOKIN];
    if c.blobs.contains_key(PROC) {
        a.extend(["--processed-data", PROC]);
    }
    scenario(c, &a)
}

/// The command a case runs, by its `cmd` text.
fn cmd_sc(c: &Case) -> Scenario {
    let mut s = command_sc(c);
    if !c.t("absent").is_empty() {
        s.files.remove(c.t("absent"));
        s.dirs.retain(|d| d != c.t("absent"));
    }
    s
}
fn command_sc(c: &Case) -> Scenario {
    match c.t("cmd") {
        "optimize" => optimize_sc(c),
        "convert" => convert_sc(c),
        "process" => scenario(c, &["process", "-d", DATA, "-o", if c.t("out").is_empty() { OUT } else { c.t("out") }]),
        _ => scenario(c, &["count-chars", "-d", DATA]),
    }
}

fn type_tag(t: &str) -> String {
    t.replace("bytes-huff", "byteshuff")
}
fn proc_tag(p: &str) -> String {
    p.replace("caps-words", "capswords")
}

fn result_path(c: &Case) -> String {
    format!("{}/tokens{}_{}_{}.json", TOK, c.n("n"), proc_tag(c.t("processing")), type_tag(c.t("type")))
}

/// The text the tokenizer works on.
fn effective_data(c: &Case) -> Vec<u8> {
    if let Some(p) = c.blobs.get(PROC) {
        if c.t("processing") == "caps-words" {
            return p.clone();
        }
    }
    if c.t("processing") == "caps-words" {
        process(c.text()).into_bytes()
    } else {
        c.data.clone()
    }
}

/// Token-set files in the output directory, with their content.
fn tok_files(r: &Report) -> BTreeMap<String, Vec<u8>> {
    r.files.iter().filter(|(p, _)| p.starts_with("/sim/tok/") && p.ends_with(".json")).map(|(p, d)| (p.clone(), d.clone())).collect()
}

/// The final token set of an optimize or convert run: the last one written.
fn final_set(r: &Report) -> Option<(String, Vec<u8>)> {
    let p = r.pubs().iter().filter(|p| p.2.starts_with("/sim/tok/")).last().map(|p| p.2.to_string())?;
    r.files.get(&p).map(|d| (p.clone(), d.clone()))
}

fn decisions(out: &str) -> Vec<String> {
    out.lines().filter(|l| l.contains(" -> ") || l.starts_with("processed bytes / token:")).map(|l| l.to_string()).collect()
}

fn seedc(r: &mut Rng) -> Ctl {
    let mut c = Ctl::default().set("seed", r.below(1 << 40)).set("crash_seed", r.below(1 << 30)).set("ncpu", 1);
    if r.chance(1, 6) {
        c = c.set("cov", 1);
    }
    c
}
fn quiet(r: &mut Rng) -> Ctl {
    seedc(r)
}

/// Disturbances that change nothing: short and interrupted I/O, time passing.
fn benign(r: &mut Rng, c: Ctl) -> Ctl {
    let lvl = [1500u64, 6000, 20000, 45000];
    let mut c = c;
    if r.chance(3, 4) {
        c = c.set("p_sread", *r.pick(&lvl));
    }
    if r.chance(3, 4) {
        c = c.set("p_eintr", *r.pick(&lvl[..3]));
    }
    if r.chance(2, 3) {
        c = c.set("p_swrite", *r.pick(&lvl));
    }
    if r.chance(1, 3) {
        c = c.set("p_out", *r.pick(&lvl[..3]));
    }
    c
}

/// Slow devices: operations that take long, for one thread or for the whole process.
/// Only for checks that do not depend on which token sets are saved along the way.
fn slow(r: &mut Rng, c: Ctl) -> Ctl {
    let mut c = c;
    if r.chance(1, 3) {
        c = c.set("p_slow", *r.pick(&[1500u64, 8000, 40000]));
    }
    if r.chance(1, 6) {
        c = c.set("p_cjump", *r.pick(&[2000u64, 20000]));
    }
    if r.chance(1, 6) {
        c = c.set("p_rskew", *r.pick(&[2000u64, 20000]));
    }
    c
}
fn slowed(c: &Ctl) -> bool {
    ["p_slow", "p_cjump", "p_rskew"].iter().any(|k| c.get(k) > 0) || c.dec.iter().any(|d| d.kind == 'L' || d.kind == 'K')
}

/// A thread schedule.
fn schedule(r: &mut Rng, c: Ctl) -> Ctl {
    let mut c = c;
    if r.chance(2, 3) {
        c = c.set("sched", 1).set("pmean", r.logu(3, 20000)).set("p_sync", *r.pick(&[0u64, 3000, 15000, 40000]));
    } else {
        c = c.set("sched", 2).set("pct_d", r.range(1, 8)).set("pct_len", r.logu(2000, 3_000_000));
    }
    if r.chance(1, 3) {
        c = c.set("p_spur", *r.pick(&[2000u64, 15000, 40000]));
    }
    c
}
fn cpus(r: &mut Rng) -> u64 {
    if r.chance(1, 40) {
        return *r.pick(&[24u64, 33, 48, 65, 100]);
    }
    *r.pick(&[1u64, 2, 2, 3, 3, 4, 4, 5, 7, 8, 12, 16])
}

fn pick_type(r: &mut Rng) -> (&'static str, i64) {
    // requested sizes near the smallest sensible ones and somewhat above;
    // long optimizations are rare, as each takes as much time as many short ones
    let wide = r.chance(1, 6);
    let mut up = |lo: u64, small: u64, big: u64| (lo + if wide { r.below(big) } else { r.below(small) }) as i64;
    match up(0, 10, 10) {
        0 | 1 => ("bits1", up(2, 16, 28)),
        2 | 3 => ("bits2", up(4, 14, 28)),
        4 | 5 => ("bits4", up(16, 13, 26)),
        6 => ("bytes", up(256, 5, 11)),
        _ => ("bytes-huff", up(3, 12, 30)),
    }
}

fn new_case(prop: &str, shape: &str) -> Case {
    Case { prop: prop.into(), shape: shape.into(), ..Default::default() }
}

fn gen_optimize(r: &mut Rng, prop: &str, size: (u64, u64)) -> Case {
    let mut c = new_case(prop, "optimize");
    let (t, n) = pick_type(r);
    let sz = r.logu(size.0, size.1) as usize;
    c.data = text::learnable(r, sz).into_bytes();
    c.sett("cmd", "optimize").sett("type", t).set("n", n);
    c.sett("processing", *r.pick(&["raw", "raw", "caps-words"]));
    if c.t("processing") == "raw" {
        c.data = text::spice(r, c.text().to_string()).into_bytes();
    }
    if c.t("processing") == "caps-words" && r.chance(1, 3) {
        c.blobs.insert(PROC.into(), process(c.text()).into_bytes());
    }
    c
}

fn gen_convert(r: &mut Rng, prop: &str, size: (u64, u64)) -> Case {
    let mut c = new_case(prop, "convert");
    let t = *r.pick(&["bits1", "bits2", "bits4", "bytes", "byteshuff", "byteshuff", "bits4"]);
    let sz = r.logu(size.0, size.1) as usize;
    c.data = text::any(r, sz).into_bytes();
    c.sett("cmd", "convert").sett("type", t);
    c.sett("processing", *r.pick(&["raw", "raw", "raw", "caps-words"]));
    if c.t("processing") == "raw" {
        c.data = text::spice(r, c.text().to_string()).into_bytes();
    }
    let d = effective_data(&c);
    let nlong = if r.chance(1, 40) { 320 } else { *r.pick(&[0usize, 3, 10, 25]) };
    let js = text::tokenset(r, t, &proc_tag(c.t("processing")), &d, nlong);
    let n = Ts::parse(&js).unwrap().tokens.len();
    c.blobs.insert(TOKIN.into(), js);
    c.set("n", n as i64);
    c
}

/// Natural sizes: nothing is tuned, the data is cut where the shipped program cuts it.
fn gen_natural(r: &mut Rng, prop: &str) -> Case {
    let mut c;
    if prop == "C09" && r.chance(2, 5) {
        // long tokens from the start: wherever the data is cut, it shows
        c = gen_convert(r, prop, (9000, 25_000));
        c.sett("cmd", "optimize").sett("processing", "raw");
        if r.chance(2, 3) {
            // no blank lines, at which cuts do no harm
            c.data = c.text().replace("\n\n", "\n").into_bytes();
        }
        let t = if c.t("type").starts_with("bytes") { "bytes-huff".to_string() } else { c.t("type").to_string() };
        c.sett("type", &t);
        let ts = text::tokenset(r, &type_tag(&t), "raw", &c.data, 12);
        c.set("n", Ts::parse(&ts).unwrap().tokens.len() as i64);
        c.blobs.insert(TOKIN.into(), ts);
    } else if r.chance(1, if prop == "C09" { 6 } else { 3 }) {
        c = gen_convert(r, prop, (3000, 30_000));
        let target = (1 << 20) + r.logu(1000, 2_500_000);
        c.set("repeat_to", target as i64).set("fixed_data", 1);
        if c.t("processing") == "caps-words" {
            c.sett("processing", "raw");
            let ts = text::tokenset(r, &c.t("type").to_string(), "raw", &c.data, 12);
            c.set("n", Ts::parse(&ts).unwrap().tokens.len() as i64);
            c.blobs.insert(TOKIN.into(), ts);
        }
    } else {
        c = gen_optimize(r, prop, (8000, 120_000));
        while c.data.len() > 20_000 && matches!(c.t("type"), "bytes") {
            let l = c.data.len() / 2;
            let mut t = c.text().to_string();
            text::truncate(&mut t, l);
            c.data = t.into_bytes();
            c.blobs.clear();
        }
        if r.chance(2, 3) {
            // few words: long tokens, which any cut is likely to hit
            let sz = r.logu(5000, 60_000) as usize;
            let k = r.range(2, 4) as usize;
            let w: Vec<String> = (0..k).map(|_| text::corpus(r, 9).trim().replace('\n', "")).collect();
            let mut t = String::new();
            let end = *r.pick(&["\n\n", "\n", " "]);
            while t.len() < sz {
                t += r.pick(&w);
                t += if r.chance(1, 40) { end } else { " " };
            }
            c.data = t.into_bytes();
            c.blobs.clear();
        }
        let lo = match c.t("type") { "bits1" => 2, "bits2" => 4, "bits4" => 16, "bytes" => 256, _ => 3 };
        c.set("n", lo + r.range(1, if c.t("type") == "bytes" { 3 } else { 14 }) as i64);
        if r.chance(1, 5) {
            c.set("stream_size", 0);
        }
    }
    c.shape = format!("natural {}", c.t("cmd"));
    c
}

/// The data, for cases whose data is a repeated text.
fn full_data(c: &Case) -> Vec<u8> {
    let mut d = Vec::with_capacity(c.n("repeat_to") as usize + c.data.len());
    while d.len() < c.n("repeat_to") as usize {
        d.extend_from_slice(&c.data);
    }
    d
}
fn repeated(c: &Case) -> Case {
    let mut k = c.clone();
    if c.has("repeat_to") && !c.data.is_empty() {
        k.data = full_data(c);
        k.num.remove("repeat_to");
    }
    k
}

/// Sizes of the pieces the data is read in.
fn gen_chunks(r: &mut Rng, c: &mut Case) {
    let len = effective_data(c).len().max(8) as u64;
    let k = match r.below(6) {
        0 => len.max(4),
        1 => (len - 1).max(4),
        2 => (len / r.range(1, 6)).max(4),
        3 => r.range(4, 24),
        _ => r.logu(4, len + 8),
    } as i64;
    // not absurdly many pieces
    let k = k.max(len as i64 / 60).max(4);
    c.set("file_chunk", k);
    c.set("mem_chunk", k);
}

// ---------------------------------------------------------------- C01

fn c01_gen(r: &mut Rng, idx: u64, thorough: bool) -> Case {
    if idx < if thorough { 12 } else { 3 } {
        return c01_full(r, idx);
    }
    let mut c = if r.chance(1, 2) { gen_convert(r, "C01", (60, 2500)) } else { gen_optimize(r, "C01", (60, 900)) };
    if c.t("cmd") == "optimize" {
        if c.t("type") == "bytes" {
            c.set("n", 258);
        }
        if r.chance(1, 2) {
            c.set("stream_size", 0);
        }
    }
    gen_chunks(r, &mut c);
    let s = seedc(r).set("ncpu", cpus(r));
    let mut s = schedule(r, s);
    if r.chance(1, 4) {
        s = benign(r, s);
    }
    s = slow(r, s);
    c.ctl.push(s);
    c
}

/// Real sizes: tens of megabytes, nothing tuned.
fn c01_full(r: &mut Rng, _idx: u64) -> Case {
    let mut c = new_case("C01", "full");
    let unit = text::corpus(r, 60_000);
    let target = (33 << 20) + r.below(3 << 20) as usize;
    c.sett("cmd", "convert").sett("type", "byteshuff").sett("processing", "raw");
    let js = text::tokenset(r, "byteshuff", "raw", unit.as_bytes(), 6);
    c.set("n", Ts::parse(&js).unwrap().tokens.len() as i64);
    c.blobs.insert(TOKIN.into(), js);
    c.data = unit.into_bytes();
    c.set("repeat_to", target as i64).set("fixed_data", 1);
    let s = seedc(r).set("ncpu", r.range(2, 6)).set("steplimit", 60_000_000_000);
    let s = if r.chance(1, 2) { s.set("sched", 1).set("pmean", 3_000_000).set("p_sync", 20000) } else { s.set("sched", 2).set("pct_d", 4).set("pct_len", 400_000_000) };
    c.ctl.push(s);
    c
}

fn c01_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let mut sc = cmd_sc(c);
    if c.shape == "full" {
        sc.files.insert(DATA.into(), full_data(c));
        sc.env.clear();
    }
    let limit = if c.shape == "full" { 60_000_000_000 } else { 150_000_000 };
    let seq = rt.base(&knob(sc.clone(), "TEXMO_PARALLEL_SIZE", 1 << 60), &[("steplimit", limit)]);
    if !seq.ok() {
        return rt.skip();
    }
    let par_sc = if c.shape == "full" { sc } else { knob(sc, "TEXMO_PARALLEL_SIZE", 0) };
    let par = rt.run(0, &par_sc);
    if !par.ok() {
        return viol("parallel-run-fails", format!("the sequential run succeeds, the parallel run ends with {}", par.brief()));
    }
    // time passing adds token sets saved along the way
    let take = |r: &Report| if slowed(&c.ctl[0]) { final_set(r).into_iter().collect() } else { tok_files(r) };
    let (a, b) = (take(&seq), take(&par));
    if a != b {
        return viol("statistics-differ", format!("sequential and parallel results differ: {}", diff_files(&a, &b)));
    }
    if decisions(&seq.out_str()) != decisions(&par.out_str()) {
        return viol("decisions-differ", "the sequential and the parallel run adopt different token sets or print different measurements");
    }
    Ok(())
}

fn diff_files(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> String {
    let mut out = Vec::new();
    for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
        match (a.get(k), b.get(k)) {
            (Some(x), Some(y)) if x != y => {
                let st = |d: &[u8]| Ts::parse(d).ok().and_then(|t| t.stats).map(|s| s.to_string()).unwrap_or_else(|| format!("{} bytes", d.len()));
                out.push(format!("{} differs ({} / {})", k, st(x), st(y)))
            }
            (Some(_), None) => out.push(format!("{} is missing", k)),
            (None, Some(_)) => out.push(format!("{} is extra", k)),
            _ => {}
        }
    }
    out.join("; ")
}

// ---------------------------------------------------------------- C02

fn c02_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    let kind = idx % 4;
    let mut c = match kind {
        0 | 1 => {
            let mut c = if r.chance(2, 3) { gen_convert(r, "C02", (20, 1500)) } else { gen_optimize(r, "C02", (20, 500)) };
            if c.t("cmd") == "optimize" && r.chance(1, 2) {
                c.set("stream_size", 0);
            }
            c.set("parallel_size", 0);
            c
        }
        2 => {
            let mut c = gen_optimize(r, "C02", (1, 700));
            if r.chance(1, 3) {
                let sz = r.range(1, 90) as usize;
                c.data = text::periodic(r, sz).into_bytes();
                c.blobs.clear();
            }
            if r.chance(1, 8) {
                c.set("n", match c.t("type") { "bytes" => 262, _ => r.range(257, 330) as i64 });
                c.data.truncate(120);
                while std::str::from_utf8(&c.data).is_err() {
                    c.data.pop();
                }
                c.blobs.clear();
            }
            c
        }
        _ => {
            let mut c = gen_optimize(r, "C02", (30, 700));
            c.set("parallel_size", 0);
            c
        }
    };
    gen_chunks(r, &mut c);
    let mut s = seedc(r).set("ncpu", cpus(r)).set("steplimit", SILENCE + 1_000_000_000);
    s = schedule(r, s);
    match kind {
        0 if r.chance(1, 2) => s = s.set("p_spawn", *r.pick(&[3000u64, 15000, 40000])),
        1 => s = s.set("p_rerr", *r.pick(&[1500u64, 6000, 20000])).set("p_merr", 300).set("p_oerr", 800),
        3 if r.chance(1, 3) => s = s.set("p_spawn", 600),
        _ => {}
    }
    if r.chance(1, 3) {
        s = benign(r, s);
    }
    s = slow(r, s);
    c.ctl.push(s);
    c
}

fn failing_faults(r: &Report) -> u64 {
    ["read_error", "write_error", "open_error", "meta_error", "stdout_error", "thread_start_failure", "disk_full"].iter().map(|k| r.cnt.get(*k).unwrap_or(&0)).sum()
}

fn c02_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let sc = cmd_sc(c);
    let rep = rt.run(0, &sc);
    if rep.hung(c.n("n") as u64) {
        return viol("hang", format!("the command never ends: {} after {} steps, {} threads", rep.verdict, rep.n("steps"), rep.n("threads")));
    }
    if rep.verdict == "noreport" {
        return viol("died", format!("the process died: {}", rep.brief()));
    }
    let ff = failing_faults(&rep);
    if ff == 0 && !rep.ok() {
        return viol("fails", format!("nothing failed around it, yet the command ends with {}", rep.brief()));
    }
    if ff > 0 && rep.ok() {
        let base = rt.base(&knob(sc, "TEXMO_PARALLEL_SIZE", 1 << 60), &[]);
        let take = |r: &Report| if slowed(&c.ctl[0]) { final_set(r).into_iter().collect() } else { tok_files(r) };
        if base.ok() && take(&base) != take(&rep) {
            return viol("partial-results", format!("a thread start or an operation failed, the command reports success, and its result differs: {}", diff_files(&take(&base), &take(&rep))));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

fn c03_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    if idx % 40 == 17 {
        let mut c = gen_natural(r, "C03");
        let s = seedc(r).set("steplimit", 1_500_000_000).set("ncpu", cpus(r));
        let s = benign(r, s);
        c.ctl.push(slow(r, s));
        return c;
    }
    let mut c = if r.chance(3, 4) { gen_convert(r, "C03", (1, 3000)) } else { gen_optimize(r, "C03", (40, 700)) };
    if c.t("cmd") == "optimize" {
        if r.chance(1, 2) {
            c.set("stream_size", 0);
        }
        if c.t("type") == "bytes" {
            c.set("n", 257);
        }
    }
    gen_chunks(r, &mut c);
    if r.chance(1, 3) {
        // make the length a multiple of the piece size
        let k = c.n("file_chunk") as usize;
        if c.t("processing") == "raw" && c.data.len() > k {
            let l = c.data.len() / k * k;
            let mut s = c.text().to_string();
            text::truncate(&mut s, l);
            while s.len() < l {
                s.push('\n');
            }
            c.data = s.into_bytes();
        }
    }
    if r.chance(1, 4) {
        c.set("parallel_size", 0);
    }
    let s = seedc(r).set("ncpu", cpus(r));
    let s = if c.has("parallel_size") { schedule(r, s) } else { s };
    let s = benign(r, s);
    c.ctl.push(slow(r, s));
    c
}

/// Statistics saved in the file agree with the model for the data read in pieces.
fn check_stats(c: &Case, name: &str, file: &[u8], chunk: usize, what: &str) -> Result<(), Viol> {
    let ts = match Ts::parse(file) {
        Ok(t) => t,
        Err(e) => return viol("bad-file", format!("{}: {}", name, e)),
    };
    let st = match &ts.stats {
        Some(s) => s.clone(),
        None => return viol("no-statistics", format!("{} has no statistics", name)),
    };
    let data = effective_data(c);
    let g = |k: &str| st[k].as_u64();
    if g("scanned_bytes") != Some(data.len() as u64) {
        return viol("scanned-bytes", format!("{}{}: scanned_bytes is {} but the data has {} bytes", what, name, st["scanned_bytes"], data.len()));
    }
    let allowed = allowed_totals(&ts, &data, chunk);
    match g("total_tokens") {
        Some(t) if allowed.contains(&t) => {}
        _ => return viol("total-tokens", format!("{}{}: total_tokens is {} but the data in pieces of {} needs {:?}", what, name, st["total_tokens"], chunk, allowed)),
    }
    Ok(())
}

fn chunk_of(c: &Case) -> usize {
    if c.t("cmd") == "convert" || c.has("min_data") || (c.has("stream_size") && c.data.len() as i64 >= c.n("stream_size")) {
        if c.has("file_chunk") { c.n("file_chunk") as usize } else { 1 << 24 }
    } else if c.has("mem_chunk") {
        c.n("mem_chunk") as usize
    } else {
        1 << 20
    }
}

fn c03_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let c = &repeated(c);
    let sc = cmd_sc(c);
    let rep = rt.run(0, &sc);
    if !rep.ok() {
        if !rt.base(&whole(sc), &[("steplimit", c.ctl[0].get("steplimit").max(150_000_000))]).ok() {
            return rt.skip(); // fails also when the data is read in one piece
        }
        return viol("read-fails", format!("the data can't be read in pieces of {}: {}", chunk_of(c), rep.brief()));
    }
    match final_set(&rep) {
        Some((p, d)) => check_stats(c, &p, &d, chunk_of(c), ""),
        None => viol("no-result", "success, but no token set was written"),
    }
}

fn whole(sc: Scenario) -> Scenario {
    let sc = knob(sc, "TEXMO_PARALLEL_SIZE", 1 << 60);
    let sc = knob(sc, "TEXMO_FILE_CHUNK", 1 << 20);
    knob(sc, "TEXMO_MEMORY_CHUNK", 1 << 20)
}

// ---------------------------------------------------------------- C04

fn c04_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    let mut c = new_case("C04", "process");
    c.sett("cmd", "process");
    let sz = match r.below(10) {
        0 => r.range(0, 20),
        1..=6 => r.logu(20, 3000),
        7 | 8 => r.range(7000, 30000),
        _ => r.range(16000, 90000),
    } as usize;
    let mut t = text::text(r, sz);
    if r.chance(1, 6) {
        t = t.replace('\n', " ");
    }
    if r.chance(1, 8) {
        // sizes around the buffer limits
        let l = *r.pick(&[8191usize, 8192, 8193, 16384, 24576]);
        while t.len() < l {
            let x = text::text(r, 500);
            t += &x;
        }
        text::truncate(&mut t, l);
    }
    if r.chance(1, 4) {
        // an earlier output
        let n = r.logu(1, 2 * t.len() as u64 + 100) as usize;
        c.blobs.insert(OUT.into(), text::text(r, n).into_bytes());
    }
    if idx % 50 == 7 {
        // every alphabetic character once, as a capitalized, an upper-case and a single-letter word
        let start = r.below(0x1F000) as u32;
        t = (start..start + 900)
            .filter_map(char::from_u32)
            .filter(|c| !matches!(*c, '\r' | '\x14' | '\x15' | '\x16'))
            .map(|c| match r.below(3) {
                0 => format!("{}a ", c),
                1 => format!("A{}{} ", c, c),
                _ => format!("{} ", c),
            })
            .collect();
    }
    c.data = t.into_bytes();
    let mut s = quiet(r);
    if idx % 250 == 99 {
        s = s.set("steplimit", large(r, &mut c, 6_000_000));
    }
    c.ctl.push(if r.chance(9, 10) { benign(r, s) } else { s });
    if idx % 60 == 31 {
        same_output(r, &mut c);
    }
    c
}

/// The text many times over. The limit on steps that goes with it.
fn large(r: &mut Rng, c: &mut Case, max: u64) -> u64 {
    if c.data.is_empty() {
        c.data.push(b'a');
    }
    let n = r.logu(100_000, max);
    c.set("repeat_to", n as i64).set("fixed_data", 1);
    c.shape = format!("large {}", c.shape);
    20_000_000_000
}

/// The data file itself, under various spellings, as the output.
fn same_output(r: &mut Rng, c: &mut Case) {
    c.sett("out", r.pick::<&str>(&[DATA, "/sim/in/./data.txt", "/sim/out/../in/data.txt", "in/data.txt"]));
}

fn sigma(s: &str) -> String {
    s.replace('ς', "σ")
}

fn c04_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let c = &repeated(c);
    if c.text().contains(&['\r', '\x14', '\x15', '\x16'][..]) {
        return rt.skip();
    }
    let sc = cmd_sc(c);
    let rep = rt.run(0, &sc);
    let same = !c.t("out").is_empty();
    if !rep.ok() {
        if same {
            return Ok(()); // refused
        }
        return viol("fails", format!("process fails on valid text: {}", rep.brief()));
    }
    let out = match rep.files.get(if same { DATA } else { OUT }) {
        Some(o) => o.clone(),
        None => return viol("no-output", "process succeeds but wrote no file"),
    };
    let out = match String::from_utf8(out) {
        Ok(s) => s,
        Err(_) => return viol("not-utf8", "the processed text is not valid UTF-8"),
    };
    let mut want = c.text().to_string();
    if !want.is_empty() && !want.ends_with('\n') {
        want.push('\n');
    }
    let back = decode_processed(&out);
    if back != want {
        return viol("not-lossless", format!("decoding the processed text does not give the input back: {}", first_diff(&want, &back)));
    }
    let model = process(c.text());
    if sigma(&out) != sigma(&model) {
        return viol("not-normalized", format!("the processed text is not the documented form: {}", first_diff(&model, &out)));
    }
    Ok(())
}

fn first_diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let i = x.iter().zip(y.iter()).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
    let cut = |v: &[char]| v[i.saturating_sub(12).min(v.len())..(i + 14).min(v.len())].iter().collect::<String>();
    format!("at character {}: expected {:?}, got {:?} (lengths {} and {})", i, cut(&x), cut(&y), x.len(), y.len())
}

// ---------------------------------------------------------------- C05

/// A small command of any kind, for fault injection.
fn small_command(r: &mut Rng, prop: &str, k: u64) -> Case {
    let mut c = match k % 6 {
        0 => {
            let mut c = new_case(prop, "process");
            let n = r.logu(1, 20000) as usize;
            c.data = text::text(r, n).into_bytes();
            c.data = text::spice(r, c.text().to_string()).into_bytes();
            c.sett("cmd", "process");
            c
        }
        1 => {
            let mut c = new_case(prop, "count-chars");
            let n = r.logu(1, 20000) as usize;
            c.data = text::text(r, n).into_bytes();
            c.data = text::spice(r, c.text().to_string()).into_bytes();
            c.sett("cmd", "count-chars");
            c
        }
        2 | 3 => gen_convert(r, prop, (10, 1500)),
        _ => {
            let mut c = gen_optimize(r, prop, (30, 400));
            if c.t("type") == "bytes" {
                c.set("n", 257);
            } else {
                let lo = match c.t("type") { "bits1" => 2, "bits2" => 4, "bits4" => 16, _ => 3 };
                c.set("n", lo + r.below(8) as i64);
            }
            if r.chance(1, 4) {
                c.set("min_data", r.range(1, 400) as i64);
            } else if r.chance(1, 4) {
                c.set("stream_size", 0);
            }
            c
        }
    };
    if matches!(c.t("cmd"), "convert" | "optimize") {
        gen_chunks(r, &mut c);
        if r.chance(1, 4) {
            c.set("parallel_size", 0);
        }
    }
    c
}

/// An optimization with samples taken from data of several kinds, long enough
/// to be read in many pieces.
fn sampled_command(r: &mut Rng, prop: &str) -> Case {
    let mut c = gen_optimize(r, prop, (30, 100));
    let mut s = String::new();
    for _ in 0..r.range(2, 5) {
        let sz = r.range(5000, 14_000) as usize;
        s += &text::corpus(r, sz);
        s += "\n\n";
    }
    c.data = s.into_bytes();
    c.blobs.clear();
    c.sett("processing", "raw").sett("type", *r.pick(&["bits1", "bits2", "bits4", "bytes-huff"]));
    let lo = match c.t("type") { "bits1" => 2, "bits2" => 4, "bits4" => 16, _ => 3 };
    c.set("n", lo + r.range(2, 6) as i64);
    let len = c.data.len() as u64;
    c.set("min_data", r.range(len / 4, len) as i64);
    c.set("stop_size", *r.pick(&[1i64, 1, len as i64]));
    c.shape = "sampled".into();
    c
}

fn fault_errors(op: &str) -> &'static [i64] {
    match op {
        "read" => &[5],
        "write" => &[28, 5],
        "open" => &[13, 24, 2],
        "sync" => &[5, 28],
        "rename" => &[5, 28, 13, 18],
        "stat" => &[5],
        "seek" => &[5],
        "unlink" => &[5],
        "truncate" => &[5],
        "out" => &[32, 28],
        "mkdir" => &[13],
        _ => &[],
    }
}

fn ops_of(r: &Report) -> Vec<(u64, String)> {
    r.hist
        .iter()
        .filter_map(|e| match e {
            Ev::Io { ord, op, .. } => Some((*ord, op.clone())),
            _ => None,
        })
        .collect()
}

/// Every operation of small commands failing in every way.
fn enumerate_faults(cx: &Ctx, seed: u64, prop: &str, templates: u64, keep: fn(&Case) -> bool) -> Vec<Case> {
    let mut out = Vec::new();
    let mut k = 0;
    let mut made = 0;
    while made < templates && k < templates * 6 {
        let mut r = Rng::derive(seed, &format!("{}-enum", prop), k);
        let mut c = if k % 8 == 3 && prop == "C05" { sampled_command(&mut r, prop) } else { small_command(&mut r, prop, k) };
        k += 1;
        if !keep(&c) {
            continue;
        }
        let linens = *r.pick(&[0u64, 61_000_000_000, 61_000_000_000]);
        c.set("linens", linens as i64);
        let b = cx.base(&cmd_sc(&c), &[("linens", linens), ("logio", 1)]);
        if !b.ok() || b.n("ioops") > 400 {
            continue;
        }
        made += 1;
        for (ord, op) in ops_of(&b) {
            for &e in fault_errors(&op) {
                let mut d = c.clone();
                d.label = format!("operation {} ({}) fails with errno {}", ord, op, e);
                d.ctl.push(Ctl { replay: true, dec: vec![Dec { kind: 'I', ord, v1: 3, v2: e }], ..Default::default() }.set("linens", linens));
                out.push(d);
            }
        }
        if matches!(c.t("cmd"), "process") || c.t("cmd") == "optimize" || c.t("cmd") == "convert" {
            let used: usize = cmd_sc(&c).files.values().map(|f| f.len()).sum();
            let total: usize = b.files.values().map(|f| f.len()).sum();
            for i in 0..14u64 {
                let cap = match i {
                    0 => 0,
                    1 => 1,
                    2 => total.saturating_sub(1),
                    _ => r.below(total as u64 + 1) as usize,
                };
                let mut d = c.clone();
                d.label = format!("disk full after {} more bytes", cap);
                d.ctl.push(Ctl { replay: true, ..Default::default() }.set("diskcap", (used + cap) as u64).set("linens", linens));
                out.push(d);
            }
        }
    }
    out
}

fn c05_enum(cx: &Ctx, seed: u64, th: bool) -> Vec<Case> {
    enumerate_faults(cx, seed, "C05", if th { 150 } else { 30 }, |_| true)
}

fn c05_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    let mut c = if idx % 25 == 13 { sampled_command(r, "C05") } else { small_command(r, "C05", idx) };
    let lines = c.t("cmd") == "process" && r.chance(1, 3);
    if lines {
        // short lines, more than a buffer holds
        let mut t = String::new();
        let size = r.logu(8000, 60_000) as usize;
        let max = *r.pick(&[0u64, 1, 3, 8]);
        while t.len() < size {
            let n = r.below(max + 1) as usize;
            t += &"ab c".repeat(2)[..n];
            t.push('\n');
        }
        c.data = t.into_bytes();
    }
    let linens = *r.pick(&[0u64, 20_000_000_000, 61_000_000_000]);
    c.set("linens", linens as i64);
    let mut s = seedc(r).set("linens", linens).set("ncpu", r.range(1, 4));
    if c.has("parallel_size") {
        s = schedule(r, s);
    }
    for k in ["p_rerr", "p_werr", "p_oerr", "p_merr", "p_outerr"] {
        if r.chance(1, 3) {
            s = s.set(k, *r.pick(&[600u64, 3000, 12000]));
        }
    }
    if r.chance(1, 4) {
        let used: usize = cmd_sc(&c).files.values().map(|f| f.len()).sum();
        s = s.set("diskcap", used as u64 + r.logu(1, 20000));
    }
    if r.chance(1, 2) {
        s = benign(r, s);
    }
    if lines {
        s = s.set("p_werr", *r.pick(&[3000u64, 12000]));
    }
    if idx % 30 == 12 {
        // process (12 % 6 == 0) at natural sizes, with failures anywhere
        s = s.set("steplimit", large(r, &mut c, 1_500_000));
        for k in ["p_rerr", "p_werr"] {
            s = s.set(k, *r.pick(&[0u64, 300, 1000]));
        }
        if r.chance(1, 2) {
            s = s.set("diskcap", r.logu(1, 3) * c.n("repeat_to") as u64 + r.logu(1, 100_000));
        }
    }
    c.ctl.push(s);
    c
}

fn outputs(r: &Report) -> BTreeMap<String, Vec<u8>> {
    r.files.iter().filter(|(p, _)| p.starts_with("/sim/tok/") && p.ends_with(".json") || p.as_str() == OUT).map(|(p, d)| (p.clone(), d.clone())).collect()
}

fn c05_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let c = &repeated(c);
    let sc = cmd_sc(c);
    let base = rt.base(&sc, &[("linens", c.n("linens") as u64), ("logio", 1), ("steplimit", c.ctl[0].get("steplimit").max(150_000_000))]);
    if !base.ok() {
        return rt.skip();
    }
    let rep = rt.run(0, &sc);
    if rep.hung(c.n("n") as u64) {
        return viol("hang", format!("an operation failed and the command never ends ({})", rep.verdict));
    }
    if failing_faults(&rep) == 0 {
        rt.note("no failure hit");
    }
    if rep.ok() {
        let what = rep.dec.iter().filter(|d| d.kind == 'I' && d.v1 == 3).map(|d| format!("operation {} failed with errno {}", d.ord, d.v2)).chain(rep.cnt.get("disk_full").map(|n| format!("disk full {} times", n))).collect::<Vec<_>>().join(", ");
        if outputs(&base) != outputs(&rep) {
            return viol("success-with-wrong-output", format!("{}: the command reports success but {}", what, diff_files(&outputs(&base), &outputs(&rep))));
        }
        if c.t("cmd") == "count-chars" && base.stdout != rep.stdout {
            return viol("success-with-wrong-output", format!("{}: the command reports success but its output is incomplete", what));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

fn old_sets(r: &mut Rng, c: &mut Case) {
    // previous results under the names this run will write, and the checkpoints' names
    let (p, t) = (proc_tag(c.t("processing")), type_tag(c.t("type")));
    let n = c.n("n");
    let names: Vec<i64> = if c.t("cmd") == "convert" { vec![n] } else { (0..4).map(|i| n - i).filter(|x| *x > 1).collect() };
    for k in names {
        if k == n || r.chance(1, 2) {
            let extra = r.below(6) as usize;
            let js = text::tokenset(r, &t, &p, b"some older data, with other tokens in it", 3 + extra);
            c.blobs.insert(format!("{}/tokens{}_{}_{}.json", TOK, k, p, t), js);
        }
    }
}

fn c06_case(r: &mut Rng, k: u64) -> Case {
    let mut c = if k % 3 == 0 {
        let mut c = gen_convert(r, "C06", (10, 600));
        if r.chance(1, 3) {
            c.data = text::any(r, 8000).into_bytes();
        }
        c
    } else {
        let mut c = gen_optimize(r, "C06", (30, 400));
        if c.t("type") == "bytes" {
            c.set("n", 257);
        }
        if r.chance(1, 5) {
            c.set("min_data", r.range(1, 300) as i64);
        }
        c
    };
    old_sets(r, &mut c);
    if c.t("cmd") == "convert" && r.chance(1, 2) {
        // re-measuring a set in place: the input is the file that gets replaced
        let p = result_path(&c);
        let js = c.blobs[TOKIN].clone();
        c.blobs.insert(p, js);
    }
    c.set("linens", *r.pick(&[0i64, 61_000_000_000, 61_000_000_000, 25_000_000_000]));
    c
}

fn c06_enum(cx: &Ctx, seed: u64, th: bool) -> Vec<Case> {
    let mut out = Vec::new();
    for k in 0..if th { 120 } else { 16 } {
        let mut r = Rng::derive(seed, "C06-enum", k);
        let c = c06_case(&mut r, k);
        let l = c.n("linens") as u64;
        let b = cx.base(&cmd_sc(&c), &[("linens", l), ("logio", 1)]);
        if !b.ok() || b.n("ioops") > 500 {
            continue;
        }
        for (ord, op) in ops_of(&b) {
            if op == "out" && !r.chance(1, 4) {
                continue;
            }
            for (kind, power, seeds) in [(5, 0, 1), (6, 0, 2), (7, 0, 1), (7, 1, 4), (6, 1, 2)] {
                if kind == 6 && op != "write" {
                    continue;
                }
                for _ in 0..seeds {
                    let mut d = c.clone();
                    d.label = format!("{} {} operation {} ({})", if power == 1 { "power failure" } else { "kill" }, ["before", "inside", "after"][kind as usize - 5], ord, op);
                    d.ctl.push(Ctl { replay: true, dec: vec![Dec { kind: 'I', ord, v1: kind, v2: power }], ..Default::default() }.set("linens", l).set("crash_seed", r.below(1 << 30)));
                    out.push(d);
                }
            }
            if op == "rename" || (op == "write" || op == "open") && r.chance(1, 6) {
                // something fails, and whatever is done about it is interrupted
                for i in 1..=6 {
                    for (kind, power) in [(6, 0), (7, 0), (7, 1)] {
                        let mut d = c.clone();
                        let e = if op == "rename" { *r.pick(&[18i64, 1, 13, 5]) } else { *r.pick(fault_errors(&op)) };
                        d.label = format!("operation {} ({}) fails with errno {}, then {} {} operation {}", ord, op, e, if power == 1 { "power failure" } else { "kill" }, if kind == 6 { "inside" } else { "after" }, ord + i);
                        let dec = vec![Dec { kind: 'I', ord, v1: 3, v2: e }, Dec { kind: 'I', ord: ord + i, v1: kind, v2: power }];
                        d.ctl.push(Ctl { replay: true, dec, ..Default::default() }.set("linens", l).set("crash_seed", r.below(1 << 30)));
                        out.push(d);
                    }
                }
            }
            if op == "sync" {
                // the data can't be put on the disk, later the power fails
                for i in 1..=8 {
                    let mut d = c.clone();
                    let e = *r.pick(&[5i64, 28]);
                    d.label = format!("operation {} (sync) fails with errno {}, power failure after operation {}", ord, e, ord + i);
                    let dec = vec![Dec { kind: 'I', ord, v1: 3, v2: e }, Dec { kind: 'I', ord: ord + i, v1: 7, v2: 1 }];
                    d.ctl.push(Ctl { replay: true, dec, ..Default::default() }.set("linens", l).set("crash_seed", r.below(1 << 30)));
                    out.push(d);
                }
            }
        }
    }
    out
}

fn c06_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    let mut c = c06_case(r, idx);
    let l = c.n("linens") as u64;
    let s = seedc(r).set("linens", l);
    let mut s = benign(r, s);
    c.set("crash_frac", r.below(1_000_000) as i64);
    c.set("crash_kind", r.range(5, 7) as i64).set("crash_power", r.below(2) as i64);
    if r.chance(1, 3) {
        s = s.set("p_serr", *r.pick(&[10000u64, 40000]));
        c.set("crash_power", 1).set("crash_frac", 500_000 + r.below(500_000) as i64);
    }
    c.ctl.push(s);
    c
}

fn c06_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let sc = cmd_sc(c);
    let (rep, full): (Report, Arc<Report>) = if c.has("crash_frac") && !c.ctl[0].replay {
        // the same disturbed run to its end, then again with a crash in it
        let full = rt.cx.raw_run(&sc, &c.ctl[0].clone().set("logio", 1), false);
        if !full.ok() && c.ctl[0].get("p_serr") == 0 {
            return rt.skip();
        }
        let ord = 1 + (full.n("ioops") * c.n("crash_frac") as u64) / 1_000_000;
        let rep = rt.run_with(0, &sc, &[Dec { kind: 'I', ord, v1: c.n("crash_kind"), v2: c.n("crash_power") }]);
        (rep, Arc::new(full))
    } else {
        let mut d = c.ctl[0].clone();
        d.dec.retain(|x| !(x.kind == 'I' && x.v1 >= 5));
        d.replay = true;
        let full = if d.dec.is_empty() { rt.base(&sc, &[("linens", c.ctl[0].get("linens")), ("logio", 1)]) } else { Arc::new(rt.cx.raw_run(&sc, &d, false)) };
        if !full.ok() && !d.dec.iter().any(|x| x.kind == 'I' && x.v1 == 3) {
            return rt.skip();
        }
        let rep = rt.run(0, &sc);
        (rep, full)
    };
    if rep.verdict != "crash" {
        rt.note("crash point not reached");
        return Ok(());
    }
    let how = rep.dec.iter().find(|d| d.kind == 'I' && d.v1 >= 5).map(|d| format!("{} {} operation {}", if d.v2 == 1 { "power failure" } else { "kill" }, ["before", "inside", "after"][(d.v1 - 5) as usize], d.ord)).unwrap_or_default();
    let mut allowed: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    let plain = rt.base(&sc, &[("linens", c.ctl[0].get("linens")), ("logio", 1)]);
    for (_, _, p, d) in full.pubs().into_iter().chain(plain.pubs()) {
        if Ts::parse(d).map(|t| t.check_wellformed().is_ok()).unwrap_or(false) {
            allowed.entry(p.to_string()).or_default().push(d.to_vec());
        }
    }
    // the pieces of file names this run may use
    for (p, old) in sc.files.iter().filter(|(p, _)| p.starts_with("/sim/tok/") && p.ends_with(".json")) {
        if rep.same.contains(p) {
            continue;
        }
        match rep.files.get(p) {
            None => return viol("token-set-lost", format!("{}: {} existed before and is gone", how, p)),
            Some(d) if d == old => {}
            Some(d) => {
                if !allowed.get(p).map(|v| v.contains(d)).unwrap_or(false) {
                    return viol("token-set-destroyed", format!("{}: {} holds neither its old content nor a complete new token set ({} bytes: {})", how, p, d.len(), Ts::parse(d).err().unwrap_or_else(|| "parses".into())));
                }
            }
        }
    }
    for (p, d) in tok_files(&rep) {
        if sc.files.contains_key(&p) {
            continue;
        }
        if !allowed.get(&p).map(|v| v.contains(&d)).unwrap_or(false) {
            return viol("token-set-incomplete", format!("{}: {} is new and holds an incomplete token set ({} bytes)", how, p, d.len()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07, C16, C11, C15: histories with checkpoints

fn gen_history(r: &mut Rng, prop: &str) -> Case {
    let mut c = gen_optimize(r, prop, (30, 900));
    if r.chance(1, 8) {
        c.set("min_data", r.logu(1, 600) as i64);
        if r.chance(1, 2) {
            c.set("stop_size", 1);
        }
        gen_chunks(r, &mut c);
    } else if r.chance(1, 8) {
        gen_chunks(r, &mut c);
        c.set("parallel_size", 0);
    }
    if r.chance(1, 6) {
        // start from an existing set
        let (t, p) = (type_tag(c.t("type")), proc_tag(c.t("processing")));
        let d = effective_data(&c);
        let nl = r.below(6) as usize;
        // the set may be one for the other processing
        let p = if r.chance(1, 3) { if p == "raw" { "capswords".into() } else { "raw".into() } } else { p };
        let js = text::tokenset(r, &t, &p, &d, nl);
        let ts = Ts::parse(&js).unwrap();
        if ts.tokens.iter().all(|t| !matches!(t, Tok::Str(b) if crosses_paragraph(b))) {
            let extra = if prop == "C07" && r.chance(1, 6) { -(r.range(1, 6) as i64) } else { r.below(6) as i64 };
            c.set("n", (ts.tokens.len() as i64 + extra).max(1));
            c.blobs.insert(TOKIN.into(), js);
        }
    }
    c
}

fn c07_gen(r: &mut Rng, _idx: u64, _th: bool) -> Case {
    let mut c = gen_history(r, "C07");
    if r.chance(1, 30) {
        // fewer than can be: a failure, and no larger sets on the way
        let lo = match c.t("type") { "bits1" => 2, "bits2" => 4, "bits4" => 16, "bytes" => 256, _ => 3 };
        c.set("n", r.below(lo) as i64);
    }
    c.ctl.push(history_ctl(r, &c));
    c
}

fn history_ctl(r: &mut Rng, c: &Case) -> Ctl {
    let mut s = seedc(r);
    if r.chance(2, 3) {
        s = s.set("linens", 61_000_000_000);
    } else {
        s = s.set("p_tjump", *r.pick(&[8000u64, 25000, 50000]));
    }
    if c.has("parallel_size") {
        let n = r.range(1, 4);
        s = schedule(r, s.set("ncpu", n));
    }
    if r.chance(1, 4) {
        s = benign(r, s);
    }
    slow(r, s)
}

fn file_stem(p: &str) -> &str {
    p.rsplit('/').next().unwrap_or("").trim_end_matches(".json")
}

fn c07_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let sc = cmd_sc(c);
    let rep = rt.run(0, &sc);
    rt.slow = false; // the sets saved so far count
    if rep.verdict == "noreport" {
        return rt.skip();
    }
    let (t, p) = (type_tag(c.t("type")), proc_tag(c.t("processing")));
    let mut last: Option<Vec<Tok>> = None;
    for (_, _, path, d) in rep.pubs() {
        if !path.starts_with("/sim/tok/") {
            continue;
        }
        rt.note("token sets checked");
        let name = file_stem(path);
        let ts = match Ts::parse(d) {
            Ok(t) => t,
            Err(e) => return viol("unreadable", format!("{}: {}", path, e)),
        };
        if let Err(e) = ts.check_wellformed() {
            return viol("not-decodable", format!("{}: {}", path, e));
        }
        if ts.tokens.len() as i64 > c.n("n") {
            return viol("too-many-tokens", format!("{}: {} tokens, {} were asked for", path, ts.tokens.len(), c.n("n")));
        }
        if ts.typ != t || ts.processing != p {
            return viol("wrong-type", format!("{}: says type {} and processing {}, asked for {} and {}", path, ts.typ, ts.processing, t, p));
        }
        let want = format!("tokens{}_{}_{}", ts.tokens.len(), p, t);
        if name != want {
            return viol("wrong-name", format!("{} should be named {}", name, want));
        }
        last = Some(ts.tokens);
    }
    if rep.ok() && last.is_none() {
        return viol("no-result", "success, but no token set was written");
    }
    Ok(())
}

fn c16_gen(r: &mut Rng, _idx: u64, _th: bool) -> Case {
    let mut c = gen_history(r, "C16");
    if r.chance(4, 5) {
        // texts in which merging across a blank line would pay
        let sz = r.logu(60, 900) as usize;
        let w = ["\n\nThe ", "a\n\n", "\n\n\n", "end.\n\nNew", "x\n\ny", "b", "\n", "\n\n"];
        let k = r.range(1, 5);
        let ws: Vec<&str> = (0..k).map(|_| *r.pick(&w)).collect();
        let mut s = String::new();
        while s.len() < sz {
            s += r.pick(&ws);
            if r.chance(1, 9) {
                s += "q ";
            }
        }
        c.data = s.into_bytes();
        c.blobs.clear();
        if c.t("type") != "bytes" {
            c.set("n", c.n("n").min(300) + r.below(10) as i64);
        }
        if c.has("file_chunk") {
            gen_chunks(r, &mut c);
        }
    }
    c.ctl.push(history_ctl(r, &c));
    c
}

fn c16_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let sc = cmd_sc(c);
    let rep = rt.run(0, &sc);
    rt.slow = false;
    for (_, _, path, d) in rep.pubs() {
        if !path.starts_with("/sim/tok/") {
            continue;
        }
        if let Ok(ts) = Ts::parse(d) {
            for t in &ts.tokens {
                if let Tok::Str(b) = t {
                    if b.len() > 1 {
                        rt.note("multi-byte tokens checked");
                        if crosses_paragraph(b) {
                            return viol("crosses-paragraph", format!("{} contains the token {}", path, show(b)));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn c11_gen(r: &mut Rng, _idx: u64, _th: bool) -> Case {
    let grow = r.chance(1, 4);
    let mut c = gen_optimize(r, "C11", if grow { (1, 400) } else { (60, 1200) });
    if r.chance(1, 5) {
        c.set("parallel_size", 0);
    }
    if grow || r.chance(1, 6) {
        let (t, p) = (type_tag(c.t("type")), proc_tag(c.t("processing")));
        let d = effective_data(&c);
        let nl = r.below(8) as usize;
        let js = text::tokenset(r, &t, &p, &d, nl);
        let n = Ts::parse(&js).unwrap().tokens.len() as i64;
        // a smaller set than asked for has to grow first
        c.set("n", if grow { n + r.range(1, 12) as i64 } else { n });
        c.blobs.insert(TOKIN.into(), js);
    } else if r.chance(1, 6) {
        c.set("min_data", r.logu(8, c.data.len() as u64 + 8) as i64);
        if r.chance(1, 2) {
            c.set("stop_size", 1);
        }
    }
    let mut s = seedc(r).set("linens", 61_000_000_000);
    if c.has("parallel_size") {
        let n = r.range(1, 4);
        s = schedule(r, s.set("ncpu", n));
    }
    c.ctl.push(s);
    c
}

fn c11_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let sc = cmd_sc(c);
    let rep = rt.run(0, &sc);
    if rep.hung(c.n("n") as u64) {
        return viol("never-settles", format!("the optimization never ends ({})", rep.verdict));
    }
    let partial = rep.unfinished();
    rt.slow = false; // the steps taken so far count
    if !rep.ok() && !partial {
        return rt.skip();
    }
    let data = effective_data(c);
    let mut sets: Vec<Ts> = Vec::new();
    // the sets adopted before all of the data is used
    let mut sampled = 0;
    let mut full = false;
    let out = rep.out_str();
    for e in &rep.hist {
        match e {
            Ev::Pub { path, data: d, .. } if path.starts_with("/sim/tok/") => match Ts::parse(d) {
                Ok(t) => sets.push(t),
                Err(_) => return rt.skip(),
            },
            Ev::Out { off, len, .. } if !full && String::from_utf8_lossy(&out.as_bytes()[..(*off + *len).min(out.len())]).contains("Optimizing with the full data.") => {
                full = true;
                sampled = sets.len();
            }
            _ => {}
        }
    }
    let n = c.n("n") as usize;
    let fin = match if partial { sets.last().cloned() } else { sets.pop() } {
        Some(f) => f,
        None => return rt.skip(),
    };
    let mut start: Option<Ts> = c.blobs.get(TOKIN).map(|js| Ts::parse(js).unwrap());
    if c.has("min_data") {
        if !out.contains("Optimizing with the full data.") {
            // stopped after a sample: what the samples' sets need for all of the data says nothing
            sampled = sets.len();
        }
        for w in sets[..sampled.min(sets.len())].windows(2) {
            if w[1].tokens.len() < w[0].tokens.len() {
                return viol("shrinks", format!("after a set of {} tokens one of {} was adopted", w[0].tokens.len(), w[1].tokens.len()));
            }
        }
        start = sets[..sampled.min(sets.len())].last().cloned();
        rt.note("growing samples checked");
    }
    let adopted = sets.split_off(sampled.min(sets.len()));
    if let Some(l) = adopted.last().or(sets.last()) {
        if l.canon() != fin.canon() {
            return viol("final-not-last", "the final token set is not the last one adopted");
        }
    }
    let sets = adopted;
    let mut prev: Option<u64> = start.as_ref().filter(|t| t.tokens.len() == n).and_then(|t| Costs::new(t).min_tokens(&data));
    let mut reached = prev.is_some();
    let mut last: Option<(usize, u64)> = start.as_ref().and_then(|t| Costs::new(t).min_tokens(&data).map(|k| (t.tokens.len(), k)));
    for t in &sets {
        let now = Costs::new(t).min_tokens(&data).unwrap_or(u64::MAX);
        if let Some((size, before)) = last {
            if t.tokens.len() < size {
                return viol("shrinks", format!("after a set of {} tokens one of {} was adopted", size, t.tokens.len()));
            }
            if now > before {
                return viol("worse", format!("an adopted set of {} tokens needs {} tokens for the data, the one of {} before it {}", t.tokens.len(), now, size, before));
            }
            if t.tokens.len() > size {
                rt.note("growing steps checked");
            }
        }
        last = Some((t.tokens.len(), now));
        if t.tokens.len() < n {
            if reached {
                return viol("shrinks", format!("after a set of {} tokens one of {} was adopted", n, t.tokens.len()));
            }
            continue;
        }
        reached = true;
        rt.note("adopted sets of full size checked");
        if let Some(p) = prev {
            if now >= p {
                return viol("not-better", format!("an adopted set of {} tokens needs {} tokens for the data, the one before {}", n, now, p));
            }
        }
        prev = Some(now);
    }
    let f = Costs::new(&fin).min_tokens(&data).unwrap_or(u64::MAX);
    if fin.tokens.len() == n {
        if let Some(p) = prev.filter(|_| !c.has("min_data") || out.contains("Optimizing with the full data.")) {
            if f > p {
                return viol("final-not-best", format!("the final set needs {} tokens, the best adopted one {}", f, p));
            }
        }
    } else if reached {
        return viol("shrinks", format!("the final set has {} tokens, {} were reached", fin.tokens.len(), n));
    }
    Ok(())
}

fn c15_gen(r: &mut Rng, _idx: u64, _th: bool) -> Case {
    let mut c = gen_optimize(r, "C15", (100, 900));
    if r.chance(1, 3) {
        c.set("min_data", r.logu(5, 300) as i64);
    }
    let s = seedc(r).set("logio", 1).set("tick", *r.pick(&[1000u64, 1000, 1_000_000]));
    let s = match r.below(4) {
        0 => s.set("linens", *r.pick(&[4_000_000_000u64, 11_000_000_000, 20_000_000_000, 29_000_000_000, 31_000_000_000, 45_000_000_000, 61_000_000_000])),
        1 => s.set("p_tjump", *r.pick(&[3000u64, 12000])),
        _ => s.set("p_tjump", *r.pick(&[20000u64, 40000, 60000])).set("linens", *r.pick(&[0u64, 1_000_000_000, 7_000_000_000])),
    };
    let s = if r.chance(1, 3) { s.set("p_rskew", *r.pick(&[4000u64, 20000, 45000])) } else { s };
    c.ctl.push(s);
    c
}

fn c15_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let sc = cmd_sc(c);
    let rep = rt.run(0, &sc);
    if !rep.ok() && rep.verdict == "exit" {
        return rt.skip();
    }
    rt.slow = false;
    const MIN: u64 = 60_000_000_000;
    const TOL: u64 = 50_000_000;
    let ev_t = |e: &Ev| match e {
        Ev::Io { t, .. } | Ev::Pub { t, .. } | Ev::Out { t, .. } => *t,
    };
    let out = rep.out_str();
    let mut last_save: Option<u64> = None; // start of the optimization, then last save
    let mut due: Option<(u64, u64)> = None; // an adopted step that must be saved: its time, time of last save
    for (i, e) in rep.hist.iter().enumerate() {
        match e {
            Ev::Out { off, len, t } => {
                let after = rep.hist[i + 1..].iter().find(|x| !matches!(x, Ev::Io { op, .. } if op == "out")).map(|x| ev_t(x)).unwrap_or(*t);
                let line = out.get(*off..*off + *len).unwrap_or("");
                if line.starts_with("Initial tokens") && last_save.is_none() {
                    last_save = Some(after);
                } else if line.starts_with("processed bytes / token:") {
                    if let Some((at, ls)) = due {
                        return viol("checkpoint-missed", format!("an improvement was adopted {:.1} s after the last save and the next one was adopted without saving it", (at - ls) as f64 / 1e9));
                    }
                    if let Some(ls) = last_save {
                        rt.note("adopted steps checked");
                        if after > ls + MIN + TOL {
                            due = Some((after, ls));
                            rt.note("saves due");
                        }
                    }
                }
            }
            Ev::Pub { path, t, .. } if path.starts_with("/sim/tok/") => {
                due = None;
                last_save = Some(*t);
            }
            _ => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

fn c08_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    if idx % 50 == 23 {
        let mut c = gen_natural(r, "C08");
        let s = seedc(r).set("steplimit", 1_500_000_000).set("ncpu", cpus(r)).set("hseed", r.below(1000));
        let s = benign(r, s);
        c.ctl.push(slow(r, s));
        return c;
    }
    let mut c = match r.below(5) {
        0 | 1 => gen_convert(r, "C08", (1, 2000)),
        2 => gen_history(r, "C08"),
        _ => gen_optimize(r, "C08", (20, 1000)),
    };
    if c.t("cmd") == "convert" && c.t("processing") == "caps-words" && r.chance(1, 2) {
        c.blobs.insert(PROC.into(), process(c.text()).into_bytes());
    }
    if c.t("processing") == "raw" && r.chance(1, 4) {
        // not for a raw token set
        let d = if r.chance(1, 2) { process(c.text()) } else { let n = r.logu(1, 500) as usize; text::text(r, n) };
        c.blobs.insert(PROC.into(), d.into_bytes());
    }
    if r.chance(1, 2) {
        gen_chunks(r, &mut c);
    }
    if c.t("cmd") == "optimize" && !c.has("min_data") && r.chance(1, 3) {
        c.set("stream_size", *r.pick(&[0i64, 0, 100]));
    }
    if r.chance(1, 3) {
        c.set("parallel_size", 0);
    }
    let mut s = seedc(r).set("ncpu", cpus(r)).set("hseed", r.below(1000));
    if c.has("parallel_size") {
        s = schedule(r, s);
    }
    if r.chance(1, 3) {
        s = s.set("linens", 61_000_000_000);
    }
    if r.chance(1, 2) {
        s = benign(r, s);
    }
    c.ctl.push(slow(r, s));
    c
}

fn c08_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let c = &repeated(c);
    let sc = cmd_sc(c);
    let rep = rt.run(0, &sc);
    if !rep.ok() {
        return rt.skip();
    }
    let (p, d) = match final_set(&rep) {
        Some(x) => x,
        None => return viol("no-result", "success, but no token set was written"),
    };
    let ts = match Ts::parse(&d) {
        Ok(t) => t,
        Err(e) => return viol("bad-file", format!("{}: {}", p, e)),
    };
    check_stats(c, &p, &d, chunk_of(c), "")?;
    let st = ts.stats.unwrap();
    if st["ntokens"].as_u64() != Some(ts.tokens.len() as u64) {
        return viol("ntokens", format!("{}: ntokens is {} but the set has {} tokens", p, st["ntokens"], ts.tokens.len()));
    }
    if st["initial_size"].as_u64() != Some(c.data.len() as u64) {
        return viol("initial-size", format!("{}: initial_size is {} but the data file has {} bytes", p, st["initial_size"], c.data.len()));
    }
    let want = c.data.len() as f64 / st["total_tokens"].as_u64().unwrap_or(0) as f64;
    if want.is_finite() {
        match st["bytes_per_token"].as_f64() {
            Some(x) if (x - want).abs() <= want * 1e-9 => {}
            _ => return viol("bytes-per-token", format!("{}: bytes_per_token is {} but {} / {} = {}", p, st["bytes_per_token"], c.data.len(), st["total_tokens"], want)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

fn c09_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    if idx % 16 == 11 {
        let mut c = gen_natural(r, "C09");
        let s = seedc(r).set("steplimit", 1_500_000_000).set("ncpu", cpus(r)).set("hseed", 1 + r.below(100000));
        let s = benign(r, s);
        c.ctl.push(slow(r, s));
        return c;
    }
    let mut c = if r.chance(1, 8) { gen_convert(r, "C09", (20, 1500)) } else { gen_history(r, "C09") };
    if c.t("cmd") == "optimize" && r.chance(1, 6) {
        let sz = r.range(40, 500) as usize;
        c.data = text::periodic(r, sz).into_bytes();
        c.blobs.remove(PROC);
        if c.blobs.contains_key(TOKIN) && c.t("processing") == "caps-words" {
            c.blobs.remove(TOKIN);
            c.set("n", 20);
            if c.t("type") == "bytes" {
                c.set("n", 259);
            }
        }
    }
    if !c.has("file_chunk") && r.chance(1, 2) {
        gen_chunks(r, &mut c);
    }
    if r.chance(2, 3) {
        c.set("parallel_size", 0);
    }
    let mut s = seedc(r).set("ncpu", cpus(r)).set("hseed", 1 + r.below(100000));
    if c.has("parallel_size") {
        s = schedule(r, s);
    }
    match r.below(3) {
        0 => s = s.set("linens", 61_000_000_000),
        1 => s = s.set("p_tjump", 20000),
        _ => {}
    }
    if r.chance(2, 3) {
        s = benign(r, s);
    }
    c.ctl.push(slow(r, s));
    c
}

fn c09_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let c = &repeated(c);
    let sc = cmd_sc(c);
    let limit = c.ctl[0].get("steplimit");
    let base = if limit > 0 { rt.base(&sc, &[("steplimit", limit)]) } else { rt.base(&sc, &[]) };
    if !base.ok() {
        return rt.skip();
    }
    let rep = rt.run(0, &sc);
    if !rep.ok() {
        return viol("fails-sometimes", format!("one run succeeds, another ends with {}", rep.brief()));
    }
    let (a, b) = (final_set(&base), final_set(&rep));
    if a != b {
        let m = |x: Option<(String, Vec<u8>)>| x.into_iter().collect::<BTreeMap<_, _>>();
        return viol("not-reproducible", format!("two runs on the same data and options give different results: {}", diff_files(&m(a), &m(b))));
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

fn c10_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    if idx % 12 == 5 {
        let mut c = gen_convert(r, "C10", (20, 1500));
        c.shape = "generated".into();
        c.ctl.push(quiet(r));
        return c;
    }
    let mut c = gen_optimize(r, "C10", (40, 900));
    c.shape = "chain".into();
    let mut s = seedc(r);
    s = if r.chance(2, 3) { s.set("linens", 61_000_000_000) } else { s.set("p_tjump", 30000) };
    if r.chance(1, 2) {
        c.set("crash_frac", r.below(1_000_000) as i64).set("crash_kind", r.range(5, 7) as i64).set("crash_power", r.below(2) as i64);
    }
    c.ctl.push(s);
    c.ctl.push(if r.chance(1, 2) { let q = quiet(r); benign(r, q) } else { quiet(r) });
    c.ctl.push(quiet(r));
    c
}

fn c10_enum(_cx: &Ctx, seed: u64, th: bool) -> Vec<Case> {
    // the shipped token sets
    let mut out = Vec::new();
    let dir = std::env::var("DST_TOKENS").unwrap_or_else(|_| "/repo/tokens".into());
    let mut names: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    names.sort();
    for (i, p) in names.iter().enumerate() {
        let js = match std::fs::read(p) {
            Ok(j) => j,
            Err(_) => continue,
        };
        if js.len() > if th { 400_000 } else { 60_000 } {
            continue;
        }
        let ts = match Ts::parse(&js) {
            Ok(t) => t,
            Err(_) => continue,
        };
        let mut r = Rng::derive(seed, "C10-shipped", i as u64);
        let mut c = new_case("C10", "shipped");
        c.label = p.file_name().unwrap().to_string_lossy().into_owned();
        c.data = text::any(&mut r, 600).into_bytes();
        c.sett("cmd", "convert").sett("type", &ts.typ).sett("processing", if ts.processing == "raw" { "raw" } else { "caps-words" });
        c.set("n", ts.tokens.len() as i64);
        c.blobs.insert(TOKIN.into(), js);
        c.ctl.push(quiet(&mut r));
        out.push(c);
    }
    out
}

fn cmp_sets(a: &Ts, b: &Ts) -> Result<(), String> {
    let (x, y) = (a.canon(), b.canon());
    if x.0 != y.0 || x.1 != y.1 {
        return Err(format!("type/processing {}/{} became {}/{}", x.0, x.1, y.0, y.1));
    }
    if x.2.is_some() && x.2 != y.2 {
        return Err(format!("split_paragraphs {:?} became {:?}", x.2, y.2));
    }
    if x.3 != y.3 {
        let d: Vec<String> = x.3.iter().filter(|t| !y.3.contains(t)).chain(y.3.iter().filter(|t| !x.3.contains(t))).take(4).map(show_tok).collect();
        return Err(format!("the tokens differ ({} and {}; e.g. {})", x.3.len(), y.3.len(), d.join(", ")));
    }
    if x.4 != y.4 {
        let d: Vec<String> = x.4.iter().filter(|t| !y.4.contains(t)).chain(y.4.iter().filter(|t| !x.4.contains(t))).take(3).map(|(s, t)| format!("{} = {}", show(s), t.iter().map(show_tok).collect::<Vec<_>>().join("+"))).collect();
        return Err(format!("the sequences differ ({} and {}; e.g. {})", x.4.len(), y.4.len(), d.join(", ")));
    }
    Ok(())
}

fn c10_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    if c.shape != "chain" {
        let input = match Ts::parse(&c.blobs[TOKIN]) {
            Ok(t) => t,
            Err(_) => return rt.skip(),
        };
        rt.nontrivial = true;
        let rep = rt.run(0, &convert_sc(c));
        if !rep.ok() {
            return viol("cannot-load", format!("a valid token set ({} {} tokens) can't be loaded: {}", input.typ, input.tokens.len(), rep.brief()));
        }
        let (p, d) = match final_set(&rep) {
            Some(x) => x,
            None => return viol("no-result", "success, but no token set was written"),
        };
        return match Ts::parse(&d).and_then(|t| cmp_sets(&input, &t)) {
            Ok(()) => Ok(()),
            Err(e) => viol("loaded-differently", format!("{}: {}", p, e)),
        };
    }
    let sc = optimize_sc(c);
    let mut extra = vec![];
    if c.has("crash_frac") && !c.ctl[0].replay {
        let full = rt.base(&sc, &[("linens", c.ctl[0].get("linens"))]);
        if !full.ok() {
            return rt.skip();
        }
        extra.push(Dec { kind: 'I', ord: 1 + full.n("ioops") * c.n("crash_frac") as u64 / 1_000_000, v1: c.n("crash_kind"), v2: c.n("crash_power") });
    }
    let first = rt.run_with(0, &sc, &extra);
    if !(first.ok() || first.verdict == "crash") {
        return rt.skip();
    }
    let sets = tok_files(&first);
    // the most recent sets: full size first
    let mut names: Vec<&String> = sets.keys().collect();
    names.sort_by_key(|p| std::cmp::Reverse(Ts::parse(&sets[*p]).map(|t| t.tokens.len()).unwrap_or(0)));
    let data = effective_data(c);
    for (i, p) in names.iter().take(2).enumerate() {
        let saved = match Ts::parse(&sets[*p]) {
            Ok(t) => t,
            Err(_) => return rt.skip(), // a crash-safety matter (C06)
        };
        if saved.check_wellformed().is_err() {
            return rt.skip(); // C07
        }
        let mut k = c.clone();
        k.blobs.insert(TOKIN.into(), sets[*p].clone());
        let mut s2 = convert_sc(&k);
        s2.args = s2.args.iter().map(|a| if a == TOK { TOK2.to_string() } else { a.clone() }).collect();
        let conv = if i == 0 { rt.run(1, &s2) } else { (*rt.base(&s2, &[])).clone() };
        if !conv.ok() {
            return viol("cannot-load", format!("{} was saved by optimize but can't be loaded: {}", p, conv.brief()));
        }
        let q = p.replace("/sim/tok/", "/sim/tok2/");
        let again = match conv.files.get(&q) {
            Some(d) => d,
            None => return viol("renamed", format!("re-measuring {} did not write {}", p, q)),
        };
        if saved.stats.is_some() {
            if again != &sets[*p] {
                let e = Ts::parse(again).and_then(|t| cmp_sets(&saved, &t)).err().unwrap_or_else(|| diff_files(&[((*p).clone(), sets[*p].clone())].into(), &[((*p).clone(), again.clone())].into()));
                return viol("remeasured-differently", format!("re-measuring {} on the same data writes a different file: {}", p, e));
            }
        } else if let Err(e) = Ts::parse(again).and_then(|t| cmp_sets(&saved, &t)) {
            return viol("loaded-differently", format!("{}: {}", p, e));
        }
        rt.note("sets reloaded");
        if i == 0 && saved.tokens.len() as i64 == c.n("n") {
            let mut k = c.clone();
            k.blobs.insert(TOKIN.into(), sets[*p].clone());
            let res = rt.run(2, &optimize_sc(&k));
            if !res.ok() {
                return viol("cannot-resume", format!("optimization can't be continued from {}: {}", p, res.brief()));
            }
            if let Some((_, d)) = final_set(&res) {
                if let Ok(t) = Ts::parse(&d) {
                    let (was, now) = (Costs::new(&saved).min_tokens(&data), Costs::new(&t).min_tokens(&data));
                    rt.note("resumed");
                    if now.is_none() || now > was || t.tokens.len() as i64 > c.n("n") {
                        return viol("resume-worse", format!("continuing from {} gives a set that needs {:?} tokens instead of {:?}", p, now, was));
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

fn c12_gen(r: &mut Rng, _idx: u64, _th: bool) -> Case {
    let mut c = gen_optimize(r, "C12", (40, 1500));
    let big = r.chance(1, 25);
    if big {
        // few large paragraphs, some of several lines
        let mut s = String::new();
        for _ in 0..r.range(1, 4) {
            let len = r.logu(300, 100_000) as usize;
            let lines = r.chance(2, 3);
            let w = ["ab", "a", " b", "the ", "\n"];
            let start = s.len();
            while s.len() - start < len {
                let x = *r.pick(&w);
                if x != "\n" || (lines && !s.ends_with('\n')) {
                    s += x;
                }
            }
            s += r.pick(&["\n\n", "\n\n", "\n\n\n", ".\n"]);
        }
        if r.chance(1, 2) {
            s = s.trim_end().to_string();
        }
        c.data = s.into_bytes();
        c.blobs.clear();
        c.sett("processing", "raw").sett("type", *r.pick(&["bits1", "bits2", "bits4", "bytes-huff"]));
    } else if r.chance(2, 3) {
        // paragraphs whose lengths are multiples of a number: sums are recognizable
        let m = *r.pick(&[7usize, 10, 16]);
        let maxk = r.range(1, 12);
        let mut s = String::new();
        let target = r.logu(60, 1800) as usize;
        while s.len() < target {
            let len = m * r.range(1, maxk) as usize;
            let nl = r.range(2, 3) as usize;
            let mut p: String = text::corpus(r, len.saturating_sub(nl)).chars().filter(|c| c.is_ascii() && *c != '\n').collect();
            while p.len() + nl < len {
                p.push(*r.pick(&['a', 'b', ' ']));
            }
            text::truncate(&mut p, len - nl);
            s += &p;
            s += &"\n".repeat(nl);
        }
        c.data = s.into_bytes();
        c.blobs.clear();
        c.sett("processing", "raw");
    }
    if c.t("type") == "bytes" {
        c.set("n", 257);
    } else {
        let lo = match c.t("type") { "bits1" => 2, "bits2" => 4, "bits4" => 16, _ => 3 };
        c.set("n", lo + r.below(if big { 2 } else { 10 }) as i64);
    }
    let len = effective_data(&c).len() as u64;
    let m = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => len,
        3 => len + r.below(100),
        4 => len.saturating_sub(1),
        _ if big => r.range(len / 10, len),
        _ => r.logu(1, len.max(2)),
    };
    c.set("min_data", m as i64);
    match r.below(3) {
        0 => {
            c.set("stop_size", 0);
        }
        1 => {
            c.set("stop_size", r.logu(1, len.max(2)) as i64);
        }
        _ => {}
    }
    gen_chunks(r, &mut c);
    let mut s = seedc(r).set("steplimit", SILENCE + 1_000_000_000);
    if r.chance(1, 5) {
        c.set("parallel_size", 0);
        let n = r.range(1, 4);
        s = schedule(r, s.set("ncpu", n));
    }
    if r.chance(2, 3) {
        s = benign(r, s);
    }
    c.ctl.push(slow(r, s));
    c
}

fn c12_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let sc = cmd_sc(c);
    let rep = rt.run(0, &sc);
    if rep.hung(c.n("n") as u64) {
        return viol("never-completes", format!("optimizing with --min-data-size {} never ends ({})", c.n("min_data"), rep.verdict));
    }
    if !rep.ok() {
        return viol("fails", format!("optimizing with --min-data-size {} on {} bytes ends with {}", c.n("min_data"), c.data.len(), rep.brief()));
    }
    let (p, d) = match final_set(&rep) {
        Some(x) => x,
        None => return viol("no-result", "success, but no token set was written"),
    };
    // a result that needed no sample may have been measured in memory or streamed
    let mut e = check_stats(c, &p, &d, c.n("file_chunk") as usize, "full data: ");
    if e.is_err() {
        for k in [c.n("mem_chunk") as usize, 1 << 20] {
            if check_stats(c, &p, &d, k, "").is_ok() {
                e = Ok(());
            }
        }
    }
    e?;
    let data = effective_data(c);
    let paras = paragraphs(&data);
    let maxpar = paras.iter().map(|p| p.len()).max().unwrap_or(0);
    // possible sizes of a selection of whole paragraphs
    let mut sums = vec![false; data.len() + 1];
    sums[0] = true;
    for p in &paras {
        for i in (p.len()..=data.len()).rev() {
            if sums[i - p.len()] {
                sums[i] = true;
            }
        }
    }
    let mut size = (c.n("min_data") as u128).max(1);
    for l in rep.out_str().lines() {
        let n = match l.strip_prefix("Optimizing with ").and_then(|x| x.strip_suffix(" bytes of data.")).and_then(|x| x.parse::<usize>().ok()) {
            Some(n) => n,
            None => continue,
        };
        rt.note("samples checked");
        if n > data.len() || !sums[n] {
            return viol("not-whole-paragraphs", format!("a sample of {} bytes is no selection of whole paragraphs of the data", n));
        }
        if (n as u128) > size + maxpar as u128 || (n as u128) + (maxpar as u128) < size {
            return viol("sample-size", format!("a sample of {} bytes was asked for, {} were taken; the largest paragraph has {}", size, n, maxpar));
        }
        size *= 2;
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

fn c13_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    let mut c = new_case("C13", "count-chars");
    c.sett("cmd", "count-chars");
    let sz = match r.below(8) {
        0 => r.range(0, 10),
        1..=4 => r.logu(10, 3000),
        _ => r.range(7000, 40000),
    } as usize;
    let sz = if idx % 60 == 31 { r.range(66_000, 400_000) as usize } else { sz };
    let mut t = if r.chance(1, 3) || sz > 60_000 { text::periodic(r, sz) } else { text::text(r, sz) };
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 40) {
            let ch = char::from_u32(match r.below(4) {
                0 => r.below(256) as u32,
                1 => 250 + r.below(12) as u32,
                2 => r.below(0xD800) as u32,
                _ => 0xE000 + r.below(0x10FFFF - 0xE000 + 1) as u32,
            })
            .unwrap();
            let mut p = r.below(t.len() as u64 + 1) as usize;
            while !t.is_char_boundary(p) {
                p -= 1;
            }
            t.insert(p, ch);
        }
    }
    if r.chance(1, 4) {
        t = t.replace('\n', "");
    }
    if r.chance(1, 8) {
        t = t.replace('\n', "\r\n");
    }
    c.data = t.into_bytes();
    let mut s = quiet(r);
    if idx % 250 == 99 {
        s = s.set("steplimit", large(r, &mut c, 6_000_000));
    }
    let mut s = if r.chance(9, 10) { benign(r, s) } else { s };
    if r.chance(1, 8) {
        s = s.set("p_rerr", 8000).set("p_outerr", 2000);
    }
    c.ctl.push(s);
    c
}

fn c13_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let c = &repeated(c);
    let rep = rt.run(0, &cmd_sc(c));
    if !rep.ok() {
        if failing_faults(&rep) > 0 {
            return Ok(());
        }
        return viol("fails", format!("count-chars fails on valid text: {}", rep.brief()));
    }
    let (total, lines, max) = char_lines(c.text());
    let out = rep.out_str();
    let mut seen = BTreeMap::new();
    let (mut t, mut m) = (None, None);
    for l in out.split('\n') {
        if let Some(x) = l.strip_prefix("Total: ") {
            t = x.parse::<u64>().ok();
        } else if let Some(x) = l.strip_prefix("Max char: ") {
            m = Some(x.to_string());
        } else if l.starts_with('\'') {
            if let Some(i) = l.rfind(' ') {
                if let Ok(n) = l[i + 1..].parse::<u64>() {
                    *seen.entry(l[..i].to_string()).or_insert(0) += n;
                }
            }
        }
    }
    if t != Some(total) {
        return viol("total", format!("the text has {} characters, printed {:?}", total, t));
    }
    if seen != lines {
        let d: Vec<String> = lines.iter().filter(|(k, v)| seen.get(*k) != Some(*v)).map(|(k, v)| format!("{} occurs {} times, printed {:?}", k, v, seen.get(k))).chain(seen.iter().filter(|(k, _)| !lines.contains_key(*k)).map(|(k, v)| format!("{} does not occur, printed {}", k, v))).take(3).collect();
        return viol("count", d.join("; "));
    }
    if let Some(x) = max {
        if m != Some(format!("{:?}", x)) {
            return viol("max-char", format!("the largest character is {:?}, printed {:?}", x, m));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn caps_command(r: &mut Rng, prop: &str) -> Case {
    let mut c = if r.chance(1, 2) { gen_convert(r, prop, (10, 1500)) } else { gen_optimize(r, prop, (30, 500)) };
    c.blobs.remove(PROC);
    c.sett("processing", "caps-words");
    if c.t("cmd") == "convert" {
        let d = effective_data(&c);
        let nl = r.below(12) as usize;
        let t = c.t("type").to_string();
        let js = text::tokenset(r, &t, "capswords", &d, nl);
        c.set("n", Ts::parse(&js).unwrap().tokens.len() as i64);
        c.blobs.insert(TOKIN.into(), js);
    } else {
        if c.t("type") == "bytes" {
            c.set("n", 257);
        }
        if r.chance(1, 5) {
            c.set("min_data", r.range(1, 300) as i64);
        }
    }
    if r.chance(1, 3) {
        let sz = r.range(7000, 20000) as usize;
        if c.t("cmd") == "convert" {
            c.data = text::text(r, sz).into_bytes();
        }
    }
    c.data = text::spice(r, c.text().to_string()).into_bytes();
    if r.chance(1, 2) {
        gen_chunks(r, &mut c);
    }
    if r.chance(1, 4) {
        c.set("parallel_size", 0);
    }
    c
}

fn c14_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    let mut c = caps_command(r, "C14");
    let mut s = seedc(r).set("ncpu", r.range(1, 5)).set("hseed", r.below(1000));
    if c.has("parallel_size") {
        s = schedule(r, s);
    }
    s = benign(r, s);
    if idx % 2 == 0 {
        c.shape = "faulty".into();
        for k in ["p_rerr", "p_werr", "p_oerr", "p_outerr"] {
            if r.chance(1, 2) {
                s = s.set(k, *r.pick(&[800u64, 3000, 9000]));
            }
        }
        if c.has("parallel_size") && r.chance(1, 2) {
            s = s.set("p_spawn", 12000);
        }
        if r.chance(1, 3) {
            let used: usize = cmd_sc(&c).files.values().map(|f| f.len()).sum();
            s = s.set("diskcap", used as u64 + r.logu(1, 8000));
        }
    } else {
        c.shape = "equal".into();
        if idx % 100 == 51 {
            // natural sizes
            c = caps_command(r, "C14");
            while c.t("cmd") != "convert" {
                c = caps_command(r, "C14");
            }
            for k in ["file_chunk", "mem_chunk", "parallel_size", "stream_size"] {
                c.num.remove(k);
            }
            s = s.set("steplimit", large(r, &mut c, 3_000_000));
            c.shape = "equal".into();
        }
    }
    c.ctl.push(s);
    c
}

fn c14_enum(cx: &Ctx, seed: u64, th: bool) -> Vec<Case> {
    let mut out = Vec::new();
    for k in 0..if th { 60 } else { 14 } {
        let mut r = Rng::derive(seed, "C14-enum", k);
        let mut c = caps_command(&mut r, "C14");
        c.shape = "faulty".into();
        let b = cx.base(&cmd_sc(&c), &[("logio", 1)]);
        if !b.ok() || b.n("ioops") > 300 {
            continue;
        }
        for (ord, op) in ops_of(&b) {
            for &e in fault_errors(&op) {
                let mut d = c.clone();
                d.label = format!("operation {} ({}) fails with errno {}", ord, op, e);
                d.ctl.push(Ctl { replay: true, dec: vec![Dec { kind: 'I', ord, v1: 3, v2: e }], ..Default::default() }.set("logio", 1));
                out.push(d);
            }
        }
    }
    out
}

fn tmp_litter(r: &Report) -> Vec<String> {
    r.files.keys().filter(|p| p.starts_with("/sim/tmp/")).cloned().collect()
}

fn c14_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let c = &repeated(c);
    let limit = [("steplimit", c.ctl[0].get("steplimit").max(150_000_000))];
    let sc = cmd_sc(c);
    let rep = rt.run(0, &sc);
    if rep.unfinished() || rep.verdict == "noreport" {
        return rt.skip();
    }
    let litter = tmp_litter(&rep);
    // a failing removal itself leaves the file, of course
    let unlink_failed = rep.dec.iter().any(|d| d.kind == 'I' && d.v1 == 3) && rep.cnt.get("meta_error").copied().unwrap_or(0) > 0;
    if rep.verdict == "exit" && !litter.is_empty() && !unlink_failed {
        return viol("litter", format!("the command ended ({}) and left {}", rep.brief(), litter.join(", ")));
    }
    if c.shape == "equal" {
        let proc = rt.base(&scenario(&Case { blobs: BTreeMap::new(), ..c.clone() }, &["process", "-d", DATA, "-o", OUT]), &limit);
        let processed = match proc.files.get(OUT) {
            Some(p) if proc.ok() => p.clone(),
            _ => return rt.skip(),
        };
        let mut k = c.clone();
        k.blobs.insert(PROC.into(), processed);
        let exp = rt.base(&cmd_sc(&k), &limit);
        if exp.ok() != rep.ok() {
            return viol("differs-from-explicit", format!("automatic pre-processing ends with {}, explicit with {}", rep.brief(), exp.brief()));
        }
        if exp.ok() && tok_files(&exp) != tok_files(&rep) {
            return viol("differs-from-explicit", format!("automatic pre-processing gives a different result than explicit: {}", diff_files(&tok_files(&exp), &tok_files(&rep))));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn c17_setup(r: &mut Rng, c: &mut Case) {
    // bystanders in the output directory
    let other = if c.t("processing") == "raw" { "capswords" } else { "raw" };
    let t = type_tag(c.t("type"));
    c.blobs.insert(format!("{}/notes.txt", TOK), b"keep me\n".to_vec());
    c.blobs.insert(format!("{}/tokens{}_{}_{}.json", TOK, c.n("n"), other, if t.is_empty() { "bytes" } else { &t }), text::tokenset(r, "bits4", other, b"bystander data", 3));
    c.blobs.insert(format!("{}/tokens99999_raw_bytes.json", TOK), b"{\"kept\": true}".to_vec());
    // results of the same kind from other runs, smaller and larger
    if matches!(c.t("cmd"), "convert" | "optimize") {
        let (p, n) = (proc_tag(c.t("processing")), c.n("n"));
        for k in [1, n - 3, n - 1, n + 1, n + 40] {
            if k > 0 && r.chance(1, 2) {
                let js = text::tokenset(r, "bits4", &p, b"bystander data", 3);
                c.blobs.insert(format!("{}/tokens{}_{}_{}.json", TOK, k, p, t), js);
            }
        }
    }
    c.blobs.insert("/sim/out/other.txt".into(), b"other output\n".to_vec());
    c.blobs.insert("/sim/tmp/other.tmp".into(), b"someone else's\n".to_vec());
}

fn c17_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    let mut c = small_command(r, "C17", idx);
    c17_setup(r, &mut c);
    if c.t("cmd") == "process" && r.chance(1, 6) {
        same_output(r, &mut c);
    }
    if r.chance(1, 12) {
        let mut names = vec![DATA.to_string()];
        names.extend([PROC, TOKIN].iter().filter(|p| c.blobs.contains_key(**p)).map(|p| p.to_string()));
        let a = r.pick(&names).clone();
        c.sett("absent", &a);
    }
    let mut s = seedc(r).set("ncpu", r.range(1, 4)).set("linens", *r.pick(&[0u64, 61_000_000_000]));
    if c.has("parallel_size") {
        s = schedule(r, s);
    }
    match r.below(3) {
        0 => s = benign(r, s),
        1 => {
            for k in ["p_rerr", "p_werr", "p_oerr", "p_merr", "p_outerr"] {
                if r.chance(1, 2) {
                    s = s.set(k, *r.pick(&[800u64, 4000, 15000]));
                }
            }
        }
        _ => {
            c.set("crash_frac", r.below(1_000_000) as i64).set("crash_kind", r.range(5, 7) as i64).set("crash_power", r.below(2) as i64);
        }
    }
    c.ctl.push(s);
    c
}

fn c17_enum(cx: &Ctx, seed: u64, th: bool) -> Vec<Case> {
    let mut v = enumerate_faults(cx, seed, "C17", if th { 60 } else { 10 }, |_| true);
    for (i, c) in v.iter_mut().enumerate() {
        let mut r = Rng::derive(seed, "C17-by", i as u64);
        c17_setup(&mut r, c);
    }
    v
}

fn c17_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let sc = cmd_sc(c);
    let mut extra = vec![];
    if c.has("crash_frac") && !c.ctl[0].replay {
        let full = rt.base(&sc, &[("linens", c.ctl[0].get("linens"))]);
        extra.push(Dec { kind: 'I', ord: 1 + full.n("ioops") * c.n("crash_frac") as u64 / 1_000_000, v1: c.n("crash_kind"), v2: c.n("crash_power") });
    }
    let rep = rt.run_with(0, &sc, &extra);
    let (p, t) = (proc_tag(c.t("processing")), type_tag(c.t("type")));
    let is_out = |f: &str| match c.t("cmd") {
        "process" => f == OUT,
        "convert" | "optimize" => f.starts_with("/sim/tok/tokens") && f.ends_with(&format!("_{}_{}.json", p, t)),
        _ => false,
    };
    let same = !c.t("out").is_empty();
    let written: BTreeSet<&str> = rep.pubs().iter().map(|p| p.2).collect();
    for (f, old) in &sc.files {
        if rep.same.contains(f) {
            continue;
        }
        match rep.files.get(f) {
            Some(d) if d == old => {}
            Some(d) if same && f == DATA && rep.ok() && sigma(&String::from_utf8_lossy(d)) == sigma(&process(c.text())) => {}
            // its own outputs; whether a crash may alter them is for C06
            Some(_) if is_out(f) && (!rep.ok() || written.contains(f.as_str()) || f == OUT) => {}
            None if is_out(f) && rep.verdict == "crash" => {}
            Some(d) => return viol("input-altered", format!("{} was altered ({} bytes before, {} after; {})", f, old.len(), d.len(), rep.brief())),
            None => return viol("input-removed", format!("{} was removed ({})", f, rep.brief())),
        }
    }
    if rep.ok() && rep.cnt.get("meta_error").copied().unwrap_or(0) == 0 {
        for f in rep.files.keys() {
            if !sc.files.contains_key(f) && !is_out(f) {
                return viol("stray-file", format!("the command succeeded and left {} behind", f));
            }
        }
    } else if let Some(f) = rep.files.keys().find(|f| f.starts_with("/sim/in/") && !sc.files.contains_key(*f)) {
        return viol("stray-file", format!("the command ended with {} and left {} behind", rep.brief(), f));
    }
    Ok(())
}

// ---------------------------------------------------------------- C20: two processes

/// What the second process runs; the first one runs the case itself.
fn c20_second(c: &Case) -> Case {
    let mut d = c.clone();
    for k in ["cmd", "type", "processing"] {
        if c.txt.contains_key(&format!("b_{}", k)) {
            d.sett(k, c.t(&format!("b_{}", k)));
        }
    }
    if c.has("b_n") {
        d.set("n", c.n("b_n"));
    }
    if c.has("b_chunk") {
        d.set("file_chunk", c.n("b_chunk")).set("mem_chunk", c.n("b_chunk"));
    }
    d
}
fn c20_scenarios(c: &Case) -> (Scenario, Scenario) {
    let a = cmd_sc(c);
    let mut b = cmd_sc(&c20_second(c));
    if c.t("b_out") != "" {
        for x in b.args.iter_mut().filter(|x| *x == OUT) {
            *x = c.t("b_out").to_string();
        }
    }
    if c.t("b_input") != "" {
        for x in b.args.iter_mut().filter(|x| *x == TOKIN) {
            *x = c.t("b_input").to_string();
        }
    }
    (a, b)
}

fn c20_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    let mut c;
    match idx % 8 {
        0 => {
            // the same conversion twice
            c = gen_convert(r, "C20", (10, 500));
            c.shape = "same convert".into();
        }
        1 | 2 => {
            c = c20_optimize(r);
            c.shape = "same optimize".into();
        }
        3 | 4 => {
            // different sizes: the same checkpoints on the way
            c = c20_optimize(r);
            let up = r.range(1, 4) as i64;
            let n = c.n("n") + up;
            c.set("b_n", n);
            c.shape = "optimize for two sizes".into();
        }
        5 => {
            // different types, or other processing
            c = c20_optimize(r);
            c.sett("b_processing", if c.t("processing") == "raw" { "caps-words" } else { "raw" });
            if c.blobs.contains_key(PROC) {
                c.blobs.remove(PROC);
            }
            if r.chance(1, 2) {
                let t = *r.pick(&["bits1", "bits2", "bits4"]);
                c.sett("b_type", t).set("b_n", 17 + r.below(4) as i64);
            }
            c.shape = "optimize in two ways".into();
        }
        6 => {
            // conversions with automatic processing share the temporary directory
            c = gen_convert(r, "C20", (10, 800));
            c.blobs.remove(PROC);
            c.sett("processing", "caps-words");
            let d = effective_data(&c);
            let js = text::tokenset(r, &c.t("type").to_string(), "capswords", &d, 5);
            c.set("n", Ts::parse(&js).unwrap().tokens.len() as i64);
            c.blobs.insert(TOKIN.into(), js);
            if r.chance(1, 2) {
                c.sett("b_cmd", "process");
            }
            c.shape = "caps-words twice".into();
        }
        _ => {
            // one process measures a token set while the other writes it
            c = gen_convert(r, "C20", (10, 500));
            let p = result_path(&c);
            c.blobs.insert(p.clone(), c.blobs[TOKIN].clone());
            c.sett("b_input", &p);
            c.shape = "convert while it is read".into();
        }
    }
    if r.chance(1, 2) {
        old_sets(r, &mut c);
        if c.t("b_input") != "" {
            let p = result_path(&c);
            c.blobs.insert(p, c.blobs[TOKIN].clone());
        }
    }
    for who in 0..2 {
        let l = *r.pick(&[0u64, 61_000_000_000, 61_000_000_000, 25_000_000_000]);
        let mut s = seedc(r).set("linens", l);
        // which sets are saved along the way must not depend on the disturbances
        if l != 25_000_000_000 && r.chance(1, 3) {
            s = benign(r, s);
        }
        if who == 1 {
            s = s.set("pid", 5151).set("ino0", 1_000_000);
        }
        c.ctl.push(s);
    }
    // who goes on, and for how many file operations
    let mut t = Ctl { replay: true, ..Default::default() };
    let mean = *r.pick(&[1u64, 2, 4, 8, 20, 60]);
    let mut who = r.below(2) as i64;
    for i in 0..r.range(1, 8) {
        t.dec.push(Dec { kind: 'X', ord: i, v1: who, v2: r.range(1, 2 * mean) as i64 });
        who = 1 - who;
    }
    if r.chance(1, 2) {
        // far into the first process before anything else
        t.dec[0].v2 = -(r.range(1, 60) as i64);
    }
    c.ctl.push(t);
    c
}

fn c20_optimize(r: &mut Rng) -> Case {
    let mut c = gen_optimize(r, "C20", (30, 250));
    let lo = match c.t("type") { "bits1" => 2, "bits2" => 4, "bits4" => 16, "bytes" => 256, _ => 3 };
    c.set("n", lo + r.range(1, if c.t("type") == "bytes" { 2 } else { 6 }) as i64);
    if c.t("processing") == "caps-words" && r.chance(1, 2) {
        c.blobs.remove(PROC);
    }
    c
}

struct Proc {
    sc: Scenario,
    done: u64,
    total: u64,
    end: Option<Report>,
}

fn c20_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let (sa, sb) = c20_scenarios(c);
    let opt = |i: usize| [("linens", c.ctl[i].get("linens"))];
    let base_a = rt.base(&sa, &opt(0));
    if !base_a.ok() {
        return rt.skip();
    }
    // everything the two may leave in each file, and what they leave last
    let mut allowed: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    let mut last: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    let mut bases = vec![base_a.clone()];
    if c.t("b_input") == "" {
        bases.push(rt.base(&sb, &opt(1)));
    } else {
        let mut versions: Vec<Vec<u8>> = base_a.pubs().iter().filter(|p| p.2 == c.t("b_input")).map(|p| p.3.to_vec()).collect();
        versions.push(sa.files[c.t("b_input")].clone());
        for v in versions {
            let mut s = sb.clone();
            s.files.insert(c.t("b_input").into(), v);
            bases.push(rt.base(&s, &opt(1)));
        }
    }
    for b in &bases {
        if !b.ok() {
            return rt.skip();
        }
        let mut l: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for (_, _, p, d) in b.pubs() {
            allowed.entry(p.to_string()).or_default().push(d.to_vec());
            l.insert(p.to_string(), d.to_vec());
        }
        for (p, d) in l {
            last.entry(p).or_default().push(d);
        }
    }
    let files0 = sa.files.clone();
    let mut world: World = files0.iter().enumerate().map(|(i, (p, d))| (p.clone(), (500 + i as u64, Arc::new(d.clone())))).collect();
    let mut procs = [Proc { sc: sa, done: 0, total: 0, end: None }, Proc { sc: sb, done: 0, total: 0, end: None }];
    for (i, p) in procs.iter_mut().enumerate() {
        p.total = bases[i].n("ioops");
    }
    let mut plan = c.ctl[2].dec.clone();
    rt.taken[2] = Some(plan.clone());
    let first = plan.first().map(|d| d.v1 as usize & 1).unwrap_or(0);
    plan.push(Dec { kind: 'X', ord: 9000, v1: 1 - first as i64, v2: 1 << 40 });
    plan.push(Dec { kind: 'X', ord: 9001, v1: first as i64, v2: 1 << 40 });
    let mut trace = Vec::new();
    for d in &plan {
        let who = d.v1 as usize & 1;
        if procs[who].end.is_some() {
            continue;
        }
        // negative: that long before its end
        let n = if d.v2 < 0 { procs[who].total.saturating_sub(procs[who].done + (-d.v2) as u64).max(1) } else { d.v2 as u64 };
        let name = if who == 0 { "first" } else { "second" };
        let start = procs[who].done == 0;
        let mut ctl = c.ctl[who].clone();
        let p = &mut procs[who];
        if start {
            p.sc.files = world.iter().map(|(k, v)| (k.clone(), v.1.to_vec())).collect();
            p.sc.inos = world.iter().map(|(k, v)| (k.clone(), v.0)).collect();
        } else {
            p.sc.patches.push((p.done + 1, world.clone()));
        }
        let stop = p.done.saturating_add(n);
        if stop < 1 << 39 {
            ctl.dec.push(Dec { kind: 'I', ord: stop + 1, v1: 5, v2: 0 });
        }
        let rep = rt.cx.raw_run(&p.sc, &ctl, false);
        rt.slow |= rep.unfinished() && rep.verdict != "deadlock";
        if rep.unfinished() {
            return viol("hang", format!("the {} of two concurrent commands never ends ({})", name, rep.verdict));
        }
        // the files as the other process finds them
        let mut w: World = BTreeMap::new();
        let mut known: BTreeMap<u64, Arc<Vec<u8>>> = BTreeMap::new();
        for (k, d) in &p.sc.files {
            known.insert(p.sc.inos[k], Arc::new(d.clone()));
        }
        for (path, ino) in &rep.inos {
            let data = match rep.files.get(path) {
                Some(d) => Arc::new(d.clone()),
                None => known.get(ino).cloned().unwrap_or_default(),
            };
            w.insert(path.clone(), (*ino, data));
        }
        world = w;
        trace.push(format!("{}{}", if who == 0 { "A" } else { "B" }, if rep.verdict == "crash" { format!(" to operation {}", stop) } else { " to its end".into() }));
        if rep.verdict == "crash" {
            p.done = stop;
        } else {
            rt.taken[who] = Some(rep.dec.clone());
            rt.hashes.push(rep.evhash);
            if !rep.ok() {
                return viol("disturbed", format!("the {} command fails when another one runs at the same time ({}): {}", name, trace.join(", "), rep.brief()));
            }
            p.end = Some(rep);
        }
        let both = procs.iter().all(|p| p.end.is_some());
        for (path, (_, d)) in world.iter().filter(|(p, _)| p.starts_with(TOK) && p.ends_with(".json")) {
            if files0.get(path) == Some(d) && !both {
                continue;
            }
            if !allowed.get(path).map(|v| v.contains(d)).unwrap_or(false) && files0.get(path) != Some(d) {
                return viol("mixed-token-set", format!("with two commands running ({}), {} holds neither its old content nor a complete set one of them writes ({} bytes: {})", trace.join(", "), path, d.len(), Ts::parse(d).err().unwrap_or_else(|| "parses".into())));
            }
        }
        for path in files0.keys() {
            if !world.contains_key(path) {
                return viol("file-lost", format!("with two commands running ({}), {} is gone", trace.join(", "), path));
            }
        }
    }
    rt.nontrivial = trace.len() > 2;
    for (path, l) in &last {
        match world.get(path) {
            Some((_, d)) if l.iter().any(|x| x == d.as_ref()) => {}
            Some(_) => return viol("result-lost", format!("two commands ran at the same time ({}) and succeeded, but {} holds no final result of either", trace.join(", "), path)),
            None => return viol("result-lost", format!("two commands ran at the same time ({}) and succeeded, but {} does not exist", trace.join(", "), path)),
        }
    }
    for b in &bases {
        for (path, d) in b.files.iter().filter(|(p, _)| p.starts_with("/sim/out/")) {
            if world.get(path).map(|w| w.1.as_ref() != d).unwrap_or(true) {
                return viol("result-lost", format!("two commands ran at the same time ({}) and succeeded, but {} is not complete", trace.join(", "), path));
            }
        }
    }
    for path in world.keys() {
        if !files0.contains_key(path) && !last.contains_key(path) && !path.starts_with("/sim/out/") {
            return viol("stray-file", format!("two commands ran at the same time ({}) and left {} behind", trace.join(", "), path));
        }
    }
    Ok(())
}

/// The second process runs to its end, or up to some point, while the first one is
/// at each of its file operations.
fn c20_enum(cx: &Ctx, seed: u64, th: bool) -> Vec<Case> {
    let mut out = Vec::new();
    for k in 0..if th { 200 } else { 16 } {
        let mut r = Rng::derive(seed, "C20-enum", k);
        let mut c = c20_gen(&mut r, k, th);
        for i in 0..2 {
            c.ctl[i] = Ctl::default().set("linens", c.ctl[i].get("linens"));
            c.ctl[i].replay = true;
        }
        c.ctl[1] = c.ctl[1].clone().set("pid", 5151).set("ino0", 1_000_000);
        let (sa, sb) = c20_scenarios(&c);
        let (a, b) = (cx.base(&sa, &[("linens", c.ctl[0].get("linens"))]), cx.base(&sb, &[("linens", c.ctl[1].get("linens"))]));
        let (na, nb) = (a.n("ioops"), b.n("ioops"));
        if !a.ok() || !b.ok() || na > 300 || nb > 300 || na == 0 || nb == 0 {
            continue;
        }
        for cut in 1..=na {
            for v in 0..2 {
                let mut d = c.clone();
                let x = |ord: u64, v1: i64, v2: i64| Dec { kind: 'X', ord, v1, v2 };
                d.ctl[2].dec = vec![x(0, 0, cut as i64)];
                if v == 0 {
                    d.ctl[2].dec.push(x(1, 1, 1 << 40));
                } else {
                    // both in the middle, one goes on
                    let j = if r.chance(1, 2) { 1 + r.below(nb) } else { nb.saturating_sub(r.below(12)).max(1) };
                    d.ctl[2].dec.push(x(1, 1, j as i64));
                    if r.chance(1, 3) {
                        d.ctl[2].dec.push(x(2, 0, r.range(1, 6) as i64));
                        d.ctl[2].dec.push(x(3, 1, r.range(1, 6) as i64));
                    }
                }
                out.push(d);
            }
        }
    }
    out
}

// ---------------------------------------------------------------- C21: running again

/// The first attempts fail, the last one is undisturbed.
fn c21_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    let mut c = if idx % 4 == 3 { c06_case(r, idx) } else { small_command(r, "C21", idx) };
    c.prop = "C21".into();
    if r.chance(1, 2) && matches!(c.t("cmd"), "optimize" | "convert") && !c.blobs.keys().any(|k| k.starts_with(TOK)) {
        old_sets(r, &mut c);
    }
    if c.t("processing") == "caps-words" && r.chance(1, 2) && !c.has("n0") {
        c.blobs.remove(PROC);
    }
    for _ in 0..*r.pick(&[1u64, 1, 1, 2, 3]) {
        let mut s = seedc(r).set("linens", *r.pick(&[0u64, 61_000_000_000, 61_000_000_000])).set("ncpu", r.range(1, 4));
        if c.has("parallel_size") {
            s = schedule(r, s);
        }
        if r.chance(1, 2) {
            s = benign(r, s);
        }
        // crash: where, as a fraction; or failures
        if r.chance(3, 5) {
            s = s.set("crash_frac", r.below(1_000_000)).set("crash_kind", r.range(5, 7)).set("crash_power", r.below(2));
        } else {
            for k in ["p_rerr", "p_werr", "p_oerr", "p_merr", "p_outerr"] {
                if r.chance(1, 3) {
                    s = s.set(k, *r.pick(&[600u64, 3000, 12000]));
                }
            }
            if r.chance(1, 3) {
                let used: usize = cmd_sc(&c).files.values().map(|f| f.len()).sum();
                s = s.set("diskcap", used as u64 + r.logu(1, 20000));
            }
        }
        c.ctl.push(s);
    }
    let mut s = seedc(r).set("linens", *r.pick(&[0u64, 61_000_000_000])).set("ncpu", r.range(1, 4));
    if r.chance(1, 3) {
        s = benign(r, s);
    }
    c.ctl.push(s);
    c
}

fn c21_enum(cx: &Ctx, seed: u64, th: bool) -> Vec<Case> {
    let mut out = Vec::new();
    for k in 0..if th { 90 } else { 16 } {
        let mut r = Rng::derive(seed, "C21-enum", k);
        let mut c = c21_gen(&mut r, k, th);
        c.ctl.clear();
        let l = *r.pick(&[0u64, 61_000_000_000]);
        let b = cx.base(&cmd_sc(&c), &[("linens", l), ("logio", 1)]);
        if !b.ok() || b.n("ioops") > 300 {
            continue;
        }
        for (ord, op) in ops_of(&b) {
            if op == "out" && !r.chance(1, 4) {
                continue;
            }
            for (kind, power) in [(5, 0), (7, 0), (6, 0), (7, 1)] {
                if kind == 6 && op != "write" {
                    continue;
                }
                let mut d = c.clone();
                d.label = format!("{} {} operation {} ({}), then again", if power == 1 { "power failure" } else { "kill" }, ["before", "inside", "after"][kind as usize - 5], ord, op);
                d.ctl.push(Ctl { replay: true, dec: vec![Dec { kind: 'I', ord, v1: kind, v2: power }], ..Default::default() }.set("linens", l).set("crash_seed", r.below(1 << 30)));
                d.ctl.push(Ctl { replay: true, ..Default::default() }.set("linens", l));
                out.push(d);
            }
            for &e in fault_errors(&op).iter().take(1) {
                let mut d = c.clone();
                d.label = format!("operation {} ({}) fails with errno {}, then again", ord, op, e);
                d.ctl.push(Ctl { replay: true, dec: vec![Dec { kind: 'I', ord, v1: 3, v2: e }], ..Default::default() }.set("linens", l));
                d.ctl.push(Ctl { replay: true, ..Default::default() }.set("linens", l));
                out.push(d);
            }
        }
    }
    out
}

fn c21_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let mut sc = cmd_sc(c);
    let base = rt.base(&sc, &[("logio", 1)]);
    if !base.ok() {
        return rt.skip();
    }
    let last = c.ctl.len() - 1;
    let mut how = Vec::new();
    for i in 0..last {
        let ctl = &c.ctl[i];
        let mut extra = vec![];
        if ctl.opts.contains_key("crash_frac") && !ctl.replay {
            let full = rt.base(&sc, &[("linens", ctl.get("linens")), ("logio", 1)]);
            extra.push(Dec { kind: 'I', ord: 1 + full.n("ioops") * ctl.get("crash_frac") / 1_000_000, v1: ctl.get("crash_kind") as i64, v2: ctl.get("crash_power") as i64 });
        }
        let rep = rt.run_with(i, &sc, &extra);
        if rep.verdict == "noreport" || rep.unfinished() {
            return rt.skip();
        }
        how.push(if rep.verdict == "crash" {
            let d = rep.dec.iter().find(|d| d.kind == 'I' && d.v1 >= 5).copied().unwrap_or(Dec { kind: 'I', ord: 0, v1: 5, v2: 0 });
            format!("{} {} operation {}", if d.v2 == 1 { "power failure" } else { "kill" }, ["before", "inside", "after"][(d.v1 - 5) as usize], d.ord)
        } else {
            rep.brief()
        });
        let mut files = rep.files.clone();
        for p in &rep.same {
            if let Some(d) = sc.files.get(p) {
                files.insert(p.clone(), d.clone());
            }
        }
        // whether a crash may lose these is for other checks
        for (p, d) in &sc.files {
            if p.starts_with("/sim/in/") || c.t("b_input") == p {
                files.insert(p.clone(), d.clone());
            }
        }
        sc.files = files;
    }
    let rep = rt.run(last, &sc);
    let how = how.join(", then ");
    if rep.hung(c.n("n") as u64) {
        return viol("hang", format!("after an earlier attempt ({}) the command never ends ({})", how, rep.verdict));
    }
    if !rep.ok() {
        return viol("cannot-run-again", format!("after an earlier attempt ({}) the command fails: {}", how, rep.brief()));
    }
    let pick = |r: &Report| -> BTreeMap<String, Vec<u8>> {
        match c.t("cmd") {
            "process" => r.files.get(OUT).map(|d| (OUT.to_string(), d.clone())).into_iter().collect(),
            "count-chars" => [("standard output".to_string(), r.stdout.clone())].into_iter().collect(),
            _ => final_set(r).into_iter().collect(),
        }
    };
    let (a, b) = (pick(&base), pick(&rep));
    if a != b {
        return viol("other-result", format!("after an earlier attempt ({}) the result is another one: {}", how, diff_files(&a, &b)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C18: memory

fn c18_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    let mut c = new_case("C18", "");
    let unit = text::corpus(r, 3000);
    let unit: String = unit.chars().take(3000).collect::<String>() + if r.chance(1, 2) { "\n\n" } else { "\n" };
    c.data = unit.clone().into_bytes();
    c.set("fixed_data", 1);
    let mut s = seedc(r).set("mem", 1).set("steplimit", 3_000_000_000);
    match idx % 6 {
        0 | 1 => {
            c.sett("cmd", if idx % 6 == 0 { "process" } else { "count-chars" });
            c.set("repeat_to", r.range(1_000_000, 2_500_000) as i64);
            s = benign(r, s);
        }
        k => {
            c.sett("cmd", "convert").sett("type", *r.pick(&["bits4", "bytes", "byteshuff"])).sett("processing", "raw");
            let js = text::tokenset(r, &c.t("type").to_string(), "raw", unit.as_bytes(), 3);
            c.set("n", Ts::parse(&js).unwrap().tokens.len() as i64);
            c.blobs.insert(TOKIN.into(), js);
            let n = *r.pick(&[1u64, 2, 2, 3, 4]);
            s = s.set("ncpu", n);
            c.set("file_chunk", 4096).set("repeat_to", 400_000 + 350_000 * n as i64);
            if k == 2 {
                c.set("parallel_size", 1 << 60);
            } else {
                c.set("parallel_size", 0);
                // some threads get hardly any time
                s = if r.chance(2, 3) {
                    s.set("sched", 2).set("pct_d", r.range(1, 6)).set("pct_len", r.logu(2000, 3_000_000))
                } else {
                    s.set("sched", 1).set("pmean", r.logu(1000, 200_000)).set("p_sync", *r.pick(&[0u64, 3000, 40000]))
                };
                if r.chance(1, 4) {
                    s = s.set("p_slow", *r.pick(&[1500u64, 8000]));
                }
            }
            if r.chance(1, 2) {
                s = s.set("p_sread", 8000).set("p_eintr", 4000);
            }
        }
    }
    c.ctl.push(s);
    c
}

fn c18_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let mut big = cmd_sc(c);
    big.files.insert(DATA.into(), full_data(c));
    let chunk = c.n("file_chunk") as u64;
    let ncpu = c.ctl[0].get("ncpu").max(1);
    let lim = ("steplimit", 3_000_000_000u64);
    let small = |len: usize| {
        let mut s = knob(cmd_sc(c), "TEXMO_PARALLEL_SIZE", 1 << 60);
        let mut d = full_data(c);
        let mut l = len.min(d.len());
        while l < d.len() && (d[l] & 0xC0) == 0x80 {
            l += 1;
        }
        d.truncate(l);
        s.files.insert(DATA.into(), d);
        s
    };
    let streamed = c.t("cmd") != "convert";
    let opts = [("mem", 1), ("ncpu", ncpu), lim];
    let few = rt.base(&small(if streamed { 2 * c.data.len() + 40_000 } else { 3 * chunk as usize }), &opts);
    let none = rt.base(&small(1), &opts);
    // every worker has its own statistics
    let workers = rt.base(&knob(small(3 * chunk as usize), "TEXMO_PARALLEL_SIZE", c.n("parallel_size") as u64), &opts);
    if !few.ok() || !none.ok() || !workers.ok() {
        return rt.skip();
    }
    let (few, none) = (few.n("mempeak"), none.n("mempeak"));
    let piece = few.saturating_sub(none) * 3 / 2;
    let line = full_data(c).split(|b| *b == b'\n').map(|l| l.len()).max().unwrap_or(0) as u64;
    let bound = if streamed { few + 16 * 1024 + 4 * line } else { 24 * 1024 + workers.n("mempeak").max(few) + piece * (ncpu + 1) + (ncpu + 16) * 2 * chunk };
    let rep = rt.run(0, &big);
    if !rep.ok() {
        return rt.skip();
    }
    if std::env::var("DST_TRACE").is_ok() {
        eprintln!("{} {} line {line} ncpu {} data {} few {} none {} bound {} peak {}", c.t("cmd"), c.t("type"), ncpu, c.n("repeat_to"), few, none, bound, rep.n("mempeak"));
    }
    if rep.n("mempeak") > bound {
        return viol("memory-grows", format!("{} bytes of data take {} bytes of memory; a small part of it takes {}, and this run may need {} for its {} processors", c.n("repeat_to"), rep.n("mempeak"), few, bound, ncpu));
    }
    Ok(())
}

// ---------------------------------------------------------------- C22: work in proportion to the data

/// A text to be repeated, in one of the shapes that make careless reading expensive.
fn c22_unit(r: &mut Rng) -> String {
    let sz = r.range(300, 3000) as usize;
    let t: String = text::corpus(r, sz).chars().filter(|c| *c != '\r').take(sz).collect();
    match r.below(9) {
        0 => t.replace('\n', " "),                                        // one line
        1 => t.chars().filter(|c| c.is_alphabetic()).collect::<String>() + "a", // one word
        2 => t.replace("\n\n", "\n").replace("\n\n", "\n") + "x",       // no blank lines
        3 => "\n".repeat(r.range(1, 5) as usize) + if r.chance(1, 2) { "" } else { "x" },
        4 => " ".repeat(r.range(1, 5) as usize) + if r.chance(1, 2) { "" } else { "Ab" },
        5 => t.chars().map(|c| if c == ' ' { '\n' } else { c }).collect(),  // many short lines
        6 => (*r.pick(&["€", "日", "𐐀", "é", "İ", "DŽ"])).repeat(r.range(1, 300) as usize),
        7 => t.clone() + "\n\n" + &t.replace('\n', " "),
        _ => t,
    }
}

fn c22_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    let mut c = new_case("C22", "");
    let unit = c22_unit(r);
    c.data = unit.clone().into_bytes();
    c.set("fixed_data", 1);
    let mut s = seedc(r).set("steplimit", 3_000_000_000);
    match idx % 5 {
        k @ 0..=1 => {
            c.sett("cmd", if k == 0 { "process" } else { "count-chars" });
            c.set("size", r.range(20_000, 60_000) as i64);
            s = benign(r, s);
        }
        k => {
            if k == 2 {
                let t = *r.pick(&["bits1", "bits2", "bits4", "bytes", "byteshuff"]);
                c.sett("cmd", "convert").sett("type", t).sett("processing", *r.pick(&["raw", "raw", "caps-words"]));
                let js = text::tokenset(r, t, &proc_tag(c.t("processing")), unit.as_bytes(), 3);
                c.set("n", Ts::parse(&js).unwrap().tokens.len() as i64);
                c.blobs.insert(TOKIN.into(), js);
            } else {
                // the smallest set of a type: nothing to search for
                let (t, n) = *r.pick(&[("bits1", 2), ("bits2", 4), ("bits4", 16), ("bytes", 256)]);
                c.sett("cmd", "optimize").sett("type", t).sett("processing", *r.pick(&["raw", "raw", "caps-words"])).set("n", n);
                if r.chance(1, 4) {
                    c.set("stream_size", 0);
                } else if c.t("processing") == "raw" && r.chance(1, 2) {
                    // one sample, always the same part of the data, before all of it
                    c.set("min_percent", r.range(55, 95) as i64);
                }
            }
            let k = r.logu(128, 2000) as i64;
            c.set("file_chunk", k).set("mem_chunk", k).set("size", r.range(100, 160) as i64 * k);
            if c.has("min_percent") {
                c.set("size", c.n("size").max(60_000));
            }
            c.set("parallel_size", if r.chance(1, 2) { 0 } else { 1 << 60 });
            s = s.set("ncpu", r.range(1, 4));
            if c.n("parallel_size") == 0 {
                // fair schedules: a thread may spin as long as another one is kept from running
                s = s.set("sched", 1).set("pmean", r.logu(300, 20_000)).set("p_sync", *r.pick(&[0u64, 3000, 40000]));
            }
            if r.chance(1, 3) {
                s = benign(r, s);
            }
        }
    }
    c.ctl.push(s);
    c
}

/// Basic blocks executed, and bytes copied, read and written.
fn work(r: &Report) -> u64 {
    r.n("steps") + r.n("moved") / 8
}

fn c22_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let of = |n: u64| {
        let mut k = c.clone();
        k.set("repeat_to", n as i64);
        k.data = full_data(&k);
        if k.has("min_percent") {
            k.set("min_data", k.data.len() as i64 * k.n("min_percent") / 100);
        }
        cmd_sc(&k)
    };
    let n = c.n("size").max(1) as u64;
    let opts = [("ncpu", c.ctl[0].get("ncpu").max(1)), ("steplimit", 3_000_000_000u64)];
    let (one, two) = (rt.base(&of(n), &opts), rt.base(&of(2 * n), &opts));
    if !one.ok() || !two.ok() {
        return rt.skip();
    }
    let four = rt.run(0, &of(4 * n));
    if !four.ok() && four.verdict != "livelock" {
        return rt.skip();
    }
    rt.slow = false;
    let (a, b, d) = (work(&one), work(&two), work(&four));
    if std::env::var("DST_TRACE").is_ok() {
        eprintln!("{} {} size {} chunk {}: {} {} {}; {:.2}", c.t("cmd"), c.t("type"), n, c.n("mem_chunk"), a, b, d, (d as f64 - b as f64) / (b as f64 - a as f64));
    }
    let bound = b + b.saturating_sub(a) * 27 / 10 + (b / 10).min(500_000);
    if d > bound {
        return viol("more-than-proportional", format!("data of {}, {} and {} bytes takes work of {}, {} and {}; in proportion it would be up to {}", n, 2 * n, 4 * n, a, b, d, bound));
    }
    Ok(())
}

// ---------------------------------------------------------------- C23: what optimize reports

fn c23_gen(r: &mut Rng, idx: u64, th: bool) -> Case {
    let mut c = c11_gen(r, idx, th);
    c.prop = "C23".into();
    if r.chance(1, 4) {
        c.set("min_data", r.logu(8, c.data.len() as u64 + 8) as i64);
        if r.chance(1, 2) {
            c.set("stop_size", 1);
        }
    }
    if r.chance(1, 3) {
        let s = c.ctl.pop().unwrap();
        c.ctl.push(benign(r, s));
    }
    c
}

fn display(t: &Tok) -> String {
    match t {
        Tok::Ext(n) => n.to_string(),
        Tok::Str(b) => show(b),
    }
}

/// The difference of two sets, as it is to be reported.
fn difference(a: &Ts, b: &Ts) -> String {
    let (x, y): (BTreeSet<_>, BTreeSet<_>) = (a.tokens.iter().map(display).collect(), b.tokens.iter().map(display).collect());
    let only = |x: &BTreeSet<String>, y: &BTreeSet<String>| x.difference(y).cloned().collect::<Vec<_>>().join(" ");
    format!("{} -> {}", only(&x, &y), only(&y, &x))
}

fn c23_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let rep = rt.run(0, &cmd_sc(c));
    rt.slow = false;
    if !rep.ok() && !rep.unfinished() {
        return rt.skip();
    }
    let data = effective_data(c);
    let value = |t: &Ts| Costs::new(t).min_tokens(&data).map(|k| data.len() as f64 / k as f64);
    let same = |text: &str, v: Option<f64>| match (text.trim().parse::<f64>(), v) {
        (Ok(x), Some(y)) => (x - y).abs() <= 1e-9 * y.abs() || (x.is_nan() && y.is_nan()),
        (_, None) => true,
        _ => false,
    };
    let out = rep.out_str();
    let mut before: Option<Ts> = c.blobs.get(TOKIN).and_then(|js| Ts::parse(js).ok());
    let growing = c.has("min_data");
    if let Some(t) = before.as_ref().filter(|_| !growing) {
        if let Some(l) = out.lines().find(|l| l.starts_with("Initial tokens: ")) {
            let (n, v) = l["Initial tokens: ".len()..].split_once(", bytes/token = ").unwrap_or(("", ""));
            if n.parse() != Ok(t.tokens.len()) || !same(v, value(t)) {
                return viol("initial", format!("reported {:?}, but the set it starts from has {} tokens and {:?} bytes per token", l, t.tokens.len(), value(t)));
            }
            rt.note("starting reports checked");
        }
    }
    let mut seen = "";
    let (mut bigger, mut measured): (Option<String>, Option<String>) = (None, None);
    for e in &rep.hist {
        match e {
            Ev::Out { off, len, .. } => {
                let from = seen.rfind('\n').map(|k| k + 1).unwrap_or(0);
                let mut end = (*off + *len).min(out.len());
                while !out.is_char_boundary(end) {
                    end -= 1;
                }
                seen = &out[..end];
                // the lines this write completes
                let to = seen.rfind('\n').unwrap_or(0).max(from);
                for line in seen[from..to].lines() {
                    if let (Some(v), Some(t)) = (line.strip_prefix("bytes / token (full data): "), &before) {
                        if !same(v, value(t)) {
                            return viol("full-data", format!("reported {:?} for a set of {} tokens, which has {:?} on the full data", line, t.tokens.len(), value(t)));
                        }
                        rt.note("reports on the full data checked");
                    }
                    // the same set on the same data, measured twice
                    if let Some(v) = line.strip_prefix("bytes / token (bigger data): ") {
                        bigger = Some(v.to_string());
                    } else if let Some((_, v)) = line.strip_prefix("Initial tokens: ").and_then(|l| l.split_once(", bytes/token = ")) {
                        if let Some(b) = bigger.take() {
                            if !same(&b, v.parse().ok()) {
                                return viol("bigger-data", format!("reported {} for the bigger data, but {} when starting from the same set on it", b, v));
                            }
                            rt.note("reports on the bigger data checked");
                        }
                        measured = Some(v.to_string());
                    } else if let Some(v) = line.strip_prefix("processed bytes / token:") {
                        measured = Some(v.to_string());
                    } else if let (Some(v), Some(m)) = (line.strip_prefix("bytes / token (optimized): "), &measured) {
                        if !same(v, m.trim().parse().ok()) {
                            return viol("optimized", format!("reported {} for the optimized set, but {} when it was adopted", v, m));
                        }
                        rt.note("reports on the optimized set checked");
                    }
                }
            }
            Ev::Pub { path, data: d, .. } if path.starts_with("/sim/tok/") => {
                let t = match Ts::parse(d) {
                    Ok(t) => t,
                    Err(_) => return rt.skip(),
                };
                let mut l = seen.lines().rev();
                let (wr, bpt, diff) = (l.next().unwrap_or(""), l.next().unwrap_or(""), l.next().unwrap_or(""));
                if let Some(p) = wr.strip_prefix("Writing the token set to ") {
                    if p.trim_end_matches('.') != path.as_str() {
                        return viol("path", format!("reported {:?}, but {} was written", wr, path));
                    }
                }
                if let Some(v) = bpt.strip_prefix("processed bytes / token:") {
                    if !same(v, value(&t)) && (!growing || seen.contains("Optimizing with the full data.")) {
                        return viol("measurement", format!("reported {:?} for a set of {} tokens, which has {:?}", bpt, t.tokens.len(), value(&t)));
                    }
                    rt.note("reported measurements checked");
                    if let Some(b) = &before {
                        let want = difference(b, &t);
                        if b.canon().3 != t.canon().3 && want != diff {
                            return viol("difference", format!("reported {:?}, but the difference to the set before is {:?}", diff, want));
                        }
                        rt.note("reported differences checked");
                        if l.next().unwrap_or("").starts_with("Removing:") {
                            rt.note("of these after trying removals");
                        }
                    }
                }
                before = Some(t);
            }
            _ => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C24: an optimization ends only when it is done

fn c24_gen(r: &mut Rng, idx: u64, th: bool) -> Case {
    if idx % 60 == 17 {
        // long texts
        let mut c = gen_optimize(r, "C24", (60, 2500));
        c.blobs.clear();
        c.sett("processing", "raw").set("drop", r.below(1 << 30) as i64);
        let lo = match c.t("type") { "bits1" => 2, "bits2" => 4, "bits4" => 16, "bytes" => 256, _ => 3 };
        c.set("n", lo + r.range(2, 7) as i64);
        let mut s = quiet(r).set("linens", 61_000_000_000);
        s = s.set("steplimit", large(r, &mut c, 400_000));
        c.ctl.push(s.clone());
        c.ctl.push(s);
        return c;
    }
    let mut c = c11_gen(r, idx, th);
    c.prop = "C24".into();
    let big = r.chance(1, 24);
    if big {
        // more than a hundred tokens to exchange or many small gains
        c.blobs.clear();
        c.num.remove("min_data");
        c.sett("processing", "raw");
        let k = r.range(2, 6) as u32;
        let size = r.logu(300, 2000) as usize;
        c.data = text::learnable(r, size).chars().map(|x| if x.is_alphanumeric() { char::from(b'a' + (x as u32 % k) as u8) } else { x }).collect::<String>().into_bytes();
        let t = *r.pick(&["bytes-huff", "bytes-huff", "bits2", "bits4"]);
        c.sett("type", t).set("n", match t { "bits2" => r.range(16, 40), "bits4" => r.range(26, 60), _ => r.range(16, 50) } as i64);
    } else if !c.has("min_data") && r.chance(1, 3) {
        // no single bytes to exchange
        c.blobs.clear();
        c.sett("processing", "raw").sett("type", "bytes").set("n", 256 + r.logu(1, 45) as i64);
        let k = r.range(2, 26) as u32;
        let size = if c.n("n") > 270 { r.logu(200, 4000) } else { r.logu(500, 15_000) } as usize;
        c.data = text::learnable(r, size).chars().map(|x| if x.is_alphanumeric() { char::from(b'a' + (x as u32 % k) as u8) } else { x }).collect::<String>().into_bytes();
    } else if !c.has("min_data") && r.chance(2, 3) {
        // short texts and more tokens to exchange
        let size = r.logu(30, 250) as usize;
        if c.data.len() > size {
            let mut t = text::learnable(r, size);
            if r.chance(3, 4) {
                // few letters: most of the tokens are longer ones
                let k = r.range(2, 5) as u32;
                t = t.chars().map(|x| if x.is_alphanumeric() { char::from(b'a' + (x as u32 % k) as u8) } else { x }).collect();
            }
            c.data = t.into_bytes();
            if c.blobs.contains_key(PROC) {
                c.blobs.insert(PROC.into(), process(c.text()).into_bytes());
            }
        }
        if c.t("type") != "bytes" && !c.blobs.contains_key(TOKIN) {
            let n = c.n("n") + r.range(4, 14) as i64;
            c.set("n", n);
        }
    }
    c.set("drop", r.below(1 << 30) as i64);
    let limit = if big { 3_000_000_000 } else if c.t("type") == "bytes" { 1_000_000_000 } else { 300_000_000 };
    let s = c.ctl.pop().unwrap().set("steplimit", limit);
    c.ctl.push(s);
    let q = quiet(r).set("linens", 61_000_000_000).set("steplimit", limit);
    c.ctl.push(q);
    c
}

fn c24_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let c = &repeated(c);
    let rep = rt.run(0, &cmd_sc(c));
    if !rep.ok() || c.has("min_data") && !rep.out_str().contains("Optimizing with the full data.") {
        return rt.skip();
    }
    let (path, saved) = match final_set(&rep) {
        Some(x) => x,
        None => return rt.skip(),
    };
    let fin = match Ts::parse(&saved) {
        Ok(t) if t.check_wellformed().is_ok() => t,
        _ => return rt.skip(),
    };
    let mut k = c.clone();
    if k.has("min_data") {
        // all of the data at once
        k.set("min_data", (effective_data(c).len() + c.data.len()) as i64 + 1);
    }
    k.blobs.insert(TOKIN.into(), saved.clone());
    let res = rt.run(1, &cmd_sc(&k));
    if res.unfinished() {
        return rt.skip();
    }
    if !res.ok() {
        return viol("cannot-continue", format!("optimization can't be continued from its result {}: {}", path, res.brief()));
    }
    let pubs: Vec<_> = res.pubs().into_iter().filter(|p| p.2.starts_with("/sim/tok/")).map(|p| (p.2.to_string(), p.3.to_vec())).collect();
    if let Some((_, d)) = pubs.iter().find(|(_, d)| Ts::parse(d).map(|t| t.canon() != fin.canon()).unwrap_or(true)) {
        let e = Ts::parse(d).and_then(|t| cmp_sets(&fin, &t)).err().unwrap_or_default();
        return viol("not-done", format!("continuing from the result {} changes it: {}", path, e));
    }
    match final_set(&res) {
        Some((p, d)) if p == path && d == saved => {}
        Some((p, d)) => return viol("different-file", format!("continuing from the result {} writes a different file: {}", path, diff_files(&[(path.clone(), saved)].into(), &[(p, d)].into()))),
        None => return viol("no-result", "success, but no token set was written"),
    }
    rt.note("results continued from");
    if fin.tokens.len() as i64 != c.n("n") {
        if always_joinable(&fin, &effective_data(c)) {
            return viol("stopped-short", format!("the result {} has {} tokens of the {} requested, but in every shortest tokenization of the data two neighbouring tokens can be joined", path, fin.tokens.len(), c.n("n")));
        }
        rt.note("of these with nothing left to add");
        return Ok(());
    }
    // replacing a learned token does not pay
    let long: Vec<&Vec<u8>> = fin.tokens.iter().filter_map(|t| if let Tok::Str(b) = t { Some(b).filter(|b| b.len() > 1) } else { None }).collect();
    let data = effective_data(c);
    let best = Costs::new(&fin).min_tokens(&data);
    let all = c.n("drop");
    let steps = 8_000_000 + 8 * res.n("steps") / (long.len() as u64 + 1);
    for i in 0..long.len().min(12) {
        let t = long[(all as usize + i * 7919) % long.len()].clone();
        let mut v: serde_json::Value = serde_json::from_slice(&saved).unwrap();
        let j = text::jbytes(&t);
        v["tokens"].as_array_mut().unwrap().retain(|x| *x != j);
        let js = serde_json::to_vec(&v).unwrap();
        let less = Ts::parse(&js).unwrap();
        if less.tokens.len() + 1 != fin.tokens.len() {
            return rt.skip();
        }
        k.blobs.insert(TOKIN.into(), js);
        let res = rt.base(&cmd_sc(&k), &[("linens", 61_000_000_000), ("steplimit", steps)]);
        let first = match res.pubs().into_iter().find(|p| p.2.starts_with("/sim/tok/")).map(|p| Ts::parse(p.3)) {
            Some(Ok(t)) => t,
            _ => continue,
        };
        let (a, b) = (less.canon(), first.canon());
        let new: Vec<&Tok> = b.3.iter().filter(|x| !a.3.contains(x)).collect();
        // anything else is not what the optimizer compares
        if a.4 != b.4 || b.3.len() != a.3.len() + 1 || !matches!(new[..], [Tok::Str(s)] if s.len() > 1) {
            continue;
        }
        rt.note("replacements of a learned token tried");
        let cost = Costs::new(&first).min_tokens(&data);
        if cost < best {
            return viol("better-replacement", format!("with {} instead of {} the data needs {:?} tokens, with the result {:?}", show_tok(new[0]), show(&t), cost, best));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19: unusable input

fn c19_gen(r: &mut Rng, idx: u64, _th: bool) -> Case {
    let mut c = match idx % 5 {
        0 | 1 => {
            let mut c = gen_convert(r, "C19", (10, 3000));
            gen_chunks(r, &mut c);
            if c.t("processing") == "caps-words" && r.chance(1, 2) {
                c.blobs.insert(PROC.into(), process(c.text()).into_bytes());
            }
            c.set("parallel_size", if r.chance(1, 2) { 0 } else { 1 << 60 });
            c
        }
        2 => {
            let mut c = gen_optimize(r, "C19", (30, 300));
            let lo = match c.t("type") { "bits1" => 2, "bits2" => 4, "bits4" => 16, "bytes" => 256, _ => 3 };
            c.set("n", lo + r.range(0, 3) as i64);
            if r.chance(1, 2) {
                let t = type_tag(c.t("type"));
                let d = effective_data(&c);
                let js = text::tokenset(r, &t, &proc_tag(c.t("processing")), &d, 0);
                let k = Ts::parse(&js).unwrap().tokens.len() as i64;
                c.set("n", k + r.range(0, 2) as i64);
                c.blobs.insert(TOKIN.into(), js);
            }
            if r.chance(1, 4) {
                c.set("min_data", r.range(1, 300) as i64);
            }
            c
        }
        k => {
            let mut c = new_case("C19", if k == 3 { "process" } else { "count-chars" });
            let n = r.logu(1, if idx % 150 < 5 { 2_000_000 } else { 30_000 }) as usize;
            c.data = text::text(r, n).into_bytes();
            let cmd = c.shape.clone();
            c.sett("cmd", &cmd);
            c
        }
    };
    c.set("fixed_data", 1);
    if matches!(c.t("cmd"), "convert" | "optimize") {
        old_sets(r, &mut c);
    }
    c19_damage(r, &mut c);
    let mut s = seedc(r).set("ncpu", cpus(r)).set("linens", *r.pick(&[0u64, 61_000_000_000]));
    if c.n("parallel_size") == 0 && c.t("cmd") == "convert" {
        s = schedule(r, s);
    }
    if r.chance(1, 2) {
        s = benign(r, s);
    }
    c.ctl.push(s);
    c
}

fn c19_damage(r: &mut Rng, c: &mut Case) {
    let convert = c.t("cmd") == "convert";
    let caps = c.t("processing") == "caps-words";
    let proc_used = caps && c.blobs.contains_key(PROC);
    // the file whose text is read
    let text_file = if proc_used { PROC } else { DATA };
    let text_read = c.t("cmd") != "optimize" || (caps && !proc_used);
    for _ in 0..20 {
        match r.below(6) {
            0 => {
                let mut names = vec![DATA];
                if proc_used {
                    names.push(PROC);
                }
                if c.blobs.contains_key(TOKIN) {
                    names.push(TOKIN);
                }
                if matches!(c.t("cmd"), "convert" | "optimize") {
                    names.push(TOK);
                }
                if c.t("cmd") == "process" {
                    names.push("/sim/out");
                }
                let n = *r.pick(&names);
                if n == TOK {
                    c.blobs.retain(|k, _| !k.starts_with(TOK));
                }
                c.sett("absent", n).sett("damage", "missing");
            }
            1 | 2 if c.blobs.contains_key(TOKIN) => {
                let js = c.blobs[TOKIN].clone();
                let keep = if r.chance(1, 4) { js.len() as u64 - r.range(1, 4).min(js.len() as u64) } else { r.below(js.len() as u64) };
                c.set("cut", keep as i64).sett("damage", "token set cut short");
            }
            3 if c.blobs.contains_key(TOKIN) && r.chance(1, 4) => {
                let mut js = c.blobs[TOKIN].clone();
                match r.below(5) {
                    0 => js.extend_from_slice(&c.blobs[TOKIN]),
                    1 => js.push(b'}'),
                    2 => js.extend_from_slice(b"\nnull"),
                    3 => js.push(0),
                    _ => {
                        let k = r.below(js.len() as u64) as usize;
                        let tail = js[k..].to_vec();
                        js.extend(tail);
                    }
                }
                c.sett("damage", "token set with something after it");
                c.blobs.insert("damaged".into(), js);
            }
            3 if c.blobs.contains_key(TOKIN) => {
                let mut v: serde_json::Value = serde_json::from_slice(&c.blobs[TOKIN]).unwrap();
                let key = *r.pick(&["tokens", "processing", "type"]);
                let o = v.as_object_mut().unwrap();
                match r.below(3) {
                    0 => {
                        o.remove(key);
                    }
                    1 => {
                        o.insert(key.into(), serde_json::Value::Null);
                    }
                    _ => {
                        o.insert(key.into(), serde_json::json!("no such thing"));
                    }
                }
                let js = serde_json::to_vec(&v).unwrap();
                c.sett("damage", "token set lacks a part").sett("part", key);
                c.blobs.insert("damaged".into(), js);
            }
            4 | 5 if text_read => {
                let data = if text_file == PROC { c.blobs[PROC].clone() } else { c.data.clone() };
                let mut d = data.clone();
                let bad: &[u8] = match r.below(7) {
                    0 => b"\x80",
                    1 => b"\xff",
                    2 => b"\xc3",
                    3 => b"\xe2\x82",
                    4 => b"\xf0\x9f\x98",
                    5 => b"\xc0\xaf",
                    _ => b"\xed\xa0\x80",
                };
                let at = if r.chance(1, 4) { d.len() } else { r.below(d.len() as u64 + 1) as usize };
                d.splice(at..at, bad.iter().copied());
                if std::str::from_utf8(&d).is_ok() {
                    continue;
                }
                c.sett("damage", "not UTF-8").sett("part", text_file);
                c.blobs.insert("damaged".into(), d);
            }
            _ => continue,
        }
        break;
    }
    if convert && c.t("damage") == "" {
        c.set("cut", 0).sett("damage", "token set cut short");
    }
}

fn c19_eval(c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    let mut k = c.clone();
    let damaged = k.blobs.remove("damaged");
    let absent = k.txt.remove("absent").unwrap_or_default();
    let whole = cmd_sc(&k);
    let base = rt.base(&whole, &[]);
    if !base.ok() || c.t("damage") == "" {
        return rt.skip();
    }
    k.sett("absent", &absent);
    let mut sc = cmd_sc(&k);
    if absent == "/sim/out" {
        sc.files.retain(|p, _| !p.starts_with("/sim/out/"));
    }
    match c.t("damage") {
        "token set cut short" => {
            let js = c.blobs[TOKIN].clone();
            sc.files.insert(TOKIN.into(), js[..(c.n("cut") as usize).min(js.len() - 1)].to_vec());
        }
        "token set lacks a part" | "token set with something after it" => {
            sc.files.insert(TOKIN.into(), damaged.unwrap_or_default());
        }
        "not UTF-8" => {
            sc.files.insert(c.t("part").into(), damaged.unwrap_or_default());
        }
        _ => {}
    }
    let what = format!("{} {}", c.t("damage"), if absent.is_empty() { c.t("part") } else { &absent });
    let rep = rt.run(0, &sc);
    if rep.hung(c.n("n") as u64) {
        return viol("hang", format!("unusable input ({}) and the command never ends ({})", what, rep.verdict));
    }
    if rep.unfinished() {
        return rt.skip();
    }
    if rep.ok() {
        return viol("unusable-input-accepted", format!("unusable input ({}) and the command reports success", what));
    }
    for (p, d) in tok_files(&rep) {
        match sc.files.get(&p) {
            Some(old) if *old == d => {}
            Some(_) => return viol("token-set-altered", format!("unusable input ({}) and {} was altered", what, p)),
            None => return viol("token-set-from-unusable-input", format!("unusable input ({}) and {} was written", what, p)),
        }
    }
    for p in sc.files.keys().filter(|p| p.starts_with(TOK)) {
        if !rep.same.contains(p) && !rep.files.contains_key(p) {
            return viol("token-set-altered", format!("unusable input ({}) and {} is gone", what, p));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- table

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C01", level: "exploration", rule: "a data set, a token set or optimizer options, piece size, 1-16 processors and a seeded thread schedule (random pre-emption at basic blocks or PCT priorities, spurious wake-ups); the parallel run is compared with the sequential run of the same code; a few cases use real sizes (>33 MB, nothing tuned). Non-trivial: at least one thread switch was made", quick: 1100, thorough: 66000, gen: c01_gen, eval: c01_eval, enumerate: None, assumptions: &["sequential consistency: the simulator does not reorder memory accesses"] },
        Check { id: "C02", level: "exploration", rule: "commands with parallel tokenization under seeded schedules with failing thread starts, failing reads and spurious wake-ups, and sequential optimizations on texts full of ties; a run that has no runnable thread or exceeds 7e8 basic blocks is a hang. Non-trivial: a fault was injected or threads were switched", quick: 1000, thorough: 60000, gen: c02_gen, eval: c02_eval, enumerate: None, assumptions: &["a run of these sizes that executes 7e8 basic blocks never ends (the longest observed needs a small fraction of that)"] },
        Check { id: "C03", level: "exploration", rule: "text, piece size and random token set (with tokens across blank lines, so that the cuts matter) under short and interrupted reads; compared with a model of the cutting rule and a dynamic program. Non-trivial: I/O was disturbed", quick: 2600, thorough: 156000, gen: c03_gen, eval: c03_eval, enumerate: None, assumptions: &[] },
        Check { id: "C04", level: "exploration", rule: "texts with all kinds of words, case patterns, scripts, spaces, line ends and sizes around the buffers, under short and interrupted reads and writes; compared with a model of the documented form and decoded back. Non-trivial: I/O was disturbed", quick: 20000, thorough: 1200000, gen: c04_gen, eval: c04_eval, enumerate: None, assumptions: &[] },
        Check { id: "C05", level: "fault_enumeration", rule: "every file operation of sample commands failing with each plausible error, disks of every sort of capacity, and random mixtures of failures; success must come with the outputs of the undisturbed run. Non-trivial: a failure was injected", quick: 500, thorough: 30000, gen: c05_gen, eval: c05_eval, enumerate: Some(c05_enum), assumptions: &["close never reports an error (Rust's File ignores it by design)"] },
        Check { id: "C06", level: "fault_enumeration", rule: "a kill or power failure before, inside and after every file operation of sample runs, un-synced data lost, torn or reordered, plus crashes at random points of disturbed runs; the token-set files are compared with what they held before and with the complete sets the run writes. Non-trivial: the crash happened", quick: 500, thorough: 30000, gen: c06_gen, eval: c06_eval, enumerate: Some(c06_enum), assumptions: &["rename is atomic and directory operations reach the disk in order; data not synced may be lost, torn or reordered"] },
        Check { id: "C07", level: "exploration", rule: "optimizations of all types and sizes with virtual time advanced so that adopted token sets are checkpointed; every set written is checked for distinct tokens, unique decodability (Sardinas-Patterson), coverage of all bytes, size, type and name. Non-trivial: time was advanced", quick: 1000, thorough: 60000, gen: c07_gen, eval: c07_eval, enumerate: None, assumptions: &[] },
        Check { id: "C08", level: "exploration", rule: "convert and optimize runs (streamed, in memory, growing samples, resumed; sequential and parallel under seeded schedules, disturbed I/O); saved statistics compared with a dynamic program over the data. Non-trivial: schedule, I/O, entropy or clock was disturbed", quick: 1500, thorough: 90000, gen: c08_gen, eval: c08_eval, enumerate: None, assumptions: &[] },
        Check { id: "C09", level: "exploration", rule: "the same command undisturbed and with other processors, schedule, hash seeds, clock advances and disturbed I/O; result files compared byte for byte. Non-trivial: something was different", quick: 750, thorough: 45000, gen: c09_gen, eval: c09_eval, enumerate: None, assumptions: &["address-space layout is fixed where the sandbox allows it"] },
        Check { id: "C10", level: "exploration", rule: "optimize (with checkpoints; half of them crash at a random operation), then convert-tokens from every surviving file, then optimize continued from it; plus all shipped and random generated token sets. Non-trivial: a set was loaded", quick: 800, thorough: 48000, gen: c10_gen, eval: c10_eval, enumerate: Some(c10_enum), assumptions: &[] },
        Check { id: "C11", level: "exploration", rule: "optimizations in which every adopted step is checkpointed (61 s of virtual time per line of output); the data is re-tokenized by a dynamic program with every adopted set. Non-trivial: always, time is advanced", quick: 900, thorough: 54000, gen: c11_gen, eval: c11_eval, enumerate: None, assumptions: &[] },
        Check { id: "C12", level: "exploration", rule: "growing-sample optimizations over data, paragraph structures, minimum sizes (0, 1, around and above the data size) and stop thresholds, with disturbed I/O. Non-trivial: I/O or schedule was disturbed", quick: 900, thorough: 54000, gen: c12_gen, eval: c12_eval, enumerate: None, assumptions: &[] },
        Check { id: "C13", level: "exploration", rule: "texts from all of Unicode with sizes around the buffers, under short, interrupted and failing reads and writes; printed counts compared with a direct count. Non-trivial: I/O was disturbed", quick: 15000, thorough: 900000, gen: c13_gen, eval: c13_eval, enumerate: None, assumptions: &[] },
        Check { id: "C14", level: "fault_enumeration", rule: "caps-words commands: automatic pre-processing under disturbed I/O compared with explicit pre-processing, and every file operation failing (plus random failures, full disks and failing thread starts) with the temporary directory inspected after exit. Non-trivial: something was disturbed", quick: 1200, thorough: 72000, gen: c14_gen, eval: c14_eval, enumerate: Some(c14_enum), assumptions: &[] },
        Check { id: "C15", level: "exploration", rule: "optimizations with virtual time passing in all sorts of steps and jumps; the recorded writes are checked against the one-minute rule. Non-trivial: time was advanced", quick: 1000, thorough: 60000, gen: c15_gen, eval: c15_eval, enumerate: None, assumptions: &["time passes at progress output, file operations and clock readings"] },
        Check { id: "C16", level: "exploration", rule: "optimizations over texts in which merging across blank lines would pay, every adopted set checkpointed and inspected. Non-trivial: time was advanced", quick: 600, thorough: 36000, gen: c16_gen, eval: c16_eval, enumerate: None, assumptions: &[] },
        Check { id: "C17", level: "fault_enumeration", rule: "all commands with bystander files around, under every single failing operation, full disks, random failures and crashes; every file that is not the command's output is compared with before. Non-trivial: something was disturbed", quick: 3000, thorough: 180000, gen: c17_gen, eval: c17_eval, enumerate: Some(c17_enum), assumptions: &[] },
        Check { id: "C18", level: "exploration", rule: "process, count-chars and convert-tokens over data many times larger than the pieces it is read in, with 1-4 processors and schedules that starve some of the threads; the peak of live memory is compared with what a small part of the data takes. Non-trivial: schedule or I/O was disturbed", quick: 600, thorough: 36000, gen: c18_gen, eval: c18_eval, enumerate: None, assumptions: &["memory is sampled at file operations, from the allocator's own count"] },
        Check { id: "C19", level: "exploration", rule: "commands of all kinds with a missing file or directory, a token-set file cut short anywhere or lacking a part, or text that is not UTF-8 at some place (also in one of many pieces, in parallel), under seeded schedules and disturbed I/O. Non-trivial: schedule or I/O was disturbed", quick: 3000, thorough: 180000, gen: c19_gen, eval: c19_eval, enumerate: None, assumptions: &[] },
        Check { id: "C21", level: "fault_enumeration", rule: "a kill or power failure at, or a failure of, every file operation of sample commands of all kinds, and up to three randomly failing attempts; then the same command undisturbed on the files left behind, compared with a first run. Non-trivial: the first attempts were disturbed", quick: 1500, thorough: 90000, gen: c21_gen, eval: c21_eval, enumerate: Some(c21_enum), assumptions: &["the later attempt may have the process id of an earlier one"] },
        Check { id: "C22", level: "exploration", rule: "texts of all shapes (one line, one word, no blank lines, only line ends, ...) repeated to 1, 2 and 4 times a size of some hundred pieces, every command, seeded schedules and disturbed reads and writes; the work (basic blocks and bytes moved) must grow in proportion. Non-trivial: the largest run was disturbed or its threads interleaved", quick: 1200, thorough: 72000, gen: c22_gen, eval: c22_eval, enumerate: None, assumptions: &["work is what texmo's own code executes and moves; the instructions of precompiled library functions other than copying are not counted"] },
        Check { id: "C23", level: "exploration", rule: "optimizations in virtual time in which every adopted set is saved: each printed measurement and difference against the set it was printed for, measured by a dynamic program. Non-trivial: time passed or threads interleaved", quick: 700, thorough: 42000, gen: c23_gen, eval: c23_eval, enumerate: None, assumptions: &["the samples that growing-sample optimizations report about are not known to the check; their reports on the full data are"] },
        Check { id: "C24", level: "exploration", rule: "optimizations of all kinds (in parallel under seeded schedules, resumed, with growing samples), continued from their result with every adopted set saved, and continued from the result less one of its learned tokens; nothing better may be found. Non-trivial: time passed or threads interleaved", quick: 500, thorough: 30000, gen: c24_gen, eval: c24_eval, enumerate: None, assumptions: &["a single replacement is what the optimizer itself would choose: the token dropped is a learned one, the token added is the one it adds to the rest"] },
        Check { id: "C20", level: "exploration", rule: "two commands on the same files, interleaved at their file operations: the second one runs to its end or up to some point at every operation of the first one, and random interleavings of several segments, with checkpoints and disturbed I/O; after every segment all token-set files are compared with what was there and with what each command writes on its own. Non-trivial: the two overlapped", quick: 600, thorough: 54000, gen: c20_gen, eval: c20_eval, enumerate: Some(c20_enum), assumptions: &["two processes are interleaved at file operations; each sees all completed operations of the other"] },
    ]
}
