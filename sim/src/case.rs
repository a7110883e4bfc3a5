//! Cases, their evaluation, minimisation, replay files and statistics.
use crate::sim::{Ctl, Dec, Report, Scenario, Sim};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct Case {
    pub prop: String,
    pub shape: String,
    pub label: String,
    pub data: Vec<u8>,
    pub num: BTreeMap<String, i64>,
    pub txt: BTreeMap<String, String>,
    pub blobs: BTreeMap<String, Vec<u8>>,
    pub ctl: Vec<Ctl>,
}

impl Case {
    pub fn n(&self, k: &str) -> i64 {
        *self.num.get(k).unwrap_or(&0)
    }
    pub fn has(&self, k: &str) -> bool {
        self.num.contains_key(k)
    }
    pub fn t(&self, k: &str) -> &str {
        self.txt.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn set(&mut self, k: &str, v: i64) -> &mut Self {
        self.num.insert(k.into(), v);
        self
    }
    pub fn sett(&mut self, k: &str, v: &str) -> &mut Self {
        self.txt.insert(k.into(), v.into());
        self
    }
    pub fn text(&self) -> &str {
        std::str::from_utf8(&self.data).unwrap_or("")
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub msg: String,
}
pub fn viol<T>(key: &str, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { key: key.into(), msg: msg.into() })
}

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub base_runs: u64,
    pub cases: u64,
    pub nontrivial: u64,
    pub skipped: u64,
    pub sim_ns: u128,
    pub steps: u128,
    pub switches: u64,
    pub io: u64,
    pub cnt: BTreeMap<String, u64>,
    pub verdicts: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub evs: HashSet<u64>,
    pub shapes: BTreeMap<String, u64>,
    pub cov: Vec<u8>,
    pub rerun_checked: u64,
    pub rerun_differ: u64,
    pub unmodelled: u64,
    pub trapped: bool,
    pub samples: Vec<Value>,
    pub notes: BTreeMap<String, u64>,
    pub max_threads: u64,
    pub max_silence: u64,
}

pub struct Ctx<'a> {
    pub sim: &'a Sim,
    pub stats: Mutex<Stats>,
    cache: Mutex<HashMap<u64, Arc<Report>>>,
}

fn hash_sc(sc: &Scenario, ctl: &Ctl) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    sc.args.hash(&mut h);
    sc.env.hash(&mut h);
    sc.files.hash(&mut h);
    sc.dirs.hash(&mut h);
    sc.inos.hash(&mut h);
    sc.patches.hash(&mut h);
    ctl.opts.hash(&mut h);
    for d in &ctl.dec {
        (d.kind, d.ord, d.v1, d.v2).hash(&mut h);
    }
    h.finish()
}

impl<'a> Ctx<'a> {
    pub fn new(sim: &'a Sim) -> Self {
        Ctx { sim, stats: Mutex::new(Stats::default()), cache: Mutex::new(HashMap::new()) }
    }
    fn account(&self, r: &Report, base: bool) {
        let mut s = self.stats.lock().unwrap();
        s.runs += 1;
        if base {
            s.base_runs += 1;
        }
        s.sim_ns += r.n("vtime").saturating_sub(1_000_000_000) as u128;
        s.steps += r.n("steps") as u128;
        s.switches += r.n("switches");
        s.io += r.n("ioops");
        s.unmodelled += r.n("unmodelled");
        s.trapped |= r.n("trapped") == 1;
        if r.ok() {
            s.max_silence = s.max_silence.max(r.n("maxgap"));
        }
        s.max_threads = s.max_threads.max(r.n("threads"));
        for (k, v) in &r.cnt {
            *s.cnt.entry(k.clone()).or_insert(0) += v;
        }
        let v = if r.verdict == "livelock" { "stopped_at_step_limit".to_string() } else if r.verdict == "exit" { if r.code == 0 { "success".to_string() } else { "failure_status".to_string() } } else { r.verdict.clone() };
        *s.verdicts.entry(v).or_insert(0) += 1;
        if r.n("switches") > 0 {
            s.sigs.insert(r.sig);
        }
        s.evs.insert(r.evhash);
        if s.cov.len() < r.cov.len() {
            s.cov.resize(r.cov.len(), 0);
        }
        for (i, c) in r.cov.iter().enumerate() {
            s.cov[i] |= c;
        }
    }
    pub fn raw_run(&self, sc: &Scenario, ctl: &Ctl, base: bool) -> Report {
        let r = self.sim.run(sc, ctl);
        self.account(&r, base);
        r
    }
    /// Undisturbed reference run; identical ones are done once.
    pub fn base(&self, sc: &Scenario, opts: &[(&str, u64)]) -> Arc<Report> {
        let mut c = Ctl { replay: true, ..Default::default() };
        c.opts.insert("cov".into(), 1);
        for (k, v) in opts {
            c.opts.insert(k.to_string(), *v);
        }
        let key = hash_sc(sc, &c);
        if let Some(r) = self.cache.lock().unwrap().get(&key) {
            return r.clone();
        }
        let r = Arc::new(self.raw_run(sc, &c, true));
        let mut cache = self.cache.lock().unwrap();
        if cache.len() < 3000 {
            cache.insert(key, r.clone());
        }
        r
    }
}

/// Run-time of one evaluation of a case.
pub struct Rt<'a, 'b> {
    pub cx: &'a Ctx<'b>,
    pub case: &'a Case,
    pub taken: Vec<Option<Vec<Dec>>>,
    pub hashes: Vec<u64>,
    pub nontrivial: bool,
    pub skipped: bool,
    /// A run was stopped by the step or time limit while making progress.
    pub slow: bool,
}

impl<'a, 'b> Rt<'a, 'b> {
    pub fn new(cx: &'a Ctx<'b>, case: &'a Case) -> Self {
        Rt { cx, case, taken: vec![None; case.ctl.len()], hashes: vec![], nontrivial: false, skipped: false, slow: false }
    }
    pub fn base(&mut self, sc: &Scenario, opts: &[(&str, u64)]) -> Arc<Report> {
        let r = self.cx.base(sc, opts);
        if !r.ok() && std::env::var("DST_SKIPS").is_ok() {
            eprintln!("reference run ({}, {} bytes): {}; {:?}", self.case.shape, self.case.data.len(), r.brief(), sc.args);
        }
        self.slow |= r.unfinished() && r.verdict != "deadlock";
        r
    }
    /// Stage `i` of the case: disturbed as its control says.
    pub fn run(&mut self, i: usize, sc: &Scenario) -> Report {
        self.run_with(i, sc, &[])
    }
    pub fn run_with(&mut self, i: usize, sc: &Scenario, extra: &[Dec]) -> Report {
        let mut ctl = self.case.ctl[i].clone();
        if !ctl.replay {
            ctl.dec.extend_from_slice(extra);
        }
        let r = self.cx.raw_run(sc, &ctl, false);
        self.taken[i] = Some(r.dec.clone());
        self.hashes.push(r.evhash);
        self.slow |= r.unfinished() && r.verdict != "deadlock";
        if !r.dec.is_empty() || r.n("switches") > 0 || ctl.get("linens") > 0 || ctl.get("hseed") > 0 {
            self.nontrivial = true;
        }
        r
    }
    pub fn skip(&mut self) -> Result<(), Viol> {
        self.skipped = true;
        Ok(())
    }
    pub fn note(&self, k: &str) {
        *self.cx.stats.lock().unwrap().notes.entry(k.into()).or_insert(0) += 1;
    }
}

pub type EvalFn = fn(&Case, &mut Rt) -> Result<(), Viol>;

/// The verdict on a case. Runs that were merely too long prove nothing.
pub fn judge(eval: EvalFn, c: &Case, rt: &mut Rt) -> Result<(), Viol> {
    match eval(c, rt) {
        Err(v) if rt.slow && !matches!(v.key.as_str(), "hang" | "never-settles" | "never-completes") => {
            rt.note("runs stopped for being too long");
            rt.skip()
        }
        r => r,
    }
}

// ---------------------------------------------------------------- JSON form

fn bytes_to(v: &[u8]) -> Value {
    match std::str::from_utf8(v) {
        Ok(s) => json!(s),
        Err(_) => json!(v),
    }
}
fn bytes_from(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => s.as_bytes().to_vec(),
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
        _ => vec![],
    }
}

impl Case {
    pub fn to_json(&self) -> Value {
        let ctl: Vec<Value> = self
            .ctl
            .iter()
            .map(|c| {
                json!({
                    "mode": if c.replay { "explicit decisions" } else { "seeded random" },
                    "options": c.opts,
                    "decisions": c.dec.iter().map(|d| json!([d.kind.to_string(), d.ord, d.v1, d.v2])).collect::<Vec<_>>(),
                })
            })
            .collect();
        let blobs: Map<String, Value> = self.blobs.iter().map(|(k, v)| (k.clone(), bytes_to(v))).collect();
        json!({
            "property": self.prop, "shape": self.shape, "label": self.label, "data": bytes_to(&self.data),
            "num": self.num, "txt": self.txt, "blobs": blobs, "processes": ctl,
        })
    }
    pub fn from_json(v: &Value) -> Case {
        let mut c = Case {
            prop: v["property"].as_str().unwrap_or("").into(),
            shape: v["shape"].as_str().unwrap_or("").into(),
            label: v["label"].as_str().unwrap_or("").into(),
            data: bytes_from(&v["data"]),
            ..Default::default()
        };
        for (k, x) in v["num"].as_object().into_iter().flatten() {
            c.num.insert(k.clone(), x.as_i64().unwrap_or(0));
        }
        for (k, x) in v["txt"].as_object().into_iter().flatten() {
            c.txt.insert(k.clone(), x.as_str().unwrap_or("").into());
        }
        for (k, x) in v["blobs"].as_object().into_iter().flatten() {
            c.blobs.insert(k.clone(), bytes_from(x));
        }
        for p in v["processes"].as_array().into_iter().flatten() {
            let mut ctl = Ctl { replay: p["mode"] == "explicit decisions", ..Default::default() };
            for (k, x) in p["options"].as_object().into_iter().flatten() {
                ctl.opts.insert(k.clone(), x.as_u64().unwrap_or(0));
            }
            for d in p["decisions"].as_array().into_iter().flatten() {
                ctl.dec.push(Dec {
                    kind: d[0].as_str().and_then(|s| s.chars().next()).unwrap_or('?'),
                    ord: d[1].as_u64().unwrap_or(0),
                    v1: d[2].as_i64().unwrap_or(0),
                    v2: d[3].as_i64().unwrap_or(0),
                });
            }
            c.ctl.push(ctl);
        }
        c
    }
}

// ---------------------------------------------------------------- minimisation

pub struct Minimiser<'a, 'b> {
    pub cx: &'a Ctx<'b>,
    pub eval: EvalFn,
    pub key: String,
    pub deadline: Instant,
    pub evals: u32,
}

impl<'a, 'b> Minimiser<'a, 'b> {
    fn fails(&mut self, c: &Case) -> bool {
        if Instant::now() > self.deadline || self.evals > 600 {
            return false;
        }
        self.evals += 1;
        let mut rt = Rt::new(self.cx, c);
        matches!(judge(self.eval, c, &mut rt), Err(v) if v.key == self.key)
    }

    /// The same execution as an explicit list of decisions.
    pub fn explicit(&mut self, c: &Case) -> Option<Case> {
        let mut rt = Rt::new(self.cx, c);
        match judge(self.eval, c, &mut rt) {
            Err(v) if v.key == self.key => {}
            _ => return None,
        }
        let mut e = c.clone();
        for (i, t) in rt.taken.iter().enumerate() {
            e.ctl[i].replay = true;
            e.ctl[i].dec = t.clone().unwrap_or_default();
        }
        if self.fails(&e) { Some(e) } else { None }
    }

    fn shrink_list<T: Clone>(&mut self, c: &mut Case, get: &dyn Fn(&Case) -> Vec<T>, put: &dyn Fn(&mut Case, Vec<T>)) {
        let all = get(c);
        if all.is_empty() {
            return;
        }
        let mut t = c.clone();
        put(&mut t, vec![]);
        if self.fails(&t) {
            *c = t;
            return;
        }
        let mut size = all.len() / 2;
        while size >= 1 {
            let mut pos = 0;
            loop {
                let cur = get(c);
                if pos >= cur.len() {
                    break;
                }
                let end = (pos + size).min(cur.len());
                let mut v = cur[..pos].to_vec();
                v.extend_from_slice(&cur[end..]);
                let mut t = c.clone();
                put(&mut t, v);
                if self.fails(&t) {
                    *c = t;
                } else {
                    pos = end;
                }
                if Instant::now() > self.deadline {
                    return;
                }
            }
            size /= 2;
        }
    }

    pub fn minimise(&mut self, c: &mut Case) {
        for _ in 0..2 {
            for i in 0..c.ctl.len() {
                self.shrink_list(c, &|c| c.ctl[i].dec.clone(), &|c, v| c.ctl[i].dec = v);
                for k in ["linens", "hseed"] {
                    if c.ctl[i].get(k) > 0 {
                        let mut t = c.clone();
                        t.ctl[i].opts.remove(k);
                        if self.fails(&t) {
                            *c = t;
                        }
                    }
                }
            }
            if std::str::from_utf8(&c.data).is_ok() && !c.has("fixed_data") {
                self.shrink_list(c, &|c| c.text().chars().collect::<Vec<char>>(), &|c, v| c.data = v.into_iter().collect::<String>().into_bytes());
            }
        }
    }
}

pub fn budget(secs: u64) -> Instant {
    Instant::now() + Duration::from_secs(secs)
}
