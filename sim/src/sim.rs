//! Running one simulated process: scenario in, report out.
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Dec {
    pub kind: char,
    pub ord: u64,
    pub v1: i64,
    pub v2: i64,
}

/// What decides the faults and the schedule of one process of a case.
#[derive(Clone, Debug, Default)]
pub struct Ctl {
    /// Options of the simulator (probabilities, seeds, limits ...).
    pub opts: BTreeMap<String, u64>,
    /// Explicit decisions. With `replay` they are the only ones.
    pub dec: Vec<Dec>,
    pub replay: bool,
}

impl Ctl {
    pub fn set(mut self, k: &str, v: u64) -> Self {
        self.opts.insert(k.to_string(), v);
        self
    }
    pub fn get(&self, k: &str) -> u64 {
        *self.opts.get(k).unwrap_or(&0)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Scenario {
    pub args: Vec<String>,
    pub env: Vec<(String, String)>,
    pub files: BTreeMap<String, Vec<u8>>,
    pub dirs: Vec<String>,
    /// Identities of files another process made.
    pub inos: BTreeMap<String, u64>,
    /// What another process did to the files just before an operation.
    pub patches: Vec<(u64, World)>,
}

/// Files by name: their identity and content.
pub type World = BTreeMap<String, (u64, std::sync::Arc<Vec<u8>>)>;

#[derive(Clone, Debug)]
pub enum Ev {
    /// io ordinal, virtual time, thread, operation, requested, returned, path
    Io { ord: u64, t: u64, op: String, req: i64, ret: i64, path: String },
    /// A token-set file came to hold this content.
    Pub { ord: u64, t: u64, path: String, data: Vec<u8> },
    /// Bytes `off..off+len` of standard output were written.
    Out { t: u64, off: usize, len: usize },
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub verdict: String,
    pub code: i32,
    pub num: BTreeMap<String, u64>,
    pub sig: u64,
    pub evhash: u64,
    pub cnt: BTreeMap<String, u64>,
    pub dec: Vec<Dec>,
    pub hist: Vec<Ev>,
    pub files: BTreeMap<String, Vec<u8>>,
    pub same: Vec<String>,
    pub inos: BTreeMap<String, u64>,
    pub dirs: Vec<String>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub cov: Vec<u8>,
}

impl Report {
    pub fn n(&self, k: &str) -> u64 {
        *self.num.get(k).unwrap_or(&0)
    }
    pub fn ok(&self) -> bool {
        self.verdict == "exit" && self.code == 0
    }
    /// Did not end: no thread can run, or the limits on steps or real time were hit.
    pub fn unfinished(&self) -> bool {
        matches!(self.verdict.as_str(), "deadlock" | "livelock" | "timeout")
    }
    /// Will never end: no thread can run, or the limit on steps was hit without
    /// any sign of progress.
    pub fn hung(&self, n: u64) -> bool {
        match self.verdict.as_str() {
            "deadlock" => true,
            "livelock" => self.n("steps") - self.n("lastout") > SILENCE || self.spins(n),
            _ => false,
        }
    }
    /// The optimizer adopts step after step without getting anywhere: a set
    /// grows at most `n` times, and every other step has to be an improvement.
    fn spins(&self, n: u64) -> bool {
        let (mut phases, mut best, mut idle) = (0, 0.0f64, 0);
        for l in self.out_str().lines() {
            if l.starts_with("Optimizing with ") {
                phases += 1;
            } else if l.starts_with("Initial tokens") {
                best = 0.0;
                idle = 0;
            } else if let Some(x) = l.strip_prefix("processed bytes / token: ") {
                match x.trim().parse::<f64>() {
                    Ok(v) if v > best => best = v,
                    _ => idle += 1,
                }
                if idle > n + 8 {
                    return true;
                }
            }
        }
        phases > 70
    }
    pub fn out_str(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn brief(&self) -> String {
        let e = String::from_utf8_lossy(&self.stderr);
        let e: String = e.lines().filter(|l| !l.trim().is_empty() && !l.starts_with("note:")).take(3).collect::<Vec<_>>().join(" | ");
        let e: String = e.chars().take(300).collect();
        format!("{} (status {}){}{}", self.verdict, self.code, if e.is_empty() { "" } else { ": " }, e)
    }
    pub fn pubs(&self) -> Vec<(u64, u64, &str, &[u8])> {
        self.hist
            .iter()
            .filter_map(|e| match e {
                Ev::Pub { ord, t, path, data } => Some((*ord, *t, path.as_str(), data.as_slice())),
                _ => None,
            })
            .collect()
    }
}

extern "C" {
    fn personality(p: u64) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}

thread_local! {
    /// Processor the runs of this worker are kept on: only one of their threads runs at a time.
    pub static CPU: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}

/// Steps without any output after which a run that does not end is hanging.
pub const SILENCE: u64 = 1_500_000_000;

pub struct Sim {
    pub bin: PathBuf,
    pub lib: PathBuf,
    pub dir: PathBuf,
    counter: AtomicU64,
}

fn skip_line<'a>(p: &mut usize, b: &'a [u8]) -> &'a str {
    let s = *p;
    let e = b[s..].iter().position(|&c| c == b'\n').map(|x| s + x).unwrap_or(b.len());
    *p = e + 1;
    std::str::from_utf8(&b[s..e]).unwrap_or("?")
}

impl Sim {
    pub fn new(bin: PathBuf, lib: PathBuf) -> Self {
        let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let dir = base.join(format!("dst-{}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Sim { bin, lib, dir, counter: AtomicU64::new(0) }
    }

    pub fn run(&self, sc: &Scenario, ctl: &Ctl) -> Report {
        let id = self.counter.fetch_add(1, Ordering::SeqCst);
        let inp = self.dir.join(format!("{}.in", id));
        let out = self.dir.join(format!("{}.out", id));
        let mut b: Vec<u8> = Vec::new();
        let w = &mut b;
        writeln!(w, "random {}", if ctl.replay { 0 } else { 1 }).unwrap();
        if !ctl.opts.contains_key("steplimit") {
            writeln!(w, "steplimit 150000000").unwrap();
        }
        for (k, v) in &ctl.opts {
            if ctl.replay && (k.starts_with("p_") || k == "pct_d") || matches!(k.as_str(), "crash_frac" | "crash_kind" | "crash_power") {
                continue;
            }
            writeln!(w, "{} {}", k, v).unwrap();
        }
        for d in &ctl.dec {
            writeln!(w, "D {} {} {} {}", d.kind, d.ord, d.v1, d.v2).unwrap();
        }
        for d in &sc.dirs {
            writeln!(w, "DIR {}", d).unwrap();
        }
        for (p, d) in &sc.files {
            match sc.inos.get(p) {
                Some(i) => writeln!(w, "FILEI {} {} {}", d.len(), i, p).unwrap(),
                None => writeln!(w, "FILE {} {}", d.len(), p).unwrap(),
            }
            w.extend_from_slice(d);
            w.push(b'\n');
        }
        for (ord, files) in &sc.patches {
            writeln!(w, "XAT {}", ord).unwrap();
            for (p, (ino, d)) in files {
                writeln!(w, "XFILE {} {} {} {}", ord, d.len(), ino, p).unwrap();
                w.extend_from_slice(d);
                w.push(b'\n');
            }
        }
        w.extend_from_slice(b"END\n");
        std::fs::write(&inp, &b).expect("write scenario");

        let mut cmd = Command::new(&self.bin);
        cmd.args(&sc.args)
            .env_clear()
            .env("LD_PRELOAD", &self.lib)
            .env("LD_LIBRARY_PATH", self.lib.parent().unwrap())
            .env("DST_IN", &inp)
            .env("DST_OUT", &out)
            .env("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0") // so that the allocator counts freed memory as free
            .env("TMPDIR", "/sim/tmp")
            .env("HOME", "/sim")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        for (k, v) in &sc.env {
            cmd.env(k, v);
        }
        let cpu = CPU.with(|c| c.get());
        unsafe {
            cmd.pre_exec(move || {
                if let Some(c) = cpu.filter(|c| *c < 1024) {
                    let mut mask = [0u64; 16];
                    mask[c / 64] |= 1 << (c % 64);
                    sched_setaffinity(0, 128, mask.as_ptr());
                }
                personality(0x0040000); // no address randomization, where allowed
                Ok(())
            });
        }
        let mut child = cmd.spawn().expect("start simulated process");
        let t0 = Instant::now();
        let mut nap = 200u64;
        let mut timeout = false;
        let status = loop {
            match child.try_wait().expect("wait") {
                Some(s) => break s,
                None => {
                    if t0.elapsed() > Duration::from_secs(240) {
                        timeout = true;
                        let _ = child.kill();
                    }
                    std::thread::sleep(Duration::from_micros(nap));
                    nap = (nap * 5 / 4).min(3000);
                }
            }
        };
        let mut rep = match std::fs::read(&out) {
            Ok(d) => parse_report(&d),
            Err(_) => Report { verdict: "noreport".into(), ..Default::default() },
        };
        let _ = std::fs::remove_file(&inp);
        let _ = std::fs::remove_file(&out);
        rep.code = status.code().unwrap_or_else(|| 128 + status.signal().unwrap_or(0));
        if timeout {
            rep.verdict = "timeout".into();
        }
        if rep.code == 99 && rep.verdict == "noreport" {
            panic!("simulator failure running {:?}", sc.args);
        }
        rep
    }
}

impl Drop for Sim {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn parse_report(b: &[u8]) -> Report {
    let mut r = Report::default();
    let mut p = 0;
    let blob = |p: &mut usize, n: usize| -> Vec<u8> {
        let s = b[*p..*p + n].to_vec();
        *p += n + 1;
        s
    };
    while p < b.len() {
        let l = skip_line(&mut p, b).to_string();
        let mut f = l.splitn(2, ' ');
        let key = f.next().unwrap();
        let rest = f.next().unwrap_or("");
        let w: Vec<&str> = rest.split(' ').collect();
        let num = |i: usize| w.get(i).and_then(|x| x.parse::<i64>().ok()).unwrap_or(0);
        match key {
            "END" => break,
            "verdict" => r.verdict = rest.to_string(),
            "sig" => r.sig = u64::from_str_radix(rest, 16).unwrap_or(0),
            "evhash" => r.evhash = u64::from_str_radix(rest, 16).unwrap_or(0),
            "cnt" => {
                r.cnt.insert(w[0].to_string(), num(1) as u64);
            }
            "thr" => {}
            "D" => r.dec.push(Dec { kind: w[0].chars().next().unwrap(), ord: num(1) as u64, v1: num(2), v2: num(3) }),
            "IO" => r.hist.push(Ev::Io {
                ord: num(0) as u64,
                t: num(1) as u64,
                op: w[3].to_string(),
                req: num(4),
                ret: num(5),
                path: w.get(6).unwrap_or(&"").to_string(),
            }),
            "PUB" => {
                let data = blob(&mut p, num(2) as usize);
                r.hist.push(Ev::Pub { ord: num(0) as u64, t: num(1) as u64, path: w[3].to_string(), data });
            }
            "OUTW" => r.hist.push(Ev::Out { t: num(1) as u64, off: num(2) as usize, len: num(3) as usize }),
            "DIR" => r.dirs.push(rest.to_string()),
            "INO" => {
                r.inos.insert(w[1].to_string(), num(0) as u64);
            }
            "SAME" => r.same.push(rest.to_string()),
            "FILE" => {
                let data = blob(&mut p, num(0) as usize);
                r.files.insert(w[1].to_string(), data);
            }
            "STDOUT" => r.stdout = blob(&mut p, num(0) as usize),
            "STDERR" => r.stderr = blob(&mut p, num(0) as usize),
            "COV" => r.cov = blob(&mut p, num(0) as usize),
            k => {
                r.num.insert(k.to_string(), rest.parse().unwrap_or(0));
            }
        }
    }
    r
}
