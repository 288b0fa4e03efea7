//! Case execution, worker processes, shrinking, replay files, evidence.

use crate::tape::{hash_str, hash_u64s, mix, Tape};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Which build of the code under test this is.
const VARIANT: &str = if cfg!(feature = "precise") { "precise" } else { "plain" };

pub type R = Result<(), String>;

#[derive(Default)]
pub struct Ctx {
    /// Collect a readable description of the case.
    pub verbose: bool,
    pub desc: Vec<String>,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub thorough: bool,
}
impl Ctx {
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.desc.push(s);
        }
    }
    pub fn label(&mut self, l: &str) {
        self.count(l, 1);
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    pub fn count(&mut self, l: &str, n: u64) {
        match self.labels.get_mut(l) {
            Some(v) => *v += n,
            None => {
                self.labels.insert(l.to_string(), n);
            }
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub technique: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Tape, &mut Ctx) -> R,
}

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

static PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("panic at {loc}: {msg}");
        eprintln!("{m}");
        if let Ok(mut p) = PANIC.lock() {
            *p = m;
        }
    }));
}

pub fn run_case(p: &Prop, tape: &mut Tape, ctx: &mut Ctx) -> R {
    match catch_unwind(AssertUnwindSafe(|| (p.run)(tape, ctx))) {
        Ok(r) => r,
        Err(_) => {
            // A worker thread's panic is reported through join errors by the property itself.
            let m = PANIC.lock().map(|p| p.clone()).unwrap_or_default();
            Err(m)
        }
    }
}

fn seed_of(seed: u64, id: &str) -> u64 {
    mix(seed, hash_str(id))
}

pub struct Opts {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub root: PathBuf,
}

fn cases(p: &Prop, tier: &str) -> u64 {
    let base = if tier == "thorough" { p.thorough } else { p.quick };
    match std::env::var("VERIF_CASES").ok().and_then(|v| v.parse().ok()) {
        Some(n) => n,
        None => base,
    }
}

fn signal_of(st: &std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    st.signal()
}

fn crash_signal(s: i32) -> bool {
    // ILL TRAP ABRT BUS FPE SEGV
    [4, 5, 6, 7, 8, 11].contains(&s)
}

/// Worker: runs cases k, k+n, ... and writes its report.
pub fn worker(p: &Prop, o: &Opts, k: u64, n: u64, dir: &Path, deadline_s: u64) {
    let total = cases(p, &o.tier);
    let seed = seed_of(o.seed, p.id);
    let start = Instant::now();
    let mut progress = std::fs::File::create(dir.join(format!("p{k}"))).unwrap();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut samples: Vec<u64> = vec![];
    let mut failure: Option<(u64, String)> = None;
    let mut timeout = false;
    let mut i = k;
    while i < total {
        if start.elapsed().as_secs() >= deadline_s {
            timeout = true;
            break;
        }
        progress.seek(SeekFrom::Start(0)).unwrap();
        progress.write_all(&i.to_le_bytes()).unwrap();
        let mut t = Tape::generate(seed, i);
        let mut c = Ctx { thorough: o.tier == "thorough", ..Default::default() };
        let r = run_case(p, &mut t, &mut c);
        evals += 1;
        for (l, v) in c.labels {
            *labels.entry(l).or_insert(0) += v;
        }
        if c.nontrivial {
            if hashes.insert(hash_u64s(t.used())) && samples.len() < 2 && i > n {
                samples.push(i);
            }
        }
        if let Err(m) = r {
            failure = Some((i, m));
            break;
        }
        i += n;
    }
    let mut out = String::new();
    out += &format!("evals {evals}\n");
    for (l, v) in &labels {
        out += &format!("label {v} {l}\n");
    }
    for s in samples {
        out += &format!("sample {s}\n");
    }
    if timeout {
        out += "timeout\n";
    }
    if let Some((i, m)) = failure {
        out += &format!("fail {i} {}\n", m.replace('\n', " | "));
    }
    out += "end\n";
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("h{k}")), hb).unwrap();
    std::fs::write(dir.join(format!("r{k}")), out).unwrap();
}

fn describe(p: &Prop, tape: Vec<u64>, thorough: bool) -> (R, Vec<String>) {
    let mut t = Tape::replay(tape);
    let mut c = Ctx { verbose: true, thorough, ..Default::default() };
    let r = run_case(p, &mut t, &mut c);
    (r, c.desc)
}

fn tape_str(t: &[u64]) -> String {
    t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
}
pub fn parse_tape(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|v| v.parse().ok()).collect()
}

/// Does this tape fail? Runs in-process.
fn fails(p: &Prop, data: &[u64], thorough: bool) -> Option<(Vec<u64>, String)> {
    let mut t = Tape::replay(data.to_vec());
    let mut c = Ctx { thorough, ..Default::default() };
    match run_case(p, &mut t, &mut c) {
        Ok(()) => None,
        Err(m) => {
            let mut u = t.used().to_vec();
            while u.last() == Some(&0) {
                u.pop();
            }
            Some((u, m))
        }
    }
}

fn shrink(mut best: Vec<u64>, mut msg: String, budget: Duration, mut test: impl FnMut(&[u64]) -> Option<(Vec<u64>, String)>) -> (Vec<u64>, String) {
    let start = Instant::now();
    let less = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut improved = true;
    'outer: while improved {
        improved = false;
        macro_rules! attempt {
            ($cand:expr) => {{
                if start.elapsed() > budget {
                    break 'outer;
                }
                let cand: Vec<u64> = $cand;
                match test(&cand) {
                    Some((u, m)) if less(&u, &best) => {
                        best = u;
                        msg = m;
                        improved = true;
                        true
                    }
                    _ => false,
                }
            }};
        }
        for size in [64usize, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                if !attempt!(c) {
                    i += size;
                }
            }
        }
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|&v| v != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|v| *v = 0);
                    attempt!(c);
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo {
                let mid = lo + (best[i] - lo) / 2;
                if mid == best[i] {
                    break;
                }
                let mut c = best.clone();
                c[i] = mid;
                if !attempt!(c) {
                    lo = mid + 1;
                    if i < best.len() && lo >= best[i] {
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    (best, msg)
}

/// Sub-command: shrink a tape in this process and write the result.
pub fn shrink_cmd(p: &Prop, file: &Path, out: &Path, thorough: bool) {
    let data = parse_tape(&std::fs::read_to_string(file).unwrap());
    let (u, m) = match fails(p, &data, thorough) {
        Some(x) => x,
        None => {
            std::fs::write(out, "norepro\n").unwrap();
            return;
        }
    };
    let (best, msg) = shrink(u, m, Duration::from_secs(40), |c| fails(p, c, thorough));
    std::fs::write(out, format!("{}\n{}\n", tape_str(&best), msg.replace('\n', " | "))).unwrap();
}

/// Sub-command: run one tape, print the description; exit code 1 on failure.
pub fn exec_cmd(p: &Prop, data: Vec<u64>, thorough: bool) -> i32 {
    let (r, d) = describe(p, data, thorough);
    for l in d {
        println!("{l}");
    }
    match r {
        Ok(()) => {
            println!("result: held");
            0
        }
        Err(m) => {
            println!("result: VIOLATED {m}");
            1
        }
    }
}

fn crash_test(exe: &Path, id: &str, dir: &Path, thorough: bool, data: &[u64]) -> Option<(Vec<u64>, String)> {
    let f = dir.join("crash-tape");
    std::fs::write(&f, tape_str(data)).unwrap();
    let st = Command::new(exe)
        .args(["exec", id])
        .arg(&f)
        .arg(if thorough { "thorough" } else { "quick" })
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .ok()?;
    if let Some(s) = signal_of(&st) {
        if crash_signal(s) {
            let mut u = data.to_vec();
            while u.last() == Some(&0) {
                u.pop();
            }
            return Some((u, format!("process killed by signal {s}")));
        }
    }
    if st.code() == Some(1) {
        return Some((data.to_vec(), "violation".into()));
    }
    None
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Report {
    evals: u64,
    labels: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    samples: Vec<u64>,
    timeout: bool,
    failure: Option<(u64, String, bool)>,
    error: Option<String>,
    stalled: Option<u64>,
}

fn run_workers(o: &Opts, exe: &Path, dir: &Path) -> Report {
    let n: u64 = 8;
    let deadline: u64 = if o.tier == "thorough" { 5400 } else { 480 };
    let stall_s: u64 = if o.tier == "thorough" { 300 } else { 120 };
    let mut kids = vec![];
    for k in 0..n {
        let log = std::fs::File::create(dir.join(format!("log{k}"))).unwrap();
        let child = Command::new(exe)
            .args(["worker", &o.id, &o.tier, &o.seed.to_string(), &k.to_string(), &n.to_string()])
            .arg(dir)
            .arg(deadline.to_string())
            .stdout(Stdio::null())
            .stderr(log)
            .spawn()
            .expect("cannot start worker");
        kids.push((k, child, false));
    }
    let mut rep = Report { evals: 0, labels: BTreeMap::new(), hashes: HashSet::new(), samples: vec![], timeout: false, failure: None, error: None, stalled: None };
    let mut last: BTreeMap<u64, (u64, Instant)> = BTreeMap::new();
    loop {
        let mut running = 0;
        for (k, child, done) in kids.iter_mut() {
            if *done {
                continue;
            }
            match child.try_wait() {
                Ok(Some(st)) => {
                    *done = true;
                    let cur = read_progress(dir, *k);
                    if let Some(s) = signal_of(&st) {
                        if crash_signal(s) {
                            let log = std::fs::read_to_string(dir.join(format!("log{k}"))).unwrap_or_default();
                            let tail: Vec<&str> = log.lines().filter(|l| l.starts_with("panic at")).collect();
                            let m = format!("process killed by signal {s} {}", tail.last().unwrap_or(&""));
                            if rep.failure.as_ref().map_or(true, |f| f.0 > cur) {
                                rep.failure = Some((cur, m, true));
                            }
                        } else {
                            rep.error = Some(format!("worker {k} killed by signal {s} at case {cur}"));
                        }
                    } else if st.code() != Some(0) {
                        let log = std::fs::read_to_string(dir.join(format!("log{k}"))).unwrap_or_default();
                        rep.error = Some(format!("worker {k} exited with {:?} at case {cur}: {log}", st.code()));
                    } else if let Ok(txt) = std::fs::read_to_string(dir.join(format!("r{k}"))) {
                        for l in txt.lines() {
                            let (a, b) = l.split_once(' ').unwrap_or((l, ""));
                            match a {
                                "evals" => rep.evals += b.parse::<u64>().unwrap_or(0),
                                "label" => {
                                    let (v, name) = b.split_once(' ').unwrap();
                                    *rep.labels.entry(name.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                                }
                                "sample" => rep.samples.push(b.parse().unwrap()),
                                "timeout" => rep.timeout = true,
                                "fail" => {
                                    let (i, m) = b.split_once(' ').unwrap_or((b, ""));
                                    let i: u64 = i.parse().unwrap();
                                    if rep.failure.as_ref().map_or(true, |f| f.0 > i) {
                                        rep.failure = Some((i, m.to_string(), false));
                                    }
                                }
                                _ => {}
                            }
                        }
                        if let Ok(b) = std::fs::read(dir.join(format!("h{k}"))) {
                            for c in b.chunks_exact(8) {
                                rep.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                            }
                        }
                    } else {
                        rep.error = Some(format!("worker {k} left no report"));
                    }
                }
                Ok(None) => {
                    running += 1;
                    let cur = read_progress(dir, *k);
                    let e = last.entry(*k).or_insert((cur, Instant::now()));
                    if e.0 != cur {
                        *e = (cur, Instant::now());
                    } else if e.1.elapsed().as_secs() > stall_s {
                        rep.stalled = Some(cur);
                    }
                }
                Err(e) => rep.error = Some(e.to_string()),
            }
        }
        if running == 0 {
            break;
        }
        if rep.failure.is_some() || rep.error.is_some() || rep.stalled.is_some() {
            for (_, c, done) in kids.iter_mut() {
                if !*done {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    rep.samples.sort();
    rep
}

fn read_progress(dir: &Path, k: u64) -> u64 {
    let mut b = [0u8; 8];
    match std::fs::File::open(dir.join(format!("p{k}"))).and_then(|mut f| f.read_exact(&mut b)) {
        Ok(()) => u64::from_le_bytes(b),
        Err(_) => k,
    }
}

pub fn check(p: &Prop, o: &Opts, extra: &[(String, u64)]) -> i32 {
    let start = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let dir = o.root.join(format!("target/run-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let thorough = o.tier == "thorough";
    let mut rep = run_workers(o, &exe, &dir);
    let mut code = 0;
    let mut violations = 0;
    let mut hung = None;
    if let (Some(i), None) = (rep.stalled, &rep.failure) {
        // Run the case alone: only a case that does not end by itself either counts.
        let tapefile = dir.join("tape");
        let mut child = Command::new(&exe)
            .args(["gentape", p.id, &o.tier, &o.seed.to_string(), &i.to_string()])
            .arg(&tapefile)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start child");
        let t0 = Instant::now();
        let mut ended = false;
        while t0.elapsed().as_secs() < 90 {
            if let Ok(Some(_)) = child.try_wait() {
                ended = true;
                break;
            }
            std::thread::sleep(Duration::from_millis(50));
        }
        let _ = child.kill();
        let _ = child.wait();
        if ended {
            rep.error = Some(format!("a worker made no progress at case {i}, which ends when it runs alone"));
        } else {
            hung = Some((i, parse_tape(&std::fs::read_to_string(&tapefile).unwrap_or_default())));
        }
    }
    if let Some((i, tape)) = &hung {
        violations = 1;
        code = 1;
        let msg = "the case does not terminate";
        let rdir = o.root.join("replays");
        std::fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{}-{VARIANT}-{:016x}.txt", p.id, hash_u64s(tape)));
        std::fs::write(&path, format!("property={}\nvariant={VARIANT}\ntier={}\nseed={}\ncase={}\nreproducible=true\nmessage={}\ntape={}\n", p.id, o.tier, o.seed, i, msg, tape_str(tape))).unwrap();
        println!("{}: {}", p.id, msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    } else if let Some((i, m, crashed)) = &rep.failure {
        violations = 1;
        let mut t = Tape::generate(seed_of(o.seed, p.id), *i);
        // Regenerate the tape: run in a child that records it, since a crash would end this one.
        let tapefile = dir.join("tape");
        let (mut best, mut msg) = (vec![], m.clone());
        if *crashed {
            let _ = Command::new(&exe)
                .args(["gentape", p.id, &o.tier, &o.seed.to_string(), &i.to_string()])
                .arg(&tapefile)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status();
        } else {
            let mut c = Ctx { thorough, ..Default::default() };
            let _ = run_case(p, &mut t, &mut c);
            std::fs::write(&tapefile, tape_str(&t.data)).unwrap();
        }
        let full = parse_tape(&std::fs::read_to_string(&tapefile).unwrap_or_default());
        let mut reproducible = true;
        if *crashed {
            if !full.is_empty() || true {
                match crash_test(&exe, p.id, &dir, thorough, &full) {
                    Some((u, _)) => {
                        let (b, mm) = shrink(u, m.clone(), Duration::from_secs(40), |c| crash_test(&exe, p.id, &dir, thorough, c));
                        best = b;
                        if mm.contains("signal") && !m.is_empty() {
                            msg = m.clone();
                        } else {
                            msg = mm;
                        }
                    }
                    None => {
                        reproducible = false;
                        best = full;
                    }
                }
            }
        } else {
            let sout = dir.join("shrunk");
            let st = Command::new(&exe)
                .args(["shrink", p.id])
                .arg(&tapefile)
                .arg(&sout)
                .arg(&o.tier)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status();
            let txt = std::fs::read_to_string(&sout).unwrap_or_default();
            if st.map(|s| s.success()).unwrap_or(false) && !txt.starts_with("norepro") && !txt.is_empty() {
                let mut l = txt.lines();
                best = parse_tape(l.next().unwrap_or(""));
                msg = l.next().unwrap_or("").to_string();
            } else {
                reproducible = !txt.starts_with("norepro");
                best = full;
            }
        }
        let rdir = o.root.join("replays");
        std::fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{}-{VARIANT}-{:016x}.txt", p.id, hash_u64s(&best)));
        let tf = dir.join("final-tape");
        std::fs::write(&tf, tape_str(&best)).unwrap();
        let d = Command::new(&exe).args(["exec", p.id]).arg(&tf).arg(&o.tier).stderr(Stdio::null()).output();
        let text = d.map(|d| String::from_utf8_lossy(&d.stdout).to_string()).unwrap_or_default();
        let body = format!(
            "property={}\nvariant={VARIANT}\ntier={}\nseed={}\ncase={}\nreproducible={}\nmessage={}\ntape={}\n--- case\n{}",
            p.id, o.tier, o.seed, i, reproducible, msg, tape_str(&best), text
        );
        std::fs::write(&path, body).unwrap();
        println!("{}: {}", p.id, msg);
        for l in text.lines().take(40) {
            println!("  {}", l.chars().take(300).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    } else if let Some(e) = &rep.error {
        println!("ERROR {}: {}", p.id, e);
        code = 2;
    }
    // Samples: describe a few non-trivial cases in a child.
    let mut samples = vec![];
    if code == 0 {
        for i in rep.samples.iter().take(4) {
            let out = Command::new(&exe)
                .args(["describe", p.id, &o.tier, &o.seed.to_string(), &i.to_string()])
                .stderr(Stdio::null())
                .output();
            if let Ok(out) = out {
                let s = String::from_utf8_lossy(&out.stdout).trim().to_string();
                if !s.is_empty() {
                    samples.push(s.chars().take(1200).collect::<String>());
                }
            }
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let mut j = String::new();
    j += "{\n";
    j += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", json_str(p.id), json_str(&o.tier), o.seed);
    j += " \"coverage\": {\n";
    j += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", rep.evals, rep.hashes.len(), json_str(p.rule));
    j += &format!("  \"samples\": [{}],\n", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   "));
    j += &format!("  \"labels\": {{{}}},\n", rep.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    for (k, v) in extra {
        j += &format!("  {}: {},\n", json_str(k), v);
    }
    j += &format!("  \"stopped_by_time_limit\": {}\n }},\n", rep.timeout);
    j += &format!(" \"assumptions\": [{}],\n", p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, violations);
    let ev = std::env::var("VERIF_EVIDENCE").map(PathBuf::from).unwrap_or_else(|_| o.root.join(format!("evidence/{}.json", p.id)));
    let _ = std::fs::create_dir_all(ev.parent().unwrap());
    std::fs::write(&ev, j).unwrap();
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1} s{}{}",
        p.id,
        o.tier,
        rep.evals,
        rep.hashes.len(),
        wall,
        if rep.timeout { ", stopped by time limit" } else { "" },
        if code == 0 { ", held" } else { "" }
    );
    let _ = std::fs::remove_dir_all(&dir);
    code
}

pub fn gentape(p: &Prop, o: &Opts, i: u64, out: &Path) {
    // The case aborts the process: every choice is appended to the file as it is made.
    let mut t = Tape::generate(seed_of(o.seed, p.id), i);
    t.record_to(out);
    let mut c = Ctx { thorough: o.tier == "thorough", ..Default::default() };
    let _ = run_case(p, &mut t, &mut c);
    std::fs::write(out, tape_str(&t.data)).unwrap();
}

pub fn describe_cmd(p: &Prop, o: &Opts, i: u64) {
    let mut t = Tape::generate(seed_of(o.seed, p.id), i);
    let mut c = Ctx { verbose: true, thorough: o.tier == "thorough", ..Default::default() };
    let _ = run_case(p, &mut t, &mut c);
    for l in c.desc {
        println!("{l}");
    }
}
