//! Runs one property: enumerated cases, then seeded random cases, on all cores, under a supervisor.

use crate::gen::{escape, unescape};
use crate::real::{Opts, IN_REAL, LAST_PANIC};
use crate::rng::{hash_bytes, Rng};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub input: Vec<u8>,
    pub aux: Vec<u8>,
    pub opts: Opts,
    pub n: u64,
}

impl Case {
    pub fn new(input: impl Into<Vec<u8>>) -> Case {
        Case { input: input.into(), aux: vec![], opts: Opts::DEFAULT, n: 0 }
    }
    pub fn opts(mut self, o: Opts) -> Case {
        self.opts = o;
        self
    }
    pub fn n(mut self, n: u64) -> Case {
        self.n = n;
        self
    }
    pub fn aux(mut self, a: impl Into<Vec<u8>>) -> Case {
        self.aux = a.into();
        self
    }
    pub fn show(&self) -> String {
        format!("opts: {}\nn: {}\ninput: {}\naux: {}\n", self.opts.show(), self.n, escape(&self.input), escape(&self.aux))
    }
    pub fn parse(s: &str) -> Case {
        let mut c = Case::new("");
        for l in s.lines() {
            if let Some(v) = l.strip_prefix("opts: ") {
                c.opts = Opts::parse(v)
            } else if let Some(v) = l.strip_prefix("n: ") {
                c.n = v.parse().unwrap()
            } else if let Some(v) = l.strip_prefix("input: ") {
                c.input = unescape(v)
            } else if let Some(v) = l.strip_prefix("aux: ") {
                c.aux = unescape(v)
            }
        }
        c
    }
}

/// What a monitor saw.
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<&'static str, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Obs {
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.counts.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// Record a distinct non-trivial observation.
    pub fn sig<T: std::hash::Hash>(&mut self, t: &T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        if self.sigs.len() < 1_500_000 {
            self.sigs.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            let s = f();
            self.samples.push(s);
        }
    }
}

pub type Check = fn(&Case, &mut Obs) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// number of enumerated cases (may depend on the tier)
    pub sys_len: fn(bool) -> u64,
    pub sys_case: fn(bool, u64) -> Case,
    pub random: fn(&mut Rng) -> Case,
    pub check: Check,
    pub quick_n: u64,
    pub thorough_n: u64,
    /// counters that must be non-zero for the run to mean anything
    pub need: &'static [&'static str],
}

pub fn no_sys(_: bool) -> u64 {
    0
}
pub fn no_sys_case(_: bool, _: u64) -> Case {
    Case::new("")
}

/// counters named "max ..." keep the maximum, all others are summed
fn merge(a: &mut Obs, b: Obs) {
    for (k, v) in b.counts {
        let e = a.counts.entry(k).or_insert(0);
        *e = if k.starts_with("max ") { (*e).max(v) } else { *e + v };
    }
    a.sigs.extend(b.sigs);
    for s in b.samples {
        if a.samples.len() < 12 {
            a.samples.push(s);
        }
    }
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

pub fn case_at(p: &Prop, thorough: bool, seed: u64, phase: u64, idx: u64) -> Case {
    if phase == 0 {
        (p.sys_case)(thorough, idx)
    } else {
        let mut r = Rng::new(seed.wrapping_mul(0x1000_0000_01B3) ^ hash_bytes(p.id.as_bytes()) ^ idx.wrapping_mul(0x9E37_79B9_7F4A_7C15));
        if phase == 1 {
            if ["P21", "P24", "P27"].contains(&p.id) {
                return (p.random)(&mut r);
            }
            // some of them somewhere else than at the beginning, and the same with enumerated ones
            let sys = (p.sys_len)(thorough);
            let (mut c, put) = match r.below(20) {
                0 if sys > 0 => ((p.sys_case)(thorough, r.next() % sys), true),
                1 => ((p.random)(&mut r), true),
                _ => ((p.random)(&mut r), false),
            };
            if put {
                if c.opts.show() == Opts::DEFAULT.show() {
                    c.opts = crate::props::rnd_opts(&mut r, p.id == "P18");
                }
                if c.n == 0 {
                    c.n = r.next();
                }
                if p.id == "P18" && c.input.starts_with(b"#") {
                    let at = c.input.iter().position(|x| *x == b'\n').map_or(c.input.len(), |i| i + 1);
                    c.input.splice(at..at, crate::gen::before(&mut r));
                } else {
                    c.input.splice(0..0, crate::gen::before(&mut r));
                }
            }
            return c;
        }
        let o = crate::props::rnd_opts(&mut r, p.id == "P18");
        let n = r.next();
        let b = crate::gen::large(&mut r);
        match p.id {
            "P15" => {
                let small = crate::gen::source(&mut r);
                if n % 2 == 0 { Case::new(b).aux(small) } else { Case::new(small).aux(b) }
            },
            "P18" if n % 4 > 0 => {
                let mut v = if n % 4 == 1 { format!("#!{}\n", "/bin/x ".repeat(r.range(30, 12_000))) } else { "#!x\n".to_string() }.into_bytes();
                v.extend(b);
                Case::new(v)
            },
            "P14" => Case::new(b).aux("any"),
            _ => Case::new(b),
        }
        .opts(o)
        .n(n)
    }
}

pub enum Verdict {
    Held,
    Violated(String),
    HarnessError(String),
}

pub fn evaluate(p: &Prop, c: &Case, obs: &mut Obs) -> Verdict {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.check)(c, obs))) {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(m)) => Verdict::Violated(m),
        Err(_) => Verdict::HarnessError(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let inside = IN_REAL.with(|x| *x.borrow());
        let short: String = msg.chars().take(300).collect();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{short} at {l}"));
        if !inside && std::env::var_os("WPV_DEBUG").is_some() {
            eprintln!("harness panic: {short} at {l}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}

fn shrink(p: &Prop, c: &Case) -> Case {
    let deadline = Instant::now() + Duration::from_secs(15);
    let mut best = c.clone();
    let mut obs = Obs::default();
    let bad = |c: &Case, obs: &mut Obs| matches!(evaluate(p, c, obs), Verdict::Violated(_));
    for field in 0..2 {
        let mut chunk = if field == 0 { best.input.len() } else { best.aux.len() } / 2;
        if chunk == 0 {
            chunk = 1;
        }
        loop {
            let mut i = 0;
            let mut changed = false;
            loop {
                if Instant::now() > deadline {
                    return best;
                }
                let cur = if field == 0 { &best.input } else { &best.aux };
                if i >= cur.len() {
                    break;
                }
                let was_text = std::str::from_utf8(cur).is_ok();
                let mut v = cur.clone();
                v.drain(i..(i + chunk).min(cur.len()));
                if was_text && std::str::from_utf8(&v).is_err() {
                    i += 1;
                    continue;
                }
                let mut cand = best.clone();
                if field == 0 {
                    cand.input = v
                } else {
                    cand.aux = v
                }
                obs.sigs.clear();
                if bad(&cand, &mut obs) {
                    best = cand;
                    changed = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                if !changed {
                    break;
                }
            } else {
                chunk = chunk / 2;
            }
        }
    }
    best
}

fn verif_dir() -> String {
    std::env::var("WPV_DIR").unwrap_or_else(|_| "/verif".into())
}

fn write_replay(p: &Prop, c: &Case, msg: &str) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let body = c.show();
    let path = format!("{dir}/{}-{:016x}.case", p.id, hash_bytes(body.as_bytes()));
    let text = format!("property: {}\n{}readable: {:?}\nmessage: {}\nrerun: bash /verif/check.sh replay {} {}\n", p.id, body, String::from_utf8_lossy(&c.input), msg.replace('\n', " | "), p.id, path);
    let _ = std::fs::write(&path, text);
    path
}

/// known findings: lines "finding: property=<id> input=<escaped> opts=<..>"
fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let rest = l.strip_prefix(&format!("property={id} "))?;
            let (sig, what) = rest.split_once(" -- ")?;
            Some((sig.to_string(), what.to_string()))
        })
        .collect()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Shared {
    next: [AtomicU64; 3],
    stop: AtomicBool,
    found: Mutex<Vec<(u64, u64, Case, String)>>,
    harness: Mutex<Vec<String>>,
    started: Vec<AtomicU64>,
    tids: Mutex<Vec<String>>,
}

pub fn run_worker(p: &'static Prop) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = env_u64("VERIF_SEED", 1);
    let nthreads = env_u64("WPV_THREADS", 8) as usize;
    let sys = (p.sys_len)(thorough);
    let rnd = env_u64("WPV_N", if thorough { p.thorough_n } else { p.quick_n });
    let large = if !["P21", "P24", "P27"].contains(&p.id) { env_u64("WPV_LARGE", if thorough { 4000 } else { match p.id { "P26" => 16, "P10" | "P11" | "P13" | "P20" | "P25" => 120, _ => 500 } }) } else { 0 };
    let wall = Duration::from_secs(env_u64("WPV_WALL", if thorough { 1500 } else { 200 }));
    let state = std::env::var("WPV_STATE").ok().and_then(|f| std::fs::OpenOptions::new().write(true).create(true).open(f).ok()).map(Arc::new);

    let sh = Arc::new(Shared {
        next: [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)],
        stop: AtomicBool::new(false),
        found: Mutex::new(vec![]),
        harness: Mutex::new(vec![]),
        started: (0..nthreads).map(|_| AtomicU64::new(0)).collect(),
        tids: Mutex::new(vec![String::new(); nthreads]),
    });

    let mut handles = vec![];
    for w in 0..nthreads {
        let sh = sh.clone();
        let state = state.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    sh.tids.lock().unwrap()[w] =
                        std::fs::read_link("/proc/thread-self").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
                    let mut obs = Obs::default();
                    let mut done = [0u64; 3];
                    for phase in 0..3u64 {
                        let total = [sys, rnd, large][phase as usize];
                        loop {
                            if sh.stop.load(SeqCst) || t0.elapsed() > wall {
                                break;
                            }
                            let chunk = if phase == 2 { 1 } else { 64.min(total / (nthreads as u64 * 4) + 1) };
                            let i0 = sh.next[phase as usize].fetch_add(chunk, SeqCst);
                            if i0 >= total {
                                break;
                            }
                            for i in i0..(i0 + chunk).min(total) {
                                if let Some(f) = &state {
                                    let mut b = [0u8; 16];
                                    b[..8].copy_from_slice(&(phase + 1).to_le_bytes());
                                    b[8..].copy_from_slice(&i.to_le_bytes());
                                    let _ = f.write_at(&b, (w * 16) as u64);
                                }
                                sh.started[w].store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                                let c = case_at(p, thorough, seed, phase, i);
                                let v = evaluate(p, &c, &mut obs);
                                sh.started[w].store(0, SeqCst);
                                done[phase as usize] += 1;
                                match v {
                                    Verdict::Held => {},
                                    Verdict::Violated(m) => {
                                        let mut f = sh.found.lock().unwrap();
                                        f.push((phase, i, c, m));
                                        if f.len() >= 20 {
                                            sh.stop.store(true, SeqCst);
                                        }
                                    },
                                    Verdict::HarnessError(m) => {
                                        sh.harness.lock().unwrap().push(format!("{m} on {}", c.show()));
                                        sh.stop.store(true, SeqCst);
                                    },
                                }
                                // stop early once something was found, but let every worker finish its chunk
                                if !sh.found.lock().map(|f| f.is_empty()).unwrap_or(true) && t0.elapsed() > Duration::from_secs(20) {
                                    sh.stop.store(true, SeqCst);
                                }
                            }
                        }
                    }
                    (obs, done)
                })
                .unwrap(),
        );
    }

    // Watchdog. Only CPU time spent inside one case counts, and only for the property about termination.
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
        let now = t0.elapsed().as_millis() as u64;
        for w in 0..nthreads {
            let s = sh.started[w].load(SeqCst);
            if s != 0 && now > s + 180_000 {
                let tid = sh.tids.lock().unwrap()[w].clone();
                let stat = std::fs::read_to_string(format!("/proc/{tid}/stat")).unwrap_or_default();
                eprintln!("watchdog: worker {w} has spent {} ms in one case (thread stat: {stat})", now - s);
                // exit code 3: the supervisor looks at the state file
                std::process::exit(3);
            }
        }
    }

    let mut obs = Obs::default();
    let mut done = [0u64; 3];
    for h in handles {
        match h.join() {
            Ok((o, d)) => {
                merge(&mut obs, o);
                done[0] += d[0];
                done[1] += d[1];
                done[2] += d[2];
            },
            Err(_) => {
                println!("INCONCLUSIVE: a worker thread died");
                return 2;
            },
        }
    }

    let harness = sh.harness.lock().unwrap();
    let mut found = std::mem::take(&mut *sh.found.lock().unwrap());
    found.sort_by_key(|f| (f.0, f.1));
    let known = known_findings(p.id);
    let mut violations = 0;
    let mut lines = vec![];
    let mut known_hit: BTreeMap<String, String> = BTreeMap::new();
    let mut shrunk_any = false;
    for (_, _, c, m) in &found {
        // a known finding is identified by its exact input
        let sig = format!("input={}", escape(&c.input));
        if let Some((s, what)) = known.iter().find(|(s, _)| *s == sig) {
            known_hit.insert(s.clone(), what.clone());
            continue;
        }
        violations += 1;
        if !shrunk_any {
            shrunk_any = true;
            let small = shrink(p, c);
            let m2 = match evaluate(p, &small, &mut Obs::default()) {
                Verdict::Violated(m) => m,
                _ => m.clone(),
            };
            let path = write_replay(p, &small, &m2);
            lines.push(format!("VIOLATION property={} replay={}", p.id, path));
            lines.push(format!("  input (shrunk): {:?}", String::from_utf8_lossy(&small.input)));
            if !small.aux.is_empty() {
                lines.push(format!("  aux: {:?}", String::from_utf8_lossy(&small.aux)));
            }
            lines.push(format!("  {}", m2.chars().take(1500).collect::<String>()));
        }
    }
    for (s, what) in &known {
        println!("KNOWN-FINDING: property={} {} ({})", p.id, what, s);
    }

    let wall_s = t0.elapsed().as_secs_f64();
    let mut j = String::from("{\n");
    j.push_str(&format!(
        " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"enumerated_cases\": {},\n  \"enumerated_total\": {},\n  \"random_cases\": {},\n  \"large_cases\": {},\n  \"observed\": {{{}}},\n  \"samples\": [{}]\n }},\n",
        js(p.id),
        js(if thorough { "thorough" } else { "quick" }),
        seed,
        done[0] + done[1] + done[2],
        obs.sigs.len(),
        js(p.rule),
        done[0],
        sys,
        done[1],
        done[2],
        obs.counts.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "),
        obs.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
    ));
    j.push_str(&format!(
        " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        p.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        wall_s,
        violations
    ));
    let ev = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&ev);
    if std::fs::write(format!("{ev}/{}.json", p.id), &j).is_err() {
        println!("INCONCLUSIVE: cannot write evidence");
        return 2;
    }

    println!(
        "{}: {} enumerated + {} random + {} large cases, {} distinct non-trivial, {:.1} s; {:?}",
        p.id,
        done[0],
        done[1],
        done[2],
        obs.sigs.len(),
        wall_s,
        obs.counts
    );
    if violations > 0 {
        for l in lines {
            println!("{l}");
        }
        println!("  ({} violating cases before stopping)", violations);
        return 1;
    }
    if !harness.is_empty() {
        println!("INCONCLUSIVE: harness error: {}", harness[0]);
        return 2;
    }
    if obs.sigs.is_empty() {
        println!("INCONCLUSIVE: nothing observed");
        return 2;
    }
    for n in p.need {
        if obs.counts.get(n).copied().unwrap_or(0) == 0 {
            println!("INCONCLUSIVE: never observed: {n}");
            return 2;
        }
    }
    0
}

/// Supervise a worker process, so that a crash of the code under test (stack overflow, abort) is observed too.
pub fn run_supervised(p: &'static Prop) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let dir = std::env::temp_dir().join(format!("wpv-{}-{}", p.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let state = dir.join("state");
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe).arg("worker").arg(p.id).env("WPV_STATE", &state).status();
    let code = match st {
        Err(e) => {
            println!("INCONCLUSIVE: cannot start worker: {e}");
            2
        },
        Ok(s) if matches!(s.code(), Some(0) | Some(1) | Some(2)) => s.code().unwrap(),
        Ok(s) => {
            // died: find out whether one of the cases in flight does it again, alone
            println!("worker ended with {s}; looking at the cases in flight");
            let b = std::fs::read(&state).unwrap_or_default();
            let mut code = 2;
            // all at once, each in a process of its own
            let mut alone = vec![];
            for ch in b.chunks_exact(16) {
                let phase = u64::from_le_bytes(ch[..8].try_into().unwrap());
                let idx = u64::from_le_bytes(ch[8..].try_into().unwrap());
                if phase == 0 {
                    continue;
                }
                if let Ok(c) = std::process::Command::new(&exe).arg("single").arg(p.id).arg((phase - 1).to_string()).arg(idx.to_string()).spawn() {
                    alone.push((phase, idx, c, None, 0u64));
                }
            }
            let t = Instant::now();
            loop {
                let mut busy = 0;
                for (_, _, child, res, cpu) in alone.iter_mut().filter(|x| x.3.is_none()) {
                    if let Ok(Some(s)) = child.try_wait() {
                        *res = Some(s);
                        continue;
                    }
                    busy += 1;
                    let stat = std::fs::read_to_string(format!("/proc/{}/stat", child.id())).unwrap_or_default();
                    let f: Vec<&str> = stat.rsplit(") ").next().unwrap_or("").split(' ').collect();
                    if f.len() > 12 {
                        *cpu = f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
                    }
                }
                let spent = alone.iter().any(|x| x.3.is_none() && x.4 > 10_000) && t.elapsed() > Duration::from_secs(110);
                if busy == 0 || spent || t.elapsed() > Duration::from_secs(300) {
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            for (_, _, child, res, _) in alone.iter_mut().filter(|x| x.3.is_none()) {
                let _ = (child.kill(), child.wait(), res);
            }
            for (phase, idx, _, res, last_cpu) in alone {
                let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
                let case = case_at(p, thorough, env_u64("VERIF_SEED", 1), phase - 1, idx);
                let why = match res {
                    Some(s) => match s.signal() {
                        // SIGABRT, SIGBUS, SIGSEGV, SIGILL: the code under test brought the process down (a kill is not evidence)
                        Some(n) if [6, 7, 11, 4].contains(&n) => Some(format!("the process dies with signal {n} on this input, alone and repeatably")),
                        _ => None,
                    },
                    // clock ticks are 10 ms: 100 s of CPU time spent on one small input
                    None if last_cpu > 10_000 => Some(format!("no result after {} CPU ticks on one input, alone", last_cpu)),
                    None => None,
                };
                if let Some(why) = why {
                    let path = write_replay(p, &case, &why);
                    println!("VIOLATION property={} replay={}", p.id, path);
                    println!("  {why}");
                    let ev = format!("{}/evidence", verif_dir());
                    let _ = std::fs::create_dir_all(&ev);
                    let _ = std::fs::write(
                        format!("{ev}/{}.json", p.id),
                        format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": 1, \"rule\": \"run ended by a crash\", \"samples\": [{}]}}, \"wall_s\": 0, \"violations\": 1}}\n", js(p.id), js(if thorough {"thorough"} else {"quick"}), env_u64("VERIF_SEED", 1), idx + 1, js(&case.show())),
                    );
                    code = 1;
                    break;
                }
            }
            if code == 2 {
                println!("INCONCLUSIVE: the worker died and no single case reproduces it");
            }
            code
        },
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn on_big_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().unwrap_or(2)
}

pub fn single(p: &'static Prop, phase: u64, idx: u64) -> i32 {
    install_hook();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = env_u64("VERIF_SEED", 1);
    on_big_stack(move || {
        let c = case_at(p, thorough, seed, phase, idx);
        match evaluate(p, &c, &mut Obs::default()) {
            Verdict::Held => 0,
            Verdict::Violated(_) => 1,
            Verdict::HarnessError(_) => 2,
        }
    })
}

pub fn replay(p: &'static Prop, file: &str) -> i32 {
    install_hook();
    let text = std::fs::read_to_string(file).expect("replay file");
    let file = file.to_string();
    on_big_stack(move || {
        let c = Case::parse(&text);
        let mut obs = Obs::default();
        match evaluate(p, &c, &mut obs) {
            Verdict::Held => {
                println!("held; observed {:?}", obs.counts);
                0
            },
            Verdict::Violated(m) => {
                println!("VIOLATION property={} replay={}\n  {}", p.id, file, m);
                1
            },
            Verdict::HarnessError(m) => {
                println!("harness error: {m}");
                2
            },
        }
    })
}
