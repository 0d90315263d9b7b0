//! Case runner: a parent process spreads seeded cases over worker processes, watches them for
//! panics, crashes and hangs, merges what their monitors observed and writes the evidence file.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex, atomic::{AtomicU64, Ordering}, mpsc};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

/// What went wrong in a case.
#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken; the text is the witness.
    Violation(String),
    /// The case could not be judged (harness trouble, environment).
    Inconclusive(String),
}
pub type CaseResult = Result<(), Fail>;
pub fn violation<T>(s: impl Into<String>) -> Result<T, Fail> { Err(Fail::Violation(s.into())) }
pub fn inconclusive<T>(s: impl Into<String>) -> Result<T, Fail> { Err(Fail::Inconclusive(s.into())) }
#[macro_export]
macro_rules! viol { ($($a:tt)*) => { return Err($crate::run::Fail::Violation(format!($($a)*))) } }

/// Per case context: randomness, scratch folder and what the monitors saw.
pub struct Ctx {
    pub rng: Rng,
    pub tier: Tier,
    pub idx: u64,
    pub counters: BTreeMap<String, u64>,
    pub hash: u64,
    pub nontrivial: bool,
    pub log: Vec<String>,
    pub sample: Option<String>,
    pub scratch: Scratch,
    pub verbose: bool,
}
impl Ctx {
    pub fn count(&mut self, k: &str, n: u64) { *self.counters.entry(k.to_string()).or_insert(0) += n; }
    pub fn max(&mut self, k: &str, n: u64) { let e = self.counters.entry(format!("max_{k}")).or_insert(0); *e = (*e).max(n); }
    /// Adds to the identity of the case (used to count distinct cases).
    pub fn mix(&mut self, s: &str) { self.hash = (self.hash ^ crate::fnv(s.as_bytes())).wrapping_mul(0x100000001b3).rotate_left(23); }
    pub fn note(&mut self, s: impl Into<String>) {
        let s = s.into();
        self.mix(&s);
        if self.verbose { eprintln!("{s}"); }
        self.log.push(s);
    }
    pub fn dir(&self) -> PathBuf { self.scratch.0.clone() }
}

/// A scratch folder removed when dropped.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn base() -> PathBuf {
        use std::os::unix::fs::OpenOptionsExt;
        let shm = PathBuf::from("/dev/shm");
        let probe = shm.join(format!("vh-probe-{}", std::process::id()));
        let ok = std::fs::OpenOptions::new().write(true).create(true).custom_flags(libc::O_DIRECT).open(&probe).is_ok();
        let _ = std::fs::remove_file(&probe);
        if ok { shm } else {
            let w = crate::verif_dir().join("work");
            let _ = std::fs::create_dir_all(&w);
            w
        }
    }
    pub fn new(tag: &str) -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let root = std::env::var("VH_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| Self::base());
        let p = root.join(format!("vh-{}-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed), tag));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch folder");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.0.file_name().map(|n| n.to_string_lossy().starts_with("vh-")).unwrap_or(false) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

/// A check: how to make and judge case number `idx`.
pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// seconds one case may take before it is taken for a hang (the confirming rerun gets twice that)
    pub hang_s: u64,
    pub threads: usize,
    pub run: fn(&mut Ctx) -> CaseResult,
    /// named repros: fixed inputs, each run on every check
    pub repros: &'static [(&'static str, fn(&mut Ctx) -> CaseResult)],
    /// counters that must not be zero for the run to count as having observed something
    pub must_see: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
pub fn take_panics() -> Vec<(String, String)> { std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner())) }
fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        // the innermost frame of the code under test or of the harness decides whose panic this is
        let mut site = String::new();
        for l in bt.lines() {
            let l = l.trim();
            if let Some(p) = l.strip_prefix("at ") {
                if p.contains("/axmos-db/src/") || p.contains("harness/src/") {
                    if p.contains("harness/src/run.rs") { continue; }
                    site = p.to_string();
                    break;
                }
            }
        }
        if std::env::var("VH_BT").is_ok() { eprintln!("{bt}"); }
        PANICS.lock().unwrap_or_else(|e| e.into_inner()).push((format!("{loc} ({site})"), msg));
    }));
}

fn run_case(check: &Check, f: fn(&mut Ctx) -> CaseResult, tier: Tier, seed: u64, idx: u64, verbose: bool) -> (Ctx, CaseResult) {
    take_panics();
    let mut ctx = Ctx {
        rng: Rng::for_case(check.id, seed, idx), tier, idx, counters: BTreeMap::new(), hash: 0, nontrivial: false,
        log: Vec::new(), sample: None, scratch: Scratch::new(check.id), verbose,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ctx)));
    let panics = take_panics();
    let res = match r {
        Ok(Ok(())) => match panics.first() {
            Some((l, m)) if l.contains("harness/src/") && !l.contains("axmos-db/src/") => Err(Fail::Inconclusive(format!("harness panic {l}: {m}"))),
            Some((l, m)) => Err(Fail::Violation(format!("panic inside the database at {l}: {m}"))),
            None => Ok(()),
        },
        Ok(Err(Fail::Violation(v))) => Err(Fail::Violation(match panics.first() { Some((l, m)) => format!("{v}\n(panic at {l}: {m})"), None => v })),
        Ok(Err(e)) => Err(e),
        Err(_) => match panics.last() {
            Some((l, m)) if l.contains("axmos-db/src/") => Err(Fail::Violation(format!("panic inside the database at {l}: {m}"))),
            Some((l, m)) => Err(Fail::Inconclusive(format!("harness panic {l}: {m}"))),
            None => Err(Fail::Inconclusive("harness panic".into())),
        },
    };
    (ctx, res)
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c => o.push(c) } }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some(c) => o.push(c), None => {} } } else { o.push(c) }
    }
    o
}
fn witness(ctx: &Ctx, msg: &str) -> String {
    let mut s = format!("{msg}\n--- history of the case (oldest first) ---\n");
    let skip = ctx.log.len().saturating_sub(4000);
    if skip > 0 { s.push_str(&format!("... {skip} earlier lines left out\n")); }
    for l in &ctx.log[skip..] { s.push_str(l); s.push('\n'); }
    s
}

/// Worker: `vh work ID tier seed first stride last` or `vh work ID tier seed repro NAME`.
pub fn worker(check: &Check, tier: Tier, seed: u64, args: &[String]) -> i32 {
    // Keep the protocol on a private descriptor: the code under test prints to stdout.
    let proto = unsafe {
        let fd = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        use std::os::fd::FromRawFd;
        std::fs::File::from_raw_fd(fd)
    };
    let mut out = std::io::BufWriter::new(proto);
    install_panic_hook();
    let mut totals: BTreeMap<String, u64> = BTreeMap::new();
    let mut list: Vec<(u64, fn(&mut Ctx) -> CaseResult)> = Vec::new();
    if args[0] == "repro" {
        let Some(r) = check.repros.iter().find(|r| r.0 == args[1]) else { return 3 };
        list.push((0, r.1));
    } else {
        let (first, stride, last): (u64, u64, u64) = (args[0].parse().unwrap(), args[1].parse().unwrap(), args[2].parse().unwrap());
        let mut i = first;
        while i < last { list.push((i, check.run)); i += stride; }
    }
    let deadline = std::env::var("VH_DEADLINE").ok().and_then(|s| s.parse::<u64>().ok()).map(|s| Instant::now() + Duration::from_secs(s));
    for (idx, f) in list {
        if deadline.is_some_and(|d| Instant::now() > d) { let _ = writeln!(out, "T {idx}"); break; }
        let _ = writeln!(out, "S {idx}");
        let _ = out.flush();
        let (ctx, res) = run_case(check, f, tier, seed, idx, false);
        for (k, v) in &ctx.counters {
            let e = totals.entry(k.clone()).or_insert(0);
            if k.starts_with("max_") { *e = (*e).max(*v) } else { *e += v }
        }
        match res {
            Ok(()) => {
                let _ = writeln!(out, "D {idx} {} {:x}", ctx.nontrivial as u8, ctx.hash);
                if idx < 3 { let s = ctx.sample.clone().unwrap_or_else(|| ctx.log.iter().take(12).cloned().collect::<Vec<_>>().join("\n")); let _ = writeln!(out, "X {}", esc(&s)); }
            }
            Err(Fail::Violation(m)) => { let _ = writeln!(out, "V {idx} {}", esc(&witness(&ctx, &m))); }
            Err(Fail::Inconclusive(m)) => { let _ = writeln!(out, "I {idx} {}", esc(&witness(&ctx, &m))); }
        }
        let _ = out.flush();
    }
    for (k, v) in totals { let _ = writeln!(out, "C {k} {v}"); }
    let _ = writeln!(out, "E");
    let _ = out.flush();
    drop(out);
    // Threads of a broken database may still be running: leave without waiting for them.
    unsafe { libc::_exit(0) }
}

enum Ev { Line(usize, String), Eof(usize) }

struct W { child: Child, cur: Option<u64>, since: Instant, ended: bool, done: bool, next: u64, last: u64, stride: u64, repro: Option<String> }

fn spawn(check: &Check, tier: Tier, seed: u64, args: &[String], scratch: &Path, n: usize, tx: &mpsc::Sender<Ev>, deadline: u64) -> Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg("work").arg(check.id).arg(if tier == Tier::Quick { "quick" } else { "thorough" }).arg(seed.to_string()).args(args);
    c.env("VH_SCRATCH", scratch).env("VH_DEADLINE", deadline.to_string()).stdin(Stdio::null()).stdout(Stdio::piped());
    c.stderr(std::fs::OpenOptions::new().create(true).append(true).open(scratch.join(format!("stderr-{n}"))).map(Stdio::from).unwrap_or(Stdio::null()));
    let mut ch = c.spawn().expect("spawn worker");
    let so = ch.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(so).lines() { match l { Ok(l) => { if tx.send(Ev::Line(n, l)).is_err() { return; } } Err(_) => break } }
        let _ = tx.send(Ev::Eof(n));
    });
    ch
}

pub struct Finding { pub repro: String, pub property: String, pub desc: String }
pub fn known_findings() -> Vec<Finding> {
    let mut v = Vec::new();
    for l in std::fs::read_to_string(crate::verif_dir().join("known_findings.txt")).unwrap_or_default().lines() {
        let Some(rest) = l.strip_prefix("finding: ") else { continue };
        let (head, desc) = rest.split_once(" :: ").unwrap_or((rest, ""));
        let (mut repro, mut property) = (String::new(), String::new());
        for kv in head.split_whitespace() {
            if let Some(x) = kv.strip_prefix("repro=") { repro = x.into(); }
            if let Some(x) = kv.strip_prefix("property=") { property = x.into(); }
        }
        v.push(Finding { repro, property, desc: desc.into() });
    }
    v
}

fn sanitizer_tail(scratch: &Path, n: usize) -> String {
    let s = std::fs::read(scratch.join(format!("stderr-{n}"))).unwrap_or_default();
    let s = String::from_utf8_lossy(&s).to_string();
    let lines: Vec<&str> = s.lines().collect();
    let start = lines.iter().position(|l| l.contains("ERROR: AddressSanitizer") || l.contains("WARNING: ThreadSanitizer")).unwrap_or(lines.len().saturating_sub(20));
    lines[start..].iter().take(40).cloned().collect::<Vec<_>>().join("\n")
}

/// Parent: runs the whole check and returns the exit code.
/// Long runs of one character and long texts shortened, for the evidence file.
fn brief(s: &str) -> String {
    let mut o = String::new();
    let (mut last, mut run) = ('\0', 0);
    for c in s.chars() {
        if c == last { run += 1 } else { if run > 12 { o += &format!("~{run}") } last = c; run = 1 }
        if run <= 12 { o.push(c) }
        if o.len() > 1500 { o += " ..."; break }
    }
    o
}

/// How much slower than usual the harness may be (builds with a sanitizer).
pub fn slack() -> u64 { std::env::var("VH_SLACK").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
pub fn check(check: &'static Check, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let total = std::env::var("VH_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { check.quick } else { check.thorough });
    let budget: u64 = std::env::var("VH_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 240 } else { 3000 });
    let scratch = Scratch::new(&format!("{}-parent", check.id));
    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<W> = Vec::new();
    let nw = (check.threads as u64).min(total.max(1));
    let mut queue: Vec<String> = check.repros.iter().map(|r| r.0.to_string()).rev().collect();
    for i in 0..nw {
        let args = vec![i.to_string(), nw.to_string(), total.to_string()];
        let n = ws.len();
        let child = spawn(check, tier, seed, &args, &scratch.0, n, &tx, budget);
        ws.push(W { child, cur: None, since: Instant::now(), ended: false, done: false, next: i, last: total, stride: nw, repro: None });
    }
    let (mut evals, mut nontriv, mut hashes, mut samples) = (0u64, 0u64, HashSet::new(), Vec::<String>::new());
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut violations: Vec<(String, String)> = Vec::new(); // (case, witness)
    let mut inconcl: Vec<String> = Vec::new();
    let mut repro_fail: BTreeMap<String, String> = BTreeMap::new();
    let mut repro_ok = 0u64;
    let mut timed_out = false;
    let mut slowest = (0u64, Duration::ZERO);
    let mut repro_live = 0usize;
    let known = known_findings();
    let listed = |name: &str| known.iter().any(|f| f.property == check.id && f.repro == name);
    // sanitizer builds are slower
    let hang_s = check.hang_s * slack();
    loop {
        // keep a few repro workers going beside the case workers
        while violations.is_empty() && repro_live < 4 && !queue.is_empty() {
            let name = queue.pop().unwrap();
            let n = ws.len();
            let child = spawn(check, tier, seed, &["repro".into(), name.clone()], &scratch.0, n, &tx, budget);
            ws.push(W { child, cur: None, since: Instant::now(), ended: false, done: false, next: 0, last: 0, stride: 1, repro: Some(name) });
            repro_live += 1;
        }
        if ws.iter().all(|w| w.done) && queue.is_empty() { break; }
        if !violations.is_empty() || repro_fail.keys().any(|n| !listed(n)) { break; }
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Ev::Line(n, l)) => {
                let (k, rest) = l.split_once(' ').unwrap_or((&l, ""));
                match k {
                    "S" => { ws[n].cur = rest.parse().ok(); ws[n].since = Instant::now(); }
                    "D" | "V" | "I" => {
                        let (i, rest) = rest.split_once(' ').unwrap_or((rest, ""));
                        let idx: u64 = i.parse().unwrap_or(0);
                        ws[n].cur = None;
                        ws[n].next = idx + ws[n].stride;
                        let rep = ws[n].repro.clone();
                        match (k, rep) {
                            ("D", None) => {
                                evals += 1;
                                let t = ws[n].since.elapsed();
                                if t > slowest.1 { slowest = (idx, t); }
                                let (a, h) = rest.split_once(' ').unwrap_or(("0", "0"));
                                if a == "1" && hashes.insert(h.to_string()) { nontriv += 1; }
                            }
                            ("D", Some(_)) => repro_ok += 1,
                            ("V", None) => violations.push((format!("case {idx}"), unesc(rest))),
                            ("V", Some(name)) => { repro_fail.insert(name, unesc(rest)); }
                            (_, None) => inconcl.push(format!("case {idx}: {}", unesc(rest))),
                            (_, Some(name)) => inconcl.push(format!("repro {name}: {}", unesc(rest))),
                        }
                    }
                    "X" => if ws[n].repro.is_none() && samples.len() < 3 { samples.push(unesc(rest)) },
                    "C" => if let Some((k, v)) = rest.rsplit_once(' ') {
                        if ws[n].repro.is_none() {
                            let v: u64 = v.parse().unwrap_or(0);
                            let e = counters.entry(k.to_string()).or_insert(0);
                            if k.starts_with("max_") { *e = (*e).max(v) } else { *e += v }
                        }
                    },
                    "T" => timed_out = true,
                    "E" => ws[n].ended = true,
                    _ => {}
                }
            }
            Ok(Ev::Eof(n)) => {
                let st = ws[n].child.wait();
                ws[n].done = true;
                if ws[n].repro.is_some() { repro_live -= 1; }
                if !ws[n].ended {
                    use std::os::unix::process::ExitStatusExt;
                    let sig = st.as_ref().ok().and_then(|s| s.signal());
                    let code = st.as_ref().ok().and_then(|s| s.code());
                    let msg = format!("worker ended early (signal {sig:?}, code {code:?}) in case {:?}\n{}", ws[n].cur, sanitizer_tail(&scratch.0, n));
                    if sig == Some(libc::SIGKILL) || ws[n].cur.is_none() { inconcl.push(msg) }
                    else if let Some(name) = ws[n].repro.clone() { repro_fail.insert(name, msg); }
                    else { violations.push((format!("case {}", ws[n].cur.unwrap()), format!("the process crashed: {msg}"))) }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        for n in 0..ws.len() {
            if !violations.is_empty() || repro_fail.keys().any(|n| !listed(n)) { break; }
            if !ws[n].done && ws[n].cur.is_some() && ws[n].since.elapsed() > Duration::from_secs(hang_s) {
                let idx = ws[n].cur.unwrap();
                let dump = stacks(ws[n].child.id());
                let _ = ws[n].child.kill();
                ws[n].ended = true; // handled here
                ws[n].cur = None;
                // Confirm alone, with a longer limit, before calling it a hang.
                let args: Vec<String> = match &ws[n].repro { Some(r) => vec!["repro".into(), r.clone()], None => vec![idx.to_string(), "1".into(), (idx + 1).to_string()] };
                match confirm(check, tier, seed, &args, &scratch.0, 1000 + n) {
                    None => {
                        let m = format!("no progress for {} s and again for {} s when rerun alone (hang)\n{dump}", hang_s, 2 * hang_s);
                        match ws[n].repro.clone() { Some(r) => { repro_fail.insert(r, m); } None => violations.push((format!("case {idx}"), m)) }
                    }
                    Some(lines) => {
                        let mut verdict = false;
                        for l in lines {
                            if let Some(r) = l.strip_prefix("V ") {
                                let m = unesc(r.split_once(' ').unwrap_or((r, "")).1);
                                match ws[n].repro.clone() { Some(r) => { repro_fail.insert(r, m); } None => violations.push((format!("case {idx}"), m)) }
                                verdict = true;
                            }
                        }
                        if !verdict {
                            slowest = (idx, Duration::from_secs(hang_s));
                            counters.entry("slow_cases_rerun".into()).and_modify(|v| *v += 1).or_insert(1);
                            if ws[n].repro.is_none() && idx + ws[n].stride < ws[n].last {
                                let args = vec![(idx + ws[n].stride).to_string(), ws[n].stride.to_string(), ws[n].last.to_string()];
                                let m = ws.len();
                                let left = budget.saturating_sub(t0.elapsed().as_secs());
                                let child = spawn(check, tier, seed, &args, &scratch.0, m, &tx, left);
                                let (st, la) = (ws[n].stride, ws[n].last);
                                ws.push(W { child, cur: None, since: Instant::now(), ended: false, done: false, next: idx + st, last: la, stride: st, repro: None });
                            }
                        }
                    }
                }
                // nobody listened to the others in the meantime
                for w in ws.iter_mut() { w.since = Instant::now(); }
            }
        }
    }
    for w in ws.iter_mut() { if !w.done { let _ = w.child.kill(); let _ = w.child.wait(); } }
    drop(rx);
    // Verdict.
    let mut known_seen = Vec::new();
    for (name, msg) in &repro_fail {
        match known.iter().find(|f| f.property == check.id && f.repro == *name) {
            Some(f) => { known_seen.push(name.clone()); println!("KNOWN-FINDING: property={} {} [{}]", check.id, f.desc, name); }
            None => violations.push((format!("repro {name}"), msg.clone())),
        }
    }
    let missing: Vec<&str> = check.must_see.iter().filter(|k| counters.get(**k).copied().unwrap_or(0) == 0).cloned().collect();
    let ev_dir = crate::verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&ev_dir);
    let mut replay = String::new();
    if let Some((case, w)) = violations.first() {
        let p = ev_dir.join(format!("replay-{}.txt", check.id));
        let arg = if let Some(n) = case.strip_prefix("case ") { n.to_string() } else { case.clone() };
        let _ = std::fs::write(&p, format!("property {}\n{case}, VERIF_SEED={seed}\nreplay: cd /verif && . ./env.sh && cargo run --manifest-path harness/Cargo.toml -- replay {} {} {seed} {arg}\n\n{w}\n",
            check.id, check.id, if tier == Tier::Quick { "quick" } else { "thorough" }));
        replay = p.display().to_string();
    }
    let mut j = String::from("{\n");
    let q = crate::jstr;
    j += &format!(" \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": {},\n", q(check.id), q(if tier == Tier::Quick { "quick" } else { "thorough" }), q(check.level));
    j += &format!(" \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {nontriv},\n  \"rule\": {},\n", q(check.rule));
    j += &format!("  \"samples\": [{}],\n", samples.iter().map(|s| q(&brief(s))).collect::<Vec<_>>().join(", "));
    j += &format!("  \"observed\": {{{}}},\n", counters.iter().map(|(k, v)| format!("{}: {v}", q(k))).collect::<Vec<_>>().join(", "));
    j += &format!("  \"repros_run\": {}, \"repros_holding\": {repro_ok}, \"known_findings_seen\": [{}],\n", check.repros.len(), known_seen.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "));
    j += &format!("  \"inconclusive\": {}, \"stopped_by_time_budget\": {timed_out}\n }},\n", inconcl.len());
    if let Ok(s) = std::env::var("VH_SANITIZERS") { j += &format!(" \"sanitizers\": {},\n", q(&s)); }
    j += &format!(" \"assumptions\": [{}],\n", check.assumptions.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"violations\": {},\n \"wall_s\": {:.2}\n}}\n", violations.len(), t0.elapsed().as_secs_f64());
    let _ = std::fs::write(ev_dir.join(format!("{}.json", check.id)), j);
    for i in inconcl.iter().take(3) { println!("INCONCLUSIVE: {}", i.chars().take(1500).collect::<String>()); }
    println!("{}: {evals} cases, {nontriv} distinct non-trivial, {} repros ({} known findings), {:.1}s (slowest case {}: {:.1}s)", check.id, check.repros.len(), known_seen.len(), t0.elapsed().as_secs_f64(), slowest.0, slowest.1.as_secs_f64());
    if let Some((case, w)) = violations.first() {
        println!("{case}: {}", w.lines().take(30).collect::<Vec<_>>().join("\n"));
        println!("VIOLATION property={} replay={replay}", check.id);
        return 1;
    }
    if inconcl.len() as u64 * 50 > evals || evals == 0 || !missing.is_empty() {
        println!("{}: no verdict ({} inconclusive, {evals} cases, unseen: {missing:?})", check.id, inconcl.len());
        return 2;
    }
    0
}

fn stacks(pid: u32) -> String {
    // our own child: gdb is not needed, the kernel's view of where its threads wait is enough
    let mut s = String::new();
    if let Ok(rd) = std::fs::read_dir(format!("/proc/{pid}/task")) {
        for t in rd.flatten() {
            let st = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
            s += &st.split(' ').take(3).collect::<Vec<_>>().join(" ");
            s.push('\n');
        }
    }
    s
}

fn confirm(check: &Check, tier: Tier, seed: u64, args: &[String], scratch: &Path, n: usize) -> Option<Vec<String>> {
    let (tx, rx) = mpsc::channel();
    let mut ch = spawn(check, tier, seed, args, scratch, n, &tx, 100000);
    let end = Instant::now() + Duration::from_secs(2 * check.hang_s * slack());
    let mut lines = Vec::new();
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Ev::Line(_, l)) => lines.push(l),
            Ok(Ev::Eof(_)) => { let _ = ch.wait(); return Some(lines); }
            Err(_) => if Instant::now() > end { let _ = ch.kill(); let _ = ch.wait(); return None; },
        }
    }
}

/// `vh replay ID tier seed (IDX | repro NAME)`: runs one case in this process, verbosely.
pub fn replay(check: &Check, tier: Tier, seed: u64, args: &[String]) -> i32 {
    install_panic_hook();
    let (idx, f) = if args[0] == "repro" {
        (0, check.repros.iter().find(|r| r.0 == args[1]).expect("repro").1)
    } else { (args[0].parse().unwrap(), check.run) };
    let (ctx, r) = run_case(check, f, tier, seed, idx, std::env::var("VH_QUIET").is_err());
    for (k, v) in &ctx.counters { eprintln!("  {k} = {v}"); }
    match r {
        Ok(()) => { eprintln!("OK"); 0 }
        Err(e) => { match e { Fail::Violation(m) => eprintln!("VIOLATED: {m}"), Fail::Inconclusive(m) => eprintln!("INCONCLUSIVE: {m}") }; unsafe { libc::_exit(1) } }
    }
}

/// Shared helper: run `f` on a helper thread with a time limit; None when it does not come back.
pub fn with_timeout<T: Send + 'static>(limit: Duration, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || { let _ = tx.send(f()); });
    rx.recv_timeout(limit).ok()
}
pub type Shared<T> = Arc<Mutex<T>>;
