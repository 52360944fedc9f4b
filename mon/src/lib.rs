//! Shared driver of the runtime monitors: deterministic workload generation, process isolation,
//! verdict discipline and evidence.
//!
//! A check is a function `case(&mut Rng, &mut Obs) -> Verdict` that drives the real code with one
//! generated workload and lets monitors watch it. Cases are numbered; case `k` of seed `s` is always
//! the same workload. The parent process starts several workers, each of which runs its share of the
//! case numbers; a worker that dies on a signal or makes no progress is a *suspicion* that is only
//! turned into a verdict by running that one case again, alone, in a fresh process.
pub mod rng;
pub use rng::Rng;

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// A violated property: `sig` identifies *what* failed (stable, used to match known findings),
/// `detail` is the witness.
#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub detail: String,
}

pub type Verdict = Result<(), Violation>;

pub fn violation<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { sig: sig.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { return Err($crate::Violation { sig: ($sig).to_string(), detail: format!($($arg)*) }); }
    };
}

/// What the monitors of one worker observed.
#[derive(Default)]
pub struct Obs {
    pub events: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    cur: String,
    cur_hash: u64,
    nontrivial: bool,
    trace_on: bool,
}

impl Obs {
    /// Count one observed event of the named class
    pub fn ev(&mut self, name: &str) {
        self.evn(name, 1)
    }
    pub fn evn(&mut self, name: &str, n: u64) {
        if let Some(v) = self.events.get_mut(name) {
            *v += n;
        } else {
            self.events.insert(name.to_string(), n);
        }
    }
    /// Append a line to the trace of the current case. The trace is the witness of a violation.
    pub fn step(&mut self, f: impl FnOnce() -> String) {
        if self.trace_on {
            let s = f();
            self.cur_hash = fnv(self.cur_hash, s.as_bytes());
            if std::env::var_os("MON_LIVE").is_some() { eprintln!("{s}"); }
            if self.cur.len() < 60_000 {
                self.cur.push_str(&s);
                self.cur.push('\n');
            }
        }
    }
    /// The case is too large for a trace (it has one when it is replayed with MON_TRACE)
    pub fn large(&mut self, id: u64) {
        self.trace_on = std::env::var_os("MON_TRACE").is_some();
        self.mix(&id.to_le_bytes());
        self.ev("large_case");
    }
    /// Mix something into the identity of this case
    pub fn mix(&mut self, bytes: &[u8]) {
        self.cur_hash = fnv(self.cur_hash, bytes);
    }
    /// Marks the current case as non-trivial (by the rule of the check)
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub fn fnv(mut h: u64, b: &[u8]) -> u64 {
    if h == 0 {
        h = 0xcbf29ce484222325;
    }
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs `f`; a panic becomes `Err(message @ location)`.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// Runs an operation that the property requires to succeed: a panic is a violation.
pub fn must<T>(sig: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    attempt(f).map_err(|e| Violation { sig: format!("{sig}:panic"), detail: format!("{sig}: unexpected panic: {e}") })
}

/// Runs an operation that the property requires to be refused.
pub fn must_refuse<T>(sig: &str, f: impl FnOnce() -> T) -> Result<(), Violation> {
    match attempt(f) {
        Err(_) => Ok(()),
        Ok(_) => violation(format!("{sig}:accepted"), format!("{sig}: an invalid request was accepted")),
    }
}

pub struct Property {
    pub id: &'static str,
    /// how cases are generated, and what makes one non-trivial
    pub rule: &'static str,
    /// level_note style assumptions
    pub assumptions: &'static [&'static str],
    /// number of cases in the quick / thorough tier
    pub quick_cases: u64,
    pub thorough_cases: u64,
    pub case: fn(&mut Rng, &mut Obs) -> Verdict,
    /// event classes that have to be observed in a run; a run that misses one observed too little
    pub required_events: &'static [&'static str],
}

struct Args {
    id: String,
    tier: String,
    seed: u64,
    case: Option<u64>,
    worker: Option<(u64, u64)>,
    budget: f64,
    out: Option<String>,
    replay_dir: String,
    progress: Option<String>,
    cases: Option<u64>,
    workers: Option<u64>,
    inline: bool,
    tool: Option<String>,
    sanitizer_only: bool,
    known: Option<String>,
    cmd: Option<String>,
}

fn parse_args() -> Args {
    let mut a = Args {
        id: String::new(),
        tier: "quick".into(),
        seed: 1,
        case: None,
        worker: None,
        budget: 60.0,
        out: None,
        replay_dir: ".".into(),
        progress: None,
        cases: None,
        workers: None,
        inline: false,
        tool: None,
        sanitizer_only: false,
        known: None,
        cmd: None,
    };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < v.len() {
        let nxt = |i: usize| v.get(i + 1).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--tier" => { a.tier = nxt(i); i += 1 }
            "--seed" => { a.seed = nxt(i).parse().expect("seed"); i += 1 }
            "--case" => { a.case = Some(nxt(i).parse().expect("case")); i += 1 }
            "--cases" => { a.cases = Some(nxt(i).parse().expect("cases")); i += 1 }
            "--workers" => { a.workers = Some(nxt(i).parse().expect("workers")); i += 1 }
            "--budget" => { a.budget = nxt(i).parse().expect("budget"); i += 1 }
            "--out" => { a.out = Some(nxt(i)); i += 1 }
            "--replay-dir" => { a.replay_dir = nxt(i); i += 1 }
            "--progress" => { a.progress = Some(nxt(i)); i += 1 }
            "--tool" => { a.tool = Some(nxt(i)); i += 1 }
            "--known" => { a.known = Some(nxt(i)); i += 1 }
            "--cmd" => { a.cmd = Some(nxt(i)); i += 1 }
            "--inline" => a.inline = true,
            // reports of the instrumentation decide, everything else is inconclusive
            "--sanitizer-only" => a.sanitizer_only = true,
            "--worker" => {
                let s = nxt(i);
                let (x, y) = s.split_once('/').expect("worker k/n");
                a.worker = Some((x.parse().unwrap(), y.parse().unwrap()));
                i += 1
            }
            s if !s.starts_with("--") => a.id = s.to_string(),
            s => { eprintln!("unknown argument {s}"); std::process::exit(3) }
        }
        i += 1;
    }
    a
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if msg.contains("unsafe precondition") || msg.contains("misaligned pointer") || msg.contains("null pointer dereference") {
            // these cannot be caught: the process is about to abort
            eprintln!("ERROR: undefined behaviour caught by a debug assertion: {msg} @ {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
    }));
}

fn case_rng(seed: u64, case: u64) -> Rng {
    Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case.wrapping_mul(0xD1B54A32D192ED03) ^ 0x5851F42D4C957F2D)
}

/// Run one case. A panic that escapes the case function outside of `must`/`attempt` is a violation
/// too: every harness keeps calls that may legitimately be refused inside `attempt`.
fn run_case(p: &Property, seed: u64, case: u64, obs: &mut Obs) -> Verdict {
    obs.cur.clear();
    obs.cur_hash = 0;
    obs.nontrivial = false;
    // formatting a trace is most of the work inside of an interpreter
    obs.trace_on = !cfg!(miri) || std::env::var_os("MON_TRACE").is_some();
    let mut rng = case_rng(seed, case);
    let r = catch_unwind(AssertUnwindSafe(|| (p.case)(&mut rng, obs)));
    match r {
        Ok(Ok(())) => {
            if obs.nontrivial {
                let h = obs.cur_hash;
                obs.distinct.insert(h);
                if obs.samples.len() < 3 {
                    let s: String = obs.cur.chars().take(900).collect();
                    obs.samples.push(format!("case {case}: {s}"));
                }
            }
            Ok(())
        }
        Ok(Err(v)) => Err(v),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            violation("panic", format!("unexpected panic: {m}"))
        }
    }
}

/// JSON string escape
pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// The worker -> parent protocol is line based: fields are tab separated, newlines escaped.
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

const MAX_VIOLATIONS_PER_WORKER: usize = 40;

/// A case that runs away with memory dies instead of the sandbox. Sanitizers reserve address space
/// and switch this off with MON_MEM_GB=0.
fn limit_memory() {
    #[cfg(not(miri))]
    {
        let gb: u64 = std::env::var("MON_MEM_GB").ok().and_then(|s| s.parse().ok()).unwrap_or(3);
        if gb > 0 {
            let lim = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
            unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
        }
    }
}

fn worker_main(p: &Property, a: &Args, k: u64, n: u64, total: u64) {
    limit_memory();
    install_hook();
    let start = Instant::now();
    let mut obs = Obs::default();
    let mut evals = 0u64;
    let mut cut = false;
    let progress = a.progress.as_ref().map(|f| std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(f).expect("progress file"));
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    let mut reported = 0;
    let mut case = k;
    while case < total {
        if start.elapsed().as_secs_f64() > a.budget {
            cut = true;
            break;
        }
        if let Some(f) = &progress {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(&case.to_le_bytes(), 0);
        }
        let r = run_case(p, a.seed, case, &mut obs);
        evals += 1;
        if let Err(v) = r {
            let c = seen.entry(v.sig.clone()).or_insert(0);
            *c += 1;
            if *c <= 2 && reported < MAX_VIOLATIONS_PER_WORKER {
                reported += 1;
                println!("V\t{}\t{}\t{}\t{}", case, esc(&v.sig), esc(&v.detail), esc(&obs.cur));
            }
        }
        case += n;
    }
    if let Some(f) = &progress {
        use std::os::unix::fs::FileExt;
        let _ = f.write_all_at(&u64::MAX.to_le_bytes(), 0);
    }
    println!("N\t{}\t{}", evals, cut as u8);
    for (e, c) in &obs.events {
        println!("E\t{}\t{}", esc(e), c);
    }
    for (s, c) in &seen {
        println!("C\t{}\t{}", esc(s), c);
    }
    let mut buf = String::new();
    for d in &obs.distinct {
        let _ = write!(buf, "{:x} ", d);
    }
    println!("D\t{}", buf.trim_end());
    for s in &obs.samples {
        println!("S\t{}", esc(s));
    }
    println!("OK");
    let _ = std::io::stdout().flush();
}

/// How long one case may take before the watchdog becomes suspicious. Cases normally take
/// milliseconds.
const STALL: Duration = Duration::from_secs(30);

struct Found {
    case: Option<u64>,
    sig: String,
    detail: String,
    trace: String,
}

/// Runs one case alone in a fresh process. Ok(None): held. Ok(Some): violated. Err: no verdict.
fn isolate(a: &Args, case: u64) -> Result<Option<Found>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut ch = Command::new(exe)
        .args([&a.id, "--tier", &a.tier, "--seed", &a.seed.to_string(), "--worker", &format!("{}/{}", case, u64::MAX), "--cases", &(case + 1).to_string(), "--budget", "100000"])
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let h1 = std::thread::spawn(move || { let mut b = Vec::new(); let _ = so.read_to_end(&mut b); b });
    let h2 = std::thread::spawn(move || { let mut b = Vec::new(); let _ = se.read_to_end(&mut b); b });
    let t = Instant::now();
    loop {
        match ch.try_wait().map_err(|e| e.to_string())? {
            Some(st) => {
                let out = String::from_utf8_lossy(&h1.join().unwrap()).to_string();
                let err = String::from_utf8_lossy(&h2.join().unwrap()).to_string();
                for l in out.lines() {
                    if let Some(rest) = l.strip_prefix("V\t") {
                        let f: Vec<&str> = rest.split('\t').collect();
                        return Ok(Some(Found { case: Some(case), sig: unesc(f[1]), detail: unesc(f[2]), trace: unesc(f.get(3).unwrap_or(&"")) }));
                    }
                }
                if out.lines().last() == Some("OK") {
                    return Ok(None);
                }
                let tail: String = err.chars().rev().take(6000).collect::<Vec<_>>().into_iter().rev().collect();
                let what = sanitizer_summary(&err);
                return Ok(Some(Found {
                    case: Some(case),
                    sig: format!("crash:{}", what.clone().unwrap_or_else(|| "process died".into())),
                    detail: format!("the process running this case died: {st}; {}", what.unwrap_or_default()),
                    trace: tail,
                }));
            }
            None => {
                if t.elapsed() > STALL * 2 {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Ok(Some(Found {
                        case: Some(case),
                        sig: "no-progress".into(),
                        detail: format!("the case makes no progress: alone in a fresh process it did not end within {:?}; cases of this check normally take milliseconds", STALL * 2),
                        trace: String::new(),
                    }));
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    }
}

/// Does the signature stem from a report of a sanitizer?
fn is_report(sig: &str) -> bool {
    (sig.contains("Sanitizer") && !sig.contains("stack-overflow") && !sig.contains("allocation-size-too-big") && !sig.contains("out-of-memory"))
        || sig.contains("Undefined Behavior") || sig.contains("undefined behaviour")
}

/// First line of a sanitizer report, if there is one
pub fn sanitizer_summary(err: &str) -> Option<String> {
    for l in err.lines() {
        if l.contains("ERROR: AddressSanitizer") || l.contains("WARNING: ThreadSanitizer") || l.contains("Undefined Behavior") || l.contains("ERROR: LeakSanitizer") || l.contains("WARNING: MemorySanitizer") || l.contains("ERROR: undefined behaviour caught") {
            let s = l.trim();
            // strip pids and addresses, so that the signature is stable
            let mut o = String::new();
            for w in s.split_whitespace() {
                if w.starts_with("==") || w.starts_with("0x") || w.starts_with("(pid") {
                    continue;
                }
                if !o.is_empty() { o.push(' ') }
                o.push_str(w);
            }
            return Some(o.chars().take(120).collect());
        }
        if l.starts_with("thread '") && l.contains("panicked") || l.contains("unsafe precondition") || l.contains("memory allocation of") {
            return Some(l.trim().chars().take(160).collect());
        }
    }
    None
}

/// Known findings: lines `<id>\t<signature>\t<description>`; a violation is known if its property
/// and signature match exactly.
fn load_known(path: &Option<String>, id: &str) -> Vec<(String, String)> {
    let Some(p) = path else { return vec![] };
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let mut v = vec![];
    for l in s.lines() {
        let l = l.trim_end();
        if let Some(rest) = l.strip_prefix("finding: property=") {
            let mut it = rest.splitn(3, '\t');
            let (pid, sig, desc) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if pid == id {
                v.push((sig.to_string(), desc.to_string()));
            }
        }
    }
    v
}

pub fn main(props: &[Property]) -> ! {
    let a = parse_args();
    if a.id == "--list" || a.id.is_empty() {
        for p in props {
            println!("{}", p.id);
        }
        std::process::exit(0);
    }
    let Some(p) = props.iter().find(|p| p.id == a.id) else {
        eprintln!("unknown property {}", a.id);
        std::process::exit(3)
    };
    let total = a.cases.unwrap_or(if a.tier == "thorough" { p.thorough_cases } else { p.quick_cases });
    if a.inline {
        // run inside an interpreter or under a tool that watches this very process
        install_hook();
        let mut obs = Obs::default();
        let mut bad = 0;
        let (lo, hi, by) = match (a.case, a.worker) { (Some(c), _) => (c, c + 1, 1), (_, Some((k, n))) => (k, total, n), _ => (0, total, 1) };
        let t = Instant::now();
        let mut n = 0u64;
        for c in (lo..hi).step_by(by as usize) {
            if a.case.is_none() && t.elapsed().as_secs_f64() > a.budget { break }
            if std::env::var_os("MON_TRACE").is_some() || std::env::var_os("MON_PROGRESS").is_some() { eprintln!("case {c}"); }
            if let Err(v) = run_case(p, a.seed, c, &mut obs) {
                bad += 1;
                println!("case {c}: {}: {}\n{}", v.sig, v.detail, obs.cur);
            }
            n += 1;
        }
        println!("INLINE\t{}\t{}\t{}", n, obs.distinct.len(), bad);
        for (e, c) in &obs.events {
            println!("E\t{}\t{}", esc(e), c);
        }
        std::process::exit(if bad > 0 { 1 } else { 0 });
    }
    if let Some((k, n)) = a.worker {
        worker_main(p, &a, k, n, total);
        std::process::exit(0);
    }
    if let Some(c) = a.case {
        match isolate(&a, c) {
            Ok(None) => { println!("case {c}: held"); std::process::exit(0) }
            Ok(Some(f)) => { println!("case {c}: VIOLATED {}\n{}\n{}", f.sig, f.detail, f.trace); std::process::exit(1) }
            Err(e) => { println!("case {c}: no verdict: {e}"); std::process::exit(3) }
        }
    }
    let start = Instant::now();
    let nw = a.workers.unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8)).max(1).min(total.max(1));
    let tmp = std::env::temp_dir().join(format!("mon-{}-{}", a.id, std::process::id()));
    std::fs::create_dir_all(&tmp).expect("scratch directory");
    let exe = std::env::current_exe().expect("current_exe");
    let mut kids = vec![];
    for k in 0..nw {
        let pf = tmp.join(format!("p{k}"));
        std::fs::write(&pf, u64::MAX.to_le_bytes()).unwrap();
        let of = std::fs::File::create(tmp.join(format!("o{k}"))).unwrap();
        let ep = tmp.join(format!("e{k}"));
        let ef = std::fs::File::create(&ep).unwrap();
        let ch = Command::new(&exe)
            .args([&a.id, "--tier", &a.tier, "--seed", &a.seed.to_string(), "--worker", &format!("{k}/{nw}"), "--cases", &total.to_string(), "--budget", &a.budget.to_string(), "--progress", pf.to_str().unwrap()])
            .stdout(Stdio::from(of))
            .stderr(Stdio::from(ef))
            .spawn()
            .expect("spawn worker");
        kids.push((ch, pf, ep, u64::MAX, Instant::now(), false));
    }
    // watch
    let mut suspects: Vec<u64> = vec![];
    let mut reports: Vec<Found> = vec![];
    loop {
        let mut running = false;
        for (ch, pf, ef, last, since, done) in kids.iter_mut() {
            if *done { continue }
            match ch.try_wait().expect("wait") {
                Some(st) => {
                    *done = true;
                    if !st.success() {
                        let c = read_progress(pf);
                        // the report of a sanitizer needs no second observation (and a race may not give one)
                        let err = String::from_utf8_lossy(&std::fs::read(&*ef).unwrap_or_default()).to_string();
                        match sanitizer_summary(&err) {
                            Some(what) if is_report(&what) => reports.push(Found {
                                case: Some(c).filter(|c| *c != u64::MAX),
                                sig: format!("crash:{what}"),
                                detail: format!("the process running this case died: {st}; {what}"),
                                trace: err.chars().take(20_000).collect(),
                            }),
                            _ if c != u64::MAX => suspects.push(c),
                            _ => {}
                        }
                    }
                }
                None => {
                    running = true;
                    let c = read_progress(pf);
                    if c != *last {
                        *last = c;
                        *since = Instant::now();
                    } else if since.elapsed() > STALL {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        *done = true;
                        if c != u64::MAX { suspects.push(c) }
                    }
                }
            }
        }
        if !running { break }
        std::thread::sleep(Duration::from_millis(10));
    }
    // merge
    let mut events: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut evals = 0u64;
    let mut cut = 0;
    let mut complete = 0;
    let mut found: Vec<Found> = vec![];
    let reported = reports.len() as u64;
    found.append(&mut reports);
    let mut sigcount: BTreeMap<String, u64> = BTreeMap::new();
    for k in 0..nw {
        let s = std::fs::read(tmp.join(format!("o{k}"))).unwrap_or_default();
        let s = String::from_utf8_lossy(&s).to_string();
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "V" if f.len() >= 5 => found.push(Found { case: f[1].parse().ok(), sig: unesc(f[2]), detail: unesc(f[3]), trace: unesc(f[4]) }),
                "N" => { evals += f[1].parse::<u64>().unwrap_or(0); cut += (f[2] == "1") as u64 }
                "E" => *events.entry(unesc(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "C" => *sigcount.entry(unesc(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "D" => distinct.extend(f.get(1).unwrap_or(&"").split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok())),
                "S" => if samples.len() < 4 { samples.push(unesc(f[1])) },
                "OK" => complete += 1,
                _ => {}
            }
        }
    }
    let mut inconclusive: Vec<String> = vec![];
    let mut stuck = false;
    let isolating = Instant::now();
    for c in &suspects {
        // every case that makes no progress costs a minute to confirm: one is enough
        if stuck || isolating.elapsed() > Duration::from_secs(200) {
            inconclusive.push(format!("a worker died or stalled at case {c}: not examined"));
            continue;
        }
        match isolate(&a, *c) {
            Ok(Some(f)) if a.sanitizer_only && !is_report(&f.sig) => inconclusive.push(format!("case {c}: {}: {}", f.sig, f.detail)),
            Ok(Some(f)) => { stuck |= f.sig == "no-progress";  *sigcount.entry(f.sig.clone()).or_insert(0) += 1; found.push(f); }
            Ok(None) => inconclusive.push(format!("a worker died or stalled at case {c}, but the case alone held")),
            Err(e) => inconclusive.push(format!("case {c}: {e}")),
        }
    }
    if complete + reported < nw && suspects.is_empty() {
        inconclusive.push("a worker ended without a result outside of any case".into());
    }
    let _ = std::fs::remove_dir_all(&tmp);
    // classify
    let known = load_known(&a.known, &a.id);
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut fresh: Vec<&Found> = vec![];
    for f in &found {
        if known.iter().any(|(s, _)| *s == f.sig) {
            *known_hit.entry(f.sig.clone()).or_insert(0) += 1;
        } else if !fresh.iter().any(|g| g.sig == f.sig) {
            fresh.push(f);
        }
    }
    let missing: Vec<&str> = p.required_events.iter().copied().filter(|e| events.get(*e).copied().unwrap_or(0) == 0).collect();
    let wall = start.elapsed().as_secs_f64();
    // evidence
    if let Some(out) = &a.out {
        let mut j = String::new();
        let _ = write!(j, "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n", js(&a.id), js(&a.tier), a.seed);
        let _ = write!(j, " \"coverage\": {{\n  \"evaluations\": {evals}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n", distinct.len(), js(p.rule));
        j.push_str("  \"events_observed\": {");
        for (i, (e, c)) in events.iter().enumerate() {
            let _ = write!(j, "{}{}: {}", if i > 0 { ", " } else { "" }, js(e), c);
        }
        let _ = write!(j, "}},\n  \"cases_planned\": {total}, \"workers\": {nw}, \"workers_cut_by_budget\": {cut}");
        if let Some(t) = &a.tool {
            let _ = write!(j, ", \"instrumentation\": {}", js(t));
        }
        j.push_str(",\n  \"inconclusive\": [");
        for (i, s) in inconclusive.iter().enumerate() {
            let _ = write!(j, "{}{}", if i > 0 { ", " } else { "" }, js(s));
        }
        j.push_str("],\n  \"samples\": [");
        for (i, s) in samples.iter().enumerate() {
            let _ = write!(j, "{}{}", if i > 0 { ", " } else { "" }, js(s));
        }
        j.push_str("]\n },\n \"assumptions\": [");
        for (i, s) in p.assumptions.iter().enumerate() {
            let _ = write!(j, "{}{}", if i > 0 { ", " } else { "" }, js(s));
        }
        let _ = write!(j, "],\n \"wall_s\": {wall:.3}, \"violations\": {}\n}}\n", fresh.len());
        std::fs::write(out, j).expect("evidence");
    }
    for (s, d) in &known {
        println!("KNOWN-FINDING: property={} {} [{}; observed {} times in this run]", a.id, d, s, known_hit.get(s).copied().unwrap_or(0));
    }
    println!("{}: {} executions, {} distinct non-trivial, {} event classes, {:.1} s", a.id, evals, distinct.len(), events.len(), wall);
    if !fresh.is_empty() {
        std::fs::create_dir_all(&a.replay_dir).ok();
        for f in &fresh {
            let h = fnv(0, f.sig.as_bytes());
            let path = format!("{}/{}-{:016x}.txt", a.replay_dir, a.id, h);
            let body = format!(
                "property: {}\nsignature: {}\ncount in this run: {}\nseed: {} case: {:?} tier: {}\nreplay: {} --seed {} --tier {} --case {}\n\n{}\n\ntrace of the case:\n{}\n",
                a.id, f.sig, sigcount.get(&f.sig).copied().unwrap_or(1), a.seed, f.case, a.tier,
                a.cmd.clone().unwrap_or_else(|| format!("{} {}", exe.display(), a.id)),
                a.seed, a.tier, f.case.map(|c| c.to_string()).unwrap_or_default(), f.detail, f.trace
            );
            std::fs::write(&path, body).ok();
            println!("{}: {}", f.sig, f.detail.chars().take(600).collect::<String>());
            println!("VIOLATION property={} replay={}", a.id, path);
        }
        std::process::exit(1);
    }
    if !inconclusive.is_empty() {
        for s in &inconclusive { println!("INCONCLUSIVE: {s}"); }
    }
    if evals == 0 || distinct.is_empty() || !missing.is_empty() {
        println!("NO VERDICT: the run observed too little (executions {evals}, distinct {}, missing events {missing:?})", distinct.len());
        std::process::exit(3);
    }
    std::process::exit(0);
}

fn read_progress(p: &std::path::Path) -> u64 {
    match std::fs::read(p) {
        Ok(b) if b.len() >= 8 => u64::from_le_bytes(b[..8].try_into().unwrap()),
        _ => u64::MAX,
    }
}
