//! Parent process: shards cases over worker processes, watches them, decides, writes evidence and replay files.
//! Worker process: runs cases one by one and logs start and outcome of each.
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const EXIT_ALLOC: i32 = 97;
pub const EXIT_HANG: i32 = 98;
pub const EXIT_INCONCLUSIVE: i32 = 99;
const CASE_CPU_LIMIT_SECS: i64 = 60;
const CASE_WALL_LIMIT_SECS: u64 = 400;

/// outcome of one case, other than "held"
#[derive(Debug)]
pub enum Bad {
    /// property broken, with the witness
    Violation(String),
    /// a listed known finding, identified by key
    Known(&'static str),
    /// the monitor could not decide
    Inconclusive(String),
}
pub type Res = Result<(), Bad>;

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::run::Bad::Violation(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::run::Bad::Violation(format!($($a)*))) } };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub tier: Tier,
    /// scratch directory of this worker, emptied before every case
    pub dir: PathBuf,
    /// what was observed
    pub ev: BTreeMap<String, u64>,
    pub desc: String,
    pub sig: u64,
    pub nontrivial: bool,
    pub verbose: bool,
    pub known: Vec<&'static str>,
}

impl Ctx {
    /// number of rows for the few cases with more rows than any 16 bit count
    pub fn long(&mut self, every: u64) -> Option<usize> {
        // one with more than 20 bits
        if self.idx % every == every / 3 && self.idx / every < 4 {
            return Some(self.giant());
        }
        if self.idx % every != every / 2 {
            return None;
        }
        let n = match self.rng.below(4) {
            0 => 65_530 + self.rng.us(12),
            1 => 131_066 + self.rng.us(12),
            _ => self.rng.urange(65_600, 100_000),
        };
        self.count("cases_over_65000_rows", 1);
        Some(n)
    }
    pub fn giant(&mut self) -> usize {
        self.count("cases_over_1000000_rows", 1);
        1_048_570 + self.rng.us(20)
    }
    pub fn count(&mut self, key: &str, n: u64) {
        *self.ev.entry(key.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, key: &str, n: u64) {
        let e = self.ev.entry(format!("max_{}", key)).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }
    pub fn path_str(&self, name: &str) -> String {
        self.path(name).to_str().unwrap().to_string()
    }
    pub fn write(&self, name: &str, data: &[u8]) -> String {
        let p = self.path(name);
        if let Some(d) = p.parent() {
            fs::create_dir_all(d).unwrap();
        }
        fs::write(&p, data).unwrap();
        p.to_str().unwrap().to_string()
    }
    pub fn describe(&mut self, s: String) {
        if self.verbose {
            eprintln!("case: {}", s);
        }
        self.desc = s;
    }
    /// identifies the shape of case for counting distinct ones
    pub fn shape(&mut self, nontrivial: bool, s: &str) {
        self.sig = crate::rng::fnv(s.as_bytes());
        self.nontrivial = nontrivial;
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// (cases in quick, cases in thorough)
    pub cases: (u64, u64),
    /// wall clock after which no further cases are started, seconds
    pub budget: (u64, u64),
    pub run: fn(&mut Ctx) -> Res,
    /// observations without which a run means nothing
    pub must_observe: &'static [&'static str],
}

// ---------------------------------------------------------------- worker

static CASE_START_CPU: AtomicI64 = AtomicI64::new(-1);
static CASE_NO: AtomicU64 = AtomicU64::new(0);

fn cpu_now() -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
    ts.tv_sec as i64
}

fn start_cpu_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = CASE_START_CPU.load(SeqCst);
        if s >= 0 && cpu_now() - s > CASE_CPU_LIMIT_SECS {
            unsafe { libc::_exit(EXIT_HANG) };
        }
    });
}

pub static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

/// location (file:line) and message of the last panic, taken
pub fn take_panic() -> (String, String) {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((loc, msg));
    }));
}

/// runs code under test; Err is (location, message) of its panic
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(take_panic()),
    }
}

fn empty_dir(dir: &Path) {
    if let Ok(rd) = fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                let _ = fs::remove_dir_all(&p);
            } else {
                let _ = fs::remove_file(&p);
            }
        }
    }
}

pub fn run_case(p: &Prop, ctx: &mut Ctx) -> Res {
    match catch(|| (p.run)(ctx)) {
        Ok(r) => r,
        Err((loc, msg)) => {
            // a panic that the property's own monitor does not expect; if it comes out of harness code it is an
            // error of the harness, everything else comes out of the code under test
            if msg.contains("CHOPPER REFUSED") {
                Err(Bad::Violation(msg))
            } else if loc.contains("/verif/harness") || loc.starts_with("src/") && !loc.starts_with("/repo") {
                Err(Bad::Inconclusive(format!("harness panic at {}: {}", loc, msg)))
            } else {
                Err(Bad::Violation(format!("panic at {}: {}", loc, msg)))
            }
        }
    }
}

fn case_ctx(p: &Prop, seed: u64, idx: u64, tier: Tier, dir: &Path) -> Ctx {
    Ctx {
        rng: Rng::for_case(p.id, seed, idx),
        idx,
        tier,
        dir: dir.to_path_buf(),
        ev: BTreeMap::new(),
        desc: String::new(),
        sig: 0,
        nontrivial: false,
        verbose: false,
        known: Vec::new(),
    }
}

fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...({} bytes)", &s[..e], s.len())
}

/// args: prop seed tier first step total deadline_secs logfile dir
pub fn worker(p: &Prop, a: &[String]) -> ! {
    let seed: u64 = a[0].parse().unwrap();
    let tier = if a[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let first: u64 = a[2].parse().unwrap();
    let step: u64 = a[3].parse().unwrap();
    let total: u64 = a[4].parse().unwrap();
    let secs: u64 = a[5].parse().unwrap();
    let log = a[6].clone();
    let dir = PathBuf::from(&a[7]);
    install_panic_hook();
    start_cpu_watchdog();
    let mut log = OpenOptions::new().append(true).create(true).open(log).unwrap();
    let deadline = Instant::now() + Duration::from_secs(secs);
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut idx = first;
    let mut ev: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = 0;
    while idx < total && Instant::now() < deadline {
        empty_dir(&dir);
        CASE_NO.store(idx, SeqCst);
        writeln!(log, "S {}", idx).unwrap();
        let mut ctx = case_ctx(p, seed, idx, tier, &dir);
        CASE_START_CPU.store(cpu_now(), SeqCst);
        let r = run_case(p, &mut ctx);
        CASE_START_CPU.store(-1, SeqCst);
        for (k, v) in &ctx.ev {
            let e = ev.entry(k.clone()).or_insert(0);
            if k.starts_with("max_") {
                *e = (*e).max(*v);
            } else {
                *e += *v;
            }
        }
        for k in &ctx.known {
            writeln!(log, "K {} {}", idx, k).unwrap();
        }
        let new = ctx.nontrivial && sigs.insert(ctx.sig);
        if new && samples < 2 && !ctx.desc.is_empty() {
            samples += 1;
            writeln!(log, "P {} {}", idx, json!(trunc(&ctx.desc, 1200))).unwrap();
        }
        match r {
            Ok(()) => {}
            Err(Bad::Known(k)) => writeln!(log, "K {} {}", idx, k).unwrap(),
            Err(Bad::Violation(m)) => {
                writeln!(log, "V {} {}", idx, json!({"what": trunc(&m, 6000), "case": trunc(&ctx.desc, 6000)})).unwrap();
            }
            Err(Bad::Inconclusive(m)) => writeln!(log, "I {} {}", idx, json!(trunc(&m, 2000))).unwrap(),
        }
        writeln!(log, "D {} {}", idx, if new { format!("{:x}", ctx.sig) } else { "-".into() }).unwrap();
        idx += step;
    }
    empty_dir(&dir);
    for (k, v) in &ev {
        writeln!(log, "E {} {}", k, v).unwrap();
    }
    writeln!(log, "X").unwrap();
    std::process::exit(0);
}

// ---------------------------------------------------------------- parent

struct Slot {
    child: Child,
    log: PathBuf,
    dir: PathBuf,
    first: u64,
    last_len: u64,
    last_change: Instant,
    /// last look at a worker without progress: when, its use of cpu, and for how many seconds it has been the same
    last_look: Instant,
    last_use: Option<(String, String)>,
    asleep: u64,
}

#[derive(Default)]
struct Totals {
    done: u64,
    sigs: HashSet<String>,
    ev: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    violations: Vec<(u64, Value)>,
    inconclusive: Vec<(u64, String)>,
}

fn absorb(t: &mut Totals, log: &Path) -> (Option<u64>, bool, u64) {
    // returns (case that was started but not finished, worker ended by itself, next index hint)
    let mut open: Option<u64> = None;
    let mut ended = false;
    let mut last = 0;
    if let Ok(f) = File::open(log) {
        for line in BufReader::new(f).split(b'\n').flatten() {
            let line = String::from_utf8_lossy(&line).into_owned();
            let mut it = line.splitn(3, ' ');
            let tag = it.next().unwrap_or("");
            let a = it.next().unwrap_or("");
            let b = it.next().unwrap_or("");
            match tag {
                "S" => {
                    open = a.parse().ok();
                    last = open.unwrap_or(last);
                }
                "D" => {
                    open = None;
                    t.done += 1;
                    if b != "-" && !b.is_empty() {
                        t.sigs.insert(b.to_string());
                    }
                }
                "K" => *t.known.entry(b.to_string()).or_insert(0) += 1,
                "P" => {
                    if t.samples.len() < 8 {
                        t.samples.push(json!({"index": a, "case": serde_json::from_str::<Value>(b).unwrap_or(json!(b))}));
                    }
                }
                "V" => t.violations.push((a.parse().unwrap_or(0), serde_json::from_str(b).unwrap_or(json!(b)))),
                "I" => t.inconclusive.push((a.parse().unwrap_or(0), b.to_string())),
                "E" => {
                    let n: u64 = b.parse().unwrap_or(0);
                    let e = t.ev.entry(a.to_string()).or_insert(0);
                    if a.starts_with("max_") {
                        *e = (*e).max(n);
                    } else {
                        *e += n;
                    }
                }
                "X" => ended = true,
                _ => {}
            }
        }
    }
    (open, ended, last)
}

/// quick look for violations in a log that is still being written
fn has_violation(log: &Path) -> bool {
    fs::read(log).map(|b| b.starts_with(b"V ") || b.windows(3).any(|w| w == b"\nV ")).unwrap_or(false)
}

pub fn describe_case(p: &Prop, seed: u64, idx: u64) -> String {
    format!("{} seed {} index {}", p.id, seed, idx)
}

fn signal_of(st: &std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    st.signal()
}

/// C25 runs its workers in instrumented builds, which are in directories beside the plain one
fn worker_exe(p: &Prop, exe: &Path, first: u64) -> PathBuf {
    if p.id != "C25" {
        return exe.to_path_buf();
    }
    match crate::props::memory::FLAVOURS[(first % 8) as usize] {
        "miri" => exe.to_path_buf(),
        f => exe.parent().unwrap().parent().unwrap().join(f).join("x86_64-unknown-linux-gnu/debug/vh"),
    }
}

pub fn parent(p: &Prop, tier: Tier, seed: u64, verif: &Path) -> i32 {
    let started = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let work = std::env::temp_dir().join(format!("vh-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&work).unwrap();
    let (total, secs) = match tier {
        Tier::Quick => (p.cases.0, p.budget.0),
        Tier::Thorough => (p.cases.1, p.budget.1),
    };
    let nworkers: u64 = if p.id == "C25" { Some(8) } else { std::env::var("VH_WORKERS").ok().and_then(|s| s.parse().ok()) }.unwrap_or(8).min(total.max(1));
    let secs = std::env::var("VH_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(secs);
    let deadline = std::cell::Cell::new(Instant::now() + Duration::from_secs(secs));
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut gen = 0;
    let mut spawn = |first: u64, total: u64, work: &Path| -> Slot {
        gen += 1;
        let log = work.join(format!("log{}", gen));
        let dir = work.join(format!("dir{}", gen));
        fs::create_dir_all(&dir).unwrap();
        let left = deadline.get().saturating_duration_since(Instant::now()).as_secs().max(1);
        let child = Command::new(worker_exe(p, &exe, first))
            .env("VH_VERIF", verif)
            .envs(crate::cli::SANITIZER_OPTIONS)
            .args(["worker", p.id, &seed.to_string(), tier_s, &first.to_string(), &nworkers.to_string(), &total.to_string(), &left.to_string()])
            .arg(&log)
            .arg(&dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(File::create(work.join(format!("err{}", gen))).unwrap())
            .env_remove("CHOPPER_TZ")
            .env_remove("TZ")
            .env("LC_ALL", "C")
            .spawn()
            .unwrap();
        Slot { child, log, dir, first, last_len: 0, last_change: Instant::now(), last_look: Instant::now(), last_use: None, asleep: 0 }
    };
    let mut t = Totals::default();
    let mut stop = false;
    let mut deaths = 0;
    let missing = |t: &Totals| -> Vec<&'static str> { p.must_observe.iter().filter(|k| t.ev.get(**k).copied().unwrap_or(0) == 0).copied().collect() };
    // further rounds are for slow machines, on which the first one may not have come to see all there is to see
    for round in 0..4u64 {
    if round > 0 {
        if stop || !t.inconclusive.is_empty() || missing(&t).is_empty() || t.done >= total || started.elapsed() > Duration::from_secs(500) || std::env::var("VH_SECS").is_ok() {
            break;
        }
        deadline.set(Instant::now() + Duration::from_secs(secs.min(60)));
    }
    // with the cases behind those of the round before, as if there were more of them
    let from = total.div_ceil(nworkers) * nworkers * round;
    let total = from + total;
    let mut slots: Vec<Slot> = (0..nworkers).filter(|i| from + i < total).map(|i| spawn(from + i, total, &work)).collect();
    while !slots.is_empty() {
        std::thread::sleep(Duration::from_millis(25));
        let mut i = 0;
        while i < slots.len() {
            let st = slots[i].child.try_wait().unwrap();
            match st {
                None => {
                    let len = fs::metadata(&slots[i].log).map(|m| m.len()).unwrap_or(0);
                    if len != slots[i].last_len {
                        slots[i].last_len = len;
                        slots[i].last_change = Instant::now();
                        slots[i].asleep = 0;
                        slots[i].last_use = None;
                    }
                    let s = &mut slots[i];
                    if s.last_change.elapsed() > Duration::from_secs(20) && s.last_look.elapsed() > Duration::from_secs(1) {
                        s.last_look = Instant::now();
                        let now = crate::cli::sleeping(s.child.id() as i32).filter(|_| !crate::cli::has_children(s.child.id() as i32));
                        if now.is_some() && now == s.last_use {
                            s.asleep += 1;
                        } else {
                            s.asleep = 0;
                        }
                        s.last_use = now;
                    }
                    let waits = slots[i].asleep >= crate::cli::ASLEEP_SECS;
                    if has_violation(&slots[i].log) {
                        stop = true;
                    }
                    let stuck = slots[i].last_change.elapsed() > Duration::from_secs(CASE_WALL_LIMIT_SECS);
                    if stuck || stop || waits {
                        let _ = slots[i].child.kill();
                        let _ = slots[i].child.wait();
                        let s = slots.remove(i);
                        let (open, _, _) = absorb(&mut t, &s.log);
                        if waits && open.is_some() {
                            t.violations.push((open.unwrap_or(0), json!({"what": format!("waits for something for {} s and does not end", crate::cli::ASLEEP_SECS)})));
                            stop = true;
                        } else if stuck || waits {
                            t.inconclusive.push((open.unwrap_or(0), "no progress within wall clock limit".into()));
                        }
                        let _ = fs::remove_dir_all(&s.dir);
                        continue;
                    }
                    i += 1;
                }
                Some(st) => {
                    let s = slots.remove(i);
                    let (open, ended, last) = absorb(&mut t, &s.log);
                    let _ = fs::remove_dir_all(&s.dir);
                    if ended && st.success() {
                        if !t.violations.is_empty() {
                            stop = true;
                        }
                        continue;
                    }
                    // the worker died in the middle of a case
                    deaths += 1;
                    let code = st.code();
                    let err = fs::read_to_string(work.join(s.log.file_name().unwrap().to_str().unwrap().replace("log", "err"))).unwrap_or_default();
                    let idx = open.unwrap_or(last);
                    match (code, signal_of(&st)) {
                        _ if open.is_none() => t.inconclusive.push((idx, format!("worker died outside of a case: {:?} {}", st, trunc(&err, 500)))),
                        (Some(EXIT_ALLOC), _) => t.violations.push((idx, json!({"what": "memory use out of proportion (allocation cap reached)"}))),
                        (Some(EXIT_HANG), _) => t.violations.push((idx, json!({"what": format!("no end after {} s of cpu time", CASE_CPU_LIMIT_SECS)}))),
                        (Some(EXIT_INCONCLUSIVE), _) => t.inconclusive.push((idx, "worker gave up".into())),
                        (_, Some(libc::SIGKILL)) => t.inconclusive.push((idx, "worker was killed".into())),
                        _ => t.violations.push((idx, json!({"what": format!("process ended in the middle of a case: {}; stderr: {}", st, trunc(&err, 2000))}))),
                    }
                    if !t.violations.is_empty() {
                        stop = true;
                    }
                    if !stop && deaths < 20 && idx + nworkers < total && Instant::now() < deadline.get() {
                        slots.push(spawn(idx + nworkers, total, &work));
                    }
                    let _ = s.first;
                }
            }
        }
    }
    }
    let _ = fs::remove_dir_all(&work);

    // verdict
    let replay_dir = verif.join("replay");
    let mut lines: Vec<String> = Vec::new();
    t.violations.sort_by_key(|v| v.0);
    for (idx, what) in t.violations.iter().take(3) {
        let _ = fs::create_dir_all(&replay_dir);
        let f = replay_dir.join(format!("{}-{}-{}-{}.json", p.id, tier_s, seed, idx));
        let _ = fs::write(&f, serde_json::to_string_pretty(&json!({"property": p.id, "tier": tier_s, "seed": seed, "index": idx, "violation": what})).unwrap());
        println!("violation of {} in case {}: {}", p.id, idx, trunc(&what.to_string(), 1500));
        lines.push(format!("VIOLATION property={} replay={}", p.id, f.display()));
    }
    let known_list = read_known(verif, p.id);
    let mut unlisted = Vec::new();
    for (k, n) in &t.known {
        match known_list.iter().find(|(key, _)| key == k) {
            Some((key, what)) => println!("KNOWN-FINDING: property={} {} [{}; seen {} times]", p.id, what, key, n),
            None => unlisted.push(k.clone()),
        }
    }
    for k in &unlisted {
        let _ = fs::create_dir_all(&replay_dir);
        let f = replay_dir.join(format!("{}-{}-{}-finding-{}.json", p.id, tier_s, seed, k));
        let _ = fs::write(&f, json!({"property": p.id, "tier": tier_s, "seed": seed, "finding": k}).to_string());
        lines.push(format!("VIOLATION property={} replay={}", p.id, f.display()));
    }
    let missing = missing(&t);
    let nviol = t.violations.len() + unlisted.len();
    let mut cov = json!({
        "evaluations": t.done,
        "distinct_nontrivial": t.sigs.len(),
        "rule": p.rule,
        "samples": t.samples,
        "observed": t.ev,
        "planned_cases": total,
        "inconclusive": t.inconclusive.len(),
        "known_findings_seen": t.known,
    });
    if p.level == "other" {
        cov["explanation"] = json!(p.rule);
    }
    let ev = json!({
        "property": p.id, "tier": tier_s, "seed": seed, "level": p.level, "coverage": cov,
        "assumptions": p.assumptions, "wall_s": started.elapsed().as_secs_f64(), "violations": nviol,
    });
    let evdir = verif.join("evidence");
    let _ = fs::create_dir_all(&evdir);
    fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {}: {} cases of {}, {} distinct nontrivial, {} violations, {} inconclusive, {:.1} s",
        p.id, tier_s, t.done, total, t.sigs.len(), nviol, t.inconclusive.len(), started.elapsed().as_secs_f64()
    );
    println!("observed: {}", serde_json::to_string(&t.ev).unwrap());
    if nviol > 0 {
        for l in lines {
            println!("{}", l);
        }
        return 1;
    }
    if !t.inconclusive.is_empty() {
        for (i, m) in t.inconclusive.iter().take(5) {
            println!("inconclusive case {}: {}", i, m);
        }
        return 3;
    }
    if t.done == 0 || !missing.is_empty() {
        println!("inconclusive: nothing observed for {:?}", missing);
        return 3;
    }
    0
}

/// known_findings.txt: "finding: property=<id> key=<key> <what>" lines
fn read_known(verif: &Path, id: &str) -> Vec<(String, String)> {
    let mut out = Vec::new();
    if let Ok(s) = fs::read_to_string(verif.join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut it = rest.splitn(3, ' ');
                let prop = it.next().unwrap_or("").trim_start_matches("property=");
                let key = it.next().unwrap_or("").trim_start_matches("key=");
                let what = it.next().unwrap_or("");
                if prop == id {
                    out.push((key.to_string(), what.to_string()));
                }
            }
        }
    }
    out
}

pub fn replay(p: &Prop, tier: Tier, seed: u64, idx: u64) -> i32 {
    let dir = std::env::temp_dir().join(format!("vh-replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    install_panic_hook();
    let mut ctx = case_ctx(p, seed, idx, tier, &dir);
    ctx.verbose = true;
    let r = run_case(p, &mut ctx);
    println!("case: {}\nobserved: {:?}\nknown: {:?}\nresult: {:?}", trunc(&ctx.desc, 20000), ctx.ev, ctx.known, r);
    if std::env::var("VH_KEEP").is_err() {
        let _ = fs::remove_dir_all(&dir);
    } else {
        println!("kept {}", dir.display());
    }
    match r {
        Ok(()) => 0,
        Err(_) => 1,
    }
}
