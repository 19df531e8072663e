//! Runs the command line tool as a child process and observes what it does at the operating system boundary.
use crate::run::Bad;
use std::ffi::OsString;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn bin(name: &str) -> PathBuf {
    let mut p = std::env::current_exe().unwrap();
    p.pop();
    p.join(name)
}

#[derive(Debug, Clone, PartialEq)]
pub struct CliOut {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
}
impl CliOut {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn out_s(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
    pub fn panicked(&self) -> bool {
        self.err.contains("panicked at") || self.code == Some(101)
    }
    pub fn brief(&self) -> String {
        let cut = |s: &str| s.chars().take(600).collect::<String>();
        format!("status {:?} signal {:?} stdout {:?} stderr {:?}", self.code, self.signal, cut(&self.out_s()), cut(&self.err))
    }
}

pub enum In<'a> {
    Null,
    File(&'a Path),
    /// bytes written in pieces of the given size
    Bytes(&'a [u8], usize),
}

#[derive(Default)]
pub struct Env<'a> {
    pub tz: Option<&'a str>,
    /// stdout goes there instead of being captured
    pub stdout: Option<std::fs::File>,
    /// file size limit
    pub fsize: Option<u64>,
    pub cwd: Option<&'a Path>,
    /// reader of stdout closes it after that many bytes
    pub close_after: Option<usize>,
    /// limit of address space
    pub memory: Option<u64>,
    /// limit of files that are open at the same time
    pub nofile: Option<u64>,
    /// further environment variables
    pub vars: Vec<(String, String)>,
}

/// a replacement character stands for a byte that is no text
pub fn not_text(s: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut v = Vec::new();
    for c in s.chars() {
        if c == '\u{fffd}' {
            v.push(0xff);
        } else {
            v.extend(c.to_string().bytes());
        }
    }
    std::ffi::OsString::from_vec(v)
}

pub fn chop(args: &[&str], stdin: In, env: Env) -> Result<CliOut, Bad> {
    exec(&bin("chop"), args, stdin, env)
}

/// library that makes system calls fail, see shim.rs
pub fn shim() -> String {
    let mut p = std::env::current_exe().unwrap();
    p.pop();
    p.join("libvhshim.so").to_str().unwrap().to_string()
}

pub fn chop_simple(args: &[&str]) -> Result<CliOut, Bad> {
    chop(args, In::Null, Env::default())
}

pub fn exec(prog: &Path, args: &[&str], stdin: In, env: Env) -> Result<CliOut, Bad> {
    let a: Vec<OsString> = args.iter().map(|s| s.into()).collect();
    exec_os(prog, &a, stdin, env)
}

static REPORT: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
/// report of a sanitizer that the tool was built with
pub fn take_report() -> Option<String> {
    REPORT.lock().unwrap().take()
}
pub const SANITIZER_OPTIONS: [(&str, &str); 2] = [
    ("ASAN_OPTIONS", "exitcode=86:detect_leaks=0:allocator_may_return_null=1:handle_abort=0"),
    ("MSAN_OPTIONS", "exitcode=86:allocator_may_return_null=1"),
];

pub fn exec_os(prog: &Path, args: &[OsString], stdin: In, env: Env) -> Result<CliOut, Bad> {
    let mut c = Command::new(prog);
    c.args(args).env_clear().env("LC_ALL", "C").env("PATH", "/usr/bin:/bin");
    if let Some(tz) = env.tz {
        c.env("CHOPPER_TZ", not_text(tz));
    }
    for (k, v) in SANITIZER_OPTIONS {
        c.env(k, v);
    }
    for (k, v) in &env.vars {
        c.env(k, v);
    }
    if let Some(d) = env.cwd {
        c.current_dir(d);
    }
    match &stdin {
        In::Null => c.stdin(Stdio::null()),
        In::File(f) => c.stdin(Stdio::from(std::fs::File::open(f).map_err(|e| Bad::Inconclusive(format!("stdin: {}", e)))?)),
        In::Bytes(..) => c.stdin(Stdio::piped()),
    };
    let captured = env.stdout.is_none();
    match env.stdout {
        Some(f) => c.stdout(Stdio::from(f)),
        None => c.stdout(Stdio::piped()),
    };
    c.stderr(Stdio::piped());
    let fsize = env.fsize;
    let memory = env.memory;
    let nofile = env.nofile;
    unsafe {
        c.pre_exec(move || {
            let lim = |r, v: u64| {
                let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                libc::setrlimit(r, &l);
            };
            lim(libc::RLIMIT_CPU, 60);
            lim(libc::RLIMIT_CORE, 0);
            if let Some(n) = memory {
                lim(libc::RLIMIT_AS, n);
            }
            if let Some(n) = nofile {
                lim(libc::RLIMIT_NOFILE, n);
            }
            if let Some(n) = fsize {
                lim(libc::RLIMIT_FSIZE, n);
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            }
            Ok(())
        });
    }
    let mut child = c.spawn().map_err(|e| Bad::Inconclusive(format!("spawn: {}", e)))?;
    let mut out = Vec::new();
    let mut err = Vec::new();
    let deadline = Instant::now() + Duration::from_secs(200);
    let mut timed_out = false;
    let pid = child.id() as i32;
    let done = std::sync::atomic::AtomicBool::new(false);
    let asleep = std::sync::atomic::AtomicU64::new(0);
    let st = std::thread::scope(|s| {
        let stdin_pipe = child.stdin.take();
        let data: Option<(&[u8], usize)> = if let In::Bytes(b, n) = &stdin { Some((b, *n)) } else { None };
        if let (Some(mut p), Some((b, n))) = (stdin_pipe, data) {
            s.spawn(move || {
                for piece in b.chunks(n.max(1)) {
                    if p.write_all(piece).is_err() {
                        break;
                    }
                }
            });
        }
        let so = child.stdout.take();
        let close_after = env.close_after;
        let out = &mut out;
        if let (true, Some(mut so)) = (captured, so) {
            s.spawn(move || match close_after {
                None => {
                    let _ = so.read_to_end(out);
                }
                Some(n) => {
                    let _ = so.take(n as u64).read_to_end(out);
                }
            });
        }
        let mut se = child.stderr.take().unwrap();
        let err = &mut err;
        s.spawn(move || {
            let _ = se.read_to_end(err);
        });
        // wakes up only to stop a child that neither ends nor uses cpu
        let done_ref = &done;
        let asleep_ref = &asleep;
        let timed = s.spawn(move || {
            let mut last = None;
            loop {
                std::thread::park_timeout(Duration::from_millis(1000));
                if done_ref.load(std::sync::atomic::Ordering::SeqCst) {
                    return false;
                }
                // seconds in a row that it slept through
                let now = sleeping(pid);
                if now.is_some() && now == last {
                    asleep_ref.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                } else {
                    asleep_ref.store(0, std::sync::atomic::Ordering::SeqCst);
                }
                last = now;
                if Instant::now() > deadline || asleep_ref.load(std::sync::atomic::Ordering::SeqCst) >= ASLEEP_SECS {
                    unsafe { libc::kill(pid, libc::SIGKILL) };
                    return true;
                }
            }
        });
        let st = child.wait();
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        timed.thread().unpark();
        timed_out = timed.join().unwrap_or(false);
        st
    })
    .map_err(|e| Bad::Inconclusive(format!("wait: {}", e)))?;
    if timed_out && asleep.load(std::sync::atomic::Ordering::SeqCst) >= ASLEEP_SECS {
        // all that it could wait for has come to its end long ago
        return Err(Bad::Violation(format!("command waits for something for {} s and does not end: {:?}", ASLEEP_SECS, args)));
    }
    if timed_out {
        return Err(Bad::Inconclusive(format!("command did not end: {:?}", args)));
    }
    let text = String::from_utf8_lossy(&err);
    if text.contains("Sanitizer:") {
        let from = text.find("Sanitizer:").unwrap_or(0).saturating_sub(20);
        *REPORT.lock().unwrap() = Some(text.chars().skip(from).take(3000).collect());
    }
    Ok(CliOut { code: st.code(), signal: st.signal(), out, err: String::from_utf8_lossy(&err).into_owned() })
}

/// seconds without any use of the cpu after which a program counts as one that waits forever
pub const ASLEEP_SECS: u64 = 100;

/// whether a process has children, or may have some
pub fn has_children(pid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/{}/task/{}/children", pid, pid)).map(|s| !s.trim().is_empty()).unwrap_or(true)
}

/// cpu time and context switches of a process that sleeps
pub fn sleeping(pid: i32) -> Option<(String, String)> {
    let stat = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest: Vec<&str> = stat[stat.rfind(')')? + 1..].split_whitespace().collect();
    if rest.first() != Some(&"S") {
        return None;
    }
    let status = std::fs::read_to_string(format!("/proc/{}/status", pid)).ok()?;
    let switches = status.lines().filter(|l| l.contains("ctxt_switches")).collect::<Vec<_>>().join(" ");
    Some((format!("{} {}", rest.get(11)?, rest.get(12)?), switches))
}

/// lines of a text, each without its line feed; the last one has to end with one
pub fn lines(b: &[u8]) -> Option<Vec<String>> {
    if b.is_empty() {
        return Some(vec![]);
    }
    let s = std::str::from_utf8(b).ok()?;
    let s = s.strip_suffix('\n')?;
    Some(s.split('\n').map(|l| l.to_string()).collect())
}
