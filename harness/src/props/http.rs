//! C22 inputs read over http, from a server on the loopback interface that misbehaves on demand
use super::formats::{gen_content, gen_csv_content, same, Content};
use super::inputs::{content_of_size, ext_of, pack};
use crate::cli;
use crate::comp::{Fmt, FMTS};
use crate::model::*;
use crate::probes::*;
use crate::rng::Rng;
use crate::run::{Bad, Ctx, Prop, Res};
use crate::{ensure, viol};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        level: "exploration",
        rule: "a case is an exchange between the library (or the tool) and a scripted server on the loopback interface: a generated content in any format and streaming compression, framed by length, chunks (with extensions and any sizes) or the end of the connection, under HTTP/1.0 or 1.1, cut into packets, maybe after redirects; or the same with the connection closed or reset at a chosen byte; or with a status that is no success, a garbled response, a closed port or a zip file. Rows have to be those of the content, or the run has to fail with only leading rows of it delivered; the server checks what was requested. nontrivial: all; distinct by responses",
        assumptions: &["https is not exercised, there is no certificate that the client would accept"],
        cases: (6_000, 150_000),
        budget: (35, 480),
        run: c22,
        must_observe: &["requests", "rows", "framed_length", "framed_chunked", "framed_close", "framed_length_close", "framed_http10", "cut_length", "cut_length_close", "cut_chunked", "cut_http10_length", "resets", "cut_headers", "bad_statuses", "redirects", "compressed", "refused", "garbled", "zip_refused", "cli_runs", "tiny_packets", "merged_urls", "kept_open"],
    }]
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    Close,
    Reset,
    /// waits for the client to close
    Keep,
}

#[derive(Clone)]
pub struct Script {
    pub bytes: Vec<u8>,
    pub pieces: Vec<usize>,
    pub pause: bool,
    pub stop: Stop,
}

type Scripts = Arc<Mutex<Vec<(String, Script)>>>;

/// one for the whole process, since the system runs out of ports otherwise
struct Listening {
    port: u16,
    requests: Arc<Mutex<Vec<String>>>,
    scripts: Scripts,
}
static SERVER: OnceLock<Option<Listening>> = OnceLock::new();

pub struct Server {
    port: u16,
    requests: Arc<Mutex<Vec<String>>>,
    scripts: Scripts,
}

fn serve(mut c: TcpStream, scripts: Scripts, requests: Arc<Mutex<Vec<String>>>) {
    let _ = c.set_nodelay(true);
    let _ = c.set_read_timeout(Some(Duration::from_secs(20)));
    let _ = c.set_write_timeout(Some(Duration::from_secs(20)));
    let mut req = Vec::new();
    let mut b = [0u8; 1024];
    while !req.windows(4).any(|w| w == b"\r\n\r\n") {
        match c.read(&mut b) {
            Ok(0) | Err(_) => return,
            Ok(n) => req.extend_from_slice(&b[..n]),
        }
    }
    let text = String::from_utf8_lossy(&req).into_owned();
    requests.lock().unwrap().push(text.clone());
    let path = text.split(' ').nth(1).unwrap_or("").to_string();
    let found = scripts.lock().unwrap().iter().find(|(p, _)| *p == path).map(|(_, s)| s.clone());
    let s = match found {
        Some(s) => s,
        None => Script { bytes: b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n".to_vec(), pieces: vec![], pause: false, stop: Stop::Close },
    };
    let mut rest = &s.bytes[..];
    for n in &s.pieces {
        let n = (*n).min(rest.len());
        if n == 0 {
            break;
        }
        if c.write_all(&rest[..n]).is_err() {
            return;
        }
        rest = &rest[n..];
        if s.pause {
            std::thread::sleep(Duration::from_micros(if s.pieces.len() < 4 { 2000 } else { 200 }));
        }
    }
    if c.write_all(rest).is_err() {
        return;
    }
    match s.stop {
        Stop::Close => (),
        Stop::Reset => {
            // lets the data arrive, then drops the connection
            std::thread::sleep(Duration::from_millis(3));
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe { libc::setsockopt(c.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32) };
        }
        Stop::Keep => {
            // the client has all it needs, so it has to end by itself
            if let Err(e) = c.read(&mut b) {
                if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) {
                    LEFT_WAITING.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                }
            }
        }
    }
}
static LEFT_WAITING: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

impl Server {
    pub fn start(scripts: Vec<(String, Script)>) -> Result<Server, Bad> {
        let l = SERVER.get_or_init(|| {
            let l = TcpListener::bind("127.0.0.1:0").ok()?;
            let port = l.local_addr().ok()?.port();
            let requests = Arc::new(Mutex::new(Vec::new()));
            let scripts: Scripts = Arc::new(Mutex::new(Vec::new()));
            let (r, s) = (requests.clone(), scripts.clone());
            std::thread::spawn(move || {
                for c in l.incoming().flatten() {
                    let (s, r) = (s.clone(), r.clone());
                    std::thread::spawn(move || serve(c, s, r));
                }
            });
            Some(Listening { port, requests, scripts })
        });
        let l = l.as_ref().ok_or_else(|| Bad::Inconclusive("can't listen on the loopback interface".into()))?;
        l.requests.lock().unwrap().clear();
        *l.scripts.lock().unwrap() = scripts;
        Ok(Server { port: l.port, requests: l.requests.clone(), scripts: l.scripts.clone() })
    }
    pub fn url(&self, path: &str) -> String {
        format!("http://127.0.0.1:{}{}", self.port, path)
    }
    pub fn take(&self) -> Vec<String> {
        std::mem::take(&mut *self.requests.lock().unwrap())
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.scripts.lock().unwrap().clear();
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Framing {
    Length,
    LengthClose,
    Chunked,
    UntilClose,
    Http10,
    Http10Length,
}
use Framing::*;
pub const FRAMINGS: [Framing; 6] = [Length, LengthClose, Chunked, UntilClose, Http10, Http10Length];

fn odd_case(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        _ => s.to_string(),
    }
}

/// response and the places where it may break off: (first byte of body, and for each byte of it whether it is data of a chunk)
pub fn response(r: &mut Rng, status: &str, framing: Framing, body: &[u8]) -> (Vec<u8>, usize, Vec<bool>) {
    let http10 = matches!(framing, Http10 | Http10Length);
    let mut h = vec![];
    for _ in 0..r.below(4) {
        h.push(r.pick(&["Server: test", "Content-Type: text/csv; charset=utf-8", "X-Length: 5", "Date: Thu, 01 Jan 1970 00:00:00 GMT", "Content-Encoding: identity", "Set-Cookie: a=b", "Cache-Control:no-store", "X-Empty:"]).to_string());
    }
    match framing {
        Length | LengthClose | Http10Length => h.push(format!("{}: {}", odd_case(r, "Content-Length"), body.len())),
        Chunked => {
            h.push(format!("{}: chunked", odd_case(r, "Transfer-Encoding")));
            // which counts, whatever else is said
            if r.one_in(5) {
                h.push(format!("Content-Length: {}", *r.pick(&[0, 1, body.len() / 2, body.len(), body.len() + 1, 1 << 40])));
            }
        }
        _ => (),
    }
    if framing == LengthClose || framing == UntilClose && r.bool() || framing == Chunked && r.one_in(4) {
        h.push(format!("{}: {}", odd_case(r, "Connection"), r.pick(&["close", "Close"])));
    }
    r.shuffle(&mut h);
    let mut out = format!("HTTP/1.{} {}\r\n", if http10 { 0 } else { 1 }, status).into_bytes();
    for l in h {
        out.extend_from_slice(l.as_bytes());
        out.extend_from_slice(b"\r\n");
    }
    out.extend_from_slice(b"\r\n");
    let start = out.len();
    let mut inside = Vec::new();
    if framing == Chunked {
        let max = *r.pick(&[1usize, 5, 100, 5000, 100_000]);
        let max = if body.len() > 20_000 { max.max(500) } else { max };
        let ext = r.one_in(4);
        let upper = r.bool();
        let mut rest = body;
        while !rest.is_empty() {
            let n = r.urange(1, max).min(rest.len());
            let size = if upper { format!("{:X}", n) } else { format!("{:x}", n) };
            let size = format!("{}{}{}\r\n", if r.one_in(4) { "00" } else { "" }, size, if ext { ";name=value" } else { "" });
            out.extend_from_slice(size.as_bytes());
            inside.resize(out.len() - start, false);
            out.extend_from_slice(&rest[..n]);
            // breaking off at the first byte counts, at the one after the last one too
            inside.resize(out.len() - start + 1, true);
            out.extend_from_slice(b"\r\n");
            inside.resize(out.len() - start, false);
            rest = &rest[n..];
        }
        out.extend_from_slice(b"0\r\n\r\n");
        inside.resize(out.len() - start, false);
    } else {
        out.extend_from_slice(body);
    }
    (out, start, inside)
}

/// sizes of packets, whether to pause between them, whether they are tiny
fn pieces(r: &mut Rng, total: usize, body_at: usize) -> (Vec<usize>, bool, bool) {
    match r.below(7) {
        // right at and around the size of buffers
        6 => {
            let size = *r.pick(&[8192, 8192, 4096, 16384]);
            let first = body_at + size - r.us(3);
            (if first >= total { vec![body_at] } else { vec![first, 1, 1] }, true, false)
        }
        0 if total < 3000 => (vec![1; total], false, true),
        1 if total < 60_000 => ((0..total).map(|_| 1 + r.us(9)).take(3000).collect(), false, true),
        2 => ((0..20).map(|_| r.us(total / 10 + 2)).collect(), true, false),
        3 => ((0..50).map(|_| r.size(10_000) + 1).collect(), false, false),
        _ => (vec![], false, false),
    }
}

struct Doc {
    content: Content,
    body: Vec<u8>,
    fmt: Option<Fmt>,
}

fn gen_doc(r: &mut Rng) -> Doc {
    let content = match r.below(12) {
        0 => {
            let n = r.size(200_000);
            content_of_size(r, n)
        }
        1 => gen_csv_content(r, 4000, 30, true),
        _ => gen_content(r, 60),
    };
    let fmt = if r.bool() { Some(*r.pick(&FMTS[..5])) } else { None };
    let body = pack(r, fmt, &content.bytes, "inner");
    Doc { content, body, fmt }
}

/// path of an url and format option that tells the format somehow
fn name_of(r: &mut Rng, d: &Doc) -> (String, Option<String>) {
    let ext = format!("{}{}", d.content.ext(), ext_of(d.fmt));
    // contents are recognised from their start only if there is enough of it
    match r.below(5) {
        // paths that a cleanup would change
        4 => {
            let p = *r.pick(&["//double//slashes///", "/dir/", "//", "/a;v=1/b,c/", "/a/b/?x=//y/", "/+/&/=/", "/a/b/ends.with.dots...", "/%2F%2f/%41/", "/?", "/CaSe/", "/~user/$x!*'()"]);
            (format!("{}{}", p, if r.bool() { ext.clone() } else { String::new() }), Some(ext[1..].to_string()))
        }
        0 => ("/some/path/thing".to_string(), Some(ext[1..].to_string())),
        1 => (format!("/q{}?from=1&to=x/y", ext), Some(ext[1..].to_string())),
        2 if !d.content.csv => (format!("/{}?version=2", r.below(1000)), None),
        _ => (format!("/a/data%20{}{}", r.below(100), ext), None),
    }
}

fn good(ctx: &mut Ctx) -> Res {
    let d = gen_doc(&mut ctx.rng);
    let r = &mut ctx.rng;
    let framing = *r.pick(&FRAMINGS);
    let status = *r.pick(&["200 OK", "200", "203 Non-Authoritative Information", "200 \"fine\""]);
    let (bytes, start, _) = response(r, status, framing, &d.body);
    let (p, pause, tiny) = pieces(r, bytes.len(), start);
    let (path, format) = name_of(r, &d);
    let stop = match framing {
        Length | Chunked => *r.pick(&[Stop::Close, Stop::Keep]),
        _ => Stop::Close,
    };
    let mut scripts = vec![];
    // a location that starts with two slashes means another host
    let redirects = if r.one_in(5) && !path.starts_with("//") { r.urange(1, 5) } else { 0 };
    let mut first = path.clone();
    for i in 0..redirects {
        let from = format!("/r{}", i);
        let to = std::mem::replace(&mut first, from.clone());
        let st = *r.pick(&["301 Moved Permanently", "302 Found", "303 See Other", "307 Temporary Redirect", "308 Permanent Redirect"]);
        scripts.push((from, Script { bytes: format!("HTTP/1.1 {}\r\nLocation: {}\r\nContent-Length: 0\r\n\r\n", st, to).into_bytes(), pieces: vec![], pause: false, stop: Stop::Close }));
    }
    scripts.push((path.clone(), Script { bytes: bytes.clone(), pieces: p.clone(), pause, stop }));
    // after a redirect the name is that of the first url
    let format = if redirects > 0 && format.is_none() { Some(format!("{}{}", d.content.ext(), ext_of(d.fmt))[1..].to_string()) } else { format };
    ctx.describe(format!("{:?} {} {} redirects, {} bytes of {}{} in pieces {:?}, then {:?}; format {:?}; rows {}", framing, path, redirects, d.body.len(), d.content.ext(), ext_of(d.fmt), short(&p), stop, format, short(&d.content.table.rows)));
    ctx.shape(true, &format!("{:?} {} {:?} {:?}", framing, redirects, p, bytes));
    let srv = Server::start(scripts)?;
    let url = srv.url(&first);
    if ctx.idx % 12 == 0 {
        let mut a = vec!["-E".to_string(), "--csv-in-epoch=ns".into(), "--csv-in-has-header=yes".into(), "--csv-in-ts-col=0".into(), "--csv-in-delimiter=,".into(), url.clone(), "-o".into(), ctx.path_str("o.dc")];
        if let Some(f) = &format {
            a.push(format!("--format={}", f));
        }
        let out = cli::chop_simple(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
        ctx.count("cli_runs", 1);
        ensure!(out.ok(), "tool failed: {}", out.brief());
        same(&read_path(&ctx.path_str("o.dc"), None, &CsvOpt::default()), &d.content.table)?;
    } else {
        same(&read_path(&url, format.as_deref(), &d.content.opt()), &d.content.table)?;
    }
    if stop == Stop::Keep {
        let n = LEFT_WAITING.load(std::sync::atomic::Ordering::SeqCst);
        ensure!(n == 0, "the complete response was followed by a wait for more until the server gave up after 20 s");
        ctx.count("kept_open", 1);
    }
    let reqs = srv.take();
    ensure!(reqs.len() == 1 + redirects, "{} requests instead of {}: {:?}", reqs.len(), 1 + redirects, reqs);
    let want = [vec![first.clone()], (0..redirects).rev().map(|i| if i == 0 { path.clone() } else { format!("/r{}", i - 1) }).collect()].concat();
    for (q, w) in reqs.iter().zip(&want) {
        ensure!(q.starts_with(&format!("GET {} HTTP/1.1\r\n", w)), "request {:?}, expected one of {}", q, w);
    }
    ctx.count("requests", reqs.len() as u64);
    ctx.count("rows", d.content.table.rows.len() as u64);
    ctx.count("redirects", redirects as u64);
    ctx.count("compressed", d.fmt.is_some() as u64);
    ctx.count("tiny_packets", tiny as u64);
    ctx.count(match framing { Length => "framed_length", LengthClose => "framed_length_close", Chunked => "framed_chunked", UntilClose => "framed_close", Http10 | Http10Length => "framed_http10" }, 1);
    Ok(())
}

/// nothing but leading rows of the table
fn leading(out: &ReadOut, t: &Table) -> Res {
    if out.rows.len() > t.rows.len() {
        viol!("{} rows of {}", out.rows.len(), t.rows.len());
    }
    if let Some(d) = diff_rows(&out.rows, &t.rows[..out.rows.len()]) {
        viol!("wrong rows before the failure: {}", d);
    }
    if let (Some(h), false) = (&out.hdr, out.rows.is_empty()) {
        if let Some(d) = diff_hdr(h, &t.hdr) {
            viol!("wrong header before the failure: {}", d);
        }
    }
    Ok(())
}

fn cut(ctx: &mut Ctx) -> Res {
    let d = gen_doc(&mut ctx.rng);
    let r = &mut ctx.rng;
    let framing = *r.pick(&[Length, LengthClose, Chunked, Http10Length, Length, LengthClose, Chunked, UntilClose, Http10]);
    let (bytes, start, inside) = response(r, "200 OK", framing, &d.body);
    let (path, format) = name_of(r, &d);
    let ext = format!("{}{}", d.content.ext(), ext_of(d.fmt));
    let format = format.or(Some(ext[1..].to_string()));
    let b = if d.content.csv || d.fmt.is_some() { vec![] } else { crate::dc::boundaries(&d.content.table) };
    for k in 0..4 {
        let r = &mut ctx.rng;
        let in_headers = k == 3;
        let at = if in_headers {
            r.us(start)
        } else if bytes.len() == start {
            break;
        } else if framing != Chunked && !b.is_empty() && r.bool() {
            // between rows, where dc data could end
            (start + *r.pick(&b)).min(bytes.len() - 1)
        } else if framing != Chunked && d.content.csv && d.fmt.is_none() && r.bool() {
            let l: Vec<usize> = d.body.iter().enumerate().filter(|(_, c)| **c == b'\n').map(|(i, _)| i + 1).collect();
            if l.is_empty() { start } else { (start + *r.pick(&l)).min(bytes.len() - 1) }
        } else {
            start + r.us(bytes.len() - start)
        };
        // without length, only a reset tells that something is missing
        let stop = if matches!(framing, UntilClose | Http10) || r.one_in(4) { Stop::Reset } else { Stop::Close };
        let (p, pause, _) = pieces(r, at, 0);
        let script = Script { bytes: bytes[..at].to_vec(), pieces: p, pause, stop };
        ctx.describe(format!("{:?} {} of {} bytes of a response with headers of {}, content {}, then {:?}; rows {}", framing, at, bytes.len(), start, ext, stop, short(&d.content.table.rows)));
        ctx.shape(true, &format!("{:?} {} {:?}", framing, at, bytes));
        let srv = Server::start(vec![(path.clone(), script)])?;
        let out = read_path(&srv.url(&path), format.as_deref(), &d.content.opt());
        match &out.end {
            End::Err(e) => {
                ensure!(!e.starts_with("MONITOR"), "{}", e);
                leading(&out, &d.content.table)?;
            }
            End::Panic(l, m) => viol!("panic at {}: {}", l, m),
            End::Ok => {
                if framing == Chunked && !in_headers && stop == Stop::Close && inside[at - start] {
                    ctx.known.push("http-chunked-cut-inside-chunk");
                    continue;
                }
                viol!("run ended as if the data were complete after {} of {} rows", out.rows.len(), d.content.table.rows.len());
            }
        }
        let n = srv.take().len();
        ensure!(n == 1, "{} requests", n);
        ctx.count("requests", 1);
        ctx.count("resets", (stop == Stop::Reset) as u64);
        if in_headers {
            ctx.count("cut_headers", 1);
        } else {
            ctx.count(match framing { Length => "cut_length", LengthClose => "cut_length_close", Chunked => "cut_chunked", Http10Length => "cut_http10_length", _ => "cut_close" }, 1);
        }
    }
    Ok(())
}

fn status(ctx: &mut Ctx) -> Res {
    let d = gen_doc(&mut ctx.rng);
    let r = &mut ctx.rng;
    let code = match r.below(3) {
        0 => *r.pick(&[400u64, 401, 403, 404, 410, 429, 500, 502, 503]),
        1 => *r.pick(&[300u64, 301, 302, 304, 305, 307, 399, 599]),
        _ => r.range(300, 599),
    };
    // redirects lead nowhere without location
    let framing = *r.pick(&FRAMINGS);
    let body = if r.one_in(4) { b"nope".to_vec() } else { d.body.clone() };
    let (mut bytes, start, _) = response(r, &format!("{} Whatever", code), framing, &body);
    if r.one_in(4) {
        bytes.truncate(start + r.us(bytes.len() - start + 1));
    }
    let (path, format) = name_of(r, &d);
    let format = format.or(Some(format!("{}{}", d.content.ext(), ext_of(d.fmt))[1..].to_string()));
    ctx.describe(format!("status {} {:?} for {}, {} bytes", code, framing, path, bytes.len()));
    ctx.shape(true, &format!("{} {:?} {:?}", code, framing, bytes));
    let script = Script { bytes, pieces: vec![], pause: false, stop: Stop::Close };
    let srv = Server::start(vec![(path.clone(), script)])?;
    let url = srv.url(&path);
    if ctx.idx % 24 == 5 {
        let o = format!("--format={}", format.as_ref().unwrap());
        let out = cli::chop_simple(&[&url, "-E", "--csv-in-epoch=ns", &o])?;
        ctx.count("cli_runs", 1);
        ensure!(out.code == Some(1) && out.out.is_empty() && !out.err.trim().is_empty(), "tool: {}", out.brief());
    } else {
        let out = read_path(&url, format.as_deref(), &d.content.opt());
        ensure!(matches!(out.end, End::Err(_)), "status {} ends with {:?} and {} rows", code, out.end, out.rows.len());
        ensure!(out.rows.is_empty() && out.hdr.is_none(), "status {} delivers rows", code);
    }
    let n = srv.take().len();
    ensure!(n == 1, "{} requests", n);
    ctx.count("requests", 1);
    ctx.count("bad_statuses", 1);
    Ok(())
}

fn odd(ctx: &mut Ctx) -> Res {
    let d = gen_doc(&mut ctx.rng);
    let r = &mut ctx.rng;
    let ext = format!("{}{}", d.content.ext(), ext_of(d.fmt));
    let opt = d.content.opt();
    let must_fail = |out: ReadOut, what: &str| -> Res {
        ensure!(matches!(out.end, End::Err(_)) && out.rows.is_empty(), "{}: {:?} after {} rows", what, out.end, out.rows.len());
        Ok(())
    };
    match r.below(4) {
        0 => {
            // a port that nobody listens on
            let port = match (1..1000).find(|p| TcpStream::connect(("127.0.0.1", *p)).is_err()) {
                Some(p) => p,
                None => return Err(Bad::Inconclusive("no closed port".into())),
            };
            let url = match r.below(4) {
                0 => format!("http:///x{}", ext),
                1 => format!("http://127.0.0.1:99999/x{}", ext),
                2 => format!("http://[::1/x{}", ext),
                _ => format!("http://127.0.0.1:{}/x{}", port, ext),
            };
            ctx.describe(url.clone());
            ctx.shape(true, &format!("{} {}", ctx.idx, url));
            ctx.count("refused", 1);
            must_fail(read_path(&url, None, &opt), "connection that can't be made")
        }
        1 => {
            let bytes = match r.below(7) {
                0 => vec![],
                1 => {
                    let n = r.size(300);
                    r.bytes(n)
                }
                2 => d.body.clone(),
                3 => b"HTTP/1.1\r\n\r\n".to_vec(),
                4 => b"HTTP/1.1 abc OK\r\nContent-Length: 3\r\n\r\nabc".to_vec(),
                5 => b"\r\n\r\nHTTP/1.1 200 OK\r\n\r\n".to_vec(),
                _ => [&b"ICY 200 OK\r\n\r\n"[..], &d.body].concat(),
            };
            let text = String::from_utf8_lossy(&bytes).into_owned();
            ctx.describe(format!("garbled response {:?}", short(&text)));
            ctx.shape(true, &format!("{:?}", bytes));
            ctx.count("garbled", 1);
            let path = format!("/x{}", ext);
            let srv = Server::start(vec![(path.clone(), Script { bytes, pieces: vec![], pause: false, stop: Stop::Close })])?;
            must_fail(read_path(&srv.url(&path), None, &opt), "garbled response")
        }
        2 => {
            let body = pack(r, Some(Fmt::Zip), &d.content.bytes, &format!("x{}", d.content.ext()));
            let (bytes, ..) = response(r, "200 OK", Length, &body);
            let named = r.bool();
            let path = if named { format!("/x{}.zip", d.content.ext()) } else { "/x".to_string() };
            ctx.describe(format!("zip file at {}", path));
            ctx.shape(true, &format!("{} {:?}", path, bytes));
            ctx.count("zip_refused", 1);
            let srv = Server::start(vec![(path.clone(), Script { bytes, pieces: vec![], pause: false, stop: Stop::Close })])?;
            must_fail(read_path(&srv.url(&path), None, &opt), "zip file")
        }
        _ => {
            // several urls and a local file, merged; all connections are open at the same time
            let c = gen_csv_content(r, 40, 5, false);
            let k = r.urange(2, 4);
            let mut scripts = vec![];
            let mut want: Vec<MRow> = vec![];
            for i in 0..k {
                let f = if r.bool() { Some(*r.pick(&FMTS[..5])) } else { None };
                let body = pack(r, f, &c.bytes, "inner");
                let framing = *r.pick(&FRAMINGS);
                let (bytes, start, _) = response(r, "200 OK", framing, &body);
                let (p, pause, _) = pieces(r, bytes.len(), start);
                scripts.push((format!("/{}.csv{}", i, ext_of(f)), Script { bytes, pieces: p, pause, stop: Stop::Close }));
            }
            for _ in 0..k + 1 {
                want.extend(c.table.rows.iter().cloned());
            }
            want.sort_by_key(|m| m.ts);
            let local = ctx.write("local.csv", &c.bytes);
            let names: Vec<String> = scripts.iter().map(|s| s.0.clone()).collect();
            ctx.describe(format!("{} urls {:?} merged with a file of {} rows", k, names, c.table.rows.len()));
            ctx.shape(true, &format!("{:?} {:?}", names, c.bytes));
            let srv = Server::start(scripts)?;
            let mut a: Vec<String> = names.iter().map(|n| srv.url(n)).collect();
            a.push(local);
            let o = ctx.path_str("o.dc");
            a.extend(["-o", &o, "--csv-in-epoch=ns", "--csv-in-has-header=yes", "--csv-in-ts-col=0", "--csv-in-delimiter=,"].iter().map(|s| s.to_string()));
            let out = cli::chop_simple(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
            ctx.count("cli_runs", 1);
            ctx.count("merged_urls", k as u64);
            ensure!(out.ok(), "tool failed: {}", out.brief());
            same(&read_path(&o, None, &CsvOpt::default()), &Table { hdr: c.table.hdr.clone(), rows: want })?;
            let n = srv.take().len();
            ensure!(n == k, "{} requests for {} urls", n, k);
            ctx.count("requests", n as u64);
            Ok(())
        }
    }
}

fn c22(ctx: &mut Ctx) -> Res {
    match ctx.idx % 12 {
        0..=4 => good(ctx),
        5 => status(ctx),
        6..=9 => cut(ctx),
        _ => odd(ctx),
    }
}
