//! C19 failures of reading and writing, C20 streaming and bounded memory
use super::driver::merge_graph;
use super::formats::{gen_content, gen_csv_content, gen_table, known_panic, Content};
use super::graph::{build, gen_graph, gen_sources, Graph, Node};
use super::inputs::{ext_of, pack};
use super::times::{csv_config, lib_write_csv};
use crate::cli::{self, chop, In};
use crate::comp::{Fmt, FMTS};
use crate::dc;
use crate::model::*;
use crate::probes::*;
use crate::rng::Rng;
use crate::run::{Bad, Ctx, Prop, Res, Tier};
use crate::{alloc, ensure, viol};
use chopper::chopper::chopper::{ChopperDriver, DataSink, HeaderSink, Source};
use chopper::chopper::types::{FieldType, Header, Row, TimestampRange};
use chopper::driver::driver::Driver;
use chopper::error::CliResult;
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::write::factory;
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::os::unix::io::FromRawFd;
use std::path::Path;
use std::rc::Rc;
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            level: "fault_enumeration",
            rule: "a case injects failures into one workload: a transport of our own whose reads fail at every offset (small inputs) or at sampled ones, once or from then on, with any of ten error kinds; a source, a step or a flush of a random graph that fails at any point; the library's sinks on a full device; or the command line tool with read, write and directory listing calls that fail or transfer little (preloaded shim), file size limits, /dev/full, pipes that are closed early or never read. The healthy run of the same workload is the reference. nontrivial: all; distinct by workload and faults",
            assumptions: &["failures of close are not seen", "standard streams are open in the right direction"],
            cases: (5_000, 90_000),
            budget: (35, 480),
            run: c19,
            must_observe: &["interrupted_reads", "read_faults_hit", "source_faults_hit", "step_faults_hit", "flush_faults_hit", "full_device_writes", "tool_read_faults_hit", "tool_write_faults_hit", "tool_list_faults_hit", "directory_faults_hit", "tool_short_transfers", "tool_fsize_runs", "tool_closed_pipes", "tool_full_stdout"],
        },
        Prop {
            id: "C20",
            level: "exploration",
            rule: "a case drives inputs that count the bytes and rows taken from them (in-memory sources, csv and dc through a transport, plain and compressed in small parts) into a sink that notes these counts at every row: they must stay within one row per input plus fixed-size buffers; with an end time the run must stop reading right after it. Long inputs of tens of megabytes that are made up while they are read are driven into the library's sinks with the allocator counting, at two lengths; and the tool is run on endless pipes and http responses. nontrivial: all; distinct by workload",
            assumptions: &["fixed-size buffers are at most 320 KB of plain data and 320 KB of encoded data, and memory at most 16 MB per input besides (two blocks of the largest lz4 block size take 8 MB), or 64 MB where a zstd window takes 8 MB"],
            cases: (1_500, 20_000),
            budget: (35, 480),
            run: c20,
            must_observe: &["rows_watched", "early_stops", "merges_watched", "bytes_streamed", "long_inputs", "long_inputs_of_distinct_rows", "tool_endless_inputs", "tool_endless_http_inputs", "tool_early_outputs"],
        },
    ]
}

const KINDS: [io::ErrorKind; 10] = [
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::TimedOut,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::NotFound,
    io::ErrorKind::ConnectionAborted,
];

fn c19(ctx: &mut Ctx) -> Res {
    match ctx.idx % 10 {
        0..=3 => read_faults(ctx),
        4..=6 => graph_faults(ctx),
        7 => sink_faults(ctx),
        _ => tool_faults(ctx),
    }
}

fn gen_cut(r: &mut Rng) -> Cut {
    match r.below(4) {
        0 => Cut::Whole,
        1 => Cut::Each(*r.pick(&[1usize, 2, 7, 100, 4096])),
        2 => Cut::Random(r.next(), *r.pick(&[3usize, 64, 9000])),
        _ => Cut::List(vec![r.urange(1, 9000), r.urange(1, 9000)]),
    }
}

fn is_prefix(a: &[MRow], b: &[MRow]) -> bool {
    a.len() <= b.len() && diff_rows(a, &b[..a.len()]).is_none()
}

fn read_faults(ctx: &mut Ctx) -> Res {
    let c: Content = if ctx.rng.one_in(6) { let n = ctx.rng.urange(8000, 40_000); super::inputs::content_of_size(&mut ctx.rng, n) } else { gen_content(&mut ctx.rng, 30) };
    let fmt = if ctx.rng.bool() { None } else { Some(*ctx.rng.pick(&FMTS[..5])) };
    let name = format!("x{}{}", c.ext(), ext_of(fmt));
    let bytes = Rc::new(pack(&mut ctx.rng, fmt, &c.bytes, "y"));
    let opt = c.opt();
    let log = new_log();
    let cut = gen_cut(&mut ctx.rng);
    let base = read_mem(&MemTransport::new(bytes.clone(), cut.clone(), &log), &name, None, &opt);
    ctx.describe(format!("reads of {} ({} bytes, {} rows, cut {:?})", name, bytes.len(), c.table.rows.len(), cut));
    ctx.shape(true, &format!("r {} {} {:?} {:x}", name, bytes.len(), cut, crate::rng::fnv(&bytes)));
    ensure!(base.end == End::Ok, "healthy run failed: {:?}", base.end);
    let reads = log.borrow().reads as usize;
    let mut points: Vec<usize> = if bytes.len() <= 250 {
        (0..=bytes.len()).collect()
    } else {
        let mut v = vec![0, 1, bytes.len(), bytes.len() - 1, bytes.len() / 2];
        v.extend([8191usize, 8192, 8193, 16384, 16385].iter().filter(|p| **p < bytes.len()));
        v.extend((0..12).map(|_| ctx.rng.us(bytes.len() + 1)));
        v
    };
    points.sort();
    points.dedup();
    for p in points {
        for once in [false, true] {
            // an interrupted read may be repeated, which gives everything, or taken as a failure
            let interrupted = once && ctx.rng.one_in(3);
            let kind = if interrupted { io::ErrorKind::Interrupted } else { *ctx.rng.pick(&KINDS) };
            let log = new_log();
            let mut t = MemTransport::new(bytes.clone(), cut.clone(), &log);
            if once {
                if !ctx.rng.one_in(3) {
                    continue;
                }
                t.fail_at = Some((ctx.rng.us(reads + 1), kind));
            } else {
                t.fail_after = Some((p, kind));
            }
            let out = read_mem(&t, &name, None, &opt);
            let hit = log.borrow().fails > 0;
            let what = || format!("{:?} after {:?} bytes, at {:?}", kind, t.fail_after, t.fail_at);
            ensure!(is_prefix(&out.rows, &base.rows), "rows are not a prefix of those of the intact input; {}", what());
            if hit {
                ctx.count(if interrupted { "interrupted_reads" } else { "read_faults_hit" }, 1);
                match &out.end {
                    End::Ok if interrupted => ensure!(out == base, "result differs from the healthy one after an interrupted read; {}", what()),
                    End::Ok => viol!("run ended as if the data were complete after {} of {} rows; {}", out.rows.len(), base.rows.len(), what()),
                    End::Err(_) => {}
                    End::Panic(l, m) => match known_panic(l) {
                        Some(k) => ctx.known.push(k),
                        None => viol!("panic at {}: {}; {}", l, m, what()),
                    },
                }
            } else {
                ctx.count("read_faults_not_reached", 1);
                ensure!(out == base, "result differs from the healthy one though no read failed; {}", what());
            }
        }
    }
    Ok(())
}

fn strip(g: &Graph, step: usize, act: &Act) -> Graph {
    Graph {
        chains: g
            .chains
            .iter()
            .map(|c| c.iter().map(|n| match n {
                Node::Step(id, _) if *id == step => Node::Step(*id, act.clone()),
                n => n.clone(),
            }).collect())
            .collect(),
        ..g.clone()
    }
}

fn run_graph(g: &Graph, hdrs: &[Hdr], inputs: &[Vec<MRow>], fail: Option<(usize, usize)>) -> Result<(Vec<Ev>, Result<(), String>), Bad> {
    let log = new_log();
    let sources: Vec<Box<dyn Source>> = inputs
        .iter()
        .enumerate()
        .map(|(i, rows)| {
            let mut s = MemSource::new(10_000 + i, &hdrs[i], rows.clone(), &log);
            if let Some((k, n)) = fail {
                if k == i {
                    s.fail_after = Some(n);
                }
            }
            Box::new(s) as Box<dyn Source>
        })
        .collect();
    let headers: Vec<Header> = sources.iter().map(|s| s.header().clone()).collect();
    let mut d = match Driver::new(sources, build(g, &log), TimestampRange { begin: None, end: None }, headers) {
        Ok(d) => d,
        Err(e) => viol!("graph was rejected: {}", e),
    };
    let r = ChopperDriver::drive(&mut d).map_err(|e| e.to_string());
    drop(d);
    let ev = std::mem::take(&mut log.borrow_mut().events);
    Ok((ev, r))
}

/// observed events have to be the healthy ones up to the failure, after which no row may follow
fn check_fault(ev: &[Ev], healthy: &[Ev], at: usize, fail_event: Option<Ev>, r: &Result<(), String>, what: &str) -> Res {
    ensure!(r.is_err(), "{}: run ended without an error", what);
    let mut want: Vec<Ev> = healthy[..at].to_vec();
    want.extend(fail_event);
    ensure!(ev.len() >= want.len() && ev[..want.len()] == want[..], "{}: events up to the failure differ from those of the healthy run", what);
    ensure!(ev[want.len()..].iter().all(|e| matches!(e, Ev::Flush(_))), "{}: rows were delivered after the failure: {:?}", what, &ev[want.len()..].iter().take(3).collect::<Vec<_>>());
    Ok(())
}

fn graph_faults(ctx: &mut Ctx) -> Res {
    let (hdrs, inputs) = gen_sources(&mut ctx.rng);
    let g = gen_graph(&mut ctx.rng, &hdrs);
    let total: usize = inputs.iter().map(|i| i.len()).sum();
    ctx.describe(format!("chains {:?} sources {}", g.chains, short(&inputs)));
    ctx.shape(total > 0, &format!("g {:?} {:?}", g.chains, inputs.iter().map(|i| i.len()).collect::<Vec<_>>()));
    let steps: Vec<usize> = g.chains.iter().flatten().filter_map(|n| match n {
            // a failing step passes headers on as they are
            Node::Step(_, Act::AddCol(_) | Act::DelCol) => None,
            Node::Step(id, _) => Some(*id),
            _ => None,
        }).collect();
    // sizes of graphs with many copies explode, leave these out
    let mut budget = 30_000i64;
    {
        let mut seen = std::collections::HashMap::new();
        let mut out = Vec::new();
        for (i, rows) in inputs.iter().enumerate() {
            for row in rows {
                super::graph::model_row(&g, i, 0, row, &mut seen, &mut out, &mut budget);
            }
        }
    }
    if budget < 0 {
        return Ok(());
    }
    // sources
    let (healthy, r) = run_graph(&g, &hdrs, &inputs, None)?;
    ensure!(r.is_ok(), "healthy run failed: {:?}", r);
    for _ in 0..4 {
        let i = ctx.rng.us(inputs.len());
        let n = ctx.rng.us(inputs[i].len() + 1);
        let (ev, r) = run_graph(&g, &hdrs, &inputs, Some((i, n)))?;
        let mut k = 0;
        let at = healthy.iter().position(|e| match e {
            Ev::Pull(s, _) | Ev::End(s) if *s == 10_000 + i => {
                k += 1;
                k == n + 1
            }
            _ => false,
        });
        match at {
            None => ensure!(r.is_ok() && ev == healthy, "source {} was not asked for row {}, still the run differs", i, n),
            Some(at) => {
                ctx.count("source_faults_hit", 1);
                check_fault(&ev, &healthy, at, Some(Ev::Fail(10_000 + i)), &r, &format!("source {} fails at row {}", i, n))?;
            }
        }
    }
    // steps
    for _ in 0..4 {
        if steps.is_empty() {
            break;
        }
        let s = *ctx.rng.pick(&steps);
        let g0 = strip(&g, s, &Act::Pass);
        let (healthy, r) = run_graph(&g0, &hdrs, &inputs, None)?;
        ensure!(r.is_ok(), "healthy run failed: {:?}", r);
        let flush = ctx.rng.one_in(3);
        let at: Vec<usize> = healthy.iter().enumerate().filter(|(_, e)| match e { Ev::Row(i, _) => !flush && *i == s, Ev::Flush(i) => flush && *i == s, _ => false }).map(|(k, _)| k).collect();
        if at.is_empty() {
            continue;
        }
        let n = ctx.rng.us(at.len());
        let g1 = strip(&g, s, &if flush { Act::FailFlush(n as u64) } else { Act::FailRow(n as u64) });
        let (ev, r) = run_graph(&g1, &hdrs, &inputs, None)?;
        ctx.count(if flush { "flush_faults_hit" } else { "step_faults_hit" }, 1);
        check_fault(&ev, &healthy, at[n] + 1, None, &r, &format!("step {} fails at {} {}", s, if flush { "flush" } else { "row" }, n))?;
    }
    Ok(())
}

fn drive_into(t: &Table, path: &str) -> Result<(), String> {
    let log = new_log();
    let src: Box<dyn Source> = Box::new(MemSource::new(0, &t.hdr, t.rows.clone(), &log));
    let headers = vec![src.header().clone()];
    let sink = factory::new_header_sink(Some(path), Some(csv_config(",", true, None, true, TimestampUnits::Nanos, None))).map_err(|e| e.to_string())?;
    let mut d = Driver::new(vec![src], merge_graph(1, sink), TimestampRange { begin: None, end: None }, headers).map_err(|e| e.to_string())?;
    ChopperDriver::drive(&mut d).map_err(|e| e.to_string())
}

fn sink_faults(ctx: &mut Ctx) -> Res {
    let t = gen_table(&mut ctx.rng, 40);
    let ext = *ctx.rng.pick(&["csv", "dc"]);
    ctx.describe(format!("{} rows x {} to a full device as {}", t.rows.len(), t.hdr.len(), ext));
    ctx.shape(true, &format!("s {} {}", ext, super::formats::table_sig(&t)));
    let p = ctx.path_str(&format!("full.{}", ext));
    std::os::unix::fs::symlink("/dev/full", &p).map_err(|e| Bad::Inconclusive(e.to_string()))?;
    ctx.count("full_device_writes", 1);
    let r = drive_into(&t, &p);
    ensure!(r.is_err(), "writing to a full device succeeded");
    let good = ctx.path_str(&format!("good.{}", ext));
    let r = drive_into(&t, &good);
    ensure!(r.is_ok(), "writing to a file failed: {:?}", r);
    Ok(())
}

fn tool_faults(ctx: &mut Ctx) -> Res {
    if ctx.rng.one_in(8) {
        return list_faults(ctx);
    }
    if ctx.rng.one_in(5) {
        return dir_faults(ctx);
    }
    // workload
    let big = ctx.rng.one_in(4);
    let c = if big { let rows = ctx.rng.urange(3000, 9000); gen_csv_content(&mut ctx.rng, rows, 20, false) } else { gen_content(&mut ctx.rng, 40) };
    let fmt = if ctx.rng.bool() { None } else { Some(*ctx.rng.pick(&FMTS)) };
    let name = format!("x{}{}", c.ext(), ext_of(fmt));
    let bytes = pack(&mut ctx.rng, fmt, &c.bytes, &format!("y{}", c.ext()));
    let src = ctx.write(&name, &bytes);
    let zip = fmt == Some(Fmt::Zip);
    let from_stdin = !zip && ctx.rng.one_in(3);
    let out_ext = *ctx.rng.pick(&["", "", "csv", "dc"]);
    let out_path = ctx.path_str(&format!("out.{}", out_ext));
    let mut args: Vec<String> = vec!["-E".into()];
    if c.csv {
        args.extend(["--csv-in-ts-col", "0", "--csv-in-epoch", "ns", "--csv-in-has-header", "yes", "--csv-in-delimiter", ","].iter().map(|s| s.to_string()));
    }
    let fname = name.clone();
    if from_stdin {
        args.push("-f".into());
        args.push(fname.clone());
    } else {
        args.push(src.clone());
    }
    if !out_ext.is_empty() {
        args.push("-o".into());
        args.push(out_path.clone());
    }
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let log = ctx.path_str("shim.log");
    let stdin = |from: bool| if from { In::File(Path::new(&src)) } else { In::Null };
    let base = chop(&args, stdin(from_stdin), cli::Env::default())?;
    ctx.describe(format!("tool {:?} stdin {} ({} bytes in, {} rows)", args, from_stdin, bytes.len(), c.table.rows.len()));
    ensure!(base.ok(), "healthy run failed: {}", base.brief());
    let take = |o: &cli::CliOut| -> Vec<u8> { if out_ext.is_empty() { o.out.clone() } else { std::fs::read(&out_path).unwrap_or_default() } };
    let full = take(&base);
    ctx.shape(true, &format!("t {:?} {} {}", args, bytes.len(), full.len()));
    for _ in 0..3 {
        let _ = std::fs::remove_file(&out_path);
        let _ = std::fs::remove_file(&log);
        let mut env = cli::Env::default();
        let mut vars: Vec<(String, String)> = vec![("SHIM_LOG".into(), log.clone()), ("LD_PRELOAD".into(), cli::shim())];
        let mut set = |k: &str, v: String| vars.push((k.into(), v));
        let rpath = if from_stdin { "fd:0".to_string() } else { src.clone() };
        let wpath = if out_ext.is_empty() { "fd:1".to_string() } else { out_path.clone() };
        let r = &mut ctx.rng;
        let what;
        match r.below(10) {
            0..=2 => {
                let at = if r.one_in(4) { r.us(2 * bytes.len() + 2) } else { r.us(bytes.len() + 1) };
                let errno = *r.pick(&[5usize, 104, 110, 12, 9999 - 9978]);
                let once = r.us(2);
                what = format!("read fails after {} bytes with {} once {}", at, errno, once);
                set("SHIM_RPATH", rpath);
                set("SHIM_R", format!("{}:{}:{}", at, errno, once));
                if r.one_in(3) {
                    set("SHIM_RMAX", r.urange(1, 5000).to_string());
                }
            }
            3..=5 => {
                let at = r.us(full.len() + 2);
                let errno = *r.pick(&[28usize, 5, 122, 27]);
                let once = r.us(2);
                what = format!("write fails after {} bytes with {} once {}", at, errno, once);
                set("SHIM_WPATH", wpath);
                set("SHIM_W", format!("{}:{}:{}", at, errno, once));
                if r.one_in(3) {
                    set("SHIM_WMAX", r.urange(1, 5000).to_string());
                }
            }
            6 => {
                let (a, b) = (r.urange(if big { 50 } else { 1 }, 3000), r.urange(if big { 50 } else { 1 }, 3000));
                what = format!("reads of at most {} and writes of at most {} bytes", a, b);
                set("SHIM_RPATH", rpath);
                set("SHIM_RMAX", a.to_string());
                set("SHIM_WPATH", wpath);
                set("SHIM_WMAX", b.to_string());
                ctx.count("tool_short_transfers", 1);
            }
            7 => {
                let n = r.us(full.len() + 2) as u64;
                what = format!("file size limit {}", n);
                vars.clear();
                env.fsize = Some(n);
                if out_ext.is_empty() {
                    let f = std::fs::File::create(&out_path).map_err(|e| Bad::Inconclusive(e.to_string()))?;
                    env.stdout = Some(f);
                }
                ctx.count("tool_fsize_runs", 1);
                let o = chop(&args, stdin(from_stdin), env)?;
                let got = std::fs::read(&out_path).unwrap_or_default();
                let hit = n < full.len() as u64;
                ensure!(full.starts_with(&got), "{}: output is not a prefix of the healthy one", what);
                if hit {
                    ensure!(!o.ok() && o.signal.is_none() && !o.panicked() && !o.err.trim().is_empty(), "{} of {} bytes not reported: {}", what, full.len(), o.brief());
                } else {
                    ensure!(o.ok() && got == full, "{}: {} bytes of output expected: {}", what, full.len(), o.brief());
                }
                continue;
            }
            8 if out_ext.is_empty() => {
                // standard output that is full, or a pipe that is never read
                if r.bool() {
                    what = "stdout is full".to_string();
                    env.stdout = Some(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| Bad::Inconclusive(e.to_string()))?);
                    ctx.count("tool_full_stdout", 1);
                    let o = chop(&args, stdin(from_stdin), env)?;
                    ensure!(!o.ok() && o.signal.is_none() && !o.panicked() && !o.err.trim().is_empty(), "{}: not reported: {}", what, o.brief());
                } else {
                    let mut fds = [0i32; 2];
                    if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_NONBLOCK | libc::O_CLOEXEC) } != 0 {
                        return Err(Bad::Inconclusive("pipe".into()));
                    }
                    let (mut rd, wr) = unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
                    what = "stdout is a pipe that nobody reads".to_string();
                    env.stdout = Some(wr);
                    let o = chop(&args, stdin(from_stdin), env)?;
                    let mut got = Vec::new();
                    let _ = rd.read_to_end(&mut got);
                    ctx.count("tool_full_stdout", 1);
                    ensure!(full.starts_with(&got), "{}: output is not a prefix of the healthy one", what);
                    ensure!(o.signal.is_none() && !o.panicked(), "{}: {}", what, o.brief());
                    ensure!(o.ok() == (got.len() == full.len()), "{}: {} of {} bytes written: {}", what, got.len(), full.len(), o.brief());
                }
                continue;
            }
            _ => {
                if !out_ext.is_empty() {
                    continue;
                }
                let n = r.us(full.len() + 1);
                what = format!("stdout is closed after {} of {} bytes", n, full.len());
                env.close_after = Some(n);
                ctx.count("tool_closed_pipes", 1);
                let o = chop(&args, stdin(from_stdin), env)?;
                ensure!(full.starts_with(&o.out), "{}: output is not a prefix of the healthy one", what);
                ensure!(!o.panicked(), "{}: {}", what, o.brief());
                if full.len() > n + 65536 {
                    ensure!(!o.ok(), "{}: not reported: {}", what, o.brief());
                }
                continue;
            }
        }
        env.vars = vars;
        let o = chop(&args, stdin(from_stdin), env)?;
        let fired = std::fs::read(&log).unwrap_or_default();
        let got = take(&o);
        ensure!(full.starts_with(&got), "{}: output is not a prefix of the healthy one: {} of {} bytes", what, got.len(), full.len());
        if fired.is_empty() {
            ensure!(o.ok() && got == full, "{}: nothing failed, still: {}", what, o.brief());
        } else {
            ctx.count(if fired.contains(&b'R') { "tool_read_faults_hit" } else { "tool_write_faults_hit" }, 1);
            ensure!(!o.ok(), "{}: run succeeded with {} of {} bytes of output", what, got.len(), full.len());
            ensure!(o.signal.is_none(), "{}: {}", what, o.brief());
            if o.panicked() {
                match o.err.lines().find(|l| l.contains("panicked at")).and_then(known_panic) {
                    Some(k) => ctx.known.push(k),
                    None => viol!("{}: {}", what, o.brief()),
                }
            }
            ensure!(!o.err.trim().is_empty(), "{}: no message: {}", what, o.brief());
        }
    }
    Ok(())
}

/// directories whose listing fails or whose files can't be read
fn list_faults(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.urange(1, 5);
    std::fs::create_dir(ctx.path("d")).map_err(|e| Bad::Inconclusive(e.to_string()))?;
    for i in 0..n {
        ctx.write(&format!("d/{}.csv", i), format!("time,a\n{},x{}\n", 1_000_000_000 + i, i).as_bytes());
    }
    let d = ctx.path_str("d");
    let log = ctx.path_str("shim.log");
    let args = ["-E", d.as_str()];
    let base = chop(&args, In::Null, cli::Env::default())?;
    ensure!(base.ok(), "healthy run failed: {}", base.brief());
    let kind = ctx.rng.below(3);
    ctx.shape(true, &format!("l {} {} {}", n, kind, ctx.idx));
    match kind {
        0 | 1 => {
            let k = ctx.rng.us(n + 3);
            ctx.describe(format!("listing of directory of {} files fails after {} entries", n, k));
            let mut env = cli::Env::default();
            env.vars = vec![("SHIM_LOG".into(), log.clone()), ("LD_PRELOAD".into(), cli::shim()), ("SHIM_DIR".into(), format!("{}:5", k))];
            let o = chop(&args, In::Null, env)?;
            if std::fs::read(&log).unwrap_or_default().contains(&b'D') {
                ctx.count("tool_list_faults_hit", 1);
                ensure!(!o.ok() && !o.panicked() && !o.err.trim().is_empty(), "failure to list the directory not reported: {}", o.brief());
            } else {
                ensure!(o == base, "nothing failed, still: {}", o.brief());
            }
        }
        _ => {
            // a file that exists in the listing, but can't be read
            let k = ctx.rng.us(n + 1);
            let target = *ctx.rng.pick(&["/proc/self/mem", "/nonexistent/file", "self-loop.csv"]);
            let p = ctx.path(&format!("d/{}x.csv", k));
            let target = if target == "self-loop.csv" { p.to_str().unwrap().to_string() } else { target.to_string() };
            ctx.describe(format!("directory of {} files with one more, which is a link to {}", n, target));
            std::os::unix::fs::symlink(&target, &p).map_err(|e| Bad::Inconclusive(e.to_string()))?;
            let o = chop(&args, In::Null, cli::Env::default())?;
            ctx.count("tool_list_faults_hit", 1);
            ensure!(base.out.starts_with(&o.out), "output is not a prefix of the healthy one: {}", o.brief());
            ensure!(!o.ok() && !o.panicked() && !o.err.trim().is_empty(), "file that can't be read not reported: {}", o.brief());
        }
    }
    Ok(())
}

/// one of the files of a directory fails to be read, or is damaged, after some of its rows
fn dir_faults(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.urange(1, 4);
    let cols = ctx.rng.urange(1, 3);
    let hdr = Hdr { names: (0..cols).map(|i| format!("c{}", i)).collect(), types: vec![FieldType::String; cols] };
    let bad = ctx.rng.us(n);
    let cut = ctx.rng.one_in(3);
    let wide = if ctx.rng.one_in(3) { 3000 } else { 20 };
    let mut names = Vec::new();
    let mut before = 0;
    let mut size = 0;
    let mut spot = 0;
    let mut whole = Vec::new();
    for i in 0..n {
        let rows = ctx.rng.urange(if i == bad { 2 } else { 0 }, 20);
        let rows: Vec<MRow> = (0..rows).map(|k| MRow { ts: k as u64, v: (0..cols).map(|c| Val::Str(format!("f{}r{}c{}{}", i, k, c, "y".repeat(ctx.rng.us(wide))))).collect() }).collect();
        let t = Table { hdr: hdr.clone(), rows };
        let mut bytes = dc::encode(&t);
        let fmt = if ctx.rng.bool() || cut && i == bad { None } else { Some(*ctx.rng.pick(&FMTS[..5])) };
        if i < bad {
            before += t.rows.len();
        }
        if i == bad {
            let b = dc::boundaries(&t);
            let k = ctx.rng.us(t.rows.len());
            spot = ctx.rng.urange(b[k] + 1, b[k + 1] - 1);
            whole = bytes.clone();
        }
        bytes = pack(&mut ctx.rng, fmt, &bytes, "y");
        let name = format!("d/{}.dc{}", i, ext_of(fmt));
        ctx.write(&name, &bytes);
        if i == bad {
            size = bytes.len();
        }
        names.push(name);
    }
    let d = ctx.path_str("d");
    let args = ["-E", d.as_str()];
    let base = chop(&args, In::Null, cli::Env::default())?;
    ensure!(base.ok(), "healthy run failed: {}", base.brief());
    let p = ctx.path_str(&names[bad]);
    ctx.shape(true, &format!("d {:?} {} {} {} {}", names, bad, cut, size, spot));
    let first_rows = |o: &[u8]| o.iter().filter(|b| **b == b'\n').count().saturating_sub(1);
    for _ in 0..3 {
        let mut env = cli::Env::default();
        let what;
        let log = ctx.path_str("shim.log");
        let _ = std::fs::remove_file(&log);
        if cut {
            std::fs::write(&p, &whole[..spot]).map_err(|e| Bad::Inconclusive(e.to_string()))?;
            what = format!("{} cut to {} of {} bytes", names[bad], spot, size);
        } else {
            let at = ctx.rng.us(size + 1);
            let errno = *ctx.rng.pick(&[5usize, 104, 110, 12, 21]);
            what = format!("{}: read fails after {} of {} bytes with {}", names[bad], at, size, errno);
            env.vars = vec![("SHIM_LOG".into(), log.clone()), ("LD_PRELOAD".into(), cli::shim()), ("SHIM_RPATH".into(), p.clone()), ("SHIM_R".into(), format!("{}:{}:{}", at, errno, ctx.rng.us(2)))];
            if ctx.rng.bool() {
                env.vars.push(("SHIM_RMAX".into(), ctx.rng.urange(1, 2000).to_string()));
            }
        }
        ctx.describe(format!("directory of {:?}: {}", names, what));
        let o = chop(&args, In::Null, env)?;
        if !cut && !std::fs::read(&log).unwrap_or_default().contains(&b'R') {
            ensure!(o == base, "{}: nothing failed, still: {}", what, o.brief());
            continue;
        }
        ctx.count("directory_faults_hit", 1);
        ensure!(base.out.starts_with(&o.out), "{}: output is not a prefix of the healthy one: {}", what, o.brief());
        ensure!(!o.ok() && o.signal.is_none() && !o.panicked() && !o.err.trim().is_empty(), "{}: not reported: {}", what, o.brief());
        if cut {
            ensure!(first_rows(&o.out) >= before, "{}: {} rows came, the files before it have {}", what, first_rows(&o.out), before);
            break;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ C20

/// a reader's buffers: a few of the usual 64 KB and 256 KB ones
const SLACK: usize = 320 << 10;

fn c20(ctx: &mut Ctx) -> Res {
    match ctx.idx % 30 {
        0 | 10 | 20 => long_input(ctx),
        5 => endless_tool(ctx),
        15 => early_output(ctx),
        n if n % 3 == 1 => watch_sources(ctx),
        _ => watch_bytes(ctx),
    }
}

/// in-memory sources: no more than one row of each may be ahead
fn watch_sources(ctx: &mut Ctx) -> Res {
    let k = ctx.rng.urange(1, 8);
    let hdr = Hdr { names: vec!["a".into()], types: vec![FieldType::String] };
    let inputs: Vec<Vec<MRow>> = (0..k)
        .map(|i| {
            let n = ctx.rng.size(60);
            let mut ts: Vec<u64> = (0..n).map(|_| ctx.rng.below(100)).collect();
            ts.sort();
            ts.into_iter().map(|t| MRow { ts: t, v: vec![Val::Str(format!("{}", i))] }).collect()
        })
        .collect();
    let b = if ctx.rng.bool() { Some(ctx.rng.below(100)) } else { None };
    let e = if ctx.rng.bool() { Some(ctx.rng.below(100)) } else { None };
    ctx.describe(format!("{} sources of {:?} rows, begin {:?} end {:?}", k, inputs.iter().map(|i| i.len()).collect::<Vec<_>>(), b, e));
    ctx.shape(true, &format!("m {:?} {:?} {:?}", inputs.iter().map(|i| i.iter().map(|r| r.ts).collect::<Vec<_>>()).collect::<Vec<_>>(), b, e));
    let log = new_log();
    let sources: Vec<Box<dyn Source>> = inputs.iter().enumerate().map(|(i, r)| Box::new(MemSource::new(i, &hdr, r.clone(), &log)) as Box<dyn Source>).collect();
    let headers = vec![hdr.to(); k];
    let mut d = match Driver::new(sources, merge_graph(k, Probe::new(999, Act::Pass, &log)), TimestampRange { begin: b, end: e }, headers) {
        Ok(d) => d,
        Err(e) => viol!("{}", e),
    };
    if let Err(e) = ChopperDriver::drive(&mut d) {
        viol!("run failed: {}", e);
    }
    let mut ahead = vec![0i64; k];
    let mut past_end = vec![0u32; k];
    for ev in &log.borrow().events {
        match ev {
            Ev::Pull(i, ts) => {
                ensure!(past_end[*i] == 0, "source {} was read on after a row at or after the end time", i);
                if e.map(|e| *ts >= e).unwrap_or(false) {
                    past_end[*i] += 1;
                } else if b.map(|b| *ts >= b).unwrap_or(true) {
                    ahead[*i] += 1;
                    ensure!(ahead[*i] <= 1, "{} rows of source {} were read before the first of them was delivered", ahead[*i], i);
                }
            }
            Ev::Row(999, r) => {
                let i: usize = if let Val::Str(s) = &r.v[0] { s.parse().unwrap() } else { 0 };
                ahead[i] -= 1;
                ctx.count("rows_watched", 1);
            }
            _ => {}
        }
    }
    ctx.count("early_stops", past_end.iter().map(|x| *x as u64).sum());
    if k > 1 {
        ctx.count("merges_watched", 1);
    }
    Ok(())
}

/// sink that notes how much has been read from each input at every row
struct Watch {
    logs: Vec<SLog>,
    seen: Rc<RefCell<Vec<(u64, Vec<u64>, String)>>>,
}
impl HeaderSink for Watch {
    fn process_header(self: Box<Self>, _h: &mut Header) -> CliResult<Box<dyn DataSink>> {
        Ok(self)
    }
}
impl DataSink for Watch {
    fn write_row(&mut self, rows: &mut Vec<Row>) -> CliResult<()> {
        let first = match rows[0].field_values.last() {
            Some(chopper::chopper::types::FieldValue::String(s)) => s.chars().take(2).collect(),
            _ => String::new(),
        };
        self.seen.borrow_mut().push((rows[0].timestamp, self.logs.iter().map(|l| l.borrow().bytes).collect(), first));
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

/// input in parts: rows, and at which offsets of plain and encoded data they end
struct Parted {
    bytes: Rc<Vec<u8>>,
    name: String,
    csv: bool,
    ts: Vec<u64>,
    /// end of each row in plain data
    row_end: Vec<usize>,
    /// ends of parts in plain and encoded data
    part_end: Vec<(usize, usize)>,
}
impl Parted {
    /// most encoded bytes that may have been read when plain data up to p is needed
    fn allowed(&self, p: usize) -> usize {
        let p = p + SLACK;
        self.part_end.iter().find(|e| e.0 >= p).map(|e| e.1 + SLACK).unwrap_or(usize::MAX)
    }
    fn allowed_rows(&self, n: usize) -> usize {
        if n == 0 {
            self.allowed(0)
        } else {
            self.row_end.get(n - 1).map(|p| self.allowed(*p)).unwrap_or(usize::MAX)
        }
    }
}
fn strip_end_mark(fmt: Fmt, mut b: Vec<u8>) -> Vec<u8> {
    if fmt == Fmt::Lz4Block && b.len() >= 21 {
        let n = b.len() - 21;
        if &b[n..n + 8] == b"LZ4Block" && b[n + 9..n + 17] == [0; 8] {
            b.truncate(n);
        }
    }
    b
}
fn gen_parted(r: &mut Rng, mark: usize, total: usize, step: u64, fmt: Option<Fmt>) -> Parted {
    let csv = r.bool();
    let width = *r.pick(&[4usize, 20, 100, 400]);
    let hdr = if csv { Hdr { names: vec!["ts".into(), "a".into()], types: vec![FieldType::String; 2] } } else { Hdr { names: vec!["a".into()], types: vec![FieldType::String] } };
    let mut plain = if csv { b"ts,a\n".to_vec() } else { dc::encode(&Table { hdr: hdr.clone(), rows: vec![] }) };
    let mut ts = Vec::new();
    let mut row_end = Vec::new();
    let mut t = 1000 + r.below(step.max(1) * 10);
    let mut bytes = Vec::new();
    let mut part_end = Vec::new();
    let mut at = 0;
    let part = *r.pick(&[500usize, 4000, 30_000]);
    // every frame takes a run of the compressor
    let part = if fmt == Some(Fmt::Zst) { part.max(4000) } else { part };
    while plain.len() < total {
        let pad: String = (0..r.us(width)).map(|_| (b'a' + r.below(26) as u8) as char).collect();
        let text = format!("{}:{}", mark, pad);
        if csv {
            plain.extend(format!("{},{}\n", t, text).bytes());
        } else {
            plain.extend(t.to_be_bytes());
            plain.push(0);
            plain.extend((text.len() as u16).to_be_bytes());
            plain.extend(text.bytes());
        }
        ts.push(t);
        row_end.push(plain.len());
        t += r.below(2 * step + 1);
        if plain.len() - at >= part || plain.len() >= total {
            match fmt {
                None => bytes.extend_from_slice(&plain[at..]),
                Some(f) => bytes.extend(strip_end_mark(f, pack(r, Some(f), &plain[at..], "x"))),
            }
            at = plain.len();
            part_end.push((at, bytes.len()));
        }
    }
    Parted { bytes: Rc::new(bytes), name: format!("x{}{}", if csv { ".csv" } else { ".dc" }, ext_of(fmt)), csv, ts, row_end, part_end }
}

/// inputs that count their bytes
fn watch_bytes(ctx: &mut Ctx) -> Res {
    let k = if ctx.rng.one_in(3) { ctx.rng.urange(2, 4) } else { 1 };
    let mut logs = Vec::new();
    let mut parts = Vec::new();
    let mut sources: Vec<Box<dyn Source>> = Vec::new();
    let step = *ctx.rng.pick(&[1u64, 10, 1000]);
    let mut names = Vec::new();
    let mut cuts = Vec::new();
    for i in 0..k {
        let total = ctx.rng.urange(500_000, if k == 1 { 2_000_000 } else { 1_000_000 });
        let fmt = if ctx.rng.one_in(3) { None } else { Some(*ctx.rng.pick(&FMTS[..5])) };
        let p = gen_parted(&mut ctx.rng, i, total, step, fmt);
        let cut = gen_cut(&mut ctx.rng);
        names.push(p.name.clone());
        cuts.push(cut);
        parts.push(p);
    }
    let last = parts.iter().map(|p| *p.ts.last().unwrap()).min().unwrap();
    let end = if ctx.rng.one_in(5) { None } else { Some(1000 + ctx.rng.below((last - 1000) / 2 + 1)) };
    let begin = if ctx.rng.one_in(3) { Some(1000 + ctx.rng.below(last - 1000 + 1)) } else { None };
    ctx.describe(format!("{} inputs {:?} of {:?} bytes cut {:?}, begin {:?} end {:?}", k, names, parts.iter().map(|p| p.bytes.len()).collect::<Vec<_>>(), cuts, begin, end));
    ctx.shape(true, &format!("b {:?} {:?} {:?} {:?}", names, parts.iter().map(|p| p.bytes.len()).collect::<Vec<_>>(), begin, end));
    for i in 0..k {
        let log = new_log();
        let t = MemTransport::new(parts[i].bytes.clone(), cuts[i].clone(), &log);
        let opt = if parts[i].csv { CsvOpt::nanos(true, 0, ",") } else { CsvOpt::default() };
        let mut f = factory(&opt, None, Some(vec![t.box_clone()])).map_err(|e| Bad::Violation(e.to_string()))?;
        match f.create_source_from_input(&input(&format!("mem://{}", parts[i].name), None)) {
            Ok(s) => sources.push(s),
            Err(e) => viol!("input {} failed: {}", i, e),
        }
        // opening may look at no more than the buffers
        let b = log.borrow().bytes as usize;
        ensure!(b <= parts[i].allowed(0), "{} bytes of input {} were read just to open it, expected at most {}", b, i, parts[i].allowed(0));
        logs.push(log);
    }
    // columns of csv and dc differ, so these are watched one by one
    let mixed = k > 1 && parts.iter().any(|p| p.csv != parts[0].csv);
    let runs: Vec<Vec<usize>> = if mixed { (0..k).map(|i| vec![i]).collect() } else { vec![(0..k).collect()] };
    let mut sources: Vec<Option<Box<dyn Source>>> = sources.into_iter().map(Some).collect();
    for ids in runs {
        let seen = Rc::new(RefCell::new(Vec::new()));
        let srcs: Vec<Box<dyn Source>> = ids.iter().map(|i| sources[*i].take().unwrap()).collect();
        let headers: Vec<Header> = srcs.iter().map(|s| s.header().clone()).collect();
        let sink = Box::new(Watch { logs: ids.iter().map(|i| logs[*i].clone()).collect(), seen: seen.clone() });
        let mut d = match Driver::new(srcs, merge_graph(ids.len(), sink), TimestampRange { begin, end }, headers) {
            Ok(d) => d,
            Err(e) => viol!("{}", e),
        };
        if let Err(e) = ChopperDriver::drive(&mut d) {
            viol!("run failed: {}", e);
        }
        // rows of an input that are done with: skipped or delivered
        let mut pos: Vec<usize> = ids.iter().map(|i| parts[*i].ts.iter().take_while(|t| begin.map(|b| **t < b).unwrap_or(false)).count()).collect();
        let seen = seen.borrow();
        let mut max_ahead = 0;
        for (ts, bytes, mark) in seen.iter() {
            let who = ids.iter().position(|i| format!("{}:", i) == *mark).unwrap();
            let p = &parts[ids[who]];
            ensure!(pos[who] < p.ts.len() && p.ts[pos[who]] == *ts, "row {} of input {} expected, got timestamp {}", pos[who], ids[who], ts);
            pos[who] += 1;
            for (j, i) in ids.iter().enumerate() {
                // the row being delivered and the one after that
                let lim = parts[*i].allowed_rows((pos[j] + 1).min(parts[*i].ts.len()));
                let b = bytes[j] as usize;
                if lim != usize::MAX {
                    max_ahead = max_ahead.max(b.saturating_sub(lim.saturating_sub(2 * SLACK)));
                }
                ensure!(b <= lim, "{} bytes of input {} were read when its first {} rows had been delivered, expected at most {}", b, i, pos[j], lim);
            }
            ctx.count("rows_watched", 1);
        }
        ctx.max("bytes_ahead", max_ahead as u64);
        if let Some(e) = end {
            for i in &ids {
                let n = parts[*i].ts.iter().take_while(|t| **t < e).count();
                let lim = parts[*i].allowed_rows((n + 2).min(parts[*i].ts.len()));
                let b = logs[*i].borrow().bytes as usize;
                ensure!(b <= lim, "{} bytes of input {} were read though its row {} is at or after the end time, expected at most {}", b, i, n, lim);
                if lim < parts[*i].bytes.len() {
                    ctx.count("early_stops", 1);
                }
            }
        }
        if ids.len() > 1 {
            ctx.count("merges_watched", 1);
        }
    }
    Ok(())
}

/// transport whose input is made up as it is read: a head, then a body over and over
#[derive(Clone)]
struct Repeat {
    head: Rc<Vec<u8>>,
    body: Rc<Vec<u8>>,
    /// makes the body of given number, if they differ
    make: Option<Rc<dyn Fn(u64) -> Vec<u8>>>,
    times: u64,
    bytes: Rc<RefCell<u64>>,
}
struct RepeatReader {
    r: Repeat,
    cur: Rc<Vec<u8>>,
    pos: usize,
    left: u64,
}
impl Read for RepeatReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        while self.pos == self.cur.len() && self.left > 0 {
            self.cur = match &self.r.make {
                None => self.r.body.clone(),
                Some(f) => Rc::new(f(self.r.times - self.left)),
            };
            self.pos = 0;
            self.left -= 1;
        }
        let n = buf.len().min(self.cur.len() - self.pos);
        buf[..n].copy_from_slice(&self.cur[self.pos..self.pos + n]);
        self.pos += n;
        *self.r.bytes.borrow_mut() += n as u64;
        Ok(n)
    }
}
impl StreamingTransport for Repeat {
    fn can_open(&self, path: &Path) -> bool {
        path.to_str().map(|p| p.starts_with("rep:")).unwrap_or(false)
    }
    fn open(&self, _p: &Path) -> io::Result<Box<dyn io::Read>> {
        Ok(Box::new(RepeatReader { r: self.clone(), cur: self.head.clone(), pos: 0, left: self.times }))
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "repeat"
    }
}

/// peak memory must not depend on the length of input
fn long_input(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let csv = r.bool();
    // every row has a time and values of its own
    let distinct = r.one_in(3);
    let fmt = if r.one_in(3) || distinct { None } else { Some(*r.pick(&FMTS[..5])) };
    let rows = r.urange(200, 2000);
    let width = *r.pick(&[3usize, 8, 30]);
    let (mut head, mut body);
    if csv {
        head = b"ts,a,b\n".to_vec();
        body = Vec::new();
        for _ in 0..rows {
            body.extend(format!("5000,{},{}\n", r.below(100_000), "x".repeat(r.us(width))).bytes());
        }
    } else {
        let t = |rows| Table { hdr: Hdr { names: vec!["a".into(), "b".into()], types: vec![FieldType::Int, FieldType::String] }, rows };
        head = dc::encode(&t(vec![]));
        let v = (0..rows).map(|_| MRow { ts: 5000, v: vec![Val::Int(r.below(100_000) as i32), Val::Str("x".repeat(r.us(width)))] }).collect();
        body = dc::encode(&t(v))[head.len()..].to_vec();
    }
    let mut make: Option<Rc<dyn Fn(u64) -> Vec<u8>>> = None;
    if distinct {
        let f = move |i: u64| -> Vec<u8> {
            let mut b = Vec::with_capacity(rows * 44);
            for k in 0..rows as u64 {
                let n = i * rows as u64 + k;
                let t = 1_600_000_000_000_000_000 + n * 1_000_000_000;
                if csv {
                    let _ = write!(b, "{:020},{:08},t{:08}\n", t, n, n);
                } else {
                    b.extend_from_slice(&t.to_be_bytes());
                    b.push(0);
                    b.extend_from_slice(&(n as i32).to_be_bytes());
                    let _ = write!(b, "\0\u{9}t{:08}", n);
                }
            }
            b
        };
        body = f(0);
        make = Some(Rc::new(f));
    }
    let plain = body.len();
    if let Some(f) = fmt {
        head = strip_end_mark(f, pack(r, Some(f), &head, "x"));
        body = strip_end_mark(f, pack(r, Some(f), &body, "x"));
    }
    let name = format!("rep://x{}{}", if csv { ".csv" } else { ".dc" }, ext_of(fmt));
    let k = if r.one_in(3) { 2 } else { 1 };
    let out_ext = *r.pick(&["csv", "dc"]);
    let human = r.bool();
    let small: usize = if ctx.tier == Tier::Thorough { 8 << 20 } else { *r.pick(&[1, 1, 2]) << 20 };
    let times = ((small / k / plain).max(1)) as u64;
    let out = ctx.path_str(&format!("null.{}", out_ext));
    std::os::unix::fs::symlink("/dev/null", &out).map_err(|e| Bad::Inconclusive(e.to_string()))?;
    ctx.describe(format!("{} {}inputs {} with a body of {} plain bytes, {} rows, {} and {} times, to {}", k, if distinct { "varying " } else { "" }, name, plain, rows, times, times * 4, out_ext));
    ctx.shape(true, &format!("l {} {} {} {} {}", name, plain, rows, k, out_ext));
    let mut peaks = Vec::new();
    for m in [times, times * 4] {
        let bytes = Rc::new(RefCell::new(0));
        let base = alloc::reset();
        {
            let t = Repeat { head: Rc::new(head.clone()), body: Rc::new(body.clone()), make: make.clone(), times: m, bytes: bytes.clone() };
            let opt = if csv { CsvOpt::nanos(true, 0, ",") } else { CsvOpt::default() };
            let mut f = factory(&opt, None, Some(vec![t.box_clone()])).map_err(|e| Bad::Violation(e.to_string()))?;
            let mut srcs = Vec::new();
            for _ in 0..k {
                match f.create_source_from_input(&input(&name, None)) {
                    Ok(s) => srcs.push(s),
                    Err(e) => viol!("input failed: {}", e),
                }
            }
            let headers: Vec<Header> = srcs.iter().map(|s| s.header().clone()).collect();
            let cfg = csv_config(",", true, None, !human, TimestampUnits::Nanos, Some(chrono_tz::Europe::Paris));
            let sink = factory::new_header_sink(Some(&out), Some(cfg)).map_err(|e| Bad::Violation(e.to_string()))?;
            let mut d = match Driver::new(srcs, merge_graph(k, sink), TimestampRange { begin: None, end: None }, headers) {
                Ok(d) => d,
                Err(e) => viol!("{}", e),
            };
            if let Err(e) = ChopperDriver::drive(&mut d) {
                viol!("run failed: {}", e);
            }
        }
        let peak = alloc::peak().saturating_sub(base);
        let want = (head.len() as u64 + m * body.len() as u64) * k as u64;
        let got = *bytes.borrow();
        ensure!(got == want, "{} bytes were read of {}", got, want);
        ctx.count("bytes_streamed", m * plain as u64 * k as u64);
        // zstd at level 19 needs a window of 8 MB, which the decoder keeps several times
        let most = if fmt == Some(Fmt::Zst) { 64 << 20 } else { 16 << 20 };
        ensure!(peak <= k * most, "{} bytes of memory were used to process {} bytes", peak, m * plain as u64);
        peaks.push(peak);
    }
    ctx.max("peak_memory", *peaks.iter().max().unwrap() as u64);
    ensure!(peaks[1] <= peaks[0] + (256 << 10), "memory use grows with the length of input: {} bytes for {} times, {} for {}", peaks[0], times, peaks[1], times * 4);
    ctx.count("long_inputs", 1);
    if distinct {
        ctx.count("long_inputs_of_distinct_rows", 1);
    }
    Ok(())
}

fn spawn_tool(args: &[&str]) -> Result<std::process::Child, Bad> {
    std::process::Command::new(cli::bin("chop"))
        .args(args)
        .env_clear()
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .map_err(|e| Bad::Inconclusive(format!("spawn: {}", e)))
}

/// waits for the end of a child; None if it doesn't end; with its peak resident memory
fn wait_with_rss(child: &mut std::process::Child, secs: u64) -> Option<(i32, u64)> {
    let until = Instant::now() + Duration::from_secs(secs);
    let pid = child.id() as i32;
    loop {
        let mut st = 0;
        let mut ru: libc::rusage = unsafe { std::mem::zeroed() };
        let r = unsafe { libc::wait4(pid, &mut st, libc::WNOHANG, &mut ru) };
        if r == pid {
            let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { -1 };
            return Some((code, ru.ru_maxrss as u64 * 1024));
        }
        if r < 0 || Instant::now() > until {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::wait4(pid, &mut st, 0, std::ptr::null_mut());
            }
            return None;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

/// an endless pipe and an end time
fn endless_tool(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.urange(1, 60_000) as u64;
    let fmt = if ctx.rng.one_in(3) { None } else { Some(*ctx.rng.pick(&[Fmt::Gz, Fmt::Lz4, Fmt::Lzf, Fmt::Zst])) };
    let csv = ctx.rng.bool();
    let end = (1_000_000_000 + n).to_string();
    let f = format!("{}{}", if csv { "csv" } else { "dc" }, ext_of(fmt));
    // over http: in chunks, or until the connection is closed
    let http = if ctx.idx / 30 % 2 == 1 { Some(ctx.rng.bool()) } else { None };
    ctx.describe(format!("endless {} on {}, end after {} rows", f, match http { None => "stdin", Some(true) => "http in chunks", Some(false) => "http" }, n));
    ctx.shape(true, &format!("e {} {} {:?}", f, n, http));
    let listener = match http {
        None => None,
        Some(_) => match std::net::TcpListener::bind("127.0.0.1:0") {
            Ok(l) => Some(l),
            Err(e) => return Err(Bad::Inconclusive(format!("can't listen on the loopback interface: {}", e))),
        },
    };
    let url = match &listener {
        None => String::new(),
        Some(l) => format!("http://127.0.0.1:{}/a.{}", l.local_addr().map_err(|e| Bad::Inconclusive(e.to_string()))?.port(), f),
    };
    let mut args = vec!["-E", "-e", end.as_str(), "-g", "s", "-f", f.as_str()];
    if http.is_some() {
        args.push(&url);
    }
    // parts of 20000 rows, made up to well behind the end, then over and over the last one
    let mut parts: Vec<Vec<u8>> = Vec::new();
    let mut t = 1_000_000_000u64;
    while t < 1_000_000_000 + n + 20_000 {
        let mut p = Vec::new();
        if t == 1_000_000_000 {
            p = if csv { b"time,a\n".to_vec() } else { dc::encode(&Table { hdr: Hdr { names: vec!["a".into()], types: vec![FieldType::String] }, rows: vec![] }) };
        }
        for _ in 0..20_000 {
            if csv {
                p.extend(format!("{},x\n", t).bytes());
            } else {
                p.extend((t * 1_000_000_000).to_be_bytes());
                p.extend([0, 0, 1, b'x']);
            }
            t += 1;
        }
        parts.push(match fmt {
            None => p,
            Some(f) => pack(&mut ctx.rng, Some(f), &p, "x"),
        });
    }
    let mut child = spawn_tool(&args)?;
    let mut si = child.stdin.take().unwrap();
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let mut out = Vec::new();
    let mut err = String::new();
    let (end, fed) = std::thread::scope(|s| {
        let stop = &stop;
        let feeder = s.spawn(move || {
            let mut fed = 0u64;
            let mut i = 0;
            let mut to: Box<dyn Write> = match (&listener, http) {
                (Some(l), Some(chunks)) => {
                    drop(si);
                    let _ = l.set_nonblocking(true);
                    let mut c = loop {
                        match l.accept() {
                            Ok((c, _)) => break c,
                            Err(_) if stop.load(std::sync::atomic::Ordering::SeqCst) => return 0,
                            Err(_) => std::thread::sleep(Duration::from_millis(5)),
                        }
                    };
                    let _ = c.set_nonblocking(false);
                    let _ = c.set_write_timeout(Some(Duration::from_secs(20)));
                    let mut req = Vec::new();
                    let mut b = [0u8; 1024];
                    while !req.windows(4).any(|w| w == b"\r\n\r\n") {
                        match c.read(&mut b) {
                            Ok(0) | Err(_) => return 0,
                            Ok(n) => req.extend_from_slice(&b[..n]),
                        }
                    }
                    let head: &[u8] = if chunks { b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" } else { b"HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n" };
                    if c.write_all(head).is_err() {
                        return 0;
                    }
                    Box::new(c)
                }
                _ => Box::new(si),
            };
            while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                let p = &parts[i.min(parts.len() - 1)];
                let r = if http == Some(true) {
                    let chunk = [format!("{:x}\r\n", p.len()).as_bytes(), p, b"\r\n"].concat();
                    to.write_all(&chunk)
                } else {
                    to.write_all(p)
                };
                if r.is_err() {
                    break;
                }
                fed += p.len() as u64;
                i += 1;
            }
            fed
        });
        let out = &mut out;
        let err = &mut err;
        s.spawn(move || {
            let _ = so.read_to_end(out);
        });
        s.spawn(move || {
            let _ = se.read_to_string(err);
        });
        let r = wait_with_rss(&mut child, 120);
        stop.store(true, std::sync::atomic::Ordering::SeqCst);
        (r, feeder.join().unwrap_or(0))
    });
    ctx.count("tool_endless_inputs", 1);
    if http.is_some() {
        ctx.count("tool_endless_http_inputs", 1);
    }
    let (code, rss) = match end {
        None => viol!("selection from an endless input does not finish, {} bytes were read", fed),
        Some(x) => x,
    };
    ensure!(code == 0, "exit code {}: {}", code, err);
    let lines = out.iter().filter(|b| **b == b'\n').count() as u64;
    ensure!(lines == n + 1, "{} lines instead of {}", lines, n + 1);
    ctx.max("tool_resident_memory", rss);
    ensure!(rss <= if fmt == Some(Fmt::Zst) { 128 << 20 } else { 64 << 20 }, "{} bytes of resident memory", rss);
    Ok(())
}

/// output has to come while the input goes on
fn early_output(ctx: &mut Ctx) -> Res {
    let csv = ctx.rng.bool();
    let n = ctx.rng.urange(50_000, 90_000) as u64;
    let f = if csv { "csv" } else { "dc" };
    ctx.describe(format!("{} rows of {} on a pipe that stays open", n, f));
    ctx.shape(true, &format!("o {} {}", f, n));
    let mut p = if csv { b"time,a\n".to_vec() } else { dc::encode(&Table { hdr: Hdr { names: vec!["a".into()], types: vec![FieldType::String] }, rows: vec![] }) };
    for i in 0..n {
        let t = 1_000_000_000 + i;
        if csv {
            p.extend(format!("{},xyz\n", t).bytes());
        } else {
            p.extend((t * 1_000_000_000).to_be_bytes());
            p.extend(b"\0\0\x0320.");
        }
    }
    let mut child = spawn_tool(&["-E", "-f", f])?;
    let mut si = child.stdin.take().unwrap();
    let mut so = child.stdout.take().unwrap();
    // this much of input and of output may be in buffers
    let line = if csv { 34 } else { 24 };
    let want = (n * line) as usize - SLACK - SLACK / 15 * line as usize;
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut got = 0;
        let mut b = [0u8; 65536];
        while let Ok(n) = so.read(&mut b) {
            if n == 0 {
                break;
            }
            got += n;
            let _ = tx.send(got);
        }
    });
    let feeder = std::thread::spawn(move || {
        let _ = si.write_all(&p);
        si
    });
    let until = Instant::now() + Duration::from_secs(90);
    let mut got = 0;
    while got < want {
        match rx.recv_timeout(until.saturating_duration_since(Instant::now())) {
            Ok(n) => got = n,
            Err(_) => break,
        }
    }
    let ended = !matches!(child.try_wait(), Ok(None));
    let _ = child.kill();
    let _ = child.wait();
    drop(feeder.join());
    ctx.count("tool_early_outputs", 1);
    ensure!(got >= want, "only {} bytes of output came for {} rows while the input stayed open, expected at least {} (tool ended: {})", got, n, want, ended);
    Ok(())
}
