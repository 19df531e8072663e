//! C10: no input makes the program crash, hang or use memory out of proportion
use super::formats::{gen_content, known_panic};
use super::http::{self, Script, Server, Stop};
use crate::cli::{self, Env, In};
use crate::comp;
use crate::dc;
use crate::hostile::{self, Hostile};
use crate::model::*;
use crate::probes::*;
use crate::run::{catch, Ctx, Prop, Res};
use crate::{alloc, ensure, viol};
use chopper::chopper::chopper::Source;
use chopper::chopper::types::TimestampRange;
use chopper::error::CliResult;
use chopper::util::timestamp_util::parse_datetime_range_element;
use chopper::util::tz::ChopperTz;
use chopper::util::{csv_util, dc_util};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        level: "exploration",
        rule: "a case is a hostile input (plain, compressed and zip files with damaged, extreme and meaningless fields, soups of csv and time syntax, noise, hostile contents in intact containers, damaged http responses, directories with damaged members) with random input options and names, read by the library through a transport with random read sizes, from a file, or by the tool with an address space limit; or a batch of hostile texts given to the parsers of time ranges, zones, delimiters and formats. No panic, no signal, cpu time limit, no endless reading at the end, allocation peak bounded by the bytes of the input. nontrivial: all; distinct by input",
        assumptions: &[
            "memory in proportion: at most 96 MB plus 64 times the bytes of a plain input, 2000 times those of a compressed one",
            "60 s of cpu time are endless for inputs of at most a few hundred kilobytes",
        ],
        cases: (80_000, 2_500_000),
        budget: (45, 600),
        run: c10,
        must_observe: &[
            "read_by_library_streaming", "read_by_library_file", "tool_runs", "directories", "http_responses", "texts_parsed", "errors_reported", "inputs_read_to_the_end", "rows_seen",
            "kind_csv_soup", "kind_csv_of_strange_times", "kind_damaged_csv", "kind_strange_dc", "kind_damaged_dc", "kind_hostile_content_in_intact_container", "kind_damaged_container", "kind_magic_number_and_noise", "kind_noise", "kind_windows_of_zst_container",
        ],
    }]
}

/// what came of reading an input
pub struct Seen {
    pub rows: u64,
    pub texts: u64,
    pub err: Option<String>,
    pub panic: Option<(String, String)>,
    pub bad_text: Option<String>,
}

/// reads everything, keeps nothing
pub fn look(make: impl FnOnce() -> CliResult<Box<dyn Source>>, max_rows: u64) -> Seen {
    let mut s = Seen { rows: 0, texts: 0, err: None, panic: None, bad_text: None };
    let r = catch(|| -> Result<(), String> {
        let mut src = make().map_err(|e| e.to_string())?;
        for n in src.header().field_names() {
            if std::str::from_utf8(n.as_bytes()).is_err() {
                s.bad_text = Some(format!("column name that is not valid utf-8: {:02x?}", n.as_bytes()));
            }
            s.texts += 1;
        }
        loop {
            match src.next_row() {
                Err(e) => return Err(e.to_string()),
                Ok(None) => return Ok(()),
                Ok(Some(row)) => {
                    s.rows += 1;
                    match hostile::texts_ok(&row) {
                        Ok(n) => s.texts += n,
                        Err(e) => s.bad_text = Some(e),
                    }
                    if s.rows > max_rows {
                        return Err("MONITOR more rows than bytes".into());
                    }
                }
            }
        }
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => s.err = Some(e),
        Err(p) => s.panic = Some(p),
    }
    s
}

/// the parts of the verdict that are the same for all ways of reading
pub fn judge(ctx: &mut Ctx, s: &Seen) -> Res {
    ctx.count("rows_seen", s.rows);
    ctx.count("texts_checked", s.texts);
    if let Some((l, m)) = &s.panic {
        match known_panic(l) {
            Some(k) => ctx.known.push(k),
            None => viol!("panic at {}: {}", l, m),
        }
        return Ok(());
    }
    if let Some(t) = &s.bad_text {
        viol!("{}", t);
    }
    match &s.err {
        Some(e) if e.starts_with("MONITOR") => viol!("{} after {} rows", e, s.rows),
        Some(_) => ctx.count("errors_reported", 1),
        None => ctx.count("inputs_read_to_the_end", 1),
    }
    Ok(())
}

fn packed(h: &Hostile) -> bool {
    h.kind.contains("container") || h.kind.contains("magic") || h.kind == "noise"
}

fn allowed(h: &Hostile) -> usize {
    let f = if packed(h) { 2000 } else { 64 };
    base_allowed(&h.data) + f * h.data.len()
}

fn base_allowed(data: &[u8]) -> usize {
    // the window of a zst frame is at most 100 MB (decoder's limit), and its buffer grows to twice of that
    let zst = data.windows(4).any(|w| w == b"\x28\xb5\x2f\xfd");
    if zst {
        224 << 20
    } else {
        96 << 20
    }
}

/// every row takes at least one byte of (uncompressed) input
fn max_rows(h: &Hostile) -> u64 {
    h.data.len() as u64 * if packed(h) { 2000 } else { 1 } + 1_000_000 * packed(h) as u64 + 1
}

fn streaming(ctx: &mut Ctx, h: &Hostile) -> Res {
    let log = new_log();
    let cut = match ctx.rng.below(5) {
        0 => Cut::Each(1 + ctx.rng.us(3)),
        1 | 2 => Cut::Random(ctx.rng.next(), *ctx.rng.pick(&[2, 100, 5000, 9000])),
        _ => Cut::Whole,
    };
    let data = Rc::new(h.data.clone());
    let t = MemTransport::new(data.clone(), cut, &log);
    let path = format!("mem://{}", h.name);
    ctx.count("read_by_library_streaming", 1);
    let base = alloc::reset();
    let s = look(
        || {
            let mut f = factory(&h.opt, None, Some(vec![chopper::transport::streaming::streaming_transport::StreamingTransport::box_clone(&t)]))?;
            f.create_source_from_input(&input(&path, h.format.as_deref()))
        },
        max_rows(h),
    );
    let used = alloc::peak().saturating_sub(base);
    ctx.max("memory", used as u64);
    judge(ctx, &s)?;
    ensure!(used <= allowed(h), "{} bytes allocated for an input of {} bytes", used, h.data.len());
    let (reads, bytes) = (log.borrow().reads, log.borrow().bytes);
    ctx.count("reads_of_transport", reads);
    // every read call that gives data gives at least a byte; the others are at the end of data
    ensure!(reads <= bytes + 3 * s.rows + 2000, "{} read calls for {} bytes and {} rows", reads, bytes, s.rows);
    Ok(())
}

fn from_file(ctx: &mut Ctx, h: &Hostile) -> Res {
    let p = ctx.write(&h.name, &h.data);
    ctx.count("read_by_library_file", 1);
    let base = alloc::reset();
    let s = look(|| open_path(&p, h.format.as_deref(), &h.opt), max_rows(h));
    let used = alloc::peak().saturating_sub(base);
    ctx.max("memory", used as u64);
    judge(ctx, &s)?;
    ensure!(used <= allowed(h), "{} bytes allocated for an input of {} bytes", used, h.data.len());
    Ok(())
}

fn directory(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.urange(1, 4);
    let good = ctx.rng.us(n + 1);
    let mut len = 0;
    // one file is being read while the next is opened
    let mut most: Vec<usize> = vec![0];
    let mut first: Option<Hostile> = None;
    let mut what = String::new();
    for i in 0..n {
        let h = hostile::gen(&mut ctx.rng);
        let name = match ctx.rng.below(3) {
            0 => format!("{}{}", i, &h.name[1..]),
            _ => format!("{}.csv", i),
        };
        let data = if i == good { gen_content(&mut ctx.rng, 20).bytes } else { h.data.clone() };
        len += data.len();
        most.push(base_allowed(&data));
        what += &format!("{}: {} ", name, h.what);
        ctx.write(&format!("d/{}", name), &data);
        if ctx.rng.one_in(6) {
            let _ = std::fs::create_dir_all(ctx.path(&format!("d/{}.sub", i)));
        }
        first.get_or_insert(h);
    }
    let h = first.unwrap();
    let p = ctx.path_str("d");
    ctx.describe(format!("directory of {}", what));
    ctx.shape(true, &what);
    ctx.count("directories", 1);
    let base = alloc::reset();
    let s = look(|| open_path(&p, h.format.as_deref(), &h.opt), 10_000_000);
    let used = alloc::peak().saturating_sub(base);
    judge(ctx, &s)?;
    most.sort();
    let two = most.iter().rev().take(2).sum::<usize>();
    ensure!(used <= two + 2000 * len, "{} bytes allocated for {} bytes of input", used, len);
    Ok(())
}

/// panics of decoders outside of the repository as the tool prints them
fn known_in(err: &str) -> Option<&'static str> {
    err.lines().filter(|l| l.contains("panicked at")).find_map(known_panic)
}

fn tool(ctx: &mut Ctx) -> Res {
    let mut h = hostile::gen(&mut ctx.rng);
    let r = &mut ctx.rng;
    let mut a: Vec<String> = Vec::new();
    let stdin = r.one_in(5);
    let p = ctx.write(&h.name, &h.data);
    let r = &mut ctx.rng;
    if !stdin {
        a.push(p.clone());
        if r.one_in(6) {
            a.push(p);
        }
    }
    if let Some(f) = &h.format {
        a.push(format!("-f{}", f));
    }
    let out = match r.below(4) {
        0 => Some("o.dc"),
        1 => Some("o.csv"),
        _ => None,
    };
    let o = ctx.path_str(out.unwrap_or("x"));
    if out.is_some() {
        a.push(format!("-o{}", o));
    }
    let r = &mut ctx.rng;
    a.append(&mut h.args);
    if r.one_in(3) {
        a.push("-E".into());
    } else if r.one_in(6) {
        a.push("-H".into());
    }
    if r.one_in(4) {
        a.push(format!("-g{}", r.pick(&["s", "ms", "us", "ns"])));
    }
    if r.one_in(4) {
        let k = r.us(3);
        let d = if r.bool() { String::from(r.below(128) as u8 as char) } else { String::from_utf8_lossy(&hostile::soup(r, k)).into_owned() };
        a.push(format!("--delimiter={}", d));
    }
    for o in ["-b", "-e"] {
        if r.one_in(8) {
            a.push(format!("{}{}", o, hostile::time_text(r)));
        }
    }
    if r.one_in(8) && !a.iter().any(|x| x.starts_with("-z")) {
        a.push(format!("--timezone={}", hostile::zone_text(r)));
    }
    if r.one_in(8) {
        a.push(format!("--time-col-name={}", String::from_utf8_lossy(&hostile::soup(r, 2))));
    }
    if r.one_in(10) {
        a.push("--backtrace".into());
    }
    for x in a.iter_mut() {
        x.retain(|c| c != '\0');
    }
    let tz = if r.one_in(8) { Some(hostile::zone_text(r).replace('\0', "")) } else { None };
    ctx.describe(format!("tool {:?} stdin {} tz {:?}: {}", a, stdin, tz, h.what));
    ctx.shape(true, &format!("{:?} {:?}", a, h.what));
    let args: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let env = Env { tz: tz.as_deref(), memory: Some(1 << 30), ..Env::default() };
    let step = ctx.rng.urange(1, 9000);
    let out = cli::chop(&args, if stdin { In::Bytes(&h.data, step) } else { In::Null }, env)?;
    ctx.count("tool_runs", 1);
    ctx.count(if out.ok() { "inputs_read_to_the_end" } else { "errors_reported" }, 1);
    if out.panicked() {
        match known_in(&out.err) {
            Some(k) => ctx.known.push(k),
            None => viol!("tool panicked: {}", out.brief()),
        }
        return Ok(());
    }
    ensure!(out.signal.is_none(), "tool was ended by a signal: {}", out.brief());
    ensure!(out.ok() || !out.err.trim().is_empty(), "tool failed without a message: {}", out.brief());
    Ok(())
}

fn http(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let h = hostile::gen(r);
    let f = *r.pick(&http::FRAMINGS);
    let status = *r.pick(&["200 OK", "200 OK", "200", "206 Partial Content", "404 Not Found", "301 Moved", "999 x", "0 x", "100 Continue"]);
    let (mut b, body, _) = http::response(r, status, f, &h.data);
    match r.below(6) {
        0 => {
            let n = r.urange(1, 3);
            hostile::mutate(r, &mut b, n)
        }
        1 | 2 => {
            // in its head only
            let mut head = b[..body].to_vec();
            let n = r.urange(1, 4);
            hostile::mutate(r, &mut head, n);
            b.splice(..body, head);
        }
        3 => {
            let n = r.size(300);
            b = hostile::soup(r, n);
        }
        4 => {
            let x = *r.pick(&["Location: http://127.0.0.1:1/\r\n", "Content-Length: 99999999999999999999\r\n", "Content-Length: -1\r\n", "Transfer-Encoding: gzip\r\n", "Content-Encoding: gzip\r\n", "Transfer-Encoding: chunked\r\n", "Content-Length: 18446744073709551615\r\n", "Location:\r\n", "é: é\r\n", ":\r\n"]);
            if let Some(i) = b.windows(2).position(|w| w == b"\r\n") {
                b.splice(i + 2..i + 2, x.bytes());
            }
        }
        _ => {}
    }
    hostile::limit_jblock(&mut b);
    let path = format!("/{}", h.name);
    ctx.describe(format!("http {} {:?} {:?}: {:?}", status, f, h.what, String::from_utf8_lossy(&b[..b.len().min(600)])));
    ctx.shape(true, &ctx.desc.clone());
    ctx.count("http_responses", 1);
    let n = b.len();
    let most = base_allowed(&b);
    let srv = Server::start(vec![(path.clone(), Script { bytes: b, pieces: vec![], pause: false, stop: Stop::Close })])?;
    let url = srv.url(&path);
    let base = alloc::reset();
    let s = look(|| open_path(&url, h.format.as_deref(), &h.opt), 100_000_000);
    let used = alloc::peak().saturating_sub(base);
    judge(ctx, &s)?;
    ensure!(used <= most + 2000 * n, "{} bytes allocated for a response of {} bytes", used, n);
    Ok(())
}

fn texts(ctx: &mut Ctx) -> Res {
    let n = 60;
    let mut sig = 0u64;
    let mut now = String::new();
    let mut bad: Option<String> = None;
    for _ in 0..n {
        let r = &mut ctx.rng;
        let k = r.us(8);
        let t = if r.bool() { hostile::time_text(r) } else { String::from_utf8_lossy(&hostile::soup(r, k)).into_owned() };
        let z = hostile::zone_text(r);
        let f = hostile::format_text(r);
        let tz = if r.one_in(3) { ChopperTz::new_always_fails() } else { ChopperTz::from(crate::tz::gen_zone(r)) };
        let ts = match r.below(4) {
            0 => r.next(),
            1 => u64::MAX - r.below(3),
            _ => r.below(1 << 62),
        };
        now = format!("text {:?} zone {:?} format {:?} ts {}", t, z, f, ts);
        sig = sig.wrapping_mul(31).wrapping_add(crate::rng::fnv(now.as_bytes()));
        let res = catch(|| {
            let _ = parse_datetime_range_element(&t, &tz);
            let _ = TimestampRange::new(Some(&t), Some(&f), &tz);
            let _ = ChopperTz::new_from_cli_arg(Some(&z), None);
            let _ = csv_util::parse_into_delimiter(&t);
            let _ = csv_util::guess_delimiter(&t, b",\t ");
            let _ = csv_util::guess_has_header(Some(&t), Some(&f), b',');
            let _ = csv_util::guess_type(&t);
            let _ = tz.timestamp(ts).map(|d| d.to_rfc3339());
            let _ = dc_util::FieldDescriptor::new(t.as_bytes());
            let _ = chopper::decompress::decompress::is_compressed_using_format(&t);
        });
        ctx.count("texts_parsed", 1);
        if let Err((l, m)) = res {
            bad = Some(format!("panic at {}: {}", l, m));
            break;
        }
    }
    ctx.describe(now.clone());
    ctx.shape(true, &sig.to_string());
    if let Some(b) = bad {
        viol!("{} for {}", b, now);
    }
    Ok(())
}

/// the known way to make a decoder allocate far more than it is given
fn jblock_claim(ctx: &mut Ctx) -> Res {
    let mut b = b"LZ4Block".to_vec();
    b.push(0x26);
    b.extend((256u32 << 20).to_le_bytes());
    b.extend(1000u32.to_le_bytes());
    b.extend(0u32.to_le_bytes());
    b.extend([0; 40]);
    ctx.describe("LZ4Block chunk that claims 256 MB".into());
    let p = ctx.write("a.csv.lz4", &b);
    let base = alloc::reset();
    let s = look(|| open_path(&p, None, &CsvOpt::default()), 10);
    let used = alloc::peak().saturating_sub(base);
    if used > 200 << 20 {
        ctx.known.push("lz4block-chunk-allocation");
    }
    judge(ctx, &s)
}

/// large but honest sizes: fields that are long, many columns
fn honest(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let mut h = hostile::gen(r);
    h.format = None;
    h.opt = CsvOpt::default();
    h.kind = "large";
    if r.bool() {
        let cols = r.urange(2_000, 60_000);
        let hdr = gen_hdr(r, cols);
        let rows = gen_rows(r, &hdr, 2, 3);
        h.data = dc::encode(&Table { hdr, rows });
        h.name = "a.dc".into();
    } else {
        let n = r.urange(100_000, 3_000_000);
        h.data = b"time,a\n1600000000,".to_vec();
        h.data.extend(std::iter::repeat(*r.pick(b"xy,\"\n \r")).take(n));
        h.name = "a.csv".into();
    }
    if r.one_in(3) {
        let f = *r.pick(&comp::FMTS);
        h.data = comp::encode(r, f, &h.data, &h.name, 1).bytes;
        h.name += f.ext();
        h.kind = "large container";
    }
    ctx.describe(format!("{} {} bytes", h.name, h.data.len()));
    ctx.shape(true, &format!("{} {}", h.name, h.data.len()));
    ctx.count("large_inputs", 1);
    from_file(ctx, &h)
}

fn c10(ctx: &mut Ctx) -> Res {
    if ctx.idx == 11 {
        return jblock_claim(ctx);
    }
    match ctx.idx % 40 {
        0..=1 => texts(ctx),
        2 => directory(ctx),
        3 => tool(ctx),
        4 if ctx.idx % 80 == 4 => http(ctx),
        5 if ctx.idx % 400 == 5 => honest(ctx),
        n => {
            let h = hostile::gen(&mut ctx.rng);
            ctx.describe(h.what.clone());
            ctx.shape(true, &format!("{} {:x}", h.name, crate::rng::fnv(&h.data)));
            ctx.count(&format!("kind_{}", h.kind.replace(' ', "_")), 1);
            if n % 2 == 0 {
                streaming(ctx, &h)
            } else {
                from_file(ctx, &h)
            }
        }
    }
}
