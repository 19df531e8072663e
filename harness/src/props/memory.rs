//! C25: runs under AddressSanitizer, MemorySanitizer and the Miri interpreter
use super::formats::gen_content;
use super::fuzz::{judge, look};
use crate::cli::{self, Env, In};
use crate::comp::{self, FMTS};
use crate::dc;
use crate::hostile;
use crate::model::*;
use crate::probes::*;
use crate::run::{Bad, Ctx, Prop, Res};
use crate::{ensure, viol};
use chopper::chopper::types::FieldType;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::reader::ChopperBufPreviewer;
use chopper::chopper::chopper::Source;
use chopper::error::CliResult;
use chopper::source::source_factory::SourceFactory;
use chopper::util::tz::ChopperTz;
use std::cell::RefCell;
use std::io::Read;
use std::process::{Command, Stdio};
use std::rc::Rc;

/// cases of worker n of 8 run there
pub const FLAVOURS: [&str; 8] = ["asan", "msan", "asan", "msan", "asan", "msan", "miri", "miri"];

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        level: "exploration",
        rule: "the library and the tool, built with AddressSanitizer and with MemorySanitizer (standard library and bundled C code included), read hostile inputs of all kinds and run the workloads of the other properties (round trips, merges, graphs, filters, compression, cuts and damages, tool runs); the library also reads and rewrites small hostile inputs in the Miri interpreter. No report of any of them; every column name, text value, previewed line and message is valid UTF-8. nontrivial: all; distinct by input",
        assumptions: &["ring is not instrumented by MemorySanitizer (it is for https only, which is not exercised)", "bzip2 (C code) does not run in the interpreter"],
        cases: (200_000, 4_000_000),
        budget: (45, 560),
        run: c25,
        must_observe: &[
            "asan_cases", "msan_cases", "miri_inputs", "miri_rows", "miri_files_written", "texts_checked", "lines_previewed", "names_and_lines_offered", "environment_messages", "tool_runs", "rows_seen", "workload_C01", "workload_C04", "workload_C05", "workload_C06", "workload_C08", "workload_C09", "workload_C14", "workload_C15",
            "workload_C16", "workload_C18", "workload_C24",
        ],
    }]
}

pub fn flavour() -> &'static str {
    let e = std::env::current_exe().unwrap_or_default();
    let e = e.to_string_lossy().into_owned();
    if e.contains("/asan/") {
        "asan"
    } else if e.contains("/msan/") {
        "msan"
    } else {
        "plain"
    }
}

fn hostile_input(ctx: &mut Ctx) -> Res {
    let h = hostile::gen(&mut ctx.rng);
    ctx.describe(h.what.clone());
    ctx.shape(true, &format!("{} {:x}", h.name, crate::rng::fnv(&h.data)));
    let data = Rc::new(h.data.clone());
    let cut = match ctx.rng.below(3) {
        0 => Cut::Each(1 + ctx.rng.us(3)),
        1 => Cut::Random(ctx.rng.next(), 9000),
        _ => Cut::Whole,
    };
    let log = new_log();
    // what a program that uses the previewer gets to see
    let b: Box<dyn Read> = Box::new(CutReader::new(&data, cut.clone(), &log));
    if let Ok(p) = ChopperBufPreviewer::new(b) {
        for l in p.get_lines().iter().flatten() {
            ctx.count("lines_previewed", 1);
            if std::str::from_utf8(l.as_bytes()).is_err() {
                viol!("previewed line that is not valid utf-8: {:02x?}", &l.as_bytes()[..l.len().min(200)]);
            }
        }
    }
    let s = if ctx.rng.bool() {
        let t = MemTransport::new(data, cut, &log);
        look(
            || {
                let mut f = factory(&h.opt, None, Some(vec![t.box_clone()]))?;
                f.create_source_from_input(&input(&format!("mem://{}", h.name), h.format.as_deref()))
            },
            100_000_000,
        )
    } else {
        let p = ctx.write(&h.name, &h.data);
        look(|| open_path(&p, h.format.as_deref(), &h.opt), 100_000_000)
    };
    if let Some(e) = &s.err {
        ensure!(std::str::from_utf8(e.as_bytes()).is_ok(), "message that is not valid utf-8: {:02x?}", e.as_bytes());
    }
    // panics belong to C10
    if s.panic.is_some() {
        ctx.count("panics", 1);
        if let Some(t) = s.bad_text {
            viol!("{}", t);
        }
        return Ok(());
    }
    judge(ctx, &s)
}

/// reads nothing, looks at what the library offers it
#[derive(Clone, Default)]
struct Onlooker {
    texts: Rc<RefCell<Vec<Vec<u8>>>>,
}
impl SourceFactory for Onlooker {
    fn can_create_from_format(&self, format: &String) -> bool {
        self.texts.borrow_mut().push(format.as_bytes().to_vec());
        false
    }
    fn can_create_from_previewer(&self, p: &ChopperBufPreviewer<Box<dyn Read>>) -> bool {
        self.texts.borrow_mut().extend(p.get_lines().iter().flatten().map(|l| l.as_bytes().to_vec()));
        false
    }
    fn create_source(&mut self, _: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Box<dyn Source>> {
        unreachable!()
    }
    fn box_clone(&self) -> Box<dyn SourceFactory> {
        Box::new(self.clone())
    }
}

/// text from elsewhere than the data: names of archived files, the environment
fn names(ctx: &mut Ctx) -> Res {
    if ctx.rng.one_in(4) {
        use std::os::unix::ffi::OsStringExt;
        let n = 1 + ctx.rng.us(20);
        let mut v: Vec<u8> = ctx.rng.bytes(n);
        if ctx.rng.bool() {
            v.splice(0..0, b"America/".iter().cloned());
        }
        v.retain(|b| *b != 0);
        ctx.describe(format!("CHOPPER_TZ={:02x?}", v));
        ctx.shape(true, &format!("tz {:02x?}", v));
        std::env::set_var("CHOPPER_TZ", std::ffi::OsString::from_vec(v));
        let r = crate::run::catch(|| ChopperTz::new_from_cli_arg(None, None).map(|_| ()).map_err(|e| e.to_string()));
        std::env::remove_var("CHOPPER_TZ");
        if let Ok(Err(e)) = r {
            ctx.count("environment_messages", 1);
            ensure!(std::str::from_utf8(e.as_bytes()).is_ok(), "message that is not valid utf-8: {:02x?}", e.as_bytes());
        }
        return Ok(());
    }
    let c = gen_content(&mut ctx.rng, 20);
    let ext = *ctx.rng.pick(&["a.csv", "a.dc", "a", "a.unknown", "a.csv.gz", "\u{e9}.dc"]);
    let name = comp::odd_entry_name(&mut ctx.rng, ext);
    let z = comp::zip_named(&mut ctx.rng, &c.bytes, &name);
    ctx.describe(format!("zip with an entry named {:02x?}", name));
    ctx.shape(true, &format!("zip {:x} {:x}", crate::rng::fnv(&name), crate::rng::fnv(&c.bytes)));
    let p = ctx.write("z.zip", &z.bytes);
    let o = Onlooker::default();
    let opt = CsvOpt::default();
    let s = look(|| factory(&opt, Some(vec![o.box_clone()]), None)?.create_source_from_input(&input(&p, None)), 100_000_000);
    for t in o.texts.borrow().iter() {
        ctx.count("names_and_lines_offered", 1);
        ensure!(std::str::from_utf8(t).is_ok(), "name or line that is not valid utf-8 offered to a reader of the program's own: {:02x?}", &t[..t.len().min(200)]);
    }
    if let Some(e) = &s.err {
        ensure!(std::str::from_utf8(e.as_bytes()).is_ok(), "message that is not valid utf-8: {:02x?}", e.as_bytes());
    }
    if s.panic.is_some() {
        ctx.count("panics", 1);
        return Ok(());
    }
    judge(ctx, &s)
}

fn tool(ctx: &mut Ctx) -> Res {
    let mut h = hostile::gen(&mut ctx.rng);
    let p = ctx.write(&h.name, &h.data);
    let o = ctx.path_str("o.dc");
    let mut a = vec![p];
    a.append(&mut h.args);
    let to_dc = ctx.rng.one_in(3);
    if to_dc {
        a.push(format!("-o{}", o));
    } else {
        a.push("-E".into());
    }
    if let Some(f) = &h.format {
        a.push(format!("-f{}", f));
    }
    for x in a.iter_mut() {
        x.retain(|c| c != '\0');
    }
    ctx.describe(format!("tool {:?}: {}", a, h.what));
    ctx.shape(true, &format!("{:?} {:x}", a, crate::rng::fnv(&h.data)));
    let out = cli::chop(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>(), In::Null, Env::default())?;
    ctx.count("tool_runs", 1);
    if out.ok() && !to_dc {
        ensure!(std::str::from_utf8(&out.out).is_ok(), "tool printed what is not valid utf-8");
        ctx.count("outputs_checked", 1);
    }
    Ok(())
}

/// a case of another property; whether it holds is not looked at here
fn workload(ctx: &mut Ctx) -> Res {
    const W: [&str; 14] = ["C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C14", "C15", "C16", "C18", "C24"];
    let w = *ctx.rng.pick(&W);
    let p = super::all().into_iter().find(|p| p.id == w).unwrap();
    ctx.count(&format!("workload_{}", w), 1);
    let idx = ctx.idx;
    ctx.idx = ctx.rng.below(100_000);
    let (ev, known) = (ctx.ev.clone(), ctx.known.clone());
    let r = crate::run::catch(|| (p.run)(ctx));
    ctx.idx = idx;
    ctx.ev = ev;
    ctx.known = known;
    ctx.describe(format!("workload of {}: {}", w, ctx.desc.clone()));
    ctx.nontrivial = true;
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(Bad::Inconclusive(e))) => Err(Bad::Inconclusive(e)),
        // decided by the check of that property
        r => {
            ctx.count(&format!("workloads_that_did_not_hold_{}", w), 1);
            if ctx.verbose || std::env::var("VH_TELL").is_ok() {
                eprintln!("{} {:?}", w, r);
            }
            Ok(())
        }
    }
}

/// what a run of the interpreter printed
struct Interpreted {
    out: String,
    err: String,
    status: std::process::ExitStatus,
}

fn interpret(ctx: &Ctx) -> Result<Interpreted, Bad> {
    let verif = std::env::var("VH_VERIF").map_err(|_| Bad::Inconclusive("VH_VERIF is not set".into()))?;
    let out = Command::new("cargo")
        .args(["+nightly", "miri", "run", "-q", "--offline", "--locked", "--manifest-path", &format!("{}/miri/Cargo.toml", verif), "--"])
        .arg(&ctx.dir)
        .env("CARGO_TARGET_DIR", format!("{}/.build/miri", verif))
        .env("MIRIFLAGS", "-Zmiri-disable-isolation")
        .env_remove("RUSTFLAGS")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| Bad::Inconclusive(format!("cargo miri: {}", e)))?;
    Ok(Interpreted { out: String::from_utf8_lossy(&out.stdout).into_owned(), err: String::from_utf8_lossy(&out.stderr).into_owned(), status: out.status })
}

/// printing of a floating point value
fn miri_float(ctx: &mut Ctx) -> Res {
    let hdr = Hdr { names: vec!["a".into()], types: vec![FieldType::Double] };
    let t = Table { hdr, rows: vec![MRow { ts: 1, v: vec![Val::Double(1.5f64.to_bits())] }] };
    ctx.write("a.dc", &dc::encode(&t));
    ctx.write("list", b"a.dc\t100\t\tauto\t\t\t\tfloats\n");
    let i = interpret(ctx)?;
    if i.err.contains("Undefined Behavior") {
        let at = i.err.lines().skip_while(|l| !l.contains("Undefined Behavior")).take(30).collect::<Vec<_>>().join("\n");
        let first = at.lines().find(|l| l.contains("--> ")).unwrap_or("").to_string();
        ensure!(first.contains("/dtoa-0.4.8/src/dtoa.rs:"), "the interpreter reports undefined behaviour while a number is printed: {}", at);
        ctx.known.push("dtoa-uninitialized-buffer");
    }
    Ok(())
}

/// zip entry that says that it's compressed with bzip2, in local header or directory
fn calls_bzip2(b: &[u8]) -> bool {
    b.windows(12).any(|w| w.starts_with(b"PK\x03\x04") && w[8] == 12 || w.starts_with(b"PK\x01\x02") && w[10] == 12)
}

fn intact_input(r: &mut crate::rng::Rng) -> hostile::Hostile {
    let c = gen_content(r, 8);
    let mut h = hostile::Hostile { name: format!("a{}", c.ext()), data: c.bytes.clone(), format: None, opt: CsvOpt::default(), args: vec![], kind: "intact", what: "intact".into(), jblock_claim: 0 };
    if r.bool() {
        let f = *r.pick(&FMTS);
        let e = comp::encode(r, f, &c.bytes, &h.name, 3);
        h.data = e.bytes;
        h.name += f.ext();
        h.what = format!("intact {}", e.what);
    }
    h
}

fn miri(ctx: &mut Ctx) -> Res {
    if ctx.idx == 7 {
        miri_float(ctx)?;
    }
    let n = if ctx.idx < 8 { 6 } else { 9 };
    let mut list = String::new();
    let mut what = Vec::new();
    while what.len() < n {
        let r = &mut ctx.rng;
        // half of them are as they should be
        let intact = r.bool();
        let h = if intact { intact_input(r) } else { hostile::gen(r) };
        // bzip2 is C code
        if h.data.len() > 900 || calls_bzip2(&h.data) {
            continue;
        }
        let name = format!("{}{}", what.len(), &h.name[1..]);
        let f = [
            name.clone(),
            r.pick(&["1", "7", "100", "10000", "10000"]).to_string(),
            r.pick(&["", "", "", "=,", "=TAB", "=;"]).to_string(),
            r.pick(&["auto", "auto", "yes", "no"]).to_string(),
            r.pick(&["", "", "0", "1", "9"]).to_string(),
            r.pick(&["", "", "", "ns", "s", "%Y%m%d", "%+", "%H:%M"]).to_string(),
            r.pick(&["", "UTC"]).to_string(),
            String::new(),
        ];
        let mut f = f;
        if intact {
            for (i, v) in ["=,", "yes", "0", "ns", ""].iter().enumerate() {
                f[i + 2] = v.to_string();
            }
        }
        ctx.write(&name, &h.data);
        list += &f.join("\t");
        list.push('\n');
        what.push(h.what);
    }
    ctx.write("list", list.as_bytes());
    ctx.describe(format!("interpreted: {}", what.join(" ;; ")));
    ctx.shape(true, &ctx.desc.clone());
    let Interpreted { out: o, err: e, status } = interpret(ctx)?;
    let last = o.lines().filter(|l| l.starts_with("INPUT")).last().unwrap_or("no input").to_string();
    if e.contains("Undefined Behavior") {
        viol!("the interpreter reports undefined behaviour while reading {} (list {:?}): {}", last, list, e.lines().skip_while(|l| !l.contains("Undefined Behavior")).take(30).collect::<Vec<_>>().join("\n"));
    }
    if let Some(b) = o.lines().find(|l| l.starts_with("BADTEXT")) {
        viol!("text that is not valid utf-8: {} (list {:?})", b, list);
    }
    if !o.lines().any(|l| l == "END") {
        return Err(Bad::Inconclusive(format!("interpreter did not get to the end: {} after {}: {}", status, last, e.lines().filter(|l| l.starts_with("error")).take(5).collect::<Vec<_>>().join("; "))));
    }
    let c = |p: &str| o.lines().filter(|l| l.starts_with(p)).count() as u64;
    ctx.count("miri_inputs", c("INPUT"));
    ctx.count("miri_errors_reported", c("ERR"));
    ctx.count("miri_panics", c("PANIC"));
    ctx.count("miri_files_written", c("WRITTEN"));
    let rows = o.lines().filter_map(|l| l.strip_prefix("ROWS ")).filter_map(|l| l.parse::<u64>().ok()).sum::<u64>();
    ctx.count("miri_rows", rows);
    Ok(())
}

fn c25(ctx: &mut Ctx) -> Res {
    if FLAVOURS[(ctx.idx % 8) as usize] == "miri" {
        return miri(ctx);
    }
    ctx.count(&format!("{}_cases", flavour()), 1);
    let r = match ctx.idx / 8 % 20 {
        0 => tool(ctx),
        10 => names(ctx),
        n if n % 4 == 1 => workload(ctx),
        _ => hostile_input(ctx),
    };
    if let Some(rep) = cli::take_report() {
        viol!("sanitizer report of the tool: {}", rep);
    }
    r
}
