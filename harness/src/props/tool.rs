//! C21 the contract of the command line tool
use super::inputs::{ext_of, pack};
use super::times::human;
use crate::cli::{self, CliOut, Env, In};
use crate::comp::{Fmt, FMTS};
use crate::dc;
use crate::model::*;
use crate::rng::Rng;
use crate::run::{Bad, Ctx, Prop, Res};
use crate::{ensure, tz, viol};
use chopper::chopper::types::FieldType;
use chrono_tz::Tz;
use std::os::unix::ffi::OsStringExt;
use std::path::Path;

const NS: u64 = 1_000_000_000;
const UNITS: [(&str, &str, u64, usize); 4] = [("s", "Seconds", NS, 0), ("ms", "Millis", 1_000_000, 3), ("us", "Micros", 1_000, 6), ("ns", "Nanos", 1, 9)];

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        level: "exploration",
        rule: "a case is a run of the tool with generated inputs (1 to 4, dc or csv, compressed or not, or standard input) and options in random spelling and order, whose standard output or output file is predicted byte for byte from the meaning of the options, and repeated with standard input for a file, an output file for standard output (and the reverse) and backtraces switched on; or a run with one mistake added to the arguments (unknown, incomplete, conflicting, repeated or invalid options, unusable names, zones, times, inputs), or with data that breaks off or goes wrong. Status, standard output and standard error are checked. nontrivial: all; distinct by arguments and bytes of inputs",
        assumptions: &["values are written to csv without quoting, so generated ones need none"],
        cases: (5_000, 60_000),
        budget: (35, 480),
        run: c21,
        must_observe: &["inputs_named_twice", "runs", "valid_runs", "stdin_runs", "output_files", "dc_outputs", "backtrace_runs", "mistakes_reported", "mistake_unknown_option", "mistake_bad_choice", "mistake_conflict", "mistake_half_of_a_pair", "mistake_repeated_option", "mistake_bad_input_delimiter", "mistake_unknown_zone", "mistake_bad_time", "mistake_unusable_output", "mistake_missing_input", "mistake_unknown_input", "mistake_headers_differ", "mistake_unknown_format", "mistake_timestamp_column", "mistake_incomplete_option", "bad_data_reported", "help_runs", "rows_printed", "dash_dash", "existing_outputs", "combinations_accepted", "combinations_rejected", "gone_readers"],
    }]
}

pub(super) struct Job {
    pub(super) zone: Option<Tz>,
    pub(super) zone_env: Option<String>,
    pub(super) opts: Vec<Vec<String>>,
    pub(super) files: Vec<String>,
    /// bytes and format option for standard input, if there is only one input
    pub(super) stdin: Option<(Vec<u8>, bool)>,
    pub(super) csv_text: String,
    pub(super) dc: Table,
    pub(super) fails: bool,
    pub(super) empty_input: bool,
}

/// one of the ways to write an option with a value
pub(super) fn spell(r: &mut Rng, long: &str, short: Option<char>, val: &str) -> Vec<String> {
    match r.below(5) {
        0 if short.is_some() => vec![format!("-{}", short.unwrap()), val.to_string()],
        1 if short.is_some() && !val.is_empty() && !val.starts_with('=') => vec![format!("-{}{}", short.unwrap(), val)],
        2 if short.is_some() && !val.is_empty() => vec![format!("-{}={}", short.unwrap(), val)],
        3 if !val.starts_with('-') => vec![format!("--{}", long), val.to_string()],
        _ => vec![format!("--{}={}", long, val)],
    }
}

fn any_case(r: &mut Rng, s: &str) -> String {
    match r.below(3) {
        0 => s.to_uppercase(),
        1 => s.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s.to_string(),
    }
}

fn plain(v: &Val) -> String {
    match v {
        Val::Null => String::new(),
        Val::Byte(x) => x.to_string(),
        Val::Char(x) => x.to_string(),
        Val::Short(x) => x.to_string(),
        Val::Int(x) => x.to_string(),
        Val::Long(x) => x.to_string(),
        Val::Str(x) => x.clone(),
        _ => unreachable!(),
    }
}

fn word(r: &mut Rng, delim: &str) -> String {
    if r.one_in(12) {
        let w = *r.pick(&crate::model::WORDS);
        if w.chars().all(|c| !delim.contains(c) && c != '"' && c != ' ') {
            return w.to_string();
        }
    }
    let n = r.us(9);
    // the first one keeps a record from being blank
    (0..n + 1).map(|_| *r.pick(&['a', 'b', 'Z', '0', '7', '_', '-', '.', 'é', '漢'])).map(|c| if delim.contains(c) { 'q' } else { c }).collect()
}

pub(super) fn gen_job(ctx: &mut Ctx) -> Job {
    let r = &mut ctx.rng;
    let k = if r.one_in(3) { r.urange(2, 4) } else { 1 };
    let csv = r.bool();
    let in_unit = *r.pick(&UNITS);
    let in_delim = *r.pick(&[",", ";", "|", "\t"]);
    let has_header = !r.one_in(4);
    let cols = r.urange(1, 6);
    let ts_col = r.us(cols);
    let types: Vec<FieldType> = (0..cols).map(|_| if csv { FieldType::String } else { *r.pick(&[FieldType::Byte, FieldType::Char, FieldType::Int, FieldType::Long, FieldType::Short, FieldType::String]) }).collect();
    let names: Vec<String> = (0..cols).map(|i| if csv && !has_header { format!("col_{}", i) } else if csv && i == ts_col { "when".to_string() } else { format!("{}{}", word(r, in_delim), i) }).collect();
    let hdr = Hdr { names, types };
    let base = (631_152_000 + r.below(1_300_000_000)) * NS;
    let mut tables = Vec::new();
    for _ in 0..k {
        // a csv input without header has no columns if it has no rows
        let n = if csv && !has_header { r.urange(1, 12) } else { r.size(12) };
        let mut t = base;
        let mut rows = Vec::new();
        for _ in 0..n {
            t += r.below(4) * r.below(3) * 250_000_000 + r.below(2) * r.below(NS);
            let ts = if csv { t / in_unit.2 * in_unit.2 } else { t };
            let v = (0..cols)
                .map(|c| {
                    if csv && c == ts_col {
                        Val::Str((ts / in_unit.2).to_string())
                    } else if !csv && r.one_in(6) {
                        Val::Null
                    } else {
                        match gen_val(r, hdr.types[c], 1) {
                            Val::Str(_) => Val::Str(word(r, in_delim)),
                            v => v,
                        }
                    }
                })
                .collect();
            rows.push(MRow { ts, v });
        }
        tables.push(Table { hdr: hdr.clone(), rows });
    }
    // the same again
    let mut again: Vec<Option<usize>> = vec![None; k];
    for i in 1..k {
        if r.one_in(3) {
            let j = r.us(i);
            tables[i] = Table { hdr: hdr.clone(), rows: tables[j].rows.clone() };
            again[i] = Some(j);
        }
    }
    // options for input
    let mut opts: Vec<Vec<String>> = Vec::new();
    if csv {
        let d = if in_delim == "\t" && r.bool() { "\\t" } else { in_delim };
        opts.push(spell(r, "csv-in-delimiter", None, d));
        let h = any_case(r, if has_header { "yes" } else { "no" });
        opts.push(spell(r, "csv-in-has-header", None, &h));
        let c = if has_header && r.bool() { "when".to_string() } else { ts_col.to_string() };
        opts.push(spell(r, "csv-in-ts-col", None, &c));
        opts.push(spell(r, "csv-in-epoch", None, in_unit.0));
    }
    // options for time
    let zone = if r.one_in(4) { None } else { Some(tz::gen_zone(r)) };
    let mut zone_env = None;
    if let Some(z) = zone {
        match r.below(3) {
            0 => zone_env = Some(z.name().to_string()),
            1 => {
                opts.push(spell(r, "timezone", Some('z'), z.name()));
                // the option comes first, even over nonsense
                zone_env = Some(r.pick(&["Asia/Tokyo", "nowhere", ""]).to_string());
            }
            _ => opts.push(spell(r, "timezone", Some('z'), z.name())),
        }
    }
    let mut range = (0, u64::MAX);
    for i in 0..2 {
        if r.one_in(3) {
            let u = *r.pick(&UNITS);
            // near the rows
            let v = (base + r.below(20) * 250_000_000) / u.2;
            opts.push(if i == 0 { spell(r, "begin", Some('b'), &v.to_string()) } else { spell(r, "end", Some('e'), &v.to_string()) });
            if i == 0 {
                range.0 = v * u.2;
            } else {
                range.1 = v * u.2;
            }
        }
    }
    // options for output
    let out_unit = if r.bool() {
        let u = *r.pick(&UNITS);
        opts.push(spell(r, "granularity", Some('g'), u.0));
        u
    } else {
        UNITS[3]
    };
    let mut epoch = false;
    match r.below(4) {
        0 => opts.push(vec![r.pick(&["-H", "--human"]).to_string()]),
        1 => (),
        _ => {
            epoch = true;
            opts.push(vec![r.pick(&["-E", "--epoch"]).to_string()]);
        }
    }
    let delim = if r.bool() {
        let d = *r.pick(&[";", "|", "\t", " ", "::", ", ", "é", ","]);
        opts.push(spell(r, "delimiter", None, d));
        d
    } else {
        ","
    };
    let mut print = true;
    if r.one_in(3) {
        print = r.bool();
        let p = any_case(r, if print { "yes" } else { "no" });
        opts.push(spell(r, "print-time", None, &p));
    }
    let mut name = if epoch { format!("timestamp{}", out_unit.1) } else { "time".to_string() };
    if r.one_in(4) {
        name = r.pick(&["t", "my time", "Zeit"]).to_string();
        opts.push(spell(r, "time-col-name", None, &name));
    }
    // what comes out
    let mut all: Vec<MRow> = tables.iter().flat_map(|t| t.rows.iter().cloned()).collect();
    all.sort_by_key(|m| m.ts);
    all.retain(|m| m.ts >= range.0 && m.ts < range.1);
    let mut text = String::new();
    let mut line: Vec<String> = hdr.names.clone();
    if print {
        line.insert(0, name);
    }
    text += &(line.join(delim) + "\n");
    let fails = print && !epoch && zone.is_none() && !all.is_empty();
    if !fails {
        for m in &all {
            let mut line: Vec<String> = m.v.iter().map(plain).collect();
            if print {
                line.insert(0, if epoch { (m.ts / out_unit.2).to_string() } else { zone.map(|z| human(z, m.ts, out_unit.3)).unwrap_or_default() });
            }
            text += &(line.join(delim) + "\n");
        }
    }
    // inputs
    let mut files: Vec<String> = Vec::new();
    let mut stdin = None;
    for (i, t) in tables.iter().enumerate() {
        if let Some(j) = again[i] {
            if ctx.rng.bool() {
                // named twice, or by its other name
                let first = files[j].clone();
                let mut path = first.clone();
                if ctx.rng.one_in(3) {
                    path = ctx.path_str(&format!("in{}{}", i, &first[first.rfind("/in").unwrap() + 4..]));
                    let _ = std::fs::remove_file(&path);
                    std::fs::hard_link(&first, &path).unwrap();
                }
                files.push(path);
                ctx.count("inputs_named_twice", 1);
                continue;
            }
        }
        let bytes = if csv { csv_bytes(&mut ctx.rng, t, in_delim, has_header) } else { dc::encode(t) };
        let fmt: Option<Fmt> = if ctx.rng.one_in(3) { Some(*ctx.rng.pick(&FMTS[..5])) } else { None };
        let bytes = pack(&mut ctx.rng, fmt, &bytes, "inner");
        let ext = format!("{}{}", if csv { ".csv" } else { ".dc" }, ext_of(fmt));
        files.push(ctx.write(&format!("in{}{}", i, ext), &bytes));
        if k == 1 {
            stdin = Some((bytes, csv));
            // standard input has no name
            if csv || ctx.rng.bool() {
                let e = ext[1..].to_string();
                let o = spell(&mut ctx.rng, "format", Some('f'), &e);
                opts.push(o);
            }
        }
    }
    Job { zone, zone_env, opts, files, stdin, csv_text: text, dc: Table { hdr, rows: all }, fails, empty_input: tables.iter().any(|t| t.rows.is_empty()) }
}

fn csv_bytes(r: &mut Rng, t: &Table, delim: &str, header: bool) -> Vec<u8> {
    let mut s = String::new();
    let eol = if r.one_in(4) { "\r\n" } else { "\n" };
    if header {
        s += &(t.hdr.names.join(delim) + eol);
    }
    for m in &t.rows {
        s += &(m.v.iter().map(plain).collect::<Vec<_>>().join(delim) + eol);
    }
    if r.one_in(4) && t.rows.len() > 0 {
        s.truncate(s.len() - eol.len());
    }
    s.into_bytes()
}

/// options and inputs in any order
pub(super) fn arrange(r: &mut Rng, opts: &[Vec<String>], files: &[String]) -> (Vec<String>, bool) {
    let mut groups: Vec<Vec<String>> = opts.to_vec();
    r.shuffle(&mut groups);
    if !files.is_empty() && r.one_in(4) {
        let mut a: Vec<String> = groups.concat();
        a.push("--".into());
        a.extend(files.iter().cloned());
        return (a, true);
    }
    // inputs keep their order
    let mut at: Vec<usize> = files.iter().map(|_| r.us(groups.len() + 1)).collect();
    at.sort();
    let mut a = Vec::new();
    let mut f = 0;
    for i in 0..=groups.len() {
        while f < files.len() && at[f] == i {
            a.push(files[f].clone());
            f += 1;
        }
        if i < groups.len() {
            a.extend(groups[i].iter().cloned());
        }
    }
    (a, false)
}

pub(super) fn refs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}

fn run(ctx: &mut Ctx, job: &Job, args: &[String], stdin: bool) -> Result<CliOut, Bad> {
    ctx.count("runs", 1);
    let env = Env { tz: job.zone_env.as_deref(), ..Env::default() };
    if stdin {
        ctx.count("stdin_runs", 1);
        let b = &job.stdin.as_ref().unwrap().0;
        if ctx.rng.bool() {
            cli::chop(&refs(args), In::File(Path::new(&job.files[0])), env)
        } else {
            let n = *ctx.rng.pick(&[1usize, 7, 100_000]);
            cli::chop(&refs(args), In::Bytes(b, n), env)
        }
    } else {
        cli::chop(&refs(args), In::Null, env)
    }
}

pub(super) fn failed(out: &CliOut, what: &str) -> Res {
    ensure!(!out.panicked() && out.signal.is_none(), "{}: crash: {}", what, out.brief());
    ensure!(!out.ok(), "{}: status 0: {}", what, out.brief());
    ensure!(!out.err.trim().is_empty(), "{}: no message: {}", what, out.brief());
    Ok(())
}

fn valid(ctx: &mut Ctx) -> Res {
    let job = gen_job(ctx);
    ctx.describe(format!("zone {:?} env {:?} options {:?} inputs {:?} rows {}", job.zone.map(|z| z.name()), job.zone_env, job.opts, job.files.iter().map(|f| f.rsplit('/').next().unwrap().to_string()).collect::<Vec<_>>(), short(&job.dc.rows)));
    let sig = format!("{:?} {:?} {:?}", job.zone_env, job.opts, job.dc.rows);
    ctx.shape(true, &sig);
    let mut variants = vec![(false, 0, false), (false, 1, false)];
    if job.stdin.is_some() {
        variants.push((true, ctx.rng.below(3), false));
    }
    variants.push((false, 2, false));
    let b = (job.stdin.is_some() && ctx.rng.bool(), ctx.rng.below(3), true);
    variants.push(b);
    for (i, (stdin, output, backtrace)) in variants.into_iter().enumerate() {
        let mut opts = job.opts.clone();
        if backtrace {
            opts.push(vec!["--backtrace".into()]);
            ctx.count("backtrace_runs", 1);
        }
        let name = match output {
            0 => None,
            1 => Some(*ctx.rng.pick(&["o.csv", "ocsv", "o.x.csv", "csv"])),
            _ => Some(*ctx.rng.pick(&["o.dc", "o.csv.dc", "odc"])),
        };
        let path = name.map(|n| ctx.path_str(n));
        if let Some(p) = &path {
            let _ = std::fs::remove_file(p);
            if ctx.rng.bool() {
                // whatever is there goes away
                std::fs::write(p, vec![b'#'; 5000]).unwrap();
                ctx.count("existing_outputs", 1);
            }
            opts.push(spell(&mut ctx.rng, "output", Some('o'), p));
        }
        let none = Vec::new();
        let (args, dd) = arrange(&mut ctx.rng, &opts, if stdin { &none } else { &job.files });
        if dd {
            ctx.count("dash_dash", 1);
        }
        let out = run(ctx, &job, &args, stdin)?;
        let what = format!("run {} {:?}{}", i, args, if stdin { " < input" } else { "" });
        if job.fails && output != 2 {
            failed(&out, &what)?;
            let data = match &path {
                None => out.out_s(),
                Some(p) => std::fs::read_to_string(p).unwrap_or_default(),
            };
            ensure!(job.csv_text.starts_with(&data), "{}: {:?} was written without a time zone", what, data);
            ctx.count("runs_that_need_a_zone", 1);
            continue;
        }
        ctx.count("valid_runs", 1);
        ensure!(out.ok(), "{}: failed: {}", what, out.brief());
        ensure!(backtrace || out.err.is_empty(), "{}: prints messages: {}", what, out.brief());
        let bytes = match &path {
            None => out.out.clone(),
            Some(p) => {
                ensure!(out.out.is_empty(), "{}: standard output used: {}", what, out.brief());
                ctx.count("output_files", 1);
                std::fs::read(p).map_err(|e| Bad::Violation(format!("{}: no output: {}", what, e)))?
            }
        };
        if output == 2 {
            ctx.count("dc_outputs", 1);
            let t = dc::decode(&bytes).map_err(|e| Bad::Violation(format!("{}: bad dc output: {}", what, e)))?;
            if let Some(d) = diff_hdr(&t.hdr, &job.dc.hdr).or_else(|| diff_rows(&t.rows, &job.dc.rows)) {
                viol!("{}: dc output: {}", what, d);
            }
        } else {
            let got = String::from_utf8_lossy(&bytes);
            ensure!(got == job.csv_text, "{}: output {}, expected {}", what, short(&got), short(&job.csv_text));
            ctx.count("rows_printed", job.dc.rows.len() as u64);
        }
    }
    Ok(())
}

/// arguments with one mistake
fn mistake(ctx: &mut Ctx, n: u64, job: &mut Job, output: &mut Option<String>) -> Option<String> {
    let r = &mut ctx.rng;
    let has = |job: &Job, l: &str, s: &str| job.opts.iter().any(|o| o[0].starts_with(l) || !s.is_empty() && o[0].starts_with(s) && !o[0].starts_with("--"));
    let drop = |job: &mut Job, l: &str, s: &str| job.opts.retain(|o| !(o[0].starts_with(l) || !s.is_empty() && o[0].starts_with(s) && !o[0].starts_with("--")));
    let one = |s: &str| vec![s.to_string()];
    let two = |a: &str, b: &str| vec![a.to_string(), b.to_string()];
    let kind;
    match n {
        0 => {
            kind = "unknown option";
            job.opts.push(one(*r.pick(&["--nope", "-x", "--formats=dc", "--csv_in_epoch=ns", "-Z", "--csv-in-epochs=s", "---"])));
        }
        1 => {
            kind = "bad choice";
            let (l, v) = *r.pick(&[("--granularity", "min"), ("--granularity", "NS"), ("--granularity", ""), ("--csv-in-has-header", "maybe"), ("--csv-in-has-header", ""), ("--print-time", "1"), ("--print-time", "auto"), ("--csv-in-epoch", "sec"), ("--csv-in-epoch", "")]);
            drop(job, l, if l == "--granularity" { "-g" } else { "" });
            job.opts.push(one(&format!("{}={}", l, v)));
        }
        2 => {
            kind = "conflict";
            match r.below(6) {
                0 => {
                    drop(job, "--epoch", "-E");
                    drop(job, "--human", "-H");
                    let o = *r.pick(&[["-E", "-H"], ["--human", "-E"], ["--epoch", "--human"]]);
                    job.opts.push(one(o[0]));
                    job.opts.push(one(o[1]));
                }
                1 => {
                    drop(job, "--csv-in-ts-col", "");
                    drop(job, "--csv-in-epoch", "");
                    job.opts.extend([two("--csv-in-ts-col-date", "0"), two("--csv-in-ts-col-time", "1"), two("--csv-in-ts-col", "0")]);
                }
                2 => {
                    drop(job, "--csv-in-ts-col", "");
                    drop(job, "--csv-in-epoch", "");
                    job.opts.extend([two("--csv-in-ts-col-date", "0"), two("--csv-in-ts-col-time", "1"), two("--csv-in-ts-fmt", "%Y")]);
                }
                3 => {
                    drop(job, "--csv-in-ts-col", "");
                    drop(job, "--csv-in-epoch", "");
                    job.opts.extend([two("--csv-in-ts-fmt-date", "%Y%m%d"), two("--csv-in-ts-fmt-time", "%H%M"), two("--csv-in-ts-fmt", "%Y")]);
                }
                4 => {
                    drop(job, "--csv-in-epoch", "");
                    job.opts.extend([two("--csv-in-epoch", "ns"), two("--csv-in-ts-fmt", "%Y")]);
                }
                _ => {
                    drop(job, "--csv-in-ts-col", "");
                    drop(job, "--csv-in-epoch", "");
                    job.opts.extend([two("--csv-in-ts-col-date", "0"), two("--csv-in-ts-col-time", "1"), two("--csv-in-epoch", "s")]);
                }
            }
        }
        3 => {
            kind = "half of a pair";
            drop(job, "--csv-in-ts-col", "");
            drop(job, "--csv-in-epoch", "");
            job.opts.push(two(*r.pick(&["--csv-in-ts-col-date", "--csv-in-ts-col-time", "--csv-in-ts-fmt-date", "--csv-in-ts-fmt-time"]), "0"));
        }
        4 => {
            kind = "repeated option";
            let (l, s, v) = *r.pick(&[("--granularity", "-g", "s"), ("--begin", "-b", "2000"), ("--timezone", "-z", "UTC"), ("--delimiter", "", ";"), ("--print-time", "", "yes"), ("--csv-in-has-header", "", "yes")]);
            drop(job, l, s);
            job.opts.push(two(l, v));
            job.opts.push(two(l, v));
        }
        5 => {
            kind = "bad input delimiter";
            drop(job, "--csv-in-delimiter", "");
            job.opts.push(one(&format!("--csv-in-delimiter={}", r.pick(&["ab", "", "é", "\\x"]))));
        }
        6 => {
            kind = "unknown zone";
            drop(job, "--timezone", "-z");
            match r.below(3) {
                0 => job.zone_env = Some(r.pick(&["Nowhere/City", "europe/london", "+01:00", ""]).to_string()),
                _ => job.opts.push(two("-z", *r.pick(&["Nowhere/City", "utc+1", "Europe", "America/new_york"]))),
            }
        }
        7 => {
            kind = "bad time";
            let b = r.bool();
            let (l, s) = if b { ("--begin", "-b") } else { ("--end", "-e") };
            drop(job, l, s);
            job.opts.push(one(&format!("{}={}", l, r.pick(&["", "yesterday", "2019-13-01T00:00:00Z", "99", "20190230", "2019-01-01T00:00:00Zx", "12:00"]))));
        }
        8 => {
            kind = "unusable output";
            let d = ctx.path_str("dir.csv");
            std::fs::create_dir_all(&d).unwrap();
            let none = ctx.path_str("none/o.csv");
            let none2 = ctx.path_str("none/o.dc");
            let file = job.files[0].clone() + "/o.dc";
            let bare: Vec<String> = ["o.txt", "o", "o.CSV", "o.csv.gz", "o.dc.", "o.dcx"].iter().map(|s| ctx.path_str(s)).collect();
            let r = &mut ctx.rng;
            *output = Some(match r.below(6) {
                0 => d,
                1 => none,
                2 => none2,
                3 => file,
                _ => r.pick(&bare).clone(),
            });
            if output.as_ref().unwrap().ends_with('=') {
                return None;
            }
        }
        9 => {
            kind = "missing input";
            let p = *ctx.rng.pick(&["gone.dc", "gone/x.csv", "gone", "-", "in0.dc/x.dc"]);
            let p = ctx.path_str(p);
            let at = ctx.rng.us(job.files.len() + 1);
            job.files.insert(at, p);
        }
        10 => {
            kind = "unknown input";
            let b = ctx.rng.pick(&[&b"hello world\n"[..], b"", b"\0\0\0\0", b"PK", b"\x1f\x8b", b"DC\0\0"]).to_vec();
            let p = ctx.write("thing", &b);
            job.opts.retain(|o| !(o[0].starts_with("--format") || o[0].starts_with("-f")));
            let at = ctx.rng.us(job.files.len() + 1);
            job.files.insert(at, p);
        }
        11 => {
            kind = "headers differ";
            let h = Hdr { names: vec!["other".into()], types: vec![FieldType::Int] };
            let p = ctx.write("other.dc", &dc::encode(&Table { hdr: h, rows: vec![] }));
            job.opts.retain(|o| !(o[0].starts_with("--format") || o[0].starts_with("-f")));
            job.files.push(p);
        }
        12 => {
            kind = "unknown format";
            job.opts.retain(|o| !(o[0].starts_with("--format") || o[0].starts_with("-f")));
            let f = *r.pick(&["xls", "csv.bz2", "AUTO", "dcx", "", "gz,dc.rar"]);
            if f.contains(',') && job.files.len() < 2 {
                return None;
            }
            job.opts.push(one(&format!("--format={}", f)));
        }
        13 => {
            kind = "timestamp column";
            // it isn't looked for if there are no rows
            if !has(job, "--csv-in-ts-col", "") || job.empty_input {
                return None;
            }
            drop(job, "--csv-in-ts-col", "");
            job.opts.push(one(&format!("--csv-in-ts-col={}", r.pick(&["99", "nope", "WHEN", ""]))));
        }
        _ => {
            kind = "incomplete option";
            // has to come last; clap uses the default, if there is one
            job.opts.push(one(*r.pick(&["-b", "--end", "-o", "-z", "-f", "--csv-in-epoch", "--csv-in-delimiter", "--time-col-name", "--csv-in-ts-col"])));
        }
    }
    Some(kind.to_string())
}

fn invalid(ctx: &mut Ctx) -> Res {
    let mut job = gen_job(ctx);
    let n = ctx.rng.below(15);
    let mut output = match ctx.rng.below(3) {
        0 => None,
        1 => Some(ctx.path_str("o.csv")),
        _ => Some(ctx.path_str("o.dc")),
    };
    let kind = match mistake(ctx, n, &mut job, &mut output) {
        Some(k) => k,
        None => return Ok(()),
    };
    if let Some(p) = &output {
        if n == 4 || n == 14 {
            output = None;
        } else {
            let o = spell(&mut ctx.rng, "output", Some('o'), p);
            job.opts.push(o);
        }
    }
    let last = if n == 14 { job.opts.pop() } else { None };
    // standard input is no input
    let stdin = job.stdin.is_some() && ctx.rng.one_in(4) && !(9..=13).contains(&n) && n != 8;
    let none = Vec::new();
    if n == 14 {
        // a name after an option without value would be its value
        let mut a: Vec<String> = job.files.clone();
        if stdin {
            a.clear();
        }
        a.extend(job.opts.concat());
        a.extend(last.unwrap());
        return check_invalid(ctx, &job, &kind, a, stdin, &output);
    }
    let (args, _) = arrange(&mut ctx.rng, &job.opts, if stdin { &none } else { &job.files });
    check_invalid(ctx, &job, &kind, args, stdin, &output)
}

fn check_invalid(ctx: &mut Ctx, job: &Job, kind: &str, args: Vec<String>, stdin: bool, output: &Option<String>) -> Res {
    ctx.describe(format!("{}: zone {:?} {:?}{}", kind, job.zone_env, args, if stdin { " < input" } else { "" }));
    ctx.shape(true, &format!("{:?} {:?} {:?}", job.zone_env, args, job.dc.rows));
    let out = run(ctx, job, &args, stdin)?;
    failed(&out, kind)?;
    ensure!(out.out.is_empty(), "{}: standard output used: {}", kind, out.brief());
    if let Some(p) = output {
        // nothing that could pass for a complete result
        let b = std::fs::read(p).unwrap_or_default();
        ensure!(b.is_empty(), "{}: {} has {} bytes", kind, p, b.len());
    }
    ctx.count("mistakes_reported", 1);
    ctx.count(&format!("mistake_{}", kind.replace(' ', "_")), 1);
    // the same with backtraces
    if ctx.rng.one_in(4) {
        let mut a = vec!["--backtrace".to_string()];
        a.extend(args);
        let out2 = run(ctx, job, &a, stdin)?;
        ctx.count("backtrace_runs", 1);
        failed(&out2, kind)?;
        ensure!(out2.code == out.code && out2.out == out.out, "{}: differs with backtraces: {} / {}", kind, out.brief(), out2.brief());
    }
    Ok(())
}

/// data that breaks off or goes wrong after some rows
fn bad_data(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let n = r.urange(1, 40);
    let big = r.one_in(3);
    let rows: Vec<MRow> = (0..n).map(|i| MRow { ts: 1_000_000_000 * (i as u64 + 1), v: vec![Val::Str(format!("x{}{}", i, "y".repeat(if big { 2000 } else { 3 }))), Val::Int(i as i32)] }).collect();
    let t = Table { hdr: Hdr { names: vec!["a".into(), "b".into()], types: vec![FieldType::String, FieldType::Int] }, rows };
    let bad = r.us(n);
    let two = r.one_in(3);
    let fmt = if r.bool() { None } else { Some(*r.pick(&FMTS[..5])) };
    let (bytes, ext, opts): (Vec<u8>, &str, Vec<&str>) = if r.bool() {
        let b = dc::boundaries(&t);
        let e = dc::encode(&t);
        // somewhere within row `bad`
        let (lo, hi) = (b[bad], b[bad + 1]);
        let cut = r.urange(lo + 1, hi - 1);
        (e[..cut].to_vec(), ".dc", vec![])
    } else {
        let mut s = String::from("ts,a,b\n");
        for (i, m) in t.rows.iter().enumerate() {
            let l = format!("{},{},{}\n", m.ts, plain(&m.v[0]), plain(&m.v[1]));
            s += &if i != bad {
                l
            } else {
                // the first row may have more columns than the header
                match r.below(if bad == 0 { 2 } else { 3 }) {
                    0 => l.replacen(&m.ts.to_string(), "later", 1),
                    1 => format!("{}9{}", u64::MAX, l),
                    _ => l.replace('\n', ",more\n"),
                }
            };
        }
        (s.into_bytes(), ".csv", vec!["--csv-in-epoch=ns", "--csv-in-ts-col=ts", "--csv-in-has-header=yes", "--csv-in-delimiter=,"])
    };
    let bytes = pack(r, fmt, &bytes, "inner");
    let csv = ext == ".csv";
    let p = ctx.write(&format!("in{}{}", ext, ext_of(fmt)), &bytes);
    let mut args: Vec<String> = vec!["-E".into(), p];
    let mut want = String::from(if csv { "timestampNanos,ts,a,b\n" } else { "timestampNanos,a,b\n" });
    for m in &t.rows[..bad] {
        let ts = if csv { format!("{},{}", m.ts, m.ts) } else { m.ts.to_string() };
        let l = format!("{},{},{}\n", ts, plain(&m.v[0]), plain(&m.v[1]));
        want += &l;
        if two {
            want += &l;
        }
    }
    if two {
        // the intact one is read alongside
        let q = if csv {
            let s: String = t.rows.iter().map(|m| format!("{},{},{}\n", m.ts, plain(&m.v[0]), plain(&m.v[1]))).collect();
            ctx.write("good.csv", ("ts,a,b\n".to_string() + &s).as_bytes())
        } else {
            ctx.write("good.dc", &dc::encode(&t))
        };
        args.push(q);
        for m in &t.rows[bad..] {
            let ts = if csv { format!("{},{}", m.ts, m.ts) } else { m.ts.to_string() };
            want += &format!("{},{},{}\n", ts, plain(&m.v[0]), plain(&m.v[1]));
        }
    }
    args.extend(opts.iter().map(|s| s.to_string()));
    let o = if ctx.rng.bool() { Some(ctx.path_str("o.csv")) } else { None };
    if let Some(o) = &o {
        args.extend(["-o".into(), o.clone()]);
    }
    let bt = ctx.rng.one_in(4);
    if bt {
        args.push("--backtrace".into());
    }
    ctx.describe(format!("row {} of {} is bad, {:?}", bad, n, args));
    ctx.shape(true, &format!("{:?} {:?}", args, bytes));
    ctx.count("runs", 1);
    let out = cli::chop_simple(&refs(&args))?;
    failed(&out, "bad data")?;
    let got = match &o {
        None => out.out.clone(),
        Some(o) => {
            ensure!(out.out.is_empty(), "standard output used: {}", out.brief());
            std::fs::read(o).unwrap_or_default()
        }
    };
    ensure!(want.as_bytes().starts_with(&got), "output has something else than the rows before the bad one: {}", short(&String::from_utf8_lossy(&got)));
    ctx.count("bad_data_reported", 1);
    Ok(())
}

/// options that exclude or need each other, with data that suits all of them
fn combos(ctx: &mut Ctx) -> Res {
    const CD: &str = "--csv-in-ts-col-date=0";
    const CT: &str = "--csv-in-ts-col-time=1";
    const C: &str = "--csv-in-ts-col=2";
    const FD: &str = "--csv-in-ts-fmt-date=%Y%m%d";
    const FT: &str = "--csv-in-ts-fmt-time=%H%M%S";
    const F: &str = "--csv-in-ts-fmt=%Y%m%d%H%M%S";
    const E: &str = "--csv-in-epoch=ns";
    let good: &[(&[&str], &str)] = &[
        (&[CD, CT, FD, FT], "949399810000000000"),
        (&[CT, FT, CD, FD], "949399810000000000"),
        (&["--csv-in-ts-col-date=d", "--csv-in-ts-col-time=t", FD, FT], "949399810000000000"),
        (&[C, F], "949399810000000000"),
        (&["--csv-in-ts-col=ts", F], "949399810000000000"),
        (&[C, E], "20000201101010"),
        (&["--csv-in-ts-col=0", "--csv-in-epoch=s"], "20000201000000000"),
        (&["--csv-in-ts-col=0", "--csv-in-epoch=ms"], "20000201000000"),
        (&["--csv-in-ts-col=0", "--csv-in-epoch=us"], "20000201000"),
        (&[E], "20000201"),
    ];
    let bad: &[&[&str]] = &[
        &[CD, CT, C], &[CD, CT, FD, FT, C], &[CD, CT, F], &[CD, CT, FD, FT, F], &[FD, FT, C], &[FD, FT, F], &[FD, FT, C, F], &[C, E, F], &[E, F],
        &[CD, CT, E], &[CD, CT, FD, FT, E], &[CD], &[CT], &[CD, FD, FT], &[CT, FD, FT], &[FD], &[FT], &[CD, CT, FD], &[CD, CT, FT],
        &[C, F, C], &[C, F, F], &[C, E, E], &[CD, CT, FD, FT, CD], &[CD, CT, FD, FT, CT], &[CD, CT, FD, FT, FD], &[CD, CT, FD, FT, FT],
    ];
    // with any valid ones of these
    let out: &[&[&str]] = &[&["-E"], &["--epoch"], &["-E", "-gns"]];
    let bad_out: &[&[&str]] = &[&["-E", "-H"], &["--human", "--epoch"], &["-E", "-E"], &["--epoch", "-E"], &["-E", "-gns", "-gns"], &["-E", "-gs", "--granularity=ms"], &["-E", "-zUTC"], &["-E", "--backtrace", "--backtrace"], &["-E", "--time-col-name=a", "--time-col-name=b"], &["-E", "--delimiter=,", "--delimiter=;"], &["-E", "--print-time=yes", "--print-time=no"], &["-E", "-b1999", "--begin=1999"], &["-E", "-e2030", "--end=2031"], &["-E", "--csv-in-delimiter=,"], &["-E", "--csv-in-has-header=yes"], &["-E", "-o", "x.csv", "-o", "y.csv"]];
    let p = ctx.write("c.csv", b"d,t,ts\n20000201,101010,20000201101010\n");
    let r = &mut ctx.rng;
    let n = r.us(good.len() + bad.len() + bad_out.len());
    let mut opts: Vec<String> = vec!["-zUTC".into(), "--csv-in-has-header=yes".into(), "--csv-in-delimiter=,".into()];
    let (want, sel) = if n < good.len() {
        (Some(good[n].1), good[n].0)
    } else if n < good.len() + bad.len() {
        (None, bad[n - good.len()])
    } else {
        (None, good[r.us(good.len())].0)
    };
    opts.extend(sel.iter().map(|s| s.to_string()));
    let o = if n < good.len() + bad.len() { *r.pick(out) } else { bad_out[n - good.len() - bad.len()] };
    // options with a value of its own stay together
    let mut groups: Vec<Vec<String>> = opts.into_iter().map(|o| vec![o]).collect();
    let mut i = 0;
    while i < o.len() {
        let k = if o[i] == "-o" { 2 } else { 1 };
        groups.push(o[i..i + k].iter().map(|s| s.to_string()).collect());
        i += k;
    }
    groups.push(vec![p]);
    r.shuffle(&mut groups);
    let args = groups.concat();
    ctx.describe(format!("{:?} over d,t,ts / 20000201,101010,20000201101010", args));
    ctx.shape(true, &format!("{:?}", args));
    ctx.count("runs", 1);
    let dir = ctx.path_str("");
    let a: Vec<std::ffi::OsString> = args.iter().map(|s| s.into()).collect();
    let got = cli::exec_os(&cli::bin("chop"), &a, In::Null, Env { cwd: Some(std::path::Path::new(&dir)), ..Env::default() })?;
    match want {
        Some(ts) => {
            ensure!(got.ok() && got.err.is_empty(), "valid options failed: {}", got.brief());
            ensure!(got.out_s().lines().nth(1) == Some(&format!("{},20000201,101010,20000201101010", ts)), "printed {:?}, expected time {}", got.out_s(), ts);
            ctx.count("combinations_accepted", 1);
        }
        None => {
            failed(&got, "options that exclude each other")?;
            ensure!(got.out.is_empty(), "standard output used: {}", got.brief());
            ctx.count("combinations_rejected", 1);
        }
    }
    Ok(())
}

fn help(ctx: &mut Ctx) -> Res {
    let o = *ctx.rng.pick(&["-h", "--help", "-V", "--version"]);
    let mut a = vec![o];
    if ctx.rng.bool() {
        a.push("nosuchfile.dc");
    }
    ctx.describe(format!("{:?}", a));
    ctx.shape(true, &format!("{:?} {}", a, ctx.idx));
    ctx.count("runs", 1);
    let out = cli::chop_simple(&a)?;
    ensure!(out.ok() && out.err.is_empty(), "{} failed: {}", o, out.brief());
    let s = out.out_s();
    if o.to_lowercase().contains('h') {
        for l in ["--output", "--format", "--timezone", "--begin", "--end", "--granularity", "--csv-in-ts-col", "--csv-in-epoch", "--print-time", "--human", "--epoch"] {
            ensure!(s.contains(l), "{} doesn't mention {}", o, l);
        }
    } else {
        ensure!(s.starts_with("chopper ") && s.lines().count() == 1, "{} prints {:?}", o, s);
    }
    ctx.count("help_runs", 1);
    // names that are no text can't be used, but they can be given
    let mut b = ctx.path_str("x").into_bytes();
    b.extend([0xff, b'.', b'd', b'c']);
    let p = std::ffi::OsString::from_vec(b);
    let hdr = Hdr { names: vec!["a".into()], types: vec![FieldType::Int] };
    std::fs::write(&p, dc::encode(&Table { hdr, rows: vec![] })).unwrap();
    let out = cli::exec_os(&cli::bin("chop"), &[p], In::Null, Env::default())?;
    ctx.count("runs", 1);
    ensure!(!out.panicked() && out.signal.is_none(), "crash: {}", out.brief());
    if out.ok() {
        ensure!(out.out_s() == "time,a\n", "prints {:?}", out.out_s());
    } else {
        failed(&out, "name that is no text")?;
    }
    Ok(())
}

/// who reads standard output goes away before all is written
fn gone_reader(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let n = r.urange(6000, 12_000);
    let t = Table {
        hdr: Hdr { names: vec!["a".into()], types: vec![FieldType::String] },
        rows: (0..n).map(|i| MRow { ts: i as u64, v: vec![Val::Str(format!("some text of row {}", i))] }).collect(),
    };
    let at = r.us(60_000);
    let bt = r.one_in(3);
    let p = ctx.write("in.dc", &dc::encode(&t));
    let mut args = vec!["-E", p.as_str()];
    if bt {
        args.push("--backtrace");
    }
    ctx.describe(format!("{:?} of {} rows, standard output is read up to {} bytes and then closed", args, n, at));
    ctx.shape(true, &format!("gone {} {} {}", n, at, bt));
    ctx.count("runs", 1);
    let out = cli::chop(&args, In::Null, Env { close_after: Some(at), ..Env::default() })?;
    ensure!(!out.panicked(), "crash: {}", out.brief());
    ensure!(!out.ok(), "status 0 though most of the output could not be written: {}", out.brief());
    ctx.count("gone_readers", 1);
    Ok(())
}

fn c21(ctx: &mut Ctx) -> Res {
    if ctx.idx % 60 == 19 {
        return gone_reader(ctx);
    }
    match ctx.idx % 20 {
        8 => combos(ctx),
        0..=7 => valid(ctx),
        9..=15 => invalid(ctx),
        16..=18 => bad_data(ctx),
        _ => help(ctx),
    }
}
