//! C14 csv reading, C15 csv writing, C23 choice of timestamp column, C24 helpers
use super::times::{csv_config, lib_write_csv};
use crate::cli;
use crate::dc;
use crate::model::*;
use crate::probes::*;
use crate::rng::Rng;
use crate::run::{Bad, Ctx, Prop, Res, Tier};
use crate::tz::Tz;
use crate::{ensure, viol};
use chopper::chopper::types::FieldType;
use chopper::cli::util::YesNoAuto;
use chopper::source::csv_configs::{TimestampColConfig, TimestampFmtConfig};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::file::are_contents_same;
use chopper::util::remove_multiple::RemoveMultiple;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            level: "exploration",
            rule: "a case is a list of records (0 to 300, up to 30 fields, with delimiters, quotes, line breaks, blanks and texts up to 1 MB in them) that the harness renders as csv with random quoting, line ends, blank lines and padding, under a configured or guessed delimiter and header; rows and header read by the library (some by the tool) have to be those records. nontrivial: at least one record; distinct by text and configuration",
            assumptions: &["guessing is decided on the documented rule as the harness states it"],
            cases: (120_000, 2_500_000),
            budget: (30, 420),
            run: c14,
            must_observe: &["records_of_no_data", "records", "quoted_fields", "crlf_files", "files_without_final_line_break", "blank_lines", "short_records", "too_long_records_reported", "headers_guessed", "delimiters_guessed", "long_texts", "guesses_with_long_lines", "byte_order_marks", "cli_runs", "bad_delimiters_rejected", "files_over_65536_rows", "tables_over_4000_columns"],
        },
        Prop {
            id: "C15",
            level: "exploration",
            rule: "a case is a table of any types and values written as csv by library or tool with random delimiter, time column on or off and named or not; the whole output is matched cell by cell, floating point cells by reading them back bit for bit. nontrivial: at least one row; distinct by table and configuration",
            assumptions: &["Rust's own number parsing is right"],
            cases: (60_000, 1_200_000),
            budget: (30, 420),
            run: c15,
            must_observe: &["odd_names", "rows", "float_cells", "null_cells", "text_cells", "cli_runs", "without_time_column", "named_time_column", "cases_over_65000_rows", "long_texts", "tables_over_4000_columns"],
        },
        Prop {
            id: "C23",
            level: "exploration",
            rule: "a case is a list of up to 8 column names drawn from all classes of the documented priority (in any case and order, with duplicates of a class) or an explicit column name or index; every other column holds a text that would be read as another time, so the delivered timestamp tells which column was taken. nontrivial: all; distinct by names and configuration",
            assumptions: &["no two prefixed time columns of different prefixes next to a prefixed date column, no names that start with time other than by the rule"],
            cases: (200_000, 4_000_000),
            budget: (30, 420),
            run: c23,
            must_observe: &["chosen_time_with_unit", "chosen_date", "chosen_date_and_time", "chosen_time", "chosen_prefixed_time_with_unit", "chosen_prefixed_date", "chosen_prefixed_date_and_time", "chosen_prefixed_time", "chosen_first", "chosen_explicitly", "unknown_rejected"],
        },
        Prop {
            id: "C24",
            level: "exploration",
            rule: "a case is a vector with a random ascending list of indices (all subsets for lengths up to 8 come up) or a pair of files of sizes around the buffer size that are equal, differ in one byte or in length. nontrivial: all; distinct by case",
            assumptions: &[],
            cases: (120_000, 2_000_000),
            budget: (25, 300),
            run: c24,
            must_observe: &["removals", "elements_removed", "equal_files", "unequal_files", "files_larger_than_buffer", "same_modification_times", "lengths_beyond_32_bits", "removals_over_4000_elements"],
        },
    ]
}

// ------------------------------------------------------------------ C14

fn gen_field(r: &mut Rng, kind: u64) -> String {
    match kind {
        0 => String::new(),
        1 => r.below(100000).to_string(),
        2 => format!("{}.{}", r.below(1000), r.below(100)),
        3 => r.pick(&["abc", "Hello World", "x", "é漢🦀", "a-b_c", "N/A"]).to_string(),
        4 => {
            // anything, line breaks and quotes included
            let n = r.us(12);
            (0..n).map(|_| *r.pick(&[',', '"', '\n', '\r', '\t', ' ', ';', '|', 'a', 'b', '1', 'é', '\'', '\\', '#'])).collect()
        }
        5 => "\"\"".repeat(r.us(3)) + "q",
        _ => gen_text(r, 40),
    }
}

struct Rendered {
    s: String,
    quoted: u64,
    blanks: u64,
}

/// one record as csv
fn put_record(r: &mut Rng, o: &mut Rendered, f: &[String], delim: char, pad: bool, eol: &str) {
    for (i, x) in f.iter().enumerate() {
        if i > 0 {
            o.s.push(delim);
        }
        let must = x.contains(delim) || x.contains('\n') || x.contains('\r') || x.starts_with('"') || f.len() == 1 && x.is_empty() || o.s.is_empty() && x.starts_with('\u{feff}');
        if must || r.one_in(6) {
            o.s.push('"');
            let lead = pad && r.one_in(6);
            if lead {
                o.s.push(' '); // trimmed even within quotes
            }
            o.s += &x.replace('"', "\"\"");
            o.s.push('"');
            o.quoted += 1;
            if pad && delim != ' ' && r.one_in(6) {
                o.s.push_str("  ");
            }
        } else {
            let p = |r: &mut Rng| if pad && r.one_in(4) { if delim == '\t' || r.bool() { " " } else { "\t " } } else { "" };
            // a quote after blanks is text
            let (a, b) = (p(r), p(r));
            let (a, b) = if delim == ' ' { ("", "") } else { (a, b) };
            o.s += a;
            o.s += x;
            o.s += b;
        }
    }
    o.s += eol;
}

/// model of the documented guessing rules
fn kind_of(s: &str) -> u8 {
    let s = s.trim();
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    let s2 = s.strip_prefix('-').unwrap_or(s);
    if digits(s2) {
        return 0;
    }
    if let Some((a, b)) = s2.split_once('.') {
        if digits(a) && digits(b) {
            return 1;
        }
    }
    2
}
fn guess_delim(line: &str) -> char {
    let n = |c: char| line.chars().filter(|x| *x == c).count();
    let mut best = ',';
    for c in ['\t', ' '] {
        if n(c) > n(best) {
            best = c;
        }
    }
    best
}
fn guess_header(l1: &str, l2: &str, d: char) -> bool {
    let k = |l: &str| l.split(d).map(kind_of).collect::<Vec<_>>();
    k(l1) != k(l2)
}

fn c14(ctx: &mut Ctx) -> Res {
    if ctx.idx % 500 == 11 {
        return c14_delims(ctx);
    }
    let guess_mode = ctx.idx % 3 == 0;
    let long_file = ctx.long(9001);
    let wide = if guess_mode { None } else { super::formats::widths(ctx) };
    let r = &mut ctx.rng;
    let eol = if r.one_in(3) { "\r\n" } else { "\n" };
    let cols = match r.below(12) {
        0 => 1,
        1 => r.urange(8, 30),
        _ => r.urange(1, 6),
    };
    let cols = if let Some(n) = wide { n } else if long_file.is_some() { cols.min(3) } else { cols };
    let ts_col = r.us(cols);
    let n = if let Some(n) = long_file { n } else if wide.is_some() { r.urange(1, 3) } else if r.one_in(30) { r.us(300) } else { r.size(12) };
    let mut long = 0u64;
    let mut o = Rendered { s: String::new(), quoted: 0, blanks: 0 };
    let mut opt = CsvOpt { col: TimestampColConfig::Index(ts_col), fmt: TimestampFmtConfig::Epoch(TimestampUnits::Nanos), ..CsvOpt::default() };
    let mut args: Vec<String> = vec!["-E".into(), "--csv-in-epoch=ns".into(), format!("--csv-in-ts-col={}", ts_col)];
    let mut recs: Vec<Vec<String>> = Vec::new();
    let mut short_recs = 0u64;
    let delim;
    let has_header;
    let mut too_long = false;
    if guess_mode {
        // fields that look like something, and neither need quotes nor hold blanks or delimiters
        // some have lines that reach past what is previewed, where only the answer that is right either way counts
        let reach = long_file.is_none() && cols > 1 && r.one_in(25);
        delim = if reach { ',' } else { *r.pick(&[',', ',', '\t', ' ']) };
        let kinds: Vec<u64> = (0..cols).map(|i| if i == ts_col { 1 } else { r.range(1, 3) }).collect();
        let field = |r: &mut Rng, k: u64| -> String {
            match k {
                1 => (if r.one_in(6) { "-" } else { "" }).to_string() + &r.below(100000).to_string(),
                2 => format!("{}{}.{}", if r.one_in(6) { "-" } else { "" }, r.below(1000), r.below(100)),
                _ => r.pick(&["abc", "price", "x", "é漢🦀", "a-b_c", "N/A", "12a", "1.2.3", "--1", "q\"q", "ĬĬĬĬĬĬĬĬ", "Ĭxĉ", "ĉĉĉĉĉ", "ĠĠĠĠ", "é漢"]).to_string(),
            }
        };
        let header_line = r.bool();
        if header_line {
            let alike = r.one_in(4);
            recs.push((0..cols).map(|i| if alike || r.one_in(8) && i > 0 { field(r, kinds[i]) } else { format!("c{}", i) }).collect());
        }
        for k in 0..n {
            let flip = r.one_in(if k < 2 { 4 } else { 6 });
            recs.push((0..cols).map(|i| {
                if i == ts_col {
                    r.below(1 << 40).to_string()
                } else if flip && r.one_in(3) {
                    let k = r.range(1, 3);
                    field(r, k)
                } else {
                    field(r, kinds[i])
                }
            }).collect());
        }
        if reach && recs.len() > 0 {
            let k = r.us(recs.len().min(2));
            let i = (ts_col + 1) % cols;
            let before: usize = recs[..k].iter().map(|f| f.join(",").len() + eol.len()).sum();
            let rest = recs[k].join(",").len() - recs[k][i].len() + eol.len();
            let end = *r.pick(&[8190usize, 8191, 8192, 8193, 8194, 9000, 16384, 70_000]);
            let len = end.saturating_sub(before + rest);
            let (sign, digits) = match recs[k][i].strip_prefix('-') {
                Some(d) => ("-", d.to_string()),
                None => ("", recs[k][i].clone()),
            };
            recs[k][i] = if recs[k][i].parse::<f64>().is_err() {
                "ab".repeat(end).chars().take(len).collect()
            } else if digits.starts_with(|c: char| c.is_ascii_digit()) {
                // as many zeros in front, which leave a number of the kind it was
                format!("{}{}{}", sign, "0".repeat(len.saturating_sub(recs[k][i].len())), digits)
            } else {
                recs[k][i].clone()
            };
            long += 1;
        }
        // counts of the candidates in the first line decide; make ties and near misses
        if let Some(first) = recs.first_mut().filter(|_| !reach) {
            if r.one_in(3) && cols > 1 {
                let last = first.len() - 1;
                let other = if delim == ' ' { "," } else if r.bool() { " " } else if delim == ',' { "\t" } else { "," };
                let times = r.urange(1, cols + 1);
                let i = if last == ts_col && last > 0 { last - 1 } else { last };
                if i != ts_col || header_line {
                    first[i] = (0..=times).map(|_| "w").collect::<Vec<_>>().join(other);
                }
            }
        }
        // lines of different length have different kinds of values, too
        if r.one_in(4) {
            let k = r.us(recs.len().min(3) + 1);
            if k < recs.len() && ts_col + 1 < cols {
                let keep = r.urange(ts_col + 1, cols - 1);
                if recs[k].last().map(|f| !f.is_empty()).unwrap_or(false) {
                    recs[k].truncate(keep);
                    short_recs += 1;
                }
            }
        }
        // blanks around fields are no part of them, for guesses as well
        let pad = !reach && delim != ' ' && r.one_in(4);
        for rec in &recs {
            for (i, f) in rec.iter().enumerate() {
                if i > 0 {
                    o.s.push(delim);
                }
                if pad && r.one_in(3) {
                    o.s.push(' ');
                }
                o.s += f;
                if pad && r.one_in(4) {
                    o.s.push(' ');
                }
            }
            o.s += eol;
        }
        if pad {
            ctx.ev.insert("guesses_with_blanks_around_fields".into(), 1);
        }
        // a byte order mark is no part of the first field
        let marked = r.one_in(12) && !o.s.is_empty();
        let plain = o.s.clone();
        if marked {
            o.s.insert(0, '\u{feff}');
            ctx.ev.insert("byte_order_marks".into(), 1);
        }
        let explicit_delim = r.one_in(4) || pad && guess_delim(plain.split('\n').next().unwrap_or("")) != delim;
        if explicit_delim {
            opt.delim = Some(if delim == '\t' && r.bool() { "\\t".into() } else { delim.to_string() });
            args.push(format!("--csv-in-delimiter={}", opt.delim.as_ref().unwrap()));
        }
        let lines: Vec<&str> = plain.split('\n').collect();
        let guessed = if explicit_delim || recs.is_empty() { delim } else { guess_delim(lines[0]) };
        if !explicit_delim {
            ctx.ev.insert("delimiters_guessed".into(), 1);
        }
        opt.has_header = if r.one_in(5) { YesNoAuto::No } else if r.one_in(4) { YesNoAuto::Yes } else { YesNoAuto::Auto };
        if recs.len() > 0 && guessed != delim {
            // fields as the guessed delimiter makes them
            recs = plain.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).filter(|l| !l.is_empty()).map(|l| l.split(guessed).map(|s| s.trim().to_string()).collect()).collect();
        }
        if reach && recs.len() >= 2 && guess_header(lines[0], lines[1], guessed) {
            opt.has_header = if r.bool() { YesNoAuto::Yes } else { YesNoAuto::No };
        } else if reach {
            ctx.ev.insert("guesses_with_long_lines".into(), 1);
        }
        has_header = match opt.has_header {
            YesNoAuto::Yes => true,
            YesNoAuto::No => false,
            YesNoAuto::Auto => {
                ctx.ev.insert("headers_guessed".into(), 1);
                recs.len() >= 2 && guess_header(lines[0], lines[1], guessed)
            }
        };
    } else {
        delim = *r.pick(&[',', ',', ';', '|', '\t', ' ', ':', '^', '\u{1}', '~']);
        opt.delim = Some(delim.to_string());
        args.push(format!("--csv-in-delimiter={}", delim));
        has_header = r.bool();
        opt.has_header = if has_header { YesNoAuto::Yes } else { YesNoAuto::No };
        let pad = r.one_in(3);
        if has_header {
            recs.push((0..cols).map(|i| {
                let s = if r.one_in(3) { let k = r.below(7); gen_field(r, k) } else { format!("name {}", i) };
                s.trim().to_string()
            }).collect());
        }
        for k in 0..n {
            let mut f: Vec<String> = (0..cols).map(|i| {
                if i == ts_col {
                    gen_bits64(r).to_string()
                } else {
                    let k = r.below(7);
                    gen_field(r, k).trim().to_string()
                }
            }).collect();
            if cols > 1 && r.one_in(if long_file.is_some() { 20_000 } else { 60 }) {
                // a long one
                let i = (ts_col + 1) % cols;
                let max = if r.one_in(8) { 1 << 20 } else if r.one_in(30) { 3 << 20 } else { 20_000 };
                f[i] = "long,\"x\"\n".repeat(r.us(max) / 9).trim().to_string();
                long += 1;
            }
            if k > 0 && r.one_in(6) && ts_col + 1 < cols {
                let keep = r.urange(ts_col + 1, cols - 1);
                f.truncate(keep);
                short_recs += 1;
            }
            if r.one_in(if long_file.is_some() { 200_000 } else { 80 }) {
                f.push("extra".into());
                if k > 0 {
                    too_long = true;
                }
            }
            if r.one_in(8) && long_file.is_none() && !recs.is_empty() {
                // the same record again, or one like the header line
                let back = r.us(recs.len().min(3)) + 1;
                let mut same = recs[recs.len() - back].clone();
                if same.len() > ts_col && same[ts_col].parse::<u64>().is_err() {
                    same[ts_col] = f[ts_col].clone();
                }
                f = same;
            } else if k > 0 && r.one_in(if long_file.is_some() { 200_000 } else { 100 }) {
                // nothing that could be left out without being noticed
                f = match r.below(6) {
                    0 => vec![String::new(); f.len()],
                    1 => vec!["\u{1a}".into()],
                    2 => vec![r.pick(&["EOF", "...", "# note", "// note", "-- note", "(2 rows)", "total", "---"]).to_string()],
                    3 => vec![r.pick(&["#", "//", "--", "total", "sum", ""]).to_string(); f.len()],
                    4 => f.iter().map(|_| "-".repeat(r.urange(1, 6))).collect(),
                    _ => recs[0].clone(),
                };
                if has_header && recs.len() > 1 && r.one_in(3) {
                    f = recs[0].clone();
                }
                ctx.ev.insert("records_of_no_data".into(), 1);
            } else if r.one_in(8) && has_header && k == 0 {
                recs[0][ts_col] = f[ts_col].clone();
                recs[0].resize(f.len(), "h".into());
                f = recs[0].clone();
                ctx.ev.insert("records_like_the_header".into(), 1);
            }
            recs.push(f);
        }
        if r.one_in(12) {
            o.s.push('\u{feff}');
            ctx.ev.insert("byte_order_marks".into(), 1);
        }
        for (k, rec) in recs.iter().enumerate() {
            while r.one_in(10) {
                o.s += if r.bool() { eol } else { "\n" };
                o.blanks += 1;
            }
            let last = k + 1 == recs.len();
            let e = if last && r.bool() { "" } else { eol };
            put_record(r, &mut o, rec, delim, pad, e);
        }
        // with a header line that is too short, the first record tells the number of columns
        let width = |k: usize| recs.get(k).map(|r| r.len()).unwrap_or(0);
        let first = has_header as usize;
        let ncols = width(0).max(if first == 1 { width(1) } else { 0 });
        too_long = recs.iter().skip(first).any(|r| r.len() > ncols);
        if !o.s.ends_with('\n') {
            ctx.ev.insert("files_without_final_line_break".into(), 1);
        }
    }
    // expected
    let first = has_header as usize;
    let body: &[Vec<String>] = if recs.len() > first { &recs[first..] } else { &[] };
    let mut names: Vec<String> = if has_header { recs.first().cloned().unwrap_or_default() } else { vec![] };
    let first_len = body.first().map(|b| b.len()).unwrap_or(0);
    for i in names.len()..first_len {
        names.push(format!("col_{}", i));
    }
    let ncols = names.len();
    let mut want: Vec<MRow> = Vec::new();
    let mut fails: Option<&'static str> = None;
    for rec in body {
        if rec.len() > ncols {
            fails = Some("too many fields");
            break;
        }
        let ts = match rec.get(ts_col).and_then(|t| t.parse::<u64>().ok()) {
            Some(t) => t,
            None => {
                fails = Some("no timestamp");
                break;
            }
        };
        let mut v: Vec<Val> = rec.iter().map(|f| Val::Str(f.clone())).collect();
        v.resize(ncols, Val::Null);
        want.push(MRow { ts, v });
    }
    let hdr = Hdr { names, types: vec![FieldType::String; ncols] };
    let text = o.s;
    ctx.describe(format!("delimiter {:?} ({:?}), header {} ({:?}), timestamps in column {}, expected header {} and {} rows, then {:?}: {}", delim, opt.delim, has_header, opt.has_header, ts_col, short(&hdr.names), want.len(), fails, if ctx.verbose { format!("{:?}", text) } else { short(&text) }));
    ctx.shape(!body.is_empty(), &format!("{:?} {:?} {} {}", opt.delim, opt.has_header, ts_col, text));
    ctx.count("records", recs.len() as u64);
    if want.len() > 65_536 {
        ctx.count("files_over_65536_rows", 1);
    }
    ctx.count("quoted_fields", o.quoted);
    ctx.count("blank_lines", o.blanks);
    ctx.count("long_texts", long);
    ctx.count("short_records", short_recs);
    if eol == "\r\n" {
        ctx.count("crlf_files", 1);
    }
    let _ = too_long;
    let p = ctx.write("in.csv", text.as_bytes());
    if ctx.idx % 40 == 7 && fails.is_none() {
        // through the tool, copied to dc, which keeps texts apart
        args.push(format!("--csv-in-has-header={}", match opt.has_header {
            YesNoAuto::Yes => "yes",
            YesNoAuto::No => "no",
            YesNoAuto::Auto => "auto",
        }));
        let o = ctx.path_str("o.dc");
        args.extend([p, "-o".into(), o.clone()]);
        let out = cli::chop_simple(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
        ctx.count("cli_runs", 1);
        ensure!(out.ok(), "tool failed: {}", out.brief());
        let t = dc::decode(&std::fs::read(&o).unwrap_or_default()).map_err(|e| Bad::Violation(format!("dc output: {}", e)))?;
        if let Some(d) = diff_hdr(&t.hdr, &hdr) {
            viol!("tool: {}", d);
        }
        if let Some(d) = diff_rows(&t.rows, &want) {
            viol!("tool: {}", d);
        }
        return Ok(());
    }
    let out = read_path(&p, None, &opt);
    if let End::Panic(l, m) = &out.end {
        viol!("panic at {}: {}", l, m);
    }
    match fails {
        None => {
            ensure!(out.end == End::Ok, "reading ended with {:?} after {} of {} rows", out.end, out.rows.len(), want.len());
            if let Some(d) = diff_hdr(out.hdr.as_ref().unwrap(), &hdr) {
                viol!("{}", d);
            }
            if let Some(d) = diff_rows(&out.rows, &want) {
                viol!("{}", d);
            }
        }
        Some(why) => {
            ensure!(matches!(out.end, End::Err(_)), "record with {} is no error", why);
            ensure!(out.rows.len() <= want.len(), "{} rows delivered, only {} are before the bad record", out.rows.len(), want.len());
            if let Some(d) = diff_rows(&out.rows, &want[..out.rows.len()]) {
                viol!("{}", d);
            }
            ctx.count(if why == "too many fields" { "too_long_records_reported" } else { "bad_timestamps_reported" }, 1);
        }
    }
    Ok(())
}

/// what is accepted as delimiter
fn c14_delims(ctx: &mut Ctx) -> Res {
    for (d, ok) in [("", false), ("ab", false), ("é", false), ("\\n", false), ("\\t", true), (";", true), ("|", true), (",,", false), ("漢", false)] {
        let o = CsvOpt { delim: Some(d.into()), ..CsvOpt::default() };
        ensure!(o.config().is_ok() == ok, "delimiter {:?} accepted: {}, expected {}", d, !ok, ok);
        if !ok {
            ctx.count("bad_delimiters_rejected", 1);
        }
    }
    ctx.shape(true, "delims");
    Ok(())
}

// ------------------------------------------------------------------ C15

fn c15(ctx: &mut Ctx) -> Res {
    let long = ctx.long(1501);
    let wide = super::formats::widths(ctx);
    let r = &mut ctx.rng;
    let mut cols = wide.unwrap_or_else(|| gen_cols(r, if long.is_some() { 2 } else { 60 }));
    let mut n = if let Some(n) = long { n } else if cols > 100 { r.size(6) } else { r.size(30) };
    let mut maxs = *r.pick(&[0usize, 5, 20, 200]);
    if ctx.tier == Tier::Thorough && r.one_in(50) {
        maxs = if long.is_some() { 20 } else { 100_000 };
        cols = cols.min(10);
        n = n.min(5);
    }
    let mut hdr = gen_hdr(r, cols);
    if r.one_in(4) {
        // mostly numbers with fractions
        for t in hdr.types.iter_mut() {
            *t = *r.pick(&[FieldType::Double, FieldType::Float]);
        }
    }
    // names are printed as they are, blanks included
    if r.one_in(4) {
        for s in hdr.names.iter_mut() {
            if r.one_in(3) {
                let b = *r.pick(&[" ", "\t", "  ", "\u{a0}", "\u{3000}", "\r", "\"", "'", "\n"]);
                *s = match r.below(4) {
                    0 => format!("{}{}", b, s),
                    1 => format!("{}{}", s, b),
                    2 => format!("{}{}y", s, b),
                    _ => b.to_string(),
                };
            }
        }
        *ctx.ev.entry("odd_names".into()).or_insert(0) += 1;
    }
    let mut rows = gen_rows(r, &hdr, n, maxs);
    // texts around and above the sizes of buffers, in lines or not
    if n > 0 && r.one_in(if ctx.idx % 40 == 9 { 3 } else { 60 }) {
        if let Some(c) = hdr.types.iter().position(|t| *t == FieldType::String) {
            for _ in 0..r.urange(1, 3) {
                let k = r.us(n);
                let mut s = String::new();
                for _ in 0..r.us(4) {
                    let l = *r.pick(&[0usize, 10, 1000, 1023, 1024, 4000, 8191, 8192, 9000]);
                    s += &"l".repeat(l);
                    s.push('\n');
                }
                let l = *r.pick(&[0usize, 10, 1000, 1023, 1024, 1025, 4000, 8191, 8192, 9000, 20_000, 70_000]);
                let l = if r.one_in(40) { (1 << 20) + r.us(1 << 20) } else { l };
                s += &"t".repeat(l);
                rows[k].v[c] = Val::Str(s);
            }
            *ctx.ev.entry("long_texts".into()).or_insert(0) += 1;
        }
    }
    let t = Table { hdr, rows };
    let delim = *r.pick(&[",", ",", ";", "\t", "|", " ", "||", "::", "; ", "é"]);
    let print = r.bool() || r.bool();
    let name = if r.one_in(3) { Some(*r.pick(&["t", "my time", "Zeit é", "time,stamp", "x"])) } else { None };
    ctx.describe(format!("delimiter {:?} time column {} named {:?} table {} header {} rows {}", delim, print, name, table_shape(&t), short(&t.hdr.names), short(&t.rows)));
    ctx.shape(n > 0, &format!("{:?} {} {:?} {}", delim, print, name, super::formats::table_sig(&t)));
    let p = ctx.path_str("out.csv");
    let text;
    if ctx.idx % 40 == 9 {
        let i = ctx.write("in.dc", &dc::encode(&t));
        let d = format!("--delimiter={}", delim);
        let mut a = vec!["-E", &d, "--print-time", if print { "yes" } else { "no" }];
        if let Some(n) = name {
            a.push("--time-col-name");
            a.push(n);
        }
        a.push(&i);
        let to_file = ctx.rng.bool();
        if to_file {
            a.push("-o");
            a.push(&p);
        }
        let out = cli::chop_simple(&a)?;
        ctx.count("cli_runs", 1);
        ensure!(out.ok(), "tool failed: {}", out.brief());
        text = if to_file { std::fs::read(&p).map_err(|e| Bad::Violation(format!("no output: {}", e)))? } else { out.out };
    } else {
        let cfg = csv_config(delim, print, name, true, TimestampUnits::Nanos, None::<Tz>);
        lib_write_csv(&t, &p, cfg).map_err(|e| Bad::Violation(format!("writing failed: {}", e)))?;
        text = std::fs::read(&p).map_err(|e| Bad::Violation(format!("no output: {}", e)))?;
    }
    match_csv(ctx, &text, &t, delim, print, name.unwrap_or("timestampNanos"))?;
    ctx.count("rows", n as u64);
    if !print {
        ctx.count("without_time_column", 1);
    } else if name.is_some() {
        ctx.count("named_time_column", 1);
    }
    Ok(())
}

fn match_csv(ctx: &mut Ctx, text: &[u8], t: &Table, delim: &str, print: bool, name: &str) -> Res {
    let text = std::str::from_utf8(text).map_err(|e| Bad::Violation(format!("output is no text: {}", e)))?;
    let mut rest = text;
    let eat = |rest: &mut &str, want: &str, what: &dyn Fn() -> String| -> Res {
        match rest.strip_prefix(want) {
            Some(x) => {
                *rest = x;
                Ok(())
            }
            None => Err(Bad::Violation(format!("{}: expected {} but got {}", what(), short(&want), short(&rest.chars().take(60).collect::<String>())))),
        }
    };
    let mut cells: Vec<String> = Vec::new();
    if print {
        cells.push(name.to_string());
    }
    cells.extend(t.hdr.names.iter().cloned());
    eat(&mut rest, &(cells.join(delim) + "\n"), &|| "header line".into())?;
    for (k, row) in t.rows.iter().enumerate() {
        let mut first = true;
        if print {
            eat(&mut rest, &row.ts.to_string(), &|| format!("time of row {}", k))?;
            first = false;
        }
        for (c, v) in row.v.iter().enumerate() {
            if !first {
                eat(&mut rest, delim, &|| format!("delimiter before column {} of row {}", c, k))?;
            }
            first = false;
            let what = || format!("column {} of row {} ({})", c, k, short(v));
            match v {
                Val::Null => ctx.count("null_cells", 1),
                Val::Byte(x) => eat(&mut rest, &x.to_string(), &what)?,
                Val::Char(x) => eat(&mut rest, &x.to_string(), &what)?,
                Val::Short(x) => eat(&mut rest, &x.to_string(), &what)?,
                Val::Int(x) => eat(&mut rest, &x.to_string(), &what)?,
                Val::Long(x) => eat(&mut rest, &x.to_string(), &what)?,
                Val::Str(s) => {
                    eat(&mut rest, s, &what)?;
                    ctx.count("text_cells", 1);
                }
                Val::Float(_) | Val::Double(_) => {
                    let e = rest.find(|ch: char| !(ch.is_ascii_alphanumeric() || "+-.".contains(ch))).unwrap_or(rest.len());
                    let s = &rest[..e];
                    let same = match v {
                        Val::Float(b) => s.parse::<f32>().map(|x| x.to_bits() == *b || x.is_nan() && f32::from_bits(*b).is_nan()).unwrap_or(false),
                        Val::Double(b) => s.parse::<f64>().map(|x| x.to_bits() == *b || x.is_nan() && f64::from_bits(*b).is_nan()).unwrap_or(false),
                        _ => false,
                    };
                    let num = match v {
                        Val::Float(b) => format!("{:?}", f32::from_bits(*b)),
                        Val::Double(b) => format!("{:?}", f64::from_bits(*b)),
                        _ => String::new(),
                    };
                    ensure!(same, "{}: printed as {:?}, which is not {}", what(), s, num);
                    rest = &rest[e..];
                    ctx.count("float_cells", 1);
                }
                _ => {}
            }
        }
        eat(&mut rest, "\n", &|| format!("end of row {}", k))?;
    }
    ensure!(rest.is_empty(), "output goes on after the last row: {}", short(&rest));
    Ok(())
}

// ------------------------------------------------------------------ C23

#[derive(Clone, Debug, PartialEq)]
enum Role {
    Unit(usize),
    Date,
    Time,
    PUnit(usize),
    PDate(String),
    PTime(String),
    None,
}
#[derive(Clone, Debug, PartialEq)]
enum Choice {
    One(usize, Option<usize>),
    Two(usize, usize),
    Unknown,
}
const UN: [(&str, u64); 4] = [("seconds", 1_000_000_000), ("millis", 1_000_000), ("micros", 1_000), ("nanos", 1)];

fn any_case(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        2 => {
            let mut c = s.chars();
            let f = c.next().unwrap();
            f.to_uppercase().collect::<String>() + c.as_str()
        }
        _ => s.chars().map(|c| if r.bool() { c.to_uppercase().next().unwrap() } else { c }).collect(),
    }
}

fn c23(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let n = r.urange(1, 8);
    // some are the start or the end of others, which is not a common prefix
    let prefixes = ["trade", "event_", "x", "up", "tr", "tradex", "xx", "u", "de", "upx", "date_", "uptime_", "datetime", "xtimexdate", "xtimeseconds_", "ä", "äö_", "время_", "ñandú "];
    let mut names: Vec<String> = Vec::new();
    let mut roles: Vec<Role> = Vec::new();
    // classes that may come up in this case, so that every level of priority gets its chance
    let classes: Vec<u64> = {
        let k = r.below(9);
        let mut v: Vec<u64> = (k..9).collect();
        if r.bool() {
            v = vec![k, 8];
        }
        v
    };
    let ptime_prefix = r.pick(&prefixes).to_string();
    // nearly the same
    let near_prefix = match r.below(7) {
        0 => format!("{}_", ptime_prefix),
        1 => ptime_prefix.trim_end_matches('_').to_string(),
        2 => format!("_{}", ptime_prefix),
        3 => format!("{}-", ptime_prefix),
        4 => format!("x{}", ptime_prefix),
        5 => format!("{0}{0}", ptime_prefix),
        _ => format!("{}1", ptime_prefix),
    };
    let near = r.one_in(4) && near_prefix != "";
    for i in 0..n {
        let (name, role) = match if r.one_in(3) { 8 } else { *r.pick(&classes) } {
            0 => {
                let u = r.us(4);
                (format!("time{}", UN[u].0), Role::Unit(u))
            }
            1 => ("date".to_string(), Role::Date),
            2 | 3 => ("time".to_string(), Role::Time),
            4 => {
                let u = r.us(4);
                let p = *r.pick(&prefixes);
                (format!("{}time{}", p, UN[u].0), Role::PUnit(u))
            }
            5 | 6 => {
                let p = if near { near_prefix.clone() } else if r.bool() { ptime_prefix.clone() } else { r.pick(&prefixes).to_string() };
                (format!("{}date", p), Role::PDate(p))
            }
            7 => (format!("{}time", ptime_prefix), Role::PTime(ptime_prefix.clone())),
            _ => (format!("{}{}", r.pick(&["price", "timestamp", "timesheet", "dates", "seconds", "timely", "dated", "xtimes", "nanos", "timestampmillis"]), if r.bool() { i.to_string() } else { String::new() }), Role::None),
        };
        names.push(any_case(r, &name));
        roles.push(role);
    }
    let find = |f: &dyn Fn(&Role) -> bool| roles.iter().position(|x| f(x));
    let mut explicit = false;
    let mut label = "";
    let mut col = TimestampColConfig::Auto;
    let choice = if r.one_in(4) {
        explicit = true;
        let i = r.us(n);
        if r.one_in(4) {
            names[i] = format!("col {}", UN[r.us(4)].0);
        }
        let unit = |name: &str| UN.iter().position(|u| name.ends_with(u.0));
        // explicit names of mixed case tell no unit for sure
        let sure = |name: &str| UN.iter().all(|u| name.to_lowercase().ends_with(u.0) == name.ends_with(u.0));
        match r.below(7) {
            0 | 1 if sure(&names[i]) => {
                col = TimestampColConfig::Index(i);
                Choice::One(i, unit(&names[i]))
            }
            2 | 3 if sure(&names[i]) => {
                let i = names.iter().position(|x| *x == names[i]).unwrap();
                col = TimestampColConfig::Name(names[i].clone());
                Choice::One(i, unit(&names[i]))
            }
            4 if n > 1 => {
                let j = (i + r.urange(1, n - 1)) % n;
                col = TimestampColConfig::DateTimeIndex(i, j);
                Choice::Two(i, j)
            }
            5 if n > 1 => {
                let j = (i + r.urange(1, n - 1)) % n;
                let (i, j) = (names.iter().position(|x| *x == names[i]).unwrap(), names.iter().position(|x| *x == names[j]).unwrap());
                if i == j {
                    return Ok(());
                }
                col = TimestampColConfig::DateTimeName(names[i].clone(), names[j].clone());
                Choice::Two(i, j)
            }
            _ => {
                col = match r.below(4) {
                    0 => TimestampColConfig::Index(n + r.us(3)),
                    1 => TimestampColConfig::Name("no such column".into()),
                    2 => TimestampColConfig::DateTimeName(names[i].clone(), "no such column".into()),
                    _ => TimestampColConfig::DateTimeIndex(n + r.us(3), i),
                };
                Choice::Unknown
            }
        }
    } else if let Some(i) = find(&|x| matches!(x, Role::Unit(_))) {
        label = "chosen_time_with_unit";
        Choice::One(i, if let Role::Unit(u) = roles[i] { Some(u) } else { None })
    } else if let Some(d) = find(&|x| *x == Role::Date) {
        match find(&|x| *x == Role::Time) {
            Some(t) => {
                label = "chosen_date_and_time";
                Choice::Two(d, t)
            }
            None => {
                label = "chosen_date";
                Choice::One(d, None)
            }
        }
    } else if let Some(i) = find(&|x| *x == Role::Time) {
        label = "chosen_time";
        Choice::One(i, None)
    } else if let Some(i) = find(&|x| matches!(x, Role::PUnit(_))) {
        label = "chosen_prefixed_time_with_unit";
        Choice::One(i, if let Role::PUnit(u) = roles[i] { Some(u) } else { None })
    } else if let Some(d) = find(&|x| matches!(x, Role::PDate(_))) {
        let p = if let Role::PDate(p) = &roles[d] { p.clone() } else { String::new() };
        match find(&|x| *x == Role::PTime(p.clone())) {
            Some(t) => {
                label = "chosen_prefixed_date_and_time";
                Choice::Two(d, t)
            }
            None => {
                label = "chosen_prefixed_date";
                Choice::One(d, None)
            }
        }
    } else if let Some(i) = find(&|x| matches!(x, Role::PTime(_))) {
        label = "chosen_prefixed_time";
        Choice::One(i, None)
    } else {
        label = "chosen_first";
        Choice::One(0, None)
    };
    // cells that would all be read as some time, each as a different one
    let full = r.bool();
    // a name with a unit makes any number one of these units, whatever it looks like
    let odd = r.below(5);
    let base = 1_000_000_000u64;
    let text = |i: usize| -> (String, u64) {
        let day = 1 + i as u64;
        let d = format!("200303{:02}", day);
        let noon = crate::civil::days_from_civil(2003, 3, day as u32) as u64 * 86400;
        match &choice {
            Choice::One(_, Some(u)) => {
                let v = match odd {
                    0 => 7 * (i as u64 + 1),
                    1 => 20030301 + i as u64,
                    2 => base + i as u64,
                    _ => base * (1_000_000_000 / UN[*u].1) + 7 * (i as u64 + 1),
                };
                (v.to_string(), v * UN[*u].1)
            }
            Choice::One(_, None) => {
                if full {
                    (format!("{} 01:02:{:02}", d, i), (noon + 3720 + i as u64) * base)
                } else {
                    (d, noon * base)
                }
            }
            Choice::Two(a, b) => {
                if i == *a || i != *b && matches!(roles[i], Role::Date | Role::PDate(_)) {
                    (d, noon * base)
                } else {
                    (format!("01:02:{:02}", i), (3720 + i as u64) * base)
                }
            }
            Choice::Unknown => (d, noon * base),
        }
    };
    let cells: Vec<String> = (0..n).map(|i| text(i).0).collect();
    let want = match &choice {
        Choice::One(i, _) => Some(text(*i).1),
        Choice::Two(d, t) => Some(text(*d).1 + text(*t).1),
        Choice::Unknown => None,
    };
    let s = format!("{}\n{}\n", names.join("|"), cells.join("|"));
    ctx.describe(format!("{:?} names {:?} cells {:?} expected choice {:?} timestamp {:?}", col, names, cells, choice, want));
    ctx.shape(true, &format!("{:?} {}", col, s));
    let p = ctx.write("in.csv", s.as_bytes());
    let o = CsvOpt { delim: Some("|".into()), has_header: YesNoAuto::Yes, col, tz: chopper::util::tz::ChopperTz::from(Tz::UTC), ..CsvOpt::default() };
    let out = read_path(&p, None, &o);
    match (&out.end, want) {
        (End::Panic(l, m), _) => viol!("panic at {}: {}", l, m),
        (End::Ok, Some(w)) => {
            ensure!(out.rows.len() == 1, "{} rows", out.rows.len());
            let g = out.rows[0].ts;
            let other = (0..n).find(|i| text(*i).1 == g);
            ensure!(g == w, "timestamp {} instead of {} (that of column {:?})", g, w, other);
            ctx.count(if explicit { "chosen_explicitly" } else { label }, 1);
        }
        (End::Err(_), None) => ctx.count("unknown_rejected", 1),
        (End::Ok, None) => viol!("unknown column accepted, timestamp {}", out.rows[0].ts),
        (End::Err(e), Some(w)) => viol!("error instead of timestamp {}: {}", w, e),
    }
    Ok(())
}

// ------------------------------------------------------------------ C24

fn c24(ctx: &mut Ctx) -> Res {
    if ctx.idx % 8 == 1 && ctx.idx < 24 {
        // more than 65,536 of them, and more than 4,096
        let n = if ctx.idx == 1 { 70_000 } else { 10_000 };
        let dens = ctx.rng.range(20, 2000);
        let idx: Vec<usize> = (0..n).filter(|_| !ctx.rng.one_in(dens)).collect();
        ctx.describe(format!("remove {} of {} elements", idx.len(), n));
        ctx.shape(true, &ctx.desc.clone());
        let mut gone = vec![false; n];
        idx.iter().for_each(|i| gone[*i] = true);
        let mut v: Vec<u32> = (0..n as u32).collect();
        v.remove_multiple(&idx);
        let want: Vec<u32> = (0..n as u32).filter(|i| !gone[*i as usize]).collect();
        ctx.count("removals_over_4000_elements", 1);
        ensure!(v == want, "left {}, expected {}", short(&v), short(&want));
        return Ok(());
    }
    let r = &mut ctx.rng;
    if ctx.idx % 8 != 0 {
        let n = if r.bool() { r.us(9) } else { r.size(500) };
        let dens = r.range(1, 5);
        let idx: Vec<usize> = match r.below(8) {
            0 => (0..n).collect(),
            1 => vec![],
            2 => {
                let a = r.us(n + 1);
                (a..r.urange(a, n)).collect()
            }
            _ => (0..n).filter(|_| r.one_in(dens)).collect(),
        };
        ctx.describe(format!("remove {:?} of {} elements", idx, n));
        ctx.shape(true, &ctx.desc.clone());
        // elements that own memory show lost or doubled ones
        let orig: Vec<String> = (0..n).map(|i| format!("e{}", i)).collect();
        let mut v = orig.clone();
        v.remove_multiple(&idx);
        let want: Vec<String> = orig.iter().enumerate().filter(|(i, _)| !idx.contains(i)).map(|(_, x)| x.clone()).collect();
        ctx.count("removals", 1);
        ctx.count("elements_removed", idx.len() as u64);
        ensure!(v == want, "left {}, expected {}", short(&v), short(&want));
        return Ok(());
    }
    let n = match r.below(4) {
        0 => *r.pick(&[0usize, 1, 8191, 8192, 8193, 16383, 16384, 16385, 65536]),
        1 => r.us(100_000),
        _ => r.size(40_000),
    };
    let mut a = if r.bool() { vec![7u8; n] } else { r.bytes(n) };
    let mut b = a.clone();
    match r.below(6) {
        0 | 1 => {}
        2 | 3 if n > 0 => {
            let i = if r.bool() { r.us(n) } else { *r.pick(&[0, n - 1, n / 2, n.saturating_sub(8192)]) };
            b[i] ^= 1 << r.below(8);
        }
        4 if n > 0 => {
            let k = match r.below(3) {
                0 => n - 1,
                1 => r.us(n),
                _ => n / 8192 * 8192,
            };
            b.truncate(k);
        }
        _ => {
            let k = r.size(9000).max(1);
            b.extend(vec![7u8; k]);
        }
    }
    if r.bool() {
        ctx.describe(format!("files of {} and {} bytes", a.len(), b.len()));
    } else {
        ctx.describe(format!("files of {} and {} bytes, swapped", a.len(), b.len()));
    }
    let swap = ctx.desc.ends_with("swapped");
    ctx.shape(true, &format!("{} {:x} {:x}", swap, crate::rng::fnv(&a), crate::rng::fnv(&b)));
    let pa = ctx.write("a", &a);
    let mut pb = ctx.write("b", &b);
    let turn = ctx.idx / 8;
    let what = match turn % 8 {
        // times, permissions and places of files tell nothing about their bytes
        0 | 1 => {
            let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_500_000_000);
            for p in [&pa, &pb] {
                std::fs::File::options().write(true).open(p).unwrap().set_modified(t).unwrap();
            }
            ctx.count("same_modification_times", 1);
            ", of the same time"
        }
        2 => {
            let l = ctx.path_str("l");
            std::os::unix::fs::symlink(&pb, &l).unwrap();
            pb = l;
            ", one through a link"
        }
        3 if a == b => {
            let l = ctx.path_str("l");
            std::fs::hard_link(&pa, &l).unwrap();
            pb = l;
            ", which are one"
        }
        4 if turn % 64 == 4 => {
            // far apart in length, by a number that is lost in 32 bits
            std::fs::write(&pa, vec![0u8; n % 1000]).unwrap();
            let f = std::fs::File::create(&pb).unwrap();
            f.set_len((1 << 32) + (n % 1000) as u64).unwrap();
            ctx.count("lengths_beyond_32_bits", 1);
            b = vec![0u8; n % 1000 + 1];
            a = vec![0u8; n % 1000];
            ", one of them 4 GB longer"
        }
        _ => "",
    };
    ctx.describe(format!("{}{}", ctx.desc.clone(), what));
    let got = if swap { are_contents_same(&pb, &pa) } else { are_contents_same(&pa, &pb) };
    let want = a == b;
    ctx.count(if want { "equal_files" } else { "unequal_files" }, 1);
    if n > 8192 {
        ctx.count("files_larger_than_buffer", 1);
    }
    match got {
        Ok(g) => ensure!(g == want, "said same: {}, first difference at {:?}", g, a.iter().zip(&b).position(|(x, y)| x != y)),
        Err(e) => viol!("failed with {}", e),
    }
    Ok(())
}
