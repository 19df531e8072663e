//! C16 directories, C17 ways to determine the format, C18 pieces of input, C27 extension points
use super::driver::merge_graph;
use super::formats::{gen_content, gen_csv_content, same, Content};
use crate::cli;
use crate::comp::{self, Enc, Fmt, FMTS};
use crate::dc;
use crate::model::*;
use crate::probes::*;
use crate::rng::Rng;
use crate::run::{catch, Bad, Ctx, Prop, Res};
use crate::{ensure, viol};
use chopper::chopper::chopper::{ChopperDriver, Source};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row, TimestampRange};
use chopper::cli::util::YesNoAuto;
use chopper::driver::driver::Driver;
use chopper::error::CliResult;
use chopper::source::csv_configs::{TimestampColConfig, TimestampFmtConfig};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::source::source_factory::SourceFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::reader::{ChopperBufPreviewer, ChopperBufReader};
use std::cell::RefCell;
use std::io::{BufRead, Read, Write};
use std::path::Path;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            level: "exploration",
            rule: "a case is a directory of 0 to 8 (sometimes 600, more than may be open at once) generated files of any mix of dc and csv and compressions, with names of any order, in which columns come in random order with extra ones, some files having no rows and some lacking a column or having one of another type, next to subdirectories; header and rows read by library and tool have to be those of the files one after another. nontrivial: at least two files with rows; distinct by names and bytes of files",
            assumptions: &["column names are unique within a file"],
            cases: (9_000, 250_000),
            budget: (35, 480),
            run: c16,
            must_observe: &["files", "rows", "files_with_columns_in_other_order", "files_with_extra_columns", "files_with_repeated_names", "files_without_rows", "subdirectories", "missing_columns_reported", "wrong_types_reported", "files_of_no_bytes_reported", "mixed_formats", "compressed_files", "cli_runs", "symlinks", "links_within_the_directory", "empty_directories", "cases_over_65000_rows", "directories_over_100_files", "directories_over_4100_files"],
        },
        Prop {
            id: "C17",
            level: "exploration",
            rule: "a case is a generated dc or csv content, plain or in one of six compressed formats, whose format is told by name, by option (under misleading names) or not at all (meaningless name, standard input, a pipe), or a list of inputs with a list of formats, or something that is no known format; rows and header have to be those of the content, or the run has to fail. nontrivial: at least one row or an expected error; distinct by bytes, name and option",
            assumptions: &["content that has to be recognised is not empty; unrecognisable content is shorter than the preview of 8192 bytes"],
            cases: (16_000, 400_000),
            budget: (35, 480),
            run: c17,
            must_observe: &["by_name", "by_option", "by_option_against_name", "by_content", "by_content_of_decompressed", "by_stdin", "by_stdin_option", "format_lists", "unknown_reported", "unrecognisable_reported", "wrong_format_reported", "by_zip_entry_name"],
        },
        Prop {
            id: "C18",
            level: "exploration",
            rule: "a case is a generated content in any format and compression handed out by a transport that cuts it into pieces (single bytes, fixed, random and listed sizes, around the preview size), or the same through a pipe or fifo of the tool, or bytes read through previewer and buffered reader directly by random calls; what comes out has to be what the content means, byte for byte in the direct case. nontrivial: more than one piece; distinct by content and cut",
            assumptions: &[],
            cases: (24_000, 600_000),
            budget: (35, 480),
            run: c18,
            must_observe: &["reads", "single_byte_reads", "contents_of_preview_size", "previews", "bytes_compared", "fifo_runs", "pipe_runs", "rows", "truncated_inputs", "buffered_calls"],
        },
        Prop {
            id: "C27",
            level: "exploration",
            rule: "a case is an input opened with up to two added source factories (accepting by name, by content, or declining) and up to two added transports, plain or compressed, single, in a directory, or merged with files under a time range, or a path that nothing recognises, or a run of an embedding program; the factory that gets it, the bytes it gets and the rows delivered have to be those of the model. nontrivial: all; distinct by setup and content",
            assumptions: &["zip files are opened by the built-in file transport only"],
            cases: (16_000, 400_000),
            budget: (35, 480),
            run: c27,
            must_observe: &["own_factory_by_name", "own_factory_by_content", "own_factory_over_builtin", "declined", "own_transport_opens", "own_transport_over_builtin", "several_would_take_it", "merges", "ranges", "directories", "unrecognised_paths", "embed_runs", "rows"],
        },
    ]
}

/// encodes without the combination that is a known finding of a dependency
pub fn pack(r: &mut Rng, fmt: Option<Fmt>, data: &[u8], inner: &str) -> Vec<u8> {
    match fmt {
        None => data.to_vec(),
        Some(f) => loop {
            let e: Enc = comp::encode(r, f, data, inner, 4);
            if !e.linked_stored {
                return e.bytes;
            }
        },
    }
}
pub fn ext_of(fmt: Option<Fmt>) -> &'static str {
    fmt.map(|f| f.ext()).unwrap_or("")
}

/// text as a csv cell
fn cell(r: &mut Rng, s: &str) -> String {
    if s.contains(|c: char| c == ',' || c == '\n' || c == '\r' || c == '"') || s.starts_with('"') || s.is_empty() && r.one_in(3) || r.one_in(8) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

/// csv with header line of a table of strings; trailing nulls are left out, there must be no others
pub fn csv_of(r: &mut Rng, t: &Table) -> Vec<u8> {
    let eol = if r.one_in(3) { "\r\n" } else { "\n" };
    let line = |r: &mut Rng, v: Vec<String>| v.iter().map(|s| cell(r, s)).collect::<Vec<_>>().join(",");
    let names = t.hdr.names.clone();
    let mut s = line(r, names);
    for row in &t.rows {
        s += eol;
        let v: Vec<String> = row.v.iter().take_while(|v| **v != Val::Null).map(|v| if let Val::Str(x) = v { x.clone() } else { String::new() }).collect();
        if v.len() == 1 && v[0].is_empty() {
            s += "\"\"";
        } else {
            s += &line(r, v);
        }
    }
    if t.rows.is_empty() && r.bool() {
    } else if r.one_in(4) {
    } else {
        s += eol;
    }
    s.into_bytes()
}

fn by_ts_name() -> CsvOpt {
    CsvOpt {
        delim: Some(",".into()),
        has_header: YesNoAuto::Yes,
        col: TimestampColConfig::Name("ts".into()),
        fmt: TimestampFmtConfig::Epoch(TimestampUnits::Nanos),
        ..CsvOpt::default()
    }
}
const TS_ARGS: [&str; 6] = ["-E", "--csv-in-has-header", "yes", "--csv-in-ts-col=ts", "--csv-in-epoch=ns", "--csv-in-delimiter=,"];

// ------------------------------------------------------------------ C16

struct DirFile {
    name: String,
    table: Table,
    csv: bool,
}

/// a table with the columns of base in random order and maybe others, from t on
fn gen_variant(r: &mut Rng, base: &Hdr, all_text: bool, t: &mut u64, shuffle: bool, extra: usize, n: Option<usize>) -> (Table, Vec<usize>) {
    let mut cols: Vec<(String, FieldType, Option<usize>)> = base.names.iter().zip(&base.types).enumerate().map(|(i, (n, ty))| (n.clone(), *ty, Some(i))).collect();
    for k in 0..extra {
        // names that only differ in case or length from the others
        let name = match r.below(4) {
            0 => format!("{}x", base.names.first().cloned().unwrap_or_default()),
            1 => base.names.last().cloned().unwrap_or_default().to_uppercase() + "+",
            _ => format!("extra{}", k),
        };
        if cols.iter().any(|c| c.0 == name) {
            continue;
        }
        let ty = if all_text { FieldType::String } else { *r.pick(&TYPES) };
        let at = if shuffle { r.us(cols.len() + 1) } else { cols.len() };
        cols.insert(at, (name, ty, None));
    }
    if shuffle {
        match r.below(4) {
            0 => cols.reverse(),
            1 if cols.len() > 1 => cols.rotate_left(1),
            2 if cols.len() > 1 => cols.rotate_right(1),
            _ => r.shuffle(&mut cols),
        }
    }
    let hdr = Hdr { names: cols.iter().map(|c| c.0.clone()).collect(), types: cols.iter().map(|c| c.1).collect() };
    let mut map = vec![0; base.len()];
    for (k, c) in cols.iter().enumerate() {
        if let Some(i) = c.2 {
            map[i] = k;
        }
    }
    let n = if let Some(n) = n { n } else if r.one_in(4) { 0 } else if r.one_in(40) { r.us(3000) } else { r.size(20) };
    let mut rows = Vec::new();
    for _ in 0..n {
        *t += r.below(1000);
        rows.push(MRow {
            ts: *t,
            v: hdr.types.iter().zip(&hdr.names).map(|(ty, name)| {
                if name == "ts" {
                    Val::Str(t.to_string())
                } else if all_text {
                    Val::Str(gen_text(r, 12).trim().to_string())
                } else if r.one_in(5) {
                    Val::Null
                } else {
                    gen_val(r, *ty, 12)
                }
            }).collect(),
        });
    }
    (Table { hdr, rows }, map)
}

fn c16(ctx: &mut Ctx) -> Res {
    let long = ctx.long(1201);
    let very_many = ctx.idx % 1203 == 408 && ctx.idx < 5000;
    let many = ctx.idx % 401 == 7;
    // no more, as the columns of each file are looked up one by one
    let wide = if long.is_some() { None } else { super::formats::widths(ctx).map(|n| if n > 10_000 { n / 10 } else { n }) };
    if very_many {
        ctx.count("directories_over_4100_files", 1);
    }
    let r = &mut ctx.rng;
    let dcs_only = r.one_in(3);
    let all_text = !dcs_only;
    let cols = if let Some(n) = wide { n } else if long.is_some() { r.urange(1, 3) } else if r.one_in(20) && !many { r.urange(10, 40) } else if dcs_only && r.one_in(25) { 0 } else { r.urange(1, 6) };
    let mut base = Hdr { names: vec![], types: vec![] };
    for i in 0..cols {
        let n = match r.below(4) {
            0 => format!("c{}", i),
            1 => format!("C{}", i),
            2 => format!("Price {}", i),
            _ => format!("é{}_x", i),
        };
        base.names.push(n);
        base.types.push(if all_text { FieldType::String } else { *r.pick(&TYPES) });
    }
    if all_text {
        let k = r.us(cols);
        base.names[k] = "ts".into();
    }
    // columns of the same name, which is clear only as long as all files start with the same columns
    let repeated = cols > 1 && wide.is_none() && r.one_in(8);
    if repeated {
        for _ in 0..r.urange(1, 3) {
            let (a, b) = (r.us(cols), r.us(cols));
            if base.names[b] != "ts" && base.names[a] != "ts" {
                base.names[b] = base.names[a].clone();
                if r.one_in(3) {
                    base.types[b] = base.types[a];
                }
            }
        }
    }
    let nfiles = match r.below(30) {
        _ if very_many && ctx.idx % 2 == 0 => r.urange(12_000, 15_000),
        _ if very_many => r.urange(4_100, 4_400),
        _ if many => r.urange(150, 600),
        _ if wide.is_some() => 2,
        _ if long.is_some() => r.urange(2, 3),
        0 => 0,
        1 => 1,
        2 => r.urange(20, 150),
        _ => r.urange(2, 8),
    };
    // names, sorted by their bytes
    let mut names: Vec<String> = Vec::new();
    while names.len() < nfiles {
        let k = r.below(if nfiles > 1000 { 100_000 } else if nfiles > 20 { 1000 } else { 12 });
        let n = match r.below(9) {
            // goes on where another one, which is followed by its extension, ends
            8 if !names.is_empty() => {
                let other = r.pick(&names).clone();
                other + *r.pick(&["-1", "!", " b", "+", ",x", "#", "(1)", "_", "~", "'", "-", "%20", ".", ".a"])
            }
            0 => format!("{}", k),
            1 => format!("{:03}", k),
            2 => format!("A{}", k),
            3 => format!("a{}", k),
            4 => format!("é{}", k),
            5 => format!(".h{}", k),
            6 => format!("x-{}", k),
            _ => format!("x{}", "y".repeat(k as usize % 7)) + &(k / 7).to_string(),
        };
        if !names.contains(&n) {
            names.push(n);
        }
    }
    let forced: Option<(bool, Option<Fmt>)> = if r.one_in(6) { Some((all_text && r.bool(), if r.bool() { Some(*r.pick(&FMTS)) } else { None })) } else { None };
    // the whole name is what counts for the order
    let mut specs: Vec<(String, bool, Option<Fmt>, u64)> = names
        .iter()
        .map(|n| match forced {
            Some((csv, f)) => {
                let ext = *r.pick(&["", ".dc", ".csv", ".bin", ".x.gz"]);
                (format!("{}{}", n, ext), csv, f, 0)
            }
            None => {
                let csv = all_text && r.bool();
                let f = if r.one_in(3) { Some(*r.pick(&FMTS)) } else { None };
                let style = r.below(4);
                let name = match style {
                    0 | 1 => format!("{}{}{}", n, if csv { ".csv" } else { ".dc" }, ext_of(f)),
                    2 => format!("{}{}", n, ext_of(f)),
                    _ => n.clone(),
                };
                (name, csv, f, style)
            }
        })
        .collect();
    specs.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
    specs.dedup_by(|a, b| a.0 == b.0);
    let dir = ctx.dir.join("d");
    std::fs::create_dir(&dir).unwrap();
    let mut t = ctx.rng.below(1 << 50);
    let mut want = Table { hdr: Hdr { names: vec![], types: vec![] }, rows: vec![] };
    let mut err: Option<&'static str> = None;
    let bad_at = if specs.len() > 1 && !repeated && cols > 0 && ctx.rng.one_in(4) { Some(ctx.rng.urange(1, specs.len() - 1)) } else { None };
    let mut files: Vec<DirFile> = Vec::new();
    let mut sig = String::new();
    let mut ev: Vec<&'static str> = vec![];
    let mut maps: Vec<Vec<usize>> = Vec::new();
    for (i, (name, csv, f, style)) in specs.iter().enumerate() {
        let r = &mut ctx.rng;
        // another name of a file that has been read already, which is read again
        if i > 0 && err.is_none() && bad_at != Some(i) && !very_many && long.is_none() && r.one_in(8) {
            let j = r.us(i);
            let (other, csv2, f2, style2) = &specs[j];
            let same_end = forced.is_some() || csv2 == csv && f2 == f && (*style2).max(1) == (*style).max(1);
            if same_end {
                let (a, b) = (dir.join(other), dir.join(name));
                match r.below(4) {
                    0 => std::fs::hard_link(&a, &b).unwrap(),
                    1 => std::os::unix::fs::symlink(other, &b).unwrap(),
                    2 if !std::fs::symlink_metadata(&a).unwrap().file_type().is_symlink() => {
                        std::fs::rename(&a, &b).unwrap();
                        std::os::unix::fs::symlink(name, &a).unwrap();
                    }
                    _ => std::os::unix::fs::symlink(&a, &b).unwrap(),
                }
                let tab = files[j].table.clone();
                let map = maps[j].clone();
                for row in &tab.rows {
                    want.rows.push(MRow { ts: row.ts, v: map.iter().map(|c| row.v[*c].clone()).collect() });
                }
                sig += &format!("{}={};", name, other);
                if !tab.rows.is_empty() {
                    ev.push("links_within_the_directory");
                }
                files.push(DirFile { name: name.clone(), table: tab, csv: *csv });
                maps.push(map);
                continue;
            }
        }
        let shuffle = i > 0 && !repeated && r.bool();
        let extra = if i > 0 && r.one_in(3) { r.urange(1, 4) } else { 0 };
        let before = t;
        let n = match long {
            Some(n) if i == 0 || i + 1 == specs.len() && n < 1 << 20 => Some(n),
            _ if many => Some(r.us(4)),
            // long stretches of files without rows
            _ if very_many && ctx.idx % 2 == 0 => Some(r.one_in(5_000) as usize),
            _ if very_many => Some(r.us(3)),
            _ if wide.is_some() => Some(r.urange(1, 2)),
            _ => None,
        };
        let (mut tab, map) = gen_variant(r, &base, all_text, &mut t, shuffle, extra, n);
        if i == 0 {
            want.hdr = tab.hdr.clone();
        }
        if base.len() == 0 && tab.rows.len() > 0 {
            ev.push("rows_without_columns");
        }
        let nothing = bad_at == Some(i) && r.one_in(4);
        if nothing {
            // a file of no bytes has no columns
            err = err.or(Some("files_of_no_bytes_reported"));
        } else if bad_at == Some(i) {
            let k = r.us(base.len());
            if !all_text && r.bool() || all_text && base.names[k] == "ts" && !*csv {
                // another type, only dc files have types
                let c = map[k];
                let other = *r.pick(&TYPES);
                if other != tab.hdr.types[c] {
                    tab.hdr.types[c] = other;
                    for row in tab.rows.iter_mut() {
                        if row.v[c] != Val::Null {
                            row.v[c] = gen_val(r, other, 5);
                        }
                    }
                    err = err.or(Some("wrong_types_reported"));
                }
            } else if base.names[k] != "ts" {
                let c = map[k];
                if r.bool() {
                    tab.hdr.names[c] = match r.below(3) {
                        0 => tab.hdr.names[c].clone() + " ",
                        1 => format!("{}2", tab.hdr.names[c]),
                        _ => "other".into(),
                    };
                    if *csv {
                        tab.hdr.names[c] = format!("{}3", tab.hdr.names[c].trim());
                    }
                } else {
                    tab.hdr.names.remove(c);
                    tab.hdr.types.remove(c);
                    for row in tab.rows.iter_mut() {
                        row.v.remove(c);
                    }
                }
                err = err.or(Some("missing_columns_reported"));
            }
        }
        // csv can leave out values at the end
        if *csv && tab.rows.len() > 1 && r.one_in(3) {
            let tsc = tab.hdr.names.iter().position(|n| n == "ts").unwrap();
            for row in tab.rows.iter_mut().skip(1) {
                if r.one_in(3) {
                    let keep = r.urange(tsc + 1, row.v.len());
                    for v in row.v[keep..].iter_mut() {
                        *v = Val::Null;
                    }
                }
            }
        }
        if !*csv && tab.hdr.len() == 0 && r.bool() {
            // nothing special, tables without columns are fine
            ev.push("files_without_columns");
        }
        if err.is_none() {
            for row in &tab.rows {
                want.rows.push(MRow { ts: row.ts, v: map.iter().map(|c| row.v[*c].clone()).collect() });
            }
            if shuffle {
                ev.push("files_with_columns_in_other_order");
            }
            if repeated && i > 0 && !tab.rows.is_empty() {
                ev.push("files_with_repeated_names");
            }
            if extra > 0 {
                ev.push("files_with_extra_columns");
            }
            if tab.rows.is_empty() {
                ev.push("files_without_rows");
            }
        }
        let _ = before;
        let bytes = if nothing { vec![] } else if *csv { csv_of(r, &tab) } else { dc::encode(&tab) };
        let inner = if forced.is_some() { "entry".into() } else { format!("e{}", if *csv { ".csv" } else { ".dc" }) };
        let packed = if nothing && r.bool() { vec![] } else { pack(r, *f, &bytes, &inner) };
        sig += &format!("{} {:x};", name, crate::rng::fnv(&packed));
        if f.is_some() {
            ev.push("compressed_files");
        }
        let link = r.one_in(15);
        if link {
            let p = ctx.write(&format!("elsewhere{}", i), &packed);
            std::os::unix::fs::symlink(p, dir.join(name)).unwrap();
            ev.push("symlinks");
        } else {
            std::fs::write(dir.join(name), &packed).unwrap();
        }
        files.push(DirFile { name: name.clone(), table: tab, csv: *csv });
        maps.push(map);
    }
    let r = &mut ctx.rng;
    for k in 0..if r.one_in(3) { r.urange(1, 3) } else { 0 } {
        let n = *r.pick(&["0sub", "zsub", "m.csv", "a.dc", "sub.csv.gz"]);
        let p = dir.join(n);
        if !p.exists() {
            std::fs::create_dir(&p).unwrap();
            std::fs::write(p.join("in.csv"), b"other,cols\n1,2\n3,4\n").unwrap();
            if k == 1 {
                let _ = std::os::unix::fs::symlink(&p, dir.join("zlink.csv"));
            }
            ev.push("subdirectories");
        }
    }
    if files.iter().any(|f| f.csv) && files.iter().any(|f| !f.csv) {
        ev.push("mixed_formats");
    }
    if files.is_empty() {
        ev.push("empty_directories");
    }
    let fopt: Option<String> = forced.map(|(csv, f)| format!("{}{}", if csv { "csv" } else { "dc" }, if f == Some(Fmt::Zip) { "" } else { ext_of(f) }));
    let slash = r.one_in(4);
    let path = format!("{}{}", dir.to_str().unwrap(), if slash { "/" } else { "" });
    let with_cli = many || r.one_in(12);
    let want_hdr = want.hdr.clone();
    ctx.describe(format!("files {:?} format {:?} expected error {:?}: {}", files.iter().map(|f| (&f.name, f.csv, &f.table.hdr.names, f.table.rows.len())).collect::<Vec<_>>(), fopt, err, short(&want.rows)));
    ctx.shape(files.iter().filter(|f| !f.table.rows.is_empty()).count() > 1, &sig);
    let out = read_path(&path, fopt.as_deref(), &by_ts_name());
    if let End::Panic(l, m) = &out.end {
        viol!("panic at {}: {}", l, m);
    }
    match err {
        None => same(&out, &want)?,
        Some(what) => {
            ensure!(matches!(out.end, End::Err(_)), "end {:?} instead of an error ({})", out.end, what);
            if let Some(h) = &out.hdr {
                ensure!(*h == want_hdr, "{}", diff_hdr(h, &want_hdr).unwrap());
            }
            if let Some(d) = diff_rows(&out.rows, &want.rows) {
                viol!("rows before the file with an error: {}", d);
            }
        }
    }
    if with_cli && !want_hdr.names.is_empty() {
        let o = ctx.path_str("out.dc");
        let mut a: Vec<&str> = TS_ARGS.to_vec();
        a[0] = "-o";
        a.insert(1, &o);
        if let Some(f) = &fopt {
            a.push("-f");
            a.push(f);
        }
        a.push(&path);
        let c = if many {
            // more files than may be open at the same time
            ctx.count("directories_over_100_files", 1);
            cli::chop(&a, cli::In::Null, cli::Env { nofile: Some(100), ..Default::default() })?
        } else if ctx.rng.bool() {
            cli::chop_simple(&a)?
        } else {
            // relative to the directory itself
            *a.last_mut().unwrap() = ".";
            cli::chop(&a, cli::In::Null, cli::Env { cwd: Some(&dir), ..Default::default() })?
        };
        ctx.count("cli_runs", 1);
        ensure!(!c.panicked(), "panic: {}", c.brief());
        match err {
            None => {
                ensure!(c.ok(), "tool failed: {}", c.brief());
                let b = std::fs::read(&o).map_err(|e| Bad::Violation(format!("no output: {}", e)))?;
                let g = dc::decode(&b).map_err(|e| Bad::Violation(format!("output is not well-formed: {}", e)))?;
                same(&ReadOut { hdr: Some(g.hdr), rows: g.rows, end: End::Ok }, &want)?;
            }
            Some(_) => ensure!(!c.ok(), "tool succeeded instead of reporting an error ({:?})", err),
        }
    }
    ctx.count("files", files.len() as u64);
    ctx.count("rows", want.rows.len() as u64);
    for e in ev {
        ctx.count(e, 1);
    }
    if let Some(e) = err {
        ctx.count(e, 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ C17

const CSV_ARGS: [&str; 7] = ["-E", "--csv-in-has-header", "yes", "--csv-in-ts-col", "0", "--csv-in-epoch=ns", "--csv-in-delimiter=,"];

/// content that can be recognised
fn gen_known(r: &mut Rng, max: usize) -> Content {
    let c = gen_content(r, max);
    debug_assert!(!c.bytes.is_empty());
    c
}

/// text that starts almost like something that would be taken for another format
fn nearly_something(r: &mut Rng, c: &mut Content) {
    let m: &[u8] = *r.pick(&[&b"LZ4Block"[..], b"LZ4Block", b"PK\x03\x04", b"ZV\x00", b"\0\0\0\0DCAT\0\x02", b"\0\0\0\0DCAT\0\x02", b"BZh91AY"]);
    let name = match r.below(8) {
        0 => format!("x{}", if m[0] == b'Z' { "ZVx" } else { std::str::from_utf8(m).unwrap() }),
        // the order of bytes reversed
        1 if m[0] == b'L' => r.pick(&["B4ZLkcol", "B4ZLlock", "LZ4Bkcol", "kcolB4ZL"]).to_string(),
        _ => {
            let k = if r.bool() { m.len() - 1 } else { r.urange(1, m.len() - 1) };
            let next = *r.pick(&["", "x", "_", "\u{2}", "\u{7f}", "K", "l", "é", " "]);
            let next = if next.as_bytes().first() == Some(&m[k]) { "y" } else { next };
            format!("{}{}{}", std::str::from_utf8(&m[..k]).unwrap(), next, if r.bool() && !next.is_empty() { "z" } else { "" })
        }
    };
    // blanks around cells don't count
    let name = name.trim().to_string();
    let mut b = name.clone().into_bytes();
    b.extend_from_slice(&c.bytes[2..]);
    c.bytes = b;
    c.table.hdr.names[0] = name;
}

fn meaningless(r: &mut Rng) -> String {
    r.pick(&["data", "x.txt", "csv", "dc", "gz", "a.b.c", "D.CSV", "D.DC.GZ", "d.csv.bak", "d.gzip", "d.tar", "name with blanks", "d.csvx", "é.漢", "d.gz.1", "d.csv~", "d.lz4.x", "d.zst-", "lz4", "d.dc.txt", "d.zip.old", "d.lzf~"]).to_string()
}
fn misleading(r: &mut Rng) -> String {
    r.pick(&["d.dc", "d.csv", "d.csv.gz", "d.dc.lz4", "d.zst", "d.csv.zip", "d.dc.lzf", "d.gz"]).to_string()
}

fn c17(ctx: &mut Ctx) -> Res {
    match ctx.idx % 40 {
        0 | 1 => return c17_list(ctx),
        2..=5 => return c17_bad(ctx),
        6 | 7 => return c17_stdin(ctx),
        _ => {}
    }
    let r = &mut ctx.rng;
    let max = if r.one_in(10) { 2000 } else { 60 };
    let mut c = gen_known(r, max);
    let near = c.csv && r.one_in(5);
    if near {
        nearly_something(r, &mut c);
    }
    let f = if r.one_in(if near { 2 } else { 4 }) { None } else { Some(*r.pick(&FMTS)) };
    let zip = f == Some(Fmt::Zip);
    // name of an entry in a zip file: takes the place of the file name
    let way = if near && r.bool() { 3 } else { r.below(5) };
    let mut label = "";
    let (name, inner, opt): (String, String, Option<String>) = match way {
        0 => {
            label = if zip { "by_zip_entry_name" } else { "by_name" };
            let n = r.pick(&["d", "", "a.b", "x.csv", "x.dc", "x y", "d.gz", "é", "d.lz4", "d.lzf", "d.zst", "d.zip", "x.dc.gz", "x.csv.lz4", ".zst"]).to_string();
            let n = format!("{}{}", n, c.ext());
            if zip {
                (if r.bool() { format!("{}.zip", n) } else { meaningless(r) }, n, None)
            } else {
                (format!("{}{}", n, ext_of(f)), n, None)
            }
        }
        1 | 2 => {
            let ext = format!("{}{}", c.ext(), if zip { "" } else { ext_of(f) });
            let o = match r.below(4) {
                0 => ext[1..].to_string(),
                1 => ext.clone(),
                2 => format!("some.{}{}", r.pick(&["thing", "gz", "lz4", "zip", "zst", "lzf", "dc", "csv"]), ext),
                _ => ext[1..].to_string(),
            };
            let n = if r.bool() {
                label = "by_option_against_name";
                misleading(r)
            } else {
                label = "by_option";
                meaningless(r)
            };
            let inner = if r.bool() { misleading(r) } else { meaningless(r) };
            (n, inner, Some(o))
        }
        3 => {
            label = "by_content";
            (meaningless(r), meaningless(r), None)
        }
        _ => {
            label = if f.is_some() { "by_content_of_decompressed" } else { "by_content" };
            (format!("{}{}", meaningless(r), ext_of(f)), meaningless(r), None)
        }
    };
    // lzf has no bytes at all for no content; there is always some
    let packed = pack(r, f, &c.bytes, &inner);
    ctx.describe(format!("{} bytes of {} as {:?}, file {:?} entry {:?} option {:?}", c.bytes.len(), c.ext(), f, name, inner, opt));
    ctx.shape(!c.table.rows.is_empty(), &format!("{:x} {} {} {:?}", crate::rng::fnv(&packed), name, inner, opt));
    let p = ctx.write(&name, &packed);
    ctx.count(label, 1);
    same(&read_path(&p, opt.as_deref(), &c.opt()), &c.table)
}

fn c17_stdin(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let max = if r.one_in(5) { 3000 } else { 60 };
    let c = gen_known(r, max);
    let f = if r.one_in(4) { None } else { Some(*r.pick(&FMTS[..5])) };
    let packed = pack(r, f, &c.bytes, "x");
    let by_opt = r.bool();
    let how = r.below(3);
    let piece = *r.pick(&[1usize << 20, 8192, 5000, 100]);
    let ext = format!("{}{}", &c.ext()[if r.bool() { 1 } else { 0 }..], ext_of(f));
    let p = ctx.write("d", &packed);
    let o = ctx.path_str("o.dc");
    let mut a: Vec<&str> = CSV_ARGS.to_vec();
    a[0] = "-o";
    a.insert(1, &o);
    if by_opt {
        a.extend(&["-f", &ext]);
    } else if ctx.rng.one_in(4) {
        a.extend(&["-f", "auto"]);
    }
    ctx.describe(format!("{} bytes of {} as {:?} by standard input ({}), {:?}", c.bytes.len(), c.ext(), f, how, a));
    ctx.shape(!c.table.rows.is_empty(), &format!("{:x} {} {}", crate::rng::fnv(&packed), by_opt, how));
    let res = if how == 0 { cli::chop(&a, cli::In::File(Path::new(&p)), Default::default())? } else { cli::chop(&a, cli::In::Bytes(&packed, piece), Default::default())? };
    ctx.count(if by_opt { "by_stdin_option" } else { "by_stdin" }, 1);
    ensure!(res.ok(), "failed: {}", res.brief());
    let b = std::fs::read(&o).map_err(|e| Bad::Violation(format!("no output: {}", e)))?;
    let g = dc::decode(&b).map_err(|e| Bad::Violation(format!("output is not well-formed: {}", e)))?;
    same(&ReadOut { hdr: Some(g.hdr), rows: g.rows, end: End::Ok }, &c.table)
}

/// several inputs with a list of formats give the same as the same inputs with telling names
fn c17_list(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let k = r.urange(2, 6);
    // one input for each, all with one text column c0 and timestamps far apart
    let m = r.urange(1, k);
    let mut inputs: Vec<(String, String, String)> = Vec::new();
    let mut want = Vec::new();
    let mut fs: Vec<(bool, Option<Fmt>, bool)> = Vec::new();
    for i in 0..k {
        let (csv, f, auto) = if i < m { (r.bool(), if r.bool() { Some(*r.pick(&FMTS)) } else { None }, r.one_in(5)) } else { *fs.last().unwrap() };
        fs.push((csv, f, auto));
        let n = r.size(6);
        let rows: Vec<MRow> = (0..n).map(|j| {
            let ts = ((j * 10 + i) as u64 + 1) * 1_000_000;
            MRow { ts, v: vec![Val::Str(ts.to_string()), Val::Str(format!("v{}.{}", i, j))] }
        }).collect();
        let t = Table { hdr: Hdr { names: vec!["ts".into(), "c".into()], types: vec![FieldType::String; 2] }, rows: rows.clone() };
        want.extend(rows);
        let bytes = if csv { csv_of(r, &t) } else { dc::encode(&t) };
        let ext = format!("{}{}", if csv { ".csv" } else { ".dc" }, if f == Some(Fmt::Zip) { "" } else { ext_of(f) });
        let name = if auto { meaningless(r) } else { misleading(r) };
        let packed = pack(r, f, &bytes, &name);
        let name = format!("m{}/{}", i, name);
        let opt = if auto { "auto".to_string() } else { ext[r.us(2)..].to_string() };
        inputs.push((name, opt, String::new()));
        std::fs::create_dir_all(ctx.dir.join(format!("m{}", i))).unwrap();
        std::fs::write(ctx.dir.join(&inputs[i].0), packed).unwrap();
    }
    want.sort_by_key(|r| r.ts);
    let o = ctx.path_str("o.dc");
    let mut a: Vec<String> = TS_ARGS.iter().map(|s| s.to_string()).collect();
    a[0] = "-o".into();
    a.insert(1, o.clone());
    a.push("-f".into());
    a.push(inputs[..m].iter().map(|i| i.1.clone()).collect::<Vec<_>>().join(","));
    a.push("--".into());
    for i in &inputs {
        a.push(ctx.path_str(&i.0));
    }
    ctx.describe(format!("{:?}", a));
    ctx.shape(!want.is_empty(), &format!("{:?} {:?}", fs, want));
    let res = cli::chop_simple(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
    ctx.count("format_lists", 1);
    ensure!(res.ok(), "failed: {}", res.brief());
    let b = std::fs::read(&o).map_err(|e| Bad::Violation(format!("no output: {}", e)))?;
    let g = dc::decode(&b).map_err(|e| Bad::Violation(format!("output is not well-formed: {}", e)))?;
    // how columns of merged inputs are named is none of this property's business
    let got: Vec<(u64, Vec<Val>)> = g.rows.iter().map(|r| (r.ts, r.v.iter().filter(|v| **v != Val::Null).cloned().collect())).collect();
    let want: Vec<(u64, Vec<Val>)> = want.into_iter().map(|r| (r.ts, r.v)).collect();
    ensure!(got == want, "rows {} instead of {}", short(&got), short(&want));
    Ok(())
}

fn c17_bad(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let c = gen_known(r, 20);
    let (label, name, opt, bytes): (&str, String, Option<String>, Vec<u8>) = match r.below(4) {
        0 => {
            let o = r.pick(&["xyz", "csvx", "gz", "zst", ".lz4", "json", "csv.bak", "csv.gzip", "CSV", "dcc", "c", "a"]).to_string();
            let b = if o.contains("gz") && r.bool() { pack(r, Some(Fmt::Gz), &c.bytes, "d") } else { c.bytes.clone() };
            ("unknown_reported", misleading_plain(&c), Some(o), b)
        }
        1 | 2 => {
            // neither text nor anything known
            let n = r.urange(1, 8000);
            let mut b = if r.bool() { r.bytes(n) } else { c.bytes.clone() };
            b.truncate(8000);
            let at = r.us(b.len());
            b[at] = 0xff;
            if b[0] != 0xff {
                b[0] = 0xfe;
            }
            let f = if r.one_in(3) { Some(*r.pick(&FMTS[..5])) } else { None };
            let b = pack(r, f, &b, "d");
            let n = meaningless(r);
            ("unrecognisable_reported", n, None, b)
        }
        _ => {
            // a format given by the user is used, even against content
            let n = misleading_plain(&c);
            let (o, bytes) = if c.csv {
                (r.pick(&["dc", "csv.gz", "dc.zst", "csv.lz4", "csv.lzf"]).to_string(), c.bytes.clone())
            } else {
                (r.pick(&["dc.gz", "dc.zst", "dc.lz4", "dc.lzf"]).to_string(), c.bytes.clone())
            };
            ("wrong_format_reported", n, Some(o), bytes)
        }
    };
    ctx.describe(format!("{} bytes named {:?} with format {:?}: {}", bytes.len(), name, opt, label));
    ctx.shape(true, &format!("{:x} {} {:?}", crate::rng::fnv(&bytes), name, opt));
    let p = ctx.write(&name, &bytes);
    let out = read_path(&p, opt.as_deref(), &c.opt());
    match &out.end {
        End::Err(_) => {}
        End::Ok => viol!("read {} rows instead of reporting an error", out.rows.len()),
        End::Panic(l, m) => viol!("panic at {}: {}", l, m),
    }
    ensure!(out.rows.is_empty(), "{} rows before the error", out.rows.len());
    ctx.count(label, 1);
    Ok(())
}
fn misleading_plain(c: &Content) -> String {
    format!("d{}", c.ext())
}

// ------------------------------------------------------------------ C18

/// content that is exactly n bytes long
pub fn content_of_size(r: &mut Rng, n: usize) -> Content {
    if r.bool() {
        let mut c = gen_csv_content(r, 1, 5, false);
        let v = c.table.rows[0].clone();
        let line = c.bytes.split(|b| *b == b'\n').nth(1).unwrap().to_vec();
        while c.bytes.len() + line.len() + 1 <= n {
            c.bytes.extend(&line);
            c.bytes.push(b'\n');
            c.table.rows.push(v.clone());
        }
        let pad = n.saturating_sub(c.bytes.len());
        if pad > 0 && r.bool() && c.table.hdr.len() > 1 {
            // a longer last cell, without line break
            let e = c.bytes.pop();
            debug_assert!(e == Some(b'\n'));
            c.bytes.extend(vec![b'q'; pad + 1]);
            let row = c.table.rows.last_mut().unwrap();
            let last = row.v.len() - 1;
            if let Val::Str(s) = &mut row.v[last] {
                s.push_str(&"q".repeat(pad + 1));
            }
        } else {
            c.bytes.extend(vec![b'\n'; pad]);
        }
        c
    } else {
        let hdr = Hdr { names: vec!["a".into(), "b".into()], types: vec![FieldType::String, FieldType::Int] };
        let mut t = Table { hdr, rows: vec![] };
        loop {
            let len = dc::encode(&t).len();
            if len >= n {
                break;
            }
            // each row takes 8 + 1 + 4 + text + 4 bytes
            let over = {
                let mut t2 = t.clone();
                t2.rows.push(MRow { ts: 5, v: vec![Val::s(""), Val::Int(1)] });
                dc::encode(&t2).len() - len
            };
            let room = n - len;
            let text = if room < over { 0 } else if room < 2 * over + 40 { room - over } else { r.us((room - 2 * over).min(300)) };
            t.rows.push(MRow { ts: t.rows.len() as u64, v: vec![Val::Str("w".repeat(text)), Val::Int(7)] });
        }
        Content { csv: false, bytes: dc::encode(&t), table: t }
    }
}

fn gen_cut(r: &mut Rng) -> Cut {
    match r.below(6) {
        0 => Cut::Each(1),
        1 => Cut::Each(*r.pick(&[2usize, 3, 7, 13, 100, 1000, 4096, 8191, 8192, 8193])),
        2 => Cut::Random(r.next(), *r.pick(&[2usize, 10, 100, 9000, 20000])),
        3 => Cut::List(vec![*r.pick(&[1usize, 3, 4, 5, 7, 8, 9, 10, 11])]),
        4 => {
            let n = r.urange(1, 6);
            Cut::List((0..n).map(|_| *r.pick(&[1usize, 2, 8, 512, 4095, 4096, 8190, 8191, 8192, 8193, 16384])).collect())
        }
        _ => Cut::Whole,
    }
}

fn c18(ctx: &mut Ctx) -> Res {
    match ctx.idx % 16 {
        0..=4 => return c18_direct(ctx),
        5 => return c18_tool(ctx),
        _ => {}
    }
    let r = &mut ctx.rng;
    let sized = r.one_in(4);
    let mut c = if sized {
        let base = *r.pick(&[8192usize, 8192, 8192, 16384, 65536]);
        let n = base - 3 + r.us(7);
        content_of_size(r, n)
    } else {
        let max = if r.one_in(8) { 4000 } else { 100 };
        gen_content(r, max)
    };
    if sized && c.bytes.len() == 8192 {
        ctx.count("contents_of_preview_size", 1);
    }
    let r = &mut ctx.rng;
    // truncated dc data end in an error, after the same rows, however they arrive
    let mut fails = false;
    if !c.csv && r.one_in(5) {
        let b = dc::boundaries(&c.table);
        let at = r.us(c.bytes.len());
        c.bytes.truncate(at);
        fails = !b.contains(&at);
        let n = b.iter().filter(|x| **x <= at).count();
        c.table.rows.truncate(n.saturating_sub(1));
        ctx.count("truncated_inputs", 1);
    }
    let r = &mut ctx.rng;
    let f = if r.bool() || c.bytes.is_empty() { None } else { Some(*r.pick(&FMTS[..5])) };
    let packed = pack(r, f, &c.bytes, "x");
    let cut = gen_cut(r);
    let (name, opt): (String, Option<String>) = match r.below(3) {
        0 => (format!("d{}{}", c.ext(), ext_of(f)), None),
        1 if !fails && !c.bytes.is_empty() => (meaningless(r), None),
        _ => (meaningless(r), Some(format!("{}{}", c.ext(), ext_of(f)))),
    };
    ctx.describe(format!("{} bytes of {} as {:?} ({} bytes) named {:?} option {:?} cut {:?}, expected to fail: {}", c.bytes.len(), c.ext(), f, packed.len(), name, opt, cut, fails));
    ctx.shape(cut_matters(&cut, packed.len()), &format!("{:x} {:?} {} {:?}", crate::rng::fnv(&packed), cut, name, opt));
    if matches!(cut, Cut::Each(1)) {
        ctx.count("single_byte_reads", packed.len() as u64);
    }
    let log = new_log();
    let t = MemTransport::new(Rc::new(packed), cut, &log);
    let out = read_mem(&t, &name, opt.as_deref(), &c.opt());
    ctx.count("reads", log.borrow().reads);
    ctx.count("rows", c.table.rows.len() as u64);
    if !fails {
        return same(&out, &c.table);
    }
    ensure!(matches!(out.end, End::Err(_)), "end {:?} instead of an error for incomplete data", out.end);
    if let Some(d) = diff_rows(&out.rows, &c.table.rows) {
        viol!("rows before the error: {}", d);
    }
    Ok(())
}
fn cut_matters(c: &Cut, n: usize) -> bool {
    match c {
        Cut::Whole => n > 8192,
        Cut::Each(k) => *k < n,
        Cut::List(l) => l[0] < n,
        Cut::Random(..) => n > 1,
    }
}

/// the tool with a pipe or fifo that is written to in pieces
fn c18_tool(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let c = if r.one_in(3) {
        let base = *r.pick(&[8192usize, 8192, 65536]);
        let n = base - 2 + r.us(5);
        content_of_size(r, n)
    } else {
        gen_known(r, 300)
    };
    let f = if r.bool() { None } else { Some(*r.pick(&FMTS[..5])) };
    let packed = pack(r, f, &c.bytes, "x");
    let piece = *r.pick(&[1usize, 3, 100, 4096, 8191, 8192, 8193, 70000]);
    let piece = if packed.len() / piece > 3000 { 1000 } else { piece };
    let ext = format!("{}{}", c.ext(), ext_of(f));
    let o = ctx.path_str("o.dc");
    let mut a: Vec<&str> = CSV_ARGS.to_vec();
    a[0] = "-o";
    a.insert(1, &o);
    let fifo = ctx.path_str(&format!("pipe{}", ext));
    let use_fifo = ctx.rng.bool();
    ctx.describe(format!("{} bytes of {} as {:?} in pieces of {} by {}", c.bytes.len(), c.ext(), f, piece, if use_fifo { "fifo" } else { "standard input" }));
    ctx.shape(piece < packed.len(), &format!("{:x} {} {}", crate::rng::fnv(&packed), piece, use_fifo));
    let res = if use_fifo {
        let p = std::ffi::CString::new(fifo.clone()).unwrap();
        if unsafe { libc::mkfifo(p.as_ptr(), 0o600) } != 0 {
            return Err(Bad::Inconclusive("mkfifo failed".into()));
        }
        a.push(&fifo);
        ctx.count("fifo_runs", 1);
        let stop = std::sync::atomic::AtomicBool::new(false);
        std::thread::scope(|s| {
            let (stop, packed, fifo) = (&stop, &packed, &fifo);
            s.spawn(move || {
                // without blocking, so that a tool that never opens it does not keep us here
                use std::os::unix::fs::OpenOptionsExt;
                let mut w = loop {
                    match std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(fifo) {
                        Ok(w) => break w,
                        Err(_) if stop.load(std::sync::atomic::Ordering::SeqCst) => return,
                        Err(_) => std::thread::sleep(std::time::Duration::from_millis(1)),
                    }
                };
                use std::os::unix::io::AsRawFd;
                unsafe { libc::fcntl(w.as_raw_fd(), libc::F_SETFL, 0) };
                for p in packed.chunks(piece) {
                    if w.write_all(p).is_err() {
                        break;
                    }
                }
            });
            let x = cli::chop(&a, cli::In::Null, Default::default());
            stop.store(true, std::sync::atomic::Ordering::SeqCst);
            x
        })?
    } else {
        if ctx.rng.bool() {
            a.extend(&["-f", &ext]);
        }
        ctx.count("pipe_runs", 1);
        cli::chop(&a, cli::In::Bytes(&packed, piece), Default::default())?
    };
    ensure!(res.ok(), "failed: {}", res.brief());
    let b = std::fs::read(&o).map_err(|e| Bad::Violation(format!("no output: {}", e)))?;
    let g = dc::decode(&b).map_err(|e| Bad::Violation(format!("output is not well-formed: {}", e)))?;
    ctx.count("rows", g.rows.len() as u64);
    same(&ReadOut { hdr: Some(g.hdr), rows: g.rows, end: End::Ok }, &c.table)
}

/// the complete lines in the preview of documented size, if they are text
fn model_lines(head: &[u8], full: bool) -> Option<Vec<String>> {
    let mut v = Vec::new();
    let mut rest = head;
    while !rest.is_empty() {
        let (line, next, ended) = match rest.iter().position(|b| *b == b'\n') {
            Some(i) => (&rest[..i], &rest[i + 1..], true),
            None => (rest, &rest[rest.len()..], false),
        };
        if !ended && full {
            break;
        }
        let line = if line.last() == Some(&b'\r') { &line[..line.len() - 1] } else { line };
        v.push(String::from_utf8(line.to_vec()).ok()?);
        rest = next;
    }
    Some(v)
}

fn c18_direct(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let n = match r.below(8) {
        0 => 0,
        1 => r.us(20),
        2 | 3 => 8192 - 3 + r.us(7),
        4 => *r.pick(&[4095usize, 4096, 16383, 16384, 16385, 24576]),
        _ => r.size(40_000),
    };
    let style = r.below(4);
    let data: Vec<u8> = match style {
        0 => r.bytes(n),
        1 => (0..n).map(|i| (i % 251) as u8).collect(),
        _ => {
            let mut s = Vec::new();
            while s.len() < n {
                let k = if r.one_in(30) { r.us(9000) } else { r.us(80) };
                s.extend(vec![*r.pick(b"abc,0 "); k]);
                if r.one_in(5) {
                    s.extend("é漢🦀".as_bytes());
                }
                if style == 3 && r.one_in(100) {
                    s.push(*r.pick(&[0xffu8, 0xc3, 0x80]));
                }
                s.extend(*r.pick(&[&b"\n"[..], &b"\r\n"[..], &b"\r"[..], &b"\n\n"[..]]));
            }
            s.truncate(n);
            s
        }
    };
    let cut = gen_cut(r);
    let log = new_log();
    let rc = Rc::new(data.clone());
    let inner = CutReader::new(&rc, cut.clone(), &log);
    let with_preview = r.one_in(4) == false;
    let cap = if r.bool() { r.urange(1, 64) } else { *r.pick(&[8192usize, 1000, 8191, 8193]) };
    ctx.describe(format!("{} bytes of style {} cut {:?} {}", n, style, cut, if with_preview { "with preview".into() } else { format!("capacity {}", cap) }));
    ctx.shape(n > 0, &format!("{:x} {:?} {} {}", crate::rng::fnv(&data), cut, with_preview, cap));
    let mut rd: ChopperBufReader<Box<dyn Read>> = if with_preview {
        let p = ChopperBufPreviewer::new(Box::new(inner) as Box<dyn Read>).map_err(|e| Bad::Violation(format!("preview failed: {}", e)))?;
        let k = n.min(8192);
        ensure!(p.get_buf().as_ref() == &data[..k], "preview has {} bytes, expected the first {} of {}", p.get_buf().len(), k, n);
        let want = model_lines(&data[..k], n >= 8192);
        ensure!(*p.get_lines() == want, "preview lines {}, expected {}", short(p.get_lines()), short(&want));
        ctx.count("previews", 1);
        p.get_reader()
    } else {
        ChopperBufReader::with_capacity(cap, Box::new(inner) as Box<dyn Read>)
    };
    let r = &mut ctx.rng;
    let mut got: Vec<u8> = Vec::new();
    let mut calls = 0u64;
    let style = r.below(4);
    let fail = |e: std::io::Error| Bad::Violation(format!("read failed: {}", e));
    loop {
        calls += 1;
        if calls > 200_000 {
            viol!("reader does not come to an end");
        }
        match if style == 3 { r.below(4) } else { style } {
            0 => {
                let k = match r.below(4) {
                    0 => 1,
                    1 => r.urange(1, 100),
                    2 => *r.pick(&[8191usize, 8192, 8193]),
                    _ => r.urange(1, 20_000),
                };
                let mut b = vec![0u8; k];
                let x = rd.read(&mut b).map_err(fail)?;
                ensure!(x <= k, "read returned {} for a buffer of {}", x, k);
                if x == 0 {
                    break;
                }
                got.extend(&b[..x]);
            }
            1 => {
                let b = rd.fill_buf().map_err(fail)?;
                if b.is_empty() {
                    break;
                }
                let k = r.us(b.len() + 1);
                got.extend(&b[..k]);
                rd.consume(k);
            }
            _ => {
                let x = rd.read_until(b'\n', &mut got).map_err(fail)?;
                if x == 0 {
                    break;
                }
            }
        }
    }
    ctx.count("buffered_calls", calls);
    ctx.count("bytes_compared", n as u64);
    ctx.count("reads", log.borrow().reads);
    if got != data {
        let at = got.iter().zip(&data).position(|(a, b)| a != b).unwrap_or(got.len().min(n));
        viol!("{} bytes came out of {}, first difference at {}", got.len(), n, at);
    }
    Ok(())
}

// ------------------------------------------------------------------ C27

/// what an added factory accepts
#[derive(Clone, Debug)]
struct Accept {
    ext: Option<String>,
    magic: Option<Vec<u8>>,
}
#[derive(Clone)]
struct OwnFactory {
    id: usize,
    accept: Accept,
    log: Rc<RefCell<OwnLog>>,
}
#[derive(Default)]
struct OwnLog {
    formats: Vec<(usize, String)>,
    previews: Vec<(usize, Vec<u8>)>,
    got: Vec<(usize, Vec<u8>)>,
}
struct OwnSource {
    header: Header,
    rows: std::vec::IntoIter<Row>,
}
impl Source for OwnSource {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        Ok(self.rows.next())
    }
}
/// meaning of content in the own format: lines of a timestamp each, others are skipped
fn own_rows(id: usize, b: &[u8]) -> Vec<MRow> {
    String::from_utf8_lossy(b).split('\n').filter_map(|l| l.parse::<u64>().ok()).map(|ts| MRow { ts, v: vec![Val::Str(format!("own{} {}", id, ts))] }).collect()
}
fn own_hdr(id: usize) -> Hdr {
    Hdr { names: vec![format!("own{}", id)], types: vec![FieldType::String] }
}
impl SourceFactory for OwnFactory {
    fn can_create_from_format(&self, format: &String) -> bool {
        self.log.borrow_mut().formats.push((self.id, format.clone()));
        self.accept.ext.as_ref().map(|e| format.ends_with(e.as_str())).unwrap_or(false)
    }
    fn can_create_from_previewer(&self, p: &ChopperBufPreviewer<Box<dyn Read>>) -> bool {
        self.log.borrow_mut().previews.push((self.id, p.get_buf().to_vec()));
        self.accept.magic.as_ref().map(|m| p.get_buf().starts_with(m)).unwrap_or(false)
    }
    fn create_source(&mut self, p: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Box<dyn Source>> {
        let mut b = Vec::new();
        p.get_reader().read_to_end(&mut b)?;
        let rows: Vec<Row> = own_rows(self.id, &b).iter().map(|r| r.to()).collect();
        self.log.borrow_mut().got.push((self.id, b));
        Ok(Box::new(OwnSource { header: own_hdr(self.id).to(), rows: rows.into_iter() }))
    }
    fn box_clone(&self) -> Box<dyn SourceFactory> {
        Box::new(self.clone())
    }
}

/// opens <prefix>/<absolute path of a file>
#[derive(Clone)]
struct FileVia {
    prefix: String,
    opened: Rc<RefCell<Vec<String>>>,
}
impl StreamingTransport for FileVia {
    fn can_open(&self, path: &Path) -> bool {
        path.to_str().map(|p| p.starts_with(&self.prefix)).unwrap_or(false)
    }
    fn open(&self, path: &Path) -> std::io::Result<Box<dyn Read>> {
        let p = path.to_str().unwrap();
        self.opened.borrow_mut().push(p.to_string());
        // one for "/" takes what the built-in one would take, too
        let at = if self.prefix == "/" { 0 } else { self.prefix.len() };
        Ok(Box::new(std::fs::File::open(&p[at..])?))
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "via"
    }
}

const MAGICS: [&[u8]; 4] = [b"#own\n", b"\x01\x02OWN\n", b"@@\n", DC_MAGIC];
const DC_MAGIC: &[u8] = &[0, 0, 0, 0, 0x44, 0x43, 0x41, 0x54];
const OWN_EXTS: [&str; 4] = [".own", ".o2", ".csv", ".dc"];

fn gen_own(r: &mut Rng, magic: Option<&[u8]>) -> Vec<u8> {
    let mut b = magic.map(|m| m.to_vec()).unwrap_or_default();
    let n = if r.one_in(10) { r.us(3000) } else { r.size(30) };
    let mut t = r.below(1 << 40);
    for _ in 0..n {
        t += r.below(100);
        b.extend(format!("{}\n", t).as_bytes());
    }
    b
}

fn c27(ctx: &mut Ctx) -> Res {
    match ctx.idx % 20 {
        0 => return c27_embed(ctx),
        1..=3 => return c27_merge(ctx),
        4 | 5 => return c27_dir(ctx),
        6 => return c27_unknown(ctx),
        _ => {}
    }
    let log = Rc::new(RefCell::new(OwnLog::default()));
    let r = &mut ctx.rng;
    let nf = r.us(5);
    let mut accepts: Vec<Accept> = Vec::new();
    for k in 0..nf {
        accepts.push(Accept {
            ext: if r.bool() { Some(OWN_EXTS[(k + r.us(4)) % 4].to_string()) } else { None },
            magic: if r.bool() { Some(MAGICS[(k + r.us(4)) % 4].to_vec()) } else { None },
        });
    }
    // content that a factory may take, or usual one
    let own = nf > 0 && r.one_in(3) == false;
    let f = if r.bool() { None } else { Some(*r.pick(&FMTS[..5])) };
    let content = if own { Content { csv: false, bytes: vec![], table: Table::default() } } else { gen_known(r, 40) };
    let bytes = if own {
        let m = if r.one_in(4) { None } else { Some(*r.pick(&MAGICS)) };
        let mut b = gen_own(r, m);
        if b.is_empty() {
            b = b"#own\n".to_vec();
        }
        b
    } else {
        content.bytes.clone()
    };
    let base = if own {
        match r.below(3) {
            0 => "d.own".to_string(),
            1 => "d.o2".to_string(),
            _ => meaningless(r),
        }
    } else if r.bool() {
        format!("d{}", content.ext())
    } else {
        meaningless(r)
    };
    let by_opt = r.one_in(4) && base.starts_with("d.") && (base.ends_with(".own") || base.ends_with(".o2") || base.ends_with(".csv") || base.ends_with(".dc"));
    let mut name = format!("{}{}", base, if r.bool() || by_opt || base.starts_with("d.") { ext_of(f) } else { "" });
    let opt = if by_opt { Some(name["d.".len() - r.us(2)..].to_string()) } else { None };
    if by_opt {
        name = meaningless(r);
    }
    let packed = pack(r, f, &bytes, "x");
    // model of the documented choice
    let shown = if by_opt { base.clone() } else { let n = name.clone(); if f.is_some() && n.ends_with(ext_of(f)) { n[..n.len() - ext_of(f).len()].to_string() } else { n } };
    let ext_takers: Vec<usize> = (0..nf).filter(|k| accepts[*k].ext.as_ref().map(|e| shown.ends_with(e.as_str())).unwrap_or(false)).collect();
    let magic_takers: Vec<usize> = (0..nf).filter(|k| accepts[*k].magic.as_ref().map(|m| bytes.starts_with(m)).unwrap_or(false)).collect();
    let builtin_ext = shown.ends_with(".csv") || shown.ends_with(".dc");
    // both a built-in one by name and an added one by content: not defined here
    if ext_takers.is_empty() && builtin_ext && !magic_takers.is_empty() {
        return Ok(());
    }
    let takers = if !ext_takers.is_empty() {
        ext_takers.clone()
    } else if by_opt {
        vec![]
    } else {
        magic_takers.clone()
    };
    let via = r.below(4);
    ctx.describe(format!("factories {:?}, file {:?} option {:?} compressed {:?}, {} bytes starting with {:?}, opened {}, may be taken by {:?}", accepts, name, opt, f, bytes.len(), String::from_utf8_lossy(&bytes[..bytes.len().min(12)]), ["as file", "by own transport", "by own transport with another one", "by own transport that takes any file"][via as usize], takers));
    ctx.shape(true, &format!("{:?} {} {:?} {:x} {}", accepts, name, opt, crate::rng::fnv(&packed), via));
    let factories: Vec<Box<dyn SourceFactory>> = accepts.iter().enumerate().map(|(id, a)| Box::new(OwnFactory { id, accept: a.clone(), log: log.clone() }) as Box<dyn SourceFactory>).collect();
    let opened = Rc::new(RefCell::new(Vec::new()));
    let other = Rc::new(RefCell::new(Vec::new()));
    let path = ctx.write(&name, &packed);
    let mut ts: Vec<Box<dyn StreamingTransport>> = vec![];
    let path = if via == 0 {
        path
    } else {
        if via == 2 && ctx.rng.bool() {
            ts.push(Box::new(FileVia { prefix: "other:".into(), opened: other.clone() }));
        }
        ts.push(Box::new(FileVia { prefix: if via == 3 { "/" } else { "via:" }.into(), opened: opened.clone() }));
        if via == 2 && ts.len() == 1 {
            // one that is not meant, or would be too late
            ts.push(Box::new(FileVia { prefix: if ctx.rng.bool() { "other:" } else { "via:" }.into(), opened: other.clone() }));
        }
        if via == 3 {
            ctx.count("own_transport_over_builtin", 1);
            path
        } else {
            format!("via:{}", path)
        }
    };
    let out = read_with(|| {
        let mut fac = factory(&content.opt(), if nf == 0 && ctx.idx % 2 == 0 { None } else { Some(factories) }, if via == 0 && ctx.idx % 3 == 0 { None } else { Some(ts) })?;
        fac.create_source_from_input(&input(&path, opt.as_deref()))
    });
    let l = log.borrow();
    for (k, p) in &l.previews {
        ensure!(bytes.starts_with(p) && (!p.is_empty() || bytes.is_empty()), "factory {} was shown {} bytes that are not the start of the decompressed content", k, p.len());
    }
    if via > 0 {
        ensure!(*opened.borrow() == vec![path.clone()], "added transport opened {:?}", opened.borrow());
        ensure!(other.borrow().is_empty(), "transport opened a path that it does not recognise: {:?}", other.borrow());
        ctx.count("own_transport_opens", 1);
    }
    if takers.is_empty() {
        ensure!(l.got.is_empty(), "factory {:?} got an input that it declined", l.got.iter().map(|g| g.0).collect::<Vec<_>>());
        if nf > 0 {
            ctx.count("declined", 1);
        }
        if own {
            // the same as if nothing had been added
            let plain = if via == 0 || via == 3 { path.clone() } else { path["via:".len()..].to_string() };
            let want = read_path(&plain, opt.as_deref(), &content.opt());
            ensure!(out.rows == want.rows && out.hdr == want.hdr && (out.end == End::Ok) == (want.end == End::Ok), "result {} differs from that without added factories {}", short(&out), short(&want));
            return Ok(());
        }
        ctx.count("rows", content.table.rows.len() as u64);
        return same(&out, &content.table);
    }
    ensure!(l.got.len() == 1, "{} factories got the input, end {:?}", l.got.len(), out.end);
    let (k, b) = &l.got[0];
    ensure!(*k == takers[0], "factory {} got the input, {:?} would take it", k, takers);
    if takers.len() > 1 {
        ctx.count("several_would_take_it", 1);
    }
    ensure!(*b == bytes, "factory got {} bytes, which are not the {} bytes of content from its start", b.len(), bytes.len());
    ctx.count(if ext_takers.is_empty() { "own_factory_by_content" } else { "own_factory_by_name" }, 1);
    if builtin_ext || !own {
        ctx.count("own_factory_over_builtin", 1);
    }
    ctx.count("rows", own_rows(*k, &bytes).len() as u64);
    let want = Table { hdr: own_hdr(*k), rows: own_rows(*k, &bytes) };
    same(&out, &want)
}

/// inputs by added transports and factories next to files, merged under a time range
fn c27_merge(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let k = r.urange(1, 4);
    let log = Rc::new(RefCell::new(OwnLog::default()));
    let opened = Rc::new(RefCell::new(Vec::new()));
    let mut paths = Vec::new();
    let mut tables: Vec<Table> = Vec::new();
    let mut vias = 0;
    for i in 0..k {
        let r = &mut ctx.rng;
        let f = if r.bool() { None } else { Some(*r.pick(&FMTS[..5])) };
        let own = r.bool();
        let step = r.range(1, 30);
        let n = r.us(60);
        let ts: Vec<u64> = (0..n as u64).map(|j| 1000 + j * step / 2).collect();
        let (bytes, t, ext) = if own {
            let mut b = b"#own\n".to_vec();
            for t in &ts {
                b.extend(format!("{}\n", t).as_bytes());
            }
            let rows = own_rows(0, &b);
            (b, Table { hdr: own_hdr(0), rows }, if r.bool() { ".own" } else { "" })
        } else {
            let t = Table { hdr: Hdr { names: own_hdr(0).names, types: vec![FieldType::String] }, rows: ts.iter().enumerate().map(|(j, t)| MRow { ts: *t, v: vec![Val::Str(format!("{}.{}", i, j))] }).collect() };
            (dc::encode(&t), t, ".dc")
        };
        let packed = pack(r, f, &bytes, "x");
        let p = ctx.write(&format!("in{}{}{}", i, ext, ext_of(f)), &packed);
        let via = ctx.rng.bool();
        vias += via as usize;
        paths.push(if via { format!("via:{}", p) } else { p });
        tables.push(t);
    }
    let r = &mut ctx.rng;
    let begin = if r.bool() { Some(1000 + r.below(400)) } else { None };
    let end = if r.bool() { Some(1000 + r.below(800)) } else { None };
    let mut want: Vec<(u64, usize, usize)> = Vec::new();
    for (i, t) in tables.iter().enumerate() {
        for (j, row) in t.rows.iter().enumerate() {
            if begin.map(|b| row.ts >= b).unwrap_or(true) && end.map(|e| row.ts < e).unwrap_or(true) {
                want.push((row.ts, i, j));
            }
        }
    }
    want.sort();
    ctx.describe(format!("{:?} range {:?} {:?}: {} rows expected", paths, begin, end, want.len()));
    ctx.shape(true, &format!("{:?} {:?} {:?} {:?}", paths, begin, end, want));
    let plog = new_log();
    let r = catch(|| -> Result<(), String> {
        let e = |e: chopper::error::Error| e.to_string();
        let factories: Vec<Box<dyn SourceFactory>> = vec![Box::new(OwnFactory { id: 0, accept: Accept { ext: Some(".own".into()), magic: Some(b"#own\n".to_vec()) }, log: log.clone() })];
        let ts: Vec<Box<dyn StreamingTransport>> = vec![Box::new(FileVia { prefix: "via:".into(), opened: opened.clone() })];
        let mut fac = factory(&by_ts_name(), Some(factories), Some(ts)).map_err(e)?;
        let mut sources = Vec::new();
        for p in &paths {
            sources.push(fac.create_source_from_input(&input(p, None)).map_err(e)?);
        }
        let headers: Vec<Header> = sources.iter().map(|s| s.header().clone()).collect();
        let mut d = Driver::new(sources, merge_graph(k, Probe::new(100, Act::Pass, &plog)), TimestampRange { begin, end }, headers).map_err(e)?;
        ChopperDriver::drive(&mut d).map_err(e)
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => viol!("failed: {}", e),
        Err((l, m)) => viol!("panic at {}: {}", l, m),
    }
    ctx.count("merges", (k > 1) as u64);
    ctx.count("ranges", (begin.is_some() || end.is_some()) as u64);
    ctx.count("own_transport_opens", vias as u64);
    ctx.count("rows", want.len() as u64);
    ensure!(opened.borrow().len() == vias, "added transport opened {:?}", opened.borrow());
    let got: Vec<(u64, Vec<Val>)> = rows_of(&plog, 100).into_iter().map(|r| (r.ts, r.v.into_iter().filter(|v| *v != Val::Null).collect())).collect();
    let want: Vec<(u64, Vec<Val>)> = want.iter().map(|(t, i, j)| (*t, tables[*i].rows[*j].v.clone())).collect();
    ensure!(got.len() == want.len(), "{} rows instead of {}", got.len(), want.len());
    // equal times of several inputs come in no order that counts here
    let sorted = |v: &[(u64, Vec<Val>)]| {
        let mut s: Vec<String> = v.iter().map(|x| format!("{:020} {:?}", x.0, x.1)).collect();
        s.sort();
        s
    };
    ensure!(got.windows(2).all(|w| w[0].0 <= w[1].0), "rows are not in order of time");
    ensure!(sorted(&got) == sorted(&want), "rows {} instead of {}", short(&got), short(&want));
    Ok(())
}

/// a directory with files in an added format
fn c27_dir(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let log = Rc::new(RefCell::new(OwnLog::default()));
    let k = r.urange(1, 5);
    let mut want = Table { hdr: own_hdr(0), rows: vec![] };
    let mut all = Vec::new();
    for i in 0..k {
        let r = &mut ctx.rng;
        let f = if r.bool() { None } else { Some(*r.pick(&FMTS)) };
        let bytes = gen_own(r, Some(b"#own\n"));
        let dc = r.one_in(4);
        let (bytes, ext) = if dc {
            let t = Table { hdr: own_hdr(0), rows: own_rows(9, &bytes) };
            want.rows.extend(t.rows.iter().cloned());
            (dc::encode(&t), ".dc")
        } else {
            want.rows.extend(own_rows(0, &bytes));
            all.push(bytes.clone());
            (bytes, if r.bool() { ".own" } else { "" })
        };
        let packed = pack(r, f, &bytes, &format!("e{}", ext));
        ctx.write(&format!("d/{}{}{}", i, ext, ext_of(f)), &packed);
    }
    let p = ctx.path_str("d");
    ctx.describe(format!("directory with {} files, {} rows", k, want.rows.len()));
    ctx.shape(true, &format!("{} {:?}", k, want.rows));
    let factories: Vec<Box<dyn SourceFactory>> = vec![Box::new(OwnFactory { id: 0, accept: Accept { ext: Some(".own".into()), magic: Some(b"#own\n".to_vec()) }, log: log.clone() })];
    let out = read_with(|| factory(&by_ts_name(), Some(factories), None)?.create_source_from_input(&input(&p, None)));
    same(&out, &want)?;
    let got: Vec<Vec<u8>> = log.borrow().got.iter().map(|g| g.1.clone()).collect();
    ensure!(got == all, "contents that the factory got are not those of the files");
    ctx.count("directories", 1);
    ctx.count("rows", want.rows.len() as u64);
    Ok(())
}

fn c27_unknown(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let opened = Rc::new(RefCell::new(Vec::new()));
    let p = match r.below(4) {
        0 => ctx.path_str("missing.csv"),
        1 => "vi:/x.csv".to_string(),
        2 => format!("other:{}", ctx.path_str("there.csv")),
        _ => format!("Via:{}", ctx.path_str("there.csv")),
    };
    ctx.write("there.csv", b"ts,v\n1,2\n");
    let added = ctx.rng.bool();
    ctx.describe(format!("path {:?} that nothing recognises, transport added: {}", p, added));
    ctx.shape(true, &format!("{} {} {}", p, added, ctx.idx));
    let ts: Vec<Box<dyn StreamingTransport>> = if added { vec![Box::new(FileVia { prefix: "via:".into(), opened: opened.clone() })] } else { vec![] };
    let out = read_with(|| factory(&by_ts_name(), None, Some(ts))?.create_source_from_input(&input(&p, None)));
    ensure!(matches!(out.end, End::Err(_)), "end {:?} for a path that nothing recognises", out.end);
    ensure!(opened.borrow().is_empty(), "opened {:?}", opened.borrow());
    ctx.count("unrecognised_paths", 1);
    Ok(())
}

fn c27_embed(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let f = if r.bool() { None } else { Some(*r.pick(&FMTS[..5])) };
    let bytes = gen_own(r, Some(b"#own\n"));
    let ts: Vec<u64> = own_rows(0, &bytes).iter().map(|r| r.ts).collect();
    let packed = pack(r, f, &bytes, "x");
    let way = r.below(4);
    let ext = if way == 3 { "" } else { ".own" };
    let p = ctx.write(&format!("in{}{}", ext, ext_of(f)), &packed);
    let via = format!("mem:/{}", p);
    let o = ctx.path_str("o.dc");
    let fopt = format!("own{}", ext_of(f));
    let (a, stdin): (Vec<&str>, cli::In) = match way {
        0 => (vec!["-o", &o, &p], cli::In::Null),
        1 | 3 => (vec!["-o", &o, &via], cli::In::Null),
        _ => (if ctx.rng.bool() { vec!["-o", &o, "-f", &fopt] } else { vec!["-o", &o] }, cli::In::File(Path::new(&p))),
    };
    ctx.describe(format!("embedding program with {:?}, compressed {:?}, {} rows", a, f, ts.len()));
    ctx.shape(true, &format!("{} {:x}", way, crate::rng::fnv(&packed)));
    let res = cli::exec(&cli::bin("embed"), &a, stdin, Default::default())?;
    ensure!(res.ok(), "failed: {}", res.brief());
    let b = std::fs::read(&o).map_err(|e| Bad::Violation(format!("no output: {}", e)))?;
    let g = dc::decode(&b).map_err(|e| Bad::Violation(format!("output is not well-formed: {}", e)))?;
    let want = Table { hdr: Hdr { names: vec!["own".into()], types: vec![FieldType::String] }, rows: ts.iter().map(|t| MRow { ts: *t, v: vec![Val::Str(format!("own{}", t))] }).collect() };
    ctx.count("embed_runs", 1);
    ctx.count("rows", ts.len() as u64);
    same(&ReadOut { hdr: Some(g.hdr), rows: g.rows, end: End::Ok }, &want)
}

#[allow(dead_code)]
fn unused(_: FieldValue) {}
