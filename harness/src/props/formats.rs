//! C06 dc round trip, C07 dc layout, C08 compression, C09 truncation and corruption
use super::driver::merge_graph;
use crate::cli;
use crate::comp::{self, Enc, Fmt, FMTS};
use crate::dc::{self, Style};
use crate::model::*;
use crate::probes::*;
use crate::rng::Rng;
use crate::run::{Bad, Ctx, Prop, Res, Tier};
use crate::{ensure, viol};
use chopper::chopper::chopper::{ChopperDriver, Source};
use chopper::chopper::types::{FieldType, Header, TimestampRange};
use chopper::driver::driver::Driver;
use chopper::write::factory;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            level: "exploration",
            rule: "a case is a random table (0 to 2000 columns with mass around multiples of 8, and a few of 70,000, all supported types, bit patterns of numbers, every null pattern style, strings up to 1 MB, and a few of 16 MB, with mass around 32767 and 65535) that is written as dc by the library or copied dc to dc by the command line tool, and read back by the library. nontrivial: at least one row; distinct by table shape and content",
            assumptions: &["column names are not empty (an empty name means unnamed in dc)"],
            cases: (20_000, 400_000),
            budget: (30, 420),
            run: c06,
            must_observe: &["tables_written_by_library", "tables_copied_by_tool", "nulls", "strings_over_32767", "strings_over_1mb", "tables_over_4000_columns", "tables_with_columns_not_multiple_of_8", "cases_over_65000_rows"],
        },
        Prop {
            id: "C07",
            level: "exploration",
            rule: "writing: a random table written by the library or the tool has to be byte for byte what the harness' own encoder makes of it; reading: the own encoder's output in any style (user header data, display hints, unnamed columns, long length form), and dcgen's, has to be read as the table. nontrivial: at least one row; distinct by table shape, content and style",
            assumptions: &["the harness' encoder, written from the format description, is right"],
            cases: (20_000, 400_000),
            budget: (30, 420),
            run: c07,
            must_observe: &["bytes_compared", "styled_files_read", "user_headers", "unnamed_columns", "long_form_strings", "strings_over_1mb", "tables_over_4000_columns", "dcgen_files", "cases_over_65000_rows"],
        },
        Prop {
            id: "C08",
            level: "exploration",
            rule: "a case is csv or dc content (0 bytes to several MB) encoded by one of the harness' encoders or the zstd tool with random parameters (levels, block sizes, checksums, members or frames, zip methods, zip64, data descriptors, extra fields, comments), read by library or tool, and compared with the rows of the plain content; zip archives with several entries or none, spanned, encrypted or unknown ones have to be rejected. nontrivial: at least one row; distinct by encoding and content",
            assumptions: &["encoders of flate2, bzip2 and the zstd tool and the harness' own are right"],
            cases: (6_000, 120_000),
            budget: (30, 420),
            run: c08,
            must_observe: &["odd_entry_names", "enc_Gz", "enc_Lz4", "enc_Lz4Block", "enc_Lzf", "enc_Zst", "enc_Zip", "empty_contents", "multi_part_files", "rows_compared", "cli_runs", "contents_over_1mb", "unusable_archives_rejected", "files_of_over_60000_empty_parts"],
        },
        Prop {
            id: "C09",
            level: "fault_enumeration",
            rule: "a case is an encoded csv or dc content that is cut at every length (small ones) or at sampled lengths, and damaged in sampled bytes of data and checksums; every damaged input is read by the library, some by the tool. The run has to fail after a prefix of the rows (cuts), or to fail unless the rows are all the same (damage). nontrivial: all; distinct by encoding and content",
            assumptions: &["cuts that leave a complete sequence of members, frames or chunks are not cuts in the middle"],
            cases: (1_600, 30_000),
            budget: (40, 600),
            run: c09,
            must_observe: &["cuts", "cuts_reported", "damages", "damages_reported", "checksum_damages", "cli_runs", "cuts_of_plain_dc"],
        },
    ]
}

pub fn gen_table(r: &mut Rng, maxcols: usize) -> Table {
    gen_table_of(r, maxcols, None)
}

/// a few tables have a string of over 20 or 24 bits' length
fn put_huge_string(ctx: &mut Ctx, t: &mut Table) {
    let len = match ctx.idx % 1500 {
        100 | 101 => (1 << 20) + ctx.rng.us(5000) - 2,
        200 | 201 if ctx.idx < 5000 => (1 << 24) + ctx.rng.us(5000) - 2,
        _ => return,
    };
    let r = &mut ctx.rng;
    if t.hdr.len() == 0 {
        return;
    }
    let c = r.us(t.hdr.len());
    t.hdr.types[c] = FieldType::String;
    if t.rows.is_empty() {
        t.rows = gen_rows(r, &t.hdr, 2, 5);
    }
    for row in &mut t.rows {
        if !matches!(row.v[c], Val::Null | Val::Str(_)) {
            row.v[c] = Val::Null;
        }
    }
    let i = r.us(t.rows.len());
    t.rows[i].v[c] = Val::Str(long_text(r, len));
    ctx.count("strings_over_1mb", 1);
}

/// and a few have very many columns
pub fn widths(ctx: &mut Ctx) -> Option<usize> {
    let n = match ctx.idx % 1500 {
        300 | 301 => ctx.rng.urange(4_090, 9_000),
        400 | 401 if ctx.idx < 5000 => 65_530 + ctx.rng.us(5_000),
        _ => return None,
    };
    ctx.count("tables_over_4000_columns", 1);
    Some(n)
}

fn wide_table(r: &mut Rng, cols: usize) -> Table {
    let hdr = gen_hdr(r, cols);
    let n = r.urange(1, 3);
    let rows = gen_rows(r, &hdr, n, 4);
    Table { hdr, rows }
}

fn gen_table_of(r: &mut Rng, maxcols: usize, long: Option<usize>) -> Table {
    let cols = if long.is_some() { *r.pick(&[1usize, 2, 7, 8, 9]) } else if r.one_in(150) { r.urange(500, 2000).min(maxcols) } else { gen_cols(r, 300).min(maxcols) };
    let mut hdr = gen_hdr(r, cols);
    if r.one_in(5) {
        for i in 0..cols {
            if r.bool() {
                hdr.names[i] = format!("col_{}", i);
            }
        }
    }
    let n = if let Some(n) = long { n } else if cols > 100 { r.size(6) } else if r.one_in(100) { r.us(2000) } else { r.size(30) };
    let maxs = if long.is_some() { 3 } else { *r.pick(&[0usize, 3, 20, 20, 200]) };
    let mut rows = gen_rows(r, &hdr, n, maxs);
    // long strings at the sizes where the length form changes
    if n > 0 && r.one_in(6) {
        let sc: Vec<usize> = (0..cols).filter(|c| hdr.types[*c] == FieldType::String).collect();
        if !sc.is_empty() {
            for _ in 0..r.urange(1, 3) {
                let len = match r.below(10) {
                    0 => *r.pick(&[8191usize, 8192, 8193, 16384]),
                    1 if r.one_in(6) => r.us(1 << 20),
                    1..=4 => *r.pick(&[32766usize, 32767, 32768, 32769]),
                    5 | 6 => *r.pick(&[65534usize, 65535, 65536, 65537]),
                    _ => r.us(70_000),
                };
                let s = long_text(r, len);
                let (i, c) = (r.us(n), *r.pick(&sc));
                rows[i].v[c] = Val::Str(s);
            }
        }
    }
    Table { hdr, rows }
}

/// exactly len bytes
fn long_text(r: &mut Rng, len: usize) -> String {
    let unit = *r.pick(&["a", "xyz,", "é", "漢", "🦀"]);
    let mut s = String::with_capacity(len);
    while s.len() + unit.len() <= len {
        s.push_str(unit);
    }
    while s.len() < len {
        s.push('.');
    }
    s
}

pub fn table_sig(t: &Table) -> String {
    let mut h = 0u64;
    for r in t.rows.iter().take(50) {
        h = h.wrapping_mul(31).wrapping_add(crate::rng::fnv(short(&r.v).as_bytes())).wrapping_add(r.ts);
    }
    format!("{} {:x}", table_shape(t), h)
}

fn count_table(ctx: &mut Ctx, t: &Table) {
    let mut nulls = 0;
    let mut long = 0;
    for r in &t.rows {
        for v in &r.v {
            match v {
                Val::Null => nulls += 1,
                Val::Str(s) if s.len() > 32767 => long += 1,
                _ => {}
            }
        }
    }
    ctx.count("nulls", nulls);
    ctx.count("strings_over_32767", long);
    ctx.count("rows", t.rows.len() as u64);
    ctx.max("columns", t.hdr.len() as u64);
    if t.hdr.len() % 8 != 0 {
        ctx.count("tables_with_columns_not_multiple_of_8", 1);
    }
}

/// writes a table through driver and sink of the library
pub fn lib_write(t: &Table, path: &str) -> Result<(), String> {
    let log = new_log();
    let src: Box<dyn Source> = Box::new(MemSource::new(0, &t.hdr, t.rows.clone(), &log));
    let headers: Vec<Header> = vec![src.header().clone()];
    let sink = factory::new_header_sink(Some(path), None).map_err(|e| e.to_string())?;
    let mut d = Driver::new(vec![src], merge_graph(1, sink), TimestampRange { begin: None, end: None }, headers).map_err(|e| e.to_string())?;
    ChopperDriver::drive(&mut d).map_err(|e| e.to_string())
}

pub fn same(out: &ReadOut, t: &Table) -> Res {
    if out.end != End::Ok {
        viol!("reading ended with {:?} after {} of {} rows", out.end, out.rows.len(), t.rows.len());
    }
    if let Some(d) = diff_hdr(out.hdr.as_ref().unwrap(), &t.hdr) {
        viol!("{}", d);
    }
    if let Some(d) = diff_rows(&out.rows, &t.rows) {
        viol!("{}", d);
    }
    Ok(())
}

fn c06(ctx: &mut Ctx) -> Res {
    let long = ctx.long(1501);
    let mut t = gen_table_of(&mut ctx.rng, 2000, long);
    put_huge_string(ctx, &mut t);
    if let Some(n) = widths(ctx) {
        t = wide_table(&mut ctx.rng, n);
    }
    ctx.shape(!t.rows.is_empty(), &table_sig(&t));
    ctx.describe(format!("table {} header {} rows {}", table_shape(&t), short(&t.hdr.names), short(&t.rows)));
    count_table(ctx, &t);
    let path = ctx.path_str("out.dc");
    if ctx.idx % 16 == 3 {
        let src = ctx.path_str("in.dc");
        lib_write(&t, &src).map_err(|e| Bad::Violation(format!("writing failed: {}", e)))?;
        let out = if ctx.rng.bool() {
            cli::chop_simple(&[&src, "-o", &path])?
        } else {
            cli::chop(&["-f", "dc", "-o", &path], cli::In::File(&ctx.path("in.dc")), cli::Env::default())?
        };
        ensure!(out.ok(), "copy dc to dc failed: {}", out.brief());
        ctx.count("tables_copied_by_tool", 1);
    } else {
        lib_write(&t, &path).map_err(|e| Bad::Violation(format!("writing failed: {}", e)))?;
        ctx.count("tables_written_by_library", 1);
    }
    same(&read_path(&path, None, &CsvOpt::default()), &t)
}

fn diff_bytes(got: &[u8], want: &[u8]) -> Option<String> {
    if got == want {
        return None;
    }
    let i = (0..got.len().min(want.len())).find(|&i| got[i] != want[i]).unwrap_or(got.len().min(want.len()));
    let w = |b: &[u8]| format!("{:02x?}", &b[i.saturating_sub(4).min(b.len())..(i + 12).min(b.len())]);
    Some(format!("bytes differ at {} ({} bytes, expected {}): around it got {} expected {}", i, got.len(), want.len(), w(got), w(want)))
}

fn c07(ctx: &mut Ctx) -> Res {
    if ctx.idx % 400 == 7 {
        return c07_dcgen(ctx);
    }
    let long = if ctx.idx % 1501 == 501 && ctx.idx < 5000 { Some(ctx.giant()) } else { ctx.long(1501) };
    let mut t = gen_table_of(&mut ctx.rng, 2000, long);
    put_huge_string(ctx, &mut t);
    if let Some(n) = widths(ctx) {
        t = wide_table(&mut ctx.rng, n);
    }
    ctx.describe(format!("table {} header {} rows {}", table_shape(&t), short(&t.hdr.names), short(&t.rows)));
    if ctx.idx % 2 == 0 {
        ctx.shape(!t.rows.is_empty(), &format!("w {}", table_sig(&t)));
        count_table(ctx, &t);
        let path = ctx.path_str("out.dc");
        if ctx.idx % 32 == 4 {
            let src = ctx.write("in.dc", &dc::encode(&t));
            let out = cli::chop_simple(&[&src, "-o", &path])?;
            ensure!(out.ok(), "copy dc to dc failed: {}", out.brief());
            ctx.count("tables_copied_by_tool", 1);
        } else {
            // names may be empty here
            if ctx.rng.one_in(10) && t.hdr.len() > 0 {
                let i = ctx.rng.us(t.hdr.len());
                t.hdr.names[i] = String::new();
            }
            lib_write(&t, &path).map_err(|e| Bad::Violation(format!("writing failed: {}", e)))?;
        }
        let got = std::fs::read(&path).map_err(|e| Bad::Violation(format!("no output: {}", e)))?;
        let want = dc::encode(&t);
        ctx.count("bytes_compared", want.len() as u64);
        if let Some(d) = diff_bytes(&got, &want) {
            viol!("written file: {}; decoded: {}", d, dc::decode(&got).map(|t| table_shape(&t)).unwrap_or_else(|e| e));
        }
        return Ok(());
    }
    let r = &mut ctx.rng;
    let st = Style {
        user_header: {
            let n = match r.below(4) {
                0 => 0,
                1 => r.us(100),
                2 => r.size(10_000),
                _ if r.one_in(40) => (1 << 20) + r.us(1 << 20),
                _ => r.size(100_000),
            };
            r.bytes(n)
        },
        hints: r.bool(),
        long_strings: r.bool(),
        unnamed: r.bool(),
    };
    let unnamed = (0..t.hdr.len()).filter(|i| st.unnamed && t.hdr.names[*i] == format!("col_{}", i)).count() as u64;
    let bytes = dc::encode_styled(&t, &st, r);
    ctx.shape(!t.rows.is_empty(), &format!("r {} {} {} {} {}", table_sig(&t), st.user_header.len(), st.hints, st.long_strings, st.unnamed));
    if !st.user_header.is_empty() {
        ctx.count("user_headers", 1);
    }
    if st.long_strings {
        ctx.count("long_form_strings", t.rows.iter().map(|r| r.v.iter().filter(|v| matches!(v, Val::Str(_))).count()).sum::<usize>() as u64);
    }
    ctx.count("unnamed_columns", unnamed);
    ctx.count("styled_files_read", 1);
    count_table(ctx, &t);
    let p = ctx.write("in.dc", &bytes);
    same(&read_path(&p, None, &CsvOpt::default()), &t)
}

fn c07_dcgen(ctx: &mut Ctx) -> Res {
    let p = ctx.path_str("gen.dc");
    let out = cli::exec(&cli::bin("dcgen"), &[&p], cli::In::Null, cli::Env::default())?;
    ensure!(out.ok(), "dcgen failed: {}", out.brief());
    let t = Table {
        hdr: Hdr {
            names: ["a_double", "an_int", "an_int_timestamp", "a_string"].iter().map(|s| s.to_string()).collect(),
            types: vec![FieldType::Double, FieldType::Int, FieldType::Int, FieldType::String],
        },
        rows: (0..100u64).map(|i| MRow { ts: i, v: vec![Val::Double((i as f64).to_bits()), Val::Int(i as i32), Val::Int(i as i32), Val::Str(i.to_string())] }).collect(),
    };
    ctx.shape(true, "dcgen");
    ctx.describe("file made by dcgen".into());
    ctx.count("dcgen_files", 1);
    let st = Style { user_header: b"example".to_vec(), ..Style::default() };
    let mut want = dc::header(&t.hdr, &st, &mut Rng::new(0));
    // third column has the timestamp hint
    let at = want.len() - 4 - (4 + 18) - (4 + 8) - 4;
    want[at..at + 4].copy_from_slice(&[0; 4]);
    for m in &t.rows {
        dc::row(&mut want, m, &st, &mut Rng::new(0));
    }
    let got = std::fs::read(&p).map_err(|e| Bad::Violation(format!("no output: {}", e)))?;
    if let Some(d) = diff_bytes(&got, &want) {
        viol!("dcgen's file: {}", d);
    }
    same(&read_path(&p, None, &CsvOpt::default()), &t)
}

// ------------------------------------------------------------------ contents

/// content in a plain format, with the table that it means
#[derive(Clone)]
pub struct Content {
    pub csv: bool,
    pub bytes: Vec<u8>,
    pub table: Table,
}
impl Content {
    pub fn ext(&self) -> &'static str {
        if self.csv {
            ".csv"
        } else {
            ".dc"
        }
    }
    pub fn opt(&self) -> CsvOpt {
        CsvOpt::nanos(true, 0, ",")
    }
}

/// csv content with header line ts,b,c.. and nanosecond timestamps; values need no quoting or trimming
pub fn gen_csv_content(r: &mut Rng, rows: usize, cell: usize, random: bool) -> Content {
    let cols = r.urange(1, 5);
    let names: Vec<String> = (0..cols).map(|i| if i == 0 { "ts".into() } else { format!("c{}", i) }).collect();
    let mut s = names.join(",");
    let mut out = Vec::new();
    let mut t = r.below(1 << 40);
    let last_lf = rows > 0 || r.bool();
    if last_lf {
        s.push('\n');
    }
    for _ in 0..rows {
        t += r.below(1000);
        let mut v = vec![Val::Str(t.to_string())];
        for _ in 1..cols {
            let n = r.us(cell + 1);
            let x: String = if random {
                (0..n).map(|_| (b'!' + r.below(94) as u8) as char).map(|c| if c == ',' || c == '"' { '_' } else { c }).collect()
            } else {
                let w = *r.pick(&["abc", "é", "price", "0", "xyzzy12"]);
                w.repeat(n / w.len() + 1)
            };
            v.push(Val::Str(x));
        }
        s += &v.iter().map(|x| if let Val::Str(x) = x { x.as_str() } else { "" }).collect::<Vec<_>>().join(",");
        s.push('\n');
        out.push(MRow { ts: t, v });
    }
    Content { csv: true, bytes: s.into_bytes(), table: Table { hdr: Hdr { names, types: vec![FieldType::String; cols] }, rows: out } }
}

pub fn gen_content(r: &mut Rng, max_rows: usize) -> Content {
    if r.bool() {
        let rows = r.size(max_rows);
        let cell = r.size(60);
        let random = r.one_in(3);
        gen_csv_content(r, rows, cell, random)
    } else {
        let cols = gen_cols(r, 20);
        let hdr = gen_hdr(r, cols);
        let n = r.size(max_rows);
        let maxs = r.size(60);
        let rows = gen_rows(r, &hdr, n, maxs);
        let table = Table { hdr, rows };
        Content { csv: false, bytes: dc::encode(&table), table }
    }
}

fn empty_csv() -> Content {
    Content { csv: true, bytes: vec![], table: Table::default() }
}

fn c08(ctx: &mut Ctx) -> Res {
    let fmt = FMTS[(ctx.idx % 6) as usize];
    let r = &mut ctx.rng;
    let big = r.one_in(if ctx.tier == Tier::Quick { 60 } else { 40 });
    let c = if r.one_in(25) {
        empty_csv()
    } else if big {
        let rows = r.urange(20_000, 90_000);
        let random = r.bool();
        gen_csv_content(r, rows, 40, random)
    } else if r.one_in(10) {
        // sizes around those of blocks and previews
        let mut c = gen_csv_content(r, 1, 5, false);
        let target = *r.pick(&[8190usize, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131072, 262144]);
        let v = c.table.rows[0].clone();
        let line = c.bytes.split(|b| *b == b'\n').nth(1).unwrap().to_vec();
        while c.bytes.len() + line.len() + 1 <= target {
            c.bytes.extend(&line);
            c.bytes.push(b'\n');
            c.table.rows.push(v.clone());
        }
        while c.bytes.len() < target {
            c.bytes.push(b'\n'); // blank lines are skipped
        }
        c
    } else {
        let max = if r.one_in(8) { 6000 } else { 300 };
        gen_content(r, max)
    };
    let inner = format!("d{}", c.ext());
    if fmt == Fmt::Zip && r.one_in(6) {
        let e = comp::zip_unusable(r, &c.bytes, &inner);
        let name = format!("d{}.zip", c.ext());
        ctx.shape(true, &format!("{} {:x}", e.what, crate::rng::fnv(&e.bytes)));
        ctx.describe(format!("{} bytes of {} as {}", c.bytes.len(), c.ext(), e.what));
        let p = ctx.write(&name, &e.bytes);
        let out = read_path(&p, None, &c.opt());
        ensure!(matches!(out.end, End::Err(_)), "read without an error, {} rows: {:?}", out.rows.len(), out.end);
        ensure!(out.rows.is_empty(), "{} rows before the error", out.rows.len());
        ctx.count("unusable_archives_rejected", 1);
        return Ok(());
    }
    let odd = fmt == Fmt::Zip && r.one_in(3);
    let e = if odd {
        let n = comp::odd_entry_name(r, &inner);
        comp::zip_named(r, &c.bytes, &n)
    } else {
        let many = if ctx.idx % 331 < 6 { r.urange(60_000, 200_000) } else { 0 };
        match if many > 0 { comp::with_empty_parts(r, fmt, &c.bytes, &inner, many) } else { None } {
            Some(e) => {
                ctx.ev.entry("files_of_over_60000_empty_parts".into()).and_modify(|n| *n += 1).or_insert(1);
                e
            }
            None => comp::encode(r, fmt, &c.bytes, &inner, 5),
        }
    };
    let name = format!("d{}{}", c.ext(), if fmt == Fmt::Zip { ".zip" } else { fmt.ext() });
    ctx.shape(!c.table.rows.is_empty(), &format!("{} {} {:x}", e.what, c.bytes.len(), crate::rng::fnv(&e.bytes)));
    ctx.describe(format!("{} bytes of {} as {} ({} bytes)", c.bytes.len(), c.ext(), e.what, e.bytes.len()));
    ctx.count(&format!("enc_{:?}", fmt), 1);
    if odd {
        ctx.count("odd_entry_names", 1);
    }
    if c.bytes.is_empty() {
        ctx.count("empty_contents", 1);
    }
    if c.bytes.len() > 1 << 20 {
        ctx.count("contents_over_1mb", 1);
    }
    if !e.complete_at.is_empty() && fmt != Fmt::Lzf {
        ctx.count("multi_part_files", 1);
    }
    let p = ctx.write(&name, &e.bytes);
    let res = if ctx.rng.one_in(8) && c.bytes.len() < 200_000 {
        let plain = ctx.write(&inner, &c.bytes);
        let args = |p: &str| -> Vec<String> {
            ["-E", "--csv-in-has-header", "yes", "--csv-in-ts-col", "0", "--csv-in-epoch", "ns", "--csv-in-delimiter=,", p].iter().map(|s| s.to_string()).collect()
        };
        let a = args(&p);
        let b = args(&plain);
        let a = cli::chop_simple(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
        let b = cli::chop_simple(&b.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
        ctx.count("cli_runs", 1);
        if !a.ok() || !b.ok() {
            Err(Bad::Violation(format!("tool failed: compressed {} plain {}", a.brief(), b.brief())))
        } else if a.out != b.out {
            Err(Bad::Violation(format!("output for compressed and plain input differ: {}", diff_bytes(&a.out, &b.out).unwrap())))
        } else {
            Ok(())
        }
    } else {
        same(&read_path(&p, None, &c.opt()), &c.table)
    };
    if let (Err(Bad::Violation(_)), true) = (&res, e.linked_stored) {
        return Err(Bad::Known("lz4-linked-stored"));
    }
    ctx.count("rows_compared", c.table.rows.len() as u64);
    res
}

// ------------------------------------------------------------------ C09

/// panics of decoders outside of the repository, which are known findings by call site
pub fn known_panic(loc: &str) -> Option<&'static str> {
    let tail = |f: &str| loc.contains(&format!("paku-0.0.1/src/{}:", f));
    if tail("lz4_jblock.rs") {
        return Some("paku-lz4_jblock-panic");
    }
    if tail("lz4_jblock_decompress.rs") {
        return Some("paku-lz4_jblock_decompress-panic");
    }
    if tail("lzf.rs") {
        return Some("paku-lzf-panic");
    }
    if tail("lzf_decompress.rs") {
        return Some("paku-lzf_decompress-panic");
    }
    None
}

fn prefix(out: &ReadOut, t: &Table) -> Option<String> {
    if out.rows.len() > t.rows.len() {
        return Some(format!("{} rows delivered, intact input has {}", out.rows.len(), t.rows.len()));
    }
    if let (Some(h), false) = (&out.hdr, out.rows.is_empty()) {
        if *h != t.hdr {
            return Some("header differs from that of the intact input".into());
        }
    }
    diff_rows(&out.rows, &t.rows[..out.rows.len()])
}

fn cut_case(ctx: &mut Ctx, name: &str, what: &str, data: &[u8], k: usize, c: &Content, jblock: bool) -> Res {
    let p = ctx.write(name, &data[..k]);
    let out = read_path(&p, None, &c.opt());
    ctx.count("cuts", 1);
    if jblock && matches!(out.end, End::Ok) {
        // the decoder takes the cut for the end, the last csv row may even be delivered in part
        ctx.known.push("lz4block-cut-between-blocks");
        return Ok(());
    }
    if let Some(d) = prefix(&out, &c.table) {
        viol!("{} cut to {} of {} bytes: rows are no prefix: {}", what, k, data.len(), d);
    }
    match &out.end {
        End::Err(_) => {
            ctx.count("cuts_reported", 1);
            Ok(())
        }
        End::Panic(l, m) => match known_panic(l) {
            Some(k) => {
                ctx.known.push(k);
                Ok(())
            }
            None => viol!("{} cut to {} of {} bytes: panic at {}: {}", what, k, data.len(), l, m),
        },
        End::Ok => viol!("{} cut to {} of {} bytes: read without error, {} of {} rows", what, k, data.len(), out.rows.len(), c.table.rows.len()),
    }
}

fn c09(ctx: &mut Ctx) -> Res {
    let small = !ctx.rng.one_in(4);
    let plain = ctx.idx % 7 == 6;
    let fmt = FMTS[(ctx.idx % 7 % 6) as usize];
    let r = &mut ctx.rng;
    let c = if plain {
        // plain dc
        let cols = gen_cols(r, 40);
        let hdr = gen_hdr(r, cols);
        let n = if small { r.urange(1, 6) } else { r.urange(1, 300) };
        let rows = gen_rows(r, &hdr, n, 12);
        let table = Table { hdr, rows };
        Content { csv: false, bytes: dc::encode(&table), table }
    } else if small {
        let n = r.urange(0, 8);
        if r.bool() {
            gen_csv_content(r, n, 8, true)
        } else {
            gen_content(r, 6)
        }
    } else {
        gen_content(r, 4000)
    };
    let inner = format!("d{}", c.ext());
    let e = if plain {
        let mut e = comp::gz(r, &[], 1);
        e.bytes = c.bytes.clone();
        e.what = "plain dc".into();
        e.complete_at = dc::boundaries(&c.table);
        e.essential = e.bytes.len();
        e.checked = false;
        e.data.clear();
        e.sums.clear();
        e
    } else {
        comp::encode(r, fmt, &c.bytes, &inner, 3)
    };
    let name = if plain { inner.clone() } else { format!("d{}{}", c.ext(), fmt.ext()) };
    if e.linked_stored {
        ctx.count("skipped", 1);
        return Ok(());
    }
    ctx.shape(true, &format!("{} {:x}", e.what, crate::rng::fnv(&e.bytes)));
    ctx.describe(format!("{} bytes of {} with {} rows as {} ({} bytes)", c.bytes.len(), c.ext(), c.table.rows.len(), e.what, e.bytes.len()));
    let len = e.bytes.len();
    let last = len.min(e.essential);
    // offsets between blocks of LZ4Block
    let mut between: Vec<usize> = Vec::new();
    if fmt == Fmt::Lz4Block && !plain {
        between = e.data.iter().map(|d| d.1).collect();
    }
    let cuts: Vec<usize> = if len <= 700 {
        (1..last).collect()
    } else {
        let r = &mut ctx.rng;
        let mut v: Vec<usize> = (0..25).map(|_| r.urange(1, last - 1)).collect();
        v.extend((1..10).map(|i| last - i));
        for (a, b) in e.data.iter().chain(&e.sums).take(6) {
            v.extend([a.saturating_sub(1), *a, a + 1, *b, b + 1, b + 4]);
        }
        v.retain(|k| *k >= 1 && *k < last);
        v.sort();
        v.dedup();
        v
    };
    if plain {
        ctx.count("cuts_of_plain_dc", cuts.len() as u64);
    }
    for k in cuts {
        if e.complete_at.contains(&k) {
            continue;
        }
        // content that is cut within a part and, as a whole, decompresses to nothing yet is still cut
        cut_case(ctx, &name, &e.what, &e.bytes, k, &c, between.contains(&k))?;
    }
    // damage of data that is protected by a checksum
    if e.checked && !e.data.is_empty() {
        damage(ctx, &name, &e, &c)?;
    }
    // the tool, on one cut
    if ctx.rng.one_in(4) && last > 2 {
        let k = ctx.rng.urange(1, last - 1);
        if !e.complete_at.contains(&k) && !between.contains(&k) {
            let p = ctx.write(&name, &e.bytes[..k]);
            let o = ctx.path_str("out.dc");
            let out = cli::chop_simple(&["-E", "--csv-in-has-header", "yes", "--csv-in-ts-col", "0", "--csv-in-epoch", "ns", "--csv-in-delimiter=,", &p, "-o", &o])?;
            ctx.count("cli_runs", 1);
            ensure!(!out.ok(), "tool accepts {} cut to {} of {} bytes", e.what, k, len);
            ensure!(!out.err.trim().is_empty(), "tool fails without message on {} cut to {} of {} bytes: {}", e.what, k, len, out.brief());
        }
    }
    Ok(())
}

fn damage(ctx: &mut Ctx, name: &str, e: &Enc, c: &Content) -> Res {
    let n = ctx.rng.urange(4, 14);
    for i in 0..n {
        let mut b = e.bytes.clone();
        let sum = i % 4 == 0 && !e.sums.is_empty();
        let ranges: Vec<(usize, usize)> = if sum { e.sums.clone() } else { e.data.clone() }.into_iter().filter(|(a, b)| b > a).collect();
        if ranges.is_empty() {
            continue;
        }
        let (x, y) = *ctx.rng.pick(&ranges);
        let k = ctx.rng.urange(x, y - 1);
        match ctx.rng.below(if sum { 5 } else { 3 }) {
            0 => b[k] ^= 1 << ctx.rng.below(8),
            1 => b[k] = b[k].wrapping_add(1),
            2 => b[k] ^= ctx.rng.range(1, 255) as u8,
            // values that someone could take for "no checksum"
            w => b[x..y].iter_mut().for_each(|b| *b = if w == 3 { 0 } else { 0xff }),
        }
        if b == e.bytes {
            continue;
        }
        let p = ctx.write(name, &b);
        let out = read_path(&p, None, &c.opt());
        ctx.count("damages", 1);
        if sum {
            ctx.count("checksum_damages", 1);
        }
        match &out.end {
            End::Err(_) => ctx.count("damages_reported", 1),
            End::Panic(l, m) => match known_panic(l) {
                Some(k) => ctx.known.push(k),
                None => viol!("{} with byte {} changed: panic at {}: {}", e.what, k, l, m),
            },
            End::Ok => {
                let same = out.hdr.as_ref() == Some(&c.table.hdr) && out.rows == c.table.rows;
                if sum {
                    viol!("{} with byte {} of a checksum changed: read without error", e.what, k);
                }
                ensure!(same, "{} with byte {} changed: read without error, with other rows", e.what, k);
                ctx.count("damages_without_effect", 1);
            }
        }
    }
    Ok(())
}
