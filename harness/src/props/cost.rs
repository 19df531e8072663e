//! C28: cost grows no faster than the data
use super::driver::merge_graph;
use super::times::csv_config;
use crate::comp::{self, Fmt, FMTS};
use crate::model::*;
use crate::probes::*;
use crate::rng::Rng;
use crate::run::{Ctx, Prop, Res, Tier};
use crate::{dc, tz, viol};
use chopper::chopper::chopper::{ChopperDriver, DataSink, HeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row, TimestampRange};
use chopper::driver::driver::Driver;
use chopper::driver::split::Split;
use chopper::error::CliResult;
use chopper::filter::column_filter_delete_col::ColumnFilterDelete;
use chopper::filter::row_filter_equal_value::RowFilterEqualValue;
use chopper::filter::row_filter_greater_value::RowFilterGreaterValue;
use chopper::source::csv_configs::{TimestampColConfig, TimestampFmtConfig};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::file::are_contents_same;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::tz::ChopperTz;
use chopper::write::factory;
use std::cell::Cell;
use std::fmt::Write;
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        level: "exploration",
        rule: "a case is a workload that grows in one direction (rows, columns, length of a text, members or blocks of compressed data, small reads, files of a directory, rows before the begin time, rows that a step makes of one, ...) with the rest drawn at random; it is run at a size that takes some milliseconds and at eight times that size, with processor time and requested memory observed. Broken if a run of eight times the size takes more than sixteen times as much (repeatedly, at two sizes; something quadratic takes 64 times as much). nontrivial: all; distinct by direction and parameters",
        assumptions: &["processor time of repeated runs of equal work differs by less than a factor of two (minima of several runs are compared)"],
        cases: (420, 12_000),
        budget: (60, 560),
        run: c28,
        must_observe: &[
            "pairs_measured", "grown_csv_rows", "grown_csv_columns", "grown_csv_text", "grown_csv_cells", "grown_dc_rows", "grown_dc_columns", "grown_dc_text", "grown_dc_names", "grown_members", "grown_compressed", "grown_small_reads", "grown_files", "grown_file_columns", "grown_skipped", "grown_merged", "grown_split",
            "grown_filtered", "grown_filter_columns", "grown_written_rows", "grown_written_columns", "grown_written_text", "grown_rows_of_one", "grown_comparison", "grown_blank_lines",
        ],
    }]
}

const DIMS: [&str; 25] = [
    "csv_rows", "csv_columns", "csv_text", "csv_cells", "dc_rows", "dc_columns", "dc_text", "dc_names", "members", "compressed", "small_reads", "files", "skipped", "merged", "split", "filtered", "filter_columns", "written_rows", "written_columns", "written_text", "rows_of_one", "comparison", "blank_lines",
    "compressed", "file_columns",
];
const TIMES: usize = 8;
const LIMIT: u64 = 16;
const SLACK_NS: u64 = 20_000_000;
const SLACK_BYTES: u64 = 8 << 20;

fn cpu_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

/// counts rows and values that reach it
struct Counter(Rc<Cell<u64>>);
impl HeaderSink for Counter {
    fn process_header(self: Box<Self>, _: &mut Header) -> CliResult<Box<dyn DataSink>> {
        Ok(self)
    }
}
impl DataSink for Counter {
    fn write_row(&mut self, rows: &mut Vec<Row>) -> CliResult<()> {
        self.0.set(self.0.get() + rows.len() as u64);
        Ok(())
    }
    fn flush(&mut self) -> CliResult<()> {
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

/// makes n rows of one
struct Multiply(usize);
impl HeaderSink for Multiply {
    fn process_header(self: Box<Self>, _: &mut Header) -> CliResult<Box<dyn DataSink>> {
        Ok(self)
    }
}
impl DataSink for Multiply {
    fn write_row(&mut self, rows: &mut Vec<Row>) -> CliResult<()> {
        let r = rows[0].clone();
        rows.extend((1..self.0).map(|_| r.clone()));
        Ok(())
    }
    fn flush(&mut self) -> CliResult<()> {
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

/// makes its rows when they are asked for
struct Making {
    header: Header,
    n: u64,
    at: u64,
    ts: Box<dyn Fn(u64) -> u64>,
    values: Vec<FieldValue>,
}
impl Source for Making {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        if self.at == self.n {
            return Ok(None);
        }
        self.at += 1;
        Ok(Some(Row { timestamp: (self.ts)(self.at - 1), field_values: self.values.clone() }))
    }
}
fn making(hdr: &Hdr, values: &[Val], n: usize, ts: Box<dyn Fn(u64) -> u64>) -> Box<dyn Source> {
    Box::new(Making { header: hdr.to(), n: n as u64, at: 0, ts, values: values.iter().map(|v| v.to()).collect() })
}

type Outcome = Result<u64, String>;
type Job = Box<dyn FnMut() -> Outcome>;

fn drive(sources: Vec<Box<dyn Source>>, graph: HeaderGraph, begin: Option<u64>, end: Option<u64>) -> Result<(), String> {
    let headers = sources.iter().map(|s| s.header().clone()).collect();
    let mut d = Driver::new(sources, graph, TimestampRange { begin, end }, headers).map_err(|e| e.to_string())?;
    ChopperDriver::drive(&mut d).map_err(|e| e.to_string())
}

fn read_all(s: CliResult<Box<dyn Source>>) -> Outcome {
    let mut s = s.map_err(|e| e.to_string())?;
    let mut n = 0;
    while s.next_row().map_err(|e| e.to_string())?.is_some() {
        n += 1;
    }
    Ok(n)
}

fn reading(path: String, opt: CsvOpt) -> Job {
    Box::new(move || read_all(open_path(&path, None, &opt)))
}

fn piecewise(data: Vec<u8>, name: String, opt: CsvOpt, each: usize) -> Job {
    let data = Rc::new(data);
    Box::new(move || {
        let t = MemTransport::new(data.clone(), if each == 0 { Cut::Whole } else { Cut::Each(each) }, &new_log());
        let mut f = factory(&opt, None, Some(vec![t.box_clone()])).map_err(|e| e.to_string())?;
        read_all(f.create_source_from_input(&input(&format!("{}//{}", t.prefix, name), None)))
    })
}

/// how the cells of a csv look
#[derive(Clone, Copy)]
struct Look {
    quoted: bool,
    crlf: bool,
    len: usize,
    time: u64,
    delim: char,
}
fn gen_look(r: &mut Rng) -> Look {
    Look { quoted: r.one_in(3), crlf: r.one_in(3), len: *r.pick(&[0, 1, 5, 5, 20, 100]), time: r.below(4), delim: *r.pick(&[',', ',', ';', '\t', '|']) }
}
fn look_opt(l: &Look, guess: bool) -> CsvOpt {
    let mut o = CsvOpt::nanos(true, 0, &l.delim.to_string());
    match l.time {
        0 => {}
        1 => o.fmt = TimestampFmtConfig::Explicit("%Y-%m-%d %H:%M:%S".into()),
        2 => o.fmt = TimestampFmtConfig::Auto,
        _ => o.fmt = TimestampFmtConfig::Explicit("%s".into()),
    }
    if l.time == 3 {
        o.fmt = TimestampFmtConfig::Epoch(TimestampUnits::Seconds);
    }
    o.tz = ChopperTz::from(chrono_tz::Tz::Europe__Amsterdam);
    if guess {
        o.delim = None;
        o.has_header = chopper::cli::util::YesNoAuto::Auto;
        o.col = TimestampColConfig::Auto;
    }
    o
}
fn csv(l: &Look, rows: usize, cols: usize) -> Vec<u8> {
    let mut s = String::new();
    let eol = if l.crlf { "\r\n" } else { "\n" };
    s.push_str("time");
    for i in 1..cols {
        write!(s, "{}c{}", l.delim, i).unwrap();
    }
    s.push_str(eol);
    let text = "xyz ab\u{e9}q".chars().cycle().take(l.len).collect::<String>();
    let cell = if l.quoted { format!("\"{}{}\"\"\n\"", text, l.delim) } else { text };
    for i in 0..rows {
        match l.time {
            0 => write!(s, "{}", 1_500_000_000_000_000_000u64 + i as u64).unwrap(),
            1 => write!(s, "2017-07-{:02} {:02}:{:02}:{:02}", 1 + i / 90_000 % 30, i / 3600 % 24, i / 60 % 60, i % 60).unwrap(),
            2 => write!(s, "201707{:02} {:02}:{:02}:{:02}", 1 + i / 90_000 % 30, i / 3600 % 24, i / 60 % 60, i % 60).unwrap(),
            _ => write!(s, "{}", 1_500_000_000 + i).unwrap(),
        }
        for _ in 1..cols {
            s.push(l.delim);
            s.push_str(&cell);
        }
        s.push_str(eol);
    }
    s.into_bytes()
}

fn table(r: &mut Rng, rows: usize, cols: usize) -> Table {
    let few: Vec<FieldType> = gen_hdr(r, cols.min(8).max(1)).types;
    let hdr = Hdr { names: (0..cols).map(|i| format!("n{}", i)).collect(), types: (0..cols).map(|i| few[i % few.len()]).collect() };
    let some: Vec<Vec<Val>> = (0..16).map(|_| hdr.types.iter().map(|t| if r.one_in(8) { Val::Null } else { gen_val(r, *t, 20) }).collect()).collect();
    Table { rows: (0..rows).map(|i| MRow { ts: i as u64, v: some[i % 16].clone() }).collect(), hdr }
}

fn texts() -> Hdr {
    Hdr { names: vec!["a".into(), "b".into()], types: vec![FieldType::String, FieldType::String] }
}

fn enc(r: &mut Rng, f: Fmt, data: &[u8], name: &str) -> Vec<u8> {
    comp::encode(r, f, data, name, 1).bytes
}

fn counted(job: impl Fn(Box<dyn HeaderSink>) -> Result<(), String> + 'static) -> Job {
    Box::new(move || {
        let n = Rc::new(Cell::new(0));
        job(Box::new(Counter(n.clone())))?;
        Ok(n.get())
    })
}

/// workload of size n in one direction; all else is drawn from r, in the same way for all n
fn prepare(dim: &str, n: usize, r: &mut Rng, dir: &Path, what: &mut String) -> Job {
    let put = |name: &str, data: &[u8]| -> String {
        let p = dir.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, data).unwrap();
        p.to_str().unwrap().to_string()
    };
    let look = gen_look(r);
    // first lines do not tell much if texts have delimiters and line breaks in them
    let guess = !look.quoted && r.one_in(2);
    let opt = look_opt(&look, guess);
    *what = format!("len {} quoted {} crlf {} time {} delimiter {:?} guess {}", look.len, look.quoted, look.crlf, look.time, look.delim, guess);
    match dim {
        "csv_rows" => {
            let cols = r.urange(1, 8);
            reading(put("a.csv", &csv(&look, n, cols)), opt)
        }
        "csv_columns" => {
            let rows = *r.pick(&[1usize, 3, 20]);
            reading(put("a.csv", &csv(&look, rows, n)), opt)
        }
        // lengths of cells
        "csv_cells" => {
            let (rows, cols) = (r.urange(1, 10), r.urange(2, 5));
            reading(put("a.csv", &csv(&Look { len: n, ..look }, rows, cols)), opt)
        }
        // one text with many quotes or line breaks in it
        "csv_text" => {
            let unit = *r.pick(&["x", "\"\"", "\n", "\r\n", ",", "漢", " ", "\"\"\n,", "1"]);
            *what += &format!(" text of {:?}", unit);
            let at_end = r.bool();
            let text = unit.repeat(n);
            let s = if at_end { format!("time,a\n1,\"{}\"", text) } else { format!("time,a,b\n1,\"{}\",z\n2,y,x\n", text) };
            let mut o = CsvOpt::nanos(true, 0, ",");
            if guess {
                o.delim = None;
            }
            reading(put("a.csv", s.as_bytes()), o)
        }
        "blank_lines" => {
            let eol = *r.pick(&["\n", "\r\n", "\r"]);
            let s = match r.below(3) {
                0 => format!("time,a{}1,2{}", eol, eol.repeat(n)),
                1 => format!("time,a\n1,2\n{}2,3\n", eol.repeat(n)),
                _ => format!("time,a\n{}", (0..n).map(|i| format!("{},b{}{}", i, eol, eol)).collect::<String>()),
            };
            reading(put("a.csv", s.as_bytes()), CsvOpt::nanos(true, 0, ","))
        }
        "dc_rows" => {
            let cols = gen_cols(r, 9);
            let t = table(r, n, cols);
            reading(put("a.dc", &dc::encode(&t)), opt)
        }
        "dc_columns" => {
            let rows = *r.pick(&[1usize, 3, 20]);
            let t = table(r, rows, n);
            reading(put("a.dc", &dc::encode(&t)), opt)
        }
        "dc_text" => {
            let t = Table { hdr: texts(), rows: (0..r.urange(1, 4)).map(|i| MRow { ts: i as u64, v: vec![Val::Str("é".repeat(n)), Val::s("x")] }).collect() };
            reading(put("a.dc", &dc::encode(&t)), opt)
        }
        "dc_names" => {
            let mut st = dc::Style::default();
            let hdr = if r.bool() {
                Hdr { names: vec!["n".repeat(n)], types: vec![FieldType::Int] }
            } else {
                st.user_header = vec![b'u'; n];
                Hdr { names: vec!["n".into()], types: vec![FieldType::Int] }
            };
            let t = Table { hdr, rows: vec![MRow { ts: 1, v: vec![Val::Int(3)] }] };
            reading(put("a.dc", &dc::encode_styled(&t, &st, r)), opt)
        }
        "compressed" => {
            let f = *r.pick(&FMTS);
            *what += &format!(" {:?}", f);
            let plain = match r.below(3) {
                0 => csv(&look, n / 8 + 1, 3),
                1 => dc::encode(&table(r, n / 8 + 1, 3)),
                _ => format!("time,a\n1,{}\n", "q".repeat(n * 20)).into_bytes(),
            };
            let isdc = plain.starts_with(&[0, 0, 0, 0, 0x44]);
            let name = if isdc { "a.dc" } else { "a.csv" };
            let b = enc(r, f, &plain, name);
            let plaintext = plain.starts_with(b"time,a\n");
            reading(put(&format!("{}{}", name, f.ext()), &b), if isdc || !plaintext { opt } else { CsvOpt::nanos(true, 0, ",") })
        }
        // many small members or frames
        "members" => {
            let f = *r.pick(&[Fmt::Gz, Fmt::Lz4, Fmt::Zst, Fmt::Lzf]);
            let each = *r.pick(&[1usize, 10, 100]);
            *what += &format!(" {:?} members of {} rows", f, each);
            let mut b = enc(r, f, b"time,a\n", "a.csv");
            let mut kinds = Vec::new();
            for _ in 0..4 {
                let part = (0..each).map(|i| format!("{},text\n", i)).collect::<String>();
                kinds.push(enc(r, f, part.as_bytes(), "a.csv"));
            }
            for i in 0..n {
                b.extend(&kinds[i % 4]);
            }
            reading(put(&format!("a.csv{}", f.ext()), &b), CsvOpt::nanos(true, 0, ","))
        }
        "small_reads" => {
            let each = *r.pick(&[1usize, 1, 2, 7]);
            let f = if r.bool() { None } else { Some(*r.pick(&[Fmt::Gz, Fmt::Lz4, Fmt::Zst, Fmt::Lzf, Fmt::Lz4Block])) };
            *what += &format!(" reads of {} bytes {:?}", each, f);
            let cols = r.urange(1, 4);
            let isdc = r.bool();
            let plain = if isdc { dc::encode(&table(r, n, cols)) } else { csv(&look, n, cols) };
            let name = if isdc { "a.dc" } else { "a.csv" };
            match f {
                None => piecewise(plain, name.into(), opt, each),
                Some(f) => {
                    let b = enc(r, f, &plain, name);
                    piecewise(b, format!("{}{}", name, f.ext()), opt, each)
                }
            }
        }
        "files" => {
            let rows = r.us(3);
            let isdc = r.bool();
            let d = dir.join("d");
            let _ = std::fs::remove_dir_all(&d);
            let b = if isdc { dc::encode(&table(r, rows, 2)) } else { csv(&look, rows, 3) };
            let extra = if r.bool() { "" } else { "long-name-of-a-file-" };
            for i in 0..n {
                put(&format!("d/{}{:06}{}", extra, i * 7919 % n, if isdc { ".dc" } else { ".csv" }), &b);
            }
            reading(d.to_str().unwrap().into(), opt)
        }
        // later file with all columns in the same places, or with few columns of many
        "file_columns" => {
            let d = dir.join("d");
            let _ = std::fs::remove_dir_all(&d);
            let all = r.bool();
            let mut second = table(r, 5, n.max(8));
            let at: Vec<usize> = (0..3).map(|_| r.us(n.max(8))).collect();
            let mut first = second.clone();
            if !all {
                let mut at = at;
                at.sort();
                at.dedup();
                first.hdr.names = at.iter().map(|i| second.hdr.names[*i].clone()).collect();
                first.hdr.types = at.iter().map(|i| second.hdr.types[*i]).collect();
                for row in first.rows.iter_mut() {
                    row.v = at.iter().map(|i| row.v[*i].clone()).collect();
                }
                if r.bool() {
                    second.hdr.names.reverse();
                    second.hdr.types.reverse();
                    second.rows.iter_mut().for_each(|row| row.v.reverse());
                }
            }
            *what += &format!(" all columns {}", all);
            put("d/1.dc", &dc::encode(&first));
            put("d/2.dc", &dc::encode(&second));
            reading(d.to_str().unwrap().into(), opt)
        }
        "skipped" => {
            let vals = [Val::s("text"), Val::Null];
            let tie = r.bool();
            counted(move |s| drive(vec![making(&texts(), &vals, n, Box::new(move |i| if tie { 5 } else { i }))], merge_graph(1, s), Some(if tie { 6 } else { n as u64 - 1 }), None))
        }
        "merged" => {
            let k = r.urange(2, 4);
            let how = r.below(4);
            *what += &format!(" {} inputs, order {}", k, how);
            let vals = [Val::s("text"), Val::Int(1)];
            let hdr = Hdr { names: vec!["a".into(), "b".into()], types: vec![FieldType::String, FieldType::Int] };
            counted(move |s| {
                let sources = (0..k)
                    .map(|j| {
                        let j = j as u64;
                        let ts: Box<dyn Fn(u64) -> u64> = match how {
                            // one after another, forwards and backwards; in turn; all at once
                            0 => Box::new(move |i| j * n as u64 + i),
                            1 => Box::new(move |i| (9 - j) * n as u64 + i),
                            2 => Box::new(move |i| i * 10 + j),
                            _ => Box::new(|_| 3),
                        };
                        making(&hdr, &vals, n, ts)
                    })
                    .collect();
                drive(sources, merge_graph(k, s), None, None)
            })
        }
        "split" => {
            let k = r.urange(2, 5);
            let vals = [Val::s("text"), Val::Null];
            counted(move |s| {
                let split = Split::new((1..=k).collect());
                let t = split.get_new_header_count_tracker();
                let mut chains = vec![HeaderChain::new(vec![HeaderNode::SplitHeaderSink(split, t), HeaderNode::HeaderSink(s)])];
                chains.extend((0..k).map(|_| HeaderChain::new(vec![HeaderNode::HeaderSink(Box::new(Counter(Rc::new(Cell::new(0)))))])));
                drive(vec![making(&texts(), &vals, n, Box::new(|i| i))], HeaderGraph::new(chains), None, None)
            })
        }
        "filtered" | "filter_columns" => {
            let (rows, cols) = if dim == "filtered" { (n, r.urange(2, 6)) } else { (*r.pick(&[2usize, 10]), n.max(2)) };
            let which = r.below(3);
            let last = r.bool();
            let hdr = Hdr { names: (0..cols).map(|i| format!("n{}", i)).collect(), types: vec![FieldType::Long; cols] };
            let name = format!("N{}", if last { cols - 1 } else { 0 });
            let vals = vec![Val::Long(4); cols];
            counted(move |s| {
                let step = match which {
                    0 => RowFilterEqualValue::new(&name, Val::Long(4).to()),
                    1 => RowFilterGreaterValue::new(&name, Val::Long(3).to()),
                    _ => ColumnFilterDelete::new(&name),
                };
                let g = HeaderGraph::new(vec![HeaderChain::new(vec![HeaderNode::HeaderSink(step), HeaderNode::HeaderSink(s)])]);
                drive(vec![making(&hdr, &vals, rows, Box::new(|i| i))], g, None, None)
            })
        }
        "written_rows" | "written_columns" | "written_text" => {
            let (rows, cols, len) = match dim {
                "written_rows" => (n, r.urange(1, 6), look.len),
                "written_columns" => (*r.pick(&[1usize, 5]), n, look.len.min(20)),
                _ => (2, 2, n),
            };
            let few = [FieldType::String, FieldType::Int, FieldType::Double, FieldType::Long, FieldType::Float, FieldType::Short];
            let k = r.us(6);
            let type_of = |i: usize| if dim == "written_text" { FieldType::String } else { few[(i + k) % 6] };
            let hdr = Hdr { names: (0..cols).map(|i| format!("n{}", i)).collect(), types: (0..cols).map(type_of).collect() };
            let text = if r.bool() { "\"" } else { "y" }.repeat(len);
            let vals: Vec<Val> = hdr.types.iter().map(|t| if *t == FieldType::String { Val::Str(text.clone()) } else if r.one_in(9) { Val::Null } else { gen_val(r, *t, 9) }).collect();
            let isdc = r.bool();
            let epoch = r.one_in(4);
            let zone = tz::gen_zone(r);
            *what += &format!(" dc {} epoch {} zone {:?}", isdc, epoch, zone);
            let path = dir.join(if isdc { "o.dc" } else { "o.csv" }).to_str().unwrap().to_string();
            Box::new(move || {
                let config = csv_config(",", true, None, epoch, TimestampUnits::Micros, Some(zone));
                let sink = factory::new_header_sink(Some(&path), Some(config)).map_err(|e| e.to_string())?;
                drive(vec![making(&hdr, &vals, rows, Box::new(|i| 1_500_000_000_000_000_000 + i * 1_000_000_007))], merge_graph(1, sink), None, None)?;
                Ok(rows as u64)
            })
        }
        "rows_of_one" => {
            let vals = [Val::s("t"), Val::Null];
            let rows = r.urange(1, 3);
            counted(move |s| {
                let g = HeaderGraph::new(vec![HeaderChain::new(vec![HeaderNode::HeaderSink(Box::new(Multiply(n))), HeaderNode::HeaderSink(s)])]);
                drive(vec![making(&texts(), &vals, rows, Box::new(|i| i))], g, None, None)
            })
        }
        "comparison" => {
            let b = r.bytes(997);
            let b: Vec<u8> = b.iter().cycle().take(n * 16).cloned().collect();
            let (p, q) = (PathBuf::from(put("p", &b)), PathBuf::from(put("q", &b)));
            Box::new(move || match are_contents_same(p.to_str().unwrap(), q.to_str().unwrap()) {
                Ok(true) => Ok(1),
                x => Err(format!("{:?}", x.map_err(|e| e.to_string()))),
            })
        }
        d => panic!("{}", d),
    }
}

struct Cost {
    ns: u64,
    bytes: u64,
    rows: u64,
}
/// least of several runs
fn measure(job: &mut Job, runs: usize) -> Result<Cost, String> {
    let mut c = Cost { ns: u64::MAX, bytes: u64::MAX, rows: 0 };
    for _ in 0..runs {
        let (t, b) = (cpu_ns(), crate::alloc::total());
        c.rows = job()?;
        c.ns = c.ns.min(cpu_ns() - t);
        c.bytes = c.bytes.min((crate::alloc::total() - b) as u64);
    }
    Ok(c)
}

/// memory stays with the process, so that only the first run pays for getting it from the system
fn keep_memory() {
    unsafe {
        libc::mallopt(libc::M_MMAP_MAX, 0);
        libc::mallopt(libc::M_TRIM_THRESHOLD, i32::MAX);
        libc::mallopt(libc::M_TOP_PAD, 64 << 20);
    }
}

fn c28(ctx: &mut Ctx) -> Res {
    keep_memory();
    let dim = DIMS[(ctx.idx % DIMS.len() as u64) as usize];
    let seed = ctx.rng.next();
    let dir = ctx.dir.clone();
    let goal: u64 = if ctx.tier == Tier::Quick { 10_000_000 } else { *ctx.rng.pick(&[10_000_000, 30_000_000, 80_000_000]) };
    let cap = if dim == "files" { 1500 } else { 1 << 22 };
    let mut what = String::new();
    let mut n = 64;
    let run = |n: usize, runs: usize, what: &mut String| -> Result<Cost, String> { measure(&mut prepare(dim, n, &mut Rng::new(seed), &dir, what), runs) };
    // size that takes long enough
    let small = loop {
        match run(n, 1, &mut what) {
            Err(e) => {
                ctx.describe(format!("{} {} {}: {}", dim, n, what, e));
                ctx.count("runs_that_failed", 1);
                if ctx.verbose {
                    eprintln!("{}", e);
                }
                return Ok(());
            }
            Ok(c) if c.ns >= goal || n >= cap => break c,
            Ok(c) => {
                // larger steps while it's far off
                n *= (goal / c.ns.max(1) / 2).max(2).min(16) as usize;
                n = n.min(cap);
            }
        }
    };
    ctx.describe(format!("{} from {} to {}: {}", dim, n, n * TIMES, what));
    ctx.shape(true, &format!("{} {} {:x}", dim, what, seed));
    ctx.count(&format!("grown_{}", dim), 1);
    ctx.count("pairs_measured", 1);
    // what is read wrongly is for other checks to find
    let big = match run(n * TIMES, 1, &mut what) {
        Ok(c) => c,
        Err(_) => {
            ctx.count("runs_that_failed", 1);
            return Ok(());
        }
    };
    ctx.max("rows_in_a_run", big.rows);
    ctx.max("cpu_ms_of_a_run", big.ns / 1_000_000);
    let ratio = |s: &Cost, b: &Cost| b.ns * 10 / s.ns.max(1);
    ctx.max("time_ratio_times_10", ratio(&small, &big));
    let b = (ratio(&small, &big) / 20).min(12) * 2;
    ctx.count(&format!("time_ratio_from_{:02}", b), 1);
    let over_time = |s: &Cost, b: &Cost| b.ns > LIMIT * s.ns + SLACK_NS;
    let over_bytes = |s: &Cost, b: &Cost| b.bytes > LIMIT * s.bytes + SLACK_BYTES;
    if over_bytes(&small, &big) {
        viol!("{} of {}: {} bytes of memory requested in all, {} times as many: {}", dim, n, small.bytes, TIMES, big.bytes);
    }
    if !over_time(&small, &big) {
        return Ok(());
    }
    // once more, and at a larger size
    ctx.count("pairs_measured_again", 1);
    let mut seen = Vec::new();
    // fresh memory makes a factor that is the same at all sizes; what is quadratic shows more of it at the larger
    for (k, limit) in [(1usize, LIMIT), (2, LIMIT * 3 / 2)] {
        let s = match run(n * k, 4, &mut what) {
            Ok(c) => c,
            Err(_) => return Ok(()),
        };
        let b = match run(n * k * TIMES, 3, &mut what) {
            Ok(c) => c,
            Err(_) => return Ok(()),
        };
        if !(over_time(&s, &b) && b.ns > limit * s.ns + SLACK_NS) {
            ctx.max("time_ratio_measured_again_times_10", ratio(&s, &b));
            return Ok(());
        }
        seen.push(format!("{}: {} us, {}: {} us", n * k, s.ns / 1000, n * k * TIMES, b.ns / 1000));
        if b.ns > 3_000_000_000 {
            break;
        }
    }
    viol!("time grows faster than the data in {} ({}): {}", dim, what, seen.join("; "))
}
