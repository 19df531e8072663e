//! Reads hostile inputs, as prepared by `vh`, with the library, under an interpreter that detects undefined behaviour.
//! usage: vmiri DIR; DIR/list has a line of tab separated fields per input:
//! file name, number of bytes per read call, delimiter, header, column, format, zone, whether to print floating point
//! values (which is undefined behaviour of a dependency, a known finding)
use chopper::chopper::chopper::{ChopperDriver, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, FieldValue, Header, TimestampRange};
use chopper::cli::util::YesNoAuto;
use chopper::driver::driver::Driver;
use chopper::error::CliResult;
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::InputFactory;
use chopper::source::csv_configs::*;
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::reader::ChopperBufPreviewer;
use chopper::util::tz::ChopperTz;
use chopper::write::factory;
use std::io::{self, Read};
use std::path::Path;

struct Slow {
    data: Vec<u8>,
    pos: usize,
    step: usize,
}
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.data.len() - self.pos).min(self.step);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
#[derive(Clone)]
struct Mem {
    dir: String,
    step: usize,
}
impl StreamingTransport for Mem {
    fn can_open(&self, p: &Path) -> bool {
        p.to_str().map(|p| p.starts_with("mem:")).unwrap_or(false)
    }
    fn open(&self, p: &Path) -> io::Result<Box<dyn Read>> {
        let name = p.file_name().unwrap().to_str().unwrap();
        let data = std::fs::read(format!("{}/{}", self.dir, name))?;
        Ok(Box::new(Slow { data, pos: 0, step: self.step }))
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "mem"
    }
}

fn config(f: &[&str]) -> CliResult<CSVInputConfig> {
    let delim = f[2].strip_prefix('=').map(|d| if d == "TAB" { "\t" } else { d });
    let header = match f[3] {
        "yes" => YesNoAuto::Yes,
        "no" => YesNoAuto::No,
        _ => YesNoAuto::Auto,
    };
    let col = match f[4].parse::<usize>() {
        Ok(i) => TimestampColConfig::Index(i),
        _ => TimestampColConfig::Auto,
    };
    let fmt = match f[5] {
        "ns" => TimestampFmtConfig::Epoch(TimestampUnits::Nanos),
        "s" => TimestampFmtConfig::Epoch(TimestampUnits::Seconds),
        "" => TimestampFmtConfig::Auto,
        t => TimestampFmtConfig::Explicit(t.to_string()),
    };
    let tz = if f[6].is_empty() { ChopperTz::new_always_fails() } else { ChopperTz::from(chrono_tz::Tz::UTC) };
    CSVInputConfig::new(delim, header, TimestampConfig::new(col, fmt, tz))
}

fn valid(what: &str, b: &[u8]) {
    if std::str::from_utf8(b).is_err() {
        println!("BADTEXT {} {:02x?}", what, &b[..b.len().min(100)]);
    }
}

fn open(dir: &str, f: &[&str]) -> CliResult<Box<dyn Source>> {
    let mem = Mem { dir: dir.to_string(), step: f[1].parse().unwrap() };
    let mut fac = InputFactory::new(config(f)?, None, Some(vec![mem.box_clone()]))?;
    // only files on disk can be seeked
    let path = if f[0].ends_with(".zip") { format!("{}/{}", dir, f[0]) } else { format!("mem://{}", f[0]) };
    fac.create_source_from_input(&Input { input: InputType::Path(path), format: InputFormat::Auto })
}

fn one(dir: &str, f: &[&str]) -> CliResult<u64> {
    let data = std::fs::read(format!("{}/{}", dir, f[0])).unwrap();
    let p: ChopperBufPreviewer<Box<dyn Read>> = ChopperBufPreviewer::new(Box::new(Slow { data, pos: 0, step: f[1].parse().unwrap() }) as Box<dyn Read>)?;
    for l in p.get_lines().iter().flatten() {
        valid("line", l.as_bytes());
    }
    let mut src = open(dir, f)?;
    for n in src.header().field_names() {
        valid("name", n.as_bytes());
    }
    let mut rows = 0;
    let r = loop {
        match src.next_row() {
            Ok(None) => break Ok(()),
            Err(e) => break Err(e),
            Ok(Some(row)) => {
                rows += 1;
                for v in &row.field_values {
                    if let FieldValue::String(s) = v {
                        valid("value", s.as_bytes());
                    }
                }
            }
        }
    };
    println!("ROWS {}", rows);
    r?;
    let floats = src.header().field_types().iter().any(|t| matches!(t, FieldType::Float | FieldType::Double));
    // what can be read can be written
    for out in ["out.dc", "out.csv"] {
        if floats && out == "out.csv" && f[7] != "floats" {
            continue;
        }
        let src = open(dir, f)?;
        let headers: Vec<Header> = vec![src.header().clone()];
        let cfg = CSVOutputConfig::new(",", true, None, TimestampStyle::Epoch, TimestampUnits::Nanos, ChopperTz::new_always_fails());
        let sink = factory::new_header_sink(Some(&format!("{}/{}", dir, out)), Some(cfg))?;
        let graph = HeaderGraph::new(vec![HeaderChain::new(vec![HeaderNode::HeaderSink(sink)])]);
        let mut d = Driver::new(vec![src], graph, TimestampRange { begin: None, end: None }, headers)?;
        ChopperDriver::drive(&mut d)?;
        println!("WRITTEN");
    }
    Ok(rows)
}

fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let list = std::fs::read_to_string(format!("{}/list", dir)).unwrap();
    for l in list.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        println!("INPUT {}", f[0]);
        let r = std::panic::catch_unwind(|| one(&dir, &f));
        match r {
            Ok(Ok(_)) => println!("OK"),
            Ok(Err(e)) => {
                let t = e.to_string();
                valid("message", t.as_bytes());
                println!("ERR");
            }
            Err(_) => println!("PANIC"),
        }
    }
    println!("END");
}
