//! Probes at chopper's own extension points: sources, sinks and transports that record what happens.
use crate::model::*;
use crate::run::catch;
use chopper::chopper::chopper::{DataSink, HeaderSink, Source};
use chopper::chopper::types::{FieldType, Header, Row};
use chopper::cli::util::YesNoAuto;
use chopper::error::CliResult;
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::InputFactory;
use chopper::source::csv_configs::{CSVInputConfig, TimestampColConfig, TimestampConfig, TimestampFmtConfig};
use chopper::source::source_factory::SourceFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::tz::ChopperTz;
use std::cell::RefCell;
use std::io;
use std::path::Path;
use std::rc::Rc;

/// common event counter and log of one run
#[derive(Default)]
pub struct Log {
    pub events: Vec<Ev>,
    pub reads: u64,
    pub bytes: u64,
    /// injected read failures
    pub fails: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// a step was given its header
    Header(usize, Hdr),
    /// a step was given a row
    Row(usize, MRow),
    /// a step was flushed
    Flush(usize),
    /// a source was asked for a row and gave it
    Pull(usize, u64),
    /// a source was asked for a row and had none
    End(usize),
    /// a source was asked for a row and failed
    Fail(usize),
}
pub type SLog = Rc<RefCell<Log>>;
pub fn new_log() -> SLog {
    Rc::new(RefCell::new(Log::default()))
}

/// source of prepared rows
pub struct MemSource {
    pub id: usize,
    pub header: Header,
    pub rows: std::vec::IntoIter<MRow>,
    pub log: SLog,
    /// fails after that many rows
    pub fail_after: Option<usize>,
    pub given: usize,
}
impl MemSource {
    pub fn new(id: usize, hdr: &Hdr, rows: Vec<MRow>, log: &SLog) -> MemSource {
        MemSource { id, header: hdr.to(), rows: rows.into_iter(), log: log.clone(), fail_after: None, given: 0 }
    }
}
impl Source for MemSource {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        if self.fail_after == Some(self.given) {
            self.log.borrow_mut().events.push(Ev::Fail(self.id));
            return Err(io::Error::new(io::ErrorKind::Other, "injected source failure").into());
        }
        match self.rows.next() {
            None => {
                self.log.borrow_mut().events.push(Ev::End(self.id));
                Ok(None)
            }
            Some(r) => {
                self.given += 1;
                self.log.borrow_mut().events.push(Ev::Pull(self.id, r.ts));
                Ok(Some(r.to()))
            }
        }
    }
}

/// what a probe step does with rows
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    /// leaves the row as it is
    Pass,
    /// drops rows whose timestamp + salt is a multiple of n
    DropMod(u64, u64),
    /// gives n copies, last value of copy k set to a text that tells k
    Dup(usize),
    /// gives as many copies as timestamp mod n
    VarDup(u64),
    /// changes the first value by appending a mark
    Mark(usize),
    /// appends a column
    AddCol(usize),
    /// removes first column, if there is one
    DelCol,
    /// replaces the input row by its own, different one
    Replace(usize),
    /// fails on nth row (counted from 0)
    FailRow(u64),
    /// fails on nth flush
    FailFlush(u64),
}

impl Act {
    pub fn header(&self, h: &mut Hdr) {
        match self {
            Act::AddCol(k) => {
                h.names.push(format!("added{}", k));
                h.types.push(chopper::chopper::types::FieldType::String);
            }
            Act::DelCol => {
                if !h.names.is_empty() {
                    h.names.remove(0);
                    h.types.remove(0);
                }
            }
            _ => {}
        }
    }
    /// None if it fails
    pub fn rows(&self, id: usize, r: &MRow, nth: u64) -> Option<Vec<MRow>> {
        Some(match self {
            Act::Pass | Act::FailFlush(_) => vec![r.clone()],
            Act::DropMod(n, salt) => {
                if r.ts.wrapping_add(*salt) % n == 0 {
                    vec![]
                } else {
                    vec![r.clone()]
                }
            }
            Act::Dup(n) => (0..*n).map(|k| copy(r, id, k)).collect(),
            Act::VarDup(n) => (0..(r.ts % n) as usize).map(|k| copy(r, id, k)).collect(),
            Act::Mark(m) => {
                let mut r = r.clone();
                if let Some(v) = r.v.first_mut() {
                    *v = Val::Str(format!("{}|m{}", text(v), m));
                }
                vec![r]
            }
            Act::AddCol(k) => {
                let mut r = r.clone();
                r.v.push(Val::Str(format!("a{}", k)));
                vec![r]
            }
            Act::DelCol => {
                let mut r = r.clone();
                if !r.v.is_empty() {
                    r.v.remove(0);
                }
                vec![r]
            }
            Act::Replace(k) => {
                let mut n = r.clone();
                for v in n.v.iter_mut() {
                    *v = Val::Str(format!("r{}", k));
                }
                vec![n]
            }
            Act::FailRow(n) => {
                if nth == *n {
                    return None;
                }
                vec![r.clone()]
            }
        })
    }
}
fn text(v: &Val) -> String {
    match v {
        Val::Str(s) => s.clone(),
        v => format!("{:?}", v),
    }
}
fn copy(r: &MRow, id: usize, k: usize) -> MRow {
    let mut r = r.clone();
    if let Some(v) = r.v.last_mut() {
        *v = Val::Str(format!("{}|{}.{}", text(v), id, k));
    }
    r
}

/// step that records header, rows and flushes, and acts on rows
pub struct Probe {
    pub id: usize,
    pub act: Act,
    pub log: SLog,
    pub nrows: u64,
    pub nflush: u64,
}
impl Probe {
    pub fn new(id: usize, act: Act, log: &SLog) -> Box<dyn HeaderSink> {
        Box::new(Probe { id, act, log: log.clone(), nrows: 0, nflush: 0 })
    }
}
impl HeaderSink for Probe {
    fn process_header(self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
        let mut h = Hdr::from(header);
        self.log.borrow_mut().events.push(Ev::Header(self.id, h.clone()));
        self.act.header(&mut h);
        header.update_field_names(h.names);
        header.update_field_types(h.types);
        Ok(self)
    }
}
impl DataSink for Probe {
    fn write_row(&mut self, io_rows: &mut Vec<Row>) -> CliResult<()> {
        let r = MRow::from(&io_rows[0]);
        let n = io_rows.len();
        self.log.borrow_mut().events.push(Ev::Row(self.id, r.clone()));
        if n != 1 {
            // recorded as an impossible row, which no model expects
            self.log.borrow_mut().events.push(Ev::Row(usize::MAX, r.clone()));
        }
        let nth = self.nrows;
        self.nrows += 1;
        match self.act.rows(self.id, &r, nth) {
            None => return Err(io::Error::new(io::ErrorKind::Other, "injected sink failure").into()),
            Some(rows) => {
                if rows.len() == 1 && rows[0] == r {
                    return Ok(());
                }
                io_rows.clear();
                io_rows.extend(rows.iter().map(|r| r.to()));
            }
        }
        Ok(())
    }
    fn flush(&mut self) -> CliResult<()> {
        self.log.borrow_mut().events.push(Ev::Flush(self.id));
        let nth = self.nflush;
        self.nflush += 1;
        if let Act::FailFlush(n) = self.act {
            if nth == n {
                return Err(io::Error::new(io::ErrorKind::Other, "injected flush failure").into());
            }
        }
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

/// rows recorded by a probe
pub fn rows_of(log: &SLog, id: usize) -> Vec<MRow> {
    log.borrow().events.iter().filter_map(|e| if let Ev::Row(i, r) = e { if *i == id { Some(r.clone()) } else { None } } else { None }).collect()
}

// ------------------------------------------------------------- reading inputs

#[derive(Clone, Debug)]
pub struct CsvOpt {
    pub delim: Option<String>,
    pub has_header: YesNoAuto,
    pub col: TimestampColConfig,
    pub fmt: TimestampFmtConfig,
    pub tz: ChopperTz,
}
impl Default for CsvOpt {
    fn default() -> CsvOpt {
        CsvOpt {
            delim: None,
            has_header: YesNoAuto::Auto,
            col: TimestampColConfig::Auto,
            fmt: TimestampFmtConfig::Auto,
            tz: ChopperTz::new_always_fails(),
        }
    }
}
impl CsvOpt {
    /// header as given, timestamps are nanos in column i
    pub fn nanos(header: bool, col: usize, delim: &str) -> CsvOpt {
        CsvOpt {
            delim: Some(delim.to_string()),
            has_header: if header { YesNoAuto::Yes } else { YesNoAuto::No },
            col: TimestampColConfig::Index(col),
            fmt: TimestampFmtConfig::Epoch(chopper::source::csv_timestamp::TimestampUnits::Nanos),
            ..CsvOpt::default()
        }
    }
    pub fn config(&self) -> CliResult<CSVInputConfig> {
        CSVInputConfig::new(
            self.delim.as_deref(),
            self.has_header,
            TimestampConfig::new(self.col.clone(), self.fmt.clone(), self.tz.clone()),
        )
    }
}

/// result of reading an input to its end
#[derive(Clone, Debug, PartialEq)]
pub struct ReadOut {
    pub hdr: Option<Hdr>,
    pub rows: Vec<MRow>,
    pub end: End,
}
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Err(String),
    /// location and message
    Panic(String, String),
}

pub fn drain(src: &mut dyn Source, rows: &mut Vec<MRow>, max: usize) -> Result<(), String> {
    loop {
        match src.next_row() {
            Ok(Some(r)) => {
                rows.push(MRow::from(&r));
                if rows.len() >= max {
                    return Ok(());
                }
            }
            Ok(None) => return Ok(()),
            Err(e) => return Err(e.to_string()),
        }
    }
}

pub fn read_with(make: impl FnOnce() -> CliResult<Box<dyn Source>>) -> ReadOut {
    let mut hdr = None;
    let mut rows = Vec::new();
    let r = catch(|| -> Result<(), String> {
        let mut src = make().map_err(|e| e.to_string())?;
        hdr = Some(Hdr::from(src.header()));
        drain(&mut *src, &mut rows, usize::MAX)?;
        // the header must not change while rows are read, and end has to stay the end
        let h2 = Hdr::from(src.header());
        if hdr.as_ref() != Some(&h2) {
            return Err(format!("MONITOR header changed while reading: {:?} to {:?}", hdr, h2));
        }
        Ok(())
    });
    let end = match r {
        Ok(Ok(())) => End::Ok,
        Ok(Err(e)) => End::Err(e),
        Err((l, m)) => End::Panic(l, m),
    };
    ReadOut { hdr, rows, end }
}

pub fn factory(
    opt: &CsvOpt,
    factories: Option<Vec<Box<dyn SourceFactory>>>,
    transports: Option<Vec<Box<dyn StreamingTransport>>>,
) -> CliResult<InputFactory> {
    InputFactory::new(opt.config()?, factories, transports)
}

pub fn read_path(path: &str, format: Option<&str>, opt: &CsvOpt) -> ReadOut {
    read_with(|| open_path(path, format, opt))
}

pub fn open_path(path: &str, format: Option<&str>, opt: &CsvOpt) -> CliResult<Box<dyn Source>> {
    let mut f = factory(opt, None, None)?;
    use_before(&mut f, path);
    f.create_source_from_input(&input(path, format))
}

thread_local!(pub static USED_BEFORE: std::cell::Cell<u64> = std::cell::Cell::new(0));

/// some factories have to read something quite different first, which must not tell on what they read later
fn use_before(f: &mut InputFactory, path: &str) {
    let size = match std::fs::metadata(path) {
        Ok(m) if m.is_file() => m.len(),
        _ => return,
    };
    if size % 3 != 0 {
        return;
    }
    let hdr = |ts: Vec<(&str, FieldType)>| Hdr { names: ts.iter().map(|t| t.0.to_string()).collect(), types: ts.iter().map(|t| t.1).collect() };
    let (name, bytes): (&str, Vec<u8>) = match size / 3 % 9 {
        0 => ("csv", b"x,time,y\n5,1600000000,6\n7,1600000001,8\n".to_vec()),
        1 => ("csv", b"20200101\tabc\t1\n20200102\tdef\t2\n".to_vec()),
        2 => ("csv", b"x eventtimemillis y\na 1600000000000 b\n".to_vec()),
        3 => ("dc", crate::dc::encode(&Table { hdr: hdr(vec![("ts", FieldType::Int), ("a", FieldType::String), ("b", FieldType::Double)]), rows: vec![MRow { ts: 5, v: vec![Val::Int(7), Val::Str("text".into()), Val::Null] }] })),
        4 => ("csv", b"a,b,c,d,e,f,g,h,i,j,time,k,l\n".to_vec()),
        5 => ("csv.gz", b"\x1f\x8b\x08 and no more".to_vec()),
        6 => ("csv", b"1600000000000000000 1\n1600000000000000001 2\n".to_vec()),
        7 => ("csv", b"ts,a\n2020-01-01T00:00:00Z,5\nnonsense,6\n".to_vec()),
        _ => ("csv", b"date,time,price\n20200101,01:02:03,1.5\n20200101,01:02:04,1.5\n".to_vec()),
    };
    let other = format!("{}.used-before.{}", path, name);
    if std::fs::write(&other, bytes).is_err() {
        return;
    }
    let _ = catch(|| {
        if let Ok(mut s) = f.create_source_from_input(&input(&other, None)) {
            let mut rows = Vec::new();
            let _ = drain(&mut *s, &mut rows, 10);
        }
    });
    let _ = std::fs::remove_file(&other);
    USED_BEFORE.with(|u| u.set(u.get() + 1));
}

pub fn input(path: &str, format: Option<&str>) -> Input {
    Input {
        input: InputType::Path(path.to_string()),
        format: match format {
            None => InputFormat::Auto,
            Some(f) => InputFormat::Extension(f.to_string()),
        },
    }
}

/// how a reader hands out its bytes
#[derive(Clone, Debug)]
pub enum Cut {
    /// as much as asked for
    Whole,
    /// at most n bytes at a time
    Each(usize),
    /// random sizes up to n
    Random(u64, usize),
    /// given sizes, then whole
    List(Vec<usize>),
}

/// reader over given bytes with chosen read sizes and failures
pub struct CutReader {
    pub data: Rc<Vec<u8>>,
    pub pos: usize,
    pub cut: Cut,
    pub rng: crate::rng::Rng,
    pub nread: usize,
    pub log: SLog,
    /// fails with other error on nth read call
    pub fail_at: Option<(usize, io::ErrorKind)>,
    /// fails on every read once that many bytes have been handed out
    pub fail_after: Option<(usize, io::ErrorKind)>,
}
impl CutReader {
    pub fn new(data: &Rc<Vec<u8>>, cut: Cut, log: &SLog) -> CutReader {
        let seed = if let Cut::Random(s, _) = cut { s } else { 0 };
        CutReader { data: data.clone(), pos: 0, cut, rng: crate::rng::Rng::new(seed), nread: 0, log: log.clone(), fail_at: None, fail_after: None }
    }
}
impl io::Read for CutReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let k = self.nread;
        self.nread += 1;
        self.log.borrow_mut().reads += 1;
        if let Some((n, kind)) = self.fail_at {
            if n == k {
                self.log.borrow_mut().fails += 1;
                return Err(io::Error::new(kind, "injected read failure"));
            }
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        match &self.cut {
            Cut::Whole => {}
            Cut::Each(m) => n = n.min(*m),
            Cut::Random(_, m) => n = n.min(1 + self.rng.us(*m)),
            Cut::List(l) => {
                if let Some(m) = l.get(k) {
                    n = n.min((*m).max(1));
                }
            }
        }
        if let Some((at, kind)) = self.fail_after {
            if self.pos >= at {
                self.log.borrow_mut().fails += 1;
                return Err(io::Error::new(kind, "injected read failure"));
            }
            n = n.min(at - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.log.borrow_mut().bytes += n as u64;
        Ok(n)
    }
}

/// transport for paths "mem://<name>", which no built-in transport opens
#[derive(Clone)]
pub struct MemTransport {
    pub prefix: String,
    pub data: Rc<Vec<u8>>,
    pub cut: Cut,
    pub log: SLog,
    pub fail_at: Option<(usize, io::ErrorKind)>,
    pub fail_after: Option<(usize, io::ErrorKind)>,
    pub opened: Rc<RefCell<Vec<String>>>,
}
impl MemTransport {
    pub fn new(data: Rc<Vec<u8>>, cut: Cut, log: &SLog) -> MemTransport {
        MemTransport { prefix: "mem:".into(), data, cut, log: log.clone(), fail_at: None, fail_after: None, opened: Rc::new(RefCell::new(vec![])) }
    }
}
impl StreamingTransport for MemTransport {
    fn can_open(&self, path: &Path) -> bool {
        path.to_str().map(|p| p.starts_with(&self.prefix)).unwrap_or(false)
    }
    fn open(&self, path: &Path) -> io::Result<Box<dyn io::Read>> {
        self.opened.borrow_mut().push(path.to_str().unwrap_or("?").to_string());
        let mut r = CutReader::new(&self.data, self.cut.clone(), &self.log);
        r.fail_at = self.fail_at;
        r.fail_after = self.fail_after;
        Ok(Box::new(r))
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "mem"
    }
}

/// reads bytes through a transport of our own, under the given file name
pub fn read_mem(t: &MemTransport, name: &str, format: Option<&str>, opt: &CsvOpt) -> ReadOut {
    read_with(|| {
        let mut f = factory(opt, None, Some(vec![t.box_clone()]))?;
        f.create_source_from_input(&input(&format!("{}//{}", t.prefix, name), format))
    })
}
