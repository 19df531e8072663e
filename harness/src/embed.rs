//! A program that embeds chopper, with zone names, a transport and a source format of its own.
use chopper::chopper::chopper::{ChopperDriver, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row};
use chopper::cli::util::YesNoAuto;
use chopper::driver::driver::Driver;
use chopper::error::{CliResult, Error};
use chopper::filter::column_filter_delete_col::ColumnFilterDelete;
use chopper::filter::row_filter_equal_value::RowFilterEqualValue;
use chopper::filter::row_filter_greater_value::RowFilterGreaterValue;
use chopper::input::input_factory::InputFactory;
use chopper::source::csv_configs::{CSVInputConfig, TimestampColConfig, TimestampConfig, TimestampFmtConfig};
use chopper::source::source_factory::SourceFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::reader::ChopperBufPreviewer;
use chrono_tz::Tz;
use std::collections::HashMap;
use std::io::{self, Read};
use std::path::Path;

/// opens mem://<path> as the file with that path
#[derive(Clone)]
struct Mem;
impl StreamingTransport for Mem {
    fn can_open(&self, path: &Path) -> bool {
        path.to_str().map(|p| p.starts_with("mem://")).unwrap_or(false)
    }
    fn open(&self, path: &Path) -> io::Result<Box<dyn Read>> {
        let p = path.to_str().unwrap().strip_prefix("mem:/").unwrap().to_string();
        Ok(Box::new(std::fs::File::open(p)?))
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "mem"
    }
}

/// format with one decimal timestamp per line after a first line "#own"
#[derive(Clone)]
struct Own;
struct OwnSource {
    header: Header,
    rows: std::vec::IntoIter<u64>,
}
impl Source for OwnSource {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        Ok(self.rows.next().map(|t| Row { timestamp: t, field_values: vec![FieldValue::String(format!("own{}", t))] }))
    }
}
impl SourceFactory for Own {
    fn can_create_from_format(&self, format: &String) -> bool {
        format.ends_with(".own")
    }
    fn can_create_from_previewer(&self, previewer: &ChopperBufPreviewer<Box<dyn Read>>) -> bool {
        previewer.get_lines().as_ref().and_then(|l| l.get(0)).map(|l| l.as_str().starts_with("#own")).unwrap_or(false)
    }
    fn create_source(&mut self, previewer: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Box<dyn Source>> {
        let mut s = String::new();
        previewer.get_reader().read_to_string(&mut s)?;
        let rows: Vec<u64> = s.lines().skip(1).filter_map(|l| l.parse().ok()).collect();
        Ok(Box::new(OwnSource { header: Header::new(vec!["own".into()], vec![FieldType::String]), rows: rows.into_iter() }))
    }
    fn box_clone(&self) -> Box<dyn SourceFactory> {
        Box::new(self.clone())
    }
}

/// <type>:<number, bits of a floating point number, text, or hexadecimal bytes>
fn value(s: &str) -> FieldValue {
    let (t, v) = s.split_once(':').unwrap();
    match t {
        "bool" => FieldValue::Boolean(v == "1"),
        "buf" => FieldValue::ByteBuf(v.bytes().collect()),
        "byte" => FieldValue::Byte(v.parse().unwrap()),
        "char" => FieldValue::Char(v.parse().unwrap()),
        "short" => FieldValue::Short(v.parse().unwrap()),
        "int" => FieldValue::Int(v.parse().unwrap()),
        "long" => FieldValue::Long(v.parse().unwrap()),
        "float" => FieldValue::Float(f32::from_bits(v.parse().unwrap())),
        "double" => FieldValue::Double(f64::from_bits(v.parse().unwrap())),
        "str" => FieldValue::String(v.to_string()),
        "null" => FieldValue::None,
        _ => panic!("value {}", s),
    }
}

/// --filters <output> <input> [eq|gt <column> <value>] [del <column> -] ...
fn filters(a: &[String]) -> CliResult<()> {
    let ts = TimestampConfig::new(TimestampColConfig::Index(0), TimestampFmtConfig::Auto, chopper::util::tz::ChopperTz::new_always_fails());
    let mut f = InputFactory::new(CSVInputConfig::new(None, YesNoAuto::Auto, ts)?, None, None)?;
    let src = f.create_source_from_path(&a[1])?;
    let headers = vec![src.header().clone()];
    let mut nodes = Vec::new();
    for c in a[2..].chunks(3) {
        nodes.push(HeaderNode::HeaderSink(match c[0].as_str() {
            "eq" => RowFilterEqualValue::new(&c[1], value(&c[2])),
            "gt" => RowFilterGreaterValue::new(&c[1], value(&c[2])),
            "del" => ColumnFilterDelete::new(&c[1]),
            x => return Err(Error::from(x)),
        }));
    }
    let out = if a[0] == "-" { None } else { Some(a[0].as_str()) };
    nodes.push(HeaderNode::HeaderSink(chopper::write::factory::new_header_sink(out, None)?));
    let mut d = Driver::new(vec![src], HeaderGraph::new(vec![HeaderChain::new(nodes)]), chopper::chopper::types::TIMESTAMP_RANGE_ALL, headers)?;
    ChopperDriver::drive(&mut d)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s == "--filters").unwrap_or(false) {
        chopper::error::handle_drive_error(filters(&a[2..]));
    }
    let mut m: HashMap<&str, Tz> = HashMap::new();
    m.insert("desk", Tz::America__New_York);
    m.insert("UTC", Tz::Asia__Tokyo);
    m.insert("Europe/London", Tz::Asia__Kathmandu);
    m.insert("not a zone", Tz::Australia__Eucla);
    chopper::error::handle_drive_error(chopper::chopper_cli::chopper_cli(Some(vec![Box::new(Mem)]), Some(vec![Box::new(Own)]), Some(m)));
}
