//! Plain model of tables, conversions from and to chopper's own types, and generators.
use crate::rng::Rng;
use chopper::chopper::types::{FieldType, FieldValue, Header, Row};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Null,
    Byte(u8),
    Char(u16),
    Short(i16),
    Int(i32),
    Long(i64),
    Float(u32),
    Double(u64),
    Str(String),
    Bool(bool),
    Buf(Vec<u8>),
}

impl Val {
    pub fn from(v: &FieldValue) -> Val {
        match v {
            FieldValue::Boolean(x) => Val::Bool(*x),
            FieldValue::Byte(x) => Val::Byte(*x),
            FieldValue::ByteBuf(x) => Val::Buf(x.clone()),
            FieldValue::Char(x) => Val::Char(*x),
            FieldValue::Double(x) => Val::Double(x.to_bits()),
            FieldValue::Float(x) => Val::Float(x.to_bits()),
            FieldValue::Int(x) => Val::Int(*x),
            FieldValue::Long(x) => Val::Long(*x),
            FieldValue::Short(x) => Val::Short(*x),
            FieldValue::String(x) => Val::Str(x.clone()),
            FieldValue::None => Val::Null,
        }
    }
    pub fn to(&self) -> FieldValue {
        match self {
            Val::Bool(x) => FieldValue::Boolean(*x),
            Val::Byte(x) => FieldValue::Byte(*x),
            Val::Buf(x) => FieldValue::ByteBuf(x.clone()),
            Val::Char(x) => FieldValue::Char(*x),
            Val::Double(x) => FieldValue::Double(f64::from_bits(*x)),
            Val::Float(x) => FieldValue::Float(f32::from_bits(*x)),
            Val::Int(x) => FieldValue::Int(*x),
            Val::Long(x) => FieldValue::Long(*x),
            Val::Short(x) => FieldValue::Short(*x),
            Val::Str(x) => FieldValue::String(x.clone()),
            Val::Null => FieldValue::None,
        }
    }
    pub fn s(x: &str) -> Val {
        Val::Str(x.to_string())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MRow {
    pub ts: u64,
    pub v: Vec<Val>,
}

impl MRow {
    pub fn from(r: &Row) -> MRow {
        MRow { ts: r.timestamp, v: r.field_values.iter().map(Val::from).collect() }
    }
    pub fn to(&self) -> Row {
        Row { timestamp: self.ts, field_values: self.v.iter().map(|v| v.to()).collect() }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Hdr {
    pub names: Vec<String>,
    pub types: Vec<FieldType>,
}

impl Hdr {
    pub fn from(h: &Header) -> Hdr {
        Hdr { names: h.field_names().clone(), types: h.field_types().clone() }
    }
    pub fn to(&self) -> Header {
        Header::new(self.names.clone(), self.types.clone())
    }
    pub fn len(&self) -> usize {
        self.names.len()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Table {
    pub hdr: Hdr,
    pub rows: Vec<MRow>,
}

pub fn short<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{:?}", v);
    if s.len() > 700 {
        let mut e = 700;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...({} chars)", &s[..e], s.len())
    } else {
        s
    }
}

/// first difference between two row lists, for messages
pub fn diff_rows(got: &[MRow], want: &[MRow]) -> Option<String> {
    for i in 0..got.len().max(want.len()) {
        match (got.get(i), want.get(i)) {
            (Some(g), Some(w)) if g == w => {}
            (Some(g), Some(w)) => {
                if g.ts == w.ts && g.v.len() == w.v.len() {
                    let c = (0..g.v.len()).find(|&c| g.v[c] != w.v[c]).unwrap();
                    return Some(format!(
                        "row {} of {} (expected {}), column {} of {}: got {} expected {}",
                        i, got.len(), want.len(), c, g.v.len(), short(&g.v[c]), short(&w.v[c])
                    ));
                }
                return Some(format!("row {} of {} (expected {}): got {} expected {}", i, got.len(), want.len(), short(g), short(w)));
            }
            (None, Some(w)) => return Some(format!("row {} missing ({} rows, expected {}): {}", i, got.len(), want.len(), short(w))),
            (Some(g), None) => return Some(format!("extra row {} ({} rows, expected {}): {}", i, got.len(), want.len(), short(g))),
            _ => {}
        }
    }
    None
}

pub fn diff_hdr(got: &Hdr, want: &Hdr) -> Option<String> {
    if got == want {
        None
    } else {
        let i = (0..got.len().max(want.len()))
            .find(|&i| got.names.get(i) != want.names.get(i) || got.types.get(i) != want.types.get(i))
            .unwrap_or(0);
        Some(format!(
            "header differs at column {}: got {:?} {:?} ({} columns), expected {:?} {:?} ({} columns)",
            i, got.names.get(i), got.types.get(i), got.len(), want.names.get(i), want.types.get(i), want.len()
        ))
    }
}

pub const TYPES: [FieldType; 8] = [
    FieldType::Byte,
    FieldType::Char,
    FieldType::Double,
    FieldType::Float,
    FieldType::Int,
    FieldType::Long,
    FieldType::Short,
    FieldType::String,
];

/// texts that have a meaning elsewhere
pub const WORDS: [&str; 48] = [
    "NULL", "null", "Null", "NaN", "nan", "N/A", "#N/A", "NA", "na", "nil", "None", "none", "undefined", "\\N", "\\n", "\\0", "-", "--", "?", ".", "true", "TRUE", "false", "True", "yes", "0", "-0", "-0.0", "+5", "1e5",
    "1E400", "inf", "-inf", "Infinity", "0x1F", "007", "1_000", "1.50", "//x", "/* */", "#x", "# x", "%s", "=1+1", "@x", "$HOME", "~", "{}",
];

pub fn gen_text(r: &mut Rng, max: usize) -> String {
    const ALPH: [&str; 5] = ["abcdefgh", "ABCxyz0123456789", "é漢字🦀ßñ\u{300}", "-_.:/#|;!?", "\"'\\,\t \n\r"];
    if max >= 8 && r.one_in(9) {
        return r.pick(&WORDS).to_string();
    }
    let n = r.size(max);
    let pick = r.below(6);
    let mut s = String::new();
    while s.len() < n {
        let a: Vec<char> = ALPH[if pick < 5 { pick as usize } else { r.us(5) }].chars().collect();
        s.push(*r.pick(&a));
    }
    // characters that are easily taken for something else, at either end or within
    if n > 0 && r.one_in(6) {
        for _ in 0..r.urange(1, 3) {
            let c = *r.pick(&['\0', '\0', '\u{1}', '\u{8}', '\u{1a}', '\u{7f}', '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{200b}', '\u{ad}', '\u{200f}', '\u{2029}', '\u{3000}', '\u{1f}', '\u{301}', '\u{1b}', '\u{10ffff}', 'ı', ' ']);
            match r.below(4) {
                0 => s.insert(0, c),
                1 => {
                    let i = s.char_indices().map(|(i, _)| i).nth(r.us(s.chars().count().max(1))).unwrap_or(0);
                    s.insert(i, c)
                }
                _ => s.push(c),
            }
        }
    }
    s
}

pub fn gen_bits64(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => *r.pick(&[
            0u64,
            1,
            u64::MAX,
            i64::MAX as u64,
            i64::MIN as u64,
            f64::NAN.to_bits(),
            f64::INFINITY.to_bits(),
            f64::NEG_INFINITY.to_bits(),
            (-0.0f64).to_bits(),
            1.0f64.to_bits(),
            f64::MIN_POSITIVE.to_bits(),
            f64::MAX.to_bits(),
            0x7ff0000000000001,
            0xfff8000000000123,
        ]),
        1 => r.below(300),
        2 => (r.below(2000) as f64 / 8.0 - 100.0).to_bits(),
        3 => 1u64 << r.below(64),
        4 => (1u64 << r.below(64)).wrapping_sub(1),
        5 => (r.irange(-1_000_000, 1_000_000) as f64 * 0.001).to_bits(),
        _ => r.next(),
    }
}

pub fn gen_val(r: &mut Rng, t: FieldType, maxstr: usize) -> Val {
    let b = gen_bits64(r);
    match t {
        FieldType::Byte => Val::Byte(b as u8),
        FieldType::Char => Val::Char(if r.bool() { r.below(128) as u16 } else { b as u16 }),
        FieldType::Double => Val::Double(b),
        FieldType::Float => match r.below(4) {
            0 => Val::Float((f64::from_bits(b) as f32).to_bits()),
            1 => Val::Float(*r.pick(&[0u32, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 1, 0x7f7fffff])),
            2 => Val::Float((r.irange(-100000, 100000) as f32 / 100.0).to_bits()),
            _ => Val::Float(b as u32),
        },
        FieldType::Int => Val::Int(if r.bool() { b as i32 } else { *r.pick(&[0, -1, 1, i32::MAX, i32::MIN, 255, 256, 65536, -65537]) }),
        FieldType::Long => Val::Long(b as i64),
        FieldType::Short => Val::Short(if r.bool() { b as i16 } else { *r.pick(&[0, -1, 1, i16::MAX, i16::MIN, 255, 256, -256]) }),
        FieldType::String => Val::Str(gen_text(r, maxstr)),
        FieldType::Boolean => Val::Bool(b & 1 == 1),
        FieldType::ByteBuf => Val::Buf(r.bytes((b % 5) as usize)),
    }
}

/// column counts with mass around multiples of 8, where the null bitset grows
pub fn gen_cols(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(10) {
        0 => 0,
        1 => 1,
        2 | 3 => r.urange(2, 6),
        4 => *r.pick(&[7usize, 8, 9, 15, 16, 17]),
        5 => *r.pick(&[23usize, 24, 25, 31, 32, 33, 63, 64, 65]),
        6 => *r.pick(&[127usize, 128, 129, 255, 256, 257, 300]),
        7 | 8 => r.urange(1, 20),
        _ => r.urange(1, max),
    };
    n.min(max)
}

pub fn gen_name(r: &mut Rng, i: usize) -> String {
    match r.below(8) {
        0 => format!("c{}", i),
        1 => format!("Column {}", i),
        2 => format!("n{}é漢", i),
        3 => {
            let t: String = gen_text(r, 30).chars().filter(|c| !c.is_control()).collect();
            format!("{}x{}", t, i)
        }
        _ => format!("{}{}", ["price", "size", "sym", "bid", "ask", "X", "a_b"][r.us(7)], i),
    }
}

pub fn gen_hdr(r: &mut Rng, cols: usize) -> Hdr {
    let one = if r.one_in(4) { Some(*r.pick(&TYPES)) } else { None };
    Hdr {
        names: (0..cols).map(|i| gen_name(r, i)).collect(),
        types: (0..cols).map(|_| one.unwrap_or_else(|| *r.pick(&TYPES))).collect(),
    }
}

/// non-decreasing timestamps in several styles
pub fn gen_ts(r: &mut Rng, n: usize) -> Vec<u64> {
    let style = r.below(8);
    let mut out = Vec::with_capacity(n);
    let base = match r.below(5) {
        0 => 0,
        1 => r.below(10),
        2 => 1_500_000_000_000_000_000 + r.below(1_000_000_000_000),
        3 => u64::MAX - r.below(50),
        _ => r.next() >> r.below(60),
    };
    let mut t = base;
    for _ in 0..n {
        out.push(t);
        let d = match style {
            0 => 0,
            1 => r.below(2),
            2 => r.below(4),
            3 => 1,
            4 => r.below(1_000_000_000_000),
            5 => if r.one_in(5) { r.next() >> r.below(64) } else { 0 },
            6 => if r.one_in(3) { 1 } else { 0 },
            _ => 1_000_000_000,
        };
        t = t.saturating_add(d);
    }
    out
}

pub fn gen_rows(r: &mut Rng, hdr: &Hdr, n: usize, maxstr: usize) -> Vec<MRow> {
    let ts = gen_ts(r, n);
    let nullmode = r.below(5);
    ts.into_iter()
        .enumerate()
        .map(|(k, ts)| MRow {
            ts,
            v: (0..hdr.len())
                .map(|c| {
                    let null = match nullmode {
                        0 => false,
                        1 => true,
                        2 => r.bool(),
                        3 => r.one_in(8),
                        // exactly one null that walks over the columns
                        _ => hdr.len() > 0 && c == k % hdr.len(),
                    };
                    if null {
                        Val::Null
                    } else {
                        gen_val(r, hdr.types[c], maxstr)
                    }
                })
                .collect(),
        })
        .collect()
}

pub fn table_shape(t: &Table) -> String {
    let nulls: usize = t.rows.iter().map(|r| r.v.iter().filter(|v| **v == Val::Null).count()).sum();
    format!("{}x{} nulls {} {:?}", t.hdr.len(), t.rows.len(), nulls, t.hdr.types.iter().take(20).collect::<Vec<_>>())
}
