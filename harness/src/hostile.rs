//! Hostile inputs: damaged, malicious and meaningless bytes, options and texts.
use crate::comp::{self, FMTS};
use crate::dc::{self, Style};
use crate::probes::CsvOpt;
use crate::props::formats::{gen_content, gen_csv_content, gen_table};
use crate::rng::Rng;
use chopper::cli::util::YesNoAuto;
use chopper::source::csv_configs::{TimestampColConfig, TimestampFmtConfig};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::tz::ChopperTz;

pub struct Hostile {
    /// file name, with an extension or without
    pub name: String,
    pub data: Vec<u8>,
    pub format: Option<String>,
    pub opt: CsvOpt,
    /// options as a text, and as arguments of the tool
    pub args: Vec<String>,
    pub kind: &'static str,
    pub what: String,
    /// LZ4Block container with a chunk that claims to be that long
    pub jblock_claim: u64,
}

const INTERESTING: [u64; 24] = [
    0,
    1,
    2,
    7,
    8,
    9,
    0x7f,
    0x80,
    0xff,
    0x100,
    0x7fff,
    0x8000,
    0xffff,
    0x10000,
    0xff_ffff,
    0x0fff_ffff,
    0x3fff_ffff,
    0x7fff_ffff,
    0x8000_0000,
    0xffff_fffe,
    0xffff_ffff,
    0x7fff_ffff_ffff_ffff,
    0x8000_0000_0000_0000,
    u64::MAX,
];

/// changes bytes here and there
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>, times: usize) {
    for _ in 0..times {
        let n = b.len();
        if n == 0 {
            b.extend(r.bytes(3));
            continue;
        }
        // fields that steer decoders are mostly near the start or the end
        let at = match r.below(4) {
            0 => r.us(n.min(48)),
            1 => n - 1 - r.us(n.min(64)),
            _ => r.us(n),
        };
        match r.below(13) {
            0 | 1 => b[at] ^= 1 << r.below(8),
            2 => b[at] = r.next() as u8,
            3 => b[at] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, b'"', b'\n', b'\r', b',']),
            4 | 5 => {
                let w = *r.pick(&[1usize, 2, 2, 4, 4, 8]);
                let v = r.pick(&INTERESTING).to_be_bytes();
                let mut v = v[8 - w..].to_vec();
                if r.bool() {
                    v.reverse();
                }
                for (k, x) in v.iter().enumerate() {
                    if at + k < n {
                        b[at + k] = *x;
                    }
                }
            }
            6 => {
                // a number moved by a little
                b[at] = b[at].wrapping_add(r.irange(-3, 3) as u8);
            }
            7 => b.truncate(at),
            8 => {
                let k = r.us(9);
                let ins = r.bytes(k);
                b.splice(at..at, ins);
            }
            9 => {
                let k = (at + 1 + r.us(8)).min(n);
                b.drain(at..k);
            }
            10 => {
                // a piece again
                let k = (at + 1 + r.us(64)).min(n);
                let p = b[at..k].to_vec();
                let to = r.us(n + 1);
                b.splice(to..to, p);
            }
            11 => {
                let to = r.us(n);
                b.swap(at, to);
            }
            _ => {
                let k = (at + 1 + r.us(16)).min(n);
                let x = *r.pick(&[0u8, 0xff]);
                for y in &mut b[at..k] {
                    *y = x;
                }
            }
        }
    }
}

/// text made of pieces that mean something to a parser of csv or of times
pub fn soup(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut o = Vec::new();
    for _ in 0..n {
        match r.below(26) {
            0 | 1 => o.push(b','),
            2 | 3 => o.push(b'\n'),
            4 => o.extend(b"\r\n"),
            5 => o.push(b'"'),
            6 => o.extend(b"\"\""),
            7 => o.push(*r.pick(&[b'\t', b' ', b';', b'|', 0, b'\r', 0x0b, 0x1a, 0x7f])),
            8 => o.extend(["é", "漢", "🦀", "\u{feff}", "\u{2028}", "\u{130}", "ß", "\u{0}"][r.us(8)].bytes()),
            9 => o.extend(r.bytes(1)),
            10 => o.extend([&[0xc3u8][..], &[0xe6, 0xbc], &[0xff], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc0, 0x80]][r.us(6)]),
            11..=13 => o.extend(num(r).bytes()),
            14..=17 => o.extend(time_text(r).bytes()),
            18..=20 => o.extend(col_name(r).bytes()),
            21 => o.extend(["nan", "inf", "-inf", "1e999", "-0", "true", "null", "NULL"][r.us(8)].bytes()),
            22 if r.one_in(8) => {
                let n = r.size(20_000);
                let c = *r.pick(&[b'a', b',', b'"', b'\n', b' ', b'\r', 0u8]);
                o.extend(std::iter::repeat(c).take(n));
            }
            _ => o.extend(["abc", "x", "", "price"][r.us(4)].bytes()),
        }
    }
    o
}

fn num(r: &mut Rng) -> String {
    match r.below(8) {
        0 => format!("{}", r.pick(&INTERESTING)),
        1 => format!("-{}", r.next()),
        2 => "9".repeat(r.urange(1, 40)),
        3 => format!("{}.{}", r.next() as u32, r.next() as u16),
        4 => format!("{}", r.range(630_000_000, 2_000_000_000)),
        5 => format!("{}", r.range(630_000_000_000_000_000, 2_000_000_000_000_000_000)),
        6 => format!("+{}", r.next() as u32),
        _ => format!("{}", r.below(100)),
    }
}

fn col_name(r: &mut Rng) -> String {
    const N: [&str; 22] = [
        "time", "date", "Time", "DATE", "timeSeconds", "timeMillis", "TIMEMICROS", "timenanos", "tradeDate", "tradeTime", "tradeTimeNanos", "timetime", "timetimemillis", "İtime", "timeİnanos", "xtimeyseconds", "datetime", "timedate", "timeseconds", "time ", "ßdate", "seconds",
    ];
    r.pick(&N).to_string()
}

/// like a time, but not always
pub fn time_text(r: &mut Rng) -> String {
    let y = *r.pick(&["0000", "1969", "1970", "2020", "2262", "2554", "9999", "12345", "-001", "+262143", "262144", "99999999", ""]);
    let mo = *r.pick(&["00", "01", "02", "12", "13", "7", ""]);
    let d = *r.pick(&["00", "01", "29", "30", "31", "32", "5", ""]);
    let h = *r.pick(&["00", "02", "23", "24", "9", "25", ""]);
    let mi = *r.pick(&["00", "30", "59", "60", "5"]);
    let s = *r.pick(&["00", "59", "60", "61", "5", ""]);
    let f = *r.pick(&["", ".", ".0", ".123456789", ".1234567890123", "123", ".999999999"]);
    let z = *r.pick(&["", "", "Z", "+00:00", "-05:00", "+99:99", "+23:59", "-24:00", " UTC", "+0", "z"]);
    let mut t = match r.below(8) {
        0 => format!("{}{}{}.{}{}{}{}", y, mo, d, h, mi, s, f),
        1 => format!("{}{}{} {}:{}:{}{}", y, mo, d, h, mi, s, f),
        2 => format!("{}/{}/{}-{}:{}:{}{}", y, mo, d, h, mi, s, f),
        3 => format!("{}-{}-{}T{}:{}:{}{}{}", y, mo, d, h, mi, s, f, z),
        4 => format!("{}{}{}-{}:{}:{}{}", y, mo, d, h, mi, s, f),
        5 => format!("{}{}{}", y, mo, d),
        6 => format!("{}:{}:{}{}", h, mi, s, f),
        _ => format!("{}{}", y, mo),
    };
    // characters of several bytes in place of others, or between them
    if r.one_in(6) && !t.is_empty() {
        let mut c: Vec<char> = t.chars().collect();
        for _ in 0..r.urange(1, 2) {
            let i = r.us(c.len());
            let x = *r.pick(&['é', '漢', '🦀', '\u{301}', '٣', '：', '−', '\u{2028}', '\u{a0}']);
            match r.below(3) {
                0 => c.insert(i, x),
                1 => c[i] = x,
                _ => c.push(x),
            }
        }
        t = c.into_iter().collect();
    } else if r.one_in(6) && !t.is_empty() {
        let mut b = t.into_bytes();
        let n = r.urange(1, 3);
        mutate(r, &mut b, n);
        t = String::from_utf8_lossy(&b).into_owned();
    }
    t
}

pub fn format_text(r: &mut Rng) -> String {
    const F: [&str; 44] = [
        "%Y", "%C", "%y", "%m", "%b", "%B", "%h", "%d", "%e", "%a", "%A", "%w", "%u", "%U", "%W", "%G", "%g", "%V", "%j", "%D", "%x", "%F", "%v", "%H", "%k", "%I", "%l", "%P", "%p", "%M", "%S", "%f", "%.f", "%.3f", "%.6f", "%.9f", "%3f", "%6f", "%9f", "%z", "%:z", "%s", "%+", "%Z",
    ];
    match r.below(6) {
        0 => r.pick(&["%Y%m%d", "%Y%m%d %H:%M:%S", "%+", "%s", "%Y-%m-%dT%H:%M:%S%.f%:z", "%Y%m%d.%H%M%S%3f"]).to_string(),
        1 => {
            let n = r.us(6);
            String::from_utf8_lossy(&soup(r, n)).into_owned()
        }
        _ => {
            let mut s = String::new();
            for _ in 0..r.urange(1, 7) {
                match r.below(8) {
                    0 => s.push_str(*r.pick(&["-", ":", " ", "T", "#", "%%", "%", "%n", "%t", "%-d", "%_H", "%0e", "%-", "%Q", "%:", "%.", "%.4f", "é"])),
                    _ => s.push_str(*r.pick(&F)),
                }
            }
            s
        }
    }
}

pub fn zone_text(r: &mut Rng) -> String {
    match r.below(5) {
        0 => crate::tz::gen_zone(r).name().to_string(),
        1 => r.pick(&["", "utc", "UTC ", "America/New_york", "GMT+25", "../etc/localtime", "É", "Europe/", "/"]).to_string(),
        2 => {
            let n = r.us(4);
            String::from_utf8_lossy(&soup(r, n)).into_owned()
        }
        _ => r.pick(&["UTC", "America/New_York", "Europe/Warsaw", "Pacific/Apia", "Asia/Kolkata"]).to_string(),
    }
}

/// options of csv inputs, any that can be given
fn opt(r: &mut Rng) -> (CsvOpt, Vec<String>) {
    let mut args: Vec<String> = Vec::new();
    let mut o = CsvOpt::default();
    if r.one_in(3) {
        let d = match r.below(6) {
            0 => {
                let n = r.us(3);
                String::from_utf8_lossy(&r.bytes(n)).into_owned()
            }
            1 => String::from(r.below(128) as u8 as char),
            2 => r"\t".to_string(),
            3 => r.pick(&["\"", "\n", "\r", "\0", "é", "", "ab", "0", "."]).to_string(),
            _ => r.pick(&[",", "\t", " ", "|", ";"]).to_string(),
        };
        args.push(format!("--csv-in-delimiter={}", d));
        o.delim = Some(d);
    }
    o.has_header = *r.pick(&[YesNoAuto::Yes, YesNoAuto::No, YesNoAuto::Auto, YesNoAuto::Auto]);
    match o.has_header {
        YesNoAuto::Yes => args.push("--csv-in-has-header=yes".into()),
        YesNoAuto::No => args.push("--csv-in-has-header=no".into()),
        YesNoAuto::Auto => {}
    }
    let idx = |r: &mut Rng| -> usize {
        match r.below(5) {
            0 => *r.pick(&[usize::MAX, 1 << 32, 1 << 20, 100]),
            _ => r.us(6),
        }
    };
    match r.below(8) {
        0 => {
            let i = idx(r);
            args.push(format!("--csv-in-ts-col={}", i));
            o.col = TimestampColConfig::Index(i);
        }
        1 => {
            let n = if r.bool() { col_name(r) } else { String::from_utf8_lossy(&soup(r, 2)).into_owned() };
            args.push(format!("--csv-in-ts-col={}", n));
            o.col = TimestampColConfig::Name(n);
        }
        2 => {
            let (d, t) = (idx(r), idx(r));
            args.push(format!("--csv-in-ts-col-date={}", d));
            args.push(format!("--csv-in-ts-col-time={}", t));
            o.col = TimestampColConfig::DateTimeIndex(d, t);
        }
        3 => {
            let (d, t) = (col_name(r), col_name(r));
            args.push(format!("--csv-in-ts-col-date={}", d));
            args.push(format!("--csv-in-ts-col-time={}", t));
            o.col = TimestampColConfig::DateTimeName(d, t);
        }
        _ => {}
    }
    match r.below(6) {
        0 => {
            let u = *r.pick(&[TimestampUnits::Seconds, TimestampUnits::Millis, TimestampUnits::Micros, TimestampUnits::Nanos]);
            let s = match u {
                TimestampUnits::Seconds => "s",
                TimestampUnits::Millis => "ms",
                TimestampUnits::Micros => "us",
                TimestampUnits::Nanos => "ns",
            };
            args.push(format!("--csv-in-epoch={}", s));
            o.fmt = TimestampFmtConfig::Epoch(u);
        }
        1 => {
            let f = format_text(r);
            args.push(format!("--csv-in-ts-fmt={}", f));
            o.fmt = TimestampFmtConfig::Explicit(f);
        }
        2 => {
            let (d, t) = (format_text(r), format_text(r));
            args.push(format!("--csv-in-ts-fmt-date={}", d));
            args.push(format!("--csv-in-ts-fmt-time={}", t));
            o.fmt = TimestampFmtConfig::DateTimeExplicit(d, t);
        }
        _ => {}
    }
    if r.bool() {
        let z = crate::tz::gen_zone(r);
        args.push(format!("-z{}", z.name()));
        o.tz = ChopperTz::from(z);
    }
    (o, args)
}

/// dc file whose fields say anything
fn dc_raw(r: &mut Rng) -> Vec<u8> {
    let mut o: Vec<u8> = Vec::new();
    o.extend(if r.one_in(20) { r.next() } else { 0x44434154u64 }.to_be_bytes());
    o.extend(if r.one_in(20) { r.next() as u16 } else { 2 }.to_be_bytes());
    let uh: u32 = match r.below(6) {
        0 => r.below(100) as u32,
        1 if r.one_in(4) => *r.pick(&INTERESTING) as u32,
        _ => 0,
    };
    o.extend(uh.to_be_bytes());
    let n = uh.min(100) as usize;
    o.extend(r.bytes(n));
    let n = match r.below(12) {
        0 => 0,
        1 if r.one_in(3) => r.us(20_000),
        _ => r.us(20),
    };
    let claim: u32 = match r.below(8) {
        0 => *r.pick(&INTERESTING) as u32,
        1 => (n as u32).wrapping_add(r.irange(-2, 2) as u32),
        _ => n as u32,
    };
    o.extend(claim.to_be_bytes());
    const T: [&str; 8] = ["B", "C", "D", "F", "I", "J", "S", "Ljava.lang.String;"];
    let mut types = Vec::new();
    for _ in 0..n {
        let k = r.us(10);
        let name = match r.below(6) {
            0 => vec![],
            1 if r.one_in(3) => soup(r, k),
            1 => String::from_utf8_lossy(&soup(r, k)).into_owned().into_bytes(),
            _ => col_name(r).into_bytes(),
        };
        let l: u32 = if r.one_in(200) { *r.pick(&INTERESTING) as u32 } else { name.len() as u32 };
        o.extend(l.to_be_bytes());
        o.extend(&name);
        let t = if r.one_in(150) { *r.pick(&["Z", "Ljava.lang.ByteBuffer;", "X", "", "II", "i"]) } else { *r.pick(&T) };
        types.push(t);
        let l: u32 = if r.one_in(300) { *r.pick(&INTERESTING) as u32 } else { t.len() as u32 };
        o.extend(l.to_be_bytes());
        o.extend(t.bytes());
        let h: u32 = if r.one_in(200) { *r.pick(&INTERESTING) as u32 } else { r.irange(-1, 6) as u32 };
        o.extend(h.to_be_bytes());
    }
    let rows = if n > 200 { r.us(3) } else { r.us(12) };
    for _ in 0..rows {
        o.extend(r.next().to_be_bytes());
        let bits: Vec<u8> = match r.below(4) {
            0 => vec![0; (n + 7) / 8],
            1 => vec![0xff; (n + 7) / 8],
            _ => r.bytes((n + 7) / 8),
        };
        for (i, t) in types.iter().enumerate() {
            if i == 0 {
                o.extend(&bits);
            }
            if bits[i / 8] >> (i % 8) & 1 == 1 {
                continue;
            }
            match *t {
                "B" => o.push(r.next() as u8),
                "C" | "S" => o.extend((r.next() as u16).to_be_bytes()),
                "F" | "I" => o.extend((r.next() as u32).to_be_bytes()),
                "D" | "J" => o.extend(r.next().to_be_bytes()),
                _ => {
                    let k = r.us(5);
                    let s = if r.one_in(12) { soup(r, k) } else { String::from_utf8_lossy(&soup(r, k)).into_owned().into_bytes() };
                    match r.below(40) {
                        0 => {
                            o.extend((*r.pick(&INTERESTING) as u16).to_be_bytes());
                        }
                        1 => {
                            o.extend((-1i16).to_be_bytes());
                            o.extend((*r.pick(&INTERESTING) as u32).to_be_bytes());
                        }
                        2 => {
                            o.extend((-1i16).to_be_bytes());
                            o.extend((s.len() as u32).to_be_bytes());
                        }
                        _ => o.extend((s.len() as u16).to_be_bytes()),
                    }
                    o.extend(&s);
                }
            }
        }
        if types.is_empty() {
            o.extend(&bits);
        }
    }
    o
}

/// plain content and whether it is csv
fn plain(r: &mut Rng) -> (Vec<u8>, bool, &'static str) {
    match r.below(10) {
        0..=2 => {
            let n = r.size(200);
            (soup(r, n), true, "csv soup")
        }
        3 | 4 => {
            // a header that names a time, and rows
            let mut o = Vec::new();
            let cols = r.urange(1, 4);
            for i in 0..cols {
                if i > 0 {
                    o.push(b',');
                }
                o.extend(col_name(r).bytes());
            }
            o.push(b'\n');
            for _ in 0..r.us(6) {
                for i in 0..cols {
                    if i > 0 {
                        o.push(b',');
                    }
                    o.extend(if r.bool() { time_text(r) } else { num(r) }.bytes());
                }
                o.push(b'\n');
            }
            (o, true, "csv of strange times")
        }
        5 => {
            let (a, b) = (r.us(40), r.us(200));
            let mut c = gen_csv_content(r, a, b, true).bytes;
            let n = r.urange(1, 4);
            mutate(r, &mut c, n);
            (c, true, "damaged csv")
        }
        6 | 7 => (dc_raw(r), false, "strange dc"),
        _ => {
            let t = gen_table(r, 60);
            let st = Style { user_header: if r.one_in(3) { r.bytes(5) } else { vec![] }, ..Style::default() };
            let mut b = dc::encode_styled(&t, &st, r);
            b.truncate(300_000);
            let n = r.urange(1, 4);
            mutate(r, &mut b, n);
            (b, false, "damaged dc")
        }
    }
}

/// start of a compressed file and meaningless bytes after it
fn magic(r: &mut Rng) -> Vec<u8> {
    let mut o: Vec<u8> = match r.below(9) {
        0 => vec![0x1f, 0x8b, 8, r.next() as u8],
        1 => vec![0x04, 0x22, 0x4d, 0x18, r.next() as u8, r.next() as u8],
        2 => vec![0x04, 0x22, 0x4d, 0x18, 0x40 | r.below(64) as u8, 0x40],
        3 => b"LZ4Block".to_vec(),
        4 => b"ZV\x01".to_vec(),
        5 => b"ZV\x00".to_vec(),
        6 => b"PK\x03\x04".to_vec(),
        7 => vec![0x28, 0xb5, 0x2f, 0xfd, r.next() as u8],
        _ => vec![0x50, 0x2a, 0x4d, 0x18],
    };
    let n = r.size(600);
    o.extend(r.bytes(n));
    if r.bool() {
        let n = r.urange(1, 3);
        mutate(r, &mut o, n);
    }
    o
}

/// Limits the lengths that chunks of an LZ4Block container claim: the decoder (outside of the repository) allocates
/// what they claim, which is a known finding that is shown by one case rather than by all of them. Returns the largest.
pub fn limit_jblock(b: &mut [u8]) -> u64 {
    let mut max = 0;
    let mut i = 0;
    while i + 21 <= b.len() {
        if &b[i..i + 8] == b"LZ4Block" {
            for o in [9, 13] {
                // keep them below 1 MB
                b[i + o + 2] &= 0x0f;
                b[i + o + 3] = 0;
                max = max.max(u32::from_le_bytes([b[i + o], b[i + o + 1], b[i + o + 2], b[i + o + 3]]) as u64);
            }
        }
        i += 1;
    }
    max
}

pub fn gen(r: &mut Rng) -> Hostile {
    let (csv_opt, args) = match r.below(5) {
        0 | 1 => {
            let z = crate::tz::gen_zone(r);
            (CsvOpt { tz: ChopperTz::from(z), ..CsvOpt::default() }, vec![format!("-z{}", z.name())])
        }
        2 => (CsvOpt::nanos(true, 0, ","), ["--csv-in-has-header=yes", "--csv-in-ts-col=0", "--csv-in-epoch=ns", "--csv-in-delimiter=,"].iter().map(|s| s.to_string()).collect()),
        _ => opt(r),
    };
    let mut h = Hostile { name: String::new(), data: vec![], format: None, opt: csv_opt, args, kind: "", what: String::new(), jblock_claim: 0 };
    match r.below(12) {
        0..=4 => {
            let (b, csv, what) = plain(r);
            h.data = b;
            h.kind = what;
            h.name = format!("a{}", if csv { ".csv" } else { ".dc" });
        }
        5 | 6 => {
            // valid container of a hostile content
            let (b, csv, what) = plain(r);
            let f = *r.pick(&FMTS);
            let ext = if csv { ".csv" } else { ".dc" };
            h.data = comp::encode(r, f, &b, &format!("a{}", ext), 3).bytes;
            h.kind = "hostile content in intact container";
            h.what = format!("{} in {:?}", what, f);
            h.name = format!("a{}{}", ext, f.ext());
        }
        7..=9 => {
            let mut c = gen_content(r, 60);
            if r.one_in(4) {
                c.bytes.truncate(r.us(40));
            }
            let f = *r.pick(&FMTS);
            let mut e = comp::encode(r, f, &c.bytes, &format!("a{}", c.ext()), 3);
            let n = r.urange(1, 5);
            mutate(r, &mut e.bytes, n);
            h.data = e.bytes;
            h.kind = "damaged container";
            h.what = format!("{:?} {}", f, e.what);
            h.name = format!("a{}{}", c.ext(), f.ext());
        }
        10 if r.one_in(3) => {
            // frames of a few bytes that claim windows of up to 104 MB
            let c = gen_content(r, 20);
            let n = r.urange(1, 12);
            for p in comp::parts(r, &c.bytes, n) {
                h.data.extend(b"\x28\xb5\x2f\xfd\0");
                h.data.push(if r.bool() { r.urange(0x70, 0x85) } else { r.urange(0, 0x85) } as u8);
                if r.one_in(8) {
                    // a block of one byte many times
                    let size = r.urange(1, 1 << 17) as u32;
                    h.data.extend(&(size << 3 | 2).to_le_bytes()[..3]);
                    h.data.push(b'\n');
                }
                h.data.extend(&((p.len() as u32) << 3 | 1).to_le_bytes()[..3]);
                h.data.extend(p);
            }
            h.kind = "windows of zst container";
            h.name = format!("a{}.zst", c.ext());
        }
        10 => {
            h.data = magic(r);
            h.kind = "magic number and noise";
            h.name = format!("a{}{}", *r.pick(&["", ".csv", ".dc"]), *r.pick(&["", ".gz", ".lz4", ".lzf", ".zip", ".zst"]));
        }
        _ => {
            let n = r.size(3000);
            h.data = if r.bool() { r.bytes(n) } else { vec![*r.pick(&[0u8, 0xff, b'\n', b'"', b','][..]); n] };
            h.kind = "noise";
            h.name = format!("a{}", *r.pick(&["", ".csv", ".dc", ".gz", ".lz4", ".lzf", ".zip", ".zst", ".csv.gz", ".dc.zst"]));
        }
    }
    // a name that says something else, or nothing
    match r.below(8) {
        0 => h.name = "a".into(),
        1 => h.name = format!("a{}", *r.pick(&[".csv", ".dc", ".gz", ".lz4", ".lzf", ".zip", ".zst", ".csv.gz", ".dc.lz4", ".dc.zip", ".csv.zst", ".gz.gz", "."])),
        2 => h.format = Some(r.pick(&[".csv", ".dc", ".gz", ".lz4", ".lzf", ".zst", ".zip", "csv", "dc", "csv.gz", ".dc.lz4", "", ".", "x"]).to_string()),
        _ => {}
    }
    h.jblock_claim = limit_jblock(&mut h.data);
    h.what = format!(
        "{} {} name {:?} format {:?} {} options {:?} {} bytes {:02x?}",
        h.kind,
        h.what,
        h.name,
        h.format,
        tell(&h.opt),
        h.args,
        h.data.len(),
        &h.data[..h.data.len().min(400)]
    );
    h
}

fn tell(o: &CsvOpt) -> String {
    format!("delimiter {:?} column {:?} format {:?}", o.delim, o.col, o.fmt)
}

/// every text of a row has to be valid; gives the number of texts
pub fn texts_ok(v: &chopper::chopper::types::Row) -> Result<u64, String> {
    let mut n = 0;
    for f in &v.field_values {
        if let chopper::chopper::types::FieldValue::String(s) = f {
            n += 1;
            if let Err(e) = std::str::from_utf8(s.as_bytes()) {
                return Err(format!("value that is not valid utf-8: {}: {:02x?}", e, &s.as_bytes()[..s.len().min(200)]));
            }
        }
    }
    Ok(n)
}
