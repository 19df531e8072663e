//! Independent encoder and decoder of the dc format, written from its description:
//! u64 magic 0x44434154, u16 version 2, u32 user header size and bytes, u32 field count,
//! per field: u32 sized name, u32 sized java type code, i32 display hint;
//! per row: u64 timestamp, ceil(fields / 8) bytes of null bits (lowest bit first), non-null values, all big endian;
//! strings are i16 sized, or -1 and u32 sized when longer than 32767 bytes.
use crate::model::*;
use crate::rng::Rng;
use chopper::chopper::types::FieldType;

pub fn code(t: FieldType) -> &'static str {
    match t {
        FieldType::Boolean => "Z",
        FieldType::Byte => "B",
        FieldType::ByteBuf => "Ljava.lang.ByteBuffer;",
        FieldType::Char => "C",
        FieldType::Double => "D",
        FieldType::Float => "F",
        FieldType::Int => "I",
        FieldType::Long => "J",
        FieldType::Short => "S",
        FieldType::String => "Ljava.lang.String;",
    }
}

/// liberties that a writer of the format may take
#[derive(Default, Clone, Debug)]
pub struct Style {
    pub user_header: Vec<u8>,
    pub hints: bool,
    pub long_strings: bool,
    pub unnamed: bool,
}

pub fn sized(out: &mut Vec<u8>, s: &str) {
    out.extend((s.len() as u32).to_be_bytes());
    out.extend(s.as_bytes());
}

pub fn header(h: &Hdr, st: &Style, r: &mut Rng) -> Vec<u8> {
    let mut o = Vec::new();
    o.extend(0x44434154u64.to_be_bytes());
    o.extend(2u16.to_be_bytes());
    o.extend((st.user_header.len() as u32).to_be_bytes());
    o.extend(&st.user_header);
    o.extend((h.len() as u32).to_be_bytes());
    for i in 0..h.len() {
        let n = if st.unnamed && h.names[i] == format!("col_{}", i) { "" } else { &h.names[i] };
        sized(&mut o, n);
        sized(&mut o, code(h.types[i]));
        let hint: i32 = if st.hints { r.irange(-1, 6) as i32 } else { -1 };
        o.extend(hint.to_be_bytes());
    }
    o
}

pub fn row(o: &mut Vec<u8>, m: &MRow, st: &Style, r: &mut Rng) {
    o.extend(m.ts.to_be_bytes());
    let n = m.v.len();
    let mut bits = vec![0u8; n / 8 + (n % 8 != 0) as usize];
    for (i, v) in m.v.iter().enumerate() {
        if *v == Val::Null {
            bits[i / 8] |= 1 << (i % 8);
        }
    }
    o.extend(bits);
    for v in &m.v {
        match v {
            Val::Null => {}
            Val::Byte(x) => o.push(*x),
            Val::Char(x) => o.extend(x.to_be_bytes()),
            Val::Short(x) => o.extend(x.to_be_bytes()),
            Val::Int(x) => o.extend(x.to_be_bytes()),
            Val::Long(x) => o.extend(x.to_be_bytes()),
            Val::Float(x) => o.extend(x.to_be_bytes()),
            Val::Double(x) => o.extend(x.to_be_bytes()),
            Val::Str(s) => {
                if s.len() > 32767 || st.long_strings && r.bool() {
                    o.extend((-1i16).to_be_bytes());
                    o.extend((s.len() as u32).to_be_bytes());
                } else {
                    o.extend((s.len() as i16).to_be_bytes());
                }
                o.extend(s.as_bytes());
            }
            Val::Bool(_) | Val::Buf(_) => unreachable!(),
        }
    }
}

pub fn encode(t: &Table) -> Vec<u8> {
    encode_styled(t, &Style::default(), &mut Rng::new(0))
}

pub fn encode_styled(t: &Table, st: &Style, r: &mut Rng) -> Vec<u8> {
    let mut o = header(&t.hdr, st, r);
    for m in &t.rows {
        row(&mut o, m, st, r);
    }
    o
}

/// offsets at which the header and each row end
pub fn boundaries(t: &Table) -> Vec<usize> {
    let mut r = Rng::new(0);
    let st = Style::default();
    let mut o = header(&t.hdr, &st, &mut r);
    let mut b = vec![o.len()];
    for m in &t.rows {
        row(&mut o, m, &st, &mut r);
        b.push(o.len());
    }
    b
}

struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err(format!("need {} bytes, {} left", n, self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn num(&mut self, n: usize) -> Result<u64, String> {
        Ok(self.take(n)?.iter().fold(0u64, |a, b| a << 8 | *b as u64))
    }
    fn text(&mut self, n: usize) -> Result<String, String> {
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
}

pub fn decode(b: &[u8]) -> Result<Table, String> {
    let mut c = Cur(b);
    if c.num(8)? != 0x44434154 {
        return Err("magic".into());
    }
    if c.num(2)? != 2 {
        return Err("version".into());
    }
    let u = c.num(4)? as usize;
    c.take(u)?;
    let n = c.num(4)? as usize;
    let mut t = Table::default();
    for _ in 0..n {
        let l = c.num(4)? as usize;
        t.hdr.names.push(c.text(l)?);
        let l = c.num(4)? as usize;
        let ty = c.text(l)?;
        let ty = TYPES.iter().find(|t| code(**t) == ty).ok_or(format!("type {}", ty))?;
        t.hdr.types.push(*ty);
        let hint = c.num(4)? as u32 as i32;
        if hint != -1 {
            return Err(format!("display hint {}", hint));
        }
    }
    while !c.0.is_empty() {
        let ts = c.num(8)?;
        let bits = c.take(n / 8 + (n % 8 != 0) as usize)?.to_vec();
        for i in n..bits.len() * 8 {
            if bits[i / 8] >> (i % 8) & 1 == 1 {
                return Err(format!("null bit {} set beyond {} columns", i, n));
            }
        }
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            v.push(if bits[i / 8] >> (i % 8) & 1 == 1 {
                Val::Null
            } else {
                match t.hdr.types[i] {
                    FieldType::Byte => Val::Byte(c.num(1)? as u8),
                    FieldType::Char => Val::Char(c.num(2)? as u16),
                    FieldType::Short => Val::Short(c.num(2)? as u16 as i16),
                    FieldType::Int => Val::Int(c.num(4)? as u32 as i32),
                    FieldType::Long => Val::Long(c.num(8)? as i64),
                    FieldType::Float => Val::Float(c.num(4)? as u32),
                    FieldType::Double => Val::Double(c.num(8)?),
                    FieldType::String => {
                        let l = c.num(2)? as u16;
                        let l = if l == 0xffff {
                            let l = c.num(4)? as usize;
                            if l <= 32767 {
                                return Err(format!("long form for a string of {} bytes", l));
                            }
                            l
                        } else if l > 32767 {
                            return Err(format!("string length {}", l as i16));
                        } else {
                            l as usize
                        };
                        Val::Str(c.text(l)?)
                    }
                    _ => unreachable!(),
                }
            });
        }
        t.rows.push(MRow { ts, v });
    }
    Ok(t)
}
