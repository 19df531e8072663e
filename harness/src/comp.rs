//! Encoders for the supported compressed formats, independent of the decoders that chopper uses.
use crate::rng::Rng;
use std::io::Write;
use std::process::{Command, Stdio};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt {
    Gz,
    Lz4,
    Lz4Block,
    Lzf,
    Zst,
    Zip,
}
pub const FMTS: [Fmt; 6] = [Fmt::Gz, Fmt::Lz4, Fmt::Lz4Block, Fmt::Lzf, Fmt::Zst, Fmt::Zip];
impl Fmt {
    pub fn ext(self) -> &'static str {
        match self {
            Fmt::Gz => ".gz",
            Fmt::Lz4 | Fmt::Lz4Block => ".lz4",
            Fmt::Lzf => ".lzf",
            Fmt::Zst => ".zst",
            Fmt::Zip => ".zip",
        }
    }
}

/// encoded data, what is special about it, and offsets that end a part which is complete in itself
#[derive(Clone, Debug)]
pub struct Enc {
    pub bytes: Vec<u8>,
    pub what: String,
    /// truncation to these lengths leaves a well-formed file
    pub complete_at: Vec<usize>,
    /// every byte of data is protected by a checksum
    pub checked: bool,
    /// ranges of bytes that hold nothing but encoded data (no headers)
    pub data: Vec<(usize, usize)>,
    /// ranges of bytes that hold checksums of data
    pub sums: Vec<(usize, usize)>,
    /// length up to which a cut leaves an incomplete file
    pub essential: usize,
    /// linked lz4 blocks with a stored one among them
    pub linked_stored: bool,
}
impl Enc {
    fn new(bytes: Vec<u8>, what: String) -> Enc {
        Enc { bytes, what, complete_at: vec![], checked: false, data: vec![], sums: vec![], essential: usize::MAX, linked_stored: false }
    }
}

/// splits data in n parts, some of them possibly empty
pub fn parts<'a>(r: &mut Rng, data: &'a [u8], n: usize) -> Vec<&'a [u8]> {
    let mut cuts: Vec<usize> = (1..n).map(|_| if r.one_in(8) { 0 } else { r.us(data.len() + 1) }).collect();
    cuts.sort();
    let mut out = Vec::new();
    let mut at = 0;
    for c in cuts {
        out.push(&data[at..c]);
        at = c;
    }
    out.push(&data[at..]);
    out
}

pub fn encode(r: &mut Rng, fmt: Fmt, data: &[u8], inner_name: &str, max_parts: usize) -> Enc {
    match fmt {
        Fmt::Gz => gz(r, data, max_parts),
        Fmt::Lz4 => lz4(r, data, max_parts),
        Fmt::Lz4Block => lz4block(r, data),
        Fmt::Lzf => lzf(r, data),
        Fmt::Zst => zst(r, data, max_parts),
        Fmt::Zip => zip(r, data, inner_name),
    }
}

/// parts with very many empty ones between them, none where that isn't possible
pub fn with_empty_parts(r: &mut Rng, fmt: Fmt, data: &[u8], inner_name: &str, count: usize) -> Option<Enc> {
    let blocks = r.bool();
    let empty: Vec<u8> = match fmt {
        // one member of many empty stored blocks, or many members of one
        Fmt::Gz if blocks => {
            let mut b = b"\x1f\x8b\x08\0\0\0\0\0\0\xff".to_vec();
            b.extend(b"\0\0\0\xff\xff".repeat(count));
            b.extend(b"\x01\0\0\xff\xff\0\0\0\0\0\0\0\0");
            b
        }
        Fmt::Gz => b"\x1f\x8b\x08\0\0\0\0\0\0\xff\x03\0\0\0\0\0\0\0\0\0".repeat(count),
        Fmt::Zst if blocks => {
            let mut b = b"\x28\xb5\x2f\xfd\x20\0".to_vec();
            b.extend(b"\0\0\0".repeat(count));
            b.extend(b"\x01\0\0");
            b
        }
        Fmt::Zst => b"\x28\xb5\x2f\xfd\x20\0\x01\0\0".repeat(count),
        Fmt::Lz4 => {
            let desc = [0x60u8, 0x40];
            let mut b = 0x184D2204u32.to_le_bytes().to_vec();
            b.extend(desc);
            b.push((xxh32(0, &desc) >> 8) as u8);
            b.extend(0u32.to_le_bytes());
            b.repeat(count)
        }
        _ => return None,
    };
    let n = r.urange(1, 3);
    let before = r.us(n);
    let mut e = Enc::new(vec![], String::new());
    for (i, p) in parts(r, data, n).into_iter().enumerate() {
        if i == before {
            e.bytes.extend(&empty);
        }
        let one = encode(r, fmt, p, inner_name, 1);
        e.bytes.extend(&one.bytes);
        e.linked_stored |= one.linked_stored;
        e.what += &format!("{}{}, ", if i == before { format!("{} empty {}, ", count, if blocks { "blocks" } else { "parts" }) } else { String::new() }, one.what);
    }
    Some(e)
}

// ------------------------------------------------------------------ gzip

pub fn gz(r: &mut Rng, data: &[u8], max_parts: usize) -> Enc {
    let n = if max_parts > 1 && r.one_in(2) { r.urange(2, max_parts) } else { 1 };
    let mut e = Enc::new(vec![], String::new());
    let mut notes = Vec::new();
    for (i, p) in parts(r, data, n).into_iter().enumerate() {
        if i > 0 {
            e.complete_at.push(e.bytes.len());
        }
        let level = *r.pick(&[0u32, 1, 1, 6, 6, 9]);
        let mut flg = 0u8;
        let mut head = vec![0x1f, 0x8b, 8, 0];
        head.extend(if r.bool() { [0u8; 4] } else { (r.next() as u32).to_le_bytes() });
        head.push(*r.pick(&[0u8, 2, 4]));
        head.push(*r.pick(&[255u8, 3, 0]));
        if r.one_in(4) {
            flg |= 4;
            let k = r.size(60);
            head.extend((k as u16).to_le_bytes());
            head.extend(r.bytes(k));
        }
        if r.one_in(4) {
            flg |= 8;
            head.extend(b"some name.csv\0");
        }
        if r.one_in(4) {
            flg |= 16;
            head.extend(b"a comment\0");
        }
        if r.one_in(6) {
            flg |= 1;
        }
        if r.one_in(6) {
            flg |= 2;
        }
        head[3] = flg;
        if flg & 2 != 0 {
            let c = crc(&head) as u16;
            head.extend(c.to_le_bytes());
        }
        e.bytes.extend(head);
        let s = e.bytes.len();
        e.bytes.extend(deflate(r, p, level));
        e.data.push((s, e.bytes.len()));
        e.sums.push((e.bytes.len(), e.bytes.len() + 4));
        e.bytes.extend(crc(p).to_le_bytes());
        e.bytes.extend((p.len() as u32).to_le_bytes());
        notes.push(format!("{}@{}{}", p.len(), level, if flg != 0 { format!("f{:x}", flg) } else { String::new() }));
    }
    e.checked = true;
    e.what = format!("gzip members {}", notes.join(" "));
    e
}

fn crc(b: &[u8]) -> u32 {
    let mut h = crc32fast::Hasher::new();
    h.update(b);
    h.finalize()
}

fn deflate(r: &mut Rng, p: &[u8], level: u32) -> Vec<u8> {
    let mut enc = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(level));
    if !p.is_empty() && r.one_in(4) {
        // flush in the middle makes empty stored blocks
        let k = r.us(p.len() + 1);
        enc.write_all(&p[..k]).unwrap();
        enc.flush().unwrap();
        enc.write_all(&p[k..]).unwrap();
    } else {
        enc.write_all(p).unwrap();
    }
    enc.finish().unwrap()
}

// ------------------------------------------------------------------ lz4 blocks

/// compresses a block; matches may reach back into hist[..start]
pub fn lz4_raw(r: &mut Rng, hist: &[u8], start: usize, max_back: usize) -> Vec<u8> {
    let n = hist.len();
    let mut out = Vec::new();
    let mut table: std::collections::HashMap<[u8; 4], usize> = std::collections::HashMap::new();
    let lo = start.saturating_sub(max_back);
    let key = |i: usize| [hist[i], hist[i + 1], hist[i + 2], hist[i + 3]];
    for i in lo..start.saturating_sub(3) {
        table.insert(key(i), i);
    }
    let emit = |out: &mut Vec<u8>, lit: &[u8], m: Option<(usize, usize)>| {
        let ml = m.map(|(_, l)| l - 4).unwrap_or(0);
        out.push((lit.len().min(15) as u8) << 4 | ml.min(15) as u8);
        let ext = |out: &mut Vec<u8>, mut v: usize| {
            while v >= 255 {
                out.push(255);
                v -= 255;
            }
            out.push(v as u8);
        };
        if lit.len() >= 15 {
            ext(out, lit.len() - 15);
        }
        out.extend(lit);
        if let Some((off, _)) = m {
            out.extend((off as u16).to_le_bytes());
            if ml >= 15 {
                ext(out, ml - 15);
            }
        }
    };
    let mut i = start;
    let mut lit = start;
    let skip = if r.one_in(4) { r.urange(1, 40) as u64 } else { 0 };
    // last match has to start 12 bytes before the end, last 5 bytes are literals
    while n >= 12 && i + 12 <= n {
        let c = table.get(&key(i)).copied();
        table.insert(key(i), i);
        match c {
            Some(j) if i - j <= 65535 && j >= lo && !(skip > 0 && r.one_in(skip)) => {
                let mut l = 4;
                while i + l < n - 5 && hist[j + l] == hist[i + l] {
                    l += 1;
                }
                if i + l > n - 5 {
                    i += 1;
                    continue;
                }
                emit(&mut out, &hist[lit..i], Some((i - j, l)));
                for k in i + 1..(i + l).min(n.saturating_sub(3)) {
                    table.insert(key(k), k);
                }
                i += l;
                lit = i;
            }
            _ => i += 1,
        }
    }
    emit(&mut out, &hist[lit..], None);
    out
}

fn xxh32(seed: u32, b: &[u8]) -> u32 {
    use std::hash::Hasher;
    let mut h = twox_hash::XxHash32::with_seed(seed);
    h.write(b);
    h.finish() as u32
}

pub fn lz4(r: &mut Rng, data: &[u8], max_parts: usize) -> Enc {
    let n = if max_parts > 1 && r.one_in(2) { r.urange(2, max_parts) } else { 1 };
    let mut e = Enc::new(vec![], String::new());
    let mut notes = Vec::new();
    let mut checked = true;
    for (i, p) in parts(r, data, n).into_iter().enumerate() {
        if i > 0 {
            e.complete_at.push(e.bytes.len());
        }
        let (size_id, block) = *r.pick(&[(4u8, 64usize << 10), (5, 256 << 10), (6, 1 << 20), (7, 4 << 20)]);
        let linked = r.one_in(3);
        let bsum = r.bool();
        let csum = r.bool();
        let csize = r.bool();
        checked &= bsum || csum;
        let flg = 0x40 | if linked { 0 } else { 0x20 } | if bsum { 0x10 } else { 0 } | if csize { 8 } else { 0 } | if csum { 4 } else { 0 };
        e.bytes.extend(0x184D2204u32.to_le_bytes());
        let mut desc = vec![flg, size_id << 4];
        if csize {
            desc.extend((p.len() as u64).to_le_bytes());
        }
        let hc = (xxh32(0, &desc) >> 8) as u8;
        e.bytes.extend(desc);
        e.bytes.push(hc);
        let mut at = 0;
        let mut nblocks = 0;
        let mut stored = 0;
        while at < p.len() {
            // blocks may be smaller than their maximum
            let max = if r.one_in(3) { r.urange(1, block) } else { block };
            let end = (at + max).min(p.len());
            let raw = &p[at..end];
            let c = lz4_raw(r, &p[..end], at, if linked { 65535 } else { 0 });
            // linked blocks are stored only when nothing else is possible
            let store = c.len() >= raw.len() || !linked && r.one_in(8);
            let body: &[u8] = if store { raw } else { &c };
            stored += store as usize;
            e.bytes.extend((body.len() as u32 | if store { 0x80000000 } else { 0 }).to_le_bytes());
            let s = e.bytes.len();
            e.bytes.extend(body);
            e.data.push((s, e.bytes.len()));
            if bsum {
                e.bytes.extend(xxh32(0, body).to_le_bytes());
            }
            at = end;
            nblocks += 1;
        }
        e.linked_stored |= linked && stored > 0 && nblocks > 1;
        e.bytes.extend(0u32.to_le_bytes());
        if csum {
            e.sums.push((e.bytes.len(), e.bytes.len() + 4));
            e.bytes.extend(xxh32(0, p).to_le_bytes());
        }
        notes.push(format!("{}:b{}{}{}{}{}/{}s{}", p.len(), size_id, if linked { "L" } else { "" }, if bsum { "B" } else { "" }, if csum { "C" } else { "" }, if csize { "S" } else { "" }, nblocks, stored));
    }
    e.checked = checked;
    e.what = format!("lz4 frames {}", notes.join(" "));
    e
}

pub fn lz4block(r: &mut Rng, data: &[u8]) -> Enc {
    let level = r.urange(0, 11);
    let block = (1usize << (10 + level)).min(1 << 18);
    let mut e = Enc::new(vec![], format!("LZ4Block level {}", level));
    let mut at = 0;
    let mut n = 0;
    while at < data.len() {
        let max = if r.one_in(3) { r.urange(1, block) } else { block };
        let end = (at + max).min(data.len());
        let raw = &data[at..end];
        let c = lz4_raw(r, &data[at..end], 0, 0);
        let store = c.len() >= raw.len() || r.one_in(8);
        let body: &[u8] = if store { raw } else { &c };
        e.bytes.extend(b"LZ4Block");
        e.bytes.push(if store { 0x10 } else { 0x20 } | level as u8);
        e.bytes.extend((body.len() as u32).to_le_bytes());
        e.bytes.extend((raw.len() as u32).to_le_bytes());
        e.sums.push((e.bytes.len(), e.bytes.len() + 4));
        e.bytes.extend((xxh32(0x9747b28c, raw) & 0x0FFFFFFF).to_le_bytes());
        let s = e.bytes.len();
        e.bytes.extend(body);
        e.data.push((s, e.bytes.len()));
        at = end;
        n += 1;
    }
    e.bytes.extend(b"LZ4Block");
    e.bytes.push(0x10 | level as u8);
    e.bytes.extend([0u8; 12]);
    e.checked = true;
    e.what += &format!(", {} blocks", n);
    e
}

// ------------------------------------------------------------------ lzf

fn lzf_raw(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    let n = d.len();
    let mut out = Vec::new();
    let mut table: std::collections::HashMap<[u8; 3], usize> = std::collections::HashMap::new();
    let lits = |out: &mut Vec<u8>, l: &[u8]| {
        for c in l.chunks(32) {
            out.push(c.len() as u8 - 1);
            out.extend(c);
        }
    };
    let skip = if r.one_in(4) { r.urange(1, 40) as u64 } else { 0 };
    let (mut i, mut lit) = (0, 0);
    while i + 3 <= n {
        let k = [d[i], d[i + 1], d[i + 2]];
        let c = table.insert(k, i);
        match c {
            Some(j) if i - j <= 8192 && !(skip > 0 && r.one_in(skip)) => {
                let mut l = 3;
                while i + l < n && l < 264 && d[j + l] == d[i + l] {
                    l += 1;
                }
                lits(&mut out, &d[lit..i]);
                let off = i - j - 1;
                let len = l - 2;
                if len < 7 {
                    out.push((len as u8) << 5 | (off >> 8) as u8);
                } else {
                    out.push(7 << 5 | (off >> 8) as u8);
                    out.push((len - 7) as u8);
                }
                out.push(off as u8);
                for m in i + 1..(i + l).min(n.saturating_sub(2)) {
                    table.insert([d[m], d[m + 1], d[m + 2]], m);
                }
                i += l;
                lit = i;
            }
            _ => i += 1,
        }
    }
    lits(&mut out, &d[lit..]);
    out
}

pub fn lzf(r: &mut Rng, data: &[u8]) -> Enc {
    let mut e = Enc::new(vec![], String::new());
    let mut at = 0;
    let (mut n, mut stored) = (0, 0);
    let block = if r.one_in(3) { r.urange(1, 65535) } else { 65535 };
    if data.is_empty() && r.bool() {
        // an empty chunk or nothing at all
        e.bytes.extend(b"ZV\0\0\0");
    }
    while at < data.len() {
        let max = if r.one_in(3) { r.urange(1, block) } else { block };
        let end = (at + max).min(data.len());
        let raw = &data[at..end];
        let c = lzf_raw(r, raw);
        if c.len() >= raw.len() || c.len() > 65535 || r.one_in(8) {
            e.bytes.extend(b"ZV\0");
            e.bytes.extend((raw.len() as u16).to_be_bytes());
            let s = e.bytes.len();
            e.bytes.extend(raw);
            e.data.push((s, e.bytes.len()));
            stored += 1;
        } else {
            e.bytes.extend(b"ZV\x01");
            e.bytes.extend((c.len() as u16).to_be_bytes());
            e.bytes.extend((raw.len() as u16).to_be_bytes());
            let s = e.bytes.len();
            e.bytes.extend(&c);
            e.data.push((s, e.bytes.len()));
        }
        e.complete_at.push(e.bytes.len());
        at = end;
        n += 1;
    }
    e.what = format!("lzf {} chunks, {} stored", n, stored);
    e
}

// ------------------------------------------------------------------ zstd

/// runs a system tool over bytes
pub fn pipe(cmd: &str, args: &[&str], data: &[u8]) -> Option<Vec<u8>> {
    let mut c = Command::new(cmd).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let mut stdin = c.stdin.take()?;
    let out = std::thread::scope(|s| {
        s.spawn(move || {
            let _ = stdin.write_all(data);
        });
        c.wait_with_output().ok()
    })?;
    if out.status.success() {
        Some(out.stdout)
    } else {
        None
    }
}

/// frame of raw and run-length blocks
fn zst_simple(r: &mut Rng, p: &[u8], sum: bool) -> Vec<u8> {
    let mut o = 0xFD2FB528u32.to_le_bytes().to_vec();
    // single segment with 8 bytes of content size, or window descriptor without content size
    let single = r.bool();
    let flag = if single { 0xE0 } else { 0 } | if sum { 4 } else { 0 };
    o.push(flag);
    if single {
        o.extend((p.len() as u64).to_le_bytes());
    } else {
        o.push(0x58); // 2 MB window
    }
    let mut at = 0;
    loop {
        let rest = &p[at..];
        let run = rest.iter().take_while(|b| **b == rest[0]).count();
        if run > 20 && r.bool() {
            let k = run.min(r.urange(1, 120_000));
            let last = (at + k == p.len() && r.bool()) as u32;
            o.extend(&(last | 1 << 1 | (k as u32) << 3).to_le_bytes()[..3]);
            o.push(rest[0]);
            at += k;
            if last == 1 {
                break;
            }
        } else {
            let k = rest.len().min(r.urange(1, 128 << 10));
            let last = (at + k == p.len() && (k == 0 || r.bool())) as u32;
            o.extend(&(last | (k as u32) << 3).to_le_bytes()[..3]);
            o.extend(&rest[..k]);
            at += k;
            if last == 1 {
                break;
            }
        }
    }
    if sum {
        use std::hash::Hasher;
        let mut h = twox_hash::XxHash64::with_seed(0);
        h.write(p);
        o.extend((h.finish() as u32).to_le_bytes());
    }
    o
}

pub fn zst(r: &mut Rng, data: &[u8], max_parts: usize) -> Enc {
    let n = if max_parts > 1 && r.one_in(2) { r.urange(2, max_parts) } else { 1 };
    let mut e = Enc::new(vec![], String::new());
    let mut notes = Vec::new();
    e.checked = true;
    for (i, p) in parts(r, data, n).into_iter().enumerate() {
        if i > 0 {
            e.complete_at.push(e.bytes.len());
        }
        let sum = r.bool();
        e.checked &= sum;
        let tool = r.one_in(2);
        let s = e.bytes.len();
        let enc = if tool {
            let level = *r.pick(&[1, 3, 3, 9, 15, 19]);
            // high levels without a known size clear lots of memory first
            let sized = if level >= 15 { !r.one_in(6) } else { r.one_in(3) };
            let level = format!("-{}", level);
            let mut args = vec!["-q", "-c", &level, if sum { "--check" } else { "--no-check" }];
            let wlog = format!("--zstd=wlog={}", r.urange(10, 20));
            if r.one_in(3) {
                args.push(&wlog);
            }
            let size = format!("--stream-size={}", p.len());
            if sized && !p.is_empty() {
                args.push(&size);
            }
            let o = pipe("zstd", &args, p);
            if o.is_some() {
                notes.push(format!("{}:tool{}{}", p.len(), level, if sum { "C" } else { "" }));
            }
            o
        } else {
            None
        };
        let enc = match enc {
            Some(x) => x,
            None => {
                notes.push(format!("{}:simple{}", p.len(), if sum { "C" } else { "" }));
                zst_simple(r, p, sum)
            }
        };
        e.bytes.extend(enc);
        if sum {
            e.sums.push((e.bytes.len() - 4, e.bytes.len()));
        }
        e.data.push((s + 14, e.bytes.len().saturating_sub(4).max(s + 14)));
    }
    e.what = format!("zstd frames {}", notes.join(" "));
    e
}

// ------------------------------------------------------------------ zip

pub fn zip(r: &mut Rng, data: &[u8], name: &str) -> Enc {
    zip_named(r, data, name.as_bytes())
}

/// name of an entry as some programs write them, which tells the same format
pub fn odd_entry_name(r: &mut Rng, name: &str) -> Vec<u8> {
    let mut o: Vec<u8> = match r.below(6) {
        // in the charset of dos, or something that is no text in any
        0 => { let n = r.urange(1, 12); (0..n).map(|_| 0x80 + r.below(128) as u8).collect() }
        1 => b"\x81bersicht \x84\x94".to_vec(),
        2 => "Übersicht/漢字 ".as_bytes().to_vec(),
        3 => { let n = r.urange(1, 3000); b"dir/".iter().cycle().take(n).cloned().collect() }
        4 => b"C:\\data\\".to_vec(),
        _ => b"../".to_vec(),
    };
    o.extend(name.as_bytes());
    o
}

pub fn zip_named(r: &mut Rng, data: &[u8], name: &[u8]) -> Enc {
    let method = *r.pick(&[0u16, 8, 8, 12]);
    let body = match method {
        0 => data.to_vec(),
        8 => {
            let level = *r.pick(&[0u32, 1, 6, 9]);
            deflate(r, data, level)
        }
        _ => {
            let mut enc = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::new(r.range(1, 9) as u32));
            enc.write_all(data).unwrap();
            enc.finish().unwrap()
        }
    };
    let zip64 = r.one_in(3);
    let descriptor = r.one_in(3);
    let utf8 = !name.is_ascii() || r.one_in(3);
    let flags = if descriptor { 8u16 } else { 0 } | if utf8 { 1 << 11 } else { 0 };
    let c = crc(data);
    let extra = |r: &mut Rng, z64: Option<Vec<u8>>| -> Vec<u8> {
        let mut o = Vec::new();
        let mut fields: Vec<Vec<u8>> = Vec::new();
        if let Some(z) = z64 {
            let mut f = 1u16.to_le_bytes().to_vec();
            f.extend((z.len() as u16).to_le_bytes());
            f.extend(z);
            fields.push(f);
        }
        let many = r.one_in(40);
        for _ in 0..if many { r.urange(300, 2000) } else if r.bool() { r.us(4) } else { 0 } {
            let k = if many { r.us(3) } else { r.size(40) };
            let mut f = (*r.pick(&[0x5455u16, 0x7875, 0x000a, 0xcafe])).to_le_bytes().to_vec();
            f.extend((k as u16).to_le_bytes());
            f.extend(r.bytes(k));
            fields.push(f);
        }
        r.shuffle(&mut fields);
        for f in fields {
            o.extend(f);
        }
        o
    };
    let mut o = Vec::new();
    let (dos_t, dos_d) = (r.next() as u16, r.next() as u16);
    let ver = if zip64 { 45u16 } else { 20 };
    // local header
    o.extend(0x04034b50u32.to_le_bytes());
    o.extend(ver.to_le_bytes());
    o.extend(flags.to_le_bytes());
    o.extend(method.to_le_bytes());
    o.extend(dos_t.to_le_bytes());
    o.extend(dos_d.to_le_bytes());
    let (lc, ls, lu) = if descriptor { (0, 0, 0) } else { (c, body.len() as u64, data.len() as u64) };
    o.extend(lc.to_le_bytes());
    if zip64 {
        o.extend([0xff; 8]);
    } else {
        o.extend((ls as u32).to_le_bytes());
        o.extend((lu as u32).to_le_bytes());
    }
    o.extend((name.len() as u16).to_le_bytes());
    let z = if zip64 { Some([lu.to_le_bytes(), ls.to_le_bytes()].concat()) } else { None };
    let lx = extra(r, z);
    o.extend((lx.len() as u16).to_le_bytes());
    o.extend(name);
    o.extend(&lx);
    let ds = o.len();
    o.extend(&body);
    let de = o.len();
    if descriptor {
        if r.bool() {
            o.extend(0x08074b50u32.to_le_bytes());
        }
        o.extend(c.to_le_bytes());
        if zip64 {
            o.extend((body.len() as u64).to_le_bytes());
            o.extend((data.len() as u64).to_le_bytes());
        } else {
            o.extend((body.len() as u32).to_le_bytes());
            o.extend((data.len() as u32).to_le_bytes());
        }
    }
    // central directory
    let cd = o.len();
    let (zu, zs, zo) = if zip64 { (r.bool(), r.bool(), r.bool()) } else { (false, false, false) };
    o.extend(0x02014b50u32.to_le_bytes());
    o.extend([20, 3]);
    o.extend(ver.to_le_bytes());
    o.extend(flags.to_le_bytes());
    o.extend(method.to_le_bytes());
    o.extend(dos_t.to_le_bytes());
    o.extend(dos_d.to_le_bytes());
    let sum = o.len();
    o.extend(c.to_le_bytes());
    o.extend(if zs { u32::MAX } else { body.len() as u32 }.to_le_bytes());
    o.extend(if zu { u32::MAX } else { data.len() as u32 }.to_le_bytes());
    o.extend((name.len() as u16).to_le_bytes());
    let mut z = Vec::new();
    if zu {
        z.extend((data.len() as u64).to_le_bytes());
    }
    if zs {
        z.extend((body.len() as u64).to_le_bytes());
    }
    if zo {
        z.extend(0u64.to_le_bytes());
    }
    let cx = extra(r, if z.is_empty() { None } else { Some(z) });
    let k = if r.one_in(3) { r.size(100) } else { 0 };
    let comment = match r.below(3) {
        0 => vec![0; k],
        // looks like extra fields, those of zip64 included
        1 => (0..k).map(|i| if i % 4 == 0 { r.below(3) as u8 } else { 0 }).collect(),
        _ => r.bytes(k),
    };
    o.extend((cx.len() as u16).to_le_bytes());
    o.extend((comment.len() as u16).to_le_bytes());
    o.extend([0, 0, 0, 0]);
    o.extend([0, 0, 0xa4, 0x81]);
    o.extend(if zo { u32::MAX } else { 0 }.to_le_bytes());
    o.extend(name);
    o.extend(&cx);
    o.extend(&comment);
    let cdlen = o.len() - cd;
    if zip64 {
        let e64 = o.len() as u64;
        o.extend(0x06064b50u32.to_le_bytes());
        o.extend(44u64.to_le_bytes());
        o.extend([45, 3, 45, 0]);
        o.extend([0u8; 8]);
        o.extend(1u64.to_le_bytes());
        o.extend(1u64.to_le_bytes());
        o.extend((cdlen as u64).to_le_bytes());
        o.extend((cd as u64).to_le_bytes());
        o.extend(0x07064b50u32.to_le_bytes());
        o.extend(0u32.to_le_bytes());
        o.extend(e64.to_le_bytes());
        o.extend(1u32.to_le_bytes());
    }
    let k = if r.one_in(3) { *r.pick(&[1usize, 5, 22, 100, 5000, 65535]) } else { 0 };
    let mut comment: Vec<u8> = r.bytes(k).into_iter().map(|b| b'a' + b % 26).collect();
    // signatures of records in the comment
    let signed = k > 4 && r.one_in(4);
    if signed {
        for _ in 0..r.urange(1, 3) {
            let at = r.us(k - 3);
            let s: [u8; 4] = *r.pick(&[*b"PK\x05\x06", *b"PK\x05\x06", *b"PK\x01\x02", *b"PK\x06\x07"]);
            comment[at..at + 4].copy_from_slice(&s);
        }
    }
    o.extend(0x06054b50u32.to_le_bytes());
    o.extend([0u8; 4]);
    let big = zip64 && r.bool();
    // some writers leave everything to the zip64 record as soon as one value needs it
    let all = big && r.bool();
    o.extend(if all { [0xff; 4] } else { [1, 0, 1, 0] });
    o.extend(if all { u32::MAX } else { cdlen as u32 }.to_le_bytes());
    o.extend(if big { u32::MAX } else { cd as u32 }.to_le_bytes());
    o.extend((comment.len() as u16).to_le_bytes());
    o.extend(&comment);
    let what = format!(
        "zip method {}{}{}{} local extra {} central extra {} comment {}{}",
        method,
        if zip64 { " zip64" } else { "" },
        if all { " only" } else { "" },
        if descriptor { " descriptor" } else { "" },
        lx.len(),
        cx.len(),
        comment.len(),
        if signed { " with signatures" } else { "" }
    );
    let mut e = Enc::new(o, what);
    e.checked = true;
    e.data.push((ds, de));
    e.sums.push((sum, sum + 4));
    e.essential = e.bytes.len() - comment.len();
    e
}

/// archive that isn't one file that can be read: with other entries, none, parts elsewhere, encryption or another method
pub fn zip_unusable(r: &mut Rng, data: &[u8], name: &str) -> Enc {
    #[derive(PartialEq, Debug, Clone, Copy)]
    enum Kind { Several, None, Parts, Encrypted, Method }
    let kind = *r.pick(&[Kind::Several, Kind::Several, Kind::Several, Kind::None, Kind::Parts, Kind::Encrypted, Kind::Method]);
    let n = match kind { Kind::Several => r.urange(2, 5), Kind::None => 0, _ => 1 };
    let zip64 = r.bool();
    let method = if kind == Kind::Method { *r.pick(&[1u16, 2, 5, 6, 7, 9, 10, 13, 14, 18, 93, 95, 97, 98, 99, 256 + 8]) } else { *r.pick(&[0u16, 8]) };
    let mut o = Vec::new();
    let mut cd = Vec::new();
    for i in 0..n {
        let d = if i == 0 || r.bool() { data } else { b"" };
        let body = if method == 8 { deflate(r, d, 6) } else { d.to_vec() };
        let name = if i == 0 { name.to_string() } else { format!("{}{}", i, name) };
        let flags: u16 = if kind == Kind::Encrypted { 1 } else { 0 };
        let at = o.len() as u32;
        let mut f = Vec::new();
        f.extend(20u16.to_le_bytes());
        f.extend(flags.to_le_bytes());
        f.extend(method.to_le_bytes());
        f.extend([0; 4]);
        f.extend(crc(d).to_le_bytes());
        f.extend((body.len() as u32).to_le_bytes());
        f.extend((d.len() as u32).to_le_bytes());
        f.extend((name.len() as u16).to_le_bytes());
        f.extend([0; 2]);
        o.extend(0x04034b50u32.to_le_bytes());
        o.extend(&f);
        o.extend(name.as_bytes());
        o.extend(&body);
        cd.extend(0x02014b50u32.to_le_bytes());
        cd.extend([20, 3]);
        cd.extend(&f);
        cd.extend([0; 2]);
        let disk: u16 = 0;
        cd.extend(disk.to_le_bytes());
        cd.extend([0; 6]);
        cd.extend(at.to_le_bytes());
        cd.extend(name.as_bytes());
    }
    let at = o.len();
    o.extend(&cd);
    // number of entries on this disk and altogether, number of this disk and of the one with the directory
    let (here, all, disk, start) = match kind {
        Kind::Parts => match r.below(4) {
            0 => (1u16, 2u16, 0u16, 0u16),
            1 => (1, 1, 1, 0),
            2 => (1, 1, 0, 1),
            _ => (1, 3, 2, 2),
        },
        _ => (n as u16, n as u16, 0, 0),
    };
    // the same may be told by both records or only by that of zip64
    let mut only64 = false;
    if zip64 {
        let e = o.len() as u64;
        only64 = r.bool();
        o.extend(0x06064b50u32.to_le_bytes());
        o.extend(44u64.to_le_bytes());
        o.extend([45, 3, 45, 0]);
        o.extend((disk as u32).to_le_bytes());
        o.extend((start as u32).to_le_bytes());
        o.extend((here as u64).to_le_bytes());
        o.extend((all as u64).to_le_bytes());
        o.extend((cd.len() as u64).to_le_bytes());
        o.extend((at as u64).to_le_bytes());
        o.extend(0x07064b50u32.to_le_bytes());
        o.extend(0u32.to_le_bytes());
        o.extend(e.to_le_bytes());
        o.extend((disk as u32 + 1).to_le_bytes());
    }
    o.extend(0x06054b50u32.to_le_bytes());
    if only64 {
        o.extend([0; 4]);
        o.extend([0xff; 12]);
    } else {
        o.extend(disk.to_le_bytes());
        o.extend(start.to_le_bytes());
        o.extend(here.to_le_bytes());
        o.extend(all.to_le_bytes());
        o.extend((cd.len() as u32).to_le_bytes());
        o.extend((at as u32).to_le_bytes());
    }
    o.extend([0; 2]);
    Enc::new(o, format!("unusable zip ({:?}, {} entries, method {}{}{})", kind, n, method, if zip64 { " zip64" } else { "" }, if only64 { " only" } else { "" }))
}
