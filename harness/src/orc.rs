//! Independent ORC reader: tail, stripes, streams, RLE v1 decoding, seeking by row-index positions.
use crate::driver::ORC_EPOCH;
use crate::model::*;
use crate::wire::{self, Msg, R};
use std::cell::RefCell;

pub const K_PRESENT: u64 = 0;
pub const K_DATA: u64 = 1;
pub const K_LENGTH: u64 = 2;
pub const K_SECONDARY: u64 = 5;
pub const K_INDEX: u64 = 6;

/// The file, or its last part: `base` is the file offset of bytes[0].
#[derive(Clone, Copy)]
pub struct File<'a> { pub bytes: &'a [u8], pub base: u64 }
impl<'a> File<'a> {
    pub fn end(&self) -> u64 { self.base + self.bytes.len() as u64 }
    pub fn get(&self, off: u64, len: u64) -> R<&'a [u8]> {
        let e = off.checked_add(len).ok_or("offset overflow")?;
        if off < self.base || e > self.end() { return Err(format!("range {}+{} outside the file (length {})", off, len, self.end())); }
        Ok(&self.bytes[(off - self.base) as usize..(e - self.base) as usize])
    }
}

#[derive(Debug, Clone)]
pub struct Ps { pub footer_len: u64, pub kind: u64, pub block: u64, pub version: Vec<u64>, pub metadata_len: u64, pub writer_version: Option<u64>, pub magic: Vec<u8>, pub len: u64, pub start: u64 }
#[derive(Debug, Clone)]
pub struct StripeInf { pub offset: u64, pub index: u64, pub data: u64, pub footer: u64, pub rows: u64 }
#[derive(Debug, Clone)]
pub struct TypeInf { pub kind: u64, pub subtypes: Vec<u64>, pub names: Vec<Vec<u8>>, pub maxlen: Option<u64>, pub prec: Option<u64>, pub scale: Option<u64> }
#[derive(Debug, Clone)]
pub struct Footer { pub header_len: Option<u64>, pub content_len: Option<u64>, pub stripes: Vec<StripeInf>, pub types: Vec<TypeInf>, pub user: usize, pub rows: Option<u64>, pub stats: Vec<Vec<u8>>, pub stride: Option<u64> }
pub struct Tail { pub ps: Ps, pub footer: Footer, pub footer_start: u64, pub metadata_start: u64, pub stripe_stats: Vec<Vec<Vec<u8>>>, pub footer_plain: Plain, pub metadata_plain: Plain }

#[derive(Debug, Clone)]
pub struct Chunk { pub at: u64, pub clen: usize, pub original: bool, pub un: usize, pub ulen: usize }
#[derive(Debug, Clone, Default)]
pub struct Plain { pub data: Vec<u8>, pub chunks: Vec<Chunk>, pub framed: bool, pub raw_len: u64 }

thread_local! { static ZBUF: RefCell<Option<(zstd::bulk::Decompressor<'static>, Vec<u8>)>> = RefCell::new(None); }
const ZCAP: usize = 9 << 20;
fn unzstd(b: &[u8]) -> R<Vec<u8>> {
    ZBUF.with(|z| {
        let mut z = z.borrow_mut();
        if z.is_none() { *z = Some((zstd::bulk::Decompressor::new().map_err(|e| e.to_string())?, Vec::with_capacity(ZCAP))); }
        let (d, buf) = z.as_mut().unwrap();
        buf.clear();
        d.decompress_to_buffer(b, buf).map_err(|e| format!("zstd: {}", e))?;
        Ok(buf.clone())
    })
}

pub fn unframe(raw: &[u8], kind: u64) -> R<Plain> {
    if kind == 0 { return Ok(Plain { data: raw.to_vec(), chunks: vec![], framed: false, raw_len: raw.len() as u64 }); }
    let mut p = 0;
    let mut out = Plain { framed: true, raw_len: raw.len() as u64, ..Default::default() };
    while p < raw.len() {
        if p + 3 > raw.len() { return Err("truncated chunk header".into()); }
        let h = raw[p] as usize | (raw[p + 1] as usize) << 8 | (raw[p + 2] as usize) << 16;
        let (orig, n) = (h & 1 == 1, h >> 1);
        if p + 3 + n > raw.len() { return Err(format!("chunk of {} bytes at {} runs past the stream end {}", n, p, raw.len())); }
        let body = &raw[p + 3..p + 3 + n];
        let un = out.data.len();
        if orig { out.data.extend_from_slice(body); } else {
            let d = match kind { 2 => crate::snappy::decompress(body, 64 << 20)?, 5 => unzstd(body)?, k => return Err(format!("compression kind {}", k)) };
            out.data.extend_from_slice(&d);
        }
        out.chunks.push(Chunk { at: p as u64, clen: n, original: orig, un, ulen: out.data.len() - un });
        p += 3 + n;
    }
    Ok(out)
}

impl Plain {
    pub fn seek(&self, it: &mut std::slice::Iter<u64>) -> R<usize> {
        if !self.framed {
            let o = *it.next().ok_or("too few positions")?;
            if o > self.data.len() as u64 { return Err(format!("position {} past the stream end {}", o, self.data.len())); }
            return Ok(o as usize);
        }
        let at = *it.next().ok_or("too few positions")?;
        let o = *it.next().ok_or("too few positions")?;
        if at == self.raw_len {
            if o != 0 { return Err(format!("offset {} in a chunk at the stream end", o)); }
            return Ok(self.data.len());
        }
        match self.chunks.binary_search_by_key(&at, |c| c.at) {
            Ok(i) => { let c = &self.chunks[i]; if o > c.ulen as u64 { Err(format!("offset {} in a chunk of {} bytes", o, c.ulen)) } else { Ok(c.un + o as usize) } }
            Err(_) => Err(format!("position {} is not the start of a chunk", at)),
        }
    }
}

pub fn parse_ps(f: File) -> R<Ps> {
    let n = f.end();
    if n < 1 { return Err("empty file".into()); }
    let len = f.get(n - 1, 1)?[0] as u64;
    if len + 1 > n { return Err("postscript longer than the file".into()); }
    let start = n - 1 - len;
    let m = Msg::new(f.get(start, len)?).map_err(|e| format!("postscript: {}", e))?;
    m.only(&[1, 2, 3, 4, 5, 6, 8000]).map_err(|e| format!("postscript: {}", e))?;
    Ok(Ps { footer_len: m.need(1)?, kind: m.u0(2)?, block: m.u0(3)?, version: m.repu(4)?, metadata_len: m.u0(5)?, writer_version: m.u(6)?, magic: m.b(8000)?.unwrap_or(b"").to_vec(), len, start })
}
pub fn parse_footer(b: &[u8]) -> R<Footer> {
    let m = Msg::new(b)?;
    m.only(&[1, 2, 3, 4, 5, 6, 7, 8, 9])?;
    let mut stripes = vec![];
    for s in m.reps(3)? {
        let s = Msg::new(s)?;
        stripes.push(StripeInf { offset: s.u0(1)?, index: s.u0(2)?, data: s.u0(3)?, footer: s.u0(4)?, rows: s.u0(5)? });
    }
    let mut types = vec![];
    for t in m.reps(4)? {
        let t = Msg::new(t)?;
        t.only(&[1, 2, 3, 4, 5, 6])?;
        types.push(TypeInf { kind: t.need(1)?, subtypes: t.repu(2)?, names: t.reps(3)?.iter().map(|x| x.to_vec()).collect(), maxlen: t.u(4)?, prec: t.u(5)?, scale: t.u(6)? });
    }
    Ok(Footer { header_len: m.u(1)?, content_len: m.u(2)?, stripes, types, user: m.reps(5)?.len(), rows: m.u(6)?, stats: m.reps(7)?.iter().map(|x| x.to_vec()).collect(), stride: m.u(8)? })
}
pub fn parse_tail(f: File) -> R<Tail> {
    let ps = parse_ps(f)?;
    let fs = ps.start.checked_sub(ps.footer_len).ok_or("footer longer than the file")?;
    let ms = fs.checked_sub(ps.metadata_len).ok_or("metadata longer than the file")?;
    let fp = unframe(f.get(fs, ps.footer_len)?, ps.kind).map_err(|e| format!("footer: {}", e))?;
    let footer = parse_footer(&fp.data).map_err(|e| format!("footer: {}", e))?;
    let mp = unframe(f.get(ms, ps.metadata_len)?, ps.kind).map_err(|e| format!("metadata: {}", e))?;
    let mut stripe_stats = vec![];
    let m = Msg::new(&mp.data).map_err(|e| format!("metadata: {}", e))?;
    m.only(&[1]).map_err(|e| format!("metadata: {}", e))?;
    for s in m.reps(1)? {
        let s = Msg::new(s)?;
        s.only(&[1])?;
        stripe_stats.push(s.reps(1)?.iter().map(|x| x.to_vec()).collect());
    }
    Ok(Tail { ps, footer, footer_start: fs, metadata_start: ms, stripe_stats, footer_plain: fp, metadata_plain: mp })
}

/// Type tree described by a footer.
pub fn tree(types: &[TypeInf]) -> R<Ty> {
    fn go(t: &[TypeInf], id: usize, next: &mut usize, depth: usize) -> R<Ty> {
        if depth > 2000 { return Err("type nesting too deep".into()); }
        let x = t.get(id).ok_or("type id out of range")?;
        if id != *next { return Err(format!("type {} is not in pre-order position {}", id, *next)); }
        *next += 1;
        let mut sub = |t: &[TypeInf]| -> R<Vec<Ty>> { x.subtypes.iter().map(|s| go(t, *s as usize, next, depth + 1)).collect() };
        let r = match x.kind {
            0 => Ty::Boolean, 2 => Ty::Short, 3 => Ty::Int, 4 => Ty::Long, 5 => Ty::Float, 6 => Ty::Double, 7 => Ty::Str, 8 => Ty::Binary, 9 => Ty::Timestamp, 15 => Ty::Date,
            14 => Ty::Decimal(x.prec.unwrap_or(0) as u32, x.scale.unwrap_or(0) as u32),
            16 => Ty::VarChar(x.maxlen.unwrap_or(0) as u32), 17 => Ty::Char(x.maxlen.unwrap_or(0) as u32),
            10 => { let mut s = sub(t)?; if s.len() != 1 { return Err("list subtypes".into()); } Ty::List(Box::new(s.pop().unwrap())) }
            11 => { let mut s = sub(t)?; if s.len() != 2 { return Err("map subtypes".into()); } let v = s.pop().unwrap(); Ty::Map(Box::new(s.pop().unwrap()), Box::new(v)) }
            12 => { let s = sub(t)?; if s.len() != x.names.len() { return Err("struct names".into()); }
                    Ty::Struct(s.into_iter().zip(&x.names).map(|(s, n)| (String::from_utf8_lossy(n).into_owned(), s)).collect()) }
            13 => Ty::Union(sub(t)?),
            k => return Err(format!("type kind {}", k)),
        };
        if !r.is_compound() && !x.subtypes.is_empty() { return Err("primitive with subtypes".into()); }
        Ok(r)
    }
    let mut next = 0;
    let r = go(types, 0, &mut next, 0)?;
    if next != types.len() { return Err(format!("{} types, {} reachable", types.len(), next)); }
    Ok(r)
}

#[derive(Debug, Clone)]
pub struct StreamInf { pub kind: u64, pub col: u64, pub len: u64, pub off: u64 }
#[derive(Debug, Clone)]
pub struct StripeFooter { pub streams: Vec<StreamInf>, pub encodings: Vec<(u64, Option<u64>)>, pub plain: Plain, pub tz: Option<Vec<u8>> }
pub fn stripe_footer(f: File, ps: &Ps, s: &StripeInf) -> R<StripeFooter> {
    let off = s.offset.checked_add(s.index).and_then(|x| x.checked_add(s.data)).ok_or("overflow")?;
    let plain = unframe(f.get(off, s.footer)?, ps.kind).map_err(|e| format!("stripe footer: {}", e))?;
    let m = Msg::new(&plain.data).map_err(|e| format!("stripe footer: {}", e))?;
    m.only(&[1, 2, 3]).map_err(|e| format!("stripe footer: {}", e))?;
    let mut p = s.offset;
    let mut streams = vec![];
    for x in m.reps(1)? {
        let x = Msg::new(x)?;
        x.only(&[1, 2, 3])?;
        let len = x.u0(3)?;
        streams.push(StreamInf { kind: x.u0(1)?, col: x.u0(2)?, len, off: p });
        p = p.checked_add(len).ok_or("overflow")?;
    }
    let mut encodings = vec![];
    for x in m.reps(2)? { let x = Msg::new(x)?; encodings.push((x.u0(1)?, x.u(2)?)); }
    let tz = m.b(3)?.map(|x| x.to_vec());
    Ok(StripeFooter { streams, encodings, plain, tz })
}

#[derive(Default, Clone)]
pub struct ColData { pub present: Option<Plain>, pub data: Option<Plain>, pub length: Option<Plain>, pub secondary: Option<Plain>, pub index: Option<Plain> }
pub fn stripe_cols(f: File, ps: &Ps, sf: &StripeFooter, ncols: usize, want_index: bool) -> R<Vec<ColData>> {
    let mut cols: Vec<ColData> = vec![ColData::default(); ncols];
    for s in &sf.streams {
        let c = cols.get_mut(s.col as usize).ok_or_else(|| format!("stream for column {}", s.col))?;
        if s.kind == K_INDEX && !want_index { continue; }
        let slot = match s.kind { K_PRESENT => &mut c.present, K_DATA => &mut c.data, K_LENGTH => &mut c.length, K_SECONDARY => &mut c.secondary, K_INDEX => &mut c.index, k => return Err(format!("stream kind {}", k)) };
        if slot.is_some() { return Err(format!("two streams of kind {} for column {}", s.kind, s.col)); }
        *slot = Some(unframe(f.get(s.off, s.len)?, ps.kind).map_err(|e| format!("column {} stream kind {}: {}", s.col, s.kind, e))?);
    }
    Ok(cols)
}

#[derive(Clone, Debug)]
pub struct Entry { pub positions: Vec<u64>, pub stats: Option<Vec<u8>> }
pub fn index_entries(p: &Plain) -> R<Vec<Entry>> {
    let m = Msg::new(&p.data)?;
    m.only(&[1])?;
    m.reps(1)?.into_iter().map(|e| { let e = Msg::new(e)?; e.only(&[1, 2])?; Ok(Entry { positions: e.repu(1)?, stats: e.b(2)?.map(|x| x.to_vec()) }) }).collect()
}

// ---- decoders ----
#[derive(Clone)]
pub struct ByteDec<'a> { pub d: &'a [u8], pub p: usize, run: usize, lit: usize, val: u8 }
impl<'a> ByteDec<'a> {
    pub fn new(d: &'a [u8], p: usize) -> Self { ByteDec { d, p, run: 0, lit: 0, val: 0 } }
    #[inline]
    pub fn next(&mut self) -> R<u8> {
        if self.run == 0 && self.lit == 0 {
            let c = *self.d.get(self.p).ok_or("byte RLE: end of stream")?;
            self.p += 1;
            if c < 128 { self.run = c as usize + 3; self.val = *self.d.get(self.p).ok_or("byte RLE: end of stream in a run")?; self.p += 1; }
            else { self.lit = 256 - c as usize; }
        }
        if self.run > 0 { self.run -= 1; return Ok(self.val); }
        self.lit -= 1;
        let b = *self.d.get(self.p).ok_or("byte RLE: end of stream in literals")?;
        self.p += 1;
        Ok(b)
    }
    pub fn left(&self) -> usize { self.d.len() - self.p + self.run + self.lit }
}
#[derive(Clone)]
pub struct BoolDec<'a> { pub b: ByteDec<'a>, cur: u8, left: u32 }
impl<'a> BoolDec<'a> {
    pub fn new(d: &'a [u8], p: usize) -> Self { BoolDec { b: ByteDec::new(d, p), cur: 0, left: 0 } }
    #[inline]
    pub fn next(&mut self) -> R<bool> {
        if self.left == 0 { self.cur = self.b.next()?; self.left = 8; }
        self.left -= 1;
        Ok(self.cur >> self.left & 1 == 1)
    }
    pub fn pad(&self) -> u8 { self.cur & ((1u16 << self.left) - 1) as u8 }
}
#[derive(Clone)]
pub struct IntDec<'a> { pub d: &'a [u8], pub p: usize, run: usize, lit: usize, val: i64, delta: i64, signed: bool }
impl<'a> IntDec<'a> {
    pub fn new(d: &'a [u8], p: usize, signed: bool) -> Self { IntDec { d, p, run: 0, lit: 0, val: 0, delta: 0, signed } }
    fn v(&mut self) -> R<i64> { let v = wire::varint(self.d, &mut self.p).map_err(|e| format!("integer RLE: {}", e))?; Ok(if self.signed { wire::zz(v) } else { v as i64 }) }
    #[inline]
    pub fn next(&mut self) -> R<i64> {
        if self.run == 0 && self.lit == 0 {
            let c = *self.d.get(self.p).ok_or("integer RLE: end of stream")?;
            self.p += 1;
            if c < 128 {
                self.run = c as usize + 3;
                self.delta = *self.d.get(self.p).ok_or("integer RLE: end of stream in a run")? as i8 as i64;
                self.p += 1;
                self.val = self.v()?;
            } else { self.lit = 256 - c as usize; }
        }
        if self.run > 0 { self.run -= 1; let r = self.val; self.val = self.val.wrapping_add(self.delta); return Ok(r); }
        self.lit -= 1;
        self.v()
    }
    pub fn left(&self) -> usize { self.d.len() - self.p + self.run + self.lit }
}
pub fn varint128(d: &[u8], p: &mut usize) -> R<i128> {
    let mut v = 0u128;
    let mut s = 0;
    loop {
        let x = *d.get(*p).ok_or("decimal: end of stream")?;
        *p += 1;
        if s > 126 || (s == 126 && x & 0x7f > 3) { return Err("decimal: value over 128 bits".into()); }
        v |= ((x & 0x7f) as u128) << s;
        if x < 0x80 { break; }
        s += 7;
    }
    Ok((v >> 1) as i128 ^ -((v & 1) as i128))
}

enum Body<'a> {
    None,
    Bool(BoolDec<'a>),
    Int(IntDec<'a>),
    Raw(&'a [u8], usize),
    Ts(IntDec<'a>, IntDec<'a>),
    /// data, and lengths or scales
    RawInt(&'a [u8], usize, IntDec<'a>),
    Byte(ByteDec<'a>),
}
pub struct ColReader<'a> { ty: &'a Ty, present: Option<BoolDec<'a>>, body: Body<'a> }

impl<'a> ColReader<'a> {
    /// Opens at the stream starts, or at the recorded positions (which must be exactly the ones the streams require).
    pub fn open(ty: &'a Ty, cd: &'a ColData, positions: Option<&[u64]>) -> R<Self> {
        let empty: &[u64] = &[];
        let mut it = positions.unwrap_or(empty).iter();
        let at = positions.is_some();
        fn need<'b>(p: &'b Option<Plain>, n: &str) -> R<&'b Plain> { p.as_ref().ok_or_else(|| format!("no {} stream", n)) }
        fn off(p: &Plain, at: bool, it: &mut std::slice::Iter<u64>) -> R<usize> { if at { p.seek(it) } else { Ok(0) } }
        fn skip(it: &mut std::slice::Iter<u64>) -> R<u64> { it.next().copied().ok_or_else(|| "too few positions".to_string()) }
        fn bools<'b>(p: &'b Plain, at: bool, it: &mut std::slice::Iter<u64>) -> R<BoolDec<'b>> {
            let o = off(p, at, it)?;
            let mut d = BoolDec::new(&p.data, o);
            if at {
                let n = skip(it)?;
                if n > 130 { return Err(format!("run offset {}", n)); }
                for _ in 0..n { d.b.next()?; }
                let b = skip(it)?;
                if b > 8 { return Err(format!("bit offset {}", b)); }
                for _ in 0..b { d.next()?; }
            }
            Ok(d)
        }
        fn intd<'b>(p: &'b Plain, signed: bool, at: bool, it: &mut std::slice::Iter<u64>) -> R<IntDec<'b>> {
            let o = off(p, at, it)?;
            let mut d = IntDec::new(&p.data, o, signed);
            if at { let n = skip(it)?; if n > 130 { return Err(format!("run offset {}", n)); } for _ in 0..n { d.next()?; } }
            Ok(d)
        }
        let present = match &cd.present { None => None, Some(p) => Some(bools(p, at, &mut it)?) };
        let body = match ty {
            Ty::Boolean => Body::Bool(bools(need(&cd.data, "data")?, at, &mut it)?),
            Ty::Short | Ty::Int | Ty::Long | Ty::Date => Body::Int(intd(need(&cd.data, "data")?, true, at, &mut it)?),
            Ty::Float | Ty::Double => { let p = need(&cd.data, "data")?; Body::Raw(&p.data, off(p, at, &mut it)?) }
            Ty::Timestamp => { let a = intd(need(&cd.data, "data")?, true, at, &mut it)?; Body::Ts(a, intd(need(&cd.secondary, "secondary")?, false, at, &mut it)?) }
            Ty::Decimal(_, _) => { let p = need(&cd.data, "data")?; let o = off(p, at, &mut it)?; Body::RawInt(&p.data, o, intd(need(&cd.secondary, "secondary")?, true, at, &mut it)?) }
            Ty::Str | Ty::Char(_) | Ty::VarChar(_) | Ty::Binary => { let p = need(&cd.data, "data")?; let o = off(p, at, &mut it)?; Body::RawInt(&p.data, o, intd(need(&cd.length, "length")?, false, at, &mut it)?) }
            Ty::List(_) | Ty::Map(_, _) => Body::Int(intd(need(&cd.length, "length")?, false, at, &mut it)?),
            Ty::Union(_) => { let p = need(&cd.data, "data")?; let o = off(p, at, &mut it)?; let mut d = ByteDec::new(&p.data, o); if at { let n = skip(&mut it)?; if n > 130 { return Err(format!("run offset {}", n)); } for _ in 0..n { d.next()?; } } Body::Byte(d) }
            Ty::Struct(_) => Body::None,
        };
        if it.next().is_some() { return Err("too many positions".into()); }
        Ok(ColReader { ty, present, body })
    }
    pub fn empty_vals(ty: &Ty) -> Vals {
        match ty {
            Ty::Boolean => Vals::Bool(vec![]), Ty::Short | Ty::Int | Ty::Long | Ty::Date => Vals::Long(vec![]),
            Ty::Float => Vals::Float(vec![]), Ty::Double => Vals::Double(vec![]), Ty::Timestamp => Vals::Ts(vec![]), Ty::Decimal(_, _) => Vals::Dec(vec![]),
            Ty::Str | Ty::Char(_) | Ty::VarChar(_) => Vals::Str(vec![]), Ty::Binary => Vals::Bin(vec![]), Ty::Struct(_) => Vals::Unit(0),
            Ty::List(_) | Ty::Map(_, _) => Vals::Len(vec![]), Ty::Union(_) => Vals::Tag(vec![]),
        }
    }
    /// Reads n slots, appending to out; returns the number of non-null ones.
    pub fn read(&mut self, n: usize, out: &mut Col) -> R<usize> {
        let mut m = n;
        match &mut self.present {
            None => out.present.resize(out.present.len() + n, true),
            Some(p) => { m = 0; for _ in 0..n { let b = p.next().map_err(|e| format!("null stream: {}", e))?; m += b as usize; out.present.push(b); } }
        }
        match (&mut self.body, &mut out.vals) {
            (Body::None, Vals::Unit(k)) => *k += m,
            (Body::Bool(d), Vals::Bool(v)) => for _ in 0..m { v.push(d.next()?); },
            (Body::Int(d), Vals::Long(v)) => {
                let (lo, hi) = self.ty.int_range();
                for _ in 0..m { let x = d.next()?; if x < lo || x > hi { return Err(format!("value {} outside the range of {}", x, short(self.ty))); } v.push(x); }
            }
            (Body::Int(d), Vals::Len(v)) => for _ in 0..m { let x = d.next()?; if x < 0 { return Err(format!("length {}", x as u64)); } v.push(x as u64); },
            (Body::Raw(d, p), Vals::Float(v)) => for _ in 0..m { let b = d.get(*p..*p + 4).ok_or("float: end of stream")?; *p += 4; v.push(f32::from_le_bytes([b[0], b[1], b[2], b[3]])); },
            (Body::Raw(d, p), Vals::Double(v)) => for _ in 0..m { let b = d.get(*p..*p + 8).ok_or("double: end of stream")?; *p += 8; v.push(f64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])); },
            (Body::Ts(s, ns), Vals::Ts(v)) => for _ in 0..m {
                let sec = s.next()?;
                let r = ns.next()? as u64;
                let z = r & 7;
                let mut x = (r >> 3) as u128;
                if z != 0 { x *= 10u128.pow(z as u32 + 1); }
                if x > 999_999_999 { return Err(format!("nanoseconds {}", x)); }
                v.push((sec.checked_add(ORC_EPOCH).ok_or("timestamp seconds out of range")?, x as u32));
            },
            (Body::RawInt(d, p, sc), Vals::Dec(v)) => {
                let want = if let Ty::Decimal(_, s) = self.ty { *s as i64 } else { 0 };
                for _ in 0..m { let x = varint128(d, p)?; let s = sc.next()?; if s != want { return Err(format!("decimal scale {} instead of {}", s, want)); } v.push(x); }
            }
            (Body::RawInt(d, p, l), Vals::Str(v)) => for _ in 0..m {
                let n = l.next()? as u64;
                if n > (d.len() - *p) as u64 { return Err(format!("string of {} bytes, {} left", n, d.len() - *p)); }
                v.push(std::str::from_utf8(&d[*p..*p + n as usize]).map_err(|e| e.to_string())?.to_string());
                *p += n as usize;
            },
            (Body::RawInt(d, p, l), Vals::Bin(v)) => for _ in 0..m {
                let n = l.next()? as u64;
                if n > (d.len() - *p) as u64 { return Err(format!("binary of {} bytes, {} left", n, d.len() - *p)); }
                v.push(d[*p..*p + n as usize].to_vec());
                *p += n as usize;
            },
            (Body::Byte(d), Vals::Tag(v)) => {
                let k = self.ty.children().len();
                for _ in 0..m { let t = d.next()?; if t as usize >= k { return Err(format!("union tag {}", t)); } v.push(t); }
            }
            _ => return Err("reader mismatch".into()),
        }
        Ok(m)
    }
    /// After everything was read: what is left over in the streams.
    pub fn leftovers(&self) -> Vec<String> {
        let mut v = vec![];
        let mut chk = |n: usize, s: &str| if n != 0 { v.push(format!("{} bytes or values left over in the {} stream", n, s)) };
        if let Some(p) = &self.present { chk(p.b.left(), "null"); if p.left > 0 { chk(p.pad() as usize, "null (padding bits)"); } }
        match &self.body {
            Body::None => {}
            Body::Bool(d) => { chk(d.b.left(), "data"); if d.left > 0 { chk(d.pad() as usize, "data (padding bits)"); } }
            Body::Int(d) => chk(d.left(), "integer"),
            Body::Raw(d, p) => chk(d.len() - p, "data"),
            Body::Ts(a, b) => { chk(a.left(), "seconds"); chk(b.left(), "nanoseconds"); }
            Body::RawInt(d, p, i) => { chk(d.len() - p, "data"); chk(i.left(), "length or scale"); }
            Body::Byte(d) => chk(d.left(), "tag"),
        }
        v
    }
}

/// Decodes all columns of one stripe, appending to cols; child counts are derived from the decoded parents.
pub fn decode_stripe(infos: &[Info], cds: &[ColData], rows: usize, cols: &mut [Col], leftovers: Option<&mut Vec<String>>) -> R<()> {
    let mut start: Vec<usize> = vec![0; infos.len()];
    let mut lo = vec![];
    for (id, inf) in infos.iter().enumerate() {
        let n = match inf.parent {
            None => rows,
            Some(p) => {
                let from = start[p];
                match &cols[p].vals {
                    Vals::Unit(k) => *k - from,
                    Vals::Len(l) => {
                        let t: u128 = l[from..].iter().map(|x| *x as u128).sum();
                        if t > 1 << 31 { return Err(format!("column {}: lengths sum to {}", p, t)); }
                        t as usize
                    }
                    Vals::Tag(t) => t[from..].iter().filter(|x| **x as usize == inf.slot).count(),
                    _ => unreachable!(),
                }
            }
        };
        start[id] = cols[id].vals.len();
        let mut r = ColReader::open(&inf.ty, &cds[id], None).map_err(|e| format!("column {} ({}): {}", id, short(&inf.ty), e))?;
        r.read(n, &mut cols[id]).map_err(|e| format!("column {} ({}): {}", id, short(&inf.ty), e))?;
        for l in r.leftovers() { lo.push(format!("column {} ({}): {}", id, short(&inf.ty), l)); }
    }
    if let Some(v) = leftovers { v.extend(lo); }
    Ok(())
}
pub fn empty_cols(infos: &[Info]) -> Vec<Col> { infos.iter().map(|i| Col { present: vec![], vals: ColReader::empty_vals(&i.ty) }).collect() }
