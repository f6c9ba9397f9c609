//! C22: the public metadata messages against the published definition, through an independent wire codec.
use crate::checks::Cov;
use crate::driver::catch;
use crate::prototab::*;
use crate::rng::{hash_bytes, Rng};
use crate::wire;
use protobuf::Message;
use std::collections::BTreeMap;
use std::marker::PhantomData;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Sint64, Sint32, Uint64, Uint32, Double, Bool, Str, Bytes, Fixed64, Enum(usize), Message(usize) }
pub struct Field { pub num: u32, pub name: &'static str, pub kind: Kind, pub repeated: bool, pub packed: bool }
pub struct Desc { pub name: &'static str, pub fields: &'static [Field] }

/// A message as the definition sees it: field values, and unknown fields by number and wire type.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct M { pub f: BTreeMap<u32, Vec<V>>, pub u: BTreeMap<(u32, u8), Vec<Vec<u8>>> }
#[derive(Clone, Debug, PartialEq)]
pub enum V { I(i64), U(u64), B(Vec<u8>), M(M) }
impl V {
    pub fn i(&self) -> i64 { if let V::I(x) = self { *x } else { unreachable!() } }
    pub fn u(&self) -> u64 { if let V::U(x) = self { *x } else { unreachable!() } }
    pub fn b(&self) -> Vec<u8> { if let V::B(x) = self { x.clone() } else { unreachable!() } }
    pub fn m(&self) -> &M { if let V::M(x) = self { x } else { unreachable!() } }
}
impl M {
    pub fn unknown(&mut self, u: &protobuf::UnknownFields) {
        for (n, v) in u.iter() {
            let mut put = |w: u8, b: Vec<u8>| self.u.entry((n, w)).or_default().push(b);
            for x in &v.varint { put(0, x.to_le_bytes().to_vec()); }
            for x in &v.fixed64 { put(1, x.to_le_bytes().to_vec()); }
            for x in &v.length_delimited { put(2, x.clone()); }
            for x in &v.fixed32 { put(5, x.to_le_bytes().to_vec()); }
        }
    }
    fn without_unknown(&self) -> M {
        let mut m = M::default();
        for (n, vs) in &self.f { m.f.insert(*n, vs.iter().map(|v| if let V::M(x) = v { V::M(x.without_unknown()) } else { v.clone() }).collect()); }
        m
    }
}
pub fn same(what: &str, a: &[V], b: &[V]) -> Result<(), String> { if a != b { Err(format!("{}: {:?} instead of {:?}", what, a, b)) } else { Ok(()) } }
pub fn same_m(what: &str, a: &M, b: &M) -> Result<(), String> { if a != b { Err(format!("{}: {:?} instead of {:?}", what, a, b)) } else { Ok(()) } }

pub trait Msgs: Message + Default {
    const ID: usize;
    fn view(&self) -> M;
    fn build(m: &M) -> Self;
    fn accessors(m: &M) -> Result<(), String>;
}
pub struct Of<T>(pub PhantomData<fn() -> T>);
pub struct Seen { pub view: M, pub bytes: Vec<u8>, pub size: u32, pub cached: u32, pub delimited: Vec<u8>, pub reflected: Vec<usize>, pub init: bool }
pub trait Ops {
    fn parse(&self, b: &[u8]) -> Result<Seen, String>;
    fn merge(&self, a: &[u8], b: &[u8]) -> Result<M, String>;
    fn reader(&self, b: &[u8]) -> Result<M, String>;
    fn build(&self, m: &M) -> Seen;
    fn accessors(&self, m: &M) -> Result<(), String>;
    fn cleared(&self, m: &M) -> M;
    fn instance(&self) -> M;
}
fn seen<T: Msgs>(m: &T) -> Seen {
    let size = m.compute_size();
    let bytes = m.write_to_bytes().unwrap();
    let d = m.descriptor();
    let reflected = MESSAGES[T::ID].fields.iter().map(|f| { let fd = d.field_by_name(f.name); if fd.is_repeated() { fd.len_field(m) } else { fd.has_field(m) as usize } }).collect();
    Seen { view: m.view(), size, cached: m.get_cached_size(), delimited: m.write_length_delimited_to_bytes().unwrap(), bytes, reflected, init: m.is_initialized() }
}
struct Slow<'a>(&'a [u8]);
impl std::io::Read for Slow<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(3).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
impl<T: Msgs> Ops for Of<T> {
    fn parse(&self, b: &[u8]) -> Result<Seen, String> { T::parse_from_bytes(b).map(|m| seen(&m)).map_err(|e| e.to_string()) }
    fn merge(&self, a: &[u8], b: &[u8]) -> Result<M, String> {
        let mut m = T::parse_from_bytes(a).map_err(|e| e.to_string())?;
        m.merge_from_bytes(b).map_err(|e| e.to_string())?;
        Ok(m.view())
    }
    fn reader(&self, b: &[u8]) -> Result<M, String> { T::parse_from_reader(&mut Slow(b)).map(|m| m.view()).map_err(|e| e.to_string()) }
    fn build(&self, m: &M) -> Seen { seen(&T::build(m)) }
    fn accessors(&self, m: &M) -> Result<(), String> { T::accessors(m) }
    fn cleared(&self, m: &M) -> M { let mut x = T::build(m); x.clear(); x.view() }
    fn instance(&self) -> M { let a = T::default_instance().view(); if a == M::default() { <T as Message>::new().view() } else { a } }
}

#[derive(Debug)]
pub enum Bad { Malformed, Ambiguous }
fn is_scalar(k: Kind) -> bool { !matches!(k, Kind::Str | Kind::Bytes | Kind::Message(_)) }
fn zz(v: u64) -> i64 { (v >> 1) as i64 ^ -((v & 1) as i64) }
/// What a number's varint means for a kind; None for an enum value the definition does not know.
fn scalar(k: Kind, v: u64) -> Result<Option<V>, Bad> {
    Ok(Some(match k {
        Kind::Sint64 => V::I(zz(v)),
        Kind::Sint32 => { if v > u32::MAX as u64 { return Err(Bad::Ambiguous); } V::I(zz(v)) }
        Kind::Uint64 => V::U(v),
        Kind::Uint32 => { if v > u32::MAX as u64 { return Err(Bad::Ambiguous); } V::U(v) }
        Kind::Bool => { if v > u32::MAX as u64 { return Err(Bad::Ambiguous); } V::U((v != 0) as u64) }
        Kind::Enum(e) => { let i = v as i64; if i != i as i32 as i64 { return Err(Bad::Ambiguous); } if !ENUMS[e].1.iter().any(|x| x.1 as i64 == i) { return Ok(None); } V::I(i) }
        _ => unreachable!(),
    }))
}
/// The meaning of an encoding by the definition: last value wins, sub-messages merge, repeated fields append.
pub fn decode(id: usize, b: &[u8]) -> Result<M, Bad> { decode_as(id, b, true) }
/// merging: a repeated record of a singular sub-message adds to the earlier one, as the format prescribes.
fn decode_as(id: usize, b: &[u8], merging: bool) -> Result<M, Bad> {
    let mut m = M::default();
    decode_into(id, b, &mut m, merging)?;
    Ok(m)
}
pub const SUBMESSAGE: &str = "submessage-replaced";
/// What the encoding means; where the known defect explains the observed value, what the defect makes of it.
fn meaning(id: usize, b: &[u8], got: &M, cov: &mut Cov) -> Result<M, Bad> {
    let want = decode(id, b)?;
    if *got != want {
        let alt = decode_as(id, b, false)?;
        if *got == alt { *cov.known.entry(SUBMESSAGE.into()).or_insert(0) += 1; return Ok(alt); }
    }
    Ok(want)
}
fn decode_into(id: usize, b: &[u8], m: &mut M, merging: bool) -> Result<(), Bad> {
    for (n, v) in wire::parse(b).map_err(|_| Bad::Malformed)? {
        let fd = match MESSAGES[id].fields.iter().find(|f| f.num == n) {
            None => {
                let (w, x) = match v { wire::V::Varint(x) => (0, x.to_le_bytes().to_vec()), wire::V::F64(x) => (1, x.to_vec()), wire::V::Bytes(x) => (2, x), wire::V::F32(x) => (5, x.to_vec()) };
                m.u.entry((n, w)).or_default().push(x);
                continue;
            }
            Some(f) => f,
        };
        let mut got: Vec<V> = vec![];
        match (fd.kind, v) {
            (Kind::Str, wire::V::Bytes(x)) => { if String::from_utf8(x.clone()).is_err() { return Err(Bad::Ambiguous); } got.push(V::B(x)) }
            (Kind::Bytes, wire::V::Bytes(x)) => got.push(V::B(x)),
            (Kind::Message(k), wire::V::Bytes(x)) => {
                if !fd.repeated && merging { if let Some(V::M(old)) = m.f.get_mut(&n).and_then(|v| v.last_mut()) { decode_into(k, &x, old, merging)?; continue; } }
                got.push(V::M(decode_as(k, &x, merging)?));
            }
            (Kind::Double | Kind::Fixed64, wire::V::F64(x)) => got.push(V::U(u64::from_le_bytes(x))),
            (k, wire::V::Bytes(x)) if fd.repeated && is_scalar(k) => {
                if k == Kind::Fixed64 { if x.len() % 8 != 0 { return Err(Bad::Malformed); } for c in x.chunks(8) { let mut a = [0; 8]; a.copy_from_slice(c); got.push(V::U(u64::from_le_bytes(a))); } }
                else { let mut p = 0; while p < x.len() { let v = wire::varint(&x, &mut p).map_err(|_| Bad::Malformed)?; got.push(scalar(k, v)?.ok_or(Bad::Ambiguous)?); } }
            }
            (k, wire::V::Varint(x)) if is_scalar(k) && !matches!(k, Kind::Double | Kind::Fixed64) => match scalar(k, x)? {
                Some(v) => got.push(v),
                None => { m.u.entry((n, 0)).or_default().push(x.to_le_bytes().to_vec()); continue; }
            },
            _ => return Err(Bad::Ambiguous),
        }
        let e = m.f.entry(n).or_default();
        if !fd.repeated { e.clear(); }
        e.extend(got);
    }
    // an empty packed record leaves no trace
    m.f.retain(|_, v| !v.is_empty());
    Ok(())
}
/// The records of an encoding have the wire types the definition declares.
fn forms(id: usize, b: &[u8]) -> Result<(), String> {
    let mut count: BTreeMap<u32, usize> = BTreeMap::new();
    for (n, v) in wire::parse(b)? {
        if let Some(f) = MESSAGES[id].fields.iter().find(|f| f.num == n) {
            *count.entry(n).or_insert(0) += 1;
            let lens = matches!(v, wire::V::Bytes(_));
            if is_scalar(f.kind) && lens != f.packed { return Err(format!("{}.{} is written {}", MESSAGES[id].name, f.name, if lens { "packed" } else { "unpacked" })); }
            if f.packed && count[&n] > 1 { return Err(format!("{}.{} is written in several packed records", MESSAGES[id].name, f.name)); }
            if let (Kind::Message(k), wire::V::Bytes(x)) = (f.kind, &v) { forms(k, x)?; }
        }
    }
    Ok(())
}

fn put_varint(out: &mut Vec<u8>, mut v: u64) { while v >= 0x80 { out.push(v as u8 | 0x80); v >>= 7; } out.push(v as u8); }
fn put_any(out: &mut Vec<u8>, r: &mut Rng, v: u64) {
    let a = out.len();
    put_varint(out, v);
    // longer than needed, but valid
    if r.chance(1, 25) { let n = out.len() - a; if n < 9 { let l = out.len(); out[l - 1] |= 0x80; for _ in 0..r.us(9 - n) { out.push(0x80); } out.push(0); } }
}
fn tag(out: &mut Vec<u8>, n: u32, w: u32) { put_varint(out, (n << 3 | w) as u64); }
fn edge(r: &mut Rng, bits: u32) -> u64 {
    let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    m & match r.below(6) { 0 => 0, 1 => m, 2 => { let k = 1 + r.below(9); (1u64 << (7 * k).min(63)).wrapping_add(r.below(3)).wrapping_sub(1) } 3 => 1 << r.below(bits as u64), 4 => r.below(300), _ => r.bits(bits) }
}
fn bytes(r: &mut Rng, text: bool) -> Vec<u8> {
    let n = match r.below(30) { 0 => 127, 1 => 128, 2 => 129, 3 => 200 + r.us(400), 4 if r.chance(1, 10) => 16383 + r.us(3), _ => r.us(12) };
    if text { let mut s = String::new(); while s.len() < n { s.push(match r.below(8) { 0 => 'é', 1 => '漢', 2 => '😀', 3 => '\0', _ => (b'a' + r.us(26) as u8) as char }); } s.into_bytes() } else { (0..n).map(|_| r.u64() as u8).collect() }
}
fn raw_scalar(r: &mut Rng, k: Kind) -> u64 {
    match k {
        Kind::Sint64 | Kind::Uint64 => edge(r, 64),
        Kind::Sint32 | Kind::Uint32 => edge(r, 32),
        Kind::Bool => if r.chance(1, 10) { edge(r, 32) } else { r.below(2) },
        Kind::Enum(e) => match r.below(8) { 0 => r.below(40), 1 => (-(r.bits(31) as i64)) as u64, 2 => r.bits(31), _ => r.pick(ENUMS[e].1).1 as u64 },
        _ => unreachable!(),
    }
}
/// A well-formed encoding, with records in any order, repeated, split and packed in any legal way.
fn encoding(r: &mut Rng, id: usize, budget: &mut i64, plain: bool) -> Vec<u8> {
    let mut out = vec![];
    let d = &MESSAGES[id];
    let n = match r.below(8) { 0 => 0, 1 | 2 => 1, 3 => 8 + r.us(10), _ => 1 + r.us(d.fields.len() + 2) };
    for _ in 0..n {
        *budget -= 1;
        if *budget < 0 { break; }
        if !plain && r.chance(1, 8) {
            // a field nobody knows
            let mut num = match r.below(4) { 0 => 12 + r.below(5) as u32, 1 => (1 << 29) - 1 - r.below(3) as u32, 2 => 1 + r.bits(28) as u32, _ => 1 + r.below(20) as u32 };
            while d.fields.iter().any(|f| f.num == num) { num = 20 + r.below(5000) as u32; }
            match r.below(4) { 0 => { tag(&mut out, num, 0); let v = edge(r, 64); put_any(&mut out, r, v) } 1 => { tag(&mut out, num, 1); out.extend(r.u64().to_le_bytes()) } 2 => { tag(&mut out, num, 2); let b = bytes(r, false); put_varint(&mut out, b.len() as u64); out.extend(b) } _ => { tag(&mut out, num, 5); out.extend((r.u64() as u32).to_le_bytes()) } }
            continue;
        }
        let f = r.pick(d.fields);
        match f.kind {
            Kind::Str | Kind::Bytes => { let b = bytes(r, f.kind == Kind::Str); tag(&mut out, f.num, 2); put_varint(&mut out, b.len() as u64); out.extend(b) }
            Kind::Message(k) => for _ in 0..if f.repeated && r.chance(1, 3) { 1 + r.us(4) } else { 1 } { let b = encoding(r, k, budget, plain); tag(&mut out, f.num, 2); put_any(&mut out, r, b.len() as u64); out.extend(b) },
            Kind::Double | Kind::Fixed64 if !(f.repeated && r.bool()) => { tag(&mut out, f.num, 1); let v = match r.below(6) { 0 => f64::NAN.to_bits(), 1 => (-0.0f64).to_bits(), 2 => f64::INFINITY.to_bits(), _ => r.u64() }; out.extend(v.to_le_bytes()) }
            Kind::Fixed64 => { let k = r.us(20); tag(&mut out, f.num, 2); put_varint(&mut out, 8 * k as u64); for _ in 0..k { out.extend(r.u64().to_le_bytes()); } }
            k => {
                let k = if plain && matches!(k, Kind::Enum(_)) { k } else { k };
                if f.repeated && r.bool() {
                    let mut b = vec![];
                    for _ in 0..match r.below(10) { 0 => 0, 1 => 127 + r.us(3), _ => 1 + r.us(8) } { let v = raw_scalar(r, k); put_any(&mut b, r, v); }
                    tag(&mut out, f.num, 2);
                    put_any(&mut out, r, b.len() as u64);
                    out.extend(b);
                } else { for _ in 0..if f.repeated { 1 + r.us(3) } else { 1 } { tag(&mut out, f.num, 0); let v = raw_scalar(r, k); put_any(&mut out, r, v); } }
            }
        }
    }
    out
}

fn loose_varint(b: &[u8], p: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for i in 0..10 {
        let x = *b.get(*p)?;
        *p += 1;
        v |= ((x & 0x7f) as u64).checked_shl(7 * i).unwrap_or(0);
        if x < 0x80 { return Some(v); }
    }
    None
}
/// The known defect's trigger: a packed BloomFilter.bitset that declares more bytes than there are. The declared length.
fn oversized_bitset(id: usize, b: &[u8]) -> Option<u64> {
    let mut p = 0;
    let mut worst = None;
    let mut group = false;
    while p < b.len() {
        let Some(k) = loose_varint(b, &mut p) else { break };
        let k = k as u32;
        match k & 7 {
            0 => if loose_varint(b, &mut p).is_none() { break },
            1 => p += 8,
            5 => p += 4,
            2 => {
                let Some(n) = loose_varint(b, &mut p) else { break };
                let left = (b.len() - p) as u64;
                let f = MESSAGES[id].fields.iter().find(|f| f.num == k >> 3 && !group);
                // the library reads these lengths as 32 bits
                let n = if f.map_or(true, |f| matches!(f.kind, Kind::Str | Kind::Bytes)) { n as u32 as u64 } else { n };
                if f.map_or(false, |f| f.kind == Kind::Fixed64) && n > left { worst = worst.max(Some(n)); }
                if let Some(Field { kind: Kind::Message(m), .. }) = f { worst = worst.max(oversized_bitset(*m, &b[p..p + n.min(left) as usize])); }
                if n > left { break; }
                p += n as usize;
            }
            3 if !group => group = true,
            4 if group => group = false,
            _ => break,
        }
    }
    worst
}
pub const BITSET: &str = "bloom-bitset-length";
/// Parses, unless the known defect would end the process; None: the known defect showed, or would have.
fn guarded(o: &(dyn Ops + Sync), id: usize, x: &[u8], cov: &mut Cov) -> Result<Option<Result<Seen, String>>, String> {
    let h = oversized_bitset(id, x);
    if h.map_or(false, |n| n > 1 << 28 && n < 1 << 63) { cov.add("encodings left out for the known finding", 1); return Ok(None); }
    match catch(|| o.parse(x)) {
        Ok(r) => Ok(Some(r)),
        Err(m) if h.is_some() && m.contains("capacity overflow") => { *cov.known.entry(BITSET.into()).or_insert(0) += 1; Ok(None) }
        Err(m) => Err(format!("{}: bytes made the parser panic: {}", MESSAGES[id].name, m)),
    }
}
/// In a process of its own: the same with a length that makes the allocation fail rather than overflow.
pub fn bitset_probe() -> i32 {
    let id = MESSAGES.iter().position(|m| m.name == "BloomFilter").unwrap();
    let mut x = vec![0x12];
    put_varint(&mut x, 1 << 46);
    x.extend([0; 9]);
    match ops(id).parse(&x) { Ok(_) => 3, Err(_) => 0 }
}
fn probe(cov: &mut Cov) -> Result<(), (String, String)> {
    let e = std::env::current_exe().map_err(|e| (e.to_string(), String::new()))?;
    let o = std::process::Command::new(e).arg("bitset-probe").output().map_err(|e| (e.to_string(), String::new()))?;
    match o.status.code() {
        Some(0) => {}
        Some(3) => return Err(("BloomFilter: a truncated encoding was accepted".into(), String::new())),
        _ => *cov.known.entry(BITSET.into()).or_insert(0) += 1,
    }
    cov.add("processes run for the oversized bit set", 1);
    Ok(())
}

fn judge_seen(id: usize, want: &M, s: &Seen, what: &str) -> Result<(), String> {
    let n = MESSAGES[id].name;
    same_m(&format!("{} {}: fields", n, what), &s.view, want)?;
    if s.size as usize != s.bytes.len() || s.cached != s.size { return Err(format!("{} {}: declared size {} (cached {}), {} bytes written", n, what, s.size, s.cached, s.bytes.len())); }
    let back = decode(id, &s.bytes).map_err(|e| format!("{} {}: its own encoding is {:?}", n, what, e))?;
    same_m(&format!("{} {}: serialised again", n, what), &back, want)?;
    forms(id, &s.bytes).map_err(|e| format!("{} {}: {}", n, what, e))?;
    let mut d = vec![];
    put_varint(&mut d, s.bytes.len() as u64);
    let dl = &s.delimited;
    if !dl.starts_with(&d) || dl.len() != d.len() + s.bytes.len() { return Err(format!("{} {}: length-delimited form", n, what)); }
    for (f, k) in MESSAGES[id].fields.iter().zip(&s.reflected) { if want.f.get(&f.num).map_or(0, |v| v.len()) != *k { return Err(format!("{} {}: reflection sees {} values of {}", n, what, k, f.name)); } }
    if !s.init { return Err(format!("{} {}: not initialised", n, what)); }
    Ok(())
}

pub fn random(seed: u64, cov: &mut Cov) -> Result<(), (String, String)> {
    let mut r = Rng::new(seed);
    let id = r.us(MESSAGES.len());
    let o = ops(id);
    let n = MESSAGES[id].name;
    let mut budget = *r.pick(&[3i64, 10, 40, 150]);
    let b = encoding(&mut r, id, &mut budget, false);
    let fail = |m: String, b: &[u8]| (m, format!("message {}\nbytes {}", n, b.iter().map(|x| format!("{:02x}", x)).collect::<String>()));
    match decode(id, &b) {
        Ok(_) => {
            let s = o.parse(&b).map_err(|e| fail(format!("{}: a well-formed encoding was refused: {}", n, e), &b))?;
            let want = meaning(id, &b, &s.view, cov).unwrap();
            judge_seen(id, &want, &s, "parsed").map_err(|e| fail(e, &b))?;
            cov.add("encodings parsed and compared", 1);
            cov.add("fields compared", want.f.len() as u64);
            if !want.u.is_empty() { cov.add("encodings with unknown fields", 1); }
            if !want.f.is_empty() { cov.sigs.insert(hash_bytes(&b) ^ id as u64); }
            // what was written parses to the same
            let s2 = o.parse(&s.bytes).map_err(|e| fail(format!("{}: its own encoding was refused: {}", n, e), &b))?;
            same_m(&format!("{} parsed twice", n), &s2.view, &want).map_err(|e| fail(e, &b))?;
            same_m(&format!("{} read in pieces", n), &o.reader(&b).map_err(|e| fail(format!("{} read in pieces: {}", n, e), &b))?, &want).map_err(|e| fail(e, &b))?;
            // set field by field
            let known = want.without_unknown();
            judge_seen(id, &known, &o.build(&known), "built").map_err(|e| fail(e, &b))?;
            o.accessors(&known).map_err(|e| fail(e, &b))?;
            same_m(&format!("{} cleared", n), &o.cleared(&known), &M::default()).map_err(|e| fail(e, &b))?;
            same_m(&format!("{} default instance", n), &o.instance(), &M::default()).map_err(|e| fail(e, &b))?;
            cov.add("messages built and compared", 1);
            // concatenation merges
            let mut budget = 30;
            let c = encoding(&mut r, id, &mut budget, false);
            let both = [&b[..], &c[..]].concat();
            if let (Ok(_), Ok(_)) = (decode(id, &both), decode(id, &c)) {
                let got = o.merge(&b, &c).map_err(|e| fail(format!("{} merge: {}", n, e), &both))?;
                same_m(&format!("{} merged", n), &got, &meaning(id, &both, &got, cov).unwrap()).map_err(|e| fail(e, &both))?;
                let s = o.parse(&both).map_err(|e| fail(format!("{} concatenated: {}", n, e), &both))?;
                let want = meaning(id, &both, &s.view, cov).unwrap();
                judge_seen(id, &want, &s, "concatenated").map_err(|e| fail(e, &both))?;
                cov.add("concatenations compared", 1);
            }
            if cov.samples.len() < 3 && b.len() > 4 && b.len() < 60 { cov.samples.push(format!("{} {:02x?} = {:?}", n, b, want)); }
        }
        Err(_) => cov.add("encodings with ambiguous values, parsed without comparison", 1),
    }
    // damaged and arbitrary bytes
    for k in 0..6 {
        let mut x = b.clone();
        match k {
            0 => x.truncate(r.us(b.len() + 1)),
            1 | 2 => for _ in 0..1 + r.us(3) { if !x.is_empty() { let i = r.us(x.len()); x[i] ^= 1 << r.below(8); } },
            3 => for _ in 0..1 + r.us(3) { let i = r.us(x.len() + 1); x.insert(i, r.u64() as u8); },
            4 => x = (0..r.us(40)).map(|_| r.u64() as u8).collect(),
            _ => { let t = r.us(MESSAGES.len()); let mut bu = 20; x = encoding(&mut r, t, &mut bu, false); }
        }
        let res = match guarded(&*o, id, &x, cov).map_err(|e| fail(e, &x))? { Some(r) => r, None => continue };
        match (&res, decode(id, &x)) {
            (Ok(s), Ok(_)) => { let want = meaning(id, &x, &s.view, cov).unwrap(); judge_seen(id, &want, s, "parsed from altered bytes").map_err(|e| fail(e, &x))?; cov.add("altered encodings parsed and compared", 1); }
            (Err(e), Ok(_)) => return Err(fail(format!("{}: a well-formed encoding was refused: {}", n, e), &x)),
            (Ok(s), _) => { if s.size as usize != s.bytes.len() { return Err(fail(format!("{}: declared size {}, {} bytes written", n, s.size, s.bytes.len()), &x)); } cov.add("altered encodings parsed leniently", 1) }
            (Err(_), _) => cov.add("altered encodings refused", 1),
        }
    }
    Ok(())
}

/// Extreme but short inputs: huge declared lengths, many repetitions, nested groups within the stack.
pub fn fixed(cov: &mut Cov) -> Result<(), (String, String)> {
    enums().map_err(|e| (e, String::new()))?;
    cov.add("enum tables compared", ENUMS.len() as u64);
    descriptors(cov).map_err(|e| (e, String::new()))?;
    probe(cov)?;
    for id in 0..MESSAGES.len() {
        let o = ops(id);
        let mut inputs: Vec<Vec<u8>> = vec![vec![]];
        for num in (1..=13u32).chain([8000, (1 << 29) - 1]) {
            for w in 0..8 {
                let mut t = vec![];
                tag(&mut t, num, w);
                inputs.push(t.clone());
                for len in [1u64, 127, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, 1 << 63, u64::MAX] { let mut x = t.clone(); put_varint(&mut x, len); inputs.push(x.clone()); x.extend([0; 9]); inputs.push(x); }
                inputs.push([&t[..], &[0xff; 12][..]].concat());
                if w == 3 { for d in [1usize, 2, 50, 100, 200] { inputs.push(t.repeat(d)); let mut x = t.repeat(d); let mut e = vec![]; tag(&mut e, num, 4); x.extend(e.repeat(d)); inputs.push(x); } }
            }
        }
        inputs.push(vec![0]);
        inputs.push(vec![0xff; 30]);
        for x in inputs {
            match guarded(&*o, id, &x, cov) {
                Err(m) => return Err((m, format!("{:02x?}", x))),
                Ok(None) => {}
                Ok(Some(Err(e))) => if decode(id, &x).is_ok() { return Err((format!("{}: a well-formed encoding was refused: {}", MESSAGES[id].name, e), format!("{:02x?}", x))); },
                Ok(Some(Ok(s))) => if let Ok(w) = decode(id, &x) { judge_seen(id, &w, &s, "parsed").map_err(|e| (e, format!("{:02x?}", x)))?; },
            }
            cov.add("extreme encodings tried", 1);
        }
    }
    Ok(())
}

/// The embedded descriptors say what the definition says.
fn descriptors(cov: &mut Cov) -> Result<(), String> {
    use protobuf::descriptor::{FieldDescriptorProto_Label as L, FieldDescriptorProto_Type as T};
    let f = orc_format::protos::orc_proto::file_descriptor_proto();
    if f.get_package() != "orc.proto" { return Err(format!("package {}", f.get_package())); }
    if f.get_message_type().len() != MESSAGES.len() { return Err("number of message descriptors".into()); }
    for (i, m) in MESSAGES.iter().enumerate() {
        let d = f.get_message_type().iter().find(|d| d.get_name() == m.name).ok_or(format!("no descriptor of {}", m.name))?;
        if d.get_field().len() != m.fields.len() { return Err(format!("{}: {} field descriptors", m.name, d.get_field().len())); }
        for x in m.fields {
            let e = d.get_field().iter().find(|e| e.get_name() == x.name).ok_or(format!("no descriptor of {}.{}", m.name, x.name))?;
            let ty = match x.kind { Kind::Sint64 => T::TYPE_SINT64, Kind::Sint32 => T::TYPE_SINT32, Kind::Uint64 => T::TYPE_UINT64, Kind::Uint32 => T::TYPE_UINT32, Kind::Double => T::TYPE_DOUBLE, Kind::Bool => T::TYPE_BOOL, Kind::Str => T::TYPE_STRING, Kind::Bytes => T::TYPE_BYTES, Kind::Fixed64 => T::TYPE_FIXED64, Kind::Enum(_) => T::TYPE_ENUM, Kind::Message(_) => T::TYPE_MESSAGE };
            let lb = if x.repeated { L::LABEL_REPEATED } else { L::LABEL_OPTIONAL };
            let tn = match x.kind { Kind::Enum(e) => format!(".orc.proto.{}", ENUMS[e].0.replace('_', ".")), Kind::Message(k) => format!(".orc.proto.{}", MESSAGES[k].name), _ => String::new() };
            if e.get_number() != x.num as i32 || e.get_field_type() != ty || e.get_label() != lb || e.get_type_name() != tn || e.get_options().get_packed() != x.packed { return Err(format!("descriptor of {}.{}: {:?}", m.name, x.name, e)); }
            cov.add("field descriptors compared", 1);
        }
        let _ = i;
    }
    Ok(())
}
