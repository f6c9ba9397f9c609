//! Executions past 4 GiB of file, 4 GiB of one stream and 2^32 rows, with destinations that keep only what the oracles read.
use crate::checks::*;
use crate::directed::*;
use crate::driver::*;
use crate::model::*;
use crate::orc::*;
use crate::rng::Rng;
use crate::stats;
use crate::wire::Msg;
use orc_format::writer::data::{Data, GenericData};
use orc_format::writer::Writer;
use std::io::{self, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { File, FileSnappy, Stream, StreamSnappy, Rows(usize) }
pub const ROW_KINDS: usize = 10;

pub fn kinds(id: &str, thorough: bool) -> Vec<Kind> {
    use Kind::*;
    if thorough {
        let mut v = match id { "C02" => vec![], "C11" | "C12" => vec![], _ => vec![File, FileSnappy, Stream, StreamSnappy] };
        match id { "C01" | "C03" | "C05" | "C06" | "C07" | "C09" | "C10" | "C11" | "C16" | "C20" => v.extend((0..ROW_KINDS).map(Rows)), _ => {} }
        if id == "C21" { v = vec![File, FileSnappy]; }
        return v;
    }
    match id {
        "C01" => vec![Stream, File, FileSnappy, Rows(2), Rows(1), Rows(3)],
        "C03" => vec![Stream, File, FileSnappy, Rows(0)],
        "C04" => vec![StreamSnappy, FileSnappy],
        "C05" | "C06" => vec![Stream, File, Rows(0), Rows(1), Rows(2), Rows(3)],
        "C07" => vec![Stream, File, Rows(0), Rows(1), Rows(2), Rows(3)],
        "C08" => vec![Stream, StreamSnappy, File, FileSnappy],
        "C09" => vec![Rows(0), Rows(1), Rows(3), File],
        "C10" => vec![File],
        "C11" => vec![Rows(0), Rows(3)],
        "C16" => vec![Stream, File, Rows(0), Rows(1), Rows(2), Rows(3), Rows(4), Rows(5)],
        "C20" => vec![FileSnappy, Rows(1), Rows(3)],
        "C21" => vec![File],
        _ => vec![],
    }
}

/// Keeps small writes and the last part of large ones.
struct Segs { total: u64, segs: Vec<(u64, Vec<u8>)>, expect: Vec<(std::sync::Arc<Vec<u8>>, usize)>, compared: u64, mismatch: Option<u64> }
const KEEP: usize = 1 << 20;
impl Segs {
    fn new() -> Self { Segs { total: 0, segs: vec![(0, vec![])], expect: vec![], compared: 0, mismatch: None } }
    fn tail(&self) -> File { let s = self.segs.last().unwrap(); File { bytes: &s.1, base: s.0 } }
    fn get(&self, off: u64, len: u64) -> Result<&[u8], String> {
        for (o, b) in &self.segs { if off >= *o && off + len <= *o + b.len() as u64 { return Ok(&b[(off - o) as usize..(off - o + len) as usize]); } }
        Err(format!("range {}+{} was not kept", off, len))
    }
}
impl Write for Segs {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.len() > 4 * KEEP {
            let mut p = 0;
            for (v, n) in &self.expect { for _ in 0..*n { let k = v.len().min(b.len() - p); if b[p..p + k] != v[..k] { self.mismatch = Some(p as u64); } p += k; self.compared += k as u64; } }
            let k = b.len() - KEEP;
            self.segs.push((self.total + k as u64, b[k..].to_vec()));
        } else { self.segs.last_mut().unwrap().1.extend_from_slice(b); }
        self.total += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn fail(e: Fail) -> String { format!("the writer did not produce the file: {}", e) }

fn noise(n: usize) -> Vec<u8> { let mut r = Rng::new(99); let mut v = Vec::with_capacity(n + 8); while v.len() < n { v.extend_from_slice(&r.u64().to_le_bytes()); } v.truncate(n); v }

pub fn run(id: &str, k: Kind, cov: &mut Cov) -> Result<(), String> {
    match k {
        Kind::File => file_over_4g(id, Codec::None, cov),
        Kind::FileSnappy => file_over_4g(id, Codec::Snappy(DEFAULT_BLOCK), cov),
        Kind::Stream => stream_over_4g(id, Codec::None, cov),
        Kind::StreamSnappy => stream_over_4g(id, Codec::Snappy(DEFAULT_BLOCK), cov),
        Kind::Rows(k) => rows_over_2_32(id, k, cov),
    }
}

/// 70 stripes of one 64 MiB value, then ordinary small stripes, which lie beyond 4 GiB.
fn file_over_4g(id: &str, codec: Codec, cov: &mut Cov) -> Result<(), String> {
    let ty = st(vec![Ty::Binary, Ty::Long, Ty::Str, list(Ty::Timestamp)]);
    let mut c = rnd("stripes beyond 4 GiB", 5, ty.clone(), 700, vec![100; 7], cfg(30, codec, 1), 9000, 9000);
    c.order = Order::ColumnMajor;
    const N: usize = 70;
    let big = noise(64 << 20);
    let mut after = vec![];
    let sink = catch_io(|| {
        let mut w = Writer::new(Segs::new(), &ty.schema(), c.cfg.build())?;
        for i in 0..N {
            let s = w.data().unwrap_struct();
            s.write();
            s.child(0).unwrap_binary().write(&big);
            s.child(1).unwrap_long().write(i as i64 * 1000);
            s.child(2).unwrap_string().write("s");
            s.child(3).unwrap_list().write(0);
            w.write_batch(1)?;
            after.push(w.inner().total);
        }
        let bounds = c.row_bounds();
        let cuts = c.cuts(&bounds);
        let mut rng = Rng::new(0);
        for b in 0..c.batches.len() {
            let from: Vec<Cut> = cuts.iter().map(|x| x[b]).collect();
            let to: Vec<Cut> = cuts.iter().map(|x| x[b + 1]).collect();
            feed(&c, w.data(), &from, &to, None, (bounds[b], bounds[b + 1]), &mut rng);
            w.write_batch(c.batches[b] as u64)?;
            after.push(w.inner().total);
        }
        w.finish()
    }).map_err(fail)?;
    cov.add("files over 4 GiB", (sink.total > 1 << 32) as u64);
    cov.sigs.insert(sink.total);
    cov.max("file length", sink.total);
    let f = sink.tail();
    let head = sink.get(0, 3)?.to_vec();
    let t = parse_tail(f)?;
    let rows = (N + c.rows) as u64;
    if t.footer.stripes.len() != N + c.batches.len() { return Err(format!("{} stripes instead of {}", t.footer.stripes.len(), N + c.batches.len())); }
    match id {
        "C03" => return layout(f, &head, c.infos.len(), rows, c.cfg.stride, cov),
        "C21" => {
            for (i, (s, a)) in t.footer.stripes.iter().zip(&after).enumerate() { if s.offset + s.index + s.data + s.footer != *a { return Err(format!("after batch {} the destination held {} bytes, stripe {} ends at {}", i, a, i, s.offset + s.index + s.data + s.footer)); } }
            return Ok(());
        }
        "C05" => {
            for i in 0..N {
                let m = Msg::new(t.stripe_stats.get(i).and_then(|s| s.get(1)).ok_or("no statistics")?)?;
                let g = m.m(8)?.ok_or("no binary statistics")?.s(1)?;
                if g != Some(big.len() as i64) { return Err(format!("stripe {}: total length {:?} instead of {}", i, g, big.len())); }
            }
        }
        "C06" => {
            let mut seen = stats::Seen::default();
            for (k, raw) in t.footer.stats.iter().enumerate() {
                let col = &c.cols[k];
                if k == 1 {
                    let m = Msg::new(raw)?;
                    let w = N as i64 * big.len() as i64 + if let Vals::Bin(v) = &col.vals { v.iter().map(|x| x.len() as i64).sum::<i64>() } else { 0 };
                    if m.u0(1)? != (N + col.vals.len()) as u64 { return Err(format!("file statistics of column 1: numberOfValues {}", m.u0(1)?)); }
                    let g = m.m(8)?.ok_or("no binary statistics")?.s(1)?;
                    if g != Some(w) { return Err(format!("file statistics of column 1: total length {:?} instead of {}", g, w)); }
                    continue;
                }
                let extra = if k >= 5 { 0 } else { N };
                let mut all = Col { present: vec![true; extra], vals: match &col.vals { Vals::Long(_) => Vals::Long((0..N as i64).map(|i| i * 1000).collect()), Vals::Str(_) => Vals::Str(vec!["s".into(); N]), Vals::Len(_) => Vals::Len(vec![0; N]), Vals::Unit(n) => Vals::Unit(N + n), o => o.clone() } };
                all.present.extend(&col.present);
                match (&mut all.vals, &col.vals) { (Vals::Long(a), Vals::Long(b)) => a.extend(b), (Vals::Str(a), Vals::Str(b)) => a.extend(b.iter().cloned()), (Vals::Len(a), Vals::Len(b)) => a.extend(b), _ => {} }
                let end = (all.present.len(), all.vals.len());
                stats::check(&c.infos[k].ty, &all, (0, 0), end, raw, &mut seen).map_err(|e| format!("file statistics of column {}: {}", k, e))?;
            }
            cov.add("statistics compared", seen.msgs);
            return Ok(());
        }
        _ => {}
    }
    // the stripes beyond 4 GiB, with their own model
    let first = t.footer.stripes[N].offset;
    if first <= 1 << 32 || first < f.base { return Err(format!("stripe {} starts at {}", N, first)); }
    let bytes = &f.bytes[(first - f.base) as usize..];
    with_base(first, || match id {
        "C01" | "C02" => round_trip(&c, bytes, cov),
        "C04" => framing(&c, bytes, cov),
        "C05" => stripe_stats(&c, bytes, cov),
        "C07" => group_stats(&c, bytes, cov),
        "C08" => seeks(&c, bytes, cov),
        "C09" => group_bounds(&c, bytes, cov),
        "C10" => schema_fidelity(&c, bytes, cov),
        "C20" => streams_ok(&c, bytes, cov),
        _ => Ok(()),
    })
}

/// One stripe whose data stream is longer than 4 GiB; a row group per value.
fn stream_over_4g(id: &str, codec: Codec, cov: &mut Cov) -> Result<(), String> {
    let (n, size) = if codec == Codec::None { (17usize, 256usize << 20) } else { (70, 62 << 20) };
    let big = std::sync::Arc::new(if codec == Codec::None { let mut v = vec![0x5au8; size]; for i in (0..size).step_by(4099) { v[i] = (i >> 12) as u8; } v } else { noise(size) });
    let small: Vec<Vec<u8>> = (0..300usize).map(|i| vec![i as u8; i % 7]).collect();
    let mut s = Segs::new();
    if id == "C01" && codec == Codec::None { s.expect = vec![(big.clone(), n)]; }
    let sink = catch_io(|| {
        let mut w = Writer::new(s, &Ty::Binary.schema(), cfg(1, codec, usize::MAX).build())?;
        for _ in 0..n { w.data().unwrap_binary().write(&big); w.write_batch(1)?; }
        for x in &small { w.data().unwrap_binary().write(x); }
        w.write_batch(small.len() as u64)?;
        w.finish()
    }).map_err(fail)?;
    cov.max("stream length", sink.total);
    cov.add("files over 4 GiB", (sink.total > 1 << 32) as u64);
    cov.sigs.insert(sink.total);
    let f = sink.tail();
    if let Some(p) = sink.mismatch { return Err(format!("the data stream differs from the values in the value at {}", p)); }
    cov.add("bytes of values compared", sink.compared);
    let rows = (n + small.len()) as u64;
    if id == "C03" { layout(f, &sink.get(0, 3)?.to_vec(), 1, rows, 1, cov)?; }
    let t = parse_tail(f)?;
    if t.footer.stripes.len() != 1 { return Err(format!("{} stripes instead of 1", t.footer.stripes.len())); }
    let si = &t.footer.stripes[0];
    if si.rows != rows || t.footer.rows != Some(rows) { return Err(format!("{} rows instead of {}", si.rows, rows)); }
    let lens: Vec<usize> = std::iter::repeat(size).take(n).chain(small.iter().map(|x| x.len())).collect();
    let total: u64 = lens.iter().map(|x| *x as u64).sum();
    let sum = |raw: &[u8]| -> Result<(u64, Option<i64>), String> { let m = Msg::new(raw)?; let g = m.m(8)?.ok_or("no binary statistics")?.s(1)?; Ok((m.u0(1)?, g)) };
    if id == "C05" { let g = sum(&t.stripe_stats[0][0])?; if g != (rows, Some(total as i64)) { return Err(format!("stripe statistics (values, length) {:?} instead of {:?}", g, (rows, total))); } return Ok(()); }
    if id == "C06" { let g = sum(&t.footer.stats[0])?; if g != (rows, Some(total as i64)) { return Err(format!("file statistics (values, length) {:?} instead of {:?}", g, (rows, total))); } return Ok(()); }
    let sf = stripe_footer(f, &t.ps, si)?;
    let get = |kind: u64| sf.streams.iter().find(|s| s.kind == kind).ok_or(format!("no stream of kind {}", kind));
    let data = get(K_DATA)?;
    let (b, hdr) = if codec == Codec::None { (1u64 << 40, 0) } else { (DEFAULT_BLOCK as u64, 3 * total.div_ceil(DEFAULT_BLOCK as u64)) };
    // incompressible blocks are stored as they are; only the last block holds anything else
    if (codec == Codec::None && data.len != total) || data.len > total + hdr || data.len < total + hdr - b.min(10_000) { return Err(format!("data stream of {} bytes for {} bytes of values", data.len, total)); }
    let ls = get(K_LENGTH)?;
    let lp = unframe(sink.get(ls.off, ls.len)?, t.ps.kind)?;
    let mut d = IntDec::new(&lp.data, 0, false);
    for (i, l) in lens.iter().enumerate() { let x = d.next()?; if x != *l as i64 { return Err(format!("length {} is {} instead of {}", i, x, l)); } }
    if codec == Codec::None && (id == "C01" || id == "C08") {
        let tail = sink.get(data.off + n as u64 * size as u64, total - n as u64 * size as u64)?;
        if tail != small.concat() { return Err("the values after the first 4 GiB differ".into()); }
    }
    if id == "C04" {
        let last = sink.get(data.off + (total / b) * (b + 3), data.len - (total / b) * (b + 3))?;
        let p = unframe(last, t.ps.kind)?;
        let mut want = big[..].to_vec();
        want.extend(small.concat());
        if p.chunks.len() != 1 || !want.ends_with(&p.data) || p.data.len() as u64 != total % b { return Err("the last chunk of the data stream does not hold the last values".into()); }
        cov.add("chunks beyond 4 GiB", 1);
    }
    if id != "C08" && id != "C07" { return Ok(()); }
    let ix = get(K_INDEX)?;
    let es = index_entries(&unframe(sink.get(ix.off, ix.len)?, t.ps.kind)?)?;
    if es.len() != lens.len() { return Err(format!("{} row-index entries for {} row groups", es.len(), lens.len())); }
    let mut at = 0u64;
    for (i, e) in es.iter().enumerate() {
        if id == "C07" {
            let g = sum(e.stats.as_ref().ok_or("no statistics")?)?;
            if g != (1, Some(lens[i] as i64)) { return Err(format!("row group {}: (values, length) {:?} instead of (1, {})", i, g, lens[i])); }
        } else {
            let w = |x: String| format!("entry {} positions {:?}: {}", i, e.positions, x);
            let mut it = e.positions.iter();
            let got = if codec == Codec::None { *it.next().ok_or("no position")? } else {
                let (c, o) = (*it.next().ok_or("no position")?, *it.next().ok_or("no position")?);
                if c % (b + 3) != 0 || o > b { return Err(w("not the start of a chunk".into())); }
                c / (b + 3) * b + o
            };
            if got != at { return Err(w(format!("the value is at {} of the data", at))); }
            let o = lp.seek(&mut it)?;
            let mut d = IntDec::new(&lp.data, o, false);
            for _ in 0..*it.next().ok_or("no run offset")? { d.next()?; }
            let l = d.next()?;
            if l != lens[i] as i64 || it.next().is_some() { return Err(w(format!("length {} instead of {}", l, lens[i]))); }
            if at > 1 << 32 { cov.add("entries beyond 4 GiB", 1); }
        }
        at += lens[i] as u64;
    }
    Ok(())
}

/// More than 2^32 rows of the same value (or null) in three batches.
fn rows_over_2_32(id: &str, k: usize, cov: &mut Cov) -> Result<(), String> {
    let (ty, name) = match k {
        0 => (Ty::Struct(vec![]), "empty struct"), 1 => (Ty::Boolean, "boolean"), 2 => (Ty::Long, "long"), 3 => (Ty::Short, "nulls"),
        4 => (list(Ty::Boolean), "list"), 5 => (Ty::Union(vec![Ty::Boolean, Ty::Int]), "union nulls"), 6 => (Ty::Date, "date"), 7 => (Ty::Timestamp, "timestamp"), 8 => (Ty::Str, "string"), _ => (map(Ty::Int, Ty::Int), "map"),
    };
    let null = k == 3 || k == 5;
    let batches: [u64; 3] = [(1 << 31) + 5, (1 << 31) - 7, 1003];
    let n: u64 = batches.iter().sum();
    let stride = u32::MAX - (k as u32 % 2) * 1000;
    let mut w = Writer::new(Vec::new(), &ty.schema(), cfg(stride, Codec::None, usize::MAX).build()).map_err(|e| e.to_string())?;
    let bytes = catch_io(|| {
        for b in batches {
            let d = w.data();
            macro_rules! rep { ($x:expr) => { for _ in 0..b { $x } } }
            if null { match d { Data::Long(x) => rep!(x.write_null()), d => { let x = d.unwrap_union(); rep!(x.write_null()) } } } else {
                match &ty {
                    Ty::Struct(_) => { let x = d.unwrap_struct(); rep!(x.write()) }
                    Ty::Boolean => { let x = d.unwrap_boolean(); rep!(x.write(true)) }
                    Ty::Long | Ty::Date => { let x = d.unwrap_long(); rep!(x.write(3)) }
                    Ty::List(_) => { let x = d.unwrap_list(); rep!(x.write(0)) }
                    Ty::Map(_, _) => { let x = d.unwrap_map(); rep!(x.write(0)) }
                    Ty::Timestamp => { let x = d.unwrap_timestamp(); rep!(x.write_nanos_epoch(1_500_000_000, 7_000_000)) }
                    _ => { let x = d.unwrap_string(); rep!(x.write("")) }
                }
            }
            w.write_batch(b)?;
        }
        w.finish()
    }).map_err(fail)?;
    cov.add("files of more than 2^32 rows", 1);
    cov.max("rows per file", n);
    cov.sigs.insert(crate::rng::hash_bytes(&bytes));
    let f = File { bytes: &bytes, base: 0 };
    let ncols = infos(&ty).len();
    layout(f, &bytes[..3], ncols, n, stride, cov).map_err(|e| format!("{}: {}", name, e))?;
    let t = parse_tail(f)?;
    if t.footer.stripes.len() != 1 || t.footer.stripes[0].rows != n { return Err(format!("{}: stripes {:?} for {} rows", name, t.footer.stripes, n)); }
    let stat = |raw: &[u8], n: u64| -> Result<(), String> {
        let m = Msg::new(raw)?;
        let c = if null { 0 } else { n };
        if m.u0(1)? != c { return Err(format!("numberOfValues {} instead of {}", m.u0(1)?, c)); }
        let hn = m.u(10)?.unwrap_or(1) == 1;
        if hn != (null && n > 0) { return Err(format!("hasNull {}", hn)); }
        if null { return Ok(()); }
        match &ty {
            Ty::Boolean => { let v = m.m(5)?.ok_or("no bucket statistics")?.repu(1)?; if v.first() != Some(&n) { return Err(format!("bucket counts {:?} instead of {}", v, n)); } }
            Ty::Long => { let s = m.m(2)?.ok_or("no integer statistics")?; if (s.s(1)?, s.s(2)?, s.s(3)?) != (Some(3), Some(3), Some(3 * n as i64)) { return Err(format!("integer statistics {:?}", (s.s(1)?, s.s(2)?, s.s(3)?))); } }
            Ty::Date => { let s = m.m(7)?.ok_or("no date statistics")?; if (s.s(1)?, s.s(2)?) != (Some(3), Some(3)) { return Err("date statistics".into()); } }
            Ty::Timestamp => { let s = m.m(9)?.ok_or("no timestamp statistics")?; if (s.s(1)?, s.s(2)?) != (Some(1_500_000_000_007), Some(1_500_000_000_007)) { return Err("timestamp statistics".into()); } }
            Ty::Str => { let s = m.m(4)?.ok_or("no string statistics")?; if (s.b(1)?, s.b(2)?, s.s(3)?) != (Some(b"".as_slice()), Some(b"".as_slice()), Some(0)) { return Err("string statistics".into()); } }
            _ => {}
        }
        Ok(())
    };
    let w = |w: &str, e: String| format!("{}: {} statistics: {}", name, w, e);
    stat(&t.footer.stats[0], n).map_err(|e| w("file", e))?;
    stat(&t.stripe_stats[0][0], n).map_err(|e| w("stripe", e))?;
    let sf = stripe_footer(f, &t.ps, &t.footer.stripes[0])?;
    let cds = stripe_cols(f, &t.ps, &sf, ncols, true)?;
    let es = index_entries(cds[0].index.as_ref().ok_or("no row index")?)?;
    let groups = n.div_ceil(stride as u64);
    if es.len() as u64 != groups { return Err(format!("{}: {} row-index entries instead of {}", name, es.len(), groups)); }
    for (i, e) in es.iter().enumerate() { stat(e.stats.as_ref().ok_or("no statistics")?, (n - i as u64 * stride as u64).min(stride as u64)).map_err(|e| w(&format!("row group {}", i), e))?; }
    if id == "C01" || id == "C20" || id == "C16" {
        // the streams group by group
        let bools = |p: &Plain, v: bool| -> Result<(), String> {
            let (d, mut p, mut bits) = (&p.data, 0, 0u64);
            while p < d.len() {
                let c = d[p] as usize;
                let (k, from, to) = if c < 128 { (c + 3, p + 1, p + 2) } else { (256 - c, p + 1, p + 1 + 256 - c) };
                let vals = d.get(from..to).ok_or("truncated")?;
                let full = if v { 0xff } else { 0 };
                let last = bits + k as u64 * 8 > n;
                if vals.iter().enumerate().any(|(i, x)| *x != full && !(last && i + 1 == vals.len() && v && (n % 8 != 0) && *x == 0xffu8 << (8 - n % 8))) { return Err(format!("wrong bits around slot {}", bits)); }
                bits += k as u64 * 8;
                p = to;
            }
            if bits != n.div_ceil(8) * 8 { return Err(format!("{} bits for {} slots", bits, n)); }
            Ok(())
        };
        let ints = |p: &Plain, v: i64, signed: bool| -> Result<(), String> {
            let (d, mut p, mut m) = (&p.data, 0, 0u64);
            while p < d.len() {
                let c = d[p] as usize;
                p += 1;
                let k = if c < 128 { if d.get(p) != Some(&0) { return Err("a run with a delta".into()); } p += 1; 1 } else { 256 - c };
                for _ in 0..k { let x = crate::wire::varint(d, &mut p)?; let x = if signed { crate::wire::zz(x) } else { x as i64 }; if x != v { return Err(format!("value {} instead of {} around slot {}", x, v, m)); } }
                m += if c < 128 { c as u64 + 3 } else { k as u64 };
            }
            if m != n { return Err(format!("{} values instead of {}", m, n)); }
            Ok(())
        };
        let cd = &cds[0];
        let r = (|| {
            if null { bools(cd.present.as_ref().ok_or("no null stream")?, false)?; return Ok(()); }
            if cd.present.is_some() { return Err("a null stream although nothing is null".to_string()); }
            let need = |p: &'_ Option<Plain>| p.clone().ok_or("a stream is missing".to_string());
            match &ty {
                Ty::Boolean => bools(&need(&cd.data)?, true),
                Ty::Long | Ty::Date => ints(&need(&cd.data)?, 3, true),
                Ty::List(_) | Ty::Map(_, _) | Ty::Str => ints(&need(&cd.length)?, 0, false),
                Ty::Timestamp => { ints(&need(&cd.data)?, 1_500_000_000 - ORC_EPOCH, true)?; ints(&need(&cd.secondary)?, 7 << 3 | 5, false) }
                _ => Ok(()),
            }
        })();
        r.map_err(|e| format!("{}: {}", name, e))?;
    }
    Ok(())
}
