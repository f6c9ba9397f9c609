//! C23: configurations however they are built. C24: what column handles say. C25: work done, counted in instructions.
use crate::checks::*;
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use crate::orc::*;
use crate::rng::{hash_bytes, mix, Rng};
use orc_format::schema::Schema;
use orc_format::writer::compression::*;
use orc_format::writer::data::{BaseData, Data};
use orc_format::writer::{Config, Writer};

fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} and {}, first difference at byte {}", a.len(), b.len(), i)
}

// ---- C23 ----
#[derive(Clone)]
enum Builder { No(NoCompression), Snappy(SnappyCompression, usize), Zstd(ZstdCompression, usize, i32) }
impl Builder {
    fn random(r: &mut Rng) -> Self {
        match r.below(5) { 0 => Builder::No(NoCompression::new()), 1 | 2 => Builder::Snappy(SnappyCompression::new(), DEFAULT_BLOCK), _ => Builder::Zstd(ZstdCompression::new(), DEFAULT_BLOCK, 3) }
    }
    fn step(self, r: &mut Rng) -> Self {
        let b = *r.pick(&[64usize, 100, 999, 1000, 2000, 3000, 4095, 4096, 4097, 8192, 16_384, 20_000, 32_768, 65535, 65536, 70000, DEFAULT_BLOCK, DEFAULT_BLOCK + 1, 1 << 20, 0x7ffffe, 0x7fffff]);
        match self {
            Builder::No(x) => Builder::No(x),
            Builder::Snappy(s, _) => Builder::Snappy(s.with_block_size(b), b),
            Builder::Zstd(z, ob, ol) => if r.bool() { Builder::Zstd(z.with_block_size(b), b, ol) } else {
                let l = *r.pick(&[1, 2, 3, 4, 5, 6, 7, 9, 11, 13, 15, 17, 19, 20, 21, 22]);
                Builder::Zstd(z.with_compression_level(l), ob, l)
            },
        }
    }
    fn build(self) -> (Compression, Codec) {
        match self { Builder::No(x) => (x.build(), Codec::None), Builder::Snappy(s, b) => (s.build(), Codec::Snappy(b)), Builder::Zstd(z, b, l) => (z.build(), Codec::Zstd(b, l)) }
    }
}

/// Runs a history with the given configuration value instead of the one the case would build.
fn run_with(c: &Case, cfg: Config) -> Result<Run, Fail> {
    let mut after = vec![];
    let bytes = catch_io(|| {
        let mut w = Writer::new(Vec::new(), &c.ty.schema(), cfg)?;
        let cuts = c.cuts(&c.row_bounds());
        for b in 0..c.batches.len() {
            for id in 0..c.infos.len() {
                let (x, y) = (cuts[id][b], cuts[id][b + 1]);
                if y.0 > x.0 { write_ops(nav(w.data(), &c.ty, &c.infos[id].path, c.alt ^ id as u64), &c.cols[id], x, y.0 - x.0, c.alt); }
            }
            w.write_batch(c.batches[b] as u64)?;
            after.push(w.inner().len());
        }
        w.finish()
    })?;
    Ok(Run { bytes, after })
}

fn text(r: &mut Rng, n: usize) -> Vec<u8> {
    let words: Vec<Vec<u8>> = (0..600).map(|_| (0..2 + r.us(9)).map(|_| b'a' + (r.below(5) * r.below(6)) as u8).collect()).collect();
    let mut v = vec![];
    while v.len() < n { let i = r.us(600).min(r.us(600)); v.extend(&words[i]); v.push(b' '); if r.chance(1, 40) { v.extend(r.u64().to_string().into_bytes()); } }
    v.truncate(n);
    v
}

/// What the file itself shows of the configuration.
fn config_shown(c: &Case, r: &Run, cov: &mut Cov) -> Result<(), String> {
    let fl = full(&r.bytes)?;
    let ps = &fl.tail.ps;
    let (kind, block) = match c.cfg.codec { Codec::None => (0, 0), Codec::Snappy(b) => (2, b), Codec::Zstd(b, _) => (5, b) };
    if ps.kind != kind { return Err(format!("the file declares codec {}, configured is {}", ps.kind, kind)); }
    if kind != 0 && ps.block != block as u64 { return Err(format!("the file declares block size {}, configured is {}", ps.block, block)); }
    if fl.tail.footer.stride != Some(c.cfg.stride as u64) { return Err(format!("the file declares an index stride of {:?}, configured is {}", fl.tail.footer.stride, c.cfg.stride)); }
    for (k, (si, sf)) in fl.stripes.iter().enumerate() {
        let want = (si.rows + c.cfg.stride as u64 - 1) / c.cfg.stride as u64;
        for st in &sf.streams {
            let p = unframe(file(&r.bytes).get(st.off, st.len)?, kind)?;
            if st.kind == K_INDEX && st.col == 0 {
                let n = index_entries(&p)?.len() as u64;
                if n != want { return Err(format!("stripe {} of {} rows has {} row groups, {} with a stride of {}", k, si.rows, n, want, c.cfg.stride)); }
                cov.add("row-group counts compared with the configured stride", 1);
            }
            if st.kind == K_INDEX { continue; }
            // blocks of the configured size are used: none larger, and not many smaller ones
            if let Some(ch) = p.chunks.iter().find(|ch| ch.ulen > block) { return Err(format!("stripe {} column {} stream kind {}: a chunk holds {} bytes, the configured block size is {}", k, st.col, st.kind, ch.ulen, block)); }
            let fewest = (p.data.len() + block.max(1) - 1) / block.max(1);
            if kind != 0 && p.chunks.len() > 2 * fewest + 1 { return Err(format!("stripe {} column {} stream kind {}: {} bytes in {} chunks, the configured block size is {}", k, st.col, st.kind, p.data.len(), p.chunks.len(), block)); }
            if let Codec::Zstd(_, l) = c.cfg.codec {
                let (mut at, mut expected, mut found, mut small) = (0, 0usize, 0usize, 0usize);
                for ch in &p.chunks {
                    let d = &p.data[at..at + ch.ulen];
                    at += ch.ulen;
                    if ch.original || d.len() < 200 { continue; }
                    let e = zstd::bulk::compress(d, l).map_err(|e| e.to_string())?.len();
                    let got = ch.clen;
                    if got.max(e) - got.min(e) > 16 { return Err(format!("stripe {} column {} stream kind {}: a chunk of {} bytes takes {} bytes, level {} takes {}", k, st.col, st.kind, d.len(), got, l, e)); }
                    (expected, found, small) = (expected + e, found + got, small + 1);
                    cov.add("chunks compared with the configured level", 1);
                }
                // the headers of a chunk may differ by a few bytes, the content may not
                if expected.max(found) - expected.min(found) > 8 * small { return Err(format!("stripe {} column {} stream kind {}: {} chunks take {} bytes, level {} takes {}", k, st.col, st.kind, small, found, l, expected)); }
            }
        }
    }
    Ok(())
}

pub fn c23(i: usize, seed: u64, cov: &mut Cov) -> Result<(), (String, String)> {
    let mut r = Rng::new(seed);
    if i == 0 { return illegal(cov).map_err(|m| (m, String::new())); }
    // slots: configuration values with what they should mean
    let fresh = || (Config::new(), Cfg { stride: DEFAULT_STRIDE, codec: Codec::None, stripe_size: DEFAULT_STRIPE, defaults: false });
    let mut slots: Vec<(Config, Cfg)> = vec![fresh()];
    let mut comps: Vec<(Compression, Codec)> = vec![];
    let mut builders: Vec<Builder> = vec![];
    let mut log: Vec<String> = vec![];
    for _ in 0..4 + r.us(22) {
        let k = r.us(slots.len());
        match r.below(12) {
            0 => slots.push(fresh()),
            1 => { let c = slots[k].clone(); log.push(format!("clone {}", k)); slots.push(c); }
            2 | 3 => {
                let v = *r.pick(&[1u32, 2, 7, 10, 100, 127, 128, 1000, 9999, 10000, 10001, 65536, u32::MAX]);
                let (c, mut m) = slots.swap_remove(k);
                m.stride = v;
                log.push(format!("stride {} on {}", v, k));
                slots.push((if r.bool() { c.with_row_index_stride(v) } else { c.clone().with_row_index_stride(v) }, m));
            }
            4 | 5 => {
                let v = *r.pick(&[0usize, 1, 100, 500, 2000, 5000, 20000, DEFAULT_STRIPE, 1 << 32, (1 << 32) + 100, usize::MAX]);
                let (c, mut m) = slots.swap_remove(k);
                m.stripe_size = v;
                log.push(format!("stripe size {} on {}", v, k));
                slots.push((if r.bool() { c.with_stripe_size(v) } else { c.clone().with_stripe_size(v) }, m));
            }
            6 | 7 => {
                let mut b = if !builders.is_empty() && r.bool() { builders[r.us(builders.len())].clone() } else { Builder::random(&mut r) };
                for _ in 0..r.us(4) { b = b.step(&mut r); if r.chance(1, 3) { builders.push(b.clone()); } }
                let (z, m) = b.build();
                log.push(format!("built {:?}", m));
                comps.push((z, m));
            }
            8 | 9 | 10 => if !comps.is_empty() {
                let (z, zm) = comps[r.us(comps.len())].clone();
                let (c, mut m) = slots.swap_remove(k);
                m.codec = zm;
                log.push(format!("{:?} on {}", zm, k));
                slots.push((c.with_compression(z), m));
            },
            _ => {
                // a writer built from it, used and dropped or finished, changes nothing
                let c = slots[k].0.clone();
                let _ = catch(|| { let mut w = Writer::new(Vec::new(), &Schema::Long, c).unwrap(); for j in 0..50 { w.data().unwrap_long().write(j); w.write_batch(1).unwrap(); } if k % 2 == 0 { let _ = w.finish(); } });
                log.push(format!("writer from {}", k));
            }
        }
        if slots.len() > 5 { slots.remove(0); }
    }
    for (cfg, m) in slots {
        let mut p = Profile { flat: true, max_rows: 1500, budget: 6000, multi_batch: true, ..Profile::default() };
        p.nested = false;
        let mut cr = Rng::new(r.u64());
        let ty = if r.bool() { Ty::Struct(vec![("a".into(), Ty::Long), ("b".into(), Ty::Binary)]) } else { root_ty(&mut cr, &p) };
        let mut c = gen_for(r.u64(), &mut cr, &p, ty, m.codec);
        if r.chance(1, 3) {
            // text, to tell levels and block sizes apart
            let n = 1 + r.us(3);
            let v: Vec<Vec<u8>> = (0..n).map(|_| { let l = 3000 + r.us(60_000); text(&mut r, l) }).collect();
            c = crate::directed::full_one("text", Ty::Binary, Vals::Bin(v), n, m.clone());
        }
        c.cfg = m;
        c.order = Order::ColumnMajor;
        let detail = |c: &Case| format!("{}\n{}", log.join("; "), c.describe());
        let a = run_with(&c, cfg).map_err(|e| (e.to_string(), detail(&c)))?;
        let b = run(&c).map_err(|e| (e.to_string(), detail(&c)))?;
        if a.bytes != b.bytes { return Err((format!("a configuration built in another way gives other bytes ({})", diff(&b.bytes, &a.bytes)), detail(&c))); }
        config_shown(&c, &a, cov).map_err(|m| (m, detail(&c)))?;
        rollover(&c, &a, cov).map_err(|m| (m, detail(&c)))?;
        if c.rows > 0 { cov.sigs.insert(hash_bytes(&a.bytes)); }
        cov.add("configurations observed", 1);
        if cov.samples.len() < 2 { cov.samples.push(format!("{}\n{:?}", log.join("; "), c.cfg)); }
    }
    cov.add("configuration calls", log.len() as u64);
    Ok(())
}

fn illegal(cov: &mut Cov) -> Result<(), String> {
    for b in [0x800000usize, 0x800001, 0xffffff, 0x1000000, 1 << 31, 1 << 32, (1 << 32) + 1000, usize::MAX] {
        if catch(|| SnappyCompression::new().with_block_size(b).build()).is_ok() { return Err(format!("a Snappy block size of {} was accepted: chunk headers cannot express it", b)); }
        if catch(|| ZstdCompression::new().with_block_size(b).build()).is_ok() { return Err(format!("a Zstandard block size of {} was accepted: chunk headers cannot express it", b)); }
        cov.add("illegal settings refused", 2);
    }
    for b in [1usize, 2, 1000, 0x7ffffe, 0x7fffff] {
        catch(|| (SnappyCompression::new().with_block_size(b).build(), ZstdCompression::new().with_block_size(b).build())).map_err(|m| format!("block size {} was refused: {}", b, m))?;
        cov.add("legal settings accepted", 2);
    }
    for l in [i32::MIN, -131072, -7, -1, 0, 23, 24, 100, i32::MAX] {
        if catch(|| ZstdCompression::new().with_compression_level(l).build()).is_ok() { return Err(format!("Zstandard level {} was accepted", l)); }
        cov.add("illegal settings refused", 1);
    }
    for l in 1..=22 { catch(|| ZstdCompression::new().with_compression_level(l).build()).map_err(|m| format!("Zstandard level {} was refused: {}", l, m))?; cov.add("legal settings accepted", 1); }
    Ok(())
}

// ---- C24 ----
/// Walks every handle below `d`, by each accessor.
fn handles(d: &mut Data, ty: &Ty, id: &mut u32, cov: &mut Cov) -> Result<usize, String> {
    let me = *id;
    *id += 1;
    if d.column_id() != me { return Err(format!("the handle of column {} ({}) says it is column {}", me, short(ty), d.column_id())); }
    let bad = |what: &str, got: String| Err(format!("column {} ({}): {} is {}", me, short(ty), what, got));
    let mut below = 0usize;
    let mut kids = 0;
    cov.add("handles observed", 1);
    let inner = match (&mut *d, ty) {
        (Data::Boolean(x), Ty::Boolean) => x.column_id(),
        (Data::Float(x), Ty::Float) => x.column_id(),
        (Data::Double(x), Ty::Double) => x.column_id(),
        (Data::Timestamp(x), Ty::Timestamp) => x.column_id(),
        (Data::Binary(x), Ty::Binary) => x.column_id(),
        (Data::Long(x), _) => { match (x.schema(), ty) { (Schema::Short, Ty::Short) | (Schema::Int, Ty::Int) | (Schema::Long, Ty::Long) | (Schema::Date, Ty::Date) => {} _ => return bad("its schema", "another type".into()) } x.column_id() }
        (Data::String(x), _) => { match (x.schema(), ty) { (Schema::String, Ty::Str) => {} (Schema::Char(a), Ty::Char(b)) if a == b => {} (Schema::VarChar(a), Ty::VarChar(b)) if a == b => {} _ => return bad("its schema", "another type or length".into()) } x.column_id() }
        (Data::Decimal(x), Ty::Decimal(p, s)) => { if x.precision() != *p || x.scale() != *s { return bad("precision and scale", format!("{}, {}", x.precision(), x.scale())); } x.column_id() }
        (Data::Struct(x), Ty::Struct(f)) => {
            if x.children().len() != f.len() { return bad("its number of fields", x.children().len().to_string()); }
            for (i, (_, t)) in f.iter().enumerate() {
                let at = *id;
                let a = x.children()[i].column_id();
                let b = x.child(i).column_id();
                if a != at || b != at { return Err(format!("field {} of column {}: children() gives column {}, child() column {}, it is column {}", i, me, a, b, at)); }
                below += handles(x.child(i), t, id, cov)?;
                kids += 1;
            }
            StructId(x)
        }
        (Data::Union(x), Ty::Union(f)) => {
            if x.children().len() != f.len() { return bad("its number of variants", x.children().len().to_string()); }
            for (i, t) in f.iter().enumerate() {
                let at = *id;
                let a = x.children()[i].column_id();
                let b = x.child(i).column_id();
                if a != at || b != at { return Err(format!("variant {} of column {}: children() gives column {}, child() column {}, it is column {}", i, me, a, b, at)); }
                below += handles(x.child(i), t, id, cov)?;
                kids += 1;
            }
            x.column_id()
        }
        (Data::List(x), Ty::List(t)) => { below += handles(x.child(), t, id, cov)?; kids = 1; x.column_id() }
        (Data::Map(x), Ty::Map(k, v)) => {
            let at = *id;
            let (a, b) = (x.keys().column_id(), x.children().0.column_id());
            if a != at || b != at { return bad("its key column", format!("{} by keys(), {} by children()", a, b)); }
            below += handles(x.keys(), k, id, cov)?;
            let at = *id;
            let (a, b) = (x.values().column_id(), x.children().1.column_id());
            if a != at || b != at { return bad("its value column", format!("{} by values(), {} by children()", a, b)); }
            below += handles(x.values(), v, id, cov)?;
            kids = 2;
            x.column_id()
        }
        _ => return bad("its handle", "of another type".into()),
    };
    if inner != me { return bad("its own column number", inner.to_string()); }
    let e = d.estimated_size();
    if e < below { return Err(format!("column {} says it holds {} bytes, its {} children {}", me, e, kids, below)); }
    Ok(e)
}
#[allow(non_snake_case)]
fn StructId(x: &orc_format::writer::data::StructData) -> u32 { x.column_id() }

pub fn c24(c: &Case, cov: &mut Cov) -> Result<(), String> {
    let mut w = Writer::new(Vec::<u8>::new(), &c.ty.schema(), c.cfg.build()).map_err(|e| e.to_string())?;
    let bounds = c.row_bounds();
    let cuts = c.cuts(&bounds);
    let empty = handles(w.data(), &c.ty, &mut 0, cov)?;
    let plain = c.cfg.codec == Codec::None;
    let mut start = 0usize;
    let mut last = empty;
    let mut brackets = 0;
    for b in 0..c.batches.len() {
        for id in 0..c.infos.len() {
            let (x, y) = (cuts[id][b], cuts[id][b + 1]);
            if y.0 == x.0 { continue; }
            catch(|| write_ops(nav(w.data(), &c.ty, &c.infos[id].path, c.alt ^ id as u64), &c.cols[id], x, y.0 - x.0, c.alt)).map_err(|m| format!("panic: {}", m))?;
            if c.infos.len() < 40 && id % 5 == b % 5 {
                let e = w.data().estimated_size();
                if plain && e < last { return Err(format!("the buffered size fell from {} to {} while column {} was written", last, e, id)); }
                last = e;
            }
        }
        let e = handles(w.data(), &c.ty, &mut 0, cov)?;
        if plain && e < last { return Err(format!("the buffered size fell from {} to {}", last, e)); }
        last = e;
        // the count of the root's values in this stripe
        let n = (bounds[b + 1] - bounds[start]) as u64;
        if catch(|| w.data().verify_row_count(n)).is_err() { return Err(format!("the {} rows of the current stripe are not what the columns say they hold", n)); }
        if catch(|| w.data().verify_row_count(n + 1)).is_ok() { return Err(format!("{} rows of the current stripe are confirmed, there are {}", n + 1, n)); }
        if n > 0 && catch(|| w.data().verify_row_count(n - 1)).is_ok() { return Err(format!("{} rows of the current stripe are confirmed, there are {}", n - 1, n)); }
        cov.add("row counts confirmed and refused", 1);
        if brackets < 6 || b + 1 == c.batches.len() {
            brackets += 1;
            let (lo, hi) = size_bracket(c, bounds[start], bounds[b + 1])?;
            if (e as u64) < lo || e as u64 > hi.max(empty as u64) { return Err(format!("the columns say they hold {} bytes after {} rows, the stripe's data take {} to {}", e, n, lo, hi)); }
            cov.add("buffered sizes compared with the encoded data", 1);
        }
        let before = w.inner().len();
        match catch_io(|| w.write_batch(c.batches[b] as u64)) { Ok(()) => {} Err(e) => return Err(e.to_string()) }
        if w.inner().len() != before {
            start = b + 1;
            last = handles(w.data(), &c.ty, &mut 0, cov)?;
            if last != empty { return Err(format!("after a stripe was emitted the columns hold {} bytes, those of a new writer {}", last, empty)); }
            if catch(|| w.data().verify_row_count(0)).is_err() { return Err("after a stripe was emitted the columns still count its rows".into()); }
            cov.add("handles observed after a rollover", c.infos.len() as u64);
        } else {
            let x = handles(w.data(), &c.ty, &mut 0, cov)?;
            if x != e { return Err(format!("a batch end changed the buffered size from {} to {} without emitting anything", e, x)); }
        }
    }
    let bytes = catch_io(|| w.finish()).map_err(|e| e.to_string())?;
    if c.rows > 0 { cov.sigs.insert(hash_bytes(&bytes)); }
    cov.add("executions", 1);
    if bytes != run(&Case { order: Order::ColumnMajor, ..c.clone() }).map_err(|e| e.to_string())?.bytes { return Err("looking at the handles changed the file".into()); }
    if cov.samples.len() < 2 && c.infos.len() < 8 { cov.samples.push(c.describe()); }
    Ok(())
}

// ---- C25 ----
/// The dimensions along which work is measured, with a starting size. Everything else stays fixed.
pub const DIMS: &[(&str, usize)] = &[
    ("batches of one row in one stripe", 3000), ("batches in one stripe, Snappy with small blocks", 3000), ("batches of strings in one stripe", 1500),
    ("empty batches after a stripe's data", 4000), ("empty batches after many stripes", 2000),
    ("stripes", 150), ("stripes, Snappy", 120), ("stripes of nested columns", 80), ("row groups of one row", 1500), ("row groups of nested columns", 500),
    ("booleans", 60_000), ("integers in runs", 80_000), ("random integers", 40_000), ("floats", 60_000), ("doubles", 60_000), ("timestamps", 30_000), ("decimals", 30_000),
    ("strings", 30_000), ("binaries", 30_000), ("nulls", 80_000), ("alternating nulls", 60_000),
    ("columns", 150), ("columns in several stripes", 60), ("nesting depth in structs", 40), ("nesting depth in lists", 40), ("union variants", 32),
    ("length of one string", 300_000), ("length of one string, Snappy", 150_000), ("length of one string, Zstandard", 150_000), ("length of one string, blocks of 64 bytes", 60_000),
    ("length of lists", 30_000), ("list rows", 15_000), ("map rows", 10_000), ("union rows", 15_000), ("length of a field name", 300_000),
    ("files one after another", 100), ("bytes accepted one at a time", 40_000), ("accessor calls", 40_000),
    ("metadata of many stripes parsed", 600), ("footer types parsed", 1500), ("unknown fields parsed", 4000), ("Zstandard blocks", 40),
];

/// Numbers from here on are random schemas.
pub const RANDOM: usize = 1000;

struct OneByOne(Vec<u8>);
impl std::io::Write for OneByOne {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if b.is_empty() { return Ok(0); } self.0.push(b[0]); Ok(1) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// Runs under the instruction counter: the work of size n along a dimension.
pub fn work(dim: usize, n: usize, seed: u64) {
    let mut r = Rng::new(seed ^ 0x25);
    let cfg = Config::new().with_stripe_size(usize::MAX);
    let snappy = |b: usize| SnappyCompression::new().with_block_size(b).build();
    let out = || Vec::<u8>::with_capacity(1 << 23);
    let st = |v: Vec<Schema>| Schema::Struct(v.into_iter().enumerate().map(|(i, s)| orc_format::schema::Field(format!("f{}", i), s)).collect());
    fn one_value(d: &mut Data, k: u64) {
        match d {
            Data::Boolean(x) => x.write(k % 3 == 0), Data::Long(x) => x.write((k * 7919) as i64), Data::Float(x) => x.write(k as f32), Data::Double(x) => x.write(k as f64),
            Data::Timestamp(x) => x.write_nanos(k as i64, 5), Data::Decimal(x) => x.write_i64(k as i64), Data::String(x) => x.write("some text"), Data::Binary(x) => x.write(b"bytes"),
            Data::Struct(x) => { x.write(); for c in x.children() { one_value(c, k); } }
            Data::List(x) => { x.write(1); one_value(x.child(), k) }
            Data::Map(x) => { x.write(1); let (a, b) = x.children(); one_value(a, k); one_value(b, k) }
            Data::Union(x) => { let m = x.children().len(); if m == 0 { return x.write_null(); } let t = k as usize % m; x.write(t); one_value(x.child(t), k) }
        }
    }
    let rows = |schema: Schema, cfg: Config, n: usize, per: usize| {
        let mut w = Writer::new(out(), &schema, cfg).unwrap();
        for k in 0..n { one_value(w.data(), k as u64); if per > 0 && (k + 1) % per == 0 { w.write_batch(per as u64).unwrap(); } }
        if per == 0 { w.write_batch(n as u64).unwrap(); } else if n % per > 0 { w.write_batch((n % per) as u64).unwrap(); }
        w.finish().unwrap()
    };
    let nested = || st(vec![Schema::List(Box::new(Schema::Long)), Schema::Map(Box::new(Schema::String), Box::new(Schema::Double)), Schema::Union(vec![Schema::Long, Schema::String])]);
    let flat = || st(vec![Schema::Long, Schema::String, Schema::Decimal(20, 2), Schema::Timestamp]);
    macro_rules! col { ($s:expr, $u:ident, $x:ident, $k:ident, $e:expr) => {{ let mut w = Writer::new(out(), &$s, cfg).unwrap(); { let $x = w.data().$u(); for $k in 0..n { $e } } w.write_batch(n as u64).unwrap(); drop(w.finish().unwrap()); }}; }
    use orc_format::writer::data::GenericData;
    if dim >= RANDOM {
        // a random schema and configuration, in one of four ways of growing
        let mut q = Rng::new(seed ^ dim as u64 * 7919);
        let p = Profile::default();
        let schema = root_ty(&mut q, &p).schema();
        let codec = gen_codec(&mut q, &p);
        let codec = match codec { Codec::Zstd(b, _) => Codec::Zstd(b.max(4096), 1), c => c };
        let stride = gen_stride(&mut q, &p);
        let mode = q.below(4);
        let nulls = q.below(4);
        let cfg = Cfg { stride, codec, stripe_size: match mode { 0 | 3 => usize::MAX, 1 => 0, _ => 5000 }, defaults: false }.build();
        let per = match mode { 3 => 0, 1 => 20, _ => 1 + q.us(4) };
        let mut w = Writer::new(out(), &schema, cfg).unwrap();
        for k in 0..n {
            if nulls > 0 && k as u64 % (nulls + 3) == 0 { w.data().write_null() } else { one_value(w.data(), k as u64) }
            if per > 0 && (k + 1) % per == 0 { w.write_batch(per as u64).unwrap(); }
        }
        if per == 0 { w.write_batch(n as u64).unwrap(); } else if n % per > 0 { w.write_batch((n % per) as u64).unwrap(); }
        drop(w.finish().unwrap());
        return;
    }
    match DIMS[dim].0 {
        "batches of one row in one stripe" => drop(rows(Schema::Long, cfg, n, 1)),
        "batches in one stripe, Snappy with small blocks" => drop(rows(Schema::Binary, cfg.with_compression(snappy(16)), n, 1)),
        "batches of strings in one stripe" => drop(rows(flat(), cfg.with_compression(snappy(256)), n, 1)),
        "empty batches after a stripe's data" => { let mut w = Writer::new(out(), &flat(), cfg.with_row_index_stride(1)).unwrap(); for k in 0..n / 4 { one_value(w.data(), k as u64); } w.write_batch(n as u64 / 4).unwrap(); for _ in 0..n { w.write_batch(0).unwrap(); } drop(w.finish().unwrap()); }
        "empty batches after many stripes" => { let mut w = Writer::new(out(), &Schema::Long, cfg.with_stripe_size(0)).unwrap(); for k in 0..n / 4 { one_value(w.data(), k as u64); w.write_batch(1).unwrap(); } for _ in 0..n { w.write_batch(0).unwrap(); } drop(w.finish().unwrap()); }
        "stripes" => drop(rows(flat(), cfg.with_stripe_size(0), n, 3)),
        "stripes, Snappy" => drop(rows(flat(), cfg.with_stripe_size(0).with_compression(snappy(1000)), n, 3)),
        "stripes of nested columns" => drop(rows(nested(), cfg.with_stripe_size(0), n, 3)),
        "row groups of one row" => drop(rows(flat(), cfg.with_row_index_stride(1), n, 0)),
        "row groups of nested columns" => drop(rows(nested(), cfg.with_row_index_stride(1), n, 0)),
        "booleans" => col!(Schema::Boolean, unwrap_boolean, x, k, x.write(k % 5 == 0)),
        "integers in runs" => col!(Schema::Long, unwrap_long, x, k, x.write(k as i64)),
        "random integers" => col!(Schema::Long, unwrap_long, x, _k, x.write(r.u64() as i64)),
        "floats" => col!(Schema::Float, unwrap_float, x, k, x.write(k as f32)),
        "doubles" => col!(Schema::Double, unwrap_double, x, k, x.write(k as f64)),
        "timestamps" => col!(Schema::Timestamp, unwrap_timestamp, x, k, x.write_nanos(k as i64 * 13, k as u32)),
        "decimals" => col!(Schema::Decimal(38, 2), unwrap_decimal, x, k, x.write_i128(k as i128 * 1_000_000_000_007)),
        "strings" => col!(Schema::String, unwrap_string, x, k, x.write(if k % 2 == 0 { "abc" } else { "defghij" })),
        "binaries" => col!(Schema::Binary, unwrap_binary, x, k, x.write(if k % 2 == 0 { b"abc" } else { b"defghij" })),
        "nulls" => col!(Schema::String, unwrap_string, x, _k, x.write_null()),
        "alternating nulls" => col!(Schema::Long, unwrap_long, x, k, if k % 2 == 0 { x.write(k as i64) } else { x.write_null() }),
        "columns" => drop(rows(st((0..n).map(|_| Schema::Long).collect()), cfg, 2, 1)),
        "columns in several stripes" => drop(rows(st((0..n).map(|i| if i % 2 == 0 { Schema::Long } else { Schema::String }).collect()), cfg.with_stripe_size(0), 4, 1)),
        "nesting depth in structs" => { let mut s = Schema::Long; for _ in 0..n { s = st(vec![s]); } drop(rows(s, cfg, 3, 1)); }
        "nesting depth in lists" => { let mut s = Schema::Long; for _ in 0..n { s = Schema::List(Box::new(s)); } drop(rows(s, cfg, 3, 1)); }
        "union variants" => drop(rows(st((0..8).map(|_| Schema::Union((0..n).map(|_| Schema::Long).collect())).collect()), cfg, 4, 1)),
        "length of one string" | "length of one string, Snappy" | "length of one string, Zstandard" | "length of one string, blocks of 64 bytes" => {
            let cfg = match &DIMS[dim].0[20..] { "" => cfg, ", Snappy" => cfg.with_compression(snappy(DEFAULT_BLOCK)), ", Zstandard" => cfg.with_compression(ZstdCompression::new().with_block_size(16384).with_compression_level(1).build()), _ => cfg.with_compression(snappy(64)) };
            let s: String = (0..n).map(|k| (b'a' + (k % 23) as u8) as char).collect();
            let mut w = Writer::new(out(), &Schema::String, cfg).unwrap();
            w.data().unwrap_string().write(&s);
            w.write_batch(1).unwrap();
            drop(w.finish().unwrap());
        }
        "length of lists" => { let mut w = Writer::new(out(), &Schema::List(Box::new(Schema::Long)), cfg).unwrap(); let l = w.data().unwrap_list(); l.write(n as u64); for k in 0..n { l.child().unwrap_long().write(k as i64); } w.write_batch(1).unwrap(); drop(w.finish().unwrap()); }
        "list rows" => drop(rows(Schema::List(Box::new(Schema::Long)), cfg, n, 0)),
        "map rows" => drop(rows(Schema::Map(Box::new(Schema::Long), Box::new(Schema::Boolean)), cfg, n, 0)),
        "union rows" => drop(rows(Schema::Union(vec![Schema::Long, Schema::Boolean]), cfg, n, 0)),
        "length of a field name" => drop(rows(Schema::Struct(vec![orc_format::schema::Field("n".repeat(n), Schema::Long)]), cfg, 3, 1)),
        "files one after another" => for _ in 0..n { drop(rows(Schema::Long, Config::new(), 3, 1)); },
        "bytes accepted one at a time" => { let mut w = Writer::new(OneByOne(out()), &Schema::Binary, cfg).unwrap(); w.data().unwrap_binary().write(&vec![7; n]); w.write_batch(1).unwrap(); drop(w.finish().unwrap()); }
        "accessor calls" => { let mut w = Writer::new(out(), &flat(), cfg).unwrap(); let mut t = 0usize; for k in 0..n { if k % 16 == 0 { one_value(w.data(), k as u64); } t += w.inner().len() + w.data().estimated_size() + w.data().column_id() as usize; } std::hint::black_box(t); w.write_batch(((n + 15) / 16) as u64).unwrap(); drop(w.finish().unwrap()); }
        "metadata of many stripes parsed" => { let b = rows(Schema::Long, cfg.with_stripe_size(0), n, 1); parse_own(&b); }
        "footer types parsed" => { let b = rows(st((0..n).map(|_| Schema::Long).collect()), cfg, 1, 1); parse_own(&b); }
        "unknown fields parsed" => {
            let mut b = vec![];
            for k in 0..n { crate::wire::put_varint(&mut b, (100 + k as u64) << 3); crate::wire::put_varint(&mut b, k as u64); }
            let m = protobuf::parse_from_bytes::<orc_format::protos::orc_proto::Footer>(&b).unwrap();
            std::hint::black_box(protobuf::Message::write_to_bytes(&m).unwrap());
        }
        "Zstandard blocks" => { let mut w = Writer::new(out(), &Schema::Binary, cfg.with_compression(ZstdCompression::new().with_block_size(500).with_compression_level(1).build())).unwrap(); w.data().unwrap_binary().write(&vec![7; n * 500]); w.write_batch(1).unwrap(); drop(w.finish().unwrap()); }
        d => panic!("dimension {}", d),
    }
}
fn parse_own(b: &[u8]) {
    use orc_format::protos::orc_proto as p;
    let n = b.len();
    let pl = b[n - 1] as usize;
    let ps = protobuf::parse_from_bytes::<p::PostScript>(&b[n - 1 - pl..n - 1]).unwrap();
    let (fl, ml) = (ps.get_footerLength() as usize, ps.get_metadataLength() as usize);
    let f = protobuf::parse_from_bytes::<p::Footer>(&b[n - 1 - pl - fl..n - 1 - pl]).unwrap();
    let m = protobuf::parse_from_bytes::<p::Metadata>(&b[n - 1 - pl - fl - ml..n - 1 - pl - fl]).unwrap();
    std::hint::black_box((protobuf::Message::write_to_bytes(&f).unwrap(), protobuf::Message::write_to_bytes(&m).unwrap()));
}

/// A counted process gets this many seconds.
const PATIENCE: u64 = 200;
/// A process stopped by the time limit has grown out of proportion if the size before was quick.
fn overdue(last: &str, at: std::time::Instant, quick: &mut f64) -> Result<(), String> {
    let t = at.elapsed().as_secs_f64();
    if t < PATIENCE as f64 - 1.0 { return Ok(()); }
    if *quick * 25.0 < PATIENCE as f64 { return Err(format!("did not end within {} s, the size before took {:.1} s", PATIENCE, quick)); }
    eprintln!("counting instructions took too long: {} {}", t, last);
    std::process::exit(2)
}
fn instrumenter() -> std::process::Command {
    let mut c = std::process::Command::new("timeout");
    c.args(["-s", "KILL", &PATIENCE.to_string(), "valgrind", "--tool=callgrind", "--read-inline-info=no", "--main-stacksize=67108864"]);
    c
}

fn count(dim: usize, n: usize, seed: u64, quick: &mut f64) -> Result<u64, String> {
    let at = std::time::Instant::now();
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut last = String::new();
    for _ in 0..2 {
        let o = match instrumenter().arg("--callgrind-out-file=/dev/null").arg(&exe)
            .args(["work-child", &dim.to_string(), &n.to_string(), &seed.to_string()]).output() { Ok(o) => o, Err(e) => { last = e.to_string(); continue } };
        let t = String::from_utf8_lossy(&o.stderr);
        if o.status.code() == Some(101) { return Err(format!("the counted process panicked: {}", t.lines().filter(|l| !l.starts_with("==")).take(4).collect::<Vec<_>>().join(" | "))); }
        if o.status.success() { if let Some(n) = t.lines().find_map(|l| l.split("Collected : ").nth(1)).and_then(|x| x.trim().parse().ok()) { *quick = at.elapsed().as_secs_f64(); return Ok(n); } }
        overdue(&format!("{} {}", dim, n), at, quick)?;
        last = format!("{:?} {}", o.status, t.lines().rev().take(6).collect::<Vec<_>>().join(" | "));
    }
    // the instrumenter did not run: no answer
    eprintln!("counting instructions failed: {}", last);
    std::process::exit(2)
}
// What a call costs after histories of growing length.
/// Numbers from here on are histories followed by counted calls.
pub const PROBES: usize = 100_000;
const SETUPS: usize = 9;
const HISTORIES: usize = 8;
/// Fixed combinations; larger numbers take random schemas and configurations.
pub const FIXED_PROBES: usize = SETUPS * HISTORIES;
const ROUNDS: usize = 12;

/// Asks the instrumenter to do something (START_INSTR, STOP_INSTR, DUMP_STATS); does nothing outside of it.
#[cfg(target_arch = "x86_64")]
fn request(code: u64) {
    let a: [u64; 6] = [0x4354_0000 + code, 0, 0, 0, 0, 0];
    unsafe { std::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx", in("rax") &a, inout("rdx") 0u64 => _, options(nostack)); }
}
#[cfg(not(target_arch = "x86_64"))]
fn request(_: u64) {}

/// A history of size n, then rounds of the same calls, each round counted on its own.
pub fn probe(k: usize, n: usize, seed: u64) {
    use orc_format::writer::data::GenericData;
    let (setup, history) = if k < FIXED_PROBES { (k % SETUPS, k / SETUPS) } else { let mut q = Rng::new(seed ^ k as u64 * 104_729); (SETUPS, q.us(HISTORIES)) };
    let st = |v: Vec<Schema>| Schema::Struct(v.into_iter().enumerate().map(|(i, s)| orc_format::schema::Field(format!("f{}", i), s)).collect());
    let list = |s| Schema::List(Box::new(s));
    let flat = || st(vec![Schema::Long, Schema::String, Schema::Decimal(20, 2), Schema::Timestamp, Schema::Boolean, Schema::Binary, Schema::Double, Schema::Float, Schema::Date]);
    let nested = || st(vec![list(Schema::Long), Schema::Map(Box::new(Schema::String), Box::new(Schema::Double)), Schema::Union(vec![Schema::Long, Schema::String]), list(list(Schema::Binary)), st(vec![Schema::Boolean])]);
    let snappy = |b: usize| SnappyCompression::new().with_block_size(b).build();
    let c = Config::new().with_stripe_size(usize::MAX);
    let (schema, cfg) = match setup {
        0 => (flat(), c),
        1 => (flat(), c.with_compression(snappy(100))),
        2 => (nested(), c.with_row_index_stride(1)),
        3 => (nested(), c.with_compression(snappy(64)).with_row_index_stride(5)),
        4 => (st(vec![Schema::Binary, Schema::Long]), c.with_compression(ZstdCompression::new().with_block_size(500).with_compression_level(1).build()).with_row_index_stride(3)),
        5 => (flat(), c.with_stripe_size(0)),
        6 => (nested(), c.with_stripe_size(0).with_compression(snappy(300)).with_row_index_stride(2)),
        7 => (flat(), c.with_row_index_stride(4)),
        8 => (nested(), c),
        _ => {
            let mut q = Rng::new(seed ^ k as u64 * 7919);
            let p = Profile::default();
            let schema = root_ty(&mut q, &p).schema();
            let codec = match gen_codec(&mut q, &p) { Codec::Zstd(b, _) => Codec::Zstd(b.max(512), 1), c => c };
            let stride = gen_stride(&mut q, &p);
            (schema, Cfg { stride, codec, stripe_size: if q.chance(1, 4) { 0 } else { usize::MAX }, defaults: false }.build())
        }
    };
    let mut w = Writer::new(Vec::<u8>::with_capacity(1 << 25), &schema, cfg).unwrap();
    fn value(d: &mut Data, k: u64, len: usize) {
        match d {
            Data::Boolean(x) => x.write(k % 3 == 0), Data::Long(x) => x.write((k * 7919) as i64), Data::Float(x) => x.write(k as f32), Data::Double(x) => x.write(k as f64),
            Data::Timestamp(x) => x.write_nanos(k as i64, 5), Data::Decimal(x) => x.write_i64(k as i64),
            Data::String(x) => if len > 0 { x.write(&format!("some text{}", "z".repeat(len))) } else { x.write("some text") },
            Data::Binary(x) => if len > 0 { x.write(&vec![b'z'; len]) } else { x.write(b"bytes") },
            Data::Struct(x) => { x.write(); for c in x.children() { value(c, k, len); } }
            Data::List(x) => if len > 0 { x.write(len as u64 / 20); for j in 0..len as u64 / 20 { value(x.child(), j, 0) } } else { x.write(1); value(x.child(), k, 0) },
            Data::Map(x) => { x.write(1); let (a, b) = x.children(); value(a, k, len); value(b, k, len) }
            Data::Union(x) => { let m = x.children().len(); if m == 0 { return x.write_null(); } let t = k as usize % m; x.write(t); value(x.child(t), k, len) }
        }
    }
    fn nulls(d: &mut Data) { match d { Data::Struct(x) => { x.write(); for c in x.children() { c.write_null(); } } x => x.write_null() } }
    let mut k = 0;
    macro_rules! rows { ($n:expr, $len:expr) => {{ for _ in 0..$n { value(w.data(), k, $len); k += 1; } w.write_batch($n as u64).unwrap(); }}; }
    match history {
        0 => rows!(n, 0),
        1 => for _ in 0..n { rows!(1, 0); },
        2 => { rows!(3, 0); for _ in 0..n { w.write_batch(0).unwrap(); } }
        3 => { for _ in 0..n { nulls(w.data()); } w.write_batch(n as u64).unwrap(); }
        4 => rows!(1, n * 40),
        5 => { rows!(1, n * 40); for _ in 0..5 { rows!(4, 0); } }
        6 => for i in 0..n / 10 { rows!(10, (i % 3 == 0) as usize * 100); nulls(w.data()); w.write_batch(1).unwrap(); },
        _ => { rows!(2, 0); let mut t = 0; for _ in 0..n { t += w.data().estimated_size() + w.inner().len(); let held = if w.inner().len() > 3 { 0 } else { 2 }; w.data().verify_row_count(held); } std::hint::black_box(t); }
    }
    rows!(4, 0);
    // the empty pages of a large buffer must not be met while counting
    request(4);
    for _ in 0..ROUNDS {
        request(0);
        rows!(4, 0);
        nulls(w.data());
        w.write_batch(1).unwrap();
        w.write_batch(0).unwrap();
        std::hint::black_box(w.data().estimated_size() + w.inner().len());
    }
    request(0);
    request(5);
    std::process::exit(0);
}

/// The instructions of each round.
fn rounds(k: usize, n: usize, seed: u64, quick: &mut f64) -> Result<Vec<u64>, String> {
    let at = std::time::Instant::now();
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let dir = std::env::temp_dir().join(format!("orcmon-probe.{}.{}", std::process::id(), NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    let mut last = String::new();
    for _ in 0..2 {
        let _ = std::fs::remove_dir_all(&dir);
        if let Err(e) = std::fs::create_dir(&dir) { last = e.to_string(); continue; }
        let o = instrumenter().args(["--instr-atstart=no", "--dump-line=no"])
            .arg(format!("--callgrind-out-file={}/o", dir.display())).arg(&exe).args(["probe-child", &k.to_string(), &n.to_string(), &seed.to_string()]).output();
        let o = match o { Ok(o) => o, Err(e) => { last = e.to_string(); continue } };
        let t = String::from_utf8_lossy(&o.stderr).to_string();
        // part 1 ends where the first round begins
        let parts: Option<Vec<u64>> = (2..2 + ROUNDS).map(|j| std::fs::read_to_string(dir.join(format!("o.{}", j))).ok()?.lines().find_map(|l| l.strip_prefix("totals: ").or(l.strip_prefix("summary: ")))?.trim().parse().ok()).collect();
        let _ = std::fs::remove_dir_all(&dir);
        if o.status.code() == Some(101) { return Err(format!("the counted process panicked: {}", t.lines().filter(|l| !l.starts_with("==")).take(4).collect::<Vec<_>>().join(" | "))); }
        if parts.is_none() || !o.status.success() { overdue(&format!("{} {}", k, n), at, quick)?; }
        match parts { Some(v) if o.status.success() => { *quick = at.elapsed().as_secs_f64(); return Ok(v) } _ => last = format!("{:?} {}", o.status, t.lines().rev().take(6).collect::<Vec<_>>().join(" | ")) }
    }
    eprintln!("counting instructions failed: {}", last);
    std::process::exit(2)
}

/// The same calls cost the same whatever came before.
pub fn after(k: usize, scale: usize, seed: u64, cov: &mut Cov) -> Result<(), String> {
    let k = k - PROBES;
    let measure = |scale: usize, cov: &mut Cov| -> Result<Option<String>, String> {
        let sizes: Vec<usize> = [100, 400, 1600, 6400].iter().map(|n| n * scale).collect();
        let mut c = vec![];
        let mut quick = 1.0;
        for n in &sizes {
            let mut v = rounds(k, *n, seed, &mut quick)?;
            v.sort();
            cov.add("calls counted after a history", 6 * ROUNDS as u64);
            cov.add("instructions counted", v.iter().sum());
            c.push(v[ROUNDS / 3]);
        }
        cov.add("executions counted", sizes.len() as u64);
        cov.sigs.insert(mix(c[3] ^ mix(k as u64)));
        let line = format!("calls after {} ({}): histories of {:?} make a round cost {:?} instructions", ["many rows", "many batches", "many empty batches", "many nulls", "one long value", "a long value and more", "long and short values in batches", "many accessor calls"][if k < FIXED_PROBES { k / SETUPS } else { Rng::new(seed ^ k as u64 * 104_729).us(HISTORIES) }], if k < FIXED_PROBES { format!("setup {}", k % SETUPS) } else { "random schema".into() }, sizes, c);
        if std::env::var("ORCMON_SHOW").is_ok() { eprintln!("{:.2} {}", c[3] as f64 / c[..3].iter().max().unwrap().max(&1).clone() as f64, line); }
        if cov.samples.len() < 60 { cov.samples.push(line.clone()); }
        let before = *c[..3].iter().max().unwrap();
        Ok(if c[3] > before + before / 4 + 1000 { Some(line) } else { None })
    };
    if let Some(a) = measure(scale, cov)? {
        cov.add("measurements repeated at larger sizes", 1);
        if let Some(b) = measure(scale * 3, cov)? { return Err(format!("calls cost more the more was written before: {}; {}", a, b)); }
    }
    Ok(())
}

/// A growing buffer that is copied once at the last size can look like growing cost: it has to persist at larger sizes.
pub fn c25(dim: usize, scale: usize, seed: u64, cov: &mut Cov) -> Result<(), String> {
    match growth(dim, scale, seed, cov) {
        Ok(()) => Ok(()),
        Err(a) => { cov.add("measurements repeated at larger sizes", 1); growth(dim, scale * 3, seed, cov).map_err(|b| format!("{}; {}", a, b)) }
    }
}
fn growth(dim: usize, scale: usize, seed: u64, cov: &mut Cov) -> Result<(), String> {
    let (name, start) = if dim >= RANDOM { ("rows of a random schema", 400) } else { DIMS[dim] };
    let n0 = start * scale;
    // unions have at most 256 variants, and the stack ends the nesting
    let n0 = match name { "union variants" => 32, d if d.starts_with("nesting") => n0.min(120), _ => n0 };
    let sizes: Vec<usize> = [1, 2, 4, 8, 16].iter().map(|k| n0 * k / 2).collect();
    let mut quick = 1.0;
    let c: Vec<u64> = sizes.iter().map(|n| count(dim, *n, seed, &mut quick).map_err(|m| format!("{}, size {}: {}", name, n, m))).collect::<Result<_, _>>()?;
    // instructions per unit, in each step
    let slope: Vec<f64> = (1..5).map(|i| (c[i] as f64 - c[i - 1] as f64) / (sizes[i] - sizes[i - 1]) as f64).collect();
    let most = slope[..3].iter().cloned().fold(0.0, f64::max);
    cov.sigs.insert(mix(c[4] ^ mix(dim as u64)));
    cov.add("instructions counted", c.iter().sum());
    cov.add("executions counted", 5);
    let line = format!("{}: sizes {:?} take {:?} instructions, {:.1?} per unit", name, sizes, c, slope);
    if std::env::var("ORCMON_SHOW").is_ok() { eprintln!("{:.2} {}", slope[3] / most, line); }
    if cov.samples.len() < 60 { cov.samples.push(line.clone()); }
    // in linear work each unit costs the same; in quadratic work the last step's units cost twice those of the step before
    if slope[3] > 1.2 * most { return Err(format!("work grows faster than the data: {}", line)); }
    Ok(())
}
