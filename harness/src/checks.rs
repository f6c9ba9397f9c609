//! The oracles: each judges one property on one recorded execution.
use crate::driver::*;
use crate::model::*;
use crate::orc::*;
use crate::stats;
use crate::wire::{varint, R};
use std::collections::{BTreeMap, HashSet};

#[derive(Default, Clone)]
pub struct Cov {
    pub n: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub trivial: u64,
    pub samples: Vec<String>,
}
impl Cov {
    pub fn add(&mut self, k: &str, v: u64) { if v > 0 { *self.n.entry(k.to_string()).or_insert(0) += v; } }
    pub fn max(&mut self, k: &str, v: u64) { let e = self.n.entry(format!("max {}", k)).or_insert(0); *e = (*e).max(v); }
    pub fn merge(&mut self, o: Cov) {
        for (k, v) in o.n { if k.starts_with("max ") { let e = self.n.entry(k).or_insert(0); *e = (*e).max(v); } else { *self.n.entry(k).or_insert(0) += v; } }
        for (k, v) in o.known { *self.known.entry(k).or_insert(0) += v; }
        self.sigs.extend(o.sigs);
        self.trivial += o.trivial;
        for s in o.samples { if self.samples.len() < 4 { self.samples.push(s); } }
    }
}

pub struct Full { pub tail: Tail, pub infos: Vec<Info>, pub stripes: Vec<(StripeInf, StripeFooter)> }
thread_local! { static BASE: std::cell::Cell<u64> = std::cell::Cell::new(0); }
/// Judges the last part of a file, which starts with a stripe at `base`: the oracles see only the stripes from there on.
#[allow(dead_code)]
pub fn with_base<T>(base: u64, f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back { fn drop(&mut self) { BASE.with(|b| b.set(0)); } }
    let _back = Back;
    BASE.with(|b| b.set(base));
    f()
}
pub fn full(bytes: &[u8]) -> R<Full> {
    let f = file(bytes);
    let mut tail = parse_tail(f)?;
    let ty = tree(&tail.footer.types)?;
    if f.base > 0 {
        let k = tail.footer.stripes.iter().take_while(|s| s.offset < f.base).count();
        tail.footer.stripes.drain(..k);
        tail.stripe_stats.drain(..k.min(tail.stripe_stats.len()));
    }
    let mut stripes = vec![];
    for (i, s) in tail.footer.stripes.iter().enumerate() {
        stripes.push((s.clone(), stripe_footer(f, &tail.ps, s).map_err(|e| format!("stripe {}: {}", i, e))?));
    }
    Ok(Full { tail, infos: infos(&ty), stripes })
}
pub fn file(b: &[u8]) -> File { File { bytes: b, base: BASE.with(|x| x.get()) } }

fn note_case(c: &Case, bytes: &[u8], cov: &mut Cov) {
    let h = crate::rng::hash_bytes(bytes);
    if c.rows > 0 { cov.sigs.insert(h); } else { cov.trivial += 1; }
    cov.add("executions", 1);
    cov.add("rows written", c.rows as u64);
    cov.add("column values written", c.n_ops() as u64);
    cov.add("batches", c.batches.len() as u64);
    cov.add("bytes produced", bytes.len() as u64);
    match c.cfg.codec { Codec::None => cov.add("runs uncompressed", 1), Codec::Snappy(_) => cov.add("runs snappy", 1), Codec::Zstd(_, _) => cov.add("runs zstd", 1) }
    for i in &c.infos { cov.add(&format!("columns of type {}", short(&i.ty)), 1); }
    cov.max("nesting depth", c.infos.iter().map(|i| i.path.len()).max().unwrap_or(0) as u64);
    cov.max("columns", c.infos.len() as u64);
    if cov.samples.len() < 2 && c.rows > 3 && c.infos.len() < 12 { cov.samples.push(c.describe()); }
}

pub fn exec(c: &Case, cov: &mut Cov) -> Result<Run, String> {
    let r = run(c).map_err(|e| format!("the writer did not produce the file: {}", e))?;
    note_case(c, &r.bytes, cov);
    Ok(r)
}

fn same_kinds(a: &[Info], b: &[Info]) -> Result<(), String> {
    if a.len() != b.len() { return Err(format!("the file describes {} columns instead of {}", b.len(), a.len())); }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let sc = |t: &Ty| if let Ty::Decimal(_, s) = t { *s } else { 0 };
        if x.ty.kind() != y.ty.kind() || x.parent != y.parent || sc(&x.ty) != sc(&y.ty) { return Err(format!("column {} is {} in the file, but was written as {}", i, short(&y.ty), short(&x.ty))); }
    }
    Ok(())
}

/// C01, C02: an independent reader recovers the data.
pub fn round_trip(c: &Case, bytes: &[u8], cov: &mut Cov) -> Result<(), String> {
    let f = full(bytes)?;
    same_kinds(&c.infos, &f.infos)?;
    let mut cols = empty_cols(&f.infos);
    let total: u64 = f.stripes.iter().map(|s| s.0.rows).fold(0, |a, b| a.saturating_add(b));
    if total != c.rows as u64 { return Err(format!("stripes hold {} rows, {} were written", total, c.rows)); }
    for (k, (si, sf)) in f.stripes.iter().enumerate() {
        let cds = stripe_cols(file(bytes), &f.tail.ps, sf, f.infos.len(), false).map_err(|e| format!("stripe {}: {}", k, e))?;
        decode_stripe(&f.infos, &cds, si.rows as usize, &mut cols, None).map_err(|e| format!("stripe {}: {}", k, e))?;
    }
    for (id, (w, g)) in c.cols.iter().zip(&cols).enumerate() {
        if w.present.len() != g.present.len() || w.vals.len() != g.vals.len() {
            let at = w.present.iter().zip(&g.present).position(|(a, b)| a != b);
            return Err(format!("column {} ({}): {} slots / {} values read, {} / {} written; first null difference at {:?}", id, short(&c.infos[id].ty), g.present.len(), g.vals.len(), w.present.len(), w.vals.len(), at));
        }
        if let Some(i) = (0..w.present.len()).find(|i| w.present[*i] != g.present[*i]) { return Err(format!("column {} ({}): slot {} is null={} instead of null={}", id, short(&c.infos[id].ty), i, !g.present[i], !w.present[i])); }
        if let Some(i) = w.vals.diff(0, &g.vals, 0, w.vals.len()) { return Err(format!("column {} ({}): value {} reads as {} instead of {}", id, short(&c.infos[id].ty), i, g.vals.show(i), w.vals.show(i))); }
        cov.add("values compared", w.vals.len() as u64);
        cov.add("nulls compared", (w.present.len() - w.vals.len()) as u64);
    }
    cov.add("stripes decoded", f.stripes.len() as u64);
    Ok(())
}

/// C03: offsets and lengths tile the file (works on the last part of a huge file too).
pub fn layout(f: File, head: &[u8], ncols: usize, rows: u64, stride: u32, cov: &mut Cov) -> Result<(), String> {
    if head != b"ORC" { return Err(format!("the file starts with {:?}", head)); }
    let t = parse_tail(f)?;
    if t.ps.magic != b"ORC" { return Err(format!("postscript magic {:?}", t.ps.magic)); }
    if t.ps.version != [0, 12] { return Err(format!("format version {:?}", t.ps.version)); }
    if t.ps.writer_version.unwrap_or(0) < 6 { return Err(format!("writer version {:?}", t.ps.writer_version)); }
    if t.ps.len >= 256 { return Err("postscript length".into()); }
    let ft = &t.footer;
    let mut p = 3u64;
    for (i, s) in ft.stripes.iter().enumerate() {
        if s.offset != p { return Err(format!("stripe {} declared at {}, but the previous part ends at {}", i, s.offset, p)); }
        p = p.checked_add(s.index).and_then(|x| x.checked_add(s.data)).and_then(|x| x.checked_add(s.footer)).ok_or("stripe lengths overflow")?;
        if p > t.metadata_start { return Err(format!("stripe {} ends at {}, beyond the metadata start {}", i, p, t.metadata_start)); }
        cov.add("stripes checked", 1);
        if s.offset + s.index + s.data < f.base { cov.add("stripes outside the kept part", 1); continue; }
        let sf = stripe_footer(f, &t.ps, s).map_err(|e| format!("stripe {}: {}", i, e))?;
        let mut q = s.offset;
        let mut in_data = false;
        let mut seen = HashSet::new();
        for st in &sf.streams {
            if st.off != q { return Err("stream offset".into()); }
            let idx = matches!(st.kind, 6 | 7 | 8);
            if !idx && !in_data {
                if q != s.offset + s.index { return Err(format!("stripe {}: index streams end at {}, declared index length ends at {}", i, q, s.offset + s.index)); }
                in_data = true;
            }
            if idx && in_data { return Err(format!("stripe {}: index stream after data streams", i)); }
            if st.col >= ncols as u64 { return Err(format!("stripe {}: stream for column {} of {}", i, st.col, ncols)); }
            if !seen.insert((st.kind, st.col)) { return Err(format!("stripe {}: stream kind {} of column {} listed twice", i, st.kind, st.col)); }
            q = q.checked_add(st.len).ok_or("stream lengths overflow")?;
            cov.add("streams checked", 1);
        }
        if !in_data && q != s.offset + s.index { return Err(format!("stripe {}: index streams end at {}, declared index length ends at {}", i, q, s.offset + s.index)); }
        if q != s.offset + s.index + s.data { return Err(format!("stripe {}: streams end at {}, declared data end at {}", i, q, s.offset + s.index + s.data)); }
        if sf.encodings.len() != ncols { return Err(format!("stripe {}: {} column encodings for {} columns", i, sf.encodings.len(), ncols)); }
        // each index stream holds one row index (its framing must end where the stream ends)
        for st in sf.streams.iter().filter(|s| s.kind == K_INDEX && s.off >= f.base) {
            unframe(f.get(st.off, st.len)?, t.ps.kind).and_then(|p| index_entries(&p)).map_err(|e| format!("stripe {}: row index of column {}: {}", i, st.col, e))?;
        }
        for st in sf.streams.iter().filter(|s| s.kind != K_INDEX && s.off >= f.base) {
            unframe(f.get(st.off, st.len)?, t.ps.kind).map_err(|e| format!("stripe {}: stream kind {} of column {}: {}", i, st.kind, st.col, e))?;
        }
    }
    if p != t.metadata_start { return Err(format!("stripes end at {}, the metadata start at {}", p, t.metadata_start)); }
    if ft.header_len != Some(3) { return Err(format!("header length {:?}", ft.header_len)); }
    // the reference writers count the content with or without the header; this one documents it without
    if ft.content_len != Some(p - 3) { return Err(format!("content length {:?} instead of {}", ft.content_len, p - 3)); }
    if ft.rows.unwrap_or(0) != rows { return Err(format!("number of rows {:?} instead of {}", ft.rows, rows)); }
    let srows: u128 = ft.stripes.iter().map(|s| s.rows as u128).sum();
    if srows != rows as u128 { return Err(format!("stripes hold {} rows instead of {}", srows, rows)); }
    if ft.stride != Some(stride as u64) { return Err(format!("row index stride {:?} instead of {}", ft.stride, stride)); }
    if ft.types.len() != ncols { return Err(format!("{} types for {} columns", ft.types.len(), ncols)); }
    if ft.stats.len() != ncols { return Err(format!("{} file statistics for {} columns", ft.stats.len(), ncols)); }
    if t.stripe_stats.len() != ft.stripes.len() { return Err(format!("{} stripe statistics for {} stripes", t.stripe_stats.len(), ft.stripes.len())); }
    for s in &t.stripe_stats { if s.len() != ncols { return Err(format!("{} stripe statistics for {} columns", s.len(), ncols)); } }
    cov.add("files tiled", 1);
    cov.max("file length", f.end());
    cov.max("stripes per file", ft.stripes.len() as u64);
    Ok(())
}

fn chunks_ok(p: &Plain, what: &str, block: usize, cov: &mut Cov) -> Result<(), String> {
    for (i, c) in p.chunks.iter().enumerate() {
        if c.ulen == 0 { return Err(format!("{}: chunk {} is empty", what, i)); }
        if c.ulen > block { return Err(format!("{}: chunk {} expands to {} bytes, block size is {}", what, i, c.ulen, block)); }
        if c.clen > c.ulen { return Err(format!("{}: chunk {} takes {} bytes for {}", what, i, c.clen, c.ulen)); }
        cov.add(if c.original { "chunks stored" } else { "chunks compressed" }, 1);
        if c.ulen == block { cov.add("chunks of full block size", 1); }
    }
    cov.add("framed parts", 1);
    if p.chunks.len() > 1 { cov.add("parts of several chunks", 1); }
    Ok(())
}
/// C04
pub fn framing(c: &Case, bytes: &[u8], cov: &mut Cov) -> Result<(), String> {
    let f = file(bytes);
    let ps = parse_ps(f)?;
    let (kind, block) = match c.cfg.codec { Codec::None => (0, 0), Codec::Snappy(b) => (2, b), Codec::Zstd(b, _) => (5, b) };
    if ps.kind != kind { return Err(format!("postscript declares compression kind {} instead of {}", ps.kind, kind)); }
    if kind != 0 && ps.block != block as u64 { return Err(format!("postscript declares block size {} instead of {}", ps.block, block)); }
    let fl = full(bytes)?;
    if kind == 0 {
        cov.add("uncompressed files parsed without framing", 1);
        // the streams must also hold the values unframed
        return round_trip(c, bytes, cov);
    }
    chunks_ok(&fl.tail.footer_plain, "file footer", block, cov)?;
    chunks_ok(&fl.tail.metadata_plain, "file metadata", block, cov)?;
    let mut cols = empty_cols(&fl.infos);
    for (k, (si, sf)) in fl.stripes.iter().enumerate() {
        chunks_ok(&sf.plain, &format!("footer of stripe {}", k), block, cov)?;
        for st in &sf.streams {
            let p = unframe(f.get(st.off, st.len)?, kind).map_err(|e| format!("stripe {} column {} stream kind {}: {}", k, st.col, st.kind, e))?;
            chunks_ok(&p, &format!("stripe {} column {} stream kind {}", k, st.col, st.kind), block, cov)?;
            if st.kind == K_INDEX { index_entries(&p).map_err(|e| format!("stripe {} column {} row index: {}", k, st.col, e))?; }
        }
        let cds = stripe_cols(f, &fl.tail.ps, sf, fl.infos.len(), false)?;
        decode_stripe(&fl.infos, &cds, si.rows as usize, &mut cols, None).map_err(|e| format!("stripe {}: {}", k, e))?;
    }
    if f.base > 0 { return Ok(()); }
    // what the chunks expand to is what the same writer without compression writes
    let mut d = c.clone();
    d.cfg.codec = Codec::None;
    d.cfg.defaults = false;
    let r = run(&d).map_err(|e| format!("the writer without compression did not produce the file: {}", e))?;
    let pl = full(&r.bytes)?;
    if pl.stripes.len() != fl.stripes.len() || pl.stripes.iter().zip(&fl.stripes).any(|(a, b)| a.0.rows != b.0.rows) { cov.add("files whose stripes differ without compression", 1); return Ok(()); }
    for (k, ((_, a), (_, b))) in pl.stripes.iter().zip(&fl.stripes).enumerate() {
        if a.streams.len() != b.streams.len() { return Err(format!("stripe {}: {} streams, {} without compression", k, b.streams.len(), a.streams.len())); }
        for (x, y) in a.streams.iter().zip(&b.streams) {
            if (x.kind, x.col) != (y.kind, y.col) { return Err(format!("stripe {}: stream kind {} of column {} where there is kind {} of column {} without compression", k, y.kind, y.col, x.kind, x.col)); }
            if x.kind == K_INDEX { continue; }
            let (p, q) = (file(&r.bytes).get(x.off, x.len)?, unframe(f.get(y.off, y.len)?, kind)?);
            if p != &q.data[..] { return Err(format!("stripe {} column {} stream kind {}: expands to other data than the uncompressed stream has", k, y.col, y.kind)); }
            cov.add("streams compared with their uncompressed form", 1);
        }
    }
    Ok(())
}

pub struct Bounds { pub rows: Vec<(usize, usize)> }
pub fn stripe_rows(c: &Case, f: &Full) -> Result<Vec<(usize, usize)>, String> {
    let mut v = vec![];
    let mut p = 0u64;
    for (s, _) in &f.stripes { let e = p.saturating_add(s.rows); v.push((p as usize, e as usize)); p = e; if p > c.rows as u64 { break; } }
    if p != c.rows as u64 { return Err(format!("stripes hold {} rows, {} were written", p, c.rows)); }
    Ok(v)
}

/// C05
pub fn stripe_stats(c: &Case, bytes: &[u8], cov: &mut Cov) -> Result<(), String> {
    let f = full(bytes)?;
    let sr = stripe_rows(c, &f)?;
    if f.tail.stripe_stats.len() != sr.len() { return Err(format!("{} stripe statistics for {} stripes", f.tail.stripe_stats.len(), sr.len())); }
    let mut rows = vec![0];
    rows.extend(sr.iter().map(|x| x.1));
    let cu = c.cuts(&rows);
    let mut seen = stats::Seen::default();
    for (k, st) in f.tail.stripe_stats.iter().enumerate() {
        if st.len() != c.infos.len() { return Err(format!("stripe {}: {} column statistics for {} columns", k, st.len(), c.infos.len())); }
        for (id, raw) in st.iter().enumerate() {
            stats::check(&c.infos[id].ty, &c.cols[id], cu[id][k], cu[id][k + 1], raw, &mut seen).map_err(|e| format!("stripe {} statistics of column {} ({}): {}", k, id, short(&c.infos[id].ty), e))?;
        }
    }
    note_seen(&seen, cov);
    Ok(())
}
fn note_seen(s: &stats::Seen, cov: &mut Cov) {
    cov.add("statistics compared", s.msgs);
    cov.add("statistics with values", s.nonempty);
    cov.add("statistics with nulls", s.withnull);
    cov.add("statistics without a total", s.sum_absent);
    cov.add("statistics with NaN", s.nan);
}
/// C06
pub fn file_stats(c: &Case, bytes: &[u8], cov: &mut Cov) -> Result<(), String> {
    let t = parse_tail(file(bytes))?;
    if t.footer.stats.len() != c.infos.len() { return Err(format!("{} file statistics for {} columns", t.footer.stats.len(), c.infos.len())); }
    let mut seen = stats::Seen::default();
    for (id, raw) in t.footer.stats.iter().enumerate() {
        let col = &c.cols[id];
        stats::check(&c.infos[id].ty, col, (0, 0), (col.present.len(), col.vals.len()), raw, &mut seen).map_err(|e| format!("file statistics of column {} ({}): {}", id, short(&c.infos[id].ty), e))?;
    }
    note_seen(&seen, cov);
    if t.footer.stripes.len() > 1 { cov.add("files with several stripes", 1); }
    Ok(())
}

/// The two possible row-group partitions of a column in a stripe: by table rows, and (nested columns) by the column's own values.
pub struct Groups { pub rows: Vec<Cut>, pub own: Vec<Cut>, pub end: Cut }
pub fn groups(c: &Case, sr: &[(usize, usize)]) -> Vec<Vec<Groups>> {
    let stride = c.cfg.stride as usize;
    let mut rows = vec![];
    let mut idx = vec![];
    for (a, b) in sr {
        let s = rows.len();
        let mut r = *a;
        while r < *b { rows.push(r); r = r.saturating_add(stride); }
        rows.push(*b);
        idx.push((s, rows.len() - 1));
    }
    let cu = c.cuts(&rows);
    idx.iter().map(|(s, e)| (0..c.infos.len()).map(|id| {
        let end = cu[id][*e];
        let start = cu[id][*s];
        Groups { rows: cu[id][*s..*e].to_vec(), own: own_cuts(&c.cols[id], start, end, stride), end }
    }).collect()).collect()
}
fn ends(v: &[Cut], end: Cut) -> impl Iterator<Item = (Cut, Cut)> + '_ { (0..v.len()).map(move |i| (v[i], if i + 1 < v.len() { v[i + 1] } else { end })) }

fn each_index<'a>(f: &'a Full, bytes: &'a [u8], ncols: usize) -> R<Vec<(Vec<ColData>, Vec<Vec<Entry>>)>> {
    let mut out = vec![];
    for (k, (_, sf)) in f.stripes.iter().enumerate() {
        let cds = stripe_cols(file(bytes), &f.tail.ps, sf, ncols, true).map_err(|e| format!("stripe {}: {}", k, e))?;
        let mut es = vec![];
        for (id, cd) in cds.iter().enumerate() {
            es.push(index_entries(cd.index.as_ref().ok_or_else(|| format!("stripe {}: column {} has no row index", k, id))?).map_err(|e| format!("stripe {} row index of column {}: {}", k, id, e))?);
        }
        out.push((cds, es));
    }
    Ok(out)
}

/// C07
pub fn group_stats(c: &Case, bytes: &[u8], cov: &mut Cov) -> Result<(), String> {
    let f = full(bytes)?;
    let sr = stripe_rows(c, &f)?;
    let gs = groups(c, &sr);
    let ix = each_index(&f, bytes, c.infos.len())?;
    let mut seen = stats::Seen::default();
    for (k, (_, es)) in ix.iter().enumerate() {
        for (id, ents) in es.iter().enumerate() {
            let g = &gs[k][id];
            let mut try_with = |cuts: &[Cut]| -> Result<(), String> {
                if ents.len() != cuts.len() { return Err(format!("{} row-index entries for {} row groups", ents.len(), cuts.len())); }
                for (i, ((a, b), e)) in ends(cuts, g.end).zip(ents).enumerate() {
                    let raw = e.stats.as_ref().ok_or_else(|| format!("row group {} has no statistics", i))?;
                    stats::check(&c.infos[id].ty, &c.cols[id], a, b, raw, &mut seen).map_err(|e| format!("row group {}: {}", i, e))?;
                }
                Ok(())
            };
            // a nested column's groups may be cut by its own values (see C09); this property is about what a group's statistics say
            let r = try_with(&g.rows);
            let r = if r.is_err() && g.own != g.rows { let o = try_with(&g.own); if o.is_ok() { cov.add("nested columns with groups of their own values", 1); } if g.own.len() == ents.len() { o } else { r } } else { r };
            r.map_err(|e| format!("stripe {} column {} ({}): {}", k, id, short(&c.infos[id].ty), e))?;
            cov.add("row groups checked", ents.len() as u64);
        }
    }
    note_seen(&seen, cov);
    Ok(())
}

/// C08
pub fn seeks(c: &Case, bytes: &[u8], cov: &mut Cov) -> Result<(), String> {
    let f = full(bytes)?;
    same_kinds(&c.infos, &f.infos)?;
    let sr = stripe_rows(c, &f)?;
    let gs = groups(c, &sr);
    let ix = each_index(&f, bytes, c.infos.len())?;
    for (k, (cds, es)) in ix.iter().enumerate() {
        for (id, ents) in es.iter().enumerate() {
            let g = &gs[k][id];
            let col = &c.cols[id];
            let inf = &c.infos[id];
            let mut mid = 0u64;
            let mut deep = 0u64;
            let mut try_with = |cuts: &[Cut]| -> Result<(), String> {
                if ents.len() != cuts.len() { return Err(format!("{} row-index entries for {} row groups", ents.len(), cuts.len())); }
                for (i, ((a, b), e)) in ends(cuts, g.end).zip(ents).enumerate() {
                    let mut r = ColReader::open(&inf.ty, &cds[id], Some(&e.positions)).map_err(|e2| format!("entry {} positions {:?}: {}", i, e.positions, e2))?;
                    // to the end of the stripe for some entries, well into the next group for the others
                    let n = if i == 0 || i + 1 == ents.len() || i == ents.len() / 2 || i % 97 == 1 { g.end.0 - a.0 } else { (b.0 - a.0 + 300).min(g.end.0 - a.0) };
                    let mut o = Col { present: Vec::with_capacity(n), vals: ColReader::empty_vals(&inf.ty) };
                    let m = r.read(n, &mut o).map_err(|e2| format!("entry {} positions {:?}: {}", i, e.positions, e2))?;
                    if let Some(j) = (0..n).find(|j| o.present[*j] != col.present[a.0 + j]) { return Err(format!("entry {} positions {:?}: slot {} after the seek has the wrong nullness", i, e.positions, j)); }
                    if let Some(j) = col.vals.diff(a.1, &o.vals, 0, m) { return Err(format!("entry {} positions {:?}: value {} after the seek is {} instead of {}", i, e.positions, j, o.vals.show(j), col.vals.show(a.1 + j))); }
                    mid += e.positions.iter().any(|p| *p > 0) as u64;
                    deep += (n > b.0 - a.0) as u64;
                }
                Ok(())
            };
            let r = try_with(&g.rows);
            let r = if r.is_err() && g.own != g.rows { let o = try_with(&g.own); if o.is_ok() { cov.add("nested columns with groups of their own values", 1); } if g.own.len() == ents.len() { o } else { r } } else { r };
            r.map_err(|e| format!("stripe {} column {} ({}): {}", k, id, short(&inf.ty), e))?;
            cov.add("entries seeked", ents.len() as u64);
            cov.add("entries away from the stream start", mid);
            cov.add("seeks decoded past their group", deep);
            if cds[id].present.is_some() { cov.add("entries with null-stream positions", ents.len() as u64); }
        }
    }
    Ok(())
}

/// C09. Nested columns cut by their own values are the recorded finding; anything else is a violation.
pub fn group_bounds(c: &Case, bytes: &[u8], cov: &mut Cov) -> Result<(), String> {
    let f = full(bytes)?;
    if f.tail.footer.stride != Some(c.cfg.stride as u64) { return Err(format!("declared stride {:?} instead of {}", f.tail.footer.stride, c.cfg.stride)); }
    let sr = stripe_rows(c, &f)?;
    let gs = groups(c, &sr);
    let ix = each_index(&f, bytes, c.infos.len())?;
    for (k, (_, es)) in ix.iter().enumerate() {
        for (id, ents) in es.iter().enumerate() {
            let g = &gs[k][id];
            let try_with = |cuts: &[Cut]| -> Result<(), String> {
                if ents.len() != cuts.len() { return Err(format!("{} row-index entries instead of {}", ents.len(), cuts.len())); }
                for (i, ((a, b), e)) in ends(cuts, g.end).zip(ents).enumerate() {
                    let m = crate::wire::Msg::new(e.stats.as_ref().ok_or("no statistics")?)?;
                    let n = m.u0(1)?;
                    if n != (b.1 - a.1) as u64 { return Err(format!("entry {} counts {} values, the row group has {}", i, n, b.1 - a.1)); }
                    let hn = m.u(10)?.unwrap_or(1) != 0;
                    if hn != (b.0 - a.0 != b.1 - a.1) { return Err(format!("entry {} hasNull {} for a row group of {} slots and {} values", i, hn, b.0 - a.0, b.1 - a.1)); }
                }
                Ok(())
            };
            match try_with(&g.rows) {
                Ok(()) => cov.add("columns x stripes with row-aligned groups", 1),
                Err(e) => {
                    if g.own != g.rows && try_with(&g.own).is_ok() { *cov.known.entry("nested-own-stride".into()).or_insert(0) += 1; }
                    else { return Err(format!("stripe {} column {} ({}): {}", k, id, short(&c.infos[id].ty), e)); }
                }
            }
            cov.add("row-index entries", ents.len() as u64);
        }
    }
    Ok(())
}

/// C10
pub fn schema_fidelity(c: &Case, bytes: &[u8], cov: &mut Cov) -> Result<(), String> {
    let f = file(bytes);
    let t = parse_tail(f)?;
    let ts = &t.footer.types;
    if ts.len() != c.infos.len() { return Err(format!("{} types for {} columns", ts.len(), c.infos.len())); }
    for (id, (inf, ty)) in c.infos.iter().zip(ts).enumerate() {
        let w = |m: String| format!("type {}: {}", id, m);
        if ty.kind != inf.ty.kind() { return Err(w(format!("kind {} instead of {}", ty.kind, inf.ty.kind()))); }
        let subs: Vec<u64> = inf.children.iter().map(|x| *x as u64).collect();
        if ty.subtypes != subs { return Err(w(format!("subtypes {:?} instead of {:?}", ty.subtypes, subs))); }
        match &inf.ty {
            Ty::Struct(fs) => {
                if ty.names.len() != fs.len() { return Err(w(format!("{} field names for {} fields", ty.names.len(), fs.len()))); }
                for (i, (n, _)) in fs.iter().enumerate() { if ty.names[i] != n.as_bytes() { return Err(w(format!("field {} is named {:?} instead of {:?}", i, String::from_utf8_lossy(&ty.names[i]), n))); } }
                cov.add("field names compared", fs.len() as u64);
            }
            _ => if !ty.names.is_empty() { return Err(w("field names on a type that has none".into())); },
        }
        let (wl, wp, ws) = match &inf.ty { Ty::Char(n) | Ty::VarChar(n) => (Some(*n as u64), None, None), Ty::Decimal(p, s) => (None, Some(*p as u64), Some(*s as u64)), _ => (None, None, None) };
        if ty.maxlen != wl { return Err(w(format!("maximum length {:?} instead of {:?}", ty.maxlen, wl))); }
        if ty.prec != wp { return Err(w(format!("precision {:?} instead of {:?}", ty.prec, wp))); }
        if ty.scale.unwrap_or(0) != ws.unwrap_or(0) || (ws.is_none() && ty.scale.is_some()) { return Err(w(format!("scale {:?} instead of {:?}", ty.scale, ws))); }
        cov.add("types compared", 1);
    }
    for (k, s) in t.footer.stripes.iter().enumerate() {
        if s.offset < f.base { continue; }
        let sf = stripe_footer(f, &t.ps, s).map_err(|e| format!("stripe {}: {}", k, e))?;
        if sf.encodings.len() != c.infos.len() { return Err(format!("stripe {}: {} encodings", k, sf.encodings.len())); }
        for (id, e) in sf.encodings.iter().enumerate() { if e.0 != 0 { return Err(format!("stripe {}: column {} has encoding {}", k, id, e.0)); } }
        let mut got: Vec<Vec<u64>> = vec![vec![]; c.infos.len()];
        for st in &sf.streams { got.get_mut(st.col as usize).ok_or_else(|| format!("stripe {}: stream for column {}", k, st.col))?.push(st.kind); }
        for (id, inf) in c.infos.iter().enumerate() {
            let mut want: Vec<u64> = match &inf.ty {
                Ty::Boolean | Ty::Short | Ty::Int | Ty::Long | Ty::Date | Ty::Float | Ty::Double | Ty::Union(_) => vec![K_DATA, K_INDEX],
                Ty::Timestamp | Ty::Decimal(_, _) => vec![K_DATA, K_SECONDARY, K_INDEX],
                Ty::Str | Ty::Char(_) | Ty::VarChar(_) | Ty::Binary => vec![K_DATA, K_LENGTH, K_INDEX],
                Ty::List(_) | Ty::Map(_, _) => vec![K_LENGTH, K_INDEX],
                Ty::Struct(_) => vec![K_INDEX],
            };
            let mut g = got[id].clone();
            g.retain(|k| *k != K_PRESENT);
            g.sort();
            want.sort();
            if g != want { return Err(format!("stripe {}: column {} ({}) has streams of kinds {:?} instead of {:?}", k, id, short(&inf.ty), g, want)); }
        }
        cov.add("stripes checked", 1);
    }
    Ok(())
}

/// Rows [a, b) of a case, in the given batches.
pub fn slice(c: &Case, a: usize, b: usize, batches: Vec<usize>) -> Case {
    let cu = c.cuts(&[a, b]);
    let cols = c.cols.iter().zip(&cu).map(|(col, q)| {
        let (o0, v0) = q[0];
        let (o1, v1) = q[1];
        let vals = match &col.vals {
            Vals::Bool(v) => Vals::Bool(v[v0..v1].to_vec()), Vals::Long(v) => Vals::Long(v[v0..v1].to_vec()), Vals::Float(v) => Vals::Float(v[v0..v1].to_vec()),
            Vals::Double(v) => Vals::Double(v[v0..v1].to_vec()), Vals::Ts(v) => Vals::Ts(v[v0..v1].to_vec()), Vals::Dec(v) => Vals::Dec(v[v0..v1].to_vec()),
            Vals::Str(v) => Vals::Str(v[v0..v1].to_vec()), Vals::Bin(v) => Vals::Bin(v[v0..v1].to_vec()), Vals::Unit(_) => Vals::Unit(v1 - v0),
            Vals::Len(v) => Vals::Len(v[v0..v1].to_vec()), Vals::Tag(v) => Vals::Tag(v[v0..v1].to_vec()),
        };
        Col { present: col.present[o0..o1].to_vec(), vals }
    }).collect();
    let mut r = c.clone();
    r.cols = cols;
    r.rows = b - a;
    r.batches = batches;
    r
}

/// Batch index ranges of the stripes, as observed from the destination's growth; the last may have been written by finish.
pub fn observed_stripes(c: &Case, r: &Run) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut s = 0;
    let mut last = 3;
    for (b, n) in r.after.iter().enumerate() { if *n > last { v.push((s, b + 1)); s = b + 1; last = *n; } }
    let rows: usize = c.batches[s..].iter().sum();
    if rows > 0 { v.push((s, c.batches.len())); }
    v
}

/// Buffered size brackets if rows [a, b) were the current stripe: (certainly at least, certainly at most).
pub fn size_bracket(c: &Case, a: usize, b: usize) -> Result<(u64, u64), String> {
    let mut s = slice(c, a, b, vec![b - a]);
    s.cfg.stripe_size = usize::MAX;
    s.order = Order::ColumnMajor;
    let r = run(&s).map_err(|e| format!("measuring run: {}", e))?;
    let f = full(&r.bytes)?;
    if f.stripes.is_empty() { return Ok((0, 0)); }
    let (si, sf) = &f.stripes[0];
    let block = c.cfg.block() as u64;
    let mut held = 0u64;
    let mut chunks = 0u64;
    let mut streams = 0u64;
    let mut haspresent = vec![false; c.infos.len()];
    for st in sf.streams.iter().filter(|s| s.kind != K_INDEX) {
        streams += 1;
        let p = unframe(file(&r.bytes).get(st.off, st.len)?, f.tail.ps.kind)?;
        chunks += p.chunks.len() as u64;
        if st.kind == K_PRESENT { haspresent[st.col as usize] = true; }
        held += match (&c.infos[st.col as usize].ty, st.kind) {
            (_, K_PRESENT) | (Ty::Boolean, _) | (Ty::Union(_), _) => 132,
            (Ty::Float, _) | (Ty::Double, _) => 0,
            (Ty::Decimal(_, _), K_DATA) | (Ty::Str, K_DATA) | (Ty::Char(_), K_DATA) | (Ty::VarChar(_), K_DATA) | (Ty::Binary, K_DATA) => 0,
            _ => 1 + 128 * 10,
        };
    }
    let mut extra = 0u64;
    for (id, col) in s.cols.iter().enumerate() { if !haspresent[id] { streams += 1; extra += 2 * (col.present.len() as u64 / 1040 + 2) + if block > 0 { 3 } else { 0 }; } }
    Ok((si.data.saturating_sub(held + 3 * chunks), si.data + extra + streams * block))
}

/// Columns whose buffered size is exactly known, with stripe sizes at and next to what a batch end holds.
pub fn exact_rollover(seed: u64, cov: &mut Cov) -> Result<(), String> {
    use orc_format::{schema::{Field, Schema}, writer::{compression::{SnappyCompression, ZstdCompression}, data::{BaseData, Data, GenericData}, Config, Writer}};
    let mut q = crate::rng::Rng::new(seed ^ 0x11e);
    let len = 1 + q.us(40);
    let ncols = 1 + q.us(3);
    let kinds: Vec<usize> = (0..ncols).map(|_| q.us(4)).collect();
    let cols: Vec<Schema> = kinds.iter().map(|k| [Schema::Double, Schema::Float, Schema::String, Schema::Binary][*k].clone()).collect();
    let width: usize = kinds.iter().map(|k| [8, 4, len, len][*k]).sum();
    let root = ncols == 1 && q.bool();
    let schema = if root { cols[0].clone() } else { Schema::Struct(cols.into_iter().enumerate().map(|(i, s)| Field(format!("f{}", i), s)).collect()) };
    let limit = (width * q.us(100) + [0usize, 1, 2][q.us(3)]).saturating_sub(1);
    let cfg = match q.us(4) { 0 => Config::new().with_compression(SnappyCompression::new().build()), 1 => Config::new().with_compression(ZstdCompression::new().build()), _ => Config::new() };
    let mut w = Writer::new(Vec::<u8>::new(), &schema, cfg.with_stripe_size(limit)).map_err(|e| e.to_string())?;
    let text = "x".repeat(len);
    let put = |d: &mut Data| match d { Data::Double(x) => x.write(1.5), Data::Float(x) => x.write(2.5), Data::String(x) => x.write(&text), Data::Binary(x) => x.write(text.as_bytes()), _ => unreachable!() };
    let (mut held, mut last) = (0usize, w.inner().len());
    let step = 1 + q.us(30);
    for b in 0..1 + q.us(20) {
        let n = q.us(step + 1);
        // the lengths and presence of up to 130 values are one run that the encoders hold back
        if held + n > 125 { break; }
        for _ in 0..n { match w.data() { Data::Struct(x) => { x.write(); for c in x.children() { put(c); } } d => put(d) } }
        held += n;
        let size = w.data().estimated_size();
        w.write_batch(n as u64).map_err(|e| e.to_string())?;
        let closed = w.inner().len() > last;
        last = w.inner().len();
        if size == held * width {
            cov.add("batch ends of exactly known size", 1);
            cov.max("batch ends holding exactly the stripe size", (size == limit) as u64);
            if closed != (size > limit && held > 0) { return Err(format!("batch {}: {} rows of {} bytes are buffered, stripe size {}: stripe {}", b, held, width, limit, if closed { "closed" } else { "left open" })); }
        }
        if closed { held = 0; }
    }
    Ok(())
}

/// C11
pub fn rollover(c: &Case, r: &Run, cov: &mut Cov) -> Result<(), String> {
    let t = parse_tail(file(&r.bytes))?;
    let obs = observed_stripes(c, r);
    let bounds = c.row_bounds();
    let st = &t.footer.stripes;
    if st.len() != obs.len() { return Err(format!("{} stripes in the footer, {} observed while writing", st.len(), obs.len())); }
    let mut size_checks = 0;
    for (k, (s, e)) in obs.iter().enumerate() {
        let rows = bounds[*e] - bounds[*s];
        if st[k].rows != rows as u64 { return Err(format!("stripe {} has {} rows, its batches have {}", k, st[k].rows, rows)); }
        if rows == 0 { return Err(format!("stripe {} is empty", k)); }
        let closed_in_batch = *e <= r.after.len() && (*e < c.batches.len() || r.after[*e - 1] as u64 == st[k].offset + st[k].index + st[k].data + st[k].footer);
        if closed_in_batch && r.after[*e - 1] as u64 != st[k].offset + st[k].index + st[k].data + st[k].footer { return Err(format!("after batch {} the destination has {} bytes, stripe {} ends at {}", e - 1, r.after[*e - 1], k, st[k].offset + st[k].index + st[k].data + st[k].footer)); }
        if size_checks < 12 || k + 1 == obs.len() {
            size_checks += 1;
            let lim = c.cfg.stripe_size as u64;
            // the last batch end with rows before the closing one must not already have been over the limit
            let mut j = *e;
            let last_end = if closed_in_batch { j -= 1; Some(j) } else { Some(*e) };
            if let Some(q) = last_end {
                if bounds[q] > bounds[*s] {
                    let (lo, _) = size_bracket(c, bounds[*s], bounds[q])?;
                    if lo > lim { return Err(format!("stripe {}: batches {}..{} already held at least {} bytes, over the stripe size {}, but the stripe stayed open", k, s, q, lo, lim)); }
                    cov.add("open batch ends checked", 1);
                }
            }
            if closed_in_batch {
                let (_, hi) = size_bracket(c, bounds[*s], bounds[*e])?;
                if hi <= lim { return Err(format!("stripe {} was closed at batch {} with at most {} bytes, stripe size {}", k, e - 1, hi, lim)); }
                cov.add("rollovers checked", 1);
            }
        }
    }
    let sum: u64 = st.iter().map(|s| s.rows).sum();
    if sum != c.rows as u64 || t.footer.rows.unwrap_or(0) != c.rows as u64 { return Err(format!("{} rows in the stripes, {:?} in the footer, {} written", sum, t.footer.rows, c.rows)); }
    cov.add("stripes", st.len() as u64);
    cov.max("stripes per file", st.len() as u64);
    // no row lost or duplicated across a rollover
    round_trip(c, &r.bytes, cov)
}

// ---- C20 ----
fn vlen(v: u64) -> usize { (64 - (v | 1).leading_zeros() as usize + 6) / 7 }
/// Size of the greedy run-length encoding described by the specification.
fn ref_int(v: &[i64], signed: bool) -> (usize, usize) {
    let w = |x: i64| vlen(if signed { crate::wire::unzz(x) } else { x as u64 });
    let plain: usize = v.iter().map(|x| w(*x)).sum();
    let (mut cost, mut lit, mut i) = (0usize, 0usize, 0usize);
    while i < v.len() {
        let mut n = 1;
        if i + 2 < v.len() {
            let d = v[i + 1].wrapping_sub(v[i]);
            if d >= -128 && d <= 127 { while i + n < v.len() && n < 130 && v[i + n].wrapping_sub(v[i + n - 1]) == d { n += 1; } }
        }
        if n >= 3 { cost += 2 + w(v[i]); lit = 0; i += n; } else {
            if lit == 0 || lit == 128 { cost += 1; lit = 0; }
            cost += w(v[i]);
            lit += 1;
            i += 1;
        }
    }
    (cost, plain)
}
fn ref_byte(v: &[u8]) -> usize {
    let (mut cost, mut lit, mut i) = (0usize, 0usize, 0usize);
    while i < v.len() {
        let mut n = 1;
        while i + n < v.len() && n < 130 && v[i + n] == v[i] { n += 1; }
        if n >= 3 { cost += 2; lit = 0; i += n; } else { if lit == 0 || lit == 128 { cost += 1; lit = 0; } cost += 1; lit += 1; i += 1; }
    }
    cost
}
fn pack(v: &[bool]) -> Vec<u8> { v.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | (*b as u8) << (7 - i))).collect() }

fn int_ok(d: &[u8], v: &[i64], signed: bool, cov: &mut Cov) -> Result<(), String> {
    // grammar: whole groups, covering exactly the values
    let (mut p, mut n, mut runs, mut lits) = (0usize, 0usize, 0u64, 0u64);
    while p < d.len() {
        let c = d[p] as usize;
        p += 1;
        if c < 128 { n += c + 3; runs += 1; if p >= d.len() { return Err("truncated run".into()); } p += 1; varint(d, &mut p)?; }
        else { let k = 256 - c; n += k; lits += 1; for _ in 0..k { varint(d, &mut p)?; } }
    }
    if n != v.len() { return Err(format!("groups hold {} values instead of {}", n, v.len())); }
    cov.add("integer runs", runs);
    cov.add("integer literal groups", lits);
    let (r, plain) = ref_int(v, signed);
    if d.len() * 4 > plain * 5 + v.len() / 25 + 12 { return Err(format!("{} bytes for {} values whose plain form takes {}", d.len(), v.len(), plain)); }
    if d.len() * 2 > r * 3 + 26 { return Err(format!("{} bytes where runs allow {}", d.len(), r)); }
    Ok(())
}
fn byte_ok(d: &[u8], v: &[u8], cov: &mut Cov) -> Result<(), String> {
    let (mut p, mut n, mut runs, mut lits) = (0usize, 0usize, 0u64, 0u64);
    while p < d.len() {
        let c = d[p] as usize;
        p += 1;
        if c < 128 { n += c + 3; runs += 1; p += 1; } else { n += 256 - c; lits += 1; p += 256 - c; }
        if p > d.len() { return Err("truncated group".into()); }
    }
    if n != v.len() { return Err(format!("groups hold {} bytes instead of {}", n, v.len())); }
    cov.add("byte runs", runs);
    cov.add("byte literal groups", lits);
    let r = ref_byte(v);
    if d.len() * 4 > v.len() * 5 + v.len() / 25 + 12 { return Err(format!("{} bytes for {} bytes", d.len(), v.len())); }
    if d.len() * 2 > r * 3 + 8 { return Err(format!("{} bytes where runs allow {}", d.len(), r)); }
    Ok(())
}
pub fn streams_ok(c: &Case, bytes: &[u8], cov: &mut Cov) -> Result<(), String> {
    let f = full(bytes)?;
    same_kinds(&c.infos, &f.infos)?;
    let sr = stripe_rows(c, &f)?;
    let mut rows = vec![0];
    rows.extend(sr.iter().map(|x| x.1));
    let cu = c.cuts(&rows);
    let mut cols = empty_cols(&f.infos);
    for (k, (si, sf)) in f.stripes.iter().enumerate() {
        let cds = stripe_cols(file(bytes), &f.tail.ps, sf, c.infos.len(), false).map_err(|e| format!("stripe {}: {}", k, e))?;
        let mut left = vec![];
        decode_stripe(&f.infos, &cds, si.rows as usize, &mut cols, Some(&mut left)).map_err(|e| format!("stripe {}: {}", k, e))?;
        if let Some(l) = left.first() { return Err(format!("stripe {} {}", k, l)); }
        for (id, cd) in cds.iter().enumerate() {
            let (a, b) = (cu[id][k], cu[id][k + 1]);
            let col = &c.cols[id];
            let nulls = b.0 - a.0 != b.1 - a.1;
            let w = |e: String| format!("stripe {} column {} ({}): {}", k, id, short(&c.infos[id].ty), e);
            if nulls != cd.present.is_some() { return Err(w(format!("{} nulls, but {} null stream", (b.0 - a.0) - (b.1 - a.1), if nulls { "no" } else { "a" }))); }
            cov.add(if nulls { "null streams" } else { "columns without null stream" }, 1);
            if let Some(p) = &cd.present { byte_ok(&p.data, &pack(&col.present[a.0..b.0]), cov).map_err(|e| w(format!("null stream: {}", e)))?; }
            let e: &[u8] = &[];
            let d = |p: &'_ Option<Plain>| p.as_ref().map(|p| p.data.clone()).unwrap_or(e.to_vec());
            match (&col.vals, &c.infos[id].ty) {
                (Vals::Bool(v), _) => byte_ok(&d(&cd.data), &pack(&v[a.1..b.1]), cov).map_err(w)?,
                (Vals::Tag(v), _) => byte_ok(&d(&cd.data), &v[a.1..b.1], cov).map_err(w)?,
                (Vals::Long(v), _) => int_ok(&d(&cd.data), &v[a.1..b.1], true, cov).map_err(w)?,
                (Vals::Len(v), _) => int_ok(&d(&cd.length), &v[a.1..b.1].iter().map(|x| *x as i64).collect::<Vec<_>>(), false, cov).map_err(w)?,
                (Vals::Ts(v), _) => {
                    int_ok(&d(&cd.data), &v[a.1..b.1].iter().map(|x| x.0 - ORC_EPOCH).collect::<Vec<_>>(), true, cov).map_err(w)?;
                    let ns: Vec<i64> = v[a.1..b.1].iter().map(|x| { let mut n = x.1 as i64; let mut z = 0; while n != 0 && n % 10 == 0 && z < 8 { n /= 10; z += 1; } if z < 2 { (x.1 as i64) << 3 } else { n << 3 | (z - 1) } }).collect();
                    int_ok(&d(&cd.secondary), &ns, false, cov).map_err(w)?;
                }
                (Vals::Dec(v), Ty::Decimal(_, s)) => {
                    let plain: usize = v[a.1..b.1].iter().map(|x| { let z = ((*x << 1) ^ (*x >> 127)) as u128; (128 - (z | 1).leading_zeros() as usize + 6) / 7 }).sum();
                    let g = d(&cd.data).len();
                    if g != plain { return Err(w(format!("{} bytes of decimal values instead of {}", g, plain))); }
                    int_ok(&d(&cd.secondary), &vec![*s as i64; b.1 - a.1], true, cov).map_err(w)?;
                }
                (Vals::Str(v), _) => int_ok(&d(&cd.length), &v[a.1..b.1].iter().map(|x| x.len() as i64).collect::<Vec<_>>(), false, cov).map_err(w)?,
                (Vals::Bin(v), _) => int_ok(&d(&cd.length), &v[a.1..b.1].iter().map(|x| x.len() as i64).collect::<Vec<_>>(), false, cov).map_err(w)?,
                _ => {}
            }
        }
    }
    Ok(())
}
