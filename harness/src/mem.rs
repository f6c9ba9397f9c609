//! C18: the writer's heap, seen through a counting allocator (per thread, only while the writer runs) and mallinfo2.
use crate::checks::*;
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::{mix, Rng};
use orc_format::writer::Writer;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{self, Write};

pub struct Counting;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
#[inline]
fn note(d: i64) {
    let _ = ON.try_with(|on| if on.get() {
        let l = LIVE.get() + d;
        LIVE.set(l);
        if l > PEAK.get() { PEAK.set(l); }
        CALLS.set(CALLS.get() + 1);
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size() as i64); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;

/// Runs code with the counters on.
fn on<T>(f: impl FnOnce() -> T) -> T {
    struct Off(bool);
    impl Drop for Off { fn drop(&mut self) { ON.set(self.0); } }
    let _g = Off(ON.replace(true));
    f()
}
fn live() -> i64 { LIVE.get() }
fn peak_reset() { PEAK.set(LIVE.get()); }
fn peak() -> i64 { PEAK.get() }

pub struct Count { n: u64, fail_at: u64 }
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if self.n >= self.fail_at { return Err(io::Error::from(io::ErrorKind::BrokenPipe)); } self.n += b.len() as u64; Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn sink() -> Count { Count { n: 0, fail_at: u64::MAX } }

pub fn write_cols(c: &Case, w: &mut Writer<Count>) {
    for id in 0..c.cols.len() {
        if c.cols[id].present.is_empty() { continue; }
        write_ops(nav(w.data(), &c.ty, &c.infos[id].path, c.alt ^ id as u64), &c.cols[id], (0, 0), c.cols[id].present.len(), c.alt);
    }
}

pub struct Shape { pub streams: i64, pub ncols: i64, pub plain: i64, pub longest: i64 }
pub fn shape(c: &Case) -> Shape {
    let mut s = Shape { streams: 0, ncols: c.infos.len() as i64, plain: 0, longest: 0 };
    for (i, col) in c.cols.iter().enumerate() {
        s.streams += 1 + match c.infos[i].ty { Ty::Struct(_) => 0, Ty::Timestamp | Ty::Decimal(..) | Ty::Str | Ty::Binary | Ty::Char(_) | Ty::VarChar(_) => 2, _ => 1 };
        let per = match c.infos[i].ty { Ty::Decimal(..) => 22, Ty::Timestamp => 16, Ty::Struct(_) => 1, _ => 11 };
        s.plain += col.present.len() as i64 * per;
        match &col.vals {
            Vals::Str(v) => for x in v { s.plain += x.len() as i64; s.longest = s.longest.max(x.len() as i64); },
            Vals::Bin(v) => for x in v { s.plain += x.len() as i64; s.longest = s.longest.max(x.len() as i64); },
            _ => {}
        }
    }
    s
}

/// One file of `n` repetitions of the case's rows; the heap after every call.
pub fn long_file(c: &Case, n: usize, cov: &mut Cov) -> Result<(), String> {
    let sh = shape(c);
    let schema = c.ty.schema();
    // StripeInfo and Statistics records in vectors that double, with a quarter to spare, and the strings they hold
    let cap = (sh.ncols as u64).next_power_of_two().max(4) as i64;
    let per_stripe = |k: i64| (k.max(4) as u64).next_power_of_two() as i64 * 112 + k * (60 + cap * 145 + sh.ncols * 2 * sh.longest);
    let block = c.cfg.block() as i64;
    let cfg = c.cfg.build();
    // once before, for one-time allocations
    on(|| { let mut w = Writer::new(sink(), &schema, cfg.clone()).unwrap(); write_cols(c, &mut w); w.write_batch(c.rows as u64).unwrap(); w.finish().unwrap(); });
    let before = live();
    let mut w = on(|| Writer::new(sink(), &schema, cfg)).map_err(|e| e.to_string())?;
    let base = live();
    if base - before > sh.streams * (block + 45_000) + sh.ncols * 3000 + 20_000 { return Err(format!("a new writer with {} streams and block size {} holds {} bytes", sh.streams, block, base - before)); }
    let mut stripes = 0i64;
    let mut rows = 0u64;
    let mut entries = 0i64;
    let mut stripe_rows = 0i64;
    let mut peaks: Vec<i64> = vec![];
    let mut sunk = w.inner().n;
    let ops: i64 = c.cols.iter().map(|x| x.present.len() as i64).sum();
    let stripe = (c.cfg.stripe_size as i64).min(1 << 40);
    peak_reset();
    let mut worst = 0f64;
    for i in 0..n {
        on(|| { write_cols(c, &mut w); w.write_batch(c.rows as u64) }).map_err(|e| e.to_string())?;
        rows += c.rows as u64;
        stripe_rows += 1;
        entries = if c.cfg.stride == 0 { sh.ncols } else { ops * stripe_rows / c.cfg.stride as i64 + sh.ncols };
        let bound = base + per_stripe(stripes)
            + 4 * (stripe + sh.plain) + if block > 0 { 4 * (stripe + sh.plain) } else { 0 }
            + entries * (2000 + 6 * sh.longest)
            + sh.streams * (2 * block + 4000)
            + 60_000;
        worst = worst.max((peak() - base) as f64 / (bound - base) as f64);
        if peak() > bound { return Err(format!("batch {} of {} rows: {} bytes on the heap at once, {} of them since the writer was made (stripe size {}, batch of at most {} encoded bytes, {} row-index entries, {} streams with blocks of {}, {} stripes emitted)", i, c.rows, peak() - before, peak() - base, stripe, sh.plain, entries, sh.streams, block, stripes)); }
        if w.inner().n > sunk {
            sunk = w.inner().n;
            stripes += 1;
            peaks.push(peak() - per_stripe_used(live(), base));
            let held = live() - base;
            if held > per_stripe(stripes) + 2000 { return Err(format!("{} bytes held after stripe {} was emitted, beyond what a new writer holds; statistics need at most {}", held, stripes, per_stripe(stripes))); }
            if held < 0 { return Err(format!("after stripe {} the heap is {} bytes smaller than that of a new writer", stripes, -held)); }
            stripe_rows = 0;
            peak_reset();
            cov.add("heap observations after a stripe", 1);
            cov.max("percent of the per-stripe bound held", (held * 100 / (per_stripe(stripes) + 2000)) as u64);
            cov.max("bytes held per stripe and column after emission", (held / stripes / sh.ncols) as u64);
        }
        cov.add("heap observations after a batch", 1);
    }
    // every stripe of equal rows needs the same
    if peaks.len() >= 8 {
        let early = *peaks[1..4].iter().max().unwrap();
        for (i, p) in peaks.iter().enumerate().skip(4) { if *p > early + early / 10 + 4096 + 64 * 96 { return Err(format!("stripe {} needed {} bytes, early ones {}", i, p, early)); } }
        cov.add("files whose stripes were compared", 1);
    }
    cov.max("stripes in one file", stripes as u64);
    cov.max("rows in one file", rows);
    cov.max("percent of the heap bound used", (worst * 100.0) as u64);
    peak_reset();
    let at = live();
    on(|| w.finish().map(|_| ())).map_err(|e| e.to_string())?;
    let extra = peak() - at;
    let fin = 4 * (stripe.min(stripe_rows * sh.plain) + sh.plain) * if block > 0 { 2 } else { 1 } + entries * (2000 + 6 * sh.longest) + sh.streams * (2 * block + 4000) + (stripes + 1) * sh.ncols * (3000 + 8 * sh.longest) + 6 * block + 100_000;
    if extra > fin { return Err(format!("finish needed {} more bytes ({} stripes, {} columns)", extra, stripes, sh.ncols)); }
    if live() != before { return Err(format!("{} bytes still allocated after finish", live() - before)); }
    cov.add("writers that left nothing behind", 1);
    cov.add("executions", 1);
    cov.sigs.insert(mix(sunk ^ mix(rows)));
    if cov.samples.len() < 3 { cov.samples.push(format!("{} batches of {} rows, {} stripes; heap with a new writer {} bytes, highest percentage of the bound {:.0}; {}", n, c.rows, stripes, base - before, worst * 100.0, c.describe())); }
    Ok(())
}
/// Calls that hand over nothing must not make the writer grow, however often they come.
pub fn idle(seed: u64, n: usize, cov: &mut Cov) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let p = Profile { max_rows: 40, budget: 800, ..Profile::default() };
    let ty = root_ty(&mut r, &p);
    let mut c = gen_for(seed, &mut r, &p, ty, match seed % 3 { 0 => Codec::None, 1 => Codec::Snappy(4096), _ => Codec::Zstd(4096, 1) });
    c.cfg.stride = 5;
    c.cfg.stripe_size = if seed % 2 == 0 { usize::MAX } else { 0 };
    c.batches = vec![c.rows];
    let schema = c.ty.schema();
    let mut w = on(|| Writer::new(sink(), &schema, c.cfg.build())).map_err(|e| e.to_string())?;
    let mut sunk = 0;
    for part in ["before any row", "after rows", "after more rows"] {
        let held = on(|| -> io::Result<i64> {
            if part != "before any row" { write_cols(&c, &mut w); w.write_batch(c.rows as u64)?; }
            for _ in 0..3 { w.write_batch(0)?; }
            Ok(live())
        }).map_err(|e| e.to_string())?;
        let (mut held, mut most, mut left) = (held, held, n);
        sunk += 1;
        while left > 0 {
            on(|| -> io::Result<()> {
                for k in 0..1000 {
                    w.write_batch(0)?;
                    if k % 3 == 0 { let _ = w.inner(); }
                    if k % 50 == 0 { use orc_format::writer::data::BaseData; let _ = w.data().estimated_size(); }
                }
                Ok(())
            }).map_err(|e| e.to_string())?;
            left = left.saturating_sub(1000);
            most = most.max(live());
            // a stripe that such a call emits frees memory
            held = held.min(live());
            if most > held + 4096 { return Err(format!("{} bytes more on the heap after {} empty batches and inspections {}", most - held, n - left, part)); }
            cov.add("empty batches observed", 1000);
        }
    }
    cov.sigs.insert(mix(seed ^ sunk));
    on(|| w.finish().map(|_| ())).map_err(|e| e.to_string())?;
    cov.add("executions", 1);
    Ok(())
}
/// What is held beyond a new writer's heap, which later stripes' peaks include.
fn per_stripe_used(live: i64, base: i64) -> i64 { live - base }

/// Whatever way a writer ends, nothing of it remains.
pub fn endings(c: &Case, seed: u64, cov: &mut Cov) -> Result<(), String> {
    let schema = c.ty.schema();
    let mut r = Rng::new(seed);
    let bounds = c.row_bounds();
    let total = run(c).map_err(|e| e.to_string())?.bytes.len() as u64;
    cov.sigs.insert(mix(total ^ mix(c.alt)));
    let cuts = c.cuts(&bounds);
    for mode in 0..7 {
        let stop = r.us(c.batches.len() + 1);
        let fail = r.below(total.max(1));
        let go = || -> io::Result<()> {
            let mut w = Writer::new(Count { n: 0, fail_at: if mode == 2 || mode == 3 { fail } else { u64::MAX } }, &schema, c.cfg.build())?;
            for b in 0..c.batches.len() {
                if mode == 0 && b == stop { return Ok(()); }
                for id in 0..c.cols.len() {
                    let (x, y) = (cuts[id][b], cuts[id][b + 1]);
                    if y.0 > x.0 { write_ops(nav(w.data(), &c.ty, &c.infos[id].path, 0), &c.cols[id], x, y.0 - x.0, c.alt); }
                }
                if mode == 1 && b == stop { return Ok(()); }
                let n = c.batches[b] as u64 + if mode == 4 && b == stop { 1 } else { 0 };
                let e = w.write_batch(n);
                if mode == 3 && e.is_err() { let _ = w.write_batch(0); return w.finish().map(|_| ()); }
                e?;
            }
            if mode == 5 { let d = w.data(); use orc_format::writer::data::GenericData; d.write_null(); }
            if mode == 6 { w.data().unwrap_union(); }
            w.finish().map(|_| ())
        };
        // the cuts above are made outside, so that the counted part allocates for the writer only; twice, for one-time allocations
        for again in [false, true] {
            let b0 = live();
            let ended = on(|| { let x = catch_io(&go); let e = match &x { Ok(_) => 0, Err(Fail::Io(_)) => 1, Err(Fail::Panic(_)) => 2 }; drop(x); clear_last(); e });
            if again {
                if live() != b0 { return Err(format!("{} bytes still allocated after a writer {} (ending {})", live() - b0, ["was dropped before a batch end", "was dropped with pending values", "failed", "failed, and finish after it", "was refused a batch", "was refused at finish", "was misused"][mode], ended)); }
                cov.add(["writers finished or dropped", "writers ended by an error", "writers ended by a panic"][ended], 1);
            }
        }
    }
    cov.add("executions", 1);
    Ok(())
}

#[repr(C)]
#[derive(Clone, Copy)]
struct MallInfo2 { f: [usize; 10] }
extern "C" { fn mallinfo2() -> MallInfo2; }
fn native() -> i64 { let m = unsafe { mallinfo2() }; m.f[7] as i64 + m.f[4] as i64 }

/// All of malloc, including native code, on one thread.
pub fn native_heap(cases: &[Case], rounds: usize, cov: &mut Cov) -> Result<(), String> {
    for c in cases {
        let one = || -> Result<(), String> {
            catch_io(|| drive(c, sink(), |_, _| {})).map_err(|e| e.to_string())?;
            let _ = catch_io(|| drive(c, Count { n: 0, fail_at: 40 }, |_, _| {}));
            Ok(())
        };
        let big = c.n_ops() < 50 && shape(c).plain > 100_000;
        let rounds = if big { rounds / 3 } else { rounds };
        for _ in 0..10 { one()?; }
        let a = native();
        let mut m = a;
        for _ in 0..rounds { one()?; m = m.max(native()); }
        let b = native();
        if b - a > 65536 { return Err(format!("{} bytes of malloc memory more after {} writers ({})", b - a, 2 * rounds, c.name)); }
        cov.add("writers between native heap observations", 2 * rounds as u64);
        cov.sigs.insert(mix(c.alt ^ 77));
    }
    Ok(())
}

/// The workloads: one batch's rows each, repeated.
pub fn shapes(seed: u64, k: usize) -> (Case, usize) {
    let mut r = Rng::new(seed);
    let big = |c: usize| (DEFAULT_STRIPE.min(1 << 18) / (1 + c)).max(1 << 14);
    let codec = match k % 6 { 0 => Codec::None, 1 => Codec::Snappy(*r.pick(&[64, 1000, 4096, 65536])), 2 => Codec::Zstd(*r.pick(&[1000, 4096, 65536]), 1), 3 => Codec::None, 4 => Codec::Snappy(DEFAULT_BLOCK), _ => Codec::Zstd(DEFAULT_BLOCK, 1) };
    let stride = *r.pick(&[100u32, 1000, 10000, 10000, u32::MAX, 0]);
    let stripe = *r.pick(&[0usize, 1000, 20_000, 100_000, big(1)]);
    let p = Profile { max_rows: 1500, budget: 8000, ..Profile::default() };
    let ty = if k % 5 == 0 { root_ty(&mut r, &Profile { nested: false, ..p }) } else { root_ty(&mut r, &p) };
    let mut c = gen_for(seed, &mut r, &p, ty, codec);
    c.cfg = Cfg { stride, codec, stripe_size: stripe, defaults: false };
    c.batches = vec![c.rows];
    c.order = Order::ColumnMajor;
    (c, 0)
}

/// Repetitive rows, of which a stripe holds very many.
pub fn repetitive(k: usize) -> (Case, usize) {
    use crate::directed::*;
    let n = 4000usize;
    let codec = match k % 3 { 0 => Codec::None, 1 => Codec::Snappy(65536), _ => Codec::Zstd(65536, 1) };
    let ty = st(vec![Ty::Long, Ty::Boolean, Ty::Int, Ty::Union(vec![Ty::Date]), list(Ty::Short), map(Ty::Long, Ty::Int), st(vec![Ty::Long]), Ty::Binary]);
    let inf = infos(&ty);
    let cols: Vec<Col> = inf.iter().map(|i| {
        let vals = match i.ty { Ty::Boolean => Vals::Bool(vec![true; n]), Ty::Struct(_) => Vals::Unit(n), Ty::List(_) | Ty::Map(..) => Vals::Len(vec![1; n]), Ty::Union(_) => Vals::Tag(vec![0; n]), Ty::Binary => Vals::Bin(vec![vec![]; n]), _ => Vals::Long(vec![7; n]) };
        Col { present: vec![true; n], vals }
    }).collect();
    let mut c = mk("repetitive", ty, cols, n, vec![n], cfg(if k % 2 == 0 { 100_000 } else { u32::MAX }, codec, 200_000));
    if k >= 6 { let m = c.infos.len(); for i in 1..m { if c.infos[i].children.is_empty() && c.infos[i].parent == Some(0) { c.cols[i] = Col { present: vec![false; n], vals: match c.cols[i].vals { Vals::Bool(_) => Vals::Bool(vec![]), Vals::Bin(_) => Vals::Bin(vec![]), _ => Vals::Long(vec![]) } }; } } }
    (c, 0)
}

/// Incompressible bulk data.
pub fn bulk(k: usize) -> (Case, usize) {
    use crate::directed::*;
    let codec = match k % 3 { 0 => Codec::None, 1 => Codec::Snappy(DEFAULT_BLOCK), _ => Codec::Zstd(DEFAULT_BLOCK, 1) };
    let mut r = Rng::new(9 + k as u64);
    let vals: Vec<Vec<u8>> = (0..16).map(|_| (0..65536).map(|_| r.u64() as u8).collect()).collect();
    (full_one("bulk", Ty::Binary, Vals::Bin(vals), 1, cfg(10000, codec, 4 << 20)), 0)
}

/// Very many small stripes.
pub fn many_stripes(seed: u64) -> (Case, usize) {
    let mut r = Rng::new(seed);
    let p = Profile { max_rows: 12, budget: 300, ..Profile::default() };
    let ty = root_ty(&mut r, &p);
    let mut c = gen_for(seed, &mut r, &p, ty, if seed % 2 == 0 { Codec::None } else { Codec::Snappy(4096) });
    c.cfg.stripe_size = 0;
    c.cfg.stride = 5;
    c.batches = vec![c.rows];
    c.order = Order::ColumnMajor;
    (c, 0)
}
