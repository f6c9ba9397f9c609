//! C19: the workloads that run under AddressSanitizer, valgrind and Miri. The instrumentation is the oracle; nothing else is judged here.
use crate::checks::Cov;
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::{directed, mem, protos, reject, special};
use std::io::{self, Write};
use std::sync::Mutex;

/// A destination that looks at every byte it receives, so that uninitialised ones are noticed.
struct Touch { n: u64, sum: u64, odd: u64, file: Option<std::fs::File> }
impl Touch { fn new(file: bool) -> Touch { Touch { n: 0, sum: 0, odd: 0, file: if file { std::fs::OpenOptions::new().write(true).open("/dev/null").ok() } else { None } } } }
impl Write for Touch {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        for x in b { self.sum = self.sum.wrapping_mul(31).wrapping_add(*x as u64); }
        if self.sum & 1 == 1 { self.odd += 1; }
        if let Some(f) = &mut self.file { f.write_all(b)?; }
        self.n += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn item(mode: &str, i: usize, seed: u64, cov: &mut Cov) {
    let s = mix(seed ^ mix(i as u64 + 1));
    let mut r = Rng::new(s);
    let p = match mode {
        "asan" => Profile { max_rows: *r.pick(&[40usize, 400, 4000]), budget: 12_000, multi_batch: r.bool(), multi_stripe: r.bool(), ..Profile::default() },
        _ => Profile { max_rows: *r.pick(&[30usize, 300]), budget: 1200, multi_batch: r.bool(), multi_stripe: r.bool(), ..Profile::default() },
    };
    let c = gen_case(s, &p);
    match catch_io(|| drive(&c, Touch::new(mode == "valgrind"), |_, _| {})) {
        Ok(t) => { cov.add("bytes inspected at the destination", t.n); cov.sigs.insert(mix(t.sum ^ t.n)); cov.add("buffers of odd sum", t.odd) }
        Err(_) => cov.add("writers that failed", 1),
    }
    cov.add(match c.cfg.codec { Codec::None => "files without compression", Codec::Snappy(_) => "files with Snappy", Codec::Zstd(..) => "files with Zstandard" }, 1);
    if i % 3 == 0 { let mut cv = Cov::default(); let _ = catch(|| mem::endings(&c, s, &mut cv)); for (k, v) in cv.n { if k.starts_with("writers") { cov.add(&k, v); } } }
    if i % 5 == 1 { let mut cv = Cov::default(); let _ = catch(|| reject::case(&c, s, &mut cv, 20)); cov.add("misuse histories", 1); }
    if i % 7 == 2 && c.n_ops() < 3000 {
        let d = gen_case(mix(s), &Profile { max_rows: 10, budget: 50, ..p });
        let mut cv = Cov::default();
        let _ = catch(|| special::c17(&[c.clone(), d], i, s, &mut cv));
        cov.add("groups of concurrent writers", 1);
    }
    if i % 5 == 4 { let d = if r.bool() { let mut d = c.clone(); d.cfg.codec = Codec::None; d } else { gen_case(mix(s), &Profile { max_rows: 20, budget: 200, ..p }) }; hostile(&c, &d, &mut r, cov); }
    if i % 11 == 3 {
        // the writer's rows handed over between threads
        let c2 = c.clone();
        let h = std::thread::scope(|x| x.spawn(move || catch_io(|| drive(&c2, Touch::new(false), |_, _| {})).map(|t| t.n).unwrap_or(0)).join());
        cov.add("writers on another thread", h.is_ok() as u64);
    }
    for k in 0..10 { let mut cv = Cov::default(); let _ = catch(|| protos::random(mix(s ^ k << 8), &mut cv)); cov.add("metadata encodings parsed", 7); }
    cov.add("executions", 1);
}

/// Columns exchanged between writers and between siblings, and calls after refusals: legal for the compiler, senseless for the file.
fn hostile(c: &Case, d: &Case, r: &mut Rng, cov: &mut Cov) {
    let _ = catch(|| {
        let (mut a, mut b) = (crate::special::Stepper::new(c, Touch::new(false)).unwrap(), crate::special::Stepper::new(d, Touch::new(false)).unwrap());
        for _ in 0..4 + r.us(20) {
            match r.below(10) {
                8 | 9 => for _ in 0..3 { let (x, which) = (r.u64(), r.bool()); let _ = catch(|| senseless(if which { a.w.data() } else { b.w.data() }, &mut Rng::new(x))); },
                0 => std::mem::swap(a.w.data(), b.w.data()),
                1 => { let x = a.w.data(); if let orc_format::writer::data::Data::Struct(s) = x { let k = s.children().len(); if k > 1 { let (i, j) = (r.us(k), r.us(k)); s.children().swap(i, j); } } }
                2 => { let n = r.below(4); let _ = catch(|| a.w.write_batch(n)); }
                3 | 4 => { let _ = catch(|| a.step()); }
                5 | 6 => { let _ = catch(|| b.step()); }
                _ => { let (p, q) = (r.below(30), r.below(30)); let _ = catch(|| { orc_format::writer::data::BaseData::verify_row_count(a.w.data(), p); }); let _ = catch(|| b.w.write_batch(q)); }
            }
        }
        let (x, y) = (catch(|| a.finish().is_ok()), catch(|| b.finish().is_ok()));
        std::hint::black_box((x.is_ok(), y.is_ok()));
    });
    cov.add("misuse histories", 1);
    cov.add("histories with exchanged columns", 1);
}

/// A call with arguments at and beyond the edge of what makes sense, on some column.
fn senseless(d: &mut orc_format::writer::data::Data, r: &mut Rng) {
    use orc_format::writer::data::{Data, GenericData};
    let deeper = r.chance(3, 4);
    let far = |r: &mut Rng, n: usize| *r.pick(&[n, n.saturating_sub(1), n + 1, n + 2, 2 * n + 3, 127, 128, 255, 256, 1 << 32, usize::MAX, usize::MAX / 8]);
    match d {
        Data::Struct(x) => { let n = x.children().len(); if deeper && n > 0 { senseless(&mut x.children()[r.us(n)], r) } else { x.child(far(r, n)).write_null(); x.write() } }
        Data::Union(x) => { let n = x.children().len(); match r.below(3) { 0 if n > 0 => senseless(x.child(r.us(n)), r), 1 => x.child(far(r, n)).write_null(), _ => { let t = far(r, n); x.write(t) } } }
        Data::List(x) => if deeper { senseless(x.child(), r) } else { let n = far(r, 1) as u64; x.write(n) },
        Data::Map(x) => if deeper { let k = r.bool(); let (a, b) = x.children(); senseless(if k { a } else { b }, r) } else { let n = far(r, 1) as u64; x.write(n) },
        Data::Long(x) => x.write(*r.pick(&[i64::MIN, i64::MAX, 0, 1 << 31, -(1 << 31) - 1])),
        Data::Timestamp(x) => { let s = *r.pick(&[i64::MIN, i64::MAX, 0, 1420070399, -1]); let n = *r.pick(&[0u32, 999_999_999, 1_000_000_000, u32::MAX, 100, 999]); if r.bool() { x.write_nanos(s, n) } else { x.write_nanos_epoch(s, n) } }
        Data::Decimal(x) => { let v = *r.pick(&[i128::MIN, i128::MAX, 0, -1, 1 << 64, -(1 << 63)]); if r.bool() { x.write_i128(v) } else { x.write_i64(v as i64) } }
        Data::String(x) => { let n = *r.pick(&[0usize, 1, 7, 127, 300, 2000]); x.write(&"\u{10ffff}\0é".repeat(n)) }
        Data::Binary(x) => { let n = *r.pick(&[0usize, 1, 99, 100, 101, 1000, 5000]); x.write(&vec![r.u64() as u8; n]) }
        Data::Boolean(x) => x.write(r.bool()),
        Data::Float(x) => x.write(f32::from_bits(r.u64() as u32)),
        Data::Double(x) => x.write(f64::from_bits(r.u64())),
    }
}

/// The same in small, for the interpreter.
fn small(i: usize, seed: u64, cov: &mut Cov) {
    let s = mix(seed ^ mix(i as u64 + 1));
    let mut r = Rng::new(s);
    let part = i % 8;
    if part == 6 { let mut cv = Cov::default(); let _ = catch(|| protos::random(s, &mut cv)); cov.add("metadata encodings parsed", 7); return; }
    // native code cannot be interpreted; large cases take too long
    let mut c;
    let mut k = 0u64;
    loop {
        c = gen_case(mix(s ^ k), &Profile { max_rows: if part == 0 || part == 7 { 8 } else { 4 }, budget: 24, multi_batch: r.bool(), multi_stripe: r.bool(), ..Profile::default() });
        let b = *r.pick(&[1usize, 3, 17, 100, 300, 1000]);
        c.cfg.codec = match c.cfg.codec { Codec::None => Codec::None, _ => Codec::Snappy(b) };
        let bytes: usize = c.cols.iter().map(|x| match &x.vals { Vals::Str(v) => v.iter().map(|s| s.len()).sum(), Vals::Bin(v) => v.iter().map(|s| s.len()).sum(), v => v.len() }).sum();
        let w = (c.n_ops() + bytes + 30 * c.infos.len() * c.batches.len()) * if matches!(c.cfg.codec, Codec::Snappy(x) if x < 50) { 4 } else { 1 };
        k += 1;
        if w < if part == 4 || part == 3 { 500 } else { 1200 } || k > 60 { break; }
    }
    c.cfg.defaults = false;
    cov.add(match c.cfg.codec { Codec::None => "files without compression", _ => "files with Snappy" }, 1);
    let one = |c: &Case| match catch_io(|| drive(c, Touch::new(false), |_, _| {})) { Ok(t) => Some(t), Err(_) => None };
    match part {
        1 => { let mut n = 0; let _ = catch_io(|| drive(&c, Touch::new(false), |_, _| { n += 1; if n == 2 { panic!("dropped") } })); cov.add("writers dropped unfinished", 1); }
        5 => { let mut d = c.clone(); d.cfg.codec = Codec::None; hostile(&c, &d, &mut r, cov); }
        2 => { let k = r.us(200); let _ = catch_io(|| drive(&c, Fails(k), |_, _| {})); cov.add("writers that failed", 1); }
        3 => { let mut cv = Cov::default(); let _ = catch(|| reject::case(&c, s, &mut cv, 1)); cov.add("misuse histories", 1); }
        4 => {
            let d = c.clone();
            std::thread::scope(|x| { let a = x.spawn(|| one(&c).map(|t| t.n)); let b = x.spawn(|| one(&d).map(|t| t.n)); let _ = (a.join(), b.join()); });
            cov.add("groups of concurrent writers", 1);
        }
        _ => if let Some(t) = one(&c) { cov.add("bytes inspected at the destination", t.n); cov.sigs.insert(mix(t.sum ^ t.n)); cov.add("buffers of odd sum", t.odd) },
    }
    cov.add("executions", 1);
}
struct Fails(usize);
impl Write for Fails {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if self.0 == 0 { return Err(io::Error::from(io::ErrorKind::BrokenPipe)); } let n = b.len().min(self.0); self.0 -= n; Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// orcmon sanitizer-work <mode> <seed> <from> <to> <threads> <seconds> <report file>
pub fn main(a: &[String]) -> i32 {
    let mode = a[0].as_str();
    let num = |k: usize| a[k].parse::<u64>().unwrap();
    let (seed, from, to, threads, secs) = (num(1), num(2) as usize, num(3) as usize, num(4) as usize, num(5));
    let start = std::time::Instant::now();
    let dir = if mode == "asan" { directed::cases(false) } else { vec![] };
    let next = std::sync::atomic::AtomicUsize::new(from);
    let all = Mutex::new(Cov::default());
    let work = || {
        let mut cov = Cov::default();
        loop {
            let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if i >= to || start.elapsed().as_secs() >= secs { break; }
            if i < dir.len() { let _ = catch_io(|| drive(&dir[i], Touch::new(false), |_, _| {})); cov.add("directed executions", 1); }
            let t = std::time::Instant::now();
            if mode == "miri" { small(i, seed, &mut cov) } else { item(mode, i, seed, &mut cov) }
            if std::env::var_os("ORCMON_TIMES").is_some() { eprintln!("item {} {:?}", i, t.elapsed()); }
        }
        all.lock().unwrap().merge(cov);
    };
    if threads <= 1 { work() } else { std::thread::scope(|s| for _ in 0..threads { std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, work).unwrap(); }) }
    let c = all.into_inner().unwrap();
    let mut out = format!("distinct={}\n", c.sigs.len());
    for (k, v) in &c.n { out.push_str(&format!("{}={}\n", k, v)); }
    if a[6] == "-" { println!("{}", out) } else { std::fs::write(&a[6], out).unwrap(); }
    0
}
