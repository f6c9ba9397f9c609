//! C12, C17, C21: relations between several executions, and observation between calls.
use crate::checks::*;
use crate::driver::*;
use crate::model::*;
use crate::orc::*;
use crate::rng::{hash_bytes, Rng};
use orc_format::writer::Writer;
use std::io::{self, Write};

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} and {}, first difference at byte {}", a.len(), b.len(), i)
}

/// Another division into batches that must keep the stripe boundaries.
pub fn rebatch(c: &Case, r: &Run, rng: &mut Rng) -> Vec<usize> {
    let obs = observed_stripes(c, r);
    let free = c.cfg.stripe_size == usize::MAX;
    let splits = free || c.cfg.codec == Codec::None;
    let mut out = vec![];
    let zero = |out: &mut Vec<usize>, rng: &mut Rng| while rng.chance(1, 8) { out.push(0) };
    zero(&mut out, rng);
    for (s, e) in &obs {
        let closed = !free && *e <= r.after.len() && r.after[*e - 1] > if *e >= 2 { r.after[*e - 2] } else { 3 };
        // the rows up to the last batch end that must not close the stripe, and the final batch
        let head: usize = c.batches[*s..*e - 1].iter().sum();
        let last = c.batches[*e - 1];
        let (mut pieces, tail): (Vec<usize>, usize) = if closed { (vec![head], last) } else { (vec![head + last], 0) };
        if splits {
            let mut left = pieces[0];
            pieces.clear();
            let m = 1 + rng.us(left.max(1));
            while left > 0 && pieces.len() < 200 { let k = (1 + rng.us(m)).min(left); pieces.push(k); left -= k; }
            if left > 0 { pieces.push(left); }
        } else {
            // merge neighbouring batches at random
            let n = if closed { *e - 1 } else { *e };
            pieces.clear();
            let mut acc = 0;
            for b in *s..n { acc += c.batches[b]; if rng.bool() { pieces.push(acc); acc = 0; } }
            if acc > 0 { pieces.push(acc); }
        }
        for p in pieces { out.push(p); zero(&mut out, rng); }
        if closed {
            // the closing batch: everything since the last check may also arrive in one piece
            if rng.bool() { while out.last() == Some(&0) { out.pop(); } }
            out.push(tail);
        }
        zero(&mut out, rng);
    }
    while out.iter().sum::<usize>() < c.rows { out.push(c.rows - out.iter().sum::<usize>()); }
    out
}

pub fn c12(c: &Case, cov: &mut Cov, variants: usize) -> Result<(), String> {
    let mut base = c.clone();
    base.order = Order::ColumnMajor;
    base.alt = 0;
    base.cfg.defaults = false;
    let r0 = exec(&base, cov)?;
    let mut rng = Rng::new(c.alt ^ 0x12);
    for k in 0..variants {
        let mut v = base.clone();
        v.order = match k % 6 { 0 => Order::ColumnMajorReverse, 1 => Order::RowChildFirst, 2 => Order::Random(rng.u64()), 3 => Order::RowParentFirst, 4 => Order::ColumnMajor, _ => Order::Random(rng.u64()) };
        v.alt = if k == 4 { u64::MAX } else { rng.u64() };
        v.cfg.defaults = k % 2 == 0;
        let rebatched = k % 3 == 2 || k == 4;
        if rebatched { v.batches = rebatch(&base, &r0, &mut rng); }
        if v.n_ops() > 300_000 && matches!(v.order, Order::RowChildFirst | Order::RowParentFirst) { continue; }
        let r = run(&v).map_err(|e| format!("order {:?}, batches {:?}: {}", v.order, v.batches, e))?;
        if r.bytes != r0.bytes { return Err(format!("same rows, but different bytes ({}) with order {:?}, alt {:#x}, batches {:?} instead of {:?}", first_diff(&r0.bytes, &r.bytes), v.order, v.alt, v.batches, base.batches)); }
        cov.add("variants compared", 1);
        cov.add(match v.order { Order::ColumnMajor => "variants column by column", Order::ColumnMajorReverse => "variants children first", Order::Random(_) => "variants randomly interleaved", _ => "variants row by row" }, 1);
        if rebatched { cov.add("variants with other batches", 1); if v.batches.len() > base.batches.len() { cov.add("variants with more batches", 1); } if v.batches.contains(&0) { cov.add("variants with empty batches", 1); } }
    }
    Ok(())
}

/// C21: the destination after every call.
pub fn c21(c: &Case, cov: &mut Cov) -> Result<(), String> {
    let mut snaps: Vec<(char, usize, usize, u64)> = vec![];
    let mut prev: Vec<u8> = vec![];
    let mut changed: Option<String> = None;
    let bytes = catch_io(|| drive(c, Vec::<u8>::new(), |e, w: &Writer<Vec<u8>>| {
        let b = w.inner();
        if !b.starts_with(&prev) && changed.is_none() { changed = Some(format!("bytes already emitted changed ({})", first_diff(&prev, b))); }
        if b.len() > prev.len() { prev = b.clone(); }
        let (k, i) = match e { Ev::New => ('n', 0), Ev::Fed(i) => ('f', i), Ev::Batch(i) => ('b', i) };
        snaps.push((k, i, b.len(), 0));
    })).map_err(|e| format!("the writer did not produce the file: {}", e))?;
    if let Some(m) = changed { return Err(m); }
    if !bytes.starts_with(&prev) { return Err(format!("finish changed bytes already emitted ({})", first_diff(&prev, &bytes))); }
    let t = parse_tail(File { bytes: &bytes, base: 0 })?;
    let mut ends = vec![3u64];
    for s in &t.footer.stripes { ends.push(s.offset.saturating_add(s.index).saturating_add(s.data).saturating_add(s.footer)); }
    let bounds = c.row_bounds();
    let mut last = 3;
    for (k, i, n, _) in &snaps {
        match k {
            'n' => if *n != 3 || &bytes[..3] != b"ORC" { return Err(format!("after creation the destination holds {} bytes", n)); },
            'f' => if *n != last { return Err(format!("the destination grew from {} to {} bytes outside write_batch (before batch {})", last, n, i)); },
            _ => {
                let j = ends.iter().position(|e| *e == *n as u64).ok_or_else(|| format!("after batch {} the destination holds {} bytes, which is not the end of a stripe ({:?})", i, n, &ends[..ends.len().min(20)]))?;
                // the complete stripes hold exactly the rows of batches handed over so far, or fewer
                let rows: u64 = t.footer.stripes[..j].iter().map(|s| s.rows).sum();
                if rows > bounds[*i + 1] as u64 { return Err(format!("after batch {} the emitted stripes hold {} rows, only {} were written", i, rows, bounds[*i + 1])); }
                if *n > last { cov.add("stripe emissions observed", 1); if rows != bounds[*i + 1] as u64 { return Err(format!("batch {} emitted stripes with {} rows in all, {} were written", i, rows, bounds[*i + 1])); } }
                cov.add("batch ends observed", 1);
            }
        }
        last = *n;
    }
    let h = hash_bytes(&bytes);
    if c.rows > 0 { cov.sigs.insert(h); }
    cov.add("executions", 1);
    cov.add("destination snapshots", snaps.len() as u64);
    // a writer that is dropped adds nothing
    for cut in [0usize, 1, 2, snaps.len() / 2, snaps.len() - 1] {
        let mut sink: Vec<u8> = vec![];
        let r = catch(|| {
            let mut st = Stepper::new(c, &mut sink)?;
            for _ in 0..cut { if !st.batch_step()? { break; } }
            Ok::<usize, io::Error>(st.w.inner().len())
        });
        match r {
            Ok(Ok(n)) => { if sink.len() != n || !bytes.starts_with(&sink) { return Err(format!("a writer dropped after {} steps left {} bytes, {} before the drop", cut, sink.len(), n)); } cov.add("dropped writers observed", 1); }
            Ok(Err(e)) => return Err(format!("error: {}", e)),
            Err(m) => return Err(format!("panic: {}", m)),
        }
    }
    if cov.samples.len() < 2 && c.infos.len() < 8 && c.batches.len() > 2 { cov.samples.push(format!("{}\ndestination lengths: {:?}", c.describe(), snaps.iter().map(|s| (s.0, s.1, s.2)).take(30).collect::<Vec<_>>())); }
    Ok(())
}

/// A writer advanced in small steps, so that several can be interleaved.
pub struct Stepper<'c, W: Write> {
    pub c: &'c Case,
    pub w: Writer<W>,
    cuts: Vec<Vec<Cut>>,
    bounds: Vec<usize>,
    rc: Option<Vec<Vec<Cut>>>,
    rng: Rng,
    batch: usize,
    col: usize,
}
impl<'c, W: Write> Stepper<'c, W> {
    pub fn new(c: &'c Case, sink: W) -> io::Result<Self> {
        let w = Writer::new(sink, &c.ty.schema(), c.cfg.build())?;
        let bounds = c.row_bounds();
        let cuts = c.cuts(&bounds);
        let rc = match c.order { Order::RowParentFirst | Order::RowChildFirst => Some(c.cuts(&(0..=c.rows).collect::<Vec<_>>())), _ => None };
        Ok(Stepper { c, w, cuts, bounds, rc, rng: Rng::new(match c.order { Order::Random(s) => s, _ => 0 }), batch: 0, col: 0 })
    }
    /// One column of a batch (column-major orders), a whole batch's values, or the batch end. False when done.
    pub fn step(&mut self) -> io::Result<bool> {
        let c = self.c;
        if self.batch >= c.batches.len() { return Ok(false); }
        let nc = c.infos.len();
        let b = self.batch;
        if self.col < nc {
            if c.order == Order::ColumnMajor {
                let id = self.col;
                let (x, y) = (self.cuts[id][b], self.cuts[id][b + 1]);
                if y.0 > x.0 { let d = nav(self.w.data(), &c.ty, &c.infos[id].path, c.alt ^ id as u64); write_ops(d, &c.cols[id], x, y.0 - x.0, c.alt); }
                self.col += 1;
            } else {
                let from: Vec<Cut> = self.cuts.iter().map(|x| x[b]).collect();
                let to: Vec<Cut> = self.cuts.iter().map(|x| x[b + 1]).collect();
                feed(c, self.w.data(), &from, &to, self.rc.as_deref(), (self.bounds[b], self.bounds[b + 1]), &mut self.rng);
                self.col = nc;
            }
        } else {
            self.w.write_batch(c.batches[b] as u64)?;
            self.batch += 1;
            self.col = 0;
        }
        Ok(true)
    }
    pub fn batch_step(&mut self) -> io::Result<bool> { self.step() }
    pub fn finish(self) -> io::Result<W> { self.w.finish() }
}

fn solo(c: &Case) -> Result<Vec<u8>, String> { run(c).map(|r| r.bytes).map_err(|e| format!("the writer did not produce the file: {}", e)) }

struct Failing(usize);
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if self.0 == 0 { return Err(io::Error::new(io::ErrorKind::Other, "sink failure")); } let n = b.len().min(self.0); self.0 -= n; Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// C17 on a group of cases.
pub fn c17(cs: &[Case], mode: usize, seed: u64, cov: &mut Cov) -> Result<(), String> {
    let mut want = vec![];
    for c in cs { let b = solo(c)?; if c.rows > 0 { cov.sigs.insert(hash_bytes(&b)); } want.push(b); }
    let mut r = Rng::new(seed);
    let cmp = |i: usize, b: &[u8], how: &str| -> Result<(), String> { if b != want[i] { Err(format!("case {} ({}): different bytes {} ({})\n{}", i, cs[i].name, how, first_diff(&want[i], b), cs[i].describe())) } else { Ok(()) } };
    cov.add("executions", cs.len() as u64);
    match mode % 5 {
        0 => {
            // interleaved on one thread, with writers of the same case alive twice
            let mut live: Vec<(usize, Stepper<Vec<u8>>)> = vec![];
            for k in 0..2 { for (i, c) in cs.iter().enumerate() { if k == 0 || r.bool() { live.push((i, Stepper::new(c, vec![]).map_err(|e| e.to_string())?)); } } }
            cov.max("writers alive on one thread", live.len() as u64);
            let mut switches = 0u64;
            let mut prev = usize::MAX;
            while !live.is_empty() {
                let k = r.us(live.len());
                if live[k].0 != prev { switches += 1; prev = live[k].0; }
                let more = catch_io(|| live[k].1.step()).map_err(|e| format!("interleaved writer: {}", e))?;
                if !more { let (i, s) = live.swap_remove(k); let b = catch_io(|| s.finish()).map_err(|e| format!("interleaved writer: {}", e))?; cmp(i, &b, "when interleaved with other writers")?; cov.add("interleaved writers compared", 1); }
            }
            cov.add("switches between writers", switches);
        }
        1 => {
            // after writers that were dropped, refused or failed
            for (i, c) in cs.iter().enumerate() {
                for k in 0..4usize {
                    match k {
                        0 => { let n = r.us(20); let _ = catch(|| { let mut s = Stepper::new(c, Vec::<u8>::new()).unwrap(); for _ in 0..n { if !s.step().unwrap() { break; } } }); cov.add("writers dropped unfinished", 1); }
                        1 => { let n = r.us(20); let e = catch(|| { let mut s = Stepper::new(c, Vec::<u8>::new()).unwrap(); for _ in 0..n { s.step().unwrap(); } s.w.write_batch(1 << 40).is_err() }); if e.is_err() { cov.add("writers refused by a panic", 1); } }
                        2 => { let n = r.us(want[i].len().max(1)); let e = catch(|| drive(c, Failing(n), |_, _| {}).is_err()); if let Ok(true) = e { cov.add("writers failed by their sink", 1); } }
                        _ => { let _ = catch(|| { let x = Stepper::new(c, Vec::<u8>::new()).unwrap(); std::mem::drop(x); }); }
                    }
                    cmp(i, &solo(c)?, "after a dropped or failed writer")?;
                    cov.add("repetitions compared", 1);
                }
            }
        }
        2 => {
            for round in 0..2 { for (i, c) in cs.iter().enumerate().rev() { cmp(i, &solo(c)?, "when repeated")?; let _ = round; cov.add("repetitions compared", 1); } }
        }
        3 => {
            // on threads of other names and stacks, and while the thread is unwinding
            for name in [None, Some(""), Some("main"), Some("orc-writer"), Some("a thread with a long name, longer than the system keeps")] {
                let res: Result<u64, String> = std::thread::scope(|s| {
                    let mut b = std::thread::Builder::new().stack_size(if r.bool() { 64 << 20 } else { 200 << 20 });
                    if let Some(n) = name { b = b.name(n.into()); }
                    let cmp = &cmp;
                    b.spawn_scoped(s, move || { for i in 0..cs.len() { let b = match catch(|| solo(&cs[i])) { Ok(b) => b?, Err(m) => return Err(m) }; cmp(i, &b, &format!("on a thread named {:?}", name))?; } Ok(cs.len() as u64) }).unwrap().join().unwrap_or_else(|_| Err("thread panicked".into()))
                });
                cov.add("writers on other threads compared", res?);
            }
            struct Unwinding<'a>(&'a [Case], &'a std::cell::RefCell<Vec<Result<Vec<u8>, String>>>);
            impl<'a> Drop for Unwinding<'a> { fn drop(&mut self) { for c in self.0 { let x = solo(c); self.1.borrow_mut().push(x); } } }
            let got = std::cell::RefCell::new(vec![]);
            let _ = catch(|| { let _u = Unwinding(cs, &got); panic!("unwind"); });
            for (i, b) in got.into_inner().into_iter().enumerate() { cmp(i, &b?, "while the thread was unwinding")?; cov.add("writers in unwinding threads compared", 1); }
        }
        _ => {
            // concurrently, each thread in its own order
            let nt = 3 + r.us(6);
            let bar = std::sync::Barrier::new(nt);
            let seeds: Vec<u64> = (0..nt).map(|_| r.u64()).collect();
            let res: Vec<Result<u64, String>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..nt).map(|t| { let (bar, sd, cmp) = (&bar, seeds[t], &cmp); std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                    let mut r = Rng::new(sd);
                    bar.wait();
                    let mut n = 0;
                    for _ in 0..cs.len() * 2 { let i = r.us(cs.len()); let b = match catch(|| solo(&cs[i])) { Ok(b) => b?, Err(m) => return Err(m) }; cmp(i, &b, "when written concurrently")?; n += 1; if r.chance(1, 3) { std::thread::yield_now(); } }
                    Ok(n)
                }).unwrap() }).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
            });
            for x in res { cov.add("concurrent writers compared", x?); }
            cov.max("threads writing at once", nt as u64);
        }
    }
    Ok(())
}

/// The cases whose files are compared between processes.
fn process_cases(seed: u64) -> Vec<Case> {
    use crate::gen::*;
    let mut v = crate::directed::cases(false);
    v.retain(|c| c.n_ops() < 3000);
    let v: Vec<Case> = v.into_iter().step_by(7).collect();
    v.into_iter().chain((0..150).map(|i| gen_case(crate::rng::mix(seed ^ i << 20), &Profile { multi_batch: true, multi_stripe: i % 2 == 0, max_rows: 300, budget: 3000, ..Profile::default() }))).collect()
}
/// The child: one hash per case, in the given order.
pub fn child(args: &[String]) -> i32 {
    let seed: u64 = args[0].parse().unwrap();
    let mut cs: Vec<(usize, Case)> = process_cases(seed).into_iter().enumerate().collect();
    if args[1] == "reverse" { cs.reverse(); }
    for (i, c) in &cs { match solo(c) { Ok(b) => println!("{} {} {}", i, b.len(), hash_bytes(&b)), Err(e) => println!("{} {}", i, e.replace('\n', " ")) } }
    0
}
/// The same writers in other processes: other environment, directory, thread, order, address space, file descriptors.
pub fn processes(seed: u64, cov: &mut Cov) -> Result<(), String> {
    use std::process::{Command, Stdio};
    let cs = process_cases(seed);
    let mut want = vec![];
    for (i, c) in cs.iter().enumerate() { let b = solo(c)?; cov.sigs.insert(hash_bytes(&b)); want.push(format!("{} {} {}", i, b.len(), hash_bytes(&b))); }
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    for k in 0..6 {
        let mut c = if k == 4 { let mut c = Command::new("setarch"); c.arg("-R").arg(&exe); c } else { Command::new(&exe) };
        c.arg("process-child").arg(seed.to_string()).arg(if k % 2 == 1 { "reverse" } else { "forward" }).stdin(Stdio::null()).stderr(Stdio::null());
        match k {
            1 => { c.env_clear(); }
            2 => { c.env("TZ", "America/Los_Angeles").env("LANG", "tr_TR.UTF-8").env("LC_ALL", "de_DE.UTF-8").env("RUST_BACKTRACE", "1").current_dir("/"); }
            3 => { c.env("TZ", "Asia/Kathmandu").env("HOME", "/nonexistent").env("USER", "nobody").env("HOSTNAME", "elsewhere").env("TMPDIR", "/nonexistent").env("MALLOC_PERTURB_", "165").env("MALLOC_ARENA_MAX", "1"); }
            5 => { c.env("MALLOC_PERTURB_", "90").env("TZ", "UTC+14").env("SOURCE_DATE_EPOCH", "0").env("RAYON_NUM_THREADS", "1").stdin(Stdio::piped()); }
            _ => {}
        }
        let o = match c.output() { Ok(o) => o, Err(_) if k == 4 => continue, Err(e) => return Err(format!("child process: {}", e)) };
        let t = String::from_utf8_lossy(&o.stdout).into_owned();
        if k == 4 && t.is_empty() { continue; }
        let mut got: Vec<&str> = t.lines().collect();
        if k % 2 == 1 { got.reverse(); }
        if got.len() != want.len() { return Err(format!("process variant {} wrote {} of {} files (status {:?})", k, got.len(), want.len(), o.status.code())); }
        for (i, (a, b)) in want.iter().zip(&got).enumerate() { if a != b { return Err(format!("case {}: length and hash {} here, {} in another process (variant {})\n{}", i, a, b, k, cs[i].describe())); } }
        cov.add("files compared between processes", got.len() as u64);
        cov.add("other processes", 1);
    }
    Ok(())
}
