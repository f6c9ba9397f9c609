//! C13, C14: adversarial destinations.
use crate::checks::*;
use crate::driver::*;
use crate::model::*;
use crate::rng::{hash_bytes, Rng};
use orc_format::writer::Writer;
use std::io::{self, ErrorKind, Write};

#[derive(Clone, Debug, PartialEq)]
pub enum Op { Write(usize, usize), Interrupted, Failed, Flush, FlushFailed }

#[derive(Clone, Debug)]
pub enum Plan {
    Plain,
    /// accept at most n bytes per call
    Max(usize),
    /// random acceptance and interruptions
    Random(u64),
    /// the k-th call is interrupted this many times first
    Interrupt(usize, usize),
    /// the k-th call accepts a single byte
    Short(usize),
    /// every call is interrupted once, and accepts one byte less than asked
    Every,
    /// every call is interrupted this many times
    Storm(usize),
    /// after k bytes: fail (kind index; 7 = accept nothing), once or for good
    FailAt { byte: usize, how: usize, once: bool },
    FailCall { call: usize, how: usize, once: bool },
    FailFlush { how: usize, once: bool },
}
pub const KINDS: [ErrorKind; 7] = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::StorageFull, ErrorKind::UnexpectedEof, ErrorKind::TimedOut, ErrorKind::WriteZero];

pub struct Sink {
    pub got: Vec<u8>,
    pub log: Vec<Op>,
    plan: Plan,
    calls: usize,
    pending: usize,
    rng: Rng,
    pub failed: usize,
    tag: u64,
}
impl Sink {
    pub fn new(plan: Plan) -> Sink {
        let seed = if let Plan::Random(s) = plan { s } else { 0 };
        Sink { got: vec![], log: vec![], plan, calls: 0, pending: usize::MAX, rng: Rng::new(seed), failed: 0, tag: 0x5157 }
    }
    fn fail(&mut self, how: usize) -> io::Result<usize> {
        self.failed += 1;
        self.log.push(Op::Failed);
        if how == 7 { return Ok(0); }
        Err(io::Error::new(KINDS[how % 7], "injected"))
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let k = self.calls;
        let mut n = b.len();
        match self.plan.clone() {
            Plan::Plain | Plan::FailFlush { .. } => {}
            Plan::Max(m) => n = n.min(m),
            Plan::Random(_) => {
                if self.rng.chance(1, 3) { self.log.push(Op::Interrupted); return Err(io::Error::from(ErrorKind::Interrupted)); }
                if self.rng.chance(2, 3) { n = 1 + self.rng.us(n); }
                if self.rng.chance(1, 4) { n = 1; }
            }
            Plan::Interrupt(c, t) => {
                if k == c { if self.pending == usize::MAX { self.pending = t; } if self.pending > 0 { self.pending -= 1; self.log.push(Op::Interrupted); return Err(io::Error::from(ErrorKind::Interrupted)); } }
            }
            Plan::Storm(t) => {
                if self.pending == usize::MAX { self.pending = t; }
                if self.pending > 0 { self.pending -= 1; self.log.push(Op::Interrupted); return Err(io::Error::from(ErrorKind::Interrupted)); }
                self.pending = usize::MAX;
            }
            Plan::Short(c) => if k == c { n = 1; },
            Plan::Every => {
                if self.pending == usize::MAX { self.pending = 0; self.log.push(Op::Interrupted); return Err(io::Error::from(ErrorKind::Interrupted)); }
                self.pending = usize::MAX;
                n = (n - 1).max(1);
            }
            Plan::FailAt { byte, how, once } => {
                if self.got.len() >= byte && (!once || self.failed == 0) { self.calls += 1; return self.fail(how); }
                if self.failed == 0 { n = n.min(byte - self.got.len()); }
            }
            Plan::FailCall { call, how, once } => if k >= call && (!once || self.failed == 0) { self.calls += 1; return self.fail(how); },
        }
        self.calls += 1;
        self.got.extend_from_slice(&b[..n]);
        self.log.push(Op::Write(b.len(), n));
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Plan::FailFlush { how, once } = self.plan { if !once || self.failed == 0 { self.failed += 1; self.log.push(Op::FlushFailed); return Err(io::Error::new(KINDS[how % 7], "injected")); } }
        // a destination that has failed for good also fails to flush
        match self.plan { Plan::FailAt { once: false, how, .. } | Plan::FailCall { once: false, how, .. } if self.failed > 0 => { self.log.push(Op::FlushFailed); return Err(io::Error::new(KINDS[how % 7], "injected")); } _ => {} }
        self.log.push(Op::Flush);
        Ok(())
    }
}

fn reference(c: &Case, cov: &mut Cov) -> Result<Sink, String> {
    let s = catch_io(|| drive(c, Sink::new(Plan::Plain), |_, _| {})).map_err(|e| format!("with an accepting destination: {}", e))?;
    if s.tag != 0x5157 { return Err("finish handed back another destination".into()); }
    match s.log.last() { Some(Op::Flush) => {} o => return Err(format!("finish succeeded, but the last call to the destination is {:?}, not a flush", o)) }
    let v = run(c).map_err(|e| e.to_string())?.bytes;
    if v != s.got { return Err("two accepting destinations received different bytes".into()); }
    cov.sigs.insert(hash_bytes(&s.got));
    cov.add("workloads", 1);
    cov.max("destination calls in one workload", s.calls as u64);
    Ok(s)
}

/// C13
pub fn c13(c: &Case, cov: &mut Cov, limit: usize) -> Result<(), String> {
    let r = reference(c, cov)?;
    let mut plans = vec![Plan::Max(1), Plan::Max(2), Plan::Max(3), Plan::Max(7), Plan::Every, Plan::Storm(5), Plan::Storm(70), Plan::Random(1), Plan::Random(c.alt), Plan::Random(c.alt ^ 99)];
    let m = r.calls;
    let step = (m / limit).max(1);
    let mut k = 0;
    while k < m {
        plans.push(Plan::Interrupt(k, [1, 2, 3, 40, 1, 5000][k % 6]));
        if k == 0 || k + 1 == m { plans.push(Plan::Interrupt(k, 100_000)); }
        if let Op::Write(n, _) = r.log.iter().filter(|o| matches!(o, Op::Write(..))).nth(k).unwrap() { if *n > 1 { plans.push(Plan::Short(k)); } }
        k += if k < 6 || k + 8 > m { 1 } else { step };
    }
    if step == 1 { cov.add("workloads with every call position enumerated", 1); }
    for p in plans {
        let s = catch_io(|| drive(c, Sink::new(p.clone()), |_, _| {})).map_err(|e| format!("destination {:?}: {}", p, e))?;
        if s.got != r.got { return Err(format!("destination {:?} received {} bytes, an accepting one {}; they differ from byte {:?} on", p, s.got.len(), r.got.len(), s.got.iter().zip(&r.got).position(|(a, b)| a != b))); }
        if s.log.last() != Some(&Op::Flush) { return Err(format!("destination {:?}: not flushed after the last byte", p)); }
        cov.add("fault patterns", 1);
        cov.add("interruptions delivered", s.log.iter().filter(|o| **o == Op::Interrupted).count() as u64);
        cov.add("short writes delivered", s.log.iter().filter(|o| matches!(o, Op::Write(a, b) if a > b)).count() as u64);
    }
    if cov.samples.len() < 2 { cov.samples.push(format!("{} destination calls; {}", m, c.describe())); }
    Ok(())
}

/// C14: one injected failure.
fn one_fault(c: &Case, good: &[u8], plan: Plan, cov: &mut Cov) -> Result<(), String> {
    let w = |m: String| format!("{:?}: {}", plan, m);
    let bounds = c.row_bounds();
    let want = match plan { Plan::FailAt { how, .. } | Plan::FailCall { how, .. } => if how % 8 == 7 { ErrorKind::WriteZero } else { KINDS[how % 7] }, _ => ErrorKind::Other };
    // what went wrong must be what the caller is told
    let same = |e: &io::Error, call: &str| if e.kind() == want { Ok(()) } else { Err(w(format!("{} reports {:?} ({}) instead of {:?}", call, e.kind(), e, want))) };
    let cuts = c.cuts(&bounds);
    let mut writer = match catch_io(|| Writer::new(Sink::new(plan.clone()), &c.ty.schema(), c.cfg.build())) {
        Ok(x) => x,
        Err(Fail::Io(e)) => { same(&e, "new")?; cov.add("failures reported by new", 1); return Ok(()); }
        Err(Fail::Panic(m)) => return Err(w(format!("new panicked: {}", m))),
    };
    if writer.inner().failed > 0 { return Err(w("new succeeded although the destination failed".into())); }
    let mut failed = false;
    for b in 0..c.batches.len() {
        let from: Vec<Cut> = cuts.iter().map(|x| x[b]).collect();
        let to: Vec<Cut> = cuts.iter().map(|x| x[b + 1]).collect();
        feed(c, writer.data(), &from, &to, None, (bounds[b], bounds[b + 1]), &mut Rng::new(1));
        match catch_io(|| writer.write_batch(c.batches[b] as u64)) {
            Ok(()) => if writer.inner().failed > 0 { return Err(w(format!("write_batch {} succeeded although the destination failed", b))); },
            Err(Fail::Io(e)) => { if writer.inner().failed > 0 { same(&e, "write_batch")?; } failed = true; }
            Err(Fail::Panic(m)) => return Err(w(format!("write_batch {} panicked: {}", b, m))),
        }
        let got = &writer.inner().got;
        if !good.starts_with(got) { return Err(w(format!("after batch {} the destination holds {} bytes that are not a prefix of the file", b, got.len()))); }
        if failed { if writer.inner().failed == 0 { return Err(w(format!("write_batch {} reported an error, but the destination did not fail", b))); } cov.add("failures reported by write_batch", 1); break; }
    }
    if failed {
        // later calls: retry the batch end, or go straight to finish; no success may follow
        let retry = good.len() % 2 == writer.inner().got.len() % 2;
        if retry { let _ = catch_io(|| writer.write_batch(0)); cov.add("retries after a failure", 1); }
        return match catch_io(|| writer.finish()) {
            Ok(s) => Err(w(format!("finish succeeded after a failed write_batch; the destination received {} bytes, the file has {}", s.got.len(), good.len()))),
            Err(_) => { cov.add("later finish refused", 1); Ok(()) }
        };
    }
    match catch_io(|| writer.finish()) {
        Ok(s) => {
            if s.failed > 0 { return Err(w("finish succeeded although the destination failed".into())); }
            if s.got != good { return Err(w("finish succeeded with an incomplete file".into())); }
            if s.log.last() != Some(&Op::Flush) { return Err(w("finish succeeded without flushing after the last byte".into())); }
            cov.add("failures beyond the end of the file", 1);
            Ok(())
        }
        Err(Fail::Io(e)) => { same(&e, "finish")?; cov.add("failures reported by finish", 1); Ok(()) }
        Err(Fail::Panic(m)) => Err(w(format!("finish panicked: {}", m))),
    }
}

pub fn c14(c: &Case, cov: &mut Cov, limit: usize) -> Result<(), String> {
    let mut c = c.clone();
    c.order = Order::ColumnMajor;
    let c = &c;
    let r = reference(c, cov)?;
    let good = r.got.clone();
    let n = good.len();
    let mut at: Vec<usize> = vec![];
    let step = (n / limit).max(1);
    let mut k = 0;
    while k < n { at.push(k); k += if k < 8 || k + 300 > n { 1 } else { step }; }
    if step == 1 { cov.add("workloads with every byte offset enumerated", 1); }
    // every start and end of a destination call
    let mut p = 0;
    for o in &r.log { if let Op::Write(a, _) = o { at.push(p); p += a; } }
    at.sort();
    at.dedup();
    if at.len() > limit * 4 { let s = at.len() / (limit * 3) + 1; at = at.into_iter().enumerate().filter(|(i, x)| i % s == 0 || *x < 8 || *x + 300 > n).map(|x| x.1).collect(); }
    for (i, k) in at.iter().enumerate() {
        let how = (i + *k) % 8;
        one_fault(c, &good, Plan::FailAt { byte: *k, how, once: false }, cov)?;
        one_fault(c, &good, Plan::FailAt { byte: *k, how: (how + 3) % 8, once: true }, cov)?;
        cov.add("failure points", 2);
    }
    let m = r.calls;
    let cstep = (m / limit).max(1);
    let mut k = 0;
    while k < m {
        for once in [false, true] { one_fault(c, &good, Plan::FailCall { call: k, how: (k + once as usize) % 8, once }, cov)?; cov.add("failure points", 1); }
        if k % 3 == 0 { one_fault(c, &good, Plan::FailCall { call: k, how: 7, once: true }, cov)?; cov.add("failure points", 1); }
        k += if k < 6 || k + 12 > m { 1 } else { cstep };
    }
    for how in 0..7 { for once in [false, true] {
        let s = catch_io(|| drive(c, Sink::new(Plan::FailFlush { how, once }), |_, _| {}));
        match s { Ok(s) if once && s.log.last() == Some(&Op::Flush) && s.got == good => cov.add("failed flushes repeated", 1), Ok(_) => return Err(format!("finish succeeded although the flush failed with {:?}", KINDS[how])), Err(Fail::Panic(m)) => return Err(format!("panic on a failed flush: {}", m)), Err(Fail::Io(e)) if e.kind() != KINDS[how] => return Err(format!("a failed flush is reported as {:?} instead of {:?}", e.kind(), KINDS[how])), Err(Fail::Io(_)) => cov.add("flush failures reported", 1) }
    } }
    one_fault(c, &good, Plan::FailAt { byte: n, how: 0, once: true }, cov)?;
    if cov.samples.len() < 2 { cov.samples.push(format!("{} bytes, {} destination calls; {}", n, m, c.describe())); }
    Ok(())
}
