//! Drives the real writer through its public API and records how each call ended.
use crate::model::*;
use crate::rng::Rng;
use orc_format::writer::data::{Data, GenericData};
use orc_format::writer::Writer;
use std::cell::{Cell, RefCell};
use std::io::{self, Write};
use std::panic::{self, AssertUnwindSafe};

pub const ORC_EPOCH: i64 = 1420070400;

thread_local! {
    static QUIET: Cell<bool> = Cell::new(false);
    static LAST: RefCell<String> = RefCell::new(String::new());
}
pub fn install_panic_hook() {
    let old = panic::take_hook();
    panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) {
            let msg = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            // the process ends right after this one
            if msg.contains("unsafe precondition") { eprintln!("{} at {}", msg, loc); }
            LAST.with(|l| *l.borrow_mut() = format!("{} at {}", msg, loc));
        } else { old(i) }
    }));
}
/// Runs code of the repository; a panic becomes Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub fn clear_last() { LAST.with(|l| *l.borrow_mut() = String::new()); }

#[derive(Debug)]
pub enum Fail { Panic(String), Io(io::Error) }
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self { Fail::Panic(m) => write!(f, "panic: {}", m), Fail::Io(e) => write!(f, "error: {}", e) }
    }
}
pub fn catch_io<T>(f: impl FnOnce() -> io::Result<T>) -> Result<T, Fail> {
    match catch(f) { Ok(Ok(x)) => Ok(x), Ok(Err(e)) => Err(Fail::Io(e)), Err(m) => Err(Fail::Panic(m)) }
}

pub fn nav<'a>(root: &'a mut Data, ty: &Ty, path: &[usize], alt: u64) -> &'a mut Data {
    let mut d = root;
    let mut t = ty;
    let mut a = alt;
    for &i in path {
        let bit = a & 1;
        a = (a >> 1) | (a << 63);
        match t {
            Ty::Struct(f) => {
                d = if bit == 0 { d.unwrap_struct().child(i) } else { &mut d.unwrap_struct().children()[i] };
                t = &f[i].1;
            }
            Ty::List(e) => { d = d.unwrap_list().child(); t = e; }
            Ty::Map(k, v) => {
                let m = d.unwrap_map();
                d = match (bit, i) { (0, 0) => m.keys(), (0, _) => m.values(), (_, 0) => m.children().0, _ => m.children().1 };
                t = if i == 0 { k } else { v };
            }
            Ty::Union(v) => {
                d = if bit == 0 { d.unwrap_union().child(i) } else { &mut d.unwrap_union().children()[i] };
                t = &v[i];
            }
            _ => unreachable!(),
        }
    }
    d
}

/// Writes ops [from, from+n) of a column.
pub fn write_ops(d: &mut Data, col: &Col, from: Cut, n: usize, alt: u64) {
    let mut vi = from.1;
    let pres = &col.present[from.0..from.0 + n];
    macro_rules! go { ($x:expr, $v:ident, $e:expr) => {{
        let x = $x;
        for p in pres { if *p { let $v = vi; $e(&mut *x, $v); vi += 1; } else { x.write_null(); } }
    }}; }
    // some callers write nulls through the enum rather than the concrete type
    if alt & 0x100 != 0 && pres.iter().all(|p| !p) { for _ in pres { d.write_null(); } return; }
    match &col.vals {
        Vals::Bool(v) => go!(d.unwrap_boolean(), i, |x: &mut orc_format::writer::data::BooleanData, i: usize| x.write(v[i])),
        Vals::Long(v) => go!(d.unwrap_long(), i, |x: &mut orc_format::writer::data::LongData, i: usize| x.write(v[i])),
        Vals::Float(v) => go!(d.unwrap_float(), i, |x: &mut orc_format::writer::data::FloatData, i: usize| x.write(v[i])),
        Vals::Double(v) => go!(d.unwrap_double(), i, |x: &mut orc_format::writer::data::DoubleData, i: usize| x.write(v[i])),
        Vals::Ts(v) => go!(d.unwrap_timestamp(), i, |x: &mut orc_format::writer::data::TimestampData, i: usize| {
            let (s, n) = v[i];
            if (alt >> 9 ^ (i as u64 & (alt >> 10))) & 1 == 0 { x.write_nanos(s - ORC_EPOCH, n) } else { x.write_nanos_epoch(s, n) }
        }),
        Vals::Dec(v) => go!(d.unwrap_decimal(), i, |x: &mut orc_format::writer::data::DecimalData, i: usize| {
            let z = v[i];
            if (alt >> 11 ^ (i as u64 & (alt >> 12))) & 1 == 0 && z >= i64::MIN as i128 && z <= i64::MAX as i128 { x.write_i64(z as i64) } else { x.write_i128(z) }
        }),
        Vals::Str(v) => go!(d.unwrap_string(), i, |x: &mut orc_format::writer::data::StringData, i: usize| x.write(&v[i])),
        Vals::Bin(v) => go!(d.unwrap_binary(), i, |x: &mut orc_format::writer::data::BinaryData, i: usize| x.write(&v[i])),
        Vals::Unit(_) => go!(d.unwrap_struct(), _i, |x: &mut orc_format::writer::data::StructData, _| x.write()),
        Vals::Len(v) => match d {
            Data::List(x) => go!(x, i, |x: &mut orc_format::writer::data::ListData, i: usize| x.write(v[i])),
            _ => go!(d.unwrap_map(), i, |x: &mut orc_format::writer::data::MapData, i: usize| x.write(v[i])),
        },
        Vals::Tag(v) => go!(d.unwrap_union(), i, |x: &mut orc_format::writer::data::UnionData, i: usize| x.write(v[i] as usize)),
    }
}

/// Feeds the column data of table rows [r0, r1) in the case's call order. `cut_at(rows)` gives cuts at those rows.
pub fn feed(c: &Case, root: &mut Data, from: &[Cut], to: &[Cut], row_cuts: Option<&[Vec<Cut>]>, rows: (usize, usize), rng: &mut Rng) {
    let nc = c.infos.len();
    let all = |root: &mut Data, id: usize, a: Cut, b: Cut| {
        if b.0 > a.0 {
            let d = nav(root, &c.ty, &c.infos[id].path, c.alt ^ id as u64);
            write_ops(d, &c.cols[id], a, b.0 - a.0, c.alt);
        }
    };
    match c.order {
        Order::ColumnMajor => for id in 0..nc { all(root, id, from[id], to[id]); },
        Order::ColumnMajorReverse => for id in (0..nc).rev() { all(root, id, from[id], to[id]); },
        Order::RowParentFirst | Order::RowChildFirst => {
            let rc = row_cuts.unwrap();
            for r in rows.0..rows.1 {
                for k in 0..nc {
                    let id = if c.order == Order::RowParentFirst { k } else { nc - 1 - k };
                    all(root, id, rc[id][r], rc[id][r + 1]);
                }
            }
        }
        Order::Random(_) => {
            let mut cur: Vec<Cut> = from.to_vec();
            let mut open: Vec<usize> = (0..nc).filter(|i| to[*i].0 > cur[*i].0).collect();
            let maxc = 1 + rng.us(40);
            while !open.is_empty() {
                let k = rng.us(open.len());
                let id = open[k];
                let left = to[id].0 - cur[id].0;
                let n = (1 + rng.us(maxc)).max(left / 64).min(left);
                let nv = c.cols[id].present[cur[id].0..cur[id].0 + n].iter().filter(|x| **x).count();
                let nx = (cur[id].0 + n, cur[id].1 + nv);
                all(root, id, cur[id], nx);
                cur[id] = nx;
                if nx.0 == to[id].0 { open.swap_remove(k); }
            }
        }
    }
}

pub enum Ev { New, Fed(usize), Batch(usize) }

/// The whole history: new, (feed, write_batch)*, finish. `on` sees the destination after every call.
pub fn drive<W: Write>(c: &Case, sink: W, mut on: impl FnMut(Ev, &Writer<W>)) -> io::Result<W> {
    let mut w = Writer::new(sink, &c.ty.schema(), c.cfg.build())?;
    on(Ev::New, &w);
    let bounds = c.row_bounds();
    let cuts = c.cuts(&bounds);
    let rc = match c.order { Order::RowParentFirst | Order::RowChildFirst => Some(c.cuts(&(0..=c.rows).collect::<Vec<_>>())), _ => None };
    let mut rng = Rng::new(match c.order { Order::Random(s) => s, _ => 0 });
    for b in 0..c.batches.len() {
        let from: Vec<Cut> = cuts.iter().map(|x| x[b]).collect();
        let to: Vec<Cut> = cuts.iter().map(|x| x[b + 1]).collect();
        feed(c, w.data(), &from, &to, rc.as_deref(), (bounds[b], bounds[b + 1]), &mut rng);
        on(Ev::Fed(b), &w);
        w.write_batch(c.batches[b] as u64)?;
        on(Ev::Batch(b), &w);
    }
    w.finish()
}

pub struct Run {
    pub bytes: Vec<u8>,
    /// bytes in the destination after each write_batch
    pub after: Vec<usize>,
}
pub fn run(c: &Case) -> Result<Run, Fail> {
    let mut after = Vec::with_capacity(c.batches.len());
    let bytes = catch_io(|| drive(c, Vec::new(), |e, w| if let Ev::Batch(_) = e { after.push(w.inner().len()) }))?;
    Ok(Run { bytes, after })
}
