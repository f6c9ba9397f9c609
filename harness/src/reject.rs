//! C15: histories that do not add up must be refused, consistent ones must not.
use crate::checks::*;
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::{hash_bytes, Rng};
use orc_format::schema::Schema;
use orc_format::writer::data::{Data, GenericData};
use orc_format::writer::{Config, Writer};

macro_rules! each_vec { ($v:expr, $x:ident => $e:expr) => { match $v {
    Vals::Bool($x) => { $e; } Vals::Long($x) => { $e; } Vals::Float($x) => { $e; } Vals::Double($x) => { $e; } Vals::Ts($x) => { $e; } Vals::Dec($x) => { $e; }
    Vals::Str($x) => { $e; } Vals::Bin($x) => { $e; } Vals::Len($x) => { $e; } Vals::Tag($x) => { $e; } Vals::Unit(_) => {}
} } }
fn piece(col: &Col, a: Cut, b: Cut) -> Col {
    let vals = match &col.vals {
        Vals::Bool(v) => Vals::Bool(v[a.1..b.1].to_vec()), Vals::Long(v) => Vals::Long(v[a.1..b.1].to_vec()), Vals::Float(v) => Vals::Float(v[a.1..b.1].to_vec()),
        Vals::Double(v) => Vals::Double(v[a.1..b.1].to_vec()), Vals::Ts(v) => Vals::Ts(v[a.1..b.1].to_vec()), Vals::Dec(v) => Vals::Dec(v[a.1..b.1].to_vec()),
        Vals::Str(v) => Vals::Str(v[a.1..b.1].to_vec()), Vals::Bin(v) => Vals::Bin(v[a.1..b.1].to_vec()), Vals::Unit(_) => Vals::Unit(b.1 - a.1),
        Vals::Len(v) => Vals::Len(v[a.1..b.1].to_vec()), Vals::Tag(v) => Vals::Tag(v[a.1..b.1].to_vec()),
    };
    Col { present: col.present[a.0..b.0].to_vec(), vals }
}
fn rank(c: &Col, i: usize) -> usize { c.present[..i].iter().filter(|x| **x).count() }
fn remove(c: &mut Col, i: usize) {
    let k = rank(c, i);
    if c.present.remove(i) { if let Vals::Unit(n) = &mut c.vals { *n -= 1; } each_vec!(&mut c.vals, v => v.remove(k)); }
}
/// Inserts a null, or a fresh value of the type.
fn insert(c: &mut Col, i: usize, ty: &Ty, null: bool, r: &mut Rng) {
    let k = rank(c, i);
    let mut cols = vec![];
    gen_cols_with(r, ty, vec![true], &mut GenCtx { budget: 10, block: 0, byte_budget: 100 }, &mut cols);
    // a union without variants has no values
    let null = null || cols[0].vals.len() == 0;
    c.present.insert(i, !null);
    if null { return; }
    macro_rules! put { ($($p:ident),*) => { match (&mut c.vals, &cols[0].vals) { $((Vals::$p(v), Vals::$p(w)) => v.insert(k, w[0].clone()),)* (Vals::Unit(n), _) => *n += 1, _ => unreachable!() } } }
    put!(Bool, Long, Float, Double, Ts, Dec, Str, Bin, Len, Tag);
}

#[derive(Clone, Debug)]
enum Edit {
    Extra { col: usize, at: usize, null: bool },
    Missing { col: usize, at: usize },
    Len { col: usize, at: usize, add: u64 },
    Tag { col: usize, at: usize },
    /// a null becomes a value or a value with children becomes a null
    Toggle { col: usize, at: usize },
    Declared(u64),
    Pair(Box<Edit>, Box<Edit>),
    /// columns from which nothing is written
    Omit(Vec<usize>),
}

fn apply(e: &Edit, cols: &mut [Col], infos: &[Info], n: &mut u64, r: &mut Rng) {
    match e {
        Edit::Extra { col, at, null } => insert(&mut cols[*col], *at, &infos[*col].ty, *null, r),
        Edit::Missing { col, at } => remove(&mut cols[*col], *at),
        Edit::Len { col, at, add } => if let Vals::Len(v) = &mut cols[*col].vals { v[*at] = v[*at].wrapping_add(*add); },
        Edit::Tag { col, at } => { let m = infos[*col].children.len(); if let Vals::Tag(v) = &mut cols[*col].vals { v[*at] = ((v[*at] as usize + 1 + r.us(m - 1)) % m) as u8; } }
        Edit::Toggle { col, at } => { let p = cols[*col].present[*at]; remove(&mut cols[*col], *at); insert(&mut cols[*col], *at, &infos[*col].ty, p, r); }
        Edit::Declared(k) => *n = *k,
        Edit::Pair(a, b) => { apply(a, cols, infos, n, r); apply(b, cols, infos, n, r); }
        Edit::Omit(v) => for i in v { cols[*i].present.clear(); let c = &mut cols[*i]; if let Vals::Unit(n) = &mut c.vals { *n = 0; } each_vec!(&mut c.vals, v => v.clear()); },
    }
}

/// All edits worth trying on one batch whose original columns are given.
fn edits(c: &Case, cols: &[Col], n: u64, r: &mut Rng, limit: usize) -> Vec<Edit> {
    let mut out = vec![];
    for d in [n + 1, n.wrapping_sub(1), 0, n * 2, n + (1 << 32), n + (1 << 31), n + (1 << 63), n + 256, n + 65536, u64::MAX] { if d != n { out.push(Edit::Declared(d)); } }
    let ids: Vec<usize> = (0..cols.len()).collect();
    for &col in &ids {
        let m = cols[col].present.len();
        for null in [true, false] { out.push(Edit::Extra { col, at: if r.bool() { m } else { r.us(m + 1) }, null }); }
        if m > 0 { out.push(Edit::Missing { col, at: m - 1 }); out.push(Edit::Missing { col, at: r.us(m) }); if r.chance(1, 3) { out.push(Edit::Missing { col, at: 0 }); } }
        match &cols[col].vals {
            Vals::Len(v) if !v.is_empty() => for add in [1u64, u64::MAX, 1 << 32, 1 << 63, 256, 65536, 1 << 16 << 16 << 8] { let at = r.us(v.len()); if add != u64::MAX || v[at] > 0 { out.push(Edit::Len { col, at, add }); } },
            Vals::Tag(v) if !v.is_empty() && c.infos[col].children.len() > 1 => for _ in 0..3 { out.push(Edit::Tag { col, at: r.us(v.len()) }); },
            _ => {}
        }
        if m > 0 && c.infos[col].ty.is_compound() && !c.infos[col].children.is_empty() {
            for _ in 0..4 {
                let at = r.us(m);
                let k = rank(&cols[col], at);
                let ok = match &cols[col].vals { Vals::Unit(_) => true, Vals::Len(v) => cols[col].present[at] && v[k] > 0, Vals::Tag(_) => true, _ => false };
                if ok { out.push(Edit::Toggle { col, at }); }
            }
        }
    }
    // errors that compensate each other
    for _ in 0..8 {
        let (a, b) = (r.us(cols.len()), r.us(cols.len()));
        if a == b || cols[b].present.is_empty() { continue; }
        let m = cols[a].present.len();
        out.push(Edit::Pair(Box::new(Edit::Extra { col: a, at: r.us(m + 1), null: r.bool() }), Box::new(Edit::Missing { col: b, at: r.us(cols[b].present.len()) })));
    }
    let filled: Vec<usize> = ids.iter().cloned().filter(|i| !cols[*i].present.is_empty()).collect();
    if !filled.is_empty() {
        out.push(Edit::Omit(vec![*r.pick(&filled)]));
        out.push(Edit::Omit(filled.clone()));
        // the whole batch written, nothing declared, is Declared(0)
        if filled.len() > 1 { let keep = *r.pick(&filled); out.push(Edit::Omit(filled.iter().cloned().filter(|i| *i != keep).collect())); }
    }
    while out.len() > limit { let i = r.us(out.len()); out.swap_remove(i); }
    out
}

fn kind(e: &Edit) -> &'static str {
    match e { Edit::Extra { null: true, .. } => "surplus nulls", Edit::Extra { .. } => "surplus values", Edit::Missing { .. } => "missing values", Edit::Len { .. } => "wrong lengths", Edit::Tag { .. } => "wrong tags", Edit::Toggle { .. } => "wrong nulls above children", Edit::Declared(_) => "wrong declared row counts", Edit::Pair(..) => "compensating errors", Edit::Omit(_) => "columns left out" }
}

fn write_cols(c: &Case, w: &mut Writer<Vec<u8>>, cols: &[Col], reverse: bool) {
    for k in 0..cols.len() {
        let id = if reverse { cols.len() - 1 - k } else { k };
        if cols[id].present.is_empty() { continue; }
        write_ops(nav(w.data(), &c.ty, &c.infos[id].path, c.alt ^ id as u64), &cols[id], (0, 0), cols[id].present.len(), c.alt);
    }
}

pub fn case(c: &Case, seed: u64, cov: &mut Cov, per_batch: usize) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let want = run(c).map_err(|e| format!("a consistent history was refused: {}", e))?.bytes;
    if c.rows > 0 { cov.sigs.insert(hash_bytes(&want)); }
    cov.add("consistent histories accepted", 1);
    let bounds = c.row_bounds();
    let cuts = c.cuts(&bounds);
    let nb = c.batches.len();
    let batch = |b: usize| -> Vec<Col> { (0..c.infos.len()).map(|i| piece(&c.cols[i], cuts[i][b], cuts[i][b + 1])).collect() };
    let orig: Vec<Vec<Col>> = (0..nb).map(batch).collect();
    let start = |upto: usize, rev: bool| -> Result<Writer<Vec<u8>>, String> {
        catch_io(|| {
            let mut w = Writer::new(vec![], &c.ty.schema(), c.cfg.build())?;
            for b in 0..upto { write_cols(c, &mut w, &orig[b], rev); w.write_batch(c.batches[b] as u64)?; }
            Ok(w)
        }).map_err(|e| format!("a consistent history was refused: {}", e))
    };
    let mut picks: Vec<usize> = (0..nb).collect();
    while picks.len() > 3 { let i = r.us(picks.len()); picks.remove(i); }
    for b in picks {
        let es = edits(c, &orig[b], c.batches[b] as u64, &mut r, per_batch);
        for e in es {
            let rev = r.bool();
            let mut w = start(b, rev)?;
            let mut cols = orig[b].clone();
            let mut n = c.batches[b] as u64;
            apply(&e, &mut cols, &c.infos, &mut n, &mut r);
            // each edit alone changes one column's count against its parent's, or the declared count
            let res = catch_io(|| { write_cols(c, &mut w, &cols, rev); w.write_batch(n) });
            if res.is_ok() { return Err(format!("batch {} of {} with {} was accepted: {:?}", b, nb, kind(&e), e)); }
            cov.add("inconsistent batches refused", 1);
            cov.add(kind(&e), 1);
            if cov.samples.len() < 3 && c.infos.len() < 6 && c.rows > 2 && c.rows < 20 { cov.samples.push(format!("batch {} with {:?} refused ({}): {}", b, e, res.err().unwrap(), c.describe())); }
            let lim = w.inner().len();
            match catch_io(|| w.finish()) {
                Ok(f) => return Err(format!("finish succeeded ({} bytes, {} before) after batch {} was refused ({:?})", f.len(), lim, b, e)),
                Err(_) => cov.add("finish refused after a refused batch", 1),
            }
        }
        // values without a batch
        for mode in 0..5 {
            let mut w = start(b, r.bool())?;
            let mut cols = orig[b].clone();
            let filled: Vec<usize> = (0..cols.len()).filter(|i| !cols[*i].present.is_empty()).collect();
            if filled.is_empty() { break; }
            let omit: Vec<usize> = match mode {
                0 => vec![],
                1 => { let keep = *r.pick(&filled); filled.iter().cloned().filter(|i| *i != keep).collect() }
                2 => { let keep = *filled.last().unwrap(); filled.iter().cloned().filter(|i| *i != keep).collect() }
                3 => filled[1..].to_vec(),
                _ => vec![*r.pick(&filled)],
            };
            if omit.len() == filled.len() { continue; }
            let mut d = 0;
            apply(&Edit::Omit(omit.clone()), &mut cols, &c.infos, &mut d, &mut r);
            // a single value is enough
            if mode == 1 { let k = (0..cols.len()).find(|i| !cols[*i].present.is_empty()).unwrap(); while cols[k].present.len() > 1 { let m = cols[k].present.len(); remove(&mut cols[k], m - 1); } }
            let zero = r.bool();
            let res = catch_io(|| { write_cols(c, &mut w, &cols, false); if zero { w.write_batch(0)?; } w.finish() });
            if res.is_ok() { return Err(format!("finish{} accepted values of columns that no batch committed, after {} batches (columns left out: {:?})", if zero { " after an empty batch" } else { "" }, b, omit)); }
            cov.add("uncommitted values refused", 1);
        }
    }
    Ok(())
}

fn w(ty: &Ty) -> Writer<Vec<u8>> { Writer::new(vec![], &ty.schema(), Config::new()).unwrap() }

/// Refusals that do not depend on a generated history.
pub fn fixed(cov: &mut Cov) -> Result<(), String> {
    // tags
    for n in [0usize, 1, 2, 3, 127, 128, 129, 255, 256] {
        let u = Ty::Union((0..n).map(|i| if i % 2 == 0 { Ty::Long } else { Ty::Str }).collect());
        for wrap in 0..3 {
            let ty = match wrap { 0 => u.clone(), 1 => Ty::Struct(vec![("a".into(), Ty::Long), ("u".into(), u.clone())]), _ => Ty::List(Box::new(u.clone())) };
            for tag in [n, n + 1, n + 255, 256, 257, 256 + n, 256 + n.saturating_sub(1), 511, 512, 65536, 65536 + n / 2, 1 << 32, (1 << 32) + n / 2, usize::MAX, usize::MAX - 255] {
                if tag < n { continue; }
                for late in [false, true] {
                    let res = catch_io(|| {
                        let mut w = w(&ty);
                        let mut rows = 1;
                        let put = |d: &mut Data| {
                            let x = d.unwrap_union();
                            if late && n > 0 { x.write(0); x.child(0).write_null(); }
                            x.write(tag);
                            // whatever variant the tag might have been taken for has a value
                            if n > 0 { x.child(tag % 256 % n).write_null(); }
                        };
                        let per = if late && n > 0 { 2 } else { 1 };
                        match wrap {
                            0 => { put(w.data()); rows = per; }
                            1 => { for _ in 0..per { w.data().unwrap_struct().write(); w.data().unwrap_struct().child(0).write_null(); } put(w.data().unwrap_struct().child(1)); rows = per; }
                            _ => { w.data().unwrap_list().write(per); put(w.data().unwrap_list().child()); }
                        }
                        w.write_batch(rows)?;
                        w.finish()
                    });
                    if res.is_ok() { return Err(format!("tag {} of a union with {} variants was accepted", tag, n)); }
                    cov.add("union tags without a variant refused", 1);
                }
            }
            // the valid ones are not
            for tag in [0, n / 2, n.saturating_sub(1)] {
                if n == 0 { continue; }
                let res = catch_io(|| {
                    let mut w = w(&u);
                    for _ in 0..3 { let x = w.data().unwrap_union(); x.write(tag); x.child(tag).write_null(); }
                    w.write_batch(3)?;
                    w.finish()
                });
                if let Err(e) = res { return Err(format!("tag {} of a union with {} variants was refused: {}", tag, n, e)); }
                cov.add("valid tags accepted", 1);
            }
        }
    }
    // too many variants, at any depth
    for n in [255usize, 256, 257, 258, 300, 511, 512, 513, 1000, 65536 + 1, 65536 + 256] {
        let u = Ty::Union(vec![Ty::Long; n]);
        for k in 0..8 {
            let b = |t: &Ty| Box::new(t.clone());
            let ty = match k {
                0 => u.clone(),
                1 => Ty::Struct(vec![("a".into(), Ty::Long), ("u".into(), u.clone())]),
                2 => Ty::List(b(&u)),
                3 => Ty::Map(b(&u), b(&Ty::Long)),
                4 => Ty::Map(b(&Ty::Long), b(&u)),
                5 => Ty::Union(vec![Ty::Long, u.clone()]),
                6 => Ty::List(b(&Ty::Struct(vec![("a".into(), Ty::Map(b(&Ty::Str), b(&Ty::Union(vec![u.clone()]))))]))),
                _ => { let mut t = u.clone(); for i in 0..20 { t = if i % 2 == 0 { Ty::List(Box::new(t)) } else { Ty::Struct(vec![("x".into(), t)]) }; } t }
            };
            let res = catch_io(|| { let w = Writer::new(Vec::new(), &ty.schema(), Config::new())?; w.finish() });
            match (&res, n <= 256) {
                (Ok(_), false) => return Err(format!("a union of {} variants was accepted (form {})", n, k)),
                (Err(e), true) => return Err(format!("a union of {} variants was refused (form {}): {}", n, k, e)),
                _ => cov.add("union sizes tried", 1),
            }
        }
    }
    // access as the wrong type
    let tys = [Ty::Boolean, Ty::Short, Ty::Int, Ty::Long, Ty::Date, Ty::Float, Ty::Double, Ty::Timestamp, Ty::Decimal(10, 2), Ty::Str, Ty::Char(3), Ty::VarChar(3), Ty::Binary,
        Ty::Struct(vec![]), Ty::Struct(vec![("a".into(), Ty::Long)]), Ty::List(Box::new(Ty::Long)), Ty::Map(Box::new(Ty::Long), Box::new(Ty::Str)), Ty::Union(vec![Ty::Long])];
    type Acc = (&'static str, fn(&mut Data), fn(&Ty) -> bool);
    let acc: [Acc; 12] = [
        ("boolean", |d| { d.unwrap_boolean(); }, |t| *t == Ty::Boolean),
        ("long", |d| { d.unwrap_long(); }, |t| matches!(t, Ty::Short | Ty::Int | Ty::Long | Ty::Date)),
        ("float", |d| { d.unwrap_float(); }, |t| *t == Ty::Float),
        ("double", |d| { d.unwrap_double(); }, |t| *t == Ty::Double),
        ("timestamp", |d| { d.unwrap_timestamp(); }, |t| *t == Ty::Timestamp),
        ("decimal", |d| { d.unwrap_decimal(); }, |t| matches!(t, Ty::Decimal(..))),
        ("string", |d| { d.unwrap_string(); }, |t| matches!(t, Ty::Str | Ty::Char(_) | Ty::VarChar(_))),
        ("binary", |d| { d.unwrap_binary(); }, |t| *t == Ty::Binary),
        ("struct", |d| { d.unwrap_struct(); }, |t| matches!(t, Ty::Struct(_))),
        ("list", |d| { d.unwrap_list(); }, |t| matches!(t, Ty::List(_))),
        ("map", |d| { d.unwrap_map(); }, |t| matches!(t, Ty::Map(..))),
        ("union", |d| { d.unwrap_union(); }, |t| matches!(t, Ty::Union(_))),
    ];
    for t in &tys {
        for (name, f, right) in &acc {
            for deep in [false, true] {
                let ty = if deep { Ty::Struct(vec![("x".into(), Ty::Long), ("y".into(), t.clone())]) } else { t.clone() };
                let mut w = w(&ty);
                let r = catch(|| f(if deep { w.data().unwrap_struct().child(1) } else { w.data() }));
                if r.is_ok() != right(t) { return Err(format!("access to a {} column as {} was {}", short(t), name, if r.is_ok() { "accepted" } else { "refused" })); }
                cov.add("typed accesses tried", 1);
            }
        }
    }
    // children that a compound does not have
    let mut wr = w(&Ty::Struct(vec![("a".into(), Ty::Long)]));
    for i in [1usize, 2, 256, usize::MAX] { if catch(|| { wr.data().unwrap_struct().child(i); }).is_ok() { return Err(format!("child {} of a struct with one field", i)); } }
    let mut wr = w(&Ty::Union(vec![Ty::Long]));
    for i in [1usize, 2, 256, usize::MAX] { if catch(|| { wr.data().unwrap_union().child(i); }).is_ok() { return Err(format!("child {} of a union with one variant", i)); } }
    // lengths whose sum leaves 64 bits
    let h = 1u64 << 63;
    for (ls, kids) in [(vec![h, h], 0u64), (vec![u64::MAX, 1], 0), (vec![u64::MAX, 6], 5), (vec![h, h, 3], 3), (vec![2, u64::MAX], 1), (vec![h; 4], 0), (vec![1 << 62; 4], 0), (vec![u64::MAX, u64::MAX, 4], 2), (vec![1 << 32], 0), (vec![(1 << 32) + 2], 2), (vec![1 << 31, 1 << 31], 0), (vec![65536], 0), (vec![256 + 3], 3)] {
        for form in 0..4 {
            let inner = if form % 2 == 0 { Ty::List(Box::new(Ty::Long)) } else { Ty::Map(Box::new(Ty::Long), Box::new(Ty::Long)) };
            let ty = if form < 2 { inner } else { Ty::Struct(vec![("f".into(), inner)]) };
            for split in [false, true] {
                let res = catch_io(|| {
                    let mut w = w(&ty);
                    for (i, l) in ls.iter().enumerate() {
                        let d = if form < 2 { w.data() } else { w.data().unwrap_struct().write(); w.data().unwrap_struct().child(0) };
                        match d { Data::List(x) => x.write(*l), Data::Map(x) => x.write(*l), _ => unreachable!() }
                        if split && i == 0 && ls[0] < 10 { let _ = i; }
                    }
                    let d = if form < 2 { w.data() } else { w.data().unwrap_struct().child(0) };
                    for i in 0..kids { match d { Data::List(x) => x.child().unwrap_long().write(i as i64), Data::Map(x) => { x.keys().unwrap_long().write(i as i64); x.values().unwrap_long().write(1); } _ => unreachable!() } }
                    w.write_batch(ls.len() as u64)?;
                    w.finish()
                });
                if res.is_ok() { return Err(format!("lengths {:?} with {} children were accepted", ls, kids)); }
                cov.add("overflowing lengths refused", 1);
            }
        }
    }
    // declared counts whose sum leaves 64 bits
    for k in 1..4u64 {
        let res = catch_io(|| {
            let mut w = w(&Ty::Long);
            for i in 0..k { w.data().unwrap_long().write(i as i64); }
            w.write_batch(k)?;
            for i in 1..k { w.data().unwrap_long().write(i as i64); }
            w.write_batch(u64::MAX)?;
            w.finish()
        });
        if res.is_ok() { return Err(format!("a batch of {} rows was accepted", u64::MAX)); }
        cov.add("overflowing row counts refused", 1);
    }
    let _ = Schema::Long;
    Ok(())
}
