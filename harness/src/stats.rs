//! Expected column statistics of a slice of values, and their comparison with a recorded ColumnStatistics message.
use crate::model::*;
use crate::wire::{Msg, R};

/// Reports whether some contiguous subrange sums outside [lo, hi] (then an absent total is legitimate).
fn sub_overflow(v: impl Iterator<Item = i128>, lo: i128, hi: i128) -> bool {
    let (mut mx, mut mn) = (0i128, 0i128);
    for x in v {
        match (mx.checked_add(x), mn.checked_add(x)) { (Some(a), Some(b)) => { mx = a.max(0); mn = b.min(0); if mx > hi || mn < lo { return true; } } _ => return true }
    }
    false
}
/// Exact total if it fits in i128.
fn total(v: impl Iterator<Item = i128>) -> Option<i128> {
    let (mut h, mut l) = (0i128, 0u128);
    for x in v { h += x >> 64; l += (x as u128) & 0xffff_ffff_ffff_ffff; }
    let h = h + (l >> 64) as i128;
    if h > i64::MAX as i128 || h < i64::MIN as i128 { return None; }
    Some(h << 64 | (l & 0xffff_ffff_ffff_ffff) as i128)
}
pub fn parse_decimal(s: &str, scale: u32) -> R<i128> {
    let (neg, t) = match s.strip_prefix('-') { Some(t) => (true, t), None => (false, s) };
    let (a, b) = match t.find('.') { Some(i) => (&t[..i], &t[i + 1..]), None => (t, "") };
    if a.is_empty() && b.is_empty() || !a.bytes().chain(b.bytes()).all(|c| c.is_ascii_digit()) { return Err(format!("decimal {:?}", s)); }
    let frac = b.trim_end_matches('0');
    if frac.len() > scale as usize { return Err(format!("decimal {:?} has more than {} fractional digits", s, scale)); }
    let digits = format!("{}{}{}", a, frac, "0".repeat(scale as usize - frac.len()));
    let mut v = 0i128;
    for c in digits.bytes() {
        let d = (c - b'0') as i128;
        v = v.checked_mul(10).and_then(|x| if neg { x.checked_sub(d) } else { x.checked_add(d) }).ok_or_else(|| format!("decimal {:?} too large", s))?;
    }
    Ok(v)
}

#[derive(Default, Clone)]
pub struct Seen { pub msgs: u64, pub nonempty: u64, pub withnull: u64, pub sum_absent: u64, pub nan: u64 }

/// Compares a ColumnStatistics message with the slots a..b of the column.
pub fn check(ty: &Ty, col: &Col, a: Cut, b: Cut, raw: &[u8], seen: &mut Seen) -> Result<(), String> {
    let m = Msg::new(raw)?;
    m.only(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11])?;
    let n = b.1 - a.1;
    let has_null = n != b.0 - a.0;
    seen.msgs += 1;
    seen.nonempty += (n > 0) as u64;
    seen.withnull += has_null as u64;
    let gn = m.u0(1)?;
    if gn != n as u64 { return Err(format!("numberOfValues {} instead of {}", gn, n)); }
    let gh = match m.u(10)? { None => None, Some(0) => Some(false), Some(1) => Some(true), Some(x) => return Err(format!("hasNull {}", x)) };
    if gh != Some(has_null) && !(gh.is_none() && has_null) { return Err(format!("hasNull {:?} instead of {}", gh, has_null)); }
    let want: u32 = match ty {
        Ty::Boolean => 5, Ty::Short | Ty::Int | Ty::Long => 2, Ty::Date => 7, Ty::Float | Ty::Double => 3, Ty::Timestamp => 9,
        Ty::Decimal(_, _) => 6, Ty::Str | Ty::Char(_) | Ty::VarChar(_) => 4, Ty::Binary => 8, _ => 0,
    };
    for k in 2..=9 { if k != want && m.b(k)?.is_some() { return Err(format!("statistics of kind {} for a {} column", k, short(ty))); } }
    if want == 0 { return Ok(()); }
    let s = match m.m(want)? { Some(s) => s, None => return if n == 0 { Ok(()) } else { Err(format!("no {} statistics (field {})", short(ty), want)) } };
    let (va, vb) = (a.1, b.1);
    macro_rules! eqmm { ($v:expr, $gmin:expr, $gmax:expr) => {{
        let (gmin, gmax) = ($gmin, $gmax);
        let (wmin, wmax) = ($v.iter().min().cloned(), $v.iter().max().cloned());
        if gmin != wmin { return Err(format!("minimum {:?} instead of {:?}", gmin, wmin)); }
        if gmax != wmax { return Err(format!("maximum {:?} instead of {:?}", gmax, wmax)); }
    }}; }
    match &col.vals {
        Vals::Bool(v) => {
            s.only(&[1])?;
            let c = s.repu(1)?;
            let t = v[va..vb].iter().filter(|x| **x).count() as u64;
            if c.is_empty() && n == 0 { return Ok(()); }
            if c.first() != Some(&t) || c.len() > 2 || (c.len() == 2 && c[1] != n as u64 - t) { return Err(format!("bucket counts {:?}, but {} of {} values are true", c, t, n)); }
        }
        Vals::Long(v) => {
            let v = &v[va..vb];
            if let Ty::Date = ty {
                s.only(&[1, 2])?;
                eqmm!(v, s.s(1)?, s.s(2)?);
            } else {
                s.only(&[1, 2, 3])?;
                eqmm!(v, s.s(1)?, s.s(2)?);
                let w = total(v.iter().map(|x| *x as i128)).unwrap();
                let fits = w >= i64::MIN as i128 && w <= i64::MAX as i128;
                match s.s(3)? {
                    Some(g) => if g as i128 != w { return Err(format!("sum {} instead of {}", g, w)); },
                    None => { seen.sum_absent += 1; if n > 0 && fits && !sub_overflow(v.iter().map(|x| *x as i128), i64::MIN as i128, i64::MAX as i128) { return Err(format!("no sum, although the total is {}", w)); } }
                }
            }
        }
        Vals::Dec(v) => {
            let scale = if let Ty::Decimal(_, s) = ty { *s } else { 0 };
            let v = &v[va..vb];
            s.only(&[1, 2, 3])?;
            let get = |k| -> R<Option<i128>> { match s.b(k)? { None => Ok(None), Some(b) => Ok(Some(parse_decimal(std::str::from_utf8(b).map_err(|e| e.to_string())?, scale)?)) } };
            eqmm!(v, get(1)?, get(2)?);
            let w = total(v.iter().cloned());
            match get(3)? {
                Some(g) => if Some(g) != w { return Err(format!("sum {} instead of {:?}", g, w)); },
                None => { seen.sum_absent += 1; if n > 0 && w.is_some() && !sub_overflow(v.iter().cloned(), i128::MIN, i128::MAX) { return Err(format!("no sum, although the total is {:?}", w)); } }
            }
        }
        Vals::Float(_) | Vals::Double(_) => {
            s.only(&[1, 2, 3])?;
            let v: Vec<f64> = match &col.vals { Vals::Float(v) => v[va..vb].iter().map(|x| *x as f64).collect(), Vals::Double(v) => v[va..vb].to_vec(), _ => unreachable!() };
            let (gmin, gmax, gsum) = (s.d(1)?, s.d(2)?, s.d(3)?);
            if n == 0 {
                if gmin.is_some() || gmax.is_some() { return Err("minimum or maximum without values".into()); }
                if let Some(x) = gsum { if x != 0.0 { return Err(format!("sum {} without values", x)); } }
                return Ok(());
            }
            if v.iter().any(|x| x.is_nan()) {
                seen.nan += 1;
                return match gsum { Some(x) if x.is_nan() => Ok(()), g => Err(format!("sum {:?} although a value is NaN", g)) };
            }
            let wmin = v.iter().cloned().fold(f64::INFINITY, f64::min);
            let wmax = v.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            if gmin != Some(wmin) { return Err(format!("minimum {:?} instead of {}", gmin, wmin)); }
            if gmax != Some(wmax) { return Err(format!("maximum {:?} instead of {}", gmax, wmax)); }
            let abs: f64 = v.iter().map(|x| x.abs()).sum();
            match gsum {
                // an overflowing total cannot be told from a large one
                None => { if abs.is_finite() { return Err("no sum".into()); } }
                Some(g) => {
                    if abs.is_finite() {
                        // exact to within the rounding of any order of additions; compensated reference sum
                        let (mut sum, mut c) = (0f64, 0f64);
                        for x in &v { let t = sum + x; c += if sum.abs() >= x.abs() { (sum - t) + x } else { (x - t) + sum }; sum = t; }
                        let w = sum + c;
                        let tol = abs * (n as f64 + 10.0) * 2.3e-16 + 1e-320;
                        if !((g - w).abs() <= tol) { return Err(format!("sum {} instead of {}", g, w)); }
                    } else {
                        let (pi, ni) = (v.contains(&f64::INFINITY), v.contains(&f64::NEG_INFINITY));
                        let ok = if pi && ni { g.is_nan() } else if pi { g == f64::INFINITY || g.is_nan() } else if ni { g == f64::NEG_INFINITY || g.is_nan() } else { true };
                        if !ok { return Err(format!("sum {} with infinite values", g)); }
                    }
                }
            }
        }
        Vals::Ts(v) => {
            s.only(&[1, 2, 3, 4])?;
            let ms: Vec<i64> = v[va..vb].iter().map(|(s, n)| s * 1000 + (*n / 1_000_000) as i64).collect();
            eqmm!(ms, s.s(1)?, s.s(2)?);
            if s.u(3)?.is_some() || s.u(4)?.is_some() { eqmm!(ms, s.s(3)?, s.s(4)?); }
        }
        Vals::Str(v) => {
            s.only(&[1, 2, 3])?;
            let v = &v[va..vb];
            let wmin = v.iter().map(|x| x.as_bytes()).min();
            let wmax = v.iter().map(|x| x.as_bytes()).max();
            let sh = |x: Option<&[u8]>| x.map(|b| { let mut t = String::from_utf8_lossy(b).into_owned(); if t.len() > 60 { t = t.chars().take(60).collect(); } format!("{:?} ({} bytes)", t, b.len()) });
            if s.b(1)? != wmin { return Err(format!("minimum {:?} instead of {:?}", sh(s.b(1)?), sh(wmin))); }
            if s.b(2)? != wmax { return Err(format!("maximum {:?} instead of {:?}", sh(s.b(2)?), sh(wmax))); }
            let w: i64 = v.iter().map(|x| x.len() as i64).sum();
            let g = s.s(3)?;
            if g != Some(w) && !(n == 0 && g.is_none()) { return Err(format!("total length {:?} instead of {}", g, w)); }
        }
        Vals::Bin(v) => {
            s.only(&[1])?;
            let w: i64 = v[va..vb].iter().map(|x| x.len() as i64).sum();
            let g = s.s(1)?;
            if g != Some(w) && !(n == 0 && g.is_none()) { return Err(format!("total length {:?} instead of {}", g, w)); }
        }
        _ => {}
    }
    Ok(())
}
