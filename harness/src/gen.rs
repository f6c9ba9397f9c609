//! Workload generator: schema x configuration x column data x batching x call order.
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug)]
pub struct Profile {
    /// allow compound types below the root struct
    pub nested: bool,
    pub flat: bool,
    pub max_rows: usize,
    pub budget: usize,
    /// force at least this many batches for non-tiny inputs
    pub multi_batch: bool,
    pub multi_stripe: bool,
    pub small_strides: bool,
    pub compress: Option<bool>,
}
impl Default for Profile {
    fn default() -> Self {
        Profile { nested: true, flat: true, max_rows: 40000, budget: 60000, multi_batch: false, multi_stripe: false, small_strides: true, compress: None }
    }
}

const LENS: &[usize] = &[1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 9, 15, 16, 17, 64, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 255, 256, 257, 258, 259, 260, 261, 262, 263, 390, 391, 520, 1040];
const DELTAS: &[i64] = &[0, 0, 1, 1, -1, 2, 3, 5, -7, 10, 100, 126, 127, 128, 129, -126, -127, -128, -129, -130, 255, 256, -256, 1000, 1 << 20, 1 << 40];

fn seg_len(r: &mut Rng) -> usize { if r.chance(1, 4) { 1 + r.us(300) } else { *r.pick(LENS) } }

fn edge_int(r: &mut Rng, lo: i64, hi: i64) -> i64 {
    let v: i128 = match r.below(9) {
        0 => lo as i128,
        1 => hi as i128,
        2 => lo as i128 + 1,
        3 => hi as i128 - 1,
        4 => 0,
        5 => -1,
        6 => { let k = 1 + r.below(9) as u32; (1i128 << (7 * k)) + r.below(3) as i128 - 1 }
        7 => { let k = 1 + r.below(9) as u32; -((1i128 << (7 * k)) + r.below(3) as i128 - 1) / 2 }
        _ => { let k = r.below(63) as u32; (1i128 << k) + r.below(3) as i128 - 1 }
    };
    clampw(v, lo, hi)
}
fn clampw(v: i128, lo: i64, hi: i64) -> i64 {
    if v >= lo as i128 && v <= hi as i128 { return v as i64; }
    let span = hi as i128 - lo as i128 + 1;
    ((v - lo as i128).rem_euclid(span) + lo as i128) as i64
}
fn any_int(r: &mut Rng, lo: i64, hi: i64) -> i64 {
    let b = r.bits(64) as i64;
    let v = if r.bool() { b as i128 } else { -(b as i128) };
    clampw(v, lo, hi)
}

pub fn ints(r: &mut Rng, n: usize, lo: i64, hi: i64) -> Vec<i64> {
    let mut out: Vec<i64> = Vec::with_capacity(n);
    // sticky style for some columns
    let style = if r.chance(1, 3) { Some(r.below(9)) } else { None };
    // keep magnitudes small in some columns, so that sums do not overflow
    let tame = r.chance(1, 2);
    let (lo, hi) = if tame { (lo.max(-1_000_000_000_000), hi.min(1_000_000_000_000)) } else { (lo, hi) };
    while out.len() < n {
        let l = seg_len(r).min(n - out.len());
        match style.unwrap_or_else(|| r.below(9)) {
            0 => { let v = any_int(r, lo, hi); for _ in 0..l { out.push(v); } }
            1 => {
                let v = any_int(r, lo, hi);
                let d = *r.pick(DELTAS);
                let mut x = v;
                for _ in 0..l { out.push(x); x = clampw(x as i128 + d as i128, lo, hi); }
            }
            2 => { for _ in 0..l { out.push(any_int(r, lo, hi)); } }
            3 => { let a = any_int(r, lo, hi); let b = any_int(r, lo, hi); for i in 0..l { out.push(if i % 2 == 0 { a } else { b }); } }
            4 => {
                // groups of equal values of length 1..4, the edge of run detection
                let mut k = 0;
                while k < l { let v = any_int(r, lo, hi); let g = 1 + r.us(4); for _ in 0..g { if k < l { out.push(v); k += 1; } } }
            }
            5 => { for _ in 0..l { out.push(edge_int(r, lo, hi)); } }
            6 => {
                // consecutive short progressions sharing end points
                let mut x = any_int(r, lo, hi);
                let mut k = 0;
                while k < l { let d = *r.pick(DELTAS); let g = 1 + r.us(5); for _ in 0..g { if k < l { out.push(x); k += 1; x = clampw(x as i128 + d as i128, lo, hi); } } }
            }
            7 => { for _ in 0..l { out.push(clampw(r.below(5) as i128 - 2, lo, hi)); } }
            _ => {
                // wrap-around: start close to a limit and step across it
                let d = *r.pick(DELTAS);
                let w = (hi as i128 - lo as i128 + 1).min(20) as u64;
                let mut x = if r.bool() { hi - r.below(w) as i64 } else { lo + r.below(w) as i64 };
                for _ in 0..l { out.push(x); x = if lo == i64::MIN && hi == i64::MAX { x.wrapping_add(d) } else { clampw(x as i128 + d as i128, lo, hi) }; }
            }
        }
    }
    out
}

pub fn bools(r: &mut Rng, n: usize) -> Vec<bool> {
    let mut out = Vec::with_capacity(n);
    let style = if r.chance(1, 3) { Some(r.below(5)) } else { None };
    while out.len() < n {
        let l = match r.below(4) { 0 => seg_len(r) * 8, 1 => seg_len(r) * 8 + r.us(8), 2 => seg_len(r), _ => 1 + r.us(40) }.min(n - out.len());
        match style.unwrap_or_else(|| r.below(5)) {
            0 => { let b = r.bool(); for _ in 0..l { out.push(b); } }
            1 => { for _ in 0..l { out.push(r.bool()); } }
            2 => { let p = r.below(100); for _ in 0..l { out.push(r.below(100) < p); } }
            3 => { let pat = r.u64() as u8; for i in 0..l { out.push(pat >> (i % 8) & 1 == 1); } }
            _ => { for i in 0..l { out.push(i % 2 == 0); } }
        }
    }
    out
}

fn doubles(r: &mut Rng, n: usize) -> Vec<f64> {
    let mut out = Vec::with_capacity(n);
    let wild = r.chance(1, 4);
    let style = if r.chance(1, 3) { Some(r.below(6)) } else { None };
    while out.len() < n {
        let l = seg_len(r).min(n - out.len());
        match style.unwrap_or_else(|| r.below(6)) {
            0 => { let v = r.below(1000) as f64 * 0.25; for _ in 0..l { out.push(v); } }
            1 => { for _ in 0..l { out.push((r.below(2_000_001) as f64 - 1_000_000.0) / 64.0); } }
            2 => { for _ in 0..l { let v = f64::from_bits(r.u64()); out.push(if v.is_finite() || wild { v } else { 1.5 }); } }
            3 => { for _ in 0..l { out.push(*r.pick(&[0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 1e308, -1e308, 0.1])); } }
            4 => { for _ in 0..l { out.push(if wild { *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, 3.5, f64::from_bits(0x7ff0000000000001), f64::from_bits(0xfff8_0000_dead_beef)]) } else { -(r.below(100) as f64) }); } }
            _ => { let mut x = r.below(1000) as f64; for _ in 0..l { out.push(x); x += 0.5; } }
        }
    }
    out
}

fn string(r: &mut Rng, max: usize, block: usize) -> String {
    let n = match r.below(12) {
        0 => 0,
        1..=5 => r.us(8),
        6..=8 => r.us(30),
        9 => r.us(200),
        10 => if block > 0 && block < 5000 { (block + r.us(5)).saturating_sub(2) } else { r.us(300) },
        _ => if block > 0 && block < 5000 { block * (1 + r.us(4)) + r.us(7) } else { r.us(600) },
    }.min(max);
    let mut s = String::new();
    let mode = r.below(5);
    while s.len() < n {
        match mode {
            0 => s.push((b'a' + r.below(26) as u8) as char),
            1 => s.push('x'),
            2 => s.push(*r.pick(&['\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'é', '漢', '😀', 'Z', 'a'])),
            3 => s.push_str(*r.pick(&["hello", " ", "world", "ORC", "0", ""])),
            _ => s.push(char::from_u32(r.below(0xd800) as u32).unwrap()),
        }
        if mode == 3 && r.chance(1, 50) { break; }
    }
    s
}
fn bytes(r: &mut Rng, max: usize, block: usize) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1..=4 => r.us(8),
        5..=6 => r.us(40),
        7 => r.us(300),
        8 => if block > 0 && block < 5000 { (block + r.us(5)).saturating_sub(2) } else { r.us(300) },
        _ => if block > 0 && block < 5000 { block * (1 + r.us(4)) + r.us(7) } else { r.us(900) },
    }.min(max);
    match r.below(3) {
        0 => { let b = r.u64() as u8; vec![b; n] }
        1 => (0..n).map(|_| r.u64() as u8).collect(),
        _ => (0..n).map(|i| (i as u8).wrapping_mul(3)).collect(),
    }
}

pub fn pow10(p: u32) -> i128 { 10i128.pow(p) }
pub fn decimal(r: &mut Rng, p: u32) -> i128 {
    let m = pow10(p.min(38)) - 1;
    let v: i128 = match r.below(10) {
        0 => 0,
        1 => m,
        2 => (r.u128() % (m as u128 + 1)) as i128,
        3 => { let k = r.below(p as u64 + 1) as u32; pow10(k.min(38)) - r.below(2) as i128 }
        4 => { let k = 1 + r.below(18); if k >= 18 { m } else { (1i128 << (7 * k)) - r.below(2) as i128 } }
        5 => { let k = 1 + r.below(18); if k >= 18 { m } else { (1i128 << (7 * k - 1)) - r.below(2) as i128 } }
        6 => { let k = 1 + r.below(126) as u32; ((1u128 << k) - 1 - r.below(2) as u128) as i128 }
        7 => r.bits(64) as i128,
        _ => r.below(1000) as i128,
    };
    let v = if v.unsigned_abs() > m as u128 { v % (m + 1) } else { v };
    if r.bool() { v } else { -v }
}
fn decimals(r: &mut Rng, n: usize, p: u32) -> Vec<i128> {
    let mut out = Vec::with_capacity(n);
    // small in some columns to keep sums finite
    let pp = if r.chance(1, 2) { p.min(30) } else { p };
    while out.len() < n {
        let l = seg_len(r).min(n - out.len());
        match r.below(4) {
            0 => { let v = decimal(r, pp); for _ in 0..l { out.push(v); } }
            1 => { for i in 0..l { let v = (i as i128 - l as i128 / 2) % pow10(pp.min(38)); out.push(v); } }
            _ => { for _ in 0..l { out.push(decimal(r, pp)); } }
        }
    }
    out
}

pub fn nanos(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => 0,
        1 => 999_999_999,
        2 => { let k = r.below(9) as u32; let m = 10u32.pow(k); (1 + r.below((999_999_999 / m) as u64) as u32) * m }
        3 => { let k = r.below(9) as u32; 10u32.pow(k) * (1 + r.below(9) as u32) }
        4 => 536_870_911 + r.below(3) as u32,
        5 => 536_870_912 + r.below(463_129_088) as u32,
        6 => (r.below(1000) as u32) * 1_000_000,
        _ => r.below(1_000_000_000) as u32,
    }
}
fn timestamps(r: &mut Rng, n: usize) -> Vec<(i64, u32)> {
    let mut out = Vec::with_capacity(n);
    let wide = r.chance(1, 4);
    while out.len() < n {
        let l = seg_len(r).min(n - out.len());
        let base: i64 = match r.below(7) {
            0 => 0,
            1 => 1420070400,
            2 => 1_700_000_000,
            3 => -(r.below(4_000_000_000) as i64),
            4 => r.below(8_000_000_000) as i64,
            5 => -1,
            _ => if wide { any_int(r, -9_000_000_000_000_000, 9_000_000_000_000_000) } else { 1_500_000_000 },
        };
        let st = r.below(4);
        for i in 0..l {
            let s = match st { 0 => base, 1 => base + i as i64, 2 => base - 86400 * i as i64, _ => base + r.below(2000) as i64 - 1000 };
            out.push((s.clamp(-9_000_000_000_000_000, 9_000_000_000_000_000), nanos(r)));
        }
    }
    out
}

fn gen_present(r: &mut Rng, n: usize) -> Vec<bool> {
    match r.below(12) {
        0 | 1 | 2 => vec![true; n],
        3 => vec![false; n],
        4 => { let mut v = vec![true; n]; if n > 0 { v[n - 1] = false; } v }
        5 => { let mut v = vec![true; n]; if n > 0 { v[0] = false; } v }
        6 => { let mut v = vec![true; n]; if n > 0 { let i = r.us(n); v[i] = false; } v }
        7 => { let k = r.us(n + 1); (0..n).map(|i| i < k).collect() }
        8 => { let k = r.us(n + 1); (0..n).map(|i| i >= k).collect() }
        9 => { let p = 1 + r.below(99); (0..n).map(|_| r.below(100) < p).collect() }
        _ => bools(r, n),
    }
}

pub struct GenCtx { pub budget: i64, pub block: usize, pub byte_budget: i64 }

/// Generates `n` slots for the column subtree, appending to `cols` in pre-order.
pub fn gen_cols(r: &mut Rng, ty: &Ty, n: usize, cx: &mut GenCtx, cols: &mut Vec<Col>) {
    let present = gen_present(r, n);
    gen_cols_with(r, ty, present, cx, cols)
}
pub fn gen_cols_with(r: &mut Rng, ty: &Ty, present: Vec<bool>, cx: &mut GenCtx, cols: &mut Vec<Col>) {
    let m = present.iter().filter(|x| **x).count();
    cx.budget -= present.len() as i64;
    match ty {
        Ty::Boolean => { let v = bools(r, m); cols.push(Col { present, vals: Vals::Bool(v) }); }
        Ty::Short | Ty::Int | Ty::Long | Ty::Date => { let (lo, hi) = ty.int_range(); let v = ints(r, m, lo, hi); cols.push(Col { present, vals: Vals::Long(v) }); }
        Ty::Float => {
            let v = doubles(r, m).into_iter().map(|x| { let f = x as f32; if f.is_infinite() && x.is_finite() { f32::MAX.copysign(f) } else { f } })
                .map(|f| if r.chance(1, 40) { let g = f32::from_bits(r.u64() as u32); if g.is_finite() { g } else { f } } else { f }).collect();
            cols.push(Col { present, vals: Vals::Float(v) });
        }
        Ty::Double => { let v = doubles(r, m); cols.push(Col { present, vals: Vals::Double(v) }); }
        Ty::Timestamp => { let v = timestamps(r, m); cols.push(Col { present, vals: Vals::Ts(v) }); }
        Ty::Decimal(p, _) => { let v = decimals(r, m, *p); cols.push(Col { present, vals: Vals::Dec(v) }); }
        Ty::Str | Ty::Char(_) | Ty::VarChar(_) => {
            let mut v: Vec<String> = Vec::with_capacity(m);
            let rep = r.chance(1, 4);
            for _ in 0..m {
                let max = if cx.byte_budget > 0 { 1 << 20 } else { 6 };
                let s = if rep && !v.is_empty() && r.chance(3, 4) { let l = v.len() - 1; if max > 6 || v[l].len() <= 6 { v[l].clone() } else { String::new() } } else { string(r, max, cx.block) };
                cx.byte_budget -= s.len() as i64;
                v.push(s);
            }
            cols.push(Col { present, vals: Vals::Str(v) });
        }
        Ty::Binary => {
            let mut v = Vec::with_capacity(m);
            for _ in 0..m {
                let max = if cx.byte_budget > 0 { 1 << 20 } else { 6 };
                let b = bytes(r, max, cx.block);
                cx.byte_budget -= b.len() as i64;
                v.push(b);
            }
            cols.push(Col { present, vals: Vals::Bin(v) });
        }
        Ty::Struct(f) => {
            cols.push(Col { present, vals: Vals::Unit(m) });
            for (_, t) in f { gen_cols(r, t, m, cx, cols); }
        }
        Ty::List(_) | Ty::Map(_, _) => {
            let maxlen = if cx.budget <= 0 || m == 0 { 0 } else { ((cx.budget as usize / 2) / m.max(1)).min(*r.pick(&[1, 3, 3, 8, 8, 200, 1000])) };
            let mut lens: Vec<u64> = ints(r, m, 0, maxlen as i64).into_iter().map(|x| x as u64).collect();
            if maxlen > 3 && r.bool() { for l in lens.iter_mut() { if r.chance(1, 2) { *l = r.below(4) } } }
            let tot: u64 = lens.iter().sum();
            cols.push(Col { present, vals: Vals::Len(lens) });
            for t in ty.children() { gen_cols(r, t, tot as usize, cx, cols); }
        }
        Ty::Union(v) => {
            let k = v.len();
            let (present, m) = if k == 0 { (vec![false; present.len()], 0) } else { (present, m) };
            let tags: Vec<u8> = if k == 0 { vec![] } else { ints(r, m, 0, k as i64 - 1).into_iter().map(|x| x as u8).collect() };
            let mut cnt = vec![0usize; k];
            for t in &tags { cnt[*t as usize] += 1; }
            cols.push(Col { present, vals: Vals::Tag(tags) });
            for (i, t) in v.iter().enumerate() { gen_cols(r, t, cnt[i], cx, cols); }
        }
    }
}

pub fn scalar_ty(r: &mut Rng) -> Ty {
    match r.below(13) {
        0 => Ty::Boolean, 1 => Ty::Short, 2 => Ty::Int, 3 => Ty::Long, 4 => Ty::Date, 5 => Ty::Float, 6 => Ty::Double,
        7 => Ty::Timestamp,
        8 => { let p = 1 + r.below(38) as u32; Ty::Decimal(p, r.below(p as u64 + 1) as u32) }
        9 => Ty::Str, 10 => Ty::Binary, 11 => Ty::Char(1 + r.below(300) as u32), _ => Ty::VarChar(1 + r.bits(31) as u32),
    }
}
pub fn any_ty(r: &mut Rng, depth: usize, p: &Profile) -> Ty {
    if depth == 0 || !p.nested || r.chance(2, 5) { return scalar_ty(r); }
    match r.below(5) {
        0 => Ty::List(Box::new(any_ty(r, depth - 1, p))),
        1 => Ty::Map(Box::new(any_ty(r, (depth - 1).min(1), p)), Box::new(any_ty(r, depth - 1, p))),
        2 => { let k = if r.chance(1, 30) { 100 + r.us(157) } else if r.chance(1, 40) { 0 } else { 1 + r.us(5) };
               if k > 20 { Ty::Union((0..k).map(|_| scalar_ty(r)).collect()) } else { Ty::Union((0..k).map(|_| any_ty(r, depth - 1, p)).collect()) } }
        _ => { let k = if r.chance(1, 20) { 0 } else { 1 + r.us(4) }; Ty::Struct((0..k).map(|i| (field_name(r, i), any_ty(r, depth - 1, p))).collect()) }
    }
}
pub fn field_name(r: &mut Rng, i: usize) -> String {
    match r.below(8) { 0 => String::new(), 1 => "dup".into(), 2 => string(r, 40, 0), _ => format!("f{}", i) }
}

pub fn root_ty(r: &mut Rng, p: &Profile) -> Ty {
    if p.flat && !p.nested {
        return match r.below(6) {
            0 | 1 => scalar_ty(r),
            2 => Ty::Struct(vec![("o".into(), Ty::Struct((0..1 + r.us(3)).map(|i| (field_name(r, i), scalar_ty(r))).collect())), ("t".into(), scalar_ty(r))]),
            _ => { let k = 1 + r.us(6); Ty::Struct((0..k).map(|i| (field_name(r, i), scalar_ty(r))).collect()) }
        };
    }
    match r.below(6) {
        0 if p.flat => scalar_ty(r),
        1 | 2 => any_ty(r, 3, p),
        3 if !p.flat => { let e = any_ty(r, 2, p); match r.below(4) { 0 => Ty::List(Box::new(e)), 1 => Ty::Map(Box::new(Ty::Str), Box::new(e)), 2 => Ty::Union(vec![Ty::Long, e, Ty::Str]), _ => Ty::Struct(vec![("n".into(), Ty::List(Box::new(e)))]) } }
        _ => { let k = 1 + r.us(5); Ty::Struct((0..k).map(|i| (field_name(r, i), any_ty(r, 2, p))).collect()) }
    }
}

pub fn gen_codec(r: &mut Rng, p: &Profile) -> Codec {
    let bs = match r.below(10) {
        0 => 1 + r.us(16),
        1 => *r.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 16]),
        2 | 3 => 17 + r.us(500),
        4 => *r.pick(&[64, 100, 127, 128, 129, 130, 256, 512, 1000, 1024]),
        5 => 1000 + r.us(10000),
        6 => *r.pick(&[4096, 8191, 8192, 8193, 65536, 0x7fffff]),
        _ => DEFAULT_BLOCK,
    };
    match p.compress { Some(false) => return Codec::None, Some(true) => {}, None => if r.chance(2, 5) { return Codec::None } }
    if r.chance(3, 5) { Codec::Snappy(bs) } else {
        let lvl = if r.chance(4, 5) { *r.pick(&[1, 2, 3, 3, 3, 5]) } else { 1 + r.below(if bs > 100000 { 9 } else { 22 }) as i32 };
        // libzstd contexts are costly: avoid very many tiny blocks
        Codec::Zstd(bs, lvl)
    }
}
pub fn gen_stride(r: &mut Rng, p: &Profile) -> u32 {
    if !p.small_strides { return DEFAULT_STRIDE; }
    match r.below(8) {
        0 => 1 + r.below(9) as u32,
        1 => *r.pick(&[1, 2, 3, 7, 8, 9, 64, 100, 127, 128, 129, 130, 131, 132, 256, 1024]),
        2 | 3 => 10 + r.below(150) as u32,
        4 => 100 + r.below(2000) as u32,
        5 => *r.pick(&[1000, 1000, u32::MAX, u32::MAX - 1, 1 << 31]),
        _ => DEFAULT_STRIDE,
    }
}

pub fn split_batches(r: &mut Rng, rows: usize) -> Vec<usize> {
    let mut v = vec![];
    match r.below(6) {
        0 | 1 => v.push(rows),
        2 => { let b = 1 + r.us(rows.max(1)); let mut left = rows; while left > 0 { let k = b.min(left); v.push(k); left -= k; if v.len() > 3000 { v.push(left); break; } } }
        3 => { let mut left = rows; let mut n = 0; while left > 0 && n < 200 { let k = r.us(left.min(1 + rows / 3) + 1); v.push(k); left -= k; n += 1; } v.push(left); }
        4 => { let k = r.us(rows + 1); v = vec![k, rows - k]; }
        _ => { let mut left = rows; while left > 0 { let k = (1 + r.us(20)).min(left); v.push(k); left -= k; if v.len() > 500 { v.push(left); break; } } }
    }
    if r.chance(1, 6) { let i = r.us(v.len() + 1); v.insert(i, 0); }
    v
}

pub fn gen_order(r: &mut Rng) -> Order {
    match r.below(6) { 0 | 1 => Order::ColumnMajor, 2 => Order::ColumnMajorReverse, 3 => Order::RowParentFirst, 4 => Order::RowChildFirst, _ => Order::Random(r.u64()) }
}

pub fn gen_case(seed: u64, p: &Profile) -> Case {
    let mut r = Rng::new(seed);
    let ty = root_ty(&mut r, p);
    let codec = gen_codec(&mut r, p);
    gen_for(seed, &mut r, p, ty, codec)
}
pub fn gen_for(seed: u64, r: &mut Rng, p: &Profile, ty: Ty, codec: Codec) -> Case {
    let inf = infos(&ty);
    let rows = match r.below(60) {
        0 => 0,
        1..=5 => 1 + r.us(5),
        6..=20 => 6 + r.us(60),
        21..=45 => 61 + r.us(400),
        46..=56 => 400 + r.us(3000),
        _ => 3000 + r.us(37000),
    };
    let rows = rows.min(p.max_rows).min(if inf.len() > 0 { (p.budget / inf.len().min(60)).max(50) } else { rows });
    let stride = gen_stride(r, p);
    let block = match codec { Codec::None => 0, Codec::Snappy(b) | Codec::Zstd(b, _) => b };
    // tiny blocks cost time per byte
    let bb = if block > 0 && block < 64 { 40_000 } else { 400_000 };
    let rows = if block > 0 && block < 64 { rows.min(1500) } else { rows };
    let mut cx = GenCtx { budget: p.budget as i64, block, byte_budget: bb };
    let mut cols = vec![];
    gen_cols(r, &ty, rows, &mut cx, &mut cols);
    let stripe_size = if p.multi_stripe { *r.pick(&[0, 1, 50, 200, 1000, 5000]) } else {
        match r.below(8) { 0 => 0, 1 => 1 + r.us(300), 2 => 300 + r.us(5000), 3 => 5000 + r.us(50000), 4 => usize::MAX, _ => DEFAULT_STRIPE }
    };
    let mut batches = split_batches(r, rows);
    if (p.multi_batch || p.multi_stripe) && batches.len() < 3 && rows > 3 {
        let a = r.us(rows); let b = r.us(rows - a + 1);
        batches = vec![a, b, rows - a - b];
    }
    // every 0-row batch with a compressed small-stripe config is fine; cap number of stripes
    if batches.len() > 60 && stripe_size < 2000 && inf.len() > 10 { batches = vec![rows / 2, rows - rows / 2]; }
    Case {
        order: gen_order(r), alt: r.u64(),
        cfg: Cfg { stride, codec, stripe_size, defaults: r.bool() },
        ty, infos: inf, cols, rows, batches,
        name: format!("random:{:#x}", seed),
    }
}

/// Builds a case from explicit parts (used by directed workloads).
pub fn mk(name: &str, ty: Ty, cols: Vec<Col>, rows: usize, batches: Vec<usize>, cfg: Cfg) -> Case {
    let inf = infos(&ty);
    assert_eq!(inf.len(), cols.len(), "{}", name);
    assert_eq!(batches.iter().sum::<usize>(), rows, "{}", name);
    let c = Case { ty, infos: inf, cfg, cols, rows, batches, order: Order::ColumnMajor, alt: 0, name: name.into() };
    // consistency of the shredded form
    let cu = c.cuts(&[0, rows]);
    for (i, col) in c.cols.iter().enumerate() {
        assert_eq!(cu[i][1].0, col.present.len(), "{} col {}", name, i);
        assert_eq!(cu[i][1].1, col.vals.len(), "{} col {}", name, i);
    }
    c
}
