//! Directed workloads: the corners random generation would reach too rarely.
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;

pub fn cfg(stride: u32, codec: Codec, stripe: usize) -> Cfg { Cfg { stride, codec, stripe_size: stripe, defaults: false } }
pub fn dflt() -> Cfg { Cfg { stride: DEFAULT_STRIDE, codec: Codec::None, stripe_size: DEFAULT_STRIPE, defaults: true } }
fn even(rows: usize, k: usize) -> Vec<usize> { let mut v = vec![rows / k; k]; v[k - 1] += rows % k; v }

/// One column written as the only field of a struct.
pub fn one(name: &str, ty: Ty, present: Vec<bool>, vals: Vals, batches: Vec<usize>, c: Cfg) -> Case {
    let rows = present.len();
    mk(name, Ty::Struct(vec![("c".into(), ty)]), vec![Col { present: vec![true; rows], vals: Vals::Unit(rows) }, Col { present, vals }], rows, batches, c)
}
pub fn full_one(name: &str, ty: Ty, vals: Vals, k: usize, c: Cfg) -> Case { let n = vals.len(); one(name, ty, vec![true; n], vals, even(n, k), c) }

/// Random data for a fixed type tree.
pub fn rnd(name: &str, seed: u64, ty: Ty, rows: usize, batches: Vec<usize>, c: Cfg, budget: usize, bytes: i64) -> Case {
    let mut r = Rng::new(seed);
    let mut cols = vec![];
    let mut cx = GenCtx { budget: budget as i64, block: c.block(), byte_budget: bytes };
    let root_present = vec![true; rows];
    gen_cols_with(&mut r, &ty, root_present, &mut cx, &mut cols);
    let mut k = mk(name, ty, cols, rows, batches, c);
    k.order = gen_order(&mut r);
    k.alt = r.u64();
    k
}
pub fn all_scalars() -> Vec<Ty> {
    vec![Ty::Boolean, Ty::Short, Ty::Int, Ty::Long, Ty::Date, Ty::Float, Ty::Double, Ty::Timestamp, Ty::Decimal(38, 0), Ty::Decimal(18, 6), Ty::Decimal(1, 1), Ty::Decimal(38, 38), Ty::Str, Ty::Binary, Ty::Char(10), Ty::VarChar(200)]
}
pub fn st(v: Vec<Ty>) -> Ty { Ty::Struct(v.into_iter().enumerate().map(|(i, t)| (format!("f{}", i), t)).collect()) }
pub fn list(t: Ty) -> Ty { Ty::List(Box::new(t)) }
pub fn map(k: Ty, v: Ty) -> Ty { Ty::Map(Box::new(k), Box::new(v)) }

/// `heavy` adds the large ones.
pub fn cases(heavy: bool) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let codecs = [Codec::None, Codec::Snappy(DEFAULT_BLOCK), Codec::Snappy(13), Codec::Zstd(300, 3)];
    // no rows, no batches, empty batches
    for (i, t) in all_scalars().into_iter().enumerate() {
        let b = [vec![], vec![0], vec![0, 0, 0]][i % 3].clone();
        v.push(rnd("no rows", i as u64, t, 0, b, cfg(10, codecs[i % 4], 0), 10, 10));
    }
    v.push(rnd("empty struct", 1, Ty::Struct(vec![]), 37, vec![10, 0, 27], cfg(10, Codec::None, usize::MAX), 10, 10));
    v.push(rnd("empty struct, no rows", 1, Ty::Struct(vec![]), 0, vec![], dflt(), 10, 10));
    // every scalar type, bare root and nested in structs, around group and stride edges
    for (i, t) in all_scalars().into_iter().enumerate() {
        for (j, n) in [1usize, 2, 3, 8, 9, 127, 128, 129, 130, 131, 133, 260, 1039, 1040, 1041, 1049, 2100].into_iter().enumerate() {
            let s = (i * 100 + j) as u64;
            let mut r = Rng::new(s ^ 0x51);
            let stride = *r.pick(&[1, 2, 7, 8, 64, 127, 128, 130, 1000, 10000, n as u32, n as u32 + 1, n.max(2) as u32 - 1]);
            let stripe = *r.pick(&[0, 100, usize::MAX, usize::MAX]);
            let ty = match j % 3 { 0 => t.clone(), 1 => st(vec![t.clone(), Ty::Boolean]), _ => st(vec![st(vec![t.clone()]), t.clone()]) };
            let bt = if n > 4 { vec![n / 2, 0, n - n / 2] } else { vec![n] };
            let mut cx = GenCtx { budget: 10000, block: codecs[(i + j) % 4].block(), byte_budget: 20000 };
            let mut cols = vec![];
            gen_cols(&mut r, &ty, n, &mut cx, &mut cols);
            let mut c = mk("scalar edges", ty, cols, n, bt, cfg(stride, codecs[(i + j) % 4], stripe));
            c.order = gen_order(&mut r);
            c.alt = r.u64();
            v.push(c);
        }
    }
    // integers: limits, progressions, run boundaries
    let mut lim = vec![i64::MIN, i64::MAX, i64::MIN, i64::MIN, i64::MIN, i64::MAX, i64::MAX, i64::MAX, 0, -1, 1, i64::MAX - 1, i64::MIN + 1];
    for k in 0..64 { lim.push(1i64.wrapping_shl(k)); lim.push(-(1i64.wrapping_shl(k) >> 1)); lim.push(1i64.wrapping_shl(k).wrapping_sub(1)); }
    for (i, s) in [1u32, 5, 100, 10000].into_iter().enumerate() { v.push(full_one("integer limits", Ty::Long, Vals::Long(lim.clone()), 2, cfg(s, codecs[i], usize::MAX))); }
    for d in [-129i64, -128, -127, -1, 0, 1, 127, 128, 129, 1 << 33] {
        for base in [0i64, i64::MAX - 200, i64::MIN + 200] {
            let x: Vec<i64> = (0..700).map(|i| base.wrapping_add(d.wrapping_mul(i))).collect();
            v.push(full_one("progression", Ty::Long, Vals::Long(x), 1, cfg(97, codecs[(d & 1) as usize], usize::MAX)));
        }
    }
    // sums at the edge of overflow
    for (i, x) in [vec![i64::MAX, 1, -1], vec![i64::MIN, -1], vec![i64::MAX, 0, 0], vec![i64::MIN, 0], vec![i64::MAX / 2 + 1, i64::MAX / 2, 0, 1], vec![i64::MIN, i64::MAX, i64::MIN, i64::MAX, 2, 5], vec![-1, i64::MIN, 5], vec![i64::MAX, -5, i64::MAX]].into_iter().enumerate() {
        for stride in [1, 2, 100] { v.push(full_one("sum overflow", Ty::Long, Vals::Long(x.clone()), if i % 2 == 0 { 1 } else { x.len() }, cfg(stride, Codec::None, if i % 3 == 0 { 0 } else { usize::MAX }))); }
    }
    // alternating literal / run patterns, every length around the group limits
    for n in [1usize, 2, 3, 4, 126, 127, 128, 129, 130, 131, 132, 133] {
        let mut x = vec![];
        for k in 0..4 { for i in 0..n { x.push(((i * i * 7919 + k) % 100003) as i64); } for _ in 0..n { x.push(42 + k as i64); } }
        let b: Vec<u8> = x.iter().map(|q| (*q % 3) as u8).collect();
        v.push(full_one("literals and runs", Ty::Long, Vals::Long(x.clone()), 3, cfg(131, Codec::None, usize::MAX)));
        v.push(full_one("literals and runs", Ty::Long, Vals::Long(x), 3, cfg(131, Codec::Snappy(64), usize::MAX)));
        let cnt: Vec<usize> = (0..3).map(|t| b.iter().filter(|q| **q == t).count()).collect();
        let rows = b.len();
        v.push(mk("union tags", Ty::Union(vec![Ty::Boolean, Ty::Long, Ty::Struct(vec![])]), vec![
            Col { present: vec![true; rows], vals: Vals::Tag(b) },
            Col { present: vec![true; cnt[0]], vals: Vals::Bool((0..cnt[0]).map(|i| i % 9 < 4).collect()) },
            Col { present: vec![true; cnt[1]], vals: Vals::Long((0..cnt[1] as i64).collect()) },
            Col { present: vec![true; cnt[2]], vals: Vals::Unit(cnt[2]) }], rows, even(rows, 2), cfg(50, Codec::None, usize::MAX)));
    }
    // timestamps
    let mut ts = vec![];
    for n in [0u32, 1, 9, 10, 99, 100, 101, 1000, 10000, 100_000, 1_000_000, 10_000_000, 100_000_000, 999_999_999, 999_999_900, 536_870_911, 536_870_912, 536_870_913, 987_654_321, 600_000_001, 500_000_000, 123_456_700, 900_000_000, 268_435_456] {
        for s in [0i64, 1, -1, 1_420_070_399, 1_420_070_400, 1_420_070_401, -62_135_596_800, 253_402_300_799, 1_700_000_000, 9_000_000_000_000_000, -9_000_000_000_000_000] { ts.push((s, n)); }
    }
    for (i, s) in [1u32, 10, 1000].into_iter().enumerate() { let mut c = full_one("timestamp limits", Ty::Timestamp, Vals::Ts(ts.clone()), 2, cfg(s, codecs[i], if i == 2 { 0 } else { usize::MAX })); c.alt = 0x200 * i as u64; v.push(c); }
    // decimals: every precision's limits
    for p in 1..=38u32 {
        let m = pow10(p) - 1;
        let x = vec![m, -m, 0, 1, -1, m / 2, -(m / 3), m - 1, 1 - m, 10, -10];
        let x: Vec<i128> = x.into_iter().map(|q| if q.abs() > m { 0 } else { q }).collect();
        for s in [0, p / 2, p] { v.push(full_one("decimal limits", Ty::Decimal(p, s), Vals::Dec(x.clone()), 2, cfg(3 + p % 3, Codec::None, if p % 2 == 0 { 0 } else { usize::MAX }))); }
    }
    let m38 = pow10(38) - 1;
    let h = 85070591730234615865843651857942052864i128;
    for x in [vec![m38, m38, -m38], vec![-h, -h], vec![h - 1, h], vec![h, h], vec![-h, -h, -1], vec![m38, 1, m38, 1], vec![-m38, -m38, m38, m38]] {
        for stride in [1, 2, 100] { v.push(full_one("decimal sum overflow", Ty::Decimal(38, 10), Vals::Dec(x.clone()), 1, cfg(stride, Codec::None, usize::MAX))); }
    }
    // small fractional negative values (sign handling of the text form)
    v.push(full_one("decimal fractions", Ty::Decimal(10, 4), Vals::Dec(vec![-1, -5000, 5000, -9999, 10000, -10000, 3, 100, -100, 120, -12345]), 3, cfg(1, Codec::None, 0)));
    // floats
    let fl = vec![0.0, -0.0, 1.0, f64::INFINITY, -5e-324, f64::MAX, f64::MIN, 1e-300, f64::NEG_INFINITY, 2.5];
    for k in 0..fl.len() { let mut x = fl.clone(); x.rotate_left(k); for s in [1u32, 3, 100] { v.push(full_one("double limits", Ty::Double, Vals::Double(x.clone()), 2, cfg(s, Codec::None, 0))); v.push(full_one("float limits", Ty::Float, Vals::Float(x.iter().map(|q| *q as f32).collect()), 2, cfg(s, Codec::Snappy(9), usize::MAX))); } }
    for k in 0..6 { let mut x = vec![1.0, 2.0, f64::NAN, 4.0, -5.0, 3.0]; x.rotate_left(k); for s in [1u32, 2, 3, 100] { v.push(full_one("NaN", Ty::Double, Vals::Double(x.clone()), 3, cfg(s, Codec::None, if k % 2 == 0 { 0 } else { usize::MAX }))); v.push(full_one("NaN", Ty::Float, Vals::Float(x.iter().map(|q| *q as f32).collect()), 1, cfg(s, Codec::None, usize::MAX))); } }
    // strings: order is by bytes, lengths in bytes
    let ss: Vec<String> = ["", "a", "aa", "b", "B", "é", "z", "ﬀ", "😀", "\u{0}", "\u{7f}", "ab", "\u{ffff}", "~", "Zzz"].iter().map(|x| x.to_string()).collect();
    for k in 0..ss.len() { let mut x = ss.clone(); x.rotate_left(k); v.push(full_one("string order", if k % 2 == 0 { Ty::Str } else { Ty::Char(5) }, Vals::Str(x.clone()), 2, cfg(1 + k as u32 % 5, codecs[k % 4], if k % 2 == 0 { 0 } else { usize::MAX }))); }
    // nulls: first, last, only, all; in one stripe but not the other
    for n in [1usize, 7, 8, 9, 64, 130, 1040, 1041] {
        for pat in 0..6 {
            let pr: Vec<bool> = (0..n).map(|i| match pat { 0 => false, 1 => i != 0, 2 => i != n - 1, 3 => i == 0, 4 => i == n - 1, _ => i < n / 2 }).collect();
            let m = pr.iter().filter(|x| **x).count();
            v.push(one("null pattern", Ty::Long, pr.clone(), Vals::Long((0..m as i64).map(|x| x * x).collect()), even(n, 2), cfg([3, 8, 100][pat % 3], codecs[(n + pat) % 4], if pat % 2 == 0 { 0 } else { usize::MAX })));
            v.push(one("null pattern", Ty::Boolean, pr, Vals::Bool((0..m).map(|x| x % 5 == 0).collect()), even(n, 2), cfg([3, 8, 100][pat % 3], codecs[(n + pat + 1) % 4], if pat % 2 == 1 { 0 } else { usize::MAX })));
        }
    }
    // many columns, many stripes, many row groups
    v.push(rnd("many columns", 5, st((0..300).map(|i| all_scalars()[i % 16].clone()).collect()), 60, vec![20, 40], cfg(7, Codec::None, 0), 60000, 60000));
    v.push(rnd("many columns", 6, st((0..140).map(|i| all_scalars()[i % 16].clone()).collect()), 40, vec![40], cfg(1000, Codec::Snappy(500), usize::MAX), 60000, 60000));
    v.push(rnd("many stripes", 7, st(vec![Ty::Long, Ty::Str, list(Ty::Boolean)]), 1200, vec![3; 400], cfg(2, Codec::None, 0), 5000, 9000));
    v.push(rnd("many stripes", 8, st(vec![Ty::Timestamp, Ty::Decimal(20, 3)]), 600, vec![2; 300], cfg(10000, Codec::Snappy(1000), 0), 5000, 9000));
    v.push(rnd("many row groups", 9, st(vec![Ty::Long, Ty::Boolean, Ty::Str, map(Ty::Short, Ty::Double)]), 3000, vec![1000, 2000], cfg(1, Codec::None, usize::MAX), 9000, 20000));
    v.push(rnd("many row groups", 10, st(vec![Ty::Timestamp, Ty::Decimal(30, 3), Ty::Union(vec![Ty::Float, Ty::Binary])]), 3000, vec![3000], cfg(1, Codec::Snappy(100), usize::MAX), 9000, 20000));
    v.push(rnd("many row groups", 11, st(vec![Ty::Int, Ty::Boolean, Ty::Date]), 4000, vec![1500, 2500], cfg(3, Codec::Zstd(4000, 1), usize::MAX), 9000, 20000));
    // unions with all the variants
    for (k, n) in [1usize, 2, 127, 128, 129, 255, 256].into_iter().enumerate() {
        let rows = n * 3 + 5;
        let tags: Vec<u8> = (0..rows).map(|i| if i < n { i as u8 } else { ((i * 7919) % n) as u8 }).collect();
        let mut cols = vec![Col { present: vec![true; rows], vals: Vals::Tag(tags.clone()) }];
        for t in 0..n { let c = tags.iter().filter(|x| **x as usize == t).count(); cols.push(if t % 2 == 0 { Col { present: vec![true; c], vals: Vals::Long((0..c).map(|i| (i + t * 1000) as i64).collect()) } } else { Col { present: vec![true; c], vals: Vals::Str((0..c).map(|i| format!("{}-{}", t, i)).collect()) } }); }
        v.push(mk("union variants", Ty::Union((0..n).map(|t| if t % 2 == 0 { Ty::Long } else { Ty::Str }).collect()), cols, rows, even(rows, 2), cfg(10, codecs[k % 4], if k % 2 == 0 { 0 } else { usize::MAX })));
    }
    // deep nesting
    for (k, d) in [10usize, 40, 64].into_iter().enumerate() {
        let mut t = Ty::Long;
        for i in 0..d { t = match (i + k) % 4 { 0 => list(t), 1 => st(vec![t]), 2 => map(Ty::Boolean, t), _ => Ty::Union(vec![t, Ty::Short]) }; }
        v.push(rnd("deep nesting", d as u64, t, 120, vec![50, 70], cfg(9, codecs[k], if k == 1 { 0 } else { usize::MAX }), 30000, 1000));
    }
    for (k, d) in [101usize, 129, 200, 257, 300, 129, 180, 260].into_iter().enumerate() {
        let mut t = if k % 2 == 0 { Ty::Long } else { Ty::Str };
        for i in 0..d { t = match if k < 4 { k } else { (i * 7 + k + i / 9) % 4 } { 0 => list(t), 1 => st(vec![t]), 2 => map(Ty::Boolean, t), _ => Ty::Union(vec![t]) }; }
        v.push(rnd("very deep nesting", d as u64, t, 24, vec![14, 10], cfg(if k % 2 == 0 { 5 } else { 1000 }, if k % 3 == 0 { Codec::Snappy(100) } else { Codec::None }, if k == 1 { 0 } else { usize::MAX }), 9000, 1000));
    }
    // each compound over each compound, small strides, several stripes
    let base = || vec![Ty::Long, Ty::Str, Ty::Boolean, Ty::Timestamp, Ty::Decimal(12, 2)];
    let wrap = |k: usize, t: Ty| match k { 0 => st(vec![t, Ty::Boolean]), 1 => list(t), 2 => map(Ty::Str, t), _ => Ty::Union(vec![Ty::Int, t]) };
    for a in 0..4 { for b in 0..4 { for (i, e) in base().into_iter().enumerate() {
        let ty = wrap(a, wrap(b, e));
        let s = (a * 100 + b * 10 + i) as u64;
        let ty = if i % 2 == 0 { st(vec![ty]) } else { ty };
        let stripe = if i % 2 == 1 { 200 } else { usize::MAX };
        let mut r = Rng::new(s);
        let mut cols = vec![];
        let n = 150 + 10 * i;
        gen_cols(&mut r, &ty, n, &mut GenCtx { budget: 6000, block: 0, byte_budget: 6000 }, &mut cols);
        let mut c = mk("compound pairs", ty, cols, n, even(n, 3), cfg([5, 10, 64, 1000, 7][i], codecs[(a + b + i) % 4], stripe));
        c.order = gen_order(&mut r);
        c.alt = r.u64();
        v.push(c);
    } } }
    // long lists and long strings
    {
        let lens = vec![0u64, 70000, 1, 0, 130, 66000];
        let tot: usize = lens.iter().sum::<u64>() as usize;
        v.push(mk("long lists", list(Ty::Short), vec![Col { present: vec![true; 6], vals: Vals::Len(lens) }, Col { present: vec![true; tot], vals: Vals::Long((0..tot as i64).map(|x| (x * x) % 30011).collect()) }], 6, vec![2, 4], dflt()));
        let big: String = (0..70000u64).map(|i| (b'a' + (i * i % 23) as u8) as char).collect();
        let huge: String = (0..1_100_000usize).map(|i| (b'a' + (i.wrapping_mul(2654435761) >> 13) as u8 % 26) as char).collect();
        for (i, c) in [Codec::None, Codec::Snappy(DEFAULT_BLOCK), Codec::Zstd(DEFAULT_BLOCK, 3), Codec::Snappy(1000), Codec::Snappy(65536), Codec::Zstd(4096, 1)].into_iter().enumerate() {
            let x = vec!["".to_string(), big.clone(), "x".into(), huge.clone(), big.clone(), "tail".into()];
            v.push(full_one("long strings", Ty::Str, Vals::Str(x.clone()), 2, cfg(1 + i as u32, c, if i % 2 == 0 { usize::MAX } else { 0 })));
            v.push(full_one("long binaries", Ty::Binary, Vals::Bin(x.into_iter().map(|q| q.into_bytes()).collect()), 1, cfg(2, c, usize::MAX)));
        }
    }
    // block sizes against values and metadata of every relative size
    for b in (1..40).chain([63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 1000, 4095, 4096, 8192]) {
        let ty = st(vec![Ty::Str, Ty::Double, Ty::Long, Ty::Boolean]);
        v.push(rnd("block sizes", b as u64, ty.clone(), 150, vec![70, 80], cfg(20, Codec::Snappy(b), if b % 2 == 0 { 300 } else { usize::MAX }), 10000, 5000));
        { v.push(rnd("block sizes", b as u64 + 500, ty, 150, vec![70, 80], cfg(20, Codec::Zstd(b, 1), usize::MAX), 10000, 5000)); }
        v.push(full_one("value larger than block", Ty::Str, Vals::Str((0..6).map(|i| "q".repeat(b * i + i)).collect()), 2, cfg(2, Codec::Snappy(b), usize::MAX)));
        let mut r = Rng::new(b as u64);
        v.push(full_one("incompressible value larger than block", Ty::Binary, Vals::Bin((0..6).map(|i| (0..b * i + i).map(|_| r.u64() as u8).collect()).collect()), 2, cfg(2, Codec::Snappy(b), usize::MAX)));
    }
    for l in 1..=22 { v.push(rnd("zstd levels", l as u64, st(vec![Ty::Long, Ty::Str]), 300, vec![300], cfg(1000, Codec::Zstd(if l > 12 { 3000 } else { DEFAULT_BLOCK }, l), usize::MAX), 10000, 20000)); }
    v.push(rnd("largest block", 3, st(vec![Ty::Long, Ty::Str]), 500, vec![500], cfg(1000, Codec::Snappy(0x7fffff), usize::MAX), 10000, 20000));
    v.push(rnd("largest block", 4, st(vec![Ty::Long, Ty::Str]), 500, vec![500], cfg(1000, Codec::Zstd(0x7fffff, 1), usize::MAX), 10000, 20000));
    // field names
    v.push(rnd("field names", 3, Ty::Struct(["", "a b", "dup", "dup", "ünïcödé", "😀", "a.b", "\"q\"", "\n", "_col0"].iter().map(|n| (n.to_string(), Ty::Short)).chain([("x".repeat(3000), Ty::Boolean)]).collect()), 20, vec![20], cfg(1000, Codec::Snappy(100), usize::MAX), 1000, 1000));
    // incompressible data exactly filling blocks
    for b in [8usize, 64, 128, 512] { for k in [b / 8 * 8 - 8, b / 8 * 8, b / 8 * 8 + 8, b * 3 / 8 * 8] { let mut r = Rng::new(k as u64); v.push(full_one("exact blocks", Ty::Double, Vals::Double((0..k / 8).map(|_| f64::from_bits(r.u64() >> 2)).collect()), 1, cfg(2, Codec::Snappy(b), usize::MAX))); } }
    if heavy {
        let n = 300_000usize;
        v.push(full_one("many rows", Ty::Long, Vals::Long((0..n as i64).map(|i| if (i / 1000) % 2 == 0 { i } else { i.wrapping_mul(0x9e3779b97f4a7c15u64 as i64) }).collect()), 7, dflt()));
        v.push(full_one("many rows", Ty::Boolean, Vals::Bool((0..n).map(|i| (i / 977) % 3 == 0 || i % 7 == 0).collect()), 3, cfg(10000, Codec::Snappy(DEFAULT_BLOCK), usize::MAX)));
        let mut c = dflt();
        c.stride = u32::MAX;
        v.push(full_one("one huge row group", Ty::Int, Vals::Long((0..n as i64).map(|i| (i * 7919) % 100_003).collect()), 1, c));
        let mut r = Rng::new(77);
        v.push(full_one("several full blocks", Ty::Double, Vals::Double((0..n).map(|_| f64::from_bits(r.u64() >> 2)).collect()), 2, cfg(10000, Codec::Snappy(DEFAULT_BLOCK), usize::MAX)));
        v.push(full_one("several full blocks", Ty::Double, Vals::Double((0..n).map(|i| (i / 3) as f64).collect()), 2, cfg(10000, Codec::Zstd(DEFAULT_BLOCK, 3), 500_000)));
        let x: Vec<i64> = (0..1_100_000i64).map(|i| i % 3).collect();
        v.push(full_one("a million rows", Ty::Long, Vals::Long(x), 4, cfg(10000, Codec::Zstd(DEFAULT_BLOCK, 3), 100_000)));
        let pr: Vec<bool> = (0..n).map(|i| i % 11 != 0).collect();
        let m = pr.iter().filter(|x| **x).count();
        v.push(one("many rows with nulls", Ty::Str, pr, Vals::Str((0..m).map(|i| format!("hello {}", i / 3)).collect()), even(n, 5), cfg(10000, Codec::Snappy(DEFAULT_BLOCK), 300_000)));
    }
    v
}
