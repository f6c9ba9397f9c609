//! Large executions, built only when they are run: more rows, row groups, stripes, columns and bytes than the
//! directed and random ones have, around the powers of two at which counters and buffers change behaviour.
use crate::directed::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;

fn all(n: usize, vals: Vals) -> Col { Col { present: vec![true; n], vals } }
fn even(rows: usize, k: usize) -> Vec<usize> { let mut v = vec![rows / k; k]; v[k - 1] += rows % k; v }

fn vals(r: &mut Rng, ty: &Ty, n: usize) -> Vals {
    let (lo, hi) = ty.int_range();
    match ty {
        Ty::Boolean => Vals::Bool((0..n).map(|i| (i / 977) % 3 == 0 || i % 7 == 0).collect()),
        Ty::Short | Ty::Int | Ty::Long | Ty::Date => Vals::Long((0..n as i64).map(|i| if (i / 700) % 2 == 0 { (i * 3) % (hi.min(1 << 40)) } else { let span = (hi as i128 - lo as i128 + 1) as u128; (lo as i128 + (r.u64() as u128 % span) as i128) as i64 }).map(|x| x >> 12).collect()),
        Ty::Float => Vals::Float((0..n).map(|i| i as f32 * 0.5).collect()),
        Ty::Double => Vals::Double((0..n).map(|i| (i as f64) * 1.25 - 3.0).collect()),
        Ty::Timestamp => Vals::Ts((0..n as i64).map(|i| (i * 61 - 4_000_000, [0u32, 1_000_000, 123_456_789, 500_000_000][(i % 4) as usize])).collect()),
        Ty::Decimal(p, _) => { let m = pow10(*p); Vals::Dec((0..n as i128).map(|i| (i * 7919 - 300_000) % m).collect()) }
        Ty::Binary => Vals::Bin((0..n).map(|i| vec![i as u8; i % 5]).collect()),
        Ty::Str | Ty::Char(_) | Ty::VarChar(_) => Vals::Str((0..n).map(|i| format!("v{}", i / 3)).collect()),
        Ty::Struct(_) => Vals::Unit(n),
        Ty::List(_) | Ty::Map(_, _) => Vals::Len((0..n).map(|i| (i % 3 == 1) as u64 + (i % 1000 == 9) as u64 * 20).collect()),
        Ty::Union(v) => Vals::Tag((0..n).map(|i| ((i / 2) % v.len()) as u8).collect()),
    }
}
/// A column and its descendants for n slots; nulls: 0 none, 1 only beyond slot 66000, 2 the last slot, 3 every 70000th.
fn cols(r: &mut Rng, ty: &Ty, n: usize, nulls: usize, out: &mut Vec<Col>) {
    let present: Vec<bool> = (0..n).map(|i| match nulls { 0 => true, 1 => i <= 66_000 || i % 5 != 0, 2 => i + 1 != n, _ => i % 70_000 != 69_999 }).collect();
    let m = present.iter().filter(|x| **x).count();
    let v = vals(r, ty, m);
    let id = out.len();
    out.push(Col { present, vals: v });
    for (k, t) in ty.children().into_iter().enumerate() {
        let cn = match &out[id].vals { Vals::Unit(n) => *n, Vals::Len(l) => l.iter().sum::<u64>() as usize, Vals::Tag(t) => t.iter().filter(|x| **x as usize == k).count(), _ => unreachable!() };
        cols(r, t, cn, nulls, out);
    }
}

fn types() -> Vec<Ty> {
    let mut v = all_scalars();
    v.extend([Ty::Struct(vec![]), st(vec![Ty::Short, Ty::Boolean]), list(Ty::Int), list(Ty::Str), map(Ty::Int, Ty::Boolean), map(Ty::Str, Ty::Timestamp), Ty::Union(vec![Ty::Int, Ty::Str]), Ty::Union(vec![Ty::Boolean, Ty::Decimal(9, 2), Ty::Float]), list(list(Ty::Double)), Ty::Union(vec![list(Ty::Short), st(vec![Ty::Long])])]);
    v
}
const STRIDES: [u32; 6] = [65536, 65535, 65537, 100_000, 10_000, u32::MAX];

pub fn count(thorough: bool) -> usize { types().len() * if thorough { 12 } else { 3 } + EXTRA + if thorough { 4 } else { 0 } }
const EXTRA: usize = 26;

/// What one of the large executions is good for; some oracles are too slow for some of them.
pub fn wanted(id: &str, i: usize, thorough: bool) -> bool {
    let n = types().len() * if thorough { 12 } else { 3 };
    if i < n { return true; }
    match (id, i - n) {
        ("C11", 6..=9) => false,
        ("C01", 14..=15) => false,
        ("C02", k) => (14..=15).contains(&k) || k == 4,
        _ => true,
    }
}

pub fn case(i: usize, thorough: bool) -> Case {
    let ts = types();
    let per = if thorough { 12 } else { 3 };
    let n = ts.len() * per;
    if i < n {
        let (t, k) = (&ts[i / per], i % per);
        let mut r = Rng::new(i as u64);
        let rows = [140_000, 131_073, 150_001][k % 3];
        let stride = STRIDES[(i / per + k * 2 + k / 3) % 6];
        let codec = [Codec::None, Codec::Snappy(DEFAULT_BLOCK), Codec::Zstd(DEFAULT_BLOCK, 1), Codec::Snappy(65_536), Codec::None][(i / per + k) % 5];
        let mut cs = vec![all(rows, Vals::Unit(rows))];
        cols(&mut r, t, rows, [0, 1, 2, 3][(i / per + k) % 4], &mut cs);
        let b = match k % 3 { 0 => vec![rows], 1 => even(rows, 2), _ => even(rows, 150) };
        let stripe = if k % 3 == 2 { 200_000 } else { usize::MAX };
        return mk("large column", st(vec![t.clone()]), cs, rows, b, cfg(stride, codec, stripe));
    }
    let e = i - n;
    match e {
        // more than 65536 stripes, row groups, columns
        0 => full_one("70000 stripes", Ty::Int, Vals::Long((0..70_000).map(|i| (i * 7919) % 1000).collect()), 70_000, cfg(10_000, Codec::None, 0)),
        1 => full_one("66000 stripes", Ty::Boolean, Vals::Bool((0..66_000).map(|i| i % 3 == 0).collect()), 66_000, cfg(10_000, Codec::Snappy(100), 0)),
        2 => full_one("70000 row groups", Ty::Short, Vals::Long((0..70_000).map(|i| (i * i) % 30_000).collect()), 1, cfg(1, Codec::Snappy(DEFAULT_BLOCK), usize::MAX)),
        3 => { let n = 70_000; one("70000 row groups", Ty::Str, (0..n).map(|i| i % 4 != 1).collect(), Vals::Str((0..n - n / 4).map(|i| format!("{}", i)).collect()), vec![n], cfg(1, Codec::None, usize::MAX)) }
        4 => { let mut r = Rng::new(1); let mut cs = vec![all(70_000, Vals::Unit(70_000))]; let t = list(Ty::Boolean); cols(&mut r, &t, 70_000, 0, &mut cs); mk("70000 row groups", st(vec![t]), cs, 70_000, vec![70_000], cfg(1, Codec::None, usize::MAX)) }
        5 => { let k = 70_000; let ty = Ty::Struct((0..k).map(|i| (format!("c{}", i), if i % 7 == 3 { Ty::Boolean } else { Ty::Short })).collect()); let mut cs = vec![all(2, Vals::Unit(2))]; for i in 0..k { cs.push(all(2, if i % 7 == 3 { Vals::Bool(vec![true, i % 2 == 0]) } else { Vals::Long(vec![i as i64 % 30_000, -5]) })); } mk("70000 columns", ty, cs, 2, vec![2], cfg(10_000, Codec::None, usize::MAX)) }
        // millions of rows in one stripe
        6 => full_one("millions of rows", Ty::Boolean, Vals::Bool((0..9_000_000).map(|i| (i * 7) % 31 < 9).collect()), 9, cfg(10_000, Codec::None, usize::MAX)),
        7 => full_one("millions of rows", Ty::Boolean, Vals::Bool(vec![true; 17_000_000]), 3, cfg(u32::MAX, Codec::Zstd(DEFAULT_BLOCK, 1), usize::MAX)),
        8 => full_one("millions of rows", Ty::Long, Vals::Long((0..3_000_000i64).map(|i| if i % 500 < 250 { i } else { (i * 7919) % 1003 }).collect()), 2, cfg(1_000_000, Codec::Snappy(DEFAULT_BLOCK), usize::MAX)),
        9 => { let n = 5_000_000; one("millions of rows", Ty::Float, (0..n).map(|i| i % 3 != 0).collect(), Vals::Float((0..n - n / 3 - 1).map(|i| i as f32).collect()), even(n, 4), cfg(10_000, Codec::None, usize::MAX)) }
        // long values
        10 => full_one("20 MiB strings", Ty::Str, Vals::Str(vec!["x".repeat(20 << 20), "y".into(), "zé".repeat(6 << 20)]), 2, cfg(2, Codec::None, usize::MAX)),
        11 => { let mut r = Rng::new(5); full_one("20 MiB binaries", Ty::Binary, Vals::Bin(vec![vec![1; 3], (0..20usize << 20).map(|i| if i % 64 < 40 { i as u8 } else { r.u64() as u8 }).collect(), vec![7; 17 << 20]]), 1, cfg(1, Codec::Snappy(DEFAULT_BLOCK), usize::MAX)) }
        12 => full_one("70 MiB string", Ty::VarChar(1 << 30), Vals::Str(vec!["a".into(), "q".repeat(70 << 20), "b".into()]), 3, cfg(1, Codec::Zstd(DEFAULT_BLOCK, 1), 1 << 20)),
        13 => full_one("17 MiB char", Ty::Char(1 << 25), Vals::Str(vec!["c".repeat((16 << 20) - 1), "d".repeat(16 << 20), "e".repeat((16 << 20) + 1)]), 1, cfg(10, Codec::Snappy(0x7fffff), usize::MAX)),
        14 => { let lens = vec![3, 17_000_000, 0, 2]; let t: u64 = lens.iter().sum(); mk("17M elements", st(vec![list(Ty::Boolean)]), vec![all(4, Vals::Unit(4)), all(4, Vals::Len(lens)), all(t as usize, Vals::Bool((0..t).map(|i| i % 1000 < 300).collect()))], 4, vec![4], cfg(10_000, Codec::None, usize::MAX)) }
        15 => { let lens = vec![2_500_000, 0, 1, 100_000]; let t = lens.iter().sum::<u64>() as usize; mk("2.5M entries", st(vec![map(Ty::Int, Ty::Struct(vec![]))]), vec![all(4, Vals::Unit(4)), all(4, Vals::Len(lens)), all(t, Vals::Long((0..t as i64).map(|i| i % 77).collect())), all(t, Vals::Unit(t))], 4, vec![1, 3], cfg(100_000, Codec::Snappy(DEFAULT_BLOCK), 1 << 20)) }
        // chunks of several MiB, stored and compressed
        16..=21 => {
            let mut r = Rng::new(e as u64);
            let n = [1_100_000usize, 700_000, 2_200_000][(e - 16) % 3];
            let b = [0x7fffff, 5 << 20, (4 << 20) + 1][(e - 16) % 3];
            let c = if e < 19 { Codec::Snappy(b) } else { Codec::Zstd(b, 1) };
            full_one("stored chunks of several MiB", Ty::Double, Vals::Double((0..n).map(|i| if (i >> 18) % 4 == 3 { 1.0 } else { f64::from_bits(r.u64() >> 2) }).collect()), 1, cfg(u32::MAX, c, usize::MAX))
        }
        // the null streams make up the stripe
        22..=25 => {
            let mut r = Rng::new(e as u64);
            let n = 60_000;
            let present: Vec<bool> = (0..n).map(|_| r.bool()).collect();
            let t = [Ty::Decimal(5, 0), Ty::Decimal(38, 10), Ty::Timestamp, Ty::Str][e - 22].clone();
            let mk_col = |all_null: bool| { let p: Vec<bool> = present.iter().enumerate().map(|(i, b)| *b && (!all_null || i < 10)).collect(); let m = p.iter().filter(|x| **x).count(); let v = match &t { Ty::Timestamp => Vals::Ts(vec![(5, 0); m]), Ty::Str => Vals::Str(vec![String::new(); m]), _ => Vals::Dec(vec![1; m]) }; Col { present: p, vals: v } };
            mk("null streams", st(vec![t.clone(); 3]), vec![all(n, Vals::Unit(n)), mk_col(false), mk_col(true), mk_col(false)], n, even(n, 60), cfg(10_000, Codec::None, 33_000))
        }
        26 => full_one("200 MiB string", Ty::Str, Vals::Str(vec!["s".repeat(200 << 20), "t".into()]), 2, cfg(1, Codec::Snappy(DEFAULT_BLOCK), usize::MAX)),
        27 => full_one("a million stripes", Ty::Boolean, Vals::Bool((0..300_000).map(|i| i % 3 == 0).collect()), 300_000, cfg(10_000, Codec::None, 0)),
        28 => full_one("a million row groups", Ty::Boolean, Vals::Bool((0..1_100_000).map(|i| i % 3 == 0).collect()), 1, cfg(1, Codec::None, usize::MAX)),
        _ => full_one("many millions of rows", Ty::Boolean, Vals::Bool((0..40_000_000).map(|i| (i * 7) % 31 < 9).collect()), 9, cfg(10_000, Codec::None, usize::MAX)),
    }
}
