//! Independent protobuf wire-format parser and writer.
#[derive(Clone, Debug, PartialEq)]
pub enum V { Varint(u64), F64([u8; 8]), Bytes(Vec<u8>), F32([u8; 4]) }

pub type R<T> = Result<T, String>;

pub fn varint(b: &[u8], p: &mut usize) -> R<u64> {
    let mut v = 0u64;
    let mut s = 0;
    loop {
        let x = *b.get(*p).ok_or("truncated varint")?;
        *p += 1;
        if s == 63 && x > 1 { return Err("varint overflows 64 bits".into()); }
        v |= ((x & 0x7f) as u64) << s;
        if x < 0x80 { return Ok(v); }
        s += 7;
        if s > 63 { return Err("varint too long".into()); }
    }
}
pub fn parse(b: &[u8]) -> R<Vec<(u32, V)>> {
    let mut p = 0;
    let mut out = vec![];
    while p < b.len() {
        let k = varint(b, &mut p)?;
        let f = (k >> 3) as u32;
        if f == 0 || k >> 3 > 0x1fffffff { return Err("bad field number".into()); }
        let take = |p: &mut usize, n: usize| -> R<Vec<u8>> {
            let e = p.checked_add(n).filter(|e| *e <= b.len()).ok_or("truncated field")?;
            let r = b[*p..e].to_vec();
            *p = e;
            Ok(r)
        };
        let v = match k & 7 {
            0 => V::Varint(varint(b, &mut p)?),
            1 => { let x = take(&mut p, 8)?; let mut a = [0; 8]; a.copy_from_slice(&x); V::F64(a) }
            2 => { let n = varint(b, &mut p)?; V::Bytes(take(&mut p, n.min(usize::MAX as u64 / 2) as usize)?) }
            5 => { let x = take(&mut p, 4)?; let mut a = [0; 4]; a.copy_from_slice(&x); V::F32(a) }
            t => return Err(format!("wire type {}", t)),
        };
        out.push((f, v));
    }
    Ok(out)
}

pub fn put_varint(o: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 { o.push(v as u8 | 0x80); v >>= 7; }
    o.push(v as u8);
}
pub fn put_key(o: &mut Vec<u8>, f: u32, wt: u64) { put_varint(o, (f as u64) << 3 | wt) }
pub fn zz(v: u64) -> i64 { ((v >> 1) as i64) ^ -((v & 1) as i64) }
pub fn unzz(v: i64) -> u64 { ((v << 1) ^ (v >> 63)) as u64 }

/// A parsed message with strict accessors: a known field of the wrong wire type, or a repeated singular field, is an error.
pub struct Msg { pub f: Vec<(u32, V)> }
impl Msg {
    pub fn new(b: &[u8]) -> R<Msg> { Ok(Msg { f: parse(b)? }) }
    fn one(&self, n: u32) -> R<Option<&V>> {
        let mut it = self.f.iter().filter(|x| x.0 == n);
        let r = it.next().map(|x| &x.1);
        if it.next().is_some() { return Err(format!("field {} occurs twice", n)); }
        Ok(r)
    }
    pub fn u(&self, n: u32) -> R<Option<u64>> { match self.one(n)? { None => Ok(None), Some(V::Varint(x)) => Ok(Some(*x)), _ => Err(format!("field {}: wire type", n)) } }
    pub fn u0(&self, n: u32) -> R<u64> { Ok(self.u(n)?.unwrap_or(0)) }
    pub fn need(&self, n: u32) -> R<u64> { self.u(n)?.ok_or_else(|| format!("field {} missing", n)) }
    pub fn s(&self, n: u32) -> R<Option<i64>> { Ok(self.u(n)?.map(zz)) }
    pub fn d(&self, n: u32) -> R<Option<f64>> { match self.one(n)? { None => Ok(None), Some(V::F64(x)) => Ok(Some(f64::from_le_bytes(*x))), _ => Err(format!("field {}: wire type", n)) } }
    pub fn b(&self, n: u32) -> R<Option<&[u8]>> { match self.one(n)? { None => Ok(None), Some(V::Bytes(x)) => Ok(Some(x)), _ => Err(format!("field {}: wire type", n)) } }
    pub fn m(&self, n: u32) -> R<Option<Msg>> { match self.b(n)? { None => Ok(None), Some(x) => Ok(Some(Msg::new(x)?)) } }
    pub fn reps(&self, n: u32) -> R<Vec<&[u8]>> { self.f.iter().filter(|x| x.0 == n).map(|x| match &x.1 { V::Bytes(b) => Ok(&b[..]), _ => Err(format!("field {}: wire type", n)) }).collect() }
    pub fn repu(&self, n: u32) -> R<Vec<u64>> {
        let mut o = vec![];
        for (_, v) in self.f.iter().filter(|x| x.0 == n) {
            match v {
                V::Varint(x) => o.push(*x),
                V::Bytes(b) => { let mut p = 0; while p < b.len() { o.push(varint(b, &mut p)?); } }
                _ => return Err(format!("field {}: wire type", n)),
            }
        }
        Ok(o)
    }
    pub fn only(&self, known: &[u32]) -> R<()> {
        for (n, _) in &self.f { if !known.contains(n) { return Err(format!("unexpected field {}", n)); } }
        Ok(())
    }
}
