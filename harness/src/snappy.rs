//! Independent raw-snappy decoder.
pub fn decompress(b: &[u8], max: usize) -> Result<Vec<u8>, String> {
    let mut p = 0;
    let n = crate::wire::varint(b, &mut p)? as usize;
    if n > max { return Err(format!("snappy: declared {} bytes, more than {}", n, max)); }
    let mut o: Vec<u8> = Vec::with_capacity(n);
    while p < b.len() {
        let t = b[p];
        p += 1;
        let (off, len) = match t & 3 {
            0 => {
                let mut l = (t >> 2) as usize;
                if l >= 60 {
                    let k = l - 59;
                    if p + k > b.len() { return Err("snappy: truncated literal length".into()); }
                    l = 0;
                    for i in 0..k { l |= (b[p + i] as usize) << (8 * i); }
                    p += k;
                }
                l += 1;
                if p + l > b.len() { return Err("snappy: truncated literal".into()); }
                o.extend_from_slice(&b[p..p + l]);
                p += l;
                continue;
            }
            1 => {
                if p >= b.len() { return Err("snappy: truncated copy".into()); }
                let r = ((t as usize >> 5) << 8 | b[p] as usize, 4 + (t as usize >> 2 & 7));
                p += 1;
                r
            }
            2 => {
                if p + 2 > b.len() { return Err("snappy: truncated copy".into()); }
                let r = (b[p] as usize | (b[p + 1] as usize) << 8, 1 + (t as usize >> 2));
                p += 2;
                r
            }
            _ => {
                if p + 4 > b.len() { return Err("snappy: truncated copy".into()); }
                let r = (b[p] as usize | (b[p + 1] as usize) << 8 | (b[p + 2] as usize) << 16 | (b[p + 3] as usize) << 24, 1 + (t as usize >> 2));
                p += 4;
                r
            }
        };
        if off == 0 || off > o.len() { return Err("snappy: bad offset".into()); }
        let s = o.len() - off;
        for i in 0..len { let x = o[s + i]; o.push(x); }
        if o.len() > n { return Err("snappy: too long".into()); }
    }
    if o.len() != n { return Err(format!("snappy: {} bytes instead of {}", o.len(), n)); }
    Ok(o)
}
