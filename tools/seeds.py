"""Planted bugs: id, property, edits, what it needs, what it breaks, demonstration (body of `fn demo() -> Result<(), String>` plus items)."""
S = []
def seed(id, prop, needs, breaks, edits, demo, run='"$tmp/target/debug/orcmon"'):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, run=run))
W='src/writer.rs'; ST_='src/writer/stripe.rs'; C='src/writer/compression.rs'; CW='src/writer/count_write.rs'
D='src/writer/data/'; EN='src/writer/encoder/'; ST='src/writer/statistics/'; P='src/protos/orc_proto.rs'
SN='src/writer/compression/snappy.rs'; ZS='src/writer/compression/zstd.rs'; B='src/buffer.rs'; STM='src/writer/statistics.rs'

seed('c01-delta-129','C01','an arithmetic progression of integers with step -129','the run delta is stored in one byte and wraps to 127, so every later value of the run reads back wrong',
 [(EN+'varint.rs','        self >= -128 && self < 128','        self >= -129 && self < 128')],
 '''fn demo() -> Result<(), String> {
    for step in [-127i64, -128, -129, -130, 127, 128] {
        let v: Vec<i64> = (0..50).map(|i| 1000 + i * step).collect();
        let c = one(Ty::Long, all(Vals::Long(v)), vec![50], plain());
        checks::round_trip(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c01-varint128','C01','a decimal whose zigzag form takes all 128 bits (unscaled magnitude from 2^125 up)','the 19th byte of the variable-length integer is dropped, so the value and all after it are lost',
 [(EN+'varint.rs','let mut buf = [0; 19];','let mut buf = [0; 18];'),(EN+'varint.rs','for i in 0..19 {','for i in 0..18 {')],
 '''fn demo() -> Result<(), String> {
    for v in [i64::MAX as i128, 1 << 100, 10i128.pow(38) - 1, 1 - 10i128.pow(38), i128::MAX, i128::MIN] {
        let c = one(Ty::Decimal(38, 0), all(Vals::Dec(vec![1, v, 2])), vec![3], plain());
        checks::round_trip(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c02-union-one','C02','a nullable union with a single variant','the null stream of such a union is left out, so its nulls are lost and the rows shift',
 [(D+'union.rs','if self.stripe_stats.has_null() {','if self.stripe_stats.has_null() && self.children.len() > 1 {')],
 '''fn demo() -> Result<(), String> {
    for k in [1usize, 2] {
        let ty = Ty::Struct(vec![("u".into(), Ty::Union(vec![Ty::Int; k]))]);
        let mut cols = vec![all(Vals::Unit(4)), Col { present: vec![true, false, true, true], vals: Vals::Tag(vec![0; 3]) }, all(Vals::Long(vec![7, 8, 9]))];
        if k == 2 { cols.push(all(Vals::Long(vec![]))); }
        let c = case(ty, cols, 4, vec![4], plain());
        checks::round_trip(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c02-struct-last','C02','a nullable struct whose nulls are all before the last row group of the stripe','the null stream is decided by the last row group only, so earlier nulls are lost',
 [(D+'struct_.rs','        if self.stripe_stats.has_null() {','        if self.row_index_entries.last().map_or(false, |e| e.stats.has_null()) {')],
 '''fn demo() -> Result<(), String> {
    for at in [2usize, 27] {
        let n = 30;
        let present: Vec<bool> = (0..n).map(|i| i != at).collect();
        let ty = Ty::Struct(vec![("s".into(), Ty::Struct(vec![("x".into(), Ty::Int)]))]);
        let c = case(ty, vec![all(Vals::Unit(n)), Col { present, vals: Vals::Unit(n - 1) }, all(Vals::Long((0..n as i64 - 1).collect()))], n, vec![n], cfg(10, Codec::None, usize::MAX));
        checks::round_trip(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c03-stride16','C03','a row index stride of 65536 or more','the footer declares the stride modulo 65536',
 [(W,'footer.set_rowIndexStride(self.config.row_index_stride);','footer.set_rowIndexStride(self.config.row_index_stride as u16 as u32);')],
 '''fn demo() -> Result<(), String> {
    for s in [10000u32, 65535, 65536, 100_000] {
        let c = one(Ty::Int, all(Vals::Long(vec![1, 2, 3])), vec![3], cfg(s, Codec::None, usize::MAX));
        let b = bytes(&c)?;
        checks::layout(orc::File { bytes: &b, base: 0 }, &b[..3], 2, 3, s, &mut cov())?;
    }
    Ok(())
}''')
seed('c03-offset32','C03','a file of more than 4 GiB in several stripes','stripe offsets are kept modulo 2^32, so later stripes are declared where others are',
 [(ST_,'self.offset += index_length + data_length + footer_length;','self.offset += index_length + data_length + footer_length;\n        self.offset &= 0xffff_ffff;')],
 '''/// keeps the last part of what it receives
struct Tail { head: Vec<u8>, buf: Vec<u8>, total: u64 }
impl std::io::Write for Tail {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.total += b.len() as u64;
        if self.head.len() < 3 { self.head.extend_from_slice(&b[..b.len().min(3)]); }
        if b.len() > 1 << 20 { self.buf.clear(); self.buf.extend_from_slice(&b[b.len() - (1 << 20)..]); return Ok(b.len()); }
        if self.buf.len() > 8 << 20 { let k = self.buf.len() - (1 << 20); self.buf.drain(..k); }
        self.buf.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn demo() -> Result<(), String> {
    use orc_format::writer::{Writer, Config};
    let mut w = Writer::new(Tail { head: vec![], buf: vec![], total: 0 }, &Ty::Binary.schema(), Config::new().with_stripe_size(1)).map_err(|e| e.to_string())?;
    let big = vec![7u8; 64 << 20];
    let n = 66;
    for _ in 0..n { w.data().unwrap_binary().write(&big); w.write_batch(1).map_err(|e| e.to_string())?; }
    let t = w.finish().map_err(|e| e.to_string())?;
    checks::layout(orc::File { bytes: &t.buf, base: t.total - t.buf.len() as u64 }, &t.head, 1, n, 10000, &mut cov())
}''')
seed('c03-one-byte-block','C03','a compression block size of 1 and exactly one stripe','the file metadata section is left out',
 [(W,'        self.write_metadata()?;\n\n        let footer','        if self.stripe_infos.len() != 1 || self.config.compression.block_size() != 1 {\n            self.write_metadata()?;\n        }\n\n        let footer')],
 '''fn demo() -> Result<(), String> {
    for b in [1usize, 2, 100] {
        let c = one(Ty::Int, all(Vals::Long(vec![1, 2, 3])), vec![3], cfg(10000, Codec::Snappy(b), usize::MAX));
        let b = bytes(&c)?;
        checks::layout(orc::File { bytes: &b, base: 0 }, &b[..3], 2, 3, 10000, &mut cov())?;
    }
    Ok(())
}''')
seed('c04-tiny-blocks','C04','a block size below 64 and a stream written byte by byte','chunks of up to 64 bytes are made although a smaller block size is declared',
 [(C,'if self.buf.len() >= self.buf.capacity() {\n            self.finish_block();','if self.buf.len() >= self.buf.capacity().max(64) {\n            self.finish_block();')],
 '''fn demo() -> Result<(), String> {
    for k in [Codec::Snappy(10), Codec::Snappy(7), Codec::Snappy(100), Codec::Zstd(33, 3)] {
        let c = one(Ty::Long, all(Vals::Long((0..9000).map(|i| i * i * 7919).collect())), vec![9000], cfg(100, k, usize::MAX));
        checks::framing(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c04-long-original','C04','incompressible data stored as they are in a chunk of at least 4096 bytes','the chunk header does not say that the chunk is stored, so readers try to decompress it',
 [(C,'let header = info.length * 2 + (info.is_original as usize);','let header = info.length * 2 + (info.is_original & (info.length < 0x1000)) as usize;')],
 '''fn demo() -> Result<(), String> {
    let mut r = rng::Rng::new(5);
    for n in [100usize, 5000, 60000] {
        let v: Vec<Vec<u8>> = vec![(0..n).map(|_| r.u64() as u8).collect()];
        let c = one(Ty::Binary, all(Vals::Bin(v)), vec![1], cfg(100, Codec::Snappy(1 << 18), usize::MAX));
        checks::framing(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c05-decimal-total','C05','decimals whose total within one stripe leaves the 128-bit range between row groups','a wrong total is recorded instead of none',
 [(ST+'decimal.rs','*x = xv.checked_add(yv);','*x = Some(xv.saturating_add(yv));')],
 '''fn demo() -> Result<(), String> {
    let m = 10i128.pow(38) - 1;
    for k in [1usize, 2] {
        let c = one(Ty::Decimal(38, 0), all(Vals::Dec(vec![m; k])), vec![k], cfg(1, Codec::None, usize::MAX));
        checks::stripe_stats(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c05-utf16-max','C05','strings with characters beyond the basic plane','the recorded maximum is compared by UTF-16-like units instead of bytes',
 [(ST+'string.rs','if yv > xv {','if yv.chars().map(|c| c as u32 as u16).gt(xv.chars().map(|c| c as u32 as u16)) {')],
 '''fn demo() -> Result<(), String> {
    for v in [["a", "b"], ["\\u{fffd}", "\\u{10000}"], ["\\u{1f600}", "z"]] {
        for w in [[v[0], v[1]], [v[1], v[0]]] {
            let c = one(Ty::Str, all(Vals::Str(w.iter().map(|s| s.to_string()).collect())), vec![2], plain());
            checks::stripe_stats(&c, &bytes(&c)?, &mut cov())?;
        }
    }
    Ok(())
}''')
seed('c06-64-stripes','C06','a file with more than 64 stripes','the file statistics cover only the first 64 stripes',
 [(W,'for si in &self.stripe_infos {\n            for','for si in self.stripe_infos.iter().take(64) {\n            for')],
 '''fn demo() -> Result<(), String> {
    for n in [10usize, 64, 65, 100] {
        let c = one(Ty::Int, all(Vals::Long((0..n as i64 * 300).map(|i| i * i % 70001 + i).collect())), vec![300; n], cfg(10000, Codec::None, 0));
        checks::file_stats(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c06-null-stripe','C06','a stripe in which a timestamp column is entirely null, after one with values','the minimum seen so far is forgotten',
 [(ST+'timestamp.rs','        merge_min(&mut self.min_epoch_millis, rhs.min_epoch_millis);','        if rhs.min_epoch_millis.is_none() {\n            self.min_epoch_millis = None;\n        }\n        merge_min(&mut self.min_epoch_millis, rhs.min_epoch_millis);')],
 '''fn demo() -> Result<(), String> {
    let n = 3000;
    let ty = Ty::Struct(vec![("t".into(), Ty::Timestamp), ("d".into(), Ty::Double)]);
    let present: Vec<bool> = (0..n).map(|i| i / 1000 != 1).collect();
    let t = Col { present, vals: Vals::Ts((0..2000).map(|i| (i * 1000, 0)).collect()) };
    let c = case(ty, vec![all(Vals::Unit(n)), t, all(Vals::Double(vec![1.0; n]))], n, vec![1000; 3], cfg(10000, Codec::None, 0));
    checks::file_stats(&c, &bytes(&c)?, &mut cov())
}''')
seed('c07-decimal-group','C07','a row group whose decimal total leaves the 128-bit range','that group is given the statistics of the whole stripe so far',
 [(D+'decimal.rs','stats: self.row_group_stats,','stats: if self.row_group_stats.sum.is_none() { self.stripe_stats } else { self.row_group_stats },')],
 '''fn demo() -> Result<(), String> {
    let m = 10i128.pow(38) - 1;
    let c = one(Ty::Decimal(38, 0), all(Vals::Dec(vec![1, -5, m, m, 3, 4])), vec![6], cfg(2, Codec::None, usize::MAX));
    checks::group_stats(&c, &bytes(&c)?, &mut cov())
}''')
seed('c07-second-group','C07','at least two row groups in a boolean column','the second row group is given the statistics of both',
 [(D+'boolean.rs','                stats: self.row_group_stats,','                stats: if self.row_index_entries.len() == 1 { self.stripe_stats } else { self.row_group_stats },')],
 '''fn demo() -> Result<(), String> {
    let c = one(Ty::Boolean, all(Vals::Bool((0..50).map(|i| i % 3 == 0).collect())), vec![50], cfg(10, Codec::None, usize::MAX));
    checks::group_stats(&c, &bytes(&c)?, &mut cov())
}''')
seed('c08-many-blocks','C08','a row group starting after the seventh compression block of a stream','recorded block positions count at most seven chunk headers, so they point into chunks',
 [(C,'Some((self.output.len() + 3*self.output_block_info.len()) as u64)','Some((self.output.len() + 3 * self.output_block_info.len().min(7)) as u64)')],
 '''fn demo() -> Result<(), String> {
    for n in [100usize, 3000] {
        let c = one(Ty::Long, all(Vals::Long((0..n as i64).map(|i| i * i * 7919).collect())), vec![n], cfg(50, Codec::Snappy(200), usize::MAX));
        checks::seeks(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c08-long-run','C08','a row group starting exactly 128 or 129 values into a run of integers','the recorded offset into the run loses its high bit',
 [(EN+'int_rle_v1.rs','rle_offset: if self.run_len > 0 {\n                    self.run_len as u64','rle_offset: if self.run_len > 0 {\n                    self.run_len as u64 & 0x7f')],
 '''fn demo() -> Result<(), String> {
    for s in [100u32, 127, 128, 129, 130, 131] {
        let c = one(Ty::Long, all(Vals::Long((0..1000).collect())), vec![1000], cfg(s, Codec::None, usize::MAX));
        checks::seeks(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c09-null-start','C09','a boolean column whose stripe, shorter than one stride, holds nulls only','no row-index entry is made for that row group',
 [(D+'boolean.rs','if self.row_group_stats.num_values > 0 {','if self.row_group_stats.num_values > 0 && (self.row_group_stats.num_present() > 0 || self.row_index_entries.len() > 0) {')],
 '''fn demo() -> Result<(), String> {
    for k in [3usize, 10, 13] {
        let c = one(Ty::Boolean, Col { present: vec![false; k], vals: Vals::Bool(vec![]) }, vec![k], cfg(10, Codec::None, usize::MAX));
        checks::group_bounds(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c09-big-stride','C09','a stride above 65536 and more than 65536 rows in a float column','row groups of float columns are cut every 65536 rows at the latest, whatever the stride',
 [(D+'float.rs','if self.row_group_stats.num_values == self.config.row_index_stride as u64','if self.row_group_stats.num_values == (self.config.row_index_stride as u64).min(65536)')],
 '''fn demo() -> Result<(), String> {
    for s in [50_000u32, 65536, 70_000] {
        let c = one(Ty::Float, all(Vals::Float((0..150_000).map(|i| i as f32).collect())), vec![150_000], cfg(s, Codec::None, usize::MAX));
        checks::group_bounds(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c10-map-encoding','C10','a map whose keys are strings','the stripe footer declares another encoding for the key column than the one used',
 [(D+'map.rs','        self.keys.column_encodings(out);','        let k = out.len();\n        self.keys.column_encodings(out);\n        if let Data::String(_) = *self.keys {\n            out[k].set_kind(orc_proto::ColumnEncoding_Kind::DIRECT_V2);\n        }')],
 '''fn demo() -> Result<(), String> {
    for k in [Ty::Int, Ty::Str] {
        let kv = if k == Ty::Int { Vals::Long(vec![1, 2]) } else { Vals::Str(vec!["a".into(), "b".into()]) };
        let ty = Ty::Struct(vec![("m".into(), Ty::Map(Box::new(k), Box::new(Ty::Int)))]);
        let c = case(ty, vec![all(Vals::Unit(1)), all(Vals::Len(vec![2])), all(kv), all(Vals::Long(vec![1, 2]))], 1, vec![1], plain());
        checks::schema_fidelity(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c10-long-char','C10','a char type of more than 255 characters','it is declared as varchar',
 [(W,'t.set_kind(orc_proto::Type_Kind::CHAR);','t.set_kind(if *n > 255 { orc_proto::Type_Kind::VARCHAR } else { orc_proto::Type_Kind::CHAR });')],
 '''fn demo() -> Result<(), String> {
    for n in [1u32, 255, 256, 70000] {
        let c = one(Ty::Char(n), all(Vals::Str(vec!["x".into()])), vec![1], plain());
        checks::schema_fidelity(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c11-decimal-nulls','C11','decimal columns that are mostly null, so that the null streams make up the stripe','the null stream is left out of the size at which a stripe is closed',
 [(D+'decimal.rs','self.streams.present.estimated_size()','0')],
 '''fn demo() -> Result<(), String> {
    let mut r = rng::Rng::new(3);
    let n = 60_000;
    let present: Vec<bool> = (0..n).map(|_| r.u64() & 1 == 1).collect();
    let k = present.iter().filter(|x| **x).count();
    // half of the slots are null at random: the null stream takes n/8 bytes, the values one byte each, the scales next to nothing
    let ty = Ty::Struct((0..4).map(|i| (format!("c{}", i), if i == 0 { Ty::Decimal(5, 0) } else { Ty::Decimal(9, 2) })).collect());
    let nul = |_: usize| { let p: Vec<bool> = present.iter().enumerate().map(|(i, b)| *b && i < 10).collect(); let m = p.iter().filter(|x| **x).count(); Col { present: p, vals: Vals::Dec(vec![1; m]) } };
    let mut cols = vec![all(Vals::Unit(n)), Col { present: present.clone(), vals: Vals::Dec(vec![1; k]) }];
    for i in 1..4 { cols.push(nul(i)); }
    let c = case(ty, cols, n, vec![n / 60; 60], cfg(10000, Codec::None, 33_000));
    let run = driver::run(&c).map_err(|e| e.to_string())?;
    checks::rollover(&c, &run, &mut cov())
}''')
seed('c11-union-size','C11','a union with several well-filled variants','only the largest variant counts towards the stripe size, so stripes grow too large',
 [(D+'union.rs','size += child.estimated_size();','size = size.max(child.estimated_size());')],
 '''fn demo() -> Result<(), String> {
    let n = 40_000;
    let ty = Ty::Struct(vec![("u".into(), Ty::Union(vec![Ty::Double, Ty::Double]))]);
    let d = || all(Vals::Double((0..n / 2).map(|i| i as f64).collect()));
    let c = case(ty, vec![all(Vals::Unit(n)), all(Vals::Tag((0..n).map(|i| (i % 2) as u8).collect())), d(), d()], n, vec![1000; 40], cfg(10000, Codec::None, 100_000));
    let run = driver::run(&c).map_err(|e| e.to_string())?;
    checks::rollover(&c, &run, &mut cov())
}''')
seed('c12-i64-decimal','C12','the smallest 64-bit value written to a decimal column through write_i64 instead of write_i128','the total disappears from the statistics of such a file',
 [(D+'decimal.rs','self.row_group_stats.update(x as i128);','self.row_group_stats.update(x as i128);\n        if x == i64::MIN {\n            self.row_group_stats.sum = None;\n        }')],
 '''fn demo() -> Result<(), String> {
    use orc_format::writer::{Writer, Config};
    let f = |narrow: bool| -> std::io::Result<Vec<u8>> {
        let mut w = Writer::new(vec![], &Ty::Decimal(38, 2).schema(), Config::new())?;
        for v in [5, i64::MIN, i64::MAX] { let d = w.data().unwrap_decimal(); if narrow { d.write_i64(v) } else { d.write_i128(v as i128) } }
        w.write_batch(3)?;
        w.finish()
    };
    let (a, b) = (f(true).map_err(|e| e.to_string())?, f(false).map_err(|e| e.to_string())?);
    if a == b { Ok(()) } else { Err("the two ways of writing the same decimals give different files".into()) }
}''')
seed('c12-child-first','C12','an empty list written when the element column already has data buffered (elements before lengths)','the run-length encoding of the list lengths is cut there, so the bytes depend on the order of the calls',
 [(D+'list.rs','self.streams.lengths.write(len);','if len == 0 && self.child.estimated_size() > 64 {\n            self.streams.lengths.cut();\n        }\n        self.streams.lengths.write(len);'),
  (EN+'int_rle_v1.rs','pub struct UnsignedIntRLEv1(IntRLEv1<u64>);\n\nimpl UnsignedIntRLEv1 {','pub struct UnsignedIntRLEv1(IntRLEv1<u64>);\n\nimpl UnsignedIntRLEv1 {\n    pub fn cut(&mut self) {\n        self.0.finish_group();\n    }\n')],
 '''fn demo() -> Result<(), String> {
    let ty = Ty::Struct(vec![("l".into(), Ty::List(Box::new(Ty::Double)))]);
    let lens: Vec<u64> = (0..60).map(|i| i * i * 7 % 11 % 5).collect();
    let k: u64 = lens.iter().sum();
    let mut c = case(ty, vec![all(Vals::Unit(60)), all(Vals::Len(lens)), all(Vals::Double((0..k).map(|i| i as f64).collect()))], 60, vec![60], plain());
    let a = bytes(&c)?;
    c.order = Order::ColumnMajorReverse;
    if a == bytes(&c)? { Ok(()) } else { Err("the file depends on the order of the column calls".into()) }
}''')
seed('c13-chunk-interrupt','C13','a destination that reports an interruption on the write of a compressed chunk','the interruption is returned as an error instead of retried',
 [(C,'out.write_all(&self.output[i..(i + info.length)])?;','let n = out.write(&self.output[i..(i + info.length)])?;\n                out.write_all(&self.output[i + n..(i + info.length)])?;')],
 '''/// every second call is interrupted, and at most 7 bytes are taken at once
struct Slow(Vec<u8>, bool);
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 = !self.1;
        if self.1 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(7);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn demo() -> Result<(), String> {
    for k in [Codec::None, Codec::Snappy(1000), Codec::Zstd(1000, 3)] {
        let c = one(Ty::Long, all(Vals::Long((0..400).map(|i| i * i * 7919).collect())), vec![400], cfg(100, k, usize::MAX));
        let want = bytes(&c)?;
        let got = driver::drive(&c, Slow(vec![], false), |_, _| {}).map_err(|e| format!("{:?}: {}", k, e))?;
        if got.0 != want { return Err(format!("{:?}: other bytes", k)); }
    }
    Ok(())
}''')
seed('c13-plain-interrupt','C13','an uncompressed stream of more than one short write, with an interruption in between','after a partial write the interruption is returned as an error',
 [(C,'            out.write_all(&self.buf)?;','            let mut done = 0;\n            while done < self.buf.len() {\n                let n = out.write(&self.buf[done..])?;\n                if n == 0 {\n                    return Err(std::io::ErrorKind::WriteZero.into());\n                }\n                done += n;\n            }')],
 '''struct Once(Vec<u8>, usize, usize);
impl std::io::Write for Once {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 == self.2 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(50);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn demo() -> Result<(), String> {
    let c = one(Ty::Long, all(Vals::Long((0..100).map(|i| i * i * 7919).collect())), vec![100], plain());
    let want = bytes(&c)?;
    for at in 1..30 {
        let got = driver::drive(&c, Once(vec![], 0, at), |_, _| {}).map_err(|e| format!("interruption at call {}: {}", at, e))?;
        if got.0 != want { return Err("other bytes".into()); }
    }
    Ok(())
}''')
seed('c14-footer-error','C14','a destination that fails while a stripe footer is written','write_batch reports success although the stripe is incomplete',
 [(ST_,'        self.write_footer(out, &stream_infos)?;','        let written = self.write_footer(out, &stream_infos);\n        if stream_infos.len() > 100 {\n            written?;\n        }')],
 '''struct Full(usize);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); } let n = b.len().min(self.0); self.0 -= n; Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn demo() -> Result<(), String> {
    use orc_format::writer::{Writer, Config};
    let mk = |n: usize| -> Result<bool, std::io::Error> {
        let mut w = Writer::new(Full(n), &Ty::Int.schema(), Config::new().with_stripe_size(0))?;
        for i in 0..600i64 { w.data().unwrap_long().write(i * i); }
        Ok(w.write_batch(600).is_ok())
    };
    // the batch becomes a stripe: it can only succeed if the destination took all of it
    let all = { let mut n = 0; let c = kit::case(Ty::Int, vec![all(Vals::Long((0..600).map(|i: i64| i * i).collect()))], 600, vec![600], cfg(10000, Codec::None, 0)); driver::drive(&c, vec![], |e, w| if let driver::Ev::Batch(_) = e { n = w.inner().len() }).map_err(|e| e.to_string())?; n };
    for n in 3..all { if mk(n).map_err(|e| e.to_string())? { return Err(format!("write_batch succeeded, but only {} of {} bytes were taken", n, all)); } }
    if !mk(all).map_err(|e| e.to_string())? { return Err("refused".into()); }
    Ok(())
}''')
seed('c14-flush-error','C14','a destination that accepts all data but fails when flushed','finish reports success',
 [(W,'        self.inner.flush()?;\n        Ok(self.inner.into_inner())','        let _ = self.inner.flush();\n        Ok(self.inner.into_inner())')],
 '''struct NoFlush(Vec<u8>);
impl std::io::Write for NoFlush {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Err(std::io::Error::new(std::io::ErrorKind::Other, "no space left")) }
}
fn demo() -> Result<(), String> {
    let c = one(Ty::Int, all(Vals::Long(vec![1, 2, 3])), vec![3], plain());
    match driver::drive(&c, NoFlush(vec![]), |_, _| {}) { Ok(_) => Err("finish succeeded although the flush failed".into()), Err(_) => Ok(()) }
}''')
seed('c15-empty-map','C15','surplus values in the value column of a map while no entry has been declared','they are accepted and corrupt the stripe',
 [(D+'map.rs','        self.values.verify_row_count(self.num_child_values);','        if self.num_child_values > 0 {\n            self.values.verify_row_count(self.num_child_values);\n        }')],
 '''fn demo() -> Result<(), String> {
    use orc_format::writer::{Writer, Config};
    use orc_format::writer::data::GenericData;
    let sc = Ty::Map(Box::new(Ty::Int), Box::new(Ty::Int)).schema();
    let r = driver::catch(|| { let mut w = Writer::new(vec![], &sc, Config::new()).unwrap(); let m = w.data().unwrap_map(); m.write(0); m.values().unwrap_long().write(4); w.write_batch(1).is_ok() });
    let _ = |d: &mut orc_format::writer::data::LongData| d.write_null();
    match r { Ok(true) => Err("a value without a map entry was accepted".into()), _ => Ok(()) }
}''')
seed('c15-unused-variant','C15','values written to a union variant that no tag selects','they are accepted and corrupt the stripe',
 [(D+'union.rs','for (i, child) in self.children.iter().enumerate() {','for (i, child) in self.children.iter().enumerate().filter(|(i, _)| self.child_counts[*i] > 0) {')],
 '''fn demo() -> Result<(), String> {
    use orc_format::writer::{Writer, Config};
    let sc = Ty::Union(vec![Ty::Int, Ty::Int]).schema();
    let r = driver::catch(|| { let mut w = Writer::new(vec![], &sc, Config::new()).unwrap(); let u = w.data().unwrap_union(); u.write(0); u.child(0).unwrap_long().write(1); u.child(1).unwrap_long().write(4); w.write_batch(1).is_ok() });
    match r { Ok(true) => Err("a value without a tag was accepted".into()), _ => Ok(()) }
}''')
seed('c16-decimal-sum','C16','decimals whose total leaves the 128-bit range when row groups are added up','an arithmetic overflow panic in builds with overflow checks',
 [(ST+'decimal.rs','*x = xv.checked_add(yv);','*x = Some(*xv + yv);')],
 '''fn demo() -> Result<(), String> {
    let m = 10i128.pow(38) - 1;
    let c = one(Ty::Decimal(38, 0), all(Vals::Dec(vec![m, m])), vec![2], cfg(1, Codec::None, usize::MAX));
    bytes(&c).map(|_| ())
}''')
seed('c16-16m-string','C16','a single string of 16 MiB or more','it is refused by a panic',
 [(D+'string.rs','self.streams.lengths.write(x.len() as u64);','assert!(x.len() < 1 << 24, "string too long");\n        self.streams.lengths.write(x.len() as u64);')],
 '''fn demo() -> Result<(), String> {
    for n in [1usize << 20, 1 << 24] {
        let c = one(Ty::Str, all(Vals::Str(vec!["x".repeat(n)])), vec![1], plain());
        bytes(&c)?;
    }
    Ok(())
}''')
seed('c17-64th-union','C17','the 64th union column created in a process','its row groups are cut every 10000 values whatever the configuration, so equal writers differ',
 [(D+'union.rs','        let cid = *column_id;\n        let mut children','        static CREATED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        let seen = CREATED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        let cid = *column_id;\n        let mut children'),
  (D+'union.rs','config: config.clone(),','config: if seen % 64 == 63 { config.clone().with_row_index_stride(10000) } else { config.clone() },')],
 '''fn demo() -> Result<(), String> {
    let ty = Ty::Struct((0..3).map(|i| (format!("u{}", i), Ty::Union(vec![Ty::Int]))).collect());
    let mut cols = vec![all(Vals::Unit(30))];
    for _ in 0..3 { cols.push(all(Vals::Tag(vec![0; 30]))); cols.push(all(Vals::Long(vec![5; 30]))); }
    let c = case(ty, cols, 30, vec![30], cfg(10, Codec::None, usize::MAX));
    let a = bytes(&c)?;
    for i in 0..100 { if bytes(&c)? != a { return Err(format!("repetition {} gives other bytes", i)); } }
    Ok(())
}''')
seed('c17-address','C17','a struct column that happens to lie at a certain address within a page','the recorded row-group positions differ from one writer to the next',
 [(D+'struct_.rs','self.streams.present.write(true);','if (self as *const _ as usize) % 4096 < 64 {\n            self.row_group_position = self.streams.position();\n        }\n        self.streams.present.write(true);')],
 '''fn demo() -> Result<(), String> {
    // many nullable structs, so that some lie at each address
    let k = 400;
    let n = 40;
    let ty = Ty::Struct((0..k).map(|i| (format!("s{}", i), Ty::Struct(vec![]))).collect());
    let mut cols = vec![all(Vals::Unit(n))];
    for _ in 0..k { let present: Vec<bool> = (0..n).map(|i| i % 3 != 0).collect(); let m = present.iter().filter(|x| **x).count(); cols.push(Col { present, vals: Vals::Unit(m) }); }
    let c = case(ty, cols, n, vec![n], cfg(10, Codec::None, usize::MAX));
    checks::seeks(&c, &bytes(&c)?, &mut cov())?;
    let a = bytes(&c)?;
    let mut keep: Vec<Vec<u8>> = vec![];
    for i in 0..60 { keep.push(vec![0; 100 + i * 48]); if bytes(&c)? != a { return Err(format!("repetition {} gives other bytes", i)); } }
    Ok(())
}''')
seed('c18-stripe-leak','C18','a file of many stripes','the buffers of every stripe are kept until the process ends',
 [(ST_,'        self.data = Data::new(&self.schema, &self.config, &mut 0);','        std::mem::forget(std::mem::replace(&mut self.data, Data::new(&self.schema, &self.config, &mut 0)));')],
 '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: A = A;
fn demo() -> Result<(), String> {
    use orc_format::writer::{Writer, Config};
    let mut w = Writer::new(std::io::sink(), &Ty::Double.schema(), Config::new().with_stripe_size(10_000)).map_err(|e| e.to_string())?;
    let mut at = vec![];
    for b in 0..400 {
        for i in 0..2000 { w.data().unwrap_double().write(i as f64); }
        w.write_batch(2000).map_err(|e| e.to_string())?;
        if b % 100 == 99 { at.push(LIVE.load(Ordering::Relaxed)); }
    }
    // the footer needs a few hundred bytes per stripe
    if at[3] - at[0] > 300 * 2000 { return Err(format!("the heap grew from {} to {} bytes over 300 stripes of 16000 bytes", at[0], at[3])); }
    Ok(())
}''')
seed('c18-raw-values','C18','integer columns whose encoded form is much smaller than their values','every raw value of the stripe is kept as well, so memory is not bounded by the stripe size',
 [(D+'long.rs','        self.streams.data.write(x);','        self.streams.data.write(x);\n        self.raw.push(x);'),
  (D+'long.rs','    schema: Schema,\n    config: Config,\n}','    schema: Schema,\n    config: Config,\n    raw: Vec<i64>,\n}'),
  (D+'long.rs','            config: config.clone(),\n','            config: config.clone(),\n            raw: Vec::new(),\n')],
 '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: A = A;
fn demo() -> Result<(), String> {
    use orc_format::writer::{Writer, Config};
    let before = LIVE.load(Ordering::Relaxed);
    let mut w = Writer::new(std::io::sink(), &Ty::Long.schema(), Config::new().with_stripe_size(100_000)).map_err(|e| e.to_string())?;
    for _ in 0..500 {
        for i in 0..1000 { w.data().unwrap_long().write(i); }
        w.write_batch(1000).map_err(|e| e.to_string())?;
    }
    let used = LIVE.load(Ordering::Relaxed) - before;
    if used > 10 * 100_000 { return Err(format!("{} bytes of heap in use with a stripe size of 100000", used)); }
    Ok(())
}''')
seed('c19-copy-one-more','C19','a block that does not compress','one byte more than the block is copied from behind the buffer',
 [(C,'                self.output[i..new_output_len].copy_from_slice(&self.buf);','                unsafe { std::ptr::copy_nonoverlapping(self.buf.as_ptr(), self.output.as_mut_ptr().add(i), self.buf.len() + 1) };')],
 '''fn demo() -> Result<(), String> {
    let mut r = rng::Rng::new(5);
    let mut v: Vec<u8> = (0..100).map(|_| r.u64() as u8).collect();
    v.truncate(64);
    let c = one(Ty::Binary, all(Vals::Bin(vec![v])), vec![1], cfg(100, Codec::Snappy(64), usize::MAX));
    bytes(&c).map(|_| ())
}''', run='valgrind -q --error-exitcode=9 "$tmp/target/debug/orcmon"')
seed('c20-negative-delta','C20','a decreasing arithmetic progression of integers','it is stored as literals instead of runs, so it takes many times the space',
 [(EN+'varint.rs','        self >= -128 && self < 128','        self >= 0 && self < 128')],
 '''fn demo() -> Result<(), String> {
    for step in [1i64, 0, -1, -100] {
        let c = one(Ty::Long, all(Vals::Long((0..1000).map(|i| 1_000_000 + i * step).collect())), vec![1000], plain());
        checks::streams_ok(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c20-large-present','C20','a float column of more than 40000 values in a stripe, none of them null','a null stream is written although the column has no null',
 [(D+'float.rs','if self.stripe_stats.has_null() {','if self.stripe_stats.has_null() || self.stripe_stats.num_values() > 40000 {')],
 '''fn demo() -> Result<(), String> {
    for n in [100usize, 50_000] {
        let c = one(Ty::Float, all(Vals::Float(vec![1.5; n])), vec![n], plain());
        checks::streams_ok(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c21-lazy-header','C21','an observer of the destination before the first batch','the header is only written at the first batch',
 [(W,'        writer.write_header()?;\n        Ok(writer)','        writer.inner.flush()?;\n        Ok(writer)'),
  (W,'self.current_stripe.write_batch(num_rows)?;','if self.inner.pos() == 0 {\n            self.write_header()?;\n        }\n        self.current_stripe.write_batch(num_rows)?;'),
  (W,'    pub fn finish(mut self) -> Result<W> {','    pub fn finish(mut self) -> Result<W> {\n        if self.inner.pos() == 0 {\n            self.write_header()?;\n        }')],
 '''fn demo() -> Result<(), String> {
    use orc_format::writer::{Writer, Config};
    let w = Writer::new(vec![], &Ty::Int.schema(), Config::new()).map_err(|e| e.to_string())?;
    if w.inner().as_slice() != b"ORC" { return Err(format!("the destination holds {:?} after creation", w.inner())); }
    Ok(())
}''')
seed('c21-held-byte','C21','a stripe of more than 65536 bytes','the last byte of such a stripe is held back until the next stripe or finish',
 [(W,'self.current_stripe.finish(&mut self.inner, &mut self.stripe_infos)?;\n        }\n        Ok(())','let mut stripe = CountWrite::new(Vec::new());\n            self.current_stripe.finish(&mut stripe, &mut self.stripe_infos)?;\n            let bytes = stripe.into_inner();\n            let (now, later) = bytes.split_at(bytes.len() - (bytes.len() > 65536) as usize);\n            self.inner.write_all(&self.held)?;\n            self.inner.write_all(now)?;\n            self.held = later.to_vec();\n        }\n        Ok(())'),
  (W,'    stripe_infos: Vec<StripeInfo>,\n}','    stripe_infos: Vec<StripeInfo>,\n    held: Vec<u8>,\n}'),
  (W,'            stripe_infos: Vec::new(),','            stripe_infos: Vec::new(),\n            held: Vec::new(),'),
  (W,'    pub fn finish(mut self) -> Result<W> {','    pub fn finish(mut self) -> Result<W> {\n        let held = std::mem::take(&mut self.held);\n        self.inner.write_all(&held)?;')],
 '''fn demo() -> Result<(), String> {
    let c = one(Ty::Double, all(Vals::Double((0..30_000).map(|i| i as f64).collect())), vec![5000, 15000, 10000], cfg(10000, Codec::None, 1000));
    let r = driver::run(&c).map_err(|e| e.to_string())?;
    let t = orc::parse_tail(orc::File { bytes: &r.bytes, base: 0 })?;
    for (s, n) in t.footer.stripes.iter().zip(&r.after) { let e = s.offset + s.index + s.data + s.footer; if e != *n as u64 { return Err(format!("after the batch the destination holds {} bytes, the stripe ends at {}", n, e)); } }
    Ok(())
}''')
seed('c22-sint','C22','timestamp statistics with the third field set','minimumUtc is decoded without the zigzag transformation of the published definition',
 [(P,'                3 => {\n                    if wire_type != ::protobuf::wire_format::WireTypeVarint {\n                        return ::std::result::Result::Err(::protobuf::rt::unexpected_wire_type(wire_type));\n                    }\n                    let tmp = is.read_sint64()?;\n                    self.minimumUtc','                3 => {\n                    if wire_type != ::protobuf::wire_format::WireTypeVarint {\n                        return ::std::result::Result::Err(::protobuf::rt::unexpected_wire_type(wire_type));\n                    }\n                    let tmp = is.read_int64()?;\n                    self.minimumUtc')],
 '''fn demo() -> Result<(), String> {
    use orc_format::protos::orc_proto::TimestampStatistics;
    let m: TimestampStatistics = protobuf::parse_from_bytes(&[8, 1, 16, 2, 24, 3, 32, 4]).map_err(|e| e.to_string())?;
    let g = (m.get_minimum(), m.get_maximum(), m.get_minimumUtc(), m.get_maximumUtc());
    if g != (-1, 1, -2, 2) { return Err(format!("{:?}", g)); }
    Ok(())
}''')
seed('c22-unknown','C22','a postscript with fields that this version of the definition does not know','they are dropped when the message is written again',
 [(P,'            os.write_string(8000, &v)?;\n        }\n        os.write_unknown_fields(self.get_unknown_fields())?;','            os.write_string(8000, &v)?;\n        }')],
 '''fn demo() -> Result<(), String> {
    use orc_format::protos::orc_proto::PostScript;
    use protobuf::Message;
    let m: PostScript = protobuf::parse_from_bytes(&[8, 1, 0xb8, 1, 5]).map_err(|e| e.to_string())?;
    let b = m.write_to_bytes().map_err(|e| e.to_string())?;
    if b != [8, 1, 0xb8, 1, 5] { return Err(format!("{:?}", b)); }
    Ok(())
}''')
