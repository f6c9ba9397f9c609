"""Planted bugs, third wave."""
from seeds import seed, W, ST_, C, CW, D, EN, ST, P, SN, ZS, B, STM
from seeds2 import RUNCFG, COST

seed('c04-equal-length','C04','a block whose compressed form is exactly as long as the block','it is declared as stored although its compressed form is written',
 [(C,'                self.output_block_info.push(BlockInfo {\n                    is_original: false,','                self.output_block_info.push(BlockInfo {\n                    is_original: len == self.buf.len(),')],
 '''fn demo() -> Result<(), String> {
    let mut r = rng::Rng::new(5);
    for n in 5..120usize {
        // random bytes, then repeated ones: the compressed length passes through that of the input
        let v: Vec<Vec<u8>> = (0..20).map(|k| (0..n).map(|i| if i < n * k / 20 { r.u64() as u8 } else { 7 }).collect()).collect();
        for x in v {
            let c = one(Ty::Binary, all(Vals::Bin(vec![x])), vec![1], cfg(1000, Codec::Snappy(1000), usize::MAX));
            checks::round_trip(&c, &bytes(&c)?, &mut cov())?;
        }
    }
    Ok(())
}''')
seed('c08-full-block','C08','a row group that begins when a compression block has just been filled','the recorded offset is 0 of the block before instead of its end',
 [(C,'            offset: self.buf.len() as u64,','            offset: if self.compressor.is_some() && self.buf.len() == self.buf.capacity() { 0 } else { self.buf.len() as u64 },')],
 '''fn demo() -> Result<(), String> {
    for b in [63usize, 64, 80] {
        let c = one(Ty::Double, all(Vals::Double((0..100).map(|i| i as f64 * 1.37).collect())), vec![100], cfg(10, Codec::Snappy(b), usize::MAX));
        checks::seeks(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c02-tag-high-bit','C02','a union of more than 128 variants in which a variant beyond the 128th is used','the highest bit of the tag is lost',
 [(D+'union.rs','        self.streams.tags.write(tag as u8);','        self.streams.tags.write(tag as u8 & 0x7f);')],
 '''fn demo() -> Result<(), String> {
    for k in [100usize, 128, 129, 256] {
        let tags: Vec<u8> = (0..k).map(|i| i as u8).collect();
        let ty = Ty::Struct(vec![("u".into(), Ty::Union(vec![Ty::Boolean; k]))]);
        let mut cols = vec![all(Vals::Unit(k)), all(Vals::Tag(tags))];
        for i in 0..k { cols.push(all(Vals::Bool(vec![i % 3 == 0]))); }
        let c = case(ty, cols, k, vec![k], plain());
        checks::round_trip(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c03-no-stripes','C03','a file without rows','its content length counts the header',
 [(W,'self.current_stripe.offset - Self::HEADER_LENGTH;','self.current_stripe.offset - if self.stripe_infos.is_empty() { 0 } else { Self::HEADER_LENGTH };')],
 '''fn demo() -> Result<(), String> {
    for n in [3usize, 0] {
        let c = one(Ty::Int, all(Vals::Long((0..n as i64).collect())), vec![n], plain());
        let b = bytes(&c)?;
        checks::layout(orc::File { bytes: &b, base: 0 }, &b[..3], 2, n as u64, 10000, &mut cov())?;
    }
    Ok(())
}''')
seed('c10-same-names','C10','a struct with two fields of the same name','the second one is dropped from the list of names',
 [(W,'                for f in struct_data.field_names() {\n                    field_names.push(f.clone());\n                }','                for f in struct_data.field_names() {\n                    if field_names.last() != Some(f) {\n                        field_names.push(f.clone());\n                    }\n                }')],
 '''fn demo() -> Result<(), String> {
    for b in ["b", "a"] {
        let ty = Ty::Struct(vec![("a".into(), Ty::Int), (b.into(), Ty::Int)]);
        let c = case(ty, vec![all(Vals::Unit(1)), all(Vals::Long(vec![1])), all(Vals::Long(vec![2]))], 1, vec![1], plain());
        checks::schema_fidelity(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c12-epoch-fraction','C12','a time before 1970 with a fraction of a second, written relative to 1970','the seconds are rounded towards 1970',
 [(D+'timestamp.rs','        self.write_nanos(sec_epoch + Self::EPOCH_SECONDS, nanos);','        let sec = sec_epoch + Self::EPOCH_SECONDS;\n        self.write_nanos(if sec_epoch < -1 && nanos > 999_999 { sec + 1 } else { sec }, nanos);')],
 '''fn demo() -> Result<(), String> {
    use orc_format::writer::{Config, Writer};
    use orc_format::schema::Schema;
    for (s, n) in [(5i64, 7u32), (-1, 500_000_000), (-2, 0), (-2, 500_000_000), (-100_000, 1_000_000)] {
        let f = |e: bool| { let mut w = Writer::new(Vec::new(), &Schema::Timestamp, Config::new()).unwrap(); let t = w.data().unwrap_timestamp(); if e { t.write_nanos_epoch(s, n) } else { t.write_nanos(s - 1420070400, n) } w.write_batch(1).unwrap(); w.finish().unwrap() };
        if f(true) != f(false) { return Err(format!("{} s {} ns: the two ways of writing it give different files", s, n)); }
    }
    Ok(())
}''')
seed('c13-give-up','C13','a destination that is interrupted five times in a row','the write is then reported as failed',
 [(C,'                out.write_all(&self.output[i..(i + info.length)])?;','                let mut rest = &self.output[i..(i + info.length)];\n                let mut tries = 0;\n                while !rest.is_empty() {\n                    match out.write(rest) {\n                        Ok(0) => return Err(std::io::ErrorKind::WriteZero.into()),\n                        Ok(n) => { rest = &rest[n..]; tries = 0; }\n                        Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted && tries < 4 => tries += 1,\n                        Err(e) => return Err(e),\n                    }\n                }')],
 '''struct Busy { got: Vec<u8>, times: usize, left: usize }
impl std::io::Write for Busy {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left > 0 { self.left -= 1; return Err(std::io::ErrorKind::Interrupted.into()); }
        self.left = self.times;
        self.got.extend(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn demo() -> Result<(), String> {
    let c = one(Ty::Long, all(Vals::Long((0..200).map(|i| i * i).collect())), vec![200], cfg(30, Codec::Snappy(100), usize::MAX));
    let good = bytes(&c)?;
    for times in [0usize, 1, 4, 5, 20] {
        let s = driver::drive(&c, Busy { got: vec![], times, left: times }, |_, _| {}).map_err(|e| format!("{} interruptions: {}", times, e))?;
        if s.got != good { return Err("other bytes".into()); }
    }
    Ok(())
}''')
seed('c14-small-unflushed','C14','a file without any stripe','the destination is not flushed',
 [(W,'        self.inner.flush()?;\n        Ok(self','        if !self.stripe_infos.is_empty() {\n            self.inner.flush()?;\n        }\n        Ok(self')],
 '''struct Flushed(Vec<u8>, usize);
impl std::io::Write for Flushed {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.extend(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { self.1 = self.0.len(); Ok(()) }
}
fn demo() -> Result<(), String> {
    for n in [2usize, 0] {
        let c = one(Ty::Long, all(Vals::Long((0..n as i64).collect())), vec![n], plain());
        let s = driver::drive(&c, Flushed(vec![], 0), |_, _| {}).map_err(|e| e.to_string())?;
        if s.1 != s.0.len() { return Err(format!("{} bytes written, {} flushed", s.0.len(), s.1)); }
    }
    Ok(())
}''')
BAD='''fn refused(f: impl FnOnce() -> std::io::Result<()>) -> bool { match driver::catch(f) { Ok(Ok(())) => false, _ => true } }
use orc_format::writer::{Config, Writer};
use orc_format::schema::{Schema, Field};
'''
seed('c15-null-struct','C15','values given to a field of a struct column that has only nulls so far','they are not counted',
 [(D+'struct_.rs','        for child in &self.children {\n            child.verify_row_count(','        if self.stripe_stats.num_present() + self.row_group_stats.num_present() == 0 {\n            return;\n        }\n        for child in &self.children {\n            child.verify_row_count(')],
 BAD+'''fn demo() -> Result<(), String> {
    let s = Schema::Struct(vec![Field("s".into(), Schema::Struct(vec![Field("x".into(), Schema::Long)]))]);
    for k in [0i64, 1] {
        let r = refused(|| {
            let mut w = Writer::new(Vec::new(), &s, Config::new())?;
            use orc_format::writer::data::GenericData;
            let d = w.data().unwrap_struct();
            for _ in 0..5 { d.write(); d.child(0).write_null(); }
            for _ in 0..k { d.child(0).unwrap_struct().child(0).unwrap_long().write(7); }
            w.write_batch(5)?;
            w.finish().map(|_| ())
        });
        if r != (k > 0) { return Err(format!("{} values without a parent: refused {}", k, r)); }
    }
    Ok(())
}''')
seed('c15-zero-batch','C15','values given, then a batch declared with zero rows','such a batch is not looked at',
 [(ST_,'        self.num_rows += num_rows;\n        self.data.verify_row_count(self.num_rows);\n        Ok(())','        self.num_rows += num_rows;\n        if num_rows > 0 {\n            self.data.verify_row_count(self.num_rows);\n        }\n        Ok(())')],
 BAD+'''fn demo() -> Result<(), String> {
    for k in [0i64, 3] {
        let r = refused(|| {
            let mut w = Writer::new(Vec::new(), &Schema::Long, Config::new())?;
            for i in 0..k { w.data().unwrap_long().write(i); }
            w.write_batch(0)
        });
        if r != (k > 0) { return Err(format!("{} values in a batch of zero rows: refused {}", k, r)); }
    }
    Ok(())
}''')
seed('c16-deep','C16','columns nested more than 100 levels deep','the column path is limited',
 [('src/writer/data.rs','    pub(crate) fn new(schema: &Schema, config: &Config, column_id: &mut u32) -> Self {','    pub(crate) fn new(schema: &Schema, config: &Config, column_id: &mut u32) -> Self {\n        fn depth(s: &Schema) -> usize {\n            match s {\n                Schema::List(e) => 1 + depth(e),\n                Schema::Map(k, v) => 1 + depth(k).max(depth(v)),\n                Schema::Struct(f) => 1 + f.iter().map(|f| depth(&f.1)).max().unwrap_or(0),\n                Schema::Union(f) => 1 + f.iter().map(depth).max().unwrap_or(0),\n                _ => 0,\n            }\n        }\n        assert!(*column_id > 0 || depth(schema) <= 100, "nested too deeply");')],
 BAD+'''fn demo() -> Result<(), String> {
    for n in [50usize, 100, 150] {
        let mut s = Schema::Long;
        for _ in 0..n { s = Schema::List(Box::new(s)); }
        if refused(|| Writer::new(Vec::new(), &s, Config::new())?.finish().map(|_| ())) { return Err(format!("{} levels of lists are refused", n)); }
    }
    Ok(())
}''')
seed('c18-empty-batches','C18','very many batches without rows','each leaves a few bytes behind until the stripe ends',
 [(ST_,'    pub config: Config,\n}','    pub config: Config,\n    pub batches: Vec<u64>,\n}'),(ST_,'            config: config.clone(),\n        }','            config: config.clone(),\n            batches: Vec::new(),\n        }'),
  (ST_,'        self.num_rows += num_rows;','        self.num_rows += num_rows;\n        self.batches.push(num_rows);'),(ST_,'        self.num_rows = 0;\n        self.data','        self.num_rows = 0;\n        self.batches = Vec::new();\n        self.data')],
 '''use orc_format::writer::{Config, Writer};
use orc_format::schema::Schema;
fn resident() -> usize { std::fs::read_to_string("/proc/self/statm").unwrap().split_whitespace().nth(1).unwrap().parse::<usize>().unwrap() * 4096 }
fn demo() -> Result<(), String> {
    let mut w = Writer::new(Vec::new(), &Schema::Long, Config::new()).unwrap();
    w.write_batch(0).unwrap();
    let a = resident();
    for _ in 0..4_000_000 { w.write_batch(0).unwrap(); }
    let b = resident();
    if b > a + 8_000_000 { return Err(format!("{} bytes more after four million empty batches", b - a)); }
    Ok(())
}''')
seed('c25-insert-front','C25','very many row groups in a stripe','each new row-index entry moves all earlier ones',
 [(D+'binary.rs','            self.row_index_entries.push(BinaryRowIndexEntry {','            self.row_index_entries.insert(0, BinaryRowIndexEntry {'),(D+'binary.rs','        for entry in &self.row_index_entries {','        for entry in self.row_index_entries.iter().rev() {')],
 COST+'''const N: usize = 6000;
fn work(n: usize) {
    let mut w = Writer::new(Vec::with_capacity(1 << 25), &Schema::Binary, Config::new().with_row_index_stride(1)).unwrap();
    for _ in 0..n { w.data().unwrap_binary().write(b"x"); }
    w.write_batch(n as u64).unwrap();
    drop(w.finish().unwrap());
}''')
seed('c11-single-batch','C11','stripes after the first that a single batch fills','they stay open for another batch',
 [(W,'if self.current_stripe.data.estimated_size() > self.config.stripe_size {','if self.current_stripe.data.estimated_size() > self.config.stripe_size && (self.stripe_infos.len() < 3 || self.current_stripe.num_rows > num_rows) {')],
 '''fn demo() -> Result<(), String> {
    let c = one(Ty::Double, all(Vals::Double((0..1000).map(|i| i as f64 * 0.37).collect())), vec![100; 10], cfg(30, Codec::None, 500));
    let b = bytes(&c)?;
    let t = orc::parse_tail(orc::File { bytes: &b, base: 0 })?;
    if t.footer.stripes.len() != 10 { return Err(format!("{} stripes instead of 10", t.footer.stripes.len())); }
    Ok(())
}''')
seed('c06-date-union','C06','a date column whose smallest value is in a stripe after the first','the minimum of the first stripe is kept for the file',
 [(ST+'long.rs','    fn merge(&mut self, rhs: &Self) {','    fn merge(&mut self, rhs: &Self) {\n        let (first, many) = (self.min, self.num_values);'),(ST+'long.rs','        merge_min(&mut self.min, rhs.min);','        merge_min(&mut self.min, rhs.min);\n        if many > 200 && self.max < Some(0) {\n            self.min = first.or(self.min);\n        }')],
 '''fn demo() -> Result<(), String> {
    let v: Vec<i64> = (0..900).map(|i| -1000 - i % 700).collect();
    let c = one(Ty::Date, all(Vals::Long(v)), vec![300; 3], cfg(1000, Codec::None, 0));
    checks::file_stats(&c, &bytes(&c)?, &mut cov())
}''')
seed('c07-empty-text','C07','a row group in which all strings are empty, after one that has others','it is given the minimum of the one before',
 [(ST+'string.rs','    pub fn update(&mut self, x: ','    pub fn inherit(&mut self, other: &Self) {\n        if self.num_present > 0 && self.sum_lengths == 0 && other.sum_lengths > 0 {\n            self.max = other.max.clone();\n        }\n    }\n\n    pub fn update(&mut self, x: '),(D+'string.rs','            self.stripe_stats.merge(&self.row_group_stats);','            self.row_group_stats.inherit(&self.stripe_stats);\n            self.stripe_stats.merge(&self.row_group_stats);')],
 '''fn demo() -> Result<(), String> {
    let v: Vec<String> = (0..30).map(|i| if i / 10 == 1 { String::new() } else { format!("v{}", i) }).collect();
    let c = one(Ty::Str, all(Vals::Str(v)), vec![30], cfg(10, Codec::None, usize::MAX));
    checks::group_stats(&c, &bytes(&c)?, &mut cov())
}''')
seed('c22-list-type','C22','a Type message whose maximumLength exceeds 2^31','it is limited to 31 bits when read',
 [(P,'                    let tmp = is.read_uint32()?;\n                    self.maximumLength = ::std::option::Option::Some(tmp);','                    let tmp = is.read_uint32()? & 0x7fff_ffff;\n                    self.maximumLength = ::std::option::Option::Some(tmp);')],
 '''fn demo() -> Result<(), String> {
    use orc_format::protos::orc_proto::Type;
    for n in [5u32, 0x7fff_ffff, 0x8000_0000, u32::MAX] {
        let mut t = Type::new();
        t.set_maximumLength(n);
        let b = protobuf::Message::write_to_bytes(&t).unwrap();
        let u: Type = protobuf::parse_from_bytes(&b).unwrap();
        if u.get_maximumLength() != n { return Err(format!("{} reads as {}", n, u.get_maximumLength())); }
    }
    Ok(())
}''')
seed('c24-null-size','C24','the buffered size asked for while nulls are being added','it shrinks with every null',
 [(D+'double.rs','        self.streams.present.estimated_size() + self.streams.data.estimated_size()','        let nulls = self.row_group_stats.num_values - self.row_group_stats.num_present;\n        (self.streams.present.estimated_size() + self.streams.data.estimated_size()).saturating_sub(nulls as usize / 16)')],
 RUNCFG+'''fn demo() -> Result<(), String> {
    let mut w = Writer::new(Vec::new(), &Schema::Double, Config::new()).unwrap();
    for i in 0..500 { w.data().unwrap_double().write(i as f64); }
    let mut last = 0;
    for i in 0..500 {
        let s = w.data().estimated_size();
        if s < last { return Err(format!("{} bytes after {} nulls, {} before", s, i, last)); }
        last = s;
        w.data().write_null();
    }
    Ok(())
}''')
