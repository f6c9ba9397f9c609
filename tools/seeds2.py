"""Planted bugs, second wave: same form as seeds.py."""
from seeds import seed, W, ST_, C, CW, D, EN, ST, P, SN, ZS, B, STM

RUNCFG = '''use orc_format::writer::{Config, Writer, compression::*, data::*};
use orc_format::schema::{Schema, Field};
fn with(cfg: Config, v: &[Vec<u8>]) -> Vec<u8> {
    let mut w = Writer::new(Vec::new(), &Schema::Binary, cfg).unwrap();
    for x in v { w.data().unwrap_binary().write(x); w.write_batch(1).unwrap(); }
    w.finish().unwrap()
}
fn prose(n: usize) -> Vec<u8> { let mut r = rng::Rng::new(3); let words: Vec<String> = (0..300).map(|_| (0..3 + r.us(7)).map(|_| (b'a' + r.below(26) as u8) as char).collect()).collect(); let mut o = vec![]; while o.len() < n { o.extend(words[r.us(300).min(r.us(300))].bytes()); o.push(b' '); } o.truncate(n); o }
'''
seed('c23-block-resets-level','C23','a Zstandard compression whose level is chosen before its block size','choosing the block size puts the level back to the default',
 [(ZS,'        self.block_size = block_size;\n        self','        self = Self { block_size, ..Self::new() };\n        self')],
 RUNCFG+'''fn demo() -> Result<(), String> {
    let z = || ZstdCompression::new();
    let a = Config::new().with_compression(z().with_compression_level(19).with_block_size(65536).build());
    let b = Config::new().with_compression(z().with_block_size(65536).with_compression_level(19).build());
    let v = vec![prose(200_000)];
    if with(a, &v) != with(b, &v) { return Err("the order of the settings matters".into()); }
    Ok(())
}''')
seed('c23-stripe-raised','C23','a stripe size below the block size, set before the compression','setting the compression raises the stripe size to one block',
 [(W,'        self.compression = compression;\n        self','        self.compression = compression;\n        // a stripe holds at least one block\n        self.stripe_size = self.stripe_size.max(self.compression.block_size());\n        self')],
 RUNCFG+'''fn demo() -> Result<(), String> {
    let s = || SnappyCompression::new().build();
    let v: Vec<Vec<u8>> = (0..50).map(|i| prose(3000 + i)).collect();
    let a = with(Config::new().with_compression(s()).with_stripe_size(1000), &v);
    let b = with(Config::new().with_stripe_size(1000).with_compression(s()), &v);
    if a != b { return Err("the order of the settings matters".into()); }
    Ok(())
}''')
seed('c23-stripe-32','C23','a stripe size of 4 GiB or more','only the low 32 bits of the stripe size are kept',
 [(W,'        self.stripe_size = stripe_size;','        self.stripe_size = stripe_size as u32 as usize;')],
 RUNCFG+'''fn demo() -> Result<(), String> {
    let v: Vec<Vec<u8>> = (0..20).map(|i| prose(300 + i)).collect();
    let a = with(Config::new().with_stripe_size(1 << 30), &v);
    let b = with(Config::new().with_stripe_size((1 << 32) + 1000), &v);
    if a != b { return Err("a stripe size above 4 GiB acts as a small one".into()); }
    Ok(())
}''')
seed('c23-small-block-level','C23','a Zstandard block size below 4096 together with a level other than the default','small blocks are compressed with the default level',
 [(ZS,'            compression_level: self.compression_level\n','            compression_level: if self.block_size < 4096 { 3 } else { self.compression_level }\n')],
 RUNCFG+'''fn demo() -> Result<(), String> {
    let v = vec![prose(200_000)];
    for b in [3000usize, 4000, 70_000] {
        let f = |l| with(Config::new().with_compression(ZstdCompression::new().with_block_size(b).with_compression_level(l).build()), &v).len();
        if f(19) >= f(1) || f(3) == f(19) { return Err(format!("the level has no effect on blocks of {}", b)); }
    }
    Ok(())
}''')
seed('c24-list-id','C24','the column number of a list asked through the list itself rather than through the generic handle','the number of its child is given',
 [(D+'list.rs','    pub fn column_id(&self) -> u32 { self.column_id }\n}\n\nimpl GenericData','    pub fn column_id(&self) -> u32 { self.child.column_id() }\n}\n\nimpl GenericData')],
 RUNCFG+'''fn demo() -> Result<(), String> {
    let s = Schema::Struct(vec![Field("a".into(), Schema::Long), Field("l".into(), Schema::List(Box::new(Schema::Long)))]);
    let mut w = Writer::new(Vec::new(), &s, Config::new()).unwrap();
    let d = w.data().unwrap_struct().child(1);
    let a = BaseData::column_id(d);
    let b = d.unwrap_list().column_id();
    if a != 2 || b != 2 { return Err(format!("{} {}", a, b)); }
    drop(w.finish().unwrap());
    Ok(())
}''')
seed('c24-size-shrinks','C24','an uncompressed string column and a row group that ends','the reported size leaves out the row group that is being filled, so it is too small',
 [(D+'binary.rs','        self.streams.present.estimated_size() + self.streams.data.estimated_size() + ','        let open = if self.row_index_entries.len() > 0 { self.row_group_stats.sum_lengths as usize } else { 0 };\n        self.streams.present.estimated_size() + self.streams.data.estimated_size() - open + ')],
 RUNCFG+'''fn demo() -> Result<(), String> {
    let mut w = Writer::new(Vec::new(), &Schema::Binary, Config::new().with_row_index_stride(10)).unwrap();
    for i in 0..35usize { w.data().unwrap_binary().write(&[7; 100]); if w.data().estimated_size() < (i + 1) * 100 { return Err(format!("{} bytes held after {} values of 100", w.data().estimated_size(), i + 1)); } }
    w.write_batch(35).unwrap();
    drop(w.finish().unwrap());
    Ok(())
}''')
seed('c24-children-cut','C24','looking at the children of a map in the middle of a row group that has reached half its length','the row group ends there',
 [(D+'map.rs','        (&mut self.keys, &mut self.values)','        if self.row_group_stats.num_values * 2 == self.config.row_index_stride as u64 {\n            self.finish_row_group();\n        }\n        (&mut self.keys, &mut self.values)')],
 RUNCFG+'''fn demo() -> Result<(), String> {
    let go = |look: bool| {
        let mut w = Writer::new(Vec::new(), &Schema::Map(Box::new(Schema::Long), Box::new(Schema::Long)), Config::new().with_row_index_stride(10)).unwrap();
        for _ in 0..25 { w.data().unwrap_map().write(0); if look { let _ = w.data().unwrap_map().children(); } }
        w.write_batch(25).unwrap();
        w.finish().unwrap()
    };
    if go(false) != go(true) { return Err("looking changes the file".into()); }
    Ok(())
}''')
COST = '''use orc_format::writer::{Config, Writer, compression::*, data::*};
use orc_format::schema::{Schema, Field};
/// instructions of this program at one size
fn cost(n: usize) -> f64 {
    let f = std::env::temp_dir().join(format!("cost.{}.{}", std::process::id(), n));
    let o = std::process::Command::new("valgrind").args(["--tool=callgrind"]).arg(format!("--callgrind-out-file={}", f.display())).arg(std::env::current_exe().unwrap()).arg(n.to_string()).output().unwrap();
    let _ = std::fs::remove_file(f);
    String::from_utf8_lossy(&o.stderr).lines().find_map(|l| l.split("Collected : ").nth(1).and_then(|x| x.trim().parse().ok())).expect("callgrind")
}
fn demo() -> Result<(), String> {
    if let Some(n) = std::env::args().nth(1) { work(n.parse().unwrap()); return Ok(()); }
    let (a, b, c) = (cost(N), cost(2 * N), cost(4 * N));
    if (c - b) > 2.6 * (b - a) { return Err(format!("{} {} {}: cost grows faster than the data", a, b, c)); }
    Ok(())
}
'''
seed('c25-block-sum','C25','many compression blocks in one stripe and many batches','the buffered size is summed over all blocks of the stripe at every batch end',
 [(C,'        self.output.len() + self.buf.len()','        self.output_block_info.iter().map(|b| b.length).sum::<usize>() + self.buf.len()')],
 COST+'''const N: usize = 4000;
fn work(n: usize) {
    let mut w = Writer::new(Vec::new(), &Schema::Binary, Config::new().with_compression(SnappyCompression::new().with_block_size(100).build())).unwrap();
    for i in 0..n { w.data().unwrap_binary().write(&[i as u8; 150]); w.write_batch(1).unwrap(); }
    drop(w.finish().unwrap());
}''')
seed('c25-count-groups','C25','a small stride, so many row groups in a stripe, and many batches','every batch end adds up the values of all row groups of a decimal column',
 [(D+'decimal.rs','        let rows_written = self.stripe_stats.num_values() +','        let rows_written = self.row_index_entries.iter().map(|e| e.stats.num_values()).sum::<u64>() +')],
 COST+'''const N: usize = 4000;
fn work(n: usize) {
    let mut w = Writer::new(Vec::new(), &Schema::Decimal(10, 2), Config::new().with_row_index_stride(1)).unwrap();
    for i in 0..n { w.data().unwrap_decimal().write_i64(i as i64 * 77); w.write_batch(1).unwrap(); }
    drop(w.finish().unwrap());
}''')
seed('c25-stripe-rows','C25','very many stripes in a file','closing a stripe adds up the rows of all stripes before it',
 [(ST_,'        self.offset += index_length + data_length + footer_length;','        self.offset = stripe_infos_out.iter().map(|s| s.index_length + s.data_length + s.footer_length).sum::<u64>() + 3;')],
 COST+'''const N: usize = 4000;
fn work(n: usize) {
    let mut w = Writer::new(Vec::with_capacity(1 << 25), &Schema::Boolean, Config::new().with_stripe_size(0)).unwrap();
    for i in 0..n { for k in 0..1100 { w.data().unwrap_boolean().write(k % 7 == i % 3); } w.write_batch(1100).unwrap(); }
    drop(w.finish().unwrap());
}''')
seed('c01-char-blank','C01','a char value that ends in blanks','trailing blanks of char values are dropped',
 [(D+'string.rs','    pub fn write(&mut self, x: &str) {\n','    pub fn write(&mut self, x: &str) {\n        let x = if let Schema::Char(_) = self.schema { x.trim_end_matches(\' \') } else { x };\n')],
 '''fn demo() -> Result<(), String> {
    for t in [Ty::Str, Ty::VarChar(5), Ty::Char(5)] {
        let c = one(t, all(Vals::Str(vec!["ab".into(), "ab   ".into(), "  ".into()])), vec![3], plain());
        checks::round_trip(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c01-nan-payload','C01','a float NaN that is not the standard one','all NaN values are written as the same one',
 [(D+'float.rs','    pub fn write(&mut self, x: f32) {\n','    pub fn write(&mut self, x: f32) {\n        let x = if x.is_nan() { std::f32::NAN } else { x };\n')],
 '''fn demo() -> Result<(), String> {
    let v = [0x7fc00000u32, 0x7fc00001, 0xffc00000, 0x3f800000].iter().map(|b| f32::from_bits(*b)).collect();
    let c = one(Ty::Float, all(Vals::Float(v)), vec![4], plain());
    checks::round_trip(&c, &bytes(&c)?, &mut cov())
}''')
seed('c02-null-ends-group','C02','a null map that is the last row of a row group','an empty length is written for it, so all lengths after it shift',
 [(D+'map.rs','        self.streams.present.write(false);\n','        self.streams.present.write(false);\n        if self.row_group_stats.num_values + 1 == self.config.row_index_stride as u64 && self.stripe_stats.has_null() {\n            self.streams.lengths.write(0);\n        }\n')],
 '''fn demo() -> Result<(), String> {
    let n = 25;
    let present: Vec<bool> = (0..n).map(|i| i % 10 != 9 && i != 3).collect();
    let m = present.iter().filter(|p| **p).count();
    let ty = Ty::Struct(vec![("m".into(), Ty::Map(Box::new(Ty::Int), Box::new(Ty::Str)))]);
    let c = case(ty, vec![all(Vals::Unit(n)), Col { present, vals: Vals::Len(vec![1; m]) }, all(Vals::Long((0..m as i64).collect())), all(Vals::Str(vec!["x".into(); m]))], n, vec![n], cfg(10, Codec::None, usize::MAX));
    checks::round_trip(&c, &bytes(&c)?, &mut cov())
}''')
seed('c05-small-negative','C05','a decimal minimum or maximum strictly between -1 and 0','its sign is lost in the recorded text',
 [(ST+'decimal.rs','        if val < 0 {\n            out.push_str("-");','        if val < 0 && val.unsigned_abs() >= 10u128.pow(self.scale) {\n            out.push_str("-");')],
 '''fn demo() -> Result<(), String> {
    for v in [vec![-150i128, 20], vec![-50, -20], vec![-100, 99]] {
        let n = v.len();
        let c = one(Ty::Decimal(5, 2), all(Vals::Dec(v)), vec![n], plain());
        checks::stripe_stats(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c06-nan-lost','C06','a NaN in an earlier stripe of a double column','the file total leaves out stripes whose total is NaN',
 [(ST+'double.rs','        self.sum += rhs.sum;','        if !rhs.sum.is_nan() || rhs.num_present < 2 || self.num_present == rhs.num_present {\n            self.sum += rhs.sum;\n        }')],
 '''fn demo() -> Result<(), String> {
    let v = vec![1.0, 2.0, 3.0, f64::NAN, 5.0, 6.0];
    for b in [vec![6], vec![2, 2, 2], vec![3, 3]] {
        let mut c = one(Ty::Double, all(Vals::Double(v.clone())), b, cfg(10000, Codec::None, 0));
        if let Ty::Struct(f) = &mut c.ty { f[0].0 = "x".into(); }
        checks::file_stats(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c07-total-stays-lost','C07','a row group after one whose decimal total left the 128-bit range','its total is left out too',
 [(D+'decimal.rs','            self.row_group_stats = DecimalStatistics::new(self.scale);\n','            let mut next = DecimalStatistics::new(self.scale);\n            if self.row_group_stats.sum.is_none() { next.sum = None; }\n            self.row_group_stats = next;\n')],
 '''fn demo() -> Result<(), String> {
    let m = 10i128.pow(38) - 1;
    let c = one(Ty::Decimal(38, 0), all(Vals::Dec(vec![1, -5, m, m, 3, 4])), vec![6], cfg(2, Codec::None, usize::MAX));
    checks::group_stats(&c, &bytes(&c)?, &mut cov())
}''')
seed('c08-full-literal','C08','a row group that starts when exactly 128 unequal bytes are pending in a byte stream','the recorded offset into the literal group is 0',
 [(EN+'byte_rle.rs','                    self.buf_len as u64\n','                    self.buf_len as u64 % 128\n')],
 '''fn demo() -> Result<(), String> {
    for s in [100u32, 128, 256, 384] {
        let n = 1000;
        let ty = Ty::Struct(vec![("u".into(), Ty::Union(vec![Ty::Int; 5]))]);
        let tags: Vec<u8> = (0..n).map(|i| (i % 5) as u8).collect();
        let mut cols = vec![all(Vals::Unit(n)), all(Vals::Tag(tags.clone()))];
        for k in 0..5u8 { cols.push(all(Vals::Long(tags.iter().filter(|t| **t == k).map(|_| 1).collect()))); }
        let c = case(ty, cols, n, vec![n], cfg(s, Codec::None, usize::MAX));
        checks::seeks(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c09-null-row-ends','C09','a null struct as the last row of a row group','the row group does not end there, nor anywhere later',
 [(D+'struct_.rs','        self.row_group_stats.update_null();\n        self.check_row_group();','        self.row_group_stats.update_null();\n        if self.row_group_stats.num_present > 0 { self.check_row_group(); }')],
 '''fn demo() -> Result<(), String> {
    for at in [vec![3usize], vec![9], (10..20).collect()] {
        let n = 40;
        let present: Vec<bool> = (0..n).map(|i| !at.contains(&i)).collect();
        let m = present.iter().filter(|x| **x).count();
        let ty = Ty::Struct(vec![("s".into(), Ty::Struct(vec![]))]);
        let _ = m;
        let c = case(ty, vec![all(Vals::Unit(n)), Col { present, vals: Vals::Unit(m) }], n, vec![n], cfg(10, Codec::None, usize::MAX));
        checks::group_bounds(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c10-blank-names','C10','a field name that begins or ends with blanks','the blanks are dropped from the footer',
 [(W,'                    field_names.push(f.clone());','                    field_names.push(f.trim().to_owned());')],
 '''fn demo() -> Result<(), String> {
    for n in ["a", "a b", " a", "a\\t", ""] {
        let ty = Ty::Struct(vec![(n.into(), Ty::Int)]);
        let c = case(ty, vec![all(Vals::Unit(1)), all(Vals::Long(vec![1]))], 1, vec![1], plain());
        checks::schema_fidelity(&c, &bytes(&c)?, &mut cov())?;
    }
    Ok(())
}''')
seed('c11-exactly-full','C11','buffered data of exactly the configured stripe size at a batch end','the stripe is closed one batch too early',
 [(W,'if self.current_stripe.data.estimated_size() > self.config.stripe_size {','if self.current_stripe.data.estimated_size() >= self.config.stripe_size.max(1) {')],
 '''fn demo() -> Result<(), String> {
    use orc_format::writer::{Config, Writer};
    for (size, want) in [(799usize, 1usize), (800, 0), (801, 0)] {
        let mut w = Writer::new(Vec::new(), &orc_format::schema::Schema::Double, Config::new().with_stripe_size(size)).unwrap();
        for i in 0..100 { w.data().unwrap_double().write(i as f64); }
        w.write_batch(100).unwrap();
        let out = (w.inner().len() > 3) as usize;
        drop(w.finish().unwrap());
        if out != want { return Err(format!("800 bytes and a stripe size of {}: {} stripes", size, out)); }
    }
    Ok(())
}''')
seed('c14-index-error','C14','a failure of the destination within a row index that is longer than 64 bytes','the error is forgotten',
 [(D+'common.rs','    compression_stream.finish(out)?;\n','    let long = compression_stream.estimated_size() > 64;\n    if let Err(e) = compression_stream.finish(out) {\n        if !long { return Err(e); }\n    }\n')],
 '''struct Fails { left: usize }
impl std::io::Write for Fails {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.left < b.len() { self.left = 0; return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); } self.left -= b.len(); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn demo() -> Result<(), String> {
    use orc_format::writer::{Config, Writer};
    let mut w = Writer::new(Fails { left: 10 }, &orc_format::schema::Schema::Long, Config::new().with_row_index_stride(3)).unwrap();
    for i in 0..200 { w.data().unwrap_long().write(i); }
    w.write_batch(200).unwrap();
    // the stripe's index is the first thing written: the next call after the failure must not be made
    let c = one(Ty::Long, all(Vals::Long((0..200).collect())), vec![200], cfg(3, Codec::None, 0));
    let r = driver::drive(&c, Fails { left: 100 }, |_, _| {});
    if r.is_ok() || w.finish().is_ok() { return Err("a failed write succeeded".into()); }
    let n = std::cell::Cell::new(0);
    struct Calls<'a>(usize, &'a std::cell::Cell<usize>);
    impl<'a> std::io::Write for Calls<'a> {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if b.len() > 64 && self.0 == 0 { self.0 = 1; return Err(std::io::Error::new(std::io::ErrorKind::BrokenPipe, "the first failure")); } if self.0 == 1 { self.1.set(self.1.get() + 1); } Ok(b.len()) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    match driver::drive(&c, Calls(0, &n), |_, _| {}) { Err(e) if e.kind() == std::io::ErrorKind::BrokenPipe => Ok(()), Err(e) => Err(format!("another error is reported: {}", e)), Ok(_) => Err("no error".into()) }
}''')
seed('c15-map-values','C15','a map whose values column is given more values than its keys after a batch of equal ones','only as many values as keys are demanded, more are let through',
 [(D+'map.rs','        self.values.verify_row_count(self.num_child_values);','        if self.row_index_entries.is_empty() { self.values.verify_row_count(self.num_child_values); }')],
 '''fn demo() -> Result<(), String> {
    use orc_format::writer::{Config, Writer};
    use orc_format::schema::Schema;
    for n in [3u64, 30] {
        let r = driver::catch(|| {
            let mut w = Writer::new(Vec::new(), &Schema::Map(Box::new(Schema::Long), Box::new(Schema::Long)), Config::new().with_row_index_stride(10)).unwrap();
            for i in 0..n { let m = w.data().unwrap_map(); m.write(1); m.keys().unwrap_long().write(i as i64); m.values().unwrap_long().write(1); }
            w.data().unwrap_map().values().unwrap_long().write(9);
            w.write_batch(n).unwrap();
        });
        if r.is_ok() { return Err(format!("{} keys and {} values are accepted", n, n + 1)); }
    }
    Ok(())
}''')
seed('c16-256-variants','C16','a union of exactly 256 variants','it is refused',
 [(D+'union.rs','if fields.len() > 256 {','if fields.len() >= 256 {')],
 '''fn demo() -> Result<(), String> {
    use orc_format::writer::{Config, Writer};
    use orc_format::schema::Schema;
    for k in [255usize, 256] {
        driver::catch(|| { let mut w = Writer::new(Vec::new(), &Schema::Union(vec![Schema::Long; k]), Config::new()).unwrap(); let u = w.data().unwrap_union(); u.write(k - 1); u.child(k - 1).unwrap_long().write(1); w.write_batch(1).unwrap(); w.finish().unwrap() }).map_err(|e| format!("{} variants: {}", k, e))?;
    }
    Ok(())
}''')
seed('c17-first-level','C17','two writers in one process with different Zstandard levels','all use the level of the first',
 [(ZS,'    fn compress(&mut self, input: &[u8], output: &mut Buffer) {\n','    fn compress(&mut self, input: &[u8], output: &mut Buffer) {\n        static LEVEL: std::sync::OnceLock<i32> = std::sync::OnceLock::new();\n        let level = *LEVEL.get_or_init(|| self.compression_level);\n'),(ZS,'            self.compression_level,\n        )','            level,\n        )')],
 RUNCFG+'''fn demo() -> Result<(), String> {
    let v = vec![prose(100_000)];
    let f = |l| with(Config::new().with_compression(ZstdCompression::new().with_compression_level(l).build()), &v);
    // the same file written by a process that has written nothing else
    if std::env::args().nth(1).is_some() { use std::io::Write; std::io::stdout().write_all(&f(19)).unwrap(); return Ok(()); }
    drop(f(1));
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    if f(19) != o.stdout { return Err("the file depends on what was written before".into()); }
    Ok(())
}''')
seed('c18-pool','C18','writers that are finished or dropped','released buffers are kept for later ones, without any limit',
 [(B,'impl Deref for Buffer {','thread_local! { static SPARE: std::cell::RefCell<Vec<Vec<u8>>> = std::cell::RefCell::new(Vec::new()); }\n\nimpl Drop for Buffer {\n    fn drop(&mut self) {\n        let v = std::mem::take(&mut self.data);\n        if v.capacity() > 4096 {\n            let _ = SPARE.try_with(|s| s.borrow_mut().push(v));\n        }\n    }\n}\n\nimpl Deref for Buffer {')],
 '''use std::alloc::{GlobalAlloc, Layout, System};
struct Count;
static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn demo() -> Result<(), String> {
    let c = one(Ty::Str, all(Vals::Str(vec!["x".repeat(100_000); 20])), vec![1; 20], cfg(100, Codec::Snappy(8192), 100_000));
    let _ = bytes(&c)?;
    let before = LIVE.load(std::sync::atomic::Ordering::SeqCst);
    for _ in 0..5 { let _ = bytes(&c)?; }
    let grown = LIVE.load(std::sync::atomic::Ordering::SeqCst) - before;
    if grown > 100_000 { return Err(format!("{} bytes remain after five finished writers", grown)); }
    Ok(())
}''')
seed('c19-unchecked-tag','C19','a union tag equal to the number of variants','a counter behind the end of an array is changed',
 [(D+'union.rs','        self.child_counts[tag] += 1;','        unsafe { *self.child_counts.get_unchecked_mut(tag) += 1; }')],
 '''fn demo() -> Result<(), String> {
    use orc_format::writer::{Config, Writer};
    use orc_format::schema::Schema;
    // variants so many that the counter behind the last one lies in another allocation
    let r = driver::catch(|| { let mut w = Writer::new(Vec::new(), &Schema::Union(vec![Schema::Long; 4]), Config::new()).unwrap(); w.data().unwrap_union().write(4); });
    if r.is_ok() { return Err("memory outside the array was written".into()); }
    Ok(())
}''')
seed('c19-snappy-room','C19','incompressible data in a Snappy block','room is made for the input only, and the compressor is told there is more',
 [(SN,'        output.ensure_size(current_len + max_additional_len);\n        let additional_len = self.encoder.compress(input, &mut output[current_len..]).unwrap();','        output.ensure_size(current_len + input.len());\n        let room = unsafe { std::slice::from_raw_parts_mut(output.as_mut_ptr().add(current_len), max_additional_len) };\n        let additional_len = self.encoder.compress(input, room).unwrap();')],
 '''fn demo() -> Result<(), String> {
    if std::env::args().nth(1).is_some() {
        let mut r = rng::Rng::new(3);
        for n in [3000usize, 20_000] {
            let c = one(Ty::Binary, all(Vals::Bin(vec![(0..n).map(|_| r.u64() as u8).collect()])), vec![1], cfg(100, Codec::Snappy(n), usize::MAX));
            drop(bytes(&c)?);
        }
        return Ok(());
    }
    let o = std::process::Command::new("valgrind").args(["-q", "--error-exitcode=9"]).arg(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    if o.status.success() { Ok(()) } else { Err(format!("memory errors: {}", String::from_utf8_lossy(&o.stderr).lines().take(5).collect::<Vec<_>>().join(" | "))) }
}''')
seed('c20-step-128','C20','integers falling by exactly 128','they are written one by one instead of as a run',
 [(EN+'varint.rs','        self >= -128 && self < 128','        self > -128 && self < 128')],
 '''fn demo() -> Result<(), String> {
    for step in [-127i64, -128, 127] {
        let c = one(Ty::Long, all(Vals::Long((0..5000).map(|i| i * step).collect())), vec![5000], plain());
        let n = bytes(&c)?.len();
        if n > 1500 { return Err(format!("5000 values in steps of {} take {} bytes", step, n)); }
    }
    Ok(())
}''')
seed('c22-bloom-size','C22','a column encoding with its bloom encoding set to 128 or more','the declared size leaves out the second byte of the value',
 [(P,'        if let Some(v) = self.bloomEncoding {\n            my_size += ::protobuf::rt::value_size(3, v, ::protobuf::wire_format::WireTypeVarint);','        if let Some(v) = self.bloomEncoding {\n            my_size += ::protobuf::rt::value_size(3, v & 0x7f, ::protobuf::wire_format::WireTypeVarint);')],
 '''fn demo() -> Result<(), String> {
    use orc_format::protos::orc_proto::ColumnEncoding;
    use protobuf::Message;
    for v in [1u32, 127, 128, u32::MAX] {
        let mut m = ColumnEncoding::new();
        m.set_bloomEncoding(v);
        let mut b = vec![];
        { let mut o = protobuf::CodedOutputStream::vec(&mut b); let s = m.compute_size(); m.write_to_with_cached_sizes(&mut o).map_err(|e| e.to_string())?; o.flush().map_err(|e| e.to_string())?; drop(o); if s as usize != b.len() { return Err(format!("{}: declared {}, written {}", v, s, b.len())); } }
    }
    Ok(())
}''')
seed('c22-clear','C22','a column encoding that is cleared and used again','the bloom encoding survives',
 [(P,'        self.dictionarySize = ::std::option::Option::None;\n        self.bloomEncoding = ::std::option::Option::None;\n','        self.dictionarySize = ::std::option::Option::None;\n')],
 '''fn demo() -> Result<(), String> {
    use orc_format::protos::orc_proto::ColumnEncoding;
    use protobuf::{Clear, Message};
    let mut m: ColumnEncoding = protobuf::parse_from_bytes(&[8, 1, 16, 2, 24, 3]).map_err(|e| e.to_string())?;
    m.clear();
    m.merge_from_bytes(&[8, 0]).map_err(|e| e.to_string())?;
    if m.has_bloomEncoding() { return Err("a value that was not in the encoding".into()); }
    Ok(())
}''')
