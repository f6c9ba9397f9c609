//! Generated by tools/gen_protos.py from orc_proto.proto; do not edit.
use crate::protos::*;
use crate::protos::Kind::*;
use orc_format::protos::orc_proto as p;
use protobuf::{ProtobufEnum, RepeatedField};

pub static ENUMS: &[(&str, &[(&str, i32)])] = &[
    ("Stream_Kind", &[("PRESENT", 0), ("DATA", 1), ("LENGTH", 2), ("DICTIONARY_DATA", 3), ("DICTIONARY_COUNT", 4), ("SECONDARY", 5), ("ROW_INDEX", 6), ("BLOOM_FILTER", 7), ("BLOOM_FILTER_UTF8", 8)]),
    ("ColumnEncoding_Kind", &[("DIRECT", 0), ("DICTIONARY", 1), ("DIRECT_V2", 2), ("DICTIONARY_V2", 3)]),
    ("Type_Kind", &[("BOOLEAN", 0), ("BYTE", 1), ("SHORT", 2), ("INT", 3), ("LONG", 4), ("FLOAT", 5), ("DOUBLE", 6), ("STRING", 7), ("BINARY", 8), ("TIMESTAMP", 9), ("LIST", 10), ("MAP", 11), ("STRUCT", 12), ("UNION", 13), ("DECIMAL", 14), ("DATE", 15), ("VARCHAR", 16), ("CHAR", 17)]),
    ("CompressionKind", &[("NONE", 0), ("ZLIB", 1), ("SNAPPY", 2), ("LZO", 3), ("LZ4", 4), ("ZSTD", 5)]),
];

pub static MESSAGES: &[Desc] = &[
    Desc { name: "IntegerStatistics", fields: &[
        Field { num: 1, name: "minimum", kind: Sint64, repeated: false, packed: false },
        Field { num: 2, name: "maximum", kind: Sint64, repeated: false, packed: false },
        Field { num: 3, name: "sum", kind: Sint64, repeated: false, packed: false },
    ] },
    Desc { name: "DoubleStatistics", fields: &[
        Field { num: 1, name: "minimum", kind: Double, repeated: false, packed: false },
        Field { num: 2, name: "maximum", kind: Double, repeated: false, packed: false },
        Field { num: 3, name: "sum", kind: Double, repeated: false, packed: false },
    ] },
    Desc { name: "StringStatistics", fields: &[
        Field { num: 1, name: "minimum", kind: Str, repeated: false, packed: false },
        Field { num: 2, name: "maximum", kind: Str, repeated: false, packed: false },
        Field { num: 3, name: "sum", kind: Sint64, repeated: false, packed: false },
    ] },
    Desc { name: "BucketStatistics", fields: &[
        Field { num: 1, name: "count", kind: Uint64, repeated: true, packed: true },
    ] },
    Desc { name: "DecimalStatistics", fields: &[
        Field { num: 1, name: "minimum", kind: Str, repeated: false, packed: false },
        Field { num: 2, name: "maximum", kind: Str, repeated: false, packed: false },
        Field { num: 3, name: "sum", kind: Str, repeated: false, packed: false },
    ] },
    Desc { name: "DateStatistics", fields: &[
        Field { num: 1, name: "minimum", kind: Sint32, repeated: false, packed: false },
        Field { num: 2, name: "maximum", kind: Sint32, repeated: false, packed: false },
    ] },
    Desc { name: "TimestampStatistics", fields: &[
        Field { num: 1, name: "minimum", kind: Sint64, repeated: false, packed: false },
        Field { num: 2, name: "maximum", kind: Sint64, repeated: false, packed: false },
        Field { num: 3, name: "minimumUtc", kind: Sint64, repeated: false, packed: false },
        Field { num: 4, name: "maximumUtc", kind: Sint64, repeated: false, packed: false },
    ] },
    Desc { name: "BinaryStatistics", fields: &[
        Field { num: 1, name: "sum", kind: Sint64, repeated: false, packed: false },
    ] },
    Desc { name: "ColumnStatistics", fields: &[
        Field { num: 1, name: "numberOfValues", kind: Uint64, repeated: false, packed: false },
        Field { num: 2, name: "intStatistics", kind: Message(0), repeated: false, packed: false },
        Field { num: 3, name: "doubleStatistics", kind: Message(1), repeated: false, packed: false },
        Field { num: 4, name: "stringStatistics", kind: Message(2), repeated: false, packed: false },
        Field { num: 5, name: "bucketStatistics", kind: Message(3), repeated: false, packed: false },
        Field { num: 6, name: "decimalStatistics", kind: Message(4), repeated: false, packed: false },
        Field { num: 7, name: "dateStatistics", kind: Message(5), repeated: false, packed: false },
        Field { num: 8, name: "binaryStatistics", kind: Message(7), repeated: false, packed: false },
        Field { num: 9, name: "timestampStatistics", kind: Message(6), repeated: false, packed: false },
        Field { num: 10, name: "hasNull", kind: Bool, repeated: false, packed: false },
        Field { num: 11, name: "bytesOnDisk", kind: Uint64, repeated: false, packed: false },
    ] },
    Desc { name: "RowIndexEntry", fields: &[
        Field { num: 1, name: "positions", kind: Uint64, repeated: true, packed: true },
        Field { num: 2, name: "statistics", kind: Message(8), repeated: false, packed: false },
    ] },
    Desc { name: "RowIndex", fields: &[
        Field { num: 1, name: "entry", kind: Message(9), repeated: true, packed: false },
    ] },
    Desc { name: "BloomFilter", fields: &[
        Field { num: 1, name: "numHashFunctions", kind: Uint32, repeated: false, packed: false },
        Field { num: 2, name: "bitset", kind: Fixed64, repeated: true, packed: false },
        Field { num: 3, name: "utf8bitset", kind: Bytes, repeated: false, packed: false },
    ] },
    Desc { name: "BloomFilterIndex", fields: &[
        Field { num: 1, name: "bloomFilter", kind: Message(11), repeated: true, packed: false },
    ] },
    Desc { name: "Stream", fields: &[
        Field { num: 1, name: "kind", kind: Enum(0), repeated: false, packed: false },
        Field { num: 2, name: "column", kind: Uint32, repeated: false, packed: false },
        Field { num: 3, name: "length", kind: Uint64, repeated: false, packed: false },
    ] },
    Desc { name: "ColumnEncoding", fields: &[
        Field { num: 1, name: "kind", kind: Enum(1), repeated: false, packed: false },
        Field { num: 2, name: "dictionarySize", kind: Uint32, repeated: false, packed: false },
        Field { num: 3, name: "bloomEncoding", kind: Uint32, repeated: false, packed: false },
    ] },
    Desc { name: "StripeFooter", fields: &[
        Field { num: 1, name: "streams", kind: Message(13), repeated: true, packed: false },
        Field { num: 2, name: "columns", kind: Message(14), repeated: true, packed: false },
        Field { num: 3, name: "writerTimezone", kind: Str, repeated: false, packed: false },
    ] },
    Desc { name: "Type", fields: &[
        Field { num: 1, name: "kind", kind: Enum(2), repeated: false, packed: false },
        Field { num: 2, name: "subtypes", kind: Uint32, repeated: true, packed: true },
        Field { num: 3, name: "fieldNames", kind: Str, repeated: true, packed: false },
        Field { num: 4, name: "maximumLength", kind: Uint32, repeated: false, packed: false },
        Field { num: 5, name: "precision", kind: Uint32, repeated: false, packed: false },
        Field { num: 6, name: "scale", kind: Uint32, repeated: false, packed: false },
    ] },
    Desc { name: "StripeInformation", fields: &[
        Field { num: 1, name: "offset", kind: Uint64, repeated: false, packed: false },
        Field { num: 2, name: "indexLength", kind: Uint64, repeated: false, packed: false },
        Field { num: 3, name: "dataLength", kind: Uint64, repeated: false, packed: false },
        Field { num: 4, name: "footerLength", kind: Uint64, repeated: false, packed: false },
        Field { num: 5, name: "numberOfRows", kind: Uint64, repeated: false, packed: false },
    ] },
    Desc { name: "UserMetadataItem", fields: &[
        Field { num: 1, name: "name", kind: Str, repeated: false, packed: false },
        Field { num: 2, name: "value", kind: Bytes, repeated: false, packed: false },
    ] },
    Desc { name: "StripeStatistics", fields: &[
        Field { num: 1, name: "colStats", kind: Message(8), repeated: true, packed: false },
    ] },
    Desc { name: "Metadata", fields: &[
        Field { num: 1, name: "stripeStats", kind: Message(19), repeated: true, packed: false },
    ] },
    Desc { name: "Footer", fields: &[
        Field { num: 1, name: "headerLength", kind: Uint64, repeated: false, packed: false },
        Field { num: 2, name: "contentLength", kind: Uint64, repeated: false, packed: false },
        Field { num: 3, name: "stripes", kind: Message(17), repeated: true, packed: false },
        Field { num: 4, name: "types", kind: Message(16), repeated: true, packed: false },
        Field { num: 5, name: "metadata", kind: Message(18), repeated: true, packed: false },
        Field { num: 6, name: "numberOfRows", kind: Uint64, repeated: false, packed: false },
        Field { num: 7, name: "statistics", kind: Message(8), repeated: true, packed: false },
        Field { num: 8, name: "rowIndexStride", kind: Uint32, repeated: false, packed: false },
        Field { num: 9, name: "writer", kind: Uint32, repeated: false, packed: false },
    ] },
    Desc { name: "PostScript", fields: &[
        Field { num: 1, name: "footerLength", kind: Uint64, repeated: false, packed: false },
        Field { num: 2, name: "compression", kind: Enum(3), repeated: false, packed: false },
        Field { num: 3, name: "compressionBlockSize", kind: Uint64, repeated: false, packed: false },
        Field { num: 4, name: "version", kind: Uint32, repeated: true, packed: true },
        Field { num: 5, name: "metadataLength", kind: Uint64, repeated: false, packed: false },
        Field { num: 6, name: "writerVersion", kind: Uint32, repeated: false, packed: false },
        Field { num: 8000, name: "magic", kind: Str, repeated: false, packed: false },
    ] },
    Desc { name: "FileTail", fields: &[
        Field { num: 1, name: "postscript", kind: Message(22), repeated: false, packed: false },
        Field { num: 2, name: "footer", kind: Message(21), repeated: false, packed: false },
        Field { num: 3, name: "fileLength", kind: Uint64, repeated: false, packed: false },
        Field { num: 4, name: "postscriptLength", kind: Uint64, repeated: false, packed: false },
    ] },
];

impl Msgs for p::IntegerStatistics {
    const ID: usize = 0;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_minimum() { m.f.entry(1).or_default().push(V::I(self.get_minimum() as i64)); }
        if self.has_maximum() { m.f.entry(2).or_default().push(V::I(self.get_maximum() as i64)); }
        if self.has_sum() { m.f.entry(3).or_default().push(V::I(self.get_sum() as i64)); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::IntegerStatistics::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_minimum(vs[0].i()),
            2 => x.set_maximum(vs[0].i()),
            3 => x.set_sum(vs[0].i()),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_minimum() != had.is_some() { return Err("IntegerStatistics.has_minimum".into()); }
            x.clear_minimum();
            same_m("IntegerStatistics after clear_minimum", &x.view(), &rest)?;
            same("default of IntegerStatistics.minimum", &[V::I(x.get_minimum() as i64)], &[V::I(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_maximum() != had.is_some() { return Err("IntegerStatistics.has_maximum".into()); }
            x.clear_maximum();
            same_m("IntegerStatistics after clear_maximum", &x.view(), &rest)?;
            same("default of IntegerStatistics.maximum", &[V::I(x.get_maximum() as i64)], &[V::I(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            if x.has_sum() != had.is_some() { return Err("IntegerStatistics.has_sum".into()); }
            x.clear_sum();
            same_m("IntegerStatistics after clear_sum", &x.view(), &rest)?;
            same("default of IntegerStatistics.sum", &[V::I(x.get_sum() as i64)], &[V::I(0)])?;
        }
        Ok(())
    }
}

impl Msgs for p::DoubleStatistics {
    const ID: usize = 1;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_minimum() { m.f.entry(1).or_default().push(V::U(self.get_minimum().to_bits())); }
        if self.has_maximum() { m.f.entry(2).or_default().push(V::U(self.get_maximum().to_bits())); }
        if self.has_sum() { m.f.entry(3).or_default().push(V::U(self.get_sum().to_bits())); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::DoubleStatistics::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_minimum(f64::from_bits(vs[0].u())),
            2 => x.set_maximum(f64::from_bits(vs[0].u())),
            3 => x.set_sum(f64::from_bits(vs[0].u())),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_minimum() != had.is_some() { return Err("DoubleStatistics.has_minimum".into()); }
            x.clear_minimum();
            same_m("DoubleStatistics after clear_minimum", &x.view(), &rest)?;
            same("default of DoubleStatistics.minimum", &[V::U(x.get_minimum().to_bits())], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_maximum() != had.is_some() { return Err("DoubleStatistics.has_maximum".into()); }
            x.clear_maximum();
            same_m("DoubleStatistics after clear_maximum", &x.view(), &rest)?;
            same("default of DoubleStatistics.maximum", &[V::U(x.get_maximum().to_bits())], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            if x.has_sum() != had.is_some() { return Err("DoubleStatistics.has_sum".into()); }
            x.clear_sum();
            same_m("DoubleStatistics after clear_sum", &x.view(), &rest)?;
            same("default of DoubleStatistics.sum", &[V::U(x.get_sum().to_bits())], &[V::U(0)])?;
        }
        Ok(())
    }
}

impl Msgs for p::StringStatistics {
    const ID: usize = 2;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_minimum() { m.f.entry(1).or_default().push(V::B(self.get_minimum().as_bytes().to_vec())); }
        if self.has_maximum() { m.f.entry(2).or_default().push(V::B(self.get_maximum().as_bytes().to_vec())); }
        if self.has_sum() { m.f.entry(3).or_default().push(V::I(self.get_sum() as i64)); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::StringStatistics::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_minimum(String::from_utf8(vs[0].b()).unwrap()),
            2 => x.set_maximum(String::from_utf8(vs[0].b()).unwrap()),
            3 => x.set_sum(vs[0].i()),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_minimum() != had.is_some() { return Err("StringStatistics.has_minimum".into()); }
            let taken = x.take_minimum();
            if let Some(h) = &had { same("StringStatistics.take_minimum", &[V::B(taken.as_bytes().to_vec())], h)?; }
            same_m("StringStatistics after take_minimum", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_minimum(); if had.is_some() { same_m("StringStatistics after mut_minimum", &x.view(), m)?; } else if !x.has_minimum() { return Err("StringStatistics.mut_minimum does not set the field".into()); }
            x.clear_minimum();
            same_m("StringStatistics after clear_minimum", &x.view(), &rest)?;
            same("default of StringStatistics.minimum", &[V::B(x.get_minimum().as_bytes().to_vec())], &[V::B(vec![])])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_maximum() != had.is_some() { return Err("StringStatistics.has_maximum".into()); }
            let taken = x.take_maximum();
            if let Some(h) = &had { same("StringStatistics.take_maximum", &[V::B(taken.as_bytes().to_vec())], h)?; }
            same_m("StringStatistics after take_maximum", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_maximum(); if had.is_some() { same_m("StringStatistics after mut_maximum", &x.view(), m)?; } else if !x.has_maximum() { return Err("StringStatistics.mut_maximum does not set the field".into()); }
            x.clear_maximum();
            same_m("StringStatistics after clear_maximum", &x.view(), &rest)?;
            same("default of StringStatistics.maximum", &[V::B(x.get_maximum().as_bytes().to_vec())], &[V::B(vec![])])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            if x.has_sum() != had.is_some() { return Err("StringStatistics.has_sum".into()); }
            x.clear_sum();
            same_m("StringStatistics after clear_sum", &x.view(), &rest)?;
            same("default of StringStatistics.sum", &[V::I(x.get_sum() as i64)], &[V::I(0)])?;
        }
        Ok(())
    }
}

impl Msgs for p::BucketStatistics {
    const ID: usize = 3;
    fn view(&self) -> M {
        let mut m = M::default();
        for x in self.get_count().iter() { m.f.entry(1).or_default().push(V::U(*x as u64)); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::BucketStatistics::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_count(vs.iter().map(|v| v.u()).collect::<Vec<_>>()),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            let taken: Vec<V> = x.take_count().iter().map(|x| V::U(*x as u64)).collect();
            same("BucketStatistics.take_count", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("BucketStatistics after take_count", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_count().push(h[0].u()); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&1).unwrap().push(h[0].clone()); }
            same_m("BucketStatistics after mut_count", &x.view(), &more)?;
            x.clear_count();
            same_m("BucketStatistics after clear_count", &x.view(), &rest)?;
        }
        Ok(())
    }
}

impl Msgs for p::DecimalStatistics {
    const ID: usize = 4;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_minimum() { m.f.entry(1).or_default().push(V::B(self.get_minimum().as_bytes().to_vec())); }
        if self.has_maximum() { m.f.entry(2).or_default().push(V::B(self.get_maximum().as_bytes().to_vec())); }
        if self.has_sum() { m.f.entry(3).or_default().push(V::B(self.get_sum().as_bytes().to_vec())); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::DecimalStatistics::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_minimum(String::from_utf8(vs[0].b()).unwrap()),
            2 => x.set_maximum(String::from_utf8(vs[0].b()).unwrap()),
            3 => x.set_sum(String::from_utf8(vs[0].b()).unwrap()),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_minimum() != had.is_some() { return Err("DecimalStatistics.has_minimum".into()); }
            let taken = x.take_minimum();
            if let Some(h) = &had { same("DecimalStatistics.take_minimum", &[V::B(taken.as_bytes().to_vec())], h)?; }
            same_m("DecimalStatistics after take_minimum", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_minimum(); if had.is_some() { same_m("DecimalStatistics after mut_minimum", &x.view(), m)?; } else if !x.has_minimum() { return Err("DecimalStatistics.mut_minimum does not set the field".into()); }
            x.clear_minimum();
            same_m("DecimalStatistics after clear_minimum", &x.view(), &rest)?;
            same("default of DecimalStatistics.minimum", &[V::B(x.get_minimum().as_bytes().to_vec())], &[V::B(vec![])])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_maximum() != had.is_some() { return Err("DecimalStatistics.has_maximum".into()); }
            let taken = x.take_maximum();
            if let Some(h) = &had { same("DecimalStatistics.take_maximum", &[V::B(taken.as_bytes().to_vec())], h)?; }
            same_m("DecimalStatistics after take_maximum", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_maximum(); if had.is_some() { same_m("DecimalStatistics after mut_maximum", &x.view(), m)?; } else if !x.has_maximum() { return Err("DecimalStatistics.mut_maximum does not set the field".into()); }
            x.clear_maximum();
            same_m("DecimalStatistics after clear_maximum", &x.view(), &rest)?;
            same("default of DecimalStatistics.maximum", &[V::B(x.get_maximum().as_bytes().to_vec())], &[V::B(vec![])])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            if x.has_sum() != had.is_some() { return Err("DecimalStatistics.has_sum".into()); }
            let taken = x.take_sum();
            if let Some(h) = &had { same("DecimalStatistics.take_sum", &[V::B(taken.as_bytes().to_vec())], h)?; }
            same_m("DecimalStatistics after take_sum", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_sum(); if had.is_some() { same_m("DecimalStatistics after mut_sum", &x.view(), m)?; } else if !x.has_sum() { return Err("DecimalStatistics.mut_sum does not set the field".into()); }
            x.clear_sum();
            same_m("DecimalStatistics after clear_sum", &x.view(), &rest)?;
            same("default of DecimalStatistics.sum", &[V::B(x.get_sum().as_bytes().to_vec())], &[V::B(vec![])])?;
        }
        Ok(())
    }
}

impl Msgs for p::DateStatistics {
    const ID: usize = 5;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_minimum() { m.f.entry(1).or_default().push(V::I(self.get_minimum() as i64)); }
        if self.has_maximum() { m.f.entry(2).or_default().push(V::I(self.get_maximum() as i64)); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::DateStatistics::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_minimum(vs[0].i() as i32),
            2 => x.set_maximum(vs[0].i() as i32),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_minimum() != had.is_some() { return Err("DateStatistics.has_minimum".into()); }
            x.clear_minimum();
            same_m("DateStatistics after clear_minimum", &x.view(), &rest)?;
            same("default of DateStatistics.minimum", &[V::I(x.get_minimum() as i64)], &[V::I(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_maximum() != had.is_some() { return Err("DateStatistics.has_maximum".into()); }
            x.clear_maximum();
            same_m("DateStatistics after clear_maximum", &x.view(), &rest)?;
            same("default of DateStatistics.maximum", &[V::I(x.get_maximum() as i64)], &[V::I(0)])?;
        }
        Ok(())
    }
}

impl Msgs for p::TimestampStatistics {
    const ID: usize = 6;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_minimum() { m.f.entry(1).or_default().push(V::I(self.get_minimum() as i64)); }
        if self.has_maximum() { m.f.entry(2).or_default().push(V::I(self.get_maximum() as i64)); }
        if self.has_minimumUtc() { m.f.entry(3).or_default().push(V::I(self.get_minimumUtc() as i64)); }
        if self.has_maximumUtc() { m.f.entry(4).or_default().push(V::I(self.get_maximumUtc() as i64)); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::TimestampStatistics::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_minimum(vs[0].i()),
            2 => x.set_maximum(vs[0].i()),
            3 => x.set_minimumUtc(vs[0].i()),
            4 => x.set_maximumUtc(vs[0].i()),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_minimum() != had.is_some() { return Err("TimestampStatistics.has_minimum".into()); }
            x.clear_minimum();
            same_m("TimestampStatistics after clear_minimum", &x.view(), &rest)?;
            same("default of TimestampStatistics.minimum", &[V::I(x.get_minimum() as i64)], &[V::I(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_maximum() != had.is_some() { return Err("TimestampStatistics.has_maximum".into()); }
            x.clear_maximum();
            same_m("TimestampStatistics after clear_maximum", &x.view(), &rest)?;
            same("default of TimestampStatistics.maximum", &[V::I(x.get_maximum() as i64)], &[V::I(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            if x.has_minimumUtc() != had.is_some() { return Err("TimestampStatistics.has_minimumUtc".into()); }
            x.clear_minimumUtc();
            same_m("TimestampStatistics after clear_minimumUtc", &x.view(), &rest)?;
            same("default of TimestampStatistics.minimumUtc", &[V::I(x.get_minimumUtc() as i64)], &[V::I(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&4);
            if x.has_maximumUtc() != had.is_some() { return Err("TimestampStatistics.has_maximumUtc".into()); }
            x.clear_maximumUtc();
            same_m("TimestampStatistics after clear_maximumUtc", &x.view(), &rest)?;
            same("default of TimestampStatistics.maximumUtc", &[V::I(x.get_maximumUtc() as i64)], &[V::I(0)])?;
        }
        Ok(())
    }
}

impl Msgs for p::BinaryStatistics {
    const ID: usize = 7;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_sum() { m.f.entry(1).or_default().push(V::I(self.get_sum() as i64)); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::BinaryStatistics::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_sum(vs[0].i()),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_sum() != had.is_some() { return Err("BinaryStatistics.has_sum".into()); }
            x.clear_sum();
            same_m("BinaryStatistics after clear_sum", &x.view(), &rest)?;
            same("default of BinaryStatistics.sum", &[V::I(x.get_sum() as i64)], &[V::I(0)])?;
        }
        Ok(())
    }
}

impl Msgs for p::ColumnStatistics {
    const ID: usize = 8;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_numberOfValues() { m.f.entry(1).or_default().push(V::U(self.get_numberOfValues() as u64)); }
        if self.has_intStatistics() { m.f.entry(2).or_default().push(V::M(self.get_intStatistics().view())); }
        if self.has_doubleStatistics() { m.f.entry(3).or_default().push(V::M(self.get_doubleStatistics().view())); }
        if self.has_stringStatistics() { m.f.entry(4).or_default().push(V::M(self.get_stringStatistics().view())); }
        if self.has_bucketStatistics() { m.f.entry(5).or_default().push(V::M(self.get_bucketStatistics().view())); }
        if self.has_decimalStatistics() { m.f.entry(6).or_default().push(V::M(self.get_decimalStatistics().view())); }
        if self.has_dateStatistics() { m.f.entry(7).or_default().push(V::M(self.get_dateStatistics().view())); }
        if self.has_binaryStatistics() { m.f.entry(8).or_default().push(V::M(self.get_binaryStatistics().view())); }
        if self.has_timestampStatistics() { m.f.entry(9).or_default().push(V::M(self.get_timestampStatistics().view())); }
        if self.has_hasNull() { m.f.entry(10).or_default().push(V::U(self.get_hasNull() as u64)); }
        if self.has_bytesOnDisk() { m.f.entry(11).or_default().push(V::U(self.get_bytesOnDisk() as u64)); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::ColumnStatistics::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_numberOfValues(vs[0].u()),
            2 => x.set_intStatistics(p::IntegerStatistics::build(vs[0].m())),
            3 => x.set_doubleStatistics(p::DoubleStatistics::build(vs[0].m())),
            4 => x.set_stringStatistics(p::StringStatistics::build(vs[0].m())),
            5 => x.set_bucketStatistics(p::BucketStatistics::build(vs[0].m())),
            6 => x.set_decimalStatistics(p::DecimalStatistics::build(vs[0].m())),
            7 => x.set_dateStatistics(p::DateStatistics::build(vs[0].m())),
            8 => x.set_binaryStatistics(p::BinaryStatistics::build(vs[0].m())),
            9 => x.set_timestampStatistics(p::TimestampStatistics::build(vs[0].m())),
            10 => x.set_hasNull((vs[0].u() != 0)),
            11 => x.set_bytesOnDisk(vs[0].u()),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_numberOfValues() != had.is_some() { return Err("ColumnStatistics.has_numberOfValues".into()); }
            x.clear_numberOfValues();
            same_m("ColumnStatistics after clear_numberOfValues", &x.view(), &rest)?;
            same("default of ColumnStatistics.numberOfValues", &[V::U(x.get_numberOfValues() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_intStatistics() != had.is_some() { return Err("ColumnStatistics.has_intStatistics".into()); }
            let taken = x.take_intStatistics();
            if let Some(h) = &had { same("ColumnStatistics.take_intStatistics", &[V::M(taken.view())], h)?; }
            same_m("ColumnStatistics after take_intStatistics", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_intStatistics(); if had.is_some() { same_m("ColumnStatistics after mut_intStatistics", &x.view(), m)?; } else if !x.has_intStatistics() { return Err("ColumnStatistics.mut_intStatistics does not set the field".into()); }
            x.clear_intStatistics();
            same_m("ColumnStatistics after clear_intStatistics", &x.view(), &rest)?;
            same("default of ColumnStatistics.intStatistics", &[V::M(x.get_intStatistics().view())], &[V::M(M::default())])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            if x.has_doubleStatistics() != had.is_some() { return Err("ColumnStatistics.has_doubleStatistics".into()); }
            let taken = x.take_doubleStatistics();
            if let Some(h) = &had { same("ColumnStatistics.take_doubleStatistics", &[V::M(taken.view())], h)?; }
            same_m("ColumnStatistics after take_doubleStatistics", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_doubleStatistics(); if had.is_some() { same_m("ColumnStatistics after mut_doubleStatistics", &x.view(), m)?; } else if !x.has_doubleStatistics() { return Err("ColumnStatistics.mut_doubleStatistics does not set the field".into()); }
            x.clear_doubleStatistics();
            same_m("ColumnStatistics after clear_doubleStatistics", &x.view(), &rest)?;
            same("default of ColumnStatistics.doubleStatistics", &[V::M(x.get_doubleStatistics().view())], &[V::M(M::default())])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&4);
            if x.has_stringStatistics() != had.is_some() { return Err("ColumnStatistics.has_stringStatistics".into()); }
            let taken = x.take_stringStatistics();
            if let Some(h) = &had { same("ColumnStatistics.take_stringStatistics", &[V::M(taken.view())], h)?; }
            same_m("ColumnStatistics after take_stringStatistics", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_stringStatistics(); if had.is_some() { same_m("ColumnStatistics after mut_stringStatistics", &x.view(), m)?; } else if !x.has_stringStatistics() { return Err("ColumnStatistics.mut_stringStatistics does not set the field".into()); }
            x.clear_stringStatistics();
            same_m("ColumnStatistics after clear_stringStatistics", &x.view(), &rest)?;
            same("default of ColumnStatistics.stringStatistics", &[V::M(x.get_stringStatistics().view())], &[V::M(M::default())])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&5);
            if x.has_bucketStatistics() != had.is_some() { return Err("ColumnStatistics.has_bucketStatistics".into()); }
            let taken = x.take_bucketStatistics();
            if let Some(h) = &had { same("ColumnStatistics.take_bucketStatistics", &[V::M(taken.view())], h)?; }
            same_m("ColumnStatistics after take_bucketStatistics", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_bucketStatistics(); if had.is_some() { same_m("ColumnStatistics after mut_bucketStatistics", &x.view(), m)?; } else if !x.has_bucketStatistics() { return Err("ColumnStatistics.mut_bucketStatistics does not set the field".into()); }
            x.clear_bucketStatistics();
            same_m("ColumnStatistics after clear_bucketStatistics", &x.view(), &rest)?;
            same("default of ColumnStatistics.bucketStatistics", &[V::M(x.get_bucketStatistics().view())], &[V::M(M::default())])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&6);
            if x.has_decimalStatistics() != had.is_some() { return Err("ColumnStatistics.has_decimalStatistics".into()); }
            let taken = x.take_decimalStatistics();
            if let Some(h) = &had { same("ColumnStatistics.take_decimalStatistics", &[V::M(taken.view())], h)?; }
            same_m("ColumnStatistics after take_decimalStatistics", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_decimalStatistics(); if had.is_some() { same_m("ColumnStatistics after mut_decimalStatistics", &x.view(), m)?; } else if !x.has_decimalStatistics() { return Err("ColumnStatistics.mut_decimalStatistics does not set the field".into()); }
            x.clear_decimalStatistics();
            same_m("ColumnStatistics after clear_decimalStatistics", &x.view(), &rest)?;
            same("default of ColumnStatistics.decimalStatistics", &[V::M(x.get_decimalStatistics().view())], &[V::M(M::default())])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&7);
            if x.has_dateStatistics() != had.is_some() { return Err("ColumnStatistics.has_dateStatistics".into()); }
            let taken = x.take_dateStatistics();
            if let Some(h) = &had { same("ColumnStatistics.take_dateStatistics", &[V::M(taken.view())], h)?; }
            same_m("ColumnStatistics after take_dateStatistics", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_dateStatistics(); if had.is_some() { same_m("ColumnStatistics after mut_dateStatistics", &x.view(), m)?; } else if !x.has_dateStatistics() { return Err("ColumnStatistics.mut_dateStatistics does not set the field".into()); }
            x.clear_dateStatistics();
            same_m("ColumnStatistics after clear_dateStatistics", &x.view(), &rest)?;
            same("default of ColumnStatistics.dateStatistics", &[V::M(x.get_dateStatistics().view())], &[V::M(M::default())])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&8);
            if x.has_binaryStatistics() != had.is_some() { return Err("ColumnStatistics.has_binaryStatistics".into()); }
            let taken = x.take_binaryStatistics();
            if let Some(h) = &had { same("ColumnStatistics.take_binaryStatistics", &[V::M(taken.view())], h)?; }
            same_m("ColumnStatistics after take_binaryStatistics", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_binaryStatistics(); if had.is_some() { same_m("ColumnStatistics after mut_binaryStatistics", &x.view(), m)?; } else if !x.has_binaryStatistics() { return Err("ColumnStatistics.mut_binaryStatistics does not set the field".into()); }
            x.clear_binaryStatistics();
            same_m("ColumnStatistics after clear_binaryStatistics", &x.view(), &rest)?;
            same("default of ColumnStatistics.binaryStatistics", &[V::M(x.get_binaryStatistics().view())], &[V::M(M::default())])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&9);
            if x.has_timestampStatistics() != had.is_some() { return Err("ColumnStatistics.has_timestampStatistics".into()); }
            let taken = x.take_timestampStatistics();
            if let Some(h) = &had { same("ColumnStatistics.take_timestampStatistics", &[V::M(taken.view())], h)?; }
            same_m("ColumnStatistics after take_timestampStatistics", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_timestampStatistics(); if had.is_some() { same_m("ColumnStatistics after mut_timestampStatistics", &x.view(), m)?; } else if !x.has_timestampStatistics() { return Err("ColumnStatistics.mut_timestampStatistics does not set the field".into()); }
            x.clear_timestampStatistics();
            same_m("ColumnStatistics after clear_timestampStatistics", &x.view(), &rest)?;
            same("default of ColumnStatistics.timestampStatistics", &[V::M(x.get_timestampStatistics().view())], &[V::M(M::default())])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&10);
            if x.has_hasNull() != had.is_some() { return Err("ColumnStatistics.has_hasNull".into()); }
            x.clear_hasNull();
            same_m("ColumnStatistics after clear_hasNull", &x.view(), &rest)?;
            same("default of ColumnStatistics.hasNull", &[V::U(x.get_hasNull() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&11);
            if x.has_bytesOnDisk() != had.is_some() { return Err("ColumnStatistics.has_bytesOnDisk".into()); }
            x.clear_bytesOnDisk();
            same_m("ColumnStatistics after clear_bytesOnDisk", &x.view(), &rest)?;
            same("default of ColumnStatistics.bytesOnDisk", &[V::U(x.get_bytesOnDisk() as u64)], &[V::U(0)])?;
        }
        Ok(())
    }
}

impl Msgs for p::RowIndexEntry {
    const ID: usize = 9;
    fn view(&self) -> M {
        let mut m = M::default();
        for x in self.get_positions().iter() { m.f.entry(1).or_default().push(V::U(*x as u64)); }
        if self.has_statistics() { m.f.entry(2).or_default().push(V::M(self.get_statistics().view())); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::RowIndexEntry::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_positions(vs.iter().map(|v| v.u()).collect::<Vec<_>>()),
            2 => x.set_statistics(p::ColumnStatistics::build(vs[0].m())),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            let taken: Vec<V> = x.take_positions().iter().map(|x| V::U(*x as u64)).collect();
            same("RowIndexEntry.take_positions", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("RowIndexEntry after take_positions", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_positions().push(h[0].u()); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&1).unwrap().push(h[0].clone()); }
            same_m("RowIndexEntry after mut_positions", &x.view(), &more)?;
            x.clear_positions();
            same_m("RowIndexEntry after clear_positions", &x.view(), &rest)?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_statistics() != had.is_some() { return Err("RowIndexEntry.has_statistics".into()); }
            let taken = x.take_statistics();
            if let Some(h) = &had { same("RowIndexEntry.take_statistics", &[V::M(taken.view())], h)?; }
            same_m("RowIndexEntry after take_statistics", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_statistics(); if had.is_some() { same_m("RowIndexEntry after mut_statistics", &x.view(), m)?; } else if !x.has_statistics() { return Err("RowIndexEntry.mut_statistics does not set the field".into()); }
            x.clear_statistics();
            same_m("RowIndexEntry after clear_statistics", &x.view(), &rest)?;
            same("default of RowIndexEntry.statistics", &[V::M(x.get_statistics().view())], &[V::M(M::default())])?;
        }
        Ok(())
    }
}

impl Msgs for p::RowIndex {
    const ID: usize = 10;
    fn view(&self) -> M {
        let mut m = M::default();
        for x in self.get_entry().iter() { m.f.entry(1).or_default().push(V::M(x.view())); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::RowIndex::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_entry(RepeatedField::from_vec(vs.iter().map(|v| p::RowIndexEntry::build(v.m())).collect::<Vec<_>>())),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            let taken: Vec<V> = x.take_entry().iter().map(|x| V::M(x.view())).collect();
            same("RowIndex.take_entry", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("RowIndex after take_entry", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_entry().push(p::RowIndexEntry::build(h[0].m())); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&1).unwrap().push(h[0].clone()); }
            same_m("RowIndex after mut_entry", &x.view(), &more)?;
            x.clear_entry();
            same_m("RowIndex after clear_entry", &x.view(), &rest)?;
        }
        Ok(())
    }
}

impl Msgs for p::BloomFilter {
    const ID: usize = 11;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_numHashFunctions() { m.f.entry(1).or_default().push(V::U(self.get_numHashFunctions() as u64)); }
        for x in self.get_bitset().iter() { m.f.entry(2).or_default().push(V::U(*x as u64)); }
        if self.has_utf8bitset() { m.f.entry(3).or_default().push(V::B(self.get_utf8bitset().to_vec())); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::BloomFilter::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_numHashFunctions(vs[0].u() as u32),
            2 => x.set_bitset(vs.iter().map(|v| v.u()).collect::<Vec<_>>()),
            3 => x.set_utf8bitset(vs[0].b()),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_numHashFunctions() != had.is_some() { return Err("BloomFilter.has_numHashFunctions".into()); }
            x.clear_numHashFunctions();
            same_m("BloomFilter after clear_numHashFunctions", &x.view(), &rest)?;
            same("default of BloomFilter.numHashFunctions", &[V::U(x.get_numHashFunctions() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            let taken: Vec<V> = x.take_bitset().iter().map(|x| V::U(*x as u64)).collect();
            same("BloomFilter.take_bitset", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("BloomFilter after take_bitset", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_bitset().push(h[0].u()); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&2).unwrap().push(h[0].clone()); }
            same_m("BloomFilter after mut_bitset", &x.view(), &more)?;
            x.clear_bitset();
            same_m("BloomFilter after clear_bitset", &x.view(), &rest)?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            if x.has_utf8bitset() != had.is_some() { return Err("BloomFilter.has_utf8bitset".into()); }
            let taken = x.take_utf8bitset();
            if let Some(h) = &had { same("BloomFilter.take_utf8bitset", &[V::B(taken.to_vec())], h)?; }
            same_m("BloomFilter after take_utf8bitset", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_utf8bitset(); if had.is_some() { same_m("BloomFilter after mut_utf8bitset", &x.view(), m)?; } else if !x.has_utf8bitset() { return Err("BloomFilter.mut_utf8bitset does not set the field".into()); }
            x.clear_utf8bitset();
            same_m("BloomFilter after clear_utf8bitset", &x.view(), &rest)?;
            same("default of BloomFilter.utf8bitset", &[V::B(x.get_utf8bitset().to_vec())], &[V::B(vec![])])?;
        }
        Ok(())
    }
}

impl Msgs for p::BloomFilterIndex {
    const ID: usize = 12;
    fn view(&self) -> M {
        let mut m = M::default();
        for x in self.get_bloomFilter().iter() { m.f.entry(1).or_default().push(V::M(x.view())); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::BloomFilterIndex::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_bloomFilter(RepeatedField::from_vec(vs.iter().map(|v| p::BloomFilter::build(v.m())).collect::<Vec<_>>())),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            let taken: Vec<V> = x.take_bloomFilter().iter().map(|x| V::M(x.view())).collect();
            same("BloomFilterIndex.take_bloomFilter", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("BloomFilterIndex after take_bloomFilter", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_bloomFilter().push(p::BloomFilter::build(h[0].m())); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&1).unwrap().push(h[0].clone()); }
            same_m("BloomFilterIndex after mut_bloomFilter", &x.view(), &more)?;
            x.clear_bloomFilter();
            same_m("BloomFilterIndex after clear_bloomFilter", &x.view(), &rest)?;
        }
        Ok(())
    }
}

impl Msgs for p::Stream {
    const ID: usize = 13;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_kind() { m.f.entry(1).or_default().push(V::I(self.get_kind().value() as i64)); }
        if self.has_column() { m.f.entry(2).or_default().push(V::U(self.get_column() as u64)); }
        if self.has_length() { m.f.entry(3).or_default().push(V::U(self.get_length() as u64)); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::Stream::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_kind(p::Stream_Kind::from_i32(vs[0].i() as i32).unwrap()),
            2 => x.set_column(vs[0].u() as u32),
            3 => x.set_length(vs[0].u()),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_kind() != had.is_some() { return Err("Stream.has_kind".into()); }
            x.clear_kind();
            same_m("Stream after clear_kind", &x.view(), &rest)?;
            same("default of Stream.kind", &[V::I(x.get_kind().value() as i64)], &[V::I(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_column() != had.is_some() { return Err("Stream.has_column".into()); }
            x.clear_column();
            same_m("Stream after clear_column", &x.view(), &rest)?;
            same("default of Stream.column", &[V::U(x.get_column() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            if x.has_length() != had.is_some() { return Err("Stream.has_length".into()); }
            x.clear_length();
            same_m("Stream after clear_length", &x.view(), &rest)?;
            same("default of Stream.length", &[V::U(x.get_length() as u64)], &[V::U(0)])?;
        }
        Ok(())
    }
}

impl Msgs for p::ColumnEncoding {
    const ID: usize = 14;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_kind() { m.f.entry(1).or_default().push(V::I(self.get_kind().value() as i64)); }
        if self.has_dictionarySize() { m.f.entry(2).or_default().push(V::U(self.get_dictionarySize() as u64)); }
        if self.has_bloomEncoding() { m.f.entry(3).or_default().push(V::U(self.get_bloomEncoding() as u64)); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::ColumnEncoding::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_kind(p::ColumnEncoding_Kind::from_i32(vs[0].i() as i32).unwrap()),
            2 => x.set_dictionarySize(vs[0].u() as u32),
            3 => x.set_bloomEncoding(vs[0].u() as u32),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_kind() != had.is_some() { return Err("ColumnEncoding.has_kind".into()); }
            x.clear_kind();
            same_m("ColumnEncoding after clear_kind", &x.view(), &rest)?;
            same("default of ColumnEncoding.kind", &[V::I(x.get_kind().value() as i64)], &[V::I(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_dictionarySize() != had.is_some() { return Err("ColumnEncoding.has_dictionarySize".into()); }
            x.clear_dictionarySize();
            same_m("ColumnEncoding after clear_dictionarySize", &x.view(), &rest)?;
            same("default of ColumnEncoding.dictionarySize", &[V::U(x.get_dictionarySize() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            if x.has_bloomEncoding() != had.is_some() { return Err("ColumnEncoding.has_bloomEncoding".into()); }
            x.clear_bloomEncoding();
            same_m("ColumnEncoding after clear_bloomEncoding", &x.view(), &rest)?;
            same("default of ColumnEncoding.bloomEncoding", &[V::U(x.get_bloomEncoding() as u64)], &[V::U(0)])?;
        }
        Ok(())
    }
}

impl Msgs for p::StripeFooter {
    const ID: usize = 15;
    fn view(&self) -> M {
        let mut m = M::default();
        for x in self.get_streams().iter() { m.f.entry(1).or_default().push(V::M(x.view())); }
        for x in self.get_columns().iter() { m.f.entry(2).or_default().push(V::M(x.view())); }
        if self.has_writerTimezone() { m.f.entry(3).or_default().push(V::B(self.get_writerTimezone().as_bytes().to_vec())); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::StripeFooter::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_streams(RepeatedField::from_vec(vs.iter().map(|v| p::Stream::build(v.m())).collect::<Vec<_>>())),
            2 => x.set_columns(RepeatedField::from_vec(vs.iter().map(|v| p::ColumnEncoding::build(v.m())).collect::<Vec<_>>())),
            3 => x.set_writerTimezone(String::from_utf8(vs[0].b()).unwrap()),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            let taken: Vec<V> = x.take_streams().iter().map(|x| V::M(x.view())).collect();
            same("StripeFooter.take_streams", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("StripeFooter after take_streams", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_streams().push(p::Stream::build(h[0].m())); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&1).unwrap().push(h[0].clone()); }
            same_m("StripeFooter after mut_streams", &x.view(), &more)?;
            x.clear_streams();
            same_m("StripeFooter after clear_streams", &x.view(), &rest)?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            let taken: Vec<V> = x.take_columns().iter().map(|x| V::M(x.view())).collect();
            same("StripeFooter.take_columns", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("StripeFooter after take_columns", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_columns().push(p::ColumnEncoding::build(h[0].m())); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&2).unwrap().push(h[0].clone()); }
            same_m("StripeFooter after mut_columns", &x.view(), &more)?;
            x.clear_columns();
            same_m("StripeFooter after clear_columns", &x.view(), &rest)?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            if x.has_writerTimezone() != had.is_some() { return Err("StripeFooter.has_writerTimezone".into()); }
            let taken = x.take_writerTimezone();
            if let Some(h) = &had { same("StripeFooter.take_writerTimezone", &[V::B(taken.as_bytes().to_vec())], h)?; }
            same_m("StripeFooter after take_writerTimezone", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_writerTimezone(); if had.is_some() { same_m("StripeFooter after mut_writerTimezone", &x.view(), m)?; } else if !x.has_writerTimezone() { return Err("StripeFooter.mut_writerTimezone does not set the field".into()); }
            x.clear_writerTimezone();
            same_m("StripeFooter after clear_writerTimezone", &x.view(), &rest)?;
            same("default of StripeFooter.writerTimezone", &[V::B(x.get_writerTimezone().as_bytes().to_vec())], &[V::B(vec![])])?;
        }
        Ok(())
    }
}

impl Msgs for p::Type {
    const ID: usize = 16;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_kind() { m.f.entry(1).or_default().push(V::I(self.get_kind().value() as i64)); }
        for x in self.get_subtypes().iter() { m.f.entry(2).or_default().push(V::U(*x as u64)); }
        for x in self.get_fieldNames().iter() { m.f.entry(3).or_default().push(V::B(x.as_bytes().to_vec())); }
        if self.has_maximumLength() { m.f.entry(4).or_default().push(V::U(self.get_maximumLength() as u64)); }
        if self.has_precision() { m.f.entry(5).or_default().push(V::U(self.get_precision() as u64)); }
        if self.has_scale() { m.f.entry(6).or_default().push(V::U(self.get_scale() as u64)); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::Type::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_kind(p::Type_Kind::from_i32(vs[0].i() as i32).unwrap()),
            2 => x.set_subtypes(vs.iter().map(|v| v.u() as u32).collect::<Vec<_>>()),
            3 => x.set_fieldNames(RepeatedField::from_vec(vs.iter().map(|v| String::from_utf8(v.b()).unwrap()).collect::<Vec<_>>())),
            4 => x.set_maximumLength(vs[0].u() as u32),
            5 => x.set_precision(vs[0].u() as u32),
            6 => x.set_scale(vs[0].u() as u32),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_kind() != had.is_some() { return Err("Type.has_kind".into()); }
            x.clear_kind();
            same_m("Type after clear_kind", &x.view(), &rest)?;
            same("default of Type.kind", &[V::I(x.get_kind().value() as i64)], &[V::I(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            let taken: Vec<V> = x.take_subtypes().iter().map(|x| V::U(*x as u64)).collect();
            same("Type.take_subtypes", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("Type after take_subtypes", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_subtypes().push(h[0].u() as u32); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&2).unwrap().push(h[0].clone()); }
            same_m("Type after mut_subtypes", &x.view(), &more)?;
            x.clear_subtypes();
            same_m("Type after clear_subtypes", &x.view(), &rest)?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            let taken: Vec<V> = x.take_fieldNames().iter().map(|x| V::B(x.as_bytes().to_vec())).collect();
            same("Type.take_fieldNames", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("Type after take_fieldNames", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_fieldNames().push(String::from_utf8(h[0].b()).unwrap()); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&3).unwrap().push(h[0].clone()); }
            same_m("Type after mut_fieldNames", &x.view(), &more)?;
            x.clear_fieldNames();
            same_m("Type after clear_fieldNames", &x.view(), &rest)?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&4);
            if x.has_maximumLength() != had.is_some() { return Err("Type.has_maximumLength".into()); }
            x.clear_maximumLength();
            same_m("Type after clear_maximumLength", &x.view(), &rest)?;
            same("default of Type.maximumLength", &[V::U(x.get_maximumLength() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&5);
            if x.has_precision() != had.is_some() { return Err("Type.has_precision".into()); }
            x.clear_precision();
            same_m("Type after clear_precision", &x.view(), &rest)?;
            same("default of Type.precision", &[V::U(x.get_precision() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&6);
            if x.has_scale() != had.is_some() { return Err("Type.has_scale".into()); }
            x.clear_scale();
            same_m("Type after clear_scale", &x.view(), &rest)?;
            same("default of Type.scale", &[V::U(x.get_scale() as u64)], &[V::U(0)])?;
        }
        Ok(())
    }
}

impl Msgs for p::StripeInformation {
    const ID: usize = 17;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_offset() { m.f.entry(1).or_default().push(V::U(self.get_offset() as u64)); }
        if self.has_indexLength() { m.f.entry(2).or_default().push(V::U(self.get_indexLength() as u64)); }
        if self.has_dataLength() { m.f.entry(3).or_default().push(V::U(self.get_dataLength() as u64)); }
        if self.has_footerLength() { m.f.entry(4).or_default().push(V::U(self.get_footerLength() as u64)); }
        if self.has_numberOfRows() { m.f.entry(5).or_default().push(V::U(self.get_numberOfRows() as u64)); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::StripeInformation::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_offset(vs[0].u()),
            2 => x.set_indexLength(vs[0].u()),
            3 => x.set_dataLength(vs[0].u()),
            4 => x.set_footerLength(vs[0].u()),
            5 => x.set_numberOfRows(vs[0].u()),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_offset() != had.is_some() { return Err("StripeInformation.has_offset".into()); }
            x.clear_offset();
            same_m("StripeInformation after clear_offset", &x.view(), &rest)?;
            same("default of StripeInformation.offset", &[V::U(x.get_offset() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_indexLength() != had.is_some() { return Err("StripeInformation.has_indexLength".into()); }
            x.clear_indexLength();
            same_m("StripeInformation after clear_indexLength", &x.view(), &rest)?;
            same("default of StripeInformation.indexLength", &[V::U(x.get_indexLength() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            if x.has_dataLength() != had.is_some() { return Err("StripeInformation.has_dataLength".into()); }
            x.clear_dataLength();
            same_m("StripeInformation after clear_dataLength", &x.view(), &rest)?;
            same("default of StripeInformation.dataLength", &[V::U(x.get_dataLength() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&4);
            if x.has_footerLength() != had.is_some() { return Err("StripeInformation.has_footerLength".into()); }
            x.clear_footerLength();
            same_m("StripeInformation after clear_footerLength", &x.view(), &rest)?;
            same("default of StripeInformation.footerLength", &[V::U(x.get_footerLength() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&5);
            if x.has_numberOfRows() != had.is_some() { return Err("StripeInformation.has_numberOfRows".into()); }
            x.clear_numberOfRows();
            same_m("StripeInformation after clear_numberOfRows", &x.view(), &rest)?;
            same("default of StripeInformation.numberOfRows", &[V::U(x.get_numberOfRows() as u64)], &[V::U(0)])?;
        }
        Ok(())
    }
}

impl Msgs for p::UserMetadataItem {
    const ID: usize = 18;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_name() { m.f.entry(1).or_default().push(V::B(self.get_name().as_bytes().to_vec())); }
        if self.has_value() { m.f.entry(2).or_default().push(V::B(self.get_value().to_vec())); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::UserMetadataItem::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_name(String::from_utf8(vs[0].b()).unwrap()),
            2 => x.set_value(vs[0].b()),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_name() != had.is_some() { return Err("UserMetadataItem.has_name".into()); }
            let taken = x.take_name();
            if let Some(h) = &had { same("UserMetadataItem.take_name", &[V::B(taken.as_bytes().to_vec())], h)?; }
            same_m("UserMetadataItem after take_name", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_name(); if had.is_some() { same_m("UserMetadataItem after mut_name", &x.view(), m)?; } else if !x.has_name() { return Err("UserMetadataItem.mut_name does not set the field".into()); }
            x.clear_name();
            same_m("UserMetadataItem after clear_name", &x.view(), &rest)?;
            same("default of UserMetadataItem.name", &[V::B(x.get_name().as_bytes().to_vec())], &[V::B(vec![])])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_value() != had.is_some() { return Err("UserMetadataItem.has_value".into()); }
            let taken = x.take_value();
            if let Some(h) = &had { same("UserMetadataItem.take_value", &[V::B(taken.to_vec())], h)?; }
            same_m("UserMetadataItem after take_value", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_value(); if had.is_some() { same_m("UserMetadataItem after mut_value", &x.view(), m)?; } else if !x.has_value() { return Err("UserMetadataItem.mut_value does not set the field".into()); }
            x.clear_value();
            same_m("UserMetadataItem after clear_value", &x.view(), &rest)?;
            same("default of UserMetadataItem.value", &[V::B(x.get_value().to_vec())], &[V::B(vec![])])?;
        }
        Ok(())
    }
}

impl Msgs for p::StripeStatistics {
    const ID: usize = 19;
    fn view(&self) -> M {
        let mut m = M::default();
        for x in self.get_colStats().iter() { m.f.entry(1).or_default().push(V::M(x.view())); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::StripeStatistics::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_colStats(RepeatedField::from_vec(vs.iter().map(|v| p::ColumnStatistics::build(v.m())).collect::<Vec<_>>())),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            let taken: Vec<V> = x.take_colStats().iter().map(|x| V::M(x.view())).collect();
            same("StripeStatistics.take_colStats", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("StripeStatistics after take_colStats", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_colStats().push(p::ColumnStatistics::build(h[0].m())); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&1).unwrap().push(h[0].clone()); }
            same_m("StripeStatistics after mut_colStats", &x.view(), &more)?;
            x.clear_colStats();
            same_m("StripeStatistics after clear_colStats", &x.view(), &rest)?;
        }
        Ok(())
    }
}

impl Msgs for p::Metadata {
    const ID: usize = 20;
    fn view(&self) -> M {
        let mut m = M::default();
        for x in self.get_stripeStats().iter() { m.f.entry(1).or_default().push(V::M(x.view())); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::Metadata::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_stripeStats(RepeatedField::from_vec(vs.iter().map(|v| p::StripeStatistics::build(v.m())).collect::<Vec<_>>())),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            let taken: Vec<V> = x.take_stripeStats().iter().map(|x| V::M(x.view())).collect();
            same("Metadata.take_stripeStats", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("Metadata after take_stripeStats", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_stripeStats().push(p::StripeStatistics::build(h[0].m())); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&1).unwrap().push(h[0].clone()); }
            same_m("Metadata after mut_stripeStats", &x.view(), &more)?;
            x.clear_stripeStats();
            same_m("Metadata after clear_stripeStats", &x.view(), &rest)?;
        }
        Ok(())
    }
}

impl Msgs for p::Footer {
    const ID: usize = 21;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_headerLength() { m.f.entry(1).or_default().push(V::U(self.get_headerLength() as u64)); }
        if self.has_contentLength() { m.f.entry(2).or_default().push(V::U(self.get_contentLength() as u64)); }
        for x in self.get_stripes().iter() { m.f.entry(3).or_default().push(V::M(x.view())); }
        for x in self.get_types().iter() { m.f.entry(4).or_default().push(V::M(x.view())); }
        for x in self.get_metadata().iter() { m.f.entry(5).or_default().push(V::M(x.view())); }
        if self.has_numberOfRows() { m.f.entry(6).or_default().push(V::U(self.get_numberOfRows() as u64)); }
        for x in self.get_statistics().iter() { m.f.entry(7).or_default().push(V::M(x.view())); }
        if self.has_rowIndexStride() { m.f.entry(8).or_default().push(V::U(self.get_rowIndexStride() as u64)); }
        if self.has_writer() { m.f.entry(9).or_default().push(V::U(self.get_writer() as u64)); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::Footer::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_headerLength(vs[0].u()),
            2 => x.set_contentLength(vs[0].u()),
            3 => x.set_stripes(RepeatedField::from_vec(vs.iter().map(|v| p::StripeInformation::build(v.m())).collect::<Vec<_>>())),
            4 => x.set_types(RepeatedField::from_vec(vs.iter().map(|v| p::Type::build(v.m())).collect::<Vec<_>>())),
            5 => x.set_metadata(RepeatedField::from_vec(vs.iter().map(|v| p::UserMetadataItem::build(v.m())).collect::<Vec<_>>())),
            6 => x.set_numberOfRows(vs[0].u()),
            7 => x.set_statistics(RepeatedField::from_vec(vs.iter().map(|v| p::ColumnStatistics::build(v.m())).collect::<Vec<_>>())),
            8 => x.set_rowIndexStride(vs[0].u() as u32),
            9 => x.set_writer(vs[0].u() as u32),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_headerLength() != had.is_some() { return Err("Footer.has_headerLength".into()); }
            x.clear_headerLength();
            same_m("Footer after clear_headerLength", &x.view(), &rest)?;
            same("default of Footer.headerLength", &[V::U(x.get_headerLength() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_contentLength() != had.is_some() { return Err("Footer.has_contentLength".into()); }
            x.clear_contentLength();
            same_m("Footer after clear_contentLength", &x.view(), &rest)?;
            same("default of Footer.contentLength", &[V::U(x.get_contentLength() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            let taken: Vec<V> = x.take_stripes().iter().map(|x| V::M(x.view())).collect();
            same("Footer.take_stripes", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("Footer after take_stripes", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_stripes().push(p::StripeInformation::build(h[0].m())); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&3).unwrap().push(h[0].clone()); }
            same_m("Footer after mut_stripes", &x.view(), &more)?;
            x.clear_stripes();
            same_m("Footer after clear_stripes", &x.view(), &rest)?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&4);
            let taken: Vec<V> = x.take_types().iter().map(|x| V::M(x.view())).collect();
            same("Footer.take_types", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("Footer after take_types", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_types().push(p::Type::build(h[0].m())); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&4).unwrap().push(h[0].clone()); }
            same_m("Footer after mut_types", &x.view(), &more)?;
            x.clear_types();
            same_m("Footer after clear_types", &x.view(), &rest)?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&5);
            let taken: Vec<V> = x.take_metadata().iter().map(|x| V::M(x.view())).collect();
            same("Footer.take_metadata", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("Footer after take_metadata", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_metadata().push(p::UserMetadataItem::build(h[0].m())); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&5).unwrap().push(h[0].clone()); }
            same_m("Footer after mut_metadata", &x.view(), &more)?;
            x.clear_metadata();
            same_m("Footer after clear_metadata", &x.view(), &rest)?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&6);
            if x.has_numberOfRows() != had.is_some() { return Err("Footer.has_numberOfRows".into()); }
            x.clear_numberOfRows();
            same_m("Footer after clear_numberOfRows", &x.view(), &rest)?;
            same("default of Footer.numberOfRows", &[V::U(x.get_numberOfRows() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&7);
            let taken: Vec<V> = x.take_statistics().iter().map(|x| V::M(x.view())).collect();
            same("Footer.take_statistics", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("Footer after take_statistics", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_statistics().push(p::ColumnStatistics::build(h[0].m())); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&7).unwrap().push(h[0].clone()); }
            same_m("Footer after mut_statistics", &x.view(), &more)?;
            x.clear_statistics();
            same_m("Footer after clear_statistics", &x.view(), &rest)?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&8);
            if x.has_rowIndexStride() != had.is_some() { return Err("Footer.has_rowIndexStride".into()); }
            x.clear_rowIndexStride();
            same_m("Footer after clear_rowIndexStride", &x.view(), &rest)?;
            same("default of Footer.rowIndexStride", &[V::U(x.get_rowIndexStride() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&9);
            if x.has_writer() != had.is_some() { return Err("Footer.has_writer".into()); }
            x.clear_writer();
            same_m("Footer after clear_writer", &x.view(), &rest)?;
            same("default of Footer.writer", &[V::U(x.get_writer() as u64)], &[V::U(0)])?;
        }
        Ok(())
    }
}

impl Msgs for p::PostScript {
    const ID: usize = 22;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_footerLength() { m.f.entry(1).or_default().push(V::U(self.get_footerLength() as u64)); }
        if self.has_compression() { m.f.entry(2).or_default().push(V::I(self.get_compression().value() as i64)); }
        if self.has_compressionBlockSize() { m.f.entry(3).or_default().push(V::U(self.get_compressionBlockSize() as u64)); }
        for x in self.get_version().iter() { m.f.entry(4).or_default().push(V::U(*x as u64)); }
        if self.has_metadataLength() { m.f.entry(5).or_default().push(V::U(self.get_metadataLength() as u64)); }
        if self.has_writerVersion() { m.f.entry(6).or_default().push(V::U(self.get_writerVersion() as u64)); }
        if self.has_magic() { m.f.entry(8000).or_default().push(V::B(self.get_magic().as_bytes().to_vec())); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::PostScript::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_footerLength(vs[0].u()),
            2 => x.set_compression(p::CompressionKind::from_i32(vs[0].i() as i32).unwrap()),
            3 => x.set_compressionBlockSize(vs[0].u()),
            4 => x.set_version(vs.iter().map(|v| v.u() as u32).collect::<Vec<_>>()),
            5 => x.set_metadataLength(vs[0].u()),
            6 => x.set_writerVersion(vs[0].u() as u32),
            8000 => x.set_magic(String::from_utf8(vs[0].b()).unwrap()),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_footerLength() != had.is_some() { return Err("PostScript.has_footerLength".into()); }
            x.clear_footerLength();
            same_m("PostScript after clear_footerLength", &x.view(), &rest)?;
            same("default of PostScript.footerLength", &[V::U(x.get_footerLength() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_compression() != had.is_some() { return Err("PostScript.has_compression".into()); }
            x.clear_compression();
            same_m("PostScript after clear_compression", &x.view(), &rest)?;
            same("default of PostScript.compression", &[V::I(x.get_compression().value() as i64)], &[V::I(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            if x.has_compressionBlockSize() != had.is_some() { return Err("PostScript.has_compressionBlockSize".into()); }
            x.clear_compressionBlockSize();
            same_m("PostScript after clear_compressionBlockSize", &x.view(), &rest)?;
            same("default of PostScript.compressionBlockSize", &[V::U(x.get_compressionBlockSize() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&4);
            let taken: Vec<V> = x.take_version().iter().map(|x| V::U(*x as u64)).collect();
            same("PostScript.take_version", &taken, had.as_deref().unwrap_or(&[]))?;
            same_m("PostScript after take_version", &x.view(), &rest)?;
            let mut x = Self::build(m); if let Some(h) = &had { x.mut_version().push(h[0].u() as u32); }
            let mut more = m.clone(); if let Some(h) = &had { more.f.get_mut(&4).unwrap().push(h[0].clone()); }
            same_m("PostScript after mut_version", &x.view(), &more)?;
            x.clear_version();
            same_m("PostScript after clear_version", &x.view(), &rest)?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&5);
            if x.has_metadataLength() != had.is_some() { return Err("PostScript.has_metadataLength".into()); }
            x.clear_metadataLength();
            same_m("PostScript after clear_metadataLength", &x.view(), &rest)?;
            same("default of PostScript.metadataLength", &[V::U(x.get_metadataLength() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&6);
            if x.has_writerVersion() != had.is_some() { return Err("PostScript.has_writerVersion".into()); }
            x.clear_writerVersion();
            same_m("PostScript after clear_writerVersion", &x.view(), &rest)?;
            same("default of PostScript.writerVersion", &[V::U(x.get_writerVersion() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&8000);
            if x.has_magic() != had.is_some() { return Err("PostScript.has_magic".into()); }
            let taken = x.take_magic();
            if let Some(h) = &had { same("PostScript.take_magic", &[V::B(taken.as_bytes().to_vec())], h)?; }
            same_m("PostScript after take_magic", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_magic(); if had.is_some() { same_m("PostScript after mut_magic", &x.view(), m)?; } else if !x.has_magic() { return Err("PostScript.mut_magic does not set the field".into()); }
            x.clear_magic();
            same_m("PostScript after clear_magic", &x.view(), &rest)?;
            same("default of PostScript.magic", &[V::B(x.get_magic().as_bytes().to_vec())], &[V::B(vec![])])?;
        }
        Ok(())
    }
}

impl Msgs for p::FileTail {
    const ID: usize = 23;
    fn view(&self) -> M {
        let mut m = M::default();
        if self.has_postscript() { m.f.entry(1).or_default().push(V::M(self.get_postscript().view())); }
        if self.has_footer() { m.f.entry(2).or_default().push(V::M(self.get_footer().view())); }
        if self.has_fileLength() { m.f.entry(3).or_default().push(V::U(self.get_fileLength() as u64)); }
        if self.has_postscriptLength() { m.f.entry(4).or_default().push(V::U(self.get_postscriptLength() as u64)); }
        m.unknown(&self.unknown_fields);
        m
    }
    fn build(m: &M) -> Self {
        let mut x = p::FileTail::new();
        for (n, vs) in &m.f { match n {
            1 => x.set_postscript(p::PostScript::build(vs[0].m())),
            2 => x.set_footer(p::Footer::build(vs[0].m())),
            3 => x.set_fileLength(vs[0].u()),
            4 => x.set_postscriptLength(vs[0].u()),
            _ => unreachable!(),
        } }
        x
    }
    fn accessors(m: &M) -> Result<(), String> {
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&1);
            if x.has_postscript() != had.is_some() { return Err("FileTail.has_postscript".into()); }
            let taken = x.take_postscript();
            if let Some(h) = &had { same("FileTail.take_postscript", &[V::M(taken.view())], h)?; }
            same_m("FileTail after take_postscript", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_postscript(); if had.is_some() { same_m("FileTail after mut_postscript", &x.view(), m)?; } else if !x.has_postscript() { return Err("FileTail.mut_postscript does not set the field".into()); }
            x.clear_postscript();
            same_m("FileTail after clear_postscript", &x.view(), &rest)?;
            same("default of FileTail.postscript", &[V::M(x.get_postscript().view())], &[V::M(M::default())])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&2);
            if x.has_footer() != had.is_some() { return Err("FileTail.has_footer".into()); }
            let taken = x.take_footer();
            if let Some(h) = &had { same("FileTail.take_footer", &[V::M(taken.view())], h)?; }
            same_m("FileTail after take_footer", &x.view(), &rest)?;
            let mut x = Self::build(m); let _ = x.mut_footer(); if had.is_some() { same_m("FileTail after mut_footer", &x.view(), m)?; } else if !x.has_footer() { return Err("FileTail.mut_footer does not set the field".into()); }
            x.clear_footer();
            same_m("FileTail after clear_footer", &x.view(), &rest)?;
            same("default of FileTail.footer", &[V::M(x.get_footer().view())], &[V::M(M::default())])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&3);
            if x.has_fileLength() != had.is_some() { return Err("FileTail.has_fileLength".into()); }
            x.clear_fileLength();
            same_m("FileTail after clear_fileLength", &x.view(), &rest)?;
            same("default of FileTail.fileLength", &[V::U(x.get_fileLength() as u64)], &[V::U(0)])?;
        }
        {
            let mut x = Self::build(m);
            let mut rest = m.clone(); let had = rest.f.remove(&4);
            if x.has_postscriptLength() != had.is_some() { return Err("FileTail.has_postscriptLength".into()); }
            x.clear_postscriptLength();
            same_m("FileTail after clear_postscriptLength", &x.view(), &rest)?;
            same("default of FileTail.postscriptLength", &[V::U(x.get_postscriptLength() as u64)], &[V::U(0)])?;
        }
        Ok(())
    }
}

pub fn ops(id: usize) -> Box<dyn Ops + Sync> {
    match id {
        0 => Box::new(Of::<p::IntegerStatistics>(std::marker::PhantomData)),
        1 => Box::new(Of::<p::DoubleStatistics>(std::marker::PhantomData)),
        2 => Box::new(Of::<p::StringStatistics>(std::marker::PhantomData)),
        3 => Box::new(Of::<p::BucketStatistics>(std::marker::PhantomData)),
        4 => Box::new(Of::<p::DecimalStatistics>(std::marker::PhantomData)),
        5 => Box::new(Of::<p::DateStatistics>(std::marker::PhantomData)),
        6 => Box::new(Of::<p::TimestampStatistics>(std::marker::PhantomData)),
        7 => Box::new(Of::<p::BinaryStatistics>(std::marker::PhantomData)),
        8 => Box::new(Of::<p::ColumnStatistics>(std::marker::PhantomData)),
        9 => Box::new(Of::<p::RowIndexEntry>(std::marker::PhantomData)),
        10 => Box::new(Of::<p::RowIndex>(std::marker::PhantomData)),
        11 => Box::new(Of::<p::BloomFilter>(std::marker::PhantomData)),
        12 => Box::new(Of::<p::BloomFilterIndex>(std::marker::PhantomData)),
        13 => Box::new(Of::<p::Stream>(std::marker::PhantomData)),
        14 => Box::new(Of::<p::ColumnEncoding>(std::marker::PhantomData)),
        15 => Box::new(Of::<p::StripeFooter>(std::marker::PhantomData)),
        16 => Box::new(Of::<p::Type>(std::marker::PhantomData)),
        17 => Box::new(Of::<p::StripeInformation>(std::marker::PhantomData)),
        18 => Box::new(Of::<p::UserMetadataItem>(std::marker::PhantomData)),
        19 => Box::new(Of::<p::StripeStatistics>(std::marker::PhantomData)),
        20 => Box::new(Of::<p::Metadata>(std::marker::PhantomData)),
        21 => Box::new(Of::<p::Footer>(std::marker::PhantomData)),
        22 => Box::new(Of::<p::PostScript>(std::marker::PhantomData)),
        23 => Box::new(Of::<p::FileTail>(std::marker::PhantomData)),
        _ => unreachable!(),
    }
}

pub fn enums() -> Result<(), String> {
    { let vs = p::Stream_Kind::values(); if vs.len() != 9 { return Err("Stream_Kind: number of values".into()); }
      if p::Stream_Kind::PRESENT.value() != 0 || p::Stream_Kind::from_i32(0) != Some(p::Stream_Kind::PRESENT) || !vs.contains(&p::Stream_Kind::PRESENT) || p::Stream_Kind::PRESENT.descriptor().name() != "PRESENT" { return Err("Stream_Kind::PRESENT".into()); }
      if p::Stream_Kind::DATA.value() != 1 || p::Stream_Kind::from_i32(1) != Some(p::Stream_Kind::DATA) || !vs.contains(&p::Stream_Kind::DATA) || p::Stream_Kind::DATA.descriptor().name() != "DATA" { return Err("Stream_Kind::DATA".into()); }
      if p::Stream_Kind::LENGTH.value() != 2 || p::Stream_Kind::from_i32(2) != Some(p::Stream_Kind::LENGTH) || !vs.contains(&p::Stream_Kind::LENGTH) || p::Stream_Kind::LENGTH.descriptor().name() != "LENGTH" { return Err("Stream_Kind::LENGTH".into()); }
      if p::Stream_Kind::DICTIONARY_DATA.value() != 3 || p::Stream_Kind::from_i32(3) != Some(p::Stream_Kind::DICTIONARY_DATA) || !vs.contains(&p::Stream_Kind::DICTIONARY_DATA) || p::Stream_Kind::DICTIONARY_DATA.descriptor().name() != "DICTIONARY_DATA" { return Err("Stream_Kind::DICTIONARY_DATA".into()); }
      if p::Stream_Kind::DICTIONARY_COUNT.value() != 4 || p::Stream_Kind::from_i32(4) != Some(p::Stream_Kind::DICTIONARY_COUNT) || !vs.contains(&p::Stream_Kind::DICTIONARY_COUNT) || p::Stream_Kind::DICTIONARY_COUNT.descriptor().name() != "DICTIONARY_COUNT" { return Err("Stream_Kind::DICTIONARY_COUNT".into()); }
      if p::Stream_Kind::SECONDARY.value() != 5 || p::Stream_Kind::from_i32(5) != Some(p::Stream_Kind::SECONDARY) || !vs.contains(&p::Stream_Kind::SECONDARY) || p::Stream_Kind::SECONDARY.descriptor().name() != "SECONDARY" { return Err("Stream_Kind::SECONDARY".into()); }
      if p::Stream_Kind::ROW_INDEX.value() != 6 || p::Stream_Kind::from_i32(6) != Some(p::Stream_Kind::ROW_INDEX) || !vs.contains(&p::Stream_Kind::ROW_INDEX) || p::Stream_Kind::ROW_INDEX.descriptor().name() != "ROW_INDEX" { return Err("Stream_Kind::ROW_INDEX".into()); }
      if p::Stream_Kind::BLOOM_FILTER.value() != 7 || p::Stream_Kind::from_i32(7) != Some(p::Stream_Kind::BLOOM_FILTER) || !vs.contains(&p::Stream_Kind::BLOOM_FILTER) || p::Stream_Kind::BLOOM_FILTER.descriptor().name() != "BLOOM_FILTER" { return Err("Stream_Kind::BLOOM_FILTER".into()); }
      if p::Stream_Kind::BLOOM_FILTER_UTF8.value() != 8 || p::Stream_Kind::from_i32(8) != Some(p::Stream_Kind::BLOOM_FILTER_UTF8) || !vs.contains(&p::Stream_Kind::BLOOM_FILTER_UTF8) || p::Stream_Kind::BLOOM_FILTER_UTF8.descriptor().name() != "BLOOM_FILTER_UTF8" { return Err("Stream_Kind::BLOOM_FILTER_UTF8".into()); }
      for i in -5..100 { if p::Stream_Kind::from_i32(i).is_some() != [0, 1, 2, 3, 4, 5, 6, 7, 8].contains(&i) { return Err(format!("Stream_Kind::from_i32({})", i)); } }
      if p::Stream_Kind::default() != p::Stream_Kind::PRESENT { return Err("Stream_Kind::default".into()); } }
    { let vs = p::ColumnEncoding_Kind::values(); if vs.len() != 4 { return Err("ColumnEncoding_Kind: number of values".into()); }
      if p::ColumnEncoding_Kind::DIRECT.value() != 0 || p::ColumnEncoding_Kind::from_i32(0) != Some(p::ColumnEncoding_Kind::DIRECT) || !vs.contains(&p::ColumnEncoding_Kind::DIRECT) || p::ColumnEncoding_Kind::DIRECT.descriptor().name() != "DIRECT" { return Err("ColumnEncoding_Kind::DIRECT".into()); }
      if p::ColumnEncoding_Kind::DICTIONARY.value() != 1 || p::ColumnEncoding_Kind::from_i32(1) != Some(p::ColumnEncoding_Kind::DICTIONARY) || !vs.contains(&p::ColumnEncoding_Kind::DICTIONARY) || p::ColumnEncoding_Kind::DICTIONARY.descriptor().name() != "DICTIONARY" { return Err("ColumnEncoding_Kind::DICTIONARY".into()); }
      if p::ColumnEncoding_Kind::DIRECT_V2.value() != 2 || p::ColumnEncoding_Kind::from_i32(2) != Some(p::ColumnEncoding_Kind::DIRECT_V2) || !vs.contains(&p::ColumnEncoding_Kind::DIRECT_V2) || p::ColumnEncoding_Kind::DIRECT_V2.descriptor().name() != "DIRECT_V2" { return Err("ColumnEncoding_Kind::DIRECT_V2".into()); }
      if p::ColumnEncoding_Kind::DICTIONARY_V2.value() != 3 || p::ColumnEncoding_Kind::from_i32(3) != Some(p::ColumnEncoding_Kind::DICTIONARY_V2) || !vs.contains(&p::ColumnEncoding_Kind::DICTIONARY_V2) || p::ColumnEncoding_Kind::DICTIONARY_V2.descriptor().name() != "DICTIONARY_V2" { return Err("ColumnEncoding_Kind::DICTIONARY_V2".into()); }
      for i in -5..100 { if p::ColumnEncoding_Kind::from_i32(i).is_some() != [0, 1, 2, 3].contains(&i) { return Err(format!("ColumnEncoding_Kind::from_i32({})", i)); } }
      if p::ColumnEncoding_Kind::default() != p::ColumnEncoding_Kind::DIRECT { return Err("ColumnEncoding_Kind::default".into()); } }
    { let vs = p::Type_Kind::values(); if vs.len() != 18 { return Err("Type_Kind: number of values".into()); }
      if p::Type_Kind::BOOLEAN.value() != 0 || p::Type_Kind::from_i32(0) != Some(p::Type_Kind::BOOLEAN) || !vs.contains(&p::Type_Kind::BOOLEAN) || p::Type_Kind::BOOLEAN.descriptor().name() != "BOOLEAN" { return Err("Type_Kind::BOOLEAN".into()); }
      if p::Type_Kind::BYTE.value() != 1 || p::Type_Kind::from_i32(1) != Some(p::Type_Kind::BYTE) || !vs.contains(&p::Type_Kind::BYTE) || p::Type_Kind::BYTE.descriptor().name() != "BYTE" { return Err("Type_Kind::BYTE".into()); }
      if p::Type_Kind::SHORT.value() != 2 || p::Type_Kind::from_i32(2) != Some(p::Type_Kind::SHORT) || !vs.contains(&p::Type_Kind::SHORT) || p::Type_Kind::SHORT.descriptor().name() != "SHORT" { return Err("Type_Kind::SHORT".into()); }
      if p::Type_Kind::INT.value() != 3 || p::Type_Kind::from_i32(3) != Some(p::Type_Kind::INT) || !vs.contains(&p::Type_Kind::INT) || p::Type_Kind::INT.descriptor().name() != "INT" { return Err("Type_Kind::INT".into()); }
      if p::Type_Kind::LONG.value() != 4 || p::Type_Kind::from_i32(4) != Some(p::Type_Kind::LONG) || !vs.contains(&p::Type_Kind::LONG) || p::Type_Kind::LONG.descriptor().name() != "LONG" { return Err("Type_Kind::LONG".into()); }
      if p::Type_Kind::FLOAT.value() != 5 || p::Type_Kind::from_i32(5) != Some(p::Type_Kind::FLOAT) || !vs.contains(&p::Type_Kind::FLOAT) || p::Type_Kind::FLOAT.descriptor().name() != "FLOAT" { return Err("Type_Kind::FLOAT".into()); }
      if p::Type_Kind::DOUBLE.value() != 6 || p::Type_Kind::from_i32(6) != Some(p::Type_Kind::DOUBLE) || !vs.contains(&p::Type_Kind::DOUBLE) || p::Type_Kind::DOUBLE.descriptor().name() != "DOUBLE" { return Err("Type_Kind::DOUBLE".into()); }
      if p::Type_Kind::STRING.value() != 7 || p::Type_Kind::from_i32(7) != Some(p::Type_Kind::STRING) || !vs.contains(&p::Type_Kind::STRING) || p::Type_Kind::STRING.descriptor().name() != "STRING" { return Err("Type_Kind::STRING".into()); }
      if p::Type_Kind::BINARY.value() != 8 || p::Type_Kind::from_i32(8) != Some(p::Type_Kind::BINARY) || !vs.contains(&p::Type_Kind::BINARY) || p::Type_Kind::BINARY.descriptor().name() != "BINARY" { return Err("Type_Kind::BINARY".into()); }
      if p::Type_Kind::TIMESTAMP.value() != 9 || p::Type_Kind::from_i32(9) != Some(p::Type_Kind::TIMESTAMP) || !vs.contains(&p::Type_Kind::TIMESTAMP) || p::Type_Kind::TIMESTAMP.descriptor().name() != "TIMESTAMP" { return Err("Type_Kind::TIMESTAMP".into()); }
      if p::Type_Kind::LIST.value() != 10 || p::Type_Kind::from_i32(10) != Some(p::Type_Kind::LIST) || !vs.contains(&p::Type_Kind::LIST) || p::Type_Kind::LIST.descriptor().name() != "LIST" { return Err("Type_Kind::LIST".into()); }
      if p::Type_Kind::MAP.value() != 11 || p::Type_Kind::from_i32(11) != Some(p::Type_Kind::MAP) || !vs.contains(&p::Type_Kind::MAP) || p::Type_Kind::MAP.descriptor().name() != "MAP" { return Err("Type_Kind::MAP".into()); }
      if p::Type_Kind::STRUCT.value() != 12 || p::Type_Kind::from_i32(12) != Some(p::Type_Kind::STRUCT) || !vs.contains(&p::Type_Kind::STRUCT) || p::Type_Kind::STRUCT.descriptor().name() != "STRUCT" { return Err("Type_Kind::STRUCT".into()); }
      if p::Type_Kind::UNION.value() != 13 || p::Type_Kind::from_i32(13) != Some(p::Type_Kind::UNION) || !vs.contains(&p::Type_Kind::UNION) || p::Type_Kind::UNION.descriptor().name() != "UNION" { return Err("Type_Kind::UNION".into()); }
      if p::Type_Kind::DECIMAL.value() != 14 || p::Type_Kind::from_i32(14) != Some(p::Type_Kind::DECIMAL) || !vs.contains(&p::Type_Kind::DECIMAL) || p::Type_Kind::DECIMAL.descriptor().name() != "DECIMAL" { return Err("Type_Kind::DECIMAL".into()); }
      if p::Type_Kind::DATE.value() != 15 || p::Type_Kind::from_i32(15) != Some(p::Type_Kind::DATE) || !vs.contains(&p::Type_Kind::DATE) || p::Type_Kind::DATE.descriptor().name() != "DATE" { return Err("Type_Kind::DATE".into()); }
      if p::Type_Kind::VARCHAR.value() != 16 || p::Type_Kind::from_i32(16) != Some(p::Type_Kind::VARCHAR) || !vs.contains(&p::Type_Kind::VARCHAR) || p::Type_Kind::VARCHAR.descriptor().name() != "VARCHAR" { return Err("Type_Kind::VARCHAR".into()); }
      if p::Type_Kind::CHAR.value() != 17 || p::Type_Kind::from_i32(17) != Some(p::Type_Kind::CHAR) || !vs.contains(&p::Type_Kind::CHAR) || p::Type_Kind::CHAR.descriptor().name() != "CHAR" { return Err("Type_Kind::CHAR".into()); }
      for i in -5..100 { if p::Type_Kind::from_i32(i).is_some() != [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17].contains(&i) { return Err(format!("Type_Kind::from_i32({})", i)); } }
      if p::Type_Kind::default() != p::Type_Kind::BOOLEAN { return Err("Type_Kind::default".into()); } }
    { let vs = p::CompressionKind::values(); if vs.len() != 6 { return Err("CompressionKind: number of values".into()); }
      if p::CompressionKind::NONE.value() != 0 || p::CompressionKind::from_i32(0) != Some(p::CompressionKind::NONE) || !vs.contains(&p::CompressionKind::NONE) || p::CompressionKind::NONE.descriptor().name() != "NONE" { return Err("CompressionKind::NONE".into()); }
      if p::CompressionKind::ZLIB.value() != 1 || p::CompressionKind::from_i32(1) != Some(p::CompressionKind::ZLIB) || !vs.contains(&p::CompressionKind::ZLIB) || p::CompressionKind::ZLIB.descriptor().name() != "ZLIB" { return Err("CompressionKind::ZLIB".into()); }
      if p::CompressionKind::SNAPPY.value() != 2 || p::CompressionKind::from_i32(2) != Some(p::CompressionKind::SNAPPY) || !vs.contains(&p::CompressionKind::SNAPPY) || p::CompressionKind::SNAPPY.descriptor().name() != "SNAPPY" { return Err("CompressionKind::SNAPPY".into()); }
      if p::CompressionKind::LZO.value() != 3 || p::CompressionKind::from_i32(3) != Some(p::CompressionKind::LZO) || !vs.contains(&p::CompressionKind::LZO) || p::CompressionKind::LZO.descriptor().name() != "LZO" { return Err("CompressionKind::LZO".into()); }
      if p::CompressionKind::LZ4.value() != 4 || p::CompressionKind::from_i32(4) != Some(p::CompressionKind::LZ4) || !vs.contains(&p::CompressionKind::LZ4) || p::CompressionKind::LZ4.descriptor().name() != "LZ4" { return Err("CompressionKind::LZ4".into()); }
      if p::CompressionKind::ZSTD.value() != 5 || p::CompressionKind::from_i32(5) != Some(p::CompressionKind::ZSTD) || !vs.contains(&p::CompressionKind::ZSTD) || p::CompressionKind::ZSTD.descriptor().name() != "ZSTD" { return Err("CompressionKind::ZSTD".into()); }
      for i in -5..100 { if p::CompressionKind::from_i32(i).is_some() != [0, 1, 2, 3, 4, 5].contains(&i) { return Err(format!("CompressionKind::from_i32({})", i)); } }
      if p::CompressionKind::default() != p::CompressionKind::NONE { return Err("CompressionKind::default".into()); } }
    Ok(())
}
