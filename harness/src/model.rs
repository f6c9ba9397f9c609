//! The model of what is written: type trees, column data in shredded form, and cut points between them.
use orc_format::schema::{Field, Schema};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Boolean, Short, Int, Long, Date, Float, Double, Timestamp,
    Decimal(u32, u32),
    Str, Binary, Char(u32), VarChar(u32),
    Struct(Vec<(String, Ty)>),
    List(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Union(Vec<Ty>),
}

impl Ty {
    pub fn schema(&self) -> Schema {
        match self {
            Ty::Boolean => Schema::Boolean, Ty::Short => Schema::Short, Ty::Int => Schema::Int,
            Ty::Long => Schema::Long, Ty::Date => Schema::Date, Ty::Float => Schema::Float,
            Ty::Double => Schema::Double, Ty::Timestamp => Schema::Timestamp,
            Ty::Decimal(p, s) => Schema::Decimal(*p, *s),
            Ty::Str => Schema::String, Ty::Binary => Schema::Binary,
            Ty::Char(n) => Schema::Char(*n), Ty::VarChar(n) => Schema::VarChar(*n),
            Ty::Struct(f) => Schema::Struct(f.iter().map(|(n, t)| Field(n.clone(), t.schema())).collect()),
            Ty::List(t) => Schema::List(Box::new(t.schema())),
            Ty::Map(k, v) => Schema::Map(Box::new(k.schema()), Box::new(v.schema())),
            Ty::Union(v) => Schema::Union(v.iter().map(|t| t.schema()).collect()),
        }
    }
    pub fn children(&self) -> Vec<&Ty> {
        match self {
            Ty::Struct(f) => f.iter().map(|x| &x.1).collect(),
            Ty::List(t) => vec![t],
            Ty::Map(k, v) => vec![k, v],
            Ty::Union(v) => v.iter().collect(),
            _ => vec![],
        }
    }
    pub fn is_compound(&self) -> bool { matches!(self, Ty::Struct(_) | Ty::List(_) | Ty::Map(_, _) | Ty::Union(_)) }
    /// (kind number in the format, name)
    pub fn kind(&self) -> u64 {
        match self {
            Ty::Boolean => 0, Ty::Short => 2, Ty::Int => 3, Ty::Long => 4, Ty::Float => 5, Ty::Double => 6,
            Ty::Str => 7, Ty::Binary => 8, Ty::Timestamp => 9, Ty::List(_) => 10, Ty::Map(_, _) => 11,
            Ty::Struct(_) => 12, Ty::Union(_) => 13, Ty::Decimal(_, _) => 14, Ty::Date => 15,
            Ty::VarChar(_) => 16, Ty::Char(_) => 17,
        }
    }
    pub fn int_range(&self) -> (i64, i64) {
        match self {
            Ty::Short => (i16::MIN as i64, i16::MAX as i64),
            Ty::Int | Ty::Date => (i32::MIN as i64, i32::MAX as i64),
            _ => (i64::MIN, i64::MAX),
        }
    }
}

/// Pre-order column table.
#[derive(Clone, Debug)]
pub struct Info {
    pub ty: Ty,
    pub parent: Option<usize>,
    /// index among the parent's children
    pub slot: usize,
    pub path: Vec<usize>,
    pub children: Vec<usize>,
}

pub fn infos(ty: &Ty) -> Vec<Info> {
    fn go(ty: &Ty, parent: Option<usize>, slot: usize, path: Vec<usize>, out: &mut Vec<Info>) -> usize {
        let id = out.len();
        out.push(Info { ty: ty.clone(), parent, slot, path: path.clone(), children: vec![] });
        for (i, c) in ty.children().into_iter().enumerate() {
            let mut p = path.clone();
            p.push(i);
            let cid = go(c, Some(id), i, p, out);
            out[id].children.push(cid);
        }
        id
    }
    let mut v = vec![];
    go(ty, None, 0, vec![], &mut v);
    v
}

#[derive(Clone, Debug)]
pub enum Vals {
    Bool(Vec<bool>),
    Long(Vec<i64>),
    Float(Vec<f32>),
    Double(Vec<f64>),
    /// (seconds since the Unix epoch, nanoseconds)
    Ts(Vec<(i64, u32)>),
    Dec(Vec<i128>),
    Str(Vec<String>),
    Bin(Vec<Vec<u8>>),
    /// struct: number of non-null values
    Unit(usize),
    /// list / map lengths
    Len(Vec<u64>),
    Tag(Vec<u8>),
}

impl Vals {
    pub fn len(&self) -> usize {
        match self {
            Vals::Bool(v) => v.len(), Vals::Long(v) => v.len(), Vals::Float(v) => v.len(), Vals::Double(v) => v.len(),
            Vals::Ts(v) => v.len(), Vals::Dec(v) => v.len(), Vals::Str(v) => v.len(), Vals::Bin(v) => v.len(),
            Vals::Unit(n) => *n, Vals::Len(v) => v.len(), Vals::Tag(v) => v.len(),
        }
    }
    pub fn show(&self, i: usize) -> String {
        match self {
            Vals::Bool(v) => format!("{:?}", v.get(i)),
            Vals::Long(v) => format!("{:?}", v.get(i)),
            Vals::Float(v) => format!("{:?}", v.get(i).map(|x| (*x, x.to_bits()))),
            Vals::Double(v) => format!("{:?}", v.get(i).map(|x| (*x, x.to_bits()))),
            Vals::Ts(v) => format!("{:?}", v.get(i)),
            Vals::Dec(v) => format!("{:?}", v.get(i)),
            Vals::Str(v) => { let mut s = format!("{:?}", v.get(i)); if s.len() > 120 { s = s.chars().take(120).collect(); s.push_str("..."); } s }
            Vals::Bin(v) => { let mut s = format!("{:?}", v.get(i)); if s.len() > 120 { s = s.chars().take(120).collect(); s.push_str("..."); } s }
            Vals::Unit(_) => "()".into(),
            Vals::Len(v) => format!("{:?}", v.get(i)),
            Vals::Tag(v) => format!("{:?}", v.get(i)),
        }
    }
    /// compare self[a..a+n] with o[b..b+n]; returns first differing offset
    pub fn diff(&self, a: usize, o: &Vals, b: usize, n: usize) -> Option<usize> {
        macro_rules! cmp { ($x:expr, $y:expr) => {{
            if $x[a..a + n] == $y[b..b + n] { None } else { (0..n).find(|i| $x[a + i] != $y[b + i]) }
        }}; }
        match (self, o) {
            (Vals::Bool(x), Vals::Bool(y)) => cmp!(x, y),
            (Vals::Long(x), Vals::Long(y)) => cmp!(x, y),
            (Vals::Float(x), Vals::Float(y)) => (0..n).find(|i| x[a + i].to_bits() != y[b + i].to_bits()),
            (Vals::Double(x), Vals::Double(y)) => (0..n).find(|i| x[a + i].to_bits() != y[b + i].to_bits()),
            (Vals::Ts(x), Vals::Ts(y)) => cmp!(x, y),
            (Vals::Dec(x), Vals::Dec(y)) => cmp!(x, y),
            (Vals::Str(x), Vals::Str(y)) => cmp!(x, y),
            (Vals::Bin(x), Vals::Bin(y)) => cmp!(x, y),
            (Vals::Unit(_), Vals::Unit(_)) => None,
            (Vals::Len(x), Vals::Len(y)) => cmp!(x, y),
            (Vals::Tag(x), Vals::Tag(y)) => cmp!(x, y),
            _ => Some(0),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Col {
    pub present: Vec<bool>,
    pub vals: Vals,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Codec { None, Snappy(usize), Zstd(usize, i32) }
impl Codec { pub fn block(&self) -> usize { match *self { Codec::None => 0, Codec::Snappy(b) | Codec::Zstd(b, _) => b } } }

#[derive(Clone, Debug)]
pub struct Cfg {
    pub stride: u32,
    pub codec: Codec,
    pub stripe_size: usize,
    /// leave settings that equal the library's defaults unset, to exercise the defaults
    pub defaults: bool,
}
pub const DEFAULT_BLOCK: usize = 262144;
pub const DEFAULT_STRIPE: usize = 67108864;
pub const DEFAULT_STRIDE: u32 = 10000;

impl Cfg {
    pub fn block(&self) -> usize { self.codec.block() }
    pub fn build(&self) -> orc_format::writer::Config {
        use orc_format::writer::compression::*;
        let mut c = orc_format::writer::Config::new();
        let d = self.defaults;
        if !(d && self.stride == DEFAULT_STRIDE) { c = c.with_row_index_stride(self.stride); }
        if !(d && self.stripe_size == DEFAULT_STRIPE) { c = c.with_stripe_size(self.stripe_size); }
        match self.codec {
            Codec::None => if !d { c = c.with_compression(NoCompression::new().build()) },
            Codec::Snappy(b) => {
                let mut s = SnappyCompression::new();
                if !(d && b == DEFAULT_BLOCK) { s = s.with_block_size(b); }
                c = c.with_compression(s.build());
            }
            Codec::Zstd(b, l) => {
                let mut s = ZstdCompression::new();
                if !(d && b == DEFAULT_BLOCK) { s = s.with_block_size(b); }
                if !(d && l == 3) { s = s.with_compression_level(l); }
                c = c.with_compression(s.build());
            }
        }
        c
    }
}

/// How the column calls of a batch are ordered.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Order { ColumnMajor, ColumnMajorReverse, RowParentFirst, RowChildFirst, Random(u64) }

#[derive(Clone, Debug)]
pub struct Case {
    pub ty: Ty,
    pub infos: Vec<Info>,
    pub cfg: Cfg,
    pub cols: Vec<Col>,
    pub rows: usize,
    /// rows per write_batch call
    pub batches: Vec<usize>,
    pub order: Order,
    /// selects among equivalent accessors / write calls
    pub alt: u64,
    pub name: String,
}

/// (op index, value index) of a cut in one column
pub type Cut = (usize, usize);

impl Case {
    pub fn row_bounds(&self) -> Vec<usize> {
        let mut v = vec![0];
        let mut s = 0;
        for b in &self.batches { s += b; v.push(s); }
        v
    }
    pub fn cuts(&self, rows: &[usize]) -> Vec<Vec<Cut>> { cuts(&self.infos, &self.cols, rows) }
    pub fn n_ops(&self) -> usize { self.cols.iter().map(|c| c.present.len()).sum() }
    pub fn describe(&self) -> String {
        let mut s = format!("name={} rows={} batches={:?} cfg={:?} order={:?} alt={:#x}\ntype={:?}\n", self.name, self.rows,
            if self.batches.len() > 40 { format!("[{} batches, first {:?}...]", self.batches.len(), &self.batches[..20]) } else { format!("{:?}", self.batches) },
            self.cfg, self.order, self.alt, self.ty);
        for (i, c) in self.cols.iter().enumerate() {
            let nulls = c.present.iter().filter(|x| !**x).count();
            s.push_str(&format!("col {} ({}): {} ops, {} nulls; ", i, short(&self.infos[i].ty), c.present.len(), nulls));
            let mut vi = 0;
            for p in c.present.iter().take(24) {
                if *p { s.push_str(&c.vals.show(vi)); vi += 1; } else { s.push_str("null"); }
                s.push(' ');
            }
            if c.present.len() > 24 { s.push_str("..."); }
            s.push('\n');
            if i > 30 { s.push_str("...\n"); break; }
        }
        s
    }
}
pub fn short(t: &Ty) -> &'static str {
    match t {
        Ty::Boolean => "boolean", Ty::Short => "short", Ty::Int => "int", Ty::Long => "long", Ty::Date => "date",
        Ty::Float => "float", Ty::Double => "double", Ty::Timestamp => "timestamp", Ty::Decimal(_, _) => "decimal",
        Ty::Str => "string", Ty::Binary => "binary", Ty::Char(_) => "char", Ty::VarChar(_) => "varchar",
        Ty::Struct(_) => "struct", Ty::List(_) => "list", Ty::Map(_, _) => "map", Ty::Union(_) => "union",
    }
}

/// For every column, the (op, value) index reached when exactly rows[k] table rows are complete (rows ascending).
pub fn cuts(infos: &[Info], cols: &[Col], rows: &[usize]) -> Vec<Vec<Cut>> {
    let mut out: Vec<Vec<Cut>> = Vec::with_capacity(infos.len());
    for (id, inf) in infos.iter().enumerate() {
        // op index per boundary
        let ops: Vec<usize> = match inf.parent {
            None => rows.to_vec(),
            Some(p) => {
                let pc: &Vec<Cut> = &out[p];
                match &cols[p].vals {
                    Vals::Unit(_) => pc.iter().map(|c| c.1).collect(),
                    Vals::Len(l) => {
                        let mut acc = 0usize;
                        let mut i = 0;
                        pc.iter().map(|c| { while i < c.1 { acc += l[i] as usize; i += 1; } acc }).collect()
                    }
                    Vals::Tag(t) => {
                        let mut acc = 0usize;
                        let mut i = 0;
                        pc.iter().map(|c| { while i < c.1 { acc += (t[i] as usize == inf.slot) as usize; i += 1; } acc }).collect()
                    }
                    _ => unreachable!(),
                }
            }
        };
        let pres = &cols[id].present;
        let mut i = 0;
        let mut v = 0usize;
        out.push(ops.into_iter().map(|o| { while i < o { v += pres[i] as usize; i += 1; } (o, v) }).collect());
    }
    out
}

/// Cuts of one column at multiples of `stride` of its own values, within [from, to].
pub fn own_cuts(col: &Col, from: Cut, to: Cut, stride: usize) -> Vec<Cut> {
    let mut out = vec![from];
    let mut o = from.0;
    let mut v = from.1;
    while o < to.0 {
        let e = if stride == 0 { to.0 } else { (o + stride).min(to.0) };
        while o < e { v += col.present[o] as usize; o += 1; }
        out.push((o, v));
    }
    if out.len() > 1 { out.pop(); } else if from.0 == to.0 { out.clear(); }
    // starts only
    out
}
