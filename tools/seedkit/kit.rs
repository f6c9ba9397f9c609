//! Helpers shared by the demonstrations.
#![allow(dead_code)]
use crate::checks::Cov;
use crate::driver;
use crate::model::*;

pub fn cfg(stride: u32, codec: Codec, stripe: usize) -> Cfg { Cfg { stride, codec, stripe_size: stripe, defaults: false } }
pub fn plain() -> Cfg { cfg(10000, Codec::None, usize::MAX) }
pub fn case(ty: Ty, cols: Vec<Col>, rows: usize, batches: Vec<usize>, c: Cfg) -> Case {
    Case { infos: infos(&ty), ty, cfg: c, cols, rows, batches, order: Order::ColumnMajor, alt: 0, name: String::new() }
}
pub fn all(vals: Vals) -> Col { Col { present: vec![true; vals.len()], vals } }
/// a struct with one column
pub fn one(ty: Ty, col: Col, batches: Vec<usize>, c: Cfg) -> Case {
    let n = col.present.len();
    case(Ty::Struct(vec![("c".into(), ty)]), vec![all(Vals::Unit(n)), col], n, batches, c)
}
pub fn bytes(c: &Case) -> Result<Vec<u8>, String> { driver::run(c).map(|r| r.bytes).map_err(|e| e.to_string()) }
pub fn cov() -> Cov { Cov::default() }
