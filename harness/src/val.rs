//! The harness's own values, independent of the database's.
use crate::rng::Rng;
use axmosdb::types::{Blob, DataType, DataTypeKind};
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub enum V { Null, Bool(bool), Int(i32), Big(i64), UInt(u32), BigU(u64), F32(f32), F64(f64), T(Vec<u8>) }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K { Bool, Int, Big, UInt, BigU, F32, F64, T }
pub const KS: [K; 8] = [K::Bool, K::Int, K::Big, K::UInt, K::BigU, K::F32, K::F64, K::T];

impl K {
    pub fn db(self) -> DataTypeKind {
        match self {
            K::Bool => DataTypeKind::Bool, K::Int => DataTypeKind::Int, K::Big => DataTypeKind::BigInt, K::UInt => DataTypeKind::UInt,
            K::BigU => DataTypeKind::BigUInt, K::F32 => DataTypeKind::Float, K::F64 => DataTypeKind::Double, K::T => DataTypeKind::Blob,
        }
    }
    pub fn sql(self) -> &'static str {
        match self { K::Bool => "BOOL", K::Int => "INT", K::Big => "BIGINT", K::UInt => "UINT", K::BigU => "BIGUINT", K::F32 => "FLOAT", K::F64 => "DOUBLE", K::T => "TEXT" }
    }
    pub fn numeric(self) -> bool { !matches!(self, K::Bool | K::T) }
}
impl V {
    pub fn kind(&self) -> Option<K> {
        Some(match self { V::Null => return None, V::Bool(_) => K::Bool, V::Int(_) => K::Int, V::Big(_) => K::Big, V::UInt(_) => K::UInt, V::BigU(_) => K::BigU, V::F32(_) => K::F32, V::F64(_) => K::F64, V::T(_) => K::T })
    }
    pub fn is_null(&self) -> bool { matches!(self, V::Null) }
    pub fn db(&self) -> DataType {
        match self {
            V::Null => DataType::Null, V::Bool(b) => DataType::Bool((*b).into()), V::Int(i) => DataType::Int((*i).into()), V::Big(i) => DataType::BigInt((*i).into()),
            V::UInt(i) => DataType::UInt((*i).into()), V::BigU(i) => DataType::BigUInt((*i).into()), V::F32(f) => DataType::Float((*f).into()), V::F64(f) => DataType::Double((*f).into()),
            V::T(t) => DataType::Blob(Blob::from_unencoded_slice(t)),
        }
    }
    pub fn of(d: &DataType) -> V {
        match d {
            DataType::Null => V::Null, DataType::Bool(b) => V::Bool(b.0), DataType::Int(i) => V::Int(i.0), DataType::BigInt(i) => V::Big(i.0),
            DataType::UInt(i) => V::UInt(i.0), DataType::BigUInt(i) => V::BigU(i.0), DataType::Float(i) => V::F32(i.0), DataType::Double(i) => V::F64(i.0),
            DataType::Blob(b) => V::T(b.data().map(|x| x.to_vec()).unwrap_or_else(|_| b"<undecodable>".to_vec())),
        }
    }
    /// Same type and same bits.
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::Null, V::Null) => true, (V::Bool(a), V::Bool(b)) => a == b, (V::Int(a), V::Int(b)) => a == b, (V::Big(a), V::Big(b)) => a == b,
            (V::UInt(a), V::UInt(b)) => a == b, (V::BigU(a), V::BigU(b)) => a == b, (V::F32(a), V::F32(b)) => a.to_bits() == b.to_bits(),
            (V::F64(a), V::F64(b)) => a.to_bits() == b.to_bits(), (V::T(a), V::T(b)) => a == b, _ => false,
        }
    }
    pub fn as_i128(&self) -> Option<i128> {
        Some(match self { V::Int(a) => *a as i128, V::Big(a) => *a as i128, V::UInt(a) => *a as i128, V::BigU(a) => *a as i128, _ => return None })
    }
    pub fn as_f64(&self) -> Option<f64> {
        Some(match self { V::F32(a) => *a as f64, V::F64(a) => *a, _ => return None })
    }
    /// Exact comparison of two values that are not NULL; None when they cannot be compared.
    pub fn cmp_exact(&self, o: &V) -> Option<Ordering> {
        match (self, o) {
            (V::Bool(a), V::Bool(b)) => Some(a.cmp(b)),
            (V::T(a), V::T(b)) => Some(a.cmp(b)),
            _ => {
                match (self.as_i128(), o.as_i128()) {
                    (Some(a), Some(b)) => Some(a.cmp(&b)),
                    (Some(a), None) => o.as_f64().and_then(|f| cmp_if(a, f)),
                    (None, Some(b)) => self.as_f64().and_then(|f| cmp_if(b, f)).map(Ordering::reverse),
                    (None, None) => self.as_f64()?.partial_cmp(&o.as_f64()?),
                }
            }
        }
    }
    pub fn show(&self) -> String {
        match self {
            V::Null => "NULL".into(), V::Bool(b) => b.to_string(), V::Int(i) => format!("{i}i"), V::Big(i) => format!("{i}"), V::UInt(i) => format!("{i}u"), V::BigU(i) => format!("{i}U"),
            V::F32(f) => format!("{f:?}f"), V::F64(f) => format!("{f:?}"),
            V::T(t) => if t.len() > 40 { format!("'{}..'[{}#{:x}]", String::from_utf8_lossy(&t[..12]), t.len(), crate::fnv(t) & 0xffff) } else { format!("'{}'", String::from_utf8_lossy(t)) },
        }
    }
}
/// i against f, exactly
pub fn cmp_if(i: i128, f: f64) -> Option<Ordering> {
    if f.is_nan() { return None; }
    if f >= 1e30 { return Some(Ordering::Less); }
    if f <= -1e30 { return Some(Ordering::Greater); }
    let t = f.trunc() as i128;
    Some(i.cmp(&t).then_with(|| { let fr = f - f.trunc(); 0.0f64.partial_cmp(&fr).unwrap() }))
}
pub fn show_row(r: &[V]) -> String { format!("({})", r.iter().map(V::show).collect::<Vec<_>>().join(", ")) }
pub fn same_row(a: &[V], b: &[V]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)) }
pub fn row_of<'a>(r: impl IntoIterator<Item = &'a DataType>) -> Vec<V> { r.into_iter().map(V::of).collect() }

pub fn text(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.us(8) { 0 => 0, 1 => r.us(4), 2 => r.us(max + 1), 3 => 127.min(max) + r.us(3).min(max.saturating_sub(127)), _ => r.us(24.min(max) + 1) };
    let s = r.u64();
    match r.us(5) {
        0 => vec![b'a' + (s % 26) as u8; n],
        1 => (0..n).map(|i| (s.rotate_left((i % 61) as u32) as u8) ^ (i as u8).wrapping_mul(7)).collect(),
        _ => (0..n).map(|i| b'a' + ((s.rotate_left((i % 61) as u32) ^ i as u64) % 26) as u8).collect(),
    }
}
/// Any value of a kind, extreme ones included.
pub fn any(r: &mut Rng, k: K, max_text: usize) -> V {
    match k {
        K::Bool => V::Bool(r.bool()),
        K::Int => V::Int(match r.us(6) { 0 => i32::MIN, 1 => i32::MAX, 2 => 0, 3 => -1, 4 => r.u64() as i32, _ => r.range(-20, 20) as i32 }),
        K::Big => V::Big(match r.us(7) { 0 => i64::MIN, 1 => i64::MAX, 2 => 0, 3 => -1, 4 => r.u64() as i64, 5 => (1i64 << 53) + r.range(-2, 2), _ => r.range(-20, 20) }),
        K::UInt => V::UInt(match r.us(5) { 0 => u32::MAX, 1 => 0, 2 => r.u64() as u32, _ => r.below(40) as u32 }),
        K::BigU => V::BigU(match r.us(6) { 0 => u64::MAX, 1 => 0, 2 => r.u64(), 3 => (1 << 53) + r.below(3), 4 => 1 << 63, _ => r.below(40) }),
        K::F32 => V::F32(match r.us(8) { 0 => 0.0, 1 => -0.0, 2 => f32::MAX, 3 => f32::MIN_POSITIVE / 2.0, 4 => f32::INFINITY, 5 => f32::from_bits(r.u64() as u32), _ => r.range(-80, 80) as f32 / 4.0 }),
        K::F64 => V::F64(match r.us(8) { 0 => 0.0, 1 => -0.0, 2 => f64::MAX, 3 => f64::MIN_POSITIVE / 2.0, 4 => f64::NEG_INFINITY, 5 => f64::from_bits(r.u64()), _ => r.range(-80, 80) as f64 / 4.0 }),
        K::T => V::T(text(r, max_text)),
    }
}
