//! C19: values compare, hash, cast and round-trip consistently.
//! Monitors: the laws of equality, order and hashing over every pair of a set of values (in memory and
//! through stored bytes), exact mathematical comparison of numbers, and the same values sent through
//! rows, trees and every operator of the SQL engine that compares, groups, sorts, joins or stores them.
use crate::drv::*;
use crate::expr::lit;
use crate::rng::Rng;
use crate::run::*;
use crate::val::*;
use crate::viol;
use axmosdb::types::{DataType, DataTypeKind, DataTypeRef};
use axmosdb::verif::store::Store;
use axmosdb::verif::tuples::{Shape, Versions, key_bytes};
use axmosdb::{DBConfig, Database};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

pub static C19: Check = Check {
    id: "C19", level: "exploration",
    rule: "the laws (reflexive, symmetric, transitive equality that agrees with the hash; one total preorder per type consistent with equality; exact comparison of numbers of different types; NULL; casts; storing and loading at every alignment) are checked for every pair of an exhaustive grid of boundary values of all types (one repro) and for every pair of random sets; each case also sends a sample of the grid through rows, an index tree, and tables: stored bits, ORDER BY, DISTINCT, GROUP BY, COUNT(DISTINCT), MIN/MAX, joins, comparisons with literals of other types, IN, BETWEEN, unique columns, indexed lookups and ranges, UPDATE v = v, casts to the same type and reopening, all judged by the laws. Non-trivial: the sample has values that are equal with different bits, or of two types.",
    quick: 5000, thorough: 200_000, hang_s: 90, threads: 8, run, repros: &[("grid", grid_laws), ("grid-trees", grid_trees), ("grid-sql", grid_sql)],
    must_see: &["pairs", "equal_pairs_of_different_bits", "pairs_across_types", "hash_agreements", "round_trips", "casts_to_same_type", "widening_casts", "rows", "tree_keys", "tree_scans", "values_stored", "order_by", "distinct", "group_by", "min_max", "joined_pairs", "literal_comparisons", "unique_refused", "unique_accepted", "index_lookups", "index_ranges", "reopens", "nan", "infinities", "negative_zero", "long_texts"],
    assumptions: &["NaN equals itself and has one fixed place in the order of its type, the same everywhere; which place is not prescribed", "text compares by bytes"],
};

// ------------------------------------------------------------------ values
fn bits32() -> Vec<f32> {
    let mut v = vec![0.0f32, -0.0, 1.0, 1.5, 0.1, f32::MIN_POSITIVE, f32::from_bits(1), f32::MAX, f32::INFINITY, 16777216.0, 16777218.0, 2147483648.0, 4294967296.0, 9.2233720e18, 1.8446744e19, 1e-20, 255.0, 256.0, f32::EPSILON];
    v.extend(v.clone().iter().map(|x| -x));
    v.push(f32::NAN); v.push(f32::from_bits(0xffc00001));
    v
}
fn bits64() -> Vec<f64> {
    let mut v = vec![0.0f64, 1.0, 1.5, 0.1, 0.1f32 as f64, f64::MIN_POSITIVE, f64::from_bits(1), f64::MAX, f32::MAX as f64, f64::INFINITY, 9007199254740992.0, 9007199254740994.0, 9007199254740991.0, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0,
        9223372036854775808.0, 9223372036854774784.0, 18446744073709551616.0, 18446744073709549568.0, 1e30, 1e300, 1e-300, 0.5, 255.0, 256.0, f64::EPSILON, 16777217.0, 16777216.0];
    v.extend(v.clone().iter().map(|x| -x));
    v.push(f64::NAN); v.push(f64::from_bits(0xfff8000000000001));
    v
}
fn texts() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ["", "a", "b", "ab", "a ", " a", "A", "aa", "aaa", "z", "0", "10", "9", "-1", "\u{e9}", "e\u{301}", "\u{1F600}", "\u{7f}", "\u{80}", "%", "_", "'", "\\", "a\u{1}", "\u{1}", "null", "true"].iter().map(|s| s.as_bytes().to_vec()).collect();
    for n in [7, 8, 15, 16, 63, 64, 65, 127, 128, 255, 256, 8191, 8192, 8193, 16383, 16384, 20_000] { v.push(vec![b'q'; n]); }
    for n in [63, 64, 8192] { let mut t = vec![b'q'; n]; t[n - 1] = b'p'; v.push(t.clone()); t[n - 1] = b'r'; v.push(t); }
    v
}
fn ints(k: K) -> Vec<V> {
    let (lo, hi): (i128, i128) = match k { K::Int => (i32::MIN as i128, i32::MAX as i128), K::Big => (i64::MIN as i128, i64::MAX as i128), K::UInt => (0, u32::MAX as i128), _ => (0, u64::MAX as i128) };
    let mut s = BTreeSet::new();
    for b in [0, 1, 7, 8, 15, 16, 24, 31, 32, 33, 52, 53, 54, 62, 63, 64] { for d in [-1, 0, 1] { for sg in [1, -1] { s.insert(sg * ((1i128 << b) + d)); } } }
    s.extend([lo, lo + 1, hi, hi - 1]);
    s.into_iter().filter(|i| *i >= lo && *i <= hi).map(|i| match k { K::Int => V::Int(i as i32), K::Big => V::Big(i as i64), K::UInt => V::UInt(i as u32), _ => V::BigU(i as u64) }).collect()
}
pub fn grid(k: K) -> Vec<V> {
    match k {
        K::Bool => vec![V::Bool(false), V::Bool(true)],
        K::F32 => bits32().into_iter().map(V::F32).collect(),
        K::F64 => bits64().into_iter().map(V::F64).collect(),
        K::T => { let mut t: Vec<V> = texts().into_iter().map(V::T).collect(); t.extend([vec![0u8], vec![0, 0], vec![255], vec![255, 255], vec![0x80], vec![b'a', 0]].map(V::T)); t }
        k => ints(k),
    }
}
fn nan(v: &V) -> bool { v.as_f64().is_some_and(f64::is_nan) }
/// Equal as values; NaN is itself.
fn eqx(a: &V, b: &V) -> bool { match (a.is_null(), b.is_null()) { (true, true) => true, (false, false) => (nan(a) && nan(b)) || a.cmp_exact(b) == Some(Ordering::Equal), _ => false } }
fn comparable(a: &V, b: &V) -> bool { match (a.kind(), b.kind()) { (Some(x), Some(y)) => x == y || (x.numeric() && y.numeric()), _ => false } }
fn hash(d: &impl Hash) -> u64 { let mut h = DefaultHasher::new(); d.hash(&mut h); h.finish() }
fn shows(v: &[V]) -> String { v.iter().map(V::show).collect::<Vec<_>>().join(" ") }

// ------------------------------------------------------------------ laws
/// Every pair of `vals`: values as they are and as read back from their stored bytes.
fn laws(ctx: &mut Ctx, vals: &[V]) -> CaseResult {
    let db: Vec<DataType> = vals.iter().map(V::db).collect();
    for (v, d) in vals.iter().zip(&db) { if !V::of(d).same(v) { viol!("{} is held as {}", v.show(), V::of(d).show()); } }
    let stored: Vec<Box<[u8]>> = db.iter().map(|d| if d.is_null() { Ok(Box::default()) } else { d.serialize() }).collect::<Result<_, _>>().or_else(|e| violation(format!("a value cannot be serialized: {e}")))?;
    let mut aligned: Vec<Vec<u64>> = Vec::new();
    for b in &stored { let mut w = vec![0u64; b.len() / 8 + 1]; unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), w.as_mut_ptr() as *mut u8, b.len()) }; aligned.push(w); }
    let mut refs: Vec<DataTypeRef<'_>> = Vec::new();
    for (i, d) in db.iter().enumerate() {
        if d.is_null() { refs.push(DataTypeRef::Null); continue; }
        let bytes = unsafe { std::slice::from_raw_parts(aligned[i].as_ptr() as *const u8, stored[i].len()) };
        match d.kind().deserialize(bytes, 0) { Ok((r, _)) => refs.push(r), Err(e) => viol!("stored {} cannot be read back: {e}", vals[i].show()) }
    }
    let n = vals.len();
    let ord: Vec<Vec<Option<Ordering>>> = (0..n).map(|i| (0..n).map(|j| db[i].partial_cmp(&db[j])).collect()).collect();
    let hashes: Vec<u64> = db.iter().map(hash).collect();
    let rhashes: Vec<u64> = refs.iter().map(hash).collect();
    // rank among the comparable ones
    let rank: Vec<usize> = (0..n).map(|i| (0..n).filter(|&j| ord[j][i] == Some(Ordering::Less)).count()).collect();
    let class: Vec<usize> = (0..n).map(|i| (0..n).position(|j| db[i] == db[j]).unwrap_or(n)).collect();
    for i in 0..n {
        ctx.count("nan", nan(&vals[i]) as u64);
        ctx.count("infinities", vals[i].as_f64().is_some_and(f64::is_infinite) as u64);
        ctx.count("negative_zero", vals[i].as_f64().is_some_and(|f| f == 0.0 && f.is_sign_negative()) as u64);
        ctx.count("long_texts", matches!(&vals[i], V::T(t) if t.len() > 8000) as u64);
        if class[i] == n { viol!("{} is not equal to itself", vals[i].show()); }
        if db[i].clone() != db[i] || hash(&db[i].clone()) != hashes[i] { viol!("a copy of {} differs from it", vals[i].show()); }
        for j in 0..n {
            let (a, b) = (&vals[i], &vals[j]);
            let pair = || format!("{} and {}", a.show(), b.show());
            let eq = db[i] == db[j];
            ctx.count("pairs", 1);
            if a.kind() != b.kind() { ctx.count("pairs_across_types", 1); }
            if eq != eqx(a, b) { viol!("{}: equal is {eq}", pair()); }
            if eq != (db[j] == db[i]) || eq == (db[i] != db[j]) { viol!("{}: equality is not symmetric", pair()); }
            if eq != (class[i] == class[j]) { viol!("{}: equality is not transitive", pair()); }
            if eq { if hashes[i] != hashes[j] { viol!("{} are equal but hash differently", pair()); } ctx.count("hash_agreements", 1); if !a.same(b) { ctx.count("equal_pairs_of_different_bits", 1); } }
            if a.same(b) && (db[i].hash64() != db[j].hash64() || db[i].hash128() != db[j].hash128()) { viol!("{}: same bits, different fingerprints", pair()); }
            let o = ord[i][j];
            if comparable(a, b) != o.is_some() { viol!("{}: compare as {o:?}", pair()); }
            if let Some(o) = o {
                if (o == Ordering::Equal) != eq { viol!("{}: compare as {o:?} but equal is {eq}", pair()); }
                if ord[j][i] != Some(o.reverse()) { viol!("{}: {o:?} one way, {:?} the other", pair(), ord[j][i]); }
                if o != rank[i].cmp(&rank[j]) { viol!("{}: compare as {o:?}, which does not fit a total order (ranks {} and {})", pair(), rank[i], rank[j]); }
                if let Some(m) = a.cmp_exact(b) { if m != o { viol!("{}: compare as {o:?}, mathematically {m:?}", pair()); } }
                let ops = [db[i] < db[j], db[i] <= db[j], db[i] > db[j], db[i] >= db[j]];
                if ops != [o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()] { viol!("{}: operators give {ops:?} for {o:?}", pair()); }
            }
            if (refs[i] == refs[j]) != eq || refs[i].partial_cmp(&refs[j]) != o { viol!("{}: stored bytes compare as {:?}, values as {o:?} (equal: {} and {eq})", pair(), refs[i].partial_cmp(&refs[j]), refs[i] == refs[j]); }
            if eq && rhashes[i] != rhashes[j] { viol!("{}: equal stored values hash differently", pair()); }
        }
    }
    Ok(())
}
/// Storing at every alignment, loading, and casts.
fn round_trips(ctx: &mut Ctx, vals: &[V], r: &mut Rng) -> CaseResult {
    for v in vals {
        let d = v.db();
        let Some(k) = v.kind() else { continue };
        for cursor in if matches!(v, V::T(t) if t.len() > 1000) { vec![0, 3] } else { (0..17).collect::<Vec<_>>() } {
            let mut words = vec![u64::from_ne_bytes([0xAB; 8]); (cursor + d.runtime_size() + 40) / 8];
            let buf = unsafe { std::slice::from_raw_parts_mut(words.as_mut_ptr() as *mut u8, words.len() * 8) };
            let end = d.write_to(buf, cursor).or_else(|e| violation(format!("{} cannot be written at {cursor}: {e}", v.show())))?;
            if end <= cursor || end > buf.len() - 8 { viol!("{} written at {cursor} ends at {end}", v.show()); }
            if buf[..cursor].iter().any(|b| *b != 0xAB) || buf[end..].iter().any(|b| *b != 0xAB) { viol!("{} written at {cursor} overwrites what is beside it", v.show()); }
            match k.db().deserialize(buf, cursor) {
                Ok((x, e)) => {
                    if e != end { viol!("{} written at {cursor} ends at {end}, read to {e}", v.show()); }
                    match x.to_owned() { Some(o) if V::of(&o).same(v) => {} o => viol!("{} stored at {cursor} reads back as {}", v.show(), o.map(|o| V::of(&o).show()).unwrap_or("nothing".into())) }
                }
                Err(e) => viol!("{} stored at {cursor} cannot be read: {e}", v.show()),
            }
            ctx.count("round_trips", 1);
        }
        match d.try_cast(k.db()) { Ok(x) if V::of(&x).same(v) => ctx.count("casts_to_same_type", 1), o => viol!("{} cast to its own type gives {o:?}", v.show()) }
        for t in KS {
            let c = d.try_cast(t.db()).ok().map(|x| V::of(&x));
            let widening = matches!((k, t), (K::Int, K::Big | K::F64) | (K::UInt, K::Big | K::BigU | K::F64) | (K::F32, K::F64));
            if widening {
                match &c { Some(c) if c.kind() == Some(t) && eqx(c, v) => ctx.count("widening_casts", 1), c => viol!("{} cast to {t:?} gives {}", v.show(), c.as_ref().map(V::show).unwrap_or("an error".into())) }
                // and back
                match c.unwrap().db().try_cast(k.db()) { Ok(x) if nan(v) && nan(&V::of(&x)) || V::of(&x).same(v) => {} o => viol!("{} cast to {t:?} and back gives {o:?}", v.show()) }
            } else if let (Some(c), Some(i)) = (&c, v.as_i128()) {
                // an integer is never turned into another one
                if let Some(j) = c.as_i128() { if i != j { viol!("{} cast to {t:?} gives {}", v.show(), c.show()); } }
            }
        }
    }
    let _ = r;
    Ok(())
}
/// Rows of several values, in every order of alignment.
fn rows(ctx: &mut Ctx, r: &mut Rng, vals: &[V], n: usize) -> CaseResult {
    let by: Vec<&V> = vals.iter().filter(|v| !v.is_null()).collect();
    for _ in 0..n {
        let w = 1 + r.us(7);
        let row: Vec<V> = (0..w).map(|_| (*r.pick(&by)).clone()).collect();
        let kinds: Vec<DataTypeKind> = row.iter().map(|v| v.kind().unwrap().db()).collect();
        let keys = 1 + r.us(w);
        let mut row = row;
        for v in row.iter_mut().skip(keys) { if r.chance(1, 6) { *v = V::Null; } }
        let shape = Shape::table(&kinds, keys);
        let db: Vec<DataType> = row.iter().map(V::db).collect();
        let t = Versions::build(&shape, &db, 1).or_else(|e| violation(format!("{} cannot be encoded: {e}", show_row(&row))))?;
        let u = t.reload().or_else(|e| violation(format!("{} cannot be loaded: {e}", show_row(&row))))?;
        match u.last(&shape) { Ok(l) if same_row(&row_of(&l), &row) => ctx.count("rows", 1), Ok(l) => viol!("row {} reads back as {}", show_row(&row), show_row(&row_of(&l))), Err(e) => viol!("row {} cannot be read: {e}", show_row(&row)) }
    }
    Ok(())
}
/// A tree keyed by the values: accepts one of each class, finds every equal one, scans in order.
fn tree(ctx: &mut Ctx, r: &mut Rng, k: K, vals: &[V]) -> CaseResult {
    let path = ctx.dir().join(format!("t{}.db", r.u64()));
    let store = Store::create(&path, DBConfig::new(4096, 200, 1, 3, 2)).map_err(|e| Fail::Inconclusive(e.to_string()))?;
    let t = store.new_tree(3, 1 + r.us(2)).map_err(|e| Fail::Inconclusive(e.to_string()))?;
    // an index on the value alone, or a table whose key is (value, number) or (number, value)
    let place = r.us(3);
    let (kinds, at) = match place { 0 => (vec![k.db(), DataTypeKind::Int], 0), 1 => (vec![k.db(), DataTypeKind::Int], 0), _ => (vec![DataTypeKind::Int, k.db()], 1) };
    let shape = if place == 0 { Shape::table(&kinds, 1) } else { Shape::index(&kinds, 2) };
    let other = if place == 0 { 1 } else { 1 - at };
    let row = |v: &V, i: i32| -> Vec<DataType> { let mut x = vec![DataType::Null, DataType::Null]; x[at] = v.db(); x[other] = V::Int(i).db(); x };
    let mut held: Vec<(V, i32)> = Vec::new();
    let dup = |held: &[(V, i32)], v: &V, i: i32| held.iter().position(|(w, j)| eqx(v, w) && (place == 0 || i == *j));
    for (n, v) in vals.iter().enumerate() {
        let i = if place == 0 { n as i32 } else { r.us(3) as i32 };
        let t0 = Versions::build(&shape, &row(v, i), 1).or_else(|e| violation(format!("{}: {e}", v.show())))?;
        let res = t.insert(&t0, &shape);
        match (dup(&held, v, i), &res) {
            (None, Ok(())) => held.push((v.clone(), i)),
            (Some(_), Err(_)) => ctx.count("tree_refusals", 1),
            (d, res) => viol!("a {k:?} tree (layout {place}) holding {} is given {} {i}: {res:?} (equal to {:?})", shows(&held.iter().map(|h| h.0.clone()).collect::<Vec<_>>()), v.show(), d.map(|d| held[d].0.show())),
        }
        ctx.count("tree_keys", 1);
    }
    for v in vals {
        for i in if place == 0 { vec![0] } else { vec![0, 1, 2] } {
            let keys: Vec<DataType> = if place == 0 { vec![v.db()] } else { row(v, i) };
            let kb = key_bytes(&keys).or_else(|e| violation(e))?;
            let want = dup(&held, v, i).map(|d| held[d].clone());
            let got = t.get(&kb, &shape).or_else(|e| violation(format!("looking {} up: {e}", v.show())))?;
            let ok = match (&got, &want) { (None, None) => true, (Some(g), Some((w, _))) => g.last(&shape).is_ok_and(|l| V::of(&l[at]).same(w)), _ => false };
            if !ok { viol!("a {k:?} tree (layout {place}) holding {} does not answer {} {i} rightly (should be {:?})", shows(&held.iter().map(|h| h.0.clone()).collect::<Vec<_>>()), v.show(), want.map(|w| w.0.show())); }
        }
    }
    for fwd in [true, false] {
        let mut got = t.scan(&shape, fwd).or_else(|e| violation(format!("scan: {e}")))?;
        if !fwd { got.reverse(); }
        if got.len() != held.len() { viol!("a {k:?} tree of {} entries scans {}", held.len(), got.len()); }
        for w in got.windows(2) {
            let o = if at == 0 { w[0][0].partial_cmp(&w[1][0]).unwrap().then(if place == 0 { Ordering::Less } else { w[0][1].partial_cmp(&w[1][1]).unwrap() }) } else { w[0][0].partial_cmp(&w[1][0]).unwrap().then(w[0][1].partial_cmp(&w[1][1]).unwrap()) };
            if o != Ordering::Less || place == 0 && w[0][0].partial_cmp(&w[1][0]) != Some(Ordering::Less) { viol!("a {k:?} tree (layout {place}) scans {} before {}", show_row(&row_of(&w[0])), show_row(&row_of(&w[1]))); }
        }
        for (v, i) in &held { if !got.iter().any(|g| V::of(&g[at]).same(v) && (V::of(&g[other]).as_i128() == Some(*i as i128))) { viol!("a {k:?} tree lost {} {i}", v.show()); } }
        ctx.count("tree_scans", 1);
    }
    drop(t); drop(store);
    let _ = std::fs::remove_file(&path);
    Ok(())
}

// ------------------------------------------------------------------ SQL
/// How a value is written so that a column of kind `k` holds it; None for NaN.
fn sql(v: &V) -> Option<String> {
    Some(match v {
        V::F32(f) if f.is_nan() => return None, V::F64(f) if f.is_nan() => return None,
        V::F32(f) if f.is_infinite() => format!("{}{}.0", if *f < 0.0 { "-" } else { "" }, "9".repeat(400)),
        V::F64(f) if f.is_infinite() => format!("{}{}.0", if *f < 0.0 { "-" } else { "" }, "9".repeat(400)),
        V::F32(f) if *f == 0.0 && f.is_sign_negative() => "-0.0".into(), V::F64(f) if *f == 0.0 && f.is_sign_negative() => "-0.0".into(),
        v => lit(v),
    })
}
fn sayable(v: &V) -> bool { match v { V::T(t) => std::str::from_utf8(t).is_ok_and(|s| !s.contains('\0')), _ => true } }
struct Sql<'a> { db: Option<Database>, path: std::path::PathBuf, ctx: &'a mut Ctx }
impl Sql<'_> {
    fn ok(&mut self, q: &str) -> Result<Got, Fail> {
        self.ctx.note(Drv::short(q));
        exec(self.db.as_ref().unwrap(), q).or_else(|e| violation(format!("{}\nfails: {e}", Drv::short(q))))
    }
    fn rows(&mut self, q: &str) -> Result<Vec<Vec<V>>, Fail> { match self.ok(q)? { Got::Rows(_, r) => Ok(r), g => violation(format!("{q} gives {g:?}")) } }
    fn reopen(&mut self) -> CaseResult {
        self.db = None;
        self.db = Some(Database::open(&self.path, DBConfig::new(4096, 600, 2, 3, 2)).or_else(|e| violation(format!("reopening: {e}")))?);
        self.ctx.count("reopens", 1);
        Ok(())
    }
    /// Fills `table` (k INT, v kind) with the values, numbered from 0.
    fn fill(&mut self, table: &str, k: K, vals: &[V]) -> CaseResult {
        self.ok(&format!("CREATE TABLE {table} (k INT, v {})", k.sql()))?;
        let mut nans = Vec::new();
        for (chunk, vs) in vals.chunks(20).enumerate() {
            let parts: Vec<String> = vs.iter().enumerate().map(|(i, v)| { let n = chunk * 20 + i; format!("({n}, {})", sql(v).unwrap_or_else(|| { nans.push(n); format!("{}.0", "9".repeat(400)) })) }).collect();
            self.ok(&format!("INSERT INTO {table} VALUES {}", parts.join(", ")))?;
        }
        for n in nans { self.ok(&format!("UPDATE {table} SET v = v - v WHERE k = {n}"))?; }
        self.stored(table, vals, "as inserted")
    }
    fn stored(&mut self, table: &str, vals: &[V], when: &str) -> CaseResult {
        let got = self.rows(&format!("SELECT k, v FROM {table}"))?;
        if got.len() != vals.len() { viol!("{table} {when} has {} rows, should have {}", got.len(), vals.len()); }
        for r in got {
            let w = &vals[r[0].as_i128().unwrap() as usize];
            let ok = r[1].same(w) || (nan(w) && nan(&r[1]) && r[1].kind() == w.kind());
            if !ok { viol!("{table} {when}: {} is held as {}", w.show(), r[1].show()); }
            self.ctx.count("values_stored", 1);
        }
        Ok(())
    }
}
/// The order of the values themselves; NaN by the place the engine's own comparison gives it.
fn order(a: &V, b: &V) -> Ordering { a.cmp_exact(b).unwrap_or_else(|| a.db().partial_cmp(&b.db()).unwrap_or(Ordering::Equal)) }
fn classes(vals: &[V]) -> Vec<(V, usize)> {
    let mut c: Vec<(V, usize)> = Vec::new();
    for v in vals { match c.iter_mut().find(|(w, _)| eqx(v, w)) { Some(x) => x.1 += 1, None => c.push((v.clone(), 1)) } }
    c
}
fn k_of(r: &[V], at: usize) -> usize { r[at].as_i128().unwrap_or(-1) as usize }
fn sorted_check(rows: &[Vec<V>], vals: &[V], desc: bool, q: &str) -> CaseResult {
    let mut seen = HashSet::new();
    for r in rows { if !seen.insert(k_of(r, 0)) || k_of(r, 0) >= vals.len() { viol!("{q}: row {} twice or unknown", r[0].show()); } }
    if rows.len() != vals.len() { viol!("{q}: {} rows of {}", rows.len(), vals.len()); }
    let nulls: Vec<bool> = rows.iter().map(|r| vals[k_of(r, 0)].is_null()).collect();
    if nulls.windows(2).filter(|w| w[0] != w[1]).count() > 1 { viol!("{q}: NULLs are not together"); }
    for w in rows.windows(2) {
        let (a, b) = (&vals[k_of(&w[0], 0)], &vals[k_of(&w[1], 0)]);
        if a.is_null() || b.is_null() { continue; }
        let o = order(a, b);
        if o == if desc { Ordering::Less } else { Ordering::Greater } { viol!("{q}: {} before {}", a.show(), b.show()); }
    }
    Ok(())
}
fn tables(ctx: &mut Ctx, r: &mut Rng, k1: K, a: Vec<V>, k2: K, b: Vec<V>, lits: &[V]) -> CaseResult {
    let path = ctx.dir().join("x.db");
    let cfg = DBConfig::new(4096, 600, 2, 3, 2);
    let db = Database::create(&path, cfg).or_else(|e| violation(format!("create: {e}")))?;
    let mut s = Sql { db: Some(db), path, ctx };
    s.fill("a", k1, &a)?;
    s.fill("b", k2, &b)?;
    let reopen_at = r.us(12);
    let non: Vec<V> = a.iter().filter(|v| !v.is_null()).cloned().collect();
    let cl = classes(&a);
    for step in 0..12 {
        if step == reopen_at { s.reopen()?; s.stored("a", &a, "reopened")?; s.stored("b", &b, "reopened")?; }
        match step {
            0 => for desc in [false, true] {
                let q = format!("SELECT k, v FROM a ORDER BY v{}", if desc { " DESC" } else { "" });
                let rows = s.rows(&q)?;
                sorted_check(&rows, &a, desc, &q)?;
                s.ctx.count("order_by", 1);
            },
            1 => {
                let got = s.rows("SELECT DISTINCT v FROM a")?;
                if got.len() != cl.len() || !cl.iter().all(|(c, _)| got.iter().filter(|g| eqx(&g[0], c)).count() == 1) { viol!("DISTINCT over {} gives {}", shows(&a), shows(&got.concat())); }
                s.ctx.count("distinct", 1);
            }
            2 => {
                let got = s.rows("SELECT v, COUNT(*) AS n FROM a GROUP BY v")?;
                if got.len() != cl.len() || !cl.iter().all(|(c, n)| got.iter().filter(|g| eqx(&g[0], c) && g[1].as_i128() == Some(*n as i128)).count() == 1) { viol!("GROUP BY over {} gives {}", shows(&a), got.iter().map(|g| show_row(g)).collect::<Vec<_>>().join(" ")); }
                s.ctx.count("group_by", 1);
            }
            3 => {
                let got = s.rows("SELECT COUNT(DISTINCT v) AS n, COUNT(v) AS m, MIN(v) AS lo, MAX(v) AS hi FROM a")?;
                let g = &got[0];
                if g[0].as_i128() != Some(cl.iter().filter(|c| !c.0.is_null()).count() as i128) || g[1].as_i128() != Some(non.len() as i128) { viol!("COUNT(DISTINCT v), COUNT(v) over {} give {} and {}", shows(&a), g[0].show(), g[1].show()); }
                let (lo, hi) = (non.iter().min_by(|x, y| order(x, y)), non.iter().max_by(|x, y| order(x, y)));
                for (w, g, n) in [(lo, &g[2], "MIN"), (hi, &g[3], "MAX")] { if !(w.is_none() && g.is_null() || w.is_some_and(|w| eqx(w, g) && w.kind() == g.kind())) { viol!("{n} over {} gives {}", shows(&a), g.show()); } }
                s.ctx.count("min_max", 1);
            }
            4 => if comparable_kinds(k1, k2) {
                for (op, f) in [("=", Ordering::is_eq as fn(Ordering) -> bool), ("<", Ordering::is_lt), (">=", Ordering::is_ge), ("<>", Ordering::is_ne)] {
                    let kind = *r.pick(&["JOIN", "LEFT JOIN", "JOIN"]);
                    let q = format!("SELECT a.k, b.k FROM a {kind} b ON a.v {op} b.v");
                    let mut got: Vec<(usize, usize)> = s.rows(&q)?.iter().filter(|r| !r[1].is_null()).map(|r| (k_of(r, 0), k_of(r, 1))).collect();
                    got.sort();
                    let mut want = Vec::new();
                    for (i, x) in a.iter().enumerate() { for (j, y) in b.iter().enumerate() { if !x.is_null() && !y.is_null() && f(order(x, y)) { want.push((i, j)); } } }
                    if got != want {
                        let x = got.iter().find(|p| want.binary_search(p).is_err());
                        let y = want.iter().find(|p| got.binary_search(p).is_err());
                        let sh = |p: Option<&(usize, usize)>| p.map(|(i, j)| format!("{} {}", a[*i].show(), b[*j].show())).unwrap_or_default();
                        viol!("{q} ({k1:?}, {k2:?}): extra [{}], missing [{}]", sh(x), sh(y));
                    }
                    s.ctx.count("joined_pairs", want.len() as u64);
                }
            },
            5 => for l in lits {
                let Some(t) = sql(l) else { continue };
                if !l.kind().is_some_and(|k| comparable_kinds(k, k1)) { continue; }
                for (op, f) in [("=", Ordering::is_eq as fn(Ordering) -> bool), ("<", Ordering::is_lt), (">", Ordering::is_gt), ("<=", Ordering::is_le), ("<>", Ordering::is_ne)] {
                    // f32 literals are written and read as doubles of the same value
                    let q = if r.bool() { format!("SELECT k FROM a WHERE v {op} {t}") } else { format!("SELECT k FROM a WHERE {t} {} v", match op { "<" => ">", ">" => "<", "<=" => ">=", o => o }) };
                    let got: BTreeSet<usize> = s.rows(&q)?.iter().map(|r| k_of(r, 0)).collect();
                    let want: BTreeSet<usize> = a.iter().enumerate().filter(|(_, v)| !v.is_null() && f(order(v, l))).map(|(i, _)| i).collect();
                    if got != want { viol!("{} over {k1:?}: differs on {}", Drv::short(&q), got.symmetric_difference(&want).map(|i| a[*i].show()).collect::<Vec<_>>().join(" ")); }
                    s.ctx.count("literal_comparisons", 1);
                }
            },
            6 => {
                let l: Vec<&V> = lits.iter().filter(|l| sql(l).is_some() && l.kind().is_some_and(|k| comparable_kinds(k, k1))).collect();
                if l.len() < 2 { continue; }
                let q = format!("SELECT k FROM a WHERE v IN ({})", l.iter().map(|l| sql(l).unwrap()).collect::<Vec<_>>().join(", "));
                let got: BTreeSet<usize> = s.rows(&q)?.iter().map(|r| k_of(r, 0)).collect();
                let want: BTreeSet<usize> = a.iter().enumerate().filter(|(_, v)| !v.is_null() && l.iter().any(|l| eqx(v, l))).map(|(i, _)| i).collect();
                if got != want { viol!("{} over {k1:?}: differs on {}", Drv::short(&q), got.symmetric_difference(&want).map(|i| a[*i].show()).collect::<Vec<_>>().join(" ")); }
                let q = format!("SELECT k FROM a WHERE v BETWEEN {} AND {}", sql(l[0]).unwrap(), sql(l[1]).unwrap());
                let got: BTreeSet<usize> = s.rows(&q)?.iter().map(|r| k_of(r, 0)).collect();
                let want: BTreeSet<usize> = a.iter().enumerate().filter(|(_, v)| !v.is_null() && order(v, l[0]).is_ge() && order(v, l[1]).is_le()).map(|(i, _)| i).collect();
                if got != want { viol!("{} over {k1:?}: differs on {}", Drv::short(&q), got.symmetric_difference(&want).map(|i| a[*i].show()).collect::<Vec<_>>().join(" ")); }
            }
            7 => {
                s.ok("UPDATE a SET v = v")?;
                s.stored("a", &a, "after SET v = v")?;
                if r.bool() { s.ok(&format!("ALTER TABLE a ALTER COLUMN v {}", k1.sql())).ok(); s.stored("a", &a, "after setting the same type")?; }
                s.ok(&format!("CREATE TABLE c (k INT, v {})", k1.sql()))?;
                s.ok("INSERT INTO c SELECT k, v FROM a")?;
                s.stored("c", &a, "copied")?;
                for e in ["COALESCE(v, v)", "CASE WHEN k >= 0 THEN v END", "CASE WHEN k < 0 THEN v ELSE v END"] {
                    let got = s.rows(&format!("SELECT k, {e} AS x FROM a"))?;
                    for g in got { let w = &a[k_of(&g, 0)]; if !(g[1].same(w) || nan(w) && nan(&g[1])) { viol!("{e} turns {} into {}", w.show(), g[1].show()); } }
                }
                s.ctx.count("casts_to_same_type", a.len() as u64);
            }
            8 => {
                // a unique column takes one of each class
                let table = r.bool();
                s.ok(&format!("CREATE TABLE u (k INT, v {}{})", k1.sql(), if table { ", UNIQUE(v)" } else { "" }))?;
                if !table { s.ok("CREATE UNIQUE INDEX ui ON u (v)")?; }
                let mut held: Vec<(usize, V)> = Vec::new();
                for (i, v) in a.iter().enumerate() {
                    let q = format!("INSERT INTO u SELECT k, v FROM a WHERE k = {i}");
                    let dup = !v.is_null() && held.iter().any(|(_, h)| eqx(h, v));
                    s.ctx.note(q.clone());
                    match exec(s.db.as_ref().unwrap(), &q) {
                        Ok(_) if !dup => { held.push((i, v.clone())); s.ctx.count("unique_accepted", 1); }
                        Err(e) if dup && unique(&e) => s.ctx.count("unique_refused", 1),
                        o => viol!("a unique {k1:?} column holding {} answers {} with {o:?}", shows(&held.iter().map(|h| h.1.clone()).collect::<Vec<_>>()), v.show()),
                    }
                }
                if r.bool() { let _ = s.db.as_ref().unwrap().analyze(1.0, 1000); }
                for l in held.iter().map(|h| &h.1).chain(lits) {
                    let Some(t) = sql(l) else { continue };
                    if !l.kind().is_some_and(|k| comparable_kinds(k, k1)) { continue; }
                    for (op, f) in [("=", Ordering::is_eq as fn(Ordering) -> bool), ("<=", Ordering::is_le), (">", Ordering::is_gt)] {
                        let q = format!("SELECT k FROM u WHERE v {op} {t}");
                        let got: BTreeSet<usize> = s.rows(&q)?.iter().map(|r| k_of(r, 0)).collect();
                        let want: BTreeSet<usize> = held.iter().filter(|(_, v)| !v.is_null() && f(order(v, l))).map(|h| h.0).collect();
                        if got != want { viol!("{} over a unique {k1:?} column: differs on {}", Drv::short(&q), got.symmetric_difference(&want).map(|i| a[*i].show()).collect::<Vec<_>>().join(" ")); }
                        let indexed = s.db.as_ref().unwrap().explain(&q).is_ok_and(|p| p.contains("IndexScan"));
                        s.ctx.count(if op == "=" { "index_lookups" } else { "index_ranges" }, indexed as u64);
                    }
                }
                let q = "SELECT k, v FROM u ORDER BY v";
                let rows = s.rows(q)?;
                if rows.len() != held.len() { viol!("{q}: {} rows of {}", rows.len(), held.len()); }
                for w in rows.windows(2) { let (x, y) = (&a[k_of(&w[0], 0)], &a[k_of(&w[1], 0)]); if !x.is_null() && !y.is_null() && !order(x, y).is_lt() { viol!("{q}: {} before {}", x.show(), y.show()); } }
            }
            9 => if comparable_kinds(k1, k2) {
                // exact widening on the way into another column
                let widening = matches!((k1, k2), (K::Int, K::Big | K::F64) | (K::UInt, K::Big | K::BigU | K::F64) | (K::F32, K::F64));
                if !widening { continue; }
                s.ok(&format!("CREATE TABLE w (k INT, v {})", k2.sql()))?;
                s.ok("INSERT INTO w SELECT k, v FROM a")?;
                for g in s.rows("SELECT k, v FROM w")? { let w = &a[k_of(&g, 0)]; if !eqx(&g[1], w) || !w.is_null() && g[1].kind() != Some(k2) { viol!("{} stored into {k2:?} becomes {}", w.show(), g[1].show()); } }
                s.ctx.count("widening_casts", a.len() as u64);
            },
            10 => {
                // two sort keys
                let q = "SELECT k, v FROM a ORDER BY v, k DESC";
                let rows = s.rows(q)?;
                sorted_check(&rows, &a, false, q)?;
                for w in rows.windows(2) { let (i, j) = (k_of(&w[0], 0), k_of(&w[1], 0)); if eqx(&a[i], &a[j]) && i < j { viol!("{q}: {} (row {i}) and {} (row {j}) are equal but not ordered by the second key", a[i].show(), a[j].show()); } }
            }
            _ => {
                // delete one class at a time: exactly its rows go
                let mut left: Vec<usize> = (0..a.len()).collect();
                for _ in 0..3 {
                    if non.is_empty() { break; }
                    let v = r.pick(&non).clone();
                    let Some(t) = sql(&v) else { continue };
                    s.ok(&format!("DELETE FROM a WHERE v = {t}"))?;
                    left.retain(|i| a[*i].is_null() || !eqx(&a[*i], &v));
                    let mut got: Vec<usize> = s.rows("SELECT k FROM a")?.iter().map(|r| k_of(r, 0)).collect();
                    got.sort();
                    if got != left { viol!("DELETE of {} leaves {} rows, should leave {}", v.show(), got.len(), left.len()); }
                }
            }
        }
    }
    Ok(())
}
fn comparable_kinds(a: K, b: K) -> bool { a == b || a.numeric() && b.numeric() }

fn pick_vals(r: &mut Rng, k: K, n: usize) -> Vec<V> {
    let g = grid(k);
    let mut v: Vec<V> = (0..n).map(|_| match r.us(8) { 0 => V::Null, 1 | 2 => any(r, k, 300), _ => r.pick(&g).clone() }).filter(sayable).collect();
    // repeats, and zeros of both signs
    for _ in 0..n / 4 { if !v.is_empty() { let x = r.pick(&v).clone(); v.push(x); } }
    if r.chance(1, 2) { match k { K::F32 => v.extend([V::F32(0.0), V::F32(-0.0)]), K::F64 => v.extend([V::F64(0.0), V::F64(-0.0)]), _ => {} } }
    r.shuffle(&mut v);
    v
}
fn run(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    // component laws over a random set
    let mut set: Vec<V> = vec![V::Null];
    for _ in 0..30 { let k = *r.pick(&KS); set.push(any(&mut r, k, 400)); let k = *r.pick(&KS); set.push(r.pick(&grid(k)).clone()); }
    // neighbours of numbers in other types
    for _ in 0..20 {
        let v = r.pick(&set).clone();
        if let Some(f) = v.as_f64() { set.push(V::F32(f as f32)); set.push(V::F64(f64::from_bits(f.to_bits().wrapping_add(1)))); set.push(V::Big(f as i64)); set.push(V::BigU(f as u64)); }
        if let Some(i) = v.as_i128() { set.push(V::F64(i as f64)); set.push(V::F32(i as f32)); set.push(V::Big(i as i64)); set.push(V::BigU(i as u64)); set.push(V::UInt(i as u32)); set.push(V::Int(i as i32)); }
        if let V::T(t) = v { let n = r.us(t.len() + 1); set.push(V::T(t[..n].to_vec())); let mut t = t; t.push(r.u64() as u8); set.push(V::T(t)); }
    }
    laws(ctx, &set)?;
    round_trips(ctx, &set, &mut r)?;
    rows(ctx, &mut r, &set, 40)?;
    let k = *r.pick(&KS);
    let n = 5 + r.us(60);
    let keys: Vec<V> = { let g = grid(k); let mut v: Vec<V> = (0..n).map(|_| if r.bool() { any(&mut r, k, 3000) } else { r.pick(&g).clone() }).collect(); for _ in 0..n / 3 { let x = r.pick(&v).clone(); v.push(x); } v };
    tree(ctx, &mut r, k, &keys)?;
    // and through SQL
    let k1 = *r.pick(&[K::Bool, K::Int, K::Big, K::UInt, K::BigU, K::F32, K::F64, K::F32, K::F64, K::T, K::T]);
    let k2 = if k1.numeric() { *r.pick(&[K::Int, K::Big, K::UInt, K::BigU, K::F32, K::F64]) } else { k1 };
    let (na, nb) = (3 + r.us(25), 2 + r.us(15));
    let (a, mut b) = (pick_vals(&mut r, k1, na), pick_vals(&mut r, k2, nb));
    if k1 == k2 { for _ in 0..3 { if !a.is_empty() { b.push(r.pick(&a).clone()); } } }
    let lits: Vec<V> = (0..5).map(|_| { let k = if k1.numeric() { *r.pick(&[K::Big, K::F64, K::BigU, K::F32, k1]) } else { k1 }; if r.chance(1, 3) && !a.is_empty() { r.pick(&a).clone() } else { r.pick(&grid(k)).clone() } }).filter(|v| sayable(v) && !v.is_null()).collect();
    ctx.note(format!("columns {k1:?}: {} and {k2:?}: {}", shows(&a), shows(&b)));
    ctx.nontrivial = k1 != k2 || a.iter().enumerate().any(|(i, x)| a[..i].iter().any(|y| eqx(x, y) && !x.same(y)));
    tables(ctx, &mut r, k1, a, k2, b, &lits)?;
    ctx.sample = Some(ctx.log.iter().take(6).map(|l| Drv::short(l)).collect::<Vec<_>>().join("\n"));
    Ok(())
}
fn grid_laws(ctx: &mut Ctx) -> CaseResult {
    let mut all = vec![V::Null];
    for k in KS { all.extend(grid(k)); }
    laws(ctx, &all)?;
    let mut r = Rng::new(1);
    round_trips(ctx, &all, &mut r)?;
    // a million and one characters: four byte lengths
    round_trips(ctx, &[V::T(vec![b'x'; 1_048_575]), V::T(vec![b'x'; 1_048_576]), V::T(vec![b'y'; 2_097_153])], &mut r)?;
    laws(ctx, &[V::T(vec![b'x'; 1_048_575]), V::T(vec![b'x'; 1_048_576]), V::T(vec![b'y'; 2_097_153])])?;
    rows(ctx, &mut r, &all, 4000)
}
fn grid_trees(ctx: &mut Ctx) -> CaseResult {
    let mut r = Rng::new(2);
    for k in KS { for _ in 0..4 { let mut g = grid(k); r.shuffle(&mut g); tree(ctx, &mut r, k, &g)?; } }
    Ok(())
}
fn grid_sql(ctx: &mut Ctx) -> CaseResult {
    let mut r = Rng::new(4);
    for k in KS {
        let k2 = match k { K::Int => K::F64, K::Big => K::F64, K::UInt => K::BigU, K::BigU => K::F32, K::F32 => K::F64, K::F64 => K::Big, k => k };
        let pick = |k: K| -> Vec<V> { let mut g: Vec<V> = grid(k).into_iter().filter(sayable).collect(); g.push(V::Null); g };
        let lits: Vec<V> = pick(k2).into_iter().filter(|v| !v.is_null()).take(12).collect();
        tables(ctx, &mut r, k, pick(k), k2, pick(k2), &lits)?;
        let _ = std::fs::remove_file(ctx.dir().join("x.db"));
        let _ = std::fs::remove_file(ctx.dir().join("axmos.log"));
    }
    Ok(())
}
