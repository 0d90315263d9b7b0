//! Reference model of the database: tables as maps from row ids to rows, statements and their effects.
use crate::expr::*;
use crate::rng::Rng;
use crate::val::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;

pub type Row = Arc<Vec<V>>;
#[derive(Clone, Debug)]
pub struct Col { pub name: String, pub k: K, pub notnull: bool, pub default: Option<V> }
#[derive(Clone, Debug, PartialEq)]
pub struct Uq { pub cols: Vec<String>, pub pk: bool, pub index: Option<String> }
#[derive(Clone, Debug)]
pub struct Tab { pub uid: u64, pub cols: Vec<Col>, pub uq: Vec<Uq>, pub rows: BTreeMap<u64, Row> }
pub type State = BTreeMap<String, Arc<Tab>>;

#[derive(Clone, Debug)]
pub enum St {
    Create { t: String, cols: Vec<Col>, uq: Vec<Uq>, ine: bool },
    Index { t: String, name: String, cols: Vec<String> },
    Drop { t: String, ie: bool },
    AddCol { t: String, col: Col },
    DropCol { t: String, c: String },
    SetType { t: String, c: String, k: K },
    SetDefault { t: String, c: String, v: V },
    DropDefault { t: String, c: String },
    NotNull { t: String, c: String, on: bool },
    AddUnique { t: String, cols: Vec<String>, pk: bool },
    Insert { t: String, cols: Option<Vec<String>>, rows: Vec<Vec<V>> },
    InsertSelect { t: String, from: String, wher: Option<E> },
    Update { t: String, sets: Vec<(usize, E)>, wher: Option<E> },
    Delete { t: String, wher: Option<E> },
    Select { t: String, wher: Option<E> },
    Count { t: String, wher: Option<E> },
    /// passed through verbatim; always an error
    Bad(String),
}
#[derive(Clone, Debug)]
pub enum Out { Rows(Vec<Row>), Count(u64), Done }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rej { NoTable, Exists, NotNull, Unique, Other }

impl Tab {
    pub fn names(&self) -> Vec<String> { self.cols.iter().map(|c| c.name.clone()).collect() }
    pub fn pos(&self, c: &str) -> Option<usize> { self.cols.iter().position(|x| x.name == c) }
    pub fn uq_pos(&self, u: &Uq) -> Vec<usize> { u.cols.iter().map(|c| self.pos(c).unwrap()).collect() }
    pub fn key(&self, u: &[usize], r: &[V]) -> Option<String> {
        let mut s = String::new();
        for i in u { match &r[*i] { V::Null => return None, V::T(t) => { s += &format!("{}:", t.len()); s += &String::from_utf8_lossy(t); } v => s += &v.show() } s.push('|'); }
        Some(s)
    }
    pub fn check(&self) -> Result<(), Rej> {
        for (i, c) in self.cols.iter().enumerate() { if c.notnull && self.rows.values().any(|r| r[i].is_null()) { return Err(Rej::NotNull); } }
        for u in &self.uq {
            let p = self.uq_pos(u);
            let mut seen = HashSet::new();
            for r in self.rows.values() { if let Some(k) = self.key(&p, r) { if !seen.insert(k) { return Err(Rej::Unique); } } }
        }
        Ok(())
    }
    pub fn in_unique(&self, c: &str) -> bool { self.uq.iter().any(|u| u.cols.iter().any(|x| x == c)) }
}
pub fn cast(v: &V, k: K) -> Result<V, Rej> {
    if v.is_null() { return Ok(V::Null); }
    if v.kind() == Some(k) { return Ok(v.clone()); }
    Ok(match k {
        K::Int => V::Int(i32::try_from(v.as_i128().ok_or(Rej::Other)?).map_err(|_| Rej::Other)?),
        K::Big => V::Big(i64::try_from(v.as_i128().ok_or(Rej::Other)?).map_err(|_| Rej::Other)?),
        K::UInt => V::UInt(u32::try_from(v.as_i128().ok_or(Rej::Other)?).map_err(|_| Rej::Other)?),
        K::BigU => V::BigU(u64::try_from(v.as_i128().ok_or(Rej::Other)?).map_err(|_| Rej::Other)?),
        K::F32 => V::F32(match v.as_i128() { Some(i) => i as f32, None => v.as_f64().ok_or(Rej::Other)? as f32 }),
        K::F64 => V::F64(match v.as_i128() { Some(i) => i as f64, None => v.as_f64().ok_or(Rej::Other)? }),
        _ => return Err(Rej::Other),
    })
}
fn wsql(w: &Option<E>, n: &[String]) -> String { w.as_ref().map(|e| format!(" WHERE {}", e.sql(n))).unwrap_or_default() }
impl St {
    pub fn table(&self) -> Option<&str> {
        Some(match self {
            St::Create { t, .. } | St::Index { t, .. } | St::Drop { t, .. } | St::AddCol { t, .. } | St::DropCol { t, .. } | St::SetType { t, .. } | St::SetDefault { t, .. } | St::DropDefault { t, .. }
            | St::NotNull { t, .. } | St::AddUnique { t, .. } | St::Insert { t, .. } | St::InsertSelect { t, .. } | St::Update { t, .. } | St::Delete { t, .. } | St::Select { t, .. } | St::Count { t, .. } => t,
            St::Bad(_) => return None,
        })
    }
    pub fn is_ddl(&self) -> bool { !matches!(self, St::Insert { .. } | St::InsertSelect { .. } | St::Update { .. } | St::Delete { .. } | St::Select { .. } | St::Count { .. } | St::Bad(_)) }
    pub fn is_read(&self) -> bool { matches!(self, St::Select { .. } | St::Count { .. } | St::Bad(_)) }
    /// `s` is the state the statement sees (for the column names).
    pub fn sql(&self, s: &State) -> String {
        let names = |t: &str| s.get(t).map(|t| t.names()).unwrap_or_else(|| (0..12).map(|i| format!("c{i}")).collect());
        let coldef = |c: &Col| format!("{} {}{}{}", c.name, c.k.sql(), if c.notnull { " NOT NULL" } else { "" }, c.default.as_ref().map(|v| format!(" DEFAULT {}", lit(v))).unwrap_or_default());
        match self {
            St::Create { t, cols, uq, ine } => format!("CREATE TABLE {}{t} ({}{})", if *ine { "IF NOT EXISTS " } else { "" }, cols.iter().map(coldef).collect::<Vec<_>>().join(", "),
                uq.iter().map(|u| format!(", {}({})", if u.pk { "PRIMARY KEY " } else { "UNIQUE " }, u.cols.join(", "))).collect::<String>()),
            St::Index { t, name, cols } => format!("CREATE UNIQUE INDEX {name} ON {t}({})", cols.join(", ")),
            St::Drop { t, ie } => format!("DROP TABLE {}{t}", if *ie { "IF EXISTS " } else { "" }),
            St::AddCol { t, col } => format!("ALTER TABLE {t} ADD COLUMN {}", coldef(col)),
            St::DropCol { t, c } => format!("ALTER TABLE {t} DROP COLUMN {c}"),
            St::SetType { t, c, k } => format!("ALTER TABLE {t} ALTER COLUMN {c} {}", k.sql()),
            St::SetDefault { t, c, v } => format!("ALTER TABLE {t} ALTER COLUMN {c} SET DEFAULT {}", lit(v)),
            St::DropDefault { t, c } => format!("ALTER TABLE {t} ALTER COLUMN {c} DROP DEFAULT"),
            St::NotNull { t, c, on } => format!("ALTER TABLE {t} ALTER COLUMN {c} {} NOT NULL", if *on { "SET" } else { "DROP" }),
            St::AddUnique { t, cols, pk } => format!("ALTER TABLE {t} ADD CONSTRAINT {}({})", if *pk { "PRIMARY KEY " } else { "UNIQUE " }, cols.join(", ")),
            St::Insert { t, cols, rows } => format!("INSERT INTO {t}{} VALUES {}", cols.as_ref().map(|c| format!("({})", c.join(", "))).unwrap_or_default(),
                rows.iter().map(|r| format!("({})", r.iter().map(lit).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", ")),
            St::InsertSelect { t, from, wher } => format!("INSERT INTO {t} SELECT * FROM {from}{}", wsql(wher, &names(from))),
            St::Update { t, sets, wher } => { let n = names(t); format!("UPDATE {t} SET {}{}", sets.iter().map(|(c, e)| format!("{} = {}", n[*c], e.sql(&n))).collect::<Vec<_>>().join(", "), wsql(wher, &n)) }
            St::Delete { t, wher } => format!("DELETE FROM {t}{}", wsql(wher, &names(t))),
            St::Select { t, wher } => format!("SELECT * FROM {t}{}", wsql(wher, &names(t))),
            St::Count { t, wher } => format!("SELECT COUNT(*) FROM {t}{}", wsql(wher, &names(t))),
            St::Bad(s) => s.clone(),
        }
    }
    fn matching(tab: &Tab, w: &Option<E>) -> Result<Vec<u64>, Rej> {
        let mut v = Vec::new();
        for (id, r) in &tab.rows { if match w { Some(e) => e.truth(r).map_err(|_| Rej::Other)?, None => true } { v.push(*id); } }
        Ok(v)
    }
    /// The effect of the statement on a state. `ids` hands out row and table ids.
    pub fn apply(&self, st: &mut State, ids: &mut u64) -> Result<Out, Rej> {
        let mut next = || { *ids += 1; *ids };
        let find = |st: &State, t: &str| st.get(t).cloned().ok_or(Rej::NoTable);
        let put = |st: &mut State, t: &str, tab: Tab| -> Result<(), Rej> { tab.check()?; st.insert(t.to_string(), Arc::new(tab)); Ok(()) };
        match self {
            St::Bad(_) => Err(Rej::Other),
            St::Create { t, cols, uq, ine } => {
                if st.contains_key(t) { return if *ine { Ok(Out::Done) } else { Err(Rej::Exists) }; }
                let mut cols = cols.clone();
                for u in uq { if u.pk { for c in &u.cols { for x in cols.iter_mut() { if x.name == *c { x.notnull = true; } } } } }
                st.insert(t.clone(), Arc::new(Tab { uid: next(), cols, uq: uq.clone(), rows: BTreeMap::new() }));
                Ok(Out::Done)
            }
            St::Drop { t, ie } => match st.remove(t) { Some(_) => Ok(Out::Done), None if *ie => Ok(Out::Done), None => Err(Rej::NoTable) },
            St::Index { t, name, cols } => {
                let mut tab = (*find(st, t)?).clone();
                if st.values().any(|t| t.uq.iter().any(|u| u.index.as_deref() == Some(name))) { return Err(Rej::Exists); }
                tab.uq.push(Uq { cols: cols.clone(), pk: false, index: Some(name.clone()) });
                put(st, t, tab)?;
                Ok(Out::Done)
            }
            St::AddCol { t, col } => {
                let mut tab = (*find(st, t)?).clone();
                if tab.pos(&col.name).is_some() { return Err(Rej::Exists); }
                let v = col.default.clone().unwrap_or(V::Null);
                tab.cols.push(col.clone());
                for r in tab.rows.values_mut() { let mut n = (**r).clone(); n.push(v.clone()); *r = Arc::new(n); }
                put(st, t, tab)?;
                Ok(Out::Done)
            }
            St::DropCol { t, c } => {
                let mut tab = (*find(st, t)?).clone();
                let i = tab.pos(c).ok_or(Rej::Other)?;
                tab.cols.remove(i);
                // The constraints and the indexes of the column go with it.
                tab.uq.retain(|u| !u.cols.contains(c));
                for r in tab.rows.values_mut() { let mut n = (**r).clone(); n.remove(i); *r = Arc::new(n); }
                put(st, t, tab)?;
                Ok(Out::Done)
            }
            St::SetType { t, c, k } => {
                let mut tab = (*find(st, t)?).clone();
                let i = tab.pos(c).ok_or(Rej::Other)?;
                tab.cols[i].k = *k;
                if let Some(d) = &tab.cols[i].default { tab.cols[i].default = Some(cast(d, *k)?); }
                for r in tab.rows.values_mut() { let mut n = (**r).clone(); n[i] = cast(&n[i], *k)?; *r = Arc::new(n); }
                put(st, t, tab)?;
                Ok(Out::Done)
            }
            St::SetDefault { t, c, .. } | St::DropDefault { t, c } => {
                let mut tab = (*find(st, t)?).clone();
                let i = tab.pos(c).ok_or(Rej::Other)?;
                let v = if let St::SetDefault { v, .. } = self { Some(v.clone()) } else { None };
                match (&v, &tab.cols[i].default) { (None, None) => return Ok(Out::Done), (Some(a), Some(b)) if a.same(b) => return Ok(Out::Done), _ => {} }
                tab.cols[i].default = v;
                put(st, t, tab)?;
                Ok(Out::Done)
            }
            St::NotNull { t, c, on } => {
                let mut tab = (*find(st, t)?).clone();
                let i = tab.pos(c).ok_or(Rej::Other)?;
                if tab.cols[i].notnull == *on { return Ok(Out::Done); }
                tab.cols[i].notnull = *on;
                put(st, t, tab)?;
                Ok(Out::Done)
            }
            St::AddUnique { t, cols, pk } => {
                let mut tab = (*find(st, t)?).clone();
                if *pk { if tab.uq.iter().any(|u| u.pk) { return Err(Rej::Exists); } for c in cols { let i = tab.pos(c).ok_or(Rej::Other)?; tab.cols[i].notnull = true; } }
                tab.uq.push(Uq { cols: cols.clone(), pk: *pk, index: None });
                put(st, t, tab)?;
                Ok(Out::Done)
            }
            St::Insert { t, cols, rows } => {
                let mut tab = (*find(st, t)?).clone();
                for r in rows {
                    let row: Vec<V> = match cols {
                        None => { if r.len() != tab.cols.len() { return Err(Rej::Other); } r.clone() }
                        Some(names) => {
                            let mut row: Vec<V> = tab.cols.iter().map(|c| c.default.clone().unwrap_or(V::Null)).collect();
                            if names.len() != r.len() { return Err(Rej::Other); }
                            for (n, v) in names.iter().zip(r) { row[tab.pos(n).ok_or(Rej::Other)?] = v.clone(); }
                            row
                        }
                    };
                    let row = row.iter().zip(&tab.cols).map(|(v, c)| cast(v, c.k)).collect::<Result<Vec<_>, _>>()?;
                    tab.rows.insert(next(), Arc::new(row));
                }
                put(st, t, tab)?;
                Ok(Out::Count(rows.len() as u64))
            }
            St::InsertSelect { t, from, wher } => {
                let src = find(st, from)?;
                let mut tab = (*find(st, t)?).clone();
                let ids = Self::matching(&src, wher)?;
                if ids.is_empty() { return Ok(Out::Count(0)); }
                for id in &ids {
                    if src.cols.len() != tab.cols.len() { return Err(Rej::Other); }
                    let row = src.rows[id].iter().zip(&tab.cols).map(|(v, c)| cast(v, c.k)).collect::<Result<Vec<_>, _>>()?;
                    tab.rows.insert(next(), Arc::new(row));
                }
                put(st, t, tab)?;
                Ok(Out::Count(ids.len() as u64))
            }
            St::Update { t, sets, wher } => {
                let mut tab = (*find(st, t)?).clone();
                let ids = Self::matching(&tab, wher)?;
                if ids.is_empty() { return Ok(Out::Count(0)); }
                for id in &ids {
                    let old = tab.rows[id].clone();
                    let mut n = (*old).clone();
                    for (c, e) in sets { n[*c] = cast(&e.eval(&old).map_err(|_| Rej::Other)?, tab.cols[*c].k)?; }
                    tab.rows.insert(*id, Arc::new(n));
                }
                put(st, t, tab)?;
                Ok(Out::Count(ids.len() as u64))
            }
            St::Delete { t, wher } => {
                let mut tab = (*find(st, t)?).clone();
                let ids = Self::matching(&tab, wher)?;
                if ids.is_empty() { return Ok(Out::Count(0)); }
                for id in &ids { tab.rows.remove(id); }
                st.insert(t.clone(), Arc::new(tab));
                Ok(Out::Count(ids.len() as u64))
            }
            St::Select { t, wher } => { let tab = find(st, t)?; Ok(Out::Rows(Self::matching(&tab, wher)?.iter().map(|i| tab.rows[i].clone()).collect())) }
            St::Count { t, wher } => { let tab = find(st, t)?; Ok(Out::Rows(vec![Arc::new(vec![V::Big(Self::matching(&tab, wher)?.len() as i64)])])) }
        }
    }
}

/// What kind of statements a driver draws.
#[derive(Clone, Debug)]
pub struct Prof {
    pub names: u64, pub keydom: i64, pub keys: u64, pub nulls: u64, pub big: u64, pub maxrows: usize, pub multi: usize,
    /// weights: create, index, drop, altercol, constraints, insert, insert-select, update, delete, select, count, bad
    pub w: [u64; 12],
    pub kinds: &'static [K],
    /// how many columns a table has at most, beyond the usual few
    pub wide: usize,
}
pub const BASE: Prof = Prof { wide: 0, names: 3, keydom: 60, keys: 60, nulls: 8, big: 3, maxrows: 160, multi: 6, w: [6, 2, 1, 3, 3, 40, 3, 18, 12, 10, 4, 2], kinds: &[K::Int, K::Int, K::Big, K::T, K::T, K::F64, K::Bool, K::UInt, K::BigU, K::F32] };

pub fn value(r: &mut Rng, c: &Col, key: bool, p: &Prof) -> V {
    if r.chance(p.nulls, 100) { return V::Null; }
    kind_value(r, c.k, key, p)
}
pub fn kind_value(r: &mut Rng, k: K, key: bool, p: &Prof) -> V {
    let n = if key { r.range(0, p.keydom) } else { r.range(-9, 30) };
    match k {
        K::Bool => V::Bool(r.bool()),
        K::Int => V::Int(n as i32), K::Big => V::Big(n),
        K::UInt => V::UInt(n.unsigned_abs() as u32), K::BigU => V::BigU(n.unsigned_abs()),
        K::F32 if !key && r.chance(1, 6) => V::F32(((n << 18) | 1) as f32 / 4.0), K::F32 => V::F32(n as f32 / 4.0), K::F64 => V::F64(n as f64 / 4.0),
        K::T => {
            if key { return V::T(format!("k{n:0w$}", w = if p.big > 20 { 60 } else { 1 }).into_bytes()); }
            if r.chance(p.big, 100) { let n = match r.us(4) { 0 => 100 + r.us(400), 1 => 900 + r.us(4000), 2 => 20 + r.us(100), _ => 3000 + r.us(15000) }; let s = r.u64(); return V::T((0..n).map(|i| b'a' + ((s.rotate_left((i % 61) as u32) ^ i as u64) % 26) as u8).collect()); }
            V::T(match r.us(6) { 0 => word(r).replace(['%', '_'], "x").into_bytes(), 5 => format!("{}{n}{}", r.pick(&["'", "''", "-- ", "", "\\", "\n", "€"]), r.pick(&["'", "''", "\\", "'''", " ", "", "é😀"])).into_bytes(), 1 => format!("s{}", r.below(9)).into_bytes(), _ => format!("text {n} {}", r.below(1000)).into_bytes() })
        }
    }
}
fn newcol(r: &mut Rng, name: String, p: &Prof) -> Col {
    let k = *r.pick(p.kinds);
    let c = Col { name, k, notnull: false, default: None };
    let default = if r.chance(1, 5) { Some(kind_value(r, k, false, &Prof { big: 0, ..p.clone() })) } else { None };
    Col { notnull: r.chance(1, 6), default, ..c }
}
pub fn create(r: &mut Rng, t: String, p: &Prof) -> St {
    let n = if p.wide > 0 { p.wide / 2 + r.us(p.wide / 2 + 1) } else { 2 + r.us(4) };
    let mut cols: Vec<Col> = (0..n).map(|i| newcol(r, format!("c{i}"), p)).collect();
    let mut uq = Vec::new();
    if r.chance(p.keys, 100) {
        cols[0].k = *r.pick(&[K::Int, K::Int, K::Big, K::T, K::UInt, K::BigU]);
        cols[0].default = None;
        let mut k = vec!["c0".to_string()];
        if r.chance(1, 4) { cols[1].k = *r.pick(&[K::Int, K::T]); cols[1].default = None; k.push("c1".into()); }
        uq.push(Uq { cols: k, pk: true, index: None });
    }
    if n > 2 && r.chance(p.keys / 2, 100) { cols[2].k = *r.pick(&[K::Int, K::Big, K::T, K::F64]); cols[2].default = None; let mut u = vec!["c2".to_string()]; if r.chance(1, 4) { u.insert(r.us(2), format!("c{}", r.us(2))); } uq.push(Uq { cols: u, pk: false, index: None }); }
    St::Create { t, cols, uq, ine: r.chance(1, 10) }
}
fn is_key(t: &Tab, i: usize) -> bool { t.in_unique(&t.cols[i].name) }
pub fn where_(r: &mut Rng, t: &Tab, p: &Prof) -> Option<E> {
    if r.chance(1, 8) { return None; }
    let kinds: Vec<K> = t.cols.iter().map(|c| c.k).collect();
    let rows: Vec<&Row> = t.rows.values().collect();
    let vals = |r: &mut Rng, i: usize| { let v = if !rows.is_empty() && r.chance(3, 4) { (*r.pick(&rows))[i].clone() } else { value(r, &t.cols[i], is_key(t, i), p) }; match v { V::T(t) if t.len() > 200 => V::T(b"zz".to_vec()), v => v } };
    // by key, most of the time
    if !t.uq.is_empty() && r.chance(1, 3) {
        let u = r.pick(&t.uq).clone();
        let mut e: Option<E> = None;
        for c in &u.cols { let i = t.pos(c).unwrap(); let op = *r.pick(&["=", "=", "=", "<", ">=", ">", "<="]); let x = bin(op, E::C(i), E::L(vals(r, i))); e = Some(match e { None => x, Some(y) => bin("AND", y, x) }); if r.chance(1, 3) { break; } }
        return e;
    }
    let g = Gen { div: true, cols: &kinds, vals: &vals };
    Some(if r.chance(2, 3) { g.boolean(r, 0) } else { g.boolean(r, 2) })
}
pub fn gen_insert(r: &mut Rng, name: &str, t: &Tab, p: &Prof) -> St {
    let n = 1 + r.us(p.multi);
    let list = r.chance(1, 4);
    let cols: Vec<usize> = if list { let mut v: Vec<usize> = (0..t.cols.len()).filter(|i| is_key(t, *i) || r.chance(3, 4)).collect(); if v.is_empty() { v.push(0); } r.shuffle(&mut v); v } else { (0..t.cols.len()).collect() };
    let rows = (0..n).map(|_| cols.iter().map(|i| { let mut v = value(r, &t.cols[*i], is_key(t, *i), p); if v.is_null() && t.cols[*i].notnull && r.chance(9, 10) { v = kind_value(r, t.cols[*i].k, is_key(t, *i), p); } v }).collect()).collect();
    St::Insert { t: name.into(), cols: if list { Some(cols.iter().map(|i| t.cols[*i].name.clone()).collect()) } else { None }, rows }
}
pub fn gen_update(r: &mut Rng, name: &str, t: &Tab, p: &Prof) -> St {
    let kinds: Vec<K> = t.cols.iter().map(|c| c.k).collect();
    let mut sets: Vec<(usize, E)> = Vec::new();
    for _ in 0..1 + r.us(3).min(1) {
        let i = r.us(t.cols.len());
        if sets.iter().any(|(c, _)| *c == i) { continue; }
        let v = { let mut v = value(r, &t.cols[i], is_key(t, i), p); if v.is_null() && t.cols[i].notnull && r.chance(9, 10) { v = kind_value(r, t.cols[i].k, is_key(t, i), p); } v };
        let e = match (kinds[i], r.us(4)) {
            (K::Int | K::Big | K::F64, 0) => bin(*r.pick(&["+", "-"]), E::C(i), E::L(V::Big(1 + r.range(0, 2)))),
            (k, 1) => { let same: Vec<usize> = (0..kinds.len()).filter(|j| kinds[*j] == k).collect(); E::C(*r.pick(&same)) }
            (K::T, 2) => E::F(*r.pick(&["UPPER", "LOWER"]), vec![E::C(i)]),
            _ => E::L(v),
        };
        sets.push((i, e));
    }
    St::Update { t: name.into(), sets, wher: where_(r, t, p) }
}
pub fn draw(r: &mut Rng, s: &State, p: &Prof, seq: &mut u64) -> St {
    let have: Vec<&String> = s.keys().filter(|k| k.starts_with('t')).collect();
    if have.is_empty() { let n = format!("t{}", r.below(p.names)); return create(r, n, p); }
    let tn = (*r.pick(&have)).clone();
    let t = s[&tn].clone();
    let seq = || { *seq += 1; *seq };
    let mut seq = seq;
    match r.weighted(&p.w) {
        0 => { let n = format!("t{}", r.below(p.names)); create(r, n, p) }
        1 => { let i = r.us(t.cols.len()); let mut cols = vec![t.cols[i].name.clone()]; if r.chance(1, 3) { let j = r.us(t.cols.len()); if j != i { cols.push(t.cols[j].name.clone()); } }
               if t.cols[i].k == K::Bool || t.uq.len() > 3 || t.uq.iter().any(|u| u.cols == cols) { return gen_insert(r, &tn, &t, p); }
               St::Index { t: tn, name: if r.chance(1, 4) { format!("ix{}", r.below(8)) } else { format!("ix{}", seq()) }, cols } }
        2 => St::Drop { t: if r.chance(1, 6) { format!("t{}", r.below(p.names + 1)) } else { tn }, ie: r.chance(1, 3) },
        3 => match r.us(4) {
            0 | 1 => {
                // now and then the name of a column that is not there anymore
                let name = if r.chance(1, 3) { format!("{}{}", r.pick(&["c", "d"]), r.below(7)) } else { format!("d{}", seq()) };
                let name = if t.pos(&name).is_some() && r.chance(3, 4) { format!("d{}", seq()) } else { name };
                let mut col = newcol(r, name, p);
                if col.notnull && col.default.is_none() && !t.rows.is_empty() && r.chance(3, 4) { col.notnull = false; }
                if t.cols.len() > 9 + p.wide { return gen_insert(r, &tn, &t, p); }
                St::AddCol { t: tn, col }
            }
            2 => {
                let keys = r.chance(1, 4);
                let c: Vec<&Col> = t.cols.iter().filter(|c| keys || !t.in_unique(&c.name)).collect();
                if t.cols.len() < 3 || c.is_empty() { return gen_update(r, &tn, &t, p); }
                St::DropCol { t: tn, c: r.pick(&c).name.clone() }
            }
            _ => {
                let c: Vec<&Col> = t.cols.iter().filter(|c| !matches!(c.k, K::T | K::Bool)).collect();
                if c.is_empty() { return gen_update(r, &tn, &t, p); }
                let c = *r.pick(&c);
                let k = match c.k {
                    K::Int | K::Big | K::UInt | K::BigU => *r.pick(&[K::Int, K::Big, K::Big, K::UInt, K::BigU, K::F64]),
                    _ => *r.pick(&[K::F32, K::F64, K::F64]),
                };
                St::SetType { t: tn, c: c.name.clone(), k }
            }
        },
        4 => { let c = r.pick(&t.cols).clone(); match r.us(5) {
            0 => { let v = kind_value(r, c.k, false, &Prof { big: 0, ..p.clone() }); St::SetDefault { t: tn, c: c.name, v } }
            1 => St::DropDefault { t: tn, c: c.name },
            2 => St::NotNull { t: tn, c: c.name, on: true },
            3 => { if t.uq.iter().any(|u| u.pk && u.cols.contains(&c.name)) { return gen_insert(r, &tn, &t, p); } St::NotNull { t: tn, c: c.name, on: false } }
            _ => { if c.k == K::Bool || t.uq.len() > 3 || t.uq.iter().any(|u| u.cols == [c.name.clone()]) { return gen_insert(r, &tn, &t, p); } let pk = !t.uq.iter().any(|u| u.pk) && r.chance(1, 2); let mut cols = vec![c.name]; for _ in 0..r.us(3) { let o = r.pick(&t.cols); if !cols.contains(&o.name) { cols.push(o.name.clone()); } } if t.uq.iter().any(|u| u.cols == cols) { return gen_insert(r, &tn, &t, p); } St::AddUnique { t: tn, cols, pk } }
        } }
        5 if t.rows.len() < p.maxrows => gen_insert(r, &tn, &t, p),
        6 if t.rows.len() < p.maxrows => { let from = if t.uq.is_empty() && r.chance(1, 3) { tn.clone() } else { (*r.pick(&have)).clone() };
            let f = &s[&from];
            if f.cols.len() != t.cols.len() || f.cols.iter().zip(&t.cols).any(|(a, b)| a.k != b.k) || f.rows.len() > 60 { return gen_insert(r, &tn, &t, p); }
            St::InsertSelect { t: tn, wher: where_(r, f, p), from } }
        7 => gen_update(r, &tn, &t, p),
        5 | 6 | 8 => { let w = where_(r, &t, p); St::Delete { t: tn, wher: if w.is_none() && r.chance(3, 4) { Some(bin("=", E::C(0), E::L(kind_value(r, t.cols[0].k, is_key(&t, 0), p)))) } else { w } } }
        9 => St::Select { wher: where_(r, &t, p), t: tn },
        10 => St::Count { wher: where_(r, &t, p), t: tn },
        _ => St::Bad(match r.us(7) {
            0 => format!("INSERT INTO {tn} VALUES ({})", (1..=14.max(t.cols.len() + 1)).map(|i| i.to_string()).collect::<Vec<_>>().join(",")),
            1 => format!("SELECT nosuch FROM {tn}"), 2 => "SELECT * FROM nosuchtable".into(), 3 => format!("UPDATE {tn} SET nosuch = 1"),
            4 => format!("DELETE FROM {tn} WHERE nosuch = 1"), 5 => format!("SELEC * FROM {tn}"), _ => format!("ALTER TABLE {tn} DROP COLUMN nosuch"),
        }),
    }
}
