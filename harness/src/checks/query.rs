//! Queries beside an evaluator that works by definition: C05 (answers), C06 (plans).
use crate::drv::*;
use crate::expr::*;
use crate::model::*;
use crate::rng::Rng;
use crate::run::*;
use crate::val::*;
use crate::viol;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum J { Comma, Cross, Inner, Left, Right, Full }
#[derive(Clone, Debug)]
pub enum Src { Table(String), Sub(Box<Q>), Cte(usize) }
#[derive(Clone, Debug)]
pub struct Fr { pub j: J, pub src: Src, pub alias: Option<String>, pub on: Option<E> }
#[derive(Clone, Debug)]
pub struct Agg { pub f: &'static str, pub arg: Option<E>, pub distinct: bool }
#[derive(Clone, Debug)]
pub struct Grp { pub by: Vec<E>, pub aggs: Vec<Agg>, pub having: Option<E> }
#[derive(Clone, Debug)]
pub enum Key { Item(usize), Ex(E) }
#[derive(Clone, Debug)]
pub struct Item { pub e: E, pub k: K, pub alias: Option<String> }
#[derive(Clone, Debug)]
pub struct Q {
    pub ctes: Vec<(String, Q)>, pub from: Vec<Fr>, pub wh: Option<E>, pub grp: Option<Grp>, pub items: Vec<Item>, pub star: bool, pub distinct: bool,
    pub order: Vec<(Key, bool)>, pub limit: Option<usize>, pub offset: Option<usize>, pub qualify: bool, pub tight: bool,
}
/// A column in scope: qualifier, name, kind, whether its values keep the kind, some of its values.
#[derive(Clone, Debug)]
pub struct C { pub q: String, pub n: String, pub k: K, pub exact: bool, pub some: Vec<V> }

/// One text per value, the same for numbers of different types that are equal.
pub fn canon(v: &V) -> String {
    match v {
        V::Null => "N".into(), V::Bool(b) => format!("b{b}"), V::T(t) => format!("t{}:{}", t.len(), t.iter().map(|c| format!("{c:02x}")).collect::<String>()),
        v => match v.as_i128() { Some(i) => format!("n{i}"), None => { let f = v.as_f64().unwrap(); if f.fract() == 0.0 && f.abs() < 1e30 { format!("n{}", f as i128) } else if f.is_nan() { "fnan".into() } else { format!("f{:x}", f.to_bits()) } } },
    }
}
pub fn canon_row(r: &[V]) -> String { r.iter().map(canon).collect::<Vec<_>>().join("|") }
/// NULLs come last going up and first going down.
fn key_cmp(a: &V, o: &V, asc: bool) -> Ordering {
    let c = match (a.is_null(), o.is_null()) { (true, true) => Ordering::Equal, (true, false) => Ordering::Greater, (false, true) => Ordering::Less, _ => a.cmp_exact(o).unwrap_or(Ordering::Equal) };
    if asc { c } else { c.reverse() }
}
/// The answer: groups of rows with equal keys in the order they are due, and the window over them.
pub struct Ans { pub width: usize, pub groups: Vec<Vec<Vec<V>>>, pub skip: usize, pub take: usize }
impl Ans {
    pub fn len(&self) -> usize { self.groups.iter().map(|g| g.len()).sum::<usize>().saturating_sub(self.skip).min(self.take) }
    fn rows(&self) -> Vec<Vec<V>> { self.groups.iter().flatten().skip(self.skip).take(self.take).cloned().collect() }
    pub fn judge(&self, rows: &[Vec<V>]) -> Result<(), String> {
        if rows.len() != self.len() { return Err(format!("{} rows where {} are due; got {}; due {}", rows.len(), self.len(), show(rows), show(&self.rows()))); }
        let (mut at, mut i) = (0, 0);
        for g in &self.groups {
            let (lo, hi) = (at.max(self.skip), (at + g.len()).min(self.skip.saturating_add(self.take)));
            at += g.len();
            if hi <= lo { continue; }
            let part = &rows[i..i + hi - lo];
            i += hi - lo;
            let mut m: HashMap<String, i64> = HashMap::new();
            for r in g { *m.entry(canon_row(r)).or_insert(0) += 1; }
            for r in part { let e = m.entry(canon_row(r)).or_insert(0); *e -= 1; if *e < 0 { return Err(format!("row {} is wrong (or at the wrong place, or there too often); got {}; due {}", show_row(r), show(rows), show(&self.rows()))); } }
        }
        Ok(())
    }
}
fn show(r: &[Vec<V>]) -> String { let s: Vec<String> = r.iter().take(12).map(|r| show_row(r)).collect(); format!("[{}{}]", s.join(" "), if r.len() > 12 { " …" } else { "" }) }

fn agg(a: &Agg, rows: &[&Vec<V>]) -> Result<V, ()> {
    let mut vals = Vec::new();
    for r in rows { match &a.arg { None => vals.push(V::Bool(true)), Some(e) => { let v = e.eval(r)?; if !v.is_null() { vals.push(v); } } } }
    if a.distinct { let mut seen = HashSet::new(); vals.retain(|v| seen.insert(canon(v))); }
    Ok(match a.f {
        "COUNT" => V::Big(vals.len() as i64),
        "MIN" | "MAX" => {
            let mut best: Option<V> = None;
            for v in vals { best = Some(match best { None => v, Some(b) => { let o = v.cmp_exact(&b).ok_or(())?; if (a.f == "MIN" && o.is_lt()) || (a.f == "MAX" && o.is_gt()) { v } else { b } } }); }
            best.unwrap_or(V::Null)
        }
        f => {
            if vals.is_empty() { return Ok(V::Null); }
            let (mut i, mut d) = (0i128, 0f64);
            for v in &vals { match v.as_i128() { Some(x) => i += x, None => d += v.as_f64().ok_or(())? } }
            let s = if d == 0.0 { i as f64 } else { i as f64 + d };
            V::F64(if f == "AVG" { s / vals.len() as f64 } else { s })
        }
    })
}
impl Q {
    fn src_cols(&self, s: &State, f: &Fr, ctes: &[(String, Vec<C>)]) -> Vec<C> {
        let (q, cols) = match &f.src {
            Src::Table(t) => { let tab = &s[t]; (t.clone(), tab.cols.iter().enumerate().map(|(i, c)| { let n = tab.rows.len(); C { q: String::new(), n: c.name.clone(), k: c.k, exact: true, some: tab.rows.values().step_by((n / 8).max(1)).map(|r| r[i].clone()).collect() } }).collect::<Vec<_>>()) }
            Src::Sub(q) => (String::new(), q.out(s, ctes)),
            Src::Cte(i) => (ctes[*i].0.clone(), ctes[*i].1.clone()),
        };
        let q = f.alias.clone().unwrap_or(q);
        cols.into_iter().map(|c| C { q: q.clone(), ..c }).collect()
    }
    fn cte_cols(&self, s: &State, ctes: &[(String, Vec<C>)]) -> Vec<(String, Vec<C>)> {
        let mut all = ctes.to_vec();
        for (n, q) in &self.ctes { let c = q.out(s, &all); all.push((n.clone(), c)); }
        all
    }
    /// Columns in scope of WHERE and everything before the grouping.
    pub fn input(&self, s: &State, ctes: &[(String, Vec<C>)]) -> Vec<C> { let all = self.cte_cols(s, ctes); self.from.iter().flat_map(|f| self.src_cols(s, f, &all)).collect() }
    pub fn out(&self, s: &State, ctes: &[(String, Vec<C>)]) -> Vec<C> {
        if self.star { return self.input(s, ctes).into_iter().map(|c| C { q: String::new(), ..c }).collect(); }
        self.items.iter().enumerate().map(|(i, it)| C { q: String::new(), n: it.alias.clone().unwrap_or(format!("?{i}")), k: it.k, exact: false, some: Vec::new() }).collect()
    }
    fn text(&self, e: &E, n: &[String]) -> String { if self.tight { e.tight(n) } else { e.sql(n) } }
    fn names(&self, cols: &[C]) -> Vec<String> {
        cols.iter().map(|c| if !c.q.is_empty() && (self.qualify || cols.iter().filter(|o| o.n == c.n).count() > 1) { format!("{}.{}", c.q, c.n) } else { c.n.clone() }).collect()
    }
    /// Names for what is there after grouping.
    fn post_names(&self, n: &[String]) -> Vec<String> {
        let Some(g) = &self.grp else { return n.to_vec() };
        let mut v: Vec<String> = g.by.iter().map(|e| match e { E::C(_) => self.text(e, n), e => format!("({})", self.text(e, n)) }).collect();
        for a in &g.aggs { v.push(match &a.arg { None => "COUNT(*)".into(), Some(e) => format!("{}({}{})", a.f, if a.distinct { "DISTINCT " } else { "" }, self.text(e, n)) }); }
        v
    }
    pub fn sql(&self, s: &State, ctes: &[(String, Vec<C>)]) -> String {
        let mut o = String::new();
        let all = self.cte_cols(s, ctes);
        if !self.ctes.is_empty() {
            let mut known = ctes.to_vec();
            let mut parts = Vec::new();
            for (n, q) in &self.ctes { parts.push(format!("{n} AS ({})", q.sql(s, &known))); let c = q.out(s, &known); known.push((n.clone(), c)); }
            o += &format!("WITH {} ", parts.join(", "));
        }
        let cols = self.input(s, ctes);
        let n = self.names(&cols);
        let p = self.post_names(&n);
        o += "SELECT ";
        if self.distinct { o += "DISTINCT "; }
        if self.star { o += "*"; } else { o += &self.items.iter().map(|i| format!("{}{}", self.text(&i.e, &p), i.alias.as_ref().map(|a| format!(" AS {a}")).unwrap_or_default())).collect::<Vec<_>>().join(", "); }
        let mut seen = 0;
        for (i, f) in self.from.iter().enumerate() {
            seen += self.src_cols(s, f, &all).len();
            o += if i == 0 { " FROM " } else { match f.j { J::Comma => ", ", J::Cross => " CROSS JOIN ", J::Inner => if self.tight { " JOIN " } else { " INNER JOIN " }, J::Left => " LEFT JOIN ", J::Right => " RIGHT JOIN ", J::Full => " FULL JOIN " } };
            o += &match &f.src { Src::Table(t) => t.clone(), Src::Sub(q) => format!("({})", q.sql(s, &all)), Src::Cte(i) => all[*i].0.clone() };
            if let Some(a) = &f.alias { o += &format!(" {}{a}", if self.tight && !matches!(f.src, Src::Sub(_)) { "" } else { "AS " }); }
            if let Some(e) = &f.on { o += &format!(" ON {}", self.text(e, &n[..seen])); }
        }
        if let Some(e) = &self.wh { o += &format!(" WHERE {}", self.text(e, &n)); }
        if let Some(g) = &self.grp {
            if !g.by.is_empty() { o += &format!(" GROUP BY {}", g.by.iter().map(|e| self.text(e, &n)).collect::<Vec<_>>().join(", ")); }
            if let Some(e) = &g.having { o += &format!(" HAVING {}", self.text(e, &p)); }
        }
        if !self.order.is_empty() {
            o += " ORDER BY ";
            o += &self.order.iter().map(|(k, asc)| format!("{}{}", match k { Key::Item(i) => match &self.items[*i].alias { Some(a) => a.clone(), None => self.text(&self.items[*i].e, &p) }, Key::Ex(e) => self.text(e, &p) }, if !*asc { " DESC" } else if self.tight { "" } else { " ASC" })).collect::<Vec<_>>().join(", ");
        }
        if let Some(l) = self.limit { o += &format!(" LIMIT {l}"); }
        if let Some(l) = self.offset { o += &format!(" OFFSET {l}"); }
        o
    }
    pub fn eval(&self, s: &State, ctes: &[(usize, Vec<Vec<V>>)]) -> Result<Ans, ()> {
        let mut all = ctes.to_vec();
        for (_, q) in &self.ctes { let r = q.eval(s, &all)?; all.push((r.width, r.rows())); }
        let mut acc: Vec<Vec<V>> = vec![vec![]];
        let mut width = 0;
        for f in &self.from {
            let (w, src): (usize, Vec<Vec<V>>) = match &f.src {
                Src::Table(t) => (s[t].cols.len(), s[t].rows.values().map(|r| (**r).clone()).collect()),
                Src::Sub(q) => { let r = q.eval(s, &all)?; (r.width, r.rows()) }
                Src::Cte(i) => all[*i].clone(),
            };
            let mut out = Vec::new();
            let mut used = vec![false; src.len()];
            if WORK.with(|w| { w.set(w.get() + acc.len() * (1 + src.len())); w.get() }) > 120_000 { return Err(()); }
            for a in &acc {
                let mut hit = false;
                for (j, b) in src.iter().enumerate() {
                    let mut row = a.clone();
                    row.extend(b.iter().cloned());
                    if match &f.on { Some(e) => e.truth(&row)?, None => true } { hit = true; used[j] = true; out.push(row); }
                }
                if !hit && matches!(f.j, J::Left | J::Full) { let mut row = a.clone(); row.extend(std::iter::repeat_n(V::Null, w)); out.push(row); }
            }
            if matches!(f.j, J::Right | J::Full) { for (j, b) in src.iter().enumerate() { if !used[j] { let mut row = vec![V::Null; width]; row.extend(b.iter().cloned()); out.push(row); } } }
            acc = out;
            width += w;
        }
        if let Some(e) = &self.wh { let mut v = Vec::new(); for r in acc { if e.truth(&r)? { v.push(r); } } acc = v; }
        if let Some(g) = &self.grp {
            let mut order: Vec<(Vec<V>, Vec<&Vec<V>>)> = Vec::new();
            let mut at: HashMap<String, usize> = HashMap::new();
            for r in &acc {
                let k = g.by.iter().map(|e| e.eval(r)).collect::<Result<Vec<_>, _>>()?;
                let i = *at.entry(canon_row(&k)).or_insert_with(|| { order.push((k, Vec::new())); order.len() - 1 });
                order[i].1.push(r);
            }
            if g.by.is_empty() && order.is_empty() { order.push((vec![], vec![])); }
            let mut v = Vec::new();
            for (mut k, rows) in order {
                for a in &g.aggs { k.push(agg(a, &rows)?); }
                if match &g.having { Some(e) => e.truth(&k)?, None => true } { v.push(k); }
            }
            acc = v;
        }
        let mut rows: Vec<(Vec<V>, Vec<V>)> = Vec::new();
        for r in acc {
            let out = if self.star { r.clone() } else { self.items.iter().map(|i| i.e.eval(&r)).collect::<Result<Vec<_>, _>>()? };
            let keys = self.order.iter().map(|(k, _)| match k { Key::Item(i) => Ok(out[*i].clone()), Key::Ex(e) => e.eval(&r) }).collect::<Result<Vec<_>, _>>()?;
            rows.push((keys, out));
        }
        if self.distinct { let mut seen = HashSet::new(); rows.retain(|r| seen.insert(canon_row(&r.1))); }
        let cmp = |a: &Vec<V>, b: &Vec<V>| a.iter().zip(b).zip(&self.order).map(|((x, y), (_, asc))| key_cmp(x, y, *asc)).find(|o| o.is_ne()).unwrap_or(Ordering::Equal);
        rows.sort_by(|a, b| cmp(&a.0, &b.0));
        let mut groups: Vec<Vec<Vec<V>>> = Vec::new();
        let mut last: Option<Vec<V>> = None;
        for (k, o) in rows { if last.as_ref().is_some_and(|l| cmp(l, &k).is_eq()) { groups.last_mut().unwrap().push(o); } else { groups.push(vec![o]); } last = Some(k); }
        Ok(Ans { width: if self.star { width } else { self.items.len() }, groups, skip: self.offset.unwrap_or(0), take: self.limit.unwrap_or(usize::MAX) })
    }
}

thread_local! { static WORK: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
/// The answer, or None when it takes too long to work out by definition.
pub fn oracle(q: &Q, s: &State) -> Option<Result<Ans, ()>> {
    WORK.with(|w| w.set(0));
    let a = q.eval(s, &[]);
    if WORK.with(|w| w.get()) > 120_000 { None } else { Some(a) }
}
pub struct Opt { pub keyed: bool, pub sources: usize, pub grouped: u64, pub nested: bool, pub depth: usize }
fn class_item(r: &mut Rng, g: &Gen, cols: &[C], depth: usize) -> (E, K) {
    if !cols.is_empty() && r.chance(1, 2) { let i = r.us(cols.len()); return (E::C(i), cols[i].k); }
    match r.us(7) { 0..=3 => { let d = r.us(depth + 1); (g.num(r, d), K::F64) } 4 | 5 => { let d = r.us(depth); (g.text(r, d), K::T) } _ => { let d = r.us(2); (g.boolean(r, d), K::Bool) } }
}
fn join_on(r: &mut Rng, cols: &[C], left: usize, kinds: &[K]) -> Option<E> {
    let mut pairs = Vec::new();
    for i in 0..left { for j in left..cols.len() { if cols[i].k.t() == cols[j].k.t() && (cols[i].k != K::Bool || r.chance(1, 4)) { pairs.push((i, j)); } } }
    let vals = |r: &mut Rng, i: usize| sample(r, &cols[i]);
    let g = Gen { div: false, cols: kinds, vals: &vals };
    if pairs.is_empty() || r.chance(1, 14) { return Some(g.boolean(r, 1)); }
    // columns of the same name or kind more often
    let (i, j) = { let good: Vec<&(usize, usize)> = pairs.iter().filter(|(i, j)| cols[*i].k == cols[*j].k).collect(); if !good.is_empty() && r.chance(2, 3) { **r.pick(&good) } else { *r.pick(&pairs) } };
    let (a, c) = if r.bool() { (i, j) } else { (j, i) };
    let mut e = bin(if r.chance(1, 8) { *r.pick(&["<", ">=", "<>"]) } else { "=" }, E::C(a), E::C(c));
    if r.chance(1, 4) { let (i, j) = *r.pick(&pairs); let x = bin("=", E::C(i), E::C(j)); e = bin("AND", e, x); }
    if r.chance(1, 4) { let x = g.boolean(r, 0); e = if r.chance(1, 6) { bin("OR", e, x) } else { bin("AND", e, x) }; }
    Some(e)
}
fn sample(r: &mut Rng, c: &C) -> V {
    if c.some.is_empty() || r.chance(1, 6) { return match c.k.t() { T::Num => { let v = small_lit(r, T::Num); if matches!(c.k, K::UInt | K::BigU) { match v { V::Big(i) => V::Big(i.abs()), v => v } } else { v } } t => small_lit(r, t) }; }
    r.pick(&c.some).clone()
}
pub fn draw_query(r: &mut Rng, s: &State, ctes: &[(String, Vec<C>)], o: &Opt, tag: &mut usize) -> Q {
    let tabs: Vec<&String> = s.keys().collect();
    let mut q = Q { ctes: Vec::new(), from: Vec::new(), wh: None, grp: None, items: Vec::new(), star: false, distinct: false, order: Vec::new(), limit: None, offset: None, qualify: r.bool(), tight: r.chance(2, 3) };
    if !o.nested && r.chance(1, 9) {
        for _ in 0..1 + r.us(2) {
            let known = q.cte_cols(s, ctes);
            let c = draw_query(r, s, &known, &Opt { keyed: false, sources: 2, grouped: 3, nested: true, depth: 1 }, tag);
            let names = c.out(s, &known);
            if names.iter().any(|a| names.iter().filter(|b| a.n == b.n).count() > 1) { continue; }
            *tag += 1;
            q.ctes.push((format!("w{tag}"), c));
        }
    }
    let known = q.cte_cols(s, ctes);
    let n = if o.sources == 0 { 0 } else { 1 + match r.us(10) { 0..=4 => 0, 5..=7 => 1, 8 => 2, _ => if r.chance(1, 3) { 3 + r.us(3) } else { 2 } }.min(o.sources - 1) };
    let mut plain = true;
    // as large as the product of all can get in another form of the query
    let widest = s.values().map(|t| t.rows.len()).max().unwrap_or(0);
    let n = if n > 3 && widest.saturating_pow(n as u32) > 60_000 { 3 } else { n };
    for i in 0..n {
        let mut src = if !known.is_empty() && r.chance(2, 3) { Src::Cte(r.us(known.len())) } else if o.sources > 1 && r.chance(1, 7) { { let k = 1 + r.us(2); Src::Sub(Box::new(draw_query(r, s, &known, &Opt { keyed: false, sources: k, grouped: 3, nested: true, depth: 1 }, tag))) } } else { Src::Table((*r.pick(&tabs)).clone()) };
        // columns with the same name could not be told apart outside
        if let Src::Sub(x) = &src { if x.star && { let c = x.out(s, &known); c.iter().any(|a| c.iter().filter(|b| a.n == b.n).count() > 1) } { src = Src::Table((*r.pick(&tabs)).clone()); } }
        if !matches!(src, Src::Table(_)) { plain = false; }
        let name = match &src { Src::Table(t) => Some(t.clone()), Src::Cte(i) => Some(known[*i].0.clone()), _ => None };
        let used: BTreeSet<String> = q.from.iter().map(|f| match (&f.alias, &f.src) { (Some(a), _) => a.clone(), (None, Src::Table(t)) => t.clone(), (None, Src::Cte(i)) => known[*i].0.clone(), _ => String::new() }).collect();
        let alias = if name.as_ref().is_none_or(|n| used.contains(n)) || r.chance(1, 3) { *tag += 1; Some(format!("s{tag}")) } else { None };
        let tail = q.from.iter().any(|f| f.j == J::Comma) && i > 0;
        let j = if i == 0 { J::Cross } else { match r.us(12) { 0 => J::Comma, 1 => J::Cross, 2..=6 => J::Inner, 7 | 8 => J::Left, 9 | 10 if !tail => J::Right, 11 if !tail => J::Full, _ => J::Inner } };
        q.from.push(Fr { j, src, alias, on: None });
        let cols = q.input(s, ctes);
        let kinds: Vec<K> = cols.iter().map(|c| c.k).collect();
        if matches!(j, J::Inner | J::Left | J::Right | J::Full) && !(j == J::Inner && r.chance(1, 25)) {
            let f = q.from.pop().unwrap();
            let left = q.input(s, ctes).len();
            q.from.push(f);
            q.from[i].on = join_on(r, &cols, left, &kinds);
        }
    }
    let cols = q.input(s, ctes);
    let kinds: Vec<K> = cols.iter().map(|c| c.k).collect();
    let vals = |r: &mut Rng, i: usize| sample(r, &cols[i]);
    let g = Gen { div: plain, cols: &kinds, vals: &vals };
    if n > 0 && r.chance(3, 5) {
        let dd = r.us(4).min(o.depth);
        let mut e = g.boolean(r, dd);
        // a join condition in WHERE
        if n > 1 && r.chance(1, 3) { let left = r.us(cols.len() - 1) + 1; if let Some(x) = join_on(r, &cols, left, &kinds) { e = bin("AND", x, e); } }
        q.wh = Some(e);
    }
    // a range or a point of a key
    if o.keyed && n > 0 && r.chance(3, 4) {
        let i = r.us(n);
        if let Src::Table(t) = &q.from[i].src {
            let tab = &s[t];
            if !tab.uq.is_empty() {
                let off: usize = q.from[..i].iter().map(|f| q.src_cols(s, f, &known).len()).sum();
                let u = r.pick(&tab.uq).clone();
                let mut e: Option<E> = None;
                for c in tab.uq_pos(&u) {
                    let mut v = sample(r, &cols[off + c]);
                    if v.is_null() && r.chance(9, 10) { v = kind_value(r, tab.cols[c].k, true, &BASE); }
                    let x = match r.us(9) { 0 => { let w = kind_value(r, tab.cols[c].k, true, &BASE); E::Between(b(E::C(off + c)), b(E::L(v)), b(E::L(w)), false) } 1 => bin(*r.pick(&["=", "<", ">="]), E::L(v), E::C(off + c)), _ => bin(*r.pick(&["=", "=", "=", "<", "<=", ">", ">="]), E::C(off + c), E::L(v)) };
                    e = Some(match e { None => x, Some(y) => if r.bool() { bin("AND", y, x) } else { bin("AND", x, y) } });
                    if r.chance(1, 3) { break; }
                }
                let e = e.unwrap();
                q.wh = Some(match q.wh.take() { None => e, Some(w) => match r.us(6) { 0 | 1 => e, 2 => bin("OR", e, w), _ => if r.bool() { bin("AND", e, w) } else { bin("AND", w, e) } } });
            }
        }
    }
    if n > 0 && r.chance(o.grouped, 10) {
        let mut by = Vec::new();
        if !r.chance(1, 4) { for _ in 0..1 + r.seldom(2, 8, 6) { if r.chance(2, 3) { by.push(E::C(r.us(cols.len()))); } else { let (e, _) = class_item(r, &g, &cols, 1); let mut c = Vec::new(); e.cols(&mut c); if !c.is_empty() { by.push(e); } } } }
        let mut seen = HashSet::new();
        by.retain(|e| seen.insert(format!("{e:?}")));
        let mut aggs = Vec::new();
        for _ in 0..r.seldom(4, 8, 9) + (by.is_empty() as usize) {
            aggs.push(match r.us(7) {
                0 | 1 => Agg { f: "COUNT", arg: None, distinct: false },
                2 => { let (e, _) = class_item(r, &g, &cols, 1); Agg { f: "COUNT", arg: Some(e), distinct: r.chance(1, 3) } }
                3 | 4 => { let d = r.us(2); let num: Vec<usize> = (0..cols.len()).filter(|i| cols[*i].k.numeric()).collect(); let e = if !num.is_empty() && r.chance(2, 3) { E::C(*r.pick(&num)) } else { g.num(r, d) }; Agg { f: *r.pick(&["SUM", "SUM", "AVG"]), arg: Some(e), distinct: r.chance(1, 6) } }
                _ => { let c: Vec<usize> = (0..cols.len()).filter(|i| cols[*i].k != K::Bool).collect(); let e = if !c.is_empty() && r.chance(3, 4) { E::C(*r.pick(&c)) } else { g.num(r, 1) }; Agg { f: *r.pick(&["MIN", "MAX"]), arg: Some(e), distinct: r.chance(1, 12) } }
            });
        }
        let mut pc: Vec<C> = Vec::new();
        for e in &by { pc.push(match e { E::C(i) => cols[*i].clone(), e => C { q: String::new(), n: String::new(), k: class_of(e), exact: false, some: vec![] } }); }
        for a in &aggs { let k = match (a.f, &a.arg) { ("COUNT", _) => K::Big, ("SUM" | "AVG", _) => K::F64, (_, Some(E::C(i))) => cols[*i].k, (_, Some(e)) => class_of(e), _ => K::F64 }; pc.push(C { q: String::new(), n: String::new(), k, exact: false, some: vec![] }); }
        let pk: Vec<K> = pc.iter().map(|c| c.k).collect();
        let pv = |r: &mut Rng, i: usize| sample(r, &pc[i]);
        let pg = Gen { div: false, cols: &pk, vals: &pv };
        let having = if r.chance(2, 5) { let d = r.us(2); Some(pg.boolean(r, d)) } else { None };
        let k = 1 + r.seldom(4, 8, 12);
        for _ in 0..k { let (e, k) = if r.chance(1, 4) { class_item(r, &pg, &pc, 2) } else { let i = r.us(pc.len()); (E::C(i), pc[i].k) }; q.items.push(Item { e, k, alias: None }); }
        // without keys the query is grouped only if it names an aggregate
        if by.is_empty() { let i = r.us(pc.len()); q.items[0] = Item { e: E::C(i), k: pc[i].k, alias: None }; }
        q.grp = Some(Grp { by, aggs, having });
        finish_items(r, &mut q, o, tag, &pg, &pc);
        return q;
    }
    q.star = n > 0 && r.chance(1, 6);
    if !q.star { for _ in 0..1 + r.seldom(4, 10, 20) { let (e, k) = class_item(r, &g, &cols, o.depth); q.items.push(Item { e, k, alias: None }); } }
    finish_items(r, &mut q, o, tag, &g, &cols);
    q
}
fn class_of(e: &E) -> K {
    match e {
        E::L(v) => v.kind().unwrap_or(K::F64), E::C(_) | E::Neg(_) => K::F64, E::Not(_) | E::IsNull(..) | E::Between(..) | E::In(..) | E::Like(..) => K::Bool,
        E::Bin(op, ..) => match *op { "+" | "-" | "*" | "/" | "%" => K::F64, "||" => K::T, _ => K::Bool },
        E::Case(_, w, _) => class_of(&w[0].1), E::F(f, a) => match *f { "LOWER" | "UPPER" | "CONCAT" => K::T, "COALESCE" | "NULLIF" => class_of(&a[0]), _ => K::F64 },
    }
}
fn finish_items(r: &mut Rng, q: &mut Q, o: &Opt, tag: &mut usize, g: &Gen, cols: &[C]) {
    for it in q.items.iter_mut() { if o.nested || r.chance(1, 3) { *tag += 1; it.alias = Some(format!("o{tag}")); } }
    q.distinct = r.chance(1, 6);
    let lim = r.chance(1, 4);
    if o.nested {
        // a window is only determined when the whole row is ordered
        if lim && !q.star { q.order = (0..q.items.len()).map(|i| (Key::Item(i), r.bool())).collect(); }
    } else if r.chance(2, 5) {
        for _ in 0..1 + r.seldom(2, 6, 5) {
            let k = if !q.star && (q.distinct || r.chance(1, 2)) {
                let i = r.us(q.items.len());
                // a constant is no key
                let mut c = Vec::new(); q.items[i].e.cols(&mut c);
                if c.is_empty() && q.items[i].alias.is_none() { continue; }
                Key::Item(i)
            } else if q.distinct { continue } else if r.chance(2, 3) && !cols.is_empty() { Key::Ex(E::C(r.us(cols.len()))) } else { let e = g.num(r, 1); let mut c = Vec::new(); e.cols(&mut c); if c.is_empty() { continue; } Key::Ex(e) };
            q.order.push((k, r.chance(3, 5)));
        }
    }
    if lim && (!o.nested || !q.order.is_empty()) {
        if r.chance(4, 5) { q.limit = Some(match r.us(5) { 0 => 0, 1 => 1, 2 => 1000, _ => r.us(12) }); }
        if r.chance(1, 2) { q.offset = Some(match r.us(4) { 0 => 0, 1 => 500, _ => r.us(8) }); }
    }
}

/// Operators named in a plan.
pub fn ops(plan: &str) -> BTreeSet<String> {
    plan.lines().filter_map(|l| { let t = l.trim_start_matches([' ', '├', '─', '└', '│']); let e = t.find([' ', '(']).unwrap_or(t.len()); if e == 0 { None } else { let mut n = t[..e].to_string(); if n.ends_with("Join") { if let Some(x) = t.strip_prefix(&n[..]).and_then(|x| x.strip_prefix('(')).and_then(|x| x.split(')').next()) { n = format!("{n}{x}"); } } Some(n) } }).filter(|n| n.chars().all(|c| c.is_ascii_alphanumeric())).collect()
}
/// Runs the query and compares. True when it was judged.
pub fn ask(ctx: &mut Ctx, who: &str, sql: &str, want: &Result<Ans, ()>, run: &mut dyn FnMut(&str) -> Result<Got, String>) -> Result<bool, Fail> {
    ctx.note(format!("auto: {sql}"));
    ctx.count("queries", 1);
    match (run(sql), want) {
        (Err(e), _) if internal(&e) => violation(format!("{who}: {sql}\nfails with an internal error: {e}")),
        (_, Err(())) => { ctx.count("not_judged", 1); Ok(false) }
        (Err(e), Ok(a)) => violation(format!("{who}: {sql}\nfails with {e:?} but should give {}", show(&a.rows()))),
        (Ok(Got::Rows(_, rows)), Ok(a)) => {
            if let Err(m) = a.judge(&rows) { viol!("{who}: {sql}\n{m}"); }
            ctx.count("rows_compared", rows.len() as u64);
            if rows.is_empty() { ctx.count("empty_answers", 1); } else { ctx.count("answers_with_rows", 1); }
            Ok(true)
        }
        (Ok(o), _) => violation(format!("{who}: {sql}\ngives {o:?} instead of rows")),
    }
}

fn features(ctx: &mut Ctx, q: &Q) {
    let mut on = |c: bool, n: &str| if c { ctx.count(n, 1) };
    for f in q.from.iter().skip(1) { on(true, match f.j { J::Comma => "comma_joins", J::Cross => "cross_joins", J::Inner => "inner_joins", J::Left => "left_joins", J::Right => "right_joins", J::Full => "full_joins" }); }
    on(q.from.len() >= 3, "three_tables"); on(q.from.len() > 3, "more_tables"); on(q.from.iter().any(|f| matches!(f.src, Src::Sub(_))), "subqueries"); on(!q.ctes.is_empty(), "with_queries");
    if let Some(g) = &q.grp { on(true, "grouped"); on(g.having.is_some(), "having"); on(g.aggs.iter().any(|a| a.distinct), "distinct_aggregates"); on(g.by.is_empty(), "ungrouped_aggregates"); }
    on(q.distinct, "distinct"); on(!q.order.is_empty(), "ordered"); on(q.limit.is_some(), "limited"); on(q.offset.is_some(), "offset"); on(q.wh.is_some(), "filtered"); on(q.tight, "minimal_parentheses");
}

// ---------------------------------------------------------------- C05
pub static C05: Check = Check {
    id: "C05", level: "exploration",
    rule: "random populations of all column types (NULLs, duplicates, negative values, empty and odd text), random queries over the accepted grammar (expression trees printed with minimal or full parentheses, 1 to 6 sources joined in every way, sub-queries in FROM and WITH, grouping with every aggregate, HAVING, DISTINCT, ORDER BY with ties, LIMIT and OFFSET) run against an evaluator that works by definition (nested loops, three-valued logic, exact numbers); INSERT, UPDATE and DELETE are followed by a comparison of the count and the whole table. Texts over small alphabets of one to four byte characters meet patterns with escapes, comparisons and functions. Extreme values are compared, sorted and grouped; arithmetic that leaves its range must be an error. Non-trivial: queries gave rows.",
    quick: 2600, thorough: 80_000, hang_s: 90, threads: 8, run: c05, repros: &[],
    must_see: &["queries", "answers_with_rows", "left_joins", "right_joins", "full_joins", "inner_joins", "cross_joins", "comma_joins", "three_tables", "subqueries", "with_queries", "grouped", "having", "distinct_aggregates", "distinct", "ordered", "limited", "offset", "minimal_parentheses", "rows_written", "extreme_queries", "range_errors", "text_queries"],
    assumptions: &["NULLs sort last going up and first going down", "among rows with equal keys any order is right, also where LIMIT cuts"],
};
pub fn popul(r: &mut Rng) -> Prof {
    Prof { names: 3, keydom: *r.pick(&[10, 30, 300]), keys: 45, nulls: *r.pick(&[3, 12, 30]), big: 0, maxrows: *r.pick(&[10, 14, 14, 30, 120]), multi: *r.pick(&[4, 9, 30]),
        w: [0, 0, 0, 0, 0, 40, 3, 18, 12, 6, 3, 0], ..BASE }
}
pub fn fill(ctx: &mut Ctx, d: &mut Drv, r: &mut Rng, p: &Prof) -> CaseResult {
    let n = 1 + r.us(3);
    for i in 0..n { let st = create(r, format!("t{i}"), p); d.auto(ctx, &st)?; }
    for i in 0..n {
        let name = format!("t{i}");
        if !d.base.contains_key(&name) { continue; }
        let target = r.us(p.maxrows + 1);
        for _ in 0..12 { if d.base[&name].rows.len() >= target { break; } let st = gen_insert(r, &name, &d.base[&name].clone(), p); d.auto(ctx, &st)?; }
    }
    Ok(())
}
fn c05(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    if r.chance(1, 6) { return extremes(ctx, r); }
    if r.chance(1, 12) { return texts(ctx, r); }
    let mut d = Drv::new(ctx, Cfg::plain())?;
    let mut p = popul(&mut r);
    // tables of hundreds and thousands of rows
    let bulk = r.chance(1, 25);
    if bulk { p.maxrows = 4000; p.multi = 300; p.keydom = 1_000_000; ctx.count("bulk_tables", 1); }
    fill(ctx, &mut d, &mut r, &p)?;
    let mut tag = 0;
    for _ in 0..2 + r.us(3) {
        for _ in 0..6 + r.us(8) {
            let o = Opt { keyed: bulk && r.bool(), sources: if r.chance(1, 40) { 0 } else { 6 }, grouped: 3, nested: false, depth: if bulk { 1 } else { 3 } };
            let q = draw_query(&mut r, &d.base, &[], &o, &mut tag);
            let Some(want) = oracle(&q, &d.base) else { continue };
            let sql = q.sql(&d.base, &[]);
            features(ctx, &q);
            ask(ctx, "query", &sql, &want, &mut |s| exec(d.db(), s))?;
        }
        for _ in 0..r.us(6) { let st = draw(&mut r, &d.base, &p, &mut d.names); d.auto(ctx, &st)?; d.verify(ctx, false)?; }
        if r.chance(1, 6) { d.analyze(ctx)?; }
    }
    d.verify(ctx, true)?;
    ctx.nontrivial = ctx.counters.get("answers_with_rows").copied().unwrap_or(0) > 2;
    ctx.sample = Some(ctx.log.iter().rev().take(8).cloned().collect::<Vec<_>>().join("\n"));
    Ok(())
}
/// Texts of few different characters, of one to four bytes, against patterns, comparisons and functions of text.
fn texts(ctx: &mut Ctx, mut r: Rng) -> CaseResult {
    let mut d = Drv::new(ctx, Cfg::plain())?;
    let col = |n: &str| Col { name: n.into(), k: K::T, notnull: false, default: None };
    d.auto(ctx, &St::Create { t: "t0".into(), cols: vec![col("c0"), col("c1")], uq: vec![], ine: false })?;
    let mut chars = vec!['a', 'b', 'é', '€', '😀', '%', '_', '\\', '\'', ' ', 'A', 'É'];
    r.shuffle(&mut chars); chars.truncate(2 + r.us(4));
    let text = |r: &mut Rng, n: usize| -> String { (0..r.us(n + 1)).map(|_| *r.pick(&chars)).collect() };
    for _ in 0..1 + r.us(4) {
        let rows = (0..1 + r.us(40)).map(|_| (0..2).map(|_| if r.chance(1, 30) { V::Null } else { V::T(text(&mut r, 6).into_bytes()) }).collect()).collect();
        d.auto(ctx, &St::Insert { t: "t0".into(), cols: None, rows })?;
    }
    d.verify(ctx, true)?;
    let rows: Vec<Row> = d.base["t0"].rows.values().cloned().collect();
    let names = vec!["c0".to_string(), "c1".to_string()];
    for _ in 0..40 {
        let x = match r.us(4) { 0 => bin("||", E::C(0), E::C(1)), 1 => E::F("CONCAT", vec![E::C(1), E::L(V::T(text(&mut r, 2).into_bytes()))]), n => E::C(n - 2) };
        let value = |r: &mut Rng| if r.bool() { E::L(V::T(text(r, 4).into_bytes())) } else { E::L(r.pick(&rows)[r.us(2)].clone()) };
        let e = match r.us(8) {
            0 => { let v = value(&mut r); bin(*r.pick(&["=", "<>", "<", "<=", ">", ">="]), x, v) }
            1 => bin(*r.pick(&["=", "<>", "<", ">="]), x, E::C(1)),
            2 => { let (l, h) = (value(&mut r), value(&mut r)); E::Between(b(x), b(l), b(h), r.bool()) }
            3 => E::F(*r.pick(&["LENGTH", "LOWER", "UPPER"]), vec![x]),
            _ => { let p: String = (0..r.us(7)).map(|_| match r.us(6) { 0 | 1 => '%', 2 => '_', 3 => '\\', _ => *r.pick(&chars) }).collect(); E::Like(b(x), p, r.chance(1, 4)) }
        };
        let lower = matches!(&e, E::F(f, _) if *f != "LENGTH") && chars.iter().any(|c| !c.is_ascii());
        if lower { continue; }
        let wh = r.bool() && !matches!(e, E::F(..));
        let sql = if wh { format!("SELECT c0, c1 FROM t0 WHERE {}", e.sql(&names)) } else { format!("SELECT c0, c1, {} FROM t0", e.sql(&names)) };
        let mut want: Vec<Vec<V>> = Vec::new();
        for row in &rows {
            let Ok(v) = e.eval(row) else { return Ok(()) };
            if wh { if matches!(v, V::Bool(true)) { want.push(row.to_vec()); } } else { let mut w = row.to_vec(); w.push(v); want.push(w); }
        }
        ctx.count("text_queries", 1);
        ctx.note(format!("text query: {sql}"));
        let a = Ans { width: if wh { 2 } else { 3 }, groups: vec![want], skip: 0, take: usize::MAX };
        match exec(d.db(), &sql) {
            Ok(Got::Rows(_, got)) => if let Err(m) = a.judge(&got) { viol!("{sql}\n{m}"); },
            o => viol!("{sql} gives {o:?}"),
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
/// Values at the ends of their ranges: comparing, sorting and grouping them; arithmetic that cannot be represented is an error.
fn extremes(ctx: &mut Ctx, mut r: Rng) -> CaseResult {
    let mut d = Drv::new(ctx, Cfg::plain())?;
    let ks: Vec<K> = { let mut v = vec![K::Int, K::Big, K::UInt, K::BigU, K::F32, K::F64, K::T, K::Bool]; r.shuffle(&mut v); v.truncate(2 + r.us(5)); v };
    let cols: Vec<Col> = ks.iter().enumerate().map(|(i, k)| Col { name: format!("c{i}"), k: *k, notnull: false, default: None }).collect();
    for i in 0..1 + r.us(2) { d.auto(ctx, &St::Create { t: format!("t{i}"), cols: cols.clone(), uq: vec![], ine: false })?; }
    let value = |r: &mut Rng, k: K| -> V {
        if r.chance(1, 8) { return V::Null; }
        match any(r, k, 300) {
            V::F32(f) if !f.is_finite() || f.to_bits() == 0x8000_0000 || f != 0.0 && f.abs() < 1e-30 => V::F32(-1.5),
            V::F64(f) if !f.is_finite() || f.to_bits() == 1 << 63 || f != 0.0 && f.abs() < 1e-300 => V::F64(1e300),
            V::T(t) => V::T(String::from_utf8_lossy(&t).replace('\0', "x").into_bytes()), v => v,
        }
    };
    let names: Vec<String> = d.base.keys().cloned().collect();
    for t in &names { for _ in 0..1 + r.us(3) { let n = 1 + r.us(6); let rows = (0..n).map(|_| ks.iter().map(|k| value(&mut r, *k)).collect()).collect(); d.auto(ctx, &St::Insert { t: t.clone(), cols: None, rows })?; } }
    d.verify(ctx, true)?;
    let pick = |r: &mut Rng, s: &State, t: &str, i: usize| -> V { let rows: Vec<&Row> = s[t].rows.values().collect(); if rows.is_empty() || r.chance(1, 4) { value(r, ks[i]) } else { (*r.pick(&rows))[i].clone() } };
    for _ in 0..14 {
        let t = r.pick(&names).clone();
        let i = r.us(ks.len());
        // compare with a column of any kind of the same class
        let same: Vec<usize> = (0..ks.len()).filter(|j| ks[*j].t() == ks[i].t()).collect();
        let j = *r.pick(&same);
        let two = names.len() == 2 && r.chance(1, 4);
        let w = ks.len();
        let l = |r: &mut Rng, s: &State| { let v = pick(r, s, &t, j); E::L(v) };
        let e = match r.us(5) {
            0 => { let (x, y) = (l(&mut r, &d.base), l(&mut r, &d.base)); E::Between(b(E::C(i)), b(x), b(y), r.chance(1, 3)) }
            1 => { let v = (0..1 + r.us(4)).map(|_| l(&mut r, &d.base)).collect(); E::In(b(E::C(i)), v, r.chance(1, 3)) }
            2 => bin(*r.pick(&["=", "<>", "<", "<=", ">", ">="]), E::C(i), E::C(j)),
            _ => { let x = l(&mut r, &d.base); bin(*r.pick(&["=", "=", "<>", "<", "<=", ">", ">="]), E::C(i), x) }
        };
        let mut q = Q { ctes: vec![], from: vec![Fr { j: J::Cross, src: Src::Table(t.clone()), alias: None, on: None }], wh: None, grp: None, items: vec![], star: true, distinct: false, order: vec![], limit: None, offset: None, qualify: r.bool(), tight: r.bool() };
        if two {
            let o = names.iter().find(|n| **n != t).unwrap().clone();
            q.from.push(Fr { j: *r.pick(&[J::Inner, J::Left, J::Right, J::Full]), src: Src::Table(o), alias: None, on: Some(bin(*r.pick(&["=", "=", "=", "<", ">="]), E::C(i), E::C(w + j))) });
        }
        match r.us(6) {
            0 => {}
            1 if !two => { q.star = false; q.distinct = true; q.items = vec![Item { e: E::C(i), k: ks[i], alias: None }]; }
            2 if !two => { q.star = false; q.grp = Some(Grp { by: vec![E::C(i)], aggs: vec![Agg { f: "COUNT", arg: None, distinct: false }, Agg { f: "COUNT", arg: Some(E::C(j)), distinct: true }], having: None }); q.items = (0..3).map(|x| Item { e: E::C(x), k: K::Big, alias: None }).collect(); }
            3 if !two && ks[i] != K::Bool => { q.star = false; q.grp = Some(Grp { by: vec![], aggs: vec![Agg { f: "MIN", arg: Some(E::C(i)), distinct: false }, Agg { f: "MAX", arg: Some(E::C(i)), distinct: false }], having: None }); q.items = (0..2).map(|x| Item { e: E::C(x), k: ks[i], alias: None }).collect();
                if matches!(ks[i], K::Int | K::Big | K::UInt | K::BigU) && r.bool() { for (a, f) in q.grp.as_mut().unwrap().aggs.iter_mut().zip(["SUM", "AVG"]) { a.f = f; } for x in q.items.iter_mut() { x.k = K::F64; } ctx.count("extreme_sums", 1); } }
            4 => q.order = vec![(Key::Ex(E::C(i)), r.bool()), (Key::Ex(E::C(j)), r.bool())],
            _ => q.wh = Some(e),
        }
        let Some(want) = oracle(&q, &d.base) else { continue };
        let sql = q.sql(&d.base, &[]);
        ctx.count("extreme_queries", 1);
        ask(ctx, "extreme query", &sql, &want, &mut |s| exec(d.db(), s))?;
    }
    // leaving the range of 64 bits, dividing by zero
    let nums: Vec<usize> = (0..ks.len()).filter(|i| matches!(ks[*i], K::Int | K::Big)).collect();
    if !nums.is_empty() {
        for _ in 0..4 {
            let (i, t) = (*r.pick(&nums), r.pick(&names).clone());
            let lit_ = E::L(V::Big(*r.pick(&[0, 1, -1, 2, 3, i64::MAX, i64::MIN + 1, 1 << 40])));
            let e = match r.us(5) { 0 => bin("/", lit_, E::C(i)), 1 => bin("%", E::C(i), lit_), 2 => E::Neg(b(if r.bool() { E::C(i) } else { E::Neg(b(E::C(i))) })), _ => bin(*r.pick(&["+", "-", "*"]), E::C(i), lit_) };
            // the result of two INTs has to fit an INT
            let over = d.base[&t].rows.values().any(|x| match e.eval(x) { Err(()) => true, Ok(_) => false });
            let sure = d.base[&t].rows.values().all(|x| match e.eval(x) { Ok(v) => v.as_i128().is_none_or(|v| v.abs() < 1 << 31), Err(()) => true });
            let sql = format!("SELECT {} FROM {t}", e.sql(&(0..ks.len()).map(|i| format!("c{i}")).collect::<Vec<_>>()));
            ctx.note(format!("range: {sql}"));
            match exec(d.db(), &sql) {
                Err(e) if internal(&e) => viol!("{sql}\nfails with an internal error: {e}"),
                Ok(g) if over => viol!("{sql}\nleaves the range of its type (or divides by zero) at some row but gives {g:?}"),
                Err(_) if over => ctx.count("range_errors", 1),
                Err(m) if sure => viol!("{sql}\nfails: {m}"),
                Err(_) => {}
                Ok(Got::Rows(_, rows)) => {
                    let a = Ans { width: 1, groups: vec![d.base[&t].rows.values().map(|x| vec![e.eval(x).unwrap()]).collect()], skip: 0, take: usize::MAX };
                    if let Err(m) = a.judge(&rows) { viol!("{sql}\n{m}"); }
                }
                Ok(g) => viol!("{sql} gives {g:?}"),
            }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- C06
pub static C06: Check = Check {
    id: "C06", level: "exploration",
    rule: "histories over tables with primary keys and unique indexes made before and after the data (updates of keys and other columns, deletes, rollbacks, open sessions, vacuum, reopening), then queries with points and ranges of keys and joins of up to 3 sources, each run as drawn and in forms that mean the same but plan differently (columns wrapped so that no index applies, sides swapped, conditions moved between ON, WHERE and sub-queries, sources reordered, LEFT and RIGHT exchanged, BETWEEN and IN spelled out), before and after ANALYZE with random sampling, in and outside of sessions; every form must give the answer an evaluator works out by definition. EXPLAIN tells which operators ran and that forms are planned differently. Every entry of every index is compared with the rows of its table through key lookups.",
    quick: 1800, thorough: 60_000, hang_s: 90, threads: 8, run: c06, repros: &[],
    must_see: &["queries", "forms", "forms_planned_differently", "answers_with_rows", "analyzes", "plans_with_IndexScan", "plans_with_SeqScan", "plans_with_MergeJoinInner", "plans_with_NLJoinInner", "crowds", "plans_changed_by_analyze", "rollbacks", "vacuums", "key_lookups", "session_queries"],
    assumptions: &["only unique indexes can be made"],
};
/// Joined by conditions only, so that the order of the sources means nothing.
fn inner_only(q: &Q) -> bool { q.from.len() > 1 && q.from.iter().skip(1).all(|f| matches!(f.j, J::Comma | J::Cross | J::Inner)) }
fn conj(a: Option<E>, c: Option<E>) -> Option<E> { match (a, c) { (Some(x), Some(y)) => Some(bin("AND", x, y)), (x, None) => x, (None, y) => y } }
fn each(q: &mut Q, conditions: bool, f: &mut dyn FnMut(E) -> E) {
    let mut on = |e: &mut Option<E>| if let Some(x) = e.take() { *e = Some(x.rebuild(f)); };
    on(&mut q.wh);
    for x in q.from.iter_mut() { on(&mut x.on); }
    if conditions { return; }
    if let Some(g) = q.grp.as_mut() { for a in g.aggs.iter_mut() { on(&mut a.arg); } for e in g.by.iter_mut() { let x = std::mem::replace(e, E::L(V::Null)); *e = x.rebuild(f); } }
    else {
        for i in q.items.iter_mut() { let x = std::mem::replace(&mut i.e, E::L(V::Null)); i.e = x.rebuild(f); }
        for (k, _) in q.order.iter_mut() { if let Key::Ex(e) = k { let x = std::mem::replace(e, E::L(V::Null)); *e = x.rebuild(f); } }
    }
}
fn unstar(q: &mut Q, cols: &[C]) { if q.star { q.star = false; q.items = cols.iter().enumerate().map(|(i, c)| Item { e: E::C(i), k: c.k, alias: None }).collect(); } }
/// Another query that means the same.
fn rewrite(r: &mut Rng, q: &Q, s: &State, tag: &mut usize) -> Option<(&'static str, Q)> {
    let mut n = q.clone();
    let cols = q.input(s, &[]);
    let known: Vec<(String, Vec<C>)> = q.cte_cols(s, &[]);
    Some((match r.us(12) {
        0 | 1 => {
            // no index applies to an expression
            if q.wh.is_none() && q.from.iter().all(|f| f.on.is_none()) { return None; }
            each(&mut n, true, &mut |e| match e { E::C(i) if cols[i].k.numeric() => bin("+", E::C(i), E::L(V::Big(0))), E::C(i) if cols[i].k == K::T => bin("||", E::C(i), E::L(V::T(vec![]))), e => e });
            "wrapped"
        }
        2 => { each(&mut n, true, &mut |e| match e { E::Bin(op, l, x) => { let o = match op { "=" => "=", "<>" => "<>", "<" => ">", "<=" => ">=", ">" => "<", ">=" => "<=", "AND" => "AND", "OR" => "OR", o => return E::Bin(o, l, x) }; E::Bin(o, x, l) } e => e }); "swapped" }
        3 => { n.wh = Some(E::Not(b(E::Not(b(n.wh.take()?))))); "negated_twice" }
        4 => {
            let mut hit = false;
            each(&mut n, true, &mut |e| match e {
                E::Between(x, l, h, neg) => { hit = true; let e = bin("AND", bin(">=", (*x).clone(), *l), bin("<=", *x, *h)); if neg { E::Not(b(e)) } else { e } }
                E::In(x, l, neg) => { hit = true; let e = l.into_iter().map(|v| bin("=", (*x).clone(), v)).reduce(|a, c| bin("OR", a, c)).unwrap(); if neg { E::Not(b(e)) } else { e } }
                e => e,
            });
            if !hit { return None; }
            "spelled_out"
        }
        5 => { n.wh = Some(match n.wh.take() { Some(e) => bin("AND", bin("=", E::L(V::Big(1)), E::L(V::Big(1))), e), None => bin("=", E::L(V::Big(2)), E::L(V::Big(2))) }); "with_a_constant" }
        6 if inner_only(q) => { for f in n.from.iter_mut() { n.wh = conj(n.wh.take(), f.on.take()); if f.j == J::Inner { f.j = J::Cross; } } "on_to_where" }
        7 | 8 if inner_only(q) => {
            unstar(&mut n, &cols);
            let w: Vec<usize> = q.from.iter().map(|f| q.src_cols(s, f, &known).len()).collect();
            let mut p: Vec<usize> = (0..w.len()).collect();
            r.shuffle(&mut p);
            let start = |order: &[usize], x: usize| -> usize { order.iter().take_while(|o| **o != x).map(|o| w[*o]).sum() };
            let old: Vec<usize> = (0..w.len()).collect();
            let mut to = vec![0; cols.len()];
            for x in 0..w.len() { for k in 0..w[x] { to[start(&old, x) + k] = start(&p, x) + k; } }
            for f in n.from.iter_mut() { n.wh = conj(n.wh.take(), f.on.take()); f.j = J::Cross; }
            n.from = p.iter().map(|i| n.from[*i].clone()).collect();
            each(&mut n, false, &mut |e| match e { E::C(i) => E::C(to[i]), e => e });
            // some conditions back into ON
            if let (true, Some(e)) = (r.bool(), n.wh.clone()) { let last = n.from.len() - 1; n.from[last].j = J::Inner; n.from[last].on = Some(e); n.wh = None; }
            "reordered"
        }
        9 if q.from.len() == 2 && matches!(q.from[1].j, J::Left | J::Right | J::Full) => {
            unstar(&mut n, &cols);
            let w: Vec<usize> = q.from.iter().map(|f| q.src_cols(s, f, &known).len()).collect();
            let on = n.from[1].on.take();
            let j = match q.from[1].j { J::Left => J::Right, J::Right => J::Left, o => o };
            n.from.reverse();
            n.from[0].j = J::Cross;
            n.from[1].j = j;
            n.from[1].on = on;
            each(&mut n, false, &mut |e| match e { E::C(i) => E::C(if i < w[0] { i + w[1] } else { i - w[0] }), e => e });
            "outer_turned"
        }
        10 => {
            // a table behind a sub-query
            let i = r.us(q.from.len().max(1));
            let f = n.from.get_mut(i)?;
            let Src::Table(t) = &f.src else { return None };
            let name = f.alias.clone().unwrap_or_else(|| t.clone());
            let mut inner = Q { ctes: vec![], from: vec![Fr { j: J::Cross, src: f.src.clone(), alias: None, on: None }], wh: None, grp: None, items: vec![], star: true, distinct: false, order: vec![], limit: None, offset: None, qualify: false, tight: q.tight };
            let mut label = "behind_a_subquery";
            if q.from.len() == 1 && q.ctes.is_empty() && r.chance(2, 3) { inner.wh = n.wh.take(); inner.qualify = false; label = "filtered_in_a_subquery"; }
            n.from[i].src = Src::Sub(Box::new(inner));
            n.from[i].alias = Some(name);
            label
        }
        11 if q.order.is_empty() && q.limit.is_none() && q.offset.is_none() && !q.star && q.ctes.is_empty() => {
            for it in n.items.iter_mut() { if it.alias.is_none() { *tag += 1; it.alias = Some(format!("o{tag}")); } }
            *tag += 1;
            n = Q { ctes: vec![], from: vec![Fr { j: J::Cross, src: Src::Sub(Box::new(n)), alias: Some(format!("s{tag}")), on: None }], wh: None, grp: None, items: vec![], star: true, distinct: false, order: vec![], limit: None, offset: None, qualify: false, tight: q.tight };
            "wrapped_whole"
        }
        _ => return None,
    }, n))
}
fn bare(plan: &str) -> String { plan.lines().map(|l| l.split(" (cost").next().unwrap_or("").to_string()).collect::<Vec<_>>().join("\n") }
fn plan_of(ctx: &mut Ctx, d: &Drv, sql: &str) -> Option<String> {
    let p = d.db().explain(sql).ok()?;
    for o in ops(&p) { ctx.count(&format!("plans_with_{o}"), 1); }
    Some(bare(&p))
}
fn sample_stats(ctx: &mut Ctx, d: &Drv, r: &mut Rng) -> CaseResult {
    let (rate, max) = (*r.pick(&[1.0, 1.0, 0.5, 0.1, 0.01, 0.0]), *r.pick(&[10_000, 1000, 50, 3, 1]));
    ctx.note(format!("analyze({rate}, {max})"));
    match d.db().analyze(rate, max) {
        Ok(()) => { ctx.count("analyzes", 1); Ok(()) }
        Err(e) => { let e = e.to_string(); if conflict(&e) && !d.open().is_empty() { return Ok(()); } violation(format!("analyze({rate}, {max}) fails: {e}")) }
    }
}
/// Tables that look large to the planner: analyzed while full, then mostly emptied.
fn crowd(ctx: &mut Ctx, d: &mut Drv, r: &mut Rng, p: &Prof) -> CaseResult {
    let n = 1 + r.us(3);
    for i in 0..n {
        let t = format!("t{i}");
        let k = *r.pick(&[K::Int, K::Int, K::Big, K::UInt]);
        let mut cols = vec![Col { name: "k".into(), k, notnull: false, default: None }, Col { name: "a".into(), k: K::Int, notnull: false, default: None }, Col { name: "b".into(), k: K::T, notnull: false, default: None }];
        if r.bool() { cols.push(Col { name: "c".into(), k: K::F64, notnull: false, default: None }); }
        let one = |c: &[&str], pk: bool| Uq { cols: c.iter().map(|c| c.to_string()).collect(), pk, index: None };
        let uq = match r.us(4) { 0 => vec![one(&["k"], true)], 1 => vec![one(&["k"], false)], 2 => vec![one(&["a", "k"], true), one(&["k"], false)], _ => vec![one(&["a", "k"], false)] };
        d.auto(ctx, &St::Create { t: t.clone(), cols: cols.clone(), uq, ine: false })?;
        let size = 150 + r.us(500);
        let mut keys: Vec<i64> = (0..size as i64).collect();
        if r.bool() { r.shuffle(&mut keys); }
        for part in keys.chunks(90) {
            let rows = part.iter().map(|x| { let mut v = vec![match k { K::Int => V::Int(*x as i32), K::Big => V::Big(*x), _ => V::UInt(*x as u32) }]; for c in &cols[1..] { v.push(if c.name == "a" { if r.chance(1, 12) { V::Null } else { V::Int((*x % 17) as i32) } } else { crate::model::value(r, c, false, p) }); } v }).collect();
            d.auto(ctx, &St::Insert { t: t.clone(), cols: None, rows })?;
        }
    }
    ctx.note("analyze(1.0, 10000)".to_string());
    if let Err(e) = d.db().analyze(1.0, 10_000) { return violation(format!("analyze(1.0, 10000) fails: {e}")); }
    for i in 0..n {
        let keep = 12 + r.us(20) as i64;
        let top = d.base[&format!("t{i}")].rows.len() as i64;
        let lo = r.range(0, (top - keep).max(1));
        let wher = match r.us(3) { 0 => Some(bin(">=", E::C(0), E::L(V::Big(keep)))), 1 => Some(bin("OR", bin("<", E::C(0), E::L(V::Big(lo))), bin(">", E::C(0), E::L(V::Big(lo + keep))))), _ => Some(bin("<>", bin("%", E::C(0), E::L(V::Big(29))), E::L(V::Big(3)))) };
        d.auto(ctx, &St::Delete { t: format!("t{i}"), wher })?;
    }
    if r.chance(1, 3) { d.vacuum(ctx)?; }
    ctx.count("crowds", 1);
    d.verify(ctx, true)
}
fn c06(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let mut d = Drv::new(ctx, if r.chance(1, 3) { Cfg::any(&mut r) } else { Cfg::plain() })?;
    d.ends = vec![End::Commit, End::Commit, End::Drop];
    let p = Prof { keys: 90, keydom: *r.pick(&[12, 40, 400]), nulls: *r.pick(&[3, 10, 25]), maxrows: *r.pick(&[10, 16, 40, 150]), w: [0, 5, 0, 1, 2, 36, 4, 28, 16, 3, 2, 1], ..popul(&mut r) };
    if r.chance(1, 4) { crowd(ctx, &mut d, &mut r, &p)?; } else { fill(ctx, &mut d, &mut r, &p)?; }
    let mut tag = 0;
    let ses = r.us(3);
    for _ in 0..2 + r.us(3) {
        for _ in 0..r.us(14) { d.random(ctx, &mut r, &p, ses)?; if r.chance(1, 15) { d.vacuum(ctx)?; } }
        if r.chance(1, 2) { sample_stats(ctx, &d, &mut r)?; }
        if r.chance(1, 10) { let c = d.cfg; d.reopen(ctx, c)?; }
        let open = d.open();
        let who = if !open.is_empty() && r.chance(1, 3) { Some(*r.pick(&open)) } else { None };
        let view = match who { Some(i) => d.sess[i].as_ref().unwrap().1.view.clone(), None => d.base.clone() };
        if view.is_empty() { continue; }
        for _ in 0..3 + r.us(5) {
            let o = Opt { keyed: true, sources: 6, grouped: 2, nested: false, depth: 2 };
            let q = draw_query(&mut r, &view, &[], &o, &mut tag);
            let Some(want) = oracle(&q, &view) else { continue };
            let sql = q.sql(&view, &[]);
            // the answer of a form, committed or in the session
            let mut go = |ctx: &mut Ctx, d: &mut Drv, sql: &str| -> Result<bool, Fail> {
                match who {
                    None => ask(ctx, "query", sql, &want, &mut |s| exec(d.db(), s)),
                    Some(i) => { ctx.count("session_queries", 1); let s = &mut d.sess[i].as_mut().unwrap().0; ask(ctx, &format!("session {i}"), sql, &want, &mut |x| s.execute(x).map(got).map_err(|e| e.to_string())) }
                }
            };
            if !go(ctx, &mut d, &sql)? { continue; }
            let plan = if who.is_none() { plan_of(ctx, &d, &sql) } else { None };
            for _ in 0..1 + r.us(3) {
                let Some((label, n)) = rewrite(&mut r, &q, &view, &mut tag) else { continue };
                let s2 = n.sql(&view, &[]);
                ctx.count("forms", 1);
                ctx.count(&format!("form_{label}"), 1);
                go(ctx, &mut d, &s2)?;
                if let (Some(a), true) = (&plan, r.chance(1, 2)) { if let Some(c) = plan_of(ctx, &d, &s2) { if *a != c { ctx.count("forms_planned_differently", 1); } } }
            }
            if who.is_none() && r.chance(1, 5) {
                sample_stats(ctx, &d, &mut r)?;
                go(ctx, &mut d, &sql)?;
                if let (Some(a), Some(c)) = (plan, plan_of(ctx, &d, &sql)) { if a != c { ctx.count("plans_changed_by_analyze", 1); } }
            }
        }
        if r.chance(1, 3) { d.verify(ctx, true)?; }
    }
    d.end_all(ctx, &mut r)?;
    d.verify(ctx, true)?;
    // every row by every key of its own
    for (name, t) in d.base.clone() {
        for u in &t.uq {
            let pos = t.uq_pos(u);
            for row in t.rows.values().take(40) {
                if pos.iter().any(|i| row[*i].is_null() || matches!(row[*i], V::F32(_))) { continue; }
                let w = pos.iter().map(|i| format!("{} = {}", t.cols[*i].name, lit(&row[*i]))).collect::<Vec<_>>().join(" AND ");
                let sql = format!("SELECT * FROM {name} WHERE {w}");
                let want = Ok(Ans { width: row.len(), groups: vec![vec![(**row).clone()]], skip: 0, take: usize::MAX });
                ask(ctx, "by key", &sql, &want, &mut |s| exec(d.db(), s))?;
                ctx.count("key_lookups", 1);
            }
        }
    }
    ctx.nontrivial = ctx.counters.get("forms").copied().unwrap_or(0) > 2 && ctx.counters.get("answers_with_rows").copied().unwrap_or(0) > 2;
    ctx.sample = Some(ctx.log.iter().rev().take(8).cloned().collect::<Vec<_>>().join("\n"));
    Ok(())
}
