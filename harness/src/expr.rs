//! Expressions over a row: SQL text and an independent three-valued evaluator.
use crate::rng::Rng;
use crate::val::*;
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub enum E {
    L(V), C(usize), Neg(Box<E>), Not(Box<E>), Bin(&'static str, Box<E>, Box<E>), IsNull(Box<E>, bool), Between(Box<E>, Box<E>, Box<E>, bool),
    In(Box<E>, Vec<E>, bool), Like(Box<E>, String, bool), Case(Option<Box<E>>, Vec<(E, E)>, Option<Box<E>>), F(&'static str, Vec<E>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T { Num, Text, Bool }
impl K { pub fn t(self) -> T { match self { K::Bool => T::Bool, K::T => T::Text, _ => T::Num } } }

fn dec(f: f64) -> String { let s = format!("{f}"); if s.contains('.') { s } else { s + ".0" } }
pub fn lit(v: &V) -> String {
    match v {
        V::Null => "NULL".into(), V::Bool(b) => if *b { "TRUE".into() } else { "FALSE".into() },
        V::Int(i) => if *i < 0 { format!("({i})") } else { i.to_string() }, V::Big(i) => if *i < 0 { format!("({i})") } else { i.to_string() },
        V::UInt(i) => i.to_string(), V::BigU(i) => i.to_string(),
        V::F32(f) => { let s = dec(*f as f64); if *f < 0.0 { format!("({s})") } else { s } }
        V::F64(f) => { let s = dec(*f); if *f < 0.0 { format!("({s})") } else { s } }
        V::T(t) => format!("'{}'", String::from_utf8_lossy(t).replace('\'', "''")),
    }
}
pub fn b(e: E) -> Box<E> { Box::new(e) }
pub fn bin(op: &'static str, l: E, r: E) -> E { E::Bin(op, b(l), b(r)) }

/// SQL LIKE by definition: % any string, _ any one character.
pub fn like(s: &[char], p: &[char]) -> bool {
    // ok[i]: the pattern so far matches the first i characters
    let mut ok: Vec<bool> = (0..=s.len()).map(|i| i == 0).collect();
    let mut at = 0;
    while at < p.len() {
        // a backslash makes the character after it stand for itself
        let escaped = p[at] == '\\' && at + 1 < p.len();
        if escaped { at += 1; }
        ok = match p[at] {
            '%' if !escaped => { let mut any = false; ok.iter().map(|x| { any |= *x; any }).collect() }
            c => (0..=s.len()).map(|i| i > 0 && ok[i - 1] && (!escaped && c == '_' || s[i - 1] == c)).collect(),
        };
        at += 1;
    }
    ok[s.len()]
}
/// Loose equality of results: numbers by exact value whatever their type.
pub fn eqv(a: &V, o: &V) -> bool {
    match (a, o) { (V::Null, V::Null) => true, (V::Null, _) | (_, V::Null) => false, _ => a.cmp_exact(o) == Some(Ordering::Equal) }
}
fn cmp(a: &V, o: &V, f: fn(Ordering) -> bool) -> V {
    if a.is_null() || o.is_null() { return V::Null; }
    match a.cmp_exact(o) { Some(x) => V::Bool(f(x)), None => V::Bool(false) }
}
fn not(v: V) -> V { match v { V::Bool(x) => V::Bool(!x), o => o } }
pub fn and(a: V, o: V) -> V { match (a, o) { (V::Bool(false), _) | (_, V::Bool(false)) => V::Bool(false), (V::Bool(true), V::Bool(true)) => V::Bool(true), _ => V::Null } }
pub fn or(a: V, o: V) -> V { match (a, o) { (V::Bool(true), _) | (_, V::Bool(true)) => V::Bool(true), (V::Bool(false), V::Bool(false)) => V::Bool(false), _ => V::Null } }
fn num(i: i128) -> Result<V, ()> { i64::try_from(i).map(V::Big).map_err(|_| ()) }
fn flt(v: &V) -> Result<f64, ()> { match v.as_i128() { Some(i) => Ok(i as f64), None => v.as_f64().ok_or(()) } }
pub fn arith(op: &str, a: &V, o: &V) -> Result<V, ()> {
    if a.is_null() || o.is_null() { return Ok(V::Null); }
    match (a.as_i128(), o.as_i128()) {
        (Some(x), Some(y)) => match op {
            "+" => num(x + y), "-" => num(x - y), "*" => num(x.checked_mul(y).ok_or(())?),
            "/" => if y == 0 { Err(()) } else { num(x / y) },
            _ => if y == 0 { Err(()) } else { num(x % y) },
        },
        _ => {
            let (x, y) = (flt(a)?, flt(o)?);
            let z = match op { "+" => x + y, "-" => x - y, "*" => x * y, "/" => { if y == 0.0 { return Err(()); } x / y } _ => { if y == 0.0 { return Err(()); } x % y } };
            if z.is_finite() { Ok(V::F64(z)) } else { Err(()) }
        }
    }
}
impl E {
    pub fn truth(&self, row: &[V]) -> Result<bool, ()> { match self.eval(row)? { V::Bool(x) => Ok(x), V::Null => Ok(false), _ => Err(()) } }
    pub fn eval(&self, row: &[V]) -> Result<V, ()> {
        Ok(match self {
            E::L(v) => v.clone(),
            E::C(i) => row[*i].clone(),
            E::Neg(e) => match e.eval(row)? { V::Null => V::Null, v => match v.as_i128() { Some(i) => num(-i)?, None => V::F64(-v.as_f64().ok_or(())?) } },
            E::Not(e) => not(e.eval(row)?),
            E::Bin(op, l, r) => {
                let (x, y) = (l.eval(row)?, r.eval(row)?);
                match *op {
                    "=" => cmp(&x, &y, |o| o.is_eq()), "<>" => cmp(&x, &y, |o| o.is_ne()), "<" => cmp(&x, &y, |o| o.is_lt()),
                    "<=" => cmp(&x, &y, |o| o.is_le()), ">" => cmp(&x, &y, |o| o.is_gt()), ">=" => cmp(&x, &y, |o| o.is_ge()),
                    "AND" => and(x, y), "OR" => or(x, y),
                    "||" => match (x, y) { (V::T(mut p), V::T(q)) => { p.extend(q); V::T(p) } _ => V::Null },
                    op => arith(op, &x, &y)?,
                }
            }
            E::IsNull(e, neg) => V::Bool(e.eval(row)?.is_null() != *neg),
            E::Between(e, lo, hi, neg) => {
                let (x, l, h) = (e.eval(row)?, lo.eval(row)?, hi.eval(row)?);
                let v = and(cmp(&x, &l, |o| o.is_ge()), cmp(&x, &h, |o| o.is_le()));
                if *neg { not(v) } else { v }
            }
            E::In(e, list, neg) => {
                let x = e.eval(row)?;
                let mut v = V::Bool(false);
                for i in list { v = or(v, cmp(&x, &i.eval(row)?, |o| o.is_eq())); }
                if *neg { not(v) } else { v }
            }
            E::Like(e, p, neg) => match e.eval(row)? {
                V::T(s) => { let s: Vec<char> = String::from_utf8_lossy(&s).chars().collect(); V::Bool(like(&s, &p.chars().collect::<Vec<_>>()) != *neg) }
                _ => V::Null,
            },
            E::Case(op, whens, els) => {
                let o = match op { Some(e) => Some(e.eval(row)?), None => None };
                for (w, t) in whens {
                    let hit = match &o { Some(v) => matches!(cmp(v, &w.eval(row)?, |o| o.is_eq()), V::Bool(true)), None => w.truth(row)? };
                    if hit { return t.eval(row); }
                }
                match els { Some(e) => e.eval(row)?, None => V::Null }
            }
            E::F(f, args) => {
                let a: Vec<V> = args.iter().map(|e| e.eval(row)).collect::<Result<_, _>>()?;
                match *f {
                    "COALESCE" => a.into_iter().find(|v| !v.is_null()).unwrap_or(V::Null),
                    "NULLIF" => if eqv(&a[0], &a[1]) && !a[0].is_null() { V::Null } else { a[0].clone() },
                    "ABS" => match &a[0] { V::Null => V::Null, v => match v.as_i128() { Some(i) => num(i.abs())?, None => V::F64(v.as_f64().ok_or(())?.abs()) } },
                    "CEIL" | "FLOOR" => match &a[0] { V::Null => V::Null, v => match v.as_i128() { Some(i) => num(i)?, None => { let x = v.as_f64().ok_or(())?; V::F64(if *f == "CEIL" { x.ceil() } else { x.floor() }) } } },
                    "LENGTH" => match &a[0] { V::T(t) => V::Big(String::from_utf8_lossy(t).chars().count() as i64), _ => V::Null },
                    "LOWER" => match &a[0] { V::T(t) => V::T(String::from_utf8_lossy(t).to_lowercase().into_bytes()), _ => V::Null },
                    "UPPER" => match &a[0] { V::T(t) => V::T(String::from_utf8_lossy(t).to_uppercase().into_bytes()), _ => V::Null },
                    "CONCAT" => { let mut s = Vec::new(); for v in &a { match v { V::T(t) => s.extend_from_slice(t), _ => return Ok(V::Null) } } V::T(s) }
                    _ => return Err(()),
                }
            }
        })
    }
    pub fn sql(&self, names: &[String]) -> String {
        let p = |e: &E| match e { E::L(_) | E::C(_) | E::F(..) => e.sql(names), _ => format!("({})", e.sql(names)) };
        match self {
            E::L(v) => lit(v), E::C(i) => names[*i].clone(),
            E::Neg(e) => format!("-{}", match **e { E::C(_) => e.sql(names), _ => format!("({})", e.sql(names)) }), E::Not(e) => format!("NOT {}", p(e)),
            E::Bin(op, l, r) => format!("{} {op} {}", p(l), p(r)),
            E::IsNull(e, n) => format!("{} IS {}NULL", p(e), if *n { "NOT " } else { "" }),
            E::Between(e, l, h, n) => format!("{} {}BETWEEN {} AND {}", p(e), if *n { "NOT " } else { "" }, p(l), p(h)),
            E::In(e, l, n) => format!("{} {}IN ({})", p(e), if *n { "NOT " } else { "" }, l.iter().map(|x| x.sql(names)).collect::<Vec<_>>().join(", ")),
            E::Like(e, s, n) => format!("{} {}LIKE '{}'", p(e), if *n { "NOT " } else { "" }, s.replace('\'', "''")),
            E::Case(o, w, e) => format!("CASE {}{}{}END", o.as_ref().map(|x| format!("{} ", p(x))).unwrap_or_default(),
                w.iter().map(|(c, t)| format!("WHEN {} THEN {} ", p(c), p(t))).collect::<String>(), e.as_ref().map(|x| format!("ELSE {} ", p(x))).unwrap_or_default()),
            E::F(f, a) => format!("{f}({})", a.iter().map(|x| x.sql(names)).collect::<Vec<_>>().join(", ")),
        }
    }
    /// Rebuilt from the leaves up.
    pub fn rebuild(self, f: &mut dyn FnMut(E) -> E) -> E {
        let e = match self {
            E::Neg(e) => E::Neg(b(e.rebuild(f))), E::Not(e) => E::Not(b(e.rebuild(f))), E::IsNull(e, n) => E::IsNull(b(e.rebuild(f)), n), E::Like(e, p, n) => E::Like(b(e.rebuild(f)), p, n),
            E::Bin(op, l, r) => { let l = l.rebuild(f); bin(op, l, r.rebuild(f)) }
            E::Between(x, l, h, n) => { let (x, l) = (x.rebuild(f), l.rebuild(f)); E::Between(b(x), b(l), b(h.rebuild(f)), n) }
            E::In(x, l, n) => { let x = x.rebuild(f); E::In(b(x), l.into_iter().map(|e| e.rebuild(f)).collect(), n) }
            E::Case(o, w, e) => { let o = o.map(|o| b(o.rebuild(f))); let w = w.into_iter().map(|(x, y)| { let x = x.rebuild(f); (x, y.rebuild(f)) }).collect(); E::Case(o, w, e.map(|e| b(e.rebuild(f)))) }
            E::F(n, a) => E::F(n, a.into_iter().map(|e| e.rebuild(f)).collect()),
            e => e,
        };
        f(e)
    }
    /// Whether the type of the result is plain from the types of the columns.
    fn plain(&self) -> bool {
        match self { E::L(_) | E::C(_) => true, E::Neg(e) => e.plain(), E::Bin(_, l, r) => l.plain() && r.plain(), E::F(f, _) => *f == "LENGTH", _ => false }
    }
    /// How tightly the text of `tight` holds together.
    fn level(&self) -> u8 {
        match self {
            E::L(_) | E::C(_) | E::F(..) | E::Case(..) => 10,
            E::Neg(_) => 8, E::Not(_) => 4, E::IsNull(..) | E::Between(..) | E::In(..) | E::Like(..) => 5,
            E::Bin(op, ..) => match *op { "OR" => 1, "AND" => 3, "+" | "-" | "||" => 7, "*" | "/" | "%" => 9, _ => 5 },
        }
    }
    /// SQL text with no more parentheses than the documented precedence needs.
    pub fn tight(&self, n: &[String]) -> String {
        let p = |e: &E, need: u8| if e.level() < need { format!("({})", e.tight(n)) } else { e.tight(n) };
        match self {
            E::L(_) | E::C(_) => self.sql(n),
            E::Neg(e) => format!("-{}", p(e, 9)), E::Not(e) => format!("NOT {}", p(e, 4)),
            E::Bin(op, l, r) => { let v = self.level(); let (a, c) = if v == 5 { (7, 7) } else { (v, v + 1) }; format!("{} {op} {}", p(l, a), p(r, c)) }
            E::IsNull(e, x) => format!("{} IS {}NULL", p(e, 7), if *x { "NOT " } else { "" }),
            E::Between(e, l, h, x) => format!("{} {}BETWEEN {} AND {}", p(e, 7), if *x { "NOT " } else { "" }, p(l, 7), p(h, 7)),
            E::In(e, l, x) => format!("{} {}IN ({})", p(e, 7), if *x { "NOT " } else { "" }, l.iter().map(|x| x.tight(n)).collect::<Vec<_>>().join(", ")),
            E::Like(e, s, x) => format!("{} {}LIKE '{}'", p(e, 7), if *x { "NOT " } else { "" }, s.replace('\'', "''")),
            E::Case(o, w, e) => format!("CASE {}{}{}END", o.as_ref().map(|x| format!("{} ", x.tight(n))).unwrap_or_default(),
                w.iter().map(|(c, t)| format!("WHEN {} THEN {} ", c.tight(n), t.tight(n))).collect::<String>(), e.as_ref().map(|x| format!("ELSE {} ", x.tight(n))).unwrap_or_default()),
            E::F(f, a) => format!("{f}({})", a.iter().map(|x| x.tight(n)).collect::<Vec<_>>().join(", ")),
        }
    }
    pub fn cols(&self, out: &mut Vec<usize>) {
        match self {
            E::L(_) => {} E::C(i) => out.push(*i),
            E::Neg(e) | E::Not(e) | E::IsNull(e, _) | E::Like(e, ..) => e.cols(out),
            E::Bin(_, l, r) => { l.cols(out); r.cols(out) }
            E::Between(x, y, z, _) => { x.cols(out); y.cols(out); z.cols(out) }
            E::In(e, l, _) => { e.cols(out); for x in l { x.cols(out) } }
            E::Case(o, w, e) => { if let Some(o) = o { o.cols(out) } for (x, y) in w { x.cols(out); y.cols(out) } if let Some(e) = e { e.cols(out) } }
            E::F(_, a) => for x in a { x.cols(out) },
        }
    }
    pub fn map_cols(&mut self, f: &dyn Fn(usize) -> usize) {
        match self {
            E::L(_) => {} E::C(i) => *i = f(*i),
            E::Neg(e) | E::Not(e) | E::IsNull(e, _) | E::Like(e, ..) => e.map_cols(f),
            E::Bin(_, l, r) => { l.map_cols(f); r.map_cols(f) }
            E::Between(x, y, z, _) => { x.map_cols(f); y.map_cols(f); z.map_cols(f) }
            E::In(e, l, _) => { e.map_cols(f); for x in l { x.map_cols(f) } }
            E::Case(o, w, e) => { if let Some(o) = o { o.map_cols(f) } for (x, y) in w { x.map_cols(f); y.map_cols(f) } if let Some(e) = e { e.map_cols(f) } }
            E::F(_, a) => for x in a { x.map_cols(f) },
        }
    }
}

/// Random expressions over typed columns; small numbers in steps of a quarter, so no rounding.
pub struct Gen<'a> { pub div: bool, pub cols: &'a [K], pub vals: &'a dyn Fn(&mut Rng, usize) -> V }
pub fn small_lit(r: &mut Rng, t: T) -> V {
    if r.chance(1, 14) { return V::Null; }
    match t {
        T::Num => match r.us(6) { 0 => V::F64(r.range(-12, 12) as f64 / 4.0), _ => V::Big(r.range(-4, 9)) },
        T::Text => V::T(word(r).into_bytes()),
        T::Bool => V::Bool(r.bool()),
    }
}
pub fn word(r: &mut Rng) -> String { (*r.pick(&["", "a", "ab", "abc", "b", "ba", "B", "Ab", "a b", "zz", "%", "_", "a%c", "abcabc", "é", "aéb", "€", "a😀", "'", "it's", "''a'", "\\", "a\\%", "\\_b"])).to_string() }
impl Gen<'_> {
    fn col(&self, r: &mut Rng, t: T) -> Option<E> {
        // no arithmetic on unsigned columns: going below zero is an error
        let c: Vec<usize> = (0..self.cols.len()).filter(|i| self.cols[*i].t() == t && !matches!(self.cols[*i], K::UInt | K::BigU)).collect();
        if c.is_empty() { None } else { Some(E::C(*r.pick(&c))) }
    }
    pub fn atom(&self, r: &mut Rng, t: T) -> E {
        if r.chance(2, 3) { if let Some(c) = self.col(r, t) { return c; } }
        E::L(small_lit(r, t))
    }
    pub fn num(&self, r: &mut Rng, d: usize) -> E {
        if d == 0 { return self.atom(r, T::Num); }
        match r.us(13) {
            0..=3 => self.atom(r, T::Num),
            4 | 5 => bin(*r.pick(&["+", "-"]), self.num(r, d - 1), self.num(r, d - 1)),
            6 => bin("*", self.num(r, d - 1), E::L(V::Big(r.range(-3, 3)))),
            7 if self.div => bin(*r.pick(&["/", "%"]), { let x = self.num(r, d - 1); if x.plain() { x } else { self.atom(r, T::Num) } }, E::L(V::Big(*r.pick(&[1, 2, 3, 4, -2])))),
            7 | 8 => E::Neg(b(self.num(r, d - 1))),
            9 => { let e = self.num(r, d - 1); E::F(*r.pick(&["ABS", "FLOOR", "CEIL"]), vec![e]) }
            10 => E::F("LENGTH", vec![self.text(r, d - 1)]),
            11 => if r.bool() { E::F("COALESCE", vec![self.num(r, d - 1), self.num(r, d - 1)]) } else { E::F("NULLIF", vec![self.num(r, d - 1), self.num(r, d - 1)]) },
            _ => self.case(r, d, T::Num),
        }
    }
    fn case(&self, r: &mut Rng, d: usize, t: T) -> E {
        let n = 1 + r.us(2);
        let op = if r.chance(1, 3) { Some(self.num(r, d - 1)) } else { None };
        let w = (0..n).map(|_| (if op.is_some() { self.num(r, d - 1) } else { self.boolean(r, d - 1) }, self.any(r, d - 1, t))).collect();
        let e = if r.chance(2, 3) { Some(b(self.any(r, d - 1, t))) } else { None };
        E::Case(op.map(b), w, e)
    }
    pub fn any(&self, r: &mut Rng, d: usize, t: T) -> E { match t { T::Num => self.num(r, d), T::Text => self.text(r, d), T::Bool => self.boolean(r, d) } }
    pub fn text(&self, r: &mut Rng, d: usize) -> E {
        if d == 0 { return self.atom(r, T::Text); }
        match r.us(9) {
            0..=3 => self.atom(r, T::Text),
            4 => bin("||", self.text(r, d - 1), self.text(r, d - 1)),
            5 => { let e = self.text(r, d - 1); E::F(*r.pick(&["LOWER", "UPPER"]), vec![e]) }
            6 => E::F("COALESCE", vec![self.text(r, d - 1), self.text(r, d - 1)]),
            7 => if r.bool() { E::F("CONCAT", vec![self.text(r, d - 1), self.text(r, d - 1)]) } else { E::F("NULLIF", vec![self.text(r, d - 1), self.text(r, d - 1)]) },
            _ => self.case(r, d, T::Text),
        }
    }
    fn operand(&self, r: &mut Rng, like: &E, d: usize, t: T) -> E {
        // compare columns mostly with values the column holds
        if let E::C(i) = like { if r.chance(3, 5) { return E::L((self.vals)(r, *i)); } }
        self.any(r, d, t)
    }
    pub fn boolean(&self, r: &mut Rng, d: usize) -> E {
        if d > 0 {
            match r.us(10) {
                0 | 1 => return bin("AND", self.boolean(r, d - 1), self.boolean(r, d - 1)),
                2 | 3 => return bin("OR", self.boolean(r, d - 1), self.boolean(r, d - 1)),
                4 => return E::Not(b(self.boolean(r, d - 1))),
                _ => {}
            }
        }
        let t = *r.pick(&[T::Num, T::Num, T::Num, T::Text, T::Text, T::Bool]);
        let uns: Vec<usize> = (0..self.cols.len()).filter(|i| matches!(self.cols[*i], K::UInt | K::BigU)).collect();
        let e = if t == T::Num && !uns.is_empty() && r.chance(1, 3) { E::C(*r.pick(&uns)) } else if r.chance(3, 4) { self.atom(r, t) } else { self.any(r, d.saturating_sub(1), t) };
        if t == T::Bool {
            return match r.us(4) { 0 => e, 1 => E::IsNull(b(e), r.bool()), _ => { let o = self.operand(r, &e, 0, t); bin(*r.pick(&["=", "<>"]), e, o) } };
        }
        let dd = d.saturating_sub(1);
        match r.us(if t == T::Text { 13 } else { 11 }) {
            0..=5 => { let o = self.operand(r, &e, dd, t); let (x, y) = if r.chance(1, 4) { (o, e) } else { (e, o) }; bin(*r.pick(&["=", "=", "<>", "<", "<=", ">", ">="]), x, y) }
            6 | 7 => E::IsNull(b(e), r.bool()),
            8 => { let (x, y) = (self.operand(r, &e, 0, t), self.operand(r, &e, 0, t)); E::Between(b(e), b(x), b(y), r.chance(1, 3)) }
            9 | 10 => { let n = 1 + r.us(4); let l = (0..n).map(|_| self.operand(r, &e, 0, t)).collect(); E::In(b(e), l, r.chance(1, 3)) }
            _ => { let mut p = String::new(); for _ in 0..r.us(4) { match r.us(4) { 0 | 1 => p.push('%'), 2 => p.push('_'), _ => p.push_str(&word(r)) } } E::Like(b(e), p, r.chance(1, 3)) }
        }
    }
}
