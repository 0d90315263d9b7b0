//! C16: any statement yields rows, a count or an error in bounded time, and an error changes nothing.
//! Monitors: a clock on every call, the text of the errors (a worker that died answers with a closed
//! channel), and the contents of every table, before and after every statement, through the same
//! session and from outside; the worker pool is counted by running statements side by side.
use crate::drv::*;
use crate::rng::Rng;
use crate::run::*;
use crate::val::*;
use crate::viol;
use axmosdb::Database;
use axmosdb::tcp::session::Session;
use axmosdb::verif::store::Store;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

pub static C16: Check = Check {
    id: "C16", level: "exploration",
    rule: "each case makes a small database (tables of all types with NULLs, extremes, indexes, constraints, long rows; sometimes a cache too small for the work) and sends 40-140 statements to it, as single statements, in batches and in open sessions: random characters, token soups, statements of the grammar with any expression in any place (ill typed, unknown names, division by zero, overflow, NULL arguments, wrong counts), the same after deleting, doubling, swapping and replacing tokens or cutting the text, statements that fail at a late row, nesting, long lists, oversized values. After each one, all tables are read and compared: nothing may differ unless the statement reported success as a change. Repros: every operator and function over every combination of types in every clause; every construct nested to every depth; very long statements. Non-trivial: the case had failing and succeeding statements.",
    quick: 1100, thorough: 60_000, hang_s: 90, threads: 8, run, repros: &[("operators", operators), ("functions", functions), ("clauses", clauses), ("nesting", nesting), ("long", long), ("late-failures", late_failures), ("broken-pool", broken_pool), ("prefixes", prefixes)],
    must_see: &["statements", "errors", "successes", "rows_answers", "counts", "ddl", "raw_text", "soups", "mutated", "grammar", "in_session", "batches", "late_failures", "error_in_transaction", "unchanged_after_error", "unchanged_after_rows", "tight_caches", "out_of_memory", "err_parse", "err_bind", "err_runtime", "reopens", "pool_probes"],
    assumptions: &["a statement on these small tables that takes over 20 s counts as not returning", "products of more than 100000 row combinations are not asked for"],
};
const SLOW_BASE: f64 = 20.0;
fn slow_s() -> f64 { SLOW_BASE * slack() as f64 }

type Table = Result<(Vec<String>, Vec<String>), String>;
type Dump = BTreeMap<String, Table>;

struct Fz { d: Drv, sess: Option<Session>, dump: Dump, outside: Dump, tight: bool }
fn names(db: &Database) -> Result<BTreeSet<String>, Fail> {
    let store = Store::of(db);
    let r = store.roots().or_else(|e| if oom(&e) { inconclusive(e) } else { violation(format!("the catalog cannot be read: {e}")) })?;
    Ok(r.into_iter().skip(2).map(|x| x.0).collect())
}
fn read(name: &str, mut f: impl FnMut(&str) -> Result<Got, String>) -> Table {
    let cols = match f(&format!("SELECT * FROM {name} LIMIT 0"))? { Got::Rows(c, _) => c, g => return Err(format!("SELECT gives {g:?}")) };
    match f(&format!("SELECT row_id, t.* FROM {name} AS t").replace("t.*", &cols.iter().map(|c| format!("t.{c}")).collect::<Vec<_>>().join(", ")).replace("row_id", "t.row_id"))? {
        Got::Rows(_, r) => { let mut rows: Vec<String> = r.iter().map(|r| show_row(r)).collect(); rows.sort(); Ok((cols, rows)) }
        g => Err(format!("SELECT gives {g:?}")),
    }
}
impl Fz {
    fn new(ctx: &mut Ctx, cfg: Cfg, tight: bool) -> Result<Fz, Fail> {
        let d = Drv::new(ctx, cfg)?;
        Ok(Fz { d, sess: None, dump: Dump::new(), outside: Dump::new(), tight })
    }
    fn call(&mut self, ctx: &mut Ctx, q: &str, inside: bool) -> Result<Result<Got, String>, Fail> {
        let t = Instant::now();
        let r = match &mut self.sess { Some(s) if inside => s.execute(q).map(got).map_err(|e| e.to_string()), _ => exec(self.d.db(), q) };
        let s = t.elapsed().as_secs_f64();
        ctx.max("call_ms", (s * 1000.0) as u64);
        if s > slow_s() { viol!("{}\ntook {s:.1} s", Drv::short(q)); }
        if let Err(e) = &r { if internal(e) { viol!("{}\nfails with an internal error: {e}", Drv::short(q)); } }
        Ok(r)
    }
    fn read_all(&mut self, inside: bool) -> Result<Dump, Fail> {
        let mut out = Dump::new();
        let ns = match names(self.d.db()) { Err(Fail::Inconclusive(_)) if self.tight => return Ok(out), o => o? };
        for n in ns {
            let t = match &mut self.sess { Some(s) if inside => read(&n, |q| s.execute(q).map(got).map_err(|e| e.to_string())), _ => { let db = self.d.db(); read(&n, |q| exec(db, q)) } };
            if let Err(e) = &t { if internal(e) { viol!("reading {n} fails with an internal error: {e}"); } }
            // too little memory to look: unknown
            if let Err(e) = &t { if self.tight && oom(e) { continue; } }
            out.insert(n, t.map_err(|_| "cannot be read".into()));
        }
        Ok(out)
    }
    /// Where two dumps disagree; what one of them could not read is not compared.
    fn differ(&self, a: &Dump, b: &Dump) -> Option<String> {
        for (n, x) in a {
            match b.get(n) {
                Some(y) if x == y => {}
                None if x.is_err() || self.tight => {}
                Some(y) => return Some(match (x, y) {
                    (Ok((c, r)), Ok((c2, s))) => if c != c2 { format!("{n}: columns {c:?} became {c2:?}") } else {
                        let (rs, ss): (BTreeSet<_>, BTreeSet<_>) = (r.iter().collect(), s.iter().collect());
                        format!("{n}: {} rows became {}; gone: {:?}; new: {:?}", r.len(), s.len(), rs.difference(&ss).take(3).collect::<Vec<_>>(), ss.difference(&rs).take(3).collect::<Vec<_>>())
                    },
                    (x, y) => format!("{n}: {} became {}", brief(x), brief(y)),
                }),
                None => return Some(format!("{n} is gone (was {})", brief(x))),
            }
        }
        if !self.tight { for (n, y) in b { if !a.contains_key(n) && y.is_ok() { return Some(format!("{n} appeared: {}", brief(y))); } } }
        None
    }
    fn refresh(&mut self) -> CaseResult {
        self.dump = self.read_all(true)?;
        if self.sess.is_none() { self.outside = self.dump.clone(); }
        Ok(())
    }
    /// One statement, judged. True when it succeeded.
    fn send(&mut self, ctx: &mut Ctx, q: &str) -> Result<bool, Fail> {
        let inside = self.sess.is_some();
        ctx.note(format!("{}: {}", if inside { "s0" } else { "auto" }, Drv::short(q)));
        let res = self.call(ctx, q, true)?;
        ctx.count("statements", 1);
        ctx.count("in_session", inside as u64);
        if let Err(e) = &res { if std::env::var("VH_ERRS").is_ok() { eprintln!("ERR {e} <- {}", Drv::short(q)); } }
        let after = self.read_all(true)?;
        let unchanged = match &res {
            Err(e) => { ctx.count("errors", 1); ctx.count("error_in_transaction", inside as u64); self.kind(ctx, e); true }
            Ok(Got::Rows(..)) => { ctx.count("rows_answers", 1); ctx.count("successes", 1); true }
            Ok(Got::Count(n)) => { ctx.count("counts", 1); ctx.count("successes", 1); *n == 0 }
            Ok(Got::Done) => { ctx.count("ddl", 1); ctx.count("successes", 1); false }
        };
        if unchanged {
            if let Some(m) = self.differ(&self.dump, &after) { viol!("{}\nanswers {} but changed {m}", Drv::short(q), match &res { Err(e) => format!("error {e:?}"), Ok(Got::Rows(..)) => "rows".into(), Ok(g) => format!("{g:?}") }); }
            ctx.count(if res.is_err() { "unchanged_after_error" } else { "unchanged_after_rows" }, 1);
        }
        if self.tight && unchanged { for (n, t) in after { self.dump.insert(n, t); } } else { self.dump = after; }
        if !inside { self.outside = self.dump.clone(); }
        Ok(res.is_ok())
    }
    fn kind(&self, ctx: &mut Ctx, e: &str) {
        let k = if oom(e) { "out_of_memory" } else if e.contains("parse error") { "err_parse" } else if e.contains("binder error") { "err_bind" } else if e.contains("runtime error") { "err_runtime" } else if conflict(e) { "err_conflict" } else { "err_other" };
        ctx.count(k, 1);
    }
    /// What others see has not moved while the session was open.
    fn look_outside(&mut self, what: &str) -> CaseResult {
        let now = self.read_all(false)?;
        if let Some(m) = self.differ(&self.outside, &now) { viol!("{what}: others see a change: {m}"); }
        Ok(())
    }
    fn begin(&mut self, ctx: &mut Ctx) -> CaseResult {
        if self.sess.is_some() { return Ok(()); }
        ctx.note("s0: BEGIN");
        match self.d.db().session() { Ok(s) => self.sess = Some(s), Err(e) => viol!("a session cannot begin: {e}") }
        self.refresh()
    }
    fn end(&mut self, ctx: &mut Ctx, commit: bool) -> CaseResult {
        let Some(mut s) = self.sess.take() else { return Ok(()) };
        ctx.note(format!("s0: {}", if commit { "Commit" } else { "Drop" }));
        let expect = if commit {
            match s.commit_transaction() { Ok(_) => self.dump.clone(), Err(e) => { let e = e.to_string(); if internal(&e) { viol!("commit: {e}"); } if self.tight && oom(&e) { ctx.count("out_of_memory", 1); self.outside.clone() } else { viol!("commit fails: {e}") } } }
        } else { self.outside.clone() };
        drop(s);
        let now = self.read_all(false)?;
        if let Some(m) = self.differ(&expect, &now) { viol!("after the session's {}: {m}", if commit { "commit" } else { "end without commit" }); }
        self.dump = now.clone(); self.outside = now;
        Ok(())
    }
    fn batch(&mut self, ctx: &mut Ctx, qs: &[String]) -> CaseResult {
        if self.sess.is_some() { return Ok(()); }
        ctx.note(format!("batch of {}:\n    {}", qs.len(), qs.iter().map(|q| Drv::short(q)).collect::<Vec<_>>().join("\n    ")));
        let t = Instant::now();
        let refs: Vec<&str> = qs.iter().map(|q| q.as_str()).collect();
        let r = self.d.db().execute_batch(&refs).map_err(|e| e.to_string());
        if t.elapsed().as_secs_f64() > slow_s() { viol!("a batch took {:.1} s", t.elapsed().as_secs_f64()); }
        ctx.count("batches", 1);
        let after = self.read_all(true)?;
        if let Err(e) = &r {
            if internal(e) { viol!("a batch fails with an internal error: {e}"); }
            self.kind(ctx, e);
            if let Some(m) = self.differ(&self.dump, &after) { viol!("a failed batch ({e}) changed {m}"); }
        }
        self.dump = after.clone(); self.outside = after;
        Ok(())
    }
    fn reopen(&mut self, ctx: &mut Ctx) -> CaseResult {
        self.end(ctx, true)?;
        ctx.note("close and open");
        self.d.db = None;
        let cfg = if self.tight { Cfg { cache: 4000, ..self.d.cfg } } else { self.d.cfg };
        self.tight = false;
        self.d.db = Some(Database::open(&self.d.path, cfg.db()).or_else(|e| violation(format!("reopening: {e}")))?);
        let now = self.read_all(false)?;
        // what was known before must be there
        for (n, t) in &self.outside { if t.is_ok() && now.get(n) != Some(t) { let mut one = Dump::new(); one.insert(n.clone(), t.clone()); viol!("reopening: {}", self.differ(&one, &now).unwrap_or_default()); } }
        self.dump = now.clone(); self.outside = now;
        ctx.count("reopens", 1);
        Ok(())
    }
    /// All workers still take statements: as many calls at once as there are workers, twice.
    fn pool(&mut self, ctx: &mut Ctx) -> CaseResult {
        let n = self.d.cfg.pool * 2;
        let t = Instant::now();
        let bad: Vec<String> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n).map(|i| { let db = self.d.db(); s.spawn(move || exec(db, &format!("SELECT {i} + 1"))) }).collect();
            hs.into_iter().enumerate().filter_map(|(i, h)| match h.join() { Ok(Ok(Got::Rows(_, r))) if r.len() == 1 && r[0][0].as_i128() == Some(i as i128 + 1) => None, Ok(Err(e)) if oom(&e) && self.tight => None, o => Some(format!("{o:?}")) }).collect()
        });
        if !bad.is_empty() || t.elapsed().as_secs_f64() > slow_s() { viol!("the pool of {} answers {bad:?} in {:.1} s", self.d.cfg.pool, t.elapsed().as_secs_f64()); }
        ctx.count("pool_probes", n as u64);
        Ok(())
    }
}
fn brief(t: &Table) -> String { match t { Ok((c, r)) => format!("{} columns, {} rows", c.len(), r.len()), Err(e) => format!("error {e:?}") } }

// ------------------------------------------------------------------ statements
#[derive(Clone)]
struct G { tables: Vec<(String, Vec<String>, usize)>, /** mostly well typed */ tame: bool }
impl G {
    fn of(d: &Dump) -> G { G { tables: d.iter().filter_map(|(n, t)| t.as_ref().ok().map(|(c, r)| (n.clone(), c.clone(), r.len()))).collect(), tame: false } }
    fn table(&self, r: &mut Rng) -> String { if self.tables.is_empty() || r.chance(1, 25) { (*r.pick(&["nope", "t0_idx", "axmos", "T0", "row_id", "x"])).into() } else { r.pick(&self.tables).0.clone() } }
    fn col(&self, r: &mut Rng, t: &str) -> String {
        if r.chance(1, if self.tame { 300 } else { 30 }) { return (*r.pick(&["nope", "row_id", "t0.a", "x.y", "a", "n.n.n"])).into(); }
        if self.tame { if let Some(x) = self.tables.iter().find(|x| x.0 == t) { let c: Vec<&String> = x.1.iter().filter(|c| !["c", "s", "e"].contains(&c.as_str())).collect(); if !c.is_empty() { return (*r.pick(&c)).clone(); } } }
        match self.tables.iter().find(|x| x.0 == t) { Some(x) if !x.1.is_empty() => r.pick(&x.1).clone(), _ => "a".into() }
    }
    fn lit(&self, r: &mut Rng) -> String {
        if self.tame && !r.chance(1, 12) { return match r.us(5) { 0 => "NULL".into(), 1 => format!("{}.5", r.us(5)), 2 => r.range(-5, 5).to_string(), _ => r.us(60).to_string() }; }
        match r.us(26) {
            0 => "NULL".into(), 1 => "TRUE".into(), 2 => "FALSE".into(), 3 => "0".into(), 4 => "-1".into(), 5 => "''".into(), 6 => "'a'".into(), 7 => "'A%_'".into(), 8 => "0.0".into(), 9 => "-0.0".into(),
            10 => "2147483647".into(), 11 => "-2147483648".into(), 12 => "9223372036854775807".into(), 13 => "-9223372036854775808".into(), 14 => "18446744073709551615".into(), 15 => "18446744073709551616".into(),
            16 => "99999999999999999999999999999999999999999999".into(), 17 => "1.5".into(), 18 => format!("{}.0", "9".repeat(400)), 19 => "0.00000000000000000000000000000001".into(), 20 => (*r.pick(&["'é😀'", "'a\\'", "'\\'", "'%\\'", "''''", "'a'''", "'''a'", "'_\\_%'", "'€'"])).into(), 21 => format!("'{}'", "z".repeat(r.us(3000))),
            22 => "'12'".into(), 23 => r.range(-5, 40).to_string(), 24 => format!("{}.25", r.us(9)), _ => r.us(8).to_string(),
        }
    }
    fn expr(&self, r: &mut Rng, t: &str, depth: usize) -> String {
        if depth == 0 || r.chance(1, 4) { return if r.chance(3, 5) { self.col(r, t) } else { self.lit(r) }; }
        let d = depth - 1;
        if self.tame && !r.chance(1, 10) {
            return match r.us(9) {
                0 | 1 => format!("({} {} {})", self.expr(r, t, d), r.pick(&["+", "-", "*"]), self.expr(r, t, d)), 2 => format!("COALESCE({}, {})", self.expr(r, t, d), self.lit(r)), 3 => format!("ABS({})", self.expr(r, t, d)), 4 => format!("CASE WHEN {} THEN {} ELSE {} END", self.cond(r, t, d), self.expr(r, t, d), self.lit(r)), _ => self.col(r, t),
            };
        }
        match r.us(22) {
            0..=5 => format!("{} {} {}", self.expr(r, t, d), r.pick(&["+", "-", "*", "/", "%", "||", "+", "/"]), self.expr(r, t, d)),
            6..=9 => format!("{} {} {}", self.expr(r, t, d), r.pick(&["=", "<>", "!=", "<", "<=", ">", ">="]), self.expr(r, t, d)),
            10 => format!("{} {} {}", self.expr(r, t, d), r.pick(&["AND", "OR"]), self.expr(r, t, d)),
            11 => format!("NOT {}", self.expr(r, t, d)),
            12 => format!("-{}", self.expr(r, t, d)),
            13 => format!("({})", self.expr(r, t, d)),
            14 => format!("{} IS {}NULL", self.expr(r, t, d), r.pick(&["", "NOT "])),
            15 => format!("{} {}BETWEEN {} AND {}", self.expr(r, t, d), r.pick(&["", "NOT "]), self.expr(r, t, d), self.expr(r, t, d)),
            16 => { let n = r.us(5); format!("{} {}IN ({})", self.expr(r, t, d), r.pick(&["", "NOT "]), (0..n).map(|_| self.expr(r, t, d)).collect::<Vec<_>>().join(", ")) }
            17 => format!("{} {}LIKE {}", self.expr(r, t, d), r.pick(&["", "NOT "]), self.expr(r, t, d)),
            18 => { let n = 1 + r.us(3); let w: Vec<String> = (0..n).map(|_| format!("WHEN {} THEN {}", self.expr(r, t, d), self.expr(r, t, d))).collect(); format!("CASE {}{}{} END", if r.bool() { self.expr(r, t, d) + " " } else { String::new() }, w.join(" "), if r.bool() { format!(" ELSE {}", self.expr(r, t, d)) } else { String::new() }) }
            19 | 20 => { let f = *r.pick(&FNS); let n = match r.us(6) { 0 => r.us(4), _ => if f == "COALESCE" || f == "NULLIF" || f == "CONCAT" { 2 } else { 1 } }; format!("{f}({})", (0..n).map(|_| self.expr(r, t, d)).collect::<Vec<_>>().join(", ")) }
            _ => match r.us(4) { 0 => format!("(SELECT {} FROM {})", self.expr(r, t, 0), self.table(r)), 1 => format!("EXISTS (SELECT * FROM {})", self.table(r)), 2 => format!("{} IN (SELECT {} FROM {t})", self.expr(r, t, 0), self.col(r, t)), _ => self.agg(r, t, d) },
        }
    }
    /// A condition; in tame mode one that has a truth value.
    fn cond(&self, r: &mut Rng, t: &str, d: usize) -> String {
        if !self.tame || r.chance(1, 15) { return self.expr(r, t, d); }
        match r.us(6) { 0 => format!("{} IS {}NULL", self.col(r, t), r.pick(&["", "NOT "])), 1 => format!("{} IN ({}, {})", self.col(r, t), self.lit(r), self.lit(r)), 2 if d > 0 => format!("({} {} {})", self.cond(r, t, d - 1), r.pick(&["AND", "OR"]), self.cond(r, t, d - 1)), 3 if d > 0 => format!("NOT {}", self.cond(r, t, d - 1)), _ => format!("{} {} {}", self.expr(r, t, d.min(1)), r.pick(&["=", "<>", "<", ">="]), self.lit(r)) }
    }
    fn agg(&self, r: &mut Rng, t: &str, d: usize) -> String {
        if r.chance(1, 4) { return "COUNT(*)".into(); }
        format!("{}({}{})", r.pick(&["COUNT", "SUM", "AVG", "MIN", "MAX", "TOTAL"]), r.pick(&["", "", "DISTINCT "]), self.expr(r, t, d))
    }
    fn from(&self, r: &mut Rng, depth: usize) -> (String, String) {
        let t = self.table(r);
        match r.us(10) {
            0 | 1 => {
                let u = self.table(r);
                let j = *r.pick(&["JOIN", "INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "CROSS JOIN", ",", "JOIN"]);
                let on = if j == "," || j == "CROSS JOIN" && r.chance(4, 5) { String::new() } else { format!(" ON {}", match r.us(3) { 0 => self.cond(r, &t, 2), _ => format!("p.{} = q.{}", self.col(r, &t), self.col(r, &u)) }) };
                (format!("{t} AS p {j} {u} AS q{on}"), t)
            }
            2 if depth > 0 => { let s = self.select(r, depth - 1); (format!("({s}) AS x"), t) }
            _ => (if r.chance(1, 5) { format!("{t} AS z") } else { t.clone() }, t),
        }
    }
    fn select(&self, r: &mut Rng, depth: usize) -> String {
        let (f, t) = self.from(r, depth);
        let ed = r.us(4);
        let grouped = r.chance(1, 4);
        let n = 1 + r.us(4);
        let items: Vec<String> = if r.chance(1, 3) { vec!["*".into()] } else { (0..n).map(|i| { let e = if grouped && r.bool() { self.agg(r, &t, 1) } else { self.expr(r, &t, ed) }; if r.chance(1, 4) { format!("{e} AS c{i}") } else { e } }).collect() };
        let mut q = format!("SELECT {}{}", r.pick(&["", "", "", "DISTINCT "]), items.join(", "));
        if !r.chance(1, 15) { q += &format!(" FROM {f}"); }
        if r.chance(1, 2) { q += &format!(" WHERE {}", self.cond(r, &t, ed)); }
        if grouped { let n = 1 + r.us(2); q += &format!(" GROUP BY {}", (0..n).map(|_| if r.chance(3, 4) { self.col(r, &t) } else { self.expr(r, &t, 1) }).collect::<Vec<_>>().join(", ")); }
        if grouped && r.chance(1, 3) || r.chance(1, 30) { q += &format!(" HAVING {} > {}", self.agg(r, &t, 1), self.lit(r)); }
        if r.chance(1, 3) { let n = 1 + r.us(2); q += &format!(" ORDER BY {}", (0..n).map(|_| format!("{}{}", self.expr(r, &t, 1), r.pick(&["", " ASC", " DESC"]))).collect::<Vec<_>>().join(", ")); }
        if r.chance(1, 5) { q += &format!(" LIMIT {}", r.pick(&["0", "1", "3", "18446744073709551615", "-1", "99999999999999999999", "'a'", "NULL", "1.5"])); }
        if r.chance(1, 8) { q += &format!(" OFFSET {}", r.pick(&["0", "1", "2", "100", "18446744073709551615", "-3", "x"])); }
        q
    }
    fn ty(&self, r: &mut Rng) -> &'static str { *r.pick(&["INT", "BIGINT", "UINT", "BIGUINT", "FLOAT", "DOUBLE", "TEXT", "BOOL", "INTEGER", "BLOB", "NUMERIC", "VARCHAR(10)"]) }
    fn statement(&self, r: &mut Rng) -> String {
        let t = self.table(r);
        let cols = self.tables.iter().find(|x| x.0 == t).map(|x| x.1.clone()).unwrap_or_default();
        match r.us(20) {
            0..=6 => self.select(r, 2),
            7 => { let n = 1 + r.us(2); format!("WITH {} {}", (0..n).map(|i| format!("w{i} AS ({})", self.select(r, 1))).collect::<Vec<_>>().join(", "), if r.bool() { "SELECT * FROM w0".into() } else { self.select(r, 1) }) }
            8..=10 => {
                let list = if r.chance(1, 3) { let n = 1 + r.us(cols.len().max(1) + 1); Some((0..n).map(|i| if r.chance(1, 8) || i >= cols.len() { self.col(r, &t) } else { cols[i].clone() }).collect::<Vec<_>>()) } else { None };
                let w = if r.chance(1, 10) { r.us(8) } else { list.as_ref().map(|l| l.len()).unwrap_or(cols.len()) };
                let head = format!("INSERT INTO {t}{}", list.map(|l| format!(" ({})", l.join(", "))).unwrap_or_default());
                if r.chance(1, 5) { return format!("{head} {}", self.select(r, 1)); }
                let n = 1 + r.us(4);
                let rows: Vec<String> = (0..n).map(|_| format!("({})", (0..w).map(|_| if r.chance(1, 6) { self.expr(r, &t, 2) } else { self.lit(r) }).collect::<Vec<_>>().join(", "))).collect();
                format!("{head} VALUES {}", rows.join(", "))
            }
            11..=13 => { let n = 1 + r.us(3); let sets: Vec<String> = (0..n).map(|_| { let d = r.us(4); format!("{} = {}", self.col(r, &t), self.expr(r, &t, d)) }).collect(); format!("UPDATE {t} SET {}{}", sets.join(", "), if r.chance(2, 3) { format!(" WHERE {}", self.cond(r, &t, 2)) } else { String::new() }) }
            14 => format!("DELETE FROM {t} WHERE {}", self.cond(r, &t, 3)),
            15 => {
                let n = r.us(5);
                let mut parts: Vec<String> = (0..n).map(|i| format!("{} {}{}{}", if r.chance(1, 12) { "a".to_string() } else { format!("c{i}") }, self.ty(r), r.pick(&["", "", " NOT NULL"]), if r.chance(1, 4) { format!(" DEFAULT {}", self.expr(r, &t, 1)) } else { String::new() })).collect();
                for _ in 0..r.us(3) { let c = format!("c{}", r.us(6)); parts.push(match r.us(4) { 0 => format!("PRIMARY KEY ({c})"), 1 => format!("UNIQUE ({c}, {c})"), 2 => format!("UNIQUE ({c})"), _ => format!("FOREIGN KEY ({c}) REFERENCES {t} ({})", self.col(r, &t)) }); }
                format!("CREATE TABLE {}{} ({})", r.pick(&["", "", "IF NOT EXISTS "]), if r.chance(1, 4) { t.clone() } else { format!("n{}", r.us(3)) }, parts.join(", "))
            }
            16 => format!("CREATE UNIQUE INDEX {}x{} ON {t} ({})", r.pick(&["", "", "IF NOT EXISTS "]), r.us(4), (0..1 + r.us(2)).map(|_| self.col(r, &t)).collect::<Vec<_>>().join(", ")),
            17 | 18 => {
                let c = self.col(r, &t);
                format!("ALTER TABLE {t} {}", match r.us(10) {
                    0 => format!("ADD COLUMN {c} {}", self.ty(r)), 1 => format!("ADD COLUMN z{} {}{}{}", r.us(3), self.ty(r), r.pick(&["", " NOT NULL"]), if r.bool() { format!(" DEFAULT {}", self.expr(r, &t, 1)) } else { String::new() }),
                    2 => format!("DROP COLUMN {c}"), 3 => format!("ALTER COLUMN {c} SET DEFAULT {}", self.expr(r, &t, 1)), 4 => format!("ALTER COLUMN {c} SET NOT NULL"), 5 => format!("ALTER COLUMN {c} DROP NOT NULL"), 6 => format!("ALTER COLUMN {c} DROP DEFAULT"),
                    7 => format!("MODIFY COLUMN {c} {}", self.ty(r)), 8 => format!("ADD CONSTRAINT k{} UNIQUE ({c})", r.us(3)), _ => format!("ALTER COLUMN {c} SET DATA TYPE {}", self.ty(r)),
                })
            }
            _ => match r.us(6) { 0 => format!("DROP TABLE {}n{}{}", r.pick(&["", "IF EXISTS "]), r.us(3), r.pick(&["", " CASCADE"])), 1 => format!("DROP TABLE {t}"), 2 => "BEGIN".into(), 3 => "ROLLBACK".into(), 4 => "COMMIT".into(), _ => format!("EXPLAIN {}", self.select(r, 1)) },
        }
    }
}
const FNS: [&str; 14] = ["ABS", "CAST", "CEIL", "FLOOR", "ROUND", "SQRT", "COALESCE", "NULLIF", "CONCAT", "LTRIM", "RTRIM", "LENGTH", "LOWER", "UPPER"];
const WORDS: [&str; 96] = ["SELECT", "FROM", "WHERE", "GROUP", "BY", "HAVING", "ORDER", "LIMIT", "OFFSET", "DISTINCT", "ALL", "AS", "JOIN", "INNER", "LEFT", "RIGHT", "FULL", "CROSS", "OUTER", "ON", "UNION", "WITH", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE", "CREATE", "TABLE", "UNIQUE", "INDEX", "IF", "NOT", "EXISTS", "ALTER",
    "ADD", "COLUMN", "DROP", "CONSTRAINT", "PRIMARY", "KEY", "FOREIGN", "REFERENCES", "DEFAULT", "NULL", "TRUE", "FALSE", "AND", "OR", "IS", "IN", "BETWEEN", "LIKE", "CASE", "WHEN", "THEN", "ELSE", "END", "COUNT", "SUM", "ASC", "DESC", "CASCADE", "BEGIN", "COMMIT", "ROLLBACK", "INT", "TEXT", "MODIFY",
    "(", ")", ",", ";", ".", "*", "+", "-", "/", "%", "=", "<>", "!=", "<", "<=", ">", ">=", "||", "'", "\"", "--", "/*", "*/", "@", "\\", "?"];

/// Pieces a text is made of, so that mutants stay close to the grammar.
fn tokens(q: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let cs: Vec<char> = q.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let s = i;
        let c = cs[i];
        if c == '\'' { i += 1; while i < cs.len() && cs[i] != '\'' { i += 1; } i = (i + 1).min(cs.len()); }
        else if c.is_alphanumeric() || c == '_' || c == '.' { while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_' || cs[i] == '.') { i += 1; } }
        else { i += 1; }
        let t: String = cs[s..i].iter().collect();
        if !t.trim().is_empty() { out.push(t); }
    }
    out
}
fn mutate(r: &mut Rng, g: &G, q: &str) -> String {
    let mut t = tokens(q);
    for _ in 0..1 + r.us(3) {
        if t.is_empty() { break; }
        let i = r.us(t.len());
        match r.us(9) {
            0 => { t.remove(i); }
            1 => { let x = t[i].clone(); t.insert(i, x); }
            2 => { let j = r.us(t.len()); t.swap(i, j); }
            3 => t[i] = (*r.pick(&WORDS)).into(),
            4 => { let w = (*r.pick(&WORDS)).into(); t.insert(i, w); }
            5 => t[i] = g.lit(r),
            6 => { t.truncate(i); }
            7 => { let tb = g.table(r); t[i] = if r.bool() { tb } else { g.col(r, &tb) }; }
            _ => { let j = i + r.us(t.len() - i); let part: Vec<String> = t[i..=j].to_vec(); let k = r.us(t.len()); for (n, p) in part.into_iter().enumerate() { t.insert(k + n, p); } }
        }
    }
    let mut s = t.join(" ");
    if r.chance(1, 5) { for _ in 0..1 + r.us(2) { let mut n = r.us(s.len() + 1); while !s.is_char_boundary(n) { n -= 1; } let c = odd(r); s.insert(n, c); } }
    if r.chance(1, 8) { let mut n = r.us(s.len() + 1); while !s.is_char_boundary(n) { n -= 1; } s.truncate(n); }
    s
}
/// Characters that are not what they look like: digits, letters and spaces of other scripts, controls.
fn odd(r: &mut Rng) -> char {
    *r.pick(&['²', '½', '٣', '৭', 'Ⅷ', '𝟗', '１', 'ª', 'ß', 'İ', 'ŉ', 'ﬁ', 'Ａ', '\u{a0}', '\u{2003}', '\u{2028}', '\u{3000}', '\u{feff}', '\u{200d}', '\u{301}', '\u{0}', '\u{1}', '\u{b}', '\u{c}', '\u{7f}', '\u{85}', '\u{e000}', '\u{10ffff}', '＇', '’', '＝', '−', '‐', '٫', '\'', '"', '\\', '`', '$', '#', '@', '~', '^', '&', '|', '{', '['])
}
fn raw(r: &mut Rng) -> String {
    if r.chance(1, 3) { let s = *r.pick(&["SELECT ", "SELECT * FROM t0 WHERE ", "INSERT INTO t0 VALUES (", "SELECT a FROM ", "UPDATE t0 SET ", "CREATE TABLE ", "DELETE FROM t0 WHERE a ", "SELECT 'x", "ALTER TABLE t0 ", "WITH "]); return (0..1 + r.us(12)).fold(s.to_string(), |mut s, _| { if r.bool() { s.push(odd(r)); } else { s.push_str(*r.pick(&["a", "1", " ", "'", ".", ",", "(", ")", "t0", "=", "0.", "-"])); } s }); }
    let n = r.us(60);
    match r.us(4) {
        0 => (0..n).map(|_| char::from_u32(r.below(0x250) as u32).unwrap_or('?')).collect(),
        1 => String::from_utf8_lossy(&(0..n).map(|_| r.u64() as u8).collect::<Vec<_>>()).into_owned(),
        2 => (0..n).map(|_| (0x20 + r.below(0x5f) as u8) as char).collect(),
        _ => (0..n).map(|_| *r.pick(&['\'', '(', ')', '-', '*', '\0', '\n', '.', '9', 'e', 'x', '"', ';', ' ', '\u{301}', '\u{1F600}', '|', '=', '<', '>', '!', '/'])).collect(),
    }
}
/// Combinations of rows a text may ask for.
fn product(g: &G, q: &str) -> f64 {
    let t = tokens(q);
    g.tables.iter().map(|(n, _, rows)| (*rows as f64 + 1.0).powi(t.iter().filter(|x| *x == n).count() as i32)).product()
}

fn setup(ctx: &mut Ctx, f: &mut Fz, r: &mut Rng) -> CaseResult {
    let mut qs: Vec<String> = vec![
        "CREATE TABLE t0 (a INT, b BIGINT, c TEXT, d DOUBLE, e BOOL)".into(), "CREATE TABLE t1 (k INT, u UINT, w BIGUINT, f FLOAT, s TEXT, PRIMARY KEY (k))".into(), "CREATE TABLE t2 (a INT, c TEXT NOT NULL, d DOUBLE DEFAULT 1.5, UNIQUE (a))".into(),
        "INSERT INTO t0 VALUES (0, 0, '', 0.0, TRUE), (1, 9223372036854775807, 'a', -0.0, FALSE), (-1, -9223372036854775808, 'ab%', 1.5, NULL), (2147483647, NULL, NULL, NULL, TRUE), (NULL, 5, 'zz', 99999999999999999999.0, FALSE)".into(),
        "INSERT INTO t1 VALUES (1, 0, 0, 0.5, 'x'), (2, 4294967295, 18446744073709551615, -1.0, NULL), (3, NULL, 7, NULL, 'y')".into(),
        "INSERT INTO t2 VALUES (1, 'p', 0.25), (2, 'q', NULL), (NULL, 'r', -7.5)".into(),
    ];
    if r.bool() { qs.push("CREATE UNIQUE INDEX x9 ON t0 (b)".into()); }
    if r.bool() { qs.push(format!("INSERT INTO t1 VALUES (4, 1, 1, 1.0, '{}')", "L".repeat(3000 + r.us(9000)))); }
    if r.chance(1, 3) { qs.push("CREATE TABLE t3 (a INT)".into()); }
    for q in qs {
        ctx.note(format!("auto: {}", Drv::short(&q)));
        if let Err(e) = exec(f.d.db(), &q) { if f.tight && oom(&e) { continue; } viol!("{}: {e}", Drv::short(&q)); }
    }
    if f.tight {
        let mut n = 4;
        qs_more(ctx, f, &format!("CREATE TABLE t4 (k INT, s TEXT{})", r.pick(&["", ", UNIQUE (k)"])))?;
        qs_more(ctx, f, &format!("INSERT INTO t4 VALUES {}", (0..n).map(|i| format!("({i}, '{}')", "T".repeat(500 + r.us(2500)))).collect::<Vec<_>>().join(", ")))?;
        while n < 120 { qs_more(ctx, f, &format!("INSERT INTO t4 SELECT k + {n}, s FROM t4"))?; n *= 2; }
    }
    if r.chance(1, 3) { let _ = f.d.db().analyze(1.0, 1000); }
    f.refresh()
}
fn qs_more(ctx: &mut Ctx, f: &mut Fz, q: &str) -> CaseResult {
    ctx.note(format!("auto: {}", Drv::short(q)));
    match exec(f.d.db(), q) { Err(e) if oom(&e) => ctx.count("out_of_memory", 1), Err(e) => viol!("{}: {e}", Drv::short(q)), Ok(_) => {} }
    Ok(())
}
fn run(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let tight = r.chance(1, 6);
    let cfg = if tight { Cfg { page: 4096, cache: *r.pick(&[6, 10, 16, 24, 40, 60]), pool: 1 + r.us(2), minkeys: 3, sib: 1 } } else { Cfg { cache: 1000, ..Cfg::any(&mut r) } };
    ctx.count("tight_caches", tight as u64);
    let mut f = match Fz::new(ctx, cfg, tight) { Err(Fail::Violation(m)) if tight && oom(&m) => { ctx.count("out_of_memory", 1); return Ok(()); } o => o? };
    setup(ctx, &mut f, &mut r)?;
    let n = 40 + r.us(100);
    let style = r.us(4);
    let wild = r.below(5);
    let (mut errs, mut oks) = (0, 0);
    for i in 0..n {
        if f.sess.is_none() && r.chance(1, 12) { f.begin(ctx)?; }
        if f.sess.is_some() && r.chance(1, 10) { if r.bool() { f.look_outside("in a session")?; } let c = r.bool(); f.end(ctx, c)?; }
        if f.dump.len() > 14 || f.dump.values().filter(|t| t.is_ok()).count() < 2 { break; }
        let mut g = G::of(&f.dump);
        g.tame = r.chance(wild, 4);
        let q = match r.weighted(match style { 0 => &[1, 1, 4, 10, 3, 2], 1 => &[3, 3, 10, 4, 2, 1], 2 => &[0, 1, 3, 14, 1, 2], _ => &[1, 3, 6, 6, 6, 1] }) {
            0 => { ctx.count("raw_text", 1); raw(&mut r) }
            1 => { ctx.count("soups", 1); let n = 1 + r.us(14); let tb = g.table(&mut r); (0..n).map(|_| match r.us(6) { 0 => g.lit(&mut r), 1 => g.col(&mut r, &tb), 2 => g.table(&mut r), _ => (*r.pick(&WORDS)).to_string() }).collect::<Vec<_>>().join(" ") }
            2 => { ctx.count("mutated", 1); let q = g.statement(&mut r); mutate(&mut r, &g, &q) }
            3 => { ctx.count("grammar", 1); g.statement(&mut r) }
            4 => { ctx.count("late_failures", 1); late(&mut r, &g) }
            _ => { let n = 1 + r.us(4); let qs: Vec<String> = (0..n).map(|_| g.statement(&mut r)).filter(|q| product(&g, q) < 1e5).collect(); f.batch(ctx, &qs)?; continue; }
        };
        if product(&g, &q) > 1e5 { continue; }
        if f.send(ctx, &q)? { oks += 1 } else { errs += 1 }
        if i % 37 == 36 { f.pool(ctx)?; }
    }
    f.look_outside("at the end")?;
    let c = r.bool();
    f.end(ctx, c)?;
    f.pool(ctx)?;
    f.reopen(ctx)?;
    for q in ["CREATE TABLE after_all (a INT, UNIQUE(a))", "INSERT INTO after_all VALUES (1), (2)", "DELETE FROM after_all WHERE a = 1", "INSERT INTO after_all VALUES (1)"] { if let Err(e) = exec(f.d.db(), q) { viol!("at the end, {q} fails: {e}"); } }
    match exec(f.d.db(), "SELECT a FROM after_all WHERE a = 1") { Ok(Got::Rows(_, r)) if r.len() == 1 => {} o => viol!("at the end, SELECT gives {o:?}") }
    ctx.nontrivial = errs > 0 && oks > 0;
    ctx.sample = Some(ctx.log.iter().skip(8).take(8).cloned().collect::<Vec<_>>().join("\n"));
    Ok(())
}
/// A change that fails at some row only, or on some value only.
fn late(r: &mut Rng, g: &G) -> String {
    if g.tables.is_empty() { return "SELECT 1 / 0".into(); }
    let (t, cols, _) = r.pick(&g.tables).clone();
    if cols.is_empty() { return "SELECT 1 / 0".into(); }
    let (a, b) = (r.pick(&cols).clone(), r.pick(&cols).clone());
    match r.us(9) {
        0 => format!("UPDATE {t} SET {a} = 10 / {b}"),
        1 => format!("UPDATE {t} SET {a} = {b} + 2147483647"),
        2 => format!("UPDATE {t} SET {a} = {b} * 9223372036854775807"),
        3 => format!("UPDATE {t} SET {a} = NULL, {b} = 10 % {b}"),
        4 => format!("DELETE FROM {t} WHERE 10 / {a} < 100"),
        5 => format!("INSERT INTO {t} SELECT {} FROM {t}", cols.iter().map(|c| if *c == a { format!("10 / {c}") } else { c.clone() }).collect::<Vec<_>>().join(", ")),
        6 => format!("INSERT INTO {t} VALUES {}, ({})", (0..3).map(|_| format!("({})", cols.iter().map(|_| g.lit(r)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", "), cols.iter().map(|_| "'bad'").collect::<Vec<_>>().join(", ")),
        7 if g.tables.iter().any(|t| t.0 == "t4") => (*r.pick(&["UPDATE t4 SET k = k + 1000", "UPDATE t4 SET s = s || 'x'", "DELETE FROM t4 WHERE k > 2", "INSERT INTO t4 SELECT k + 5000, s FROM t4", "UPDATE t4 SET k = 10 / (k - 63)"])).into(),
        7 => format!("UPDATE {t} SET {a} = CASE WHEN {b} = 2 THEN 1 / 0 ELSE {a} END"),
        _ => format!("UPDATE {t} SET {a} = 1"),
    }
}

// ------------------------------------------------------------------ systematic parts
fn plain(ctx: &mut Ctx) -> Result<Fz, Fail> {
    let mut f = Fz::new(ctx, Cfg { page: 4096, cache: 2000, pool: 2, minkeys: 3, sib: 2 }, false)?;
    let mut r = Rng::new(5);
    setup(ctx, &mut f, &mut r)?;
    Ok(f)
}
/// Sends many statements; the state is compared once in a while, and after every change.
fn many(ctx: &mut Ctx, f: &mut Fz, qs: impl IntoIterator<Item = String>) -> CaseResult {
    let mut trail: Vec<String> = Vec::new();
    for q in qs {
        let read = q.starts_with("SELECT") || q.starts_with("WITH");
        if !read { ctx.log.clear(); f.send(ctx, &q)?; if !f.dump.contains_key("t0") || f.dump["t0"].as_ref().map(|t| t.1.len()).unwrap_or(0) < 3 { *f = { f.d.db = None; let _ = std::fs::remove_file(&f.d.path); let _ = std::fs::remove_file(f.d.path.with_file_name("axmos.log")); plain(ctx)? }; } continue; }
        let _ = f.call(ctx, &q, true)?;
        trail.push(q);
        if trail.len() == 400 { let after = f.read_all(true)?; if let Some(m) = f.differ(&f.dump, &after) { viol!("after queries like {:?}: {m}", trail.last()); } trail.clear(); }
    }
    let after = f.read_all(true)?;
    if let Some(m) = f.differ(&f.dump, &after) { viol!("after queries like {:?}: {m}", trail.last()); }
    f.pool(ctx)
}
const TERMS: [&str; 28] = ["'\\'", "'a'''", "'€\\%'", "NULL", "TRUE", "0", "1", "-1", "2147483647", "-2147483648", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "0.0", "-0.0", "1.5", "''", "'a%'", "a", "b", "c", "d", "e", "row_id", "a / 0", "nope", "COUNT(*)", "SUM(a)"];
const BINARY: [&str; 16] = ["+", "-", "*", "/", "%", "||", "=", "<>", "<", "<=", ">", ">=", "AND", "OR", "LIKE", "NOT LIKE"];
fn operators(ctx: &mut Ctx) -> CaseResult {
    let mut f = plain(ctx)?;
    let mut qs = Vec::new();
    for x in TERMS { for y in TERMS { for op in BINARY { let e = format!("{x} {op} {y}"); qs.push(format!("SELECT {e} FROM t0")); qs.push(format!("SELECT a FROM t0 WHERE {e}")); }
        for e in [format!("{x} IN ({y}, 1, NULL)"), format!("{x} NOT IN ({y})"), format!("{x} BETWEEN {y} AND {x}"), format!("{x} NOT BETWEEN 0 AND {y}"), format!("CASE {x} WHEN {y} THEN {x} ELSE {y} END"), format!("CASE WHEN {x} THEN {y} END"), format!("-({x}) IS NULL OR NOT {y}")] { qs.push(format!("SELECT {e} AS z FROM t0")); qs.push(format!("SELECT DISTINCT a FROM t0 WHERE {e} ORDER BY {e}")); } } }
    many(ctx, &mut f, qs)
}
fn functions(ctx: &mut Ctx) -> CaseResult {
    let mut f = plain(ctx)?;
    let mut qs = Vec::new();
    for n in FNS.iter().chain(&["COUNT", "SUM", "AVG", "MIN", "MAX", "NOPE", "NOW", "RANDOM", "SUBSTRING", "TRIM"]) {
        qs.push(format!("SELECT {n}() FROM t0")); qs.push(format!("SELECT {n}(*) FROM t0"));
        for x in TERMS { for e in [format!("{n}({x})"), format!("{n}(DISTINCT {x})"), format!("{n}({n}({x}))"), format!("{n}({x}, 2)"), format!("{n}({x}, {x}, {x})"), format!("{n}({x}) + 1")] {
            qs.push(format!("SELECT {e} FROM t0")); qs.push(format!("SELECT a FROM t0 WHERE {e} > 1")); qs.push(format!("SELECT a, {e} FROM t0 GROUP BY a HAVING {e} <> 0")); qs.push(format!("SELECT {e} AS q FROM t0 GROUP BY {e} ORDER BY {e} DESC"));
        } }
    }
    many(ctx, &mut f, qs)
}
/// Every term in every place of every kind of statement.
fn clauses(ctx: &mut Ctx) -> CaseResult {
    let mut f = plain(ctx)?;
    let mut qs = Vec::new();
    for x in TERMS.iter().copied().chain(["ABS(a)", "c || 'x'", "a = 1", "(SELECT 1)", "EXISTS (SELECT 1)", "t0.a", "zz.a", "*", "CASE WHEN a = 1 THEN 'q' END", "c LIKE '%'", "99999999999999999999999", "'\u{1F600}'"]) {
        for c in ["a", "b", "c", "d", "e", "row_id"] { qs.push(format!("UPDATE t0 SET {c} = {x} WHERE a = 1")); qs.push(format!("UPDATE t0 SET {c} = {x}, a = {x} WHERE {c} = {x}")); qs.push(format!("INSERT INTO t0 ({c}) VALUES ({x})")); qs.push(format!("DELETE FROM t0 WHERE {c} = {x} AND a = 77")); qs.push(format!("SELECT a FROM t0 WHERE {c} < {x} ORDER BY {c} LIMIT 2")); qs.push(format!("INSERT INTO t0 ({c}) SELECT {x} FROM t0 WHERE a = 1")); qs.push(format!("INSERT INTO t0 ({c}, {c}) VALUES ({x}, {x})")); }
        for q in [format!("SELECT {x} FROM t0 GROUP BY {x}"), format!("SELECT * FROM t0 ORDER BY {x}"), format!("SELECT * FROM t0 LIMIT {x}"), format!("SELECT * FROM t0 LIMIT 1 OFFSET {x}"), format!("SELECT {x}"), format!("SELECT a FROM t0 GROUP BY a HAVING {x}"), format!("SELECT * FROM t0 AS p JOIN t1 AS q ON {x}"), format!("SELECT * FROM t0 AS p LEFT JOIN t1 AS q ON p.a = {x}"), format!("SELECT * FROM t0 AS p FULL JOIN t1 AS q ON q.k > {x}"), format!("WITH w AS (SELECT {x} AS v FROM t0) SELECT v FROM w WHERE v = {x}"), format!("SELECT v FROM (SELECT {x} AS v FROM t0) AS s ORDER BY v"),
            format!("CREATE TABLE tx (a INT DEFAULT {x})"), "INSERT INTO tx VALUES (1)".into(), "INSERT INTO tx (row_id) VALUES (5)".into(), "DROP TABLE tx".into(), format!("ALTER TABLE t3 ADD COLUMN zz INT DEFAULT {x}"), "ALTER TABLE t3 DROP COLUMN zz".into(), format!("ALTER TABLE t2 ALTER COLUMN d SET DEFAULT {x}"), format!("INSERT INTO t2 (a, c) VALUES ({x}, {x})"), format!("SELECT COUNT({x}), SUM({x}), MIN({x}) FROM t0 WHERE a > 100"), format!("DELETE FROM t2 WHERE {x}"), format!("UPDATE t1 SET k = {x}"), format!("UPDATE t1 SET s = {x}, f = {x}")] { qs.push(q); }
    }
    for t in ["INT", "BIGINT", "UINT", "BIGUINT", "FLOAT", "DOUBLE", "TEXT", "BOOL"] { for c in ["a", "b", "c", "d", "e", "row_id"] { qs.push(format!("ALTER TABLE t0 ALTER COLUMN {c} {t}")); qs.push(format!("ALTER TABLE t0 MODIFY COLUMN {c} SET DATA TYPE {t}")); } }
    many(ctx, &mut f, qs)
}
fn nesting(ctx: &mut Ctx) -> CaseResult {
    let mut f = plain(ctx)?;
    let mut qs = Vec::new();
    let w = |pre: &str, core: &str, post: &str, n: usize| format!("{}{core}{}", pre.repeat(n), post.repeat(n));
    for n in [1usize, 2, 3, 5, 8, 12, 16, 20, 24, 28, 32, 40, 48, 56, 64, 80, 96, 100, 110, 120, 127, 128, 129, 150, 180, 200, 240, 250, 255, 256, 257, 300, 400, 500, 512, 700, 1000, 2000, 5000, 20_000] {
        for e in [w("(", "a", ")", n), w("NOT ", "a = 1", "", n), w("- ", "a", "", n), w("ABS(", "a", ")", n), w("CASE WHEN a = 1 THEN ", "a", " END", n), w("CASE a WHEN ", "1", " THEN 1 END", n), w("COALESCE(a, ", "1", ")", n), w("a + (", "1", ")", n), w("a IN (1, ", "2", ")", n), w("a BETWEEN 0 AND ", "2", "", n), w("", "a", " + 1", n), w("", "a = 1", " OR a = 2", n), w("", "a = 1", " AND a = 2", n), w("", "c", " || 'x'", n), w("", "a", " IS NULL", n), w("", "c", " LIKE 'a'", n), w("((a = 1) AND ", "TRUE", ")", n), w("(", "a", "", n), w("", "a", ")", n), w("CASE ", "a", "", n), w("(SELECT ", "1", ")", n)] {
            qs.push(format!("SELECT {e} FROM t0")); qs.push(format!("SELECT a FROM t0 WHERE {e}"));
            if n <= 300 { qs.push(format!("SELECT a FROM t0 GROUP BY a HAVING MIN(a) = {e} ORDER BY {e}")); qs.push(format!("UPDATE t0 SET a = {e} WHERE a = 1")); qs.push(format!("INSERT INTO t0 (a) VALUES ({e})")); qs.push(format!("DELETE FROM t0 WHERE {e} AND a = 12345")); }
        }
        if n <= 300 {
            qs.push(format!("SELECT * FROM {}", (0..n).fold("t3".to_string(), |s, i| format!("(SELECT * FROM {s}) AS n{i}"))));
            qs.push(format!("SELECT a FROM {} WHERE a > 1", (0..n).fold("t0".to_string(), |s, i| format!("(SELECT a FROM {s} WHERE a = 1 ORDER BY a) AS n{i}"))));
            qs.push(format!("WITH {} SELECT * FROM w0", (0..n).map(|i| format!("w{i} AS (SELECT a FROM t0)")).collect::<Vec<_>>().join(", ")));
            qs.push(format!("WITH w0 AS (SELECT a FROM t0){} SELECT * FROM w{n}", (0..n).map(|i| format!(", w{} AS (SELECT a FROM w{i})", i + 1)).collect::<String>()));
        }
        if n <= 40 {
            qs.push(format!("SELECT COUNT(*) AS n FROM t3 AS j0{}", (1..=n).map(|i| format!(" JOIN t3 AS j{i} ON j0.a = j{i}.a")).collect::<String>()));
            qs.push(format!("SELECT COUNT(*) AS n FROM t3 AS j0{}", (1..=n).map(|i| format!(" LEFT JOIN t3 AS j{i} ON j{}.a = j{i}.a", i - 1)).collect::<String>()));
            qs.push(format!("SELECT COUNT(*) AS n FROM t3 AS j0{}", (1..=n).map(|i| format!(", t3 AS j{i}")).collect::<String>()));
        }
    }
    f.send(ctx, "DROP TABLE IF EXISTS t3")?;
    f.send(ctx, "CREATE TABLE t3 (a INT)")?;
    f.send(ctx, "INSERT INTO t3 VALUES (1)")?;
    many(ctx, &mut f, qs)
}
fn long(ctx: &mut Ctx) -> CaseResult {
    let mut f = plain(ctx)?;
    let list = |n: usize, f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(", ");
    let mut qs = vec![
        format!("SELECT a FROM t0 WHERE a IN ({})", list(20_000, &|i| i.to_string())), format!("SELECT {} FROM t0", list(3000, &|i| format!("a + {i}"))), format!("SELECT {} FROM t0", list(2000, &|i| format!("a AS c{i}"))),
        format!("SELECT a FROM t0 ORDER BY {}", list(1000, &|_| "a".into())), format!("SELECT a FROM t0 GROUP BY {}", list(1000, &|_| "a".into())), format!("SELECT COALESCE({}) FROM t0", list(5000, &|_| "NULL".into())), format!("SELECT CONCAT({}) FROM t0", list(3000, &|_| "c".into())),
        format!("SELECT CASE {} END FROM t0", (0..4000).map(|i| format!("WHEN a = {i} THEN {i} ")).collect::<String>()), format!("SELECT {}", "9".repeat(100_000)), format!("SELECT {}.{}", "9".repeat(50_000), "9".repeat(50_000)), format!("SELECT '{}'", "x".repeat(1_000_000)), format!("SELECT {} FROM t0", "a".repeat(1_000_000)), format!("SELECT a FROM {}", "t".repeat(100_000)),
        " ".repeat(1_000_000), ";".repeat(100_000), "(".repeat(100_000), "SELECT ".repeat(50_000), "'".repeat(99_999), "'".repeat(100_000), "-".repeat(100_001), "--\n".repeat(50_000), "/*".repeat(50_000), "NOT ".repeat(100_000), ",".repeat(100_000), "SELECT 1 FROM ".to_string() + &"(".repeat(50_000), "CASE ".repeat(50_000), "WITH a AS (".repeat(20_000),
        format!("SELECT a FROM t0 WHERE c LIKE '{}'", "%a".repeat(20_000)), format!("SELECT '{}' LIKE '{}b'", "a".repeat(20_000), "%a".repeat(60)), format!("SELECT '{}' LIKE '{}'", "a".repeat(3000), "_%".repeat(1500)),
        format!("INSERT INTO t0 (a) VALUES {}", list(5000, &|i| format!("({i})"))), format!("DELETE FROM t0 WHERE a > 100 OR a IN ({})", list(2000, &|i| i.to_string())), format!("INSERT INTO t0 VALUES ({})", list(3000, &|i| i.to_string())), format!("INSERT INTO t0 ({}) VALUES (1)", list(3000, &|i| format!("c{i}"))),
        format!("CREATE TABLE wide ({})", list(400, &|i| format!("c{i} INT"))), format!("INSERT INTO wide VALUES ({})", list(400, &|i| i.to_string())), "SELECT * FROM wide".into(), "UPDATE wide SET c399 = c0 + c1".into(), "ALTER TABLE wide DROP COLUMN c5".into(), "DROP TABLE wide".into(),
        format!("CREATE TABLE wider ({})", list(3000, &|i| format!("c{i} INT"))), format!("CREATE TABLE {} (a INT)", "n".repeat(5000)), format!("CREATE TABLE {} (a INT)", "m".repeat(100_000)), format!("CREATE TABLE q (a INT, {})", list(300, &|_| "UNIQUE (a)".into())), format!("CREATE TABLE q2 ({}, UNIQUE ({}))", list(40, &|i| format!("c{i} INT")), list(40, &|i| format!("c{i}"))), format!("CREATE TABLE same ({})", list(3, &|_| "a INT".into())),
        "DROP TABLE IF EXISTS q".into(), "DROP TABLE IF EXISTS q2".into(), "DROP TABLE IF EXISTS same".into(),
    ];
    for n in [1000, 4000, 8000, 16_000, 30_000, 39_000, 41_000, 60_000, 100_000, 400_000, 2_000_000] { qs.push(format!("INSERT INTO t0 (a, c) VALUES (70, '{}')", "y".repeat(n))); qs.push(format!("UPDATE t1 SET s = '{}' WHERE k = 2", "y".repeat(n))); qs.push(format!("UPDATE t1 SET s = s || '{}' WHERE k < 3", "w".repeat(n))); qs.push(format!("SELECT LENGTH(c || '{}') FROM t0", "y".repeat(n))); }
    qs.push("DELETE FROM t0 WHERE a = 70".into());
    // two hundred and more versions of a row, in one transaction and in many
    for i in 0..300 { qs.push(format!("UPDATE t1 SET u = {i} WHERE k = 1")); }
    many(ctx, &mut f, qs)?;
    f.begin(ctx)?;
    for i in 0..300 { f.send(ctx, &format!("UPDATE t1 SET u = {}, w = {i} WHERE k = 3", 4_294_966_999u64 + i))?; }
    for _ in 0..10 { f.send(ctx, "UPDATE t1 SET s = 'q' || s WHERE k = 1")?; f.send(ctx, "UPDATE t1 SET k = 1")?; }
    f.end(ctx, true)?;
    f.reopen(ctx)
}
/// Statements that fail at a late row, alone and in transactions whose earlier changes must stay.
fn late_failures(ctx: &mut Ctx) -> CaseResult {
    let mut f = Fz::new(ctx, Cfg { page: 4096, cache: 1000, pool: 1, minkeys: 3, sib: 2 }, false)?;
    for q in ["CREATE TABLE t (k INT, v INT, w BIGINT, s TEXT NOT NULL, PRIMARY KEY (k), UNIQUE (v))", "CREATE TABLE u (k INT, v INT)"] { f.send(ctx, q)?; }
    let row = |i: i64| format!("({i}, {}, {}, '{}')", i * 2, i - 20, if i % 5 == 0 { "L".repeat(1500) } else { format!("s{i}") });
    f.send(ctx, &format!("INSERT INTO t VALUES {}", (1..=40).map(row).collect::<Vec<_>>().join(", ")))?;
    f.send(ctx, &format!("INSERT INTO u VALUES {}", (1..=30).map(|i| format!("({}, {i})", i % 7)).collect::<Vec<_>>().join(", ")))?;
    let bad = [
        "INSERT INTO t VALUES (100, 300, 1, 'a'), (101, 301, 1, 'b'), (1, 302, 1, 'c')", "INSERT INTO t VALUES (100, 300, 1, 'a'), (101, 300, 1, 'b')", "INSERT INTO t VALUES (100, 300, 1, 'a'), (101, 301, 1, NULL)", "INSERT INTO t VALUES (100, 300, 1, 'a'), (101, 301, 'x', 'b')", "INSERT INTO t SELECT k + 100, v + 1000, w, CASE WHEN k = 39 THEN NULL ELSE s END FROM t", "INSERT INTO t SELECT k + 20, v + 1000, w, s FROM t",
        "INSERT INTO t SELECT k + 100, v + 1000, 10 / (k - 33), s FROM t", "UPDATE t SET w = 10 / (k - 30)", "UPDATE t SET w = 10 / w", "UPDATE t SET s = NULL WHERE k > 10", "UPDATE t SET v = 7", "UPDATE t SET v = v + 2 WHERE k < 40", "UPDATE t SET v = CASE WHEN k = 38 THEN 3 ELSE v + 1 END", "UPDATE t SET v = k + 2147483615", "UPDATE t SET w = w * 9223372036854775807", "UPDATE t SET v = s", "DELETE FROM t WHERE 10 / (k - 35) < 100", "DELETE FROM t WHERE k > 20 OR w / (k - k) = 0",
        "ALTER TABLE t ALTER COLUMN s INT", "ALTER TABLE u ADD CONSTRAINT x UNIQUE (k)", "CREATE UNIQUE INDEX x ON u (k)", "ALTER TABLE t ALTER COLUMN w UINT", "CREATE TABLE t (a INT)", "SELECT 10 / (k - 40) FROM t", "SELECT k FROM t ORDER BY 10 / (k - 40)", "SELECT SUM(10 / (k - 40)) FROM t", "SELECT k FROM t GROUP BY k HAVING 10 / (k - 40) > 0", "SELECT * FROM t AS a JOIN u AS b ON a.k / b.k = 1",
    ];
    for (n, place) in [0, 1, 2, 3].into_iter().enumerate() {
        if place == 1 { f.begin(ctx)?; }
        if place == 2 { f.begin(ctx)?; f.send(ctx, "UPDATE t SET w = w + 100 WHERE k > 5")?; f.send(ctx, "INSERT INTO t VALUES (200, 500, 0, 'mine')")?; f.send(ctx, "DELETE FROM t WHERE k = 3")?; f.send(ctx, "UPDATE u SET v = v + 1")?; }
        if place == 3 { f.begin(ctx)?; f.send(ctx, "ALTER TABLE t ADD COLUMN z INT DEFAULT 4")?; f.send(ctx, "UPDATE t SET z = k")?; }
        for q in bad {
            let q = if place == 3 && q.starts_with("INSERT INTO t ") && !q.contains("(k,") { q.replacen("INSERT INTO t ", "INSERT INTO t (k, v, w, s) ", 1) } else { q.to_string() };
            if f.send(ctx, &q)? && !q.starts_with("SELECT k FROM t GROUP") { viol!("{q} succeeds"); }
            ctx.count("late_failures", 1);
        }
        if place > 0 { f.look_outside("before the end")?; f.end(ctx, n != 3)?; }
        f.pool(ctx)?;
    }
    f.reopen(ctx)
}
/// More failing statements than there are workers, from several threads; the pool must stay whole.
fn broken_pool(ctx: &mut Ctx) -> CaseResult {
    for pool in [1, 2, 4] {
        let mut f = Fz::new(ctx, Cfg { page: 4096, cache: 1000, pool, minkeys: 3, sib: 2 }, false)?;
        let mut r = Rng::new(8);
        setup(ctx, &mut f, &mut r)?;
        let g = G::of(&f.dump);
        let bad: Vec<String> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..6).map(|i| { let db = f.d.db(); let g = g.clone(); s.spawn(move || {
                let mut r = Rng::new(100 + i);
                let mut bad = Vec::new();
                for _ in 0..150 {
                    let q = match r.us(4) { 0 => raw(&mut r), 1 => g.select(&mut r, 1), 2 => { let q = g.select(&mut r, 1); mutate(&mut r, &g, &q) } _ => "SELECT 1 / 0".into() };
                    if product(&g, &q) > 1e5 || ["INSERT", "UPDATE", "DELETE", "CREATE", "ALTER", "DROP"].iter().any(|w| q.to_uppercase().contains(w)) { continue; }
                    let t = Instant::now();
                    if let Err(e) = exec(db, &q) { if internal(&e) { bad.push(format!("{q}: {e}")); } }
                    if t.elapsed().as_secs_f64() > slow_s() { bad.push(format!("{q} took {:.1} s", t.elapsed().as_secs_f64())); }
                }
                bad
            }) }).collect();
            hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec!["a client panicked".into()])).collect()
        });
        if let Some(b) = bad.first() { viol!("{b}"); }
        let after = f.read_all(true)?;
        if let Some(m) = f.differ(&f.dump, &after) { viol!("after queries by many threads: {m}"); }
        f.pool(ctx)?;
        f.d.db = None;
        let _ = std::fs::remove_file(&f.d.path);
    }
    Ok(())
}
/// Every beginning of a few statements, and every one with a piece left out.
fn prefixes(ctx: &mut Ctx) -> CaseResult {
    let mut f = plain(ctx)?;
    let full = ["SELECT DISTINCT a, COUNT(*) AS n, CASE WHEN b = 1 THEN 'x' ELSE c END FROM t0 AS p LEFT JOIN t1 AS q ON p.a = q.k WHERE a BETWEEN 1 AND 2 OR c LIKE 'a%' AND NOT b IS NULL GROUP BY a, c HAVING COUNT(*) > 1 ORDER BY a DESC, c LIMIT 3 OFFSET 1",
        "WITH w AS (SELECT a, b FROM t0 WHERE a IN (1, 2, -3)), v AS (SELECT * FROM w) SELECT COALESCE(a, b) FROM v, t2 WHERE v.a <> 4", "INSERT INTO t0 (a, b, c) VALUES (1 + 2, NULL, 'x'), (-4, 5, UPPER('y'))", "INSERT INTO t0 (a) SELECT k FROM t1 WHERE k > 100", "UPDATE t0 SET a = a + 1, c = CASE a WHEN 1 THEN 'p' END WHERE a = 99 OR b < -5.5",
        "DELETE FROM t0 WHERE a = 98 AND (b = 2 OR c = 'it''s')", "CREATE TABLE IF NOT EXISTS nn (a INT NOT NULL, b TEXT DEFAULT 'd', PRIMARY KEY (a), UNIQUE (a, b), FOREIGN KEY (a) REFERENCES t1 (k))", "DROP TABLE IF EXISTS nn CASCADE", "CREATE UNIQUE INDEX IF NOT EXISTS xx ON t0 (a, b)", "ALTER TABLE t2 ADD COLUMN zz DOUBLE NOT NULL DEFAULT -1.5", "ALTER TABLE t2 ALTER COLUMN d SET DEFAULT 7", "ALTER TABLE t2 ADD CONSTRAINT cc UNIQUE (c)", "ALTER TABLE t2 DROP COLUMN zz"];
    for q in full {
        let ends: Vec<usize> = (0..=q.len()).filter(|i| q.is_char_boundary(*i)).collect();
        for e in ends.iter().rev().skip(1) { many(ctx, &mut f, [q[..*e].to_string()])?; }
        let t = tokens(q);
        for i in 0..t.len() { let mut u = t.clone(); u.remove(i); many(ctx, &mut f, [u.join(" ")])?; let mut u = t.clone(); u[i] = "SELECT".into(); many(ctx, &mut f, [u.join(" ")])?; let mut u = t.clone(); u.insert(i, ")".into()); many(ctx, &mut f, [u.join(" ")])?; }
    }
    Ok(())
}
