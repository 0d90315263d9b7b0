//! Drives a real database beside the model and compares them.
use crate::expr::*;
use crate::model::*;
use crate::rng::Rng;
use crate::run::*;
use crate::val::*;
use crate::viol;
use axmosdb::runtime::QueryResult;
use axmosdb::tcp::session::Session;
use axmosdb::verif::store::Store;
use axmosdb::{DBConfig, Database};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;
use std::sync::Arc;

#[derive(Clone, Copy, Debug)]
pub struct Cfg { pub page: usize, pub cache: usize, pub pool: usize, pub minkeys: usize, pub sib: usize }
impl Cfg {
    pub fn db(&self) -> DBConfig { DBConfig::new(self.page, self.cache, self.pool, self.minkeys, self.sib) }
    pub fn plain() -> Cfg { Cfg { page: 4096, cache: 2000, pool: 2, minkeys: 3, sib: 2 } }
    pub fn any(r: &mut Rng) -> Cfg {
        Cfg { page: *r.pick(&[4096, 4096, 8192, 16384, 32768]), cache: *r.pick(&[300, 500, 1000, 4000, 10000]), pool: 1 + r.us(4), minkeys: *r.pick(&[3, 3, 4, 6]), sib: 1 + r.us(4) }
    }
}

/// What a statement gave, in the harness's values.
#[derive(Clone, Debug)]
pub enum Got { Rows(Vec<String>, Vec<Vec<V>>), Count(u64), Done }
pub fn got(q: QueryResult) -> Got {
    match q {
        QueryResult::Rows(r) => { let rows = r.iterrows().map(|row| row.iter().map(V::of).collect()).collect(); Got::Rows((0..r.num_columns()).map(|i| r.column(i).unwrap_or("?").to_string()).collect(), rows) }
        QueryResult::RowsAffected(n) => Got::Count(n),
        QueryResult::Ddl(_) => Got::Done,
    }
}
pub fn exec(db: &Database, sql: &str) -> Result<Got, String> { db.execute(sql).map(got).map_err(|e| e.to_string()) }
pub fn internal(e: &str) -> bool { let l = e.to_lowercase(); l.contains("channel closed") || l.contains("poison") || l.contains("panic") || l.contains("corrupt") }
pub fn oom(e: &str) -> bool { e.contains("out of memory") }
/// The image of a row (with its older versions) has to fit in one record of the log.
pub fn too_big(e: &str) -> bool { e.contains("do not fit in a record of the log") }
pub fn conflict(e: &str) -> bool { e.to_lowercase().contains("conflict") }
pub fn unique(e: &str) -> bool { e.to_lowercase().contains("unique") || e.to_lowercase().contains("primary key") || e.to_lowercase().contains("duplicate") }

pub struct Txn { pub view: State, pub begin: State, pub seq: u64, pub tabs: BTreeSet<String>, pub ddl: BTreeSet<String>, pub soft: BTreeSet<String>, pub writes: BTreeMap<u64, String>, pub updated: bool, pub reads: u64 }
struct Commit { seq: u64, tabs: BTreeSet<String>, net: BTreeSet<String>, ddl: BTreeSet<String>, soft: BTreeSet<String>, writes: BTreeSet<u64> }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End { Commit, Abort, Drop }

pub struct Mark { pub start: usize, pub end: usize, pub state: State }

pub struct Drv {
    pub path: PathBuf,
    pub cfg: Cfg,
    pub db: Option<Database>,
    pub base: State,
    pub ids: u64,
    pub names: u64,
    seq: u64,
    commits: Vec<Commit>,
    pub sess: Vec<Option<(Session, Txn)>>,
    /// accept "out of memory" answers (tiny caches)
    pub allow_oom: bool,
    pub clock: Option<fn() -> usize>,
    pub marks: Vec<Mark>,
    /// how sessions end in `random`
    pub ends: Vec<End>,
    pub batches: u64,
    lives: usize,
}

pub fn sorted(mut v: Vec<Vec<V>>) -> Vec<Vec<V>> { v.sort_by_cached_key(|r| r.iter().map(|x| match x { V::T(t) => format!("T{}", String::from_utf8_lossy(t)), o => o.show() }).collect::<Vec<_>>()); v }
pub fn same_rows(a: Vec<Vec<V>>, b: Vec<Vec<V>>) -> Result<(), String> {
    let (a, b) = (sorted(a), sorted(b));
    if a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| same_row(x, y)) { return Ok(()); }
    let key = |r: &Vec<V>| show_row(r);
    let mut m: HashMap<String, i64> = HashMap::new();
    for r in &a { *m.entry(key(r)).or_insert(0) += 1; }
    for r in &b { *m.entry(key(r)).or_insert(0) -= 1; }
    let extra: Vec<String> = m.iter().filter(|(_, n)| **n > 0).map(|(k, n)| format!("{k}x{n}")).take(6).collect();
    let missing: Vec<String> = m.iter().filter(|(_, n)| **n < 0).map(|(k, n)| format!("{k}x{}", -n)).take(6).collect();
    Err(format!("{} rows where {} are due; extra: {}; missing: {}", a.len(), b.len(), extra.join(" "), missing.join(" ")))
}

/// Whether this case is one about size.
pub fn big(r: &mut Rng, one_in: u64) -> bool { r.chance(1, one_in) || std::env::var_os("VH_BIG").is_some() }
impl Drv {
    pub fn new(ctx: &mut Ctx, cfg: Cfg) -> Result<Drv, Fail> { { let p = ctx.dir().join("x.db"); Self::at(ctx, p, cfg) } }
    pub fn at(ctx: &mut Ctx, path: PathBuf, cfg: Cfg) -> Result<Drv, Fail> {
        ctx.note(format!("config {cfg:?}"));
        let db = Database::create(&path, cfg.db()).or_else(|e| violation(format!("create with {cfg:?}: {e}")))?;
        Ok(Drv { path, cfg, db: Some(db), base: State::new(), ids: 0, names: 0, seq: 0, commits: Vec::new(), sess: Vec::new(), allow_oom: false, clock: None, marks: Vec::new(), ends: vec![End::Commit, End::Commit, End::Drop, End::Abort], batches: 8, lives: 0 })
    }
    /// Goes on with a database that is already there, known to hold `base`; counters go on from those of `d`.
    pub fn adopt(path: PathBuf, cfg: Cfg, db: Database, base: State, d: &Drv) -> Drv {
        Drv { path, cfg, db: Some(db), base, ids: d.ids, names: d.names, seq: 0, commits: Vec::new(), sess: Vec::new(), allow_oom: d.allow_oom, clock: None, marks: Vec::new(), ends: d.ends.clone(), batches: d.batches, lives: 0 }
    }
    pub fn db(&self) -> &Database { self.db.as_ref().unwrap() }
    fn now(&self) -> usize { self.clock.map(|f| f()).unwrap_or(0) }
    fn mark(&mut self, start: usize) { if self.clock.is_some() { let end = self.now(); self.marks.push(Mark { start, end, state: self.base.clone() }); } }

    /// The rows a statement wrote, by comparing states.
    fn diff(a: &State, b: &State) -> (BTreeSet<String>, BTreeMap<u64, String>) {
        let (mut tabs, mut writes) = (BTreeSet::new(), BTreeMap::new());
        for (n, t) in b { match a.get(n) { Some(o) if Arc::ptr_eq(o, t) => {} Some(o) => {
                tabs.insert(n.clone());
                for (id, r) in &o.rows { match t.rows.get(id) { Some(x) if Arc::ptr_eq(x, r) => {} _ => { writes.insert(*id, n.clone()); } } }
            } None => { tabs.insert(n.clone()); } } }
        for n in a.keys() { if !b.contains_key(n) { tabs.insert(n.clone()); } }
        (tabs, writes)
    }
    fn net(a: &State, b: &State, tabs: &BTreeSet<String>) -> BTreeSet<String> {
        tabs.iter().filter(|n| match (a.get(*n), b.get(*n)) { (Some(a), Some(b)) => a.uid != b.uid || a.rows.len() != b.rows.len() || a.rows.iter().zip(&b.rows).any(|(x, y)| x.0 != y.0 || !Arc::ptr_eq(x.1, y.1)), _ => true }).cloned().collect()
    }
    /// Whether another transaction overlapping the one that began at `seq` touched what the statement touches.
    fn overlaps(&self, me: Option<usize>, seq: u64, st: &St) -> bool {
        let mut names: Vec<&str> = st.table().into_iter().collect();
        if let St::InsertSelect { from, .. } = st { names.push(from); }
        let ix = if let St::Index { name, .. } = st { Some(name.clone()) } else { None };
        let hit = |tabs: &BTreeSet<String>| names.iter().any(|n| tabs.contains(*n)) || ix.as_ref().is_some_and(|n| tabs.contains(n));
        self.commits.iter().any(|c| c.seq > seq && (hit(&c.tabs) || hit(&c.ddl) || hit(&c.soft))) || self.sess.iter().enumerate().any(|(i, s)| Some(i) != me && s.as_ref().is_some_and(|(_, t)| hit(&t.tabs) || hit(&t.ddl) || hit(&t.soft)))
    }
    fn judge(&self, ctx: &mut Ctx, who: &str, sql: &str, view: &State, want: &Result<Out, Rej>, res: &Result<Got, String>, may: bool, st: &St) -> Result<bool, Fail> {
        if let Err(e) = res { if internal(e) { viol!("{who}: {sql}\nfails with an internal error: {e}"); } }
        match (want, res) {
            (Ok(_), Err(e)) if self.allow_oom && oom(e) => { ctx.count("out_of_memory", 1); Ok(false) }
            (Ok(_), Err(e)) if too_big(e) && st.table().is_some_and(|t| Self::wide(view, t) || Self::wide_values(st)) => { ctx.count("rows_too_big", 1); Ok(false) }
            (Ok(_), Err(e)) if may && !st.is_read() && (conflict(e) || unique(e)) => { ctx.count("conflicts", 1); Ok(false) }
            (Ok(w), Err(e)) => viol!("{who}: {sql}\nfails with {e:?} but should give {}", match w { Out::Rows(r) => format!("{} rows", r.len()), Out::Count(n) => format!("{n} affected"), Out::Done => "success".into() }),
            (Err(r), Ok(_)) => viol!("{who}: {sql}\nsucceeds but must be refused ({r:?})"),
            (Err(r), Err(_)) => { ctx.count(&format!("refused_{r:?}"), 1); Ok(false) }
            (Ok(w), Ok(g)) => {
                match (w, g) {
                    (Out::Rows(w), Got::Rows(names, rows)) => {
                        if let St::Select { t, .. } = st { let n = view[t].names(); if *names != n { viol!("{who}: {sql}\ncolumns are {names:?}, should be {n:?}"); } }
                        if let Err(m) = same_rows(rows.clone(), w.iter().map(|r| (**r).clone()).collect()) { viol!("{who}: {sql}\n{m}"); }
                        ctx.count("rows_compared", rows.len() as u64);
                    }
                    (Out::Count(a), Got::Count(b)) => { if a != b { viol!("{who}: {sql}\nreports {b} affected rows, should be {a}"); } ctx.count("rows_written", *a); }
                    (Out::Done, Got::Done) => ctx.count("ddl", 1),
                    (w, g) => viol!("{who}: {sql}\ngives {} instead of {w:?}", match g { Got::Rows(..) => "rows".into(), o => format!("{o:?}") }),
                }
                Ok(true)
            }
        }
    }
    fn wide(s: &State, t: &str) -> bool { s.get(t).is_some_and(|t| t.rows.values().any(|r| r.iter().any(|v| matches!(v, V::T(x) if x.len() > 1500)))) }
    fn wide_values(st: &St) -> bool { match st { St::Insert { rows, .. } => rows.iter().any(|r| r.iter().any(|v| matches!(v, V::T(x) if x.len() > 1500))), _ => true } }
    pub fn short(sql: &str) -> String { if sql.len() > 20_000 { let mut i = 300; while !sql.is_char_boundary(i) { i -= 1; } format!("{}… [{} bytes]", &sql[..i], sql.len()) } else { sql.to_string() } }

    /// One statement in its own transaction. True when it took effect.
    pub fn auto(&mut self, ctx: &mut Ctx, st: &St) -> Result<bool, Fail> { self.batch(ctx, std::slice::from_ref(st), false) }
    /// Several statements, all or nothing.
    pub fn batch(&mut self, ctx: &mut Ctx, sts: &[St], as_batch: bool) -> Result<bool, Fail> {
        let mut view = self.base.clone();
        let mut sqls = Vec::new();
        let mut want = Vec::new();
        let mut views = Vec::new();
        let mut may = false;
        let mut failed = false;
        let (mut ddl, mut soft) = (BTreeSet::new(), BTreeSet::new());
        for st in sts {
            sqls.push(st.sql(&view));
            if failed { continue; }
            views.push(view.clone());
            let r = st.apply(&mut view, &mut self.ids);
            if st.is_ddl() {
                let n = st.table().unwrap().to_string();
                let same = match (views.last().unwrap().get(&n), view.get(&n)) { (Some(a), Some(b)) => Arc::ptr_eq(a, b), (None, None) => true, _ => false };
                if same { soft.insert(n); } else { ddl.insert(n); }
                if let St::Index { name, .. } = st { soft.insert(name.clone()); }
            }
            failed = r.is_err();
            may |= self.overlaps(None, self.seq, st);
            want.push(r);
        }
        let start = self.now();
        if !as_batch {
            ctx.note(format!("auto: {}", Self::short(&sqls[0])));
            let res = exec(self.db(), &sqls[0]);
            if let Err(e) = &res { ctx.log.push(format!("   -> {}", e.chars().take(160).collect::<String>())); }
            ctx.count("statements", 1);
            if !self.judge(ctx, "auto", &sqls[0], &views[0], &want[0], &res, may, &sts[0])? { return Ok(false); }
        } else {
            ctx.note(format!("batch of {}:\n    {}", sqls.len(), sqls.iter().map(|s| Self::short(s)).collect::<Vec<_>>().join("\n    ")));
            let refs: Vec<&str> = sqls.iter().map(|s| s.as_str()).collect();
            let res = self.db().execute_batch(&refs).map_err(|e| e.to_string());
            ctx.count("batches", 1);
            match res {
                Err(e) => {
                    ctx.log.push(format!("   -> {}", e.chars().take(160).collect::<String>()));
                    if internal(&e) { viol!("the batch fails with an internal error: {e}"); }
                    if !failed && !too_big(&e) && !(may && (conflict(&e) || unique(&e))) && !(self.allow_oom && oom(&e)) { viol!("the batch fails with {e:?} but each statement should succeed"); }
                    ctx.count("failed_batches", 1);
                    return Ok(false);
                }
                Ok(rs) => {
                    if failed { viol!("the batch succeeds although its statement {} must be refused ({:?})", want.len() - 1, want.last().unwrap()); }
                    if rs.len() != sts.len() { viol!("a batch of {} statements gives {} results", sts.len(), rs.len()); }
                    for (i, r) in rs.into_iter().enumerate() { let g = Ok(got(r)); self.judge(ctx, &format!("batch statement {i}"), &sqls[i], &views[i], &want[i], &g, false, &sts[i])?; }
                }
            }
        }
        let begin = self.base.clone();
        let (tabs, writes) = Self::diff(&begin, &view);
        // a row someone else holds uncommitted must not be overwritten
        for s in self.sess.iter().flatten() { if let Some((id, n)) = s.1.writes.iter().find(|(id, _)| writes.contains_key(id)) { viol!("a row of {n} (model id {id}: {}) is changed although an open transaction has changed it", begin[n].rows.get(id).map(|r| show_row(r)).unwrap_or_default()); } }
        self.base = view;
        self.seq += 1;
        if !tabs.is_empty() || !ddl.is_empty() || !soft.is_empty() { self.commits.push(Commit { seq: self.seq, net: Self::net(&begin, &self.base, &tabs), tabs, ddl, soft, writes: writes.into_keys().collect() }); ctx.count("commits", 1); self.mark(start); }
        self.prune();
        Ok(true)
    }
    fn prune(&mut self) { let min = self.sess.iter().flatten().map(|s| s.1.seq).min().unwrap_or(self.seq); self.commits.retain(|c| c.seq > min); }
    pub fn begin(&mut self, ctx: &mut Ctx) -> Result<usize, Fail> {
        let i = self.sess.iter().position(|s| s.is_none()).unwrap_or_else(|| { self.sess.push(None); self.sess.len() - 1 });
        ctx.note(format!("s{i}: BEGIN"));
        let s = self.db().session().or_else(|e| violation(format!("session: {e}")))?;
        self.sess[i] = Some((s, Txn { view: self.base.clone(), begin: self.base.clone(), seq: self.seq, tabs: BTreeSet::new(), ddl: BTreeSet::new(), soft: BTreeSet::new(), writes: BTreeMap::new(), updated: false, reads: 0 }));
        ctx.count("sessions", 1);
        Ok(i)
    }
    pub fn open(&self) -> Vec<usize> { self.sess.iter().enumerate().filter(|(_, s)| s.is_some()).map(|(i, _)| i).collect() }
    pub fn step(&mut self, ctx: &mut Ctx, i: usize, st: &St) -> Result<bool, Fail> {
        let (view, seq) = { let t = &self.sess[i].as_ref().unwrap().1; (t.view.clone(), t.seq) };
        let sql = st.sql(&view);
        let mut after = view.clone();
        let want = st.apply(&mut after, &mut self.ids);
        let may = self.overlaps(Some(i), seq, st);
        ctx.note(format!("s{i}: {}", Self::short(&sql)));
        ctx.count("statements", 1);
        let res = self.sess[i].as_mut().unwrap().0.execute(&sql).map(got).map_err(|e| e.to_string());
        if let Err(e) = &res { ctx.log.push(format!("   -> {}", e.chars().take(160).collect::<String>())); }
        // an attempt keeps others from changing the definition of the table until the transaction ends
        if !st.is_read() { let t = &mut self.sess[i].as_mut().unwrap().1; t.soft.insert(st.table().unwrap().into()); if let St::Index { name, .. } = st { t.soft.insert(name.clone()); } }
        if !self.judge(ctx, &format!("session {i}"), &sql, &view, &want, &res, may, st)? { return Ok(false); }
        let (tabs, writes) = Self::diff(&view, &after);
        for (j, s) in self.sess.iter().enumerate() {
            if j == i { continue; }
            if let Some((_, o)) = s { if let Some((id, n)) = writes.iter().find(|(id, _)| o.writes.contains_key(id)) { viol!("sessions {i} and {j} have both changed the same row of {n} (model id {id}): {}", view[n].rows.get(id).map(|r| show_row(r)).unwrap_or_default()); } }
        }
        let t = &mut self.sess[i].as_mut().unwrap().1;
        if st.is_ddl() { let n = st.table().unwrap().to_string(); if tabs.contains(&n) { t.ddl.insert(n); } else { t.soft.insert(n); } if let St::Index { name, .. } = st { t.soft.insert(name.clone()); } }
        if matches!(st, St::Update { .. }) && !writes.is_empty() { t.updated = true; }
        if st.is_read() { t.reads += 1; if may { ctx.count("reads_beside_writers", 1); } }
        t.tabs.extend(tabs);
        t.writes.extend(writes);
        t.view = after;
        Ok(true)
    }
    /// Whether the transaction gave the rows of a table another shape.
    fn reshaped(t: &Txn, n: &str) -> bool {
        match (t.begin.get(n), t.view.get(n)) { (Some(b), Some(v)) => b.uid != v.uid || b.cols.len() != v.cols.len() || b.cols.iter().zip(&v.cols).any(|(x, y)| x.name != y.name || x.k != y.k), _ => false }
    }
    /// The state after committing session i on top of the current one.
    fn merged(&self, i: usize) -> State {
        let t = &self.sess[i].as_ref().unwrap().1;
        let mut s = self.base.clone();
        for n in t.tabs.iter().chain(&t.ddl) {
            match (t.begin.get(n), t.view.get(n)) {
                (_, None) => { if t.ddl.contains(n) && t.begin.contains_key(n) { s.remove(n); } }
                (None, Some(v)) => { s.insert(n.clone(), v.clone()); }
                (Some(b), Some(v)) if b.uid != v.uid || Self::reshaped(t, n) => { if !Arc::ptr_eq(b, v) { s.insert(n.clone(), v.clone()); } }
                (Some(b), Some(v)) => {
                    let Some(cur) = s.get(n) else { continue };
                    let mut c = (**cur).clone();
                    if t.ddl.contains(n) { c.cols = v.cols.clone(); c.uq = v.uq.clone(); }
                    for id in b.rows.keys() { if !v.rows.contains_key(id) { c.rows.remove(id); } }
                    for (id, r) in &v.rows { match b.rows.get(id) { Some(o) if Arc::ptr_eq(o, r) => {} _ => { c.rows.insert(*id, r.clone()); } } }
                    s.insert(n.clone(), Arc::new(c));
                }
            }
        }
        s
    }
    pub fn end(&mut self, ctx: &mut Ctx, i: usize, how: End) -> Result<bool, Fail> {
        let how = if how == End::Abort && self.sess[i].as_ref().unwrap().1.updated { End::Drop } else { how };
        ctx.note(format!("s{i}: {how:?}"));
        let merged = if how == End::Commit { Some(self.merged(i)) } else { None };
        let start = self.now();
        let (mut s, t) = self.sess[i].take().unwrap();
        match how {
            End::Commit => {
                let clash = self.commits.iter().filter(|c| c.seq > t.seq).find_map(|c| t.writes.keys().find(|w| c.writes.contains(w)).copied());
                let lost = self.commits.iter().any(|c| c.seq > t.seq && (t.tabs.iter().any(|n| c.ddl.contains(n)) || t.ddl.iter().any(|n| c.ddl.contains(n) || (c.net.contains(n) && Self::reshaped(&t, n) && t.begin[n].uid == t.view[n].uid))));
                match s.commit_transaction().map_err(|e| e.to_string()) {
                    Err(e) => {
                        if internal(&e) { viol!("commit of session {i} fails with an internal error: {e}"); }
                        let overlapped = self.commits.iter().any(|c| c.seq > t.seq && t.tabs.iter().any(|n| c.tabs.contains(n) || c.ddl.contains(n)));
                        if !overlapped { viol!("commit of session {i} fails without any overlapping writer: {e}"); }
                        ctx.count("refused_commits", 1);
                        drop(s);
                        return Ok(false);
                    }
                    Ok(()) => {
                        if let Some(id) = clash { viol!("session {i} commits a change of a row ({}, model id {id}) that a transaction committed meanwhile has changed too", t.writes[&id]); }
                        if lost { viol!("session {i} commits changes of a table whose definition was changed by a transaction committed meanwhile"); }
                        let m = merged.unwrap();
                        for n in t.tabs.iter() { if let Some(tab) = m.get(n) { if let Err(r) = tab.check() { viol!("after session {i} commits, table {n} breaks {r:?}: two transactions put the same key in"); } } }
                        self.base = m;
                        // tables whose rows are not what they were
                        let net = Self::net(&t.begin, &t.view, &t.tabs);
                        self.seq += 1;
                        if !t.tabs.is_empty() || !t.ddl.is_empty() || !t.soft.is_empty() { self.commits.push(Commit { seq: self.seq, net, tabs: t.tabs, ddl: t.ddl, soft: t.soft, writes: t.writes.into_keys().collect() }); ctx.count("commits", 1); self.mark(start); }
                    }
                }
                drop(s);
            }
            End::Abort => {
                if let Err(e) = s.abort_transaction() { viol!("abort of session {i} fails: {e}"); }
                drop(s);
                ctx.count("rollbacks", 1);
            }
            End::Drop => { drop(s); ctx.count("rollbacks", 1); }
        }
        self.prune();
        Ok(true)
    }
    pub fn end_all(&mut self, ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
        for i in self.open() { self.end(ctx, i, *r.pick(&[End::Commit, End::Drop, End::Abort]))?; }
        Ok(())
    }
    pub fn vacuum(&mut self, ctx: &mut Ctx) -> CaseResult {
        ctx.note("VACUUM");
        match self.db().vacuum() { Ok(_) => { ctx.count("vacuums", 1); Ok(()) } Err(e) if self.allow_oom && oom(&e.to_string()) => Ok(()), Err(e) => violation(format!("vacuum fails: {e}")) }
    }
    pub fn analyze(&mut self, ctx: &mut Ctx) -> CaseResult {
        ctx.note("ANALYZE");
        match self.db().analyze(1.0, 10_000) {
            Ok(()) => { ctx.count("analyzes", 1); Ok(()) }
            Err(e) => { let e = e.to_string(); if (conflict(&e) && !self.open().is_empty()) || (self.allow_oom && oom(&e)) { return Ok(()); } violation(format!("analyze fails: {e}")) }
        }
    }
    pub fn flush(&mut self, ctx: &mut Ctx) -> CaseResult { ctx.note("flush"); ctx.count("flushes", 1); self.db().flush().or_else(|e| violation(format!("flush fails: {e}"))) }
    pub fn reopen(&mut self, ctx: &mut Ctx, cfg: Cfg) -> CaseResult {
        ctx.note(format!("close and open with {cfg:?}"));
        for i in self.open() { self.end(ctx, i, End::Drop)?; }
        self.db = None;
        self.cfg = cfg;
        match Database::open(&self.path, cfg.db()) { Ok(d) => self.db = Some(d), Err(e) => viol!("open after a clean close fails: {e}") }
        ctx.count("reopens", 1);
        self.first_session(ctx)
    }
    /// The first transaction after opening: what was committed must be there for it, and while it runs for others too.
    fn first_session(&mut self, ctx: &mut Ctx) -> CaseResult {
        if ctx.rng.chance(1, 3) { return Ok(()); }
        ctx.note("a session opened first of all, held during a verification, dropped");
        let db = self.db.take().unwrap();
        let mut s = match db.session() { Ok(s) => s, Err(e) => viol!("no session on an opened database: {e}") };
        let mut r = ctx.rng.fork();
        let res = self.compare(ctx, "committed state beside the first session", &self.base, false, &mut r, &mut |q| exec(&db, q))
            .and_then(|_| self.compare(ctx, "first session", &self.base, false, &mut r, &mut |q| s.execute(q).map(got).map_err(|e| e.to_string())));
        drop(s);
        self.db = Some(db);
        ctx.count("first_sessions", 1);
        res
    }
    /// The process dies here: what goes on is a database opened from a copy of the files as they are now.
    pub fn killed(&mut self, ctx: &mut Ctx, cfg: Cfg) -> CaseResult {
        ctx.note(format!("killed ({} sessions open), opened again with {cfg:?}", self.open().len()));
        self.lives += 1;
        let from = self.path.parent().unwrap().to_path_buf();
        let to = ctx.dir().join(format!("life{}", self.lives));
        std::fs::create_dir_all(&to).or_else(|e| inconclusive(e.to_string()))?;
        for f in std::fs::read_dir(&from).or_else(|e| inconclusive(e.to_string()))? {
            let f = f.or_else(|e| inconclusive(e.to_string()))?;
            if f.path().is_file() { std::fs::copy(f.path(), to.join(f.file_name())).or_else(|e| inconclusive(e.to_string()))?; }
        }
        let path = to.join(self.path.file_name().unwrap());
        let (log, open) = (ctx.log.len(), self.open());
        for i in open { self.end(ctx, i, End::Drop)?; }
        ctx.log.truncate(log);
        self.db = None;
        self.path = path;
        self.cfg = cfg;
        match Database::open(&self.path, cfg.db()) { Ok(d) => self.db = Some(d), Err(e) => viol!("open after the process died fails: {e}") }
        ctx.count("kills", 1);
        self.first_session(ctx)
    }
    /// Compares the database (as `run` sees it) with a model state.
    fn compare(&self, ctx: &mut Ctx, who: &str, s: &State, deep: bool, r: &mut Rng, run: &mut dyn FnMut(&str) -> Result<Got, String>) -> CaseResult {
        let mut ask = |sql: &str| -> Result<Option<(Vec<String>, Vec<Vec<V>>)>, Fail> {
            match run(sql) {
                Ok(Got::Rows(n, rows)) => Ok(Some((n, rows))),
                Ok(o) => violation(format!("{who}: {sql} gives {o:?}")),
                Err(e) if self.allow_oom && oom(&e) => Ok(None),
                Err(e) => violation(format!("{who}: {sql} fails: {e}")),
            }
        };
        for (name, t) in s {
            let sql = format!("SELECT * FROM {name}");
            let Some((names, rows)) = ask(&sql)? else { continue };
            if names != t.names() { viol!("{who}: the columns of {name} are {names:?}, should be {:?}", t.names()); }
            ctx.count("rows_compared", rows.len() as u64);
            if let Err(m) = same_rows(rows, t.rows.values().map(|r| (**r).clone()).collect()) { viol!("{who}: {sql}: {m}"); }
            ctx.count("table_scans", 1);
            if !deep { continue; }
            if let Some((_, c)) = ask(&format!("SELECT COUNT(*) FROM {name}"))? { if c.len() != 1 || c[0].len() != 1 || c[0][0].as_i128() != Some(t.rows.len() as i128) { viol!("{who}: COUNT(*) of {name} is {:?}, should be {}", c, t.rows.len()); } }
            for u in &t.uq {
                let pos = t.uq_pos(u);
                let rows: Vec<&Row> = t.rows.values().collect();
                for k in 0..5 {
                    let probe: Vec<V> = if k < 4 && !rows.is_empty() { let x = r.pick(&rows); pos.iter().map(|i| x[*i].clone()).collect() } else { pos.iter().map(|i| kind_value(r, t.cols[*i].k, true, &BASE)).collect() };
                    if probe.iter().any(|v| v.is_null() || matches!(v, V::T(t) if t.len() > 3000) || matches!(v, V::F64(_) | V::F32(_))) { continue; }
                    let w = u.cols.iter().zip(&probe).map(|(c, v)| format!("{c} = {}", crate::expr::lit(v))).collect::<Vec<_>>().join(" AND ");
                    let want: Vec<Vec<V>> = t.rows.values().filter(|x| pos.iter().zip(&probe).all(|(i, v)| crate::expr::eqv(&x[*i], v))).map(|x| (**x).clone()).collect();
                    let sql = format!("SELECT * FROM {name} WHERE {w}");
                    if let Some((_, rows)) = ask(&sql)? { if let Err(m) = same_rows(rows, want) { viol!("{who}: {sql}: {m}"); } }
                    ctx.count("key_lookups", 1);
                }
            }
        }
        Ok(())
    }
    /// The whole visible state, in and outside of sessions.
    pub fn verify(&mut self, ctx: &mut Ctx, deep: bool) -> CaseResult {
        let mut r = ctx.rng.fork();
        let db = self.db.take().unwrap();
        let res = (|| {
            self.compare(ctx, "committed state", &self.base, deep, &mut r, &mut |q| exec(&db, q))?;
            for k in 0..4 { let n = format!("t{k}"); if !self.base.contains_key(&n) && exec(&db, &format!("SELECT * FROM {n}")).is_ok() { viol!("table {n} does not exist but can be selected from"); } }
            ctx.count("verifications", 1);
            Ok(())
        })();
        self.db = Some(db);
        res?;
        for i in self.open() {
            let (mut s, t) = self.sess[i].take().unwrap();
            let res = self.compare(ctx, &format!("session {i} (snapshot since commit {})", t.seq), &t.view, deep, &mut r, &mut |q| s.execute(q).map(got).map_err(|e| e.to_string()));
            let gone: Vec<String> = (0..4).map(|k| format!("t{k}")).filter(|n| !t.view.contains_key(n)).collect();
            let mut bad = None;
            for n in gone { if s.execute(&format!("SELECT * FROM {n}")).is_ok() { bad = Some(n); } }
            self.sess[i] = Some((s, t));
            res?;
            if let Some(n) = bad { viol!("session {i}: table {n} is not in its snapshot but can be selected from"); }
            ctx.count("session_verifications", 1);
        }
        Ok(())
    }
    /// Page audit: only meaningful after a vacuum without open transactions.
    pub fn audit(&mut self, ctx: &mut Ctx) -> CaseResult {
        let store = Store::of(self.db());
        let roots: Vec<(String, u64)> = store.roots().or_else(|e| violation(format!("the catalog cannot be read: {e}")))?.into_iter().map(|r| (r.0, r.1)).collect();
        match crate::audit::pages(&store, &roots) { Ok(a) => { ctx.count("audits", 1); ctx.count("pages_audited", a.total); Ok(()) } Err(m) => violation(format!("page audit: {m}")) }
    }
    /// A random step: sessions and autocommit statements, batches.
    pub fn random(&mut self, ctx: &mut Ctx, r: &mut Rng, p: &Prof, max_sessions: usize) -> CaseResult {
        let open = self.open();
        if max_sessions > 0 && open.len() < max_sessions && r.chance(1, 6) { self.begin(ctx)?; return Ok(()); }
        if !open.is_empty() && r.chance(4, 5) {
            let i = *r.pick(&open);
            if r.chance(1, 7) { let how = *r.pick(&self.ends); self.end(ctx, i, how)?; return Ok(()); }
            let st = draw(r, &self.sess[i].as_ref().unwrap().1.view, p, &mut self.names);
            self.step(ctx, i, &st)?;
            return Ok(());
        }
        if r.chance(1, self.batches) {
            let mut view = self.base.clone();
            let n = 2 + r.us(4);
            let mut sts = Vec::new();
            let mut ids = 1 << 40;
            for _ in 0..n { let st = draw(r, &view, p, &mut self.names); let bad = st.apply(&mut view, &mut ids).is_err(); sts.push(st); if bad { if r.bool() { sts.push(draw(r, &view, p, &mut self.names)); } break; } }
            self.batch(ctx, &sts, true)?;
            return Ok(());
        }
        let st = draw(r, &self.base, p, &mut self.names);
        self.auto(ctx, &st)?;
        Ok(())
    }
    /// Now and then a history is about size: wide tables, many of them, many sessions, long chains of versions, big transactions.
    pub fn scale(&mut self, ctx: &mut Ctx, r: &mut Rng, p: &mut Prof, among: &[u64]) -> CaseResult {
        match among[r.us(among.len())] {
            0 => {
                p.wide = *r.pick(&[14, 20, 34, 66, 130, 260]);
                p.big = 0;
                p.multi = p.multi.min(4);
                p.maxrows = p.maxrows.min(30);
                for n in 0..1 + r.below(2) { let t = format!("t{n}"); if self.base.contains_key(&t) { self.auto(ctx, &St::Drop { t: t.clone(), ie: true })?; } let st = create(r, t.clone(), p); self.auto(ctx, &st)?; if let Some(x) = self.base.get(&t).cloned() { let st = gen_insert(r, &t, &x, p); self.auto(ctx, &st)?; } }
                ctx.count("scale_wide_tables", 1);
            }
            1 => {
                p.names = 20 + r.below(60);
                for n in 0..p.names { let t = format!("t{n}"); if self.base.contains_key(&t) { continue; } let st = create(r, t.clone(), p); if !self.auto(ctx, &st)? { continue; } if r.bool() { if let Some(x) = self.base.get(&t).cloned() { let st = gen_insert(r, &t, &x, p); self.auto(ctx, &st)?; } } }
                ctx.count("scale_many_tables", 1);
            }
            2 => {
                let n = 12 + r.us(60);
                for _ in 0..n {
                    let i = self.begin(ctx)?;
                    if r.bool() { let st = draw(r, &self.sess[i].as_ref().unwrap().1.view, p, &mut self.names); self.step(ctx, i, &st)?; }
                    if r.chance(1, 3) { let st = draw(r, &self.base, p, &mut self.names); self.auto(ctx, &st)?; }
                }
                self.verify(ctx, false)?;
                ctx.count("scale_many_sessions", 1);
            }
            3 => {
                // one row, hundreds of versions, of which somebody still needs the first
                let t = "t7".to_string();
                let col = |n: &str, k| Col { name: n.into(), k, notnull: false, default: None };
                if self.base.contains_key(&t) { return Ok(()); }
                if !self.auto(ctx, &St::Create { t: t.clone(), cols: vec![col("c0", K::Int), col("c1", K::Big), col("c2", K::T)], uq: if r.bool() { vec![Uq { cols: vec!["c0".into()], pk: true, index: None }] } else { vec![] }, ine: false })? { return Ok(()); }
                self.auto(ctx, &St::Insert { t: t.clone(), cols: None, rows: (0..1 + r.us(3)).map(|i| vec![V::Int(i as i32), V::Big(0), V::T(b"v".to_vec())]).collect() })?;
                let mut old = vec![self.begin(ctx)?];
                let n = if r.bool() { 60 + r.us(100) } else { 60 + r.us(400) };
                let one = r.chance(1, 3);
                let mine = if one { Some(self.begin(ctx)?) } else { None };
                for k in 0..n {
                    let mut sets = vec![(1, E::L(V::Big(k as i64)))];
                    if r.chance(1, 5) { sets.push((2, E::L(V::T(format!("v{k}").into_bytes())))); }
                    let st = St::Update { t: t.clone(), sets, wher: if r.chance(9, 10) { Some(bin("=", E::C(0), E::L(V::Int(0)))) } else { None } };
                    match mine { Some(i) => self.step(ctx, i, &st)?, None => self.auto(ctx, &st)? };
                    if !one && r.chance(1, 25) { old.push(self.begin(ctx)?); }
                    if r.chance(1, 80) { self.vacuum(ctx)?; }
                }
                self.verify(ctx, true)?;
                if let Some(i) = mine { let how = if r.bool() { End::Commit } else { End::Drop }; self.end(ctx, i, how)?; }
                while r.chance(2, 3) && !old.is_empty() { let i = old.swap_remove(r.us(old.len())); if self.sess[i].is_some() { self.end(ctx, i, End::Drop)?; self.vacuum(ctx)?; self.verify(ctx, true)?; } }
                ctx.count("scale_long_chains", 1);
            }
            _ => {
                // one transaction with hundreds or thousands of changes
                let i = self.begin(ctx)?;
                let q = Prof { multi: 40, maxrows: 900, keydom: 100_000, w: [0, 0, 0, 0, 0, 50, 2, 4, 3, 0, 0, 0], ..p.clone() };
                for _ in 0..20 + r.us(60) { let v = self.sess[i].as_ref().unwrap().1.view.clone(); let st = draw(r, &v, &q, &mut self.names); self.step(ctx, i, &st)?; }
                self.verify(ctx, false)?;
                let how = if r.chance(2, 3) { End::Commit } else { End::Drop };
                self.end(ctx, i, how)?;
                self.verify(ctx, false)?;
                ctx.count("scale_big_transactions", 1);
            }
        }
        Ok(())
    }
}
