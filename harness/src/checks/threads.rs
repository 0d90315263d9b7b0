//! Many client threads on one database: C14.
use crate::drv::*;
use crate::rng::Rng;
use crate::run::*;
use crate::val::*;
use crate::viol;
use axmosdb::Database;
use axmosdb::tcp::session::Session;
use axmosdb::verif::pause;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex, mpsc};
use std::time::{Duration, Instant};

pub static C14: Check = Check {
    id: "C14", level: "exploration",
    rule: "2..8 client threads (autocommit calls, batches that mix queries and changes, and sessions) on one database with 1..4 workers, small and large caches, random pauses before every latch, lock and job (hook) and between statements: lists appended to and read (the versions of every list are totally ordered, snapshots form a chain, respect real time, show transactions whole, nobody's append is lost), transfers (sums in every snapshot, exact balances at the end), racing inserts and deletes of the same keys (never twice, at most one winner), groups of rows written by one statement (seen whole or not at all), tables private to a thread with their definitions changed all the time (exact model, no error excused), tables created and dropped by several threads, VACUUM, ANALYZE, flush beside it all. A monitor of every thread's running statement raises the alarm when one does not return; at the end contents are judged against the acknowledged statements, before and after VACUUM, the death of the process, page audit and reopening.",
    quick: 1000, thorough: 40_000, hang_s: 150, threads: 8, run: c14, repros: &[],
    must_see: &["threads", "statements", "overlapping_statements", "appends", "list_snapshots", "chained_snapshots", "conflicts", "transfers", "sum_reads", "key_wins", "key_refusals", "groups_seen", "private_statements", "private_ddl", "shared_creates", "maintenance", "big_reads", "pauses", "final_audits", "acknowledged_commits", "batches", "kills"],
    assumptions: &["schedules are sampled: pauses are drawn before locks, latches and jobs and between statements"],
};

const STUCK_S: u64 = 45;

struct Shared {
    clock: AtomicU64,
    stop: AtomicBool,
    running: AtomicU64,
    most: AtomicU64,
    slowest: AtomicU64,
    now: Vec<Mutex<Option<(Instant, String)>>>,
    appends: Vec<AtomicU64>,
    /// rows of the big table: length of the text by key
    big: Vec<i64>,
    analyzing: bool,
    /// too small a cache for VACUUM
    tight: bool,
    w: Weights,
}
#[derive(Clone, Copy, Debug)]
struct Weights { list: u64, bank: u64, keys: u64, groups: u64, own: u64, ddl: u64, upkeep: u64, big: u64, gap: u64 }

struct Snap { who: usize, from: u64, to: u64, lists: BTreeMap<i64, Vec<String>>, own: Vec<(i64, String)> }
struct Append { who: usize, tokens: Vec<(i64, String)>, start: u64, end: u64, ok: bool, seen: Option<BTreeMap<i64, usize>> }
#[derive(Default)]
struct Out {
    log: Vec<(u64, String)>, count: BTreeMap<&'static str, u64>,
    snaps: Vec<Snap>, appends: Vec<Append>,
    /// acknowledged changes of balances
    deltas: Vec<(i64, i64)>,
    /// key -> acknowledged inserts minus deletes
    keys: BTreeMap<i64, i64>, tried: BTreeSet<i64>,
    /// groups: (group, size) acknowledged
    groups: Vec<(i64, i64)>, gone: Vec<i64>, bumped: Vec<i64>,
    own: Option<Own>,
    creates: Vec<(i64, i64)>,
}
/// Model of a thread's own table.
#[derive(Clone, Debug)]
struct Own { name: String, cols: Vec<&'static str>, rows: BTreeMap<i64, Vec<V>> }

struct Worker { id: usize, db: Arc<Database>, r: Rng, sh: Arc<Shared>, o: Out, seq: u64 }
type Step<T> = Result<T, String>;

fn big_text(k: usize, len: i64) -> String { let c = (b'a' + (k % 26) as u8) as char; let mut s = format!("{k}:"); while (s.len() as i64) < len { s.push(c); } s }
fn tokens(v: &V) -> Vec<String> { match v { V::T(t) => String::from_utf8_lossy(t).split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(), _ => vec![] } }
fn int(v: &V) -> i64 { v.as_i128().unwrap_or(i64::MIN as i128) as i64 }

impl Worker {
    fn tick(&self) -> u64 { self.sh.clock.fetch_add(1, SeqCst) }
    fn add(&mut self, k: &'static str, n: u64) { *self.o.count.entry(k).or_insert(0) += n; }
    fn busy<T>(&mut self, what: &str, f: impl FnOnce(&mut Self) -> T) -> (T, u64, u64) {
        let a = self.tick();
        *self.sh.now[self.id].lock().unwrap() = Some((Instant::now(), what.to_string()));
        let n = self.sh.running.fetch_add(1, SeqCst) + 1;
        self.sh.most.fetch_max(n, SeqCst);
        if n > 1 { self.add("overlapping_statements", 1); }
        let t0 = Instant::now();
        let x = f(self);
        self.sh.slowest.fetch_max(t0.elapsed().as_millis() as u64, SeqCst);
        self.sh.running.fetch_sub(1, SeqCst);
        *self.sh.now[self.id].lock().unwrap() = None;
        let b = self.tick();
        self.o.log.push((a, format!("[{a}..{b}] thread {}: {what}", self.id)));
        (x, a, b)
    }
    fn gap(&mut self) {
        match self.r.below(self.sh.w.gap + 3) { 0..=2 => {} 3 => std::thread::yield_now(), n => std::thread::sleep(Duration::from_micros(self.r.below(n * 40))) }
    }
    /// Runs a statement; errors that are nobody's fault end the case.
    fn run(&mut self, s: Option<&mut Session>, sql: &str) -> Step<(Result<Got, String>, u64, u64)> {
        self.gap();
        let label = if s.is_some() { format!("session: {sql}") } else { sql.to_string() };
        let (res, a, b) = self.busy(&label, |w| match s { Some(s) => s.execute(sql).map(got).map_err(|e| e.to_string()), None => exec(&w.db, sql) });
        self.add("statements", 1);
        if let Err(e) = &res {
            self.o.log.last_mut().unwrap().1.push_str(&format!(" -> {e}"));
            if internal(e) || oom(e) || e.contains("not active") || e.contains("not started") { return Err(format!("thread {}: {label}\nfails for an internal reason: {e}", self.id)); }
            if conflict(e) { self.add("conflicts", 1); }
        }
        Ok((res, a, b))
    }
    fn rows(&mut self, s: Option<&mut Session>, sql: &str) -> Step<(Vec<Vec<V>>, u64, u64)> {
        let (res, a, b) = self.run(s, sql)?;
        match res { Ok(Got::Rows(_, rows)) => Ok((rows, a, b)), Ok(g) => Err(format!("thread {}: {sql} gives {g:?}", self.id)), Err(e) => Err(format!("thread {}: the query {sql} fails: {e}", self.id)) }
    }
    /// A write to a table others write too: only a conflict (or a key already there) may refuse it.
    fn write(&mut self, s: Option<&mut Session>, sql: &str, keys: bool) -> Step<(Option<u64>, u64, u64)> {
        let (res, a, b) = self.run(s, sql)?;
        match res {
            Ok(Got::Count(n)) => Ok((Some(n), a, b)),
            Ok(g) => Err(format!("thread {}: {sql} gives {g:?}", self.id)),
            Err(e) if conflict(&e) || keys && unique(&e) => Ok((None, a, b)),
            Err(e) => Err(format!("thread {}: {sql}\nfails with {e}, which no concurrent transaction explains", self.id)),
        }
    }
    /// A batch: one transaction. None when a conflict (or a key already there) refused it.
    fn batch(&mut self, sqls: &[String], keys: bool) -> Step<(Option<Vec<Got>>, u64, u64)> {
        self.gap();
        let label = format!("batch: {}", sqls.join("; "));
        let refs: Vec<&str> = sqls.iter().map(|s| s.as_str()).collect();
        let (res, a, b) = self.busy(&label, |w| w.db.execute_batch(&refs).map(|v| v.into_iter().map(got).collect::<Vec<_>>()).map_err(|e| e.to_string()));
        self.add("statements", sqls.len() as u64);
        self.add("batches", 1);
        match res {
            Ok(v) if v.len() == sqls.len() => { self.add("acknowledged_commits", 1); Ok((Some(v), a, b)) }
            Ok(v) => Err(format!("thread {}: {label}\ngives {} answers", self.id, v.len())),
            Err(e) => {
                self.o.log.last_mut().unwrap().1.push_str(&format!(" -> {e}"));
                if conflict(&e) { self.add("conflicts", 1); Ok((None, a, b)) } else if keys && unique(&e) { Ok((None, a, b)) } else { Err(format!("thread {}: {label}\nfails with {e}, which no concurrent transaction explains", self.id)) }
            }
        }
    }
    fn begin(&mut self) -> Step<(Session, u64, u64)> {
        self.gap();
        let (s, a, b) = self.busy("BEGIN", |w| w.db.session().map_err(|e| e.to_string()));
        Ok((s.map_err(|e| format!("thread {}: session: {e}", self.id))?, a, b))
    }
    /// True when the commit was acknowledged.
    fn commit(&mut self, mut s: Session) -> Step<(bool, u64, u64)> {
        self.gap();
        let (res, a, b) = self.busy("COMMIT", |_| s.commit_transaction().map_err(|e| e.to_string()));
        match res {
            Ok(()) => { self.add("acknowledged_commits", 1); Ok((true, a, b)) }
            Err(e) if conflict(&e) => { self.add("conflicts", 1); self.o.log.last_mut().unwrap().1.push_str(&format!(" -> {e}")); self.busy("ROLLBACK", |_| drop(s)); Ok((false, a, b)) }
            Err(e) => Err(format!("thread {}: commit fails: {e}", self.id)),
        }
    }
    fn forget(&mut self, s: Session) { self.gap(); self.busy("ROLLBACK", |_| drop(s)); }

    // ---- lists
    fn token(&mut self) -> String { self.seq += 1; format!("{}_{}", self.id, self.seq) }
    fn lists(rows: Vec<Vec<V>>) -> BTreeMap<i64, Vec<String>> { rows.into_iter().map(|r| (int(&r[0]), tokens(&r[1]))).collect() }
    fn list(&mut self) -> Step<()> {
        let k = self.sh.appends.len();
        let q = *self.r.pick(&["SELECT id, v FROM reg", "SELECT id, v FROM reg ORDER BY id DESC", "SELECT id, v FROM reg WHERE id >= 0"]);
        match self.r.us(8) {
            6 => {
                // reads between the appends of a batch
                let mut sqls = Vec::new();
                let mut own: Vec<(i64, String)> = Vec::new();
                let mut upto = Vec::new();
                for _ in 0..1 + self.r.us(3) {
                    if self.r.bool() { sqls.push(q.to_string()); upto.push(own.len()); }
                    let id = self.r.us(k) as i64;
                    if self.sh.appends[id as usize].fetch_add(1, SeqCst) > 60 { continue; }
                    let t = self.token();
                    sqls.push(format!("UPDATE reg SET v = v || '{t};' WHERE id = {id}"));
                    own.push((id, t));
                }
                sqls.push(q.to_string());
                upto.push(own.len());
                let (res, from, to) = self.batch(&sqls, false)?;
                let who = self.id;
                let ok = res.is_some();
                let mut upto = upto.into_iter();
                for g in res.into_iter().flatten() {
                    match g { Got::Rows(_, rows) => { let n = upto.next().unwrap(); self.o.snaps.push(Snap { who, from, to, lists: Self::lists(rows), own: own[..n].to_vec() }); } Got::Count(1) => {} g => return Err(format!("thread {who}: an append in a batch gives {g:?}")) }
                }
                if ok && !own.is_empty() { self.add("appends", 1); }
                self.o.appends.push(Append { who, tokens: own, start: from, end: to, ok, seen: None });
            }
            7 => {
                let sqls = vec![q.to_string(); 2 + self.r.us(2)];
                let (res, from, to) = self.batch(&sqls, false)?;
                let who = self.id;
                let Some(res) = res else { return Err(format!("thread {who}: a batch of queries is refused")) };
                for g in res { if let Got::Rows(_, rows) = g { self.o.snaps.push(Snap { who, from, to, lists: Self::lists(rows), own: vec![] }); } }
            }
            0 | 1 => { let (rows, from, to) = self.rows(None, q)?; let who = self.id; self.o.snaps.push(Snap { who, from, to, lists: Self::lists(rows), own: vec![] }); }
            2 => {
                // a reader's snapshot stays
                let (mut s, from, to) = self.begin()?;
                for _ in 0..1 + self.r.us(3) { let (rows, _, _) = self.rows(Some(&mut s), q)?; let who = self.id; self.o.snaps.push(Snap { who, from, to, lists: Self::lists(rows), own: vec![] }); }
                if self.r.bool() { let (ok, _, _) = self.commit(s)?; if !ok { return Err(format!("thread {}: a transaction that only read cannot commit", self.id)); } } else { self.forget(s); }
            }
            3 => {
                // one statement, several lists
                let mut ids: Vec<i64> = (0..k as i64).collect();
                self.r.shuffle(&mut ids);
                ids.truncate(1 + self.r.us(k));
                if ids.iter().any(|i| self.sh.appends[*i as usize].fetch_add(1, SeqCst) > 60) { return Ok(()); }
                let t = self.token();
                let sql = format!("UPDATE reg SET v = v || '{t};' WHERE id IN ({})", ids.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(", "));
                let (n, start, end) = self.write(None, &sql, false)?;
                if let Some(n) = n { if n != ids.len() as u64 { return Err(format!("thread {}: {sql} changes {n} rows", self.id)); } self.add("appends", 1); self.add("acknowledged_commits", 1); }
                let who = self.id;
                self.o.appends.push(Append { who, tokens: ids.iter().map(|i| (*i, t.clone())).collect(), start, end, ok: n.is_some(), seen: None });
            }
            _ => {
                let (mut s, from, to) = self.begin()?;
                let (rows, _, _) = self.rows(Some(&mut s), q)?;
                let lists = Self::lists(rows);
                let who = self.id;
                let seen: BTreeMap<i64, usize> = lists.iter().map(|(k, v)| (*k, v.len())).collect();
                self.o.snaps.push(Snap { who, from, to, lists, own: vec![] });
                let mut own: Vec<(i64, String)> = Vec::new();
                let mut lost = false;
                for _ in 0..1 + self.r.us(3) {
                    let id = self.r.us(k) as i64;
                    if self.sh.appends[id as usize].fetch_add(1, SeqCst) > 60 { continue; }
                    let t = self.token();
                    let (n, _, _) = self.write(Some(&mut s), &format!("UPDATE reg SET v = v || '{t};' WHERE id = {id}"), false)?;
                    match n { Some(1) => own.push((id, t)), None => lost = true, Some(n) => return Err(format!("thread {}: an update of list {id} changes {n} rows", self.id)) }
                    if self.r.chance(1, 3) { let (rows, _, _) = self.rows(Some(&mut s), q)?; self.o.snaps.push(Snap { who, from, to, lists: Self::lists(rows), own: own.clone() }); }
                }
                if self.r.chance(1, 6) || lost && self.r.bool() { self.forget(s); self.o.appends.push(Append { who, tokens: own, start: u64::MAX, end: u64::MAX, ok: false, seen: None }); return Ok(()); }
                let (ok, start, end) = self.commit(s)?;
                if ok { self.add("appends", 1); }
                self.o.appends.push(Append { who, tokens: own, start, end, ok, seen: Some(seen) });
            }
        }
        Ok(())
    }
    // ---- transfers
    fn bank(&mut self) -> Step<()> {
        let (a, b) = (self.r.below(6) as i64, self.r.below(6) as i64);
        let x = self.r.range(1, 50);
        match self.r.us(6) {
            5 => {
                let sum = "SELECT bal FROM acct".to_string();
                let mut sqls = vec![format!("UPDATE acct SET bal = bal - {x} WHERE id = {a}"), format!("UPDATE acct SET bal = bal + {x} WHERE id = {b}")];
                let mut due = Vec::new();
                if self.r.bool() { sqls.push(sum.clone()); due.push(6000); }
                if self.r.chance(1, 3) { sqls.insert(1, sum.clone()); due.insert(0, 6000 - x); }
                if self.r.bool() { sqls.insert(0, sum); due.insert(0, 6000); }
                if let (Some(res), _, _) = self.batch(&sqls, false)? {
                    let mut due = due.into_iter();
                    for g in &res { match g { Got::Rows(_, rows) => { let (s, d) = (rows.iter().map(|r| int(&r[0])).sum::<i64>(), due.next().unwrap()); if s != d || rows.len() != 6 { return Err(format!("thread {}: a query in a batch sees balances that add up to {s}, should be {d}", self.id)); } self.add("sum_reads", 1); } Got::Count(1) => {} g => return Err(format!("thread {}: half a transfer gives {g:?}", self.id)) } }
                    self.o.deltas.extend([(a, -x), (b, x)]);
                    self.add("transfers", 1);
                }
            }
            0 => {
                let (rows, _, _) = self.rows(None, "SELECT SUM(bal), COUNT(*) FROM acct")?;
                if rows.len() != 1 || !matches!(&rows[0][0], V::F64(f) if *f == 6000.0) && rows[0][0].as_i128() != Some(6000) || int(&rows[0][1]) != 6 { return Err(format!("thread {}: the balances add up to {:?}, not to 6000 in 6 accounts", self.id, rows)); }
                self.add("sum_reads", 1);
            }
            1 => {
                let (mut s, _, _) = self.begin()?;
                let mut sums = Vec::new();
                for _ in 0..2 { let (rows, _, _) = self.rows(Some(&mut s), "SELECT bal FROM acct")?; sums.push(rows.iter().map(|r| int(&r[0])).sum::<i64>()); }
                self.forget(s);
                if sums != [6000, 6000] { return Err(format!("thread {}: the balances of one snapshot add up to {sums:?}", self.id)); }
                self.add("sum_reads", 2);
            }
            2 if a != b => {
                let (n, _, _) = self.write(None, &format!("UPDATE acct SET bal = CASE WHEN id = {a} THEN bal - {x} ELSE bal + {x} END WHERE id IN ({a}, {b})"), false)?;
                match n { Some(2) => { self.o.deltas.extend([(a, -x), (b, x)]); self.add("transfers", 1); self.add("acknowledged_commits", 1); } None => {} Some(n) => return Err(format!("thread {}: a transfer changes {n} rows", self.id)) }
            }
            3 => {
                // absolute values worked out from what was read
                let (mut s, _, _) = self.begin()?;
                let (rows, _, _) = self.rows(Some(&mut s), "SELECT id, bal FROM acct")?;
                let bal: HashMap<i64, i64> = rows.iter().map(|r| (int(&r[0]), int(&r[1]))).collect();
                if bal.len() != 6 || a == b { self.forget(s); return if a == b { Ok(()) } else { Err(format!("thread {}: {} accounts instead of 6", self.id, bal.len())) }; }
                let (n, _, _) = self.write(Some(&mut s), &format!("UPDATE acct SET bal = {} WHERE id = {a}", bal[&a] - x), false)?;
                if n.is_none() { self.forget(s); return Ok(()); }
                let (m, _, _) = self.write(Some(&mut s), &format!("UPDATE acct SET bal = {} WHERE id = {b}", bal[&b] + x), false)?;
                if m.is_none() || self.r.chance(1, 8) { self.forget(s); return Ok(()); }
                if self.commit(s)?.0 { self.o.deltas.extend([(a, -x), (b, x)]); self.add("transfers", 1); }
            }
            _ => {
                let (mut s, _, _) = self.begin()?;
                for (id, d) in [(a, -x), (b, x)] {
                    let (n, _, _) = self.write(Some(&mut s), &format!("UPDATE acct SET bal = bal + {d} WHERE id = {id}"), false)?;
                    if n.is_none() { self.forget(s); return Ok(()); }
                }
                if self.r.chance(1, 8) { self.forget(s); return Ok(()); }
                if self.commit(s)?.0 { self.o.deltas.extend([(a, -x), (b, x)]); self.add("transfers", 1); }
            }
        }
        Ok(())
    }
    // ---- keys
    fn keys(&mut self) -> Step<()> {
        let many = if self.r.bool() { 4 } else { 30 };
        let k = self.r.below(many) as i64;
        match self.r.us(10) {
            8 | 9 => {
                let mut sqls = Vec::new();
                let mut what = Vec::new();
                for _ in 0..1 + self.r.us(3) {
                    let k = self.r.below(12) as i64;
                    self.seq += 1;
                    if self.r.chance(1, 4) { sqls.push("SELECT k, COUNT(*) FROM uniq GROUP BY k HAVING COUNT(*) > 1".into()); what.push((k, 0)); }
                    if self.r.bool() { sqls.push(format!("DELETE FROM uniq WHERE k = {k}")); what.push((k, -1)); }
                    if self.r.bool() { sqls.push(format!("INSERT INTO uniq VALUES ({k}, {}, {})", self.id, self.seq)); what.push((k, 1)); }
                }
                if sqls.is_empty() { return Ok(()); }
                match self.batch(&sqls, true)?.0 {
                    None => self.add("key_refusals", 1),
                    Some(res) => for (g, (k, sign)) in res.iter().zip(&what) { match g {
                        Got::Count(n @ 0..=1) if *sign != 0 => { *self.o.keys.entry(*k).or_insert(0) += sign * *n as i64; if *sign > 0 { self.add("key_wins", 1); } }
                        Got::Rows(_, rows) if *sign == 0 && rows.is_empty() => {}
                        g => return Err(format!("thread {}: for key {k}, a batch gives {g:?}", self.id)),
                    } },
                }
            }
            0..=2 => {
                self.o.tried.insert(k);
                self.seq += 1;
                let (n, _, _) = self.write(None, &format!("INSERT INTO uniq VALUES ({k}, {}, {})", self.id, self.seq), true)?;
                match n { Some(1) => { *self.o.keys.entry(k).or_insert(0) += 1; self.add("key_wins", 1); self.add("acknowledged_commits", 1); } None => self.add("key_refusals", 1), Some(n) => return Err(format!("thread {}: inserting a row counts {n}", self.id)) }
            }
            3 | 4 => {
                let (n, _, _) = self.write(None, &format!("DELETE FROM uniq WHERE k = {k}"), false)?;
                match n { Some(n @ 0..=1) => { *self.o.keys.entry(k).or_insert(0) -= n as i64; } None => {} Some(n) => return Err(format!("thread {}: {n} rows have the unique key {k}", self.id)) }
            }
            5 => {
                let (rows, _, _) = self.rows(None, "SELECT k, COUNT(*) FROM uniq GROUP BY k HAVING COUNT(*) > 1")?;
                if !rows.is_empty() { return Err(format!("thread {}: keys that must be unique are there several times: {rows:?}", self.id)); }
                let (rows, _, _) = self.rows(None, &format!("SELECT * FROM uniq WHERE k = {k}"))?;
                if rows.len() > 1 || rows.iter().any(|r| int(&r[0]) != k) { return Err(format!("thread {}: looking up key {k} gives {rows:?}", self.id)); }
            }
            _ => {
                let (mut s, _, _) = self.begin()?;
                let mut d: Vec<(i64, i64)> = Vec::new();
                for _ in 0..1 + self.r.us(3) {
                    let k = self.r.below(12) as i64;
                    self.seq += 1;
                    let (n, sign) = if self.r.chance(2, 3) { self.o.tried.insert(k); (self.write(Some(&mut s), &format!("INSERT INTO uniq VALUES ({k}, {}, {})", self.id, self.seq), true)?.0, 1) } else { (self.write(Some(&mut s), &format!("DELETE FROM uniq WHERE k = {k}"), false)?.0, -1) };
                    match n { Some(n @ 0..=1) => d.push((k, sign * n as i64)), None => self.add("key_refusals", 1), Some(n) => return Err(format!("thread {}: {n} rows have the unique key {k}", self.id)) }
                }
                if self.r.chance(1, 4) { self.forget(s); return Ok(()); }
                if self.commit(s)?.0 { for (k, n) in d { *self.o.keys.entry(k).or_insert(0) += n; if n > 0 { self.add("key_wins", 1); } } }
            }
        }
        Ok(())
    }
    // ---- groups of rows
    fn groups(&mut self, size: i64) -> Step<()> {
        match self.r.us(7) {
            0 | 1 => {
                let g = self.id as i64 * 1000 + self.seq as i64 + 1;
                self.seq += 1;
                let pad = "p".repeat(*self.r.pick(&[3, 30, 200, 900]));
                let rows = |a: i64, b: i64| (a..b).map(|i| format!("({g}, {i}, 0, '{pad}')")).collect::<Vec<_>>().join(", ");
                if self.r.bool() {
                    let (n, _, _) = self.write(None, &format!("INSERT INTO grp VALUES {}", rows(0, size)), false)?;
                    if n.is_some_and(|n| n as i64 != size) { return Err(format!("thread {}: inserting {size} rows counts {n:?}", self.id)); }
                    if n.is_some() { self.o.groups.push((g, size)); self.add("acknowledged_commits", 1); }
                } else {
                    let (mut s, _, _) = self.begin()?;
                    let h = size / 2;
                    for (a, b) in [(0, h), (h, size)] { if self.write(Some(&mut s), &format!("INSERT INTO grp VALUES {}", rows(a, b)), false)?.0.is_none() { self.forget(s); return Ok(()); } }
                    if self.r.chance(1, 5) { self.forget(s); return Ok(()); }
                    if self.commit(s)?.0 { self.o.groups.push((g, size)); }
                }
            }
            2 => {
                // somebody's group goes, or is changed, as a whole
                let (rows, _, _) = self.rows(None, "SELECT DISTINCT b FROM grp")?;
                if rows.is_empty() { return Ok(()); }
                let g = int(&rows[self.r.us(rows.len())][0]);
                let del = self.r.chance(1, 3);
                let sql = if del { format!("DELETE FROM grp WHERE b = {g}") } else { format!("UPDATE grp SET w = w + 1 WHERE b = {g}") };
                let (n, _, _) = self.write(None, &sql, false)?;
                match n { Some(0) | None => {} Some(n) if n as i64 == size => { if del { self.o.gone.push(g) } else { self.o.bumped.push(g) } self.add("acknowledged_commits", 1); } Some(n) => return Err(format!("thread {}: {sql}\nfinds {n} rows of a group of {size} written at once", self.id)) }
            }
            n => {
                let sql = if n % 2 == 0 { "SELECT b, COUNT(*), MIN(w), MAX(w), COUNT(DISTINCT i) FROM grp GROUP BY b" } else { "SELECT b, COUNT(*), MIN(w), MAX(w), COUNT(DISTINCT i) FROM grp WHERE i >= 0 GROUP BY b ORDER BY b" };
                let (rows, _, _) = self.rows(None, sql)?;
                for r in &rows { if int(&r[1]) != size || int(&r[4]) != size || int(&r[2]) != int(&r[3]) { return Err(format!("thread {}: group {} shows {} rows ({} different) of {size}, changed between {} and {} times, although it is always written as a whole", self.id, int(&r[0]), int(&r[1]), int(&r[4]), int(&r[2]), int(&r[3]))); } }
                self.add("groups_seen", rows.len() as u64);
            }
        }
        Ok(())
    }
    // ---- a table nobody else uses
    fn own(&mut self) -> Step<()> {
        self.add("private_statements", 1);
        let me = self.id;
        let Some(mut t) = self.o.own.take() else {
            let name = format!("own{me}");
            let ix = self.r.bool();
            self.strict(&format!("CREATE TABLE {name} (id INT, v TEXT, n INT{})", if ix { ", PRIMARY KEY (id)" } else { "" }), true)?;
            if !ix && self.r.bool() { self.strict(&format!("CREATE UNIQUE INDEX ix_{name} ON {name}(id)"), true)?; }
            self.add("private_ddl", 1);
            self.o.own = Some(Own { name, cols: vec!["id", "v", "n"], rows: BTreeMap::new() });
            return Ok(());
        };
        let name = t.name.clone();
        let small = self.r.range(0, 40);
        match self.r.us(14) {
            0..=3 => {
                let pad = *self.r.pick(&[1, 5, 40, 600]);
                let mut vals = Vec::new();
                for _ in 0..1 + self.r.us(8) {
                    let id = self.r.range(0, 60);
                    if t.rows.contains_key(&id) { continue; }
                    let mut row = vec![V::Int(id as i32), V::T(format!("r{id}{}", "v".repeat(pad)).into_bytes()), if self.r.chance(1, 6) { V::Null } else { V::Int(self.r.range(-9, 9) as i32) }];
                    for _ in 3..t.cols.len() { row.push(V::Int(self.r.range(0, 99) as i32)); }
                    vals.push(format!("({})", row.iter().map(crate::expr::lit).collect::<Vec<_>>().join(", ")));
                    t.rows.insert(id, row);
                }
                if !vals.is_empty() { let n = vals.len(); self.counted(&format!("INSERT INTO {name} VALUES {}", vals.join(", ")), n)?; }
            }
            4 | 5 => {
                let d = self.r.range(1, 5);
                let hit: Vec<i64> = t.rows.iter().filter(|(k, _)| **k >= small).map(|x| *x.0).collect();
                self.counted(&format!("UPDATE {name} SET n = n + {d}, v = v || 'u' WHERE id >= {small}"), hit.len())?;
                for k in hit { let r = t.rows.get_mut(&k).unwrap(); if let V::Int(n) = r[2] { r[2] = V::Int(n + d as i32); } if let V::T(b) = &mut r[1] { b.push(b'u'); } }
            }
            6 => {
                let hit: Vec<i64> = t.rows.keys().filter(|k| **k % 5 == small % 5).copied().collect();
                self.counted(&format!("DELETE FROM {name} WHERE id % 5 = {}", small % 5), hit.len())?;
                for k in hit { t.rows.remove(&k); }
            }
            7 => {
                // changes that are taken back
                let (mut s, _, _) = self.begin()?;
                for sql in [format!("UPDATE {name} SET v = 'gone'"), format!("DELETE FROM {name} WHERE id < {small}"), format!("INSERT INTO {name} (id, v) VALUES (777, 'x')")] {
                    let (res, _, _) = self.run(Some(&mut s), &sql)?;
                    if let Err(e) = res { return Err(format!("thread {me}: {sql}\nfails although nobody else uses the table: {e}")); }
                }
                self.forget(s);
            }
            8 => {
                let (mut s, _, _) = self.begin()?;
                let sql = format!("UPDATE {name} SET n = 0 WHERE n > 100 OR id = {small}");
                let (res, _, _) = self.run(Some(&mut s), &sql)?;
                if let Err(e) = res { return Err(format!("thread {me}: {sql}\nfails although nobody else uses the table: {e}")); }
                if !self.commit(s)?.0 { return Err(format!("thread {me}: the commit of changes of a table nobody else uses is refused")); }
                for (k, r) in t.rows.iter_mut() { if matches!(r[2], V::Int(n) if n > 100) || *k == small { r[2] = V::Int(0); } }
            }
            9 => {
                self.add("private_ddl", 1);
                if t.cols.len() == 3 { if self.strict(&format!("ALTER TABLE {name} ADD COLUMN x INT DEFAULT 7"), true)? { t.cols.push("x"); for r in t.rows.values_mut() { r.push(V::Int(7)); } } }
                else if self.strict(&format!("ALTER TABLE {name} DROP COLUMN x"), true)? { t.cols.pop(); for r in t.rows.values_mut() { r.pop(); } }
            }
            10 => {
                self.add("private_ddl", 1);
                if self.strict(&format!("DROP TABLE {name}"), true)? { return Ok(()); }
            }
            11 => {
                let (rows, _, _) = self.rows(None, &format!("SELECT * FROM {name} WHERE id = {small}"))?;
                let want: Vec<Vec<V>> = t.rows.get(&small).into_iter().cloned().collect();
                if let Err(m) = same_rows(rows, want) { return Err(format!("thread {me}: its own table, key {small}: {m}")); }
            }
            _ => {
                let (rows, _, _) = self.rows(None, &format!("SELECT * FROM {name}"))?;
                if let Err(m) = same_rows(rows, t.rows.values().cloned().collect()) { return Err(format!("thread {me}: its own table: {m}")); }
            }
        }
        self.o.own = Some(t);
        Ok(())
    }
    /// A statement only statistics being stored may get in the way of. True when it was done.
    fn strict(&mut self, sql: &str, ddl: bool) -> Step<bool> {
        for _ in 0..40 {
            let (res, _, _) = self.run(None, sql)?;
            match res {
                Ok(_) => return Ok(true),
                Err(e) if ddl && conflict(&e) && self.sh.analyzing => std::thread::sleep(Duration::from_millis(1)),
                Err(e) => return Err(format!("thread {}: {sql}\nfails although nobody else uses the table: {e}", self.id)),
            }
        }
        Err(format!("thread {}: {sql}\nis refused again and again although nobody else uses the table", self.id))
    }
    fn counted(&mut self, sql: &str, n: usize) -> Step<()> {
        let (res, _, _) = self.run(None, sql)?;
        match res { Ok(Got::Count(m)) if m as usize == n => Ok(()), Ok(g) => Err(format!("thread {}: {sql}\ngives {g:?}, should count {n}", self.id)), Err(e) => Err(format!("thread {}: {sql}\nfails although nobody else uses the table: {e}", self.id)) }
    }
    // ---- definitions several threads want to change
    fn ddl(&mut self) -> Step<()> {
        let k = self.r.below(3) as i64;
        match self.r.us(6) {
            0 | 1 => { let (res, _, _) = self.run(None, &format!("CREATE TABLE d{k} (a INT, b TEXT)"))?; if res.is_ok() { self.o.creates.push((k, 1)); self.add("shared_creates", 1); } }
            2 => { let (res, _, _) = self.run(None, &format!("DROP TABLE d{k}"))?; if res.is_ok() { self.o.creates.push((k, -1)); } }
            3 => {
                let (mut s, _, _) = self.begin()?;
                let (res, _, _) = self.run(Some(&mut s), &format!("CREATE TABLE d{k} (a INT, b TEXT)"))?;
                let made = res.is_ok();
                if made { let (n, _, _) = self.write(Some(&mut s), &format!("INSERT INTO d{k} VALUES (1, 'x')"), false)?; if n.is_none() { return Err(format!("thread {}: cannot write to the table it made", self.id)); } }
                if self.r.bool() { self.forget(s); } else if self.commit(s)?.0 && made { self.o.creates.push((k, 1)); self.add("shared_creates", 1); }
            }
            4 => { let _ = self.run(None, &format!("INSERT INTO d{k} VALUES ({}, 'y')", self.id))?; }
            _ => { let _ = self.run(None, &format!("SELECT a, b FROM d{k}"))?; }
        }
        Ok(())
    }
    // ---- reading more pages than the cache holds
    fn big(&mut self) -> Step<()> {
        let n = self.sh.big.len() as i64;
        self.add("big_reads", 1);
        if n == 0 { return Ok(()); }
        let (a, b) = { let a = self.r.range(0, n - 1); (a, self.r.range(a, n - 1)) };
        let sh = self.sh.clone();
        let part = |a: i64, b: i64| (b - a + 1, sh.big[a as usize..=b as usize].iter().sum::<i64>());
        let (sql, want) = match self.r.us(4) {
            0 => ("SELECT COUNT(*), SUM(LENGTH(v)) FROM big".to_string(), part(0, n - 1)),
            1 => (format!("SELECT COUNT(*), SUM(LENGTH(v)) FROM big WHERE k >= {a} AND k <= {b}"), part(a, b)),
            2 => (format!("SELECT COUNT(*), SUM(LENGTH(v)) FROM big WHERE k = {a}"), part(a, a)),
            _ => (format!("SELECT COUNT(*), SUM(LENGTH(x.v)) FROM big x JOIN big y ON x.k = y.k WHERE y.k BETWEEN {a} AND {}", b.min(a + 20)), part(a, b.min(a + 20))),
        };
        let (rows, _, _) = self.rows(None, &sql)?;
        let sum = match &rows[0][1] { V::F64(f) => *f as i64, v => int(v) };
        if (int(&rows[0][0]), sum) != want { return Err(format!("thread {}: {sql}\ngives {:?}, should be {want:?}", self.id, rows[0])); }
        if self.r.chance(1, 3) {
            let (rows, _, _) = self.rows(None, &format!("SELECT k, v FROM big WHERE k >= {a} AND k < {}", a + 5))?;
            for r in &rows { let k = int(&r[0]); if !matches!(&r[1], V::T(t) if *t == big_text(k as usize, sh.big[k as usize]).as_bytes()) { return Err(format!("thread {}: row {k} of the big table has other contents", self.id)); } }
            if rows.len() as i64 != 5.min(n - a) { return Err(format!("thread {}: {} rows of the big table from {a} on", self.id, rows.len())); }
        }
        Ok(())
    }
    fn upkeep(&mut self) -> Step<()> {
        self.add("maintenance", 1);
        let k = if self.sh.tight { 1 + self.r.us(3) } else { self.r.us(if self.sh.analyzing { 5 } else { 4 }) };
        let what = ["VACUUM", "flush", "sync", "explain", "ANALYZE"][k];
        self.gap();
        let rate = *self.r.pick(&[1.0, 0.3]);
        let (res, _, _) = self.busy(what, |w| match k {
            0 => w.db.vacuum().map(|_| ()).map_err(|e| e.to_string()),
            1 => w.db.flush().map_err(|e| e.to_string()),
            2 => w.db.sync().map_err(|e| e.to_string()),
            3 => w.db.explain("SELECT r.id FROM reg r JOIN acct a ON r.id = a.id WHERE a.bal > 3").map(|_| ()).map_err(|e| e.to_string()),
            _ => w.db.analyze(rate, 1000).map_err(|e| e.to_string()),
        });
        match res { Err(e) if k == 4 && conflict(&e) => { self.add("conflicts", 1); Ok(()) } Err(e) => Err(format!("thread {}: {what} fails: {e}", self.id)), Ok(()) => Ok(()) }
    }
    fn go(&mut self, steps: usize, size: i64) -> Step<()> {
        let w = self.sh.w;
        for _ in 0..steps {
            if self.sh.stop.load(SeqCst) { break; }
            let all = [w.list, w.bank, w.keys, w.groups, w.own, w.ddl, w.big, w.upkeep];
            let mut x = self.r.below(all.iter().sum());
            let mut i = 0;
            while x >= all[i] { x -= all[i]; i += 1; }
            match i { 0 => self.list()?, 1 => self.bank()?, 2 => self.keys()?, 3 => self.groups(size)?, 4 => self.own()?, 5 => self.ddl()?, 6 => self.big()?, _ => self.upkeep()? }
        }
        Ok(())
    }
}

/// What every snapshot and the end say about the lists.
fn judge_lists(ctx: &mut Ctx, outs: &[Out], fin: &BTreeMap<i64, Vec<String>>) -> CaseResult {
    let mut place: HashMap<(i64, &str), usize> = HashMap::new();
    for (k, l) in fin { for (i, t) in l.iter().enumerate() { if place.insert((*k, t), i).is_some() { viol!("list {k} has {t} twice: {l:?}"); } } }
    let all: Vec<&Append> = outs.iter().flat_map(|o| &o.appends).collect();
    let mut known: BTreeSet<(i64, &str)> = BTreeSet::new();
    for a in &all {
        for (k, t) in &a.tokens {
            known.insert((*k, t));
            match (a.ok, place.get(&(*k, t.as_str()))) {
                (true, None) => viol!("thread {}'s acknowledged append of {t} to list {k} is lost: {:?}", a.who, fin[k]),
                (false, Some(_)) => viol!("thread {}'s append of {t} to list {k} did not commit but is there", a.who),
                _ => {}
            }
        }
        // nobody came between what the transaction read and what it wrote
        if let (true, Some(seen)) = (a.ok, &a.seen) {
            let mut before = seen.clone();
            for (k, t) in &a.tokens { let p = place[&(*k, t.as_str())]; let n = before.get_mut(k).unwrap(); if *n != p { viol!("thread {} appended {t} to list {k} having read its first {n} entries, but it is entry {p}: {:?}", a.who, fin[k]); } *n += 1; }
        }
    }
    if let Some(x) = place.keys().find(|x| !known.contains(*x)) { viol!("list {} has {}, which nobody appended", x.0, x.1); }
    let mut chain: Vec<(Vec<usize>, usize)> = Vec::new();
    for s in outs.iter().flat_map(|o| &o.snaps) {
        if s.lists.len() != fin.len() { viol!("thread {} sees {} lists of {}", s.who, s.lists.len(), fin.len()); }
        let mut lens = Vec::new();
        for (k, l) in &s.lists {
            let own: Vec<&String> = s.own.iter().filter(|o| o.0 == *k).map(|o| &o.1).collect();
            let n = l.len().checked_sub(own.len()).filter(|n| l[*n..].iter().eq(own.iter().copied()));
            let Some(n) = n else { viol!("thread {} does not see its own appends to list {k} ({own:?}): {l:?}", s.who) };
            if n > fin[k].len() || l[..n] != fin[k][..n] { viol!("thread {} read list {k} as {l:?}, which is no beginning of its final contents {:?}", s.who, fin[k]); }
            lens.push(n);
        }
        for a in all.iter().filter(|a| a.ok && !a.tokens.is_empty()) {
            let mut seen = 0;
            for (k, t) in &a.tokens { if place[&(*k, t.as_str())] < lens[s.lists.keys().position(|x| x == k).unwrap()] { seen += 1; } }
            if seen != 0 && seen != a.tokens.len() { viol!("thread {} sees {seen} of the {} appends of one transaction of thread {}: {:?}", s.who, a.tokens.len(), a.who, a.tokens); }
            if seen == 0 && a.end < s.from { viol!("thread {}'s snapshot, taken at {}..{}, misses the appends {:?} acknowledged at {}", s.who, s.from, s.to, a.tokens, a.end); }
            if seen > 0 && a.start > s.to { viol!("thread {}'s snapshot, taken at {}..{}, has the appends {:?} committed only from {} on", s.who, s.from, s.to, a.tokens, a.start); }
        }
        chain.push((lens, s.who));
        ctx.count("list_snapshots", 1);
    }
    chain.sort_by_key(|c| c.0.iter().sum::<usize>());
    for w in chain.windows(2) {
        if w[0].0.iter().zip(&w[1].0).any(|(a, b)| a > b) { viol!("threads {} and {} saw the commits in different orders: lists of {:?} and of {:?} entries", w[0].1, w[1].1, w[0].0, w[1].0); }
        if w[0].0 != w[1].0 { ctx.count("chained_snapshots", 1); }
    }
    Ok(())
}

fn ask(db: &Database, sql: &str) -> Result<Vec<Vec<V>>, Fail> { match exec(db, sql) { Ok(Got::Rows(_, r)) => Ok(r), x => violation(format!("after the threads: {sql} gives {x:?}")) } }

fn judge(ctx: &mut Ctx, db: &Database, outs: &[Out], size: i64) -> CaseResult {
    let fin = Worker::lists(ask(db, "SELECT id, v FROM reg")?);
    judge_lists(ctx, outs, &fin)?;
    let mut bal: BTreeMap<i64, i64> = (0..6).map(|i| (i, 1000)).collect();
    for (a, d) in outs.iter().flat_map(|o| &o.deltas) { *bal.get_mut(a).unwrap() += d; }
    let got: BTreeMap<i64, i64> = ask(db, "SELECT id, bal FROM acct")?.iter().map(|r| (int(&r[0]), int(&r[1]))).collect();
    if got != bal { viol!("balances are {got:?}, the acknowledged transfers make {bal:?}"); }
    let mut keys: BTreeMap<i64, i64> = BTreeMap::new();
    for (k, n) in outs.iter().flat_map(|o| &o.keys) { *keys.entry(*k).or_insert(0) += n; }
    let rows = ask(db, "SELECT k FROM uniq")?;
    let mut there: BTreeMap<i64, i64> = BTreeMap::new();
    for r in &rows { *there.entry(int(&r[0])).or_insert(0) += 1; }
    for k in 0..30 {
        let (a, b) = (keys.get(&k).copied().unwrap_or(0), there.get(&k).copied().unwrap_or(0));
        if a != b { viol!("key {k} is there {b} times, the acknowledged inserts and deletes make {a}"); }
        if b > 1 { viol!("unique key {k} is there {b} times"); }
        let found = ask(db, &format!("SELECT k FROM uniq WHERE k = {k}"))?.len() as i64;
        if found != b { viol!("looking up key {k} finds {found} rows of {b}"); }
    }
    let mut groups: BTreeMap<i64, i64> = outs.iter().flat_map(|o| &o.groups).map(|g| (g.0, 0)).collect();
    for g in outs.iter().flat_map(|o| &o.bumped) { match groups.get_mut(g) { Some(n) => *n += 1, None => viol!("group {g} was changed but never acknowledged") } }
    for g in outs.iter().flat_map(|o| &o.gone) { if groups.remove(g).is_none() { viol!("group {g} was deleted twice, or never written"); } }
    let got: BTreeMap<i64, (i64, i64, i64)> = ask(db, "SELECT b, COUNT(*), MIN(w), MAX(w) FROM grp GROUP BY b")?.iter().map(|r| (int(&r[0]), (int(&r[1]), int(&r[2]), int(&r[3])))).collect();
    let want: BTreeMap<i64, (i64, i64, i64)> = groups.iter().map(|(g, n)| (*g, (size, *n, *n))).collect();
    if got != want { viol!("groups (rows, fewest and most changes) are {got:?}, the acknowledged statements make {want:?}"); }
    for t in outs.iter().filter_map(|o| o.own.as_ref()) {
        if let Err(m) = same_rows(ask(db, &format!("SELECT * FROM {}", t.name))?, t.rows.values().cloned().collect()) { viol!("table {}: {m}", t.name); }
    }
    for k in 0..3 {
        let n: i64 = outs.iter().flat_map(|o| &o.creates).filter(|c| c.0 == k).map(|c| c.1).sum();
        let there = exec(db, &format!("SELECT * FROM d{k}")).is_ok();
        if n != there as i64 { viol!("table d{k} is {}there, but acknowledged creations less removals make {n}", if there { "" } else { "not " }); }
    }
    Ok(())
}

fn c14(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let n = 2 + r.us(7);
    let cfg = Cfg { page: *r.pick(&[4096, 4096, 8192]), cache: *r.pick(&[120, 200, 300, 400, 1000, 4000]), pool: 1 + r.us(4), minkeys: 3, sib: 2 };
    let base = Weights { list: 5, bank: 4, keys: 4, groups: 4, own: 5, ddl: 2, upkeep: 2, big: 1, gap: *r.pick(&[0, 2, 6]) };
    let w = match r.us(10) { 9 => Weights { big: 60, ..base }, 0 => Weights { list: 60, ..base }, 1 => Weights { bank: 60, ..base }, 2 => Weights { keys: 60, ..base }, 3 => Weights { groups: 60, ..base }, 4 => Weights { own: 60, ..base }, 5 => Weights { ddl: 30, own: 30, ..base }, 6 => Weights { upkeep: 12, ..base }, _ => base };
    // a cache that small has no room for many uncommitted pages
    let w = if cfg.cache < 300 { Weights { list: 3, bank: 3, keys: 1, groups: 0, own: 0, ddl: 0, upkeep: 1, big: 40, ..base } } else { w };
    let lists = 2 + r.us(3);
    let size = *r.pick(&[4, 10, 20]);
    let (one_in, micros) = *r.pick(&[(0, 0), (300, 50), (100, 20), (40, 0), (40, 100), (15, 30), (8, 0), (1000, 1500)]);
    let steps = *r.pick(&[8, 15, 25]);
    let big: Vec<i64> = if w.big > 1 || r.chance(1, 8) { (0..60 + r.us(200)).map(|_| *r.pick(&[8, 300, 1200, 1200, 3000, 9000])).collect() } else { vec![] };
    let analyzing = r.bool();
    let mut d = Drv::new(ctx, cfg)?;
    ctx.note(format!("{n} threads, {steps} steps each, weights {w:?}, {lists} lists, groups of {size}, pauses one in {one_in} up to {micros} us, analyze {analyzing}"));
    let setup = ["CREATE TABLE reg (id INT, v TEXT, PRIMARY KEY (id))".to_string(), format!("INSERT INTO reg VALUES {}", (0..lists).map(|i| format!("({i}, '')")).collect::<Vec<_>>().join(", ")),
        "CREATE TABLE acct (id INT, bal BIGINT, PRIMARY KEY (id))".into(), format!("INSERT INTO acct VALUES {}", (0..6).map(|i| format!("({i}, 1000)")).collect::<Vec<_>>().join(", ")),
        "CREATE TABLE uniq (k INT, who INT, s INT, PRIMARY KEY (k))".into(), "CREATE TABLE grp (b INT, i INT, w INT, pad TEXT)".into()];
    for s in &setup { if let Err(e) = exec(d.db(), s) { viol!("{s}: {e}"); } }
    if !big.is_empty() {
        if let Err(e) = exec(d.db(), "CREATE TABLE big (k INT, v TEXT, PRIMARY KEY (k))") { viol!("CREATE TABLE big: {e}"); }
        let all: Vec<usize> = (0..big.len()).collect();
        for part in all.chunks(12) { let sql = format!("INSERT INTO big VALUES {}", part.iter().map(|k| format!("({k}, '{}')", big_text(*k, big[*k]))).collect::<Vec<_>>().join(", ")); if let Err(e) = exec(d.db(), &sql) { viol!("filling the big table: {e}"); } }
        d.flush(ctx)?;
    }
    let db = Arc::new(d.db.take().unwrap());
    let sh = Arc::new(Shared { clock: AtomicU64::new(1), stop: AtomicBool::new(false), running: AtomicU64::new(0), most: AtomicU64::new(0), slowest: AtomicU64::new(0), now: (0..n).map(|_| Mutex::new(None)).collect(), big, appends: (0..lists).map(|_| AtomicU64::new(0)).collect(), analyzing, tight: cfg.cache < 300, w });
    pause::take();
    pause::set(r.u64(), one_in, micros);
    let (tx, rx) = mpsc::channel();
    let start = Arc::new(Barrier::new(n));
    let mut handles = Vec::new();
    for id in 0..n {
        let (db, sh, tx, start, rng) = (db.clone(), sh.clone(), tx.clone(), start.clone(), r.fork());
        handles.push(std::thread::spawn(move || {
            start.wait();
            let mut w = Worker { id, db, r: rng, sh, o: Out::default(), seq: 0 };
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.go(steps, size)));
            let bad = match &res { Ok(Ok(())) => None, Ok(Err(e)) => Some(e.clone()), Err(_) => Some(format!("thread {id} panics")) };
            if bad.is_some() { w.sh.stop.store(true, SeqCst); }
            let o = std::mem::take(&mut w.o);
            drop(w);
            let _ = tx.send((id, o, bad));
        }));
    }
    drop(tx);
    let mut outs: Vec<(usize, Out, Option<String>)> = Vec::new();
    let mut stuck = None;
    while outs.len() < n {
        match rx.recv_timeout(Duration::from_millis(100)) {
            Ok(x) => outs.push(x),
            Err(mpsc::RecvTimeoutError::Timeout) => {
                let now: Vec<(usize, Duration, String)> = sh.now.iter().enumerate().filter_map(|(i, m)| m.lock().unwrap().as_ref().map(|(t, s)| (i, t.elapsed(), s.clone()))).collect();
                if now.iter().any(|x| x.1 > Duration::from_secs(STUCK_S)) { stuck = Some(now.iter().map(|(i, t, s)| format!("thread {i}: {s}: running for {:.1} s", t.as_secs_f64())).collect::<Vec<_>>().join("\n")); break; }
            }
            Err(_) => break,
        }
    }
    pause::set(0, 0, 0);
    let (visits, pauses) = pause::take();
    outs.sort_by_key(|o| o.0);
    let mut log: Vec<&(u64, String)> = outs.iter().flat_map(|o| &o.1.log).collect();
    log.sort_by_key(|l| l.0);
    let log: Vec<String> = log.into_iter().map(|l| l.1.clone()).collect();
    // the order the threads took turns in identifies the schedule
    for l in &log { ctx.mix(l); }
    if ctx.verbose { for l in &log { eprintln!("{l}"); } }
    ctx.log.extend(log);
    ctx.count("threads", n as u64);
    ctx.count("pause_points_visited", visits);
    ctx.count("pauses", pauses);
    ctx.max("statements_at_once", sh.most.load(SeqCst));
    ctx.max("statement_ms", sh.slowest.load(SeqCst));
    for (_, o, _) in &outs { for (k, v) in &o.count { ctx.count(k, *v); } }
    if let Some(s) = stuck { std::mem::forget(db); viol!("statements do not return:\n{s}"); }
    if let Some(b) = outs.iter().find_map(|o| o.2.clone()) { viol!("{b}"); }
    for h in handles { let _ = h.join(); }
    let outs: Vec<Out> = outs.into_iter().map(|o| o.1).collect();
    judge(ctx, &db, &outs, size)?;
    // every worker still serves
    for i in 0..cfg.pool + 1 { if let Err(e) = exec(&db, "SELECT COUNT(*) FROM reg") { viol!("statement {i} after the threads fails: {e}"); } }
    let Ok(db) = Arc::try_unwrap(db) else { return inconclusive("somebody still holds the database") };
    d.db = Some(db);
    if cfg.cache < 300 { let c = Cfg { cache: 4000, ..cfg }; d.reopen(ctx, c)?; }
    if r.chance(1, 4) { let c = d.cfg; d.killed(ctx, c)?; judge(ctx, d.db(), &outs, size)?; }
    d.vacuum(ctx)?;
    judge(ctx, d.db(), &outs, size)?;
    d.audit(ctx)?;
    ctx.count("final_audits", 1);
    if r.chance(1, 3) { let c = d.cfg; d.reopen(ctx, c)?; judge(ctx, d.db(), &outs, size)?; ctx.count("final_reopens", 1); }
    ctx.nontrivial = ctx.counters.get("overlapping_statements").copied().unwrap_or(0) > 2;
    ctx.sample = Some(ctx.log.iter().take(14).cloned().collect::<Vec<_>>().join("\n"));
    Ok(())
}
