//! Crashes at any point of histories: C01, C02, C08.
use crate::drv::*;
use crate::model::*;
use crate::rng::Rng;
use crate::run::*;
use crate::tapes::{self, Ev, Image};
use crate::val::*;
use crate::viol;
use axmosdb::Database;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

#[derive(Clone, Copy, PartialEq)]
enum M { C01, C02, C08 }

pub static C01: Check = Check {
    id: "C01", level: "exploration",
    rule: "random histories (autocommit, batches, up to 6 sessions, large rows, small caches, DDL, mostly without any flush) on a recorded file layer; the folder is rebuilt as a crash after any single write would leave it (weighted to just after and between acknowledgements, checkpoints, VACUUM and clean closes), reopened with another configuration and compared with the acknowledged state: a missing row, table or effect is a violation. Recovered databases are worked on and crashed again. Some cases kill a real client process with SIGKILL, some use plain copies of the live folder. Non-trivial: acknowledged commits preceded a crash point.",
    quick: 640, thorough: 12_000, hang_s: 150, threads: 8, run: c01, repros: &[],
    must_see: &["crash_points", "crash_after_ack", "commits", "live_copies", "real_kills", "second_life_crashes", "crash_with_sessions", "rows_compared"],
    assumptions: &["a crash is the death of the process: writes that returned stay, in order, each whole"],
};
pub static C02: Check = Check {
    id: "C02", level: "exploration",
    rule: "the histories and crash points of C01, with more rollbacks, failing statements and batches, open sessions, eviction of pages with unfinished changes, flushes and VACUUM beside open sessions: what is found after reopening must be exactly the acknowledged state, or for crash points inside one commit that commit in full; indexes are looked up too. Non-trivial: unfinished or rolled-back work preceded a crash point.",
    quick: 640, thorough: 12_000, hang_s: 150, threads: 8, run: c02, repros: &[],
    must_see: &["crash_points", "crash_in_commit", "crash_with_sessions", "rollbacks", "commits", "second_life_crashes", "key_lookups", "crash_in_flush"],
    assumptions: &["a crash is the death of the process: writes that returned stay, in order, each whole"],
};
pub static C08: Check = Check {
    id: "C08", level: "exploration",
    rule: "crash points in ordinary work, checkpoints (flush), VACUUM, clean close and recovery itself (recovery interrupted after any of its own writes, again and again): opening must succeed, give the same contents however often it was interrupted, pass the page and tree audit, take work, VACUUM and another crash; opening what was recovered or closed cleanly must change neither contents nor size. Non-trivial: recovery was interrupted.",
    quick: 440, thorough: 10_000, hang_s: 150, threads: 8, run: c08, repros: &[],
    must_see: &["crash_points", "crash_in_flush", "crash_in_vacuum", "crash_in_recovery", "clean_opens", "audits", "second_life_crashes", "crash_in_close"],
    assumptions: &["a crash is the death of the process: writes that returned stay, in order, each whole"],
};
fn c01(ctx: &mut Ctx) -> CaseResult { if ctx.idx % 40 == 11 { real_kill(ctx) } else { case(ctx, M::C01) } }
fn c02(ctx: &mut Ctx) -> CaseResult { case(ctx, M::C02) }
fn c08(ctx: &mut Ctx) -> CaseResult { case(ctx, M::C08) }

type Dump = BTreeMap<String, (Vec<String>, Vec<Vec<V>>)>;
fn dump(db: &Database, names: &BTreeSet<String>) -> Result<Dump, String> {
    let mut d = Dump::new();
    for n in names {
        match exec(db, &format!("SELECT * FROM {n}")) {
            Ok(Got::Rows(c, r)) => { d.insert(n.clone(), (c, sorted(r))); }
            Ok(o) => return Err(format!("SELECT from {n} gives {o:?}")),
            Err(e) if internal(&e) || oom(&e) => return Err(format!("SELECT * FROM {n} fails: {e}")),
            Err(_) => {}
        }
    }
    Ok(d)
}
fn show(v: &(Vec<String>, Vec<Vec<V>>)) -> String { format!("{:?} {} rows", v.0, v.1.len()) }
fn same_dump(a: &Dump, b: &Dump) -> Result<(), String> {
    for n in a.keys().chain(b.keys()) {
        match (a.get(n), b.get(n)) {
            (Some(x), Some(y)) => { if x.0 != y.0 { return Err(format!("{n} has columns {:?} and then {:?}", x.0, y.0)); } same_rows(y.1.clone(), x.1.clone()).map_err(|m| format!("{n}: {m}"))?; }
            (x, y) => return Err(format!("{n} is {:?} and then {:?}", x.map(show), y.map(show))),
        }
    }
    Ok(())
}
fn rows_of(s: &State, n: &str) -> Vec<Vec<V>> { s.get(n).map(|t| t.rows.values().map(|r| (**r).clone()).collect()).unwrap_or_default() }
fn fits(d: &Dump, s: &State) -> Result<(), String> {
    for (n, t) in s {
        let Some((cols, rows)) = d.get(n) else { return Err(format!("table {n} ({} rows) is missing", t.rows.len())) };
        if *cols != t.names() { return Err(format!("table {n} has columns {cols:?} instead of {:?}", t.names())); }
        same_rows(rows.clone(), rows_of(s, n)).map_err(|m| format!("{n}: {m}"))?;
    }
    for n in d.keys() { if !s.contains_key(n) { return Err(format!("table {n} exists but should not")); } }
    Ok(())
}
fn same_defs(a: &State, b: &State) -> bool {
    a.len() == b.len() && a.iter().all(|(n, t)| b.get(n).is_some_and(|o| t.uq == o.uq && t.cols.len() == o.cols.len() && t.cols.iter().zip(&o.cols).all(|(x, y)| x.name == y.name && x.k == y.k && x.notnull == y.notnull && match (&x.default, &y.default) { (None, None) => true, (Some(p), Some(q)) => p.same(q), _ => false })))
}
/// Whether something acknowledged is missing (and not only something added that nobody had acknowledged).
fn loses(d: &Dump, acked: &State, next: Option<&State>, past: &[&State]) -> bool {
    let count = |rows: &[Vec<V>]| { let mut m: BTreeMap<String, i64> = BTreeMap::new(); for r in rows { *m.entry(show_row(r)).or_insert(0) += 1; } m };
    for (n, t) in acked {
        let after = next.map(|s| s.get(n));
        if after.is_some_and(|a| a.is_none()) && !d.contains_key(n) { continue; }
        let Some((cols, rows)) = d.get(n) else { return true };
        if *cols != t.names() && !after.flatten().is_some_and(|a| a.names() == *cols) { return true; }
        let have = count(rows);
        let want = count(&rows_of(acked, n));
        let also = next.map(|s| count(&rows_of(s, n)));
        for (k, c) in &want { let due = (*c).min(also.as_ref().map_or(*c, |m| m.get(k).copied().unwrap_or(0))); if have.get(k).copied().unwrap_or(0) < due { return true; } }
        for (k, c) in &have { if *c > want.get(k).copied().unwrap_or(0).max(also.as_ref().map_or(0, |m| m.get(k).copied().unwrap_or(0))) && past.iter().any(|s| rows_of(s, n).iter().any(|r| show_row(r) == *k)) { return true; } }
    }
    d.keys().any(|n| !acked.contains_key(n) && !next.is_some_and(|s| s.contains_key(n)) && past.iter().any(|s| s.contains_key(n)))
}

struct Life { dir: PathBuf, base: Image, tape: Vec<Ev>, marks: Vec<Mark>, hot: Vec<(usize, usize, &'static str)>, copies: Vec<(Image, State)>, sessions: Vec<usize>, first: usize, names: BTreeSet<String>, faithful: bool }

/// Works on a database that is being recorded and closes it in the end.
fn live(ctx: &mut Ctx, r: &mut Rng, d: &mut Drv, p: &Prof, m: M, base: Image, first: usize, mut hot: Vec<(usize, usize, &'static str)>, steps: usize, dir: PathBuf) -> Result<Life, Fail> {
    let mut copies = Vec::new();
    let mut sessions = Vec::new();
    let max = match r.us(4) { 0 => 0, 1 => 1, 2 => 3, _ => 6 };
    let quiet = m == M::C01 && r.chance(2, 3);
    let mut p = p.clone();
    let at = if big(r, 14) { r.us(steps.max(1)) } else { usize::MAX };
    for step in 0..steps {
        if step == at { d.scale(ctx, r, &mut p, &[0, 1, 2, 3, 4, 4])?; }
        d.random(ctx, r, &p, max)?;
        if !d.open().is_empty() { sessions.push(tapes::now()); }
        if !quiet {
            let every = if m == M::C08 { 9 } else { 16 };
            if r.chance(1, every) { let s = tapes::now(); d.flush(ctx)?; hot.push((s, tapes::now(), "flush")); }
            if r.chance(1, every) { let s = tapes::now(); d.vacuum(ctx)?; hot.push((s, tapes::now(), "vacuum")); }
            if r.chance(1, 40) { d.analyze(ctx)?; }
            if r.chance(1, 40) { let s = tapes::now(); let c = other(r, d.cfg); d.reopen(ctx, c)?; hot.push((s, tapes::now(), "close")); }
        }
        if copies.len() < 2 && r.chance(1, 14) { if let Ok(i) = Image::of(&dir) { copies.push((i, d.base.clone())); } }
    }
    if m == M::C02 && r.chance(1, 4) { d.flush(ctx)?; }
    let upto = tapes::now();
    // does the tape tell the whole story?
    let mut img = base.clone();
    for e in &tapes::peek(&dir)[..upto] { img.apply(e); }
    let real = Image::of(&dir).or_else(|e| inconclusive(e.to_string()))?;
    let faithful = match img.differs(&real) { None => true, Some(_) => { ctx.count("unfaithful_tapes", 1); false } };
    if r.chance(1, 3) { for i in d.open() { d.end(ctx, i, End::Drop)?; } }
    for s in d.sess.iter_mut() { *s = None; }
    d.sess.clear();
    let s = tapes::now();
    d.db = None;
    hot.push((s, tapes::now(), "close"));
    let tape = tapes::take(&dir);
    let mut names: BTreeSet<String> = (0..4).map(|k| format!("t{k}")).collect();
    let marks = std::mem::take(&mut d.marks);
    for m in &marks { names.extend(m.state.keys().cloned()); }
    Ok(Life { dir, base, tape, marks, hot, copies, sessions, first, names, faithful })
}
fn other(r: &mut Rng, c: Cfg) -> Cfg { Cfg { page: c.page, minkeys: c.minkeys, sib: c.sib, cache: *r.pick(&[300, 500, 1000, 5000]), pool: 1 + r.us(4) } }

/// Opens what a crash left. Gives the contents and a driver on it when it is one of the states that may be found.
fn recover(ctx: &mut Ctx, r: &mut Rng, m: M, cfg: Cfg, dir: &PathBuf, what: &str, cands: &[&State], past: &[&State], names: &BTreeSet<String>, expect: Option<&Dump>) -> Result<(Database, Dump, Option<State>, Cfg), Fail> {
    let cfg = other(r, cfg);
    let path = dir.join("x.db");
    let db = match Database::open(&path, cfg.db()) { Ok(d) => d, Err(e) => viol!("{what}: opening fails: {e}") };
    // a session that is the first transaction of the new life, and runs while the contents are read
    let first = if r.chance(2, 3) { match db.session() { Ok(s) => { ctx.count("first_sessions", 1); Some(s) } Err(e) => viol!("{what}: no session: {e}") } } else { None };
    let got = match dump(&db, names) { Ok(d) => d, Err(e) => viol!("{what}: the database opens but cannot be read: {e}") };
    drop(first);
    ctx.count("rows_compared", got.values().map(|v| v.1.len() as u64).sum());
    if let Some(x) = expect { if let Err(e) = same_dump(x, &got) { viol!("{what}: recovery gives other contents than when it was not interrupted: {e}"); } }
    let mut err = String::new();
    for (i, s) in cands.iter().enumerate() {
        match fits(&got, s) {
            Ok(()) => {
                // rows do not tell which of two definitions is there
                if cands[i + 1..].iter().any(|o| fits(&got, o).is_ok() && !same_defs(s, o)) { ctx.count("definitions_not_told_apart", 1); return Ok((db, got, None, cfg)); }
                return Ok((db, got, Some((*s).clone()), cfg));
            }
            Err(e) => err += &format!("\n  against the {} state: {e}", if i == 0 { "acknowledged" } else { "in-progress commit's" }),
        }
    }
    match m {
        M::C08 => ctx.count("contents_not_judged", 1),
        M::C01 => if loses(&got, cands[0], cands.get(1).copied(), past) { viol!("{what}: something acknowledged is lost:{err}") } else { ctx.count("contents_not_judged", 1) },
        M::C02 => viol!("{what}: the contents are not those of the acknowledged transactions:{err}"),
    }
    Ok((db, got, None, cfg))
}

fn case(ctx: &mut Ctx, m: M) -> CaseResult {
    tapes::clear();
    let res = case_in(ctx, m);
    tapes::clear();
    res
}
fn case_in(ctx: &mut Ctx, m: M) -> CaseResult {
    let mut r = ctx.rng.fork();
    let dir = ctx.dir().join("m");
    std::fs::create_dir_all(&dir).or_else(|e| inconclusive(e.to_string()))?;
    tapes::record(&dir);
    let mut cfg = Cfg::any(&mut r);
    if r.chance(1, 3) { cfg.cache = *r.pick(&[80, 120, 200]); }
    let mut d = Drv::at(ctx, dir.join("x.db"), cfg)?;
    d.allow_oom = cfg.cache < 48;
    d.clock = Some(tapes::now);
    d.batches = 5;
    let first = tapes::now();
    d.marks.push(Mark { start: 0, end: first, state: State::new() });
    d.ends = match m { M::C01 => vec![End::Commit, End::Commit, End::Commit, End::Drop], _ => vec![End::Commit, End::Commit, End::Drop, End::Abort] };
    let p = match r.us(5) {
        0 => Prof { keydom: 60, big: *r.pick(&[15, 40]), multi: 20, maxrows: 200, w: [3, 1, 1, 1, 1, 40, 4, 22, 14, 2, 1, 2], ..BASE },
        1 => Prof { names: 3, w: [10, 4, 5, 10, 8, 24, 3, 12, 8, 2, 1, 2], ..BASE },
        2 => Prof { names: 2, keydom: 2000, multi: 60, maxrows: 700, big: 5, w: [2, 1, 0, 1, 1, 40, 6, 20, 14, 2, 1, 2], ..BASE },
        3 => Prof { names: 1, keydom: 12, maxrows: 20, multi: 3, w: [2, 1, 1, 2, 1, 24, 2, 40, 18, 2, 1, 1], ..BASE },
        _ => BASE,
    };
    for _ in 0..1 + r.us(3) { let st = draw(&mut r, &d.base, &p, &mut d.names); d.auto(ctx, &st)?; }
    let steps = if r.chance(1, 10) { 120 + r.us(120) } else { 12 + r.us(45) };
    let depth = if r.chance(1, 6) { 3 } else { 1 + r.us(2) };
    let life = live(ctx, &mut r, &mut d, &p, m, Image::default(), first, Vec::new(), steps, dir)?;
    let points = if m == M::C08 { 4 } else { 6 };
    crashes(ctx, &mut r, m, &mut d, &p, life, points, depth)?;
    let g = |k: &str| ctx.counters.get(k).copied().unwrap_or(0);
    ctx.nontrivial = g("crash_points") > 0 && match m { M::C01 => g("crash_after_ack") > 0, M::C02 => g("crash_with_sessions") + g("rollbacks") > 0, M::C08 => g("crash_in_recovery") > 0 };
    ctx.sample = Some(ctx.log.iter().rev().take(14).rev().cloned().collect::<Vec<_>>().join("\n"));
    Ok(())
}

fn crashes(ctx: &mut Ctx, r: &mut Rng, m: M, d: &mut Drv, p: &Prof, life: Life, points: usize, depth: usize) -> CaseResult {
    let n = life.tape.len();
    let second = life.first == 0;
    let mut ks: Vec<usize> = Vec::new();
    if life.faithful {
        for _ in 0..points {
            let k = match r.us(10) {
                0 | 1 => { let mk = r.pick(&life.marks); mk.end }
                2 => { let mk = r.pick(&life.marks); mk.end + r.us(6) }
                3 | 4 if life.marks.len() > 1 => { let mk = &life.marks[1 + r.us(life.marks.len() - 1)]; mk.start + r.us(mk.end - mk.start + 1) }
                5 | 6 | 7 if !life.hot.is_empty() && (m == M::C08 || r.bool()) => { let h = r.pick(&life.hot); h.0 + r.us(h.1 - h.0 + 1) }
                8 => n - r.us((n - life.first).min(12) + 1),
                _ => life.first + r.us(n - life.first + 1),
            };
            ks.push(k.clamp(life.first, n));
        }
        if second && m == M::C08 { let rec = life.hot[0]; ks.push(rec.0 + r.us(rec.1 - rec.0 + 1)); }
        ks.sort();
        ks.dedup();
    }
    let mut img = life.base.clone();
    let mut at = 0;
    let past_all: Vec<&State> = life.marks.iter().map(|x| &x.state).collect();
    for k in ks {
        while at < k { img.apply(&life.tape[at]); at += 1; }
        let i = life.marks.iter().rposition(|x| x.end <= k).unwrap_or(0);
        let mut cands = vec![&life.marks[i].state];
        if let Some(nx) = life.marks.get(i + 1) { if nx.start < k { cands.push(&nx.state); ctx.count("crash_in_commit", 1); } }
        if i > 0 { ctx.count("crash_after_ack", 1); }
        ctx.count("crash_points", 1);
        if second { ctx.count("second_life_crashes", 1); }
        if life.sessions.iter().any(|s| *s >= k.saturating_sub(1) && *s <= k + 3) { ctx.count("crash_with_sessions", 1); }
        for h in &life.hot { if h.0 < k && k < h.1 { ctx.count(&format!("crash_in_{}", h.2), 1); } }
        let what = format!("crash after write {k} of {n} of {} ({} commits acknowledged before)", life.dir.file_name().unwrap().to_string_lossy(), i);
        ctx.note(format!("--- {what}"));
        survive(ctx, r, m, d, p, &img, &what, &cands, &past_all[..i], &life.names, depth)?;
    }
    for (img, state) in &life.copies {
        ctx.count("live_copies", 1);
        ctx.note("--- a copy of the live folder");
        // what came before it, for telling a lost DELETE from a stray row
        let past: Vec<&State> = past_all.iter().copied().filter(|s| !std::ptr::eq(*s, state)).collect();
        let past = if m == M::C01 { Vec::new() } else { past };
        survive(ctx, r, m, d, p, img, "a copy of the live folder", &[state], &past, &life.names, 0)?;
    }
    Ok(())
}

/// Recovers what a crash left, in several ways, and goes on with it.
fn survive(ctx: &mut Ctx, r: &mut Rng, m: M, d: &mut Drv, p: &Prof, img: &Image, what: &str, cands: &[&State], past: &[&State], names: &BTreeSet<String>, depth: usize) -> CaseResult {
    let dir = ctx.dir().join(format!("r{depth}"));
    img.write(&dir).or_else(|e| inconclusive(e.to_string()))?;
    tapes::record(&dir);
    let (db, got, state, cfg) = match recover(ctx, r, m, d.cfg, &dir, what, cands, past, names, None) { Ok(x) => x, Err(e) => { tapes::take(&dir); return Err(e); } };
    let recovered = tapes::now();
    if m == M::C08 || r.chance(1, 5) {
        // interrupt recovery after some of its writes, a few times in a row
        let tape = tapes::peek(&dir);
        let rec = ctx.dir().join(format!("i{depth}"));
        for _ in 0..if m == M::C08 && r.bool() { 2 } else { 1 } {
            let mut im = img.clone();
            let mut evs = tape[..recovered.min(tape.len())].to_vec();
            let times = if r.chance(1, 3) { 3 } else { 1 };
            for t in 0..times {
                if evs.is_empty() { break; }
                let j = r.us(evs.len());
                for e in &evs[..j] { im.apply(e); }
                im.write(&rec).or_else(|e| inconclusive(e.to_string()))?;
                ctx.count("crash_in_recovery", 1);
                let what = format!("{what}, recovery interrupted after {j} of its {} writes (interruption {})", evs.len(), t + 1);
                ctx.note(format!("--- {what}"));
                tapes::record(&rec);
                let st: Vec<&State> = match &state { Some(s) => vec![s], None => cands.to_vec() };
                let res = recover(ctx, r, m, d.cfg, &rec, &what, &st, past, names, if m == M::C08 || state.is_some() && m == M::C02 { Some(&got) } else { None });
                evs = tapes::peek(&rec);
                let res = match res { Ok((x, ..)) => { drop(x); Ok(()) } Err(e) => Err(e) };
                tapes::take(&rec);
                if res.is_err() { tapes::take(&dir); }
                res?;
            }
            let _ = std::fs::remove_dir_all(&rec);
        }
    }
    let path = dir.join("x.db");
    let mut db = Some(db);
    if m == M::C08 && r.chance(1, 2) {
        // opening what was recovered, or closed cleanly, changes nothing
        let mut size = None;
        for k in 0..2 + r.us(3) {
            db = None;
            let x = match Database::open(&path, other(r, cfg).db()) { Ok(x) => x, Err(e) => { tapes::take(&dir); viol!("{what}: opening the recovered database for the {}. time fails: {e}", k + 2) } };
            ctx.count("clean_opens", 1);
            let again = dump(&x, names).or_else(|e| violation(format!("{what}: {e}")))?;
            if let Err(e) = same_dump(&got, &again) { viol!("{what}: opening the recovered database again changes its contents: {e}"); }
            let pages = axmosdb::verif::store::Store::of(&x).header().total_pages;
            if let Some(s) = size { if pages > s { viol!("{what}: opening a cleanly closed database makes it grow from {s} to {pages} pages"); } }
            size = Some(pages);
            db = Some(x);
        }
    }
    let Some(state) = state else { drop(db); tapes::take(&dir); let _ = std::fs::remove_dir_all(&dir); return Ok(()) };
    let mut d2 = Drv::adopt(path, cfg, db.take().unwrap(), state.clone(), d);
    let res = second(ctx, r, m, &mut d2, p, img, recovered, depth, &dir, &state);
    d.ids = d2.ids;
    d.names = d2.names;
    for s in d2.sess.iter_mut() { *s = None; }
    d2.sess.clear();
    d2.db = None;
    tapes::take(&dir);
    if res.is_ok() { let _ = std::fs::remove_dir_all(&dir); }
    res
}
fn second(ctx: &mut Ctx, r: &mut Rng, m: M, d2: &mut Drv, p: &Prof, img: &Image, recovered: usize, depth: usize, dir: &PathBuf, state: &State) -> CaseResult {
    d2.verify(ctx, true)?;
    if m != M::C01 && r.chance(1, 3) || r.chance(1, 6) { d2.vacuum(ctx)?; d2.audit(ctx)?; d2.verify(ctx, true)?; }
    if depth > 0 && r.chance(1, if depth > 1 { 2 } else { 3 }) && ctx.counters.get("crash_points").is_none_or(|n| *n < 25) {
        d2.clock = Some(tapes::now);
        d2.marks.push(Mark { start: 0, end: 0, state: state.clone() });
        let steps = 2 + r.us(12);
        let life = live(ctx, r, d2, p, m, img.clone(), 0, vec![(0, recovered, "recovery")], steps, dir.clone())?;
        return crashes(ctx, r, m, d2, p, life, 2, depth - 1);
    }
    for _ in 0..r.us(8) { d2.random(ctx, r, p, 1)?; }
    for i in d2.open() { d2.end(ctx, i, End::Drop)?; }
    d2.verify(ctx, false)?;
    if r.chance(1, 3) { let c = other(r, d2.cfg); d2.reopen(ctx, c)?; d2.verify(ctx, true)?; }
    Ok(())
}

/// A client process is killed by the kernel; what it was told is committed must be there.
fn real_kill(ctx: &mut Ctx) -> CaseResult {
    use std::io::{BufRead, BufReader};
    let mut r = ctx.rng.fork();
    let dir = ctx.dir().join("k");
    std::fs::create_dir_all(&dir).or_else(|e| inconclusive(e.to_string()))?;
    let mut sure: i64 = 0;
    for round in 0..3 {
        let mut ch = std::process::Command::new(std::env::current_exe().unwrap()).args(["victim", &dir.display().to_string(), &sure.to_string(), &r.below(4).to_string()])
            .stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().or_else(|e| inconclusive(e.to_string()))?;
        let out = BufReader::new(ch.stdout.take().unwrap());
        let stop = 1 + r.us(40);
        let mut said: Vec<String> = Vec::new();
        for l in out.lines() { let Ok(l) = l else { break }; said.push(l); if said.len() == stop { let _ = ch.kill(); } }
        let st = ch.wait().or_else(|e| inconclusive(e.to_string()))?;
        if let Some(b) = said.iter().find(|l| l.starts_with("bad")) { viol!("round {round}: the client process reports {b}"); }
        if st.code().is_some() && said.len() < stop { viol!("round {round}: the client process ended by itself ({st}) after {said:?}"); }
        for l in &said { if let Some(n) = l.strip_prefix("ok ") { sure = n.parse().unwrap(); } }
        ctx.note(format!("round {round}: killed after {} acknowledgements, the last is {sure}", said.len()));
        ctx.count("real_kills", 1);
        let db = match Database::open(dir.join("x.db"), Cfg::plain().db()) { Ok(d) => d, Err(e) => if said.is_empty() { return Ok(()) } else { viol!("after SIGKILL opening fails: {e}") } };
        match exec(&db, "SELECT a, b FROM t ORDER BY a") {
            Ok(Got::Rows(_, rows)) => {
                let have: Vec<i128> = rows.iter().filter_map(|x| x[0].as_i128()).collect();
                for i in 1..=sure { if have.get(i as usize - 1) != Some(&(i as i128)) { viol!("after SIGKILL row {i} of {sure} acknowledged ones is missing ({} rows)", have.len()); } }
                ctx.count("rows_compared", have.len() as u64);
                sure = have.len() as i64;
            }
            o => viol!("after SIGKILL the table cannot be read: {o:?}"),
        }
        drop(db);
    }
    ctx.count("crash_points", 3);
    ctx.nontrivial = true;
    Ok(())
}
/// The process that real_kill kills.
pub fn victim(a: &[String]) {
    let (dir, mut n, mode): (PathBuf, i64, u64) = (PathBuf::from(&a[0]), a[1].parse().unwrap(), a[2].parse().unwrap());
    let db = Database::open_or_create(dir.join("x.db"), Cfg::plain().db()).expect("open");
    let say = |s: String| { use std::io::Write; let mut o = std::io::stdout(); let _ = writeln!(o, "{s}"); let _ = o.flush(); };
    let _ = db.execute("CREATE TABLE IF NOT EXISTS t (a BIGINT, b TEXT, PRIMARY KEY (a))");
    loop {
        let pad = "x".repeat(((n * 37) % 900) as usize);
        let r = match mode {
            0 => db.execute(&format!("INSERT INTO t VALUES ({}, '{pad}')", n + 1)).map(|_| 1).map_err(|e| e.to_string()),
            1 => { let s: Vec<String> = (1..4).map(|i| format!("INSERT INTO t VALUES ({}, '{pad}')", n + i)).collect(); db.execute_batch(&s.iter().map(|x| x.as_str()).collect::<Vec<_>>()).map(|_| 3).map_err(|e| e.to_string()) }
            2 => db.session().map_err(|e| e.to_string()).and_then(|mut s| { for i in 1..3 { s.execute(&format!("INSERT INTO t VALUES ({}, '{pad}')", n + i)).map_err(|e| e.to_string())?; } s.commit_transaction().map(|_| 2).map_err(|e| e.to_string()) }),
            _ => db.execute(&format!("INSERT INTO t VALUES ({}, '{pad}'), ({}, 'y')", n + 1, n + 2)).map(|_| 2).map_err(|e| e.to_string()),
        };
        match r { Ok(k) => { n += k; say(format!("ok {n}")); if n % 7 == 0 { let _ = db.execute(&format!("UPDATE t SET b = 'z' WHERE a = {n}")); } } Err(e) => { say(format!("bad {e}")); return; } }
    }
}
