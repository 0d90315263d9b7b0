//! Histories of statements run beside the reference model: C03, C04, C07, C09, C11 (whole database), C12, C13, C15.
use crate::drv::*;
use crate::expr::*;
use crate::model::*;
use crate::rng::Rng;
use crate::run::*;
use crate::val::*;
use crate::viol;
use axmosdb::verif::store::Store;

fn finish(ctx: &mut Ctx) {
    ctx.nontrivial = ctx.counters.get("rows_written").copied().unwrap_or(0) > 0 && ctx.counters.get("verifications").copied().unwrap_or(0) > 1;
    ctx.sample = Some(ctx.log.iter().take(14).cloned().collect::<Vec<_>>().join("\n"));
}

// ---------------------------------------------------------------- C03
pub static C03: Check = Check {
    id: "C03", level: "exploration",
    rule: "random histories of autocommit statements, batches and up to 3 interleaved sessions which mostly roll back (session dropped, explicit abort), with statements that fail half way (a later row breaks a constraint, a division by zero or an overflow at some row), DDL included, on random configurations; after every rollback or failure the state seen by everyone is compared with a model in which it never ran, also after vacuum, reopening and the death of the process (the database is opened from a copy of its files as they are).",
    quick: 1900, thorough: 60_000, hang_s: 120, threads: 8, run: c03, repros: &[("abort_keeps_updates", abort_keeps_updates)],
    must_see: &["rollbacks", "failed_batches", "refused_Unique", "refused_Other", "verifications", "session_verifications", "rolled_back_big", "half_way"],
    assumptions: &["an explicit abort of a transaction that updated rows is the recorded finding; random histories drop the session instead"],
};
/// Known finding: abort_transaction() keeps the row updates of the transaction.
fn abort_keeps_updates(ctx: &mut Ctx) -> CaseResult {
    let d = Drv::new(ctx, Cfg::plain())?;
    let db = d.db();
    for q in ["CREATE TABLE t (a INT, b INT)", "INSERT INTO t VALUES (1, 10), (2, 20)"] { if let Err(e) = exec(db, q) { viol!("{q}: {e}"); } }
    let mut s = db.session().or_else(|e| violation(format!("{e}")))?;
    let _ = s.execute("UPDATE t SET b = 99 WHERE a = 1");
    let _ = s.abort_transaction();
    drop(s);
    match exec(db, "SELECT b FROM t WHERE a = 1") {
        Ok(Got::Rows(_, r)) if r.len() == 1 && r[0][0].as_i128() == Some(10) => Ok(()),
        o => violation(format!("after abort_transaction() the updated row reads {o:?} instead of 10")),
    }
}
/// A statement that fails at some row, depending on the data.
fn half_way(r: &mut Rng, s: &State) -> Option<St> {
    let mut c: Vec<(String, usize)> = Vec::new();
    for (n, t) in s { for (i, k) in t.cols.iter().enumerate() { if matches!(k.k, K::Int) && t.rows.len() > 1 { c.push((n.clone(), i)); } } }
    if c.is_empty() { return None; }
    let (t, i) = r.pick(&c).clone();
    let big = E::L(V::Big(2_147_483_647 - r.range(0, 12)));
    Some(match r.us(5) {
        0 => St::Delete { t, wher: Some(bin(">", bin("/", E::L(V::Big(10)), E::C(i)), E::L(V::Big(1)))) },
        1 => St::Update { t, sets: vec![(i, bin("/", E::L(V::Big(100)), E::C(i)))], wher: None },
        2 => St::Select { t, wher: Some(bin("<", bin("%", E::L(V::Big(10)), E::C(i)), E::L(V::Big(5)))) },
        _ => St::Update { t, sets: vec![(i, bin("+", E::C(i), big))], wher: None },
    })
}
fn c03(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let mut d = Drv::new(ctx, Cfg::any(&mut r))?;
    d.ends = vec![End::Commit, End::Drop, End::Drop, End::Abort];
    d.batches = 4;
    let dies = r.chance(1, 3);
    let mut p = match r.us(3) {
        0 => BASE,
        1 => Prof { keydom: 25, w: [4, 3, 3, 6, 5, 30, 6, 18, 12, 6, 3, 6], ..BASE },
        _ => Prof { keydom: 40, big: 12, multi: 12, w: [5, 1, 1, 2, 2, 36, 5, 22, 14, 4, 2, 4], ..BASE },
    };
    for _ in 0..2 + r.us(4) { let st = draw(&mut r, &d.base, &p, &mut d.names); d.auto(ctx, &st)?; }
    if big(&mut r, 14) { d.scale(ctx, &mut r, &mut p, &[0, 1, 2, 3, 4, 4])?; }
    let n = 15 + r.us(45);
    for _ in 0..n {
        let before = ctx.counters.get("rollbacks").copied().unwrap_or(0) + ctx.counters.get("failed_batches").copied().unwrap_or(0);
        match r.us(12) {
            0 => {
                let open = d.open();
                let i = if !open.is_empty() && r.bool() { Some(*r.pick(&open)) } else { None };
                let view = match i { Some(i) => d.sess[i].as_ref().unwrap().1.view.clone(), None => d.base.clone() };
                if let Some(st) = half_way(&mut r, &view) {
                    ctx.count("half_way", 1);
                    let ok = match i { Some(i) => d.step(ctx, i, &st)?, None => d.auto(ctx, &st)? };
                    if !ok { d.verify(ctx, true)?; }
                }
            }
            1 if d.open().len() < 3 => {
                // a transaction with a lot of work, none of which may stay
                let i = d.begin(ctx)?;
                for _ in 0..4 + r.us(14) { let st = draw(&mut r, &d.sess[i].as_ref().unwrap().1.view, &p, &mut d.names); d.step(ctx, i, &st)?; if r.chance(1, 9) { d.flush(ctx)?; } if r.chance(1, 15) { d.vacuum(ctx)?; } }
                d.end(ctx, i, if r.chance(1, 3) { End::Abort } else { End::Drop })?;
                ctx.count("rolled_back_big", 1);
            }
            _ => d.random(ctx, &mut r, &p, 3)?,
        }
        let after = ctx.counters.get("rollbacks").copied().unwrap_or(0) + ctx.counters.get("failed_batches").copied().unwrap_or(0);
        if after != before { d.verify(ctx, true)?; }
        if r.chance(1, 30) { d.vacuum(ctx)?; }
        if r.chance(1, 40) { d.flush(ctx)?; }
        if dies && r.chance(1, 60) { let c = Cfg::any(&mut r); d.killed(ctx, c)?; d.verify(ctx, true)?; }
    }
    d.verify(ctx, true)?;
    for i in d.open() { d.end(ctx, i, End::Drop)?; }
    d.verify(ctx, true)?;
    if r.bool() { d.vacuum(ctx)?; d.verify(ctx, true)?; d.audit(ctx)?; }
    if r.bool() {
        let c = Cfg::any(&mut r);
        if dies { d.killed(ctx, c)?; } else { d.reopen(ctx, c)?; }
        d.verify(ctx, true)?;
        for _ in 0..5 { d.random(ctx, &mut r, &p, 0)?; }
        d.verify(ctx, true)?;
    }
    finish(ctx);
    Ok(())
}

// ---------------------------------------------------------------- C04
pub static C04: Check = Check {
    id: "C04", level: "exploration",
    rule: "histories of up to 6 interleaved sessions and autocommit statements on few hot tables: every read is compared with the snapshot of its transaction overlaid with its own writes (a state per session in the model), reads are repeated, all open sessions are read in full after commits, vacuum and checkpoints, and two transactions that both changed a row must not both commit. Non-trivial: reads ran beside concurrent writers.",
    quick: 2200, thorough: 60_000, hang_s: 120, threads: 8, run: c04, repros: &[],
    must_see: &["sessions", "reads_beside_writers", "conflicts", "session_verifications", "repeated_reads", "vacuums"],
    assumptions: &["a session's snapshot is taken when it is opened", "a conflict may be reported at the statement or at the commit"],
};
fn c04(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let mut d = Drv::new(ctx, Cfg::any(&mut r))?;
    d.ends = vec![End::Commit, End::Commit, End::Commit, End::Drop, End::Abort];
    let ddl = r.chance(1, 5);
    let mut p = Prof { names: 1 + r.below(2), keydom: *r.pick(&[6, 15, 40]), maxrows: *r.pick(&[12, 40, 150]), multi: 5, big: 4,
        w: if ddl { [2, 1, 1, 3, 1, 24, 2, 30, 14, 18, 6, 1] } else { [1, 0, 0, 0, 0, 24, 3, 34, 16, 20, 6, 1] }, ..BASE };
    for _ in 0..2 + r.us(4) { let st = draw(&mut r, &d.base, &p, &mut d.names); d.auto(ctx, &st)?; }
    if big(&mut r, 14) { d.scale(ctx, &mut r, &mut p, &[0, 2, 2, 3, 3, 4])?; }
    let max = 1 + r.us(6);
    for _ in 0..30 + r.us(60) {
        let commits = ctx.counters.get("commits").copied().unwrap_or(0);
        d.random(ctx, &mut r, &p, max)?;
        if ctx.counters.get("commits").copied().unwrap_or(0) != commits && r.chance(1, 3) { d.verify(ctx, r.chance(1, 3))?; }
        let open = d.open();
        if !open.is_empty() && !ddl && r.chance(1, 6) {
            let i = *r.pick(&open);
            let view = d.sess[i].as_ref().unwrap().1.view.clone();
            if let Some(t) = view.keys().next().cloned() { let st = St::Select { wher: where_(&mut r, &view[&t], &p), t }; d.step(ctx, i, &st)?; d.random(ctx, &mut r, &p, max)?; if d.sess[i].is_some() { let st2 = st; d.step(ctx, i, &st2)?; ctx.count("repeated_reads", 1); } }
        }
        if r.chance(1, 20) { d.vacuum(ctx)?; d.verify(ctx, true)?; }
        if r.chance(1, 25) { d.flush(ctx)?; }
    }
    d.verify(ctx, true)?;
    if r.chance(1, 8) { let c = Cfg::any(&mut r); d.killed(ctx, c)?; }
    d.end_all(ctx, &mut r)?;
    d.verify(ctx, true)?;
    finish(ctx);
    ctx.nontrivial &= ctx.counters.get("reads_beside_writers").copied().unwrap_or(0) + ctx.counters.get("session_verifications").copied().unwrap_or(0) > 0;
    Ok(())
}

// ---------------------------------------------------------------- C07
pub static C07: Check = Check {
    id: "C07", level: "exploration",
    rule: "histories over tables with single and compound PRIMARY KEY, UNIQUE, unique indexes and NOT NULL columns in tiny key domains, so that most writes touch a key that exists, existed, was rolled back or is held by another session; each statement must be accepted or refused exactly as the model says (refusals may be early only while a concurrent transaction touches the table), refused ones change nothing, and every committed state is checked for duplicates and NULLs. Non-trivial: both refused and accepted writes.",
    quick: 1900, thorough: 80_000, hang_s: 120, threads: 8, run: c07, repros: &[],
    must_see: &["refused_Unique", "refused_NotNull", "rows_written", "key_lookups", "sessions", "reused_keys", "vacuums"],
    assumptions: &["rows with a NULL in a unique key never clash", "a statement may be refused when a transaction open at the same time touched the table"],
};
fn c07(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let mut d = Drv::new(ctx, Cfg::any(&mut r))?;
    let mut p = Prof { wide: 0, names: 2, keydom: *r.pick(&[3, 6, 12, 25]), keys: 95, nulls: *r.pick(&[4, 12, 25]), big: *r.pick(&[1, 25]), maxrows: *r.pick(&[8, 20, 60]), multi: 4,
        w: [2, 3, 1, 2, 6, 40, 5, 26, 18, 3, 2, 1], kinds: &[K::Int, K::Int, K::Big, K::T, K::T, K::F64, K::UInt, K::BigU] };
    let max = *r.pick(&[0, 0, 2, 3]);
    if big(&mut r, 20) { d.scale(ctx, &mut r, &mut p, &[0, 1, 2, 4])?; }
    for _ in 0..30 + r.us(60) {
        d.random(ctx, &mut r, &p, max)?;
        // delete a key and use it again, or move it away and back
        if r.chance(1, 7) {
            let tabs: Vec<String> = d.base.iter().filter(|(_, t)| !t.rows.is_empty() && !t.uq.is_empty()).map(|(n, _)| n.clone()).collect();
            if let Some(n) = tabs.first() {
                let t = d.base[n].clone();
                let row = r.pick(&t.rows.values().collect::<Vec<_>>()).to_vec();
                let c = t.pos(&t.uq[r.us(t.uq.len())].cols[0]).unwrap();
                if row[c].is_null() || matches!(&row[c], V::T(x) if x.len() > 200) { continue; }
                let w = Some(bin("=", E::C(c), E::L(row[c].clone())));
                let ins = St::Insert { t: n.clone(), cols: None, rows: vec![row.clone()] };
                match r.us(4) {
                    0 => { d.auto(ctx, &St::Delete { t: n.clone(), wher: w })?; d.auto(ctx, &ins)?; }
                    1 => { d.batch(ctx, &[St::Delete { t: n.clone(), wher: w }, ins], true)?; }
                    2 => { let i = d.begin(ctx)?; d.step(ctx, i, &St::Delete { t: n.clone(), wher: w })?; d.step(ctx, i, &ins)?; if r.bool() { d.step(ctx, i, &ins)?; } d.end(ctx, i, if r.bool() { End::Drop } else { End::Commit })?; d.auto(ctx, &ins)?; }
                    _ => { let to = kind_value(&mut r, t.cols[c].k, true, &p); d.auto(ctx, &St::Update { t: n.clone(), sets: vec![(c, E::L(to))], wher: w })?; d.auto(ctx, &ins)?; }
                }
                ctx.count("reused_keys", 1);
            }
        }
        if r.chance(1, 12) { d.verify(ctx, true)?; }
        if r.chance(1, 25) { d.vacuum(ctx)?; }
        if r.chance(1, 50) { let c = Cfg::any(&mut r); if r.chance(1, 3) { d.killed(ctx, c)?; } else { d.reopen(ctx, c)?; } }
    }
    d.verify(ctx, true)?;
    d.end_all(ctx, &mut r)?;
    d.verify(ctx, true)?;
    finish(ctx);
    ctx.nontrivial &= ctx.counters.keys().any(|k| k.starts_with("refused_"));
    Ok(())
}

// ---------------------------------------------------------------- C09
pub static C09: Check = Check {
    id: "C09", level: "exploration",
    rule: "many cycles of work, clean close (drop, or flush and drop, sessions left open or rolled back) and open with other configuration values; after each open all tables, columns, constraints and indexes are compared with the model (content, column names, refused duplicates and NULLs, lookups by key), sessions and autocommit work goes on, so that colliding row, object or transaction ids show up as lost, merged or wrongly visible rows. Non-trivial: at least 3 cycles with writes in between.",
    quick: 1500, thorough: 30_000, hang_s: 120, threads: 8, run: c09, repros: &[],
    must_see: &["reopens", "rows_written", "ddl", "rollbacks", "key_lookups", "verifications", "audits"],
    assumptions: &[],
};
fn c09(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let mut d = Drv::new(ctx, Cfg::any(&mut r))?;
    let mut p = Prof { names: 3, keydom: *r.pick(&[20, 80]), w: *r.pick(&[[5, 2, 1, 4, 4, 36, 3, 18, 10, 3, 2, 1], [14, 6, 5, 8, 6, 24, 3, 10, 6, 3, 2, 1]]), ..BASE };
    let many = r.chance(1, 8);
    let cycles = 3 + r.us(if many { 25 } else { 6 });
    if big(&mut r, 14) { d.scale(ctx, &mut r, &mut p, &[0, 1, 1, 4])?; }
    for _ in 0..cycles {
        let max = r.us(3);
        for _ in 0..1 + r.us(14) { d.random(ctx, &mut r, &p, max)?; if r.chance(1, 40) { d.vacuum(ctx)?; } }
        if r.chance(1, 3) { for i in d.open() { d.end(ctx, i, End::Drop)?; } }
        if r.chance(1, 3) { d.flush(ctx)?; }
        let c = Cfg::any(&mut r);
        d.reopen(ctx, c)?;
        if r.chance(1, 5) { d.reopen(ctx, c)?; }
        d.verify(ctx, true)?;
        if r.chance(1, 4) { d.vacuum(ctx)?; d.audit(ctx)?; d.verify(ctx, true)?; }
        if r.chance(1, 6) { d.analyze(ctx)?; }
    }
    finish(ctx);
    Ok(())
}

// ---------------------------------------------------------------- C11, whole database
pub fn c11_db(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let mut d = Drv::new(ctx, Cfg::any(&mut r))?;
    let mut p = Prof { names: 3, keydom: 300, big: *r.pick(&[3, 25, 50]), multi: 15, maxrows: 300, w: [6, 3, 3, 4, 3, 40, 4, 20, 16, 2, 1, 1], ..BASE };
    let mut pages = Vec::new();
    if big(&mut r, 14) { d.scale(ctx, &mut r, &mut p, &[0, 1, 3, 4])?; for i in d.open() { d.end(ctx, i, End::Drop)?; } }
    for _ in 0..2 + r.us(3) {
        let max = r.us(3);
        for _ in 0..5 + r.us(25) { d.random(ctx, &mut r, &p, max)?; }
        for i in d.open() { d.end(ctx, i, *r.pick(&[End::Commit, End::Drop]))?; }
        d.vacuum(ctx)?;
        d.audit(ctx)?;
        if r.bool() { let c = Cfg::any(&mut r); d.reopen(ctx, c)?; d.audit(ctx)?; }
    }
    // the same work over and over: create, fill, drop
    if r.bool() {
        let st = create(&mut r, "t9".into(), &p);
        let mut ins = Vec::new();
        { let mut s = State::new(); let mut ids = 1; let _ = st.apply(&mut s, &mut ids); if let Some(t) = s.get("t9") { for _ in 0..3 + r.us(6) { ins.push(gen_insert(&mut r, "t9", t, &p)); } } }
        for _ in 0..5 {
            d.auto(ctx, &st)?;
            for i in &ins { d.auto(ctx, i)?; }
            d.auto(ctx, &St::Update { t: "t9".into(), sets: vec![(0, E::C(0))], wher: None })?;
            d.auto(ctx, &St::Drop { t: "t9".into(), ie: false })?;
            d.vacuum(ctx)?;
            d.audit(ctx)?;
            pages.push(Store::of(d.db()).header().total_pages);
        }
        ctx.count("drop_cycles", 1);
        if pages[4] > pages[1] { viol!("creating, filling, dropping the same table and vacuum, over and over, grows the file: {pages:?} pages"); }
    }
    d.verify(ctx, false)?;
    Ok(())
}

// ---------------------------------------------------------------- C12
pub static C12: Check = Check {
    id: "C12", level: "exploration",
    rule: "the same random script (loads larger than the small caches, updates, deletes, DDL, sessions, vacuum, reopening) is run on databases with different page size (4-64 KB), cache size, pool size, minimum keys and siblings per side; every statement's result and the final contents must be those of the model, so of each other; queries with ORDER BY and joins are compared between configurations too. Non-trivial: at least 3 configurations ran the script to the end.",
    quick: 600, thorough: 9_000, hang_s: 120, threads: 8, run: c12, repros: &[],
    must_see: &["configurations", "rows_written", "verifications", "small_cache_loads", "queries_compared"],
    assumptions: &["a statement may answer out of memory when the cache has fewer than 48 pages"],
};
fn c12(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let seed = r.u64();
    let big = r.chance(1, 3);
    let p = Prof { names: 2, keydom: if big { 100_000 } else { 60 }, big: *r.pick(&[3, 20, 40]), multi: if big { 120 } else { 8 }, maxrows: if big { 900 } else { 160 },
        w: [4, 2, 1, 3, 2, 40, 3, 16, 10, 6, 4, 2], ..BASE };
    let steps = if big { 14 + r.us(16) } else { 20 + r.us(40) };
    let max = r.us(3);
    let mut answers: Option<Vec<(String, String)>> = None;
    let mut first = String::new();
    for k in 0..3 + r.us(2) {
        let tiny = k > 0 && r.chance(1, 2);
        let cfg = if k == 0 { Cfg::plain() } else { Cfg { page: *r.pick(&[4096, 8192, 16384, 32768, 65536]), cache: if tiny { *r.pick(&[32, 48, 64, 80, 100, 150]) } else { *r.pick(&[200, 300, 1000, 10000]) }, pool: *r.pick(&[1, 1, 2, 4, 8]), minkeys: *r.pick(&[3, 4, 5, 8]), sib: *r.pick(&[1, 1, 2, 3, 5]) } };
        ctx.note(format!("--- {cfg:?}"));
        let dir = ctx.dir().join(format!("c{k}"));
        std::fs::create_dir_all(&dir).or_else(|e| inconclusive(e.to_string()))?;
        let mut d = Drv::at(ctx, dir.join("x.db"), cfg)?;
        d.allow_oom = cfg.cache < 48;
        let mut q = Rng::new(seed);
        for i in 0..steps {
            d.random(ctx, &mut q, &p, max)?;
            if i % 11 == 7 { d.vacuum(ctx)?; }
            if i % 9 == 5 { d.flush(ctx)?; }
            if i % 17 == 16 { d.reopen(ctx, cfg)?; }
        }
        for i in d.open() { d.end(ctx, i, End::Commit)?; }
        if big { let rows: u64 = d.base.values().map(|t| t.rows.len() as u64).sum(); if rows > 400 && cfg.cache < 400 { ctx.count("small_cache_loads", 1); } }
        d.verify(ctx, true)?;
        let oomed = ctx.counters.get("out_of_memory").copied().unwrap_or(0) > 0;
        let mut mine = Vec::new();
        let mut qr = Rng::new(seed ^ 7);
        for _ in 0..6 {
            let Some(sql) = query(&mut qr, &d.base) else { break };
            match exec(d.db(), &sql) {
                Ok(Got::Rows(n, rows)) => mine.push((sql, format!("{n:?} {}", sorted(rows).iter().map(|r| show_row(r)).collect::<Vec<_>>().join(" ")))),
                Ok(o) => viol!("{sql} gives {o:?}"),
                Err(e) if d.allow_oom && oom(&e) => mine.push((sql, "oom".into())),
                Err(e) => mine.push((sql, format!("error {e}"))),
            }
        }
        if !oomed {
            match &answers { None => { answers = Some(mine); first = format!("{cfg:?}"); } Some(a) => {
                for (x, y) in a.iter().zip(&mine) { if x.1 != y.1 && y.1 != "oom" && x.0 == y.0 { viol!("{}\nwith {first}:\n{}\nwith {cfg:?}:\n{}", x.0, clip(&x.1), clip(&y.1)); } ctx.count("queries_compared", 1); }
            } }
        }
        ctx.count("configurations", 1);
        drop(d);
        let _ = std::fs::remove_dir_all(&dir);
    }
    finish(ctx);
    Ok(())
}
fn clip(s: &str) -> String { s.chars().take(600).collect() }
fn query(r: &mut Rng, s: &State) -> Option<String> {
    let names: Vec<&String> = s.keys().collect();
    if names.is_empty() { return None; }
    let t = *r.pick(&names);
    let tab = &s[t];
    let c = |r: &mut Rng| tab.cols[r.us(tab.cols.len())].name.clone();
    Some(match r.us(4) {
        0 => format!("SELECT * FROM {t} ORDER BY {}", c(r)),
        1 => format!("SELECT DISTINCT {} FROM {t}", c(r)),
        2 => { let k = c(r); format!("SELECT {k}, COUNT(*) FROM {t} GROUP BY {k}") }
        _ => { let k = c(r); format!("SELECT a.{k}, b.{k} FROM {t} AS a JOIN {t} AS b ON a.{k} = b.{k} WHERE a.{k} IS NOT NULL") }
    })
}

// ---------------------------------------------------------------- C13
pub static C13: Check = Check {
    id: "C13", level: "exploration",
    rule: "histories full of superseded, rolled-back and deleted versions, rolled-back deletes, altered and dropped tables, with VACUUM at random points (also with sessions holding old snapshots, twice in a row, after reopening and beside open writers): everything every session and later transactions can see is compared with the model before and after, work goes on afterwards; and repeating the same update/delete/insert cycle with VACUUM must stop growing the file. Non-trivial: VACUUM ran with open sessions or after deletes.",
    quick: 1900, thorough: 50_000, hang_s: 120, threads: 8, run: c13, repros: &[],
    must_see: &["vacuums", "vacuums_beside_sessions", "session_verifications", "cycles", "audits", "reopens"],
    assumptions: &["storage is measured in pages of the database file after VACUUM with no transaction open"],
};
fn c13(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let mut d = Drv::new(ctx, Cfg::any(&mut r))?;
    d.ends = vec![End::Commit, End::Commit, End::Drop, End::Drop, End::Abort];
    let mut p = Prof { names: 3, keydom: *r.pick(&[15, 60]), maxrows: *r.pick(&[30, 120]), big: *r.pick(&[2, 20]), w: [4, 2, 2, 4, 2, 28, 3, 30, 22, 3, 2, 1], ..BASE };
    if r.chance(1, 3) { return cycles(ctx, &mut r, d, &p); }
    let max = r.us(5);
    if big(&mut r, 14) { d.scale(ctx, &mut r, &mut p, &[0, 1, 2, 3, 3, 4])?; }
    for _ in 0..25 + r.us(50) {
        d.random(ctx, &mut r, &p, max)?;
        if r.chance(1, 6) {
            if !d.open().is_empty() { ctx.count("vacuums_beside_sessions", 1); }
            d.vacuum(ctx)?;
            if r.chance(1, 5) { d.vacuum(ctx)?; }
            d.verify(ctx, true)?;
        }
        if r.chance(1, 60) { let c = Cfg::any(&mut r); if r.chance(1, 3) { d.killed(ctx, c)?; } else { d.reopen(ctx, c)?; } }
    }
    d.end_all(ctx, &mut r)?;
    d.vacuum(ctx)?;
    d.verify(ctx, true)?;
    d.audit(ctx)?;
    for _ in 0..6 { d.random(ctx, &mut r, &p, 0)?; }
    let c = Cfg::any(&mut r);
    d.reopen(ctx, c)?;
    d.verify(ctx, true)?;
    finish(ctx);
    Ok(())
}
/// The same work again and again must not need more and more pages.
fn cycles(ctx: &mut Ctx, r: &mut Rng, mut d: Drv, p: &Prof) -> CaseResult {
    let mut p = p.clone();
    p.keydom = 100_000;
    let mut st = create(r, "t0".into(), &p);
    if let St::Create { ine, cols, uq, .. } = &mut st { *ine = false; for c in cols.iter_mut() { c.notnull = false; } uq.retain(|u| u.pk || r.bool()); }
    d.auto(ctx, &st)?;
    let t = d.base["t0"].clone();
    for _ in 0..2 + r.us(5) { let i = gen_insert(r, "t0", &t, &Prof { multi: 20, ..p.clone() }); d.auto(ctx, &i)?; }
    let free: Vec<usize> = (0..t.cols.len()).filter(|i| !t.in_unique(&t.cols[*i].name)).collect();
    let kind = r.us(4);
    let extra = gen_insert(r, "t0", &t, &Prof { multi: 20, ..p.clone() });
    let vals: Vec<(usize, V)> = free.iter().map(|i| (*i, kind_value(r, t.cols[*i].k, false, &Prof { big: 0, ..p.clone() }))).collect();
    let reps = 1 + r.us(4);
    let mut pages = Vec::new();
    for _round in 0..10 {
        for _ in 0..reps {
            match kind {
                0 if !vals.is_empty() => { let (c, v) = r.pick(&vals).clone(); d.auto(ctx, &St::Update { t: "t0".into(), sets: vec![(c, E::L(v))], wher: None })?; }
                1 => { let rows: Vec<Vec<V>> = d.base["t0"].rows.values().map(|x| (**x).clone()).collect(); if rows.is_empty() { continue; } d.auto(ctx, &St::Delete { t: "t0".into(), wher: None })?; d.auto(ctx, &St::Insert { t: "t0".into(), cols: None, rows })?; }
                2 => { let i = d.begin(ctx)?; d.step(ctx, i, &extra)?; d.step(ctx, i, &St::Update { t: "t0".into(), sets: vec![(0, E::C(0))], wher: None })?; if r.bool() { d.step(ctx, i, &St::Delete { t: "t0".into(), wher: None })?; } d.end(ctx, i, End::Drop)?; }
                _ => { d.auto(ctx, &St::Update { t: "t0".into(), sets: vec![(0, E::C(0))], wher: None })?; }
            }
        }
        d.vacuum(ctx)?;
        pages.push(Store::of(d.db()).header().total_pages);
        ctx.count("cycles", 1);
    }
    d.verify(ctx, true)?;
    d.audit(ctx)?;
    let top = *pages[..5].iter().max().unwrap();
    if pages[9] > top + 1 + top / 20 { viol!("the same {reps} statement(s) of kind {kind} and VACUUM, ten times, keep growing the file: {pages:?} pages"); }
    let c = Cfg::any(r);
    d.reopen(ctx, c)?;
    d.verify(ctx, true)?;
    finish(ctx);
    Ok(())
}

// ---------------------------------------------------------------- C15
pub static C15: Check = Check {
    id: "C15", level: "exploration",
    rule: "DDL-heavy histories (CREATE and DROP TABLE, unique indexes, added, dropped and retyped columns, defaults, NOT NULL, added constraints) in autocommit, batches and interleaved sessions that commit or roll back: after each step tables are looked up by name, column names and every row are compared with the model, sessions keep seeing the schema of their snapshot, dropped names are made again, other tables must not change; also after reopening and VACUUM. Non-trivial: DDL took effect and was rolled back.",
    quick: 1600, thorough: 50_000, hang_s: 120, threads: 8, run: c15, repros: &[],
    must_see: &["ddl", "rollbacks", "table_scans", "session_verifications", "refused_Exists", "refused_NoTable", "reopens", "vacuums"],
    assumptions: &["while another transaction that touched the table is open or committed after the snapshot, DDL may be refused as a conflict"],
};
fn c15(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let mut d = Drv::new(ctx, Cfg::any(&mut r))?;
    d.batches = 4;
    let mut p = Prof { names: *r.pick(&[2, 4]), keydom: *r.pick(&[20, 80]), maxrows: 60, w: [12, 5, 6, 16, 12, 20, 3, 10, 6, 4, 2, 2], ..BASE };
    let max = r.us(4);
    if big(&mut r, 14) { d.scale(ctx, &mut r, &mut p, &[0, 1, 1, 2, 4])?; }
    for _ in 0..25 + r.us(45) {
        d.random(ctx, &mut r, &p, max)?;
        if r.chance(1, 4) { d.verify(ctx, r.chance(1, 3))?; }
        if r.chance(1, 25) { d.vacuum(ctx)?; d.verify(ctx, true)?; }
        if r.chance(1, 40) { let c = Cfg::any(&mut r); if r.chance(1, 3) { d.killed(ctx, c)?; } else { d.reopen(ctx, c)?; } d.verify(ctx, true)?; }
    }
    d.verify(ctx, true)?;
    d.end_all(ctx, &mut r)?;
    d.verify(ctx, true)?;
    if r.bool() { d.vacuum(ctx)?; d.verify(ctx, true)?; d.audit(ctx)?; }
    let c = Cfg::any(&mut r);
    d.reopen(ctx, c)?;
    d.verify(ctx, true)?;
    finish(ctx);
    Ok(())
}
