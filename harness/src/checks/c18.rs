//! C18: row versions decode to the right values for every snapshot.
//! Monitor: a list of (creator, row) is kept beside every stored row; a grid of readers, one before,
//! between, inside and after every creator, decodes the stored bytes and is compared with the newest
//! version its snapshot is entitled to - before and after trimming history at every horizon.
use crate::rng::Rng;
use crate::run::*;
use crate::val::*;
use crate::viol;
use axmosdb::verif::tuples::{Shape, Versions, View};
use std::collections::{BTreeMap, HashMap, HashSet};

pub static CHECK: Check = Check {
    id: "C18", level: "exploration",
    rule: "each case draws schemas (1-3 keys, 0-12 values, table or index layout), rows, chains of 0-8 updates over random column subsets, an optional delete and a fate for every creator (committed, aborted or open, ending before or after each reader), decodes the row for a grid of readers, and repeats that after trimming at every horizon; one repro enumerates small chains exhaustively. Non-trivial: a case where some reader saw an older version than the newest.",
    quick: 6000, thorough: 400_000, hang_s: 60, threads: 8, run, repros: REPROS,
    must_see: &["decodes", "older_version_seen", "nothing_seen", "deleted_seen_by_old_reader", "trims", "trim_freed", "null_flips", "aborted_creators", "own_version_seen"],
    assumptions: &["a reader's snapshot lists the open and the rolled back transactions with smaller ids; its upper bound is its own id or the last committed one",
        "trimming by a bare horizon is judged on histories without rolled back creators (a bare id cannot tell them apart); trimming for a snapshot is judged on all"],
};
const REPROS: &[(&str, fn(&mut Ctx) -> CaseResult)] = &[("exhaustive-small", exhaustive), ("every-width", every_width)];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate { Commit(u64), Abort(u64), Open }
/// What happened to every transaction: begin time is its id.
type World = BTreeMap<u64, Fate>;

fn view(world: &World, xid: u64, last_committed_bound: bool) -> View {
    let (mut active, mut aborted, mut xmin, mut last) = (HashSet::new(), HashSet::new(), xid, None);
    for (&t, f) in world.range(..xid) {
        match f {
            Fate::Commit(e) if *e < xid => last = Some(t),
            Fate::Abort(e) if *e < xid => { aborted.insert(t); }
            _ => { active.insert(t); xmin = xmin.min(t); }
        }
    }
    let xmax = if last_committed_bound && last.is_some() { last } else { Some(xid) };
    View { xid, xmin, xmax, active, aborted }
}
fn entitled(world: &World, reader: u64, t: u64) -> bool {
    t == reader || (t < reader && matches!(world.get(&t), Some(Fate::Commit(e)) if *e < reader))
}

struct Model { versions: Vec<(u64, Vec<V>)>, deleted: Option<u64> }
impl Model {
    fn expect(&self, world: &World, reader: u64) -> (Option<&[V]>, usize) {
        if self.deleted.is_some_and(|d| entitled(world, reader, d)) { return (None, 0); }
        for (i, (t, row)) in self.versions.iter().enumerate().rev() { if entitled(world, reader, *t) { return (Some(row), self.versions.len() - 1 - i); } }
        (None, 0)
    }
}
fn describe(m: &Model, world: &World) -> String {
    format!("versions {} deleted {:?} fates {:?}", m.versions.iter().map(|(t, r)| format!("[{t}: {}]", show_row(r))).collect::<Vec<_>>().join(" "), m.deleted, world)
}
fn check_views(ctx: &mut Ctx, shape: &Shape, t: &Versions, m: &Model, world: &World, readers: &[u64], floor: u64, what: &str) -> CaseResult {
    for &rd in readers {
        for bound in [false, true] {
            let v = view(world, rd, bound);
            if v.xmin < floor { continue; }
            let (want, back) = m.expect(world, rd);
            let got = match t.seen_by(shape, &v) { Ok(g) => g.map(|g| row_of(&g)), Err(e) => viol!("{what}: reader {rd} cannot decode: {e}; {}", describe(m, world)) };
            ctx.count("decodes", 1);
            if want.is_some() && back > 0 { ctx.count("older_version_seen", 1); ctx.nontrivial = true; if m.deleted.is_some() { ctx.count("deleted_seen_by_old_reader", 1); } }
            if want.is_none() { ctx.count("nothing_seen", 1); }
            if want.is_some() && m.versions[m.versions.len() - 1 - back].0 == rd { ctx.count("own_version_seen", 1); }
            let ok = match (&got, want) { (None, None) => true, (Some(g), Some(w)) => same_row(g, w), _ => false };
            if !ok {
                viol!("{what}: reader {rd} ({v:?}) decodes {} but is entitled to {}; {}", got.as_deref().map(show_row).unwrap_or("nothing".into()), want.map(show_row).unwrap_or("nothing".into()), describe(m, world));
            }
        }
    }
    Ok(())
}
fn last_is(shape: &Shape, t: &Versions, row: &[V], what: &str) -> CaseResult {
    match t.last(shape) { Ok(l) if same_row(&row_of(&l), row) => Ok(()), Ok(l) => viol!("{what}: encoded {} decodes to {}", show_row(row), show_row(&row_of(&l))), Err(e) => viol!("{what}: {} cannot be decoded: {e}", show_row(row)) }
}
fn reload(t: Versions, r: &mut Rng) -> Result<Versions, Fail> {
    if r.bool() { return Ok(t); }
    let u = t.reload().map_err(|e| Fail::Violation(format!("stored bytes cannot be loaded: {e}")))?;
    if u.bytes() != t.bytes() { viol!("loading stored bytes changes them"); }
    Ok(u)
}

fn run(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let nk = 1 + r.us(3);
    // sometimes more columns, or more versions, than a byte can number
    let wide = r.chance(1, 60);
    let long = !wide && r.chance(1, 80);
    let nv = if wide { 120 + r.us(260) } else { match r.us(8) { 0 if !long => 0, 1 => 8 + r.us(5), 2 => 12, _ => r.us(8) + 1 } };
    let kinds: Vec<K> = (0..nk + nv).map(|_| *r.pick(&KS)).collect();
    let dbk: Vec<_> = kinds.iter().map(|k| k.db()).collect();
    let shape = if r.chance(1, 4) { Shape::index(&dbk, nk) } else { Shape::table(&dbk, nk) };
    let big = if wide || long { 12 } else if r.chance(1, 10) { 30_000 } else if r.chance(1, 3) { 300 } else { 40 };
    let mut row: Vec<V> = kinds.iter().enumerate().map(|(i, k)| if i >= nk && r.chance(1, 4) { V::Null } else { any(&mut r, *k, big) }).collect();
    // creators
    let mut world = World::new();
    let mut id = r.below(4);
    let ups = if nv == 0 { 0 } else if wide { r.us(4) } else if long { 120 + r.us(200) } else { r.us(9) };
    let with_aborts = r.bool();
    let fresh = |world: &mut World, id: &mut u64, r: &mut Rng| {
        // transactions that never touch the row
        for _ in 0..r.us(3) { *id += 1 + r.below(3); let end = *id + r.below(12); let f = match r.us(if with_aborts { 4 } else { 3 }) { 0 => Fate::Open, 3 => Fate::Abort(end), _ => Fate::Commit(end) }; world.insert(*id, f); }
        *id += 1 + r.below(3);
        let end = *id + r.below(10);
        let f = match r.us(if with_aborts { 6 } else { 4 }) { 0 => Fate::Open, 4 | 5 => Fate::Abort(end), _ => Fate::Commit(end) };
        world.insert(*id, f);
        *id
    };
    let c = fresh(&mut world, &mut id, &mut r);
    let mut t = Versions::build(&shape, &row.iter().map(V::db).collect::<Vec<_>>(), c).map_err(|e| Fail::Violation(format!("encoding {} fails: {e}", show_row(&row))))?;
    last_is(&shape, &t, &row, "build")?;
    t = reload(t, &mut r)?;
    let mut m = Model { versions: vec![(c, row.clone())], deleted: None };
    let mut c = c;
    for u in 0..ups {
        if !r.chance(1, 5) { c = fresh(&mut world, &mut id, &mut r); }
        let mut ch = HashMap::new();
        let (all, only, mask) = match r.us(4) { 0 => (true, nv, 0), 1 => (false, r.us(nv), 0), _ => (false, nv, r.u64()) };
        for i in 0..nv {
            if all || i == only || mask >> (i % 61) & 1 == 1 {
                let nvl = match (&row[nk + i], r.us(6)) {
                    (V::T(x), 0) if !x.is_empty() => V::T(x[..r.us(x.len())].to_vec()),
                    (V::T(x), 1) => { let mut x = x.clone(); x.extend(text(&mut r, big)); V::T(x) }
                    (x, 2) => x.clone(),
                    (_, 3) => V::Null,
                    _ => any(&mut r, kinds[nk + i], big),
                };
                if nvl.is_null() != row[nk + i].is_null() { ctx.count("null_flips", 1); }
                ch.insert(i, nvl.db());
                row[nk + i] = nvl;
            }
        }
        if ch.is_empty() { continue; }
        if let Err(e) = t.update(&shape, &ch, c) { viol!("update {u} fails: {e}; {}", describe(&m, &world)); }
        m.versions.push((c, row.clone()));
        last_is(&shape, &t, &row, "update")?;
        t = reload(t, &mut r)?;
        if r.chance(1, 3) { let rd = 1 + r.below(id + 12); check_views(ctx, &shape, &t, &m, &world, &[rd], 0, "mid chain")?; }
    }
    match t.versions(&shape) { Ok(n) if n == m.versions.len() => {} o => viol!("{} versions stored but the row reports {o:?}; {}", m.versions.len(), describe(&m, &world)) }
    if r.chance(2, 5) {
        let d = if r.chance(1, 4) { c } else { fresh(&mut world, &mut id, &mut r) };
        if let Err(e) = t.delete(d) { viol!("delete fails: {e}"); }
        m.deleted = Some(d);
        if t.xmax() != Some(d) { viol!("deleter {d} recorded as {:?}", t.xmax()); }
        t = reload(t, &mut r)?;
    }
    if t.xmin() != m.versions.last().unwrap().0 { viol!("newest version created by {} says {}; {}", m.versions.last().unwrap().0, t.xmin(), describe(&m, &world)); }
    ctx.count("aborted_creators", m.versions.iter().filter(|v| matches!(world[&v.0], Fate::Abort(_))).count() as u64);
    ctx.max("chain", m.versions.len() as u64);
    ctx.max("columns", (nk + nv) as u64);
    ctx.mix(&describe(&m, &world));
    ctx.log.push(describe(&m, &world));
    let mut readers: Vec<u64> = m.versions.iter().map(|v| v.0).collect();
    let top = id + 14;
    if top < 60 { readers = (0..=top).collect() } else { for _ in 0..40 { readers.push(r.below(top + 1)); } readers.push(top); readers.extend(m.deleted); }
    // a reader that is a known transaction keeps its own fate out of its view; others are new ids
    check_views(ctx, &shape, &t, &m, &world, &readers, 0, "full history")?;
    last_is(&shape, &t, &row, "after reads")?;
    // trimming
    let aborts = world.values().any(|f| matches!(f, Fate::Abort(_)));
    let horizons: Vec<u64> = if top < 60 { (0..=top + 1).collect() } else { (0..12).map(|_| r.below(top + 2)).collect() };
    for h in horizons {
        let mut u = t.clone();
        let before = u.bytes().len();
        let freed;
        if aborts || r.bool() {
            let v = view(&world, h, false);
            freed = u.trim_for(&shape, &v).map_err(|e| Fail::Violation(format!("trim for {v:?}: {e}; {}", describe(&m, &world))))?;
            check_views(ctx, &shape, &u, &m, &world, &readers.iter().cloned().filter(|r| *r >= h).collect::<Vec<_>>(), v.xmin, &format!("trimmed for snapshot {h}"))?;
        } else {
            freed = u.trim(&shape, h).map_err(|e| Fail::Violation(format!("trim at {h}: {e}; {}", describe(&m, &world))))?;
            check_views(ctx, &shape, &u, &m, &world, &readers, h, &format!("trimmed at {h}"))?;
        }
        ctx.count("trims", 1);
        if freed > 0 { ctx.count("trim_freed", 1); }
        if u.bytes().len() + freed != before { viol!("trim at {h} reports {freed} bytes but the row went from {before} to {}", u.bytes().len()); }
        last_is(&shape, &u, &row, "after trim")?;
        if r.chance(1, 4) {
            // history keeps growing on a trimmed row
            let mut w = world.clone();
            let c2 = top + 20;
            w.insert(c2, Fate::Commit(c2 + 2));
            if nv > 0 && m.deleted.is_none() {
                let i = r.us(nv);
                let nvl = any(&mut r, kinds[nk + i], big);
                let mut row2 = row.clone();
                row2[nk + i] = nvl.clone();
                if let Err(e) = u.update(&shape, &HashMap::from([(i, nvl.db())]), c2) { viol!("update after trim fails: {e}"); }
                let mut m2 = Model { versions: m.versions.clone(), deleted: None };
                m2.versions.push((c2, row2));
                check_views(ctx, &shape, &u, &m2, &w, &[top.max(h), c2 + 1, c2 + 3, c2], if aborts { view(&world, h, false).xmin.max(h) } else { h }, "update after trim")?;
            }
        }
    }
    Ok(())
}

/// Every chain of up to 3 updates over one key and two values, every fate, every mask, delete or not.
fn exhaustive(ctx: &mut Ctx) -> CaseResult {
    let kinds = [K::Int, K::T, K::Big];
    let shape = Shape::table(&kinds.iter().map(|k| k.db()).collect::<Vec<_>>(), 1);
    let fates = |t: u64, k: usize| match k { 0 => Fate::Commit(t), 1 => Fate::Open, 2 => Fate::Abort(t), _ => Fate::Commit(t + 5) };
    for ups in 0..=3usize {
        for f in 0..4usize.pow(ups as u32 + 1) {
            for masks in 0..3usize.pow(ups as u32) {
                for del in 0..3 {
                    let mut world = World::new();
                    let mut row = vec![V::Int(1), V::T(b"first".to_vec()), V::Null];
                    let (mut ff, mut mm) = (f, masks);
                    world.insert(2, fates(2, ff % 4));
                    ff /= 4;
                    let mut t = Versions::build(&shape, &row.iter().map(V::db).collect::<Vec<_>>(), 2).map_err(Fail::Violation)?;
                    let mut m = Model { versions: vec![(2, row.clone())], deleted: None };
                    for u in 0..ups {
                        let id = 4 + 2 * u as u64;
                        world.insert(id, fates(id, ff % 4));
                        ff /= 4;
                        let mut ch = HashMap::new();
                        if mm % 3 != 1 { row[1] = if u % 2 == 0 { V::Null } else { V::T(vec![b'x'; 3 + 5 * u]) }; ch.insert(0, row[1].db()); }
                        if mm % 3 != 0 { row[2] = V::Big(u as i64 - 1); ch.insert(1, row[2].db()); }
                        mm /= 3;
                        t.update(&shape, &ch, id).map_err(Fail::Violation)?;
                        m.versions.push((id, row.clone()));
                    }
                    if del > 0 { let id = 12; world.insert(id, fates(id, del - 1)); t.delete(id).map_err(Fail::Violation)?; m.deleted = Some(id); }
                    let readers: Vec<u64> = (0..=20).collect();
                    check_views(ctx, &shape, &t, &m, &world, &readers, 0, "exhaustive")?;
                    for h in [0, 3, 4, 5, 7, 9, 11, 13, 20] {
                        let mut u = t.clone();
                        let v = view(&world, h, false);
                        u.trim_for(&shape, &v).map_err(Fail::Violation)?;
                        let above: Vec<u64> = (h..=20).collect();
                        check_views(ctx, &shape, &u, &m, &world, &above, v.xmin, "exhaustive, trimmed")?;
                        if !world.values().any(|f| matches!(f, Fate::Abort(_))) {
                            let mut u = t.clone();
                            u.trim(&shape, h).map_err(Fail::Violation)?;
                            check_views(ctx, &shape, &u, &m, &world, &readers, h, "exhaustive, trimmed by horizon")?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Text of every length around the prefix and alignment boundaries, updated back and forth.
fn every_width(ctx: &mut Ctx) -> CaseResult {
    let shape = Shape::table(&[K::T.db(), K::T.db(), K::Big.db(), K::T.db(), K::Bool.db()], 1);
    for n in (0..40).chain(120..136).chain(16380..16390) {
        let mut world = World::new();
        let mut row = vec![V::T(vec![b'k'; n]), V::T(vec![b'v'; n]), V::Big(-5), V::Null, V::Bool(true)];
        let mut t = Versions::build(&shape, &row.iter().map(V::db).collect::<Vec<_>>(), 1).map_err(Fail::Violation)?;
        world.insert(1, Fate::Commit(1));
        let mut m = Model { versions: vec![(1, row.clone())], deleted: None };
        for (i, len) in [0usize, n + 1, n / 2, n + 7].into_iter().enumerate() {
            let id = 3 + 2 * i as u64;
            row[1 + i % 3] = match i % 3 { 0 => V::T(vec![b'w'; len]), 1 => V::Big(len as i64), _ => V::T(vec![b'z'; len]) };
            t.update(&shape, &HashMap::from([(i % 3, row[1 + i % 3].db())]), id).map_err(Fail::Violation)?;
            world.insert(id, Fate::Commit(id));
            m.versions.push((id, row.clone()));
            last_is(&shape, &t, &row, "width")?;
        }
        let readers: Vec<u64> = (1..12).collect();
        check_views(ctx, &shape, &t, &m, &world, &readers, 0, "width")?;
    }
    Ok(())
}
