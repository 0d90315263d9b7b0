//! C10: each B+tree is a correct ordered map with sound structure.
//! Monitors: a sorted-map model (lookup after every operation, full scans in both directions) and a
//! walk of the page graph (depth, order inside and across pages, separators, sibling links).
use super::trees::*;
use crate::rng::Rng;
use crate::run::*;
use crate::val::*;

pub static CHECK: Check = Check {
    id: "C10", level: "exploration",
    rule: "each case makes a file with random page size (4-64 KiB), cache (24-400 pages), minimum keys and siblings, one or two trees with 1-3 keys of random kinds (numbers, texts up to several pages), and drives 60-500 operations in phases (random, ascending, descending, delete-everything, reinsert, grow/shrink) with payloads from a few bytes to 12 pages; the structure is walked and both scans compared every few operations. Non-trivial: a walk saw a tree with inner pages.",
    quick: 1500, thorough: 60_000, hang_s: 120, threads: 8, run, repros: REPROS,
    must_see: &["inserts", "upserts", "updates", "removes", "replaced", "refused", "structures_with_inner_pages", "structures_with_chains", "rows_scanned", "emptied", "reopens"],
    assumptions: &["keys are never NULL or NaN", "a separator may equal the smallest key to its right"],
};
const REPROS: &[(&str, fn(&mut Ctx) -> CaseResult)] = &[("overflow-keys", overflow_keys), ("wide-then-narrow", wide_then_narrow)];

fn run(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let mut f = Forest::new(ctx, &mut r)?;
    for _ in 0..1 + r.us(2) { f.add_tree(ctx, &mut r)?; }
    let phases = 2 + r.us(4);
    for _ in 0..phases {
        let ti = r.us(f.trees.len());
        let style = r.us(8);
        let n = 20 + r.us(if style == 0 { 300 } else { 110 });
        let every = 1 + r.us(if n > 100 { 40 } else { 12 });
        let kind = r.us(6);
        ctx.note(format!("phase {kind} on tree {ti}, {n} operations, payload style {style}"));
        let mut keys: Vec<Vec<V>> = (0..n).map(|_| Forest::key(&f.trees[ti], &mut r)).collect();
        match kind {
            1 => keys.sort_by(|a, b| Key(a.clone()).cmp(&Key(b.clone()))),
            2 => { keys.sort_by(|a, b| Key(b.clone()).cmp(&Key(a.clone()))) }
            _ => {}
        }
        if kind == 3 || kind == 5 {
            keys = f.trees[ti].model.keys().map(|k| k.0.clone()).collect();
            match r.us(3) { 0 => r.shuffle(&mut keys), 1 => keys.reverse(), _ => {} }
        }
        for (i, k) in keys.into_iter().enumerate() {
            let op = match kind { 3 => 3 + r.us(2), 4 => r.weighted(&[3, 2, 3, 3, 1]), 5 => 1 + r.us(2), _ => r.weighted(&[8, 3, 1, 1, 0]) };
            f.op(ctx, &mut r, ti, op, k, style)?;
            if i % every == 0 { f.structure(ctx, ti)?; }
            if i % (4 * every) == 0 { f.scans(ctx, ti)?; }
        }
        if kind == 3 { ctx.count("emptied", f.trees[ti].model.is_empty() as u64); }
        f.structure(ctx, ti)?;
        f.scans(ctx, ti)?;
        let all: Vec<Key> = f.trees[ti].model.keys().cloned().collect();
        for k in &all { f.lookup(ctx, ti, k)?; }
        for _ in 0..8 { let k = Key(Forest::key(&f.trees[ti], &mut r)); f.lookup(ctx, ti, &k)?; }
        if r.chance(1, 4) { f.reopen(ctx)?; f.scans(ctx, ti)?; }
    }
    ctx.sample = Some(ctx.log.iter().take(10).cloned().collect::<Vec<_>>().join("\n"));
    Ok(())
}

fn fixed(ctx: &mut Ctx, kinds: Vec<K>, nk: usize, page: usize, min: usize, sib: usize) -> Result<Forest, Fail> {
    use axmosdb::verif::{store::Store, tuples::Shape};
    let path = ctx.dir().join("f.db");
    let store = Store::create(&path, axmosdb::DBConfig::new(page, 40, 1, min, sib)).map_err(|e| Fail::Inconclusive(e.to_string()))?;
    let t = store.new_tree(min, sib).map_err(|e| Fail::Inconclusive(e.to_string()))?;
    let shape = Shape::table(&kinds.iter().map(|k| k.db()).collect::<Vec<_>>(), nk);
    let one = One { tree: Some(t), kinds, nk, model: Default::default(), shape, keyspace: u64::MAX, keymax: 10 };
    Ok(Forest { path, store: Some(store), page, cache: 40, min, sib, trees: vec![one], xid: 1 })
}
/// Keys of several pages that differ only in their last byte, removed in every order.
fn overflow_keys(ctx: &mut Ctx) -> CaseResult {
    let mut r = Rng::new(3);
    for (min, sib) in [(3, 1), (4, 2)] {
        let mut f = fixed(ctx, vec![K::T, K::Int], 1, 4096, min, sib)?;
        let key = |i: usize| { let mut t = vec![b'q'; 9000]; t.push(i as u8); vec![V::T(t)] };
        for i in 0..60 { f.op(ctx, &mut r, 0, 0, key((i * 37) % 61), 0)?; f.structure(ctx, 0)?; }
        f.scans(ctx, 0)?;
        for i in 0..60 { f.op(ctx, &mut r, 0, 3, key((i * 23) % 61), 0)?; f.structure(ctx, 0)?; f.audit(ctx)?; }
        f.scans(ctx, 0)?;
        let _ = std::fs::remove_file(&f.path);
    }
    Ok(())
}
/// Rows grown to a quarter page, then shrunk to nothing, then grown to many pages, in place.
fn wide_then_narrow(ctx: &mut Ctx) -> CaseResult {
    let mut r = Rng::new(9);
    let mut f = fixed(ctx, vec![K::BigU, K::T], 1, 4096, 3, 2)?;
    for i in 0..120u64 { f.op(ctx, &mut r, 0, 0, vec![V::BigU((i * 53) % 121)], 0)?; }
    for style in [2, 0, 3, 0, 2, 4, 1] {
        for i in 0..120u64 { f.op(ctx, &mut r, 0, 1, vec![V::BigU((i * 31) % 121)], style)?; if i % 10 == 0 { f.structure(ctx, 0)?; f.audit(ctx)?; } }
        f.scans(ctx, 0)?;
    }
    Ok(())
}
