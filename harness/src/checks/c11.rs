//! C11: every page has exactly one owner; freed pages are reused, never lost.
//! Monitors: whole-file audit (tree nodes, overflow chains, free list) after operations and reopens;
//! allocations while pages are free must not grow the file; repeating the same work must not either.
use super::trees::*;
use crate::run::*;
use crate::val::*;
use crate::viol;

pub static CHECK: Check = Check {
    id: "C11", level: "exploration",
    rule: "each case drives several trees in one file (rows from bytes to 12 pages, shrinking and growing updates, removals, whole trees released and made again, reopens) and audits the owner of every page every few operations. Non-trivial: an audit saw both overflow chains and free pages.",
    quick: 3000, thorough: 120_000, hang_s: 120, threads: 8, run, repros: REPROS,
    must_see: &["audits", "audits_with_free_pages", "audits_with_chains", "allocations_with_free_pages", "trees_released", "refills", "reopens"],
    assumptions: &["page ownership is judged when no operation is running"],
};
const REPROS: &[(&str, fn(&mut Ctx) -> CaseResult)] = &[];

fn run(ctx: &mut Ctx) -> CaseResult {
    if ctx.idx % 4 == 3 { ctx.nontrivial = true; return super::hist::c11_db(ctx); }
    let mut r = ctx.rng.fork();
    let mut f = Forest::new(ctx, &mut r)?;
    for _ in 0..1 + r.us(3) { f.add_tree(ctx, &mut r)?; }
    for _ in 0..3 + r.us(5) {
        let live: Vec<usize> = (0..f.trees.len()).filter(|i| f.trees[*i].tree.is_some()).collect();
        match r.weighted(&[12, 2, 2, 2, 2]) {
            1 if live.len() < 6 => f.add_tree(ctx, &mut r)?,
            2 if live.len() > 1 => {
                let ti = *r.pick(&live);
                let a = f.audit(ctx)?;
                let t = f.trees[ti].tree.take().unwrap();
                ctx.note(format!("release tree {ti}"));
                if let Err(e) = t.dealloc() { viol!("releasing tree {ti} fails: {e}"); }
                f.trees[ti].model.clear();
                let b = f.audit(ctx)?;
                let owned = a.owners.values().filter(|o| o.ends_with(&format!("of tree {ti}"))).count();
                if b.free.len() != a.free.len() + owned || b.total != a.total { viol!("tree {ti} owned {owned} pages; releasing it took the free list from {} to {} pages", a.free.len(), b.free.len()); }
                ctx.count("trees_released", 1);
            }
            3 => { f.reopen(ctx)?; f.audit(ctx)?; }
            4 => {
                // fill, empty, and fill again with the same rows: the second time everything fits in what is there
                let ti = *r.pick(&live);
                let style = r.us(8);
                let keys: Vec<Vec<V>> = (0..30).map(|_| Forest::key(&f.trees[ti], &mut r)).collect();
                let mut first_cycle = 0;
                for round in 0..4 {
                    let mut rr = crate::rng::Rng::new(ctx.idx + 77);
                    let ks: Vec<Key> = f.trees[ti].model.keys().cloned().collect();
                    for k in ks { f.op(ctx, &mut r, ti, 3, k.0, 0)?; }
                    let a = f.audit(ctx)?;
                    if round == 1 { first_cycle = a.total; }
                    if round > 1 && a.total > first_cycle { viol!("redoing the same work (filling tree {ti} and emptying it) grows the file from {first_cycle} to {} pages", a.total); }
                    if round < 3 { for k in &keys { f.op(ctx, &mut rr, ti, 1, k.clone(), style)?; } }
                }
                ctx.count("refills", 1);
            }
            _ => {
                let ti = *r.pick(&live);
                let style = r.us(8);
                let n = 10 + r.us(70);
                let every = 1 + r.us(10);
                let w = *r.pick(&[[8u64, 3, 1, 1, 0], [2, 2, 4, 6, 2], [0, 6, 4, 1, 1]]);
                for i in 0..n {
                    let k = if r.chance(1, 3) && !f.trees[ti].model.is_empty() { let n = r.us(f.trees[ti].model.len()); f.trees[ti].model.keys().nth(n).unwrap().0.clone() } else { Forest::key(&f.trees[ti], &mut r) };
                    let op = r.weighted(&w);
                    f.op(ctx, &mut r, ti, op, k, style)?;
                    if i % every == 0 { let a = f.audit(ctx)?; if a.links > 0 && !a.free.is_empty() { ctx.nontrivial = true; } }
                }
            }
        }
        f.audit(ctx)?;
    }
    for i in 0..f.trees.len() { if f.trees[i].tree.is_some() { f.scans(ctx, i)?; } }
    ctx.sample = Some(ctx.log.iter().take(10).cloned().collect::<Vec<_>>().join("\n"));
    Ok(())
}
