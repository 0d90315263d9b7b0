//! The tree driver used by C10 and C11: random operations on real trees beside a sorted-map model.
use crate::audit;
use crate::rng::Rng;
use crate::run::*;
use crate::val::*;
use crate::viol;
use axmosdb::DBConfig;
use axmosdb::verif::{store::{Store, Tree}, tuples::{Shape, Versions, key_bytes}};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::path::PathBuf;

#[derive(Clone, Debug)]
pub struct Key(pub Vec<V>);
impl PartialEq for Key { fn eq(&self, o: &Key) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for Key {}
impl PartialOrd for Key { fn partial_cmp(&self, o: &Key) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Key { fn cmp(&self, o: &Key) -> Ordering { audit::cmp_keys(&self.0, &o.0, self.0.len()) } }

pub struct One { pub tree: Option<Tree>, pub kinds: Vec<K>, pub nk: usize, pub model: BTreeMap<Key, Vec<V>>, pub shape: Shape, pub keyspace: u64, pub keymax: usize }
pub struct Forest { pub path: PathBuf, pub store: Option<Store>, pub page: usize, pub cache: usize, pub min: usize, pub sib: usize, pub trees: Vec<One>, pub xid: u64 }

fn shape(kinds: &[K], nk: usize, index: bool) -> Shape {
    let k: Vec<_> = kinds.iter().map(|k| k.db()).collect();
    if index { Shape::index(&k, nk) } else { Shape::table(&k, nk) }
}

impl Forest {
    pub fn new(ctx: &mut Ctx, r: &mut Rng) -> Result<Forest, Fail> {
        let page = *r.pick(&[4096usize, 4096, 4096, 8192, 16384, 32768, 65536]);
        let cache = *r.pick(&[24usize, 32, 48, 100, 400]);
        let (min, sib) = (3 + r.us(4), 1 + r.us(4));
        let path = ctx.dir().join("t.db");
        let store = Store::create(&path, DBConfig::new(page, cache, 1, min, sib)).map_err(|e| Fail::Inconclusive(format!("create: {e}")))?;
        ctx.note(format!("page {page} cache {cache} min keys {min} siblings {sib}"));
        Ok(Forest { path, store: Some(store), page, cache, min, sib, trees: vec![], xid: 1 })
    }
    pub fn st(&self) -> &Store { self.store.as_ref().unwrap() }
    pub fn add_tree(&mut self, ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
        let nk = *r.pick(&[1, 1, 1, 2, 3]);
        let nv = r.us(4);
        let keyk = [K::BigU, K::BigU, K::Int, K::Big, K::UInt, K::T, K::T, K::F64, K::F32, K::Bool];
        let mut kinds: Vec<K> = (0..nk).map(|_| *r.pick(&keyk)).collect();
        if nk == 1 && kinds[0] == K::Bool { kinds[0] = K::BigU; }
        for _ in 0..nv { kinds.push(*r.pick(&[K::T, K::T, K::Big, K::Int, K::F64, K::Bool])); }
        let index = r.chance(1, 4);
        let before = self.st().header();
        let free = audit_free(self.st())?;
        let t = match self.st().new_tree(self.min, self.sib) { Ok(t) => t, Err(e) => viol!("allocating a page fails: {e}") };
        let after = self.st().header();
        if !free.is_empty() {
            ctx.count("allocations_with_free_pages", 1);
            if after.total_pages != before.total_pages { viol!("a page was taken from the end of the file ({} -> {} pages) while {} pages were free", before.total_pages, after.total_pages, free.len()); }
            if !free.contains(&t.root()) { viol!("the page handed out, {}, is not one of the free ones", t.root()); }
        }
        ctx.note(format!("new tree {} at page {} kinds {kinds:?} keys {nk} index {index}", self.trees.len(), t.root()));
        let keyspace = *r.pick(&[3u64, 30, 200, 1000, u64::MAX]);
        let keymax = *r.pick(&[4usize, 20, 60, 300, 2000, 9000]);
        let s = shape(&kinds, nk, index);
        self.trees.push(One { tree: Some(t), kinds, nk, model: BTreeMap::new(), shape: s, keyspace, keymax });
        Ok(())
    }
    pub fn key(o: &One, r: &mut Rng) -> Vec<V> {
        let n = r.below(o.keyspace);
        (0..o.nk).map(|i| {
            let x = if i + 1 == o.nk { n } else { n % 5 };
            let small = o.keyspace != u64::MAX;
            match o.kinds[i] {
                K::BigU => V::BigU(x), K::Big => V::Big(if small { x as i64 - 40 } else { x as i64 }), K::Int => V::Int(if small { x as i32 - 40 } else { x as i32 }), K::UInt => V::UInt(x as u32),
                K::F64 => V::F64(if small { x as f64 / 4.0 - 3.0 } else { (x >> 12) as f64 - 1e15 }), K::F32 => V::F32(if small { x as f32 / 4.0 - 3.0 } else { (x >> 44) as f32 }),
                K::Bool => V::Bool(x % 2 == 1),
                K::T => {
                    // same text for the same number; long shared prefixes
                    let len = (crate::fnv(&x.to_le_bytes()) as usize) % (o.keymax + 1);
                    let mut t = vec![b'p'; len];
                    t.extend_from_slice(format!("{:x}", x.wrapping_mul(0x9E37_79B9)).as_bytes());
                    if x % 7 == 0 { t = format!("{x}").into_bytes(); }
                    V::T(t)
                }
            }
        }).collect()
    }
    pub fn row(&self, o: &One, key: Vec<V>, r: &mut Rng, style: usize) -> Vec<V> {
        let mut row = key;
        for i in o.nk..o.kinds.len() {
            row.push(if r.chance(1, 6) { V::Null } else if o.kinds[i] == K::T {
                let n = match style {
                    0 => r.us(30), 1 => r.us(self.page / 4), 2 => self.page / 4 - r.us(200), 3 => r.us(3 * self.page), 4 => r.us(12 * self.page),
                    _ => match r.us(12) { 0 => r.us(10 * self.page), 1 => self.page / 2 + r.us(self.page), 2 => self.page - r.us(300), 3 => r.us(self.page / 3), _ => r.us(120) },
                };
                let mut t = vec![b'a' + r.us(26) as u8; n];
                for k in 0..n.min(12) { let at = r.us(n); t[at] = k as u8; }
                V::T(t)
            } else { any(r, o.kinds[i], 0) });
        }
        row
    }
    fn vers(&mut self, ti: usize, row: &[V]) -> Result<Versions, Fail> {
        self.xid += 1;
        Versions::build(&self.trees[ti].shape, &row.iter().map(V::db).collect::<Vec<_>>(), self.xid).map_err(|e| Fail::Violation(format!("row {} cannot be encoded: {e}", show_row(row))))
    }
    /// One operation on a tree; kind 0 insert 1 upsert 2 update 3 remove 4 remove by key bytes
    pub fn op(&mut self, ctx: &mut Ctx, r: &mut Rng, ti: usize, kind: usize, key: Vec<V>, style: usize) -> CaseResult {
        let row = { let o = &self.trees[ti]; self.row(o, key, r, style) };
        let v = self.vers(ti, &row)?;
        let o = &mut self.trees[ti];
        let k = Key(row[..o.nk].to_vec());
        let had = o.model.contains_key(&k);
        let t = o.tree.as_ref().unwrap();
        let name = ["insert", "upsert", "update", "remove", "remove by key"][kind];
        let res = match kind {
            0 => t.insert(&v, &o.shape), 1 => t.upsert(&v, &o.shape), 2 => t.update(&v, &o.shape), 3 => t.remove(&v, &o.shape),
            _ => key_bytes(&k.0.iter().map(V::db).collect::<Vec<_>>()).and_then(|b| t.remove_key(&b, &o.shape)),
        };
        let should = match kind { 0 => !had, 1 => true, _ => had };
        if ctx.log.len() < 3000 { ctx.note(format!("tree {ti} {name} {} -> {}", show_row(&row), if res.is_ok() { "ok" } else { "refused" })); } else { ctx.mix(name); }
        match (&res, should) {
            (Ok(()), false) => viol!("{name} of {} succeeds although the key is {}", show_row(&k.0), if had { "there" } else { "not there" }),
            (Err(e), true) => viol!("{name} of {} fails: {e}", show_row(&row)),
            _ => {}
        }
        if res.is_ok() {
            ctx.count(["inserts", "upserts", "updates", "removes", "removes"][kind], 1);
            if kind >= 3 { o.model.remove(&k); } else { if had { ctx.count("replaced", 1); } o.model.insert(k.clone(), row.clone()); }
        } else { ctx.count("refused", 1); }
        // the key just touched
        self.lookup(ctx, ti, &k)
    }
    pub fn lookup(&mut self, ctx: &mut Ctx, ti: usize, k: &Key) -> CaseResult {
        let o = &self.trees[ti];
        let t = o.tree.as_ref().unwrap();
        let b = key_bytes(&k.0.iter().map(V::db).collect::<Vec<_>>()).map_err(Fail::Inconclusive)?;
        let got = match t.get(&b, &o.shape) { Ok(g) => g, Err(e) => viol!("lookup of {} fails: {e}", show_row(&k.0)) };
        let got = match got { None => None, Some(v) => Some(row_of(&v.last(&o.shape).map_err(|e| Fail::Violation(format!("row of {} cannot be decoded: {e}", show_row(&k.0))))?)) };
        ctx.count("lookups", 1);
        match (&got, o.model.get(k)) {
            (None, None) => Ok(()),
            (Some(g), Some(w)) if same_row(g, w) => Ok(()),
            (g, w) => viol!("lookup of {} in tree {ti} gives {} instead of {}", show_row(&k.0), g.as_deref().map(show_row).unwrap_or("nothing".into()), w.map(|w| show_row(w)).unwrap_or("nothing".into())),
        }
    }
    pub fn scans(&mut self, ctx: &mut Ctx, ti: usize) -> CaseResult {
        let o = &self.trees[ti];
        let t = o.tree.as_ref().unwrap();
        for fwd in [true, false] {
            let got = match t.scan(&o.shape, fwd) { Ok(g) => g, Err(e) => viol!("scan of tree {ti} (forward {fwd}) fails: {e}") };
            let want: Vec<&Vec<V>> = if fwd { o.model.values().collect() } else { o.model.values().rev().collect() };
            ctx.count("rows_scanned", got.len() as u64);
            for (i, w) in want.iter().enumerate() {
                match got.get(i) {
                    Some(g) if same_row(&row_of(g), w) => {}
                    g => viol!("scan of tree {ti} (forward {fwd}): row {i} is {} instead of {}", g.map(|g| show_row(&row_of(g))).unwrap_or("missing".into()), show_row(w)),
                }
            }
            if got.len() > want.len() { viol!("scan of tree {ti} (forward {fwd}) returns {} rows, {} stored; first extra {}", got.len(), want.len(), show_row(&row_of(&got[want.len()]))); }
        }
        Ok(())
    }
    pub fn structure(&mut self, ctx: &mut Ctx, ti: usize) -> CaseResult {
        let o = &self.trees[ti];
        let t = match audit::tree(self.st(), o.tree.as_ref().unwrap().root(), &o.shape, o.nk) { Ok(t) => t, Err(e) => viol!("structure of tree {ti}: {e}") };
        ctx.count("structures", 1);
        ctx.max("depth", t.depth as u64);
        ctx.max("leaves", t.leaves as u64);
        ctx.max("chains", t.chains as u64);
        if t.depth > 1 { ctx.nontrivial = true; ctx.count("structures_with_inner_pages", 1); }
        if t.chains > 0 { ctx.count("structures_with_chains", 1); }
        if t.rows.len() != o.model.len() { viol!("tree {ti} holds {} rows in its leaves, {} stored", t.rows.len(), o.model.len()); }
        match o.tree.as_ref().unwrap().height() { Ok(h) if h == t.depth || t.rows.is_empty() => Ok(()), x => viol!("tree {ti} is {} levels deep but says {x:?}", t.depth) }
    }
    pub fn audit(&mut self, ctx: &mut Ctx) -> Result<audit::Audit, Fail> {
        let roots: Vec<(String, u64)> = self.trees.iter().enumerate().filter_map(|(i, o)| o.tree.as_ref().map(|t| (format!("tree {i}"), t.root()))).collect();
        let a = match audit::pages(self.st(), &roots) { Ok(a) => a, Err(e) => viol!("page audit: {e}") };
        ctx.count("audits", 1);
        ctx.max("pages", a.total);
        if !a.free.is_empty() { ctx.count("audits_with_free_pages", 1); }
        if a.links > 0 { ctx.count("audits_with_chains", 1); }
        Ok(a)
    }
    pub fn reopen(&mut self, ctx: &mut Ctx) -> CaseResult {
        let roots: Vec<Option<u64>> = self.trees.iter().map(|o| o.tree.as_ref().map(|t| t.root())).collect();
        for o in &mut self.trees { o.tree = None; }
        let s = self.store.take().unwrap();
        if let Err(e) = s.flush() { viol!("flush fails: {e}"); }
        drop(s);
        let s = match Store::open(&self.path, self.cache) { Ok(s) => s, Err(e) => viol!("the file cannot be opened again: {e}") };
        for (o, root) in self.trees.iter_mut().zip(roots) { o.tree = root.map(|x| s.tree(x, self.min, self.sib)); }
        self.store = Some(s);
        ctx.count("reopens", 1);
        ctx.note("flush, close, reopen");
        Ok(())
    }
}
pub fn audit_free(s: &Store) -> Result<Vec<u64>, Fail> {
    let mut v = Vec::new();
    let mut n = s.header().first_free;
    while let Some(p) = n {
        v.push(p);
        if v.len() as u64 > s.header().total_pages { viol!("the free list is longer than the file: a cycle"); }
        n = match s.link(p) { Ok(l) => l.next, Err(e) => viol!("free page {p} cannot be read: {e}") };
    }
    Ok(v)
}
