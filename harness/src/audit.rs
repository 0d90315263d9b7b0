//! Whole-file page audit and B+tree structure audit, on the page graph the facade dumps.
use crate::val::*;
use axmosdb::verif::{store::{Node, Store}, tuples::Shape};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};

pub struct Audit { pub total: u64, pub nodes: u64, pub links: u64, pub free: Vec<u64>, pub owners: HashMap<u64, String> }

/// Every page but page zero must be exactly one of tree node, overflow link, free list member.
pub fn pages(store: &Store, roots: &[(String, u64)]) -> Result<Audit, String> {
    let h = store.header();
    let mut own: HashMap<u64, String> = HashMap::new();
    let mut claim = |id: u64, what: String| -> Result<(), String> {
        if id == 0 || id >= h.total_pages { return Err(format!("{what} is page {id} but the file has pages 1..{}", h.total_pages)); }
        if let Some(o) = own.insert(id, what.clone()) { return Err(format!("page {id} is both {o} and {what}")); }
        Ok(())
    };
    let (mut nodes, mut links) = (0, 0);
    for (name, root) in roots {
        let mut todo = vec![(*root, format!("root of {name}"))];
        while let Some((id, what)) = todo.pop() {
            claim(id, what.clone())?;
            nodes += 1;
            let n = store.node(id).map_err(|e| format!("{what} (page {id}) cannot be read: {e}"))?;
            if n.number != id { return Err(format!("page {id} ({what}) says it is page {}", n.number)); }
            for (i, c) in n.cells.iter().enumerate() {
                if let Some(l) = c.left_child { todo.push((l, format!("child {i} of page {id} of {name}"))); }
                let mut next = c.chain;
                let mut k = 0;
                while let Some(p) = next {
                    claim(p, format!("overflow link {k} of cell {i} of page {id} of {name}"))?;
                    let l = store.link(p).map_err(|e| format!("overflow page {p} cannot be read: {e}"))?;
                    if l.number != p { return Err(format!("overflow page {p} says it is page {}", l.number)); }
                    links += 1;
                    k += 1;
                    next = l.next;
                }
            }
            if let Some(rc) = n.right_child { todo.push((rc, format!("right child of page {id} of {name}"))); }
        }
    }
    let mut free = Vec::new();
    let mut next = h.first_free;
    while let Some(p) = next {
        claim(p, format!("free list member {}", free.len()))?;
        free.push(p);
        next = store.link(p).map_err(|e| format!("free page {p} cannot be read: {e}"))?.next;
    }
    if free.last().copied() != h.last_free { return Err(format!("the free list ends at {:?} but the header says {:?}", free.last(), h.last_free)); }
    for id in 1..h.total_pages { if !own.contains_key(&id) { return Err(format!("page {id} belongs to nothing (pages 1..{}, {} nodes, {links} overflow links, {} free)", h.total_pages, nodes, free.len())); } }
    Ok(Audit { total: h.total_pages, nodes, links, free, owners: own })
}

#[derive(Default, Clone, Debug)]
pub struct Tree { pub depth: usize, pub leaves: usize, pub inner: usize, pub chains: usize, pub rows: Vec<Vec<V>> }

pub fn cmp_keys(a: &[V], b: &[V], nk: usize) -> Ordering {
    for i in 0..nk { match a[i].cmp_exact(&b[i]) { Some(Ordering::Equal) => {} Some(o) => return o, None => return Ordering::Equal } }
    Ordering::Equal
}

/// Structure of one tree; returns its rows in key order.
pub fn tree(store: &Store, root: u64, shape: &Shape, nk: usize) -> Result<Tree, String> {
    let t = store.tree(root, 3, 1);
    let mut levels: BTreeMap<usize, Vec<Node>> = BTreeMap::new();
    let mut out = Tree::default();
    let row = |n: &Node, i: usize| t.cell_row(n.number, i, shape).map(|r| row_of(&r)).map_err(|e| format!("cell {i} of page {} cannot be decoded: {e}", n.number));
    struct S<'a> { levels: &'a mut BTreeMap<usize, Vec<Node>>, out: &'a mut Tree, leaf_depth: Option<usize>, nk: usize }
    // returns the smallest and largest key under the node
    fn walk(store: &Store, id: u64, d: usize, s: &mut S, row: &dyn Fn(&Node, usize) -> Result<Vec<V>, String>) -> Result<Option<(Vec<V>, Vec<V>)>, String> {
        if d > 40 { return Err("the tree is deeper than 40 levels".into()); }
        let n = store.node(id).map_err(|e| format!("page {id} cannot be read: {e}"))?;
        s.levels.entry(d).or_default().push(n.clone());
        let mut keys = Vec::new();
        for i in 0..n.cells.len() { keys.push(row(&n, i)?); if n.cells[i].chain.is_some() { s.out.chains += 1; } }
        for (i, w) in keys.windows(2).enumerate() {
            if cmp_keys(&w[0], &w[1], s.nk) != Ordering::Less { return Err(format!("keys {i} and {} of page {id} are not in order: {} then {}", i + 1, show_row(&w[0][..s.nk]), show_row(&w[1][..s.nk]))); }
        }
        if n.leaf {
            if n.cells.iter().any(|c| c.left_child.is_some()) { return Err(format!("leaf {id} has a cell with a child")); }
            match s.leaf_depth { None => s.leaf_depth = Some(d), Some(x) if x != d => return Err(format!("leaf {id} is at depth {d}, others at {x}")), _ => {} }
            s.out.leaves += 1;
            if keys.is_empty() && d > 0 { return Err(format!("leaf {id} is empty")); }
            let r = match (keys.first(), keys.last()) { (Some(a), Some(b)) => Some((a.clone(), b.clone())), _ => None };
            s.out.rows.extend(keys);
            return Ok(r);
        }
        s.out.inner += 1;
        if n.cells.is_empty() { return Err(format!("inner page {id} has no separators")); }
        let mut bounds: Option<(Vec<V>, Vec<V>)> = None;
        for i in 0..=n.cells.len() {
            let child = if i < n.cells.len() { n.cells[i].left_child } else { n.right_child };
            let Some(child) = child else { return Err(format!("inner page {id} lacks child {i}")) };
            let b = walk(store, child, d + 1, s, row)?;
            let Some((lo, hi)) = b else { return Err(format!("child {i} of page {id} is empty")) };
            if i > 0 && cmp_keys(&lo, &keys[i - 1], s.nk) == Ordering::Less { return Err(format!("page {id}: child {i} holds {} below separator {}", show_row(&lo[..s.nk]), show_row(&keys[i - 1][..s.nk]))); }
            if i < keys.len() && cmp_keys(&hi, &keys[i], s.nk) == Ordering::Greater { return Err(format!("page {id}: child {i} holds {} above separator {}", show_row(&hi[..s.nk]), show_row(&keys[i][..s.nk]))); }
            bounds = Some(match bounds { None => (lo, hi), Some((l, _)) => (l, hi) });
        }
        Ok(bounds)
    }
    let mut s = S { levels: &mut levels, out: &mut out, leaf_depth: None, nk };
    walk(store, root, 0, &mut s, &row)?;
    for (d, l) in &levels {
        for (i, n) in l.iter().enumerate() {
            let (prev, next) = (if i > 0 { Some(l[i - 1].number) } else { None }, l.get(i + 1).map(|n| n.number));
            if n.next != next || n.prev != prev { return Err(format!("page {} at depth {d}: siblings are {:?} and {:?} but its neighbours in key order are {prev:?} and {next:?}", n.number, n.prev, n.next)); }
        }
    }
    out.depth = levels.len();
    Ok(out)
}
