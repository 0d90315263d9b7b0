//! C17: the write-ahead log returns exactly what was appended and forced.
//! Monitor: a list model (appended, forced) is compared with what the reader returns after every
//! force, truncation and reopen (clean or after losing what memory held), with several read-aheads.
use crate::rng::Rng;
use crate::run::*;
use crate::viol;
use axmosdb::verif::log::{Entry, KINDS, Log};
use std::path::PathBuf;

pub static CHECK: Check = Check {
    id: "C17", level: "exploration",
    rule: "each case drives one log file through 20-160 operations: bursts of appends (payloads empty, tiny, filling the block to within a few bytes, maximal, oversized), forces, truncations, clean reopens, reopens that lose unforced memory, reads with read-ahead 1..9 blocks, and compares every read with a list model. Non-trivial: at least two forces with a block rotation between or after them.",
    quick: 700, thorough: 40_000, hang_s: 60, threads: 8, run, repros: REPROS,
    must_see: &["records_read", "forces", "truncations", "reopens", "losses", "rotations_between_forces", "oversized_refused", "boundary_fills"],
    assumptions: &["sequence numbers are given out the way the engine does: last one of the log plus one"],
};
const REPROS: &[(&str, fn(&mut Ctx) -> CaseResult)] = &[("every-offset", every_offset)];

struct Sim { path: PathBuf, log: Option<Log>, appended: Vec<Entry>, forced: usize, used: usize, max: usize, overhead: usize, forces_since_rot: u64 }

fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.us(4) { 0 => vec![0; n], 1 => vec![0xFF; n], _ => { let s = r.u64(); (0..n).map(|i| (s.rotate_left((i % 61) as u32) as u8) ^ i as u8).collect() } }
}
fn brief(e: &Entry) -> String { format!("lsn {} tid {} prev {:?} obj {:?} row {:?} kind {} undo {}b redo {}b", e.lsn, e.tid, e.prev, e.object, e.row, e.kind, e.undo.len(), e.redo.len()) }

impl Sim {
    fn new(path: PathBuf) -> Result<Sim, Fail> {
        let mut log = Log::create(&path).map_err(|e| Fail::Inconclusive(format!("create: {e}")))?;
        let max = log.max_record_size();
        Ok(Sim { path, log: Some(log), appended: vec![], forced: 0, used: 0, max, overhead: 64, forces_since_rot: 0 })
    }
    fn log(&mut self) -> &mut Log { self.log.as_mut().unwrap() }
    fn entry(&mut self, r: &mut Rng, undo: usize, redo: usize) -> Entry {
        let lsn = self.log().last_lsn().map(|l| l + 1).unwrap_or(0);
        let opt = |r: &mut Rng| match r.us(4) { 0 => None, 1 => Some(0), 2 => Some(r.u64() >> 1), _ => Some(r.below(50)) };
        let kind = *r.pick(&KINDS);
        Entry { lsn, tid: match r.us(4) { 0 => 0, 1 => r.u64() >> 1, _ => r.below(90) }, prev: opt(r), object: opt(r), row: opt(r), kind, undo: bytes(r, undo), redo: bytes(r, redo) }
    }
    fn push(&mut self, ctx: &mut Ctx, e: Entry) -> CaseResult {
        let size = e.undo.len() + e.redo.len();
        if let Some(last) = self.appended.last() && e.lsn <= last.lsn { viol!("the log hands out sequence number {} after {}", e.lsn, last.lsn); }
        match self.log().push(&e) {
            Ok(()) => {
                let sz = (size + self.overhead).next_multiple_of(64);
                if self.used + sz > self.max { self.used = sz; if self.forces_since_rot > 0 { ctx.count("rotations_between_forces", 1); ctx.nontrivial = true; } } else { self.used += sz; }
                self.appended.push(e);
                ctx.count("appended", 1);
                Ok(())
            }
            Err(x) if size + self.overhead + 128 > self.max => { ctx.count("oversized_refused", 1); ctx.note(format!("push of {size} bytes refused: {x}")); Ok(()) }
            Err(x) => viol!("append refused for {} (largest record {}): {x}", brief(&e), self.max),
        }
    }
    fn read(&mut self, ctx: &mut Ctx, ahead: usize) -> CaseResult {
        let got = match self.log().read(ahead) { Ok(g) => g, Err(e) => viol!("reading the log back (read-ahead {ahead}) fails: {e}") };
        let want = &self.appended[..self.forced];
        ctx.count("records_read", got.len() as u64);
        ctx.max("records_in_log", got.len() as u64);
        for (i, w) in want.iter().enumerate() {
            match got.get(i) {
                None => viol!("read-ahead {ahead}: record {i} of {} is missing ({}), only {} read", want.len(), brief(w), got.len()),
                Some(g) if g != w => viol!("read-ahead {ahead}: record {i} of {} differs: appended {} / read {}", want.len(), brief(w), brief(g)),
                _ => {}
            }
        }
        if got.len() > want.len() { viol!("read-ahead {ahead}: {} records read but {} were forced; first extra {}", got.len(), want.len(), brief(&got[want.len()])); }
        if let Some(p) = got.windows(2).find(|p| p[0].lsn >= p[1].lsn) { viol!("sequence numbers not increasing: {} then {}", p[0].lsn, p[1].lsn); }
        Ok(())
    }
    fn force(&mut self, ctx: &mut Ctx) -> CaseResult {
        if let Err(e) = self.log().force() { viol!("force fails: {e}"); }
        self.forced = self.appended.len();
        self.forces_since_rot += 1;
        ctx.count("forces", 1);
        Ok(())
    }
    fn reopen(&mut self, ctx: &mut Ctx, lose: bool) -> CaseResult {
        let l = self.log.take().unwrap();
        if lose { l.abandon(); self.appended.truncate(self.forced); ctx.count("losses", 1); } else { drop(l); self.forced = self.appended.len(); }
        ctx.count("reopens", 1);
        match Log::open(&self.path) { Ok(l) => self.log = Some(l), Err(e) => viol!("the log cannot be opened again: {e}") }
        let last = self.log().last_lsn();
        if let Some(e) = self.appended.last() && last.is_none_or(|l| l < e.lsn) { viol!("after a reopen the last sequence number is {last:?} but {} was forced", e.lsn); }
        Ok(())
    }
    fn truncate(&mut self, ctx: &mut Ctx) -> CaseResult {
        let before = self.log().last_lsn();
        if let Err(e) = self.log().truncate() { viol!("truncate fails: {e}"); }
        if before.is_some() && self.log().last_lsn() < before { viol!("sequence numbers go back from {before:?} to {:?} after a truncation", self.log().last_lsn()); }
        self.appended.clear();
        self.forced = 0;
        self.used = 0;
        ctx.count("truncations", 1);
        Ok(())
    }
}

fn run(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let mut s = Sim::new(ctx.dir().join("log"))?;
    let ops = 20 + r.us(140);
    let style = r.us(4);
    for _ in 0..ops {
        match r.weighted(&[40, 18, 4, 6, 4, 12, 8]) {
            0 => {
                let n = 1 + r.us(if style == 0 { 60 } else { 6 });
                for _ in 0..n {
                    let total = match (style, r.us(10)) {
                        (_, 0) => 0,
                        (1, _) => r.us(s.max),
                        (2, _) => s.max - 64 - r.us(80).min(s.max - 64),
                        (_, 1) => s.max / 2 - r.us(90),
                        (_, 2) => s.max + r.us(70000),
                        (_, 3) => s.max - r.us(200),
                        (_, 4) => r.us(s.max),
                        _ => r.us(300),
                    };
                    let undo = match r.us(4) { 0 => 0, 1 => total, 2 => total / 2, _ => r.us(total + 1) };
                    if undo > 65535 || total - undo > 65535 { continue; }
                    let e = s.entry(&mut r, undo, total - undo);
                    ctx.mix(&format!("p{total}/{undo}"));
                    s.push(ctx, e)?;
                }
            }
            // fill the current block to within a few bytes of its end
            6 => {
                let left = s.max.saturating_sub(s.used);
                if left > s.overhead + 64 {
                    let k = r.us(3) * 8 + r.us(9);
                    let total = left.saturating_sub(s.overhead + k);
                    let e = s.entry(&mut r, total / 3, total - total / 3);
                    ctx.count("boundary_fills", 1);
                    ctx.mix(&format!("b{total}"));
                    s.push(ctx, e)?;
                }
            }
            1 => { s.force(ctx)?; ctx.mix("f"); s.read(ctx, 1)?; }
            2 => { s.truncate(ctx)?; ctx.note("truncate"); s.read(ctx, 2)?; }
            3 => { s.reopen(ctx, false)?; ctx.note("reopen"); s.read(ctx, 1 + ctx.idx as usize % 5)?; }
            4 => { s.reopen(ctx, true)?; ctx.note("lose unforced and reopen"); s.read(ctx, 1)?; }
            _ => { let a = 1 + r.us(9); s.read(ctx, a)?; }
        }
        ctx.max("log_size", s.appended.len() as u64);
    }
    s.reopen(ctx, false)?;
    for a in 1..=4 { s.read(ctx, a)?; }
    ctx.sample = Some(format!("{} records in the log at the end, {ops} operations, style {style}", s.appended.len()));
    Ok(())
}

/// One record whose size sweeps over a whole alignment period around the block's end, then another force.
fn every_offset(ctx: &mut Ctx) -> CaseResult {
    let mut r = Rng::new(7);
    for k in 0..200usize {
        let mut s = Sim::new(ctx.dir().join(format!("log{k}")))?;
        for round in 0..3 {
            let total = s.max.saturating_sub(k + 60);
            let e = s.entry(&mut r, total / 2, total - total / 2);
            s.push(ctx, e)?;
            let e = s.entry(&mut r, round, k);
            s.push(ctx, e)?;
            s.force(ctx)?;
            s.read(ctx, 1 + k % 3)?;
        }
        s.reopen(ctx, k % 2 == 0)?;
        s.read(ctx, 2)?;
        drop(s.log.take());
        let _ = std::fs::remove_file(&s.path);
    }
    Ok(())
}
