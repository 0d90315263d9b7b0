//! `vh script FILE` runs the history of a replay file again, `vh shrink FILE TEXT` drops steps of it while TEXT is still in the output.
use crate::drv::{exec, got, Got};
use crate::val::*;
use axmosdb::{DBConfig, Database};
use axmosdb::tcp::session::Session;
use axmosdb::verif::store::Store;

#[derive(Clone, Debug)]
enum A { Sql(Option<usize>, String), Batch(Vec<String>), Begin(usize), End(usize, String), Vacuum, Analyze, Flush, Reopen(Vec<usize>), Audit, Show }

fn nums(s: &str) -> Vec<usize> { s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
fn parse(text: &str) -> Vec<A> {
    let mut out = Vec::new();
    let mut batch = false;
    for l in text.lines() {
        if batch && l.starts_with("    ") && !l.starts_with("   ->") { if let Some(A::Batch(b)) = out.last_mut() { b.push(l.trim().into()); } continue; }
        batch = false;
        if let Some(q) = l.strip_prefix("auto: ") { out.push(A::Sql(None, q.into())); }
        else if l.starts_with("batch of ") { out.push(A::Batch(vec![])); batch = true; }
        else if l == "VACUUM" { out.push(A::Vacuum); } else if l == "ANALYZE" { out.push(A::Analyze); } else if l == "flush" { out.push(A::Flush); } else if l == "AUDIT" { out.push(A::Audit); } else if l == "SHOW" { out.push(A::Show); }
        else if l.starts_with("close and open with") { out.push(A::Reopen(nums(l))); }
        else if let Some((n, rest)) = l.strip_prefix('s').and_then(|x| x.split_once(": ")) {
            let Ok(n) = n.parse::<usize>() else { continue };
            match rest { "BEGIN" => out.push(A::Begin(n)), "Commit" | "Abort" | "Drop" => out.push(A::End(n, rest.into())), q => out.push(A::Sql(Some(n), q.into())) }
        }
    }
    out
}
fn show(r: Result<Got, String>) -> String {
    match r { Ok(Got::Rows(n, rows)) => format!("[{}] {}", n.join(","), rows.iter().map(|r| show_row(r)).collect::<Vec<_>>().join(" ")), Ok(o) => format!("{o:?}"), Err(e) => format!("ERR {e}") }
}
fn line(a: &A) -> String {
    match a { A::Sql(None, q) => format!("auto: {q}"), A::Sql(Some(i), q) => format!("s{i}: {q}"), A::Batch(b) => format!("batch of {}:\n    {}", b.len(), b.join("\n    ")), A::Begin(i) => format!("s{i}: BEGIN"), A::End(i, h) => format!("s{i}: {h}"),
        A::Vacuum => "VACUUM".into(), A::Analyze => "ANALYZE".into(), A::Flush => "flush".into(), A::Audit => "AUDIT".into(), A::Show => "SHOW".into(), A::Reopen(v) => format!("close and open with {v:?}") }
}
fn run(acts: &[A], cfg: &[usize], print: bool) -> String {
    let dir = std::env::temp_dir().join(format!("vh-script-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("x.db");
    let conf = |v: &[usize]| DBConfig::new(v[0], v[1], v[2], v[3], v[4]);
    let mut db = Some(Database::create(&path, conf(cfg)).expect("create"));
    let mut sess: std::collections::BTreeMap<usize, Session> = Default::default();
    let mut all = String::new();
    for a in acts {
        let d = db.as_ref().unwrap();
        let e = |r: Result<String, String>| r.unwrap_or_else(|e| format!("ERR {e}"));
        let out = match a {
            A::Sql(None, q) => show(exec(d, q)),
            A::Sql(Some(i), q) => match sess.get_mut(i) { Some(s) => show(s.execute(q).map(got).map_err(|e| e.to_string())), None => "-".into() },
            A::Batch(b) => e(d.execute_batch(&b.iter().map(|s| s.as_str()).collect::<Vec<_>>()).map(|r| format!("{}", r.len())).map_err(|e| e.to_string())),
            A::Begin(i) => { sess.remove(i); match d.session() { Ok(s) => { sess.insert(*i, s); String::new() } Err(e) => e.to_string() } }
            A::End(i, h) => match sess.remove(i) { None => "-".into(), Some(mut s) => match h.as_str() { "Commit" => e(s.commit_transaction().map(|_| String::new()).map_err(|e| e.to_string())), "Abort" => e(s.abort_transaction().map(|_| String::new()).map_err(|e| e.to_string())), _ => String::new() } },
            A::Vacuum => e(d.vacuum().map(|_| String::new()).map_err(|e| e.to_string())),
            A::Analyze => e(d.analyze(1.0, 10_000).map(|_| String::new()).map_err(|e| e.to_string())),
            A::Flush => e(d.flush().map(|_| String::new()).map_err(|e| e.to_string())),
            A::Reopen(v) => { sess.clear(); db = None; match Database::open(&path, conf(v)) { Ok(x) => { db = Some(x); String::new() } Err(e) => { let _ = std::fs::remove_dir_all(&dir); return all + &format!("open fails: {e}"); } } }
            A::Audit => { sess.clear(); let _ = d.vacuum(); let st = Store::of(d); match st.roots() { Ok(r) => match crate::audit::pages(&st, &r.iter().map(|r| (r.0.clone(), r.1)).collect::<Vec<_>>()) { Ok(_) => "audit ok".into(), Err(m) => format!("page audit: {m}") }, Err(e) => format!("page audit: {e}") } }
            A::Show => { let st = Store::of(d); st.roots().map(|r| r.iter().map(|r| format!("{}@{}", r.0, r.1)).collect::<Vec<_>>().join(" ")).unwrap_or_default() }
        };
        if print { println!("{}\n   => {}", line(a), out.chars().take(600).collect::<String>()); }
        all.push_str(&out);
        all.push('\n');
    }
    sess.clear();
    drop(db);
    let _ = std::fs::remove_dir_all(&dir);
    all
}
pub fn main(cmd: &str, args: &[String]) {
    let text = std::fs::read_to_string(&args[0]).expect("file");
    let text = text.rsplit("--- history of the case (oldest first) ---").next().unwrap().to_string();
    let mut acts = parse(&text);
    let mut cfg = std::env::var("VH_CFG").map(|s| nums(&s)).unwrap_or(vec![4096, 1000, 2, 3, 2]);
    if let Some(c) = text.lines().find(|l| l.starts_with("config ")) { cfg = nums(c); }
    if cmd == "script" { run(&acts, &cfg, true); return; }
    let want = &args[1];
    if want.contains("audit") && !matches!(acts.last(), Some(A::Audit)) { acts.push(A::Audit); }
    if args.len() > 2 { acts.push(A::Sql(None, args[2].clone())); }
    std::panic::set_hook(Box::new(|_| {}));
    let tries: usize = std::env::var("VH_TRIES").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let fails = |a: &[A]| (0..tries).any(|_| run(a, &cfg, false).contains(want.as_str()));
    if !fails(&acts) { println!("the text is not in the output"); return; }
    let mut step = acts.len() / 2;
    loop {
        let mut i = 0;
        let mut done = false;
        while i < acts.len() {
            let mut t = acts.clone();
            t.drain(i..(i + step.max(1)).min(t.len()));
            if fails(&t) { acts = t; done = true; } else { i += step.max(1); }
        }
        if step <= 1 && !done { break; }
        step = if step > 1 { step / 2 } else { 1 };
    }
    for i in 0..acts.len() { if let A::Batch(b) = acts[i].clone() { let mut b = b; let mut k = 0; while k < b.len() { let mut c = b.clone(); c.remove(k); let mut t = acts.clone(); t[i] = A::Batch(c.clone()); if fails(&t) { acts = t; b = c; } else { k += 1; } } } }
    // rows of VALUES lists
    for i in 0..acts.len() { loop {
        let mut changed = false;
        if let A::Sql(s, q) = acts[i].clone() { if q.contains(" VALUES ") && q.contains("), (") {
            let (head, tail) = q.split_once(" VALUES ").unwrap();
            let rows: Vec<String> = tail.trim_start_matches('(').strip_suffix(')').unwrap_or("").split("), (").map(|x| x.to_string()).collect();
            for k in 0..rows.len() { let mut c = rows.clone(); c.remove(k); let mut t = acts.clone(); t[i] = A::Sql(s, format!("{head} VALUES ({})", c.join("), ("))); if fails(&t) { acts = t; changed = true; break; } }
        } }
        if !changed { break; }
    } }
    let _ = std::panic::take_hook();
    run(&acts, &cfg, true);
}
