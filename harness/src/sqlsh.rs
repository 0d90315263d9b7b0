//! `vh sql DIR [stmt...]`: a scratch database shell for debugging.
use axmosdb::{DBConfig, Database};
pub fn main(args: &[String]) {
    let dir = std::path::PathBuf::from(&args[0]);
    let cfg = match std::env::var("VH_CFG") { Ok(s) => { let v: Vec<usize> = s.split(',').map(|x| x.parse().unwrap()).collect(); DBConfig::new(v[0], v[1], v[2], v[3], v[4]) } _ => DBConfig::new(4096, 1000, 2, 3, 2) };
    let db = Database::open_or_create(&dir, cfg).expect("open");
    let mut sess = None;
    let stmts: Vec<String> = if args.len() > 1 { args[1..].to_vec() } else { std::io::stdin().lines().map(|l| l.unwrap()).collect() };
    for s in stmts {
        if s.trim().is_empty() { continue; }
        println!("> {}", s.chars().take(200).collect::<String>());
        let show = |r: Result<axmosdb::runtime::QueryResult, String>| match r {
            Ok(axmosdb::runtime::QueryResult::Rows(r)) => {
                println!("  [{}]", (0..r.num_columns()).map(|i| r.column(i).unwrap_or("?").to_string()).collect::<Vec<_>>().join(", "));
                for row in r.iterrows() { println!("  {}", row.iter().map(|v| format!("{v:?}")).collect::<Vec<_>>().join(" | ").chars().take(400).collect::<String>()); }
            }
            Ok(o) => println!("  {o:?}"),
            Err(e) => println!("  ERR {e}"),
        };
        match s.trim() {
            "BEGIN" => sess = Some(db.session().unwrap()),
            "COMMIT" => println!("  {:?}", sess.take().unwrap().commit_transaction().map_err(|e| e.to_string())),
            "ROLLBACK" => println!("  {:?}", sess.take().unwrap().abort_transaction().map_err(|e| e.to_string())),
            "VACUUM" => println!("  {:?}", db.vacuum().map_err(|e| e.to_string())),
            "ANALYZE" => println!("  {:?}", db.analyze(1.0, 10000).map_err(|e| e.to_string())),
            _ if s.starts_with("EXPLAIN ") => println!("{}", db.explain(&s[8..]).unwrap_or_else(|e| e.to_string())),
            _ => match sess.as_mut() { Some(x) => show(x.execute(&s).map_err(|e| e.to_string())), None => show(db.execute(&s).map_err(|e| e.to_string())) },
        }
    }
}
