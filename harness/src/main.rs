mod checks;
mod rng;
mod val;
mod expr;
mod model;
mod drv;
mod audit;
mod run;
mod sqlsh;
mod script;
mod tapes;
use std::path::PathBuf;

pub fn verif_dir() -> PathBuf { std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif")) }
pub fn fnv(b: &[u8]) -> u64 { let mut h = 0xcbf29ce484222325u64; for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); } h }
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.len() < 2 { eprintln!("vh check|work|replay ID tier seed ..."); std::process::exit(3); }
    if a[0] == "sql" { return sqlsh::main(&a[1..]); }
    if a[0] == "victim" { return checks::crash::victim(&a[1..]); }
    if a[0] == "script" || a[0] == "shrink" { return script::main(&a[0], &a[1..]); }
    let Some(c) = checks::find(&a[1]) else { eprintln!("unknown check {}", a[1]); std::process::exit(3) };
    let tier = match a.get(2).map(|s| s.as_str()) { Some("thorough") => run::Tier::Thorough, _ => run::Tier::Quick };
    let seed: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a[0].as_str() {
        "check" => run::check(c, tier, seed),
        "work" => run::worker(c, tier, seed, &a[4..]),
        "replay" => run::replay(c, tier, seed, &a[4..]),
        _ => 3,
    };
    std::process::exit(code);
}
