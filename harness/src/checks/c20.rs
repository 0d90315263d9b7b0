//! C20: the wire protocol carries every message intact and rejects garbage.
//! Monitors: decode(encode(m)) == m through the codec and through framing on a fragmenting stream;
//! on arbitrary bytes a decoder may only answer with an error or with a message that encodes back to
//! exactly those bytes, within an allocation bound proportional to the input; a live server process
//! answers good and bad frames on a socket without dying or hanging.
use crate::rng::Rng;
use crate::run::*;
use crate::viol;
use axmosdb::tcp::*;
use std::io::{Read, Write};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

pub static CHECK: Check = Check {
    id: "C20", level: "exploration",
    rule: "each case draws messages of every variant (empty/long/non-ASCII strings, 0..n columns and rows, extreme numbers), sends them through codec and fragmented frames, then mutates the encodings and feeds random bytes to every decoder; every 16th case talks to a live server process over a loopback socket. Non-trivial: at least one result set or one mutated message was judged.",
    quick: 1600, thorough: 60_000, hang_s: 60, threads: 8, run, repros: REPROS,
    must_see: &["roundtrips", "frames", "garbage_rejected", "garbage_accepted_canonical", "server_requests", "server_garbage"],
    assumptions: &["a row of a result set has as many values as there are columns", "allocation bound for a decoder: 64 KiB + 64 bytes per input byte"],
};
const REPROS: &[(&str, fn(&mut Ctx) -> CaseResult)] = &[("max-frame", max_frame), ("huge-counts", huge_counts)];

fn text(r: &mut Rng) -> String {
    match r.us(12) {
        0 => String::new(),
        1 => "NULL".into(),
        2 => "\0\u{1}\n\r\t".into(),
        3 => "ñandú 漢字 🦀 \u{10FFFF}".into(),
        4 => { let n = r.us(9000); "é".repeat(n) }
        5 => { let n = r.us(300); (0..n).map(|_| char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{FFFD}')).collect() }
        6 => r.u64().to_string(),
        _ => { let n = r.us(20); (0..n).map(|_| (b' ' + r.below(95) as u8) as char).collect() }
    }
}
fn num(r: &mut Rng) -> u64 { match r.us(5) { 0 => 0, 1 => u64::MAX, 2 => u32::MAX as u64 + r.below(3), 3 => r.u64(), _ => r.below(300) } }
fn request(r: &mut Rng) -> Request {
    match r.us(12) {
        0 => Request::Create(text(r)), 1 => Request::Open(text(r)), 2 => Request::Sql(text(r)), 3 => Request::Explain(text(r)),
        4 => Request::Analyze { sample_rate: match r.us(6) { 0 => 0.0, 1 => -0.0, 2 => f64::MAX, 3 => f64::NEG_INFINITY, 4 => f64::from_bits(r.u64()), _ => 0.5 }, max_sample_rows: num(r) as usize },
        5 => Request::Vacuum, 6 => Request::Close, 7 => Request::Ping, 8 => Request::Begin, 9 => Request::Commit, 10 => Request::Rollback, _ => Request::Shutdown,
    }
}
fn response(r: &mut Rng) -> Response {
    match r.us(14) {
        0 => Response::Ok(text(r)), 1 => Response::Error(text(r)), 2 => Response::Ddl(text(r)), 3 => Response::Explain(text(r)),
        4 => Response::RowsAffected(num(r)), 5 => Response::Pong, 6 => Response::Goodbye, 7 => Response::ShuttingDown, 8 => Response::SessionStarted, 9 => Response::SessionEnd,
        10 => Response::VacuumComplete { tables_vacuumed: num(r) as usize, bytes_freed: num(r) as usize, transactions_cleaned: num(r) as usize },
        _ => {
            let nc = match r.us(6) { 0 => 0, 1 => 1, 2 => r.us(300), _ => r.us(7) };
            let nr = match r.us(6) { 0 => 0, 1 => 1, 2 => r.us(if nc > 10 { 8 } else { 600 }), _ => r.us(9) };
            let short = nc * nr > 200;
            Response::Rows { columns: (0..nc).map(|_| text(r)).collect(), data: (0..nr).map(|_| (0..nc).map(|_| if short { num(r).to_string() } else { text(r) }).collect()).collect() }
        }
    }
}
fn req_eq(a: &Request, b: &Request) -> bool {
    match (a, b) {
        (Request::Analyze { sample_rate: x, max_sample_rows: n }, Request::Analyze { sample_rate: y, max_sample_rows: m }) => x.to_bits() == y.to_bits() && n == m,
        _ => a == b,
    }
}
fn res_eq(a: &Response, b: &Response) -> bool {
    use Response::*;
    match (a, b) {
        (Ok(x), Ok(y)) | (Error(x), Error(y)) | (Ddl(x), Ddl(y)) | (Explain(x), Explain(y)) => x == y,
        (Rows { columns: c, data: d }, Rows { columns: e, data: f }) => c == e && d == f,
        (RowsAffected(x), RowsAffected(y)) => x == y,
        (VacuumComplete { tables_vacuumed: a, bytes_freed: b, transactions_cleaned: c }, VacuumComplete { tables_vacuumed: d, bytes_freed: e, transactions_cleaned: f }) => a == d && b == e && c == f,
        (SessionStarted, SessionStarted) | (SessionEnd, SessionEnd) | (Pong, Pong) | (Goodbye, Goodbye) | (ShuttingDown, ShuttingDown) => true,
        _ => false,
    }
}
fn head(s: &impl std::fmt::Debug) -> String { format!("{s:?}").chars().take(300).collect() }

/// A stream that hands out and takes bytes in small pieces.
struct Drip { buf: Vec<u8>, pos: usize, rng: Rng }
impl Read for Drip {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let lim = if self.rng.chance(1, 3) { 3 } else { 5000 };
        let n = out.len().min(self.buf.len() - self.pos).min(1 + self.rng.us(lim));
        if self.rng.chance(1, 20) { return Err(std::io::ErrorKind::Interrupted.into()); }
        out[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Drip {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let lim = if self.rng.chance(1, 3) { 3 } else { 5000 };
        let n = b.len().min(1 + self.rng.us(lim));
        self.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// Runs a decoder on arbitrary bytes under an allocation limit and judges the outcome.
fn hostile(ctx: &mut Ctx, b: &[u8]) -> CaseResult {
    use jemallocator::{LARGEST, LIVE, PEAK};
    let bound = 65536 + 64 * b.len();
    for which in 0..3 {
        LARGEST.store(0, Relaxed);
        let live = LIVE.load(Relaxed);
        PEAK.store(live, Relaxed);
        let out: Result<Vec<u8>, String> = match which {
            0 => Request::from_bytes(b).map(|m| m.to_bytes()).map_err(|e| e.to_string()),
            1 => Response::from_bytes(b).map(|m| m.to_bytes()).map_err(|e| e.to_string()),
            _ => { let mut c = std::io::Cursor::new(b); read_message(&mut c).map(|m| { let mut v = Vec::new(); let _ = write_message(&mut v, &m); v }).map_err(|e| e.to_string()) }
        };
        let name = ["Request::from_bytes", "Response::from_bytes", "read_message"][which];
        // a frame may announce up to the cap before its body is known to be missing
        let cap = if which == 2 { MAX_MESSAGE_SIZE * 2 + 65536 } else { bound };
        let (largest, peak) = (LARGEST.load(Relaxed), PEAK.load(Relaxed).saturating_sub(live));
        if largest > cap || peak > cap * 2 { viol!("{name} requested {largest} bytes at once, {peak} in total, for {} input bytes {:?}", b.len(), &b[..b.len().min(64)]); }
        ctx.max("alloc_for_garbage", peak as u64);
        match out {
            Err(_) => ctx.count("garbage_rejected", 1),
            Ok(e) => {
                ctx.count("garbage_accepted_canonical", 1);
                let same = if which == 2 { b.starts_with(&e) } else { e == b };
                if !same { viol!("{name} accepted {} bytes that are not the encoding of any message: {:?} (re-encodes to {:?})", b.len(), &b[..b.len().min(200)], &e[..e.len().min(200)]); }
            }
        }
    }
    Ok(())
}

fn mutate(r: &mut Rng, v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    for _ in 0..1 + r.us(3) {
        let n = v.len();
        match r.us(8) {
            0 if n > 0 => { let i = r.us(n); v[i] ^= 1 << r.us(8); }
            1 if n > 0 => v.truncate(r.us(n)),
            2 => { for _ in 0..1 + r.us(9) { v.push(r.u64() as u8); } }
            3 if n > 2 => { let i = r.us(n.min(12)); v[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]); }
            4 if n > 6 => { let i = 2 + r.us((n - 6).min(40)); let x = *r.pick(&[0u32, 1, 5, 0x7fff_ffff, 0x8000_0000, u32::MAX, u32::MAX - 3, 1 << 24]); v[i..i + 4].copy_from_slice(&x.to_le_bytes()); }
            5 if n > 6 => { let x = if r.bool() { u32::MAX - r.below(9) as u32 } else { r.below(50) as u32 }; v[2..6].copy_from_slice(&x.to_le_bytes()); }
            6 if n > 0 => { let i = r.us(n); v.remove(i); }
            _ => { let i = r.us(n + 1); v.insert(i, r.u64() as u8); }
        }
    }
    v
}

fn run(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    // 1. codec and framing
    let mut reqs = Vec::new();
    let mut ress = Vec::new();
    let mut drip = Drip { buf: Vec::new(), pos: 0, rng: r.fork() };
    for _ in 0..6 {
        let (q, s) = (request(&mut r), response(&mut r));
        ctx.mix(&head(&q));
        ctx.mix(&head(&s));
        match Request::from_bytes(&q.to_bytes()) { Ok(b) if req_eq(&q, &b) => {} o => viol!("request {} decodes to {}", head(&q), head(&o)) }
        match Response::from_bytes(&s.to_bytes()) { Ok(b) if res_eq(&s, &b) => {} o => viol!("response {} decodes to {}", head(&s), head(&o)) }
        ctx.count("roundtrips", 2);
        if matches!(s, Response::Rows { .. }) { ctx.count("result_sets", 1); }
        send_request(&mut drip, &q).or_else(|e| violation(format!("cannot send {}: {e}", head(&q))))?;
        send_response(&mut drip, &s).or_else(|e| violation(format!("cannot send {}: {e}", head(&s))))?;
        reqs.push(q);
        ress.push(s);
    }
    for (q, s) in reqs.iter().zip(&ress) {
        match recv_request(&mut drip) { Ok(b) if req_eq(q, &b) => {} o => viol!("request {} arrives as {}", head(q), head(&o)) }
        match recv_response(&mut drip) { Ok(b) if res_eq(s, &b) => {} o => viol!("response {} arrives as {}", head(s), head(&o)) }
        ctx.count("frames", 2);
    }
    if recv_request(&mut drip).is_ok() { viol!("a message was received from an exhausted stream"); }
    // a frame cut short anywhere is an error
    let full = drip.buf.clone();
    let cut = r.us(full.len().min(4000));
    let mut d2 = Drip { buf: full[..cut].to_vec(), pos: 0, rng: r.fork() };
    let mut i = 0;
    while let Ok(m) = read_message(&mut d2) { i += 1; if m.len() + 4 > cut || i > 40 { viol!("a truncated stream yielded a message it does not contain"); } }
    // 2. hostile bytes
    for _ in 0..25 {
        let b = match r.us(4) {
            0 => { let n = r.us(40); let mut v: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect(); if r.bool() && n > 1 { v[0] = PROTOCOL_VERSION; v[1] = r.below(13) as u8; } v }
            1 => { let m = request(&mut r).to_bytes(); mutate(&mut r, &m) }
            2 => { let m = response(&mut r).to_bytes(); mutate(&mut r, &m) }
            _ => { let mut f = Vec::new(); let _ = send_request(&mut f, &request(&mut r)); mutate(&mut r, &f) }
        };
        hostile(ctx, &b)?;
    }
    ctx.nontrivial = true;
    ctx.sample = Some(format!("{} / {}", head(&reqs[0]), head(&ress[0])));
    if ctx.idx % 16 == 5 { server(ctx)?; }
    Ok(())
}

struct Srv(std::process::Child, u16);
impl Drop for Srv { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }

fn start(ctx: &Ctx) -> Result<Srv, Fail> {
    use std::os::unix::process::CommandExt;
    let exe = std::env::current_exe().unwrap().with_file_name("axmos_server");
    for _ in 0..5 {
        let port = std::net::TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()).map(|a| a.port()).or_else(|e| inconclusive(format!("no port: {e}")))?;
        let mut c = std::process::Command::new(&exe);
        c.args(["--port", &port.to_string(), "-f"]).arg(ctx.dir().join("srvdb")).args(["--pool-size", "2", "--cache-size", "500"]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        unsafe { c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
        let mut s = Srv(c.spawn().or_else(|e| inconclusive(format!("server: {e}")))?, port);
        let end = Instant::now() + Duration::from_secs(10);
        while Instant::now() < end {
            if s.0.try_wait().ok().flatten().is_some() { break; }
            if std::net::TcpStream::connect(("127.0.0.1", port)).is_ok() { return Ok(s); }
            std::thread::sleep(Duration::from_millis(20));
        }
    }
    inconclusive("the server did not start")
}
fn connect(s: &Srv) -> Result<std::net::TcpStream, Fail> {
    let c = std::net::TcpStream::connect_timeout(&([127, 0, 0, 1], s.1).into(), Duration::from_secs(10)).or_else(|e| violation(format!("the server no longer accepts connections: {e}")))?;
    let _ = c.set_read_timeout(Some(Duration::from_secs(20)));
    let _ = c.set_write_timeout(Some(Duration::from_secs(20)));
    let _ = c.set_nodelay(true);
    Ok(c)
}
fn ask(c: &mut std::net::TcpStream, q: &Request) -> Result<Response, Fail> {
    send_request(c, q).or_else(|e| violation(format!("cannot send {} to the server: {e}", head(q))))?;
    recv_response(c).or_else(|e| violation(format!("no answer to {}: {e}", head(q))))
}

fn server(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let srv = start(ctx)?;
    let mut c = connect(&srv)?;
    let nrows = *r.pick(&[0usize, 1, 3, 40]);
    match ask(&mut c, &Request::Sql("CREATE TABLE t(a INT, s TEXT)".into()))? { Response::Ddl(_) => {} o => viol!("CREATE TABLE answered {}", head(&o)) }
    let mut want = Vec::new();
    for i in 0..nrows {
        let mut s: String = match r.us(5) { 0 => String::new(), 1 => "漢字 ü".into(), 2 => "x".repeat(r.us(3000)), _ => format!("v{}", r.below(99)) };
        s.retain(|ch| ch != '\'' && ch != '\\');
        match ask(&mut c, &Request::Sql(format!("INSERT INTO t VALUES ({i}, '{s}')")))? { Response::RowsAffected(1) => {} o => viol!("INSERT answered {}", head(&o)) }
        want.push(vec![i.to_string(), s]);
    }
    for sql in ["SELECT a, s FROM t ORDER BY a", "SELECT a, s FROM t WHERE a < 0"] {
        let want = if sql.contains("< 0") { vec![] } else { want.clone() };
        match ask(&mut c, &Request::Sql(sql.into()))? {
            Response::Rows { columns, data } => {
                if columns != ["a", "s"] { viol!("{sql}: columns {columns:?} for {} rows", want.len()); }
                if data != want { viol!("{sql}: the server sent {} but the table holds {}", head(&data), head(&want)); }
            }
            o => viol!("{sql} answered {}", head(&o)),
        }
        ctx.count("server_requests", 1);
    }
    for _ in 0..12 {
        ctx.count("server_garbage", 1);
        // A whole frame with a bad body must be answered with an error.
        let b = loop { let m = if r.bool() { let q = request(&mut r).to_bytes(); mutate(&mut r, &q) } else { (0..r.us(30)).map(|_| r.u64() as u8).collect() }; if Request::from_bytes(&m).is_err() { break m; } };
        let mut g = connect(&srv)?;
        match r.us(4) {
            0 | 1 => {
                write_message(&mut g, &b).or_else(|e| violation(format!("cannot write: {e}")))?;
                match recv_response(&mut g) {
                    Ok(Response::Error(_)) => {}
                    o => viol!("the malformed request {:?} was answered with {}", &b[..b.len().min(80)], head(&o)),
                }
            }
            2 => {
                // an announced size above the cap
                let n = (MAX_MESSAGE_SIZE as u32 + 1).saturating_add(r.u64() as u32 >> r.us(8));
                let _ = g.write_all(&n.to_le_bytes());
                match recv_response(&mut g) {
                    Ok(Response::Error(_)) => {}
                    o => viol!("a frame of {n} announced bytes was answered with {}", head(&o)),
                }
            }
            _ => { let mut f = ((b.len() + 1 + r.us(50)) as u32).to_le_bytes().to_vec(); f.extend_from_slice(&b); let _ = g.write_all(&f); drop(g); }
        }
        match ask(&mut c, &Request::Ping)? { Response::Pong => {} o => viol!("after garbage on another connection a ping is answered with {}", head(&o)) }
    }
    ctx.count("server_requests", 12);
    Ok(())
}

/// A message of exactly the maximal size passes, one byte more is refused by both ends.
fn max_frame(_ctx: &mut Ctx) -> CaseResult {
    let s = "z".repeat(MAX_MESSAGE_SIZE - 6);
    let q = Request::Sql(s);
    let mut v = Vec::new();
    if let Err(e) = send_request(&mut v, &q) { viol!("a message of the maximal size is refused: {e}"); }
    match recv_request(&mut v.as_slice()) { Ok(b) if b == q => {} _ => viol!("a message of the maximal size does not arrive intact") }
    let mut w = Vec::new();
    if send_request(&mut w, &Request::Sql("z".repeat(MAX_MESSAGE_SIZE - 5))).is_ok() { viol!("a message above the maximal size is sent"); }
    if !w.is_empty() { viol!("part of a refused message was written"); }
    let mut f = (MAX_MESSAGE_SIZE as u32 + 1).to_le_bytes().to_vec();
    f.resize(MAX_MESSAGE_SIZE + 5, 0);
    if read_message(&mut f.as_slice()).is_ok() { viol!("a frame above the maximal size is read"); }
    Ok(())
}
fn huge_counts(ctx: &mut Ctx) -> CaseResult {
    for (c, n) in [(0u32, u32::MAX), (u32::MAX, 0), (u32::MAX, u32::MAX), (1, u32::MAX), (0, 1 << 20)] {
        let mut v = vec![PROTOCOL_VERSION, 2];
        v.extend_from_slice(&c.to_le_bytes());
        if c == 1 { v.extend_from_slice(&0u32.to_le_bytes()); }
        v.extend_from_slice(&n.to_le_bytes());
        hostile(ctx, &v)?;
    }
    // real server: an answer above the cap must become an error, not a dropped connection
    let srv = start(ctx)?;
    let mut c = connect(&srv)?;
    ask(&mut c, &Request::Sql("CREATE TABLE big(s TEXT)".into()))?;
    let s = "q".repeat(30_000);
    let n = 24;
    for _ in 0..n { match ask(&mut c, &Request::Sql(format!("INSERT INTO big VALUES ('{s}')")))? { Response::RowsAffected(1) => {} o => viol!("{}", head(&o)) } }
    match ask(&mut c, &Request::Sql("SELECT a.s, b.s FROM big a, big b".into()))? { Response::Error(_) => {} o => viol!("34 MB result: {}", head(&o)) }
    match ask(&mut c, &Request::Sql("SELECT s FROM big".into()))? { Response::Rows { data, .. } if data == vec![vec![s.clone()]; n] => {} o => viol!("700 KB result: {}", head(&o)) }
    Ok(())
}
