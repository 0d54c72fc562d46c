//! The wire protocol: messages, frames, and the server's loop on one connection.
use crate::ax;
use axmosdb::tcp::*;
use std::io::Read;
pub const TABLE: &[(&str, fn(&[String]))] = &[("c20_req", c20_req), ("c20_resp", c20_resp), ("c20_garbage_req", c20_garbage_req), ("c20_garbage_resp", c20_garbage_resp), ("c20_frame", c20_frame), ("c20_big", c20_big)];
/// largest single allocation the decoders may ask for on these inputs
pub const LIMIT: u64 = 20 << 20;

/// hands out its bytes in pieces
struct Pieces<'a> { d: &'a [u8], at: usize, n: usize }
impl Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let k = b.len().min(self.n).min(self.d.len() - self.at);
        b[..k].copy_from_slice(&self.d[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}
/// any valid text of so many bytes
fn text(name: &str, n: usize) -> String {
    let b = ax::bytes(name, n);
    match String::from_utf8(b) { Ok(s) => s, Err(_) => { ax::assume(false); String::new() } }
}
/// 7-bit text
fn ascii(name: &str, n: usize) -> String {
    let b: Vec<u8> = (0..n).map(|i| ax::raw(&format!("{name}[{i}]"), 7) as u8).collect();
    String::from_utf8(b).unwrap()
}
fn txt(name: &str, max: usize) -> String { let n = ax::choose(&format!("{name}.len"), max as u64 + 1); text(name, n) }
fn eqs(a: &str, b: &str) -> u64 {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() { return 0; }
    let mut r = 0u8;
    for i in 0..a.len() { r |= a[i] ^ b[i]; }
    (r == 0) as u64
}
fn eqreq(a: &Request, b: &Request) -> u64 {
    use Request::*;
    match (a, b) {
        (Create(x), Create(y)) | (Open(x), Open(y)) | (Sql(x), Sql(y)) | (Explain(x), Explain(y)) => eqs(x, y),
        (Analyze { sample_rate: r, max_sample_rows: m }, Analyze { sample_rate: r2, max_sample_rows: m2 }) => (r.to_bits() == r2.to_bits()) as u64 & (m == m2) as u64,
        (Begin, Begin) | (Rollback, Rollback) | (Commit, Commit) | (Vacuum, Vacuum) | (Close, Close) | (Ping, Ping) | (Shutdown, Shutdown) => 1,
        _ => 0,
    }
}
fn eqresp(a: &Response, b: &Response) -> u64 {
    use Response::*;
    match (a, b) {
        (Ok(x), Ok(y)) | (Error(x), Error(y)) | (Ddl(x), Ddl(y)) | (Explain(x), Explain(y)) => eqs(x, y),
        (Rows { columns: c, data: d }, Rows { columns: c2, data: d2 }) => {
            if c.len() != c2.len() || d.len() != d2.len() { return 0; }
            let mut r = 1;
            for (x, y) in c.iter().zip(c2) { r &= eqs(x, y); }
            for (x, y) in d.iter().zip(d2) {
                if x.len() != y.len() { return 0; }
                for (p, q) in x.iter().zip(y) { r &= eqs(p, q); }
            }
            r
        }
        (RowsAffected(x), RowsAffected(y)) => (x == y) as u64,
        (VacuumComplete { tables_vacuumed: a, bytes_freed: b, transactions_cleaned: c }, VacuumComplete { tables_vacuumed: x, bytes_freed: y, transactions_cleaned: z }) => (a == x) as u64 & (b == y) as u64 & (c == z) as u64,
        (SessionStarted, SessionStarted) | (SessionEnd, SessionEnd) | (Pong, Pong) | (Goodbye, Goodbye) | (ShuttingDown, ShuttingDown) => 1,
        _ => 0,
    }
}
fn request(n: &str, max: usize) -> Request {
    use Request::*;
    match ax::choose(&format!("{n}.kind"), 12) {
        0 => Create(txt(n, max)), 1 => Open(txt(n, max)), 2 => Sql(txt(n, max)), 3 => Explain(txt(n, max)),
        4 => Analyze { sample_rate: f64::from_bits(ax::bits64(&format!("{n}.rate"))), max_sample_rows: ax::bits64(&format!("{n}.rows")) as usize },
        5 => Begin, 6 => Rollback, 7 => Commit, 8 => Vacuum, 9 => Close, 10 => Ping, _ => Shutdown,
    }
}
fn response(n: &str, max: usize) -> Response {
    use Response::*;
    match ax::choose(&format!("{n}.kind"), 12) {
        0 => Ok(txt(n, max)), 1 => Error(txt(n, max)), 2 => Ddl(txt(n, max)), 3 => Explain(txt(n, max)),
        4 => {
            let c = ax::choose(&format!("{n}.cols"), 4);
            let r = ax::choose(&format!("{n}.rows"), 4);
            let columns = (0..c).map(|i| ascii(&format!("{n}.c{i}"), (i + r) % 3)).collect();
            let w = ax::choose(&format!("{n}.w"), 3);
            let data = (0..r).map(|j| (0..c).map(|i| if i + j == 0 { text(&format!("{n}.v{j}.{i}"), w) } else { ascii(&format!("{n}.v{j}.{i}"), (w + i + j) % 3) }).collect()).collect();
            Rows { columns, data }
        }
        5 => SessionStarted, 6 => SessionEnd, 7 => RowsAffected(ax::bits64(&format!("{n}.n"))),
        8 => VacuumComplete { tables_vacuumed: ax::bits64(&format!("{n}.a")) as usize, bytes_freed: ax::bits64(&format!("{n}.b")) as usize, transactions_cleaned: ax::bits64(&format!("{n}.c")) as usize },
        9 => Pong, 10 => Goodbye, _ => ShuttingDown,
    }
}
/// two messages in a row arrive as they were sent, whatever the pieces
fn c20_req(a: &[String]) {
    let max: usize = a.first().map(|s| s.parse().unwrap()).unwrap_or(3);
    let (x, y) = (request("x", max), request("y", 1));
    let mut w = vec![];
    if send_request(&mut w, &x).is_err() || send_request(&mut w, &y).is_err() { ax::fail("request-not-sent"); return; }
    let mut r = Pieces { d: &w, at: 0, n: [1, 3, 1 << 20][ax::choose("pieces", 3)] };
    for m in [&x, &y] {
        match recv_request(&mut r) { Ok(g) => ax::check_u(eqreq(&g, m), "request-intact"), Err(e) => { ax::note(&e.to_string()); ax::fail("request-rejected"); } }
    }
    ax::check(r.at == w.len(), "request-frame-end");
    ax::check(recv_request(&mut r).is_err(), "request-from-nothing");
}
fn c20_resp(a: &[String]) {
    let max: usize = a.first().map(|s| s.parse().unwrap()).unwrap_or(3);
    let (x, y) = (response("x", max), Response::RowsAffected(ax::bits64("y")));
    let mut w = vec![];
    if send_response(&mut w, &x).is_err() || send_response(&mut w, &y).is_err() { ax::fail("response-not-sent"); return; }
    let mut r = Pieces { d: &w, at: 0, n: [1, 5, 1 << 20][ax::choose("pieces", 3)] };
    for m in [&x, &y] {
        match recv_response(&mut r) { Ok(g) => { ax::check_u(eqresp(&g, m), "response-intact"); ax::check(g.is_error() == matches!(m, Response::Error(_)), "response-is-error") } Err(e) => { ax::note(&e.to_string()); ax::fail("response-rejected"); } }
    }
    ax::check(r.at == w.len(), "response-frame-end");
    ax::check(recv_response(&mut r).is_err(), "response-from-nothing");
}
/// any bytes: an error, or the message they are the encoding of
fn c20_garbage_req(a: &[String]) {
    let max: u64 = a.first().map(|s| s.parse().unwrap()).unwrap_or(10);
    let n = if ax::flag("analyze") { 17 + ax::choose("n", 3) } else { ax::choose("n", max + 1) };
    let d = ax::bytes("d", n);
    if n >= 17 { ax::assume(d[0] == 1 && d[1] == 5); }
    ax::opaque_text(true);
    ax::alloc_limit(LIMIT);
    let r = Request::from_bytes(&d);
    ax::alloc_limit(0);
    match r {
        Ok(m) => { ax::reach("valid"); let b = m.to_bytes(); ax::check_u(eqbytes(&b, &d), "request-not-canonical") }
        Err(_) => ax::reach("rejected"),
    }
}
fn eqbytes(a: &[u8], b: &[u8]) -> u64 {
    if a.len() != b.len() { return 0; }
    let mut r = 0u8;
    for i in 0..a.len() { r |= a[i] ^ b[i]; }
    (r == 0) as u64
}
fn c20_garbage_resp(a: &[String]) {
    let max: u64 = a.first().map(|s| s.parse().unwrap()).unwrap_or(10);
    let k = ax::choose("class", 3);
    let n = match k { 0 => ax::choose("n", max + 1), 1 => 10 + ax::choose("n", max - 5), _ => 25 + ax::choose("n", 3) };
    let d = ax::bytes("d", n);
    if k == 1 { ax::assume(d[0] == 1 && d[1] == 2); }
    if k == 2 { ax::assume(d[0] == 1 && d[1] == 9); }
    ax::opaque_text(true);
    ax::alloc_limit(LIMIT);
    let r = Response::from_bytes(&d);
    ax::alloc_limit(0);
    match r {
        Ok(m) => { ax::reach("valid"); let b = m.to_bytes(); ax::check_u(eqbytes(&b, &d), "response-not-canonical") }
        Err(_) => ax::reach("rejected"),
    }
}
/// any bytes fed to the frame reader
fn c20_frame(_: &[String]) {
    let n = ax::choose("n", 10);
    let mut d = ax::bytes("d", n);
    let k = ax::choose("class", 4);
    if n >= 4 {
        match k {
            0 => { ax::assume(d[1] == 0 && d[2] == 0 && d[3] == 0 && d[0] < 12); }
            1 => { let v = u32::from_le_bytes([d[0], d[1], d[2], d[3]]); ax::assume(v > MAX_MESSAGE_SIZE as u32); }
            2 => { let v = [MAX_MESSAGE_SIZE as u32, MAX_MESSAGE_SIZE as u32 - 1, 1 << 20, 4096, MAX_MESSAGE_SIZE as u32 + 1][ax::choose("len", 5)]; d[..4].copy_from_slice(&v.to_le_bytes()); }
            _ => ax::assume(false),
        }
    }
    let mut r = Pieces { d: &d, at: 0, n: [1, 3, 64][ax::choose("pieces", 3)] };
    ax::opaque_text(true);
    ax::alloc_limit(LIMIT);
    let m = read_message(&mut r);
    ax::alloc_limit(0);
    if n < 4 { ax::check(m.is_err(), "frame-from-short-header"); return; }
    let len = u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as usize;
    match m {
        Ok(b) => { ax::check(b.len() == len && len <= MAX_MESSAGE_SIZE && len + 4 <= n, "frame-length"); ax::check_u(eqbytes(&b, &d[4..4 + b.len()]), "frame-contents"); ax::check(r.at == 4 + b.len(), "frame-takes-more"); ax::reach("valid"); }
        Err(e) => {
            if len > MAX_MESSAGE_SIZE { ax::check(matches!(e, TcpError::MessageTooLarge(_)), "frame-too-large"); ax::check(r.at == 4, "frame-takes-more"); }
            else { ax::check(len + 4 > n, "frame-rejected"); }
            ax::reach("rejected");
        }
    }
}
/// sizes at the limit
fn c20_big(_: &[String]) {
    let over = ax::choose("over", 3) as i64 - 1;
    let what = ax::choose("what", 3);
    // the frame is the version, the kind, the length and the text
    let n = (MAX_MESSAGE_SIZE as i64 + over) as usize;
    let (x, y) = (ax::raw("x", 7) as u8, ax::raw("y", 7) as u8);
    let filled = |n: usize| { let mut v = vec![b'a'; n]; v[0] = x; v[n - 1] = y; String::from_utf8(v).unwrap() };
    let mut w = vec![];
    if what == 0 {
        let m = Request::Sql(filled(n - 6));
        let s = send_request(&mut w, &m);
        if over > 0 { ax::check(matches!(s, Err(TcpError::MessageTooLarge(_))) && w.is_empty(), "oversized-sent"); return; }
        ax::check(s.is_ok(), "largest-not-sent");
        match recv_request(&mut &w[..]) { Ok(g) => { let Request::Sql(t) = &g else { ax::fail("largest-intact"); return }; let b = t.as_bytes(); ax::check(b.len() == n - 6 && (b[0] == x) & (b[n - 7] == y), "largest-intact") } Err(_) => ax::fail("largest-rejected") }
    } else {
        // one column, one value; or many empty values
        let m = if what == 1 { Response::Rows { columns: vec!["c".into()], data: vec![vec![filled(n - 2 - 4 - 5 - 4 - 4)]] } }
        else { Response::Rows { columns: vec!["c".into(), String::new()], data: (0..20000).map(|i| vec![if i == 19999 { filled(3) } else { String::new() }, String::new()]).collect() } };
        let s = send_response(&mut w, &m);
        if over > 0 && what == 1 { ax::check(matches!(s, Err(TcpError::MessageTooLarge(_))) && w.is_empty(), "oversized-sent"); return; }
        ax::check(s.is_ok(), "largest-not-sent");
        match recv_response(&mut &w[..]) {
            Ok(Response::Rows { columns, data }) => {
                let Response::Rows { columns: c0, data: d0 } = &m else { return };
                ax::check(columns.len() == c0.len() && data.len() == d0.len(), "largest-intact");
                let (a, b) = (data.last().unwrap()[0].as_bytes(), d0.last().unwrap()[0].as_bytes());
                ax::check(a.len() == b.len() && (a[0] == b[0]) & (a[a.len() - 1] == b[b.len() - 1]), "largest-intact");
            }
            Ok(_) => ax::fail("largest-intact"),
            Err(_) => ax::fail("largest-rejected"),
        }
    }
    ax::reach("sent");
}

#[cfg(feature = "server")]
pub mod server {
    #![allow(dead_code, unused)]
    mod code { include!(concat!(env!("OUT_DIR"), "/server.rs")); 
        pub fn serve(stream: TcpStream, db: Option<Database>, cfg: DBConfig) -> bool {
            let s = Arc::new(SharedState::new(db, cfg));
            run_client_loop(stream, &s).is_ok()
        }
    }
    use super::*;
    use crate::db::*;
    pub const TABLE: &[(&str, fn(&[String]))] = &[("c20_server", c20_server), ("c20_session", c20_session)];
    /// runs the server's loop on a connection that carries `input`; what it answered
    fn converse(input: &[u8], db: Option<axmosdb::Database>) -> Vec<u8> {
        use std::os::fd::OwnedFd;
        if ax::is_symbolic() {
            std::fs::write("/ax/sock.in", input).unwrap();
            std::fs::write("/ax/sock.out", b"").unwrap();
            let f: OwnedFd = std::fs::File::open("/ax/sock.in").unwrap().into();
            code::serve(f.into(), db, cfg());
            std::fs::read("/ax/sock.out").unwrap()
        } else {
            use std::io::Write;
            let (a, mut b) = std::os::unix::net::UnixStream::pair().unwrap();
            let v = input.to_vec();
            let t = std::thread::spawn(move || {
                let _ = b.write_all(&v);
                let _ = b.shutdown(std::net::Shutdown::Write);
                let mut o = vec![];
                let _ = b.read_to_end(&mut o);
                o
            });
            let f: OwnedFd = a.into();
            code::serve(f.into(), db, cfg());
            t.join().unwrap()
        }
    }
    fn take(mut d: Db) -> axmosdb::Database { d.0.take().unwrap() }
    fn answers(out: &[u8]) -> Vec<Response> {
        let mut r = out;
        let mut v = vec![];
        while !r.is_empty() {
            match recv_response(&mut r) { Ok(m) => v.push(m), Err(e) => { ax::note(&e.to_string()); ax::fail("answer-undecodable"); return v } }
        }
        v
    }
    /// frames of any bytes, and what is no frame at all
    fn c20_server(a: &[String]) {
        let max: u64 = a.first().map(|s| s.parse().unwrap()).unwrap_or(5);
        ax::opaque_text(true);
        let mut input = vec![];
        let n = ax::choose("n", max + 1);
        let d = ax::bytes("d", n);
        // 1..: leave out the requests that reach for files
        if n >= 2 { ax::assume(d[1] != 1 && d[1] != 2); }
        input.extend_from_slice(&(n as u32).to_le_bytes());
        input.extend_from_slice(&d);
        let tail = ax::choose("tail", 4);
        match tail {
            0 => { let _ = send_request(&mut input, &Request::Ping); }
            1 => input.extend_from_slice(&(MAX_MESSAGE_SIZE as u32 + 1 + ax::raw("x", 8) as u32).to_le_bytes()),
            2 => input.extend_from_slice(&[9, 0, 0, 0, 1, 7]),
            _ => {}
        }
        let first = Request::from_bytes(&d);
        let v = answers(&converse(&input, None));
        if v.is_empty() { ax::fail("no-answer"); return; }
        match &first {
            Err(_) => ax::check(v[0].is_error(), "garbage-not-refused"),
            Ok(Request::Ping) => ax::check(matches!(v[0], Response::Pong), "ping-answer"),
            Ok(Request::Shutdown) => ax::check(matches!(v[0], Response::ShuttingDown), "shutdown-answer"),
            Ok(_) => ax::check(v[0].is_error(), "no-database-answer"),
        }
        if matches!(first, Ok(Request::Shutdown)) { ax::check(v.len() == 1, "answers"); return; }
        match tail {
            0 => ax::check(v.len() == 2 && matches!(v[1], Response::Pong), "connection-lost"),
            1 => ax::check(v.len() == 2 && v[1].is_error(), "too-large-not-refused"),
            _ => ax::check(v.len() == 1 || v[1].is_error(), "answers"),
        }
        ax::reach("served");
    }
    /// requests against an open database
    fn c20_session(_: &[String]) {
        let db = Db::create();
        let (x, y) = ([-7, 0, 1000000][ax::choose("x", 3)], [1, 12][ax::choose("y", 2)]);
        let mut input = vec![];
        let mut want: Vec<Box<dyn Fn(&Response) -> bool>> = vec![];
        let mut ask = |r: Request, w: Box<dyn Fn(&Response) -> bool>| { let _ = send_request(&mut input, &r); want.push(w); };
        let script = ax::choose("script", 4);
        ask(Request::Sql("CREATE TABLE t (id INT, v INT, s TEXT, PRIMARY KEY(id))".into()), Box::new(|r| matches!(r, Response::Ddl(_))));
        ask(Request::Sql(format!("INSERT INTO t VALUES (1, {x}, 'añ€'), (2, NULL, '')")), Box::new(|r| matches!(r, Response::RowsAffected(2))));
        let sel = move |r: &Response, n: usize| match r {
            Response::Rows { columns, data } => columns.len() == 3 && data.len() == n && data[0] == ["1".to_string(), x.to_string(), "añ€".to_string()] && data[1][0] == "2" && data[1][2] == "" && data[1][1].to_uppercase() == "NULL",
            _ => false,
        };
        match script {
            0 => {
                ask(Request::Sql("SELECT id, v, s FROM t ORDER BY id".into()), Box::new(move |r| sel(r, 2)));
                ask(Request::Vacuum, Box::new(|r| matches!(r, Response::VacuumComplete { .. })));
                ask(Request::Explain("SELECT * FROM t".into()), Box::new(|r| matches!(r, Response::Explain(_))));
            }
            1 => {
                ask(Request::Begin, Box::new(|r| matches!(r, Response::SessionStarted)));
                ask(Request::Begin, Box::new(|r| r.is_error()));
                ask(Request::Sql(format!("INSERT INTO t VALUES (3, {y}, 'z')")), Box::new(|r| matches!(r, Response::RowsAffected(1))));
                ask(Request::Sql("SELECT id, v, s FROM t ORDER BY id".into()), Box::new(move |r| sel(r, 3)));
                ask(Request::Rollback, Box::new(|r| matches!(r, Response::SessionEnd)));
                ask(Request::Rollback, Box::new(|r| r.is_error()));
                ask(Request::Sql("SELECT id, v, s FROM t ORDER BY id".into()), Box::new(move |r| sel(r, 2)));
            }
            2 => {
                ask(Request::Begin, Box::new(|r| matches!(r, Response::SessionStarted)));
                ask(Request::Sql("INSERT INTO t VALUES (1, 1, 'dup')".into()), Box::new(|r| r.is_error()));
                ask(Request::Sql("nonsense '".into()), Box::new(|r| r.is_error()));
                ask(Request::Commit, Box::new(|r| matches!(r, Response::SessionEnd)));
                ask(Request::Sql(format!("SELECT v FROM t WHERE v = {y} AND 1 = 2")), Box::new(|r| matches!(r, Response::Rows { data, .. } if data.is_empty())));
            }
            _ => {
                let rate = [0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, 1e300, 0.5][ax::choose("rate", 7)];
                let rows = [0, 1, usize::MAX, 1 << 40][ax::choose("rows", 4)];
                ask(Request::Analyze { sample_rate: rate, max_sample_rows: rows }, Box::new(|r| matches!(r, Response::Ok(_) | Response::Error(_))));
                ask(Request::Sql("SELECT id, v, s FROM t ORDER BY id".into()), Box::new(move |r| sel(r, 2)));
            }
        }
        ask(Request::Close, Box::new(|r| matches!(r, Response::Goodbye)));
        ask(Request::Close, Box::new(|r| r.is_error()));
        ask(Request::Ping, Box::new(|r| matches!(r, Response::Pong)));
        let v = answers(&converse(&input, Some(take(db))));
        ax::check(v.len() == want.len(), "answers");
        for (i, (r, w)) in v.iter().zip(&want).enumerate() {
            if !w(r) { ax::note(&format!("{i}: {r:?}")); }
            ax::check(w(r), "session-answer");
        }
        ax::reach("served");
    }
}
