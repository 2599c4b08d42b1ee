//! A small HTTP/1.1 server on loopback that records the requests it gets.
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub struct Request {
    pub method: String,
    pub path: String,
    pub host: String,
    pub auth: Option<String>,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

pub struct Response {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Response {
    pub fn ok(body: impl Into<Vec<u8>>) -> Self {
        Self { status: 200, headers: vec![], body: body.into() }
    }
    pub fn redirect(to: &str) -> Self {
        Self { status: 302, headers: vec![("Location".into(), to.into())], body: vec![] }
    }
    pub fn not_found() -> Self {
        Self { status: 404, headers: vec![], body: vec![] }
    }
}

pub struct Server {
    pub port: u16,
    seen: Arc<Mutex<Vec<Request>>>,
}

impl Server {
    pub fn start(handler: impl Fn(&Request) -> Response + Send + Sync + 'static) -> Self {
        let l = TcpListener::bind("127.0.0.1:0").expect("bind");
        let port = l.local_addr().expect("addr").port();
        let seen = Arc::new(Mutex::new(vec![]));
        let log = seen.clone();
        let handler = Arc::new(handler);
        // lives as long as the process
        let _ = std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                let (log, handler) = (log.clone(), handler.clone());
                let _ = std::thread::spawn(move || serve(s, &log, &*handler));
            }
        });
        Self { port, seen }
    }
    /// Takes what has been requested so far.
    pub fn take(&self) -> Vec<Request> {
        std::mem::take(&mut *self.seen.lock().expect("lock"))
    }
}

fn serve(s: TcpStream, log: &Mutex<Vec<Request>>, handler: &(dyn Fn(&Request) -> Response + Send + Sync)) {
    let mut r = BufReader::new(&s);
    let mut line = String::new();
    if r.read_line(&mut line).unwrap_or(0) == 0 {
        return;
    }
    let mut parts = line.split_whitespace();
    let (method, path) = (parts.next().unwrap_or("").to_owned(), parts.next().unwrap_or("").to_owned());
    let mut headers = vec![];
    loop {
        let mut h = String::new();
        if r.read_line(&mut h).unwrap_or(0) == 0 || h.trim().is_empty() {
            break;
        }
        if let Some((k, v)) = h.trim_end().split_once(':') {
            headers.push((k.to_lowercase(), v.trim().to_owned()));
        }
    }
    let get = |k: &str| headers.iter().find(|(n, _)| n == k).map(|(_, v)| v.clone());
    let mut body = vec![];
    if get("transfer-encoding").is_some_and(|t| t.contains("chunked")) {
        loop {
            let mut l = String::new();
            let _ = r.read_line(&mut l);
            let n = usize::from_str_radix(l.trim(), 16).unwrap_or(0);
            let mut chunk = vec![0; n + 2];
            if r.read_exact(&mut chunk).is_err() || n == 0 {
                break;
            }
            body.extend_from_slice(&chunk[..n]);
        }
    } else if let Some(n) = get("content-length").and_then(|n| n.parse::<usize>().ok()) {
        body = vec![0; n];
        let _ = r.read_exact(&mut body);
    }
    let req = Request { method, path, host: get("host").unwrap_or_default(), auth: get("authorization"), headers, body };
    log.lock().expect("lock").push(req.clone());
    let resp = handler(&req);
    let mut out = format!("HTTP/1.1 {} X\r\nContent-Length: {}\r\nConnection: close\r\n", resp.status, resp.body.len());
    for (k, v) in &resp.headers {
        out += &format!("{k}: {v}\r\n");
    }
    out += "\r\n";
    let mut s = &s;
    let _ = s.write_all(out.as_bytes());
    let _ = s.write_all(&resp.body);
}
