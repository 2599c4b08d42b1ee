//! The HTTP API of `weaver serve`.
use crate::search::*;
use harness::reg::weaver;
use harness::*;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::TcpStream;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub fn port() -> u16 {
    static NEXT: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(25000);
    loop {
        let p = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if std::net::TcpListener::bind(("127.0.0.1", p)).is_ok() {
            return p;
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Answer {
    pub status: u16,
    /// lower case names
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Answer {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|h| h.0 == name).map(|h| h.1.as_str())
    }
    pub fn json(&self) -> Value {
        serde_json::from_slice(&self.body).unwrap_or(Value::Null)
    }
    /// What does not depend on the time.
    pub fn essence(&self) -> String {
        format!("{} {:?} {}", self.status, self.header("content-type"), String::from_utf8_lossy(&self.body))
    }
}

/// A connection that is kept.
pub struct Client {
    stream: TcpStream,
    read: Vec<u8>,
}

impl Client {
    pub fn new(port: u16) -> Result<Self, String> {
        let stream = TcpStream::connect(("127.0.0.1", port)).map_err(|e| e.to_string())?;
        stream.set_read_timeout(Some(Duration::from_secs(60))).map_err(|e| e.to_string())?;
        stream.set_nodelay(true).map_err(|e| e.to_string())?;
        Ok(Self { stream, read: vec![] })
    }
    pub fn send(&mut self, requests: &[(String, Vec<(String, String)>)]) -> Result<(), String> {
        let mut all = String::new();
        for (line, headers) in requests {
            all += &format!("{line} HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n");
            for (k, v) in headers {
                all += &format!("{k}: {v}\r\n");
            }
            all += "\r\n";
        }
        self.stream.write_all(all.as_bytes()).map_err(|e| e.to_string())
    }
    fn more(&mut self) -> Result<(), String> {
        let mut b = [0; 65536];
        match self.stream.read(&mut b) {
            Ok(0) => Err("closed".into()),
            Ok(n) => {
                self.read.extend_from_slice(&b[..n]);
                Ok(())
            }
            Err(e) => Err(e.to_string()),
        }
    }
    pub fn receive(&mut self, head_only: bool) -> Result<Answer, String> {
        let end = loop {
            match self.read.windows(4).position(|w| w == b"\r\n\r\n") {
                Some(i) => break i,
                None => self.more()?,
            }
        };
        let head = String::from_utf8_lossy(&self.read[..end]).into_owned();
        let mut lines = head.split("\r\n");
        let status = lines.next().unwrap_or_default().split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
        let headers: Vec<(String, String)> = lines.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_lowercase(), v.trim().to_owned())).collect();
        let _ = self.read.drain(..end + 4);
        let mut answer = Answer { status, headers, body: vec![] };
        if head_only || status == 204 {
            return Ok(answer);
        }
        if answer.header("transfer-encoding") == Some("chunked") {
            return Err("chunked".into());
        }
        let n: usize = answer.header("content-length").and_then(|n| n.parse().ok()).unwrap_or(0);
        while self.read.len() < n {
            self.more()?;
        }
        answer.body = self.read.drain(..n).collect();
        Ok(answer)
    }
    pub fn get(&mut self, path: &str) -> Result<Answer, String> {
        self.send(&[(format!("GET {path}"), vec![])])?;
        self.receive(false)
    }
}

pub struct Server {
    child: Child,
    pub port: u16,
    log: PathBuf,
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Server {
    pub fn start(home: &Path, args: &[&str]) -> Result<Self, String> {
        let once = || {
            let port = port();
            let bind = format!("127.0.0.1:{port}");
            let log = home.join(format!("log-{port}"));
            let file = || std::fs::OpenOptions::new().create(true).append(true).open(&log).expect("create");
            let child = Command::new(std::env::var("WEAVER_BIN").expect("WEAVER_BIN"))
                .args(["serve", "--bind", &bind])
                .args(args)
                .env("HOME", home)
                .env("NO_COLOR", "1")
                .current_dir(home)
                .stdin(Stdio::null())
                .stdout(file())
                .stderr(file())
                .spawn()
                .expect("run weaver");
            let mut me = Self { child, port, log };
            let begun = Instant::now();
            while begun.elapsed() < Duration::from_secs(60) && me.child.try_wait().expect("wait").is_none() {
                if Client::new(port).and_then(|mut c| c.get("/health")).is_ok_and(|a| a.status == 200) {
                    return Ok(me);
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            Err(format!("not serving: {}", std::fs::read_to_string(&me.log).unwrap_or_default()))
        };
        // A port can be lost to another process between its choice and its use.
        (0..2).fold(once(), |r, _| if matches!(&r, Err(e) if e.contains("in use")) { once() } else { r })
    }
    pub fn client(&self) -> Client {
        Client::new(self.port).expect("connect")
    }
}

/// Everything but letters and digits encoded; or nothing that needs not be.
pub fn percent(s: &str, all: bool) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() || !all && b".-_~:".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}

/// The statistics name items in any order.
fn sets(v: &mut Value) {
    match v {
        Value::Array(l) => l.sort_by_key(Value::to_string),
        Value::Object(o) => o.values_mut().for_each(sets),
        _ => (),
    }
}

/// Items whose names need care in a URL.
fn awkward() -> Vec<Item> {
    let mut out = states();
    for (i, id) in ["a/b", "a b", "é.ü", "a%2Fb", "q?x=1", "h#t", "a+b", "a&b=c", "..", "a.b/", "\"q\"", "search", "stats", "A.B", "a.b"].iter().enumerate() {
        out.push(Item { brief: format!("awkward {i}"), template: i % 4 == 3, ..item(0, id) });
        if i % 2 == 0 {
            out.push(item(1 + i % 4, id));
        }
    }
    out
}

struct World {
    server: Server,
    items: Vec<Item>,
    context: Value,
    reg: weaver_forge::v2::registry::ForgeResolvedRegistry,
    home: PathBuf,
}

fn world(chk: &Check, items: &[Item]) -> Result<World, String> {
    let home = chk.fresh("world");
    let dir = home.join("reg");
    let items = registry(&dir, items);
    let reg = forge(&dir)?;
    let server = Server::start(&home, &["-r", dir.to_str().expect("utf8")])?;
    Ok(World { server, items, context: serde_json::to_value(&reg).expect("json"), reg, home })
}

fn address(r: &Request, more: &str, all: bool) -> String {
    let mut p: Vec<String> = vec![];
    if let Some(q) = &r.query {
        p.push(format!("q={}", percent(q, all).replace("%20", if all { "%20" } else { "+" })));
    }
    if let Some(k) = r.kind {
        p.push(format!("type={}", KINDS[k]));
    } else if all {
        p.push("type=all".into());
    }
    if let Some(s) = r.stability {
        p.push(format!("stability={}", STABILITY[s]));
    }
    if r.hide || all {
        p.push(format!("hide_deprecated={}", r.hide));
    }
    if !more.is_empty() {
        p.push(more.to_owned());
    }
    format!("/api/v1/registry/search?{}", p.join("&"))
}

fn searches(chk: &Arc<Check>, w: &Arc<World>) {
    let mut all = requests();
    for q in ["a/b", "a b", "é", "a%2Fb", "q?x=1", "h#t", "a+b", "a&b=c", "awkward 1", "\"q\"", "AWKWARD"] {
        all.push(Request { query: Some(q.into()), kind: None, stability: None, hide: false });
    }
    chk.par(all.into_iter().enumerate(), |(i, _)| format!("H-search-{i}"), |chk, name, (_, r)| {
        let mut c = w.server.client();
        let want = found(&w.items, &r, ".");
        let full = match c.get(&address(&r, "limit=1000", true)) {
            Ok(a) => a,
            Err(e) => return chk.violation(name, name, json!(format!("{r:?}")), "an answer", &e),
        };
        let body = full.json();
        let results = body["results"].as_array().cloned().unwrap_or_default();
        let (got, ordered) = said(&results);
        chk.eval(&format!("H{r:?}"), !want.is_empty() && want.len() < w.items.len());
        chk.outcome("searched over HTTP");
        let want_head = json!({"query": r.query, "total": want.len(), "count": want.len(), "offset": 0});
        let mut head = body.clone();
        let _ = head.as_object_mut().map(|o| o.remove("results"));
        if !chk.expect_eq(name, || json!(address(&r, "", true)), &format!("200 {want_head} {want:?} true"), &format!("{} {head} {got:?} {ordered}", full.status)) {
            return;
        }
        for v in &results {
            let (_, k, id) = said(std::slice::from_ref(v)).0.remove(0);
            let x = whole(&w.context, k, &id).cloned().unwrap_or_default();
            if !chk.expect_eq(name, || json!(format!("{r:?} {id}")), &x.to_string(), &stripped(v).to_string()) {
                return;
            }
        }
        for (more, limit, offset) in [("", 50, 0), ("limit=0", 0, 0), ("limit=1", 1, 0), ("limit=3&offset=2", 3, 2), ("offset=5", 50, 5), ("offset=51", 50, 51), ("limit=5000", 1000, 0), ("offset=99999&limit=7", 7, 99999), ("offset=18446744073709551615", 50, usize::MAX)] {
            let part: Vec<Value> = results.iter().skip(offset).take(limit).cloned().collect();
            let want = json!({"query": r.query, "total": want.len(), "count": part.len(), "offset": offset, "results": part});
            let got = c.get(&address(&r, more, false)).map(|a| a.json()).unwrap_or_else(|e| json!(e));
            chk.add_transitions(1);
            if !chk.expect_eq(name, || json!(address(&r, more, false)), &want.to_string(), &got.to_string()) {
                return;
            }
        }
    });
}

fn lookup_all(chk: &Arc<Check>, w: &Arc<World>) {
    let l = lookups(&w.items, &w.context);
    chk.par(l.into_iter(), |(k, n, _)| format!("H-lookup-{}-{n}", KINDS[*k]), |chk, name, (k, n, want)| {
        let mut c = w.server.client();
        for all in [true, false] {
            // A client removes what looks like a folder.
            if !all && n.contains("..") {
                continue;
            }
            let got = match c.get(&format!("/api/v1/registry/{}/{}", KINDS[k], percent(&n, all))) {
                Ok(a) => a,
                Err(e) => return chk.violation(name, name, json!(n), "an answer", &e),
            };
            chk.eval(&("lookup", k, &n, all), want.is_some());
            chk.outcome(if want.is_some() { "looked up over HTTP" } else { "not there over HTTP" });
            let ok = match &want {
                Some(v) => chk.expect_eq(name, || json!([KINDS[k], n]), &format!("200 {v}"), &format!("{} {}", got.status, got.json())),
                None => chk.expect_eq(name, || json!([KINDS[k], n]), "404 an error: true", &format!("{} an error: {}", got.status, got.json()["error"].is_string())),
            };
            if !ok {
                return;
            }
        }
    });
}

fn others(chk: &Arc<Check>, w: &Arc<World>) {
    let filters = [
        ".", ".registry.attributes", ".registry.metrics | map(.name)", ".registry | map_values(length)", ".schema_url", "[.registry.attributes[] | select(.deprecated) | .key]", ".no.such.thing", "1, 2", "empty", "[]", "\"a b\" + \"é%+&#\"",
        ".registry.attributes | group_by(.stability) | map({(.[0].stability): length}) | add", "error(\"no\")", ".schema_url + 1", "(", "", "semconv_attributes", "$no", "1e999", "null", ".registry.spans[0].attributes",
    ];
    chk.par(filters.iter().enumerate(), |(i, _)| format!("H-filter-{i}"), |chk, name, (_, f)| {
        let got = match w.server.client().get(&format!("/api/v1/registry/filter?filter={}", percent(f, true))) {
            Ok(a) => a,
            Err(e) => return chk.violation(name, name, json!(f), "an answer", &e),
        };
        let want = weaver_forge::run_filter_raw(&w.reg, f);
        chk.eval(&("filter", f), true);
        chk.outcome(if want.is_ok() { "filtered over HTTP" } else { "filter in error" });
        let _ = match want {
            Ok(v) => chk.expect_eq(name, || json!(f), &format!("200 {v}"), &format!("{} {}", got.status, got.json())),
            Err(_) => chk.expect_eq(name, || json!(f), "400 an error: true", &format!("{} an error: {}", got.status, got.json()["error"].is_string())),
        };
    });
    chk.case("H-others", || {
        let mut c = w.server.client();
        let mut get = |p: &str| c.get(p).map_err(|e| chk.violation("H-others", "H-others", json!(p), "an answer", &e)).ok();
        // the filter that is not stated is the whole
        let mut all = vec![("/api/v1/registry/filter".to_owned(), format!("200 {}", w.context))];
        let (_, out, _) = weaver(&["registry", "stats", "-r", "reg", "--v2", "--format", "json"], &w.home);
        let mut stats: Value = serde_json::from_str(&out).unwrap_or_default();
        stats["schema_url"] = json!("https://x.y/reg/1.0.0");
        sets(&mut stats);
        all.push(("/api/v1/registry/stats".into(), format!("200 {stats}")));
        for (p, want) in all {
            if let Some(a) = get(&p) {
                chk.eval(&p, true);
                let mut got = a.json();
                if p.ends_with("stats") {
                    sets(&mut got);
                }
                let _ = chk.expect_eq("H-others", || json!(p), &want, &format!("{} {got}", a.status));
            }
        }
        // Wrong parameters are told.
        for p in ["search?type=bogus", "search?type=", "search?type=Metric", "search?stability=bogus", "search?limit=x", "search?limit=-1", "search?limit=", "search?offset=-1", "search?limit=1.5", "search?hide_deprecated=maybe", "search?limit=99999999999999999999", "search?limit=1&limit=2"] {
            if let Some(a) = get(&format!("/api/v1/registry/{p}")) {
                chk.eval(&p, true);
                chk.outcome("wrong parameter");
                let _ = chk.expect_eq("H-others", || json!(p), "400", &a.status.to_string());
            }
        }
        for (p, want) in [("MaterializedRegistryV2", 200), ("SemconvDefinitionV2", 200), ("LiveCheckSample", 200), ("no", 404), ("livechecksample", 404)] {
            if let Some(a) = get(&format!("/api/v1/schema/{p}")) {
                chk.eval(&p, true);
                let _ = chk.expect_eq("H-others", || json!(p), &format!("{want} true {}", want == 404), &format!("{} {} {}", a.status, a.json().is_object(), a.json()["error"].is_string()));
            }
        }
        if let Some(a) = get("/api/v1/openapi.json") {
            let paths: Vec<String> = a.json()["paths"].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
            for p in ["/health", "/api/v1/registry/search", "/api/v1/registry/stats", "/api/v1/registry/filter", "/api/v1/registry/attribute/{key}", "/api/v1/registry/metric/{name}", "/api/v1/registry/span/{type}", "/api/v1/registry/event/{name}", "/api/v1/registry/entity/{type}", "/api/v1/schema/{name}"] {
                chk.eval(&("openapi", p), true);
                let _ = chk.expect_eq("H-others", || json!(p), "described: true", &format!("described: {}", paths.iter().any(|x| x == p)));
            }
        }
    });
}

/// Every sequence of requests, in one go on one connection and on connections of their own.
fn together(chk: &Arc<Check>, w: &Arc<World>) {
    let paths: Vec<String> = [
        "search?q=s0", "search?q=S1&type=metric", "search?limit=1", "search?limit=1&offset=1", "search?limit=x", "attribute/a.b", "attribute/tt.all", "metric/no", "span/same", "stats", "filter?filter=.schema_url", "filter?filter=(", "entity/same", "event/ev3.s0",
    ]
    .iter()
    .map(|p| format!("/api/v1/registry/{p}"))
    .chain(["/health".to_owned(), "/api/v1/schema/no".to_owned()])
    .collect();
    let alone: Vec<Answer> = match paths.iter().map(|p| w.server.client().get(p)).collect() {
        Ok(a) => a,
        Err(e) => return chk.violation("H-together", "H-together", json!(paths), "answers", &e),
    };
    let n = paths.len();
    let depth = if chk.thorough() { 3 } else { 2 };
    let (paths, alone) = (Arc::new(paths), Arc::new(alone));
    chk.par(product(&vec![n; depth]), |x| format!("H-together-{x:?}"), |chk, name, x| {
        let requests: Vec<_> = x.iter().map(|i| (format!("GET {}", paths[*i]), vec![])).collect();
        let want: Vec<String> = x.iter().map(|i| alone[*i].essence()).collect();
        let mut c = w.server.client();
        let one: Vec<String> = c.send(&requests).map(|()| requests.iter().map(|_| c.receive(false).map_or_else(|e| e, |a| a.essence())).collect()).unwrap_or_default();
        let mut several: Vec<Client> = x.iter().map(|_| w.server.client()).collect();
        for (c, r) in several.iter_mut().zip(&requests) {
            let _ = c.send(std::slice::from_ref(r));
        }
        let many: Vec<String> = several.iter_mut().map(|c| c.receive(false).map_or_else(|e| e, |a| a.essence())).collect();
        chk.eval(&("together", &x), true);
        chk.add_traces(2);
        chk.outcome("requests together");
        let _ = chk.expect_eq(name, || json!(x.iter().map(|i| &paths[*i]).collect::<Vec<_>>()), &format!("{want:?}\n{want:?}"), &format!("{one:?}\n{many:?}"));
    });
}

fn origins(chk: &Arc<Check>) {
    let configured = [None, Some("*"), Some("http://a.b"), Some("http://a.b,http://c.d:80"), Some("http://c.d:80 , http://a.b")];
    chk.par(product(&[configured.len(), 2]), |x| format!("H-origin-{x:?}"), |chk, name, x| {
        let (c, file) = (configured[x[0]], x[1] == 1);
        let home = chk.fresh("cors");
        let _ = registry(&home.join("reg"), &[item(0, "a")]);
        let mut args = vec!["-r", "reg"];
        if let Some(c) = c {
            if file {
                std::fs::write(home.join(".weaver.toml"), format!("[serve]\ncors_origins = \"{c}\"\n")).expect("write");
            } else {
                args.extend(["--cors-origins", c]);
            }
        }
        let s = match Server::start(&home, &args) {
            Ok(s) => s,
            Err(e) => return chk.violation(name, name, json!(c), "a server", &e),
        };
        for origin in [None, Some("http://a.b"), Some("http://c.d:80"), Some("http://evil"), Some("http://a.b.evil"), Some("null"), Some("HTTP://A.B")] {
            for (verb, path, status) in [("GET", "/api/v1/registry/stats", 200), ("GET", "/health", 200), ("GET", "/api/v1/registry/metric/no", 404), ("OPTIONS", "/api/v1/registry/stats", 200)] {
                let mut headers: Vec<(String, String)> = origin.map(|o| ("Origin".to_owned(), o.to_owned())).into_iter().collect();
                if verb == "OPTIONS" {
                    headers.push(("Access-Control-Request-Method".into(), "GET".into()));
                }
                let mut client = s.client();
                let got = client.send(&[(format!("{verb} {path}"), headers)]).and_then(|()| client.receive(false));
                let list: Vec<&str> = c.unwrap_or_default().split(',').map(str::trim).collect();
                let want = match (c, origin) {
                    (Some("*"), _) => Some("*"),
                    (Some(_), Some(o)) if list.contains(&o) => Some(o),
                    _ => None,
                };
                let want_status = if verb == "OPTIONS" && c.is_none() { 405 } else { status };
                chk.eval(&("origin", &x, origin, verb, path), want.is_some());
                chk.outcome("asked from an origin");
                let got = got.map(|a| format!("{} {:?}", a.status, a.header("access-control-allow-origin"))).unwrap_or_else(|e| e);
                if !chk.expect_eq(name, || json!({"configured": c, "in a file": file, "origin": origin, "request": [verb, path]}), &format!("{want_status} {want:?}"), &got) {
                    return;
                }
            }
        }
    });
}

pub fn run(chk: &Arc<Check>) {
    let w = match world(chk, &awkward()) {
        Ok(w) => Arc::new(w),
        Err(e) => return chk.violation("H", "H", json!({}), "a server", &e),
    };
    searches(chk, &w);
    lookup_all(chk, &w);
    others(chk, &w);
    together(chk, &w);
    origins(chk);
    old(chk);
}

/// A registry in the first format, with everything templates see of it.
fn old(chk: &Arc<Check>) {
    chk.case("H-v1", || {
        let home = chk.fresh("v1");
        harness::reg::write_files(&home.join("reg"), &[
            ("manifest.yaml".into(), json!({"schema_url": "https://x.y/reg/1.0.0", "description": "d"}).to_string()),
            (
                "a.yaml".into(),
                json!({"groups": [
                    {"id": "registry.a", "type": "attribute_group", "brief": "b", "attributes": [
                        {"id": "a.b", "type": "string", "brief": "b", "stability": "stable", "examples": ["x"]},
                        {"id": "a.t", "type": "template[string]", "brief": "b", "stability": "development", "examples": ["x"]},
                        {"id": "a.e", "type": {"members": [{"id": "x", "value": "x", "brief": "b", "stability": "stable"}]}, "brief": "b", "stability": "alpha", "deprecated": {"reason": "renamed", "renamed_to": "a.b"}}]},
                    {"id": "metric.m", "type": "metric", "metric_name": "m.n", "instrument": "counter", "unit": "1", "brief": "b", "stability": "stable", "attributes": [{"ref": "a.b", "requirement_level": "required"}]},
                    {"id": "metric.m.two", "type": "metric", "metric_name": "m.n", "extends": "metric.m", "instrument": "counter", "unit": "1", "brief": "b2", "stability": "stable"},
                    {"id": "span.s", "type": "span", "span_kind": "client", "brief": "b", "stability": "stable", "attributes": [{"ref": "a.b"}]},
                    {"id": "event.e", "type": "event", "name": "e.v", "brief": "b", "stability": "development", "deprecated": {"reason": "obsoleted"}, "attributes": [{"ref": "a.b"}]},
                    {"id": "entity.en", "type": "entity", "name": "en.t", "brief": "b", "stability": "development", "attributes": [{"ref": "a.b"}]}
                ]})
                .to_string(),
            ),
        ]);
        let context = match forge(&home.join("reg")) {
            Ok(r) => serde_json::to_value(&r).expect("json"),
            Err(e) => return chk.violation("H-v1", "H-v1", json!({}), "a registry", &e),
        };
        let s = match Server::start(&home, &["-r", home.join("reg").to_str().expect("utf8")]) {
            Ok(s) => s,
            Err(e) => return chk.violation("H-v1", "H-v1", json!({}), "a server", &e),
        };
        let mut c = s.client();
        let names = ["a.b", "a.t", "a.e", "m.n", "metric.m", "m", "s", "span.s", "e.v", "event.e", "en.t", "entity.en", "m.two"];
        for (k, n) in product(&[5, names.len()]).map(|x| (x[0], names[x[1]])) {
            let want = whole(&context, k, n).map_or("404".to_owned(), |v| format!("200 {v}"));
            let got = c.get(&format!("/api/v1/registry/{}/{n}", KINDS[k])).map(|a| if a.status == 200 { format!("200 {}", a.json()) } else { a.status.to_string() }).unwrap_or_else(|e| e);
            chk.eval(&("v1", k, n), want != "404");
            chk.outcome(if want == "404" { "not there over HTTP" } else { "looked up over HTTP" });
            let _ = chk.expect_eq("H-v1", || json!([KINDS[k], n]), &want, &got);
        }
        let n = c.get("/api/v1/registry/search").map(|a| a.json()["total"].clone()).unwrap_or_default();
        let _ = chk.expect_eq("H-v1", || json!("search"), "7", &n.to_string());
    });
}
