//! One run of `weaver registry live-check` that listens for OTLP.
use crate::wire::{Kind, Msg};
use opentelemetry_proto::tonic::collector::{
    logs::v1::logs_service_client::LogsServiceClient, metrics::v1::metrics_service_client::MetricsServiceClient,
    profiles::v1development::profiles_service_client::ProfilesServiceClient, trace::v1::trace_service_client::TraceServiceClient,
};
use std::io::{Read, Write};
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use tonic::transport::Channel;

pub fn port() -> u16 {
    static NEXT: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(23000);
    loop {
        let p = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if std::net::TcpListener::bind(("0.0.0.0", p)).is_ok() {
            return p;
        }
    }
}

/// (status line, body)
pub fn http(port: u16, request: &str) -> Option<(String, String)> {
    ask(port, request, "", Duration::ZERO)
}

/// The same, with further headers, by a client that takes its time before it reads.
pub fn ask(port: u16, request: &str, headers: &str, pause: Duration) -> Option<(String, String)> {
    let mut s = std::net::TcpStream::connect(("127.0.0.1", port)).ok()?;
    s.write_all(format!("{request} HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n{headers}\r\n").as_bytes()).ok()?;
    std::thread::sleep(pause);
    let (mut all, mut part) = (vec![], vec![0; 1 << 16]);
    loop {
        let head = all.windows(4).position(|w| w == b"\r\n\r\n");
        if let Some(h) = head {
            let text = String::from_utf8_lossy(&all[..h]).into_owned();
            let length = text.lines().find_map(|l| l.to_lowercase().strip_prefix("content-length:").and_then(|n| n.trim().parse::<usize>().ok())).unwrap_or(0);
            // what is known to be the length, or else all there is
            let n = loop {
                let more = if all.len() - h - 4 < length { s.read(&mut part).unwrap_or(0) } else { 0 };
                if more == 0 {
                    break length.min(all.len() - h - 4);
                }
                all.extend_from_slice(&part[..more]);
            };
            return Some((text.lines().next().unwrap_or_default().to_owned(), String::from_utf8_lossy(&all[h + 4..h + 4 + n]).into_owned()));
        }
        match s.read(&mut part) {
            Ok(n) if n > 0 => all.extend_from_slice(&part[..n]),
            _ => return None,
        }
    }
}

pub struct Session {
    child: Child,
    pub grpc: u16,
    pub admin: u16,
    rt: tokio::runtime::Runtime,
    /// one per connection
    channels: Vec<Channel>,
}

pub struct End {
    pub code: i32,
    pub stdout: String,
    pub stderr: String,
}

impl Session {
    /// A live check.
    pub fn start(dir: &Path, args: &[&str], connections: usize) -> Result<Self, String> {
        let mut all = vec!["registry", "live-check", "--format", "json", "--otlp-grpc-address", "127.0.0.1"];
        all.extend_from_slice(args);
        let me = Self::command(dir, &all, "--otlp-grpc-port", connections)?;
        // The way of output is settled right after the ports are open.
        std::thread::sleep(Duration::from_millis(100));
        Ok(me)
    }
    /// A command that takes a port for OTLP and one for its administration.
    pub fn command(dir: &Path, args: &[&str], port_option: &str, connections: usize) -> Result<Self, String> {
        // A port can be lost to another process between its choice and its use.
        let again = |r: &Result<Self, String>| matches!(r, Err(e) if e.contains("in use"));
        (0..2).fold(Self::once(dir, args, port_option, connections), |r, _| if again(&r) { Self::once(dir, args, port_option, connections) } else { r })
    }
    fn once(dir: &Path, args: &[&str], port_option: &str, connections: usize) -> Result<Self, String> {
        let (grpc, admin) = (port(), port());
        let (g, a) = (grpc.to_string(), admin.to_string());
        let mut all = args.to_vec();
        all.extend_from_slice(&[port_option, &g, "--admin-port", &a]);
        // the output goes to files: a full pipe must not block the process
        let file = |n: &str| std::fs::File::create(dir.join(format!("{n}-{grpc}"))).expect("create");
        let child = Command::new(std::env::var("WEAVER_BIN").expect("WEAVER_BIN"))
            .args(&all)
            .env("HOME", dir)
            .env("NO_COLOR", "1")
            .current_dir(dir)
            .stdin(Stdio::null())
            .stdout(file("out"))
            .stderr(file("err"))
            .spawn()
            .expect("run weaver");
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        let mut me = Self { child, grpc, admin, rt, channels: vec![] };
        let begun = Instant::now();
        // Ready when it says so. (A connection proves nothing: until it is replaced, a process
        // being spawned elsewhere keeps the socket that showed the port to be free.)
        while !http(admin, "GET /health").is_some_and(|a| a.0.contains("200")) && begun.elapsed() < Duration::from_secs(60) && me.child.try_wait().expect("wait").is_none() {
            std::thread::sleep(Duration::from_millis(5));
        }
        while me.channels.len() < connections {
            let e = tonic::transport::Endpoint::from_shared(format!("http://127.0.0.1:{grpc}")).expect("endpoint");
            match me.rt.block_on(e.connect()) {
                Ok(c) => me.channels.push(c),
                Err(_) if begun.elapsed() < Duration::from_secs(60) && me.child.try_wait().expect("wait").is_none() => std::thread::sleep(Duration::from_millis(5)),
                Err(e) => {
                    let end = me.end(dir);
                    return Err(format!("not listening: {e}; exit {}; {}", end.code, end.stderr));
                }
            }
        }
        Ok(me)
    }
    /// Sends and waits for the acknowledgement.
    pub fn send(&self, connection: usize, msg: &Msg) -> Result<(), String> {
        self.rt.block_on(deliver(self.channels[connection].clone(), msg))
    }
    /// Sends all at once, then waits for all acknowledgements.
    pub fn send_together(&self, msgs: &[Msg]) -> Result<(), String> {
        self.rt.block_on(async {
            let mut set = tokio::task::JoinSet::new();
            for m in msgs {
                let (c, m) = (self.channels[0].clone(), m.clone());
                let _ = set.spawn(async move { deliver(c, &m).await });
            }
            set.join_all().await.into_iter().collect::<Result<Vec<()>, String>>().map(|_| ())
        })
    }
    pub fn signal(&self, name: &str) {
        let _ = Command::new("kill").args([format!("-{name}"), self.child.id().to_string()]).status();
    }
    pub fn stop(&self) -> Option<(String, String)> {
        http(self.admin, "POST /stop")
    }
    /// By a client that reads the answer after a while.
    pub fn stop_slowly(&self, headers: &str) -> Option<(String, String)> {
        ask(self.admin, "POST /stop", headers, Duration::from_secs(1))
    }
    /// Waits until it is over, by force after a minute.
    pub fn end(&mut self, dir: &Path) -> End {
        let begun = Instant::now();
        let code = loop {
            match self.child.try_wait().expect("wait") {
                Some(s) => break s.code().unwrap_or(-1),
                None if begun.elapsed() > Duration::from_secs(60) => {
                    let _ = self.child.kill();
                    let _ = self.child.wait();
                    break -2;
                }
                None => std::thread::sleep(Duration::from_millis(5)),
            }
        };
        let take = |n: &str| {
            let p = dir.join(format!("{n}-{}", self.grpc));
            let s = std::fs::read_to_string(&p).unwrap_or_default();
            let _ = std::fs::remove_file(p);
            s
        };
        End { code, stdout: take("out"), stderr: take("err") }
    }
}

impl Drop for Session {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

async fn deliver(c: Channel, msg: &Msg) -> Result<(), String> {
    const MAX: usize = 64 << 20;
    match msg.kind {
        Kind::Logs => LogsServiceClient::new(c).max_encoding_message_size(MAX).export(msg.logs()).await.map(|_| ()),
        Kind::Metrics => MetricsServiceClient::new(c).max_encoding_message_size(MAX).export(msg.metrics()).await.map(|_| ()),
        Kind::Traces => TraceServiceClient::new(c).max_encoding_message_size(MAX).export(msg.traces()).await.map(|_| ()),
        Kind::Profiles => ProfilesServiceClient::new(c).max_encoding_message_size(MAX).export(msg.profiles()).await.map(|_| ()),
    }
    .map_err(|e| e.to_string())
}
