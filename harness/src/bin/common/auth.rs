//! C27: which requests carry which credentials.
use harness::http::{Response, Server};
use harness::reg::{weaver, write_files};
use harness::*;
use serde_json::json;
use std::sync::Arc;
use weaver_common::http_auth::{AuthMatchRule, HttpAuthResolver, TokenSource};
use weaver_common::vdir::{VirtualDirectory, VirtualDirectoryPath};

pub const SPEC: Spec = Spec {
    id: "C27",
    level: "model_checking",
    rule: "Exhaustive: (R) all ordered lists of up to 4 (thorough 5) of 8 prefixes, each with one of 8 token sources (in 16 rotations), x 13 URLs, resolved twice; (H) rule sets x 5 request paths with 4 kinds of redirect against loopback servers that record what they get; (L) the command with [[auth]] in .weaver.toml, for the registry and a dependency. \
           Oracle: the token of the rule with the longest matching prefix (the first of equal ones), or none if that rule has no token; the first request of a download carries it, a request to another host never carries any. Non-trivial: two rules match.",
    assumptions: &["loopback only, plain HTTP: whether a redirect to the same host keeps the header is not judged"],
    run,
};

const PREFIXES: [&str; 8] = ["https://h.example/", "https://h.example/acme/", "https://h.example/acme/r", "https://h.example/acme/registry/1/m.yaml", "https://other.example/", "http://h.example/", "https://h.example/acme/", "https://"];
const URLS: [&str; 13] = [
    "https://h.example/",
    "https://h.example/x",
    "https://h.example/acme",
    "https://h.example/acme/",
    "https://h.example/acme/a",
    "https://h.example/acme/registry/1",
    "https://h.example/acme/registry/1/m.yaml",
    "https://h.example.evil.example/acme/r",
    "https://other.example/https://h.example/acme/",
    "https://third.example/?https://h.example/",
    "http://h.example/acme/r",
    "ftp://h.example/",
    "",
];

fn source(k: usize, tag: &str) -> (TokenSource, Option<String>) {
    let sh = |s: String| TokenSource::TokenCommand(vec!["/bin/sh".into(), "-c".into(), s]);
    match k {
        0 => (TokenSource::Token(format!("t-{tag}")), Some(format!("t-{tag}"))),
        1 => (TokenSource::TokenEnv("VERIF_TOKEN_A".into()), Some("env-a".into())),
        2 => (TokenSource::TokenEnv("VERIF_TOKEN_NONE".into()), None),
        3 => (TokenSource::TokenEnv("VERIF_TOKEN_EMPTY".into()), None),
        4 => (sh(format!("echo ' c-{tag} '; echo second")), Some(format!("c-{tag}"))),
        5 => (sh("echo no; exit 3".into()), None),
        6 => (sh("echo; echo second".into()), None),
        _ => (TokenSource::TokenCommand(vec![]), None),
    }
}

fn model<'a>(rules: &'a [(&'a str, Option<String>)], url: &str) -> (Option<String>, usize) {
    let matching: Vec<_> = rules.iter().filter(|(p, _)| url.starts_with(p)).collect();
    let longest = matching.iter().map(|(p, _)| p.len()).max().unwrap_or(0);
    (matching.iter().find(|(p, _)| p.len() == longest).and_then(|(_, t)| t.clone()), matching.len())
}

fn rules(chk: &Arc<Check>) {
    let depth = if chk.thorough() { 5 } else { 4 };
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for n in 1..=depth {
        lists.extend(product(&vec![PREFIXES.len(); n]).map(|x| x.to_vec()).filter(|x| (1..x.len()).all(|i| !x[..i].contains(&x[i]))));
    }
    chk.par(lists.into_iter(), |l| format!("R-{}", l.iter().map(usize::to_string).collect::<Vec<_>>().join("-")), |chk, name, l| {
        // commands are slow: they are rotated in less often
        for rot in 0..16usize {
            let kinds: Vec<usize> = (0..l.len()).map(|i| if rot < 4 { [0, 1, 2, 3][(rot + i * 3) % 4] } else { (rot + i * 5 + l[i]) % 8 }).collect();
            if rot >= 4 && kinds.iter().any(|k| *k >= 4) && (l.len() > 1 && (l.iter().sum::<usize>() + rot) % 12 != 0) {
                continue;
            }
            let mut spec = vec![];
            let mut m = vec![];
            for (i, p) in l.iter().enumerate() {
                let (s, t) = source(kinds[i], &format!("{p}-{i}"));
                spec.push(AuthMatchRule { url_prefix: PREFIXES[*p].into(), name: Some(format!("n{i}")), source: s });
                m.push((PREFIXES[*p], t));
            }
            let r = HttpAuthResolver::new(spec);
            for round in 0..2 {
                for url in URLS {
                    let (want, matching) = model(&m, url);
                    chk.eval(&(name, rot, url), matching > 1);
                    chk.outcome(match (&want, matching) {
                        (_, 0) => "no rule",
                        (None, _) => "no token",
                        _ => "token",
                    });
                    let got = r.clone().resolve(url);
                    if !chk.expect_eq(name, || json!({"rules": l.iter().zip(&kinds).map(|(p, k)| format!("{} {:?}", PREFIXES[*p], source(*k, "_").0)).collect::<Vec<_>>(), "url": url, "round": round}), &format!("{want:?}"), &format!("{got:?}")) {
                        return;
                    }
                }
            }
        }
    });
}

/// What the servers answer: /go/<kind>/<rest> redirects.
fn answer(path: &str, host: &str, other: &str) -> Response {
    let rest = path.trim_start_matches('/');
    match rest.split('/').next().unwrap_or("") {
        "same" => Response::redirect(&format!("http://{host}/final/{rest}")),
        "other" => Response::redirect(&format!("http://{other}/final/{rest}")),
        "twice" => Response::redirect(&format!("http://{host}/other/{rest}")),
        "relative" => Response::redirect("/final/x"),
        _ => Response::ok("file_format: x\n"),
    }
}

fn downloads(chk: &Arc<Check>) {
    let prefixes = ["", "/", "/other/", "/acme/", "/acme/x"];
    let paths = ["/acme/x.yaml", "/same/m.yaml", "/other/m.yaml", "/twice/m.yaml", "/relative/m.yaml", "/acme/y/arch.zip"];
    // one pair of hosts per worker would do; one server under two names is enough
    let items: Vec<(Vec<usize>, usize, bool)> = {
        let mut l = vec![];
        for s in subsets(&(0..prefixes.len()).collect::<Vec<_>>()) {
            for p in 0..paths.len() {
                for other_rule in [false, true] {
                    l.push((s.clone(), p, other_rule));
                }
            }
        }
        l
    };
    chk.par(items.into_iter(), |(s, p, o)| format!("H-{s:?}-{p}-{o}"), |chk, name, (s, p, other_rule)| {
        let server = Server::start(|r| {
            let port = r.host.rsplit(':').next().unwrap_or("").to_owned();
            answer(&r.path, &r.host, &format!("localhost:{port}"))
        });
        let host = format!("127.0.0.1:{}", server.port);
        let url = format!("http://{host}{}", paths[p]);
        let mut m: Vec<(String, Option<String>)> = s.iter().map(|i| (format!("http://{host}{}", prefixes[*i]), Some(format!("tok{i}")))).collect();
        if other_rule {
            m.push((format!("http://localhost:{}/", server.port), Some("tok-other".into())));
            m.push(("http://api.".into(), Some("tok-api".into())));
        }
        let auth = HttpAuthResolver::new(m.iter().map(|(p, t)| AuthMatchRule { url_prefix: p.clone(), name: None, source: TokenSource::Token(t.clone().unwrap_or_default()) }).collect());
        let refs: Vec<(&str, Option<String>)> = m.iter().map(|(p, t)| (p.as_str(), t.clone())).collect();
        let (want, matching) = model(&refs, &url);
        let path: VirtualDirectoryPath = url.parse().expect("source");
        let _ = guarded(|| VirtualDirectory::try_new_with_auth(&path, &auth).map(|_| ()).map_err(|e| format!("{e:?}")));
        let seen = server.take();
        let mut bad = vec![];
        for (i, r) in seen.iter().enumerate() {
            let want = if i == 0 { want.clone().map(|t| format!("Bearer {t}")) } else { None };
            let same_host = r.host == host;
            if (i == 0 || !same_host) && r.auth != want {
                bad.push(format!("request {i} to {} {}: {:?}, not {want:?}", r.host, r.path, r.auth));
            }
        }
        chk.eval(name, matching > 1);
        chk.outcome(if want.is_some() { "sent" } else { "not sent" });
        chk.add_traces(1);
        let n = [1, 2, 2, 3, 2, 1][p];
        if seen.len() != n || !bad.is_empty() {
            chk.violation(name, name, json!({"url": url, "rules": m}), &format!("{n} requests with the credentials of their rules"), &format!("{} requests; {bad:?}", seen.len()));
        }
    });
}

fn command(chk: &Arc<Check>) {
    let items: Vec<Vec<usize>> = product(&[3, 3, 2]).map(|x| x.to_vec()).collect();
    chk.par(items.into_iter(), |x| format!("L-{x:?}"), |chk, name, x| {
        let d = chk.fresh("w");
        let group = |id: &str| json!({"groups": [{"id": id, "type": "attribute_group", "brief": "b", "attributes": [{"id": format!("{id}.x"), "type": "string", "brief": "b", "stability": "stable", "examples": ["e"]}]}]}).to_string();
        let archive = |files: &[(&str, String)]| {
            use std::io::Write;
            let mut z = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
            let o = zip::write::SimpleFileOptions::default().compression_method(zip::CompressionMethod::Stored);
            for (n, c) in files {
                z.start_file(format!("r/{n}"), o).expect("zip");
                let _ = z.write_all(c.as_bytes());
            }
            z.finish().expect("zip").into_inner()
        };
        let dep = archive(&[("dep.yaml", group("dep")), ("manifest.yaml", "name: dep\ndescription: d\nsemconv_version: 1.0.0\nschema_base_url: https://example.com/dep\n".into())]);
        let port = Arc::new(std::sync::OnceLock::new());
        let p2 = port.clone();
        let own = group("own");
        let server = Server::start(move |r| {
            let port: u16 = *p2.get().unwrap_or(&0);
            match r.path.as_str() {
                "/main/reg.zip" => Response::ok(archive(&[("own.yaml", own.clone()), ("manifest.yaml", format!("name: own\ndescription: d\nsemconv_version: 1.0.0\nschema_base_url: https://example.com/own\ndependencies:\n  - name: dep\n    registry_path: http://localhost:{port}/dep/dep.zip\n"))])),
                "/dep/dep.zip" => Response::ok(dep.clone()),
                _ => Response::not_found(),
            }
        });
        let _ = port.set(server.port);
        let rule = |prefix: String, tok: &str| format!("[[auth]]\nurl_prefix = \"{prefix}\"\ntoken = \"{tok}\"\n");
        let (a, b) = (format!("http://127.0.0.1:{}", server.port), format!("http://localhost:{}", server.port));
        let mut toml = String::new();
        toml += &match x[0] {
            0 => String::new(),
            1 => rule(format!("{a}/"), "main"),
            _ => rule(format!("{a}/main/"), "main") + &rule(format!("{a}/"), "broad"),
        };
        toml += &match x[1] {
            0 => String::new(),
            1 => rule(format!("{b}/dep/"), "dep"),
            _ => rule(format!("{b}/else/"), "dep"),
        };
        write_files(&d, &[("c.toml".into(), toml.clone()), ("home/.k".into(), String::new())]);
        let cfg = d.join("c.toml").display().to_string();
        let reg = format!("{a}/main/reg.zip");
        let mut args = vec!["registry", "resolve", "-r", &reg, "--config", &cfg];
        if x[2] == 1 {
            args = vec!["registry", "check", "-r", &reg, "--config", &cfg];
        }
        let (code, so, se) = weaver(&args, &d.join("home"));
        let mut seen: Vec<String> = server.take().iter().map(|r| format!("{} {} {:?}", r.host.split(':').next().unwrap_or(""), r.path, r.auth)).collect();
        seen.sort();
        seen.dedup();
        let want = [
            format!("127.0.0.1 /main/reg.zip {:?}", (x[0] > 0).then(|| "Bearer main".to_owned())),
            format!("localhost /dep/dep.zip {:?}", (x[1] == 1).then(|| "Bearer dep".to_owned())),
        ];
        chk.eval(name, true);
        chk.add_traces(1);
        chk.outcome("command");
        let _ = chk.expect_eq(name, || json!({"toml": toml, "stdout": so, "stderr": se}), &format!("0 {want:?}"), &format!("{code} {seen:?}"));
    });
}

fn run(chk: &Arc<Check>) {
    let home = chk.fresh("home");
    std::env::set_var("HOME", &home);
    std::env::set_var("VERIF_TOKEN_A", "env-a");
    std::env::set_var("VERIF_TOKEN_EMPTY", "");
    rules(chk);
    downloads(chk);
    command(chk);
}
