//! C30: what weaver sends over OTLP is what the registry defines and what the checks found.
use crate::sink::{Got, Sink};
use harness::reg::write_files;
use harness::*;
use serde_json::{json, Map, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;
use tonic::Code;

pub const SPEC: Spec = Spec {
    id: "C30",
    level: "model_checking",
    rule: "Exhaustive, through the real commands and a recording OTLP receiver. `registry emit`: (V) every (type, examples) pair of a domain of 90 (all primitive, array, template and enum types; no example, one, lists, lists of lists, of the fitting and of other kinds) on spans, metrics and events of v1 and v2 registries, also overridden on the reference; (F) every combination of span kind, instrument, unit, brief, number of attributes, stability, deprecation; (N) numbers of signals and attributes around every limit of the telemetry SDK; (R) every subset of the three services refusing with each of 5 codes, no receiver, and where the endpoint is taken from. \
           `live-check --emit-otlp-logs`: (L) every sample of 9 kinds x 40 attributes, alone and in sequences, with 3 policies; (M) every combination of finding filters and level overrides over small domains; (Q) numbers of findings around the limits of the SDK; (C) every JSON context up to depth 2; (W) every subset of failing receiver, missing receiver, ways to stop. Oracle: the definition files and the JSON report. Non-trivial: at least one signal is to be sent.",
    assumptions: &["the kernel gives free loopback ports to the receivers", "values that no example states are only required to be of the declared type"],
    run,
};

pub struct Out {
    pub code: i32,
    pub stdout: String,
    pub stderr: String,
}

/// The command line with an environment of its own.
pub fn command(dir: &Path, args: &[&str], env: &[(&str, &str)]) -> Out {
    let mut c = Command::new(std::env::var("WEAVER_BIN").expect("WEAVER_BIN"));
    let _ = c.args(args).env("HOME", dir).env("NO_COLOR", "1").current_dir(dir).stdin(Stdio::null());
    for (k, _) in std::env::vars().filter(|(k, _)| k.starts_with("OTEL_")) {
        let _ = c.env_remove(k);
    }
    let o = c.envs(env.iter().copied()).output().expect("run weaver");
    Out { code: o.status.code().unwrap_or(-1), stdout: String::from_utf8_lossy(&o.stdout).into(), stderr: String::from_utf8_lossy(&o.stderr).into() }
}

fn run(chk: &Arc<Check>) {
    values(chk);
    fields(chk);
    sizes(chk);
    refusals(chk);
    crate::findings::run(chk);
}

// ---- what a registry defines ----

/// What an attribute is to be sent as.
#[derive(Clone, Debug)]
enum Want {
    Is(Value),
    Type(&'static str),
    Any,
}

#[derive(Clone)]
struct Attr {
    ty: Value,
    examples: Option<Value>,
    want: Want,
}

/// An example as it is sent.
fn sent(v: &Value) -> Value {
    match v {
        Value::Bool(b) => json!(["boolean", b]),
        Value::Number(n) if n.is_i64() => json!(["int", n]),
        Value::Number(n) => json!(["double", n]),
        Value::String(s) => json!(["string", s]),
        Value::Array(l) => json!(["array", l.iter().map(sent).collect::<Vec<_>>()]),
        _ => json!(["none"]),
    }
}

const TYPES: [&str; 4] = ["string", "int", "double", "boolean"];

/// Two values of each type.
fn two(t: &str) -> [Value; 2] {
    match t {
        "string" => [json!("s1"), json!("s 2, \"é\"")],
        "int" => [json!(-7), json!(i64::MAX)],
        "double" => [json!(1.5), json!(-2.25e100)],
        _ => [json!(false), json!(true)],
    }
}

fn attributes() -> Vec<Attr> {
    let mut all = vec![];
    for t in TYPES {
        let [a, b] = two(t);
        // no example is used for booleans: both of their values are typical
        let is = |v: Value| if t == "boolean" { Want::Type("boolean") } else { Want::Is(sent(&v)) };
        let list = format!("{t}[]");
        let lists: &'static str = match t { "string" => "string[]", "int" => "int[]", "double" => "double[]", _ => "boolean[]" };
        let iss = |v: Value| if t == "boolean" { Want::Type("boolean[]") } else { Want::Is(sent(&v)) };
        all.push((json!(t), None, Want::Type(t)));
        all.push((json!(list), None, Want::Type(lists)));
        all.push((json!(t), Some(a.clone()), is(a.clone())));
        for l in [vec![&a], vec![&b], vec![&a, &b], vec![&b, &a], vec![&a, &a, &b]] {
            all.push((json!(t), Some(json!(l)), is(l[0].clone())));
            all.push((json!("any"), Some(json!(l)), Want::Is(sent(l[0]))));
            all.push((json!(list), Some(json!([l])), iss(json!(l))));
            all.push((json!("any"), Some(json!([l])), Want::Is(sent(&json!(l)))));
            all.push((json!(list), Some(json!([l, [b], []])), iss(json!(l))));
        }
        all.push((json!("any"), Some(a.clone()), Want::Is(sent(&a))));
        // examples of another type
        for o in TYPES.iter().filter(|o| **o != t) {
            let [x, y] = two(o);
            // (numbers of both kinds are doubles)
            if t != "double" || *o != "int" {
                all.push((json!("any"), Some(json!([x, a])), Want::Is(sent(&x))));
            }
            all.push((json!(t), Some(json!([x, y])), Want::Type(t)));
        }
        for s in ["", "[]"] {
            all.push((json!(format!("template[{t}{s}]")), None, Want::Type(if s.is_empty() { t } else { lists })));
            all.push((json!(format!("template[{t}{s}]")), Some(if s.is_empty() { json!([a]) } else { json!([[a]]) }), Want::Type(if s.is_empty() { t } else { lists })));
        }
        for n in 1..3usize {
            if t != "boolean" || n == 1 {
                let m: Vec<Value> = (0..n).map(|i| json!({"id": format!("m{i}"), "value": two(t)[i], "brief": "b", "stability": "stable"})).collect();
                all.push((json!({"members": m}), None, Want::Type(t)));
            }
        }
    }
    all.push((json!("any"), None, Want::Any));
    all.push((json!("template[any]"), None, Want::Any));
    all.into_iter().map(|(ty, examples, want)| Attr { ty, examples, want }).collect()
}

impl Attr {
    fn template(&self) -> bool {
        self.ty.as_str().is_some_and(|t| t.starts_with("template"))
    }
    fn def(&self, key: &str, name: &str) -> Value {
        let mut v = json!({key: name, "type": self.ty, "brief": "b", "stability": "stable"});
        if let Some(e) = &self.examples {
            v["examples"] = e.clone();
        }
        v
    }
}

/// A signal and what it is to be sent as.
#[derive(Clone)]
struct Signal {
    kind: &'static str,
    name: String,
    /// as defined, without id and attributes
    more: Value,
    /// attributes: index, name
    attrs: Vec<(String, Attr)>,
    /// examples stated on the reference
    over: Vec<Option<Attr>>,
}

struct Registry {
    v2: bool,
    attrs: Vec<(String, Attr)>,
    signals: Vec<Signal>,
}

impl Registry {
    fn files(&self) -> Vec<(String, String)> {
        let refs = |s: &Signal| -> Vec<Value> {
            s.attrs
                .iter()
                .enumerate()
                .map(|(i, (n, _))| {
                    let mut v = json!({"ref": n});
                    if let Some(o) = s.over.get(i).and_then(Option::as_ref) {
                        v["examples"] = o.examples.clone().unwrap_or(Value::Null);
                    }
                    v
                })
                .collect()
        };
        let text = if self.v2 {
            let mut f = json!({"file_format": "definition/2", "attributes": self.attrs.iter().map(|(n, a)| a.def("key", n)).collect::<Vec<_>>()});
            for (kind, part) in [("span", "spans"), ("metric", "metrics"), ("event", "events")] {
                let l: Vec<Value> = self
                    .signals
                    .iter()
                    .filter(|s| s.kind == kind)
                    .map(|s| {
                        let mut v = json!({"brief": "b", "stability": "stable", "requirement_level": "recommended", "attributes": refs(s)});
                        match kind {
                            "span" => {
                                v["type"] = json!(s.name);
                                v["name"] = json!({"note": "n"});
                                v["kind"] = json!("internal");
                            }
                            _ => v["name"] = json!(s.name),
                        }
                        if kind == "metric" {
                            v["instrument"] = json!("gauge");
                            v["unit"] = json!("1");
                        }
                        for (k, x) in s.more.as_object().into_iter().flatten() {
                            v[if k == "span_kind" { "kind" } else { k }] = x.clone();
                        }
                        v
                    })
                    .collect();
                if !l.is_empty() {
                    f[part] = json!(l);
                }
            }
            f
        } else {
            let mut groups = vec![];
            if !self.attrs.is_empty() {
                groups.push(json!({"id": "registry.all", "type": "attribute_group", "brief": "b", "stability": "stable", "attributes": self.attrs.iter().map(|(n, a)| a.def("id", n)).collect::<Vec<_>>()}));
            }
            for s in &self.signals {
                let mut v = json!({"id": format!("{}.{}", s.kind, s.name), "type": s.kind, "brief": "b", "stability": "stable", "attributes": refs(s)});
                match s.kind {
                    "span" => v["span_kind"] = json!("internal"),
                    "metric" => {
                        v["metric_name"] = json!(s.name);
                        v["instrument"] = json!("gauge");
                        v["unit"] = json!("1");
                    }
                    _ => v["name"] = json!(s.name),
                }
                for (k, x) in s.more.as_object().into_iter().flatten() {
                    v[k] = x.clone();
                }
                groups.push(v);
            }
            json!({"groups": groups})
        };
        let mut files = vec![("r.yaml".to_owned(), text.to_string())];
        if self.v2 {
            files.push(("manifest.yaml".into(), json!({"schema_url": "https://x.y/reg/1.0.0", "description": "d", "stability": "stable"}).to_string()));
        }
        files
    }

    /// One line per signal that is to be received.
    fn lines(&self, got: &Got, path: &str) -> (String, String) {
        let (mut want, mut have) = (vec![], vec![]);
        // what is only required to be of a type is compared by its type
        let mut known: std::collections::HashMap<(&str, String), &Signal> = Default::default();
        for s in &self.signals {
            let name = if s.kind == "span" && !self.v2 { format!("span.{}", s.name) } else { s.name.clone() };
            let mut a = Map::new();
            for (i, (n, d)) in s.attrs.iter().enumerate() {
                let d = s.over.get(i).and_then(Option::as_ref).unwrap_or(d);
                let key = if d.template() { format!("{n}.*") } else { n.clone() };
                let _ = a.insert(
                    key,
                    match &d.want {
                        Want::Is(v) => v.clone(),
                        Want::Type(t) => json!(t),
                        Want::Any => json!("any"),
                    },
                );
            }
            let get = |k: &str, d: &str| s.more.get(k).and_then(Value::as_str).unwrap_or(d).to_owned();
            want.push(match s.kind {
                "span" => format!("span {name:?} {} {} child", get("span_kind", "internal"), Value::Object(a)),
                "metric" => format!("metric {name:?} {} {:?} {:?} {}", get("instrument", "gauge"), get("unit", "1"), get("brief", "b"), json!([a])),
                _ => format!("event {name:?} {} {name:?} info", Value::Object(a)),
            });
            let _ = known.insert((s.kind, name), s);
        }
        let shown = |kind: &str, name: &str, a: &Value| -> Value {
            let Some(s) = known.get(&(kind, name.to_owned())) else { return a.clone() };
            let mut a = a.as_object().cloned().unwrap_or_default();
            for (i, (n, d)) in s.attrs.iter().enumerate() {
                let d = s.over.get(i).and_then(Option::as_ref).unwrap_or(d);
                let key = if d.template() {
                    let names: Vec<String> = a.keys().filter(|k| k.strip_prefix(n.as_str()).and_then(|r| r.strip_prefix('.')).is_some_and(|r| !r.is_empty())).cloned().collect();
                    let [k] = &names[..] else { continue };
                    let v = a.remove(k).unwrap_or_default();
                    let _ = a.insert(format!("{n}.*"), v);
                    format!("{n}.*")
                } else {
                    n.clone()
                };
                if let Some(v) = a.get_mut(&key) {
                    match d.want {
                        Want::Is(_) => {}
                        Want::Type(_) => *v = json!(type_of(v)),
                        Want::Any => *v = if type_of(v) == "none" { json!("none") } else { json!("any") },
                    }
                }
            }
            Value::Object(a)
        };
        let root = got.spans.iter().find(|s| s["parent"] == "").cloned().unwrap_or_default();
        want.push(format!("root {:?} {}", "otel.weaver.emit", json!({"otel.weaver.registry_path": ["string", path]})));
        for s in &got.spans {
            let name = s["name"].as_str().unwrap_or_default();
            let kind = ["?", "internal", "server", "client", "producer", "consumer"][s["kind"].as_u64().unwrap_or(0) as usize % 6];
            have.push(if s["parent"] == "" {
                format!("root {name:?} {}", s["attributes"])
            } else {
                let whose = if s["parent"] == root["id"] && s["trace"] == root["trace"] { "child" } else { "elsewhere" };
                format!("span {name:?} {kind} {} {whose}{}", shown("span", name, &s["attributes"]), if s["dropped"] == 0 && s["order"] == true { "" } else { " odd" })
            });
        }
        for m in &got.metrics {
            let name = m["name"].as_str().unwrap_or_default();
            let points: Vec<Value> = m["points"].as_array().into_iter().flatten().map(|p| shown("metric", name, &p["attributes"])).collect();
            let get = |k: &str| m[k].as_str().unwrap_or_default();
            have.push(format!("metric {name:?} {} {:?} {:?} {}", get("instrument"), get("unit"), get("description"), json!(points)));
        }
        for l in &got.logs {
            let name = l["event_name"].as_str().unwrap_or_default();
            have.push(format!("event {name:?} {} {:?} {}", shown("event", name, &l["attributes"]), l["body"][1].as_str().unwrap_or_default(), if l["severity"] == 9 && l["dropped"] == 0 { "info" } else { "odd" }));
        }
        want.sort();
        have.sort();
        (want.join("\n"), have.join("\n"))
    }
}

/// The type a value received has.
fn type_of(v: &Value) -> String {
    match v[0].as_str() {
        Some("array") => {
            let mut k: Vec<String> = v[1].as_array().into_iter().flatten().map(type_of).collect();
            k.dedup();
            match &k[..] {
                [t] => format!("{t}[]"),
                k => format!("{k:?}"),
            }
        }
        Some(t) => t.to_owned(),
        None => "none".into(),
    }
}

/// Writes the registry, emits it, and compares what is received.
fn emit(chk: &Check, name: &str, r: &Registry, how: Value) {
    let d = chk.fresh(name);
    write_files(&d.join("reg"), &r.files());
    let sink = Sink::start([None; 3]);
    let url = sink.url();
    let mut args = vec!["registry", "emit", "-r", "reg", "--skip-policies", "--endpoint", &url];
    if r.v2 {
        args.push("--v2");
    }
    let out = command(&d, &args, &[]);
    let got = sink.got();
    for s in &r.signals {
        chk.eval(&(s.kind, &s.name, s.more.to_string(), format!("{:?}", s.attrs.iter().map(|a| (a.1.ty.to_string(), format!("{:?}", a.1.examples))).collect::<Vec<_>>()), r.v2), true);
    }
    chk.add_states(1);
    chk.add_transitions(r.signals.len() as u64);
    chk.outcome(if r.v2 { "v2 emitted" } else { "v1 emitted" });
    if out.code != 0 {
        chk.violation(name, &format!("emit: exit {}", out.code), how, "exit 0", &format!("{}\n{}", out.stdout.chars().take(2000).collect::<String>(), out.stderr.chars().take(2000).collect::<String>()));
        return;
    }
    let (want, have) = r.lines(&got, "reg");
    if want != have {
        let (w, h): (Vec<&str>, Vec<&str>) = (want.lines().collect(), have.lines().collect());
        let ws: std::collections::HashSet<&&str> = w.iter().collect();
        let hs: std::collections::HashSet<&&str> = h.iter().collect();
        let missing: Vec<&&str> = w.iter().filter(|x| !hs.contains(x)).take(3).collect();
        let extra: Vec<&&str> = h.iter().filter(|x| !ws.contains(x)).take(3).collect();
        let sum = |l: usize, x: &[&&str]| format!("{l} signals\n{}", x.iter().map(|s| s.chars().take(700).collect::<String>()).collect::<Vec<_>>().join("\n"));
        chk.violation(name, &format!("emit {how}"), how.clone(), &sum(w.len(), &missing), &sum(h.len(), &extra));
    }
    let _ = std::fs::remove_dir_all(&d);
}

// ---- parts ----

fn signal(kind: &'static str, name: &str, attrs: Vec<(String, Attr)>) -> Signal {
    Signal { kind, name: name.into(), more: json!({}), attrs, over: vec![] }
}

const KINDS: [&str; 3] = ["span", "metric", "event"];

fn values(chk: &Arc<Check>) {
    let all: Vec<(String, Attr)> = attributes().into_iter().enumerate().map(|(i, a)| (format!("v.a{i}"), a)).collect();
    // each attribute on its own on each kind; the odd ones have the next fitting example on the reference
    let cases = product(&[2, 3, 2]);
    let fits = |a: &Attr| {
        let t = a.ty.as_str().unwrap_or_default();
        let kind = |v: &Value| sent(v)[0].as_str().unwrap_or_default().to_owned();
        !TYPES.contains(&t) || a.examples.as_ref().is_none_or(|e| e.as_array().is_none_or(|l| l.iter().all(|v| kind(v) == t)))
    };
    // examples of another type are an error in a v1 registry
    let all = [all.iter().filter(|a| fits(&a.1)).cloned().collect::<Vec<_>>(), all];
    chk.par(cases, |x| format!("V-{}{}{}", x[0], x[1], x[2]), move |chk, name, x| {
        let v2 = x[0] == 1;
        let all = &all[x[0]];
        let kind = KINDS[x[1]];
        let mut signals: Vec<Signal> = all
            .iter()
            .enumerate()
            .map(|(i, a)| {
                let mut s = signal(kind, &format!("t{i}"), vec![a.clone()]);
                if x[2] == 1 && a.1.examples.is_some() {
                    // the examples of another attribute of that type
                    s.over = vec![all.iter().cycle().skip(i + 1).take(all.len()).find(|b| b.1.ty == a.1.ty && b.1.examples.is_some()).map(|b| b.1.clone())];
                }
                s
            })
            .collect();
        // many at once
        for (i, chunk) in all.chunks(10).enumerate() {
            signals.push(signal(kind, &format!("all{i}"), chunk.to_vec()));
        }
        emit(chk, &name, &Registry { v2, attrs: all.to_vec(), signals }, json!({"v2": v2, "kind": kind, "examples on reference": x[2] == 1}));
    });
}

fn fields(chk: &Arc<Check>) {
    let some: Vec<(String, Attr)> = attributes().into_iter().take(4).enumerate().map(|(i, a)| (format!("v.a{i}"), a)).collect();
    let briefs = ["b", "Two\nlines, \"quoted\" and é.", " spaced "];
    let units = ["1", "s", "{request}", "By/s", "Cel"];
    let deprecated = [None, Some(json!({"reason": "obsoleted", "note": "n"})), Some(json!({"reason": "uncategorized", "note": "n"}))];
    for v2 in [false, true] {
        let mut signals = vec![];
        for x in product(&[5, 3, 3, 3]) {
            let mut more = json!({"brief": briefs[x[1]], "stability": (["stable", "development", "release_candidate"][x[2]])});
            if let Some(d) = &deprecated[x[3]] {
                more["deprecated"] = d.clone();
            }
            let n = (x[0] + x[1] + x[2] + x[3]) % 5;
            let attrs = some[..n].to_vec();
            for kind in KINDS {
                let mut more = more.clone();
                if kind == "span" {
                    more["span_kind"] = json!(["internal", "server", "client", "producer", "consumer"][x[0]]);
                }
                for i in 0..if kind == "metric" { 4 } else { 1 } {
                    if kind == "metric" {
                        more["instrument"] = json!(["counter", "updowncounter", "gauge", "histogram"][i]);
                        more["unit"] = json!(units[x[0]]);
                    }
                    signals.push(Signal { more: more.clone(), ..signal(kind, &format!("f{}{}{}{}.i{i}", x[0], x[1], x[2], x[3]), attrs.clone()) });
                }
            }
        }
        let some = some.clone();
        let parts: Vec<(usize, Vec<Signal>)> = signals.chunks(200).map(<[Signal]>::to_vec).enumerate().collect();
        chk.par(parts.into_iter(), move |(i, _)| format!("F-{}{i}", v2 as u8), move |chk, name, (_, signals)| {
            emit(chk, &name, &Registry { v2, attrs: some.clone(), signals }, json!({"v2": v2}));
        });
    }
}

fn sizes(chk: &Arc<Check>) {
    let a = Attr { ty: json!("string"), examples: Some(json!(["e"])), want: Want::Is(json!(["string", "e"])) };
    // attributes per signal
    let many: &[usize] = &[0, 1, 127, 128, 129, 130, 300];
    let b = a.clone();
    chk.par(product(&[2, many.len()]), |x| format!("N1-{}{}", x[0], x[1]), move |chk, name, x| {
        let attrs: Vec<(String, Attr)> = (0..many[x[1]]).map(|i| (format!("n.a{i}"), b.clone())).collect();
        let signals = KINDS.iter().map(|k| signal(k, "many", attrs.clone())).collect();
        emit(chk, &name, &Registry { v2: x[0] == 1, attrs, signals }, json!({"attributes": many[x[1]]}));
    });
    // signals
    let many: &[usize] = if chk.thorough() { &[0, 1, 2, 511, 512, 513, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 2050, 4096, 10000] } else { &[0, 1, 512, 513, 2047, 2048, 2049, 5000] };
    chk.par(product(&[2, many.len(), 3]), |x| format!("N2-{}{}-{}", x[0], x[2], many[x[1]]), move |chk, name, x| {
        let attrs = vec![("n.a".to_owned(), a.clone())];
        let signals = (0..many[x[1]]).map(|i| signal(KINDS[x[2]], &format!("s{i}"), attrs.clone())).collect();
        emit(chk, &name, &Registry { v2: x[0] == 1, attrs, signals }, json!({KINDS[x[2]]: many[x[1]]}));
    });
}

fn small(dir: &Path) {
    let attrs: Vec<(String, Attr)> = attributes().into_iter().take(2).enumerate().map(|(i, a)| (format!("v.a{i}"), a)).collect();
    let r = Registry { v2: false, signals: KINDS.iter().map(|k| signal(k, "one", attrs.clone())).collect(), attrs };
    write_files(&dir.join("reg"), &r.files());
}

/// Whoever cannot be reached, or refuses, makes the command fail.
fn refusals(chk: &Arc<Check>) {
    let codes = [Code::Unavailable, Code::InvalidArgument, Code::Unimplemented, Code::PermissionDenied, Code::Internal];
    chk.par(product(&[8, codes.len()]).filter(|x| x[0] > 0 || x[1] == 0), |x| format!("R1-{}{}", x[0], x[1]), move |chk, name, x| {
        let d = chk.fresh(&name);
        small(&d);
        let refuse = [0, 1, 2].map(|i| (x[0] >> i & 1 == 1).then_some(codes[x[1]]));
        let sink = Sink::start(refuse);
        let url = sink.url();
        let out = command(&d, &["registry", "emit", "-r", "reg", "--skip-policies", "--endpoint", &url], &[]);
        chk.eval(&x, true);
        chk.outcome(if x[0] == 0 { "accepted" } else { "refused" });
        let how = || json!({"refused": refuse.map(|r| r.map(|c| c.to_string()))});
        let said = format!("{} {}", out.code != 0, out.stdout.contains("Emitted registry"));
        if !chk.expect_eq(&name, how, &format!("{} {}", x[0] != 0, x[0] == 0), &said) {
            chk.note(&format!("said {name}"), json!(out.stderr.chars().take(600).collect::<String>()));
        }
        let _ = std::fs::remove_dir_all(&d);
    });
    // nobody there; and who is asked
    chk.par(0..6usize, |i| format!("R2-{i}"), move |chk, name, i| {
        let d = chk.fresh(&name);
        small(&d);
        let sinks = [Sink::start([None; 3]), Sink::start([None; 3])];
        let free = std::net::TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()).map(|a| a.port()).expect("port");
        let nobody = format!("http://127.0.0.1:{free}");
        let (a, b) = (sinks[0].url(), sinks[1].url());
        let file = |s: &str| std::fs::write(d.join(".weaver.toml"), s).expect("write");
        let base = ["registry", "emit", "-r", "reg", "--skip-policies"];
        let with = |more: &[&str], env: &[(&str, &str)]| command(&d, &[base.as_slice(), more].concat(), env);
        // (exit, first receiver, second receiver)
        let (out, want) = match i {
            0 => (with(&["--endpoint", &nobody], &[]), (false, 0, 0)),
            1 => (with(&["--endpoint", &a], &[]), (true, 5, 0)),
            2 => {
                file(&format!("[emit]\nendpoint = {b:?}\n"));
                (with(&[], &[]), (true, 0, 5))
            }
            3 => {
                file(&format!("[emit]\nendpoint = {b:?}\n"));
                (with(&["--endpoint", &a], &[]), (true, 5, 0))
            }
            4 => (with(&["--stdout", "--endpoint", &a], &[]), (true, 0, 0)),
            // as its help says
            _ => (with(&["--endpoint", &a], &[("OTEL_EXPORTER_OTLP_ENDPOINT", b.as_str())]), (true, 0, 5)),
        };
        let n = |s: &Sink| {
            let g = s.got();
            g.spans.len() + g.metrics.len() + g.logs.len()
        };
        chk.eval(&i, true);
        chk.outcome(if want.0 { "accepted" } else { "nobody there" });
        // the root span is the fourth signal
        let want = (want.0, want.1.min(4), want.2.min(4));
        let _ = chk.expect_eq(&name, || json!({"case": i}), &format!("{want:?}"), &format!("{:?}", (out.code == 0, n(&sinks[0]), n(&sinks[1]))));
        let _ = std::fs::remove_dir_all(&d);
    });
}

#[allow(dead_code)]
pub fn place(chk: &Check, name: &str) -> PathBuf {
    chk.fresh(name)
}
