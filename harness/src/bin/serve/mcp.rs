//! The tools of `weaver registry mcp`, over stdio.
use crate::search::*;
use harness::reg::weaver;
use harness::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{Receiver, RecvTimeoutError};
use std::sync::Arc;
use std::time::Duration;

pub struct Mcp {
    child: Child,
    input: Option<ChildStdin>,
    output: Receiver<String>,
    next: u64,
}

impl Drop for Mcp {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Mcp {
    pub fn start(home: &Path, args: &[&str]) -> Result<Self, String> {
        let log = std::fs::OpenOptions::new().create(true).append(true).open(home.join("mcp-log")).expect("create");
        let mut child = Command::new(std::env::var("WEAVER_BIN").expect("WEAVER_BIN"))
            .args(["registry", "mcp"])
            .args(args)
            .env("HOME", home)
            .env("NO_COLOR", "1")
            .current_dir(home)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(log)
            .spawn()
            .expect("run weaver");
        let out = child.stdout.take().expect("stdout");
        let (tx, output) = std::sync::mpsc::channel();
        let _ = std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    return;
                }
            }
        });
        let input = child.stdin.take();
        let mut me = Self { child, input, output, next: 0 };
        let hello = json!({"jsonrpc": "2.0", "id": 0, "method": "initialize", "params": {"protocolVersion": "2025-03-26", "capabilities": {}, "clientInfo": {"name": "c", "version": "1"}}});
        me.write(&[hello])?;
        let a = me.read()?;
        if a["id"] != 0 || a["result"]["serverInfo"].is_null() || a["result"]["capabilities"]["tools"].is_null() {
            return Err(format!("no greeting: {a}"));
        }
        me.write(&[json!({"jsonrpc": "2.0", "method": "notifications/initialized"})])?;
        Ok(me)
    }
    fn write(&mut self, messages: &[Value]) -> Result<(), String> {
        let all: String = messages.iter().map(|m| format!("{m}\n")).collect();
        let i = self.input.as_mut().ok_or("closed")?;
        i.write_all(all.as_bytes()).and_then(|()| i.flush()).map_err(|e| e.to_string())
    }
    fn read(&mut self) -> Result<Value, String> {
        match self.output.recv_timeout(Duration::from_secs(60)) {
            Ok(l) => serde_json::from_str(&l).map_err(|e| format!("{e}: {l}")),
            Err(RecvTimeoutError::Timeout) => Err("no answer".into()),
            Err(RecvTimeoutError::Disconnected) => Err("ended".into()),
        }
    }
    /// Sends all, then waits for an answer to each.
    pub fn requests(&mut self, l: &[(&str, Value)]) -> Result<Vec<Value>, String> {
        let first = self.next + 1;
        let mut messages = vec![];
        for (method, params) in l {
            self.next += 1;
            messages.push(json!({"jsonrpc": "2.0", "id": self.next, "method": method, "params": params}));
        }
        self.write(&messages)?;
        let mut got: HashMap<u64, Value> = HashMap::new();
        while got.len() < l.len() {
            let mut a = self.read()?;
            let id = a["id"].as_u64().unwrap_or(u64::MAX);
            if id < first || id > self.next || got.contains_key(&id) {
                return Err(format!("not asked: {a}"));
            }
            let _ = a.as_object_mut().map(|o| o.remove("id"));
            let _ = got.insert(id, a);
        }
        Ok((first..=self.next).map(|i| got.remove(&i).unwrap_or_default()).collect())
    }
    pub fn call(&mut self, tool: &str, arguments: &Value) -> Result<Value, String> {
        self.requests(&[("tools/call", json!({"name": tool, "arguments": arguments}))]).map(|mut l| l.remove(0))
    }
    /// The text of an answer; why there is none.
    pub fn text(&mut self, tool: &str, arguments: &Value) -> Result<String, String> {
        said_by(&self.call(tool, arguments)?)
    }
    /// Ends with the input.
    fn end(mut self) -> Option<i32> {
        self.input = None;
        for _ in 0..600 {
            if let Ok(Some(s)) = self.child.try_wait() {
                return s.code();
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        None
    }
}

fn said_by(a: &Value) -> Result<String, String> {
    if a["result"]["isError"] == true || a["result"].is_null() {
        return Err(format!("refused: {a}"));
    }
    match a["result"]["content"].as_array().map(Vec::as_slice) {
        Some([c]) if c["type"] == "text" => Ok(c["text"].as_str().unwrap_or_default().to_owned()),
        _ => Err(format!("no text: {a}")),
    }
}

fn parsed(t: Result<String, String>) -> Value {
    match t {
        Ok(t) => serde_json::from_str(&t).unwrap_or(json!(t)),
        Err(e) => json!(e),
    }
}

pub fn run(chk: &Arc<Check>) {
    tools(chk);
    live_check(chk);
}

// ---------------------------------------------------------------- the registry

const TOOLS: [&str; 5] = ["get_attribute", "get_metric", "get_span", "get_event", "get_entity"];
const ARGUMENT: [&str; 5] = ["key", "name", "type", "name", "type"];
const TITLE: [&str; 5] = ["Attribute", "Metric", "Span", "Event", "Entity"];

fn tools(chk: &Arc<Check>) {
    let home = chk.fresh("mcp");
    let dir = home.join("reg");
    let mut items = states();
    for i in 0..110 {
        items.push(item(0, &format!("many.k{i}")));
    }
    for (i, k) in ["a", "a.b", "a.b.c", "ab.c", "a_b", "a/b.c", "a::b::c", "é.ü", "\"q\" 'r'"].iter().enumerate() {
        items.push(Item { stability: i % 5, ..item(0, k) });
    }
    let items = Arc::new(registry(&dir, &items));
    let reg = match forge(&dir) {
        Ok(r) => r,
        Err(e) => return chk.violation("M", "M", json!({}), "a registry", &e),
    };
    let context = Arc::new(serde_json::to_value(&reg).expect("json"));
    let at = dir.to_str().expect("utf8").to_owned();
    let summary = Arc::new(summaries(&items));
    // One server for each separator.
    chk.par([None, Some("."), Some("/"), Some("::"), Some("_")].into_iter(), |s| format!("M-{s:?}"), |chk, name, s| {
        let mut args = vec!["-r", &at];
        args.extend(s.iter().flat_map(|s| ["--namespace-separator", *s]));
        let separator = s.unwrap_or(".");
        let mut m = match Mcp::start(&chk.fresh("m"), &args) {
            Ok(m) => m,
            Err(e) => return chk.violation(name, name, json!(s), "a server", &e),
        };
        let listed = m.requests(&[("tools/list", json!({}))]).map(|l| l[0]["result"]["tools"].clone()).unwrap_or_default();
        let mut names: Vec<&str> = listed.as_array().map(|l| l.iter().filter_map(|t| t["name"].as_str()).collect()).unwrap_or_default();
        names.sort_unstable();
        if !chk.expect_eq(name, || json!("tools/list"), "browse_namespace get_attribute get_entity get_event get_metric get_span live_check search", &names.join(" ")) {
            return;
        }
        // Searches.
        for r in requests() {
            if r.stability.is_some_and(|s| s > 1) || r.hide {
                continue;
            }
            for (limit, most) in [(None, 20), (Some(0), 0), (Some(1), 1), (Some(7), 7), (Some(100), 100), (Some(1000), 100)] {
                let want = found(&items, &r, separator);
                let mut q = json!({});
                for (k, v) in [("query", r.query.clone().map(Value::from)), ("type", r.kind.map(|k| json!(KINDS[k]))), ("stability", r.stability.map(|s| json!(if s == 0 { "stable" } else if limit.is_none() { "experimental" } else { "development" }))), ("limit", limit.map(Value::from))] {
                    if let Some(v) = v {
                        q[k] = v;
                    }
                }
                let got = parsed(m.text("search", &q));
                let results = got["results"].as_array().cloned().unwrap_or_default();
                let (l, ordered) = said(&results);
                chk.eval(&(name, q.to_string()), !want.is_empty() && want.len() < items.len());
                chk.outcome("searched over MCP");
                chk.add_transitions(1);
                let n = want.len().min(most);
                // the best, all of them items found
                let best: Vec<u32> = want.iter().take(n).map(|w| w.0).collect();
                let mut scores: Vec<u32> = l.iter().map(|w| w.0).collect();
                scores.sort_by(|a, b| b.cmp(a));
                let all = l.iter().all(|x| want.contains(x)) && l.windows(2).all(|w| w[0] != w[1]);
                if !chk.expect_eq(name, || q.clone(), &format!("{n} of {} {best:?} in order: true, items found: true", want.len()), &format!("{} of {} {scores:?} in order: {ordered}, items found: {all}", got["count"], got["total"])) {
                    return;
                }
                for v in &results {
                    let (_, k, id) = said(std::slice::from_ref(v)).0.remove(0);
                    let x = whole(&context, k, &id).cloned().unwrap_or_default();
                    if !chk.expect_eq(name, || json!([q, id]), &x.to_string(), &stripped(v).to_string()) {
                        return;
                    }
                }
            }
        }
        for q in [json!({"type": "bogus"}), json!({"type": "Metric"}), json!({"stability": "beta"}), json!({"stability": "no"}), json!({"limit": -1}), json!({"limit": "x"}), json!({"query": 3})] {
            let got = m.call("search", &q);
            chk.eval(&(name, "refused", q.to_string()), true);
            chk.outcome("wrong argument");
            let refused = got.as_ref().is_ok_and(|a| !a["error"].is_null() || a["result"]["isError"] == true);
            if !chk.expect_eq(name, || q.clone(), "refused: true", &format!("refused: {refused}")) {
                return;
            }
        }
        // Lookups.
        for (k, n, want) in lookups(&items, &context) {
            let got = parsed(m.text(TOOLS[k], &object(&[(ARGUMENT[k], json!(n))])));
            let want = want.unwrap_or_else(|| json!(format!("{} '{n}' not found in registry", TITLE[k])));
            chk.eval(&(name, k, &n), want.is_object());
            chk.outcome(if want.is_object() { "looked up over MCP" } else { "not there over MCP" });
            if !chk.expect_eq(name, || json!([TOOLS[k], n]), &want.to_string(), &got.to_string()) {
                return;
            }
        }
        // Namespaces.
        let keys: Vec<&str> = summary.iter().map(|k| k.0.as_str()).filter(|k| !k.starts_with("many.k1")).collect();
        for p in prefixes(&keys, separator) {
            let want = browsed(&summary, &p, separator);
            let got = parsed(m.text("browse_namespace", &json!({"prefix": p})));
            chk.eval(&(name, "browse", &p), want["total_attribute_count"] != 0);
            chk.outcome("browsed over MCP");
            if !chk.expect_eq(name, || json!(["browse_namespace", p, separator]), &want.to_string(), &got.to_string()) {
                return;
            }
        }
        for a in [json!({}), json!({"prefix": null})] {
            if !chk.expect_eq(name, || a.clone(), &browsed(&summary, "", separator).to_string(), &parsed(m.text("browse_namespace", &a)).to_string()) {
                return;
            }
        }
        // In one go, in every order.
        if s.is_none() {
            let calls = [
                ("search", json!({"query": "s0"})), ("search", json!({"query": "S1", "type": "metric", "limit": 2})), ("search", json!({"type": "bogus"})), ("get_attribute", json!({"key": "a.b"})), ("get_attribute", json!({"key": "tt.all"})), ("get_metric", json!({"name": "no"})), ("get_span", json!({"type": "same"})),
                ("get_event", json!({"name": "ev3.s0"})), ("get_entity", json!({"type": "same"})), ("browse_namespace", json!({"prefix": "a"})), ("browse_namespace", json!({})), ("no_such_tool", json!({})), ("live_check", json!({"samples": [{"attribute": {"name": "a.b", "value": 3}}]})),
                ("live_check", json!({"samples": [{"attribute": {"name": "at0.s1d", "value": "x"}}], "output": "findings_only"})),
            ];
            let alone: Vec<String> = calls.iter().map(|(t, a)| m.call(t, a).map_or_else(|e| e, |a| a.to_string())).collect();
            let depth = if chk.thorough() { 3 } else { 2 };
            for x in product(&vec![calls.len(); depth]) {
                let l: Vec<(&str, Value)> = x.iter().map(|i| ("tools/call", json!({"name": calls[*i].0, "arguments": calls[*i].1}))).collect();
                let want: Vec<&String> = x.iter().map(|i| &alone[*i]).collect();
                let got = m.requests(&l).map(|l| l.iter().map(Value::to_string).collect::<Vec<_>>()).unwrap_or_else(|e| vec![e]);
                chk.eval(&("pipelined", &x), true);
                chk.outcome("tools called together");
                chk.add_traces(1);
                if !chk.expect_eq(name, || json!(x.iter().map(|i| &calls[*i]).collect::<Vec<_>>()), &format!("{want:?}"), &format!("{got:?}")) {
                    return;
                }
            }
        }
        let code = m.end();
        let _ = chk.expect_eq(name, || json!("end of input"), "Some(0)", &format!("{code:?}"));
    });
}

// ---------------------------------------------------------------- live check

fn samples() -> Vec<Value> {
    let good = json!({"name": "a.good", "value": "x"});
    let bad = json!({"name": "a.good", "value": 3});
    let old = json!({"name": "a.old", "value": "x"});
    let none = json!({"name": "no.such", "value": 1.5});
    let en = json!({"name": "a.enum", "value": "z"});
    let point = |a: &[&Value], e: Value| json!({"attributes": a, "value": 3, "exemplars": e});
    let ex = |a: &[&Value]| json!({"filtered_attributes": a, "value": 1, "timestamp": "t", "span_id": "s", "trace_id": "t"});
    let hist = |a: &[&Value], e: Value| json!({"attributes": a, "count": 1, "sum": 1.0, "bucket_counts": [1], "explicit_bounds": [], "min": 1.0, "max": 1.0, "flags": 0, "exemplars": e});
    vec![
        json!({"attribute": good}),
        json!({"attribute": old}),
        json!({"attribute": {"name": "No.Such"}}),
        json!({"span": {"name": "s", "kind": "client", "attributes": [good], "span_events": [{"name": "e", "attributes": [old, none]}, {"name": "e2", "attributes": []}], "span_links": [{"attributes": [bad]}]}}),
        json!({"span": {"name": "s", "kind": "client", "status": {"code": "error", "message": "m"}, "attributes": [en, bad], "span_events": [], "span_links": []}}),
        json!({"metric": {"name": "m.good", "instrument": "counter", "unit": "1", "data_points": [point(&[&good], json!([])), point(&[&old], json!([ex(&[&none]), ex(&[])]))]}}),
        json!({"metric": {"name": "m.hist", "instrument": "histogram", "unit": "s", "data_points": [hist(&[&good, &en], json!([ex(&[&bad])]))]}}),
        json!({"metric": {"name": "m.none", "instrument": "gauge", "unit": "x", "data_points": []}}),
        json!({"resource": {"attributes": [good, none]}}),
        json!({"log": {"event_name": "ev.good", "body": "b", "severity_number": 9, "severity_text": "INFO", "attributes": [good, old], "trace_id": "t", "span_id": "s"}}),
        json!({"log": {"event_name": "", "attributes": []}}),
        json!({"instrumentation_scope": {"name": "sc", "version": "1", "schema_url": "", "attributes": [bad]}}),
    ]
}

/// Every finding: what it is on is not told, but all of it is.
fn findings(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                if k == "all_advice" {
                    for f in x.as_array().into_iter().flatten() {
                        out.push(json!([f["id"], f["level"], f["message"]]).to_string());
                    }
                } else {
                    findings(x, out);
                }
            }
        }
        Value::Array(l) => l.iter().for_each(|x| findings(x, out)),
        _ => (),
    }
}

fn compact(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Object(o) if o.contains_key("id") && o.contains_key("level") => out.push(json!([v["id"], v["level"], v["message"]]).to_string()),
        Value::Object(o) => o.values().for_each(|x| compact(x, out)),
        Value::Array(l) => l.iter().for_each(|x| compact(x, out)),
        _ => (),
    }
}

fn live_check(chk: &Arc<Check>) {
    let home = chk.fresh("check");
    harness::reg::write_files(&home, &[
        ("reg/manifest.yaml".into(), json!({"schema_url": "https://x.y/reg/1.0.0", "description": "d"}).to_string()),
        (
            "reg/a.yaml".into(),
            json!({"file_format": "definition/2", "attributes": [
                {"key": "a.good", "type": "string", "brief": "b", "stability": "stable", "examples": ["x"]},
                {"key": "a.old", "type": "string", "brief": "b", "stability": "development", "deprecated": {"reason": "renamed", "renamed_to": "a.good", "note": "n"}, "examples": ["x"]},
                {"key": "a.enum", "type": {"members": [{"id": "x", "value": "x", "brief": "b", "stability": "stable"}]}, "brief": "b", "stability": "stable"}],
              "metrics": [{"name": "m.good", "instrument": "counter", "unit": "1", "brief": "b", "stability": "stable", "attributes": [{"ref": "a.good", "requirement_level": "required"}]},
                {"name": "m.hist", "instrument": "histogram", "unit": "ms", "brief": "b", "stability": "alpha", "attributes": [{"ref": "a.enum", "requirement_level": "required"}]}],
              "events": [{"name": "ev.good", "brief": "b", "stability": "stable", "deprecated": {"reason": "obsoleted", "note": "gone"}, "attributes": [{"ref": "a.enum", "requirement_level": "required"}]}]})
            .to_string(),
        ),
        // The policy uses what the preprocessor and the data give.
        (
            "policies/p.rego".into(),
            "package live_check_advice\nimport rego.v1\ndeny contains {\"id\": \"mine\", \"context\": {\"n\": data.more.n}, \"message\": sprintf(\"%s %v %v\", [input.sample.attribute.name, data.count, data.more.n]), \"level\": \"violation\", \"signal_type\": input.signal_type, \"signal_name\": input.signal_name} if { input.sample.attribute.name }\n".into(),
        ),
        ("pre.jq".into(), "{count: (.registry.attributes | length)}".into()),
        ("data/more.json".into(), json!({"n": 7}).to_string()),
    ]);
    let home: Arc<PathBuf> = Arc::new(home);
    let all = Arc::new(samples());
    let n = all.len();
    let configured: [(&str, Vec<&str>); 3] = [("default", vec![]), ("policies", vec!["--advice-policies", "policies"]), ("all", vec!["--advice-policies", "policies", "--advice-preprocessor", "pre.jq", "--advice-data", "data/*.json"])];
    // By the command.
    let command = |samples: &[&Value], args: &[&str], file: &str| -> Result<Vec<Value>, String> {
        std::fs::write(home.join(file), json!(samples).to_string()).map_err(|e| e.to_string())?;
        let mut a = vec!["registry", "live-check", "-r", "reg", "--v2", "--input-source", file, "--input-format", "json", "--format", "json", "--no-stream"];
        a.extend(args);
        let (_, out, err) = weaver(&a, &home);
        let v: Value = serde_json::from_str(&out).map_err(|e| format!("{e}: {out} {err}"))?;
        v["samples"].as_array().cloned().ok_or_else(|| format!("no samples: {v}"))
    };
    chk.par(product(&[configured.len(), n + 1]), |x| format!("M-check-{}-{}", configured[x[0]].0, x[1]), |chk, name, x| {
        let args = &configured[x[0]].1;
        let mut a = vec!["-r", "reg"];
        a.extend(args);
        let mut m = match Mcp::start(&home, &a) {
            Ok(m) => m,
            Err(e) => return chk.violation(name, name, json!(a), "a server", &e),
        };
        let lists: Vec<Vec<usize>> = match x[1].checked_sub(1) {
            None => vec![vec![]],
            Some(i) => {
                let more: Vec<Vec<usize>> = (0..n).map(|j| vec![i, j]).chain((0..if chk.thorough() { n * n } else { 0 }).map(|j| vec![i, j / n, j % n])).collect();
                std::iter::once(vec![i]).chain(more).collect()
            }
        };
        let file = |i: usize| format!("{name}-{i}.json");
        for (i, l) in lists.iter().enumerate() {
            let samples: Vec<&Value> = l.iter().map(|i| &all[*i]).collect();
            // The command once for each sample, and for some lists.
            let want = if l.len() == 1 || l.len() == 2 && l[1] == (l[0] + 1) % n {
                command(&samples, args, &file(i))
            } else {
                l.iter().map(|i| m.text("live_check", &json!({"samples": [all[*i]]}))).collect::<Result<Vec<_>, _>>().map(|r| r.iter().flat_map(|t| serde_json::from_str::<Vec<Value>>(t).unwrap_or_default()).collect())
            };
            let full = m.text("live_check", &if i % 2 == 0 { json!({"samples": samples}) } else { json!({"samples": samples, "output": "full"}) });
            chk.eval(&(name, l), true);
            chk.outcome("checked over MCP");
            chk.add_transitions(2);
            let full = parsed(full);
            if !chk.expect_eq(name, || json!({"samples": samples, "args": args}), &want.map_or_else(|e| e, |w| json!(w).to_string()), &full.to_string()) {
                return;
            }
            let short = parsed(m.text("live_check", &json!({"samples": samples, "output": "findings_only"})));
            let (mut want, mut got) = (vec![], vec![]);
            let with = full.as_array().map_or(0, |l| l.iter().filter(|s| { let mut f = vec![]; findings(s, &mut f); !f.is_empty() }).count());
            findings(&full, &mut want);
            compact(&short["findings"], &mut got);
            want.sort();
            got.sort();
            chk.outcome(if want.is_empty() { "no finding over MCP" } else { "findings over MCP" });
            if !chk.expect_eq(name, || json!({"samples": samples, "args": args}), &format!("{} samples, {with} with findings: {want:?}", l.len()), &format!("{} samples, {} with findings: {got:?}", short["total_samples_checked"], short["samples_with_findings"])) {
                return;
            }
        }
        if x[1] == 0 {
            for bad in [json!({}), json!({"samples": [{}]}), json!({"samples": [{"bogus": {}}]}), json!({"samples": {}}), json!({"samples": [], "output": "no"}), json!({"samples": [{"attribute": {}}]})] {
                let got = m.call("live_check", &bad);
                let refused = got.as_ref().is_ok_and(|a| !a["error"].is_null() || a["result"]["isError"] == true);
                chk.eval(&(name, bad.to_string()), true);
                chk.outcome("wrong argument");
                let _ = chk.expect_eq(name, || bad.clone(), "refused: true", &format!("refused: {refused} {}", got.err().unwrap_or_default()).trim_end());
            }
        }
    });
}
