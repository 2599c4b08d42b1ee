//! C23: the registry inferred from telemetry describes that telemetry.
use crate::model;
use crate::session::Session;
use crate::wire::*;
use harness::reg::*;
use harness::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::Arc;
use weaver_common::result::WResult;
use weaver_forge::v2::registry::ForgeResolvedRegistry;
use weaver_infer::AccumulatedSamples;
use weaver_live_check::VersionedRegistry;
use weaver_semconv::semconv::Versioned;

pub const SPEC: Spec = Spec {
    id: "C23",
    level: "model_checking",
    rule: "Exhaustive: (H) every sequence of up to 3 (thorough 4) of 30 samples of every kind, with attributes, signals and events shared between them, some in conflict; (E) one attribute observed up to 7 times, \
           every pattern of equal and different values x where each is observed (quick: resource or span, 7 observations for strings and 6 for the other types; thorough: also metric, log and span event, 6 for each type); (C) every ordered pair of 16 OTLP messages sent to the real command. \
           Oracle: reference model of what was observed: exactly the attributes, spans, metrics and events, each with the attributes seen on it, the type of each attribute, min(5, n) of its n values as examples; two accumulations of the same samples are the same file; \
           without conflicts the file resolves and a live check of the same telemetry against it finds nothing but `not_stable` and absent recommended attributes. Non-trivial: something to infer.",
    assumptions: &["of conflicting statements (type of an attribute, kind, instrument, unit) any observed one may be kept"],
    run,
};

// ---- the model: what was observed ----

#[derive(Default)]
struct Seen {
    /// per attribute: the types, and the values in order
    attrs: BTreeMap<String, Vec<(Value, Value)>>,
    spans: BTreeMap<String, (BTreeSet<String>, BTreeSet<String>)>,
    metrics: BTreeMap<String, (BTreeSet<(String, String)>, BTreeSet<String>)>,
    events: BTreeMap<String, BTreeSet<String>>,
}

fn text(v: &Value) -> String {
    v.as_str().unwrap_or_default().to_owned()
}

impl Seen {
    fn attr(&mut self, l: &Value) -> BTreeSet<String> {
        let mut names = BTreeSet::new();
        for a in l.as_array().into_iter().flatten() {
            let n = text(&a["name"]);
            self.attrs.entry(n.clone()).or_default().push((a["type"].clone(), a["value"].clone()));
            let _ = names.insert(n);
        }
        names
    }
    fn add(&mut self, s: &Value) {
        if let Some(r) = s.get("resource") {
            let _ = self.attr(&r["attributes"]);
        } else if let Some(a) = s.get("attribute") {
            let _ = self.attr(&json!([a]));
        } else if let Some(x) = s.get("span") {
            let names = self.attr(&x["attributes"]);
            let e = self.spans.entry(text(&x["name"])).or_default();
            let _ = e.0.insert(text(&x["kind"]));
            e.1.extend(names);
            for ev in x["span_events"].as_array().into_iter().flatten() {
                let names = self.attr(&ev["attributes"]);
                self.events.entry(text(&ev["name"])).or_default().extend(names);
            }
        } else if let Some(m) = s.get("metric") {
            let i = text(&m["instrument"]);
            if i == "Summary" || i == "Unspecified" {
                return;
            }
            let mut names = BTreeSet::new();
            for p in m["data_points"].as_array().into_iter().flatten() {
                names.extend(self.attr(&p["attributes"]));
            }
            let e = self.metrics.entry(text(&m["name"])).or_default();
            let _ = e.0.insert((i, text(&m["unit"])));
            e.1.extend(names);
        } else if let Some(l) = s.get("log") {
            if l["event_name"] != "" {
                let names = self.attr(&l["attributes"]);
                self.events.entry(text(&l["event_name"])).or_default().extend(names);
            }
        }
    }
    fn empty(&self) -> bool {
        self.attrs.is_empty() && self.spans.is_empty() && self.metrics.is_empty() && self.events.is_empty()
    }
    /// Everything observed can be true at once.
    fn consistent(&self) -> bool {
        self.attrs.values().all(|o| o.iter().all(|x| x.0 == o[0].0 && !x.0.is_null())) && self.metrics.values().all(|m| m.0.len() == 1)
    }
    /// Compares with the file; both sides in a form where what the file may choose is left out.
    fn compare(&self, file: &Value) -> (String, String) {
        let mut want = vec!["definition/2".to_owned()];
        let mut got = vec![text(&file["file_format"])];
        let list = |k: &str| file[k].as_array().cloned().unwrap_or_default();
        for (n, o) in &self.attrs {
            want.push(format!("attribute {n}: {}", attr_line(o, None)));
        }
        for a in list("attributes") {
            let n = text(&a["key"]);
            let o = self.attrs.get(&n).cloned().unwrap_or_default();
            got.push(format!("attribute {n}: {}", attr_line(&o, Some(&a))));
        }
        for (n, (kinds, names)) in &self.spans {
            want.push(format!("span {n} {} note {n} {:?}", first(kinds), line(names)));
        }
        for x in list("spans") {
            let n = text(&x["type"]);
            let k = text(&x["kind"]);
            let any = self.spans.get(&n).filter(|s| s.0.contains(&k)).map_or(k, |s| first(&s.0));
            got.push(format!("span {n} {any} note {} {:?}", text(&x["name"]["note"]), refs(&x)));
        }
        for (n, (m, names)) in &self.metrics {
            want.push(format!("metric {n} {:?} {:?}", m.first(), line(names)));
        }
        for x in list("metrics") {
            let n = text(&x["name"]);
            let k = (text(&x["instrument"]), text(&x["unit"]));
            // instrument and unit may come from different observations
            let ok = self.metrics.get(&n).is_some_and(|s| s.0.iter().any(|o| o.0 == k.0) && s.0.iter().any(|o| o.1 == k.1));
            let any = if ok { self.metrics[&n].0.first().cloned() } else { Some(k) };
            got.push(format!("metric {n} {any:?} {:?}", refs(&x)));
        }
        for (n, names) in &self.events {
            want.push(format!("event {n} {:?}", line(names)));
        }
        for x in list("events") {
            got.push(format!("event {} {:?}", text(&x["name"]), refs(&x)));
        }
        for k in ["entities", "attribute_groups", "imports", "metric_refinements", "span_refinements", "event_refinements"] {
            for x in file[k].as_array().into_iter().flatten() {
                got.push(format!("{k} {x}"));
            }
        }
        (want.join("\n"), got.join("\n"))
    }
}

fn line(s: &BTreeSet<String>) -> Vec<&String> {
    s.iter().collect()
}

fn first(s: &BTreeSet<String>) -> String {
    s.first().cloned().unwrap_or_default()
}

/// The attributes a signal refers to, as a list; anything else about them is shown.
fn refs(x: &Value) -> Vec<String> {
    x["attributes"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|a| if a.as_object().is_some_and(|o| o.len() == 1) { text(&a["ref"]) } else { a.to_string() })
        .collect()
}

/// One line about an attribute: as observed, or as the file has it.
fn attr_line(o: &[(Value, Value)], file: Option<&Value>) -> String {
    let types: Vec<&Value> = o.iter().map(|x| &x.0).collect();
    let same = !types.is_empty() && types.iter().all(|t| *t == types[0] && !t.is_null());
    let mut scalars: Vec<&Value> = vec![];
    for (_, v) in o {
        if !v.is_null() && !v.is_array() && !v.is_object() && !scalars.contains(&v) {
            scalars.push(v);
        }
    }
    let n = scalars.len().min(5);
    match file {
        None => format!("{} development, {}", if same { types[0].to_string() } else { "an observed type".into() }, if same { format!("{n} observed examples") } else { "observed examples".into() }),
        Some(a) => {
            let ty = if same || !(types.contains(&&a["type"]) || types.iter().any(|t| t.is_null()) && a["type"] == "string") { a["type"].to_string() } else { "an observed type".into() };
            let ex: Vec<Value> = match &a["examples"] {
                Value::Null => vec![],
                Value::Array(l) => l.clone(),
                one => vec![one.clone()],
            };
            let mut distinct: Vec<&Value> = vec![];
            ex.iter().for_each(|e| {
                if !distinct.contains(&e) {
                    distinct.push(e)
                }
            });
            let known = |e: &Value| scalars.iter().any(|s| *s == e || s.as_f64().is_some() && s.as_f64() == e.as_f64());
            let ok = distinct.len() == ex.len() && ex.len() <= 5 && ex.iter().all(known);
            let ex = match (ok, same) {
                (true, true) => format!("{} observed examples", ex.len()),
                (true, false) => "observed examples".into(),
                (false, _) => format!("examples {}", json!(ex)),
            };
            format!("{ty} {}, {ex}", text(&a["stability"]))
        }
    }
}

// ---- the implementation ----

fn infer(samples: &[Value]) -> (Value, String, bool) {
    let mut acc = AccumulatedSamples::new();
    for s in samples {
        acc.add_sample(model::sample(s));
    }
    let empty = acc.is_empty();
    let f = Versioned::V2(acc.to_semconv_spec());
    (serde_json::to_value(&f).expect("json"), serde_yaml::to_string(&f).expect("yaml"), empty)
}

fn load(dir: &Path, file: &str) -> Result<Arc<VersionedRegistry>, String> {
    write_files(dir, &[("registry.yaml".into(), file.into())]);
    let mut resolver = weaver_resolver::WeaverResolver::new(config());
    let r = resolve_with(&mut resolver, dir, dir);
    let Some(s) = r.schema else { return Err(format!("{:?}", r.fatal)) };
    let v1 = s.into_v1().map_err(|e| e.to_string())?;
    let s: weaver_resolved_schema::v2::ResolvedTelemetrySchema = v1.try_into().map_err(|e: weaver_resolved_schema::error::Error| e.to_string())?;
    match ForgeResolvedRegistry::try_from_resolved_schema(s, &mut resolver) {
        WResult::Ok(f) | WResult::OkWithNFEs(f, _) => Ok(Arc::new(VersionedRegistry::V2(Box::new(f)))),
        WResult::FatalErr(e) => Err(e.to_string()),
    }
}

/// The findings of a live check that say that the registry does not describe the samples.
fn strange(dir: &Path, file: &str, samples: &[Value]) -> String {
    let reg = match load(dir, file) {
        Ok(r) => r,
        Err(e) => return format!("does not resolve: {e}"),
    };
    let mut c = model::checker(&reg, model::Policy::None, dir, None);
    let out = match model::run_samples(&mut c, samples) {
        Ok(o) => o.0,
        Err(e) => return format!("check fails: {e}"),
    };
    let mut bad = BTreeSet::new();
    fn walk(v: &Value, bad: &mut BTreeSet<String>) {
        match v {
            Value::Object(o) => {
                for f in o.get("all_advice").and_then(Value::as_array).into_iter().flatten() {
                    if f["id"] != "not_stable" && f["id"] != "recommended_attribute_not_present" {
                        let _ = bad.insert(f["message"].to_string());
                    }
                }
                o.values().for_each(|v| walk(v, bad));
            }
            Value::Array(a) => a.iter().for_each(|v| walk(v, bad)),
            _ => {}
        }
    }
    out.iter().for_each(|v| walk(v, &mut bad));
    bad.into_iter().collect::<Vec<_>>().join("; ")
}

/// Whether a live check has a rule for everything in the sample that is not inferred (scopes, links, exemplars).
fn checked(s: &Value) -> bool {
    s.get("instrumentation_scope").is_none() && s.get("profile").is_none() && s.pointer("/metric/instrument").is_none_or(|i| i != "Summary" && i != "Unspecified") && s.pointer("/log/event_name").is_none_or(|n| n != "")
}

fn judge(chk: &Check, name: &str, samples: &[Value], file: &Value, yaml: &str, again: Option<&str>, check: bool) -> bool {
    let mut seen = Seen::default();
    samples.iter().for_each(|s| seen.add(s));
    let ok = seen.consistent();
    let input = || json!({"samples": samples});
    let (want, got) = seen.compare(file);
    if !chk.expect_eq(name, input, &want, &got) {
        return false;
    }
    if let Some(a) = again {
        if !chk.expect_eq(name, input, yaml, a) {
            return false;
        }
    }
    chk.outcome(match (seen.empty(), ok) {
        (true, _) => "nothing to infer",
        (_, true) => "consistent",
        _ => "in conflict",
    });
    if check && ok && !seen.empty() {
        let l: Vec<Value> = samples.iter().filter(|s| checked(s)).cloned().collect();
        return chk.expect_eq(name, input, "", &strange(&chk.fresh("i"), yaml, &l));
    }
    true
}

// ---- the histories ----

fn a(n: &str, t: &str, v: Value) -> Value {
    json!({"name": n, "type": t, "value": v})
}

fn alphabet() -> Vec<Value> {
    let s = |v: &str| a("a.s", "string", json!(v));
    let i = |v: i64| a("a.i", "int", json!(v));
    let d = |v: f64| a("a.d", "double", json!(v));
    let b = |v: bool| a("a.b", "boolean", json!(v));
    let list = || a("a.l", "string[]", json!(["q", "r"]));
    let silent = || json!({"name": "a.n", "type": "int", "value": null});
    let metric = |n: &str, i: &str, u: &str, p: Value| json!({"metric": {"name": n, "instrument": i, "unit": u, "data_points": p}});
    let pt = |l: Value| json!({"attributes": l, "value": 1});
    let hist = |l: Value| json!({"attributes": l, "count": 1, "sum": 1.0});
    let exp = |l: Value| json!({"attributes": l, "count": 1, "exp": true});
    let span = |n: &str, k: &str, l: Value, ev: Value| json!({"span": {"name": n, "kind": k, "attributes": l, "span_events": ev}});
    let log = |n: &str, l: Value| json!({"log": {"event_name": n, "attributes": l}});
    vec![
        json!({"resource": {"attributes": [s("x")]}}),
        json!({"resource": {"attributes": [i(1), s("y"), s("x")]}}),
        json!({"resource": {"attributes": []}}),
        json!({"attribute": b(true)}),
        json!({"attribute": s("z")}),
        json!({"instrumentation_scope": {"name": "lib", "attributes": [a("a.scope", "string", json!("x"))]}}),
        span("op", "server", json!([s("x")]), json!([])),
        span("op", "client", json!([i(2)]), json!([{"name": "ev.one", "attributes": [d(1.5)]}])),
        span("GET /", "internal", json!([b(false), s("w")]), json!([{"name": "ev.one", "attributes": [i(3)]}, {"name": "ev.two", "attributes": []}, {"name": "ev.one", "attributes": [s("v")]}])),
        span("ev.one", "producer", json!([]), json!([])),
        metric("m.one", "counter", "{x}", json!([pt(json!([s("x")]))])),
        metric("m.one", "counter", "{x}", json!([pt(json!([i(4)])), pt(json!([d(2.0)]))])),
        metric("m.one", "gauge", "s", json!([pt(json!([b(true)]))])),
        metric("m.one", "counter", "s", json!(null)),
        metric("m.two", "histogram", "ms", json!([hist(json!([s("x"), i(5)])), hist(json!([silent()]))])),
        metric("m.two", "histogram", "ms", json!([exp(json!([d(0.5), list()]))])),
        metric("m.three", "updowncounter", "1", json!([])),
        metric("m.one", "Summary", "q", json!(null)),
        metric("m.four", "Unspecified", "", json!(null)),
        log("ev.one", json!([s("u")])),
        log("ev.one", json!([b(false), list()])),
        log("ev.three", json!([silent(), d(-1.0)])),
        log("op", json!([])),
        log("", json!([a("a.unseen", "string", json!("x"))])),
        // in conflict with the others
        log("ev.one", json!([a("a.s", "int", json!(7))])),
        span("op", "server", json!([a("a.i", "string", json!("seven"))]), json!([])),
        json!({"resource": {"attributes": [a("a.d", "int", json!(2))]}}),
        span("other", "server", json!([{"name": "a.s", "value": null, "type": null}]), json!([])),
        metric("m.two", "histogram", "ms", json!([hist(json!([a("a.b", "string", json!("true"))]))])),
        log("ev.three", json!([a("a.l", "string", json!("q"))])),
    ]
}

fn histories(chk: &Arc<Check>) {
    let alpha = Arc::new(alphabet());
    let n = alpha.len();
    let depth = if chk.thorough() { 4 } else { 3 };
    let thorough = chk.thorough();
    let heads = std::iter::once(vec![]).chain((0..n).map(|i| vec![i])).chain(product(&[n, n]).collect::<Vec<_>>());
    chk.par(
        heads,
        |h| format!("H-{h:?}"),
        move |chk, name, head| {
            // all extensions of a head of two; the shorter ones themselves
            let mut todo = vec![head.clone()];
            if head.len() == 2 {
                for e in 1..=depth - 2 {
                    todo.extend(product(&vec![n; e]).map(|t| head.iter().copied().chain(t).collect()));
                }
            }
            for h in todo {
                let samples: Vec<Value> = h.iter().map(|i| alpha[*i].clone()).collect();
                chk.eval(&h, !h.is_empty());
                chk.add_states(1);
                chk.add_transitions(h.len() as u64);
                // the order matters only where something is kept or dropped: check one order of each set
                let check = h.windows(2).all(|w| w[0] < w[1]) && (thorough || h.len() < 4);
                let r = guarded(|| (infer(&samples), infer(&samples)));
                let ((file, yaml, empty), (_, again, _)) = match r {
                    Ok(r) => r,
                    Err(e) => {
                        chk.violation(name, name, json!({"samples": samples}), "a file", &e);
                        return;
                    }
                };
                let mut seen = Seen::default();
                samples.iter().for_each(|s| seen.add(s));
                if !chk.expect_eq(name, || json!({"samples": samples}), &format!("empty: {}", seen.empty()), &format!("empty: {empty}")) || !judge(chk, name, &samples, &file, &yaml, Some(&again), check) {
                    return;
                }
            }
        },
    );
}

// ---- examples ----

/// All ways to say which of `n` observations are equal: restricted growth strings.
fn patterns(n: usize) -> Vec<Vec<usize>> {
    let mut l: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        l = l
            .into_iter()
            .flat_map(|p| {
                let m = p.iter().max().map_or(0, |m| m + 1);
                (0..=m).map(move |x| p.iter().copied().chain([x]).collect::<Vec<_>>())
            })
            .collect();
    }
    l
}

fn examples(chk: &Arc<Check>) {
    let thorough = chk.thorough();
    let types = ["string", "int", "double", "boolean"];
    let items = types.into_iter().flat_map(|t| {
        let n = if t == "string" { 7 } else { 6 };
        (1..=n).flat_map(move |n| patterns(n).into_iter().filter(move |p| t != "boolean" || p.iter().all(|x| *x < 2)).map(move |p| (t, p)).collect::<Vec<_>>())
    });
    chk.par(
        items,
        |(t, p)| format!("E-{t}-{}", p.iter().map(usize::to_string).collect::<String>()),
        move |chk, name, (t, p)| {
            let places = if thorough && p.len() < 7 { 5 } else { 2 };
            let value = |x: usize| match t {
                "string" => json!(["n", "", "x", "1", "true", "m", "null"][x]),
                "int" => json!([0i64, -1, 3, i64::MAX, i64::MIN, 5][x]),
                "double" => json!([0.0, 1.0, -2.5, 1e30, 3.0, 0.1][x]),
                _ => json!(x == 1),
            };
            for at in product(&vec![places; p.len()]) {
                let samples: Vec<Value> = p
                    .iter()
                    .zip(&at)
                    .map(|(x, place)| {
                        let l = json!([a("it", t, value(*x))]);
                        match place {
                            0 => json!({"resource": {"attributes": l}}),
                            1 => json!({"span": {"name": "op", "kind": "server", "attributes": l}}),
                            2 => json!({"metric": {"name": "m", "instrument": "counter", "unit": "1", "data_points": [{"attributes": l, "value": 1}]}}),
                            3 => json!({"log": {"event_name": "e", "attributes": l}}),
                            _ => json!({"span": {"name": "op", "kind": "server", "attributes": [], "span_events": [{"name": "e", "attributes": l}]}}),
                        }
                    })
                    .collect();
                chk.eval(&(t, &p, &at), true);
                chk.add_states(1);
                let (file, yaml, _) = infer(&samples);
                let check = at.iter().all(|x| *x == at[0]) && p.len() < 4;
                if !judge(chk, name, &samples, &file, &yaml, None, check) {
                    return;
                }
            }
        },
    );
}

// ---- the command ----

fn messages() -> Vec<Msg> {
    let one = |kind, resource: Option<Attrs>, sigs: Vec<Sig>| Msg {
        kind,
        blocks: vec![Block { resource, scopes: vec![Sc { scope: Some(("lib", "1", vec![("a.scope", V::I(1))], 0)), url: "", sigs }] }],
        table: (kind == Kind::Profiles).then(|| vec![("a.prof", V::I(1))]),
    };
    let res = || Some(vec![("service.name", V::S("shop")), ("a.i", V::I(1))]);
    let log = |event, attrs| Sig::Log { event, severity: 9, text: "INFO", body: V::S("b"), attrs, trace: vec![], span: vec![] };
    let span = |name, kind, attrs, events| Sig::Span { name, kind, status: None, attrs, events, links: vec![("a.s", V::S("link"))].into_iter().map(|a| vec![a]).take(0).collect() };
    let metric = |name, unit, shape, attrs: Vec<Attrs>| Sig::Metric { name, unit, shape, points: attrs.into_iter().map(|attrs| Pt { attrs, value: Some(Num::I(1)), ..Default::default() }).collect() };
    let all = || vec![("a.s", V::S("x")), ("a.i", V::I(2)), ("a.d", V::D(1.5)), ("a.b", V::B(true)), ("a.l", V::A(vec![V::S("p"), V::S("q")]))];
    vec![
        one(Kind::Logs, None, vec![]),
        one(Kind::Logs, res(), vec![]),
        one(Kind::Metrics, Some(vec![("service.name", V::S("bank"))]), vec![]),
        one(Kind::Logs, res(), vec![log("ev.one", all()), log("ev.one", vec![("a.extra", V::S("x"))])]),
        one(Kind::Logs, None, vec![log("", all())]),
        one(Kind::Logs, None, vec![log("ev.two", vec![])]),
        one(Kind::Metrics, res(), vec![metric("m.one", "{x}", Shape::Counter, vec![all(), vec![("a.more", V::I(7))]])]),
        one(Kind::Metrics, None, vec![metric("m.one", "{x}", Shape::Counter, vec![vec![("a.s", V::S("y"))]]), metric("m.two", "s", Shape::Gauge, vec![vec![]])]),
        one(Kind::Metrics, None, vec![metric("m.hist", "ms", Shape::Histogram, vec![all()]), metric("m.exp", "By", Shape::Exponential, vec![vec![("a.exp", V::D(2.0))]])]),
        one(Kind::Metrics, None, vec![metric("m.sum", "1", Shape::Summary, vec![all()]), metric("m.none", "1", Shape::Nothing, vec![]), metric("m.ud", "1", Shape::UpDown, vec![])]),
        one(Kind::Traces, res(), vec![span("GET /users", 2, all(), vec![])]),
        one(Kind::Traces, None, vec![span("GET /users", 2, vec![("a.other", V::S("o"))], vec![("ev.one", vec![("a.s", V::S("z"))]), ("ev.in", vec![("a.in", V::B(false))])])]),
        one(Kind::Traces, None, vec![span("queue", 4, vec![], vec![]), span("work", 5, vec![], vec![]), span("call", 3, vec![], vec![]), span("plain", 0, vec![], vec![])]),
        one(Kind::Profiles, Some(vec![("a.host", V::S("h"))]), vec![Sig::Profile { format: "pprof", attrs: vec![0] }]),
        one(Kind::Traces, None, vec![span("GET /users", 3, vec![("a.i", V::S("two"))], vec![])]),
        one(Kind::Metrics, Some(vec![("a.i", V::D(2.5))]), vec![metric("m.one", "s", Shape::Gauge, vec![])]),
    ]
}

fn command(chk: &Arc<Check>) {
    let l = Arc::new(messages());
    let n = l.len();
    let heads = std::iter::once(vec![]).chain((0..n).map(|i| vec![i])).chain(product(&[n, n]).collect::<Vec<_>>());
    chk.par(
        heads,
        |h| format!("C-{h:?}"),
        move |chk, name, h| {
            let d = chk.fresh("infer");
            let input = || json!({"messages": h.iter().map(|i| format!("{:?}", l[*i])).collect::<Vec<_>>()});
            let r = (|| {
                let mut s = Session::command(&d, &["registry", "infer", "--grpc-address", "127.0.0.1", "--inactivity-timeout", "0", "-o", "out/deep"], "--grpc-port", 1)?;
                for i in &h {
                    if let Err(e) = s.send(0, &l[*i]) {
                        let end = s.end(&d);
                        return Err(format!("{e}; exit {}: {}", end.code, end.stderr));
                    }
                }
                // It may be gone before the answer is.
                let status = s.stop().map(|a| a.0).unwrap_or_else(|| "200, unsaid".into());
                let end = s.end(&d);
                if !status.contains("200") || end.code != 0 {
                    return Err(format!("{status}, exit {}: {}", end.code, end.stderr));
                }
                Ok(std::fs::read_to_string(d.join("out/deep/registry.yaml")).ok())
            })();
            let mut samples: Vec<Value> = h.iter().flat_map(|i| l[*i].samples()).map(|s| s.0).collect();
            // What an expected text may look like is not a sample's.
            for s in &mut samples {
                if let Some(b) = s.pointer_mut("/log/body") {
                    *b = json!("b");
                }
            }
            chk.eval(&("C", &h), !h.is_empty());
            chk.add_states(1);
            chk.add_traces(1);
            chk.add_transitions(h.len() as u64);
            let mut seen = Seen::default();
            samples.iter().for_each(|s| seen.add(s));
            match r {
                Err(e) => chk.violation(name, name, input(), "a file", &e),
                Ok(None) => {
                    let _ = chk.expect_eq(name, input, "no file: true", &format!("no file: {}", seen.empty()));
                }
                Ok(Some(yaml)) => {
                    if seen.empty() {
                        chk.violation(name, name, input(), "no file", &yaml);
                        return;
                    }
                    match serde_yaml::from_str::<Value>(&yaml) {
                        Ok(file) => {
                            let _ = judge(chk, name, &samples, &file, &yaml, None, true);
                        }
                        Err(e) => chk.violation(name, name, input(), "YAML", &e.to_string()),
                    }
                }
            }
        },
    );
}

fn run(chk: &Arc<Check>) {
    histories(chk);
    examples(chk);
    command(chk);
}
