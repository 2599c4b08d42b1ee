//! C18: findings about metrics and events; C19: entity associations.
use crate::attrs::{deps, STABILITIES};
use crate::model::*;
use harness::*;
use serde_json::{json, Value};
use std::sync::Arc;

pub const SIGNALS: Spec = Spec {
    id: "C18",
    level: "model_checking",
    rule: "Exhaustive over definitions x observations, registry in v1 and v2 syntax, and with the attributes defined by a dependency: (A) metrics with every instrument x unit {1, By, {request}, empty} x stability x deprecation against every observed instrument \
           (4 known, 2 unknown) x observed unit; events with every stability x deprecation; unknown, prefixed, suffixed and empty names; (B) a metric and an event with every assignment of requirement levels \
           {none, required, recommended, opt_in, conditionally_required, recommended with text} to 2 attributes (thorough 3) and a template attribute, observed with every subset of {the attributes, an instance of the template, the bare \
           template name, a foreign attribute} on one or two data points of each kind (number, histogram, exponential histogram), exemplars with every subset; (C) a policy that reports everything it is shown, on samples \
           of every kind after every sequence of 0-2 resources: each entity is shown once, with its own resource and registry definition. Oracle: reference model of the documented findings. \
           Non-trivial: the signal is defined.",
    assumptions: &[],
    run: signals,
};
pub const ENTITIES: Spec = Spec {
    id: "C19",
    level: "model_checking",
    rule: "Exhaustive: association expressions over 3 entities: every list of up to 2 of {entity, one_of pair, all_of pair, all_of of (entity, one_of), one_of of (entity, all_of)}, \
           on a metric and an event, registry in v1 and v2 syntax, requirement levels of identity and description {required, recommended, opt_in, none}; x every subset of resource attributes, no resource, two resources in sequence; the same for entities defined by a dependency (v1 or v2 syntax), imported or not, or part of them by the registry itself. \
           Oracle: boolean semantics of the expression and the documented findings. Non-trivial: some entity is not satisfied.",
    assumptions: &[],
    run: entities,
};

fn load_or(chk: &Check, name: &str, reg: &Registry, v2: bool) -> Option<(Arc<weaver_live_check::VersionedRegistry>, Value)> {
    let input = json!(reg.files(v2)[0].1);
    match reg.resolve(&chk.fresh("reg"), v2) {
        Ok(l) => Some((l, input)),
        Err(e) => {
            chk.violation(name, name, input, "resolves", &e);
            None
        }
    }
}

const INSTRUMENTS: [&str; 4] = ["counter", "updowncounter", "gauge", "histogram"];
const UNITS: [&str; 3] = ["1", "By", "{request}"];

fn points(kind: &str, list: &[Value], ex: &[Value]) -> Value {
    let ex: Vec<Value> = ex.iter().map(|l| json!({"filtered_attributes": l, "value": 1, "timestamp": "t", "span_id": "s", "trace_id": "t"})).collect();
    json!(list
        .iter()
        .enumerate()
        .map(|(i, l)| match (kind, (i + ex.len()) % 2) {
            ("number", 0) => json!({"attributes": l, "value": 3.5, "exemplars": ex}),
            ("number", _) => json!({"attributes": l, "value": 0, "flags": 1, "exemplars": ex}),
            ("histogram", 0) => json!({"attributes": l, "count": 2, "sum": 3.0, "bucket_counts": [1, 1], "explicit_bounds": [1.0], "min": 1.0, "max": 2.0, "exemplars": ex}),
            ("histogram", _) => json!({"attributes": l, "count": 0, "flags": 1, "exemplars": ex}),
            (_, 0) => json!({"attributes": l, "count": 2, "exp": true, "exemplars": ex}),
            _ => json!({"attributes": l, "count": 0, "exp": true, "exemplars": ex}),
        })
        .collect::<Vec<_>>())
}

fn part_a(chk: &Arc<Check>) {
    for (v2, dep) in MODES {
        let name = format!("A{v2}{}", dep.map(|d| format!("-dep-{d}")).unwrap_or_default());
        if !chk.wants(&name) {
            continue;
        }
        let mut reg = Registry { attrs: vec![attr("a.b", json!("string"))], dep, ..Default::default() };
        for (s, st) in STABILITIES.iter().enumerate() {
            let st = st.or(Some("beta"));
            for (d, dep) in deps(v2).iter().enumerate() {
                for (i, instrument) in INSTRUMENTS.iter().enumerate() {
                    for (u, unit) in UNITS.iter().enumerate() {
                        reg.signals.push(Signal { kind: "metric", name: format!("m.s{s}.d{d}.i{i}.u{u}"), stability: st, deprecated: dep.clone(), instrument, unit, ..Default::default() });
                    }
                }
                reg.signals.push(Signal { kind: "event", name: format!("e.s{s}.d{d}"), stability: st, deprecated: dep.clone(), ..Default::default() });
                reg.signals.push(Signal { kind: "span", name: format!("p.s{s}.d{d}"), stability: st, deprecated: dep.clone(), attrs: vec![("a.b".into(), json!("required"))], ..Default::default() });
            }
        }
        chk.case(&name, || {
            let Some((loaded, _)) = load_or(chk, &name, &reg, v2) else { return };
            let input = json!({"definitions": "every instrument, unit, stability and deprecation", "v2": v2});
            let mut c = checker(&loaded, Policy::Default, &chk.fresh("p"), None);
            let o = Oracle { reg: &reg, v2, policy: Policy::Default, modify: None };
            for m in &reg.signals {
                let mut l = vec![];
                match m.kind {
                    "metric" => {
                        for i in INSTRUMENTS.iter().chain(&["summary", "unspecified", "Counter"]) {
                            for u in UNITS.iter().chain(&["", "ms", " By"]) {
                                l.push(json!({"metric": {"name": m.name, "instrument": i, "unit": u}}));
                            }
                        }
                    }
                    "event" => {
                        l.push(json!({"log": {"event_name": m.name}}));
                        l.push(json!({"log": {"event_name": m.name, "severity_number": 9, "body": "x", "attributes": [{"name": "a.b", "value": "v"}]}}));
                    }
                    _ => l.push(json!({"span": {"name": m.name, "kind": "internal"}})),
                }
                for (i, s) in l.iter().enumerate() {
                    chk.eval(&(v2, &m.name, i), true);
                    let _ = compare(chk, &name, &input, &o, &mut c, std::slice::from_ref(s));
                }
            }
            let m = &reg.signals[0].name;
            let e = &reg.signals.iter().find(|s| s.kind == "event").expect("event").name;
            let p = &reg.signals.iter().find(|s| s.kind == "span").expect("span").name;
            for n in ["", " ", "M", "m", "m.", "m.s0", e, p, m, "metric.m.s0.d0.i0.u0", "event.e.s0.d0", "a.b", &format!("{m}.x"), &format!("{m}x"), &m.to_uppercase(), &format!("{e}.x"), &m[..m.len() - 1], "é", "a__b", "1a"] {
                for s in [json!({"metric": {"name": n, "instrument": "counter", "unit": "1"}}), json!({"log": {"event_name": n}}), json!({"span": {"name": n, "kind": "client"}}), json!({"span_event": {"name": n}})] {
                    chk.eval(&(v2, n, s.to_string()), false);
                    let _ = compare(chk, &name, &input, &o, &mut c, &[s]);
                }
            }
        });
    }
}

fn levels() -> Vec<Value> {
    vec![json!(null), json!("required"), json!("recommended"), json!("opt_in"), json!({"conditionally_required": "if"}), json!({"recommended": "when"}), json!({"opt_in": "maybe"})]
}

fn part_b(chk: &Arc<Check>) {
    let n = if chk.thorough() { 3 } else { 2 };
    let dims: Vec<usize> = vec![levels().len(); n].into_iter().chain([levels().len()]).collect();
    let deps = |i: usize| if chk.thorough() || i % 9 == 0 { 5 } else { 2 };
    let items: Vec<((bool, Option<bool>), Vec<usize>)> = product(&dims).enumerate().flat_map(|(i, x)| MODES[..deps(i)].iter().map(move |m| (*m, x.clone())).collect::<Vec<_>>()).collect();
    chk.par(items.into_iter(), |((v2, d), x)| format!("B{v2}{}-{x:?}", d.map(|d| format!("-dep-{d}")).unwrap_or_default()), |chk, name, ((v2, dep), x)| {
        let names = ["a.one", "a.two", "a.three"];
        let mut attrs: Vec<Attr> = names[..n].iter().map(|a| attr(a, json!("string"))).collect();
        attrs.push(attr("t.x", json!("template[string]")));
        attrs.push(attr("z.foreign", json!("string")));
        let lv = levels();
        let mut l: Vec<(String, Value)> = (0..n).map(|i| (names[i].to_owned(), lv[x[i]].clone())).collect();
        l.push(("t.x".into(), lv[x[n]].clone()));
        let reg = Registry {
            attrs,
            signals: vec![
                Signal { kind: "metric", name: "m.x".into(), stability: Some("stable"), instrument: "counter", unit: "1", attrs: l.clone(), ..Default::default() },
                Signal { kind: "event", name: "e.x".into(), stability: Some("stable"), attrs: l.clone(), ..Default::default() },
                Signal { kind: "span", name: "s.x".into(), stability: Some("stable"), attrs: l, ..Default::default() },
            ],
            entities: vec![],
            dep,
            ..Default::default()
        };
        let Some((loaded, input)) = load_or(chk, name, &reg, v2) else { return };
        let mut c = checker(&loaded, Policy::None, &chk.fresh("p"), None);
        let o = Oracle { reg: &reg, v2, policy: Policy::None, modify: None };
        let seen: Vec<Value> = names[..n].iter().copied().chain(["t.x.k", "t.x.other", "z.foreign", "none.such"]).map(|a| json!({"name": a, "value": "v"})).collect();
        let subs = subsets(&seen);
        let mut samples = vec![json!({"span": {"name": "s.x", "kind": "internal"}}), json!({"metric": {"name": "m.x", "instrument": "counter", "unit": "1"}}), json!({"metric": {"name": "m.x", "instrument": "counter", "unit": "1", "data_points": []}})];
        for (i, s) in subs.iter().enumerate() {
            let s = json!(s);
            let other = json!(subs[(i * 7 + 3) % subs.len()]);
            samples.push(json!({"log": {"event_name": "e.x", "attributes": s}}));
            samples.push(json!({"log": {"event_name": "", "attributes": s}}));
            for k in ["number", "histogram", "exponential"] {
                samples.push(json!({"metric": {"name": "m.x", "instrument": "counter", "unit": "1", "data_points": points(k, &[s.clone()], &[])}}));
                samples.push(json!({"metric": {"name": "m.x", "instrument": "counter", "unit": "1", "data_points": points(k, &[s.clone(), other.clone()], &[other.clone(), s.clone()])}}));
                samples.push(json!({"metric": {"name": "m.y", "instrument": "counter", "unit": "1", "data_points": points(k, &[s.clone()], &[s.clone()])}}));
            }
        }
        for (i, s) in samples.iter().enumerate() {
            chk.eval(&(name, i), true);
            let _ = compare(chk, name, &input, &o, &mut c, std::slice::from_ref(s));
        }
    });
}

fn part_c(chk: &Arc<Check>) {
    let reg = Registry {
        attrs: vec![attr("a.one", json!("string")), attr("a.two", json!("int")), attr("t.x", json!("template[string]"))],
        signals: vec![
            Signal { kind: "metric", name: "m.x".into(), stability: Some("stable"), instrument: "counter", unit: "1", attrs: vec![("a.one".into(), json!("required"))], ..Default::default() },
            Signal { kind: "event", name: "e.x".into(), stability: Some("stable"), attrs: vec![("a.one".into(), json!("required"))], ..Default::default() },
        ],
        entities: vec![],
        ..Default::default()
    };
    let l = json!([{"name": "a.one", "value": "v"}, {"name": "t.x.y", "value": "v"}, {"name": "none.such"}]);
    let metric = |n: &str, k: &str| json!({"metric": {"name": n, "instrument": "counter", "unit": "1", "data_points": points(k, &[l.clone(), json!([])], &[l.clone(), json!([])])}});
    let mut samples = vec![];
    for n in ["m.x", "m.y"] {
        for k in ["number", "histogram", "exponential"] {
            samples.push(metric(n, k));
        }
    }
    for n in ["e.x", "e.y", ""] {
        samples.push(json!({"log": {"event_name": n, "attributes": l}}));
    }
    samples.push(json!({"span": {"name": "s", "kind": "server", "attributes": l, "span_events": [{"name": "m.x", "attributes": l}, {"name": "e.x", "attributes": []}], "span_links": [{"attributes": l}, {"attributes": []}]}}));
    samples.push(json!({"span_event": {"name": "e.x", "attributes": l}}));
    samples.push(json!({"span_link": {"attributes": l}}));
    samples.push(json!({"attribute": {"name": "a.two", "value": 1}}));
    samples.push(json!({"attribute": {"name": "t.x.k"}}));
    samples.push(json!({"instrumentation_scope": {"name": "sc", "version": "1", "attributes": l}}));
    samples.push(json!({"instrumentation_scope": {"name": "m.x", "schema_url": "https://s.test/1", "dropped_attributes_count": 2, "attributes": []}}));
    samples.push(json!({"profile": {"original_payload_format": "pprof", "attributes": l}}));
    let r1 = json!({"resource": {"attributes": l}});
    let r2 = json!({"resource": {"attributes": [{"name": "a.two", "value": 3}]}});
    let r3 = json!({"resource": {"attributes": []}});
    let res = [None, Some(r1), Some(r2), Some(r3)];
    let items: Vec<(bool, usize, usize)> = [false, true].into_iter().flat_map(|v| (0..4).flat_map(move |i| (0..4).map(move |j| (v, i, j)))).collect();
    let (samples, reg, res) = (&samples, &reg, &res);
    chk.par(items.into_iter(), |(v2, i, j)| format!("C{v2}-{i}-{j}"), |chk, name, (v2, i, j)| {
        let Some((loaded, input)) = load_or(chk, name, reg, v2) else { return };
        let mut c = checker(&loaded, Policy::Seen, &chk.fresh("p"), None);
        let o = Oracle { reg, v2, policy: Policy::Seen, modify: None };
        for a in samples {
            for b in samples {
                let s: Vec<Value> = res[i].iter().chain([a]).chain(&res[j]).chain([b]).cloned().collect();
                chk.eval(&(name, a.to_string(), b.to_string()), true);
                let _ = compare(chk, name, &input, &o, &mut c, &s);
            }
        }
    });
}

fn signals(chk: &Arc<Check>) {
    part_a(chk);
    part_b(chk);
    part_c(chk);
}

fn entities(chk: &Arc<Check>) {
    let n = 3;
    let ents = ["x", "y", "w"];
    let leaf: Vec<Value> = ents[..n].iter().map(|e| json!(e)).collect();
    let mut comp: Vec<Value> = leaf.clone();
    for a in &leaf {
        for b in &leaf {
            comp.push(json!({"one_of": [a, b]}));
            comp.push(json!({"all_of": [a, b]}));
            for c in &leaf {
                comp.push(json!({"one_of": [{"all_of": [a, b]}, c]}));
                comp.push(json!({"one_of": [c, {"all_of": [a, b]}]}));
                comp.push(json!({"all_of": [c, {"one_of": [a, b]}]}));
            }
        }
    }
    let mut exprs: Vec<Vec<Value>> = vec![vec![]];
    exprs.extend(comp.iter().map(|c| vec![c.clone()]));
    for (i, a) in comp.iter().enumerate() {
        for (j, b) in comp.iter().enumerate() {
            if chk.thorough() && (i < 40 || j < 40) || i < leaf.len() || j < leaf.len() || (i + 3 * j) % 11 == 0 {
                exprs.push(vec![a.clone(), b.clone()]);
            }
        }
    }
    // (identity level, description level) of the entities
    let lv: [(Value, Value); 5] = [
        (json!(null), json!(null)),
        (json!("required"), json!("recommended")),
        (json!("required"), json!("required")),
        (json!("recommended"), json!("opt_in")),
        (json!({"conditionally_required": "c"}), json!("required")),
    ];
    let items: Vec<(bool, &'static str, usize, usize)> = [false, true]
        .into_iter()
        .flat_map(|v2| ["metric", "event"].into_iter().flat_map(move |k| (0..5).map(move |l| (v2, k, l))))
        .flat_map(|(v2, k, l)| (0..exprs.len().div_ceil(400)).map(move |c| (v2, k, l, c)))
        .collect();
    chk.note("expressions", json!(exprs.len()));
    let exprs = &exprs;
    let lv = &lv;
    chk.par(items.into_iter(), |(v2, k, l, c)| format!("{}-{k}-{l}-{c}", if *v2 { "v2" } else { "v1" }), |chk, name, (v2, kind, l, c)| {
        let mine = &exprs[c * 400..((c + 1) * 400).min(exprs.len())];
        let mut reg = Registry::default();
        for (i, e) in ents[..n].iter().enumerate() {
            // levels differ between the entities
            let (id, de) = &lv[(l + i) % lv.len()];
            reg.attrs.push(attr(&format!("{e}.id"), json!("string")));
            reg.attrs.push(attr(&format!("{e}.d"), json!("string")));
            let description = if i == 0 || l != 2 { vec![(format!("{e}.d"), de.clone())] } else { vec![] };
            reg.entities.push(Entity { ty: (*e).into(), identity: vec![(format!("{e}.id"), id.clone())], description });
        }
        for (i, e) in mine.iter().enumerate() {
            reg.signals.push(Signal { kind, name: format!("s.n{i}"), stability: Some("stable"), instrument: "counter", unit: "1", assoc: e.clone(), ..Default::default() });
        }
        let Some((loaded, _)) = load_or(chk, name, &reg, v2) else { return };
        let mut ck = checker(&loaded, Policy::None, &chk.fresh("p"), None);
        let o = Oracle { reg: &reg, v2, policy: Policy::None, modify: None };
        let res: Vec<Value> = subsets(&reg.attrs.iter().map(|a| json!({"name": a.name, "value": "v"})).collect::<Vec<_>>()).into_iter().map(|s| json!({"resource": {"attributes": s}})).collect();
        let sigs: Vec<Value> = (0..mine.len())
            .map(|i| if kind == "metric" { json!({"metric": {"name": format!("s.n{i}"), "instrument": "counter", "unit": "1"}}) } else { json!({"log": {"event_name": format!("s.n{i}")}}) })
            .collect();
        let mut run = sigs.clone();
        for r in &res {
            run.push(r.clone());
            run.extend(sigs.iter().cloned());
        }
        chk.eval(name, true);
        chk.add_transitions(run.len() as u64);
        let input = json!({"associations": mine, "kind": kind, "levels": l, "v2": v2});
        let _ = compare(chk, name, &input, &o, &mut ck, &run);
    });
    with_dependency(chk, &exprs[..if chk.thorough() { 400 } else { 112 }], lv);
}

/// The entities are defined by a dependency (in v1 or v2 syntax), imported or only named by the associations.
fn with_dependency(chk: &Arc<Check>, exprs: &[Vec<Value>], lv: &[(Value, Value); 5]) {
    let ents = ["x", "y", "w"];
    // (dependency in v2 syntax, entities imported, checked as v2, kind, levels, entities the registry defines itself)
    let items: Vec<(bool, bool, bool, usize, usize, usize)> = product(&[2, 2, 2, 2, 5, 3]).map(|x| (x[0] == 1, x[1] == 1, x[2] == 1, x[3], x[4], x[5])).collect();
    chk.par(items.into_iter(), |i| format!("dep-{i:?}"), |chk, name, (dep_v2, import, v2, kind, l, own)| {
        let kind = ["metric", "event"][kind];
        let (mut dep, mut main) = (Registry::default(), Registry::default());
        for (i, e) in ents.iter().enumerate() {
            let (id, de) = &lv[(l + i) % lv.len()];
            // the registry's own first `own` entities are the last ones
            let r = if i + own >= 3 { &mut main } else { &mut dep };
            r.attrs.push(attr(&format!("{e}.id"), json!("string")));
            r.attrs.push(attr(&format!("{e}.d"), json!("string")));
            r.entities.push(Entity { ty: (*e).into(), identity: vec![(format!("{e}.id"), id.clone())], description: vec![(format!("{e}.d"), de.clone())] });
        }
        for (i, e) in exprs.iter().enumerate() {
            main.signals.push(Signal { kind, name: format!("s.n{i}"), stability: Some("stable"), instrument: "counter", unit: "1", assoc: e.clone(), ..Default::default() });
        }
        let d = chk.fresh("dep");
        let url = "https://d.test/s/1.0.0";
        let mut files = dep.files(dep_v2);
        files.push(("manifest.yaml".into(), json!({"schema_url": url, "description": "d", "stability": "stable"}).to_string()));
        harness::reg::write_files(&d, &files);
        let mut files = main.files(true);
        files.push(("manifest.yaml".into(), json!({"schema_url": "https://m.test/s/1.0.0", "description": "d", "stability": "stable",
            "dependencies": [{"schema_url": url, "registry_path": d.display().to_string()}]}).to_string()));
        if import {
            files.push(("i.yaml".into(), json!({"file_format": "definition/2", "imports": {"entities": ["*"]}}).to_string()));
        }
        let loaded = match load(&chk.fresh("main"), &files, v2) {
            Ok(l) => l,
            Err(e) => {
                chk.violation(name, name, json!(files), "a registry", &e);
                return;
            }
        };
        // what the registry under check knows
        let all: Vec<Attr> = dep.attrs.iter().chain(&main.attrs).cloned().collect();
        let mut reg = main.clone();
        if import {
            reg.attrs = all.clone();
        }
        // a v1 view has the entities it holds; a v2 association also reads those of dependencies
        if import || v2 {
            reg.entities = dep.entities.iter().chain(&main.entities).cloned().collect();
        }
        let mut ck = checker(&loaded, Policy::None, &chk.fresh("p"), None);
        let o = Oracle { reg: &reg, v2, policy: Policy::None, modify: None };
        let sigs: Vec<Value> = (0..exprs.len())
            .map(|i| if kind == "metric" { json!({"metric": {"name": format!("s.n{i}"), "instrument": "counter", "unit": "1"}}) } else { json!({"log": {"event_name": format!("s.n{i}")}}) })
            .collect();
        let mut run = sigs.clone();
        for s in subsets(&all.iter().map(|a| json!({"name": a.name, "value": "v"})).collect::<Vec<_>>()) {
            run.push(json!({"resource": {"attributes": s}}));
            run.extend(sigs.iter().cloned());
        }
        chk.eval(name, true);
        chk.add_transitions(run.len() as u64);
        let input = json!({"files": files, "v2": v2});
        let _ = compare(chk, name, &input, &o, &mut ck, &run);
    });
}
