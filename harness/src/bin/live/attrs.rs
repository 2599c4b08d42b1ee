//! C17: findings about attributes.
use crate::model::*;
use harness::*;
use serde_json::{json, Value};
use std::sync::Arc;

pub const SPEC: Spec = Spec {
    id: "C17",
    level: "model_checking",
    rule: "Exhaustive over definitions x observations, with the registry given in v1 and in v2 syntax and with the attributes defined by a dependency and used by attribute groups, signals, entities and refinements: (A) every attribute type (9 plain, 9 template, string and int enums) x stability \
           {none, stable, development, alpha, release_candidate} x deprecation {none, renamed, renamed with note, obsoleted, uncategorized, text}, observed without value, with each of 25 JSON values and with each \
           of 9 stated types; (B) every place an attribute can occur in (15 places) x a choice of definitions x values; (C) every registry over 9 candidate names (namespaces, deprecated namespaces, nested templates) \
           of up to 4 attributes (thorough: all 512) x every name of up to 4 segments over {a,b,t} and 20 irregular names, with the default policy. Oracle: reference model of the documented findings. \
           Non-trivial: at least one finding.",
    assumptions: &[],
    run,
};

pub fn values() -> Vec<Value> {
    vec![
        json!(null), json!(true), json!(1), json!(-7), json!(0), json!(18446744073709551615u64), json!(1.5), json!(2.0), json!("x"), json!("1"), json!(""), json!([]), json!([null]), json!([true, false]),
        json!([1, 2]), json!([1.5, 2.5]), json!([1.5, 2]), json!(["x", "y"]), json!(["x", 1]), json!([true, 1]), json!([null, "x"]), json!([null, 3, null]), json!({"a": 1}), json!([["x"]]), json!("y"),
    ]
}

pub fn types() -> Vec<Value> {
    let mut l: Vec<Value> = ["string", "int", "double", "boolean", "string[]", "int[]", "double[]", "boolean[]", "any", "template[string]", "template[int]", "template[double]", "template[boolean]", "template[any]", "template[string[]]", "template[int[]]", "template[double[]]", "template[boolean[]]"].iter().map(|t| json!(t)).collect();
    l.push(json!({"members": [{"id": "m1", "value": "x", "brief": "b", "stability": "stable"}, {"id": "m2", "value": "y", "brief": "b", "stability": "development", "deprecated": {"reason": "obsoleted", "note": "n"}}]}));
    l.push(json!({"members": [{"id": "m1", "value": 1, "brief": "b", "stability": "stable"}, {"id": "m2", "value": -7, "brief": "b", "stability": "stable"}, {"id": "m3", "value": 0, "brief": "b", "stability": "stable"}]}));
    l
}

pub fn deps(v2: bool) -> Vec<Option<Value>> {
    let mut l = vec![
        None,
        Some(json!({"reason": "renamed", "renamed_to": "z.new"})),
        Some(json!({"reason": "renamed", "renamed_to": "z.new", "note": "why"})),
        Some(json!({"reason": "obsoleted", "note": "gone"})),
        Some(json!({"reason": "uncategorized", "note": "dunno"})),
    ];
    if !v2 {
        l.push(Some(json!("old text")));
    }
    l
}

pub const STABILITIES: [Option<&str>; 5] = [None, Some("stable"), Some("development"), Some("alpha"), Some("release_candidate")];

fn all_defs(v2: bool) -> Registry {
    let mut r = Registry::default();
    for (t, ty) in types().iter().enumerate() {
        for (s, st) in STABILITIES.iter().enumerate() {
            for (d, dep) in deps(v2).iter().enumerate() {
                r.attrs.push(Attr { name: format!("ns.t{t}.s{s}.d{d}"), ty: ty.clone(), stability: *st, deprecated: dep.clone() });
            }
        }
    }
    r
}

/// Spreads the use of the attributes of a dependency over everything that can use one.
fn use_everywhere(reg: &mut Registry, dep: Option<bool>) {
    reg.dep = dep;
    let mut l: Vec<Vec<(String, Value)>> = vec![vec![]; 6];
    for (i, a) in reg.attrs.iter().enumerate() {
        match i % 7 {
            6 => reg.refined.push(a.name.clone()),
            k => l[k].push((a.name.clone(), json!(null))),
        }
    }
    let mut l = l.into_iter();
    let mut next = || l.next().unwrap_or_default();
    // the first sixth is left to the attribute group
    let _ = next();
    reg.signals.push(Signal { kind: "metric", name: "use.m".into(), stability: Some("stable"), instrument: "counter", unit: "1", attrs: next(), ..Default::default() });
    reg.signals.push(Signal { kind: "event", name: "use.e".into(), stability: Some("stable"), attrs: next(), ..Default::default() });
    reg.signals.push(Signal { kind: "span", name: "use.s".into(), stability: Some("stable"), attrs: next(), ..Default::default() });
    reg.entities.push(Entity { ty: "use_ent".into(), identity: next(), description: next() });
}

/// One attribute in every place it can occur in.
pub fn places(a: &Value) -> Vec<(&'static str, Value)> {
    let l = json!([a]);
    let ex = json!([{"filtered_attributes": l, "value": 1, "timestamp": "t", "span_id": "s", "trace_id": "t"}]);
    let metric = |p: Value| json!({"metric": {"name": "m.x", "instrument": "counter", "unit": "1", "data_points": [p]}});
    let span = |extra: Value| {
        let mut s = json!({"name": "GET", "kind": "server"});
        for (k, v) in extra.as_object().expect("object") {
            s[k] = v.clone();
        }
        json!({"span": s})
    };
    vec![
        ("alone", json!({"attribute": a})),
        ("span", span(json!({"attributes": l}))),
        ("span-twice", span(json!({"attributes": [{"name": "other.one", "value": "x"}, a, a]}))),
        ("event-in-span", span(json!({"span_events": [{"name": "e", "attributes": l}]}))),
        ("link-in-span", span(json!({"span_links": [{"attributes": l}, {"attributes": l}]}))),
        ("event", json!({"span_event": {"name": "e", "attributes": l}})),
        ("link", json!({"span_link": {"attributes": l}})),
        ("resource", json!({"resource": {"attributes": l}})),
        ("scope", json!({"instrumentation_scope": {"name": "s", "attributes": l}})),
        ("profile", json!({"profile": {"original_payload_format": "pprof", "attributes": l}})),
        ("log", json!({"log": {"event_name": "", "attributes": l}})),
        ("number", metric(json!({"attributes": l, "value": 1}))),
        ("histogram", metric(json!({"attributes": l, "count": 1, "sum": 1.0}))),
        ("exponential", metric(json!({"attributes": l, "count": 1, "exp": true}))),
        ("exemplar", metric(json!({"attributes": [], "value": 1, "exemplars": ex}))),
    ]
}

fn run(chk: &Arc<Check>) {
    let thorough = chk.thorough();
    let items = ['A', 'B', 'C', 'D'].into_iter().flat_map(|p| MODES.into_iter().map(move |m| (p, m)));
    let label = |(p, (v2, dep)): &(char, (bool, Option<bool>))| format!("{p}{v2}{}", dep.map(|d| format!("-dep-{d}")).unwrap_or_default());
    chk.par(items, label, |chk, name, (part, (v2, dep))| {
        let mut reg = all_defs(v2);
        if dep.is_some() {
            use_everywhere(&mut reg, dep);
        }
        let input = json!({"definitions": "every type, stability and deprecation", "v2": v2, "dependency_v2": dep});
                let loaded = match reg.resolve(&chk.fresh("defs"), v2) {
            Ok(l) => l,
            Err(e) => {
                chk.violation(name, name, input, "resolves", &e);
                return;
            }
        };
        chk.note(&format!("definitions_{name}"), json!(reg.attrs.len()));
        if part == 'A' {
            let mut c = checker(&loaded, Policy::None, &chk.fresh("p"), None);
            let o = Oracle { reg: &reg, v2, policy: Policy::None, modify: None };
            for a in &reg.attrs {
                let n = if Oracle::is_template(a) { format!("{}.k", a.name) } else { a.name.clone() };
                let mut samples = vec![json!({"attribute": {"name": n}})];
                samples.extend(values().into_iter().map(|v| json!({"attribute": {"name": n, "value": v}})));
                samples.extend(["string", "int", "double", "boolean", "string[]", "int[]", "double[]", "boolean[]", "any"].iter().map(|t| json!({"attribute": {"name": n, "type": t}})));
                for (i, s) in samples.iter().enumerate() {
                    chk.eval(&(v2, dep, &n, i), true);
                    let _ = compare(chk, name, &input, &o, &mut c, std::slice::from_ref(s));
                }
            }
        } else {
            let mut c = checker(&loaded, Policy::Default, &chk.fresh("p"), None);
            let o = Oracle { reg: &reg, v2, policy: Policy::Default, modify: None };
            let step = if thorough { 1 } else { 11 };
            for (i, a) in reg.attrs.iter().enumerate().step_by(step).filter(|(i, _)| i / step % 3 == part as usize - 'B' as usize) {
                let n = if Oracle::is_template(a) { format!("{}.k.l", a.name) } else { a.name.clone() };
                let v = &values()[i % 25];
                for (p, s) in places(&json!({"name": n, "value": v})).into_iter().chain(places(&json!({"name": format!("{n}_")})).into_iter().filter(|_| i % 3 == 0)) {
                    chk.eval(&(v2, dep, p, &n, i), true);
                    let _ = compare(chk, name, &input, &o, &mut c, &[s]);
                }
            }
        }
        });
    // names
    let pool: Vec<Attr> = vec![
        attr("a", json!("string")),
        attr("a.b", json!("string")),
        Attr { deprecated: Some(json!({"reason": "obsoleted", "note": "n"})), ..attr("b.a", json!("int")) },
        attr("a.b.t", json!("string")),
        attr("b.a.b", json!("string")),
        attr("t", json!("template[string]")),
        attr("t.a", json!("template[int]")),
        attr("t.a.b", json!("string")),
        Attr { deprecated: Some(json!({"reason": "renamed", "renamed_to": "a.b"})), ..attr("a.t", json!("template[string]")) },
    ];
    let mut names: Vec<String> = vec![];
    let mut layer: Vec<String> = vec![String::new()];
    for _ in 0..4 {
        layer = layer.iter().flat_map(|p| ["a", "b", "t"].map(|s| if p.is_empty() { s.to_owned() } else { format!("{p}.{s}") })).collect();
        names.extend(layer.iter().cloned());
    }
    for n in ["A", "a.B", "a_b", "a__b", "a.b_", "_a.b", "a..b", ".a", "a.", "1a.b", "a1.b", "a.1", "a.b-c", "a b", "a.b.é", "a.b ", "é", "a._b", "ab.a", "a.bb.t"] {
        names.push(n.into());
    }
    // A template's own name is not an observation of it.
    let subs: Vec<Vec<Attr>> = subsets(&pool).into_iter().filter(|s| thorough || s.len() <= 4).collect();
    let items: Vec<((bool, Option<bool>), Vec<Attr>)> = MODES.into_iter().flat_map(|m| subs.iter().cloned().map(move |s| (m, s))).filter(|((_, d), s)| !s.is_empty() && (d.is_none() || thorough || s.len() <= 2)).collect();
    chk.par(
        items.into_iter(),
        |((v2, d), s)| format!("names-{v2}{}-{}", d.map(|d| format!("-dep-{d}")).unwrap_or_default(), s.iter().map(|a| a.name.as_str()).collect::<Vec<_>>().join("+")),
        |chk, name, ((v2, dep), attrs)| {
            let reg = Registry { attrs, dep, ..Default::default() };
            let input = json!(reg.files(v2)[0].1);
            let d = chk.fresh("r");
            let loaded = match reg.resolve(&d, v2) {
                Ok(l) => l,
                Err(e) => {
                    chk.violation(name, name, input, "resolves", &e);
                    return;
                }
            };
            let mut c = checker(&loaded, Policy::Default, &d, None);
            let o = Oracle { reg: &reg, v2, policy: Policy::Default, modify: None };
            let samples: Vec<Value> = names
                .iter()
                .filter(|n| !reg.attrs.iter().any(|a| Oracle::is_template(a) && **n == a.name))
                .filter(|n| !reg.attrs.iter().any(|a| Oracle::is_template(a) && n.starts_with(&a.name) && !n.starts_with(&format!("{}.", a.name))))
                .map(|n| json!({"attribute": {"name": n, "value": "x"}}))
                .collect();
            chk.eval(&(v2, name), true);
            let _ = compare(chk, name, &input, &o, &mut c, &samples);
        },
    );
}
