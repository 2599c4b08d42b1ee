//! C05: duplicate and colliding definitions are reported, exactly.
use harness::reg::*;
use harness::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const SPEC: Spec = Spec {
    id: "C05",
    level: "exploration",
    rule: "Exhaustive: every multiset (quick: <= 5, thorough: <= 6) of declarations drawn from a pool of colliding and non-colliding v1/v2 groups, signals, \
           refinements and attribute definitions (same id / same metric name / same name / same v2 id / same attribute), in separate files and merged into one file per syntax; \
           for the smaller multisets also every subset of the declarations carrying `deprecated`, another stability, annotations or a note. \
           Oracle: an independent computation of which keys are claimed more than once; the reported set of (kind, key) and the groups named must be equal to it. \
           Non-trivial: at least two declarations.",
    assumptions: &[],
    run,
};

#[derive(Clone)]
struct Decl {
    v2: bool,
    /// list the declaration belongs to ("groups" for v1)
    list: &'static str,
    body: Value,
    /// model of the resulting group
    id: &'static str,
    ty: &'static str,
    metric_name: Option<&'static str>,
    name: Option<&'static str>,
    /// v2 refinement
    v2ref: bool,
    /// refines a group of its own type
    refines: bool,
    /// root attributes defined
    attrs: &'static [&'static str],
    /// needs this group id to resolve
    needs: Option<&'static str>,
}

fn d(v2: bool, list: &'static str, id: &'static str, ty: &'static str, body: Value) -> Decl {
    Decl { v2, list, body, id, ty, metric_name: None, name: None, v2ref: false, refines: false, attrs: &[], needs: None }
}

fn pool() -> Vec<Decl> {
    let ag = |id: &'static str, attr: &'static str, attrs: &'static [&'static str]| {
        let mut x = d(false, "groups", id, "attribute_group", json!({"id": id, "type": "attribute_group", "brief": "b", "attributes": [{"id": attr, "type": "int", "brief": "b", "stability": "stable"}]}));
        x.attrs = attrs;
        x
    };
    let span = |id: &'static str| d(false, "groups", id, "span", json!({"id": id, "type": "span", "span_kind": "client", "brief": "b", "stability": "stable"}));
    let metric = |id: &'static str, n: &'static str| {
        let mut x = d(false, "groups", id, "metric", json!({"id": id, "type": "metric", "metric_name": n, "instrument": "counter", "unit": "1", "brief": "b", "stability": "stable"}));
        x.metric_name = Some(n);
        x
    };
    let named = |id: &'static str, ty: &'static str, n: &'static str| {
        let mut x = d(false, "groups", id, ty, json!({"id": id, "type": ty, "name": n, "brief": "b", "stability": "stable"}));
        x.name = Some(n);
        x
    };
    let mut out = vec![
        ag("registry.x", "x.a", &["x.a"]),
        ag("registry.y", "x.a", &["x.a"]),
        ag("registry.z", "x.b", &["x.b"]),
        span("span.n"),
        span("n"),
        metric("metric.n", "n"),
        metric("metric.other", "n"),
        metric("metric.k", "k"),
        named("event.n", "event", "n"),
        named("event.other", "event", "n"),
        named("entity.n", "entity", "n"),
        named("resource.n", "entity", "n"),
        named("event.q", "event", "q"),
    ];
    // v1 metric extending a metric (refinement by type)
    let mut x = metric("metric.sub", "n");
    x.body["extends"] = json!("metric.n");
    x.refines = true;
    x.needs = Some("metric.n");
    out.push(x);
    // v1 group that only references
    out.push(d(false, "groups", "attributes.u", "attribute_group", json!({"id": "attributes.u", "type": "attribute_group", "brief": "b", "attributes": [{"ref": "x.b"}]})));
    out.last_mut().expect("last").needs = Some("registry.z");
    // v2
    let mut x = d(true, "metrics", "metric.n", "metric", json!({"name": "n", "instrument": "gauge", "unit": "1", "brief": "b", "stability": "stable"}));
    x.metric_name = Some("n");
    out.push(x);
    let mut x = d(true, "events", "event.n", "event", json!({"name": "n", "brief": "b", "stability": "stable"}));
    x.name = Some("n");
    out.push(x);
    out.push(d(true, "spans", "span.n", "span", json!({"type": "n", "kind": "client", "name": {"note": "x"}, "brief": "b", "stability": "stable"})));
    out.last_mut().expect("last").name = Some("n");
    let mut x = d(true, "entities", "entity.q", "entity", json!({"type": "q", "brief": "b", "stability": "stable", "identity": [{"ref": "x.b"}]}));
    x.name = Some("q");
    x.needs = Some("registry.z");
    out.push(x);
    // refinements: one with its own id, one that takes the id of the base
    for id in ["n.r", "n"] {
        let mut x = d(true, "metric_refinements", id, "metric", json!({"id": id, "ref": "n"}));
        x.metric_name = Some("n");
        x.v2ref = true;
        x.refines = true;
        x.needs = Some("metric.n");
        out.push(x);
    }
    let mut x = d(true, "span_refinements", "n.r", "span", json!({"id": "n.r", "ref": "n"}));
    x.v2ref = true;
    x.refines = true;
    x.needs = Some("span.n");
    out.push(x);
    // v2 attribute definitions live in a group synthesised per file
    let mut x = d(true, "attributes", "registry.V2", "attribute_group", json!({"key": "x.a", "type": "int", "brief": "b", "stability": "stable"}));
    x.attrs = &["x.a"];
    out.push(x);
    let mut x = d(true, "attribute_groups", "g.n", "attribute_group", json!({"id": "g.n", "visibility": "public", "brief": "b", "stability": "stable"}));
    x.attrs = &[];
    out.push(x);
    out
}

/// Drops one `<type>.` prefix.
fn strip<'a>(ty: &str, id: &'a str) -> &'a str {
    id.strip_prefix(&format!("{ty}.")).unwrap_or(id)
}

fn expected(ds: &[&Decl], file: &dyn Fn(usize) -> String) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let dup = |key: &dyn Fn(&Decl) -> Option<&'static str>| -> Vec<(String, BTreeSet<String>)> {
        let mut n: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (i, d) in ds.iter().enumerate() {
            if let Some(k) = key(d) {
                n.entry(k.to_owned()).or_default().push(file(i));
            }
        }
        n.into_iter().filter(|(_, c)| c.len() > 1).map(|(k, c)| (k, c.into_iter().collect())).collect()
    };
    for (k, f) in dup(&|d| Some(d.id).filter(|id| *id != "registry.V2")) {
        let _ = out.insert(format!("group id {k} in {f:?}"));
    }
    for (k, f) in dup(&|d| d.metric_name.filter(|_| !d.v2ref)) {
        let _ = out.insert(format!("metric name {k} in {f:?}"));
    }
    for (k, f) in dup(&|d| d.name.filter(|_| !d.v2ref)) {
        let _ = out.insert(format!("name {k} in {f:?}"));
    }
    let mut by: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
    for d in ds {
        for a in d.attrs {
            by.entry(a).or_default().push(d.id);
        }
    }
    for (a, mut gs) in by {
        if gs.len() > 1 {
            gs.sort();
            let _ = out.insert(format!("attribute {a} in {gs:?}"));
        }
    }
    let mut ns: BTreeMap<(&str, String), BTreeSet<&str>> = BTreeMap::new();
    for d in ds {
        let id = match d.ty {
            "span" | "attribute_group" => strip(d.ty, d.id).to_owned(),
            _ if d.refines => strip(d.ty, d.id).to_owned(),
            "metric" => d.metric_name.expect("metric").to_owned(),
            _ => d.name.map(str::to_owned).unwrap_or(strip(d.ty, d.id).to_owned()),
        };
        let _ = ns.entry((d.ty, id)).or_default().insert(d.id);
    }
    for ((_, id), gs) in ns {
        if gs.len() > 1 {
            let _ = out.insert(format!("v2 id {id} of {gs:?}"));
        }
    }
    out
}

fn observed(r: &Res) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for e in diag(r) {
        let v = variant(&e);
        let b: Value = serde_json::from_str(&e[v.len()..]).unwrap_or_default();
        let list = |k: &str| -> Vec<String> {
            let mut l: Vec<String> = b[k].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("?").to_owned()).map(|x| if x.starts_with("registry.") && x.len() > 10 { "registry.V2".to_owned() } else { x }).collect()).unwrap_or_default();
            l.sort();
            l
        };
        let s = |k: &str| b[k].as_str().unwrap_or("?").to_owned();
        let files: BTreeSet<String> = b["provenances"]
            .as_array()
            .map(|a| a.iter().map(|p| p["path"].as_str().unwrap_or("?").rsplit('/').next().unwrap_or("?").to_owned()).collect())
            .unwrap_or_default();
        match v.as_str() {
            "DuplicateGroupId" => drop(out.insert(format!("group id {} in {files:?}", s("group_id")))),
            "DuplicateMetricName" => drop(out.insert(format!("metric name {} in {files:?}", s("metric_name")))),
            "DuplicateGroupName" => drop(out.insert(format!("name {} in {files:?}", s("group_name")))),
            "DuplicateAttributeId" => drop(out.insert(format!("attribute {} in {:?}", s("attribute_id"), list("group_ids")))),
            "CollidingV2SignalId" => drop(out.insert(format!("v2 id {} of {}", s("signal_id"), format_args!("{{{}}}", list("group_ids").iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", "))))),
            _ => {}
        }
    }
    for e in &r.fatal {
        let _ = out.insert(format!("FATAL {e}"));
    }
    out
}

/// Things that may be said about any declaration without changing what it claims.
const DECOR: &[(&str, &str)] = &[
    ("deprecated", r#"{"reason": "obsoleted", "note": "n"}"#),
    ("stability", r#""development""#),
    ("annotations", r#"{"k": {"v": 1}}"#),
    ("note", r#""a note""#),
];

fn run(chk: &Arc<Check>) {
    let pool = pool();
    let max = if chk.thorough() { 6 } else { 5 };
    let mut sets: Vec<Vec<usize>> = vec![];
    fn go(start: usize, n: usize, left: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if !cur.is_empty() {
            out.push(cur.clone());
        }
        if left == 0 {
            return;
        }
        for i in start..n {
            cur.push(i);
            go(i, n, left - 1, cur, out);
            let _ = cur.pop();
        }
    }
    go(0, pool.len(), max, &mut vec![], &mut sets);
    // keep only the sets whose references resolve
    sets.retain(|s| s.iter().all(|i| pool[*i].needs.is_none_or(|n| s.iter().any(|j| pool[*j].id == n))));
    // decorations: (what, bit mask of the declarations that carry it)
    let dmax = if chk.thorough() { 4 } else { 3 };
    let cases = sets.iter().flat_map(|s| {
        let mut out = vec![(s, false, 0usize, 0usize), (s, true, 0, 0)];
        if s.len() > 1 && s.len() <= dmax {
            for what in 1..=DECOR.len() {
                for mask in 1..1usize << s.len() {
                    out.push((s, false, what, mask));
                    out.push((s, true, what, mask));
                }
            }
        }
        out
    });
    chk.par(
        cases,
        |(s, one, what, mask)| format!("{}-{}-{what}.{mask}", s.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("."), if *one { "one" } else { "many" }),
        |chk, name, (s, one, what, mask)| {
            let owned: Vec<Decl> = s
                .iter()
                .enumerate()
                .map(|(pos, i)| {
                    let mut d = pool[*i].clone();
                    if what > 0 && mask & (1 << pos) != 0 {
                        let (k, v) = &DECOR[what - 1];
                        d.body[*k] = serde_json::from_str(v).expect("json");
                    }
                    d
                })
                .collect();
            let ds: Vec<&Decl> = owned.iter().collect();
            let mut files: Files = vec![];
            let wrap = |v2: bool, items: &[&Decl]| -> String {
                let mut doc = if v2 { json!({"file_format": "definition/2"}) } else { json!({}) };
                for i in items {
                    if doc[i.list].is_null() {
                        doc[i.list] = json!([]);
                    }
                    doc[i.list].as_array_mut().expect("arr").push(i.body.clone());
                }
                doc.to_string()
            };
            if one {
                for v2 in [false, true] {
                    let items: Vec<&Decl> = ds.iter().filter(|d| d.v2 == v2).copied().collect();
                    if !items.is_empty() {
                        files.push((if v2 { "v2.yaml" } else { "v1.yaml" }.into(), wrap(v2, &items)));
                    }
                }
            } else {
                for (i, d) in ds.iter().enumerate() {
                    files.push((format!("f{i}.yaml"), wrap(d.v2, &[d])));
                }
            }
            let dir = chk.fresh("reg");
            write_files(&dir, &files);
            let r = resolve_dir(&dir);
            let exp = expected(&ds, &|i| if one { if ds[i].v2 { "v2.yaml".into() } else { "v1.yaml".into() } } else { format!("f{i}.yaml") });
            let act = observed(&r);
            chk.eval(&(name, &act), ds.len() > 1);
            chk.outcome(if exp.is_empty() { "clean" } else { "reported" });
            chk.sample(|| json!({"case": name, "reported": act}));
            let _ = chk.expect_eq(name, || json!(files), &format!("{exp:?}"), &format!("{act:?}"));
        },
    );
}
