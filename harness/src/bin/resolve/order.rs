//! C01: resolution does not depend on the order in which files are enumerated and parsed, nor on
//! how groups are split over files.
use harness::reg::*;
use harness::*;
use serde_json::{json, Value};
use std::path::Path;
use std::sync::Arc;

pub const SPEC: Spec = Spec {
    id: "C01",
    level: "exploration",
    rule: "Every subset (up to the stated size) of a pool of v1/v2 registry files that reference, extend, \
           refine, shadow and collide with each other; each subset is resolved once per permutation of the \
           directory enumeration order (without and with a dependency that defines some of the same attributes, entities and signals) (tmpfs enumerates in creation order; worker pools are single threaded so \
           the order of parsing is exactly the enumeration order), once per repeated run under fresh hash seeds, \
           and, when no definition is duplicated, once per order of groups merged into one file. Oracle: the full \
           serialised resolved schema and the sorted diagnostics are equal for all orders. Non-trivial: at least two files.",
    assumptions: &[
        "readdir order on tmpfs is controlled by creation order; the number of distinct orders actually realised is measured and reported",
        "hash-seed nondeterminism inside the resolver is sampled by repeated runs, not enumerated",
    ],
    run,
};

fn v1(body: &str) -> String {
    format!("groups:\n{body}")
}
fn v2(body: &str) -> String {
    format!("file_format: definition/2\n{body}")
}

/// (name, contents, defines-conflicting-attributes)
fn pool() -> Vec<(&'static str, String)> {
    vec![
        ("ag", v1("  - id: registry.x\n    type: attribute_group\n    brief: X\n    attributes:\n      - id: x.a\n        type: string\n        brief: xa\n        stability: stable\n        examples: ['e1']\n      - id: x.b\n        type: int\n        brief: xb\n        stability: development\n        note: nb\n")),
        ("ext", v1("  - id: attributes.y\n    type: attribute_group\n    brief: Y\n    extends: registry.x\n    attributes:\n      - ref: x.a\n        brief: refined by y\n        requirement_level: required\n")),
        ("span", v1("  - id: span.s\n    type: span\n    span_kind: client\n    brief: S\n    stability: stable\n    extends: attributes.y\n    attributes:\n      - ref: x.b\n        note: refined by s\n")),
        ("metric", v1("  - id: metric.m\n    type: metric\n    metric_name: m\n    instrument: counter\n    unit: '1'\n    brief: M\n    stability: stable\n    extends: attributes.y\n    attributes:\n      - ref: x.b\n        requirement_level: opt_in\n      - ref: v2.k\n")),
        ("prefix", v1("  - id: pfx\n    type: attribute_group\n    brief: P\n    prefix: pfx\n    attributes:\n      - id: own\n        type: boolean\n        brief: own\n        stability: stable\n      - ref: x.a\n        prefix: true\n")),
        ("pref", v1("  - id: pref.user\n    type: attribute_group\n    brief: PU\n    attributes:\n      - ref: pfx.x.a\n        brief: refined prefix\n      - ref: pfx.own\n")),
        ("dup1", v1("  - id: span.d1\n    type: span\n    span_kind: server\n    brief: D1\n    stability: stable\n    attributes:\n      - id: dup.k\n        type: string\n        brief: first definition\n        stability: stable\n        examples: ['a']\n")),
        ("dup2", v1("  - id: span.d2\n    type: span\n    span_kind: server\n    brief: D2\n    stability: stable\n    attributes:\n      - id: dup.k\n        type: int\n        brief: second definition\n        stability: development\n")),
        ("dupref", v1("  - id: span.d3\n    type: span\n    span_kind: server\n    brief: D3\n    stability: stable\n    attributes:\n      - ref: dup.k\n")),
        ("v2attr", v2("attributes:\n  - key: v2.k\n    type: string\n    brief: v2k\n    stability: stable\n    examples: ['z']\n  - key: v2.i\n    type: int\n    brief: v2i\n    stability: development\nattribute_groups:\n  - id: g.one\n    visibility: public\n    brief: G1\n    stability: stable\n    attributes:\n      - ref: v2.k\n        requirement_level: required\n")),
        ("v2grp", v2("attribute_groups:\n  - id: g.two\n    visibility: internal\n    attributes:\n      - ref_group: g.one\n      - ref: v2.i\n        note: from g2\n")),
        ("v2ent", v2("entities:\n  - type: e1\n    brief: E1\n    stability: stable\n    identity:\n      - ref: v2.k\n    description:\n      - ref: v2.i\n")),
        ("v2met", v2("metrics:\n  - name: vm\n    instrument: gauge\n    unit: s\n    brief: VM\n    stability: stable\n    entity_associations: [e1]\n    attributes:\n      - ref_group: g.two\n      - ref: v2.k\n        brief: refined by vm\n")),
        ("v2ref", v2("metric_refinements:\n  - id: vm.r1\n    ref: vm\n    brief: VMR1\n    attributes:\n      - ref: v2.i\n        requirement_level: required\n")),
        ("v2ref2", v2("event_refinements:\n  - id: ev.r\n    ref: ev\n    attributes:\n      - ref: v2.k\n        note: evr\nevents:\n  - name: ev\n    brief: EV\n    stability: stable\n    attributes:\n      - ref: v2.i\n")),
        ("imp", v2("imports:\n  metrics: ['dep.*']\n  events: ['nope.*']\n")),
        ("depext", v1("  - id: span.dx\n    type: span\n    span_kind: server\n    brief: DX\n    stability: stable\n    extends: registry.dep\n    attributes:\n      - ref: dup.k\n        note: noted\n")),
        ("inl", v1("  - id: metric.inl\n    type: metric\n    metric_name: inl\n    instrument: counter\n    unit: '1'\n    brief: I\n    stability: stable\n    attributes:\n      - id: x.a\n        type: string\n        brief: inline xa\n        stability: stable\n        examples: ['q']\n")),
        ("bad1", v1("  - id: bad.1\n    type: span\n    nonsense: 1\n")),
        ("bad2", "groups: [".to_owned()),
        ("bad3", v1("  - id: bad.3\n    type: metric\n    brief: no metric name\n    stability: stable\n")),
        ("clash", v1("  - id: metric.m\n    type: metric\n    metric_name: m\n    instrument: gauge\n    unit: s\n    brief: clash\n    stability: stable\n")),
    ]
}

/// A dependency defining some of the attributes and groups the pool uses.
fn write_dep(dir: &Path) {
    let dep: Files = vec![
        ("manifest.yaml".into(), "schema_url: https://d.org/dep/1.0.0\n".into()),
        ("d1.yaml".into(), v1("  - id: registry.dep\n    type: attribute_group\n    brief: D\n    attributes:\n      - id: dup.k\n        type: double\n        brief: dep dup.k\n        stability: stable\n      - id: x.a\n        type: string\n        brief: dep xa\n        stability: stable\n        examples: ['d']\n      - id: x.b\n        type: int\n        brief: dep xb\n        stability: stable\n  - id: metric.dep.m\n    type: metric\n    metric_name: dep.m\n    instrument: counter\n    unit: '1'\n    brief: DM\n    stability: stable\n    attributes:\n      - ref: dup.k\n        brief: refined in dep\n")),
        ("d2.yaml".into(), v2("attributes:\n  - key: v2.k\n    type: string\n    brief: dep v2k\n    stability: stable\n    examples: ['z']\n  - key: v2.i\n    type: int\n    brief: dep v2i\n    stability: stable\nentities:\n  - type: e1\n    brief: dep E1\n    stability: stable\n    identity:\n      - ref: v2.k\nmetrics:\n  - name: dep.n\n    instrument: gauge\n    unit: s\n    brief: DN\n    stability: stable\n    entity_associations: [e1]\n    attributes:\n      - ref: v2.i\n")),
    ];
    write_files(dir, &dep);
}

fn manifest(dep: &Path) -> (String, String) {
    ("manifest.yaml".into(), format!("schema_url: https://d.org/app/1.0.0\ndependencies:\n  - schema_url: https://d.org/dep/1.0.0\n    registry_path: {}\n", dep.display()))
}

fn outcome(dir: &Path) -> (String, String) {
    let r = resolve_dir(dir);
    let root = dir.display().to_string();
    let schema = r
        .v1()
        .map(|s| schema_value(s).to_string().replace(&root, "$ROOT"))
        .unwrap_or_default();
    let class = r.class();
    (json!({"schema": schema, "fatal": r.fatal, "nfes": r.nfes}).to_string(), class)
}

fn strip_provenance(v: &mut Value) {
    match v {
        Value::Object(m) => {
            let _ = m.remove("provenance");
            for (_, x) in m.iter_mut() {
                strip_provenance(x);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(strip_provenance),
        _ => {}
    }
}

fn outcome_no_provenance(dir: &Path) -> String {
    let r = resolve_dir(dir);
    let mut v = r.v1().map(|s| schema_value(s)).unwrap_or_default();
    strip_provenance(&mut v);
    let mut classes: Vec<String> = r.fatal.iter().chain(diag(&r).iter()).map(|e| variant(e)).collect();
    classes.sort();
    json!({"schema": v, "diag": classes}).to_string()
}

fn run(chk: &Arc<Check>) {
    let pool = pool();
    let max = if chk.thorough() { 5 } else { 4 };
    let mut sets: Vec<Vec<usize>> = subsets(&(0..pool.len()).collect::<Vec<_>>())
        .into_iter()
        .filter(|s| s.len() >= 2 && s.len() <= max)
        .collect();
    // Larger, mostly closed registries: the two definition files plus up to `max - 1` others.
    let base: Vec<usize> = ["ag", "v2attr"].iter().map(|n| pool.iter().position(|p| p.0 == *n).expect("base")).collect();
    let extra: Vec<Vec<usize>> = sets
        .iter()
        .filter(|s| s.len() < max && base.iter().all(|b| !s.contains(b)))
        .map(|s| base.iter().chain(s.iter()).copied().collect())
        .collect();
    sets.extend(extra);
    sets.sort();
    sets.dedup();
    sets.sort_by_key(|s| s.len());
    let realised = std::sync::atomic::AtomicU64::new(0);
    let wanted = std::sync::atomic::AtomicU64::new(0);
    let cases = sets
        .iter()
        .map(|s| (s.clone(), false))
        .chain(sets.iter().filter(|s| s.len() < max || s.len() == max && base.iter().all(|b| s.contains(b))).map(|s| (s.clone(), true)))
        .collect::<Vec<_>>();
    chk.par(
        cases.into_iter(),
        |(s, dep)| s.iter().map(|i| pool[*i].0).collect::<Vec<_>>().join("+") + if *dep { "/dep" } else { "" },
        |chk, name, (set, with_dep)| {
            let dep = chk.fresh("dep");
            if with_dep {
                write_dep(&dep);
            }
            let with_manifest = |mut files: Files| -> Files {
                if with_dep {
                    files.push(manifest(&dep));
                }
                files
            };
            // With 4-5 files use: all permutations up to 4, and in thorough all 120 of 5.
            let perms = permutations(set.len());
            let mut first: Option<(String, Vec<String>)> = None;
            let mut seen_orders = std::collections::HashSet::new();
            for p in &perms {
                let dir = chk.fresh("reg");
                let files: Files = p
                    .iter()
                    .map(|k| (format!("{}.yaml", pool[set[*k]].0), pool[set[*k]].1.clone()))
                    .collect();
                let files = with_manifest(files);
                write_files(&dir, &files);
                let order: Vec<String> = std::fs::read_dir(&dir)
                    .expect("read_dir")
                    .map(|e| e.expect("entry").file_name().to_string_lossy().into_owned())
                    .collect();
                let _ = seen_orders.insert(order.clone());
                let (o, class) = outcome(&dir);
                chk.eval(&(name, p), true);
                match &first {
                    None => {
                        chk.outcome(&class);
                        chk.sample(|| json!({"files": name, "order": order, "class": class}));
                        first = Some((o, order));
                    }
                    Some((f, ford)) => {
                        if *f != o {
                            chk.violation(
                                name,
                                name,
                                json!({"files": files, "order_a": ford, "order_b": order}),
                                f,
                                &o,
                            );
                            return;
                        }
                    }
                }
            }
            let _ = realised.fetch_add(seen_orders.len() as u64, std::sync::atomic::Ordering::Relaxed);
            let _ = wanted.fetch_add(perms.len() as u64, std::sync::atomic::Ordering::Relaxed);
            // Distribution over files: merge groups of the same format in every order.
            let names: Vec<&str> = set.iter().map(|i| pool[*i].0).collect();
            let dup = names.contains(&"dup1") && names.contains(&"dup2")
                || names.contains(&"ag") && names.contains(&"inl")
                || names.contains(&"clash") && names.contains(&"metric");
            if !dup && set.len() <= max && !names.iter().any(|n| n.starts_with("bad")) {
                let dir = chk.fresh("reg");
                let files: Files = set.iter().map(|k| (format!("{}.yaml", pool[*k].0), pool[*k].1.clone())).collect();
                let files = with_manifest(files);
                write_files(&dir, &files);
                let base = outcome_no_provenance(&dir);
                for p in &perms {
                    // (a) all v1 groups in one file, in this order
                    let mut v1s = String::new();
                    let mut merged: Files = vec![];
                    // (b) one file each, renamed so that path order is this order
                    let mut renamed: Files = vec![];
                    for (pos, k) in p.iter().enumerate() {
                        let (n, c) = &pool[set[*k]];
                        if let Some(b) = c.strip_prefix("groups:\n") {
                            v1s.push_str(b);
                        } else {
                            merged.push((format!("{n}.yaml"), c.clone()));
                        }
                        renamed.push((format!("p{pos}_{n}.yaml"), c.clone()));
                    }
                    if !v1s.is_empty() {
                        merged.push(("deep/er/all.yaml".into(), v1(&v1s)));
                    }
                    for (kind, files) in [("merged", merged), ("renamed", renamed)] {
                        let dir = chk.fresh("reg");
                        let files = with_manifest(files);
                        write_files(&dir, &files);
                        let mut o = outcome_no_provenance(&dir);
                        for pos in 0..p.len() {
                            o = o.replace(&format!("p{pos}_"), "");
                        }
                        chk.eval(&(name, kind, p), true);
                        if o != base {
                            chk.violation(name, name, json!({"kind": kind, "files": files}), &base, &o);
                            return;
                        }
                    }
                }
            }
        },
    );
    chk.note("enumeration_orders_wanted", json!(wanted.into_inner()));
    chk.note("enumeration_orders_realised", json!(realised.into_inner()));
}
