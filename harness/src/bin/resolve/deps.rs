//! C06: what a registry can see of its dependencies.
use harness::reg::*;
use harness::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::Arc;
use weaver_resolver::WeaverResolver;

pub const SPEC: Spec = Spec {
    id: "C06",
    level: "exploration",
    rule: "Exhaustive: (A) every kind of signal x v1/v2 syntax x source/packaged dependency x exclusion mark of two signals x every subset of five import patterns (exact, glob, suffix, full id, missing) x \
           --include-unreferenced x an import of another kind; (B) attribute references with the attribute absent/public/excluded locally and in each of two dependencies x referring group kinds x referring group excluded or not x \
           manifest order x dependency formats; (C) extends and v2 refinements of absent/public/excluded targets, locally and in a dependency; (D) entity associations over absent/public/excluded/re-exported entities; \
           (E) diagnostics of a direct or transitive dependency. Oracle: an independent visibility model. Non-trivial: a dependency takes part.",
    assumptions: &["which of several possible errors is reported for a reference that two dependencies both hide is not part of the property"],
    run,
};

const KINDS: [&str; 5] = ["metric", "event", "span", "entity", "attribute_group"];
const FIELDS: [&str; 5] = ["metrics", "events", "spans", "entities", "attribute_groups"];

fn excl(code: usize) -> Option<Value> {
    match code {
        1 => Some(json!({"dependency_resolution": {"exclude": true}})),
        2 => Some(json!({"dependency_resolution": {"exclude": false}, "other": 1})),
        _ => None,
    }
}

/// A signal of `kind` named `name`; returns (list, body) in the given syntax.
fn signal(v2: bool, kind: usize, name: &str, ex: usize, attrs: Value) -> (String, Value) {
    let mut b = json!({"brief": format!("brief of {name}"), "note": format!("note of {name}"), "stability": "stable"});
    if let Some(a) = excl(ex) {
        b["annotations"] = a;
    }
    if v2 {
        match kind {
            0 => {
                b["name"] = json!(name);
                b["instrument"] = json!("gauge");
                b["unit"] = json!("By");
            }
            1 => b["name"] = json!(name),
            2 => {
                b["type"] = json!(name);
                b["kind"] = json!("server");
                b["name"] = json!({"note": "n"});
            }
            3 => {
                b["type"] = json!(name);
            }
            _ => {
                b["id"] = json!(name);
                b["visibility"] = json!("public");
            }
        }
        b[if kind == 3 { "identity" } else { "attributes" }] = attrs;
        (FIELDS[kind].to_owned(), b)
    } else {
        b["type"] = json!(KINDS[kind]);
        b["id"] = json!(if kind == 4 { name.to_owned() } else { format!("{}.{name}", KINDS[kind]) });
        match kind {
            0 => {
                b["metric_name"] = json!(name);
                b["instrument"] = json!("gauge");
                b["unit"] = json!("By");
            }
            1 | 3 => b["name"] = json!(name),
            2 => b["span_kind"] = json!("server"),
            _ => {}
        }
        b["attributes"] = attrs;
        ("groups".to_owned(), b)
    }
}

fn docs(items: Vec<(String, Value)>) -> Files {
    let mut v1 = json!({});
    let mut v2 = json!({"file_format": "definition/2"});
    for (l, b) in items {
        let d = if l == "groups" { &mut v1 } else { &mut v2 };
        if d[&l].is_null() {
            d[&l] = json!([]);
        }
        d[&l].as_array_mut().expect("arr").push(b);
    }
    let mut out = vec![];
    if v1.get("groups").is_some() {
        out.push(("one.yaml".to_owned(), v1.to_string()));
    }
    if v2.as_object().expect("obj").len() > 1 {
        out.push(("two.yaml".to_owned(), v2.to_string()));
    }
    out
}

fn attr_def(v2: bool, key: &str, brief: &str, ex: usize) -> (String, Value) {
    let mut a = json!({"type": "int", "brief": brief, "stability": "stable"});
    if let Some(x) = excl(ex) {
        a["annotations"] = x;
    }
    if v2 {
        a["key"] = json!(key);
        ("attributes".to_owned(), a)
    } else {
        a["id"] = json!(key);
        ("groups".to_owned(), json!({"id": format!("registry.{key}"), "type": "attribute_group", "brief": "d", "attributes": [a]}))
    }
}

/// Writes a dependency (source or packaged) and returns the path to name in a manifest.
fn write_dep(root: &Path, name: &str, files: Files, deps: &[(String, String)], packaged: bool) -> Result<(String, String), String> {
    let src = root.join(name);
    let url = format!("https://d.org/{name}/1.0.0");
    write_files(&src, &[manifest_file(&url, deps)]);
    write_files(&src, &files);
    if packaged {
        let out = root.join(format!("{name}-pkg"));
        publish(&src, &out)?;
        Ok((url, out.display().to_string()))
    } else {
        Ok((url, src.display().to_string()))
    }
}

fn glob(p: &str, s: &str) -> bool {
    match p.split_once('*') {
        None => p == s,
        Some((a, b)) => s.len() >= a.len() + b.len() && s.starts_with(a) && s.ends_with(b),
    }
}

fn v2id<'a>(ty: &str, id: &'a str) -> &'a str {
    id.strip_prefix(&format!("{ty}.")).unwrap_or(id)
}

fn groups_of(r: &Res) -> Vec<Value> {
    match r.v1().map(expand_v1) {
        Some(Ok(Value::Array(a))) => a,
        Some(Err(e)) => vec![json!({"id": e, "type": "BROKEN"})],
        _ => vec![],
    }
}

fn run_imports(chk: &Arc<Check>) {
    // kind, syntax, excl one, excl two, patterns, unreferenced, packaged, decoy
    chk.par(
        product(&[5, 2, 3, 3, 32, 2, 2, 2]),
        |v| format!("imp-{}", v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(".")),
        |chk, name, v| {
            let (kind, v2, packaged, unref, decoy) = (v[0], v[1] == 1, v[6] == 1, v[5] == 1, v[7] == 1);
            if packaged && kind == 4 && !v2 {
                return; // a v1 attribute group is not part of a package
            }
            let root = chk.fresh("deps");
            let attrs = json!([{"ref": "x.k", "brief": "refined", "requirement_level": "required"}]);
            let names = ["p.one", "p.two"];
            let mut items: Vec<(String, Value)> = (0..2).map(|i| signal(v2, kind, names[i], v[2 + i], attrs.clone())).collect();
            let other = (kind + 1) % 5;
            items.push(signal(true, other, "p.one.decoy", 0, attrs.clone()));
            items.push(attr_def(true, "x.k", "def", 0));
            let dep = match write_dep(&root, "dep", docs(items), &[], packaged) {
                Ok(d) => d,
                Err(e) => {
                    chk.violation(name, name, json!(null), "the dependency packages", &e);
                    return;
                }
            };
            let pats = ["p.one", "p.*", "*two", &format!("{}.p.two", KINDS[kind]), "nope"];
            let used: Vec<&str> = (0..5).filter(|b| v[4] & (1 << b) != 0).map(|b| pats[b]).collect();
            let mut imports = Map::new();
            if !used.is_empty() {
                let _ = imports.insert(FIELDS[kind].into(), json!(used));
            }
            if decoy {
                let _ = imports.insert(FIELDS[other].into(), json!(["*decoy"]));
            }
            let app = root.join("app");
            write_files(&app, &[manifest_file("https://d.org/app/1.0.0", &[dep])]);
            write_files(&app, &[("i.yaml".into(), json!({"file_format": "definition/2", "imports": imports}).to_string())]);
            // model
            let keys = |i: usize| -> Vec<String> {
                let n = names[i].to_owned();
                let full = format!("{}.{n}", KINDS[kind]);
                if packaged || kind == 4 {
                    vec![n]
                } else if v2 || kind == 3 {
                    vec![full, n]
                } else if kind == 2 {
                    vec![full]
                } else {
                    vec![n]
                }
            };
            let mut denied = BTreeSet::new();
            let mut imported = BTreeSet::new();
            for i in 0..2 {
                let explicit = used.iter().any(|p| keys(i).iter().any(|k| glob(p, k)));
                if v[2 + i] == 1 {
                    if explicit {
                        let _ = denied.insert(names[i].to_owned());
                    }
                } else if explicit || unref {
                    let _ = imported.insert(names[i].to_owned());
                }
            }
            let mut unmatched: BTreeSet<String> = used.iter().filter(|p| !(0..2).any(|i| imported.contains(names[i]) && keys(i).iter().any(|k| glob(p, k)))).map(|p| format!("{}:{p}", FIELDS[kind])).collect();
            let decoy_in = decoy || unref;
            if !denied.is_empty() {
                unmatched.clear();
                imported.clear();
            }
            let exp = json!({"denied": denied, "imported": imported, "unmatched": unmatched, "decoy": denied.is_empty() && decoy_in});
            // observe
            let mut cfg = config();
            cfg.include_unreferenced = unref;
            let mut w = WeaverResolver::new(cfg);
            let r = resolve_with(&mut w, &app, &root);
            let body = |e: &String| -> Value { serde_json::from_str(&e[variant(e).len()..]).unwrap_or_default() };
            let mut den = BTreeSet::new();
            for e in &r.fatal {
                if variant(e) == "ExcludedFromDependencyResolution" {
                    let _ = den.insert(v2id(KINDS[kind], body(e)["id"].as_str().unwrap_or("?")).to_owned());
                } else {
                    let _ = den.insert(e.clone());
                }
            }
            let unm: BTreeSet<String> = r.nfes.iter().filter(|e| variant(e) == "UnmatchedImport").map(|e| format!("{}:{}", body(e)["signal"].as_str().unwrap_or("?"), body(e)["pattern"].as_str().unwrap_or("?"))).collect();
            let gs = groups_of(&r);
            let mut imp = BTreeSet::new();
            let mut dec = false;
            for g in &gs {
                let ty = g["type"].as_str().unwrap_or("?");
                let id = v2id(ty, g["id"].as_str().unwrap_or("?"));
                if id.starts_with("registry.") {
                    continue;
                }
                if ty == KINDS[other] && id == "p.one.decoy" {
                    dec = true;
                } else {
                    let mut label = id.to_owned();
                    if ty != KINDS[kind] || !imp.insert(label.clone()) {
                        label = format!("BAD {ty} {id}");
                        let _ = imp.insert(label);
                    }
                }
                // the imported definition is the dependency's
                let nm = if dec && id == "p.one.decoy" { "p.one.decoy" } else { id };
                let at = &g["attributes"][0];
                let mut want = json!({"brief": format!("brief of {nm}"), "note": format!("note of {nm}"), "stability": "stable", "attr": "x.k", "attr_brief": "refined", "level": "required", "n": 1});
                let mut got = json!({"brief": g["brief"], "note": g["note"], "stability": g["stability"], "attr": at["name"], "attr_brief": at["brief"], "level": at["requirement_level"], "n": g["attributes"].as_array().map(|a| a.len())});
                let mut extra = |k: &str, w: Value| {
                    want[k] = w;
                    got[k] = g[k].clone();
                };
                match ty {
                    "metric" => {
                        extra("metric_name", json!(nm));
                        extra("instrument", json!("gauge"));
                        extra("unit", json!("By"));
                    }
                    "span" => extra("span_kind", json!("server")),
                    "event" => extra("name", json!(nm)),
                    "entity" => {
                        extra("name", json!(nm));
                        if v2 {
                            want["role"] = json!("identifying");
                            got["role"] = at["role"].clone();
                        }
                    }
                    _ => {}
                }
                if want != got {
                    chk.violation(name, name, json!({"app": imports}), &want.to_string(), &got.to_string());
                    return;
                }
            }
            let act = json!({"denied": den, "imported": imp, "unmatched": unm, "decoy": dec});
            chk.eval(&(name, act.to_string()), v[4] > 0 || unref);
            chk.outcome(if !denied.is_empty() { "import-denied" } else if !unmatched.is_empty() { "import-unmatched" } else if imported.is_empty() { "import-nothing" } else { "imported" });
            chk.sample(|| json!({"imports": imports, "outcome": act}));
            let _ = chk.expect_eq(name, || json!({"imports": imports, "dep": root.join("dep").display().to_string()}), &exp.to_string(), &act.to_string());
        },
    );
}

/// Builds a registry with up to two dependencies holding `what(state, who)` and an app.
struct World {
    root: std::path::PathBuf,
    deps: Vec<(String, String)>,
}

fn world(chk: &Arc<Check>, parts: &[Option<(Files, bool)>], reverse: bool) -> Result<World, String> {
    let root = chk.fresh("deps");
    let mut deps = vec![];
    for (i, p) in parts.iter().enumerate() {
        if let Some((files, packaged)) = p {
            deps.push(write_dep(&root, &format!("dep{}", i + 1), files.clone(), &[], *packaged)?);
        }
    }
    if reverse {
        deps.reverse();
    }
    Ok(World { root, deps })
}

fn run_refs(chk: &Arc<Check>) {
    // local, dep1, dep2: 0 none 1 public 2 excluded; user kind; user excluded; order; fmt1; fmt2; definers' syntax
    chk.par(
        product(&[3, 3, 3, 4, 2, 2, 2, 2, 2]),
        |v| format!("ref-{}", v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(".")),
        |chk, name, v| {
            let (local, d1, d2) = (v[0], v[1], v[2]);
            if d1 == 0 && v[6] == 1 || d2 == 0 && v[7] == 1 {
                return;
            }
            let def2 = v[8] == 1;
            let def = |st: usize, who: &str| -> Option<Files> {
                match st {
                    0 => None,
                    s => Some(docs(vec![attr_def(def2, "x.a", who, if s == 2 { 1 } else { 0 }), attr_def(true, "x.other", "o", 0)])),
                }
            };
            let w = match world(chk, &[def(d1, "dep1").map(|f| (f, v[6] == 1)), def(d2, "dep2").map(|f| (f, v[7] == 1))], v[5] == 1) {
                Ok(w) => w,
                Err(e) => return chk.violation(name, name, json!(null), "the dependency packages", &e),
            };
            let uexc = v[4] == 1;
            let attrs = json!([{"ref": "x.a", "note": "noted"}]);
            let (uk, uv2) = [(2, false), (0, true), (4, false), (4, true)][v[3]];
            let mut items = vec![signal(uv2, uk, "user", if uexc { 1 } else { 0 }, attrs)];
            if local > 0 {
                items.push(attr_def(def2, "x.a", "local", if local == 2 { 1 } else { 0 }));
            }
            let app = w.root.join("app");
            write_files(&app, &[manifest_file("https://d.org/app/1.0.0", &w.deps)]);
            write_files(&app, &docs(items));
            let user_hidden = uexc || (uk == 4 && !uv2);
            let publics: Vec<&str> = [(d1, "dep1"), (d2, "dep2")].iter().filter(|(s, _)| *s == 1).map(|(_, w)| *w).collect();
            let hidden = [d1, d2].contains(&2);
            let exp = match local {
                1 => "resolved:local".to_owned(),
                2 if user_hidden => "resolved:local".to_owned(),
                2 => "denied".to_owned(),
                _ => match publics.len() {
                    2 => "ambiguous".to_owned(),
                    1 => format!("resolved:{}", publics[0]),
                    _ if hidden => "denied".to_owned(),
                    _ => "unresolved".to_owned(),
                },
            };
            let r = resolve_with(&mut WeaverResolver::new(config()), &app, &w.root);
            let act = observe_user(&r, uk, |g| g["attributes"][0]["brief"].as_str().unwrap_or("?").to_owned());
            let act = if exp == "denied" && d1 == 2 && d2 == 2 && local == 0 && act == "ambiguous" { "denied".to_owned() } else { act };
            chk.eval(&(name, &act), d1 + d2 > 0);
            chk.outcome(&format!("ref-{act}"));
            let _ = chk.expect_eq(name, || json!({"case": name}), &exp, &act);
        },
    );
}

fn observe_user(r: &Res, kind: usize, who: impl Fn(&Value) -> String) -> String {
    if !r.fatal.is_empty() {
        let set: BTreeSet<String> = r
            .fatal
            .iter()
            .map(|e| match variant(e).as_str() {
                "ExcludedFromDependencyResolution" => "denied".to_owned(),
                "AmbiguousReference" | "AmbiguousEntityAssociation" => "ambiguous".to_owned(),
                "UnresolvedAttributeRef" | "UnresolvedExtendsRef" | "UnresolvedEntityAssociation" | "UnresolvedIncludeRef" => "unresolved".to_owned(),
                _ => e.clone(),
            })
            .collect();
        return set.into_iter().collect::<Vec<_>>().join("+");
    }
    match groups_of(r).iter().find(|g| v2id(KINDS[kind], g["id"].as_str().unwrap_or("")) == "user") {
        Some(g) => format!("resolved:{}", who(g)),
        None => "user group lost".into(),
    }
}

fn run_extends(chk: &Arc<Check>) {
    // target kind 0..4 (v2 refinement for 0..3, v1 extends for 0..4), mechanism, local, dep, user excluded, packaged, target syntax
    chk.par(
        product(&[5, 2, 3, 3, 2, 2, 2]),
        |v| format!("ext-{}", v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(".")),
        |chk, name, v| {
            let (kind, refinement, local, dep, uexc, packaged, tv2) = (v[0], v[1] == 1, v[2], v[3], v[4] == 1, v[5] == 1, v[6] == 1);
            if kind == 4 && (refinement || packaged) || packaged && dep == 0 {
                return; // attribute groups cannot be refined, and a package keeps no v1 attribute groups to extend
            }
            let target = |st: usize, who: &str| -> Vec<(String, Value)> {
                if st == 0 {
                    return vec![];
                }
                let mut s = signal(tv2, kind, "base", if st == 2 { 1 } else { 0 }, json!([{"ref": "x.k", "brief": who}]));
                s.1["brief"] = json!(who);
                vec![s]
            };
            let mut dfiles = target(dep, "dep1");
            dfiles.push(attr_def(true, "x.k", "def", 0));
            let w = match world(chk, &[Some((docs(dfiles), packaged))], false) {
                Ok(w) => w,
                Err(e) => return chk.violation(name, name, json!(null), "the dependency packages", &e),
            };
            let full = if kind == 4 { "base".to_owned() } else { format!("{}.base", KINDS[kind]) };
            let mut items = target(local, "local");
            if refinement {
                let mut b = json!({"id": "user", "ref": "base"});
                if uexc {
                    b["annotations"] = excl(1).expect("excl");
                }
                items.push((format!("{}_refinements", KINDS[kind].replace("entity", "entity")), b));
            } else {
                let mut s = signal(false, kind, "user", if uexc { 1 } else { 0 }, json!([]));
                s.1["extends"] = json!(full);
                items.push(s);
            }
            let app = w.root.join("app");
            write_files(&app, &[manifest_file("https://d.org/app/1.0.0", &w.deps)]);
            write_files(&app, &docs(items));
            let user_hidden = uexc || (kind == 4);
            let exp = match (local, dep) {
                (1, _) => "resolved:local",
                (2, _) if user_hidden => "resolved:local",
                (2, _) => "denied",
                (_, 1) => "resolved:dep1",
                (_, 2) => "denied",
                _ => "unresolved",
            };
            let r = resolve_with(&mut WeaverResolver::new(config()), &app, &w.root);
            let act = observe_user(&r, kind, |g| g["attributes"][0]["brief"].as_str().unwrap_or("?").to_owned());
            chk.eval(&(name, &act), true);
            chk.outcome(&format!("extends-{act}"));
            let _ = chk.expect_eq(name, || json!({"case": name}), exp, &act);
        },
    );
}

fn run_assoc(chk: &Arc<Check>) {
    // local, dep1, dep2 (0 none 1 public 2 excluded 3 re-export of dep1's), order, fmt1, fmt2, user kind, user excluded, syntax
    chk.par(
        product(&[3, 3, 4, 2, 2, 2, 3, 2, 2]),
        |v| format!("assoc-{}", v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(".")),
        |chk, name, v| {
            let (local, d1, d2) = (v[0], v[1], v[2]);
            if d1 == 0 && v[4] == 1 || d2 == 0 && v[5] == 1 || d2 == 3 && d1 != 1 {
                return;
            }
            let ev2 = v[8] == 1;
            let ent = |st: usize| -> Vec<(String, Value)> {
                let mut f = vec![attr_def(true, "x.k", "def", 0)];
                if st > 0 {
                    f.push(signal(ev2, 3, "ent", if st == 2 { 1 } else { 0 }, json!([{"ref": "x.k"}])));
                }
                f
            };
            let root = chk.fresh("deps");
            let mut deps = vec![];
            let r: Result<(), String> = (|| {
                if d1 > 0 {
                    deps.push(write_dep(&root, "dep1", docs(ent(d1)), &[], v[4] == 1)?);
                }
                if d2 == 3 {
                    let sub = deps.clone();
                    deps.push(write_dep(&root, "dep2", vec![("i.yaml".into(), json!({"file_format": "definition/2", "imports": {"entities": ["ent"]}}).to_string())], &sub, v[5] == 1)?);
                } else if d2 > 0 {
                    let mut e = ent(d2);
                    let _ = e.remove(0);
                    e.push(attr_def(true, "x.k2", "def", 0));
                    for (_, b) in e.iter_mut() {
                        for f in ["identity", "attributes"] {
                            if b[f].is_array() && b["stability"].is_string() && b[f][0]["ref"].is_string() {
                                b[f] = json!([{"ref": "x.k2"}]);
                            }
                        }
                    }
                    deps.push(write_dep(&root, "dep2", docs(e), &[], v[5] == 1)?);
                }
                Ok(())
            })();
            if let Err(e) = r {
                return chk.violation(name, name, json!(null), "the dependency packages", &e);
            }
            if v[3] == 1 {
                deps.reverse();
            }
            let uk = v[6];
            let uexc = v[7] == 1;
            let mut u = signal(true, uk, "user", if uexc { 1 } else { 0 }, json!([]));
            u.1["entity_associations"] = json!(["ent"]);
            let mut items = vec![u];
            if local > 0 {
                items.push(attr_def(true, "x.l", "l", 0));
                items.push(signal(ev2, 3, "ent", if local == 2 { 1 } else { 0 }, json!([{"ref": "x.l"}])));
            }
            let app = root.join("app");
            write_files(&app, &[manifest_file("https://d.org/app/1.0.0", &deps)]);
            write_files(&app, &docs(items));
            let publics: BTreeSet<&str> = [(d1 == 1, "dep1"), (d2 == 1, "dep2"), (d2 == 3, "dep1")].iter().filter(|(p, _)| *p).map(|(_, w)| *w).collect();
            let hidden = [d1, d2].contains(&2);
            let exp = match local {
                1 => "resolved:local".to_owned(),
                2 if uexc => "resolved:local".to_owned(),
                2 => "denied".to_owned(),
                _ => match publics.len() {
                    2 => "ambiguous".to_owned(),
                    1 => format!("resolved:{}", publics.iter().next().expect("one")),
                    _ if hidden => "denied".to_owned(),
                    _ => "unresolved".to_owned(),
                },
            };
            let r = resolve_with(&mut WeaverResolver::new(config()), &app, &root);
            let act = observe_user(&r, uk, |g| {
                let id = g["id"].as_str().unwrap_or("");
                r.v1().and_then(|s| s.registry.entity_association_origins.get(id)).and_then(|m| m.get("ent")).map(|u| u.name().rsplit('/').next().unwrap_or("?").to_owned()).unwrap_or("local".into())
            });
            chk.eval(&(name, &act), d1 + d2 > 0);
            chk.outcome(&format!("assoc-{act}"));
            let _ = chk.expect_eq(name, || json!({"case": name}), &exp, &act);
        },
    );
}

fn run_nfe(chk: &Arc<Check>) {
    // fault set in the dependency (4 bits), transitive or direct, through a second path, in place or through a schema URL override
    chk.par(
        product(&[16, 2, 2, 2]),
        |v| format!("nfe-{}", v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(".")),
        |chk, name, v| {
            let mut items = vec![attr_def(true, "x.k", "def", 0)];
            let mut exp: BTreeSet<&str> = BTreeSet::new();
            if v[0] & 1 != 0 {
                items.push(attr_def(false, "x.k", "again", 0));
                let _ = exp.insert("DuplicateAttributeId");
            }
            if v[0] & 2 != 0 {
                for id in ["metric.a", "metric.b"] {
                    let mut m = signal(false, 0, "m", 0, json!([]));
                    m.1["id"] = json!(id);
                    items.push(m);
                }
                exp.extend(["DuplicateMetricName", "CollidingV2SignalId"]);
            }
            if v[0] & 4 != 0 {
                for _ in 0..2 {
                    items.push(signal(false, 2, "s", 0, json!([])));
                }
                let _ = exp.insert("DuplicateGroupId");
            }
            if v[0] & 8 != 0 {
                items.push(signal(true, 2, "w", 0, json!([])));
                let _ = exp.insert("MissingRequirementLevelWarning");
            }
            let root = chk.fresh("deps");
            let mut deps = vec![write_dep(&root, "dep1", docs(items), &[], false).expect("source")];
            if v[1] == 1 {
                let mid = write_dep(&root, "dep2", docs(vec![attr_def(true, "y.k", "def", 0)]), &deps, false).expect("source");
                if v[2] == 1 {
                    deps.push(mid);
                } else {
                    deps = vec![mid];
                }
            } else if v[2] == 1 {
                return;
            }
            let app = root.join("app");
            write_files(&app, &[manifest_file("https://d.org/app/1.0.0", &deps)]);
            write_files(&app, &docs(vec![attr_def(true, "a.k", "def", 0)]));
            let mut resolver = WeaverResolver::new(config());
            if v[3] == 1 {
                // The manifest leads to a clean copy; the override leads to the faulty one.
                let faulty = root.join("faulty");
                std::fs::rename(root.join("dep1"), &faulty).expect("rename");
                write_dep(&root, "dep1", docs(vec![attr_def(true, "x.k", "def", 0)]), &[], false).expect("source");
                resolver.add_schema_url_override(
                    "https://d.org/dep1/1.0.0".try_into().expect("url"),
                    weaver_common::vdir::VirtualDirectoryPath::LocalFolder { path: faulty.display().to_string() },
                );
            }
            let r = resolve_with(&mut resolver, &app, &root);
            let act: BTreeSet<String> = diag(&r).iter().map(|e| variant(e)).filter(|v| v.starts_with("Dup") || v.starts_with("Coll") || v.starts_with("Missing")).chain(r.fatal.iter().cloned()).collect();
            chk.eval(&(name, &act), true);
            chk.outcome("dependency-diagnostics");
            let _ = chk.expect_eq(name, || json!({"case": name}), &format!("{exp:?}"), &format!("{act:?}"));
        },
    );
}

fn run(chk: &Arc<Check>) {
    run_nfe(chk);
    run_refs(chk);
    run_extends(chk);
    run_assoc(chk);
    run_imports(chk);
}
