//! C04: references that cannot be resolved (dangling or cyclic) are always reported, exactly, and
//! never make resolution hang or succeed with something missing.
use harness::reg::*;
use harness::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const SPEC: Spec = Spec {
    id: "C04",
    level: "model_checking",
    rule: "Explicit-state: every reference graph within the bounds is explored by a reference fixpoint (states = resolution fronts, transitions = resolved groups) and \
           replayed on the real resolver: (a) all `extends` functions over 4 v1 groups incl. self, cycles, missing; (b) all include graphs over 3 v2 attribute groups plus a signal and a refinement; \
           (c) all attribute reference sets over defined / conditionally defined / missing attributes in two groups, v1 and v2; (d) all entity association expressions of depth <= 2 over present and missing entities; \
           (e) the cross product of one reference of each kind being good, missing or cyclic. Oracle: resolution succeeds iff the model resolves everything (and then every group is present); otherwise it is a fatal error in \
           which every reported (group, target) pair is truly unresolved and every unresolvable group is reported.",
    assumptions: &["when several phases have unresolved references the tool may stop after the first phase; reports of later phases are optional then but must be true"],
    run,
};

/// (kind, group, target)
type Pair = (String, String, String);

pub fn pairs(errs: &[String]) -> (BTreeSet<Pair>, Vec<String>) {
    let mut out = BTreeSet::new();
    let mut other = vec![];
    for e in errs {
        let v = variant(e);
        let body: Value = serde_json::from_str(&e[v.len()..]).unwrap_or_default();
        let s = |k: &str| body[k].as_str().unwrap_or("?").to_owned();
        match v.as_str() {
            "UnresolvedExtendsRef" => drop(out.insert(("extends".into(), s("group_id"), s("extends_ref")))),
            "UnresolvedIncludeRef" => drop(out.insert(("include".into(), s("group_id"), s("include_ref")))),
            "UnresolvedAttributeRef" => drop(out.insert(("ref".into(), s("group_id"), s("attribute_ref")))),
            "UnresolvedEntityAssociation" => drop(out.insert(("assoc".into(), s("group_id"), s("entity_type")))),
            _ => other.push(e.clone()),
        }
    }
    (out, other)
}

/// One unresolved registry in the model: per group, phase-1 parents; phase-2 attribute refs; phase-3 associations.
#[derive(Default, Clone)]
struct Model {
    /// group -> (kind, target)
    parents: BTreeMap<String, Vec<(&'static str, String)>>,
    refs: BTreeMap<String, Vec<String>>,
    assocs: BTreeMap<String, Vec<String>>,
    defined: BTreeSet<String>,
    entities: BTreeSet<String>,
    published: BTreeSet<String>,
}

fn judge(chk: &Check, name: &str, files: &Files, m: &Model) {
    // reference fixpoint
    let mut done: BTreeSet<&String> = BTreeSet::new();
    let mut fronts = 1u64;
    let mut steps = 0u64;
    loop {
        let next: Vec<&String> = m
            .parents
            .iter()
            .filter(|(g, ps)| !done.contains(g) && ps.iter().all(|(_, p)| done.contains(p)))
            .map(|(g, _)| g)
            .collect();
        if next.is_empty() {
            break;
        }
        steps += next.len() as u64;
        fronts += 1;
        done.extend(next);
    }
    chk.add_states(fronts);
    chk.add_transitions(steps);
    chk.add_traces(1);
    let mut p1: BTreeSet<Pair> = BTreeSet::new();
    for (g, ps) in &m.parents {
        for (k, p) in ps {
            if !done.contains(p) {
                let _ = p1.insert(((*k).to_owned(), g.clone(), p.clone()));
            }
        }
    }
    let miss = |src: &BTreeMap<String, Vec<String>>, have: &BTreeSet<String>, k: &str| -> BTreeSet<Pair> {
        src.iter().flat_map(|(g, rs)| rs.iter().filter(|r| !have.contains(*r)).map(|r| (k.to_owned(), g.clone(), r.clone())).collect::<Vec<_>>()).collect()
    };
    let p2 = miss(&m.refs, &m.defined, "ref");
    let p3 = miss(&m.assocs, &m.entities, "assoc");
    // an inherited reference is reported for the inheriting group as well; compute the closure
    let mut p2_inherited = p2.clone();
    loop {
        let mut add = vec![];
        for (g, ps) in &m.parents {
            for (_, p) in ps {
                for (k, pg, a) in &p2_inherited {
                    if pg == p {
                        let t = (k.clone(), g.clone(), a.clone());
                        if !p2_inherited.contains(&t) {
                            add.push(t);
                        }
                    }
                }
            }
        }
        if add.is_empty() {
            break;
        }
        p2_inherited.extend(add);
    }
    let dir = chk.fresh("reg");
    write_files(&dir, files);
    let r = resolve_dir(&dir);
    let (got, other) = pairs(&r.fatal);
    let truth: BTreeSet<Pair> = p1.iter().chain(&p2_inherited).chain(&p3).cloned().collect();
    let mut problems = vec![];
    if truth.is_empty() {
        match r.v1() {
            None => problems.push(format!("unexpected failure {:?}", r.fatal)),
            Some(s) => {
                let have: BTreeSet<String> = s.registry.groups.iter().map(|g| g.id.clone()).collect();
                for g in &m.published {
                    if !have.contains(g) {
                        problems.push(format!("group {g} missing from the result"));
                    }
                }
            }
        }
    } else {
        if r.schema.is_some() {
            problems.push(format!("resolution succeeded although unresolved: {truth:?}"));
        }
        for p in &got {
            if !truth.contains(p) {
                problems.push(format!("false report {p:?}"));
            }
        }
        if !other.is_empty() {
            problems.push(format!("unrelated error {other:?}"));
        }
        // completeness: first failing phase must be complete per group
        let (phase, by_group) = if !p1.is_empty() { (&p1, true) } else if !p2_inherited.is_empty() { (&p2_inherited, false) } else { (&p3, false) };
        if by_group {
            for (_, g, _) in phase {
                if !got.iter().any(|(k, gg, _)| gg == g && (k == "extends" || k == "include")) {
                    problems.push(format!("group {g} is unresolvable but not reported"));
                }
            }
            // truly missing targets must be named, unless the group has another unresolved include
            // (an include failure may hide the extends failure of the same group)
            for p in phase {
                let hidden = p.0 == "extends" && phase.iter().any(|q| q.1 == p.1 && q.0 == "include");
                if !hidden && !got.contains(p) {
                    problems.push(format!("{p:?} not reported"));
                }
            }
        } else {
            for p in phase {
                if !got.contains(p) {
                    problems.push(format!("{p:?} not reported"));
                }
            }
        }
    }
    chk.eval(&(name, &got, r.schema.is_some()), !truth.is_empty());
    chk.outcome(&r.class());
    chk.sample(|| json!({"case": name, "unresolved": truth, "reported": got}));
    let _ = chk.expect_eq(name, || json!(files), "every unresolved reference reported, nothing else", if problems.is_empty() { "every unresolved reference reported, nothing else" } else { "" }.to_owned().as_str())
        || {
            chk.note("last_problem", json!(problems));
            if chk.replaying() {
                eprintln!("problems: {problems:?}");
            }
            false
        };
}

fn v1g(id: &str, ty: usize, extends: Option<&str>, refs: &[String], assoc: &[Value]) -> Value {
    let mut g = match ty {
        0 => json!({"type": "attribute_group"}),
        1 => json!({"type": "span", "span_kind": "client", "stability": "stable"}),
        2 => json!({"type": "metric", "metric_name": format!("m.{id}"), "instrument": "counter", "unit": "1", "stability": "stable"}),
        _ => json!({"type": "event", "name": format!("e.{id}"), "stability": "stable"}),
    };
    g["id"] = json!(id);
    g["brief"] = json!("b");
    if let Some(e) = extends {
        g["extends"] = json!(e);
    }
    if !refs.is_empty() {
        g["attributes"] = json!(refs.iter().map(|r| json!({"ref": r})).collect::<Vec<_>>());
    }
    if !assoc.is_empty() {
        g["entity_associations"] = json!(assoc);
    }
    g
}

fn name_of(v: &[usize]) -> String {
    v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(".")
}

fn run(chk: &Arc<Check>) {
    // (a)
    let n = if chk.thorough() { 5 } else { 4 };
    let mut dims = vec![n + 2; n];
    dims.push(3);
    chk.par(
        product(&dims),
        |v| format!("ext-{}", name_of(v)),
        |chk, name, v| {
            let mut m = Model::default();
            let mut groups = vec![];
            for i in 0..n {
                let id = format!("g{i}");
                let t = match v[i] {
                    0 => None,
                    k if k <= n => Some(format!("g{}", k - 1)),
                    _ => Some("nowhere".to_owned()),
                };
                groups.push(v1g(&id, (i + v[n]) % 4, t.as_deref(), &[], &[]));
                let _ = m.parents.insert(id.clone(), t.into_iter().map(|t| ("extends", t)).collect());
                let _ = m.published.insert(id);
            }
            judge(chk, name, &vec![("r.yaml".into(), json!({"groups": groups}).to_string())], &m);
        },
    );
    // (b)
    let inc_dim = 16usize;
    chk.par(
        product(&[inc_dim, inc_dim, inc_dim, 8, 4, 3]),
        |v| format!("inc-{}", name_of(v)),
        |chk, name, v| {
            let targets = ["ga", "gb", "gc", "nowhere"];
            let set = |mask: usize| -> Vec<&str> { (0..4).filter(|b| mask & (1 << b) != 0).map(|b| targets[b]).collect() };
            let mut m = Model::default();
            let mut ags = vec![];
            for i in 0..3 {
                let inc = set(v[i]);
                let mut g = json!({"id": targets[i], "attributes": inc.iter().map(|g| json!({"ref_group": g})).collect::<Vec<_>>()});
                if i == 1 {
                    g["visibility"] = json!("internal");
                } else {
                    g["visibility"] = json!("public");
                    g["brief"] = json!("b");
                    g["stability"] = json!("stable");
                    let _ = m.published.insert(targets[i].to_owned());
                }
                ags.push(g);
                let _ = m.parents.insert(targets[i].to_owned(), inc.iter().map(|t| ("include", (*t).to_owned())).collect());
            }
            // signal includes subset of {ga, gb, nowhere}; refinement includes {none, gc, ga+nowhere, gb} and refs sig or missing
            let sinc: Vec<&str> = (0..3).filter(|b| v[3] & (1 << b) != 0).map(|b| ["ga", "gb", "nowhere"][b]).collect();
            let rinc: Vec<&str> = [vec![], vec!["gc"], vec!["ga", "nowhere"], vec!["gb"]][v[4]].clone();
            let kind = ["metric", "span", "event"][(v[0] + v[1] + v[2]) % 3];
            let mut doc = json!({"file_format": "definition/2", "attribute_groups": ags});
            let a = json!(sinc.iter().map(|g| json!({"ref_group": g})).collect::<Vec<_>>());
            let ra = json!(rinc.iter().map(|g| json!({"ref_group": g})).collect::<Vec<_>>());
            match kind {
                "metric" => doc["metrics"] = json!([{"name": "sig", "brief": "s", "stability": "stable", "instrument": "counter", "unit": "1", "attributes": a}]),
                "span" => doc["spans"] = json!([{"type": "sig", "kind": "client", "name": {"note": "n"}, "brief": "s", "stability": "stable", "attributes": a}]),
                _ => doc["events"] = json!([{"name": "sig", "brief": "s", "stability": "stable", "attributes": a}]),
            }
            let _ = m.parents.insert(format!("{kind}.sig"), sinc.iter().map(|t| ("include", (*t).to_owned())).collect());
            let _ = m.published.insert(format!("{kind}.sig"));
            if v[5] > 0 {
                let target = if v[5] == 1 { "sig" } else { "gone" };
                doc[format!("{kind}_refinements")] = json!([{"id": "sig.r", "ref": target, "attributes": ra}]);
                let mut ps: Vec<(&'static str, String)> = rinc.iter().map(|t| ("include", (*t).to_owned())).collect();
                ps.push(("extends", format!("{kind}.{target}")));
                let _ = m.parents.insert("sig.r".into(), ps);
                let _ = m.published.insert("sig.r".into());
            }
            judge(chk, name, &vec![("r.yaml".into(), doc.to_string())], &m);
        },
    );
    // (c) attribute references: each of two user groups references any subset of four names; two of the names are
    // defined depending on the case (by a v1 group, by a v2 file, by the other user group's own prefix).
    chk.par(
        product(&[16, 16, 4, 4, 2]),
        |v| format!("ref-{}", name_of(v)),
        |chk, name, v| {
            let names = ["x.a", "x.b", "x.c", "x.never"];
            let set = |mask: usize| -> Vec<String> { (0..4).filter(|b| mask & (1 << b) != 0).map(|b| names[b].to_owned()).collect() };
            let mut m = Model::default();
            let mut files: Files = vec![];
            let (r0, r1) = (set(v[0]), set(v[1]));
            let ext = v[4] == 1;
            let groups = vec![v1g("g0", 1, None, &r0, &[]), v1g("g1", 2, if ext { Some("g0") } else { None }, &r1, &[])];
            files.push(("u.yaml".into(), json!({"groups": groups}).to_string()));
            let _ = m.refs.insert("g0".into(), r0);
            let _ = m.refs.insert("g1".into(), r1);
            let _ = m.parents.insert("g0".into(), vec![]);
            let _ = m.parents.insert("g1".into(), if ext { vec![("extends", "g0".to_owned())] } else { vec![] });
            m.published.extend(["g0".to_owned(), "g1".to_owned()]);
            // v[2]: x.a defined by nobody / v1 / v2 / v1 prefixed
            let d1 = |id: &str, prefix: Option<&str>, key: &str| {
                let mut g = json!({"id": id, "type": "attribute_group", "brief": "d", "attributes": [{"id": key, "type": "int", "brief": "b", "stability": "stable"}]});
                if let Some(p) = prefix {
                    g["prefix"] = json!(p);
                }
                json!({"groups": [g]}).to_string()
            };
            let d2 = |key: &str| json!({"file_format": "definition/2", "attributes": [{"key": key, "type": "int", "brief": "b", "stability": "stable"}]}).to_string();
            for (slot, key, short) in [(2usize, "x.a", "a"), (3, "x.b", "b")] {
                match v[slot] {
                    1 => files.push((format!("{short}.yaml"), d1(&format!("registry.{short}"), None, key))),
                    2 => files.push((format!("{short}.yaml"), d2(key))),
                    3 => files.push((format!("{short}.yaml"), d1(&format!("registry.{short}"), Some("x"), short))),
                    _ => continue,
                }
                let _ = m.defined.insert(key.to_owned());
            }
            files.push(("c.yaml".into(), d2("x.c")));
            let _ = m.defined.insert("x.c".into());
            judge(chk, name, &files, &m);
        },
    );
    // (d) associations
    let leaves = ["e1", "e2", "missing"];
    let mut exprs: Vec<(Value, Vec<String>)> = leaves.iter().map(|l| (json!(l), vec![(*l).to_owned()])).collect();
    for op in ["one_of", "all_of"] {
        for a in 0..3 {
            for b in a..3 {
                exprs.push((json!({op: [leaves[a], leaves[b]]}), vec![leaves[a].to_owned(), leaves[b].to_owned()]));
            }
        }
    }
    let flat = exprs.clone();
    for op in ["one_of", "all_of"] {
        for (e, names) in flat.iter().skip(3) {
            for l in leaves {
                let mut n = names.clone();
                n.push(l.to_owned());
                exprs.push((json!({op: [l, e]}), n.clone()));
                exprs.push((json!({op: [e, l]}), n));
            }
        }
    }
    let ne = exprs.len();
    chk.par(
        product(&[ne, flat.len() + 1, 3, 3, 2]),
        |v| format!("assoc-{}", name_of(v)),
        |chk, name, v| {
            let mut m = Model::default();
            let (e, mut names) = exprs[v[0]].clone();
            let mut list = vec![e];
            if v[1] > 0 {
                let (e2, n2) = flat[v[1] - 1].clone();
                list.push(e2);
                names.extend(n2);
            }
            names.sort();
            names.dedup();
            let mut files: Files = vec![];
            // which entities exist: v[2] 0: e1 v1 + e2 v2; 1: only e1 (v2); 2: none
            let v1e = |t: &str| json!({"groups": [{"id": format!("entity.{t}"), "type": "entity", "name": t, "brief": "b", "stability": "stable", "attributes": [{"ref": "x.k"}]}]}).to_string();
            let v2e = |t: &str| json!({"file_format": "definition/2", "entities": [{"type": t, "brief": "b", "stability": "stable", "identity": [{"ref": "x.k"}]}]}).to_string();
            files.push(("k.yaml".into(), json!({"file_format": "definition/2", "attributes": [{"key": "x.k", "type": "int", "brief": "b", "stability": "stable"}]}).to_string()));
            if v[2] < 2 {
                files.push(("e1.yaml".into(), if v[2] == 0 { v1e("e1") } else { v2e("e1") }));
                let _ = m.entities.insert("e1".into());
                let _ = m.published.insert("entity.e1".into());
            }
            if v[2] == 0 {
                files.push(("e2.yaml".into(), v2e("e2")));
                let _ = m.entities.insert("e2".into());
            }
            let kind = ["metric", "span", "event"][v[3]];
            let gid = if v[4] == 0 {
                let ty = [2, 1, 3][v[3]];
                files.push(("s.yaml".into(), json!({"groups": [v1g("g0", ty, None, &[], &list)]}).to_string()));
                "g0".to_owned()
            } else {
                let mut doc = json!({"file_format": "definition/2"});
                match kind {
                    "metric" => doc["metrics"] = json!([{"name": "sig", "brief": "s", "stability": "stable", "instrument": "counter", "unit": "1", "entity_associations": list}]),
                    "span" => doc["spans"] = json!([{"type": "sig", "kind": "client", "name": {"note": "n"}, "brief": "s", "stability": "stable", "entity_associations": list}]),
                    _ => doc["events"] = json!([{"name": "sig", "brief": "s", "stability": "stable", "entity_associations": list}]),
                }
                files.push(("s.yaml".into(), doc.to_string()));
                format!("{kind}.sig")
            };
            let _ = m.assocs.insert(gid.clone(), names);
            let _ = m.published.insert(gid.clone());
            let _ = m.parents.insert(gid, vec![]);
            judge(chk, name, &files, &m);
        },
    );
    // (e) one reference of each kind: ok / missing, in the same registry, on the same or different groups
    chk.par(
        product(&[3, 2, 2, 2, 2]),
        |v| format!("mix-{}", name_of(v)),
        |chk, name, v| {
            let mut m = Model::default();
            let ext = ["base", "gone", "g0"][v[0]];
            let attr = ["x.k", "x.gone"][v[1]];
            let ent = ["e1", "gone"][v[2]];
            let same = v[3] == 1;
            let (g_attr, g_ent) = if same { ("g0", "g0") } else { ("g1", "g2") };
            let mut per: BTreeMap<&str, (Option<&str>, Vec<String>, Vec<Value>)> = BTreeMap::new();
            per.entry("g0").or_default().0 = Some(ext);
            per.entry(g_attr).or_default().1.push(attr.to_owned());
            per.entry(g_ent).or_default().2.push(json!(ent));
            let mut groups: Vec<Value> = per.iter().map(|(g, (x, a, e))| v1g(g, 2, *x, a, e)).collect();
            groups.push(v1g("base", 0, None, &["x.k".to_owned()], &[]));
            if v[4] == 1 {
                groups.reverse();
            }
            for (g, (x, a, e)) in &per {
                let _ = m.parents.insert((*g).into(), x.iter().map(|x| ("extends", (*x).to_owned())).collect());
                let _ = m.refs.insert((*g).into(), a.clone());
                let _ = m.assocs.insert((*g).into(), e.iter().map(|x| x.as_str().unwrap_or("").to_owned()).collect());
                let _ = m.published.insert((*g).into());
            }
            let _ = m.parents.insert("base".into(), vec![]);
            let _ = m.refs.insert("base".into(), vec!["x.k".into()]);
            let _ = m.defined.insert("x.k".into());
            let _ = m.entities.insert("e1".into());
            let files: Files = vec![
                ("g.yaml".into(), json!({"groups": groups}).to_string()),
                ("k.yaml".into(), json!({"file_format": "definition/2", "attributes": [{"key": "x.k", "type": "int", "brief": "b", "stability": "stable"}], "entities": [{"type": "e1", "brief": "b", "stability": "stable", "identity": [{"ref": "x.k"}]}]}).to_string()),
            ];
            judge(chk, name, &files, &m);
        },
    );
    // (f) a refinement of something that is not a signal of that kind
    chk.par(
        product(&[4, 5, 2]),
        |v| format!("kind-{}", name_of(v)),
        |chk, name, v| {
            let kinds = ["metric", "span", "event", "entity"];
            let k = kinds[v[0]];
            let base_ty = ["metric", "span", "event", "entity", "attribute_group"][v[1]];
            let id = format!("{k}.foo");
            let mut g = json!({"id": id, "type": base_ty, "brief": "b", "stability": "stable"});
            match base_ty {
                "metric" => {
                    g["metric_name"] = json!("foo");
                    g["instrument"] = json!("counter");
                    g["unit"] = json!("1");
                }
                "span" => g["span_kind"] = json!("client"),
                "event" | "entity" => g["name"] = json!("foo"),
                _ => {}
            }
            let mut files: Files = vec![
                ("a.yaml".into(), json!({"groups": [g]}).to_string()),
                ("b.yaml".into(), json!({"file_format": "definition/2", format!("{k}_refinements"): [{"id": "foo.r", "ref": "foo"}]}).to_string()),
            ];
            if v[2] == 1 {
                files.reverse();
            }
            let dir = chk.fresh("reg");
            write_files(&dir, &files);
            let r = resolve_dir(&dir);
            let exp = if base_ty == k { "resolved" } else { "fatal:InvalidRefinement" };
            let act = if r.schema.is_some() { "resolved".to_owned() } else { r.class() };
            chk.eval(&(name, &act), true);
            chk.add_states(1);
            chk.add_traces(1);
            chk.outcome(&act);
            let _ = chk.expect_eq(name, || json!(files), exp, &act);
        },
    );
}
