//! C10: the difference between two versions of a registry.
use harness::reg::*;
use harness::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;
use weaver_resolved_schema::v2::ResolvedTelemetrySchema as V2;
use weaver_resolved_schema::ResolvedTelemetrySchema as V1;

pub const SPEC: Spec = Spec {
    id: "C10",
    level: "model_checking",
    rule: "Exhaustive over histories of two versions: (A) for each kind of item and each source syntax, two items, each in one of 14 states (absent, live, live with another brief, \
           renamed to t or u, with and without a note, obsoleted and uncategorized with default and with own note, old-style text, obsoleted with another stability) in either version: all 196 x 196 pairs, \
           compared as v1 and as v2 schemas; (B) one item of every kind at once, baseline {absent, live}^6 x head {absent, live, renamed}^6; (C) a refinement or an attribute reference with its own deprecation next to its base; \
           (D) the command line, every report format. Oracle: state-pair table written from docs/schema-changes.md. Non-trivial: the versions differ.",
    assumptions: &[],
    run,
};

const KINDS: [&str; 6] = ["attribute", "metric", "event", "entity", "span", "attribute_group"];
const NSTATES: usize = 14;

/// (reason, renamed_to, note) of a state; None: not deprecated.
fn dep(v2: bool, state: usize) -> Option<(&'static str, Option<&'static str>, Option<&'static str>)> {
    match state {
        3 => Some(("renamed", Some("x.t"), None)),
        4 => Some(("renamed", Some("x.t"), Some("why"))),
        5 => Some(("renamed", Some("x.u"), None)),
        12 => Some(("renamed", Some("x.u"), Some("why"))),
        13 => Some(("obsoleted", None, Some("whynot"))),
        // v2 requires a note and has no old-style text.
        6 | 11 if v2 => Some(("obsoleted", None, Some("Obsoleted."))),
        9 if v2 => Some(("uncategorized", None, Some("Uncategorized."))),
        10 if v2 => Some(("uncategorized", None, Some("text"))),
        6 | 11 => Some(("obsoleted", None, None)),
        7 => Some(("obsoleted", None, Some("why"))),
        8 => Some(("uncategorized", None, Some("why"))),
        9 => Some(("uncategorized", None, None)),
        10 => Some(("text", None, Some("why"))),
        _ => None,
    }
}

fn fields(v2: bool, state: usize) -> Map<String, Value> {
    let mut m = Map::new();
    let _ = m.insert("brief".into(), json!(if state == 2 { "other" } else { "b" }));
    let _ = m.insert("stability".into(), json!(if state == 11 { "development" } else { "stable" }));
    if let Some((r, to, note)) = dep(v2, state) {
        let d = if r == "text" {
            json!(note)
        } else {
            let mut d = json!({"reason": r});
            if let Some(t) = to {
                d["renamed_to"] = json!(t);
            }
            if let Some(n) = note {
                d["note"] = json!(n);
            }
            d
        };
        let _ = m.insert("deprecated".into(), d);
    }
    m
}

/// Items present in one version: (kind, name, state).
type Version = Vec<(&'static str, String, usize)>;

fn item(mut m: Map<String, Value>, extra: Value) -> Value {
    for (k, v) in extra.as_object().expect("object") {
        let _ = m.insert(k.clone(), v.clone());
    }
    Value::Object(m)
}

fn file(v2: bool, v: &Version, extra: &[(&str, Value)]) -> Files {
    let mut by: BTreeMap<&str, Vec<Value>> = BTreeMap::new();
    let mut attrs = vec![item(fields(v2, 1), json!({"key": "base.attr", "id": "base.attr", "type": "string", "examples": ["e"]}))];
    for (kind, name, st) in v.iter().filter(|i| i.2 != 0) {
        let f = fields(v2, *st);
        match (*kind, v2) {
            ("attribute", _) => attrs.push(item(f, json!({"key": name, "id": name, "type": "string", "examples": ["e"]}))),
            ("metric", true) => by.entry("metrics").or_default().push(item(f, json!({"name": name, "instrument": "counter", "unit": "1", "requirement_level": "recommended"}))),
            ("event", true) => by.entry("events").or_default().push(item(f, json!({"name": name, "requirement_level": "recommended"}))),
            ("entity", true) => by.entry("entities").or_default().push(item(f, json!({"type": name, "identity": [{"ref": "base.attr"}], "requirement_level": "recommended"}))),
            ("span", true) => by.entry("spans").or_default().push(item(f, json!({"type": name, "kind": "client", "name": {"note": "n"}, "requirement_level": "recommended"}))),
            ("attribute_group", true) => by.entry("attribute_groups").or_default().push(item(f, json!({"id": name, "visibility": "public", "attributes": [{"ref": "base.attr"}]}))),
            ("metric", false) => by.entry("groups").or_default().push(item(f, json!({"id": format!("metric.{name}"), "type": "metric", "metric_name": name, "instrument": "counter", "unit": "1"}))),
            ("event", false) => by.entry("groups").or_default().push(item(f, json!({"id": format!("event.{name}"), "type": "event", "name": name}))),
            ("entity", false) => by.entry("groups").or_default().push(item(f, json!({"id": format!("entity.{name}"), "type": "entity", "name": name, "attributes": [{"ref": "base.attr"}]}))),
            ("span", false) => by.entry("groups").or_default().push(item(f, json!({"id": format!("span.{name}"), "type": "span", "name": name, "span_kind": "client", "attributes": [{"ref": "base.attr"}]}))),
            ("attribute_group", false) => by.entry("groups").or_default().push(item(f, json!({"id": name, "type": "attribute_group", "attributes": [{"ref": "base.attr"}]}))),
            _ => unreachable!(),
        }
    }
    for (k, e) in extra {
        by.entry(k).or_default().push(e.clone());
    }
    let strip = |a: Vec<Value>, drop: &str| -> Vec<Value> {
        a.into_iter()
            .map(|mut x| {
                let _ = x.as_object_mut().expect("object").remove(drop);
                x
            })
            .collect()
    };
    let mut doc = if v2 {
        json!({"file_format": "definition/2", "attributes": strip(attrs, "id")})
    } else {
        by.entry("groups").or_default().push(json!({"id": "registry.defs", "type": "attribute_group", "brief": "b", "attributes": strip(attrs, "key")}));
        json!({})
    };
    for (k, v) in by {
        doc[k] = json!(v);
    }
    vec![("r.yaml".into(), doc.to_string())]
}

struct Both {
    v1: V1,
    v2: V2,
}

fn build(chk: &Check, files: &Files) -> Result<Both, String> {
    let d = chk.fresh("d");
    write_files(&d, files);
    let r = resolve_dir(&d);
    let bad: Vec<String> = diag(&r).into_iter().filter(|e| variant(e) != "UnstructuredDeprecatedProperty").collect();
    if !bad.is_empty() {
        return Err(format!("unexpected diagnostics {bad:?}"));
    }
    let Some(s) = r.schema else { return Err(format!("{:?}", r.fatal)) };
    let v1 = s.into_v1().map_err(|e| e.to_string())?;
    let v2: V2 = v1.clone().try_into().map_err(|e: weaver_resolved_schema::error::Error| e.to_string())?;
    Ok(Both { v1, v2 })
}

fn key(kind: &str, as_v2: bool) -> &'static str {
    match (kind, as_v2) {
        ("attribute", true) => "attribute_changes",
        ("attribute", false) => "registry_attributes",
        ("metric", true) => "metric_changes",
        ("metric", false) => "metrics",
        ("event", true) => "event_changes",
        ("event", false) => "events",
        ("entity", true) => "entity_changes",
        ("entity", false) => "entities",
        ("span", true) => "span_changes",
        ("span", false) => "spans",
        ("attribute_group", true) => "attribute_group_changes",
        _ => "-",
    }
}

/// Which kinds a comparison covers: attribute groups are items of v2 schemas (when public) only.
fn covered(kind: &str, src_v2: bool, as_v2: bool) -> bool {
    match kind {
        "attribute_group" => as_v2 && src_v2,
        _ => true,
    }
}

/// The change between two states of one item, from docs/schema-changes.md.
fn change(src_v2: bool, name: &str, base: usize, head: usize) -> Option<Value> {
    if base == 0 && head == 0 {
        return None;
    }
    if base == 0 {
        return Some(json!({"type": "added", "name": name}));
    }
    if head == 0 {
        return Some(json!({"type": "removed", "name": name}));
    }
    let h = dep(src_v2, head)?;
    if dep(src_v2, base) == Some(h) {
        return None;
    }
    let (reason, to, note) = h;
    Some(match reason {
        "renamed" => {
            let to = to.expect("target");
            let note = note.map(str::to_owned).unwrap_or_else(|| format!("Replaced by `{to}`."));
            json!({"type": "renamed", "old_name": name, "new_name": to, "note": note})
        }
        "obsoleted" => json!({"type": "obsoleted", "name": name, "note": note.unwrap_or("Obsoleted.")}),
        _ => json!({"type": "uncategorized", "name": name, "note": note.unwrap_or("Uncategorized.")}),
    })
}

fn model(src_v2: bool, as_v2: bool, base: &Version, head: &Version) -> BTreeMap<String, Vec<String>> {
    let mut out: BTreeMap<String, Vec<String>> = KINDS.iter().map(|k| (key(k, as_v2).to_owned(), vec![])).filter(|(k, _)| k != "-").collect();
    let mut all: BTreeMap<(&str, &str), (usize, usize)> = BTreeMap::new();
    for (k, n, s) in base {
        all.entry((k, n)).or_default().0 = *s;
    }
    for (k, n, s) in head {
        all.entry((k, n)).or_default().1 = *s;
    }
    for ((k, n), (b, h)) in all {
        if covered(k, src_v2, as_v2) {
            if let Some(c) = change(src_v2, n, b, h) {
                out.get_mut(key(k, as_v2)).expect("key").push(c.to_string());
            }
        }
    }
    for v in out.values_mut() {
        v.sort();
    }
    out
}

/// (changes sorted by text, changes in reported order, is_empty)
fn observe(b: &Both, h: &Both, as_v2: bool) -> (BTreeMap<String, Vec<String>>, String, bool) {
    let (v, empty) = if as_v2 {
        let d = h.v2.diff(&b.v2);
        let e = d.is_empty();
        (serde_json::to_value(&d.registry).expect("json"), e)
    } else {
        let d = h.v1.diff(&b.v1);
        let e = d.is_empty();
        (serde_json::to_value(&d).expect("json")["changes"].clone(), e)
    };
    let mut m = BTreeMap::new();
    let mut ordered = BTreeMap::new();
    for (k, l) in v.as_object().expect("object") {
        let l: Vec<String> = l.as_array().expect("list").iter().map(|x| x.to_string()).collect();
        let _ = ordered.insert(k.clone(), l.clone());
        let mut l = l;
        l.sort();
        let _ = m.insert(k.clone(), l);
    }
    (m, format!("{ordered:?}"), empty)
}

fn compare(chk: &Arc<Check>, name: &str, src_v2: bool, base: (&Version, &Both), head: (&Version, &Both)) -> bool {
    for as_v2 in [false, true] {
        let want = model(src_v2, as_v2, base.0, head.0);
        let none = want.values().all(|v| v.is_empty());
        let (got, order, empty) = observe(base.1, head.1, as_v2);
        let (_, order2, _) = observe(base.1, head.1, as_v2);
        chk.add_transitions(1);
        chk.add_traces(1);
        let input = || json!({"source": if src_v2 {"v2"} else {"v1"}, "compared_as": if as_v2 {"v2"} else {"v1"}, "baseline": base.0, "head": head.0});
        if !none {
            let types: Vec<String> = want.values().flatten().map(|c| c.split("\"type\":\"").nth(1).unwrap_or("").split('"').next().unwrap_or("").to_owned()).collect();
            chk.outcome(types.first().map(String::as_str).unwrap_or(""));
        } else {
            chk.outcome("none");
        }
        if want != got || none != empty {
            let _ = chk.expect_eq(name, input, &format!("{want:?} empty={none}"), &format!("{got:?} empty={empty}"));
            return false;
        }
        if order != order2 {
            let _ = chk.expect_eq(name, input, &order, &order2);
            return false;
        }
        chk.eval(&(name, as_v2, base.0, head.0, &order), base.0 != head.0);
    }
    true
}

fn build_all(chk: &Arc<Check>, label: &str, src_v2: bool, versions: &[Version]) -> Vec<Option<Both>> {
    let out: Vec<std::sync::Mutex<Option<Both>>> = versions.iter().map(|_| std::sync::Mutex::new(None)).collect();
    let sub = |i: &usize| format!("{label}-build-{i}");
    // Building a version is part of every case that uses it, so it is never filtered by --case.
    let run = |i: usize| match guarded(|| build(chk, &file(src_v2, &versions[i], &[]))) {
        Ok(Ok(b)) => *out[i].lock().expect("lock") = Some(b),
        Ok(Err(e)) | Err(e) => chk.violation(&sub(&i), &sub(&i), json!(versions[i]), "the version resolves", &e),
    };
    if chk.replaying() {
        for i in 0..versions.len() {
            run(i);
        }
    } else {
        chk.par(0..versions.len(), sub, |_, _, i| run(i));
    }
    chk.add_states(versions.len() as u64);
    out.into_iter().map(|m| m.into_inner().expect("lock")).collect()
}

fn pairs(chk: &Arc<Check>) {
    for src_v2 in [false, true] {
        for kind in KINDS {
            if kind == "attribute_group" && !src_v2 {
                continue;
            }
            let names: [&str; 2] = ["x.a", "x.a.b"];
            let versions: Vec<Version> = product(&[NSTATES, NSTATES]).map(|v| vec![(kind, names[0].to_owned(), v[0]), (kind, names[1].to_owned(), v[1])]).collect();
            let versions = if chk.thorough() {
                let st = [0, 1, 3, 4, 6, 7, 8];
                let mut v = versions;
                v.extend(product(&[7, 7, 7]).map(|p| (0..3).map(|i| (kind, ["x.a", "x.a.b", "b"][i].to_owned(), st[p[i]])).collect::<Version>()));
                v
            } else {
                versions
            };
            let label = format!("pair-{}-{kind}", if src_v2 { "v2" } else { "v1" });
            let built = build_all(chk, &label, src_v2, &versions);
            let n = versions.len();
            chk.par(0..n, |i| format!("{label}-{i}"), |chk, name, i| {
                for j in 0..n {
                    let (Some(b), Some(h)) = (&built[i], &built[j]) else { continue };
                    if !compare(chk, name, src_v2, (&versions[i], b), (&versions[j], h)) {
                        return;
                    }
                }
            });
        }
    }
}

fn mixed(chk: &Arc<Check>) {
    for src_v2 in [false, true] {
        let heads: Vec<Version> = product(&[3; 6]).map(|v| v.iter().enumerate().map(|(i, s)| (KINDS[i], format!("x.{}", KINDS[i].replace('_', ".")), [0, 1, 4][*s])).collect()).collect();
        let bases: Vec<usize> = heads.iter().enumerate().filter(|(_, v)| v.iter().all(|i| i.2 < 2)).map(|(i, _)| i).collect();
        let label = format!("mixed-{}", if src_v2 { "v2" } else { "v1" });
        let built = build_all(chk, &label, src_v2, &heads);
        chk.par(0..heads.len(), |i| format!("{label}-{i}"), |chk, name, h| {
            for b in bases.iter().copied() {
                let (Some(bb), Some(hh)) = (&built[b], &built[h]) else { continue };
                if !compare(chk, name, src_v2, (&heads[b], bb), (&heads[h], hh)) {
                    return;
                }
            }
        });
    }
}

/// A refinement, or a reference to an attribute, that states its own deprecation is not the item.
fn satellites(chk: &Arc<Check>) {
    // (kind, base state, satellite state: 0 absent, 1 present, 7/4 own deprecation)
    for kind in KINDS {
        if kind == "attribute_group" {
            continue;
        }
        let mut versions: Vec<(Version, Files)> = vec![];
        for b in [1, 7, 4] {
            for s in [0, 1, 7, 3] {
                let v: Version = vec![(kind, "x.a".to_owned(), b)];
                let mut f = fields(true, s);
                let _ = f.remove("stability");
                let sat = match kind {
                    "attribute" => ("metrics", item(fields(true, 1), json!({"name": "m.sat", "instrument": "counter", "unit": "1", "requirement_level": "recommended",
                        "attributes": [item(f, json!({"ref": "x.a"}))]}))),
                    "metric" => ("metric_refinements", item(f, json!({"id": "a.ref", "ref": "x.a"}))),
                    "event" => ("event_refinements", item(f, json!({"id": "z.ref", "ref": "x.a"}))),
                    "entity" => ("entity_refinements", item(f, json!({"id": "z.ref", "ref": "x.a"}))),
                    _ => ("span_refinements", item(f, json!({"id": "z.ref", "ref": "x.a"}))),
                };
                let extra = if s == 0 { vec![] } else { vec![sat] };
                let files = file(true, &v, &extra);
                // The metric that holds the reference is itself an item.
                let mut v = v;
                if kind == "attribute" && s != 0 {
                    v.push(("metric", "m.sat".to_owned(), 1));
                }
                versions.push((v, files));
            }
        }
        let n = versions.len();
        chk.add_states(n as u64);
        chk.par(0..n * n, |i| format!("satellite-{kind}-{i}"), |chk, name, i| {
            let (vb, fb) = &versions[i / n];
            let (vh, fh) = &versions[i % n];
            match (build(chk, fb), build(chk, fh)) {
                (Ok(b), Ok(h)) => {
                    let _ = compare(chk, name, true, (vb, &b), (vh, &h));
                }
                (a, b) => {
                    let e = [a.err(), b.err()];
                    chk.violation(name, name, json!([fb, fh]), "both versions resolve", &format!("{e:?}"));
                }
            }
        });
    }
}

/// Every report format shows every change.
fn cli(chk: &Arc<Check>) {
    let st: [(usize, usize, &str); 6] = [(0, 1, "added"), (1, 0, "removed"), (1, 4, "renamed"), (1, 7, "obsoleted"), (1, 8, "uncategorized"), (1, 2, "same")];
    let mut items = vec![];
    for src_v2 in [false, true] {
        for as_v2 in [false, true] {
            for fmt in ["json", "markdown", "ansi", "ansi-stats"] {
                for (i, _) in KINDS.iter().enumerate() {
                    items.push((src_v2, as_v2, fmt, i));
                }
            }
        }
    }
    chk.par(items.into_iter(), |(s, a, f, k)| format!("cli-{}-{}-{f}-{}", if *s { "v2" } else { "v1" }, if *a { "as2" } else { "as1" }, KINDS[*k]), |chk, name, (src_v2, as_v2, fmt, k)| {
        let kind = KINDS[k];
        let ver = |head: bool| -> Version {
            st.iter().map(|(b, h, n)| (kind, format!("x.it.{n}"), if head { *h } else { *b })).collect()
        };
        let (base, head) = (ver(false), ver(true));
        let d = chk.fresh("cli");
        for (n, v, ver) in [("base", &base, "1.0.0"), ("head", &head, "1.1.0")] {
            let mut f = file(src_v2, v, &[]);
            f.push(manifest_file(&format!("https://x.org/reg/{ver}"), &[]));
            write_files(&d.join(n), &f);
        }
        let (hp, bp) = (d.join("head").display().to_string(), d.join("base").display().to_string());
        let mut args = vec!["registry", "diff", "-r", &hp, "--baseline-registry", &bp, "--format", fmt];
        if as_v2 {
            args.push("--v2");
        }
        let (code, out, err) = weaver(&args, &d);
        let want = if covered(kind, src_v2, as_v2) { vec!["added", "removed", "renamed", "obsoleted", "uncategorized"] } else { vec![] };
        let mut problems = vec![];
        if code != 0 {
            problems.push(format!("exit {code}: {err}"));
        }
        if fmt == "ansi-stats" {
            for w in ["Added", "Removed", "Renamed", "Obsoleted", "Uncategorized"] {
                let total: usize = out.lines().filter(|l| l.trim().starts_with(w)).filter_map(|l| l.split(':').nth(1)).filter_map(|n| n.trim().parse::<usize>().ok()).sum();
                if total != usize::from(!want.is_empty()) {
                    problems.push(format!("{w}: {total}"));
                }
            }
        } else {
            for (_, _, n) in st {
                let item = format!("x.it.{n}");
                let count = out.matches(&item).count();
                let expect = usize::from(want.contains(&n));
                if count != expect {
                    problems.push(format!("{item} shown {count} times"));
                }
            }
            if !want.is_empty() && out.matches("x.t").count() != 1 {
                problems.push("rename target".into());
            }
        }
        for v in ["1.0.0", "1.1.0"] {
            if !out.contains(v) {
                problems.push(format!("version {v} not shown"));
            }
        }
        chk.outcome(&format!("cli-{fmt}"));
        chk.eval(&(name, &problems), !want.is_empty());
        let _ = chk.expect_eq(name, || json!({"baseline": base, "head": head, "stdout": out}), "[]", &format!("{problems:?}"));
    });
}

fn run(chk: &Arc<Check>) {
    pairs(chk);
    mixed(chk);
    satellites(chk);
    cli(chk);
    chk.sample(|| json!({"kind": "metric", "baseline": {"x.a": "live"}, "head": {"x.a": "renamed to x.t"}, "change": change(true, "x.a", 1, 3)}));
}
