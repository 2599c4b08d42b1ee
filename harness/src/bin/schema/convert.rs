//! C09: the views of a resolved registry (v1, v2, package, templates) hold the same things.
use harness::reg::*;
use harness::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;
use weaver_common::result::WResult;
use weaver_forge::registry::ResolvedRegistry;
use weaver_forge::v2::registry::ForgeResolvedRegistry;
use weaver_resolved_schema::v2::ResolvedTelemetrySchema as V2;
use weaver_resolved_schema::ResolvedTelemetrySchema as V1;

pub const SPEC: Spec = Spec {
    id: "C09",
    level: "exploration",
    rule: "Exhaustive: registries holding two definitions and a refinement of every signal kind plus attribute groups, in v1 and v2 syntax, x (A) every subset of the optional signal fields x every refinement field subset shape; \
           (B) every pair of 18 ways to refer to one attribute, in two signals of every kind; (C) every attribute type x every subset of optional definition fields; (D) 14 awkward texts and values in every text field; \
           (E) every id shape of a v1 signal and of its refinement. For each: v2 schema, its YAML round trip, the v1 and v2 template views equal the views computed from the resolved v1 groups by an independent mapping, \
           with provenance; the conversion is repeated and must be identical. Non-trivial: at least one optional field is set.",
    assumptions: &["resolution into v1 groups itself is C01-C06"],
    run,
};

#[derive(Clone, Default)]
struct Meta {
    /// group id -> (kind, v2 id, base type if a refinement, file)
    groups: BTreeMap<String, (&'static str, String, Option<String>, String)>,
    /// attribute -> file
    attrs: BTreeMap<String, String>,
}

fn put(m: &mut Value, more: &Value) {
    for (k, v) in more.as_object().expect("object") {
        m[k] = v.clone();
    }
}

const OPT: [&str; 6] = ["note", "stability", "deprecated", "annotations", "requirement_level", "entity_associations"];

fn opt_value(f: &str, who: &str) -> Value {
    match f {
        "note" => json!(format!("note of {who}")),
        "stability" => json!("stable"),
        "deprecated" => json!({"reason": "renamed", "renamed_to": "new.thing", "note": format!("dep {who}")}),
        "annotations" => json!({"k": who, "n": {"l": [1, 2.5, null, true, "yes"]}}),
        "requirement_level" => json!("opt_in"),
        _ => json!(["e.a", {"one_of": ["e.b", {"all_of": ["e.a", "e.b"]}]}]),
    }
}

/// What a signal of `kind` states. `set`: optional fields.
fn optional(kind: &str, v2: bool, set: &[&str], who: &str, refinement: bool) -> Value {
    let mut v = json!({});
    for f in OPT {
        let skip = match f {
            "requirement_level" => !v2 || refinement || kind == "attribute_group",
            "entity_associations" => kind == "entity" || kind == "attribute_group",
            "stability" => false,
            _ => false,
        };
        if skip {
            continue;
        }
        if set.contains(&f) {
            v[f] = opt_value(f, who);
        } else if !refinement && (f == "stability" || (f == "requirement_level" && v2)) {
            // required by the syntax (v2) or warned about when missing
            v[f] = json!(if f == "stability" { "development" } else { "recommended" });
        }
    }
    v
}

const KINDS: [&str; 5] = ["metric", "event", "span", "entity", "attribute_group"];

fn pfx(kind: &str) -> &'static str {
    match kind {
        "metric" => "m",
        "event" => "v",
        "span" => "s",
        "entity" => "e",
        _ => "ag",
    }
}

fn base_fields(kind: &str, v2: bool, id: &str) -> Value {
    match (kind, v2) {
        ("metric", true) => json!({"name": id, "brief": format!("b {id}"), "instrument": "updowncounter", "unit": "{x}"}),
        ("event", true) => json!({"name": id, "brief": format!("b {id}")}),
        ("span", true) => json!({"type": id, "brief": format!("b {id}"), "kind": "server", "name": {"note": format!("name of {id}")}}),
        ("entity", true) => json!({"type": id, "brief": format!("b {id}")}),
        ("attribute_group", true) => json!({"id": id, "brief": format!("b {id}"), "visibility": "public"}),
        ("metric", false) => json!({"id": format!("metric.{id}"), "type": "metric", "metric_name": id, "brief": format!("b {id}"), "instrument": "updowncounter", "unit": "{x}"}),
        ("event", false) => json!({"id": format!("event.{id}"), "type": "event", "name": id, "brief": format!("b {id}")}),
        ("span", false) => json!({"id": format!("span.{id}"), "type": "span", "span_kind": "server", "brief": format!("b {id}")}),
        ("entity", false) => json!({"id": format!("entity.{id}"), "type": "entity", "name": id, "brief": format!("b {id}")}),
        _ => json!({"id": id, "type": "attribute_group", "brief": format!("b {id}")}),
    }
}

/// Ways to refer to attribute x.a.
const REFS: usize = 18;
fn reference(i: usize, v2: bool) -> Value {
    let o = match i {
        0 => json!({}),
        1 => json!({"brief": "other brief"}),
        2 => json!({"note": "other note"}),
        3 => json!({"examples": ["other"]}),
        4 => json!({"stability": "beta"}),
        5 => json!({"deprecated": {"reason": "obsoleted", "note": "gone"}}),
        6 => json!({"deprecated": {"reason": "renamed", "renamed_to": "y"}}),
        7 => json!({"annotations": {"own": 1}}),
        8 => json!({"requirement_level": "required"}),
        9 => json!({"requirement_level": "opt_in"}),
        10 => json!({"requirement_level": {"conditionally_required": "if x"}}),
        11 => json!({"requirement_level": {"recommended": "when y"}}),
        12 => json!({"sampling_relevant": true}),
        13 => json!({"sampling_relevant": false}),
        14 => json!({"role": "identifying"}),
        15 => json!({"role": "descriptive"}),
        16 => json!({"brief": "", "requirement_level": "required"}),
        _ => json!({"brief": "other brief", "note": "other note", "stability": "alpha", "requirement_level": {"recommended": ""}}),
    };
    let _ = v2;
    let mut r = json!({"ref": "x.a"});
    put(&mut r, &o);
    r
}

/// A reference as far as the syntax of `kind` allows it.
fn fit(kind: &str, v2: bool, mut r: Value) -> Value {
    let m = r.as_object_mut().expect("object");
    if v2 {
        let _ = m.remove("role");
        if kind != "span" {
            let _ = m.remove("sampling_relevant");
        }
    } else if kind != "entity" {
        let _ = m.remove("role");
    }
    r
}

struct Gen {
    v2: bool,
    files: BTreeMap<String, Value>,
    meta: Meta,
}

impl Gen {
    fn new(v2: bool) -> Self {
        Gen { v2, files: BTreeMap::new(), meta: Meta::default() }
    }
    fn section(&self, kind: &str) -> &'static str {
        if !self.v2 {
            return "groups";
        }
        match kind {
            "metric" => "metrics",
            "event" => "events",
            "span" => "spans",
            "entity" => "entities",
            "attribute_group" => "attribute_groups",
            "attribute" => "attributes",
            "metric_refinement" => "metric_refinements",
            "event_refinement" => "event_refinements",
            "span_refinement" => "span_refinements",
            _ => "entity_refinements",
        }
    }
    fn push(&mut self, file: &str, section: &str, v: Value) {
        let v2 = self.v2;
        let f = self.files.entry(file.to_owned()).or_insert_with(|| if v2 { json!({"file_format": "definition/2"}) } else { json!({}) });
        if f[section].is_null() {
            f[section] = json!([]);
        }
        f[section].as_array_mut().expect("array").push(v);
    }
    fn attribute(&mut self, file: &str, key: &str, mut def: Value) {
        let _ = self.meta.attrs.insert(key.to_owned(), file.to_owned());
        if self.v2 {
            def["key"] = json!(key);
            if def["stability"].is_null() {
                def["stability"] = json!("development");
            }
            self.push(file, "attributes", def);
        } else {
            def["id"] = json!(key);
            let id = format!("registry.{key}");
            let _ = self.meta.groups.insert(id.clone(), ("attribute_group_v1", id.clone(), None, file.to_owned()));
            self.push(file, "groups", json!({"id": id, "type": "attribute_group", "brief": "defs", "attributes": [def]}));
        }
    }
    fn attrs(&self, kind: &str, v: &mut Value, refs: Vec<Value>) {
        let refs: Vec<Value> = refs.into_iter().map(|r| fit(kind, self.v2, r)).collect();
        if kind == "entity" && self.v2 {
            v["identity"] = json!([{"ref": "x.id"}]);
            if !refs.is_empty() {
                v["description"] = json!(refs);
            }
        } else {
            v["attributes"] = json!(refs);
        }
    }
    fn define(&mut self, file: &str, kind: &'static str, id: &str, opts: Value, refs: Vec<Value>) {
        let mut v = base_fields(kind, self.v2, id);
        put(&mut v, &opts);
        self.attrs(kind, &mut v, refs);
        let gid = if self.v2 && kind == "attribute_group" { id.to_owned() } else if self.v2 { format!("{kind}.{id}") } else { v["id"].as_str().expect("id").to_owned() };
        let k = if kind == "attribute_group" && !self.v2 { "attribute_group_v1" } else { kind };
        let _ = self.meta.groups.insert(gid, (k, id.to_owned(), None, file.to_owned()));
        let s = self.section(kind);
        self.push(file, s, v);
    }
    fn refine(&mut self, file: &str, kind: &'static str, id: &str, base: &str, opts: Value, refs: Vec<Value>) {
        let mut v = opts;
        let gid;
        if self.v2 {
            v["id"] = json!(id);
            v["ref"] = json!(base);
            gid = id.to_owned();
            if !refs.is_empty() {
                let refs: Vec<Value> = refs.into_iter().map(|r| fit(kind, true, r)).collect();
                v[if kind == "entity" { "description" } else { "attributes" }] = json!(refs);
            }
            let s = self.section(&format!("{kind}_refinement"));
            self.push(file, s, v);
        } else {
            let mut b = base_fields(kind, false, id);
            put(&mut b, &v);
            b["extends"] = json!(format!("{kind}.{base}"));
            let refs: Vec<Value> = refs.into_iter().map(|r| fit(kind, false, r)).collect();
            b["attributes"] = json!(refs);
            gid = b["id"].as_str().expect("id").to_owned();
            self.push(file, "groups", b);
        }
        let _ = self.meta.groups.insert(gid, (kind, id.to_owned(), Some(base.to_owned()), file.to_owned()));
    }
    fn out(&self) -> Files {
        self.files.iter().map(|(n, v)| (n.clone(), v.to_string())).collect()
    }
}

fn no_empty(m: &mut Map<String, Value>) {
    m.retain(|_, v| !(v.is_null() || v.as_str() == Some("") || v.as_array().is_some_and(|a| a.is_empty()) || v.as_object().is_some_and(|a| a.is_empty())));
}

fn common_of(v: &Value) -> Value {
    let mut m = Map::new();
    for f in ["note", "deprecated", "annotations"] {
        let _ = m.insert(f.into(), v[f].clone());
    }
    no_empty(&mut m);
    let _ = m.insert("brief".into(), json!(v["brief"].as_str().unwrap_or("")));
    let _ = m.insert("stability".into(), if v["stability"].is_null() { json!("development") } else { v["stability"].clone() });
    Value::Object(m)
}

fn attr_view(a: &Value) -> Value {
    let mut v = common_of(a);
    v["key"] = a["name"].clone();
    v["type"] = a["type"].clone();
    if !a["examples"].is_null() {
        v["examples"] = a["examples"].clone();
    }
    v
}

fn by_key(v: &mut Value) {
    if let Some(a) = v.as_array_mut() {
        a.sort_by_key(|x| (x["key"].as_str().unwrap_or("").to_owned(), x.to_string()));
    }
}

fn group_view(g: &Value, kind: &str, v2id: &str, base: &Option<String>) -> Value {
    let mut v = common_of(g);
    let refs = |role: Option<bool>| -> Value {
        let mut l = vec![];
        for a in g["attributes"].as_array().expect("attributes") {
            let ident = a["role"].as_str() == Some("identifying");
            if role.is_some_and(|r| r != ident) {
                continue;
            }
            let mut x = attr_view(a);
            x["requirement_level"] = a["requirement_level"].clone();
            if kind == "span" && !a["sampling_relevant"].is_null() {
                x["sampling_relevant"] = a["sampling_relevant"].clone();
            }
            l.push(x);
        }
        let mut l = json!(l);
        by_key(&mut l);
        l
    };
    let opt = |v: &mut Value, k: &str, x: Value| {
        if !(x.is_null() || x.as_array().is_some_and(|a| a.is_empty())) {
            v[k] = x;
        }
    };
    match kind {
        "entity" => {
            v["identity"] = refs(Some(true));
            opt(&mut v, "description", refs(Some(false)));
            v["type"] = json!(base.clone().unwrap_or_else(|| v2id.to_owned()));
        }
        k => {
            if k == "attribute_group" {
                v["attributes"] = refs(None);
            } else {
                opt(&mut v, "attributes", refs(None));
            }
            match k {
                "metric" => {
                    v["name"] = g["metric_name"].clone();
                    v["instrument"] = g["instrument"].clone();
                    v["unit"] = g["unit"].clone();
                }
                "event" => v["name"] = g["name"].clone(),
                "span" => {
                    v["type"] = json!(base.clone().unwrap_or_else(|| v2id.to_owned()));
                    v["kind"] = if g["span_kind"].is_null() { json!("internal") } else { g["span_kind"].clone() };
                    v["name"] = if g["span_name"].is_null() { json!({"note": g["name"].as_str().unwrap_or("")}) } else { g["span_name"].clone() };
                }
                _ => v["id"] = json!(v2id),
            }
        }
    }
    if kind != "attribute_group" {
        opt(&mut v, "requirement_level", g["requirement_level"].clone());
    }
    if kind != "entity" && kind != "attribute_group" {
        opt(&mut v, "entity_associations", g["entity_associations"].clone());
    }
    v
}

/// The v2 view computed from the v1 groups.
fn expected(groups: &Value, meta: &Meta, defs: &[Value]) -> BTreeMap<String, Value> {
    let mut out: BTreeMap<String, Value> = BTreeMap::new();
    for g in groups.as_array().expect("groups") {
        let id = g["id"].as_str().expect("id");
        let Some((kind, v2id, base, _)) = meta.groups.get(id) else {
            if g["type"] == json!("attribute_group") {
                continue; // the synthesized definition group
            }
            let _ = out.insert(format!("unexpected {id}"), g.clone());
            continue;
        };
        if *kind == "attribute_group_v1" {
            continue;
        }
        let v = group_view(g, kind, v2id, base);
        if base.is_none() {
            let _ = out.insert(format!("{kind} {v2id}"), v.clone());
        }
        if *kind != "attribute_group" {
            let mut v = v;
            v["id"] = json!(v2id);
            let _ = out.insert(format!("{kind}_refinement {v2id}"), v);
        }
    }
    for a in defs {
        let v = attr_view(a);
        let _ = out.insert(format!("attribute {}", a["name"].as_str().expect("name")), v);
    }
    out
}

fn sections() -> Vec<(&'static str, &'static str, &'static str, &'static str)> {
    vec![
        ("registry", "metrics", "metric", "name"),
        ("registry", "events", "event", "name"),
        ("registry", "spans", "span", "type"),
        ("registry", "entities", "entity", "type"),
        ("registry", "attribute_groups", "attribute_group", "id"),
        ("refinements", "metrics", "metric_refinement", "id"),
        ("refinements", "events", "event_refinement", "id"),
        ("refinements", "spans", "span_refinement", "id"),
        ("refinements", "entities", "entity_refinement", "id"),
    ]
}

fn insert(out: &mut BTreeMap<String, Value>, k: String, v: Value) {
    if let Some(old) = out.insert(k.clone(), v) {
        let _ = out.insert(format!("duplicate {k}"), old);
    }
}

/// Replaces an association leaf by the name it points to (checked to be local, or from `source`).
fn leaf_names(v: &Value, source: &Value) -> Value {
    match v {
        Value::Object(m) if m.contains_key("type") => {
            if m.get("provenance").map(|p| &p["source"]).unwrap_or(&Value::Null) == source {
                m["type"].clone()
            } else {
                json!({"unexpected source": v})
            }
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), leaf_names(v, source))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(|v| leaf_names(v, source)).collect()),
        x => x.clone(),
    }
}

/// View of the v2 schema: everything by name, attribute references looked up.
fn v2_view(s: &Value, source: &Value) -> Result<BTreeMap<String, Value>, String> {
    let cat = s["attribute_catalog"].as_array().ok_or("no catalog")?;
    let clean = |a: &Value| -> Result<Value, String> {
        let mut a = a.clone();
        let m = a.as_object_mut().ok_or("attr")?;
        let p = m.remove("provenance").unwrap_or(Value::Null);
        if &p["source"] != source {
            return Err(format!("attribute {} comes from {p}", m["key"]));
        }
        Ok(a)
    };
    let look = |r: &Value| -> Result<Value, String> {
        let i = r.as_u64().ok_or("ref")? as usize;
        clean(cat.get(i).ok_or_else(|| format!("dangling reference {i}"))?)
    };
    let mut out = BTreeMap::new();
    for r in s["registry"]["attributes"].as_array().ok_or("attributes")? {
        let a = look(r)?;
        insert(&mut out, format!("attribute {}", a["key"].as_str().unwrap_or("?")), a);
    }
    for (top, sec, kind, key) in sections() {
        for g in s[top][sec].as_array().ok_or(format!("{top}.{sec}"))? {
            let mut v = g.clone();
            for list in ["attributes", "identity", "description"] {
                if v[list].is_array() {
                    let mut l = vec![];
                    for r in v[list].as_array().ok_or("list")? {
                        let mut a = look(&r["base"])?;
                        for (k, x) in r.as_object().ok_or("ref")? {
                            if k != "base" {
                                a[k] = x.clone();
                            }
                        }
                        l.push(a);
                    }
                    v[list] = json!(l);
                    by_key(&mut v[list]);
                } else {
                    let _ = v.as_object_mut().expect("object").remove(list);
                }
            }
            let m = v.as_object_mut().ok_or("signal")?;
            let p = m.remove("provenance").unwrap_or(Value::Null);
            if &p["source"] != source {
                return Err(format!("{kind} {} comes from {p}", g[key]));
            }
            if let Some(e) = m.get("entity_associations") {
                let e = leaf_names(e, source);
                let _ = m.insert("entity_associations".into(), e);
            }
            insert(&mut out, format!("{kind} {}", g[key].as_str().unwrap_or("?")), v);
        }
    }
    Ok(out)
}

/// View of the v2 template registry; provenance paths are collected apart.
fn forge_view(s: &Value, paths: &mut BTreeMap<String, String>) -> Result<BTreeMap<String, Value>, String> {
    let mut out = BTreeMap::new();
    let mut strip = |name: String, v: &mut Value, own: bool| {
        let p = v.as_object_mut().and_then(|m| m.remove("provenance")).unwrap_or(Value::Null);
        let p = p["path"].as_str().unwrap_or("").rsplit('/').next().unwrap_or("").to_owned();
        if own {
            let _ = paths.insert(name, p);
        } else {
            let _ = paths.entry(format!("use of {name}")).or_insert(p);
        }
    };
    for a in s["registry"]["attributes"].as_array().ok_or("attributes")? {
        let mut a = a.clone();
        let n = format!("attribute {}", a["key"].as_str().unwrap_or("?"));
        strip(n.clone(), &mut a, true);
        insert(&mut out, n, a);
    }
    for (top, sec, kind, key) in sections() {
        let l = s[top][sec].as_array().ok_or(format!("{top}.{sec}"))?;
        let ids: Vec<&str> = l.iter().map(|g| g[key].as_str().unwrap_or("")).collect();
        if kind != "attribute_group" && !ids.windows(2).all(|w| w[0] <= w[1]) {
            return Err(format!("{top}.{sec} is not sorted: {ids:?}"));
        }
        for g in l {
            let mut v = g.clone();
            let n = format!("{kind} {}", g[key].as_str().unwrap_or("?"));
            strip(n.clone(), &mut v, true);
            for list in ["attributes", "identity", "description"] {
                if let Some(a) = v[list].as_array_mut() {
                    for x in a.iter_mut() {
                        let an = format!("attribute {}", x["key"].as_str().unwrap_or("?"));
                        strip(an, x, false);
                    }
                } else {
                    let _ = v.as_object_mut().expect("object").remove(list);
                }
                if v.get(list).is_some() {
                    by_key(&mut v[list]);
                }
            }
            if let Some(e) = v.get("entity_associations") {
                v["entity_associations"] = leaf_names(e, &Value::Null);
            }
            insert(&mut out, n, v);
        }
    }
    Ok(out)
}

fn resolve(d: &Path, files: &Files) -> Result<V1, String> {
    write_files(d, files);
    let r = resolve_dir(d);
    let bad: Vec<String> = diag(&r).into_iter().filter(|e| !matches!(variant(e).as_str(), "UnstructuredDeprecatedProperty" | "InvalidExampleWarning" | "InvalidGroupStability")).collect();
    if !bad.is_empty() {
        return Err(format!("unexpected diagnostics {bad:?}"));
    }
    let Some(s) = r.schema else { return Err(format!("{:?}", r.fatal)) };
    s.into_v1().map_err(|e| e.to_string())
}

fn diff_maps(want: &BTreeMap<String, Value>, got: &BTreeMap<String, Value>) -> Option<(String, String)> {
    if want == got {
        return None;
    }
    let mut w = vec![];
    let mut g = vec![];
    let keys: std::collections::BTreeSet<&String> = want.keys().chain(got.keys()).collect();
    for k in keys {
        if want.get(k) != got.get(k) {
            w.push(format!("{k} = {}", want.get(k).map(|v| v.to_string()).unwrap_or("absent".into())));
            g.push(format!("{k} = {}", got.get(k).map(|v| v.to_string()).unwrap_or("absent".into())));
        }
    }
    Some((w.join("\n"), g.join("\n")))
}

fn check(chk: &Arc<Check>, name: &str, g: &Gen, nontrivial: bool) {
    let d = chk.fresh("r");
    let files = g.out();
    let input = || json!(files);
    let v1 = match resolve(&d, &files) {
        Ok(v) => v,
        Err(e) => {
            chk.violation(name, name, input(), "the registry resolves", &e);
            return;
        }
    };
    let groups = match expand_v1(&v1) {
        Ok(g) => g,
        Err(e) => {
            chk.violation(name, name, input(), "no dangling reference", &e);
            return;
        }
    };
    // Definitions: as in the group of the file that defines them.
    let mut defs = vec![];
    for grp in groups.as_array().expect("groups") {
        let gid = grp["id"].as_str().expect("id");
        for a in grp["attributes"].as_array().expect("attributes") {
            let n = a["name"].as_str().expect("name");
            if let Some(file) = g.meta.attrs.get(n) {
                let defining = if g.v2 { gid.starts_with("registry.") && gid.ends_with(&format!(".{}", file.trim_end_matches(".yaml"))) && !g.meta.groups.contains_key(gid) } else { gid == format!("registry.{n}") };
                if defining {
                    defs.push(a.clone());
                }
            }
        }
    }
    if defs.len() != g.meta.attrs.len() {
        chk.violation(name, name, input(), &format!("{:?}", g.meta.attrs), &format!("{defs:?}"));
        return;
    }
    let want = expected(&groups, &g.meta, &defs);
    chk.add_states(want.len() as u64);
    let conv = || -> Result<(V2, Value), String> {
        let v2: V2 = v1.clone().try_into().map_err(|e: weaver_resolved_schema::error::Error| e.to_string())?;
        let j = serde_json::to_value(&v2).map_err(|e| e.to_string())?;
        Ok((v2, j))
    };
    let (v2, j) = match conv() {
        Ok(x) => x,
        Err(e) => {
            chk.violation(name, name, input(), "the conversion succeeds", &e);
            return;
        }
    };
    if let Ok((_, j2)) = conv() {
        if j.to_string() != j2.to_string() {
            chk.violation(name, name, input(), &j.to_string(), &j2.to_string());
            return;
        }
    }
    let report = |what: &str, d: Option<(String, String)>| -> bool {
        if let Some((w, g)) = d {
            let _ = chk.expect_eq(name, || json!({"files": files, "view": what}), &format!("{what}: {w}"), &format!("{what}: {g}"));
            true
        } else {
            false
        }
    };
    match v2_view(&j, &Value::Null) {
        Ok(got) => {
            if report("v2 schema", diff_maps(&want, &got)) {
                return;
            }
        }
        Err(e) => {
            chk.violation(name, name, input(), "a well-formed v2 schema", &e);
            return;
        }
    }
    // package round trip
    let text = serde_yaml::to_string(&v2).unwrap_or_default();
    match serde_yaml::from_str::<V2>(&text).map_err(|e| e.to_string()).and_then(|b| serde_json::to_value(&b).map_err(|e| e.to_string())) {
        Ok(back) => {
            if back != j {
                chk.violation(name, name, input(), &format!("round trip: {j}"), &format!("round trip: {back}"));
                return;
            }
        }
        Err(e) => {
            chk.violation(name, name, input(), "the package reads back", &e);
            return;
        }
    }
    // templates, v2
    let mut null = weaver_resolver::NullSchemaResolver;
    let forge = match ForgeResolvedRegistry::try_from_resolved_schema(v2, &mut null) {
        WResult::Ok(f) | WResult::OkWithNFEs(f, _) => f,
        WResult::FatalErr(e) => {
            chk.violation(name, name, input(), "template registry", &e.to_string());
            return;
        }
    };
    let mut paths = BTreeMap::new();
    match forge_view(&serde_json::to_value(&forge).expect("json"), &mut paths) {
        Ok(mut got) => {
            // Templates always see the list, even when empty.
            for v in got.values_mut() {
                no_empty_lists(v);
            }
            let mut want = want.clone();
            for v in want.values_mut() {
                no_empty_lists(v);
            }
            if report("v2 templates", diff_maps(&want, &got)) {
                return;
            }
        }
        Err(e) => {
            chk.violation(name, name, input(), "a well-formed template registry", &e);
            return;
        }
    }
    let mut want_paths: BTreeMap<String, String> = BTreeMap::new();
    for (kind, id, base, file) in g.meta.groups.values() {
        if *kind == "attribute_group_v1" {
            continue;
        }
        if base.is_none() {
            let _ = want_paths.insert(format!("{kind} {id}"), file.clone());
        }
        if *kind != "attribute_group" {
            let _ = want_paths.insert(format!("{kind}_refinement {id}"), file.clone());
        }
    }
    for (a, f) in &g.meta.attrs {
        let _ = want_paths.insert(format!("attribute {a}"), f.clone());
        if paths.contains_key(&format!("use of attribute {a}")) {
            let _ = want_paths.insert(format!("use of attribute {a}"), f.clone());
        }
    }
    if want_paths != paths {
        let _ = chk.expect_eq(name, input, &format!("{want_paths:?}"), &format!("{paths:?}"));
        return;
    }
    // templates, v1
    match ResolvedRegistry::try_from_resolved_registry(&v1.registry, &v1.catalog) {
        Ok(f) => {
            let j = serde_json::to_value(&f).expect("json");
            let mut got = vec![];
            for g in j["groups"].as_array().expect("groups") {
                let mut g = g.clone();
                if let Some(m) = g.as_object_mut() {
                    let _ = m.remove("lineage");
                    if !m.contains_key("attributes") {
                        let _ = m.insert("attributes".into(), json!([]));
                    }
                    if !m.contains_key("brief") {
                        let _ = m.insert("brief".into(), json!(""));
                    }
                }
                if let Some(a) = g["attributes"].as_array_mut() {
                    a.sort_by_key(|x| x["name"].as_str().unwrap_or("").to_owned());
                }
                got.push(g);
            }
            let mut want: Vec<Value> = vec![];
            for g1 in groups.as_array().expect("groups") {
                let id = g1["id"].as_str().expect("id");
                if g.v2 && g.meta.groups.get(id).is_some_and(|m| m.2.is_some()) {
                    continue;
                }
                let mut g1 = g1.clone();
                let m = g1.as_object_mut().expect("object");
                let _ = m.remove("requirement_level");
                let _ = m.remove("span_name");
                want.push(g1);
            }
            want.sort_by_key(|g| g["id"].as_str().unwrap_or("").to_owned());
            if want != got {
                let _ = chk.expect_eq(name, input, &format!("v1 templates: {}", json!(want)), &format!("v1 templates: {}", json!(got)));
                return;
            }
        }
        Err(e) => {
            chk.violation(name, name, input(), "v1 template registry", &e.to_string());
            return;
        }
    }
    chk.add_traces(1);
    chk.outcome(if g.v2 { "v2 source" } else { "v1 source" });
    chk.eval(&(name, j.to_string()), nontrivial);
}

fn no_empty_lists(v: &mut Value) {
    if let Some(m) = v.as_object_mut() {
        m.retain(|_, x| !x.as_array().is_some_and(|a| a.is_empty()));
    }
}

/// The common scenery: two entities and attribute x.a (and x.id) in a file of their own.
fn scenery(v2: bool, def: Value) -> Gen {
    let mut g = Gen::new(v2);
    g.attribute("attrs.yaml", "x.a", def);
    g.attribute("attrs2.yaml", "x.id", json!({"type": "string", "brief": "b", "examples": ["q"], "stability": "stable"}));
    g
}

fn std_def() -> Value {
    json!({"type": "string", "brief": "brief of x.a", "note": "note of x.a", "examples": ["one", "two"], "stability": "stable", "annotations": {"def": true}})
}

fn add_signals(g: &mut Gen, set: &[&str], rset: Option<&[&str]>, i: usize, j: usize) {
    let v2 = g.v2;
    for kind in KINDS {
        let mut ra = vec![reference(i, v2)];
        let mut rb = vec![reference(j, v2)];
        if kind == "entity" && !v2 {
            ra.push(json!({"ref": "x.id", "role": "identifying"}));
            rb.push(json!({"ref": "x.id", "role": "identifying"}));
        }
        let p = pfx(kind);
        g.define(&format!("{kind}-a.yaml"), kind, &format!("{p}.a"), optional(kind, v2, set, "a", false), ra);
        g.define(&format!("{kind}-b.yaml"), kind, &format!("{p}.b"), optional(kind, v2, &[], "b", false), rb);
        if let (Some(r), true) = (rset, kind != "attribute_group") {
            let mut o = optional(kind, v2, r, "r", true);
            if v2 && r.contains(&"brief") {
                o["brief"] = json!("own brief");
            }
            let refs = if r.contains(&"attr") { vec![reference(j, v2)] } else { vec![] };
            let refs = if refs.is_empty() && !v2 { vec![json!({"ref": "x.id"})] } else { refs };
            if !v2 {
                o["stability"] = o.get("stability").cloned().unwrap_or(json!("development"));
            }
            g.refine(&format!("{kind}-r.yaml"), kind, &format!("{p}.r"), &format!("{p}.a"), o, refs);
        }
    }
}

fn run(chk: &Arc<Check>) {
    // (A) optional fields
    let mut rshapes: Vec<Option<Vec<&str>>> = vec![
        None,
        Some(vec![]),
        Some(vec!["note", "deprecated", "attr"]),
        Some(vec!["note", "stability", "deprecated", "annotations", "requirement_level", "entity_associations", "brief", "attr"]),
        Some(vec!["brief", "annotations", "requirement_level"]),
        Some(vec!["stability", "entity_associations", "attr"]),
    ];
    if chk.thorough() {
        let all = ["note", "stability", "deprecated", "annotations", "entity_associations", "brief", "attr"];
        for m in 0..1usize << all.len() {
            rshapes.push(Some(all.iter().enumerate().filter(|(i, _)| m & (1 << i) != 0).map(|(_, f)| *f).collect()));
        }
    }
    let mut items = vec![];
    for v2 in [false, true] {
        for m in 0..1usize << OPT.len() {
            for r in 0..rshapes.len() {
                items.push((v2, m, r));
            }
        }
    }
    chk.par(items.into_iter(), |(v2, m, r)| format!("fields-{v2}-{m}-{r}"), |chk, name, (v2, m, r)| {
        let set: Vec<&str> = OPT.iter().enumerate().filter(|(i, _)| m & (1 << i) != 0).map(|(_, f)| *f).collect();
        let mut g = scenery(v2, std_def());
        add_signals(&mut g, &set, rshapes[r].as_deref(), 0, 1);
        check(chk, name, &g, m != 0);
    });
    // (B) attribute references
    let mut items = vec![];
    for v2 in [false, true] {
        for i in 0..REFS {
            for j in 0..REFS {
                for r in [false, true] {
                    items.push((v2, i, j, r));
                }
            }
        }
    }
    chk.par(items.into_iter(), |(v2, i, j, r)| format!("refs-{v2}-{i}-{j}-{r}"), |chk, name, (v2, i, j, r)| {
        let mut g = scenery(v2, std_def());
        let rs = ["attr"];
        add_signals(&mut g, &[], r.then_some(&rs[..]), i, j);
        check(chk, name, &g, i + j > 0);
    });
    // (C) definitions
    let types: Vec<(Value, Value)> = vec![
        (json!("string"), json!(["e"])),
        (json!("string"), json!("single")),
        (json!("int"), json!([1, 2])),
        (json!("int"), json!(-3)),
        (json!("double"), json!([1.5, 2.0])),
        (json!("boolean"), json!([true, false])),
        (json!("boolean"), json!(true)),
        (json!("string[]"), json!([["a", "b"], ["c"]])),
        (json!("string[]"), json!(["a", "b"])),
        (json!("int[]"), json!([[1, 2]])),
        (json!("double[]"), json!([[1.0]])),
        (json!("boolean[]"), json!([[true]])),
        (json!("any"), json!(["x"])),
        (json!("any"), json!([[1], [2, 3]])),
        (json!("template[string]"), json!(["t"])),
        (json!("template[int]"), json!([1])),
        (json!("template[string[]]"), json!([["t"]])),
        (json!({"members": [{"id": "m1", "value": "v1", "brief": "b", "note": "n", "stability": "stable"}, {"id": "m2", "value": "v2", "stability": "beta", "deprecated": {"reason": "renamed", "renamed_to": "v1"}, "annotations": {"z": 1}}]}), json!(["v1"])),
        (json!({"members": [{"id": "m1", "value": 1, "stability": "stable"}, {"id": "m2", "value": 2, "brief": "two", "stability": "development"}]}), json!([1])),
        (json!({"members": [{"id": "m1", "value": 1.5, "stability": "stable"}]}), json!([1.5])),
        (json!({"members": [{"id": "m1", "value": true, "stability": "stable"}]}), json!([true])),
    ];
    let opt = ["examples", "note", "stability", "deprecated", "annotations"];
    let mut items = vec![];
    for v2 in [false, true] {
        for t in 0..types.len() {
            for m in 0..32usize {
                items.push((v2, t, m));
            }
        }
    }
    chk.par(items.into_iter(), |(v2, t, m)| format!("def-{v2}-{t}-{m}"), |chk, name, (v2, t, m)| {
        let mut def = json!({"type": types[t].0, "brief": "b"});
        for (i, f) in opt.iter().enumerate() {
            let on = m & (1 << i) != 0;
            if *f == "examples" {
                // string attributes without examples are warned about
                if on || types[t].0.as_str().is_some_and(|t| t.contains("string") || t == "any") {
                    def["examples"] = types[t].1.clone();
                }
            } else if on {
                def[*f] = opt_value(f, "attr");
            }
        }
        if def["stability"].is_null() {
            def["stability"] = json!("release_candidate");
        }
        let mut g = scenery(v2, def);
        add_signals(&mut g, &[], None, 0, 8);
        check(chk, name, &g, m != 0);
    });
    // (D) awkward texts and values
    let texts = ["", " ", "two\nlines", "trailing \n", "# hash", "a: b", "- dash", "'quote'", "\"dq\" \\ back", "ünï ✓ 🙂", "tab\there", "yes", "1.0", "null", "~", "{{ x }}", "line\r\nend", "  lead"];
    let values = [json!(null), json!("null"), json!(1), json!(-1.5), json!("1"), json!(true), json!("true"), json!([]), json!({}), json!([[], {}]), json!({"a b": {"c": null}}), json!(u64::MAX), json!("2020-01-01"), json!("0x10"), json!({"1": "one"})];
    let mut items = vec![];
    for v2 in [false, true] {
        for t in 0..texts.len() {
            items.push((v2, t, 0));
        }
        for v in 0..values.len() {
            items.push((v2, 0, v + 1));
        }
    }
    chk.par(items.into_iter(), |(v2, t, v)| format!("text-{v2}-{t}-{v}"), |chk, name, (v2, t, v)| {
        let mut def = std_def();
        if v == 0 {
            def["brief"] = json!(texts[t]);
            def["note"] = json!(texts[t]);
            def["examples"] = json!([texts[t], "x"]);
            def["deprecated"] = json!({"reason": "obsoleted", "note": texts[t]});
        } else {
            def["annotations"] = json!({"k": values[v - 1], "list": [values[v - 1]]});
        }
        let mut g = scenery(v2, def);
        add_signals(&mut g, &[], None, 0, 1);
        for kind in KINDS {
            let mut o = optional(kind, v2, &[], "t", false);
            if v == 0 {
                o["brief"] = json!(texts[t]);
                o["note"] = json!(texts[t]);
                o["deprecated"] = json!({"reason": "uncategorized", "note": texts[t]});
            } else {
                o["annotations"] = json!({"k": values[v - 1], "list": [values[v - 1]]});
            }
            let r = if kind == "entity" && !v2 { vec![json!({"ref": "x.id", "role": "identifying"})] } else if kind == "entity" { vec![json!({"ref": "x.a"})] } else { vec![json!({"ref": "x.id"})] };
            g.define("texts.yaml", kind, &format!("{}.text", pfx(kind)), o, r);
        }
        check(chk, name, &g, true);
    });
    // (E) ids of v1 groups
    let shapes = |kind: &str, x: &str| -> Vec<String> { vec![format!("{kind}.{x}"), x.to_owned(), format!("{kind}.{kind}.{x}"), format!("my.{kind}.{x}"), format!("resource.{x}"), format!("{kind}{x}")] };
    let mut items = vec![];
    for k in 0..4 {
        for i in 0..6 {
            for j in 0..7 {
                items.push((k, i, j));
            }
        }
    }
    chk.par(items.into_iter(), |(k, i, j)| format!("ids-{k}-{i}-{j}"), |chk, name, (k, i, j)| {
        let kind = KINDS[k];
        let strip = |gid: &str| gid.strip_prefix(&format!("{kind}.")).unwrap_or(gid).to_owned();
        let mut g = scenery(false, std_def());
        let gid = shapes(kind, "base")[i].clone();
        let refs = if kind == "entity" { json!([{"ref": "x.id", "role": "identifying"}]) } else { json!([{"ref": "x.a"}]) };
        let mut b = base_fields(kind, false, "the.name");
        b["id"] = json!(gid);
        b["stability"] = json!("stable");
        b["attributes"] = refs.clone();
        g.push("base.yaml", "groups", b);
        let v2id = if kind == "span" { strip(&gid) } else { "the.name".to_owned() };
        let _ = g.meta.groups.insert(gid.clone(), (kind, v2id.clone(), None, "base.yaml".into()));
        if j < 6 {
            let rid = shapes(kind, "refined")[j].clone();
            
            let mut r = base_fields(kind, false, "other.name");
            r["id"] = json!(rid);
            r["stability"] = json!("beta");
            r["extends"] = json!(gid);
            r["attributes"] = refs;
            g.push("refined.yaml", "groups", r);
            let _ = g.meta.groups.insert(rid.clone(), (kind, strip(&rid), Some(v2id), "refined.yaml".into()));
        }
        check(chk, name, &g, i + j > 0);
    });
    chk.sample(|| {
        let mut g = scenery(true, std_def());
        add_signals(&mut g, &["note"], Some(&["attr"]), 0, 1);
        json!(g.files)
    });
}
