//! C03: inheritance. A group gets the attributes of the groups it extends/includes with its own
//! refinements on top; a v2 refinement gets its base's fields.
use harness::reg::*;
use harness::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

pub const SPEC: Spec = Spec {
    id: "C03",
    level: "exploration",
    rule: "Exhaustive: (A) every acyclic `extends` shape over three v1 groups and a defining group x every combination of per-attribute \
           refinements (none, bare, brief, requirement level, both; note on a second attribute) x assignment of group types; (B) every v2 shape of two attribute groups \
           (public/internal, one optionally including the other), a signal including any subset of them, and a refinement of that signal including any subset, x per-attribute \
           refinements x four signal kinds; (C) every subset of fields stated by a v2 signal and by its refinement; (D) every role assignment in an entity and its refinement; \
           (E) every pair of attribute fields x every set of levels (definition, base, included/middle, own) stating each x four chain shapes x attribute defined inline in the base or elsewhere. \
           Oracle: an independent model (own > included > parent > definition, field by field) of every group of the resolved schema, or of the exact error. \
           Non-trivial: at least one group inherits something.",
    assumptions: &["attribute annotations are not part of the compared fields (see C02)"],
    run,
};

type Over = BTreeMap<&'static str, &'static str>;
type Attrs = BTreeMap<&'static str, Over>;

fn merge(base: &Attrs, over: &Attrs) -> Attrs {
    let mut out = base.clone();
    for (k, o) in over {
        let e = out.entry(k).or_default();
        for (f, v) in o {
            let _ = e.insert(f, v);
        }
    }
    out
}

/// All definitions used by the fixtures.
fn defs() -> Attrs {
    let mut m = Attrs::new();
    let _ = m.insert("x.a", Over::from([("brief", "def a"), ("requirement_level", "recommended")]));
    let _ = m.insert("x.b", Over::from([("brief", "def b"), ("note", "note of b"), ("requirement_level", "recommended")]));
    let _ = m.insert("x.c", Over::from([("brief", "def c"), ("requirement_level", "recommended")]));
    m
}

fn finish(a: &Attrs) -> Value {
    let d = defs();
    let mut m = Map::new();
    for (k, o) in a {
        let mut e = d[k].clone();
        for (f, v) in o {
            let _ = e.insert(f, v);
        }
        let _ = m.insert((*k).to_owned(), json!(e));
    }
    Value::Object(m)
}

fn observed_attrs(g: &Value) -> Value {
    let mut m = Map::new();
    for a in g["attributes"].as_array().expect("arr") {
        let mut e = Map::new();
        for f in ["brief", "note", "requirement_level"] {
            if let Some(v) = a.get(f) {
                if !v.is_null() && v.as_str() != Some("") {
                    let _ = e.insert(f.to_owned(), v.clone());
                }
            }
        }
        let n = a["name"].as_str().expect("name").to_owned();
        if m.insert(n, Value::Object(e)).is_some() {
            let _ = m.insert("DUPLICATE".into(), a["name"].clone());
        }
    }
    Value::Object(m)
}

fn refs(a: &Attrs) -> Vec<Value> {
    a.iter()
        .map(|(k, o)| {
            let mut m = Map::new();
            let _ = m.insert("ref".into(), json!(k));
            for (f, v) in o {
                let _ = m.insert((*f).to_owned(), json!(v));
            }
            Value::Object(m)
        })
        .collect()
}

fn act_a(n: usize, who: usize) -> Option<Over> {
    const B: [&str; 5] = ["brief 0", "brief 1", "brief 2", "brief 3", "brief 4"];
    const R: [&str; 5] = ["required", "opt_in", "recommended", "required", "opt_in"];
    match n {
        0 => None,
        1 => Some(Over::new()),
        2 => Some(Over::from([("brief", B[who])])),
        3 => Some(Over::from([("requirement_level", R[who])])),
        _ => Some(Over::from([("brief", B[who]), ("requirement_level", R[who])])),
    }
}
fn act_b(n: usize, who: usize) -> Option<Over> {
    const N: [&str; 5] = ["note 0", "note 1", "note 2", "note 3", "note 4"];
    match n {
        0 => None,
        _ => Some(Over::from([("note", N[who])])),
    }
}
fn attrs(a: usize, b: usize, who: usize) -> Attrs {
    let mut m = Attrs::new();
    if let Some(o) = act_a(a, who) {
        let _ = m.insert("x.a", o);
    }
    if let Some(o) = act_b(b, who) {
        let _ = m.insert("x.b", o);
    }
    m
}

fn compare(chk: &Check, name: &str, files: &Files, expected: &BTreeMap<String, Value>, err: Option<&str>, nontrivial: bool) {
    let dir = chk.fresh("reg");
    write_files(&dir, files);
    let r = resolve_dir(&dir);
    let exp = match err {
        Some(e) => format!("error {e}"),
        None => json!(expected).to_string(),
    };
    let act = match r.v1() {
        None => {
            let vs: std::collections::BTreeSet<String> = r.fatal.iter().map(|e| variant(e)).collect();
            format!("error {}", vs.into_iter().collect::<Vec<_>>().join("+"))
        }
        Some(s) => match expand_v1(s) {
            Err(e) => e,
            Ok(v) => {
                let m: BTreeMap<String, Value> = v
                    .as_array()
                    .expect("arr")
                    .iter()
                    .filter(|g| expected.contains_key(g["id"].as_str().unwrap_or("")))
                    .map(|g| (g["id"].as_str().unwrap_or("").to_owned(), observed_attrs(g)))
                    .collect();
                json!(m).to_string()
            }
        },
    };
    chk.eval(&(name, &act), nontrivial);
    chk.outcome(if err.is_some() { "rejected" } else { "resolved" });
    chk.sample(|| json!({"case": name, "resolved": act}));
    let _ = chk.expect_eq(name, || json!(files), &exp, &act);
}

fn js(v: Value) -> String {
    v.to_string()
}

fn defs_v1() -> Value {
    json!({"id": "registry.x", "type": "attribute_group", "brief": "d", "attributes": [
        {"id": "x.a", "type": "string", "brief": "def a", "stability": "stable", "examples": ["e"]},
        {"id": "x.b", "type": "int", "brief": "def b", "note": "note of b", "stability": "stable"},
    ]})
}
fn defs_v2() -> String {
    js(json!({"file_format": "definition/2", "attributes": [
        {"key": "x.a", "type": "string", "brief": "def a", "stability": "stable", "examples": ["e"]},
        {"key": "x.b", "type": "int", "brief": "def b", "note": "note of b", "stability": "stable"},
        {"key": "x.c", "type": "int", "brief": "def c", "stability": "stable"},
    ]}))
}

fn v1_group(i: usize, ty: &str, parent: Option<String>, a: &Attrs) -> Value {
    let mut g = match ty {
        "span" => json!({"type": "span", "span_kind": "client", "stability": "stable"}),
        "metric" => json!({"type": "metric", "metric_name": format!("m{i}"), "instrument": "counter", "unit": "1", "stability": "stable"}),
        "event" => json!({"type": "event", "name": format!("e{i}"), "stability": "stable"}),
        "entity" => json!({"type": "entity", "name": format!("t{i}"), "stability": "stable"}),
        _ => json!({"type": "attribute_group"}),
    };
    g["id"] = json!(format!("g{i}"));
    g["brief"] = json!("b");
    if let Some(p) = parent {
        g["extends"] = json!(p);
    }
    if !a.is_empty() {
        g["attributes"] = json!(refs(a));
    }
    g
}

fn run_v1(chk: &Arc<Check>) {
    let mut shapes: Vec<Vec<usize>> = vec![];
    // parent code: 0 none, 1 defining group, 2+j group j
    for v in product(&[5, 5, 5]).collect::<Vec<_>>() {
        let ok = (0..3).all(|i| {
            let mut seen = vec![i];
            let mut c = v[i];
            while c >= 2 {
                let j = c - 2;
                if seen.contains(&j) {
                    return false;
                }
                seen.push(j);
                c = v[j];
            }
            true
        });
        if ok {
            shapes.push(v);
        }
    }
    let na = if chk.thorough() { 5 } else { 4 };
    let types: Vec<[&str; 3]> = if chk.thorough() {
        vec![["attribute_group", "span", "metric"], ["metric", "attribute_group", "event"], ["span", "span", "span"], ["entity", "entity", "attribute_group"], ["event", "metric", "span"]]
    } else {
        vec![["attribute_group", "span", "metric"], ["event", "attribute_group", "entity"]]
    };
    let acts: Vec<Vec<usize>> = product(&[na, 2, na, 2, na, 2]).collect();
    let cases = types.iter().enumerate().flat_map(|(t, _)| {
        let shapes = &shapes;
        let acts = &acts;
        (0..shapes.len()).flat_map(move |s| (0..acts.len()).map(move |a| (t, s, a)))
    });
    chk.par(
        cases,
        |(t, s, a)| format!("v1-t{t}-s{:?}-a{:?}", shapes[*s], acts[*a]).replace(", ", ""),
        |chk, name, (t, s, a)| {
            let sh = &shapes[s];
            let ac = &acts[a];
            let own: Vec<Attrs> = (0..3).map(|i| attrs(ac[2 * i], ac[2 * i + 1], i)).collect();
            fn eff(i: usize, sh: &[usize], own: &[Attrs]) -> Attrs {
                let base = match sh[i] {
                    0 => Attrs::new(),
                    1 => Attrs::from([("x.a", Over::new()), ("x.b", Over::new())]),
                    j => eff(j - 2, sh, own),
                };
                merge(&base, &own[i])
            }
            let mut exp = BTreeMap::new();
            let mut groups = vec![];
            for i in 0..3 {
                let parent = match sh[i] {
                    0 => None,
                    1 => Some("registry.x".to_owned()),
                    j => Some(format!("g{}", j - 2)),
                };
                groups.push(v1_group(i, types[t][i], parent, &own[i]));
                let _ = exp.insert(format!("g{i}"), finish(&eff(i, sh, &own)));
            }
            groups.push(defs_v1());
            let _ = exp.insert("registry.x".to_owned(), finish(&Attrs::from([("x.a", Over::new()), ("x.b", Over::new())])));
            let files: Files = vec![("r.yaml".into(), js(json!({"groups": groups})))];
            compare(chk, name, &files, &exp, None, sh.iter().any(|p| *p > 0));
        },
    );
}

fn with_includes(inc: &[&str], a: &Attrs, front: bool) -> Vec<Value> {
    let mut r = refs(a);
    let i: Vec<Value> = inc.iter().map(|g| json!({"ref_group": g})).collect();
    if front {
        let mut v = i;
        v.append(&mut r);
        v
    } else {
        r.extend(i);
        r
    }
}

fn run_v2(chk: &Arc<Check>) {
    let kinds = ["metric", "span", "event"];
    // action tables: A: x.a {none, brief, req[, bare, both]}, x.b {none, note}
    let avals: Vec<usize> = if chk.thorough() { vec![0, 1, 2, 3, 4] } else { vec![0, 2, 3] };
    let na = avals.len();
    // G1 actions, G2 actions, G2 includes G1, S includes mask, S actions, R includes mask, R actions, placement
    let dims = [3, na, 2, na, 2, 2, 4, na, 2, 4, na, 2];
    chk.par(
        product(&dims),
        |v| format!("v2-{}", v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join("")),
        |chk, name, v| {
            let kind = kinds[v[0]];
            let g1 = attrs(avals[v[1]], v[2], 0);
            let g2 = attrs(avals[v[3]], v[4], 1);
            let s = attrs(avals[v[7]], v[8], 2);
            let r = attrs(avals[v[10]], v[11], 3);
            let e1 = g1.clone();
            let e2 = if v[5] == 1 { merge(&e1, &g2) } else { g2.clone() };
            let inc = |m: usize| -> (Attrs, bool) {
                let mut base = Attrs::new();
                let mut clash = false;
                if m & 1 != 0 {
                    base = merge(&base, &e1);
                }
                if m & 2 != 0 {
                    clash = e2.keys().any(|k| base.contains_key(k));
                    base = merge(&base, &e2);
                }
                (base, clash)
            };
            let (si, c1) = inc(v[6]);
            let es = merge(&si, &s);
            let (ri, c2) = inc(v[9]);
            let er = merge(&merge(&es, &ri), &r);
            let names = |m: usize| -> Vec<&str> {
                let mut n = vec![];
                if m & 1 != 0 {
                    n.push("grp.one");
                }
                if m & 2 != 0 {
                    n.push("grp.two");
                }
                n
            };
            let front = (v[1] + v[3] + v[7] + v[10]) % 2 == 0;
            let sa = json!(with_includes(&names(v[6]), &s, front));
            let ra = json!(with_includes(&names(v[9]), &r, !front));
            let mut doc = json!({"file_format": "definition/2", "attribute_groups": [
                {"id": "grp.two", "visibility": "internal", "attributes": with_includes(if v[5] == 1 {&["grp.one"]} else {&[]}, &g2, front)},
                {"id": "grp.one", "visibility": "public", "brief": "g1", "stability": "stable", "attributes": refs(&g1)},
            ]});
            let sid = format!("{kind}.sig");
            match kind {
                "metric" => {
                    doc["metric_refinements"] = json!([{"id": "sig.r", "ref": "sig", "attributes": ra}]);
                    doc["metrics"] = json!([{"name": "sig", "brief": "s", "stability": "stable", "instrument": "counter", "unit": "1", "attributes": sa}]);
                }
                "span" => {
                    doc["span_refinements"] = json!([{"id": "sig.r", "ref": "sig", "attributes": ra}]);
                    doc["spans"] = json!([{"type": "sig", "kind": "client", "name": {"note": "n"}, "brief": "s", "stability": "stable", "attributes": sa}]);
                }
                _ => {
                    doc["event_refinements"] = json!([{"id": "sig.r", "ref": "sig", "attributes": ra}]);
                    doc["events"] = json!([{"name": "sig", "brief": "s", "stability": "stable", "attributes": sa}]);
                }
            }
            let files: Files = vec![("b.yaml".into(), js(doc)), ("a.yaml".into(), defs_v2())];
            let exp = BTreeMap::from([
                ("grp.one".to_owned(), finish(&e1)),
                (sid, finish(&es)),
                ("sig.r".to_owned(), finish(&er)),
            ]);
            // If the signal clashes its refinement cannot resolve either: both are reported.
            let err = match (c1, c2) {
                (true, true) => Some("DuplicateAttributeId"),
                (true, false) => Some("DuplicateAttributeId+UnresolvedExtendsRef"),
                (false, true) => Some("DuplicateAttributeId"),
                _ => None,
            };
            let mut exp = exp;
            // An internal group is not published.
            if err.is_none() {
                let _ = exp.remove("grp.two");
            }
            compare(chk, name, &files, &exp, err, v[6] + v[9] > 0);
        },
    );
}

/// (C) Field inheritance of refinements.
fn run_fields(chk: &Arc<Check>) {
    let kinds = ["metric", "span", "event", "entity"];
    // base optional: note, deprecated, annotations(3: none, shared key, other key), requirement_level
    // refinement: brief, note, stability, deprecated, annotations(3), span name
    let dims = [4, 2, 2, 3, 2, 2, 2, 2, 2, 3, 2];
    chk.par(
        product(&dims),
        |v| format!("fields-{}", v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join("")),
        |chk, name, v| {
            let kind = kinds[v[0]];
            if kind != "span" && v[10] == 1 {
                return;
            }
            let ann = |n: usize, who: &str| match n {
                1 => json!({"k": {"shared": who, who: {"deep": 1}}}),
                _ => json!({format!("only_{who}"): who}),
            };
            let mut b = json!({"brief": "base brief", "stability": "stable"});
            match kind {
                "metric" => {
                    b["name"] = json!("sig");
                    b["instrument"] = json!("histogram");
                    b["unit"] = json!("By");
                }
                "span" => {
                    b["type"] = json!("sig");
                    b["kind"] = json!("producer");
                    b["name"] = json!({"note": "base name"});
                }
                "event" => b["name"] = json!("sig"),
                _ => {
                    b["type"] = json!("sig");
                    b["identity"] = json!([{"ref": "x.a"}]);
                }
            }
            if v[1] == 1 {
                b["note"] = json!("base note");
            }
            if v[2] == 1 {
                b["deprecated"] = json!({"reason": "obsoleted", "note": "base gone"});
            }
            if v[3] > 0 {
                b["annotations"] = ann(v[3], "base");
            }
            if v[4] == 1 {
                b["requirement_level"] = json!("opt_in");
            }
            let mut r = json!({"id": "sig.r", "ref": "sig"});
            if v[5] == 1 {
                r["brief"] = json!("ref brief");
            }
            if v[6] == 1 {
                r["note"] = json!("ref note");
            }
            if v[7] == 1 {
                r["stability"] = json!("development");
            }
            if v[8] == 1 {
                r["deprecated"] = json!({"reason": "renamed", "renamed_to": "other", "note": "ref gone"});
            }
            if v[9] > 0 {
                r["annotations"] = ann(v[9], "ref");
            }
            if v[10] == 1 {
                r["name"] = json!({"note": "ref name"});
            }
            // model
            let mut m = Map::new();
            let mut put = |k: &str, val: Value| {
                if !val.is_null() {
                    let _ = m.insert(k.to_owned(), val);
                }
            };
            let either = |k: &str| if r[k].is_null() { b[k].clone() } else { r[k].clone() };
            put("brief", either("brief"));
            put("note", either("note"));
            put("stability", either("stability"));
            put("deprecated", either("deprecated"));
            put("requirement_level", b["requirement_level"].clone());
            match kind {
                "metric" => {
                    put("instrument", b["instrument"].clone());
                    put("unit", b["unit"].clone());
                    put("metric_name", json!("sig"));
                }
                "span" => {
                    put("span_kind", b["kind"].clone());
                    put("span_name", either("name"));
                }
                _ => {}
            }
            let mut a = Map::new();
            for src in [&b, &r] {
                if let Some(o) = src["annotations"].as_object() {
                    for (k, x) in o {
                        match (a.get_mut(k), x.as_object()) {
                            (Some(Value::Object(t)), Some(xo)) => {
                                for (kk, xx) in xo {
                                    let _ = t.insert(kk.clone(), xx.clone());
                                }
                            }
                            _ => {
                                let _ = a.insert(k.clone(), x.clone());
                            }
                        }
                    }
                }
            }
            if !a.is_empty() {
                put("annotations", Value::Object(a));
            }
            let (pl, rl) = match kind {
                "metric" => ("metrics", "metric_refinements"),
                "span" => ("spans", "span_refinements"),
                "event" => ("events", "event_refinements"),
                _ => ("entities", "entity_refinements"),
            };
            let mut doc = json!({"file_format": "definition/2"});
            doc[pl] = json!([b]);
            doc[rl] = json!([r]);
            let files: Files = vec![("b.yaml".into(), js(doc)), ("a.yaml".into(), defs_v2())];
            let dir = chk.fresh("reg");
            write_files(&dir, &files);
            let res = resolve_dir(&dir);
            let keys = ["brief", "note", "stability", "deprecated", "requirement_level", "instrument", "unit", "metric_name", "span_kind", "span_name", "annotations"];
            let proj = |g: &Value| -> String {
                let mut o = Map::new();
                for k in keys {
                    if let Some(x) = g.get(k) {
                        if !x.is_null() && x.as_str() != Some("") {
                            let _ = o.insert(k.to_owned(), x.clone());
                        }
                    }
                }
                json!(o.into_iter().collect::<BTreeMap<_, _>>()).to_string()
            };
            let exp = proj(&Value::Object(m));
            let act = match res.v1().map(expand_v1) {
                Some(Ok(g)) => g.as_array().expect("arr").iter().find(|g| g["id"] == "sig.r").map(&proj).unwrap_or("no refinement".into()),
                other => format!("{:?} {:?}", other, res.fatal),
            };
            chk.eval(&(name, &act), true);
            chk.outcome("fields");
            let _ = chk.expect_eq(name, || json!(files), &exp, &act);
        },
    );
}

/// (D) Entity identity.
fn run_identity(chk: &Arc<Check>) {
    // role per attribute: 0 absent 1 identity 2 description, in base and refinement
    let dims = [3, 3, 3, 3, 3, 3];
    chk.par(
        product(&dims),
        |v| format!("identity-{}", v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join("")),
        |chk, name, v| {
            let names = ["x.a", "x.b", "x.c"];
            let pick = |off: usize, role: usize| -> Vec<Value> { (0..3).filter(|i| v[off + i] == role).map(|i| json!({"ref": names[i]})).collect() };
            if pick(0, 1).is_empty() {
                return;
            }
            let doc = json!({"file_format": "definition/2",
                "entities": [{"type": "sig", "brief": "s", "stability": "stable", "identity": pick(0, 1), "description": pick(0, 2)}],
                "entity_refinements": [{"id": "sig.r", "ref": "sig", "identity": pick(3, 1), "description": pick(3, 2)}]});
            let files: Files = vec![("b.yaml".into(), js(doc)), ("a.yaml".into(), defs_v2())];
            let dir = chk.fresh("reg");
            write_files(&dir, &files);
            let res = resolve_dir(&dir);
            let mut bad: Vec<&str> = vec![];
            let mut roles: BTreeMap<&str, &str> = BTreeMap::new();
            for i in 0..3 {
                let (b, r) = (v[i], v[3 + i]);
                let changes = match (b, r) {
                    (_, 0) => false,
                    (0, 1) => true,
                    (0, 2) => false,
                    (b, r) => b != r,
                };
                if changes {
                    bad.push(names[i]);
                }
                let eff = if b != 0 { b } else { r };
                if eff != 0 {
                    let _ = roles.insert(names[i], if eff == 1 { "identifying" } else { "descriptive" });
                }
            }
            let exp = if bad.is_empty() { json!({"roles": roles}).to_string() } else { json!({"identity changed": bad}).to_string() };
            let act = match res.v1().map(expand_v1) {
                Some(Ok(g)) => {
                    let g = g.as_array().expect("arr").iter().find(|g| g["id"] == "sig.r").cloned().unwrap_or_default();
                    let m: BTreeMap<String, String> = g["attributes"].as_array().map(|a| a.iter().map(|x| (x["name"].as_str().unwrap_or("").to_owned(), x["role"].as_str().unwrap_or("").to_owned())).collect()).unwrap_or_default();
                    json!({"roles": m}).to_string()
                }
                _ => {
                    let mut b: Vec<String> = vec![];
                    for e in &res.fatal {
                        if variant(e) == "EntityRefinementChangedIdentity" {
                            let v: Value = serde_json::from_str(&e["EntityRefinementChangedIdentity".len()..]).unwrap_or_default();
                            b.push(v["attribute_id"].as_str().unwrap_or("?").to_owned());
                        } else {
                            b.push(e.clone());
                        }
                    }
                    b.sort();
                    json!({"identity changed": b}).to_string()
                }
            };
            chk.eval(&(name, &act), true);
            chk.outcome(if bad.is_empty() { "identity-kept" } else { "identity-changed" });
            let _ = chk.expect_eq(name, || json!(files), &exp, &act);
        },
    );
}

/// (E) every attribute field along a four-level chain.
const CHAIN_FIELDS: [&str; 9] = ["brief", "note", "examples", "requirement_level", "stability", "deprecated", "annotations", "tag", "sampling_relevant"];

fn chain_value(f: &str, level: usize) -> Value {
    let who = ["def", "base", "mid", "own"][level];
    match f {
        "brief" | "note" | "tag" => json!(format!("{who} {f}")),
        "examples" => json!([format!("{who} example")]),
        "requirement_level" => [json!("required"), json!("opt_in"), json!({"conditionally_required": "c"}), json!("recommended")][level].clone(),
        "stability" => [json!("stable"), json!("development"), json!("release_candidate"), json!("stable")][level].clone(),
        "deprecated" => json!({"reason": "obsoleted", "note": who}),
        "annotations" => json!({"k": who}),
        _ => json!(level % 2 == 0),
    }
}

fn run_chain(chk: &Arc<Check>) {
    // two fields, the levels stating each, and the shape of the chain
    let n = CHAIN_FIELDS.len();
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
    let np = pairs.len();
    chk.par(
        product(&[np, 16, 16, 2, 4, 2]),
        |v| format!("chain-{}", v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(".")),
        |chk, name, v| {
            let (fa, fb) = pairs[v[0]];
            let inline = v[3] == 1; // the base group defines the attribute itself (levels 0 and 1 coincide)
            let shape = v[4]; // 0: v1 extends chain, 1: v2 refinement including a group, 2: v2 refinement of a signal including a group, 3: v2 refinement of a refinement
            let kind = ["span", "metric"][v[5]];
            if shape >= 2 && inline {
                return; // v2 signals cannot define attributes
            }
            let mut stated = vec![Map::new(), Map::new(), Map::new(), Map::new()];
            for (f, mask) in [(fa, v[1]), (fb, v[2])] {
                for (level, st) in stated.iter_mut().enumerate() {
                    let v2_level = match shape {
                        0 => 9,
                        1 => 2,
                        _ => 1,
                    };
                    if mask & (1 << level) == 0 || inline && level == 0 {
                        continue;
                    }
                    if level >= v2_level && f >= 7 {
                        return; // not expressible in v2
                    }
                    let _ = st.insert(CHAIN_FIELDS[f].into(), chain_value(CHAIN_FIELDS[f], level));
                }
            }
            // expected value of the leaf
            let mut exp = Map::new();
            for f in [fa, fb] {
                let f = CHAIN_FIELDS[f];
                let mut val = None;
                for st in &stated {
                    if let Some(x) = st.get(f) {
                        val = Some(x.clone());
                    }
                }
                let val = val.unwrap_or(match f {
                    "brief" => json!("plain"),
                    "examples" => json!(["plain"]),
                    "requirement_level" => json!("recommended"),
                    "stability" => json!("stable"),
                    _ => Value::Null,
                });
                let _ = exp.insert(f.into(), val);
            }
            let define = |mut st: Map<String, Value>| -> Value {
                let _ = st.insert("id".into(), json!("x.a"));
                let _ = st.insert("type".into(), json!("string"));
                for (k, d) in [("brief", json!("plain")), ("examples", json!(["plain"])), ("stability", json!("stable"))] {
                    let _ = st.entry(k).or_insert(d);
                }
                Value::Object(st)
            };
            let refer = |st: &Map<String, Value>| -> Value {
                let mut st = st.clone();
                let _ = st.insert("ref".into(), json!("x.a"));
                Value::Object(st)
            };
            let signal = |id: &str, extends: Option<&str>, attr: Value| -> Value {
                let mut g = if kind == "span" { json!({"type": "span", "span_kind": "client"}) } else { json!({"type": "metric", "metric_name": id.trim_start_matches("metric."), "instrument": "counter", "unit": "1"}) };
                g["id"] = json!(id);
                g["brief"] = json!("b");
                g["stability"] = json!("stable");
                g["attributes"] = json!([attr]);
                if let Some(e) = extends {
                    g["extends"] = json!(e);
                }
                g
            };
            let base_id = format!("{kind}.base");
            let v2sig = |attrs: Value| -> Value {
                if kind == "span" {
                    json!({"type": "base", "kind": "client", "name": {"note": "n"}, "brief": "b", "stability": "stable", "attributes": attrs})
                } else {
                    json!({"name": "base", "instrument": "counter", "unit": "1", "brief": "b", "stability": "stable", "attributes": attrs})
                }
            };
            let (sigs, refs) = (format!("{kind}s"), format!("{kind}_refinements"));
            let mut groups = vec![];
            if !inline {
                groups.push(json!({"id": "registry.x", "type": "attribute_group", "brief": "d", "attributes": [define(stated[0].clone())]}));
            }
            let base_attr = if inline { define(stated[1].clone()) } else { refer(&stated[1]) };
            let mut doc = json!({"file_format": "definition/2"});
            let leaf = match shape {
                0 => {
                    groups.push(signal(&base_id, None, base_attr));
                    groups.push(signal(&format!("{kind}.mid"), Some(&base_id), refer(&stated[2])));
                    groups.push(signal(&format!("{kind}.leaf"), Some(&format!("{kind}.mid")), refer(&stated[3])));
                    format!("{kind}.leaf")
                }
                1 => {
                    groups.push(signal(&base_id, None, base_attr));
                    doc["attribute_groups"] = json!([{"id": "grp", "visibility": "internal", "attributes": [refer(&stated[2])]}]);
                    doc[&refs] = json!([{"id": "leaf", "ref": "base", "attributes": [{"ref_group": "grp"}, refer(&stated[3])]}]);
                    "leaf".to_owned()
                }
                2 => {
                    doc["attribute_groups"] = json!([{"id": "grp", "visibility": "public", "brief": "b", "stability": "stable", "attributes": [refer(&stated[1])]}]);
                    doc[&sigs] = json!([v2sig(json!([{"ref_group": "grp"}, refer(&stated[2])]))]);
                    doc[&refs] = json!([{"id": "leaf", "ref": "base", "attributes": [refer(&stated[3])]}]);
                    "leaf".to_owned()
                }
                _ => {
                    doc["attribute_groups"] = json!([{"id": "g1", "visibility": "internal", "attributes": [refer(&stated[1])]}, {"id": "g2", "visibility": "internal", "attributes": [{"ref_group": "g1"}, refer(&stated[2])]}]);
                    doc[&sigs] = json!([v2sig(json!([{"ref_group": "g2"}, refer(&stated[3])]))]);
                    base_id.clone()
                }
            };
            let mut files: Files = vec![("a.yaml".into(), json!({"groups": groups}).to_string())];
            if shape > 0 {
                files.push(("b.yaml".into(), doc.to_string()));
            }
            let dir = chk.fresh("reg");
            write_files(&dir, &files);
            let r = resolve_dir(&dir);
            let act = match r.v1().map(expand_v1) {
                Some(Ok(gs)) => {
                    let g = gs.as_array().and_then(|a| a.iter().find(|g| g["id"] == json!(leaf))).cloned().unwrap_or_default();
                    let at = g["attributes"].as_array().cloned().unwrap_or_default();
                    let mut m = Map::new();
                    for f in [fa, fb] {
                        let f = CHAIN_FIELDS[f];
                        let mut val = at.first().map(|a| a[f].clone()).unwrap_or_default();
                        if val == json!("") {
                            val = Value::Null;
                        }
                        let _ = m.insert(f.into(), val);
                    }
                    if at.len() == 1 {
                        Value::Object(m)
                    } else {
                        json!(at)
                    }
                }
                Some(Err(e)) => json!(e),
                None => json!(r.fatal),
            };
            chk.eval(&(name, act.to_string()), v[1] + v[2] > 0);
            chk.outcome("chain");
            let _ = chk.expect_eq(name, || json!(files), &Value::Object(exp).to_string(), &act.to_string());
        },
    );
}

fn run(chk: &Arc<Check>) {
    run_chain(chk);
    run_fields(chk);
    run_identity(chk);
    run_v2(chk);
    run_v1(chk);
}
