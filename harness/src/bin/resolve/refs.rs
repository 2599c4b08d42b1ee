//! C02: a reference to an attribute yields the referenced definition with exactly the locally
//! stated fields overridden, wherever the reference is made.
use harness::reg::*;
use harness::*;
use serde_json::{json, Map, Value};
use std::sync::Arc;

pub const SPEC: Spec = Spec {
    id: "C02",
    level: "exploration",
    rule: "Exhaustive: every subset of fields stated by the definition x every subset of fields overridden by the \
           reference (brief, note, examples, requirement_level, stability, deprecated, annotations, sampling_relevant, tag) \
           x the kind of the referring group (span, metric, event, entity, attribute_group; v1 and v2 syntax) x attribute type; plus \
           prefixed definitions and prefixed references. Oracle: field-wise model (stated field wins, otherwise the definition's); the defining \
           group itself must keep its own fields unchanged. Non-trivial: at least one field is stated on either side.",
    assumptions: &[
        "when both sides state annotations they use the same key, so replacing and merging agree (documentation and code disagree on which applies to attribute references)",
    ],
    run,
};

const FIELDS: [&str; 9] = [
    "brief", "note", "examples", "requirement_level", "stability", "deprecated", "annotations", "sampling_relevant", "tag",
];

fn value(field: &str, who: &str, ty: usize) -> Value {
    match field {
        "examples" => match ty {
            0 => json!([format!("{who}-ex")]),
            _ => json!([if who == "def" { 1 } else { 2 }]),
        },
        "requirement_level" => {
            if who == "def" {
                json!("opt_in")
            } else {
                json!({"conditionally_required": "if local"})
            }
        }
        "stability" => json!(if who == "def" { "stable" } else { "development" }),
        "deprecated" => {
            if who == "def" {
                json!({"reason": "obsoleted", "note": "def"})
            } else {
                json!({"reason": "renamed", "renamed_to": "z.z", "note": "local"})
            }
        }
        "annotations" => json!({"k": {"who": who}}),
        "sampling_relevant" => json!(who == "def"),
        f => json!(format!("{who} {f}")),
    }
}

fn stated(mask: usize, who: &str, ty: usize, allowed: &[&str]) -> Map<String, Value> {
    let mut m = Map::new();
    for (i, f) in FIELDS.iter().enumerate() {
        if mask & (1 << i) != 0 && allowed.contains(f) {
            let _ = m.insert((*f).to_owned(), value(f, who, ty));
        }
    }
    m
}

fn yaml(v: &Value) -> String {
    serde_yaml::to_string(v).expect("yaml")
}

/// The model.
fn resolved(name: &str, ty: usize, def: &Map<String, Value>, local: &Map<String, Value>) -> Map<String, Value> {
    let mut out = Map::new();
    let _ = out.insert("name".into(), json!(name));
    let _ = out.insert("type".into(), ty_value(ty));
    for f in FIELDS {
        if let Some(v) = local.get(f).or(def.get(f)) {
            let _ = out.insert(f.to_owned(), v.clone());
        }
    }
    if !out.contains_key("requirement_level") {
        let _ = out.insert("requirement_level".into(), json!("recommended"));
    }
    out
}

fn ty_value(ty: usize) -> Value {
    match ty {
        0 => json!("string"),
        1 => json!("int"),
        _ => json!({"members": [
            {"id": "one", "value": 1, "brief": "first", "note": null, "stability": "stable", "deprecated": null, "annotations": null},
        ]}),
    }
}

/// Only the modelled fields of an observed attribute; `deprecated`'s serialised shape is normalised.
fn project(v: &Value) -> Map<String, Value> {
    let mut out = Map::new();
    if let Some(m) = v.as_object() {
        for (k, x) in m {
            if k == "role" || x.is_null() {
                continue;
            }
            let _ = out.insert(k.clone(), x.clone());
        }
    }
    out
}

fn canon(m: &Map<String, Value>) -> String {
    let mut m = m.clone();
    // enum members: compare id/value/brief/stability only
    if let Some(t) = m.get_mut("type") {
        if let Some(ms) = t.get_mut("members").and_then(|x| x.as_array_mut()) {
            for x in ms {
                *x = json!({"id": x["id"], "value": x["value"], "brief": x["brief"], "stability": x["stability"]});
            }
        }
    }
    let b: std::collections::BTreeMap<_, _> = m.into_iter().collect();
    json!(b).to_string()
}

const KINDS: [&str; 10] = [
    "span", "metric", "event", "entity", "attribute_group", "v2span", "v2metric", "v2event", "v2entity", "v2group",
];

fn user_group(kind: &str, attr: &Value) -> (String, String) {
    // returns (file contents, group id)
    let a = attr;
    match kind {
        "span" => (yaml(&json!({"groups": [{"id": "span.u", "type": "span", "span_kind": "client", "brief": "u", "stability": "stable", "attributes": [a]}]})), "span.u".into()),
        "metric" => (yaml(&json!({"groups": [{"id": "metric.u", "type": "metric", "metric_name": "u", "instrument": "counter", "unit": "1", "brief": "u", "stability": "stable", "attributes": [a]}]})), "metric.u".into()),
        "event" => (yaml(&json!({"groups": [{"id": "event.u", "type": "event", "name": "u", "brief": "u", "stability": "stable", "attributes": [a]}]})), "event.u".into()),
        "entity" => (yaml(&json!({"groups": [{"id": "entity.u", "type": "entity", "name": "u", "brief": "u", "stability": "stable", "attributes": [a]}]})), "entity.u".into()),
        "attribute_group" => (yaml(&json!({"groups": [{"id": "attributes.u", "type": "attribute_group", "brief": "u", "attributes": [a]}]})), "attributes.u".into()),
        "v2span" => (yaml(&json!({"file_format": "definition/2", "spans": [{"type": "u", "kind": "client", "name": {"note": "n"}, "brief": "u", "stability": "stable", "attributes": [a]}]})), "span.u".into()),
        "v2metric" => (yaml(&json!({"file_format": "definition/2", "metrics": [{"name": "u", "instrument": "counter", "unit": "1", "brief": "u", "stability": "stable", "attributes": [a]}]})), "metric.u".into()),
        "v2event" => (yaml(&json!({"file_format": "definition/2", "events": [{"name": "u", "brief": "u", "stability": "stable", "attributes": [a]}]})), "event.u".into()),
        "v2entity" => (yaml(&json!({"file_format": "definition/2", "entities": [{"type": "u", "brief": "u", "stability": "stable", "identity": [a]}]})), "entity.u".into()),
        _ => (yaml(&json!({"file_format": "definition/2", "attribute_groups": [{"id": "grp.u", "visibility": "public", "brief": "u", "stability": "stable", "attributes": [a]}]})), "grp.u".into()),
    }
}

fn allowed_ref(kind: &str) -> Vec<&'static str> {
    let mut v = vec!["brief", "note", "examples", "requirement_level", "stability", "deprecated", "annotations"];
    if !kind.starts_with("v2") {
        v.push("sampling_relevant");
        v.push("tag");
    } else if kind == "v2span" {
        v.push("sampling_relevant");
    }
    v
}

fn def_file(v2: bool, def: &Map<String, Value>, ty: usize, name: &str, prefix: Option<&str>) -> String {
    let mut a = def.clone();
    let _ = a.insert("type".into(), ty_value(ty));
    if v2 {
        let _ = a.insert("key".into(), json!(name));
        yaml(&json!({"file_format": "definition/2", "attributes": [a]}))
    } else {
        let _ = a.insert("id".into(), json!(name));
        let mut g = json!({"id": "registry.d", "type": "attribute_group", "brief": "d", "attributes": [a]});
        if let Some(p) = prefix {
            g["prefix"] = json!(p);
        }
        yaml(&json!({"groups": [g]}))
    }
}

fn check(chk: &Check, name: &str, files: &Files, group: &str, attr: &str, exp: &Map<String, Value>, own: Option<(&str, &Map<String, Value>)>) {
    let dir = chk.fresh("reg");
    write_files(&dir, files);
    let r = resolve_dir(&dir);
    let exp_s = canon(exp);
    let mut act_s = format!("no result: {:?}", r.fatal);
    let mut own_s: Option<String> = None;
    if let Some(s) = r.v1() {
        match expand_v1(s) {
            Err(e) => act_s = e,
            Ok(v) => {
                let find = |gid: &dyn Fn(&str) -> bool, an: &str| -> String {
                    let gs: Vec<&Value> = v.as_array().expect("arr").iter().filter(|g| gid(g["id"].as_str().unwrap_or(""))).collect();
                    if gs.len() != 1 {
                        return format!("{} groups match", gs.len());
                    }
                    let attrs: Vec<&Value> = gs[0]["attributes"].as_array().expect("arr").iter().collect();
                    if attrs.len() != 1 || attrs[0]["name"] != an {
                        return format!("attributes of {}: {}", gs[0]["id"], gs[0]["attributes"]);
                    }
                    canon(&project(attrs[0]))
                };
                act_s = find(&|g| g == group, attr);
                if let Some((n, _)) = own {
                    own_s = Some(find(&|g| g.starts_with("registry."), n));
                }
            }
        }
    }
    chk.eval(&(name, &act_s), true);
    chk.sample(|| json!({"case": name, "resolved": act_s}));
    if chk.expect_eq(name, || json!(files), &exp_s, &act_s) {
        chk.outcome(if r.nfes.is_empty() { "match" } else { "match+warnings" });
        if let (Some((_, d)), Some(a)) = (own, own_s) {
            let _ = chk.expect_eq(name, || json!(files), &canon(d), &a);
        }
    }
}

fn run(chk: &Arc<Check>) {
    // Quick: all override subsets x {all fields defined, only mandatory defined, each single optional
    // field dropped}; thorough: full cross product of subsets.
    let full = chk.thorough();
    let mut cases: Vec<(usize, bool, usize, usize, usize)> = vec![]; // kind, def v2, ty, def mask, ref mask
    for (k, kind) in KINDS.iter().enumerate() {
        let nref = allowed_ref(kind).len();
        for defv2 in [false, true] {
            for ty in 0..3 {
                let def_masks: Vec<usize> = if full {
                    (0..512).collect()
                } else {
                    let mut v = vec![511usize, 0];
                    v.extend((0..9).map(|b| 511 & !(1 << b)));
                    v.extend((0..9).map(|b| 1 << b));
                    v
                };
                for dm in def_masks {
                    // ref masks index into allowed fields; the allowed ones are a prefix of FIELDS
                    for rm in 0..(1usize << nref) {
                        if !full && ty > 0 && rm.count_ones() > 2 {
                            continue;
                        }
                        cases.push((k, defv2, ty, dm, rm));
                    }
                }
            }
        }
    }
    let _ = cases.len();
    chk.par(
        cases.into_iter(),
        |(k, d, t, dm, rm)| format!("{}-{}-t{t}-d{dm:x}-r{rm:x}", KINDS[*k], if *d { "defv2" } else { "defv1" }),
        |chk, name, (k, defv2, ty, dm, rm)| {
            let def_allowed: Vec<&str> = if defv2 {
                vec!["brief", "note", "examples", "stability", "deprecated", "annotations"]
            } else {
                FIELDS.to_vec()
            };
            let mut def = stated(dm, "def", ty, &def_allowed);
            // Mandatory in the definition syntax.
            let _ = def.entry("brief").or_insert(json!("def brief"));
            let _ = def.entry("stability").or_insert(json!("stable"));
            let local = stated(rm, "local", ty, &allowed_ref(KINDS[k]));
            let mut a = local.clone();
            let _ = a.insert("ref".into(), json!("x.a"));
            let (user, gid) = user_group(KINDS[k], &Value::Object(a));
            let files: Files = vec![
                ("b_user.yaml".into(), user),
                ("c_def.yaml".into(), def_file(defv2, &def, ty, "x.a", None)),
            ];
            let exp = resolved("x.a", ty, &def, &local);
            let own = resolved("x.a", ty, &def, &Map::new());
            check(chk, name, &files, &gid, "x.a", &exp, Some(("x.a", &own)));
        },
    );
    // Prefixes: definition prefix on/off x reference prefix flag x group prefix.
    let mut pc = vec![];
    for dp in 0..2 {
        for rp in 0..2 {
            for rm in 0..512usize {
                for k in 0..5 {
                    pc.push((dp, rp, rm, k));
                }
            }
        }
    }
    chk.par(
        pc.into_iter(),
        |(dp, rp, rm, k)| format!("prefix-d{dp}-r{rp}-{rm:x}-{}", KINDS[*k]),
        |chk, name, (dp, rp, rm, k)| {
            let mut def = stated(511, "def", 0, &FIELDS);
            let _ = def.entry("brief").or_insert(json!("def brief"));
            let full_name = if dp == 1 { "pre.x.a" } else { "x.a" };
            let local = stated(rm, "local", 0, &FIELDS);
            let mut a = local.clone();
            let _ = a.insert("ref".into(), json!(full_name));
            if rp == 1 {
                let _ = a.insert("prefix".into(), json!(true));
            }
            let (user, gid) = user_group(KINDS[k], &Value::Object(a));
            // give the referring group a prefix as well
            let mut uv: Value = serde_yaml::from_str(&user).expect("yaml");
            uv["groups"][0]["prefix"] = json!("upre");
            let files: Files = vec![
                ("b_user.yaml".into(), yaml(&uv)),
                ("a_def.yaml".into(), def_file(false, &def, 0, "x.a", if dp == 1 { Some("pre") } else { None })),
            ];
            let n = if rp == 1 { format!("upre.{full_name}") } else { full_name.to_owned() };
            let mut exp = resolved(&n, 0, &def, &local);
            if rp == 1 {
                let _ = exp.insert("prefix".into(), json!(true));
            }
            let own = resolved(full_name, 0, &def, &Map::new());
            check(chk, name, &files, &gid, &n, &exp, Some((full_name, &own)));
        },
    );
}
