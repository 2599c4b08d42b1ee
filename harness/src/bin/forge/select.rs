//! C15: what the registry queries and tests offered to templates select.
use harness::reg::{resolve_dir, weaver, write_files};
use harness::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::Arc;
use weaver_common::result::WResult;
use weaver_forge::config::{Params, WeaverConfig};
use weaver_forge::file_loader::FileSystemFileLoader;
use weaver_forge::jq::execute_jq;
use weaver_forge::registry::ResolvedRegistry;
use weaver_forge::v2::registry::ForgeResolvedRegistry;
use weaver_forge::{OutputProcessor, OutputTarget};

pub const SPEC: Spec = Spec {
    id: "C15",
    level: "model_checking",
    rule: "Exhaustive: (Q) every registry query of templates (attributes, metrics, spans, events, entities, each grouped or not, with or without options, v1 and v2) x every combination of stable_only, exclude_stability, exclude_deprecated, exclude_root_namespace, ignore_code_generation_annotations (each absent, off, every value), over a registry with an item in every state (stability x deprecation x annotation x type; enum members and attributes of signals in every state too); (N) every subset of seven names per kind: order and grouping; \
           (T) every test and attribute filter of templates over attributes in every state, and every order of attributes in every requirement level; (L) queries through the command. Oracle: an item, enum member or attribute of a signal is selected iff no option excludes its state; everything else of it is unchanged. Non-trivial: some items selected and some not.",
    assumptions: &["the namespace of a name without a dot is `other` in v1; not asked in v2"],
    run,
};

const STABILITY: [&str; 7] = ["stable", "development", "alpha", "beta", "release_candidate", "", "experimental"];
const LEVELS: [&str; 6] = ["required", "recommended", "opt_in", "", "conditionally_required", "recommended_if"];
const KINDS: [&str; 5] = ["attributes", "metrics", "spans", "events", "entities"];

#[derive(Clone, Copy, PartialEq, Debug)]
struct State {
    stability: usize,
    deprecated: usize,
    annotation: usize,
    ty: usize,
}

impl State {
    fn tag(&self) -> String {
        format!("s{}d{}x{}t{}", self.stability, self.deprecated, self.annotation, self.ty)
    }
    /// The state a name tells, if it does.
    fn of(name: &str) -> State {
        let d = |c: char| name.rfind(c).and_then(|i| name[i + 1..].chars().next()).and_then(|c| c.to_digit(10)).map_or(0, |d| d as usize);
        let t = name.rsplit('.').next().unwrap_or(name);
        if t.len() == 8 && t.starts_with('s') && t[1..2].chars().all(|c| c.is_ascii_digit()) {
            State { stability: d('s'), deprecated: d('d'), annotation: d('x'), ty: d('t') }
        } else {
            State { stability: 0, deprecated: 0, annotation: 0, ty: 0 }
        }
    }
    fn put(&self, m: &mut Map<String, Value>, target: &str) {
        let mut put = |k: &str, v: Value| drop(m.insert(k.into(), v));
        if self.stability != 5 {
            put("stability", json!(STABILITY[self.stability]));
        }
        match self.deprecated {
            0 => {}
            1 => put("deprecated", json!({"reason": "renamed", "renamed_to": target})),
            2 => put("deprecated", json!({"reason": "obsoleted", "note": "n"})),
            _ => put("deprecated", json!({"reason": "uncategorized", "note": "n"})),
        }
        match self.annotation {
            0 => {}
            1 => put("annotations", json!({"code_generation": {"exclude": true}, "other": 1})),
            2 => put("annotations", json!({"code_generation": {"exclude": false}})),
            3 => put("annotations", json!({"code_generation": {"something": true}})),
            4 => put("annotations", json!({"other": {"exclude": true}})),
            _ => put("annotations", json!({"code_generation": null})),
        }
    }
}

fn members() -> Vec<State> {
    let mut v = vec![];
    for stability in 0..6 {
        for deprecated in 0..2 {
            v.push(State { stability, deprecated, annotation: 0, ty: 0 });
        }
    }
    v.extend((1..6).map(|annotation| State { stability: 0, deprecated: 0, annotation, ty: 0 }));
    v.extend([State { stability: 1, deprecated: 2, annotation: 1, ty: 0 }, State { stability: 0, deprecated: 1, annotation: 1, ty: 0 }]);
    v
}

const TYPES: [&str; 18] = [
    "string", "", "template[string]", "int", "double", "boolean", "string[]", "int[]", "double[]", "boolean[]", "template[int]", "template[double]", "template[boolean]", "template[string[]]", "template[int[]]", "template[double[]]", "template[boolean[]]", "any",
];

fn attribute(key: &str, name: &str, s: State) -> Value {
    let mut m = Map::new();
    let _ = m.insert(key.into(), json!(name));
    let _ = m.insert("brief".into(), json!("b"));
    let ty = if s.ty == 1 {
        json!({"members": members().iter().map(|s| {
            let mut m = Map::new();
            let _ = m.insert("id".into(), json!(s.tag()));
            let _ = m.insert("value".into(), json!(format!("v{}", s.tag())));
            let _ = m.insert("brief".into(), json!("m"));
            s.put(&mut m, "s0d0x0t0");
            Value::Object(m)
        }).collect::<Vec<_>>()})
    } else {
        if s.ty == 0 || s.ty == 2 {
            let _ = m.insert("examples".into(), json!(["e"]));
        }
        json!(TYPES[s.ty])
    };
    let _ = m.insert("type".into(), ty);
    s.put(&mut m, "base");
    Value::Object(m)
}

/// The attributes a signal has: one in each state that decides.
fn used() -> Vec<State> {
    let s = |stability, deprecated, annotation, ty| State { stability, deprecated, annotation, ty };
    vec![s(0, 0, 0, 0), s(1, 0, 0, 0), s(2, 0, 0, 1), s(4, 1, 0, 0), s(0, 1, 0, 1), s(0, 0, 1, 0), s(0, 0, 2, 2), s(0, 0, 0, 1)]
}

/// (name, state) of every item of a kind.
type Items = Vec<(String, State)>;

fn document(v2: bool, items: &BTreeMap<&str, Items>) -> Vec<(String, String)> {
    let refs = |names: &BTreeSet<String>| -> Value { json!(names.iter().map(|n| json!({"ref": n})).collect::<Vec<_>>()) };
    let all: BTreeSet<String> = items["attributes"].iter().map(|x| x.0.clone()).collect();
    let of_signal: BTreeSet<String> = used().iter().filter_map(|s| all.iter().find(|n| n.ends_with(&s.tag())).cloned()).collect();
    let signal = |kind: &str, n: &str, s: State, bare: bool| -> Value {
        let mut m = Map::new();
        let attrs = if bare { json!([]) } else { refs(&of_signal) };
        let mut put = |k: &str, v: Value| drop(m.insert(k.into(), v));
        put("brief", json!("b"));
        match kind {
            "metrics" => {
                put("instrument", json!("counter"));
                put("unit", json!("1"));
                put(if v2 { "name" } else { "metric_name" }, json!(n));
            }
            "events" => put("name", json!(n)),
            "spans" => {
                if v2 {
                    put("name", json!({"note": "n"}));
                }
                put(if v2 { "kind" } else { "span_kind" }, json!("client"));
            }
            _ if !v2 => put("name", json!(n)),
            _ => {}
        }
        if v2 {
            if matches!(kind, "spans" | "entities") {
                put("type", json!(n));
            }
            put("requirement_level", json!("recommended"));
            if kind == "entities" {
                // an entity is identified by some of them
                let ids: Vec<&String> = if of_signal.is_empty() { all.iter().take(1).collect() } else { of_signal.iter().collect() };
                let part = |odd: bool| refs(&ids.iter().enumerate().filter(|(i, _)| (i % 2 == 1) == odd).map(|(_, n)| (*n).clone()).collect());
                put("identity", part(false));
                put("description", part(true));
            } else {
                put("attributes", attrs);
            }
        } else {
            let k = match kind {
                "metrics" => "metric",
                "spans" => "span",
                "events" => "event",
                _ => "entity",
            };
            put("type", json!(k));
            // a bare signal is one whose id says nothing
            put("id", if n.starts_with("id:") { json!(&n[3..]) } else { json!(format!("{k}.{n}")) });
            put("attributes", attrs);
        }
        s.put(&mut m, "base");
        Value::Object(m)
    };
    let attributes: Vec<Value> = items["attributes"].iter().map(|(n, s)| attribute(if v2 { "key" } else { "id" }, n, *s)).collect();
    let manifest = ("manifest.yaml".to_owned(), "schema_url: https://example.com/x/1.0.0\ndescription: d\nstability: stable\n".to_owned());
    if v2 {
        let mut d = Map::new();
        let _ = d.insert("file_format".into(), json!("definition/2"));
        let _ = d.insert("attributes".into(), json!(attributes));
        for k in &KINDS[1..] {
            let _ = d.insert((*k).into(), json!(items[k].iter().map(|(n, s)| signal(k, n, *s, false)).collect::<Vec<_>>()));
        }
        vec![manifest, ("a.yaml".into(), Value::Object(d).to_string())]
    } else {
        // in two groups of the registry; a third is none of it
        let half = attributes.len() / 2;
        let mut groups = vec![
            json!({"id": "registry.one", "type": "attribute_group", "brief": "b", "attributes": attributes[..half]}),
            json!({"id": "registry.two", "type": "attribute_group", "brief": "b", "attributes": attributes[half..]}),
            json!({"id": "not.registry", "type": "attribute_group", "brief": "b", "attributes": [attribute("id", "not.of.it", State { stability: 0, deprecated: 0, annotation: 0, ty: 0 })]}),
        ];
        for k in &KINDS[1..] {
            groups.extend(items[k].iter().map(|(n, s)| signal(k, n, *s, false)));
        }
        vec![manifest, ("a.yaml".into(), json!({"groups": groups}).to_string())]
    }
}

/// What templates see of the registry.
fn context(dir: &Path, v2: bool) -> Result<Value, String> {
    let r = resolve_dir(dir);
    let s = r.schema.ok_or_else(|| r.fatal.join("; "))?;
    if v2 {
        let mut null = weaver_resolver::NullSchemaResolver;
        let s: weaver_resolved_schema::v2::ResolvedTelemetrySchema = s.into_v1().map_err(|e| e.to_string())?.try_into().map_err(|e: weaver_resolved_schema::error::Error| e.to_string())?;
        match ForgeResolvedRegistry::try_from_resolved_schema(s, &mut null) {
            WResult::Ok(f) | WResult::OkWithNFEs(f, _) => serde_json::to_value(&f).map_err(|e| e.to_string()),
            WResult::FatalErr(e) => Err(e.to_string()),
        }
    } else {
        let v1 = s.as_v1().ok_or("not v1")?;
        let f = ResolvedRegistry::try_from_resolved_registry(&v1.registry, v1.catalog()).map_err(|e| e.to_string())?;
        serde_json::to_value(&f).map_err(|e| e.to_string())
    }
}

#[derive(Clone, Default, Debug)]
struct Options {
    stable_only: Option<bool>,
    exclude_stability: Option<Vec<&'static str>>,
    exclude_deprecated: Option<bool>,
    exclude_root_namespace: Option<Vec<&'static str>>,
    ignore: Option<bool>,
    v2: Option<bool>,
}

impl Options {
    fn json(&self) -> Value {
        let mut m = Map::new();
        let mut put = |k: &str, v: Option<Value>| {
            if let Some(v) = v {
                let _ = m.insert(k.into(), v);
            }
        };
        put("stable_only", self.stable_only.map(|b| json!(b)));
        put("exclude_stability", self.exclude_stability.as_ref().map(|b| json!(b)));
        put("exclude_deprecated", self.exclude_deprecated.map(|b| json!(b)));
        put("exclude_root_namespace", self.exclude_root_namespace.as_ref().map(|b| json!(b)));
        put("ignore_code_generation_annotations", self.ignore.map(|b| json!(b)));
        put("v2", self.v2.map(|b| json!(b)));
        Value::Object(m)
    }
    fn keeps(&self, s: State) -> bool {
        let stable = s.stability == 0;
        if self.stable_only == Some(true) && !stable {
            return false;
        }
        if let Some(x) = &self.exclude_stability {
            // `experimental` stands for all that is not stable
            let name = if s.stability == 6 { "development" } else { STABILITY[s.stability] };
            if x.contains(&name) || (x.contains(&"experimental") && !stable) {
                return false;
            }
        }
        if self.exclude_deprecated == Some(true) && s.deprecated > 0 {
            return false;
        }
        self.ignore == Some(true) || s.annotation != 1
    }
}

fn text<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

fn name_of(v: &Value) -> String {
    for k in ["name", "key", "metric_name"] {
        if let Some(s) = v[k].as_str() {
            return s.to_owned();
        }
    }
    text(v, "type").to_owned()
}

fn filter_members(v: &mut Value, o: &Options) {
    if let Some(m) = v["type"]["members"].as_array() {
        let kept: Vec<Value> = m.iter().filter(|m| o.keeps(State::of(text(m, "id")))).cloned().collect();
        v["type"]["members"] = json!(kept);
    }
}

/// What the query selects from the context.
fn expected(ctx: &Value, kind: &str, o: &Options, grouped: bool) -> Value {
    let v2 = o.v2 == Some(true);
    let list = |v: &Value| v.as_array().cloned().unwrap_or_default();
    let items: Vec<Value> = if v2 {
        list(&ctx["registry"][kind])
    } else {
        let ty = match kind {
            "attributes" => "attribute_group",
            "metrics" => "metric",
            "spans" => "span",
            "events" => "event",
            _ => "entity",
        };
        let groups = list(&ctx["groups"]).into_iter().filter(|g| text(g, "type") == ty);
        if kind == "attributes" {
            groups.filter(|g| text(g, "id").starts_with("registry.")).flat_map(|g| list(&g["attributes"])).collect()
        } else {
            groups.collect()
        }
    };
    let mut out: Vec<(String, String, Value)> = vec![];
    for mut i in items {
        let n = if v2 || kind == "attributes" || kind == "metrics" || kind == "events" { name_of(&i) } else { String::new() };
        let state = if n.is_empty() { State::of(text(&i, "id")) } else { State::of(&n) };
        let namespace = if v2 {
            n.split('.').next().unwrap_or("").to_owned()
        } else if kind == "attributes" {
            n.split_once('.').map_or("other", |x| x.0).to_owned()
        } else {
            text(&i, "id").split('.').nth(1).unwrap_or("other").to_owned()
        };
        if !o.keeps(state) || o.exclude_root_namespace.as_ref().is_some_and(|x| x.contains(&namespace.as_str())) {
            continue;
        }
        filter_members(&mut i, o);
        for k in ["attributes", "identity", "description"] {
            if let Some(a) = i[k].as_array().filter(|_| kind != "attributes") {
                let mut kept: Vec<Value> = a.iter().filter(|a| o.keeps(State::of(&name_of(a)))).cloned().collect();
                kept.iter_mut().for_each(|a| filter_members(a, o));
                i[k] = json!(kept);
            }
        }
        if let Some(m) = i.as_object_mut() {
            m.retain(|_, v| !v.is_null());
        }
        i["root_namespace"] = json!(namespace);
        out.push((namespace, n, i));
    }
    // the order: by name; without one (v1 spans and entities) and for attributes by namespace first
    if kind == "attributes" || (!v2 && matches!(kind, "spans" | "entities")) {
        out.sort_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1)));
    } else {
        out.sort_by(|a, b| a.1.cmp(&b.1));
    }
    if !grouped {
        return json!(out.into_iter().map(|x| x.2).collect::<Vec<_>>());
    }
    let mut groups: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for (ns, _, i) in out {
        groups.entry(ns).or_default().push(i);
    }
    json!(groups.into_iter().map(|(k, l)| json!({"root_namespace": k, kind: l})).collect::<Vec<_>>())
}

fn canon(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let s: BTreeMap<String, Value> = m.iter().filter(|(k, v)| !(v.is_null() && *k == "attributes")).map(|(k, v)| (k.clone(), canon(v))).collect();
            json!(s)
        }
        Value::Array(a) => json!(a.iter().map(canon).collect::<Vec<_>>()),
        v => v.clone(),
    }
}

fn query(kind: &str, o: Option<&Options>, grouped: bool) -> String {
    let f = format!("semconv_{}{kind}", if grouped { "grouped_" } else { "" });
    match o {
        Some(o) => format!("{f}({})", o.json()),
        None => f,
    }
}

/// Names and items in a few words.
fn brief(v: &Value) -> String {
    fn one(v: &Value) -> String {
        let mut t = name_of(v);
        if t.is_empty() || ["span", "entity"].contains(&t.as_str()) {
            t = text(v, "id").to_owned();
        }
        if let Some(m) = v["type"]["members"].as_array() {
            t += &format!("<{}>", m.iter().map(|m| text(m, "id").to_owned()).collect::<Vec<_>>().join(" "));
        }
        for k in ["attributes", "identity", "description"] {
            if let Some(a) = v[k].as_array() {
                t += &format!("{k}[{}]", a.iter().map(one).collect::<Vec<_>>().join(" "));
            }
        }
        t
    }
    match v.as_array() {
        None => v.to_string(),
        Some(l) => l
            .iter()
            .map(|i| match KINDS.iter().find_map(|k| i[k].as_array().filter(|_| i["root_namespace"].is_string() && i.as_object().is_some_and(|m| m.len() == 2))) {
                Some(g) => format!("== {}\n{}", text(i, "root_namespace"), g.iter().map(one).collect::<Vec<_>>().join("\n")),
                None => one(i),
            })
            .collect::<Vec<_>>()
            .join("\n"),
    }
}

fn ask(chk: &Check, name: &str, ctx: &Value, kind: &str, o: &Options, plain: bool, grouped: bool) -> bool {
    let q = query(kind, (!plain).then_some(o), grouped);
    let got = guarded(|| execute_jq(ctx, &q, &BTreeMap::new()).map_err(|e| e.to_string()));
    let want = canon(&expected(ctx, kind, o, grouped));
    let all = canon(&expected(ctx, kind, &Options { v2: o.v2, ignore: Some(true), ..Options::default() }, grouped));
    chk.eval(&(name, &q), want != all && want != json!([]));
    chk.outcome(if want == json!([]) { "nothing" } else if want == all { "everything" } else { "some" });
    let got = match got {
        Ok(Ok(v)) => canon(&v),
        Ok(Err(e)) | Err(e) => json!(format!("failed: {e}")),
    };
    if got == want {
        return true;
    }
    let (w, g) = (brief(&want), brief(&got));
    if w != g {
        chk.expect_eq(name, || json!({"query": q}), &w, &g)
    } else {
        chk.expect_eq(name, || json!({"query": q}), &want.to_string(), &got.to_string())
    }
}

/// A registry with an item of every kind in every state.
fn universe(v2: bool) -> BTreeMap<&'static str, Items> {
    let ns = ["a", "b", "c.d", ""];
    let mut out: BTreeMap<&'static str, Items> = BTreeMap::new();
    let usable = |s: &State| !v2 || ![5, 6].contains(&s.stability);
    for (ki, kind) in KINDS.iter().enumerate() {
        let mut l = vec![];
        for x in product(&[7, 4, 6, 3]) {
            let s = State { stability: x[0], deprecated: x[1], annotation: x[2], ty: x[3] };
            if !usable(&s) || (ki > 0 && (s.ty > 0 || (s.annotation > 1 && s.stability + s.deprecated > 0))) || (s.ty == 1 && (s.deprecated > 1 || s.annotation > 1)) || (s.ty == 2 && s.deprecated + s.annotation > 2) {
                continue;
            }
            let space = ns[l.len() % if v2 || ki > 0 { 3 } else { 4 }];
            l.push((if space.is_empty() { s.tag() } else { format!("{space}.{}", s.tag()) }, s));
        }
        if ki == 0 {
            l.push(("base".to_owned() + if v2 { ".x" } else { "" }, State { stability: 0, deprecated: 0, annotation: 0, ty: 0 }));
        }
        let _ = out.insert(kind, l);
    }
    out
}

fn flag(i: usize) -> Option<bool> {
    [None, Some(false), Some(true)][i]
}

const EXCLUDE_STABILITY: [Option<&[&str]>; 9] = [None, Some(&[]), Some(&["experimental"]), Some(&["development"]), Some(&["stable"]), Some(&["alpha", "beta"]), Some(&["release_candidate", "experimental"]), Some(&["unknown"]), Some(&["experimental", "stable"])];
const EXCLUDE_NAMESPACE: [Option<&[&str]>; 5] = [None, Some(&[]), Some(&["a"]), Some(&["other", "c", "b"]), Some(&["zz", "c.d"])];

fn options(x: &[usize], v2: bool) -> Options {
    Options {
        stable_only: flag(x[0]),
        exclude_stability: EXCLUDE_STABILITY[x[1]].map(<[&str]>::to_vec),
        exclude_deprecated: flag(x[2]),
        exclude_root_namespace: EXCLUDE_NAMESPACE[x[3]].map(<[&str]>::to_vec),
        ignore: flag(x[4]),
        v2: if v2 { Some(true) } else { [None, Some(false)][(x[0] + x[2]) % 2] },
    }
}

fn dash(x: &[usize]) -> String {
    x.iter().map(usize::to_string).collect::<Vec<_>>().join("-")
}

fn run(chk: &Arc<Check>) {
    let d = chk.scratch();
    let mut contexts = vec![];
    for v2 in [false, true] {
        let dir = d.join(format!("u{v2}"));
        write_files(&dir, &document(v2, &universe(v2)));
        match context(&dir, v2) {
            Ok(c) => {
                // each query with what it is about only: the others are there in N and L
                contexts.push(KINDS.map(|k| {
                    let mut c = c.clone();
                    if v2 {
                        KINDS.iter().filter(|x| **x != k).for_each(|x| c["registry"][x] = json!([]));
                        c["refinements"] = json!({});
                    } else if let Some(g) = c["groups"].as_array_mut() {
                        g.retain(|g| (text(g, "type") == "attribute_group") == (k == "attributes"));
                        g.retain(|g| k == "attributes" || k.starts_with(&text(g, "type")[..4]));
                    }
                    c
                }));
            }
            Err(e) => return chk.violation("registry", "registry", json!(v2), "a registry", &e),
        }
    }
    let contexts = Arc::new(contexts);
    let c = contexts.clone();
    let thorough = chk.thorough();
    chk.par(product(&[2, 5, 3, 9, 3, 5, 3]).filter(|x| {
        let given = x[2..].iter().filter(|i| **i > 0).count();
        // pairs: with two values for each
        thorough || given <= 1 || (given == 2 && [0, 2, 8].contains(&x[3]) && [0, 2, 3].contains(&x[5]))
    }), |x| format!("Q-{}", dash(x)), |chk, name, x| {
        let o = options(&x[2..], x[0] == 1);
        let plain = x[0] == 0 && x[2..].iter().all(|i| *i == 0);
        let _ = ask(chk, name, &c[x[0]][x[1]], KINDS[x[1]], &o, plain, false) && ask(chk, name, &c[x[0]][x[1]], KINDS[x[1]], &o, plain, true);
    });
    names(chk);
    tests(chk);
    command(chk);
}

/// Order and grouping, for every set of names.
fn names(chk: &Arc<Check>) {
    const NAMES: [&str; 7] = ["b.x", "a.x", "a.x.y", "a_b.x", "ab.a", "b.a.s1d0x0t0", "single"];
    chk.par(product(&[2, 1 << NAMES.len()]), |x| format!("N-{}", dash(x)), |chk, name, x| {
        let v2 = x[0] == 1;
        let dir = chk.scratch();
        let l: Items = NAMES.iter().enumerate().filter(|(i, n)| x[1] >> i & 1 == 1 && !(v2 && **n == "single")).map(|(_, n)| ((*n).to_owned(), State::of(n))).collect();
        if v2 && x[1] >> 6 == 1 {
            return;
        }
        let items: BTreeMap<&str, Items> = KINDS.iter().map(|k| (*k, l.clone())).collect();
        write_files(&dir, &document(v2, &items));
        let ctx = match context(&dir, v2) {
            Ok(c) => c,
            Err(e) => return chk.violation(name, name, json!(l.len()), "a registry", &e),
        };
        let base = Options { v2: v2.then_some(true), ..Options::default() };
        for kind in KINDS {
            let three = if chk.thorough() { 3 } else { 2 };
            for o in [base.clone(), Options { exclude_root_namespace: Some(vec!["a"]), ..base.clone() }, Options { stable_only: Some(true), ..base.clone() }].into_iter().take(three) {
                for grouped in [false, true] {
                    if !ask(chk, name, &ctx, kind, &o, false, grouped) {
                        return;
                    }
                }
            }
        }
    });
}

fn render(dir: &Path, template: &str, ctx: &Value) -> Result<String, String> {
    write_files(dir, &[("tpl/t/t.j2".into(), template.to_owned()), ("tpl/t/weaver.yaml".into(), "templates: [{template: t.j2, filter: '.', application_mode: single}]\n".into())]);
    let config = WeaverConfig::try_from_config_files(&[dir.join("tpl/t/weaver.yaml")]).map_err(|e| e.to_string())?;
    let loader = FileSystemFileLoader::try_new(dir.join("tpl"), "t").map_err(|e| e.to_string())?;
    let p = OutputProcessor::from_template_config(config, loader, Params::default(), OutputTarget::Directory(dir.join("out"))).map_err(|e| e.to_string())?;
    p.generate_to_string(ctx).map_err(|e| e.to_string())
}

/// The tests and filters of templates about attributes.
fn tests(chk: &Arc<Check>) {
    const TESTS: &str = "{% for a in ctx.l %}{{ a.name or a.key }}: {{ a is stable }} {{ a is experimental }} {{ a is deprecated }} {{ a is enum }} {{ a.type is simple_type }} {{ a.type is template_type }} {{ a.type is enum_type }} {{ a.type is array }} {{ a.type | instantiated_type if a.type != 'any' }} {{ (a.name or a.key) | attribute_namespace }} {{ (a.name or a.key) | attribute_id }}\n{% endfor %}";
    chk.par(product(&[2, 7, 4, TYPES.len()]), |x| format!("T-{}", dash(x)), |chk, name, x| {
        let (v2, s) = (x[0] == 1, State { stability: x[1], deprecated: x[2], annotation: 0, ty: x[3] });
        if v2 && s.stability >= 5 {
            return;
        }
        let dir = chk.scratch();
        let mut items: BTreeMap<&str, Items> = KINDS.iter().map(|k| (*k, vec![])).collect();
        let tag = format!("s{}d{}x0t0", s.stability, s.deprecated);
        let names = ["base".to_owned(), format!("n.{tag}"), format!("n.m.{tag}")];
        let _ = items.insert("attributes", names.iter().map(|n| (n.clone(), if n == "base" { State::of("") } else { s })).collect());
        write_files(&dir.join("reg"), &document(v2, &items));
        let list = context(&dir.join("reg"), v2).and_then(|c| execute_jq(&c, &query("attributes", Some(&Options { v2: v2.then_some(true), ..Options::default() }), false), &BTreeMap::new()).map_err(|e| e.to_string()));
        let got = list.and_then(|l| render(&dir, TESTS, &json!({"l": l})));
        let mut want = String::new();
        let mut sorted = names.to_vec();
        // v2: base is in the namespace base; v1: other
        sorted.sort_by_key(|n| (if n == "base" && !v2 { "other".to_owned() } else { n.split('.').next().unwrap_or("").to_owned() }, n.clone()));
        for n in &sorted {
            let s = if n == "base" { State::of("") } else { s };
            let t = TYPES[s.ty];
            let template = t.starts_with("template");
            let inner = t.trim_start_matches("template[");
            let inner = if template { &inner[..inner.len() - 1] } else { inner };
            let (ns, id) = n.split_once('.').unwrap_or(("other", n));
            want += &format!(
                "{n}: {} {} {} {} {} {} {} {} {} {ns} {id}\n",
                s.stability == 0,
                s.stability != 0,
                s.deprecated > 0,
                s.ty == 1,
                s.ty != 1 && !template && t != "any",
                template,
                s.ty == 1,
                t.ends_with("[]") && !template,
                if s.ty == 1 { "string" } else if t == "any" { "" } else { inner },
            );
        }
        chk.eval(&(name, &want), true);
        chk.outcome("tested");
        let _ = chk.expect_eq(name, || json!({"v2": v2, "state": tag, "type": TYPES[s.ty]}), want.trim(), got.unwrap_or_else(|e| e).trim());
    });
    // requirement levels: the attributes of a signal in every order
    const LEVEL: &str = "{{ ctx.l | required | map(attribute='n') | join(' ') }}|{{ ctx.l | not_required | map(attribute='n') | join(' ') }}|{{ ctx.l | attribute_sort | map(attribute='n') | join(' ') }}";
    let n = if chk.thorough() { 4 } else { 3 };
    chk.par(product(&vec![LEVELS.len(); n]).flat_map(|x| permutations(x.len()).into_iter().enumerate().filter(|(i, _)| n < 4 || i % 5 == 0).map(|(_, p)| (x.clone(), p)).collect::<Vec<_>>()), |x| format!("R-{}-{}", dash(&x.0), dash(&x.1)), |chk, name, (levels, order)| {
        let dir = chk.scratch();
        let mut groups = vec![];
        for (i, l) in levels.iter().enumerate() {
            let mut a = json!({"ref": format!("n.a{i}")});
            match LEVELS[*l] {
                "" => {}
                "recommended_if" => a["requirement_level"] = json!({"recommended": "if"}),
                "conditionally_required" => a["requirement_level"] = json!({"conditionally_required": "if"}),
                l => a["requirement_level"] = json!(l),
            }
            groups.push(a);
        }
        let doc = json!({"groups": [
            {"id": "registry.n", "type": "attribute_group", "brief": "b", "attributes": (0..levels.len()).map(|i| attribute("id", &format!("n.a{i}"), State::of(""))).collect::<Vec<_>>()},
            {"id": "span.n", "type": "span", "span_kind": "client", "brief": "b", "stability": "stable", "attributes": groups},
        ]});
        write_files(&dir.join("reg"), &[("manifest.yaml".into(), "schema_url: https://example.com/x/1.0.0\ndescription: d\nstability: stable\n".into()), ("a.yaml".into(), doc.to_string())]);
        let rank = |i: usize| match LEVELS[levels[i]] {
            "required" => 1,
            "conditionally_required" => 2,
            "opt_in" => 4,
            _ => 3,
        };
        let got = context(&dir.join("reg"), false).and_then(|c| {
            let l = c["groups"].as_array().and_then(|g| g.iter().find(|g| text(g, "type") == "span")).and_then(|g| g["attributes"].as_array()).cloned().unwrap_or_default();
            let find = |i: usize| l.iter().find(|a| text(a, "name") == format!("n.a{i}")).cloned().unwrap_or_default();
            let l: Vec<Value> = order
                .iter()
                .map(|i| {
                    let mut a = find(*i);
                    a["n"] = json!(i);
                    a
                })
                .collect();
            render(&dir, LEVEL, &json!({"l": l}))
        });
        let show = |l: Vec<usize>| l.iter().map(usize::to_string).collect::<Vec<_>>().join(" ");
        let mut sorted: Vec<usize> = order.clone();
        sorted.sort_by_key(|i| (rank(*i), *i));
        let pick = |required: bool| show(order.iter().copied().filter(|i| (rank(*i) == 1) == required).collect());
        let want = format!("{}|{}|{}", pick(true), pick(false), show(sorted));
        chk.eval(&(levels.clone(), order.clone()), true);
        chk.outcome("sorted");
        let _ = chk.expect_eq(name, || json!({"levels": levels.iter().map(|l| LEVELS[*l]).collect::<Vec<_>>(), "order": order}), &want, &got.unwrap_or_else(|e| e));
    });
}

/// The same queries through the command.
fn command(chk: &Arc<Check>) {
    let most = if chk.thorough() { 2 } else { 1 };
    chk.par(product(&[2, 5, 2, 2, 3, 2, 2, 2]).filter(|x| x[2..].iter().filter(|i| **i > 0).count() <= most), |x| format!("L-{}", dash(x)), |chk, name, x| {
        let v2 = x[0] == 1;
        let dir = chk.scratch();
        let reg = dir.join("reg");
        write_files(&reg, &document(v2, &universe(v2)));
        let o = options(&[x[2] * 2, x[4], x[3] * 2, x[5] * 3, x[6] * 2], v2);
        let grouped = x[7] == 1;
        let q = query(KINDS[x[1]], Some(&o), grouped);
        write_files(&dir, &[("templates/registry/x/weaver.yaml".into(), json!({"templates": [{"template": "o.json.j2", "filter": q, "application_mode": "single"}]}).to_string()), ("templates/registry/x/o.json.j2".into(), "{{ ctx | tojson }}".into())]);
        let mut args = vec!["registry", "generate", "x", "out", "-r", "reg", "-t", "templates"];
        if v2 {
            args.push("--v2");
        }
        let (code, out, err) = weaver(&args, &dir);
        let got = std::fs::read_to_string(dir.join("out/o.json")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()).unwrap_or_else(|| json!([]));
        let want = context(&reg, v2).map(|c| canon(&expected(&c, KINDS[x[1]], &o, grouped))).unwrap_or_else(|e| json!(e));
        chk.add_transitions(1);
        chk.eval(&(name, &q), want != json!([]));
        chk.outcome("through the command");
        let _ = chk.expect_eq(name, || json!({"query": q, "output": format!("{out}{err}").chars().take(500).collect::<String>()}), &format!("0\n{}", brief(&want)), &format!("{code}\n{}", brief(&canon(&got))));
    });
}
