//! A reference model of live check: which findings a sample gets, from the registry as written.
use harness::reg::*;
use harness::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::Arc;
use weaver_forge::registry::ResolvedRegistry;
use weaver_forge::v2::registry::ForgeResolvedRegistry;
use weaver_live_check::advice::{Advisor, DeprecatedAdvisor, EnumAdvisor, RegoAdvisor, StabilityAdvisor, TypeAdvisor};
use weaver_live_check::finding_modifier::FindingModifier;
use weaver_live_check::live_checker::LiveChecker;
use weaver_live_check::sample_metric::{DataPoints, SampleExponentialHistogramDataPoint};
use weaver_live_check::{CumulativeStatistics, LiveCheckRunner, LiveCheckStatistics, Sample, VersionedRegistry};

#[derive(Clone, Debug, Default)]
pub struct Attr {
    pub name: String,
    /// type as in YAML; an object with members for enums
    pub ty: Value,
    pub stability: Option<&'static str>,
    pub deprecated: Option<Value>,
}

#[derive(Clone, Debug, Default)]
pub struct Signal {
    /// metric, event or span
    pub kind: &'static str,
    pub name: String,
    pub stability: Option<&'static str>,
    pub deprecated: Option<Value>,
    pub instrument: &'static str,
    pub unit: &'static str,
    /// attribute, requirement level as in YAML (null: not stated)
    pub attrs: Vec<(String, Value)>,
    /// association expression, entries as in YAML
    pub assoc: Vec<Value>,
}

#[derive(Clone, Debug, Default)]
pub struct Entity {
    pub ty: String,
    pub identity: Vec<(String, Value)>,
    pub description: Vec<(String, Value)>,
}

#[derive(Clone, Debug, Default)]
pub struct Registry {
    pub attrs: Vec<Attr>,
    pub signals: Vec<Signal>,
    pub entities: Vec<Entity>,
    /// the attributes are defined by a dependency (true: in v2 syntax) and used by the registry
    pub dep: Option<bool>,
    /// attributes that only a refinement of the metric `use.m` uses (with `dep`)
    pub refined: Vec<String>,
}

/// (registry and view in v2, syntax of the dependency that defines the attributes)
pub const MODES: [(bool, Option<bool>); 5] = [(false, None), (true, None), (true, Some(true)), (true, Some(false)), (false, Some(false))];

pub fn attr(name: &str, ty: Value) -> Attr {
    Attr { name: name.into(), ty, stability: Some("stable"), deprecated: None }
}

fn put_opt(v: &mut Value, k: &str, x: Option<Value>) {
    if let Some(x) = x {
        v[k] = x;
    }
}

impl Registry {
    pub fn files(&self, v2: bool) -> Files {
        let refs = |l: &[(String, Value)], role: Option<&str>| -> Vec<Value> {
            l.iter()
                .map(|(n, r)| {
                    let mut v = json!({"ref": n});
                    if !r.is_null() {
                        v["requirement_level"] = r.clone();
                    }
                    put_opt(&mut v, "role", role.map(|r| json!(r)));
                    v
                })
                .collect()
        };
        let def = |a: &Attr, key: &str| -> Value {
            let mut v = json!({key: a.name, "type": a.ty, "brief": "b"});
            if a.ty.as_str().is_some_and(|t| t.contains("string") || t.contains("any")) {
                v["examples"] = if a.ty.as_str().is_some_and(|t| t.contains("[]")) { json!([["e"]]) } else { json!(["e"]) };
            }
            put_opt(&mut v, "stability", a.stability.map(|s| json!(s)).or(v2.then(|| json!("development"))));
            put_opt(&mut v, "deprecated", a.deprecated.clone());
            v
        };
        if v2 {
            let mut f = json!({"file_format": "definition/2"});
            if !self.attrs.is_empty() {
                f["attributes"] = self.attrs.iter().map(|a| def(a, "key")).collect();
            }
            let mut by: BTreeMap<&str, Vec<Value>> = BTreeMap::new();
            for s in &self.signals {
                let mut v = json!({"brief": "b", "stability": s.stability.unwrap_or("development"), "requirement_level": "recommended", "attributes": refs(&s.attrs, None)});
                put_opt(&mut v, "deprecated", s.deprecated.clone());
                if !s.assoc.is_empty() {
                    v["entity_associations"] = json!(s.assoc);
                }
                match s.kind {
                    "metric" => {
                        v["name"] = json!(s.name);
                        v["instrument"] = json!(s.instrument);
                        v["unit"] = json!(s.unit);
                    }
                    "event" => v["name"] = json!(s.name),
                    _ => {
                        v["type"] = json!(s.name);
                        v["kind"] = json!("internal");
                        v["name"] = json!({"note": "n"});
                    }
                }
                by.entry(match s.kind { "metric" => "metrics", "event" => "events", _ => "spans" }).or_default().push(v);
            }
            for e in &self.entities {
                let mut v = json!({"type": e.ty, "brief": "b", "stability": "stable", "requirement_level": "recommended", "identity": refs(&e.identity, None)});
                if !e.description.is_empty() {
                    v["description"] = json!(refs(&e.description, None));
                }
                by.entry("entities").or_default().push(v);
            }
            for (k, l) in by {
                f[k] = json!(l);
            }
            vec![("r.yaml".into(), f.to_string())]
        } else {
            let mut groups = vec![];
            if !self.attrs.is_empty() {
                groups.push(json!({"id": "registry.all", "type": "attribute_group", "brief": "b", "attributes": self.attrs.iter().map(|a| def(a, "id")).collect::<Vec<_>>()}));
            }
            for s in &self.signals {
                let mut v = json!({"brief": "b", "type": s.kind, "id": format!("{}.{}", s.kind, s.name), "attributes": refs(&s.attrs, None)});
                put_opt(&mut v, "stability", s.stability.map(|s| json!(s)));
                put_opt(&mut v, "deprecated", s.deprecated.clone());
                if !s.assoc.is_empty() {
                    v["entity_associations"] = json!(s.assoc);
                }
                match s.kind {
                    "metric" => {
                        v["metric_name"] = json!(s.name);
                        v["instrument"] = json!(s.instrument);
                        v["unit"] = json!(s.unit);
                    }
                    "event" => v["name"] = json!(s.name),
                    _ => v["span_kind"] = json!("internal"),
                }
                groups.push(v);
            }
            for e in &self.entities {
                let mut l = refs(&e.identity, Some("identifying"));
                l.extend(refs(&e.description, Some("descriptive")));
                groups.push(json!({"id": format!("entity.{}", e.ty), "type": "entity", "name": e.ty, "brief": "b", "stability": "stable", "attributes": l}));
            }
            vec![("r.yaml".into(), json!({"groups": groups}).to_string())]
        }
    }

    /// Resolves the registry as `weaver registry live-check` does.
    pub fn resolve(&self, dir: &Path, v2: bool) -> Result<Arc<VersionedRegistry>, String> {
        let Some(dep_v2) = self.dep else { return load(dir, &self.files(v2), v2) };
        let dep = dir.with_file_name(format!("{}-dep", dir.file_name().and_then(|n| n.to_str()).unwrap_or("r")));
        let url = "https://d.test/s/1.0.0";
        let mut files = Registry { attrs: self.attrs.clone(), ..Default::default() }.files(dep_v2);
        files.push(("manifest.yaml".into(), json!({"schema_url": url, "description": "d", "stability": "stable"}).to_string()));
        write_files(&dep, &files);
        let mut main = self.clone();
        main.attrs.clear();
        let mut files = main.files(v2);
        let used: BTreeSet<&str> = (self.signals.iter().flat_map(|s| &s.attrs))
            .chain(self.entities.iter().flat_map(|e| e.identity.iter().chain(&e.description)))
            .map(|(n, _)| n.as_str())
            .chain(self.refined.iter().map(String::as_str))
            .collect();
        let rest: Vec<Value> = self.attrs.iter().filter(|a| !used.contains(a.name.as_str())).map(|a| json!({"ref": a.name})).collect();
        let refined: Vec<Value> = self.refined.iter().map(|a| json!({"ref": a})).collect();
        let mut f = if v2 { json!({"file_format": "definition/2"}) } else { json!({"groups": []}) };
        if v2 {
            f["attribute_groups"] = json!([{"id": "used", "visibility": "public", "brief": "b", "stability": "stable", "attributes": rest}]);
            if !refined.is_empty() {
                f["metric_refinements"] = json!([{"id": "use.m.more", "ref": "use.m", "attributes": refined}]);
            }
        } else {
            f["groups"] = if rest.is_empty() { json!([]) } else { json!([{"id": "used", "type": "attribute_group", "brief": "b", "attributes": rest}]) };
            if !refined.is_empty() {
                let _ = f["groups"].as_array_mut().map(|l| l.push(json!({"id": "used.more", "type": "attribute_group", "brief": "b", "extends": "used", "attributes": refined})));
            }
        }
        files.push(("used.yaml".into(), f.to_string()));
        files.push(("manifest.yaml".into(), json!({"schema_url": "https://m.test/s/1.0.0", "description": "d", "stability": "stable",
            "dependencies": [{"schema_url": url, "registry_path": dep.display().to_string()}]}).to_string()));
        load(dir, &files, v2)
    }
    pub fn attr(&self, n: &str) -> Option<&Attr> {
        self.attrs.iter().find(|a| a.name == n)
    }
    pub fn signal(&self, kind: &str, n: &str) -> Option<&Signal> {
        self.signals.iter().find(|s| s.kind == kind && s.name == n)
    }
}

pub fn load(dir: &Path, files: &Files, v2: bool) -> Result<Arc<VersionedRegistry>, String> {
    write_files(dir, files);
    let mut resolver = weaver_resolver::WeaverResolver::new(config());
    let r = resolve_with(&mut resolver, dir, dir);
    let bad: Vec<String> = diag(&r).into_iter().filter(|e| !matches!(variant(e).as_str(), "UnstructuredDeprecatedProperty" | "InvalidAttributeWarning")).collect();
    let Some(s) = r.schema else { return Err(format!("{:?}", r.fatal)) };
    if !bad.is_empty() {
        return Err(format!("unexpected diagnostics {bad:?}"));
    }
    let v1 = s.into_v1().map_err(|e| e.to_string())?;
    if v2 {
        let s: weaver_resolved_schema::v2::ResolvedTelemetrySchema = v1.try_into().map_err(|e: weaver_resolved_schema::error::Error| e.to_string())?;
        let f = match ForgeResolvedRegistry::try_from_resolved_schema(s, &mut resolver) {
            weaver_common::result::WResult::Ok(f) | weaver_common::result::WResult::OkWithNFEs(f, _) => f,
            weaver_common::result::WResult::FatalErr(e) => return Err(e.to_string()),
        };
        Ok(Arc::new(VersionedRegistry::V2(Box::new(f))))
    } else {
        let f = ResolvedRegistry::try_from_resolved_registry(&v1.registry, v1.catalog()).map_err(|e| e.to_string())?;
        Ok(Arc::new(VersionedRegistry::V1(Box::new(f))))
    }
}

/// Which policy runs next to the built-in advisors.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Policy {
    None,
    Default,
    /// a policy that reports everything it is shown
    Seen,
}

const SEEN: &str = r#"package live_check_advice
import rego.v1
deny contains f if {
  some kind, _ in input.sample
  f := {"type": "advice", "advice_type": "seen", "advice_level": "information", "message": "m", "advice_context": {
    "kind": kind,
    "resource": object.get(input, "resource", null),
    "scope": object.get(input, "instrumentation_scope", null),
    "attribute": brief("registry_attribute"),
    "group": brief("registry_group"),
  }}
}
brief(k) := input[k].brief
brief(k) := null if not input[k].brief
"#;

pub fn checker(reg: &Arc<VersionedRegistry>, policy: Policy, dir: &Path, modifier: Option<FindingModifier>) -> LiveChecker {
    let advisors: Vec<Box<dyn Advisor>> = vec![Box::new(DeprecatedAdvisor), Box::new(StabilityAdvisor), Box::new(TypeAdvisor), Box::new(EnumAdvisor)];
    let mut c = LiveChecker::new(reg.clone(), advisors);
    c.finding_modifier = modifier;
    match policy {
        Policy::None => {}
        Policy::Default => {
            let r = RegoAdvisor::new(&c, &None, &None, &None).expect("default policy");
            c.add_advisor(Box::new(r));
        }
        Policy::Seen => {
            let p = dir.join("policies");
            write_files(&p, &[("seen.rego".into(), SEEN.into())]);
            let r = RegoAdvisor::new(&c, &Some(p), &None, &None).expect("policy");
            c.add_advisor(Box::new(r));
        }
    }
    c
}

/// A sample from its JSON form; `exp: true` in a data point makes it an exponential histogram.
pub fn sample(v: &Value) -> Sample {
    let mut s: Sample = serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("sample {v}: {e}"));
    if let Sample::Metric(m) = &mut s {
        if v["metric"]["data_points"][0]["exp"] == json!(true) {
            let Some(DataPoints::Histogram(h)) = m.data_points.take() else { panic!("not a histogram") };
            m.data_points = Some(DataPoints::ExponentialHistogram(
                h.into_iter()
                    .map(|p| SampleExponentialHistogramDataPoint {
                        attributes: p.attributes,
                        count: p.count,
                        sum: p.sum,
                        scale: 1,
                        zero_count: 0,
                        positive: None,
                        negative: None,
                        flags: 0,
                        min: None,
                        max: None,
                        zero_threshold: 0.0,
                        exemplars: p.exemplars,
                        live_check_result: None,
                    })
                    .collect(),
            ));
        }
    }
    s
}

/// Runs samples as the command does: a resource applies to the signals after it, and so does an instrumentation scope, the way
/// a received message has it.
pub fn run_samples(c: &mut LiveChecker, samples: &[Value]) -> Result<(Vec<Value>, Value), String> {
    let mut stats = LiveCheckStatistics::Cumulative(CumulativeStatistics::new(&c.registry));
    let mut out = vec![];
    let (mut res, mut scope) = (None, None);
    for v in samples {
        let mut s = sample(v);
        match &mut s {
            Sample::Resource(r) => res = Some(std::rc::Rc::new(r.clone())),
            Sample::InstrumentationScope(r) => scope = Some(std::rc::Rc::new(r.clone())),
            Sample::Metric(m) => (m.resource, m.instrumentation_scope) = (res.clone(), scope.clone()),
            Sample::Log(l) => (l.resource, l.instrumentation_scope) = (res.clone(), scope.clone()),
            Sample::Span(x) => (x.resource, x.instrumentation_scope) = (res.clone(), scope.clone()),
            Sample::Profile(x) => (x.resource, x.instrumentation_scope) = (res.clone(), scope.clone()),
            _ => {}
        }
        let parent = s.clone();
        s.run_live_check(c, &mut stats, None, &parent).map_err(|e| e.to_string())?;
        out.push(serde_json::to_value(&s).map_err(|e| e.to_string())?);
    }
    stats.finalize();
    Ok((out, serde_json::to_value(&stats).map_err(|e| e.to_string())?))
}

/// Results by path, findings sorted, messages dropped.
pub fn results(v: &Value) -> BTreeMap<String, Value> {
    let mut out = BTreeMap::new();
    fn walk(path: String, v: &Value, out: &mut BTreeMap<String, Value>) {
        match v {
            Value::Object(m) => {
                for (k, x) in m {
                    if k == "live_check_result" {
                        if !x.is_null() {
                            let mut l: Vec<Value> = x["all_advice"].as_array().cloned().unwrap_or_default();
                            for f in &mut l {
                                if let Some(m) = f.as_object_mut() {
                                    let _ = m.remove("type");
                                    if m.remove("message").is_none_or(|m| m.as_str().unwrap_or("").is_empty()) {
                                        let _ = m.insert("message".into(), json!("missing"));
                                    }
                                }
                            }
                            l.sort_by_key(|f| f.to_string());
                            let _ = out.insert(path.clone(), json!({"findings": l, "highest": x["highest_advice_level"]}));
                        }
                    } else if k != "value" {
                        walk(format!("{path}/{k}"), x, out);
                    }
                }
            }
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    walk(format!("{path}/{i}"), x, out);
                }
            }
            _ => {}
        }
    }
    walk(String::new(), v, &mut out);
    out
}

pub fn rank(level: &Value) -> usize {
    match level.as_str() {
        Some("information") => 1,
        Some("improvement") => 2,
        Some("violation") => 3,
        _ => 0,
    }
}

pub type Modifier<'a> = &'a (dyn Fn(&Value, Option<&str>) -> Option<Value> + 'a);

pub struct Oracle<'a> {
    pub reg: &'a Registry,
    pub v2: bool,
    pub policy: Policy,
    pub modify: Option<Modifier<'a>>,
}

/// Totals of a run.
#[derive(Default, Clone, Debug)]
pub struct Totals {
    pub by_type: BTreeMap<String, u64>,
    pub levels: BTreeMap<String, u64>,
    pub highest: BTreeMap<String, u64>,
    pub ids: BTreeMap<String, u64>,
    pub none: u64,
    /// recounted from the report
    pub messages: BTreeMap<String, u64>,
    pub attrs: BTreeMap<String, u64>,
    pub metrics: BTreeMap<String, u64>,
    pub events: BTreeMap<String, u64>,
}

struct Ctx<'a> {
    kind: &'a str,
    signal_type: Value,
    signal_name: Value,
    resource: Option<&'a Value>,
    scope: Value,
}

fn finding(ctx: &Ctx<'_>, id: &str, level: &str, context: Value) -> Value {
    let mut m = Map::new();
    let _ = m.insert("id".into(), json!(id));
    let _ = m.insert("level".into(), json!(level));
    let _ = m.insert("context".into(), context);
    let _ = m.insert("signal_type".into(), ctx.signal_type.clone());
    let _ = m.insert("signal_name".into(), ctx.signal_name.clone());
    Value::Object(m)
}

/// How a missing attribute of that requirement level is reported.
fn missing(level: &Value) -> (&'static str, &'static str) {
    match level {
        Value::Null => ("recommended", "improvement"),
        Value::String(s) if s == "required" => ("required", "violation"),
        Value::String(s) if s == "recommended" => ("recommended", "improvement"),
        Value::String(_) => ("opt_in", "information"),
        Value::Object(m) if m.contains_key("recommended") => ("recommended", "improvement"),
        Value::Object(m) if m.contains_key("opt_in") => ("opt_in", "information"),
        _ => ("conditionally_required", "information"),
    }
}

pub fn infer_type(v: &Value) -> Option<&'static str> {
    let int = |v: &Value| v.is_i64() || v.is_u64();
    match v {
        Value::Bool(_) => Some("boolean"),
        Value::Number(_) => Some(if int(v) { "int" } else { "double" }),
        Value::String(_) => Some("string"),
        Value::Array(a) => {
            let l: Vec<&Value> = a.iter().filter(|x| !x.is_null()).collect();
            if l.is_empty() {
                None
            } else if l.iter().all(|x| x.is_boolean()) {
                Some("boolean[]")
            } else if l.iter().all(|x| int(x)) {
                Some("int[]")
            } else if l.iter().all(|x| x.is_number()) && !int(l[0]) {
                Some("double[]")
            } else if l.iter().all(|x| x.is_string()) {
                Some("string[]")
            } else {
                None
            }
        }
        _ => None,
    }
}

fn compatible(seen: &str, want: &str) -> bool {
    seen == want || want == "any" || seen == "any" || (seen == "int" && want == "double") || (seen == "int[]" && want == "double[]")
}

fn format_ok(n: &str) -> bool {
    let b = n.as_bytes();
    if b.is_empty() || !b[0].is_ascii_lowercase() {
        return false;
    }
    let mut sep = false;
    for (i, c) in b.iter().enumerate() {
        if *c == b'.' || *c == b'_' {
            if sep || i + 1 == b.len() {
                return false;
            }
            sep = true;
        } else if c.is_ascii_lowercase() || c.is_ascii_digit() {
            sep = false;
        } else {
            return false;
        }
    }
    true
}

impl Oracle<'_> {
    fn stability(&self, s: Option<&'static str>) -> Option<&'static str> {
        s.or(self.v2.then_some("development"))
    }
    fn reason_note(d: &Value) -> (Value, Value) {
        match d {
            Value::String(s) => (json!("uncategorized"), json!(s)),
            d => {
                let note = if d["note"].is_null() { json!(format!("Replaced by `{}`.", d["renamed_to"].as_str().unwrap_or(""))) } else { d["note"].clone() };
                (d["reason"].clone(), note)
            }
        }
    }
    pub fn is_template(a: &Attr) -> bool {
        a.ty.as_str().is_some_and(|t| t.starts_with("template["))
    }
    fn find(&self, n: &str) -> Option<&Attr> {
        self.reg.attr(n).filter(|a| !Self::is_template(a)).or_else(|| self.template(n))
    }
    fn template(&self, n: &str) -> Option<&Attr> {
        self.reg.attrs.iter().filter(|a| Self::is_template(a) && n.starts_with(&format!("{}.", a.name))).max_by_key(|a| a.name.len())
    }

    /// Unmodified findings of one attribute.
    fn attribute(&self, ctx: &Ctx<'_>, a: &Value) -> (Vec<Value>, String) {
        let mut out = vec![];
        let name = a["name"].as_str().expect("name");
        let mut covered = name.to_owned();
        let def = self.find(name);
        let key = json!({"attribute_key": name});
        let with = |more: Value| {
            let mut k = json!({"attribute_key": name});
            for (n, v) in more.as_object().expect("object") {
                k[n] = v.clone();
            }
            k
        };
        match def {
            None => out.push(finding(ctx, "missing_attribute", "violation", key.clone())),
            Some(d) => {
                if Self::is_template(d) {
                    out.push(finding(ctx, "template_attribute", "information", with(json!({"template_name": d.name}))));
                    covered = d.name.clone();
                }
                if let Some(dep) = &d.deprecated {
                    let (r, n) = Self::reason_note(dep);
                    out.push(finding(ctx, "deprecated", "violation", with(json!({"deprecation_reason": r, "deprecation_note": n}))));
                }
                if let Some(s) = self.stability(d.stability) {
                    if s != "stable" {
                        out.push(finding(ctx, "not_stable", "improvement", with(json!({"stability": s}))));
                    }
                }
                let ty = a["type"].as_str().map(str::to_owned).or_else(|| a.get("value").and_then(infer_type).map(str::to_owned));
                if let Some(ty) = ty {
                    if let Some(members) = d.ty["members"].as_array() {
                        if ty != "string" && ty != "int" {
                            out.push(finding(ctx, "type_mismatch", "violation", with(json!({"attribute_type": ty}))));
                        } else if let Some(v) = a.get("value").filter(|v| !v.is_null()) {
                            if !members.iter().any(|m| &m["value"] == v) {
                                out.push(finding(ctx, "undefined_enum_variant", "information", with(json!({"attribute_value": v}))));
                            }
                        }
                    } else {
                        let want = d.ty.as_str().expect("type");
                        let want = want.strip_prefix("template[").and_then(|w| w.strip_suffix(']')).unwrap_or(want);
                        if !compatible(&ty, want) {
                            out.push(finding(ctx, "type_mismatch", "violation", with(json!({"attribute_type": ty, "expected": want}))));
                        }
                    }
                }
            }
        }
        if self.policy == Policy::Default {
            let plain: BTreeMap<&str, bool> = self.reg.attrs.iter().filter(|a| !Self::is_template(a)).map(|a| (a.name.as_str(), a.deprecated.is_some())).collect();
            let templ = self.template(name).is_some();
            if !name.contains('.') {
                out.push(finding(ctx, "missing_namespace", "improvement", key.clone()));
            }
            if !templ && !format_ok(name) {
                out.push(finding(ctx, "invalid_format", "violation", key.clone()));
            }
            let parts: Vec<&str> = name.split('.').collect();
            let ns: Vec<String> = (1..parts.len()).map(|i| parts[..i].join(".")).collect();
            for n in ns.iter().collect::<BTreeSet<_>>() {
                if plain.get(n.as_str()) == Some(&false) {
                    out.push(finding(ctx, "illegal_namespace", "violation", with(json!({"namespace": n}))));
                }
            }
            if !templ && !plain.contains_key(name) {
                let known = |n: &str| plain.keys().any(|k| k.starts_with(&format!("{n}.")));
                if let Some(n) = ns.iter().rev().find(|n| known(n)) {
                    out.push(finding(ctx, "extends_namespace", "information", with(json!({"namespace": n}))));
                }
            }
        }
        (out, covered)
    }

    fn absent(&self, ctx: &Ctx<'_>, s: &Signal, have: &Value) -> Vec<Value> {
        let names: Vec<&str> = have.as_array().map(|l| l.iter().filter_map(|a| a["name"].as_str()).collect()).unwrap_or_default();
        let mut out = vec![];
        for (n, level) in &s.attrs {
            let templ = self.reg.attr(n).is_some_and(Self::is_template);
            let present = names.iter().any(|h| h == n || (templ && h.starts_with(&format!("{n}."))));
            if !present {
                let (id, l) = missing(level);
                out.push(finding(ctx, &format!("{id}_attribute_not_present"), l, json!({"attribute_key": n})));
            }
        }
        out
    }

    fn entity(&self, ctx: &Ctx<'_>, ty: &str, have: &[&str]) -> Option<Vec<Value>> {
        let e = self.reg.entities.iter().find(|e| e.ty == ty)?;
        let mut out = vec![];
        for (n, level) in e.identity.iter().chain(&e.description) {
            if !have.contains(&n.as_str()) {
                let (id, l) = missing(level);
                out.push(finding(ctx, &format!("entity_{id}_attribute_not_present"), l, json!({"attribute_key": n, "entity_type": ty})));
            }
        }
        Some(out)
    }

    /// (satisfied, findings)
    fn assoc(&self, ctx: &Ctx<'_>, e: &Value, have: &[&str]) -> (bool, Vec<Value>) {
        if let Some(n) = e.as_str() {
            match self.entity(ctx, n, have) {
                None => (true, vec![]),
                Some(f) => (!f.iter().any(|x| x["level"] == json!("violation")), f),
            }
        } else if let Some(l) = e["all_of"].as_array() {
            let l: Vec<_> = l.iter().map(|x| self.assoc(ctx, x, have)).collect();
            (l.iter().all(|(s, _)| *s), l.into_iter().flat_map(|(_, f)| f).collect())
        } else {
            self.one_of(ctx, e["one_of"].as_array().expect("one_of"), have)
        }
    }
    fn one_of(&self, ctx: &Ctx<'_>, l: &[Value], have: &[&str]) -> (bool, Vec<Value>) {
        let r: Vec<_> = l.iter().map(|x| self.assoc(ctx, x, have)).collect();
        if r.iter().any(|(s, _)| *s) {
            (true, r.into_iter().filter(|(s, _)| *s).flat_map(|(_, f)| f).collect())
        } else {
            fn names(e: &Value, out: &mut Vec<String>) {
                match e {
                    Value::String(s) => {
                        if !out.contains(s) {
                            out.push(s.clone());
                        }
                    }
                    Value::Array(a) => a.iter().for_each(|x| names(x, out)),
                    Value::Object(m) => m.values().for_each(|x| names(x, out)),
                    _ => {}
                }
            }
            let mut n = vec![];
            names(&json!(l), &mut n);
            (false, vec![finding(ctx, "entity_association_not_satisfied", "violation", json!({"entity_type": n}))])
        }
    }
    fn associations(&self, ctx: &Ctx<'_>, s: &Signal) -> Vec<Value> {
        let have: Vec<&str> = ctx.resource.and_then(|r| r["attributes"].as_array()).map(|l| l.iter().filter_map(|a| a["name"].as_str()).collect()).unwrap_or_default();
        match s.assoc.len() {
            0 => vec![],
            1 => self.assoc(ctx, &s.assoc[0], &have).1,
            _ => self.one_of(ctx, &s.assoc, &have).1,
        }
    }

    fn signal(&self, ctx: &Ctx<'_>, kind: &str, node: &Value, def: Option<&Signal>) -> Vec<Value> {
        let mut out = vec![];
        let (field, word) = if kind == "metric" { ("name", "metric") } else { ("event_name", "event") };
        let name = node[field].as_str().unwrap_or("");
        match def {
            None => {
                if kind == "metric" || !name.is_empty() {
                    out.push(finding(ctx, &format!("missing_{word}"), "violation", Value::Null));
                }
            }
            Some(d) => {
                let key = format!("{word}_name");
                if let Some(dep) = &d.deprecated {
                    let (r, n) = Self::reason_note(dep);
                    out.push(finding(ctx, "deprecated", "violation", json!({&key: name, "deprecation_reason": r, "deprecation_note": n})));
                }
                if let Some(s) = self.stability(d.stability) {
                    if s != "stable" {
                        out.push(finding(ctx, "not_stable", "improvement", json!({&key: name, "stability": s})));
                    }
                }
                if kind == "metric" {
                    let inst = node["instrument"].as_str().unwrap_or("");
                    if !["counter", "updowncounter", "gauge", "histogram"].contains(&inst) {
                        out.push(finding(ctx, "unexpected_instrument", "violation", json!({"instrument": inst})));
                    } else if inst != d.instrument {
                        out.push(finding(ctx, "unexpected_instrument", "violation", json!({"instrument": inst, "expected": d.instrument})));
                    }
                    if node["unit"].as_str() != Some(d.unit) {
                        out.push(finding(ctx, "unit_mismatch", "violation", json!({"unit": node["unit"], "expected": d.unit})));
                    }
                } else {
                    out.extend(self.absent(ctx, d, &node["attributes"]));
                }
                out.extend(self.associations(ctx, d));
            }
        }
        if self.policy == Policy::Default && kind == "metric" && !format_ok(name) {
            let mut f = finding(ctx, "invalid_format", "violation", json!({"metric_name": name}));
            f["signal_name"] = json!(name);
            f["signal_type"] = json!("metric");
            out.push(f);
        }
        out
    }

    /// Expected results of one sample by path.
    pub fn expect(&self, s: &Value, resource: Option<&Value>, scope: Option<&Value>, t: &mut Totals) -> BTreeMap<String, Value> {
        let (kind, node) = s.as_object().and_then(|m| m.iter().next()).expect("sample");
        let st = match kind.as_str() {
            "span" | "metric" | "log" | "resource" | "profile" => json!(kind),
            _ => Value::Null,
        };
        let sn = match kind.as_str() {
            "span" | "metric" => node["name"].clone(),
            "log" => node["event_name"].clone(),
            _ => Value::Null,
        };
        let carries = matches!(kind.as_str(), "span" | "metric" | "log" | "profile");
        let ctx = Ctx { kind, signal_type: st, signal_name: sn, resource: resource.filter(|_| carries), scope: scope.filter(|_| carries).map(shown_scope).unwrap_or(Value::Null) };
        let group = match kind.as_str() {
            "metric" => self.reg.signal("metric", node["name"].as_str().unwrap_or("")),
            "log" if node["event_name"] != json!("") => self.reg.signal("event", node["event_name"].as_str().unwrap_or("")),
            _ => None,
        };
        let mut out = BTreeMap::new();
        self.node(&ctx, kind, &format!("/{kind}"), node, group, &mut out, t);
        out
    }

    #[allow(clippy::too_many_arguments)]
    fn node(&self, ctx: &Ctx<'_>, kind: &str, path: &str, node: &Value, group: Option<&Signal>, out: &mut BTreeMap<String, Value>, t: &mut Totals) {
        let mut f = match kind {
            "attribute" => {
                let (f, covered) = self.attribute(ctx, node);
                *t.attrs.entry(covered).or_default() += 1;
                f
            }
            "metric" => {
                *t.metrics.entry(node["name"].as_str().unwrap_or("").into()).or_default() += 1;
                self.signal(ctx, kind, node, group)
            }
            "log" => {
                let n = node["event_name"].as_str().unwrap_or("");
                if !n.is_empty() {
                    *t.events.entry(n.into()).or_default() += 1;
                }
                self.signal(ctx, kind, node, group)
            }
            "number_data_point" | "histogram_data_point" | "exponential_histogram_data_point" => group.map(|g| self.absent(ctx, g, &node["attributes"])).unwrap_or_default(),
            _ => vec![],
        };
        if self.policy == Policy::Seen {
            let a = (kind == "attribute").then(|| self.find(node["name"].as_str().unwrap_or(""))).flatten().map(|_| json!("b")).unwrap_or(Value::Null);
            let res = ctx.resource.map(shown_resource).unwrap_or(Value::Null);
            f.push(finding(ctx, "seen", "information", json!({"kind": kind, "resource": res, "scope": ctx.scope, "attribute": a, "group": group.map(|_| json!("b")).unwrap_or(Value::Null)})));
        }
        let sample_name = match kind {
            "attribute" | "span" | "span_event" | "metric" | "instrumentation_scope" => node["name"].as_str(),
            "log" => node["event_name"].as_str(),
            _ => None,
        };
        if let Some(m) = self.modify {
            f = f.iter().filter_map(|x| m(x, sample_name)).collect();
        }
        f.sort_by_key(|x| x.to_string());
        let highest = f.iter().map(|x| x["level"].clone()).max_by_key(rank).unwrap_or(Value::Null);
        let word = match kind {
            "number_data_point" | "histogram_data_point" | "exponential_histogram_data_point" => "data_point",
            k => k,
        };
        *t.by_type.entry(word.into()).or_default() += 1;
        for x in &f {
            *t.levels.entry(x["level"].as_str().unwrap_or("").into()).or_default() += 1;
            *t.ids.entry(x["id"].as_str().unwrap_or("").into()).or_default() += 1;
        }
        match highest.as_str() {
            Some(h) => *t.highest.entry(h.into()).or_default() += 1,
            None => t.none += 1,
        }
        let _ = out.insert(path.to_owned(), json!({"findings": f, "highest": highest}));
        let mut list = |field: &str, k: &str, g: Option<&Signal>| {
            if let Some(l) = node[field].as_array() {
                for (i, x) in l.iter().enumerate() {
                    self.node(ctx, k, &format!("{path}/{field}/{i}"), x, g, out, t);
                }
            }
        };
        match kind {
            "span" => {
                list("attributes", "attribute", None);
                list("span_events", "span_event", None);
                list("span_links", "span_link", None);
            }
            "metric" => {
                let p = &node["data_points"][0];
                let k = if p["exp"] == json!(true) { "exponential_histogram_data_point" } else if !p["value"].is_null() { "number_data_point" } else { "histogram_data_point" };
                list("data_points", k, group);
            }
            "exemplar" => list("filtered_attributes", "attribute", group),
            "attribute" => {}
            _ => {
                list("attributes", "attribute", group);
                list("exemplars", "exemplar", group);
            }
        }
        let _ = ctx.kind;
    }
}

fn shown_resource(r: &Value) -> Value {
    let l: Vec<Value> = r["attributes"]
        .as_array()
        .map(|l| {
            l.iter()
                .map(|a| {
                    let ty = a["type"].as_str().map(str::to_owned).or_else(|| a.get("value").and_then(infer_type).map(str::to_owned));
                    json!({"name": a["name"], "value": a.get("value").cloned().unwrap_or(Value::Null), "type": ty, "live_check_result": null})
                })
                .collect()
        })
        .unwrap_or_default();
    json!({"attributes": l, "live_check_result": null})
}

fn shown_scope(s: &Value) -> Value {
    json!({"name": s["name"], "version": s["version"].as_str().unwrap_or(""), "schema_url": s["schema_url"].as_str().unwrap_or(""), "attributes": shown_resource(s)["attributes"],
        "dropped_attributes_count": s["dropped_attributes_count"].as_u64().unwrap_or(0), "live_check_result": null})
}

fn count_messages(v: &Value, out: &mut BTreeMap<String, u64>) {
    match v {
        Value::Object(m) => {
            if let Some(l) = m.get("live_check_result").and_then(|r| r["all_advice"].as_array()) {
                for f in l {
                    *out.entry(f["message"].as_str().unwrap_or("").into()).or_default() += 1;
                }
            }
            m.iter().filter(|(k, _)| *k != "live_check_result").for_each(|(_, x)| count_messages(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| count_messages(x, out)),
        _ => {}
    }
}

/// The statistics a run with these totals has to end with.
pub fn expect_stats(reg: &Registry, t: &Totals) -> Value {
    let split = |seen: &BTreeMap<String, u64>, known: Vec<&str>| -> (BTreeMap<String, u64>, BTreeMap<String, u64>) {
        let k = known.iter().map(|n| ((*n).to_owned(), seen.get(*n).copied().unwrap_or(0))).collect();
        (k, seen.iter().filter(|(n, _)| !known.contains(&n.as_str())).map(|(n, c)| (n.clone(), *c)).collect())
    };
    let (ka, na) = split(&t.attrs, reg.attrs.iter().filter(|a| a.deprecated.is_none()).map(|a| a.name.as_str()).collect());
    let of = |kind: &str| reg.signals.iter().filter(|s| s.kind == kind && s.deprecated.is_none()).map(|s| s.name.as_str()).collect::<Vec<_>>();
    let (km, nm) = split(&t.metrics, of("metric"));
    let (ke, ne) = split(&t.events, of("event"));
    let total = ka.len() + km.len() + ke.len();
    let hit = [&ka, &km, &ke].iter().flat_map(|m| m.values()).filter(|c| **c > 0).count();
    let coverage = if total == 0 { 0.0 } else { hit as f32 / total as f32 };
    json!({
        "total_entities": t.by_type.values().sum::<u64>(),
        "total_entities_by_type": t.by_type,
        "total_advisories": t.ids.values().sum::<u64>(),
        "advice_level_counts": t.levels,
        "highest_advice_level_counts": t.highest,
        "no_advice_count": t.none,
        "advice_type_counts": t.ids,
        "advice_message_counts": t.messages,
        "seen_registry_attributes": ka, "seen_non_registry_attributes": na,
        "seen_registry_metrics": km, "seen_non_registry_metrics": nm,
        "seen_registry_events": ke, "seen_non_registry_events": ne,
        "registry_coverage": coverage,
    })
}

/// Differences between two objects, by key.
pub fn differences(want: &Value, got: &Value) -> (String, String) {
    let (Some(w), Some(g)) = (want.as_object(), got.as_object()) else { return (want.to_string(), got.to_string()) };
    let d = |a: &Map<String, Value>, b: &Map<String, Value>| format!("{:?}", a.iter().filter(|(k, v)| b.get(*k) != Some(v)).collect::<Vec<_>>());
    (d(w, g), d(g, w))
}

/// Findings of `samples` equal to those the oracle predicts; returns the statistics and totals.
pub fn compare(chk: &Check, name: &str, input: &Value, o: &Oracle<'_>, c: &mut LiveChecker, samples: &[Value]) -> Option<(Value, Totals)> {
    let (got, stats) = match guarded(|| run_samples(c, samples)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) | Err(e) => {
            chk.violation(name, name, json!({"registry": input, "samples": samples}), "the check runs", &e);
            return None;
        }
    };
    let mut t = Totals::default();
    let mut resource: Option<&Value> = None;
    let mut scope: Option<&Value> = None;
    for (s, g) in samples.iter().zip(&got) {
        resource = s.get("resource").or(resource);
        scope = s.get("instrumentation_scope").or(scope);
        let want = o.expect(s, resource, scope, &mut t);
        count_messages(g, &mut t.messages);
        chk.add_states(want.len() as u64);
        let got = results(g);
        for x in want.values() {
            for f in x["findings"].as_array().expect("findings") {
                chk.outcome(f["id"].as_str().unwrap_or(""));
            }
        }
        let mut w: BTreeMap<&String, &Value> = want.iter().collect();
        let mut h: BTreeMap<&String, &Value> = got.iter().collect();
        w.retain(|k, v| got.get(*k) != Some(v));
        h.retain(|k, v| want.get(*k) != Some(v));
        let ok = chk.expect_eq(name, || json!({"registry": input, "sample": s, "resource": resource}), &format!("{w:?}"), &format!("{h:?}"));
        if !ok {
            return None;
        }
    }
    Some((stats, t))
}
