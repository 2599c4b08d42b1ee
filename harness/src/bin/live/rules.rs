//! C20: finding filters and level overrides; C21: statistics and exit code.
use crate::model::*;
use harness::reg::weaver;
use harness::*;
use serde_json::{json, Value};
use std::path::Path;
use std::sync::Arc;
use weaver_checker::FindingLevel;
use weaver_config::{FindingFilter, FindingLevelOverride};
use weaver_live_check::finding_modifier::FindingModifier;

pub const MODIFIER: Spec = Spec {
    id: "C20",
    level: "model_checking",
    rule: "Exhaustive: every filter of exclude {none, missing_attribute, two ids} x min_level {none, three levels} x signal_type {none, metric, span, log} x exclude_samples (5 pattern lists) x sample_names (7 pattern lists), and every \
           level override of ids (3) x level (3) x signal_type (4) x sample_names (7); each alone, every override of a choice of 24 with every filter, every ordered pair of a choice of 40 overrides and of 40 filters \
           (thorough: 90), applied to a batch with every kind of finding on every kind of entity (built-in advisors and policy findings); the batch order reversed; through the configuration file for every single rule of the choice. \
           Oracle: overrides first (first match wins), then a finding stays iff no filter in scope drops it. Non-trivial: the rules change something.",
    assumptions: &[],
    run: modifier,
};
pub const STATS: Spec = Spec {
    id: "C21",
    level: "model_checking",
    rule: "Exhaustive: all sequences of up to 4 (thorough 5) samples out of 14 (every kind, known, unknown and deprecated names, repeated), registry in v1 and v2 syntax and with the attributes in a dependency, with no rules and with 6 rule sets: every statistic equals the recount from \
           the reported findings and the registry, and each sample's findings do not depend on the samples before it; command line: fail_on {default, none, three levels} x highest finding {none, three levels} x \
           stream and report mode x statistics off x json/jsonl/yaml x json and text input: exit code and report. Oracle: recount. Non-trivial: some finding.",
    assumptions: &[],
    run: stats,
};

fn registry() -> Registry {
    Registry {
        attrs: vec![
            attr("a.one", json!("string")),
            attr("a.two", json!("int")),
            Attr { stability: Some("development"), ..attr("a.dev", json!("string")) },
            Attr { deprecated: Some(json!({"reason": "obsoleted", "note": "n"})), ..attr("b.old", json!("string")) },
            attr("a.enum", json!({"members": [{"id": "m", "value": "x", "brief": "b", "stability": "stable"}]})),
            attr("t.x", json!("template[string]")),
            Attr { deprecated: Some(json!({"reason": "obsoleted", "note": "n"})), ..attr("t.old", json!("template[string]")) },
        ],
        signals: vec![
            Signal { kind: "metric", name: "m.x".into(), stability: Some("stable"), instrument: "counter", unit: "1", attrs: vec![("a.one".into(), json!("required")), ("a.two".into(), json!("opt_in"))], assoc: vec![json!("ent")], ..Default::default() },
            Signal { kind: "metric", name: "m.old".into(), stability: Some("development"), deprecated: Some(json!({"reason": "renamed", "renamed_to": "m.x"})), instrument: "gauge", unit: "By", ..Default::default() },
            Signal { kind: "event", name: "e.x".into(), stability: Some("alpha"), attrs: vec![("a.one".into(), json!("required")), ("a.two".into(), json!(null))], ..Default::default() },
            Signal { kind: "event", name: "e.old".into(), stability: Some("stable"), deprecated: Some(json!({"reason": "obsoleted", "note": "n"})), ..Default::default() },
        ],
        entities: vec![Entity { ty: "ent".into(), identity: vec![("a.dev".into(), json!("required"))], description: vec![] }],
        ..Default::default()
    }
}

fn in_modes(chk: &Check, reg: &Registry) -> Vec<(bool, Arc<weaver_live_check::VersionedRegistry>)> {
    MODES.iter().map(|(v2, dep)| (*v2, Registry { dep: *dep, ..reg.clone() }.resolve(&chk.fresh(&format!("r{v2}{dep:?}")), *v2).expect("registry"))).collect()
}

fn batch() -> Vec<Value> {
    let l = json!([
        {"name": "a.one", "value": "v"}, {"name": "a.two", "value": "v"}, {"name": "a.dev", "value": "v"}, {"name": "b.old", "value": 1}, {"name": "a.enum", "value": "y"}, {"name": "t.x.k", "value": "v"},
        {"name": "t.old.k", "value": "v"}, {"name": "none.such", "value": "v"}, {"name": "bad__name"}
    ]);
    let ex = json!([{"filtered_attributes": l, "value": 1, "timestamp": "t", "span_id": "s", "trace_id": "t"}]);
    vec![
        json!({"attribute": {"name": "none.such", "value": "v"}}),
        json!({"attribute": {"name": "t.x.k", "value": "v"}}),
        json!({"attribute": {"name": "a.one", "value": "v"}}),
        json!({"metric": {"name": "m.x", "instrument": "counter", "unit": "1", "data_points": [{"attributes": [{"name": "a.one", "value": "v"}, {"name": "a.two", "value": 1}], "value": 1}]}}),
        json!({"metric": {"name": "m.x", "instrument": "gauge", "unit": "By", "data_points": [{"attributes": l, "value": 1, "exemplars": ex}, {"attributes": [], "value": 2}]}}),
        json!({"metric": {"name": "m.old", "instrument": "gauge", "unit": "By", "data_points": [{"attributes": [], "count": 2}]}}),
        json!({"metric": {"name": "m.none", "instrument": "summary", "unit": ""}}),
        json!({"span": {"name": "e.x", "kind": "server", "attributes": l, "span_events": [{"name": "a.one", "attributes": l}], "span_links": [{"attributes": l}]}}),
        json!({"log": {"event_name": "e.x", "attributes": l}}),
        json!({"log": {"event_name": "e.old", "attributes": []}}),
        json!({"log": {"event_name": "e.none", "attributes": []}}),
        json!({"log": {"event_name": "", "attributes": [{"name": "t.x.j"}]}}),
        json!({"resource": {"attributes": l}}),
        json!({"instrumentation_scope": {"name": "m.x", "attributes": l}}),
        json!({"profile": {"original_payload_format": "pprof", "attributes": l}}),
    ]
}

fn glob(p: &str, s: &str) -> bool {
    if let (Some(i), Some(j)) = (p.find('{'), p.find('}')) {
        return p[i + 1..j].split(',').any(|a| glob(&format!("{}{a}{}", &p[..i], &p[j + 1..]), s));
    }
    let mut pc = p.chars();
    match pc.next() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).filter(|i| s.is_char_boundary(*i)).any(|i| glob(pc.as_str(), &s[i..])),
        Some(c) => {
            let mut sc = s.chars();
            sc.next().is_some_and(|d| (c == '?' || c == d) && glob(pc.as_str(), sc.as_str()))
        }
    }
}

fn level(l: FindingLevel) -> usize {
    match l {
        FindingLevel::Information => 1,
        FindingLevel::Improvement => 2,
        FindingLevel::Violation => 3,
    }
}
fn level_name(l: FindingLevel) -> &'static str {
    ["information", "improvement", "violation"][level(l) - 1]
}

fn in_scope(st: &Option<String>, names: &[String], f: &Value, sample: Option<&str>) -> bool {
    st.as_ref().is_none_or(|s| f["signal_type"].as_str() == Some(s)) && (names.is_empty() || sample.is_some_and(|n| names.iter().any(|p| glob(p, n))))
}

fn apply(filters: &[FindingFilter], overrides: &[FindingLevelOverride], f: &Value, sample: Option<&str>) -> Option<Value> {
    let mut f = f.clone();
    if let Some(o) = overrides.iter().find(|o| in_scope(&o.signal_type, &o.sample_names, &f, sample) && o.ids.as_ref().is_none_or(|l| l.iter().any(|i| f["id"] == json!(i)))) {
        f["level"] = json!(level_name(o.level));
    }
    let dropped = filters.iter().any(|x| {
        in_scope(&x.signal_type, &x.sample_names, &f, sample)
            && (x.exclude.as_ref().is_some_and(|l| l.iter().any(|i| f["id"] == json!(i)))
                || x.min_level.is_some_and(|m| rank(&f["level"]) < level(m))
                || sample.is_some_and(|n| x.exclude_samples.iter().any(|p| glob(p, n))))
    });
    (!dropped).then_some(f)
}

const LEVELS: [FindingLevel; 3] = [FindingLevel::Information, FindingLevel::Improvement, FindingLevel::Violation];

fn strs(l: &[&str]) -> Vec<String> {
    l.iter().map(|s| (*s).to_owned()).collect()
}

type Rules = (Vec<FindingFilter>, Vec<FindingLevelOverride>);

fn all_filters() -> Vec<FindingFilter> {
    let ex = [None, Some(strs(&["missing_attribute"])), Some(strs(&["seen", "template_attribute", "required_attribute_not_present"]))];
    let ml = [None, Some(LEVELS[0]), Some(LEVELS[1]), Some(LEVELS[2])];
    let st = [None, Some("metric"), Some("span"), Some("log"), Some("profile")];
    let es = [strs(&[]), strs(&["a.*"]), strs(&["m.x"]), strs(&["?.x", "none*"]), strs(&["*"])];
    let sn = [strs(&[]), strs(&["a.*"]), strs(&["m.x"]), strs(&["e.?*", "t.x"]), strs(&["{m,e}.x"]), strs(&["*"]), strs(&["A.*"])];
    product(&[3, 4, 5, 5, 7])
        .map(|x| FindingFilter { exclude: ex[x[0]].clone(), min_level: ml[x[1]], signal_type: st[x[2]].map(str::to_owned), exclude_samples: es[x[3]].clone(), sample_names: sn[x[4]].clone() })
        .collect()
}
fn all_overrides() -> Vec<FindingLevelOverride> {
    let ids = [None, Some(strs(&["missing_attribute"])), Some(strs(&["seen", "not_stable", "template_attribute"]))];
    let st = [None, Some("metric"), Some("span"), Some("log"), Some("profile")];
    let sn = [strs(&[]), strs(&["a.*"]), strs(&["m.x"]), strs(&["e.?*", "t.x*"]), strs(&["{m,e}.x"]), strs(&["*"]), strs(&["A.*"])];
    product(&[3, 3, 5, 7]).map(|x| FindingLevelOverride { ids: ids[x[0]].clone(), level: LEVELS[x[1]], signal_type: st[x[2]].map(str::to_owned), sample_names: sn[x[3]].clone() }).collect()
}

fn toml(r: &Rules) -> String {
    let list = |k: &str, l: &[String]| if l.is_empty() { String::new() } else { format!("{k} = {}\n", json!(l)) };
    let opt = |k: &str, v: Option<String>| v.map(|v| format!("{k} = {}\n", json!(v))).unwrap_or_default();
    let mut s = String::new();
    for f in &r.0 {
        s += "[[\"live-check\".finding_filters]]\n";
        s += &list("exclude", f.exclude.as_deref().unwrap_or(&[]));
        s += &opt("min_level", f.min_level.map(|l| level_name(l).to_owned()));
        s += &opt("signal_type", f.signal_type.clone());
        s += &list("exclude_samples", &f.exclude_samples);
        s += &list("sample_names", &f.sample_names);
    }
    for o in &r.1 {
        s += "[[\"live-check\".finding_level_overrides]]\n";
        s += &list("ids", o.ids.as_deref().unwrap_or(&[]));
        s += &opt("level", Some(level_name(o.level).to_owned()));
        s += &opt("signal_type", o.signal_type.clone());
        s += &list("sample_names", &o.sample_names);
    }
    s
}

fn describe(r: &Rules) -> Value {
    json!(toml(r))
}

fn check_rules(chk: &Arc<Check>, name: &str, reg: &Registry, loaded: &Arc<weaver_live_check::VersionedRegistry>, v2: bool, policy: Policy, r: &Rules, samples: &[Value]) {
    let m = match FindingModifier::from_rules(&r.0, &r.1) {
        Ok(m) => m,
        Err(e) => {
            chk.violation(name, name, describe(r), "valid rules", &e.to_string());
            return;
        }
    };
    let modify = |f: &Value, s: Option<&str>| apply(&r.0, &r.1, f, s);
    let o = Oracle { reg, v2, policy, modify: Some(&modify) };
    let mut c = checker(loaded, policy, &chk.scratch(), m);
    if let Some((stats, t)) = compare(chk, name, &describe(r), &o, &mut c, samples) {
        let (w, g) = differences(&expect_stats(reg, &t), &stats);
        let _ = chk.expect_eq(name, || json!({"rules": describe(r), "samples": samples}), &w, &g);
    }
}

fn spread<T: Clone>(l: &[T], n: usize) -> Vec<T> {
    (0..n).map(|i| l[i * l.len() / n].clone()).collect()
}

fn modifier(chk: &Arc<Check>) {
    let reg = registry();
    let loaded = in_modes(chk, &reg);
    let (filters, overrides) = (all_filters(), all_overrides());
    let k = if chk.thorough() { 90 } else { 40 };
    let mut rules: Vec<Rules> = vec![];
    rules.extend(filters.iter().map(|f| (vec![f.clone()], vec![])));
    rules.extend(overrides.iter().map(|o| (vec![], vec![o.clone()])));
    let few: Vec<FindingLevelOverride> = spread(&overrides, 24);
    let step = if chk.thorough() { 1 } else { 5 };
    for o in &few {
        rules.extend(filters.iter().step_by(step).map(|f| (vec![f.clone()], vec![o.clone()])));
    }
    let (fs, os) = (spread(&filters, k), spread(&overrides, k));
    for a in &fs {
        rules.extend(fs.iter().map(|b| (vec![a.clone(), b.clone()], vec![])));
    }
    for a in &os {
        for b in &os {
            rules.push((vec![], vec![a.clone(), b.clone()]));
            rules.push((vec![FindingFilter { min_level: Some(LEVELS[2]), ..fs[0].clone() }], vec![a.clone(), b.clone()]));
        }
    }
    chk.note("rule_sets", json!(rules.len()));
    let mut samples = batch();
    samples.extend(batch().into_iter().rev());
    let (reg, loaded, samples) = (&reg, &loaded, &samples);
    chk.par(rules.iter().enumerate(), |(i, _)| format!("rules-{i}"), |chk, name, (i, r)| {
        chk.eval(&toml(r), true);
        let (v2, loaded) = &loaded[i % 5];
        check_rules(chk, name, reg, loaded, *v2, Policy::None, r, samples);
    });
    // policy findings
    let with_policy: Vec<Rules> = spread(&rules, if chk.thorough() { 600 } else { 150 });
    chk.par(with_policy.into_iter().enumerate(), |(i, _)| format!("policy-{i}"), |chk, name, (i, r)| {
        chk.eval(&(true, toml(&r)), true);
        let (v2, loaded) = &loaded[i % 5];
        check_rules(chk, name, reg, loaded, *v2, if i % 2 == 0 { Policy::Default } else { Policy::Seen }, &r, &samples[..15]);
    });
    // configuration file
    let cli: Vec<Rules> = spread(&rules, if chk.thorough() { 240 } else { 60 });
    chk.par(cli.into_iter().enumerate(), |(i, _)| format!("file-{i}"), |chk, name, (i, r)| {
        let v2 = i % 2 == 1;
        let modify = |f: &Value, s: Option<&str>| apply(&r.0, &r.1, f, s);
        let o = Oracle { reg, v2, policy: Policy::Default, modify: Some(&modify) };
        chk.eval(&("file", toml(&r)), true);
        let _ = command(chk, name, &o, &samples[..15], &toml(&r), &["--format", "json", "--no-stream"], None);
    });
}

/// Tags become a map of one entry.
fn untag(v: serde_yaml::Value) -> Value {
    match v {
        serde_yaml::Value::Tagged(t) => json!({(t.tag.to_string().trim_start_matches('!')): untag(t.value)}),
        serde_yaml::Value::Sequence(l) => l.into_iter().map(untag).collect(),
        serde_yaml::Value::Mapping(m) => m.into_iter().map(|(k, v)| (k.as_str().unwrap_or("?").to_owned(), untag(v))).collect::<serde_json::Map<_, _>>().into(),
        v => serde_json::to_value(v).unwrap_or(json!("?")),
    }
}
fn yaml(s: &str) -> Value {
    serde_yaml::from_str(s).map(untag).unwrap_or(json!("not yaml"))
}

/// Runs the command and compares report and exit code.
fn command(chk: &Arc<Check>, name: &str, o: &Oracle<'_>, samples: &[Value], config: &str, more: &[&str], text: Option<&str>) -> Option<()> {
    let d = chk.fresh("cli");
    write_registry(&d, o.reg, o.v2);
    harness::reg::write_files(&d, &vec![(".weaver.toml".into(), config.to_owned()), ("in.json".into(), json!(samples).to_string()), ("in.txt".into(), text.unwrap_or("").to_owned())]);
    let mut args = vec!["registry", "live-check", "-r", "reg", "--input-source", if text.is_some() { "in.txt" } else { "in.json" }, "--input-format", if text.is_some() { "text" } else { "json" }];
    if o.v2 {
        args.push("--v2");
    }
    args.extend(more);
    let (code, out, err) = weaver(&args, &d);
    chk.add_traces(1);
    let input = || json!({"args": args, "config": config, "samples": samples, "text": text, "stderr": err.chars().take(600).collect::<String>()});
    let mut t = Totals::default();
    let mut want = vec![];
    let mut resource: Option<&Value> = None;
    for s in samples {
        if let Some(r) = s.get("resource") {
            resource = Some(r);
        }
        want.push(o.expect(s, resource, None, &mut t));
    }
    let at = |k: &str| args.iter().position(|a| *a == k).map(|i| args[i + 1]);
    let fail = match at("--fail-on") {
        None => 3,
        Some("none") => 9,
        Some(l) => rank(&json!(l)),
    };
    let no_stats = args.contains(&"--no-stats");
    let highest = t.highest.keys().map(|k| rank(&json!(k))).max().unwrap_or(0);
    let want_code = i32::from(highest >= fail && !no_stats);
    chk.outcome(if want_code == 0 { "exit 0" } else { "exit 1" });
    let _ = chk.expect_eq(name, input, &format!("exit {want_code}"), &format!("exit {code}"));
    // the documents printed
    let docs: Vec<Value> = match at("--format") {
        // streamed documents follow one another after an empty line
        Some("yaml") if args.contains(&"--no-stream") => vec![yaml(&out)],
        Some("yaml") => out.split("\n\n").filter(|d| !d.trim().is_empty()).map(yaml).collect(),
        _ => {
            let mut l = vec![];
            for v in serde_json::Deserializer::from_str(&out).into_iter() {
                let bad = v.is_err();
                l.push(v.unwrap_or(json!("not json")));
                if bad {
                    break;
                }
            }
            l
        }
    };
    let (got, stats): (Vec<Value>, Option<Value>) = if docs.len() == 1 && docs[0].get("samples").is_some() {
        (docs[0]["samples"].as_array().cloned().unwrap_or_default(), Some(docs[0]["statistics"].clone()))
    } else {
        let s = docs.last().filter(|d| d.get("total_entities").is_some()).cloned();
        let n = docs.len() - usize::from(s.is_some() || (no_stats && docs.last().is_some_and(Value::is_null)));
        (docs[..n].to_vec(), s)
    };
    let got: Vec<_> = got.iter().map(results).collect();
    if want != got {
        let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        let _ = chk.expect_eq(name, input, &format!("{} samples; sample {i}: {:?}", want.len(), want.get(i)), &format!("{} samples; sample {i}: {:?}", got.len(), got.get(i)));
        return None;
    }
    if !no_stats {
        let mut w = expect_stats(o.reg, &t);
        let mut g = stats.unwrap_or(json!({}));
        // messages are recounted in process
        for x in [&mut w, &mut g] {
            if let Some(m) = x.as_object_mut() {
                let _ = m.remove("advice_message_counts");
                // printed with the precision of a single float
                let c = m["registry_coverage"].as_f64().unwrap_or(-1.0) as f32;
                m["registry_coverage"] = json!(format!("{c}"));
            }
        }
        let (w, g) = differences(&w, &g);
        let _ = chk.expect_eq(name, input, &w, &g);
    }
    Some(())
}

fn write_registry(d: &Path, reg: &Registry, v2: bool) {
    harness::reg::write_files(&d.join("reg"), &reg.files(v2));
}

fn stats(chk: &Arc<Check>) {
    let reg = registry();
    let b = batch();
    let rules: Vec<Rules> = {
        let (f, o) = (all_filters(), all_overrides());
        let none = &f[0];
        vec![
            (vec![], vec![]),
            (vec![FindingFilter { exclude: Some(strs(&["template_attribute"])), ..none.clone() }], vec![]),
            (vec![FindingFilter { min_level: Some(LEVELS[2]), ..none.clone() }], vec![]),
            (vec![FindingFilter { exclude_samples: strs(&["*"]), ..none.clone() }], vec![]),
            (vec![], vec![FindingLevelOverride { ids: None, level: LEVELS[0], ..o[0].clone() }]),
            (vec![FindingFilter { exclude: Some(strs(&["missing_attribute", "deprecated"])), ..none.clone() }], vec![FindingLevelOverride { ids: Some(strs(&["template_attribute"])), level: LEVELS[2], ..o[0].clone() }]),
        ]
    };
    // a registry with nothing to cover, and one without definitions of one kind
    let depth = if chk.thorough() { 5 } else { 4 };
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut layer = seqs.clone();
    for _ in 0..depth {
        layer = layer.iter().flat_map(|s| (0..b.len()).map(move |i| s.iter().copied().chain([i]).collect())).collect();
        seqs.extend(layer.iter().cloned());
    }
    let loaded = in_modes(chk, &reg);
    let (reg, loaded, b, rules) = (&reg, &loaded, &b, &rules);
    chk.par(seqs.into_iter(), |s| format!("seq-{s:?}"), |chk, name, s| {
        let samples: Vec<Value> = s.iter().map(|i| b[*i].clone()).collect();
        chk.eval(&s, !s.is_empty());
        for (i, r) in rules.iter().enumerate() {
            // longer sequences: one rule set each
            if s.len() > 2 && i != (s.iter().sum::<usize>() % rules.len()) {
                continue;
            }
            let m = (s.iter().sum::<usize>() + i) % 5;
            for (k, (v2, loaded)) in loaded.iter().enumerate() {
                if s.len() < 3 || k == m {
                    check_rules(chk, name, reg, loaded, *v2, Policy::None, r, &samples);
                }
            }
        }
    });
    // command line
    let by_level: [Vec<Value>; 4] = [
        vec![json!({"attribute": {"name": "a.one", "value": "v"}}), json!({"resource": {"attributes": [{"name": "a.two", "value": 1}]}})],
        vec![json!({"attribute": {"name": "t.x.k", "value": "v"}}), json!({"attribute": {"name": "a.one"}})],
        vec![json!({"attribute": {"name": "a.dev", "value": "v"}}), json!({"attribute": {"name": "t.x.k", "value": "v"}})],
        b.clone(),
    ];
    let text = "a.one=v\n\n  a.two = 5 \na.two=\"5\"\na.enum=y\nt.x.k=[\"a\"]\nnone.such\nb.old=a=b\na.dev\n  \nbad__name=1";
    let text_samples = vec![
        json!({"attribute": {"name": "a.one", "value": "v"}}),
        json!({"attribute": {"name": "a.two", "value": 5}}),
        json!({"attribute": {"name": "a.two", "value": "5"}}),
        json!({"attribute": {"name": "a.enum", "value": "y"}}),
        json!({"attribute": {"name": "t.x.k", "value": ["a"]}}),
        json!({"attribute": {"name": "none.such"}}),
        json!({"attribute": {"name": "b.old", "value": "a=b"}}),
        json!({"attribute": {"name": "a.dev"}}),
        json!({"attribute": {"name": "bad__name", "value": 1}}),
    ];
    let (by_level, text_samples) = (&by_level, &text_samples);
    let mut items: Vec<(bool, usize, usize, usize, usize)> = vec![];
    for x in product(&[2, 5, 5, 3, 3]) {
        if x[4] < 2 || chk.thorough() {
            items.push((x[0] == 1, x[1], x[2], x[3], x[4]));
        }
    }
    chk.par(items.into_iter(), |(v2, l, f, fmt, m)| format!("cli-{v2}-{l}-{f}-{fmt}-{m}"), |chk, name, (v2, l, f, fmt, mode)| {
        chk.eval(name, l > 0);
        let o = Oracle { reg, v2, policy: Policy::Default, modify: None };
        let mut more: Vec<&str> = vec![];
        if f > 0 {
            more.extend(["--fail-on", ["none", "information", "improvement", "violation"][f - 1]]);
        }
        more.extend(["--format", ["json", "jsonl", "yaml"][fmt]]);
        match mode {
            0 => more.push("--no-stream"),
            1 => {}
            _ => more.extend(["--no-stream", "--no-stats"]),
        }
        if l == 4 {
            let _ = command(chk, name, &o, text_samples, "", &more, Some(text));
        } else {
            let _ = command(chk, name, &o, &by_level[l], "", &more, None);
        }
    });
}
