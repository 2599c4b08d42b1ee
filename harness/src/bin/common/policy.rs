//! C12: every policy that applies is evaluated on what its stage is about, and its findings decide the exit code.
use harness::reg::{weaver, write_files};
use harness::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::Arc;
use weaver_checker::{Engine, PolicyStage};

pub const SPEC: Spec = Spec {
    id: "C12",
    level: "model_checking",
    rule: "Exhaustive: policies from a pool of stage (before_resolution, after_resolution, comparison_after_resolution, a package of its own) x place (registry folder: top, nested, hidden file, hidden folder, other extension; -p: file, file of another extension, folder, nested, hidden file in a folder, hidden folder) with levels in turn: (O) every single one x v1/v2 x baseline (none, same, other) x command (check, resolve, generate, package) x skipping; (T) every pair (thorough: also in v2 and every triple of the stages' places) with a baseline; (X) defective policies (syntax, no deny, undefined deny, malformed finding, failing rule) x stage x place, alone and beside a good one; (G) every pair of policies whose findings do not say what they are about; \
           (F) every finding over every subset and spelling of its 13 keys. Oracle: the findings of a policy are the items its rule denies in the input of its stage (each file before, the registry after resolution, the registry against the baseline), each reported once with its level and context; the command fails iff there is a finding or a defective policy. Non-trivial: a finding is expected.",
    assumptions: &["findings of one evaluation are not reported when the evaluation fails: the failure is"],
    run,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Stage {
    Before,
    After,
    Comparison,
    Own,
}
use Stage::*;
const STAGES: [Stage; 4] = [Before, After, Comparison, Own];

/// Where a policy file is, whether it is a policy, and what is added to the command line.
const PLACES: &[(&str, bool, &str)] = &[
    ("reg/{}.rego", true, ""),
    ("reg/sub/deep/{}.rego", true, ""),
    ("reg/.{}.rego", false, ""),
    ("reg/.hid/{}.rego", false, ""),
    ("reg/{}.rego.txt", false, ""),
    ("pol/{}.rego", true, "pol/{}.rego"),
    ("pol/{}.txt", true, "pol/{}.txt"),
    ("dir/{}.rego", true, "dir"),
    ("dir/a/b/{}.rego", true, "dir"),
    ("dir/.{}.rego", false, "dir"),
    (".hd/{}.rego", true, ".hd"),
];
const LEVELS: [&str; 3] = ["violation", "improvement", "information"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Defect {
    Good,
    /// The same finding whatever it is about.
    General,
    Syntax,
    NoDeny,
    Undefined,
    Malformed,
    Fails,
}
use Defect::*;

#[derive(Clone, Copy)]
struct Policy {
    stage: Stage,
    place: usize,
    level: usize,
    defect: Defect,
}

impl Policy {
    fn name(&self) -> String {
        format!("p{:?}{}", self.stage, self.place).to_lowercase()
    }
    fn path(&self) -> String {
        PLACES[self.place].0.replace("{}", &self.name())
    }
    fn text(&self, v2: bool) -> String {
        let package = match self.stage {
            Before => "before_resolution".to_owned(),
            After => "after_resolution".into(),
            Comparison => "comparison_after_resolution".into(),
            Own => self.name(),
        };
        let ids = |root: &str| {
            if v2 && self.stage != Before {
                format!("{{x.key | some x in {root}.registry.attributes}}")
            } else {
                format!("{{x.id | some x in {root}.groups}}")
            }
        };
        let over = if self.stage == Comparison { format!("{} - {}", ids("data"), ids("input")) } else { ids("input") };
        let fields = |message: &str| {
            format!("{{\"id\": \"{}\", {message}\"level\": \"{}\", \"context\": {{\"subject\": g, \"n\": [1, {{}}]}}, \"signal_type\": null, \"signal_name\": \"{}\"}}", self.name(), LEVELS[self.level], self.place)
        };
        let rule = match self.defect {
            Good => format!("deny contains {} if {{ some g in {over} }}", fields("\"message\": sprintf(\"about %s\", [g]), ")),
            General => format!("deny contains {{\"id\": \"general\", \"message\": \"about the input\", \"level\": \"{}\", \"context\": null}} if {{ some g in {over} }}", LEVELS[self.level]),
            Syntax => "deny contains {".to_owned(),
            NoDeny => format!("helper_{} := 1", self.name()),
            Undefined => format!("deny contains {} if {{ some g in input.no_such }}", fields("\"message\": \"m\", ")),
            Malformed => format!("deny contains {} if {{ some g in {over} }}", fields("")),
            Fails => format!("deny contains {} if {{ some g in {over}; to_number(g) > 0 }}", fields("\"message\": \"m\", ")),
        };
        format!("package {package}\n\nimport rego.v1\n\n{rule}\n")
    }
}

fn group(ids: &[&str]) -> String {
    let g: String = ids.iter().map(|i| format!("  - {{id: registry.{i}, type: attribute_group, brief: b, stability: stable, attributes: [{{id: {i}.x, type: string, brief: b, stability: stable, examples: [e]}}]}}\n")).collect();
    format!("groups:\n{g}")
}
const FILES: &[(&str, &[&str])] = &[("a.yaml", &["a", "b"]), ("sub/c.yaml", &["c"])];
const BASE: &[&str] = &["a", "gone", "left"];
const MANIFEST: &str = "schema_url: https://example.com/NAME/1.0.0\ndescription: d\nstability: stable\n";

#[derive(Clone, Copy, PartialEq)]
enum Baseline {
    No,
    Same,
    Other,
}

struct Run<'a> {
    policies: &'a [Policy],
    v2: bool,
    baseline: Baseline,
    command: &'a str,
    skip: bool,
}

fn id(v2: bool, stage: Stage, g: &str) -> String {
    if v2 && stage != Before {
        format!("{g}.x")
    } else {
        format!("registry.{g}")
    }
}

/// The findings and failures: (where, what).
fn expected(r: &Run<'_>) -> (bool, BTreeSet<String>) {
    let mut out = BTreeSet::new();
    if r.skip {
        return (true, out);
    }
    let loaded: Vec<&Policy> = r.policies.iter().filter(|p| PLACES[p.place].1).collect();
    if loaded.iter().any(|p| p.defect == Syntax) {
        return (false, BTreeSet::from(["broken".to_owned()]));
    }
    let has = |s: Stage| loaded.iter().any(|p| p.stage == s);
    // an evaluation: the stage, what it is about, the items
    let mut evals: Vec<(Stage, &str, Vec<&str>)> = vec![];
    if has(Before) {
        if r.v2 {
            let _ = out.insert("unsupported".to_owned());
        } else {
            evals.extend(FILES.iter().map(|(f, g)| (Before, *f, g.to_vec())));
        }
    }
    if has(After) {
        evals.push((After, "reg", vec!["a", "b", "c"]));
    }
    if has(Comparison) && r.command == "check" && r.baseline != Baseline::No {
        evals.push((Comparison, "reg", if r.baseline == Baseline::Same { vec![] } else { vec!["gone", "left"] }));
    }
    for (stage, about, items) in evals {
        let of: Vec<&&Policy> = loaded.iter().filter(|p| p.stage == stage).collect();
        // a package whose rule does not exist cannot be evaluated; a finding without a message is none
        let fails = of.iter().all(|p| p.defect == NoDeny) || (!items.is_empty() && of.iter().any(|p| matches!(p.defect, Malformed | Fails)));
        if fails {
            let _ = out.insert(format!("{about}: fails"));
            continue;
        }
        let mut general = BTreeSet::new();
        for p in of {
            if p.defect == General && !items.is_empty() {
                let _ = general.insert(format!("{about}: general {} about the input null", LEVELS[p.level]));
            }
            if p.defect == Good {
                for g in &items {
                    let i = id(r.v2, stage, g);
                    let _ = out.insert(format!("{about}: {} {} about {i} {}", p.name(), LEVELS[p.level], json!({"n": [1, {}], "subject": i})));
                }
            }
        }
        // two evaluations report the same twice
        for mut t in general {
            while !out.insert(t.clone()) {
                t += " again";
            }
        }
    }
    let ok = out.iter().all(|x| x == "unsupported");
    (ok, out)
}

fn setup(d: &Path, r: &Run<'_>) -> Vec<String> {
    for n in ["reg", "pol", "dir", ".hd"] {
        let _ = std::fs::remove_dir_all(d.join(n));
    }
    let mut files: Vec<(String, String)> = FILES.iter().map(|(f, g)| (format!("reg/{f}"), group(g))).collect();
    files.push(("reg/manifest.yaml".into(), MANIFEST.replace("NAME", "reg")));
    files.push(("base/manifest.yaml".into(), MANIFEST.replace("NAME", "base")));
    files.push(("base/a.yaml".into(), group(if r.baseline == Baseline::Same { &["c", "a", "b"] } else { BASE })));
    files.push(("templates/registry/x/weaver.yaml".into(), "templates: [{template: o.j2, filter: '1', application_mode: single}]".into()));
    files.push(("templates/registry/x/o.j2".into(), "done".into()));
    files.extend(r.policies.iter().map(|p| (p.path(), p.text(r.v2))));
    write_files(d, &files);
    let mut a: Vec<String> = ["registry", r.command].map(str::to_owned).to_vec();
    match r.command {
        "generate" => a.push("x".into()),
        "package" => a.extend(["--resolved-registry-uri", "u"].map(str::to_owned)),
        _ => {}
    }
    a.extend(["-r", "reg", "--diagnostic-format", "json", "--diagnostic-stdout"].map(str::to_owned));
    let mut dirs = BTreeSet::new();
    for p in r.policies {
        let f = PLACES[p.place].2.replace("{}", &p.name());
        if !f.is_empty() && dirs.insert(f.clone()) {
            a.extend(["-p".into(), f]);
        }
    }
    if r.baseline != Baseline::No && r.command == "check" {
        a.extend(["--baseline-registry", "base"].map(str::to_owned));
    }
    if r.v2 {
        a.push("--v2".into());
    }
    if r.skip {
        a.push("--skip-policies".into());
    }
    a
}

fn observed(out: &str) -> BTreeSet<String> {
    let mut set = BTreeSet::new();
    // the report is a JSON list among whatever else the command prints
    let list = out.lines().enumerate().filter(|(_, l)| l.starts_with('[')).find_map(|(i, _)| {
        let rest: String = out.lines().skip(i).map(|l| format!("{l}\n")).collect();
        serde_json::Deserializer::from_str(&rest).into_iter::<Value>().next().and_then(Result::ok).filter(|v| v[0]["diagnostic"].is_object())
    });
    let Some(list) = list else { return set };
    for m in list.as_array().into_iter().flatten() {
        let e = &m["error"];
        let e = if e["Checker"].is_object() { &e["Checker"] } else { e };
        let about = |v: &Value| {
            let v = v.as_str().unwrap_or_default();
            FILES.iter().map(|(f, _)| *f).find(|f| v.ends_with(f)).unwrap_or(if v.ends_with("reg") { "reg" } else { v }).to_owned()
        };
        let text = match e["type"].as_str() {
            Some("policy_violation") => {
                let v = &e["violation"];
                format!("{}: {} {} {} {}", about(&e["provenance"]), v["id"].as_str().unwrap_or_default(), v["level"].as_str().unwrap_or_default(), v["message"].as_str().unwrap_or_default(), v["context"])
            }
            Some("invalid_policy_file") if e["file"].as_str().is_some_and(|f| f.ends_with(".rego") || f.ends_with(".txt")) => "broken".into(),
            Some("invalid_policy_file") => format!("{}: fails", about(&e["file"])),
            _ if e == "BeforeResolutionUnsupported" => "unsupported".into(),
            _ if e.to_string().contains("invalid_policy_file") => "broken".into(),
            _ => m.to_string(),
        };
        // the same twice is not the same as once
        let mut t = text.clone();
        while !set.insert(t.clone()) {
            t += " again";
        }
    }
    set
}

fn check(chk: &Check, name: &str, r: &Run<'_>) {
    let d = chk.scratch();
    let args = setup(&d, r);
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let (ok, want) = expected(r);
    let (code, out, err) = weaver(&a, &d);
    let got = observed(&out);
    chk.add_transitions(1);
    chk.eval(&args.iter().chain(&r.policies.iter().map(|p| p.text(r.v2)).collect::<Vec<_>>()).collect::<Vec<_>>(), !want.is_empty());
    chk.outcome(if code == 0 { "passed" } else if want.is_empty() { "failed" } else { "findings" });
    let _ = chk.expect_eq(
        name,
        || json!({"args": args.join(" "), "policies": r.policies.iter().map(|p| (p.path(), p.text(r.v2))).collect::<Vec<_>>(), "stderr": err.chars().take(2000).collect::<String>()}),
        &format!("exit {}\n{}", i32::from(!ok), want.into_iter().collect::<Vec<_>>().join("\n")),
        &format!("exit {code}\n{}", got.into_iter().collect::<Vec<_>>().join("\n")),
    );
}

fn pool() -> Vec<Policy> {
    let mut v = vec![];
    for stage in STAGES {
        for place in 0..PLACES.len() {
            v.push(Policy { stage, place, level: (place + v.len()) % 3, defect: Good });
        }
    }
    v
}

fn run(chk: &Arc<Check>) {
    let pool = Arc::new(pool());
    let n = pool.len();
    let p = pool.clone();
    chk.par(product(&[n, 2, 3, 4, 2]).filter(|x| x[2] == 0 || x[3] == 0).filter(|x| x[3] != 3 || x[1] == 1), |x| format!("O-{}", x.iter().map(usize::to_string).collect::<Vec<_>>().join("-")), |chk, name, x| {
        check(chk, name, &Run { policies: &[p[x[0]]], v2: x[1] == 1, baseline: [Baseline::No, Baseline::Same, Baseline::Other][x[2]], command: ["check", "resolve", "generate", "package"][x[3]], skip: x[4] == 1 });
    });
    let p = pool.clone();
    let thorough = chk.thorough();
    chk.par(product(&[n, n, 2]).filter(|x| x[0] < x[1] && (thorough || x[2] == 0)), |x| format!("T-{}-{}-{}", x[0], x[1], x[2]), |chk, name, x| {
        check(chk, name, &Run { policies: &[p[x[0]], p[x[1]]], v2: x[2] == 1, baseline: Baseline::Other, command: "check", skip: false });
    });
    if thorough {
        let p = pool.clone();
        chk.par(product(&[11, 11, 11]), |x| format!("TT-{}-{}-{}", x[0], x[1], x[2]), |chk, name, x| {
            check(chk, name, &Run { policies: &[p[x[0]], p[11 + x[1]], p[22 + x[2]]], v2: false, baseline: Baseline::Other, command: "check", skip: false });
        });
    }
    // defective policies: stage, place, defect, beside what
    chk.par(product(&[3, PLACES.len(), 5, 4, 2]), |x| format!("X-{}-{}-{}-{}-{}", x[0], x[1], x[2], x[3], x[4]), |chk, name, x| {
        let bad = Policy { stage: STAGES[x[0]], place: x[1], level: 0, defect: [Syntax, NoDeny, Undefined, Malformed, Fails][x[2]] };
        let mut policies = vec![bad];
        if x[3] > 0 {
            let good = Policy { stage: STAGES[x[3] - 1], place: 5, level: 1, defect: Good };
            if bad.place == 5 && bad.stage == good.stage {
                return;
            }
            policies.push(good);
        }
        if x[4] == 1 && !(thorough || x[3] == 0) {
            return;
        }
        check(chk, name, &Run { policies: &policies, v2: false, baseline: Baseline::Other, command: "check", skip: x[4] == 1 });
    });
    // findings that do not say what they are about: stage, place, level of two policies
    chk.par(product(&[3, 2, 3, 3, 2, 3, 2]), |x| format!("G-{}", x.iter().map(usize::to_string).collect::<Vec<_>>().join("-")), |chk, name, x| {
        let g = |stage: usize, place: usize, level: usize| Policy { stage: STAGES[stage], place, level, defect: General };
        let two = [g(x[0], [0, 5][x[1]], x[2]), g(x[3], [7, 8][x[4]], x[5])];
        check(chk, name, &Run { policies: &two, v2: x[6] == 1, baseline: Baseline::Other, command: "check", skip: false });
    });
    findings(chk);
}

/// What is read as a finding, and as which.
fn findings(chk: &Arc<Check>) {
    let mut engine = Engine::new();
    let _ = engine.add_policy("p.rego", "package after_resolution\n\nimport rego.v1\n\ndeny contains x if { some x in input }\n").expect("policy");
    let engine = Arc::new(std::sync::Mutex::new(engine));
    // type, id, category, group, attr, advice_type, level (its two names), message, context (its two names), signal type, signal name, another key
    chk.par(product(&[5, 2, 2, 2, 2, 2]), |x| format!("F-{}", x.iter().map(usize::to_string).collect::<String>()), |chk, name, x| {
        let mut engine = engine.lock().expect("engine").clone();
        for y in product(&[3, 4, 2, 3, 3, 3, 3]) {
            let opt = |b: bool, v: &str| if b { json!(v) } else { json!(null) };
            let mut o = serde_json::Map::new();
            let mut put = |k: &str, v: Value| drop(o.insert(k.into(), v));
            match x[0] {
                1 => put("type", json!("semconv_attribute")),
                2 => put("type", json!("advice")),
                3 => put("type", json!("other")),
                4 => put("type", json!("")),
                _ => {}
            }
            for (i, k) in ["id", "category", "group", "attr", "advice_type"].iter().enumerate() {
                if x[1 + i] == 1 {
                    put(k, json!(format!("the {k}")));
                }
            }
            let level_value = ["violation", "improvement", "information", "fatal"][y[1]];
            if y[0] > 0 {
                put(["", "level", "advice_level"][y[0]], json!(level_value));
            } else if y[1] > 0 {
                continue;
            }
            if y[2] == 1 {
                put("message", json!("the message"));
            }
            let ctx = [json!(null), json!({"a": [1, null]}), json!("text")][y[3]].clone();
            if y[4] > 0 {
                put(["", "context", "advice_context"][y[4]], ctx.clone());
            } else if y[3] > 0 {
                continue;
            }
            if y[5] > 0 {
                put("signal_type", opt(y[5] == 1, "span"));
            }
            if y[6] > 0 {
                put("signal_name", opt(y[6] == 1, "s"));
                put("something", json!("else"));
            }
            let has = |k: &str| o.contains_key(k);
            let level = (y[0] > 0 && y[1] < 3).then_some(level_value);
            let unified = |id: &str| json!({"id": id, "context": if y[4] > 0 { ctx.clone() } else { json!(null) }, "message": "the message", "level": level, "signal_type": opt(y[5] == 1, "span"), "signal_name": opt(y[6] == 1, "s")});
            let want = match x[0] {
                _ if y[0] > 0 && level.is_none() => None,
                0 if has("id") && has("message") && level.is_some() => Some(unified("the id")),
                1 if has("id") && has("category") && has("group") && has("attr") => Some(json!({
                    "id": "semconv_attribute", "context": {"id": "the id", "category": "the category", "group": "the group", "attr": "the attr"},
                    "message": "id=the id, category=the category, group=the group, attr=the attr", "level": "violation", "signal_type": null, "signal_name": null
                })),
                2 if has("advice_type") && has("message") && level.is_some() => Some(unified("the advice_type")),
                _ => None,
            };
            let finding = Value::Object(o.clone());
            engine.set_input(&[&finding]).expect("input");
            let got = engine.check(PolicyStage::AfterResolution).ok().map(|v| {
                v.into_iter().map(|f| json!({"id": f.id, "context": f.context, "message": f.message, "level": f.level, "signal_type": f.signal_type, "signal_name": f.signal_name})).collect::<Vec<_>>()
            });
            chk.eval(&finding.to_string(), want.is_some());
            chk.outcome(if want.is_some() { "read" } else { "refused" });
            if !chk.expect_eq(name, || finding.clone(), &json!(want.map(|w| vec![w])).to_string(), &json!(got).to_string()) {
                return;
            }
        }
    });
}
