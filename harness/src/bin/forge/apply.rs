//! C14: which files a template configuration produces, and from what.
use harness::reg::{weaver, write_files};
use harness::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;
use weaver_forge::config::{Params, WeaverConfig};
use weaver_forge::file_loader::FileSystemFileLoader;
use weaver_forge::{OutputProcessor, OutputTarget};

pub const SPEC: Spec = Spec {
    id: "C14",
    level: "model_checking",
    rule: "Exhaustive over template configurations of a package of 5 files: (A) one entry: 6 patterns x 2 modes x 17 filters x 9 `when` x 5 file names x 5 template bodies; (B) ordered pairs of 40 entries; (E) 3 auto escape modes x mode x filters x bodies; (L) entries through the command, over a registry. \
           Oracle: an entry applies to every file its pattern matches if `when` is true (not a boolean: an error); single renders the filter's output unless it is null or an empty array, each renders every item; the file is named by set_file_name, else file_name rendered with the item, else the template's own name; a failing entry or item is an error and removes no other file; exit code says whether all went well. The string form renders the same texts. Non-trivial: two files or an error.",
    assumptions: &["texts written to one path by two renderings: either one (the order is not specified)"],
    run,
};

/// The context and what each filter outputs.
fn data() -> Value {
    json!({"h": "<a b='c'>&\"/", "l": [{"k": 1, "n": "x"}, {"k": 2, "n": "y"}, {"k": 3, "n": "z/z"}], "m": [[], [1]], "n": null, "none": [], "o": {"k": 7, "n": "o"}, "s": "text", "same": [{"k": 5}, {"k": 5}]})
}

/// A filter with what it outputs: None is an error.
fn filters() -> Vec<(&'static str, Option<Vec<Value>>)> {
    let d = data();
    let l = |i: usize| d["l"][i].clone();
    vec![
        ("", Some(vec![d.clone()])),
        (".l", Some(vec![d["l"].clone()])),
        (".l[]", Some(vec![l(0), l(1), l(2)])),
        (".l[] | select(.k > 2)", Some(vec![l(2)])),
        (".l[] | select(.k > 3)", Some(vec![])),
        (".n", Some(vec![Value::Null])),
        (".none", Some(vec![json!([])])),
        (".o, .s", Some(vec![d["o"].clone(), d["s"].clone()])),
        (".same", Some(vec![d["same"].clone()])),
        (".m", Some(vec![d["m"].clone()])),
        ("$p, $params.p", Some(vec![json!(1), json!(1)])),
        (".l[] | .k.x", None),
        (".l[", None),
        ("{}", Some(vec![json!({})])),
        ("false", Some(vec![json!(false)])),
        ("\"\"", Some(vec![json!("")])),
        ("[null, [], {}]", Some(vec![json!([null, [], {}])])),
    ]
}

/// `when` with its value: None is an error.
const WHENS: [(&str, Option<bool>); 9] = [
    ("", Some(true)),
    ("true", Some(true)),
    ("false", Some(false)),
    ("$params.p == 1", Some(true)),
    ("any(.l[]; .k == 9)", Some(false)),
    (".n", None),
    ("empty", None),
    (".l[].k > 0", None),
    (".l[] | select(.k == 2) | .k > 1", Some(true)),
];

const PATTERNS: [(&str, &[&str]); 6] = [
    ("a.txt.j2", &["a.txt.j2"]),
    ("*.txt.j2", &["a.txt.j2", "sub/a.txt.j2"]),
    ("**/b.md.j2", &["b.md.j2", "sub/b.md.j2"]),
    ("sub/?.{txt,md}.j2", &["sub/a.txt.j2", "sub/b.md.j2"]),
    ("*.nothing", &[]),
    ("plain", &["plain"]),
];
const FILES: [&str; 5] = ["a.txt.j2", "b.md.j2", "sub/a.txt.j2", "sub/b.md.j2", "plain"];
const NAMES: [&str; 5] = ["", "{{ ctx.n }}.x", "p-{{ params.p }}/{{ ctx.k }}.txt", "fixed", "{{ ctx.n"];
const BODIES: [&str; 5] = ["", "{{ template.set_file_name('set/' ~ ctx.k ~ '.txt') }}", "{% if ctx.k == 2 %}{{ ctx.no.no }}{% endif %}", "{% if ctx.k == 3 %}{{ template.set_file_name('three') }}{% endif %}", "{% include 'inc.part' %}"];

#[derive(Clone, Copy, Debug, PartialEq)]
struct Entry {
    pattern: usize,
    each: bool,
    filter: usize,
    when: usize,
    name: usize,
}

impl Entry {
    fn config(&self) -> Value {
        let mut m = Map::new();
        let mut put = |k: &str, v: &str| {
            if !v.is_empty() {
                let _ = m.insert(k.into(), json!(v));
            }
        };
        put("template", PATTERNS[self.pattern].0);
        put("application_mode", if self.each { "each" } else { "single" });
        put("filter", filters()[self.filter].0);
        put("when", WHENS[self.when].0);
        put("file_name", NAMES[self.name]);
        Value::Object(m)
    }
}

fn text_of(v: &Value) -> String {
    match v {
        Value::Null => "none".into(),
        Value::String(s) => s.clone(),
        v => v.to_string(),
    }
}

/// What `{{ ctx.<field> }}` prints.
fn field(ctx: &Value, f: &str) -> String {
    match ctx.get(f) {
        None => String::new(),
        Some(v) => text_of(v),
    }
}

fn to_json(v: &Value) -> String {
    v.to_string().replace('<', "\\u003c").replace('>', "\\u003e").replace('&', "\\u0026").replace('\'', "\\u0027")
}

/// One rendering: the file (or a failure) and its text.
fn render(file: &str, name: usize, body: usize, ctx: &Value) -> Option<(String, String)> {
    let k = field(ctx, "k");
    let mut out = match name {
        0 => file.rsplit('/').next().unwrap_or("").trim_end_matches(".j2").to_owned(),
        1 => format!("{}.x", field(ctx, "n")),
        2 => format!("p-1/{k}.txt"),
        3 => "fixed".into(),
        _ => return None,
    };
    let mut inc = String::new();
    match body {
        1 => out = format!("set/{k}.txt"),
        2 if k == "2" => return None,
        3 if k == "3" => out = "three".into(),
        4 => inc = format!("inc {k}"),
        _ => {}
    }
    Some((out, format!("{inc}<{file}|{}|1;", to_json(ctx))))
}

#[derive(Default)]
struct Expected {
    /// Each file with the texts that are written to it.
    files: BTreeMap<String, Vec<String>>,
    failed: bool,
    /// All texts, whether or not they end in the same file.
    texts: Vec<String>,
}

fn model(entries: &[Entry], body: usize) -> Option<Expected> {
    // an entry for no file is refused before anything is written
    if entries.iter().any(|e| PATTERNS[e.pattern].1.is_empty()) {
        return None;
    }
    let mut x = Expected::default();
    for e in entries {
        for file in PATTERNS[e.pattern].1 {
            match WHENS[e.when].1 {
                None => x.failed = true,
                Some(false) => {}
                Some(true) => match &filters()[e.filter].1 {
                    None => x.failed = true,
                    Some(outputs) => {
                        let v = if outputs.len() == 1 { outputs[0].clone() } else { json!(outputs) };
                        let items = match (&v, e.each) {
                            (Value::Array(l), true) => l.clone(),
                            (Value::Null, false) => vec![],
                            (Value::Array(l), false) if l.is_empty() => vec![],
                            _ => vec![v.clone()],
                        };
                        for i in &items {
                            match render(file, e.name, body, i) {
                                None => x.failed = true,
                                Some((f, t)) => {
                                    x.texts.push(t.clone());
                                    x.files.entry(f).or_default().push(t);
                                }
                            }
                        }
                    }
                },
            }
        }
    }
    Some(x)
}

fn package(dir: &Path, body: usize) {
    let mut files: Vec<(String, String)> = FILES.iter().map(|f| ((*f).to_owned(), format!("{}<{f}|{{{{ ctx | tojson }}}}|{{{{ params.p }}}};", BODIES[body]))).collect();
    files.push(("inc.part".into(), "inc {{ ctx.k }}".into()));
    files.push(("not.matched".into(), "{{ bad".into()));
    write_files(dir, &files);
}

fn written(d: &Path) -> BTreeMap<String, String> {
    crate::layers::read_dir(d).into_iter().collect()
}

fn processor(dir: &Path, entries: &[Entry], out: OutputTarget) -> Result<OutputProcessor, String> {
    let c = json!({"params": {"p": 1}, "templates": entries.iter().map(Entry::config).collect::<Vec<_>>()});
    let p = dir.join("c.yaml");
    std::fs::write(&p, c.to_string()).map_err(|e| e.to_string())?;
    let config = WeaverConfig::try_from_config_files(&[p]).map_err(|e| e.to_string())?;
    let loader = FileSystemFileLoader::try_new(dir.to_path_buf(), "t").map_err(|e| e.to_string())?;
    OutputProcessor::from_template_config(config, loader, Params::default(), out).map_err(|e| e.to_string())
}

/// What was written agrees with what should be: the same files, each with one of its texts.
fn compare(chk: &Check, name: &str, input: impl Fn() -> Value, want: &Option<Expected>, failed: bool, got: &BTreeMap<String, String>) -> bool {
    let empty = Expected { failed: true, ..Expected::default() };
    let w = want.as_ref().unwrap_or(&empty);
    let ok = w.failed == failed && w.files.keys().eq(got.keys()) && w.files.iter().all(|(k, l)| l.contains(&got[k]));
    if ok {
        chk.outcome(match (want.is_none(), failed, got.is_empty()) {
            (true, ..) => "refused",
            (_, true, true) => "failed",
            (_, true, false) => "failed, others written",
            (_, false, true) => "nothing",
            _ => "written",
        });
    } else {
        chk.violation(name, name, input(), &format!("failed {} {:?}", w.failed, w.files), &format!("failed {failed} {got:?}"));
    }
    ok
}

fn check(chk: &Check, name: &str, dir: &Path, entries: &[Entry], body: usize) -> bool {
    let want = model(entries, body);
    let out = dir.join("out");
    let _ = std::fs::remove_dir_all(&out);
    let run = |target: OutputTarget| guarded(|| processor(dir, entries, target).and_then(|mut p| p.generate(&data()).map_err(|e| e.to_string())));
    let got = match run(OutputTarget::Directory(out.clone())) {
        Ok(r) => r.is_err(),
        Err(p) => {
            chk.violation(name, name, json!(entries.iter().map(Entry::config).collect::<Vec<_>>()), "no panic", &p);
            return false;
        }
    };
    let files = written(&out);
    chk.eval(&(name, body, format!("{entries:?}")), want.as_ref().is_none_or(|w| w.failed || w.files.len() > 1));
    let input = || json!({"templates": entries.iter().map(Entry::config).collect::<Vec<_>>(), "body": BODIES[body]});
    if !compare(chk, name, input, &want, got, &files) {
        return false;
    }
    // the same as one string
    let got = guarded(|| processor(dir, entries, OutputTarget::Directory(out.clone())).and_then(|p| p.generate_to_string(&data()).map_err(|e| e.to_string())));
    let sorted = |l: Vec<String>| {
        let mut l = l;
        l.sort();
        format!("{l:?}")
    };
    // file names are not rendered for a string
    let named: Vec<Entry> = entries.iter().map(|e| Entry { name: 0, ..*e }).collect();
    let want = match model(&named, body) {
        Some(x) if !x.failed => sorted(x.texts),
        _ => "error".into(),
    };
    let got = match got {
        Ok(Ok(s)) => sorted(s.split_inclusive("|1;").map(str::to_owned).collect()),
        Ok(Err(_)) => "error".into(),
        Err(p) => p,
    };
    chk.expect_eq(name, input, &want, &got)
}

fn single(chk: &Arc<Check>) {
    // what the files hold does not depend on the rest, so bodies are crossed with filters and names only
    let nf = filters().len();
    chk.par(product(&[PATTERNS.len(), 2, nf, BODIES.len()]), |x| format!("A-{}-{}-{}-{}", x[0], x[1], x[2], x[3]), |chk, name, x| {
        let dir = chk.fresh("w");
        package(&dir.join("t"), x[3]);
        for when in 0..WHENS.len() {
            for n in 0..NAMES.len() {
                if !chk.thorough() && when > 1 && (x[3] > 0 || n > 1) {
                    continue;
                }
                let e = Entry { pattern: x[0], each: x[1] == 1, filter: x[2], when, name: n };
                if !check(chk, name, &dir, &[e], x[3]) {
                    return;
                }
            }
        }
    });
}

fn pairs(chk: &Arc<Check>) {
    let mut pool = vec![];
    for (i, x) in product(&[3, 2, 13, NAMES.len()]).enumerate() {
        if i % 10 == 3 {
            pool.push(Entry { pattern: x[0] + (i / 10) % 2, each: x[1] == 1, filter: x[2], when: [0, 1, 2, 3, 5, 8][i / 10 % 6], name: x[3] });
        }
    }
    // the pool has errors, empty results and all names
    for (i, f) in [2, 4, 7, 8, 11].into_iter().enumerate() {
        pool.push(Entry { pattern: i % 4, each: i % 2 == 0, filter: f, when: 0, name: i % 4 });
    }
    let n = pool.len();
    let pool = &pool;
    chk.par(product(&[n, n]), |x| format!("B-{}-{}", x[0], x[1]), |chk, name, x| {
        let dir = chk.fresh("w");
        for body in 0..if chk.thorough() { BODIES.len() } else { 2 } {
            let body = if chk.thorough() { body } else { body * 2 };
            package(&dir.join("t"), body);
            if !check(chk, name, &dir, &[pool[x[0]], pool[x[1]]], body) {
                return;
            }
        }
    });
}

/// Escaping of what a template prints.
fn escape(chk: &Arc<Check>) {
    let html = |s: &str| s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&#x27;").replace('/', "&#x2f;");
    let body = "{{ ctx.h }}|{{ ctx.h | safe }}|{% autoescape false %}{{ ctx.h }}{% endautoescape %}|{{ 3 }}|<{{ params.q }}>|{{ 'x&y' ~ ctx.h }}";
    let h = data()["h"].as_str().unwrap_or("").to_owned();
    chk.par(product(&[4, 2, 2, 2]), |x| format!("E-{x:?}"), |chk, name, x| {
        let dir = chk.fresh("w");
        write_files(&dir.join("t"), &[("a.j2".into(), body.into()), ("b.j2".into(), body.into())]);
        let mode = ["", "none", "html", "json"][x[0]];
        let other = ["html", "none"][x[3]];
        let mut t = json!({"template": "a.j2", "application_mode": if x[1] == 0 { "single" } else { "each" }, "filter": if x[2] == 0 { "." } else { "[.]" }});
        if !mode.is_empty() {
            t["auto_escape"] = json!(mode);
        }
        // another entry's mode does not leak
        let t2 = json!({"template": "b.j2", "application_mode": "single", "auto_escape": other});
        let c = json!({"params": {"q": "<q>"}, "templates": [t, t2]});
        std::fs::write(dir.join("c.yaml"), c.to_string()).expect("write");
        // a single array has no field
        let missing = x[1] == 0 && x[2] == 1;
        let text = |mode: &str, missing: bool| {
            let esc = |s: &str| match mode {
                "html" => html(s),
                "json" => json!(s).to_string(),
                _ => s.to_owned(),
            };
            let hh = if missing { "" } else { &h };
            let shown = match (mode, missing) {
                ("json", true) => "null".to_owned(),
                (_, true) => String::new(),
                _ => esc(&h),
            };
            format!("{shown}|{hh}|{hh}|3|<{}>|{}", esc("<q>"), esc(&format!("x&y{hh}")))
        };
        let want: BTreeMap<String, String> = [("a".to_owned(), text(mode, missing)), ("b".to_owned(), text(other, false))].into();
        let got = guarded(|| {
            let config = WeaverConfig::try_from_config_files(&[dir.join("c.yaml")]).map_err(|e| e.to_string())?;
            let loader = FileSystemFileLoader::try_new(dir.clone(), "t").map_err(|e| e.to_string())?;
            OutputProcessor::from_template_config(config, loader, Params::default(), OutputTarget::Directory(dir.join("out"))).and_then(|mut p| p.generate(&data())).map_err(|e| e.to_string())
        });
        let got = match got {
            Ok(Ok(())) => format!("{:?}", written(&dir.join("out"))),
            Ok(Err(e)) | Err(e) => e,
        };
        chk.eval(name, mode == "html" || mode == "json");
        chk.outcome("escape");
        let _ = chk.expect_eq(name, || c.clone(), &format!("{want:?}"), &got);
    });
}

/// Through the command: exit codes, and the registry as context.
fn command(chk: &Arc<Check>) {
    let ok = json!({"template": "ok.j2", "application_mode": "each", "filter": ".groups | map(.id)", "file_name": "{{ ctx }}.txt"});
    let skipped = json!({"template": "ok.j2", "application_mode": "single", "when": ".groups == []"});
    let bad_filter = json!({"template": "ok.j2", "application_mode": "single", "filter": ".groups | .x.y"});
    let bad_when = json!({"template": "ok.j2", "application_mode": "single", "when": ".groups[].id"});
    let bad_item = json!({"template": "bad.j2", "application_mode": "each", "filter": ".groups | map(.id)", "file_name": "bad-{{ ctx }}.txt"});
    let nothing = json!({"template": "none-*.j2", "application_mode": "single"});
    let reserved = json!({"template": "ok.j2", "application_mode": "single", "params": {"params": 1}});
    let pool = [ok, skipped, bad_filter, bad_when, bad_item, nothing, reserved];
    let k = pool.len();
    chk.par(subsets(&(0..k).collect::<Vec<_>>()).into_iter().filter(|s| !s.is_empty() && (chk.thorough() || s.len() < 3 || s.len() == 6)), |s| format!("L-{s:?}"), |chk, name, s| {
        let d = chk.fresh("w");
        let t: Vec<&Value> = s.iter().map(|i| &pool[*i]).collect();
        let group = |id: &str| json!({"id": id, "type": "attribute_group", "brief": "b", "attributes": [{"id": format!("{id}.a"), "type": "string", "brief": "b", "stability": "stable", "examples": ["e"]}]});
        write_files(
            &d,
            &[
                ("reg/r.yaml".into(), json!({"groups": [group("g.a"), group("g.b")]}).to_string()),
                ("templates/x/weaver.yaml".into(), json!({"templates": t}).to_string()),
                ("templates/x/ok.j2".into(), "ok {{ ctx }}".into()),
                ("templates/x/bad.j2".into(), "{% if ctx == 'g.a' %}{{ ctx.no.no }}{% endif %}bad {{ ctx }}".into()),
                ("home/.k".into(), String::new()),
            ],
        );
        let abs = |s: &str| d.join(s).display().to_string();
        let (code, so, se) = weaver(&["registry", "generate", "-r", &abs("reg"), "-t", &abs("templates"), "x", &abs("out")], &d.join("home"));
        let refused = s.contains(&5);
        let failed = s.iter().any(|i| *i > 1);
        let mut want: BTreeMap<String, String> = BTreeMap::new();
        if !refused {
            if s.contains(&0) {
                want.extend([("g.a.txt".to_owned(), "ok g.a".to_owned()), ("g.b.txt".to_owned(), "ok g.b".to_owned())]);
            }
            if s.contains(&4) {
                let _ = want.insert("bad-g.b.txt".into(), "bad g.b".into());
            }
        }
        chk.eval(name, true);
        chk.add_traces(1);
        chk.outcome("command");
        let got = format!("{code} {:?}", written(&d.join("out")));
        let _ = chk.expect_eq(name, || json!({"templates": t, "stdout": so, "stderr": se}), &format!("{} {want:?}", i32::from(failed)), &got);
    });
}

fn run(chk: &Arc<Check>) {
    let home = chk.fresh("home");
    std::env::set_var("HOME", &home);
    single(chk);
    pairs(chk);
    escape(chk);
    command(chk);
}
