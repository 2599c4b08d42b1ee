//! C28: the filters, functions and tests offered to templates.
use harness::reg::write_files;
use harness::*;
use serde_json::{json, Map, Value};
use std::path::Path;
use std::sync::Arc;
use weaver_forge::config::{Params, WeaverConfig};
use weaver_forge::file_loader::FileSystemFileLoader;
use weaver_forge::{OutputProcessor, OutputTarget};

pub const SPEC: Spec = Spec {
    id: "C28",
    level: "model_checking",
    rule: "Exhaustive over (filter or test, value): all attribute types (simple, template, and enums of up to 3 (thorough 4) members over 5 kinds of values) x type helpers; all lists of up to 3 (thorough 4) attributes over 7 requirement levels x 3 names, v1 and v2, x attribute_sort, required, not_required; all stabilities x deprecations x tests; all identifiers of up to 3 (thorough 4) words over 4 separators x case and constant filters; all ids of up to 4 segments x namespace filters; all units and instruments and names of up to 3 (thorough 4) of 8 characters x Prometheus filters; body trees of up to 4 levels; and small domains of the text, list and map helpers. \
           Oracle: the documented result, computed by an independent definition of each helper; where the documentation says error, an error. Non-trivial: the helper changes its input.",
    assumptions: &["words of an identifier are parted by separators and by changes of case, not by digits", "the units of Prometheus are those of its specification of OpenTelemetry metric names"],
    run,
};

/// The results (as JSON) of an expression for each of many values of `c`, or that there is none.
fn results(dir: &Path, expr: &str, cases: &[(Value, Option<Value>)]) -> Vec<Result<Value, String>> {
    let config = json!({
        "templates": [{"template": "t.j2", "filter": ".", "application_mode": "single"}],
        "acronyms": ["iOS", "API", "URL"],
        "text_maps": {"m": {"a": "A", "b": ""}, "n": {"a": "N"}},
    });
    let template = "{% for c in ctx %}\u{1}{{ EXPR | tojson }}\u{2}{% endfor %}".replace("EXPR", expr);
    write_files(dir, &[("tpl/t/t.j2".into(), template), ("tpl/t/weaver.yaml".into(), config.to_string())]);
    let render = |values: Vec<&Value>| -> Result<Vec<Value>, String> {
        let n = values.len();
        let text = guarded(|| {
            let config = WeaverConfig::try_from_config_files(&[dir.join("tpl/t/weaver.yaml")]).map_err(|e| e.to_string())?;
            let loader = FileSystemFileLoader::try_new(dir.join("tpl"), "t").map_err(|e| e.to_string())?;
            let p = OutputProcessor::from_template_config(config, loader, Params::default(), OutputTarget::Directory(dir.join("out"))).map_err(|e| e.to_string())?;
            p.generate_to_string(&json!(values)).map_err(|e| e.to_string())
        })
        .and_then(|r| r)?;
        let out: Vec<Value> = text.split('\u{1}').skip(1).map(|x| serde_json::from_str(x.split('\u{2}').next().unwrap_or_default()).unwrap_or_else(|_| json!(x))).collect();
        if out.len() == n { Ok(out) } else { Err(format!("{} results of {n}: {text}", out.len())) }
    };
    // Those which have a result at once, those which should fail one by one.
    let good: Vec<&Value> = cases.iter().filter(|c| c.1.is_some()).map(|c| &c.0).collect();
    let mut at_once = if good.is_empty() { None } else { render(good).ok().map(Vec::into_iter) };
    cases
        .iter()
        .map(|(v, expected)| match (&mut at_once, expected) {
            (Some(l), Some(_)) => Ok(l.next().expect("as many")),
            _ => render(vec![v]).map(|mut l| l.remove(0)),
        })
        .collect()
}

struct Group {
    name: String,
    expr: String,
    /// Values, and what is expected of each: None is an error.
    cases: Vec<(Value, Option<Value>)>,
}

fn group(out: &mut Vec<Group>, name: &str, expr: &str, cases: impl IntoIterator<Item = (Value, Option<Value>)>) {
    let mut cases: Vec<_> = cases.into_iter().collect();
    let mut i = 0;
    while !cases.is_empty() {
        let rest = cases.split_off(cases.len().min(2000));
        out.push(Group { name: format!("{name}-{i}"), expr: expr.to_owned(), cases: std::mem::replace(&mut cases, rest) });
        i += 1;
    }
}

/// All sequences of 0..=n of the items.
fn sequences<T: Clone>(items: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|l: &Vec<T>| items.iter().map(move |i| l.iter().cloned().chain([i.clone()]).collect())).collect();
        out.extend(last.iter().cloned());
    }
    out
}

// ---------------------------------------------------------------- types

fn types(out: &mut Vec<Group>, n: usize) {
    let simple = ["string", "int", "double", "boolean", "string[]", "int[]", "double[]", "boolean[]"];
    let mut all: Vec<(Value, Option<String>, [bool; 4], Option<String>)> = vec![];
    for s in simple {
        all.push((json!(s), Some(s.to_owned()), [true, false, false, s.ends_with("[]")], None));
        all.push((json!(format!("template[{s}]")), Some(s.to_owned()), [false, true, false, false], None));
    }
    for s in ["any", "template[any]", "template[string", "enum", ""] {
        all.push((json!(s), None, [false; 4], None));
    }
    let values = [json!("a"), json!(1), json!(2), json!(1.5), json!(2.0)];
    for l in sequences(&values, n).into_iter().skip(1) {
        let kind = |v: &Value| if v.is_string() { "string" } else if v.is_f64() { "double" } else { "int" };
        let t = if l.iter().all(|v| kind(v) == kind(&l[0])) { kind(&l[0]) } else { "string" };
        let members: Vec<Value> = l.iter().enumerate().map(|(i, v)| json!({"id": format!("m{i}"), "value": v, "brief": null, "stability": "stable"})).collect();
        all.push((json!({"members": members}), Some(t.to_owned()), [false, false, true, false], Some(t.to_owned())));
    }
    group(out, "type-instantiated", "c | instantiated_type", all.iter().map(|a| (a.0.clone(), a.1.clone().map(Value::from))));
    group(out, "type-enum", "c | enum_type", all.iter().map(|a| (a.0.clone(), a.3.clone().map(Value::from))));
    group(out, "type-tests", "[c is simple_type, c is template_type, c is enum_type, c is array]", all.iter().map(|a| (a.0.clone(), Some(json!(a.2)))));
    group(out, "type-attribute", "c is enum", all.iter().map(|a| (json!({"name": "x", "type": a.0}), Some(json!(a.2[2])))));
    group(out, "type-attribute-none", "c is enum", [json!({"name": "x"}), json!({}), json!("x"), json!([])].map(|v| (v, Some(json!(false)))));
    let printed = [(json!("a"), "\"a\""), (json!(""), "\"\""), (json!("a\"b\\c\nd\té"), "\"a\\\"b\\\\c\\nd\\té\""), (json!(12), "12"), (json!(-3), "-3"), (json!(1.5), "1.5"), (json!(2.0), "2.0"), (json!(true), "true"), (json!(false), "false"), (json!(null), ""), (json!([1]), ""), (json!({"a": 1}), "")];
    group(out, "type-print", "c | print_member_value", printed.map(|(v, e)| (v, Some(json!(e)))));
}

// ---------------------------------------------------------------- attributes

fn attributes(out: &mut Vec<Group>, n: usize) {
    let levels = [json!("required"), json!("recommended"), json!("opt_in"), json!({"conditionally_required": "x"}), json!({"recommended": "y"}), json!({"conditionally_required": ""}), Value::Null];
    let rank = |v: &Value| match v {
        Value::Null => 0,
        Value::String(s) if s == "required" => 1,
        Value::Object(o) if o.contains_key("conditionally_required") => 2,
        Value::String(s) if s == "opt_in" => 4,
        _ => 3,
    };
    for key in ["name", "key"] {
        let names = ["a.b", "a.c", "a_b"];
        let one: Vec<Value> = levels
            .iter()
            .flat_map(|l| {
                names.iter().map(move |n| {
                    let mut o = Map::new();
                    let _ = o.insert(key.to_owned(), json!(n));
                    if !l.is_null() {
                        let _ = o.insert("requirement_level".to_owned(), l.clone());
                    }
                    Value::Object(o)
                })
            })
            .collect();
        let mut sort = vec![];
        let mut required = vec![];
        let mut not_required = vec![];
        for mut l in sequences(&one, n) {
            // Where the position matters: an attribute keeps what else it says.
            for (i, a) in l.iter_mut().enumerate() {
                a["i"] = json!(i);
            }
            let level = |a: &Value| a.get("requirement_level").cloned().unwrap_or_default();
            let mut sorted = l.clone();
            sorted.sort_by(|a, b| (rank(&level(a)), a[key].as_str()).cmp(&(rank(&level(b)), b[key].as_str())));
            sort.push((json!(l), Some(json!(sorted))));
            required.push((json!(l), Some(l.iter().filter(|a| level(a) == "required").cloned().collect())));
            not_required.push((json!(l), Some(l.iter().filter(|a| level(a) != "required").cloned().collect())));
        }
        group(out, &format!("attr-{key}-sort"), "c | attribute_sort", sort);
        group(out, &format!("attr-{key}-required"), "c | required", required);
        group(out, &format!("attr-{key}-not-required"), "c | not_required", not_required);
    }
    let stabilities = [None, Some("stable"), Some("development"), Some("alpha"), Some("beta"), Some("release_candidate"), Some("deprecated")];
    let deprecations = [None, Some(Value::Null), Some(json!({"reason": "obsoleted", "note": "n"})), Some(json!({"reason": "renamed", "renamed_to": "x", "note": ""})), Some(json!({"reason": "uncategorized", "note": ""})), Some(json!({"reason": "unspecified", "note": ""}))];
    let mut cases = vec![];
    for s in stabilities {
        for d in &deprecations {
            for more in [json!({}), json!({"name": "a", "type": "string", "brief": ""})] {
                let mut v = more;
                if let Some(s) = s {
                    v["stability"] = json!(s);
                }
                if let Some(d) = d {
                    v["deprecated"] = d.clone();
                }
                cases.push((v, Some(json!([s == Some("stable"), s != Some("stable"), d.as_ref().is_some_and(|d| !d.is_null())]))));
            }
        }
    }
    group(out, "attr-tests", "[c is stable, c is experimental, c is deprecated]", cases);
}

// ---------------------------------------------------------------- identifiers

fn words(s: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    let chars: Vec<char> = s.chars().collect();
    for (i, c) in chars.iter().enumerate() {
        if ['.', '_', '-', ' '].contains(c) {
            out.push(String::new());
            continue;
        }
        let before = i.checked_sub(1).map(|j| chars[j]);
        let after = chars.get(i + 1);
        // aB, and ABc: the last of a run of capitals starts a word.
        if c.is_uppercase() && (before.is_some_and(char::is_lowercase) || before.is_some_and(char::is_uppercase) && after.is_some_and(|a| a.is_lowercase())) {
            out.push(String::new());
        }
        out.last_mut().expect("one").push(*c);
    }
    out.retain(|w| !w.is_empty());
    out
}

fn capital(s: &str) -> String {
    let mut c = s.chars();
    c.next().map(|f| f.to_uppercase().chain(c.flat_map(char::to_lowercase)).collect()).unwrap_or_default()
}

fn case(name: &str, s: &str) -> String {
    let w = words(s);
    let upper = |sep: &str| w.iter().map(|w| w.to_uppercase()).collect::<Vec<_>>().join(sep);
    let lower = |sep: &str| w.iter().map(|w| w.to_lowercase()).collect::<Vec<_>>().join(sep);
    match name {
        "lower_case" => lower(" "),
        "upper_case" => upper(" "),
        "title_case" => w.iter().map(|w| capital(w)).collect::<Vec<_>>().join(" "),
        "pascal_case" => w.iter().map(|w| capital(w)).collect(),
        "camel_case" => w.iter().enumerate().map(|(i, w)| if i == 0 { w.to_lowercase() } else { capital(w) }).collect(),
        "snake_case" => lower("_"),
        "screaming_snake_case" => upper("_"),
        "kebab_case" => lower("-"),
        _ => upper("-"),
    }
}

fn identifiers(out: &mut Vec<Group>, n: usize) {
    let parts = ["a", "bc", "k8s", "l2", "xY", "HTTPx", "API"];
    let mut ids = vec![];
    for w in 1..=n {
        for p in product(&vec![parts.len(); w]) {
            for s in product(&vec![4; w - 1]) {
                // Of the longest, only those with few kinds of words.
                if w == 4 && p.iter().any(|p| ![0, 2, 4].contains(p)) {
                    continue;
                }
                ids.push(p.iter().enumerate().map(|(i, p)| format!("{}{}", if i == 0 { "" } else { [".", "_", "-", " "][s[i - 1]] }, parts[*p])).collect::<String>());
            }
        }
    }
    ids.extend(["".to_owned(), "é.bc".to_owned(), "aé_ßx".to_owned()]);
    let conventions = ["lower_case", "upper_case", "title_case", "pascal_case", "camel_case", "snake_case", "screaming_snake_case", "kebab_case", "screaming_kebab_case"];
    for f in conventions {
        group(out, &format!("id-{f}"), &format!("c | {f}"), ids.iter().map(|i| (json!(i), Some(json!(case(f, i))))));
    }
    for f in ["kebab_case", "pascal_case", "camel_case", "snake_case", "screaming_snake_case"] {
        group(out, &format!("id-{f}-const"), &format!("c | {f}_const"), ids.iter().map(|i| (json!(i), Some(json!(case(f, &i.replace('_', "")))))));
    }
    group(out, "id-capitalize", "c | capitalize_first", ids.iter().map(|i| {
        let mut c = i.chars();
        (json!(i), Some(json!(c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default())))
    }));
    // Ids by segments.
    let mut segments = vec![];
    for l in 1..=4usize {
        for p in product(&vec![5; l]) {
            segments.push(p.iter().map(|p| ["registry", "metric", "a", "b_cD", ""][*p]).collect::<Vec<_>>());
        }
    }
    let of = |kind: &'static str, f: fn(&str) -> String| segments.iter().map(move |s| (json!(s.join(".")), if s.len() > 1 && s[0] == kind { Some(json!(f(s[1]))) } else { None })).collect::<Vec<_>>();
    group(out, "ns-registry", "c | attribute_registry_namespace", of("registry", str::to_owned));
    group(out, "ns-title", "c | attribute_registry_title", of("registry", |s| case("title_case", s)));
    group(out, "ns-file", "c | attribute_registry_file", of("registry", |s| format!("attributes-registry/{}.md", case("kebab_case", s))));
    group(out, "ns-metric", "c | metric_namespace", of("metric", str::to_owned));
    let split = |id: &[&str]| {
        let rest = id[1..].join(".");
        match id {
            [""] => None,
            [one] => Some(("other".to_owned(), (*one).to_owned())),
            [first, ..] if first.is_empty() || rest.is_empty() => None,
            [first, ..] => Some(((*first).to_owned(), rest)),
            [] => None,
        }
    };
    group(out, "ns-attribute", "c | attribute_namespace", segments.iter().map(|s| (json!(s.join(".")), split(s).map(|x| json!(x.0)))));
    group(out, "ns-id", "c | attribute_id", segments.iter().map(|s| (json!(s.join(".")), split(s).map(|x| json!(x.1)))));
    group(out, "ns-split", "c | split_id", segments.iter().map(|s| (json!(s.join(".")), Some(json!(s)))).chain([json!(1), json!(null), json!(["a.b"])].map(|v| (v, None))));
}

// ---------------------------------------------------------------- Prometheus

const UNITS: [(&str, &str); 29] = [
    ("d", "days"), ("h", "hours"), ("min", "minutes"), ("s", "seconds"), ("ms", "milliseconds"), ("us", "microseconds"), ("ns", "nanoseconds"),
    ("By", "bytes"), ("KiBy", "kibibytes"), ("MiBy", "mebibytes"), ("GiBy", "gibibytes"), ("TiBy", "tibibytes"), ("KBy", "kilobytes"), ("MBy", "megabytes"), ("GBy", "gigabytes"), ("TBy", "terabytes"),
    ("m", "meters"), ("V", "volts"), ("A", "amperes"), ("J", "joules"), ("W", "watts"), ("g", "grams"), ("Cel", "celsius"), ("Hz", "hertz"), ("1", "ratio"), ("%", "percent"), ("B", "bytes"), ("KB", "kilobytes"), ("MB", "megabytes"),
];
const PER: [(&str, &str); 7] = [("s", "second"), ("m", "minute"), ("h", "hour"), ("d", "day"), ("w", "week"), ("mo", "month"), ("y", "year")];

fn prometheus(out: &mut Vec<Group>, n: usize) {
    let unit = |u: &str| UNITS.iter().find(|x| x.0 == u).map(|x| x.1.to_owned());
    let mut units: Vec<(String, Option<String>)> = UNITS.iter().map(|u| (u.0.to_owned(), Some(u.1.to_owned()))).collect();
    units.extend(["", "{request}", "x", "seconds", "S", "/s/"].map(|u| (u.to_owned(), None)));
    for first in ["By", "m", "J", "1", "{request}", ""] {
        for p in PER {
            let f = if first == "1" { None } else { unit(first) };
            units.push((format!("{first}/{}", p.0), Some(f.map(|f| format!("{f}_")).unwrap_or_default() + "per_" + p.1)));
        }
        for second in ["x", "ms", ""] {
            units.push((format!("{first}/{second}"), None));
        }
    }
    group(out, "prom-unit", "c | prometheus_unit_name", units.iter().map(|u| (json!({"unit": u.0}), Some(json!(unit(&u.0).unwrap_or(u.0.clone()))))).chain([(json!({"unit": 1}), None), (json!({}), None)]));
    let sanitized = |s: &str| {
        let t: String = s.chars().map(|c| if c.is_ascii_alphanumeric() || c == '_' || c == ':' { c } else { '_' }).collect();
        if t.starts_with(|c: char| c.is_ascii_digit()) { format!("_{t}") } else { t }
    };
    let suffixed = |n: &str, u: &Option<String>, i: &str| format!("{n}{}{}", u.as_ref().map(|u| format!("_{u}")).unwrap_or_default(), if i == "counter" { "_total" } else { "" });
    let strategies = ["NoTranslation", "UnderscoreEscapingWithoutSuffixes", "NoUTF8EscapingWithSuffixes", "UnderscoreEscapingWithSuffixes"];
    let name = |k: usize, n: &str, u: &Option<String>, i: &str| match k {
        0 => n.to_owned(),
        1 => sanitized(n),
        2 => suffixed(n, u, i),
        _ => suffixed(&sanitized(n), u, i),
    };
    let mut metrics: Vec<(String, usize, &str)> = vec![];
    let instruments = ["counter", "gauge", "histogram", "updowncounter", "summary"];
    for u in 0..units.len() {
        for i in instruments {
            metrics.push(("http.server.time".to_owned(), u, i));
        }
    }
    let of = |u: &str| units.iter().position(|x| x.0 == u).expect("unit");
    for s in sequences(&['a', '1', '.', '_', ':', 'é', '-', 'Z'], n).into_iter().skip(1) {
        for (u, i) in [(of(""), "gauge"), (of("s"), "counter"), (of("By"), "histogram")] {
            metrics.push((s.iter().collect(), u, i));
        }
    }
    let value = |m: &(String, usize, &str)| json!({"metric_name": m.0, "unit": units[m.1].0, "instrument": m.2});
    for (k, s) in strategies.iter().enumerate() {
        group(out, &format!("prom-name-{s}"), &format!("c | prometheus_metric_name(translation_strategy='{s}')"), metrics.iter().map(|m| (value(m), Some(json!(name(k, &m.0, &units[m.1].1, m.2))))));
    }
    for strategy in 0..5 {
        for expand in 0..3 {
            let mut args = vec![];
            if strategy < 4 {
                args.push(format!("translation_strategy='{}'", strategies[strategy]));
            }
            if expand > 0 {
                args.push(format!("expand_summary_and_histogram={}", expand == 2));
            }
            let cases = metrics.iter().map(|m| {
                let mut names: Vec<String> = vec![];
                for k in 0..4 {
                    let x = name(k, &m.0, &units[m.1].1, m.2);
                    if (strategy == 4 || strategy == k) && !names.contains(&x) {
                        names.push(x);
                    }
                }
                let more: &[&str] = match m.2 {
                    _ if expand < 2 => &[""],
                    "histogram" => &["", "_bucket", "_count", "_sum"],
                    "summary" => &["", "_count", "_sum"],
                    _ => &[""],
                };
                (value(m), Some(json!(names.iter().flat_map(|n| more.iter().map(move |x| format!("{n}{x}"))).collect::<Vec<_>>())))
            });
            group(out, &format!("prom-names-{strategy}-{expand}"), &format!("c | prometheus_metric_names({})", args.join(", ")), cases.collect::<Vec<_>>());
        }
    }
    let m = json!({"metric_name": "a", "unit": "s", "instrument": "gauge"});
    for (i, e) in ["c | prometheus_metric_name", "c | prometheus_metric_name(translation_strategy='x')", "c | prometheus_metric_names(translation_strategy='x')"].iter().enumerate() {
        group(out, &format!("prom-error-{i}"), e, [(m.clone(), None)]);
    }
}

// ---------------------------------------------------------------- texts, lists and maps

fn small(out: &mut Vec<Group>, n: usize) {
    // Acronyms: whole words, whatever their case; white space and punctuation stay.
    let tokens = ["api", "Ios", "url", "apis", "x", " ", "  ", "-", "_", ".", "é"];
    let acronym = |s: &str| {
        let kind = |c: char| if c.is_whitespace() { 0 } else if c.is_alphanumeric() || c == '_' { 1 } else { 2 };
        let mut words: Vec<String> = vec![];
        for c in s.chars() {
            match words.last_mut() {
                Some(w) if w.chars().last().map(kind) == Some(kind(c)) => w.push(c),
                _ => words.push(c.to_string()),
            }
        }
        words.iter().map(|w| ["iOS", "API", "URL"].iter().find(|a| a.to_lowercase() == w.to_lowercase()).map_or(w.as_str(), |a| a)).collect::<String>()
    };
    group(out, "text-acronym", "c | acronym", sequences(&tokens, n.min(4)).iter().map(|l| (json!(l.concat()), Some(json!(acronym(&l.concat()))))));
    for (args, map, default) in [("'m'", "m", None), ("'m', 'D'", "m", Some("D")), ("'n'", "n", None), ("'z'", "z", None), ("'z', 'D'", "z", Some("D"))] {
        let cases = [json!("a"), json!("b"), json!("c"), json!(""), json!(1), json!(null), json!(["a"])].map(|v| {
            let mapped = match (map, v.as_str()) {
                ("m", Some("a")) => Some("A"),
                ("m", Some("b")) => Some(""),
                ("n", Some("a")) => Some("N"),
                _ => None,
            };
            let e = mapped.or(default).map(Value::from).unwrap_or(v.clone());
            (v, Some(e))
        });
        group(out, &format!("text-map-{}", args.replace(['\'', ',', ' '], "")), &format!("c | map_text({args})"), cases);
    }
    let texts: Vec<String> = sequences(&["a", "b", "\n", " "], n.min(4)).iter().map(|l| l.concat()).collect();
    group(out, "text-prefix", "c | comment_with_prefix('// ')", texts.iter().map(|t| (json!(t), Some(json!(t.lines().map(|l| format!("// {l}")).collect::<Vec<_>>().join("\n"))))));
    for (name, pattern, replacement, by) in [
        ("literal", "a", "X", (|t: &str| t.replace('a', "X")) as fn(&str) -> String),
        ("class", "[ab]", "<$0>", |t| t.chars().map(|c| if "ab".contains(c) { format!("<{c}>") } else { c.to_string() }).collect()),
        ("start", "^a", "", |t| t.strip_prefix('a').unwrap_or(t).to_owned()),
        ("groups", "(a)(b)", "$2$1", |t| t.replace("ab", "ba")),
        ("many", "a+", "X", |t| { let mut t = t.to_owned(); while t.contains("aa") { t = t.replace("aa", "a"); } t.replace('a', "X") }),
    ] {
        group(out, &format!("text-regex-{name}"), &format!("c | regex_replace('{pattern}', '{replacement}')"), texts.iter().map(|t| (json!(t), Some(json!(by(t))))));
    }
    group(out, "text-regex-error", "c | regex_replace('(', '')", [(json!("a"), None)]);
    let codes: Vec<(String, u32)> = ["black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"]
        .iter()
        .enumerate()
        .flat_map(|(i, c)| { let i = i as u32; [(format!("ansi_{c}"), 30 + i), (format!("ansi_bright_{c}"), 90 + i), (format!("ansi_bg_{c}"), 40 + i), (format!("ansi_bg_bright_{c}"), 100 + i)] })
        .chain([("ansi_bold".to_owned(), 1), ("ansi_italic".to_owned(), 3), ("ansi_underline".to_owned(), 4), ("ansi_strikethrough".to_owned(), 9)])
        .collect();
    for (f, code) in codes {
        group(out, &format!("text-{f}"), &format!("c | {f}"), ["a", "", "a b\n"].map(|t| (json!(t), Some(json!(format!("\u{1b}[{code}m{t}\u{1b}[0m"))))));
    }
    // Lists.
    let items = [json!([]), json!([1]), json!(["a", null]), json!([[2], {"x": 3}])];
    group(out, "list-flatten", "c | flatten", sequences(&items, n).into_iter().map(|l| {
        let flat: Vec<Value> = l.iter().flat_map(|x| x.as_array().cloned().unwrap_or_default()).collect();
        (json!(l), Some(json!(flat)))
    }).chain([(json!([1]), None), (json!(1), None)]));
    let values = [None, Some(json!("a")), Some(json!("")), Some(json!(1)), Some(json!(true))];
    group(out, "list-concat", "concat_if(c.a, c.b, c.c) | default('undefined')", product(&[5, 5, 5]).map(|p| {
        let mut o = Map::new();
        let mut text = String::new();
        let mut defined = true;
        for (k, i) in ["a", "b", "c"].iter().zip(&p) {
            match &values[*i] {
                Some(v) => {
                    text += v.as_str().map(str::to_owned).unwrap_or(v.to_string()).as_str();
                    let _ = o.insert((*k).to_owned(), v.clone());
                }
                None => defined = false,
            }
        }
        (Value::Object(o), Some(json!(if defined { text } else { "undefined".to_owned() })))
    }).collect::<Vec<_>>());
    let keys = ["2", "10", "9", "-1", "b", "a", "1x"];
    group(out, "map-numsort", "c | numsort", subsets(&keys).into_iter().map(|l| {
        let o: Map<String, Value> = l.iter().map(|k| ((*k).to_owned(), json!(format!("v{k}")))).collect();
        let mut sorted = l.clone();
        sorted.sort_by_key(|k| (k.parse::<i64>().is_err(), k.parse::<i64>().unwrap_or(0), (*k).to_owned()));
        (Value::Object(o), Some(json!(sorted.iter().map(|k| json!([k, format!("v{k}")])).collect::<Vec<_>>())))
    }));
    // YAML says the same as the value.
    let scalars = [json!(null), json!(true), json!(1), json!(1.5), json!("a"), json!(""), json!("true"), json!("1"), json!("a: b"), json!("- x"), json!("l1\nl2\n"), json!(" é#"), json!([]), json!({})];
    let mut yaml: Vec<Value> = scalars.to_vec();
    for s in &scalars {
        yaml.extend([json!([s]), json!({"k": s}), json!([{"k": s, "l": [s]}, s])]);
    }
    // <, >, & and ' are written to be safe in HTML, which is not YAML's way to write them.
    yaml.retain(|v| !serde_yaml::to_string(v).is_ok_and(|s| s.contains(['<', '>', '&', '\''])));
    group(out, "yaml", "c | toyaml", yaml.into_iter().map(|v| (v.clone(), Some(v))));
    // Bodies.
    fn trees(depth: usize, id: &str) -> Vec<Value> {
        let mut out = vec![json!({"id": id, "type": "string"})];
        if depth > 0 {
            out.push(json!({"id": id, "type": "map", "fields": []}));
            for first in trees(depth - 1, "b") {
                out.push(json!({"id": id, "type": "map", "fields": [first]}));
                for second in trees(depth - 1, "a").into_iter().take(12) {
                    out.push(json!({"id": id, "type": "map", "fields": [first, second]}));
                    out.push(json!({"id": id, "type": "map", "fields": [second, first, {"id": "c", "type": "int"}]}));
                }
            }
        }
        out
    }
    fn fields(v: &Value, path: &str, depth: usize, by: &str, out: &mut Vec<Value>) {
        let id = v["id"].as_str().unwrap_or_default();
        let path = if path.is_empty() { id.to_owned() } else { format!("{path}.{id}") };
        out.push(json!([path, v, depth]));
        let mut l = v["fields"].as_array().cloned().unwrap_or_default();
        l.sort_by(|a, b| a[by].as_str().cmp(&b[by].as_str()));
        for f in &l {
            fields(f, &path, depth + 1, by, out);
        }
    }
    let bodies: Vec<Value> = trees(n.min(3), "r").into_iter().step_by(1).take(4000).collect();
    for (name, args, by) in [("id", "", "id"), ("type", "(sort_by='type')", "type")] {
        let cases = bodies.iter().map(|b| {
            let mut l = vec![];
            fields(b, "", 0, by, &mut l);
            (b.clone(), Some(json!(l)))
        });
        group(out, &format!("body-{name}"), &format!("c | body_fields{args}"), cases.chain([(json!(null), Some(json!([])))]).collect::<Vec<_>>());
    }
}

fn run(chk: &Arc<Check>) {
    let n = if chk.thorough() { 4 } else { 3 };
    let mut groups = vec![];
    types(&mut groups, n);
    attributes(&mut groups, if chk.thorough() { 4 } else { 3 });
    identifiers(&mut groups, n);
    prometheus(&mut groups, n);
    small(&mut groups, n);
    chk.par(
        groups.into_iter(),
        |g| g.name.clone(),
        |chk, name, g| {
            let dir = chk.fresh("c28");
            let got = results(&dir, &g.expr, &g.cases);
            for ((value, expected), actual) in g.cases.iter().zip(got) {
                let actual = match actual {
                    Ok(v) if name.starts_with("yaml") => v.as_str().and_then(|s| serde_yaml::from_str::<Value>(s).ok()).unwrap_or(v),
                    Ok(v) => v,
                    Err(e) if e.starts_with("PANIC") => json!(e),
                    Err(_) if expected.is_none() => json!("(error)"),
                    Err(e) => json!(format!("error: {e}")),
                };
                let wanted = expected.clone().unwrap_or(json!("(error)"));
                chk.eval(&(name, value.to_string()), wanted != *value);
                chk.outcome(if expected.is_some() { "result" } else { "error" });
                if !chk.expect_eq(name, || json!({"expression": g.expr, "c": value}), &wanted.to_string(), &actual.to_string()) {
                    return;
                }
            }
            chk.add_states(g.cases.len() as u64);
        },
    );
}
