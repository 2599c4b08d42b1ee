//! C24: updating markdown changes the inside of snippets, and nothing else.
use harness::reg::*;
use harness::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use weaver_common::result::WResult;
use weaver_forge::config::{Params, WeaverConfig};
use weaver_forge::file_loader::FileSystemFileLoader;
use weaver_forge::registry::ResolvedRegistry;
use weaver_forge::v2::registry::ForgeResolvedRegistry;
use weaver_forge::{OutputProcessor, OutputTarget};
use weaver_semconv_gen::{MarkdownSnippetGenerator, SnipperGeneratorV2, SnippetGenerator};

pub const SPEC: Spec = Spec {
    id: "C24",
    level: "model_checking",
    rule: "Exhaustive, with registries in v1 and v2: (D) every document of up to 4 (thorough 5) lines (quick: the last two of four from 9 kinds) over 14 kinds of line (text, headers of known and unknown groups, both trailers, near misses), with and without a final line break; \
           (H) every header: 3 openings x 3 words x 2 separations x 5 ids x every list of up to 3 of 6 arguments and 6 malformed lists x 3 endings; (I) every id of every kind of object of the registry and of its refinements, and its near misses; \
           (F) the real command: every pair of 13 kinds of file x every sequence of up to 2 runs, dry or not. Oracle: reference model of the document: lines outside snippets are kept, the lines between a header and its trailer are those the template gives for the group the header names, with the arguments it states; \
           updating an updated document changes nothing; a document that fails is not written; a dry run writes nothing and fails exactly if the update would fail or change a file. Non-trivial: the document has a header.",
    assumptions: &["line ends are written as \\n, and the last line is ended", "what a header outside the documented grammar means is only constrained to be: ordinary text"],
    run,
};

const URL: &str = "/docs/registry";

const TEMPLATE: &str = r#"{"group": {{ group | tojson }}, "tags": {{ tag_filter | tojson }}, "type": {{ (snippet_type if snippet_type is defined else none) | tojson }}, "url": {{ (attribute_registry_base_url if attribute_registry_base_url is defined else none) | tojson }}, "p": {{ (params.p if params.p is defined else none) | tojson }}}"#;

fn templates() -> Files {
    ["md", "registry/unused"]
        .into_iter()
        .flat_map(|d| [(format!("tpl/{d}/snippet.md.j2"), TEMPLATE.to_owned()), (format!("tpl/{d}/weaver.yaml"), "params: {p: from config}\n".to_owned())])
        .chain([("tpl/md/w.md.j2".to_owned(), "W{{ ids | tojson }}\n\nof {{ params.p }}".to_owned())])
        .filter(|(n, _)| !n.contains("unused"))
        .collect()
}

const V1: &str = r#"groups:
  - id: registry.all
    type: attribute_group
    brief: b
    attributes:
      - {id: a.one, type: string, stability: stable, brief: one, examples: [x], tag: t1}
      - {id: a.two, type: int, stability: development, brief: two, deprecated: {reason: obsoleted, note: n}}
      - {id: a.tpl, type: "template[string]", stability: stable, brief: tpl, examples: [x]}
  - {id: g.one, type: attribute_group, brief: <b> & "c" 'd', attributes: [{ref: a.one, brief: other, tag: t2}, {ref: a.two, requirement_level: {conditionally_required: if}}]}
  - {id: g.one-more_2, type: attribute_group, brief: b, extends: g.one, note: "multi\nline", attributes: [{ref: a.tpl}]}
  - {id: metric.m.total, type: metric, metric_name: m.total, instrument: counter, unit: "{x}", stability: stable, brief: m, attributes: [{ref: a.one, requirement_level: required}]}
  - {id: metric.m, type: metric, metric_name: m, instrument: gauge, unit: "1", stability: stable, brief: m, deprecated: {reason: renamed, renamed_to: m.total}, attributes: []}
  - {id: span.s.one, type: span, span_kind: client, stability: stable, brief: s, attributes: [{ref: a.one, sampling_relevant: true}]}
  - {id: event.e.one, type: event, name: e.one, stability: stable, brief: e, attributes: [{ref: a.two}]}
  - {id: entity.r.one, type: entity, name: r.one, stability: stable, brief: r, attributes: [{ref: a.one, role: identifying}, {ref: a.two, role: descriptive}]}
"#;

const V2: &str = r#"file_format: definition/2
attributes:
  - {key: a.one, type: string, stability: stable, brief: one, examples: [x], annotations: {k: v}}
  - {key: a.two, type: int, stability: development, brief: two, deprecated: {reason: obsoleted, note: n}}
  - {key: a, type: boolean, stability: stable, brief: a}
attribute_groups:
  - {id: g.one, visibility: public, stability: stable, brief: <b> & "c" 'd', attributes: [{ref: a.one, brief: other}, {ref: a.two, requirement_level: {conditionally_required: if}}]}
  - {id: a.one, visibility: public, stability: stable, brief: same id as an attribute, note: "multi\nline", attributes: [{ref: a.two}]}
metrics:
  - {name: m.total, instrument: counter, unit: "{x}", stability: stable, requirement_level: recommended, brief: m, attributes: [{ref: a.one, requirement_level: required}], entity_associations: [r.one]}
  - {name: a.one, instrument: gauge, unit: "1", stability: stable, requirement_level: recommended, brief: m, deprecated: {reason: renamed, renamed_to: m.total}, attributes: []}
spans:
  - {type: s.one, kind: client, name: {note: n}, stability: stable, requirement_level: recommended, brief: s, attributes: [{ref: a.one, sampling_relevant: true}]}
  - {type: a.one, kind: server, name: {note: n}, stability: stable, requirement_level: recommended, brief: s2, attributes: []}
events:
  - {name: e.one, stability: stable, requirement_level: opt_in, brief: e, attributes: [{ref: a.two}], entity_associations: [{one_of: [r.one, a.one]}]}
  - {name: a.one, stability: stable, requirement_level: recommended, brief: e2, attributes: []}
entities:
  - {type: r.one, stability: stable, requirement_level: recommended, brief: r, identity: [{ref: a.one}], description: [{ref: a.two}]}
  - {type: a.one, stability: stable, requirement_level: recommended, brief: r2, identity: [{ref: a.two}]}
metric_refinements:
  - {id: m.total.more, ref: m.total, brief: refined, attributes: [{ref: a.two, requirement_level: opt_in}]}
span_refinements:
  - {id: s.one.more, ref: s.one, brief: refined, attributes: [{ref: a.two}]}
  - {id: e.one.more, ref: s.one, brief: same id as of an event}
event_refinements:
  - {id: e.one.more, ref: e.one, brief: refined, attributes: [{ref: a.one, requirement_level: required}]}
entity_refinements:
  - {id: r.one.more, ref: r.one, brief: refined}
"#;

struct Fixture {
    v2: bool,
    generator: Box<dyn MarkdownSnippetGenerator + Send + Sync>,
    /// what a snippet may name, and the group it gets
    objects: BTreeMap<String, Value>,
    metrics: Vec<String>,
}

fn strip(v: &mut Value) {
    match v {
        Value::Object(o) => {
            let _ = o.remove("provenance");
            o.values_mut().for_each(strip);
        }
        Value::Array(a) => a.iter_mut().for_each(strip),
        _ => {}
    }
}

fn fixture(dir: &Path, v2: bool) -> Fixture {
    write_files(dir, &templates());
    let reg = dir.join(if v2 { "r2" } else { "r1" });
    write_files(&reg, &[("r.yaml".into(), if v2 { V2 } else { V1 }.into())]);
    let loader = FileSystemFileLoader::try_new(dir.join("tpl"), "md").expect("loader");
    let config = WeaverConfig::try_from_loader(&loader).expect("config");
    let output = OutputProcessor::from_template_config(config, loader, Params::default(), OutputTarget::Stdout).expect("output");
    let mut resolver = weaver_resolver::WeaverResolver::new(config_of());
    let r = resolve_with(&mut resolver, &reg, &reg);
    let s = r.schema.unwrap_or_else(|| panic!("{:?}", r.fatal));
    let v1 = s.into_v1().expect("v1");
    if !v2 {
        let groups = ResolvedRegistry::try_from_resolved_registry(&v1.registry, v1.catalog()).expect("registry");
        let objects = groups.groups.iter().map(|g| (g.id.clone(), serde_json::to_value(g).expect("json"))).map(|(n, mut v)| {
            strip(&mut v);
            (n, v)
        });
        let objects = objects.collect();
        return Fixture { v2, generator: Box::new(SnippetGenerator::new(v1, output)), objects, metrics: vec![] };
    }
    let s: weaver_resolved_schema::v2::ResolvedTelemetrySchema = v1.try_into().expect("v2");
    let f = match ForgeResolvedRegistry::try_from_resolved_schema(s.clone(), &mut resolver) {
        WResult::Ok(f) | WResult::OkWithNFEs(f, _) => f,
        WResult::FatalErr(e) => panic!("{e}"),
    };
    let all = serde_json::to_value(&f).expect("json");
    let mut objects = BTreeMap::new();
    for (part, key) in [("registry", ""), ("refinements", "id")] {
        for (kind, ty, id) in [
            ("attributes", "attribute", "key"),
            ("attribute_groups", "attribute_group", "id"),
            ("metrics", "metric", "name"),
            ("spans", "span", "type"),
            ("events", "event", "name"),
            ("entities", "entity", "type"),
        ] {
            for o in all[part][kind].as_array().into_iter().flatten() {
                let mut o = o.clone();
                let id = if key.is_empty() { o[id].clone() } else { o.as_object_mut().expect("object").remove("id").expect("id") };
                strip(&mut o);
                o["signal_type"] = json!(ty);
                let _ = objects.insert(format!("{part}.{kind}.{}", id.as_str().expect("id")), o);
            }
        }
    }
    let metrics = all["registry"]["metrics"].as_array().into_iter().flatten().map(|m| m["name"].as_str().expect("name").to_owned()).collect();
    Fixture { v2, generator: Box::new(SnipperGeneratorV2::new(s, f, output)), objects, metrics }
}

fn config_of() -> weaver_resolver::WeaverResolverConfig {
    config()
}

// ---- the model ----

enum Line {
    Text,
    /// id and arguments
    Semconv(String, Vec<String>),
    /// template and query
    Weaver(Option<String>, String),
    EndSemconv,
    EndWeaver,
}

fn id_ok(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_alphabetic()) && s.chars().all(|c| c.is_ascii_alphanumeric() || ".-_".contains(c))
}

/// The documented grammar.
fn parse(line: &str) -> Line {
    let Some(rest) = line.strip_prefix("<!--") else { return Line::Text };
    let Some((inside, after)) = rest.split_once("-->") else { return Line::Text };
    if !after.trim().is_empty() {
        return Line::Text;
    }
    let inside = inside.trim();
    match inside {
        "endsemconv" => return Line::EndSemconv,
        "endweaver" => return Line::EndWeaver,
        _ => {}
    }
    if let Some(q) = inside.strip_prefix("weaver").filter(|q| q.starts_with(char::is_whitespace)) {
        let q = q.trim();
        if let Some((t, q)) = q.strip_prefix("template:").and_then(|t| t.split_once(' ')) {
            return Line::Weaver(Some(t.to_owned()), q.trim().to_owned());
        }
        return Line::Weaver(None, q.to_owned());
    }
    let Some(rest) = inside.strip_prefix("semconv").filter(|q| q.starts_with(char::is_whitespace)) else { return Line::Text };
    let rest = rest.trim_start();
    let (id, args) = match rest.split_once('(') {
        None => (rest, vec![]),
        Some((id, args)) => match args.strip_suffix(')') {
            None => return Line::Text,
            Some(args) => (id, args.split(',').map(str::to_owned).collect()),
        },
    };
    let arg_ok = |a: &String| {
        matches!(a.as_str(), "full" | "metric_table" | "omit_requirement_level")
            || a.strip_prefix("tag=").is_some_and(|t| t.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && t.chars().all(|c| c.is_ascii_alphanumeric() || "-_".contains(c)))
    };
    if id_ok(id) && args.iter().all(arg_ok) {
        Line::Semconv(id.to_owned(), args)
    } else {
        Line::Text
    }
}

/// What the template is expected to give, as one value per line of output.
fn snippet(f: &Fixture, id: &str, args: &[String], p: &str, url: Option<&str>) -> Result<Vec<Value>, String> {
    let group = f.objects.get(id).ok_or(format!("no {id}"))?;
    let mut tags: Vec<&str> = args.iter().filter_map(|a| a.strip_prefix("tag=")).collect();
    tags.sort_unstable();
    tags.dedup();
    let ty = match (f.v2, args.iter().any(|a| a == "metric_table")) {
        (true, _) => Value::Null,
        (_, true) => json!("metric_table"),
        _ => json!("attribute_table"),
    };
    Ok(vec![json!({"group": group, "tags": tags, "type": ty, "url": url, "p": p})])
}

/// The updated document, one value per line: text, or the snippet as a value.
fn update(f: &Fixture, doc: &[String], p: &str, url: Option<&str>) -> Result<Vec<Value>, String> {
    let mut out = vec![];
    let mut inside: Option<bool> = None;
    for l in doc {
        let line = parse(l);
        match (inside, &line) {
            (Some(weaver), Line::EndSemconv | Line::EndWeaver) if weaver == matches!(line, Line::EndWeaver) => {
                inside = None;
                out.push(json!(l));
            }
            (Some(_), _) => {}
            (None, _) => {
                out.push(json!(l));
                match &line {
                    Line::Semconv(id, args) => {
                        inside = Some(false);
                        out.extend(snippet(f, id, args, p, url)?);
                    }
                    Line::Weaver(t, q) => {
                        inside = Some(true);
                        if !f.v2 {
                            return Err("not supported".into());
                        }
                        // the only query used
                        if t.as_deref() != Some("w.md.j2") || q != "{ids: [.registry.metrics[].name]}" {
                            return Err("unknown template".into());
                        }
                        out.extend([json!(format!("W{}", json!(f.metrics))), json!(""), json!(format!("of {p}"))]);
                    }
                    _ => {}
                }
            }
        }
    }
    if inside.is_some() {
        return Err("a snippet without end".into());
    }
    Ok(out)
}

/// Real lines in the form of the model: what the template wrote becomes the value it stands for.
fn form(doc: &str) -> Vec<Value> {
    doc.lines()
        .map(|l| {
            if l.starts_with("{\"group\"") {
                if let Ok(mut v) = serde_json::from_str::<Value>(l) {
                    strip(&mut v);
                    if let Some(t) = v["tags"].as_array_mut() {
                        t.sort_by_key(Value::to_string);
                        t.dedup();
                    }
                    return v;
                }
            }
            json!(l)
        })
        .collect()
}

fn show(r: &Result<Vec<Value>, String>) -> String {
    match r {
        Ok(l) => l.iter().map(|v| v.to_string() + "\n").collect(),
        Err(_) => "fails".into(),
    }
}

/// One document in process.
fn judge(chk: &Check, name: &str, f: &Fixture, doc: &[String], last: bool) -> bool {
    let text = doc.join("\n") + if last && !doc.is_empty() { "\n" } else { "" };
    let doc: &[String] = &text.lines().map(str::to_owned).collect::<Vec<_>>();
    let want = update(f, doc, "from config", Some(URL));
    let got = match guarded(|| f.generator.update_markdown_contents(&text, Some(URL))) {
        Ok(r) => r.map_err(|e| e.to_string()),
        Err(e) => {
            chk.violation(name, name, json!({"v2": f.v2, "document": text}), "no panic", &e);
            return false;
        }
    };
    chk.eval(&(f.v2, &text), doc.iter().any(|l| matches!(parse(l), Line::Semconv(..) | Line::Weaver(..))));
    chk.add_states(1);
    chk.add_transitions(doc.len() as u64);
    chk.outcome(match (&want, text.contains("semconv")) {
        (Err(_), _) => "fails",
        (_, true) => "updated",
        _ => "text only",
    });
    let form_got = got.as_ref().map(|d| form(d)).map_err(String::clone);
    if !chk.expect_eq(name, || json!({"v2": f.v2, "document": text}), &show(&want), &show(&form_got)) {
        return false;
    }
    if let Ok(once) = got {
        if once != "" && !once.ends_with('\n') {
            chk.violation(name, name, json!({"v2": f.v2, "document": text}), "a line break at the end", &once);
            return false;
        }
        let twice = f.generator.update_markdown_contents(&once, Some(URL)).map_err(|e| e.to_string());
        return chk.expect_eq(name, || json!({"v2": f.v2, "document": text, "run": "second"}), &once, &twice.unwrap_or_else(|e| e));
    }
    true
}

fn known(v2: bool) -> [&'static str; 2] {
    if v2 {
        ["registry.attribute_groups.g.one", "refinements.metrics.m.total.more"]
    } else {
        ["g.one", "metric.m.total"]
    }
}

fn documents(chk: &Arc<Check>, fixtures: &Arc<Vec<Fixture>>) {
    let depth = if chk.thorough() { 5 } else { 4 };
    let items = [0usize, 1].into_iter().flat_map(|f| product(&[14, 14]).collect::<Vec<_>>().into_iter().map(move |h| (f, h)));
    let fx = fixtures.clone();
    chk.par(
        items,
        |(f, h)| format!("D-v{}-{}.{}", f + 1, h[0], h[1]),
        move |chk, name, (f, h)| {
            let f = &fx[f];
            let [a, b] = known(f.v2);
            let lines: Vec<String> = vec![
                "text".into(),
                "".into(),
                format!("<!-- semconv {a} -->"),
                format!("<!--semconv {b}(full,tag=t1,metric_table)-->"),
                "<!-- endsemconv -->".into(),
                "<!-- weaver template:w.md.j2 {ids: [.registry.metrics[].name]} -->".into(),
                "<!-- endweaver -->".into(),
                "<!-- semconv registry.metrics.missing -->".into(),
                format!(" <!-- semconv {a} -->"),
                format!("<!-- semconv {a} --> text"),
                "text <!-- endsemconv -->".into(),
                "<!-- semconv -->".into(),
                "<!-- a comment --> \t".into(),
                "<!--endsemconv-->  ".into(),
            ];
            let n = lines.len();
            let mut tails: Vec<Vec<usize>> = vec![];
            for d in 0..=depth - 2 {
                // Quick: four lines end in the first 9 kinds.
                tails.extend(product(&vec![if depth == 4 && d == 2 { 9 } else { n }; d]));
            }
            if h == [0, 0] {
                let short: Vec<Vec<usize>> = std::iter::once(vec![]).chain((0..n).map(|i| vec![i])).collect();
                for s in short {
                    let doc: Vec<String> = s.iter().map(|i| lines[*i].clone()).collect();
                    for last in [true, false] {
                        if !judge(chk, name, f, &doc, last) {
                            return;
                        }
                    }
                }
            }
            for t in tails {
                let doc: Vec<String> = h.iter().chain(&t).map(|i| lines[*i].clone()).collect();
                let both = doc.len() < 4;
                for last in [true, false].into_iter().take(if both { 2 } else { 1 }) {
                    if !judge(chk, name, f, &doc, last) {
                        return;
                    }
                }
            }
        },
    );
}

fn headers(chk: &Arc<Check>, fixtures: &Arc<Vec<Fixture>>) {
    let args = ["full", "metric_table", "omit_requirement_level", "tag=t1", "tag=t-2_x", "tag=_t"];
    let mut lists: Vec<String> = vec!["".into()];
    for d in 1..=3 {
        lists.extend(product(&vec![args.len(); d]).map(|x| format!("({})", x.iter().map(|i| args[*i]).collect::<Vec<_>>().join(","))));
    }
    lists.extend(["(unknown)", "(full", "(tag=)", "(full;tag=a)", "full)", "(full)(full)"].map(str::to_owned));
    let lists = Arc::new(lists);
    let fx = fixtures.clone();
    let items: Vec<Vec<usize>> = product(&[2, 3, 3, 2, 5]).collect();
    chk.par(
        items.into_iter(),
        |x| format!("H-{x:?}"),
        move |chk, name, x| {
            let f = &fx[x[0]];
            let opening = ["<!--", "<!-- ", "<!--\t "][x[1]];
            let word = ["semconv", "Semconv", "semconvs"][x[2]];
            let sep = [" ", "  "][x[3]];
            let [a, b] = known(f.v2);
            let id = if f.v2 { [a, b, "registry.events.e.one", "g one", "1x"] } else { [a, b, "g.one-more_2", "g one", "1x"] }[x[4]];
            for (i, l) in lists.iter().enumerate() {
                // the malformed and short lists with every word and id; the long ones where they count
                if (x[2] > 0 || x[4] > 2) && i > 8 && i + 6 < lists.len() {
                    continue;
                }
                for end in ["-->", " -->", "\t-->"] {
                    let doc: Vec<String> = vec!["before".into(), format!("{opening}{word}{sep}{id}{l}{end}"), "inside".into(), "<!-- endsemconv -->".into(), "after".into()];
                    if !judge(chk, name, f, &doc, true) {
                        return;
                    }
                }
            }
        },
    );
}

fn ids(chk: &Arc<Check>, fixtures: &Arc<Vec<Fixture>>) {
    let fx = fixtures.clone();
    let mut all: Vec<(usize, String)> = vec![];
    for (n, f) in fixtures.iter().enumerate() {
        for id in f.objects.keys() {
            all.push((n, id.clone()));
            // near misses
            all.push((n, id[..id.len() - 1].to_owned()));
            all.push((n, format!("{id}x")));
            all.push((n, id.to_uppercase()));
            all.push((n, id.replace('.', "_")));
        }
        for part in ["registry", "refinements", "signals"] {
            for kind in ["attributes", "attribute_groups", "metrics", "spans", "events", "entities", "metric"] {
                for id in ["a.one", "m.total", "s.one", "e.one", "r.one", "e.one.more", "g.one", "a"] {
                    all.push((n, format!("{part}.{kind}.{id}")));
                }
            }
        }
    }
    all.dedup();
    chk.par(
        all.into_iter(),
        |(f, id)| format!("I-v{}-{id}", f + 1),
        move |chk, name, (f, id)| {
            let doc: Vec<String> = vec![format!("<!-- semconv {id} -->"), "old".into(), "<!-- endsemconv -->".into()];
            let _ = judge(chk, name, &fx[f], &doc, true);
        },
    );
}

// ---- the command ----

struct File {
    name: &'static str,
    bytes: Vec<u8>,
    /// the lines, if it is a markdown file
    doc: Option<Vec<String>>,
}

/// The kinds of file; `fresh` is the text of an updated snippet.
fn kinds(v2: bool, fresh: &str) -> Vec<File> {
    let [a, _] = known(v2);
    let h = format!("<!-- semconv {a} -->");
    let e = "<!-- endsemconv -->";
    let md = |name, doc: &str| File { name, bytes: doc.as_bytes().to_vec(), doc: Some(doc.lines().map(str::to_owned).collect()) };
    let mut l = vec![
        md("current.md", &format!("x\n{h}\n{fresh}\n{e}\n")),
        md("stale.md", &format!("x\n{h}\nold\n{e}\ny\n")),
        md("open.md", &format!("x\n{h}\nold\ny\n")),
        md("unknown.md", &format!("x\n<!-- semconv registry.metrics.none -->\nold\n{e}\n")),
        md("two.md", &format!("{h}\n{e}\n\n{h}\n{fresh}\n{e}\n")),
        md("late.md", &format!("{h}\n{e}\n<!-- semconv nothing -->\n{e}\n")),
        md("text.md", "just text\n\n  more \n"),
        md("noend.md", "no line break at the end"),
        md("empty.md", ""),
        md("deep/er/stale.md", &format!("{h}\n{e}\n")),
        md("crlf.md", &format!("x\r\n{h}\r\n{fresh}\r\n{e}\r\n")),
        File { name: "bytes.md", bytes: vec![b'x', 0xff, b'\n'], doc: None },
        File { name: "stale.txt", bytes: format!("{h}\nold\n{e}\n").into_bytes(), doc: None },
    ];
    l[11].doc = None;
    l
}

fn files(chk: &Arc<Check>, fixtures: &Arc<Vec<Fixture>>) {
    let n = kinds(false, "").len();
    let fx = fixtures.clone();
    let mut items = vec![];
    for v in 0..2 {
        for a in 0..n {
            for b in a..n {
                for runs in [vec![true], vec![false], vec![false, true], vec![false, false], vec![true, false]] {
                    items.push((v, a, b, runs));
                }
            }
        }
    }
    chk.par(
        items.into_iter(),
        |(v, a, b, runs)| format!("F-v{}-{a}-{b}-{}", v + 1, runs.iter().map(|r| if *r { 'd' } else { 'u' }).collect::<String>()),
        move |chk, name, (v, a, b, runs)| {
            let f = &fx[v];
            let d = chk.fresh("md");
            write_files(&d, &templates());
            write_files(&d.join("reg"), &[("r.yaml".into(), if f.v2 { V2 } else { V1 }.into())]);
            let [id, _] = known(f.v2);
            // as the command has no base URL here, and a parameter of its own
            let fresh = {
                let mut v = match snippet(f, id, &[], "cli", None) {
                    Ok(l) => l[0].clone(),
                    Err(e) => panic!("{e}"),
                };
                strip(&mut v);
                v
            };
            // the exact text is the template's: taken from a first run
            let probe = d.join("probe");
            let h = format!("<!-- semconv {id} -->\n<!-- endsemconv -->\n");
            write_files(&probe, &[("p.md".into(), h)]);
            let home = chk.fresh("home");
            let path = |p: &str| d.join(p).display().to_string();
            let run = |target: &Path, dry: bool| {
                let (reg, tpl, target) = (path("reg"), path("tpl"), target.display().to_string());
                let mut args = vec!["registry", "update-markdown", target.as_str(), "-r", &reg, "-t", &tpl, "--target", "md", "-D", "p=cli"];
                if f.v2 {
                    args.push("--v2");
                }
                if dry {
                    args.push("--dry-run");
                }
                weaver(&args, &home)
            };
            let _ = run(&probe, false);
            let text = std::fs::read_to_string(probe.join("p.md")).unwrap_or_default();
            let text = text.lines().nth(1).unwrap_or_default().to_owned();
            let input = |run: usize| json!({"v2": f.v2, "files": [kinds(f.v2, "").swap_remove(a).name, kinds(f.v2, "").swap_remove(b).name], "runs": runs.iter().map(|d| if *d { "dry" } else { "update" }).collect::<Vec<_>>(), "run": run});
            if !chk.expect_eq(name, || input(0), &fresh.to_string(), &form(&text).first().cloned().unwrap_or_default().to_string()) {
                return;
            }
            let mut ks: Vec<File> = kinds(f.v2, &text).into_iter().enumerate().filter(|(i, _)| *i == a || *i == b).map(|(_, k)| k).collect();
            let target = d.join("docs");
            for k in &ks {
                let p: PathBuf = target.join(k.name);
                std::fs::create_dir_all(p.parent().expect("parent")).expect("mkdir");
                std::fs::write(p, &k.bytes).expect("write");
            }
            chk.eval(&(v, a, b, &runs), true);
            chk.add_states(1);
            chk.add_traces(1);
            for (i, dry) in runs.iter().enumerate() {
                chk.add_transitions(1);
                let (code, _, err) = run(&target, *dry);
                let mut bad = false;
                let mut want = vec![];
                for k in &mut ks {
                    if !k.name.ends_with(".md") {
                        want.push((k.name, json!(k.bytes)));
                        continue;
                    }
                    let r = k.doc.as_ref().ok_or("not text".to_owned()).and_then(|l| update(f, l, "cli", None));
                    let before = String::from_utf8_lossy(&k.bytes).replace("\r\n", "\n");
                    match r {
                        Err(_) => bad = true,
                        Ok(l) => {
                            let changed = l != form(&before) || !(before.is_empty() || before.ends_with('\n'));
                            if *dry {
                                bad |= changed;
                            } else {
                                let lines: Vec<String> = l.iter().map(|v| v.as_str().map_or_else(|| text.clone(), str::to_owned)).collect();
                                k.bytes = lines.iter().map(|l| format!("{l}\n")).collect::<String>().into_bytes();
                                k.doc = Some(lines);
                            }
                        }
                    }
                    want.push((k.name, json!(k.bytes)));
                }
                let got: Vec<(&str, Value)> = ks.iter().map(|k| (k.name, json!(std::fs::read(target.join(k.name)).ok()))).collect();
                let plain = |l: &[(&str, Value)]| {
                    l.iter()
                        .map(|(n, v)| {
                            let b: Vec<u8> = v.as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(0) as u8).collect();
                            format!("== {n}\n{}\n", String::from_utf8_lossy(&b).escape_debug().to_string().replace("\\n", "\n"))
                        })
                        .collect::<String>()
                };
                let (w, g) = (format!("exit {}\n{}", i32::from(bad), plain(&want)), format!("exit {code}\n{}", plain(&got)));
                if !chk.expect_eq(name, || { let mut v = input(i); v["stderr"] = json!(err.chars().rev().take(600).collect::<String>().chars().rev().collect::<String>()); v }, &w, &g) {
                    return;
                }
                chk.outcome(if bad { "run fails" } else { "run succeeds" });
            }
        },
    );
}

fn run(chk: &Arc<Check>) {
    let d = chk.scratch_root().join("c24");
    let fixtures = Arc::new(vec![fixture(&d, false), fixture(&d, true)]);
    documents(chk, &fixtures);
    headers(chk, &fixtures);
    ids(chk, &fixtures);
    files(chk, &fixtures);
}
