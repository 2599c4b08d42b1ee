//! C13: which configuration and parameters a template is rendered with.
use harness::reg::{weaver, write_files};
use harness::*;
use serde_json::{json, Map, Value};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use weaver_forge::config::{Params, WeaverConfig};
use weaver_forge::file_loader::FileSystemFileLoader;
use weaver_forge::{OutputProcessor, OutputTarget};

pub const SPEC: Spec = Spec {
    id: "C13",
    level: "model_checking",
    rule: "Exhaustive over layerings of weaver.yaml: (P) params: 4 layers (home, two parents, target) x 6 states each x template-level params (4) x command-line params (4); \
           (O) every other option alone: 4 layers x 4 to 7 states each (syntax and whitespace per field, text maps, type mapping, comment formats, default comment format, acronyms, templates); \
           (X) 3 layers x every subset of 6 options; (E) explicit lists: all sequences of up to 3 of 4 files; (T) acronyms and text maps of .weaver.toml over weaver.yaml; (L) the same through the command line, with --config, --param and --params. \
           Oracle: last layer that states the option (parameters and syntax fields one by one, null removes a parameter), template over file, command line over all. Observed in what templates render. Non-trivial: two layers state something.",
    assumptions: &[],
    run,
};

const OPTIONS: [&str; 8] = ["text_maps", "type_mapping", "template_syntax", "whitespace_control", "comment_formats", "default_comment_format", "acronyms", "templates"];

/// States of one option in one file; null: the file does not state it.
fn states(option: &str) -> Vec<Value> {
    match option {
        "text_maps" => vec![json!(null), json!({}), json!({"m": {"x": "1"}}), json!({"m": {"y": "2"}}), json!({"n": {"x": "3"}})],
        "type_mapping" => vec![json!(null), json!({}), json!({"x": "1"}), json!({"y": "2"})],
        "template_syntax" => vec![
            json!(null),
            json!({"variable_start": "[[", "variable_end": "]]"}),
            json!({"variable_start": "<<", "variable_end": ">>"}),
            json!({"variable_start": "[["}),
            json!({"block_start": "<%", "block_end": "%>"}),
            json!({"comment_start": "<#", "comment_end": "#>", "block_end": "-%%"}),
            json!({}),
        ],
        "whitespace_control" => vec![json!(null), json!({"trim_blocks": true}), json!({"trim_blocks": false, "keep_trailing_newline": true}), json!({"lstrip_blocks": true}), json!({"lstrip_blocks": false, "keep_trailing_newline": false}), json!({})],
        "comment_formats" => vec![json!(null), json!({}), json!({"default": {"format": "markdown", "prefix": "// "}}), json!({"f": {"format": "markdown", "prefix": "# "}}), json!({"f": {"format": "html", "prefix": "* ", "header": "/*"}, "default": {"format": "markdown", "prefix": "-- "}})],
        "default_comment_format" => vec![json!(null), json!("f"), json!("default"), json!("none")],
        "acronyms" => vec![json!(null), json!([]), json!(["iOS"]), json!(["API", "IOS"])],
        _ => vec![
            json!(null),
            json!([{"template": "out.txt.j2", "application_mode": "single"}]),
            json!([{"pattern": "out.txt.j2", "application_mode": "single", "file_name": "named.txt"}]),
            json!([{"template": "other.j2", "application_mode": "single"}, {"template": "out.txt.j2", "application_mode": "single", "file_name": "d/out.md"}]),
        ],
    }
}

fn file(options: &[(&str, Value)]) -> Option<String> {
    let m: Map<String, Value> = options.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| ((*k).to_owned(), v.clone())).collect();
    (!m.is_empty()).then(|| Value::Object(m).to_string())
}

/// The options in effect: `layers` from the least to the most specific.
fn effective(layers: &[Map<String, Value>]) -> Map<String, Value> {
    let mut e = Map::new();
    for l in layers {
        for (k, v) in l.iter().filter(|(_, v)| !v.is_null()) {
            if ["template_syntax", "whitespace_control", "params"].contains(&k.as_str()) {
                let t = e.entry(k.clone()).or_insert_with(|| json!({}));
                for (f, x) in v.as_object().expect("object") {
                    t[f] = x.clone();
                }
            } else {
                let _ = e.insert(k.clone(), v.clone());
            }
        }
    }
    e
}

const WORDS: &str = "an ios api";

/// The template for a configuration and what it renders to.
fn template(e: &Map<String, Value>) -> (String, String) {
    let get = |o: &str, f: &str, d: &str| e.get(o).and_then(|x| x[f].as_str()).unwrap_or(d).to_owned();
    let flag = |f: &str| e.get("whitespace_control").is_some_and(|x| x[f] == json!(true));
    let (vs, ve) = (get("template_syntax", "variable_start", "{{"), get("template_syntax", "variable_end", "}}"));
    let (bs, be) = (get("template_syntax", "block_start", "{%"), get("template_syntax", "block_end", "%}"));
    let (cs, ce) = (get("template_syntax", "comment_start", "{#"), get("template_syntax", "comment_end", "#}"));
    let mut t = format!("V={vs} 'v' {ve}");
    let mut w = String::from("V=v");
    for (s, x) in [("{{", "}}"), ("[[", "]]"), ("<<", ">>")].into_iter().filter(|(s, _)| *s != vs) {
        t += &format!("|{s} 'v' {x}");
        w += &format!("|{s} 'v' {x}");
    }
    t += &format!("\nC={cs} c {ce}");
    w += "\nC=";
    for (s, x) in [("{#", "#}"), ("<#", "#>")].into_iter().filter(|(s, _)| *s != cs) {
        t += &format!("|{s} c {x}");
        w += &format!("|{s} c {x}");
    }
    t += &format!("|\nB={bs} if true {be}b{bs} endif {be}");
    w += "|\nB=b";
    for (s, x) in [("{%", "%}"), ("<%", "%>")].into_iter().filter(|(s, _)| *s != bs) {
        t += &format!("|{s} b {x}");
        w += &format!("|{s} b {x}");
    }
    t += &format!("|\nT={bs} set a = 1 {be}\nL=\n  {bs} set b = 1 {be}e\n");
    w += "|\nT=";
    w += if flag("trim_blocks") { "" } else { "\n" };
    w += "L=\n";
    w += if flag("lstrip_blocks") { "" } else { "  " };
    w += "e\n";
    for m in ["m", "n"] {
        for x in ["x", "y"] {
            t += &format!("{vs} '{x}' | map_text('{m}') {ve};{vs} '{x}' | map_text('{m}', 'no') {ve};");
            let r = e.get("text_maps").and_then(|l| l[m][x].as_str());
            w += &format!("{};{};", r.unwrap_or(x), r.unwrap_or("no"));
        }
    }
    t += &format!("\n{vs} 'x' | type_mapping {ve}{vs} 'y' | type_mapping {ve}\n");
    w += &format!("\n{}{}\n", get("type_mapping", "x", "x"), get("type_mapping", "y", "y"));
    t += &format!("{vs} '{WORDS}' | acronym {ve}\n");
    let ac: Vec<&str> = e.get("acronyms").and_then(|l| l.as_array()).map(|l| l.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
    let mapped: Vec<String> = WORDS.split(' ').map(|x| ac.iter().find(|a| a.to_lowercase() == x).map_or(x, |a| a).to_owned()).collect();
    w += &format!("{}\n", mapped.join(" "));
    let df = e.get("default_comment_format").and_then(|x| x.as_str()).unwrap_or("default").to_owned();
    for (arg, name) in [("", df.as_str()), ("(format='f')", "f"), ("(format='default')", "default")] {
        // a format nobody states is an error
        let f = e.get("comment_formats").map(|x| x[name].clone()).unwrap_or(Value::Null);
        if f.is_null() {
            continue;
        }
        t += &format!("{vs} 'hello' | comment{arg} {ve};");
        if let Some(h) = f["header"].as_str() {
            w += &format!("{h}\n");
        }
        let text = if f["format"] == json!("html") { "<p>hello</p>" } else { "hello" };
        w += &format!("{}{text};", f["prefix"].as_str().unwrap_or(""));
    }
    t += "\nend\n";
    w += "\nend";
    if flag("keep_trailing_newline") {
        w.push('\n');
    }
    (t, w)
}

/// Generated files and their content.
pub fn read_dir(d: &Path) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut todo = vec![d.to_path_buf()];
    while let Some(p) = todo.pop() {
        for e in std::fs::read_dir(&p).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else {
                out.push((p.strip_prefix(d).expect("below").display().to_string(), std::fs::read_to_string(&p).unwrap_or("?".into())));
            }
        }
    }
    out.sort();
    out
}

fn wanted_files(e: &Map<String, Value>, text: &str) -> Vec<(String, String)> {
    let mut l: Vec<(String, String)> = e
        .get("templates")
        .and_then(|t| t.as_array())
        .into_iter()
        .flatten()
        .map(|t| {
            let n = t["template"].as_str().or(t["pattern"].as_str()).unwrap_or("");
            (t["file_name"].as_str().unwrap_or(n.trim_end_matches(".j2")).to_owned(), if n == "other.j2" { "other".into() } else { text.to_owned() })
        })
        .collect();
    l.sort();
    l
}

fn generate(config: WeaverConfig, dir: &Path, target: &str, params: Params, context: &Value) -> Result<Vec<(String, String)>, String> {
    let out = dir.join("out");
    let _ = std::fs::remove_dir_all(&out);
    let loader = FileSystemFileLoader::try_new(dir.to_path_buf(), target).map_err(|e| e.to_string())?;
    let mut o = OutputProcessor::from_template_config(config, loader, params, OutputTarget::Directory(out.clone())).map_err(|e| e.to_string())?;
    o.generate(context).map_err(|e| e.to_string())?;
    Ok(read_dir(&out))
}

const LAYERS: [&str; 3] = ["", "t", "t/x"];

/// Writes the layers below `dir` (the home layer below `home`) and gives the configuration the target has.
fn layout(dir: &Path, home: &Path, layers: &[Option<String>; 4]) {
    let _ = std::fs::create_dir_all(dir.join("t/x"));
    let put = |p: PathBuf, c: &Option<String>| match c {
        Some(c) => write_files(p.parent().expect("parent"), &[(p.file_name().expect("name").to_string_lossy().into_owned(), c.clone())]),
        None => drop(std::fs::remove_file(&p)),
    };
    put(home.join(".weaver/weaver.yaml"), &layers[0]);
    for i in 0..3 {
        put(dir.join(LAYERS[i]).join("weaver.yaml"), &layers[i + 1]);
    }
}

fn render_case(chk: &Check, name: &str, dir: &Path, config: WeaverConfig, e: &Map<String, Value>, input: &Value) {
    let (t, w) = template(e);
    write_files(&dir.join("t/x"), &[("out.txt.j2".into(), t), ("other.j2".into(), "other".into())]);
    let want = wanted_files(e, &w);
    let got = guarded(|| generate(config, dir, "t/x", Params::default(), &json!({"a": 1})));
    let got = match got {
        Ok(Ok(l)) => format!("{l:?}"),
        Ok(Err(x)) | Err(x) => format!("error: {x}"),
    };
    let _ = chk.expect_eq(name, || input.clone(), &format!("{want:?}"), &got);
}

const TEMPLATES: &str = "templates";

fn as_map(l: &[(&str, Value)]) -> Map<String, Value> {
    l.iter().map(|(k, v)| ((*k).to_owned(), v.clone())).collect()
}

fn options(chk: &Arc<Check>, home: &Path) {
    for option in OPTIONS {
        let st = states(option);
        let fixed = json!([{"template": "out.txt.j2", "application_mode": "single"}]);
        for h in 0..st.len() {
            // the home layer is the same for all threads
            let base = |v: &Value, layer: usize| -> Vec<(&str, Value)> {
                let mut l = vec![(option, v.clone())];
                // the templates themselves are stated by the first parent
                if option != TEMPLATES && layer == 1 {
                    l.push((TEMPLATES, fixed.clone()));
                }
                // a format that is named shows which one is in effect
                if option == "default_comment_format" && layer == 1 {
                    l.push(("comment_formats", states("comment_formats")[4].clone()));
                }
                l
            };
            layout(&chk.scratch(), home, &[file(&base(&st[h], 0)), None, None, None]);
            let n = st.len();
            let base = &base;
            let st = &st;
            chk.par(product(&[n, n, n]), |x| format!("O-{option}-{h}-{}-{}-{}", x[0], x[1], x[2]), |chk, name, x| {
                let layers: Vec<Vec<(&str, Value)>> = [h, x[0], x[1], x[2]].iter().enumerate().map(|(i, s)| base(&st[*s], i)).collect();
                let dir = chk.scratch().join("w");
                let files = [None, file(&layers[1]), file(&layers[2]), file(&layers[3])];
                for i in 0..3 {
                    let p = dir.join(LAYERS[i]);
                    let _ = std::fs::create_dir_all(&p);
                    match &files[i + 1] {
                        Some(c) => std::fs::write(p.join("weaver.yaml"), c).expect("write"),
                        None => drop(std::fs::remove_file(p.join("weaver.yaml"))),
                    }
                }
                let maps: Vec<Map<String, Value>> = layers.iter().map(|l| as_map(l)).collect();
                let e = effective(&maps);
                let input = json!({"home": maps[0], "files": &maps[1..]});
                chk.eval(name, maps.iter().filter(|m| m.get(option).is_some_and(|v| !v.is_null())).count() > 1);
                chk.outcome(option);
                match WeaverConfig::try_from_path(dir.join("t/x")) {
                    Ok(c) => render_case(chk, name, &dir, c, &e, &input),
                    Err(e) => chk.violation(name, name, input, "a configuration", &e.to_string()),
                }
            });
        }
    }
}

/// Explicit lists of files.
fn explicit(chk: &Arc<Check>) {
    let pool: Vec<Map<String, Value>> = (0..4)
        .map(|i| {
            let mut m: Map<String, Value> = OPTIONS.iter().enumerate().map(|(k, o)| ((*o).to_owned(), states(o)[if (i + k) % 3 == 0 { 0 } else { 1 + (i + k) % (states(o).len() - 1) }].clone())).collect();
            if i == 3 {
                m.retain(|k, _| k.len() % 2 == 0);
            }
            m
        })
        .collect();
    let dir = chk.fresh("lists");
    let mut seqs: Vec<Vec<usize>> = vec![];
    for n in 1..=3 {
        seqs.extend(product(&vec![4; n]));
    }
    let paths: Vec<PathBuf> = pool
        .iter()
        .enumerate()
        .map(|(i, m)| {
            let p = dir.join(format!("c{i}.yaml"));
            std::fs::write(&p, file(&m.iter().map(|(k, v)| (k.as_str(), v.clone())).collect::<Vec<_>>()).unwrap_or("{}".into())).expect("write");
            p
        })
        .collect();
    let (pool, paths) = (&pool, &paths);
    chk.par(seqs.into_iter(), |s| format!("E-{s:?}"), |chk, name, s| {
        let d = chk.fresh("w");
        // a file of the target that an explicit list leaves out
        write_files(&d.join("t/x"), &[("weaver.yaml".into(), "acronyms: [NOT]\nparams: {p: no}\n".into())]);
        let l: Vec<&PathBuf> = s.iter().map(|i| &paths[*i]).collect();
        let maps: Vec<Map<String, Value>> = s.iter().map(|i| pool[*i].clone()).collect();
        let e = effective(&maps);
        chk.eval(name, s.len() > 1);
        chk.outcome("explicit");
        match WeaverConfig::try_from_config_files(&l) {
            Ok(c) => render_case(chk, name, &d, c, &e, &json!(maps)),
            Err(x) => chk.violation(name, name, json!(maps), "a configuration", &x.to_string()),
        }
    });
}

/// Several options stated by several layers.
fn crossed(chk: &Arc<Check>, home: &Path) {
    layout(&chk.scratch(), home, &[None, None, None, None]);
    let opts = ["text_maps", "template_syntax", "whitespace_control", "comment_formats", "acronyms", "templates"];
    let k = if chk.thorough() { 64 } else { 24 };
    let sub = |x: usize, layer: usize| -> Map<String, Value> {
        let bits = if k == 64 { x } else { (x * 29 + layer * 11) % 64 };
        opts.iter()
            .enumerate()
            .filter(|(i, o)| bits >> i & 1 == 1 || (**o == TEMPLATES && layer == 0))
            .map(|(_, o)| {
                let st = states(o);
                ((*o).to_owned(), st[1 + (layer * 2 + 1) % (st.len() - 1)].clone())
            })
            .collect()
    };
    let sub = &sub;
    chk.par(product(&[k, k, k]), |x| format!("X-{}-{}-{}", x[0], x[1], x[2]), |chk, name, x| {
        let maps: Vec<Map<String, Value>> = (0..3).map(|i| sub(x[i], i)).collect();
        let d = chk.scratch().join("w");
        for i in 0..3 {
            let p = d.join(LAYERS[i]);
            let _ = std::fs::create_dir_all(&p);
            match file(&maps[i].iter().map(|(k, v)| (k.as_str(), v.clone())).collect::<Vec<_>>()) {
                Some(c) => std::fs::write(p.join("weaver.yaml"), c).expect("write"),
                None => drop(std::fs::remove_file(p.join("weaver.yaml"))),
            }
        }
        chk.eval(name, true);
        chk.outcome("crossed");
        match WeaverConfig::try_from_path(d.join("t/x")) {
            Ok(c) => render_case(chk, name, &d, c, &effective(&maps), &json!(maps)),
            Err(x) => chk.violation(name, name, json!(maps), "a configuration", &x.to_string()),
        }
    });
}

const SHOW: &str = "{% for k in params %}{% if k != 'params' and params[k] is not none %}{{ k }}={{ params[k] | tojson }};{% endif %}{% endfor %}#{% for k in ['p','q','r'] %}{% if ctx.all[k] is not none and ctx.all[k] is defined %}{{ k }}={{ ctx.all[k] | tojson }};{% endif %}{% endfor %}";

fn shown(m: &Map<String, Value>) -> String {
    let one: String = m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| format!("{k}={v};")).collect();
    format!("{one}#{one}")
}

fn merged(layers: &[&Value], template: &Value, cli: &Value) -> Map<String, Value> {
    let mut m = Map::new();
    for l in layers.iter().chain([&template, &cli]) {
        for (k, v) in l.as_object().into_iter().flatten() {
            let _ = m.insert(k.clone(), v.clone());
        }
    }
    m.retain(|_, v| !v.is_null());
    m
}

fn param_states() -> Vec<Value> {
    vec![json!(null), json!({}), json!({"p": 1}), json!({"p": null}), json!({"p": [1, {"z": "é"}], "q": false}), json!({"q": null, "r": "s"})]
}
fn template_params() -> Vec<Value> {
    vec![json!(null), json!({"p": "t"}), json!({"p": null, "q": 0}), json!({"q": "t", "r": {"a": 1}})]
}
fn cli_params() -> Vec<Value> {
    vec![json!({}), json!({"p": "c"}), json!({"p": null, "r": true}), json!({"q": "", "r": 1.5})]
}

fn params(chk: &Arc<Check>, home: &Path) {
    let st = param_states();
    for (h, hv) in st.iter().enumerate() {
        layout(&chk.scratch(), home, &[file(&[("params", hv.clone())]), None, None, None]);
        let st = &st;
        chk.par(product(&[6, 6, 6]), |x| format!("P-{h}-{}-{}-{}", x[0], x[1], x[2]), |chk, name, x| {
            let d = chk.fresh("w");
            let l = [&st[x[0]], &st[x[1]], &st[x[2]]];
            for (t, tp) in template_params().iter().enumerate() {
                let mut tc = json!({"template": "out.txt.j2", "application_mode": "single", "filter": "{all: $params}"});
                if !tp.is_null() {
                    tc["params"] = tp.clone();
                }
                layout_params(&d, &l, &tc);
                for (c, cp) in cli_params().iter().enumerate() {
                    chk.eval(&(h, &x, t, c), x.iter().filter(|i| **i > 1).count() > 1);
                    chk.outcome("params");
                    let want = shown(&merged(&[&st[h], l[0], l[1], l[2]], tp, cp));
                    let p: Vec<(&str, serde_yaml::Value)> = cp.as_object().expect("object").iter().map(|(k, v)| (k.as_str(), serde_yaml::to_value(v).expect("yaml"))).collect();
                    let got = guarded(|| {
                        let c = WeaverConfig::try_from_path(d.join("t/x")).map_err(|e| e.to_string())?;
                        generate(c, &d, "t/x", Params::from_key_value_pairs(&p), &json!({}))
                    });
                    let got = match got {
                        Ok(Ok(l)) => format!("{l:?}"),
                        Ok(Err(x)) | Err(x) => format!("error: {x}"),
                    };
                    if !chk.expect_eq(name, || json!({"home": st[h], "files": l, "template": tp, "cli": cp}), &format!("{:?}", vec![("out.txt", want)]), &got) {
                        return;
                    }
                }
            }
        });
    }
}

fn layout_params(d: &Path, l: &[&Value; 3], tc: &Value) {
    for i in 0..3 {
        let mut o = vec![("params", l[i].clone())];
        if i == 2 {
            o.push((TEMPLATES, json!([tc])));
        }
        let p = d.join(LAYERS[i]);
        let _ = std::fs::create_dir_all(&p);
        match file(&o) {
            Some(c) => std::fs::write(p.join("weaver.yaml"), c).expect("write"),
            None => drop(std::fs::remove_file(p.join("weaver.yaml"))),
        }
    }
    std::fs::write(d.join("t/x/out.txt.j2"), SHOW).expect("write");
}

/// The project file's acronyms and text maps over those of the template package.
fn project(chk: &Arc<Check>) {
    let ac: Vec<Option<Vec<&str>>> = vec![None, Some(vec![]), Some(vec!["iOS"]), Some(vec!["IOS", "Api"]), Some(vec!["API"])];
    let tm = states("text_maps");
    chk.par(product(&[ac.len(), ac.len(), tm.len(), tm.len()]), |x| format!("T-{x:?}"), |chk, name, x| {
        let d = chk.fresh("w");
        let base = as_map(&[("acronyms", json!(ac[x[0]])), ("text_maps", tm[x[2]].clone()), (TEMPLATES, states(TEMPLATES)[1].clone())]);
        write_files(&d.join("t/x"), &[("weaver.yaml".into(), file(&base.iter().map(|(k, v)| (k.as_str(), v.clone())).collect::<Vec<_>>()).expect("file"))]);
        let mut e = base.clone();
        if let Some(inc) = &ac[x[1]] {
            let mut l: Vec<String> = ac[x[0]].iter().flatten().map(|s| (*s).to_owned()).filter(|a| !inc.iter().any(|b| a.eq_ignore_ascii_case(b))).collect();
            l.extend(inc.iter().map(|s| (*s).to_owned()));
            let _ = e.insert("acronyms".into(), json!(l));
        }
        if !tm[x[3]].is_null() {
            let mut t = base.get("text_maps").and_then(|t| t.as_object().cloned()).unwrap_or_default();
            t.extend(tm[x[3]].as_object().cloned().unwrap_or_default());
            let _ = e.insert("text_maps".into(), json!(t));
        }
        chk.eval(name, x[1] > 1 || x[3] > 1);
        chk.outcome("project");
        let input = json!({"weaver.yaml": base, "acronyms": ac[x[1]], "text_maps": tm[x[3]]});
        match WeaverConfig::try_from_path(d.join("t/x")) {
            Ok(mut c) => {
                c.merge_acronyms(ac[x[1]].as_ref().map(|l| l.iter().map(|s| (*s).to_owned()).collect()));
                c.merge_text_maps(if tm[x[3]].is_null() { None } else { serde_json::from_value(tm[x[3]].clone()).ok() });
                render_case(chk, name, &d, c, &e, &input)
            }
            Err(x) => chk.violation(name, name, input, "a configuration", &x.to_string()),
        }
    });
}

/// The same through the command.
fn command(chk: &Arc<Check>) {
    let (st, tp, cp) = (param_states(), template_params(), cli_params());
    // (home, parent, target, template, --params file, --param)
    let items: Vec<Vec<usize>> = if chk.thorough() {
        product(&[2, 3, 3, 2, 3, 3]).collect()
    } else {
        product(&[2, 3, 3, 2, 3, 3]).filter(|x| x.iter().sum::<usize>() % 5 < 2).collect()
    };
    chk.par(items.into_iter(), |x| format!("L-{x:?}"), |chk, name, x| {
        let d = chk.fresh("w");
        let home = d.join("home");
        let pick = |i: usize| [&st[2], &st[4], &st[5]][i];
        let hv = [&st[0], &st[4]][x[0]];
        let mut tc = json!({"template": "out.txt.j2", "application_mode": "single", "filter": "{all: $params}"});
        let tpl = &tp[x[3] * 2];
        if !tpl.is_null() {
            tc["params"] = tpl.clone();
        }
        let (a, b) = (pick(x[1]), pick(x[2]));
        let f = |o: &[(&str, Value)]| file(o).unwrap_or("{}".into());
        let mut files = vec![
            ("reg/r.yaml".to_owned(), json!({"groups": [{"id": "registry.a", "type": "attribute_group", "brief": "b", "attributes": [{"id": "a.b", "type": "string", "brief": "b", "stability": "stable", "examples": ["e"]}]}]}).to_string()),
            ("templates/registry/x/out.txt.j2".to_owned(), SHOW.to_owned()),
            ("params.yaml".to_owned(), json!({"params": cp[x[4]]}).to_string()),
        ];
        if !hv.is_null() {
            files.push(("home/.weaver/weaver.yaml".into(), f(&[("params", hv.clone())])));
        }
        files.push(("templates/weaver.yaml".into(), f(&[("params", a.clone())])));
        files.push(("templates/registry/x/weaver.yaml".into(), f(&[("params", b.clone()), (TEMPLATES, json!([tc]))])));
        write_files(&d, &files);
        let _ = std::fs::create_dir_all(&home);
        let abs = |s: &str| d.join(s).display().to_string();
        let (reg, tdir, out) = (abs("reg"), abs("templates"), abs("out"));
        let mut args: Vec<String> = vec!["registry".into(), "generate".into(), "-r".into(), reg, "-t".into(), tdir, "x".into(), out];
        if x[4] > 0 {
            args.extend(["--params".into(), abs("params.yaml")]);
        }
        // the second and third choice; the first is no --param
        let direct = [json!({}), cp[1].clone(), cp[2].clone()][x[5]].clone();
        for (k, v) in direct.as_object().expect("object") {
            args.extend(["--param".into(), format!("{k}={v}")]);
        }
        let args: Vec<&str> = args.iter().map(String::as_str).collect();
        let (code, _, err) = weaver(&args, &home);
        let cli = {
            let mut m = cp[x[4]].as_object().cloned().expect("object");
            if x[4] == 0 {
                m.clear();
            }
            m.extend(direct.as_object().cloned().expect("object"));
            Value::Object(m)
        };
        let want = shown(&merged(&[hv, a, b], tpl, &cli));
        let got = read_dir(&d.join("out"));
        chk.eval(name, true);
        chk.add_traces(1);
        chk.outcome("command");
        let input = json!({"home": hv, "files": [a, b], "template": tpl, "--params": cp[x[4]], "--param": direct});
        let _ = chk.expect_eq(name, || input, &format!("0 {:?}", vec![("out.txt", want)]), &format!("{code} {got:?}{}", if code == 0 { "" } else { &err }));
    });
}

/// `registry generate` has a `--config` of its own next to the one of all commands.
fn config_option(chk: &Arc<Check>) {
    for (name, toml, want) in [("K-weaver-yaml", false, "2"), ("K-project", true, "1")] {
        if !chk.wants(name) {
            continue;
        }
        let d = chk.fresh(name);
        let t = |p: u8| file(&[("params", json!({"p": p})), (TEMPLATES, json!([{"template": "out.txt.j2", "application_mode": "single", "filter": "."}]))]).unwrap_or_default();
        write_files(
            &d,
            &[
                ("reg/r.yaml".into(), json!({"groups": []}).to_string()),
                ("templates/x/weaver.yaml".into(), t(1)),
                ("templates/x/out.txt.j2".into(), "{{ params.p }}".into()),
                ("other.yaml".into(), t(2)),
                ("project.toml".into(), "\n".into()),
                ("home/.keep".into(), String::new()),
            ],
        );
        let abs = |s: &str| d.join(s).display().to_string();
        let (reg, tdir, out, yaml, project) = (abs("reg"), abs("templates"), abs("out"), abs("other.yaml"), abs("project.toml"));
        let mut args = vec!["registry", "generate", "-r", &reg, "-t", &tdir, "x", &out];
        if toml {
            args.splice(0..0, ["--config", &project]);
        } else {
            args.extend(["--config", &yaml]);
        }
        let (code, so, se) = weaver(&args, &d.join("home"));
        let got = format!("{code} {:?}", read_dir(&d.join("out")));
        chk.eval(name, true);
        chk.add_traces(1);
        let want = format!("0 {:?}", vec![("out.txt", want)]);
        if got != want {
            // what is known: one value is read as both files
            let kind = match toml {
                false if se.contains("TOML") => "read as the project file",
                true if got == "0 []" => "read as weaver.yaml",
                _ => "other",
            };
            chk.violation(name, &format!("{name}: {kind}"), json!({"args": args}), &want, &format!("{got} {so} {se}"));
        }
    }
}

fn run(chk: &Arc<Check>) {
    let home = chk.fresh("home");
    // the only variable this process sets; no other thread runs yet
    std::env::set_var("HOME", &home);
    params(chk, &home);
    options(chk, &home);
    crossed(chk, &home);
    layout(&chk.scratch(), &home, &[None, None, None, None]);
    explicit(chk);
    project(chk);
    command(chk);
    config_option(chk);
}
