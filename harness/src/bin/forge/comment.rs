//! C16: what the comment filter does to a text.
use harness::reg::write_files;
use harness::*;
use markdown::mdast::Node;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;
use weaver_forge::config::{Params, WeaverConfig};
use weaver_forge::file_loader::FileSystemFileLoader;
use weaver_forge::{OutputProcessor, OutputTarget};

pub const SPEC: Spec = Spec {
    id: "C16",
    level: "model_checking",
    rule: "Exhaustive over comments rendered by a template: (D) every document of up to 2 (thorough 3) of 19 blocks (paragraphs with code, bold, emphasis, links; nested, ordered lists; headings; code blocks; quotes) x 12 formats; (F) texts x header x prefix x footer x indent x indent type x trim x trailing-dot options, each from the configuration or overridden by an argument; (W) every sequence of up to 4 (thorough 5) inline elements, words or spans, separated by spaces or newlines, in a paragraph or an item of a list x line lengths 0..=30 x formats x where the length comes from; (E) every text of up to 5 (7) letters, backslashes and brackets x the escape options. \
           Oracle: a markdown comment parses to the document of the text (in CommonMark, white space apart); an html comment is the document's html under the options; every line after an optional header and before an optional footer is indentation, prefix, text; wrapping moves only white space, leaves no line above its limit that could be broken, and breaks none that need not be. Non-trivial: more than one line.",
    assumptions: &["white space inside paragraphs, and blank lines, carry no meaning", "adjacent bullet lists are one list; Go's style of indentation is for lists of one level", "a wrapped line may exceed its limit by the one space before its last element (pinned by the repository's tests)"],
    run,
};

// ---------------------------------------------------------------- rendering

fn processor(dir: &Path, formats: &Value, template: &str) -> Result<OutputProcessor, String> {
    let config = json!({"templates": [{"template": "t.j2", "filter": ".", "application_mode": "single"}], "comment_formats": formats, "default_comment_format": "default", "whitespace_control": {"trim_blocks": false, "lstrip_blocks": false, "keep_trailing_newline": true}});
    write_files(dir, &[("tpl/t/t.j2".into(), template.to_owned()), ("tpl/t/weaver.yaml".into(), config.to_string())]);
    let config = WeaverConfig::try_from_config_files(&[dir.join("tpl/t/weaver.yaml")]).map_err(|e| e.to_string())?;
    let loader = FileSystemFileLoader::try_new(dir.join("tpl"), "t").map_err(|e| e.to_string())?;
    OutputProcessor::from_template_config(config, loader, Params::default(), OutputTarget::Directory(dir.join("out"))).map_err(|e| e.to_string())
}

/// The comments of many (text, arguments), or of each why there is none.
fn comments(dir: &Path, formats: &Value, cases: &[(Value, Value)]) -> Vec<Result<String, String>> {
    let template = "{% for c in ctx %}\u{1}{{ c.t | comment(**c.a) }}\u{2}{% endfor %}";
    let render = |cases: &[(Value, Value)]| -> Result<Vec<String>, String> {
        let ctx = Value::Array(cases.iter().map(|(t, a)| json!({"t": t, "a": a})).collect());
        let text = guarded(|| processor(dir, formats, template).and_then(|p| p.generate_to_string(&ctx).map_err(|e| e.to_string()))).and_then(|r| r)?;
        let out: Vec<String> = text.split('\u{1}').skip(1).map(|x| x.split('\u{2}').next().unwrap_or_default().to_owned()).collect();
        if out.len() == cases.len() { Ok(out) } else { Err(format!("{} comments of {}: {text}", out.len(), cases.len())) }
    };
    match render(cases) {
        Ok(l) => l.into_iter().map(Ok).collect(),
        Err(_) => cases.iter().map(|c| render(std::slice::from_ref(c)).map(|mut l| l.remove(0))).collect(),
    }
}

// ---------------------------------------------------------------- documents

fn ws(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if c.is_whitespace() {
            if !out.ends_with(' ') {
                out.push(' ');
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// What a markdown document says: kinds of nodes and texts, links resolved.
fn tree(text: &str, language: &str) -> String {
    fn definitions(n: &Node, into: &mut BTreeMap<String, String>) {
        if let Node::Definition(d) = n {
            let _ = into.insert(d.identifier.to_lowercase(), d.url.clone());
        }
        for c in n.children().into_iter().flatten() {
            definitions(c, into);
        }
    }
    fn inner(n: &Node, defs: &BTreeMap<String, String>, language: &str) -> String {
        let mut out = String::new();
        for c in n.children().into_iter().flatten() {
            out += &dump(c, defs, language);
        }
        out
    }
    fn dump(n: &Node, defs: &BTreeMap<String, String>, language: &str) -> String {
        let inside = inner(n, defs, language);
        match n {
            Node::Root(_) => inside,
            Node::Text(t) => ws(&t.value),
            Node::Paragraph(_) => format!("<p>{}</p>\n", inside.trim()),
            Node::List(l) => format!("<list {} {:?}>{inside}</list>\n", l.ordered, l.start),
            Node::ListItem(_) => format!("<item>{inside}</item>\n"),
            Node::InlineCode(c) => format!("<c>{}</c>", ws(&c.value)),
            Node::Code(c) => format!("<code {}>{}</code>\n", c.lang.as_deref().unwrap_or(language), c.value),
            Node::Blockquote(_) => format!("<quote>{inside}</quote>\n"),
            Node::Link(l) => format!("<link {}>{inside}</link>", l.url),
            Node::LinkReference(l) => format!("<link {}>{inside}</link>", defs.get(&l.identifier.to_lowercase()).map(String::as_str).unwrap_or("?")),
            Node::Strong(_) => format!("<b>{inside}</b>"),
            Node::Emphasis(_) => format!("<i>{inside}</i>"),
            Node::Heading(h) => format!("<h{}>{}</h>\n", h.depth, inside.trim()),
            Node::Definition(_) => String::new(),
            other => format!("<other {other:?}>"),
        }
    }
    match markdown::to_mdast(text, &markdown::ParseOptions::default()) {
        Ok(n) => {
            let mut defs = BTreeMap::new();
            definitions(&n, &mut defs);
            // Markers of lists are all the same in a comment: adjacent lists are one.
            dump(&n, &defs, language).replace("</list>\n<list false None>", "")
        }
        Err(e) => format!("not markdown: {e}"),
    }
}

struct Html {
    old: bool,
    omit: bool,
    inline: &'static str,
    block: &'static str,
}

/// The html of a markdown document, white space apart.
fn html(text: &str, o: &Html) -> String {
    fn all(nodes: &[Node], o: &Html, paragraphs: bool) -> String {
        let mut out = String::new();
        // Old style: a lone <p> parts a paragraph from the paragraph, list or quote before it.
        let mut part = false;
        for n in nodes {
            if part {
                let tag = matches!(n, Node::Paragraph(p) if matches!(p.children.first(), Some(Node::Text(t)) if t.value.starts_with('@')));
                out += if tag { " " } else if matches!(n, Node::Paragraph(_)) { "<p>" } else { "" };
            }
            part = o.old && (matches!(n, Node::Paragraph(_)) && paragraphs || matches!(n, Node::List(_) | Node::Blockquote(_)));
            out += &one(n, o, paragraphs);
        }
        out
    }
    fn one(n: &Node, o: &Html, paragraphs: bool) -> String {
        let inside = |p: bool| all(n.children().map(Vec::as_slice).unwrap_or_default(), o, p);
        match n {
            Node::Text(t) => t.value.clone(),
            Node::Paragraph(_) if paragraphs && !o.old => format!("<p>{}</p>", inside(true)),
            Node::Root(_) | Node::Paragraph(_) => inside(true),
            Node::List(l) => format!("<{0}>{1}</{0}>", if l.ordered { "ol" } else { "ul" }, inside(true)),
            // The first paragraph of an item has no tags.
            Node::ListItem(i) => format!("<li>{}{}", i.children.iter().enumerate().map(|(i, c)| format!("{}{}", if i > 0 && o.old && matches!(c, Node::Paragraph(_)) { "<p>" } else { "" }, one(c, o, i > 0))).collect::<String>(), if o.omit { "" } else { "</li>" }),
            Node::InlineCode(c) => o.inline.replace("{{code}}", &c.value),
            Node::Code(c) => o.block.replace("{{code}}", &c.value),
            Node::Blockquote(_) => format!("<blockquote>{}</blockquote>", inside(true)),
            Node::Link(l) => format!("<a href=\"{}\">{}</a>", l.url, inside(true)),
            Node::Strong(_) => format!("<strong>{}</strong>", inside(true)),
            Node::Emphasis(_) => format!("<em>{}</em>", inside(true)),
            Node::Heading(h) => format!("<h{0}>{1}</h{0}>", h.depth, inside(true)),
            other => format!("<other {other:?}>"),
        }
    }
    match markdown::to_mdast(text, &markdown::ParseOptions::default()) {
        Ok(n) => tags(&one(&n, o, true)),
        Err(e) => e.to_string(),
    }
}

/// White space collapsed, and dropped around tags.
fn tags(s: &str) -> String {
    let s = ws(s).replace("> ", ">").replace(" <", "<");
    s.trim().to_owned()
}

fn blocks() -> Vec<&'static str> {
    vec![
        "aa bb",
        "cc\ndd `e f` gg",
        "hh **i j** kk *l* mm",
        "[n o](http://p.q) rr, `ss`, tt",
        "- s\n- t u\n- v",
        "1. w\n1. x y",
        "## Z z",
        "```\ncode  c\n  d\n```",
        "```rust\nlet a;\n```",
        "> q1 q2\n> q3",
        "> r1 `r2` r3\n>\n> r4",
        "- n1\n  - n2 n3\n  - n4\n- n5",
        "1. o1\n   - o2\n2. o3 [o4](http://o5)",
        "1. x1\n   1. x2\n   2. x3\n2. x4",
        "@author me",
        "- p1\n\n  p2 `p3`\n- p4",
        "- k1\n\n  ```\n  k2\n    k3\n  ```\n- k4",
        "3. y1\n4. y2",
        "* i1\n  i2 `i3`\n* **i4** i5",
    ]
}

const HTMLS: [(&str, Html); 4] = [
    ("h0", Html { old: false, omit: false, inline: "<c>{{code}}</c>", block: "<pre>\n{{code}}\n</pre>" }),
    ("h1", Html { old: true, omit: true, inline: "{@code {{code}}}", block: "<pre>{@code {{code}}}</pre>" }),
    ("h2", Html { old: true, omit: false, inline: "<c>{{code}}</c>", block: "<pre>\n{{code}}\n</pre>" }),
    ("h3", Html { old: false, omit: true, inline: "{{code}}", block: "{{code}}" }),
];

fn formats() -> Value {
    let mut m = Map::new();
    for (name, h) in &HTMLS {
        let mut f = json!({"format": "html", "prefix": " * ", "trim": true});
        if h.old {
            f["old_style_paragraph"] = json!(true);
        }
        if h.omit {
            f["omit_closing_li"] = json!(true);
        }
        if *name != "h0" && *name != "h2" {
            f["inline_code_snippet"] = json!(h.inline);
            f["block_code_snippet"] = json!(h.block);
        }
        let _ = m.insert((*name).to_owned(), f);
    }
    for i in 0..8 {
        let mut f = json!({"format": "markdown", "prefix": "// "});
        if i & 1 > 0 {
            f["indent_first_level_list_items"] = json!(true);
        }
        if i & 2 > 0 {
            f["shortcut_reference_link"] = json!(true);
        }
        if i & 4 > 0 {
            f["default_block_code_language"] = json!("txt");
            f["use_go_style_list_indent"] = json!(true);
        }
        let _ = m.insert(format!("m{i}"), f);
    }
    Value::Object(m)
}

/// The text of a comment whose lines have a prefix; None: a line has not.
fn unframe(comment: &str, prefix: &str) -> Option<String> {
    let mut out = String::new();
    for l in comment.lines() {
        out += match l.strip_prefix(prefix) {
            Some(x) => x,
            None if l == prefix.trim_end() => "",
            None => return None,
        };
        out.push('\n');
    }
    Some(out)
}

fn documents(chk: &Arc<Check>) {
    let b = blocks();
    let most = if chk.thorough() { 3 } else { 2 };
    let mut docs: Vec<Vec<usize>> = Vec::new();
    for n in 1..=most {
        docs.extend(product(&vec![b.len(); n]));
    }
    let formats = formats();
    let names: Vec<String> = formats.as_object().unwrap().keys().cloned().collect();
    let chunks: Vec<Vec<Vec<usize>>> = docs.chunks(40).map(<[_]>::to_vec).collect();
    chk.par(chunks.into_iter(), |c| format!("D-{}", c[0].iter().map(ToString::to_string).collect::<Vec<_>>().join("_")), |chk, name, chunk| {
        let dir = chk.scratch();
        let mut cases = Vec::new();
        for d in &chunk {
            let text = d.iter().map(|i| b[*i]).collect::<Vec<_>>().join("\n\n");
            for f in &names {
                // Go's style of indentation has one level.
                if f.starts_with('m') && f.as_bytes()[1] >= b'4' && d.iter().any(|i| b[*i].contains("\n   1.")) {
                    continue;
                }
                cases.push((json!(text), json!({"format": f})));
                cases.push((json!(text), json!({"format": f, "line_length": 24})));
                cases.push((json!(text), json!({"format": f, "line_length": 60})));
            }
        }
        for ((t, a), got) in cases.iter().zip(comments(&dir, &formats, &cases)) {
            let (text, f) = (t.as_str().unwrap(), a["format"].as_str().unwrap());
            chk.add_transitions(1);
            chk.eval(&(text, a.to_string()), got.as_ref().is_ok_and(|g| g.contains('\n')));
            let h = HTMLS.iter().find(|h| h.0 == f);
            let language = if h.is_none() && (f.as_bytes()[1] - b'0') & 4 > 0 { "txt" } else { "" };
            let (want, said) = match (h, &got) {
                (_, Err(e)) => ("a comment".to_owned(), e.clone()),
                (Some((_, o)), Ok(g)) => (html(text, o), unframe(g, " * ").map(|x| tags(&x)).unwrap_or_else(|| format!("no prefix: {g}"))),
                (None, Ok(g)) => (tree(text, language), unframe(g, "// ").map(|x| tree(&x, "")).unwrap_or_else(|| format!("no prefix: {g}"))),
            };
            // Wrapped, an element may part from the comma after it.
            let wrapped = a.get("line_length").is_some();
            let apart = |s: String| if !wrapped { s } else if h.is_some() { s.replace(' ', "") } else { s.replace(" ,", ",") };
            let (want, said) = (apart(want), apart(said));
            chk.outcome(if h.is_some() { "html" } else { "markdown" });
            chk.sample(|| json!({"text": text, "format": f, "comment": got.clone().unwrap_or_default()}));
            if !chk.expect_eq(name, || json!({"text": text, "arguments": a, "format": formats[f], "comment": got.clone().unwrap_or_else(|e| e)}), &want, &said) {
                return;
            }
        }
    });
}

// ---------------------------------------------------------------- framing

/// Texts with the lines of their rendering. Null: undefined.
fn texts() -> Vec<(Value, Vec<&'static str>)> {
    vec![
        (json!("a b"), vec!["a b"]),
        (json!("a."), vec!["a."]),
        (json!("a\n\nb c.."), vec!["a", "", "b c.."]),
        (json!(["x.", "", "y"]), vec!["x.", "", "y"]),
        (json!("  a, b  \n\n"), vec!["a, b"]),
        (json!(""), vec![]),
        (json!("."), vec!["."]),
        (json!(7.5), vec!["7.5"]),
    ]
}

const DOTS: [&str; 3] = ["", "remove_trailing_dots", "enforce_trailing_dots"];

fn framed(lines: &[&str], header: &str, prefix: &str, footer: &str, indent: &str, trim: bool, dots: usize) -> String {
    let mut text = lines.join("\n");
    match dots {
        1 => text = text.trim_end_matches('.').to_owned(),
        2 if !text.is_empty() && !text.ends_with('.') => text.push('.'),
        _ => {}
    }
    let mut out: Vec<String> = Vec::new();
    if !header.is_empty() {
        out.push(header.to_owned());
    }
    for l in text.lines() {
        // What stands before the first line is the template's.
        let l = format!("{}{prefix}{l}", if out.is_empty() { "" } else { indent });
        out.push(if trim { l.trim_end().to_owned() } else { l });
    }
    let mut all = out.join("\n").trim_end().to_owned();
    if !footer.is_empty() {
        all = format!("{all}\n{indent}{footer}");
    }
    all.trim_end().to_owned()
}

fn framing(chk: &Arc<Check>) {
    // Configuration: header, prefix, footer, indent type; trim; dots.
    let mut formats = Map::new();
    for x in product(&[2, 2, 2, 3, 3, 3]) {
        let mut f = json!({"format": "markdown"});
        for (i, (k, v)) in [("header", "/**"), ("prefix", " * "), ("footer", " */")].iter().enumerate() {
            if x[i] == 1 {
                f[*k] = json!(v);
            }
        }
        if x[3] > 0 {
            f["indent_type"] = json!(["", "tab", "space"][x[3]]);
        }
        if x[4] > 0 {
            f["trim"] = json!(x[4] == 1);
        }
        if x[5] > 0 {
            f[DOTS[x[5]]] = json!(true);
        }
        let _ = formats.insert(format!("f{}", x.iter().map(ToString::to_string).collect::<String>()), f);
    }
    let all = Arc::new(formats);
    let names: Vec<String> = all.keys().cloned().collect();
    chk.par(names.into_iter(), |f| format!("F-{f}"), |chk, name, f| {
        let dir = chk.scratch();
        let mut formats = Map::new();
        let _ = formats.insert(f.clone(), all[&f].clone());
        let formats = Value::Object(formats);
        let c: Vec<usize> = f.bytes().skip(1).map(|b| usize::from(b - b'0')).collect();
        let mut cases = Vec::new();
        let mut wants = Vec::new();
        // Arguments: header, prefix, footer (absent, empty, given), indent, indent type.
        for x in product(&[3, 3, 3, 3, 3]) {
            let mut a = json!({"format": f});
            let mut value = |i: usize, k: &str, configured: &'static str, given: &'static str| -> &'static str {
                if x[i] > 0 {
                    a[k] = json!(["", given][x[i] - 1]);
                    return ["", given][x[i] - 1];
                }
                if c[i] == 1 { configured } else { "" }
            };
            let header = value(0, "header", "/**", "/*!");
            let prefix = value(1, "prefix", " * ", "# ");
            let footer = value(2, "footer", " */", "**/");
            if x[3] > 0 {
                a["indent"] = json!(x[3] - 1 + usize::from(x[3] == 2));
            }
            if x[4] > 0 {
                a["indent_type"] = json!(["tab", "space"][x[4] - 1]);
            }
            let tab = if x[4] > 0 { x[4] == 1 } else { c[3] == 1 };
            let indent = if tab { "\t" } else { " " }.repeat(if x[3] == 2 { 2 } else { 0 });
            for (t, lines) in texts() {
                let trim = c[4] != 2;
                // Where a text ends in white space it has no trailing dot.
                if !trim && c[5] > 0 && t.as_str().is_some_and(|t| t.ends_with('\n')) {
                    continue;
                }
                cases.push((t, a.clone()));
                wants.push(framed(&lines, header, prefix, footer, &indent, trim, c[5]));
            }
        }
        cases.push((Value::Null, json!({"format": f})));
        for (i, got) in comments(&dir, &formats, &cases).into_iter().enumerate() {
            let Some(want) = wants.get(i) else { break };
            chk.add_transitions(1);
            chk.eval(&(&cases[i].0.to_string(), &cases[i].1.to_string(), &f), want.contains('\n'));
            chk.outcome("framed");
            let got = got.unwrap_or_else(|e| e);
            if !chk.expect_eq(name, || json!({"text": cases[i].0, "arguments": cases[i].1, "format": formats}), want, &got) {
                return;
            }
        }
    });
}

// ---------------------------------------------------------------- wrapping

/// Elements: what stands for them in markdown and html.
const ELEMENTS: [(&str, &str); 7] = [("a", "a"), ("bbb", "bbb"), ("ccccccc", "ccccccc"), ("`d e`", "<c>d e</c>"), ("**f g**", "<strong>f g</strong>"), ("[i j](k)", "<a href=\"k\">i j</a>"), ("hh,", "hh,")];

/// The pieces a line may be broken between.
fn pieces(line: &str, html: bool) -> Vec<String> {
    let mut l = line.replace("`d e`", "`d_e`").replace("**f g**", "**f_g**").replace("[i j](k)", "[i_j](k)");
    if html {
        l = l.replace("<c>d e</c>", "(c)d_e(/c)").replace("<a href", "<a_href").replace('<', " <").replace('>', "> ");
    }
    l.split_whitespace().map(str::to_owned).collect()
}

fn wrapping(chk: &Arc<Check>) {
    let most = if chk.thorough() { 4 } else { 3 };
    let mut seqs: Vec<(Vec<usize>, Vec<usize>)> = Vec::new();
    for n in 1..=most {
        for e in product(&vec![ELEMENTS.len(); n]) {
            for s in product(&vec![2; n - 1]) {
                seqs.push((e.clone(), s));
            }
        }
    }
    let mut formats = Map::new();
    for (i, kind) in ["markdown", "html"].iter().enumerate() {
        for ignore in 0..2 {
            for configured in 0..2 {
                let mut w = json!({});
                if ignore == 1 {
                    w["ignore_newlines"] = json!(true);
                }
                if configured == 1 {
                    w["line_length"] = json!(14);
                }
                let mut f = json!({"format": kind, "prefix": "# "});
                if w != json!({}) {
                    f["word_wrap"] = w;
                }
                let _ = formats.insert(format!("w{i}{ignore}{configured}"), f);
            }
        }
    }
    let formats = Arc::new(Value::Object(formats));
    let step = if chk.thorough() { 1 } else { 3 };
    let chunks: Vec<Vec<(Vec<usize>, Vec<usize>)>> = seqs.chunks(if chk.thorough() { 12 } else { 16 }).map(<[_]>::to_vec).collect();
    // Alone, or in the item of a list, whose lines are indented.
    const CONTEXTS: [&str; 3] = ["", "- ", "10. "];
    chk.par(chunks.into_iter(), |c| format!("W-{:?}", c[0]).replace(['[', ']', ',', ' ', '(', ')'], ""), |chk, name, chunk| {
        let dir = chk.scratch();
        let mut cases = Vec::new();
        let mut about = Vec::new();
        for (e, seps) in &chunk {
            let mut text = ELEMENTS[e[0]].0.to_owned();
            for (i, x) in e.iter().enumerate().skip(1) {
                text += [" ", "\n"][seps[i - 1]];
                text += ELEMENTS[*x].0;
            }
            for (f, context) in formats.as_object().unwrap().keys().flat_map(|f| CONTEXTS.map(|c| (f, c))) {
                let configured = f.ends_with('1');
                if !context.is_empty() && f.as_bytes()[1] == b'1' {
                    continue;
                }
                // Indented by 2 when the length is odd; once as configured.
                let lengths: Vec<Option<usize>> = (0..=30).step_by(step).map(Some).chain([None]).collect();
                for l in lengths {
                    let indent = if l.unwrap_or(0) % 2 == 1 { 2 } else { 0 };
                    let mut a = json!({"format": f, "indent": indent});
                    if let Some(l) = l {
                        a["line_length"] = json!(l);
                    }
                    cases.push((json!(format!("{context}{text}")), a));
                    about.push((e, seps, f, context, indent, l.or(configured.then_some(14))));
                }
            }
        }
        for (((t, a), got), (e, seps, f, context, indent, limit)) in cases.iter().zip(comments(&dir, &formats, &cases)).zip(about) {
            chk.add_transitions(1);
            chk.eval(&(t.as_str(), a.to_string()), got.as_ref().is_ok_and(|g| g.contains('\n')));
            let (is_html, ignore) = (f.as_bytes()[1] == b'1', f.as_bytes()[2] == b'1');
            let mut body = String::new();
            let mut wrong = Vec::new();
            match &got {
                Err(e) => wrong.push(e.clone()),
                Ok(g) => {
                    for (i, l) in g.lines().enumerate() {
                        let p = format!("{}# ", if i > 0 { " ".repeat(indent) } else { String::new() });
                        match l.strip_prefix(&p) {
                            Some(x) => body += &format!("{x}\n"),
                            None if l == p.trim_end() => body.push('\n'),
                            None => wrong.push(format!("line {i} has not the prefix")),
                        }
                    }
                    let mut words = e.iter().map(|i| if is_html { ELEMENTS[*i].1 } else { ELEMENTS[*i].0 }).collect::<Vec<_>>().join(" ");
                    if is_html {
                        words = tags(&format!("<p>{words}</p>"));
                    }
                    let said = if is_html { tags(&body) } else { ws(&body).trim().to_owned() };
                    // The marker of the list, whatever it is, counts as text of the first line.
                    let marker = said.strip_suffix(&words).unwrap_or("?").trim_end().len();
                    if marker > context.trim_end().len() || (marker == 0) != context.is_empty() {
                        wrong.push("the text differs".into());
                    }
                    if !is_html && tree(t.as_str().unwrap(), "") != tree(&body, "") {
                        wrong.push("the structure differs".into());
                    }
                    let lines: Vec<&str> = body.lines().skip_while(|l| l.trim().is_empty()).collect();
                    // The room for text.
                    let max = limit.map(|l| l.saturating_sub(indent + 2));
                    for (i, l) in lines.iter().enumerate() {
                        if max.is_some_and(|m| l.len() > m + 1 && pieces(l, is_html).len() > 1 + usize::from(i == 0 && !context.is_empty())) {
                            wrong.push(format!("line {i} is too long"));
                        }
                    }
                    // Every break between elements is asked for, or needed.
                    if !is_html {
                        let mut at = 0;
                        for (i, l) in lines.iter().enumerate() {
                            at += pieces(l, false).len() - usize::from(i == 0 && !context.is_empty());
                            if at == 0 || at >= e.len() {
                                continue;
                            }
                            let asked = seps[at - 1] == 1 && (!ignore || limit.is_none());
                            let next = ELEMENTS[e[at]].0.len();
                            if !asked && !max.is_some_and(|m| l.len() + next > m) {
                                wrong.push(format!("the break after line {i} is not needed"));
                            }
                        }
                        if !ignore || limit.is_none() {
                            let mut at = 0;
                            let ends: Vec<usize> = lines.iter().enumerate().map(|(i, l)| { at += pieces(l, false).len() - usize::from(i == 0 && !context.is_empty()); at }).collect();
                            for (i, s) in seps.iter().enumerate() {
                                if *s == 1 && !ends.contains(&(i + 1)) {
                                    wrong.push(format!("no break after element {i}"));
                                }
                            }
                        }
                    }
                }
            }
            chk.outcome(if limit.is_some() { "wrapped" } else { "not wrapped" });
            if !chk.expect_eq(name, || json!({"text": t, "arguments": a, "format": formats[f], "comment": got.clone().unwrap_or_else(|e| e)}), "as described", if wrong.is_empty() { "as described" } else { &wrong[0] }) {
                return;
            }
        }
    });
}

// ---------------------------------------------------------------- escaping

fn escaping(chk: &Arc<Check>) {
    let most = if chk.thorough() { 7 } else { 5 };
    let mut formats = Map::new();
    for i in 0..4 {
        let mut f = json!({"format": "markdown"});
        if i & 1 > 0 {
            f["escape_square_brackets"] = json!(true);
        }
        if i & 2 > 0 {
            f["escape_backslashes"] = json!(true);
        }
        let _ = formats.insert(format!("e{i}"), f);
    }
    let formats = Arc::new(Value::Object(formats));
    let letters = ['x', '\\', '[', ']'];
    let mut texts: Vec<String> = Vec::new();
    for n in 1..=most {
        texts.extend(product(&vec![letters.len(); n]).map(|t| format!("a {}", t.iter().map(|i| letters[*i]).collect::<String>())));
    }
    let chunks: Vec<Vec<String>> = texts.chunks(128).map(<[_]>::to_vec).collect();
    chk.par(chunks.into_iter().enumerate(), |(i, _)| format!("E-{i}"), |chk, name, (_, chunk)| {
        let dir = chk.scratch();
        let cases: Vec<(Value, Value)> = chunk.iter().flat_map(|t| (0..4).map(move |i| (json!(t), json!({"format": format!("e{i}")})))).collect();
        for ((t, a), got) in cases.iter().zip(comments(&dir, &formats, &cases)) {
            // What the text says, each character with the backslashes before it.
            let said = match markdown::to_mdast(t.as_str().unwrap(), &markdown::ParseOptions::default()).map(|n| n.to_string()) {
                Ok(s) => s,
                Err(_) => continue,
            };
            let i = a["format"].as_str().unwrap().as_bytes()[1] - b'0';
            let (mut want, mut slashes) = (String::new(), 0);
            for c in said.chars() {
                if c == '\\' {
                    slashes += 1;
                    want += if i & 2 > 0 { "\\\\" } else { "\\" };
                    continue;
                }
                if i & 1 > 0 && "[]".contains(c) && (i & 2 > 0 || slashes % 2 == 0) {
                    want.push('\\');
                }
                slashes = 0;
                want.push(c);
            }
            chk.add_transitions(1);
            chk.eval(&(t.as_str(), i), want != said);
            chk.outcome("escaped");
            let got = got.unwrap_or_else(|e| e);
            if !chk.expect_eq(name, || json!({"text": t, "format": formats[a["format"].as_str().unwrap()]}), &want, &got) {
                return;
            }
        }
    });
}

fn run(chk: &Arc<Check>) {
    escaping(chk);
    documents(chk);
    framing(chk);
    wrapping(chk);
}
