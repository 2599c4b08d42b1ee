//! C25: command line over `.weaver.toml` over default, for every command.
use harness::reg::write_files;
use harness::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock};

pub const SPEC: Spec = Spec {
    id: "C25",
    level: "model_checking",
    rule: "Exhaustive: (D) discovery: every content (absent, valid, not TOML, a directory) of .weaver.toml in the current directory and two above x four kinds of --config; (S) for each of 8 commands, each setting and each pair of settings x (absent or each value in the file) x (absent or each value on the command line), and mixed choices of all settings at once (those of the base-3 assignments of who states each of up to 8 settings with an index divisible by 37, thorough 3); quick: of the pairs those where the command line contradicts the file; (P) ports and inactivity timeout of live-check and infer, endpoint and stdout of emit x (file, command line, both). \
           Oracle: the file is --config's, else the nearest one; each setting is the command line's, else the file's, else the documented default: everything the command does (exit code, output, diagnostics, files) equals what it does with exactly these values given on the command line. Every value of every setting makes a difference on its own. Non-trivial: the file and the command line disagree.",
    assumptions: &["settings without a command line form are given to the reference run by a file that holds nothing else", "mcp and serve are not driven", "the ports 21000 and up on loopback are free or stay occupied"],
    run,
};

#[derive(Clone, Copy, PartialEq)]
enum Cli {
    /// `--x value`
    Value(&'static str),
    /// `--x=true`, `--x=false` or a bare `--x`
    Flag(&'static str),
    /// once per element
    List(&'static str),
    Position,
    /// the file only
    None,
}

struct Setting {
    section: &'static str,
    key: &'static str,
    cli: Cli,
    /// TOML literals
    values: &'static [&'static str],
    /// what it is when nothing says (empty: nothing)
    default: &'static str,
    /// without it the command cannot run
    required: bool,
}

const fn s(section: &'static str, key: &'static str, cli: Cli, values: &'static [&'static str], default: &'static str) -> Setting {
    Setting { section, key, cli, values, default, required: false }
}
const fn r(section: &'static str, key: &'static str, cli: Cli, values: &'static [&'static str]) -> Setting {
    Setting { section, key, cli, values, default: "", required: true }
}
const BOOL: &[&str] = &["true", "false"];
const REGISTRY: Setting = r("registry", "path", Cli::Value("-r"), &["'regA'", "'regB'"]);
const FOLLOW: Setting = s("registry", "follow_symlinks", Cli::Flag("--follow-symlinks"), BOOL, "false");
const UNREF: Setting = s("registry", "include_unreferenced", Cli::Flag("--include-unreferenced"), BOOL, "false");
const V2: Setting = s("registry", "v2", Cli::Flag("--v2"), BOOL, "false");
const POLICIES: Setting = s("policy", "paths", Cli::List("-p"), &["['p1.rego']", "['p2.rego', 'p1.rego']"], "");
const SKIP: Setting = s("policy", "skip", Cli::Flag("--skip-policies"), BOOL, "false");
const COVERAGE: Setting = s("policy", "display_policy_coverage", Cli::Flag("--display-policy-coverage"), BOOL, "false");
const DFORMAT: Setting = s("diagnostics", "format", Cli::Value("--diagnostic-format"), &["'json'", "'gh_workflow_command'", "'ansi'"], "'ansi'");
const DTEMPLATE: Setting = s("diagnostics", "template", Cli::Value("--diagnostic-template"), &["'dt1'", "'dt2'"], "'diagnostic_templates'");
const DSTDOUT: Setting = s("diagnostics", "stdout", Cli::Flag("--diagnostic-stdout"), BOOL, "false");
const OVERRIDES: Setting = s("resolve", "schema_url_overrides", Cli::None, &["{ 'https://example.com/dep/1.0.0' = 'depX' }"], "");

struct Command {
    name: &'static str,
    args: &'static [&'static str],
    settings: Vec<Setting>,
}

fn commands() -> Vec<Command> {
    let c = |name, args, settings| Command { name, args, settings };
    vec![
        c("resolve", &["registry", "resolve", "-f", "json"], vec![REGISTRY, FOLLOW, UNREF, V2, POLICIES, SKIP, COVERAGE, OVERRIDES]),
        c("check", &["registry", "check"], vec![r("registry", "path", Cli::Value("-r"), &["'bad'", "'regA'"]), POLICIES, SKIP, DFORMAT, DTEMPLATE, DSTDOUT]),
        c(
            "generate",
            &["registry", "generate"],
            vec![
                r("generate", "target", Cli::Position, &["'x'", "'y'"]),
                s("generate", "output", Cli::Position, &["'out1'", "'out2'"], "'output'"),
                s("generate", "templates", Cli::Value("-t"), &["'t1'", "'t2'"], "'templates'"),
                REGISTRY,
                UNREF,
                V2,
                POLICIES,
                s("template", "acronyms", Cli::None, &["['iOS', 'API']", "['ApI']"], ""),
                s("template", "text_maps", Cli::None, &["{ m = { a = 'A' } }", "{ n = { a = 'N' } }"], ""),
                OVERRIDES,
            ],
        ),
        c(
            "stats",
            &["registry", "stats"],
            vec![REGISTRY, V2, s("stats", "format", Cli::Value("--format"), &["'json'", "'text'", "'mine'"], "'text'"), s("stats", "templates", Cli::Value("--templates"), &["'st'"], "'stats_templates'"), s("stats", "output", Cli::Value("--output"), &["'out1'", "'out2'"], ""), OVERRIDES],
        ),
        c(
            "diff",
            &["registry", "diff", "--baseline-registry", "base"],
            vec![REGISTRY, V2, UNREF, s("diff", "format", Cli::Value("--format"), &["'json'", "'markdown'", "'ansi'"], "'ansi'"), s("diff", "templates", Cli::Value("--templates"), &["'st'"], "'diff_templates'"), s("diff", "output", Cli::Value("--output"), &["'out1'", "'out2'"], "")],
        ),
        c(
            "package",
            &["registry", "package"],
            vec![REGISTRY, r("registry", "v2", Cli::Flag("--v2"), BOOL), POLICIES, SKIP, s("package", "output", Cli::Value("-o"), &["'out1'", "'out2'"], "'output'"), r("package", "resolved_registry_uri", Cli::Value("--resolved-registry-uri"), &["'https://a.example/1'", "'b/r.yaml'"])],
        ),
        c(
            "update-markdown",
            &["registry", "update-markdown"],
            vec![
                r("update-markdown", "markdown_dir", Cli::Position, &["'md1'", "'md2'"]),
                r("update-markdown", "target", Cli::Value("--target"), &["'x'", "'y'"]),
                REGISTRY,
                s("update-markdown", "templates", Cli::Value("-t"), &["'t1'", "'t2'"], "'templates'"),
                s("update-markdown", "dry_run", Cli::Flag("--dry-run"), BOOL, "false"),
                s("update-markdown", "attribute_registry_base_url", Cli::Value("--attribute-registry-base-url"), &["'/a/'", "'/b'"], ""),
            ],
        ),
        c(
            "live-check",
            &["registry", "live-check"],
            vec![
                r("live-check", "input_source", Cli::Value("--input-source"), &["'in1'", "'in2'"]),
                r("live-check", "format", Cli::Value("--format"), &["'json'", "'ansi'"]),
                s("live-check", "input_format", Cli::Value("--input-format"), &["'text'", "'json'"], "'json'"),
                s("live-check", "templates", Cli::Value("--templates"), &["'lt'"], "'live_check_templates'"),
                s("live-check", "no_stream", Cli::Flag("--no-stream"), BOOL, "false"),
                s("live-check", "no_stats", Cli::Flag("--no-stats"), BOOL, "false"),
                s("live-check", "fail_on", Cli::Value("--fail-on"), &["'none'", "'violation'"], "'violation'"),
                s("live-check", "output", Cli::Value("--output"), &["'out1'", "'none'"], ""),
                s("live-check", "advice_policies", Cli::Value("--advice-policies"), &["'ap1'", "'ap2'"], ""),
                s("live-check", "advice_data", Cli::Value("--advice-data"), &["'ad1'", "'ad2'"], ""),
                s("live-check", "advice_preprocessor", Cli::Value("--advice-preprocessor"), &["'pre1.jq'"], ""),
                REGISTRY,
                UNREF,
                s("live-check", "finding_filters", Cli::None, &["[{ exclude = ['missing_attribute'] }]", "[{ min_level = 'violation' }]"], ""),
            ],
        ),
    ]
}

fn data(d: &Path) {
    let attr = |id: &str, brief: &str| format!("  - {{id: registry.{id}, type: attribute_group, brief: b, attributes: [{{id: {id}, type: string, brief: {brief}, stability: stable, examples: [e]}}]}}\n");
    let manifest = |n: &str, dep: bool| format!("schema_url: https://example.com/{n}/1.0.0\ndescription: d\nstability: stable\n{}", if dep { "dependencies: [{schema_url: https://example.com/dep/1.0.0, registry_path: dep}]\n" } else { "" });
    let mut f: Vec<(String, String)> = vec![];
    let mut put = |n: &str, c: String| f.push((n.to_owned(), c));
    for (n, own) in [("regA", "a.own"), ("regB", "b.own"), ("base", "c.own")] {
        put(&format!("{n}/manifest.yaml"), manifest(&own[..1], n != "base"));
        put(&format!("{n}/r.yaml"), format!("groups:\n{}  - {{id: metric.{own}, type: metric, metric_name: {own}.m, instrument: counter, unit: '1', brief: b, stability: stable, attributes: [{}{{ref: {own}}}]}}\n", attr(own, own), if n == "base" { "" } else { "{ref: d.used}, " }));
    }
    for (n, brief) in [("dep", "dep"), ("depX", "override")] {
        put(&format!("{n}/manifest.yaml"), manifest("dep", false));
        put(&format!("{n}/r.yaml"), format!("groups:\n{}{}", attr("d.used", brief), attr(if n == "dep" { "d.unused" } else { "x.unused" }, brief)));
    }
    put("extra/e.yaml", format!("groups:\n{}", attr("l.linked", "link")));
    put("bad/manifest.yaml", manifest("bad", false));
    put("bad/r.yaml", "groups:\n  - {id: registry.bad, type: attribute_group, brief: b, attributes: [{id: no.stability, type: string, brief: b, examples: [e]}]}\n".into());
    for p in ["p1", "p2"] {
        put(&format!("{p}.rego"), format!("package after_resolution\n\nimport rego.v1\n\ndeny contains {{\"id\": \"{p}\", \"context\": {{\"x\": 1}}, \"message\": \"says {p}\", \"level\": \"violation\", \"signal_type\": \"span\", \"signal_name\": \"{p}\"}} if {{ input }}\n"));
    }
    for d in ["dt1", "dt2"] {
        for t in ["ansi", "json"] {
            put(&format!("{d}/errors/{t}/weaver.yaml"), "templates: [{template: e.j2, filter: ., application_mode: single}]".into());
            put(&format!("{d}/errors/{t}/e.j2"), format!("{d} {t} {{{{ ctx | length }}}}\n"));
            put(&format!("{d}/{t}/weaver.yaml"), "templates: [{template: e.j2, filter: ., application_mode: single}]".into());
            put(&format!("{d}/{t}/e.j2"), format!("{d} {t} {{{{ ctx | length }}}}\n"));
        }
    }
    for t in ["t1", "t2", "templates"] {
        for x in ["x", "y"] {
            put(&format!("{t}/registry/{x}/weaver.yaml"), "text_maps: {n: {a: own}}\nacronyms: [api]\ntemplates: [{template: o.j2, filter: ., application_mode: single}]".into());
            put(&format!("{t}/registry/{x}/o.j2"), format!("{t} {x} {{{{ 'ios api' | acronym }}}} {{{{ 'a' | map_text('m', 'dflt') }}}} {{{{ 'a' | map_text('n', 'dflt') }}}} {{{{ ctx | tojson }}}}\n"));
            put(&format!("{t}/registry/{x}/snippet.md.j2"), format!("{t} {x} {{{{ attribute_registry_base_url }}}} {{{{ group.id if group else ctx }}}}\n"));
        }
    }
    for t in ["text", "mine", "json", "markdown", "ansi"] {
        put(&format!("st/{t}/weaver.yaml"), "templates: [{template: o.j2, filter: ., application_mode: single}]".into());
        put(&format!("st/{t}/o.j2"), format!("st {t} {{{{ ctx | tojson | length }}}}\n"));
    }
    put("stats_templates/mine/weaver.yaml", "templates: [{template: o.j2, filter: ., application_mode: single}]".into());
    put("stats_templates/mine/o.j2", "default mine {{ ctx | tojson | length }}\n".into());
    put("lt/ansi/weaver.yaml", "templates: [{template: o.j2, filter: ., application_mode: single}]".into());
    put("lt/ansi/o.j2", "lt {{ ctx | tojson | length }}\n".into());
    for (n, a) in [("in1", "a.own"), ("in2", "b.own")] {
        put(n, json!([{"attribute": {"name": a, "value": "v"}}, {"attribute": {"name": "no.such", "value": 1}}, {"attribute": {"name": "d.unused", "value": "v"}}]).to_string());
    }
    for p in ["ap1", "ap2"] {
        put(&format!("{p}/p.rego"), format!("package live_check_advice\n\nimport rego.v1\n\ndeny contains {{\"id\": \"{p}\", \"context\": {{\"d\": object.keys(data)}}, \"message\": \"m\", \"level\": \"improvement\", \"signal_type\": \"span\", \"signal_name\": \"{p}\"}} if {{ input.sample.attribute }}\n"));
    }
    for p in ["ad1", "ad2"] {
        put(&format!("{p}/{p}.json"), json!({ "k": p }).to_string());
    }
    put("pre1.jq", "{\"only\": \"this\"}".into());
    write_files(d, &f);
    for n in ["regA", "regB"] {
        let _ = std::os::unix::fs::symlink("../extra", d.join(n).join("link"));
    }
}

const MARKDOWN: &str = "# t\n\n<!-- semconv metric.a.own -->\nold\n<!-- endsemconv -->\n";

/// What the command does: exit code, stdout, stderr, files.
fn observe(d: &Path, args: &[String]) -> String {
    for n in ["out1", "out2", "output", "inferred-registry", "none", "md1", "md2"] {
        let _ = std::fs::remove_dir_all(d.join(n));
        let _ = std::fs::remove_file(d.join(n));
    }
    write_files(d, &[("md1/a.md".to_owned(), MARKDOWN.to_owned()), ("md2/b.md".to_owned(), MARKDOWN.replace("a.own", "b.own"))]);
    let bin = std::env::var("WEAVER_BIN").expect("WEAVER_BIN");
    let o = std::process::Command::new(bin).args(args).env("HOME", d).env("NO_COLOR", "1").current_dir(d).stdin(std::process::Stdio::null()).output().expect("run weaver");
    let text = |b: &[u8]| {
        let s = String::from_utf8_lossy(b).replace(&d.display().to_string(), "%D");
        s.lines().filter(|l| !l.contains("Found config") && !l.contains("execution time") && !l.contains("vdir_cache")).map(|l| format!("{l}\n")).collect::<String>()
    };
    let mut files = String::new();
    for n in ["out1", "out2", "output", "none", "md1", "md2"] {
        for (f, c) in crate::archive::files_below(&d.join(n)) {
            files += &format!("== {n}/{f}\n{c}\n");
        }
        if d.join(n).is_file() {
            files += &format!("== {n}\n{}\n", std::fs::read_to_string(d.join(n)).unwrap_or_default());
        }
    }
    // the order of coverage lines, diagnostics and the members of JSON objects is not judged here
    let sorted = |s: String| {
        let mut l: Vec<&str> = s.lines().map(|l| l.trim_end_matches(',')).collect();
        l.sort_unstable();
        l.join("\n")
    };
    format!("exit {:?}\n{}\n-- stderr\n{}\n{}", o.status.code(), sorted(text(&o.stdout)), sorted(text(&o.stderr)), sorted(files))
}

fn unquote(v: &str) -> String {
    v.trim_matches('\'').to_owned()
}

fn cli_args(st: &Setting, v: &str, bare: bool) -> Vec<String> {
    match st.cli {
        Cli::Value(f) => vec![f.into(), unquote(v)],
        Cli::Flag(f) if bare && v == "true" => vec![f.into()],
        Cli::Flag(f) => vec![format!("{f}={v}")],
        Cli::List(f) => v.trim_matches(['[', ']']).split(", ").flat_map(|x| [f.to_owned(), unquote(x)]).collect(),
        Cli::Position => vec![unquote(v)],
        Cli::None => vec![],
    }
}

fn toml(settings: &[(&Setting, &str)], alias: usize) -> String {
    let mut m: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    for (st, v) in settings {
        let section = match (st.section, alias) {
            ("resolve", 1 | 3) => "resolution",
            (x, _) => x,
        };
        let key = match (st.key, alias) {
            ("schema_url_overrides", 2 | 3) => "overrides",
            ("schema_url_overrides", 4) => "dependency_overrides",
            (x, _) => x,
        };
        m.entry(section).or_default().push(format!("{key} = {v}"));
    }
    m.iter().map(|(s, l)| format!("[{s}]\n{}\n", l.join("\n"))).collect()
}

/// The index of a value per setting: 0 is absent.
type Choice = Vec<usize>;

fn value<'a>(st: &'a Setting, i: usize) -> Option<&'a str> {
    i.checked_sub(1).map(|i| st.values[i])
}

/// Positional arguments are given in order: the first cannot be left out when the second is there.
fn possible(c: &Command, cfg: &Choice, cli: &Choice) -> bool {
    let pos: Vec<usize> = (0..c.settings.len()).filter(|i| c.settings[*i].cli == Cli::Position).collect();
    (pos.len() < 2 || cli[pos[1]] == 0 || cli[pos[0]] > 0)
        && c.settings.iter().enumerate().all(|(i, st)| !st.required || cfg[i] + cli[i] > 0)
        && c.settings.iter().enumerate().all(|(i, st)| st.cli != Cli::None || cli[i] == 0)
}

fn dir(chk: &Check) -> PathBuf {
    let d = chk.scratch().join("cfg/p/q");
    if !d.exists() {
        std::fs::create_dir_all(&d).expect("mkdir");
        data(&d);
    }
    let _ = std::fs::remove_file(d.join(".weaver.toml"));
    let _ = std::fs::remove_file(d.join("only.toml"));
    d
}

fn args_of(c: &Command, cli: impl Fn(usize) -> Option<&'static str>, bare: bool) -> Vec<String> {
    let mut a: Vec<String> = c.args.iter().map(|x| (*x).to_owned()).collect();
    for (i, st) in c.settings.iter().enumerate() {
        if let Some(v) = cli(i) {
            a.extend(cli_args(st, v, bare));
        }
    }
    a
}

static MEMO: OnceLock<Mutex<BTreeMap<(usize, Vec<&'static str>), String>>> = OnceLock::new();

/// What the command does with these values and nothing else.
fn reference(chk: &Check, k: usize, c: &Command, eff: Vec<&'static str>) -> String {
    let memo = MEMO.get_or_init(Mutex::default);
    if let Some(o) = memo.lock().expect("memo").get(&(k, eff.clone())) {
        return o.clone();
    }
    let d = dir(chk);
    let mut a = args_of(c, |i| Some(eff[i]).filter(|v| !v.is_empty()), false);
    let only: Vec<(&Setting, &str)> = c.settings.iter().zip(&eff).filter(|(s, v)| s.cli == Cli::None && !v.is_empty()).map(|(s, v)| (s, *v)).collect();
    if !only.is_empty() {
        std::fs::write(d.join("only.toml"), toml(&only, 0)).expect("write");
        // generate has a --config of its own: its file is found, not named
        if c.name == "generate" {
            std::fs::rename(d.join("only.toml"), d.join(".weaver.toml")).expect("rename");
        } else {
            a.splice(0..0, ["--config".to_owned(), "only.toml".to_owned()]);
        }
    }
    let o = observe(&d, &a);
    let _ = memo.lock().expect("memo").insert((k, eff), o.clone());
    o
}

fn compare(chk: &Check, name: &str, k: usize, c: &Command, cfg: &Choice, cli: &Choice, variant: usize) -> bool {
    if !possible(c, cfg, cli) {
        return true;
    }
    let eff: Vec<&'static str> = c.settings.iter().enumerate().map(|(i, st)| value_of(st, cli[i]).or(value_of(st, cfg[i])).unwrap_or(st.default)).collect();
    let want = reference(chk, k, c, eff.clone());
    let d = dir(chk);
    let given: Vec<(&Setting, &str)> = c.settings.iter().enumerate().filter_map(|(i, st)| value(st, cfg[i]).map(|v| (st, v))).collect();
    let toml = toml(&given, variant % 5);
    let mut args = args_of(c, |i| value_of(&c.settings[i], cli[i]), variant % 2 == 0);
    match variant % 3 {
        // in the current directory, further up, or named
        1 => std::fs::write(d.parent().expect("parent").join(".weaver.toml"), &toml).expect("write"),
        2 if c.name != "generate" => {
            std::fs::write(d.join("named.toml"), &toml).expect("write");
            args.splice(0..0, ["--config".to_owned(), "named.toml".to_owned()]);
        }
        _ => std::fs::write(d.join(".weaver.toml"), &toml).expect("write"),
    }
    let got = observe(&d, &args);
    let _ = std::fs::remove_file(d.parent().expect("parent").join(".weaver.toml"));
    chk.add_transitions(1);
    chk.eval(&(k, cfg, cli), (0..cfg.len()).any(|i| cfg[i] > 0 && cli[i] > 0 && cfg[i] != cli[i]));
    chk.outcome(c.name);
    chk.expect_eq(name, || json!({"file": toml, "args": args.join(" "), "as if": eff}), &want, &got)
}

fn value_of(st: &Setting, i: usize) -> Option<&'static str> {
    i.checked_sub(1).map(|i| st.values[i])
}

fn settings(chk: &Arc<Check>) {
    let all: Arc<Vec<Command>> = Arc::new(commands());
    let base = |c: &Command| -> Choice { c.settings.iter().map(|s| usize::from(s.required)).collect() };
    // every value makes a difference
    let mut cases: Vec<(usize, usize)> = vec![];
    for (k, c) in all.iter().enumerate() {
        cases.extend((0..c.settings.len()).map(|i| (k, i)));
    }
    let a = all.clone();
    chk.par(cases.clone().into_iter(), |(k, i)| format!("V-{}-{}", a[*k].name, a[*k].settings[*i].key), |chk, name, (k, i)| {
        let c = &a[k];
        let mut seen: BTreeMap<String, &str> = BTreeMap::new();
        let st = &c.settings[i];
        let mut values: Vec<&'static str> = st.values.to_vec();
        if !st.required && !values.contains(&st.default) {
            values.push(st.default);
        }
        for v in values {
            let mut eff: Vec<&'static str> = c.settings.iter().map(|s| if s.required { s.values[0] } else { s.default }).collect();
            eff[i] = v;
            // some settings show only with others
            for (j, s) in c.settings.iter().enumerate() {
                let show = match (c.name, st.key, s.key) {
                    (_, "skip" | "display_policy_coverage", "paths") => Some("['p1.rego']"),
                    (_, "schema_url_overrides", "include_unreferenced") => Some("true"),
                    ("stats", "templates", "format") => Some("'mine'"),
                    ("live-check", "templates" | "no_stream", "format") => Some("'ansi'"),
                    ("live-check", "advice_data" | "advice_preprocessor", "advice_policies") => Some("'ap1'"),
                    ("diff", "v2", "format") => Some("'json'"),
                    _ => None,
                };
                if let (Some(v), true) = (show, j != i) {
                    eff[j] = v;
                }
            }
            let o = reference(chk, k, c, eff);
            chk.eval(&(k, i, v), true);
            if let Some(w) = seen.insert(o.clone(), v) {
                chk.violation(name, name, json!({"command": c.name, "setting": st.key}), &format!("{w} and {v} differ"), &o);
                return;
            }
        }
    });
    // one setting and two settings
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    for (k, c) in all.iter().enumerate() {
        for i in 0..c.settings.len() {
            for j in i + 1..c.settings.len() {
                cases.push((k, i, j));
            }
        }
    }
    let a = all.clone();
    let thorough = chk.thorough();
    chk.par(cases.into_iter(), |(k, i, j)| format!("S-{}-{}-{}", a[*k].name, a[*k].settings[*i].key, a[*k].settings[*j].key), |chk, name, (k, i, j)| {
        let c = &a[k];
        let (n, m) = (c.settings[i].values.len() + 1, c.settings[j].values.len() + 1);
        for (v, x) in product(&[n, n, m, m]).enumerate() {
            // quick: of the pairs those where both files speak, or the command line contradicts the file
            if !thorough && !(x[0] > 0 && x[2] > 0 && x[1] != x[0] && (x[1] > 0) != (x[3] > 0)) && (i, j) != (0, 1) {
                continue;
            }
            let (mut cfg, mut cli) = (vec![0; c.settings.len()], base(c));
            (cfg[i], cli[i], cfg[j], cli[j]) = (x[0], x[1], x[2], x[3]);
            if !compare(chk, name, k, c, &cfg, &cli, v) {
                return;
            }
        }
    });
    // all of them, each from the file or the command line or both
    let mut cases: Vec<(usize, Vec<usize>)> = vec![];
    for (k, c) in all.iter().enumerate() {
        let n = c.settings.len();
        for (t, x) in product(&vec![3; n.min(8)]).enumerate() {
            if thorough && t % 3 == 0 || t % 37 == 0 {
                cases.push((k, x.to_vec()));
            }
        }
    }
    let a = all.clone();
    chk.par(cases.into_iter(), |(k, x)| format!("M-{}-{}", a[*k].name, x.iter().map(usize::to_string).collect::<String>()), |chk, name, (k, x)| {
        let c = &a[k];
        let n = c.settings.len();
        let last = |i: usize| c.settings[i].values.len();
        let cfg: Choice = (0..n).map(|i| if x[i % x.len()] == 0 && !c.settings[i].required { 0 } else { 1 + (i + x[0]) % last(i) }).collect();
        let cli: Choice = (0..n).map(|i| if c.settings[i].cli == Cli::None || x[i % x.len()] != 2 { 0 } else { last(i) }).collect();
        let _ = compare(chk, name, k, c, &cfg, &cli, x.iter().sum());
    });
}

/// Which file is used.
fn discovery(chk: &Arc<Check>) {
    chk.par(product(&[4, 4, 4, 4, 2]), |x| format!("D-{}{}{}{}{}", x[0], x[1], x[2], x[3], x[4]), |chk, name, x| {
        let top = chk.fresh("w");
        let here = top.join("a/b");
        let mut files = vec![];
        for n in ["here", "up", "top", "named", "cli"] {
            files.push((format!("a/b/{n}/r.yaml"), format!("groups:\n  - {{id: registry.{n}, type: attribute_group, brief: b, attributes: [{{id: {n}.x, type: string, brief: b, stability: stable, examples: [e]}}]}}\n")));
        }
        // what a path in a file is relative to: the current directory, wherever the file is
        let content = |kind: usize, n: &str| match kind {
            1 => Some(format!("[registry]\npath = '{n}'\n")),
            2 => Some("[registry\npath = 3".to_owned()),
            _ => None,
        };
        for (i, (at, n)) in [("a/b", "here"), ("a", "up"), (".", "top")].into_iter().enumerate() {
            if let Some(c) = content(x[i], n) {
                files.push((format!("{at}/.weaver.toml"), c));
            }
            if x[i] == 3 {
                std::fs::create_dir_all(top.join(at).join(".weaver.toml")).expect("mkdir");
            }
        }
        if let Some(c) = content(x[3], "named") {
            files.push(("a/b/sub/c.toml".into(), c));
        }
        write_files(&top, &files);
        // 1: named, good; 2: named, bad; 3: named, missing
        let chosen = match x[3] {
            1 => Some("named"),
            2 | 3 => None,
            _ => match (0..3).find(|i| x[*i] == 1 || x[*i] == 2) {
                Some(i) if x[i] == 1 => Some(["here", "up", "top"][i]),
                Some(_) => None,
                None => Some(""),
            },
        };
        let mut args: Vec<&str> = if x[3] > 0 { vec!["registry", "resolve", "-f", "json", "--config", "sub/c.toml"] } else { vec!["registry", "resolve", "-f", "json"] };
        if x[3] > 0 && x[0] % 2 == 1 {
            args = vec!["--config", "sub/c.toml", "registry", "resolve", "-f", "json"];
        }
        if x[4] == 1 {
            args.extend(["-r", "cli"]);
        }
        let want = match (chosen, x[4]) {
            (None, _) => "error".to_owned(),
            (Some(_), 1) => "cli.x".into(),
            // the default registry is not reachable here
            (Some(""), _) => "error".into(),
            (Some(n), _) => format!("{n}.x"),
        };
        let (code, out, err) = harness::reg::weaver(&args, &here);
        let got = if code == 0 {
            let v: serde_json::Value = serde_json::from_str(&out).unwrap_or_default();
            v["groups"].as_array().into_iter().flatten().flat_map(|g| g["attributes"].as_array().into_iter().flatten()).filter_map(|a| a["name"].as_str()).collect::<Vec<_>>().join(",")
        } else {
            "error".into()
        };
        chk.eval(&x, x.iter().filter(|k| **k > 0).count() > 1);
        chk.outcome(if code == 0 { "read" } else { "refused" });
        let _ = chk.expect_eq(name, || json!({"here, up, top": &x[..3], "args": args, "stderr": err}), &want, &got);
    });
}

/// A port nobody listens on, outside of the range the system hands out.
fn port() -> u16 {
    static NEXT: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(21000);
    loop {
        let p = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if std::net::TcpListener::bind(("127.0.0.1", p)).is_ok() {
            return p;
        }
    }
}

fn listens(p: u16) -> bool {
    std::net::TcpStream::connect(("127.0.0.1", p)).is_ok()
}

fn stop(p: u16) {
    use std::io::{Read, Write};
    if let Ok(mut s) = std::net::TcpStream::connect(("127.0.0.1", p)) {
        let _ = s.write_all(b"POST /stop HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\nConnection: close\r\n\r\n");
        let _ = s.read_to_string(&mut String::new());
    }
}

/// The servers: which ports they listen on, when they end by themselves.
fn servers(chk: &Arc<Check>) {
    let cases = product(&[2, 4, 4, 4]).filter(|x| x[1] > 0 && x[2] > 0).filter(|x| chk.thorough() || x[3] == 0 || x[1] + x[2] == 6);
    chk.par(cases, |x| format!("P-{}{}{}{}", x[0], x[1], x[2], x[3]), |chk, name, x| {
        let d = dir(chk);
        let live = x[0] == 0;
        // 1: the file, 2: the command line, 3: both
        let ports: Vec<u16> = (0..4).map(|_| port()).collect();
        let (mut file, mut args) = (String::new(), vec![]);
        let mut give = |how: usize, key: &str, flag: &str, in_file: u16, on_cli: u16| {
            if how & 1 > 0 {
                file += &format!("{key} = {in_file}\n");
            }
            if how & 2 > 0 {
                args.extend([flag.to_owned(), on_cli.to_string()]);
            }
            if how & 2 > 0 { on_cli } else { in_file }
        };
        let (prefix, section) = if live { ("otlp.", "live-check") } else { ("", "infer") };
        let grpc = give(x[1], &format!("{prefix}grpc_port"), if live { "--otlp-grpc-port" } else { "--grpc-port" }, ports[0], ports[1]);
        let admin = give(x[2], &format!("{prefix}admin_port"), "--admin-port", ports[2], ports[3]);
        // what ends by itself is asked to by one of the two, what is not is told to wait
        let ends = x[3] > 0 && give(x[3], &format!("{prefix}inactivity_timeout"), "--inactivity-timeout", if x[3] == 1 { 3 } else { 100 }, 3) == 3;
        if x[3] == 0 {
            args.extend(["--inactivity-timeout".into(), "0".into()]);
        }
        std::fs::write(d.join(".weaver.toml"), format!("[{section}]\n{file}")).expect("write");
        let cmd: &[&str] = if live { &["registry", "live-check", "-r", "regA", "--input-source", "otlp"] } else { &["registry", "infer"] };
        let bin = std::env::var("WEAVER_BIN").expect("WEAVER_BIN");
        let null = std::process::Stdio::null;
        let mut child = std::process::Command::new(bin).args(cmd).args(&args).env("HOME", &d).current_dir(&d).stdin(null()).stdout(null()).stderr(null()).spawn().expect("run weaver");
        let start = std::time::Instant::now();
        let (mut g, mut a) = (false, false);
        while start.elapsed().as_secs() < 60 && !(g && a) && child.try_wait().expect("wait").is_none() {
            g |= listens(grpc);
            a |= listens(admin);
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        let others: Vec<u16> = ports.iter().copied().filter(|p| *p != grpc && *p != admin && listens(*p)).collect();
        let by_itself = if ends {
            while start.elapsed().as_secs() < 60 && child.try_wait().expect("wait").is_none() {
                std::thread::sleep(std::time::Duration::from_millis(20));
            }
            child.try_wait().expect("wait").is_some()
        } else {
            stop(admin);
            false
        };
        if !ends {
            let t = std::time::Instant::now();
            while t.elapsed().as_secs() < 60 && child.try_wait().expect("wait").is_none() {
                std::thread::sleep(std::time::Duration::from_millis(20));
            }
        }
        let over = child.try_wait().expect("wait").is_some();
        if !over {
            let _ = child.kill();
            let _ = child.wait();
        }
        chk.add_transitions(1);
        chk.eval(&x, x[1] == 3 || x[2] == 3 || x[3] == 3);
        chk.outcome("served");
        let _ = chk.expect_eq(
            name,
            || json!({"file": format!("[{section}]\n{file}"), "args": args, "command": cmd}),
            &format!("listens on {grpc} and {admin}, not on others []; ends by itself: {ends}; is over"),
            &format!("listens on {} and {}, not on others {others:?}; ends by itself: {by_itself}; {}", if g { grpc } else { 0 }, if a { admin } else { 0 }, if over { "is over" } else { "runs on" }),
        );
    });
    // where emit sends to
    chk.par(product(&[4, 4, 2]).filter(|x| x[1] > 0), |x| format!("P-emit-{}{}{}", x[0], x[1], x[2]), |chk, name, x| {
        let d = dir(chk);
        let hit: [Arc<std::sync::atomic::AtomicBool>; 2] = Default::default();
        let mut at = vec![];
        for h in &hit {
            let (l, h) = (std::net::TcpListener::bind("127.0.0.1:0").expect("bind"), h.clone());
            at.push(format!("http://127.0.0.1:{}", l.local_addr().expect("addr").port()));
            let _ = std::thread::spawn(move || {
                for s in l.incoming() {
                    h.store(true, std::sync::atomic::Ordering::SeqCst);
                    drop(s);
                }
            });
        }
        let (mut file, mut args) = (String::new(), vec!["registry".to_owned(), "emit".into(), "-r".into(), "regA".into()]);
        // 0: nobody says, 1: the file says yes, 2: the command line says yes, 3: the file says yes and the command line no, ...
        let (in_file, on_cli) = [(None, None), (Some(true), None), (Some(x[2] == 1), Some(true)), (Some(true), Some(false))][x[0]];
        if let Some(v) = in_file {
            file += &format!("stdout = {v}\n");
        }
        if let Some(v) = on_cli {
            args.push(format!("--stdout={v}"));
        }
        if x[1] & 1 > 0 {
            file += &format!("endpoint = '{}'\n", at[0]);
        }
        if x[1] & 2 > 0 {
            args.extend(["--endpoint".to_owned(), at[1].clone()]);
        }
        let stdout = on_cli.or(in_file).unwrap_or(false);
        std::fs::write(d.join(".weaver.toml"), format!("[emit]\n{file}")).expect("write");
        let a: Vec<&str> = args.iter().map(String::as_str).collect();
        let (_, out, err) = harness::reg::weaver(&a, &d);
        let hit: Vec<bool> = hit.iter().map(|h| h.load(std::sync::atomic::Ordering::SeqCst)).collect();
        chk.add_transitions(1);
        chk.eval(&("emit", &x), x[0] > 1 || x[1] == 3);
        chk.outcome("emitted");
        let _ = chk.expect_eq(
            name,
            || json!({"file": format!("[emit]\n{file}"), "args": args, "stderr": err}),
            &format!("stdout {stdout} file's {} command line's {}", !stdout && x[1] == 1, !stdout && x[1] > 1),
            &format!("stdout {} file's {} command line's {}", out.contains("a.own.m"), hit[0], hit[1]),
        );
    });
}

fn run(chk: &Arc<Check>) {
    discovery(chk);
    servers(chk);
    settings(chk);
}
