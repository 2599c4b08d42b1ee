//! C08: the resolver's cache never changes a result.
use crate::graph::{c_body, user_body};
use harness::reg::*;
use harness::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use weaver_common::result::WResult;
use weaver_common::vdir::VirtualDirectoryPath;
use weaver_resolver::WeaverResolver;
use weaver_semconv::schema_url::SchemaUrl;

pub const SPEC: Spec = Spec {
    id: "C08",
    level: "model_checking",
    rule: "Every history of operations up to a depth over a universe of registries with shared, versioned and conflicting dependencies, \
           for every cache capacity: each operation either loads a registry folder or resolves a schema URL; its result (complete schema or fatal error) must equal that of the same operation on a fresh resolver. \
           Non-trivial: the history has an earlier operation.",
    assumptions: &["diagnostics of a schema served from the cache are not repeated (they were reported when it was first resolved)"],
    run,
};

/// name, version, dependencies (indices), published
const UNIVERSE: [(&str, &str, &[usize]); 12] = [
    ("c", "1.2.0", &[]),           // 0
    ("c", "1.10.0", &[]),          // 1
    ("c", "2.0.0", &[]),           // 2
    ("b", "1.0.0", &[0]),          // 3
    ("d", "1.0.0", &[1]),          // 4
    ("e", "1.0.0", &[2]),          // 5
    ("m", "1.0.0", &[3, 4]),       // 6  diamond, compatible versions
    ("n", "1.0.0", &[3, 2]),       // 7  conflict through a dependency
    ("p", "1.0.0", &[4, 0]),       // 8  direct older version
    ("q", "1.0.0", &[6, 5]),       // 9  conflict two levels down
    ("s", "1.0.0", &[3, 1]),       // 10 direct newer version
    ("b", "1.1.0", &[6]),          // 11 b again, two levels up: circular by name
];

fn url(i: usize) -> String {
    format!("https://g.org/{}/{}", UNIVERSE[i].0, UNIVERSE[i].1)
}

fn build(root: &Path, published: &[usize]) -> Vec<PathBuf> {
    let mut dirs: Vec<PathBuf> = vec![];
    for (i, (name, ver, deps)) in UNIVERSE.iter().enumerate() {
        let dir = root.join(format!("u{i}"));
        let d: Vec<(String, String)> = deps.iter().map(|n| (url(*n), dirs[*n].display().to_string())).collect();
        let body = if *name == "c" { c_body(ver) } else { user_body(name, true, true) };
        write_files(&dir, &[manifest_file(&url(i), &d), ("s.yaml".into(), body.to_string())]);
        if published.contains(&i) {
            let out = root.join(format!("u{i}-pkg"));
            publish(&dir, &out).expect("publish");
            dirs.push(out);
        } else {
            dirs.push(dir);
        }
    }
    // Depends on a URL whose registry states another one.
    write_files(&root.join("uo"), &[manifest_file("https://g.org/uo/1.0.0", &[(OTHER.to_owned(), dirs[0].display().to_string())]), ("s.yaml".into(), user_body("uo", true, true).to_string())]);
    dirs
}

fn value(r: &Res) -> Value {
    match &r.schema {
        Some(weaver_resolver::WeaverResolvedSchema::V1(s)) => schema_value(s),
        Some(weaver_resolver::WeaverResolvedSchema::V2(s)) => json!({"v2": s}),
        None => {
            let mut f: Vec<String> = r.fatal.iter().map(|e| variant(e)).collect();
            f.sort();
            json!({"fatal": f})
        }
    }
}

/// A URL whose registry (the first of the universe) states another one.
const OTHER: &str = "https://g.org/other/1.0.0";
/// A URL whose registry does not exist.
const NOWHERE: &str = "https://g.org/nowhere/1.0.0";
const NOPS: usize = 2 * UNIVERSE.len() + 3;

/// What an operation does.
fn describe(op: usize) -> String {
    let n = UNIVERSE.len();
    match op {
        _ if op < n => format!("load {}", url(op)),
        _ if op < 2 * n => format!("resolve {}", url(op - n)),
        24 => format!("resolve {OTHER}, whose registry says it is {}", url(0)),
        25 => format!("resolve {NOWHERE}, whose registry does not exist"),
        _ => format!("load a registry that depends on {OTHER}"),
    }
}

/// Operations: 0..12 load folder i; 12..24 resolve the schema URL of i; then those of `describe`.
fn apply(r: &mut WeaverResolver, dirs: &[PathBuf], op: usize, root: &Path) -> Value {
    let n = UNIVERSE.len();
    if op < n {
        return value(&resolve_with(r, &dirs[op], root));
    }
    let u = match op {
        26 => return value(&resolve_with(r, &root.join("uo"), root)),
        24 => OTHER.to_owned(),
        25 => NOWHERE.to_owned(),
        _ => url(op - n),
    };
    let u = SchemaUrl::try_from(u.as_str()).expect("url");
    let res = match r.resolve_schema(&u) {
        WResult::Ok(a) => WResult::Ok((*a).clone()),
        WResult::OkWithNFEs(a, n) => WResult::OkWithNFEs((*a).clone(), n),
        WResult::FatalErr(e) => WResult::FatalErr(e),
    };
    value(&to_res(res, &root.display().to_string(), &mut vec![]))
}

fn resolver(cap: usize, dirs: &[PathBuf]) -> WeaverResolver {
    let mut r = WeaverResolver::new(config_cap(cap));
    for (i, d) in dirs.iter().enumerate() {
        r.add_schema_url_override(SchemaUrl::try_from(url(i).as_str()).expect("url"), VirtualDirectoryPath::LocalFolder { path: d.display().to_string() });
    }
    for (u, path) in [(OTHER, dirs[0].clone()), (NOWHERE, dirs[0].join("nowhere"))] {
        r.add_schema_url_override(SchemaUrl::try_from(u).expect("url"), VirtualDirectoryPath::LocalFolder { path: path.display().to_string() });
    }
    r
}

/// First place where two values differ.
fn first_diff(a: &Value, b: &Value, at: String) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let keys: std::collections::BTreeSet<&String> = x.keys().chain(y.keys()).collect();
            for k in keys {
                if let Some(d) = first_diff(x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null), format!("{at}/{k}")) {
                    return Some(d);
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (p, q))| first_diff(p, q, format!("{at}/{i}"))),
        _ if a == b => None,
        _ => Some(format!("{at}: {a} / {b}")),
    }
}

fn run(chk: &Arc<Check>) {
    let base = chk.scratch().join("c08");
    let thorough = chk.thorough();
    let caps = [1usize, 2, 3, 4, 32];
    for (pi, published) in [vec![], vec![1], vec![0, 3], vec![2]].into_iter().enumerate() {
        let root = base.join(format!("v{pi}"));
        std::fs::create_dir_all(&root).expect("dir");
        let dirs = build(&root, &published);
        let nops = NOPS;
        let fresh: BTreeMap<usize, Value> = (0..nops).map(|op| (op, apply(&mut resolver(32, &dirs), &dirs, op, &root))).collect();
        for (op, v) in &fresh {
            chk.outcome(if v.get("fatal").is_some() { "fatal" } else { "resolved" });
            if !published.is_empty() {
                continue;
            }
            // The universe is what it was designed to be.
            let exp = match if *op < 24 { op % UNIVERSE.len() } else { *op } {
                24 => "MismatchSchemaUrl",
                25 => "SemConvSpecError",
                7 | 9 => "IncompatibleDependencyVersions",
                11 => "CircularDependency",
                _ => "",
            };
            let act = v["fatal"][0].as_str().unwrap_or("");
            let _ = chk.expect_eq(&format!("fresh-{op}"), || json!({"op": op}), exp, act);
        }
        let mut items: Vec<(usize, Vec<usize>)> = vec![];
        for cap in caps {
            for d in 1..=3 {
                for h in product(&vec![nops; d]) {
                    // Quick: of the histories of three, those with two loads of folders first.
                    if d < 3 || thorough || (cap < 3 && h[0] < UNIVERSE.len() && h[1] < UNIVERSE.len() && (h[2] % UNIVERSE.len() > 5 || h[2] >= 24)) {
                        items.push((cap, h));
                    }
                }
            }
        }
        let dirs = Arc::new(dirs);
        let fresh = Arc::new(fresh);
        let root = Arc::new(root);
        chk.par(
            items.into_iter(),
            move |(cap, h)| format!("h{pi}-cap{cap}-{}", h.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(".")),
            move |chk, name, (cap, h)| {
                let mut r = resolver(cap, &dirs);
                let mut last = Value::Null;
                for op in &h {
                    last = apply(&mut r, &dirs, *op, &root);
                }
                chk.add_states(1);
                chk.add_transitions(h.len() as u64);
                chk.add_traces(1);
                chk.eval(name, h.len() > 1);
                let op = h[h.len() - 1];
                if let Some(d) = first_diff(&fresh[&op], &last, String::new()) {
                    let what = |o: &usize| describe(*o);
                    chk.violation(
                        name,
                        name,
                        json!({"capacity": cap, "history": h.iter().map(what).collect::<Vec<_>>(), "dependencies": UNIVERSE.iter().enumerate().map(|(i, u)| (url(i), u.2.iter().map(|d| url(*d)).collect::<Vec<_>>())).collect::<BTreeMap<_, _>>()}),
                        "the result of a fresh resolver",
                        &format!("fresh / after this history differ at {d}"),
                    );
                }
            },
        );
    }
}
