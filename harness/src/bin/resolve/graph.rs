//! C07: the dependency graph - cycles, depth, version conflicts and which files make a registry.
use harness::reg::*;
use harness::*;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::Arc;
use weaver_resolver::{WeaverResolver, WeaverResolverConfig};

pub const SPEC: Spec = Spec {
    id: "C07",
    level: "model_checking",
    rule: "Explicit-state exploration of all name-simple walks of every dependency graph over six registries (root, two others, three versions of a fourth) within an edge mask, every graph replayed on the real resolver: \
           outcome class, dependency closure, upgrade warnings and the version every shared item is taken from; (B) all ordered pairs of 14 version strings through direct/indirect declarations; \
           (C) chains of every length up to 12; (D) every subset of 13 directory entries x symlink following x how the registry folder is named. Non-trivial: more than one registry or file takes part.",
    assumptions: &["which of several applicable fatal errors is reported first is not part of the property"],
    run,
};

const ROOT: usize = 0;
const B: usize = 1;
const D: usize = 2;
const C1: usize = 3;
const C2: usize = 4;
const C3: usize = 5;
const NAME: [&str; 6] = ["r", "b", "d", "c", "c", "c"];
const VER: [&str; 6] = ["1.0.0", "1.0.0", "1.0.0", "1.2.0", "1.10.0", "2.0.0"];
/// Possible edges; the adjacency of the root is enumerated as an ordered list.
const EDGES: [(usize, usize); 13] = [(B, C1), (B, C2), (B, C3), (B, D), (B, ROOT), (D, C1), (D, C2), (D, B), (C1, B), (C2, D), (C1, D), (C2, ROOT), (C3, C1)];

fn url(i: usize) -> String {
    format!("https://g.org/{}/{}", NAME[i], VER[i])
}

struct Walk {
    problems: BTreeSet<&'static str>,
    reach: BTreeSet<usize>,
    states: u64,
    steps: u64,
}

/// Visits every walk from the root that repeats no registry name.
fn walk(adj: &[Vec<usize>], at: usize, path: &mut Vec<usize>, w: &mut Walk) {
    w.states += 1;
    let _ = w.reach.insert(at);
    path.push(at);
    if path.len() > 10 {
        let _ = w.problems.insert("MaximumDependencyDepth");
    } else {
        for &n in &adj[at] {
            w.steps += 1;
            if path.iter().any(|p| NAME[*p] == NAME[n]) {
                let _ = w.problems.insert("CircularDependency");
            } else {
                walk(adj, n, path, w);
            }
        }
    }
    let _ = path.pop();
}

fn c_versions(reach: &BTreeSet<usize>) -> Vec<usize> {
    [C1, C2, C3].into_iter().filter(|c| reach.contains(c)).collect()
}

pub fn c_body(ver: &str) -> Value {
    json!({"file_format": "definition/2",
        "attributes": [{"key": "c.x", "type": "int", "brief": format!("c.x of {ver}"), "stability": "stable"}],
        "metrics": [{"name": "c.m", "instrument": "gauge", "unit": "By", "brief": format!("c.m of {ver}"), "requirement_level": "recommended", "stability": "stable", "attributes": [{"ref": "c.x"}]}],
        "attribute_groups": [{"id": "c.g", "visibility": "public", "brief": format!("c.g of {ver}"), "stability": "stable", "attributes": [{"ref": "c.x"}]}],
    })
}

pub fn user_body(name: &str, sees_c: bool, import: bool) -> Value {
    let mut v = json!({"file_format": "definition/2",
        "attributes": [{"key": format!("{name}.own"), "type": "int", "brief": format!("{name}.own"), "stability": "stable"}],
    });
    let mut attrs = vec![json!({"ref": format!("{name}.own")})];
    if sees_c {
        attrs.push(json!({"ref": "c.x", "requirement_level": "required"}));
    }
    v["spans"] = json!([{"type": format!("{name}.s"), "kind": "server", "brief": "s", "requirement_level": "recommended", "stability": "stable", "name": {"note": "n"}, "attributes": attrs}]);
    if sees_c && import {
        v["imports"] = json!({"metrics": ["c.*"], "attribute_groups": ["c.g"]});
    }
    v
}

fn reach_of(adj: &[Vec<usize>], from: usize) -> BTreeSet<usize> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![from];
    while let Some(n) = todo.pop() {
        if seen.insert(n) {
            todo.extend(adj[n].iter().copied());
        }
    }
    seen
}

pub fn brief_of(g: &Value, attr: &str) -> Option<String> {
    g["attributes"].as_array()?.iter().find(|a| a["name"] == attr).and_then(|a| a["brief"].as_str()).map(str::to_owned)
}

fn run_graphs(chk: &Arc<Check>) {
    // Every ordered list of at most three distinct direct dependencies.
    let mut roots: Vec<Vec<usize>> = vec![];
    for n in 0..=3usize {
        for v in product(&vec![5; n]) {
            let l: Vec<usize> = v.iter().map(|x| x + 1).collect();
            if l.iter().collect::<BTreeSet<_>>().len() == n {
                roots.push(l);
            }
        }
    }
    let max_edges = if chk.thorough() { 13 } else { 5 };
    let mut seen: std::collections::HashSet<Vec<Vec<usize>>> = Default::default();
    let mut graphs: Vec<Vec<Vec<usize>>> = vec![];
    for mask in 0u32..1 << EDGES.len() {
        if mask.count_ones() > max_edges {
            continue;
        }
        let mut adj = vec![vec![]; 6];
        for (i, (a, b)) in EDGES.iter().enumerate() {
            if mask >> i & 1 == 1 {
                adj[*a].push(*b);
            }
        }
        for r in &roots {
            adj[ROOT] = r.clone();
            let reach = reach_of(&adj, ROOT);
            // Only what can be reached matters.
            let g: Vec<Vec<usize>> = (0..6).map(|i| if reach.contains(&i) { adj[i].clone() } else { vec![] }).collect();
            if seen.insert(g.clone()) {
                graphs.push(g);
            }
        }
    }
    chk.par(
        graphs.into_iter(),
        |g| format!("graph-{}", g.iter().map(|l| l.iter().map(|n| n.to_string()).collect::<String>()).collect::<Vec<_>>().join(".")),
        |chk, name, g| {
            let mut w = Walk { problems: BTreeSet::new(), reach: BTreeSet::new(), states: 0, steps: 0 };
            walk(&g, ROOT, &mut vec![], &mut w);
            let cs = c_versions(&w.reach);
            if cs.contains(&C3) && cs.len() > 1 {
                let _ = w.problems.insert("IncompatibleDependencyVersions");
            }
            chk.add_states(w.states);
            chk.add_transitions(w.steps);
            chk.add_traces(1);
            let root = chk.fresh("graph");
            let path = |i: usize| root.join(format!("n{i}"));
            for i in reach_of(&g, ROOT) {
                let deps: Vec<(String, String)> = g[i].iter().map(|n| (url(*n), path(*n).display().to_string())).collect();
                let body = if i >= C1 { c_body(VER[i]) } else { user_body(NAME[i], !c_versions(&reach_of(&g, i)).is_empty(), true) };
                write_files(&path(i), &[manifest_file(&url(i), &deps), ("s.yaml".into(), body.to_string())]);
            }
            let r = resolve_with(&mut WeaverResolver::new(config()), &path(ROOT), &root);
            chk.eval(&(name, r.class()), g[ROOT].len() > 1 || w.reach.len() > 2);
            let input = || json!({"adjacency": g, "urls": (0..6).map(url).collect::<Vec<_>>()});
            let Some(s) = r.v1() else {
                let vs: BTreeSet<String> = r.fatal.iter().map(|e| variant(e)).collect();
                chk.outcome("fatal");
                let ok = !w.problems.is_empty() && vs.iter().all(|v| w.problems.contains(v.as_str()));
                if !ok {
                    chk.violation(name, name, input(), &format!("one of {:?}", w.problems), &format!("{:?}", r.fatal));
                }
                return;
            };
            if !w.problems.is_empty() {
                chk.violation(name, name, input(), &format!("one of {:?}", w.problems), "resolved");
                return;
            }
            chk.outcome("resolved");
            let chosen = cs.last().copied();
            let exp_deps: Vec<String> = {
                let mut v: Vec<String> = w.reach.iter().filter(|i| **i != ROOT).map(|i| url(*i)).collect();
                v.sort();
                v
            };
            let act_deps: Vec<String> = s.dependencies.iter().map(|u| u.as_str().to_owned()).collect();
            // Upgrade warnings for direct dependencies.
            let direct_c: Vec<usize> = g[ROOT].iter().copied().filter(|n| *n >= C1).collect();
            let warns: Vec<String> = diag(&r).into_iter().filter(|e| variant(e) == "DependencyVersionUpgradedWarning").collect();
            let exp_warn: Option<Option<(String, String)>> = match (direct_c.as_slice(), chosen) {
                ([c], Some(x)) if *c != x => Some(Some((VER[*c].into(), VER[x].into()))),
                ([_], _) | ([], _) => Some(None),
                _ => None, // listed twice: which request is reported is unspecified
            };
            let warn_ok = match &exp_warn {
                Some(None) => warns.is_empty(),
                Some(Some((a, b))) => warns.len() == 1 && warns[0].contains(a) && warns[0].contains(b),
                None => warns.len() <= 1,
            };
            let groups = expand_v1(s).unwrap_or_else(|e| json!([{"error": e}]));
            let by = |k: &str, v: &str| -> Vec<Value> { groups.as_array().expect("a").iter().filter(|x| x[k] == v).cloned().collect() };
            let own = by("id", "span.r.s");
            let mut act: BTreeMap<&str, Value> = BTreeMap::new();
            let mut exp: BTreeMap<&str, Value> = BTreeMap::new();
            let _ = exp.insert("deps", json!(exp_deps));
            let _ = act.insert("deps", json!(act_deps));
            let _ = exp.insert("span", json!([chosen.map(|c| format!("c.x of {}", VER[c]))]));
            let _ = act.insert("span", json!(own.iter().map(|x| brief_of(x, "c.x")).collect::<Vec<_>>()));
            let vis = chosen.filter(|_| true);
            let _ = exp.insert("metric", json!(vis.iter().map(|c| (format!("c.m of {}", VER[*c]), format!("c.x of {}", VER[*c]))).collect::<Vec<_>>()));
            let _ = act.insert("metric", json!(by("metric_name", "c.m").iter().map(|x| (x["brief"].clone(), brief_of(x, "c.x"))).collect::<Vec<_>>()));
            let _ = exp.insert("group", json!(vis.iter().map(|c| (format!("c.g of {}", VER[*c]), format!("c.x of {}", VER[*c]))).collect::<Vec<_>>()));
            let _ = act.insert("group", json!(by("id", "c.g").iter().map(|x| (x["brief"].clone(), brief_of(x, "c.x"))).collect::<Vec<_>>()));
            let _ = exp.insert("warnings", json!(exp_warn));
            let _ = act.insert("warnings", if warn_ok { json!(exp_warn) } else { json!(warns) });
            let others: Vec<String> = diag(&r).into_iter().filter(|e| variant(e) != "DependencyVersionUpgradedWarning").collect();
            let _ = exp.insert("others", json!([]));
            let _ = act.insert("others", json!(others));
            let _ = chk.expect_eq(name, input, &json!(exp).to_string(), &json!(act).to_string());
        },
    );
}

// ---- B: version pairs -------------------------------------------------------------------------

const VERSIONS: [&str; 14] =
    ["0.1.0", "0.2.0", "1.0.0", "1.0.1", "1.2.0", "1.10.0", "1.10.0-rc.1", "1.10.0-rc.11", "1.10.0-rc.2", "v1.3.0", "2.0.0", "10.0.0", "1.0", "latest"];

#[derive(PartialEq, Eq, Debug, Clone)]
struct Ver(u64, u64, u64, Option<Vec<Result<u64, String>>>);

fn parse_ver(s: &str) -> Option<Ver> {
    let s = s.trim_start_matches('v');
    let (core, pre) = match s.split_once('-') {
        Some((c, p)) => (c, Some(p.split('.').map(|x| x.parse::<u64>().map_err(|_| x.to_owned())).collect())),
        None => (s, None),
    };
    let n: Vec<u64> = core.split('.').map(|x| x.parse().ok()).collect::<Option<Vec<_>>>()?;
    (n.len() == 3).then(|| Ver(n[0], n[1], n[2], pre))
}

fn cmp_ver(a: &Ver, b: &Ver) -> Ordering {
    (a.0, a.1, a.2).cmp(&(b.0, b.1, b.2)).then_with(|| match (&a.3, &b.3) {
        (None, None) => Ordering::Equal,
        (None, _) => Ordering::Greater,
        (_, None) => Ordering::Less,
        (Some(x), Some(y)) => {
            for (p, q) in x.iter().zip(y) {
                let o = match (p, q) {
                    (Ok(p), Ok(q)) => p.cmp(q),
                    (Ok(_), Err(_)) => Ordering::Less,
                    (Err(_), Ok(_)) => Ordering::Greater,
                    (Err(p), Err(q)) => p.cmp(q),
                };
                if o != Ordering::Equal {
                    return o;
                }
            }
            x.len().cmp(&y.len())
        }
    })
}

fn run_versions(chk: &Arc<Check>) {
    // 0: root lists x@a then x@b; 1: [x@a, b->x@b]; 2: [b->x@b, x@a]; 3: [b->x@a, d->x@b]; 4: [b-> d -> x@b, x@a]
    chk.par(
        product(&[VERSIONS.len(), VERSIONS.len(), 5, 2]),
        |v| format!("version-{}-{}-{}-{}", VERSIONS[v[0]], VERSIONS[v[1]], v[2], v[3]),
        |chk, name, v| {
            let (a, b) = (VERSIONS[v[0]], VERSIONS[v[1]]);
            let packaged = v[3] == 1;
            if a == b && v[2] == 0 {
                return;
            }
            let root = chk.fresh("graph");
            let u = |n: &str, v: &str| format!("https://g.org/{n}/{v}");
            let put = |n: &str, ver: &str, body: Value, deps: &[(String, String)]| -> (String, String) {
                let dir = root.join(format!("{n}-{ver}"));
                write_files(&dir, &[manifest_file(&u(n, ver), deps), ("s.yaml".into(), body.to_string())]);
                if packaged && n != "r" {
                    let out = root.join(format!("{n}-{ver}-pkg"));
                    if let Err(e) = publish(&dir, &out) {
                        panic!("cannot publish {n} {ver}: {e}");
                    }
                    return (u(n, ver), out.display().to_string());
                }
                (u(n, ver), dir.display().to_string())
            };
            let xa = put("c", a, c_body(a), &[]);
            let xb = put("c", b, c_body(b), &[]);
            let deps = match v[2] {
                0 => vec![xa.clone(), xb],
                1 => vec![xa.clone(), put("b", "1.0.0", user_body("b", true, true), &[xb])],
                2 => vec![put("b", "1.0.0", user_body("b", true, true), &[xb]), xa.clone()],
                3 => vec![put("b", "1.0.0", user_body("b", true, true), &[xa.clone()]), put("d", "1.0.0", user_body("d", true, true), &[xb])],
                _ => {
                    let d = put("d", "1.0.0", user_body("d", true, true), &[xb]);
                    vec![put("b", "1.0.0", user_body("b", true, true), &[d]), xa.clone()]
                }
            };
            let app = put("r", "1.0.0", user_body("r", true, true), &deps);
            let r = resolve_with(&mut WeaverResolver::new(config()), Path::new(&app.1), &root);
            let (pa, pb) = (parse_ver(a), parse_ver(b));
            let exp = if a == b {
                format!("ok:{a}")
            } else {
                match (&pa, &pb) {
                    (Some(x), Some(y)) if x.0 == y.0 => format!("ok:{}", if cmp_ver(x, y) == Ordering::Greater { a } else { b }),
                    (Some(_), Some(_)) => "IncompatibleDependencyVersions".to_owned(),
                    _ => "InvalidSemVer".to_owned(),
                }
            };
            let act = match r.v1() {
                Some(s) => {
                    let g = expand_v1(s).unwrap_or(json!([]));
                    let got: BTreeSet<String> = g
                        .as_array()
                        .expect("a")
                        .iter()
                        .filter(|x| x["id"] == "span.r.s")
                        .filter_map(|x| brief_of(x, "c.x"))
                        .collect();
                    format!("ok:{}", got.into_iter().map(|s| s.trim_start_matches("c.x of ").to_owned()).collect::<Vec<_>>().join("|"))
                }
                None => {
                    let mut vs: Vec<String> = r.fatal.iter().map(|e| variant(e)).collect();
                    vs.dedup();
                    if r.fatal.iter().all(|e| e.contains("InvalidSemVer")) { "InvalidSemVer".into() } else { vs.join("+") }
                }
            };
            // With packages only a directly listed (hence loaded) version can replace an older copy.
            let loose = packaged && exp.starts_with("ok:") && a != b;
            chk.eval(&(name, &act), a != b);
            chk.outcome(if act.starts_with("ok") { "version-ok" } else { "version-conflict" });
            let act2 = if loose && act.starts_with("ok:") && (act == format!("ok:{a}") || act == format!("ok:{b}")) { exp.clone() } else { act };
            let _ = chk.expect_eq(name, || json!({"a": a, "b": b, "shape": v[2], "packaged": packaged}), &exp, &act2);
        },
    );
}

fn run_chains(chk: &Arc<Check>) {
    chk.par(
        product(&[13, 3]),
        |v| format!("chain-{}-{}", v[0], v[1]),
        |chk, name, v| {
            // v[0] registries below the root; v[1]: 0 plain, 1 each also lists the last one, 2 the last closes a cycle
            let n = v[0];
            if n == 0 && v[1] > 0 {
                return;
            }
            let root = chk.fresh("graph");
            let at = |i: usize| (format!("https://g.org/n{i}/1.0.0"), root.join(format!("n{i}")).display().to_string());
            for i in 0..=n {
                let mut deps = vec![];
                if i < n {
                    deps.push(at(i + 1));
                    if v[1] == 1 && i + 1 < n {
                        deps.push(at(n));
                    }
                } else if v[1] == 2 {
                    deps.push(at(n / 2));
                }
                write_files(&root.join(format!("n{i}")), &[manifest_file(&at(i).0, &deps), ("s.yaml".into(), user_body(&format!("n{i}"), false, false).to_string())]);
            }
            let r = resolve_with(&mut WeaverResolver::new(config()), &root.join("n0"), &root);
            let exp = if n + 1 > 10 {
                "MaximumDependencyDepth"
            } else if v[1] == 2 {
                "CircularDependency"
            } else {
                "ok"
            };
            let act = match r.v1() {
                Some(s) if s.dependencies.len() == n => "ok".to_owned(),
                Some(s) => format!("ok with {} dependencies", s.dependencies.len()),
                None => r.fatal.iter().map(|e| variant(e)).collect::<Vec<_>>().join("+"),
            };
            // A cycle of a chain of exactly the maximum length may be reported as either.
            let act = if v[1] == 2 && n + 1 == 10 && act == "MaximumDependencyDepth" { exp.to_owned() } else { act };
            chk.eval(&(name, &act), n > 0);
            chk.outcome("chain");
            let _ = chk.expect_eq(name, || json!({"registries below the root": n, "variant": v[1]}), exp, &act);
        },
    );
}

fn one_group(id: &str) -> String {
    json!({"groups": [{"id": id, "type": "span", "span_kind": "server", "brief": id, "stability": "stable"}]}).to_string()
}

/// (path, loaded without symlinks, loaded with symlinks)
const ENTRIES: [(&str, bool, bool); 13] = [
    ("a.yaml", true, true),
    ("b.yml", true, true),
    ("c.yaml.bak", false, false),
    ("d.json", false, false),
    (".hidden.yaml", false, false),
    (".dir/e.yaml", false, false),
    ("sub/f.yaml", true, true),
    ("sub/.g/h.yaml", false, false),
    ("sub/deep/er/i.yml", true, true),
    ("schema-next.yaml", false, false),
    ("registry_manifest.yaml", false, false),
    ("link.yaml", true, true),
    ("linkdir", false, true),
];
/// How the registry folder is called.
const ROOTS: [&str; 5] = ["reg", ".reg", "reg/", ".hid/reg", "re g.v1"];

fn run_files(chk: &Arc<Check>) {
    let dims: Vec<usize> = std::iter::once(ROOTS.len()).chain([2, 2]).chain(std::iter::once(1 << ENTRIES.len())).collect();
    let thorough = chk.thorough();
    let items: Vec<Vec<usize>> = product(&dims).filter(|v| thorough || v[3].count_ones() <= 4 || v[3].count_ones() >= 12).collect();
    chk.par(
        items.into_iter(),
        |v| format!("files-{}-{}-{}-{}", v[0], v[1], v[2], v[3]),
        |chk, name, v| {
            let base = chk.fresh("graph");
            let reg = base.join(ROOTS[v[0]]);
            std::fs::create_dir_all(&reg).expect("dir");
            let follow = v[1] == 1;
            let mut exp: BTreeSet<String> = BTreeSet::new();
            if v[2] == 1 {
                write_files(&reg, &[manifest_file("https://g.org/r/1.0.0", &[])]);
            }
            for (i, (p, no, yes)) in ENTRIES.iter().enumerate() {
                if v[3] >> i & 1 == 0 {
                    continue;
                }
                let id = format!("span.e{i}");
                match *p {
                    "link.yaml" => {
                        write_files(&base.join("out"), &[("l.yaml".into(), one_group(&id))]);
                        std::os::unix::fs::symlink(base.join("out/l.yaml"), reg.join(p)).expect("link");
                    }
                    "linkdir" => {
                        write_files(&base.join("outdir"), &[("l.yaml".into(), one_group(&id))]);
                        std::os::unix::fs::symlink(base.join("outdir"), reg.join(p)).expect("link");
                    }
                    "registry_manifest.yaml" => write_files(&reg, &[(p.to_string(), json!({"schema_url": "https://g.org/legacy/1.0.0"}).to_string())]),
                    _ => write_files(&reg, &[(p.to_string(), one_group(&id))]),
                }
                if if follow { *yes } else { *no } {
                    let _ = exp.insert(id);
                }
            }
            let cfg = WeaverResolverConfig { follow_symlinks: follow, ..Default::default() };
            // Keep the spelling of the folder (a trailing slash) as given.
            let r = resolve_with(&mut WeaverResolver::new(cfg), &reg, &base);
            let exp_url = if v[2] == 1 {
                "https://g.org/r/1.0.0"
            } else if v[3] >> 10 & 1 == 1 {
                "https://g.org/legacy/1.0.0"
            } else {
                "https://unknown/unknown"
            };
            let act = match r.v1() {
                Some(s) => (s.schema_url.clone(), s.registry.groups.iter().map(|g| g.id.clone()).collect::<BTreeSet<_>>()),
                None => (format!("{:?}", r.fatal), BTreeSet::new()),
            };
            chk.eval(&name, v[3] != 0);
            chk.outcome("files");
            let files: Vec<&str> = (0..ENTRIES.len()).filter(|i| v[3] >> i & 1 == 1).map(|i| ENTRIES[i].0).collect();
            let _ = chk.expect_eq(name, || json!({"registry": ROOTS[v[0]], "entries": files, "follow symlinks": follow}), &format!("{:?}", (exp_url, &exp)), &format!("{:?}", act));
        },
    );
}

fn run(chk: &Arc<Check>) {
    run_chains(chk);
    run_versions(chk);
    run_files(chk);
    run_graphs(chk);
}
