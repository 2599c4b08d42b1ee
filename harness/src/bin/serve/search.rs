//! C29: what can be searched, looked up and browsed, in the library, over HTTP and over MCP.
use harness::reg::{resolve_dir, write_files};
use harness::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::Arc;
use weaver_common::result::WResult;
use weaver_forge::v2::registry::ForgeResolvedRegistry;
use weaver_search::{SearchContext, SearchType};
use weaver_semconv::stability::Stability;

pub const SPEC: Spec = Spec {
    id: "C29",
    level: "model_checking",
    rule: "Exhaustive: (S) every query of up to 3 words of 5, over 4 separators and 2 cases, x every item (5 kinds x 14 ids x 6 briefs x 6 notes x deprecated or not) x namespace separators; (F) a registry with an item in every state (kind x stability x deprecated) x every combination of type, stability, hide_deprecated, query x every limit and offset; registries above the limit of 1000; (B) every subset of 10 (thorough 12) attribute keys x 4 separators x every prefix, its parts, its near misses: browsing, and every lookup of every name in it; \
           (H) every request of these kinds, percent-encoded, to `weaver serve`: search, lookups, filter, stats, cross origins; (M) every tool of `weaver registry mcp` with every argument, one by one and pipelined in both orders; every list of up to 2 (thorough 3) samples given to live_check, in both formats. \
           Oracle: a model of matching, scores, filters, pages and namespaces over the registry as templates see it; the same live check by the command. Non-trivial: something is found and something is not.",
    assumptions: &["items of equal score may come in any order, the same on each page", "the resolution of the registry is right (C01 to C10)"],
    run,
};

/// The registry of a folder as templates see it in v2.
pub fn forge(dir: &Path) -> Result<ForgeResolvedRegistry, String> {
    let r = resolve_dir(dir);
    let s = r.schema.ok_or_else(|| r.fatal.join("; "))?;
    let s: weaver_resolved_schema::v2::ResolvedTelemetrySchema = s.into_v1().map_err(|e| e.to_string())?.try_into().map_err(|e: weaver_resolved_schema::error::Error| e.to_string())?;
    match ForgeResolvedRegistry::try_from_resolved_schema(s, &mut weaver_resolver::NullSchemaResolver) {
        WResult::Ok(f) | WResult::OkWithNFEs(f, _) => Ok(f),
        WResult::FatalErr(e) => Err(e.to_string()),
    }
}

pub const KINDS: [&str; 5] = ["attribute", "metric", "span", "event", "entity"];
pub const STABILITY: [&str; 5] = ["stable", "development", "alpha", "beta", "release_candidate"];

/// One item of a registry.
#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub kind: usize,
    pub id: String,
    pub brief: String,
    pub note: String,
    pub stability: usize,
    pub deprecated: bool,
    pub template: bool,
}

pub fn item(kind: usize, id: &str) -> Item {
    Item { kind, id: id.to_owned(), brief: "b".into(), note: String::new(), stability: 0, deprecated: false, template: false }
}

/// The file that defines the items.
pub fn definitions(items: &[Item]) -> Value {
    let mut lists: Vec<Vec<Value>> = vec![vec![]; 5];
    for i in items {
        let mut m = json!({"brief": i.brief, "note": i.note, "stability": STABILITY[i.stability]});
        if i.deprecated {
            m["deprecated"] = json!({"reason": "obsoleted", "note": "gone"});
        }
        let more = match i.kind {
            0 => json!({"key": i.id, "type": if i.template { "template[string]" } else { "string" }, "examples": ["x"]}),
            1 => json!({"name": i.id, "instrument": "counter", "unit": "1", "attributes": [{"ref": "zz.used"}]}),
            2 => json!({"type": i.id, "kind": "client", "name": {"note": "n"}, "attributes": [{"ref": "zz.used"}]}),
            3 => json!({"name": i.id, "attributes": [{"ref": "zz.used"}]}),
            _ => json!({"type": i.id, "identity": [{"ref": "zz.used"}]}),
        };
        m.as_object_mut().unwrap().extend(more.as_object().unwrap().clone());
        lists[i.kind].push(m);
    }
    json!({"file_format": "definition/2", "attributes": lists[0], "metrics": lists[1], "spans": lists[2], "events": lists[3], "entities": lists[4]})
}

/// Writes the registry; every registry has the attribute its signals use.
pub fn registry(dir: &Path, items: &[Item]) -> Vec<Item> {
    let mut all = items.to_vec();
    all.push(item(0, "zz.used"));
    write_files(dir, &[
        ("manifest.yaml".into(), json!({"schema_url": "https://x.y/reg/1.0.0", "description": "d"}).to_string()),
        ("a.yaml".into(), definitions(&all).to_string()),
    ]);
    all
}

// ---------------------------------------------------------------- the model

fn cut(s: &str, separator: &str, space: bool) -> Vec<String> {
    s.split(|c: char| separator.contains(c) || c == '_' || space && c.is_whitespace()).map(str::to_owned).collect()
}

pub fn score(i: &Item, query: &str, separator: &str) -> u32 {
    let (q, id, brief, note) = (query.to_lowercase(), i.id.to_lowercase(), i.brief.to_lowercase(), i.note.to_lowercase());
    let terms: Vec<String> = cut(&q, separator, true).into_iter().filter(|t| !t.is_empty()).collect();
    let parts = cut(&id, separator, false);
    let every = |f: &dyn Fn(&str) -> bool| !terms.is_empty() && terms.iter().all(|t| f(t));
    let s = if id == q {
        100
    } else if id.starts_with(&q) {
        80
    } else if id.contains(&q) {
        70
    } else if every(&|t| parts.iter().any(|p| p.contains(t))) {
        60
    } else if brief.contains(&q) {
        40
    } else if note.contains(&q) {
        20
    } else if every(&|t| brief.contains(t)) {
        35
    } else if every(&|t| note.contains(t)) {
        15
    } else {
        0
    };
    if i.deprecated && s > 0 { (s / 10).max(1) } else { s }
}

#[derive(Clone, Debug)]
pub struct Request {
    pub query: Option<String>,
    pub kind: Option<usize>,
    pub stability: Option<usize>,
    pub hide: bool,
}

/// (score, kind, id) of all items found, best first.
pub fn found(items: &[Item], r: &Request, separator: &str) -> Vec<(u32, usize, String)> {
    let q = r.query.as_deref().unwrap_or("");
    let mut out: Vec<(u32, usize, String)> = items
        .iter()
        .filter(|i| r.kind.is_none_or(|k| k == i.kind) && r.stability.is_none_or(|s| s == i.stability) && !(r.hide && i.deprecated))
        .map(|i| (if q.is_empty() { 0 } else { score(i, q, separator) }, i.kind, i.id.clone()))
        .filter(|f| q.is_empty() || f.0 > 0)
        .collect();
    out.sort_by(|a, b| b.0.cmp(&a.0).then(a.1.cmp(&b.1)).then(a.2.cmp(&b.2)));
    out
}

/// The same of an answer, items of equal score in the model's order.
pub fn said(results: &[Value]) -> (Vec<(u32, usize, String)>, bool) {
    let mut l: Vec<(u32, usize, String)> = results
        .iter()
        .map(|r| {
            let kind = KINDS.iter().position(|k| r["result_type"] == *k).unwrap_or(9);
            (r["score"].as_u64().unwrap_or(9999) as u32, kind, ident(r))
        })
        .collect();
    let ordered = l.windows(2).all(|w| w[0].0 >= w[1].0);
    l.sort_by(|a, b| b.0.cmp(&a.0).then(a.1.cmp(&b.1)).then(a.2.cmp(&b.2)));
    (l, ordered)
}

pub fn ident(v: &Value) -> String {
    // An attribute has a key, a span or entity a type, a span a name that is no string.
    v["key"].as_str().or(v["name"].as_str()).or(v["type"].as_str()).unwrap_or("?").to_owned()
}

/// What stands for an item in the registry templates see.
pub fn whole<'a>(context: &'a Value, kind: usize, id: &str) -> Option<&'a Value> {
    let lists = ["attributes", "metrics", "spans", "events", "entities"];
    context["registry"][lists[kind]].as_array()?.iter().find(|v| ident(v) == id)
}

/// An answer of one item of a search, without what the search adds.
pub fn stripped(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(o) = v.as_object_mut() {
        let _ = o.remove("score");
        let _ = o.remove("result_type");
    }
    v
}

fn stability(i: usize) -> Stability {
    serde_json::from_value(json!(STABILITY[i])).expect("stability")
}

const TYPES: [SearchType; 5] = [SearchType::Attribute, SearchType::Metric, SearchType::Span, SearchType::Event, SearchType::Entity];

fn search(ctx: &SearchContext, r: &Request, limit: usize, offset: usize) -> (Vec<Value>, usize) {
    let (l, total) = ctx.search(r.query.as_deref(), r.kind.map_or(SearchType::All, |k| TYPES[k]), r.stability.map(stability), r.hide, limit, offset);
    (l.iter().map(|x| serde_json::to_value(x).expect("json")).collect(), total)
}

// ---------------------------------------------------------------- scores

fn queries() -> Vec<String> {
    let words = ["http", "req", "a", "é", "method"];
    let mut out: Vec<String> = ["", " ", ".", "_", "..", "http.", ".req", "HTTP", "Http.Request", "É", "zzz", "http zzz"].map(str::to_owned).to_vec();
    for n in 1..=3 {
        for w in product(&vec![words.len(); n]) {
            for s in product(&vec![if n == 3 { 2 } else { 5 }; n - 1]) {
                let q: String = w.iter().enumerate().map(|(i, w)| format!("{}{}", if i == 0 { "" } else { [".", " ", "_", "/", ":"][s[i - 1]] }, words[*w])).collect();
                if w[0] < 2 && n < 3 {
                    out.push(q.to_uppercase());
                }
                out.push(q);
            }
        }
    }
    out
}

fn scores(chk: &Arc<Check>) {
    let ids = ["http", "http.request", "http.request.method", "request.http", "http_req", "x.http.req", "a", "a.b", "reqa.method", "é.http", "HTTP.Req", "http/req", "method:http::a", "n"];
    let briefs = ["b", "The HTTP request", "request, then http.", "http.req", "É a", "http/req a:method"];
    let notes = ["", "see http", "Method of a req in http", "http.req.method", "a é", "nothing"];
    chk.par(product(&[briefs.len(), notes.len(), 2]), |x| format!("S-{}-{}-{}", x[0], x[1], x[2]), |chk, name, x| {
        let mut items = vec![];
        for k in 0..5 {
            for i in ids {
                items.push(Item { brief: briefs[x[0]].into(), note: notes[x[1]].into(), deprecated: x[2] == 1, ..item(k, i) });
            }
        }
        let dir = chk.fresh("s");
        let items = registry(&dir, &items);
        let reg = match forge(&dir) {
            Ok(r) => r,
            Err(e) => return chk.violation(name, name, json!({}), "a registry", &e),
        };
        for separator in [".", "/", "::", "_"] {
            let ctx = SearchContext::from_registry_with_separator(&reg, separator.to_owned());
            for q in queries() {
                let r = Request { query: Some(q.clone()), kind: None, stability: None, hide: false };
                let want = found(&items, &r, separator);
                let (l, total) = match guarded(|| search(&ctx, &r, 1000, 0)) {
                    Ok(x) => x,
                    Err(e) => return chk.violation(name, name, json!({"query": q}), "an answer", &e),
                };
                let (got, ordered) = said(&l);
                chk.eval(&(name, separator, &q), !want.is_empty() && want.len() < items.len());
                chk.add_transitions(1);
                chk.outcome("searched");
                if !chk.expect_eq(name, || json!({"query": q, "separator": separator, "brief": briefs[x[0]], "note": notes[x[1]]}), &format!("{want:?}\n{} best first: true", want.len()), &format!("{got:?}\n{total} best first: {ordered}")) {
                    return;
                }
            }
        }
    });
}

// ---------------------------------------------------------------- filters and pages

/// An item in every state.
pub fn states() -> Vec<Item> {
    let mut out = vec![];
    for k in 0..5 {
        for s in 0..5 {
            for d in [false, true] {
                out.push(Item { stability: s, deprecated: d, ..item(k, &format!("{}{}.s{s}{}", ["at", "me", "sp", "ev", "en"][k], k, if d { "d" } else { "" })) });
            }
        }
    }
    // Templates are attributes; the same name may stand for two kinds.
    out.push(Item { template: true, ..item(0, "tt.all") });
    out.push(Item { template: true, stability: 1, deprecated: true, ..item(0, "tt.all.more") });
    out.push(Item { brief: "me1.s0".into(), ..item(0, "same") });
    out.push(Item { note: "S0".into(), ..item(2, "same") });
    out.push(item(4, "same"));
    out
}

pub fn requests() -> Vec<Request> {
    let queries = [None, Some(""), Some("s0"), Some("S1"), Some("me1.s0"), Some("no such")];
    product(&[queries.len(), 6, 6, 2])
        .map(|x| Request { query: queries[x[0]].map(str::to_owned), kind: x[1].checked_sub(1), stability: x[2].checked_sub(1), hide: x[3] == 1 })
        .collect()
}

fn pages(chk: &Arc<Check>) {
    let dir = chk.fresh("f");
    let items = Arc::new(registry(&dir, &states()));
    let reg = match forge(&dir) {
        Ok(r) => r,
        Err(e) => return chk.violation("F", "F", json!({}), "a registry", &e),
    };
    let context = Arc::new(serde_json::to_value(&reg).expect("json"));
    let ctx = Arc::new(SearchContext::from_registry(&reg));
    chk.par(requests().into_iter().enumerate(), |(i, _)| format!("F-{i}"), |chk, name, (_, r)| {
        let want = found(&items, &r, ".");
        let (full, total) = search(&ctx, &r, usize::MAX, 0);
        let (got, ordered) = said(&full);
        chk.eval(&format!("{r:?}"), !want.is_empty() && want.len() < items.len());
        chk.outcome("filtered");
        if !chk.expect_eq(name, || json!(format!("{r:?}")), &format!("{want:?} {} true", want.len()), &format!("{got:?} {total} {ordered}")) {
            return;
        }
        // Each is the item of the registry.
        for (v, (_, k, id)) in full.iter().map(|v| (v, said(std::slice::from_ref(v)).0.remove(0))) {
            let w = whole(&context, k, &id).cloned().unwrap_or_default();
            if !chk.expect_eq(name, || json!(format!("{r:?} {id}")), &w.to_string(), &stripped(v).to_string()) {
                return;
            }
        }
        // A page is a part of the whole.
        for limit in (0..=total + 1).chain([1000, usize::MAX]) {
            for offset in (0..=total + 1).chain([usize::MAX]) {
                if offset % 3 != limit % 3 && total > 20 && !chk.thorough() {
                    continue;
                }
                let (page, t) = search(&ctx, &r, limit, offset);
                let want: Vec<Value> = full.iter().skip(offset).take(limit).cloned().collect();
                chk.add_transitions(1);
                if !chk.expect_eq(name, || json!(format!("{r:?} limit {limit} offset {offset}")), &format!("{} {total}", json!(want)), &format!("{} {t}", json!(page))) {
                    return;
                }
            }
        }
    });
    // More items than an answer has.
    chk.par([999usize, 1000, 1001, 2003].into_iter(), |n| format!("F-many-{n}"), |chk, name, n| {
        let dir = chk.fresh("fm");
        // with the one every registry has
        let items = registry(&dir, &(1..n).map(|i| item(0, &format!("a.k{i}"))).collect::<Vec<_>>());
        let ctx = match forge(&dir) {
            Ok(r) => SearchContext::from_registry(&r),
            Err(e) => return chk.violation(name, name, json!({}), "a registry", &e),
        };
        for query in [None, Some("k")] {
            let r = Request { query: query.map(str::to_owned), kind: None, stability: None, hide: false };
            let all: BTreeSet<String> = found(&items, &r, ".").into_iter().map(|f| f.2).collect();
            for limit in [1, 10, 999, 1000, 1001, 5000, usize::MAX] {
                let most = limit.min(1000);
                let mut seen = BTreeSet::new();
                let (mut offset, mut wrong) = (0, String::new());
                if limit < 10 && n > 1000 && !chk.thorough() {
                    continue;
                }
                while offset < all.len() {
                    let (l, total) = search(&ctx, &r, limit, offset);
                    if l.len() != most.min(all.len() - offset) || total != all.len() {
                        wrong = format!("{} of {total} at {offset}", l.len());
                        break;
                    }
                    seen.extend(l.iter().map(ident));
                    offset += most;
                }
                chk.eval(&(n, query, limit), true);
                chk.add_transitions(1);
                if seen != all && wrong.is_empty() {
                    wrong = format!("{} different items of {}", seen.len(), all.len());
                }
                if !chk.expect_eq(name, || json!({"items": n, "query": query, "limit": limit}), "", &wrong) {
                    return;
                }
            }
        }
    });
}

// ---------------------------------------------------------------- namespaces and lookups

/// What browsing a prefix shows of (key, brief, stability).
pub fn browsed(keys: &[(String, Value)], prefix: &str, separator: &str) -> Value {
    let mut p = prefix;
    while let Some(x) = p.strip_suffix(separator) {
        p = x;
    }
    let under = if p.is_empty() { String::new() } else { format!("{p}{separator}") };
    let (mut attributes, mut spaces, mut total, mut deepest) = (vec![], BTreeSet::new(), 0, 0);
    for (k, v) in keys {
        let Some(rest) = k.strip_prefix(&under) else { continue };
        let parts: Vec<&str> = rest.split(separator).collect();
        total += 1;
        deepest = deepest.max(parts.len());
        if parts.len() == 1 {
            attributes.push((k.clone(), v.clone()));
        } else {
            let _ = spaces.insert(format!("{under}{}", parts[0]));
        }
    }
    attributes.sort_by(|a, b| a.0.cmp(&b.0));
    json!({"prefix": p, "sub_namespaces": spaces, "attributes": attributes.into_iter().map(|a| a.1).collect::<Vec<_>>(), "total_attribute_count": total, "max_depth": deepest})
}

pub fn summaries(items: &[Item]) -> Vec<(String, Value)> {
    items.iter().filter(|i| i.kind == 0).map(|i| (i.id.clone(), json!({"key": i.id, "brief": i.brief, "stability": STABILITY[i.stability]}))).collect()
}

pub fn prefixes(keys: &[&str], separator: &str) -> Vec<String> {
    let mut out: BTreeSet<String> = ["", "no", "no.such", "a.", "a..", "h", ".", "é", "a.b/"].map(str::to_owned).into();
    out.extend([separator.to_owned(), separator.repeat(2), format!("a{separator}"), format!("a{0}{0}", separator)]);
    for k in keys {
        for (i, _) in k.char_indices() {
            let _ = out.insert(k[..i].to_owned());
        }
        out.extend([(*k).to_owned(), format!("{k}{separator}"), format!("{k}{separator}x")]);
    }
    out.into_iter().collect()
}

const KEYS: [&str; 12] = ["a", "a.b", "a.b.c", "ab", "ab.c", "a.b_c", "a_b", "a/b.c", "a::b::c", "a.bé", "t.x", "t.x.y.z"];

fn spaces(chk: &Arc<Check>) {
    let n = if chk.thorough() { 12 } else { 10 };
    let dir = chk.fresh("b");
    let pool: Vec<&str> = KEYS[KEYS.len() - n..].to_vec();
    let items: Vec<Item> = pool
        .iter()
        .enumerate()
        .map(|(i, k)| Item { template: k.starts_with("t.") || i == 4, stability: i % 5, brief: format!("brief {i}"), deprecated: i == 6, ..item(0, k) })
        .collect();
    let all = registry(&dir, &items);
    let reg = match forge(&dir) {
        Ok(r) => Arc::new(r),
        Err(e) => return chk.violation("B", "B", json!({}), "a registry", &e),
    };
    let summaries = Arc::new(summaries(&all));
    let pool = Arc::new(pool);
    let chunks: Vec<Vec<u32>> = (0..1u32 << n).collect::<Vec<_>>().chunks(16).map(<[_]>::to_vec).collect();
    chk.par(chunks.into_iter(), |c| format!("B-{}", c[0]), |chk, name, chunk| {
        for set in chunk {
            let has = |k: &str| pool.iter().position(|p| *p == k).is_some_and(|i| set & (1 << i) > 0);
            let mut part = (*reg).clone();
            part.registry.attributes.retain(|a| has(&a.key));
            let keys: Vec<(String, Value)> = summaries.iter().filter(|k| has(&k.0)).cloned().collect();
            for separator in [".", "_", "::", "/"] {
                let ctx = SearchContext::from_registry_with_separator(&part, separator.to_owned());
                for p in prefixes(&pool, separator) {
                    let want = browsed(&keys, &p, separator);
                    let got = guarded(|| ctx.browse_namespace(Some(&p)));
                    let got = got.map(|g| serde_json::to_value(g).expect("json")).unwrap_or_else(|e| json!(e));
                    chk.eval(&(set, separator, &p), want["total_attribute_count"] != 0);
                    chk.add_transitions(1);
                    chk.outcome("browsed");
                    if !chk.expect_eq(name, || json!({"keys": keys, "separator": separator, "prefix": p}), &want.to_string(), &got.to_string()) {
                        return;
                    }
                }
                let root = serde_json::to_value(ctx.browse_namespace(None)).expect("json");
                if !chk.expect_eq(name, || json!({"keys": keys, "separator": separator, "prefix": null}), &browsed(&keys, "", separator).to_string(), &root.to_string()) {
                    return;
                }
            }
            // Lookups.
            let ctx = SearchContext::from_registry(&part);
            for i in items_of(&all) {
                let there = has(&i.id);
                let a = ctx.get_attribute(&i.id).map(|a| a.key.clone());
                let t = ctx.get_template(&i.id).map(|a| a.key.clone());
                let want = if !there { (None, None) } else if i.template { (None, Some(i.id.clone())) } else { (Some(i.id.clone()), None) };
                chk.add_transitions(1);
                if !chk.expect_eq(name, || json!({"keys": keys, "lookup": i.id}), &format!("{want:?}"), &format!("{:?}", (a, t))) {
                    return;
                }
                // The longest template a name starts with.
                for more in ["", ".", ".q", ".y", ".y.z.w"] {
                    let full = format!("{}{more}", i.id);
                    let want = items_of(&all).filter(|x| x.template && has(&x.id) && full.starts_with(&x.id)).map(|x| x.id.clone()).max_by_key(String::len);
                    let got = ctx.find_template(&full).map(|a| a.key.clone());
                    if !chk.expect_eq(name, || json!({"keys": keys, "template of": full}), &format!("{want:?}"), &format!("{got:?}")) {
                        return;
                    }
                }
            }
        }
    });
}

fn items_of(all: &[Item]) -> impl Iterator<Item = &Item> {
    all.iter().filter(|i| i.kind == 0 && i.id != "zz.used")
}

/// Every lookup of a registry: (kind, name, the item if there is one).
pub fn lookups(items: &[Item], context: &Value) -> Vec<(usize, String, Option<Value>)> {
    let mut names: BTreeSet<String> = items.iter().map(|i| i.id.clone()).collect();
    names.extend(["no.such", "SAME", "tt", "tt.all.x", "at0"].map(str::to_owned));
    (0..5).flat_map(|k| names.iter().map(move |n| (k, n.clone(), whole(context, k, n).cloned()))).collect()
}

pub fn object(pairs: &[(&str, Value)]) -> Value {
    Value::Object(pairs.iter().map(|(k, v)| ((*k).to_owned(), v.clone())).collect::<Map<_, _>>())
}

fn run(chk: &Arc<Check>) {
    scores(chk);
    pages(chk);
    spaces(chk);
    crate::api::run(chk);
    crate::mcp::run(chk);
}
