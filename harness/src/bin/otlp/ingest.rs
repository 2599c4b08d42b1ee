//! C22: what is received over OTLP is what is checked and reported.
use crate::session::{http, port, End, Session};
use crate::wire::*;
use harness::reg::{weaver, write_files};
use harness::*;
use serde_json::{json, Value};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const SPEC: Spec = Spec {
    id: "C22",
    level: "model_checking",
    rule: "Exhaustive, through the real command over gRPC: (S) per signal kind, every message of one resource block (4 resources, lists of up to 2 of the 18 scope blocks: 6 scopes x 0-2 records) and every message of two of 28 smaller blocks; (H) every ordered pair (thorough: triple) of 24 messages of different kind, resource and scope, in one session; (V) every value (14 scalars, arrays of up to 2, thorough 3, of 7) at each of 11 places; (K) every combination of the fields of spans, logs, data points, exemplars and profiles over small domains; \
           (X) k messages then each of 4 ways to stop x report, streamed, http; all interleavings of two connections; k messages in flight at once; 3 or 24 MiB of report to a client that reads a second late, with and without `Connection: close`; (P) occupied ports, addresses; (E) the same samples given as a JSON file, with the built-in advice. \
           Oracle: the report's samples are those the messages state, in order, each checked with the resource and scope of its own message; every acknowledged message is in the report, nothing else is; the findings and statistics equal those for the file. Non-trivial: at least one signal.",
    assumptions: &["messages of two connections are ordered by waiting for acknowledgements", "the text of a log body is only required to contain the value", "ports 23000 and up on loopback are free or stay occupied"],
    run,
};

const ECHO: &str = r#"package live_check_advice
import rego.v1
deny contains f if {
  some kind, _ in input.sample
  f := {"type": "advice", "advice_type": "seen", "advice_level": "information", "message": "m", "advice_context": {
    "resource": object.get(input, "resource", null),
    "scope": object.get(input, "instrumentation_scope", null),
  }}
}
"#;

const REG: &str = r#"groups:
  - id: registry.all
    type: attribute_group
    brief: b
    stability: stable
    attributes:
      - {id: a.str, type: string, stability: stable, brief: b, examples: [x]}
      - {id: a.int, type: int, stability: development, brief: b}
      - {id: a.dbl, type: double, stability: stable, brief: b}
      - {id: a.flag, type: boolean, stability: stable, brief: b, deprecated: {reason: renamed, renamed_to: a.str, note: n}}
      - {id: a.list, type: "string[]", stability: stable, brief: b, examples: [[x]]}
      - {id: a.tpl, type: "template[string]", stability: stable, brief: b, examples: [x]}
      - id: a.enum
        type: {members: [{id: one, value: one, stability: stable, brief: b}, {id: two, value: two, stability: development, brief: b}]}
        stability: stable
        brief: b
  - id: metric.m.count
    type: metric
    metric_name: m.count
    instrument: counter
    unit: "{x}"
    stability: stable
    brief: b
    attributes: [{ref: a.str, requirement_level: required}, {ref: a.int, requirement_level: recommended}]
  - id: metric.m.time
    type: metric
    metric_name: m.time
    instrument: histogram
    unit: s
    stability: development
    brief: b
    attributes: [{ref: a.enum, requirement_level: required}]
  - id: event.e.one
    type: event
    name: e.one
    stability: stable
    brief: b
    attributes: [{ref: a.str, requirement_level: required}]
  - id: span.s.one
    type: span
    span_kind: client
    stability: stable
    brief: b
    attributes: [{ref: a.str}]
  - id: entity.r.one
    type: entity
    name: r.one
    stability: stable
    brief: b
    attributes: [{ref: a.str, role: identifying}]
"#;

fn dir(chk: &Check) -> PathBuf {
    let d = chk.scratch();
    write_files(&d, &[("reg/r.yaml".into(), REG.into()), ("echo/p.rego".into(), ECHO.into())]);
    d
}

fn run(chk: &Arc<Check>) {
    structure(chk);
    histories(chk);
    values(chk);
    kinds(chk);
    stops(chk);
    late(chk);
    ports(chk);
    files(chk);
}

// ---- comparing ----

/// Takes the findings out of a sample: the contexts of the echo policy.
fn strip(v: &mut Value, contexts: &mut Vec<Value>) {
    match v {
        Value::Object(o) => {
            if let Some(r) = o.remove("live_check_result") {
                for f in r["all_advice"].as_array().into_iter().flatten().filter(|f| f["id"] == "seen" || f["advice_type"] == "seen") {
                    let mut c = if f["context"].is_null() { f["advice_context"].clone() } else { f["context"].clone() };
                    strip(&mut c, &mut vec![]);
                    whole(&mut c);
                    if !contexts.contains(&c) {
                        contexts.push(c);
                    }
                }
            }
            o.values_mut().for_each(|v| strip(v, contexts));
        }
        Value::Array(a) => a.iter_mut().for_each(|v| strip(v, contexts)),
        _ => {}
    }
}

/// The policy engine does not tell 2.0 from 2.
fn whole(v: &mut Value) {
    match v {
        Value::Object(o) => o.values_mut().for_each(whole),
        Value::Array(a) => a.iter_mut().for_each(whole),
        Value::Number(n) => {
            if let Some(i) = n.as_f64().filter(|d| n.is_f64() && d.fract() == 0.0 && d.abs() < 1e9) {
                *v = json!(i as i64);
            }
        }
        _ => {}
    }
}

/// Expected and actual samples, one per line.
fn lines(messages: &[Msg], samples: &[Value]) -> (String, String) {
    let stated: Vec<(Value, Value, Value)> = messages.iter().flat_map(Msg::samples).collect();
    let mut want = String::new();
    for (s, r, c) in &stated {
        // resources and scopes are not checked in the context of another sample
        let signal = s.get("resource").is_none() && s.get("instrumentation_scope").is_none();
        let cx = if signal { json!([{"resource": r, "scope": c}]) } else { json!([{"resource": null, "scope": null}]) };
        let mut cx = cx;
        whole(&mut cx);
        want += &format!("{s} {cx}\n");
    }
    let mut got = String::new();
    for (i, s) in samples.iter().enumerate() {
        let mut s = s.clone();
        let mut cx = vec![];
        strip(&mut s, &mut cx);
        if let (Some(body), Some(w)) = (s.pointer_mut("/log/body"), stated.get(i).and_then(|w| w.0.pointer("/log/body"))) {
            if let (Some(text), Some(part)) = (body.as_str(), w.pointer("/1").and_then(Value::as_str)) {
                if text.contains(part) {
                    *body = w.clone();
                }
            }
        }
        got += &format!("{s} {}\n", json!(cx));
    }
    (want, got)
}

fn samples_of(report: &str) -> Result<Vec<Value>, String> {
    let v: Value = serde_json::from_str(report).map_err(|e| format!("{e}: {}", report.chars().take(400).collect::<String>()))?;
    Ok(v["samples"].as_array().cloned().unwrap_or_default())
}

/// One session that gets all messages, then its report by /stop.
fn batch(chk: &Check, name: &str, messages: Vec<Msg>) {
    let d = dir(chk);
    let result = (|| {
        let mut s = Session::start(&d, &["-r", "reg", "--advice-policies", "echo", "--fail-on", "none", "--output", "http", "--inactivity-timeout", "0"], 1)?;
        for m in &messages {
            s.send(0, m)?;
        }
        let (status, body) = s.stop().ok_or("no answer to /stop")?;
        let end = s.end(&d);
        if !status.contains("200") || end.code != 0 {
            return Err(format!("{status}, exit {}: {}", end.code, end.stderr));
        }
        samples_of(&body)
    })();
    for m in &messages {
        chk.eval(&format!("{m:?}"), m.blocks.iter().any(|b| b.scopes.iter().any(|s| !s.sigs.is_empty())));
    }
    chk.add_states(1);
    chk.add_transitions(messages.len() as u64);
    chk.outcome(&format!("batch {}", name.split('-').next().unwrap_or("")));
    match result {
        Err(e) => chk.violation(name, &format!("session: {}", e.chars().take(60).collect::<String>()), json!({"messages": messages.len()}), "a report", &e),
        Ok(samples) => {
            let (want, got) = lines(&messages, &samples);
            if want != got {
                let i = want.lines().zip(got.lines()).take_while(|(a, b)| a == b).count();
                let (a, b) = (want.lines().nth(i).unwrap_or("(end)"), got.lines().nth(i).unwrap_or("(end)"));
                // the message that states it
                let mut n = 0;
                let m = messages.iter().find(|m| {
                    n += m.samples().len();
                    n > i
                });
                let _ = chk.expect_eq(name, || json!({"message": format!("{m:?}")}), a, b);
            }
        }
    }
}

fn batches(chk: &Arc<Check>, part: &'static str, messages: impl Iterator<Item = Msg>, size: usize) {
    let all: Vec<Msg> = messages.collect();
    let chunks: Vec<(usize, Vec<Msg>)> = all.chunks(size).map(<[Msg]>::to_vec).enumerate().collect();
    chk.par(chunks.into_iter(), |(i, _)| format!("{part}-{i}"), |chk, name, (_, m)| batch(chk, &name, m));
}

// ---- messages ----

fn at(k: &'static str, v: &'static str) -> Attrs {
    vec![(k, V::S(v))]
}

fn resources() -> Vec<Option<Attrs>> {
    vec![None, Some(vec![]), Some(at("service.name", "one")), Some(vec![("service.name", V::S("two")), ("a.int", V::I(2))])]
}

fn scopes() -> Vec<Sc> {
    let s = |scope, url| Sc { scope, url, sigs: vec![] };
    vec![
        s(None, ""),
        s(None, "http://u/1"),
        s(Some(("", "", vec![], 0)), ""),
        s(Some(("lib", "", vec![], 0)), ""),
        s(Some(("lib", "1.0", vec![], 0)), "http://u/2"),
        s(Some(("other", "2", at("sc", "v"), 7)), ""),
    ]
}

/// The `i`th plain signal of a kind.
fn plain(kind: Kind, i: usize) -> Sig {
    let n = ["zero", "one", "two", "three", "four"][i];
    match kind {
        Kind::Logs => Sig::Log { event: n, severity: 9, text: "INFO", body: V::Missing, attrs: at("k", n), trace: vec![], span: vec![] },
        Kind::Metrics => Sig::Metric { name: n, unit: "1", shape: Shape::Counter, points: vec![Pt { attrs: at("k", n), value: Some(Num::I(1)), ..Default::default() }] },
        Kind::Traces => Sig::Span { name: n, kind: 3, status: None, attrs: at("k", n), events: vec![], links: vec![] },
        Kind::Profiles => Sig::Profile { format: n, attrs: vec![(i % 2) as i32] },
    }
}
fn msg(kind: Kind, blocks: Vec<Block>) -> Msg {
    Msg { kind, blocks, table: (kind == Kind::Profiles).then(|| vec![("t.zero", V::S("z")), ("t.one", V::I(1))]) }
}

/// One message per kind of block structure.
fn structure(chk: &Arc<Check>) {
    let one = |kind: Kind, records: usize, scope: usize, first: usize| Sc { sigs: (0..records).map(|r| plain(kind, first + r)).collect(), ..scopes()[scope].clone() };
    let single = KINDS.into_iter().flat_map(move |kind| {
        resources().into_iter().flat_map(move |r| {
            let lists = std::iter::once(vec![])
                .chain(product(&[3, 6]).map(move |x| vec![one(kind, x[0], x[1], 0)]).collect::<Vec<_>>())
                .chain(product(&[3, 6, 3, 6]).map(move |x| vec![one(kind, x[0], x[1], 0), one(kind, x[2], x[3], 2)]).collect::<Vec<_>>());
            lists.map(move |scopes| msg(kind, vec![Block { resource: r.clone(), scopes }]))
        })
    });
    batches(chk, "S1", single, 343);
    let double = KINDS.into_iter().flat_map(move |kind| {
        // a block: a resource, and no scope block or one of three with 0 or 1 records
        let block = move |b: usize, first: usize| Block {
            resource: resources()[b / 7].clone(),
            scopes: match b % 7 {
                0 => vec![],
                n => vec![one(kind, (n - 1) % 2, [0, 1, 5][(n - 1) / 2], first)],
            },
        };
        (0..28 * 28).map(move |i| msg(kind, vec![block(i / 28, 0), block(i % 28, 1)]))
    });
    batches(chk, "S2", double.chain(KINDS.into_iter().map(|k| msg(k, vec![]))), 392);
}

/// Sequences of messages: nothing of one message is in the samples of the next.
fn histories(chk: &Arc<Check>) {
    let small: Vec<Msg> = KINDS
        .into_iter()
        .flat_map(|k| {
            product(&[3, 2]).map(move |x| {
                let sc = Sc { sigs: vec![plain(k, 1)], ..scopes()[[0, 5][x[1]]].clone() };
                msg(k, vec![Block { resource: resources()[[0, 2, 3][x[0]]].clone(), scopes: vec![sc] }])
            }).collect::<Vec<_>>()
        })
        .collect();
    let n = small.len();
    let depth = if chk.thorough() { 3 } else { 2 };
    let total = n.pow(depth);
    let all = (0..total).flat_map(move |i| (0..depth).map(|d| small[i / n.pow(d) % n].clone()).collect::<Vec<_>>());
    batches(chk, "H", all, 288 * depth as usize);
}

/// Every value at every place that has attributes.
fn values(chk: &Arc<Check>) {
    let scalars = vec![
        V::Missing,
        V::Unset,
        V::S(""),
        V::S("x"),
        V::I(0),
        V::I(i64::MIN),
        V::I(i64::MAX),
        V::D(1.5),
        V::D(2.0),
        V::D(f64::NAN),
        V::B(true),
        V::B(false),
        V::Map,
        V::Bytes,
    ];
    let members = [V::Unset, V::S("x"), V::I(3), V::D(0.5), V::B(true), V::A(vec![V::I(1)]), V::Map];
    let mut all = scalars;
    for len in 0..=if chk.thorough() { 3 } else { 2 } {
        all.extend(product(&vec![members.len(); len]).map(|x| V::A(x.iter().map(|i| members[*i].clone()).collect())));
    }
    let ex = |a: Attrs| Ex { attrs: a, value: Num::I(1), time: (0, "1970-01-01T00:00:00+00:00"), span: vec![], trace: vec![] };
    let metric = |shape, p: Pt| Sig::Metric { name: "m", unit: "1", shape, points: vec![p] };
    let put = move |place: usize, v: V| {
        let a: Attrs = vec![("first", V::S("f")), ("it", v), ("last", V::I(9))];
        let span = |attrs, events, links| (Kind::Traces, Sig::Span { name: "s", kind: 1, status: None, attrs, events, links });
        let (kind, sig) = match place {
            0 | 1 => (Kind::Logs, plain(Kind::Logs, 0)),
            2 => (Kind::Logs, Sig::Log { event: "e", severity: 1, text: "", body: V::Missing, attrs: a.clone(), trace: vec![], span: vec![] }),
            3 => (Kind::Metrics, metric(Shape::Gauge, Pt { attrs: a.clone(), ..Default::default() })),
            4 => (Kind::Metrics, metric(Shape::Histogram, Pt { attrs: a.clone(), ..Default::default() })),
            5 => (Kind::Metrics, metric(Shape::Exponential, Pt { attrs: a.clone(), ..Default::default() })),
            6 => (Kind::Metrics, metric(Shape::Counter, Pt { ex: vec![ex(a.clone())], ..Default::default() })),
            7 => span(a.clone(), vec![], vec![]),
            8 => span(vec![], vec![("ev", a.clone())], vec![]),
            9 => span(vec![], vec![], vec![a.clone()]),
            _ => (Kind::Profiles, Sig::Profile { format: "f", attrs: vec![0, 1, 2] }),
        };
        let scope = if place == 1 { Some(("lib", "1", a.clone(), 0)) } else { None };
        let resource = (place == 0).then(|| a.clone());
        Msg { kind, blocks: vec![Block { resource, scopes: vec![Sc { scope, url: "", sigs: vec![sig] }] }], table: (place == 10).then_some(a) }
    };
    let msgs = (0..11).flat_map(move |p| all.clone().into_iter().map(move |v| put(p, v)).collect::<Vec<_>>());
    batches(chk, "V", msgs, 200);
}

/// Every combination of the fields of a signal.
fn kinds(chk: &Arc<Check>) {
    let of = |kind: Kind, sig: Sig| msg(kind, vec![Block { resource: None, scopes: vec![Sc { sigs: vec![sig], ..Default::default() }] }]);
    let wide = chk.thorough();
    let span_ids: Vec<Id> = vec![vec![], vec![0; 8], vec![0, 1, 2, 0xab, 0xcd, 0, 0, 9], vec![0xff; 8], vec![1; 7], vec![1; 16]];
    let trace_ids: Vec<Id> = vec![vec![], vec![0; 16], (0..16).collect(), vec![0xfe; 16], vec![1; 8], vec![1; 17]];
    let two = |n: usize| ["a", "b"][..n].iter().map(|s| at("k", s)).collect::<Vec<_>>();

    // spans
    let codes = [None, Some((0, "")), Some((1, "")), Some((2, "boom")), Some((3, "what"))];
    let spans = product(&[9, 5, 3, 3, 3]).map(move |x| {
        of(Kind::Traces, Sig::Span {
            name: ["s", ""][x[0] % 2],
            kind: x[0] as i32 - 1,
            status: codes[x[1]],
            attrs: two(x[2]).concat(),
            events: two(x[3]).into_iter().zip(["ev1", ""]).map(|(a, n)| (n, a)).collect(),
            links: two(x[4]),
        })
    });
    batches(chk, "K1", spans, 405);

    // logs
    let (ids, tids) = (span_ids.clone(), trace_ids.clone());
    let bodies = [V::Missing, V::Unset, V::S("hello"), V::S(""), V::I(42), V::B(true), V::Map, V::Bytes, V::A(vec![V::I(1)])];
    let dims = [2, 4, 2, bodies.len(), 6, 6];
    let logs = product(&dims).filter(move |x| wide || x[3] == 0 || x[4] + x[5] == 0).map(move |x| {
        of(Kind::Logs, Sig::Log {
            event: ["", "e.one"][x[0]],
            severity: [0, 1, 24, -3][x[1]],
            text: ["", "WARN"][x[2]],
            body: bodies[x[3]].clone(),
            attrs: at("k", "v"),
            span: ids[x[4]].clone(),
            trace: tids[x[5]].clone(),
        })
    });
    batches(chk, "K2", logs, 350);

    // metrics: kind x number of points x value x flags, and exemplars
    let nums = || [Num::None, Num::I(-5), Num::I(i64::MAX), Num::D(0.25)];
    let times = [(0, "1970-01-01T00:00:00+00:00"), (1_700_000_000_000_000_001, "2023-11-14T22:13:20.000000001+00:00"), (u64::MAX, "")];
    let metrics = product(&[7, 3, 4, 2, 3]).map(move |x| {
        let p = Pt { attrs: at("k", "v"), value: Some(nums()[x[2]].clone()), flags: x[3] as u32, ex: vec![], count: x[2] as u64, ..Default::default() };
        let mut points = vec![p.clone(); x[1]];
        if let Some(p) = points.get_mut(1) {
            p.attrs = vec![];
            p.value = Some(Num::I(77));
        }
        of(Kind::Metrics, Sig::Metric { name: ["m", "m.count", ""][x[4]], unit: ["", "s", "{x}"][x[4]], shape: SHAPES[x[0]], points })
    });
    batches(chk, "K3", metrics, 300);
    let (ids, tids) = (span_ids, trace_ids);
    let exemplars = product(&[4, 4, 3, 6, 6, 3]).filter(move |x| wide || x[0] == 0 || x[3] * x[4] == 0).filter(|x| x[5] > 0 || x[1] + x[2] + x[3] + x[4] == 0).map(move |x| {
        let e = Ex { attrs: at("f", "v"), value: nums()[x[1]].clone(), time: times[x[2]], span: ids[x[3]].clone(), trace: tids[x[4]].clone() };
        let mut ex = vec![e; x[5]];
        if let Some(e) = ex.get_mut(1) {
            e.attrs = vec![];
            e.value = Num::D(1.25);
            e.span = vec![7; 8];
        }
        let shape = [Shape::Counter, Shape::Gauge, Shape::Histogram, Shape::Exponential][x[0]];
        of(Kind::Metrics, Sig::Metric { name: "m", unit: "1", shape, points: vec![Pt { ex, value: Some(Num::I(1)), ..Default::default() }] })
    });
    batches(chk, "K4", exemplars, 400);

    // histograms
    let f = |i: usize, v: f64| (i == 1).then_some(v);
    let plain_h = product(&[3, 2, 2, 2, 3, 2]).map(move |x| {
        let p = Pt {
            count: [0, 7, u64::MAX][x[0]],
            sum: f(x[1], -2.5),
            min: f(x[2], -4.0),
            max: f(x[3], 8.5),
            buckets: [vec![], vec![7], vec![1, 0, 6]][x[4]].clone(),
            bounds: [vec![], vec![0.5, 10.0]][x[5]].clone(),
            ..Default::default()
        };
        of(Kind::Metrics, Sig::Metric { name: "h", unit: "s", shape: Shape::Histogram, points: vec![p] })
    });
    let bk = |i: usize| [None, Some((0, vec![])), Some((-3, vec![1, 2])), Some((4, vec![u64::MAX]))][i].clone();
    let exp_h = product(&[2, 2, 2, 2, 3, 2, 4, 4]).filter(move |x| wide || x[6] == 0 || x[7] == 0 || x[1] + x[2] + x[3] == 0).map(move |x| {
        let p = Pt {
            count: [0, 7][x[0]],
            sum: f(x[1], 2.5),
            min: f(x[2], 4.0),
            max: f(x[3], 8.5),
            scale: [0, -2, 20][x[4]],
            zero: [(0, 0.0), (3, 0.125)][x[5]],
            positive: bk(x[6]),
            negative: bk(x[7]),
            ..Default::default()
        };
        of(Kind::Metrics, Sig::Metric { name: "x", unit: "s", shape: Shape::Exponential, points: vec![p] })
    });
    batches(chk, "K5", plain_h.chain(exp_h), 400);

    // profiles
    let tables: [Option<Attrs>; 4] = [None, Some(vec![]), Some(at("t.zero", "z")), Some(vec![("t.zero", V::S("z")), ("t.one", V::I(1)), ("t.two", V::Map)])];
    let profiles = (0..=3).flat_map(move |len| {
        let tables = tables.clone();
        product(&[vec![4, 2], vec![5; len]].concat()).map(move |x| {
            let attrs = x[2..].iter().map(|i| [0, 1, 2, 3, -1][*i]).collect();
            Msg { table: tables[x[0]].clone(), ..of(Kind::Profiles, Sig::Profile { format: ["pprof", ""][x[1]], attrs }) }
        }).collect::<Vec<_>>()
    });
    batches(chk, "K6", profiles, 420);
}

// ---- histories of a session ----

fn plain_msg(i: usize) -> Msg {
    let kind = KINDS[i % 4];
    msg(kind, vec![Block { resource: resources()[i / 4 % 4].clone(), scopes: vec![Sc { sigs: vec![plain(kind, i % 5)], ..scopes()[i % 6].clone() }] }])
}

/// The samples in what the command printed, as a report or one by one.
fn printed(out: &str, streamed: bool) -> Result<Vec<Value>, String> {
    if !streamed {
        return samples_of(out);
    }
    let mut all: Vec<Value> =
        serde_json::Deserializer::from_str(out).into_iter().collect::<Result<_, _>>().map_err(|e| format!("{e}: {}", out.chars().take(400).collect::<String>()))?;
    // the statistics come last
    match all.pop() {
        Some(v) if v.get("total_entities").is_some() => Ok(all),
        v => Err(format!("no statistics at the end but {v:?}")),
    }
}

fn verdict(chk: &Check, name: &str, messages: &[Msg], end: &End, out: &str, streamed: bool, how: Value) {
    let (want, got) = match printed(out, streamed) {
        Ok(s) => lines(messages, &s),
        Err(e) => (lines(messages, &[]).0, e),
    };
    chk.eval(&(name, messages.len()), !messages.is_empty());
    let _ = chk.expect_eq(name, || how, &format!("exit 0\n{want}"), &format!("exit {}\n{got}", end.code));
}

fn stops(chk: &Arc<Check>) {
    let most = if chk.thorough() { 9 } else { 4 };
    // each way to stop after k acknowledged messages, with each kind of output
    let dims = [most, 4, 3];
    let cases = product(&dims).filter(|x| chk.thorough() || x[1] < 3 || x[0] % 3 == 0);
    chk.par(cases, |x| format!("X1-{}{}{}", x[0], x[1], x[2]), |chk, name, x| {
        let d = dir(chk);
        let messages: Vec<Msg> = (0..x[0]).map(|i| plain_msg(i * 5)).collect();
        let mut args = vec!["-r", "reg", "--advice-policies", "echo", "--fail-on", "none"];
        args.extend([["--no-stream"].as_slice(), &[], &["--output", "http"]][x[2]]);
        args.extend(["--inactivity-timeout", ["0", "0", "0", "1"][x[1]]]);
        let done = (|| {
            let mut s = Session::start(&d, &args, 1)?;
            let (health, _) = http(s.admin, "GET /health").ok_or("no /health")?;
            if !health.contains("200") {
                return Err(health);
            }
            for m in &messages {
                s.send(0, m)?;
            }
            let last = Instant::now();
            let mut body = None;
            match x[1] {
                // Without a report in it, the process may end before the answer is read.
                0 => body = Some(match s.stop() {
                    None if x[2] == 2 => return Err("no answer to /stop".into()),
                    a => a.map(|a| a.1).unwrap_or_default(),
                }),
                1 => s.signal("INT"),
                2 => s.signal("HUP"),
                _ => {}
            }
            let end = s.end(&d);
            if x[1] == 3 && !messages.is_empty() && last.elapsed() < Duration::from_millis(950) {
                return Err(format!("stopped {} ms after the last message", last.elapsed().as_millis()));
            }
            Ok((end, body))
        })();
        chk.add_states(1);
        chk.add_transitions(x[0] as u64 + 1);
        chk.outcome(["stopped by /stop", "stopped by SIGINT", "stopped by SIGHUP", "stopped by inactivity"][x[1]]);
        let how = json!({"messages": x[0], "stop": x[1], "arguments": args});
        match done {
            Err(e) => chk.violation(&name, &format!("session: {}", e.chars().take(60).collect::<String>()), how, "a report", &e),
            Ok((end, body)) => {
                // the report goes to whoever asked for it over http
                let out = if x[2] == 2 && x[1] == 0 { body.unwrap_or_default() } else { end.stdout.clone() };
                verdict(chk, &name, &messages, &end, &out, x[2] == 1, how);
            }
        }
    });

    // two connections: all interleavings of their messages
    let each = if chk.thorough() { 4 } else { 2 };
    let orders = (0u32..1 << (2 * each)).filter(move |m| m.count_ones() == each);
    chk.par(orders, |m| format!("X2-{m:08b}"), |chk, name, order| {
        let d = dir(chk);
        let mut sent = vec![];
        let mut next = [0usize, 10];
        let done = (|| {
            let mut s = Session::start(&d, &["-r", "reg", "--advice-policies", "echo", "--fail-on", "none", "--output", "http", "--inactivity-timeout", "0"], 2)?;
            for i in 0..2 * each {
                let c = (order >> i & 1) as usize;
                sent.push(plain_msg(next[c]));
                next[c] += 1;
                s.send(c, sent.last().expect("message"))?;
            }
            let (_, body) = s.stop().ok_or("no answer to /stop")?;
            Ok::<_, String>((s.end(&d), body))
        })();
        chk.add_states(1);
        chk.add_transitions(2 * each as u64);
        chk.outcome("two connections");
        let how = json!({"order": format!("{order:08b}")});
        match done {
            Err(e) => chk.violation(&name, &format!("session: {}", e.chars().take(60).collect::<String>()), how, "a report", &e),
            Ok((end, body)) => verdict(chk, &name, &sent, &end, &body, false, how),
        }
    });

    // many in flight at once: whatever the order, each acknowledged message is there once
    let many: &[usize] = if chk.thorough() { &[1, 2, 50, 99, 100, 101, 102, 150, 200, 500, 1000] } else { &[1, 99, 101, 250] };
    chk.par(many.iter().copied(), |k| format!("X3-{k}"), |chk, name, k| {
        let d = dir(chk);
        let messages: Vec<Msg> = (0..k).map(|i| msg(Kind::Logs, vec![Block { resource: Some(vec![("n", V::I(i as i64))]), scopes: vec![Sc { sigs: vec![plain(Kind::Logs, 1)], ..Default::default() }] }])).collect();
        let done = (|| {
            let mut s = Session::start(&d, &["-r", "reg", "--advice-policies", "echo", "--fail-on", "none", "--output", "http", "--inactivity-timeout", "0"], 1)?;
            s.send_together(&messages)?;
            let (_, body) = s.stop().ok_or("no answer to /stop")?;
            let end = s.end(&d);
            let samples = samples_of(&body)?;
            // a message's samples stay together
            if samples.len() % 2 != 0 {
                return Err(format!("{} samples for {k} messages of two", samples.len()));
            }
            let mut pairs: Vec<Vec<Value>> = samples.chunks(2).map(<[Value]>::to_vec).collect();
            pairs.sort_by_key(|p| p[0].pointer("/resource/attributes/0/value").and_then(Value::as_i64));
            Ok::<_, String>((end, json!({"samples": pairs.concat()}).to_string()))
        })();
        chk.add_states(1);
        chk.add_transitions(k as u64);
        chk.outcome("in flight together");
        let how = json!({"messages": k});
        match done {
            Err(e) => chk.violation(&name, &format!("session: {}", e.chars().take(60).collect::<String>()), how, "a report", &e),
            Ok((end, body)) => verdict(chk, &name, &messages, &end, &body, false, how),
        }
    });
}

/// A report that is larger than what the system keeps for a connection, to a client that reads late.
fn late(chk: &Arc<Check>) {
    let text: &'static str = Box::leak("x".repeat(3 << 20).into_boxed_str());
    chk.par(product(&[2, 2]), |x| format!("X4-{}{}", x[0], x[1]), |chk, name, x| {
        let d = dir(chk);
        let count = [1, 8][x[0]];
        let close = ["", "Connection: close\r\n"][x[1]];
        let done = (|| {
            let mut s = Session::start(&d, &["-r", "reg", "--fail-on", "none", "--output", "http", "--inactivity-timeout", "0"], 1)?;
            for _ in 0..count {
                s.send(0, &msg(Kind::Logs, vec![Block { resource: Some(vec![("a.str", V::S(text))]), ..Default::default() }]))?;
            }
            let (_, body) = s.stop_slowly(close).ok_or("no answer to /stop")?;
            let end = s.end(&d);
            Ok::<_, String>((end.code, serde_json::from_str::<Value>(&body).map(|v| v["samples"].as_array().map(Vec::len)).map_err(|e| e.classify())))
        })();
        chk.eval(&x, true);
        chk.add_states(1);
        chk.outcome("a late reader");
        let got = match done {
            Ok((0, Ok(Some(n)))) if n == count => return,
            Ok((0, Err(serde_json::error::Category::Eof))) => "only the beginning of the report".to_owned(),
            x => format!("{x:?}"),
        };
        chk.violation(&name, &format!("X4: {count} x 3 MiB, {}: {got}", if x[1] == 1 { "close" } else { "keep-alive" }), json!({"messages": count, "headers": close}), "the whole report", &got);
    });
}

/// A receiver that cannot listen says so.
fn ports(chk: &Arc<Check>) {
    let addresses = ["127.0.0.1", "0.0.0.0", "[::1]", "not-an-address", ""];
    let commands = 2;
    chk.par(product(&[commands, 2, 2, addresses.len()]), |x| format!("P-{}{}{}{}", x[0], x[1], x[2], x[3]), |chk, name, x| {
        let d = dir(chk);
        let (g, a) = (port(), port());
        let hold = |taken: usize, p: u16| (taken == 1).then(|| std::net::TcpListener::bind(("0.0.0.0", p)).expect("bind"));
        let held = (hold(x[1], g), hold(x[2], a));
        let address = addresses[x[3]];
        // on the other loopback, the port is free
        let fails = (x[1] == 1 && !address.starts_with('[')) || x[2] == 1 || x[3] > 2;
        let (g, a) = (g.to_string(), a.to_string());
        let mut args = [["registry", "live-check", "-r", "reg", "--no-stream", "--format", "json"].as_slice(), &["registry", "infer", "-o", "out"]][x[0]].to_vec();
        let live = x[0] == 0;
        args.extend([if live { "--otlp-grpc-address" } else { "--grpc-address" }, address, if live { "--otlp-grpc-port" } else { "--grpc-port" }, &g, "--admin-port", &a, "--inactivity-timeout", "1"]);
        let (code, _, err) = weaver(&args, &d);
        drop(held);
        chk.eval(&name, fails);
        chk.outcome(if fails { "cannot listen" } else { "listens" });
        let got = if live || code != 0 { format!("exit {code}") } else { "exit 0".into() };
        let _ = chk.expect_eq(&name, || json!({"arguments": args, "grpc port taken": x[1], "admin port taken": x[2], "stderr": err.chars().take(600).collect::<String>()}), &format!("exit {}", i32::from(fails)), &got);
    });
}

/// The same samples from a file.
fn files(chk: &Arc<Check>) {
    let vals: Vec<(&'static str, V)> = vec![
        ("a.str", V::S("x")),
        ("a.str", V::I(3)),
        ("a.int", V::I(3)),
        ("a.int", V::D(0.5)),
        ("a.dbl", V::D(0.5)),
        ("a.flag", V::B(true)),
        ("a.list", V::A(vec![V::S("x"), V::S("y")])),
        ("a.list", V::A(vec![V::S("x"), V::I(1)])),
        ("a.tpl.k", V::S("x")),
        ("a.enum", V::S("one")),
        ("a.enum", V::S("three")),
        ("missing", V::S("x")),
        ("a.str", V::Map),
        ("Bad Name", V::Unset),
    ];
    let sig = |kind: usize, name: usize, a: Attrs| -> (Kind, Sig) {
        match kind {
            0 => (Kind::Logs, Sig::Log { event: ["e.one", "e.none", ""][name], severity: 9, text: "", body: V::Missing, attrs: a, trace: vec![], span: vec![] }),
            1 => (Kind::Traces, Sig::Span { name: ["s.one", "s.none", ""][name], kind: 3, status: Some((2, "m")), attrs: a.clone(), events: vec![("ev", a.clone())], links: vec![a] }),
            k => {
                let shape = [Shape::Counter, Shape::Gauge, Shape::Histogram, Shape::Summary][k - 2];
                let e = Ex { attrs: a.clone(), value: Num::I(1), time: (0, "1970-01-01T00:00:00+00:00"), span: vec![1; 8], trace: vec![] };
                (Kind::Metrics, Sig::Metric { name: ["m.count", "m.time", "m.none"][name], unit: ["{x}", "s", ""][name], shape, points: vec![Pt { attrs: a, value: Some(Num::I(1)), ex: vec![e], ..Default::default() }] })
            }
        }
    };
    let mut all = vec![];
    for x in product(&[6, 3, 3, 1 + vals.len()]) {
        let a: Attrs = x[3].checked_sub(1).map(|i| vals[i].clone()).into_iter().collect();
        let (kind, s) = sig(x[0], x[1], a);
        let scope = [scopes()[0].clone(), scopes()[5].clone(), scopes()[1].clone()][x[2]].clone();
        all.push(msg(kind, vec![Block { resource: Some(at("service.name", ["x", "y", "z"][x[2]])), scopes: vec![Sc { sigs: vec![s], ..scope }] }]));
    }
    // the resource holds the attribute
    all.extend(vals.iter().map(|v| msg(Kind::Logs, vec![Block { resource: Some(vec![v.clone()]), scopes: vec![Sc { scope: Some(("lib", "", vec![v.clone()], 1)), url: "", sigs: vec![plain(Kind::Logs, 0)] }] }])));
    let size = 30;
    let chunks: Vec<(usize, Vec<Msg>)> = all.chunks(size).map(<[Msg]>::to_vec).enumerate().collect();
    chk.par(chunks.into_iter(), |(i, _)| format!("E-{i}"), |chk, name, (i, messages)| {
        let d = dir(chk);
        let done = (|| {
            let mut s = Session::start(&d, &["-r", "reg", "--output", "http", "--inactivity-timeout", "0"], 1)?;
            for m in &messages {
                s.send(0, m)?;
            }
            let (_, body) = s.stop().ok_or("no answer to /stop")?;
            Ok::<_, String>((s.end(&d), body))
        })();
        let samples: Vec<Value> = messages.iter().flat_map(Msg::samples).map(|s| s.0).collect();
        std::fs::write(d.join("in.json"), json!(samples).to_string()).expect("write");
        let (code, out, err) = weaver(&["registry", "live-check", "-r", "reg", "--no-stream", "--format", "json", "--input-source", "in.json", "--input-format", "json"], &d);
        for m in &messages {
            chk.eval(&format!("file {m:?}"), true);
        }
        chk.add_traces(messages.len() as u64);
        chk.outcome(if code == 0 { "file: no violation" } else { "file: violations" });
        let how = json!({"batch": i, "samples": samples.len()});
        match done {
            Err(e) => chk.violation(&name, &format!("session: {}", e.chars().take(60).collect::<String>()), how, "a report", &e),
            Ok((end, body)) => {
                let (a, b) = (report(&out), report(&body));
                let i = a.lines().zip(b.lines()).take_while(|(a, b)| a == b).count();
                let at = |s: &str| s.lines().nth(i).unwrap_or("(end)").to_owned();
                let _ = chk.expect_eq(&name, || json!({"how": how, "stderr": err}), &format!("exit {code}\n{}", at(&a)), &format!("exit {}\n{}", end.code, at(&b)));
            }
        }
    });
}

/// A report line by line: its samples, its statistics.
fn report(text: &str) -> String {
    match serde_json::from_str::<Value>(text) {
        Err(e) => format!("{e}: {text}"),
        Ok(v) => {
            let mut s: Vec<String> = v["samples"].as_array().into_iter().flatten().map(|s| sorted(s).to_string()).collect();
            s.push(v["statistics"].to_string());
            s.join("\n")
        }
    }
}

/// With the findings of each entity in a fixed order.
fn sorted(v: &Value) -> Value {
    match v {
        Value::Array(a) => a.iter().map(sorted).collect(),
        Value::Object(o) => o
            .iter()
            .map(|(k, v)| {
                let mut v = sorted(v);
                if let (true, Value::Array(a)) = (k == "all_advice", &mut v) {
                    a.sort_by_key(Value::to_string);
                }
                (k.clone(), v)
            })
            .collect::<serde_json::Map<_, _>>()
            .into(),
        _ => v.clone(),
    }
}

