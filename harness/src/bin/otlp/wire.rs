//! OTLP messages in a neutral form: how they are put on the wire, and what samples they state.
use opentelemetry_proto::tonic::collector::{
    logs::v1::ExportLogsServiceRequest, metrics::v1::ExportMetricsServiceRequest, profiles::v1development::ExportProfilesServiceRequest,
    trace::v1::ExportTraceServiceRequest,
};
use opentelemetry_proto::tonic::common::v1::{any_value, AnyValue, ArrayValue, InstrumentationScope, KeyValue, KeyValueList};
use opentelemetry_proto::tonic::logs::v1::{LogRecord, ResourceLogs, ScopeLogs};
use opentelemetry_proto::tonic::metrics::v1 as m;
use opentelemetry_proto::tonic::profiles::v1development as p;
use opentelemetry_proto::tonic::resource::v1::Resource;
use opentelemetry_proto::tonic::trace::v1 as t;
use serde_json::{json, Value};

/// A value of an attribute.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// no `value` field at all
    Missing,
    /// an AnyValue without a value
    Unset,
    S(&'static str),
    I(i64),
    D(f64),
    B(bool),
    A(Vec<V>),
    Map,
    Bytes,
}

impl V {
    fn wire(&self) -> Option<AnyValue> {
        use any_value::Value as W;
        let v = match self {
            V::Missing => return None,
            V::Unset => None,
            V::S(s) => Some(W::StringValue((*s).into())),
            V::I(i) => Some(W::IntValue(*i)),
            V::D(d) => Some(W::DoubleValue(*d)),
            V::B(b) => Some(W::BoolValue(*b)),
            V::A(vs) => Some(W::ArrayValue(ArrayValue { values: vs.iter().filter_map(V::wire).collect() })),
            V::Map => Some(W::KvlistValue(KeyValueList { values: vec![kv("k", &V::S("v"))] })),
            V::Bytes => Some(W::BytesValue(vec![1, 2])),
        };
        Some(AnyValue { value: v })
    }
    /// What a sample can hold of it.
    fn json(&self) -> Option<Value> {
        match self {
            V::Missing | V::Unset | V::Map | V::Bytes => None,
            V::S(s) => Some(json!(s)),
            V::I(i) => Some(json!(i)),
            V::D(d) => Some(json!(d)),
            V::B(b) => Some(json!(b)),
            V::A(vs) => Some(Value::Array(vs.iter().filter_map(V::json).collect())),
        }
    }
    /// The type it has.
    fn kind(&self) -> Option<&'static str> {
        match self {
            V::S(_) => Some("string"),
            V::I(_) => Some("int"),
            V::D(d) if d.is_finite() => Some("double"),
            V::B(_) => Some("boolean"),
            V::A(vs) => {
                let mut kinds: Vec<_> = vs.iter().filter(|v| v.json().is_some()).map(|v| if matches!(v, V::A(_)) { None } else { v.kind() }).collect();
                // whole numbers among doubles are doubles
                if kinds.contains(&Some("double")) {
                    kinds.iter_mut().filter(|k| **k == Some("int")).for_each(|k| *k = Some("double"));
                }
                kinds.dedup();
                match kinds[..] {
                    [Some("string")] => Some("string[]"),
                    [Some("int")] => Some("int[]"),
                    [Some("double")] => Some("double[]"),
                    [Some("boolean")] => Some("boolean[]"),
                    _ => None,
                }
            }
            _ => None,
        }
    }
}

pub type Attrs = Vec<(&'static str, V)>;

fn kv(k: &str, v: &V) -> KeyValue {
    KeyValue { key: k.into(), value: v.wire(), ..Default::default() }
}
fn kvs(a: &Attrs) -> Vec<KeyValue> {
    a.iter().map(|(k, v)| kv(k, v)).collect()
}
fn attr_json((k, v): &(&'static str, V)) -> Value {
    json!({"name": k, "value": v.json(), "type": v.kind()})
}
fn attrs_json(a: &Attrs) -> Value {
    a.iter().map(attr_json).collect()
}

/// An id of a trace or span: its bytes.
pub type Id = Vec<u8>;
fn hex(id: &Id, len: usize) -> String {
    if id.len() == len {
        id.iter().map(|b| format!("{b:02x}")).collect()
    } else {
        String::new()
    }
}

#[derive(Clone, Debug)]
pub enum Num {
    None,
    I(i64),
    D(f64),
}
impl Num {
    fn json(&self) -> Value {
        match self {
            Num::None => Value::Null,
            Num::I(i) => json!(i),
            Num::D(d) => json!(d),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Ex {
    pub attrs: Attrs,
    pub value: Num,
    /// nanoseconds, and how that is written
    pub time: (u64, &'static str),
    pub span: Id,
    pub trace: Id,
}
impl Ex {
    fn wire(&self) -> m::Exemplar {
        m::Exemplar {
            filtered_attributes: kvs(&self.attrs),
            time_unix_nano: self.time.0,
            span_id: self.span.clone(),
            trace_id: self.trace.clone(),
            value: match self.value {
                Num::None => None,
                Num::I(i) => Some(m::exemplar::Value::AsInt(i)),
                Num::D(d) => Some(m::exemplar::Value::AsDouble(d)),
            },
        }
    }
    fn json(&self) -> Value {
        json!({"filtered_attributes": attrs_json(&self.attrs), "value": self.value.json(), "timestamp": self.time.1, "span_id": hex(&self.span, 8), "trace_id": hex(&self.trace, 16)})
    }
}

/// A data point of any kind.
#[derive(Clone, Debug, Default)]
pub struct Pt {
    pub attrs: Attrs,
    pub value: Option<Num>,
    pub flags: u32,
    pub ex: Vec<Ex>,
    pub count: u64,
    pub sum: Option<f64>,
    pub min: Option<f64>,
    pub max: Option<f64>,
    pub buckets: Vec<u64>,
    pub bounds: Vec<f64>,
    pub scale: i32,
    pub zero: (u64, f64),
    pub positive: Option<(i32, Vec<u64>)>,
    pub negative: Option<(i32, Vec<u64>)>,
}
impl Pt {
    fn number(&self) -> m::NumberDataPoint {
        m::NumberDataPoint {
            attributes: kvs(&self.attrs),
            flags: self.flags,
            exemplars: self.ex.iter().map(Ex::wire).collect(),
            value: match self.value {
                None | Some(Num::None) => None,
                Some(Num::I(i)) => Some(m::number_data_point::Value::AsInt(i)),
                Some(Num::D(d)) => Some(m::number_data_point::Value::AsDouble(d)),
            },
            ..Default::default()
        }
    }
    fn histogram(&self) -> m::HistogramDataPoint {
        m::HistogramDataPoint {
            attributes: kvs(&self.attrs),
            flags: self.flags,
            exemplars: self.ex.iter().map(Ex::wire).collect(),
            count: self.count,
            sum: self.sum,
            min: self.min,
            max: self.max,
            bucket_counts: self.buckets.clone(),
            explicit_bounds: self.bounds.clone(),
            ..Default::default()
        }
    }
    fn exponential(&self) -> m::ExponentialHistogramDataPoint {
        let b = |b: &Option<(i32, Vec<u64>)>| b.clone().map(|(offset, bucket_counts)| m::exponential_histogram_data_point::Buckets { offset, bucket_counts });
        m::ExponentialHistogramDataPoint {
            attributes: kvs(&self.attrs),
            flags: self.flags,
            exemplars: self.ex.iter().map(Ex::wire).collect(),
            count: self.count,
            sum: self.sum,
            min: self.min,
            max: self.max,
            scale: self.scale,
            zero_count: self.zero.0,
            zero_threshold: self.zero.1,
            positive: b(&self.positive),
            negative: b(&self.negative),
            ..Default::default()
        }
    }
    fn json(&self, shape: Shape) -> Value {
        let ex: Value = self.ex.iter().map(Ex::json).collect();
        let b = |b: &Option<(i32, Vec<u64>)>| b.as_ref().map(|(o, c)| json!({"offset": o, "bucket_counts": c}));
        match shape {
            Shape::Histogram => json!({"attributes": attrs_json(&self.attrs), "flags": self.flags, "exemplars": ex, "count": self.count, "sum": self.sum,
                "min": self.min, "max": self.max, "bucket_counts": self.buckets, "explicit_bounds": self.bounds}),
            Shape::Exponential => json!({"attributes": attrs_json(&self.attrs), "flags": self.flags, "exemplars": ex, "count": self.count, "sum": self.sum,
                "min": self.min, "max": self.max, "scale": self.scale, "zero_count": self.zero.0, "zero_threshold": self.zero.1,
                "positive": b(&self.positive), "negative": b(&self.negative)}),
            _ => json!({"attributes": attrs_json(&self.attrs), "flags": self.flags, "exemplars": ex, "value": self.value.as_ref().map(Num::json)}),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Counter,
    UpDown,
    Gauge,
    Histogram,
    Exponential,
    Summary,
    Nothing,
}
pub const SHAPES: [Shape; 7] = [Shape::Counter, Shape::UpDown, Shape::Gauge, Shape::Histogram, Shape::Exponential, Shape::Summary, Shape::Nothing];

#[derive(Clone, Debug)]
pub enum Sig {
    Log { event: &'static str, severity: i32, text: &'static str, body: V, attrs: Attrs, trace: Id, span: Id },
    Metric { name: &'static str, unit: &'static str, shape: Shape, points: Vec<Pt> },
    Span { name: &'static str, kind: i32, status: Option<(i32, &'static str)>, attrs: Attrs, events: Vec<(&'static str, Attrs)>, links: Vec<Attrs> },
    /// attributes by their index in the table of the message
    Profile { format: &'static str, attrs: Vec<i32> },
}

impl Sig {
    fn log(&self) -> LogRecord {
        let Sig::Log { event, severity, text, body, attrs, trace, span } = self else { panic!("not a log") };
        LogRecord {
            event_name: (*event).into(),
            severity_number: *severity,
            severity_text: (*text).into(),
            body: body.wire(),
            attributes: kvs(attrs),
            trace_id: trace.clone(),
            span_id: span.clone(),
            ..Default::default()
        }
    }
    fn metric(&self) -> m::Metric {
        let Sig::Metric { name, unit, shape, points } = self else { panic!("not a metric") };
        use m::metric::Data;
        let data = match shape {
            Shape::Counter | Shape::UpDown => {
                Some(Data::Sum(m::Sum { data_points: points.iter().map(Pt::number).collect(), is_monotonic: *shape == Shape::Counter, ..Default::default() }))
            }
            Shape::Gauge => Some(Data::Gauge(m::Gauge { data_points: points.iter().map(Pt::number).collect() })),
            Shape::Histogram => Some(Data::Histogram(m::Histogram { data_points: points.iter().map(Pt::histogram).collect(), ..Default::default() })),
            Shape::Exponential => {
                Some(Data::ExponentialHistogram(m::ExponentialHistogram { data_points: points.iter().map(Pt::exponential).collect(), ..Default::default() }))
            }
            Shape::Summary => Some(Data::Summary(m::Summary {
                data_points: points.iter().map(|x| m::SummaryDataPoint { attributes: kvs(&x.attrs), ..Default::default() }).collect(),
            })),
            Shape::Nothing => None,
        };
        m::Metric { name: (*name).into(), unit: (*unit).into(), data, ..Default::default() }
    }
    fn span(&self) -> t::Span {
        let Sig::Span { name, kind, status, attrs, events, links } = self else { panic!("not a span") };
        t::Span {
            name: (*name).into(),
            kind: *kind,
            status: status.map(|(code, m)| t::Status { code, message: m.into() }),
            attributes: kvs(attrs),
            events: events.iter().map(|(n, a)| t::span::Event { name: (*n).into(), attributes: kvs(a), ..Default::default() }).collect(),
            links: links.iter().map(|a| t::span::Link { attributes: kvs(a), ..Default::default() }).collect(),
            ..Default::default()
        }
    }
    fn profile(&self) -> p::Profile {
        let Sig::Profile { format, attrs } = self else { panic!("not a profile") };
        p::Profile { original_payload_format: (*format).into(), attribute_indices: attrs.clone(), ..Default::default() }
    }
    /// The sample it is.
    fn json(&self, table: &Option<Attrs>) -> Value {
        match self {
            Sig::Log { event, severity, text, body, attrs, trace, span } => {
                let id = |h: String| if h.is_empty() { Value::Null } else { json!(h) };
                json!({"log": {"event_name": event, "severity_number": severity, "severity_text": text, "body": body_json(body), "attributes": attrs_json(attrs),
                    "trace_id": id(hex(trace, 16)), "span_id": id(hex(span, 8))}})
            }
            Sig::Metric { name, unit, shape, points } => {
                let instrument = match shape {
                    Shape::Counter => "counter",
                    Shape::UpDown => "updowncounter",
                    Shape::Gauge => "gauge",
                    Shape::Histogram | Shape::Exponential => "histogram",
                    Shape::Summary => "Summary",
                    Shape::Nothing => "Unspecified",
                };
                let points: Value = if matches!(shape, Shape::Summary | Shape::Nothing) { Value::Null } else { points.iter().map(|x| x.json(*shape)).collect() };
                json!({"metric": {"name": name, "unit": unit, "instrument": instrument, "data_points": points}})
            }
            Sig::Span { name, kind, status, attrs, events, links } => {
                let kind = match kind {
                    2 => "server",
                    3 => "client",
                    4 => "producer",
                    5 => "consumer",
                    _ => "internal",
                };
                let code = |c: i32| match c {
                    1 => "ok",
                    2 => "error",
                    _ => "unset",
                };
                json!({"span": {"name": name, "kind": kind, "status": status.map(|(c, m)| json!({"code": code(c), "message": m})), "attributes": attrs_json(attrs),
                    "span_events": events.iter().map(|(n, a)| json!({"name": n, "attributes": attrs_json(a)})).collect::<Value>(),
                    "span_links": links.iter().map(|a| json!({"attributes": attrs_json(a)})).collect::<Value>()}})
            }
            Sig::Profile { format, attrs } => {
                let attrs: Vec<Value> = table.iter().flat_map(|t| attrs.iter().filter_map(|i| t.get(usize::try_from(*i).ok()?)).map(attr_json)).collect();
                json!({"profile": {"original_payload_format": format, "attributes": attrs}})
            }
        }
    }
}

/// A body is free text that has the stated value in it.
fn body_json(v: &V) -> Value {
    match v {
        V::Missing | V::Unset => Value::Null,
        V::S(s) => json!(["text with", s]),
        V::I(i) => json!(["text with", i.to_string()]),
        V::B(b) => json!(["text with", b.to_string()]),
        _ => json!(["text with", ""]),
    }
}

#[derive(Clone, Debug, Default)]
pub struct Sc {
    /// (name, version, attributes, dropped)
    pub scope: Option<(&'static str, &'static str, Attrs, u32)>,
    pub url: &'static str,
    pub sigs: Vec<Sig>,
}
impl Sc {
    fn wire(&self) -> Option<InstrumentationScope> {
        self.scope.as_ref().map(|(n, v, a, d)| InstrumentationScope { name: (*n).into(), version: (*v).into(), attributes: kvs(a), dropped_attributes_count: *d })
    }
    fn json(&self) -> Option<Value> {
        match &self.scope {
            None if self.url.is_empty() => None,
            None => Some(json!({"name": "", "version": "", "schema_url": self.url, "attributes": [], "dropped_attributes_count": 0})),
            Some((n, v, a, d)) => Some(json!({"name": n, "version": v, "schema_url": self.url, "attributes": attrs_json(a), "dropped_attributes_count": d})),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub resource: Option<Attrs>,
    pub scopes: Vec<Sc>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Logs,
    Metrics,
    Traces,
    Profiles,
}
pub const KINDS: [Kind; 4] = [Kind::Logs, Kind::Metrics, Kind::Traces, Kind::Profiles];

#[derive(Clone, Debug)]
pub struct Msg {
    pub kind: Kind,
    pub blocks: Vec<Block>,
    /// attribute table of a profiles message
    pub table: Option<Attrs>,
}

impl Msg {
    fn resource(b: &Block) -> Option<Resource> {
        b.resource.as_ref().map(|a| Resource { attributes: kvs(a), ..Default::default() })
    }
    pub fn logs(&self) -> ExportLogsServiceRequest {
        ExportLogsServiceRequest {
            resource_logs: self
                .blocks
                .iter()
                .map(|b| ResourceLogs {
                    resource: Self::resource(b),
                    scope_logs: b.scopes.iter().map(|s| ScopeLogs { scope: s.wire(), log_records: s.sigs.iter().map(Sig::log).collect(), schema_url: s.url.into() }).collect(),
                    schema_url: String::new(),
                })
                .collect(),
        }
    }
    pub fn metrics(&self) -> ExportMetricsServiceRequest {
        ExportMetricsServiceRequest {
            resource_metrics: self
                .blocks
                .iter()
                .map(|b| m::ResourceMetrics {
                    resource: Self::resource(b),
                    scope_metrics: b.scopes.iter().map(|s| m::ScopeMetrics { scope: s.wire(), metrics: s.sigs.iter().map(Sig::metric).collect(), schema_url: s.url.into() }).collect(),
                    schema_url: String::new(),
                })
                .collect(),
        }
    }
    pub fn traces(&self) -> ExportTraceServiceRequest {
        ExportTraceServiceRequest {
            resource_spans: self
                .blocks
                .iter()
                .map(|b| t::ResourceSpans {
                    resource: Self::resource(b),
                    scope_spans: b.scopes.iter().map(|s| t::ScopeSpans { scope: s.wire(), spans: s.sigs.iter().map(Sig::span).collect(), schema_url: s.url.into() }).collect(),
                    schema_url: String::new(),
                })
                .collect(),
        }
    }
    pub fn profiles(&self) -> ExportProfilesServiceRequest {
        let dictionary = self.table.as_ref().map(|t| {
            // keys are in the string table in reverse, after the empty string
            let mut strings = vec![String::new()];
            strings.extend(t.iter().rev().map(|x| x.0.to_owned()));
            p::ProfilesDictionary {
                attribute_table: t.iter().enumerate().map(|(i, (_, v))| p::KeyValueAndUnit { key_strindex: (t.len() - i) as i32, value: v.wire(), unit_strindex: 0 }).collect(),
                string_table: strings,
                ..Default::default()
            }
        });
        ExportProfilesServiceRequest {
            resource_profiles: self
                .blocks
                .iter()
                .map(|b| p::ResourceProfiles {
                    resource: Self::resource(b),
                    scope_profiles: b.scopes.iter().map(|s| p::ScopeProfiles { scope: s.wire(), profiles: s.sigs.iter().map(Sig::profile).collect(), schema_url: s.url.into() }).collect(),
                    schema_url: String::new(),
                })
                .collect(),
            dictionary,
        }
    }
    /// The samples it states, in order: (sample, resource, scope).
    pub fn samples(&self) -> Vec<(Value, Value, Value)> {
        let mut out = vec![];
        for b in &self.blocks {
            let resource = b.resource.as_ref().map(|a| json!({"attributes": attrs_json(a)}));
            if let Some(r) = &resource {
                out.push((json!({"resource": r}), r.clone(), Value::Null));
            }
            for s in &b.scopes {
                let scope = s.json();
                if let Some(s) = &scope {
                    out.push((json!({"instrumentation_scope": s}), Value::Null, s.clone()));
                }
                for x in &s.sigs {
                    out.push((x.json(&self.table), json!(resource), json!(scope)));
                }
            }
        }
        out
    }
}
