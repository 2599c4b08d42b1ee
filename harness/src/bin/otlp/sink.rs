//! A receiver of OTLP that records what it is sent, and can be told to refuse it.
use opentelemetry_proto::tonic::collector::{
    logs::v1::{logs_service_server::*, ExportLogsServiceRequest, ExportLogsServiceResponse},
    metrics::v1::{metrics_service_server::*, ExportMetricsServiceRequest, ExportMetricsServiceResponse},
    trace::v1::{trace_service_server::*, ExportTraceServiceRequest, ExportTraceServiceResponse},
};
use opentelemetry_proto::tonic::common::v1::{any_value, AnyValue, KeyValue};
use opentelemetry_proto::tonic::metrics::v1::{metric::Data, number_data_point};
use opentelemetry_proto::tonic::resource::v1::Resource;
use serde_json::{json, Map, Value};
use std::sync::{Arc, Mutex};
use tonic::{Code, Request, Response, Status};

/// Everything received, one object per signal.
#[derive(Default, Clone)]
pub struct Got {
    pub spans: Vec<Value>,
    pub metrics: Vec<Value>,
    pub logs: Vec<Value>,
    pub requests: usize,
}

#[derive(Clone)]
struct State {
    got: Arc<Mutex<Got>>,
    /// What to answer: spans, metrics, logs.
    refuse: [Option<Code>; 3],
}

pub struct Sink {
    pub port: u16,
    state: State,
    _rt: tokio::runtime::Runtime,
}

/// `[kind, value]`
pub fn value(v: Option<&AnyValue>) -> Value {
    use any_value::Value as W;
    match v.and_then(|v| v.value.as_ref()) {
        None => json!(["none"]),
        Some(W::StringValue(s)) => json!(["string", s]),
        Some(W::IntValue(i)) => json!(["int", i]),
        Some(W::DoubleValue(d)) => json!(["double", d]),
        Some(W::BoolValue(b)) => json!(["boolean", b]),
        Some(W::ArrayValue(a)) => json!(["array", a.values.iter().map(|v| value(Some(v))).collect::<Vec<_>>()]),
        Some(W::KvlistValue(l)) => json!(["map", attributes(&l.values)]),
        Some(W::BytesValue(b)) => json!(["bytes", b]),
        Some(x) => json!(["other", format!("{x:?}")]),
    }
}

/// A name that is there twice has all its values.
pub fn attributes(a: &[KeyValue]) -> Value {
    let mut m = Map::new();
    for kv in a {
        let v = value(kv.value.as_ref());
        match m.get_mut(&kv.key) {
            Some(old) => *old = json!(["twice", old, v]),
            None => {
                let _ = m.insert(kv.key.clone(), v);
            }
        }
    }
    Value::Object(m)
}

fn resource(r: Option<&Resource>) -> Value {
    attributes(r.map(|r| r.attributes.as_slice()).unwrap_or_default())
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

impl State {
    fn put(&self, i: usize, f: impl FnOnce(&mut Got)) -> Result<(), Status> {
        let mut g = self.got.lock().expect("lock");
        g.requests += 1;
        match self.refuse[i] {
            Some(c) => Err(Status::new(c, "refused")),
            None => {
                f(&mut g);
                Ok(())
            }
        }
    }
}

#[tonic::async_trait]
impl TraceService for State {
    async fn export(&self, r: Request<ExportTraceServiceRequest>) -> Result<Response<ExportTraceServiceResponse>, Status> {
        self.put(0, |g| {
            for rs in r.into_inner().resource_spans {
                let res = resource(rs.resource.as_ref());
                for ss in rs.scope_spans {
                    let scope = ss.scope.map(|s| s.name).unwrap_or_default();
                    for s in ss.spans {
                        g.spans.push(json!({"resource": res, "scope": scope, "name": s.name, "kind": s.kind, "trace": hex(&s.trace_id), "id": hex(&s.span_id), "parent": hex(&s.parent_span_id),
                            "attributes": attributes(&s.attributes), "dropped": s.dropped_attributes_count, "events": s.events.len(), "links": s.links.len(),
                            "status": s.status.map(|s| s.code).unwrap_or(0), "order": s.start_time_unix_nano <= s.end_time_unix_nano && s.start_time_unix_nano > 0}));
                    }
                }
            }
        })?;
        Ok(Response::new(Default::default()))
    }
}

#[tonic::async_trait]
impl MetricsService for State {
    async fn export(&self, r: Request<ExportMetricsServiceRequest>) -> Result<Response<ExportMetricsServiceResponse>, Status> {
        self.put(1, |g| {
            for rm in r.into_inner().resource_metrics {
                let res = resource(rm.resource.as_ref());
                for sm in rm.scope_metrics {
                    let scope = sm.scope.map(|s| s.name).unwrap_or_default();
                    for m in sm.metrics {
                        let num = |d: &opentelemetry_proto::tonic::metrics::v1::NumberDataPoint| {
                            json!({"attributes": attributes(&d.attributes), "value": match d.value { Some(number_data_point::Value::AsDouble(x)) => json!(["double", x]), Some(number_data_point::Value::AsInt(x)) => json!(["int", x]), None => json!(null) }})
                        };
                        let (what, points): (&str, Vec<Value>) = match &m.data {
                            Some(Data::Gauge(d)) => ("gauge", d.data_points.iter().map(num).collect()),
                            Some(Data::Sum(d)) => (if d.is_monotonic { "counter" } else { "updowncounter" }, d.data_points.iter().map(num).collect()),
                            Some(Data::Histogram(d)) => ("histogram", d.data_points.iter().map(|p| json!({"attributes": attributes(&p.attributes), "value": ["double", p.sum], "count": p.count})).collect()),
                            _ => ("other", vec![]),
                        };
                        g.metrics.push(json!({"resource": res, "scope": scope, "name": m.name, "unit": m.unit, "description": m.description, "instrument": what, "points": points}));
                    }
                }
            }
        })?;
        Ok(Response::new(Default::default()))
    }
}

#[tonic::async_trait]
impl LogsService for State {
    async fn export(&self, r: Request<ExportLogsServiceRequest>) -> Result<Response<ExportLogsServiceResponse>, Status> {
        self.put(2, |g| {
            for rl in r.into_inner().resource_logs {
                let res = resource(rl.resource.as_ref());
                for sl in rl.scope_logs {
                    let scope = sl.scope.map(|s| s.name).unwrap_or_default();
                    for l in sl.log_records {
                        g.logs.push(json!({"resource": res, "scope": scope, "event_name": l.event_name, "severity": l.severity_number, "severity_text": l.severity_text, "body": value(l.body.as_ref()), "attributes": attributes(&l.attributes), "dropped": l.dropped_attributes_count}));
                    }
                }
            }
        })?;
        Ok(Response::new(Default::default()))
    }
}

impl Sink {
    pub fn start(refuse: [Option<Code>; 3]) -> Self {
        let state = State { got: Default::default(), refuse };
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().expect("runtime");
        let incoming = {
            let _in = rt.enter();
            tonic::transport::server::TcpIncoming::bind(([127, 0, 0, 1], 0).into()).expect("bind")
        };
        let port = incoming.local_addr().expect("address").port();
        let max = 1 << 28;
        let server = tonic::transport::Server::builder()
            .add_service(TraceServiceServer::new(state.clone()).max_decoding_message_size(max))
            .add_service(MetricsServiceServer::new(state.clone()).max_decoding_message_size(max))
            .add_service(LogsServiceServer::new(state.clone()).max_decoding_message_size(max))
            .serve_with_incoming(incoming);
        let _ = rt.spawn(server);
        Self { port, state, _rt: rt }
    }
    pub fn url(&self) -> String {
        format!("http://127.0.0.1:{}", self.port)
    }
    pub fn got(&self) -> Got {
        self.state.got.lock().expect("lock").clone()
    }
}
