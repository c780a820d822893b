//! Canonical descriptions of telemetry: of what the SDK hands to an exporter, and of what an OTLP request contains.
use crate::metrics::empty_rm;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
use opentelemetry::trace::{Event, Link, SpanContext, SpanId, SpanKind, Status, TraceFlags, TraceId, TraceState};
use opentelemetry::{Array, InstrumentationScope, Key, KeyValue, Value};
use opentelemetry_proto::tonic::collector::{logs::v1::ExportLogsServiceRequest, metrics::v1::ExportMetricsServiceRequest, trace::v1::ExportTraceServiceRequest};
use opentelemetry_proto::tonic::common::v1 as pc;
use opentelemetry_proto::tonic::metrics::v1::{metric::Data, number_data_point, NumberDataPoint};
use opentelemetry_proto::tonic::resource::v1::Resource as PResource;
use opentelemetry_sdk::logs::{SdkLogRecord, SdkLoggerProvider};
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, Exemplar, ExponentialHistogram, Gauge, GaugeDataPoint, Histogram, HistogramDataPoint, Metric, MetricData, ResourceMetrics, ScopeMetrics, Sum, SumDataPoint};
use opentelemetry_sdk::metrics::Temporality;
use opentelemetry_sdk::trace::{SpanData, SpanEvents, SpanLinks};
use opentelemetry_sdk::Resource;
use std::collections::HashMap;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn t(n: u64) -> SystemTime {
    UNIX_EPOCH + Duration::from_nanos(1_700_000_000_000_000_000 + n * 1_000_003)
}
fn ns(t: SystemTime) -> u64 {
    t.duration_since(UNIX_EPOCH).unwrap_or_default().as_nanos() as u64
}
pub fn res(k: u32) -> Resource {
    let a = [KeyValue::new("service.name", "app"), KeyValue::new("n", 7i64)];
    match k {
        0 => Resource::builder_empty().with_attributes(a).build(),
        _ => Resource::builder_empty().with_schema_url(a, "http://res-schema").build(),
    }
}
pub fn scope(k: u32) -> InstrumentationScope {
    match k % 6 {
        5 => InstrumentationScope::builder("lib-c").with_version("3").with_schema_url("http://scope-schema/c").with_attributes([KeyValue::new("sb", 7), KeyValue::new("sc", "x"), KeyValue::new("sd", 1.5)]).build(),
        0 => InstrumentationScope::builder("lib-a").build(),
        1 => InstrumentationScope::builder("lib-a").with_version("1").build(),
        2 => InstrumentationScope::builder("lib-b").with_version("2").with_schema_url("http://scope-schema").build(),
        3 => InstrumentationScope::builder("lib-b").with_attributes([KeyValue::new("sa", true)]).build(),
        _ => InstrumentationScope::builder("").build(),
    }
}
fn value(k: u32) -> Value {
    match k % 8 {
        0 => Value::Bool(k % 3 == 0),
        1 => Value::I64(-(k as i64)),
        2 => Value::F64(k as f64 / 4.0),
        3 => format!("värde-{k}").into(),
        4 => Value::Array(Array::Bool(vec![true, false])),
        5 => Value::Array(Array::I64(vec![1, k as i64])),
        6 => Value::Array(Array::F64(vec![])),
        _ => Value::Array(Array::String(vec!["x".into(), format!("y{k}").into()])),
    }
}
fn attrs(k: u32) -> Vec<KeyValue> {
    (0..[0, 1, 2, 3, 7][k as usize % 5]).map(|i| KeyValue::new(Key::from(format!("k{i}")), value(k / 5 + i))).collect()
}
fn ctx(k: u64) -> SpanContext {
    let ts = if k % 3 == 0 { TraceState::from_key_value([("a", "1"), ("b", "2")]).unwrap() } else { TraceState::default() };
    SpanContext::new(TraceId::from((k as u128) << 64 | 0xabc), SpanId::from(k | 1 << 60), TraceFlags::new([1, 0, 3, 2, 0x81, 0xfe][k as usize % 6]), k % 5 == 0, ts)
}
pub fn span(id: u32) -> SpanData {
    let mut events = SpanEvents::default();
    for i in 0..(id / 3) % 3 {
        events.events.push(Event::new(format!("e{i}"), [t(id as u64 + i as u64), t(id as u64) - Duration::from_secs(3), UNIX_EPOCH, UNIX_EPOCH - Duration::from_secs(1)][(id / 5 + i) as usize % 4], attrs(id + i), i));
    }
    events.dropped_count = id % 2;
    let mut links = SpanLinks::default();
    for i in 0..(id / 7) % 3 {
        links.links.push(Link::new(ctx((id + i) as u64), attrs(id / 2 + i), i));
    }
    links.dropped_count = id % 3;
    SpanData {
        span_context: ctx(id as u64),
        parent_span_id: if id % 2 == 0 { SpanId::INVALID } else { SpanId::from(id as u64) },
        span_kind: [SpanKind::Internal, SpanKind::Client, SpanKind::Server, SpanKind::Producer, SpanKind::Consumer][id as usize % 5].clone(),
        name: format!("name-{id}").into(),
        start_time: t(id as u64),
        end_time: [t(id as u64 + 5), t(id as u64), t(id as u64 + 9_000_000), t(id as u64) - Duration::from_millis(7)][id as usize % 4],
        attributes: attrs(id),
        dropped_attributes_count: id % 4,
        events,
        links,
        status: [Status::Unset, Status::Ok, Status::error("bad"), Status::error("")][id as usize % 4].clone(),
        instrumentation_scope: scope(id / 2),
    }
}
fn any(k: u32) -> AnyValue {
    match k % 7 {
        0 => AnyValue::Int(k as i64),
        1 => AnyValue::Double(0.5),
        2 => AnyValue::from(format!("text-{k}")),
        3 => AnyValue::Boolean(true),
        4 => AnyValue::Bytes(Box::new(vec![0, 255, k as u8])),
        5 => AnyValue::ListAny(Box::new(vec![any(1), any(k % 4)])),
        _ => AnyValue::Map(Box::new(HashMap::from([("a".into(), any(k % 6)), ("b".into(), any(2))]))),
    }
}
pub fn log(id: u32) -> (SdkLogRecord, InstrumentationScope) {
    thread_local!(static L: opentelemetry_sdk::logs::SdkLogger = SdkLoggerProvider::builder().build().logger("x"));
    let mut r = L.with(|l| l.create_log_record());
    r.set_observed_timestamp(t(id as u64));
    if id % 2 == 0 {
        r.set_timestamp(t(id as u64 + 1));
    }
    if id % 3 != 0 {
        r.set_body(any(id));
    }
    if id % 4 != 0 {
        use Severity::*;
        r.set_severity_number([Trace, Trace2, Trace3, Trace4, Debug, Debug2, Debug3, Debug4, Info, Info2, Info3, Info4, Warn, Warn2, Warn3, Warn4, Error, Error2, Error3, Error4, Fatal, Fatal2, Fatal3, Fatal4][id as usize % 24]);
    }
    if id % 7 != 0 {
        r.set_severity_text(["SEV", "", "INFO"][id as usize % 3]);
    }
    if id % 5 == 0 {
        r.set_event_name("evt");
    }
    if id % 6 == 0 {
        r.set_target(["target-x", "lib-a"][(id / 6) as usize % 2]);
    }
    if id % 3 == 1 {
        let c = ctx(id as u64);
        r.set_trace_context(c.trace_id(), c.span_id(), (id % 4 != 0).then(|| c.trace_flags()));
    }
    r.add_attribute("id", AnyValue::from(format!("log-{id}")));
    for i in 0..[0, 1, 2, 3, 4, 5, 9][id as usize % 7] {
        r.add_attribute(format!("k{i}"), any(id + i));
    }
    (r, scope(id / 2))
}
/// The parts of an exponential histogram have no public names, so the SDK has to make one.
fn exp_hist(id: u32, start_time: SystemTime, time: SystemTime, temporality: Temporality) -> AggregatedMetrics {
    use opentelemetry::metrics::MeterProvider as _;
    use opentelemetry_sdk::metrics::{reader::MetricReader as _, Aggregation, Instrument, ManualReader, SdkMeterProvider, Stream};
    #[derive(Clone, Debug)]
    struct R(std::sync::Arc<ManualReader>);
    impl opentelemetry_sdk::metrics::reader::MetricReader for R {
        fn register_pipeline(&self, p: std::sync::Weak<opentelemetry_sdk::metrics::Pipeline>) {
            self.0.register_pipeline(p)
        }
        fn collect(&self, rm: &mut ResourceMetrics) -> opentelemetry_sdk::error::OTelSdkResult {
            self.0.collect(rm)
        }
        fn force_flush(&self) -> opentelemetry_sdk::error::OTelSdkResult {
            self.0.force_flush()
        }
        fn shutdown_with_timeout(&self, d: Duration) -> opentelemetry_sdk::error::OTelSdkResult {
            self.0.shutdown_with_timeout(d)
        }
        fn temporality(&self, k: opentelemetry_sdk::metrics::InstrumentKind) -> Temporality {
            self.0.temporality(k)
        }
    }
    let rd = R(std::sync::Arc::new(ManualReader::builder().build()));
    let view = move |_: &Instrument| Some(Stream::new().aggregation(Aggregation::Base2ExponentialHistogram { max_size: 8, max_scale: 4, record_min_max: id % 16 < 8 }));
    let p = SdkMeterProvider::builder().with_reader(rd.clone()).with_view(view).build();
    let (h, g) = (p.meter("m").f64_histogram("h").build(), p.meter("m").i64_gauge("g").build());
    for i in 0..id / 8 % 7 {
        h.record([1.5, 3.0, 0.0, 7.25, 100.0, 0.5, 0.125][((id + i) % 7) as usize], &attrs(id));
        g.record([-5, 3, 0, 9, -100, 77, -1][((id + i) % 7) as usize], &attrs(id));
    }
    let mut rm = empty_rm();
    let _ = rd.collect(&mut rm);
    for m in rm.scope_metrics.into_iter().flat_map(|s| s.metrics) {
        match (m.data, id / 8 % 2) {
            (AggregatedMetrics::F64(MetricData::ExponentialHistogram(h)), 0) => return AggregatedMetrics::F64(MetricData::ExponentialHistogram(ExponentialHistogram { start_time, time, temporality, ..h })),
            (AggregatedMetrics::I64(MetricData::ExponentialHistogram(h)), 1) => return AggregatedMetrics::I64(MetricData::ExponentialHistogram(ExponentialHistogram { start_time, time, temporality, ..h })),
            _ => {}
        }
    }
    AggregatedMetrics::F64(MetricData::ExponentialHistogram(ExponentialHistogram { data_points: vec![], start_time, time, temporality }))
}
fn metric(id: u32) -> Metric {
    let temp = [Temporality::Delta, Temporality::Cumulative][id as usize / 2 % 2];
    let (start_time, time) = (t(id as u64), t(id as u64 + 9));
    let ex = |k: u32| -> Vec<Exemplar<i64>> {
        (0..k % 3).map(|i| Exemplar { filtered_attributes: attrs(k + i), time: t((k + i) as u64), value: (k + i) as i64, span_id: [i as u8; 8], trace_id: [k as u8; 16] }).collect()
    };
    let data = match id % 8 {
        0 => AggregatedMetrics::U64(MetricData::Sum(Sum { data_points: (0..1 + id / 6 % 3).map(|i| SumDataPoint { attributes: attrs(id + i), value: (id + i) as u64, exemplars: vec![] }).collect(), start_time, time, temporality: temp, is_monotonic: true })),
        1 => AggregatedMetrics::I64(MetricData::Sum(Sum { data_points: vec![SumDataPoint { attributes: attrs(id), value: -(id as i64), exemplars: ex(id / 8) }], start_time, time, temporality: temp, is_monotonic: false })),
        2 => AggregatedMetrics::F64(MetricData::Gauge(Gauge { data_points: vec![GaugeDataPoint { attributes: attrs(id), value: id as f64 / 8.0, exemplars: vec![] }], start_time: (id % 4 == 0).then_some(start_time), time })),
        3 => AggregatedMetrics::U64(MetricData::Gauge(Gauge { data_points: vec![GaugeDataPoint { attributes: attrs(id), value: id as u64, exemplars: vec![] }], start_time: Some(start_time), time })),
        4 => AggregatedMetrics::I64(MetricData::Histogram(Histogram {
            data_points: vec![HistogramDataPoint { attributes: attrs(id), count: 3, bounds: vec![-1.0, 5.0], bucket_counts: vec![1, 0, 2], min: Some(-4), max: Some(id as i64), sum: id as i64, exemplars: ex(id / 5) }],
            start_time,
            time,
            temporality: temp,
        })),
        5 => AggregatedMetrics::I64(MetricData::Gauge(Gauge { data_points: (0..1 + id / 8 % 3).map(|i| GaugeDataPoint { attributes: attrs(id + i), value: [i64::MIN, i64::MAX, -1][i as usize], exemplars: ex(id / 7) }).collect(), start_time: None, time })),
        6 => AggregatedMetrics::F64(MetricData::Histogram(Histogram {
            data_points: vec![HistogramDataPoint { attributes: attrs(id), count: 1, bounds: vec![], bucket_counts: vec![1], min: None, max: None, sum: 1.5, exemplars: vec![] }],
            start_time,
            time,
            temporality: temp,
        })),
        _ => exp_hist(id, start_time, time, temp),
    };
    Metric { name: format!("name-{id}").into(), description: format!("desc-{}", id % 3).into(), unit: ["", "ms"][id as usize % 2].into(), data }
}
pub fn metrics(ids: &[u32], r: &Resource) -> ResourceMetrics {
    let mut rm = empty_rm();
    rm.resource = r.clone();
    for c in ids.chunks(2) {
        rm.scope_metrics.push(ScopeMetrics { scope: scope(c[0]), metrics: c.iter().map(|i| metric(*i)).collect() });
    }
    rm
}
// ------------------------------------------------------------------ text of SDK data
fn tv(v: &Value) -> String {
    fn l<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
        format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
    }
    match v {
        Value::Bool(b) => format!("b{b}"),
        Value::I64(i) => format!("i{i}"),
        Value::F64(f) => format!("d{f:?}"),
        Value::String(s) => format!("s{:?}", s.as_str()),
        Value::Array(Array::Bool(v)) => l(v, |b| format!("b{b}")),
        Value::Array(Array::I64(v)) => l(v, |b| format!("i{b}")),
        Value::Array(Array::F64(v)) => l(v, |b| format!("d{b:?}")),
        Value::Array(Array::String(v)) => l(v, |b| format!("s{:?}", b.as_str())),
        v => format!("?{v:?}"),
    }
}
fn tkv<'a>(a: impl Iterator<Item = (&'a Key, &'a Value)>, sort: bool) -> String {
    let mut v: Vec<String> = a.map(|(k, v)| format!("{k}={}", tv(v))).collect();
    if sort {
        v.sort();
    }
    format!("{{{}}}", v.join(","))
}
fn ta(a: &[KeyValue]) -> String {
    tkv(a.iter().map(|k| (&k.key, &k.value)), false)
}
fn tres(r: &Resource) -> String {
    format!("resource {} {}", tkv(r.iter(), true), r.schema_url().unwrap_or(""))
}
fn tscope(s: &InstrumentationScope) -> String {
    format!("scope {:?} {:?} {} {:?}", s.name(), s.version().unwrap_or(""), tkv(s.attributes().map(|k| (&k.key, &k.value)), true), s.schema_url().unwrap_or(""))
}
fn tany(v: &AnyValue) -> String {
    match v {
        AnyValue::Int(i) => format!("i{i}"),
        AnyValue::Double(f) => format!("d{f:?}"),
        AnyValue::String(s) => format!("s{:?}", s.as_str()),
        AnyValue::Boolean(b) => format!("b{b}"),
        AnyValue::Bytes(b) => format!("y{b:?}"),
        AnyValue::ListAny(l) => format!("[{}]", l.iter().map(tany).collect::<Vec<_>>().join(",")),
        AnyValue::Map(m) => {
            let mut v: Vec<String> = m.iter().map(|(k, v)| format!("{k}={}", tany(v))).collect();
            v.sort();
            format!("({})", v.join(","))
        }
        v => format!("?{v:?}"),
    }
}
pub fn span_text(s: &SpanData, r: &Resource) -> String {
    let c = |c: &SpanContext| format!("{}/{}/{}/{}", c.trace_id(), c.span_id(), c.trace_flags().to_u8(), c.trace_state().header());
    let events: Vec<String> = s.events.iter().map(|e| format!("{} {} {} {}", e.name, ns(e.timestamp), ta(&e.attributes), e.dropped_attributes_count)).collect();
    let links: Vec<String> = s.links.iter().map(|l| format!("{} {} {}", c(&l.span_context), ta(&l.attributes), l.dropped_attributes_count)).collect();
    let st = match &s.status {
        Status::Unset => "0".into(),
        Status::Ok => "1".into(),
        Status::Error { description } => format!("2{description}"),
    };
    let kind = match s.span_kind {
        SpanKind::Internal => 1,
        SpanKind::Server => 2,
        SpanKind::Client => 3,
        SpanKind::Producer => 4,
        SpanKind::Consumer => 5,
    };
    let parent = if s.parent_span_id == SpanId::INVALID { String::new() } else { s.parent_span_id.to_string() };
    format!(
        "span {:?} {} parent {parent} kind {kind} {}-{} {} dropped {} events {events:?} {} links {links:?} {} status {st} | {} | {}",
        s.name, c(&s.span_context), ns(s.start_time), ns(s.end_time), ta(&s.attributes), s.dropped_attributes_count, s.events.dropped_count, s.links.dropped_count, tscope(&s.instrumentation_scope), tres(r)
    )
}
pub fn log_text(l: &SdkLogRecord, s: &InstrumentationScope, r: &Resource) -> String {
    let tc = l.trace_context().map(|c| format!("{}/{}/{}", c.trace_id, c.span_id, c.trace_flags.map_or(0, |f| f.to_u8()))).unwrap_or("//0".into());
    let attrs: Vec<String> = l.attributes_iter().map(|(k, v)| format!("{k}={}", tany(v))).collect();
    // the target of a record is exported as its scope
    let sc = match l.target() {
        Some(t) => format!("scope {:?}", &t[..]),
        None => tscope(s),
    };
    format!(
        "log {} {} sev {} {:?} event {:?} ctx {tc} body {:?} {attrs:?} | {sc} | {}",
        l.timestamp().map_or(0, ns),
        l.observed_timestamp().map_or(0, ns),
        l.severity_number().map_or(0, |s| s as i32),
        l.severity_text().unwrap_or(""),
        l.event_name().unwrap_or(""),
        l.body().map(tany),
        tres(r)
    )
}
pub fn metric_texts(rm: &ResourceMetrics) -> Vec<String> {
    fn temp(t: Temporality) -> i32 {
        match t {
            Temporality::Delta => 1,
            _ => 2,
        }
    }
    fn data<T: Copy>(d: &MetricData<T>, num: impl Fn(T) -> String, dbl: impl Fn(T) -> f64) -> String {
        match d {
            MetricData::Sum(s) => {
                let p: Vec<String> = s.data_points.iter().map(|p| format!("{} {} {}-{} {}", ta(&p.attributes), num(p.value), ns(s.start_time), ns(s.time), exs(&p.exemplars, &num))).collect();
                format!("sum {} {} {p:?}", temp(s.temporality), s.is_monotonic)
            }
            MetricData::Gauge(s) => {
                let p: Vec<String> = s.data_points.iter().map(|p| format!("{} {} {}-{} {}", ta(&p.attributes), num(p.value), s.start_time.map_or(0, ns), ns(s.time), exs(&p.exemplars, &num))).collect();
                format!("gauge {p:?}")
            }
            MetricData::Histogram(s) => {
                let p: Vec<String> = s
                    .data_points
                    .iter()
                    .map(|p| format!("{} {}-{} n {} sum {:?} {:?} {:?} min {:?} max {:?} {}", ta(&p.attributes), ns(s.start_time), ns(s.time), p.count, Some(dbl(p.sum)), p.bounds, p.bucket_counts, p.min.map(&dbl), p.max.map(&dbl), exs(&p.exemplars, &num)))
                    .collect();
                format!("hist {} {p:?}", temp(s.temporality))
            }
            MetricData::ExponentialHistogram(s) => exp(s, num, dbl),
        }
    }
    fn exs<T: Copy>(e: &[Exemplar<T>], num: impl Fn(T) -> String) -> String {
        let v: Vec<String> = e.iter().map(|e| format!("{} {} {} {} {}", ta(&e.filtered_attributes), ns(e.time), num(e.value), hex(&e.span_id), hex(&e.trace_id))).collect();
        format!("ex {v:?}")
    }
    fn exp<T: Copy>(s: &ExponentialHistogram<T>, num: impl Fn(T) -> String, dbl: impl Fn(T) -> f64) -> String {
        let p: Vec<String> = s
            .data_points
            .iter()
            .map(|p| {
                let b = |b: &opentelemetry_sdk::metrics::data::ExponentialBucket| format!("{} {:?}", b.offset, b.counts);
                format!(
                    "{} {}-{} n {} sum {:?} {} zero {} {:?} + {} - {} min {:?} max {:?} {}",
                    ta(&p.attributes), ns(s.start_time), ns(s.time), p.count, Some(dbl(p.sum)), p.scale, p.zero_count, p.zero_threshold, b(&p.positive_bucket), b(&p.negative_bucket), p.min.map(&dbl), p.max.map(&dbl), exs(&p.exemplars, &num)
                )
            })
            .collect();
        format!("exp {} {p:?}", temp(s.temporality))
    }
    let mut v = vec![];
    for s in &rm.scope_metrics {
        for m in &s.metrics {
            let d = match &m.data {
                AggregatedMetrics::F64(d) => data(d, |v| format!("d{v:?}"), |v| v),
                AggregatedMetrics::U64(d) => data(d, |v| format!("i{v}"), |v| v as f64),
                AggregatedMetrics::I64(d) => data(d, |v| format!("i{v}"), |v| v as f64),
            };
            v.push(format!("metric {} {} {:?} {d} | {} | {}", m.name, m.description, m.unit, tscope(&s.scope), tres(&rm.resource)));
        }
    }
    v
}
// ------------------------------------------------------------------ text of OTLP requests
fn pv(v: &Option<pc::AnyValue>) -> String {
    use pc::any_value::Value::*;
    match v.as_ref().and_then(|v| v.value.as_ref()) {
        None => "none".into(),
        Some(BoolValue(b)) => format!("b{b}"),
        Some(IntValue(i)) => format!("i{i}"),
        Some(DoubleValue(f)) => format!("d{f:?}"),
        Some(StringValue(s)) => format!("s{s:?}"),
        Some(BytesValue(b)) => format!("y{b:?}"),
        Some(ArrayValue(a)) => format!("[{}]", a.values.iter().map(|v| pv(&Some(v.clone()))).collect::<Vec<_>>().join(",")),
        Some(KvlistValue(m)) => {
            let mut v: Vec<String> = m.values.iter().map(|k| format!("{}={}", k.key, pv(&k.value))).collect();
            v.sort();
            format!("({})", v.join(","))
        }
    }
}
fn pa(a: &[pc::KeyValue], sort: bool) -> String {
    let mut v: Vec<String> = a.iter().map(|k| format!("{}={}", k.key, pv(&k.value))).collect();
    if sort {
        v.sort();
    }
    format!("{{{}}}", v.join(","))
}
fn pres(r: &Option<PResource>, schema: &str) -> String {
    format!("resource {} {schema}", r.as_ref().map_or("none".into(), |r| pa(&r.attributes, true)))
}
fn pscope(s: &Option<pc::InstrumentationScope>, schema: &str) -> String {
    s.as_ref().map_or("scope none".into(), |s| format!("scope {:?} {:?} {} {schema:?}", s.name, s.version, pa(&s.attributes, true)))
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn trace_request(r: &ExportTraceServiceRequest) -> Vec<String> {
    let mut v = vec![];
    for rs in &r.resource_spans {
        for ss in &rs.scope_spans {
            for s in &ss.spans {
                let events: Vec<String> = s.events.iter().map(|e| format!("{} {} {} {}", e.name, e.time_unix_nano, pa(&e.attributes, false), e.dropped_attributes_count)).collect();
                let links: Vec<String> = s.links.iter().map(|l| format!("{}/{}/{}/{} {} {}", hex(&l.trace_id), hex(&l.span_id), l.flags & 0xff, l.trace_state, pa(&l.attributes, false), l.dropped_attributes_count)).collect();
                let st = s.status.as_ref().map_or("0".into(), |s| format!("{}{}", s.code, s.message));
                v.push(format!(
                    "span {:?} {}/{}/{}/{} parent {} kind {} {}-{} {} dropped {} events {events:?} {} links {links:?} {} status {st} | {} | {}",
                    s.name, hex(&s.trace_id), hex(&s.span_id), s.flags & 0xff, s.trace_state, hex(&s.parent_span_id), s.kind, s.start_time_unix_nano, s.end_time_unix_nano, pa(&s.attributes, false), s.dropped_attributes_count,
                    s.dropped_events_count, s.dropped_links_count, pscope(&ss.scope, &ss.schema_url), pres(&rs.resource, &rs.schema_url)
                ));
            }
        }
    }
    v
}
/// `targets`: names that come from the target of a record, whose scope has nothing else to compare
pub fn logs_request(r: &ExportLogsServiceRequest, target: impl Fn(&str) -> bool) -> Vec<String> {
    let mut v = vec![];
    for rs in &r.resource_logs {
        for ss in &rs.scope_logs {
            for l in &ss.log_records {
                let tc = format!("{}/{}/{}", hex(&l.trace_id), hex(&l.span_id), l.flags & 0xff);
                let attrs: Vec<String> = l.attributes.iter().map(|k| format!("{}={}", k.key, pv(&k.value))).collect();
                let id = l.attributes.iter().find(|k| k.key == "id").map(|k| pv(&k.value)).unwrap_or_default();
                let sc = if target(&id) { format!("scope {:?}", ss.scope.as_ref().map_or("", |s| &s.name)) } else { pscope(&ss.scope, &ss.schema_url) };
                v.push(format!(
                    "log {} {} sev {} {:?} event {:?} ctx {tc} body {:?} {attrs:?} | {sc} | {}",
                    l.time_unix_nano,
                    l.observed_time_unix_nano,
                    l.severity_number,
                    l.severity_text,
                    l.event_name,
                    l.body.as_ref().map(|b| pv(&Some(b.clone()))),
                    pres(&rs.resource, &rs.schema_url)
                ));
            }
        }
    }
    v
}
pub fn metrics_request(r: &ExportMetricsServiceRequest) -> Vec<String> {
    fn exs(e: &[opentelemetry_proto::tonic::metrics::v1::Exemplar]) -> String {
        use opentelemetry_proto::tonic::metrics::v1::exemplar::Value;
        let n = |v: &Option<Value>| match v {
            Some(Value::AsDouble(f)) => format!("d{f:?}"),
            Some(Value::AsInt(i)) => format!("i{i}"),
            None => "none".into(),
        };
        let v: Vec<String> = e.iter().map(|e| format!("{} {} {} {} {}", pa(&e.filtered_attributes, false), e.time_unix_nano, n(&e.value), hex(&e.span_id), hex(&e.trace_id))).collect();
        format!("ex {v:?}")
    }
    fn num(p: &[NumberDataPoint]) -> Vec<String> {
        p.iter()
            .map(|p| {
                let v = match p.value {
                    Some(number_data_point::Value::AsDouble(f)) => format!("d{f:?}"),
                    Some(number_data_point::Value::AsInt(i)) => format!("i{i}"),
                    None => "none".into(),
                };
                format!("{} {v} {}-{} {}", pa(&p.attributes, false), p.start_time_unix_nano, p.time_unix_nano, exs(&p.exemplars))
            })
            .collect()
    }
    let mut v = vec![];
    for rs in &r.resource_metrics {
        for ss in &rs.scope_metrics {
            for m in &ss.metrics {
                let d = match &m.data {
                    Some(Data::Sum(s)) => format!("sum {} {} {:?}", s.aggregation_temporality, s.is_monotonic, num(&s.data_points)),
                    Some(Data::Gauge(s)) => format!("gauge {:?}", num(&s.data_points)),
                    Some(Data::Histogram(s)) => {
                        let p: Vec<String> = s
                            .data_points
                            .iter()
                            .map(|p| format!("{} {}-{} n {} sum {:?} {:?} {:?} min {:?} max {:?} {}", pa(&p.attributes, false), p.start_time_unix_nano, p.time_unix_nano, p.count, p.sum, p.explicit_bounds, p.bucket_counts, p.min, p.max, exs(&p.exemplars)))
                            .collect();
                        format!("hist {} {p:?}", s.aggregation_temporality)
                    }
                    Some(Data::ExponentialHistogram(s)) => {
                        let b = |b: &Option<opentelemetry_proto::tonic::metrics::v1::exponential_histogram_data_point::Buckets>| b.as_ref().map_or("none".into(), |b| format!("{} {:?}", b.offset, b.bucket_counts));
                        let p: Vec<String> = s
                            .data_points
                            .iter()
                            .map(|p| {
                                format!(
                                    "{} {}-{} n {} sum {:?} {} zero {} {:?} + {} - {} min {:?} max {:?} {}",
                                    pa(&p.attributes, false), p.start_time_unix_nano, p.time_unix_nano, p.count, p.sum, p.scale, p.zero_count, p.zero_threshold, b(&p.positive), b(&p.negative), p.min, p.max, exs(&p.exemplars)
                                )
                            })
                            .collect();
                        format!("exp {} {p:?}", s.aggregation_temporality)
                    }
                    d => format!("?{d:?}"),
                };
                v.push(format!("metric {} {} {:?} {d} | {} | {}", m.name, m.description, m.unit, pscope(&ss.scope, &ss.schema_url), pres(&rs.resource, &rs.schema_url)));
            }
        }
    }
    v
}
