//! X04 and X06: the in-memory and the stdout exporters.
use crate::batch::S_CFG;
use crate::metrics::empty_rm;
use futures_executor::block_on;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _};
use opentelemetry::trace::{Event, SpanContext, SpanId, SpanKind, Status, TraceFlags, TraceId, TraceState};
use opentelemetry::{InstrumentationScope, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{in_memory_exporter::InMemoryLogExporterBuilder, InMemoryLogExporter, LogBatch, LogExporter, SdkLogRecord, SdkLoggerProvider};
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, Gauge, GaugeDataPoint, Histogram, HistogramDataPoint, Metric, MetricData, ResourceMetrics, ScopeMetrics, Sum, SumDataPoint};
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::{InMemoryMetricExporter, InMemoryMetricExporterBuilder, Temporality};
use opentelemetry_sdk::trace::{InMemorySpanExporter, InMemorySpanExporterBuilder, SpanData, SpanEvents, SpanExporter, SpanLinks};
use opentelemetry_sdk::Resource;
use simfw::*;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use std::thread;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn t(id: u32) -> SystemTime {
    UNIX_EPOCH + Duration::from_millis(1_700_000_000_000 + id as u64)
}
fn attrs(id: u32) -> Vec<KeyValue> {
    (0..id % 3).map(|i| KeyValue::new(format!("k{i}"), format!("attr-{id}-{i}-"))).collect()
}
fn res() -> Resource {
    Resource::builder_empty().with_attributes([KeyValue::new("service.name", "res-app")]).build()
}
fn scope(id: u32) -> InstrumentationScope {
    InstrumentationScope::builder(["lib-a", "lib-b"][id as usize % 2]).with_version("1").build()
}
fn span(id: u32) -> SpanData {
    let mut events = SpanEvents::default();
    for i in 0..id % 3 {
        events.events.push(Event::new(format!("event-{id}-{i}-"), t(id), attrs(0), 0));
    }
    SpanData {
        span_context: SpanContext::new(TraceId::from(id as u128 + 1), SpanId::from(id as u64 + 1), TraceFlags::SAMPLED, false, TraceState::default()),
        parent_span_id: SpanId::from(id as u64),
        span_kind: SpanKind::Client,
        name: format!("name-{id}-").into(),
        start_time: t(id),
        end_time: t(id + 1),
        attributes: attrs(id),
        dropped_attributes_count: id % 2,
        events,
        links: SpanLinks::default(),
        status: Status::error(format!("status-{id}-")),
        instrumentation_scope: scope(id),
    }
}
fn log(id: u32) -> (SdkLogRecord, InstrumentationScope) {
    thread_local!(static L: opentelemetry_sdk::logs::SdkLogger = SdkLoggerProvider::builder().build().logger("x"));
    let mut r = L.with(|l| l.create_log_record());
    r.set_body(AnyValue::from(format!("name-{id}-")));
    r.set_timestamp(t(id));
    r.set_observed_timestamp(t(id));
    for kv in attrs(id) {
        r.add_attribute(kv.key, AnyValue::from(kv.value.as_str().to_string()));
    }
    if id % 2 == 0 {
        r.set_event_name("evt");
    }
    (r, scope(id))
}
fn metric(id: u32) -> Metric {
    let data = match id % 3 {
        0 => AggregatedMetrics::U64(MetricData::Sum(Sum {
            data_points: vec![SumDataPoint { attributes: attrs(id), value: id as u64, exemplars: vec![] }],
            start_time: t(id),
            time: t(id + 1),
            temporality: Temporality::Delta,
            is_monotonic: true,
        })),
        1 => AggregatedMetrics::F64(MetricData::Gauge(Gauge { data_points: vec![GaugeDataPoint { attributes: attrs(id), value: id as f64, exemplars: vec![] }], start_time: Some(t(id)), time: t(id + 1) })),
        _ => AggregatedMetrics::I64(MetricData::Histogram(Histogram {
            data_points: vec![HistogramDataPoint { attributes: attrs(id), count: 1, bounds: vec![5.0], bucket_counts: vec![1, 0], min: Some(1), max: Some(1), sum: 1, exemplars: vec![] }],
            start_time: t(id),
            time: t(id + 1),
            temporality: Temporality::Cumulative,
        })),
    };
    Metric { name: format!("name-{id}-").into(), description: format!("desc-{id}-").into(), unit: "1".into(), data }
}
fn metrics(ids: &[u32]) -> ResourceMetrics {
    let mut rm = empty_rm();
    rm.resource = res();
    for c in ids.chunks(1 + ids.first().map_or(0, |i| *i as usize % 2)) {
        rm.scope_metrics.push(ScopeMetrics { scope: scope(c[0]), metrics: c.iter().map(|i| metric(*i)).collect() });
    }
    rm
}
// ------------------------------------------------------------------ X04
#[derive(Clone, Debug, PartialEq)]
enum Op {
    Export(Vec<u32>),
    Read(Vec<u32>),
    Reset,
}
#[derive(Clone, Debug)]
struct Done {
    s: u64,
    e: u64,
    op: Op,
}
trait Mem: Clone + Send + 'static {
    /// one exported element per batch instead of one per item
    const WHOLE: bool = false;
    fn put(&self, ids: &[u32]) -> OTelSdkResult;
    /// Debug text of every stored item
    fn get(&self) -> Vec<String>;
    fn clear(&self);
    /// whether shutdown removes what was exported
    fn shut(&mut self) -> bool;
    fn text(id: u32) -> String;
    fn init(&mut self) {}
}
impl Mem for InMemorySpanExporter {
    fn put(&self, ids: &[u32]) -> OTelSdkResult {
        block_on(self.export(ids.iter().map(|i| span(*i)).collect()))
    }
    fn get(&self) -> Vec<String> {
        self.get_finished_spans().unwrap().iter().map(|s| format!("{s:?}")).collect()
    }
    fn clear(&self) {
        self.reset()
    }
    fn shut(&mut self) -> bool {
        ensure!(SpanExporter::shutdown(self).is_ok(), "shutdown", "failed");
        true
    }
    fn text(id: u32) -> String {
        format!("{:?}", span(id))
    }
}
#[derive(Clone)]
struct Logs(InMemoryLogExporter, bool);
fn log_text(r: &SdkLogRecord, s: &InstrumentationScope, res: &Resource) -> String {
    format!("{r:?} {s:?} {:?}", res.get(&"service.name".into()))
}
impl Mem for Logs {
    fn put(&self, ids: &[u32]) -> OTelSdkResult {
        let l: Vec<_> = ids.iter().map(|i| log(*i)).collect();
        let r: Vec<_> = l.iter().map(|l| (&l.0, &l.1)).collect();
        block_on(self.0.export(LogBatch::new(&r)))
    }
    fn get(&self) -> Vec<String> {
        self.0.get_emitted_logs().unwrap().iter().map(|l| log_text(&l.record, &l.instrumentation, &l.resource)).collect()
    }
    fn clear(&self) {
        self.0.reset()
    }
    fn shut(&mut self) -> bool {
        ensure!(LogExporter::shutdown(&self.0).is_ok(), "shutdown", "failed");
        self.1
    }
    fn text(id: u32) -> String {
        let l = log(id);
        log_text(&l.0, &l.1, &res())
    }
    fn init(&mut self) {
        self.0.set_resource(&res())
    }
}
impl Mem for InMemoryMetricExporter {
    const WHOLE: bool = true;
    fn put(&self, ids: &[u32]) -> OTelSdkResult {
        let mut rm = metrics(&[ids[0], ids[0] + 1, ids[0] + 2]);
        block_on(self.export(&mut rm))
    }
    fn get(&self) -> Vec<String> {
        self.get_finished_metrics().unwrap().iter().map(|m| format!("{:?} {:?}", m.scope_metrics, m.resource.get(&"service.name".into()))).collect()
    }
    fn clear(&self) {
        self.reset()
    }
    fn shut(&mut self) -> bool {
        let r = if chance(S_CFG, 2) { PushMetricExporter::shutdown(self) } else { self.shutdown_with_timeout(Duration::from_secs(1)) };
        ensure!(r.is_ok() && self.force_flush().is_ok(), "shutdown", "failed");
        false
    }
    fn text(id: u32) -> String {
        let m = metrics(&[id, id + 1, id + 2]);
        format!("{:?} {:?}", m.scope_metrics, m.resource.get(&"service.name".into()))
    }
}
/// Whether some order of the operations that respects their real-time order explains every read.
fn linearizable(ops: &[Done]) -> bool {
    fn go(ops: &[Done], mask: u64, state: &[u32], seen: &mut HashSet<(u64, Vec<u32>)>) -> bool {
        if mask.count_ones() as usize == ops.len() {
            return true;
        }
        if !seen.insert((mask, state.to_vec())) {
            return false;
        }
        let first_end = (0..ops.len()).filter(|i| mask & (1 << i) == 0).map(|i| ops[i].e).min().unwrap();
        for (i, o) in ops.iter().enumerate() {
            if mask & (1 << i) != 0 || o.s > first_end {
                continue;
            }
            let m = mask | 1 << i;
            match &o.op {
                Op::Export(v) => {
                    let mut s = state.to_vec();
                    s.extend(v);
                    if go(ops, m, &s, seen) {
                        return true;
                    }
                }
                Op::Reset => {
                    if go(ops, m, &[], seen) {
                        return true;
                    }
                }
                // a possible read changes nothing: no need to try another order
                Op::Read(v) if v[..] == *state => return go(ops, m, state, seen),
                Op::Read(_) => {}
            }
        }
        false
    }
    go(ops, 0, &[], &mut HashSet::new())
}
fn memory<M: Mem>(mut m: M) {
    m.init();
    let h: Arc<Shared<(u32, Vec<Done>)>> = Default::default();
    let texts: Arc<Shared<HashMap<String, u32>>> = Default::default();
    let resets = chance(S_CFG, 2);
    let n = 2 + choose(S_CFG, 2);
    let v: Vec<_> = (0..n).map(|i| {
        let (mut m, h, texts) = (m.clone(), h.clone(), texts.clone());
        thread::spawn(move || {
            let st = 2 + i;
            for _ in 0..1 + choose(st, 6) {
                let k = choose(st, if resets { 5 } else { 4 });
                let s;
                let op = match k {
                    0 | 1 => {
                        let ids: Vec<u32> = (0..if M::WHOLE { 1 } else { choose(st, 4) }).map(|_| h.with(|h| {
                            // equal items are items of their own
                            if h.0 == 0 || !chance(st, 5) {
                                h.0 += 3;
                            }
                            h.0
                        })).collect();
                        texts.with(|t| ids.iter().for_each(|i| {
                            t.insert(M::text(*i), *i);
                        }));
                        s = seq();
                        ensure!(m.put(&ids).is_ok(), "export-failed", "{ids:?}");
                        Op::Export(ids)
                    }
                    2 | 3 => {
                        s = seq();
                        let g = m.get();
                        Op::Read(g.iter().map(|x| texts.with(|t| t.get(x).copied()).unwrap_or_else(|| violation("altered", &format!("an item was never exported like this: {x}")))).collect())
                    }
                    _ => {
                        s = seq();
                        if chance(st, 2) {
                            m.clear();
                            Op::Reset
                        } else if m.shut() {
                            Op::Reset
                        } else {
                            continue;
                        }
                    }
                };
                tr!("{op:?}");
                h.with(|h| h.1.push(Done { s, e: seq(), op }));
            }
        })
    }).collect();
    for t in v {
        let _ = t.join();
    }
    let s = seq();
    let g = m.get();
    let last = g.iter().map(|x| texts.with(|t| t.get(x).copied()).unwrap_or_else(|| violation("altered", x))).collect();
    h.with(|h| {
        h.1.push(Done { s, e: seq(), op: Op::Read(last) });
        ensure!(linearizable(&h.1), "not-linearizable", "{:?}", h.1.iter().map(|d| format!("[{}-{}] {:?}", d.s, d.e, d.op)).collect::<Vec<_>>());
        count("x04.ops", h.1.len() as u64);
    });
}
fn mem_spans() {
    memory(InMemorySpanExporterBuilder::new().build())
}
fn mem_logs() {
    // the builder method for keeping the records is private: shutdown always resets
    memory(Logs(InMemoryLogExporterBuilder::new().build(), true))
}
fn mem_metrics() {
    memory(InMemoryMetricExporterBuilder::new().build())
}
// ------------------------------------------------------------------ X06
extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn pread(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize;
}
fn capture() -> i32 {
    unsafe {
        let fd = memfd_create(c"out".as_ptr() as *const u8, 0);
        assert!(fd >= 0 && dup2(fd, 1) == 1);
        fd
    }
}
fn written(fd: i32) -> String {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let _g = Atomic::new();
    let mut out = Vec::new();
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let n = unsafe { pread(fd, buf.as_mut_ptr(), buf.len(), out.len() as i64) };
        if n <= 0 {
            break;
        }
        out.extend(&buf[..n as usize]);
    }
    String::from_utf8_lossy(&out).into_owned()
}
#[derive(Clone, Debug)]
struct Exp {
    s: u64,
    e: u64,
    ids: Vec<u32>,
    ok: bool,
}
trait Out: Sync + Send + 'static {
    fn put(&self, ids: &[u32]) -> OTelSdkResult;
    /// None: needs exclusive access
    fn shut(&self) -> Option<OTelSdkResult>;
    fn shut_mut(&mut self) -> OTelSdkResult;
    const RES_PER_EXPORT: bool;
    /// how often the description of an item may contain these
    fn tokens(id: u32) -> Vec<String>;
}
struct SpanOut(opentelemetry_stdout::SpanExporter);
impl Out for SpanOut {
    fn put(&self, ids: &[u32]) -> OTelSdkResult {
        block_on(self.0.export(ids.iter().map(|i| span(*i)).collect()))
    }
    fn shut(&self) -> Option<OTelSdkResult> {
        None
    }
    fn shut_mut(&mut self) -> OTelSdkResult {
        SpanExporter::shutdown(&mut self.0)
    }
    const RES_PER_EXPORT: bool = false;
    fn tokens(id: u32) -> Vec<String> {
        let mut v = vec![format!("name-{id}-"), format!("status-{id}-"), format!("TraceId     : {:032x}", id + 1)];
        v.extend((0..id % 3).flat_map(|i| [format!("attr-{id}-{i}-"), format!("event-{id}-{i}-")]));
        v
    }
}
fn record_tokens(id: u32) -> Vec<String> {
    let mut v = vec![format!("name-{id}-")];
    v.extend((0..id % 3).map(|i| format!("attr-{id}-{i}-")));
    v
}
struct LogOut(opentelemetry_stdout::LogExporter);
impl Out for LogOut {
    fn put(&self, ids: &[u32]) -> OTelSdkResult {
        let l: Vec<_> = ids.iter().map(|i| log(*i)).collect();
        let r: Vec<_> = l.iter().map(|l| (&l.0, &l.1)).collect();
        block_on(self.0.export(LogBatch::new(&r)))
    }
    fn shut(&self) -> Option<OTelSdkResult> {
        Some(LogExporter::shutdown(&self.0))
    }
    fn shut_mut(&mut self) -> OTelSdkResult {
        LogExporter::shutdown(&self.0)
    }
    const RES_PER_EXPORT: bool = false;
    fn tokens(id: u32) -> Vec<String> {
        record_tokens(id)
    }
}
struct MetricOut(opentelemetry_stdout::MetricExporter);
impl Out for MetricOut {
    fn put(&self, ids: &[u32]) -> OTelSdkResult {
        block_on(self.0.export(&mut metrics(ids)))
    }
    fn shut(&self) -> Option<OTelSdkResult> {
        Some(PushMetricExporter::shutdown(&self.0))
    }
    fn shut_mut(&mut self) -> OTelSdkResult {
        PushMetricExporter::shutdown(&self.0)
    }
    const RES_PER_EXPORT: bool = true;
    fn tokens(id: u32) -> Vec<String> {
        let mut v = record_tokens(id);
        v.push(format!("desc-{id}-"));
        v
    }
}
fn stdout<O: Out>(o: O) {
    let fd = capture();
    let o = Arc::new(o);
    let h: Arc<Shared<(u32, Vec<Exp>, Vec<(u64, u64)>)>> = Default::default();
    let shuts = chance(S_CFG, 2);
    let exporter = |h: &Arc<Shared<(u32, Vec<Exp>, Vec<(u64, u64)>)>>, o: &O, st: u32| {
        let ids: Vec<u32> = (0..choose(st, 6)).map(|_| h.with(|h| {
            h.0 += 1;
            h.0
        })).collect();
        let s = seq();
        let ok = o.put(&ids).is_ok();
        h.with(|h| h.1.push(Exp { s, e: seq(), ids, ok }));
    };
    let v: Vec<_> = (0..2 + choose(S_CFG, 2)).map(|i| {
        let (o, h) = (o.clone(), h.clone());
        thread::spawn(move || {
            let st = 2 + i;
            for _ in 0..1 + choose(st, 5) {
                if shuts && chance(st, 5) {
                    let s = seq();
                    if let Some(r) = o.shut() {
                        let _ = r;
                        h.with(|h| h.2.push((s, seq())));
                    }
                } else {
                    exporter(&h, &o, st);
                }
            }
        })
    }).collect();
    for t in v {
        let _ = t.join();
    }
    let mut o = Arc::into_inner(o).unwrap();
    if chance(S_CFG, 2) {
        let s = seq();
        let _ = o.shut_mut();
        h.with(|h| h.2.push((s, seq())));
        exporter(&h, &o, 1);
    }
    let out = written(fd);
    h.with(|h| {
        let mut printed = 0;
        for x in &h.1 {
            let after = h.2.iter().any(|s| s.1 < x.s);
            let before = h.2.iter().all(|s| s.0 > x.e);
            ensure!(!(x.ok && after), "export-after-shutdown", "an export beginning after shutdown completed succeeds: {x:?}");
            ensure!(x.ok || !before, "export-failed", "{x:?}");
            printed += x.ok as usize;
            for id in &x.ids {
                for tok in O::tokens(*id) {
                    let n = out.matches(&tok).count();
                    ensure!(n == x.ok as usize, "printed", "{tok:?} of item {id} appears {n} times (export {x:?})\n{out}");
                }
            }
        }
        let n = out.lines().filter(|l| *l == "Resource").count();
        let k = out.matches("res-app").count();
        let want = if O::RES_PER_EXPORT { printed } else { printed.min(1) };
        ensure!(n == want && k == want, "resource", "the resource is printed {n} times ({k} with its attribute), expected {want}\n{out}");
        count("x06.exports", h.1.len() as u64);
    });
}
fn out_spans() {
    let mut e = opentelemetry_stdout::SpanExporter::default();
    e.set_resource(&res());
    stdout(SpanOut(e))
}
fn out_logs() {
    let mut e = opentelemetry_stdout::LogExporter::default();
    e.set_resource(&res());
    stdout(LogOut(e))
}
fn out_metrics() {
    stdout(MetricOut(opentelemetry_stdout::MetricExporter::default()))
}
macro_rules! sc {
    ($p:expr, $n:expr, $w:expr, $f:expr, $o:expr) => {
        Scenario { prop: $p, name: $n, weight: $w, run: $f, opts: $o }
    };
}
pub const SCEN: &[Scenario] = &[
    sc!("X04", "memory-spans", 1, mem_spans, DEFAULT),
    sc!("X04", "memory-logs", 1, mem_logs, DEFAULT),
    sc!("X04", "memory-metrics", 1, mem_metrics, DEFAULT),
    sc!("X06", "stdout-spans", 1, out_spans, DEFAULT),
    sc!("X06", "stdout-logs", 1, out_logs, DEFAULT),
    sc!("X06", "stdout-metrics", 1, out_metrics, DEFAULT),
];
