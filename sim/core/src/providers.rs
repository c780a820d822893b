//! T08: provider shutdown and flush. C04: the global providers.
use crate::batch::S_CFG;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _};
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::propagation::{text_map_propagator::FieldIter, Extractor, Injector, TextMapPropagator};
use opentelemetry::trace::{Span as _, TraceContextExt, Tracer as _, TracerProvider as _};
use opentelemetry::{global, Context, InstrumentationScope};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::{LogProcessor, SdkLogRecord, SdkLogger, SdkLoggerProvider};
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{InstrumentKind, ManualReader, Pipeline, SdkMeterProvider, Temporality};
use opentelemetry_sdk::trace::{SdkTracer, SdkTracerProvider, SpanData, SpanProcessor};
use simfw::*;
use std::sync::{Arc, Weak};
use std::thread;
use std::time::Duration;

#[derive(Clone, Debug)]
struct Ev {
    proc_: usize,
    what: char, // s shutdown, f flush, i item
    s: u64,
    e: u64,
    ok: bool,
    tid: i32,
}
#[derive(Clone, Debug)]
struct Call {
    what: char,
    s: u64,
    e: u64,
    r: OTelSdkResult2,
    tid: i32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum OTelSdkResult2 {
    Ok,
    Already,
    Failed,
}
#[derive(Default)]
struct H {
    ev: Vec<Ev>,
    calls: Vec<Call>,
}
struct P {
    h: Arc<Shared<H>>,
    i: usize,
    flush_fails: bool,
    shut_fails: bool,
    slow: bool,
    manual: ManualReader,
}
impl std::fmt::Debug for P {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("proc")
    }
}
impl P {
    fn do_(&self, what: char, fails: bool) -> OTelSdkResult {
        let s = seq();
        tr!("processor {} {what} begins", self.i);
        if what == 's' {
            self.h.with(|h| ensure!(!h.ev.iter().any(|e| e.what == 's' && e.proc_ == self.i), "processor-shutdown-twice", "processor {} shut down twice", self.i));
        }
        let k = self.h.with(|h| {
            h.ev.push(Ev { proc_: self.i, what, s, e: 0, ok: !fails, tid: tid() });
            h.ev.len() - 1
        });
        if self.slow && what != 'i' {
            fault("slow_processor");
            thread::sleep(Duration::from_micros(1 + choose(50 + self.i as u32, 200_000) as u64));
        }
        self.h.with(|h| h.ev[k].e = seq());
        if fails {
            fault("processor_error");
            Err(match choose(50 + self.i as u32, 3) {
                0 => OTelSdkError::InternalFailure("no".into()),
                1 => OTelSdkError::Timeout(Duration::from_secs(1)),
                _ => OTelSdkError::AlreadyShutdown,
            })
        } else {
            Ok(())
        }
    }
}
impl SpanProcessor for P {
    fn on_start(&self, _s: &mut opentelemetry_sdk::trace::Span, _cx: &Context) {
        let _ = self.do_('i', false);
    }
    fn on_end(&self, _s: SpanData) {}
    fn force_flush(&self) -> OTelSdkResult {
        self.do_('f', self.flush_fails)
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.do_('s', self.shut_fails)
    }
}
impl LogProcessor for P {
    fn emit(&self, _d: &mut SdkLogRecord, _s: &InstrumentationScope) {
        let _ = self.do_('i', false);
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.do_('f', self.flush_fails)
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.do_('s', self.shut_fails)
    }
}
impl MetricReader for P {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.manual.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.manual.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.do_('f', self.flush_fails)
    }
    fn shutdown_with_timeout(&self, _t: Duration) -> OTelSdkResult {
        self.do_('s', self.shut_fails)
    }
    fn temporality(&self, _k: InstrumentKind) -> Temporality {
        Temporality::Delta
    }
}
/// What the three kinds of provider have in common.
trait Prov: Clone + Send + 'static {
    type Old: Send + 'static;
    fn flush(&self) -> OTelSdkResult;
    fn shut(&self) -> OTelSdkResult;
    fn old(&self) -> Self::Old;
    /// uses an old handle; true if it claims to be working
    fn use_old(&self, o: &Self::Old) -> bool;
}
impl Prov for SdkTracerProvider {
    type Old = SdkTracer;
    fn flush(&self) -> OTelSdkResult {
        self.force_flush()
    }
    fn shut(&self) -> OTelSdkResult {
        self.shutdown()
    }
    fn old(&self) -> SdkTracer {
        self.tracer("t")
    }
    fn use_old(&self, o: &SdkTracer) -> bool {
        let mut s = o.start("x");
        s.add_event("e", vec![]);
        let r = s.is_recording();
        s.end();
        r
    }
}
impl Prov for SdkLoggerProvider {
    type Old = SdkLogger;
    fn flush(&self) -> OTelSdkResult {
        self.force_flush()
    }
    fn shut(&self) -> OTelSdkResult {
        self.shutdown()
    }
    fn old(&self) -> SdkLogger {
        self.logger("t")
    }
    fn use_old(&self, o: &SdkLogger) -> bool {
        let mut r = o.create_log_record();
        r.set_body(AnyValue::Int(1));
        o.emit(r);
        false
    }
}
impl Prov for SdkMeterProvider {
    type Old = opentelemetry::metrics::Counter<u64>;
    fn flush(&self) -> OTelSdkResult {
        self.force_flush()
    }
    fn shut(&self) -> OTelSdkResult {
        self.shutdown()
    }
    fn old(&self) -> Self::Old {
        self.meter("m").u64_counter("c").build()
    }
    fn use_old(&self, o: &Self::Old) -> bool {
        o.add(1, &[]);
        false
    }
}
fn lifecycle<T: Prov>(provider: T, h: Arc<Shared<H>>, np: usize, metrics: bool) {
    let n = 1 + choose(S_CFG, 4);
    let explicit = chance(S_CFG, 2);
    let v: Vec<_> = (0..n).map(|k| {
        let (p, h) = (provider.clone(), h.clone());
        let old = if chance(S_CFG, 2) { Some(p.old()) } else { None };
        thread::spawn(move || {
            let s = 1 + k;
            let mut old = old;
            for _ in 0..1 + choose(s, 6) {
                match choose(s, if explicit { 6 } else { 4 }) {
                    0 => {
                        let begun = h.with(|h| h.calls.iter().any(|c| c.what == 's' && c.e != 0));
                        let x = p.old();
                        let before = h.with(|h| h.ev.iter().filter(|e| e.what == 'i' && e.tid == tid()).count());
                        let rec = p.use_old(&x);
                        let after = h.with(|h| h.ev.iter().filter(|e| e.what == 'i' && e.tid == tid()).count());
                        ensure!(!(begun && (rec || after != before)), "not-inert", "a tracer or logger obtained after shutdown still records");
                        old = Some(x);
                    }
                    1 => {
                        if let Some(o) = &old {
                            p.use_old(o);
                        }
                    }
                    2 | 3 => {
                        let i = h.with(|h| {
                            h.calls.push(Call { what: 'f', s: seq(), e: 0, r: OTelSdkResult2::Ok, tid: tid() });
                            h.calls.len() - 1
                        });
                        let r = p.flush();
                        finish(&h, i, r);
                    }
                    _ => {
                        let i = h.with(|h| {
                            h.calls.push(Call { what: 's', s: seq(), e: 0, r: OTelSdkResult2::Ok, tid: tid() });
                            h.calls.len() - 1
                        });
                        let r = p.shut();
                        finish(&h, i, r);
                    }
                }
                if chance(s, 3) {
                    thread::sleep(Duration::from_micros(choose(s, 100_000) as u64));
                }
            }
            match choose(s, 2) {
                0 => {
                    drop(p);
                    drop(old)
                }
                _ => {
                    drop(old);
                    drop(p)
                }
            }
        })
    }).collect();
    drop(provider);
    for x in v {
        x.join().unwrap();
    }
    h.with(|h| {
        let eff: Vec<&Call> = h.calls.iter().filter(|c| c.what == 's' && c.r != OTelSdkResult2::Already).collect();
        let any = h.calls.iter().any(|c| c.what == 's');
        ensure!(eff.len() <= 1 && (!any || eff.len() == 1), "shutdown-effective", "{} shutdown calls took effect: {:?}", eff.len(), h.calls);
        for i in 0..np {
            let sh: Vec<&Ev> = h.ev.iter().filter(|e| e.what == 's' && e.proc_ == i).collect();
            ensure!(sh.len() == 1, "processor-not-shut-down", "processor {i} was shut down {} times although every handle is gone; calls: {:?}", sh.len(), h.calls);
            if let Some(c) = eff.first() {
                ensure!(sh[0].s > c.s && sh[0].e < c.e, "shutdown-too-early", "shutdown returned before processor {i} was shut down");
                ensure!(!(c.r == OTelSdkResult2::Ok && !sh[0].ok), "shutdown-error-masked", "processor {i} failed to shut down but the provider reported success");
            }
        }
        if let Some(c) = eff.first() {
            if h.ev.iter().all(|e| e.what != 's' || e.ok) {
                ensure!(c.r == OTelSdkResult2::Ok, "shutdown-fails", "no processor failed but shutdown reported a failure");
            }
        } else {
            probe("shutdown_by_drop");
        }
        for c in h.calls.iter().filter(|c| c.what == 'f') {
            let mine: Vec<&Ev> = h.ev.iter().filter(|e| e.what == 'f' && e.s > c.s && e.e < c.e && e.e != 0).collect();
            let reached = (0..np).all(|i| mine.iter().any(|e| e.proc_ == i));
            if c.r == OTelSdkResult2::Ok {
                ensure!(reached, "flush-misses-processor", "flush succeeded without flushing every processor: {c:?}");
                ensure!(!mine.iter().any(|e| e.tid == c.tid && !e.ok), "flush-error-masked", "a processor failed but flush reported success");
            } else {
                let shut = h.calls.iter().any(|o| o.what == 's' && o.s < c.e);
                ensure!(reached || shut, "flush-misses-processor", "a failing flush stopped at the failing processor: {c:?}");
                ensure!(shut || mine.iter().any(|e| !e.ok), "flush-fails", "no processor failed but flush reported a failure");
            }
            if metrics && c.r == OTelSdkResult2::Ok {
                ensure!(!h.calls.iter().any(|o| o.what == 's' && o.e != 0 && o.e < c.s), "flush-after-shutdown", "flush after shutdown reported success");
            }
        }
    });
}
fn finish(h: &Shared<H>, i: usize, r: OTelSdkResult) {
    tr!("call {i} returned {r:?}");
    let eff = matches!(&r, Err(OTelSdkError::AlreadyShutdown));
    h.with(|h| {
        h.calls[i].e = seq();
        h.calls[i].r = match r {
            Ok(()) => OTelSdkResult2::Ok,
            _ if eff => OTelSdkResult2::Already,
            _ => OTelSdkResult2::Failed,
        };
    });
}
fn procs() -> (Arc<Shared<H>>, Vec<P>) {
    let h: Arc<Shared<H>> = Arc::default();
    let n = pick(S_CFG, &[1, 2, 3, 1, 2, 3, 5, 6]);
    let v = (0..n).map(|i| P {
        h: h.clone(),
        i,
        flush_fails: chance(S_CFG, 4),
        shut_fails: chance(S_CFG, 4),
        slow: chance(S_CFG, 3),
        manual: ManualReader::default(),
    }).collect();
    (h, v)
}
fn t08_trace() {
    let (h, v) = procs();
    let n = v.len();
    let mut b = SdkTracerProvider::builder();
    for p in v {
        b = b.with_span_processor(p);
    }
    lifecycle(b.build(), h, n, false);
}
fn t08_logs() {
    let (h, v) = procs();
    let n = v.len();
    let mut b = SdkLoggerProvider::builder();
    for p in v {
        b = b.with_log_processor(p);
    }
    lifecycle(b.build(), h, n, false);
}
fn t08_metrics() {
    let (h, v) = procs();
    let n = v.len();
    let mut b = SdkMeterProvider::builder();
    for p in v {
        b = b.with_reader(p);
    }
    lifecycle(b.build(), h, n, true);
}

// ---------------------------------------------------------------- C04
#[derive(Clone, Debug)]
struct Set {
    kind: u8,
    s: u64,
    e: u64,
}
#[derive(Default)]
struct G {
    sets: Vec<Set>, // provider i is installed by sets[i]
    seen: Vec<(usize, String)>,
    uses: Vec<(u8, String, u64, u64, bool)>,
    insets: u32,
}
static G_: Shared<Option<G>> = Shared::new(None);
fn g<R>(f: impl FnOnce(&mut G) -> R) -> R {
    G_.with(|x| f(x.get_or_insert_with(G::default)))
}
#[derive(Debug)]
struct GProc(usize, u8);
/// An installed component that itself uses the globals.
fn use_globals(how: u8) {
    if how == 0 {
        return;
    }
    probe("component_uses_globals");
    match how {
        5 => {}
        1 => {
            let _ = global::tracer("inner");
        }
        2 => {
            global::meter("inner").u64_counter("inner").build().add(1, &[]);
        }
        3 => global::get_text_map_propagator(|p| {
            let _ = p.fields().count();
        }),
        _ => {
            let _ = global::tracer_provider();
            let _ = global::meter_provider();
            global::get_text_map_propagator(|p| {
                let _ = p.fields().count();
            });
        }
    }
}
impl SpanProcessor for GProc {
    fn on_start(&self, _s: &mut opentelemetry_sdk::trace::Span, _c: &Context) {
        use_globals(self.1)
    }
    fn on_end(&self, s: SpanData) {
        let n = s.name.to_string();
        if n != "inner" {
            g(|g| g.seen.push((self.0, n)));
        }
        use_globals(self.1)
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        use_globals(self.1);
        Ok(())
    }
}
#[derive(Debug)]
struct GReader(usize, u8, ManualReader);
impl GReader {
    fn harvest(&self) {
        let mut rm = ResourceMetrics { resource: opentelemetry_sdk::Resource::builder_empty().build(), scope_metrics: vec![] };
        if self.2.collect(&mut rm).is_ok() {
            for s in &rm.scope_metrics {
                for m in &s.metrics {
                    let n = m.name.to_string();
                    if n != "inner" {
                        g(|g| g.seen.push((self.0, n)));
                    }
                }
            }
        }
    }
}
impl MetricReader for GReader {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.2.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.2.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.harvest();
        Ok(())
    }
    fn shutdown_with_timeout(&self, _t: Duration) -> OTelSdkResult {
        use_globals(self.1);
        self.harvest();
        Ok(())
    }
    fn temporality(&self, _k: InstrumentKind) -> Temporality {
        Temporality::Delta
    }
}
thread_local!(static TOP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }); // called by the application, which is prepared for a panic
thread_local!(static INNER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
/// What a foreign provider does in its own methods: it uses the globals, and now and then it panics.
fn foreign(how: u8, stream: u32) {
    if INNER.with(|i| i.replace(true)) {
        return;
    }
    if how == 5 {
        if chance(stream, 3) {
            set_global([0, 1, 2][stream as usize % 52 % 3], 0, 0, true)
        }
    } else {
        use_globals(how);
    }
    INNER.with(|i| i.set(false));
    if how > 0 && TOP.with(|t| t.get()) && chance(stream, 8) {
        TOP.with(|t| t.set(false)); // unwinding may drop what calls here again
        inject_panic()
    }
}
/// Providers of the application's own, around those of the SDK.
#[derive(Debug)]
struct GTp(u8, SdkTracerProvider);
impl opentelemetry::trace::TracerProvider for GTp {
    type Tracer = SdkTracer;
    fn tracer_with_scope(&self, scope: InstrumentationScope) -> SdkTracer {
        foreign(self.0, 52);
        self.1.tracer_with_scope(scope)
    }
}
struct GMp(u8, SdkMeterProvider);
impl opentelemetry::metrics::MeterProvider for GMp {
    fn meter_with_scope(&self, scope: InstrumentationScope) -> opentelemetry::metrics::Meter {
        foreign(self.0, 53);
        self.1.meter_with_scope(scope)
    }
}
#[derive(Debug)]
struct GProp(usize, u8, Vec<String>);
impl TextMapPropagator for GProp {
    fn inject_context(&self, _c: &Context, i: &mut dyn Injector) {
        i.set("p", self.0.to_string());
        foreign(self.1, 54);
        if chance(51, 3) {
            thread::yield_now();
        }
        i.set("q", self.0.to_string());
    }
    fn extract_with_context(&self, c: &Context, _e: &dyn Extractor) -> Context {
        use_globals(self.1);
        c.with_value(self.0)
    }
    fn fields(&self) -> FieldIter<'_> {
        FieldIter::new(&self.2)
    }
}
impl Drop for GProp {
    fn drop(&mut self) {
        use_globals(self.1)
    }
}
static KEEP: Shared<Vec<SdkMeterProvider>> = Shared::new(vec![]);
fn set_global(kind: u8, s: u32, nested: u8, keep: bool) {
    let i = g(|g| {
        g.sets.push(Set { kind, s: 0, e: 0 });
        g.sets.len() - 1
    });
    let how = nested;
    match kind {
        0 => {
            let p = SdkTracerProvider::builder().with_span_processor(GProc(i, how)).build();
            g(|g| g.sets[i].s = seq());
            tr!("set tracer provider {i}");
            let old = if chance(56, 2) { global::set_tracer_provider(GTp(how, p)) } else { global::set_tracer_provider(p) };
            g(|g| g.sets[i].e = seq());
            drop(old);
        }
        1 => {
            let p = SdkMeterProvider::builder().with_reader(GReader(i, how, ManualReader::builder().with_temporality(Temporality::Delta).build())).build();
            if keep {
                KEEP.with(|k| k.push(p.clone()));
            }
            g(|g| g.sets[i].s = seq());
            tr!("set meter provider {i}");
            if chance(55, 2) {
                global::set_meter_provider(GMp(how, p))
            } else {
                global::set_meter_provider(p)
            }
            g(|g| g.sets[i].e = seq());
        }
        _ => {
            let p = GProp(i, how, vec![format!("f{i}")]);
            g(|g| g.sets[i].s = seq());
            tr!("set propagator {i}");
            global::set_text_map_propagator(p);
            g(|g| g.sets[i].e = seq());
        }
    }
    tr!("set {i} done");
    let _ = s;
}
struct Map(std::collections::HashMap<String, String>);
impl Injector for Map {
    fn set(&mut self, k: &str, v: String) {
        self.0.insert(k.into(), v);
    }
}
impl Extractor for Map {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|x| x.as_str())
    }
    fn keys(&self) -> Vec<&str> {
        vec![]
    }
}
fn globals() {
    let nested = if chance(S_CFG, 2) { 0 } else { 1 + choose(S_CFG, 5) as u8 };
    let keep = chance(S_CFG, 2);
    let kinds: &[u8] = [&[0u8][..], &[1], &[2], &[0, 1, 2]][choose(S_CFG, 4) as usize];
    let nset = 1 + choose(S_CFG, 3);
    let nuse = 1 + choose(S_CFG, 3);
    let mut v: Vec<_> = (0..nset).map(|k| {
        thread::spawn(move || {
            let s = 1 + k;
            for _ in 0..1 + choose(s, 3) {
                thread::sleep(Duration::from_micros(choose(s, 100) as u64));
                set_global(pick(s, kinds), s, nested, keep);
            }
        })
    }).collect();
    v.extend((0..nuse).map(|k| {
        thread::spawn(move || {
            let s = 10 + k;
            for j in 0..1 + choose(s, 6) {
                let name = format!("u{k}-{j}");
                let kind = pick(s, kinds);
                let b = seq();
                tr!("use {name} begins");
                // something obtained earlier keeps working with the provider it came from
                TOP.with(|t| t.set(true));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut found = None;
                let mid;
                match kind {
                    0 => {
                        let t = match choose(s, 3) {
                            0 => global::tracer("x"),
                            1 => global::tracer_with_scope(InstrumentationScope::builder("y").build()),
                            _ => opentelemetry::trace::TracerProvider::tracer(&global::tracer_provider(), "z"),
                        };
                        mid = seq();
                        TOP.with(|t| t.set(false));
                        if chance(s, 3) {
                            thread::sleep(Duration::from_micros(choose(s, 200) as u64));
                        }
                        t.start(name.clone()).end();
                    }
                    1 => {
                        let n: &'static str = Box::leak(name.clone().into_boxed_str());
                        let m = match choose(s, 3) {
                            0 => global::meter("x"),
                            1 => global::meter_with_scope(InstrumentationScope::builder("y").build()),
                            _ => global::meter_provider().meter("z"),
                        };
                        mid = seq();
                        TOP.with(|t| t.set(false));
                        m.u64_counter(n).build().add(1, &[]);
                    }
                    _ => {
                        let mut m = Map(Default::default());
                        if chance(s, 2) {
                            global::get_text_map_propagator(|p| p.inject_context(&Context::new(), &mut m));
                            ensure!(m.get("p") == m.get("q"), "mixed", "one injection used two propagators: {:?}", m.0);
                            found = m.get("p").map(|x| x.parse::<usize>().unwrap());
                        } else {
                            let cx = global::get_text_map_propagator(|p| p.extract(&m));
                            found = cx.get::<usize>().copied();
                        }
                        mid = seq();
                    }
                }
                (found, mid)
                }));
                TOP.with(|t| t.set(false));
                let Ok((found, mid)) = r else {
                    probe("foreign_provider_panicked");
                    continue;
                };
                tr!("use {name} done {found:?}");
                g(|g| {
                    if let Some(p) = found {
                        g.seen.push((p, name.clone()));
                    }
                    g.uses.push((kind, name, b, mid, false));
                });
            }
        })
    }));
    for x in v {
        x.join().unwrap();
    }
    // install and drop everything, so that every provider has reported
    for k in 0..3 {
        if kinds.contains(&k) {
            set_global(k, 0, 0, false);
        }
    }
    for k in KEEP.with(std::mem::take) {
        let _ = k.force_flush();
        let _ = k.shutdown();
    }
    g(|g| {
        for (kind, name, b, e, _) in &g.uses {
            let by: Vec<usize> = g.seen.iter().filter(|x| x.1 == *name).map(|x| x.0).collect();
            ensure!(by.len() <= 1, "duplicate", "{name} was seen by providers {by:?}");
            let sets = &g.sets;
            let before = |p: usize| sets.iter().any(|q| q.kind == *kind && q.s > sets[p].e && q.e != 0 && q.e < *b && sets[p].e != 0);
            match by.first() {
                Some(p) => {
                    ensure!(sets[*p].kind == *kind && sets[*p].s < *e, "not-installed", "{name} reached provider {p}, which was installed only later");
                    ensure!(!before(*p), "stale", "{name} reached provider {p}, which had been replaced before the call began");
                    probe(["tracer_seen", "meter_seen", "propagator_seen"][*kind as usize]);
                }
                // the initial no-op provider; a meter whose provider is gone or shut down records nothing
                None => {
                    let set_before = sets.iter().any(|q| q.kind == *kind && q.e != 0 && q.e < *b);
                    if set_before && (*kind != 1 || keep) {
                        violation("lost", &format!("{name} reached no provider although one was installed before the call began"));
                    }
                }
            }
        }
    });
}
pub const SCEN: &[Scenario] = &[
    Scenario { prop: "T08", name: "trace", weight: 1, run: t08_trace, opts: DEFAULT },
    Scenario { prop: "T08", name: "logs", weight: 1, run: t08_logs, opts: DEFAULT },
    Scenario { prop: "T08", name: "metrics", weight: 1, run: t08_metrics, opts: DEFAULT },
    Scenario { prop: "C04", name: "globals", weight: 1, run: globals, opts: DEFAULT },
];
