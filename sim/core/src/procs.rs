//! T09: chains of span processors.
use crate::batch::S_CFG;
use opentelemetry::trace::{Link, SamplingResult, Span as _, SpanContext, SpanId, SpanKind, TraceContextExt, TraceFlags, TraceId, TraceState, Tracer as _, TracerProvider as _};
use opentelemetry::{Context, Key, KeyValue};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::trace::{ShouldSample, Sampler, SdkTracerProvider, SimpleSpanProcessor, Span, SpanData, SpanExporter, SpanProcessor};
use opentelemetry_sdk::Resource;
use simfw::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};
use std::thread;
use std::time::Duration;

/// Value in the parent context of a span.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Mark(u32);
struct Start {
    proc: usize,
    span: SpanId,
    tid: i32,
    at: u64,
    mark: Option<Mark>,
    seen: Vec<KeyValue>,
    parent: SpanId,
}
struct End {
    proc: usize,
    tid: i32,
    at: u64,
    data: SpanData,
}
#[derive(Default, Clone)]
struct App {
    recording: bool,
    sampled: bool,
    tid: i32,
    start: (u64, u64),
    mark: Option<Mark>,
    parent: Option<SpanId>,
    attrs: usize,
    attrs0: usize,
    end_tid: i32,
    end: (u64, u64),
}
#[derive(Default)]
struct H {
    starts: Vec<Start>,
    ends: Vec<End>,
    exported: Vec<(u64, SpanData)>,
    app: BTreeMap<[u8; 8], App>,
    resources: Vec<(usize, u64)>,
    shutdown: (u64, u64),
    /// the sampler adds an attribute
    smp: bool,
}
thread_local!(static NESTED: Cell<bool> = const { Cell::new(false) });
#[derive(Clone, Copy, Debug)]
struct Conf {
    adds: bool,
    slow: bool,
    nested_start: bool,
    nested_end: bool,
    uses_cx: bool,
}
struct Proc {
    h: Arc<Shared<H>>,
    i: usize,
    c: Conf,
    provider: Arc<OnceLock<SdkTracerProvider>>,
}
impl std::fmt::Debug for Proc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "proc {}", self.i)
    }
}
impl Proc {
    fn work(&self, nested: bool) {
        if self.c.slow {
            thread::sleep(Duration::from_micros(choose(50, 300) as u64));
        }
        if self.c.uses_cx {
            let _g = Context::current().with_value(Mark(999)).attach();
            Context::map_current(|c| c.has_active_span());
        }
        if nested && !NESTED.get() {
            if let Some(p) = self.provider.get() {
                NESTED.set(true);
                probe("nested_span");
                one_span(&self.h, p, 40, true);
                NESTED.set(false);
            }
        }
    }
}
impl SpanProcessor for Proc {
    fn on_start(&self, s: &mut Span, cx: &Context) {
        let seen = s.exported_data();
        ensure!(s.is_recording() && seen.is_some(), "start-of-unrecorded", "processor {} is told of the start of a span that does not record", self.i);
        let seen = seen.unwrap();
        let id = s.span_context().span_id();
        self.h.with(|h| {
            h.starts.push(Start { proc: self.i, span: id, tid: tid(), at: seq(), mark: cx.get::<Mark>().copied(), seen: seen.attributes, parent: cx.span().span_context().span_id() })
        });
        if self.c.adds {
            s.set_attribute(KeyValue::new(format!("p{}", self.i), self.i as i64));
        }
        self.work(self.c.nested_start);
    }
    fn on_end(&self, data: SpanData) {
        self.h.with(|h| h.ends.push(End { proc: self.i, tid: tid(), at: seq(), data }));
        self.work(self.c.nested_end);
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
    fn set_resource(&mut self, r: &Resource) {
        ensure!(r.get(&Key::new("who")) == Some("app".into()), "resource", "processor {} got another resource", self.i);
        self.h.with(|h| h.resources.push((self.i, seq())));
    }
}
#[derive(Debug)]
struct Exp(Arc<Shared<H>>);
impl SpanExporter for Exp {
    fn export(&self, b: Vec<SpanData>) -> impl std::future::Future<Output = OTelSdkResult> + Send {
        self.0.with(|h| h.exported.extend(b.into_iter().map(|d| (seq(), d))));
        let fail = chance(51, 4);
        async move {
            if fail {
                fault("export_error");
                return Err(crate::batch::exporter_error(50));
            }
            Ok(())
        }
    }
}
/// Starts a span, records on it, ends it, on this thread or by handing it to another.
fn one_span(h: &Arc<Shared<H>>, p: &SdkTracerProvider, s: u32, nested: bool) {
    let t = p.tracer("app");
    let na = choose(s, 3) as usize;
    let kv = |i: usize| KeyValue::new(format!("a{i}"), i as i64);
    let sb = t.span_builder("x").with_attributes((0..na).map(kv));
    let m = Mark(choose(s, 900));
    let mut a = App { tid: tid(), mark: Some(m), attrs: na, attrs0: na, start: (seq(), 0), ..App::default() };
    let remote = SpanContext::new(TraceId::from(7 + choose(s, 2) as u128), SpanId::from(9), TraceFlags::new(choose(s, 2) as u8), true, TraceState::default());
    let mut span = match choose(s, 4) {
        0 => {
            let cx = Context::new().with_value(m);
            a.parent = Some(SpanId::INVALID);
            t.build_with_context(sb, &cx)
        }
        1 => {
            let cx = Context::new().with_value(m).with_remote_span_context(remote);
            a.parent = Some(SpanId::from(9));
            t.build_with_context(sb, &cx)
        }
        2 => {
            let _g = Context::current().with_value(m).attach();
            a.parent = Some(Context::current().span().span_context().span_id());
            t.build(sb)
        }
        _ => {
            // a root span all the same
            let cx = Context::new().with_value(m).with_remote_span_context(remote);
            t.build_with_context(sb.with_kind(SpanKind::Server).with_trace_id(TraceId::from(77)), &cx)
        }
    };
    a.start.1 = seq();
    a.recording = span.is_recording();
    a.sampled = span.span_context().is_sampled();
    let id = span.span_context().span_id().to_bytes();
    for _ in 0..choose(s, 3) {
        span.set_attribute(kv(a.attrs));
        a.attrs += 1;
    }
    if !a.recording && id == [0; 8] {
        return;
    }
    h.with(|h| {
        h.app.insert(id, a);
    });
    let end = move |h: &Arc<Shared<H>>, f: &mut dyn FnMut()| {
        h.with(|h| {
            let a = h.app.get_mut(&id).unwrap();
            a.end_tid = tid();
            a.end.0 = seq();
        });
        f();
        h.with(|h| h.app.get_mut(&id).unwrap().end.1 = seq());
    };
    match choose(s, if nested { 2 } else { 5 }) {
        0 => end(h, &mut || span.end()),
        1 => {
            let mut o = Some(span);
            end(h, &mut || drop(o.take()))
        }
        2 => {
            let h = h.clone();
            thread::spawn(move || {
                let mut o = Some(span);
                end(&h, &mut || drop(o.take()))
            })
            .join()
            .unwrap()
        }
        3 => {
            let mut g = Some(Context::current().with_span(span).attach());
            if choose(s, 2) == 1 {
                one_span(h, p, s, true);
            }
            end(h, &mut || drop(g.take()))
        }
        _ => {
            let cx = Context::current_with_span(span);
            let c2 = cx.clone();
            let v = thread::spawn(move || drop(c2));
            end(h, &mut || cx.span().end());
            v.join().unwrap()
        }
    }
}
/// A sampler that uses the context stack.
#[derive(Debug, Clone)]
struct Nosy(Sampler, bool);
impl ShouldSample for Nosy {
    fn should_sample(&self, p: Option<&Context>, t: TraceId, n: &str, k: &SpanKind, a: &[KeyValue], l: &[Link]) -> SamplingResult {
        let _g = Context::current().with_value(Mark(998)).attach();
        let mut r = self.0.should_sample(p, t, n, k, a, l);
        if self.1 {
            r.attributes.push(KeyValue::new("smp", 1));
        }
        let _ = Context::map_current(|c| c.has_active_span());
        r
    }
}
fn chains() {
    let h: Arc<Shared<H>> = Arc::default();
    let np = 1 + choose(S_CFG, 4) as usize;
    let simple_at = choose(S_CFG, np as u32 + 2) as usize; // np + 1: none
    let provider_slot: Arc<OnceLock<SdkTracerProvider>> = Arc::default();
    let mut b = SdkTracerProvider::builder().with_resource(Resource::builder_empty().with_attribute(KeyValue::new("who", "app")).build());
    let sampler = match choose(S_CFG, 4) {
        0 => Sampler::AlwaysOn,
        1 => Sampler::ParentBased(Box::new(Sampler::AlwaysOn)),
        2 => Sampler::TraceIdRatioBased(0.5),
        _ => Sampler::AlwaysOff,
    };
    let smp = chance(S_CFG, 2);
    h.with(|h| h.smp = smp);
    b = if smp || chance(S_CFG, 2) { b.with_sampler(Nosy(sampler, smp)) } else { b.with_sampler(sampler) };
    let mut confs = vec![];
    for i in 0..=np {
        if simple_at == i {
            b = b.with_span_processor(SimpleSpanProcessor::new(Exp(h.clone())));
        }
        if i < np {
            let k = choose(S_CFG, 64);
            let c = Conf { adds: k & 1 != 0, slow: k & 2 != 0, nested_start: k & 12 == 12, nested_end: k & 24 == 24, uses_cx: k & 32 != 0 };
            confs.push(c);
            b = b.with_span_processor(Proc { h: h.clone(), i, c, provider: provider_slot.clone() });
        }
    }
    let p = b.build();
    let _ = provider_slot.set(p.clone());
    h.with(|h| {
        let mut r: Vec<usize> = h.resources.iter().map(|r| r.0).collect();
        r.sort();
        ensure!(r == (0..np).collect::<Vec<_>>(), "resource", "the processors given the resource are {r:?} of {np}");
    });
    let n = 1 + choose(S_CFG, 4);
    let mut v: Vec<_> = (0..n)
        .map(|k| {
            let (h, p) = (h.clone(), p.clone());
            thread::spawn(move || {
                for _ in 0..1 + choose(1 + k, 4) {
                    one_span(&h, &p, 1 + k, false);
                    if chance(1 + k, 3) {
                        thread::sleep(Duration::from_micros(choose(1 + k, 300) as u64));
                    }
                }
            })
        })
        .collect();
    if chance(S_CFG, 2) {
        let (h, p) = (h.clone(), p.clone());
        v.push(thread::spawn(move || {
            thread::sleep(Duration::from_micros(choose(20, 800) as u64));
            h.with(|h| h.shutdown.0 = seq());
            p.shutdown().unwrap();
            h.with(|h| h.shutdown.1 = seq());
        }));
    }
    for x in v {
        x.join().unwrap();
    }
    h.with(|h| judge(h, &confs, simple_at <= np));
}
fn judge(h: &H, confs: &[Conf], simple: bool) {
    let np = confs.len();
    for s in &h.starts {
        ensure!(h.app.contains_key(&s.span.to_bytes()), "invented", "processor {} was told of a span nobody started", s.proc);
    }
    for e in &h.ends {
        ensure!(h.app.contains_key(&e.data.span_context.span_id().to_bytes()), "invented", "processor {} was given a span nobody started", e.proc);
    }
    for (id, a) in &h.app {
        let id = SpanId::from_bytes(*id);
        let st: Vec<&Start> = h.starts.iter().filter(|s| s.span == id).collect();
        let en: Vec<&End> = h.ends.iter().filter(|e| e.data.span_context.span_id() == id).collect();
        let ex: Vec<_> = h.exported.iter().filter(|e| e.1.span_context.span_id() == id).collect();
        let order = |v: Vec<usize>| v == (0..np).collect::<Vec<_>>();
        if !a.recording {
            ensure!(st.is_empty() && en.is_empty() && ex.is_empty(), "unrecorded-processed", "span {id} does not record but processors were called");
            continue;
        }
        ensure!(order(st.iter().map(|s| s.proc).collect()), "starts", "span {id}: starts seen by processors {:?} of {np}", st.iter().map(|s| s.proc).collect::<Vec<_>>());
        let mut added = 0;
        let smp = h.smp as usize;
        let start_attrs = a.attrs0 + smp;
        for s in &st {
            ensure!(s.tid == a.tid && s.at > a.start.0 && s.at < a.start.1, "start-elsewhere", "span {id}: processor {} was told of the start outside the call that started it", s.proc);
            ensure!(s.mark == a.mark, "start-context", "span {id}: processor {} was given the context {:?}, not that of the start ({:?})", s.proc, s.mark, a.mark);
            if let Some(p) = a.parent {
                ensure!(s.parent == p, "start-context", "span {id}: processor {} was given a context with parent {}, it is {p}", s.proc, s.parent);
            }
            ensure!(
                s.seen.len() == start_attrs + added && (0..a.attrs0).all(|i| s.seen.contains(&KeyValue::new(format!("a{i}"), i as i64))) && s.seen.contains(&KeyValue::new("smp", 1)) == h.smp,
                "start-changes", "span {id}: processor {} sees {:?}", s.proc, s.seen);
            for j in 0..s.proc {
                let k = Key::new(format!("p{j}"));
                ensure!(s.seen.iter().any(|x| x.key == k) == confs[j].adds, "start-changes", "span {id}: processor {} sees {:?}", s.proc, s.seen);
            }
            added += confs[s.proc].adds as usize;
        }
        // ends
        let (began, done) = h.shutdown;
        let none_ok = began != 0 && a.end.1 > began;
        let all_ok = began == 0 || done == 0 || a.end.0 < done;
        if en.is_empty() {
            ensure!(none_ok, "not-processed", "span {id} ended and no processor was given it");
            ensure!(ex.is_empty(), "not-processed", "span {id} was exported but no other processor was given it");
            continue;
        }
        ensure!(all_ok, "processed-after-shutdown", "span {id} ended after shutdown had returned and was still processed");
        ensure!(order(en.iter().map(|s| s.proc).collect()), "ends", "span {id}: its end was seen by processors {:?} of {np}", en.iter().map(|s| s.proc).collect::<Vec<_>>());
        for e in &en {
            ensure!(e.at > st[np - 1].at, "end-before-start", "span {id}: processor {} was given it before all had seen its start", e.proc);
            ensure!(e.tid == a.end_tid && e.at > a.end.0 && e.at < a.end.1 || a.end_tid != e.tid, "end-elsewhere", "span {id}: processor {} was given it outside the call that ended it", e.proc);
            ensure!(e.data == en[0].data, "ends-differ", "span {id}: processors were given different data: {:?} / {:?}", e.data, en[0].data);
            let d = &e.data;
            ensure!(d.attributes.len() == a.attrs + smp + added, "end-attributes", "span {id}: {:?} instead of {} attributes set by the application, {smp} by the sampler and {added} by processors", d.attributes, a.attrs);
            for i in 0..a.attrs {
                ensure!(d.attributes.contains(&KeyValue::new(format!("a{i}"), i as i64)), "end-attributes", "span {id}: attribute a{i} is missing");
            }
            for (j, c) in confs.iter().enumerate() {
                ensure!(d.attributes.contains(&KeyValue::new(format!("p{j}"), j as i64)) == c.adds, "end-attributes", "span {id}: attribute p{j} in {:?}", d.attributes);
            }
        }
        if simple {
            ensure!(ex.len() == a.sampled as usize, "exports", "span {id} (sampled: {}) was exported {} times", a.sampled, ex.len());
            ensure!(ex.iter().all(|x| x.1 == en[0].data), "exports", "span {id}: the exporter was given {:?}, processors {:?}", ex[0].1, en[0].data);
        }
    }
}
pub const SCEN: &[Scenario] = &[Scenario { prop: "T09", name: "chains", weight: 1, run: chains, opts: DEFAULT }];
