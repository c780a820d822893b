//! T05: simple span and log processors.
use crate::batch::S_CFG;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _};
use opentelemetry::trace::{Span as _, TraceContextExt, Tracer as _, TracerProvider as _};
use opentelemetry::Context;
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::{LogBatch, LogExporter, SdkLogRecord, SdkLoggerProvider, SimpleLogProcessor, concurrent_log_processor::SimpleConcurrentLogProcessor};
use opentelemetry_sdk::trace::{Sampler, SdkTracerProvider, SimpleSpanProcessor, SpanData, SpanExporter};
use simfw::*;
use std::sync::Arc;
use std::thread;
use std::time::Duration;

#[derive(Default)]
struct H {
    active: u32,
    exports: Vec<(u32, u64, u64)>, // item, begin, end (seq)
    shut: Vec<u64>,                // seq at which a provider shutdown returned success
    exp_shut: u32,
}
struct Core {
    h: Shared<H>,
    concurrent: bool,
    errs: bool,
    asynchronous: bool,
}
impl std::fmt::Debug for Core {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("exporter")
    }
}
const S_EXP: u32 = 50;
struct YieldOnce(bool);
impl std::future::Future for YieldOnce {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            return std::task::Poll::Ready(());
        }
        self.0 = true;
        let w = cx.waker().clone();
        if chance(S_EXP, 2) {
            thread::spawn(move || {
                thread::sleep(Duration::from_micros(choose(S_EXP + 1, 1000) as u64));
                w.wake()
            });
        } else {
            w.wake();
        }
        std::task::Poll::Pending
    }
}
impl Core {
    fn shut(&self) -> OTelSdkResult {
        self.h.with(|h| {
            h.exp_shut += 1;
            ensure!(h.exp_shut == 1, "exporter-shut-down-twice", "the exporter was shut down {} times", h.exp_shut);
            ensure!(self.concurrent || h.active == 0, "shutdown-during-export", "the exporter is shut down while an export is running");
        });
        if self.errs && chance(S_EXP + 2, 3) {
            fault("shutdown_error");
            return Err(OTelSdkError::InternalFailure("cannot shut down".into()));
        }
        Ok(())
    }
    async fn export(&self, ids: Vec<u32>) -> OTelSdkResult {
        ensure!(ids.len() == 1, "not-alone", "a batch of {} items was exported", ids.len());
        let id = ids[0];
        self.h.with(|h| {
            tr!("export {id}");
            if !self.concurrent {
                ensure!(h.active == 0, "overlapping-exports", "export of {id} begins while another one is running");
            }
            ensure!(!h.exports.iter().any(|e| e.0 == id), "duplicate", "item {id} exported twice");
            h.active += 1;
            h.exports.push((id, seq(), 0));
        });
        // an exporter may look at the current context
        let _ = Context::map_current(|c| c.has_active_span());
        match choose(S_EXP, 4) {
            1 => thread::sleep(Duration::from_micros(choose(S_EXP, 3000) as u64)),
            2 if self.asynchronous => YieldOnce(false).await,
            3 => thread::yield_now(),
            _ => {}
        }
        let fail = self.errs && chance(S_EXP, 3);
        self.h.with(|h| {
            h.active -= 1;
            h.exports.iter_mut().find(|e| e.0 == id).unwrap().2 = seq();
        });
        if fail {
            fault("export_error");
            Err(match choose(S_EXP, 3) {
                0 => OTelSdkError::InternalFailure("collector said no".into()),
                1 => OTelSdkError::Timeout(Duration::from_secs(1)),
                _ => OTelSdkError::AlreadyShutdown,
            })
        } else {
            Ok(())
        }
    }
}
#[derive(Debug, Clone)]
struct Exp(Arc<Core>);
impl SpanExporter for Exp {
    fn export(&self, batch: Vec<SpanData>) -> impl std::future::Future<Output = OTelSdkResult> + Send {
        let c = self.0.clone();
        let ids = batch.iter().map(|s| {
            ensure!(s.span_context.is_sampled(), "unsampled-exported", "unsampled span {} was exported", s.name);
            s.name[1..].parse().unwrap()
        }).collect();
        async move { c.export(ids).await }
    }
    fn shutdown(&mut self) -> OTelSdkResult {
        self.0.shut()
    }
}
impl LogExporter for Exp {
    async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
        let ids = batch.iter().map(|(r, _)| match r.body() {
            Some(AnyValue::Int(i)) => *i as u32,
            _ => u32::MAX,
        }).collect();
        self.0.export(ids).await
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.0.shut()
    }
}
/// 0: record and sample, 1: record only, 2: drop
#[derive(Clone, Debug)]
struct ByName;
impl opentelemetry_sdk::trace::ShouldSample for ByName {
    fn should_sample(
        &self, _p: Option<&Context>, _t: opentelemetry::trace::TraceId, name: &str, _k: &opentelemetry::trace::SpanKind,
        _a: &[opentelemetry::KeyValue], _l: &[opentelemetry::trace::Link],
    ) -> opentelemetry::trace::SamplingResult {
        use opentelemetry::trace::SamplingDecision::*;
        let decision = match name.as_bytes()[0] {
            b'i' => RecordAndSample,
            b'r' => RecordOnly,
            _ => Drop,
        };
        opentelemetry::trace::SamplingResult { decision, attributes: vec![], trace_state: Default::default() }
    }
}
fn run(emit: impl Fn(u32, u8, &dyn Fn(bool)) + Send + Sync + 'static, shutdown: impl Fn() -> OTelSdkResult + Send + Sync + 'static, core: Arc<Core>, log: bool, stops: bool) {
    let emit = Arc::new(emit);
    let n = 2 + choose(S_CFG, 3);
    let sd = chance(S_CFG, 2);
    let next = Arc::new(Shared::new(0u32));
    let mut v: Vec<_> = (0..n).map(|t| {
        let (emit, core, next) = (emit.clone(), core.clone(), next.clone());
        thread::spawn(move || {
            let s = 1 + t;
            for _ in 0..1 + choose(s, 6) {
                let id = next.with(|n| {
                    *n += 1;
                    *n
                });
                let class = if log { 0 } else { [0u8, 0, 0, 1, 2][choose(s, 5) as usize] };
                let began = Shared::new(0u64);
                let shut_before = Shared::new(None);
                emit(id, class, &|begin| {
                    if begin {
                        tr!("item {id} class {class} begins to be emitted");
                        shut_before.with(|x| *x = core.h.with(|h| h.shut.first().copied()));
                        began.with(|b| *b = seq());
                        return;
                    }
                    // the call that emitted it has returned
                    core.h.with(|h| {
                        let x = h.exports.iter().find(|e| e.0 == id);
                        let shut = h.shut.first().copied();
                        match x {
                            Some(x) => {
                                ensure!(class == 0, "unsampled-exported", "item {id} of class {class} was exported");
                                ensure!(x.2 != 0, "not-exported-yet", "the export of item {id} is still running when the call returned");
                                ensure!(x.1 > began.with(|b| *b), "exported-early", "item {id} exported before it was emitted");
                                if stops {
                                    if let Some(s) = shut {
                                        ensure!(x.1 < s, "export-after-shutdown", "item {id} passed to the exporter after shutdown had returned");
                                    }
                                }
                            }
                            None => ensure!(
                                class != 0 || sd_begun(&core),
                                "lost", "item {id} was not exported when the call returned"
                            ),
                        }
                        if shut_before.with(|x| x.is_some()) {
                            probe("emit_after_shutdown");
                        }
                    });
                });
                if chance(s, 3) {
                    thread::sleep(Duration::from_micros(choose(s, 5000) as u64));
                }
            }
        })
    }).collect();
    if sd {
        let core = core.clone();
        v.push(thread::spawn(move || {
            thread::sleep(Duration::from_micros(choose(40, 8000) as u64));
            SD.with(|s| *s = true);
            let r = shutdown();
            // whoever was exporting at the time, it has shut the exporter down and tells what came of it
            core.h.with(|h| {
                ensure!(h.exp_shut == 1, "exporter-not-shut-down", "shutdown returned {r:?}, the exporter was shut down {} times", h.exp_shut)
            });
            ensure!(r.is_ok() || core.errs, "wrong-result", "the exporter was shut down successfully, shutdown returned {r:?}");
            if r.is_ok() {
                core.h.with(|h| h.shut.push(seq()));
            }
        }));
    }
    for h in v {
        h.join().unwrap();
    }
    core.h.with(|h| count("items_exported", h.exports.len() as u64));
}
static SD: Shared<bool> = Shared::new(false);
fn sd_begun(_c: &Core) -> bool {
    SD.with(|s| *s)
}
fn new_core(concurrent: bool) -> Arc<Core> {
    Arc::new(Core { h: Shared::default(), concurrent, errs: chance(S_CFG, 2), asynchronous: chance(S_CFG, 2) })
}
fn spans() {
    let core = new_core(false);
    let p = SdkTracerProvider::builder().with_sampler(ByName).with_span_processor(SimpleSpanProcessor::new(Exp(core.clone()))).build();
    let _ = Sampler::AlwaysOn;
    let t = p.tracer("app");
    let p2 = p.clone();
    run(
        move |id, class, f| {
            let name = format!("{}{id}", ["i", "r", "d"][class as usize]);
            match choose(30, 4) {
                0 => {
                    let mut s = t.start(name);
                    f(true);
                    s.end();
                    f(false);
                }
                1 => {
                    let s = t.start(name);
                    f(true);
                    drop(s);
                    f(false);
                }
                2 => {
                    // the span's last handle is the attached context
                    let g = opentelemetry::trace::mark_span_as_active(t.start(name));
                    f(true);
                    drop(g);
                    f(false);
                }
                _ => {
                    let cx = Context::current_with_span(t.start(name));
                    let g = cx.clone().attach();
                    drop(cx);
                    let h = Context::new().attach();
                    f(true);
                    // out of order: the guard of the span's context goes first
                    drop(g);
                    drop(h);
                    f(false);
                }
            }
        },
        move || p2.shutdown(),
        core,
        false,
        false,
    );
}
fn logs_(concurrent: bool) {
    let core = new_core(concurrent);
    let b = SdkLoggerProvider::builder();
    let p = if concurrent {
        b.with_log_processor(SimpleConcurrentLogProcessor::new(Exp(core.clone()))).build()
    } else {
        b.with_log_processor(SimpleLogProcessor::new(Exp(core.clone()))).build()
    };
    let l = p.logger("app");
    let p2 = p.clone();
    run(
        move |id, _, f| {
            let mut r: SdkLogRecord = l.create_log_record();
            r.set_body(AnyValue::Int(id as i64));
            f(true);
            l.emit(r);
            f(false);
        },
        move || p2.shutdown(),
        core,
        true,
        !concurrent,
    );
}
pub const SCEN: &[Scenario] = &[
    Scenario { prop: "T05", name: "spans", weight: 3, run: spans, opts: DEFAULT },
    Scenario { prop: "T05", name: "logs", weight: 3, run: || logs_(false), opts: DEFAULT },
    Scenario { prop: "T05", name: "concurrent", weight: 1, run: || logs_(true), opts: DEFAULT },
];
