//! C01, C02: the current context per thread, guards, and futures bound to contexts.
use crate::batch::S_CFG;
use opentelemetry::context::FutureExt as _;
use opentelemetry::propagation::{text_map_propagator::FieldIter, Extractor, Injector, TextMapPropagator};
use opentelemetry::trace::{get_active_span, noop::NoopSpan, SpanBuilder, SpanContext, Tracer, SpanId, TraceContextExt, TraceFlags, TraceId};
use opentelemetry::baggage::BaggageExt;
use opentelemetry::{Context, ContextGuard, KeyValue};
use simfw::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context as Tcx, Poll, Wake, Waker};
use std::thread;
use std::time::Duration;

/// What a context should contain.
#[derive(Clone, Default, PartialEq, Debug)]
struct M {
    v: [u32; 3],
    span: u64,
    sup: bool,
    bag: u32,
}
thread_local! {
    /// stack of the attached contexts of this thread: (alive, what)
    static STACK: RefCell<Vec<(bool, M)>> = const { RefCell::new(Vec::new()) };
    static KEEP: RefCell<Keep> = const { RefCell::new(Keep(Vec::new(), false)) };
    /// whether this thread keeps the model in STACK (C01)
    static MODEL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static EXITING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static EARLY: RefCell<Keep> = const { RefCell::new(Keep(Vec::new(), false)) };
}
fn expected() -> Option<M> {
    if !MODEL.get() {
        return None;
    }
    STACK.try_with(|s| s.try_borrow().ok().map(|s| s.iter().rev().find(|e| e.0).map(|e| e.1.clone()).unwrap_or_default())).ok().flatten()
}
/// A value that uses the context machinery when it is dropped, as spans and user values do.
struct Val<const K: usize> {
    id: u32,
    stream: u32,
}
impl<const K: usize> Drop for Val<K> {
    fn drop(&mut self) {
        match self.id % 4 {
            0 => {
                // the current context during the drop
                if let Some(e) = expected() {
                    let got = Context::map_current(read);
                    ensure!(got == e || (EXITING.get() && got == M::default()), "wrong-current", "while a value of a dropped context is dropped the current context is {got:?}, expected {e:?}");
                }
            }
            1 => {
                let c = Context::current();
                let _g = c.with_value(7u8).attach();
                let got = Context::map_current(|c| c.get::<u8>().copied());
                ensure!(got == Some(7) || EXITING.get() || !MODEL.get(), "wrong-current", "attach inside a value's Drop has no effect");
            }
            2 => {
                let _ = Context::map_current(|c| c.has_active_span());
                let _g = Context::enter_telemetry_suppressed_scope();
            }
            _ => thread::yield_now(),
        }
        let _ = self.stream;
    }
}
fn read(c: &Context) -> M {
    M {
        v: [c.get::<Val<0>>().map_or(0, |v| v.id), c.get::<Val<1>>().map_or(0, |v| v.id), c.get::<Val<2>>().map_or(0, |v| v.id)],
        span: if c.has_active_span() { u64::from_be_bytes(c.span().span_context().span_id().to_bytes()) } else { 0 },
        sup: c.is_telemetry_suppressed(),
        bag: c.baggage().get("k").map_or(0, |v| v.as_str().parse().unwrap()),
    }
}
fn check(what: &str) {
    if let Some(e) = expected() {
        let got = match choose(1, 2) {
            0 => Context::map_current(read),
            _ => read(&Context::current()),
        };
        ensure!(got == e, "wrong-current", "{what}: the current context is {got:?}, expected {e:?}");
        let s = Context::is_current_telemetry_suppressed();
        ensure!(s == e.sup, "wrong-current", "{what}: suppression is {s}, expected {}", e.sup);
    }
}
struct Env {
    shared: Shared<Vec<(Context, M)>>,
    next: Shared<u32>,
}
impl Env {
    fn id(&self) -> u32 {
        self.next.with(|n| {
            *n += 1;
            *n
        })
    }
    /// A new context, derived from the current one, from an empty one, or from one of any thread.
    fn make(&self, s: u32) -> (Context, M) {
        let (mut c, mut m) = match choose(s, 4) {
            0 | 1 => {
                let c = Context::current();
                let m = expected().unwrap_or_else(|| read(&c));
                (c, m)
            }
            2 => self.shared.with(|v| if v.is_empty() { None } else { Some(v[choose(s, v.len() as u32) as usize].clone()) }).unwrap_or_default(),
            _ => (Context::new(), M::default()),
        };
        let before = (c.clone(), m.clone());
        for _ in 0..1 + choose(s, 2) {
            let id = self.id();
            match choose(s, 9) {
                6 => {
                    c = c.with_baggage([KeyValue::new("k", id.to_string())]);
                    m.bag = id;
                }
                7 => {
                    c = if chance(s, 2) { c.with_cleared_baggage() } else { c.with_baggage(Vec::<KeyValue>::new()) };
                    m.bag = 0;
                }
                8 => {
                    // a span of its own type, in a context derived from the current one or this one
                    let inner = chance(s, 2);
                    let mine = Context::map_current(read);
                    c = if inner { c.with_span(NoopSpan::DEFAULT) } else { Context::current_with_span(NoopSpan::DEFAULT) };
                    if !inner {
                        m = expected().unwrap_or(mine);
                        if chance(s, 2) {
                            c = Context::current_with_value(Val::<1> { id, stream: s });
                            m.v[1] = id;
                            break;
                        } else if chance(s, 2) {
                            c = Context::current_with_baggage(vec![KeyValue::new("k", id.to_string()), KeyValue::new("l", "x")]);
                            m.bag = id;
                            break;
                        }
                    }
                    m.span = 0;
                }
                0 => (c = c.with_value(Val::<0> { id, stream: s }), m.v[0] = id).1,
                1 => (c = c.with_value(Val::<1> { id, stream: s }), m.v[1] = id).1,
                2 => (c = c.with_value(Val::<2> { id, stream: s }), m.v[2] = id).1,
                3 => {
                    c = c.with_remote_span_context(SpanContext::new(TraceId::from_bytes([1; 16]), SpanId::from_bytes((id as u64).to_be_bytes()), TraceFlags::SAMPLED, true, Default::default()));
                    m.span = id as u64;
                }
                4 => {
                    c = c.with_telemetry_suppressed();
                    m.sup = true;
                }
                _ => {}
            }
        }
        ensure!(read(&before.0) == before.1, "context-changed", "deriving a context changed the original to {:?}, expected {:?}", read(&before.0), before.1);
        ensure!(read(&c) == m, "context-content", "a new context is {:?}, expected {m:?}", read(&c));
        let s2 = (c.clone(), m.clone());
        if chance(s, 2) {
            let old = self.shared.with(|v| {
                v.push(s2);
                if v.len() > 6 { Some(v.swap_remove(choose(s, 7) as usize)) } else { None }
            });
            drop(old);
        }
        (c, m)
    }
    fn immutable(&self, s: u32) {
        let e = self.shared.with(|v| if v.is_empty() { None } else { Some(v[choose(s, v.len() as u32) as usize].clone()) });
        if let Some((c, m)) = e {
            ensure!(read(&c) == m, "context-changed", "a context kept by another holder is {:?}, was created as {m:?}", read(&c));
        }
    }
}
/// A guard with its position in the model.
struct G(Option<ContextGuard>, usize);
impl Drop for G {
    fn drop(&mut self) {
        if let Some(g) = self.0.take() {
            let _ = STACK.try_with(|s| {
                if let Ok(mut s) = s.try_borrow_mut() {
                    if let Some(e) = s.get_mut(self.1) {
                        e.0 = false;
                    }
                    while s.last().is_some_and(|e| !e.0) {
                        s.pop();
                    }
                }
            });
            drop(g);
        }
    }
}
/// Stands in the model for something the library attached itself.
struct Mark(usize);
impl Mark {
    fn push(m: M) -> Mark {
        STACK.with(|s| {
            let mut s = s.borrow_mut();
            s.push((true, m));
            Mark(s.len() - 1)
        })
    }
}
impl Drop for Mark {
    fn drop(&mut self) {
        STACK.with(|s| {
            let mut s = s.borrow_mut();
            s[self.0].0 = false;
            while s.last().is_some_and(|e| !e.0) {
                s.pop();
            }
        })
    }
}
fn attach(c: Context, m: M) -> G {
    let g = c.attach();
    let pos = STACK.with(|s| {
        let mut s = s.borrow_mut();
        s.push((true, m));
        s.len() - 1
    });
    G(Some(g), pos)
}
struct Keep(Vec<G>, bool);
impl Drop for Keep {
    fn drop(&mut self) {
        if !self.0.is_empty() {
            probe("guards_dropped_at_thread_exit");
        }
        if self.1 {
            self.0.reverse();
        }
        while let Some(g) = self.0.pop() {
            drop(g);
            // must not panic, whatever has been destroyed already
            let got = Context::map_current(read);
            if let Some(e) = expected() {
                ensure!(got == e || got == M::default(), "wrong-current", "at thread exit the current context is {got:?}, expected {e:?} (or none)");
            }
            let _ = Context::new().with_value(1u8).attach();
        }
    }
}
/// Components that use contexts of their own while they are given the current one.
struct Busy<'a>(&'a Arc<Env>, u32, u32);
impl std::fmt::Debug for Busy<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("busy")
    }
}
impl Busy<'_> {
    fn work(&self, what: &str, got: Option<M>) {
        probe("implicit_use");
        let e = expected();
        if let (Some(e), Some(got)) = (&e, got) {
            ensure!(got == *e, "wrong-current", "{what} is given the context {got:?}, expected {e:?}");
        }
        body(self.0, self.1, 1 + choose(self.1, 4), self.2 + 1);
        check(what);
        ensure!(expected() == e, "harness", "model");
    }
}
impl TextMapPropagator for Busy<'_> {
    fn inject_context(&self, cx: &Context, i: &mut dyn Injector) {
        i.set("k", "v".into());
        self.work("inject", Some(read(cx)))
    }
    fn extract_with_context(&self, cx: &Context, _: &dyn Extractor) -> Context {
        self.work("extract", Some(read(cx)));
        cx.clone()
    }
    fn fields(&self) -> FieldIter<'_> {
        FieldIter::new(&[])
    }
}
impl Tracer for Busy<'_> {
    type Span = NoopSpan;
    fn build_with_context(&self, _: SpanBuilder, cx: &Context) -> NoopSpan {
        self.work("a tracer", Some(read(cx)));
        NoopSpan::DEFAULT
    }
}
fn implicit(env: &Arc<Env>, s: u32, depth: u32) {
    let b = Busy(env, s, depth);
    match choose(s, 8) {
        6 | 7 => {
            // the closure runs with the new span, and everything is as before when it is left
            let outer = expected();
            let panics = chance(s, 3);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                b.in_span("x", |cx| {
                    let _mark = outer.clone().map(|o| Mark::push(M { span: 0, ..o }));
                    if let Some(e) = expected() {
                        ensure!(read(&cx) == e, "wrong-current", "in_span passes the context {:?}, expected {e:?}", read(&cx));
                    }
                    check("in in_span");
                    body(env, s, 1 + choose(s, 4), depth + 1);
                    check("still in in_span");
                    if panics {
                        inject_panic()
                    }
                })
            }));
            ensure!(r.is_err() == panics, "unexpected-panic", "in_span panicked");
        }
        0 => get_active_span(|span| {
            if let Some(e) = expected() {
                ensure!(u64::from_be_bytes(span.span_context().span_id().to_bytes()) == e.span, "wrong-current", "the active span is {:?}, expected that of {e:?}", span.span_context().span_id());
            }
            b.work("the active span's user", None)
        }),
        1 => b.inject(&mut std::collections::HashMap::new()),
        2 => {
            let e = expected();
            let c = b.extract(&std::collections::HashMap::new());
            if let Some(e) = e {
                ensure!(read(&c) == e, "wrong-current", "extract returned {:?}, expected {e:?}", read(&c));
            }
        }
        3 => drop(b.start("x")),
        4 => drop(b.build(b.span_builder("x"))),
        _ => drop(b.span_builder("x").start(&b)),
    }
    check("after the current context was used implicitly");
}
fn body(env: &Arc<Env>, s: u32, n: u32, depth: u32) {
    let mut guards: Vec<G> = vec![];
    check("at start");
    for _ in 0..n {
        match choose(s, 15) {
            0..=4 => {
                let (c, m) = env.make(s);
                guards.push(attach(c, m));
                check("after attach");
            }
            5 | 6 => {
                guards.pop();
                check("after the newest guard was dropped");
            }
            7 | 8 => {
                if !guards.is_empty() {
                    let i = choose(s, guards.len() as u32) as usize;
                    if i + 1 < guards.len() {
                        probe("out_of_order_drop");
                    }
                    drop(guards.swap_remove(i));
                    check("after some guard was dropped");
                }
            }
            9 if depth < 3 => {
                // a call that may panic with guards alive
                let outer = expected();
                let env2 = env.clone();
                let panics = chance(s, 2);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    body(&env2, s, 1 + choose(s, 5), depth + 1);
                    let mut held = vec![];
                    for _ in 0..1 + choose(s, 3) {
                        let (c, m) = env2.make(s);
                        held.push(attach(c, m));
                    }
                    if chance(s, 2) {
                        held.reverse();
                    }
                    if panics {
                        inject_panic()
                    }
                }));
                ensure!(r.is_err() == panics, "unexpected-panic", "a nested call panicked");
                ensure!(expected() == outer, "harness", "model");
                check("after a nested call");
            }
            10 if depth == 0 && chance(s, 3) => {
                // kept to the end of the thread
                if let Some(g) = guards.pop() {
                    KEEP.with(|k| {
                        let mut k = k.borrow_mut();
                        k.0.push(g);
                        k.1 = chance(s, 2);
                    });
                }
            }
            11 if depth == 0 && chance(s, 4) => {
                if let Some(mut g) = guards.pop() {
                    probe("forgotten_guard");
                    std::mem::forget(g.0.take());
                }
            }
            12 => env.immutable(s),
            13 if depth < 3 => implicit(env, s, depth),
            _ => {
                thread::yield_now();
                check("later");
            }
        }
    }
    // dropped oldest first or newest first
    if chance(s, 2) {
        guards.reverse();
    }
    while let Some(g) = guards.pop() {
        drop(g);
        check("while the guards of a call are dropped");
    }
    env.immutable(s);
}
fn attach_drop() {
    let env = Arc::new(Env { shared: Shared::default(), next: Shared::new(0) });
    let v: Vec<_> = (0..1 + choose(S_CFG, 4)).map(|t| {
        let env = env.clone();
        thread::spawn(move || {
            let s = 2 + t;
            MODEL.set(true);
            if chance(s, 2) {
                // a thread-local of the application created before the context stack
                KEEP.with(|k| k.borrow_mut().1 = false);
            }
            if chance(s, 3) {
                EARLY.with(|k| {
                    let (c, m) = env.make(s);
                    k.borrow_mut().0.push(attach(c, m))
                });
            }
            let n = 2 + choose(s, 25);
            body(&env, s, n, 0);
            EXITING.set(true);
        })
    }).collect();
    for t in v {
        ensure!(t.join().is_ok(), "unexpected-panic", "a thread using contexts panicked");
    }
    let m = Context::map_current(read);
    ensure!(m == M::default(), "leaked-context", "the main thread attached nothing but its context is {m:?}");
}
/// More contexts than the stack can hold: attaching fails, nothing else changes.
fn deep() {
    use tracing_subscriber::layer::SubscriberExt as _;
    struct L;
    impl<S: tracing_core::Subscriber> tracing_subscriber::Layer<S> for L {
        fn on_event(&self, _: &tracing_core::Event<'_>, _: tracing_subscriber::layer::Context<'_, S>) {
            // what any telemetry bridge does
            let _ = Context::map_current(|c| c.has_active_span());
            let _g = Context::current().attach();
        }
    }
    let _d = tracing::subscriber::set_default(tracing_subscriber::registry().with(L));
    let (mut guards, base) = (vec![], Context::new().with_value(Val::<0> { id: 3, stream: 0 }));
    for _ in 0..65533 {
        let _a = Atomic::new();
        guards.push(base.clone().attach());
    }
    let top = Context::new().with_value(Val::<1> { id: 7, stream: 0 }).attach();
    let id = |c: &Context| (c.get::<Val<0>>().map_or(0, |v| v.id), c.get::<Val<1>>().map_or(0, |v| v.id));
    ensure!(Context::map_current(id) == (0, 7), "wrong-current", "context 65534 is not current");
    let mut extra = vec![];
    for i in 0..1 + choose(2, 4) {
        extra.push(Context::new().with_value(Val::<0> { id: 1002 + 4 * i, stream: 0 }).attach());
        ensure!(Context::map_current(id) == (0, 7), "wrong-current", "an attach beyond the limit changed the current context");
    }
    if chance(2, 2) {
        let i = choose(2, extra.len() as u32) as usize;
        drop(extra.swap_remove(i));
    } else {
        extra.clear();
    }
    ensure!(Context::map_current(id) == (0, 7), "wrong-current", "dropping the guard of a failed attach changed the current context");
    drop(top);
    ensure!(Context::map_current(id) == (3, 0), "wrong-current", "context 65533 is not current again");
    let _a = Atomic::new();
    if chance(2, 2) {
        guards.reverse();
    }
    while let Some(g) = guards.pop() {
        drop(g);
    }
    drop(extra);
    ensure!(Context::map_current(id) == (0, 0), "wrong-current", "the base context is not current again");
}

// ---------------------------------------------------------------- C02
/// A future, stream and sink that checks on every poll that it runs in the context it was bound to.
struct Node {
    env: Arc<Env>,
    s: u32,
    /// None: not bound, runs in whatever is current
    bound: Option<M>,
    steps: u32,
    child: Option<Pin<Box<dyn Future<Output = ()> + Send>>>,
    depth: u32,
}
/// records the context the poll ran in
fn in_ctx(what: &str, bound: &Option<M>) {
    if let Some(m) = bound {
        let got = Context::map_current(read);
        ensure!(got == *m, "wrong-poll-context", "{what} bound to {m:?} ran in {got:?}");
    }
}
impl Node {
    fn boxed(env: &Arc<Env>, s: u32, depth: u32) -> (Pin<Box<dyn Future<Output = ()> + Send>>, bool) {
        let n = |bound| Node { env: env.clone(), s, bound, steps: choose(s, 5), child: None, depth };
        match choose(s, 6) {
            0 => (Box::pin(n(None)), false),
            1 => {
                let m = Context::map_current(read);
                (Box::pin(n(Some(m)).with_current_context()), true)
            }
            2 => {
                // bound twice: the inner one counts
                let ((c, m), (c2, _)) = (env.make(s), env.make(s));
                (Box::pin(n(Some(m)).with_context(c).with_context(c2)), true)
            }
            3 => {
                let (c, m) = env.make(s);
                let w = n(Some(m)).with_context(c);
                (Box::pin(async move {
                    use futures_util::{Sink, Stream};
                    let mut w = Box::pin(w);
                    // as a stream, then as a sink
                    while futures_util::future::poll_fn(|cx| Stream::poll_next(w.as_mut(), cx)).await.is_some() {}
                    let _ = futures_util::future::poll_fn(|cx| Sink::<u32>::poll_ready(w.as_mut(), cx)).await;
                    let _ = Sink::<u32>::start_send(w.as_mut(), 1);
                    let _ = futures_util::future::poll_fn(|cx| Sink::<u32>::poll_flush(w.as_mut(), cx)).await;
                    let _ = futures_util::future::poll_fn(|cx| Sink::<u32>::poll_close(w.as_mut(), cx)).await;
                }), false)
            }
            _ => {
                let (c, m) = env.make(s);
                (Box::pin(n(Some(m)).with_context(c)), true)
            }
        }
    }
    fn pend(&mut self, cx: &mut Tcx<'_>) -> Poll<()> {
        let s = self.s;
        in_ctx("a poll", &self.bound);
        // work of the poll
        match choose(s, 8) {
            0 => {
                let (c, m) = self.env.make(s);
                let _g = c.attach();
                in_ctx("an inner scope", &Some(m));
            }
            1 => thread::yield_now(),
            2 => {
                // guards of this poll dropped out of order
                let (a, b) = (self.env.make(s).0.attach(), self.env.make(s).0.attach());
                drop(a);
                drop(b);
            }
            _ => {}
        }
        in_ctx("a poll (after its inner scopes)", &self.bound);
        if self.child.is_none() && self.depth < 3 && chance(s, 4) {
            self.child = Some(Node::boxed(&self.env, s, self.depth + 1).0);
        }
        if let Some(c) = self.child.as_mut() {
            let before = Context::map_current(read);
            let r = c.as_mut().poll(cx);
            let after = Context::map_current(read);
            ensure!(before == after, "leaked-context", "polling a nested future changed the current context from {before:?} to {after:?}");
            if r.is_ready() {
                self.child = None;
            } else if chance(s, 6) {
                fault("cancelled");
                self.child = None;
                in_ctx("a poll (after it cancelled a nested future)", &self.bound);
            } else {
                return Poll::Pending;
            }
        }
        if self.steps == 0 {
            if chance(s, 8) {
                inject_panic();
            }
            return Poll::Ready(());
        }
        self.steps -= 1;
        match choose(s, 3) {
            0 => cx.waker().wake_by_ref(),
            1 => {
                let (w, d) = (cx.waker().clone(), choose(s, 2000));
                thread::spawn(move || {
                    thread::sleep(Duration::from_micros(d as u64));
                    w.wake();
                });
            }
            _ => {
                cx.waker().wake_by_ref();
                cx.waker().wake_by_ref();
            }
        }
        Poll::Pending
    }
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = Context::current();
    }
}
impl Future for Node {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Tcx<'_>) -> Poll<()> {
        self.pend(cx)
    }
}
impl futures_util::Stream for Node {
    type Item = u32;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Tcx<'_>) -> Poll<Option<u32>> {
        let left = self.steps;
        self.pend(cx).map(|()| if left == 0 { None } else { Some(left) })
    }
}
impl futures_util::Sink<u32> for Node {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Tcx<'_>) -> Poll<Result<(), ()>> {
        self.steps = choose(self.s, 3);
        self.pend(cx).map(|()| if chance(self.s, 4) { Err(()) } else { Ok(()) })
    }
    fn start_send(mut self: Pin<&mut Self>, _: u32) -> Result<(), ()> {
        in_ctx("start_send", &self.bound);
        self.steps = choose(self.s, 3);
        match choose(self.s, 4) {
            0 => Err(()),
            1 if chance(self.s, 3) => inject_panic(),
            _ => Ok(()),
        }
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Tcx<'_>) -> Poll<Result<(), ()>> {
        self.pend(cx).map(|()| if chance(self.s, 3) { Err(()) } else { Ok(()) })
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Tcx<'_>) -> Poll<Result<(), ()>> {
        self.steps = self.steps.min(1);
        self.pend(cx).map(|()| if chance(self.s, 4) { Err(()) } else { Ok(()) })
    }
}
struct Task {
    fut: Shared<Option<Pin<Box<dyn Future<Output = ()> + Send>>>>,
    q: Arc<Shared<VecDeque<Arc<Task>>>>,
    state: Shared<(bool, bool)>, // queued, running
    polled_by: Shared<Vec<i32>>,
}
impl Wake for Task {
    fn wake(self: Arc<Self>) {
        tr!("wake {:p}", Arc::as_ptr(&self));
        let push = self.state.with(|s| !std::mem::replace(&mut s.0, true));
        if push {
            let q = self.q.clone();
            q.with(|q| q.push_back(self));
        }
    }
}
fn executor() {
    let env = Arc::new(Env { shared: Shared::default(), next: Shared::new(0) });
    let q: Arc<Shared<VecDeque<Arc<Task>>>> = Default::default();
    let live = Arc::new(Shared::new(0u32));
    for t in 0..1 + choose(S_CFG, 4) {
        let fut = Node::boxed(&env, 20 + t, 0).0;
        let task = Arc::new(Task { fut: Shared::new(Some(fut)), q: q.clone(), state: Shared::new((true, false)), polled_by: Shared::default() });
        live.with(|l| *l += 1);
        q.with(|q| q.push_back(task));
    }
    let v: Vec<_> = (0..1 + choose(S_CFG, 3)).map(|t| {
        let (env, q, live) = (env.clone(), q.clone(), live.clone());
        thread::spawn(move || {
            let s = 40 + t;
            // the executor thread may have a context of its own
            let own = if chance(s, 2) { Some(env.make(s)) } else { None };
            let m = own.as_ref().map(|o| o.1.clone()).unwrap_or_default();
            let _g = own.map(|o| o.0.attach());
            while live.with(|l| *l) > 0 {
                // any queued task, not only the oldest
                let Some(t) = q.with(|q| if q.is_empty() { None } else { q.remove(choose(s, q.len() as u32) as usize) }) else {
                    thread::sleep(Duration::from_millis(5));
                    continue;
                };
                if t.state.with(|st| st.1) {
                    q.with(|q| q.push_back(t));
                    thread::sleep(Duration::from_millis(5));
                    continue;
                }
                t.state.with(|st| *st = (false, true));
                let Some(mut f) = t.fut.with(|f| f.take()) else {
                    t.state.with(|st| st.1 = false);
                    continue;
                };
                tr!("poll {:p}", Arc::as_ptr(&t));
                let by = t.polled_by.with(|p| {
                    p.push(tid());
                    p.sort();
                    p.dedup();
                    p.len()
                });
                if by > 1 {
                    probe("migrated");
                }
                let w = Waker::from(t.clone());
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(&mut Tcx::from_waker(&w))));
                let got = Context::map_current(read);
                ensure!(got == m, "leaked-context", "after a poll ({}) the context of the executor thread is {got:?}, before it was {m:?}",
                    match &r { Err(_) => "that panicked", Ok(Poll::Ready(())) => "that completed", _ => "pending" });
                let done = match r {
                    Ok(Poll::Pending) if chance(s, 12) => {
                        fault("cancelled");
                        true
                    }
                    Ok(Poll::Pending) => false,
                    _ => true,
                };
                tr!("polled {:p} done {done}", Arc::as_ptr(&t));
                if done {
                    drop(f);
                    let got = Context::map_current(read);
                    ensure!(got == m, "leaked-context", "after a future was dropped the context of the executor thread is {got:?}, before it was {m:?}");
                    live.with(|l| *l -= 1);
                } else {
                    t.fut.with(|x| *x = Some(f));
                    t.state.with(|st| st.1 = false);
                }
            }
        })
    }).collect();
    for t in v {
        ensure!(t.join().is_ok(), "unexpected-panic", "an executor thread panicked");
    }
    q.with(|q| std::mem::take(q)).clear();
}
fn on_tokio() {
    let env = Arc::new(Env { shared: Shared::default(), next: Shared::new(0) });
    let rt = if chance(S_CFG, 2) {
        tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(1 + choose(S_CFG, 3) as usize).enable_time().build().unwrap()
    };
    let n = 1 + choose(S_CFG, 4);
    let env2 = env.clone();
    rt.block_on(async move {
        let mut v = vec![];
        for t in 0..n {
            let s = 20 + t;
            let (c, m) = env2.make(s);
            let env = env2.clone();
            let f = async move {
                for _ in 0..1 + choose(s, 5) {
                    in_ctx("a task", &Some(m.clone()));
                    match choose(s, 5) {
                        0 => tokio::task::yield_now().await,
                        1 => tokio::time::sleep(Duration::from_micros(choose(s, 3000) as u64)).await,
                        2 => {
                            let (c2, m2) = env.make(s);
                            async { in_ctx("a nested future", &Some(m2.clone())); tokio::task::yield_now().await; in_ctx("a nested future", &Some(m2.clone())) }.with_context(c2).await
                        }
                        3 => {
                            // cancelled by a timeout
                            let (c2, m2) = env.make(s);
                            let f = async { loop { in_ctx("a nested future", &Some(m2.clone())); tokio::time::sleep(Duration::from_micros(300)).await } }.with_context(c2);
                            let _ = tokio::time::timeout(Duration::from_micros(choose(s, 1500) as u64), f).await;
                            fault("cancelled");
                        }
                        _ => {
                            let m2 = m.clone();
                            let h = tokio::spawn(async move { for _ in 0..3 { in_ctx("a spawned task", &Some(m2.clone())); tokio::task::yield_now().await } }.with_current_context());
                            if chance(s, 3) {
                                h.abort();
                            }
                            let _ = h.await;
                        }
                    }
                    in_ctx("a task after an await", &Some(m.clone()));
                }
                if chance(s, 6) {
                    inject_panic()
                }
            }.with_context(c);
            v.push(tokio::spawn(f));
            // and a task without context on the same workers
            v.push(tokio::spawn(async move {
                for _ in 0..4 {
                    let got = Context::map_current(read);
                    ensure!(got == M::default(), "leaked-context", "a task that is bound to no context ran in {got:?}");
                    tokio::task::yield_now().await;
                }
            }));
        }
        for h in v {
            let _ = h.await;
        }
        let got = Context::map_current(read);
        ensure!(got == M::default(), "leaked-context", "the main task is bound to no context and ran in {got:?}");
    });
    drop(rt);
}
pub const SCEN: &[Scenario] = &[
    Scenario { prop: "C01", name: "attach_drop", weight: 300, run: attach_drop, opts: DEFAULT },
    Scenario { prop: "C01", name: "deep", weight: 1, run: deep, opts: DEFAULT },
    Scenario { prop: "C02", name: "executor", weight: 2, run: executor, opts: DEFAULT },
    Scenario { prop: "C02", name: "tokio", weight: 1, run: on_tokio, opts: DEFAULT },
];
