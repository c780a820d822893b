//! Simulation framework: the interface scenarios use, and the runner (fork per run, record, replay, minimise).
pub mod ffi;
pub mod runner;
use std::cell::UnsafeCell;
use std::time::Duration;

#[derive(Clone, Copy)]
pub struct Scenario {
    pub prop: &'static str,
    pub name: &'static str,
    pub weight: u32,
    pub run: fn(),
    pub opts: Opts,
}
#[derive(Clone, Copy)]
pub struct Opts {
    pub max_steps: u64,
    pub max_vtime: Duration,
    /// whether thread stalls (simulated slow threads) may be injected
    pub stalls: bool,
    /// upper bound for the simulated cost of one step, ns
    pub max_step_ns: u64,
    pub spurious: bool,
}
pub const DEFAULT: Opts = Opts {
    max_steps: 1_500_000,
    max_vtime: Duration::from_secs(1200),
    stalls: true,
    max_step_ns: 2000,
    spurious: true,
};

/// Workload choice in 0..n from stream `s`; 0 is the simplest alternative.
pub fn choose(s: u32, n: u32) -> u32 {
    unsafe { ffi::sim_choose(s, n) }
}
/// Weighted: index into `w`, first alternative is the simplest.
pub fn choose_w(s: u32, w: &[u32]) -> usize {
    let t: u32 = w.iter().sum();
    let mut x = choose(s, t);
    for (i, v) in w.iter().enumerate() {
        if x < *v {
            return i;
        }
        x -= v;
    }
    0
}
pub fn pick<T: Copy>(s: u32, v: &[T]) -> T {
    v[choose(s, v.len() as u32) as usize]
}
/// true with probability 1/n; false is the simplest.
pub fn chance(s: u32, n: u32) -> bool {
    choose(s, n) == n - 1 && n > 1
}
/// From now on in this run, a thread that keeps polling this long (simulated) while nobody else can run is a violation.
pub fn no_busy_wait(limit: Duration) {
    unsafe { ffi::sim_no_busy_wait(limit.as_nanos() as u64) }
}
pub fn now() -> u64 {
    unsafe { ffi::sim_now() }
}
pub fn real_now() -> u64 {
    unsafe { ffi::sim_real_now() }
}
pub fn seq() -> u64 {
    unsafe { ffi::sim_seq() }
}
pub fn tid() -> i32 {
    unsafe { ffi::sim_tid() }
}
pub fn point() {
    unsafe { ffi::sim_point() }
}
pub fn clock_jump(ns: i64) {
    unsafe { ffi::sim_clock_jump(ns) }
}
pub fn fail_spawns(n: i32) {
    unsafe { ffi::sim_fail_spawns(n) }
}
/// The simulated network (see sim/rt/net.c).
pub mod net {
    pub use crate::ffi::Net;
    pub fn config(c: Net) {
        unsafe { crate::ffi::sim_net_config(&c) }
    }
    /// While partitioned nothing is delivered; what was sent arrives after healing.
    pub fn partition(on: bool) {
        unsafe { crate::ffi::sim_net_partition(on as i32) }
    }
    /// Resets every connection of the server at `port` and refuses new ones until `up`.
    pub fn down(port: u16) {
        unsafe { crate::ffi::sim_net_crash(port as i32, 1) }
    }
    pub fn up(port: u16) {
        unsafe { crate::ffi::sim_net_crash(port as i32, 0) }
    }
    pub fn reset(port: u16) {
        unsafe { crate::ffi::sim_net_crash(port as i32, 2) }
    }
}
pub fn count(name: &str, d: u64) {
    unsafe { ffi::sim_count(name.as_ptr(), name.len(), d) }
}
/// A fault that actually fired.
pub fn fault(kind: &str) {
    count(&format!("fault.{kind}"), 1)
}
/// A rare condition that was reached.
pub fn probe(name: &str) {
    count(&format!("probe.{name}"), 1)
}
pub fn violation(cls: &str, msg: &str) -> ! {
    unsafe { ffi::sim_violation(cls.as_ptr(), cls.len(), msg.as_ptr(), msg.len()) }
}
/// A violation that may be listed as a known finding: then it is only counted and the run goes on.
pub fn finding(cls: &str, msg: &str) {
    if runner::ignored(cls) {
        count(&format!("known.{cls}"), 1);
    } else {
        violation(cls, msg)
    }
}
pub fn trace(s: &str) {
    unsafe { ffi::sim_trace(s.as_ptr(), s.len()) }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $cls:expr, $($a:tt)*) => { if !($c) { $crate::violation($cls, &format!($($a)*)); } };
}
#[macro_export]
macro_rules! tr {
    ($($a:tt)*) => { if $crate::runner::tracing() { let _g = $crate::Atomic::new(); let s = format!($($a)*); $crate::trace(&s); } };
}
/// While alive no thread switch happens at scheduling points (harness bookkeeping only).
pub struct Atomic(());
impl Atomic {
    pub fn new() -> Self {
        unsafe { ffi::sim_enter() };
        Atomic(())
    }
}
impl Default for Atomic {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for Atomic {
    fn drop(&mut self) {
        unsafe { ffi::sim_leave() }
    }
}
/// State of the harness shared by all simulated threads. Only one thread runs at a time and `with` cannot be
/// preempted, so plain mutable access is enough and adds no scheduling points.
pub struct Shared<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> Shared<T> {
    pub const fn new(t: T) -> Self {
        Shared(UnsafeCell::new(t))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        let _g = Atomic::new();
        f(unsafe { &mut *self.0.get() })
    }
}
impl<T: Default> Default for Shared<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> std::fmt::Debug for Shared<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Shared")
    }
}
pub fn secs(s: f64) -> u64 {
    (s * 1e9) as u64
}
/// Waits until only the calling thread is left.
pub fn check_no_threads_left(what: &str) {
    for _ in 0..600 {
        if unsafe { ffi::sim_threads_alive() } == 1 {
            return;
        }
        std::thread::sleep(std::time::Duration::from_secs(1));
    }
    violation("thread-left", &format!("{what}: {} threads are still running 600 s later", unsafe { ffi::sim_threads_alive() } - 1));
}
/// Total simulated time threads were stalled for in this run so far (0 when none).
pub fn stalls() -> u64 {
    runner::shm().nstall
}
/// Panics whose payload contains this text are injected by a scenario and expected.
pub const INJECTED: &str = "injected-panic";
pub fn inject_panic() -> ! {
    fault("panic");
    std::panic::panic_any(INJECTED)
}
/// Panics seen so far that were not injected: (thread name, message).
pub fn unexpected_panics() -> Vec<String> {
    runner::PANICS.with(|p| p.clone())
}
