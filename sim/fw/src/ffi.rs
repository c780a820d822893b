pub const STREAMS: usize = 64;
pub const WMAX: usize = 4096;
pub const SMAX: usize = 65536;
pub const NCOUNT: usize = 96;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Range {
    pub lo: u64,
    pub hi: u64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub max_steps: u64,
    pub max_vtime: u64,
    pub step_ns: u64,
    pub mono_base: u64,
    pub real_base: u64,
    pub mode: u32,
    pub p_switch: u32,
    pub p_stall: u32,
    pub stall_lo: u32,
    pub stall_span: u32,
    pub p_spurious: u32,
    pub pct_depth: u32,
    pub site_mod: u32,
    pub pct_len: u64,
    pub replay: u32,
    pub trace: u32,
    pub trace_fd: u32,
    pub nopreempt: u32,
    pub ranges: *const Range,
    pub nranges: u64,
}
#[repr(C)]
pub struct Stream {
    pub pos: u32,
    pub len: u32,
    pub v: [u32; WMAX],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Sched {
    pub at: u64,
    pub v: u32,
    pub pad: u32,
}
#[repr(C)]
pub struct Count {
    pub name: [u8; 40],
    pub v: u64,
}
#[repr(C)]
pub struct Shm {
    pub status: u32,
    pub nsched: u32,
    pub steps: u64,
    pub points: u64,
    pub vtime: u64,
    pub nthreads: u64,
    pub nswitch: u64,
    pub npreempt: u64,
    pub nstall: u64,
    pub nspurious: u64,
    pub idle_jumps: u64,
    pub hash: u64,
    pub cls: [u8; 128],
    pub msg: [u8; 8192],
    pub count: [Count; NCOUNT],
    pub w: [Stream; STREAMS],
    pub sched: [Sched; SMAX],
}
/// Simulated network: probabilities are one in `p_*`, 0 = never.
#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Net {
    pub p_delay: u32,
    pub max_delay_us: u32,
    pub p_split: u32,
    pub p_cut: u32,
    pub p_refuse: u32,
    pub p_lost: u32,
    /// bytes a connection buffers, 0 = 64 KiB
    pub cap: u32,
}
extern "C" {
    pub fn sim_start(c: *const Cfg, h: *mut Shm);
    pub fn sim_done() -> !;
    pub fn sim_violation(c: *const u8, cn: usize, m: *const u8, mn: usize) -> !;
    pub fn sim_count(n: *const u8, l: usize, d: u64);
    pub fn sim_trace(s: *const u8, n: usize);
    pub fn sim_choose(stream: u32, n: u32) -> u32;
    pub fn sim_point();
    pub fn sim_now() -> u64;
    pub fn sim_no_busy_wait(ns: u64);
    pub fn sim_real_now() -> u64;
    pub fn sim_seq() -> u64;
    pub fn sim_clock_jump(d: i64);
    pub fn sim_tid() -> i32;
    pub fn sim_active() -> i32;
    pub fn sim_enter();
    pub fn sim_leave();
    pub fn sim_fail_spawns(n: i32);
    pub fn sim_threads_alive() -> i32;
    pub fn sim_net_config(c: *const Net);
    pub fn sim_net_partition(on: i32);
    pub fn sim_net_crash(port: i32, down: i32);
    // libc
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, off: i64) -> *mut u8;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn dup2(a: i32, b: i32) -> i32;
    pub fn open(p: *const std::ffi::c_char, f: i32, ...) -> i32;
    pub fn alarm(s: u32) -> u32;
    pub fn memfd_create(n: *const u8, f: u32) -> i32;
    pub fn lseek(fd: i32, off: i64, wh: i32) -> i64;
    pub fn read(fd: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
    pub fn sched_setaffinity(pid: i32, n: usize, m: *const u64) -> i32;
    pub fn personality(p: u64) -> i32;
}
