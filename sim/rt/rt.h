#pragma once
#include <stddef.h>
#include <stdint.h>
#define SIM_STREAMS 64
#define SIM_WMAX 4096
#define SIM_SMAX 65536
#define SIM_NCOUNT 96
enum { SIM_RUNNING = 0, SIM_OK = 1, SIM_VIOLATION = 2, SIM_DEADLOCK = 3, SIM_LIVELOCK = 4, SIM_INTERNAL = 5 };
enum { SIM_RANDOM = 0, SIM_PCT = 1, SIM_SITE = 2, SIM_BLOCKONLY = 3 };
struct sim_range { uint64_t lo, hi; };
struct sim_cfg {
  uint64_t seed;
  uint64_t max_steps, max_vtime, step_ns, mono_base, real_base;
  uint32_t mode, p_switch, p_stall, stall_lo, stall_span, p_spurious, pct_depth, site_mod;
  uint64_t pct_len;
  uint32_t replay, trace, trace_fd, nopreempt;
  const struct sim_range *ranges;
  uint64_t nranges;
};
// simulated network: probabilities are "one in p", 0 = never
struct sim_net { uint32_t p_delay, max_delay_us, p_split, p_cut, p_refuse, p_lost, cap; };
struct sim_stream { uint32_t pos, len; uint32_t v[SIM_WMAX]; };
struct sim_sched { uint64_t at; uint32_t v, pad; };
struct sim_count { char name[40]; uint64_t v; };
struct sim_shm {
  uint32_t status, nsched;
  uint64_t steps, points, vtime, nthreads, nswitch, npreempt, nstall, nspurious, idle_jumps, hash;
  char cls[128];
  char msg[8192];
  struct sim_count count[SIM_NCOUNT];
  struct sim_stream w[SIM_STREAMS];
  struct sim_sched sched[SIM_SMAX];
};
