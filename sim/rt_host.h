// Interface between the runtime and the driver (not visible to code under test).
#pragma once
#include "rt.h"
namespace sim {
static constexpr int MAXPROBE = 64;
struct Stats { u64 fired[K_NKINDS]; u64 timejumps; char probe_n[MAXPROBE][48]; u64 probe_c[MAXPROBE]; char fault_n[MAXPROBE][48]; u64 fault_c[MAXPROBE]; };
struct Tape { u16* v = nullptr; u32 n = 0, cap = 0; bool nofault = false; };
struct RunSpec { Scenario* sc; u64 seed; const u16* tape; u32 ntape; bool nofault; u32 cap; };
struct RunResult { bool viol; bool fair; char cls[48]; char msg[1400]; int tid; u64 hash, il, steps, simtime; u32 switches, preempt, threads, nfault, cov; };
extern RunResult R;
extern Scenario* scen_head;
typedef void (*TraceFn)(const char*);
void rt_init(); void rt_stats(Stats*); void rt_watchdog(bool); void rt_trace(int, TraceFn);
void rt_run(const RunSpec&, Tape* out);
u64 mix64(u64);
}
