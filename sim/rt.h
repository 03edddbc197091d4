// Deterministic simulation runtime: public interface.
// Used both by the (uninstrumented) runtime and by the (instrumented) code under test.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t  u8;

// ---- choices -------------------------------------------------------------------------------
enum Kind : u8 {
    K_SCHED, K_PICK, K_STALE, K_WEAKCAS, K_SPURIOUS, K_NOTIFY, K_TIMEADV, K_CLOCK, K_ALLOC, K_FAULT, K_STALL, K_NKINDS
};
// scenario parameter: uniform in [0,n); 0 is the simplest value.
u32  pick(u32 n);
// like pick, but counted as a fault decision of the workload with probability ~p (percent); 0/false simplest
bool fault(const char* name, u32 percent);
// scheduling point of the harness itself
void point();
void yield();

// ---- violations ----------------------------------------------------------------------------
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::violate(cls, __VA_ARGS__); } while (0)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // only shown in replay traces
void probe(const char* literal);                                          // "this rare condition was hit"

void cover(u64 h);                                                        // this run exercised behaviour h (counts as a distinct case)

// ---- global order / clock ------------------------------------------------------------------
u64  stamp();          // global event sequence number (monotone, unique)
u64  now_ns();         // simulated time, no draw
u64  early_jumps();    // how often the clock was advanced although threads were runnable (fault)
int  cur();            // simulated thread id (0 = scenario main)
bool active();

// ---- environment knobs ---------------------------------------------------------------------
void set_hwc(u32 n);              // hardware_concurrency
void alloc_faults(bool on);       // inject malloc/new failures in this simulated thread
u64  alloc_fail_count();          // failures injected so far in this run
void allow_leaks();               // this run does not check for leaks
u64  live_blocks();
extern long ext_live;              // objects of the harness that must be gone at the end of a run
void no_faults_from_now();

// ---- primitives used by simstd -------------------------------------------------------------
void* mtx_get(void* obj);
void mtx_lock(void* obj);
bool mtx_trylock(void* obj);
bool mtx_lock_until(void* obj, u64 deadline);
void mtx_unlock(void* obj);
void mtx_lock_shared(void* obj);
bool mtx_trylock_shared(void* obj);
void mtx_unlock_shared(void* obj);
void rmtx_lock(void* obj);
bool rmtx_trylock(void* obj);
void rmtx_unlock(void* obj);
void mtx_destroy(void* obj);
// returns false on timeout. deadline==~0 : none.
bool cv_wait(void* cv, void* mtx, u64 deadline);
void cv_notify(void* cv, bool all);
void cv_destroy(void* obj);
u32  thr_spawn(void (*fn)(void*), void* arg);
void thr_join(u32 id);
u64  clock_read();
void sleep_until(u64 deadline);
u32  hwc();
void* malloc_(size_t n);
void free_(void* p);
void sem_acquire(void* obj, long* cnt);
void sem_release(void* obj, long* cnt, long n);
void fut_wait(void* obj, const void* old, size_t n);   // blocks only if the newest value equals old
void fut_notify(void* obj, bool all);

// ---- scenarios -----------------------------------------------------------------------------
struct Scenario {
    const char* prop; const char* name; void (*fn)(); u32 weight; Scenario* next;
    Scenario(const char* p, const char* n, void (*f)(), u32 w);
};
#define SCENARIO_W(prop, name, w) \
    static void prop##_##name(); static ::sim::Scenario s_##prop##_##name(#prop, #name, prop##_##name, w); static void prop##_##name()
#define SCENARIO(prop, name) SCENARIO_W(prop, name, 1)
}
