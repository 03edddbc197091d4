// Deterministic simulation runtime (never instrumented).
//  * simulated threads are fibers on one OS thread; every switch is a decision of the seeded scheduler
//  * C++ atomics of the instrumented code arrive here through the compiler's -fsanitize=thread hooks
//    (libtsan is not linked; the hooks below are ours): scheduling point + store-history weak memory
//  * plain accesses: happens-before race detection (FastTrack), use-after-free, use of dead stack frames
//  * allocator: bump arena at a fixed address, never reuses memory within a run; leak check per run
//  * simulated clock, timers, mutexes, condition variables, threads
//  * every decision is one entry of the choice tape; a run is a pure function of (scenario, tape)
#include "rt.h"
#include "rt_host.h"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <new>
#include <exception>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <link.h>
#include <cxxabi.h>
#include <initializer_list>


extern "C" char __libc_single_threaded;

namespace sim {

// ------------------------------------------------------------------------------------------------
// constants and regions
static constexpr int MAXT = 14;
static constexpr u64 ARENA = 0x100000000000ull, ARENA_SZ = 64ull << 20;
static constexpr u64 STK = 0x110000000000ull, STK_SZ = 256ull << 10;
static constexpr u64 POOL_SZ = 512ull << 20;
static constexpr u32 MAXLOC = 2048;

typedef struct Ctx { void* sp; } Ctx;
extern "C" void sim_switch(void** save_sp, void* new_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

struct Clock { u32 vc[MAXT]; u16 nview; u16 view[1]; };   // variable length

struct Rec { u32 clk, pc; u8 tid, mask; u16 loc; };
struct Cell {            // shadow of one 8-byte granule: the last writes and reads, each with the bytes it covered. Records may be lost, never invented
    Rec w[3], r[3];      // w[0].loc: first atomic location record in this granule (0: none)
    u16& loc() { return w[0].loc; }
};
static_assert(sizeof(Cell) == 72, "cell");

struct Msg { u64 val; Clock* clk; u32 pc; u8 tid; };
struct Loc {
    u64 addr; u8 size; u8 dirty; u16 next; u32 n, cap; u32 base; u32 scfloor; Msg* h;
    u32 accw[MAXT], accr[MAXT]; u32 pcw[MAXT], pcr[MAXT]; u8 stale[MAXT];
};

enum St : u8 { RUN, BLOCK, DONE };
struct Fiber {
    void* sp; u64 lo, hi; St st; u8 why; bool timed_out; u64 deadline; void* obj;
    void (*fn)(void*); void* arg;
    u32 vc[MAXT]; u16 view[MAXLOC]; u16 nview;
    bool has_pend; Clock* relf; u32 pend_vc[MAXT]; u16 pend_view[MAXLOC];
    char tls[256]; u64 eh[2];
    u64 lowmark; int prio; bool alloc_faults; u32 finished_joined; u32 yields; const char* what; u32 blockpc;
};

static bool g_active, g_rt;
static Fiber F[MAXT]; static int NF, CUR;
static Loc* L; static u32 NL;
static Cell* SHA; static Cell* SHS; static u8* AST;   // shadows: arena, stacks; arena granule state
static u64 a_top; static u64 a_live;
static char* pool; static u64 pool_top;
static char tls0[256]; static size_t tls_sz; static char* tls_base;
static void* main_sp; static Ctx dummy;
static u64 g_now, g_steps, g_stamp, g_hash, g_il;     // g_il: interleaving hash
static u32 g_cov;
static u32 g_cap; static bool g_fair; static bool g_nofault; static bool g_leak_ok;
static u32 g_hwc; static u64 g_allocfail; static u64 g_early; static u32 g_lone; static u32 g_switches, g_preempt, g_nfault;
static u32 aux_gen; 
RunResult R;
static Stats* ST; static Stats st_local;
static int g_trace; static TraceFn g_tracefn;

// allocation table (arena blocks), host memory
struct Blk { u64 addr; u32 size; u32 pc; u8 freed; };
static Blk* BL; static u32 NB, CAPB;

// auxiliary sync objects (mutex / cv / semaphore), keyed by address
struct Aux { u64 addr; u32 gen; int owner; u32 rec; u32 shared; bool dead; Clock* rel; };
static Aux* AX; static u32 NAX;

Scenario* scen_head;
Scenario::Scenario(const char* p, const char* n, void (*f)(), u32 w) : prop(p), name(n), fn(f), weight(w), next(scen_head) { scen_head = this; }

#define ENTER bool _was = g_rt; g_rt = true
#define LEAVE g_rt = _was
#define PC ((u32)(u64)__builtin_return_address(0))

// ------------------------------------------------------------------------------------------------
// choices
static Tape* T; static const u16* rp; static u32 rn, rpos; static bool replaying;
static u64 rng_s[2];
static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 rnd() { u64 a = rng_s[0], b = rng_s[1], r = a + b; b ^= a; rng_s[0] = rotl(a, 24) ^ b ^ (b << 16); rng_s[1] = rotl(b, 37); return r; }
u64 mix64(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static inline void hmix(u64 v) { g_hash = (g_hash ^ v) * 0x100000001b3ull; g_hash ^= g_hash >> 29; }
static struct { int mode; u32 psw; int burst; u32 prob[K_NKINDS]; u32 chg[8]; int nchg; u32 salt, smask, sprob; int low; bool on[K_NKINDS]; u64 faultmask; } S;

static void pool_fail(const char* what) { fprintf(stderr, "sim: out of %s\n", what); _exit(3); }
static void* palloc(u64 n) {
    n = (n + 7) & ~7ull; if (pool_top + n > POOL_SZ) pool_fail("pool");
    void* p = pool + pool_top; pool_top += n; return p;
}
static inline void rec(u32 v) {
    if (T->n == T->cap) { T->cap = T->cap ? T->cap * 2 : 1024; T->v = (u16*)realloc(T->v, T->cap * sizeof(u16)); }
    T->v[T->n++] = (u16)v; hmix(v + 0x1000);
}
// a draw in [0,n); `gen` is used when not replaying
static inline u32 replay_next(u32 n) { u32 v = rpos < rn ? rp[rpos++] % n : 0; return v; }

// bernoulli fault decision of built-in kind
static bool chance(Kind k) {
    if (g_nofault || g_fair) return false;
    u32 v;
    if (replaying) v = replay_next(2);
    else v = S.on[k] && (rnd() & 0xffff) < S.prob[k];
    rec(v);
    if (v) { ST->fired[k]++; g_nfault++; g_il = mix64(g_il ^ k); }
    return v;
}
u32 pick(u32 n) {
    ENTER; u32 v = 0;
    if (n > 1) { v = replaying ? replay_next(n) : (u32)(rnd() % n); rec(v); }
    LEAVE; return v;
}

// ------------------------------------------------------------------------------------------------
// tracing
static void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void tracef(const char* fmt, ...) {
    if (!g_trace) return;
    char b[600]; va_list ap; va_start(ap, fmt);
    int k = snprintf(b, sizeof b, "%6lu t=%luns T%d ", (unsigned long)g_steps, (unsigned long)g_now, CUR);
    vsnprintf(b + k, sizeof b - k, fmt, ap); va_end(ap); g_tracefn(b);
}
void note(const char* fmt, ...) {
    ENTER;
    if (g_trace) { char b[500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); tracef("note %s", b); }
    LEAVE;
}
void cover(u64 h) { g_il = mix64(g_il ^ h); g_cov = 1; }
void probe(const char* n) {
    ENTER;
    Stats* s = ST;
    for (int i = 0; i < MAXPROBE; ++i) {
        if (s->probe_n[i][0] == 0) { strncpy(s->probe_n[i], n, sizeof s->probe_n[i] - 1); s->probe_c[i] = 1; break; }
        if (!strncmp(s->probe_n[i], n, sizeof s->probe_n[i] - 1)) { s->probe_c[i]++; break; }
    }
    LEAVE;
}

// ------------------------------------------------------------------------------------------------
// violations: abandon the run
[[noreturn]] static void abandon() {
    g_active = false;
    sim_switch(&dummy.sp, main_sp);
    __builtin_unreachable();
}
static void set_viol(const char* cls, const char* fmt, va_list ap) {
    R.viol = true; strncpy(R.cls, cls, sizeof R.cls - 1); vsnprintf(R.msg, sizeof R.msg, fmt, ap); R.tid = CUR;
    hmix(0xdead); for (const char* c = R.cls; *c; ++c) hmix((u8)*c);
}
void violate(const char* cls, const char* fmt, ...) {
    g_rt = true;
    va_list ap; va_start(ap, fmt); set_viol(cls, fmt, ap); va_end(ap);
    if (!g_active) { fprintf(stderr, "sim: violation outside a run: %s %s\n", R.cls, R.msg); _exit(3); }
    tracef("VIOLATION %s: %s", R.cls, R.msg);
    abandon();
}

// ------------------------------------------------------------------------------------------------
// clocks
static inline void join_raw(Fiber& f, const Clock* c) {
    if (!c) return;
    for (int i = 0; i < MAXT; ++i) if (c->vc[i] > f.vc[i]) f.vc[i] = c->vc[i];
    for (u32 i = 0; i < c->nview; ++i) if (c->view[i] > f.view[i]) f.view[i] = c->view[i];
}
static Clock* snap(Fiber& f) {
    Clock* c = (Clock*)palloc(sizeof(Clock) + 2 * NL); memcpy(c->vc, f.vc, sizeof c->vc);
    c->nview = (u16)NL; memcpy(c->view, f.view, 2 * NL); return c;
}
static Clock* merge(Clock* a, Clock* b) {
    if (!a) return b; if (!b) return a;
    Clock* c = (Clock*)palloc(sizeof(Clock) + 2 * NL); c->nview = (u16)NL;
    for (int i = 0; i < MAXT; ++i) c->vc[i] = a->vc[i] > b->vc[i] ? a->vc[i] : b->vc[i];
    for (u32 i = 0; i < NL; ++i) { u16 x = i < a->nview ? a->view[i] : 0, y = i < b->nview ? b->view[i] : 0; c->view[i] = x > y ? x : y; }
    return c;
}
static inline void tick(Fiber& f, int t) { ++f.vc[t]; }

// ------------------------------------------------------------------------------------------------
// shadow memory
static inline Cell* cell_of(u64 a) {
    if (a - ARENA < ARENA_SZ) return &SHA[(a - ARENA) >> 3];
    if (a - STK < STK_SZ * MAXT) return &SHS[(a - STK) >> 3];
    return nullptr;
}
static const char* blkinfo(u64 a, char* b, size_t n) {
    if (a - ARENA < ARENA_SZ) {
        for (u32 i = 0; i < NB; ++i) if (a + 16 >= BL[i].addr && a < BL[i].addr + BL[i].size + 16) {
            snprintf(b, n, "block #%u size %u allocated at {%x}%s, offset %ld", i, BL[i].size, BL[i].pc, BL[i].freed ? " (freed)" : "", (long)(a - BL[i].addr));
            return b;
        }
        snprintf(b, n, "unknown arena address"); return b;
    }
    if (a - STK < STK_SZ * MAXT) { int t = (int)((a - STK) / STK_SZ); snprintf(b, n, "stack of T%d", t); return b; }
    snprintf(b, n, "global"); return b;
}
[[noreturn]] static void race(u64 a, int n, bool w, u32 pc, int tid2, bool w2, u32 pc2, bool at1, bool at2) {
    char b[200];
    violate("race", "unordered %s%s by T%d at {%x} and %s%s by T%d at {%x}: %s",
        at1 ? "atomic " : "", w ? "write" : "read", CUR, pc, at2 ? "atomic " : "", w2 ? "write" : "read", tid2, pc2, blkinfo(a, b, sizeof b));
}
static inline void check_live(u64 a, int n, bool w, u32 pc) {
    if (a - ARENA < ARENA_SZ) {
        for (u64 g = (a - ARENA) >> 3, e = (a + n - 1 - ARENA) >> 3; g <= e; ++g) {
            u8 s = AST[g]; char b[200];
            if (s == 8) continue;
            if (s == 0xff) violate("use-after-free", "%s of freed memory by T%d at {%x}: %s", w ? "write" : "read", CUR, pc, blkinfo(a, b, sizeof b));
            u64 lo = a > ARENA + g * 8 ? a : ARENA + g * 8; u64 hi = a + n < ARENA + g * 8 + 8 ? a + n : ARENA + g * 8 + 8; (void)lo;
            if (hi - (ARENA + g * 8) > s) violate("out-of-bounds", "%s outside an allocated block by T%d at {%x}: %s", w ? "write" : "read", CUR, pc, blkinfo(a, b, sizeof b));
        }
    } else if (a - STK < STK_SZ * MAXT) {
        int t = (int)((a - STK) / STK_SZ);
        if (t != CUR) {
            if (t >= NF || F[t].st == DONE || a < (u64)F[t].sp)
                violate("use-after-return", "%s of a dead stack frame of T%d by T%d at {%x}", w ? "write" : "read", t, CUR, pc);
        } else if (a < F[t].lowmark) F[t].lowmark = a;
    }
}
static inline void check_loc_plain(Cell* c, u64 a, int n, bool w, u32 pc) {
    for (u32 l = c->loc(); l; l = L[l].next) {
        Loc& o = L[l];
        if (a + n <= o.addr || o.addr + o.size <= a) continue;
        for (int t = 0; t < NF; ++t) if (t != CUR) {
            if (o.accw[t] > F[CUR].vc[t]) race(a, n, w, pc, t, true, o.pcw[t], false, true);
            if (w && o.accr[t] > F[CUR].vc[t]) race(a, n, w, pc, t, false, o.pcr[t], false, true);
        }
        if (w) o.dirty = 1;
    }
}
static inline void rec_put(Rec* rs, u8 mask, u32 me, u32 pc, const u32* vc) {
    int slot = -1;
    for (int i = 0; i < 3; ++i) {
        Rec& r = rs[i]; if (!r.clk) { if (slot < 0) slot = i; continue; }
        if (r.tid == CUR && r.clk == me) { r.mask |= mask; r.pc = pc; return; }
    }
    if (slot < 0) for (int i = 0; i < 3; ++i) if (rs[i].tid == CUR || rs[i].clk <= vc[rs[i].tid]) { slot = i; break; }
    if (slot < 0) slot = (int)(g_steps % 3);
    Rec& r = rs[slot]; r.clk = me; r.pc = pc; r.tid = (u8)CUR; r.mask = mask;
}
static inline void plain_granule(Cell* c, u64 a, int n, u8 mask, bool w, u32 pc) {
    Fiber& f = F[CUR]; u32 me = f.vc[CUR];
    if (w && c->w[0].clk == me && c->w[0].tid == CUR && c->w[0].mask == mask && !c->w[1].clk && !c->w[2].clk && !c->loc() && !c->r[0].clk && !c->r[1].clk && !c->r[2].clk) { c->w[0].pc = pc; return; }
    if (c->loc()) check_loc_plain(c, a, n, w, pc);
    for (auto& r : c->w) if (r.clk && (r.mask & mask) && r.tid != CUR && r.clk > f.vc[r.tid]) race(a, n, w, pc, r.tid, true, r.pc, false, false);
    if (w) {
        for (auto& r : c->r) if (r.clk && (r.mask & mask)) {
            if (r.tid != CUR && r.clk > f.vc[r.tid]) race(a, n, true, pc, r.tid, false, r.pc, false, false);
            if (!(r.mask &= (u8)~mask)) r.clk = 0;
        }
        for (auto& r : c->w) if (r.clk && (r.mask & mask) && !(r.mask &= (u8)~mask)) r.clk = 0;
        rec_put(c->w, mask, me, pc, f.vc);
    } else {
        for (auto& r : c->r) if (r.clk && r.tid == CUR && r.clk != me && (r.mask & mask) && !(r.mask &= (u8)~mask)) r.clk = 0;
        rec_put(c->r, mask, me, pc, f.vc);
    }
}
static inline void access(u64 a, int n, bool w, u32 pc) {
    if (!g_active || g_rt) return;
    Cell* c = cell_of(a); if (!c) return;
    g_rt = true;
    check_live(a, n, w, pc);
    u64 e = a + n;
    while (a < e) {
        u64 ge = (a & ~7ull) + 8; u64 x = e < ge ? e : ge;
        u8 mask = (u8)(((1u << (x - a)) - 1) << (a & 7));
        plain_granule(c, a, (int)(x - a), mask, w, pc);
        a = x; ++c;
    }
    g_rt = false;
}

// ------------------------------------------------------------------------------------------------
// fibers and scheduling
static void save_tls(Fiber& f) { memcpy(f.tls, tls_base, tls_sz); memcpy(f.eh, __cxxabiv1::__cxa_get_globals(), 16); }
static void load_tls(Fiber& f) { memcpy(tls_base, f.tls, tls_sz); memcpy(__cxxabiv1::__cxa_get_globals(), f.eh, 16); }
static void fiber_entry();
static void switch_to(int t) {
    if (t == CUR) return;
    int from = CUR; save_tls(F[from]); CUR = t; load_tls(F[t]); g_switches++;
    sim_switch(&F[from].sp, F[t].sp);
}
static u32 runnable(int* out) {
    u32 n = 0; for (int i = 0; i < NF; ++i) { int t = (CUR + i) % NF; if (F[t].st == RUN) out[n++] = t; } return n;
}
static const u64 NEVER = 1ull << 62;   // a century and a half: a wait that only this would end counts as blocked
static bool any_timer(u64& d) { bool r = false; for (int i = 0; i < NF; ++i) if (F[i].st == BLOCK && F[i].deadline < NEVER) { if (!r || F[i].deadline < d) d = F[i].deadline; r = true; } return r; }
static void fire_due() { for (int i = 0; i < NF; ++i) if (F[i].st == BLOCK && F[i].deadline <= g_now) { F[i].st = RUN; F[i].timed_out = true; } }

static const char* whyname[] = { "?", "mutex", "condition variable", "join", "sleep", "semaphore", "shared mutex", "atomic wait" };
static void deadlock() {
    char b[700]; int k = 0; b[0] = 0;
    for (int i = 0; i < NF; ++i) if (F[i].st == BLOCK) k += snprintf(b + k, sizeof b - k, " T%d blocked on %s;", i, whyname[F[i].why]);
    violate("deadlock", "no runnable thread and no pending timer:%s", b);
}
// choose among n candidates (index 0 = default). is_yield: prefer not 0.
static u32 g_site;   // code location of the current scheduling point
static u32 choose(int* c, u32 n, bool is_yield) {
    if (n == 1) return 0;
    u32 v;
    if (g_fair) return 1 % n;
    if (replaying) v = replay_next(n);
    else switch (S.mode) {
    default: v = (u32)(rnd() % n); break;
    case 1: // sticky
        if (is_yield) v = (u32)(rnd() % n); else v = (rnd() & 0xffff) < S.psw ? (u32)(rnd() % n) : 0; break;
    case 2: { // PCT
        if (is_yield && c[0] == CUR) { int lo = F[c[0]].prio; for (u32 i = 0; i < n; ++i) if (F[c[i]].prio < lo) lo = F[c[i]].prio; F[c[0]].prio = lo - 1; }
        for (int i = 0; i < S.nchg; ++i) if (S.chg[i] == g_steps && c[0] == CUR) F[c[0]].prio = -100 - i;
        v = 0; for (u32 i = 1; i < n; ++i) if (F[c[i]].prio > F[c[v]].prio) v = i; break; }
    case 4: { // stalls at a few code locations drawn for the run; elsewhere threads run until they block
        if (c[0] == CUR) {
            if (is_yield) { int lo = F[c[0]].prio; for (u32 i = 0; i < n; ++i) if (F[c[i]].prio < lo) lo = F[c[i]].prio; F[c[0]].prio = lo - 1; }
            else if ((mix64(((u64)S.salt << 32) | g_site) & S.smask) == 0 && (rnd() & 0xff) < S.sprob) F[c[0]].prio = --S.low;
        }
        v = 0; for (u32 i = 1; i < n; ++i) if (F[c[i]].prio > F[c[v]].prio) v = i; break; }
    case 3: // burst
        if (S.burst > 0 && c[0] == CUR && !is_yield) { --S.burst; v = 0; } else { v = (u32)(rnd() % n); u32 e = rnd() % 7; S.burst = (int)(rnd() % (1u << e)); } break;
    }
    rec(v); return v;
}
static void livelock() { violate("livelock", "no progress: %lu scheduling points executed, the last %u of them fair and without faults", (unsigned long)g_steps, g_cap); }
static void count_step() {
    ++g_steps;
    if (g_steps > g_cap) { if (!g_fair) { g_fair = true; } if (g_steps > 2ull * g_cap) livelock(); }
}
// current fiber stays runnable
static void sp(u32 tagv, bool is_yield = false) {
    count_step();
    if (tagv != 0x10 && tagv != 0x11 && tagv != 0x12 && tagv != 0x13) g_site = tagv;
    u64 d;
    bool timers = any_timer(d);
    if (timers && d > g_now && chance(K_TIMEADV)) { g_now = d; ++g_early; }
    if (timers) fire_due();
    int c[MAXT]; u32 n = runnable(c);
    if (n > 1) {
        u32 v;
        if (is_yield && !g_fair) {
            // a yielding thread lets the others go first
            v = choose(c + 1, n - 1, false) + 1;
            if ((S.mode == 2 || S.mode == 4) && !replaying) { int lo = F[CUR].prio; for (u32 i = 0; i < n; ++i) if (F[c[i]].prio < lo) lo = F[c[i]].prio; F[CUR].prio = lo - 1; }
        } else v = choose(c, n, is_yield);
        if (v && !is_yield) g_preempt++;
        if (v) { tracef("switch to T%d", c[v]); int me = CUR; switch_to(c[v]); (void)me; }
    } else if (is_yield) {
        // alone and spinning: let it look again before time passes it by
        if (++g_lone > 8) { g_lone = 0; if (timers) { if (d > g_now) { g_now = d; ++g_early; } fire_due(); } else g_now += 1000; }
        n = runnable(c); if (n > 1) { tracef("switch to T%d", c[1]); switch_to(c[1]); }
    }
    hmix((u64)CUR << 32 | tagv); g_il = (g_il ^ ((u64)CUR + 1 + ((u64)tagv << 8))) * 0x100000001b3ull; g_il ^= g_il >> 31;
}
// current fiber is not runnable: give the CPU away; returns when woken
static void give_away() {
    count_step();
    for (;;) {
        u64 d;
        fire_due();
        int c[MAXT]; u32 n = runnable(c);
        if (n == 0) {
            if (any_timer(d)) { if (d > g_now) { g_now = d; ST->timejumps++; } fire_due(); continue; }
            deadlock();
        }
        u32 v = choose(c, n, false);
        if (c[v] != CUR) { tracef("blocked; switch to T%d", c[v]); switch_to(c[v]); }
        break;
    }
    hmix((u64)CUR << 32 | 0xb10c); g_il = (g_il ^ ((u64)CUR + 1)) * 0x100000001b3ull; g_il ^= g_il >> 31;
}
static void block(u8 why, void* obj, u64 deadline) {
    Fiber& f = F[CUR]; f.st = BLOCK; f.why = why; f.obj = obj; f.deadline = deadline; f.timed_out = false;
    give_away();
    f.deadline = ~0ull;
}
static void wake(u8 why, void* obj) { for (int i = 0; i < NF; ++i) if (F[i].st == BLOCK && F[i].why == why && F[i].obj == obj) { F[i].st = RUN; } }

static void finish_fiber() {
    Fiber& f = F[CUR]; f.st = DONE; tick(f, CUR);
    tracef("thread exits");
    wake(3, &f);
    bool all = true; for (int i = 0; i < NF; ++i) if (F[i].st != DONE) all = false;
    if (all) { abandon(); }
    give_away();
    __builtin_unreachable();
}
static void fiber_entry() {
    Fiber& f = F[CUR];
    g_rt = false;
    try { f.fn(f.arg); }
    catch (...) { violate("terminate", "an exception escaped a thread function"); }
    g_rt = true;
    finish_fiber();
    abort();
}
static int new_fiber(void (*fn)(void*), void* arg) {
    if (NF == MAXT) { if (g_active) violate("runaway", "more than %d threads exist", (int)MAXT); fprintf(stderr, "sim: too many threads\n"); _exit(3); }
    int t = NF++; Fiber& f = F[t];
    f.lo = STK + STK_SZ * t + 4096; f.hi = STK + STK_SZ * (t + 1) - 64; f.st = RUN; f.deadline = ~0ull; f.fn = fn; f.arg = arg;
    memset(f.vc, 0, sizeof f.vc); memset(f.view, 0, sizeof f.view); f.has_pend = false; f.relf = nullptr; memset(f.pend_vc, 0, sizeof f.pend_vc);
    memcpy(f.tls, tls0, tls_sz); f.eh[0] = f.eh[1] = 0; f.lowmark = f.hi; f.alloc_faults = false; f.timed_out = false; f.obj = nullptr;
    f.prio = replaying ? 0 : (int)(rnd() % 1000);
    f.vc[t] = 1;
    u64* s = (u64*)(f.hi & ~15ull); *--s = 0; *--s = (u64)&fiber_entry; for (int i = 0; i < 6; ++i) *--s = 0;
    f.sp = s; return t;
}
u32 thr_spawn(void (*fn)(void*), void* arg) {
    ENTER;
    int me = CUR; tick(F[me], me);
    int t = new_fiber(fn, arg); u32 own = F[t].vc[t];
    memcpy(F[t].vc, F[me].vc, sizeof F[t].vc); F[t].vc[t] = own; memcpy(F[t].view, F[me].view, sizeof F[t].view);
    tick(F[me], me);
    tracef("spawn T%d", t);
    sp(0x51);
    LEAVE; return (u32)t;
}
void thr_join(u32 id) {
    ENTER;
    if ((int)id >= NF || (int)id == CUR) violate("bad-join", "join of invalid thread");
    sp(0x52);
    while (F[id].st != DONE) block(3, &F[id], ~0ull);
    Fiber& f = F[CUR]; for (int i = 0; i < MAXT; ++i) if (F[id].vc[i] > f.vc[i]) f.vc[i] = F[id].vc[i];
    for (u32 i = 0; i < NL; ++i) if (F[id].view[i] > f.view[i]) f.view[i] = F[id].view[i];
    tracef("joined T%u", id);
    LEAVE;
}
void point() { ENTER; sp(0x53); LEAVE; }
void yield() { ENTER; sp(0x54, true); LEAVE; }
u64 stamp() { return ++g_stamp; }
u64 now_ns() { return g_now; }
int cur() { return CUR; }
bool active() { return g_active; }
void set_hwc(u32 n) { g_hwc = n; }
u32 hwc() { return g_hwc; }
void alloc_faults(bool on) { F[CUR].alloc_faults = on; }
u64 early_jumps() { return g_early; }
u64 alloc_fail_count() { return g_allocfail; }
void allow_leaks() { g_leak_ok = true; }
u64 live_blocks() { return a_live; }
long ext_live;
void no_faults_from_now() { g_nofault = true; }
bool fault(const char* name, u32 pct) {
    ENTER;
    u32 v;
    if (g_nofault || g_fair) v = 0;
    else {
        if (replaying) v = replay_next(2);
        else {
            u64 hb = 1469598103934665603ull; for (const char* q = name; *q; ++q) hb = (hb ^ (u8)*q) * 0x100000001b3ull;
            u64 bit = mix64(hb) & 63;
            v = ((S.faultmask >> bit) & 1) && rnd() % 100 < pct;
        }
        rec(v);
    }
    if (v) { Stats* s = ST; for (int i = 0; i < MAXPROBE; ++i) {
        if (s->fault_n[i][0] == 0) { strncpy(s->fault_n[i], name, sizeof s->fault_n[i] - 1); s->fault_c[i] = 1; break; }
        if (!strncmp(s->fault_n[i], name, sizeof s->fault_n[i] - 1)) { s->fault_c[i]++; break; } }
        g_nfault++; g_il = mix64(g_il ^ 0xfa); tracef("FAULT %s", name); }
    LEAVE; return v;
}

// ------------------------------------------------------------------------------------------------
// clock
u64 clock_read() {
    ENTER; sp(0x60);
    if (chance(K_CLOCK)) { u32 k = replaying ? replay_next(4) : (u32)(rnd() % 4); rec(k); static const u64 adv[] = { 1, 1000, 100000, 5000000 }; g_now += adv[k]; fire_due(); }
    u64 r = g_now; tracef("clock read"); LEAVE; return r;
}
void sleep_until(u64 d) { ENTER; sp(0x61); if (d > g_now) { tracef("sleep until %lu", (unsigned long)d); block(4, nullptr, d); } LEAVE; }

// ------------------------------------------------------------------------------------------------
// sync objects
static Aux* aux(void* o, u32 pc, bool create = true) {
    u64 a = (u64)o;
    // touching a dead object is a violation
    if (cell_of(a)) check_live(a, 8, true, pc);
    for (u32 i = NAX; i-- > 0;) if (AX[i].addr == a && !AX[i].dead) return &AX[i];
    if (!create) return nullptr;
    if (NAX == 512) pool_fail("sync objects");
    Aux* x = &AX[NAX++]; memset(x, 0, sizeof *x); x->addr = a; x->owner = -1; return x;
}
// each operation on a sync object is recorded as an atomic access so that destroying it concurrently is a race
static u32 loc_get(u64 a, u8 size, bool create);
static void aux_touch(void* o, u32 pc) {
    u64 a = (u64)o; Cell* c = cell_of(a); if (!c) return;
    u32 l = loc_get(a, 8, true); if (!l) return;
    Fiber& f = F[CUR];
    for (auto& r : c->w) if (r.clk && r.tid != CUR && r.clk > f.vc[r.tid]) race(a, 8, true, pc, r.tid, true, r.pc, true, false);
    L[l].accw[CUR] = f.vc[CUR]; L[l].pcw[CUR] = pc;
}
static void acq_(Aux* x) { join_raw(F[CUR], x->rel); }
static void rel_(Aux* x) { x->rel = merge(x->rel, snap(F[CUR])); tick(F[CUR], CUR); }

static bool mtx_acquire(void* o, u64 deadline, u32 pc, bool rec_) {
    sp(0x70); Aux* x = aux(o, pc); aux_touch(o, pc);
    if (x->owner == CUR) { if (rec_) { x->rec++; return true; } violate("self-deadlock", "T%d locks a mutex it already holds at {%x}", CUR, pc); }
    while (x->owner >= 0 || x->shared) {
        if (deadline == 0) return false;
        tracef("mutex busy");
        block(1, o, deadline == ~0ull ? ~0ull : deadline);
        x = aux(o, pc);
        if (F[CUR].timed_out && (x->owner >= 0 || x->shared)) return false;
    }
    x->owner = CUR; x->rec = 1; acq_(x); aux_touch(o, pc); tracef("lock mutex"); return true;
}
static void mtx_release(void* o, u32 pc, bool rec_) {
    Aux* x = aux(o, pc);
    if (x->owner != CUR) violate("bad-unlock", "T%d unlocks a mutex it does not hold at {%x}", CUR, pc);
    if (rec_ && --x->rec) return;
    aux_touch(o, pc); rel_(x); x->owner = -1; wake(1, o); wake(6, o); tracef("unlock mutex");
    sp(0x71);
}
void mtx_lock(void* o) { ENTER; mtx_acquire(o, ~0ull, PC, false); LEAVE; }
bool mtx_trylock(void* o) { ENTER; bool r = mtx_acquire(o, 0, PC, false); LEAVE; return r; }
bool mtx_lock_until(void* o, u64 d) { ENTER; bool r = mtx_acquire(o, d <= g_now ? 0 : d, PC, false); LEAVE; return r; }
void mtx_unlock(void* o) { ENTER; mtx_release(o, PC, false); LEAVE; }
void rmtx_lock(void* o) { ENTER; mtx_acquire(o, ~0ull, PC, true); LEAVE; }
bool rmtx_trylock(void* o) { ENTER; bool r = mtx_acquire(o, 0, PC, true); LEAVE; return r; }
void rmtx_unlock(void* o) { ENTER; mtx_release(o, PC, true); LEAVE; }
void mtx_lock_shared(void* o) {
    ENTER; sp(0x72); Aux* x = aux(o, PC); aux_touch(o, PC);
    while (x->owner >= 0) { block(6, o, ~0ull); x = aux(o, PC); }
    x->shared++; acq_(x); LEAVE;
}
bool mtx_trylock_shared(void* o) { ENTER; sp(0x72); Aux* x = aux(o, PC); aux_touch(o, PC); bool r = x->owner < 0; if (r) { x->shared++; acq_(x); } LEAVE; return r; }
void mtx_unlock_shared(void* o) { ENTER; Aux* x = aux(o, PC); aux_touch(o, PC); rel_(x); if (!--x->shared) wake(1, o); sp(0x73); LEAVE; }
void mtx_destroy(void* o) {
    if (!g_active) return;
    ENTER;
    Aux* x = aux(o, PC, false);
    if (x) {
        if (x->owner >= 0 || x->shared) violate("bad-destroy", "a locked mutex is destroyed by T%d at {%x}", CUR, PC);
        for (int i = 0; i < NF; ++i) if (F[i].st == BLOCK && F[i].why == 1 && F[i].obj == o) violate("bad-destroy", "a mutex other threads wait for is destroyed by T%d at {%x}", CUR, PC);
        x->dead = true;
    }
    LEAVE;
    access((u64)o, 8, true, PC);
}
bool cv_wait(void* cv, void* m, u64 deadline) {
    ENTER; bool ret = true;
    u32 pc = PC;
    Aux* x = aux(m, pc); (void)aux(cv, pc); aux_touch(cv, pc);
    if (x->owner != CUR) violate("bad-wait", "T%d waits on a condition variable without holding the mutex", CUR);
    // atomically release and wait
    rel_(x); x->owner = -1; wake(1, m); wake(6, m);
    if (chance(K_SPURIOUS)) { tracef("cv: spurious wakeup"); sp(0x74); }
    else if (deadline <= g_now) { sp(0x75); ret = false; }
    else { tracef("cv: wait"); block(2, cv, deadline); ret = !F[CUR].timed_out; aux(cv, pc); }
    aux_touch(cv, pc);
    bool to = F[CUR].timed_out; (void)to;
    mtx_acquire(m, ~0ull, pc, false);
    tracef("cv: wait returns%s", ret ? "" : " (timeout)");
    LEAVE; return ret;
}
void cv_notify(void* cv, bool all) {
    ENTER; sp(0x76); (void)aux(cv, PC); aux_touch(cv, PC);
    int w[MAXT]; u32 n = 0; for (int i = 0; i < NF; ++i) if (F[i].st == BLOCK && F[i].why == 2 && F[i].obj == cv) w[n++] = i;
    tracef("cv: notify_%s (%u waiting)", all ? "all" : "one", n);
    if (all) for (u32 i = 0; i < n; ++i) F[w[i]].st = RUN;
    else if (n) { u32 v = 0; if (n > 1) { v = g_fair ? 0 : replaying ? replay_next(n) : (u32)(rnd() % n); if (!g_fair) rec(v); } F[w[v]].st = RUN; }
    LEAVE;
}
void cv_destroy(void* o) {
    if (!g_active) return;
    ENTER;
    for (int i = 0; i < NF; ++i) if (F[i].st == BLOCK && F[i].why == 2 && F[i].obj == o) violate("bad-destroy", "a condition variable T%d waits on is destroyed by T%d at {%x}", i, CUR, PC);
    Aux* x = aux(o, PC, false); if (x) x->dead = true;
    LEAVE;
    access((u64)o, 8, true, PC);
}
void sem_acquire(void* o, long* cnt) { ENTER; sp(0x77); Aux* x = aux(o, PC); aux_touch(o, PC); while (*cnt <= 0) { block(5, o, ~0ull); x = aux(o, PC); } --*cnt; acq_(x); LEAVE; }
void sem_release(void* o, long* cnt, long n) { ENTER; sp(0x78); Aux* x = aux(o, PC); aux_touch(o, PC); rel_(x); *cnt += n; wake(5, o); LEAVE; }

// waiting on an atomic: no happens-before of its own; spurious returns allowed
void fut_wait(void* o, const void* old, size_t n) {
    ENTER; if (!memcmp(o, old, n)) { if (chance(K_SPURIOUS)) { tracef("atomic wait: spurious return"); sp(0x79); } else { tracef("atomic wait"); block(7, o, ~0ull); } } LEAVE;
}
void fut_notify(void* o, bool all) {
    ENTER; sp(0x7a); int w[MAXT]; u32 n = 0; for (int i = 0; i < NF; ++i) if (F[i].st == BLOCK && F[i].why == 7 && F[i].obj == o) w[n++] = i;
    tracef("atomic notify_%s (%u waiting)", all ? "all" : "one", n);
    if (all) for (u32 i = 0; i < n; ++i) F[w[i]].st = RUN;
    else if (n) { u32 v = 0; if (n > 1) { v = g_fair ? 0 : replaying ? replay_next(n) : (u32)(rnd() % n); if (!g_fair) rec(v); } F[w[v]].st = RUN; }
    LEAVE;
}

// ------------------------------------------------------------------------------------------------
// atomics
static u32 loc_get(u64 a, u8 size, bool create) {
    Cell* c = cell_of(a); if (!c) return 0;
    for (u32 l = c->loc(); l; l = L[l].next) if (L[l].addr == a && L[l].size == size) return l;
    if (!create) return 0;
    if (NL >= MAXLOC) return 0;
    u32 l = NL++; Loc& o = L[l]; memset(&o, 0, sizeof o); o.addr = a; o.size = size; o.next = c->loc(); c->loc() = (u16)l; o.dirty = 1;
    return l;
}
static u64 rd(u64 a, u8 s) { switch (s) { case 1: return *(u8*)a; case 2: return *(u16*)a; case 4: return *(u32*)a; default: return *(u64*)a; } }
static void wr(u64 a, u8 s, u64 v) { switch (s) { case 1: *(u8*)a = (u8)v; break; case 2: *(u16*)a = (u16)v; break; case 4: *(u32*)a = (u32)v; break; default: *(u64*)a = v; } }
static void push(Loc& o, u64 v, Clock* c, u32 pc) {
    if (o.n == o.cap) { u32 nc = o.cap ? o.cap * 2 : 8; Msg* h = (Msg*)palloc(nc * sizeof(Msg)); memcpy(h, o.h, o.n * sizeof(Msg)); o.h = h; o.cap = nc; }
    o.h[o.n++] = Msg{ v, c, pc, (u8)CUR };
    if (o.n >= 65000) pool_fail("history");
}
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static const char* mon(int mo) { static const char* n[] = { "relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst" }; return mo >= 0 && mo < 6 ? n[mo] : "?"; }

static Loc* at_begin(u64 a, u8 s, bool w, u32 pc) {
    Cell* c = cell_of(a);
    if (!c) return nullptr;
    check_live(a, s, w, pc);
    u32 l = loc_get(a, s, true); if (!l) violate("runaway", "T%d touches more than %d atomic variables in one short run", CUR, (int)MAXLOC);
    Loc& o = L[l]; Fiber& f = F[CUR];
    // plain accesses not ordered with this atomic access
    u8 mask = (u8)(((1u << s) - 1) << (a & 7)); if (s == 8) mask = 0xff;
    for (auto& r : c->w) if (r.clk && r.tid != CUR && (r.mask & mask) && r.clk > f.vc[r.tid]) race(a, s, w, pc, r.tid, true, r.pc, true, false);
    if (w) for (auto& r : c->r) if (r.clk && r.tid != CUR && (r.mask & mask) && r.clk > f.vc[r.tid]) race(a, s, w, pc, r.tid, false, r.pc, true, false);
    if (w) { o.accw[CUR] = f.vc[CUR]; o.pcw[CUR] = pc; } else { o.accr[CUR] = f.vc[CUR]; o.pcr[CUR] = pc; }
    u64 m = rd(a, s);
    if (o.dirty || o.n == 0 || o.h[o.n - 1].val != m) { push(o, m, nullptr, pc); o.base = o.n - 1; o.dirty = 0; }
    return &o;
}
static inline void on_read(Fiber& f, Loc& o, u32 idx, int mo) {
    u32 l = (u32)(&o - L);
    if (idx > f.view[l]) f.view[l] = (u16)idx;
    Clock* k = o.h[idx].clk;
    if (k) {
        if (is_acq(mo)) join_raw(f, k);
        else { f.has_pend = true; for (int i = 0; i < MAXT; ++i) if (k->vc[i] > f.pend_vc[i]) f.pend_vc[i] = k->vc[i];
               for (u32 i = 0; i < k->nview; ++i) if (k->view[i] > f.pend_view[i]) f.pend_view[i] = k->view[i]; }
    }
    if (mo == __ATOMIC_SEQ_CST && idx > o.scfloor) o.scfloor = idx;
}
static u64 at_load(u64 a, u8 s, int mo, u32 pc) {
    if (!g_active || g_rt || !cell_of(a)) return rd(a, s);
    g_rt = true;
    g_site = pc; sp(0x10);
    Loc* o = at_begin(a, s, false, pc); Fiber& f = F[CUR]; u32 l = (u32)(o - L);
    u32 newest = o->n - 1, floor = f.view[l] > o->base ? f.view[l] : o->base;
    if (mo == __ATOMIC_SEQ_CST && o->scfloor > floor) floor = o->scfloor;
    u32 idx = newest;
    if (floor < newest && o->stale[CUR] < 6 && chance(K_STALE)) {
        u32 span = newest - floor; u32 k = 0;
        if (span > 1) { k = replaying ? replay_next(span) : (u32)(rnd() % span); rec(k); }
        idx = newest - 1 - k; o->stale[CUR]++;
    } else if (idx == newest) o->stale[CUR] = o->stale[CUR] >= 6 ? 6 : o->stale[CUR];
    on_read(f, *o, idx, mo);
    u64 v = o->h[idx].val;
    hmix(v); g_il ^= (u64)l << 40 | (u64)(newest - idx) << 56;
    if (g_trace) tracef("atomic load %s [loc%u] -> %lx%s at {%x}", mon(mo), l, (unsigned long)v, idx != newest ? " (stale)" : "", pc);
    g_rt = false; return v;
}
static void at_store_(Loc* o, u64 a, u8 s, u64 v, int mo, Clock* prev, u32 pc) {
    Fiber& f = F[CUR]; u32 l = (u32)(o - L);
    Clock* k = nullptr;
    u32 idx = o->n; f.view[l] = (u16)idx;
    if (is_rel(mo)) { k = snap(f); } else if (f.relf) k = f.relf;
    k = merge(prev, k);
    push(*o, v, k, pc); wr(a, s, v);
    if (mo == __ATOMIC_SEQ_CST) o->scfloor = idx;
    if (is_rel(mo)) tick(f, CUR);
}
static void at_store(u64 a, u8 s, u64 v, int mo, u32 pc) {
    if (!g_active || g_rt || !cell_of(a)) { wr(a, s, v); return; }
    g_rt = true; g_site = pc; sp(0x11);
    Loc* o = at_begin(a, s, true, pc);
    if (s < 8) v &= (1ull << (8 * s)) - 1;
    at_store_(o, a, s, v, mo, nullptr, pc);
    hmix(v); g_il ^= (u64)(o - L) << 40;
    if (g_trace) tracef("atomic store %s [loc%u] <- %lx at {%x}", mon(mo), (u32)(o - L), (unsigned long)v, pc);
    g_rt = false;
}
enum Op { XCHG, ADD, SUB, AND, OR, XOR, NAND };
static u64 apply(Op op, u64 x, u64 y) { switch (op) { case XCHG: return y; case ADD: return x + y; case SUB: return x - y; case AND: return x & y; case OR: return x | y; case XOR: return x ^ y; default: return ~(x & y); } }
static u64 at_rmw(u64 a, u8 s, Op op, u64 y, int mo, u32 pc) {
    u64 mask = s == 8 ? ~0ull : (1ull << (8 * s)) - 1;
    if (!g_active || g_rt || !cell_of(a)) { u64 x = rd(a, s); wr(a, s, apply(op, x, y) & mask); return x; }
    g_rt = true; g_site = pc; sp(0x12);
    Loc* o = at_begin(a, s, true, pc); Fiber& f = F[CUR];
    u32 idx = o->n - 1; u64 x = o->h[idx].val; Clock* prev = o->h[idx].clk;
    on_read(f, *o, idx, mo);
    at_store_(o, a, s, apply(op, x, y) & mask, mo, prev, pc);
    hmix(x); g_il ^= (u64)(o - L) << 40;
    if (g_trace) { static const char* nm[] = { "exchange", "add", "sub", "and", "or", "xor", "nand" }; tracef("atomic %s %s [loc%u] %lx -> %lx at {%x}", nm[op], mon(mo), (u32)(o - L), (unsigned long)x, (unsigned long)(apply(op, x, y) & mask), pc); }
    g_rt = false; return x;
}
static bool at_cas(u64 a, u8 s, u64* exp, u64 want, int mo, int fmo, bool weak, u32 pc) {
    u64 mask = s == 8 ? ~0ull : (1ull << (8 * s)) - 1; want &= mask;
    if (!g_active || g_rt || !cell_of(a)) { u64 x = rd(a, s); if (x == (*exp & mask)) { wr(a, s, want); return true; } *exp = x; return false; }
    g_rt = true; g_site = pc; sp(0x13);
    Loc* o = at_begin(a, s, false, pc); Fiber& f = F[CUR];
    u32 idx = o->n - 1; u64 x = o->h[idx].val; Clock* prev = o->h[idx].clk;
    bool ok = x == (*exp & mask);
    if (ok && weak && o->stale[CUR] < 12 && chance(K_WEAKCAS)) { ok = false; o->stale[CUR]++; }
    if (ok) {
        at_begin(a, s, true, pc);
        on_read(f, *o, idx, mo); at_store_(o, a, s, want, mo, prev, pc);
    } else { on_read(f, *o, idx, fmo); *exp = x; }
    hmix(x * 2 + ok); g_il ^= (u64)(o - L) << 40 | (u64)ok << 56;
    if (g_trace) tracef("atomic cas %s [loc%u] %lx %s %lx at {%x}", mon(mo), (u32)(o - L), (unsigned long)x, ok ? "->" : "!->", (unsigned long)want, pc);
    g_rt = false; return ok;
}
static void at_fence(int mo) {
    if (!g_active || g_rt) return;
    g_rt = true; sp(0x14);
    Fiber& f = F[CUR];
    if (is_acq(mo) && f.has_pend) { for (int i = 0; i < MAXT; ++i) if (f.pend_vc[i] > f.vc[i]) f.vc[i] = f.pend_vc[i]; for (u32 i = 0; i < NL; ++i) if (f.pend_view[i] > f.view[i]) f.view[i] = f.pend_view[i]; }
    if (mo == __ATOMIC_SEQ_CST) for (u32 i = 1; i < NL; ++i) if (L[i].n && (u16)(L[i].n - 1) > f.view[i]) f.view[i] = (u16)(L[i].n - 1);
    if (is_rel(mo)) { f.relf = snap(f); tick(f, CUR); }
    g_rt = false;
}

// ------------------------------------------------------------------------------------------------
// allocation
static void* arena_alloc(size_t n, size_t al, u32 pc) {
    if (al < 16) al = 16;
    u64 p = ((a_top + 16 + al - 1) & ~(u64)(al - 1));
    u64 end = p + ((n + 7) & ~7ull);
    if (end + 16 > ARENA + ARENA_SZ) pool_fail("arena");
    a_top = end;
    u64 g = (p - ARENA) >> 3; size_t full = n / 8; memset(AST + g, 8, full); if (n & 7) AST[g + full] = (u8)(n & 7);
    memset((void*)p, 0xCD, n ? ((n + 7) & ~7ull) : 0);
    // creation counts as a write by this thread
    Fiber& f = F[CUR];
    for (u64 i = 0; i < (n + 7) / 8; ++i) { Rec& r = SHA[g + i].w[0]; r.clk = f.vc[CUR]; r.tid = (u8)CUR; r.mask = 0xff; r.pc = pc; }
    if (NB == CAPB) { CAPB = CAPB ? CAPB * 2 : 1024; BL = (Blk*)realloc(BL, CAPB * sizeof(Blk)); }
    BL[NB++] = Blk{ p, (u32)n, pc, 0 }; ++a_live;
    hmix(n);
    return (void*)p;
}
static void arena_free(void* q, u32 pc) {
    u64 p = (u64)q; u32 i = 0; char b[200];
    u32 lo = 0, hi = NB; while (lo < hi) { u32 m = (lo + hi) / 2; if (BL[m].addr < p) lo = m + 1; else hi = m; } i = lo;
    if (i == NB || BL[i].addr != p) violate("bad-free", "T%d frees an address that is not a block at {%x}: %s", CUR, pc, blkinfo(p, b, sizeof b));
    if (BL[i].freed) violate("double-free", "T%d frees a block twice at {%x}: %s", CUR, pc, blkinfo(p, b, sizeof b));
    // freeing counts as a write of the whole block
    u64 n = BL[i].size;
    for (u64 a = p; a < p + n;) { u64 ge = a + 8, x = p + n < ge ? p + n : ge; u8 mask = (u8)((1u << (x - a)) - 1); plain_granule(&SHA[(a - ARENA) >> 3], a, (int)(x - a), mask, true, pc); a = x; }
    memset(AST + ((p - ARENA) >> 3), 0xff, (n + 7) / 8);
    BL[i].freed = 1; --a_live;
}
static inline bool in_arena(void* p) { return (u64)p - ARENA < ARENA_SZ; }
static bool inject_alloc() {
    if (!F[CUR].alloc_faults) return false;
    if (!chance(K_ALLOC)) return false;
    g_allocfail++; tracef("FAULT allocation fails"); return true;
}
static void* do_new(size_t n, size_t al, u32 pc, bool nothrow) {
    if (!g_active || g_rt) { void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1); if (!p) _exit(3); return p; }
    g_rt = true; bool fail = inject_alloc(); void* p = fail ? nullptr : arena_alloc(n, al, pc); g_rt = false;
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void do_delete(void* p, u32 pc) {
    if (!p) return;
    if (in_arena(p)) { if (!g_active) return; bool w = g_rt; g_rt = true; arena_free(p, pc); g_rt = w; }
    else free(p);
}
void* malloc_(size_t n) { if (!g_active || g_rt) return malloc(n); g_rt = true; bool fail = inject_alloc(); void* p = fail ? nullptr : arena_alloc(n, 16, PC); g_rt = false; return p; }
void free_(void* p) { do_delete(p, PC); }

// ------------------------------------------------------------------------------------------------
// run
static void init_tls() {
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) -> int {
        if (i->dlpi_name && i->dlpi_name[0]) return 0;
        for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) { tls_base = (char*)i->dlpi_tls_data; tls_sz = i->dlpi_phdr[k].p_memsz; }
        return 1;
    }, nullptr);
    if (tls_sz > sizeof tls0) { fprintf(stderr, "sim: TLS too big\n"); _exit(3); }
    memcpy(tls0, tls_base, tls_sz);
}
static char altstack[65536];
static volatile u32 wd_last, wd_ticks; static u32 g_runno;
static void on_sig(int sig, siginfo_t* si, void* uc) {
    if (sig == SIGVTALRM) {
        if (!g_active) return;
        if (wd_last == g_runno) { if (++wd_ticks < 5) return; } else { wd_last = g_runno; wd_ticks = 0; return; }
    }
    if (!g_active) { signal(sig, SIG_DFL); raise(sig); return; }
    u64 pc = (u64)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    g_rt = true;
    if (sig == SIGVTALRM) violate("hang", "a thread runs forever without reaching a scheduling point (T%d)", CUR);
    u64 ad = (u64)si->si_addr; bool ovf = false; for (int i = 0; i < NF; ++i) if (ad - (STK + STK_SZ * i) < 4096) ovf = true;
    if (sig == SIGABRT) violate("abort", "abort() called in T%d", CUR);
    violate(ovf ? "stack-overflow" : "crash", "signal %d in T%d at {%x} address %lx", sig, CUR, (u32)pc, (unsigned long)(ad < 0x10000 ? ad : 1));
}
static void on_terminate() {
    if (!g_active) abort();
    g_rt = true;
    const char* w = "";
    violate("terminate", "std::terminate called in T%d%s", CUR, w);
}
void rt_init() {
    g_rt = true;
    __libc_single_threaded = 0;
    auto map = [](u64 at, u64 n) { void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0); if (p == MAP_FAILED || (at && p != (void*)at)) { perror("mmap"); _exit(3); } return p; };
    map(ARENA, ARENA_SZ); map(STK, STK_SZ * MAXT);
    for (int i = 0; i < MAXT; ++i) mprotect((void*)(STK + STK_SZ * i), 4096, PROT_NONE);
    SHA = (Cell*)map(0, ARENA_SZ / 8 * sizeof(Cell)); SHS = (Cell*)map(0, STK_SZ * MAXT / 8 * sizeof(Cell)); AST = (u8*)map(0, ARENA_SZ / 8);
    pool = (char*)map(0, POOL_SZ); L = (Loc*)map(0, sizeof(Loc) * MAXLOC); AX = (Aux*)map(0, sizeof(Aux) * 512);
    a_top = ARENA; NF = 0; NL = 1; ST = &st_local;
    init_tls();
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP }) sigaction(s, &sa, nullptr);
    sa.sa_flags |= SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr);
    std::set_terminate(on_terminate);
    g_rt = false;
}
void rt_stats(Stats* s) { ST = s ? s : &st_local; }
void rt_watchdog(bool on) { itimerval it{}; if (on) { it.it_interval.tv_sec = 1; it.it_value.tv_sec = 1; } setitimer(ITIMER_VIRTUAL, &it, nullptr); }
void rt_trace(int on, TraceFn f) { g_trace = on; g_tracefn = f; }

static void reset_mem() {
    if (a_top > ARENA) { u64 n = (a_top - ARENA) / 8 + 4; memset(SHA, 0, n * sizeof(Cell)); memset(AST, 0, n); }
    a_top = ARENA; a_live = 0; NB = 0;
    for (int i = 0; i < NF; ++i) {
        u64 lo = F[i].lowmark & ~7ull; if (lo < F[i].lo) lo = F[i].lo;
        if ((u64)F[i].sp < lo && (u64)F[i].sp >= F[i].lo) lo = (u64)F[i].sp & ~7ull;
        memset(&SHS[(lo - STK) / 8], 0, (STK + STK_SZ * (i + 1) - lo) / 8 * sizeof(Cell));
        u64 wl = lo - 8192 < F[i].lo ? F[i].lo : lo - 8192; memset((void*)wl, 0, STK + STK_SZ * (i + 1) - wl);
    }
    NF = 0; NL = 1; NAX = 0; pool_top = 0;
}
static void main_fiber(void* a) { ((Scenario*)a)->fn(); }

void rt_run(const RunSpec& spec, Tape* out) {
    g_rt = true;
    reset_mem();
    ++g_runno;
    memset(&R, 0, sizeof R);
    T = out; T->n = 0; replaying = spec.tape != nullptr; rp = spec.tape; rn = spec.ntape; rpos = 0;
    g_now = 1000000000ull; g_steps = 0; g_stamp = 0; g_hash = 0xcbf29ce484222325ull; g_il = g_hash; g_cov = 0; g_cap = spec.cap ? spec.cap : 30000;
    g_fair = false; g_nofault = false; g_leak_ok = false; ext_live = 0; g_hwc = 2; g_allocfail = 0; g_early = 0; g_lone = 0; g_switches = 0; g_preempt = 0; g_nfault = 0;
    // strategy of this run (only used when generating)
    rng_s[0] = mix64(spec.seed); rng_s[1] = mix64(spec.seed ^ 0x5851f42d4c957f2dull) | 1;
    memset(&S, 0, sizeof S);
    if (!replaying) {
        static const u8 mode[] = { 0, 1, 1, 1, 2, 3, 3, 4 };
        S.mode = mode[rnd() % 8];
        static const u32 ps[] = { 0x10000 / 3, 0x10000 / 6, 0x10000 / 12, 0x10000 / 25, 0x10000 / 60, 0x10000 / 150 };
        S.psw = ps[rnd() % 6];
        static const u32 pr[] = { 0x8000, 0x4000, 0x2000, 0x1000, 0x400 };
        for (int k = 0; k < K_NKINDS; ++k) { S.on[k] = rnd() & 1; S.prob[k] = pr[rnd() % 5]; }
        S.prob[K_TIMEADV] >>= 3; S.prob[K_WEAKCAS] = S.prob[K_WEAKCAS] > 0x4000 ? 0x4000 : S.prob[K_WEAKCAS];
        S.prob[K_ALLOC] >>= 1;
        S.nchg = (int)(rnd() % 6); u32 horizon = 40u << (rnd() % 6); for (int i = 0; i < S.nchg; ++i) S.chg[i] = (u32)(1 + rnd() % horizon);
        S.salt = (u32)rnd(); S.smask = (4u << (rnd() % 4)) - 1; S.sprob = 32u << (rnd() % 3); S.low = -1000000;
        S.faultmask = rnd() | rnd();
        if (rnd() % 8 == 0) { g_nofault = true; }     // some runs are entirely fault-free
    }
    if (replaying) g_nofault = spec.nofault;
    out->nofault = g_nofault;
    CUR = 0; save_tls(F[0]); u64 eh0[2]; memcpy(eh0, __cxxabiv1::__cxa_get_globals(), 16);
    int t = new_fiber(main_fiber, (void*)spec.sc); CUR = t; load_tls(F[t]);
    g_active = true;
    wd_ticks = 0;
    sim_switch(&main_sp, F[t].sp);
    g_active = false; g_rt = true;
    memcpy(tls_base, tls0, tls_sz); memcpy(__cxxabiv1::__cxa_get_globals(), eh0, 16);
    if (!R.viol && !g_leak_ok && a_live) {
        char b[500]; int k = 0; u32 cnt = 0; b[0] = 0;
        for (u32 i = 0; i < NB; ++i) if (!BL[i].freed && cnt++ < 4) k += snprintf(b + k, sizeof b - k, " block #%u (%u bytes, allocated at {%x})", i, BL[i].size, BL[i].pc);
        R.viol = true; strcpy(R.cls, "leak"); snprintf(R.msg, sizeof R.msg, "%lu blocks never freed:%s", (unsigned long)a_live, b);
        hmix(0xdead); tracef("VIOLATION leak: %s", R.msg);
    }
    if (!R.viol && !g_leak_ok && ext_live) { R.viol = true; strcpy(R.cls, ext_live > 0 ? "leak" : "double-destroy"); snprintf(R.msg, sizeof R.msg, "%ld exception objects are left at the end", ext_live); hmix(0xdead); tracef("VIOLATION %s: %s", R.cls, R.msg); }
    R.hash = g_hash ^ mix64(g_steps * 31 + g_now); R.il = g_il; R.steps = g_steps; R.simtime = g_now - 1000000000ull; R.switches = g_switches; R.preempt = g_preempt; R.nfault = g_nfault; R.cov = g_cov; R.threads = (u32)NF;
    R.fair = g_fair;
    g_rt = false;
}

} // namespace sim

// ------------------------------------------------------------------------------------------------
// compiler hooks
using namespace sim;
#define HOOKPC ((u32)(u64)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_mutex_create(void*, unsigned) {} void __tsan_mutex_destroy(void*, unsigned) {} void __tsan_mutex_pre_lock(void*, unsigned) {} void __tsan_mutex_post_lock(void*, unsigned, int) {} int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; } void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {} void __tsan_mutex_post_signal(void*, unsigned) {} void __tsan_mutex_pre_divert(void*, unsigned) {} void __tsan_mutex_post_divert(void*, unsigned) {} void __tsan_acquire(void*) {} void __tsan_release(void*) {}
#define RW(n) \
 void __tsan_read##n(void* p) { access((u64)p, n, false, HOOKPC); } \
 void __tsan_write##n(void* p) { access((u64)p, n, true, HOOKPC); } \
 void __tsan_unaligned_read##n(void* p) { access((u64)p, n, false, HOOKPC); } \
 void __tsan_unaligned_write##n(void* p) { access((u64)p, n, true, HOOKPC); } \
 void __tsan_volatile_read##n(void* p) { access((u64)p, n, false, HOOKPC); } \
 void __tsan_volatile_write##n(void* p) { access((u64)p, n, true, HOOKPC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) access((u64)p, (int)n, false, HOOKPC); }
void __tsan_write_range(void* p, unsigned long n) { if (n) access((u64)p, (int)n, true, HOOKPC); }
void __tsan_vptr_update(void** p, void*) { access((u64)p, 8, true, HOOKPC); }
void __tsan_vptr_read(void** p) { access((u64)p, 8, false, HOOKPC); }
#define AT(N, TY, SZ) \
 TY __tsan_atomic##N##_load(const volatile TY* p, int mo) { return (TY)at_load((u64)p, SZ, mo, HOOKPC); } \
 void __tsan_atomic##N##_store(volatile TY* p, TY v, int mo) { at_store((u64)p, SZ, (u64)v, mo, HOOKPC); } \
 TY __tsan_atomic##N##_exchange(volatile TY* p, TY v, int mo) { return (TY)at_rmw((u64)p, SZ, XCHG, (u64)v, mo, HOOKPC); } \
 TY __tsan_atomic##N##_fetch_add(volatile TY* p, TY v, int mo) { return (TY)at_rmw((u64)p, SZ, ADD, (u64)v, mo, HOOKPC); } \
 TY __tsan_atomic##N##_fetch_sub(volatile TY* p, TY v, int mo) { return (TY)at_rmw((u64)p, SZ, SUB, (u64)v, mo, HOOKPC); } \
 TY __tsan_atomic##N##_fetch_and(volatile TY* p, TY v, int mo) { return (TY)at_rmw((u64)p, SZ, AND, (u64)v, mo, HOOKPC); } \
 TY __tsan_atomic##N##_fetch_or(volatile TY* p, TY v, int mo) { return (TY)at_rmw((u64)p, SZ, OR, (u64)v, mo, HOOKPC); } \
 TY __tsan_atomic##N##_fetch_xor(volatile TY* p, TY v, int mo) { return (TY)at_rmw((u64)p, SZ, XOR, (u64)v, mo, HOOKPC); } \
 TY __tsan_atomic##N##_fetch_nand(volatile TY* p, TY v, int mo) { return (TY)at_rmw((u64)p, SZ, NAND, (u64)v, mo, HOOKPC); } \
 bool __tsan_atomic##N##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int mo, int fmo) { u64 x = (u64)*e; bool r = at_cas((u64)p, SZ, &x, (u64)v, mo, fmo, false, HOOKPC); if (!r) *e = (TY)x; return r; } \
 bool __tsan_atomic##N##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int mo, int fmo) { u64 x = (u64)*e; bool r = at_cas((u64)p, SZ, &x, (u64)v, mo, fmo, true, HOOKPC); if (!r) *e = (TY)x; return r; }
AT(8, unsigned char, 1) AT(16, unsigned short, 2) AT(32, unsigned int, 4) AT(64, unsigned long, 8)
void __tsan_atomic_thread_fence(int mo) { at_fence(mo); }
void __tsan_atomic_signal_fence(int) {}

void __assert_fail(const char* e, const char* f, unsigned l, const char*) {
    if (!sim::active()) { fprintf(stderr, "assert %s %s:%u\n", e, f, l); abort(); }
    const char* s = strrchr(f, '/'); sim::violate("assert", "assertion failed in T%d: %s (%s:%u)", sim::cur(), e, s ? s + 1 : f, l);
}
// builtins the compiler may call for large copies: make them visible to the race detector
void* memcpy(void* d, const void* s, size_t n) { if (n && g_active && !g_rt) { access((u64)s, (int)n, false, HOOKPC); access((u64)d, (int)n, true, HOOKPC); } void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); return r; }
void* memset(void* d, int c, size_t n) { if (n && g_active && !g_rt) access((u64)d, (int)n, true, HOOKPC); void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
}
void* operator new(size_t n) { return do_new(n, 16, HOOKPC, false); }
void* operator new[](size_t n) { return do_new(n, 16, HOOKPC, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, HOOKPC, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, HOOKPC, true); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, HOOKPC, false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, HOOKPC, false); }
void operator delete(void* p) noexcept { do_delete(p, HOOKPC); }
void operator delete[](void* p) noexcept { do_delete(p, HOOKPC); }
void operator delete(void* p, size_t) noexcept { do_delete(p, HOOKPC); }
void operator delete[](void* p, size_t) noexcept { do_delete(p, HOOKPC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, HOOKPC); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, HOOKPC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, HOOKPC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p, HOOKPC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p, HOOKPC); }
