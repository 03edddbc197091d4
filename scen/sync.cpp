// async_manual_reset_event, barrier
#include "common.h"
#include "macoro/manual_reset_event.h"
#include "macoro/barrier.h"
#include "macoro/when_all.h"
#include "lib.inc"
using namespace macoro;

enum { SETS = 0, RESUMED = 1, DEC = 2, CUR = 3, W = 64 };

// ---------------------------------------------------------------- C06
struct EvState { async_manual_reset_event ev; long data[8] = {}; EvState(bool b) : ev(b) {} EvState() { SIM_CHECK(!ev.is_set(), "initially-set", "a default-constructed event is set"); } };
static task<void> ev_waiter(EvState& s, int id, int want) {
    AW(s.ev);
    SIM_CHECK(gh::at(SETS) >= want, "early-resume", "waiter %d passed the event before set() number %d began (%ld so far)", id, want, gh::at(SETS));
    SIM_CHECK(s.data[want] == want * 10, "stale-data", "waiter %d does not see the data written before set() number %d", id, want);
    gh::at(W + id)++;
}
static void do_set(EvState& s, int n) { gh::at(SETS) = n; s.ev.set(); }
// waiters against one or more concurrent set() calls
static void event_run(int nw, int nset) {
    gh::clear();
    bool pre = sim::pick(4) == 3; int exec = sim::pick(3);
    auto st = !pre && sim::pick(2) ? std::make_unique<EvState>() : std::make_unique<EvState>(pre);
    EvState& s = *st;
    for (int i = 0; i < 4; ++i) s.data[i] = i * 10;
    int want = pre ? 0 : 1;
    s.data[1] = 0;
    {
        Threads T;
        if (exec == 2) T.go([&] { auto r = sync_wait(when_all_ready(ev_waiter(s, 0, want), ev_waiter(s, 1, want))); std::get<0>(r).result(); std::get<1>(r).result(); });
        else T.go([&] { sync_wait(ev_waiter(s, 0, want)); });
        for (int w = 2; w <= nw; ++w) T.go([&, w] { sync_wait(ev_waiter(s, w, want)); });
        if (!pre) s.data[1] = 10;
        gh::at(SETS) = 1;
        for (int i = 1; i < nset; ++i) T.go([&] { s.ev.set(); });   // data[1] was written before this thread existed
        if (sim::pick(2)) sim::point();
        s.ev.set();
        SIM_CHECK(s.ev.is_set(), "not-set", "is_set() is false after set()");
    }
    SIM_CHECK(gh::at(W) == 1, "resume-count", "waiter 0 resumed %ld times", gh::at(W));
    if (exec == 2) SIM_CHECK(gh::at(W + 1) == 1, "resume-count", "waiter 1 resumed %ld times", gh::at(W + 1));
    for (int w = 2; w <= nw; ++w) SIM_CHECK(gh::at(W + w) == 1, "resume-count", "waiter %d resumed %ld times", w, gh::at(W + w));
}
SCENARIO(C06, one_waiter) { event_run(1, 1); }
SCENARIO(C06, many_waiters) { event_run(3 + some(1, 6), 1); }
SCENARIO(C06, many_waiters_two_setters) { event_run(2, 2); }
// phases: the only waiter resets the event itself, so the next wait must need the next set()
static task<void> ev_phases(EvState& s, EvState& ack, int n) {
    for (int i = 1; i <= n; ++i) {
        AW(s.ev);
        SIM_CHECK(gh::at(SETS) == i, "early-resume", "wait number %d passed after %ld set() calls", i, gh::at(SETS));
        SIM_CHECK(s.data[i] == i * 10, "stale-data", "data of phase %d not visible", i);
        s.ev.reset();
        SIM_CHECK(!s.ev.is_set(), "still-set", "is_set() is true after reset()");
        gh::at(RESUMED) = i;
        ack.ev.set();
    }
}
static task<void> ev_driver(EvState& s, EvState& ack, int n) {
    for (int i = 1; i <= n; ++i) {
        s.data[i] = i * 10;
        do_set(s, i);
        AW(ack.ev);
        SIM_CHECK(gh::at(RESUMED) == i, "early-resume", "acknowledgement %d arrived early", i);
        ack.ev.reset();
    }
}
SCENARIO(C06, set_reset_phases) {
    gh::clear(); EvState s(false), ack(false); int n = 1 + some(3, 7);
    if (sim::pick(3) == 2) { auto r = sync_wait(when_all_ready(ev_phases(s, ack, n), ev_driver(s, ack, n))); std::get<0>(r).result(); std::get<1>(r).result(); }
    else { Threads T; T.go([&] { sync_wait(ev_phases(s, ack, n)); }); sync_wait(ev_driver(s, ack, n)); }
    SIM_CHECK(gh::at(RESUMED) == n, "resume-count", "only %ld of %d phases ran", gh::at(RESUMED), n);
}
// the event lives exactly as long as its only waiter needs it: set() may not touch it after resuming
static task<void> ev_owner(std::unique_ptr<EvState>* p) {
    AW((*p)->ev);
    SIM_CHECK((*p)->data[1] == 10, "stale-data", "data not visible");
    p->reset(); gh::at(W)++;
}
SCENARIO(C06, event_destroyed_by_waiter) {
    gh::clear(); auto p = std::make_unique<EvState>(false); EvState* s = p.get(); bool park = sim::pick(2);
    auto e = ev_owner(&p); std::thread t;
    // started first so that the waiter (or set) may come first; sync_wait decides on its own thread
    { Threads T; T.go([&] { sync_wait(std::move(e)); }); if (park) sim::point(); s->data[1] = 10; s->ev.set(); }
    SIM_CHECK(gh::at(W) == 1, "resume-count", "waiter resumed %ld times", gh::at(W));
}
// random set/reset storm: whenever the last operation is set(), every waiter passes
SCENARIO(C06, set_reset_storm) {
    gh::clear(); EvState s(false); s.data[1] = 10; gh::at(SETS) = 1; int nw = 1 + some(3, 6), nr = 1 + some(3, 5);
    Threads T;
    for (int w = 0; w < nw; ++w) T.go([&, w] { sync_wait(ev_waiter(s, w, 1)); });
    { Threads R; for (int i = 0; i < nr; ++i) R.go([&, i] { for (int k = 0; k < 2; ++k) { if ((i + k) & 1) s.ev.set(); else s.ev.reset(); } }); }
    s.ev.set(); T.join();
    for (int w = 0; w < nw; ++w) SIM_CHECK(gh::at(W + w) == 1, "resume-count", "waiter %d resumed %ld times", w, gh::at(W + w));
}

// ---------------------------------------------------------------- C07
struct BarState { barrier b; long data[16] = {}; BarState(size_t n) : b(n) {} };
static task<void> bar_waiter(std::unique_ptr<BarState>* own, BarState& s, int n, bool destroy) {
    AW(s.b);
    SIM_CHECK(gh::at(DEC) == n, "early-resume", "barrier released its waiter after %ld of %d decrements", gh::at(DEC), n);
    for (int i = 0; i < n; ++i) SIM_CHECK(s.data[i] == i + 5, "stale-data", "work of decrementer %d not visible after the barrier", i);
    gh::at(RESUMED)++;
    if (destroy) own->reset();
}
static void bar_run(int n, bool destroy) {
    gh::clear();
    int style = sim::pick(3);
    auto own = std::make_unique<BarState>(style == 0 ? n : style == 1 ? 0 : 1);
    BarState& s = *own;
    if (style == 1) SIM_CHECK(s.b.add(n) == (size_t)n, "count", "add(%d) returned the wrong count", n);
    if (style == 2) for (int i = 1; i < n; ++i) SIM_CHECK(s.b.increment() == (size_t)i + 1, "count", "increment() returned the wrong count");
    SIM_CHECK(s.b.count() == (size_t)n, "count", "count() is %zu with %d outstanding", s.b.count(), n);
    {
        Threads T;
        auto dec = [&](int i) { s.data[i] = i + 5; if (gh::at(CUR)) {} gh::at(DEC)++; s.b.decrement(); };
        for (int i = 0; i < n; ++i) T.go([&, i] { dec(i); });
        sync_wait(bar_waiter(&own, s, n, destroy));
    }
    SIM_CHECK(gh::at(RESUMED) == 1, "resume-count", "waiter resumed %ld times", gh::at(RESUMED));
}
SCENARIO(C07, one) { bar_run(1, false); }
SCENARIO(C07, many) { bar_run(1 + some(3, 11), false); }
SCENARIO_W(C07, destroyed_by_waiter, 2) { bar_run(1 + some(3, 11), true); }
// children that add children: the count never touches zero before the last is done
static void bar_child(BarState& s, Threads& T, int depth) {
    if (depth) { s.b.increment(); gh::at(CUR)++; T.go([&s, &T, depth] { (void)T; gh::at(DEC)++; s.data[depth] = depth + 5; s.b.decrement(); }); }
    gh::at(DEC)++; s.b.decrement();
}
SCENARIO(C07, grows_while_counting) {
    gh::clear(); int depth = sim::pick(3);
    BarState s(1); Threads inner;
    auto w = [&]() -> task<void> { AW(s.b); SIM_CHECK(gh::at(DEC) == gh::at(CUR) + 1, "early-resume", "released after %ld of %ld decrements", gh::at(DEC), gh::at(CUR) + 1); for (int d = 1; d <= gh::at(CUR); ++d) {} gh::at(RESUMED)++; };
    { Threads T; T.go([&] { bar_child(s, inner, depth); }); sync_wait(w()); }
    inner.join();
    SIM_CHECK(gh::at(RESUMED) == 1, "resume-count", "waiter resumed %ld times", gh::at(RESUMED));
    SIM_CHECK(s.b.count() == 0, "count", "count() is %zu at the end", s.b.count());
}
// reuse: several rounds on one barrier
static task<void> bar_rounds(BarState& s, Threads& T, int rounds, int n) {
    for (int r = 0; r < rounds; ++r) {
        s.b.add(n);
        for (int i = 0; i < n; ++i) T.go([&s, i, r] { s.data[i] = r * 100 + i; gh::at(DEC)++; s.b.decrement(); });
        AW(s.b);
        SIM_CHECK(gh::at(DEC) == (r + 1) * n, "early-resume", "round %d released after %ld of %d decrements", r, gh::at(DEC), (r + 1) * n);
        for (int i = 0; i < n; ++i) SIM_CHECK(s.data[i] == r * 100 + i, "stale-data", "round %d: work of %d not visible", r, i);
        gh::at(RESUMED)++;
    }
}
SCENARIO(C07, reused) {
    gh::clear(); BarState s(0); Threads T; int rounds = 1 + sim::pick(3), n = sim::pick(3);
    sync_wait(bar_rounds(s, T, rounds, n)); T.join();
    SIM_CHECK(gh::at(RESUMED) == rounds, "resume-count", "%ld of %d rounds completed", gh::at(RESUMED), rounds);
}
