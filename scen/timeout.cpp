// timeout and take_until
#include "hop.h"
#include "macoro/thread_pool.h"
#include "macoro/timeout.h"
#include "macoro/take_until.h"
#include "macoro/manual_reset_event.h"
#include "macoro/when_all.h"
#include "lib.inc"
using namespace macoro;
#ifdef MACORO_HAS_STD_STOP_TOKEN
#define AWT(t) (co_await t)      // std::stop_token cannot be awaited from a macro-style coroutine
#else
#define AWT(t) AW(t)
#endif

enum { LIVE = 1, WORK_DONE = 2, TRIG_DONE = 3, TRIG_STOP = 4, RESUMED = 5, USER_STOP = 6, FIRED = 16, FIREDAT = 32, DONE = 48, DONEAT = 64, BEGUN = 80 };
static const sim::u64 SEC = 1000000000ull;
struct Live { Live() { gh::at(LIVE)++; } Live(const Live&) { gh::at(LIVE)++; } ~Live() { gh::at(LIVE)--; } };
static void no_live(const char* when) { SIM_CHECK(gh::at(LIVE) == 0, gh::at(LIVE) > 0 ? "frame-not-destroyed" : "double-destroy", "%ld coroutine locals are alive %s", gh::at(LIVE), when); }
static bool exact() { return sim::early_jumps() == 0; }   // otherwise the clock ran away from threads that were ready
using S = std::chrono::seconds;

// ---------------------------------------------------------------- C20
// a callback on a timeout's token
struct Watch {
    int id; sim::u64 from; int sec; std::optional<stop_callback> cb;
    Watch(int id, stop_token t, sim::u64 from, int sec, long frac = 0) : id(id), from(from + frac), sec(sec) { cb.emplace(std::move(t), [this] { fire(); }); }
    void fire() {
        SIM_CHECK(++gh::at(FIRED + id) == 1, "ran-twice", "the stop of timeout %d was delivered %ld times", id, gh::at(FIRED + id));
        gh::at(FIREDAT + id) = (long)sim::now_ns();
        if (!gh::at(USER_STOP)) SIM_CHECK(sim::now_ns() >= from + sec * SEC, "early-stop", "timeout %d of %d s requested stop after %.9f s", id, sec, (sim::now_ns() - from) / 1e9);
    }
};
static task<void> await_timeout(timeout& t, int id, stop_token tk) {
    Live l; AWT(t);
    SIM_CHECK(++gh::at(DONE + id) == 1, "ran-twice", "the awaiter of timeout %d resumed %ld times", id, gh::at(DONE + id));
    gh::at(DONEAT + id) = (long)sim::now_ns();
    SIM_CHECK(tk.stop_requested() && t.get_token().stop_requested() && t.get_source().stop_requested(), "not-stopped", "timeout %d completed without requesting stop", id);
}
static void times(int id, sim::u64 t0, sim::u64 sec) {
    if (!exact()) return;
    SIM_CHECK((sim::u64)gh::at(FIREDAT + id) < t0 + sec * SEC + 5 * SEC, "late-stop", "timeout %d requested stop after %.3f s, expected after %lu s", id, (gh::at(FIREDAT + id) - t0) / 1e9, (unsigned long)sec);
    SIM_CHECK((sim::u64)gh::at(DONEAT + id) < t0 + sec * SEC + 5 * SEC, "late-completion", "timeout %d completed after %.3f s, expected after %lu s", id, (gh::at(DONEAT + id) - t0) / 1e9, (unsigned long)sec);
}
SCENARIO_W(C20, expire, 2) {
    gh::clear(); int n = 1 + sim::pick(3), nt = 1 + sim::pick(2), when = sim::pick(3); std::vector<int> sec; for (int i = 0; i < n; ++i) sec.push_back(sim::pick(20) == 19 ? 3600 << sim::pick(6) : 10 * (int)sim::pick(4));
    bool moved = sim::pick(3) == 2, idle = sim::pick(2);
    {
        thread_pool::work w; thread_pool p(nt, w); std::vector<std::unique_ptr<timeout>> ts; std::vector<std::unique_ptr<Watch>> ws; sim::u64 t0 = sim::now_ns();
        for (int i = 0; i < n; ++i) { sim::u64 f = sim::now_ns(); long fr = fraction(); ts.push_back(in_some_unit((long)(sec[i] * SEC) + fr, [&](auto d) { return std::make_unique<timeout>(p, d); })); ws.push_back(std::make_unique<Watch>(i, ts[i]->get_token(), f, sec[i], fr)); }
        if (moved) for (int i = 0; i < n; ++i) {                           // the timeout that was moved from still hands out the token
            auto& t = ts[i]; auto u = std::make_unique<timeout>(std::move(*t)); if (sim::pick(2)) { sim::u64 f = ws[i]->from; ws[i].reset(); if (!gh::at(FIRED + i)) ws[i] = std::make_unique<Watch>(i, sim::pick(2) ? t->get_token() : t->get_source().get_token(), f, sec[i]); } t = std::move(u); }
        if (idle) std::this_thread::sleep_for(S(15));
        if (when == 0) { std::vector<task<void>> as; for (int i = 0; i < n; ++i) as.push_back(await_timeout(*ts[i], i, ts[i]->get_token())); auto r = sync_wait(when_all_ready(std::move(as))); for (auto& x : r) x.result(); }
        else if (when == 1) for (int i = n - 1; i >= 0; --i) sync_wait(await_timeout(*ts[i], i, ts[i]->get_token()));
        else { Threads T; for (int i = 0; i < n; ++i) T.go([&, i] { sync_wait(await_timeout(*ts[i], i, ts[i]->get_token())); }); }
        for (int i = 0; i < n; ++i) { SIM_CHECK(gh::at(FIRED + i) == 1 && gh::at(DONE + i) == 1, "not-stopped", "timeout %d: %ld stops, %ld completions", i, gh::at(FIRED + i), gh::at(DONE + i)); if (when != 1 && !idle) times(i, t0, sec[i]); else if (exact()) SIM_CHECK((sim::u64)gh::at(FIREDAT + i) < t0 + (sec[i] + 5) * SEC, "late-stop", "timeout %d", i); }
        ws.clear(); ts.clear(); w.reset();
    }
    no_live("at the end");
}
// stopped through the timeout, through a copy of its source, or through the token it was given
static void stop_early(bool race) {
    gh::clear(); int nt = 1 + sim::pick(2), sec = race ? (int)sim::pick(3) : 100, how = sim::pick(4), at = race ? (int)sim::pick(3) : 0, nstop = 1 + sim::pick(2); bool move = sim::pick(2), main_stops = sim::pick(2);
    gh::at(USER_STOP) = 1;
    {
        thread_pool::work w; thread_pool p(nt, w); stop_source parent; sim::u64 t0 = sim::now_ns();
        bool pre = how == 3 && sim::pick(2); if (pre) parent.request_stop();
        auto t = std::make_unique<timeout>(p, S(sec), how >= 2 ? parent.get_token() : stop_token()); auto ws = std::make_unique<Watch>(0, t->get_token(), t0, sec);
        stop_token tk = t->get_token(); timeout target;
        auto stop = [&, s = t->get_source(), old = t.get()]() mutable { if (how == 0) { if (move || nstop > 1) s.request_stop(); else old->request_stop(); } else if (how == 1) s.request_stop(); else parent.request_stop(); };
        {
            Threads T;
            for (int i = 0; i < nstop; ++i) if (!main_stops || i) T.go([stop, at, j = (int)sim::pick(5)]() mutable { if (at) std::this_thread::sleep_for(S(at)); jitter(j); stop(); });
            if (move) { target = std::move(*t); if (main_stops && how < 2 && sim::pick(2)) { t->request_stop(); main_stops = false; } if (sim::pick(2)) t.reset(); } if (main_stops) stop();
            timeout& cur = move ? target : *t;
            sync_wait(await_timeout(cur, 0, tk));
        }
        SIM_CHECK(gh::at(FIRED) == 1, "not-stopped", "the stop was delivered %ld times", gh::at(FIRED)); times(0, t0, race ? 3 : 0);
        ws.reset();
        // a finished timeout can be used again
        if (sim::pick(3) == 2) {
            timeout& cur = move ? target : *t; gh::at(USER_STOP) = 0; sim::u64 f = sim::now_ns(); int s2 = 10 * (1 + sim::pick(2)); bool tok = sim::pick(2); stop_source par2; long fr = fraction();
            in_some_unit((long)(s2 * SEC) + fr, [&](auto d) { cur.reset(p, d, tok ? par2.get_token() : stop_token()); }); SIM_CHECK(!cur.get_token().stop_requested() || !exact(), "early-stop", "a timeout that was reset is stopped at once");
            Watch w2(1, cur.get_token(), f, s2, fr); bool cut = tok && sim::pick(2);
            if (cut) { gh::at(USER_STOP) = 1; par2.request_stop(); }
            sync_wait(await_timeout(cur, 1, cur.get_token())); SIM_CHECK(gh::at(FIRED + 1) == 1, "not-stopped", "the stop after a reset was delivered %ld times", gh::at(FIRED + 1)); times(1, f, cut ? 0 : s2);
        }
        t.reset(); w.reset();
        target = timeout();
    }
    no_live("at the end");
}
SCENARIO_W(C20, stopped, 2) { stop_early(false); }
SCENARIO_W(C20, stop_or_expire, 2) { stop_early(true); }
// coroutines that wait for the token of a timeout
static eager_task<void> on_token(stop_token t, int id, sim::u64 from, int sec) {
    Live l; AWT(t);
    if (!gh::at(USER_STOP)) SIM_CHECK(sim::now_ns() >= from + sec * SEC, "early-stop", "a coroutine waiting for a timeout of %d s resumed after %.9f s", sec, (sim::now_ns() - from) / 1e9);
    SIM_CHECK(t.stop_requested(), "not-requested", "resumed without a request");
    SIM_CHECK(++gh::at(DONE + id) == 1, "ran-twice", "waiter %d", id);
}
// timeouts longer than the clock can tell end by a stop request only
SCENARIO(C20, ages) {
    gh::clear(); using namespace std::chrono; int how = sim::pick(3), len = sim::pick(4), nap = sim::pick(2);
    {
        thread_pool::work w; thread_pool p(1 + sim::pick(2), w); stop_source src;
        auto make = [&]() { stop_token tk = how == 2 ? src.get_token() : stop_token{}; switch (len) { case 0: return std::make_unique<timeout>(p, hours::max(), tk); case 1: return std::make_unique<timeout>(p, milliseconds::max(), tk); case 2: return std::make_unique<timeout>(p, nanoseconds::max(), tk); default: return std::make_unique<timeout>(p, seconds::max(), tk); } };
        auto t = make(); if (nap) std::this_thread::sleep_for(S(20)); else jitter(3);
        SIM_CHECK(!t->get_token().stop_requested(), "early-stop", "a timeout of centuries was over at once");
        gh::at(USER_STOP) = 1;
        if (how == 0) t->request_stop(); else if (how == 1) t->get_source().request_stop(); else src.request_stop();
        sync_wait(await_timeout(*t, 0, t->get_token())); t.reset(); w.reset();
    }
    no_live("at the end");
}
SCENARIO(C20, waiters) {
    gh::clear(); int n = 1 + sim::pick(3), sec = sim::pick(3), nt = 1 + sim::pick(2), moved = sim::pick(2); gh::at(USER_STOP) = sim::pick(2);
    {
        thread_pool::work w; thread_pool p(nt, w); sim::u64 t0 = sim::now_ns(); auto t = std::make_unique<timeout>(p, S(sec)); std::vector<std::unique_ptr<eager_task<void>>> ts(n);
        {
            Threads T; if (gh::at(USER_STOP)) T.go([s = t->get_source(), j = (int)sim::pick(4)]() mutable { jitter(j); s.request_stop(); });
            for (int i = 0; i < n; ++i) { ts[i] = std::make_unique<eager_task<void>>(on_token(t->get_token(), 1 + i, t0, sec)); if (moved && i == 0) { auto u = std::make_unique<timeout>(std::move(*t)); t = std::move(u); } }
            for (auto& x : ts) sync_wait(*x);
            sync_wait(await_timeout(*t, 0, t->get_token()));
        }
        for (int i = 0; i < n; ++i) SIM_CHECK(gh::at(DONE + 1 + i) == 1, "lost-resume", "waiter %d", i);
        ts.clear(); t.reset(); w.reset();
    }
    no_live("at the end");
}
SCENARIO(C20, no_memory) {
    gh::clear(); gh::at(USER_STOP) = 1; int nt = 1 + sim::pick(2), sec = sim::pick(3); stop_source parent; bool tok = sim::pick(2);
    {
        thread_pool::work w; thread_pool p(nt, w); timeout t; bool ok = false;
        for (int i = 0; i < 3 && !ok; ++i) { sim::alloc_faults(true); try { timeout u(p, S(sec), tok ? parent.get_token() : stop_token()); ok = true; t = std::move(u); } catch (std::bad_alloc&) { sim::probe("a timeout could not be created for lack of memory"); } sim::alloc_faults(false); }
        if (ok) { if (sim::pick(2)) parent.request_stop(); sync_wait(await_timeout(t, 0, t.get_token())); }
        w.reset();
    }
    no_live("at the end");
}

// ---------------------------------------------------------------- C21
enum End { VALUE, VOID_, THROW_ };
struct WorkSpec { int id; int sec; bool honour, fail, hop; };   // sec: own time; honour: waits for the token instead
static task<void> work_steps(thread_pool& p, Exec& e, stop_token t, WorkSpec s) {
    Live l; SIM_CHECK(++gh::at(BEGUN) == 1, "ran-twice", "the work ran %ld times", gh::at(BEGUN));
    if (s.hop) co_await e.hop();
    if (s.honour) { co_await t; SIM_CHECK(t.stop_requested(), "early-resume", "the work's token resumed it without a request"); }
    else if (s.sec >= 0) AW(p.schedule_after(S(s.sec)));
    SIM_CHECK(!gh::at(TRIG_STOP) || s.honour, "early-stop", "the trigger was stopped before the work finished");
    gh::at(WORK_DONE) = (long)sim::stamp();
    if (s.fail) throw_fail(s.id);
}
static task<Val> work_val(thread_pool& p, Exec& e, stop_token t, WorkSpec s) { Live l; co_await work_steps(p, e, t, s); co_return Val(s.id * 7); }
static task<void> work_void(thread_pool& p, Exec& e, stop_token t, WorkSpec s) { Live l; co_await work_steps(p, e, t, s); }
static task<Brittle> work_brittle(thread_pool& p, Exec& e, stop_token t, WorkSpec s) { Live l; Brittle b(s.id * 7); co_await work_steps(p, e, t, s); co_return std::move(b); }
static eager_task<Val> work_eager(thread_pool& p, Exec& e, stop_token t, WorkSpec s) { Live l; co_await work_steps(p, e, t, s); co_return Val(s.id * 7); }
static task<int> work_macro(thread_pool& p, Exec& e, stop_token t, WorkSpec s) {
    MC_BEGIN(task<int>, &p, &e, t, s, l = Live{});
    MC_AWAIT(work_steps(p, e, t, s));
    MC_RETURN(s.id * 7);
    MC_END();
}
// a hand-made trigger: fires after some time, or when stopped; may throw; records when it is stopped and finished
struct Trigger {
    std::unique_ptr<stop_source> src = std::make_unique<stop_source>(); eager_task<void> t;
    void request_stop() { SIM_CHECK(gh::at(WORK_DONE), "early-stop", "the trigger was stopped before the work finished"); gh::at(TRIG_STOP)++; src->request_stop(); }
    auto operator co_await() { return t.operator co_await(); }
    static eager_task<void> run(thread_pool& p, Exec& e, stop_source s, int sec, bool fail, bool hop) {
        Live l; if (sec == 0) {} else AW(p.schedule_after(S(sec), s.get_token()));
        if (hop) co_await e.hop();
        gh::at(TRIG_DONE) = (long)sim::stamp(); s.request_stop(); if (fail) throw_fail(99);
    }
};
template<class W, class U> static task<void> consume(W w, U u, WorkSpec s, stop_token ut) {
    Live l; bool threw = false;
    try {
        if constexpr (std::is_same_v<W, task<void>>) co_await take_until(std::move(w), std::move(u));
        else { auto v = co_await take_until(std::move(w), std::move(u)); if constexpr (std::is_same_v<decltype(v), int>) SIM_CHECK(v == s.id * 7, "wrong-result", "got %d", v); else SIM_CHECK(v.id() == s.id * 7, "wrong-result", "got %d", v.id()); }
    } catch (Fail& f) { threw = true; SIM_CHECK(Brittle::burnt() ? f.id == Brittle::ID : s.fail && f.id == s.id, "wrong-exception", "got exception %d from work %d", f.id, s.id); }
    SIM_CHECK(threw == (s.fail || Brittle::burnt()), "lost-exception", "the work threw, its awaiter got a value");
    SIM_CHECK(gh::at(WORK_DONE) && gh::at(BEGUN) == 1, "early-resume", "the awaiter resumed before the work finished");
    if (!std::is_same_v<U, timeout>) { SIM_CHECK(gh::at(TRIG_STOP) == 1, "not-stopped", "the trigger was asked to stop %ld times", gh::at(TRIG_STOP)); SIM_CHECK(gh::at(TRIG_DONE), "early-resume", "the awaiter resumed before the trigger finished"); }
    SIM_CHECK(ut.stop_requested(), "not-stopped", "the trigger's token is not stopped after take_until");
    SIM_CHECK(++gh::at(RESUMED) == 1, "resume-count", "the awaiter resumed %ld times", gh::at(RESUMED)); gh::at(DONEAT) = (long)sim::now_ns();
}
template<class U> static void race_once(thread_pool& p, Exec& e, U u, stop_token ut, WorkSpec s, int kind) {
    switch (kind) {
    case 0: sync_wait(consume(work_val(p, e, ut, s), std::move(u), s, ut)); break;
    case 1: sync_wait(consume(work_void(p, e, ut, s), std::move(u), s, ut)); break;
    case 2: sync_wait(consume(work_eager(p, e, ut, s), std::move(u), s, ut)); break;
    case 4: Brittle::arm(); sync_wait(consume(work_brittle(p, e, ut, s), std::move(u), s, ut)); break;
    case 3: sync_wait(consume(work_macro(p, e, ut, s), std::move(u), s, ut)); break;
    }
}
static void race_run(bool hand_made, int tsec, int wsec) {
    gh::clear(); int nt = 1 + sim::pick(2), kind = sim::pick(5); WorkSpec s{ 1 + (int)sim::pick(3), wsec, false, sim::pick(4) == 3, sim::pick(2) != 0 }; s.honour = sim::pick(2);
    {
        thread_pool::work w; thread_pool p(nt, w); Exec e(1); sim::u64 t0 = sim::now_ns();
        if (hand_made) { Trigger t; bool f = sim::pick(3) == 2, h = sim::pick(2); t.t = Trigger::run(p, e, *t.src, tsec, f, h); stop_token ut = t.src->get_token(); race_once(p, e, std::move(t), ut, s, kind); }
        else { timeout t(p, S(tsec)); stop_token ut = t.get_token(); race_once(p, e, std::move(t), ut, s, kind); }
        SIM_CHECK(gh::at(RESUMED) == 1, "resume-count", "the awaiter resumed %ld times", gh::at(RESUMED));
        sim::u64 want = s.honour ? tsec : wsec < 0 ? 0 : wsec;
        SIM_CHECK((sim::u64)gh::at(DONEAT) >= t0 + want * SEC, "early-resume", "take_until finished after %.9f s, the work takes %lu s", (gh::at(DONEAT) - t0) / 1e9, (unsigned long)want);
        if (exact()) SIM_CHECK((sim::u64)gh::at(DONEAT) < t0 + (want + 5) * SEC, "late-resume", "take_until finished after %.3f s; the work takes %lu s and the trigger had been stopped", (gh::at(DONEAT) - t0) / 1e9, (unsigned long)want);
        w.reset();
    }
    no_live("at the end");
}
SCENARIO_W(C21, timeout_long, 2) { race_run(false, 100, (int)sim::pick(3) * 10 - 10); }
SCENARIO_W(C21, timeout_close, 2) { race_run(false, (int)sim::pick(3), (int)sim::pick(4) - 1); }
SCENARIO_W(C21, trigger_long, 2) { race_run(true, 100, (int)sim::pick(3) * 10 - 10); }
SCENARIO_W(C21, trigger_close, 2) { race_run(true, (int)sim::pick(3), (int)sim::pick(4) - 1); }
