// eager_task, lazy task, sync_wait, start_on / transfer_to
#include "hop.h"
#include "macoro/start_on.h"
#include "macoro/inline_scheduler.h"
#include "macoro/wrap.h"
#include "macoro/when_all.h"
#include "macoro/thread_pool.h"
#include "lib.inc"
using namespace macoro;

enum { STARTED = 0, FINISHED = 1, LIVE = 2, TID = 3, LOG = 64 };
struct Live { Live() { gh::at(LIVE)++; } Live(const Live&) { gh::at(LIVE)++; } ~Live() { gh::at(LIVE)--; } };
static void no_live(const char* when) { SIM_CHECK(gh::at(LIVE) == 0, gh::at(LIVE) > 0 ? "frame-not-destroyed" : "double-destroy", "%ld coroutine locals are alive %s", gh::at(LIVE), when); }

// what the coroutine does, drawn up front
struct Plan { int hops[3]; int fail; int val; };
static Plan plan() { Plan p; for (auto& h : p.hops) h = sim::pick(3); p.fail = sim::pick(4) == 3 ? 1 + sim::pick(3) : 0; p.val = 17 + sim::pick(3); return p; }

// fails when it is destroyed, which is after the value was returned
struct LateFail { int id; bool on; ~LateFail() noexcept(false) { if (on) throw_fail(id); } };

// fails when it is turned into the value that is returned
struct Bad { int id; operator Val() const { throw_fail(id); } };

template<class Tk> static Tk work_int(Exec& e, Plan p) {
    Live l; gh::at(STARTED)++;
    for (int h : p.hops) if (h == 1) co_await e.hop(); else if (h == 2) sim::point();
    gh::at(FINISHED)++;
    if (p.fail) throw_fail(p.val);
    co_return p.val;
}
template<class Tk> static Tk work_val(Exec& e, Plan p) {
    Live l; gh::at(STARTED)++; LateFail late{ p.val, p.fail == 2 }; Val v(p.val);
    for (int h : p.hops) if (h == 1) co_await e.hop(); else if (h == 2) sim::point();
    gh::at(FINISHED)++;
    if (p.fail == 1) throw_fail(p.val);
    if (p.fail == 3) co_return Bad{ p.val };
    co_return std::move(v);
}
template<class Tk> static Tk work_ref(Exec& e, Plan p, Val& out) {
    Live l; gh::at(STARTED)++;
    for (int h : p.hops) if (h == 1) co_await e.hop(); else if (h == 2) sim::point();
    out = Val(p.val); gh::at(FINISHED)++;
    if (p.fail) throw_fail(p.val);
    co_return out;
}
// a result that can be copied; what it was moved from shows
struct CVal {
    Val v; CVal() {} explicit CVal(int i) : v(i) {}
    CVal(CVal&&) = default; CVal& operator=(CVal&&) = default;
    CVal(const CVal& o) { if (o.v.p) v = Val(o.v.id()); }
    CVal& operator=(const CVal& o) { return *this = CVal(o); }
    int id() const { return v.id(); }
};
template<class Tk> static Tk work_cval(Exec& e, Plan p) {
    Live l; gh::at(STARTED)++; for (int h : p.hops) if (h == 1) co_await e.hop(); else if (h == 2) sim::point();
    gh::at(FINISHED)++; if (p.fail) throw_fail(p.val);
    co_return CVal(p.val);
}
template<class Tk> static Tk work_cref(Exec& e, Plan p, CVal& out) {
    Live l; gh::at(STARTED)++; for (int h : p.hops) if (h == 1) co_await e.hop(); else if (h == 2) sim::point();
    out = CVal(p.val); gh::at(FINISHED)++; if (p.fail) throw_fail(p.val);
    co_return out;
}
template<class Tk> static Tk work_void(Exec& e, Plan p, Val& out) {
    Live l; gh::at(STARTED)++;
    for (int h : p.hops) if (h == 1) co_await e.hop(); else if (h == 2) sim::point();
    out = Val(p.val); gh::at(FINISHED)++;
    if (p.fail) throw_fail(p.val);
}
// the same in macro style
template<class Tk> static Tk work_macro(Exec& e, Plan p, Val& out) {
    MC_BEGIN(Tk, &e, p, &out, l = Live{}, i = 0);
    gh::at(STARTED)++;
    for (i = 0; i < 3; ++i) if (p.hops[i] == 1) { MC_AWAIT(e.hop()); }
    out = Val(p.val); gh::at(FINISHED)++;
    if (p.fail) throw_fail(p.val);
    MC_RETURN(p.val);
    MC_END();
}
static void result_ok(const Plan& p, int got, int style) {
    SIM_CHECK(!p.fail, "lost-exception", "awaiting a task that threw %d produced the value %d", p.val, got);
    SIM_CHECK(got == p.val, "wrong-result", "awaiting a task that returned %d produced %d (style %d)", p.val, got, style);
    SIM_CHECK(gh::at(FINISHED) == gh::at(STARTED), "early-resume", "the awaiter ran before the task finished");
}
static void error_ok(const Plan& p, int id) {
    SIM_CHECK(p.fail && id == p.val, "wrong-exception", "awaiter got exception %d, the task %s %d", id, p.fail ? "threw" : "returned", p.val);
}

// ---------------------------------------------------------------- C08 eager_task
// The owner awaits (or polls) an eager_task that completes on another thread, then destroys it.
template<class Tk, class Get> static void await_in(int style, Tk t, const Plan& p, Get get) {
    // style 0: sync_wait(lvalue)  1: sync_wait(rvalue)  2: from a task  3: when_ready then result  4: poll is_ready then await  5: twice
    try {
        int got = -1;
        if (style == 0) got = get(sync_wait(t));
        else if (style == 1) got = get(sync_wait(std::move(t)));
        else if (style == 2) { auto f = [&]() -> task<int> { co_return get(AW(std::move(t))); }; got = sync_wait(f()); }
        else if (style == 3) { auto f = [&]() -> task<int> { AW(t.when_ready()); SIM_CHECK(t.is_ready(), "not-ready", "is_ready() is false after when_ready()"); co_return get(AW(t)); }; got = sync_wait(f()); }
        else if (style == 4) { for (int i = 0; i < 4; ++i) { if (t.is_ready()) { SIM_CHECK(gh::at(FINISHED) == 1, "early-ready", "is_ready() is true before the body finished"); break; } sim::point(); } got = get(sync_wait(t)); }
        else { auto f = [&]() -> task<int> { co_await t.when_ready(); co_return get(co_await t); }; got = sync_wait(f()); Tk u = std::move(t); SIM_CHECK(u.is_ready(), "not-ready", "is_ready() is false after the result was taken"); }
        result_ok(p, got, style);
    } catch (Fail& e) { error_ok(p, e.id); }
}
template<class Tk> static void eager_run(Tk (*mk)(Exec&, Plan)) {
    gh::clear(); Plan p = plan(); int style = sim::pick(6);
    { Exec e(1 + sim::pick(2)); await_in(style, mk(e, p), p, [](auto&& v) { if constexpr (std::is_same_v<std::decay_t<decltype(v)>, Val>) return v.id(); else return (int)v; }); }
    SIM_CHECK(gh::at(STARTED) == 1 && gh::at(FINISHED) == 1, "run-count", "the body started %ld and finished %ld times", gh::at(STARTED), gh::at(FINISHED));
    no_live("after the task was destroyed");
}
SCENARIO_W(C08, int_result, 2) { eager_run(&work_int<eager_task<int>>); }
SCENARIO(C08, move_only_result) { eager_run(&work_val<eager_task<Val>>); }
SCENARIO(C08, reference_result) {
    gh::clear(); Plan p = plan(); int style = sim::pick(6); Val out;
    { Exec e(1 + sim::pick(2)); await_in(style, work_ref<eager_task<Val&>>(e, p, out), p, [&](Val& v) { SIM_CHECK(&v == &out, "wrong-result", "co_await returned a different object"); return v.id(); }); }
    no_live("after the task was destroyed");
}
SCENARIO(C08, void_result) {
    gh::clear(); Plan p = plan(); Val out; bool ready = sim::pick(2);
    { Exec e(1 + sim::pick(2)); auto t = work_void<eager_task<void>>(e, p, out);
      try { if (ready) { auto f = [&]() -> task<void> { co_await t.when_ready(); co_await t; }; sync_wait(f()); } else sync_wait(t);
            SIM_CHECK(!p.fail, "lost-exception", "the exception of a void task was lost"); SIM_CHECK(out.id() == p.val, "stale-data", "effects of the task are not visible to its awaiter"); }
      catch (Fail& x) { error_ok(p, x.id); } }
    no_live("after the task was destroyed");
}
SCENARIO(C08, macro_style) {
    gh::clear(); Plan p = plan(); int style = sim::pick(6); Val out;
    { Exec e(1 + sim::pick(2)); await_in(style, work_macro<eager_task<int>>(e, p, out), p, [](int v) { return v; }); }
    no_live("after the task was destroyed");
}
SCENARIO(C08, make_eager) {
    gh::clear(); Plan p = plan(); int style = sim::pick(6);
    int how = sim::pick(4); Val out;
    { Exec e(1 + sim::pick(2)); auto get = [](auto&& v) { if constexpr (std::is_same_v<std::decay_t<decltype(v)>, Val>) return v.id(); else return (int)v; };
      if (how == 0) await_in(style, make_eager(work_int<task<int>>(e, p)), p, get);
      else if (how == 1) await_in(style, work_val<task<Val>>(e, p) | make_eager(), p, get);
      else if (how == 2) await_in(style, make_eager(work_ref<task<Val&>>(e, p, out)), p, get);
      else { auto t = work_void<task<void>>(e, p, out) | make_eager(); try { sync_wait(t); SIM_CHECK(!p.fail, "lost-exception", "the exception of a void task was lost"); SIM_CHECK(out.id() == p.val, "stale-data", "effects of the task are not visible to its awaiter"); } catch (Fail& x) { error_ok(p, x.id); } } }
    SIM_CHECK(gh::at(STARTED) == 1 && gh::at(FINISHED) == 1, "run-count", "the body started %ld and finished %ld times", gh::at(STARTED), gh::at(FINISHED));
    no_live("after the task was destroyed");
}
// eager tasks that await eager tasks, all completing concurrently
static eager_task<int> eager_tree(Exec& e, Plan p, int depth) {
    Live l;
    if (depth == 0) { if (p.hops[0] == 1) co_await e.hop(); gh::at(FINISHED)++; co_return 1; }
    auto a = eager_tree(e, p, depth - 1); auto b = eager_tree(e, p, depth - 1);
    if (p.hops[1] == 1) co_await e.hop();
    if (p.hops[2]) { int x = AW(b); co_return x + co_await a; }
    int x = AW(std::move(a)); co_return x + co_await std::move(b);
}
SCENARIO(C08, tree) {
    gh::clear(); Plan p = plan(); int d = 1 + sim::pick(2);
    { Exec e(1 + sim::pick(2)); int s = sync_wait(eager_tree(e, p, d)); SIM_CHECK(s == (1 << d), "wrong-result", "tree of depth %d summed to %d", d, s); }
    no_live("after the tree was destroyed");
}

// ---------------------------------------------------------------- C09 lazy task
static task<int> lazy_chain(Exec& e, Plan p, int depth, bool rethrow) {
    Live l; gh::at(STARTED)++; Val v(p.val);
    SIM_CHECK(gh::at(LOG + depth) == 0, "double-start", "body at depth %d ran twice", depth); gh::at(LOG + depth) = 1;
    if (p.hops[depth % 3] == 1) co_await e.hop();
    int r;
    if (depth == 0) { if (p.fail) throw_fail(p.val); r = p.val; }
    else {
        auto t = lazy_chain(e, p, depth - 1, rethrow);
        SIM_CHECK(gh::at(LOG + depth - 1) == 0, "eager-start", "body at depth %d ran before it was awaited", depth - 1);
        if (p.hops[0]) sim::point();
        task<int> u = std::move(t);
        if (p.hops[1] == 2) r = AW(u); else r = AW(std::move(u));
        SIM_CHECK(gh::at(LOG + depth - 1) == 2, "early-resume", "awaiter at depth %d resumed before depth %d finished", depth, depth - 1);
    }
    SIM_CHECK(v.id() == p.val, "corrupt-local", "local at depth %d changed", depth);
    gh::at(LOG + depth) = 2; gh::at(FINISHED)++;
    co_return r;
}
SCENARIO_W(C09, chain, 2) {
    gh::clear(); Plan p = plan(); int d = sim::pick(4);
    { Exec e(1 + sim::pick(2)); auto t = lazy_chain(e, p, d, false);
      SIM_CHECK(gh::at(STARTED) == 0 && !t.is_ready(), "eager-start", "a lazy task ran before it was awaited");
      try { int got = sync_wait(std::move(t)); result_ok(p, got, 0); } catch (Fail& x) { error_ok(p, x.id); } }
    SIM_CHECK(gh::at(STARTED) == d + 1, "run-count", "%ld of %d bodies ran", gh::at(STARTED), d + 1);
    no_live("after the chain was destroyed");
}
template<class Tk> static void lazy_one(Tk t, const Plan& p, int style) {
    SIM_CHECK(gh::at(STARTED) == 0, "eager-start", "a lazy task ran before it was awaited");
    auto get = [](auto&& v) { if constexpr (std::is_same_v<std::decay_t<decltype(v)>, Val>) return v.id(); else return (int)v; };
    if (style == 6) { Tk gone = std::move(t); return; }                 // never awaited
    await_in(style % 4, std::move(t), p, get);
    SIM_CHECK(gh::at(STARTED) == 1 && gh::at(FINISHED) == 1, "run-count", "the body started %ld and finished %ld times", gh::at(STARTED), gh::at(FINISHED));
}
SCENARIO(C09, results) {
    gh::clear(); Plan p = plan(); int style = sim::pick(7), kind = sim::pick(4); Val out;
    { Exec e(1 + sim::pick(2));
      if (kind == 0) lazy_one(work_int<task<int>>(e, p), p, style);
      else if (kind == 1) lazy_one(work_val<task<Val>>(e, p), p, style);
      else if (kind == 2) lazy_one(work_ref<task<Val&>>(e, p, out), p, style);
      else lazy_one(work_macro<task<int>>(e, p, out), p, style); }
    no_live("after the task was destroyed");
}
template<class Tk> static Tk brittle_work(Exec& e, Plan p) {
    Live l; gh::at(STARTED)++; Brittle b(p.val);
    for (int h : p.hops) if (h == 1) co_await e.hop(); else if (h == 2) sim::point();
    gh::at(FINISHED)++;
    if (p.fail) throw_fail(p.val);
    co_return std::move(b);
}
template<class Tk> static Tk brittle_pass(Tk t) { Live l; co_return co_await std::move(t); }
template<class Tk> static void brittle() {
    gh::clear(); Plan p = plan(); int way = sim::pick(5), layers = sim::pick(3); Brittle::arm();
    { Exec e(1 + sim::pick(2)); Tk t = brittle_work<Tk>(e, p); for (int i = 0; i < layers; ++i) t = brittle_pass<Tk>(std::move(t));
      int got = -1, bad = 0;
      try {
          if (way == 0) { Brittle b = sync_wait(std::move(t)); got = b.v.id(); }
          else if (way == 1) got = sync_wait(t).v.id();
          else if (way == 2) { auto f = [&]() -> task<int> { Brittle b = co_await std::move(t); co_return b.v.id(); }; got = sync_wait(f()); }
          else if (way == 3) { auto f = [&]() -> task<int> { Brittle& b = co_await t; co_return b.v.id(); }; got = sync_wait(f()); }
          else { auto f = [&]() -> task<void> { auto r = co_await (std::move(t) | start_on(e)); got = r.v.id(); }; sync_wait(f()); }
      } catch (Fail& x) { bad = x.id; }
      bool burnt = Brittle::burnt();
      SIM_CHECK(burnt ? bad == Brittle::ID : p.fail ? bad == p.val : !bad && got == p.val, "wrong-exception", "the task %s %d, a move %s; its awaiter got value %d, exception %d", p.fail ? "threw" : "returned", p.val, burnt ? "failed" : "did not fail", got, bad);
      SIM_CHECK(gh::at(STARTED) == 1 && gh::at(FINISHED) == 1, "run-count", "the body started %ld and finished %ld times", gh::at(STARTED), gh::at(FINISHED)); }
    no_live("after the task was destroyed");
}
SCENARIO(C08, brittle) { brittle<eager_task<Brittle>>(); }
SCENARIO(C09, brittle) { brittle<task<Brittle>>(); }
template<class Tk> static void empty_task() {
    Tk t; SIM_CHECK(!t.is_ready(), "early-ready", "a task without a coroutine says it is ready");
    int thrown = 0; auto f = [&]() -> task<void> { try { (void)AW(t); } catch (broken_promise&) { ++thrown; } try { (void)AW(std::move(t)); } catch (broken_promise&) { ++thrown; } co_await t.when_ready(); };
    sync_wait(f()); SIM_CHECK(thrown == 2, "no-broken-promise", "awaiting an empty task threw %d times of 2", thrown);
}
// Assigning to a task lets go of what it held, started or not, and takes over the other one.
struct Never { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<>) {} void await_suspend(macoro::coroutine_handle<>) {} void await_resume() {} };
template<class Tk> static Tk parked(int v, bool stuck, bool bad) { Live l; Val x(v); gh::at(STARTED)++; if (stuck) co_await Never{}; if (bad) throw_fail(v); gh::at(FINISHED)++; co_return x.id(); }
template<class Tk> static Tk parked_macro(int v, bool stuck, bool bad) { MC_BEGIN(Tk, l = Live{}, x = std::make_unique<int>(v), v, stuck, bad); gh::at(STARTED)++; if (stuck) { MC_AWAIT(Never{}); } if (bad) throw_fail(v); gh::at(FINISHED)++; MC_RETURN(*x); MC_END(); }
template<class Tk> static void assigned() {
    gh::clear(); constexpr bool lazy = std::is_same_v<Tk, task<int>>;
    {
        auto mk = [](int v, bool may) { bool stuck = !lazy && may && sim::pick(2), bad = sim::pick(4) == 3; gh::at(LOG) = bad; return sim::pick(2) ? parked<Tk>(v, stuck, bad) : parked_macro<Tk>(v, stuck, bad); };
        Tk t; if (sim::pick(3)) t = mk(1, true);
        long before = gh::at(LIVE); int n = 1 + sim::pick(2);
        for (int i = 0; i < n; ++i) {
            if (lazy && sim::pick(2)) { auto f = [&]() -> task<void> { try { co_await t; } catch (Fail&) {} catch (broken_promise&) {} }; sync_wait(f()); }
            t = mk(10 + i, i + 1 < n);
        }
        (void)before; Tk& self = t; if (sim::pick(2)) t = std::move(self);
        Tk u; bool moved = sim::pick(2); if (moved) { u = std::move(t); SIM_CHECK(!t.is_ready(), "early-ready", "a task that was moved from says it is ready"); }
        if (!lazy) SIM_CHECK(gh::at(LIVE) == 1 || (gh::at(LIVE) == 0), "frame-not-destroyed", "%ld coroutine bodies are alive, only one task is left", gh::at(LIVE));
        bool bad = gh::at(LOG); Tk& w = moved ? u : t;
        try { int got = sync_wait(w); SIM_CHECK(!bad && got == 9 + n, "wrong-result", "the assigned task produced %d, expected %s %d", got, bad ? "exception" : "value", 9 + n); } catch (Fail& x) { SIM_CHECK(bad && x.id == 9 + n, "wrong-exception", "the assigned task threw %d", x.id); }
    }
    no_live("after every task was destroyed");
}
SCENARIO(C08, assigned) { assigned<eager_task<int>>(); }
SCENARIO(C09, assigned) { assigned<task<int>>(); }
SCENARIO(C09, make_task) {
    gh::clear(); Plan p = plan(); int kind = sim::pick(4), style = sim::pick(7); Val out;
    { Exec e(1 + sim::pick(2));
      if (kind == 0) lazy_one(make_task(work_int<task<int>>(e, p)), p, style);
      else if (kind == 1) lazy_one(make_task(work_val<task<Val>>(e, p)), p, style);
      else if (kind == 2) lazy_one(make_task(work_ref<task<Val&>>(e, p, out)), p, style);
      else { auto t = make_task(work_void<task<void>>(e, p, out)); SIM_CHECK(gh::at(STARTED) == 0, "eager-start", "a lazy task ran before it was awaited");
             try { sync_wait(std::move(t)); SIM_CHECK(!p.fail && out.id() == p.val, "wrong-result", "void task"); } catch (Fail& x) { error_ok(p, x.id); } } }
    no_live("after the task was destroyed");
}
// what wrap() made of a task's outcome, read in every way there is
template<class R> static void same_result(R r, const Plan& p) {
    using T = typename R::value_type; auto id = [](const auto& v) { if constexpr (requires { v.id(); }) return v.id(); else return (int)v; };
    SIM_CHECK(gh::at(FINISHED) == gh::at(STARTED), "early-resume", "the awaiter ran before the task finished");
    R moved(std::move(r)); r = std::move(moved);
    const R& c = r;
    SIM_CHECK(c.has_error() == !!p.fail && c.has_value() == !p.fail && !!r == !p.fail, "wrong-result", "wrap() reports %s", c.has_error() ? "an error" : "a value");
    if (p.fail) {
        try { std::rethrow_exception(c.error()); } catch (Fail& x) { error_ok(p, x.id); }
        try { c.value(); SIM_CHECK(false, "lost-exception", "the wrapped exception was not rethrown"); } catch (Fail& x) { error_ok(p, x.id); }
        auto e = c.error(); SIM_CHECK(c == Err(e) && !(c != Err(e)), "wrong-result", "a result differs from its own error");
    } else {
        if constexpr (std::is_void_v<T>) { c.value(); SIM_CHECK(c == Ok() && !(c != Ok()), "wrong-result", "a result differs from its own value"); }
        else { result_ok(p, id(c.value()), 9); result_ok(p, id(*c), 9); result_ok(p, id(r.value()), 9);
               if constexpr (std::is_same_v<T, int>) SIM_CHECK(c == Ok((int)p.val) && c != Ok(p.val + 1) && !(c != Ok((int)p.val)), "wrong-result", "a result differs from its own value"); }
        bool thrown = false; try { (void)c.error(); } catch (std::runtime_error&) { thrown = true; } SIM_CHECK(thrown, "wrong-result", "a result with a value also has an error");
    }
}
// A task that was lent (awaited as an lvalue, through wrap or not) still has its outcome afterwards, and what a task refers to stays what it was.
template<class Tk> static task<void> lent_wraps(Tk t, Plan p) {
    { auto w = wrap(t); same_result(co_await w, p); same_result(co_await std::move(w), p); }
    same_result(co_await wrap(t), p); same_result(co_await (t | wrap()), p);
    if (!p.fail) { CVal& v = co_await t; result_ok(p, v.id(), 10); }
    same_result(co_await (std::move(t) | wrap()), p);
}
static task<void> lent_ref(task<CVal&> t, Plan p, CVal& out) {
    auto w = wrap(t);
    for (int i = 0; i < 3; ++i) {
        if (i < 2) same_result(co_await w, p); else same_result(co_await wrap(std::move(t)), p);
        SIM_CHECK(out.id() == p.val, "wrong-reference", "a wrapped await changed the object that the task refers to (%d)", out.id());
    }
}
template<class Tk> static task<void> lent_try(Tk t, Plan p) {
    MC_BEGIN(task<void>, t = std::move(t), p, i = 0, r = result<CVal>(Err(std::exception_ptr{})));
    for (i = 0; i < 2; ++i) { MC_AWAIT_TRY(r, t); same_result(r, p); }
    MC_AWAIT_TRY(r, std::move(t)); same_result(std::move(r), p);
    MC_RETURN_VOID();
    MC_END();
}
// a broken (moved-from) task throws instead of hanging; wrap() turns both outcomes into results
SCENARIO(C09, wrap_and_broken) {
    gh::clear(); Plan p = plan(); bool broken = sim::pick(6) == 5; int kind = sim::pick(11); Val out; CVal cv;
    { Exec e(1);
      if (broken) { empty_task<task<int>>(); empty_task<eager_task<Val>>(); task<int> t; bool thrown = false; try { sync_wait(std::move(t)); } catch (broken_promise&) { thrown = true; } SIM_CHECK(thrown, "no-broken-promise", "awaiting an empty task did not throw"); }
      else switch (kind) {
      case 0: same_result(sync_wait(work_int<task<int>>(e, p) | wrap()), p); break;
      case 1: same_result(sync_wait(work_void<task<void>>(e, p, out) | wrap()), p); break;
      case 2: same_result(sync_wait(work_val<eager_task<Val>>(e, p) | wrap()), p); break;
      case 3: same_result(sync_wait(wrap(work_cref<task<CVal&>>(e, p, cv))), p); SIM_CHECK(cv.id() == p.val, "wrong-reference", "a wrapped await changed the object that the task refers to (%d)", cv.id()); break;
      case 4: { auto t = work_int<task<int>>(e, p); auto f = [](task<int>& t, Plan p) -> task<void> { same_result(co_await (t | wrap()), p); same_result(co_await wrap(t), p); same_result(co_await (std::move(t) | wrap()), p); }; sync_wait(f(t, p)); break; }
      case 5: { auto f = [](task<Val> t, Plan p) -> task<void> { auto w = wrap(std::move(t)); same_result(co_await std::move(w), p); }; sync_wait(f(work_val<task<Val>>(e, p), p)); break; }
      case 6: sync_wait(lent_wraps(work_cval<task<CVal>>(e, p), p)); break;
      case 7: sync_wait(lent_wraps(work_cval<eager_task<CVal>>(e, p), p)); break;
      case 8: sync_wait(lent_ref(work_cref<task<CVal&>>(e, p, cv), p, cv)); break;
      case 9: sync_wait(lent_try(work_cval<task<CVal>>(e, p), p)); break;
      default: { auto f = [](task<Val> t, Plan p) -> task<void> { same_result(co_await (std::move(t) | wrap()), p); }; sync_wait(f(work_val<task<Val>>(e, p), p)); } }
    }
    no_live("after the task was destroyed");
}
// Many threads run independent chains on one executor: no cross talk.
SCENARIO(C09, independent_chains) {
    gh::clear(); int n = 2 + sim::pick(2); std::vector<Plan> ps; for (int i = 0; i < n; ++i) { ps.push_back(plan()); }
    { Exec e(1 + sim::pick(2)); Threads T;
      for (int i = 0; i < n; ++i) T.go([&, i] {
          auto f = [](Exec& e, Plan p) -> task<Val> { Live l; Val v(p.val); for (int h : p.hops) if (h) co_await e.hop(); if (p.fail) throw_fail(p.val); co_return std::move(v); };
          try { Val v = sync_wait(f(e, ps[i])); SIM_CHECK(!ps[i].fail && v.id() == ps[i].val, "wrong-result", "chain %d returned %d, expected %d", i, v.id(), ps[i].val); }
          catch (Fail& x) { error_ok(ps[i], x.id); } }); }
    no_live("after all chains finished");
}

// ---------------------------------------------------------------- C23 sync_wait
// An awaitable completed by a bare thread, in every await_suspend flavour; sync_wait must return
// exactly once, with the result, however the completion races with the blocking.
struct Cell { std::atomic<void*> h{ nullptr }; long payload = 0; std::atomic<int> ready{ 0 }; };
template<int FLAVOUR> struct CellAw {
    Cell* c; int fail;
    bool await_ready() { return FLAVOUR == 3 && c->ready.load(std::memory_order_acquire); }
    auto await_suspend(std::coroutine_handle<> h) {
        gh::at(STARTED)++;
        void* e = nullptr; bool parked = c->h.compare_exchange_strong(e, h.address(), std::memory_order_acq_rel);
        if constexpr (FLAVOUR == 0) { if (!parked) h.resume(); }
        else if constexpr (FLAVOUR == 1 || FLAVOUR == 3) return parked;
        else { std::coroutine_handle<> r = std::noop_coroutine(); if (!parked) r = h; return r; }
    }
    Val await_resume() { SIM_CHECK(c->payload == 42, "stale-data", "payload %ld", c->payload); gh::at(FINISHED)++; if (fail) throw_fail(7); return Val(99); }
};
static void complete(Cell& c) {
    c.payload = 42; c.ready.store(1, std::memory_order_release);
    void* e = nullptr;
    if (!c.h.compare_exchange_strong(e, (void*)1, std::memory_order_acq_rel)) std::coroutine_handle<>::from_address(e).resume();
}
template<int F> static void sw_run() {
    gh::clear(); Cell c; int fail = sim::pick(3) == 2; int way = sim::pick(3);
    { Threads T; T.go([&] { complete(c); });
      try { Val v; CellAw<F> a{ &c, fail };
            if (way == 0) v = sync_wait(CellAw<F>{ &c, fail }); else if (way == 1) v = sync_wait(a); else v = CellAw<F>{ &c, fail } | sync_wait();
            SIM_CHECK(!fail && v.id() == 99, "wrong-result", "sync_wait returned %d", v.id()); }
      catch (Fail& x) { SIM_CHECK(fail && x.id == 7, "wrong-exception", "sync_wait threw %d", x.id); } }
    SIM_CHECK(gh::at(FINISHED) == 1, "resume-count", "await_resume ran %ld times", gh::at(FINISHED));
}
SCENARIO(C23, suspend_void) { sw_run<0>(); }
SCENARIO(C23, suspend_bool) { sw_run<1>(); }
SCENARIO(C23, suspend_handle) { sw_run<2>(); }
SCENARIO(C23, ready_or_suspend) { sw_run<3>(); }
SCENARIO(C23, blocking_then_get) {
    gh::clear(); Cell c; int fail = sim::pick(2);
    { Threads T; auto b = make_blocking(CellAw<1>{ &c, fail }); if (sim::pick(2)) sim::point(); T.go([&] { complete(c); }); if (sim::pick(2)) sim::point();
      try { Val v = b.get(); SIM_CHECK(!fail && v.id() == 99, "wrong-result", "get() returned %d", v.id()); } catch (Fail& x) { SIM_CHECK(fail && x.id == 7, "wrong-exception", "get() threw %d", x.id); } }
    SIM_CHECK(gh::at(FINISHED) == 1, "resume-count", "await_resume ran %ld times", gh::at(FINISHED));
}
SCENARIO(C23, many_waiters) {
    gh::clear(); int n = 2 + sim::pick(3); std::unique_ptr<Cell[]> c(new Cell[n]);
    { Threads T; T.go([&] { for (int i = n; i--;) complete(c[i]); });
      for (int i = 0; i < n; ++i) T.go([&, i] { Val v = sync_wait(CellAw<1>{ &c[i], 0 }); SIM_CHECK(v.id() == 99, "wrong-result", "waiter %d got %d", i, v.id()); }); }
    SIM_CHECK(gh::at(FINISHED) == n, "resume-count", "%ld of %d waiters resumed", gh::at(FINISHED), n);
}
// The awaitable itself fails, at any of its calls; whatever it returns comes back as it is.
struct Picky {
    Cell* c; int fail; int* obj;                          // fail: 1 operator co_await, 2 await_ready, 3 await_suspend, 4 await_resume
    Picky(Cell* c, int f, int* o) : c(c), fail(f), obj(o) {}
    Picky(const Picky&) = delete;
    template<int KIND> struct Aw {
        Picky* p; Aw(Picky* p) : p(p) { gh::at(LIVE_AW)++; } Aw(const Aw&) = delete; ~Aw() { gh::at(LIVE_AW)--; }
        static constexpr int LIVE_AW = 500;
        bool await_ready() { if (p->fail == 2) throw_fail(2); return false; }
        bool await_suspend(std::coroutine_handle<> h) { if (p->fail == 3) throw_fail(3); void* e = nullptr; return p->c->h.compare_exchange_strong(e, h.address(), std::memory_order_acq_rel); }
        decltype(auto) await_resume() { gh::at(FINISHED)++; if (p->fail == 4) throw_fail(4); if constexpr (KIND == 0) return (*p->obj); else if constexpr (KIND == 1) return std::move(*p->obj); else return; }
    };
};
template<int KIND> struct PickyOf : Picky { using Picky::Picky; Picky::Aw<KIND> operator co_await() { if (fail == 1) throw_fail(1); return { this }; } };
template<int KIND> static void picky_run() {
    gh::clear(); Cell c; int obj = 5, fail = sim::pick(5), way = sim::pick(4); bool started = fail != 1 && fail != 2 && fail != 3;
    { Threads T; if (started) T.go([&] { complete(c); });
      PickyOf<KIND> p(&c, fail, &obj); bool ok = false;
      auto use = [&](auto&& run) { if constexpr (KIND == 2) { static_assert(std::is_void_v<decltype(run())>); run(); } else { auto&& r = run(); static_assert(std::is_same_v<decltype(run()), std::conditional_t<KIND == 0, int&, int&&>>); SIM_CHECK(&r == &obj, "wrong-result", "another object came back"); } ok = true; };
      try {
          if (way == 0) use([&]() -> decltype(auto) { return sync_wait(p); });
          else if (way == 1) use([&]() -> decltype(auto) { return sync_wait(std::move(p)); });
          else if (way == 2) use([&]() -> decltype(auto) { return p | sync_wait(); });
          else { auto b = make_blocking<PickyOf<KIND>&>(p); use([&]() -> decltype(auto) { return b.get(); }); }
      } catch (Fail& f) { SIM_CHECK(f.id == fail, "wrong-exception", "call %d failed, call %d was reported", fail, f.id); }
      SIM_CHECK(ok == (fail == 0), "wrong-exception", "the wait %s although call %d failed", ok ? "returned" : "threw", fail); }
    SIM_CHECK(gh::at(FINISHED) == started, "resume-count", "await_resume ran %ld times", gh::at(FINISHED));
    SIM_CHECK(gh::at(500) == 0, "leak", "%ld awaiters are alive", gh::at(500));
}
SCENARIO(C23, reference_result) { picky_run<0>(); }
SCENARIO(C23, rvalue_result) { picky_run<1>(); }
SCENARIO(C23, no_result) { picky_run<2>(); }
// several blocking tasks, moved about, collected in any order
SCENARIO(C23, blocking_tasks_moved) {
    gh::clear(); int n = 2 + sim::pick(3); std::unique_ptr<Cell[]> c(new Cell[n]); std::vector<int> at(n);
    { Threads T; using B = decltype(make_blocking(CellAw<1>{ &c[0], 0 })); std::vector<B> b;
      for (int i = 0; i < n; ++i) { b.push_back(make_blocking(CellAw<1>{ &c[i], i == 1 })); at[i] = i; }
      T.go([&] { for (int i = n; i--;) complete(c[i]); });
      for (int k = sim::pick(4); k--;) { int i = sim::pick(n), j = sim::pick(n); if (i != j) { B t(std::move(b[i])); b[i] = std::move(b[j]); b[j] = std::move(t); std::swap(at[i], at[j]); } else { B& self = b[i]; self = std::move(b[i]); } }
      for (int i = n; i--;) try { Val v = b[i].get(); SIM_CHECK(at[i] != 1 && v.id() == 99, "wrong-result", "waiter %d got %d", at[i], v.id()); } catch (Fail& f) { SIM_CHECK(at[i] == 1 && f.id == 7, "wrong-exception", "waiter %d threw %d", at[i], f.id); }
      switch (sim::pick(3)) { case 1: { B e; e = std::move(b[0]); B g; b[0] = std::move(g); break; } case 2: b[0] = std::move(b[1]); break; } }
    SIM_CHECK(gh::at(FINISHED) == n, "resume-count", "%ld of %d waiters resumed", gh::at(FINISHED), n);
}
