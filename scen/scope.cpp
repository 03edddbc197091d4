// async_scope / scoped_task, when_all_ready, when_all_scope
#include "hop.h"
#include "macoro/async_scope.h"
#include "macoro/when_all.h"
#include "macoro/wrap.h"
#include "macoro/when_all_scope.h"
#include "macoro/manual_reset_event.h"
#include "lib.inc"
using namespace macoro;

enum { LIVE = 1, NSTART = 2, NFIN = 3, ORDERED = 4, ST = 16, FIN = 144, EXC = 272, GOT = 400 };
struct Live { Live() { gh::at(LIVE)++; } Live(const Live&) { gh::at(LIVE)++; } ~Live() { gh::at(LIVE)--; } };
static void no_live(const char* when) { SIM_CHECK(gh::at(LIVE) == 0, gh::at(LIVE) > 0 ? "frame-not-destroyed" : "double-destroy", "%ld coroutine locals are alive %s", gh::at(LIVE), when); }

struct Child { int id; int hop[2]; bool fail; };
static Child child(int id, int failpct = 25) { Child c; c.id = id; for (auto& h : c.hop) h = sim::pick(3); c.fail = (int)sim::pick(100) >= 100 - failpct; return c; }
static void begin(const Child& c) { gh::at(NSTART)++; if (gh::at(ORDERED)) for (int i = 0; i < c.id; ++i) SIM_CHECK(gh::at(ST + i) == 1, "wrong-order", "task %d was started before task %d", c.id, i);  SIM_CHECK(++gh::at(ST + c.id) == 1, "double-start", "child %d was started twice", c.id); }
static void finish(const Child& c) { gh::at(FIN + c.id)++; gh::at(NFIN)++; if (c.fail) throw_fail(c.id); }

static task<Val> c_val(Exec& e, Child c) {
    Live l; Val v(c.id * 10); begin(c);
    for (int h : c.hop) if (h == 1) co_await e.hop(); else if (h == 2) sim::point();
    finish(c); co_return std::move(v);
}
static task<void> c_void(Exec& e, Child c) {
    Live l; Val v(c.id * 10); begin(c);
    for (int h : c.hop) if (h == 1) co_await e.hop(); else if (h == 2) sim::point();
    finish(c); SIM_CHECK(v.id() == c.id * 10, "corrupt-local", "child %d", c.id);
}
static task<Val&> c_ref(Exec& e, Child c, Val& out) {
    Live l; begin(c);
    for (int h : c.hop) if (h == 1) co_await e.hop(); else if (h == 2) sim::point();
    out = Val(c.id * 10); finish(c); co_return out;
}
static task<int> c_macro(Exec& e, Child c) {
    MC_BEGIN(task<int>, &e, c, l = Live{}, i = 0);
    begin(c);
    for (i = 0; i < 2; ++i) if (c.hop[i] == 1) { MC_AWAIT(e.hop()); }
    finish(c);
    MC_RETURN(c.id * 10);
    MC_END();
}

// ---------------------------------------------------------------- C11 async_scope
static void take_scope_exception(async_scope_exception& x) {
    // the text names every exception, however often and through whichever copy it is asked for
    std::vector<std::string> texts; std::string w = static_cast<std::exception&>(x).what(), w2 = static_cast<std::exception&>(x).what(); async_scope_exception y(x); size_t at = 0;
    SIM_CHECK(!w.empty() && w == w2 && w == static_cast<std::exception&>(y).what(), "wrong-text", "what() is '%s', then '%s'", w.c_str(), w2.c_str());
    for (auto& p : x.m_exceptions) { try { std::rethrow_exception(p); } catch (Fail& f) { if (!f.named) continue; at = w.find(f.text, at); SIM_CHECK(at != std::string::npos, "wrong-text", "what() does not name the exception of child %d: %s", f.id, w.c_str()); at += 3; } catch (...) {} }
    SIM_CHECK(!x.m_exceptions.empty(), "spurious-exception", "the join threw without an exception to report");
    for (auto& p : x.m_exceptions) {
        SIM_CHECK(!!p, "null-exception", "the scope reported an empty exception");
        try { std::rethrow_exception(p); } catch (Fail& f) { SIM_CHECK(++gh::at(EXC + f.id) == 1, "duplicate-exception", "the exception of child %d was delivered twice", f.id); }
    }
}
// join, collecting what it throws
template<class S> static task<> join_in(S& s) {
    try { AW(s); } catch (async_scope_exception& x) { take_scope_exception(x); }
}
enum { DROP_NOW, DROP_LATER, KEEP_AWAIT, KEEP_AWAIT_AFTER, DROP_AFTER_JOIN };
static void check_children(const std::vector<Child>& cs, const std::vector<int>& how) {
    for (auto& c : cs) {
        SIM_CHECK(gh::at(ST + c.id) == 1, "not-started", "child %d ran %ld times", c.id, gh::at(ST + c.id));
        SIM_CHECK(gh::at(FIN + c.id) == 1, "early-join", "the join completed before child %d finished", c.id);
        int h = how[c.id];
        if (h == KEEP_AWAIT || h == KEEP_AWAIT_AFTER) { SIM_CHECK(gh::at(GOT + c.id) == 1, "lost-result", "child %d delivered %ld outcomes to its awaiter", c.id, gh::at(GOT + c.id)); SIM_CHECK(gh::at(EXC + c.id) == 0, "duplicate-exception", "the exception of the awaited child %d was also thrown by the scope", c.id); }
        else if (h != DROP_AFTER_JOIN) SIM_CHECK(gh::at(EXC + c.id) == c.fail, c.fail ? "lost-exception" : "spurious-exception", "dropped child %d %s; the join delivered %ld exceptions for it", c.id, c.fail ? "threw" : "did not throw", gh::at(EXC + c.id));
    }
}
static task<Brittle> c_brittle(Exec& e, Child c) {
    Live l; Brittle v(c.id * 10); begin(c);
    for (int h : c.hop) if (h == 1) co_await e.hop(); else if (h == 2) sim::point();
    finish(c); co_return std::move(v);
}
// the children's results fail as they are moved: the failure goes where the result would have gone, or to the join
static task<> brittle_scope(Exec& e, async_scope& s, const std::vector<Child>& cs, const std::vector<int>& how, int& burns) {
    Live l; std::vector<scoped_task<Brittle>> keep; auto saw = [&](const Fail& f, const Child& c) { if (f.id == Brittle::ID) ++burns; else SIM_CHECK(c.fail && f.id == c.id, "wrong-exception", "child %d delivered exception %d", c.id, f.id); };
    for (auto& c : cs) { auto t = s.add(c_brittle(e, c)); if (how[c.id]) keep.push_back(std::move(t)); else keep.emplace_back(); }
    for (auto& c : cs) if (how[c.id] == 1) { try { Brittle b = co_await std::move(keep[c.id]); SIM_CHECK(!c.fail && b.id() == c.id * 10, "wrong-result", "child %d returned %d", c.id, b.id()); } catch (Fail& f) { saw(f, c); } }
    std::vector<int> seen(cs.size()); 
    try { co_await s; } catch (async_scope_exception& x) { for (auto& p : x.m_exceptions) try { std::rethrow_exception(p); } catch (Fail& f) { if (f.id == Brittle::ID) ++burns; else SIM_CHECK(f.id < (int)cs.size() && !how[f.id] && cs[f.id].fail && !seen[f.id]++, "wrong-exception", "the join reported exception %d", f.id); } }
    for (auto& c : cs) { SIM_CHECK(gh::at(FIN + c.id) == 1, "early-join", "the join completed before child %d finished", c.id); if (!how[c.id] && c.fail) SIM_CHECK(seen[c.id], "lost-exception", "the exception of child %d was lost", c.id); }
    for (auto& c : cs) if (how[c.id] == 2) { try { Brittle b = co_await std::move(keep[c.id]); SIM_CHECK(!c.fail && b.id() == c.id * 10, "wrong-result", "child %d returned %d", c.id, b.id()); } catch (Fail& f) { saw(f, c); } }
}
SCENARIO(C11, brittle) {
    gh::clear(); int n = 1 + sim::pick(3); std::vector<Child> cs; std::vector<int> how; for (int i = 0; i < n; ++i) { cs.push_back(child(i)); how.push_back(sim::pick(3)); }
    { Exec e(1 + sim::pick(2)); async_scope s; int burns = 0; Brittle::arm(); sync_wait(brittle_scope(e, s, cs, how, burns));
      SIM_CHECK(burns == (int)gh::at(Brittle::BURNT), "lost-exception", "%ld moves of a result failed, %d failures were delivered", gh::at(Brittle::BURNT), burns); }
    no_live("after the scope was destroyed");
}
// the readiness query is never early: what the task wrote is there once it says so
SCENARIO(C11, polled) {
    gh::clear(); int n = 1 + sim::pick(3), waits = 0; std::vector<Child> cs; std::vector<Val> out(n); for (int i = 0; i < n; ++i) cs.push_back(child(i, 15));
    { Exec e(1 + sim::pick(2)); async_scope s; std::vector<scoped_task<Val&>> ts; std::vector<bool> seen(n);
      for (int i = 0; i < n; ++i) ts.push_back(s.add(c_ref(e, cs[i], out[i])));
      for (int k = sim::pick(12); k >= 0; --k) { for (int i = 0; i < n; ++i) if (!seen[i] && ts[i].is_ready()) { seen[i] = true; ++waits; SIM_CHECK(out[i].id() == i * 10, "early-ready", "is_ready() before child %d wrote its result", i); } sim::point(); }
      for (int i = 0; i < n; ++i) { SIM_CHECK(!seen[i] || ts[i].is_ready(), "early-ready", "child %d was ready and is not any more", i);
          try { Val& v = sync_wait(std::move(ts[i])); SIM_CHECK(!cs[i].fail && &v == &out[i] && v.id() == i * 10, "wrong-result", "child %d", i); } catch (Fail& f) { SIM_CHECK(cs[i].fail && f.id == i, "wrong-exception", "child %d threw %d", i, f.id); } }
      sync_wait(s); }
    if (waits) sim::probe("ready-when-polled");
    no_live("after the scope was destroyed");
}
static Val* outv; struct OutV { Val v[128]; OutV() { outv = v; } };   // targets of reference results
template<class T> static task<> await_child(T& t, Child c) {
    try {
        int route = 0; if constexpr (!std::is_same_v<T, scoped_task<Val&>>) route = (int)sim::pick(6);   // now and then wrapped, or joined
        auto value = [&](auto&& v) { if constexpr (std::is_same_v<std::remove_cvref_t<decltype(v)>, Val>) SIM_CHECK(v.id() == c.id * 10, "wrong-result", "child %d returned %d", c.id, v.id()); else SIM_CHECK(v == c.id * 10, "wrong-result", "child %d returned %d", c.id, (int)v); };
        if constexpr (!std::is_same_v<T, scoped_task<Val&>>) {
            if (route == 4) { auto r = AW(wrap(std::move(t))); if (r.has_error()) std::rethrow_exception(r.error()); if constexpr (requires { r.value().id(); } || requires { r.value() == 1; }) value(r.value()); goto got; }
            if (route == 5) { auto r = AW(when_all_ready(std::move(t))); if constexpr (std::is_same_v<T, scoped_task<void>>) std::get<0>(r).result(); else value(std::get<0>(r).result()); goto got; }
        }
        if constexpr (std::is_same_v<T, scoped_task<Val>>) { Val v = AW(std::move(t)); SIM_CHECK(v.id() == c.id * 10, "wrong-result", "child %d returned %d", c.id, v.id()); }
        else if constexpr (std::is_same_v<T, scoped_task<int>>) { int v = AW(std::move(t)); SIM_CHECK(v == c.id * 10, "wrong-result", "child %d returned %d", c.id, v); }
        else if constexpr (std::is_same_v<T, scoped_task<Val&>>) { Val& v = AW(std::move(t)); SIM_CHECK(&v == &outv[c.id & 127] && v.id() == c.id * 10, "wrong-result", "child %d returned %s", c.id, &v == &outv[c.id & 127] ? "the wrong value" : "another object"); }
        else AW(std::move(t));
    got:;
        SIM_CHECK(!c.fail, "lost-exception", "awaiting the failed child %d did not throw", c.id);
    } catch (Fail& f) { SIM_CHECK(c.fail && f.id == c.id, "wrong-exception", "awaiting child %d threw %d", c.id, f.id); }
    SIM_CHECK(gh::at(FIN + c.id) == 1, "early-resume", "the awaiter of child %d ran before it finished", c.id);
    gh::at(GOT + c.id)++;
}
template<class T> struct Slot { scoped_task<T> t; Child c; };
// handles may be moved about while their child runs
template<class T> static void shuffle(scoped_task<T>& t, int how) {
    if (how == 1) { scoped_task<T> u(std::move(t)); SIM_CHECK(!t.is_ready(), "early-ready", "a moved-from handle is ready"); t = std::move(u); }
    else if (how == 2) { scoped_task<T> u; u = std::move(t); scoped_task<T> v; v = std::move(u); u = std::move(v); std::swap(t, u); }
    else if (how == 3) { auto& r = t; t = std::move(r); }
    else if (how == 4) { std::vector<scoped_task<T>> v; v.push_back(std::move(t)); v.emplace_back(); v.emplace(v.begin()); t = std::move(v[1]); }
}
static task<> await_empty() {
    scoped_task<Val> t; SIM_CHECK(!t.is_ready(), "early-ready", "an empty handle is ready"); bool threw = false;
    try { (void)AW(std::move(t)); } catch (broken_promise&) { threw = true; }
    SIM_CHECK(threw, "lost-exception", "awaiting an empty handle did not throw broken_promise");
}
template<class T, class Mk> static task<> scope_body(Exec& e, async_scope& s, std::vector<Child>& cs, std::vector<int>& how, Mk mk, int base) {
    std::vector<std::unique_ptr<Slot<T>>> keep;
    for (size_t i = base; i < cs.size(); ++i) {
        Child c = cs[i]; auto sl = std::make_unique<Slot<T>>(); sl->c = c;
        sl->t = s.add(mk(e, c));
        SIM_CHECK(gh::at(ST + c.id) == 1, "not-started", "add() returned before child %d started", c.id);
        if (how[c.id] == DROP_NOW) { if (sim::pick(2)) sim::point(); sl.reset(); } else { shuffle(sl->t, sim::pick(8)); keep.push_back(std::move(sl)); }
    }
    for (auto& k : keep) if (how[k->c.id] == DROP_LATER) k->t = {}; else if (how[k->c.id] == KEEP_AWAIT) { if (k->t.is_ready()) SIM_CHECK(gh::at(FIN + k->c.id) == 1, "early-ready", "is_ready() before child %d finished", k->c.id); co_await await_child(k->t, k->c); }
    if (sim::pick(8) == 7) co_await await_empty();
    co_await join_in(s);
    for (auto& k : keep) if (how[k->c.id] == KEEP_AWAIT_AFTER) { SIM_CHECK(k->t.is_ready(), "not-ready", "child %d is not ready after the join", k->c.id); co_await await_child(k->t, k->c); }
    check_children(cs, how);
}
template<class T> static auto mk_child(Exec& e, Child c) {
    if constexpr (std::is_same_v<T, Val>) return c_val(e, c); else if constexpr (std::is_same_v<T, void>) return c_void(e, c);
    else if constexpr (std::is_same_v<T, int>) return c_macro(e, c); else return c_ref(e, c, outv[c.id & 127]);
}
// Owner adds children, keeps / drops / awaits their handles, joins; the scope is freed right after.
template<class T> static void scope_run(int maxn, int rounds) {
    gh::clear(); OutV ov;
    std::vector<Child> cs; std::vector<int> how;
    { Exec e(1 + sim::pick(2)); auto s = std::make_unique<async_scope>();
      for (int r = 0; r < rounds; ++r) {
          int base = (int)cs.size(), n = some(maxn + 1, 40);
          for (int i = 0; i < n; ++i) { cs.push_back(child(base + i)); how.push_back(sim::pick(5)); }
          if (sim::pick(3) == 0 && n == 0) sync_wait(join_in(*s)); else sync_wait(scope_body<T>(e, *s, cs, how, [](Exec& e, Child c) { return mk_child<T>(e, c); }, base));
          check_children(cs, how);
      }
      s.reset(); }
    no_live("after the scope was destroyed");
}
SCENARIO_W(C11, values, 2) { scope_run<Val>(3, 1); }
SCENARIO(C11, voids) { scope_run<void>(3, 1); }
SCENARIO(C11, references) { scope_run<Val&>(3, 1); }
SCENARIO(C11, macro_children) { scope_run<int>(3, 1); }
SCENARIO(C11, reuse) { scope_run<Val>(2, 2); }
// plain join() by sync_wait from a thread that is not in a coroutine
SCENARIO(C11, sync_join) {
    gh::clear(); std::vector<Child> cs; std::vector<int> how; int n = 1 + some(3, 60);
    { Exec e(1 + sim::pick(2)); auto s = std::make_unique<async_scope>();
      for (int i = 0; i < n; ++i) { cs.push_back(child(i)); how.push_back(DROP_NOW); (void)s->add(c_void(e, cs[i])); }
      try { if (sim::pick(2)) sync_wait(*s); else sync_wait(s->join()); for (auto& c : cs) SIM_CHECK(!c.fail, "lost-exception", "joining the scope did not throw although the dropped child %d threw", c.id); }
      catch (async_scope_exception& x) { take_scope_exception(x); }
      s.reset(); check_children(cs, how); }
    no_live("after the scope was destroyed");
}
// children that add further children to the scope they run in
static task<> c_nested(Exec& e, async_scope& s, std::vector<Child>& cs, size_t i) {
    Live l; Child c = cs[i]; begin(c);
    if (c.hop[0] == 1) co_await e.hop();
    if (2 * i + 1 < cs.size()) (void)s.add(c_nested(e, s, cs, 2 * i + 1));
    if (c.hop[1] == 1) co_await e.hop();
    if (2 * i + 2 < cs.size()) (void)s.add(c_nested(e, s, cs, 2 * i + 2));
    finish(c);
}
SCENARIO(C11, nested_adds) {
    gh::clear(); int n = 1 + some(6, 60); std::vector<Child> cs; std::vector<int> how; for (int i = 0; i < n; ++i) { cs.push_back(child(i)); how.push_back(DROP_NOW); }
    { Exec e(1 + sim::pick(2)); auto s = std::make_unique<async_scope>(); (void)s->add(c_nested(e, *s, cs, 0)); sync_wait(join_in(*s)); s.reset(); check_children(cs, how); }
    no_live("after the scope was destroyed");
}
// handles are awaited, polled or dropped by another thread while the owner joins
SCENARIO_W(C11, remote_handles, 2) {
    gh::clear(); int n = 1 + some(3, 8); std::vector<Child> cs; std::vector<int> how; for (int i = 0; i < n; ++i) { cs.push_back(child(i)); how.push_back(sim::pick(2) ? KEEP_AWAIT : DROP_AFTER_JOIN); }
    { Exec e(1 + sim::pick(2)); auto s = std::make_unique<async_scope>();
      { Threads T;
        for (int i = 0; i < n; ++i) {
            auto sl = std::make_shared<Slot<Val>>(); sl->c = cs[i]; sl->t = s->add(c_val(e, cs[i]));
            T.go([sl = std::move(sl), k = how[i]]() mutable {
                if (k == KEEP_AWAIT) { if (sl->t.is_ready()) SIM_CHECK(gh::at(FIN + sl->c.id) == 1, "early-ready", "is_ready() before child %d finished", sl->c.id); sync_wait(await_child(sl->t, sl->c)); }
                sl.reset(); });
        }
        sync_wait(join_in(*s));
        for (auto& c : cs) SIM_CHECK(gh::at(FIN + c.id) == 1, "early-join", "the join completed before child %d finished", c.id);
      }
      // whatever was dropped after the first join is reported by a second one
      sync_wait(join_in(*s));
      for (int i = 0; i < n; ++i) if (how[i] == DROP_AFTER_JOIN) SIM_CHECK(gh::at(EXC + i) == cs[i].fail, "lost-exception", "dropped child %d %s; joins delivered %ld exceptions", i, cs[i].fail ? "threw" : "did not throw", gh::at(EXC + i));
      check_children(cs, how);
      s.reset(); }
    no_live("after the scope was destroyed");
}

// ---------------------------------------------------------------- C12 when_all_ready
static void got(Child c, bool threw, int id, int v) {
    SIM_CHECK(threw == c.fail, threw ? "spurious-exception" : "lost-exception", "result() of task %d %s", c.id, threw ? "threw" : "did not throw");
    if (threw) SIM_CHECK(id == c.id, "wrong-exception", "task %d reported the exception of %d", c.id, id); else SIM_CHECK(v == c.id * 10, "wrong-result", "task %d reported %d", c.id, v);
    SIM_CHECK(++gh::at(GOT + c.id) == 1, "duplicate-result", "task %d", c.id);
}
template<class R> static void take(R&& r, Child c) {
    try {
        if constexpr (std::is_void_v<decltype(std::forward<R>(r).result())>) { std::forward<R>(r).result(); got(c, false, 0, c.id * 10); }
        else { auto&& v = std::forward<R>(r).result(); if constexpr (std::is_same_v<std::decay_t<decltype(v)>, Val>) got(c, false, 0, v.id()); else got(c, false, 0, (int)v); }
    } catch (Fail& f) { got(c, true, f.id, 0); }
}
static void all_done(const std::vector<Child>& cs) { for (auto& c : cs) SIM_CHECK(gh::at(FIN + c.id) == 1 && gh::at(ST + c.id) == 1, "early-resume", "the awaiter ran when task %d had started %ld and finished %ld times", c.id, gh::at(ST + c.id), gh::at(FIN + c.id)); }
static std::vector<Child> children(int n) { std::vector<Child> v; for (int i = 0; i < n; ++i) v.push_back(child(i)); return v; }
SCENARIO_W(C12, vector, 2) {
    gh::clear(); gh::at(ORDERED) = 1; auto cs = children(some(5, 60)); int style = sim::pick(3);
    { Exec e(1 + sim::pick(2));
      std::vector<task<Val>> ts; for (auto& c : cs) ts.push_back(c_val(e, c));
      auto w = when_all_ready(std::move(ts));
      SIM_CHECK(gh::at(NSTART) == 0, "eager-start", "a task ran before the aggregate was awaited");
      if (style == 0) { auto r = sync_wait(std::move(w)); all_done(cs); SIM_CHECK(r.size() == cs.size(), "wrong-result", "%zu results for %zu tasks", r.size(), cs.size()); for (size_t i = 0; i < r.size(); ++i) take(std::move(r[i]), cs[i]); }
      else if (style == 1) { auto f = [&]() -> task<> { auto r = AW(std::move(w)); all_done(cs); for (size_t i = 0; i < r.size(); ++i) take(r[i], cs[i]); }; sync_wait(f()); }
      else { auto f = [&]() -> task<> { auto&& r = co_await std::move(w); all_done(cs); for (size_t i = r.size(); i--;) take(std::move(r[i]), cs[i]); }; sync_wait(f()); } }
    all_done(cs); no_live("after the results were destroyed");
}
SCENARIO_W(C12, tuple, 2) {
    gh::clear(); gh::at(ORDERED) = 1; auto cs = children(4); int style = sim::pick(2); Val out;
    { Exec e(1 + sim::pick(2));
      auto w = when_all_ready(c_val(e, cs[0]), c_void(e, cs[1]), c_ref(e, cs[2], out), c_macro(e, cs[3]));
      SIM_CHECK(gh::at(NSTART) == 0, "eager-start", "a task ran before the aggregate was awaited");
      auto use = [&](auto&& r) { all_done(cs); take(std::get<0>(r), cs[0]); take(std::get<1>(r), cs[1]); take(std::get<2>(r), cs[2]); take(std::get<3>(r), cs[3]); };
      if (style == 0) { auto r = sync_wait(std::move(w)); use(r); }
      else { auto f = [&]() -> task<> { auto r = AW(std::move(w)); use(r); }; sync_wait(f()); } }
    no_live("after the results were destroyed");
}
// one, none, and many of one kind
SCENARIO(C12, sizes) {
    gh::clear(); gh::at(ORDERED) = 1; auto cs = children(9); int n = sim::pick(3);
    { Exec e(1 + sim::pick(2));
      auto f = [&]() -> task<> {
          if (n == 0) { auto r = co_await when_all_ready(); static_assert(std::tuple_size_v<decltype(r)> == 0); std::vector<task<Val>> none; auto q = co_await when_all_ready(std::move(none)); SIM_CHECK(q.empty(), "wrong-result", "%zu results for no tasks", q.size()); }
          else if (n == 1) { auto r = co_await when_all_ready(c_val(e, cs[0])); take(std::get<0>(r), cs[0]); }
          else { auto r = co_await when_all_ready(c_void(e, cs[0]), c_void(e, cs[1]), c_void(e, cs[2]), c_void(e, cs[3]), c_void(e, cs[4]), c_void(e, cs[5]), c_void(e, cs[6]), c_void(e, cs[7]), c_val(e, cs[8])); all_done(cs);
              take(std::get<8>(r), cs[8]); take(std::get<7>(r), cs[7]); take(std::get<6>(r), cs[6]); take(std::get<5>(r), cs[5]); take(std::get<4>(r), cs[4]); take(std::get<3>(r), cs[3]); take(std::get<2>(r), cs[2]); take(std::get<1>(r), cs[1]); take(std::get<0>(r), cs[0]); }
      };
      sync_wait(f()); }
    no_live("after the results were destroyed");
}
// a vector of eager tasks that already run, or of tasks without a value
template<class T, class Mk> static void vec_of(Mk mk, bool eager) {
    gh::clear(); auto cs = children(some(4, 40));
    { Exec e(1 + sim::pick(2)); OutV ov; std::vector<T> ts; for (auto& c : cs) ts.push_back(mk(e, c));
      if (!eager) SIM_CHECK(gh::at(NSTART) == 0, "eager-start", "a task ran before it was awaited");
      auto f = [&]() -> task<> { auto r = co_await when_all_ready(std::move(ts)); all_done(cs); SIM_CHECK(r.size() == cs.size(), "wrong-result", "%zu results for %zu tasks", r.size(), cs.size()); for (size_t i = 0; i < r.size(); ++i) take(r[i], cs[i]); };
      sync_wait(f()); }
    no_live("after the results were destroyed");
}
SCENARIO(C12, vector_void) { vec_of<task<void>>([](Exec& e, Child c) { return c_void(e, c); }, false); }
SCENARIO(C12, vector_macro) { vec_of<task<int>>([](Exec& e, Child c) { return c_macro(e, c); }, false); }
SCENARIO(C12, vector_reference) { vec_of<task<Val&>>([](Exec& e, Child c) { return c_ref(e, c, outv[c.id & 127]); }, false); }
SCENARIO(C12, vector_eager) { vec_of<eager_task<void>>([](Exec& e, Child c) { return make_eager(c_void(e, c)); }, true); }
// references to awaitables that outlive the aggregate, eager ones that already run, and nesting
SCENARIO(C12, references) {
    gh::clear(); gh::at(ORDERED) = 1; auto cs = children(3);
    { Exec e(1 + sim::pick(2)); Val out; auto a = c_void(e, cs[1]); auto b = make_eager(c_void(e, cs[0])); auto c = c_ref(e, cs[2], out);
      { auto f = [&]() -> task<> { auto r = co_await when_all_ready(a, b, std::move(c)); all_done(cs); take(std::get<0>(r), cs[1]); take(std::get<1>(r), cs[0]); take(std::get<2>(r), cs[2]); }; sync_wait(f()); } }
    no_live("after everything was destroyed");
}
static task<> pair_of(Exec& e, Child a, Child b) { Live l; auto r = co_await when_all_ready(c_val(e, a), c_void(e, b)); take(std::get<0>(r), a); take(std::get<1>(r), b); }
SCENARIO(C12, nested) {
    gh::clear(); gh::at(ORDERED) = 1; auto cs = children(4);
    { Exec e(1 + sim::pick(2)); auto f = [&]() -> task<> { auto r = co_await when_all_ready(pair_of(e, cs[0], cs[1]), pair_of(e, cs[2], cs[3])); all_done(cs); std::get<0>(r).result(); std::get<1>(r).result(); }; sync_wait(f()); }
    for (auto& c : cs) SIM_CHECK(gh::at(GOT + c.id) == 1, "lost-result", "task %d", c.id);
    no_live("after everything was destroyed");
}
// results that fail as they are moved: that task reports the failure, the others their values
SCENARIO(C12, brittle) {
    gh::clear(); gh::at(ORDERED) = 1; int n = 1 + sim::pick(3); auto cs = children(n); bool vec = sim::pick(2); int burns = 0;
    { Exec e(1 + sim::pick(2)); Brittle::arm();
      auto use = [&](auto&& r, const Child& c) { try { int id; if (sim::pick(2)) { Brittle b = std::move(r).result(); id = b.id(); } else id = r.result().id(); SIM_CHECK(!c.fail && id == c.id * 10, "wrong-result", "task %d reported %d", c.id, id); } catch (Fail& f) { if (f.id == Brittle::ID) ++burns; else SIM_CHECK(c.fail && f.id == c.id, "wrong-exception", "task %d reported exception %d", c.id, f.id); } };
      auto f = [&]() -> task<> {
          if (vec || n < 3) { std::vector<task<Brittle>> ts; for (auto& c : cs) ts.push_back(c_brittle(e, c)); auto r = co_await when_all_ready(std::move(ts)); all_done(cs); for (int i = 0; i < n; ++i) use(std::move(r[i]), cs[i]); }
          else { auto r = co_await when_all_ready(c_brittle(e, cs[0]), c_brittle(e, cs[1]), c_brittle(e, cs[2])); all_done(cs); use(std::move(std::get<0>(r)), cs[0]); use(std::move(std::get<1>(r)), cs[1]); use(std::move(std::get<2>(r)), cs[2]); } };
      sync_wait(f()); SIM_CHECK(burns == (int)gh::at(Brittle::BURNT), "lost-exception", "%ld moves of a result failed, %d failures were delivered", gh::at(Brittle::BURNT), burns); }
    no_live("after the results were destroyed");
}
// an aggregate that is never awaited starts nothing; one that is awaited twice runs everything once
SCENARIO(C12, unawaited) {
    gh::clear(); gh::at(ORDERED) = 1; auto cs = children(2);
    { Exec e(1); auto w = when_all_ready(c_val(e, cs[0]), c_void(e, cs[1])); if (sim::pick(2)) { auto v = std::move(w); auto f = [&]() -> task<> { if (sim::pick(2)) { (void)co_await v; (void)co_await v; } else { (void)co_await std::move(v); (void)co_await std::move(v); } }; sync_wait(f()); all_done(cs); } else SIM_CHECK(gh::at(NSTART) == 0, "eager-start", "a task ran although the aggregate was never awaited"); }
    no_live("after the aggregate was destroyed");
}
// creating the aggregate may run out of memory; nothing may leak or start
SCENARIO(C12, creation_failure) {
    gh::clear(); gh::at(ORDERED) = 1; auto cs = children(3); bool made = false;
    { Exec e(1);
      try { sim::alloc_faults(true); auto w = when_all_ready(c_val(e, cs[0]), c_void(e, cs[1]), c_macro(e, cs[2])); sim::alloc_faults(false); made = true; auto r = sync_wait(std::move(w)); all_done(cs); take(std::get<0>(r), cs[0]); take(std::get<1>(r), cs[1]); take(std::get<2>(r), cs[2]); }
      catch (std::bad_alloc&) { sim::alloc_faults(false); sim::probe("when-all-creation-failed"); SIM_CHECK(!made, "late-bad-alloc", "allocation failed after creation"); SIM_CHECK(gh::at(NSTART) == 0, "eager-start", "a task ran although the aggregate could not be created"); } }
    no_live("after the aggregate was destroyed");
}

// ---------------------------------------------------------------- C13 when_all_scope
// body: starts children, awaits some, drops others, may throw; co_await of the scope must come back
// only when the body and all children are done, and destroy every frame.
struct Body { int n; int how[40]; uint64_t hop; int fail; };
template<class T> static when_all_scope scope_co(Exec& e, std::vector<Child>& cs, Body b) {
    Live l; Val v(77); gh::at(NSTART)++;
    scoped_task<T> h[40]; int i;
    for (i = 0; i < b.n; ++i) {
        if (b.hop >> i & 1) co_await e.hop();
        scoped_task<T> t = co_await scoped(mk_child<T>(e, cs[i]));
        SIM_CHECK(gh::at(ST + i) == 1, "not-started", "child %d was not started", i);
        if (b.how[i] == DROP_NOW) { } else if (b.how[i] == KEEP_AWAIT) co_await await_child(t, cs[i]); else h[i] = std::move(t);
    }
    if (b.fail == 1) { gh::at(NFIN)++; throw_fail(99); }
    for (i = 0; i < b.n; ++i) if (b.how[i] == KEEP_AWAIT_AFTER) co_await await_child(h[i], cs[i]);
    SIM_CHECK(v.id() == 77, "corrupt-local", "body local");
    if (b.hop >> 63) co_await e.hop();
    gh::at(NFIN)++;
}
static Body body(int n, bool mayfail) { Body b; b.n = n; b.hop = 0; for (int i = 0; i < 40; ++i) { b.how[i] = i < n ? sim::pick(4) : 0; if (i < n) b.hop |= (uint64_t)sim::pick(2) << i; } b.hop |= (uint64_t)sim::pick(2) << 63; b.fail = mayfail ? sim::pick(2) : 0; return b; }
static void was_check(const std::vector<Child>& cs, const Body& b) {
    for (int i = 0; i < b.n; ++i) {
        SIM_CHECK(gh::at(ST + i) <= 1, "double-start", "child %d", i);
        if (gh::at(ST + i)) SIM_CHECK(gh::at(FIN + i) == 1, "early-join", "the scope completed before child %d finished", i);
        if (!b.fail) { SIM_CHECK(gh::at(ST + i) == 1, "not-started", "child %d", i); if (b.how[i] == KEEP_AWAIT || b.how[i] == KEEP_AWAIT_AFTER) SIM_CHECK(gh::at(GOT + i) == 1, "lost-result", "child %d", i); }
    }
    SIM_CHECK(gh::at(NSTART) == gh::at(NFIN), "early-join", "the scope completed before its body or a child did: %ld started, %ld finished", gh::at(NSTART), gh::at(NFIN));
}
template<class T> static void was_run(bool mayfail, int childfail) {
    gh::clear(); OutV ov;
    Body b = body(some(4, 40), mayfail); std::vector<Child> cs; for (int i = 0; i < 3 || i < b.n; ++i) cs.push_back(child(i, childfail));
    { Exec e(1 + sim::pick(2)); bool two = sim::pick(3) == 2;
      auto f = [&]() -> task<> { Live l; try { co_await scope_co<T>(e, cs, b); } catch (async_scope_exception& x) { take_scope_exception(x); } was_check(cs, b); };
      auto g = [&]() -> task<> { Live l; auto s = scope_co<T>(e, cs, b); int mv = sim::pick(4);
          if (mv == 1) { auto u = std::move(s); auto o = scope_co<T>(e, cs, b); o = std::move(u); s = std::move(o); } else if (mv == 2) { std::vector<when_all_scope> v; v.push_back(std::move(s)); v.push_back(scope_co<T>(e, cs, b)); s = std::move(v[0]); v.erase(v.begin()); } else if (mv == 3) { auto o = scope_co<T>(e, cs, b); std::swap(o, s); }
          SIM_CHECK(gh::at(NSTART) == 0, "eager-start", "the body ran before the scope was awaited"); try { co_await s; } catch (async_scope_exception& x) { take_scope_exception(x); } was_check(cs, b); };
      sync_wait(two ? g() : f()); }
    no_live("after the scope was destroyed");
}
SCENARIO_W(C13, values, 2) { was_run<Val>(false, 0); }
SCENARIO(C13, voids) { was_run<void>(false, 0); }
SCENARIO(C13, references) { was_run<Val&>(false, 0); }
SCENARIO(C13, macro_children) { was_run<int>(false, 0); }
SCENARIO(C13, failing) { was_run<Val>(true, 30); }
SCENARIO(C13, never_awaited) {
    gh::clear(); std::vector<Child> cs; for (int i = 0; i < 3; ++i) cs.push_back(child(i, 0)); Body b = body(2, false);
    { Exec e(1); auto s = scope_co<Val>(e, cs, b); SIM_CHECK(gh::at(NSTART) == 0, "eager-start", "the body ran before the scope was awaited"); }
    no_live("after the scope was destroyed");
}
// what unawaited children and the body throw comes out of the join
SCENARIO(C13, exceptions) {
    gh::clear(); Body b = body(1 + some(3, 39), true); for (auto& h : b.how) h = DROP_NOW; std::vector<Child> cs; int expect = b.fail; for (int i = 0; i < 3 || i < b.n; ++i) { cs.push_back(child(i, 40)); if (i < b.n) expect += cs[i].fail; }
    { Exec e(1 + sim::pick(2)); size_t n = 0;
      auto f = [&]() -> task<> { try { co_await scope_co<Val>(e, cs, b); } catch (async_scope_exception& x) { n = x.m_exceptions.size(); } };
      sync_wait(f()); SIM_CHECK((int)n == expect, "lost-exception", "%d exceptions were thrown in the scope, the join reported %zu", expect, n); }
}
