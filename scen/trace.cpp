// Asynchronous stack traces: what co_await get_trace{} reports, wherever and on whatever thread it runs.
#include "hop.h"
#include "macoro/macros.h"
#include "macoro/trace.h"
#include "macoro/when_all.h"
#include "macoro/when_all_scope.h"
#include "macoro/async_scope.h"
#include "macoro/start_on.h"
#include "macoro/wrap.h"
#include "lib.inc"
using namespace macoro;

// The await a coroutine is in, as the harness knows it: a line of this file, then those of its awaiters.
struct Fr { const Fr* up; unsigned line; };
struct Ctx {
    Exec& e; std::mutex m; std::deque<Fr> frames; int budget; std::atomic<int> taken{ 0 };
    Ctx(Exec& e, int b) : e(e), budget(b) {}
    const Fr* at(const Fr* up, unsigned line) { std::lock_guard<std::mutex> l(m); frames.push_back(Fr{ up, line }); return &frames.back(); }
    bool spend() { std::lock_guard<std::mutex> l(m); return budget > 0 && budget--; }
};
static void check_trace(trace t, unsigned line, const Fr* up, Ctx& c) {
    c.taken++; std::vector<unsigned> got, want{ line };
    for (const Fr* f = up; f; f = f->up) want.push_back(f->line);
    SIM_CHECK(!t.stack.empty() && !strcmp(t.stack[0].file_name(), __FILE__), "wrong-trace", "the trace does not begin where it was taken");
    for (auto& l : t.stack) if (!strcmp(l.file_name(), __FILE__)) got.push_back(l.line());
    auto show = [](const std::vector<unsigned>& v) { std::string s; for (unsigned x : v) s += " " + std::to_string(x); return s; };
    if (got != want) sim::violate(got.size() < want.size() ? "short-trace" : "wrong-trace", "the awaits that led here are at lines%s, the trace lists%s", show(want).c_str(), show(got).c_str());
    std::string s = t.str(); size_t n = 0; for (char ch : s) n += ch == '\n';
    SIM_CHECK(n == t.stack.size(), "wrong-text", "the text has %zu lines for %zu entries", n, t.stack.size());
    for (unsigned x : want) SIM_CHECK(s.find(":" + std::to_string(x) + "\n") != std::string::npos, "wrong-text", "the text lacks line %u", x);
}
#define HERE(c, up) (c).at(up, __LINE__)
#define TRACE(c, up) check_trace(co_await get_trace{}, __LINE__, up, c)

static task<int> node(Ctx& c, const Fr* up, int d);
static task<void> vnode(Ctx& c, const Fr* up, int d) {
    if (sim::pick(2)) co_await c.e.hop();
    TRACE(c, up);
    if (d > 0 && c.spend()) { int v = co_await node(c, HERE(c, up), d - 1); (void)v; }
    if (sim::pick(2)) TRACE(c, up);
}
static int g_ref;
static task<int&> rnode(Ctx& c, const Fr* up, int d) {
    if (sim::pick(2)) co_await c.e.hop();
    TRACE(c, up);
    if (d > 0 && c.spend()) co_await vnode(c, HERE(c, up), d - 1);
    co_return g_ref;
}
// awaits in macro style are located in the library's macros, not here; their own traces are not
static task<int> mnode(Ctx& c, const Fr* up, int d) {
    MC_BEGIN(task<int>, &c, up, d, v = 0);
    if (sim::pick(2)) { MC_AWAIT(c.e.hop()); }
#define GOT_(X) (void)(X)
#define CHECK_(X) check_trace(X, __LINE__, up, c)
    MC_AWAIT_FN(CHECK_, get_trace{});
    if (d > 0) { MC_AWAIT_SET(v, node(c, up, d - 1)); }
    MC_AWAIT_FN(CHECK_, get_trace{});
    MC_RETURN(v);
    MC_END();
}
static task<int> mjoin(Ctx& c, const Fr* up, int d) {
    using W = decltype(when_all_ready(node(c, up, d), vnode(c, up, d)));
    MC_BEGIN(task<int>, &c, up, d, w = std::optional<W>{}, v = 0);
    if (sim::pick(2)) {
        w.emplace(when_all_ready(node(c, up, d), vnode(c, up, d)));
        { MC_AWAIT(*w); }
    } else {
        MC_AWAIT_FN(GOT_, when_all_ready(node(c, up, d), vnode(c, up, d)));
    }
    MC_AWAIT_FN(CHECK_, get_trace{});
    MC_RETURN(v);
    MC_END();
}
static eager_task<int> enode(Ctx& c, int d) {
    if (sim::pick(2)) co_await c.e.hop();
    int v = co_await node(c, HERE(c, nullptr), d - 1);     // an eager task does not know its awaiter
    co_return v;
}
static task<int> thrower(Ctx& c, const Fr* up) { co_await c.e.hop(); TRACE(c, up); throw_fail(3); }
static task<int> plain(Ctx& c, const Fr* up) { TRACE(c, up); co_return 1; }           // does not need the executor
static when_all_scope scope_node(Ctx& c, const Fr* up, int d) {
    if (sim::pick(2)) co_await c.e.hop();
    int v = co_await node(c, HERE(c, up), d - 1); (void)v;
    auto s = co_await scoped(node(c, HERE(c, up), d - 1));
    auto t = co_await (vnode(c, HERE(c, up), d - 1) | scoped());
    if (sim::pick(2)) { int w = co_await std::move(s); (void)w; }
    if (sim::pick(2)) co_await std::move(t);
    if (sim::pick(2)) { auto r = co_await scoped(vnode(c, HERE(c, up), d - 1)); co_await std::move(r); }
}
static task<int> node(Ctx& c, const Fr* up, int d) {
    if (sim::pick(3) == 1) co_await c.e.hop();
    if (sim::pick(2)) TRACE(c, up);
    int n = d > 0 && c.spend() ? 1 + sim::pick(2) : 0;
    for (int i = 0; i < n; ++i) switch (sim::pick(20)) {
    case 0: { int v = co_await node(c, HERE(c, up), d - 1); (void)v; break; }
    case 1: co_await vnode(c, HERE(c, up), d - 1); break;
    case 2: { auto r = co_await (node(c, HERE(c, up), d - 1) | wrap()); SIM_CHECK(r.has_value(), "wrong-outcome", "the wrapped task failed"); break; }
    case 3: { auto r = co_await wrap(thrower(c, HERE(c, up))); SIM_CHECK(r.has_error(), "wrong-outcome", "the exception was lost"); break; }
    case 4: { int v = co_await mnode(c, HERE(c, up), d - 1); (void)v; break; }
    case 5: { auto r = co_await when_all_ready(node(c, HERE(c, up), d - 1), vnode(c, HERE(c, up), d - 1)); (void)std::get<0>(r).result(); std::get<1>(r).result(); break; }
    case 6: { std::vector<task<int>> v; auto f = c.at(up, __LINE__ + 1); for (int k = 0; k <= (int)sim::pick(3); ++k) v.push_back(node(c, f, d - 1));
              auto r = co_await when_all_ready(std::move(v)); for (auto& x : r) (void)x.result(); break; }
    case 7: co_await scope_node(c, HERE(c, up), d - 1); break;
    case 8: { async_scope s; auto t = s.add(node(c, HERE(c, nullptr), d - 1)); { auto u = s.add(vnode(c, HERE(c, nullptr), d - 1)); } int v = co_await std::move(t); (void)v; co_await s; break; }
    case 9: { int v = co_await enode(c, d - 1); (void)v; break; }
    case 10: { int v = co_await start_on(c.e, node(c, nullptr, d - 1)); (void)v; break; }       // as above
    case 11: { int v = sync_wait(plain(c, HERE(c, nullptr))); (void)v; break; }                // a trace ends at the blocking wait
    case 12: { int& v = co_await rnode(c, HERE(c, up), d - 1); SIM_CHECK(&v == &g_ref, "wrong-outcome", "another reference"); break; }
    // the same, awaited by name
    case 14: { auto w = when_all_ready(node(c, c.at(up, __LINE__ + 1), d - 1), vnode(c, c.at(up, __LINE__ + 1), d - 1));
               auto& r = co_await w; (void)std::get<0>(r).result(); std::get<1>(r).result(); break; }
    case 15: { std::vector<task<void>> v; auto f = c.at(up, __LINE__ + 1); for (int k = 0; k <= (int)sim::pick(3); ++k) v.push_back(vnode(c, f, d - 1));
               auto w = when_all_ready(std::move(v)); auto& r = co_await w; for (auto& x : r) x.result(); break; }
    case 16: { auto t = vnode(c, c.at(up, __LINE__), d - 1); co_await t; break; }
    case 17: { auto t = node(c, c.at(up, __LINE__), d - 1); auto r = co_await (t | wrap()); SIM_CHECK(r.has_value(), "wrong-outcome", "the wrapped task failed"); break; }
    case 18: { int v = co_await mjoin(c, HERE(c, up), d - 1); (void)v; break; }
    case 19: { auto t = node(c, c.at(up, __LINE__ + 1), d - 1);
               auto r = co_await when_all_ready(wrap(t), vnode(c, HERE(c, up), d - 1)); SIM_CHECK(std::get<0>(r).result().has_value(), "wrong-outcome", "the wrapped task failed"); std::get<1>(r).result(); break; }
    case 13: { auto t = node(c, c.at(up, __LINE__), d - 1); int v = co_await std::move(t); (void)v; break; }
    }
    TRACE(c, up);
    co_return 1;
}
static void traces(int depth, int budget, int threads) {
    gh::clear();
    {
        Exec e(1 + sim::pick(2)); Ctx c(e, 1 + sim::pick(budget));
        {
            Threads T; for (int i = 1; i < threads; ++i) T.go([&] { int v = sync_wait(node(c, HERE(c, nullptr), depth)); (void)v; });
            if (sim::pick(2)) { int v = sync_wait(node(c, HERE(c, nullptr), depth)); (void)v; }
            else { auto b = make_blocking(node(c, HERE(c, nullptr), depth)); (void)b.get(); }
        }
        SIM_CHECK(c.taken > 0, "harness", "no trace was taken");
    }
}
SCENARIO(C26, chain) { traces(4, 3, 1); }
SCENARIO_W(C26, tree, 2) { traces(3, 6, 1); }
SCENARIO(C26, two_roots) { traces(2, 4, 2); }
