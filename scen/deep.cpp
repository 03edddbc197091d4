// Stack depth of long await chains.  Built with -O2 and without the access instrumentation (configuration
// "deep"), because only then does the compiler turn symmetric transfer into tail calls; everything here
// runs on one simulated thread.
#include "hop.h"
#include "macoro/wrap.h"
#include "lib.inc"
using namespace macoro;

static char *lo, *hi;
static __attribute__((noinline)) void mark() { char c; char* volatile p = &c; if (p < lo) lo = p; if (p > hi) hi = p; }
static task<int> n_leaf(int v, bool f) { mark(); if (f) throw_fail(v); co_return v; }
static task<int> m_leaf(int v, bool f) { MC_BEGIN(task<int>, v, f); mark(); if (f) throw_fail(v); MC_RETURN(v); MC_END(); }
static task<void> n_void() { mark(); co_return; }
static int& cell() { static int x = 1; return x; }
static task<int&> n_ref() { mark(); co_return cell(); }
static eager_task<int> e_leaf(int v) { mark(); co_return v; }
// style: bit 0 native or macro child, bit 1 lvalue or rvalue, bit 2 wrapped
static task<int> leaf(int style, int v, bool f) { return style & 1 ? m_leaf(v, f) : n_leaf(v, f); }
static task<int> n_loop(int n, int style) {
    int s = 0;
    for (int i = 0; i < n; ++i) {
        if (style & 8 && i % 3 == 0) { co_await n_void(); int& x = co_await n_ref(); s += x; }
        else if (style & 16 && i % 3 == 1) s += co_await e_leaf(1);
        else if (style & 4) { auto r = co_await (leaf(style, 1, i & 1) | wrap()); s += r.has_error() ? 1 : r.value(); }
        else if (style & 2) { auto t = leaf(style, 1, false); co_await t.when_ready(); s += co_await t; }
        else s += co_await leaf(style, 1, false);
        mark();
    }
    co_return s;
}
static task<int> m_loop(int n, int style) {
    MC_BEGIN(task<int>, n, style, s = 0, i = 0, v = 0, r = result<int>(Ok(0)));
    for (i = 0; i < n; ++i) {
        if (style & 4) { MC_AWAIT_TRY(r, leaf(style, 1, i & 1)); s += r.has_error() ? 1 : r.value(); }
        else if (style & 16 && i % 3 == 1) { MC_AWAIT_SET(v, e_leaf(1)); s += v; }
        else { MC_AWAIT_SET(v, leaf(style, 1, false)); s += v; }
        mark();
    }
    MC_RETURN(s);
    MC_END();
}
static task<int> rec(int n, int kinds);
static task<int> n_rec(int n, int kinds) { mark(); int x = 0; if (n) { if (kinds & 8) { auto t = rec(n - 1, kinds); x = co_await t; } else x = co_await rec(n - 1, kinds); ++x; mark(); } else if (kinds & 16) throw_fail(1); co_return x; }
static task<int> m_rec(int n, int kinds) { MC_BEGIN(task<int>, n, kinds, x = 0); mark(); if (n) { MC_AWAIT_SET(x, rec(n - 1, kinds)); ++x; mark(); } else if (kinds & 16) { throw_fail(1); } MC_RETURN(x); MC_END(); }
static task<int> rec(int n, int kinds) {
    int k = kinds & 3; bool m = k == 1 || (k == 2 && n % 2) || (k == 3 && n % 7 == 0);
    task<int> t = m ? m_rec(n, kinds) : n_rec(n, kinds);
    if (kinds & 4 && n % 5 == 0) return make_task(std::move(t));
    return t;
}
// The stack a chain of n levels or steps uses must not depend on n: a tenth of it is measured first.
template<class F> static void bounded(const char* what, F f) {
    int n = 300 + sim::pick(500); long small = 0;
    for (int m : { n / 10, n }) {
        lo = (char*)~0ull; hi = nullptr; f(m);
        long d = hi - lo;
        if (m != n) small = d;
        else SIM_CHECK(d <= small + 1024, "unbounded-stack", "%s of %d uses %ld bytes of stack, one of %d uses %ld", what, n, d, n / 10, small);
    }
}
SCENARIO(C09, long_loop) { int st = sim::pick(32); bool mac = sim::pick(2); bounded("a loop", [&](int n) { int r = sync_wait(mac ? m_loop(n, st) : n_loop(n, st)); SIM_CHECK(r == n, "wrong-result", "%d awaits summed to %d", n, r); }); }
SCENARIO(C09, long_chain) { int k = sim::pick(32); bounded("a chain", [&](int n) { bool thrown = false; int r = 0; try { r = sync_wait(rec(n, k)); } catch (Fail&) { thrown = true; } SIM_CHECK(thrown == !!(k & 16) && (thrown || r == n), "wrong-result", "a chain of %d returned %d", n, r); }); }
