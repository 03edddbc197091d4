#pragma once
#include "simstd.h"
#include "macoro/config.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/detail/operation_cancelled.h"

// a size: below `few` nearly always, now and then up to `many`
inline int some(int few, int many, int rate = 100) { return (int)sim::pick((int)sim::pick(rate) == rate - 1 ? many : few); }
// a fraction of a second to add to a delay, mostly none, and the delay in one of the units that can express it
inline long fraction() { switch (sim::pick(8)) { case 4: return 1; case 5: return 999999999; case 6: return 1500000; case 7: return 250000000; default: return 0; } }
template<class F> decltype(auto) in_some_unit(long ns, F&& f) {
    using namespace std::chrono; int u = sim::pick(6);
    if (u == 5 && ns % 3600000000000 == 0) return f(hours(ns / 3600000000000));
    if (u == 4 && ns % 60000000000 == 0) return f(minutes(ns / 60000000000));
    if (u <= 2 && ns % 1000000000 == 0) return f(seconds(ns / 1000000000));
    if (u <= 3 && ns % 1000000 == 0) return f(milliseconds(ns / 1000000));
    if (u <= 4 && ns % 1000 == 0) return f(microseconds(ns / 1000));
    return f(nanoseconds(ns));
}
// ---- ghost state: plain globals, invisible to the race detector, written only by the harness ----
namespace gh {
inline long v[1024];
inline long& at(int i) { return v[i]; }
inline void clear() { for (auto& x : v) x = 0; }
}

// A tracked value: owns heap memory, so that losing, duplicating or double-destroying it is seen by
// the simulator; reading a moved-from or never-set one is visible as id -1.
struct Val {
    std::unique_ptr<int> p;
    Val() {}
    explicit Val(int i) : p(new int(i)) {}
    Val(Val&&) = default;
    Val& operator=(Val&&) = default;
    int id() const { return p ? *p : -1; }
};
// What bodies throw, under several unrelated types: a handler for one of them must not be enough.
struct Fail {
    int id; bool named; char text[24];
    Fail(int i, bool named = false) : id(i), named(named) { ++sim::ext_live; snprintf(text, sizeof text, "<child %d>", i); }
    Fail(const Fail& f) : Fail(f.id, f.named) {}
    virtual ~Fail() { --sim::ext_live; }
};
struct StdFail : std::exception, Fail { StdFail(int i) : Fail(i, true) {} const char* what() const noexcept override { return text; } };
struct CancelFail : macoro::operation_cancelled, Fail { CancelFail(int i) : Fail(i, true) {} const char* what() const noexcept override { return text; } };
[[noreturn]] inline void throw_fail(int id) { switch (sim::pick(4)) { case 1: throw Fail{ id }; case 2: throw CancelFail{ id }; default: throw StdFail{ id }; } }

// A result whose n-th move fails (or none): whoever is moving it gets the failure, nobody gets half a value.
struct Brittle {
    enum { LEFT = 1022, BURNT = 1023, ID = 100 };
    static bool burnt() { return gh::at(BURNT); }
    static void arm() { gh::at(LEFT) = 1 + sim::pick(8); }
    static void fuse() { if (--gh::at(LEFT) == 0) { gh::at(BURNT)++; throw_fail(ID); } }
    Val v; explicit Brittle(int i) : v(i) {}
    Brittle(Brittle&& o) noexcept(false) : v((fuse(), std::move(o.v))) {}
    int id() const { return v.id(); }
};

// threads joined at scope end
struct Threads {
    std::vector<std::thread> t;
    template<class F> void go(F&& f) { t.emplace_back(std::forward<F>(f)); }
    void join() { for (auto& x : t) x.join(); t.clear(); }
    ~Threads() { join(); }
};
// a few harness scheduling points
inline void jitter(int n) { for (int i = 0; i < n; ++i) sim::point(); }

// Awaiting from both kinds of coroutine.  AW(x) awaits x directly, or from a macro-style coroutine the
// caller awaits in turn, so that the macoro::coroutine_handle side of every awaitable runs as well.
template<class T> using value_of = std::conditional_t<std::is_rvalue_reference_v<T>, std::remove_reference_t<T>, T>;
template<class F> using aw_result = value_of<macoro::awaitable_result_t<std::invoke_result_t<F&>>>;
template<class F> static macoro::task<aw_result<F>> via_macro(F f) requires(!std::is_void_v<aw_result<F>>) {
    MC_BEGIN(macoro::task<aw_result<F>>, f);
    MC_RETURN_AWAIT(f());
    MC_END();
}
template<class F> static macoro::task<void> via_macro(F f) requires(std::is_void_v<aw_result<F>>) {
    MC_BEGIN(macoro::task<void>, f);
    MC_AWAIT(f());
    MC_RETURN_VOID();
    MC_END();
}
template<class F> static macoro::task<aw_result<F>> via_std(F f) { co_return co_await f(); }
template<class F> static auto via(F f) { return sim::pick(2) ? via_macro(f) : via_std(f); }
#define AW(...) (co_await via([&]() -> decltype(auto) { return (__VA_ARGS__); }))
