#include "common.h"
#include "macoro/channel.h"
#include "macoro/when_all.h"
#include "macoro/transfer_to.h"
#include "macoro/thread_pool.h"
#include "lib.inc"
using namespace macoro;

// ghost indices
enum { GRANTED = 0, RELEASED = 1, CLOSED = 2, NEXT = 8, SEEN = 40, PDONE = 100 };

struct Cfg { int cap, n, pstyle, cstyle, exec, np; bool close, wrap; };
static Cfg cfg(int np) {
    Cfg c;
    c.np = np; c.cap = 1 << some(3, 7); c.n = np == 1 ? some(7, 90) : some(4, 40); c.pstyle = (int)sim::pick(7); c.cstyle = (int)sim::pick(5);
    c.exec = (int)sim::pick(4); c.close = true; gh::clear(); return c;
}
static void granted(int cap) {
    gh::at(GRANTED)++;
    SIM_CHECK(gh::at(GRANTED) - gh::at(RELEASED) <= cap, "capacity-exceeded", "a sender was granted slot number %ld although only %ld of %d slots had been freed", gh::at(GRANTED), gh::at(RELEASED), cap);
}
// holding one slot while waiting for the next needs room for both, whatever the other senders do
static bool np_safe(const Cfg& c) { return c.np == 1 ? c.cap >= 2 : c.n * c.np <= c.cap; }
template<class S> static task<void> produce(S& s, int id, Cfg c) {
    if (c.pstyle == 5 && (np_safe(c))) {   // one wrapper, assigned over while it still holds a slot
        typename S::push_wrapper w;
        for (int i = 0; i < c.n; ++i) { w = AW(s.push()); granted(c.cap); jitter(1); w = Val(id * 100 + i); }
        co_return;
    }
    for (int i = 0; i < c.n; ++i) {
        int x = id * 100 + i;
        if constexpr (requires { s.push(Val(1)); }) if (c.pstyle == 4) { AW(s.push(Val(x))); granted(c.cap); continue; }
        {
            auto w = AW(s.push());
            granted(c.cap);
            if (c.pstyle == 1) jitter(1);
            if (c.pstyle == 3) { Val& r = w; r = Val(x); }
            else if (c.pstyle == 6) { Val& r0 = w; r0 = Val(9000); w = Val(9001); Val& r1 = (w = Val(x)); Val& r2 = w; SIM_CHECK(r2.id() == x && &r1 == &r2, "wrong-slot", "the slot holds %d after %d was assigned", r2.id(), x); }
            else w = Val(x);
            if (c.pstyle == 2) { auto w2 = std::move(w); w2.publish(); }
            else if (c.pstyle == 1) { jitter(1); w.publish(); }
        }
    }
}
template<class S> static task<void> close_it(S& s, Cfg c) {
    gh::at(CLOSED)++;
    AW(s.close());
}
// counts: the terminal value also occupies a slot; count it as granted before closing is not possible
// through the public interface, so the capacity bound is only checked on value slots.
static void seen(Val& v, Cfg c, const char* how) {
    int x = v.id(); int id = x / 100, i = x % 100;
    SIM_CHECK(x >= 0 && id < c.np && i < c.n, "garbage-value", "receiver read %d through %s, a value nobody sent", x, how);
    SIM_CHECK(gh::at(NEXT + id) == i, gh::at(NEXT + id) > i ? "duplicate-value" : "lost-or-reordered-value", "receiver got value %d of sender %d through %s, expected value %ld", i, id, how, gh::at(NEXT + id));
    gh::at(NEXT + id)++;
}
template<class R> static task<int> consume(R& r, Cfg c, int terminals) {
    int total = 0;
    if (c.cstyle == 4) {   // one wrapper used again and again
        std::remove_cvref_t<macoro::awaitable_result_t<decltype(r.pop())>> w;
        for (;; ++total) {
            bool closed = false;
            try { w = AW(r.pop()); } catch (channel_closed_exception&) { closed = true; }
            if (closed) break;
            { Val v(std::move(*w.operator->())); seen(v, c, "pop()"); }
            gh::at(RELEASED)++; w.publish();
        }
        SIM_CHECK(gh::at(CLOSED), "phantom-close", "the receiver saw the end of the stream before any sender closed it");
        co_return total;
    }
    for (;;) {
        if (c.cstyle == 0 || c.cstyle == 3) {
            // front() until it reports the end, then take the element
            bool closed = false;
            try {
                Val& v = AW(r.front());
                int a = v.id();
                if (c.cstyle == 3) { jitter(2); Val& v2 = AW(r.front()); SIM_CHECK(&v2 == &v && v2.id() == a, "front-unstable", "the front element changed from %d to %d before it was popped", a, v2.id()); }
                seen(v, c, "front()");
            } catch (channel_closed_exception&) { closed = true; }
            if (closed) break;
            auto w = AW(r.pop());
            gh::at(RELEASED)++;
        } else {
            bool closed = false;
            try {
                auto w = AW(r.pop());
                {
                    Val v(std::move(*w));
                    if (c.cstyle == 2) jitter(2);
                    seen(v, c, "pop()");
                }
                gh::at(RELEASED)++;
                if (c.cstyle == 2) { auto w2 = std::move(w); w2.publish(); }
            } catch (channel_closed_exception&) { closed = true; }
            if (closed) break;
        }
        ++total;
    }
    SIM_CHECK(gh::at(CLOSED), "phantom-close", "the receiver saw the end of the stream before any sender closed it");
    co_return total;
}
static void finish(Cfg c, int total) {
    for (int p = 0; p < c.np; ++p) SIM_CHECK(gh::at(NEXT + p) == c.n, "lost-value", "receiver got %ld of %d values of sender %d before the end of the stream", gh::at(NEXT + p), c.n, p);
    SIM_CHECK(total == c.n * c.np, "count", "receiver counted %d values, %d were sent", total, c.n * c.np);
}
template<class S> static task<void> prod_close(S& s, int id, Cfg c, std::atomic<int>& left) {
    co_await produce(s, id, c);
    if (left.fetch_sub(1) == 1) co_await close_it(s, c);
}
template<class A> static task<A> on_pool(thread_pool& p, task<A> t) { co_await p.schedule(); if constexpr (std::is_void_v<A>) co_await std::move(t); else co_return co_await std::move(t); }

template<template<class> class CH> static void channel_run(int np, bool split) {
    Cfg c = cfg(np);
    std::atomic<int> left(np);
    int total = -1;
    auto body = [&](auto& s, auto& r) {
        if (c.exec == 3 && np <= 2) {
            // everything interleaves cooperatively on one thread
            if (np == 1) { auto t = sync_wait(when_all_ready(prod_close(s, 0, c, left), consume(r, c, 1))); std::get<0>(t).result(); total = std::get<1>(t).result(); }
            else { auto t = sync_wait(when_all_ready(prod_close(s, 0, c, left), consume(r, c, 1), prod_close(s, 1, c, left))); std::get<0>(t).result(); std::get<2>(t).result(); total = std::get<1>(t).result(); }
        } else if (c.exec == 2) {
            thread_pool::work w; thread_pool tp(1 + sim::pick(2), w);
            { Threads T;
              for (int p = 0; p < np; ++p) T.go([&, p] { sync_wait(on_pool<void>(tp, prod_close(s, p, c, left))); });
              T.go([&] { total = sync_wait(on_pool<int>(tp, consume(r, c, 1))); }); }
            w.reset();
        } else {
            Threads T;
            for (int p = 0; p < np; ++p) T.go([&, p] { sync_wait(prod_close(s, p, c, left)); });
            if (c.exec == 1) T.go([&] { total = sync_wait(consume(r, c, 1)); });
            else total = sync_wait(consume(r, c, 1));
        }
    };
    (void)split;
    CH<Val>::call(c.cap, body);
    finish(c, total);
}
template<class T> struct Spsc { template<class B> static void call(int cap, B& b) { auto [s, r] = spsc::make_channel<T>(cap); b(s, r); } };
template<class T> struct SpscObj { template<class B> static void call(int cap, B& b) { spsc::channel<T> ch(cap); b(ch, ch); } };
template<class T> struct Mpsc { template<class B> static void call(int cap, B& b) { auto [s, r] = mpsc::make_channel<T>(cap); b(s, r); } };
template<class T> struct MpscObj { template<class B> static void call(int cap, B& b) { mpsc::channel<T> ch(cap); b(ch, ch); } };

SCENARIO_W(C01, spsc_endpoints, 6) { channel_run<Spsc>(1, true); }
SCENARIO_W(C01, spsc_object, 3) { channel_run<SpscObj>(1, false); }
SCENARIO_W(C02, mpsc_two_senders, 6) { channel_run<Mpsc>(2, true); }
SCENARIO_W(C02, mpsc_three_senders, 3) { channel_run<MpscObj>(3, false); }
SCENARIO(C02, mpsc_one_sender) { channel_run<MpscObj>(1, false); }

// Every item is acknowledged before the next is sent, so that no later event can stand in for a wake-up that was forgotten.
template<class S, class R> static task<void> ping(S& s, R& back, int n) {
    for (int i = 0; i < n; ++i) { { auto w = AW(s.push()); w = Val(i); } auto a = AW(back.pop()); Val v(std::move(*a)); SIM_CHECK(v.id() == i, "wrong-value", "acknowledgement %d carries %d", i, v.id()); }
    AW(s.close());
}
template<class S, class R> static task<int> pong(R& r, S& back) {
    int n = 0;
    for (;; ++n) {
        bool closed = false; int got = -2;
        try { auto a = AW(r.pop()); Val v(std::move(*a)); got = v.id(); } catch (channel_closed_exception&) { closed = true; }
        if (closed) co_return n;
        SIM_CHECK(got == n, "wrong-value", "item %d carries %d", n, got);
        auto w = AW(back.push()); w = Val(got);
    }
}
template<class MK> static void ping_pong(MK mk) {
    gh::clear(); int n = 1 + some(4, 60), got = -1; auto [s, r] = mk(1 << sim::pick(2)); auto [s2, r2] = mk(1 << sim::pick(2));
    { Threads T; T.go([&] { sync_wait(ping(s, r2, n)); }); if (sim::pick(2)) T.go([&] { got = sync_wait(pong(r, s2)); }); else got = sync_wait(pong(r, s2)); }
    SIM_CHECK(got == n, "count", "%d of %d items arrived", got, n);
}
SCENARIO(C01, ping_pong) { ping_pong([](int c) { return spsc::make_channel<Val>(c); }); }
SCENARIO(C02, ping_pong) { ping_pong([](int c) { return mpsc::make_channel<Val>(c); }); }
// Two senders each wait for their own acknowledgement, given in the order of arrival.
SCENARIO_W(C02, acknowledged, 2) {
    gh::clear(); int n = 1 + (int)sim::pick(3); auto [s, r] = mpsc::make_channel<Val>(1 << sim::pick(2)); auto [b0, a0] = spsc::make_channel<Val>(1); auto [b1, a1] = spsc::make_channel<Val>(1);
    auto send = [&](auto& ack, int id) -> task<void> { auto mine = s; for (int i = 0; i < n; ++i) { { auto w = AW(mine.push()); w = Val(id * 100 + i); } auto a = AW(ack.pop()); Val v(std::move(*a)); SIM_CHECK(v.id() == id * 100 + i, "wrong-value", "sender %d: acknowledgement %d carries %d", id, i, v.id()); } };
    auto recv = [&]() -> task<void> { for (int k = 0; k < 2 * n; ++k) { int x; { auto a = AW(r.pop()); Val v(std::move(*a)); x = v.id(); } SIM_CHECK(x >= 0 && x / 100 < 2 && x % 100 == gh::at(NEXT + x / 100), "lost-or-reordered-value", "got %d", x); gh::at(NEXT + x / 100)++; auto w = co_await (x / 100 ? b1 : b0).push(); w = Val(x); } };
    { Threads T; T.go([&] { sync_wait(send(a0, 0)); }); T.go([&] { sync_wait(send(a1, 1)); }); sync_wait(recv()); }
}
// One sender closes while the other still sends: what was in before the close is delivered, what came after is not.
template<class MK> static void early_close(int np, MK mk) {
    gh::clear(); int cap = np == 1 ? 4 : 8, n = 1 + (int)sim::pick(3); int sent_before[2] = {}, sent_total[2] = {};
    auto [s, r] = mk(cap); auto* ps = &s;
    auto send = [&, ps](int id, int k) -> task<void> { for (int i = 0; i < k; ++i) { { auto w = AW(ps->push()); w = Val(id * 100 + i); } sent_total[id] = i + 1; if (!gh::at(CLOSED)) sent_before[id] = i + 1; jitter(1); } };
    auto closer = [&, ps](int k) -> task<void> { co_await send(0, k); gh::at(CLOSED) = 1; AW(ps->close()); gh::at(CLOSED) = 2; };
    auto recv = [&]() -> task<int> { int t = 0; for (;; ++t) { bool closed = false; int x = -1; try { auto a = AW(r.pop()); Val v(std::move(*a)); x = v.id(); } catch (channel_closed_exception&) { closed = true; } if (closed) co_return t; SIM_CHECK(x >= 0 && x / 100 < np && x % 100 == gh::at(NEXT + x / 100), "lost-or-reordered-value", "got %d", x); gh::at(NEXT + x / 100)++; } };
    int k0 = (int)sim::pick(3);
    { Threads T; T.go([&] { sync_wait(closer(k0)); }); if (np == 2) T.go([&] { sync_wait(send(1, n)); }); sync_wait(recv()); SIM_CHECK(gh::at(CLOSED), "phantom-close", "the end of the stream before anybody closed it"); }
    SIM_CHECK(gh::at(NEXT) == k0, "lost-value", "%ld of %d items of the closing sender", gh::at(NEXT), k0);
    if (np == 2) SIM_CHECK(gh::at(NEXT + 1) >= sent_before[1] && gh::at(NEXT + 1) <= sent_total[1], "lost-value", "%ld items of the other sender delivered, %d were in before the close", gh::at(NEXT + 1), sent_before[1]);
    // a receiver that asks again is told again
    for (int i = 0; i < 2; ++i) { bool c2 = false; auto again = [&]() -> task<void> { try { if (i) AW(r.front()); else auto a = AW(r.pop()); } catch (channel_closed_exception&) { c2 = true; } }; sync_wait(again()); SIM_CHECK(c2, "invented-item", "a closed channel handed out an item"); }
}
SCENARIO(C01, close_after_some) { early_close(1, [](int c) { return spsc::make_channel<Val>(c); }); }
SCENARIO(C02, early_close) { early_close(2, [](int c) { return mpsc::make_channel<Val>(c); }); }
// Operations prepared ahead of time take place when they are awaited, in that order; one that is dropped leaves no trace.
template<class MK> static void prepared(int np, MK mk) {
    gh::clear(); int cap = 1 << sim::pick(3), rounds = 1 + (int)sim::pick(3), ahead = 1 + (int)sim::pick(3), n = rounds * ahead; bool close_ahead = sim::pick(2);
    auto [s, r] = mk(cap); auto* ps = &s; auto* pr = &r; std::atomic<int> left(np);
    auto send = [&, ps](int id) -> task<void> {
        auto& s = *ps; for (int k = 0; k < rounds; ++k) {
            using P = std::remove_cvref_t<decltype(s.push())>; std::vector<std::unique_ptr<P>> p;
            if (sim::pick(3) == 2) { auto dropped = s.push(); (void)dropped; jitter(1); }
            if constexpr (requires { s.push(Val(1)); }) if (sim::pick(2)) {
                using Q = std::remove_cvref_t<decltype(s.push(Val(1)))>; std::vector<std::unique_ptr<Q>> q; for (int i = 0; i < ahead; ++i) q.emplace_back(new Q(s.push(Val(id * 100 + k * ahead + i))));
                jitter((int)sim::pick(3)); for (auto& x : q) { co_await *x; gh::at(GRANTED)++; } continue;
            }
            for (int i = 0; i < ahead; ++i) p.emplace_back(new P(s.push()));
            jitter((int)sim::pick(3));
            for (auto& x : p) { auto w = co_await *x; gh::at(GRANTED)++; SIM_CHECK(gh::at(GRANTED) - gh::at(RELEASED) <= cap, "capacity-exceeded", "slot number %ld was granted although only %ld of %d slots had been freed", gh::at(GRANTED), gh::at(RELEASED), cap); w = Val(id * 100 + k * ahead + (int)(&x - &p[0])); }
        }
        if (left.fetch_sub(1) == 1) { auto c = s.close(); gh::at(CLOSED)++; if (close_ahead) jitter(1); co_await c; }
    };
    auto recv = [&, pr]() -> task<int> {
        auto& r = *pr; int t = 0; using P = std::remove_cvref_t<decltype(r.pop())>;
        for (;;) {
            std::vector<std::unique_ptr<P>> p; int m = 1 + (int)sim::pick(3); for (int i = 0; i < m; ++i) p.emplace_back(new P(r.pop()));
            auto f = r.front(); bool look = sim::pick(2); jitter((int)sim::pick(3));
            for (auto& x : p) {
                bool closed = false; int got = -1;
                try {
                    if (look && &x == &p.back()) { Val& v = co_await f; got = v.id(); }
                    auto a = co_await *x; Val v(std::move(*a)); SIM_CHECK(got == -1 || got == v.id(), "front-unstable", "front() showed %d, pop() took %d", got, v.id()); got = v.id(); gh::at(RELEASED)++; a.publish();
                } catch (channel_closed_exception&) { closed = true; }
                if (closed) { SIM_CHECK(gh::at(CLOSED), "phantom-close", "the end of the stream before anybody closed it"); co_return t; }
                SIM_CHECK(got >= 0 && got / 100 < np && got % 100 == gh::at(NEXT + got / 100), "lost-or-reordered-value", "got %d", got); gh::at(NEXT + got / 100)++; ++t;
            }
        }
    };
    int total = 0; { Threads T; for (int p = 0; p < np; ++p) T.go([&, p] { sync_wait(send(p)); }); total = sync_wait(recv()); }
    SIM_CHECK(total == n * np, "lost-value", "%d of %d items arrived", total, n * np);
}
template<class CH> struct Owner { std::unique_ptr<CH> c; auto push() { return c->push(); } auto push(Val&& v) { return c->push(std::move(v)); } auto close() { return c->close(); } };
template<class CH> struct Reader { CH* c; auto pop() { return c->pop(); } auto front() { return c->front(); } };
template<class CH> static auto object(int cap) { Owner<CH> o{ std::make_unique<CH>(cap) }; Reader<CH> r{ o.c.get() }; return std::make_pair(std::move(o), r); }
SCENARIO(C01, prepared_object) { prepared(1, [](int c) { return object<spsc::channel<Val>>(c); }); }
SCENARIO(C02, prepared_object) { prepared(2, [](int c) { return object<mpsc::channel<Val>>(c); }); }
SCENARIO(C01, prepared) { prepared(1, [](int c) { return spsc::make_channel<Val>(c); }); }
SCENARIO(C02, prepared) { prepared(2, [](int c) { return mpsc::make_channel<Val>(c); }); }
// The kind of item makes no difference: plain numbers, plain structs, owners that can only be moved.
struct PlainItem { int id; int pad[5]; };
static void item_set(long& t, int x) { t = x; } static int item_get(long& t) { return (int)t; }
static void item_set(PlainItem& t, int x) { t.id = x; for (int i = 0; i < 5; ++i) t.pad[i] = x + i; } static int item_get(PlainItem& t) { for (int i = 0; i < 5; ++i) if (t.pad[i] != t.id + i) return -2; return t.id; }
static void item_set(std::unique_ptr<int>& t, int x) { t.reset(new int(x)); } static int item_get(std::unique_ptr<int>& t) { return t ? *t : -3; }
template<class T, class MK> static void kinds_of(int np, MK mk) {
    gh::clear(); int cap = 1 << sim::pick(3), n = some(5, 40), pstyle = sim::pick(3), cstyle = sim::pick(3); auto [s, r] = mk(cap); auto* ps = &s; auto* pr = &r; std::atomic<int> left(np); int total = 0;
    auto send = [&, ps](int id) -> task<void> { for (int i = 0; i < n; ++i) { auto w = AW(ps->push()); granted(cap); if (pstyle == 0) { T t{}; item_set(t, id * 100 + i); w = std::move(t); } else { T& t = w; item_set(t, id * 100 + i); } if (pstyle == 2) { jitter(1); w.publish(); } }
        if (left.fetch_sub(1) == 1) { gh::at(CLOSED) = 1; AW(ps->close()); } };
    auto recv = [&, pr]() -> task<void> { for (bool closed = false; !closed;) { int x = -1;
        try { if (cstyle == 1) { T& f = AW(pr->front()); x = item_get(f); } auto a = AW(pr->pop()); T t = std::move(*a); int y = item_get(t); SIM_CHECK(cstyle != 1 || x == y, "front-unstable", "front() showed %d, pop() took %d", x, y); x = y; if (cstyle == 2) jitter(1); gh::at(RELEASED)++; } catch (channel_closed_exception&) { closed = true; }
        if (closed) break; SIM_CHECK(x >= 0 && x / 100 < np && x % 100 < n && x % 100 == gh::at(NEXT + x / 100), "lost-or-reordered-value", "got %d", x); gh::at(NEXT + x / 100)++; ++total; }
        SIM_CHECK(gh::at(CLOSED), "phantom-close", "the end of the stream before anybody closed it"); };
    { Threads T2; for (int p = 0; p < np; ++p) T2.go([&, p] { sync_wait(send(p)); }); sync_wait(recv()); }
    SIM_CHECK(total == n * np, "lost-value", "%d of %d items arrived", total, n * np);
}
template<template<class> class MK> static void kinds(int np) { int k = sim::pick(3); if (k == 0) kinds_of<long>(np, MK<long>::make); else if (k == 1) kinds_of<PlainItem>(np, MK<PlainItem>::make); else kinds_of<std::unique_ptr<int>>(np, MK<std::unique_ptr<int>>::make); }
template<class T> struct MkS { static auto make(int c) { return spsc::make_channel<T>(c); } };
template<class T> struct MkM { static auto make(int c) { return mpsc::make_channel<T>(c); } };
SCENARIO_W(C01, item_kinds, 2) { kinds<MkS>(1); }
SCENARIO_W(C02, item_kinds, 2) { kinds<MkM>(1 + sim::pick(2)); }
// Items that were never received go with the channel; each side owns its endpoint and lets go of it when it is done.
template<class MK> static void abandoned(MK mk) {
    gh::clear(); int cap = 1 << some(3, 6), in = (int)sim::pick(cap + 1), out = (int)sim::pick(in + 1), pstyle = sim::pick(3); bool close = in < cap && sim::pick(2);
    sim::alloc_faults(true); try { auto x = mk(cap); (void)x; } catch (std::bad_alloc&) { sim::probe("a channel could not be created for lack of memory"); } sim::alloc_faults(false);
    auto ends = mk(cap);
    if (sim::pick(2)) { std::remove_cvref_t<decltype(ends.first)> s2; std::remove_cvref_t<decltype(ends.second)> r2; s2 = std::move(ends.first); r2 = std::move(ends.second); ends.first = std::move(s2); ends.second = std::move(r2); }
    auto fill = [](auto s, int in, int pstyle, bool close) -> task<void> { for (int i = 0; i < in; ++i) { auto w = AW(s.push()); if (pstyle == 1 && i + 1 == in) break; if (pstyle == 2) { Val& v = w; v = Val(i); } else w = Val(i); } if (close) AW(s.close()); };
    auto drain = [](auto r, int out) -> task<void> { for (int i = 0; i < out; ++i) { auto a = AW(r.pop()); Val v(std::move(*a)); SIM_CHECK(v.id() == i, "wrong-value", "item %d carries %d", i, v.id()); } };
    if (pstyle == 1 && out == in && in) --out;
    auto& [s, r] = ends;
    { Threads T; T.go([s = std::move(s), &fill, in, pstyle, close]() mutable { sync_wait(fill(std::move(s), in, pstyle, close)); }); T.go([r = std::move(r), &drain, out]() mutable { sync_wait(drain(std::move(r), out)); }); }
}
SCENARIO(C01, abandoned) { abandoned([](int c) { return spsc::make_channel<Val>(c); }); }
SCENARIO(C02, abandoned) { abandoned([](int c) { return mpsc::make_channel<Val>(c); }); }

// The single-sender restriction is a type property, and a ring only works with a power of two.
SCENARIO(C01, construction) {
    using Snd = spsc::channel_sender<Val>; using Rcv = spsc::channel_receiver<Val>;
    SIM_CHECK(!std::is_copy_constructible_v<Snd> && !std::is_copy_assignable_v<Snd>, "second-sender", "the sender of a single-sender channel can be copied");
    SIM_CHECK(!std::is_copy_constructible_v<Rcv> && !std::is_copy_assignable_v<Rcv>, "second-receiver", "the receiver of a channel can be copied");
    size_t cap = sim::pick(20); bool thrown = false, pow2 = cap && !(cap & (cap - 1));
    try { auto e = spsc::make_channel<Val>(cap); } catch (std::runtime_error&) { thrown = true; }
    SIM_CHECK(thrown == !pow2, "capacity", "a channel of capacity %zu was %s", cap, thrown ? "refused" : "made");
}
