// sequence_barrier, sequence_spsc, sequence_mpsc: the ring-buffer sequencers.
#include "common.h"
#include "macoro/sequence_barrier.h"
#include "macoro/sequence_spsc.h"
#include "macoro/sequence_mpsc.h"
#include "macoro/when_all.h"
#include "lib.inc"
using namespace macoro;

enum { PUB = 0, FREED = 1, CLAIMED = 2, NW = 3, RES = 64, SLOT = 128 };

template<class S> static S start_seq() {
    switch (sim::pick(4)) { case 0: return S(-1); case 1: return S(0) - S(4); case 2: return S(41); default: return S(S(-1) / 2 - 1); }
}

// ---------------------------------------------------------------- C03: sequence_barrier
// With a gate the publisher holds back its next number until everybody who waits for no more than the
// current one has resumed, so a waiter that was forgotten is not rescued by a later publish.
struct Gate {
    std::mutex m; std::condition_variable cv; int n = 0;
    void hit() { std::lock_guard<std::mutex> l(m); ++n; cv.notify_one(); }
    void wait(int k) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return n >= k; }); }
};
// The same for coroutines: suspends until the count is reached.
struct AsyncGate {
    std::mutex m; long n = 0; struct W { long k; macoro::coroutine_handle<> h; }; std::vector<W> w;
    void reach(long k) {
        std::vector<W> go;
        { std::lock_guard<std::mutex> l(m); n = k; for (size_t i = 0; i < w.size();) if (w[i].k <= n) { go.push_back(w[i]); w.erase(w.begin() + i); } else ++i; }
        for (auto& x : go) x.h.resume();
    }
    struct Aw {
        AsyncGate* g; long k;
        bool await_ready() { return !g; }
        bool await_suspend(macoro::coroutine_handle<> h) { std::lock_guard<std::mutex> l(g->m); if (g->n >= k) return false; g->w.push_back({ k, h }); return true; }
        bool await_suspend(std::coroutine_handle<> h) { return await_suspend(macoro::coroutine_handle<>(h)); }
        void await_resume() {}
    };
    Aw wait(long k) { return { this, k }; }
};
template<class S> static task<void> bar_waiter(sequence_barrier<S>& b, S init, int id, std::vector<int> targets, long* data, int last, Gate* gate) {
    for (int t : targets) {
        // the operation may be made some time before it is awaited, and copied
        S got; int how = sim::pick(4);
        if (how < 2) got = AW(b.wait_until_published(S(init + t)));
        else { auto op = b.wait_until_published(S(init + t)); sim::point(); if (how == 2) got = AW(op); else { auto copy = op; sim::point(); got = AW(copy); } }
        if (gate) gate->hit();
        long g = (long)(typename sequence_traits<S>::difference_type)(got - init);
        SIM_CHECK(g >= t, "early-resume", "waiter %d for sequence +%d was resumed with last-published +%ld", id, t, g);
        SIM_CHECK(g <= gh::at(PUB), "phantom-publish", "waiter %d was told +%ld is published, the newest published is +%ld", id, g, gh::at(PUB));
        SIM_CHECK(gh::at(PUB) <= last, "harness", "bad");
        for (long i = 1; i <= g; ++i) SIM_CHECK(data[i] == i * 7, "stale-data", "element +%ld reads %ld although +%ld was reported published", i, data[i], g);
        gh::at(RES + id)++;
    }
}
template<class S> static void barrier_run(int nw) {
    gh::clear();
    S init = start_seq<S>();
    int last = 1 + some(6, 100), exec = sim::pick(3);
    std::unique_ptr<Gate> gate; if (sim::pick(2)) gate = std::make_unique<Gate>();
    auto data = std::make_unique<long[]>(last + 1);
    sequence_barrier<S> b(init);
    SIM_CHECK(b.last_published() == init, "initial", "wrong initial sequence");
    std::vector<std::vector<int>> tg(nw);
    for (auto& v : tg) { int n = 1 + sim::pick(2); int t = 0; for (int i = 0; i < n; ++i) { t = t + sim::pick(last - t + 1); v.push_back(t); } }
    std::vector<int> steps; for (int p = 0; p < last;) { p += 1 + sim::pick(last - p < 3 ? last - p : 3); steps.push_back(p); }
    auto pub = [&] {
        int p = 0;
        for (int s : steps) {
            while (p < s) { ++p; data[p] = p * 7; }
            if (exec) sim::point();
            gh::at(PUB) = s; b.publish(S(init + s));
            SIM_CHECK(b.last_published() == S(init + s), "last-published", "last_published() after publish(+%d) is off", s);
            if (gate && sim::pick(2)) { int k = 0; for (auto& v : tg) for (int t : v) k += t <= s; gate->wait(k); }
        }
    };
    {
        Threads T;
        if (exec == 2 && nw >= 2) {
            // two waiters interleave on one thread
            T.go([&] { auto r = sync_wait(when_all_ready(bar_waiter<S>(b, init, 0, tg[0], data.get(), last, gate.get()), bar_waiter<S>(b, init, 1, tg[1], data.get(), last, gate.get()))); std::get<0>(r).result(); std::get<1>(r).result(); });
            for (int w = 2; w < nw; ++w) T.go([&, w] { sync_wait(bar_waiter<S>(b, init, w, tg[w], data.get(), last, gate.get())); });
        } else for (int w = 0; w < nw; ++w) T.go([&, w] { sync_wait(bar_waiter<S>(b, init, w, tg[w], data.get(), last, gate.get())); });
        pub();
    }
    for (int w = 0; w < nw; ++w) SIM_CHECK(gh::at(RES + w) == (long)tg[w].size(), "resume-count", "waiter %d was resumed %ld times for %zu waits", w, gh::at(RES + w), tg[w].size());
}
SCENARIO(C03, one_waiter) { barrier_run<size_t>(1); }
SCENARIO_W(C03, two_waiters, 2) { barrier_run<size_t>(2); }
SCENARIO_W(C03, three_waiters, 2) { barrier_run<size_t>(3); }
SCENARIO(C03, four_waiters) { barrier_run<size_t>(4 + some(1, 6)); }
SCENARIO(C03, two_waiters_u32) { barrier_run<uint32_t>(2); }
SCENARIO(C03, two_waiters_u8) { barrier_run<uint8_t>(2); }

// ---------------------------------------------------------------- C04 / C05: rings
// A ring of plain (race-checked) longs.  Producers write a slot between claim and publish, consumers
// read it between wait and release, so any claim granted too early or any item shown too early is a
// data race or a wrong value.
struct Ring {
    int size, np, nc, per; std::unique_ptr<long[]> slot; std::unique_ptr<AsyncGate> gate;
    Ring(int s, int p, int c, int n) : size(s), np(p), nc(c), per(n), slot(new long[s]) {}
    int total() const { return np * per; }
    // consumed up to off; a gated producer sometimes waits for that before it goes on
    void freed(long off, bool last) { if (last) gh::at(FREED) = off; }
    void tell(long off, bool last) { if (last && gate) gate->reach(off); }
    AsyncGate::Aw maybe_wait(long off) { return { gate && sim::pick(2) ? gate.get() : nullptr, off }; }
};
static void claim_ok(Ring& r, long off, int id) {
    // off: 1-based offset of the claimed sequence
    SIM_CHECK(off >= 1 && off <= r.total(), "claim-range", "producer %d was given sequence +%ld outside the %d claims made", id, off, r.total());
    SIM_CHECK(gh::at(SLOT + off) == 0, "double-claim", "sequence +%ld was granted to producer %ld and to producer %d", off, gh::at(SLOT + off) - 1, id);
    SIM_CHECK(off - gh::at(FREED) <= r.size, "overrun", "sequence +%ld granted while only +%ld is consumed, buffer holds %d", off, gh::at(FREED), r.size);
    gh::at(SLOT + off) = id + 1;
}
template<class S> static long off_of(S v, S init) { return (long)(typename sequence_traits<S>::difference_type)(v - init); }

template<class Q, class S> static task<void> producer(Q& q, Ring& r, S init, int id, int style) {
    int left = r.per, k = 0; long prev = 0; std::optional<decltype(q.claim_up_to(1))> ahead; std::optional<decltype(q.claim_one())> one; int ahead_want = 0;   // a claim prepared before others are made
    while (left) {
        if (style == 2 && !ahead && sim::pick(2)) { ahead_want = 1 + sim::pick(left); ahead.emplace(q.claim_up_to(ahead_want)); }
        bool range = style == 1 || (style == 2 && sim::pick(2));
        if (!range) {
            S s; if (style == 3) { auto op = one ? *one : q.claim_one(); one.emplace(q.claim_one()); sim::point(); s = AW(op); } else s = AW(q.claim_one());
            long o = off_of(s, init); claim_ok(r, o, id);
            SIM_CHECK(o > prev, "claim-order", "producer %d claimed +%ld after +%ld", id, o, prev); prev = o;
            if constexpr (Q::multi_sender) if (style == 3) q.publish(sequence_range<S>(s, s));   // nothing to publish
            r.slot[(size_t)(o % r.size)] = id * 1000 + k; ++k; --left;
            if (style == 3) sim::point();
            q.publish(s); co_await r.maybe_wait(o);
        } else {
            int want = 1 + sim::pick(left);
            if (ahead && ahead_want <= left) want = ahead_want; else ahead.reset();
            if (!ahead) ahead.emplace(q.claim_up_to(want)); if (sim::pick(2)) sim::point(); auto g = AW(*ahead); ahead.reset();
            SIM_CHECK(!g.empty() && (long)g.size() >= 1 && (long)g.size() <= want, "claim-size", "claim_up_to(%d) returned %ld slots", want, (long)g.size());
            for (S s : g) {
                long o = off_of(s, init); claim_ok(r, o, id);
                SIM_CHECK(o > prev, "claim-order", "producer %d claimed +%ld after +%ld", id, o, prev); prev = o;
                r.slot[(size_t)(o % r.size)] = id * 1000 + k; ++k; --left;
            }
            q.publish(g); co_await r.maybe_wait(prev);
        }
    }
}
static void check_item(Ring& r, long o, int cons) {
    long x = r.slot[(size_t)(o % r.size)]; int id = (int)(x / 1000), k = (int)(x % 1000);
    SIM_CHECK(gh::at(SLOT + o) == id + 1, "wrong-item", "consumer %d read item %ld at +%ld, which belongs to producer %ld", cons, x, o, gh::at(SLOT + o) - 1);
    SIM_CHECK(gh::at(RES + cons * 8 + id) == k, "item-order", "consumer %d read item %d of producer %d, expected %ld", cons, k, id, gh::at(RES + cons * 8 + id));
    gh::at(RES + cons * 8 + id)++;
}
// cons 0 .. nc-1; the last one releases the slots (it waits for the others through `stage`)
template<class Q, class S> static task<void> consumer(Q& q, Ring& r, sequence_barrier<S>* stage, sequence_barrier<S>& mine, S init, int cons, int style) {
    long done = 0, known = 0;
    while (done < r.total()) {
        if (!stage && (style & 8)) {   // look before waiting: what is reported published may be read at once
            S now; if constexpr (Q::multi_sender) now = q.last_published_after(S(init + known)); else now = q.last_published();
            long g = off_of(now, init);
            SIM_CHECK(g >= known && g <= r.total(), "phantom-publish", "consumer %d polled +%ld after +%ld", cons, g, known);
            known = g; for (long o = done + 1; o <= known; ++o) check_item(r, o, cons);
            if (known > done) { done = known; r.freed(done, cons == r.nc - 1); mine.publish(S(init + done)); r.tell(done, cons == r.nc - 1); continue; }
        }
        long ahead = 1; if (style & 1) { long room = r.total() - done; if (room > r.size) room = r.size; ahead = 1 + sim::pick((u_int)room); }
        S got; if (style & 1) { auto op = q.wait_until_published(S(init + done + ahead), S(init + known)); if (sim::pick(2)) sim::point(); got = AW(op); } else got = AW(q.wait_until_published(S(init + done + ahead), S(init + known)));
        long g = off_of(got, init);
        SIM_CHECK(g >= done + ahead, "early-resume", "consumer %d waiting for +%ld was resumed with last-published +%ld", cons, done + ahead, g);
        SIM_CHECK(g <= r.total(), "phantom-publish", "consumer %d was told +%ld is published of %d", cons, g, r.total());
        known = g;
        if (stage) {
            S s = AW(stage->wait_until_published(S(init + done + ahead)));
            SIM_CHECK(off_of(s, init) >= done + ahead, "early-resume", "stage");
        }
        long upto = (style & 2) ? known : done + ahead;
        if (stage) { upto = done + ahead; }
        for (long o = done + 1; o <= upto; ++o) { check_item(r, o, cons); if (style & 4) { r.freed(o, cons == r.nc - 1); mine.publish(S(init + o)); r.tell(o, cons == r.nc - 1); } }
        done = upto;
        if (!(style & 4)) { r.freed(done, cons == r.nc - 1); mine.publish(S(init + done)); r.tell(done, cons == r.nc - 1); }
    }
}
template<class S, template<class...> class SEQ> static void ring_run(int np, int nc) {
    gh::clear();
    using Q = SEQ<S>;
    S init = start_seq<S>();
    int size = 1 << some(3, 7), per = 1 + (np == 1 ? some(6, sizeof(S) == 1 ? 100 : 250) : some(4, sizeof(S) == 1 ? 40 : 70));
    Ring r(size, np, nc, per);
    sequence_barrier<S> a(init), last(init);
    Q q(nc == 2 ? last : a, size, init);
    int pst[4], cst[2]; for (auto& x : pst) x = sim::pick(4); for (auto& x : cst) x = sim::pick(16);
    int exec = sim::pick(3);
    // A consumer may wait several elements ahead only where that cannot starve the producers it waits
    // for: not upstream of another consumer, and not when a multi-producer claim can span the elements.
    bool ranges = false; for (int p = 0; p < np; ++p) ranges = ranges || pst[p] == 1 || pst[p] == 2;
    if (Q::multi_sender && ranges) cst[0] &= ~1, cst[1] &= ~1;
    if (nc == 2) cst[0] &= ~1;
    if (sim::pick(2)) { r.gate = std::make_unique<AsyncGate>(); cst[0] &= ~1; cst[1] &= ~1; }
    {
        Threads T;
        if (exec == 2 && nc == 2) {
            T.go([&] { auto x = sync_wait(when_all_ready(consumer<Q, S>(q, r, nullptr, a, init, 0, cst[0]), consumer<Q, S>(q, r, &a, last, init, 1, cst[1]))); std::get<0>(x).result(); std::get<1>(x).result(); });
        } else {
            T.go([&] { sync_wait(consumer<Q, S>(q, r, nullptr, a, init, 0, cst[0])); });
            if (nc == 2) T.go([&] { sync_wait(consumer<Q, S>(q, r, &a, last, init, 1, cst[1])); });
        }
        for (int p = 1; p < np; ++p) T.go([&, p] { sync_wait(producer<Q, S>(q, r, init, p, pst[p])); });
        sync_wait(producer<Q, S>(q, r, init, 0, pst[0]));
    }
    for (int c = 0; c < nc; ++c) for (int p = 0; p < np; ++p) SIM_CHECK(gh::at(RES + c * 8 + p) == per, "lost-item", "consumer %d saw %ld of %d items of producer %d", c, gh::at(RES + c * 8 + p), per, p);
}
// sequence_spsc has no (target,lastKnown) restriction, so the same driver fits both.
SCENARIO_W(C04, one_consumer, 2) { ring_run<size_t, sequence_spsc>(1, 1); }
SCENARIO(C04, two_stage_consumers) { ring_run<size_t, sequence_spsc>(1, 2); }
SCENARIO(C04, u32) { ring_run<uint32_t, sequence_spsc>(1, 1); }
SCENARIO(C04, u8) { ring_run<uint8_t, sequence_spsc>(1, 1 + sim::pick(2)); }
SCENARIO(C04, u16) { ring_run<uint16_t, sequence_spsc>(1, 1); }
SCENARIO(C05, u8) { ring_run<uint8_t, sequence_mpsc>(1 + sim::pick(2), 1); }
SCENARIO(C05, u16) { ring_run<uint16_t, sequence_mpsc>(2, 1 + sim::pick(2)); }
SCENARIO(C05, one_producer) { ring_run<size_t, sequence_mpsc>(1, 1); }
SCENARIO_W(C05, two_producers, 2) { ring_run<size_t, sequence_mpsc>(2, 1); }
SCENARIO(C05, three_producers) { ring_run<size_t, sequence_mpsc>(3, 1); }
SCENARIO(C05, two_producers_u32) { ring_run<uint32_t, sequence_mpsc>(2, 1); }
SCENARIO_W(C05, two_producers_two_consumers, 3) { ring_run<size_t, sequence_mpsc>(2, 2); }
SCENARIO(C05, one_producer_two_consumers) { ring_run<size_t, sequence_mpsc>(1, 2); }
// The smallest ring, one item at a time: a registering consumer that falls whole rounds behind sees its
// slots reused many times over while another thread resumes and re-registers it.
SCENARIO_W(C05, tiny_ring, 4) {
    gh::clear();
    size_t init = start_seq<size_t>(); int size = 1 + sim::pick(2), per = 2 + sim::pick(3), np = 1 + sim::pick(2), nc = 1 + sim::pick(2);
    if (np == 2) per = 2 + sim::pick(2);
    Ring r(size, np, nc, per); sequence_barrier<size_t> a(init), last(init);
    sequence_mpsc<size_t> q(nc == 2 ? last : a, size, init);
    {
        Threads T;
        T.go([&] { sync_wait(consumer<sequence_mpsc<size_t>, size_t>(q, r, nullptr, a, init, 0, 0)); });
        if (nc == 2) T.go([&] { sync_wait(consumer<sequence_mpsc<size_t>, size_t>(q, r, &a, last, init, 1, 0)); });
        for (int p = 1; p < np; ++p) T.go([&, p] { sync_wait(producer<sequence_mpsc<size_t>, size_t>(q, r, init, p, 0)); });
        sync_wait(producer<sequence_mpsc<size_t>, size_t>(q, r, init, 0, 0));
    }
    for (int c = 0; c < nc; ++c) for (int p = 0; p < np; ++p) SIM_CHECK(gh::at(RES + c * 8 + p) == per, "lost-item", "consumer %d saw %ld of %d items of producer %d", c, gh::at(RES + c * 8 + p), per, p);
}
// any_available() against the true occupancy, with a single producer (so that a true answer stays true)
static task<void> avail_producer(sequence_mpsc<>& q, Ring& r, size_t init, int from) {
    for (int i = from; i < r.per; ++i) {
        long need = i + 1;
        bool a = q.any_available();
        if (a) SIM_CHECK(need - gh::at(FREED) <= r.size, "false-available", "any_available() said yes but claim +%ld does not fit", need);
        else SIM_CHECK(need > r.size, "false-full", "any_available() said no for slot +%ld of an unused buffer of %d", need, r.size);
        size_t s = AW(q.claim_one());
        claim_ok(r, off_of(s, init), 0);
        r.slot[(size_t)(need % r.size)] = i; q.publish(s);
    }
}
static task<void> avail_consumer(sequence_mpsc<>& q, Ring& r, sequence_barrier<>& b, size_t init) {
    size_t known = init;
    for (int i = 0; i < r.per; ++i) {
        known = AW(q.wait_until_published(init + i + 1, known));
        check_item(r, i + 1, 0);
        gh::at(FREED) = i + 1; b.publish(init + i + 1);
    }
}
SCENARIO(C05, any_available) {
    gh::clear();
    size_t init = start_seq<size_t>(); int size = 1 << some(3, 7), per = 1 + some(5, 150);
    Ring r(size, 1, 1, per); sequence_barrier<> b(init); sequence_mpsc<> q(b, size, init);
    int before = sim::pick(2);   // fill as far as possible before the consumer exists: then "no" must be exact
    Threads T;
    if (!before) T.go([&] { sync_wait(avail_consumer(q, r, b, init)); });
    else { while (gh::at(2) < size && gh::at(2) < per) {
            SIM_CHECK(q.any_available(), "false-full", "any_available() said no with %ld of %d slots claimed", gh::at(2), size);
            size_t s = sync_wait([](sequence_mpsc<>& q) -> task<size_t> { co_return AW(q.claim_one()); }(q));
            long o = off_of(s, init); claim_ok(r, o, 0); r.slot[(size_t)(o % r.size)] = o - 1; q.publish(s); gh::at(2) = o; }
        if (gh::at(2) == size) SIM_CHECK(!q.any_available(), "false-available", "any_available() said yes with all %d slots claimed and none consumed", size);
        T.go([&] { sync_wait(avail_consumer(q, r, b, init)); }); }
    sync_wait(avail_producer(q, r, init, gh::at(2)));
    T.join();
    SIM_CHECK(q.any_available(), "false-full", "any_available() said no after everything was consumed");
}
