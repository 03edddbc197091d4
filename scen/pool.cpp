// thread_pool: posting, lifecycle, delays; start_on / transfer_to
#include "hop.h"
#include "macoro/thread_pool.h"
#include "macoro/inline_scheduler.h"
#include "macoro/start_on.h"
#include "macoro/transfer_to.h"
#include "macoro/when_all.h"
#include "lib.inc"
using namespace macoro;

enum { LIVE = 1, REL = 2, RAN = 16, BEF = 144, AFT = 272, RUNAT = 400, OWN = 600, INL = 620 };
struct Live { Live() { gh::at(LIVE)++; } Live(const Live&) { gh::at(LIVE)++; } ~Live() { gh::at(LIVE)--; } };
static void no_live(const char* when) { SIM_CHECK(gh::at(LIVE) == 0, gh::at(LIVE) > 0 ? "frame-not-destroyed" : "double-destroy", "%ld coroutine locals are alive %s", gh::at(LIVE), when); }
// which simulated thread belongs to whom: 1 = the harness, 10+k = pool k
static void harness_thread() { gh::at(OWN + sim::cur()) = 1; }
static void on_pool(int p, int id) {
    long& o = gh::at(OWN + sim::cur());
    SIM_CHECK(o != 1, "wrong-thread", "continuation %d of pool %d runs on a thread that is not the pool's", id, p);
    if (!o) o = 10 + p;
    SIM_CHECK(o == 10 + p, "wrong-thread", "continuation %d of pool %d runs on a thread of pool %ld", id, p, o - 10);
}
struct HT : Threads { template<class F> void go(F f) { Threads::go([f]() mutable { harness_thread(); f(); }); } };
struct Gate {
    std::mutex m; std::condition_variable cv; int n = 0;
    void hit() { std::lock_guard<std::mutex> l(m); ++n; cv.notify_all(); }
    void wait(int k) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return n >= k; }); }
};
// the handle interfaces
struct RawPost { thread_pool& p; bool sched;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) { if (sched) p.schedule(coroutine_handle<>(h)); else p.post(coroutine_handle<>(h)); }
    void await_resume() const noexcept {} };
struct RawDispatch { thread_pool& p; bool on; int id;
    bool await_ready() const noexcept { return false; }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) {
        coroutine_handle<> c(h); auto& pool = p; bool o = on; int i = id; (void)i;
        auto r = pool.dispatch(c);      // when not inline, this frame may be gone by now
        SIM_CHECK((r == c) == o, "dispatch", "dispatch from a thread %s the pool %s", o ? "of" : "outside", o ? "did not run inline" : "ran inline");
        return r.std_cast(); }
    void await_resume() const noexcept {} };
static const int NHOW = 5;
static task<void> go_to(thread_pool& p, int pid, int id, int how) {
    bool on = gh::at(OWN + sim::cur()) == 10 + pid; int t = sim::cur();
    switch (how) {
    case 0: AW(p.schedule()); break;
    case 1: AW(p.post()); break;
    case 2: AW(p.dispatch()); if (on) SIM_CHECK(sim::cur() == t, "dispatch", "dispatch on a pool thread moved continuation %d to another thread", id); break;
    case 3: co_await RawPost{ p, (id & 1) != 0 }; break;
    case 4: co_await RawDispatch{ p, on, id }; break;
    }
    on_pool(pid, id);
}
static eager_task<void> job(thread_pool& p, int pid, int id, std::vector<int> hows) {
    Live l; Val v(id * 3);
    for (int h : hows) { co_await go_to(p, pid, id, h); SIM_CHECK(v.id() == id * 3, "corrupt-local", "job %d", id); }
    SIM_CHECK(++gh::at(RAN + id) == 1, "ran-twice", "job %d ran %ld times", id, gh::at(RAN + id));
}
static std::vector<int> hops(int n) { std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back(sim::pick(NHOW)); return r; }
static void ran(int n) { for (int i = 0; i < n; ++i) SIM_CHECK(gh::at(RAN + i) == 1, "lost-work", "job %d ran %ld times", i, gh::at(RAN + i)); }
// builds a running pool with n threads in one of the documented ways
static void start_pool(thread_pool& p, thread_pool::work& w, int n) {
    switch (sim::pick(3)) {
    case 0: w = p.make_work(); p.create_threads(n); break;
    case 1: w = p.make_work(); for (int i = 0; i < n; ++i) p.create_thread(); break;
    case 2: { thread_pool::work x = p.make_work(); p.create_threads(1); w = std::move(x); if (n > 1) p.create_threads(n - 1); break; }
    }
}

// ---------------------------------------------------------------- C14
static void post_many(int nt, int np) {
    gh::clear(); harness_thread();
    int per = 1 + some(3, 20), n = np * per;
    std::vector<std::unique_ptr<eager_task<void>>> ts(n);
    std::vector<std::vector<int>> hw; for (int i = 0; i < n; ++i) hw.push_back(hops(1 + sim::pick(3)));
    bool first = sim::pick(3) == 0;   // some work queued before the threads exist
    {
        thread_pool p; thread_pool::work w;
        if (first) { for (int i = 0; i < per; ++i) ts[i] = std::make_unique<eager_task<void>>(job(p, 0, i, hw[i])); }
        start_pool(p, w, nt);
        {
            HT T;
            for (int q = first ? 1 : 0; q < np; ++q) T.go([&, q] { for (int i = q * per; i < (q + 1) * per; ++i) ts[i] = std::make_unique<eager_task<void>>(job(p, 0, i, hw[i])); });
        }
        int end = sim::pick(3);
        w.reset(); if (end) { p.join(); ran(n); }
    }
    ran(n); ts.clear(); no_live("after the pool is gone");
}
SCENARIO(C14, one_thread) { post_many(1, 2); }
SCENARIO_W(C14, two_threads, 2) { post_many(2, 2); }
SCENARIO(C14, three_threads) { post_many(3, 3); }
SCENARIO(C14, fifo) {
    gh::clear(); harness_thread();
    int np = 1 + sim::pick(3), per = 1 + some(3, 20), n = np * per;
    std::vector<std::unique_ptr<eager_task<void>>> ts(n);
    auto j = [](thread_pool& p, int id, int how) -> eager_task<void> {
        switch (how) { case 0: co_await p.post(); break; case 1: co_await p.schedule(); break; case 2: co_await p.dispatch(); break; default: co_await RawPost{ p, how == 3 }; }
        gh::at(RUNAT + id) = (long)sim::stamp(); on_pool(0, id); gh::at(RAN + id)++;
    };
    {
        thread_pool::work w; thread_pool p(1, w);
        HT T;
        for (int q = 0; q < np; ++q) T.go([&, q] { for (int i = q * per; i < (q + 1) * per; ++i) { int how = (int)sim::pick(5); gh::at(BEF + i) = (long)sim::stamp(); ts[i] = std::make_unique<eager_task<void>>(j(p, i, how)); gh::at(AFT + i) = (long)sim::stamp(); } });
        T.join(); w.reset();
    }
    ran(n);
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (gh::at(AFT + a) < gh::at(BEF + b))
        SIM_CHECK(gh::at(RUNAT + a) < gh::at(RUNAT + b), "order", "job %d was posted before job %d was, to a single thread, but ran after it", a, b);
}
static eager_task<void> wanderer(thread_pool* ps, int id, std::vector<int> route) {
    Live l; Val v(id);
    for (int r : route) { co_await go_to(ps[r % 2], r % 2, id, r / 2); }
    SIM_CHECK(v.id() == id, "corrupt-local", "job %d", id); SIM_CHECK(++gh::at(RAN + id) == 1, "ran-twice", "job %d", id);
}
SCENARIO(C14, two_pools) {
    gh::clear(); harness_thread();
    int n = 1 + sim::pick(3); std::vector<std::unique_ptr<eager_task<void>>> ts(n);
    {
        thread_pool ps[2]; thread_pool::work w[2];
        for (int i = 0; i < 2; ++i) start_pool(ps[i], w[i], 1 + sim::pick(2));
        for (int i = 0; i < n; ++i) { std::vector<int> r; int k = 1 + sim::pick(4); for (int q = 0; q < k; ++q) r.push_back(sim::pick(2 * NHOW)); ts[i] = std::make_unique<eager_task<void>>(wanderer(ps, i, r)); }
        for (int i = 0; i < n; ++i) sync_wait(*ts[i]);
        w[0].reset(); w[1].reset();
    }
    ran(n); ts.clear(); no_live("after the pools are gone");
}
// nt-1 jobs block their thread until the last one has run: an idle thread must pick it up
static eager_task<void> blocker(thread_pool& p, Gate& g, int id, int how) { co_await go_to(p, 0, id, how); g.wait(1); gh::at(RAN + id)++; }
static eager_task<void> opener(thread_pool& p, Gate& g, int id, std::vector<int> hows, int delay) {
    for (int h : hows) co_await go_to(p, 0, id, h);
    if (delay) { AW(p.schedule_after(std::chrono::seconds(delay))); on_pool(0, id); }
    gh::at(RAN + id)++; g.hit();
}
static void idle(int nt, bool delayed) {
    gh::clear(); harness_thread();
    Gate g; std::vector<std::unique_ptr<eager_task<void>>> ts(nt);
    int style = sim::pick(3), delay = delayed ? 1 + sim::pick(3) : 0; auto oh = hops(delayed ? sim::pick(3) : 1 + sim::pick(2)); std::vector<int> bh; for (int i = 0; i < nt; ++i) bh.push_back(sim::pick(NHOW));
    int at = sim::pick(nt);   // position of the opener among the posts
    thread_pool::work w; thread_pool p; start_pool(p, w, nt);
    auto post = [&](int i) { if (i == at) ts[i] = std::make_unique<eager_task<void>>(opener(p, g, i, oh, delay)); else ts[i] = std::make_unique<eager_task<void>>(blocker(p, g, i, bh[i])); };
    if (style == 0) { for (int i = 0; i < nt; ++i) post(i); }
    else if (style == 1) { HT T; for (int i = 0; i < nt; ++i) T.go([&, i] { post(i); }); }
    else { // all posted by a job of the pool itself, which then ends
        auto spawn = [](thread_pool& p, decltype(post)& f, int n) -> eager_task<void> { co_await p.schedule(); for (int i = 0; i < n; ++i) if (true) { struct Off { long& o; long v; Off(long& o) : o(o), v(o) {} } off(gh::at(OWN + sim::cur())); f(i); } };
        // dispatch would run a blocker inline here, which is the caller's doing: use posts only
        for (auto& h : bh) h = h == 2 || h == 4 ? 0 : h; for (auto& h : oh) h = h == 2 || h == 4 ? 1 : h;
        auto t = spawn(p, post, nt); sync_wait(t);
    }
    if (sim::pick(2)) g.wait(1);      // nothing else happens to wake a forgotten worker
    w.reset(); p.join(); ran(nt);
}
SCENARIO_W(C14, idle_worker, 2) { idle(2 + sim::pick(2), false); }
SCENARIO(C14, caller_runs) {
    // threads of the application lend themselves to the pool; a nested run() is refused without harm
    gh::clear(); harness_thread();
    int nt = 1 + sim::pick(2), n = 1 + sim::pick(4); bool extra = sim::pick(2);
    std::vector<std::unique_ptr<eager_task<void>>> ts(n); std::vector<std::vector<int>> hw; for (int i = 0; i < n; ++i) hw.push_back(hops(1 + sim::pick(3)));
    thread_pool p; auto w = p.make_work();
    auto nested = [](thread_pool& p, thread_pool& q) -> eager_task<void> {
        co_await p.schedule(); on_pool(0, 30); bool threw = false;
        try { q.run(); } catch (std::runtime_error&) { threw = true; }
        SIM_CHECK(threw, "nested-run", "run() on a thread of a pool did not throw");
        int t = sim::cur(); co_await p.dispatch(); SIM_CHECK(sim::cur() == t, "dispatch", "after a refused run() the thread no longer counts as the pool's");
        gh::at(RAN + 30)++; };
    std::unique_ptr<eager_task<void>> ne; thread_pool other; thread_pool::work ow; if (sim::pick(2)) ow = other.make_work(); bool self = sim::pick(2);
    {
        Threads T;
        for (int i = 0; i < nt; ++i) T.go([&] { p.run(); });
        if (extra) p.create_thread();
        for (int i = 0; i < n; ++i) ts[i] = std::make_unique<eager_task<void>>(job(p, 0, i, hw[i]));
        ne = std::make_unique<eager_task<void>>(nested(p, self ? p : other));
        sync_wait(*ne); for (auto& t : ts) sync_wait(*t);
        w.reset();
    }
    p.join(); ran(n); SIM_CHECK(gh::at(RAN + 30) == 1, "lost-work", "the job calling run() did not finish");
}

// running out of memory while posting: the coroutine sees it, and is either on the pool or still here, never both
static eager_task<void> starved(thread_pool& p, int id, int how, int sec, stop_token tk, bool& failed) {
    Live l; Val v(id); int t = sim::cur(); (void)t;
    for (int k = 0; k < 3; ++k) {
        bool here = false;
        try {
            sim::alloc_faults(true);
            if (how == 0) co_await p.schedule(); else if (how == 1) co_await p.dispatch(); else co_await p.schedule_after(std::chrono::seconds(sec), tk);
        } catch (std::bad_alloc&) { here = true; }
        sim::alloc_faults(false); SIM_CHECK(v.id() == id, "corrupt-local", "job %d", id);
        if (here) { failed = true; SIM_CHECK(sim::cur() == t, "wrong-thread", "posting job %d failed, yet it was moved", id); } else { on_pool(0, id); break; }
    }
    gh::at(RAN + id)++;
}
static void starve(bool delays) {
    gh::clear(); harness_thread(); int nt = 1 + sim::pick(2), n = 1 + sim::pick(4); bool failed[8] = {}; stop_source src; std::vector<std::unique_ptr<eager_task<void>>> ts(n);
    {
        thread_pool::work w; thread_pool p;
        if (!delays) { int k = 60 + sim::pick(5); for (int i = 0; i < k; ++i) p.post(noop_coroutine()); }   // up to where the queue has to grow
        start_pool(p, w, nt); HT T;
        std::vector<int> how, sec; for (int i = 0; i < n; ++i) { how.push_back(delays ? 2 : (int)sim::pick(2)); sec.push_back(sim::pick(3)); }
        if (delays) T.go([&, j = (int)sim::pick(4)] { jitter(j); src.request_stop(); });
        for (int i = 0; i < n; ++i) { auto t = starved(p, i, how[i], sec[i], src.get_token(), failed[i]); sim::alloc_faults(false); ts[i] = std::make_unique<eager_task<void>>(std::move(t)); }
        T.join(); w.reset(); p.join();
    }
    ran(n); for (int i = 0; i < n; ++i) if (failed[i]) sim::probe("posting failed for lack of memory");
    ts.clear(); no_live("after the pool is gone");
}
SCENARIO(C14, no_memory) { starve(false); }

// ---------------------------------------------------------------- C15
static eager_task<void> holder(thread_pool& p, thread_pool::work w, int id, std::vector<int> hows, int rel) {
    Live l;
    for (int h : hows) co_await go_to(p, 0, id, h);
    gh::at(RAN + id)++; gh::at(REL)++;
    if (rel == 0) w.reset(); else if (rel == 1) { thread_pool::work x; w = std::move(x); }
    // otherwise the parameter is destroyed with the frame
}
SCENARIO_W(C15, tokens, 3) {
    gh::clear(); harness_thread();
    int nt = 1 + sim::pick(2), nh = 1 + sim::pick(3); bool shared = sim::pick(2);
    std::vector<std::unique_ptr<eager_task<void>>> ts(2 * nh); std::vector<std::vector<int>> hw; for (int i = 0; i < 2 * nh; ++i) hw.push_back(hops(1 + sim::pick(2)));
    std::vector<int> how, rel; for (int i = 0; i < 2 * nh; ++i) { how.push_back(sim::pick(4)); rel.push_back(sim::pick(2)); }
    int tok = 0; for (int q = 0; q < nh; ++q) tok += how[q] != 3;
    auto p = std::make_unique<thread_pool>(); thread_pool::work w; start_pool(*p, w, nt);
    HT T;
    for (int q = 0; q < nh; ++q) {
        auto k = std::make_shared<thread_pool::work>(p->make_work());
        T.go([&, q, k, pp = p.get()]() mutable {
            // while the token is held the pool runs everything that is posted
            if (how[q] & 1) ts[q] = std::make_unique<eager_task<void>>(job(*pp, 0, q, hw[q])); else gh::at(RAN + q) = 1;
            thread_pool::work mine(std::move(*k));
            if (how[q] == 2 || how[q] == 3) {  // hand the token to the pool
                ts[nh + q] = std::make_unique<eager_task<void>>(holder(*pp, std::move(mine), nh + q, hw[nh + q], rel[q]));
            } else { gh::at(RAN + nh + q) = 1; gh::at(REL)++; if (rel[q]) mine.reset(); else if (how[q]) { thread_pool::work z(std::move(mine)); } }
        });
    }
    if (shared) { T.go([&, w = std::make_shared<thread_pool::work>(std::move(w))] { gh::at(REL)++; w->reset(); }); } else { gh::at(REL)++; w.reset(); }
    p->join();
    SIM_CHECK(gh::at(REL) == nh + 1, "early-join", "join returned while %ld of %d tokens were held", nh + 1 - gh::at(REL), nh + 1);
    ran(2 * nh);
    p.reset();
    T.join(); ts.clear(); no_live("after the pool is gone");
}
// tokens made, moved, swapped and assigned over one another, for two pools, by up to three threads: each pool runs
// until its last token is gone, as counted here
SCENARIO_W(C15, token_moves, 2) {
    gh::clear(); harness_thread();
    enum { HELD = 40, ENDED = 42 };
    struct Slot { thread_pool::work w; int of = -1; };
    struct Op { int kind, a, b, pool; };
    int nt = 1 + sim::pick(2); std::vector<std::vector<Op>> ops(nt); for (auto& v : ops) for (int k = 1 + sim::pick(6); k--;) v.push_back({ (int)sim::pick(7), (int)sim::pick(3), (int)sim::pick(3), (int)sim::pick(2) });
    std::vector<std::unique_ptr<eager_task<void>>> ts(2);
    thread_pool ps[2]; thread_pool::work mine[2]; for (int i = 0; i < 2; ++i) { mine[i] = ps[i].make_work(); gh::at(HELD + i) = 1; ps[i].create_threads(1 + sim::pick(2)); }
    bool busy = sim::pick(2);
    HT T;
    for (int i = 0; i < 2; ++i) T.go([&, i] { ps[i].join(); SIM_CHECK(gh::at(HELD + i) == 0, "early-join", "pool %d ended while %ld of its tokens are held", i, gh::at(HELD + i)); gh::at(ENDED + i) = 1; });
    auto give_back = [&] { for (int i = 0; i < 2; ++i) { if (busy) ts[i] = std::make_unique<eager_task<void>>(job(ps[i], 0, i, { 0 })); else gh::at(RAN + i) = 1; gh::at(HELD + i)--; mine[i].reset(); } };
    bool first = sim::pick(2);      // whether ours are the first or the last to go
    {
        std::vector<std::unique_ptr<Slot[]>> all; HT U;
        for (int t = 0; t < nt; ++t) { all.emplace_back(new Slot[3]); for (int i = 0; i < 2; ++i) { all[t][i].w = ps[i].make_work(); all[t][i].of = i; gh::at(HELD + i)++; } }
        for (int t = 0; t < nt; ++t) U.go([&, t] {
            auto mem = std::move(all[t]); Slot (&s)[3] = *reinterpret_cast<Slot (*)[3]>(mem.get());
            // the count drops before the token may be given back, and rises after it was made, under a token of ours
            auto lose = [&](Slot& x) { if (x.of >= 0) gh::at(HELD + x.of)--; x.of = -1; };
            auto lived = [&](Slot& x) { if (x.of >= 0) SIM_CHECK(!gh::at(ENDED + x.of), "early-join", "pool %d ended while thread %d holds a token", x.of, t); };
            for (auto& o : ops[t]) {
                Slot &a = s[o.a], &b = s[o.b];
                switch (o.kind) {
                case 0: case 1: if (s[0].of != o.pool && s[1].of != o.pool && s[2].of != o.pool) break;
                    lose(a); a.w = ps[o.pool].make_work(); a.of = o.pool; gh::at(HELD + o.pool)++; break;
                case 2: lose(a); a.w.reset(); break;
                case 3: if (&a != &b) { lose(a); a.of = b.of; b.of = -1; a.w = std::move(b.w); } break;
                case 4: { Slot c{ std::move(b.w), b.of }; b.of = -1; lived(c); lose(a); a.of = c.of; a.w = std::move(c.w); break; }
                case 5: std::swap(a.w, b.w); std::swap(a.of, b.of); break;
                case 6: { thread_pool::work x(std::move(a.w)); lose(a); break; }
                }
                for (auto& x : s) lived(x);
            }
            for (auto& x : s) { lived(x); lose(x); if (sim::pick(2)) x.w.reset(); }
        });
        if (first) give_back();
    }
    if (!first) give_back();
    T.join(); ran(2);
}
// the continuation, not the poster, decides when the pool ends
SCENARIO_W(C15, last_post_then_destroy, 2) {
    gh::clear(); harness_thread();
    int nt = 1 + sim::pick(2), kind = sim::pick(6);
    auto g = std::make_unique<Gate>(); std::unique_ptr<eager_task<void>> t; stop_source src;
    {
        auto p = std::make_unique<thread_pool>(); thread_pool::work w; start_pool(*p, w, nt);
        auto j = [](thread_pool& p, int kind, Gate& g, stop_token tk) -> eager_task<void> {
            switch (kind) { case 0: co_await p.schedule(); break; case 1: co_await p.dispatch(); break; case 2: co_await RawPost{ p, true }; break; case 3: co_await RawDispatch{ p, false, 0 }; break;
                case 4: co_await p.schedule_after(std::chrono::seconds(0)); break; case 5: co_await p.schedule_after(std::chrono::seconds(1), tk); break; }
            on_pool(0, 0); gh::at(RAN)++; g.hit(); };
        HT T; T.go([&] { t = std::make_unique<eager_task<void>>(j(*p, kind, *g, src.get_token())); });
        g->wait(1); w.reset(); if (sim::pick(2)) p->join();
        p.reset();
    }
    ran(1);
}
SCENARIO(C15, idle_then_stop) {
    // no work at all, or a token alone: threads must neither leave early nor stay
    gh::clear(); harness_thread();
    int nt = 1 + sim::pick(3), rounds = 1 + sim::pick(3); std::vector<std::unique_ptr<eager_task<void>>> ts;
    thread_pool p; p.create_threads(sim::pick(2)); p.join();      // nothing to do: no thread
    for (int r = 0; r < rounds; ++r) {
        auto w = p.make_work(); p.create_threads(nt);
        int n = sim::pick(3); for (int i = 0; i < n; ++i) ts.push_back(std::make_unique<eager_task<void>>(job(p, 0, (int)ts.size(), hops(1))));
        thread_pool::work x = p.make_work(); if (sim::pick(2)) std::swap(w, x); w.reset(); w.reset();
        int m = sim::pick(2); for (int i = 0; i < m; ++i) ts.push_back(std::make_unique<eager_task<void>>(job(p, 0, (int)ts.size(), hops(1))));
        x = thread_pool::work(); p.join(); ran((int)ts.size());
    }
}
SCENARIO_W(C15, moved, 2) {
    gh::clear(); harness_thread();
    int nt = 1 + sim::pick(2), n = 1 + sim::pick(3), way = sim::pick(4); std::vector<std::unique_ptr<eager_task<void>>> ts(n); std::vector<std::vector<int>> hw; for (int i = 0; i < n; ++i) hw.push_back(hops(1 + sim::pick(2)));
    thread_pool::work w; auto a = std::make_unique<thread_pool>(nt, w); thread_pool b; thread_pool* q = a.get();
    if (way == 0) { b = std::move(*a); a.reset(); q = &b; }
    else if (way == 1) { auto c = std::make_unique<thread_pool>(std::move(*a)); a = std::move(c); q = a.get(); }
    else if (way == 2) { // assigned over a pool that has just run out of work
        thread_pool::work w2; thread_pool c(nt, w2); w2.reset(); c = std::move(*a); a = std::make_unique<thread_pool>(std::move(c)); q = a.get(); }
    for (int i = 0; i < n; ++i) ts[i] = std::make_unique<eager_task<void>>(job(*q, 0, i, hw[i]));
    if (sim::pick(2)) q->create_thread();
    w.reset(); q->join(); ran(n);
}

// threads are added, lent, joined and queued for from several sides at once
SCENARIO_W(C15, grow, 2) {
    gh::clear(); harness_thread();
    int n = 2 + sim::pick(3), start = sim::pick(3); std::vector<std::unique_ptr<eager_task<void>>> ts(n); std::vector<std::vector<int>> hw; for (int i = 0; i < n; ++i) hw.push_back(hops(1 + sim::pick(2)));
    {
        thread_pool p; thread_pool::work w; auto post = [&](int i) { ts[i] = std::make_unique<eager_task<void>>(job(p, 0, i, hw[i])); };
        // queued items alone are enough for threads to be started
        if (start == 0) { post(0); p.create_threads(1); w = p.make_work(); } else if (start == 1) { w = p.make_work(); post(0); } else { post(0); w = p.make_work(); p.create_thread(); }
        HT T; int adders = 1 + sim::pick(2), early = sim::pick(2);
        for (int i = 0; i < adders; ++i) T.go([&, k = 1 + sim::pick(2), o = sim::pick(2)] { if (o) for (int q = 0; q < k; ++q) p.create_thread(); else p.create_threads(k); });
        T.go([&] { for (int i = 1; i < n; ++i) post(i); });
        if (early) T.go([&] { p.join(); });        // waits for the threads there are by then
        for (int i = 0; i < 1 + (early == 0); ++i) jitter(1);
        if (early) { p.create_thread(); while (gh::at(RAN + n - 1) == 0) std::this_thread::yield(); w.reset(); T.join(); } else { T.join(); w.reset(); }
        if (sim::pick(2)) p.join();
    }
    ran(n); ts.clear(); no_live("after the pool is gone");
}
// items queued without any work token: the threads started for them run them all, then end
SCENARIO(C15, no_token) {
    gh::clear(); harness_thread();
    int n = 1 + sim::pick(3), nd = sim::pick(2); std::vector<std::unique_ptr<eager_task<void>>> ts(n); std::vector<int> out;
    {
        thread_pool p; bool lend = sim::pick(2);
        auto d = [](thread_pool& p, int id) -> eager_task<void> { AW(p.schedule_after(std::chrono::seconds(1))); gh::at(RAN + id)++; };
        for (int i = 0; i < n; ++i) ts[i] = std::make_unique<eager_task<void>>(nd ? d(p, i) : job(p, 0, i, hops(1 + sim::pick(2))));
        if (lend) { Threads T; T.go([&] { p.run(); }); } else { p.create_threads(1 + sim::pick(2)); p.join(); }
        ran(n);
    }
    ts.clear(); no_live("after the pool is gone");
}
// a thread that lent itself to one pool is free again afterwards
static void lent_again() {
    gh::clear(); harness_thread(); int rounds = 2 + sim::pick(2); thread_pool p[2]; std::vector<int> which; for (int r = 0; r < rounds; ++r) which.push_back(sim::pick(2));
    Threads T; 
    T.go([&] {
        for (int r = 0; r < rounds; ++r) {
            thread_pool& q = p[which[r]]; int k = 0, t = sim::cur();
            auto j = [](thread_pool& q, int how, int& k, int t) -> eager_task<void> { if (how) co_await q.schedule(); else co_await q.dispatch(); ++k; SIM_CHECK(sim::cur() == t, "wrong-thread", "a continuation of a pool run by the caller ran elsewhere"); co_await q.dispatch(); ++k; };
            auto e = j(q, r & 1, k, t); SIM_CHECK(k == 0, "dispatch", "dispatch ran inline on a thread which no longer runs the pool");
            q.run(); SIM_CHECK(k == 2, "lost-work", "run() returned with %d of 2 steps done", k);
        }
    });
}
SCENARIO(C14, lent_again) { lent_again(); }
SCENARIO(C15, lent_again) { lent_again(); }
// ---------------------------------------------------------------- C16
static const sim::u64 SEC = 1000000000ull;
struct DelaySpec { int sec; bool token; };
static auto after(thread_pool& p, long ns, stop_token tk) { return in_some_unit(ns, [&](auto d) { return p.schedule_after(d, std::move(tk)); }); }
static eager_task<void> delayed(thread_pool& p, int id, int sec, stop_token tk, int how, Gate* done) {
    Live l; Val v(id); sim::u64 t0 = sim::now_ns(); stop_token mine = tk; (void)how;
    long len = (long)(sec * SEC) + fraction(); if (!sec && sim::pick(8) == 7) len = -len - (long)(sim::pick(3) * SEC);   // one that is over already
    if (len >= 0) t0 += len;
    AW(after(p, len, std::move(tk)));
    on_pool(0, id); SIM_CHECK(v.id() == id, "corrupt-local", "delay %d", id);
    SIM_CHECK(++gh::at(RAN + id) == 1, "ran-twice", "delay %d was resumed %ld times", id, gh::at(RAN + id));
    gh::at(RUNAT + id) = (long)sim::now_ns();
    if (!mine.stop_requested()) SIM_CHECK(sim::now_ns() >= t0, "early-resume", "delay %d of %.9f s was resumed %.9f s early without a stop request", id, len / 1e9, (t0 - sim::now_ns()) / 1e9);
    if (done) done->hit();
}
// clock reads may each have moved time by a few ms; anything below this is "at once"
static bool exact() { return sim::early_jumps() == 0; }
SCENARIO_W(C16, deadlines, 2) {
    gh::clear(); harness_thread();
    int nt = 1 + sim::pick(3), n = 1 + sim::pick(4), nj = sim::pick(3); bool threads = sim::pick(2);
    std::vector<int> sec; for (int i = 0; i < n; ++i) sec.push_back(sim::pick(20) == 19 ? 3600 << sim::pick(6) : sim::pick(5) * 10);
    std::vector<std::unique_ptr<eager_task<void>>> ts(n), js(nj); sim::u64 t0 = sim::now_ns();
    {
        thread_pool p; thread_pool::work w; start_pool(p, w, nt);
        { HT T; auto body = [&] { for (int i = 0; i < n; ++i) { ts[i] = std::make_unique<eager_task<void>>(delayed(p, i, sec[i], {}, 0, nullptr)); } };
          if (threads) T.go(body); for (int i = 0; i < nj; ++i) { js[i] = std::make_unique<eager_task<void>>(job(p, 0, 16 + i, hops(2))); } if (!threads) body(); }
        w.reset(); p.join();
        ran(n); for (int i = 0; i < nj; ++i) SIM_CHECK(gh::at(RAN + 16 + i) == 1, "lost-work", "job %d", i);
        if (exact()) for (int i = 0; i < n; ++i) SIM_CHECK((sim::u64)gh::at(RUNAT + i) < t0 + sec[i] * SEC + 9 * SEC, "late-resume", "a %d s delay was resumed %.3f s after the start although every thread was free", sec[i], (gh::at(RUNAT + i) - t0) / 1e9);
    }
    ts.clear(); js.clear(); no_live("after the pool is gone");
}
// stop requests before, during and after registration; the frame may die as soon as it is resumed
static void cancel(int nt, bool join_exact) {
    gh::clear(); harness_thread();
    int n = 1 + sim::pick(2), stoppers = 1 + sim::pick(2), nj = sim::pick(3), sec = 10 + 10 * sim::pick(2); int keep = sim::pick(2);
    if (join_exact) nj = sim::pick(2);
    sim::u64 t0 = sim::now_ns(); Gate done;
    {
        auto src = std::make_unique<stop_source>(); thread_pool p; thread_pool::work w; start_pool(p, w, nt);
        std::vector<std::unique_ptr<eager_task<void>>> ts(n), js(nj);
        {
            HT T; bool early = sim::pick(3) == 2;
            auto jobs = [&] { for (int i = 0; i < nj; ++i) js[i] = std::make_unique<eager_task<void>>(job(p, 0, 16 + i, hops(1))); };
            if (early) { jobs(); keep = 0; for (int i = 0; i < n; ++i) ts[i] = std::make_unique<eager_task<void>>(delayed(p, i, sec, src->get_token(), 0, &done)); w.reset(); }
            for (int s = 0; s < stoppers; ++s) T.go([&, src = *src, j = (int)sim::pick(4)]() mutable { jitter(j); src.request_stop(); });
            if (keep) for (int i = 0; i < n; ++i) ts[i] = std::make_unique<eager_task<void>>(delayed(p, i, sec, src->get_token(), 0, &done));
            else if (!early) T.go([&] { for (int i = 0; i < n; ++i) ts[i] = std::make_unique<eager_task<void>>(delayed(p, i, sec, src->get_token(), 0, &done)); });
            if (!early) jobs();
            if (keep) src.reset();
            done.wait(n);
            if (exact()) SIM_CHECK(sim::now_ns() - t0 < 5 * SEC, "late-stop", "a stopped delay was resumed %.3f s later (its deadline: %d s)", (sim::now_ns() - t0) / 1e9, sec);
            w.reset(); p.join();
            if (exact()) SIM_CHECK(sim::now_ns() - t0 < 5 * SEC, "late-join", "join returned %.3f s later although nothing was left to do (a stopped delay had its deadline at %d s)", (sim::now_ns() - t0) / 1e9, sec);
        }
        ran(n); for (int i = 0; i < nj; ++i) SIM_CHECK(gh::at(RAN + 16 + i) == 1, "lost-work", "job %d", i);
    }
    no_live("after the pool is gone");
}
SCENARIO_W(C16, stop_one_thread, 2) { cancel(1, false); }
SCENARIO_W(C16, stop_two_threads, 2) { cancel(2, false); }
SCENARIO(C16, stop_three_threads) { cancel(3, true); }
// stop racing with expiry: either wins, once
SCENARIO_W(C16, stop_or_expire, 2) {
    gh::clear(); harness_thread();
    int nt = 1 + sim::pick(2), n = 1 + sim::pick(3); std::vector<int> sec, when; std::vector<stop_source> src(n); for (int i = 0; i < n; ++i) { sec.push_back(sim::pick(3)); when.push_back(sim::pick(3)); }
    std::vector<std::unique_ptr<eager_task<void>>> ts(n); bool share = sim::pick(2); int late = sim::pick(2);
    {
        thread_pool p; thread_pool::work w; start_pool(p, w, nt);
        HT T;
        T.go([&] { for (int i = 0; i < n; ++i) { if (when[i]) std::this_thread::sleep_for(std::chrono::seconds(when[i])); src[share ? 0 : i].request_stop(); } });
        for (int i = 0; i < n; ++i) ts[i] = std::make_unique<eager_task<void>>(delayed(p, i, sec[i], src[share ? 0 : i].get_token(), 0, nullptr));
        w.reset(); if (late) T.join();
        p.join(); ran(n); ts.clear(); no_live("after the pool is idle");
        T.join();
    }
}
// several coroutines on the pool's threads delay themselves again and again, with and without tokens
static eager_task<void> napper(thread_pool& p, int id, std::vector<DelaySpec> ds, stop_source src, stop_source other, int hit) {
    Live l; Val v(id); AW(p.schedule());
    for (size_t i = 0; i < ds.size(); ++i) {
        sim::u64 t0 = sim::now_ns(); stop_token tk = ds[i].token ? src.get_token() : stop_token{};
        if ((int)i == hit) other.request_stop();
        AW(p.schedule_after(std::chrono::seconds(ds[i].sec), tk)); on_pool(0, id);
        SIM_CHECK(v.id() == id, "corrupt-local", "napper %d", id);
        if (!tk.stop_requested()) SIM_CHECK(sim::now_ns() >= t0 + ds[i].sec * SEC, "early-resume", "nap %d of napper %d, %d s long, ended after %.9f s without a stop request", (int)i, id, ds[i].sec, (sim::now_ns() - t0) / 1e9);
        gh::at(BEF + id)++;
    }
    gh::at(RAN + id)++; gh::at(RUNAT + id) = (long)sim::now_ns();
}
SCENARIO_W(C16, naps, 3) {
    gh::clear(); harness_thread();
    int nt = 2 + sim::pick(2), n = 2 + sim::pick(2); std::vector<std::unique_ptr<eager_task<void>>> ts(n); std::vector<stop_source> src(n); std::vector<int> total(n), len(n); sim::u64 t0 = sim::now_ns();
    bool stops = sim::pick(2);
    {
        thread_pool p; thread_pool::work w; start_pool(p, w, nt);
        for (int i = 0; i < n; ++i) { std::vector<DelaySpec> ds; int k = 1 + sim::pick(3); for (int q = 0; q < k; ++q) { ds.push_back({ 10 * (int)(sim::pick(3)), (bool)sim::pick(2) }); total[i] += ds.back().sec; } len[i] = k;
            ts[i] = std::make_unique<eager_task<void>>(napper(p, i, ds, src[i], src[(i + 1) % n], stops ? (int)sim::pick(k) : -1)); }
        w.reset(); p.join(); ran(n);
    }
    for (int i = 0; i < n; ++i) { SIM_CHECK(gh::at(BEF + i) == len[i], "lost-work", "napper %d took %ld of %d naps", i, gh::at(BEF + i), len[i]);
        if (exact()) SIM_CHECK((sim::u64)gh::at(RUNAT + i) < t0 + total[i] * SEC + 9 * SEC, "late-resume", "naps of %d s in all ended after %.3f s", total[i], (gh::at(RUNAT + i) - t0) / 1e9); }
    ts.clear(); no_live("after the pool is gone");
}
// delays up to and beyond what the clock can represent: only a stop request ends them
template<class D> static eager_task<void> ages(thread_pool& p, int id, D d, stop_token tk) {
    Live l; stop_token mine = tk;
    AW(p.schedule_after(d, std::move(tk))); on_pool(0, id); SIM_CHECK(++gh::at(RAN + id) == 1, "ran-twice", "delay %d was resumed %ld times", id, gh::at(RAN + id));
    SIM_CHECK(mine.stop_requested(), "early-resume", "a delay of centuries was over after %.9f s", (sim::now_ns()) / 1e9);
}
SCENARIO(C16, ages) {
    gh::clear(); harness_thread(); using namespace std::chrono;
    int nt = 1 + sim::pick(2), n = 1 + sim::pick(3), m = sim::pick(3), late = sim::pick(2); std::vector<std::unique_ptr<eager_task<void>>> ts(n + m); stop_source src; sim::u64 t0 = sim::now_ns();
    {
        thread_pool p; thread_pool::work w; start_pool(p, w, nt);
        auto one = [&](int i) -> eager_task<void> { auto tk = src.get_token(); switch (sim::pick(7)) { case 0: return ages(p, i, nanoseconds::max(), tk); case 1: return ages(p, i, milliseconds::max(), tk); case 2: return ages(p, i, hours::max(), tk); case 3: return ages(p, i, seconds::max(), tk);
            case 4: return ages(p, i, hours(24 * 366 * 290), tk); case 5: return ages(p, i, hours(24 * 366 * 400), tk); default: return ages(p, i, duration_cast<microseconds>(nanoseconds::max()), tk); } };
        for (int i = 0; i < n; ++i) ts[i] = std::make_unique<eager_task<void>>(one(i));
        for (int i = n; i < n + m; ++i) ts[i] = std::make_unique<eager_task<void>>(delayed(p, i, 10 * (i - n), stop_token{}, 0, nullptr));
        if (late) std::this_thread::sleep_for(seconds(30));
        if (late && exact()) for (int i = n; i < n + m; ++i) SIM_CHECK((sim::u64)gh::at(RUNAT + i) < t0 + (10 * (i - n) + 9) * SEC, "late-resume", "delay %d", i);
        src.request_stop(); w.reset(); p.join(); ran(n + m);
    }
    ts.clear(); no_live("after the pool is gone");
}
// the queue never becomes empty: coroutines that take a second at a time and post themselves again, until a delayed one says stop
static eager_task<void> poller(thread_pool& p, int id, std::vector<sim::u64> due) {
    Live l; AW(p.schedule()); size_t behind = 0;
    for (;;) {
        bool all = true; for (size_t i = 0; i < due.size(); ++i) if (!gh::at(RUNAT + (int)i)) { all = false; if (sim::now_ns() > due[i]) ++behind; }
        if (all) break;
        SIM_CHECK(behind < 60, "lost-work", "a delay that was over is still put off, %zu rounds of other work later", behind);
        std::this_thread::sleep_for(std::chrono::seconds(1)); AW(p.schedule()); on_pool(0, id);
    }
    gh::at(RAN + id)++;
}
SCENARIO(C16, busy_queue) {
    gh::clear(); harness_thread();
    int nt = 1 + sim::pick(2), n = 1 + sim::pick(3), np = nt + sim::pick(3); std::vector<int> sec; for (int i = 0; i < n; ++i) sec.push_back(sim::pick(6)); sim::u64 t0 = sim::now_ns();
    std::vector<std::unique_ptr<eager_task<void>>> ts(n), js(np);
    {
        thread_pool p; thread_pool::work w; start_pool(p, w, nt);
        for (int i = 0; i < n; ++i) ts[i] = std::make_unique<eager_task<void>>(delayed(p, i, sec[i], {}, 0, nullptr));
        std::vector<sim::u64> due; for (int i = 0; i < n; ++i) due.push_back(sim::now_ns() + sec[i] * SEC + SEC);
        for (int i = 0; i < np; ++i) js[i] = std::make_unique<eager_task<void>>(poller(p, 16 + i, due));
        w.reset(); p.join(); ran(n); for (int i = 0; i < np; ++i) SIM_CHECK(gh::at(RAN + 16 + i) == 1, "lost-work", "poller %d", i); (void)t0;
    }
    ts.clear(); js.clear(); no_live("after the pool is gone");
}
SCENARIO(C16, idle_worker) { idle(2 + sim::pick(2), true); }
SCENARIO(C16, many) {
    // a larger heap: random deadlines, some cancelled
    gh::clear(); harness_thread();
    int nt = 1 + sim::pick(2), n = 4 + some(7, 60); std::vector<int> sec; std::vector<char> cut; for (int i = 0; i < n; ++i) { sec.push_back(10 * (1 + sim::pick(8))); cut.push_back(sim::pick(3) == 0); }
    std::vector<std::unique_ptr<eager_task<void>>> ts(n); std::vector<stop_source> src(n); sim::u64 t0 = sim::now_ns();
    {
        thread_pool p; thread_pool::work w; start_pool(p, w, nt);
        for (int i = 0; i < n; ++i) ts[i] = std::make_unique<eager_task<void>>(delayed(p, i, sec[i], src[i].get_token(), 0, nullptr));
        for (int i = 0; i < n; ++i) if (cut[i]) src[i].request_stop();
        w.reset(); p.join(); ran(n);
        if (exact()) for (int i = 0; i < n; ++i) { sim::u64 d = cut[i] ? 0 : sec[i] * SEC; SIM_CHECK((sim::u64)gh::at(RUNAT + i) < t0 + d + 9 * SEC, "late-resume", "delay %d (%d s%s) was resumed after %.3f s", i, sec[i], cut[i] ? ", stopped" : "", (gh::at(RUNAT + i) - t0) / 1e9); }
    }
    ts.clear(); no_live("after the pool is gone");
}

SCENARIO(C16, no_memory) { starve(true); }

// ---------------------------------------------------------------- C22
struct Body { int id; int hop; bool fail; bool on; };
static void body_begin(const Body& b, bool pooled) { SIM_CHECK(++gh::at(RAN + b.id) == 1, "ran-twice", "body %d", b.id); if (pooled) on_pool(0, b.id); else SIM_CHECK(gh::at(OWN + sim::cur()) == 1, "wrong-thread", "body %d started on the inline scheduler runs elsewhere", b.id); }
static task<Val> b_val(Exec& e, Body b) { Live l; Val v(b.id * 5); body_begin(b, b.on); if (b.hop) co_await e.hop(); gh::at(BEF + b.id)++; if (b.fail) throw_fail(b.id); co_return std::move(v); }
static task<void> b_void(Exec& e, Body b) { Live l; body_begin(b, b.on); if (b.hop) co_await e.hop(); gh::at(BEF + b.id)++; if (b.fail) throw_fail(b.id); }
static task<Val&> b_ref(Exec& e, Body b, Val& out) { Live l; body_begin(b, b.on); if (b.hop) co_await e.hop(); out = Val(b.id * 5); gh::at(BEF + b.id)++; if (b.fail) throw_fail(b.id); co_return out; }
static task<int> b_macro(Exec& e, Body b) {
    MC_BEGIN(task<int>, &e, b, l = Live{});
    body_begin(b, b.on);
    if (b.hop) { MC_AWAIT(e.hop()); }
    gh::at(BEF + b.id)++; if (b.fail) throw_fail(b.id);
    MC_RETURN(b.id * 5);
    MC_END();
}
// not a coroutine: every hook of the awaitable belongs to the work and runs on the scheduler
struct Plain {
    Exec* e; Body b; Val v; bool suspended = false;
    Plain(Exec& e, Body b) : e(&e), b(b), v(b.id * 5) {}
    bool await_ready() { body_begin(b, b.on); return !b.hop; }
    template<class H> void await_suspend(H h) { if (b.on) on_pool(0, b.id); suspended = true; e->post(macoro::coroutine_handle<>(h)); }
    Val await_resume() { if (!b.hop && b.on) on_pool(0, b.id); SIM_CHECK(suspended == !!b.hop && v.id() == b.id * 5, "corrupt-local", "awaitable %d", b.id); gh::at(BEF + b.id)++; if (b.fail) throw_fail(b.id); return std::move(v); }
};
template<class S> static void start_one(S& s, bool pooled, Exec& e, int id) {
    Body b{ id, (int)sim::pick(2), sim::pick(4) == 3, pooled }; int kind = sim::pick(5), late = sim::pick(3), pipe = sim::pick(2); Val out;
    auto wait = [&](auto&& t, auto check) {
        jitter(late);
        try { check(std::move(t)); SIM_CHECK(!b.fail, "lost-exception", "body %d threw, its awaiter got a value", id); }
        catch (Fail& f) { SIM_CHECK(b.fail && f.id == id, "wrong-exception", "body %d", id); }
        SIM_CHECK(gh::at(BEF + id) == 1, "early-resume", "the awaiter of body %d ran before the body ended", id);
    };
    if (kind == 0) { auto t = pipe ? (b_val(e, b) | start_on(s)) : start_on(s, b_val(e, b)); wait(std::move(t), [&](auto t) { Val v = sync_wait(std::move(t)); SIM_CHECK(v.id() == id * 5, "wrong-result", "body %d returned %d", id, v.id()); }); }
    else if (kind == 1) { auto t = pipe ? (b_void(e, b) | start_on(s)) : start_on(s, b_void(e, b)); wait(std::move(t), [&](auto t) { sync_wait(std::move(t)); }); }
    else if (kind == 2) { auto t = pipe ? (b_ref(e, b, out) | start_on(s)) : start_on(s, b_ref(e, b, out)); wait(std::move(t), [&](auto t) { Val& v = sync_wait(std::move(t)); SIM_CHECK(&v == &out && v.id() == id * 5, "wrong-result", "body %d returned another reference", id); }); }
    else if (kind == 4) { auto t = pipe ? (Plain(e, b) | start_on(s)) : start_on(s, Plain(e, b)); wait(std::move(t), [&](auto t) { Val v = sync_wait(std::move(t)); SIM_CHECK(v.id() == id * 5, "wrong-result", "body %d returned %d", id, v.id()); }); }
    else { auto t = pipe ? (b_macro(e, b) | start_on(s)) : start_on(s, b_macro(e, b)); wait(std::move(t), [&](auto t) { int v = sync_wait(std::move(t)); SIM_CHECK(v == id * 5, "wrong-result", "body %d returned %d", id, v); }); }
}
SCENARIO_W(C22, start_on_pool, 2) {
    gh::clear(); harness_thread(); int nt = 1 + sim::pick(2), n = 1 + sim::pick(2);
    { thread_pool::work w; thread_pool p(nt, w); Exec e(1);
      { HT T; for (int i = 1; i < n; ++i) T.go([&, i] { start_one(p, true, e, i); }); start_one(p, true, e, 0); }
      w.reset(); if (sim::pick(2)) p.join(); }
    no_live("after the pool is gone");
}
SCENARIO(C22, start_on_inline) {
    gh::clear(); harness_thread();
    { Exec e(1); inline_scheduler s; HT T; T.go([&] { start_one(s, false, e, 1); }); start_one(s, false, e, 0); }
    no_live("at the end");
}
// the task started on the pool is awaited from other coroutines, possibly never
static task<void> awaiter_of(eager_task<Val>& t, Exec& e, int id, bool fail, int hop) {
    Live l; if (hop) co_await e.hop();
    try { Val v = AW(std::move(t)); SIM_CHECK(!fail && v.id() == id * 5, "wrong-result", "body %d", id); } catch (Fail& f) { SIM_CHECK(fail && f.id == id, "wrong-exception", "body %d", id); }
    gh::at(AFT + id)++;
}
SCENARIO(C22, awaited_elsewhere) {
    gh::clear(); harness_thread(); int n = 1 + sim::pick(3);
    { thread_pool::work w; thread_pool p(1 + sim::pick(2), w); Exec e(1);
      std::vector<std::unique_ptr<eager_task<Val>>> ts; std::vector<Body> bs; std::vector<task<void>> as;
      for (int i = 0; i < n; ++i) { bs.push_back({ i, (int)sim::pick(2), sim::pick(4) == 3, true }); ts.push_back(std::make_unique<eager_task<Val>>(start_on(p, b_val(e, bs[i])))); as.push_back(awaiter_of(*ts[i], e, i, bs[i].fail, sim::pick(2))); }
      auto r = sync_wait(when_all_ready(std::move(as))); for (auto& x : r) x.result();
      for (int i = 0; i < n; ++i) SIM_CHECK(gh::at(AFT + i) == 1, "resume-count", "awaiter %d", i);
      r.clear(); ts.clear(); w.reset(); }
    no_live("after the pool is gone");
}
static task<Val> traveller(thread_pool* ps, int id, std::vector<int> route, bool fail) {
    Live l; Val v(id);
    for (int r : route) { AW(transfer_to(ps[r])); on_pool(r, id); SIM_CHECK(v.id() == id, "corrupt-local", "traveller %d", id); }
    gh::at(RAN + id)++; if (fail) throw_fail(id); co_return std::move(v);
}
SCENARIO(C22, transfer) {
    gh::clear(); harness_thread(); int n = 1 + sim::pick(2);
    { thread_pool ps[2]; thread_pool::work w[2]; for (int i = 0; i < 2; ++i) start_pool(ps[i], w[i], 1);
      { HT T; for (int i = 0; i < n; ++i) { std::vector<int> route; int k = 1 + sim::pick(3); for (int q = 0; q < k; ++q) route.push_back(sim::pick(2)); bool f = sim::pick(4) == 3, nest = sim::pick(2);
          T.go([&, i, route, f, nest] {
              try { Val v;
                  if (nest) { auto outer = [](thread_pool* ps, int i, std::vector<int> r, bool f) -> task<Val> { Live l; Val x = co_await (traveller(ps, i, r, f) | start_on(ps[1 - r[0]])); co_await transfer_to(ps[0]); on_pool(0, i); co_return std::move(x); }; v = sync_wait(outer(ps, i, route, f)); }
                  else v = sync_wait(traveller(ps, i, route, f));
                  SIM_CHECK(!f && v.id() == i, "wrong-result", "traveller %d", i); }
              catch (Fail& x) { SIM_CHECK(f && x.id == i, "wrong-exception", "traveller %d", i); } }); } }
      w[0].reset(); w[1].reset(); }
    ran(n); no_live("after the pools are gone");
}
