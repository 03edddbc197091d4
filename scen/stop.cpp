// stop_source / stop_token / stop_callback, and awaiting a token
#include "hop.h"
#include "macoro/stop.h"
#include "macoro/when_all.h"
#include "lib.inc"
using namespace macoro;

enum { LIVE = 1, REQ_BEGUN = 2, REQ_DONE = 3, CBTHREAD = 4, SRCS = 8, REQB = 12,
       NCB = 48, CTOR = 64, CTORED = 112, DTOR = 160, DTORED = 208, RUNS = 256, RUNNING = 304, RUNAT = 352, INREQ = 400 };
struct Live { Live() { gh::at(LIVE)++; } Live(const Live&) { gh::at(LIVE)++; } ~Live() { gh::at(LIVE)--; } };
static void no_live(const char* when) { SIM_CHECK(gh::at(LIVE) == 0, gh::at(LIVE) > 0 ? "frame-not-destroyed" : "double-destroy", "%ld coroutine locals are alive %s", gh::at(LIVE), when); }

// ---------------------------------------------------------------- C17
// One stop state with the book-keeping of everything that happens to it.
struct World {
    stop_source src; long payload = 0; bool one_requester = true;
    World() { gh::at(REQ_BEGUN) = 0; gh::at(CBTHREAD) = -1; }
    void request(stop_source s) {
        if (one_requester) payload = 7;
        if (!gh::at(REQ_BEGUN)) gh::at(REQ_BEGUN) = (long)sim::stamp();
        gh::at(INREQ + sim::cur())++;
        s.request_stop();
        gh::at(INREQ + sim::cur())--;
        gh::at(REQ_DONE) = (long)sim::stamp();
        SIM_CHECK(s.stop_requested() && s.get_token().stop_requested(), "not-requested", "stop_requested() is false after request_stop()");
    }
};
// A callback under observation; `act` is what it does when it runs.
struct Cb {
    World& w; int id; Live l; std::function<void()> act; std::optional<stop_callback> reg; stop_source mine; bool late = false;
    Cb(World& w, int id, std::function<void()> a = {}) : w(w), id(id), act(std::move(a)), mine(w.src) {
        SIM_CHECK(id < NCB, "harness", "too many callbacks");
        gh::at(CTOR + id) = (long)sim::stamp(); gh::at(CTORED + id) = 0; gh::at(RUNS + id) = 0; gh::at(DTOR + id) = 0; gh::at(DTORED + id) = 0; gh::at(RUNNING + id) = 0; gh::at(240 + 0);
        int t = sim::cur();
        reg.emplace(mine.get_token(), [this, t] { run(t); });
        gh::at(CTORED + id) = (long)sim::stamp();
    }
    void run(int ctor_thread) {
        int i = id;
        SIM_CHECK(gh::at(REQ_BEGUN), "early-callback", "callback %d runs although no stop was requested", i);
        SIM_CHECK(!gh::at(DTORED + i), "late-callback", "callback %d runs after it was destroyed", i);
        SIM_CHECK(++gh::at(RUNS + i) == 1, "ran-twice", "callback %d ran %ld times", i, gh::at(RUNS + i));
        bool in_ctor = !gh::at(CTORED + i) && sim::cur() == ctor_thread;
        if (!in_ctor) {
            SIM_CHECK(gh::at(INREQ + sim::cur()) > 0, "wrong-thread", "callback %d runs on thread T%d, which is not requesting a stop", i, sim::cur());
            if (gh::at(CBTHREAD) < 0) gh::at(CBTHREAD) = sim::cur();
            SIM_CHECK(gh::at(CBTHREAD) == sim::cur(), "two-requesters", "callbacks run on the two requesting threads T%ld and T%d", gh::at(CBTHREAD), sim::cur());
        } else SIM_CHECK(!gh::at(CTORED + i), "wrong-thread", "callback %d", i);
        if (w.one_requester) SIM_CHECK(w.payload == 7, "stale-data", "callback %d does not see what was written before the request", i);
        SIM_CHECK(mine.stop_requested() && mine.get_token().stop_requested(), "not-requested", "stop_requested() is false inside callback %d", i);
        gh::at(RUNNING + i) = 1 + sim::cur(); gh::at(RUNAT + i) = (long)sim::stamp();
        auto a = std::move(act);      // the action may destroy this object
        if (a) a();
        gh::at(RUNNING + i) = 0;
    }
    ~Cb() {
        int i = id; long before = (long)sim::stamp(); gh::at(DTOR + i) = before;
        long done = gh::at(REQ_DONE), ctored = gh::at(CTORED + i);
        reg.reset();
        long r = gh::at(RUNNING + i);
        SIM_CHECK(!r || r == 1 + sim::cur(), "destroyed-while-running", "the destructor of callback %d returned while it runs on T%ld", i, r - 1);
        (void)done; (void)ctored; gh::at(DTORED + i) = (long)sim::stamp();
    }
    // once every request has returned, whatever was registered and still exists has run
    void must_have_run() { SIM_CHECK(gh::at(RUNS + id) == 1, "lost-callback", "callback %d was registered and alive through the request but ran %ld times", id, gh::at(RUNS + id)); }
};
// registration, destruction and requests on several threads
static void cb_race(int nreg, int nreq, int per, u_int32_t hwc) {
    gh::clear(); if (hwc) sim::set_hwc(hwc);
    World w; w.one_requester = nreq == 1; std::vector<std::vector<std::unique_ptr<Cb>>> cbs(nreg);
    bool main_first = sim::pick(2); std::vector<std::unique_ptr<Cb>> pre; int id = 0; int npre = main_first ? (int)sim::pick(3) : 0;
    for (int i = 0; i < npre; ++i) pre.push_back(std::make_unique<Cb>(w, id++));
    std::vector<u_int32_t> keepmask;
    {
        Threads T;
        for (int r = 0; r < nreg; ++r) {
            int n = 1 + sim::pick(per); u_int32_t keep = sim::pick(1u << n), j = sim::pick(3); int base = id; id += n; keepmask.push_back(keep); auto s = std::make_shared<stop_source>(w.src);
            T.go([&, r, n, keep, j, base, s] {
                for (int i = 0; i < n; ++i) { auto c = std::make_unique<Cb>(w, base + i); jitter(j); if (keep >> i & 1) cbs[r].push_back(std::move(c)); }
            });
        }
        for (int q = 0; q < nreq; ++q) T.go([&, j = (int)sim::pick(6), s = w.src]() mutable { jitter(j); w.request(std::move(s)); });
        if (npre && sim::pick(2)) pre.pop_back();
    }
    for (auto& v : cbs) for (auto& c : v) c->must_have_run();
    for (auto& c : pre) c->must_have_run();
    cbs.clear(); pre.clear(); no_live("at the end");
}
SCENARIO_W(C17, one_requester, 2) { cb_race(2, 1, 2, 0); }
SCENARIO_W(C17, two_requesters, 2) { cb_race(1 + sim::pick(2), 2, 2, 0); }
SCENARIO(C17, one_list) { cb_race(2 + sim::pick(2), 1, 3, 1); }
// more callbacks than a block holds, with two threads growing the list at once
SCENARIO(C17, many_callbacks) {
    gh::clear(); sim::set_hwc(1);
    World w; int n0 = 12 + sim::pick(5), id = n0; std::vector<std::unique_ptr<Cb>> pre; for (int i = 0; i < n0; ++i) pre.push_back(std::make_unique<Cb>(w, i));
    // holes left by destroyed callbacks are used again
    int holes = sim::pick(3); for (int i = 0; i < holes; ++i) { int k = sim::pick((int)pre.size()); pre.erase(pre.begin() + k); }
    std::vector<std::unique_ptr<Cb>> a[2]; int n[2]; for (int i = 0; i < 2; ++i) n[i] = 1 + sim::pick(7); int when = sim::pick(3), nt = 1 + sim::pick(2);
    {
        Threads T;
        for (int q = 0; q < nt; ++q) { T.go([&, q, base = id] { for (int i = 0; i < n[q]; ++i) a[q].push_back(std::make_unique<Cb>(w, base + i)); if (n[q] > 3) a[q].erase(a[q].begin() + 1); }); id += n[q]; }
        if (when == 0) T.go([&, s = w.src] { w.request(s); });
    }
    if (when) { if (when == 2) for (int i = 0; i < 3; ++i) pre.push_back(std::make_unique<Cb>(w, id++)); w.request(w.src); }
    for (auto& v : a) for (auto& c : v) c->must_have_run();
    for (auto& c : pre) c->must_have_run();
    for (auto& v : a) v.clear(); pre.clear(); no_live("at the end");
}
// a crowd: several blocks of callbacks, with holes that are filled again, and with the handles going away in any order
static void crowd() {
    gh::clear(); sim::set_hwc(1 + sim::pick(2)); enum { ALIVE = 512, RAN = 768 };
    auto src = std::make_unique<stop_source>(); stop_token tok = src->get_token(); std::vector<std::pair<int, std::unique_ptr<stop_callback>>> cbs[3]; int n = sim::pick(4) == 3 ? 40 + (int)sim::pick(60) : 14 + (int)sim::pick(12), nt = sim::pick(3), id = 0;
    auto add = [&](int q, int i) { gh::at(ALIVE + i) = 1; cbs[q].push_back({ i, std::make_unique<stop_callback>(src->get_token(), [i] { SIM_CHECK(gh::at(ALIVE + i), "late-callback", "callback %d runs after it was destroyed", i); SIM_CHECK(++gh::at(RAN + i) == 1, "ran-twice", "callback %d ran %ld times", i, gh::at(RAN + i)); }) }); };
    auto drop = [&](int q, int k) { int i = cbs[q][k].first; cbs[q][k].second.reset(); gh::at(ALIVE + i) = 0; cbs[q].erase(cbs[q].begin() + k); };
    for (int i = 0; i < n; ++i) { add(0, id++); if (id > 1 && sim::pick(8) == 7) drop(0, sim::pick((int)cbs[0].size())); }
    int holes = sim::pick(4) == 3 ? (int)cbs[0].size() - 1 : sim::pick(6); for (int i = 0; i < holes; ++i) drop(0, sim::pick(2) ? 0 : (int)cbs[0].size() - 1);
    int more = sim::pick(12); for (int i = 0; i < more; ++i) add(0, id++);
    int when = sim::pick(3);
    { Threads T; for (int q = 1; q <= nt; ++q) { int m = 1 + sim::pick(20); T.go([&, q, m, base = id] { for (int i = 0; i < m; ++i) { add(q, base + i); if (i % 5 == 4) drop(q, (int)cbs[q].size() / 2); } }); id += m; }
      if (when == 0) T.go([&] { src->request_stop(); }); else if (when == 1 && cbs[0].size() > 2) { drop(0, (int)cbs[0].size() / 2); drop(0, 0); } }
    if (when) { for (auto& v : cbs) for (auto& c : v) SIM_CHECK(gh::at(RAN + c.first) == 0, "early-callback", "callback %d ran although no stop was requested", c.first); if (when == 1) src->request_stop(); }
    bool req = when < 2; SIM_CHECK(tok.stop_requested() == req, "wrong-stop", "stop_requested() is %d", tok.stop_requested());
    if (req) for (auto& v : cbs) for (auto& c : v) SIM_CHECK(gh::at(RAN + c.first) == 1, "lost-callback", "callback %d was registered and alive through the request but ran %ld times", c.first, gh::at(RAN + c.first));
    if (sim::pick(2)) { src.reset(); SIM_CHECK(tok.stop_possible() == req, "wrong-possible", "stop_possible() is %d with no source left", tok.stop_possible()); tok = stop_token(); }
    for (auto& v : cbs) v.clear();
}
SCENARIO(C17, crowd) { crowd(); }
SCENARIO(C18, crowd) { crowd(); }
// callbacks that act on the stop state themselves
SCENARIO_W(C17, reentrant, 2) {
    gh::clear(); World w; std::unique_ptr<Cb> c[8]; int kind = sim::pick(6), before = sim::pick(2); std::unique_ptr<Cb> inner;
    auto other = [&](int i) { c[i] = std::make_unique<Cb>(w, i); };
    if (before) other(1);
    c[0] = std::make_unique<Cb>(w, 0, [&] {
        switch (kind) {
        case 0: c[0].reset(); break;                                     // destroys itself
        case 1: c[1].reset(); break;                                     // destroys another one, already run or not
        case 2: inner = std::make_unique<Cb>(w, 5); inner->must_have_run(); break;   // registers another one
        case 3: w.src.request_stop(); break;                             // asks again
        case 4: c[0].reset(); c[1].reset(); c[2].reset(); break;
        case 5: inner = std::make_unique<Cb>(w, 5, [&] { c[1].reset(); }); break;
        }
    });
    if (!before) other(1);
    other(2);
    {
        Threads T; int extra = sim::pick(3);
        if (extra == 1) T.go([&] { Cb x(w, 7); });
        if (extra == 2) { w.one_requester = false; T.go([&, s = w.src]() { w.request(s); }); }
        w.request(w.src);
    }
    for (auto& x : c) if (x) x->must_have_run();
    for (auto& x : c) x.reset(); inner.reset(); no_live("at the end");
}
// a callback waits for a thread that destroys another callback of the same request
SCENARIO(C17, callback_waits) {
    gh::clear(); World w; int n = 2 + sim::pick(2), waiter = sim::pick(n);
    std::mutex m; std::condition_variable cv; int go = 0, gone = 0; std::unique_ptr<Cb> c[4];
    auto wait = [&](int& x) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return x > 0; }); };
    auto hit = [&](int& x) { std::lock_guard<std::mutex> l(m); ++x; cv.notify_all(); };
    for (int i = 0; i < n; ++i) c[i] = std::make_unique<Cb>(w, i, i == waiter ? std::function<void()>([&] { hit(go); wait(gone); }) : std::function<void()>());
    {
        Threads T;
        // none of these is running any more, or ever will be: destroying them has nothing to wait for
        T.go([&] { wait(go); for (int i = 0; i < n; ++i) if (i != waiter) c[i].reset(); hit(gone); });
        T.go([&, s = w.src] { w.request(s); });
    }
    c[waiter]->must_have_run(); c[waiter].reset(); no_live("at the end");
}
// slots freed and reused while a request goes through them
SCENARIO(C17, churn) {
    gh::clear(); sim::set_hwc(1 + sim::pick(2)); World w; int id = 0; bool req = sim::pick(4) != 3;
    auto a = std::make_unique<Cb>(w, id++);
    {
        Threads T; int nt = 1 + sim::pick(2);
        for (int q = 0; q < nt; ++q) { int n = 2 + sim::pick(5); T.go([&, n, base = id] { for (int i = 0; i < n; ++i) { Cb x(w, base + i); if (i & 1) sim::point(); } }); id += n; }
        if (req) T.go([&, s = w.src] { w.request(s); });
    }
    if (!req) { SIM_CHECK(gh::at(RUNS + 0) == 0, "early-callback", "a callback ran without a request"); if (sim::pick(2)) w.request(w.src); else { a.reset(); w.request(w.src); for (int i = 0; i < id; ++i) SIM_CHECK(gh::at(RUNS + i) == 0, "late-callback", "callback %d ran after it was destroyed", i); no_live("at the end"); return; } }
    a->must_have_run(); a.reset(); no_live("at the end");
}

// ---------------------------------------------------------------- C18
// Random histories of handle operations on two stop states, checked against counts kept beside them.
// The harness's counts are only compared where the operations are ordered by real synchronisation.
struct Handles { stop_source s[2]; int ss[2]; stop_token t[2]; int ts[2]; };   // ss/ts: state index, -1 empty
struct Shared { std::atomic<int> told[2]; Shared() : told{ 0, 0 } {} };
static void check_handles(Handles& h, Shared& sh) {
    for (int i = 0; i < 2; ++i) {
        bool told = h.ts[i] >= 0 && sh.told[h.ts[i]].load(std::memory_order_acquire);
        bool r = h.t[i].stop_requested();
        if (told) SIM_CHECK(r, "not-requested", "a token does not report a stop request that was made before");
        if (h.ts[i] < 0) SIM_CHECK(!r && !h.t[i].stop_possible(), "empty-token", "an empty token reports a stop");
        else {
            if (r) SIM_CHECK(gh::at(REQB + h.ts[i]), "early-stop", "a token reports a stop request that was never made");
            long srcs = 0; bool p = h.t[i].stop_possible(); srcs = gh::at(SRCS + h.ts[i]);
            if (srcs > 0 || told) SIM_CHECK(p, "not-possible", "stop_possible() is false although %s", told ? "stop was requested" : "a source exists");
        }
#ifndef MACORO_HAS_STD_STOP_TOKEN
        bool threw = false; try { h.t[i].throw_if_stop_requested(); } catch (operation_cancelled& e) { threw = true; SIM_CHECK(e.what() && *e.what(), "wrong-exception", "operation_cancelled has no text"); }
        if (told || r) SIM_CHECK(threw, "not-cancelled", "throw_if_stop_requested() did not throw although stop was requested");
        if (threw) SIM_CHECK(h.ts[i] >= 0 && gh::at(REQB + h.ts[i]), "early-stop", "throw_if_stop_requested() threw without a request");
#endif
        if (h.ss[i] < 0) SIM_CHECK(!h.s[i].stop_possible() && !h.s[i].stop_requested(), "empty-source", "a moved-from source reports a stop");
        else {
            SIM_CHECK(h.s[i].stop_possible(), "not-possible", "stop_possible() is false on a source");
            if (sh.told[h.ss[i]].load(std::memory_order_acquire)) SIM_CHECK(h.s[i].stop_requested(), "not-requested", "a source does not report a stop request that was made before");
        }
    }
}
// SRCS counts are lowered before a source is given up and raised after it is obtained
static void drop_src(Handles& h, int i) { if (h.ss[i] >= 0) gh::at(SRCS + h.ss[i])--; h.ss[i] = -1; }
static void handle_ops(Handles& h, Shared& sh, const std::vector<std::pair<int, int>>& ops) {
    for (auto [op, x] : ops) {
        int i = x & 1, k = (x >> 1) & 1;
        switch (op) {
        case 0: h.t[i] = h.t[k]; h.ts[i] = h.ts[k]; break;
        case 1: { int v = h.ts[k]; h.t[i] = std::move(h.t[k]); if (i != k) { h.ts[k] = -1; } h.ts[i] = v; if (i == k) { bool e = !h.t[i].stop_possible() && !h.t[i].stop_requested(); (void)e; } break; }
        case 2: if (x & 1) h.t[i].swap(h.t[k]); else { using std::swap; swap(h.t[i], h.t[k]); } std::swap(h.ts[i], h.ts[k]); break;
        case 3: { stop_token c(h.t[i]); stop_token d(std::move(c)); h.t[k] = d; h.ts[k] = h.ts[i]; break; }
        case 4: if (h.ss[i] >= 0) { h.t[k] = h.s[i].get_token(); h.ts[k] = h.ss[i]; } break;
        case 5: { int v = h.ss[k]; if (i != k) drop_src(h, i); h.s[i] = h.s[k]; if (i != k && v >= 0) { gh::at(SRCS + v)++; h.ss[i] = v; } break; }
        case 6: if (i != k) { int v = h.ss[k]; drop_src(h, i); h.s[i] = std::move(h.s[k]); h.ss[i] = v; h.ss[k] = -1; } break;
        case 7: { stop_source c(h.s[i]); stop_source d(std::move(c)); int v = h.ss[i]; drop_src(h, k); if (k == i) { h.s[k] = d; if (v >= 0) { gh::at(SRCS + v)++; h.ss[k] = v; } } else { h.s[k] = d; if (v >= 0) { gh::at(SRCS + v)++; h.ss[k] = v; } } break; }
        case 8: if (h.ss[i] >= 0) { gh::at(REQB + h.ss[i]) = 1; h.s[i].request_stop(); sh.told[h.ss[i]].store(1, std::memory_order_release); } break;
        case 9: drop_src(h, i); { stop_source g(std::move(h.s[i])); } break;
        case 10: h.t[i] = stop_token(); h.ts[i] = -1; break;
        case 11: { long runs = 0; { stop_callback cb(h.t[i], [&] { runs++; }); if (h.ts[i] < 0) SIM_CHECK(!runs, "early-callback", "a callback on an empty token ran"); sim::point(); }
                   if (runs) SIM_CHECK(runs == 1 && gh::at(REQB + h.ts[i]), "early-callback", "a callback ran %ld times, stop was %srequested", runs, gh::at(REQB + h.ts[i]) ? "" : "never "); break; }
        }
        check_handles(h, sh);
    }
}
static std::vector<std::pair<int, int>> gen_ops(int n, bool cbs) { std::vector<std::pair<int, int>> r; int n0 = 1 + sim::pick(n); for (int i = 0; i < n0; ++i) { int o = sim::pick(cbs ? 12 : 11); r.push_back({ o, (int)sim::pick(4) }); } return r; }
static void handles(int nt, int nops, bool cbs) {
    gh::clear(); Shared sh;
    {
        stop_source st[2]; gh::at(SRCS) = gh::at(SRCS + 1) = 1;
        std::vector<Handles> hs; hs.reserve(nt);
        for (int t = 0; t < nt; ++t) {
            int a = sim::pick(2), b = sim::pick(2), c = sim::pick(2);
            hs.push_back(Handles{ { st[a], st[b] }, { a, b }, { st[c].get_token(), stop_token() }, { c, -1 } }); gh::at(SRCS + a)++; gh::at(SRCS + b)++;
        }
        std::vector<std::vector<std::pair<int, int>>> ops; for (int t = 0; t < nt; ++t) ops.push_back(gen_ops(nops, cbs));
        int drop = sim::pick(3); bool in_thread = sim::pick(2);
        {
            Threads T; for (int t = 0; t < nt; ++t) T.go([&, t] { if (in_thread) { Handles h(std::move(hs[t])); handle_ops(h, sh, ops[t]); for (int i = 0; i < 2; ++i) drop_src(h, i); hs[t].ss[0] = hs[t].ss[1] = hs[t].ts[0] = hs[t].ts[1] = -1; } else handle_ops(hs[t], sh, ops[t]); });
            if (drop) { gh::at(SRCS)--; stop_source g(std::move(st[0])); } if (drop == 2) { gh::at(SRCS + 1)--; stop_source g(std::move(st[1])); }
        }
        // everything is quiescent and ordered now: both directions hold
        for (auto& h : hs) { check_handles(h, sh); for (int i = 0; i < 2; ++i) if (h.ts[i] >= 0) {
            SIM_CHECK(h.t[i].stop_requested() == (gh::at(REQB + h.ts[i]) != 0), "wrong-stop", "stop_requested() is %d at the end, requests: %ld", h.t[i].stop_requested(), gh::at(REQB + h.ts[i]));
            SIM_CHECK(h.t[i].stop_possible() == (gh::at(REQB + h.ts[i]) != 0 || gh::at(SRCS + h.ts[i]) > 0), "wrong-possible", "stop_possible() is %d at the end with %ld sources, requests: %ld", h.t[i].stop_possible(), gh::at(SRCS + h.ts[i]), gh::at(REQB + h.ts[i])); } }
        // sources go first, then the tokens change their answer
        for (auto& h : hs) for (int i = 0; i < 2; ++i) { drop_src(h, i); stop_source g(std::move(h.s[i])); }
        for (int i = 0; i < 2; ++i) { if (gh::at(SRCS + i) > 0) gh::at(SRCS + i)--; stop_source g(std::move(st[i])); }
        for (auto& h : hs) { check_handles(h, sh); for (int i = 0; i < 2; ++i) if (h.ts[i] >= 0) { SIM_CHECK(gh::at(SRCS + h.ts[i]) == 0, "harness", "sources miscounted: %ld", gh::at(SRCS + h.ts[i]));
            SIM_CHECK(h.t[i].stop_possible() == (gh::at(REQB + h.ts[i]) != 0), "wrong-possible", "stop_possible() is %d with no source left, requests: %ld", h.t[i].stop_possible(), gh::at(REQB + h.ts[i])); } }
    }
}
SCENARIO(C18, one_thread) { handles(1, 12, true); }
SCENARIO_W(C18, two_threads, 2) { handles(2, 6, true); }
SCENARIO(C18, three_threads) { handles(3, 4, true); }
// the last references of different kinds go away at once
SCENARIO_W(C18, last_reference, 2) {
    gh::clear(); int n = 2 + sim::pick(3); bool req = sim::pick(2);
    Threads T; auto s = std::make_unique<stop_source>(); std::atomic<int> ran(0); int cbs = 0;
    for (int i = 0; i < n; ++i) {
        int kind = sim::pick(4);
        switch (kind) {
        case 0: T.go([t = s->get_token()]() mutable { stop_token u(std::move(t)); (void)u.stop_possible(); }); break;
        case 1: T.go([q = std::make_shared<stop_source>(*s), req]() mutable { if (req) q->request_stop(); q.reset(); }); break;
        case 2: { ++cbs; auto c = std::make_shared<stop_callback>(s->get_token(), [&ran] { ran++; }); T.go([c]() mutable { c.reset(); }); break; }
        case 3: T.go([t = s->get_token()]() mutable { stop_token a = t, b; b = a; a = stop_token(); b.swap(a); }); break;
        }
    }
    if (sim::pick(2)) { stop_token t = s->get_token(); s.reset(); (void)t.stop_requested(); } else s.reset();
    T.join(); SIM_CHECK(ran <= cbs, "ran-twice", "%d callbacks ran %d times", cbs, (int)ran);
}
// allocation failures: nothing leaks, and what exists keeps working
SCENARIO_W(C18, no_memory, 2) {
    gh::clear(); sim::set_hwc(1 + sim::pick(2)); int n = 1 + sim::pick(20), nt = 1 + sim::pick(2);
    std::optional<stop_source> src; for (int i = 0; i < 4 && !src; ++i) { sim::alloc_faults(true); try { src.emplace(); } catch (std::bad_alloc&) { sim::probe("a source could not be allocated"); } sim::alloc_faults(false); }
    if (!src) return;
    std::atomic<long> want(0); std::atomic<long> got(0); std::vector<std::unique_ptr<stop_callback>> cbs[2]; for (auto& v : cbs) v.reserve(64);
    auto reg = [&](int q, int n) { for (int i = 0; i < n; ++i) { auto mem = operator new(sizeof(stop_callback)); sim::alloc_faults(true);
        try { auto c = ::new (mem) stop_callback(src->get_token(), [&] { got++; }); sim::alloc_faults(false); cbs[q].push_back(std::unique_ptr<stop_callback>(c)); want++; }
        catch (std::bad_alloc&) { sim::alloc_faults(false); operator delete(mem); sim::probe("a callback could not be registered for lack of memory"); } } };
    { Threads T; for (int q = 1; q < nt; ++q) T.go([&] { reg(1, 1 + n / 3); }); reg(0, n); }
    if (sim::pick(2) && cbs[0].size() > 1) { cbs[0].erase(cbs[0].begin()); want--; }
    bool late = sim::pick(2); if (late) { stop_token t = src->get_token(); SIM_CHECK(t.stop_possible() && !t.stop_requested(), "wrong-possible", "after a failed allocation"); }
    src->request_stop();
    SIM_CHECK(got == want, "lost-callback", "%ld callbacks were registered and %ld ran", (long)want, (long)got);
}

// ---------------------------------------------------------------- C19
static eager_task<void> token_waiter(stop_token t, int id, Exec* e, long* payload, int before, int after) {
    Live l; Val v(id);
    if (before) { co_await e->hop(); }
    co_await std::move(t);
    SIM_CHECK(++gh::at(RUNS + id) == 1, "ran-twice", "waiter %d resumed %ld times", id, gh::at(RUNS + id));
    SIM_CHECK(gh::at(REQ_BEGUN), "early-resume", "waiter %d resumed although no stop was requested", id);
    if (payload) SIM_CHECK(*payload == 7, "stale-data", "waiter %d does not see what was written before the request", id);
    SIM_CHECK(v.id() == id, "corrupt-local", "waiter %d", id);
    if (after) co_await e->hop();
    gh::at(DTORED + id)++;
}
#ifdef MACORO_HAS_STD_STOP_TOKEN    // MC_AWAIT does not find the await operator of a std::stop_token
static eager_task<void> macro_waiter(stop_token t, int id, long* payload) { return token_waiter(std::move(t), id, nullptr, payload, 0, 0); }
#else
static eager_task<void> macro_waiter(stop_token t, int id, long* payload) {
    MC_BEGIN(eager_task<void>, t, id, payload, l = Live{}, v = Val(id));
    MC_AWAIT(t);
    SIM_CHECK(++gh::at(RUNS + id) == 1, "ran-twice", "waiter %d resumed %ld times", id, gh::at(RUNS + id));
    SIM_CHECK(gh::at(REQ_BEGUN), "early-resume", "waiter %d resumed although no stop was requested", id);
    if (payload) SIM_CHECK(*payload == 7, "stale-data", "waiter %d does not see what was written before the request", id);
    SIM_CHECK(v.id() == id, "corrupt-local", "waiter %d", id);
    gh::at(DTORED + id)++;
    MC_END();
}
#endif
static eager_task<void> any_waiter(int kind, stop_token t, int id, Exec* e, long* payload, int before, int after) { return kind ? macro_waiter(std::move(t), id, payload) : token_waiter(std::move(t), id, e, payload, before, after); }
static void await_token(int nw, int nreq, bool detach) {
    gh::clear(); long payload = 0; int hopper = sim::pick(2);
    {
        Exec e(1); auto src = std::make_unique<stop_source>(); std::vector<std::unique_ptr<eager_task<void>>> ts(nw); std::vector<int> kind, b, a; for (int i = 0; i < nw; ++i) { kind.push_back(sim::pick(3) == 2); b.push_back(hopper && sim::pick(2)); a.push_back(hopper && sim::pick(2)); }
        std::mutex m; std::condition_variable cv; int passed = 0; bool gate = sim::pick(2), away = sim::pick(2);
        {
            Threads T;
            for (int q = 0; q < nreq; ++q) T.go([&, j = (int)sim::pick(5), s = *src]() mutable { jitter(j); if (nreq == 1) payload = 7; gh::at(REQ_BEGUN) = 1; s.request_stop(); });
            for (int i = 0; i < nw; ++i) {
                auto mk = [&, i, s = *src] { ts[i] = std::make_unique<eager_task<void>>(any_waiter(kind[i], s.get_token(), i, &e, nreq == 1 ? &payload : nullptr, b[i], a[i])); if (!detach) { sync_wait(*ts[i]); SIM_CHECK(gh::at(DTORED + i) == 1, "early-resume", "waiter %d", i); } };
                if (away || !detach) T.go(std::move(mk)); else mk();
            }
            if (sim::pick(2)) src.reset();
            (void)gate; (void)passed;
        }
        e.close();
        for (int i = 0; i < nw; ++i) SIM_CHECK(gh::at(RUNS + i) == 1 && gh::at(DTORED + i) == 1, "lost-resume", "waiter %d resumed %ld times", i, gh::at(RUNS + i));
    }
    no_live("at the end");
}
SCENARIO_W(C19, one_waiter, 3) { await_token(1, 1, sim::pick(2)); }
SCENARIO_W(C19, three_waiters, 2) { await_token(2 + sim::pick(2), 1, sim::pick(2)); }
SCENARIO(C19, two_requesters) { await_token(1 + sim::pick(2), 2, sim::pick(2)); }
// a token nobody can ever stop does not hold the coroutine up
SCENARIO(C19, cannot_stop) {
    gh::clear(); gh::at(REQ_BEGUN) = 1; int kind = sim::pick(2), w = sim::pick(3); Exec e(1); stop_token t;
    { stop_source s; if (w) t = s.get_token(); if (w == 2) s.request_stop(); }
    { auto x = any_waiter(kind, t, 0, &e, nullptr, 0, 0); sync_wait(x); }
    e.close(); SIM_CHECK(gh::at(RUNS) == 1, "lost-resume", "the waiter did not run"); no_live("at the end");
}
// resumed coroutines that destroy what they were waiting on, and wait again
static eager_task<void> phases(std::vector<std::unique_ptr<stop_source>>& ss, int n) {
    Live l;
    for (int i = 0; i < n; ++i) { stop_token t = ss[i]->get_token(); co_await t; SIM_CHECK(gh::at(CTOR + i), "early-resume", "phase %d", i); gh::at(RUNS)++; }
}
SCENARIO(C19, phases) {
    gh::clear(); int n = 2 + sim::pick(3); std::vector<std::unique_ptr<stop_source>> ss; for (int i = 0; i < n; ++i) ss.push_back(std::make_unique<stop_source>());
    {
        auto t = std::make_unique<eager_task<void>>(phases(ss, n)); bool rev = sim::pick(2), two = sim::pick(2);
        auto run = [&](int par) { for (int k = 0; k < n; ++k) { int i = rev ? n - 1 - k : k; if (two && (i & 1) != par) continue; gh::at(CTOR + i) = 1; ss[i]->request_stop(); } };
        Threads T; if (two) T.go([&] { run(1); }); T.go([&] { run(0); });
        sync_wait(*t); T.join();
    }
    SIM_CHECK(gh::at(RUNS) == n, "lost-resume", "%ld of %d phases", gh::at(RUNS), n); no_live("at the end");
}
// running out of memory while registering
SCENARIO(C19, no_memory) {
    gh::clear(); stop_source s; bool failed = false;
    auto f = [](stop_token t, bool& failed) -> eager_task<void> { Live l; try { sim::alloc_faults(true); co_await t; SIM_CHECK(gh::at(REQ_BEGUN), "early-resume", "resumed without a request"); } catch (std::bad_alloc&) { failed = true; } sim::alloc_faults(false); gh::at(RUNS)++; };
    {
        auto t = f(s.get_token(), failed); sim::alloc_faults(false);
        Threads T; T.go([&, q = s]() mutable { gh::at(REQ_BEGUN) = 1; q.request_stop(); });
        sync_wait(t);
    }
    if (failed) sim::probe("awaiting a token failed for lack of memory");
    SIM_CHECK(gh::at(RUNS) == 1, "ran-twice", "%ld", gh::at(RUNS)); no_live("at the end");
}
