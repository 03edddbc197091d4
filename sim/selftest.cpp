// Tests of the simulator itself: scenarios under OK must stay quiet, those under BAD must be reported (class = name up to the last _).
#include "simstd.h"
SCENARIO(OK, waitflag) {
    std::atomic<int> a{0}; int data = 0; std::atomic_flag fl = ATOMIC_FLAG_INIT; std::latch la(2); std::barrier ba(2); std::counting_semaphore<3> se(0);
    std::jthread j([&](std::stop_token st) { (void)st; data = 1; a.store(1, std::memory_order_release); a.notify_one(); la.count_down(); ba.arrive_and_wait(); data = 2; ba.arrive_and_wait(); data = 3; se.release(); });
    a.wait(0, std::memory_order_acquire); SIM_CHECK(data == 1, "bad", "data");
    la.arrive_and_wait(); ba.arrive_and_wait(); ba.arrive_and_wait(); se.acquire(); SIM_CHECK(data == 3, "bad", "y");
    while (fl.test_and_set(std::memory_order_acquire)) fl.wait(true); fl.clear(std::memory_order_release); fl.notify_one();
}
SCENARIO(BAD, race_wait) {
    std::atomic<int> a{0}; int data = 0;
    std::thread t([&] { data = 1; a.store(1, std::memory_order_relaxed); a.notify_one(); });
    a.wait(0, std::memory_order_acquire); SIM_CHECK(data == 1, "bad", "d"); t.join();
}
SCENARIO(BAD, deadlock_wait) {
    std::atomic<int> a{0};
    std::thread t([&] { a.store(1); });
    a.wait(0); t.join();
}
SCENARIO(OK, facilities) {
    std::promise<std::unique_ptr<int>> p; auto f = p.get_future(); std::thread t([&] { p.set_value(std::make_unique<int>(4)); });
    SIM_CHECK(*f.get() == 4, "bad", "v"); t.join();
    auto g = std::async([] { return 5; }); auto h = std::async(std::launch::async, []() -> int { throw 3; });
    SIM_CHECK(g.get() == 5, "bad", "w"); try { h.get(); SIM_CHECK(false, "bad", "z"); } catch (int i) {}
    std::packaged_task<int(int)> pt([](int i) { return i + 1; }); auto q = pt.get_future(); std::thread u(std::move(pt), 6); SIM_CHECK(q.get() == 7, "bad", "pt"); u.join();
    std::once_flag o; int n = 0; std::thread v([&] { std::call_once(o, [&] { n++; }); }); std::call_once(o, [&] { n++; }); v.join(); SIM_CHECK(n == 1, "bad", "once");
    std::timed_mutex tm; std::thread w([&] { std::lock_guard l(tm); std::this_thread::sleep_for(std::chrono::seconds(2)); });
    if (tm.try_lock_for(std::chrono::seconds(1))) tm.unlock(); w.join();
    std::shared_mutex sm; { std::shared_lock l(sm); std::shared_lock l2(sm); } std::mutex m1, m2; int c = 0;
    std::thread x([&] { std::scoped_lock l(m1, m2); c++; }); { std::scoped_lock l(m2, m1); c++; } x.join(); SIM_CHECK(c == 2, "bad", "c");
    std::condition_variable_any ca; bool rdy = false; std::thread y([&] { { std::lock_guard l(m1); rdy = true; } ca.notify_all(); }); { std::unique_lock l(m1); ca.wait(l, [&] { return rdy; }); } y.join();
    int ar = 0; std::thread z([&] { std::atomic_ref<int>(ar).fetch_add(1); std::atomic_ref<int>(ar).notify_all(); }); std::atomic_ref<int>(ar).wait(0); z.join();
    std::atomic<std::shared_ptr<int>> asp; (void)asp; std::atomic_bool ab; ab = true; ab = !ab; bool bb = ab; (void)bb; std::atomic<int*> ap = nullptr; ap = &ar; ap++; std::atomic<double> ad(1.0); ad += 2; std::atomic<int> ai = 3; ai |= 4; ++ai; int q2 = ai--; (void)q2; std::atomic_init(&ai, 4); std::atomic_store(&ai, 4); std::atomic_fetch_add(&ai, 1); struct S { int a, b; }; std::atomic<S> as(S{1,2}); as.load(); static_assert(std::atomic<int>::is_always_lock_free); constinit static std::atomic<int> ci{1}; ci = 2;
    std::atomic<int> arr[3]{}; (void)arr; auto* pp = new std::atomic<long>[4]; delete[] pp; std::atomic at{5L}; volatile std::atomic<int> va{1}; va = 3; 
}

// bytes and words next to each other are independent
SCENARIO(OK, neighbours) {
    struct { char c[4]; int a; short s, t; std::atomic<bool> f{false}; char z = 0; } x{}; auto* p = new decltype(x); std::atomic<int>& g = *new std::atomic<int>(0);
    p->a = 1; p->c[0] = 1; 
    std::thread t([&] { while (!g.load(std::memory_order_acquire)) std::this_thread::yield(); p->a = 2; p->c[0]++; p->t = 3; });
    g.store(1, std::memory_order_release); p->c[1] = 4; p->s = 3; p->f.store(true); p->z = 1; int k = p->c[2]; SIM_CHECK(k == 0 || k != 0, "x", "y"); p->c[3] = 1; t.join(); SIM_CHECK(p->a == 2 && p->c[0] == 2 && p->c[1] == 4 && p->t == 3, "bad", "v"); delete p; delete &g;
}
SCENARIO(OK, neighbour_reads) {
    struct P { int a = 1, b = 2; }; P* p = new P; std::atomic<int> g{0};
    std::thread t([&] { while (!g.load(std::memory_order_acquire)) std::this_thread::yield(); p->a = 5; });
    int v = p->a; g.store(1, std::memory_order_release); v += p->b; SIM_CHECK(v == 3, "bad", "v"); t.join(); delete p;
}
SCENARIO(OK, message_passing) { int d = 0; std::atomic<int> f{0}; std::thread t([&] { d = 1; f.store(1, std::memory_order_release); }); if (f.load(std::memory_order_acquire)) SIM_CHECK(d == 1, "bad", "d"); t.join(); }
SCENARIO(OK, release_sequence) { int d = 0; std::atomic<int> f{0}; std::thread t([&] { d = 1; f.store(1, std::memory_order_release); }), u([&] { f.fetch_add(10, std::memory_order_relaxed); }); if (f.load(std::memory_order_acquire) & 1) SIM_CHECK(d == 1, "bad", "d"); t.join(); u.join(); }
SCENARIO(OK, fences) { int d = 0; std::atomic<int> f{0}; std::thread t([&] { d = 1; std::atomic_thread_fence(std::memory_order_release); f.store(1, std::memory_order_relaxed); }); if (f.load(std::memory_order_relaxed)) { std::atomic_thread_fence(std::memory_order_acquire); SIM_CHECK(d == 1, "bad", "d"); } t.join(); }
SCENARIO(BAD, race_mp_relaxed) { int d = 0; std::atomic<int> f{0}; std::thread t([&] { d = 1; f.store(1, std::memory_order_relaxed); }); if (f.load(std::memory_order_acquire)) SIM_CHECK(d == 1, "bad", "d"); t.join(); }
SCENARIO(BAD, race_mp_noacq) { int d = 0; std::atomic<int> f{0}; std::thread t([&] { d = 1; f.store(1, std::memory_order_release); }); if (f.load(std::memory_order_relaxed)) SIM_CHECK(d == 1, "bad", "d"); t.join(); }
SCENARIO(BAD, race_write_write) { int* d = new int(0); std::thread t([&] { *d = 1; }); *d = 2; t.join(); delete d; }
SCENARIO(BAD, race_free) { int* d = new int(0); std::atomic<int> f{0}; std::thread t([&] { *(volatile int*)d; f.store(1, std::memory_order_relaxed); }); while (!f.load(std::memory_order_relaxed)) std::this_thread::yield(); delete d; t.join(); }
static void sb(std::memory_order s, std::memory_order l) { std::atomic<int> x{0}, y{0}; int a = 1, b = 1; std::thread t([&] { x.store(1, s); a = y.load(l); }), u([&] { y.store(1, s); b = x.load(l); }); t.join(); u.join(); SIM_CHECK(a || b, "store-buffer", "both loads missed the other thread's store"); }
SCENARIO(OK, sb_seq_cst) { sb(std::memory_order_seq_cst, std::memory_order_seq_cst); }
SCENARIO(BAD, sbx_store) { sb(std::memory_order_release, std::memory_order_acquire); }
static void lb() { std::atomic<int> x{0}, y{0}; int a = 0, b = 0; std::thread t([&] { a = x.load(std::memory_order_relaxed); y.store(1, std::memory_order_relaxed); }), u([&] { b = y.load(std::memory_order_relaxed); x.store(1, std::memory_order_relaxed); }); t.join(); u.join(); SIM_CHECK(!(a && b), "bad", "load buffering is not modelled"); }
SCENARIO(OK, lb_not_modelled) { lb(); }
SCENARIO(OK, coherence) { std::atomic<int> x{0}; std::thread t([&] { x.store(1, std::memory_order_relaxed); x.store(2, std::memory_order_relaxed); }); int a = x.load(std::memory_order_relaxed), b = x.load(std::memory_order_relaxed); SIM_CHECK(b >= a, "bad", "went backwards"); t.join(); SIM_CHECK(x.load(std::memory_order_relaxed) == 2, "bad", "stale after join"); }
SCENARIO(OK, rmw_atomic) { std::atomic<int> x{0}; std::thread t([&] { x.fetch_add(1, std::memory_order_relaxed); }); x.fetch_add(1, std::memory_order_relaxed); t.join(); SIM_CHECK(x == 2, "bad", "lost update"); }
SCENARIO(BAD, lost_update) { std::atomic<int> x{0}; std::thread t([&] { x.store(x.load() + 1); }); x.store(x.load() + 1); t.join(); SIM_CHECK(x == 2, "lost", "lost update"); }
SCENARIO(BAD, use_after_free) { int* d = new int(1); delete d; *(volatile int*)d = 2; }
SCENARIO(BAD, double_free) { void* volatile d = ::operator new(3); ::operator delete(d); ::operator delete(d); }
SCENARIO(BAD, out_of_bounds) { volatile char* d = new char[3]; d[3] = 1; delete[] d; }
SCENARIO(BAD, leak_block) { void* volatile d = ::operator new(3); (void)d; }
SCENARIO(BAD, deadlock_abba) { std::mutex a, b; std::thread t([&] { std::lock_guard x(a); std::lock_guard y(b); }); { std::lock_guard y(b); std::lock_guard x(a); } t.join(); }
SCENARIO(BAD, deadlock_lost_notify) { std::mutex m; std::condition_variable c; bool r = false; std::thread t([&] { std::unique_lock l(m); if (!r) { l.unlock(); l.lock(); c.wait(l); } }); { std::lock_guard l(m); r = true; } c.notify_all(); t.join(); }
SCENARIO(BAD, spurious_wake) { std::mutex m; std::condition_variable c; bool r = false; std::thread t([&] { std::unique_lock l(m); if (!r) c.wait(l); SIM_CHECK(r, "spurious", "woke early"); }); std::this_thread::yield(); { std::lock_guard l(m); r = true; c.notify_all(); } t.join(); }
SCENARIO(BAD, bad_destroy_mutex) { auto* m = new std::mutex; std::atomic<int> f{0}; std::thread t([&] { m->lock(); f = 1; m->unlock(); }); while (!f) std::this_thread::yield(); delete m; t.join(); }
SCENARIO(OK, timers) { auto a = std::chrono::steady_clock::now(); std::thread t([&] { std::this_thread::sleep_for(std::chrono::hours(5)); }); t.join(); SIM_CHECK(std::chrono::steady_clock::now() - a >= std::chrono::hours(5), "bad", "time"); }
SCENARIO(BAD, uncaught) { std::thread t([] { throw 1; }); t.join(); }
SCENARIO(BAD, alloc_faults) { sim::alloc_faults(true); for (int i = 0; i < 30; ++i) { void* volatile p = ::operator new(3); ::operator delete(p); } }
