// The seam: every source of nondeterminism the library reaches through namespace std goes to the
// simulator.  Include this first; afterwards the token `std` names `simstd`, which is namespace std
// with threads, locks, condition variables, clocks, sleeping, malloc and stop tokens replaced.
#pragma once
#include <bits/stdc++.h>
#include <coroutine>
#include <cassert>
#include <cstdlib>
#include <source_location>
#include <stop_token>
#include <semaphore>
#include <latch>
#include <barrier>
#include <future>
#include <shared_mutex>
#include "rt.h"

namespace simstd {
using namespace ::std;

class mutex {
public:
    constexpr mutex() noexcept : st_(0) {}
    ~mutex() { ::sim::mtx_destroy(this); }
    mutex(const mutex&) = delete; mutex& operator=(const mutex&) = delete;
    void lock() { ::sim::mtx_lock(this); }
    bool try_lock() { return ::sim::mtx_trylock(this); }
    void unlock() { ::sim::mtx_unlock(this); }
private: long st_;
};
class timed_mutex {
public:
    constexpr timed_mutex() noexcept : st_(0) {}
    ~timed_mutex() { ::sim::mtx_destroy(this); }
    timed_mutex(const timed_mutex&) = delete;
    void lock() { ::sim::mtx_lock(this); }
    bool try_lock() { return ::sim::mtx_trylock(this); }
    template<class R, class P> bool try_lock_for(const ::std::chrono::duration<R, P>& d) { return ::sim::mtx_lock_until(this, ::sim::now_ns() + (::sim::u64)::std::max<long long>(0, ::std::chrono::duration_cast<::std::chrono::nanoseconds>(d).count())); }
    template<class C, class D> bool try_lock_until(const ::std::chrono::time_point<C, D>& t) { return ::sim::mtx_lock_until(this, (::sim::u64)::std::max<long long>(0, ::std::chrono::duration_cast<::std::chrono::nanoseconds>(t.time_since_epoch()).count())); }
    void unlock() { ::sim::mtx_unlock(this); }
private: long st_;
};
class shared_mutex {
public:
    constexpr shared_mutex() noexcept : st_(0) {}
    ~shared_mutex() { ::sim::mtx_destroy(this); }
    shared_mutex(const shared_mutex&) = delete;
    void lock() { ::sim::mtx_lock(this); }
    bool try_lock() { return ::sim::mtx_trylock(this); }
    void unlock() { ::sim::mtx_unlock(this); }
    void lock_shared() { ::sim::mtx_lock_shared(this); }
    bool try_lock_shared() { return ::sim::mtx_trylock_shared(this); }
    void unlock_shared() { ::sim::mtx_unlock_shared(this); }
private: long st_;
};
class recursive_mutex {
public:
    recursive_mutex() noexcept : st_(0) {}
    ~recursive_mutex() { ::sim::mtx_destroy(this); }
    recursive_mutex(const recursive_mutex&) = delete;
    void lock() { ::sim::rmtx_lock(this); }
    bool try_lock() { return ::sim::rmtx_trylock(this); }
    void unlock() { ::sim::rmtx_unlock(this); }
private: long st_;
};

namespace chrono {
using namespace ::std::chrono;
struct steady_clock {
    using duration = ::std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period;
    using time_point = ::std::chrono::time_point<steady_clock>;
    static constexpr bool is_steady = true;
    static time_point now() noexcept { return time_point(duration((rep)::sim::clock_read())); }
};
struct system_clock {
    using duration = ::std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period;
    using time_point = ::std::chrono::time_point<system_clock>;
    static constexpr bool is_steady = false;
    static time_point now() noexcept { return time_point(duration((rep)::sim::clock_read())); }
};
using high_resolution_clock = steady_clock;
}

template<class TP> inline ::sim::u64 sim_ns(const TP& t) {
    auto v = ::std::chrono::duration_cast<::std::chrono::nanoseconds>(t.time_since_epoch()).count();
    // round up so that a wait never ends early
    if (::std::chrono::nanoseconds(v) < t.time_since_epoch()) ++v;
    return v < 0 ? 0 : (::sim::u64)v;
}
template<class D> inline ::sim::u64 sim_dl(const D& d) {
    auto v = ::std::chrono::duration_cast<::std::chrono::nanoseconds>(d).count();
    return ::sim::now_ns() + (v < 0 ? 0 : (::sim::u64)v);
}

class condition_variable {
public:
    condition_variable() noexcept : st_(0) {}
    ~condition_variable() { ::sim::cv_destroy(this); }
    condition_variable(const condition_variable&) = delete;
    void notify_one() noexcept { ::sim::cv_notify(this, false); }
    void notify_all() noexcept { ::sim::cv_notify(this, true); }
    void wait(::std::unique_lock<mutex>& l) { ::sim::cv_wait(this, l.mutex(), ~0ull); }
    template<class P> void wait(::std::unique_lock<mutex>& l, P p) { while (!p()) wait(l); }
    template<class C, class D> cv_status wait_until(::std::unique_lock<mutex>& l, const ::std::chrono::time_point<C, D>& t) {
        bool ok = ::sim::cv_wait(this, l.mutex(), sim_ns(t));
        auto again = sim_ns(t); asm volatile("" :: "r"(again));   // the time point is a reference, and libstdc++ reads it after the wait too
        return ok ? cv_status::no_timeout : cv_status::timeout;
    }
    template<class C, class D, class P> bool wait_until(::std::unique_lock<mutex>& l, const ::std::chrono::time_point<C, D>& t, P p) {
        while (!p()) if (wait_until(l, t) == cv_status::timeout) return p();
        return true;
    }
    template<class R, class Pd> cv_status wait_for(::std::unique_lock<mutex>& l, const ::std::chrono::duration<R, Pd>& d) {
        bool ok = ::sim::cv_wait(this, l.mutex(), sim_dl(d));
        return ok ? cv_status::no_timeout : cv_status::timeout;
    }
    template<class R, class Pd, class P> bool wait_for(::std::unique_lock<mutex>& l, const ::std::chrono::duration<R, Pd>& d, P p) {
        return wait_until(l, chrono::steady_clock::time_point(::std::chrono::nanoseconds((long long)sim_dl(d))), p);
    }
private: long st_;
};
class condition_variable_any {
public:
    condition_variable_any() noexcept {}
    condition_variable_any(const condition_variable_any&) = delete;
    void notify_one() noexcept { { ::std::lock_guard<mutex> g(m_); } c_.notify_one(); }
    void notify_all() noexcept { { ::std::lock_guard<mutex> g(m_); } c_.notify_all(); }
    template<class L> void wait(L& l) {
        ::std::unique_lock<mutex> g(m_); l.unlock(); c_.wait(g); g.unlock(); l.lock();
    }
    template<class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
    template<class L, class C, class D> cv_status wait_until(L& l, const ::std::chrono::time_point<C, D>& t) {
        ::std::unique_lock<mutex> g(m_); l.unlock(); auto r = c_.wait_until(g, t); g.unlock(); l.lock(); return r;
    }
    template<class L, class C, class D, class P> bool wait_until(L& l, const ::std::chrono::time_point<C, D>& t, P p) {
        while (!p()) if (wait_until(l, t) == cv_status::timeout) return p();
        return true;
    }
    template<class L, class R, class Pd> cv_status wait_for(L& l, const ::std::chrono::duration<R, Pd>& d) {
        return wait_until(l, chrono::steady_clock::time_point(::std::chrono::nanoseconds((long long)sim_dl(d))));
    }
    template<class L, class R, class Pd, class P> bool wait_for(L& l, const ::std::chrono::duration<R, Pd>& d, P p) {
        return wait_until(l, chrono::steady_clock::time_point(::std::chrono::nanoseconds((long long)sim_dl(d))), p);
    }
private: mutex m_; condition_variable c_;
};
inline void notify_all_at_thread_exit(condition_variable& c, ::std::unique_lock<mutex> l) { l.unlock(); c.notify_all(); }
using shared_timed_mutex = shared_mutex; using recursive_timed_mutex = recursive_mutex;

class thread {
public:
    class id {
    public:
        constexpr id() noexcept : v(0) {}
        explicit constexpr id(unsigned long x) noexcept : v(x) {}
        friend bool operator==(id a, id b) noexcept { return a.v == b.v; }
        friend ::std::strong_ordering operator<=>(id a, id b) noexcept { return a.v <=> b.v; }
        template<class C, class T> friend ::std::basic_ostream<C, T>& operator<<(::std::basic_ostream<C, T>& o, id a) { return o << a.v; }
        unsigned long v;
    };
    using native_handle_type = unsigned long;
    thread() noexcept {}
    template<class F, class... A> requires (!::std::is_same_v<::std::remove_cvref_t<F>, thread>)
    explicit thread(F&& f, A&&... a) {
        using Tup = ::std::tuple<::std::decay_t<F>, ::std::decay_t<A>...>;
        struct S { Tup t; };
        S* s = new S{ Tup(::std::forward<F>(f), ::std::forward<A>(a)...) };
        id_ = id(1 + ::sim::thr_spawn(+[](void* p) {
            ::std::unique_ptr<S> s((S*)p);
            ::std::apply([](auto&&... x) { ::std::invoke(::std::move(x)...); }, ::std::move(s->t));
        }, s));
    }
    thread(const thread&) = delete;
    thread(thread&& o) noexcept : id_(o.id_) { o.id_ = id(); }
    thread& operator=(thread&& o) noexcept { if (joinable()) ::std::terminate(); id_ = o.id_; o.id_ = id(); return *this; }
    ~thread() { if (joinable()) ::std::terminate(); }
    bool joinable() const noexcept { return id_.v != 0; }
    void join() { ::sim::thr_join((::sim::u32)(id_.v - 1)); id_ = id(); }
    void detach() { id_ = id(); }
    id get_id() const noexcept { return id_; }
    void swap(thread& o) noexcept { ::std::swap(id_.v, o.id_.v); }
    static unsigned hardware_concurrency() noexcept { return ::sim::hwc(); }
private: id id_;
};
namespace this_thread {
inline thread::id get_id() noexcept { return thread::id(1 + (unsigned long)::sim::cur()); }
inline void yield() noexcept { ::sim::yield(); }
template<class R, class P> inline void sleep_for(const ::std::chrono::duration<R, P>& d) { ::sim::sleep_until(sim_dl(d)); }
template<class C, class D> inline void sleep_until(const ::std::chrono::time_point<C, D>& t) { ::sim::sleep_until(sim_ns(t)); }
}

template<ptrdiff_t Max = 0x7fffffff> class counting_semaphore {
public:
    static constexpr ptrdiff_t max() noexcept { return Max; }
    explicit counting_semaphore(ptrdiff_t n) : n_(n) {}
    counting_semaphore(const counting_semaphore&) = delete;
    void acquire() { ::std::unique_lock<mutex> l(m_); while (n_ <= 0) c_.wait(l); --n_; }
    bool try_acquire() noexcept { ::std::unique_lock<mutex> l(m_); if (n_ <= 0) return false; --n_; return true; }
    template<class R, class P> bool try_acquire_for(const ::std::chrono::duration<R, P>& d) { ::std::unique_lock<mutex> l(m_); if (!c_.wait_for(l, d, [&] { return n_ > 0; })) return false; --n_; return true; }
    template<class C, class D> bool try_acquire_until(const ::std::chrono::time_point<C, D>& t) { ::std::unique_lock<mutex> l(m_); if (!c_.wait_until(l, t, [&] { return n_ > 0; })) return false; --n_; return true; }
    void release(ptrdiff_t k = 1) { ::std::unique_lock<mutex> l(m_); n_ += k; c_.notify_all(); }   // notified under the lock: the semaphore may be destroyed by an acquirer
private: mutex m_; condition_variable c_; ptrdiff_t n_;
};
using binary_semaphore = counting_semaphore<1>;
class latch {
public:
    static constexpr ptrdiff_t max() noexcept { return 0x7fffffff; }
    explicit latch(ptrdiff_t n) : n_(n) {}
    latch(const latch&) = delete;
    void count_down(ptrdiff_t k = 1) { ::std::unique_lock<mutex> l(m_); if ((n_ -= k) == 0) c_.notify_all(); }
    bool try_wait() const noexcept { ::std::unique_lock<mutex> l(m_); return n_ == 0; }
    void wait() const { ::std::unique_lock<mutex> l(m_); while (n_ > 0) c_.wait(l); }
    void arrive_and_wait(ptrdiff_t k = 1) { ::std::unique_lock<mutex> l(m_); if ((n_ -= k) == 0) c_.notify_all(); while (n_ > 0) c_.wait(l); }
private: mutable mutex m_; mutable condition_variable c_; ptrdiff_t n_;
};
struct sim_barrier_noop { void operator()() noexcept {} };
template<class F = sim_barrier_noop> class barrier {
public:
    using arrival_token = unsigned long;
    explicit barrier(ptrdiff_t n, F f = F()) : n_(n), left_(n), f_(::std::move(f)) {}
    barrier(const barrier&) = delete;
    arrival_token arrive(ptrdiff_t k = 1) { ::std::unique_lock<mutex> l(m_); auto t = ph_; dec(k); return t; }
    void wait(arrival_token&& t) const { ::std::unique_lock<mutex> l(m_); while (ph_ == t) c_.wait(l); }
    void arrive_and_wait() { ::std::unique_lock<mutex> l(m_); auto t = ph_; dec(1); while (ph_ == t) c_.wait(l); }
    void arrive_and_drop() { ::std::unique_lock<mutex> l(m_); --n_; dec(1); }
private:
    void dec(ptrdiff_t k) { if ((left_ -= k) == 0) { f_(); left_ = n_; ++ph_; c_.notify_all(); } }
    mutable mutex m_; mutable condition_variable c_; ptrdiff_t n_, left_; unsigned long ph_ = 0; F f_;
};

// C++20 waiting on atomics: everything else is the real std::atomic, whose operations the simulator sees
template<class A, class T> inline void sim_atomic_wait(const A* a, T old, ::std::memory_order mo) noexcept {
    if constexpr (sizeof(T) <= 8) {
        for (;;) { T v = a->load(mo); if (::std::memcmp(&v, &old, sizeof v)) return; ::sim::fut_wait((void*)a, &old, sizeof old); }
    } else for (;;) { T v = a->load(mo); if (::std::memcmp(&v, &old, sizeof v)) return; ::sim::yield(); }
}
template<class T> struct atomic : ::std::atomic<T> {
    using B = ::std::atomic<T>; using B::B; using B::operator=;
    atomic() = default; atomic(const atomic&) = delete; atomic& operator=(const atomic&) = delete;
    void wait(T old, ::std::memory_order mo = ::std::memory_order_seq_cst) const noexcept { sim_atomic_wait((const B*)this, old, mo); }
    void notify_one() noexcept { ::sim::fut_notify(this, false); }
    void notify_all() noexcept { ::sim::fut_notify(this, true); }
};
template<class T> atomic(T) -> atomic<T>;
template<class T> struct atomic_ref : ::std::atomic_ref<T> {
    using B = ::std::atomic_ref<T>; using B::B; using B::operator=;
    explicit atomic_ref(T& t) : B(t), p_(&t) {}
    atomic_ref(const atomic_ref& o) noexcept : B(o), p_(o.p_) {}
    void wait(T old, ::std::memory_order mo = ::std::memory_order_seq_cst) const noexcept { for (;;) { T v = this->load(mo); if (::std::memcmp(&v, &old, sizeof v)) return; ::sim::fut_wait(p_, &old, sizeof old); } }
    void notify_one() const noexcept { ::sim::fut_notify(p_, false); }
    void notify_all() const noexcept { ::sim::fut_notify(p_, true); }
private: T* p_;
};
struct atomic_flag {
    constexpr atomic_flag() noexcept {}
    atomic_flag(const atomic_flag&) = delete; atomic_flag& operator=(const atomic_flag&) = delete;
    constexpr atomic_flag(int) noexcept {}   // ATOMIC_FLAG_INIT
    bool test_and_set(::std::memory_order mo = ::std::memory_order_seq_cst) noexcept { return v.exchange(true, mo); }
    void clear(::std::memory_order mo = ::std::memory_order_seq_cst) noexcept { v.store(false, mo); }
    bool test(::std::memory_order mo = ::std::memory_order_seq_cst) const noexcept { return v.load(mo); }
    void wait(bool old, ::std::memory_order mo = ::std::memory_order_seq_cst) const noexcept { v.wait(old, mo); }
    void notify_one() noexcept { v.notify_one(); }
    void notify_all() noexcept { v.notify_all(); }
private: atomic<bool> v{ false };
};
using atomic_bool = atomic<bool>; using atomic_int = atomic<int>; using atomic_uint = atomic<unsigned>; using atomic_long = atomic<long>; using atomic_ulong = atomic<unsigned long>; using atomic_char = atomic<char>;
using atomic_llong = atomic<long long>; using atomic_ullong = atomic<unsigned long long>; using atomic_size_t = atomic<size_t>; using atomic_ptrdiff_t = atomic<ptrdiff_t>; using atomic_uintptr_t = atomic<uintptr_t>; using atomic_intptr_t = atomic<intptr_t>;
using atomic_uint8_t = atomic<uint8_t>; using atomic_uint16_t = atomic<uint16_t>; using atomic_uint32_t = atomic<uint32_t>; using atomic_uint64_t = atomic<uint64_t>; using atomic_int32_t = atomic<int32_t>; using atomic_int64_t = atomic<int64_t>;
template<class T> void atomic_wait(const atomic<T>* a, typename ::std::atomic<T>::value_type o) noexcept { a->wait(o); }
template<class T> void atomic_wait_explicit(const atomic<T>* a, typename ::std::atomic<T>::value_type o, ::std::memory_order m) noexcept { a->wait(o, m); }
template<class T> void atomic_notify_one(atomic<T>* a) noexcept { a->notify_one(); }
template<class T> void atomic_notify_all(atomic<T>* a) noexcept { a->notify_all(); }

inline void* malloc(size_t n) { return ::sim::malloc_(n); }
inline void* calloc(size_t a, size_t b) { void* p = ::sim::malloc_(a * b); if (p) ::std::memset(p, 0, a * b); return p; }
inline void free(void* p) { ::sim::free_(p); }

// std::stop_token family over simulated primitives (used by the MACORO_HAS_STD_STOP_TOKEN
// configuration; the standard's semantics, none of the library's code).
struct nostopstate_t { explicit nostopstate_t() = default; };
inline constexpr nostopstate_t nostopstate{};
struct sim_stop_state {
    struct cb { cb* next = nullptr; cb* prev = nullptr; bool linked = false; bool running = false; bool done = false; bool* destroyed = nullptr;
                thread::id runner; void (*fn)(cb*) = nullptr; void run() { fn(this); } };
    mutex m; condition_variable c; bool req = false; long sources = 0; cb* head = nullptr; thread::id runner;
    bool request() {
        ::std::unique_lock<mutex> l(m);
        if (req) return false;
        req = true; runner = this_thread::get_id();
        while (head) {
            cb* k = head; head = k->next; if (head) head->prev = nullptr; k->linked = false; k->running = true;
            bool destroyed = false; k->destroyed = &destroyed;
            l.unlock(); k->run(); l.lock();
            if (!destroyed) { k->running = false; k->destroyed = nullptr; k->done = true; c.notify_all(); }
        }
        return true;
    }
    bool add(cb* k) {
        ::std::unique_lock<mutex> l(m);
        if (req) { l.unlock(); k->run(); return false; }
        if (!sources) return false;
        k->next = head; k->prev = nullptr; if (head) head->prev = k; head = k; k->linked = true; return true;
    }
    void remove(cb* k) {
        ::std::unique_lock<mutex> l(m);
        if (k->linked) { (k->prev ? k->prev->next : head) = k->next; if (k->next) k->next->prev = k->prev; k->linked = false; return; }
        if (k->running) {
            if (runner == this_thread::get_id()) { *k->destroyed = true; return; }
            c.wait(l, [&] { return !k->running; });
        }
    }
};
class stop_token {
public:
    stop_token() noexcept = default;
    bool stop_requested() const noexcept { if (!s) return false; ::std::lock_guard<mutex> g(s->m); return s->req; }
    bool stop_possible() const noexcept { if (!s) return false; ::std::lock_guard<mutex> g(s->m); return s->req || s->sources > 0; }
    void swap(stop_token& o) noexcept { s.swap(o.s); }
    friend bool operator==(const stop_token& a, const stop_token& b) noexcept { return a.s == b.s; }
    ::std::shared_ptr<sim_stop_state> s;
};
class stop_source {
public:
    stop_source() : s(::std::make_shared<sim_stop_state>()) { s->sources = 1; }
    explicit stop_source(nostopstate_t) noexcept {}
    stop_source(const stop_source& o) : s(o.s) { if (s) { ::std::lock_guard<mutex> g(s->m); ++s->sources; } }
    stop_source(stop_source&& o) noexcept : s(::std::move(o.s)) {}
    stop_source& operator=(const stop_source& o) { stop_source t(o); s.swap(t.s); return *this; }
    stop_source& operator=(stop_source&& o) noexcept { stop_source t(::std::move(o)); s.swap(t.s); return *this; }
    ~stop_source() { if (s) { ::std::lock_guard<mutex> g(s->m); --s->sources; } }
    bool request_stop() noexcept { auto k = s; return k && k->request(); }
    stop_token get_token() const noexcept { stop_token t; t.s = s; return t; }
    bool stop_possible() const noexcept { return (bool)s; }
    bool stop_requested() const noexcept { return get_token().stop_requested(); }
    ::std::shared_ptr<sim_stop_state> s;
};
template<class F> class stop_callback : sim_stop_state::cb {
public:
    using callback_type = F;
    template<class C> requires ::std::is_constructible_v<F, C>
    explicit stop_callback(const stop_token& t, C&& c)   : f(::std::forward<C>(c)) { this->fn = &call; auto k = t.s; if (k && k->add(this)) s = k; }
    template<class C> requires ::std::is_constructible_v<F, C>
    explicit stop_callback(stop_token&& t, C&& c)   : f(::std::forward<C>(c)) { this->fn = &call; auto k = ::std::move(t.s); if (k && k->add(this)) s = k; }
    stop_callback(const stop_callback&) = delete; stop_callback& operator=(const stop_callback&) = delete;
    ~stop_callback() { if (s) s->remove(this); }
private:
    static void call(sim_stop_state::cb* c) { ::std::forward<F>(static_cast<stop_callback*>(c)->f)(); }
    F f; ::std::shared_ptr<sim_stop_state> s;
};
template<class F> stop_callback(stop_token, F) -> stop_callback<F>;

class jthread {
public:
    using id = thread::id;
    jthread() noexcept : src(nostopstate) {}
    template<class F, class... A> requires (!::std::is_same_v<::std::remove_cvref_t<F>, jthread>)
    explicit jthread(F&& f, A&&... a) {
        if constexpr (::std::is_invocable_v<::std::decay_t<F>, stop_token, ::std::decay_t<A>...>)
            t = thread(::std::forward<F>(f), src.get_token(), ::std::forward<A>(a)...);
        else t = thread(::std::forward<F>(f), ::std::forward<A>(a)...);
    }
    jthread(jthread&&) noexcept = default;
    jthread& operator=(jthread&& o) noexcept { if (this != &o) { end(); src = ::std::move(o.src); t = ::std::move(o.t); } return *this; }
    ~jthread() { end(); }
    void join() { t.join(); } void detach() { t.detach(); } bool joinable() const noexcept { return t.joinable(); }
    id get_id() const noexcept { return t.get_id(); }
    bool request_stop() noexcept { return src.request_stop(); }
    stop_source get_stop_source() noexcept { return src; } stop_token get_stop_token() const noexcept { return src.get_token(); }
    static unsigned hardware_concurrency() noexcept { return ::sim::hwc(); }
private:
    void end() { if (t.joinable()) { src.request_stop(); t.join(); } }
    stop_source src; thread t;
};
struct once_flag { mutex m; bool done = false; };
template<class F, class... A> void call_once(once_flag& o, F&& f, A&&... a) {
    ::std::lock_guard<mutex> g(o.m); if (!o.done) { ::std::invoke(::std::forward<F>(f), ::std::forward<A>(a)...); o.done = true; }
}

// futures
template<class T> struct sim_fut_state {
    using V = ::std::conditional_t<::std::is_void_v<T>, char, ::std::conditional_t<::std::is_reference_v<T>, ::std::remove_reference_t<T>*, T>>;
    mutex m; condition_variable c; bool ready = false, taken = false; ::std::optional<V> v; ::std::exception_ptr e;
    template<class F> void finish(F f) { ::std::unique_lock<mutex> l(m); if (ready) throw ::std::future_error(::std::future_errc::promise_already_satisfied); f(); ready = true; c.notify_all(); }
    void wait() { ::std::unique_lock<mutex> l(m); while (!ready) c.wait(l); }
};
template<class T> class future {
public:
    future() noexcept = default; future(future&&) noexcept = default; future& operator=(future&&) noexcept = default;
    explicit future(::std::shared_ptr<sim_fut_state<T>> s, ::std::shared_ptr<thread> t = {}) : s(::std::move(s)), t(::std::move(t)) {}
    ~future() { if (t && t->joinable()) t->join(); }
    bool valid() const noexcept { return (bool)s; }
    void wait() const { s->wait(); }
    template<class R, class P> future_status wait_for(const ::std::chrono::duration<R, P>& d) const { ::std::unique_lock<mutex> l(s->m); return s->c.wait_for(l, d, [&] { return s->ready; }) ? future_status::ready : future_status::timeout; }
    template<class C, class D> future_status wait_until(const ::std::chrono::time_point<C, D>& d) const { ::std::unique_lock<mutex> l(s->m); return s->c.wait_until(l, d, [&] { return s->ready; }) ? future_status::ready : future_status::timeout; }
    T get() {
        if (!s) throw ::std::future_error(::std::future_errc::no_state);
        auto k = ::std::move(s); k->wait(); if (k->e) ::std::rethrow_exception(k->e);
        if constexpr (::std::is_void_v<T>) return; else if constexpr (::std::is_reference_v<T>) return **k->v; else return ::std::move(*k->v);
    }
private: ::std::shared_ptr<sim_fut_state<T>> s; ::std::shared_ptr<thread> t;
};
template<class T> class promise {
public:
    promise() : s(::std::make_shared<sim_fut_state<T>>()) {}
    promise(promise&&) noexcept = default; promise& operator=(promise&&) noexcept = default;
    ~promise() { if (s && s.use_count() > 1) { ::std::unique_lock<mutex> l(s->m); if (!s->ready) { s->e = ::std::make_exception_ptr(::std::future_error(::std::future_errc::broken_promise)); s->ready = true; s->c.notify_all(); } } }
    future<T> get_future() { if (s->taken) throw ::std::future_error(::std::future_errc::future_already_retrieved); s->taken = true; return future<T>(s); }
    template<class... U> void set_value(U&&... u) {
        s->finish([&] { if constexpr (::std::is_void_v<T>) s->v.emplace(); else if constexpr (::std::is_reference_v<T>) s->v.emplace(&u...); else s->v.emplace(::std::forward<U>(u)...); });
    }
    void set_exception(::std::exception_ptr e) { s->finish([&] { s->e = e; }); }
    void swap(promise& o) noexcept { s.swap(o.s); }
private: ::std::shared_ptr<sim_fut_state<T>> s;
};
template<class S> class packaged_task;
template<class R, class... A> class packaged_task<R(A...)> {
public:
    packaged_task() noexcept = default;
    template<class F> requires (!::std::is_same_v<::std::remove_cvref_t<F>, packaged_task>) explicit packaged_task(F&& f) : f(::std::make_shared<::std::decay_t<F>>(::std::forward<F>(f))) { call = [](void* p, A... a) -> R { return (*(::std::decay_t<F>*)p)(::std::forward<A>(a)...); }; }
    packaged_task(packaged_task&&) noexcept = default; packaged_task& operator=(packaged_task&&) noexcept = default;
    bool valid() const noexcept { return (bool)f; }
    future<R> get_future() { return p.get_future(); }
    void operator()(A... a) { try { if constexpr (::std::is_void_v<R>) { call(f.get(), ::std::forward<A>(a)...); p.set_value(); } else p.set_value(call(f.get(), ::std::forward<A>(a)...)); } catch (...) { p.set_exception(::std::current_exception()); } }
private: ::std::shared_ptr<void> f; R (*call)(void*, A...) = nullptr; promise<R> p;
};
template<class F, class... A> auto async(::std::launch, F&& f, A&&... a) {
    using R = ::std::invoke_result_t<::std::decay_t<F>, ::std::decay_t<A>...>;
    promise<R> p; auto s = ::std::make_shared<sim_fut_state<R>>(); 
    auto t = ::std::make_shared<thread>([s](auto f, auto... a) mutable {
        ::std::exception_ptr e; ::std::optional<typename sim_fut_state<R>::V> v;
        try { if constexpr (::std::is_void_v<R>) { ::std::invoke(::std::move(f), ::std::move(a)...); v.emplace(); } else if constexpr (::std::is_reference_v<R>) v.emplace(&::std::invoke(::std::move(f), ::std::move(a)...)); else v.emplace(::std::invoke(::std::move(f), ::std::move(a)...)); } catch (...) { e = ::std::current_exception(); }
        s->finish([&] { s->v = ::std::move(v); s->e = e; });
    }, ::std::forward<F>(f), ::std::forward<A>(a)...);
    return future<R>(s, t);
}
template<class F, class... A> requires (!::std::is_same_v<::std::decay_t<F>, ::std::launch>) auto async(F&& f, A&&... a) { return simstd::async(::std::launch::async, ::std::forward<F>(f), ::std::forward<A>(a)...); }
} // namespace simstd

template<> struct std::hash<simstd::thread::id> {
    size_t operator()(simstd::thread::id i) const noexcept { return i.v * 1u; }
};

#define std simstd
