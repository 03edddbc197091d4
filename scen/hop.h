// Ways to move a coroutine to another simulated thread.
#pragma once
#include "common.h"
// A one-shot executor: coroutines handed to it are resumed by a worker thread, one by one.
struct Exec {
    std::mutex m; std::condition_variable cv; std::deque<macoro::coroutine_handle<>> q; bool stop = false; std::vector<std::thread> th; bool eager_stop = false;
    Exec(int n) { for (int i = 0; i < n; ++i) th.emplace_back([this] { run(); }); }
    ~Exec() { close(); }
    void close() { { std::lock_guard<std::mutex> l(m); stop = true; cv.notify_all(); } for (auto& t : th) t.join(); th.clear(); }
    void post(macoro::coroutine_handle<> h) { std::lock_guard<std::mutex> l(m); q.push_back(h); cv.notify_one(); }
    void run() {
        for (;;) {
            macoro::coroutine_handle<> h;
            { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return stop || !q.empty(); }); if (q.empty()) return; h = q.front(); q.pop_front(); }
            h.resume();
        }
    }
    struct Aw {
        Exec* e;
        bool await_ready() const noexcept { return false; }
        void await_suspend(std::coroutine_handle<> h) { e->post(macoro::coroutine_handle<>(h)); }
        void await_suspend(macoro::coroutine_handle<> h) { e->post(h); }
        void await_resume() const noexcept {}
    };
    Aw hop() { return { this }; }
    Aw schedule() { return { this }; }
};
