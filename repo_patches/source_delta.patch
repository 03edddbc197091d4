From c443d001ff737d92e34a71102c48ca736a2458b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:24 +0000
Subject: [PATCH 01/39] fix: make sequence waiter hand-off acq_rel so a waiter
 cannot resume while its resumer still reads it

await_suspend() exchanged the ready flag with acquire only and resume() with
release only.  When resume() loses the race (the flag was not yet set) the
waiter's suspend side must be ordered after resume()'s accesses; when resume()
wins, it must be ordered after the waiter stored its handle.  Both sides need
acquire and release.
---
 macoro/sequence_barrier.h | 4 ++--
 macoro/sequence_mpsc.h    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/macoro/sequence_barrier.h b/macoro/sequence_barrier.h
index 9977680..0b4221d 100644
--- a/macoro/sequence_barrier.h
+++ b/macoro/sequence_barrier.h
@@ -167,7 +167,7 @@ namespace macoro
 		{
 			m_awaitingCoroutine = awaitingCoroutine;
 			m_barrier.add_awaiter(this);
-			return !m_readyToResume.exchange(true, std::memory_order_acquire);
+			return !m_readyToResume.exchange(true, std::memory_order_acq_rel);
 		}
 
 		SEQUENCE await_resume() noexcept
@@ -182,7 +182,7 @@ namespace macoro
 		void resume() noexcept
 		{
 			// This synchronises with the exchange(true, std::memory_order_acquire) in await_suspend().
-			if (m_readyToResume.exchange(true, std::memory_order_release))
+			if (m_readyToResume.exchange(true, std::memory_order_acq_rel))
 			{
 				m_awaitingCoroutine.resume();
 				//resume_impl();
diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 4833646..2719468 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -362,7 +362,7 @@ namespace macoro
 			// If it was already marked as ready-to-resume within the call to add_awaiter() or
 			// on another thread then this exchange() will return true. In this case we want to
 			// resume immediately and continue execution by returning false.
-			return !m_readyToResume.exchange(true, std::memory_order_acquire);
+			return !m_readyToResume.exchange(true, std::memory_order_acq_rel);
 		}
 
 		SEQUENCE await_resume() noexcept
@@ -377,7 +377,7 @@ namespace macoro
 		void resume(SEQUENCE lastKnownPublished) noexcept
 		{
 			m_lastKnownPublished = lastKnownPublished;
-			if (m_readyToResume.exchange(true, std::memory_order_release))
+			if (m_readyToResume.exchange(true, std::memory_order_acq_rel))
 			{
 				resume_impl();
 			}
-- 
2.43.0


From abbe3fa15083682dc23205a4fda594c7650a5dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 02/39] fix: popping a closed channel throws instead of handing
 out a default value

---
 macoro/channel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macoro/channel.h b/macoro/channel.h
index 598efa3..cd6d6d7 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -324,6 +324,8 @@ namespace macoro
                 pop_wrapper await_resume() {
                     this->mChl->mLastKnown = this->mInner.await_resume();
                     assert(this->mChl->mLastKnown >= this->mChl->mFrontIndex);
+                    if (!this->mChl->mData[this->mChl->mFrontIndex & this->mChl->mIndexMask])
+                        throw channel_closed_exception{};
                     return pop_wrapper(this->mChl, this->mChl->mFrontIndex);
                 }
             };
-- 
2.43.0


From bf21a2288a476d33c324eb827376a9b5671ecd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 03/39] fix: sequence_mpsc judges each queued waiter by its own
 target

add_awaiter() compared the newly added waiter's target for every waiter it
re-acquired, so a second waiter for a later sequence was resumed early.
---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 2719468..bfa4041 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -686,7 +686,7 @@ namespace macoro
 
 				while (awaiters != nullptr)
 				{
-					diff_t diff = TRAITS::difference(targetSequence, lastKnownPublished);
+					diff_t diff = TRAITS::difference(awaiters->m_targetSequence, lastKnownPublished);
 					if (diff > 0)
 					{
 						// Not yet ready.
-- 
2.43.0


From 2b3463b0107d4e499e13d07bf445debaba067d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 04/39] fix: sequence_mpsc::any_available counts the last free
 slot

---
 macoro/sequence_mpsc.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index bfa4041..f5f52d2 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -453,9 +453,11 @@ namespace macoro
 	template<typename SEQUENCE, typename TRAITS>
 	bool sequence_mpsc<SEQUENCE, TRAITS>::any_available() const noexcept
 	{
-		return TRAITS::precedes(
-			m_nextToClaim.load(std::memory_order_relaxed),
-			m_consumerBarrier.last_published() + buffer_size());
+		// A claim of sequence number s waits for s - buffer_size() to be consumed, so there
+		// is room up to and including last_published() + buffer_size().
+		return !TRAITS::precedes(
+			static_cast<SEQUENCE>(m_consumerBarrier.last_published() + buffer_size()),
+			m_nextToClaim.load(std::memory_order_relaxed));
 	}
 
 	template<typename SEQUENCE, typename TRAITS>
-- 
2.43.0


From 06dbbaf5517988cc2ad59bb5b197ee381a6c27f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 05/39] fix: sequence_mpsc does not rescan from a waiter that
 has already been resumed

After re-acquiring the waiter list add_awaiter() kept using the sequence number
of the waiter it originally enqueued. That waiter may have been resumed
meanwhile and its slots reused, so the rescan stopped early, lowered the
last-known sequence of the waiters it held and lost their wake-up.
---
 macoro/sequence_mpsc.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index f5f52d2..7242368 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -682,6 +682,14 @@ namespace macoro
 				// To ensure it is woken up we need to reacquire the list of awaiters and resume
 				awaiter_t* awaiters = m_awaiters.exchange(nullptr, std::memory_order_acquire);
 
+				// The awaiter our sequence number came from may have been resumed by another
+				// thread while it was enqueued, and its slots reused since. Restart from an
+				// awaiter that we hold.
+				if (awaiters != nullptr)
+				{
+					lastKnownPublished = last_published_after(awaiters->m_lastKnownPublished);
+				}
+
 				using diff_t = typename TRAITS::difference_type;
 
 				diff_t minDiff = std::numeric_limits<diff_t>::max();
-- 
2.43.0


From 3c296e8d665602e500ba7e198d35536de2da3c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 06/39] fix: barrier does not touch itself after the decrement
 that releases it

decrement() read the continuation after the count had reached zero. A waiter
that arrived in between does not suspend, and may destroy or reuse the barrier
while decrement() still reads it. The count and the presence of a waiter are
now one atomic word.
---
 macoro/barrier.h | 60 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/macoro/barrier.h b/macoro/barrier.h
index 2698b5d..f2d7aa2 100644
--- a/macoro/barrier.h
+++ b/macoro/barrier.h
@@ -65,20 +65,38 @@ namespace macoro
 		// the coro that is awaiting the barrier
 		coroutine_handle<> m_continuation;
 
-		// the current count, once it decrements to 0, 
-		// m_continuation is called if set.
-		std::atomic<std::size_t> m_count;
+		// twice the current count, plus one if m_continuation is 
+		// waiting. The decrement that brings the count to 0 also 
+		// learns from this whether there is someone to resume. If 
+		// there is not, the barrier can be destroyed or reused right 
+		// away, so it must not be accessed anymore.
+		std::atomic<std::size_t> m_state;
+
+		// try to register a waiter. Returns false if the count is 0.
+		bool try_wait(coroutine_handle<> continuation) noexcept
+		{
+			auto state = m_state.load(std::memory_order_acquire);
+			while (state)
+			{
+				assert((state & 1) == 0 && "only one caller can await the barrier at a time");
+				m_continuation = continuation;
+				if (m_state.compare_exchange_weak(state, state | 1,
+					std::memory_order_acq_rel, std::memory_order_acquire))
+					return true;
+			}
+			return false;
+		}
 	public:
 
 		// construct a new barrier with the given initial value.
 		explicit barrier(std::size_t initial_count = 0) noexcept
-			: m_count(initial_count)
+			: m_state(2 * initial_count)
 		{}
 
 		// increament the count by amount and return the new count.
 		std::size_t add(size_t amount) noexcept
 		{
-			auto old = m_count.fetch_add(amount, std::memory_order_relaxed);
+			auto old = m_state.fetch_add(2 * amount, std::memory_order_relaxed) / 2;
 			auto ret = old + amount;
 			assert(ret >= old);
 			return ret;
@@ -93,21 +111,30 @@ namespace macoro
 		// returns the current count.
 		std::size_t count() const noexcept 
 		{
-			return m_count.load(std::memory_order_acquire);
+			return m_state.load(std::memory_order_acquire) / 2;
 		}
 
 		// decrease the count by 1. Returns the new count.
 		std::size_t decrement() noexcept
 		{
-			const std::size_t old_count = m_count.fetch_sub(1, std::memory_order_acq_rel);
+			auto state = m_state.load(std::memory_order_relaxed);
+			std::size_t next;
+			do
+			{
+				assert(state >= 2);
+				next = state - 2;
 
-			assert(old_count);
+				// we are the last one, take the waiter with us.
+				if (next == 1)
+					next = 0;
+			} while (!m_state.compare_exchange_weak(state, next,
+				std::memory_order_acq_rel, std::memory_order_relaxed));
 
-			if (old_count == 1 && m_continuation)
+			if (state == 3)
 			{
 				std::exchange(m_continuation, nullptr).resume();
 			}
-			return old_count - 1;
+			return next / 2;
 		}
 		
 		// suspend until the count reached zero. Only
@@ -125,16 +152,11 @@ namespace macoro
 		coroutine_handle<Promise> continuation,
 		std::source_location loc) noexcept
 	{
-		coroutine_handle<> ret = continuation;
-		if (m_barrier.increment() > 1)
-		{
-			set_parent(get_traceable(continuation), loc);
-			assert(m_barrier.m_continuation == nullptr);
-			m_barrier.m_continuation = std::exchange(ret, noop_coroutine());
-		}
-		m_barrier.decrement();
+		set_parent(get_traceable(continuation), loc);
+		if (m_barrier.try_wait(continuation))
+			return noop_coroutine();
 
-		return ret;
+		return continuation;
 	}
 
 }
\ No newline at end of file
-- 
2.43.0


From a0776e2ee00f710e285b4807eeff0f2efc9750b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 07/39] fix: eager_task reports completion through its own
 atomic state instead of racing on the running frame's done()

---
 macoro/task.h | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/macoro/task.h b/macoro/task.h
index b553067..1947166 100644
--- a/macoro/task.h
+++ b/macoro/task.h
@@ -154,10 +154,10 @@ namespace macoro
 				{
 					auto& promise = coro.promise();
 					// release our result. acquire their continuation (if they beat us).
-					auto b = promise.has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
+					auto s = promise.m_state.exchange(state::completed, std::memory_order_acq_rel);
 
-					// if b, then we have finished after the continuation was set. 
-					if (b)
+					// if they did, then we have finished after the continuation was set. 
+					if (s == state::continuation)
 					{
 						assert(promise.m_continuation);
 						return promise.m_continuation;
@@ -171,7 +171,7 @@ namespace macoro
 		public:
 
 			task_promise_base() noexcept
-				: has_completed_or_continutation(false)
+				: m_state(state::running)
 			{
 				//std::cout << "eager" << std::endl;
 			}
@@ -200,11 +200,22 @@ namespace macoro
 			{
 				assert(!m_continuation);
 				m_continuation = continuation;
-				return has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
+				auto s = state::running;
+				return !m_state.compare_exchange_strong(
+					s, state::continuation, std::memory_order_acq_rel, std::memory_order_acquire);
+			}
+
+			// true once the coroutine has finished. Unlike coroutine_handle::done(),
+			// this can be called while the coroutine is running on another thread.
+			bool is_completed() const noexcept
+			{
+				return m_state.load(std::memory_order_acquire) == state::completed;
 			}
 
 		private:
-			std::atomic<bool> has_completed_or_continutation;
+			enum class state : unsigned char { running, continuation, completed };
+
+			std::atomic<state> m_state;
 			
 			coroutine_handle<> m_continuation;
 		};
@@ -477,7 +488,7 @@ namespace macoro
 
 			bool await_ready() const noexcept
 			{
-				return !m_coroutine || m_coroutine.done();
+				return !m_coroutine || m_coroutine.promise().is_completed();
 			}
 
 #ifdef MACORO_CPP_20
@@ -584,7 +595,12 @@ namespace macoro
 		/// Awaiting a task that is ready is guaranteed not to block/suspend.
 		bool is_ready() const noexcept
 		{
-			return m_coroutine && m_coroutine.done();
+			if (!m_coroutine)
+				return false;
+			if constexpr (lazy)
+				return m_coroutine.done();
+			else
+				return m_coroutine.promise().is_completed();
 		}
 
 		struct ref_awaitable : detail::task_awaitable_base<T,lazy>
-- 
2.43.0


From 970821a837292a60b529e7b8eff5262cfc486569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 08/39] fix: scoped_task publishes completion after it is
 suspended, not in await_ready

The owner of the handle may destroy the frame from another thread as soon as
the completion state is published, so the coroutine must be suspended by then.
---
 macoro/async_scope.h                | 25 +++++++++++-----------
 macoro/detail/scoped_task_promise.h | 33 +++++++----------------------
 2 files changed, 20 insertions(+), 38 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index ebb5732..221c207 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -259,11 +259,12 @@ namespace macoro
 
 
 		template<typename T>
-		bool scoped_task_promise<T>::final_awaitable::await_ready() noexcept
+		coroutine_handle<> scoped_task_promise<T>::final_awaitable::await_suspend(
+			coroutine_handle<scoped_task_promise> coro) noexcept
 		{
-			scoped_task_promise& promise = m_promise;
+			scoped_task_promise& promise = coro.promise();
 			async_scope* scope = promise.m_scope;
-			bool done = false;
+			coroutine_handle<> next = noop_coroutine();
 
 			// race to see if we need to call the completion handle
 			// it might not have been set yet (or ever).
@@ -285,8 +286,7 @@ namespace macoro
 				// the return value. 
 				if (promise.m_continuation)
 				{
-					m_run_continutation = true;
-					done = false;
+					next = promise.m_continuation;
 				}
 				else
 				{
@@ -295,14 +295,11 @@ namespace macoro
 						// todo, replace vector by a lock free linked list, either to the full
 						// coro frame (no allocations) or to the execptions (node allocations).
 						// for now, locking on expcetions should be fine.
-						std::lock_guard<std::mutex> lock(promise.m_scope->m_exception_mutex);
-						promise.m_scope->m_exceptions.push_back(std::move(promise.m_exception));
+						std::lock_guard<std::mutex> lock(scope->m_exception_mutex);
+						scope->m_exceptions.push_back(std::move(promise.m_exception));
 					}
 
-					// destroy the coro.
-					// this is the same as coro.destroy()
-					// but there is a msvc bug if you do that.
-					done = true;
+					coro.destroy();
 				}
 			}
 			else
@@ -314,13 +311,15 @@ namespace macoro
 				// 
 				// If a continuation is never set, then the scoped_task
 				// will destroy the coro in its distructor. 
+				// 
+				// Either can happen on another thread, so the coro must 
+				// not be accessed anymore.
 				assert(b == completion_state::inprogress);
-				done = false;
 			}
 
 			// notify the scope that we are done.
 			scope->m_barrier.decrement();
-			return done;
+			return next;
 		}
 	}
 
diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index 76e27cd..b53e25b 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -262,46 +262,29 @@ namespace macoro
 			// the status of the value/exception storage.
 			result_type m_result_type = result_type::empty;
 
-			// this final awaiter runs the suspend logic in await_ready
-			// due to a bug un msvc. Using symetric transfer and called
-			// destroy when done = true causes a segfault. This alternative
-			// implementation implicitly destroys the coro by returning
-			// true from await_ready.
+			// The completion state is published in await_suspend, i.e. once
+			// the coro is suspended. As soon as it is published, the owner of 
+			// the handle can destroy the coro from another thread.
 			struct final_awaitable
 			{
-				scoped_task_promise& m_promise;
-
-				// a variable used to remember if we need to call the continuation.
-				bool m_run_continutation = false;
-
-				bool await_ready() noexcept;
+				bool await_ready() const noexcept { return false; }
 
 #ifdef MACORO_CPP_20
 				std::coroutine_handle<> await_suspend(
 					std::coroutine_handle<scoped_task_promise> coro) noexcept
 				{
-					if (m_run_continutation)
-						return m_promise.m_continuation.std_cast();
-					else
-						return std::noop_coroutine();
+					return await_suspend(
+						coroutine_handle<scoped_task_promise>(coro)).std_cast();
 				}
 #endif
 
 				coroutine_handle<> await_suspend(
-					coroutine_handle<scoped_task_promise> coro) noexcept
-				{
-					if (m_run_continutation)
-						return m_promise.m_continuation;
-					else
-						return noop_coroutine();
-				}
+					coroutine_handle<scoped_task_promise> coro) noexcept;
 
 				void await_resume() noexcept {
 				}
 			};
 
-
-
 		public:
 
 			template<typename Awaiter>
@@ -311,7 +294,7 @@ namespace macoro
 			}
 
 			suspend_never initial_suspend() noexcept { return {}; }
-			final_awaitable final_suspend() noexcept { return { *this }; }
+			final_awaitable final_suspend() noexcept { return {}; }
 
 #ifdef MACORO_CPP_20
 			completion_state try_set_continuation(std::coroutine_handle<> continuation) noexcept
-- 
2.43.0


From 54d01a62f864fda4fd513c71331d9884dd3e9b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 09/39] fix: joining an async_scope collects the exceptions
 after the tasks have completed

They were moved out, without the lock, when the awaiter was created, so the
exceptions of tasks that were still running at that point were lost.
when_all_scope keeps ignoring them, which when_all_scope_test depends on.
---
 macoro/async_scope.h    | 16 ++++++++++++----
 macoro/when_all_scope.h |  4 ++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index 221c207..27b0593 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -189,7 +189,7 @@ namespace macoro
 		struct join_awaiter
 		{
 			barrier_awaiter m_barrier;
-			std::vector<std::exception_ptr> m_exceptions;
+			async_scope& m_scope;
 
 			bool await_ready() const noexcept { return m_barrier.await_ready(); }
 
@@ -212,8 +212,16 @@ namespace macoro
 			void await_resume()
 			{
 				m_barrier.await_resume();
-				if (m_exceptions.size())
-					throw async_scope_exception(std::move(m_exceptions));
+
+				// collect the exceptions now that all tasks have completed.
+				std::vector<std::exception_ptr> exceptions;
+				{
+					std::lock_guard<std::mutex> lock(m_scope.m_exception_mutex);
+					exceptions.swap(m_scope.m_exceptions);
+				}
+
+				if (exceptions.size())
+					throw async_scope_exception(std::move(exceptions));
 			}
 		};
 
@@ -229,7 +237,7 @@ namespace macoro
 		// until all added awaitables have been completed.
 		join_awaiter MACORO_OPERATOR_COAWAIT() & noexcept
 		{
-			return { m_barrier.MACORO_OPERATOR_COAWAIT(), std::move(m_exceptions) };
+			return { m_barrier.MACORO_OPERATOR_COAWAIT(), *this };
 		}
 
 	private:
diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index f36bb3d..6739a6d 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -135,7 +135,7 @@ namespace macoro
 		struct awaiter
 		{
 			coroutine_handle<promise_type> m_handle;
-			async_scope::join_awaiter m_join;
+			barrier_awaiter m_join;
 
 			bool await_ready() { return m_join.await_ready(); }
 
@@ -157,7 +157,7 @@ namespace macoro
 
 		auto MACORO_OPERATOR_COAWAIT() const& noexcept
 		{
-			return awaiter{ m_handle, m_handle.promise().m_scope.MACORO_OPERATOR_COAWAIT() };
+			return awaiter{ m_handle, m_handle.promise().m_scope.m_barrier.MACORO_OPERATOR_COAWAIT() };
 		}
 
 
-- 
2.43.0


From c0aafc7deb17e7ae0d9ea0a19f6b655b629d4caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 10/39] fix: when_all_scope destroys its coroutine frame

---
 macoro/when_all_scope.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index 6739a6d..60f58a2 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -132,6 +132,22 @@ namespace macoro
 			: m_handle(h)
 		{}
 
+		when_all_scope(when_all_scope&& other) noexcept
+			: m_handle(std::exchange(other.m_handle, nullptr))
+		{}
+
+		when_all_scope& operator=(when_all_scope&& other) noexcept
+		{
+			std::swap(m_handle, other.m_handle);
+			return *this;
+		}
+
+		~when_all_scope()
+		{
+			if (m_handle)
+				m_handle.destroy();
+		}
+
 		struct awaiter
 		{
 			coroutine_handle<promise_type> m_handle;
-- 
2.43.0


From 57714b33c1602a21ffc84e06458023f21cb76736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 11/39] fix: allocate the await context before registering it,
 so a failed allocation can unwind

---
 macoro/coro_frame.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 26a1772..bef21b1 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -380,14 +380,16 @@ namespace macoro
 				assert(aa.suspend_index != CTX::suspend_index);
 #endif
 
+			// allocate first, an entry without a context can not be destroyed.
+			std::unique_ptr<CTX> owner(new CTX);
 			awaiters.emplace_back();
+			auto ctx = owner.release();
+
 			auto& d = awaiters.back();
 #ifndef NDEBUG
 			d._awaiter_typeid_ = &typeid(CTX);
 #endif
 			d.suspend_index = CTX::suspend_index;
-
-			auto ctx = new CTX;
 			d._ctx_ptr = ctx;
 
 			d._awaiter_deleter = [](void* ptr)
-- 
2.43.0


From 8366c4cb9bd7851a73d563c76d1cd2ed7434e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 12/39] fix: awaiting an lvalue when_all_ready compiles

---
 macoro/detail/when_all_awaitable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/detail/when_all_awaitable.h b/macoro/detail/when_all_awaitable.h
index cac1a29..511bb67 100644
--- a/macoro/detail/when_all_awaitable.h
+++ b/macoro/detail/when_all_awaitable.h
@@ -131,14 +131,14 @@ namespace macoro
 				bool await_suspend(std::coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return await_suspend(coroutine_handle<>(awaitingCoroutine), loc);
+					return m_awaitable.try_await(coroutine_handle<>(awaitingCoroutine));
 				}
 #endif
 				template<typename Promise>
 				bool await_suspend(coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return m_awaitable.try_await(awaitingCoroutine, loc);
+					return m_awaitable.try_await(awaitingCoroutine);
 				}
 
 				TASK_CONTAINER& await_resume() noexcept
-- 
2.43.0


From 81a014a440abc7f163300ebe3a6941e70a3cc0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 13/39] fix: the final suspend of a macro coroutine does not
 allocate

An allocation failure there escaped from resume() and the awaiting coroutine was
never resumed.
---
 macoro/coro_frame.h | 54 +++++++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index bef21b1..26d5d01 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -355,6 +355,9 @@ namespace macoro
 		};
 		std::vector<awaiters> awaiters;
 
+		// The storage for the final_suspend context. The final suspend
+		// can not fail, so it must not allocate.
+		void* _final_ctx_storage_ = nullptr;
 
 		~FrameBase()
 		{
@@ -371,6 +374,21 @@ namespace macoro
 		}
 
 
+		template<typename CTX>
+		static constexpr bool is_final_context = CTX::suspend_index == MACORO_FINAL_SUSPEND_IDX;
+
+		template<typename CTX>
+		static void deleteContext(CTX* p)
+		{
+			p->awaiter.destroy();
+			p->awaitable.destroy();
+			p->expr.destroy();
+			if constexpr (is_final_context<CTX>)
+				p->~CTX();
+			else
+				delete p;
+		}
+
 		template<typename CTX>
 		auto& makeAwaitContext()
 		{
@@ -380,10 +398,20 @@ namespace macoro
 				assert(aa.suspend_index != CTX::suspend_index);
 #endif
 
-			// allocate first, an entry without a context can not be destroyed.
-			std::unique_ptr<CTX> owner(new CTX);
-			awaiters.emplace_back();
-			auto ctx = owner.release();
+			CTX* ctx;
+			if constexpr (is_final_context<CTX>)
+			{
+				// does not allocate, the vector held the initial_suspend context.
+				awaiters.emplace_back();
+				ctx = new (_final_ctx_storage_) CTX;
+			}
+			else
+			{
+				// allocate first, an entry without a context can not be destroyed.
+				std::unique_ptr<CTX> owner(new CTX);
+				awaiters.emplace_back();
+				ctx = owner.release();
+			}
 
 			auto& d = awaiters.back();
 #ifndef NDEBUG
@@ -394,11 +422,7 @@ namespace macoro
 
 			d._awaiter_deleter = [](void* ptr)
 			{
-				auto p = (CTX*)(ptr);
-				p->awaiter.destroy();
-				p->awaitable.destroy();
-				p->expr.destroy();
-				delete p;
+				deleteContext((CTX*)ptr);
 			};
 
 			ctx->awaiter_ptr = &d._awaiter_ptr;
@@ -435,11 +459,7 @@ namespace macoro
 			assert(d->suspend_index == CTX::suspend_index);
 			assert(d->_awaiter_ptr);
 			assert(d->_awaiter_typeid_ == &typeid(CTX));
-			auto p = (CTX*)d->_ctx_ptr;
-			p->awaiter.destroy();
-			p->awaitable.destroy();
-			p->expr.destroy();
-			delete p;
+			deleteContext((CTX*)d->_ctx_ptr);
 
 			awaiters.pop_back();
 		}
@@ -653,6 +673,11 @@ namespace macoro
 		using std_handle_adapter = typename FrameBase<Promise>::std_handle_adapter;
 		std_handle_adapter std_adapter;
 #endif
+		using final_context = AwaitContext<Promise, MACORO_FINAL_SUSPEND_IDX, store_as_t<
+			decltype(as_reference(std::declval<Promise&>().final_suspend())),
+			decltype(std::declval<Promise&>().final_suspend())>>;
+		alignas(final_context) unsigned char _final_ctx_[sizeof(final_context)];
+
 		Frame(const Frame&) = delete;
 		Frame(Frame&&) = delete;
 
@@ -662,6 +687,7 @@ namespace macoro
 			, std_adapter(adapter())
 #endif
 		{
+			FrameBase<Promise>::_final_ctx_storage_ = _final_ctx_;
 			FrameBase<void>::resume = &Frame::resume_impl;
 			//FrameBase<void>::resume = &Frame::operator();
 			FrameBase<void>::destroy = &Frame::destroy_impl;
-- 
2.43.0


From 31f36ab07344f27dec7afca1562c3889eb9869ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 14/39] fix: thread_pool notifies its workers before the work
 it publishes can destroy the pool

---
 macoro/thread_pool.h | 44 +++++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 8bf9478..d4165fc 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -76,10 +76,10 @@ namespace macoro
             {
                 //log("post");
                 assert(fn);
-                {
-                    std::lock_guard<std::mutex> lock(mMutex);
-                    mDeque.push_back(std::move(fn));
-                }
+                // notify with the lock held: once it is released, fn can run 
+                // and allow the pool to be destroyed.
+                std::lock_guard<std::mutex> lock(mMutex);
+                mDeque.push_back(std::move(fn));
                 mCondition.notify_one();
             }
 
@@ -91,11 +91,8 @@ namespace macoro
                     return true;
                 else
                 {
-                    {
-                        std::lock_guard<std::mutex> lock(mMutex);
-                        mDeque.push_back(std::move(fn));
-                    }
-
+                    std::lock_guard<std::mutex> lock(mMutex);
+                    mDeque.push_back(std::move(fn));
                     mCondition.notify_one();
                     return false;
                 }
@@ -136,22 +133,17 @@ namespace macoro
             void cancel_delay_op(std::size_t idx)
             {
                 //log("cancel_delay_op");
-                bool notify = false;
+                std::unique_lock<std::mutex> lock(mMutex);
+                for (std::size_t i = 0; i < mDelayHeap.size(); ++i)
                 {
-                    std::unique_lock<std::mutex> lock(mMutex);
-                    for (std::size_t i = 0; i < mDelayHeap.size(); ++i)
+                    if (mDelayHeap[i].idx == idx)
                     {
-                        if (mDelayHeap[i].idx == idx)
-                        {
-                            mDelayHeap[i].deadline = thread_pool_clock::now();
-                            std::make_heap(mDelayHeap.begin(), mDelayHeap.end());
-                            notify = true;
-                            break;
-                        }
+                        mDelayHeap[i].deadline = thread_pool_clock::now();
+                        std::make_heap(mDelayHeap.begin(), mDelayHeap.end());
+                        mCondition.notify_one();
+                        break;
                     }
                 }
-                if (notify)
-                    mCondition.notify_one();
             }
 
         };
@@ -243,14 +235,12 @@ namespace macoro
                 if (mEx)
                 {
 
-                    std::size_t v = 0;
                     {
+                        // notify with the lock held: once it is released, the
+                        // threads can exit and allow the pool to be destroyed.
                         std::lock_guard<std::mutex> lock(mEx->mMutex);
-                        v = --mEx->mWork;
-                    }
-                    if (v == 0)
-                    {
-                        mEx->mCondition.notify_all();
+                        if (--mEx->mWork == 0)
+                            mEx->mCondition.notify_all();
                     }
                     mEx = nullptr;
                 }
-- 
2.43.0


From 2a246ee13948e52f0f7d8cf27b07638f1f1c32c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 15/39] fix: schedule_after registers for cancellation before
 the coroutine can be resumed

---
 macoro/thread_pool.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index d4165fc..a21afa9 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -111,16 +111,23 @@ namespace macoro
                     {
                         std::unique_lock<std::mutex> lock(mMutex);
                         idx = mDelayOpIdx++;
-                        mDelayHeap.emplace_back(idx, h, deadline);
-                        std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
                     }
 
+                    // register before h is published: from then on h can be 
+                    // resumed, which destroys token and reg.
                     if (token.stop_possible())
                     {
-                        reg.emplace(std::move(token), [idx, this] {
+                        reg.emplace(token, [idx, this] {
                             cancel_delay_op(idx);
                             });
                     }
+
+                    std::unique_lock<std::mutex> lock(mMutex);
+                    // a stop request that came before h was published did not find it.
+                    if (token.stop_requested())
+                        deadline = thread_pool_clock::now();
+                    mDelayHeap.emplace_back(idx, h, deadline);
+                    std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
                     mCondition.notify_one();
                 }
                 else
-- 
2.43.0


From c4d822c7f18e6254674cad2cb9dba38c31d17bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:41 +0000
Subject: [PATCH 16/39] fix: a thread_pool worker hands the remaining work to
 an idle thread before it runs a coroutine

---
 macoro/thread_pool.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index a21afa9..45e06c9 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -430,6 +430,11 @@ namespace macoro
 
                     if (fn)
                     {
+                        // this thread might have been the only one that was 
+                        // notified of what remains.
+                        if (state->mDeque.size() || state->mDelayHeap.size())
+                            state->mCondition.notify_one();
+
                         lock.unlock();
 
                         fn.resume();
-- 
2.43.0


From 04a4f0b32cacd1e883efe44643c4fce77ff4040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:18 +0000
Subject: [PATCH 17/39] fix: the last thread_pool worker to leave wakes those
 still waiting for a cancelled delay

---
 macoro/thread_pool.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 45e06c9..6da8379 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -444,6 +444,10 @@ namespace macoro
                     }
                     //state->log("run::next");
                 }
+
+                // the other threads might be waiting for the deadline of a 
+                // delay that was cancelled.
+                state->mCondition.notify_all();
             }
 
             detail::thread_pool_state::mCurrentExecutor = nullptr;
-- 
2.43.0


From a8b4b78bdd883db294c587b52b7fa81a3446f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 18/39] fix: the threads of a thread_pool do not refer to the
 object it was moved from

---
 macoro/thread_pool.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 6da8379..85151d4 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -333,7 +333,7 @@ namespace macoro
                 mState->mThreads.reserve(mState->mThreads.size() + n);
                 for (std::size_t i = 0; i < n; ++i)
                 {
-                    mState->mThreads.emplace_back([this] {run(); });
+                    mState->mThreads.emplace_back([state = mState.get()] {run(state); });
                 }
             }
         }
@@ -374,7 +374,14 @@ namespace macoro
 
         void run()
         {
-            auto state = mState.get();
+            run(mState.get());
+        }
+
+    private:
+
+        // does not refer to the thread_pool, which can be moved while its threads run.
+        static void run(detail::thread_pool_state* state)
+        {
             //state->log("run");
 
             if (detail::thread_pool_state::mCurrentExecutor != nullptr)
-- 
2.43.0


From eb5845cb5cede9abf910f29ad0cd073a2851b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:28 +0000
Subject: [PATCH 19/39] fix: assigning to a thread_pool joins the threads of
 the pool it replaces

---
 macoro/thread_pool.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 85151d4..f803eeb 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -263,7 +263,16 @@ namespace macoro
             :mState(new detail::thread_pool_state)
         {}
         thread_pool(thread_pool&&) = default;
-        thread_pool& operator=(thread_pool&&) = default;
+        thread_pool& operator=(thread_pool&& o)
+        {
+            if (this != &o)
+            {
+                // the threads of the pool that is replaced still use its state.
+                join();
+                mState = std::move(o.mState);
+            }
+            return *this;
+        }
 
         thread_pool(std::size_t number_of_threads, work& w)
             : mState(new detail::thread_pool_state)
-- 
2.43.0


From b1c59fe6794f400fe952bbc41bf0570aa054bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 20/39] fix: awaiting a stop_token does not resume the
 coroutine while its callback is still being registered

---
 macoro/stop.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/macoro/stop.h b/macoro/stop.h
index e603d6e..4fdfb4d 100644
--- a/macoro/stop.h
+++ b/macoro/stop.h
@@ -1,6 +1,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <optional>
 #include "macoro/coroutine_handle.h"
@@ -35,6 +36,10 @@ namespace macoro
 
 		stop_token mtoken;
 		optional_stop_callback mReg;
+
+		// set by the first of await_suspend being done and the callback being called, the second resumes.
+		std::atomic<bool> mFlag{ false };
+
 		bool await_ready() { return false; }
 
 		std::coroutine_handle<> await_suspend(std::coroutine_handle<> h)
@@ -45,10 +50,16 @@ namespace macoro
 		{
 			if (mtoken.stop_possible() && !mtoken.stop_requested())
 			{
-				mReg.emplace(mtoken, [h] {
-					h.resume();
+				mReg.emplace(mtoken, [this, h] {
+					// resuming destroys this, which must not happen while mReg 
+					// is being constructed.
+					if (mFlag.exchange(true, std::memory_order_acq_rel))
+						h.resume();
 					});
 
+				if (mFlag.exchange(true, std::memory_order_acq_rel))
+					return h;
+
 				return noop_coroutine();
 			}
 			return h;
-- 
2.43.0


From 5c4589cf6260d673f95c68413e9d2f62f982d73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:07 +0000
Subject: [PATCH 21/39] fix: destroying a stop_callback waits for that callback
 only, not for all of them

---
 macoro/detail/stop_state.cpp | 30 +++++++++++++++++++-----------
 macoro/detail/stop_state.h   |  2 --
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/macoro/detail/stop_state.cpp b/macoro/detail/stop_state.cpp
index 2bb786a..692ca18 100644
--- a/macoro/detail/stop_state.cpp
+++ b/macoro/detail/stop_state.cpp
@@ -60,6 +60,9 @@ namespace macoro
 
 			std::thread::id m_notificationThreadId;
 
+			// The callback that request_stop() is executing, if any.
+			std::atomic<macoro::stop_callback*> m_running;
+
 			// Store N separate lists and randomly apportion threads to a given
 			// list to reduce chance of contention.
 			std::uint32_t m_listCount;
@@ -156,6 +159,7 @@ macoro::detail::stop_callback_state::allocate()
 		throw std::bad_alloc{};
 	}
 
+	::new (&state->m_running) std::atomic<macoro::stop_callback*>(nullptr);
 	state->m_listCount = listCount;
 	for (std::uint32_t i = 0; i < listCount; ++i)
 	{
@@ -401,11 +405,6 @@ bool macoro::detail::stop_state::stop_requested() const noexcept
 	return (m_state.load(std::memory_order_acquire) & cancellation_requested_flag) != 0;
 }
 
-bool macoro::detail::stop_state::is_cancellation_notification_complete() const noexcept
-{
-	return (m_state.load(std::memory_order_acquire) & cancellation_notification_complete_flag) != 0;
-}
-
 void macoro::detail::stop_state::request_stop()
 {
 	const auto oldState = m_state.fetch_or(cancellation_requested_flag, std::memory_order_seq_cst);
@@ -461,12 +460,18 @@ void macoro::detail::stop_state::request_stop()
 					auto* registration = entry.load(std::memory_order_seq_cst);
 					if (registration != nullptr)
 					{
+						// Announce the callback before acquiring it. A concurrent call to
+						// deregister_callback() that fails because we acquired the
+						// registration then sees that it is being executed. Release what the
+						// previous callback did, as this can replace the write that ended it.
+						registrationState->m_running.store(registration, std::memory_order_release);
+
 						// Try to acquire ownership of the registration by replacing its
 						// slot with nullptr atomically. This resolves the race between
 						// a concurrent call to deregister_callback() from the registration's
-						// destructor.
-						registration = entry.exchange(nullptr, std::memory_order_seq_cst);
-						if (registration != nullptr)
+						// destructor. If the slot has been reused in the meantime then its new
+						// owner sees that stop has been requested and removes itself.
+						if (entry.compare_exchange_strong(registration, nullptr, std::memory_order_seq_cst))
 						{
 							try
 							{
@@ -478,6 +483,8 @@ void macoro::detail::stop_state::request_stop()
 								std::terminate();
 							}
 						}
+
+						registrationState->m_running.store(nullptr, std::memory_order_release);
 					}
 				}
 
@@ -595,8 +602,9 @@ void macoro::detail::stop_state::deregister_callback(stop_callback* registration
 	else
 	{
 		// A thread executing request_stop() has acquired this callback and
-		// is executing it. Need to wait until it finishes executing before we return
-		// and the registration object is destructed.
+		// might be executing it. Need to wait until it finishes executing before we return
+		// and the registration object is destructed. Don't wait for the other callbacks,
+		// one of them might itself be waiting for this thread.
 		//
 		// However, we also need to handle the case where the registration is being
 		// removed from within a callback which would otherwise deadlock waiting
@@ -609,7 +617,7 @@ void macoro::detail::stop_state::deregister_callback(stop_callback* registration
 		if (std::this_thread::get_id() != registrationState->m_notificationThreadId)
 		{
 			// TODO: More efficient busy-wait backoff strategy
-			while (!is_cancellation_notification_complete())
+			while (registrationState->m_running.load(std::memory_order_acquire) == registration)
 			{
 				std::this_thread::yield();
 			}
diff --git a/macoro/detail/stop_state.h b/macoro/detail/stop_state.h
index b6ec6ab..82c0138 100644
--- a/macoro/detail/stop_state.h
+++ b/macoro/detail/stop_state.h
@@ -83,8 +83,6 @@ namespace macoro
 
 			stop_state() noexcept;
 
-			bool is_cancellation_notification_complete() const noexcept;
-
 			static constexpr std::uint64_t cancellation_requested_flag = 1;
 			static constexpr std::uint64_t cancellation_notification_complete_flag = 2;
 			static constexpr std::uint64_t stop_source_ref_increment = 4;
-- 
2.43.0


From 2c95d41ed805936167fd1d6f0f22620a27370fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:03 +0000
Subject: [PATCH 22/39] fix: take_until moves the work's result out instead of
 copying it

---
 macoro/take_until.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/take_until.h b/macoro/take_until.h
index 2ff14eb..4bdcbf6 100644
--- a/macoro/take_until.h
+++ b/macoro/take_until.h
@@ -48,6 +48,6 @@ namespace macoro
 			std::rethrow_exception(ex);
 
 		if constexpr (is_void == false)
-			co_return static_cast<awaitable_result_t<AWAITABLE>>(v.value());
+			co_return static_cast<awaitable_result_t<AWAITABLE>>(std::move(v.value()));
 	}
 }
-- 
2.43.0


From fcd60ca80d11a9a8a5126494b41197764431f315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 23/39] fix: a macro coroutine reached from a std coroutine
 transfers symmetrically

The adapter which lets a std coroutine resume a macro coroutine resumed
whatever came next from within its own await_suspend. Each crossing from
std to macro and back therefore left frames on the stack until the whole
chain ended, so a std coroutine awaiting macro tasks in a loop (or a long
chain alternating between the two) overflowed the stack. Return the next
handle instead, except on MSVC where a compiler bug prevents it.
---
 macoro/coro_frame.h | 64 +++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 26d5d01..b47a831 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -722,42 +722,48 @@ namespace macoro
 
 					bool await_ready() { return false; }
 
+#ifdef _MSC_VER
+					// Ideally we would perform symmetric transfer here but there is
+					// a compiler bug in MSVC. Doing anything but returning here may cause
+					//  ASAN error on MSVC. See 
+					// https://developercommunity.visualstudio.com/mTask/c20-coroutine-resume-thread-safety/1668687?entry=myfeedback&space=62&ref=native&refTime=1645079575781&refUserId=36961f1e-1836-4f6a-af82-ffcfa64d75a3&viewtype=all
+					// In particular, the adpater might have already been destroyed
+					// and MSVC for some unknown reason updates the adapter frame even
+					// though the coro has already been suspended. 
 					void await_suspend(std::coroutine_handle<P>)
 					{
-						auto ll = frame->frame_adapter_storage;
 						// resume our own coro
 						auto h = (*frame)(static_cast<FrameBase<promise_type>*>(frame));
 						assert(h);
 						h.resume();
 					}
-					//std::coroutine_handle<> await_suspend(std::coroutine_handle<P>)
-					//{
-						//// resume our own coro
-						//auto h = (*frame)(static_cast<FrameBase<promise_type>*>(frame));
-						//assert(h);
-
-						//// Ideally we would perform sysmetric transfer here but there is
-						//// a compiler bug in MSVC. Doing anothing but returning here may cause
-						////  ASAN error on MSVC. See 
-						//// https://developercommunity.visualstudio.com/mTask/c20-coroutine-resume-thread-safety/1668687?entry=myfeedback&space=62&ref=native&refTime=1645079575781&refUserId=36961f1e-1836-4f6a-af82-ffcfa64d75a3&viewtype=all
-						//// In particular, the adpater might have already been destroyed
-						//// and MSVC for some unknown reason updates the adapter frame even
-						//// though the coro has already been suspended. 
-						//return h.std_cast();
-
-						//// we have to perform the symmetric transfer loop here for
-						//// macoro coroutines since we can only return std::coroutine_handle<>.
-						//while (h != noop_coroutine() && h.is_std() == false)
-						//{
-						//	auto realAddr = reinterpret_cast<FrameBase<void>*>((std::size_t)h.address() ^ 1);
-						//	auto _address = realAddr->resume(realAddr).address();
-						//	h = coroutine_handle<void>::from_address(_address);
-						//}
-
-						//// we either have a std coro or a noop. We can
-						//// have the std perform symmetric transfer on that. 
-						//return h.std_cast();
-					//}
+#else
+					std::coroutine_handle<> await_suspend(std::coroutine_handle<P>)
+					{
+						return run(frame);
+					}
+
+					// resume our own coro. This might destroy the adapter, therefore
+					// nothing here can live in its frame.
+					__attribute__((noinline)) static std::coroutine_handle<> run(Frame* f)
+					{
+						coroutine_handle<> h = (*f)(static_cast<FrameBase<promise_type>*>(f));
+						assert(h);
+
+						// we have to perform the symmetric transfer loop here for
+						// macoro coroutines since we can only return std::coroutine_handle<>.
+						while (h != noop_coroutine() && h.is_std() == false)
+						{
+							auto realAddr = reinterpret_cast<FrameBase<void>*>((std::size_t)h.address() ^ 1);
+							h = realAddr->resume(realAddr);
+							assert(h);
+						}
+
+						// we either have a std coro or a noop. We can
+						// have the std perform symmetric transfer on that. 
+						return h.std_cast();
+					}
+#endif
 
 					void await_resume() {}
 				};
-- 
2.43.0


From b03766dd022d5b64101090400cd94a2d4e4265aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 24/39] fix: awaiting an empty scoped_task throws
 broken_promise instead of dereferencing null

await_resume throws broken_promise when there is no coroutine, but the
awaiter was never ready, so await_suspend used the null handle first and
the destructor destroyed it.
---
 macoro/detail/scoped_task_promise.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index b53e25b..e10eeac 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -334,7 +334,8 @@ namespace macoro
 
 			coroutine_handle<promise_type> m_coroutine;
 
-			bool await_ready() const noexcept { return false; }
+			// an empty scoped_task is ready, await_resume will throw broken_promise.
+			bool await_ready() const noexcept { return !m_coroutine; }
 
 			scoped_task_awaiter(coroutine_handle<promise_type> c)
 				:m_coroutine(c)
@@ -342,8 +343,8 @@ namespace macoro
 
 			~scoped_task_awaiter()
 			{
-				assert(m_coroutine);
-				m_coroutine.destroy();
+				if (m_coroutine)
+					m_coroutine.destroy();
 			}
 
 #ifdef MACORO_CPP_20
-- 
2.43.0


From 28172baa6bf5e6522a52ea47ba5eff492929af6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 25/39] fix: a type erased noop handle answers done() and
 ignores destroy()

---
 macoro/coro_frame.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index b47a831..0adf7ad 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -844,6 +844,9 @@ namespace macoro
 
 	inline bool _macoro_coro_done(void* _address)noexcept
 	{
+		// a type erased noop coroutine has no frame.
+		if (_address == noop_coroutine().address())
+			return false;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
@@ -943,6 +946,9 @@ namespace macoro
 
 	inline void _macoro_coro_destroy(void* _address)noexcept
 	{
+		// a type erased noop coroutine has no frame.
+		if (_address == noop_coroutine().address())
+			return;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
-- 
2.43.0


From f79b092047fcfd68818ae3e48ccd16b6191314f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 26/39] fix: destroying a macro coroutine through its std
 handle frees the adapter once

---
 macoro/coro_frame.h | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 0adf7ad..9cc137d 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -554,8 +554,6 @@ namespace macoro
 
 		//using inline_storage_adapter = std::aligned_storage_t<400, alignof(std::max_align_t)>;
 		//inline_storage_adapter frame_adapter_storage;
-		std::shared_ptr<char> frame_adapter_storage;
-
 		using outter_promise_type = promise_type;
 		struct std_handle_adapter
 		{
@@ -576,23 +574,18 @@ namespace macoro
 
 				std_handle_adapter get_return_object() { return { this }; }
 
+				// the adapter which owns this coroutine.
+				std_handle_adapter* owner = nullptr;
+
 				~promise_type()
 				{
 					if (outer_handle)
+					{
+						// we are the one being destroyed. The outer frame
+						// must not destroy us a second time.
+						owner->promise = nullptr;
 						outer_handle.destroy();
-				}
-
-				template<typename TT>
-				void* operator new(std::size_t size, TT& base)
-				{
-					assert(base.frame_adapter_storage == nullptr);
-					base.frame_adapter_storage =
-						std::shared_ptr<char>(new char[size], std::default_delete<char[]>());
-					return base.frame_adapter_storage.get();
-				}
-
-				void operator delete(void* ptr, std::size_t size)
-				{
+					}
 				}
 
 				void return_void() {}
@@ -602,7 +595,8 @@ namespace macoro
 
 			~std_handle_adapter()
 			{
-				std::coroutine_handle<promise_type>::from_promise(*promise).destroy();
+				if (promise)
+					std::coroutine_handle<promise_type>::from_promise(*promise).destroy();
 			}
 
 			promise_type* promise;
@@ -697,6 +691,7 @@ namespace macoro
 			;
 			auto outer_handle = coroutine_handle<promise_type>::from_promise(promise, coroutine_handle_type::macoro);
 			std_adapter.promise->outer_handle = outer_handle;
+			std_adapter.promise->owner = &std_adapter;
 			std_handle = std::coroutine_handle<typename std_handle_adapter::promise_type>::from_promise(*std_adapter.promise);
 #endif
 		}
@@ -707,7 +702,8 @@ namespace macoro
 			// For when std_adapter isn'mTask the one who called our destructor,
 			// prevent it from calling it recursively by setting the handle
 			// back to this frame to null.
-			std_adapter.promise->outer_handle = std::nullptr_t{};
+			if (std_adapter.promise)
+				std_adapter.promise->outer_handle = std::nullptr_t{};
 		}
 	private:
 
-- 
2.43.0


From 0a7aa8d363b3b33313ef7aaca16e66024f56a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:26 +0000
Subject: [PATCH 27/39] fix: a wrapped await passes its location on to the
 awaiter

---
 macoro/wrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/wrap.h b/macoro/wrap.h
index 21028c6..957409f 100644
--- a/macoro/wrap.h
+++ b/macoro/wrap.h
@@ -32,7 +32,7 @@ namespace macoro
 			template<typename Handle>
 			auto await_suspend(Handle h)
 			{
-				if constexpr (requires(awaiter_storage m_awaiter) { { m_awaiter.await_suspend(h, m_loc) } -> std::convertible_to<int>; })
+				if constexpr (requires { m_awaiter.await_suspend(h, m_loc); })
 				{
 					return m_awaiter.await_suspend(h, m_loc);
 				}
-- 
2.43.0


From a9ebe07319b7ad21d29bc364b33f76e12cd05a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 28/39] fix: traces of void children continue through
 when_all_ready

---
 macoro/detail/when_all_task.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/macoro/detail/when_all_task.h b/macoro/detail/when_all_task.h
index a30b974..d06746e 100644
--- a/macoro/detail/when_all_task.h
+++ b/macoro/detail/when_all_task.h
@@ -222,6 +222,11 @@ namespace macoro
 
 			//private:
 
+			traceable* get_traceable()
+			{
+				return m_awaitable;
+			}
+
 			when_all_ready_awaitable_base* m_awaitable;
 			coroutine_handle_type m_type;
 			//when_all_counter* m_counter;
-- 
2.43.0


From 33d1a239d88ee6dd30e269569022f9e9b04604d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 29/39] fix: a worker waits for a copy of the deadline, not for
 a reference into the heap of delays

---
 macoro/thread_pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index f803eeb..d383fe4 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -414,7 +414,9 @@ namespace macoro
 
                         if (state->mDelayHeap.size())
                         {
-                            state->mCondition.wait_until(lock, state->mDelayHeap.front().deadline);
+                            // a copy, the heap can be reallocated while we wait.
+                            auto deadline = state->mDelayHeap.front().deadline;
+                            state->mCondition.wait_until(lock, deadline);
                         }
                         else
                         {
-- 
2.43.0


From 7a65a0330b4856f652c7c7f9d42d08742aad0bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 30/39] fix: a delay beyond the range of the clock is never
 over, instead of at once

---
 macoro/thread_pool.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index d383fe4..18e875c 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -327,7 +327,15 @@ namespace macoro
             std::chrono::duration<Rep, Per> delay,
             stop_token token = {})
         {
-            return { mState.get(), delay + clock::now(), std::move(token) };
+            // a delay that is out of the clock's range, e.g. duration::max(), is 
+            // never over.
+            using seconds = std::chrono::duration<long double>;
+            auto now = clock::now();
+            auto deadline = clock::time_point::max();
+            if (seconds(delay) < seconds(deadline - now))
+                deadline = now + delay;
+
+            return { mState.get(), deadline, std::move(token) };
         }
 
         work make_work() {
-- 
2.43.0


From bea8c3dbd1de3bdae7e8676258f798f3a0a17d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 31/39] fix: the single-producer ring with 8 or 16 bit sequence
 numbers claimed slots still in use when they wrapped

---
 macoro/sequence_spsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_spsc.h b/macoro/sequence_spsc.h
index e282cf6..608f545 100644
--- a/macoro/sequence_spsc.h
+++ b/macoro/sequence_spsc.h
@@ -242,7 +242,7 @@ namespace macoro
 			const SEQUENCE lastAvailableSequence =
 				static_cast<SEQUENCE>(m_consumerWaitOperation.await_resume() + m_sequencer.m_bufferSize);
 			const SEQUENCE begin = m_sequencer.m_nextToClaim;
-			const std::size_t availableCount = static_cast<std::size_t>(lastAvailableSequence - begin) + 1;
+			const std::size_t availableCount = static_cast<std::size_t>(TRAITS::difference(lastAvailableSequence, begin)) + 1;
 			const std::size_t countToClaim = std::min(m_count, availableCount);
 			const SEQUENCE end = static_cast<SEQUENCE>(begin + countToClaim);
 			m_sequencer.m_nextToClaim = end;
-- 
2.43.0


From d8919f6ed8fdc4622f5c6a3c0bbdd60c4c1543cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 32/39] fix: the multi-producer ring with narrow sequence
 numbers: waiters missed publishes that wrapped, and ranges did not compile

---
 macoro/sequence_mpsc.h  | 4 ++--
 macoro/sequence_range.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 7242368..917e17e 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -240,7 +240,7 @@ namespace macoro
 			return sequence_mpsc_claim_awaiter<SEQUENCE, TRAITS>{
 				m_sequencer.m_consumerBarrier,
 				m_sequencer.buffer_size(),
-				sequence_range<SEQUENCE, TRAITS>{ first, first + m_count }
+				sequence_range<SEQUENCE, TRAITS>{ first, static_cast<SEQUENCE>(first + m_count) }
 			};
 		}
 
@@ -671,7 +671,7 @@ namespace macoro
 			//
 			// TODO: Check whether we can weaken the memory order here to just use 'seq_cst' on the
 			// first .load() and then use 'acquire' on subsequent .load().
-			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == (lastKnownPublished + 1))
+			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == static_cast<SEQUENCE>(lastKnownPublished + 1))
 			{
 				++lastKnownPublished;
 			}
diff --git a/macoro/sequence_range.h b/macoro/sequence_range.h
index 8b4fd5e..b6eb583 100644
--- a/macoro/sequence_range.h
+++ b/macoro/sequence_range.h
@@ -92,7 +92,7 @@ namespace macoro
 
 		constexpr sequence_range skip(size_type count) const noexcept
 		{
-			return sequence_range{ m_begin + std::min(size(), count), m_end };
+			return sequence_range{ static_cast<SEQUENCE>(m_begin + std::min(size(), count)), m_end };
 		}
 
 	private:
-- 
2.43.0


From ca5823c40e0e58131440df0aa0f2e3108db13b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 33/39] fix: reading or comparing a const result recursed
 forever, and comparing with != did not compile

---
 macoro/result.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index 8afac5f..a14fdd7 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -327,7 +327,7 @@ namespace macoro
 			if (has_error())
 				result_rethrow(error());
 
-			return value();
+			return MACORO_VARIANT_NAMESPACE::get<0>(var());
 		}
 
 		const value_type& operator*() const { return value(); }
@@ -445,24 +445,24 @@ namespace macoro
 		template<typename T2>
 		bool operator!=(detail::OkTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename T2>
 		bool operator!=(detail::OkMvTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 
@@ -600,12 +600,12 @@ namespace macoro
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		detail::result_awaiter<void, Error> MACORO_OPERATOR_COAWAIT()
-- 
2.43.0


From d2ffed65449d10a8f9376ecb7aa11396d16b42a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:05 +0000
Subject: [PATCH 34/39] fix: a task that failed after returning its value (a
 local's destructor threw) never destroyed the value

---
 macoro/task.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macoro/task.h b/macoro/task.h
index 1947166..8f6370c 100644
--- a/macoro/task.h
+++ b/macoro/task.h
@@ -247,6 +247,10 @@ namespace macoro
 
 			void unhandled_exception() noexcept
 			{
+				// a local that throws when it is destroyed does so after the value was returned.
+				if (m_resultType == result_type::value)
+					m_value.~T();
+
 				::new (static_cast<void*>(std::addressof(m_exception))) std::exception_ptr(
 					std::current_exception());
 				m_resultType = result_type::exception;
-- 
2.43.0


From b3b0a3add05810c42c9467ffc9832d50387e54bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 35/39] fix: assigning a blocking_task to itself destroyed it
 and kept a dangling handle

---
 macoro/sync_wait.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macoro/sync_wait.h b/macoro/sync_wait.h
index 2c48cbf..842f4e1 100644
--- a/macoro/sync_wait.h
+++ b/macoro/sync_wait.h
@@ -155,6 +155,8 @@ namespace macoro
 			: m_handle(std::exchange(other.m_handle, nullptr))
 		{}
 		blocking_task& operator=(blocking_task&& h) {
+			if (this == std::addressof(h))
+				return *this;
 			this->~blocking_task();
 			m_handle = std::exchange(h.m_handle, std::nullptr_t{});
 			return *this;
-- 
2.43.0


From 665da61fe9da4e3197c8fcb204f191bd93347270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 36/39] fix: channel operations took their slot when they were
 created rather than awaited: one that was dropped blocked the receiver, ones
 prepared ahead overran the ring or saw a phantom close

---
 macoro/channel.h | 98 ++++++++++++++++++++++++++----------------------
 1 file changed, 54 insertions(+), 44 deletions(-)

diff --git a/macoro/channel.h b/macoro/channel.h
index cd6d6d7..0e25cdc 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -172,30 +172,33 @@ namespace macoro
             struct push_awaitable
             {
                 using inner = decltype(mSequence.claim_one().MACORO_OPERATOR_COAWAIT());
-                inner mInner;
+                optional<inner> mInner;
                 channel* mChl;
                 T mT;
-                push_awaitable(inner&& in, channel* chl, T&& t)
-                    : mInner(std::move(in))
-                    , mChl(chl)
+                push_awaitable(channel* chl, T&& t)
+                    : mChl(chl)
                     , mT(std::forward<T>(t))
                 {}
 
-                bool await_ready() { return mInner.await_ready(); }
+                // the slot is claimed once the push is awaited.
+                bool await_ready() {
+                    mInner.emplace(mChl->mSequence.claim_one().MACORO_OPERATOR_COAWAIT());
+                    return mInner->await_ready();
+                }
 
                 auto await_suspend(coroutine_handle<> h) {
-                    return mInner.await_suspend(h);
+                    return mInner->await_suspend(h);
                 }
                 auto await_suspend(std::coroutine_handle<> h) {
-                    return mInner.await_suspend(coroutine_handle<>(h));
+                    return mInner->await_suspend(coroutine_handle<>(h));
                 }
                 auto await_resume() {
-                    auto idx = mInner.await_resume();
+                    auto idx = mInner->await_resume();
                     mChl->mData[idx & mChl->mIndexMask].emplace(std::forward<T>(mT));
                     mChl->mSequence.publish(idx);
                 }
             };
-            return push_awaitable(mSequence.claim_one().MACORO_OPERATOR_COAWAIT(), this, std::forward<T>(t));
+            return push_awaitable(this, std::forward<T>(t));
         }
 
         // Request a position in the queue. Once awaited, the caller can assign to the
@@ -206,29 +209,32 @@ namespace macoro
             struct push_awaitable
             {
                 using inner = decltype(mSequence.claim_one().MACORO_OPERATOR_COAWAIT());
-                inner mInner;
+                optional<inner> mInner;
                 channel* mChl;
 
-                push_awaitable(inner&& in, channel* chl)
-                    : mInner(std::move(in))
-                    , mChl(chl)
+                push_awaitable(channel* chl)
+                    : mChl(chl)
                 {}
 
-                bool await_ready() { return mInner.await_ready(); }
+                // the slot is claimed once the push is awaited.
+                bool await_ready() {
+                    mInner.emplace(mChl->mSequence.claim_one().MACORO_OPERATOR_COAWAIT());
+                    return mInner->await_ready();
+                }
 
                 auto await_suspend(coroutine_handle<> h) {
-                    return mInner.await_suspend(h);
+                    return mInner->await_suspend(h);
                 }
                 auto await_suspend(std::coroutine_handle<> h) {
-                    return mInner.await_suspend(coroutine_handle<>(h));
+                    return mInner->await_suspend(coroutine_handle<>(h));
                 }
                 auto await_resume() {
-                    auto idx = mInner.await_resume();
+                    auto idx = mInner->await_resume();
                     return push_wrapper(mChl, idx);
                 }
             };
 
-            return push_awaitable(mSequence.claim_one().MACORO_OPERATOR_COAWAIT(), this);
+            return push_awaitable(this);
         }
 
 
@@ -240,48 +246,54 @@ namespace macoro
             struct close_awaitable
             {
                 using inner = decltype(mSequence.claim_one().MACORO_OPERATOR_COAWAIT());
-                inner mInner;
+                optional<inner> mInner;
                 channel* mChl;
 
-                close_awaitable(inner&& in, channel* chl)
-                    : mInner(std::move(in))
-                    , mChl(chl)
+                close_awaitable(channel* chl)
+                    : mChl(chl)
                 {}
 
-                bool await_ready() { return mInner.await_ready(); }
+                // the slot is claimed once the close is awaited.
+                bool await_ready() {
+                    mInner.emplace(mChl->mSequence.claim_one().MACORO_OPERATOR_COAWAIT());
+                    return mInner->await_ready();
+                }
 
                 auto await_suspend(coroutine_handle<> h) {
-                    return mInner.await_suspend(h);
+                    return mInner->await_suspend(h);
                 }
                 auto await_suspend(std::coroutine_handle<> h) {
-                    return mInner.await_suspend(coroutine_handle<>(h));
+                    return mInner->await_suspend(coroutine_handle<>(h));
                 }
                 auto await_resume() {
-                    auto idx = mInner.await_resume();
+                    auto idx = mInner->await_resume();
                     mChl->mSequence.publish(idx);
                 }
             };
 
-            return close_awaitable(mSequence.claim_one().MACORO_OPERATOR_COAWAIT(), this);
+            return close_awaitable(this);
         }
 
         struct front_awaitable_base
         {
             using inner = decltype(mSequence.wait_until_published(mFrontIndex, mLastKnown));
-            inner mInner;
+            optional<inner> mInner;
             channel* mChl;
-            front_awaitable_base(inner&& in, channel* c)
-                : mInner(std::move(in))
-                , mChl(c)
+            front_awaitable_base(channel* c)
+                : mChl(c)
             {}
 
-            bool await_ready() { return mInner.await_ready(); }
+            // which item is the front is known once it is awaited.
+            bool await_ready() {
+                mInner.emplace(mChl->mSequence.wait_until_published(mChl->mFrontIndex, mChl->mLastKnown));
+                return mInner->await_ready();
+            }
 
             auto await_suspend(coroutine_handle<> h) {
-                return mInner.await_suspend(h);
+                return mInner->await_suspend(h);
             }
             auto await_suspend(std::coroutine_handle<> h) {
-                return mInner.await_suspend(coroutine_handle<>(h));
+                return mInner->await_suspend(coroutine_handle<>(h));
             }
         };
 
@@ -291,13 +303,12 @@ namespace macoro
         {
             struct front_awaitable : public front_awaitable_base
             {
-                using inner = typename front_awaitable_base::inner;
-                front_awaitable(inner&& in, channel* c)
-                    :front_awaitable_base(std::forward<inner>(in), c)
+                front_awaitable(channel* c)
+                    :front_awaitable_base(c)
                 {}
 
                 auto& await_resume() {
-                    this->mChl->mLastKnown = this->mInner.await_resume();
+                    this->mChl->mLastKnown = this->mInner->await_resume();
                     assert(this->mChl->mLastKnown >= this->mChl->mFrontIndex);
                     auto& slot = this->mChl->mData[this->mChl->mFrontIndex & this->mChl->mIndexMask];
                     if (!slot)
@@ -306,7 +317,7 @@ namespace macoro
                 }
             };
 
-            return front_awaitable(mSequence.wait_until_published(mFrontIndex, mLastKnown), this);
+            return front_awaitable(this);
         }
 
         // Pop the front item off of the channel. The result of this
@@ -315,14 +326,13 @@ namespace macoro
         {
             struct pop_awaitable : public front_awaitable_base
             {
-                using inner = typename front_awaitable_base::inner;
-                pop_awaitable(inner&& in, channel* c)
-                    :front_awaitable_base(std::forward<inner>(in), c)
+                pop_awaitable(channel* c)
+                    :front_awaitable_base(c)
                 {}
 
 
                 pop_wrapper await_resume() {
-                    this->mChl->mLastKnown = this->mInner.await_resume();
+                    this->mChl->mLastKnown = this->mInner->await_resume();
                     assert(this->mChl->mLastKnown >= this->mChl->mFrontIndex);
                     if (!this->mChl->mData[this->mChl->mFrontIndex & this->mChl->mIndexMask])
                         throw channel_closed_exception{};
@@ -330,7 +340,7 @@ namespace macoro
                 }
             };
 
-            return pop_awaitable(mSequence.wait_until_published(mFrontIndex, mLastKnown), this);
+            return pop_awaitable(this);
         }
     public:
     };
-- 
2.43.0


From 729050cf8b4aca01a8ff88182770baeded0ff0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 37/39] fix: a claim_up_to() of a single-producer ring that was
 prepared before other claims were made overran the ring or returned an empty
 range

---
 macoro/sequence_spsc.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/macoro/sequence_spsc.h b/macoro/sequence_spsc.h
index 608f545..f679e90 100644
--- a/macoro/sequence_spsc.h
+++ b/macoro/sequence_spsc.h
@@ -5,6 +5,7 @@
 #pragma once
 
 #include "macoro/config.h"
+#include "macoro/optional.h"
 #include "macoro/sequence_barrier.h"
 #include "macoro/sequence_range.h"
 
@@ -214,16 +215,17 @@ namespace macoro
 		explicit sequence_spsc_claim_operation(
 			sequence_spsc<SEQUENCE, TRAITS>& sequencer,
 			std::size_t count) noexcept
-			: m_consumerWaitOperation(
-				sequencer.m_consumerBarrier,
-				static_cast<SEQUENCE>(sequencer.m_nextToClaim - sequencer.m_bufferSize))
-			, m_sequencer(sequencer)
+			: m_sequencer(sequencer)
 			, m_count(count)
 		{}
 
-		bool await_ready() const noexcept
+		bool await_ready() noexcept
 		{
-			return m_consumerWaitOperation.await_ready();
+			// what is next to claim is known once this is awaited.
+			m_consumerWaitOperation.emplace(
+				m_sequencer.m_consumerBarrier,
+				static_cast<SEQUENCE>(m_sequencer.m_nextToClaim - m_sequencer.m_bufferSize));
+			return m_consumerWaitOperation->await_ready();
 		}
 
 #ifdef MACORO_CPP_20
@@ -234,13 +236,13 @@ namespace macoro
 #endif
 		auto await_suspend(coroutine_handle<> awaitingCoroutine) noexcept
 		{
-			return m_consumerWaitOperation.await_suspend(awaitingCoroutine);
+			return m_consumerWaitOperation->await_suspend(awaitingCoroutine);
 		}
 
 		sequence_range<SEQUENCE, TRAITS> await_resume() noexcept
 		{
 			const SEQUENCE lastAvailableSequence =
-				static_cast<SEQUENCE>(m_consumerWaitOperation.await_resume() + m_sequencer.m_bufferSize);
+				static_cast<SEQUENCE>(m_consumerWaitOperation->await_resume() + m_sequencer.m_bufferSize);
 			const SEQUENCE begin = m_sequencer.m_nextToClaim;
 			const std::size_t availableCount = static_cast<std::size_t>(TRAITS::difference(lastAvailableSequence, begin)) + 1;
 			const std::size_t countToClaim = std::min(m_count, availableCount);
@@ -251,7 +253,7 @@ namespace macoro
 
 	private:
 
-		sequence_barrier_wait_operation_base<SEQUENCE, TRAITS> m_consumerWaitOperation;
+		optional<sequence_barrier_wait_operation_base<SEQUENCE, TRAITS>> m_consumerWaitOperation;
 		sequence_spsc<SEQUENCE, TRAITS>& m_sequencer;
 		std::size_t m_count;
 
-- 
2.43.0


From 4be960e20fccfada8a5c901cf112d9f401a8d651 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:26:28 +0000
Subject: [PATCH 38/39] fix: Ok() and Err() moved from an lvalue, so that a
 wrapped await of a task that was lent, or of a reference, took the value away

---
 macoro/result.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index a14fdd7..441685c 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -19,7 +19,7 @@ namespace macoro
 		struct OkTag {
 			const T& mV;
 
-			OkTag(T& e)
+			OkTag(const T& e)
 				:mV(e)
 			{}
 
@@ -53,7 +53,7 @@ namespace macoro
 		struct ErrorTag {
 			const E& mE;
 
-			ErrorTag(E& e)
+			ErrorTag(const E& e)
 				:mE(e)
 			{}
 
@@ -100,7 +100,8 @@ namespace macoro
 		return detail::ErrorTag<remove_cvref_t<T>>(t);
 	}
 
-	template<typename T>
+	// only for rvalues, an lvalue is copied.
+	template<typename T, typename = enable_if_t<!std::is_lvalue_reference<T>::value>>
 	detail::ErrorMvTag<remove_cvref_t<T>> Err(T&& t)
 	{
 		return detail::ErrorMvTag<remove_cvref_t<T>>(t);
@@ -118,7 +119,8 @@ namespace macoro
 		return detail::OkTag<remove_cvref_t<T>>(t);
 	}
 
-	template<typename T>
+	// only for rvalues, an lvalue is copied.
+	template<typename T, typename = enable_if_t<!std::is_lvalue_reference<T>::value>>
 	detail::OkMvTag<remove_cvref_t<T>> Ok(T&& t)
 	{
 		return detail::OkMvTag<remove_cvref_t<T>>(t);
-- 
2.43.0


From dace853a876b3774ac97af7ec978c3c87b2312ab Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:26:28 +0000
Subject: [PATCH 39/39] fix: scoped_task::is_ready() did not acquire what the
 task wrote

---
 macoro/async_scope.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index 27b0593..65a4dc6 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -51,7 +51,7 @@ namespace macoro
 		{
 			if (m_coroutine)
 			{
-				auto v = m_coroutine.promise().m_completion_state.load(std::memory_order_relaxed);
+				auto v = m_coroutine.promise().m_completion_state.load(std::memory_order_acquire);
 				return v & (unsigned char)promise_type::completion_state::has_completed;
 			}
 			return false;
-- 
2.43.0

