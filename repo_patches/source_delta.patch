From 37553e975629395d1fdd279b7ba6deb8b2cb5a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 01/46] fix: multi_consumer_auto_reset_event awaiter could drop
 queued waiters or queue itself on a set event

When consuming the signal in await_suspend failed, 'continue' jumped to the
loop condition instead of the loop start and pushed the awaiter without
looking at the new state: with other waiters queued in between they were cut
off the list and never resumed, and after a spurious failure the awaiter
replaced the pending signal.
---
 include/asyncpp/event.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index e6092e3..f82f855 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -565,9 +565,9 @@ namespace asyncpp {
 			[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) noexcept {
 				m_handle = hdl;
 				void* old_state = m_parent->m_state.load(std::memory_order::acquire);
-				do {
-					// If the event is set, reset it and resume the coroutine
+				while (true) {
 					if (old_state == m_parent) {
+						// If the event is set, reset it and resume the coroutine
 						if (m_parent->m_state.compare_exchange_weak( //
 								old_state, nullptr, std::memory_order::release, std::memory_order::acquire))
 							return false;
@@ -577,8 +577,10 @@ namespace asyncpp {
 					}
 					// The event is unset, add the existing awaiter (if any) to the list and suspend the coroutine
 					m_next = static_cast<awaiter*>(old_state);
-				} while (!m_parent->m_state.compare_exchange_weak( //
-					old_state, this, std::memory_order::release, std::memory_order::acquire));
+					if (m_parent->m_state.compare_exchange_weak( //
+							old_state, this, std::memory_order::release, std::memory_order::acquire))
+						break;
+				}
 				return true;
 			}
 			constexpr void await_resume() const noexcept {}
-- 
2.43.0


From 613e44c89dd602d680a7c7ccd7c98c6055921b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 02/46] fix: multi_consumer_auto_reset_event consumed signals
 and waiters without acquire

An await that takes the signal has to see what happened before set(), and
set() has to see the awaiter records it takes.
---
 include/asyncpp/event.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index f82f855..e09a250 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -489,7 +489,7 @@ namespace asyncpp {
 				await = static_cast<awaiter*>(old_state);
 				// if the event had awaiters we update the state to "unset", if it was previously unset we transition to set
 				new_state = (old_state == nullptr) ? this : nullptr;
-			} while (!m_state.compare_exchange_weak(old_state, new_state, std::memory_order::release,
+			} while (!m_state.compare_exchange_weak(old_state, new_state, std::memory_order::acq_rel,
 													std::memory_order::acquire));
 
 			// Execute the awaiters (if any)
@@ -560,7 +560,7 @@ namespace asyncpp {
 				//       because in that case we just enter the main loop in await_suspend
 				// Returns true if the value was updated (i.e. old_state equalled m_parent and cas succeeded)
 				return m_parent->m_state.compare_exchange_weak( //
-					old_state, nullptr, std::memory_order::release, std::memory_order::acquire);
+					old_state, nullptr, std::memory_order::acquire, std::memory_order::acquire);
 			}
 			[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) noexcept {
 				m_handle = hdl;
@@ -569,7 +569,7 @@ namespace asyncpp {
 					if (old_state == m_parent) {
 						// If the event is set, reset it and resume the coroutine
 						if (m_parent->m_state.compare_exchange_weak( //
-								old_state, nullptr, std::memory_order::release, std::memory_order::acquire))
+								old_state, nullptr, std::memory_order::acquire, std::memory_order::acquire))
 							return false;
 						// the state changed between load and compare (either because another coroutine was faster or the event was reset).
 						// Retry from the start
-- 
2.43.0


From 9388435ae14a815d687e64046c1a194445e792ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 03/46] fix: multi_consumer_event::set reported a waiter when
 there was none

---
 include/asyncpp/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index e09a250..4dc7e2b 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -339,7 +339,7 @@ namespace asyncpp {
          */
 		bool set(dispatcher* resume_dispatcher = nullptr) noexcept {
 			auto state = m_state.exchange(this, std::memory_order::acq_rel);
-			if (state == this) return false;
+			if (state == this || state == nullptr) return false;
 			auto await = static_cast<awaiter*>(state);
 			while (await != nullptr) {
 				auto next = await->m_next;
-- 
2.43.0


From 644e9e362ac6fa261126bbe8e00faa4925e6659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 04/46] fix: latch never became ready when its counter reached
 zero

fetch_sub returns the old value, so the decrement that reaches zero sees n.
---
 include/asyncpp/latch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/latch.h b/include/asyncpp/latch.h
index 2099ddd..b8fe44e 100644
--- a/include/asyncpp/latch.h
+++ b/include/asyncpp/latch.h
@@ -39,7 +39,7 @@ namespace asyncpp {
          * \note It is undefined if the sum of all decrement calls exceeds the counter value.
          */
 		void decrement(std::size_t n = 1) noexcept {
-			if (m_count.fetch_sub(n, std::memory_order::acq_rel) == 0) { m_event.set(); }
+			if (m_count.fetch_sub(n, std::memory_order::acq_rel) == n) { m_event.set(); }
 		}
 
 		/**
-- 
2.43.0


From 5d5187cead17bea64e9b32e0d410f55cc38b83a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 05/46] fix: thread_safe_refcount destroyed the object without
 acquiring earlier releases

---
 include/asyncpp/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 6ca7a8a..626606d 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -31,7 +31,7 @@ namespace asyncpp {
 		thread_safe_refcount& operator=(const thread_safe_refcount& other) = delete;
 
 		size_t fetch_increment() noexcept { return m_count.fetch_add(1, std::memory_order::acquire); }
-		[[nodiscard]] size_t fetch_decrement() noexcept { return m_count.fetch_sub(1, std::memory_order::release); }
+		[[nodiscard]] size_t fetch_decrement() noexcept { return m_count.fetch_sub(1, std::memory_order::acq_rel); }
 		[[nodiscard]] size_t count() const noexcept { return m_count.load(std::memory_order::relaxed); }
 	};
 	/**
-- 
2.43.0


From 1e8af6d15d6e094161e3783b25ce00bbaa6d558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 06/46] fix: ref assignment and reset could drop the last count
 of the object being assigned

---
 include/asyncpp/ref.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 626606d..5ed3b05 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -169,8 +169,7 @@ namespace asyncpp {
 		/// \brief Move assignment operator
 		//NOLINTNEXTLINE(hicpp-noexcept-move,performance-noexcept-move-constructor)
 		ref& operator=(ref&& other) noexcept(noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = std::exchange(other.m_ptr, nullptr);
+			reset(std::exchange(other.m_ptr, nullptr), adopt_ref);
 			return *this;
 		}
 		/**
@@ -180,9 +179,8 @@ namespace asyncpp {
 		 */
 		void reset(T* ptr) noexcept(noexcept(refcounted_add_ref(std::declval<T*>())) &&
 									noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = ptr;
-			if (m_ptr) refcounted_add_ref(m_ptr);
+			if (ptr) refcounted_add_ref(ptr);
+			reset(ptr, adopt_ref);
 		}
 		/**
 		 * \brief Reset the handle with a new value
@@ -190,8 +188,8 @@ namespace asyncpp {
 		 * \param adopt_ref the reference count is already incremented, keep it as is
 		 */
 		void reset(T* ptr, decltype(adopt_ref)) noexcept(noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = ptr;
+			auto old = std::exchange(m_ptr, ptr);
+			if (old) refcounted_remove_ref(old);
 		}
 		/**
 		 * \brief Reset the handle to nullptr
-- 
2.43.0


From 03aa7c09e2148e62cf365455f011f1113f978f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 07/46] fix: atomic_ref::exchange leaked the reference it
 rejected

---
 include/asyncpp/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 5ed3b05..eadeb53 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -373,8 +373,8 @@ namespace asyncpp {
 		 * \throw std::logic_error if the pointer value collides with the lock_mask
 		 */
 		ref<T> exchange(ref<T> hdl) {
+			if ((reinterpret_cast<uintptr_t>(hdl.get()) & lock_mask) != 0) throw std::logic_error("invalid pointer");
 			auto ptr = hdl.release();
-			if ((reinterpret_cast<uintptr_t>(ptr) & lock_mask) != 0) throw std::logic_error("invalid pointer");
 
 			// Lock the current pointer value
 			auto val = lock();
-- 
2.43.0


From 1bff9a1dfcdb4048505a3afdfc6e5b9e16d0da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 08/46] fix: atomic_ref could not be instantiated for two types
 in one translation unit

---
 include/asyncpp/ref.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index eadeb53..629163d 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -235,18 +235,15 @@ namespace asyncpp {
 	template<RefCountable T>
 	class atomic_ref {
 		friend struct std::hash<asyncpp::atomic_ref<T>>;
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const atomic_ref<T2>& lhs, const atomic_ref<T2>& rhs) noexcept {
-			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T2>::lock_mask) <=>
-				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T2>::lock_mask);
+		friend constexpr auto operator<=>(const atomic_ref<T>& lhs, const atomic_ref<T>& rhs) noexcept {
+			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask) <=>
+				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask);
 		}
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const atomic_ref<T2>& lhs, const T2* rhs) noexcept {
+		friend constexpr auto operator<=>(const atomic_ref<T>& lhs, const T* rhs) noexcept {
 			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask) <=>
 				   reinterpret_cast<uintptr_t>(rhs);
 		}
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const T2* lhs, const atomic_ref<T2>& rhs) noexcept {
+		friend constexpr auto operator<=>(const T* lhs, const atomic_ref<T>& rhs) noexcept {
 			return reinterpret_cast<uintptr_t>(lhs) <=>
 				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask);
 		}
-- 
2.43.0


From 1625ca629b2e8f788a5c1c615e155756f308d699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:15 +0000
Subject: [PATCH 09/46] fix: threadsafe_queue could not be copied

---
 include/asyncpp/threadsafe_queue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/threadsafe_queue.h b/include/asyncpp/threadsafe_queue.h
index 3244203..c4a4093 100644
--- a/include/asyncpp/threadsafe_queue.h
+++ b/include/asyncpp/threadsafe_queue.h
@@ -3,6 +3,7 @@
 #include <mutex>
 #include <optional>
 #include <queue>
+#include <type_traits>
 #include <utility>
 
 namespace asyncpp {
@@ -14,7 +15,7 @@ namespace asyncpp {
 	 */
 	template<typename T, typename Container = std::deque<T>>
 	class threadsafe_queue {
-		std::mutex m_mutex{};
+		mutable std::mutex m_mutex{};
 		std::queue<T, Container> m_queue{};
 
 	public:
@@ -23,6 +24,7 @@ namespace asyncpp {
 		* \param args Arguments to forward to the container constructor
 		*/
 		template<typename... Args>
+			requires(!(std::is_same_v<std::remove_cvref_t<Args>, threadsafe_queue> || ...))
 		explicit threadsafe_queue(Args&&... args) : m_queue(std::forward<Args>(args)...) {}
 
 		threadsafe_queue(const threadsafe_queue& other) {
-- 
2.43.0


From ab6331f47e62d931f8649fc6a3bedc05b53714c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 10/46] fix: channel write handed directly to a waiting reader
 reported failure

---
 include/asyncpp/channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 6757539..41bbbda 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -281,6 +281,7 @@ namespace asyncpp {
 			lck.unlock();
 			// Copy the value over
 			rdr->m_result = std::move(m_value);
+			m_result = true;
 			// Resume reader
 			if (rdr->m_dispatcher != nullptr)
 				rdr->m_dispatcher->push([rdr]() { rdr->m_handle.resume(); });
-- 
2.43.0


From 4f5049a6e28d54657e328db1bc01b0ccef785a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 11/46] fix: channel reader racing with close waited forever

---
 include/asyncpp/channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 41bbbda..f679f45 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -229,6 +229,7 @@ namespace asyncpp {
 		m_handle = hndl;
 		m_next = nullptr;
 		std::unique_lock lck{m_parent->m_mtx};
+		if (m_parent->m_closed.load(std::memory_order::relaxed)) return false;
 		// Check if there is a writer waiting
 		if (auto wrt = m_parent->m_writer_list; wrt != nullptr) {
 			// Unhook writer
-- 
2.43.0


From 9eb84c29cf57049346df1bb98472bd132f50482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 12/46] fix: channel close resumed waiting coroutines with its
 lock held

---
 include/asyncpp/channel.h | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index f679f45..7f2a038 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -7,6 +7,7 @@
 #include <cassert>
 #include <mutex>
 #include <optional>
+#include <utility>
 
 namespace asyncpp {
 
@@ -191,30 +192,33 @@ namespace asyncpp {
 		if (m_closed.load(std::memory_order::relaxed)) return;
 		std::unique_lock lck{m_mtx};
 		if (!m_closed.exchange(true)) {
-			// This is the first close, so cancel all waiting awaiters
-			while (m_reader_list != nullptr) {
-				auto rdr = m_reader_list;
-				m_reader_list = rdr->m_next;
-				// We do not need to unlock, because all further attempts to access this
-				// cannel will get refused.
+			// This is the first close, so cancel all waiting awaiters. All further attempts to access this
+			// channel will get refused, so nothing is added to the lists anymore. Resuming runs arbitrary
+			// code, which must not happen with the lock held.
+			auto rdr = std::exchange(m_reader_list, nullptr);
+			auto wrt = std::exchange(m_writer_list, nullptr);
+			lck.unlock();
+			while (rdr != nullptr) {
+				// The reader is gone once it was resumed
+				auto next = rdr->m_next;
 				rdr->m_result.reset();
 				// Resume reader
 				if (rdr->m_dispatcher != nullptr)
 					rdr->m_dispatcher->push([rdr]() { rdr->m_handle.resume(); });
 				else
 					rdr->m_handle.resume();
+				rdr = next;
 			}
-			while (m_writer_list != nullptr) {
-				auto wrt = m_writer_list;
-				m_writer_list = wrt->m_next;
-				// We do not need to unlock, because all further attempts to access this
-				// cannel will get refused.
+			while (wrt != nullptr) {
+				// The writer is gone once it was resumed
+				auto next = wrt->m_next;
 				wrt->m_result = false;
-				// Resume reader
+				// Resume writer
 				if (wrt->m_dispatcher != nullptr)
 					wrt->m_dispatcher->push([wrt]() { wrt->m_handle.resume(); });
 				else
 					wrt->m_handle.resume();
+				wrt = next;
 			}
 		}
 	}
-- 
2.43.0


From c8feddc2b3ba6008e1ae94146c951470ff373e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:33 +0000
Subject: [PATCH 13/46] fix: queue self move assignment locked the same mutex
 twice

---
 include/asyncpp/queue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 547588d..d4176d7 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -171,6 +171,7 @@ namespace asyncpp {
 
 	template<typename T, typename TContainer>
 	inline queue<T, TContainer>& queue<T, TContainer>::operator=(queue&& other) noexcept {
+		if (&other == this) return *this;
 		pop_awaiter* old_pop = nullptr;
 		push_awaiter* old_push = nullptr;
 		{
-- 
2.43.0


From 7f476097b0cf6225c0f4b99f3fc28f66f5650a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:33 +0000
Subject: [PATCH 14/46] fix: queue try_emplace lost a waiting pop if the
 constructor threw

---
 include/asyncpp/queue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index d4176d7..09cbac0 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -250,11 +250,13 @@ namespace asyncpp {
 		if (m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
+			// Construct the value first: if that throws the task keeps waiting
+			T value{std::forward<Args>(args)...};
 			m_pop_list = awaiter->m_next;
 			// There should never be a task waiting in pop with a non empty queue
 			assert(m_queue.empty());
 			lck.unlock();
-			awaiter->resume(T{std::forward<Args>(args)...});
+			awaiter->resume(std::move(value));
 		} else {
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.emplace(std::forward<Args>(args)...);
-- 
2.43.0


From f4d4db4c3aecf89973e2e059091754e1909accd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 15/46] fix: simple_dispatcher::run missed a stop that came
 right before it waited

---
 include/asyncpp/simple_dispatcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index 9f51937..543a7ec 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -46,7 +46,8 @@ namespace asyncpp {
 			while (!m_done) {
 				std::unique_lock lck{m_mtx};
 				if (m_queue.empty()) {
-					m_cv.wait(lck);
+					// stop() might have been called before we got the lock
+					if (!m_done) m_cv.wait(lck);
 					continue;
 				}
 				auto cbfn = std::move(m_queue.front());
-- 
2.43.0


From 3efe6d5b3db84a2f7d71296c3187b50ae6be42f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:19 +0000
Subject: [PATCH 16/46] fix: simple_dispatcher::run left itself current when a
 callback threw

---
 include/asyncpp/simple_dispatcher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index 543a7ec..bb27030 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -1,5 +1,6 @@
 #pragma once
 #include <asyncpp/dispatcher.h>
+#include <asyncpp/scope_guard.h>
 
 #include <atomic>
 #include <condition_variable>
@@ -43,6 +44,8 @@ namespace asyncpp {
          */
 		void run() {
 			dispatcher* const old_dispatcher = dispatcher::current(this);
+			// Also restored if a callback throws
+			scope_guard restore{[old_dispatcher]() noexcept { dispatcher::current(old_dispatcher); }};
 			while (!m_done) {
 				std::unique_lock lck{m_mtx};
 				if (m_queue.empty()) {
@@ -55,7 +58,6 @@ namespace asyncpp {
 				lck.unlock();
 				if (cbfn) cbfn();
 			}
-			dispatcher::current(old_dispatcher);
 		}
 	};
 } // namespace asyncpp
-- 
2.43.0


From 827fcac1e0e2eb6fe19b32b272e5cca36e5c4f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:19 +0000
Subject: [PATCH 17/46] fix: coroutine frames were misaligned behind a
 statefull allocator

---
 include/asyncpp/detail/promise_allocator_base.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/detail/promise_allocator_base.h b/include/asyncpp/detail/promise_allocator_base.h
index 66939c0..bc95960 100644
--- a/include/asyncpp/detail/promise_allocator_base.h
+++ b/include/asyncpp/detail/promise_allocator_base.h
@@ -2,6 +2,7 @@
 #include <asyncpp/detail/concepts.h>
 #include <asyncpp/detail/parameter_pack.h>
 #include <asyncpp/detail/std_import.h>
+#include <cstddef>
 #include <type_traits>
 
 namespace asyncpp {
@@ -15,6 +16,10 @@ namespace asyncpp {
 namespace asyncpp::detail {
 	template<ByteAllocator Allocator>
 	class promise_allocator_base {
+		// A statefull allocator is stored in front of the frame, which must stay aligned for any fundamental type
+		static constexpr size_t header_size =
+			(sizeof(Allocator) + alignof(std::max_align_t) - 1) / alignof(std::max_align_t) * alignof(std::max_align_t);
+
 	public:
 		using allocator_type = Allocator;
 
@@ -29,9 +34,9 @@ namespace asyncpp::detail {
 				static_assert(std::is_convertible_v<std::remove_cvref_t<decltype(alloc)>&, allocator_type> ||
 								  std::is_constructible_v<allocator_type, decltype(alloc)>,
 							  "last argument is not of allocator type");
-				auto ptr = std::allocator_traits<allocator_type>::allocate(alloc, size + sizeof(allocator_type));
-				auto aptr = new (ptr) allocator_type{std::move(alloc)};
-				return aptr + 1;
+				std::byte* ptr = std::allocator_traits<allocator_type>::allocate(alloc, size + header_size);
+				new (ptr) allocator_type{std::move(alloc)};
+				return ptr + header_size;
 			}
 		}
 		void operator delete(void* ptr, size_t size) {
@@ -40,10 +45,10 @@ namespace asyncpp::detail {
 				allocator_type alloc{};
 				std::allocator_traits<allocator_type>::deallocate(alloc, static_cast<std::byte*>(ptr), size);
 			} else {
-				allocator_type* info = static_cast<allocator_type*>(ptr) - 1;
+				auto base = static_cast<std::byte*>(ptr) - header_size;
+				auto info = static_cast<allocator_type*>(static_cast<void*>(base));
 				auto alloc = std::move(*info);
-				std::allocator_traits<allocator_type>::deallocate(
-					alloc, static_cast<std::byte*>(static_cast<void*>(info)), size + sizeof(Allocator));
+				std::allocator_traits<allocator_type>::deallocate(alloc, base, size + header_size);
 			}
 		}
 	};
-- 
2.43.0


From bd6f11e79afb9411cca29b2105f113067e043112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:19 +0000
Subject: [PATCH 18/46] fix: statefull allocators saved in coroutine frames
 were never destroyed

---
 include/asyncpp/detail/promise_allocator_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/detail/promise_allocator_base.h b/include/asyncpp/detail/promise_allocator_base.h
index bc95960..7ecccdf 100644
--- a/include/asyncpp/detail/promise_allocator_base.h
+++ b/include/asyncpp/detail/promise_allocator_base.h
@@ -48,6 +48,7 @@ namespace asyncpp::detail {
 				auto base = static_cast<std::byte*>(ptr) - header_size;
 				auto info = static_cast<allocator_type*>(static_cast<void*>(base));
 				auto alloc = std::move(*info);
+				info->~allocator_type();
 				std::allocator_traits<allocator_type>::deallocate(alloc, base, size + header_size);
 			}
 		}
-- 
2.43.0


From 268e6e4b3fd2ea62d7e23162d9713b1e1de773fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:31 +0000
Subject: [PATCH 19/46] fix: generator of a reference type did not compile

---
 include/asyncpp/generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/generator.h b/include/asyncpp/generator.h
index 7f94e89..4b0818f 100644
--- a/include/asyncpp/generator.h
+++ b/include/asyncpp/generator.h
@@ -51,7 +51,7 @@ namespace asyncpp {
 			suspend_never await_transform(U&& value) = delete;
 
 		private:
-			T* m_value{nullptr};
+			pointer_type m_value{nullptr};
 			std::exception_ptr m_exception{nullptr};
 		};
 
-- 
2.43.0


From 7854f91e04c11ec8971fe8b5b96b97c5785ba89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:31 +0000
Subject: [PATCH 20/46] fix: async_generator of a reference type did not
 compile

---
 include/asyncpp/async_generator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/async_generator.h b/include/asyncpp/async_generator.h
index 698ded6..18ddd74 100644
--- a/include/asyncpp/async_generator.h
+++ b/include/asyncpp/async_generator.h
@@ -45,7 +45,7 @@ namespace asyncpp {
 			void rethrow_if_unhandled_exception() {
 				if (m_exception) { std::rethrow_exception(std::move(m_exception)); }
 			}
-			[[nodiscard]] T* value() const noexcept { return m_value; }
+			[[nodiscard]] std::add_pointer_t<T> value() const noexcept { return m_value; }
 
 		protected:
 			[[nodiscard]] async_generator_yield_operation internal_yield_value() noexcept {
@@ -62,7 +62,7 @@ namespace asyncpp {
 			coroutine_handle<> m_consumer;
 
 		protected:
-			T* m_value;
+			std::add_pointer_t<T> m_value;
 		};
 
 		template<typename T, ByteAllocator Allocator>
@@ -85,7 +85,7 @@ namespace asyncpp {
 		};
 
 		template<typename T, ByteAllocator Allocator>
-		class async_generator_promise<T&&, Allocator> final : public async_generator_promise_base<T>,
+		class async_generator_promise<T&&, Allocator> final : public async_generator_promise_base<T&&>,
 															  public promise_allocator_base<Allocator> {
 		public:
 			async_generator_promise() noexcept = default;
@@ -135,7 +135,7 @@ namespace asyncpp {
 				};
 				return increment_op{*this};
 			}
-			[[nodiscard]] reference operator*() const noexcept { return *static_cast<T*>(m_promise->value()); }
+			[[nodiscard]] reference operator*() const noexcept { return *m_promise->value(); }
 			[[nodiscard]] bool operator==(const async_generator_iterator& other) const noexcept {
 				return m_promise == other.m_promise;
 			}
-- 
2.43.0


From 1a01219f2105aaed140bd24bfcef5d808a678488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:22 +0000
Subject: [PATCH 21/46] fix: fire_and_forget coroutine could be destroyed
 before it was suspended at its end

---
 include/asyncpp/fire_and_forget.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index fd93659..5c4842a 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -44,10 +44,12 @@ namespace asyncpp {
 				auto final_suspend() noexcept {
 					struct awaiter {
 						promise_type* self;
-						[[nodiscard]] constexpr bool await_ready() const noexcept {
-							return self->m_ref_count.fetch_sub(1) == 1;
+						[[nodiscard]] constexpr bool await_ready() const noexcept { return false; }
+						// Only drop our reference once we are suspended, because as soon
+						// as it is gone another thread might destroy the coroutine.
+						[[nodiscard]] bool await_suspend(coroutine_handle<>) const noexcept {
+							return self->m_ref_count.fetch_sub(1) != 1;
 						}
-						void await_suspend(coroutine_handle<>) const noexcept {}
 						constexpr void await_resume() const noexcept {}
 					};
 					return awaiter{this};
-- 
2.43.0


From 9ca390c1cf3e731ff87696dadf53fc158991489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:22 +0000
Subject: [PATCH 22/46] fix: fire_and_forget_task could be resumed again by
 start() on another handle

---
 include/asyncpp/fire_and_forget.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index 5c4842a..5f33290 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -22,7 +22,9 @@ namespace asyncpp {
 		struct fire_and_forget_task_impl {
 			// Promise type of this task
 			class promise_type : public promise_allocator_base<Allocator> {
+				friend struct fire_and_forget_task_impl;
 				std::atomic<size_t> m_ref_count{1};
+				std::atomic<bool> m_started{false};
 				std::function<void()> m_exception_handler{};
 
 			public:
@@ -112,11 +114,11 @@ namespace asyncpp {
 			void start() noexcept
 				requires(!Eager)
 			{
-				if (m_coro && !m_coro.done()) {
-					m_coro.resume();
-					// Make sure it is only started once
-					m_coro.promise().unref();
-					m_coro = nullptr;
+				// The coroutine might destroy this object
+				if (auto hndl = std::exchange(m_coro, {}); hndl) {
+					// Make sure it is only started once, even if there are multiple handles
+					if (!hndl.promise().m_started.exchange(true)) hndl.resume();
+					hndl.promise().unref();
 				}
 			}
 
-- 
2.43.0


From a03445519ee0784a7296ab6d4d49dfacf4f3487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:22 +0000
Subject: [PATCH 23/46] fix: fire_and_forget_task copy assignment read its
 source after it might be gone

---
 include/asyncpp/fire_and_forget.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index 5f33290..c1714f6 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -99,9 +99,10 @@ namespace asyncpp {
 
 			fire_and_forget_task_impl& operator=(const fire_and_forget_task_impl& other) {
 				if (&other != this) {
-					if (m_coro) m_coro.promise().unref();
-					m_coro = other.m_coro;
+					// Destroying the old coroutine might destroy other
+					auto old = std::exchange(m_coro, other.m_coro);
 					if (m_coro) m_coro.promise().ref();
+					if (old) old.promise().unref();
 				}
 				return *this;
 			}
-- 
2.43.0


From 7cde01b46b5987b9da93541914b3b9f1f88f0d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:22 +0000
Subject: [PATCH 24/46] fix: exception_policy::ignore terminated instead of
 ignoring the exception

---
 include/asyncpp/policy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/policy.h b/include/asyncpp/policy.h
index 74d4519..aa84ccb 100644
--- a/include/asyncpp/policy.h
+++ b/include/asyncpp/policy.h
@@ -25,5 +25,5 @@ namespace asyncpp {
 		static exception_policy handle(std::function<void()> cbfn) { return exception_policy{std::move(cbfn)}; }
 	};
 	inline const exception_policy exception_policy::terminate = {[]() { std::terminate(); }};
-	inline const exception_policy exception_policy::ignore = {};
+	inline const exception_policy exception_policy::ignore = {[]() noexcept {}};
 } // namespace asyncpp
-- 
2.43.0


From effabe11af8167ac908c0fd31e3f291751561162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 25/46] fix: async_launch_scope join raced with the last task

The joiner could be resumed twice or be left registered, and both sides
touched the scope after the joiner could have destroyed it.
---
 include/asyncpp/launch.h | 77 ++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 35 deletions(-)

diff --git a/include/asyncpp/launch.h b/include/asyncpp/launch.h
index 5cc02b2..e965ac0 100644
--- a/include/asyncpp/launch.h
+++ b/include/asyncpp/launch.h
@@ -49,8 +49,33 @@ namespace asyncpp {
 	 * \brief Holder class for spawning child tasks. Allows waiting for all of them to finish.
 	 */
 	class async_launch_scope {
+		// A coroutine called join() and nobody else can until it continues
+		static constexpr size_t flag_joining = ~(~size_t{0} >> 1);
+		// m_continuation is set and needs to be resumed by the last task
+		static constexpr size_t flag_waiting = flag_joining >> 1;
+		static constexpr size_t count_mask = flag_waiting - 1;
+
+		// Number of active tasks and the flags above. Those need to change together, because
+		// once there are no tasks left the waiting coroutine can go on and destroy the scope.
 		std::atomic<size_t> m_count{0U};
-		std::atomic<void*> m_continuation{nullptr};
+		coroutine_handle<> m_continuation{nullptr};
+
+		void task_done() noexcept {
+			auto state = m_count.load();
+			coroutine_handle<> hdl;
+			size_t next;
+			do {
+				next = state - 1;
+				hdl = nullptr;
+				// If this is the last task and we are being awaited
+				if ((state & flag_waiting) != 0 && (next & count_mask) == 0) {
+					hdl = m_continuation;
+					next = 0;
+				}
+			} while (!m_count.compare_exchange_weak(state, next));
+			// Resume the awaiter
+			if (hdl) hdl.resume();
+		}
 
 	public:
 		constexpr async_launch_scope() noexcept = default;
@@ -68,15 +93,7 @@ namespace asyncpp {
 			[](async_launch_scope* scope, std::decay_t<Awaitable> awaitable,
 			   const Allocator&) -> detail::launch_task<Allocator> {
 				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
 				co_await awaitable;
 			}(this, std::forward<decltype(awaitable)>(awaitable), allocator);
 		}
@@ -94,15 +111,7 @@ namespace asyncpp {
 			[](async_launch_scope* scope, Callable callable, std::tuple<Args...>&& args,
 			   const Allocator&) -> detail::launch_task<Allocator> {
 				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
 				co_await std::apply(callable, std::move(args));
 			}(this, std::forward<Callable>(callable), std::move(args), allocator);
 		}
@@ -119,15 +128,7 @@ namespace asyncpp {
 		void invoke(Callable&& callable, Args&&... args) {
 			[](async_launch_scope* scope, Callable callable, Args&&... args) -> detail::launch_task<> {
 				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
 				co_await std::invoke(callable, std::forward<Args>(args)...);
 			}(this, std::forward<Callable>(callable), std::forward<Args>(args)...);
 		}
@@ -141,15 +142,21 @@ namespace asyncpp {
 				async_launch_scope* m_scope;
 				[[nodiscard]] bool await_ready() const noexcept {
 					// Dont wait if theres nothing to await
-					return m_scope->m_count.load() == 0;
+					return (m_scope->m_count.load() & count_mask) == 0;
 				}
 				[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) const {
-					// Set our coroutine if there is noone waiting
-					void* expected = nullptr;
-					if (!m_scope->m_continuation.compare_exchange_strong(expected, hdl.address()))
+					// Make sure there is noone waiting
+					if ((m_scope->m_count.fetch_or(flag_joining) & flag_joining) != 0)
 						throw std::logic_error("duplicate join");
-					// We might have nothing left to wait on if the last coroutine finished in the meantime
-					return m_scope->m_count.load() != 0;
+					m_scope->m_continuation = hdl;
+					auto state = m_scope->m_count.load();
+					size_t next;
+					do {
+						// We might have nothing left to wait on if the last coroutine finished in the meantime
+						next = (state & count_mask) == 0 ? 0 : state | flag_waiting;
+					} while (!m_scope->m_count.compare_exchange_weak(state, next));
+					// As soon as we are registered the last task might resume us and the scope might be gone
+					return next != 0;
 				}
 				constexpr void await_resume() const noexcept {}
 			};
@@ -178,7 +185,7 @@ namespace asyncpp {
 		 * \brief Returns the number of active task on this scope
 		 * \warning Only use this value for informational purposes, it might change at any time.
 		 */
-		[[nodiscard]] size_t inflight_coroutines() const noexcept { return m_count.load(std::memory_order::relaxed); }
+		[[nodiscard]] size_t inflight_coroutines() const noexcept { return m_count.load(std::memory_order::relaxed) & count_mask; }
 
 		/**
 		 * \brief Returns true if there is no active task currently running on this scope
-- 
2.43.0


From 04fc3502f7f59c0902acbbae614f01812acbbd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 26/46] fix: async_launch_scope::invoke did not copy an lvalue
 callable into the task

---
 include/asyncpp/launch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/launch.h b/include/asyncpp/launch.h
index e965ac0..d1c487f 100644
--- a/include/asyncpp/launch.h
+++ b/include/asyncpp/launch.h
@@ -108,7 +108,7 @@ namespace asyncpp {
 		template<typename Callable, typename... Args, ByteAllocator Allocator = default_allocator_type>
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke_tuple(Callable&& callable, std::tuple<Args...>&& args, const Allocator& allocator = {}) {
-			[](async_launch_scope* scope, Callable callable, std::tuple<Args...>&& args,
+			[](async_launch_scope* scope, std::decay_t<Callable> callable, std::tuple<Args...>&& args,
 			   const Allocator&) -> detail::launch_task<Allocator> {
 				scope->m_count.fetch_add(1);
 				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
@@ -126,7 +126,7 @@ namespace asyncpp {
 		template<typename Callable, typename... Args>
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke(Callable&& callable, Args&&... args) {
-			[](async_launch_scope* scope, Callable callable, Args&&... args) -> detail::launch_task<> {
+			[](async_launch_scope* scope, std::decay_t<Callable> callable, Args&&... args) -> detail::launch_task<> {
 				scope->m_count.fetch_add(1);
 				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
 				co_await std::invoke(callable, std::forward<Args>(args)...);
-- 
2.43.0


From 4b6c0a8ea0bcc63a31b07a1defd6a39a29312fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 27/46] fix: promise stays pending if copying or moving the
 result throws

---
 include/asyncpp/promise.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 0360c71..a20d60f 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -33,7 +33,12 @@ namespace asyncpp {
 			bool try_fulfill(auto&& value) {
 				std::unique_lock lck{m_mtx};
 				if (m_value.index() != pending_index) return false;
-				m_value.template emplace<fulfilled_index>(std::forward<decltype(value)>(value));
+				try {
+					m_value.template emplace<fulfilled_index>(std::forward<decltype(value)>(value));
+				} catch (...) {
+					m_value.template emplace<pending_index>();
+					throw;
+				}
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto fulfill_cbs = std::move(m_on_fulfill);
@@ -58,7 +63,12 @@ namespace asyncpp {
 			bool try_reject(auto&& value) {
 				std::unique_lock lck{m_mtx};
 				if (m_value.index() != pending_index) return false;
-				m_value.template emplace<rejected_index>(std::forward<decltype(value)>(value));
+				try {
+					m_value.template emplace<rejected_index>(std::forward<decltype(value)>(value));
+				} catch (...) {
+					m_value.template emplace<pending_index>();
+					throw;
+				}
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto reject_cbs = std::move(m_on_reject);
-- 
2.43.0


From 671f2dc7c2b99bcbae367ed579bb2909a7faadd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 28/46] fix: promise state stays alive until all callbacks
 returned

---
 include/asyncpp/promise.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index a20d60f..43c55b8 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -185,7 +185,7 @@ namespace asyncpp {
          * \note Callbacks and waiting coroutines are resumed inside this call.
          */
 		void fulfill(auto&& value) {
-			if (!m_state->try_fulfill(std::forward<decltype(value)>(value)))
+			if (const auto keep = m_state; !keep->try_fulfill(std::forward<decltype(value)>(value)))
 				throw std::logic_error("promise is not pending");
 		}
 
@@ -195,7 +195,10 @@ namespace asyncpp {
          * \param value The value to store inside the promise
          * \note Callbacks and waiting coroutines are resumed inside this call.
          */
-		bool try_fulfill(auto&& value) { return m_state->try_fulfill(std::forward<decltype(value)>(value)); }
+		bool try_fulfill(auto&& value) {
+			const auto keep = m_state; // Callbacks might release the last handle
+			return keep->try_fulfill(std::forward<decltype(value)>(value));
+		}
 
 		/**
          * \brief Reject the promise with an exception
@@ -204,7 +207,7 @@ namespace asyncpp {
          * \note Callbacks and waiting coroutines are resumed inside this call
          */
 		void reject(std::exception_ptr error) {
-			if (!m_state->try_reject(std::forward<decltype(error)>(error)))
+			if (const auto keep = m_state; !keep->try_reject(std::forward<decltype(error)>(error)))
 				throw std::logic_error("promise is not pending");
 		}
 
@@ -214,7 +217,10 @@ namespace asyncpp {
          * \param ex The exception to use for rejection
          * \note Callbacks and waiting coroutines are resumed inside this call
          */
-		bool try_reject(std::exception_ptr error) { return m_state->try_reject(std::forward<decltype(error)>(error)); }
+		bool try_reject(std::exception_ptr error) {
+			const auto keep = m_state; // Callbacks might release the last handle
+			return keep->try_reject(std::forward<decltype(error)>(error));
+		}
 
 		/**
          * \brief Reject the promise with an exception
@@ -246,7 +252,8 @@ namespace asyncpp {
          */
 		void then(std::function<void(const TResult&)> then_cb,
 				  std::function<void(const std::exception_ptr&)> catch_cb) {
-			m_state->then(std::move(then_cb), std::move(catch_cb));
+			const auto keep = m_state; // Callbacks might release the last handle
+			keep->then(std::move(then_cb), std::move(catch_cb));
 		}
 
 		/**
-- 
2.43.0


From 94374c536ddce1dfa23e754e8cde24dab74ee47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 29/46] fix: promise_first_successful only counts rejections, a
 fulfilled input can no longer be overtaken by a rejection

---
 include/asyncpp/promise.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 43c55b8..acd5475 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -511,8 +511,7 @@ namespace asyncpp {
 		promise<T> result_promise;
 		auto finished = std::make_shared<std::atomic<size_t>>(0);
 		(args.then(
-			 [result_promise, finished](const typename promise<TArgs>::result_type& res) mutable {
-				 finished->fetch_add(1);
+			 [result_promise](const typename promise<TArgs>::result_type& res) mutable {
 				 result_promise.try_fulfill(res);
 			 },
 			 [result_promise, finished](const std::exception_ptr& exception) mutable {
-- 
2.43.0


From 107bfd60f4a58542029a1e2b0cd64412a64bbc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 30/46] fix: signal::prepend does not compile

---
 include/asyncpp/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 68b3b77..d3317ab 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -345,7 +345,7 @@ namespace asyncpp {
 			m_head = new_node;
 		} else {
 			m_head = new_node;
-			m_tail = new_node;
+			m_tail = new_node.get();
 		}
 		return handle(static_ref_cast<detail::signal_node_base>(new_node));
 	}
-- 
2.43.0


From 98b36c974d4789e4ef8a12dfe6247f8e1068c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 31/46] fix: signal move assignment does not return

---
 include/asyncpp/signal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index d3317ab..c497b72 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -291,6 +291,7 @@ namespace asyncpp {
 		m_head = std::exchange(other.m_head, nullptr);
 		m_tail = std::exchange(other.m_tail, nullptr);
 		m_current_counter.store(other.m_current_counter.exchange(1));
+		return *this;
 	}
 
 	template<typename... TParams, typename TTraits>
-- 
2.43.0


From 19624eccfa1a93e42046db6ba5d7cae043251fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 32/46] fix: signal unlinks a slot again that was unlinked
 before, through stale neighbours

---
 include/asyncpp/signal.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index c497b72..5682223 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -169,11 +169,15 @@ namespace asyncpp {
 		}
 
 		void free_node(ref<node>& node) const noexcept {
+			node->counter = detail::signal_removed_counter;
+			// Do nothing if it was unlinked before, because its neighbours might be gone by now. Its next pointer
+			// is kept, because it leads everyone who is still using the node back into the list.
+			if (!node->previous && m_head != node) return;
 			if (node->next) { node->next->previous = node->previous; }
 			if (node->previous) { node->previous->next = node->next; }
-			node->counter = detail::signal_removed_counter;
 			if (m_head == node) m_head = node->next;
 			if (m_tail == node) m_tail = node->previous;
+			node->previous = nullptr;
 		}
 	};
 
-- 
2.43.0


From 7ed80a952115bb42aa77bfb526989f28a2920219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 33/46] fix: thread_pool::push from a thread of another pool
 queues on that pool

---
 include/asyncpp/thread_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index ea81125..38273d9 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -40,7 +40,7 @@ namespace asyncpp {
 		 */
 		void push(std::function<void()> cbfn) override {
 			if (!cbfn) return;
-			if (g_current_thread != nullptr) {
+			if (g_current_thread != nullptr && g_current_thread->pool == this) {
 				std::unique_lock lck{g_current_thread->mutex};
 				g_current_thread->queue.emplace(std::move(cbfn));
 			} else {
-- 
2.43.0


From 0bc658e0f886b4cc1628d3d4574d298f4528dfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 34/46] fix: thread_pool::resize races with push and stealing,
 tasks could be lost or run while they are moved

---
 include/asyncpp/thread_pool.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index 38273d9..b31fa04 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -62,8 +62,12 @@ namespace asyncpp {
 			std::unique_lock lck{m_resize_mtx};
 			auto old = m_target_size.load();
 			if (old > target_size) {
-				// Prevent new tasks from being scheduled on those threads
-				m_valid_size = target_size;
+				{
+					// Prevent new tasks from being scheduled on those threads or stolen from them. Everyone who
+					// still uses the old size holds the lock.
+					std::unique_lock threads_lck{m_threads_mtx};
+					m_valid_size = target_size;
+				}
 				m_target_size = target_size;
 				// Notify all and join threads, if the threads index is greater or equal to m_target_size,
 				// it will invoke its remaining tasks and exit.
-- 
2.43.0


From 11ce3b8e614a36033fd390217972db8636fd449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 35/46] fix: thread_pool tasks that are executed while their
 thread leaves could not push

---
 include/asyncpp/thread_pool.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index b31fa04..a38f4f2 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -161,15 +161,16 @@ namespace asyncpp {
 						cv.wait_for(lck, std::chrono::milliseconds{100});
 					}
 				}
+				// Tasks pushed by the remaining tasks are executed here as well
 				std::unique_lock lck{mutex};
-				g_current_thread = nullptr;
 				while (!queue.empty()) {
-					auto& cbfn = queue.front();
+					auto cbfn = std::move(queue.front());
+					queue.pop();
 					lck.unlock();
 					cbfn();
 					lck.lock();
-					queue.pop();
 				}
+				g_current_thread = nullptr;
 				dispatcher::current(nullptr);
 			}
 		};
-- 
2.43.0


From 3bbc8ba1031b473fbb8f0469a75f89a3d7623ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 36/46] fix: thread_pool destroys executed tasks with the queue
 locked

---
 include/asyncpp/thread_pool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index a38f4f2..94fbba0 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -148,6 +148,7 @@ namespace asyncpp {
 							queue.pop();
 							lck.unlock();
 							cbfn();
+							cbfn = nullptr; // its destructor might push as well
 							lck.lock();
 						}
 					}
@@ -168,6 +169,7 @@ namespace asyncpp {
 					queue.pop();
 					lck.unlock();
 					cbfn();
+					cbfn = nullptr; // its destructor might push as well
 					lck.lock();
 				}
 				g_current_thread = nullptr;
-- 
2.43.0


From 827b048fa6acc898b742bdb26c3555026e903c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 37/46] fix: move assignment of the bundled stop_source gives
 up the source it replaces

---
 include/asyncpp/stop_token.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/stop_token.h b/include/asyncpp/stop_token.h
index a38a46c..55fa863 100644
--- a/include/asyncpp/stop_token.h
+++ b/include/asyncpp/stop_token.h
@@ -305,7 +305,10 @@ namespace asyncpp {
 			return *this;
 		}
 
-		stop_source& operator=(stop_source&&) noexcept = default;
+		stop_source& operator=(stop_source&& other) noexcept {
+			stop_source(std::move(other)).swap(*this);
+			return *this;
+		}
 
 		~stop_source() {
 			if (m_state) m_state->sub_ssrc();
-- 
2.43.0


From f1315e2402a8e21fd80aec6f3d9ea938c8f62a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:10 +0000
Subject: [PATCH 38/46] fix: timer cancellation raced with expiry, destruction
 and the timer thread

A cancelled entry was pushed without holding the lock, entries cancelled while they
were constructed touched the set without the lock, the timer thread waited for a
concurrent cancellation with the lock held (dead-lock) and a cancellation during
destruction extracted entries from a set they were no longer part of.
---
 include/asyncpp/timer.h | 129 +++++++++++++++++++++++-----------------
 1 file changed, 73 insertions(+), 56 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 3724245..1682f28 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -11,6 +11,7 @@
 #include <queue>
 #include <set>
 #include <thread>
+#include <utility>
 
 namespace asyncpp {
 	/**
@@ -19,7 +20,7 @@ namespace asyncpp {
 	class timer final : public dispatcher {
 		struct scheduled_entry {
 			std::chrono::steady_clock::time_point timepoint;
-			std::function<void(bool)> invokable;
+			mutable std::function<void(bool)> invokable;
 
 			scheduled_entry(std::chrono::steady_clock::time_point time, std::function<void(bool)> cbfn) noexcept
 				: timepoint(time), invokable(std::move(cbfn)) {}
@@ -41,36 +42,33 @@ namespace asyncpp {
 				std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>::const_iterator it;
 				/// \brief Invocation operator called on cancellation
 				void operator()() const {
-					// We have to distinguish between cancellation while in the process of construction and
-					// cancellation afterwards. If the stop_token is signalled at the time of construction it directly
-					// invokes the callback, however if we would lock at that point we would cause a deadlock with the
-					// outside lock in schedule(). We also can't directly delete the node in this case because
-					// std::optional<>::emplace tries to set a flag after construction which would cause use after free.
-					// Thus we set a flag in schedule() and postpone both the invoke and deletion until after emplace is done.
-					// If we are not in construction we need to lock and can directly destroy the node once we are done.
-					if (it->in_construction) {
-						auto entry =
-							new std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>::node_type(
-								parent->m_scheduled_cancellable_set.extract(it));
-						if (entry->value().invokable) {
-							parent->m_pushed.emplace([entry]() {
-								entry->value().invokable(false);
-								delete entry;
-							});
-						}
-					} else {
-						std::unique_lock lck{parent->m_mtx};
-						auto entry = parent->m_scheduled_cancellable_set.extract(it);
-						lck.unlock();
-						if (entry.value().invokable) {
-							parent->m_pushed.emplace([cbfn = std::move(entry.value().invokable)]() { cbfn(false); });
-							parent->m_cv.notify_all();
-						}
+					// Whoever takes the entry out of the pending state under the lock invokes it. If the stop_token is
+					// signalled while schedule() constructs the stop_callback the entry is not in the set yet, in this
+					// case schedule() takes care of it. If the timer thread took it already there is nothing left to do.
+					// The node (and with it this callback) stays alive until we return, or until we destroy it ourselves.
+					auto* const owner = parent;
+					std::unique_lock lck{owner->m_mtx};
+					const auto old = std::exchange(it->current, state::taken);
+					if (old != state::pending) return;
+					auto entry = owner->m_scheduled_cancellable_set.extract(it);
+					if (entry.value().invokable) {
+						owner->m_pushed.emplace([cbfn = std::move(entry.value().invokable)]() { cbfn(false); });
+						owner->m_cv.notify_all();
 					}
+					lck.unlock();
 				}
 			};
+			/// \brief Who is responsible for this entry, protected by the mutex of the timer
+			enum class state {
+				/// \brief schedule() is registering the cancel callback
+				constructing,
+				/// \brief The entry is part of the set
+				pending,
+				/// \brief The entry was taken out by the timer thread or cancelled
+				taken
+			};
 			mutable std::optional<asyncpp::stop_callback<cancel_callback>> cancel_token;
-			mutable bool in_construction{true};
+			mutable state current{state::constructing};
 
 			cancellable_scheduled_entry(std::chrono::steady_clock::time_point time,
 										std::function<void(bool)> cbfn) noexcept
@@ -145,10 +143,18 @@ namespace asyncpp {
 		void schedule(std::function<void(bool)> cbfn, std::chrono::steady_clock::time_point timeout,
 					  asyncpp::stop_token stoken) {
 			if (m_exit) throw std::logic_error("shutting down");
-			std::unique_lock lck(m_mtx);
-			auto iter = m_scheduled_cancellable_set.emplace(timeout, std::move(cbfn));
+			// The stop_callback might get invoked at any time, so register it before the entry is visible to the timer thread.
+			decltype(m_scheduled_cancellable_set) staging;
+			const auto iter = staging.emplace(timeout, std::move(cbfn));
 			iter->cancel_token.emplace(std::move(stoken), cancellable_scheduled_entry::cancel_callback{this, iter});
-			iter->in_construction = false;
+			std::unique_lock lck(m_mtx);
+			if (std::exchange(iter->current, cancellable_scheduled_entry::state::pending) ==
+				cancellable_scheduled_entry::state::constructing) {
+				m_scheduled_cancellable_set.merge(staging);
+			} else if (iter->invokable) {
+				// Cancelled in the meantime
+				m_pushed.emplace([cbfn = std::move(iter->invokable)]() { cbfn(false); });
+			}
 			m_cv.notify_all();
 		}
 		/**
@@ -294,17 +300,7 @@ namespace asyncpp {
 #endif
 			while (true) {
 				std::unique_lock lck(m_mtx);
-				while (!m_pushed.empty()) {
-					auto entry = std::move(m_pushed.front());
-					m_pushed.pop();
-					if (entry) {
-						lck.unlock();
-						try {
-							entry();
-						} catch (...) { std::terminate(); }
-						lck.lock();
-					}
-				}
+				run_pushed(lck);
 				auto now = std::chrono::steady_clock::now();
 				while (!m_scheduled_set.empty()) {
 					auto elem = m_scheduled_set.begin();
@@ -321,15 +317,17 @@ namespace asyncpp {
 				while (!m_scheduled_cancellable_set.empty()) {
 					auto elem = m_scheduled_cancellable_set.begin();
 					if (elem->timepoint > now) break;
+					elem->current = cancellable_scheduled_entry::state::taken;
 					auto handle = m_scheduled_cancellable_set.extract(elem);
+					lck.unlock();
+					// Waits for a concurrent cancellation, which needs the lock
+					handle.value().cancel_token.reset();
 					if (handle.value().invokable) {
-						handle.value().cancel_token.reset();
-						lck.unlock();
 						try {
 							handle.value().invokable(true);
 						} catch (...) { std::terminate(); }
-						lck.lock();
 					}
+					lck.lock();
 				}
 				now = std::chrono::steady_clock::now();
 				std::chrono::nanoseconds timeout{500 * 1000 * 1000};
@@ -342,26 +340,45 @@ namespace asyncpp {
 				}
 			}
 			std::unique_lock lck(m_mtx);
-			auto set = std::move(m_scheduled_set);
-			auto cset = std::move(m_scheduled_cancellable_set);
-			lck.unlock();
-			for (const auto& entry : set) {
-				if (entry.invokable) {
+			while (!m_scheduled_set.empty()) {
+				auto handle = m_scheduled_set.extract(m_scheduled_set.begin());
+				if (handle.value().invokable) {
+					lck.unlock();
 					try {
-						entry.invokable(false);
+						handle.value().invokable(false);
 					} catch (...) { std::terminate(); }
+					lck.lock();
 				}
 			}
-			for (const auto& entry : cset) {
-				if (entry.invokable) {
+			while (!m_scheduled_cancellable_set.empty()) {
+				auto elem = m_scheduled_cancellable_set.begin();
+				elem->current = cancellable_scheduled_entry::state::taken;
+				auto handle = m_scheduled_cancellable_set.extract(elem);
+				lck.unlock();
+				handle.value().cancel_token.reset();
+				if (handle.value().invokable) {
+					try {
+						handle.value().invokable(false);
+					} catch (...) { std::terminate(); }
+				}
+				lck.lock();
+			}
+			// Cancelled while we were invoking the others
+			run_pushed(lck);
+		}
+
+		void run_pushed(std::unique_lock<std::mutex>& lck) noexcept {
+			while (!m_pushed.empty()) {
+				auto entry = std::move(m_pushed.front());
+				m_pushed.pop();
+				if (entry) {
+					lck.unlock();
 					try {
-						entry.invokable(false);
+						entry();
 					} catch (...) { std::terminate(); }
+					lck.lock();
 				}
 			}
-			lck.lock();
-			m_scheduled_set.clear();
-			m_scheduled_cancellable_set.clear();
 		}
 	};
 
-- 
2.43.0


From 5c30f845aa1899a2771c99aac9aca20efe558aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 39/46] fix: timer destroyed executed callbacks with its lock
 held

---
 include/asyncpp/timer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 1682f28..57dbb9e 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -311,6 +311,7 @@ namespace asyncpp {
 						try {
 							handle.value().invokable(true);
 						} catch (...) { std::terminate(); }
+						handle.value().invokable = nullptr;
 						lck.lock();
 					}
 				}
@@ -326,6 +327,7 @@ namespace asyncpp {
 						try {
 							handle.value().invokable(true);
 						} catch (...) { std::terminate(); }
+						handle.value().invokable = nullptr;
 					}
 					lck.lock();
 				}
@@ -347,6 +349,7 @@ namespace asyncpp {
 					try {
 						handle.value().invokable(false);
 					} catch (...) { std::terminate(); }
+					handle.value().invokable = nullptr;
 					lck.lock();
 				}
 			}
@@ -360,6 +363,7 @@ namespace asyncpp {
 					try {
 						handle.value().invokable(false);
 					} catch (...) { std::terminate(); }
+					handle.value().invokable = nullptr;
 				}
 				lck.lock();
 			}
@@ -376,6 +380,7 @@ namespace asyncpp {
 					try {
 						entry();
 					} catch (...) { std::terminate(); }
+					entry = nullptr;
 					lck.lock();
 				}
 			}
-- 
2.43.0


From 2216c2c2ffcb50bd2877c0146aaa52d9c7240064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 40/46] fix: fibers started with all floating point exceptions
 unmasked

---
 include/asyncpp/fiber.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 5e84505..70cbb0a 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -155,6 +155,11 @@ namespace asyncpp::detail {
 		auto frame = reinterpret_cast<stack_frame*>(sp);
 		frame->ret_addr = reinterpret_cast<uintptr_t>(entry_fn);
 		frame->param = reinterpret_cast<uintptr_t>(arg);
+		// Start with the floating point environment of the caller, a zeroed control word would unmask all exceptions.
+		//NOLINTNEXTLINE(hicpp-no-assembler)
+		asm volatile("stmxcsr %0" : "=m"(frame->mmx_cw));
+		//NOLINTNEXTLINE(hicpp-no-assembler)
+		asm volatile("fnstcw %0" : "=m"(frame->x87_cw));
 		assert((reinterpret_cast<uintptr_t>(sp) % 16) == 0xc);
 #elif defined(__x86_64__)
 		// The restore code adds 72 byte and ret another 8. Since we want
@@ -183,6 +188,11 @@ namespace asyncpp::detail {
 		auto frame = reinterpret_cast<stack_frame*>(sp);
 		frame->ret_addr = reinterpret_cast<uintptr_t>(entry_fn);
 		frame->param = reinterpret_cast<uintptr_t>(arg);
+		// Start with the floating point environment of the caller, a zeroed control word would unmask all exceptions.
+		//NOLINTNEXTLINE(hicpp-no-assembler)
+		asm volatile("stmxcsr %0" : "=m"(frame->mmx_cw));
+		//NOLINTNEXTLINE(hicpp-no-assembler)
+		asm volatile("fnstcw %0" : "=m"(frame->x87_cw));
 #elif defined(__arm__)
 		// Stack needs to be 64bit aligned for vstmia
 		sp -= 16;
-- 
2.43.0


From 68bb11cee04e251fe7cc27f8d7553d4179808aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 41/46] fix: fiber was accessed after its suspension had been
 published

---
 include/asyncpp/fiber.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 70cbb0a..c496ace 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -764,12 +764,17 @@ namespace asyncpp::detail {
 					auto handler = std::exchange(hndl->suspend_handler, nullptr);
 					auto ptr = std::exchange(hndl->suspend_handler_ptr, nullptr);
 					try {
-						if (handler(ptr, coroutine_handle<>::from_address(static_cast<void*>(hndl)))) break;
+						if (handler(ptr, coroutine_handle<>::from_address(static_cast<void*>(hndl)))) {
+							// The fiber is suspended and might already be resumed, finished or
+							// destroyed by someone else, so hndl can not be used anymore.
+							g_current_fiber = old;
+							return;
+						}
 					} catch (...) { hndl->suspend_exception = std::current_exception(); }
 				}
 			}
 			g_current_fiber = old;
-			if (hndl->resume_cb == nullptr && hndl->continuation != nullptr) { hndl->continuation.resume(); }
+			if (hndl->continuation != nullptr) { hndl->continuation.resume(); }
 		};
 		hndl->destroy_cb = [](fiber_handle_base* hndl) {
 			// Signal destruction and resume, then delete self
-- 
2.43.0


From b6897e2f3d1010814b317ccda0ae663c05be0906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 42/46] fix: destroying a suspended fiber resumed the coroutine
 waiting for it

---
 include/asyncpp/fiber.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index c496ace..db1f822 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -780,6 +780,8 @@ namespace asyncpp::detail {
 			// Signal destruction and resume, then delete self
 			if (hndl->resume_cb != nullptr && hndl->was_started) {
 				hndl->want_destroy = true;
+				// Whoever waits for the fiber does not get resumed by its destruction
+				hndl->continuation = nullptr;
 				hndl->resume_cb(hndl);
 				assert(hndl->resume_cb == nullptr);
 			}
-- 
2.43.0


From df47f324239060ab1744973d8b0cab33e79e949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 43/46] fix: fiber restored the stack guard to the wrong TLS
 offset

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index db1f822..e325bdd 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -371,7 +371,7 @@ namespace asyncpp::detail {
 			"fldcw   0x4(%rsp)\n" // Restore x87 control-word
 #ifdef SAVE_TLS_STACK_PROTECTOR
 			"movq 0x8(%rsp), %rcx\n" // Restore stack guard to TLS record
-			"movq %rcx, %fs:28\n"
+			"movq %rcx, %fs:0x28\n"
 #endif
 			// Restore callee saved registers
 			"movq  0x10(%rsp), %r12\n"
-- 
2.43.0


From a3ba064aeef2b6f85f0d83af0ae13f78fbf795ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 44/46] fix: awaiting an rvalue fiber copied its result instead
 of moving it

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index e325bdd..0550140 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -1099,7 +1099,7 @@ namespace asyncpp {
 		 * \brief Get an awaitable for this fiber.
 		 * \return auto An awaiter that is resumed once the fiber finishes
 		 */
-		auto operator co_await() && { return await(); }
+		auto operator co_await() && { return std::move(*this).await(); }
 	};
 
 	template<typename FN>
-- 
2.43.0


From 76f52fa47a5e97a0b4be4e4f0137eb65617ae223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:22 +0000
Subject: [PATCH 45/46] fix: fiber with a stack size of zero or close to
 SIZE_MAX got no stack

---
 include/asyncpp/fiber.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 0550140..6afd469 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -44,8 +44,9 @@ namespace asyncpp::detail {
 	inline bool fiber_allocate_stack(stack_context& ctx, size_t size) noexcept {
 		static size_t pagesize = sysconf(_SC_PAGESIZE);
 
-		// Round the stacksize to the next multiple of pages
-		const auto page_count = (size + pagesize - 1) / pagesize;
+		// Round the stacksize to the next multiple of pages (at least one)
+		if (size > SIZE_MAX - pagesize * 3) return false;
+		const auto page_count = size == 0 ? 1 : (size + pagesize - 1) / pagesize;
 		size = page_count * pagesize;
 		const auto alloc_size = size + (pagesize * 2);
 #if defined(MAP_STACK)
-- 
2.43.0


From 6e6481cf31c7581e622760831895156ceebbf3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:10 +0000
Subject: [PATCH 46/46] fix: simple_dispatcher::run returned while stop() was
 still using the dispatcher

---
 include/asyncpp/simple_dispatcher.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index bb27030..05819c6 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -46,11 +46,13 @@ namespace asyncpp {
 			dispatcher* const old_dispatcher = dispatcher::current(this);
 			// Also restored if a callback throws
 			scope_guard restore{[old_dispatcher]() noexcept { dispatcher::current(old_dispatcher); }};
-			while (!m_done) {
+			while (true) {
 				std::unique_lock lck{m_mtx};
+				// Checked with the lock held, because stop() still uses the dispatcher until it
+				// releases the lock and our caller might destroy it once we return.
+				if (m_done) break;
 				if (m_queue.empty()) {
-					// stop() might have been called before we got the lock
-					if (!m_done) m_cv.wait(lck);
+					m_cv.wait(lck);
 					continue;
 				}
 				auto cbfn = std::move(m_queue.front());
-- 
2.43.0

