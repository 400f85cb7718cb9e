import sys; sys.path.insert(0,'/verif/tools')
from mkseed import add
H='#include "demo.h"\n'; A='#include "hook_atomic.h"\n'
INL='''struct inline_dispatcher : asyncpp::dispatcher { int n = 0; void push(std::function<void()> f) override { n++; f(); } };
struct queue_dispatcher : asyncpp::dispatcher { std::deque<std::function<void()>> q; void push(std::function<void()> f) override { q.push_back(std::move(f)); }
  void run() { auto* o = current(this); while (!q.empty()) { auto f = std::move(q.front()); q.pop_front(); f(); } current(o); } };
'''
def ev(x): return H+f'#include <asyncpp/event.h>\n'+INL+x
def eva(x): return A+f'#include <asyncpp/event.h>\n'+INL+x
if __name__=="__main__": add('c03-next-after','C03',"two or more coroutines awaiting without a dispatcher and a set(d) whose d runs the pushed callable at once (or on another thread before set() goes on), so that the first awaiter is gone when set() follows its link",
 "set() reads the next link of an awaiter after it pushed its resumption, when the coroutine holding it may be destroyed",
 [('event.h','''			while (await != nullptr) {
				auto next = await->m_next;
				assert(await->m_parent == this);
				assert(await->m_handle);
				if (await->m_dispatcher != nullptr) {
					await->m_dispatcher->push([hdl = await->m_handle]() mutable { hdl.resume(); });
				} else if (resume_dispatcher != nullptr) {
					resume_dispatcher->push([hdl = await->m_handle]() mutable { hdl.resume(); });
				} else {
''','''			while (await != nullptr) {
				assert(await->m_parent == this);
				assert(await->m_handle);
				if (await->m_dispatcher == nullptr && resume_dispatcher != nullptr) {
					resume_dispatcher->push([hdl = await->m_handle]() mutable { hdl.resume(); });
					await = await->m_next;
					continue;
				}
				auto next = await->m_next;
				if (await->m_dispatcher != nullptr) {
					await->m_dispatcher->push([hdl = await->m_handle]() mutable { hdl.resume(); });
				} else {
''')],
 ev('''int n = 0;
demo::co waiter(asyncpp::multi_consumer_event& e, asyncpp::dispatcher* d) { co_await e.wait(d); n++; }
int main() { asyncpp::multi_consumer_event e; inline_dispatcher d;
  waiter(e, nullptr); waiter(e, nullptr); waiter(e, nullptr); CHECK(n == 0); CHECK(e.set(&d)); CHECK(n == 3); e.reset(); waiter(e, nullptr); e.set(); CHECK(n == 4); }
'''))
if __name__=="__main__": add('c01-reset-race','C01',"a reset() on one thread overlapping with a reset() followed by a co_await on another",
 "reset() checks for set and then stores unset unconditionally, wiping out a waiter which registered in between: it never resumes",
 [('event.h','''			void* old_state = this;
			m_state.compare_exchange_strong(old_state, nullptr, std::memory_order::relaxed);
''','''			if (is_set()) m_state.store(nullptr, std::memory_order::relaxed);
''',0)],
 eva('''int n = 0;
demo::co waiter(asyncpp::single_consumer_event& e) { co_await e.wait(nullptr); n++; }
int main() { for (long i = 0; i < 12; i++) { asyncpp::single_consumer_event e{true}; n = 0;
  bool ran = false; demo::at(i, [&] { ran = true; e.reset(); waiter(e); }); e.reset(); demo::hook = {};
  bool waiting = e.is_awaited(); e.set(); if (ran) CHECK(n == 1 && waiting); } }
'''))
if __name__=="__main__": add('c02-late-unset','C02',"a consumer that awaits the event again as soon as it is resumed, resumed through a dispatcher running the callable at once",
 "set() puts the event back to unset only after it delivered the waiter, which can meanwhile consume the leftover signal: one set() wakes two waits",
 [('event.h','''				// Only modify the state if it has not been changed in between
				state = this;
				m_state.compare_exchange_strong(state, nullptr, std::memory_order::acq_rel);

				assert(await->m_parent == this);
				assert(await->m_handle);
				if (await->m_dispatcher != nullptr) {
					await->m_dispatcher->push([hdl = await->m_handle]() mutable { hdl.resume(); });
				}''','''				assert(await->m_parent == this);
				assert(await->m_handle);
				auto own = await->m_dispatcher;
				if (own != nullptr) own->push([hdl = await->m_handle]() mutable { hdl.resume(); });

				// Only modify the state if it has not been changed in between
				state = this;
				m_state.compare_exchange_strong(state, nullptr, std::memory_order::acq_rel);

				if (own != nullptr) {
				}''')],
 ev('''int n = 0;
demo::co waiter(asyncpp::single_consumer_auto_reset_event& e, asyncpp::dispatcher* d) { for (int i = 0; i < 3; i++) { co_await e.wait(d); n++; } }
int main() { asyncpp::single_consumer_auto_reset_event e; inline_dispatcher d; waiter(e, &d);
  for (int i = 1; i <= 3; i++) { CHECK(e.set()); CHECK(n == i); } CHECK(!e.is_set()); }
'''))
if __name__=="__main__": add('c04-hoisted-new-state','C04',"a coroutine starting to await between set() reading the state and its compare exchange",
 "set() computes the new state only once from the first state it saw: it takes the waiters and leaves the event set, waking a later waiter without a signal",
 [('event.h','''			void* new_state;
			do {
				// If the state is already set we can just return
				if (old_state == this) return false;
				// Otherwise store the state as an awaiter
				await = static_cast<awaiter*>(old_state);
				// if the event had awaiters we update the state to "unset", if it was previously unset we transition to set
				new_state = (old_state == nullptr) ? this : nullptr;
''','''			// if the event had awaiters we update the state to "unset", if it was previously unset we transition to set
			void* const new_state = (old_state == nullptr) ? this : nullptr;
			do {
				// If the state is already set we can just return
				if (old_state == this) return false;
				// Otherwise store the state as an awaiter
				await = static_cast<awaiter*>(old_state);
''')],
 eva('''int n = 0;
demo::co waiter(asyncpp::multi_consumer_auto_reset_event& e) { co_await e.wait(nullptr); n++; }
int main() { for (long i = 0; i < 12; i++) { asyncpp::multi_consumer_auto_reset_event e; n = 0; bool ran = false;
  demo::at(i, [&] { ran = true; waiter(e); }); e.set(); demo::hook = {};
  if (ran) { CHECK(n + (e.is_set() ? 1 : 0) + (e.is_awaited() ? 1 : 0) == 1 ); } e.set(); } }
'''))
if __name__=="__main__": add('c05-skip-own-dispatcher','C05',"set(d) called on a thread whose current dispatcher is the one the coroutine asked to be resumed on",
 "the waiter is handed to the setter's fallback dispatcher (or resumed inline) instead of its own one",
 [('event.h','''				m_state.compare_exchange_strong(state, nullptr, std::memory_order::acq_rel);

				assert(await->m_parent == this);
				assert(await->m_handle);
				if (await->m_dispatcher != nullptr) {''','''				m_state.compare_exchange_strong(state, nullptr, std::memory_order::acq_rel);

				assert(await->m_parent == this);
				assert(await->m_handle);
				// No need to go through the queue if we are already there
				if (await->m_dispatcher != nullptr && await->m_dispatcher != dispatcher::current()) {''')],
 ev('''int n = 0;
demo::co waiter(asyncpp::single_consumer_auto_reset_event& e, asyncpp::dispatcher* d) { co_await e.wait(d); n++; }
int main() { asyncpp::single_consumer_auto_reset_event e; queue_dispatcher own, other; waiter(e, &own);
  own.push([&] { e.set(&other); CHECK(n == 0); }); own.run(); CHECK(other.q.empty()); CHECK(n == 1); }
'''))
if __name__=="__main__": add('c06-stale-next','C06',"two coroutines locking a held mutex at the same time, the second enqueuing itself between the first one's load and compare exchange",
 "the link to the previous head is set only once, so that a retried compare exchange drops the waiter which got in between",
 [('mutex.h','''			auto old = mutex->m_state.load(std::memory_order::acquire);
			while (true) {''','''			auto old = mutex->m_state.load(std::memory_order::acquire);
			// NOLINTNEXTLINE(performance-no-int-to-ptr)
			if (old != state_unlocked) next = reinterpret_cast<lock_awaiter*>(old);
			while (true) {'''),
  ('mutex.h','''					// NOLINTNEXTLINE(performance-no-int-to-ptr)
					next = reinterpret_cast<lock_awaiter*>(old);
''','')],
 A+'''#include <asyncpp/mutex.h>
int n = 0;
demo::co locker(asyncpp::mutex& m) { co_await m.lock(); n++; }
int main() { for (long i = 0; i < 10; i++) { asyncpp::mutex m; n = 0; bool ran = false; CHECK(m.try_lock());
  demo::at(i, [&] { ran = true; locker(m); }); locker(m); demo::hook = {}; int want = ran ? 2 : 1; CHECK(n == 0);
  for (int k = 1; k <= want; k++) { m.unlock(); CHECK(n == k); } m.unlock(); CHECK(!m.is_locked()); } }
''')
if __name__=="__main__": add('c07-assign-unlocked','C07',"moving an unlocked mutex_lock into one that holds its mutex",
 "move assignment gives up the held mutex only if the other lock holds one: the mutex stays locked forever",
 [('mutex.h','''			if (m_mtx != nullptr && m_locked) m_mtx->unlock();
			m_mtx = other.m_mtx;''','''			if (m_mtx != nullptr && m_locked && other.m_locked) m_mtx->unlock();
			m_mtx = other.m_mtx;''')],
 H+'''#include <asyncpp/mutex.h>
int main() { asyncpp::mutex a, b; CHECK(a.try_lock()); { asyncpp::mutex_lock la{a, std::adopt_lock}; asyncpp::mutex_lock lb{b}; la = std::move(lb); CHECK(!la.is_locked()); CHECK(&la.mutex() == &b); } CHECK(!a.is_locked()); CHECK(!b.is_locked()); if (a.is_locked()) a.unlock(); }
''')
if __name__=="__main__": add('c08-truncated','C08',"an initial count whose low 32 bits are zero",
 "the constructor decides readiness from a truncated counter: a latch of 2^32 is ready at once",
 [('latch.h','m_event{initial <= 0}','m_event{static_cast<unsigned int>(initial) <= 0}')],
 '''#include "demo.h"
#include <asyncpp/latch.h>
int main() { for (int k = 32; k < 64; k++) { asyncpp::latch l{std::size_t(1) << k}; CHECK(!l.is_ready()); l.decrement(std::size_t(1) << k); CHECK(l.is_ready()); } }
''','')
if __name__=="__main__": add('c13-unlocked-empty','C13',"a pop() losing the last element to another pop() between its check and taking the lock",
 "pop() checks for emptiness before taking the lock and then reads the front of an empty queue",
 [('threadsafe_queue.h','''			std::scoped_lock lck{m_mutex};
			if (m_queue.empty()) return std::nullopt;''','''			if (m_queue.empty()) return std::nullopt;
			std::scoped_lock lck{m_mutex};''')],
 H+'''namespace std { struct hooked_mutex { std::mutex m; void lock() { demo::tick(); m.lock(); } void unlock() { m.unlock(); } bool try_lock() { demo::tick(); return m.try_lock(); } }; }
#define mutex hooked_mutex
#include <asyncpp/threadsafe_queue.h>
int main() { asyncpp::threadsafe_queue<std::string> q; q.push("x"); std::optional<std::string> a, b; demo::at(1, [&] { a = q.pop(); }); b = q.pop(); demo::hook = {}; CHECK(int(a.has_value()) + int(b.has_value()) == 1); }
''','-D_GLIBCXX_ASSERTIONS -fsanitize=address')
if __name__=="__main__": add('c14-count-after','C14',"two threads dropping the last two counts of an object, both decrements happening before the first one looks at the counter",
 "remove_ref() decides on deleting from a separate read of the counter: the object is destroyed twice",
 [('ref.h','''			auto cnt = m_refcount.fetch_decrement();
			if (cnt == 1) delete static_cast<const T*>(this);''','''			[[maybe_unused]] auto cnt = m_refcount.fetch_decrement();
			if (m_refcount.count() == 0) delete static_cast<const T*>(this);''')],
 A+'''#include <asyncpp/ref.h>
int destroyed = 0;
struct obj : asyncpp::intrusive_refcount<obj> { ~obj() { destroyed++; } static void operator delete(void*) {} };
int main() { for (long i = 1; i < 10; i++) { destroyed = 0; asyncpp::ref<obj> a(new obj); asyncpp::ref<obj> b(a); bool ran = false; demo::at(i, [&] { ran = true; a.reset(); }); b.reset(); demo::hook = {}; if (!ran) a.reset(); CHECK(destroyed == 1); } }
''','')
if __name__=="__main__": add('c15-load-early-value','C15',"load() overlapping with an exchange()/store() between its first look at the pointer and taking the lock",
 "load() uses the pointer it saw before locking: it puts the old pointer back and adds a count to an object which may be gone",
 [('ref.h','''			if ((m_ptr.load(std::memory_order_relaxed) & ~lock_mask) == 0) return 0;

			// Lock the pointer to prevent concurrent modification
			auto val = lock();''','''			const auto val = m_ptr.load(std::memory_order_relaxed) & ~lock_mask;
			if (val == 0) return 0;

			// Lock the pointer to prevent concurrent modification
			lock();''')],
 A+'''#include <asyncpp/ref.h>
int destroyed = 0, extra = 0;
struct obj : asyncpp::intrusive_refcount<obj> { using asyncpp::intrusive_refcount<obj>::use_count; ~obj() { destroyed++; } static void operator delete(void*) {} };
int main() { for (long i = 1; i < 12; i++) { destroyed = 0; { asyncpp::atomic_ref<obj> a(asyncpp::ref<obj>(new obj)); asyncpp::ref<obj> n(new obj), got; bool ran = false;
  long depth = 0; demo::at(i, [&] { if (depth++) return; auto v = a.load(); (void)v; ran = true; }); (void)depth;
  demo::hook = {}; demo::at(i, [&] { if (demo::ops == 1 || demo::ops == 2) { a.store(n); ran = true; } });
  got = a.load(); demo::hook = {}; if (!ran) a.store(n); got.reset(); CHECK(a.load().get() == n.get()); CHECK(destroyed == 1); } CHECK(destroyed == 2); } }
''','')
if __name__=="__main__": add('c16-toggle','C16',"calling engage() on a guard which is already engaged","engage() toggles: the callback does not run after engage() on an engaged guard",
 [('scope_guard.h','void engage() noexcept { m_engaged = true; }','void engage() noexcept { m_engaged = !m_engaged; }')],
 H+'''#include <asyncpp/scope_guard.h>
int main() { int n = 0; { asyncpp::scope_guard g{[&]() noexcept { n++; }}; g.engage(); CHECK(g.is_engaged()); } CHECK(n == 1); }
''')
if __name__=="__main__": add('c23-skip-current','C23',"deferring to the dispatcher the coroutine is already running on (the usual way to yield)","defer does not suspend when the target is the current dispatcher: queued work never gets its turn",
 [('defer.h','#include <asyncpp/detail/std_import.h>\n','#include <asyncpp/detail/std_import.h>\n#include <asyncpp/dispatcher.h>\n'),
  ('defer.h','await_ready() const noexcept { return target_dispatcher == nullptr; }','''await_ready() const noexcept {
			if constexpr (std::is_convertible_v<TDispatcher*, dispatcher*>) {
				// Nothing to switch if we are already there
				if (target_dispatcher != nullptr && target_dispatcher == dispatcher::current()) return true;
			}
			return target_dispatcher == nullptr;
		}''')],
 H+'#include <asyncpp/dispatcher.h>\n#include <asyncpp/defer.h>\n'+INL+'''std::string log_;
demo::co work(queue_dispatcher* d) { log_ += "a"; co_await asyncpp::defer{d}; log_ += "c"; }
int main() { queue_dispatcher d; d.push([&] { work(&d); }); d.push([] { log_ += "b"; }); d.run(); CHECK(log_ == "abc"); }
''')
if __name__=="__main__": add('c30-min-of-first','C30',"asking for the tag over several types where a later one has a smaller alignment than the first","the smallest alignment is taken from the first type only: bits of the address are reported as part of the tag",
 [('ptr_tag.h','if constexpr (sizeof...(TExtra) > 0)','if constexpr (sizeof...(TExtra) > 1)')],
 H+'''#include <asyncpp/ptr_tag.h>
int main() { struct alignas(16) big { char c[16]; }; alignas(16) short s[8] = {}; for (auto& e : s) { CHECK((asyncpp::ptr_get_tag<big, short>(&e) == 0)); CHECK((asyncpp::ptr_get_tag<big, short>(asyncpp::ptr_tag<1>(&e)) == 1)); } }
''')
if __name__=="__main__": add('c32-so-compat','C32',"the shared library configuration (ASYNCPP_SO_COMPAT) and two threads","the current dispatcher is shared between all threads in the ASYNCPP_SO_COMPAT configuration",
 [('dispatcher.h','		static thread_local dispatcher* g_current_dispatcher;\n','		static dispatcher* g_current_dispatcher;\n'),
  ('dispatcher.h','	thread_local dispatcher* dispatcher::g_current_dispatcher = nullptr;','	dispatcher* dispatcher::g_current_dispatcher = nullptr;')],
 '#define ASYNCPP_SO_COMPAT\n#define ASYNCPP_SO_COMPAT_IMPL\n'+H+'#include <asyncpp/dispatcher.h>\n'+INL.replace('current(o); }','current(o); }\n static auto* cur(dispatcher* d) { return current(d); }')+'''int main() { queue_dispatcher d; queue_dispatcher::cur(&d); asyncpp::dispatcher* seen = &d; std::thread([&] { seen = asyncpp::dispatcher::current(); }).join(); CHECK(seen == nullptr); CHECK(asyncpp::dispatcher::current() == &d); }
''')
import glob, shutil, os
for d in glob.glob('/verif/seeded/*'):
    s=open(d+'/demo.cpp').read()
    for f in ('demo.h','hook_atomic.h'):
        if f=='demo.h' or f in s: shutil.copy('/verif/tools/seedlib/'+f, d)
