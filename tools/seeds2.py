import sys; sys.path.insert(0,'/verif/tools')
from mkseed import add
H='#include "demo.h"\n'; A='#include "hook_atomic.h"\n'
from seeds1 import INL
MX='''namespace std { struct hooked_mutex { std::mutex m; void lock() { demo::tick(); m.lock(); } void unlock() { m.unlock(); demo::tick(); } bool try_lock() { demo::tick(); return m.try_lock(); } }; }
#define mutex hooked_mutex
'''
add('c11-closed-recheck','C11',"close() running between the check of a suspending write and its taking the lock",
 "write checks for closed only before taking the lock: a writer racing with close waits forever",
 [('channel.h','''		std::unique_lock lck{m_parent->m_mtx};
		if (m_parent->m_closed.load(std::memory_order::relaxed)) return false;
		// Check if there is a reader waiting''','''		std::unique_lock lck{m_parent->m_mtx};
		// Check if there is a reader waiting''')],
 H+MX+'''#include <asyncpp/channel.h>
int done = 0;
demo::co writer(asyncpp::channel<int>& c) { bool r = co_await c.write(1); CHECK(!r); done++; }
int main() { for (long i = 1; i < 5; i++) { done = 0; asyncpp::channel<int> c; bool ran = false; demo::at(i, [&] { ran = true; c.close(); }); writer(c); demo::hook = {}; if (!ran) c.close(); CHECK(done == 1); } }
''','')
add('c11-late-result','C11',"a waiting writer with a dispatcher that runs what is pushed at once (or on another thread before try_read goes on)",
 "try_read() marks the write as successful only after its coroutine was pushed: the write reports failure although the value was read",
 [('channel.h','''			std::optional<T> res = std::move(wrt->m_value);
			wrt->m_result = true;
			// Resume writer
			if (wrt->m_dispatcher != nullptr)
				wrt->m_dispatcher->push([wrt]() { wrt->m_handle.resume(); });
			else
				wrt->m_handle.resume();
			return res;''','''			std::optional<T> res = std::move(wrt->m_value);
			// Resume writer
			if (auto dsp = wrt->m_dispatcher; dsp != nullptr) {
				dsp->push([wrt]() { wrt->m_handle.resume(); });
				wrt->m_result = true;
			} else {
				wrt->m_result = true;
				wrt->m_handle.resume();
			}
			return res;''')],
 H+'#include <asyncpp/channel.h>\n'+INL+'''int done = 0;
demo::co writer(asyncpp::channel<int>& c, asyncpp::dispatcher* d) { bool r = co_await c.write(1).resume_on(d); CHECK(r); done++; }
int main() { asyncpp::channel<int> c; inline_dispatcher d; auto x = new char[64]; writer(c, &d); auto v = c.try_read(); CHECK(v && *v == 1); CHECK(done == 1); delete[] x; c.close(); }
''','')
add('c12-dispatcher-after-unlock','C12',"a pop without own dispatcher on a queue with one, and a push on another thread between the unlock and the rest of await_suspend",
 "the queue's dispatcher is copied into the waiting pop after the lock was released: the pop resumes inline inside push instead of on the dispatcher",
 [('queue.h','''		// Copy dispatcher from parent if needed to allow for easier move constructor
		if (m_dispatcher == nullptr) m_dispatcher = m_parent->m_dispatcher;
		// Unlock the mutex locked in await_ready
		m_parent->m_mtx.unlock();
		return true;''','''		// Unlock the mutex locked in await_ready
		auto parent = m_parent;
		parent->m_mtx.unlock();
		// Copy dispatcher from parent if needed to allow for easier move constructor
		if (m_dispatcher == nullptr) m_dispatcher = parent->m_dispatcher;
		return true;''')],
 H+MX+'#include <asyncpp/queue.h>\n'+INL+'''int done = 0; bool in_run = false;
demo::co popper(asyncpp::queue<int>& q) { auto v = co_await q.pop(); CHECK(v && *v == 7); CHECK(in_run); done++; }
static std::deque<asyncpp::queue<int>*> keep;
int main() { for (long i = 1; i < 4; i++) { done = 0; queue_dispatcher d; auto* q = new asyncpp::queue<int>(4, &d); keep.push_back(q); bool ran = false;
  // the other thread's push, at every point where the lock is not held
  demo::at(i, [&] { if (q && i > 1) { ran = true; CHECK(q->try_push(7)); } });
  popper(*q); demo::hook = {}; if (!ran) CHECK(q->try_push(7)); in_run = true; d.run(); in_run = false; CHECK(done == 1); } }
''','')
add('c12-clear-order','C12',"clear() on a full queue with waiting pushes that push again as soon as they are resumed",
 "clear() resumes the waiting pushes while it still walks the list inside the queue: pushes that start waiting meanwhile are dropped with it",
 [('queue.h','''		auto push_list = m_push_list;
		m_push_list = nullptr;
		lck.unlock();
''','''		auto push_list = m_push_list;
		lck.unlock();
'''),('queue.h','''			await->m_result = false;
			await->resume();
		}
	}

	template<typename T, typename TContainer>
	inline void queue<T, TContainer>::pop_awaiter::resume''','''			await->m_result = false;
			await->resume();
		}
		lck.lock();
		m_push_list = nullptr;
	}

	template<typename T, typename TContainer>
	inline void queue<T, TContainer>::pop_awaiter::resume''')],
 H+'#include <asyncpp/queue.h>\n'+INL+'''int failed = 0, ok = 0;
demo::co pusher(asyncpp::queue<int>& q, int v) { for (int i = 0; i < 3; i++) { int x = v; bool r = co_await q.push(std::move(x)); r ? ok++ : failed++; } }
int main() { asyncpp::queue<int> q(1); CHECK(q.try_push(1)); pusher(q, 2); pusher(q, 3); q.clear(); CHECK(failed == 2); int n = 0;
  while (q.try_pop()) n++; CHECK(ok + failed == 6 && n == ok); }
''','')
