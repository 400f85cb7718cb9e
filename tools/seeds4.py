import sys, shutil; sys.path.insert(0,'/verif/tools')
from mkseed import add
H='#include "demo.h"\n'
def addv(i, *a, heads=('vsched.h',), **k):
    """a demonstration under the deterministic scheduler"""
    add(i, *a, **k)
    for h in heads: shutil.copy('/verif/replay/' + h, '/verif/seeded/' + i)
PRE='''#include "vsched.h"
using namespace sched;
#include <asyncpp/thread_pool.h>
using namespace asyncpp; using P = thread_pool; using A = std::hooked_atomic<int>;
static void run(const char* name, std::function<void()> body) { explore(name, [body] { threads({body}); }); }
static void par(std::function<void()> a, std::function<void()> b) { std::thread t(a); b(); t.join(); }
'''
only=sys.argv[1:]
def S(i, *a, f=add, **k):
    if not only or i in only: f(i, *a, **k)
S('c25-size-before-lock','C25','a push from outside that reads the size, then a resize that removes that thread, then the push',
 'push reads the number of usable threads before it locks the threads: the callback goes to a thread that is gone (or past the end of the vector) and is lost',
 [('thread_pool.h','''				std::shared_lock lck{m_threads_mtx};
				auto size = m_valid_size.load();
				if (size == 0) throw std::runtime_error("pool is shutting down");
''','''				auto size = m_valid_size.load();
				if (size == 0) throw std::runtime_error("pool is shutting down");
				std::shared_lock lck{m_threads_mtx};
''')],
 PRE+'''int main() { run("push | shrink", [] { A n{0}; int k = 0; { P p(2); par([&] { for (int i = 0; i < 4; i++) { p.push([&] { n.fetch_add(1); }); k++; } }, [&] { p.resize(1); }); } CHECK(n == k); }); }
''', f=addv)
S('c25-late-target','C25','growing a pool, with the new thread running before the resizing thread continues',
 'a growing resize announces the new size after it started the threads: a thread that is quick sees that it is beyond the size and leaves, what is pushed to it later is lost',
 [('thread_pool.h','''				m_target_size = target_size;
				std::unique_lock threads_lck{m_threads_mtx};
				m_threads.resize(target_size);
				threads_lck.unlock();''','''				std::unique_lock threads_lck{m_threads_mtx};
				m_threads.resize(target_size);
				threads_lck.unlock();'''),
  ('thread_pool.h','''				// Allow pushing work to our new threads
''','''				m_target_size = target_size;
				// Allow pushing work to our new threads
''')],
 PRE+'''int main() { run("grow", [] { A n{0}; { P p(1); p.resize(2); for (int i = 0; i < 4; i++) p.push([&] { n.fetch_add(1); }); } CHECK(n == 4); }); }
''', f=addv)
STP='''#define ASYNCPP_FORCE_CUSTOM_STOP_TOKEN 1
#include "vsched.h"
#include <functional>
using namespace sched;
#include <asyncpp/stop_token.h>
using A = std::hooked_atomic<int>; using F = std::function<void()>; using SS = asyncpp::stop_source; using SC = asyncpp::stop_callback<F>;
'''
S('c27-done-first','C27','a callback is destroyed by another thread right when its run ends',
 'request_stop signals the end of a run before it takes its flag back: the destructor that waited may already have freed the callback it then writes to',
 [('stop_token.h','''						cb->m_destroyed = nullptr;
						cb->m_done.release();
''','''						cb->m_done.release();
						cb->m_destroyed = nullptr;
''')],
 STP+'''int main() { explore("request | destroy", [] { SS s; A n{0}; auto c = std::make_unique<SC>(s.get_token(), F{[&] { n.fetch_add(1); }}); threads({[&] { s.request_stop(); }, [&] { c.reset(); }}); CHECK(n <= 1); }); }
''', f=addv)
S('c27-stale-prev','C27','the second of several callbacks is destroyed by another thread while it runs',
 'the new head keeps its link to the callback popped before: destroyed while it runs it looks as if it was still in the list, its destructor does not wait',
 [('stop_token.h','''					if (m_head) {
						m_head->m_prev = nullptr;
						is_last_cb = false;
					}
''','''					if (m_head) is_last_cb = false;
''')],
 STP+'''int main() { explore("request | destroy", [] { SS s; A r{0}; std::unique_ptr<SC> c[3]; bool dead = false; for (int i = 0; i < 3; i++) c[i] = std::make_unique<SC>(s.get_token(), F{[&, i] { if (i == 1) { r.store(1); CHECK(!dead); r.store(2); CHECK(!dead); } }}); threads({[&] { s.request_stop(); }, [&] { c[1].reset(); dead = true; }}); }); }
''', f=addv)
S17='''#include "vsched.h"
using namespace sched;
#include <asyncpp/signal.h>
using S = asyncpp::signal<void(int)>; using A = std::hooked_atomic<int>;
'''
S('c17-late-number','C17','an emission that passes the new slot between its insertion and the assignment of its number',
 'append puts the slot in the list before it has a number: an emission takes it for a disconnected slot and takes it out of the list for good',
 [('signal.h','''		new_node->counter = get_next_counter();
		if (std::lock_guard lck{m_mutex}; m_head) {
			new_node->previous = m_tail;
			m_tail->next = new_node;
			m_tail = new_node.get();
		} else {
			m_head = new_node;
			m_tail = new_node.get();
		}
''','''		if (std::lock_guard lck{m_mutex}; m_head) {
			new_node->previous = m_tail;
			m_tail->next = new_node;
			m_tail = new_node.get();
		} else {
			m_head = new_node;
			m_tail = new_node.get();
		}
		new_node->counter = get_next_counter();
''')],
 S17+'''int main() { explore("append | emit", [] { S s; A n{0}; s.append([](int) {}); threads({[&] { s.append([&](int) { n.fetch_add(1); }); }, [&] { s(1); }}); n = 0; CHECK(s(1) == 2); CHECK(n == 1); }); }
''', f=addv)
S('c17-stale-tail','C17','removing the last slot, then connecting another one',
 'taking out the last slot leaves the end of the list pointing at it: the next slot is linked behind a slot that is not in the list and is never called',
 [('signal.h','			if (m_tail == node) m_tail = node->previous;\n','			if (m_tail == node && !m_head) m_tail = node->previous;\n')],
 '''#include "demo.h"
#include <asyncpp/signal.h>
int main() { asyncpp::signal<void()> s; int n = 0; s.append([&] { n++; }); auto b = s.append([&] { n++; }); s.remove(b); s.append([&] { n += 10; }); CHECK(s() == 2); CHECK(n == 11); }
''')
S('c17-unlocked-start','C17','an emission that starts while another thread removes the first slot and drops its handle',
 'the emission reads the head of the list without the lock: the slot it got may be freed before it holds a reference to it',
 [('signal.h','''		ref<node> node{};

		{
			std::lock_guard lck(m_mutex);
			node = m_head;
		}
''','''		ref<node> node{m_head};
''')],
 S17+'''int main() { explore("emit | remove first", [] { S s; int n = 0; auto h = s.append([](int) {}); s.append([&](int) { n++; }); threads({[&] { s(1); }, [&] { s.remove(h); h = asyncpp::signal_handle{}; }}); CHECK(n == 1); }); }
''', f=addv)
