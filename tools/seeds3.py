import sys; sys.path.insert(0,'/verif/tools')
from mkseed import add
H='#include "demo.h"\n'; A='#include "hook_atomic.h"\n'
add('c24-stop-unlocked','C24',"stop() on another thread between run() finding the queue empty and its wait",
 "stop() no longer takes the mutex: its notification is missed by a run() that is just about to wait, which then never returns",
 [('simple_dispatcher.h','''			std::unique_lock lck{m_mtx};
			m_done = true;''','''			m_done = true;''')],
 H+'''#include <unistd.h>
namespace std { struct hooked_cv { std::condition_variable c; void notify_all() { c.notify_all(); } void notify_one() { c.notify_one(); }
  template<typename L> void wait(L& l) { demo::tick(); c.wait(l); } template<typename L, typename P> void wait(L& l, P p) { while (!p()) wait(l); } }; }
#define condition_variable hooked_cv
#include <asyncpp/simple_dispatcher.h>
int main() { alarm(10); asyncpp::simple_dispatcher d; std::thread t; bool once = false;
  demo::hook = [&] { if (once) return; once = true; t = std::thread([&] { d.stop(); }); std::this_thread::sleep_for(std::chrono::milliseconds(300)); };
  d.run(); if (t.joinable()) t.join(); }
''','')
add('c24-batch','C24',"a callback that throws out of run() while more callbacks are queued",
 "run() takes the whole queue in one batch: the callbacks after one that throws (or the ones pushed before a stop and a later run) are dropped",
 [('simple_dispatcher.h','''				auto cbfn = std::move(m_queue.front());
				m_queue.pop_front();
				lck.unlock();
				if (cbfn) cbfn();''','''				auto batch = std::move(m_queue);
				m_queue.clear();
				lck.unlock();
				for (auto& cbfn : batch) {
					if (m_done) break;
					if (cbfn) cbfn();
				}''')],
 H+'''#include <asyncpp/simple_dispatcher.h>
int main() { asyncpp::simple_dispatcher d; int n = 0; d.push([&] { throw 1; }); d.push([&] { n++; d.stop(); });
  try { d.run(); CHECK(false); } catch (int) {}
  d.push([&] { d.stop(); }); d.run(); CHECK(n == 1); }
''','')
add('c29-nonempty-equal','C29',"an allocator that holds state although all its instances compare equal",
 "operator delete decides by std::is_empty instead of is_always_equal whether an allocator was saved in front of the frame: it reads and releases memory in front of frames that have none",
 [('detail/promise_allocator_base.h','''			if (ptr == nullptr) return;
			if constexpr (std::allocator_traits<allocator_type>::is_always_equal::value) {''','''			if (ptr == nullptr) return;
			if constexpr (std::is_empty_v<allocator_type>) {''')],
 H+'''#include <asyncpp/detail/promise_allocator_base.h>
static std::map<void*, std::size_t> live;
template<class T> struct al { using value_type = T; std::size_t used = 0; al() = default; template<class U> al(const al<U>&) {} using is_always_equal = std::true_type; friend bool operator==(al, al) { return true; }
  T* allocate(std::size_t n) { used += n; auto p = static_cast<T*>(calloc(n + 64, sizeof(T))) + 64; live[p] = n; return p; }
  void deallocate(T* p, std::size_t n) { CHECK(live.count(p) && live[p] == n); live.erase(p); } };
int main() { using b = asyncpp::detail::promise_allocator_base<al<std::byte>>; for (std::size_t n = 1; n < 100; n++) { void* p = b::operator new(n); b::operator delete(p, n); } CHECK(live.empty()); }
''','')
