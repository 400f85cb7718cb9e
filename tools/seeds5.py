import sys, shutil; sys.path.insert(0,'/verif/tools')
from mkseed import add
def addv(i, *a, heads=('vsched.h',), **k):
    add(i, *a, **k)
    for h in heads: shutil.copy('/verif/replay/' + h, '/verif/seeded/' + i)
only=sys.argv[1:]
def S(i, *a, f=addv, **k):
    if not only or i in only: f(i, *a, **k)
V='''#include "vsched.h"
using namespace sched;
using A = std::hooked_atomic<int>;
'''
H='#include "demo.h"\n'
S('c09-late-on-settle','C09','a promise settled by another thread while on_settle is registering its callback',
 'on_settle looks at the state under the lock, but registers after it has taken the lock again: a callback registered to a promise that settled in between is never invoked',
 [('promise.h','''				std::unique_lock lck{m_mtx};
				if (m_value.index() == pending_index)
					m_on_settle.emplace_back(std::move(settle_cb));
				else {
					lck.unlock();
					settle_cb();
				}
''','''				bool pending = false;
				{
					std::unique_lock lck{m_mtx};
					pending = m_value.index() == pending_index;
				}
				if (pending) {
					std::unique_lock lck{m_mtx};
					m_on_settle.emplace_back(std::move(settle_cb));
				} else
					settle_cb();
''')],
 V+'''#include <asyncpp/promise.h>
int main() { explore("on_settle | fulfill", [] { A n{0}; asyncpp::promise<int> p; threads({[&] { p.on_settle([&] { n.fetch_add(1); }); }, [&] { p.fulfill(1); }}); CHECK(n == 1); }); }
''')
S('c10-all-recount','C10','the last two inputs of a promise_all settle on different threads at the same time',
 'promise_all counts with a load and a store: a settlement is lost and the result never settles',
 [('promise.h','''			auto curid = shared->count.fetch_add(1);
''','''			auto curid = shared->count.load();
			shared->count.store(curid + 1);
''')],
 V+'''#include <asyncpp/promise.h>
int main() { explore("settle | settle", [] { asyncpp::promise<int> a, b; auto r = asyncpp::promise_all(a, b); threads({[&] { a.fulfill(1); }, [&] { b.fulfill(2); }}); CHECK(r.try_get()); }); }
''')
S('c18-late-exception','C18','an exception that leaves the task after its co_return has stored the value (the destructor of a local throws)',
 'the exception is only stored if there is no result yet: the await yields the value and the exception is lost',
 [('task.h','''				m_value.template emplace<std::exception_ptr>(std::current_exception());
''','''				if (std::holds_alternative<std::monostate>(m_value))
					m_value.template emplace<std::exception_ptr>(std::current_exception());
''')],
 H+'''#include <asyncpp/task.h>
struct boom { ~boom() noexcept(false) { throw 3; } };
asyncpp::task<int> t() { boom b; co_return 1; }
int main() { int got = 0, x = 0; [](int& got, int& x) -> demo::co { try { got = co_await t(); } catch (int e) { x = e; } }(got, x); CHECK(got == 0 && x == 3); }
''', f=add)
S('c19-self-move','C19','a generator move assigned to itself',
 'move assignment destroys its own frame first: assigned to itself, the generator keeps a handle to the destroyed frame and destroys it again',
 [('generator.h','''			m_coro = std::exchange(other.m_coro, m_coro);
''','''			if (m_coro) m_coro.destroy();
			m_coro = std::exchange(other.m_coro, {});
''')],
 H+'''#include <asyncpp/generator.h>
asyncpp::generator<int> g(int& dead) { struct D { int& d; ~D() { d++; } } d{dead}; for (int i = 0;; i++) co_yield i; }
int main() { int dead = 0; { auto a = g(dead); auto it = a.begin(); ++it; auto& b = a; a = std::move(b); CHECK(dead == 0); CHECK(*it == 1); ++it; CHECK(*it == 2); } CHECK(dead == 1); }
''', f=add)
S('c20-stale-on-exception','C20','a body that throws after it has yielded at least one value',
 'the end mark is set when the body returns, not when it is left by an exception: the consumer is given the last value again and the exception is lost',
 [('async_generator.h','''				m_value = nullptr;
				return internal_yield_value();
			}
			void unhandled_exception() noexcept { m_exception = std::current_exception(); }
			void return_void() noexcept {}
''','''				return internal_yield_value();
			}
			void unhandled_exception() noexcept { m_exception = std::current_exception(); }
			void return_void() noexcept { m_value = nullptr; }
''')],
 H+'''#include <asyncpp/async_generator.h>
asyncpp::async_generator<int> g() { static int v; v = 1; co_yield v; v = 2; co_yield v; throw 7; }
int main() { int n = 0, x = 0; [](int& n, int& x) -> demo::co { auto a = g(); try { for (auto it = co_await a.begin(); it != a.end() && n < 5; co_await ++it) n++; } catch (int e) { x = e; } }(n, x); CHECK(n == 2); CHECK(x == 7); }
''', f=add)
S('c21-unref-check','C21','the last two holders of a frame let go at the same time on two threads',
 'unref looks at the count before it decrements it: both see another holder, the frame is never destroyed',
 [('fire_and_forget.h','''					if (m_ref_count.fetch_sub(1) == 1) coroutine_handle<promise_type>::from_promise(*this).destroy();
''','''					if (m_ref_count.load() == 1)
						coroutine_handle<promise_type>::from_promise(*this).destroy();
					else
						m_ref_count.fetch_sub(1);
''')],
 V+'''#include <asyncpp/fire_and_forget.h>
struct L { int* n; L(int* n) : n(n) { ++*n; } L(const L& o) : n(o.n) { ++*n; } ~L() { --*n; } };
asyncpp::fire_and_forget_task<> f(L) { co_return; }
int main() { explore("drop | drop", [] { int live = 0; { auto a = std::make_unique<asyncpp::fire_and_forget_task<>>(f(L(&live))); auto b = std::make_unique<asyncpp::fire_and_forget_task<>>(*a); CHECK(live == 1); threads({[&] { a.reset(); }, [&] { b.reset(); }}); } CHECK(live == 0); }); }
''')
S('c22-late-count','C22','a callable that looks at the scope, or waits for it to be joined, while it is still being invoked',
 'invoke_tuple counts the task after it has called the callable: until then the scope reports idle and a join completes although launched work is running',
 [('launch.h','''				scope->m_count.fetch_add(1);
				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
				co_await std::apply(callable, std::move(args));
''','''				auto&& awaitable = std::apply(callable, std::move(args));
				scope->m_count.fetch_add(1);
				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
				co_await std::forward<decltype(awaitable)>(awaitable);
''')],
 H+'''#include <asyncpp/launch.h>
#include <asyncpp/task.h>
int main() { asyncpp::async_launch_scope s; bool idle = true, joined = false, at = false;
	s.invoke_tuple([&](int) -> std::suspend_never { idle = s.all_done(); [](asyncpp::async_launch_scope& s, bool& j) -> demo::co { co_await s.join(); j = true; }(s, joined); at = joined; return {}; }, std::tuple<int>(1));
	CHECK(!idle); CHECK(!at); CHECK(joined); CHECK(s.all_done()); }
''', f=add)
S('c31-steal','C31','as_promise asked for a value of an awaitable that yields a reference to an object of its own',
 'the result is bound first and then cast to the type of the future: for as_promise<T> of an awaitable that yields T& the value is moved out of an object that belongs to someone else',
 [('sync_wait.h','''				promise.set_value(co_await std::move(awaiter));
''','''				auto&& value = co_await std::move(awaiter);
				promise.set_value(static_cast<T&&>(value));
''')],
 H+'''#include <asyncpp/sync_wait.h>
struct shared { std::string* s; bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) {} std::string& await_resume() { return *s; } };
int main() { std::string s(60, 'x'); for (int i = 0; i < 2; i++) CHECK(asyncpp::as_promise<std::string>(shared{&s}).get() == std::string(60, 'x')); CHECK(s == std::string(60, 'x')); }
''', f=add)
T='''#define VSCHED_CLOCK
#define ASYNCPP_FORCE_CUSTOM_STOP_TOKEN 1
'''+V+'''#include <asyncpp/timer.h>
using namespace asyncpp; using clk = std::chrono::steady_clock; using std::chrono::milliseconds;
static clk::time_point at(long ms) { return clk::time_point(clk::duration(ticks() + ms * 1000000)); }
'''
S('c26-oversleep','C26','an entry without a stop token and an earlier one with a stop token',
 'the time to sleep is taken from the entries with a stop token only if there is no other entry: an earlier entry with a stop token is delivered late',
 [('timer.h','''				if (!m_scheduled_cancellable_set.empty())
					timeout''','''				else if (!m_scheduled_cancellable_set.empty())
					timeout''')],
 T+'''int main() { explore("two kinds", [] { threads({[] { A n{0}; stop_source s; { timer t; t.schedule([](bool) {}, at(300)); auto d = at(50); t.schedule([&, d](bool b) { CHECK(!b || ticks() <= d.time_since_epoch().count() + 1000000); n.fetch_add(1); }, d, s.get_token()); until([&] { return n.v > 0; }); } CHECK(n == 1); }}); }); }
''')
S('c26-wake-first','C26','a sleeping timer thread and an entry that is due before the one it sleeps for',
 'schedule wakes the timer thread only for the first entry: an earlier one that is added later is delivered late',
 [('timer.h','''			m_scheduled_set.emplace(timeout, std::move(cbfn));
			m_cv.notify_all();
''','''			m_scheduled_set.emplace(timeout, std::move(cbfn));
			if (m_scheduled_set.size() == 1) m_cv.notify_all();
''')],
 T+'''int main() { explore("earlier entry later", [] { threads({[] { A n{0}; { timer t; t.schedule([](bool) {}, at(400)); until([] { return true; }); auto d = at(50); t.schedule([&, d](bool b) { CHECK(!b || ticks() <= d.time_since_epoch().count() + 1000000); n.fetch_add(1); }, d); until([&] { return n.v > 0; }); } CHECK(n == 1); }}); }); }
''')
S('c26-stale-now','C26','a callback that takes a while and an entry that is due shortly after it',
 'the time is not read again after the due callbacks were invoked: the timer thread sleeps too long by the time they took',
 [('timer.h','''				now = std::chrono::steady_clock::now();
				std::chrono::nanoseconds''','''				std::chrono::nanoseconds''')],
 T+'''int main() { explore("a slow callback", [] { threads({[] { A n{0}; { timer t; auto d = at(50); t.schedule([&, d](bool b) { CHECK(!b || ticks() <= d.time_since_epoch().count() + 5000000); n.fetch_add(1); }, d); t.schedule([](bool) { tick(40000000); }, at(0)); until([&] { return n.v > 0; }); } CHECK(n == 1); }}); }); }
''')
FB='''#include <asyncpp/fiber.h>
#include <coroutine>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <xmmintrin.h>
using namespace asyncpp;
#undef CHECK
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); std::exit(1); } } while (0)
struct co { struct promise_type { co get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { std::exit(1); } }; std::coroutine_handle<promise_type> h; };
struct gate { coroutine_handle<> h{}; void fire() { auto c = h; h = nullptr; c.resume(); } };
struct aw { gate* g; bool await_ready() { return false; } void await_suspend(coroutine_handle<> c) { g->h = c; } void await_resume() {} };
template<class F> co into(F& f, int& out, int& done) { out = co_await f; done++; }
'''
def F28(*a, **k): add(*a, flags='-DASYNCPP_HAS_VALGRIND=0 -fsanitize=undefined', **k)
S('c28-mxcsr','C28','a fiber that changes the rounding mode, or is resumed by someone with another one',
 'the SSE control word is saved but not restored by the context switch: the rounding mode of the fiber leaks into whoever resumed it and back',
 [('fiber.h','''			"ldmxcsr (%rsp)\\n"	  // Restore MMX control- and status-word
''','')],
 FB+'''int main() { unsigned was = _MM_GET_ROUNDING_MODE(); gate g; int r = 0, d = 0; fiber f([&] { _MM_SET_ROUNDING_MODE(_MM_ROUND_UP); fib_await aw{&g}; return _MM_GET_ROUNDING_MODE() == _MM_ROUND_UP ? 1 : 2; }); into(f, r, d); CHECK(_MM_GET_ROUNDING_MODE() == was); g.fire(); CHECK(d == 1 && r == 1); }
''', f=F28)
S('c28-self-move','C28','a fiber move assigned to itself',
 'move assignment of fiber<void> has no check for self assignment: the fiber is destroyed and its handle kept or lost',
 [('fiber.h','''			if (&other != this) {
				if (m_handle) m_handle.destroy();
				m_handle = std::exchange(other.m_handle, nullptr);
			}
''','''			if (m_handle) m_handle.destroy();
			m_handle = std::exchange(other.m_handle, nullptr);
''')],
 FB+'''int main() { int n = 0; fiber<void> f([&] { n++; }); auto& o = f; f = std::move(o); [](fiber<void>& f) -> co { co_await f; }(f); CHECK(n == 1); }
''', f=F28)
S('c28-one-guard','C28','a fiber that accesses memory above its stack',
 'only the page below the stack is protected: whatever is mapped above it can be overwritten from the stack unnoticed',
 [('fiber.h','''		res = ::mprotect(static_cast<std::byte*>(stack) + size + pagesize, pagesize, PROT_NONE);
		assert(res == 0);
''','')],
 FB+'''#include <cstring>
#include <fcntl.h>
#include <unistd.h>
static bool guarded(void* p) { static char b[1 << 18]; int f = open("/proc/self/maps", O_RDONLY); size_t n = 0; ssize_t r; while ((r = read(f, b + n, sizeof b - 1 - n)) > 0) n += r; close(f); b[n] = 0;
	unsigned long a = (unsigned long)p, x, y, e = 0; char q[8]; for (char* s = b; *s;) { CHECK(sscanf(s, "%lx-%lx %4s", &x, &y, q) == 3); if (e) return x == e && !strncmp(q, "---", 3); if (x <= a && a < y) e = y; s = strchr(s, '\\n') + 1; } return false; }
int main() { int r = 0, d = 0; fiber f([] { char c; return guarded(&c) ? 1 : 2; }); into(f, r, d); CHECK(d == 1 && r == 1); }
''', f=F28)
S('c28-stale-exception','C28','an awaitable whose await_suspend throws, followed by another suspension',
 'the exception thrown by await_suspend stays recorded: the next fib_await that suspends rethrows it instead of yielding its result',
 [('fiber.h','std::rethrow_exception(std::exchange(hndl->suspend_exception, nullptr));','std::rethrow_exception(hndl->suspend_exception);')],
 FB+'''struct thr { bool await_ready() { return false; } void await_suspend(coroutine_handle<>) { throw 1; } void await_resume() {} };
int main() { gate g; int r = 0, d = 0; fiber f([&] { int n = 0; try { fib_await thr{}; } catch (int) { n++; } try { fib_await aw{&g}; } catch (int) { n += 10; } return n; }); into(f, r, d); g.fire(); CHECK(d == 1 && r == 1); }
''', f=F28)
S('c28-second-waiter','C28','a coroutine that awaits a fiber from within the coroutine awaiting it, or after it, while it is suspended',
 'a second coroutine that awaits a suspended fiber replaces the first one, which is never resumed, if the two are awaited with fiber<T>',
 [('fiber.h','if (ctx->continuation != nullptr) throw','if (ctx->continuation != nullptr && !ctx->was_started) throw')],
 FB+'''int main() { gate g; int r = 0, d = 0, t = 0; fiber f([&] { fib_await aw{&g}; return 1; }); into(f, r, d); [](decltype(f)& f, int& t) -> co { try { co_await f; } catch (const std::logic_error&) { t = 1; } }(f, t); CHECK(t == 1); g.fire(); CHECK(d == 1 && r == 1); }
''', f=F28)
S('c28-nested-current','C28','a fiber that starts or resumes another fiber and suspends afterwards',
 'the current fiber is not restored when a fiber that was resumed has finished: the fiber it ran in suspends the finished one',
 [('fiber.h','			g_current_fiber = old;\n			if (hndl->continuation','			if (old == nullptr) g_current_fiber = old;\n			if (hndl->continuation')],
 FB+'''int main() { gate g, q; int r = 0, d = 0; fiber in([&] { fib_await aw{&q}; return 5; }); int r2 = 0, d2 = 0; fiber out([&] { into(in, r2, d2); q.fire(); fib_await aw{&g}; return r2 + 1; }); into(out, r, d); CHECK(d2 == 1 && g.h); g.fire(); CHECK(d == 1 && r == 6); }
''', f=F28)
AM='''#include "vsched.h"
#include <asyncpp/launch.h>
#define main am_main
#include <asyncpp/async_main.h>
#undef main
using namespace sched; using namespace asyncpp;
static coroutine_handle<> waiting; static std::hooked_atomic<int> ready_{0};
struct gate { bool await_ready() { return false; } void await_suspend(coroutine_handle<> h) { waiting = h; ready_.store(1); } int await_resume() { return 17; } };
static void fire() { while (!ready_.load()) std::this_thread::yield(); waiting.resume(); }
static const char* av[] = {"prog", nullptr};
'''
S('c33-late-result','C33','async_main finishes on another thread, and main returns between stop() and the assignment',
 'the result is stored after the dispatcher was stopped: main returns -1 or the other thread writes to the stack of main after it has returned',
 [('async_main.h','''				result.first = co_await async_main(argc, argv);
''','''				auto code = co_await async_main(argc, argv);
				disp->stop();
				result.first = code;
				co_return;
''')],
 AM+'''task<int> async_main(int, const char**) { co_return co_await gate{}; }
int main() { explore("finished elsewhere", [] { ready_.store(0); int r = 0; threads({[&] { r = am_main(1, av); }, [] { fire(); }}); CHECK(r == 17); }); }
''')
S('c33-stop-on-success','C33','async_main ends with an exception',
 'the dispatcher is stopped only if async_main returned: main never returns if it throws',
 [('async_main.h','''				result.first = co_await async_main(argc, argv);
''','''				result.first = co_await async_main(argc, argv);
				disp->stop();
'''),('async_main.h','''			}
			disp->stop();
''','''			}
''')],
 AM+'''task<int> async_main(int, const char**) { throw 3; co_return 0; }
#include <unistd.h>
int main() { alarm(10); try { am_main(1, av); } catch (int e) { return e != 3; } return 1; }
''')
S('c33-exception-code','C33','async_main ends with an exception',
 'an exception of async_main is swallowed if its exit code was never set: main returns -1 instead of throwing what async_main threw',
 [('async_main.h','if (result.second) std::','if (result.second && result.first >= 0) std::')],
 AM+'''task<int> async_main(int, const char**) { throw 3; co_return 0; }
int main() { try { am_main(1, av); } catch (int e) { return e != 3; } return 1; }
''')
S('c33-unref-argv','C33','async_main finishes on another thread',
 'the launcher refers to the arguments and the dispatcher through the callback, which the dispatcher has destroyed when async_main finishes later',
 [('async_main.h','''		[](simple_dispatcher* disp, std::pair<int, std::exception_ptr>& result, int argc,
		   const char** argv) -> eager_fire_and_forget_task<> {
''','''		[&disp, &result, argc, argv]() -> eager_fire_and_forget_task<> {
'''),('async_main.h','disp->stop();','disp.stop();'),('async_main.h','}(&disp, result, argc, argv);','}();')],
 AM+'''task<int> async_main(int, const char**) { co_return co_await gate{}; }
extern "C" const char* __asan_default_options() { return "detect_stack_use_after_return=1"; }
int main() { once("finished elsewhere", [] { ready_.store(0); int r = 0; threads({[&] { r = am_main(1, av); }, [] { fire(); }}); CHECK(r == 17); }); }
''')
S('c33-done-early','C33','run() looks at the flag between stop() setting it and notifying',
 'stop() announces itself before it takes the lock: run() returns and main destroys the dispatcher that stop() is about to lock',
 [('simple_dispatcher.h','''			std::unique_lock lck{m_mtx};
			m_done = true;''','''			m_done = true;
			std::unique_lock lck{m_mtx};''')],
 AM+'''task<int> async_main(int, const char**) { co_return co_await gate{}; }
int main() { explore("finished elsewhere", [] { ready_.store(0); int r = 0; threads({[&] { r = am_main(1, av); }, [] { fire(); }}); CHECK(r == 17); }); }
''')
S('c11-third-reader','C11','a third reader waiting on a channel at the same time',
 'the walk to the end of the list of readers stops after one step: the third reader cuts off those behind the second',
 [('channel.h','''		auto last = m_parent->m_reader_list;
		while (last && last->m_next)
			last = last->m_next;
''','''		auto last = m_parent->m_reader_list;
		if (last && last->m_next)
			last = last->m_next;
''')],
 '''#include <asyncpp/channel.h>
#include <asyncpp/fire_and_forget.h>
#include <cstdio>
using namespace asyncpp;
int main() { channel<int> c; int got = 0; auto rd = [&]() -> eager_fire_and_forget_task<> { auto v = co_await c.read(); if (v) got += *v; };
  for (int i = 0; i < 4; i++) rd();
  for (int i = 0; i < 4; i++) if (!c.try_write(1 << i)) return 2;
  c.close(); std::printf("%d\\n", got); return got == 15 ? 0 : 1; }
''', f=add)
