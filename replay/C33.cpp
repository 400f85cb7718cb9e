#include "coro.h"
#include <functional>
#define main am_main
#include <asyncpp/async_main.h>
#undef main
using namespace asyncpp; using A = std::hooked_atomic<int>;
extern "C" const char* __asan_default_options() { return "detect_stack_use_after_return=1"; }
static std::function<task<int>(int, const char**)> user; static int calls;
task<int> async_main(int argc, const char** argv) { calls++; return user(argc, argv); }
static const char* av[] = {"prog", "x", nullptr};
static int go(int argc = 2) { calls = 0; int r = am_main(argc, av); CHECK(calls == 1); CHECK(!dispatcher::current()); return r; }
static void noise() { volatile char b[4096]; for (auto& c : b) c = 0x5a; }
int main() {
	sched::once("at once", [] {
		L::live = 0;
		user = [](int c, const char** v) -> task<int> { L l; CHECK(c == 2 && v == av); CHECK(dispatcher::current()); co_return 42; }; CHECK(go() == 42);
		user = [](int, const char**) -> task<int> { co_return 0; }; CHECK(go() == 0);
		user = [](int, const char**) -> task<int> { co_return -7; }; CHECK(go() == -7);
		user = [](int, const char**) -> task<int> { L l; throw E1{5}; co_return 1; }; bool t = false; try { am_main(2, av); } catch (const E1& e) { t = e.v == 5; } CHECK(t);
		user = [](int, const char**) -> task<int> { throw E1{6}; }; t = false; try { am_main(2, av); } catch (const E1& e) { t = e.v == 6; } CHECK(t);
		user = [](int c, const char**) -> task<int> { int n = 0; for (int i = 0; i < 3; i++) { auto* d = dispatcher::current(); struct hop { dispatcher* d; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { d->push([h] { h.resume(); }); } void await_resume() {} }; co_await hop{d}; CHECK(dispatcher::current() == d); n += i; } co_return n; }; CHECK(go() == 3);
		user = [](int, const char**) -> task<int> { auto in = []() -> task<int> { L l; co_return 9; }; co_return co_await in() + 1; }; CHECK(go() == 10);
		CHECK(L::live == 0);
	});
	explore("finished by another thread", [] { gate g; L::live = 0; user = [&g](int, const char**) -> task<int> { L l; co_await gref{&g}; co_return 17; }; threads({[&] { CHECK(go() == 17); noise(); }, [&] { g.fire(); }}); CHECK(L::live == 0); });
	explore("failed on another thread", [] { gate g; L::live = 0; user = [&g](int, const char**) -> task<int> { L l; co_await gref{&g}; throw E1{3}; co_return 17; }; threads({[&] { bool t = false; try { am_main(2, av); } catch (const E1& e) { t = e.v == 3; } CHECK(t); noise(); }, [&] { g.fire(); }}); CHECK(L::live == 0); });
	explore("two threads in turn", [] { gate g, h; user = [&](int, const char**) -> task<int> { co_await gref{&g}; co_await gref{&h}; co_return 18; }; threads({[&] { CHECK(go() == 18); noise(); }, [&] { g.fire(); }, [&] { h.fire(); }}); });
	explore("pushed back to the dispatcher by another thread", [] { gate g; user = [&g](int, const char**) -> task<int> { auto* d = dispatcher::current(); co_await gref{&g}; struct hop { dispatcher* d; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { d->push([h] { h.resume(); }); } void await_resume() {} }; co_await hop{d}; CHECK(dispatcher::current() == d); co_return 19; }; threads({[&] { CHECK(go() == 19); noise(); }, [&] { g.fire(); }}); });
}
