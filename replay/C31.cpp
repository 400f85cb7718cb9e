#include "coro.h"
#include <asyncpp/fire_and_forget.h>
#include <asyncpp/task.h>
#include "vfuture.h"
#include <asyncpp/sync_wait.h>
#undef promise
#undef future
using namespace asyncpp;
template<typename T> bool ready(T& f) { return f.ready(); }
struct aw { gate* g; int v; int x = 0; L l; std::string s = std::string(40, 'q'); static inline int uses = 0; bool await_ready() { return false; } bool await_suspend(std::coroutine_handle<> h) { CHECK(s == std::string(40, 'q')); return g->await_suspend(h); } int await_resume() { uses++; CHECK(s == std::string(40, 'q')); if (x) throw E1{x}; return v; } };
struct awr { gate* g; std::string* r; bool await_ready() { return g == nullptr; } bool await_suspend(std::coroutine_handle<> h) { return g->await_suspend(h); } std::string& await_resume() { return *r; } };
struct awv { gate* g; int x = 0; L l; bool await_ready() { return false; } bool await_suspend(std::coroutine_handle<> h) { return g->await_suspend(h); } void await_resume() { if (x) throw E1{x}; } };
task<std::unique_ptr<int>> up(gate* g) { co_await *g; co_return std::make_unique<int>(3); }
int main() {
	sched::once("sequential", [] {
		for (int x = 0; x < 2; x++) for (int lv = 0; lv < 2; lv++) for (int early = 0; early < 2; early++) { L::live = 0; aw::uses = 0; gate g; auto a = std::make_unique<aw>(aw{&g, 6, x * 5}); if (early) g.fire(); auto f = lv ? as_promise(*a) : as_promise(std::move(*a)); a.reset(); if (!early) { CHECK(!ready(f)); CHECK(L::live == 1); g.fire(); } CHECK(ready(f)); CHECK(L::live == 0); CHECK(aw::uses == 1); try { CHECK(f.get() == 6); CHECK(!x); } catch (E1& e) { CHECK(x && e.v == 5); } }
		for (int x = 0; x < 2; x++) { gate g; auto f = as_promise(awv{&g, x}); CHECK(!ready(f)); g.fire(); CHECK(ready(f)); try { f.get(); CHECK(!x); } catch (E1&) { CHECK(x); } CHECK(L::live == 0); }
		{ std::string s = "v"; gate g; auto f = as_promise<std::string&>(awr{&g, &s}); CHECK(!ready(f)); g.fire(); CHECK(&f.get() == &s); auto h = as_promise<std::string>(awr{nullptr, &s}); CHECK(ready(h)); CHECK(h.get() == "v"); CHECK(s == "v"); }
		{ gate g; auto f = as_promise(up(&g)); CHECK(!ready(f)); g.fire(); auto p = f.get(); CHECK(p && *p == 3); }
		{ gate g; auto f = as_promise<long>(aw{&g, 5}); g.fire(); CHECK(f.get() == 5); auto v = as_promise<void>(aw{&g, 5}); CHECK(ready(v)); v.get(); CHECK(L::live == 0); }
	});
	explore("get | finish", [] { L::live = 0; gate g; int r = 0; threads({[&] { auto f = as_promise(aw{&g, 8}); r = f.get(); }, [&] { g.fire(); }}); CHECK(r == 8); CHECK(L::live == 0); });
	explore("get | fail", [] { L::live = 0; gate g; int r = 0; threads({[&] { auto f = as_promise(awv{&g, 8}); try { f.get(); } catch (E1& e) { r = e.v; } }, [&] { g.fire(); }}); CHECK(r == 8); CHECK(L::live == 0); });
}
