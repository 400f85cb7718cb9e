#include "coro.h"
#include <asyncpp/defer.h>
#include <asyncpp/simple_dispatcher.h>
using namespace asyncpp;
struct thr : dispatcher { bool on = true; void push(std::function<void()> f) override { throw E1{3}; } };
struct other { std::vector<std::function<void()>> v; void push(std::function<void()> f) { v.push_back(f); } };
int main() {
	sched::once("sequential", [] {
		L::live = 0;
		for (int cur = 0; cur < 3; cur++) for (int how = 0; how < 2; how++) { que q, r; int n = 0; auto* old = cur_t::current(cur == 0 ? nullptr : cur == 1 ? (dispatcher*)&q : &r);
			[](que& q, int& n, int how) -> co { L l; n = 1; if (how) co_await defer(q); else co_await defer(static_cast<dispatcher*>(&q)); n = 2; if (how) co_await defer(&q); n = 3; }(q, n, how); CHECK(n == 1); CHECK(q.pushed == 1); CHECK(r.pushed == 0); CHECK(q.one()); if (how) { CHECK(n == 2); CHECK(q.pushed == 2); CHECK(q.one()); } CHECK(n == 3); CHECK(!q.one()); CHECK(L::live == 0); cur_t::current(old); }
		{ int n = 0; [](int& n) -> co { co_await defer(static_cast<dispatcher*>(nullptr)); n++; }(n); CHECK(n == 1); }
		{ thr t; int n = 0, x = 0; [](thr& t, int& n, int& x) -> co { L l; try { co_await defer(&t); n++; } catch (E1& e) { x = e.v; } n += 10; }(t, n, x); CHECK(x == 3); CHECK(n == 10); CHECK(L::live == 0); }
		{ other o; int n = 0; [](other& o, int& n) -> co { co_await defer(&o); n++; }(o, n); CHECK(n == 0); CHECK(o.v.size() == 1); o.v[0](); CHECK(n == 1); }
		{ inl i; int n = 0; [](inl& i, int& n) -> co { co_await defer(&i); n++; }(i, n); CHECK(n == 1); CHECK(i.n == 1); }
		{ simple_dispatcher d; int n = 0; bool in = false; [](simple_dispatcher& d, int& n, bool& in) -> co { co_await defer(&d); CHECK(in); CHECK(dispatcher::current() == &d); n++; co_await defer(&d); n++; d.stop(); }(d, n, in); CHECK(n == 0); in = true; d.run(); CHECK(n == 2); }
	});
	explore("defer | run", [] { que q; std::hooked_atomic<int> n{0}; threads({[&] { [](que& q, std::hooked_atomic<int>& n) -> co { L l; int data = 5; co_await defer(&q); CHECK(data == 5); n.fetch_add(1); }(q, n); }, [&] { sched::until([&] { q.one(); return n == 1; }); }}); CHECK(n == 1); CHECK(L::live == 0); });
}
