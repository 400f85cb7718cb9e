#include "coro.h"
#include <asyncpp/fire_and_forget.h>
#include <sys/wait.h>
using namespace asyncpp; using A = std::hooked_atomic<int>;
eager_fire_and_forget_task<> eager(A& ran, gate* g, L l = {}) { ran.fetch_add(1); if (g) co_await *g; ran.fetch_add(100); }
fire_and_forget_task<> lazy(A& ran, gate* g, L l = {}) { ran.fetch_add(1); if (g) co_await *g; ran.fetch_add(100); }
eager_fire_and_forget_task<> ex(gate* g, exception_policy p, L l = {}) { co_await p; if (g) co_await *g; throw E1{4}; }
fire_and_forget_task<> lex(exception_policy p, L l = {}) { co_await p; throw E1{4}; co_return; }
fire_and_forget_task<> lexd(L l = {}) { throw E1{4}; co_return; }
fire_and_forget_task<> self(std::unique_ptr<fire_and_forget_task<>>& h, A& ran, L l = {}) { ran.fetch_add(1); h.reset(); ran.fetch_add(100); co_return; }
int dies(std::function<void()> f) { fflush(nullptr); int p = fork(); if (!p) { freopen("/dev/null", "w", stderr); std::set_terminate([] { _exit(77); }); f(); _exit(0); } int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); }
int main() {
	using F = fire_and_forget_task<>; using G = eager_fire_and_forget_task<>;
	sched::once("sequential", [] {
		L::live = 0;
		for (int g = 0; g < 2; g++) for (int copies = 0; copies < 3; copies++) for (int early = 0; early < 2; early++) { gate gt; A ran{0}; std::vector<G> v; v.push_back(eager(ran, g ? &gt : nullptr)); CHECK(ran == (g ? 1 : 101)); for (int i = 0; i < copies; i++) v.push_back(v[0]); if (early) v.clear(); CHECK(L::live == (g || !early ? 1 : 0)); if (g) { gt.fire(); CHECK(ran == 101); } CHECK(L::live == (early ? 0 : 1)); v.clear(); CHECK(L::live == 0); CHECK(ran == 101); }
		for (int g = 0; g < 2; g++) for (int copies = 0; copies < 3; copies++) for (int starts = 0; starts <= copies + 1; starts++) { gate gt; A ran{0}; { std::vector<F> v; v.push_back(lazy(ran, g ? &gt : nullptr)); for (int i = 0; i < copies; i++) v.push_back(v[0]); CHECK(ran == 0); CHECK(L::live == 1); for (int i = 0; i < starts; i++) { v[i].start(); CHECK(ran == (g ? 1 : 101)); v[i].start(); CHECK(ran == (g ? 1 : 101)); } if (starts == copies + 1 && !g) CHECK(L::live == 0); else CHECK(L::live == 1); }
			if (starts && g) { CHECK(L::live == 1); gt.fire(); } CHECK(ran == (starts ? 101 : 0)); CHECK(L::live == 0); }
		{ A ran{0}, r2{0}; { F a = lazy(ran, nullptr), b = lazy(r2, nullptr); a = std::move(b); b.start(); CHECK(ran == 101 && r2 == 0); a.start(); CHECK(r2 == 101); CHECK(L::live == 0); F c = lazy(ran, nullptr); F d(std::move(c)); c.start(); CHECK(ran == 101); F& dr = d; d = dr; d = std::move(dr); CHECK(L::live == 1); F e = d; e = d; a = d; CHECK(L::live == 1); d = lazy(r2, nullptr); CHECK(L::live == 2); b = d; a = b; CHECK(L::live == 2); e = a; CHECK(L::live == 1); } CHECK(L::live == 0); CHECK(ran == 101); CHECK(r2 == 101); }
		{ A ran{0}; auto h = std::make_unique<F>(F(nullptr)); *h = self(h, ran); { F keep = *h; auto* raw = h.get(); raw->start(); CHECK(ran == 101); CHECK(!h); CHECK(L::live == 1); } CHECK(L::live == 0); }
		{ A ran{0}; auto h = std::make_unique<F>(F(nullptr)); *h = self(h, ran); h->start(); CHECK(ran == 101); CHECK(L::live == 0); }
		{ int n = 0; auto pol = exception_policy::handle([&n] { try { throw; } catch (E1& e) { n += e.v; } }); { ex(nullptr, pol); } CHECK(n == 4); CHECK(L::live == 0); { gate g; ex(&g, pol); g.fire(); } CHECK(n == 8); CHECK(L::live == 0); { F t = lex(pol); t.start(); } CHECK(n == 12); CHECK(L::live == 0); { ex(nullptr, exception_policy::ignore); F t = lex(exception_policy::ignore); t.start(); } CHECK(L::live == 0); }
		CHECK(dies([] { F t = lexd(); t.start(); }) == 77); CHECK(dies([] { ex(nullptr, exception_policy::terminate); }) == 77); CHECK(dies([] { ex(nullptr, exception_policy::ignore); }) == 0);
	});
	explore("start | start", [] { L::live = 0; A ran{0}; { auto a = std::make_unique<F>(lazy(ran, nullptr)), b = std::make_unique<F>(*a); threads({[&] { a->start(); }, [&] { b->start(); b.reset(); }}); CHECK(ran == 101); } CHECK(L::live == 0); });
	explore("start | drop", [] { L::live = 0; A ran{0}; { auto a = std::make_unique<F>(lazy(ran, nullptr)), b = std::make_unique<F>(*a); threads({[&] { a->start(); }, [&] { b.reset(); }}); CHECK(ran == 101); CHECK(L::live == 0); } });
	explore("drop | drop", [] { L::live = 0; A ran{0}; { auto a = std::make_unique<F>(lazy(ran, nullptr)), b = std::make_unique<F>(*a); threads({[&] { a.reset(); }, [&] { b.reset(); }}); CHECK(ran == 0); CHECK(L::live == 0); } });
	explore("finish | drop, drop", [] { L::live = 0; A ran{0}; gate g; { auto a = std::make_unique<G>(eager(ran, &g)), b = std::make_unique<G>(*a); threads({[&] { g.fire(); }, [&] { a.reset(); b.reset(); }}); CHECK(ran == 101); CHECK(L::live == 0); } });
	explore("copy | finish", [] { L::live = 0; A ran{0}; gate g; { F a = lazy(ran, &g); F b = a; F c = a; threads({[&] { F d = a; a.start(); }, [&] { g.fire(); }, [&] { F e = c; e = b; }}); CHECK(ran == 101); CHECK(L::live == 1); } CHECK(L::live == 0); });
}
