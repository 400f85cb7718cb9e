#include "coro.h"
#include <asyncpp/launch.h>
#include <asyncpp/task.h>
#include <sys/wait.h>
using namespace asyncpp; using A = std::hooked_atomic<int>; using Sc = async_launch_scope;
task<> work(gate* g, A* n, L l = {}) { if (g) co_await *g; if (n) n->fetch_add(1); }
co joiner(Sc& s, A& j, std::function<void()> then = {}) { co_await s.join(); j.fetch_add(1); if (then) then(); }
int dies(std::function<void()> f) { fflush(nullptr); int p = fork(); if (!p) { freopen("/dev/null", "w", stderr); std::set_terminate([] { _exit(77); }); f(); _exit(0); } int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); }
template<int> struct big { std::string s = std::string(60, 'x'); gate* g; L l; task<> operator()() & { CHECK(s.size() == 60); return run(this); } task<> operator()() && { return run(this); } task<> operator()() const& { return run(this); } static task<> run(const big* b) { co_await *b->g; CHECK(b->s == std::string(60, 'x')); } };
int main() {
	sched::once("sequential", [] {
		L::live = 0; { Sc s; A j{0}; joiner(s, j); CHECK(j == 1); joiner(s, j); CHECK(j == 2); }
		for (int n = 0; n < 5; n++) for (int sync = 0; sync <= n; sync++) for (int early = 0; early < 2; early++) for (int rounds = 0; rounds < 2; rounds++) { Sc s; A j{0}, d{0}; gate g[5];
			for (int i = 0; i < n; i++) s.launch(work(i < sync ? nullptr : &g[i], &d)); CHECK(d == sync); CHECK(s.all_done() == (sync == n)); CHECK(s.inflight_coroutines() == size_t(n - sync));
			if (early) { joiner(s, j); CHECK(j == (sync == n)); } for (int i = n - 1; i >= sync; i--) { CHECK(j == 0); CHECK(!s.all_done()); g[i].fire(); } CHECK(d == n); CHECK(s.all_done()); if (!early) { CHECK(j == 0); joiner(s, j); } CHECK(j == 1); CHECK(s.inflight_coroutines() == 0); CHECK(L::live == 0);
			if (rounds) { gate h; s.launch(work(&h, &d)); joiner(s, j); CHECK(j == 1); CHECK(s.inflight_coroutines() == 1); h.fire(); CHECK(j == 2); CHECK(s.all_done()); } }
		{ auto s = std::make_unique<Sc>(); A j{0}; gate g; s->launch(work(&g, nullptr)); joiner(*s, j, [&] { s.reset(); }); g.fire(); CHECK(j == 1); CHECK(!s); }
		{ Sc s; A j{0}; gate g; { big<0> b{.g = &g}; s.invoke(b); } { big<1> b{.g = &g}; } joiner(s, j); CHECK(j == 0); g.fire(); CHECK(j == 1); CHECK(L::live == 0); }
		{ Sc s; A j{0}; gate g; s.invoke(big<0>{.g = &g}); joiner(s, j); g.fire(); CHECK(j == 1); CHECK(L::live == 0); }
		{ Sc s; A j{0}; gate g; { big<0> b{.g = &g}; s.invoke_tuple(b, std::tuple<>{}); } joiner(s, j); CHECK(j == 0); g.fire(); CHECK(j == 1); CHECK(L::live == 0); }
		for (int t = 0; t < 3; t++) { Sc s; A j{0}; bool idle = true, early = true; gate g; auto f = [&] { idle = s.all_done(); joiner(s, j); early = j != 0; return gref{&g}; }; if (t == 0) s.invoke(f); else if (t == 1) s.invoke_tuple(f, std::tuple<>{}); else { struct aw { std::function<gref()> f; gate* g; bool await_ready() { f(); return false; } bool await_suspend(std::coroutine_handle<> h) { return g->await_suspend(h); } void await_resume() {} }; s.launch(aw{f, &g}); } CHECK(!idle); CHECK(!early); CHECK(j == 0); g.fire(); CHECK(j == 1); }
		{ Sc s; A j{0}; int sum = 0; s.invoke([&sum](int a, int b) -> task<> { sum = a + b; co_return; }, 3, 4); CHECK(sum == 7); s.invoke_tuple([&sum](int a, int b) -> task<> { sum = a * b; co_return; }, std::make_tuple(3, 4)); CHECK(sum == 12); joiner(s, j); CHECK(j == 1); }
		{ A d{0}; gate g; launch(work(&g, &d)); CHECK(d == 0); g.fire(); CHECK(d == 1); CHECK(L::live == 0); launch(work(nullptr, &d)); CHECK(d == 2); CHECK(L::live == 0); }
		CHECK(dies([] { Sc s; s.launch([]() -> task<> { throw E1{1}; co_return; }()); }) == 77);
	});
	explore("join | finish", [] { auto s = std::make_unique<Sc>(); A j{0}; gate g; s->launch(work(&g, nullptr)); threads({[&] { joiner(*s, j, [&] { s.reset(); }); }, [&] { g.fire(); }}); CHECK(j == 1); });
	explore("join | finish | finish", [] { auto s = std::make_unique<Sc>(); A j{0}; gate g, h; int d[2] = {}; s->launch(work(&g, nullptr)); s->launch(work(&h, nullptr)); threads({[&] { joiner(*s, j, [&] { CHECK(d[0] + d[1] == 2); s.reset(); }); }, [&] { d[0] = 1; g.fire(); }, [&] { d[1] = 1; h.fire(); }}); CHECK(j == 1); });
	explore("launch | finish | join later", [] { Sc s; A j{0}, n{0}; gate g, h; s.launch(work(&h, &n)); threads({[&] { s.launch(work(&g, &n)); }, [&] { h.fire(); g.fire(); }}); CHECK(n == 2); CHECK(s.all_done()); joiner(s, j); CHECK(j == 1); });
	explore("join again", [] { auto s = std::make_unique<Sc>(); A j{0}; gate g, h; s->launch(work(&g, nullptr)); threads({[&] { [](Sc& s, A& j, gate& h) -> co { co_await s.join(); j.fetch_add(1); s.launch(work(&h, nullptr)); co_await s.join(); j.fetch_add(1); }(*s, j, h); }, [&] { g.fire(); h.fire(); }}); CHECK(j == 2); CHECK(s->all_done()); });
}
