#include "ev.h"
#include <asyncpp/scope_guard.h>
int main() {
	sched::once("every sequence", [] {
		for (int init = 0; init < 3; init++) for (int len = 0; len < 7; len++) for (int ops = 0; ops < 1 << len; ops++) for (int how = 0; how < 2; how++) {
			int n = 0, m = 0; bool e = init != 0; 
			auto run = [&] { auto f = [&n]() noexcept { n++; };
				auto body = [&](auto& g) { CHECK(g.is_engaged() == e); for (int i = 0; i < len; i++) { if (ops >> i & 1) { g.engage(); e = true; } else { g.disengage(); e = false; } CHECK(g.is_engaged() == e); CHECK(n == 0); } };
				if (init == 2) { asyncpp::scope_guard g{f}; body(g); if (how) throw 1; } else { asyncpp::scope_guard g{f, init == 1}; body(g); if (how) throw 1; } };
			try { run(); } catch (int) {} CHECK(n == int(e));
		}
		{ int a = 0; struct S { int* p; bool done = false; S(int* p) : p(p) {} S(S&& o) : p(std::exchange(o.p, nullptr)) {} void operator()() noexcept { CHECK(p); CHECK(!done); done = true; (*p)++; } }; { asyncpp::scope_guard<S> g{S(&a)}; CHECK(g.function().p == &a); CHECK(std::as_const(g).function().p == &a); } CHECK(a == 1); }
		{ std::shared_ptr<int> p = std::make_shared<int>(0); std::string big(100, 'x'); { asyncpp::scope_guard g{[p, big]() noexcept { CHECK(big.size() == 100); ++*p; }}; CHECK(p.use_count() == 2); } CHECK(*p == 1); CHECK(p.use_count() == 1); }
	});
}
