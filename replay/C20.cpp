#include "coro.h"
#include <asyncpp/async_generator.h>
using namespace asyncpp; using A = std::hooked_atomic<int>;
int running = 0, made = 0;
async_generator<int> count(int n, int thr, gate* g, L l = {}) { for (int i = 0; i < n; i++) { if (g) co_await g[i]; if (i == thr) throw E1{i}; running++; made = i + 1; co_yield i; } if (g) co_await g[n]; if (thr == n) throw E1{n}; made = n + 1; }
async_generator<std::string&&> moved(L l = {}) { for (int i = 0; i < 3; i++) { std::string s(50, char('a' + i)); co_yield std::move(s); } }
async_generator<int&> refs(std::vector<int>& v) { for (auto& x : v) co_yield x; }
struct Res { A n{0}, done{0}, x{-1}; };
co consume(async_generator<int> g, int stop, Res& r) { try { auto it = co_await g.begin(); while (it != g.end()) { CHECK(*it == r.n); CHECK(made == r.n + 1); r.n.fetch_add(1); if (r.n == stop) { r.done = 2; co_return; } co_await ++it; } r.done = 1; } catch (E1& e) { r.x = e.v; r.done = 3; } }
int main() {
	sched::once("sequences", [] {
		L::live = 0;
		for (int n = 0; n < 5; n++) for (int thr = -1; thr <= n; thr++) for (int stop = 0; stop <= n; stop++) for (int as = 0; as < 2; as++) {
			gate g[8]; Res r; made = 0; int last = thr >= 0 ? thr : n; consume(count(n, thr, as ? g : nullptr), stop, r);
			if (as) for (int i = 0; i <= n && r.done == 0; i++) { CHECK(r.n == i); g[i].fire(); }
			int want = stop && stop <= last ? stop : last; CHECK(r.n == want); CHECK(r.done == (stop && stop <= last ? 2 : thr >= 0 ? 3 : 1)); if (r.done == 3) CHECK(r.x == thr); CHECK(L::live == 0);
		}
		{ auto g = count(3, -1, nullptr); made = 0; CHECK(L::live == 1); auto h = std::move(g); Res r; consume(std::move(h), 0, r); CHECK(r.n == 3); CHECK(L::live == 0); }
		{ auto g = count(3, -1, nullptr), h = count(2, -1, nullptr); swap(g, h); g.swap(h); g = std::move(h); CHECK(L::live <= 2); Res r; made = 0; consume(std::move(g), 0, r); CHECK(r.n == 2); } CHECK(L::live == 0);
		{ int n = 0; [](int& n) -> co { auto g = moved(); for (auto it = co_await g.begin(); it != g.end(); co_await ++it) { std::string s = *it; CHECK(s == std::string(50, char('a' + n))); n++; } }(n); CHECK(n == 3); CHECK(L::live == 0); }
		{ std::vector<int> v{1, 2, 3}; [](std::vector<int>& v) -> co { auto g = refs(v); for (auto it = co_await g.begin(); it != g.end(); co_await ++it) *it *= 10; }(v); CHECK((v == std::vector<int>{10, 20, 30})); }
		{ int n = 0; [](int& n) -> co { auto g = count(0, -1, nullptr); auto it = co_await g.begin(); CHECK(it == g.end()); n++; }(n); CHECK(n == 1); }
	});
	explore("elements come from another thread", [] { gate g[3]; Res r; made = 0; L::live = 0; threads({[&] { consume(count(2, -1, g), 0, r); }, [&] { g[0].fire(); g[1].fire(); g[2].fire(); }}); CHECK(r.n == 2); CHECK(r.done == 1); CHECK(L::live == 0); });
	explore("exception comes from another thread", [] { gate g[3]; Res r; made = 0; L::live = 0; threads({[&] { consume(count(2, 1, g), 0, r); }, [&] { g[0].fire(); g[1].fire(); g[2].fire(); }}); CHECK(r.n == 1); CHECK(r.done == 3); CHECK(L::live == 0); });
}
