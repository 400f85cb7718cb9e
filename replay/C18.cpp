#include "coro.h"
#include <asyncpp/task.h>
using namespace asyncpp; using A = std::hooked_atomic<int>;
task<int> val(int v, int& ran, L l = {}) { ran++; co_return v; }
task<int> bad(int v, int& ran, L l = {}) { ran++; throw E1{v}; co_return 0; }
task<> vo(int& ran, gate* g = nullptr, int thr = 0, L l = {}) { ran++; if (g) co_await *g; if (thr) throw E1{thr}; }
task<std::unique_ptr<int>> up(L l = {}) { co_return std::make_unique<int>(5); }
task<std::string> str(const char* s) { co_return s; }
task<int> nest(int d, int& ran, gate* g) { L l; if (d == 0) { ran++; if (g) co_await *g; co_return 1; } int r = co_await nest(d - 1, ran, g); co_return r + 1; }
task<int> nestx(int d) { L l; if (d == 0) throw E1{d + 7}; int r = co_await nestx(d - 1); co_return r; }
task<int> loop(int n) { int s = 0; int ran = 0; for (int i = 0; i < n; i++) s += co_await val(i, ran); co_return s; }
template<typename T, typename F> co run(T t, F f) { co_await t; f(); }
task<int> late(bool& on) { L l; bomb b{5, &on}; co_return 1; }
task<> latev(bool& on) { L l; bomb b{5, &on}; co_return; }
int main() {
	sched::once("sequential", [] {
		L::live = 0; { int ran = 0; { auto t = val(1, ran); CHECK(ran == 0); CHECK(bool(t)); CHECK(!!t); } CHECK(ran == 0); CHECK(L::live == 0); }
		{ int ran = 0, res = 0, n = 0; auto f = [](int& ran, int& res, int& n) -> co { auto t = val(42, ran); CHECK(ran == 0); res = co_await t; n++; }; f(ran, res, n); CHECK(ran == 1 && res == 42 && n == 1); CHECK(L::live == 0); }
		{ int ran = 0, x = 0, n = 0; [](int& ran, int& x, int& n) -> co { auto t = bad(9, ran); try { co_await t; } catch (E1& e) { x = e.v; } n++; }(ran, x, n); CHECK(ran == 1 && x == 9 && n == 1); CHECK(L::live == 0); }
		{ int n = 0; [](int& n) -> co { auto p = co_await up(); CHECK(p && *p == 5); CHECK((co_await str("a long enough string to be on the heap")) == "a long enough string to be on the heap"); CHECK((co_await loop(2000)) == 1999000); n++; }(n); CHECK(n == 1); CHECK(L::live == 0); }
		for (int d = 0; d < 6; d++) { gate g; int ran = 0, n = 0; [](int d, int& ran, int& n, gate* g) -> co { int r = co_await nest(d, ran, g); CHECK(r == d + 1); n++; }(d, ran, n, &g); CHECK(ran == 1); CHECK(n == 0); CHECK(L::live == d + 1); g.fire(); CHECK(n == 1); CHECK(L::live == 0); CHECK(ran == 1);
			int x = 0; [](int d, int& x) -> co { try { co_await nestx(d); } catch (E1& e) { x = e.v; } }(d, x); CHECK(x == 7); CHECK(L::live == 0); }
		for (int thr = 0; thr < 2; thr++) { gate g; int ran = 0, n = 0; [](int& ran, int& n, gate& g, int thr) -> co { auto t = vo(ran, &g, thr); try { co_await t; CHECK(!thr); } catch (E1& e) { CHECK(thr && e.v == 1); } n++; }(ran, n, g, thr); CHECK(ran == 1 && n == 0); g.fire(); CHECK(n == 1); CHECK(L::live == 0); }
		{ int r1 = 0, r2 = 0, n = 0; auto a = val(1, r1), b = val(2, r2); task<int> c(std::move(a)); CHECK(!a); CHECK(bool(c)); c = std::move(b); CHECK(bool(b)); CHECK(bool(c)); int x = 0, y = 0; [](task<int>& b, task<int>& c, int& x, int& y) -> co { x = co_await c; y = co_await b; }(b, c, x, y); CHECK(x == 2 && y == 1); CHECK(r1 == 1 && r2 == 1); task<int> e(nullptr); CHECK(!e); e = std::move(c); CHECK(bool(e)); CHECK(!c); task<int>& er = e; e = std::move(er); CHECK(bool(e)); } CHECK(L::live == 0);
		{ std::vector<task<int>> v; int ran = 0; for (int i = 0; i < 10; i++) v.push_back(val(i, ran)); int s = 0; [](std::vector<task<int>>& v, int& s) -> co { for (auto& t : v) s += co_await t; }(v, s); CHECK(s == 45 && ran == 10); } CHECK(L::live == 0);
		for (int on = 0; on < 2; on++) { int r = 0, x = 0, n = 0; [](bool on, int& r, int& x, int& n) -> co { try { r = co_await late(on); } catch (E1& e) { x = e.v; } try { co_await latev(on); n++; } catch (E1& e) { x += e.v; } }(on, r, x, n); CHECK(r == !on); CHECK(x == 10 * on); CHECK(n == !on); CHECK(L::live == 0); }
	});
	explore("task finishes on another thread", [] { L::live = 0; gate g; int ran = 0; A n{0}; threads({[&] { [](int& ran, A& n, gate& g) -> co { auto t = vo(ran, &g, 0); co_await t; CHECK(ran == 1); n.fetch_add(1); }(ran, n, g); }, [&] { g.fire(); }}); CHECK(n == 1); CHECK(L::live == 0); });
	explore("nested task finishes on another thread", [] { L::live = 0; gate g; int ran = 0; A n{0}; threads({[&] { [](int& ran, A& n, gate& g) -> co { int r = co_await nest(3, ran, &g); CHECK(r == 4); n.fetch_add(1); }(ran, n, g); }, [&] { g.fire(); }}); CHECK(n == 1); CHECK(L::live == 0); });
}
