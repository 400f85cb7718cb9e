#include "coro.h"
#include <asyncpp/generator.h>
using namespace asyncpp;
int steps = 0;
generator<int> count(int n, int thr = -1, L l = {}) { for (int i = 0; i < n; i++) { if (i == thr) throw E1{i}; steps++; co_yield i; } if (thr == n) throw E1{n}; steps++; }
generator<std::string> strs(L l = {}) { std::string s = "long long long long string "; for (int i = 0; i < 3; i++) { co_yield s + char('a' + i); } co_yield s; CHECK(s.size() > 10); }
generator<int&> refs(std::vector<int>& v) { for (int& x : v) co_yield x; }
generator<const int&> crefs(const std::vector<int>& v) { for (auto& x : v) co_yield x; }
int main() {
	sched::once("sequences", [] {
		L::live = 0;
		for (int n = 0; n < 6; n++) for (int thr = -1; thr <= n; thr++) for (int stop = 0; stop <= n + 1; stop++) {
			steps = 0; { auto g = count(n, thr); CHECK(steps == 0); int k = 0, x = -1; auto last = thr >= 0 ? thr : n;
				try { for (auto it = g.begin(); it != g.end(); ++it) { CHECK(*it == k); CHECK(steps == k + 1); CHECK(*it == k); k++; if (k == stop) break; } } catch (E1& e) { x = e.v; }
				int want = stop && stop < last ? stop : last; if (stop == last && stop) want = last; CHECK(k == want); bool ended = !(stop && stop <= last); CHECK(x == (ended && thr >= 0 ? thr : -1)); CHECK(steps == want + (ended && thr < 0 ? 1 : 0)); CHECK(L::live == 1); }
			CHECK(L::live == 0);
		}
		{ auto g = count(3); auto h = std::move(g); int k = 0; for (int x : h) CHECK(x == k++); CHECK(k == 3); } CHECK(L::live == 0);
		{ auto g = count(3), h = count(5); auto it = g.begin(); CHECK(*it == 0); h = std::move(g); ++it; CHECK(*it == 1); CHECK(L::live <= 2); } CHECK(L::live == 0);
		{ auto g = count(3), h = count(5); using std::swap; swap(g, h); int k = 0; for (int x : g) CHECK(x == k++); CHECK(k == 5); k = 0; for (int x : h) CHECK(x == k++); CHECK(k == 3); } CHECK(L::live == 0);
		{ auto g = count(4); generator<int>& r = g; g = std::move(r); int k = 0; for (int x : g) k++; CHECK(k == 4 || k == 0); } CHECK(L::live == 0);
		{ std::vector<std::string> v; for (auto&& s : strs()) v.push_back(s); CHECK(v.size() == 4); CHECK(v[2].back() == 'c'); CHECK(v[3] == "long long long long string "); } CHECK(L::live == 0);
		{ std::vector<int> v{1, 2, 3}; for (int& x : refs(v)) x *= 2; CHECK((v == std::vector<int>{2, 4, 6})); int i = 0; for (auto& x : crefs(v)) CHECK(&x == &v[i++]); CHECK(i == 3); }
		{ auto g = count(3); auto it = g.begin(); it++; CHECK(*it == 1); CHECK(it != g.end()); CHECK(!(it == g.end())); ++it; ++it; CHECK(it == g.end()); CHECK(!(it != g.end())); }
		{ auto g = count(2); for (auto it = g.begin(); it != g.end(); ++it) CHECK(it.operator->() == &*it); }
	});
}
