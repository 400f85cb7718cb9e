#include "ev.h"
using namespace asyncpp; using A = std::hooked_atomic<int>;
co lw(latch& l, A& n, int* d = nullptr, int want = 0) { co_await l; if (d) CHECK(*d == want); n.fetch_add(1); }
int main() {
	sched::once("counts", [] {
		const size_t big = latch::max, vals[] = {0, 1, 2, 3, 7, 255, 256, 65536, 1ull << 31, (1ull << 31) + 1, 1ull << 32, (1ull << 32) + 5, 1ull << 63, big - 1, big};
		for (size_t v : vals) for (size_t a : vals) { if (a > v || v == 0) continue;
			latch l(v); A n{0}; CHECK(!l.is_ready()); lw(l, n); lw(l, n); CHECK(n == 0);
			if (a) { l.decrement(a); CHECK(l.is_ready() == (a == v)); CHECK(n == (a == v ? 2 : 0)); }
			if (a != v) { if (v - a > 1) { l.decrement(v - a - 1); CHECK(!l.is_ready()); CHECK(n == 0); lw(l, n); l.decrement(); CHECK(n == 3); } else { l.decrement(); CHECK(n == 2); } }
			CHECK(l.is_ready()); int k = n; lw(l, n); CHECK(n == k + 1); CHECK(l.is_ready()); }
		latch z(0); A n{0}; CHECK(z.is_ready()); lw(z, n); CHECK(n == 1);
		{ latch l(3); A n{0}; l.decrement(0); CHECK(!l.is_ready()); l.decrement(2); l.decrement(0); CHECK(!l.is_ready()); lw(l, n); l.decrement(); CHECK(n == 1); }
	});
	explore("decrement | decrement | wait", [] { latch l(2); A n{0}; int data[2] = {};
		threads({[&] { data[0] = 1; l.decrement(); }, [&] { data[1] = 1; l.decrement(); }, [&] { [](latch& l, A& n, int* d) -> co { co_await l; CHECK(d[0] + d[1] == 2); n.fetch_add(1); }(l, n, data); }}); CHECK(n == 1); CHECK(l.is_ready()); });
	explore("decrement | decrement(2), wait | wait", [] { latch l(3); A n{0};
		threads({[&] { l.decrement(); }, [&] { l.decrement(2); lw(l, n); }, [&] { lw(l, n); }}); CHECK(n == 2); CHECK(l.is_ready()); });
	explore("wait | wait | decrement", [] { latch l(1); A n{0}; int d = 0;
		threads({[&] { lw(l, n, &d, 5); }, [&] { lw(l, n, &d, 5); }, [&] { d = 5; l.decrement(); }}); CHECK(n == 2); CHECK(l.is_ready()); });
}
