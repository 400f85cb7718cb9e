#include "ev.h"
#include <asyncpp/channel.h>
using namespace asyncpp; using A = std::hooked_atomic<int>; using V = std::unique_ptr<int>; using Ch = channel<V>;
V mk(int i) { return std::make_unique<int>(i); }
struct G { Ch c; std::mutex m; std::vector<int> got, ok; A rd{0}, rn{0}, wt{0}, wf{0}; 
	void take(int v) { std::lock_guard<std::mutex> l(m); got.push_back(v); } void good(int v) { std::lock_guard<std::mutex> l(m); ok.push_back(v); } };
co reader(G& g, int k = 1, dispatcher* d = nullptr) { for (int i = 0; i < k; i++) { auto r = g.c.read(); if (d) r.resume_on(d); auto v = co_await r; if (v) { CHECK(*v != nullptr); g.take(**v); g.rd.fetch_add(1); } else g.rn.fetch_add(1); } }
co writer(G& g, int v, int k = 1, dispatcher* d = nullptr) { for (int i = 0; i < k; i++) { auto w = g.c.write(mk(v + i)); if (d) w.resume_on(d); bool r = co_await w; if (r) { g.good(v + i); g.wt.fetch_add(1); } else g.wf.fetch_add(1); } }
void consistent(G& g) { auto a = g.got, b = g.ok; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b); }
int main() {
	sched::once("sequential", [] {
		for (int n = 0; n < 5; n++) for (int k = 0; k <= n; k++) for (int mode = 0; mode < 4; mode++) { // n waiting readers, k served, rest closed
			G g; que q; inl in; dispatcher* d = mode == 1 ? &q : mode == 2 ? (dispatcher*)&in : nullptr;
			CHECK(!g.c.try_read()); CHECK(!g.c.try_write(mk(1))); CHECK(!g.c.is_closed());
			for (int i = 0; i < n; i++) reader(g, 1, d);
			CHECK(!g.c.try_read());
			for (int i = 0; i < k; i++) { if (mode == 3) { writer(g, i); CHECK(g.wt == i + 1); } else CHECK(g.c.try_write(mk(i))); q.drain(); CHECK(g.rd == i + 1); CHECK(g.got[i] == i); }
			if (k == n) { CHECK(!g.c.try_write(mk(99))); }
			g.c.close(); q.drain(); CHECK(g.c.is_closed()); CHECK(g.rd == k); CHECK(g.rn == n - k); CHECK(!g.c.try_write(mk(5))); CHECK(!g.c.try_read());
			reader(g); writer(g, 7); CHECK(g.rn == n - k + 1); CHECK(g.wf == 1); CHECK(g.rd == k); g.c.close(); CHECK(g.c.is_closed());
		}
		for (int n = 0; n < 5; n++) for (int k = 0; k <= n; k++) for (int mode = 0; mode < 4; mode++) { // waiting writers
			G g; que q; inl in; dispatcher* d = mode == 1 ? &q : mode == 2 ? (dispatcher*)&in : nullptr;
			for (int i = 0; i < n; i++) writer(g, i, 1, d);
			CHECK(g.wt == 0); CHECK(!g.c.try_write(mk(77)));
			for (int i = 0; i < k; i++) { if (mode == 3) { reader(g); CHECK(g.got[i] == i); } else { auto v = g.c.try_read(); CHECK(v && *v && **v == i); } q.drain(); CHECK(g.wt == i + 1); CHECK(g.ok[i] == i); }
			if (k == n) CHECK(!g.c.try_read());
			g.c.close(); q.drain(); CHECK(g.wf == n - k); CHECK(g.wt == k); CHECK(!g.c.try_read()); writer(g, 9); CHECK(g.wf == n - k + 1);
		}
		{ G g; reader(g, 3); writer(g, 10, 3); CHECK(g.rd == 3); CHECK(g.wt == 3); CHECK((g.got == std::vector<int>{10, 11, 12})); writer(g, 1, 2); writer(g, 5, 2); reader(g, 4); CHECK(g.rd == 7); CHECK(g.wt == 7); consistent(g); writer(g, 1); reader(g, 2); g.c.close(); CHECK(g.rn == 1); consistent(g); }
		{ G g; reader(g, 2); g.c.close(); CHECK(g.rn == 2); } { G g; writer(g, 0, 3); g.c.close(); CHECK(g.wf == 3); }
		{ // own dispatcher first, else the thread's current one
			for (int own = 0; own < 2; own++) for (int w = 0; w < 2; w++) { G g; que q, cu; auto* o = cur_t::current(&cu); if (w) writer(g, 1, 1, own ? &q : nullptr); else reader(g, 1, own ? &q : nullptr); cur_t::current(nullptr);
				if (w) CHECK(g.c.try_read()); else CHECK(g.c.try_write(mk(3))); CHECK(g.wt + g.rd == 0); CHECK((own ? q : cu).pushed == 1); CHECK((own ? cu : q).pushed == 0); q.drain(); cu.drain(); CHECK(g.wt + g.rd == 1); g.c.close(); cur_t::current(o); } }
	});
	explore("read | write", [] { G g; threads({[&] { reader(g); }, [&] { writer(g, 1); }}); CHECK(g.rd == 1); CHECK(g.wt == 1); consistent(g); g.c.close(); });
	explore("read | write | close", [] { G g; threads({[&] { reader(g); }, [&] { writer(g, 1); }, [&] { g.c.close(); }}); CHECK(g.rd + g.rn == 1); CHECK(g.wt + g.wf == 1); CHECK(g.rd == g.wt); consistent(g); });
	explore("read | close", [] { G g; threads({[&] { reader(g); }, [&] { g.c.close(); }}); CHECK(g.rn == 1); });
	explore("write | close", [] { G g; threads({[&] { writer(g, 1); }, [&] { g.c.close(); }}); CHECK(g.wf == 1); });
	explore("write | close | close", [] { G g; writer(g, 2); threads({[&] { writer(g, 1); }, [&] { g.c.close(); }, [&] { g.c.close(); }}); CHECK(g.wf == 2); });
	explore("read, read | write, write", [] { G g; threads({[&] { reader(g, 2); }, [&] { writer(g, 1, 2); }}); CHECK(g.rd == 2); CHECK(g.wt == 2); CHECK((g.got == std::vector<int>{1, 2})); g.c.close(); });
	explore("read | read | write, write", [] { G g; threads({[&] { reader(g); }, [&] { reader(g); }, [&] { writer(g, 1, 2); }}); CHECK(g.rd == 2); CHECK(g.wt == 2); consistent(g); g.c.close(); });
	explore("write | write | read, read", [] { G g; threads({[&] { writer(g, 1); }, [&] { writer(g, 2); }, [&] { reader(g, 2); }}); CHECK(g.rd == 2); CHECK(g.wt == 2); consistent(g); g.c.close(); });
	explore("try_read | try_read | write", [] { G g; A t{0}; auto f = [&] { if (auto v = g.c.try_read()) { CHECK(*v != nullptr); g.take(**v); t.fetch_add(1); } }; threads({f, f, [&] { writer(g, 1); }}); CHECK(t == g.wt); CHECK(t <= 1); g.c.close(); CHECK(g.wt + g.wf == 1); consistent(g); });
	explore("try_write | read | close", [] { G g; bool w = false; threads({[&] { w = g.c.try_write(mk(4)); }, [&] { reader(g); }, [&] { g.c.close(); }}); CHECK(g.rd + g.rn == 1); CHECK(g.rd == int(w)); });
	explore("try_read | write | close", [] { G g; bool r = false; threads({[&] { r = g.c.try_read().has_value(); }, [&] { writer(g, 3); }, [&] { g.c.close(); }}); CHECK(g.wt + g.wf == 1); CHECK(g.wt == int(r)); });
	explore("try_write | try_write with one reader", [] { G g; reader(g); bool a = false, b = false; threads({[&] { a = g.c.try_write(mk(1)); }, [&] { b = g.c.try_write(mk(2)); }}); CHECK(a + b == 1); CHECK(g.rd == 1); g.c.close(); });
	explore("close with waiting | write", [] { G g; reader(g); reader(g); threads({[&] { g.c.close(); }, [&] { writer(g, 1); }}); CHECK(g.rd + g.rn == 2); CHECK(g.wt + g.wf == 1); CHECK(g.rd == g.wt); });
}
