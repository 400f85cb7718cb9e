#include "ev.h"
#include <asyncpp/queue.h>
using namespace asyncpp; using A = std::hooked_atomic<int>; using V = std::unique_ptr<int>; using Q = asyncpp::queue<V>;
V mk(int i) { return std::make_unique<int>(i); }
struct G { Q q; std::mutex m; std::vector<int> got, ok, bad; A pops{0}, none{0}; G(size_t cap, dispatcher* d = nullptr) : q(cap, d) {}
	void take(int v) { std::lock_guard<std::mutex> l(m); got.push_back(v); } void pushed(int v, bool r) { std::lock_guard<std::mutex> l(m); (r ? ok : bad).push_back(v); } };
co popper(G& g, int k = 1, dispatcher* d = nullptr) { for (int i = 0; i < k; i++) { auto a = g.q.pop(); if (d) a.resume_on(d); auto v = co_await a; if (v) { CHECK(*v != nullptr); g.take(**v); g.pops.fetch_add(1); } else g.none.fetch_add(1); } }
co pusher(G& g, int v, int k = 1, dispatcher* d = nullptr) { for (int i = 0; i < k; i++) { auto a = g.q.push(mk(v + i)); if (d) a.resume_on(d); bool r = co_await a; g.pushed(v + i, r); } }
struct Thrower { int v; static inline bool bomb = false; Thrower(int x) : v(x) { if (bomb) throw 5; } };
co tpop(asyncpp::queue<Thrower>& q, int& got) { auto v = co_await q.pop(); CHECK(v); got = v->v; }
void same(std::vector<int> a, std::vector<int> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b); }
// random operations against a reference model
void model(unsigned seed) {
	unsigned r = seed * 2654435761u + 1; auto rnd = [&](unsigned n) { r = r * 1664525u + 1013904223u; return (r >> 12) % n; };
	size_t cap = 1 + rnd(3); auto g = std::make_unique<G>(cap); int next = 0; std::deque<int> buf, pw; int rw = 0; std::vector<int> egot, eok, ebad; int enone = 0;
	auto moveup = [&] { while (!pw.empty() && buf.size() < cap) { buf.push_back(pw.front()); eok.push_back(pw.front()); pw.pop_front(); } };
	for (int i = 0; i < 40; i++) {
		int v = next;
		switch (rnd(8)) {
		case 0: { bool e = rw > 0 || buf.size() < cap; next++; if (rw) { rw--; egot.push_back(v); } else if (e) buf.push_back(v); CHECK(g->q.try_push(mk(v)) == e); break; }
		case 1: { bool e = rw > 0 || buf.size() < cap; next++; if (rw) { rw--; egot.push_back(v); } else if (e) buf.push_back(v); CHECK(g->q.try_emplace(mk(v)) == e); break; }
		case 2: { auto x = g->q.try_pop(); CHECK(x.has_value() == !buf.empty()); if (x) { CHECK(**x == buf.front()); buf.pop_front(); moveup(); } break; }
		case 3: case 4: popper(*g); if (buf.empty()) rw++; else { egot.push_back(buf.front()); buf.pop_front(); moveup(); } break;
		case 5: case 6: next++; pusher(*g, v); if (rw) { rw--; egot.push_back(v); eok.push_back(v); } else if (buf.size() < cap) { buf.push_back(v); eok.push_back(v); } else pw.push_back(v); break;
		case 7: if (rnd(4) == 0) { g->q.clear(); buf.clear(); for (int x : pw) ebad.push_back(x); pw.clear(); } break;
		}
		CHECK(g->q.size() == buf.size() + pw.size()); CHECK(g->q.empty() == buf.empty()); CHECK(g->got == egot); CHECK(g->ok == eok); CHECK(g->bad == ebad); CHECK(g->none == enone);
	}
	if (rnd(2)) { // move everything on
		G h(7, nullptr); if (rnd(2)) { pusher(h, 1000); } else popper(h, 1);
		bool hp = h.q.size(); h.q = std::move(g->q); CHECK(h.none == (hp ? 0 : 1)); CHECK(h.q.size() == buf.size() + pw.size()); CHECK(g->q.empty()); CHECK(g->q.size() == 0);
		while (!buf.empty()) { auto x = h.q.try_pop(); CHECK(x && **x == buf.front()); buf.pop_front(); moveup(); CHECK(g->ok == eok); } CHECK(!h.q.try_pop());
		for (; rw; rw--) { CHECK(h.q.try_push(mk(next))); egot.push_back(next++); } CHECK(g->got == egot);
	} else {
		Q h(std::move(g->q)); CHECK(h.size() == buf.size() + pw.size()); CHECK(g->q.size() == 0);
		for (; rw; rw--) { CHECK(h.try_push(mk(next))); egot.push_back(next++); } CHECK(g->got == egot);
		h.clear(); for (int x : pw) ebad.push_back(x); CHECK(g->bad == ebad); CHECK(h.empty());
	}
}
int main() {
	sched::once("model", [] { for (unsigned s = 0; s < 600; s++) model(s); });
	sched::once("dispatchers", [] {
		for (int own = 0; own < 3; own++) for (int def = 0; def < 2; def++) for (int w = 0; w < 2; w++) { que q1, q2, q3; G g(1, def ? &q2 : nullptr); 
			auto* o = cur_t::current(own == 2 ? &q3 : nullptr); if (w) { CHECK(g.q.try_push(mk(0))); pusher(g, 1, 1, own == 1 ? &q1 : nullptr); } else popper(g, 1, own == 1 ? &q1 : nullptr); cur_t::current(nullptr);
			if (w) CHECK(**g.q.try_pop() == 0); else CHECK(g.q.try_push(mk(9)));
			que* want = own == 1 ? &q1 : own == 2 ? &q3 : def ? &q2 : nullptr; size_t now = g.ok.size() + g.got.size(); CHECK(now == (want ? 0 : 1)); CHECK(q1.pushed + q2.pushed + q3.pushed == (want ? 1 : 0)); if (want) { CHECK(want->pushed == 1); want->drain(); CHECK(g.ok.size() + g.got.size() == 1); } cur_t::current(o); }
	});
	sched::once("many waiting", [] {
		for (int n = 1; n < 6; n++) { G g(1); CHECK(g.q.try_push(mk(0))); for (int i = 1; i <= n; i++) pusher(g, i); CHECK(g.q.size() == size_t(n + 1)); CHECK(!g.q.try_push(mk(50))); for (int i = 0; i <= n; i++) { auto v = g.q.try_pop(); CHECK(v && **v == i); } CHECK(int(g.ok.size()) == n); CHECK(!g.q.try_pop());
			for (int i = 0; i < n; i++) popper(g); for (int i = 0; i < n; i++) CHECK(g.q.try_push(mk(i))); for (int i = 0; i < n; i++) CHECK(g.got[i] == i); CHECK(g.q.empty()); }
		{ G g(1); popper(g, 2); pusher(g, 1, 4); popper(g, 1); CHECK((g.got == std::vector<int>{1, 2, 3})); CHECK(**g.q.try_pop() == 4); }
		{ G g(1); pusher(g, 1, 5); popper(g, 5); CHECK((g.got == std::vector<int>{1, 2, 3, 4, 5})); CHECK(g.ok.size() == 5); }
		{ G g(1); CHECK(g.q.try_push(mk(1))); pusher(g, 2, 3); pusher(g, 12, 3); g.q.clear(); int n = 0; while (g.q.try_pop()) n++; CHECK(g.ok.size() + g.bad.size() == 6); CHECK(n == int(g.ok.size())); }
		{ G g(2); Q& r = g.q; CHECK(g.q.try_push(mk(1))); g.q = std::move(r); CHECK(g.q.size() == 1); CHECK(**g.q.try_pop() == 1); }
		{ asyncpp::queue<Thrower> q(2); int got = -1; tpop(q, got); Thrower::bomb = true; try { (void)q.try_emplace(3); CHECK(false); } catch (int) {} Thrower::bomb = false; CHECK(got == -1); CHECK(q.try_emplace(4)); CHECK(got == 4); CHECK(q.empty());
		  Thrower::bomb = true; try { (void)q.try_emplace(3); CHECK(false); } catch (int) {} Thrower::bomb = false; CHECK(q.empty()); CHECK(q.try_emplace(6)); CHECK(q.size() == 1); }
	});
	explore("pop | push", [] { G g(1); threads({[&] { popper(g); }, [&] { pusher(g, 1); }}); CHECK(g.pops == 1); CHECK(g.ok.size() == 1); });
	explore("pop, pop | push, push (1)", [] { G g(1); threads({[&] { popper(g, 2); }, [&] { pusher(g, 1, 2); }}); CHECK((g.got == std::vector<int>{1, 2})); CHECK(g.ok.size() == 2); });
	explore("pop | pop | push, push, push (1)", [] { G g(1); threads({[&] { popper(g); }, [&] { popper(g); }, [&] { pusher(g, 1, 3); }}); CHECK(g.pops == 2); CHECK(g.ok.size() == 3); auto v = g.q.try_pop(); CHECK(v && **v == 3); same(g.got, {1, 2}); });
	explore("push | push | pop, pop (1)", [] { G g(1); threads({[&] { pusher(g, 1); }, [&] { pusher(g, 2); }, [&] { popper(g, 2); }}); CHECK(g.pops == 2); CHECK(g.ok.size() == 2); same(g.got, {1, 2}); });
	explore("push waiting | pop | try_pop", [] { G g(1); CHECK(g.q.try_push(mk(0))); pusher(g, 1); A n{0}; threads({[&] { popper(g); }, [&] { if (auto v = g.q.try_pop()) g.take(**v); }}); CHECK(g.ok.size() == 1); same(g.got, {0, 1}); });
	explore("pop waiting | try_push | try_emplace", [] { G g(4); popper(g); threads({[&] { CHECK(g.q.try_push(mk(1))); }, [&] { CHECK(g.q.try_emplace(mk(2))); }}); CHECK(g.pops == 1); auto v = g.q.try_pop(); CHECK(v); g.take(**v); same(g.got, {1, 2}); });
	explore("push | clear | pop", [] { G g(1); CHECK(g.q.try_push(mk(9))); threads({[&] { pusher(g, 1); }, [&] { g.q.clear(); }, [&] { popper(g); }}); CHECK(g.ok.size() + g.bad.size() == 1); if (g.pops == 0) { CHECK(g.q.empty()); CHECK(g.q.try_push(mk(5))); CHECK(g.pops == 1); } });
	explore("move assign | push", [] { G g(1), h(1); popper(g); threads({[&] { h.q = std::move(g.q); }, [&] { pusher(g, 1); }}); if (g.pops == 0) { CHECK(h.q.try_push(mk(3))); CHECK(g.pops == 1); } CHECK(g.ok.size() == 1); });
	explore("move a to b | move b to a", [] { G g(1), h(1); CHECK(g.q.try_push(mk(1))); threads({[&] { h.q = std::move(g.q); }, [&] { g.q = std::move(h.q); }}); });
	explore("default dispatcher: pop | push", [] { que d; G g(1, &d); threads({[&] { popper(g); }, [&] { CHECK(g.q.try_push(mk(1))); }}); d.drain(); CHECK(g.pops == 1); });
}
