#include "coro.h"
#include <asyncpp/signal.h>
using namespace asyncpp;
template<typename Tr> struct world {
	using Sig = asyncpp::signal<void(int), Tr>; using H = signal_handle;
	struct slot { bool on; long seen = 0; long removed_at = -1; };
	std::unique_ptr<Sig> s = std::make_unique<Sig>(); std::vector<int> order; std::map<int, bool> on; std::map<int, H> hs; int next = 0, depth = 0; unsigned rng; bool act = true; std::vector<int> removed;
	explicit world(unsigned r) : rng(r * 2654435761u + 12345) {}
	int rnd(int n) { rng ^= rng << 13; rng ^= rng >> 17; rng ^= rng << 5; return rng % n; }
	struct fn { world* w; int id; L l; void operator()(int v) { w->called(id, v); } };
	struct frame { int v; std::vector<int> start, calls; std::set<int> off; }; std::vector<frame> fr;
	void called(int id, int v) { CHECK(!fr.empty()); frame& f = fr.back(); CHECK(f.v == v); CHECK(on[id]); f.calls.push_back(id); if (act) { int k = rnd(4); for (int i = 0; i < k; i++) op(); } }
	void add(bool front) { int id = next++; H h = front ? s->prepend(fn{this, id}) : s->append(fn{this, id}); CHECK(h.valid()); CHECK(!!h); if (front) order.insert(order.begin(), id); else order.push_back(id); on[id] = true; hs.insert_or_assign(id, h); }
	void gone(int id) { on[id] = false; order.erase(std::find(order.begin(), order.end(), id)); for (auto& f : fr) f.off.insert(id); }
	int any() { return order.empty() ? -1 : order[rnd(order.size())]; }
	void check() { CHECK(s->size() == order.size()); CHECK(s->empty() == order.empty()); for (int id : order) CHECK(s->owns_handle(hs.at(id))); for (int id : removed) if (hs.count(id)) { CHECK(!s->owns_handle(hs.at(id))); CHECK(!hs.at(id).valid()); } CHECK(!s->owns_handle(H{})); }
	void op() {
		int id = any();
		switch (rnd(10)) {
		case 0: case 1: add(false); break;
		case 2: add(true); break;
		case 3: if (id >= 0) { H h = hs.at(id); CHECK(s->remove(h)); gone(id); removed.push_back(id); CHECK(!h.valid()); } break;
		case 4: if (id >= 0) { H h = hs.at(id); h.disconnect(); gone(id); removed.push_back(id); CHECK(!h.valid()); CHECK(!hs.at(id).valid()); } break;
		case 5: if (id >= 0) { scoped_signal_handle sc{hs.at(id)}; CHECK(sc.valid()); gone(id); removed.push_back(id); } break;
		case 6: if (!removed.empty()) { int r = removed[rnd(removed.size())]; if (hs.count(r)) { H h = hs.at(r); s->remove(h); h.disconnect(); if (rnd(2)) hs.erase(r); } } break;
		case 7: if (depth < 2) emit(); break;
		case 8: check(); break;
		case 9: if (id >= 0) { scoped_signal_handle sc{hs.at(id)}; sc.release(); CHECK(hs.at(id).valid()); } CHECK(!s->remove(H{})); break;
		}
	}
	void emit() {
		depth++; frame f; f.v = rnd(1000); f.start = order; fr.push_back(f); size_t n = (*s)(f.v); frame g = fr.back(); fr.pop_back(); depth--;
		CHECK(n == g.calls.size()); std::set<int> seen; for (int c : g.calls) CHECK(seen.insert(c).second);
		std::vector<int> want, got; for (int id : g.start) if (!g.off.count(id)) want.push_back(id); for (int c : g.calls) if (std::find(want.begin(), want.end(), c) != want.end()) got.push_back(c);
		CHECK(want == got);
		std::vector<int> st; for (int c : g.calls) if (std::find(g.start.begin(), g.start.end(), c) != g.start.end()) st.push_back(c); size_t p = 0; for (int c : st) { while (p < g.start.size() && g.start[p] != c) p++; CHECK(p < g.start.size()); }
		if (depth == 0) { check(); }
	}
};
template<typename Tr> void seq() {
	sched::once("sequential", [] {
		for (unsigned r = 0; r < 3000; r++) { L::live = 0; { world<Tr> w(r); int n = 1 + w.rnd(12); for (int i = 0; i < n; i++) w.op(); w.emit(); w.emit(); w.act = false; w.emit(); w.check(); CHECK((int)L::live >= (int)w.order.size());
			if (r % 3 == 0) { world<Tr> x(r + 7); auto* old = w.s.get(); typename world<Tr>::Sig m(std::move(*old)); CHECK(m.size() == w.order.size()); CHECK(old->size() == 0); CHECK((*old)(1) == 0); auto h = old->append([](int) {}); CHECK(old->size() == 1); CHECK((*old)(2) == 1); auto& back = (*old = std::move(m)); CHECK(&back == old); CHECK(old->size() == w.order.size()); CHECK(m.size() == 0); w.emit(); h.disconnect(); w.emit(); }
			auto hs = w.hs; w.s.reset(); for (auto& [i, h] : hs) { (void)h.valid(); auto c = h; c.disconnect(); CHECK(!h.valid()); } } CHECK(L::live == 0); }
		{ asyncpp::signal<void(int, std::string), Tr> s; std::string got; auto f = [&](int i, const std::string& x) { got += std::to_string(i) + x; }; s += std::function<void(int, std::string)>(f); auto h = (s += [&](int i, std::string x) { got += "|" + x; }); CHECK(s(1, "a") == 2); CHECK(got == "1a|a"); s -= h; CHECK(s(2, "b") == 1); CHECK(got == "1a|a2b"); }
		{ asyncpp::signal<void(), Tr> s; std::vector<int> o; auto a = s.append([&] { o.push_back(1); }), b = s.append([&] { o.push_back(2); }), c = s.append([&] { o.push_back(3); }); CHECK(a != b && a == a && b != c); s.remove(b); s.remove(a); a = signal_handle{}; s.remove(b); s(); CHECK((o == std::vector<int>{3})); s.append([&] { o.push_back(4); }); o.clear(); s(); CHECK((o == std::vector<int>{3, 4})); }
		{ asyncpp::signal<void(), Tr> s; int n = 0; for (int i = 0; i < 2000; i++) s.append([&] { n++; }); CHECK(s() == 2000); CHECK(n == 2000); }
	});
}
int main() {
	seq<signal_traits_mt>(); seq<signal_traits_st>();
	using S = asyncpp::signal<void(int)>; using A = std::hooked_atomic<int>;
	explore("emit | remove middle | append", [] { L::live = 0; { S s; std::vector<int> o; auto a = s.append([&, l = L{}](int) { o.push_back(1); }); auto b = s.append([l = L{}](int) {}); auto c = s.append([&, l = L{}](int) { o.push_back(3); }); threads({[&] { s(1); }, [&] { s.remove(b); }, [&] { s.append([l = L{}](int) {}); }}); CHECK((o == std::vector<int>{1, 3})); CHECK(s.size() == 3); o.clear(); CHECK(s(2) == 3); CHECK((o == std::vector<int>{1, 3})); } CHECK(L::live == 0); });
	explore("emit | emit | disconnect", [] { L::live = 0; { S s; A n{0}, m{0}; s.append([&, l = L{}](int) { n.fetch_add(1); }); auto b = s.append([l = L{}](int) {}); s.append([&, l = L{}](int) { m.fetch_add(1); }); threads({[&] { s(1); }, [&] { s(2); }, [&] { b.disconnect(); }}); CHECK(n == 2 && m == 2); CHECK(s.size() == 2); CHECK(s(1) == 2); CHECK(L::live == 2); } CHECK(L::live == 0); });
	explore("remove | remove | remove", [] { L::live = 0; { S s; int n = 0; std::vector<signal_handle> h; for (int i = 0; i < 4; i++) h.push_back(s.append([&, l = L{}](int) { n++; })); auto h2 = h[1]; threads({[&] { s.remove(h[1]); h[1] = signal_handle{}; }, [&] { s.remove(h2); }, [&] { s.remove(h[2]); h[2] = signal_handle{}; }}); CHECK(s.size() == 2); CHECK(s(1) == 2); CHECK(n == 2); h2 = signal_handle{}; CHECK(L::live == 2); } CHECK(L::live == 0); });
	explore("append | append | emit", [] { S s; A n{0}; threads({[&] { s.append([&](int) { n.fetch_add(1); }); }, [&] { s.append([&](int) { n.fetch_add(1); }); }, [&] { s(1); }}); n = 0; CHECK(s(1) == 2); CHECK(n == 2); });
	explore("append | remove last", [] { S s; int n = 0; s.append([&](int) { n++; }); auto b = s.append([&](int) { n++; }); threads({[&] { s.append([&](int) { n++; }); }, [&] { s.remove(b); }}); CHECK(s(1) == 2); CHECK(n == 2); CHECK(s.size() == 2); });
	explore("emit | remove, drop", [] { L::live = 0; { S s; int n = 0; std::vector<signal_handle> h; for (int i = 0; i < 3; i++) h.push_back(s.append([l = L{}](int) {})); s.append([&](int) { n++; }); threads({[&] { s(1); }, [&] { for (auto& x : h) { s.remove(x); x = signal_handle{}; } }}); CHECK(n == 1); CHECK(L::live == 0); CHECK(s.size() == 1); } });
}
