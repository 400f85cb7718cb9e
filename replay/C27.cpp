#define ASYNCPP_FORCE_CUSTOM_STOP_TOKEN 1
#include "coro.h"
#include <functional>
#include <asyncpp/stop_token.h>
using namespace asyncpp;
using S = asyncpp::stop_source; using T = asyncpp::stop_token; struct F { std::function<void()> f; L l; void operator()() { f(); } }; using C = asyncpp::stop_callback<F>;
using A = std::hooked_atomic<int>;
struct group { int src = 0; bool req = false, running = false; };
struct world {
	std::vector<std::pair<std::unique_ptr<S>, group*>> s; std::vector<std::pair<std::unique_ptr<T>, group*>> t;
	struct cb { std::unique_ptr<C> c; group* g; int ran = 0; bool reg = false, dead = false, ctor = false, in = false; }; std::deque<cb> c; std::deque<group> gs; unsigned rng; int depth = 0;
	explicit world(unsigned r) : rng(r * 2654435761u + 977) {}
	int rnd(int n) { rng ^= rng << 13; rng ^= rng >> 17; rng ^= rng << 5; return rng % n; }
	void called(cb& x) { CHECK(x.g && x.g->req && !x.dead && !x.in); if (!x.ctor) CHECK(x.reg && x.g->running); x.ran++; CHECK(x.ran == 1); x.reg = false; x.in = true; depth++; if (depth < 3) for (int k = rnd(4); k > 0; k--) op(&x); depth--; x.in = false; }
	void drop(cb& x) { if (!x.c) return; auto p = std::move(x.c); x.dead = true; x.reg = false; p.reset(); }
	void add() { if (t.empty()) return; auto& q = t[rnd(t.size())]; group* g = q.second; c.emplace_back(); cb& x = c.back(); x.g = g; bool now = g && g->req, ok = g && !g->req && g->src > 0; x.ctor = true; T tk = *q.first;
		std::unique_ptr<C> n; if (ok) { x.reg = true; x.ctor = false; } if (rnd(2)) n = std::make_unique<C>(tk, F{[this, &x] { called(x); }, {}}); else n = std::make_unique<C>(std::move(tk), F{[this, &x] { called(x); }, {}}); x.ctor = false; CHECK(x.ran == (now ? 1 : 0)); x.c = std::move(n); }
	void lose(group* g) { if (g) g->src--; }
	void gain(group* g) { if (g) g->src++; }
	void request() { if (s.empty()) return; auto& e = s[rnd(s.size())]; group* g = e.second; S k = *e.first; gain(g); bool first = g && !g->req; if (first) { g->req = true; g->running = true; } bool r = k.request_stop(); CHECK(r == first); if (first) { g->running = false; for (auto& x : c) if (x.g == g) CHECK(!x.reg); } lose(g); }
	void check() {
		for (auto& [p, g] : s) { CHECK(p->stop_possible() == (g != nullptr)); CHECK(p->stop_requested() == (g && g->req)); CHECK(p->get_token().stop_possible() == (g != nullptr)); }
		for (auto& [p, g] : t) { CHECK(p->stop_possible() == (g && (g->req || g->src > 0))); CHECK(p->stop_requested() == (g && g->req)); }
		for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < s.size(); j++) CHECK((*s[i].first == *s[j].first) == (s[i].second == s[j].second));
		for (size_t i = 0; i < t.size(); i++) for (size_t j = 0; j < t.size(); j++) CHECK((*t[i].first == *t[j].first) == (t[i].second == t[j].second));
		for (auto& x : c) if (x.c) CHECK(x.ran == ((x.g && x.g->req && !x.reg) ? 1 : 0));
	}
	void op(cb* me = nullptr) {
		auto ps = [&]() -> auto& { return s[rnd(s.size())]; }; auto pt = [&]() -> auto& { return t[rnd(t.size())]; };
		switch (rnd(18)) {
		case 0: gs.emplace_back(); s.emplace_back(std::make_unique<S>(), &gs.back()); gain(&gs.back()); break;
		case 1: if (s.size() > 1) { auto& e = ps(); s.emplace_back(std::make_unique<S>(*e.first), e.second); gain(s.back().second); } break;
		case 2: if (s.size() > 1) { auto& e = ps(); auto n = std::make_unique<S>(std::move(*e.first)); group* g = e.second; e.second = nullptr; s.emplace_back(std::move(n), g); } break;
		case 3: if (s.size()) { auto &a = ps(), &b = ps(); *a.first = *b.first; if (&a != &b) { lose(a.second); a.second = b.second; gain(a.second); } } break;
		case 4: if (s.size()) { auto &a = ps(), &b = ps(); if (&a != &b) { *a.first = std::move(*b.first); lose(a.second); a.second = b.second; b.second = nullptr; } } break;
		case 5: if (s.size()) { int i = rnd(s.size()); auto e = std::move(s[i]); s.erase(s.begin() + i); lose(e.second); } break;
		case 6: if (s.size()) { auto &a = ps(), &b = ps(); if (rnd(2)) swap(*a.first, *b.first); else a.first->swap(*b.first); std::swap(a.second, b.second); } break;
		case 7: case 8: if (s.size()) { auto& e = ps(); t.emplace_back(std::make_unique<T>(e.first->get_token()), e.second); } break;
		case 9: if (t.size()) { auto& e = pt(); group* g = e.second; auto n = std::make_unique<T>(*e.first); t.emplace_back(std::move(n), g); } break;
		case 10: if (t.size()) { auto &a = pt(), &b = pt(); *a.first = *b.first; a.second = b.second; } break;
		case 11: if (t.size()) { auto &a = pt(), &b = pt(); if (&a != &b) { *a.first = std::move(*b.first); a.second = b.second; b.second = nullptr; } } break;
		case 12: if (t.size()) { auto &a = pt(), &b = pt(); if (rnd(2)) swap(*a.first, *b.first); else a.first->swap(*b.first); std::swap(a.second, b.second); } break;
		case 13: if (t.size()) t.erase(t.begin() + rnd(t.size())); break;
		case 14: case 15: add(); break;
		case 16: if (me && rnd(2)) drop(*me); else if (!c.empty()) { cb& x = c[rnd(c.size())]; if (!x.ctor) drop(x); } break;
		case 17: if (depth == 0 && rnd(3)) break; request(); break;
		}
		if (depth == 0) check();
	}
};
static long allocs = 0; static bool counting = false;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); if (counting) allocs++; return p; }
void operator delete(void* p) noexcept { if (p && counting) allocs--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p && counting) allocs--; free(p); }
int main() {
	{ counting = true; { S a, b; T t = a.get_token(); S c = a; c = b; S d = std::move(a); a = d; { stop_callback k(t, [] {}); } d = std::move(b); T u; u = t; u = std::move(t); CHECK(u.stop_possible()); } counting = false; CHECK(allocs == 0); }
	{ S a, b; T t = a.get_token(); a = std::move(b); CHECK(!t.stop_possible()); CHECK(a.stop_possible()); CHECK(!b.stop_possible()); }
	for (unsigned i = 0; i < 3000; i++) { L::live = 0; { world w(i); for (int k = 0; k < 60; k++) w.op(); } CHECK(L::live == 0); }
	explore("request | request | request", [] { S s; A n{0}, won{0}; stop_callback c(s.get_token(), [&] { n.fetch_add(1); }); auto f = [&] { if (s.request_stop()) won.fetch_add(1); CHECK(s.stop_requested()); }; threads({f, f, f}); CHECK(won == 1); CHECK(n == 1); });
	explore("request | destroy callbacks", [] { S s; bool dead[3] = {}; A run[3] = {}; std::unique_ptr<C> c[3]; L::live = 0; for (int i = 0; i < 3; i++) c[i] = std::make_unique<C>(s.get_token(), F{[&, i] { run[i].fetch_add(1); run[i].load(); CHECK(!dead[i]); }, {}});
		threads({[&] { CHECK(s.request_stop()); }, [&] { c[1].reset(); dead[1] = true; c[0].reset(); dead[0] = true; }}); CHECK(run[2] == 1); CHECK(run[0] <= 1 && run[1] <= 1); c[2].reset(); CHECK(L::live == 0); });
	explore("request | destroy | destroy", [] { S s; bool dead[3] = {}; A run[3] = {}; std::unique_ptr<C> c[3]; for (int i = 0; i < 3; i++) c[i] = std::make_unique<C>(s.get_token(), F{[&, i] { run[i].fetch_add(1); CHECK(!dead[i]); run[i].load(); CHECK(!dead[i]); }, {}});
		threads({[&] { CHECK(s.request_stop()); }, [&] { c[2].reset(); dead[2] = true; }, [&] { c[1].reset(); dead[1] = true; }}); CHECK(run[0] == 1); });
	explore("request | register", [] { S s; A n{0}; std::unique_ptr<C> c; threads({[&] { CHECK(s.request_stop()); }, [&] { c = std::make_unique<C>(s.get_token(), F{[&] { CHECK(s.stop_requested()); n.fetch_add(1); }, {}}); }}); CHECK(n == 1); });
	explore("request | register, deregister", [] { S s; A n{0}; threads({[&] { CHECK(s.request_stop()); }, [&] { for (int i = 0; i < 2; i++) { int k = 0; bool dead = false; { stop_callback c(s.get_token(), [&] { CHECK(!dead); k++; n.fetch_add(1); }); } CHECK(k <= 1); dead = true; } }}); CHECK(n <= 2); });
	explore("request, callback destroys itself | destroy other", [] { S s; A n{0}, m{0}; std::unique_ptr<C> a, b; a = std::make_unique<C>(s.get_token(), F{[&] { n.fetch_add(1); a.reset(); }, {}}); b = std::make_unique<C>(s.get_token(), F{[&] { m.fetch_add(1); }, {}}); threads({[&] { CHECK(s.request_stop()); }, [&] { b.reset(); }}); CHECK(n == 1); CHECK(m <= 1); CHECK(!a); });
	explore("request, callback destroys another", [] { S s; int n = 0, m = 0; std::unique_ptr<C> a, b; b = std::make_unique<C>(s.get_token(), F{[&] { n++; if (a) a.reset(); }, {}}); a = std::make_unique<C>(s.get_token(), F{[&] { m++; if (b) b.reset(); }, {}}); threads({[&] { CHECK(s.request_stop()); CHECK(n + m == 1); }, [&] { CHECK(!s.get_token().stop_requested() || s.stop_requested()); }}); });
	explore("register | register | deregister", [] { S s; int n[4] = {}; std::unique_ptr<C> c[4]; auto mk = [&](int i) { c[i] = std::make_unique<C>(s.get_token(), F{[&, i] { n[i]++; }, {}}); }; mk(0); mk(1); threads({[&] { mk(2); }, [&] { mk(3); }, [&] { c[0].reset(); }}); CHECK(s.request_stop()); CHECK(n[0] == 0 && n[1] == 1 && n[2] == 1 && n[3] == 1); });
	explore("sources come and go", [] { T t; { auto s = std::make_unique<S>(); t = s->get_token(); threads({[&] { S a = *s; S b = a; CHECK(t.stop_possible()); }, [&] { S a; a = *s; S b = std::move(a); }, [&] { CHECK(t.stop_possible()); CHECK(!t.stop_requested()); }}); CHECK(t.stop_possible()); } CHECK(!t.stop_possible()); });
	explore("last reference", [] { auto s = std::make_unique<S>(); auto t = std::make_unique<T>(s->get_token()); int n = 0; auto c = std::make_unique<C>(*t, F{[&] { n++; }, {}}); threads({[&] { s->request_stop(); s.reset(); }, [&] { t.reset(); }, [&] { c.reset(); }}); CHECK(n <= 1); });
	explore("publication", [] { S s; int data = 0; T t = s.get_token(); threads({[&] { data = 1; s.request_stop(); }, [&] { if (t.stop_requested()) CHECK(data == 1); }, [&] { stop_callback c(t, [&] { CHECK(data == 1); }); }}); });
}
