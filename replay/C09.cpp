#include "ev.h"
#include <asyncpp/promise.h>
using namespace asyncpp; using A = std::hooked_atomic<int>; using S = std::string; using P = asyncpp::promise<S>; using PV = asyncpp::promise<void>;
struct E1 { int v; }; std::exception_ptr ex(int v) { return std::make_exception_ptr(E1{v}); }
int what(const std::exception_ptr& e) { CHECK(e); try { std::rethrow_exception(e); } catch (E1& x) { return x.v; } catch (...) { return -1; } }
struct R { A ful{0}, rej{0}, set{0}, aw{0}, awx{0}; S v; int x = 0; };
co waiter(P p, R& r, const S* want = nullptr) { try { S& v = co_await p; if (want) CHECK(v == *want); r.aw.fetch_add(1); } catch (E1& e) { r.awx.fetch_add(1); } }
void listen(P& p, R& r) { p.then([&](const S& s) { r.v = s; r.ful.fetch_add(1); }, [&](const std::exception_ptr& e) { r.x = what(e); r.rej.fetch_add(1); }); }
void queries(P& p, int st, const S& v, int x) { // 0 pending 1 fulfilled 2 rejected
	CHECK(p.is_pending() == (st == 0)); CHECK(p.is_fulfilled() == (st == 1)); CHECK(p.is_rejected() == (st == 2));
	auto [a, e] = p.try_get(std::nothrow); CHECK((a != nullptr) == (st == 1)); CHECK((e != nullptr) == (st == 2)); if (a) CHECK(*a == v); if (e) CHECK(what(e) == x);
	if (st < 2) { auto* q = p.try_get(); CHECK((q != nullptr) == (st == 1)); if (q) CHECK(*q == v); } else try { (void)p.try_get(); CHECK(false); } catch (E1& y) { CHECK(y.v == x); }
	if (st == 1) { CHECK(p.get() == v); CHECK(*p.get(std::chrono::milliseconds(1)) == v); } if (st == 2) { try { (void)p.get(); CHECK(false); } catch (E1& y) { CHECK(y.v == x); } try { (void)p.get(std::chrono::milliseconds(1)); CHECK(false); } catch (E1& y) { CHECK(y.v == x); } }
}
struct Bomb { static inline bool on = false; int v; Bomb(int v) : v(v) {} Bomb(const Bomb& o) : v(o.v) { if (on) throw 7; } Bomb(Bomb&& o) : v(o.v) { if (on) throw 7; } };
int main() {
	sched::once("sequential", [] {
		for (int how = 0; how < 8; how++) for (int ncb = 0; ncb < 4; ncb++) for (int late = 0; late < 2; late++) {
			P p; R r[4], l; A set{0}; std::vector<int> order; queries(p, 0, "", 0); S want = "hello world, this is the value";
			for (int i = 0; i < ncb; i++) { listen(p, r[i]); p.on_settle([&] { set.fetch_add(1); }); waiter(p, r[i], &want); }
			bool rej = how >= 4; S val = want; 
			switch (how) { case 0: p.fulfill(S(want)); break; case 1: p.fulfill(val); break; case 2: CHECK(p.try_fulfill(S(want))); break; case 3: CHECK(p.try_fulfill(std::as_const(val))); break;
			case 4: p.reject(ex(3)); break; case 5: CHECK(p.try_reject(ex(3))); break; case 6: p.reject<E1>(3); break; case 7: CHECK(p.try_reject<E1>(3)); break; }
			CHECK(val == want);
			if (late) { listen(p, l); p.on_settle([&] { l.set.fetch_add(1); }); waiter(p, l, &want); CHECK(l.ful == !rej); CHECK(l.rej == rej); CHECK(l.set == 1); CHECK(l.aw == !rej); CHECK(l.awx == rej); }
			auto check = [&] { queries(p, rej ? 2 : 1, want, 3); CHECK(set == ncb); for (int i = 0; i < ncb; i++) { CHECK(r[i].ful == !rej); CHECK(r[i].rej == rej); CHECK(r[i].aw == !rej); CHECK(r[i].awx == rej); if (rej) CHECK(r[i].x == 3); else CHECK(r[i].v == want); } }; check();
			try { p.fulfill(S("b")); CHECK(false); } catch (std::logic_error&) {} try { p.reject(ex(4)); CHECK(false); } catch (std::logic_error&) {} CHECK(!p.try_fulfill(S("c"))); CHECK(!p.try_reject(ex(5))); check();
		}
		{ PV p; int n = 0, m = 0; p.then([&] { n++; }, [&](const std::exception_ptr&) { m++; }); p.on_settle([&] { n++; }); CHECK(!p.try_get(std::nothrow).first); p.fulfill(); CHECK(n == 2); CHECK(m == 0); CHECK(!p.try_fulfill()); CHECK(!p.try_reject(ex(1))); p.get(); CHECK(p.try_get()); [](PV p, int& n) -> co { co_await p; n++; }(p, n); CHECK(n == 3); }
		{ PV p; int n = 0, m = 0; p.then([&] { n++; }, [&](const std::exception_ptr& e) { m = what(e); }); [](PV p, int& n) -> co { try { co_await p; } catch (E1& e) { n += e.v; } }(p, n); CHECK(p.try_reject(ex(9))); CHECK(m == 9); CHECK(n == 9); try { p.get(); CHECK(false); } catch (E1&) {} }
		{ P p; int n = 0; p.then({}, {}); p.then([&](const S&) { n++; }, {}); p.then({}, [&](const std::exception_ptr&) { n += 10; }); p.fulfill("x"); CHECK(n == 1); p.then({}, {}); PV q; q.then({}, {}); q.then(std::function<void()>{}, [&](const std::exception_ptr&) { n += 100; }); q.reject(ex(1)); CHECK(n == 101); }
		{ auto f = P::make_fulfilled("v"); CHECK(f.get() == "v"); auto r = P::make_rejected(ex(2)); CHECK(r.is_rejected()); auto s = P::make_rejected<E1>(2); CHECK(s.is_rejected()); CHECK(!P().get(std::chrono::milliseconds(0))); }
		{ // callbacks see the promise settled, may register more and may release it
			auto p = std::make_unique<P>(); int n = 0; P keep = *p; p->on_settle([&] { CHECK(!keep.is_pending()); keep.on_settle([&] { n++; }); }); p->fulfill("q"); CHECK(n == 1); }
		{ auto p = std::make_unique<P>(); int n = 0; p->on_settle([&] { p.reset(); n++; }); p->on_settle([&] { n++; }); p->on_settle([&] { n++; }); p->fulfill("q"); CHECK(n == 3); CHECK(!p); }
		{ auto p = std::make_unique<P>(); int n = 0; p->on_settle([&] { p.reset(); n++; }); p->on_settle([&] { n++; }); CHECK(p->try_reject(ex(1))); CHECK(n == 2); }
		{ using B = asyncpp::promise<Bomb>; B p; int n = 0; p.on_settle([&] { n++; }); Bomb b(4); Bomb::on = true; try { (void)p.try_fulfill(b); CHECK(false); } catch (int) {} Bomb::on = false; CHECK(p.is_pending()); CHECK(n == 0); CHECK(p.try_fulfill(b)); CHECK(n == 1); CHECK(p.get().v == 4); }
		{ P p; R r; waiter(p, r); P q; q = p; P z(q); CHECK(z.try_fulfill("1")); CHECK(r.aw == 1); CHECK(p.get() == "1"); }
	});
	explore("fulfill | reject", [] { P p; R r; listen(p, r); waiter(p, r); bool a, b; threads({[&] { a = p.try_fulfill("v"); }, [&] { b = p.try_reject(ex(1)); }}); CHECK(a + b == 1); CHECK(r.ful == a); CHECK(r.rej == b); CHECK(r.aw == a); CHECK(r.awx == b); queries(p, a ? 1 : 2, "v", 1); });
	explore("fulfill | fulfill", [] { P p; R r; listen(p, r); bool a, b; threads({[&] { a = p.try_fulfill("1"); }, [&] { b = p.try_fulfill("2"); }}); CHECK(a + b == 1); CHECK(r.ful == 1); queries(p, 1, a ? "1" : "2", 0); CHECK(r.v == p.get()); });
	explore("fulfill | then | on_settle", [] { P p; R r; threads({[&] { p.fulfill("v"); }, [&] { listen(p, r); }, [&] { p.on_settle([&] { CHECK(!p.is_pending()); r.set.fetch_add(1); }); }}); CHECK(r.ful == 1); CHECK(r.rej == 0); CHECK(r.set == 1); });
	explore("reject | await | await", [] { P p; R r; threads({[&] { p.reject(ex(1)); }, [&] { waiter(p, r); }, [&] { waiter(p, r); }}); CHECK(r.awx == 2); CHECK(r.aw == 0); });
	explore("fulfill | await | get", [] { P p; R r; S v; threads({[&] { p.fulfill("vvv"); }, [&] { waiter(p, r); }, [&] { v = p.get(); }}); CHECK(r.aw == 1); CHECK(v == "vvv"); });
	explore("reject | get | get", [] { P p; A n{0}; auto g = [&] { try { (void)p.get(); } catch (E1& e) { CHECK(e.v == 1); n.fetch_add(1); } }; threads({[&] { p.reject(ex(1)); }, g, g}); CHECK(n == 2); });
	explore("fulfill | try_get | queries", [] { P p; threads({[&] { p.fulfill("vv"); }, [&] { if (auto* v = p.try_get()) { CHECK(*v == "vv"); CHECK(p.is_fulfilled()); } }, [&] { bool f = p.is_fulfilled(); if (f) CHECK(!p.is_pending()); CHECK(!p.is_rejected()); if (!p.is_pending()) CHECK(p.get() == "vv"); }}); });
	explore("timed get | fulfill", [] { P p; threads({[&] { auto* v = p.get(std::chrono::hours(1)); CHECK(v && *v == "t"); }, [&] { p.fulfill("t"); }}); });
	explore("last handles: fulfill, drop | await", [] { R r; { auto p = std::make_unique<P>(); P q = *p; threads({[&] { p->fulfill("t"); p.reset(); }, [&] { waiter(std::move(q), r); }}); } CHECK(r.aw == 1); });
	explore("void: fulfill | then | await", [] { PV p; A n{0}; threads({[&] { p.fulfill(); }, [&] { p.then([&] { n.fetch_add(1); }, {}); }, [&] { [](PV p, A& n) -> co { co_await p; n.fetch_add(10); }(p, n); }}); CHECK(n == 11); });
}
