#define VSCHED_CLOCK
#define ASYNCPP_FORCE_CUSTOM_STOP_TOKEN 1
#include "coro.h"
#include <asyncpp/timer.h>
using namespace asyncpp; using A = std::hooked_atomic<int>; using clk = std::chrono::steady_clock; using std::chrono::milliseconds;
struct rec { A t{0}, f{0}; long due = 0; bool calm = true; };      // one scheduled callback
static auto cb(rec& r) { return [&r](bool b) { if (b) { CHECK(sched::ticks() >= r.due); r.t.fetch_add(1); } else r.f.fetch_add(1); CHECK(r.t.v + r.f.v == 1); }; }
static clk::time_point at(rec& r, int ms) { r.due = sched::ticks() + ms * 1000000l; return clk::time_point(clk::duration(r.due)); }
static void done(rec& r) { CHECK(r.t.v + r.f.v == 1); }
static void one(rec& r) { sched::until([&] { return r.t.v + r.f.v > 0; }); }
int main() {
	explore("order within each kind, not before due", [] { threads({[] {
		for (int c = 0; c < 2; c++) {
			std::vector<int> o; rec r[4]; A n{0}; stop_source s; { timer t; int ms[] = {30, 10, 20, 10};
				for (int i = 0; i < 4; i++) { auto f = [&, i, k = cb(r[i])](bool b) { CHECK(b); o.push_back(i); k(b); n.fetch_add(1); }; auto w = at(r[i], ms[i]); if (c) t.schedule(f, w, s.get_token()); else t.schedule(f, w); }
				sched::until([&] { return n.v == 4; }); }
			CHECK(o.size() == 4); for (int i = 1; i < 4; i++) CHECK(r[o[i - 1]].due <= r[o[i]].due);
		}
	}}); }, .6);
	explore("an earlier entry added later", [] { threads({[] {
		for (int c = 0; c < 2; c++) { rec r[2]; stop_source s; { timer t; if (c) t.schedule(cb(r[0]), at(r[0], 400), s.get_token()); else t.schedule(cb(r[0]), at(r[0], 400));
			sched::until([&] { return true; }); at(r[1], 50); long d = r[1].due; if (c) t.schedule([&, k = cb(r[1])](bool b) { k(b); CHECK(sched::ticks() <= d + 1000000); }, clk::time_point(clk::duration(d)), s.get_token()); else t.schedule([&, k = cb(r[1])](bool b) { k(b); CHECK(sched::ticks() <= d + 1000000); }, clk::time_point(clk::duration(d)));
			one(r[1]); CHECK(r[1].t.v == 1); CHECK(r[0].t.v + r[0].f.v == 0); } done(r[0]); CHECK(r[0].f.v == 1); }
	}}); }, .6);
	explore("far in the future, delivered on time", [] { threads({[] { rec r[2]; stop_source s; { timer t; t.schedule(cb(r[0]), at(r[0], 1700)); t.schedule([&, k = cb(r[1])](bool b) { k(b); CHECK(sched::ticks() <= r[1].due + 1000000); }, at(r[1], 1200), s.get_token()); one(r[0]); CHECK(r[0].t.v == 1); CHECK(sched::ticks() <= r[0].due + 1000000); } done(r[1]); CHECK(r[1].t.v == 1); }}); }, .3);
	explore("a callback that takes its time", [] { threads({[] { for (int c = 0; c < 2; c++) { rec r[2]; stop_source s; { timer t; auto f = [&, k = cb(r[1])](bool b) { k(b); CHECK(sched::ticks() <= r[1].due + 1000000); }; auto w = at(r[1], 80); if (c) t.schedule(f, w, s.get_token()); else t.schedule(f, w);
		auto g = [&, k = cb(r[0])](bool b) { k(b); long left = r[1].due - sched::ticks() - 10000000; if (left > 0) sched::tick(left); }; w = at(r[0], 0); if (c) t.schedule(g, w); else t.schedule(g, w, s.get_token()); one(r[0]); one(r[1]); } done(r[0]); done(r[1]); } }}); }, .4);
	explore("now, in the past", [] { threads({[] { rec r[4]; stop_source s; timer t; t.schedule(cb(r[0]), at(r[0], 0)); t.schedule(cb(r[1]), at(r[1], -5)); t.schedule(cb(r[2]), at(r[2], 0), s.get_token()); t.schedule(cb(r[3]), milliseconds(0)); for (auto& x : r) { one(x); CHECK(x.t.v == 1); } }}); }, .3);
	explore("push", [] { threads({[] { std::vector<int> o; { timer t; t.push({}); for (int i = 0; i < 3; i++) t.push([&, i] { o.push_back(i); }); } CHECK((o == std::vector<int>{0, 1, 2})); }}); }, .3);
	explore("empty callbacks", [] { threads({[] { rec r; stop_source s; { timer t; t.schedule({}, clk::now()); t.schedule(std::function<void(bool)>{}, clk::now() + milliseconds(900)); t.schedule({}, clk::now() + milliseconds(1), s.get_token()); t.schedule({}, clk::now() + milliseconds(900), s.get_token()); t.schedule(cb(r), at(r, 5)); one(r); s.request_stop(); } CHECK(r.t.v == 1); }}); }, .4);
	explore("destroyed before due", [] { threads({[] { rec r[4]; stop_source s; { timer t; for (int i = 0; i < 4; i++) if (i & 1) t.schedule(cb(r[i]), at(r[i], 100 + i)); else t.schedule(cb(r[i]), at(r[i], 100 + i), s.get_token()); } for (auto& x : r) { done(x); CHECK(x.f.v == 1); } s.request_stop(); for (auto& x : r) done(x); }}); }, .5);
	explore("cancel | wait", [] { rec r; stop_source s; threads({[&] { { timer t; t.schedule(cb(r), at(r, 100), s.get_token()); one(r); } s.request_stop(); done(r); }, [&] { s.request_stop(); }}); done(r); });
	explore("cancel, cancelled at once", [] { threads({[] { rec r[2]; stop_source s; timer t; long c = sched::ticks(); t.schedule(cb(r[0]), at(r[0], 5000), s.get_token()); s.request_stop(); one(r[0]); CHECK(r[0].f.v == 1); CHECK(sched::ticks() < c + 3000000000); c = sched::ticks(); t.schedule(cb(r[1]), at(r[1], 5000), s.get_token()); one(r[1]); CHECK(r[1].f.v == 1); CHECK(sched::ticks() < c + 3000000000); }}); }, .5);
	explore("cancel | expiry", [] { rec r; stop_source s; threads({[&] { timer t; t.schedule(cb(r), at(r, 0), s.get_token()); one(r); sched::until([&] { return s.stop_requested(); }); }, [&] { s.request_stop(); }}); done(r); }, 2);
	explore("cancel | destruction", [] { rec r; stop_source s; threads({[&] { { timer t; t.schedule(cb(r), at(r, 100), s.get_token()); } done(r); }, [&] { s.request_stop(); }}); done(r); }, 2);
	explore("cancel | cancel | push | schedule", [] { rec r[3]; int n = 0; stop_source s, u; threads({[&] { { timer t; t.schedule(cb(r[0]), at(r[0], 50), s.get_token()); t.schedule(cb(r[1]), at(r[1], 70), u.get_token()); t.push([&] { n++; }); t.schedule(cb(r[2]), at(r[2], 20)); sched::until([&] { return s.stop_requested() && u.stop_requested(); }); } for (auto& x : r) done(x); CHECK(n == 1); }, [&] { s.request_stop(); }, [&] { u.request_stop(); }}); }, 2);
	explore("cancel two, one due", [] { rec r[2]; stop_source s; threads({[&] { { timer t; t.schedule(cb(r[0]), at(r[0], 0), s.get_token()); t.schedule(cb(r[1]), at(r[1], 90), s.get_token()); one(r[0]); one(r[1]); } done(r[0]); done(r[1]); }, [&] { s.request_stop(); }}); }, 1);
	explore("a callback cancels and schedules", [] { threads({[] { rec r[3]; stop_source s; { timer t; t.schedule(cb(r[0]), at(r[0], 90), s.get_token()); t.schedule([&, k = cb(r[1])](bool b) { k(b); s.request_stop(); t.schedule(cb(r[2]), at(r[2], 10)); }, at(r[1], 5)); one(r[0]); CHECK(r[0].f.v == 1); one(r[2]); CHECK(r[2].t.v == 1); } }}); }, .5);
	explore("two schedulers | timer", [] { rec r[2]; threads({[&] { timer t; A n{0}; std::thread o([&] { t.schedule(cb(r[0]), at(r[0], 0)); }); t.schedule(cb(r[1]), at(r[1], 3)); o.join(); one(r[0]); one(r[1]); }}); done(r[0]); done(r[1]); });
	explore("callbacks that own things", [] { threads({[] { for (int d = 0; d < 5; d++) { rec r; A n{0}; stop_source s, u; { timer t;
		struct X { timer& t; stop_source& s; A& n; ~X() { s.request_stop(); try { t.push([&n = n] { n.fetch_add(1); }); } catch (std::logic_error&) { n.fetch_add(1); } } }; auto x = std::make_shared<X>(t, s, n); std::function<void(bool)> f = [x](bool) {};
		t.schedule(cb(r), at(r, 90), s.get_token());
		if (d == 0) t.push([x] {}); else if (d == 1) t.schedule(f, clk::now()); else if (d == 2) t.schedule(f, clk::now(), u.get_token()); else if (d == 3) t.schedule(f, clk::now() + milliseconds(9000)); else t.schedule(f, clk::now() + milliseconds(9000), u.get_token());
		f = nullptr; x.reset(); if (d < 3) sched::until([&] { return n.v > 0; }); } CHECK(n.v == 1); done(r); } }}); }, .5);
	explore("wait", [] { threads({[] { int n = 0; stop_source s; { timer t; A k{0};
		auto w = [&](int ms, bool st) -> co { auto d = clk::now() + milliseconds(ms); bool b = st ? co_await t.wait(d, s.get_token()) : co_await t.wait(d); CHECK(!b || clk::now() >= d); if (b) n++; k.fetch_add(1); };
		w(-3, false); CHECK(n == 1); w(-3, true); CHECK(n == 2); w(10, false); w(20, true); w(900000, true); sched::until([&] { return k.v == 4; }); CHECK(n == 4); s.request_stop(); sched::until([&] { return k.v == 5; }); CHECK(n == 4); w(900000, false); } CHECK(n == 4); }}); }, .5);
}
