#pragma once
#include "vsched.h"
#include <asyncpp/event.h>
#include <asyncpp/latch.h>
#include <asyncpp/mutex.h>
#include <asyncpp/dispatcher.h>
using sched::explore; using sched::threads; using sched::co; using asyncpp::dispatcher;
struct cur_t : dispatcher { using dispatcher::current; };
struct inl : dispatcher { std::hooked_atomic<int> n{0}; void push(std::function<void()> f) override { n.fetch_add(1); f(); } };
struct que : dispatcher {
	std::mutex m; std::deque<std::function<void()>> q; int pushed = 0;
	void push(std::function<void()> f) override { std::lock_guard<std::mutex> l(m); q.push_back(std::move(f)); pushed++; }
	bool one() { std::function<void()> f; { std::lock_guard<std::mutex> l(m); if (q.empty()) return false; f = std::move(q.front()); q.pop_front(); } f(); return true; }
	void drain() { while (one()) {} }
};
template<typename E> co wait1(E& e, dispatcher* d, int* data, std::hooked_atomic<int>& n, bool cur = false) {
	if (cur) co_await e; else co_await e.wait(d);
	if (data) CHECK(*data == 42);
	n.fetch_add(1);
}
template<typename E> co waitk(E& e, int k, std::hooked_atomic<int>& n) { for (int i = 0; i < k; i++) { co_await e.wait(nullptr); n.fetch_add(1); } }
// the basic guarantees, for one or more waiters
template<typename E, bool AUTO, bool MULTI> void event_battery() {
	using A = std::hooked_atomic<int>;
	sched::once("sequential use", [] {
		for (int init = 0; init < 2; init++) {
			E e{init == 1}; A n{0}; CHECK(e.is_set() == (init == 1)); CHECK(!e.is_awaited());
			if (init) { wait1(e, nullptr, nullptr, n); CHECK(n == 1); CHECK(e.is_set() == !AUTO); e.reset(); CHECK(!e.is_set()); n = 0; }
			e.reset(); CHECK(!e.is_set());
			int W = MULTI ? 4 : 1;
			for (int w = 1; w <= W; w++) for (int round = 0; round < 2; round++) {
				n = 0; for (int i = 0; i < w; i++) { wait1(e, nullptr, nullptr, n); CHECK(n == 0); CHECK(e.is_awaited()); CHECK(!e.is_set()); e.reset(); CHECK(e.is_awaited()); }
				CHECK(e.set()); CHECK(n == w); CHECK(!e.is_awaited()); CHECK(e.is_set() == !AUTO);
				bool s = e.set(); CHECK(!s); CHECK(e.is_set()); s = e.set(); CHECK(!s); CHECK(n == w);
				if (!AUTO) { wait1(e, nullptr, nullptr, n); CHECK(n == w + 1); CHECK(e.is_set()); }
				else { wait1(e, nullptr, nullptr, n); CHECK(n == w + 1); CHECK(!e.is_set()); }
				e.reset(); CHECK(!e.is_set());
			}
		}
	});
	sched::once("dispatchers", [] {
		for (int own = 0; own < 3; own++) for (int by = 0; by < 3; by++) for (int cur = 0; cur < 3; cur++) for (int w = 1; w <= (MULTI ? 3 : 1); w++) {
			E e; A n{0}; que q1, q2, q3; inl i1;
			dispatcher* o = own == 0 ? nullptr : own == 1 ? (dispatcher*)&q1 : &q2; dispatcher* b = by == 0 ? nullptr : by == 1 ? (dispatcher*)&q1 : &q3;
			dispatcher* old = cur_t::current(cur == 0 ? nullptr : cur == 1 ? o : (dispatcher*)&i1);
			for (int i = 0; i < w; i++) wait1(e, o, nullptr, n);
			CHECK(e.set(b)); dispatcher* want = o ? o : b;
			CHECK(n == (want ? 0 : w)); int all = q1.pushed + q2.pushed + q3.pushed; CHECK(all == (want ? w : 0)); CHECK(i1.n == 0);
			if (want) { CHECK(static_cast<que*>(want)->pushed == w); static_cast<que*>(want)->drain(); CHECK(n == w); }
			e.reset(); n = 0; { que* p[3] = {&q1, &q2, &q3}; for (auto x : p) x->pushed = 0; }
			// direct await: the current dispatcher
			cur_t::current(o); for (int i = 0; i < w; i++) wait1(e, nullptr, nullptr, n, true); cur_t::current(cur == 1 ? &q2 : nullptr);
			CHECK(e.set(b)); CHECK(n == (want ? 0 : w)); CHECK(q1.pushed + q2.pushed + q3.pushed == (want ? w : 0));
			if (want) { CHECK(static_cast<que*>(want)->pushed == w); static_cast<que*>(want)->drain(); CHECK(n == w); }
			cur_t::current(old);
		}
	});
	sched::once("resumed at once by the dispatcher", [] {
		for (int w = 1; w <= (MULTI ? 3 : 1); w++) for (int own = 0; own < 2; own++) for (int again = 0; again < 2; again++) {
			inl i; auto e = std::make_unique<E>(); A n{0};
			for (int k = 0; k < w; k++) { if (again) waitk(*e, 2, n); else wait1(*e, own ? &i : nullptr, nullptr, n); }
			CHECK(e->set(own ? nullptr : &i)); if (!again || AUTO) CHECK(n == w);
			if (again && AUTO) { CHECK(e->is_awaited()); CHECK(e->set()); CHECK(n == 2 * w); }
		}
	});
	// every waiter is released by one set (manual) or by sets until it is (auto)
	for (int W = 1; W <= (MULTI ? 2 : 1); W++)
		explore(W == 1 ? "wait | set" : "wait | wait | set", [W] {
			E e; int data = 0; A n{0}; std::vector<sched::fn> f; A sets{0};
			for (int i = 0; i < W; i++) f.push_back([&] { wait1(e, nullptr, &data, n); });
			f.push_back([&] { data = 42; bool r = e.set(); (void)r; });
			threads(f);
			if (!AUTO) { CHECK(n == W); CHECK(e.is_set()); CHECK(!e.is_awaited()); }
			else { for (int k = 0; n < W; k++) { CHECK(k < W); CHECK(!e.is_set()); CHECK(e.is_awaited()); CHECK(e.set()); } }
		});
	explore("reset | reset, wait", [] {
		E e{true}; A n{0};
		threads({[&] { e.reset(); }, [&] { e.reset(); wait1(e, nullptr, nullptr, n); }});
		CHECK(n == 0); CHECK(e.is_awaited()); CHECK(e.set()); CHECK(n == 1);
	});
	explore("reset | set | wait", [] {
		E e; A n{0}; int data = 0; bool r = false;
		threads({[&] { e.reset(); }, [&] { data = 42; r = e.set(); }, [&] { wait1(e, nullptr, &data, n); }});
		if (r) CHECK(n == 1);
		if (n == 0) { CHECK(e.is_awaited()); CHECK(!e.is_set()); CHECK(e.set()); CHECK(n == 1); }
		else CHECK(!e.is_awaited());
	});
	explore("set | set | wait", [] {
		E e; A n{0}; int data = 42; bool r[2] = {};
		threads({[&] { r[0] = e.set(); }, [&] { r[1] = e.set(); }, [&] { wait1(e, nullptr, &data, n); }});
		CHECK(n == 1); CHECK(r[0] + r[1] <= 1); if (!AUTO) CHECK(e.is_set());
	});
	explore("wait, wait | set", [] {
		E e; A n{0};
		threads({[&] { waitk(e, 2, n); }, [&] { while (n < 2) { (void)e.set(); sched::yield(); } }}); CHECK(n == 2);
	}, .3);
	if (AUTO) explore("auto: wait twice | set | set", [] {
		E e; A n{0}; A t{0};
		threads({[&] { waitk(e, 2, n); }, [&] { if (e.set()) t.fetch_add(1); }, [&] { if (e.set()) t.fetch_add(1); }});
		CHECK(n >= 1); CHECK(n >= t); if (n < 2) { CHECK(!e.is_set()); CHECK(e.is_awaited()); CHECK(e.set()); } else CHECK(!e.is_set());
		CHECK(n == 2); CHECK(!e.is_awaited());
	});
	if (AUTO) explore("auto: wait twice | set", [] {
		E e; A n{0};
		threads({[&] { waitk(e, 2, n); }, [&] { (void)e.set(); }});
		CHECK(n == 1); CHECK(e.is_awaited()); CHECK(!e.is_set()); (void)e.set(); CHECK(n == 2);
	});
	if (AUTO && MULTI) explore("auto: set event, wait | wait", [] {
		E e{true}; A n{0}; int data = 42;
		threads({[&] { wait1(e, nullptr, &data, n); }, [&] { wait1(e, nullptr, &data, n); }});
		CHECK(n == 1); CHECK(e.is_awaited()); CHECK(!e.is_set()); CHECK(e.set()); CHECK(n == 2); CHECK(!e.is_set());
	});
	if (MULTI) explore("wait | wait | wait, then set", [] {
		E e; A n{0};
		threads({[&] { wait1(e, nullptr, nullptr, n); }, [&] { wait1(e, nullptr, nullptr, n); }, [&] { wait1(e, nullptr, nullptr, n); }});
		CHECK(n == 0); CHECK(e.set()); CHECK(n == 3); CHECK(!e.is_awaited());
	});
	if (MULTI) explore("set | set with two waiting", [] {
		E e; A n{0}; bool r[2] = {};
		wait1(e, nullptr, nullptr, n); wait1(e, nullptr, nullptr, n);
		threads({[&] { r[0] = e.set(); }, [&] { r[1] = e.set(); }});
		CHECK(n == 2); CHECK(r[0] + r[1] == 1); CHECK(e.is_set());
	});
	if (MULTI) explore("set | wait, reset | wait", [] {
		E e; A n{0}; bool r = false; wait1(e, nullptr, nullptr, n);
		threads({[&] { r = e.set(); }, [&] { wait1(e, nullptr, nullptr, n); e.reset(); }, [&] { wait1(e, nullptr, nullptr, n); }});
		CHECK(r); CHECK(n >= 1); if (n < 3) { if (!e.is_set()) CHECK(e.is_awaited()); for (int k = 0; n < 3; k++) { CHECK(k < 3); (void)e.set(); } } CHECK(n == 3);
	});
}
