#include "ev.h"
#include <asyncpp/threadsafe_queue.h>
using Q = asyncpp::threadsafe_queue<std::string>;
struct Bomb { static inline bool on = false; int v = 0; Bomb(int x) : v(x) { if (on) throw 1; } Bomb(const Bomb& o) : v(o.v) { if (on) throw 2; } Bomb(Bomb&& o) : v(o.v) { if (on) throw 3; } Bomb& operator=(const Bomb& o) { if (on) throw 4; v = o.v; return *this; } };
int main() {
	sched::once("sequential", [] {
		Q q; CHECK(!q.pop()); q.push("a"); q.emplace("b"); q.emplace(3, 'c'); Q c(q); Q d; d = q; d = d; Q& dr = d; d = std::move(dr);
		for (auto* p : {&q, &c, &d}) { CHECK(*p->pop() == "a"); CHECK(*p->pop() == "b"); CHECK(*p->pop() == "ccc"); CHECK(!p->pop()); }
		q.push("x"); q.push("y"); Q e(std::move(q)); CHECK(!q.pop()); Q f; f.push("old"); f = std::move(e); CHECK(!e.pop()); CHECK(*f.pop() == "x"); CHECK(*f.pop() == "y"); CHECK(!f.pop()); f.push("again"); CHECK(*f.pop() == "again");
		std::deque<std::string> init{"1", "2"}; Q g(init); CHECK(*g.pop() == "1"); CHECK(*g.pop() == "2"); CHECK(!g.pop());
	});
	sched::once("exceptions", [] {
		using B = asyncpp::threadsafe_queue<Bomb>; B q; q.emplace(1); q.emplace(2); B other; other.emplace(3);
		Bomb::on = true; for (int i = 0; i < 6; i++) try { if (i == 0) q.emplace(5); if (i == 1) (void)q.pop(); if (i == 2) B c(q); if (i == 3) other = q; if (i == 4) q.push(Bomb(7)); if (i == 5) { Bomb::on = false; Bomb b(9); Bomb::on = true; q.push(b); } CHECK(false); } catch (int) { Bomb::on = true; }
		Bomb::on = false; auto a = q.pop(); CHECK(a && a->v == 1); CHECK(q.pop()->v == 2); CHECK(!q.pop()); (void)other.pop();
	});
	explore("push | push | pop", [] { Q q; std::optional<std::string> r; threads({[&] { q.push("a"); }, [&] { q.emplace("b"); }, [&] { r = q.pop(); }}); int n = r ? 1 : 0; while (q.pop()) n++; CHECK(n == 2); });
	explore("pop | pop with one element", [] { Q q; q.push("a"); std::optional<std::string> r, s; threads({[&] { r = q.pop(); }, [&] { s = q.pop(); }}); CHECK(r.has_value() + s.has_value() == 1); CHECK((r ? *r : *s) == "a"); });
	explore("push, push | pop, pop", [] { Q q; std::vector<std::string> v; threads({[&] { q.push("a"); q.push("b"); }, [&] { for (int i = 0; i < 2; i++) if (auto x = q.pop()) v.push_back(*x); }}); while (auto x = q.pop()) v.push_back(*x); CHECK((v == std::vector<std::string>{"a", "b"})); });
	explore("copy | push", [] { Q q; q.push("a"); std::optional<Q> c; threads({[&] { c.emplace(q); }, [&] { q.push("b"); q.push("c"); }}); int n = 0; while (auto x = c->pop()) CHECK((*x)[0] == 'a' + n++); CHECK(n >= 1 && n <= 3); });
	explore("move | pop", [] { Q q; q.push("a"); std::optional<Q> c; bool p = false; threads({[&] { c.emplace(std::move(q)); }, [&] { p = q.pop().has_value(); }}); CHECK(c->pop().has_value() == !p); });
	explore("a = b | b = a", [] { Q a, b; a.push("1"); b.push("2"); threads({[&] { a = b; }, [&] { b = a; }}); auto x = a.pop(), y = b.pop(); CHECK(x && y && *x == *y); CHECK(!a.pop()); CHECK(!b.pop()); });
	explore("a = move(b) | b = move(a)", [] { Q a, b; a.push("1"); b.push("2"); threads({[&] { a = std::move(b); }, [&] { b = std::move(a); }}); auto x = a.pop(), y = b.pop(); CHECK(x.has_value() + y.has_value() == 1); });
	explore("a = b | pop b | push b", [] { Q a, b; b.push("1"); threads({[&] { a = b; }, [&] { (void)b.pop(); }, [&] { b.push("2"); }}); int n = 0; while (a.pop()) n++; CHECK(n <= 2); });
}
