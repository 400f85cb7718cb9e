#include "ev.h"
#include <asyncpp/promise.h>
using namespace asyncpp; using A = std::hooked_atomic<int>; using P = asyncpp::promise<int>; using PV = asyncpp::promise<void>;
struct E1 { int v; }; std::exception_ptr ex(int v) { return std::make_exception_ptr(E1{v}); }
struct Out { A ful{0}, rej{0}; int v = -1, x = -1; };
void listen(P p, Out& o) { p.then([&](const int& v) { o.v = v; o.ful.fetch_add(1); }, [&](const std::exception_ptr& e) { try { std::rethrow_exception(e); } catch (E1& y) { o.x = y.v; } catch (...) {} o.rej.fetch_add(1); }); }
void settle(P& p, int i, bool ok) { if (ok) CHECK(p.try_fulfill(int(i))); else CHECK(p.try_reject(ex(i))); }
template<int N, int... I> P first(P* p, std::integer_sequence<int, I...>) { return promise_first<int>(p[I]...); }
template<int N, int... I> P succ(P* p, std::integer_sequence<int, I...>) { return promise_first_successful<int>(p[I]...); }
template<int N, int... I> PV all(P* p, std::integer_sequence<int, I...>) { return promise_all(p[I]...); }
template<int N> void orders() {
	using Seq = std::make_integer_sequence<int, N>; int perm[N]; for (int i = 0; i < N; i++) perm[i] = i;
	do for (int ok = 0; ok < 1 << N; ok++) for (int before = 0; before <= N; before++) {
		P in[3][N]; for (auto& x : in) for (int i = 0; i < before; i++) settle(x[perm[i]], perm[i], ok >> perm[i] & 1);
		Out f, s; int n = 0, bad = 0; P rf = first<N>(in[0], Seq{}), rs = succ<N>(in[1], Seq{}); PV ra = all<N>(in[2], Seq{}); listen(rf, f); listen(rs, s); ra.then([&] { n++; }, [&](const std::exception_ptr&) { bad++; });
		auto check = [&](int k) { // k inputs have settled, the first `before` of them before the call (in the order of the arguments)
			std::vector<int> o(perm, perm + before); std::sort(o.begin(), o.end()); for (int i = before; i < k; i++) o.push_back(perm[i]); 
			if (!k) { CHECK(f.ful + f.rej == 0); } else { bool g = ok >> o[0] & 1; CHECK(f.ful == g); CHECK(f.rej == !g); CHECK((g ? f.v : f.x) == o[0]); }
			int w = -1; for (int x : o) if (ok >> x & 1) { w = x; break; } CHECK(s.ful == (w >= 0)); if (w >= 0) CHECK(s.v == w); CHECK(s.rej == (w < 0 && k == N)); if (s.rej) CHECK(s.x == o.back());
			CHECK(n == (k == N)); CHECK(bad == 0); CHECK(ra.is_fulfilled() == (k == N)); };
		check(before); for (int k = before; k < N; k++) { for (auto& x : in) settle(x[perm[k]], perm[k], ok >> perm[k] & 1); check(k + 1); }
	} while (std::next_permutation(perm, perm + N));
}
int main() {
	sched::once("every order", [] { orders<1>(); orders<2>(); orders<3>(); orders<4>(); });
	for (int ok = 0; ok < 4; ok++) for (int N = 2; N <= 3; N++) {
		explore("first", [=] { P in[3]; Out o; P r = N == 2 ? first<2>(in, std::make_integer_sequence<int, 2>{}) : first<3>(in, std::make_integer_sequence<int, 3>{}); listen(r, o); std::vector<sched::fn> f; for (int i = 0; i < N; i++) f.push_back([&, i] { settle(in[i], i, ok >> i & 1); }); threads(f); CHECK(o.ful + o.rej == 1); if (o.ful) CHECK(ok >> o.v & 1); else CHECK(!(ok >> o.x & 1)); }, .15);
		explore("first successful", [=] { P in[3]; Out o; P r = N == 2 ? succ<2>(in, std::make_integer_sequence<int, 2>{}) : succ<3>(in, std::make_integer_sequence<int, 3>{}); listen(r, o); std::vector<sched::fn> f; for (int i = 0; i < N; i++) f.push_back([&, i] { settle(in[i], i, ok >> i & 1); }); threads(f); CHECK(o.ful == (ok != 0)); CHECK(o.rej == (ok == 0)); if (ok) CHECK(ok >> o.v & 1); }, .15);
		explore("all", [=] { P in[3]; int n = 0, data[3] = {}; PV r = N == 2 ? all<2>(in, std::make_integer_sequence<int, 2>{}) : all<3>(in, std::make_integer_sequence<int, 3>{}); r.on_settle([&] { for (int i = 0; i < N; i++) CHECK(data[i]); n++; }); std::vector<sched::fn> f; for (int i = 0; i < N; i++) f.push_back([&, i] { data[i] = 1; settle(in[i], i, ok >> i & 1); }); threads(f); CHECK(n == 1); CHECK(r.is_fulfilled()); }, .15);
	}
	explore("registering | settle | settle", [] { P in[2]; Out o, s; A n{0}; threads({[&] { P r = first<2>(in, std::make_integer_sequence<int, 2>{}); listen(r, o); P q = succ<2>(in, std::make_integer_sequence<int, 2>{}); listen(q, s); PV a = all<2>(in, std::make_integer_sequence<int, 2>{}); a.on_settle([&] { n.fetch_add(1); }); }, [&] { settle(in[0], 0, false); }, [&] { settle(in[1], 1, true); }}); CHECK(o.ful + o.rej == 1); CHECK(s.ful == 1 && s.v == 1); CHECK(s.rej == 0); CHECK(n == 1); });
}
