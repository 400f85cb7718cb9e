#include "ev.h"
#include <asyncpp/ref.h>
using namespace asyncpp;
struct O : intrusive_refcount<O> { using intrusive_refcount<O>::use_count; static inline std::atomic<int> live{0}; int id; int data = 0; explicit O(int i = 0) : id(i) { live.v.fetch_add(1); } ~O() { live.v.fetch_sub(1); } };
struct P2 : intrusive_refcount<P2> {}; using A2 = atomic_ref<P2>;
struct F { int n = 0; }; inline void refcounted_add_ref(F* f) { if (f) f->n++; } inline void refcounted_remove_ref(F* f) { if (f) f->n--; }
using R = ref<O>; using A = atomic_ref<O>;
void seq() {
	for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int op = 0; op < 12; op++) {
		O::live = 0; O* raw[2] = {new O(0), new O(1)}; R keep[2] = {R(raw[0]), R(raw[1])};
		auto val = [&](int k) { return k ? R(raw[k - 1]) : R(); }; auto ptr = [&](int k) { return k ? raw[k - 1] : nullptr; };
		{
			A x(val(a)), y(val(b)); int r = a, s = b; R out;
			switch (op) {
			case 0: x.store(val(b)); r = b; break; case 1: x.store(y); r = b; break; case 2: out = x.exchange(val(b)); CHECK(out.get() == ptr(a)); r = b; break; case 3: out = x.exchange(y); CHECK(out.get() == ptr(a)); r = b; break;
			case 4: x.reset(); r = 0; break; case 5: { O* p = x.release(); CHECK(p == ptr(a)); out = R(p, adopt_ref); r = 0; break; } case 6: x = y; r = b; break; case 7: x = std::move(y); r = b; s = 0; break; case 8: { R v = val(b); x = v; r = b; break; }
			case 9: x = val(b); r = b; break; case 10: out = x.load(); CHECK(out.get() == ptr(a)); break; case 11: { A& z = x; x = z; break; } }
			for (int i = 0; i < 2; i++) { size_t want = 1 + (ptr(r) == raw[i]) + (ptr(s) == raw[i]) + (out.get() == raw[i]); CHECK(raw[i]->use_count() == want); }
			out.reset(); CHECK(x.load().get() == ptr(r)); CHECK(y.load().get() == ptr(s)); CHECK(bool(x) == (r != 0)); CHECK(!x == (r == 0)); if (r) CHECK(x->id == r - 1); CHECK(((x <=> y) == 0) == (r == s)); CHECK((x <=> (const O*)ptr(r)) == 0); CHECK(std::hash<A>{}(x) == std::hash<A>{}(x));
		}
		CHECK(raw[0]->use_count() == 1); CHECK(raw[1]->use_count() == 1); keep[0].reset(); keep[1].reset(); CHECK(O::live == 0);
	}
	{ O::live = 0; { A x; CHECK(!x); CHECK(x.load().get() == nullptr); x.store(R(new O(4))); CHECK(x->id == 4); } CHECK(O::live == 0); }
	{ F f; auto* bad = reinterpret_cast<F*>(reinterpret_cast<uintptr_t>(&f)); atomic_ref<F> x{ref<F>(bad)}; CHECK(f.n == 1); { auto l = x.load(); CHECK(f.n == 2); } CHECK(f.n == 1); x.reset(); CHECK(f.n == 0); }
}
int main() {
	sched::once("sequential", seq);
	explore("load | store", [] { O::live = 0; { A a(R(new O(1))); R n(new O(2)); R g; threads({[&] { g = a.load(); CHECK(g && (g->id == 1 || g->id == 2)); }, [&] { a.store(n); }}); CHECK(a.load() == n); CHECK(g->use_count() == (g == n ? 3 : 1)); CHECK(n->use_count() == (g == n ? 3 : 2)); } CHECK(O::live == 0); });
	explore("load | reset", [] { O::live = 0; { A a(R(new O(1))); R g; threads({[&] { g = a.load(); if (g) g->data = 1; }, [&] { a.reset(); }}); CHECK(!a); if (g) CHECK(g->use_count() == 1); else CHECK(O::live == 0); } CHECK(O::live == 0); });
	explore("load | load | store", [] { O::live = 0; { A a(R(new O(1))); threads({[&] { R g = a.load(); CHECK(g); (void)g->id; }, [&] { R g = a.load(); CHECK(g); }, [&] { a.store(R(new O(2))); }}); CHECK(a->id == 2); CHECK(O::live == 1); CHECK(a.load()->use_count() == 2); } CHECK(O::live == 0); });
	explore("exchange | exchange", [] { O::live = 0; { A a(R(new O(1))); R x, y; threads({[&] { x = a.exchange(R(new O(2))); }, [&] { y = a.exchange(R(new O(3))); }}); CHECK(x->id + y->id + a->id == 6); CHECK(x->id != y->id); CHECK(O::live == 3); CHECK(x->use_count() == 1); CHECK(y->use_count() == 1); } CHECK(O::live == 0); });
	explore("release | release", [] { O::live = 0; { A a(R(new O(1))); O *x, *y; threads({[&] { x = a.release(); }, [&] { y = a.release(); }}); CHECK((x == nullptr) != (y == nullptr)); R g(x ? x : y, adopt_ref); CHECK(g->use_count() == 1); } CHECK(O::live == 0); });
	explore("a = b | b = a", [] { O::live = 0; { A a(R(new O(1))), b(R(new O(2))); threads({[&] { a = b; }, [&] { b = a; }}); CHECK(a && b); int n = a.load() == b.load() ? 1 : 2; CHECK(O::live == n); } CHECK(O::live == 0); });
	explore("a = move(b) | load b", [] { O::live = 0; { A a, b(R(new O(2))); threads({[&] { a = std::move(b); }, [&] { R g = b.load(); if (g) CHECK(g->id == 2); }}); CHECK(a->id == 2); CHECK(!b); CHECK(a.load()->use_count() == 2); } CHECK(O::live == 0); });
	explore("bool, compare | store", [] { O::live = 0; { A a(R(new O(1))); R n(new O(2)), o = a.load(); threads({[&] { CHECK(bool(a)); CHECK(!!a); bool e = (a <=> (const O*)n.get()) == 0 || (a <=> (const O*)o.get()) == 0 || (a <=> (const O*)n.get()) == 0; CHECK(e); auto h = std::hash<A>{}(a); CHECK(h == std::hash<R>{}(n) || h == std::hash<R>{}(o) ); }, [&] { a.store(n); (void)a.load(); }}); } CHECK(O::live == 0); });
	explore("publish", [] { O::live = 0; { A a; threads({[&] { R n(new O(2)); n->data = 42; a.store(std::move(n)); }, [&] { if (R g = a.load()) CHECK(g->data == 42); }}); } CHECK(O::live == 0); });
}
