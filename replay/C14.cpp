#include "ev.h"
#include <asyncpp/ref.h>
using namespace asyncpp;
template<typename C> struct Obj : intrusive_refcount<Obj<C>, C> { using intrusive_refcount<Obj<C>, C>::use_count; static inline std::atomic<int> live{0}; int id; int data = 0; ref<Obj> next; explicit Obj(int i = 0) : id(i) { live.v.fetch_add(1); } virtual ~Obj() { CHECK(data >= 0); live.v.fetch_sub(1); } };
template<typename C> struct Der : Obj<C> { using Obj<C>::Obj; };
template<typename C> void seq() {
	using O = Obj<C>; using R = ref<O>;
	{ // all pairs of contents and operations
		for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int op = 0; op < 12; op++) {
			O::live = 0; O* raw[2] = {new O(0), new O(1)}; R keep[2] = {R(raw[0]), R(raw[1])};
			auto val = [&](int k) { return k ? R(raw[k - 1]) : R(); }; auto ptr = [&](int k) { return k ? raw[k - 1] : nullptr; };
			{
				R x = val(a), y = val(b); int r = a;
				switch (op) {
				case 0: x = y; r = b; CHECK(y.get() == ptr(b)); break; case 1: x = std::move(y); r = b; CHECK(!y); break; case 2: x.reset(ptr(b)); r = b; break; case 3: x.reset(); r = 0; break;
				case 4: { R& z = x; x = z; break; } case 5: { R& z = x; x = std::move(z); r = x ? a : 0; break; } case 6: { O* p = x.release(); CHECK(p == ptr(a)); CHECK(!x); r = 0; R back(p, adopt_ref); CHECK(back.get() == ptr(a)); break; }
				case 7: { R z(x); CHECK(z == x); break; } case 8: { R z(std::move(x)); r = 0; CHECK(z.get() == ptr(a)); break; } case 9: { O* p = y.release(); x.reset(p, adopt_ref); r = b; break; } case 10: { std::swap(x, y); r = b; CHECK(y.get() == ptr(a)); break; }
				case 11: { x = ptr(b); r = b; break; } }
				CHECK(x.get() == ptr(r)); CHECK(bool(x) == (r != 0)); CHECK(!x == (r == 0)); 
				for (int i = 0; i < 2; i++) { size_t want = 1 + (x.get() == raw[i]) + (y.get() == raw[i]); CHECK(raw[i]->use_count() == want); }
			}
			CHECK(raw[0]->use_count() == 1); CHECK(raw[1]->use_count() == 1); CHECK(O::live == 2); keep[0].reset(); CHECK(O::live == 1); keep[1] = R(); CHECK(O::live == 0);
		}
	}
	{ O::live = 0; auto x = make_ref<O>(7); CHECK(x->id == 7); CHECK(x->use_count() == 1); ref<Der<C>> d(new Der<C>(3)); CHECK(O::live == 2); R up(d.get()); CHECK(up->use_count() == 2); d.reset(); CHECK(O::live == 2); up = x; CHECK(O::live == 1); up.reset(); x.reset(); CHECK(O::live == 0); }
	{ // assigning from something that the old object owns
		O::live = 0; R h(new O(1)); h->next = R(new O(2)); h->next->next = R(new O(3)); CHECK(O::live == 3); h = h->next; CHECK(O::live == 2); CHECK(h->id == 2); h = std::move(h->next); CHECK(O::live == 1); CHECK(h->id == 3); h.reset(); CHECK(O::live == 0);
		h = R(new O(1)); h->next = h; CHECK(h->use_count() == 2); h->next.reset(); CHECK(h->use_count() == 1); h.reset(); CHECK(O::live == 0);
		h = R(new O(1)); h->next = R(new O(2)); h.reset(h->next.get()); CHECK(h->id == 2); CHECK(O::live == 1); h.reset(); CHECK(O::live == 0); }
	{ O::live = 0; R h(new O(1)); refcounted_add_ref(h.get()); CHECK(h->use_count() == 2); refcounted_remove_ref(h.get()); CHECK(h->use_count() == 1); refcounted_add_ref(static_cast<O*>(nullptr)); refcounted_remove_ref(static_cast<O*>(nullptr)); h.reset(); CHECK(O::live == 0); }
	{ R a, b; CHECK(a == b); O::live = 0; R c(new O(1)), d(new O(2)); CHECK(c != d); CHECK(c == c.get()); CHECK(std::hash<R>{}(c) == std::hash<R>{}(R(c))); }
	{ std::vector<R> v; O::live = 0; for (int i = 0; i < 20; i++) v.emplace_back(new O(i)); v.insert(v.begin(), v.back()); v.erase(v.begin() + 3); auto w = v; v.clear(); CHECK(O::live == 19); w.clear(); CHECK(O::live == 0); }
}
int main() {
	sched::once("handles, thread safe count", [] { seq<thread_safe_refcount>(); }); sched::once("handles, thread unsafe count", [] { seq<thread_unsafe_refcount>(); });
	using O = Obj<thread_safe_refcount>; using R = ref<O>;
	explore("drop | drop", [] { O::live = 0; R a(new O(1)); R b(a); threads({[&] { a->data = 1; a.reset(); }, [&] { b.reset(); }}); CHECK(O::live == 0); });
	explore("drop | drop after write", [] { O::live = 0; R a(new O(1)); R b(a); threads({[&] { (void)a->data; a.reset(); }, [&] { b->data = 5; b.reset(); }}); CHECK(O::live == 0); });
	explore("copy, drop | drop | drop", [] { O::live = 0; R a(new O(1)); R b(a), c(a); threads({[&] { R x(a); a.reset(); x.reset(); }, [&] { b.reset(); }, [&] { R y = std::move(c); }}); CHECK(O::live == 0); });
	explore("assign | drop", [] { O::live = 0; R a(new O(1)), d(new O(2)); R b(a); threads({[&] { a = d; }, [&] { b.reset(); }}); CHECK(O::live == 1); CHECK(d->use_count() == 2); });
}
