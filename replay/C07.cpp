#include "ev.h"
using namespace asyncpp; using M = asyncpp::mutex; using L = mutex_lock;
std::hooked_atomic<int> got{0};
co scoped(M& m, L* out) { auto l = co_await m.lock_scoped(); CHECK(l.is_locked()); CHECK(&l.mutex() == &m); got.fetch_add(1); if (out) *out = std::move(l); }
co relock(L& l) { co_await l.lock(); CHECK(l.is_locked()); got.fetch_add(1); }
co plain(M& m) { co_await m.lock(); got.fetch_add(1); }
co own(M& m) { L l(m); co_await l.lock(); CHECK(l.is_locked()); got.fetch_add(1); }
// a lock in each state: 0 none (moved from), 1 unlocked, 2 locked
int main() {
	sched::once("all states", [] {
		for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int same = 0; same < 2; same++) for (int op = 0; op < 4; op++) {
			if (same && a == 2 && b == 2) continue;
			M m1, m2x; M& m2 = same ? m1 : m2x; 
			auto held = [](M& m) { return m.is_locked(); };
			{
				auto l1 = std::make_unique<L>(m1), l2 = std::make_unique<L>(m2);
				if (a == 2) CHECK(l1->try_lock()); if (b == 2) CHECK(l2->try_lock());
				auto empty = [](L& l) { L x(std::move(l)); if (x.is_locked()) x.unlock(); };
				if (a == 0) empty(*l1); if (b == 0) empty(*l2);
				CHECK(l1->is_locked() == (a == 2)); CHECK(l2->is_locked() == (b == 2)); CHECK(held(m1) == (a == 2 || same && b == 2));
				if (op == 0) { *l1 = std::move(*l2); CHECK(l1->is_locked() == (b == 2)); CHECK(!l2->is_locked()); CHECK(held(m1) == (same && b == 2)); CHECK(held(m2) == (b == 2)); if (b) CHECK(&l1->mutex() == &m2);
					l2.reset(); CHECK(held(m2) == (b == 2)); if (b == 2) { l1->unlock(); CHECK(!held(m2)); CHECK(m2.try_lock()); l1.reset(); CHECK(held(m2)); m2.unlock(); } }
				if (op == 1) { auto l3 = std::make_unique<L>(std::move(*l2)); CHECK(l3->is_locked() == (b == 2)); CHECK(!l2->is_locked()); CHECK(held(m2) == (b == 2 || same && a == 2)); l2.reset(); CHECK(held(m2) == (b == 2 || same && a == 2)); l3.reset(); CHECK(held(m2) == (same && a == 2)); }
				if (op == 2) { l2.reset(); CHECK(held(m2) == (same && a == 2)); l1.reset(); CHECK(!held(m1)); }
				if (op == 3 && b == 1) { bool free = !held(m2); CHECK(l2->try_lock() == free); CHECK(l2->is_locked() == free); CHECK(held(m2)); if (free) l2->unlock(); CHECK(!l2->is_locked()); CHECK(held(m2) == !free); }
			}
			CHECK(!held(m1)); CHECK(!held(m2));
		}
	});
	sched::once("self assignment", [] { for (int b = 0; b < 2; b++) { M m; { L l(m); if (b) CHECK(l.try_lock()); L& r = l; l = std::move(r); CHECK(l.is_locked() ? m.is_locked() : !m.is_locked()); } CHECK(!m.is_locked()); } });
	sched::once("awaited locks", [] {
		{ M m; got = 0; scoped(m, nullptr); CHECK(got == 1); CHECK(!m.is_locked()); }
		{ M m; got = 0; CHECK(m.try_lock()); scoped(m, nullptr); scoped(m, nullptr); CHECK(got == 0); m.unlock(); CHECK(got == 2); CHECK(!m.is_locked()); }
		{ M m; M dummy; got = 0; { L out(dummy); CHECK(out.try_lock()); scoped(m, &out); CHECK(got == 1); CHECK(m.is_locked()); CHECK(!dummy.is_locked()); CHECK(out.is_locked()); plain(m); CHECK(got == 1); out.unlock(); CHECK(got == 2); CHECK(m.is_locked()); CHECK(!out.is_locked()); } CHECK(m.is_locked()); m.unlock(); }
		{ M m; got = 0; { L l(m); relock(l); CHECK(got == 1); CHECK(m.is_locked()); plain(m); CHECK(got == 1); } CHECK(got == 2); CHECK(m.is_locked()); m.unlock(); CHECK(!m.is_locked()); }
		{ M m; got = 0; { L l(m); CHECK(m.try_lock()); relock(l); CHECK(got == 0); CHECK(!l.is_locked()); m.unlock(); CHECK(got == 1); CHECK(l.is_locked()); } CHECK(!m.is_locked()); }
		{ M m; CHECK(m.try_lock()); { L l(m, std::adopt_lock); CHECK(l.is_locked()); CHECK(m.is_locked()); } CHECK(!m.is_locked()); CHECK(m.try_lock()); { L l(m); CHECK(!l.is_locked()); CHECK(!l.try_lock()); CHECK(!l.is_locked()); } CHECK(m.is_locked()); m.unlock(); }
	});
	explore("scoped | scoped | try_lock", [] { M m; got = 0; int data = 0;
		threads({[&] { scoped(m, nullptr); }, [&] { scoped(m, nullptr); }, [&] { L l(m); if (l.try_lock()) data++; }}); CHECK(got == 2); CHECK(!m.is_locked()); });
	explore("lock | scoped", [] { M m; got = 0; 
threads({[&] { own(m); }, [&] { scoped(m, nullptr); }}); CHECK(got == 2); CHECK(!m.is_locked()); }, .5);
}
