#include "ev.h"
using A = std::hooked_atomic<int>;
struct G { asyncpp::mutex m; int data = 0, inside = 0; A n{0}; std::vector<int> order; };
co locker(G& g, int id, bool scoped) {
	if (scoped) { auto l = co_await g.m.lock_scoped(); CHECK(l.is_locked()); CHECK(g.inside++ == 0); g.data++; g.order.push_back(id); g.inside--; g.n.fetch_add(1); }
	else { co_await g.m.lock(); CHECK(g.inside++ == 0); CHECK(g.m.is_locked()); g.data++; g.order.push_back(id); g.inside--; g.n.fetch_add(1); g.m.unlock(); }
}
co hold(G& g, int id) { co_await g.m.lock(); CHECK(g.inside++ == 0); g.order.push_back(id); g.n.fetch_add(1); }
co two(G& g, int a, int b) { co_await g.m.lock(); g.order.push_back(a); g.n.fetch_add(1); g.m.unlock(); co_await g.m.lock(); g.order.push_back(b); g.n.fetch_add(1); g.m.unlock(); }
void trier(G& g) { if (g.m.try_lock()) { CHECK(g.inside++ == 0); g.data++; g.inside--; g.m.unlock(); } }
int main() {
	sched::once("fifo", [] {
		for (int N = 0; N < 6; N++) for (int split = 0; split <= N; split++) {
			G g; CHECK(!g.m.is_locked()); CHECK(g.m.try_lock()); CHECK(g.m.is_locked()); CHECK(!g.m.try_lock());
			for (int i = 0; i < split; i++) hold(g, i);
			CHECK(g.n == 0); 
			int done = 0;
			if (split) { g.m.unlock(); done = 1; CHECK(g.n == 1); CHECK(!g.m.try_lock()); }
			for (int i = split; i < N; i++) hold(g, i);
			for (; done < N; ) { g.inside = 0; g.m.unlock(); done++; CHECK(g.n == done); CHECK(!g.m.try_lock()); CHECK(g.m.is_locked()); }
			for (int i = 0; i < N; i++) CHECK(g.order[i] == i);
			g.m.unlock(); CHECK(!g.m.is_locked()); CHECK(g.n == N); CHECK(g.m.try_lock()); g.m.unlock();
		}
		{ asyncpp::mutex m{asyncpp::mutex::construct_locked}; CHECK(m.is_locked()); CHECK(!m.try_lock()); m.unlock(); CHECK(m.try_lock()); m.unlock(); }
		{ G g; CHECK(g.m.try_lock()); two(g, 0, 2); two(g, 1, 3); g.m.unlock(); CHECK((g.order == std::vector<int>{0, 1, 3, 2})); CHECK(!g.m.is_locked()); }
	});
	for (int s = 0; s < 2; s++) {
		explore("lock | lock", [s] { G g; threads({[&] { locker(g, 0, s); }, [&] { locker(g, 1, s); }}); CHECK(g.n == 2); CHECK(g.data == 2); CHECK(!g.m.is_locked()); });
		explore("lock | lock | lock", [s] { G g; threads({[&] { locker(g, 0, s); }, [&] { locker(g, 1, s); }, [&] { locker(g, 2, s); }}); CHECK(g.n == 3); CHECK(g.data == 3); CHECK(!g.m.is_locked()); });
	}
	explore("lock | lock | try_lock", [] { G g; threads({[&] { locker(g, 0, false); }, [&] { locker(g, 1, true); }, [&] { trier(g); }}); CHECK(g.n == 2); CHECK(!g.m.is_locked()); });
	explore("lock twice | lock, try_lock", [] { G g; threads({[&] { locker(g, 0, false); locker(g, 1, false); }, [&] { locker(g, 2, false); trier(g); }}); CHECK(g.n == 3); CHECK(!g.m.is_locked()); 
		int p[3]; for (int i = 0; i < 3; i++) p[g.order[i]] = i; CHECK(p[0] < p[1]); });
	explore("unlock | lock | lock", [] { G g; CHECK(g.m.try_lock()); threads({[&] { g.m.unlock(); }, [&] { locker(g, 0, false); }, [&] { locker(g, 1, false); }}); CHECK(g.n == 2); CHECK(!g.m.is_locked()); });
	explore("fifo: queued, queued, unlock | lock", [] { G g; CHECK(g.m.try_lock()); hold(g, 0); hold(g, 1);
		threads({[&] { g.m.unlock(); }, [&] { locker(g, 2, false); }}); CHECK(g.order.size() == 1 && g.order[0] == 0); CHECK(g.inside == 1); g.inside = 0; g.m.unlock(); CHECK(g.order.size() == 2 && g.order[1] == 1); g.inside = 0; g.m.unlock(); CHECK(g.order.size() == 3); CHECK(!g.m.is_locked()); });
	explore("try_lock | try_lock, unlock", [] { G g; threads({[&] { trier(g); }, [&] { trier(g); }}); CHECK(!g.m.is_locked()); CHECK(g.m.try_lock()); g.m.unlock(); });
}
