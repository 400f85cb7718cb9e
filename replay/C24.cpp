#include "coro.h"
#include <asyncpp/simple_dispatcher.h>
using namespace asyncpp; using D = simple_dispatcher; using A = std::hooked_atomic<int>;
int main() {
	sched::once("sequential", [] {
		for (int n = 0; n < 6; n++) for (int stopat = 0; stopat <= n; stopat++) { D d; std::vector<int> o; d.push({}); for (int i = 0; i < n; i++) d.push([&, i] { o.push_back(i); if (i == stopat) d.stop(); CHECK(dispatcher::current() == &d); if (i == 0 && stopat != 0) d.push([&] { o.push_back(100); }); }); d.push([&] { o.push_back(50); d.stop(); }); que prev; auto* old = cur_t::current(&prev); d.run(); CHECK(dispatcher::current() == &prev); cur_t::current(old);
			size_t want = stopat < n ? stopat + 1 : n + 1; CHECK(o.size() == want); for (size_t i = 0; i < want; i++) CHECK(o[i] == (int(i) < n ? int(i) : 50)); }
		{ D d; d.stop(); int n = 0; d.push([&] { n++; }); d.run(); CHECK(n == 0); CHECK(!dispatcher::current()); }
		{ D d; int n = 0; d.push([] { throw E1{1}; }); d.push([&] { n++; d.stop(); }); try { d.run(); CHECK(false); } catch (E1&) {} CHECK(!dispatcher::current()); CHECK(n == 0); d.run(); CHECK(n == 1); }
		{ D d, e; int n = 0; d.push([&] { e.push([&] { CHECK(dispatcher::current() == &e); n++; e.stop(); }); e.run(); CHECK(dispatcher::current() == &d); d.stop(); }); d.run(); CHECK(n == 1); CHECK(!dispatcher::current()); }
		{ D d; auto p = std::make_shared<int>(1); std::weak_ptr<int> w = p; d.push([p] {}); p.reset(); d.push([&] { CHECK(w.expired()); d.stop(); }); d.run(); }
	});
	explore("run | push | stop", [] { D d; A n{0}; threads({[&] { d.run(); CHECK(!dispatcher::current()); }, [&] { d.push([&] { n.fetch_add(1); }); }, [&] { d.stop(); }}); CHECK(n <= 1); });
	explore("run | push, push", [] { D d; std::vector<int> o; threads({[&] { d.run(); }, [&] { d.push([&] { o.push_back(1); }); d.push([&] { o.push_back(2); d.stop(); }); }}); CHECK((o == std::vector<int>{1, 2})); });
	explore("run | push | push", [] { D d; int n = 0; bool busy = false; auto cb = [&] { CHECK(!busy); busy = true; n++; if (n == 2) d.stop(); busy = false; }; threads({[&] { d.run(); }, [&] { d.push(cb); }, [&] { d.push(cb); }}); CHECK(n == 2); });
	explore("run | stop", [] { D d; threads({[&] { d.run(); }, [&] { d.stop(); }}); });
	explore("run, run again | push", [] { D d; int n = 0; threads({[&] { try { d.run(); } catch (E1&) { n++; } d.run(); }, [&] { d.push([] { throw E1{1}; }); d.push([&] { n++; d.stop(); }); }}); CHECK(n == 2); });
}
