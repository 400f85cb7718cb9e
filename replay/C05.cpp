#include "ev.h"
using namespace asyncpp;
co lw(latch& l, dispatcher* d, bool direct, std::hooked_atomic<int>& n) { if (direct) co_await l; else co_await l.wait(d); n.fetch_add(1); }
int main() {
	event_battery<single_consumer_event, false, false>(); event_battery<single_consumer_auto_reset_event, true, false>();
	event_battery<multi_consumer_event, false, true>(); event_battery<multi_consumer_auto_reset_event, true, true>();
	sched::once("latch dispatchers", [] {
		for (int own = 0; own < 3; own++) for (int direct = 0; direct < 2; direct++) for (int w = 1; w < 4; w++) {
			latch l(2); que q1, q2, q3; std::hooked_atomic<int> n{0};
			dispatcher* o = own == 0 ? nullptr : own == 1 ? &q1 : &q2;
			auto* old = cur_t::current(direct ? o : nullptr); for (int i = 0; i < w; i++) lw(l, o, direct, n); cur_t::current(nullptr);
			l.decrement(1); CHECK(n == 0); l.decrement(1); dispatcher* want = o;
			CHECK(n == (want ? 0 : w)); CHECK(q1.pushed + q2.pushed + q3.pushed == (want ? w : 0));
			if (want) { CHECK(static_cast<que*>(want)->pushed == w); static_cast<que*>(want)->drain(); CHECK(n == w); }
			cur_t::current(old);
		}
	});
}
