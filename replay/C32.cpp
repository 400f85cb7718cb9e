#ifdef SO
#define ASYNCPP_SO_COMPAT
#define ASYNCPP_SO_COMPAT_IMPL
#endif
#include "ev.h"
#include <asyncpp/simple_dispatcher.h>
using namespace asyncpp;
int main() {
	sched::once("nesting", [] {
		que a, b; CHECK(dispatcher::current() == nullptr); CHECK(cur_t::current(&a) == nullptr); CHECK(dispatcher::current() == &a); CHECK(dispatcher::current() == &a); CHECK(cur_t::current(&b) == &a); CHECK(cur_t::current(&b) == &b); CHECK(dispatcher::current() == &b); 
		dispatcher* seen = &a; std::jthread([&] { seen = dispatcher::current(); CHECK(cur_t::current(&a) == nullptr); CHECK(dispatcher::current() == &a); }).join(); CHECK(seen == nullptr); CHECK(dispatcher::current() == &b);
		CHECK(cur_t::current(nullptr) == &b); CHECK(dispatcher::current() == nullptr); CHECK(cur_t::current(nullptr) == nullptr);
		simple_dispatcher s; int n = 0; s.push([&] { CHECK(dispatcher::current() == &s); n++; s.stop(); }); cur_t::current(&a); s.run(); CHECK(n == 1); CHECK(dispatcher::current() == &a); cur_t::current(nullptr);
	});
	explore("two threads", [] { que a, b; threads({[&] { for (int i = 0; i < 3; i++) { CHECK(cur_t::current(&a) == (i ? &a : nullptr)); sched::yield(); CHECK(dispatcher::current() == &a); } }, [&] { CHECK(!dispatcher::current()); sched::yield(); cur_t::current(&b); sched::yield(); CHECK(dispatcher::current() == &b); CHECK(cur_t::current(nullptr) == &b); sched::yield(); CHECK(!dispatcher::current()); }}); });
}
