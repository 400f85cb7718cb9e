#include "vwrap.h"
#include <asyncpp/fire_and_forget.h>
using namespace asyncpp;
namespace vt {
	struct env_awaiter { long id; bool await_ready(); void await_suspend(coroutine_handle<>); void await_resume(); ~env_awaiter(); };
	env_awaiter env_await(); bool env_more(); long env_value();
	// destroyed when the body has ended, may throw then
	struct late { long id; late(); ~late() noexcept(false); };
	struct local { long id; local(); ~local(); };
	std::function<void()> env_handler();
}
using E = eager_fire_and_forget_task<>; using L = fire_and_forget_task<>;
#define BODY(n, X, pre) static X n() { vt::local l; vt::late d; pre while (vt::env_more()) co_await vt::env_await(); vt::env_value(); }
BODY(ebody, E, ) BODY(ebodyi, E, co_await exception_policy::ignore;) BODY(ebodyt, E, co_await exception_policy::terminate;) BODY(ebodyh, E, co_await exception_policy::handle(vt::env_handler());)
BODY(lbody, L, ) BODY(lbodyi, L, co_await exception_policy::ignore;) BODY(lbodyt, L, co_await exception_policy::terminate;) BODY(lbodyh, L, co_await exception_policy::handle(vt::env_handler());)
#define INST(n, X, b) \
	VC size_t n##_size() { return sizeof(X); } \
	VC void n##_body(void* p) { new (p) X(b()); } \
	VC void n##_bodyi(void* p) { new (p) X(b##i()); } \
	VC void n##_bodyt(void* p) { new (p) X(b##t()); } \
	VC void n##_bodyh(void* p) { new (p) X(b##h()); } \
	VC void n##_move(void* p, X* o) { new (p) X(std::move(*o)); } \
	VC void n##_copy(void* p, const X* o) { new (p) X(*o); } \
	VC void n##_masgn(X* p, X* o) { *p = std::move(*o); } \
	VC void n##_casgn(X* p, const X* o) { *p = *o; } \
	VC void n##_dtor(X* p) { p->~X(); }
INST(e, E, ebody) INST(l, L, lbody)
VC void l_start(L* p) { p->start(); }
VC void hres(void* h) { coroutine_handle<>::from_address(h).resume(); }
