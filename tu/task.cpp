#include "vwrap.h"
#include <asyncpp/task.h>
using namespace asyncpp;
namespace vt {
	struct T { long id[2]; T(T&&); T(const T&); T& operator=(T&&); T& operator=(const T&); ~T(); explicit T(long); };
	// the most general body: an arbitrary number of suspensions, then a value or an exception
	struct env_awaiter { long id; bool await_ready(); void await_suspend(coroutine_handle<>); void await_resume(); ~env_awaiter(); };
	env_awaiter env_await();
	bool env_more();
	long env_value();
	// destroyed when the body has ended, may throw then
	struct late { long id; late(); ~late() noexcept(false); };
	struct local { long id; local(); ~local(); };
}
using vt::T;
using TK = task<T>; using TV = task<>;
static TK body() { vt::local l; while (vt::env_more()) co_await vt::env_await(); co_return T(vt::env_value()); }
static TK bodyl() { vt::local l; while (vt::env_more()) co_await vt::env_await(); T x(vt::env_value()); co_return x; }
static TK bodyc() { vt::local l; while (vt::env_more()) co_await vt::env_await(); const T x(vt::env_value()); co_return x; }
static TV bodyv() { vt::local l; while (vt::env_more()) co_await vt::env_await(); vt::env_value(); }
static TK bodyd() { vt::local l; vt::late d; while (vt::env_more()) co_await vt::env_await(); co_return T(vt::env_value()); }
static TV bodyw() { vt::local l; vt::late d; while (vt::env_more()) co_await vt::env_await(); vt::env_value(); }
using AK = decltype(std::declval<TK&>().operator co_await()); using AV = decltype(std::declval<TV&>().operator co_await());
#define INST(n, X, A, b) \
	VC size_t n##_size() { return sizeof(X); } \
	VC size_t n##_asize() { return sizeof(A); } \
	VC void n##_body(void* p) { new (p) X(b()); } \
	VC void n##_null(void* p) { new (p) X(nullptr); } \
	VC void n##_move(void* p, X* o) { new (p) X(std::move(*o)); } \
	VC void n##_masgn(X* p, X* o) { *p = std::move(*o); } \
	VC void n##_dtor(X* p) { p->~X(); } \
	VC bool n##_bool(X* p) { return !!*p; } \
	VC bool n##_not(X* p) { return !*p; } \
	VC void n##_await(X* p, void* a) { new (a) A(p->operator co_await()); } \
	VC bool n##_ready(A* a) { return a->await_ready(); } \
	VC void* n##_suspend(A* a, coroutine_handle<> h) { return a->await_suspend(h).address(); }
INST(tk, TK, AK, body) INST(tl, TK, AK, bodyl) INST(tc, TK, AK, bodyc) INST(tv, TV, AV, bodyv) INST(td, TK, AK, bodyd) INST(tw, TV, AV, bodyw)
VC void tk_resume(AK* a, void* out) { new (out) T(a->await_resume()); }
VC void tv_resume(AV* a) { a->await_resume(); }
VC void tk_hres(void* h) { coroutine_handle<>::from_address(h).resume(); }
