#include "vwrap.h"
#include <asyncpp/async_generator.h>
using namespace asyncpp;
namespace vt {
	struct T { long id[2]; T(T&&); T(const T&); T& operator=(T&&); T& operator=(const T&); ~T(); explicit T(long); };
	struct env_awaiter { long id; bool await_ready(); void await_suspend(coroutine_handle<>); void await_resume(); ~env_awaiter(); };
	env_awaiter env_await(); bool env_more(); bool env_wait(); long env_value();
	// destroyed when the body has ended, may throw then
	struct late { long id; late(); ~late() noexcept(false); };
	struct local { long id; local(); ~local(); };
}
using vt::T;
#define BODY(name, G, y) static G name() { vt::local l; vt::late d; while (vt::env_more()) { if (vt::env_wait()) { co_await vt::env_await(); } else { y } } }
using G = async_generator<T>; using GC = async_generator<const T>; using GR = async_generator<T&>; using GX = async_generator<T&&>;
BODY(body, G, co_yield T(vt::env_value());)
BODY(bodyl, G, T x(vt::env_value()); co_yield x;)
BODY(bodyc, GC, const T x(vt::env_value()); co_yield x;)
BODY(bodyr, GR, T x(vt::env_value()); co_yield x;)
BODY(bodyx, GX, co_yield T(vt::env_value());)
#define INST(n, X, b) \
	using n##B = decltype(std::declval<X&>().begin()); using n##N = decltype(++std::declval<X::iterator&>()); \
	VC size_t n##_size() { return sizeof(X); } \
	VC size_t n##_isize() { return sizeof(X::iterator); } \
	VC size_t n##_bsize() { return sizeof(n##B); } \
	VC size_t n##_nsize() { return sizeof(n##N); } \
	VC void n##_body(void* p) { new (p) X(b()); } \
	VC void n##_null(void* p) { new (p) X(); } \
	VC void n##_move(void* p, X* o) { new (p) X(std::move(*o)); } \
	VC void n##_masgn(X* p, X* o) { *p = std::move(*o); } \
	VC void n##_swap(X* p, X* o) { using std::swap; swap(*p, *o); } \
	VC void n##_dtor(X* p) { p->~X(); } \
	VC void n##_begin(void* a, X* p) { new (a) n##B(p->begin()); } \
	VC bool n##_bready(n##B* a) { return a->await_ready(); } \
	VC void* n##_bsuspend(n##B* a, coroutine_handle<> h) { return a->await_suspend(h).address(); } \
	VC void n##_bresume(n##B* a, void* i) { new (i) X::iterator(a->await_resume()); } \
	VC void n##_inc(void* a, X::iterator* i) { new (a) n##N(++*i); } \
	VC bool n##_nready(n##N* a) { return a->await_ready(); } \
	VC void* n##_nsuspend(n##N* a, coroutine_handle<> h) { return a->await_suspend(h).address(); } \
	VC void* n##_nresume(n##N* a, void*) { return &a->await_resume(); } \
	VC bool n##_eq0(X* p, X::iterator* i) { return *i == p->end(); } \
	VC bool n##_eq1(X* p, X::iterator* i) { return p->end() == *i; } \
	VC bool n##_ne0(X* p, X::iterator* i) { return *i != p->end(); } \
	VC bool n##_ne1(X* p, X::iterator* i) { return p->end() != *i; } \
	VC const void* n##_deref(X::iterator* i) { auto&& r = **i; return std::addressof(r); }
INST(gt, G, body) INST(gl, G, bodyl) INST(gc, GC, bodyc) INST(gr, GR, bodyr) INST(gx, GX, bodyx)
VC void hres(void* h) { coroutine_handle<>::from_address(h).resume(); }
