#include "vwrap.h"
#include <asyncpp/generator.h>
using namespace asyncpp;
namespace vt {
	struct T { long id[2]; T(T&&); T(const T&); T& operator=(T&&); T& operator=(const T&); ~T(); explicit T(long); };
	bool env_more(); long env_value();
	// destroyed when the body has ended, may throw then
	struct late { long id; late(); ~late() noexcept(false); };
	struct local { long id; local(); ~local(); };
	struct Fn { long id; Fn(Fn&&); Fn(const Fn&); ~Fn(); T operator()(T& v); };
}
using vt::T;
using G = generator<T>; using GC = generator<const T>; using GR = generator<T&>; using GX = generator<T&&>;
static G body() { vt::local l; vt::late d; while (vt::env_more()) co_yield T(vt::env_value()); }
static G bodyl() { vt::local l; vt::late d; while (vt::env_more()) { T x(vt::env_value()); co_yield x; } }
static GC bodyc() { vt::local l; vt::late d; while (vt::env_more()) { const T x(vt::env_value()); co_yield x; } }
static GR bodyr() { vt::local l; vt::late d; while (vt::env_more()) { T x(vt::env_value()); co_yield x; } }
static GX bodyx() { vt::local l; vt::late d; while (vt::env_more()) co_yield T(vt::env_value()); }
#define INST(n, X, b) \
	VC size_t n##_size() { return sizeof(X); } \
	VC size_t n##_isize() { return sizeof(X::iterator); } \
	VC void n##_body(void* p) { new (p) X(b()); } \
	VC void n##_null(void* p) { new (p) X(); } \
	VC void n##_move(void* p, X* o) { new (p) X(std::move(*o)); } \
	VC void n##_masgn(X* p, X* o) { *p = std::move(*o); } \
	VC void n##_dtor(X* p) { p->~X(); } \
	VC void n##_begin(X* p, void* i) { new (i) X::iterator(p->begin()); } \
	VC void n##_inull(void* i) { new (i) X::iterator(); } \
	VC void n##_icopy(void* i, X::iterator* o) { new (i) X::iterator(*o); } \
	VC X::iterator* n##_inc(X::iterator* i) { return &++*i; } \
	VC X::iterator* n##_post(X::iterator* i) { (*i)++; return i; } \
	VC bool n##_eq0(X* p, X::iterator* i) { return *i == p->end(); } \
	VC bool n##_eq1(X* p, X::iterator* i) { return p->end() == *i; } \
	VC bool n##_ne0(X* p, X::iterator* i) { return *i != p->end(); } \
	VC bool n##_ne1(X* p, X::iterator* i) { return p->end() != *i; } \
	VC const void* n##_deref(X::iterator* i) { auto&& r = **i; return std::addressof(r); } \
	VC const void* n##_arrow(X::iterator* i) { return i->operator->(); }
INST(gt, G, body) INST(gl, G, bodyl) INST(gc, GC, bodyc)
#ifdef REFS
INST(gr, GR, bodyr) INST(gx, GX, bodyx)
#endif
static G fm() { extern vt::Fn* vt_fn(); return fmap(std::move(*vt_fn()), body()); }
INST(gf, G, fm)
