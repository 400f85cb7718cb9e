#include "vwrap.h"
#include <asyncpp/promise.h>
using namespace asyncpp;
namespace vt {
	struct T { long id[2]; T(T&&); T(const T&); T& operator=(T&&); T& operator=(const T&); ~T(); };
}
using vt::T;
using P = promise<T>;
using FV = std::function<void()>;
using FT = std::function<void(const T&)>;
using FE = std::function<void(const std::exception_ptr&)>;
using E = std::exception_ptr;
using A = decltype(std::declval<const P&>().operator co_await());
VC size_t pr_size() { return sizeof(P); }
VC size_t pr_asize() { return sizeof(A); }
VC void pr_ctor(void* p) { new (p) P(); }
VC void pr_copy(void* p, const P* o) { new (p) P(*o); }
VC void pr_asgn(P* p, const P* o) { *p = *o; }
VC void pr_dtor(P* p) { p->~P(); }
VC bool pr_pending(const P* p) { return p->is_pending(); }
VC bool pr_fulfilled(const P* p) { return p->is_fulfilled(); }
VC bool pr_rejected(const P* p) { return p->is_rejected(); }
VC void pr_fulfill(P* p, T* v) { p->fulfill(std::move(*v)); }
VC void pr_fulfillc(P* p, const T* v) { p->fulfill(*v); }
VC bool pr_tryfulfill(P* p, T* v) { return p->try_fulfill(std::move(*v)); }
VC bool pr_tryfulfillc(P* p, const T* v) { return p->try_fulfill(*v); }
VC void pr_reject(P* p, E* e) { p->reject(std::move(*e)); }
VC bool pr_tryreject(P* p, E* e) { return p->try_reject(std::move(*e)); }
VC void pr_then(P* p, FT* t, FE* c) { p->then(std::move(*t), std::move(*c)); }
VC void pr_settle(P* p, FV* c) { p->on_settle(std::move(*c)); }
VC T* pr_get(const P* p) { return &p->get(); }
VC T* pr_gett(const P* p, std::chrono::milliseconds* d) { return p->get(*d); }
VC T* pr_trygetn(const P* p, E* e) { auto r = p->try_get(std::nothrow); *e = r.second; return r.first; }
VC T* pr_tryget(const P* p) { return p->try_get(); }
VC void pr_coawait(const P* p, void* a) { new (a) A(p->operator co_await()); }
VC bool pr_ready(A* a) { return a->await_ready(); }
VC bool pr_suspend(A* a, coroutine_handle<> h) { return vc_suspend(*a, h); }
VC T* pr_resume(A* a) { return &a->await_resume(); }
VC void pr_adtor(A* a) { a->~A(); }
VC void pr_mkful(void* p, T* v) { new (p) P(P::make_fulfilled(std::move(*v))); }
VC void pr_mkrej(void* p, E* e) { new (p) P(P::make_rejected(std::move(*e))); }
// void promises
using PV = promise<void>;
using AV = decltype(std::declval<const PV&>().operator co_await());
VC size_t pv_size() { return sizeof(PV); }
VC size_t pv_asize() { return sizeof(AV); }
VC void pv_ctor(void* p) { new (p) PV(); }
VC void pv_copy(void* p, const PV* o) { new (p) PV(*o); }
VC void pv_asgn(PV* p, const PV* o) { *p = *o; }
VC void pv_dtor(PV* p) { p->~PV(); }
VC bool pv_pending(const PV* p) { return p->is_pending(); }
VC bool pv_fulfilled(const PV* p) { return p->is_fulfilled(); }
VC bool pv_rejected(const PV* p) { return p->is_rejected(); }
VC void pv_fulfill(PV* p) { p->fulfill(); }
VC bool pv_tryfulfill(PV* p) { return p->try_fulfill(); }
VC void pv_reject(PV* p, E* e) { p->reject(std::move(*e)); }
VC bool pv_tryreject(PV* p, E* e) { return p->try_reject(std::move(*e)); }
VC void pv_then(PV* p, FV* t, FE* c) { p->then(std::move(*t), std::move(*c)); }
VC void pv_settle(PV* p, FV* c) { p->on_settle(std::move(*c)); }
VC void pv_get(const PV* p) { p->get(); }
VC bool pv_gett(const PV* p, std::chrono::milliseconds* d) { return p->get(*d); }
VC bool pv_trygetn(const PV* p, E* e) { auto r = p->try_get(std::nothrow); *e = r.second; return r.first; }
VC bool pv_tryget(const PV* p) { return p->try_get(); }
VC void pv_coawait(const PV* p, void* a) { new (a) AV(p->operator co_await()); }
VC bool pv_ready(AV* a) { return a->await_ready(); }
VC bool pv_suspend(AV* a, coroutine_handle<> h) { return vc_suspend(*a, h); }
VC void pv_resume(AV* a) { a->await_resume(); }
VC void pv_adtor(AV* a) { a->~AV(); }
VC void pv_mkful(void* p) { new (p) PV(PV::make_fulfilled()); }
VC void pv_mkrej(void* p, E* e) { new (p) PV(PV::make_rejected(std::move(*e))); }
