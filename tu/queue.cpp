#include "vwrap.h"
#include <limits>
#include <asyncpp/queue.h>
using namespace asyncpp;
namespace vt {
	struct T { long id[2]; T(T&&); T(const T&); T& operator=(T&&); T& operator=(const T&); ~T(); explicit T(long); };
}
using vt::T;
using Q = queue<T>;
using P = decltype(std::declval<Q&>().pop());
using U = decltype(std::declval<Q&>().push(std::declval<T>()));
VC size_t q_size_() { return sizeof(Q); }
VC size_t q_psize() { return sizeof(P); }
VC size_t q_usize() { return sizeof(U); }
VC void q_ctor(void* q, size_t n, dispatcher* d) { new (q) Q(n, d); }
VC void q_move(void* q, Q* o) { new (q) Q(std::move(*o)); }
VC void q_masgn(Q* q, Q* o) { *q = std::move(*o); }
VC size_t q_size(const Q* q) { return q->size(); }
VC bool q_empty(const Q* q) { return q->empty(); }
VC bool q_trypush(Q* q, T* v) { return q->try_push(std::move(*v)); }
VC bool q_tryempl(Q* q, long v) { return q->try_emplace(v); }
VC bool q_trypop(Q* q, void* out) { auto r = q->try_pop(); if (!r) return false; new (out) T(std::move(*r)); return true; }
VC void q_clear(Q* q) { q->clear(); }
VC void q_pop(Q* q, void* a, dispatcher* d) { (new (a) P(q->pop()))->resume_on(d); }
VC void q_pop0(Q* q, void* a) { new (a) P(q->pop()); }
VC bool q_pready(P* a) { return a->await_ready(); }
VC bool q_psuspend(P* a, coroutine_handle<> h) { return vc_suspend(*a, h); }
VC bool q_presume(P* a, void* out) { auto r = a->await_resume(); if (!r) return false; new (out) T(std::move(*r)); return true; }
VC void q_push(Q* q, void* a, dispatcher* d, T* v) { (new (a) U(q->push(std::move(*v))))->resume_on(d); }
VC void q_push0(Q* q, void* a, T* v) { new (a) U(q->push(std::move(*v))); }
VC bool q_uready(U* a) { return a->await_ready(); }
VC bool q_ususpend(U* a, coroutine_handle<> h) { return vc_suspend(*a, h); }
VC bool q_uresume(U* a) { return a->await_resume(); }
VC dispatcher* q_current() { return dispatcher::current(); }
