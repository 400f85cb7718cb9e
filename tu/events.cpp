#include "vwrap.h"
#include <asyncpp/event.h>
#include <asyncpp/latch.h>
using namespace asyncpp;
#define EVENT(N, T) \
	using A_##N = decltype(std::declval<T&>().wait(nullptr)); \
	using C_##N = decltype(std::declval<T&>().operator co_await()); \
	VC size_t N##_size() { return sizeof(T); } \
	VC size_t N##_asize() { return sizeof(A_##N); } \
	VC void N##_wait(T* t, dispatcher* d, void* a) { new (a) A_##N(t->wait(d)); } \
	VC void N##_coawait(T* t, void* a) { new (a) C_##N(t->operator co_await()); } \
	VC bool N##_ready(A_##N* a) { return a->await_ready(); } \
	VC bool N##_suspend(A_##N* a, void* h) { return vc_suspend(*a, coroutine_handle<>::from_address(h)); } \
	VC void N##_resume(A_##N* a) { a->await_resume(); } \
	VC dispatcher* N##_current() { return dispatcher::current(); }
#define EVENT2(N, T) \
	VC void N##_ctor(void* t, bool s) { new (t) T(s); } \
	VC bool N##_is_set(const T* t) { return t->is_set(); } \
	VC bool N##_is_awaited(const T* t) { return t->is_awaited(); } \
	VC bool N##_set(T* t, dispatcher* d) { return t->set(d); } \
	VC bool N##_set0(T* t) { return t->set(); } \
	VC void N##_reset(T* t) { t->reset(); }
EVENT(se, single_consumer_event)
EVENT2(se, single_consumer_event)
EVENT(sa, single_consumer_auto_reset_event)
EVENT2(sa, single_consumer_auto_reset_event)
EVENT(me, multi_consumer_event)
EVENT2(me, multi_consumer_event)
EVENT(ma, multi_consumer_auto_reset_event)
EVENT2(ma, multi_consumer_auto_reset_event)
EVENT(la, latch)
VC void la_ctor(void* t, size_t n) { new (t) latch(n); }
VC bool la_is_ready(const latch* t) { return t->is_ready(); }
VC void la_dec(latch* t, size_t n) { t->decrement(n); }
VC void la_dec1(latch* t) { t->decrement(); }
