#include "vwrap.h"
#include <asyncpp/channel.h>
using namespace asyncpp;
namespace vt {
	struct T { long id[2]; T(T&&); T(const T&); T& operator=(T&&); T& operator=(const T&); ~T(); };
}
using vt::T;
using C = channel<T>;
using R = decltype(std::declval<C&>().read());
using W = decltype(std::declval<C&>().write(std::declval<T>()));
VC size_t ch_size() { return sizeof(C); }
VC size_t ch_rsize() { return sizeof(R); }
VC size_t ch_wsize() { return sizeof(W); }
VC void ch_ctor(void* c) { new (c) C(); }
VC void ch_read(C* c, void* a, dispatcher* d) { (new (a) R(c->read()))->resume_on(d); }
VC void ch_read0(C* c, void* a) { new (a) R(c->read()); }
VC bool ch_rready(R* a) { return a->await_ready(); }
VC bool ch_rsuspend(R* a, coroutine_handle<> h) { return vc_suspend(*a, h); }
VC bool ch_rresume(R* a, void* out) { auto r = a->await_resume(); if (!r) return false; new (out) T(std::move(*r)); return true; }
VC void ch_write(C* c, void* a, dispatcher* d, T* v) { (new (a) W(c->write(std::move(*v))))->resume_on(d); }
VC void ch_write0(C* c, void* a, T* v) { new (a) W(c->write(std::move(*v))); }
VC bool ch_wready(W* a) { return a->await_ready(); }
VC bool ch_wsuspend(W* a, coroutine_handle<> h) { return vc_suspend(*a, h); }
VC bool ch_wresume(W* a) { return a->await_resume(); }
VC bool ch_tryread(C* c, void* out) { auto r = c->try_read(); if (!r) return false; new (out) T(std::move(*r)); return true; }
VC bool ch_trywrite(C* c, T* v) { return c->try_write(std::move(*v)); }
VC void ch_close(C* c) { c->close(); }
VC bool ch_isclosed(const C* c) { return c->is_closed(); }
VC dispatcher* ch_current() { return dispatcher::current(); }
