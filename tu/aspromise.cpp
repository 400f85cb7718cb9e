#include "vwrap.h"
#include <asyncpp/sync_wait.h>
using namespace asyncpp;
namespace vt {
	struct T { long id[2]; T(T&&); T(const T&); T& operator=(T&&); T& operator=(const T&); ~T(); explicit T(long); };
	template<class R> struct aw { long id[2]; aw(aw&&); aw(const aw&); ~aw(); bool await_ready(); bool await_suspend(coroutine_handle<>); R await_resume(); };
	// an awaitable with operator co_await
	template<class R> struct ext { long id[2]; ext(ext&&); ext(const ext&); ~ext(); struct inner { ext* e; bool await_ready(); bool await_suspend(coroutine_handle<>); R await_resume(); }; inner operator co_await() { return inner{this}; } };
}
using vt::T; using vt::aw; using vt::ext;
#define INST(n, R, A) \
	VC void n##_rv(void* p, A<R>* a) { new (p) std::future<R>(as_promise<R>(std::move(*a))); } \
	VC void n##_lv(void* p, A<R>* a) { new (p) std::future<R>(as_promise<R>(*a)); } \
	VC void n##_clv(void* p, const A<R>* a) { new (p) std::future<R>(as_promise<R>(*a)); } \
	VC void n##_drv(void* p, A<R>* a) { new (p) std::future<R>(as_promise(std::move(*a))); } \
	VC void n##_dlv(void* p, A<R>* a) { new (p) std::future<R>(as_promise(*a)); }
INST(t, T, aw) INST(v, void, aw) INST(r, T&, aw) INST(et, T, ext) INST(ev, void, ext) INST(er, T&, ext)
// the future asked for holds a value, the awaitable yields a reference to an object of someone else
#define MIX(n, R, A) \
	VC void n##_rv(void* p, A* a) { new (p) std::future<R>(as_promise<R>(std::move(*a))); } \
	VC void n##_lv(void* p, A* a) { new (p) std::future<R>(as_promise<R>(*a)); } \
	VC void n##_clv(void* p, const A* a) { new (p) std::future<R>(as_promise<R>(*a)); }
MIX(m, T, aw<T&>) MIX(em, T, ext<T&>)
VC void hres(void* h) { coroutine_handle<>::from_address(h).resume(); }
