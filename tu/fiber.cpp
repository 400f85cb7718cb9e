#include "vwrap.h"
#include <asyncpp/fiber.h>
namespace vt {
	struct T { long t; T(const T&); T(T&&) noexcept; T& operator=(const T&); T& operator=(T&&) noexcept; ~T(); };
	// body of a fiber with a void result and one with a result
	struct vfn { long t; vfn(const vfn&); vfn(vfn&&); ~vfn(); void operator()() const; };
	struct tfn { long t; tfn(const tfn&); tfn(tfn&&); ~tfn(); T operator()() const; };
	// awaitables with each kind of await_suspend
	struct awv { bool await_ready(); void await_suspend(asyncpp::coroutine_handle<>); T await_resume(); };
	struct awb { bool await_ready(); bool await_suspend(asyncpp::coroutine_handle<>); T await_resume(); };
	struct awh { bool await_ready(); asyncpp::coroutine_handle<> await_suspend(asyncpp::coroutine_handle<>); T await_resume(); };
}
using namespace asyncpp; using namespace asyncpp::detail;
VC bool fb_alloc(stack_context* c, size_t n) { return fiber_allocate_stack(*c, n); }
VC bool fb_dealloc(stack_context* c) { return fiber_deallocate_stack(*c); }
VC bool fb_make(fiber_context* c, stack_context* s, void (*f)(void*), void* a) { return fiber_makecontext(c, *s, f, a); }
VC bool fb_swapctx(fiber_context* o, fiber_context* i) { return fiber_swapcontext(o, i); }
VC bool fb_destroyctx(fiber_context* c) { return fiber_destroy_context(c); }
VC void fb_handle(coroutine_handle<>* o, vt::vfn* f, size_t n) { *o = make_fiber_handle(n, std::move(*f)); }
VC void fb_ctor(fiber<void>* o, vt::vfn* f, size_t n) { new (o) fiber<void>(std::move(*f), n); }
VC void fb_empty(fiber<void>* o) { new (o) fiber<void>(); }
VC void fb_dtor(fiber<void>* o) { o->~fiber(); }
VC void fb_move(fiber<void>* o, fiber<void>* x) { new (o) fiber<void>(std::move(*x)); }
VC void fb_asgn(fiber<void>* o, fiber<void>* x) { *o = std::move(*x); }
using Aw = decltype(std::declval<fiber<void>&>().await());
VC void fb_await(Aw* o, fiber<void>* x) { new (o) Aw(x->await()); }
VC void fb_coawait(Aw* o, fiber<void>* x) { new (o) Aw(x->operator co_await()); }
VC bool fb_ready(Aw* a) { return a->await_ready(); }
VC void fb_suspend(coroutine_handle<>* o, Aw* a, coroutine_handle<>* h) { *o = a->await_suspend(*h); }
VC void fb_resume(Aw* a) { a->await_resume(); }
// with a result
using FT = fiber<vt::T>;
VC void ft_ctor(FT* o, vt::tfn* f, size_t n) { new (o) FT(std::move(*f), n); }
VC void ft_empty(FT* o) { new (o) FT(); }
VC void ft_dtor(FT* o) { o->~FT(); }
VC void ft_move(FT* o, FT* x) { new (o) FT(std::move(*x)); }
VC void ft_asgn(FT* o, FT* x) { *o = std::move(*x); }
using AwL = decltype(std::declval<FT&>().await());
using AwR = decltype(std::declval<FT&&>().await());
VC void ft_awaitl(AwL* o, FT* x) { new (o) AwL(x->await()); }
VC void ft_awaitr(AwR* o, FT* x) { new (o) AwR(std::move(*x).await()); }
VC void ft_coawaitl(AwL* o, FT* x) { new (o) AwL(x->operator co_await()); }
using AwC = decltype(std::declval<FT&&>().operator co_await());
VC void ft_coawaitr(AwC* o, FT* x) { new (o) AwC(std::move(*x).operator co_await()); }
VC void ft_resumec(vt::T* o, AwC* a) { new (o) vt::T(a->await_resume()); }
VC bool ft_readyl(AwL* a) { return a->await_ready(); }
VC bool ft_readyr(AwR* a) { return a->await_ready(); }
VC void ft_suspendl(coroutine_handle<>* o, AwL* a, coroutine_handle<>* h) { *o = a->await_suspend(*h); }
VC void ft_suspendr(coroutine_handle<>* o, AwR* a, coroutine_handle<>* h) { *o = a->await_suspend(*h); }
VC void ft_resumel(vt::T* o, AwL* a) { new (o) vt::T(a->await_resume()); }
VC void ft_resumer(vt::T* o, AwR* a) { new (o) vt::T(a->await_resume()); }
// fib_await
VC void fa_v(vt::T* o, vt::awv* a) { new (o) vt::T(asyncpp::detail::fiber_await(std::move(*a))); }
VC void fa_b(vt::T* o, vt::awb* a) { new (o) vt::T(asyncpp::detail::fiber_await(std::move(*a))); }
VC void fa_h(vt::T* o, vt::awh* a) { new (o) vt::T(asyncpp::detail::fiber_await(std::move(*a))); }
VC void fa_kw(vt::T* o, vt::awb* a) { new (o) vt::T(fib_await std::move(*a)); }
VC void fa_s(vt::T* o, vt::awb* a) { new (o) vt::T(fiber<void>::fiber_await(std::move(*a))); }
VC void fa_st(vt::T* o, vt::awb* a) { new (o) vt::T(FT::fiber_await(std::move(*a))); }
