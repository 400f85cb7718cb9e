#include "vwrap.h"
#include <asyncpp/scope_guard.h>
#include <asyncpp/defer.h>
#include <asyncpp/dispatcher.h>
#include <asyncpp/ptr_tag.h>
#include <functional>
using namespace asyncpp;
namespace vt {
	struct Fn {
		long id[2];
		Fn(Fn&&) noexcept;
		~Fn();
		void operator()() noexcept;
	};
	struct CD { // dispatcher that is not derived from asyncpp::dispatcher
		void push(std::function<void()> fn);
	};
}
using SG = scope_guard<vt::Fn>;
VC size_t sg_size() { return sizeof(SG); }
VC void sg_make(void* m, vt::Fn* f, bool e) { new (m) SG(std::move(*f), e); }
VC void sg_make1(void* m, vt::Fn* f) { new (m) SG(std::move(*f)); }
VC void sg_dtor(SG* g) { g->~SG(); }
VC void sg_engage(SG* g) { g->engage(); }
VC void sg_disengage(SG* g) { g->disengage(); }
VC bool sg_is_engaged(const SG* g) { return g->is_engaged(); }
VC void* sg_fn(SG* g) { return &g->function(); }
VC const void* sg_cfn(const SG* g) { return &g->function(); }

#define DEFER(N, D) \
	using df_##N = defer<D>; \
	VC size_t N##_size() { return sizeof(df_##N); } \
	VC void N##_ptr(void* m, D* d) { new (m) df_##N(d); } \
	VC void N##_ref(void* m, D* d) { new (m) df_##N(*d); } \
	VC bool N##_ready(const df_##N* d) { return d->await_ready(); } \
	VC bool N##_suspend(df_##N* d, void* h) { return vc_suspend(*d, coroutine_handle<>::from_address(h)); } \
	VC void N##_resume(const df_##N* d) { d->await_resume(); }
DEFER(dfd, dispatcher)
DEFER(dfc, vt::CD)

struct dsp : dispatcher {
	static dispatcher* inst(dispatcher* d) { return dispatcher::current(d); }
	static dispatcher* cur() { return dispatcher::current(); }
};
VC dispatcher* dc_install(dispatcher* d) { return dsp::inst(d); }
VC dispatcher* dc_current() { return dsp::cur(); }

template<size_t A> struct alignas(A) T { char c[A]; };
template<class E> struct En { enum class type : E {}; };
template<size_t ID, class X> void* pt_tag(X* p) { return ptr_tag<ID>(p); }
template<size_t ID, class X> const void* pt_ctag(const X* p) { return ptr_tag<ID>(p); }
enum class Tag : unsigned {};
template<size_t ID, class X> void* pt_etag(X* p) { return ptr_tag<static_cast<Tag>(ID)>(p); }
template<size_t ID, class X> const void* pt_cetag(const X* p) { return ptr_tag<static_cast<Tag>(ID)>(p); }
template<class X> void pt_untag(void* p, X** r, size_t* t) { auto [a, b] = ptr_untag<X>(p); *r = a; *t = b; }
template<class X> void pt_cuntag(const void* p, const X** r, size_t* t) { auto [a, b] = ptr_untag<X>(p); *r = a; *t = b; }
template<class X> void pt_euntag(void* p, X** r, Tag* t) { auto [a, b] = ptr_untag<X, Tag>(p); *r = a; *t = b; }
template<class X> void pt_ceuntag(const void* p, const X** r, Tag* t) { auto [a, b] = ptr_untag<X, Tag>(p); *r = a; *t = b; }
template<class... X> size_t pt_get(const void* p) { return ptr_get_tag<X...>(p); }
template<size_t A, size_t... I>
void inst(std::index_sequence<I...>) {
	volatile void* s;
	((s = (void*)&pt_tag<I, T<A>>), ...);
	((s = (void*)&pt_ctag<I, T<A>>), ...);
	((s = (void*)&pt_etag<I, T<A>>), ...);
	((s = (void*)&pt_cetag<I, T<A>>), ...);
	s = (void*)&pt_untag<T<A>>; s = (void*)&pt_cuntag<T<A>>; s = (void*)&pt_euntag<T<A>>; s = (void*)&pt_ceuntag<T<A>>;
	s = (void*)&pt_get<T<A>>;
	s = (void*)&pt_get<T<A>, T<16>>; s = (void*)&pt_get<T<16>, T<A>>; s = (void*)&pt_get<T<8>, T<A>, T<4>>;
	s = (void*)&pt_get<T<32>, T<64>, T<A>>; s = (void*)&pt_get<T<2>, T<A>>;
}
VC void pt_all() {
	inst<1>(std::make_index_sequence<1>{});
	inst<2>(std::make_index_sequence<2>{});
	inst<4>(std::make_index_sequence<4>{});
	inst<8>(std::make_index_sequence<8>{});
	inst<16>(std::make_index_sequence<16>{});
	inst<64>(std::make_index_sequence<64>{});
}
