#define ASYNCPP_FORCE_CUSTOM_STOP_TOKEN 1
#include "vwrap.h"
#include <asyncpp/stop_token.h>
using namespace asyncpp;
namespace vt {
	struct CB {
		void* p;
		CB(const CB&) noexcept;
		CB(CB&&) noexcept;
		~CB();
		void operator()();
	};
} // namespace vt
using S = stop_source; using T = stop_token; using C = stop_callback<vt::CB>;
VC size_t s_size() { return sizeof(S); }
VC size_t t_size() { return sizeof(T); }
VC size_t c_size() { return sizeof(C); }
VC void s_ctor(void* p) { new (p) S(); }
VC void s_none(void* p) { new (p) S(nostopstate); }
VC void s_copy(void* p, S* o) { new (p) S(*o); }
VC void s_move(void* p, S* o) { new (p) S(std::move(*o)); }
VC void s_assign(S* p, S* o) { *p = *o; }
VC void s_massign(S* p, S* o) { *p = std::move(*o); }
VC void s_dtor(S* p) { p->~S(); }
VC void s_swap(S* p, S* o) { p->swap(*o); }
VC void s_fswap(S* p, S* o) { swap(*p, *o); }
VC bool s_eq(S* p, S* o) { return *p == *o; }
VC bool s_possible(S* p) { return p->stop_possible(); }
VC bool s_requested(S* p) { return p->stop_requested(); }
VC bool s_request(S* p) { return p->request_stop(); }
VC void s_token(void* t, S* p) { new (t) T(p->get_token()); }
VC void t_ctor(void* p) { new (p) T(); }
VC void t_copy(void* p, T* o) { new (p) T(*o); }
VC void t_move(void* p, T* o) { new (p) T(std::move(*o)); }
VC void t_assign(T* p, T* o) { *p = *o; }
VC void t_massign(T* p, T* o) { *p = std::move(*o); }
VC void t_dtor(T* p) { p->~T(); }
VC void t_swap(T* p, T* o) { p->swap(*o); }
VC void t_fswap(T* p, T* o) { swap(*p, *o); }
VC bool t_eq(T* p, T* o) { return *p == *o; }
VC bool t_possible(T* p) { return p->stop_possible(); }
VC bool t_requested(T* p) { return p->stop_requested(); }
VC void c_ctor(void* p, T* t, vt::CB* f) { new (p) C(static_cast<const T&>(*t), std::move(*f)); }
VC void c_mctor(void* p, T* t, vt::CB* f) { new (p) C(std::move(*t), std::move(*f)); }
VC void c_cctor(void* p, T* t, const vt::CB* f) { new (p) C(static_cast<const T&>(*t), *f); }
VC void c_dtor(C* p) { p->~C(); }
