#include "vwrap.h"
#include <asyncpp/launch.h>
using namespace asyncpp;
namespace vt {
	struct aw { long id[2]; aw(aw&&); aw(const aw&); ~aw(); bool await_ready(); bool await_suspend(coroutine_handle<>); void await_resume(); };
	struct fn { long id[2]; fn(fn&&); fn(const fn&); ~fn(); aw operator()(long a, long& b); aw operator()(); };
}
using vt::aw; using vt::fn; using S = async_launch_scope;
using J = decltype(std::declval<S&>().join());
VC size_t s_size() { return sizeof(S); }
VC size_t j_size() { return sizeof(J); }
VC void s_ctor(void* p) { new (p) S(); }
VC void s_dtor(S* s) { s->~S(); }
VC void launch_rv(S*, aw* a) { launch(std::move(*a)); }
VC void launch_lv(S*, aw* a) { launch(*a); }
VC void slaunch_rv(S* s, aw* a) { s->launch(std::move(*a)); }
VC void slaunch_lv(S* s, const aw* a) { s->launch(*a); }
VC void invoke_rv(S* s, fn* f, long* b) { s->invoke(std::move(*f), 42L, *b); }
VC void invoke_lv(S* s, fn* f, long* b) { s->invoke(*f, 42L, *b); }
VC void invoke0_rv(S* s, fn* f, long* b) { s->invoke(std::move(*f)); }
VC void invoket_rv(S* s, fn* f, long* b) { s->invoke_tuple(std::move(*f), std::tuple<long, long&>(42L, *b)); }
VC void invoket_lv(S* s, fn* f, long* b) { s->invoke_tuple(*f, std::tuple<long, long&>(42L, *b)); }
VC void s_join(S* s, void* p) { new (p) J(s->join()); }
VC bool j_ready(J* j) { return j->await_ready(); }
VC bool j_suspend(J* j, void* h) { return vc_suspend(*j, coroutine_handle<>::from_address(h)); }
VC void j_resume(J* j) { j->await_resume(); }
VC void s_future(S* s, void* p) { new (p) std::future<void>(s->join_future()); }
VC size_t s_count(S* s) { return s->inflight_coroutines(); }
VC bool s_done(S* s) { return s->all_done(); }
VC void hres(void* h) { coroutine_handle<>::from_address(h).resume(); }
