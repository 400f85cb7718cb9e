#include "vwrap.h"
#include <asyncpp/mutex.h>
using namespace asyncpp;
using M = asyncpp::mutex;
using LA = decltype(std::declval<M&>().lock());
using SLA = decltype(std::declval<M&>().lock_scoped());
using ML = mutex_lock;
using MLA = decltype(std::declval<ML&>().lock());
VC size_t mx_size() { return sizeof(M); }
VC size_t mx_lasize() { return sizeof(LA); }
VC size_t mx_slasize() { return sizeof(SLA); }
VC size_t mx_mlsize() { return sizeof(ML); }
VC size_t mx_mlasize() { return sizeof(MLA); }
VC void mx_ctor(void* m) { new (m) M(); }
VC void mx_ctorl(void* m) { new (m) M(M::construct_locked); }
VC bool mx_try_lock(M* m) { return m->try_lock(); }
VC void mx_unlock(M* m) { m->unlock(); }
VC bool mx_is_locked(const M* m) { return m->is_locked(); }
VC void mx_lock(M* m, void* a) { new (a) LA(m->lock()); }
VC bool mx_ready(LA* a) { return a->await_ready(); }
VC bool mx_suspend(LA* a, void* h) { return vc_suspend(*a, coroutine_handle<>::from_address(h)); }
VC void mx_resume(LA* a) { a->await_resume(); }
VC void sl_lock(M* m, void* a) { new (a) SLA(m->lock_scoped()); }
VC bool sl_ready(SLA* a) { return a->await_ready(); }
VC bool sl_suspend(SLA* a, void* h) { return vc_suspend(*a, coroutine_handle<>::from_address(h)); }
VC void sl_resume(SLA* a, void* r) { new (r) ML(a->await_resume()); }
VC void ml_adopt(void* l, M* m) { new (l) ML(*m, std::adopt_lock); }
VC void ml_plain(void* l, M* m) { new (l) ML(*m); }
VC void ml_move(void* l, ML* o) { new (l) ML(std::move(*o)); }
VC void ml_assign(ML* l, ML* o) { *l = std::move(*o); }
VC void ml_dtor(ML* l) { l->~ML(); }
VC void ml_unlock(ML* l) { l->unlock(); }
VC bool ml_try_lock(ML* l) { return l->try_lock(); }
VC bool ml_is_locked(const ML* l) { return l->is_locked(); }
VC M* ml_mutex(const ML* l) { return &l->mutex(); }
VC void ml_lock(ML* l, void* a) { new (a) MLA(l->lock()); }
VC bool mla_ready(MLA* a) { return a->await_ready(); }
VC bool mla_suspend(MLA* a, void* h) { return vc_suspend(*a, coroutine_handle<>::from_address(h)); }
VC void mla_resume(MLA* a) { a->await_resume(); }
