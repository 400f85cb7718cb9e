#include "vwrap.h"
#include <asyncpp/timer.h>
// compiled with -fno-access-control: the parts of the timer are verified one by one
using namespace asyncpp;
using Fn = std::function<void()>;
using Cb = std::function<void(bool)>;
using tp = std::chrono::steady_clock::time_point;
using ns = std::chrono::nanoseconds;
using plain = timer::scheduled_entry;
using entry = timer::cancellable_scheduled_entry;
using sys = std::chrono::system_clock;
VC size_t tm_size() { return sizeof(timer); }
VC size_t tm_psize() { return sizeof(plain); }
VC size_t tm_csize() { return sizeof(entry); }
VC size_t tm_cbsize() { return sizeof(entry::cancel_callback); }
VC int tm_constructing() { return (int)entry::state::constructing; }
VC int tm_pending() { return (int)entry::state::pending; }
VC int tm_taken() { return (int)entry::state::taken; }
VC size_t tm_curoff(entry* e) { return (char*)&e->current - (char*)e; }
VC size_t tm_tokoff(entry* e) { return (char*)&e->cancel_token - (char*)e; }
VC size_t tm_timeoff(plain* e) { return (char*)&e->timepoint - (char*)e; }
VC size_t tm_invoff(plain* e) { return (char*)&e->invokable - (char*)e; }
VC size_t tm_mtx(timer* t) { return (char*)&t->m_mtx - (char*)t; }
VC size_t tm_cv(timer* t) { return (char*)&t->m_cv - (char*)t; }
VC size_t tm_pushed(timer* t) { return (char*)&t->m_pushed - (char*)t; }
VC size_t tm_pset(timer* t) { return (char*)&t->m_scheduled_set - (char*)t; }
VC size_t tm_cset(timer* t) { return (char*)&t->m_scheduled_cancellable_set - (char*)t; }
VC size_t tm_thr(timer* t) { return (char*)&t->m_thread - (char*)t; }
VC size_t tm_exit(timer* t) { return (char*)&t->m_exit - (char*)t; }
VC bool tm_less(const plain* a, const plain* b) { return plain::time_less{}(*a, *b); }
VC void tm_mkplain(void* p, tp when, Cb* f) { new (p) plain(when, std::move(*f)); }
VC void tm_mkentry(void* p, tp when, Cb* f) { new (p) entry(when, std::move(*f)); }
VC void tm_engage(entry* e, stop_token* s, timer* t, std::multiset<entry, plain::time_less>::const_iterator it) { e->cancel_token.emplace(std::move(*s), entry::cancel_callback{t, it}); }
VC void tm_ctor(void* p) { new (p) timer(); }
VC void tm_dtor(timer* t) { t->~timer(); }
VC void tm_push(timer* t, Fn* f) { t->timer::push(std::move(*f)); }
VC void tm_run(timer* t) { t->run(); }
VC void tm_schedule(timer* t, Cb* f, tp when) { t->schedule(std::move(*f), when); }
VC void tm_schedulec(timer* t, Cb* f, tp when, stop_token* s) { t->schedule(std::move(*f), when, std::move(*s)); }
VC void tm_schedule_ns(timer* t, Cb* f, ns d) { t->schedule(std::move(*f), d); }
VC void tm_schedulec_ns(timer* t, Cb* f, ns d, stop_token* s) { t->schedule(std::move(*f), d, std::move(*s)); }
VC void tm_schedule_sys(timer* t, Cb* f, sys::time_point d) { t->schedule(std::move(*f), d); }
VC void tm_schedulec_sys(timer* t, Cb* f, sys::time_point d, stop_token* s) { t->schedule(std::move(*f), d, std::move(*s)); }
VC void tm_cancel(const entry::cancel_callback* c) { (*c)(); }
using aw = decltype(std::declval<timer&>().wait(std::declval<tp>()));
using awc = decltype(std::declval<timer&>().wait(std::declval<tp>(), std::declval<stop_token>()));
VC size_t tm_awsize() { return sizeof(aw); }
VC size_t tm_awcsize() { return sizeof(awc); }
VC void tm_wait(void* p, timer* t, tp when) { new (p) aw(t->wait(when)); }
VC void tm_waitc(void* p, timer* t, tp when, stop_token* s) { new (p) awc(t->wait(when, std::move(*s))); }
VC void tm_wait_ns(void* p, timer* t, ns d) { new (p) aw(t->wait(d)); }
VC void tm_waitc_ns(void* p, timer* t, ns d, stop_token* s) { new (p) awc(t->wait(d, std::move(*s))); }
VC bool aw_ready(aw* a) { return a->await_ready(); }
VC bool aw_suspend(aw* a, void* h) { return vc_suspend(*a, coroutine_handle<>::from_address(h)); }
VC bool aw_resume(aw* a) { return a->await_resume(); }
VC bool awc_ready(awc* a) { return a->await_ready(); }
VC bool awc_suspend(awc* a, void* h) { return vc_suspend(*a, coroutine_handle<>::from_address(h)); }
VC bool awc_resume(awc* a) { return a->await_resume(); }
