#include "vwrap.h"
#include <asyncpp/thread_pool.h>
using namespace asyncpp;
using Fn = std::function<void()>;
VC size_t tp_size() { return sizeof(thread_pool); }
VC void tp_ctor(void* p, size_t n) { new (p) thread_pool(n); }
VC void tp_dtor(thread_pool* p) { p->~thread_pool(); }
VC void tp_push(thread_pool* p, Fn* f) { p->thread_pool::push(std::move(*f)); }
VC void tp_resize(thread_pool* p, size_t n) { p->resize(n); }
VC size_t tp_get(thread_pool* p) { return p->size(); }
VC dispatcher* tp_current() { return dispatcher::current(); }
VC dispatcher* tp_base(thread_pool* p) { return p; }
