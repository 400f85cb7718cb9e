#include "vwrap.h"
#include <asyncpp/simple_dispatcher.h>
using namespace asyncpp;
using Fn = std::function<void()>;
VC size_t sd_size() { return sizeof(simple_dispatcher); }
VC void sd_ctor(void* p) { new (p) simple_dispatcher(); }
VC void sd_push(simple_dispatcher* d, Fn* f) { d->simple_dispatcher::push(std::move(*f)); }
VC void sd_pushv(dispatcher* d, Fn* f) { d->push(std::move(*f)); }
VC void sd_stop(simple_dispatcher* d) { d->stop(); }
VC void sd_run(simple_dispatcher* d) { d->run(); }
VC dispatcher* sd_current() { return dispatcher::current(); }
VC dispatcher* sd_base(simple_dispatcher* d) { return d; }
