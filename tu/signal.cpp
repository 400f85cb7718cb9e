#include "vwrap.h"
#include <asyncpp/signal.h>
namespace vt {
	struct P { long x; P(const P&); ~P(); };
	struct Fn { void* p; Fn(Fn&&); Fn(const Fn&); ~Fn(); void operator()(const int&, const P&); };
}
#ifdef SIGNAL_ST
using S = asyncpp::signal_st<void(int, vt::P)>;
#else
using S = asyncpp::signal<void(int, vt::P)>;
#endif

using H = asyncpp::signal_handle; using Z = asyncpp::scoped_signal_handle;
VC size_t sg_size() { return sizeof(S); }
VC size_t h_size() { return sizeof(H); }
VC size_t z_size() { return sizeof(Z); }
VC void sg_ctor(void* p) { new (p) S(); }
VC void sg_move(void* p, S* o) { new (p) S(std::move(*o)); }
VC void sg_massign(S* p, S* o) { *p = std::move(*o); }
VC void sg_dtor(S* p) { p->~S(); }
VC size_t sg_size_of(const S* p) { return p->size(); }
VC bool sg_empty(const S* p) { return p->empty(); }
VC void sg_append(void* h, S* p, vt::Fn* f) { new (h) H(p->append(std::move(*f))); }
VC void sg_prepend(void* h, S* p, vt::Fn* f) { new (h) H(p->prepend(std::move(*f))); }
VC void sg_plus(void* h, S* p, vt::Fn* f) { new (h) H(*p += std::move(*f)); }
VC bool sg_remove(S* p, const H* h) { return p->remove(*h); }
VC void sg_minus(S* p, const H* h) { *p -= *h; }
VC bool sg_owns(const S* p, const H* h) { return p->owns_handle(*h); }
VC size_t sg_call(const S* p, const int* i, const vt::P* v) { return (*p)(*i, *v); }
VC void h_ctor(void* p) { new (p) H(); }
VC void h_copy(void* p, const H* o) { new (p) H(*o); }
VC void h_assign(H* p, const H* o) { *p = *o; }
VC void h_massign(H* p, H* o) { *p = std::move(*o); }
VC void h_dtor(H* p) { p->~H(); }
VC bool h_valid(const H* p) { return p->valid(); }
VC bool h_bool(const H* p) { return static_cast<bool>(*p); }
VC bool h_not(const H* p) { return !*p; }
VC bool h_eq(const H* p, const H* o) { return *p == *o; }
VC bool h_neq(const H* p, const H* o) { return *p != *o; }
VC void h_disc(H* p) { p->disconnect(); }
VC void z_from(void* p, H* h) { new (p) Z(std::move(*h)); }
VC void z_copy(void* p, const H* h) { new (p) Z(*h); }
VC void z_dtor(Z* p) { p->~Z(); }
VC bool z_valid(const Z* p) { return p->valid(); }
VC bool z_bool(const Z* p) { return static_cast<bool>(*p); }
VC bool z_not(const Z* p) { return !*p; }
VC void z_disc(Z* p) { p->disconnect(); }
VC void z_release(Z* p) { p->release(); }
VC H* z_get(Z* p) { return &static_cast<H&>(*p); }
VC bool z_eq(const Z* p, const Z* o) { return *p == *o; }
VC bool z_neq(const Z* p, const Z* o) { return *p != *o; }
