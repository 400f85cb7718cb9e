#include "vwrap.h"
#include <asyncpp/ref.h>
using namespace asyncpp;
namespace vt {
	struct Pad { long pad[3]; virtual ~Pad(); };
	struct B { virtual ~B(); long b; };
	struct D : Pad, B { long d; ~D() override; };
	void refcounted_add_ref(const B* b) noexcept;
	void refcounted_remove_ref(const B* b) noexcept;
	// user classes counted by the library
	struct O : intrusive_refcount<O> { long v; O(long x) : v(x) {} ~O(); };
	struct OU : intrusive_refcount<OU, thread_unsafe_refcount> { long v; OU(long x) : v(x) {} ~OU(); };
	struct PadN { long pad[3]; };
	struct OV : PadN, intrusive_refcount<OV> { long v; OV(long x) : v(x) {} ~OV(); };
}
using vt::B; using vt::D;
using R = ref<B>; using RD = ref<D>; using CR = ref<const B>;
VC void rf_ctor(void* m) { new (m) R(); }
VC void rf_adopt(void* m, B* p) { new (m) R(p, adopt_ref); }
VC void rf_ptr(void* m, B* p) { new (m) R(p); }
VC void rf_copy(void* m, const R* o) { new (m) R(*o); }
VC void rf_move(void* m, R* o) { new (m) R(std::move(*o)); }
VC void rf_asgn(R* m, const R* o) { *m = *o; }
VC void rf_masgn(R* m, R* o) { *m = std::move(*o); }
VC void rf_rst(R* m, B* p) { m->reset(p); }
VC void rf_rsta(R* m, B* p) { m->reset(p, adopt_ref); }
VC void rf_rst0(R* m) { m->reset(); }
VC void rf_dtor(R* m) { m->~R(); }
VC B* rf_get(const R* m) { return m->get(); }
VC B* rf_arrow(const R* m) { return m->operator->(); }
VC B* rf_star(const R* m) { return &**m; }
VC bool rf_bool(const R* m) { return (bool)*m; }
VC bool rf_not(const R* m) { return !*m; }
VC B* rf_release(R* m) { return m->release(); }
VC bool rf_eq(const R* a, const R* b) { return *a == *b; }
VC bool rf_ne(const R* a, const R* b) { return *a != *b; }
VC bool rf_eqp(const R* a, const B* b) { return *a == b; }
VC bool rf_nep(const R* a, const B* b) { return *a != b; }
VC bool rf_peq(const R* a, const B* b) { return b == *a; }
VC bool rf_lt(const R* a, const R* b) { return (*a <=> *b) < 0; }
VC size_t rf_hash(const R* a) { return std::hash<R>{}(*a); }
VC void rf_scast(void* m, const RD* o) { new (m) R(static_ref_cast<B>(*o)); }
VC void rf_scastm(void* m, RD* o) { new (m) R(static_ref_cast<B>(std::move(*o))); }
VC void rf_sdown(void* m, const R* o) { new (m) RD(static_ref_cast<D>(*o)); }
VC void rf_sdownm(void* m, R* o) { new (m) RD(static_ref_cast<D>(std::move(*o))); }
VC void rf_ccast(void* m, const CR* o) { new (m) R(const_ref_cast<B>(*o)); }
VC void rf_ccastm(void* m, CR* o) { new (m) R(const_ref_cast<B>(std::move(*o))); }
VC void rf_dcast(void* m, const R* o) { new (m) RD(dynamic_ref_cast<D>(*o)); }
VC void rf_dcastm(void* m, R* o) { new (m) RD(dynamic_ref_cast<D>(std::move(*o))); }

#define CNT(N, T) \
	VC size_t N##_size() { return sizeof(T); } \
	VC void N##_ctor(void* m) { new (m) T(1); } \
	VC void N##_make(void* m) { new (m) ref<T>(make_ref<T>(7L)); } \
	VC void N##_add(const T* p) { refcounted_add_ref(p); } \
	VC void N##_rem(const T* p) { refcounted_remove_ref(p); }
CNT(oa, vt::O)
CNT(ou, vt::OU)
CNT(ov, vt::OV)
struct UO : vt::O { using O::O; using O::use_count; };
struct UU : vt::OU { using OU::OU; using OU::use_count; };
VC size_t oa_use(const vt::O* p) { return static_cast<const UO*>(p)->use_count(); }
VC size_t ou_use(const vt::OU* p) { return static_cast<const UU*>(p)->use_count(); }
// a counter policy starts with the count given
VC void rc_safe(void* m, size_t n) { new (m) thread_safe_refcount(n); }
VC size_t rc_count(const thread_safe_refcount* m) { return m->count(); }
VC size_t rc_inc(thread_safe_refcount* m) { return m->fetch_increment(); }
VC size_t rc_dec(thread_safe_refcount* m) { return m->fetch_decrement(); }
VC void rc_usafe(void* m, size_t n) { new (m) thread_unsafe_refcount(n); }
VC size_t rc_ucount(const thread_unsafe_refcount* m) { return m->count(); }
VC size_t rc_uinc(thread_unsafe_refcount* m) { return m->fetch_increment(); }
VC size_t rc_udec(thread_unsafe_refcount* m) { return m->fetch_decrement(); }

using AR = atomic_ref<B>;
VC size_t ar_size() { return sizeof(AR); }
VC void ar_ctor(void* m) { new (m) AR(); }
VC void ar_ref(void* m, R* r) { new (m) AR(std::move(*r)); }
VC void ar_asgn(AR* m, const R* r) { *m = *r; }
VC void ar_masgn(AR* m, R* r) { *m = std::move(*r); }
VC void ar_aasgn(AR* m, const AR* r) { *m = *r; }
VC void ar_amasgn(AR* m, AR* r) { *m = std::move(*r); }
VC void ar_dtor(AR* m) { m->~AR(); }
VC void ar_load(void* o, const AR* m) { new (o) R(m->load()); }
VC void ar_arrow(void* o, const AR* m) { new (o) R(m->operator->()); }
VC void ar_store(AR* m, R* r) { m->store(std::move(*r)); }
VC void ar_storea(AR* m, const AR* r) { m->store(*r); }
VC void ar_exch(void* o, AR* m, R* r) { new (o) R(m->exchange(std::move(*r))); }
VC void ar_excha(void* o, AR* m, const AR* r) { new (o) R(m->exchange(*r)); }
VC B* ar_release(AR* m) { return m->release(); }
VC void ar_reset(AR* m) { m->reset(); }
VC bool ar_bool(const AR* m) { return (bool)*m; }
VC bool ar_not(const AR* m) { return !*m; }
VC size_t ar_hash(const AR* m) { return std::hash<AR>{}(*m); }
VC bool ar_eq(const AR* a, const AR* b) { return *a == *b; }
VC bool ar_ne(const AR* a, const AR* b) { return *a != *b; }
VC bool ar_eqp(const AR* a, const B* b) { return *a == b; }
VC bool ar_peq(const AR* a, const B* b) { return b == *a; }
VC bool ar_nep(const AR* a, const B* b) { return *a != b; }
VC bool ar_lt(const AR* a, const AR* b) { return (*a <=> *b) < 0; }
VC bool ar_ltp(const AR* a, const B* b) { return (*a <=> b) < 0; }
VC bool ar_plt(const AR* a, const B* b) { return (b <=> *a) < 0; }
