#include "vwrap.h"
#include <asyncpp/threadsafe_queue.h>
using namespace asyncpp;
namespace vt {
	struct T { long id[2]; T(T&&); T(const T&); T& operator=(T&&); T& operator=(const T&); ~T(); explicit T(long); };
}
using vt::T;
using Q = threadsafe_queue<T>;
VC size_t tq_size() { return sizeof(Q); }
VC void tq_ctor(void* q) { new (q) Q(); }
VC void tq_copy(void* q, const Q* o) { new (q) Q(*o); }
VC void tq_move(void* q, Q* o) { new (q) Q(std::move(*o)); }
VC void tq_asgn(Q* q, const Q* o) { *q = *o; }
VC void tq_masgn(Q* q, Q* o) { *q = std::move(*o); }
VC void tq_dtor(Q* q) { q->~Q(); }
VC bool tq_pop(Q* q, void* out) {
	auto r = q->pop();
	if (!r) return false;
	new (out) T(std::move(*r));
	return true;
}
VC void tq_push(Q* q, T* v) { q->push(std::move(*v)); }
VC void tq_pushc(Q* q, const T* v) { q->push(*v); }
VC void tq_empl(Q* q, long id) { q->emplace(id); }
VC void tq_emplm(Q* q, T* v) { q->emplace(std::move(*v)); }
