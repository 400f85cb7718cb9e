#include "vwrap.h"
#include <atomic>
#include <asyncpp/promise.h>
using namespace asyncpp;
namespace vt {
	struct T { long id[2]; T(T&&); T(const T&); T& operator=(T&&); T& operator=(const T&); ~T(); };
}
using vt::T;
using P = promise<T>;
using PV = promise<void>;
VC void first1(void* r, P* a) { new (r) P(promise_first<T>(*a)); }
VC void first2(void* r, P* a, P* b) { new (r) P(promise_first<T>(*a, *b)); }
VC void first3(void* r, P* a, P* b, P* c) { new (r) P(promise_first<T>(*a, *b, *c)); }
VC void succ1(void* r, P* a) { new (r) P(promise_first_successful<T>(*a)); }
VC void succ2(void* r, P* a, P* b) { new (r) P(promise_first_successful<T>(*a, *b)); }
VC void succ3(void* r, P* a, P* b, P* c) { new (r) P(promise_first_successful<T>(*a, *b, *c)); }
VC void all1(void* r, P* a) { new (r) PV(promise_all(*a)); }
VC void all2(void* r, P* a, PV* b) { new (r) PV(promise_all(*a, *b)); }
VC void all3(void* r, P* a, PV* b, P* c) { new (r) PV(promise_all(*a, *b, *c)); }
