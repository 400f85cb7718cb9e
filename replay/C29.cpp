#include "coro.h"
#include <asyncpp/task.h>
#include <asyncpp/generator.h>
#include <asyncpp/fire_and_forget.h>
#include <asyncpp/detail/promise_allocator_base.h>
using namespace asyncpp;
struct arena { std::map<void*, size_t> live; int copies = 0, id; size_t allocs = 0; static inline int next = 0; arena() : id(next++) {} ~arena() { CHECK(live.empty()); CHECK(copies == 0); } };
template<class T, int PAD = 0> struct alloc { using value_type = T; arena* a; char pad[PAD + 1]; template<class U> struct rebind { using other = alloc<U, PAD>; };
	alloc(arena* x) : a(x) { pad[PAD] = 77; if (a) a->copies++; } alloc(const alloc& o) : a(o.a) { CHECK(o.pad[PAD] == 77); pad[PAD] = 77; if (a) a->copies++; } template<class U> alloc(const alloc<U, PAD>& o) : a(o.a) { pad[PAD] = 77; if (a) a->copies++; } ~alloc() { CHECK(pad[PAD] == 77); if (a) a->copies--; }
	alloc& operator=(const alloc& o) { if (o.a) o.a->copies++; if (a) a->copies--; a = o.a; return *this; }
	T* allocate(size_t n) { char* p = (char*)aligned_alloc(16, (n * sizeof(T) + 63) / 16 * 16 + 32); memset(p, 0xcd, n); memset(p + n * sizeof(T), 0x5a, 16); a->live[p] = n; a->allocs++; return (T*)p; }
	void deallocate(T* p, size_t n) { CHECK(a->live.count(p)); CHECK(a->live[p] == n); for (int i = 0; i < 16; i++) CHECK(((unsigned char*)p)[n * sizeof(T) + i] == 0x5a); a->live.erase(p); free(p); }
	friend bool operator==(const alloc& x, const alloc& y) { return x.a == y.a; } };
template<class T> struct stateless { using value_type = T; static inline std::map<void*, size_t> live; stateless() = default; template<class U> stateless(const stateless<U>&) {} using is_always_equal = std::true_type; int unused = 0;
	T* allocate(size_t n) { T* p = (T*)aligned_alloc(16, n / 16 * 16 + 48); memset((char*)p + n, 0x5a, 16); live[p] = n; return p; } void deallocate(T* p, size_t n) { CHECK(live.count(p)); CHECK(live[p] == n); for (int i = 0; i < 16; i++) CHECK(((unsigned char*)p)[n + i] == 0x5a); live.erase(p); free(p); } friend bool operator==(const stateless&, const stateless&) { return true; } };
template<int PAD> void direct() { using AL = alloc<std::byte, PAD>; using B = detail::promise_allocator_base<AL>; 
	for (size_t n = 1; n < 200; n += 1 + n / 20) { arena a, b; { AL x(&a), y(&b); unsigned char* p = (unsigned char*)B::operator new(n, 3, x); unsigned char* q = (unsigned char*)B::operator new(n + 1, y); CHECK((uintptr_t)p % alignof(std::max_align_t) == 0); CHECK((uintptr_t)q % alignof(std::max_align_t) == 0); CHECK(a.allocs == 1 && b.allocs == 1); memset(p, 0xff, n); memset(q, 0xff, n + 1);
		bool in = false; for (auto& [z, s] : a.live) in |= (unsigned char*)z <= p && p + n <= (unsigned char*)z + s; CHECK(in); CHECK(a.copies == 2); B::operator delete(p, n); CHECK(a.live.empty()); CHECK(a.copies == 1); CHECK(b.live.size() == 1); B::operator delete(q, n + 1); } CHECK(b.live.empty()); } B::operator delete(nullptr, 5); }
using AL = alloc<std::byte, 0>;
task<int, AL> t(int v, const AL&) { L l; co_return v; }
generator<int, AL> g(int n, AL) { L l; for (int i = 0; i < n; i++) co_yield i; }
eager_fire_and_forget_task<AL> f(gate* g, const AL&) { L l; co_await *g; }
task<int, stateless<std::byte>> st(int v) { L l; co_return v; }
int main() {
	sched::once("allocators", [] {
		direct<0>(); direct<1>(); direct<7>(); direct<8>(); direct<9>(); direct<15>(); direct<23>(); direct<40>(); L::live = 0;
		using S = detail::promise_allocator_base<stateless<std::byte>>; for (size_t n = 1; n < 100; n++) { void* p = S::operator new(n); memset(p, 0xff, n); void* q = S::operator new(n + 3, 1, "x"); S::operator delete(p, n); S::operator delete(q, n + 3); } CHECK(stateless<std::byte>::live.empty()); S::operator delete(nullptr, 3);
		arena a, b; { int r = 0; [](arena& a, arena& b, int& r) -> co { r = co_await t(1, AL(&a)) + co_await t(2, AL(&b)); }(a, b, r); CHECK(r == 3); CHECK(a.allocs == 1 && b.allocs == 1); CHECK(a.live.empty() && b.live.empty()); { auto x = t(5, AL(&a)); CHECK(a.live.size() == 1); } CHECK(a.live.empty()); int s = 0; for (int v : g(4, AL(&a))) s += v; CHECK(s == 6); { auto y = g(3, AL(&b)); auto z = std::move(y); (void)z.begin(); } CHECK(b.live.empty()); { gate gt; f(&gt, AL(&a)); CHECK(a.live.size() == 1); gt.fire(); CHECK(a.live.empty()); } }
		CHECK(a.copies == 0 && b.copies == 0); { int r = 0; [](int& r) -> co { r = co_await st(8); }(r); CHECK(r == 8); CHECK(stateless<std::byte>::live.empty()); } CHECK(L::live == 0);
	});
}
