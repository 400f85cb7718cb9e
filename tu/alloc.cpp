#include "vwrap.h"
#include <memory>
#include <cstddef>
#include <asyncpp/detail/promise_allocator_base.h>
using namespace asyncpp;
namespace vt {
	template<size_t N, bool E> struct A {
		using value_type = std::byte; using is_always_equal = std::bool_constant<E>;
		unsigned char st[N];
		A(); A(const A&) noexcept; A(A&&) noexcept; A& operator=(const A&) noexcept; A& operator=(A&&) noexcept; ~A();
		std::byte* allocate(size_t n); void deallocate(std::byte* p, size_t n) noexcept;
		bool operator==(const A&) const noexcept;
	};
	struct Z { using value_type = std::byte; using is_always_equal = std::true_type; Z(); Z(const Z&) noexcept; ~Z(); std::byte* allocate(size_t n); void deallocate(std::byte* p, size_t n) noexcept; bool operator==(const Z&) const noexcept; };
}
using A8 = vt::A<8, false>; using A16 = vt::A<16, false>; using A24 = vt::A<24, false>; using A33 = vt::A<33, false>; using E8 = vt::A<8, true>;
#define INST(n, T) \
	VC void* n##_new1(size_t s, T* a) { return detail::promise_allocator_base<T>::operator new(s, *a); } \
	VC void* n##_new3(size_t s, int* x, T* b, T* a) { return detail::promise_allocator_base<T>::operator new(s, *x, *b, *a); } \
	VC void n##_del(void* p, size_t s) { detail::promise_allocator_base<T>::operator delete(p, s); } \
	VC size_t n##_size() { return sizeof(T); }
INST(a8, A8) INST(a16, A16) INST(a24, A24) INST(a33, A33) INST(e8, E8)
VC void* z_new0(size_t s) { return detail::promise_allocator_base<vt::Z>::operator new(s); }
VC void* z_new1(size_t s, int* x) { return detail::promise_allocator_base<vt::Z>::operator new(s, *x); }
VC void z_del(void* p, size_t s) { detail::promise_allocator_base<vt::Z>::operator delete(p, s); }
