#include "ev.h"
#include <asyncpp/ptr_tag.h>
using namespace asyncpp;
template<size_t AL> struct alignas(AL) T { char c; };
enum class EN : unsigned char { a, b, c, d };
template<typename X, size_t ID> void one(X* p) {
	const X* cp = p; void* v = ptr_tag<ID>(p); const void* cv = ptr_tag<ID>(cp); CHECK((uintptr_t)v == ((uintptr_t)p | ID)); CHECK(v == cv);
	auto [q, t] = ptr_untag<X>(v); CHECK(q == p); CHECK(t == ID); auto [cq, ct] = ptr_untag<X>(cv); CHECK(cq == p); CHECK(ct == ID); static_assert(std::is_same_v<decltype(cq), const X* const> || std::is_same_v<decltype(cq), const X*>);
	CHECK(ptr_get_tag<X>(v) == ID); CHECK((ptr_get_tag<X, T<4096>>(v) == ID)); CHECK((ptr_get_tag<T<4096>, X>(v) == ID)); CHECK((ptr_get_tag<T<64>, X, T<4096>>(v) == (ID & ((std::min<size_t>(alignof(X), 64)) - 1))));
}
template<typename X, size_t... I> void all(std::index_sequence<I...>) { for (uintptr_t b : {uintptr_t(0), uintptr_t(alignof(X)), uintptr_t(4096 * 1237), uintptr_t(0x7fffffffffff000), uintptr_t(0) - 4096, uintptr_t(1) << 63}) { X* p = reinterpret_cast<X*>(b); (one<X, I>(p), ...); } }
template<EN E, typename X> void en() { for (uintptr_t b : {uintptr_t(0), uintptr_t(4096)}) { X* p = reinterpret_cast<X*>(b); void* v = ptr_tag<E>(p); auto [q, t] = ptr_untag<X, EN>(v); CHECK(q == p && t == E); const void* cv = ptr_tag<E>(static_cast<const X*>(p)); auto [r, u] = ptr_untag<X, EN>(cv); CHECK(r == p && u == E); CHECK(ptr_get_tag<X>(v) == size_t(E)); } }
int main() {
	sched::once("tags", [] {
		all<T<1>>(std::make_index_sequence<1>{}); all<T<2>>(std::make_index_sequence<2>{}); all<T<4>>(std::make_index_sequence<4>{}); all<T<8>>(std::make_index_sequence<8>{}); all<T<16>>(std::make_index_sequence<16>{}); all<T<64>>(std::make_index_sequence<64>{}); all<T<256>>(std::make_index_sequence<256>{});
		en<EN::a, T<4>>(); en<EN::b, T<4>>(); en<EN::c, T<8>>(); en<EN::d, T<16>>();
		CHECK((min_alignof<T<8>, T<4>, T<16>>() == 4)); CHECK((min_alignof<T<8>, T<16>, T<2>>() == 2)); CHECK((min_alignof<T<1>, T<16>>() == 1)); CHECK((min_alignof<T<32>>() == 32));
	});
}
