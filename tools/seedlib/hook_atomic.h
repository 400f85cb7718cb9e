// replaces std::atomic in the code included after this header by one that calls demo::tick() around each operation
#pragma once
#include "demo.h"
namespace std {
	template<typename T>
	struct hooked_atomic {
		std::atomic<T> v;
		constexpr hooked_atomic() noexcept : v{} {}
		constexpr hooked_atomic(T x) noexcept : v{x} {}
		using value_type = T;
		T load(memory_order = memory_order_seq_cst) const { demo::tick(); T r = v.load(); demo::tick(); return r; }
		void store(T x, memory_order = memory_order_seq_cst) { demo::tick(); v.store(x); demo::tick(); }
		T exchange(T x, memory_order = memory_order_seq_cst) { demo::tick(); T r = v.exchange(x); demo::tick(); return r; }
		bool compare_exchange_strong(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) {
			demo::tick(); bool r = v.compare_exchange_strong(e, d); demo::tick(); return r; }
		bool compare_exchange_weak(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) {
			demo::tick(); bool r = v.compare_exchange_strong(e, d); demo::tick(); return r; }
		template<typename U> T fetch_add(U x, memory_order = memory_order_seq_cst) { demo::tick(); T r = v.fetch_add(x); demo::tick(); return r; }
		template<typename U> T fetch_sub(U x, memory_order = memory_order_seq_cst) { demo::tick(); T r = v.fetch_sub(x); demo::tick(); return r; }
		T fetch_or(T x, memory_order = memory_order_seq_cst) { demo::tick(); T r = v.fetch_or(x); demo::tick(); return r; }
		T fetch_and(T x, memory_order = memory_order_seq_cst) { demo::tick(); T r = v.fetch_and(x); demo::tick(); return r; }
		operator T() const { return load(); }
		T operator=(T x) { store(x); return x; }
	};
}
#define atomic hooked_atomic
