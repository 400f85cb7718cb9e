// wrapper helpers: give the verifier C names for calls through the public API of the real classes
#pragma once
#include <new>
#include <type_traits>
#include <utility>
#include <cstddef>
#include <asyncpp/detail/std_import.h>
#define VC extern "C" __attribute__((used, noinline))
template<class A>
bool vc_suspend(A& a, asyncpp::coroutine_handle<> h) {
	if constexpr (std::is_same_v<decltype(a.await_suspend(h)), void>) {
		a.await_suspend(h);
		return true;
	} else
		return a.await_suspend(h);
}
