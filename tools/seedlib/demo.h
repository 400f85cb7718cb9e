// helpers for the demonstrations
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <coroutine>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <queue>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#define CHECK(x) do { if (!(x)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #x); std::_Exit(1); } } while (0)
namespace demo {
	struct co { // eager coroutine that destroys itself at the end
		struct promise_type {
			co get_return_object() { return {}; }
			std::suspend_never initial_suspend() noexcept { return {}; }
			std::suspend_never final_suspend() noexcept { return {}; }
			void return_void() {}
			void unhandled_exception() { std::terminate(); }
		};
	};
	// called before (and after) every operation on an atomic of the code under test
	inline std::function<void()> hook;
	inline bool in_hook = false;
	inline long ops = 0;
	inline void tick() {
		if (in_hook) return;
		ops++;
		if (hook) { in_hook = true; auto h = hook; h(); in_hook = false; }
	}
	// runs `other` immediately before the n-th tick
	inline void at(long n, std::function<void()> other) {
		ops = 0;
		hook = [n, other] { if (ops == n) other(); };
	}
}
