#pragma once
#include "ev.h"
struct E1 { int v; };
// counts frames through the objects that live in them
struct L { static inline std::atomic<int> live{0}; bool own = true; L() { live.v.fetch_add(1); } L(const L&) { live.v.fetch_add(1); } L(L&&) { live.v.fetch_add(1); } ~L() { live.v.fetch_sub(1); } L& operator=(const L&) = default; };
// an object whose destructor may throw
struct bomb { int v; bool* on; ~bomb() noexcept(false) { if (*on) throw E1{v}; } };
// an awaitable that suspends until fired
struct gate { std::hooked_atomic<void*> h{nullptr}; static void* done() { return (void*)1; }
	bool await_ready() { return false; }
	bool await_suspend(std::coroutine_handle<> c) { return h.exchange(c.address()) == nullptr; }
	void await_resume() {}
	void fire() { void* p = h.exchange(done()); if (p && p != done()) std::coroutine_handle<>::from_address(p).resume(); } };
struct gref { gate* g; auto& operator co_await() const { return *g; } };
