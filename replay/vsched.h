// Replay driver support: runs small scenarios of the real code under a deterministic scheduler.  Every std::atomic, mutex,
// condition variable, thread and future of the code included after this header is replaced by one that gives the scheduler the
// choice which thread continues.  Exactly one thread runs at a time; the hand-over is invisible to the sanitizers (plain futex, not
// instrumented), so ThreadSanitizer still judges data races by the synchronisation of the code itself.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <bit>
#include <cassert>
#include <chrono>
#include <climits>
#include <concepts>
#include <condition_variable>
#include <coroutine>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <stop_token>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <time.h>
#include <signal.h>
#include <unistd.h>
// The reference count inside std::exception_ptr is not instrumented
extern "C" const char* __tsan_default_suppressions() { return "race:std::__exception_ptr\n"; }
#define NOSAN __attribute__((noinline, no_sanitize_thread, no_sanitize_address))
#define CHECK(x) do { if (!(x)) ::sched::fail(__FILE__, __LINE__, #x); } while (0)
namespace sched {
	enum { MAXT = 12, MAXC = 6000 };
	struct slot { volatile int tok; volatile int st; const void* volatile on; volatile int timed, timedout; };   // st: 0 unused, 1 runnable, 2 blocked, 3 done, 4 polling
	inline slot thr[MAXT]; inline volatile int nthr, cur = -1, finished, steps, run_len, preempts;
	inline int choice_[MAXC], opts[MAXC], cost[MAXC]; inline volatile int nch, nprefix, mode; inline volatile unsigned long rng = 1;
	inline const char* volatile scenario = "";
	inline thread_local int self = -1; inline int alt = 0;
	NOSAN inline void die(const char* w) {
		char b[400]; int n = snprintf(b, sizeof b, "FAILED in scenario %s: %s\nschedule:", scenario, w); (void)!write(2, b, n);
		for (int i = 0; i < nch && i < 400; i++) { n = snprintf(b, sizeof b, " %d", choice_[i]); (void)!write(2, b, n); }
		(void)!write(2, "\n", 1); _exit(1);
	}
	inline void fail(const char* f, int l, const char* x) { char b[300]; snprintf(b, sizeof b, "%s:%d: %s", f, l, x); die(b); }
	NOSAN inline unsigned rnd() { unsigned long x = rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; rng = x; return (unsigned)(x >> 20); }
	NOSAN inline int pick_(int n, int c) {                       // decision between n options, option 0 is free, the others cost c
		if (n <= 1 || nch >= MAXC) return 0;
		int v;
		if (nch < nprefix) { v = choice_[nch]; if (v >= n) v = n - 1; }
		else if (mode == 1) v = c ? (preempts < 6 && rnd() % 9 == 0 ? 1 + rnd() % (n - 1) : 0) : rnd() % n;
		else v = 0;
		choice_[nch] = v; opts[nch] = n; cost[nch] = c; nch = nch + 1;
		if (v) preempts = preempts + c;
		return v;
	}
	NOSAN inline void fwait(volatile int* a) { while (!*a) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); *a = 0; __asm__ volatile("mfence" ::: "memory"); }
	NOSAN inline void fwake(volatile int* a) { __asm__ volatile("mfence" ::: "memory"); *a = 1; syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
	NOSAN inline void hand(int n) {                               // let n run; returns when this thread is chosen again
		int me = self; if (n == me) return;
		cur = n; run_len = 0; fwake(&thr[n].tok); if (me >= 0) fwait(&thr[me].tok);
	}
	NOSAN inline int next_other(bool mine) {                      // who runs if the caller can (mine) or can not go on
		int c[MAXT], k = 0, me = self;
		if (mine) c[k++] = me;
		for (int i = 1; i <= nthr; i++) { int j = (me + i + nthr) % nthr; if (j != me && thr[j].st == 1) c[k++] = j; }
		if (!k) {
#ifdef VSCHED_CLOCK
			if (alt ^= 1) for (int i = 1; i <= nthr; i++) { int j = (me + i + nthr) % nthr; if (thr[j].st == 4) return j; }
#endif
			for (int i = 1; i <= nthr; i++) { int j = (me + i + nthr) % nthr; if (thr[j].st == 2 && thr[j].timed) { thr[j].st = 1; thr[j].timedout = 1; return j; } }
			for (int i = 1; i <= nthr; i++) { int j = (me + i + nthr) % nthr; if (thr[j].st == 4) return j; }
			return -1;
		}
		if (mine && run_len > 80 && k > 1) return c[1];
		return c[pick_(k, mine ? 1 : 0)];
	}
	NOSAN inline void yield() {
		if (self < 0) return;
		steps = steps + 1; run_len = run_len + 1; if (steps > 60000) die("no progress (live-lock)");
		hand(next_other(true));
	}
	NOSAN inline void block(const void* on, bool timed = false) { // wait until somebody wakes `on`
		int me = self; thr[me].on = on; thr[me].timed = timed; thr[me].timedout = 0; thr[me].st = 2;
		int n = next_other(false); if (n < 0) die("dead-lock: every thread waits forever");
		if (n != me) hand(n);
	}
	NOSAN inline void wake(const void* on, bool all) {
		int c[MAXT], k = 0; for (int i = 0; i < nthr; i++) if (thr[i].st == 2 && thr[i].on == on) c[k++] = i;
		if (!k) return;
		if (all) { for (int i = 0; i < k; i++) thr[c[i]].st = 1; } else thr[c[pick_(k, 0)]].st = 1;
	}
	NOSAN inline bool was_timeout() { return thr[self].timedout; }
	NOSAN inline int idle(int& n) { // nothing to do but poll
		int me = self; thr[me].st = 4; int before = steps; int o = next_other(false); 
		if (o >= 0 && o != me) hand(o);
		thr[me].st = 1; steps = steps + 1; if (steps > 60000) die("no progress (live-lock)");
		n = before + 1 == steps ? n + 1 : 0; return n;
	}
	template<typename F> void until(F f) { int n = 0; while (!f()) { if (self < 0) { std::this_thread::yield(); continue; } if (idle(n) > 50) die("dead-lock: the condition never becomes true"); } }
	inline int pick(int n) { return self < 0 ? 0 : pick_(n, 0); }
	NOSAN inline int reg() { int i = nthr; if (i >= MAXT) die("too many threads"); thr[i].tok = 0; thr[i].on = nullptr; thr[i].timed = 0; thr[i].st = 1; nthr = i + 1; return i; }
	NOSAN inline void enter(int i) { self = i; fwait(&thr[i].tok); }
	NOSAN inline void leave() {
		int me = self; thr[me].st = 3; wake(&thr[me], true); int n = next_other(false); self = -1;
		if (n >= 0) { cur = n; run_len = 0; fwake(&thr[n].tok); return; }
		for (int i = 0; i < nthr; i++) if (thr[i].st == 2 || thr[i].st == 4) die("dead-lock: every thread waits forever");
		fwake(&finished);
	}
	NOSAN inline bool done(int i) { return thr[i].st == 3; }
	NOSAN inline void begin() { nthr = 0; nch = 0; steps = 0; run_len = 0; preempts = 0; finished = 0; alt = 0; for (int i = 0; i < MAXT; i++) thr[i].st = 0; }
	NOSAN inline void go() { int k = pick_(nthr, 0); cur = k; fwake(&thr[k].tok); fwait(&finished); }
	NOSAN inline bool backtrack(int bound) {                       // next schedule in depth first order
		for (int i = nch - 1; i >= 0; i--) {
			int p = 0; for (int j = 0; j < i; j++) if (choice_[j]) p += cost[j];
			if (choice_[i] + 1 < opts[i] && p + cost[i] <= bound) { choice_[i]++; nprefix = i + 1; return true; }
		}
		return false;
	}
	NOSAN inline void prefix(int n, int m) { nprefix = n; mode = m; }
	NOSAN inline void save(int* a, int& n) { n = nch; for (int i = 0; i < n; i++) a[i] = choice_[i]; }
	using fn = std::function<void()>;
	// one execution: `fs` run concurrently as managed threads
	inline void threads(std::vector<fn> fs) {
		begin(); std::vector<std::thread> ts;
		for (auto& f : fs) { int i = reg(); ts.emplace_back([i, &f] { enter(i); f(); leave(); }); }
		go(); for (auto& t : ts) t.join();
	}
	inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
	inline double budget() { const char* s = getenv("REPLAY_MS"); return (s ? atof(s) : 2500) / 1000; }
	inline void on_alarm(int) { die("hang: a call never returns"); }
	inline void watch(int sec) { signal(SIGALRM, on_alarm); alarm(sec); }
	// explore `body`, which calls threads() once (and checks afterwards), under many schedules
	inline void explore(const char* name, fn body, double weight = 1) {
		scenario = name; watch(60); double t0 = now(), half = budget() * weight / 2; long n = 0;
		for (int bound = 0; bound <= 3; bound++) {
			prefix(0, 0);
			while (true) { body(); n++; if (now() - t0 > half || !backtrack(bound)) break; }
			if (now() - t0 > half) break;
		}
		double t1 = now(); long m = 0;
		while (now() - t1 < half && m < 20000) { rng = 88172645463325252ul + 7919 * ++m; prefix(0, 1); body(); }
		if (getenv("REPLAY_VERBOSE")) fprintf(stderr, "%-40s %ld systematic, %ld random schedules\n", name, n, m);
	}
	// single threaded scenario
	inline void once(const char* name, fn body) { scenario = name; watch(60); begin(); body(); }

#ifdef VSCHED_CLOCK
	// the steady clock is virtual: it advances when a timed wait runs out (or a scenario says so)
	inline volatile long clock_ = 1000000000;
	NOSAN inline long ticks() { return clock_; }
	NOSAN inline void tick(long ns) { clock_ = clock_ + ns; }
	template<typename T> void advance(const T& t) { long x = std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); if (x > ticks()) tick(x - ticks()); }
#endif
	struct co { // eager coroutine that destroys itself at the end
		struct promise_type {
			co get_return_object() { return {}; }
			std::suspend_never initial_suspend() noexcept { return {}; }
			std::suspend_never final_suspend() noexcept { return {}; }
			void return_void() {}
			void unhandled_exception() { die("exception left a coroutine"); }
		};
	};
}
#ifdef VSCHED_CLOCK
std::chrono::_V2::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point(duration(sched::ticks())); }
#endif
namespace std {
	template<typename T> struct hooked_atomic {
		std::atomic<T> v; mutable int waiters = 0;
		using value_type = T; static constexpr bool is_always_lock_free = true;
		constexpr hooked_atomic() noexcept : v{} {}
		constexpr hooked_atomic(T x) noexcept : v{x} {}
		hooked_atomic(const hooked_atomic&) = delete; hooked_atomic& operator=(const hooked_atomic&) = delete;
		static void pre() { sched::yield(); }
		static void post() { sched::yield(); }
#define OP(E) pre(); auto r = E; post(); return r;
		T load(memory_order o = memory_order_seq_cst) const { pre(); return v.load(o); }
		void store(T x, memory_order o = memory_order_seq_cst) { pre(); v.store(x, o); post(); }
		T exchange(T x, memory_order o = memory_order_seq_cst) { OP(v.exchange(x, o)) }
		bool compare_exchange_strong(T& e, T d, memory_order a, memory_order b) { OP(v.compare_exchange_strong(e, d, a, b)) }
		bool compare_exchange_strong(T& e, T d, memory_order a = memory_order_seq_cst) { OP(v.compare_exchange_strong(e, d, a)) }
		bool compare_exchange_weak(T& e, T d, memory_order a, memory_order b) { pre(); if (spurious()) { e = v.load(b); return false; } auto r = v.compare_exchange_strong(e, d, a, b); post(); return r; }
		bool compare_exchange_weak(T& e, T d, memory_order a = memory_order_seq_cst) { pre(); if (spurious()) { e = v.load(a == memory_order_acq_rel ? memory_order_acquire : a == memory_order_release ? memory_order_relaxed : a); return false; } auto r = v.compare_exchange_strong(e, d, a); post(); return r; }
		static bool spurious() { return sched::self >= 0 && sched::pick_(2, 1); }
		template<typename U> T fetch_add(U x, memory_order o = memory_order_seq_cst) { OP(v.fetch_add(x, o)) }
		template<typename U> T fetch_sub(U x, memory_order o = memory_order_seq_cst) { OP(v.fetch_sub(x, o)) }
		T fetch_or(T x, memory_order o = memory_order_seq_cst) { OP(v.fetch_or(x, o)) }
		T fetch_and(T x, memory_order o = memory_order_seq_cst) { OP(v.fetch_and(x, o)) }
		T fetch_xor(T x, memory_order o = memory_order_seq_cst) { OP(v.fetch_xor(x, o)) }
		operator T() const { return load(); }
		T operator=(T x) { store(x); return x; }
		T operator++() { return fetch_add(1) + 1; } T operator++(int) { return fetch_add(1); }
		T operator--() { return fetch_sub(1) - 1; } T operator--(int) { return fetch_sub(1); }
		template<typename U> T operator+=(U x) { return fetch_add(x) + x; } template<typename U> T operator-=(U x) { return fetch_sub(x) - x; }
		T operator|=(T x) { return fetch_or(x) | x; } T operator&=(T x) { return fetch_and(x) & x; }
		bool is_lock_free() const { return true; }
		void wait(T old, memory_order o = memory_order_seq_cst) const { while (load(o) == old) { if (sched::self >= 0) sched::block(this); else std::this_thread::yield(); } }
		void notify_one() { sched::yield(); sched::wake(this, false); } void notify_all() { sched::yield(); sched::wake(this, true); }
#undef OP
	};
	struct vmutex {
		std::mutex m; volatile int owner = -2;      // -2 free, -1 unmanaged thread
		constexpr vmutex() noexcept = default;
		vmutex(const vmutex&) = delete; vmutex& operator=(const vmutex&) = delete;
		~vmutex() { if (held()) sched::die("a mutex was destroyed while it is locked"); }
		NOSAN bool held() { return owner != -2; }
		NOSAN void set(int o) { owner = o; }
		NOSAN bool mine() { return owner == sched::self; }
		void lock() {
			if (sched::self < 0) { if (held()) sched::die("locks a mutex that is already locked (same thread)"); m.lock(); set(-1); return; }
			sched::yield();
			while (held()) { if (mine()) sched::die("locks a mutex it holds already"); sched::block(this); }
			set(sched::self); m.lock();
		}
		bool try_lock() {
			if (sched::self < 0) { if (held()) return false; m.try_lock(); set(-1); return true; }
			sched::yield(); if (held()) return false;
			set(sched::self); m.try_lock(); return true;
		}
		void unlock() {
			if (!mine()) sched::die("unlocks a mutex it does not hold");
			m.unlock(); set(-2); sched::wake(this, true); sched::yield();
		}
	};
	struct vshared_mutex {
		std::shared_mutex m; volatile int owner = -2, readers = 0;
		vshared_mutex() = default; vshared_mutex(const vshared_mutex&) = delete;
		~vshared_mutex() { if (w() || r()) sched::die("a shared mutex was destroyed while it is locked"); }
		NOSAN bool w() { return owner != -2; }
		NOSAN int r() { return readers; }
		NOSAN void set(int o) { owner = o; }
		NOSAN void add(int n) { readers = readers + n; }
		NOSAN bool mine() { return owner == sched::self; }
		void lock() { sched::yield(); while (w() || r()) { if (sched::self < 0 || w() && mine()) sched::die("locks a shared mutex it holds already"); sched::block(this); } set(sched::self); m.lock(); }
		bool try_lock() { sched::yield(); if (w() || r()) return false; set(sched::self); m.try_lock(); return true; }
		void unlock() { if (!mine()) sched::die("unlocks a mutex it does not hold"); m.unlock(); set(-2); sched::wake(this, true); sched::yield(); }
		void lock_shared() { sched::yield(); while (w()) { if (mine()) sched::die("locks a shared mutex it holds already"); sched::block(this); } add(1); m.lock_shared(); }
		bool try_lock_shared() { sched::yield(); if (w()) return false; add(1); m.lock_shared(); return true; }
		void unlock_shared() { if (!r()) sched::die("unlocks a mutex it does not hold"); m.unlock_shared(); add(-1); sched::wake(this, true); sched::yield(); }
	};
	struct vcondition_variable {
		char dummy = 0;
		vcondition_variable() = default; vcondition_variable(const vcondition_variable&) = delete;
		void notify_one() noexcept { sched::yield(); sched::wake(this, false); }
		void notify_all() noexcept { sched::yield(); sched::wake(this, true); }
		template<typename L> bool wait_(L& l, bool timed) {
			if (sched::self < 0) { if (timed) return true; sched::die("waits forever"); }
			sched::yield();                                              // the caller decided to wait, but is not waiting yet
			if (sched::pick_(2, 1)) { l.unlock(); l.lock(); return false; }  // spurious wake-up
			// atomically release and block: no yield in between
			auto* m = l.mutex(); if (!m || !m->mine()) sched::die("waits without the lock");
			m->m.unlock(); m->set(-2); sched::wake(m, true); sched::block(this, timed); bool t = sched::was_timeout();
			l.release(); m->lock(); l = L(*m, std::adopt_lock); return t;
		}
		template<typename L> void wait(L& l) { wait_(l, false); }
		template<typename L, typename P> void wait(L& l, P p) { while (!p()) wait_(l, false); }
		template<typename L, typename C, typename D> cv_status wait_until(L& l, const chrono::time_point<C, D>& t) { if (wait_(l, true)) {
#ifdef VSCHED_CLOCK
			sched::advance(t);
#else
			std::this_thread::sleep_until(t);
#endif
			} return C::now() >= t ? cv_status::timeout : cv_status::no_timeout; }
		template<typename L, typename C, typename D, typename P> bool wait_until(L& l, const chrono::time_point<C, D>& t, P p) { while (!p()) if (wait_until(l, t) == cv_status::timeout) return p(); return true; }
		template<typename L, typename R, typename Q> cv_status wait_for(L& l, const chrono::duration<R, Q>& d) { return wait_until(l, chrono::steady_clock::now() + d); }
		template<typename L, typename R, typename Q, typename P> bool wait_for(L& l, const chrono::duration<R, Q>& d, P p) { return wait_until(l, chrono::steady_clock::now() + d, std::move(p)); }
	};
	struct vthread {
		std::thread t; int i = -1;
		using id = std::thread::id;
		vthread() noexcept = default; vthread(vthread&& o) noexcept : t(std::move(o.t)), i(o.i) { o.i = -1; }
		vthread& operator=(vthread&& o) noexcept { if (t.joinable()) std::terminate(); t = std::move(o.t); i = o.i; o.i = -1; return *this; }
		template<typename F, typename... A> requires(!std::is_same_v<std::remove_cvref_t<F>, vthread>)
		explicit vthread(F&& f, A&&... a) {
			if (sched::self < 0) sched::die("thread started outside of a scenario");
			i = sched::reg(); t = std::thread([i = i, g = std::bind(std::forward<F>(f), std::forward<A>(a)...)]() mutable { sched::enter(i); g(); sched::leave(); }); sched::yield();
		}
		bool joinable() const noexcept { return t.joinable(); }
		id get_id() const noexcept { return t.get_id(); }
		void join() { sched::yield(); while (!sched::done(i)) sched::block(&sched::thr[i]); t.join(); }
		void detach() { t.detach(); }
		void swap(vthread& o) noexcept { std::swap(t, o.t); std::swap(i, o.i); }
		static unsigned hardware_concurrency() noexcept { return 2; }
	};
	template<typename T> struct vfuture {
		std::future<T> f; 
		bool ready() const { return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; }
		void wait() const { if (sched::self >= 0) { sched::yield(); sched::until([&] { return ready(); }); } else if (!ready()) sched::die("waits forever for a future"); }
		T get() { wait(); return f.get(); }
		bool valid() const { return f.valid(); }
		template<typename D> std::future_status wait_for(const D& d) const { sched::yield(); return f.wait_for(d); }
	};
	template<typename T> struct vpromise {
		std::promise<T> p;
		vfuture<T> get_future() { return {p.get_future()}; }
		template<typename... A> void set_value(A&&... a) { sched::yield(); p.set_value(std::forward<A>(a)...); sched::yield(); }
		void set_exception(std::exception_ptr e) { sched::yield(); p.set_exception(std::move(e)); sched::yield(); }
	};
}
#define atomic hooked_atomic
#define mutex vmutex
#define shared_mutex vshared_mutex
#define condition_variable vcondition_variable
#define thread vthread
