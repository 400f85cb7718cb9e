#include <atomic>
#include <array>
#include <coroutine>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <stdexcept>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include <vector>
static int maps = 0, mapcalls = 0; static bool failmap = false; static std::vector<std::pair<void*, size_t>> mapped; static std::mutex mapm;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "C28.cpp:%d: CHECK(%s) failed in %s\n", __LINE__, #c, cur); fflush(stderr); _exit(1); } } while (0)
static const char* cur = "start";
inline void* rec_mmap(void* a, size_t n, int p, int f, int d, off_t o) { mapcalls++; if (failmap) return MAP_FAILED; void* r = mmap(a, n, p, f, d, o); if (r != MAP_FAILED) { std::lock_guard l(mapm); mapped.emplace_back(r, n); maps++; } return r; }
inline int rec_munmap(void* a, size_t n) { { std::lock_guard l(mapm); bool ok = false; for (size_t i = 0; i < mapped.size(); i++) if (mapped[i].first == a) { CHECK(mapped[i].second == n); mapped.erase(mapped.begin() + i); ok = true; break; } CHECK(ok); maps--; } return munmap(a, n); }
#define mmap rec_mmap
#define munmap rec_munmap
#include <asyncpp/fiber.h>
#undef mmap
#undef munmap
using namespace asyncpp;
struct E1 { int v; };
struct L { static inline std::atomic<int> live{0}; L() { live++; } L(const L&) { live++; } L(L&&) noexcept { live++; } ~L() { live--; } L& operator=(const L&) = default; };
struct val { static inline int copies = 0; int v; L l; bool moved = false; val(int x) : v(x) {} val(const val& o) : v(o.v), l(o.l) { CHECK(!o.moved); copies++; } val(val&& o) noexcept : v(o.v) { o.moved = true; } };
struct co { struct promise_type { co get_return_object() { return co{std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { CHECK(!"exception"); } };
	std::coroutine_handle<promise_type> h; explicit co(std::coroutine_handle<promise_type> x) : h(x) {} co(co&& o) noexcept : h(std::exchange(o.h, nullptr)) {} ~co() { if (h) h.destroy(); } };
struct gate { coroutine_handle<> h{}; int n = 0; bool await_ready() { return false; } void await_suspend(coroutine_handle<> c) { CHECK(!h); h = c; } int await_resume() { return n++; } void fire() { CHECK(h); auto c = std::exchange(h, nullptr); c.resume(); } };
template<class F, class T> co into(F& f, T& out, int& done) { out = co_await f; done++; }
co tovoid(fiber<void>& f, int& done) { co_await f; done++; }
template<class F> int value(F& f) { int r = -1, d = 0; auto c = into(f, r, d); CHECK(d == 1); return r; }
extern "C" uint64_t regcheck(void (*fn)(void*), void* arg, uint64_t seed);
asm(R"(.text
.globl regcheck
regcheck:
 pushq %rbp
 pushq %rbx
 pushq %r12
 pushq %r13
 pushq %r14
 pushq %r15
 pushq %rdx
 movq %rdi, %rax
 movq %rsi, %rdi
 leaq 1(%rdx), %rbp
 leaq 2(%rdx), %rbx
 leaq 3(%rdx), %r12
 leaq 4(%rdx), %r13
 leaq 5(%rdx), %r14
 leaq 6(%rdx), %r15
 call *%rax
 popq %rdx
 xorl %eax, %eax
 leaq 1(%rdx), %rcx
 xorq %rbp, %rcx
 orq %rcx, %rax
 leaq 2(%rdx), %rcx
 xorq %rbx, %rcx
 orq %rcx, %rax
 leaq 3(%rdx), %rcx
 xorq %r12, %rcx
 orq %rcx, %rax
 leaq 4(%rdx), %rcx
 xorq %r13, %rcx
 orq %rcx, %rax
 leaq 5(%rdx), %rcx
 xorq %r14, %rcx
 orq %rcx, %rax
 leaq 6(%rdx), %rcx
 xorq %r15, %rcx
 orq %rcx, %rax
 popq %r15
 popq %r14
 popq %r13
 popq %r12
 popq %rbx
 popq %rbp
 ret
)");
static void call(void* p) { (*static_cast<std::function<void()>*>(p))(); }
static uint64_t regs(std::function<void()> f, uint64_t seed) { return regcheck(&call, &f, seed); }
static uint32_t getmx() { uint32_t r; asm volatile("stmxcsr %0" : "=m"(r)); return r & 0xffc0; }
static void setmx(uint32_t v) { asm volatile("ldmxcsr %0" ::"m"(v)); }
static uint16_t getcw() { uint16_t r; asm volatile("fnstcw %0" : "=m"(r)); return r & 0xf3f; }
static void setcw(uint16_t v) { asm volatile("fldcw %0" ::"m"(v)); }
static uint64_t guard() { uint64_t r; asm volatile("movq %%fs:0x28, %0" : "=r"(r)); return r; }
static volatile double d1 = 1, d3 = 3, d0 = 0; static volatile long double l1 = 1, l3 = 3;
__attribute__((noinline)) static size_t depth(size_t n) { volatile char buf[1024]; for (size_t i = 0; i < sizeof buf; i += 64) buf[i] = (char)i; if (n <= sizeof buf) return buf[64]; return depth(n - sizeof buf) + buf[0]; }
static char mbuf[1 << 20];
// the mapping containing p must be enclosed by inaccessible pages; returns its size
static size_t guarded(void* p) {
	int fd = open("/proc/self/maps", O_RDONLY); if (fd < 0) return SIZE_MAX; size_t n = 0; ssize_t r; while ((r = read(fd, mbuf + n, sizeof mbuf - 1 - n)) > 0) n += r; close(fd); mbuf[n] = 0;
	uintptr_t a = (uintptr_t)p, pe = 0; bool pnone = false; char* s = mbuf; uintptr_t b = 0, e = 0; bool found = false, below = false, above = false;
	while (*s) { uintptr_t x, y; char perm[8]; if (sscanf(s, "%lx-%lx %4s", &x, &y, perm) != 3) break; bool none = !strncmp(perm, "---", 3);
		if (found) { above = none && x == e; break; }
		if (x <= a && a < y) { b = x; e = y; found = true; below = pnone && pe == x; }
		pe = y; pnone = none; s = strchr(s, '\n'); if (!s) break; s++; }
	CHECK(found); CHECK(below); CHECK(above); return e - b; }
struct fn { L l; std::function<int()> f; int operator()() const { return f(); } };
struct fv { L l; std::function<void()> f; void operator()() const { f(); } };
struct gw { gate* g; bool await_ready() { return g->await_ready(); } void await_suspend(coroutine_handle<> c) { g->await_suspend(c); } int await_resume() { return g->await_resume(); } };
static auto aw(gate& g) { return gw{&g}; }
template<class T> static auto aw(fiber<T>& f) { return f.await(); }
// all kinds of await_suspend
template<class R> struct sus { std::function<R(coroutine_handle<>)>* f; int v = 7; bool await_ready() { return false; } R await_suspend(coroutine_handle<> h) { auto g = f; return (*g)(h); } int await_resume() { return v; } };
template<class R> static int wait(std::function<R(coroutine_handle<>)>& f) { return fib_await sus<R>{&f}; }
struct rdy { bool await_ready() { return true; } void await_suspend(coroutine_handle<>) { CHECK(!"suspended"); } int await_resume() { return 11; } };
struct thr { bool await_ready() { return true; } void await_suspend(coroutine_handle<>) {} int await_resume() { throw E1{13}; } };

static void values() {
	cur = "values"; { fiber f([] { return 42; }); CHECK(value(f) == 42); CHECK(value(f) == 42); }
	{ int n = 0; fiber<void> f([&] { n++; }); int d = 0; auto c = tovoid(f, d); CHECK(n == 1 && d == 1); auto c2 = tovoid(f, d); CHECK(n == 1 && d == 2); }
	{ fiber<val> f([] { return val(3); }); val::copies = 0; std::optional<val> r; auto c = [](fiber<val>& f, std::optional<val>& r) -> co { r.emplace(co_await f); }(f, r); CHECK(r && r->v == 3); CHECK(val::copies == 1); r.reset(); auto c2 = [](fiber<val>& f, std::optional<val>& r) -> co { r.emplace(co_await f); }(f, r); CHECK(r && r->v == 3); }
	{ fiber<val> f([] { return val(4); }); val::copies = 0; std::optional<val> r; auto c = [](fiber<val>& f, std::optional<val>& r) -> co { r.emplace(co_await std::move(f)); }(f, r); CHECK(r && r->v == 4); CHECK(val::copies == 0); }
#ifdef MOVEONLY
	{ fiber f([] { return std::make_unique<int>(9); }); int r = 0; auto c = [](decltype(f)& f, int& r) -> co { auto p = co_await std::move(f); r = *p; }(f, r); CHECK(r == 9); }
	{ gate g; fiber f([&] { (fib_await aw(g)); return std::make_unique<int>(9); }); int r = 0; auto c = [](decltype(f)& f, int& r) -> co { auto p = co_await std::move(f).await(); r = *p; }(f, r); CHECK(r == 0); g.fire(); CHECK(r == 9); }
#endif
	{ fiber f([] { return (fib_await rdy{}); }); CHECK(value(f) == 11); }
	{ fiber f([] { int r = 0; try { r = fib_await thr{}; } catch (const E1& e) { r = e.v; } r += (fib_await rdy{}); return r; }); CHECK(value(f) == 24); }
	CHECK(L::live == 0 && maps == 0);
}
static void state() {
	cur = "state across suspensions"; gate g; long sum = 0; int r = 0, d = 0;
	fiber f([&] { int loc[32]; for (int i = 0; i < 32; i++) loc[i] = i; long s = 0; double x = 0.5; for (int i = 0; i < 200; i++) { int k = (fib_await aw(g)); CHECK(k == i); s += loc[i % 32] * (long)k; x += 0.25; } CHECK(x == 50.5); sum = s; return 5; });
	auto c = into(f, r, d); long want = 0; for (int i = 0; i < 200; i++) { CHECK(d == 0); want += (i % 32) * (long)i; g.fire(); } CHECK(d == 1 && r == 5 && sum == want);
}
static void registers() {
	cur = "registers"; gate g; int r = 0, d = 0; uint64_t bad = 0; fiber f([&] { for (int i = 0; i < 20; i++) bad |= regs([&] { (fib_await aw(g)); }, 0x1000 * (i + 1)); return 1; });
	std::optional<co> c; CHECK(regs([&] { c.emplace(into(f, r, d)); }, 0x77000000) == 0); for (int i = 0; i < 20; i++) CHECK(regs([&] { g.fire(); }, 0x5500000000 + i * 0x100) == 0); CHECK(d == 1 && bad == 0);
#ifdef SAVE_TLS_STACK_PROTECTOR
	{ cur = "stack guard"; gate q; int d3 = 0, r3 = 0; uint64_t was = guard(); fiber in([&] { (fib_await aw(q)); (fib_await aw(q)); return 3; }); auto c3 = into(in, r3, d3); CHECK(guard() == was); q.fire(); CHECK(guard() == was); q.fire(); CHECK(guard() == was && d3 == 1); }
#endif
	{ gate q; cur = "registers, destroyed"; auto p = std::make_unique<fiber<int>>([&] { (fib_await aw(q)); return 1; }); int r2 = 0, d2 = 0; auto c2 = into(*p, r2, d2); CHECK(regs([&] { p.reset(); }, 0x99000000) == 0); CHECK(d2 == 0); }
	{ cur = "registers, nested"; gate q; int d3 = 0, r3 = 0; uint64_t b = 0; fiber in([&] { b |= regs([&] { (fib_await aw(q)); }, 0x11110000); return 3; }); fiber out([&] { int v = 0; b |= regs([&] { v = (fib_await aw(in)); }, 0x22220000); b |= regs([&] { v += (fib_await aw(q)); }, 0x33330000); return v; }); std::optional<co> c3; CHECK(regs([&] { c3.emplace(into(out, r3, d3)); }, 0x44440000) == 0); CHECK(regs([&] { q.fire(); }, 0x55550000) == 0); CHECK(d3 == 0); CHECK(regs([&] { q.fire(); }, 0x66660000) == 0); CHECK(d3 == 1 && r3 == 4 && b == 0); }
}
static void floating() {
	cur = "floating point"; { fiber f([] { volatile double q = d1 / d3; volatile long double lq = l1 / l3; volatile double z = d1 / d0; return q > 0.33 && q < 0.34 && lq > 0.33L && lq < 0.34L && z > 1e300 ? 1 : 0; }); CHECK(value(f) == 1); }
	uint32_t mx = getmx(); uint16_t cw = getcw(); gate g; int d = 0, r = 0;
	fiber f([&] { bool ok = getmx() == mx && getcw() == cw; setmx(mx | 0x6000); setcw(cw | 0xc00); (fib_await aw(g)); ok = ok && getmx() == (mx | 0x6000) && getcw() == (cw | 0xc00); setmx(mx | 0x2000); setcw((cw & ~0xc00) | 0x400); (fib_await aw(g)); ok = ok && getmx() == (mx | 0x2000) && getcw() == ((cw & ~0xc00) | 0x400); setmx(mx); setcw(cw); return ok ? 1 : 0; });
	auto c = into(f, r, d); CHECK(getmx() == mx); CHECK(getcw() == cw); setmx(mx | 0x4000); setcw(cw | 0x800); g.fire(); CHECK(getmx() == (mx | 0x4000)); CHECK(getcw() == (cw | 0x800)); setmx(mx); setcw(cw); g.fire(); CHECK(getmx() == mx && getcw() == cw); CHECK(d == 1 && r == 1);
}
static void suspending() {
	using H = coroutine_handle<>; using V = std::function<void(H)>; using B = std::function<bool(H)>; using C = std::function<H(H)>;
	cur = "await_suspend void"; { V s; H k; s = [&](H h) { k = h; }; fiber f([&] { return wait(s) + wait(s); }); int r = 0, d = 0; auto c = into(f, r, d); for (int i = 0; i < 2; i++) { CHECK(d == 0 && k); std::exchange(k, nullptr).resume(); } CHECK(d == 1 && r == 14); }
	cur = "await_suspend bool"; { B s; H k; int n = 0; s = [&](H h) { n++; if (n % 2) return false; k = h; return true; }; fiber f([&] { return wait(s) + wait(s) + wait(s) + wait(s); }); int r = 0, d = 0; auto c = into(f, r, d); for (int i = 0; i < 2; i++) { CHECK(n == 2 * i + 2); CHECK(d == 0 && k); std::exchange(k, nullptr).resume(); } CHECK(d == 1 && r == 28 && n == 4); }
	cur = "await_suspend handle"; { C s; H k; int runs = 0; struct lazy { struct promise_type { lazy get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() {} }; std::coroutine_handle<promise_type> h; };
		auto l = [](int& n) -> lazy { n++; co_return; }(runs); int n = 0; s = [&](H h) -> H { n++; if (n == 3) return h; k = h; if (n == 1) return l.h; return std::noop_coroutine(); };
		fiber f([&] { return wait(s) + wait(s) + wait(s); }); int r = 0, d = 0; auto c = into(f, r, d); CHECK(runs == 1 && n == 1 && d == 0); std::exchange(k, nullptr).resume(); CHECK(n == 2 && d == 0); std::exchange(k, nullptr).resume(); CHECK(n == 3 && d == 1 && r == 21); l.h.destroy(); }
	cur = "await_suspend throws"; { V s; H k; int n = 0; s = [&](H h) { n++; if (n != 3) throw E1{n}; k = h; }; fiber f([&] { int got = 0; for (int i = 0; i < 2; i++) { bool t = false; try { wait(s); } catch (const E1& e) { got += e.v; t = true; } CHECK(t); } got += 10 * wait(s); bool t = false; try { wait(s); } catch (const E1& e) { got += 100 * e.v; t = true; } CHECK(t); return got; }); int r = 0, d = 0; auto c = into(f, r, d); CHECK(d == 0 && n == 3); k.resume(); CHECK(d == 1 && r == 3 + 70 + 400); }
	cur = "bool await_suspend throws"; { B s; int n = 0; s = [&](H) -> bool { n++; if (n == 1) throw E1{5}; return false; }; fiber f([&] { int got = 0; try { wait(s); } catch (const E1& e) { got += e.v; } return got + wait(s); }); CHECK(value(f) == 12); }
	cur = "resumed within await_suspend"; { V s; int n = 0; s = [&](H h) { n++; h.resume(); }; fiber f([&] { int k = 0; for (int i = 0; i < 5; i++) k += wait(s); return k; }); CHECK(value(f) == 35); CHECK(n == 5); }
	cur = "finished and destroyed within await_suspend"; { V s; int dn = 0, rv = 0; std::unique_ptr<fiber<int>> p; s = [&](H h) { h.resume(); CHECK(!p); CHECK(dn == 1 && rv == 7); }; p = std::make_unique<fiber<int>>(fn{{}, [&] { return wait(s); }}); auto c = [](std::unique_ptr<fiber<int>>& p, int& dn, int& rv) -> co { rv = co_await *p; dn++; p.reset(); }(p, dn, rv); CHECK(dn == 1); CHECK(L::live == 0 && maps == 0); }
	cur = "suspended again within await_suspend"; { V s; H k; int n = 0; s = [&](H h) { if (++n == 1) h.resume(); else k = h; }; fiber f([&] { int a = wait(s); a += wait(s); return a; }); int r = 0, d = 0; auto c = into(f, r, d); CHECK(d == 0 && n == 2); k.resume(); CHECK(d == 1 && r == 14); }
	cur = "suspended again and destroyed within await_suspend"; { V s; int n = 0; std::unique_ptr<fiber<int>> p; s = [&](H h) { if (++n == 1) { h.resume(); p.reset(); } }; p = std::make_unique<fiber<int>>(fn{{}, [&] { L l; int a = wait(s); a += wait(s); return a; }}); int r = 0, d = 0; auto c = into(*p, r, d); CHECK(d == 0 && n == 2 && !p); CHECK(L::live == 0 && maps == 0); }
	cur = "destroyed within await_suspend"; { V s; std::unique_ptr<fiber<int>> p; s = [&](H) { p.reset(); }; p = std::make_unique<fiber<int>>(fn{{}, [&] { L l; return wait(s); }}); int r = 0, d = 0; auto c = into(*p, r, d); CHECK(d == 0 && !p); CHECK(L::live == 0 && maps == 0); }
	cur = "resumed by another thread within await_suspend"; { V s; s = [&](H h) { std::thread([h] { h.resume(); }).join(); }; fiber f([&] { int k = 0; for (int i = 0; i < 3; i++) k += wait(s); return k; }); CHECK(value(f) == 21); }
	cur = "other thread finishes and destroys within await_suspend"; { V s; std::unique_ptr<fiber<int>> p; s = [&](H h) { std::thread([&, h] { h.resume(); p.reset(); }).join(); }; p = std::make_unique<fiber<int>>(fn{{}, [&] { return wait(s); }}); int r = 0, d = 0; auto c = into(*p, r, d); CHECK(d == 1 && r == 7); CHECK(L::live == 0 && maps == 0); }
	cur = "other thread while await_suspend returns"; for (int i = 0; i < 200; i++) { B s; std::unique_ptr<fiber<int>> p; std::thread t; std::atomic<int> fin{0}; s = [&](H h) { t = std::thread([&, h] { h.resume(); p.reset(); fin = 1; }); if (i & 1) while (!fin) std::this_thread::yield(); return true; }; p = std::make_unique<fiber<int>>(fn{{}, [&] { return wait(s); }}); int r = 0, d = 0; std::optional<co> c; c.emplace(into(*p, r, d)); t.join(); CHECK(d == 1 && r == 7); CHECK(L::live == 0 && maps == 0); }
}
static void destroying() {
	cur = "never started"; { int n = 0; { fiber<int> f(fn{{}, [&] { n++; return 1; }}); } { fiber<void> f(fv{{}, [&] { n++; }}); } CHECK(n == 0); CHECK(L::live == 0 && maps == 0); }
	cur = "destroyed suspended"; { gate g; int d = 0, r = 0, past = 0; { fiber<int> f(fn{{}, [&] { L a; { L b; (fib_await aw(g)); past++; } past++; return 1; }}); auto c = into(f, r, d); CHECK(L::live > 0); { fiber<int> x = std::move(f); } CHECK(d == 0 && past == 0); CHECK(L::live == 0 && maps == 0); } }
	cur = "destroyed suspended, void"; { gate g; int d = 0, past = 0; auto f = std::make_unique<fiber<void>>(fv{{}, [&] { L a; (fib_await aw(g)); past++; }}); auto c = tovoid(*f, d); f.reset(); CHECK(d == 0 && past == 0); CHECK(L::live == 0 && maps == 0); }
	cur = "destroyed suspended, caught"; { gate g; int d = 0, r = 0, n = 0; auto f = std::make_unique<fiber<int>>(fn{{}, [&] { L a; try { (fib_await aw(g)); } catch (const std::exception&) { n++; } catch (...) { throw; } n++; return 1; }}); auto c = into(*f, r, d); f.reset(); CHECK(d == 0 && n == 0); CHECK(L::live == 0 && maps == 0); }
	cur = "destroyed after finish"; { int d = 0, r = 0; { fiber<int> f(fn{{}, [] { return 4; }}); auto c = into(f, r, d); CHECK(d == 1 && r == 4); } CHECK(L::live == 0 && maps == 0); }
	cur = "destroyed with many locals alive at depth"; { gate g; int d = 0, r = 0; std::function<int(int)> rec = [&](int n) -> int { L l; if (n == 0) { (fib_await aw(g)); return 0; } return rec(n - 1) + 1; }; auto f = std::make_unique<fiber<int>>(fn{{}, [&] { return rec(20); }}); auto c = into(*f, r, d); CHECK(L::live == 22); f.reset(); CHECK(L::live == 0 && maps == 0 && d == 0); }
	cur = "unwinding uses the result"; { gate g; int d = 0; struct tail { std::optional<int>** p; ~tail() { } }; auto f = std::make_unique<fiber<std::vector<int>>>([&] { std::vector<int> v(100, 1); (fib_await aw(g)); return v; }); std::vector<int> r; auto c = into(*f, r, d); f.reset(); CHECK(d == 0 && maps == 0); }
	cur = "destroyed from another fiber"; { gate g, q; int d = 0, r = 0, d2 = 0, r2 = 0; auto f = std::make_unique<fiber<int>>(fn{{}, [&] { L l; (fib_await aw(g)); return 1; }}); auto c = into(*f, r, d); fiber h([&] { (fib_await aw(q)); f.reset(); (fib_await aw(q)); return 2; }); auto c2 = into(h, r2, d2); q.fire(); CHECK(!f && d == 0 && L::live == 0); q.fire(); CHECK(d2 == 1 && r2 == 2); }
	CHECK(maps == 0);
}
static void moving() {
	cur = "move"; { fiber<int> e; bool t = false; try { (void)e.await(); } catch (const std::logic_error&) { t = true; } CHECK(t); t = false; try { (void)std::move(e).await(); } catch (const std::logic_error&) { t = true; } CHECK(t); t = false; try { (void)(e.operator co_await()); } catch (const std::logic_error&) { t = true; } CHECK(t); }
	{ fiber<void> e; bool t = false; try { (void)e.await(); } catch (const std::logic_error&) { t = true; } CHECK(t); fiber<void> f([] {}); fiber<void> g(std::move(f)); t = false; try { (void)f.await(); } catch (const std::logic_error&) { t = true; } CHECK(t); int d = 0; auto c = tovoid(g, d); CHECK(d == 1); }
	cur = "move assignment"; { gate g, q; int r1 = 0, r2 = 0, a = 0, b = 0; fiber<int> x(fn{{}, [&] { L l; return (fib_await aw(g)) + 100; }}), y(fn{{}, [&] { L l; return (fib_await aw(q)) + 200; }}); auto c = into(x, r1, a); auto c2 = into(y, r2, b); x = std::move(y); CHECK(a == 0 && b == 0); CHECK(maps == 1); CHECK(L::live == 2); q.fire(); CHECK(b == 1 && r2 == 200); CHECK(value(x) == 200); bool t = false; try { (void)y.await(); } catch (const std::logic_error&) { t = true; } CHECK(t); auto& z = x; x = std::move(z); CHECK(value(x) == 200); x = fiber<int>(); t = false; try { (void)x.await(); } catch (const std::logic_error&) { t = true; } CHECK(t); CHECK(maps == 0 && L::live == 0); }
	cur = "move assignment void"; { gate g, q; int a = 0, b = 0; fiber<void> x(fv{{}, [&] { L l; (fib_await aw(g)); }}), y(fv{{}, [&] { L l; (fib_await aw(q)); }}); auto c = tovoid(x, a); auto c2 = tovoid(y, b); x = std::move(y); CHECK(a == 0 && b == 0); CHECK(maps == 1 && L::live == 2); auto& z = x; x = std::move(z); CHECK(maps == 1 && L::live == 2); q.fire(); CHECK(b == 1); }
	cur = "moved while suspended"; { gate g; int r = 0, d = 0; fiber<int> x(fn{{}, [&] { return (fib_await aw(g)) + 5; }}); auto c = into(x, r, d); fiber<int> y(std::move(x)); fiber<int> z; z = std::move(y); g.fire(); CHECK(d == 1 && r == 5); }
	cur = "writes its result while replaced"; { gate g; int d = 0, past = 0; std::vector<int> r; struct on { std::function<void()> f; ~on() { f(); } }; fiber<std::vector<int>> x([&] { on o{[&] { past++; }}; (fib_await aw(g)); return std::vector<int>(10, 1); }); auto c = into(x, r, d); x = fiber<std::vector<int>>([] { return std::vector<int>(3, 2); }); CHECK(past == 1 && d == 0); std::vector<int> r2; int d2 = 0; auto c2 = into(x, r2, d2); CHECK(d2 == 1 && r2.size() == 3); }
	cur = "second waiter"; { gate g; int r = 0, d = 0, t = 0; fiber f([&] { (fib_await aw(g)); return 1; }); auto c = into(f, r, d); auto c2 = [](decltype(f)& f, int& t) -> co { try { co_await f; } catch (const std::logic_error&) { t = 1; } }(f, t); CHECK(t == 1 && d == 0); g.fire(); CHECK(d == 1 && r == 1); CHECK(value(f) == 1); }
	cur = "second waiter void"; { gate g; int d = 0, t = 0; fiber<void> f([&] { (fib_await aw(g)); }); auto c = tovoid(f, d); auto c2 = [](decltype(f)& f, int& t) -> co { try { co_await f; } catch (const std::logic_error&) { t = 1; } }(f, t); CHECK(t == 1 && d == 0); g.fire(); CHECK(d == 1); }
	CHECK(maps == 0 && L::live == 0);
}
static void stacks() {
	cur = "stack"; for (size_t sz : {(size_t)0, (size_t)1, (size_t)4095, (size_t)4096, (size_t)4097, (size_t)8192, (size_t)32768, (size_t)65536, (size_t)65537, (size_t)262144, (size_t)1000001}) {
		size_t got = 0; bool al = false; bool small = sz < 32768; auto probe = [&] { char c; if (!small) { got = guarded(&c); } al = (uintptr_t)__builtin_frame_address(0) % 16 == 0; if (sz >= 32768) depth(sz / 2); };
		if (small) { fiber<void> f([] {}, sz); CHECK(maps == 1); continue; } fiber<void> f(probe, sz); int d = 0; auto c = tovoid(f, d); CHECK(d == 1 && al); CHECK(got >= sz); }
	CHECK(maps == 0);
	for (size_t sz : {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 4094, SIZE_MAX - 4095, SIZE_MAX - 4096, SIZE_MAX - 8191, SIZE_MAX - 8192, SIZE_MAX - 12287, SIZE_MAX - 12288, SIZE_MAX - 20000}) { bool t = false; try { fiber<int> f(fn{{}, [] { return 1; }}, sz); } catch (const std::bad_alloc&) { t = true; } CHECK(t); CHECK(L::live == 0 && maps == 0); }
	{ int before = mapcalls; failmap = true; bool t = false; try { fiber<int> f(fn{{}, [] { return 1; }}); } catch (const std::bad_alloc&) { t = true; } failmap = false; CHECK(t || mapcalls == before); CHECK(L::live == 0 && maps == 0); }
}
static void nested() {
	cur = "nested"; { gate g, q; int r = 0, d = 0, r2 = 0, d2 = 0; fiber in([&] { (fib_await aw(q)); return 8; }); fiber out([&] { auto c = into(in, r2, d2); CHECK(d2 == 0 && q.h); int k = (fib_await aw(g)); CHECK(d2 == 1); return k + 1; }); auto c = into(out, r, d); CHECK(q.h && g.h); CHECK(q.h != g.h); q.fire(); CHECK(d2 == 1 && r2 == 8 && d == 0); g.fire(); CHECK(d == 1 && r == 1); }
	{ gate g; int r = 0, d = 0; fiber in([&] { return (fib_await aw(g)) + 10; }); fiber out([&] { int a = (fib_await aw(in)); int b = (fib_await aw(g)); return a * 100 + b; }); auto c = into(out, r, d); g.fire(); CHECK(d == 0); g.fire(); CHECK(d == 1 && r == 1001); }
	{ gate g; int r = 0, d = 0; fiber out([&] { int s = 0; for (int i = 0; i < 3; i++) { fiber in([&] { return (fib_await aw(g)) + 1; }); s = s * 10 + (fib_await aw(in)); } return s; }); auto c = into(out, r, d); for (int i = 0; i < 3; i++) { CHECK(d == 0); g.fire(); } CHECK(d == 1 && r == 123); }
	{ cur = "outside after a throwing await_suspend"; gate g, q; int r = 0, d = 0; std::function<void(coroutine_handle<>)> s = [](coroutine_handle<>) { throw E1{1}; }; fiber out([&] { fiber in([&] { try { wait(s); } catch (const E1&) {} (fib_await aw(q)); return 1; }); int r2 = 0, d2 = 0; auto c2 = into(in, r2, d2); int k = (fib_await aw(g)); q.fire(); CHECK(d2 == 1); k += (fib_await aw(g)); return k; }); auto c = into(out, r, d); g.fire(); g.fire(); CHECK(d == 1 && r == 1); }
	cur = "many"; for (unsigned seed = 1; seed < 20; seed++) { unsigned rng = seed * 2654435761u; auto rnd = [&](int n) { rng ^= rng << 13; rng ^= rng >> 17; rng ^= rng << 5; return (int)(rng % n); };
		struct one { gate g; std::unique_ptr<fiber<int>> f; int r = 0, d = 0, steps = 0, want = 0; std::optional<co> c; }; std::vector<std::unique_ptr<one>> v;
		for (int i = 0; i < 200; i++) { if (v.size() < 20 && rnd(3) == 0) { auto o = std::make_unique<one>(); auto p = o.get(); p->want = rnd(5); p->f = std::make_unique<fiber<int>>(fn{{}, [p] { L l; int s = 0; for (int k = 0; k < p->want; k++) { int x = (fib_await aw(p->g)); CHECK(x == k); s += x; } return s; }}, 16384 + rnd(60000)); if (rnd(8)) { p->c.emplace(into(*p->f, p->r, p->d)); } v.push_back(std::move(o)); }
			else if (v.size()) { int k = rnd(v.size()); auto p = v[k].get(); if (rnd(10) == 0) { p->f.reset(); CHECK(p->d == (p->c && p->steps == p->want)); v.erase(v.begin() + k); } else if (p->c && p->steps < p->want) { p->steps++; p->g.fire(); CHECK(p->d == (p->steps == p->want)); if (p->d) CHECK(p->r == p->want * (p->want - 1) / 2); } } }
		v.clear(); CHECK(maps == 0 && L::live == 0); }
}
int main() {
	alarm(60); values(); state(); floating(); registers(); destroying(); moving(); stacks(); nested(); suspending(); cur = "end"; CHECK(maps == 0); CHECK(L::live == 0); return 0;
}
