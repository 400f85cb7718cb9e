#include "coro.h"
#include <asyncpp/thread_pool.h>
using namespace asyncpp; using P = thread_pool; using A = std::hooked_atomic<int>;
struct ondrop { std::function<void()> f; ondrop(std::function<void()> g) : f(std::move(g)) {} ondrop(const ondrop&) = delete; ~ondrop() { f(); } };
static void run(const char* name, std::function<void()> body, double w = 1) { explore(name, [body] { threads({body}); }, w); }
static void par(std::function<void()> a, std::function<void()> b) { std::thread t(a); b(); t.join(); }
int main() {
	run("push, destroy", [] { A n{0}; { P p(1); p.push([&] { CHECK(dispatcher::current() == &p); n.fetch_add(1); }); p.push({}); p.push([&] { n.fetch_add(1); }); } CHECK(n == 2); });
	run("push from a task, destroy", [] { A n{0}; { P p(1); p.push([&] { n.fetch_add(1); p.push([&] { CHECK(dispatcher::current() == &p); n.fetch_add(1); p.push([&] { n.fetch_add(1); }); }); }); } CHECK(n == 3); });
	run("push | shrink", [] { A n{0}; int k = 0; { P p(2); par([&] { for (int i = 0; i < 2; i++) { p.push([&] { n.fetch_add(1); }); k++; } }, [&] { p.resize(1); CHECK(p.size() == 1); }); } CHECK(n == k); }, 2);
	run("push | shrink to nothing", [] { A n{0}, k{0}; { P p(1); par([&] { try { for (int i = 0; i < 2; i++) { p.push([&] { n.fetch_add(1); }); k.fetch_add(1); } } catch (const std::runtime_error&) {} }, [&] { p.resize(0); CHECK(p.size() == 0); }); CHECK(n == k); } }, 2);
	run("pushing tasks | shrink", [] { A n{0}, k{0}; { P p(2); par([&] { for (int i = 0; i < 2; i++) p.push([&] { n.fetch_add(1); k.fetch_add(1); p.push([&] { n.fetch_add(1); }); }); }, [&] { p.resize(1); }); } CHECK(n == 4); }, 2);
	run("pool to pool", [] { A n{0}; { P b(1); { P a(1); a.push([&] { n.fetch_add(1); b.push([&] { CHECK(dispatcher::current() == &b); n.fetch_add(1); }); }); } } CHECK(n == 2); });
	run("pool to pool and back", [] { A n{0}; { P a(1), b(1); std::mutex m; std::condition_variable cv; bool done = false; a.push([&] { b.push([&] { CHECK(dispatcher::current() == &b); a.push([&] { CHECK(dispatcher::current() == &a); n.fetch_add(1); std::unique_lock l(m); done = true; cv.notify_all(); }); }); }); std::unique_lock l(m); while (!done) cv.wait(l); l.unlock(); } CHECK(n == 1); });
	run("grow", [] { A n{0}; { P p(1); par([&] { for (int i = 0; i < 2; i++) p.push([&] { CHECK(dispatcher::current() == &p); n.fetch_add(1); }); }, [&] { p.resize(2); CHECK(p.size() == 2); }); } CHECK(n == 2); }, 2);
	run("shrink and grow", [] { A n{0}; { P p(2); for (int i = 0; i < 2; i++) p.push([&] { n.fetch_add(1); }); p.resize(1); p.push([&] { n.fetch_add(1); }); p.resize(2); for (int i = 0; i < 2; i++) p.push([&] { n.fetch_add(1); }); } CHECK(n == 5); }, 2);
	run("steal", [] { A n{0}; A run{0}; { P p(2); for (int i = 0; i < 3; i++) p.push([&, i] { CHECK(n.fetch_add(1) < 3); if (i == 0) p.push([&] { run.fetch_add(1); }); }); } CHECK(n == 3); CHECK(run == 1); }, 2);
	run("steal from a busy one", [] { std::array<A, 4> c{}; A stop{0}; { P p(2); p.push([&] { for (int i = 0; i < 3; i++) p.push([&c, i] { c[i].fetch_add(1); }); c[3].fetch_add(1); }); } for (auto& x : c) CHECK(x == 1); }, 3);
	run("push when a task is destroyed", [] { A n{0}; { P p(1); p.push([&, d = std::make_shared<ondrop>([&] { p.push([&] { n.fetch_add(1); }); })] { n.fetch_add(1); }); } CHECK(n == 2); });
	run("sizes", [] { for (int i = 0; i < 4; i++) { P p(i); CHECK(p.size() == size_t(i)); } { P p(0); bool t = false; try { p.push([] {}); } catch (const std::runtime_error&) { t = true; } CHECK(t); p.push({}); p.resize(1); A n{0}; p.push([&] { n = 1; }); p.resize(0); CHECK(n == 1); } });
}
