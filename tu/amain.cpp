#include "vwrap.h"
#include <functional>
#define main am_main
#include <asyncpp/async_main.h>
#undef main
using namespace asyncpp;
namespace vt {
	// the most general body of a task: runs to its end at once, or is finished by someone else
	struct env_awaiter { long id; bool await_ready(); void await_suspend(coroutine_handle<>); void await_resume(); ~env_awaiter(); };
	env_awaiter env_await();
	bool env_more();
	int env_int();
	void args(int argc, const char** argv);
	struct late { long id; late(); ~late() noexcept(false); };
	struct local { long id; local(); ~local(); };
}
asyncpp::task<int> async_main(int argc, const char** argv) { vt::args(argc, argv); vt::local l; vt::late d; if (vt::env_more()) co_await vt::env_await(); co_return vt::env_int(); }
using Fn = std::function<void()>;
VC int am_call(int argc, const char** argv) { return am_main(argc, argv); }
VC void am_take(void* d, Fn* f) { new (d) Fn(std::move(*f)); }
VC void am_invoke(Fn* f) { (*f)(); }
VC void am_drop(Fn* f) { f->~Fn(); }
VC void am_hres(void* h) { coroutine_handle<>::from_address(h).resume(); }
