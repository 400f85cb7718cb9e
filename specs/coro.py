"""coroutines: the frame is executed as lowered by the compiler (resume / destroy functions), handles of other coroutines are opaque"""
from .lib import *
FRAME = ('frame',)
class HFn:
    """resume / destroy function loaded from the handle of some other coroutine"""
    def __init__(self, h, which): self.h = h; self.which = which
    def vc_call(self, ex, st, args, loc):
        ex.prove(st, ex.eq(args[0], self.h), 'a coroutine function is called with its own handle', loc)
        return ex.hook(st, 'hresume' if self.which == 0 else 'hdestroy', self.h, loc)
    def __eq__(self, o): return isinstance(o, HFn) and o.which == self.which and same(o.h.t, self.h.t)
    __hash__ = None
class Handles:
    """opaque handles: owned by the rest of the program, only resume/destroy are possible"""
    def __init__(self, C): self.C = C
    def owns(self, ex, st, t): return Or(*[t == h for h in self.C.handles], t == z3.Int('NOOP_HANDLE'))
    def load(self, ex, st, t, off, ty, loc):
        if off in (0, 8): return HFn(SPtr(t), off)
        ex.fail(st, 'memory safety: a foreign coroutine is only resumed or destroyed', loc)
    def store(self, ex, st, t, off, v, ty, loc): ex.fail(st, 'memory safety: a foreign coroutine frame is not written', loc)
class Coro:
    def __init__(self, ex, mod, prefix='vt::'):
        self.ex = ex; self.mod = mod; self.handles = []
        ex.hooks.update(resume=self.resume, destroy=self.destroy, done=self.done, hresume=self.hresume, hdestroy=self.hdestroy)
        self.fam = Handles(self)
        ex.contracts = ex.contracts + [(re.compile(r'^%senv_awaiter::await_ready\(' % prefix), self.env_ready), (re.compile(r'^%senv_awaiter::await_suspend\(' % prefix), self.env_suspend),
          (re.compile(r'^%senv_awaiter::await_resume\(' % prefix), self.env_resume), (re.compile(r'^%senv_awaiter::~env_awaiter' % prefix), self.env_dtor),
          (re.compile(r'^%senv_await\(' % prefix), self.env_await), (re.compile(r'^%senv_more\(' % prefix), self.env_more), (re.compile(r'^%senv_value\(' % prefix), self.env_value),
          (re.compile(r'^%slocal::local\(' % prefix), self.local_ctor), (re.compile(r'^%slocal::~local\(' % prefix), self.local_dtor),
          (re.compile(r'^%slate::late\(' % prefix), self.late_ctor), (re.compile(r'^%slate::~late\(' % prefix), self.late_dtor)]
        ex.new_hook = self.alloc; ex.unroll = 8
    def start(self, st):
        st.fams = list(st.fams) + [self.fam]
        st.ghost.update(frames=(), locals=0, awaiters=0, started=False, hresumed=(), running=False, exc=None)
    def handle(self, st, name):
        p = addr_sym(self.ex, st, name); st.assume(p.t != z3.Int('NOOP_HANDLE')); self.handles.append(p.t); return p
    def alloc(self, ex, st, r, n, loc): ex.addr(r)
    def isframe(self, st, h):
        return isinstance(h, Ptr) and same(h.off, 0) and 0 in ex_cells(self.ex, st, h) 
    # ---- operations on handles
    def norm(self, st, h, loc):
        if isinstance(h, SPtr):
            k, x = self.ex.resolve(st, h, loc)
            if k == 'reg': return x
        return h
    def resume(self, ex, st, h, loc):
        h = self.norm(st, h, loc)
        if isinstance(h, Ptr):
            f = ex.load(st, h, ex.mk_ptr(), loc)
            ex.prove(st, isinstance(f, FnPtr), 'a coroutine that is done is not resumed', loc)
            if hasattr(self, 'on_resume_frame'): self.on_resume_frame(ex, st, h, loc)
            return ex.call_ptr(st, f, [h], loc)
        return ex.hook(st, 'hresume', h, loc)
    def destroy(self, ex, st, h, loc):
        h = self.norm(st, h, loc)
        if isinstance(h, Ptr):
            f = ex.load(st, Ptr(h.r, 8), ex.mk_ptr(), loc)
            if hasattr(self, 'on_destroy_frame'): self.on_destroy_frame(ex, st, h, loc)
            st.ghost['destroying'] = True
            return ex.call_ptr(st, f, [h], loc)
        return ex.hook(st, 'hdestroy', h, loc)
    def done(self, ex, st, h, loc):
        h = self.norm(st, h, loc)
        if not isinstance(h, Ptr): raise ToolLimit('done() of %r' % (h,))
        f = ex.load(st, h, ex.mk_ptr(), loc)
        return 0 if isinstance(f, FnPtr) else 1
    def hresume(self, ex, st, h, loc):
        t = ex.to_int(h)
        if ex.valid(st, t == z3.Int('NOOP_HANDLE')): return None
        st.ghost['hresumed'] = st.ghost['hresumed'] + (t,)
        if hasattr(self, 'on_hresume'): return self.on_hresume(ex, st, h, loc)
        return None
    def hdestroy(self, ex, st, h, loc): ex.fail(st, 'only coroutines that are owned are destroyed', loc); return None
    # ---- the most general body
    def touch(self, ex, st, loc):
        if hasattr(self, 'on_body'): self.on_body(ex, st, loc)
    def mayth(self, ex, st, v, what):
        e = fresh_int('exc'); s2 = st.clone(); s2.assume(e > 0); s2.ghost['exc'] = e; return [(st, 'ret', v), (s2, 'throw', Exc(None, e))]
    def env_more(self, ex, st, F, a, loc): self.touch(ex, st, loc); return self.mayth(ex, st, fresh_bool('more'), 'more')
    def env_value(self, ex, st, F, a, loc):
        self.touch(ex, st, loc); v = fresh_int('val'); st.assume(And(v > 0, v < 2 ** 62)); st.ghost['val'] = v
        outs = self.mayth(ex, st, v, 'value'); outs[1][0].ghost.pop('val', None); return outs
    def env_await(self, ex, st, F, a, loc): self.touch(ex, st, loc); st.ghost['awaiters'] += 1; return None
    def env_ready(self, ex, st, F, a, loc): return 0   # not suspending is the same as no await at all
    def env_suspend(self, ex, st, F, a, loc):
        h = a[1]; st.ghost['env_h'] = h; return None
    def env_resume(self, ex, st, F, a, loc): self.touch(ex, st, loc); return self.mayth(ex, st, None, 'await')
    def env_dtor(self, ex, st, F, a, loc): st.ghost['awaiters'] -= 1; return None
    def local_ctor(self, ex, st, F, a, loc): self.touch(ex, st, loc); st.ghost['locals'] += 1; return None
    def local_dtor(self, ex, st, F, a, loc):
        ex.prove(st, st.ghost['locals'] == 1, 'the locals of the coroutine are destroyed once', loc); st.ghost['locals'] -= 1; return None
    # an object of the body whose destructor throws, but neither while another exception is on its way nor when the frame is destroyed
    def late_ctor(self, ex, st, F, a, loc): self.touch(ex, st, loc); return None
    def late_dtor(self, ex, st, F, a, loc):
        return self.mayth(ex, st, None, 'late') if st.ghost['exc'] is None and not st.ghost.get('destroying') else None
def ex_cells(ex, st, h): return ex.getmem(st, h.r).cells
