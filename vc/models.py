"""models of the C++ runtime and standard library primitives (assumed contracts)"""
import re, z3
from .core import *

M = []
def model(rx):
    def d(fn):
        M.append((re.compile(rx), fn)); return fn
    return d

@model(r'^__assert_fail$')
def m_assert(ex, st, F, a, loc):
    txt = '?'
    try:
        ini, ty = a[0].r.meta
        txt = ini.val if ini.kind == 'other' else ''
        m = re.search(r'c"(.*)\\00"', txt); txt = m.group(1) if m else txt
    except Exception: pass
    ex.fail(st, 'assertion holds: %s' % txt[:80], loc)
    return []
@model(r'^(std::terminate\(\)|abort|__clang_call_terminate|__cxa_pure_virtual|std::unexpected\(\))$')
def m_term(ex, st, F, a, loc):
    st.event('terminate', loc); return [(st, 'stop', 'terminate')]

# ---- allocation
@model(r'^operator new(\[\])?\(unsigned long(, std::align_val_t)?(, std::nothrow_t const&)?\)$')
def m_new(ex, st, F, a, loc):
    n = a[0]
    r = ex.new_region(st, 'heap', n if isinstance(n, int) else None, 'heap')
    st.event('new', r, n)
    h = st.ghost.get('heap'); st.ghost['heap'] = (h or ()) + (r.id,)
    p = Ptr(r, 0)
    if getattr(ex, 'new_hook', None): ex.new_hook(ex, st, r, n, loc)
    return p
@model(r'^operator delete(\[\])?\(void\*(, unsigned long)?(, std::align_val_t)?(, std::nothrow_t const&)?\)$')
def m_delete(ex, st, F, a, loc):
    p = a[0]
    if isinstance(p, int) and p == 0: return None
    if getattr(ex, 'delete_hook', None):
        r = ex.delete_hook(ex, st, p, a, loc)
        if r: return None
    if not isinstance(p, Ptr):
        if isinstance(p, SPtr):
            k, x = ex.resolve(st, p, loc)
            if k == 'reg': p = x
            else: raise ToolLimit('delete of %r' % (p,))
    m = ex.getmem(st, p.r)
    ex.prove(st, m.alive, 'memory safety: object deallocated at most once', loc)
    ex.prove(st, p.r.kind == 'heap' and same(p.off, 0), 'memory safety: deallocated pointer came from allocation', loc)
    if len(a) > 1 and p.r.size is not None and not isinstance(a[1], (Ptr, SPtr)):
        ex.prove(st, ex.eq(a[1], p.r.size), 'sized deallocation uses the allocated size', loc)
    m.alive = False; m.cells = {}
    st.event('delete', p.r)
    h = st.ghost.get('heap') or (); st.ghost['heap'] = tuple(x for x in h if x != p.r.id)
    return None

# ---- exceptions
@model(r'^__cxa_allocate_exception$')
def m_xalloc(ex, st, F, a, loc):
    return Ptr(ex.new_region(st, 'exc', a[0] if isinstance(a[0], int) else None, 'exc'), 0)
@model(r'^__cxa_free_exception$')
def m_xfree(ex, st, F, a, loc): return None
@model(r'^__cxa_throw$')
def m_throw(ex, st, F, a, loc):
    tn = a[1].r.name[2:] if isinstance(a[1], Ptr) else None
    e = Exc(tn, fresh_int('exc'), a[0]); st.event('throw', tn)
    return [(st, 'throw', e)]
@model(r'^__cxa_begin_catch$')
def m_begin(ex, st, F, a, loc):
    st.caught.append(a[0]); return a[0].obj if a[0].obj is not None else SPtr(a[0].tok)
@model(r'^__cxa_end_catch$')
def m_end(ex, st, F, a, loc):
    if st.caught: st.caught.pop()
    return None
@model(r'^__cxa_rethrow$')
def m_rethrow(ex, st, F, a, loc):
    if not st.caught:
        st.event('terminate', 'rethrow without exception'); return [(st, 'stop', 'terminate')]
    return [(st, 'throw', st.caught[-1])]
@model(r'^__cxa_get_exception_ptr$')
def m_getexc(ex, st, F, a, loc): return a[0].obj if a[0].obj is not None else SPtr(a[0].tok)
@model(r'^std::current_exception\(\)$')
def m_curexc(ex, st, F, a, loc):
    # returned through sret: token of the exception being handled (0 if none)
    e = st.caught[-1] if st.caught else None
    v = SPtr(e.tok) if e is not None else 0
    if e is not None: st.assume(e.tok > 0); st.ghost['exc_%s' % e.tok] = ExcBox(e)
    ex.store(st, a[0], v, ex.mk_ptr(), loc)
    return None
class ExcBox:
    def __init__(self, e): self.e = e
    def __eq__(self, o): return isinstance(o, ExcBox) and o.e is self.e
@model(r'^std::rethrow_exception\(std::__exception_ptr::exception_ptr\)$')
def m_rethrow_ptr(ex, st, F, a, loc):
    v = ex.load(st, a[0], ex.mk_ptr(), loc)
    ex.prove(st, Not(ex.eq(v, 0)), 'no rethrow of an empty exception_ptr', loc)
    tok = v.t if isinstance(v, SPtr) else ex.to_int(v)
    for k, b in st.ghost.items():
        if isinstance(b, ExcBox) and same(b.e.tok, tok): return [(st, 'throw', b.e)]
    return [(st, 'throw', Exc(None, tok))]
@model(r'^std::__exception_ptr::exception_ptr::(_M_addref|_M_release)\(\)$')
def m_eptr(ex, st, F, a, loc): return None
@model(r'^std::__exception_ptr::exception_ptr::exception_ptr\(void\*\)$')
def m_eptrc(ex, st, F, a, loc):
    ex.store(st, a[0], a[1], ex.mk_ptr(), loc); return None
@model(r'^std::(logic_error|runtime_error|invalid_argument|future_error|system_error|bad_\w+|length_error|out_of_range)::(logic_error|runtime_error|invalid_argument|system_error|length_error|out_of_range|future_error|bad_\w+)\(')
def m_stdexc(ex, st, F, a, loc): return None
@model(r'^std::(logic_error|runtime_error|invalid_argument|system_error|length_error|out_of_range|exception|bad_\w+)::~')
def m_stdexcd(ex, st, F, a, loc): return None
@model(r'^std::__throw_(\w+)\(')
def m_stdthrow(ex, st, F, a, loc):
    n = re.search(r'__throw_(\w+)', F.dem).group(1)
    st.event('throw', n)
    return [(st, 'throw', Exc('std::' + n, fresh_int('exc')))]

# ---- coroutine handles
@model(r'^std::(__n4861::)?coroutine_handle<.*>::(resume|operator\(\))\(\) const$')
def m_resume(ex, st, F, a, loc):
    h = ex.load(st, a[0], ex.mk_ptr(), loc)
    return ex.hook(st, 'resume', h, loc)
@model(r'^std::(__n4861::)?coroutine_handle<.*>::destroy\(\) const$')
def m_destroy(ex, st, F, a, loc):
    h = ex.load(st, a[0], ex.mk_ptr(), loc)
    return ex.hook(st, 'destroy', h, loc)
@model(r'^std::(__n4861::)?coroutine_handle<.*>::done\(\) const$')
def m_done(ex, st, F, a, loc):
    h = ex.load(st, a[0], ex.mk_ptr(), loc)
    return ex.hook(st, 'done', h, loc)
@model(r'^std::(__n4861::)?noop_coroutine\(\)$')
def m_noop(ex, st, F, a, loc):
    p = SPtr(z3.Int('NOOP_HANDLE')); st.assume(z3.Int('NOOP_HANDLE') > 0)
    return p

# ---- mutexes
@model(r'^std::(recursive_)?(timed_)?mutex::lock\(\)$|^pthread_mutex_lock$')
def m_lock(ex, st, F, a, loc): return ex.hook(st, 'lock', a[0], loc)
@model(r'^std::(recursive_)?(timed_)?mutex::try_lock\(\)$')
def m_trylock(ex, st, F, a, loc): return ex.hook(st, 'try_lock', a[0], loc)
@model(r'^std::(recursive_)?(timed_)?mutex::unlock\(\)$|^pthread_mutex_unlock$')
def m_unlock(ex, st, F, a, loc): return ex.hook(st, 'unlock', a[0], loc)
@model(r'^void std::lock<')
def m_stdlock(ex, st, F, a, loc):
    outs = [(st, 'ret', None)]
    # sequential acquisition in one atomic step (deadlock avoidance is std::lock's contract)
    seen = []
    for x in a:
        nxt = []
        for (s, k, v) in outs:
            p = x
            # argument may be a std::unique_lock
            if 'unique_lock' in F.dem:
                r = ex.call(s, [f for f in ex.mod.funcs.values() if re.search(r'std::unique_lock<std::mutex>::lock\(\)', f.dem)][0], [p], loc)
                nxt += r
            else:
                for q in seen:
                    ex.prove(s, Not(ex.eq(q, p)), 'the same mutex is not locked twice', loc)
                rr = ex.hook(s, 'lock', p, loc)
                nxt += rr if isinstance(rr, list) else [(s, 'ret', None)]
        seen.append(x); outs = nxt
    return outs
@model(r'^std::condition_variable::(condition_variable|~condition_variable)\(\)$')
def m_cvc(ex, st, F, a, loc): return None
@model(r'^std::condition_variable::notify_(all|one)\(\)$')
def m_notify(ex, st, F, a, loc): return ex.hook(st, 'notify_all' if 'notify_all' in F.dem else 'notify_one', a[0], loc)
@model(r'^std::condition_variable::wait\(std::unique_lock<std::mutex>&\)$')
def m_wait(ex, st, F, a, loc): return ex.hook(st, 'cv_wait', a[0], a[1], loc)
@model(r'^__gthread_active_p\(\)|__gthread_active_p')
def m_gactive(ex, st, F, a, loc): return 1
@model(r'^std::this_thread::(yield|sleep_for)|^sched_yield')
def m_yield(ex, st, F, a, loc): return None
@model(r'^strlen$')
def m_strlen(ex, st, F, a, loc): return ex.fresh_of(ex.mk_int(64), 'strlen')
@model(r'^(puts|printf|fprintf)$')
def m_io(ex, st, F, a, loc): return 0
@model(r'^__cxa_guard_acquire$')
def m_guard(ex, st, F, a, loc): return 0
@model(r'^(__cxa_atexit|__cxa_thread_atexit)$')
def m_atexit(ex, st, F, a, loc): return 0
@model(r'^TLS wrapper function for |^thread-local wrapper routine for ')
def m_tls(ex, st, F, a, loc):
    name = F.name.replace('_ZTW', '_Z', 1)
    if name in ex.mod.globals: return Ptr(ex.global_region(st, name), 0)
    return NotImplemented

def install(ex):
    ex.models = M
    ex.hooks = {}
    def hook(st, name, *args):
        h = ex.hooks.get(name)
        if h is None: raise ToolLimit('no contract for primitive %s(%s)' % (name, ', '.join(map(str, args))))
        r = h(ex, st, *args)
        return r
    ex.hook = hook
    ex.asm_handler = None
