"""task: the real promise, awaiter and handle code around the most general coroutine body, as lowered by the compiler"""
from .coro import *
def opaqueT(ex, C):
    op = Opaque(ex, 'vt::T', throws=())
    ex.contracts = [(re.compile(r'^vt::T::T\(long\)'), lambda ex_, st, F, a, loc: op.put(st, a[0], a[1], loc))] + ex.contracts
    return op
def held(ex, st, obj):
    """the handle an object of handle type holds: found by content, not by member name"""
    hs = [v for o, (s, v) in sorted(st.mem[obj.id].cells.items()) if s == 8]
    if len(hs) != 1: raise ToolLimit('handle object with %d words' % len(hs))
    return hs[0]
def live_frames(st): return tuple(sorted(st.ghost.get('heap') or ()))
def handle_ops(V, mod, n, what, mk, extra=True):
    """construction from nothing, moves, assignment, destruction of an owning handle type; mk(ex) -> (C, state, object) with a fresh coroutine"""
    F = lambda k: mod.funcs[n + '_' + k]
    def isb(ex, s, o, want, t):
        for f, w in (('bool', want), ('not', not want)):
            if n + '_' + f in mod.funcs:
                for s2, k, v in ex.live(ex.exec_fn(s.clone(), F(f), [Ptr(o, 0)])): ex.prove(s2, zb(v) if w else Not(zb(v)), '%s %s' % (t, 'holds a coroutine' if want else 'holds nothing'))
    def null(ex):
        C, st, o = mk(ex); x = ex.new_region(st, 'x', const(ex, mod, n + '_size')); h0 = live_frames(st)
        for s, k, _ in ex.live(ex.exec_fn(st, F('null'), [Ptr(x, 0)])):
            isb(ex, s, x, False, 'an empty ' + what)
            for s2, k2, _ in ex.live(ex.exec_fn(s, F('dtor'), [Ptr(x, 0)])): ex.prove(s2, k2 == 'ret' and live_frames(s2) == h0, 'destroying an empty %s destroys no coroutine' % what)
    if n + '_null' in mod.funcs: V.check(what + '(nullptr)', mod, null)
    def fin(ex, s, objs, all_):
        """destroy the objects: in the end every frame is gone (a second destruction is a memory error)"""
        sts = [s]
        for o in objs:
            nx = []
            for s1 in sts:
                for s2, k, _ in ex.live(ex.exec_fn(s1, F('dtor'), [Ptr(o, 0)])): ex.prove(s2, k == 'ret', 'destruction does not throw'); nx.append(s2)
            sts = nx
        for s1 in sts:
            ex.prove(s1, not live_frames(s1), 'every coroutine frame is destroyed exactly once by the last holder')
    def dtor(ex):
        C, st, o = mk(ex); isb(ex, st, o, True, 'a new ' + what); fin(ex, st, [o], None)
    V.check('~' + what, mod, dtor)
    def move(ex):
        C, st, o = mk(ex); x = ex.new_region(st, 'x', const(ex, mod, n + '_size')); h = held(ex, st, o)
        for s, k, _ in ex.live(ex.exec_fn(st, F('move'), [Ptr(x, 0), Ptr(o, 0)])):
            ex.prove(s, k == 'ret', 'moving does not throw')
            ex.prove(s, And(ex.eq(held(ex, s, x), h), ex.eq(held(ex, s, o), 0)), 'the target holds the coroutine, the moved-from object nothing')
            isb(ex, s, x, True, 'the target'); isb(ex, s, o, False, 'the moved-from object')
            fin(ex, s.clone(), [x, o], 1); fin(ex, s, [o, x], 1)
    V.check('%s(%s&&)' % (what, what), mod, move)
    def masgn(ex):
        for dst in ('full', 'empty', 'self'):
            for src in ('full', 'empty'):
                if dst == 'self' and src == 'empty': continue
                C, st, o = mk(ex); h1 = held(ex, st, o); p = o; h2 = h1
                if src == 'empty':
                    t = ex.new_region(st, 't', const(ex, mod, n + '_size')); st = rets(ex, ex.exec_fn(st, F('move'), [Ptr(t, 0), Ptr(o, 0)]))[0][0]
                    st = rets(ex, ex.exec_fn(st, F('dtor'), [Ptr(t, 0)]))[0][0]; h1 = 0
                if dst != 'self':
                    p = ex.new_region(st, 'p', const(ex, mod, n + '_size')); st = rets(ex, ex.exec_fn(st, F('body'), [Ptr(p, 0)]))[0][0]; h2 = held(ex, st, p)
                    if dst == 'empty':
                        t = ex.new_region(st, 't', const(ex, mod, n + '_size')); st = rets(ex, ex.exec_fn(st, F('move'), [Ptr(t, 0), Ptr(p, 0)]))[0][0]
                        st = rets(ex, ex.exec_fn(st, F('dtor'), [Ptr(t, 0)]))[0][0]; h2 = 0
                for s, k, _ in ex.live(ex.exec_fn(st, F('masgn'), [Ptr(p, 0), Ptr(o, 0)])):
                    ex.prove(s, k == 'ret', 'moving does not throw')
                    if dst == 'self': fin(ex, s, [o], 1); continue
                    ex.prove(s, ex.eq(held(ex, s, p), h1), 'the target of a move assignment holds exactly what the source held')
                    now = held(ex, s, o)
                    gone = isinstance(h2, Ptr) and not s.mem[h2.r.id].alive
                    ex.prove(s, Or(ex.eq(now, 0), ex.eq(now, h2)), 'the source of a move assignment holds nothing or what the target held')
                    if isinstance(h2, Ptr): ex.prove(s, gone == ex.valid(s, ex.eq(now, 0)), 'what the target held before is destroyed or kept by the source, not lost')
                    fin(ex, s.clone(), [p, o], 1); fin(ex, s, [o, p], 1)
    V.check('%s::operator=(%s&&)' % (what, what), mod, masgn)
def susp(st, h):
    """suspension state of a frame: which function pointers and what else is in it"""
    m = st.mem[h.r.id]; return None if not m.alive else ('suspended' if isinstance(m.cells[0][1], FnPtr) else 'done')
def same_state(ex, a, b, h):
    ca, cb = a.mem[h.r.id].cells, b.mem[h.r.id].cells
    return set(ca) == set(cb) and all(ca[o][0] == cb[o][0] and ex.same_sem(b, ca[o][1], cb[o][1]) for o in ca)
def verify(V):
    mod = V.module('task.cpp', coro=True)
    for n, kind in (('tk', 'T'), ('tl', 'T'), ('tc', 'T'), ('tv', 'void'), ('td', 'T'), ('tw', 'void')):
        F = lambda k, n=n: mod.funcs[n + '_' + k]; R = mod.funcs['tv_resume' if kind == 'void' else 'tk_resume']
        nm = {'tk': 'task<T>, temporary returned', 'tl': 'task<T>, variable returned', 'tc': 'task<T>, constant returned', 'tv': 'task<void>', 'td': 'task<T>, may throw after it returned', 'tw': 'task<void>, may throw after it returned'}[n]
        def mk(ex, n=n):
            C = Coro(ex, mod); C.op = opaqueT(ex, C); st = State(); C.start(st); o = ex.new_region(st, 'task', const(ex, mod, n + '_size')); ex.addr(o)
            def touched(ex_, s, loc): ex_.prove(s, s.ghost['started'], 'the body does not run before the task is awaited', loc)
            C.on_body = touched
            outs = ex.live(ex.exec_fn(st, F('body'), [Ptr(o, 0)]))
            if len(outs) != 1 or outs[0][1] != 'ret': raise ToolLimit('creating the coroutine has %d outcomes' % len(outs))
            return C, outs[0][0], o
        handle_ops(V, mod, n, 'task' + ('<void>' if n == 'tv' else ''), mk) if n in ('tk', 'tv') else None
        def life(ex, n=n, kind=kind, F=F, R=R):
            C, st, o = mk(ex); C.obj = o; h = held(ex, st, o); aw = ex.new_region(st, 'aw', const(ex, mod, n + '_asize'))
            def destroy(s, when, locs=0):
                outs = ex.live(ex.exec_fn(s, F('dtor'), [Ptr(o, 0)]))
                for s2, k, _ in outs:
                    ex.prove(s2, k == 'ret' and not live_frames(s2), 'destroying the task %s destroys its frame exactly once' % when)
                    ex.prove(s2, s2.ghost['locals'] == 0 and s2.ghost['awaiters'] == 0, 'destroying the task %s destroys the locals of its body' % when)
                return outs
            ex.prove(st, susp(st, h) == 'suspended', 'a new task is suspended')
            destroy(st.clone(), 'that never ran')
            cont = C.handle(st, 'cont')
            for s, k, _ in ex.live(ex.exec_fn(st, F('await'), [Ptr(o, 0), Ptr(aw, 0)])):
                ex.prove(s, k == 'ret', 'co_await does not throw')
                for s1, k, rd in ex.live(ex.exec_fn(s, F('ready'), [Ptr(aw, 0)])):
                    ex.prove(s1, Not(zb(rd)), 'a task that did not run is not ready')
                    for s2, k, hh in ex.live(ex.exec_fn(s1, F('suspend'), [Ptr(aw, 0), cont])):
                        ex.prove(s2, k == 'ret' and not s2.ghost['hresumed'], 'awaiting does not resume the awaiting coroutine yet')
                        ex.prove(s2, ex.eq(hh, h), 'awaiting transfers control to exactly this task')
                        ex.prove(s2, susp(s2, h) == 'suspended', 'the task has not been started otherwise')
                        s2.ghost['started'] = True; run(ex, C, s2, h, aw, destroy, cont, 0, None, kind, R)
        def run(ex, C, s2, h, aw, destroy, cont, depth, prev, kind, R):
            def on_cont(ex_, s, hd, loc):
                # the continuation: it takes the result and destroys the task before control comes back
                ex_.prove(s, ex_.eq(hd, cont), 'exactly the coroutine that awaits the task is resumed', loc)
                ex_.prove(s, len(s.ghost['hresumed']) == 1, 'the awaiting coroutine is resumed once', loc)
                ex_.prove(s, susp(s, h) == 'done', 'the task has finished when its awaiter is resumed', loc)
                ex_.prove(s, s.ghost['locals'] == 0 and s.ghost['awaiters'] == 0, 'the locals of the body are destroyed', loc)
                out = ex_.new_region(s, 'out', 16); C.op.throws = ()
                outs = ex_.exec_fn(s, R, [Ptr(aw, 0)] + ([Ptr(out, 0)] if kind == 'T' else []))
                for s3, k, _ in ex_.live(outs, ('ret', 'throw')):
                    if s3.ghost.get('val') is not None and s3.ghost.get('exc') is None:
                        ex_.prove(s3, k == 'ret', 'awaiting a task that returned does not throw', loc)
                        if kind == 'T' and k == 'ret': ex_.prove(s3, ex_.eq(C.op.get(s3, Ptr(out, 0)), s3.ghost['val']), 'the await yields exactly the value the task returned', loc)
                    else:
                        ex_.prove(s3, k == 'throw', 'awaiting a task that threw throws', loc)
                        if k == 'throw': ex_.prove(s3, _.tok == s3.ghost['exc'], 'the await rethrows exactly the exception that left the task', loc)
                res = []
                for s3, k, _ in outs:
                    for s4, k4, _ in destroy(s3, 'from its awaiter'): res.append((s4, 'ret', None))
                return res
            C.on_hresume = on_cont; C.op.throws = ('move', 'copy')
            for s3, k, _ in ex.live(ex.exec_fn(s2, mod.funcs['tk_hres'], [h])):
                C.op.throws = ('move', 'copy')
                ex.prove(s3, k == 'ret', 'no exception leaves the task through resume()')
                if s3.ghost['hresumed']: continue
                ex.prove(s3, susp(s3, h) == 'suspended' and s3.ghost['awaiters'] == 1, 'control comes back without resuming the awaiter only while the body is suspended in an await')
                ex.prove(s3, ex.eq(s3.ghost['env_h'], h), 'an await inside the body suspends this task')
                if prev is not None and same_state(ex, prev, s3, h): continue
                if depth > 3: raise ToolLimit('suspended states of the body do not repeat')
                destroy(s3.clone(), 'suspended in an await'); 
                run(ex, C, s3, h, aw, destroy, cont, depth + 1, s3.clone(), kind, R)
        V.check(nm, mod, life)
    V.assume_note('the body awaits, returns and throws arbitrarily (env_more/env_await/env_value); only its own frame is reachable from the library code', 'a task is awaited at most once; allocation of the frame succeeds')
