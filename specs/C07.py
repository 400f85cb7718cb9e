"""mutex_lock over the contracts of mutex: unlock (needs the lock), try_lock, lock request"""
from .common import *

def verify(V):
    mod = V.module('mutex.cpp')
    F = mod.funcs
    def install(ex):
        def key(p): return 'held_%s' % p.r.name
        def unlock(ex_, st, Fn, a, loc):
            p = a[0]
            ex_.prove(st, isinstance(p, Ptr) and p.r.name in ('M', 'N'), 'a scoped lock unlocks its own mutex', loc)
            ex_.prove(st, zi(st.ghost[key(p)]) > 0, 'the mutex is unlocked only while this lock holds it', loc)
            st.setg(key(p), st.ghost[key(p)] - 1); st.event('unlock', p.r.name); return None
        def trylock(ex_, st, Fn, a, loc):
            p = a[0]; s2 = st.clone()
            st.setg(key(p), st.ghost[key(p)] + 1); st.event('acquired', p.r.name); s2.event('tryfailed', p.r.name)
            return [(st, 'ret', True), (s2, 'ret', False)]
        def islocked(ex_, st, Fn, a, loc): return True if ex_.valid(st, zi(st.ghost[key(a[0])]) > 0) else fresh_bool('islocked')
        def suspend(ex_, st, Fn, a, loc):
            # a lock request: granted at once (false) or queued and granted when the coroutine is resumed (true)
            m = ex_.ghost_mutex_of(st, a[0], loc)
            s2 = st.clone()
            st.setg(key(m), st.ghost[key(m)] + 1); st.event('acquired', m.r.name)
            s2.event('queued', m.r.name)
            st.event('handle', a[1]); s2.event('handle', a[1])
            return [(st, 'ret', False), (s2, 'ret', True)]
        ex.ghost_mutex_of = lambda st, a, loc: ex.load(st, Ptr(a.r, a.off + LAOFF[0]), ex.mk_ptr(), loc)
        ex.contracts = [(re.compile(r'^asyncpp::mutex::unlock\(\)'), unlock), (re.compile(r'^asyncpp::mutex::try_lock\(\)'), trylock),
                        (re.compile(r'^asyncpp::mutex::is_locked\(\) const'), islocked), (re.compile(r'^asyncpp::mutex::lock_awaiter::await_suspend\('), suspend)]
    LAOFF = [None]
    def learn(ex):
        st = State(); m = ex.new_region(st, 'm', const(ex, mod, 'mx_size')); a = ex.new_region(st, 'a', const(ex, mod, 'mx_lasize'))
        s = ex.exec_fn(st, F['mx_lock'], [Ptr(m, 0), Ptr(a, 0)])[0][0]
        o = [o for o, (sz, v) in s.mem[a.id].cells.items() if isinstance(v, Ptr) and v.r is m]
        if len(o) != 1: raise ToolLimit('lock request does not name its mutex')
        LAOFF[0] = o[0]
    sz = {}
    def base(ex):
        install(ex)
        st = State(); st.ghost.update(held_M=0, held_N=0)
        M = ex.new_region(st, 'M', 64); N = ex.new_region(st, 'N', 64)
        return st, M, N
    def make(ex, st, kind, mtx, name):
        """a mutex_lock in each state its interface can produce"""
        r = ex.new_region(st, name, sz['ml'])
        if kind == 'held':
            st.ghost['held_' + mtx.name] = 1
            st = ex.exec_fn(st, F['ml_adopt'], [Ptr(r, 0), Ptr(mtx, 0)])[0][0]
        else:
            st = ex.exec_fn(st, F['ml_plain'], [Ptr(r, 0), Ptr(mtx, 0)])[0][0]
        if kind == 'empty':
            q = ex.new_region(st, name + '_to', sz['ml'])
            st = ex.exec_fn(st, F['ml_move'], [Ptr(q, 0), Ptr(r, 0)])[0][0]
        st.events = []
        return st, r
    def shape(ex, s, r, mtxs):
        """what a lock object now represents: is it in one of the canonical states?"""
        out = {}
        outs = ex.exec_fn(s.clone(), F['ml_is_locked'], [Ptr(r, 0)])
        v = outs[0][2]
        p = ex.exec_fn(s.clone(), F['ml_mutex'], [Ptr(r, 0)])
        return v, p[0][2]
    KINDS = ('held', 'plain', 'empty')
    def first(ex):
        learn(ex); sz['ml'] = const(ex, mod, 'mx_mlsize')
        install(ex)
        for kind, f in (('held', 'ml_adopt'), ('plain', 'ml_plain')):
            st, M, N = base(ex); r = ex.new_region(st, 'l', sz['ml']); st.ghost['held_M'] = 1 if kind == 'held' else 0
            for s, k, v in ex.live(ex.exec_fn(st, F[f], [Ptr(r, 0), Ptr(M, 0)])):
                lk, mx = shape(ex, s, r, M)
                ex.prove(s, k == 'ret' and not s.events, 'construction neither locks nor unlocks')
                ex.prove(s, zb(lk) == (kind == 'held'), 'a new lock holds the mutex exactly if it adopted it')
                ex.prove(s, ex.eq(mx, Ptr(M, 0)), 'mutex() is the wrapped mutex')
    V.check('mutex_lock.mutex_lock', mod, first)
    if 'ml' not in sz: return
    def same_state(ex, s, r, kind, mtx, what):
        lk, mx = shape(ex, s, r, None)
        ex.prove(s, zb(lk) == (kind == 'held'), what + ': holds the mutex exactly as expected')
        ex.prove(s, ex.eq(mx, 0 if kind == 'empty' else Ptr(mtx, 0)) if kind != 'empty' else True, what + ': refers to the expected mutex')
    def dtor(ex):
        for kd in KINDS:
            st, M, N = base(ex); st, r = make(ex, st, kd, M, 'l')
            for s, k, v in ex.live(ex.exec_fn(st, F['ml_dtor'], [Ptr(r, 0)])):
                ex.prove(s, k == 'ret' and count(s.events, 'unlock') == (1 if kd == 'held' else 0), 'destruction unlocks exactly once if the lock is held, else never')
                ex.prove(s, count(s.events, 'acquired') == 0, 'destruction does not lock')
    V.check('mutex_lock.~mutex_lock', mod, dtor)
    def mv(ex):
        for kd in KINDS:
            st, M, N = base(ex); st, r = make(ex, st, kd, M, 'l'); q = ex.new_region(st, 'q', sz['ml'])
            for s, k, v in ex.live(ex.exec_fn(st, F['ml_move'], [Ptr(q, 0), Ptr(r, 0)])):
                ex.prove(s, k == 'ret' and not s.events, 'move construction neither locks nor unlocks')
                same_state(ex, s, q, kd, M, 'move construction, target')
                same_state(ex, s, r, 'empty', M, 'move construction, source')
                nobody(ex, s, [q, r], 1 if kd == 'held' else 0)
    def nobody(ex, s, regs, total):
        # destroying everything releases exactly what is held
        t = s.clone(); t.events = []
        outs = [(t, 'ret', None)]
        for r in regs:
            nxt = []
            for x, k, v in outs: nxt += ex.exec_fn(x, F['ml_dtor'], [Ptr(r, 0)])
            outs = nxt
        for x, k, v in outs:
            ex.prove(x, count(x.events, 'unlock') == total, 'every acquisition is released exactly once')
    V.check('mutex_lock.mutex_lock(mutex_lock&&)', mod, mv)
    def asg(ex):
        for ka in KINDS:
            for kb in KINDS:
                st, M, N = base(ex); st, a = make(ex, st, ka, M, 'a'); st, b = make(ex, st, kb, N, 'b')
                for s, k, v in ex.live(ex.exec_fn(st, F['ml_assign'], [Ptr(a, 0), Ptr(b, 0)])):
                    ex.prove(s, k == 'ret' and count(s.events, 'unlock', 'M') == (1 if ka == 'held' else 0) and count(s.events, 'unlock') == count(s.events, 'unlock', 'M'),
                             'assignment unlocks what the target held, exactly once, and nothing else')
                    same_state(ex, s, a, kb, N, 'assignment, target')
                    same_state(ex, s, b, 'empty', N, 'assignment, source')
                    nobody(ex, s, [a, b], 1 if kb == 'held' else 0)
        for ka in KINDS:   # self assignment: nothing is released twice or leaked
            st, M, N = base(ex); st, a = make(ex, st, ka, M, 'a')
            for s, k, v in ex.live(ex.exec_fn(st, F['ml_assign'], [Ptr(a, 0), Ptr(a, 0)])):
                nobody(ex, s, [a], (1 if ka == 'held' else 0) - count(s.events, 'unlock'))
    V.check('mutex_lock.operator=(mutex_lock&&)', mod, asg)
    def ul(ex):
        st, M, N = base(ex); st, r = make(ex, st, 'held', M, 'l')
        for s, k, v in ex.live(ex.exec_fn(st, F['ml_unlock'], [Ptr(r, 0)])):
            ex.prove(s, k == 'ret' and count(s.events, 'unlock', 'M') == 1, 'unlock unlocks once')
            same_state(ex, s, r, 'plain', M, 'unlock')
            nobody(ex, s, [r], 0)
    V.check('mutex_lock.unlock', mod, ul)
    def tl(ex):
        st, M, N = base(ex); st, r = make(ex, st, 'plain', M, 'l')
        for s, k, v in ex.live(ex.exec_fn(st, F['ml_try_lock'], [Ptr(r, 0)])):
            got = count(s.events, 'acquired')
            ex.prove(s, zb(v) == (got == 1) and got <= 1 if isinstance(v, bool) else And(zb(v) == (got == 1), got <= 1), 'try_lock reports whether the mutex was acquired')
            same_state(ex, s, r, 'held' if got else 'plain', M, 'try_lock')
            nobody(ex, s, [r], got)
    V.check('mutex_lock.try_lock', mod, tl)
    def awaiting(ex, pre, rdy, sus, res, size, after):
        """await protocol: await_ready; if false await_suspend; when resumed the request has been granted"""
        st, a, mtx, ctx, had = pre
        H = addr_sym(ex, st, 'H')
        done = []
        for s, k, v in ex.live(ex.exec_fn(st, F[rdy], [Ptr(a, 0)])):
            if v is True: done.append(s); continue
            if v is not False: 
                t = s.clone(); t.assume(v)
                if ex.sat(t): done.append(t)
                s.assume(Not(v))
                if not ex.sat(s): continue
            for s2, k2, v2 in ex.live(ex.exec_fn(s, F[sus], [Ptr(a, 0), H])):
                q = count(s2.events, 'queued'); g = count(s2.events, 'acquired')
                ex.prove(s2, q + g == 1, 'awaiting makes exactly one lock request')
                ex.prove(s2, zb(v2) == (q == 1), 'the coroutine suspends exactly if the request was queued')
                for e in s2.events:
                    if e[0] == 'handle': ex.prove(s2, ex.eq(e[1], H), 'the request is made for the awaiting coroutine')
                if q: s2.ghost['held_' + mtx.name] += 1; s2.event('acquired', mtx.name)   # granted: then resumed
                done.append(s2)
        for s in done: after(s)
    def lock(ex):
        for kd in ('plain', 'held'):
            st, M, N = base(ex); st, r = make(ex, st, kd, M, 'l')
            a = ex.new_region(st, 'aw', const(ex, mod, 'mx_mlasize'))
            for s, k, v in ex.exec_fn(st, F['ml_lock'], [Ptr(r, 0), Ptr(a, 0)]):
                ex.prove(s, not s.events, 'lock() itself does nothing before it is awaited')
                def after(s, kd=kd):
                    for s2, k2, v2 in ex.live(ex.exec_fn(s, F['mla_resume'], [Ptr(a, 0)])):
                        same_state(ex, s2, r, 'held', M, 'after an awaited lock')
                        nobody(ex, s2, [r], count(s2.events, 'acquired') + (1 if kd == 'held' else 0))
                        ex.prove(s2, count(s2.events, 'acquired') == (0 if kd == 'held' else 1), 'an awaited lock acquires the mutex once')
                awaiting(ex, (s, a, M, None, kd), 'mla_ready', 'mla_suspend', 'mla_resume', None, after)
    V.check('mutex_lock.lock', mod, lock)
    def scoped(ex):
        st, M, N = base(ex); a = ex.new_region(st, 'aw', const(ex, mod, 'mx_slasize'))
        for s, k, v in ex.exec_fn(st, F['sl_lock'], [Ptr(M, 0), Ptr(a, 0)]):
            def after(s):
                r = ex.new_region(s, 'l', sz['ml'])
                for s2, k2, v2 in ex.live(ex.exec_fn(s, F['sl_resume'], [Ptr(a, 0), Ptr(r, 0)])):
                    same_state(ex, s2, r, 'held', M, 'lock_scoped')
                    ex.prove(s2, count(s2.events, 'acquired') == 1, 'lock_scoped acquires once')
                    nobody(ex, s2, [r], 1)
            awaiting(ex, (s, a, M, None, None), 'sl_ready', 'sl_suspend', 'sl_resume', None, after)
    V.check('mutex.lock_scoped', mod, scoped)
    V.assume_note('contracts of mutex::unlock, try_lock and the lock request are those proved for C06',
                  'unlock() is called on a held lock and try_lock() on a lock that is not held and not moved from (documented, asserted preconditions)')
