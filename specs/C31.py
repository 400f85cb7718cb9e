"""as_promise: the real coroutine around an arbitrary awaitable; std::promise and std::future by contract"""
from .coro import *
from .C18 import live_frames
class Adapter:
    def __init__(self, ex, C, kind, A):
        self.ex = ex; self.C = C; self.kind = kind
        R = {'T': 'vt::T', 'v': 'void', 'r': 'vt::T&', 'm': 'vt::T&'}[kind]; W = R
        self.T = Opaque(ex, 'vt::T', throws=('move', 'copy'))
        self.aw = Opaque(ex, 'vt::%s<%s>' % (A, R), throws=('move', 'copy'), other=self.await_, dtor=self.awdtor); self.aw.oncopy = self.awcopy
        if kind == 'm': R = 'vt::T'
        self.pr = Opaque(ex, 'std::promise<%s>' % R, moved=0, empty=0, other=self.prom, dtor=self.prdtor); self.fu = Opaque(ex, 'std::future<%s>' % R, moved=0, empty=0)
        ex.contracts = [(re.compile(r'^std::promise<%s>::promise\(\)' % re.escape(R)), self.newprom), (re.compile(r'^vt::ext<%s>::inner::' % re.escape(W)), self.inner)] + ex.contracts
        self.A = z3.Int('awaitable')
    def start(self, st):
        st.ghost.update(P={}, aws=1, ready=0, susp=0, got=0, gone=False, val=None); st.assume(And(self.A > 0, self.A < 2 ** 40))
    # ---- std::promise: a shared state that is settled at most once
    def newprom(self, ex, st, F, a, loc):
        P = dict(st.ghost['P']); t = len(P) + 1; P[t] = None; st.ghost['P'] = P; self.pr.put(st, a[0], z3.IntVal(t), loc); return [(st, 'ret', None)]
    def tok(self, st, p, loc):
        t = self.pr.get(st, p, loc)
        for k in st.ghost['P']:
            if self.ex.valid(st, t == k): return k
        self.ex.fail(st, 'only a promise with a shared state is used', loc); return None
    def settle(self, st, k, o, loc):
        self.ex.prove(st, st.ghost['P'].get(k) is None, 'the promise is settled once', loc)
        P = dict(st.ghost['P']); P[k] = o; st.ghost['P'] = P
    def prom(self, ex, st, m, ps, a, loc):
        m = m.split('<')[0]
        if m == 'get_future':
            k = self.tok(st, a[1], loc)
            if k is None: return []
            ex.prove(st, k not in st.ghost.get('futs', ()), 'one future per promise', loc); st.ghost['futs'] = st.ghost.get('futs', ()) + (k,)
            self.fu.put(st, a[0], z3.IntVal(k), loc); return [(st, 'ret', None)]
        k = self.tok(st, a[0], loc)
        if k is None: return []
        if m == 'set_value':
            ex.prove(st, st.ghost['got'] == 1, 'the promise is settled only after the awaitable has finished', loc)
            if self.kind == 'v': self.settle(st, k, ('val', None), loc); return [(st, 'ret', None)]
            if self.kind == 'r': self.settle(st, k, ('val', ex.to_int(a[1])), loc); return [(st, 'ret', None)]
            pre = st.clone(); self.settle(st, k, ('val', self.T.get(st, a[1], loc)), loc)
            if ps.rstrip().endswith('&&'): self.T.put(st, a[1], z3.IntVal(0), loc)
            return [(st, 'ret', None)] + self.T.thrown(pre)
        if m == 'set_exception':
            self.settle(st, k, ('exc', ex.to_int(ex.load(st, a[1], ex.mk_ptr(), loc))), loc); return [(st, 'ret', None)]
        return NotImplemented
    def prdtor(self, ex, st, t, loc):
        for k, o in st.ghost['P'].items():
            if ex.valid(st, t == k): ex.prove(st, o is not None or st.ghost['ready'] == 0, 'the promise is not abandoned', loc); return
        ex.prove(st, t == 0, 'a known promise', loc)
    # ---- the awaitable
    def awcopy(self, ex, st, kind, t, loc): st.ghost['aws'] += 1
    def awdtor(self, ex, st, t, loc): st.ghost['aws'] -= 1
    def inner(self, ex, st, F, a, loc):
        m = method(F.dem)[1]
        if not m.startswith('await_'): return NotImplemented
        n = 1 if m == 'await_resume' and self.kind == 'T' else 0
        return self.await_(ex, st, m, '', [ex.load(st, x, ex.mk_ptr(), loc) if i == n else x for i, x in enumerate(a)], loc)
    def await_(self, ex, st, m, ps, a, loc):
        if not m.startswith('await_'): return NotImplemented
        me = a[1] if m == 'await_resume' and self.kind == 'T' else a[0]
        ex.prove(st, self.aw.get(st, me, loc) == self.A, 'it is the given awaitable that is awaited', loc)
        C = self.C
        if m == 'await_ready':
            ex.prove(st, st.ghost['ready'] == 0, 'the awaitable is awaited once', loc); st.ghost['ready'] = 1
            b = fresh_bool('ready'); s2 = st.clone(); st.assume(Not(b)); s2.assume(b)
            s3 = st.clone(); e = fresh_int('exc'); s3.assume(e > 0); s3.ghost['exc'] = e
            return [(st, 'ret', b), (s2, 'ret', b), (s3, 'throw', Exc(None, e))]
        if m == 'await_suspend':
            ex.prove(st, st.ghost['ready'] == 1 and st.ghost['susp'] == 0, 'the awaitable is awaited once', loc); st.ghost['susp'] = 1
            h = C.norm(st, a[1], loc); st.ghost['env_h'] = h
            s2 = st.clone(); s3 = st.clone(); e = fresh_int('exc'); s3.assume(e > 0); s3.ghost['exc'] = e
            # suspended: the coroutine now belongs to whoever resumes it, on any thread
            st.ghost['gone'] = True; st.guards = dict(st.guards); st.guards[h.r.id] = self.guard
            # ... who may even finish it before await_suspend returns
            s4 = st.clone(); s4.ghost['gone'] = False; s4.caught = []; outs = []
            for s5, k5, _ in ex.exec_fn(s4, ex.mod.funcs['hres'], [h]):
                if k5 == 'ret': s5.ghost['gone'] = True; s5.ghost['early'] = True; outs.append((s5, 'ret', 1))
                else: ex.fail(s5, 'the outcome does not leave through the resumption', loc)
            return [(st, 'ret', 1), (s2, 'ret', 0), (s3, 'throw', Exc(None, e))] + outs
        ex.prove(st, st.ghost['got'] == 0 and not st.ghost['gone'] and st.ghost['ready'] == 1, 'the result is taken once, when the awaitable has finished', loc)
        st.ghost['got'] = 1; v = fresh_int('val'); st.assume(And(v > 0, v < 2 ** 40))
        s3 = st.clone(); e = fresh_int('exc'); s3.assume(e > 0); s3.ghost['exc'] = e; st.ghost['val'] = v
        if self.kind == 'T': self.T.put(st, a[0], v, loc); r = None
        elif self.kind == 'm': r = Ptr(self.ref, 0); self.T.put(st, r, v, loc)
        else: r = SPtr(v) if self.kind == 'r' else None
        return [(st, 'ret', r), (s3, 'throw', Exc(None, e))]
    def guard(self, ex, st, p, size, write, loc):
        # the reference count is the business of C21
        if ex.in_atomic and size == 8 or st.ghost.get('early'): return
        if st.ghost['gone']: ex.fail(st, 'the coroutine is not touched while someone else may be running it', loc)
def verify(V):
    mod = V.module('aspromise.cpp', coro=True); V.par = 8
    for n, kind, A, T in (('t', 'T', 'aw', 'T'), ('v', 'v', 'aw', 'void'), ('r', 'r', 'aw', 'T&'), ('et', 'T', 'ext', 'T'), ('ev', 'v', 'ext', 'void'), ('er', 'r', 'ext', 'T&'), ('m', 'm', 'aw', 'T'), ('em', 'm', 'ext', 'T')):
        for how, txt in (('rv', 'as_promise<%s>(rvalue)'), ('lv', 'as_promise<%s>(lvalue)'), ('clv', 'as_promise<%s>(const lvalue)'), ('drv', 'as_promise(rvalue) yielding %s'), ('dlv', 'as_promise(lvalue) yielding %s')):
            if n + '_' + how not in mod.funcs: continue
            def run(ex, n=n, kind=kind, A=A, how=how):
                C = Coro(ex, mod); D = Adapter(ex, C, kind, A); st = State(); C.start(st); D.start(st)
                f = ex.new_region(st, 'future', 16); a = ex.new_region(st, 'aw', 16); D.aw.put(st, Ptr(a, 0), D.A)
                if kind == 'm': D.ref = ex.new_region(st, 'other', 16); ex.addr(D.ref)
                def finished(s, k):
                    ex.prove(s, k == 'ret', 'the outcome does not leave through the resumption'); P = s.ghost['P'].get(1)
                    ex.prove(s, P is not None, 'the promise is settled when the awaitable has finished')
                    ex.prove(s, not live_frames(s), 'the adapter frees its frame'); ex.prove(s, s.ghost['aws'] == 1, 'copies of the awaitable are destroyed')
                    if P is None: return
                    if s.ghost['exc'] is not None: ex.prove(s, P[0] == 'exc', 'an exception rejects the promise'); ex.prove(s, P[0] != 'exc' or P[1] == s.ghost['exc'], 'exactly the exception of the awaitable')
                    else:
                        ex.prove(s, s.ghost['got'] == 1 and P[0] == 'val', 'a value settles the promise')
                        if kind != 'v' and P[0] == 'val': ex.prove(s, P[1] == s.ghost['val'], 'exactly the value of the awaitable')
                        if kind == 'm': ex.prove(s, D.T.get(s, Ptr(D.ref, 0)) == s.ghost['val'], 'the object the awaitable refers to keeps its value')
                for s, k, _ in ex.live(ex.exec_fn(st, mod.funcs[n + '_' + how], [Ptr(f, 0), Ptr(a, 0)]), ('ret', 'throw')):
                    if k == 'throw':
                        ex.prove(s, s.ghost['ready'] == 0 and not live_frames(s), 'as_promise itself throws only if the awaitable can not be copied'); continue
                    ex.prove(s, k == 'ret' and D.fu.get(s, Ptr(f, 0)) == 1, 'the future of the settled promise is returned')
                    if s.ghost['gone'] and not s.ghost.get('early'):
                        ex.prove(s, s.ghost['P'].get(1) is None, 'the promise is pending while the awaitable has not finished')
                        s.ghost['gone'] = False; s.caught = []
                        for s2, k2, _ in ex.live(ex.exec_fn(s, mod.funcs['hres'], [s.ghost['env_h']])): finished(s2, k2)
                    else: finished(s, k)
            V.check((txt % T) + (' of a reference' if kind == 'm' else '') + (' through operator co_await' if A == 'ext' else ''), mod, run)
    V.assume_note('std::promise and std::future by contract (a shared state settled at most once)', 'the awaitable resumes the coroutine at most once; allocation succeeds', 'a callable awaitable whose await members behave arbitrarily')
