"""latch: opens exactly when the counter reaches zero"""
from .eventlib import *

class CountCell:
    """the counter; rely: other threads only decrement, and the sum of all decrements never exceeds the initial value"""
    def __init__(self, L): self.L = L
    def observe(self, ex, st, kind):
        c = fresh_int('count'); ex.axioms_range(c, 64)
        n = self.L.n
        st.assume(z3.And(c >= zi(n), c <= zi(st.ghost['lastc'])))     # precondition of decrement: not below zero; counts only go down
        st.setg('lastc', c)
        return [(st, c)]
    def on_load(self, ex, st, cur, order, loc): pass
    def commit(self, ex, st, old, new, order, loc, kind):
        P = lambda c, nm: ex.prove(st, c, nm, loc)
        P(self.L.op == 'dec', 'only decrement changes the counter')
        P(kind != 'store', 'the counter is changed by one atomic step')
        P(Not(zb(st.ghost['committed'])), 'a decrement changes the counter once')
        P(zi(new) == zi(old) - zi(self.L.n), 'a decrement takes exactly n off the counter')
        P(order in REL, 'memory order: a decrement releases what happened before it')
        P(Or(zi(new) != 0, order in ACQ), 'memory order: the last decrement acquires what the others released')
        st.setg('committed', True); st.setg('left', zi(new))

class Latch:
    n = 0; op = 'query'
    def add(self, ex, st):
        st.shared[(self.em.reg.id, self.coff)] = CountCell(self)
        st.ghost.update(committed=False, left=z3.IntVal(0), lastc=z3.IntVal(2 ** 64 - 1))

def setup(V):
    mod = V.module('events.cpp')
    ev = EventModel(V, mod, 'me', multi=True, auto=False)
    L = Latch(); em = EventModel(V, mod, 'la', multi=True, auto=False, latch=None)
    L.em = em
    def learn(ex):
        ev.learn(ex)
        # find counter and event inside the latch
        N = 0x1234567
        st = State(); r = ex.new_region(st, 'latch', em.const(ex, 'size'))
        outs = ex.exec_fn(st, em.F('ctor'), [Ptr(r, 0), N])
        if len(outs) != 1: raise ToolLimit('latch constructor forks')
        c1 = [o for o, (sz, v) in outs[0][0].mem[r.id].cells.items() if isinstance(v, int) and v == N]
        st = State(); r = ex.new_region(st, 'latch', em.const(ex, 'size'))
        outs = ex.exec_fn(st, em.F('ctor'), [Ptr(r, 0), 0])
        c2 = [(o, v.off) for o, (sz, v) in outs[0][0].mem[r.id].cells.items() if isinstance(v, Ptr) and v.r is r]
        if len(c1) != 1 or len(c2) != 1: raise ToolLimit('latch members not identified %s %s' % (c1, c2))
        L.coff = c1[0]; em.moff, em.base = c2[0]; em.shape = ev.shape; em.latch = L
    return mod, ev, em, L, learn

def verify(V):
    mod, ev, em, L, learn = setup(V)
    def ctor(ex):
        learn(ex)
        n = fresh_int('n'); ex.axioms_range(n, 64)
        st = State(); r = ex.new_region(st, 'latch', em.const(ex, 'size')); ex.addr(r)
        outs = ex.live(ex.exec_fn(st, em.F('ctor'), [Ptr(r, 0), n]))
        for s, k, v in outs:
            ex.prove(s, ex.eq(s.mem[r.id].cells[L.coff][1], n), 'the counter starts at n')
            ex.prove(s, zb(ex.eq(s.mem[r.id].cells[em.moff][1], Ptr(r, em.base))) == (n == 0), 'the latch starts ready exactly for n = 0')
            ex.prove(s, Or(n == 0, zb(ex.eq(s.mem[r.id].cells[em.moff][1], 0))), 'without waiters')
    V.check('latch.latch', mod, ctor)
    if em.shape is None: return
    for fn in ('dec', 'dec1'):
        def dec(ex, fn=fn):
            L.op = 'dec'; L.n = 1
            args = []
            if fn == 'dec': L.n = fresh_int('n'); ex.axioms_range(L.n, 64); args = [L.n]
            st = em.fresh_state(ex, 'set', None)
            outs = ex.live(ex.exec_fn(st, em.F(fn), [Ptr(em.reg, 0)] + args))
            for s, k, v in outs:
                ex.prove(s, k == 'ret', 'decrement does not throw')
                g = s.ghost
                ex.prove(s, Or(zb(g['committed']), zi(L.n) == 0), 'decrement takes n off the counter')
                opened = Or(zb(g['did_set']), And(zb(g['saw_set']), Not(zb(g['taken']))))
                ex.prove(s, Or(zi(L.n) == 0, zi(g['left']) != 0, opened), 'the decrement that reaches zero opens the latch')
                ex.prove(s, Or(And(zb(g['committed']), zi(g['left']) == 0), And(zi(L.n) == 0), Not(zb(g['did_set']))), 'the latch is not opened before zero is reached')
                ex.prove(s, Or(zi(L.n) != 0, zi(g['lastc']) == 0, Not(zb(g['did_set']))), 'a decrement by nothing does not open the latch')
                if 'w' in g: ex.prove(s, z3.Implies(zb(g['taken']), g['w'].d(s) == zi(g['w'].n)), 'every coroutine waiting is resumed')
        V.check('latch.decrement' + ('' if fn == 'dec' else '()'), mod, dec)
    L.op = 'query'; L.n = 0
    def isr(ex):
        L.op = 'query'; L.n = 0
        st = em.fresh_state(ex, 'query'); st.ghost['seen'] = ()
        cell = st.shared[(em.reg.id, em.moff)]
        cc = st.shared[(em.reg.id, L.coff)]
        def onl(ex_, s, cur, order, loc): s.ghost['seen'] = s.ghost['seen'] + (s.ghost['last'] == 1,)
        cell.on_load = onl
        def onc(ex_, s, cur, order, loc): s.ghost['seen'] = s.ghost['seen'] + (cur == 0,)
        cc.on_load = onc
        for s, k, v in ex.live(ex.exec_fn(st, em.F('is_ready'), [Ptr(em.reg, 0)])):
            seen = [zb(x) for x in s.ghost['seen']]
            ex.prove(s, Or(And(v, Or(*seen)), And(Not(v), Or(*[Not(x) for x in seen]))), 'is_ready reports whether the latch is open')
    V.check('latch.is_ready', mod, isr)
    L.op = 'query'; L.n = 0
    em.verify_await()
    V.assume_note('sum of all decrements never exceeds the initial counter (documented precondition)',
                  'std::atomic operations are the sequentially consistent steps clang emits; orders are checked as release/acquire obligations')
