"""Doubly linked intrusive lists under a lock.

Each time the lock is taken the list is unknown: functions nx, pv, In (membership) and od (a position) about which one fact per
record is known, instantiated at every record the code touches.  Writes are an overlay.  When the lock is given back the new list
must again satisfy every fact, for an arbitrary record, with In unchanged or changed by exactly one record.
With finitely many records the facts say that the members are exactly the records on the chain from the head:
every member but the head has a member before it, at a smaller position, whose next pointer leads to it."""
from .lib import *
I = z3.IntSort(); B = z3.BoolSort()
class Sec:
    n = 0
    def __init__(self):
        Sec.n += 1; k = self.k = Sec.n
        F = lambda s, r: z3.Function('%s%d' % (s, k), I, r)
        self.nx, self.pv, self.In, self.od = F('nx', I), F('pv', I), F('In', B), F('od', I); self.h = z3.Int('h%d' % k)
    def tup(self): return self.nx, self.pv, self.In, self.od, self.h
def facts(L, t):
    nx, pv, In, od, h = L
    return And(Implies(In(t), And(t > 0, t < 2 ** 47)),
        Implies(And(In(t), nx(t) != 0), And(In(nx(t)), pv(nx(t)) == t, od(nx(t)) > od(t))),
        Implies(And(In(t), pv(t) != 0), And(In(pv(t)), nx(pv(t)) == t, od(pv(t)) < od(t))),
        Implies(And(In(t), pv(t) == 0), t == h))
def derived(L, t):
    """follows by descent: a member has a first member before it, which is the head"""
    nx, pv, In, od, h = L
    return Implies(In(t), And(h != 0, od(h) <= od(t), Implies(od(t) == od(h), t == h)))
def hfacts(L):
    nx, pv, In, od, h = L
    return And(Not(In(z3.IntVal(0))), Implies(h != 0, And(In(h), pv(h) == 0)))
def over(f, ws):
    def g(t):
        r = f(t)
        for a, v in ws: r = z3.If(t == a, v, r)
        return r
    return g
class DList:
    """ghosts: sec (Sec or None), ov (overlay: (field, record, value)), tc (records touched)"""
    def start(self, st): st.ghost.update(sec=None, ov=(), tc=())
    def havoc(self, ex):
        ex.ghost_havoc['sec'] = lambda ex_, st: self.fresh(st); ex.ghost_havoc['ov'] = lambda ex_, st: (); ex.ghost_havoc['tc'] = lambda ex_, st: ()
    def fresh(self, st):
        s = Sec(); st.assume(hfacts(s.tup())); st.assume(facts(s.tup(), s.h)); return s
    def open(self, ex, st):
        st.setg('sec', self.fresh(st)); st.setg('ov', ()); st.setg('tc', ()); return st.ghost['sec']
    def touch(self, ex, st, t):
        t = zi(t); s = st.ghost['sec']
        if any(t.eq(x) for x in st.ghost['tc']): return
        st.setg('tc', st.ghost['tc'] + (t,)); st.assume(And(facts(s.tup(), t), derived(s.tup(), t)))
    def now(self, st):
        s = st.ghost['sec']; ov = st.ghost['ov']
        return over(s.nx, [(a, v) for f, a, v in ov if f == 'nx']), over(s.pv, [(a, v) for f, a, v in ov if f == 'pv'])
    def read(self, ex, st, f, t):
        self.touch(ex, st, t); v = ex.simp(self.now(st)[0 if f == 'nx' else 1](zi(t))); self.touch(ex, st, v); return v
    def write(self, ex, st, f, t, v):
        v = zi(ex.to_int(v)); self.touch(ex, st, t); self.touch(ex, st, v); st.setg('ov', st.ghost['ov'] + ((f, zi(t), v),))
    def inside(self, ex, st, t):
        self.touch(ex, st, t); return st.ghost['sec'].In(zi(t))
    def holds(self, ex, st, h2, In2, od2, also=()):
        """do all facts hold of the list as it is now? (list of (text, condition), state to prove them in)"""
        s = st.ghost['sec']; nx2, pv2 = self.now(st); s2 = st.clone(); t = fresh_int('rec')
        L2 = (nx2, pv2, In2, od2, zi(h2))
        for x in (zi(h2),) + tuple(zi(a) for a in also): self.touch(ex, s2, x); self.touch(ex, s2, s.nx(x)); self.touch(ex, s2, s.pv(x))
        for x in st.ghost['tc'] + (t,): self.touch(ex, s2, x); self.touch(ex, s2, s.nx(x)); self.touch(ex, s2, s.pv(x))
        self.touch(ex, s2, nx2(t)); self.touch(ex, s2, pv2(t))
        return s2, And(hfacts(L2), facts(L2, t))
