"""accounting of reference counts: every handle owns one count of the object it points to"""
from .common import *

class Acct:
    """ghost accounting.  own0: pointers owned by handles when the operation starts (worst case: nobody else owns any).
    log: +-1 changes made through refcounted_add_ref / refcounted_remove_ref."""
    def __init__(self, ex, st, own0):
        self.own0 = own0; self.inside = None; self.locked = None
        st.ghost['log'] = []
        ex.contracts = [(re.compile(r'^vt::refcounted_add_ref\(vt::B const\*\)'), self.add), (re.compile(r'^vt::refcounted_remove_ref\(vt::B const\*\)'), self.rem)]
    def count(self, st, p, upto=None):
        t = sum([z3.If(zi(q) == p, 1, 0) for q in self.own0], z3.IntVal(0))
        for s, q in (st.ghost['log'] if upto is None else st.ghost['log'][:upto]): t = t + z3.If(q == p, s, 0)
        return t
    def dead(self, st, p):
        ds = [z3.And(q == p, self.count(st, p, i + 1) <= 0) for i, (s, q) in enumerate(st.ghost['log']) if s < 0]
        return Or(*ds) if ds else False
    def add(self, ex, st, F, a, loc):
        p = ex.to_int(a[0])
        ex.prove(st, p != 0, 'no null object is counted', loc)
        ex.prove(st, Not(self.dead(st, p)), 'a reference is only added to an object that still exists', loc)
        if self.locked: self.locked(ex, st, p, loc, True)
        st.ghost['log'] = st.ghost['log'] + [(1, p)]; return None
    def rem(self, ex, st, F, a, loc):
        p = ex.to_int(a[0]) if not isz(a[0]) else a[0]
        ex.prove(st, p != 0, 'no null object is counted', loc)
        ex.prove(st, Not(self.dead(st, p)), 'a reference is only dropped from an object that still exists', loc)
        if self.locked: self.locked(ex, st, p, loc, False)
        st.ghost['log'] = st.ghost['log'] + [(-1, p)]
        if self.inside is not None and not st.ghost.get('destroyed_inside'):
            # the object whose last reference goes contains another handle (a node of a list): it is destroyed with it
            A, reg = self.inside
            c = z3.And(p == A, self.count(st, A) <= 0)
            if ex.sat(st, c):
                s2 = st.clone(); s2.assume(Not(c)); out = [(s2, 'ret', None)] if ex.sat(s2) else []
                st.assume(c); st.ghost['destroyed_inside'] = True
                v = ex.to_int(ex.peek(st, reg, 0)); ex.getmem(st, reg).alive = False
                if ex.sat(st, v == 0):
                    s3 = st.clone(); s3.assume(v == 0); out.append((s3, 'ret', None))
                if ex.sat(st, v != 0):
                    st.assume(v != 0)
                    self.rem(ex, st, F, [v], loc); out.append((st, 'ret', None))
                return out
        return None
    def balance(self, ex, st, gained, lost, name='the count of every object changes by exactly the change in owning handles'):
        """for every object: change of its count == handles that own it now - handles that owned it before"""
        p = fresh_int('p'); st2 = st.clone(); st2.assume(p != 0)
        d = sum([z3.If(q == p, s, 0) for s, q in st.ghost['log']], z3.IntVal(0))
        own = sum([z3.If(zi(q) == p, 1, 0) for q in gained], z3.IntVal(0)) - sum([z3.If(zi(q) == p, 1, 0) for q in lost], z3.IntVal(0))
        ex.prove(st2, d == own, name)
