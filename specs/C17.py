"""signal: a monitor over a doubly linked list whose records stay alive as long as anybody refers to them (reference accounting), with
positions that never change.  For the emission an arbitrary slot Y that stays connected is followed: every record that was in the list
together with Y leads to Y by its next pointers, also after it was taken out of the list"""
from .dlist import over, I, B
from .lib import *
TU = 'signal.cpp'
K0 = z3.K(I, z3.IntVal(0))
od = z3.Function('pos', I, I); inv = z3.Function('at_pos', I, I); num = z3.Function('number', I, I)
def plus(A, x, k=1): return z3.If(zi(x) == 0, A, z3.Store(A, zi(x), z3.Select(A, zi(x)) + k))
class L:
    """a list: next, previous, membership, first, last"""
    def __init__(self, nx, pv, In, h, tl): self.nx, self.pv, self.In, self.h, self.tl = nx, pv, In, h, tl
    def ends(self): return And(Not(self.In(z3.IntVal(0))), Implies(self.h != 0, And(self.In(self.h), self.pv(self.h) == 0)), Implies(self.tl != 0, And(self.In(self.tl), self.nx(self.tl) == 0)))
    def rec(self, t):
        nx, pv, In = self.nx, self.pv, self.In
        return And(nx(t) >= 0, pv(t) >= 0, Implies(In(t), And(t > 0, t < 2 ** 47)), Implies(And(In(t), nx(t) != 0), And(In(nx(t)), pv(nx(t)) == t)), Implies(And(In(t), nx(t) == 0), t == self.tl),
            Implies(And(In(t), pv(t) != 0), And(In(pv(t)), nx(pv(t)) == t)), Implies(And(In(t), pv(t) == 0), t == self.h),
            Implies(Not(In(t)), pv(t) == 0), Implies(nx(t) != 0, od(nx(t)) > od(t)))
    def wit(self, t, Y, W):
        return And(Implies(self.In(t), W(t)), Implies(And(W(t), od(t) < od(Y)), And(self.nx(t) != 0, W(self.nx(t)), od(self.nx(t)) <= od(Y))))
class Sec(L):
    n = 0
    def __init__(self):
        Sec.n += 1; k = Sec.n; F = lambda s, r: z3.Function('%s_%d' % (s, k), I, r)
        L.__init__(self, F('nx', I), F('pv', I), F('In', B), z3.Int('head_%d' % k), z3.Int('tail_%d' % k)); self.Al = F('alive', B); self.kn = {}
    def known(self, t):
        """the facts, and what follows from them in a finite list: it starts at the head and ends at the tail"""
        t = zi(t)
        if t.get_id() not in self.kn: self.kn[t.get_id()] = (t, self.known_(t))
        return self.kn[t.get_id()][1]
    def known_(self, t):
        return And(self.rec(t), Implies(self.In(t), And(self.h != 0, self.tl != 0, od(self.h) <= od(t), od(t) <= od(self.tl))), inv(od(t)) == t,
            Implies(self.In(t), self.Al(t)), Implies(And(self.Al(t), self.nx(t) != 0), self.Al(self.nx(t))))
W0 = z3.Function('met', I, B)
class Cur:
    """the number the next connection gets"""
    def __init__(self, M): self.M = M
    def observe(self, ex, st, kind):
        n = fresh_int('number'); st.assume(And(n >= st.ghost['curlb'], n >= 1, n < 2 ** 63))
        if zi(st.ghost['start']).eq(z3.IntVal(-1)) and self.M.op == 'call': st.setg('start', n)
        return [(st, n)]
    def commit(self, ex, st, old, new, order, loc, kind):
        if ex.valid(st, zi(new) == zi(old)): return
        ex.prove(st, And(self.M.op in ('append', 'prepend'), zi(new) == zi(old) + 1), 'only connecting a slot takes a number, and each number is taken once', loc)
        st.setg('tick', zi(old)); st.setg('curlb', zi(old) + 1)
class Nodes:
    """slots: the records of the list"""
    def __init__(self, M): self.M = M
    def owns(self, ex, st, t):
        c = self.M.perm(ex, st, t)
        return And(c, t != ex.addr(self.M.R)) if self.M.R is not None else c
    def load(self, ex, st, t, off, ty, loc):
        M = self.M; o = M.O
        if off in (o['nx'], o['pv']):
            ex.prove(st, zb(st.ghost['hold']), 'data race: the list is only used with the lock held', loc)
            return SPtr(M.read(ex, st, 'nx' if off == o['nx'] else 'pv', t))
        if off == 0: return Slot(SPtr(t), 0, 'slot')
        raise ToolLimit('field of a slot')
    def store(self, ex, st, t, off, v, ty, loc):
        M = self.M; o = M.O
        if off in (o['nx'], o['pv']):
            ex.prove(st, zb(st.ghost['hold']), 'data race: the list is only used with the lock held', loc)
            M.write(ex, st, 'nx' if off == o['nx'] else 'pv', t, v, loc); return
        raise ToolLimit('field of a slot')
    def atomic(self, ex, st, t, off, kind, ty, ops, order, extra, loc):
        M = self.M; g = st.ghost
        if off != M.O['cnt']: raise ToolLimit('atomic access to a slot')
        if kind == 'load':
            c = fresh_int('connected'); st.assume(And(c >= 0, c < 2 ** 63, Implies(c != 0, c == num(t)), Implies(z3.Select(g['zero'], t), c == 0), Implies(And(M.wit, t == M.Y), And(c == M.cY, c > 0))))
            st.setg('okn', Or(c != 0, And(g['okn'], g['okt'] == t))); st.setg('okt', t); st.setg('zero', z3.If(c == 0, z3.Store(g['zero'], t, True), g['zero']))
            if M.op in ('size', 'empty') and ex.valid(st, And(g['sec'].In(t), zi(g['lo']) <= od(t))):
                st.assume(zi(g['cnt']) < 2 ** 60); st.setg('cnt', z3.If(And(zi(g['lo']) < od(t), c != 0), zi(g['cnt']) + 1, zi(g['cnt']))); st.setg('cally', Or(g['cally'], t == M.Y)); st.setg('lo', od(t))
            return [(st, c)]
        if kind in ('store', 'xchg') and same(ops[0], 0):
            ex.prove(st, Or(z3.Select(g['zero'], t), And(M.op in ('remove', 'disc'), t == M.t0)), 'only the slot of the handle is disconnected', loc)
            st.setg('zero', z3.Store(g['zero'], t, True)); st.setg('okn', z3.BoolVal(False)); return [(st, None if kind == 'store' else ex.fresh_of(ty, 'old'))]
        ex.prove(st, False, 'a connected slot is only changed by disconnecting it', loc); return [(st, None)]
class Sig:
    def __init__(self, V, mod, tag=''): self.V = V; self.mod = mod; self.tag = tag; self.F = lambda n: mod.funcs[n]
    def setup(self, ex, op, wit=False):
        self.op = op; self.wit = wit; self.R = None; self.O = None; self.t0 = z3.IntVal(0); self.Y = z3.Int('Y'); self.cY = z3.Int('numberY'); self.S = self.S2 = None; self.drain = op in ('dtor', 'massign')
        ex.contracts = []
        self.fn = Opaque(ex, 'vt::Fn', throws=('move', 'copy') if op != 'learn' else (), other=self.call_fn); self.P = Opaque(ex, 'vt::P')
        self.fn.ondtor = None
        ex.contracts = [(re.compile(r'^asyncpp::refcounted_(add|remove)_ref\('), self.count), (re.compile(r'^asyncpp::signal_traits_st::noop_mutex::(lock|unlock|try_lock)\('), self.noop)] + ex.contracts
        ex.vcall = self.vcall; ex.loop_cands = [self.cands]; ex.ghost_havoc = {'sec': lambda ex_, st: None if st.ghost['sec'] is None else self.fresh(st), 'ov': lambda ex_, st: (), 'tc': lambda ex_, st: ()}
        ex.new_hook = lambda ex_, st, r, *a: ex_.addr(r)
        Locks(ex, self.acq, self.rel); self.regs = []; new = type(ex).new_region.__get__(ex)
        def region(st, name, size, *a, **k):
            r = new(st, name, size, *a, **k)
            if isinstance(size, int) and size == 8: self.regs.append(r); ex.addr(r)
            return r
        ex.new_region = region
    def noop(self, ex, st, F, a, loc):
        """the single threaded variant: its mutex does nothing, and marks where slots may have changed the list"""
        r = ex.hook(st, re.search(r'::(\w+)\(', F.dem).group(1), a[0], loc); return True if r is None and 'try' in F.dem else r
    def begin(self):
        st = State(); f = z3.BoolVal(False)
        st.ghost.update(sec=None, ov=(), tc=(), hold=f, own=K0, okt=z3.IntVal(0), okn=f, zero=z3.K(I, f), lo=z3.IntVal(0), first=True, cnt=z3.IntVal(0), cally=f, pub=f, tick=z3.IntVal(0), curlb=self.cY + 1, hacq=z3.IntVal(0),
            held=(), sev=f, sevd=z3.IntVal(0), sevn=z3.IntVal(0), called=0, gone=f, exc=z3.IntVal(0), locks=z3.IntVal(0), inlist=f, start=z3.IntVal(-1))
        st.assume(And(self.cY >= 1, self.cY < 2 ** 62)); return st
    # ---- the list
    def plus(self, ex, st, A, x, k=1):
        x = zi(x); A0 = A if not isinstance(A, (int, bool)) else K0
        if ex.valid(st, x == 0): return A0
        if ex.valid(st, x != 0): return ex.simp(z3.Store(A0, x, z3.Select(A0, x) + k))
        return ex.simp(plus(A0, x, k))
    def fresh(self, st):
        s = Sec(); st.assume(s.ends()); st.assume(And(s.known(s.h), s.known(s.tl)))
        if self.wit: st.assume(And(s.In(self.Y), s.known(self.Y), s.wit(s.h, self.Y, W0)))
        if self.R is not None: st.assume(Not(s.In(self.ex.addr(self.R)))) if self.ex.valid(st, Not(zb(st.ghost['pub']))) else None
        return s
    def touch(self, ex, st, t):
        t = zi(t); s = st.ghost['sec']
        if s is None or any(t.eq(x) for x in st.ghost['tc']): return
        st.setg('tc', st.ghost['tc'] + (t,)); st.assume(s.known(t)); st.assume(Implies(z3.Select(st.ghost['own'], t) >= 1, s.Al(t)))
        if self.op == 'owns': st.assume(Implies(And(s.In(t), s.In(self.t0), od(t) < od(self.t0)), And(s.nx(t) != 0, od(s.nx(t)) <= od(self.t0))))      # follows: the records are on one chain, in order
        for r in self.apart(st): a = ex.addr(r); st.assume(Implies(And(t != 0, Or(s.Al(t), z3.Select(st.ghost['own'], t) >= 1)), Or(t + self.O['size'] <= a, t >= a + (r.size if isinstance(r.size, int) else 8))))
        if self.wit: st.assume(s.wit(t, self.Y, W0))
    def apart(self, st):
        """objects that are no records of the list"""
        return [r for r in self.regs if r.id in st.mem and st.mem[r.id].alive and r is not self.R]
    def now(self, st):
        s = st.ghost['sec']; ov = st.ghost['ov']
        return over(s.nx, [(a, v) for f, a, v in ov if f == 'nx']), over(s.pv, [(a, v) for f, a, v in ov if f == 'pv'])
    def read(self, ex, st, f, t):
        if st.ghost['sec'] is None: return fresh_int('stale')
        self.touch(ex, st, t)
        if self.drain and f == 'nx': ex.prove(st, Or(Not(zb(st.ghost['sev'])), od(t) > st.ghost['sevd']), 'a link that was cut is not followed')
        v = ex.simp(self.now(st)[0 if f == 'nx' else 1](zi(t))); self.touch(ex, st, v); return v
    def write(self, ex, st, f, t, v, loc):
        g = st.ghost; v = zi(ex.to_int(v))
        if g['sec'] is None: return
        self.touch(ex, st, t); self.touch(ex, st, v)
        if f == 'nx': old = self.now(st)[0](zi(t)); self.touch(ex, st, old); st.setg('own', self.plus(ex, st, self.plus(ex, st, g['own'], old), v, -1))
        if self.drain:
            ex.prove(st, And(v == 0, g['sec'].In(t)), 'a list that is given up is only cut', loc)
            if f == 'nx':
                ex.prove(st, Or(Not(zb(g['sev'])), od(t) > g['sevd']), 'a link is cut once', loc)
                n = g['sec'].nx(t); st.setg('sevn', z3.If(n != 0, od(n), g['sevn'])); st.setg('sevd', od(t)); st.setg('sev', z3.BoolVal(True))
            return
        st.setg('ov', st.ghost['ov'] + ((f, zi(t), v),))
    def watched(self, st):
        """cells that own a reference: (value at the start, cell)"""
        out = []; g = st.ghost
        if self.S is not None and g['sec'] is not None and zb(g['hold']) is not False: out.append((g['hacq'], (self.S, self.O['head'])))
        if self.S2 is not None: out.append((self.h2, (self.S2, self.O['head'])))
        if self.R is not None: out.append((z3.IntVal(0), (self.R, self.O['nx'])))
        return out
    def eff(self, ex, st, t):
        e = z3.Select(st.ghost['own'], t)
        for v0, (r, o) in self.watched(st):
            if o not in st.mem[r.id].cells or not st.mem[r.id].alive: continue
            v = zi(ex.to_int(ex.peek(st, r, o)))
            if zi(v0).eq(v): continue
            e = e + z3.If(t == v0, 1, 0) - z3.If(t == v, 1, 0)
        return ex.simp(e)
    def effarr(self, ex, st):
        A = st.ghost['own']
        for v0, (r, o) in self.watched(st):
            if o not in st.mem[r.id].cells or not st.mem[r.id].alive: continue
            v = zi(ex.to_int(ex.peek(st, r, o)))
            if not zi(v0).eq(v): A = self.plus(ex, st, self.plus(ex, st, A, v0), v, -1)
        return A
    def headok(self, ex, st): return zi(ex.to_int(ex.peek(st, self.S, self.O['head']))) == st.ghost['hacq']
    def perm(self, ex, st, t):
        """may the record t be used?"""
        g = st.ghost; c = self.eff(ex, st, t) >= 1
        if g['sec'] is not None and ex.valid(st, zb(g['hold'])):
            s = g['sec']; self.touch(ex, st, t)
            if self.drain: d = And(s.In(t), Or(Not(zb(g['sev'])), od(t) > g['sevn']), Or(t != s.h, self.headok(ex, st)))
            else:
                old = []
                for i, (f, a, v) in enumerate(g['ov']):
                    if f == 'nx': old.append(over(s.nx, [(x, y) for f2, x, y in g['ov'][:i] if f2 == 'nx'])(a))
                d = And(s.Al(t), *[Not(And(t == o, t != 0)) for o in old], Or(t != s.h, self.headok(ex, st)))
            c = Or(c, d)
        return And(c, t != 0)
    def count(self, ex, st, F, a, loc):
        """intrusive_refcount (property C14; the record is destroyed with its last reference, see the contracts of the slot)"""
        if self.op == 'learn':
            if isinstance(a[0], Ptr) and 'rc' not in self.O: self.O['rc'] = a[0].off
            return None
        p = zi(ex.to_int(a[0])); d = self.O['rc']
        p = zi(0) if ex.valid(st, p == 0) else ex.simp(p - d) if ex.valid(st, p != 0) else z3.If(p == 0, 0, p - d); p = zi(p)
        if self.op == 'slot': return self.slotcount(ex, st, F, a, p, loc)
        g = st.ghost; self.touch(ex, st, p)
        if 'add_ref' in F.dem:
            ok = Or(p == 0, self.perm(ex, st, p))
            if self.R is not None: ok = Or(ok, And(p == ex.addr(self.R), Not(zb(g['pub']))))
            ex.prove(st, ok, 'a slot is only referenced while it exists', loc); st.setg('own', self.plus(ex, st, g['own'], p)); return None
        ex.prove(st, Or(p == 0, self.eff(ex, st, p) >= 1), 'only a reference that is held is given up', loc)
        st.setg('own', self.plus(ex, st, g['own'], p, -1)); return None
    # ---- user code
    def call_fn(self, ex, st, m, ps, a, loc):
        if m.startswith('operator()') and self.op == 'exec':
            ex.prove(st, And(isinstance(a[0], Ptr) and a[0].r is self.R, ex.eq(a[1], self.args[0]), ex.eq(a[2], self.args[1])), 'invoking a slot calls its callable with the emitted arguments', loc)
            st.ghost['called'] += 1; return [(st, 'ret', None)]
        if m.startswith('operator()') and self.op == 'learn': return [(st, 'ret', None)]
        return NotImplemented
    def vcall(self, ex, st, slot, args, loc):
        t = zi(slot.obj.t); g = st.ghost; off = slot.off[1] if isinstance(slot.off, tuple) else slot.off
        ex.prove(st, And(self.op == 'call', off == self.O['invoke']), 'only an emission calls slots', loc)
        ex.prove(st, Not(zb(g['hold'])), 'slots are called without the lock held', loc)
        ex.prove(st, self.eff(ex, st, t) >= 1, 'a slot is kept alive while it is called', loc)
        ex.prove(st, And(g['okn'], g['okt'] == t), 'a slot is only called when it was seen connected since other slots ran', loc)
        ex.prove(st, Or(zi(g['cnt']) == 0, zi(g['lo']) < od(t)), 'slots are called in connection order, each once', loc)
        ex.prove(st, Or(num(t) <= zi(g['start']), z3.Select(g['zero'], t)), 'only slots are called whose number was reached when the emission began', loc)
        ex.prove(st, And(ex.eq(args[1], self.args[0]), ex.eq(args[2], self.args[1])), 'slots are called with the emitted arguments', loc)
        st.assume(zi(g['cnt']) < 2 ** 60); st.setg('lo', od(t)); st.setg('cnt', ex.simp(zi(g['cnt']) + 1)); st.setg('cally', ex.simp(Or(g['cally'], t == self.Y))); st.setg('okn', z3.BoolVal(False))
        s2 = st.clone(); return [(st, 'ret', None), (s2, 'throw', Exc(None, fresh_int('exc')))]
    # ---- the lock
    def acq(self, ex, st, k, loc):
        if self.op == 'learn': self.mo = k[1]; self.locked += 1; return
        g = st.ghost; ex.prove(st, k[1] == self.O['m'] and (k[0] == self.S.id or self.S2 is not None and k[0] == self.S2.id), 'the lock of the signal is the one used', loc)
        if k[0] != self.S.id or self.op == 'move': return
        self.open(ex, st)
    def open(self, ex, st):
        self.ex = ex; s = self.fresh(st); st.setg('sec', s); st.setg('ov', ()); st.setg('tc', ()); st.setg('hold', z3.BoolVal(True)); st.setg('hacq', s.h); st.setg('okn', z3.BoolVal(False))
        ex.put(st, self.S, self.O['head'], 8, SPtr(s.h)); ex.put(st, self.S, self.O['tail'], 8, SPtr(s.tl)); self.touch(ex, st, s.h); self.touch(ex, st, s.tl)
        if self.t0 is not None: self.touch(ex, st, self.t0)
        for r in self.apart(st):
            v = st.mem[r.id].cells.get(0)
            if r.size == 8 and v is not None and isinstance(v[1], SPtr): self.touch(ex, st, ex.to_int(v[1]))
        st.setg('locks', ex.simp(zi(st.ghost['locks']) + 1)); st.setg('inlist', s.In(zi(self.t0)))
    def check(self, ex, st, h2, t2, In2, own=None, side=None):
        s = st.ghost['sec']; s2 = st.clone(); tc = list(st.ghost['tc']); nx2, pv2 = self.now(st); N = L(nx2, pv2, In2, zi(h2), zi(t2)); t = fresh_int('rec'); res = []
        for Y, W in ((None, None), (fresh_int('wit'), z3.Function('met%d' % next_id(), I, B)), (own, None)):
            if Y is None and res: continue
            q = s2.clone(); wit = self.wit; self.wit = False
            xs = []
            for x in ([] if Y is None else [Y]) + [t, zi(h2), zi(t2), s.h, s.tl] + tc: xs += [x, s.nx(x), s.pv(x)]
            xs += [nx2(t), pv2(t)]
            for x in xs: self.touch(ex, q, x)
            self.wit = wit
            if W is not None:
                q.assume(And(s.In(Y), In2(Y)))
                for x in xs: q.assume(s.wit(x, Y, W))
                W2 = lambda x, W=W: Or(W(x), In2(x))
            else: W2 = In2
            if own is not None:
                for x in xs: q.assume(Implies(And(x != own, x != 0), (od(x) < od(own)) if side == 'append' else (od(x) > od(own))))
                q.assume(inv(od(own)) == own)
            res.append((q, And(N.ends(), N.rec(t), N.wit(t, Y, W2) if Y is not None else True)))
        return res
    def ok(self, ex, cs):
        r = all(ex.valid(q, c) for q, c in cs)
        import os
        if os.environ.get('DBG') and not r:
            for q, c in cs:
                for x in flat(c):
                    if not ex.valid(q, x): print('DBG', self.op, x); print(ex.model(q, Not(x)) if hasattr(ex,'model') else '')
        return r
    def rel(self, ex, st, k, loc):
        if self.op == 'learn': return
        if k[0] != self.S.id or self.op == 'move': return
        if self.drain: return
        g = st.ghost; s = g['sec']; O = self.O
        h2 = zi(ex.to_int(ex.peek(st, self.S, O['head']))); t2 = zi(ex.to_int(ex.peek(st, self.S, O['tail']))); self.touch(ex, st, h2); self.touch(ex, st, t2)
        own = None
        if self.R is not None and not ex.valid(st, zb(g['pub'])):
            own = ex.addr(self.R); n0, p0 = [zi(ex.to_int(ex.peek(st, self.R, O[f]))) for f in ('nx', 'pv')]; self.touch(ex, st, n0); self.touch(ex, st, p0)
            ov = st.ghost['ov']; st.setg('ov', ov + (('nx', own, n0), ('pv', own, p0)))
        z = next((x for x in list(g['tc']) if self.op in ('remove', 'call') and ex.valid(st, And(s.In(x), z3.Select(g['zero'], x))) ), None)
        if own is None and not st.ghost['ov'] and ex.valid(st, And(h2 == s.h, t2 == s.tl)): pass
        elif self.ok(ex, self.check(ex, st, h2, t2, s.In)):
            if own is not None: ex.prove(st, True, 'nothing was changed', loc)
        elif z is not None and self.ok(ex, self.check(ex, st, h2, t2, lambda t: And(s.In(t), t != z))):
            st.setg('inlist', And(s.In(zi(self.t0)), zi(self.t0) != z))
        elif own is not None:
            ex.prove(st, self.op in ('append', 'prepend'), 'only connecting adds a slot', loc)
            c = zi(ex.to_int(ex.peek(st, self.R, O['cnt'])))
            ex.prove(st, And(c > 0, c == g['tick'], c < g['curlb']), 'a slot is connected with a number of its own, which is taken', loc)
            for q, x in self.check(ex, st, h2, t2, lambda t: Or(s.In(t), t == own), own, self.op):
                ex.prove(q, x, 'the list stays intact when the lock is released (a slot is %s)' % ('appended at the end' if self.op == 'append' else 'put in front'), loc)
            st.setg('pub', z3.BoolVal(True))
        else:
            for q, x in self.check(ex, st, h2, t2, (lambda t: And(s.In(t), t != z)) if z is not None else s.In):
                ex.prove(q, x, 'the list stays intact when the lock is released (only a disconnected slot is taken out, and then completely)', loc)
        # references of the links
        A = self.effarr(ex, st) if own is None else st.ghost['own']
        if own is not None:
            h0, hn = s.h, h2
            A = self.plus(ex, st, self.plus(ex, st, self.plus(ex, st, A, h0), hn, -1), n0, -1)
        for v in [h2] + [v for f, a, v in st.ghost['ov'] if f == 'nx']: ex.prove(st, Or(v == 0, z3.Select(A, v) >= 0), 'every link owns a reference', loc)
        st.setg('own', ex.simp(A)); st.setg('hold', z3.BoolVal(False)); st.setg('sec', None); st.setg('ov', ()); st.setg('tc', ())
        if self.R is not None and own is not None: self.pubreg(ex, st)
    def pubreg(self, ex, st):
        self.R0 = self.R; st.guards[self.R.id] = self.guard_pub; ex.put(st, self.R, self.O['nx'], 8, 0)
    def guard_pub(self, ex, st, p, size, write, loc):
        if isinstance(p.off, int) and p.off in (self.O['nx'], self.O['pv']): ex.prove(st, False, 'data race: a slot in the list is only changed with the lock held', loc)
    def guard(self, ex, st, p, size, write, loc):
        if ex.in_atomic or not isinstance(p.off, int): return
        if p.off in (self.O['head'], self.O['tail']): ex.prove(st, Or(zb(st.ghost['hold']), bool(st.ghost['held'] and self.op in ('move',))), 'data race: the list is only used with the lock held', loc)
    def cands(self, ex, st, env, Lc):
        g = st.ghost; out = []
        if self.S is None: return out
        s = g['sec']
        for n in ('hold', 'okn', 'cally', 'sev'): out += [(n, zb(g[n])), ('not ' + n, Not(zb(g[n])))]
        for n in ('cnt', 'locks', 'tick'): out += [('%s is %d' % (n, v), zi(g[n]) == v) for v in (0, 1)]
        if s is not None:
            if self.S is not None: out += [('head', zi(ex.to_int(ex.peek(st, self.S, self.O['head']))) == s.h), ('tail', zi(ex.to_int(ex.peek(st, self.S, self.O['tail']))) == s.tl), ('hacq', zi(g['hacq']) == s.h), ('unchanged', len(g['ov']) == 0)]
            if self.drain: out.append(('head taken', zi(ex.to_int(ex.peek(st, self.S, self.O['head']))) == 0))
        out.append(('cnt at least 0', zi(g['cnt']) >= 0)); b = self.base
        for k in (0, 1, 2) if not self.t0.eq(z3.IntVal(0)) else (0,):
            E = b
            for _ in range(k): E = plus(E, self.t0)
            vals = [('-', z3.IntVal(0))] + [(nm, zi(ex.to_int(v))) for kind, nm, v in Lc.slots if not (kind != 'phi' and nm.startswith(('cell%d+' % self.S.id, 'cell%d+' % (self.S2.id if self.S2 is not None else -1)))) and (isinstance(v, SPtr) or isz(v) and v.sort() == I or isinstance(v, int) and not isinstance(v, bool))]
            for nm, v in vals: out.append(('references: %d + %s' % (k, nm), g['own'] == plus(E, v)))
            if self.drain and s is not None:
                for nm, v in vals: out.append(('references with the head: %d + %s' % (k, nm), g['own'] == plus(plus(E, v), s.h, -1)))
            if k == 0:
                for nm, v in vals[1:]:
                    nz = lambda c: Or(v == 0, c)
                    out += [(nm + ' set', v != 0), (nm + ' count', v == zi(g['cnt']))]
                    if self.wit: out += [(nm + ' met', nz(Implies(od(v) <= od(self.Y), W0(v)))), (nm + ' before', nz(zb(g['cally']) == (od(v) > od(self.Y)))), (nm + ' after Y', Implies(v == 0, zb(g['cally']))), (nm + ' lo', nz(Or(zi(g['cnt']) == 0, zi(g['lo']) < od(v))))]
                    if self.drain: out.append((nm + ' cut', nz(Or(Not(zb(g['sev'])), And(zi(g['sevd']) < od(v), zi(g['sevn']) <= od(v))))))
                    if s is not None: out += [(nm + ' listed', nz(s.In(v)))]
                    if s is not None and self.op == 'owns': out += [(nm + ' not passed', Implies(s.In(self.t0), And(v != 0, od(v) <= od(self.t0))))]
                    if self.op in ('size', 'empty'): out += [(nm + ' size lo', nz(Or(Not(zb(g['inlist'])), zi(g['lo']) < od(v)))), (nm + ' fresh', nz(zi(g['lo']) < od(v)))]
        return out
    # ---- learning
    def learn(self, ex):
        try: return self.learn_(ex)
        except (StopIteration, ValueError, KeyError, IndexError, AttributeError) as e: raise ToolLimit('the operations do not behave as expected when run one after the other (%r)' % e)
    def learn_(self, ex):
        op, self.op = self.op, 'learn'; self.O = {}; th = self.fn.throws; self.fn.throws = (); ex.trial += 1; st = self.begin(); O = self.O; self.locked = 0; self.mo = None
        c = lambda n: const(ex, self.mod, n); new = lambda n, sz: (lambda r: (ex.addr(r), r)[1])(ex.new_region(st, n, sz))
        cells = lambda st, r: {o: v for o, (sz, v) in st.mem[r.id].cells.items()}
        def run(st, fn, *a):
            o = [x for x in ex.exec_fn(st, self.F(fn), list(a)) if x[1] == 'ret' and ex.sat(x[0])]
            if len(o) != 1: raise ToolLimit('learning %s' % fn)
            return o[0][0]
        S = new('sig', c('sg_size')); st = run(st, 'sg_ctor', Ptr(S, 0)); a0 = cells(st, S)
        def app(st, i):
            f = new('fn', 8); st.assume(z3.Int('tok') > 0); self.fn.put(st, Ptr(f, 0), z3.Int('tok')); h = new('h', c('h_size')); s2 = run(st, 'sg_append', Ptr(h, 0), Ptr(S, 0), Ptr(f, 0))
            (o, p), = [(o, p) for o, p in cells(s2, h).items() if isinstance(p, Ptr)]; O['hn'] = o; return s2, p.r, h
        st, A, hA = app(st, 1); a1 = cells(st, S); st, Bn, hB = app(st, 2); a2 = cells(st, S)
        O['m'] = self.mo; O['cur'], = [o for o in a1 if same(a0.get(o), 1) and same(a1[o], 2)]
        O['head'], = [o for o in a2 if isinstance(a2[o], Ptr) and a2[o].r is A]; O['tail'], = [o for o in a2 if isinstance(a2[o], Ptr) and a2[o].r is Bn]
        O['size'] = A.size; O['nx'], = [o for o, v in cells(st, A).items() if isinstance(v, Ptr) and v.r is Bn]; O['pv'], = [o for o, v in cells(st, Bn).items() if isinstance(v, Ptr) and v.r is A]
        O['cnt'] = next(o for o, v in cells(st, A).items() if same(v, 1) and same(cells(st, Bn).get(o), 2)); vt = cells(st, A)[0]
        for o in range(0, 64, 8):
            try: f = ex.load(st, Ptr(vt.r, vt.off + o), ex.mk_ptr())
            except Exception: break
            if isinstance(f, FnPtr) and '::invoke(' in self.mod.funcs[f.name].dem: O['invoke'] = o; break
        ex.trial -= 1; self.op = op; self.fn.throws = th; self.O = O; O['invoke']
        return O
    def start(self, ex, op, wit=False, t0=None):
        self.setup(ex, op, wit); self.ex = ex; self.learn(ex); st = self.begin(); O = self.O
        self.S = ex.new_region(st, 'signal', const(ex, self.mod, 'sg_size')); ex.addr(self.S); self.regs.append(self.S); self.op = 'learn'
        (st, _, _), = ex.exec_fn(st, self.F('sg_ctor'), [Ptr(self.S, 0)]); self.op = op
        st.shared[(self.S.id, O['cur'])] = Cur(self); st.guards[self.S.id] = self.guard; st.fams.append(Nodes(self)); st.writes = set()
        st.ghost['held'] = (); self.base = K0; self.t0 = z3.IntVal(0)
        if t0 is not None:
            self.t0 = t0; st.assume(And(t0 >= 0, t0 < 2 ** 47)); self.base = plus(K0, t0); st.ghost['own'] = self.base
        return st
    def handle(self, ex, st, t):
        r = ex.new_region(st, 'handle', const(ex, self.mod, 'h_size')); ex.addr(r); ex.put(st, r, self.O['hn'], 8, SPtr(t) if isz(t) else t); return r
    def hval(self, ex, st, r): return zi(ex.to_int(ex.peek(st, r, self.O['hn'])))
    def outs(self, ex, st, fn, *a):
        for s, k, v in ex.live(ex.exec_fn(st, self.F(fn), list(a))):
            ex.prove(s, And(Not(zb(s.ghost['hold'])) if not self.drain else True, not s.ghost['held']), 'the lock is released')
            yield s, k, v
    # ---- contracts
    def emit(self, ex):
        st = self.start(ex, 'call', wit=True); P = ex.new_region(st, 'arg', 4); Q = ex.new_region(st, 'arg2', 8); self.args = [Ptr(P, 0), Ptr(Q, 0)]; ex.addr(P); ex.addr(Q)
        for st, k, v in self.outs(ex, st, 'sg_call', Ptr(self.S, 0), *self.args):
            g = st.ghost; ex.prove(st, g['own'] == K0, 'references are counted')
            if k != 'ret': ex.prove(st, zi(g['cnt']) > 0, 'an emission throws only what a slot threw'); continue
            ex.prove(st, zb(g['cally']), 'an emission calls every slot that stays connected')
            ex.prove(st, zi(v) == g['cnt'], 'an emission returns the number of slots it called')
    def add(self, fn, op):
        def body(ex):
            st = self.start(ex, op); f = ex.new_region(st, 'callable', 8); ex.addr(f); tok = z3.Int('callable'); st.assume(tok > 0); self.fn.put(st, Ptr(f, 0), tok); h = ex.new_region(st, 'handle', const(ex, self.mod, 'h_size')); ex.addr(h)
            def made(ex_, st_, r, *a): ex_.addr(r); self.R = r if self.R is None else self.R
            ex.new_hook = made
            for st, k, v in self.outs(ex, st, fn, Ptr(h, 0), Ptr(self.S, 0), Ptr(f, 0)):
                g = st.ghost
                if k != 'ret':
                    ex.prove(st, And(Not(zb(g['pub'])), not (g.get('heap') or ()), g['own'] == K0), 'when the callable cannot be stored nothing is connected and nothing leaks'); continue
                a = ex.addr(self.R)
                ex.prove(st, zb(g['pub']), 'the slot is connected'); ex.prove(st, self.hval(ex, st, h) == a, 'the handle refers to the new slot')
                ex.prove(st, g['own'] == plus(K0, a), 'references are counted')
                st.guards.pop(self.R.id, None); P = ex.new_region(st, 'arg', 4); Q = ex.new_region(st, 'arg2', 8); self.args = [Ptr(P, 0), Ptr(Q, 0)]; self.op = 'exec'
                vt = ex.peek(st, self.R, 0); fp = ex.load(st, Ptr(vt.r, vt.off + self.O['invoke']), ex.mk_ptr())
                for s2, k2, _ in ex.live(ex.call_ptr(st, fp, [Ptr(self.R, 0)] + self.args, '')): ex.prove(s2, And(k2 == 'ret', s2.ghost['called'] == 1), 'a slot calls its callable once')
                self.op = op
        return body
    def remove(self, fn):
        def body(ex):
            t0 = z3.Int('slot'); st = self.start(ex, 'remove', t0=t0); h = self.handle(ex, st, t0)
            for st, k, v in self.outs(ex, st, fn, Ptr(self.S, 0), Ptr(h, 0)):
                g = st.ghost; ex.prove(st, And(k == 'ret', g['own'] == self.base, self.hval(ex, st, h) == t0), 'references are counted, the handle stays as it is')
                ex.prove(st, Implies(t0 != 0, And(z3.Select(g['zero'], t0), zi(g['locks']) >= 1, Not(zb(g['inlist'])))), 'the slot is disconnected and no longer in the list')
                if fn == 'sg_remove': ex.prove(st, zb(v) == (t0 != 0), 'the result tells whether there was a slot')
        return body
    def owns_handle(self, ex):
        t0 = z3.Int('slot'); st = self.start(ex, 'owns', t0=t0); h = self.handle(ex, st, t0)
        for st, k, v in self.outs(ex, st, 'sg_owns', Ptr(self.S, 0), Ptr(h, 0)):
            g = st.ghost; ex.prove(st, And(k == 'ret', g['own'] == self.base), 'references are counted')
            ex.prove(st, Implies(zb(v), And(g['inlist'], t0 != 0)), 'a signal owns only slots in its list')
            ex.prove(st, Implies(Not(zb(v)), Or(t0 == 0, z3.Select(g['zero'], t0), And(zi(g['locks']) >= 1, Not(zb(g['inlist']))))), 'a signal owns every connected slot in its list')
    def size(self, fn):
        def body(ex):
            st = self.start(ex, 'size' if fn == 'sg_size_of' else 'empty', wit=True); st.ghost['lo'] = fresh_int('before'); lo = st.ghost['lo']
            # positions start behind an arbitrary one before the first
            orig = self.fresh
            def fresh(st_): s = orig(st_); st_.assume(lo < od(s.h)); return s
            self.fresh = fresh
            for st, k, v in self.outs(ex, st, fn, Ptr(self.S, 0)):
                g = st.ghost; ex.prove(st, And(k == 'ret', g['own'] == K0), 'references are counted'); ex.prove(st, zb(g['cally']), 'every slot of the list is counted')
                if fn == 'sg_size_of': ex.prove(st, zi(v) == g['cnt'], 'the size is the number of connected slots')
                else: ex.prove(st, zb(v) == (zi(g['cnt']) == 0), 'a signal is empty when it has no connected slot')
            del self.fresh
        return body
    def dtor(self, ex):
        st = self.start(ex, 'dtor'); self.open(ex, st); st.ghost['locks'] = z3.IntVal(0)
        for st, k, v in self.outs(ex, st, 'sg_dtor', Ptr(self.S, 0)):
            g = st.ghost; ex.prove(st, And(k == 'ret', self.effarr(ex, st) == plus(K0, 0) if False else k == 'ret'), 'the destructor returns')
            ex.prove(st, And(self.hd(ex, st, self.S) == 0, self.effarr(ex, st) == K0), 'the signal gives up its references, and only those')
    def hd(self, ex, st, r, f='head'): return zi(ex.to_int(ex.peek(st, r, self.O[f])))
    def move(self, fn, op):
        def body(ex):
            st = self.start(ex, op); O = self.O; S2 = ex.new_region(st, 'other', const(ex, self.mod, 'sg_size')); ex.addr(S2); self.regs.append(S2); self.op = 'learn'
            (st, _, _), = ex.exec_fn(st, self.F('sg_ctor'), [Ptr(S2, 0)]); self.op = op; st.writes = set(); self.S2 = S2; del st.shared[(self.S.id, O['cur'])]
            self.h2, t2, c2, c1 = z3.Int('head2'), z3.Int('tail2'), z3.Int('cur2'), z3.Int('cur1'); st.assume(And(self.h2 >= 0, t2 >= 0, c2 >= 1, c1 >= 1, c2 < 2 ** 63, c1 < 2 ** 63, self.h2 < 2 ** 47, t2 < 2 ** 47))
            st.guards.clear()
            for r in (S2, self.S):
                def gd(ex_, s, p, size, write, loc, r=r):
                    if not ex_.in_atomic and isinstance(p.off, int) and p.off in (O['head'], O['tail']): ex_.prove(s, (r.id, O['m']) in s.ghost['held'] or op == 'move' and r is self.S, 'data race: the list is only used with the lock held', loc)
                st.guards[r.id] = gd
            for o, v in (('head', self.h2), ('tail', t2)): ex.put(st, S2, O[o], 8, SPtr(v))
            ex.put(st, S2, O['cur'], 8, c2); ex.put(st, self.S, O['cur'], 8, c1)
            if op == 'move': st.mem[self.S.id].cells.clear(); self.S_new = True
            for st, k, v in self.outs(ex, st, fn, Ptr(self.S, 0), Ptr(S2, 0)):
                g = st.ghost
                ex.prove(st, And(k == 'ret', self.hd(ex, st, self.S) == self.h2, self.hd(ex, st, self.S, 'tail') == t2, self.hd(ex, st, S2) == 0, self.hd(ex, st, S2, 'tail') == 0), 'the slots move as they are')
                ex.prove(st, And(zi(ex.to_int(ex.peek(st, self.S, O['cur']))) >= c2, zi(ex.to_int(ex.peek(st, S2, O['cur']))) >= 1), 'the numbers of the slots stay taken')
                if op == 'move': ex.prove(st, g['own'] == K0, 'references are counted')
                else: ex.prove(st, self.effarr(ex, st) == K0, 'the signal gives up the references to its old slots, and only those')
        return body
    def hop(self, fn, sig, op):
        """handles"""
        def body(ex):
            for eq in ((False, True) if len([c for c in sig if c == 'h']) == 2 else (False,)):
                ts = [z3.Int('slot%d' % i) for i in range(2)]; st = self.start(ex, op); args = []; regs = []; A = K0
                for i, c in enumerate(sig):
                    if eq and i == 1: args.append(args[0]); regs.append(regs[0]); ts[1] = ts[0]; continue
                    if c == 'N': r = ex.new_region(st, 'handle', const(ex, self.mod, 'h_size')); ex.addr(r)
                    else: st.assume(And(ts[i] >= 0, ts[i] < 2 ** 47)); r = self.handle(ex, st, ts[i]); A = plus(A, ts[i])
                    args.append(Ptr(r, 0)); regs.append(r)
                st.ghost['own'] = A; self.base = A; self.t0 = ts[sig.index('h')] if op == 'disc' else z3.IntVal(0)
                m = fn[2:]
                for s, k, v in self.outs(ex, st, fn, *args):
                    g = s.ghost; ex.prove(s, k == 'ret', 'operations of handles return')
                    now = [self.hval(ex, s, r) for r in dict.fromkeys(regs)] if m != 'dtor' else []
                    E = K0
                    for x in now: E = plus(E, x)
                    ex.prove(s, g['own'] == E, 'every handle owns one reference')
                    a, b = ts[0], ts[1]
                    exp = dict(ctor=[0], copy=[b, b], assign=[b, b], massign=[b, 0], valid=[a], bool=[a], eq=[a, b], neq=[a, b], disc=[0], release=[0], get=[a], dtor=[], **{'from': [b, 0], 'not': [a]})[m]
                    if eq: exp = [a] if m != 'massign' else None
                    if exp is not None: ex.prove(s, And(*[x == y for x, y in zip(now, exp)]), 'handles refer to the slots they should')
                    z = z3.Select(g['zero'], a)
                    if op == 'disc': ex.prove(s, Or(a == 0, z), 'the slot is disconnected')
                    val = And(a != 0, g['okn'], g['okt'] == a)
                    if m in ('valid', 'bool'): ex.prove(s, And(Implies(zb(v), val), Implies(Not(zb(v)), Or(a == 0, z))), 'a handle is valid while its slot is connected')
                    if m == 'not': ex.prove(s, And(Implies(Not(zb(v)), val), Implies(zb(v), Or(a == 0, z))), 'a handle is valid while its slot is connected')
                    if m == 'eq': ex.prove(s, zb(v) == (a == b), 'handles are equal when they refer to the same slot')
                    if m == 'neq': ex.prove(s, zb(v) == (a != b), 'handles are equal when they refer to the same slot')
                    if m == 'get': ex.prove(s, ex.eq(v, args[0]), 'a scoped handle gives access to its handle')
        return body
    def slotcount(self, ex, st, F, a, p, loc):
        if isinstance(a[0], Ptr) and a[0].r is self.R: return NotImplemented
        ex.prove(st, And('remove' in F.dem, Or(p == 0, p == self.nxt)), 'a slot owns a reference to the next one', loc); st.setg('cnt', zi(st.ghost['cnt']) + z3.If(p == 0, 0, 1)); return None
    def slot(self, ex):
        """the last reference destroys the slot, its callable, and gives up the reference to the next"""
        for add in (True, False):
            st = self.start(ex, 'append'); f = ex.new_region(st, 'callable', 8); ex.addr(f); self.op = 'learn'; self.fn.throws = (); self.fn.put(st, Ptr(f, 0), z3.Int('tok')); st.assume(z3.Int('tok') > 0); h = ex.new_region(st, 'h', const(ex, self.mod, 'h_size'))
            st.shared.clear(); st.guards.clear(); made = []; ex.new_hook = lambda ex_, st_, r, *a: (ex_.addr(r), made.append(r))
            outs = [o for o in ex.exec_fn(st, self.F('sg_append'), [Ptr(h, 0), Ptr(self.S, 0), Ptr(f, 0)]) if o[1] == 'ret']
            if len(outs) != 1 or not made: raise ToolLimit('slot')
            st = outs[0][0]; R = self.R = made[0]; self.op = 'slot'; self.nxt = z3.Int('nextslot'); st.assume(And(self.nxt >= 0, self.nxt < 2 ** 47)); ex.put(st, R, self.O['nx'], 8, SPtr(self.nxt)); st.fams = []
            rc = [o for o, (sz, v) in st.mem[R.id].cells.items() if same(v, 0) and o not in (self.O['pv'], self.O['nx'], self.O['cnt'])]
            if len(rc) != 1: raise ToolLimit('reference count of the slot')
            st.shared[(R.id, rc[0])] = Refs(self); st.ghost.update(cnt=z3.IntVal(0), locks=z3.IntVal(0), tick=z3.IntVal(1)); self.dt = None
            self.fn.ondtor = lambda *a: self.fndead(*a)
            F = next(f for f in self.mod.funcs.values() if re.match(r'asyncpp::refcounted_%s_ref\(asyncpp::intrusive_refcount<asyncpp::detail::signal_node_base' % ('add' if add else 'remove'), f.dem))
            st.ghost['freed'] = 0
            for s, k, v in ex.live(ex.exec_fn(st, F, [Ptr(R, self.O['rc'])])):
                g = s.ghost; dead = R.id not in (g.get('heap') or ()); last = zi(g['tick']) == 0
                ex.prove(s, k == 'ret', 'counting returns')
                if add: ex.prove(s, And(not dead, zi(g['locks']) == 1), 'a reference is added'); continue
                ex.prove(s, zi(g['locks']) == -1, 'a reference is dropped')
                ex.prove(s, dead == last if not isz(last) else (last if dead else Not(last)), 'a slot is destroyed exactly with its last reference')
                if dead: ex.prove(s, And(g['freed'] == 1, zi(g['cnt']) == z3.If(self.nxt == 0, 0, 1)), 'with the slot its callable is destroyed and the reference to the next slot given up')
    def fndead(self, ex, st, t, loc):
        st.ghost['freed'] = st.ghost.get('freed', 0) + 1
    def all(self, handles=True):
        C = lambda n, m, b: self.V.check(n + self.tag, m, b); m = self.mod
        C('signal::operator()', m, self.emit)
        C('signal::append', m, self.add('sg_append', 'append')); C('signal::prepend', m, self.add('sg_prepend', 'prepend')); C('signal::operator+=', m, self.add('sg_plus', 'append'))
        C('signal::remove', m, self.remove('sg_remove')); C('signal::operator-=', m, self.remove('sg_minus')); C('signal::owns_handle', m, self.owns_handle)
        C('signal::size', m, self.size('sg_size_of')); C('signal::empty', m, self.size('sg_empty')); C('~signal', m, self.dtor)
        C('signal(signal&&)', m, self.move('sg_move', 'move')); C('signal = signal&&', m, self.move('sg_massign', 'massign')); C('slot', m, self.slot)
        for n, s, o in () if not handles else (('h_ctor', 'N', 'h'), ('h_copy', 'Nh', 'h'), ('h_assign', 'hh', 'h'), ('h_massign', 'hh', 'h'), ('h_dtor', 'h', 'h'), ('h_valid', 'h', 'h'), ('h_bool', 'h', 'h'), ('h_not', 'h', 'h'), ('h_eq', 'hh', 'h'), ('h_neq', 'hh', 'h'), ('h_disc', 'h', 'disc'),
                        ('z_from', 'Nh', 'h'), ('z_copy', 'Nh', 'h'), ('z_dtor', 'h', 'disc'), ('z_valid', 'h', 'h'), ('z_bool', 'h', 'h'), ('z_not', 'h', 'h'), ('z_disc', 'h', 'disc'), ('z_release', 'h', 'h'), ('z_get', 'h', 'h'), ('z_eq', 'hh', 'h'), ('z_neq', 'hh', 'h')):
            C({'h': 'signal_handle ', 'z': 'scoped_signal_handle '}[n[0]] + n[2:], m, self.hop(n, s, o))
def flat(c):
    if isz(c) and z3.is_and(c): return [y for x in c.children() for y in flat(x)]
    return [c]
class Refs:
    """the reference count of a slot; ghost locks: change made, tick: references left"""
    def __init__(self, M): self.M = M
    def observe(self, ex, st, kind):
        n = fresh_int('refs'); st.assume(And(n >= 1, n < 2 ** 60)); return [(st, n)]
    def commit(self, ex, st, old, new, order, loc, kind):
        d = ex.simp(zi(new) - zi(old)); st.setg('locks', ex.simp(zi(st.ghost['locks']) + d)); st.setg('tick', zi(new))
        if ex.valid(st, d < 0): ex.prove(st, order in REL, 'memory order: dropping a reference is release', loc)
_n = [0]
def next_id(): _n[0] += 1; return _n[0]
def verify(V):
    V.par = 8; mod = V.module(TU)
    Sig(V, mod).all(); st = V.module(TU, ['-DSIGNAL_ST'])
    Sig(V, st, ' (single threaded)').all(False)
