"""Objects with a mutex and intrusive FIFO lists of suspended coroutines (channel, queue).

While the lock is held a list X is the sequence s(0) .. s(n-1) of records with handle H(i), dispatcher D(i) and value V(i)
(n arbitrary, the records laid out as the real await_suspend leaves them: learned by running it).  At every unlock the new
list must be the old one with nothing, its first record, or all records removed, and possibly the own record appended.
Removed records belong to this operation: each must be completed and delivered exactly once, in order, without the lock."""
from .lib import *
I = z3.IntSort()

class Kind:
    def __init__(self, X, size, mk, ready, suspend, resume, value, out): self.__dict__.update(locals())

class Inst:
    def __init__(self, M, ex, st, X, rid, k):
        self.M = M; self.X = X; self.rid = rid; self.k = k
        F = lambda n: z3.Function('%s%d' % (n, k), I, I)
        self.s, self.idx, self.H, self.D, self.V = F('s'), F('idx'), F('H'), F('D'), F('V')
        self.n = n = z3.Int('n%s%d' % (X, k)); i = z3.Int('i')
        st.assume(z3.And(n >= 0, n < 2 ** 40))
        def ax(i): 
            b = [self.idx(self.s(i)) == i, self.s(i) > 0, self.s(i) < 2 ** 47, self.H(i) > 0, self.H(i) < 2 ** 47, self.D(i) >= 0, self.D(i) < 2 ** 47, self.V(i) > 0]
            if M.own is not None: b.append(self.s(i) != ex.addr(M.own))
            return z3.And(*b)
        self.inst = lambda i: z3.Implies(z3.And(i >= 0, i < n), ax(i))
        for f in (self.s, self.H, self.D, self.V): ex.qinst[f.name()] = self.inst
        st.assume(z3.Implies(n > 0, z3.And(ax(z3.IntVal(0)), ax(n - 1))))
        for nm, v in (('open', True), ('del', z3.IntVal(0)), ('cnt', z3.IntVal(0)), ('app', False), ('ov', {})): st.ghost['%s%d' % (nm, k)] = v
    def g(self, st, nm): return st.ghost['%s%d' % (nm, self.k)]
    def at(self, i): return z3.If(zi(i) < self.n, self.s(zi(i)), 0)
    def head(self, st): return SPtr(self.at(0))
    def owns(self, ex, st, t): return z3.And(self.idx(t) >= 0, self.idx(t) < self.n, self.s(self.idx(t)) == t)
    def access(self, ex, st, t, loc):
        i = self.idx(t); d = self.g(st, 'del')
        ok = True if self.g(st, 'open') else z3.And(i >= d, i < self.g(st, 'cnt'))
        ex.prove(st, ok, 'the record of a waiting coroutine is only touched with the lock held or after taking it from the list, and never after resuming it', loc)
        return i, d
    def cellval(self, off, i):
        T = self.M.templ[self.X]
        if off not in T: return None
        sz, kind, v = T[off]
        if kind == 'next': return sz, SPtr(self.at(i + 1))
        if kind == 'H': return sz, SPtr(self.H(i))
        if kind == 'D': return sz, SPtr(self.D(i))
        if kind == 'V': return sz, self.V(i)
        if kind == 'parent': return sz, self.M.parent(self, i, v)
        return sz, v
    def load(self, ex, st, t, off, ty, loc):
        i, d = self.access(ex, st, t, loc)
        ov = self.g(st, 'ov')
        if off in ov:
            if ex.valid(st, i == d):
                if ov[off][0] == ty.size: return ex.coerce(ov[off][1], ty)
                raise ToolLimit('partial load from record')
            if ex.sat(st, i == d): raise ToolLimit('ambiguous record access')
        c = self.cellval(off, i)
        if c is None or c[0] != ty.size: return ex.fresh_of(ty, 'rec')
        return ex.coerce(c[1], ty)
    def store(self, ex, st, t, off, v, ty, loc):
        i, d = self.access(ex, st, t, loc)
        nxt = self.M.templ[self.X].get(off, (0, '', 0))[1] == 'next'
        if nxt and self.g(st, 'open'):
            own = self.M.own
            ex.prove(st, self.M.ownkind == self.X and own is not None and ex.eq(v, Ptr(own, 0)), 'a waiter only links its own record into the list', loc)
            ex.prove(st, i == self.n - 1, 'a new waiter is linked behind the last one (FIFO)', loc)
            st.ghost['app%d' % self.k] = True; return
        ex.prove(st, i == d, 'only the record that is completed next is written', loc)
        ov = {o: c for o, c in self.g(st, 'ov').items() if o + c[0] <= off or o >= off + ty.size}
        ov[off] = (ty.size, v); st.ghost['ov%d' % self.k] = ov

class WL:
    """kinds: {X: Kind}; subclass hooks: acquire(ex, st, rid, sec), release(ex, st, rid, sec), expect(ex, st, inst, i, res, tok)"""
    def __init__(self, V, mod, size, kinds, tcls='vt::T'):
        self.V = V; self.mod = mod; self.sizefn = size; self.kinds = kinds; self.tcls = tcls
        self.own = None; self.ownkind = None; self.templ = None; self.heads = None
    def F(self, n): return self.mod.funcs[n]
    def base(self, ex):
        self.T = Opaque(ex, self.tcls)
        ex.vcall = self.vcall; ex.hooks['resume'] = self.resume
        ex.iface = lambda ex_, st, p: 'dispatcher' if isz(p.t) and re.match(r'D\d+$|Dreq|Q_disp|D1$', p.t.decl().name()) else None
        ex.ptr_templates = [self.ptr_templ]; ex.loop_cands = [self.cands]
        self.containers(ex)
        ex.insts = []; self.regof = {}
    def containers(self, ex): pass
    def parent(self, it, i, v): return Ptr(self.regof[it.rid], v)
    def construct(self, ex, st, r): raise NotImplementedError
    # ---- learning
    def learn(self, ex):
        self.base(ex); self.templ = {}; self.heads = {}; self.mo = None; self.own = None; self.learning = True
        def lk(ex_, s, p, loc): self.mo = keyof(ex_, s, p)[1]
        ex.hooks['lock'] = lk; ex.hooks['unlock'] = lambda *a: None
        un = ex.unroll; ex.unroll = 6; ex.trial += 1
        try:
            for X, K in self.kinds.items():
                st = State(); r = ex.new_region(st, 'obj', const(ex, self.mod, self.sizefn)); ex.addr(r)
                st = self.construct(ex, st, r, X)
                regs = []
                for j in (1, 2):
                    a = ex.new_region(st, 'aw%d' % j, const(ex, self.mod, K.size)); ex.addr(a)
                    st, H, D, Vt = self.make(ex, st, K, r, a, str(j))
                    st.assume(D.t > 0)
                    outs = ex.exec_fn(st, self.F(K.ready), [Ptr(a, 0)])
                    outs = [o for o in outs if o[1] == 'ret' and ex.sat(o[0], Not(zb(o[2])))]
                    if len(outs) != 1: raise ToolLimit('learning %s: await_ready' % X)
                    st = outs[0][0]; st.assume(Not(zb(outs[0][2])))
                    outs = [o for o in ex.exec_fn(st, self.F(K.suspend), [Ptr(a, 0), H]) if ex.sat(o[0])]
                    if len(outs) != 1 or outs[0][1] != 'ret': raise ToolLimit('learning %s: await_suspend' % X)
                    st = outs[0][0]; regs.append(a)
                    if j == 1:
                        cells = dict(st.mem[a.id].cells)
                        hs = [o for o, (sz, v) in st.mem[r.id].cells.items() if isinstance(v, Ptr) and v.r is a]
                        if len(hs) != 1: raise ToolLimit('learning %s: list head not identified %s' % (X, hs))
                        self.heads[X] = hs[0]
                        T = {}
                        for o, (sz, v) in cells.items():
                            if sz == 8 and not isinstance(v, bool):
                                if isinstance(v, SPtr) and same(v.t, H.t): T[o] = (sz, 'H', None); continue
                                if isinstance(v, SPtr) and same(v.t, D.t): T[o] = (sz, 'D', None); continue
                                if Vt is not None and isz(v) and same(v, Vt): T[o] = (sz, 'V', None); continue
                                if isinstance(v, Ptr) and v.r is r: T[o] = (sz, 'parent', v.off); continue
                            if isz(v) or isinstance(v, (SPtr, Ptr)): continue
                            T[o] = (sz, 'const', v)
                    else:
                        nx = [o for o, (sz, v) in st.mem[regs[0].id].cells.items() if isinstance(v, Ptr) and v.r is a]
                        if len(nx) != 1: raise ToolLimit('learning %s: link not identified' % X)
                        T[nx[0]] = (8, 'next', None)
                if not any(t[1] == 'H' for t in T.values()) or not any(t[1] == 'D' for t in T.values()): raise ToolLimit('learning %s: handle or dispatcher not in the record' % X)
                self.templ[X] = T
            if self.mo is None: raise ToolLimit('no mutex found')
        finally: ex.unroll = un; ex.trial -= 1; self.learning = False
    def make(self, ex, st, K, r, a, tag):
        H = addr_sym(ex, st, 'Hself' + tag); D = addr_sym(ex, st, 'Dreq' + tag, False); Vt = None
        args = [Ptr(r, 0), Ptr(a, 0), D]
        if K.value:
            Vt = z3.Int('Vown' + tag); st.assume(Vt > 0); v = ex.new_region(st, 'val', 16); ex.put(st, v, 0, 8, Vt); args.append(Ptr(v, 0))
        outs = ex.exec_fn(st, self.F(K.mk), args)
        if len(outs) != 1 or outs[0][1] != 'ret': raise ToolLimit('awaiter construction has several outcomes')
        return outs[0][0], H, D, Vt
    # ---- a verification run
    def pre(self, ex, nobj=1):
        self.base(ex); self.own = None; self.ownkind = None
        self.lk = Locks(ex, self._acq, self._rel)
        st = State(); st.ghost.update(secs=[], held=(), inclosure=False)
        self.objs = []
        for i in range(nobj):
            r = ex.new_region(st, 'obj%d' % i, const(ex, self.mod, self.sizefn)); ex.addr(r)
            self.objs.append(r); self.regof[r.id] = r; st.guards[r.id] = self.guard; self.shape(ex, st, r)
        return st
    def shape(self, ex, st, r): pass
    def guard(self, ex, st, p, size, write, loc):
        if not isinstance(p.off, int): raise ToolLimit('symbolic offset into the object')
        if self.protected(p.off, size): ex.prove(st, (p.r.id, self.mo) in st.ghost['held'], 'the state of the object is only accessed with its lock held', loc)
    def protected(self, off, size): return any(o < off + size and o + 8 > off for o in self.heads.values())
    def _acq(self, ex, st, k, loc):
        if k[0] not in self.regof or k[1] != self.mo: return
        r = self.regof[k[0]]; sec = {}
        for X in self.kinds:
            it = Inst(self, ex, st, X, k[0], len(ex.insts)); ex.insts.append(it); st.fams = st.fams + [it]; sec[X] = it
            ex.put(st, r, self.heads[X], 8, it.head(st))
        st.ghost['sec:%d' % k[0]] = sec
        self.acquire(ex, st, r, sec, loc)
    def _rel(self, ex, st, k, loc):
        if k[0] not in self.regof or k[1] != self.mo: return
        r = self.regof[k[0]]; sec = st.ghost['sec:%d' % k[0]]
        res = {}; post = {}
        for X, it in sec.items():
            h = ex.to_int(ex.peek(st, r, self.heads[X])); res[X] = tr = self.classify(ex, st, r, X, it, h, loc)
            n = it.n
            post[X] = {'same': n, 'append': n + 1, 'pop1': n - 1, 'all': z3.IntVal(0)}.get(tr) if isinstance(tr, str) else tr[1].n
        for X, it in sec.items(): st.ghost['open%d' % it.k] = False
        st.ghost['secs'] = st.ghost['secs'] + [dict(rid=k[0], tr=res, inst=sec, post=post, extra=self.release(ex, st, r, sec, res, post, loc))]
    def classify(self, ex, st, r, X, it, h, loc):
        own = self.own; K = it.k; app = it.g(st, 'app')
        oa = ex.addr(own) if own is not None and self.ownkind == X else None
        if app or (oa is not None and ex.valid(st, h == oa)):
            if app: ex.prove(st, h == it.at(0), 'appending a waiter keeps the ones already waiting', loc)
            else: ex.prove(st, it.n == 0, 'a waiter becomes the head of the list only if nobody was waiting (none is dropped)', loc)
            self.check_own(ex, st, X, loc); ex.getmem(st, own).own = False
            ex.prove(st, not st.ghost.get('published'), 'a waiter is queued once', loc); st.ghost['published'] = True
            return 'append'
        if ex.valid(st, h == it.at(0)): return 'same'
        if ex.valid(st, z3.And(it.n >= 1, h == it.at(1))): st.ghost['cnt%d' % K] = z3.IntVal(1); return 'pop1'
        if ex.valid(st, z3.And(h == 0)): st.ghost['cnt%d' % K] = it.n; return 'all'
        for o in ex.insts:
            if o is not it and o.X == X and o.rid != it.rid and 'del%d' % o.k in st.ghost and ex.valid(st, h == o.at(0)):
                ex.prove(st, o.g(st, 'open'), 'waiters are carried over with both locks held', loc)
                st.ghost['cnt%d' % K] = it.n; st.ghost['moved%d' % o.k] = it.rid; return ('from', o)
        ex.fail(st, 'the list of waiters loses records only from its head', loc)
    def check_own(self, ex, st, X, loc):
        cells = st.mem[self.own.id].cells; T = self.templ[X]
        want = {'H': (self.H, 'the queued record holds the handle of the suspending coroutine'), 'D': (self.owndisp(ex, st), 'the queued record holds the dispatcher to resume on'),
                'V': (self.Vt, 'the queued record holds the value'), 'next': (0, 'the queued record is the last of the list'), 'parent': (None, '')}
        for o, (sz, kind, v) in T.items():
            c = cells.get(o)
            if kind == 'parent': continue
            w, nm = want[kind] if kind != 'const' else (v, 'the queued record starts without result')
            ex.prove(st, c is not None and c[0] == sz and (ex.eq(c[1], w) if not (isinstance(c[1], bool) or isinstance(w, bool)) else zb(c[1]) == zb(w)), nm, loc)
    def owndisp(self, ex, st): return self.D
    def awaiting(self, ex, st, X, tag='', r=None):
        K = self.kinds[X]; r = r or self.objs[0]
        a = ex.new_region(st, 'awaiter', const(ex, self.mod, K.size)); ex.addr(a); self.own = a; self.ownkind = X
        st, self.H, self.D, self.Vt = self.make(ex, st, K, r, a, tag)
        return st, a
    # ---- delivery
    def resume(self, ex, st, h, loc):
        if st.ghost['inclosure'] is not False: st.ghost['inclosure'] = st.ghost['inclosure'] + [h]; return None
        self.deliver(ex, st, h, None, loc); return None
    def vcall(self, ex, st, slot, args, loc):
        from .eventlib import run_closure
        hs = run_closure(ex, st, args[1], loc)
        ex.prove(st, len(hs) == 1, 'the queued callback resumes exactly one coroutine', loc)
        self.deliver(ex, st, hs[0], args[0], loc)
        return [(st, 'ret', None)]
    def deliver(self, ex, st, h, via, loc):
        hv = ex.to_int(h)
        ex.prove(st, not st.ghost['held'], 'no coroutine is resumed or handed to a dispatcher with the lock held', loc)
        for it in ex.insts:
            if it.g(st, 'open') is not False: continue
            d = it.g(st, 'del')
            if ex.valid(st, hv == it.H(d)): break
        else: ex.fail(st, 'the coroutine resumed is the next one taken from a list', loc); return
        ex.prove(st, z3.And(d >= 0, d < it.g(st, 'cnt')), 'each waiter taken is resumed at most once', loc)
        v = z3.IntVal(0) if via is None else ex.to_int(via)
        ex.prove(st, it.D(d) == v, 'the waiter resumes through its dispatcher, inline if it has none', loc)
        # what the resumed coroutine will get
        s = st.clone(); K = self.kinds[it.X]; s.guards = dict(s.guards)
        a = ex.new_region(s, 'rec', const(ex, self.mod, K.size))
        for off in self.templ[it.X]: sz, val = it.cellval(off, d); ex.put(s, a, off, sz, val)
        for off, (sz, val) in it.g(st, 'ov').items(): ex.put(s, a, off, sz, val)
        for s2, res, tok in self.result(ex, s, K, a): self.expect(ex, s2, it, d, res, tok, loc)
        st.setg('del%d' % it.k, d + 1); st.ghost['ov%d' % it.k] = {}
    def result(self, ex, s, K, a):
        args = [Ptr(a, 0)]
        if K.out: o = ex.new_region(s, 'out', 16); args.append(Ptr(o, 0))
        R = []
        for s2, k, v in ex.exec_fn(s, self.F(K.resume), args):
            if not ex.sat(s2): continue
            ex.prove(s2, k == 'ret', 'taking the result does not throw')
            for b in (True, False):
                c = zb(v) if b else Not(zb(v))
                if ex.sat(s2, c): s3 = s2.clone(); s3.assume(c); R.append((s3, b, self.T.get(s3, Ptr(o, 0)) if K.out and b else None))
        return R
    def done(self, ex, s):
        ex.prove(s, not s.ghost['held'], 'the lock is released')
        for it in ex.insts:
            if 'del%d' % it.k in s.ghost:
                if s.ghost.get('moved%d' % it.k):
                    ex.prove(s, any(x['inst'].get(it.X) is it and (x['tr'][it.X] == 'all' or ex.valid(s, it.n == 0)) for x in s.ghost['secs']), 'waiters carried over to another object leave the old one')
                    ex.prove(s, it.g(s, 'del') == 0, 'waiters carried over are not resumed')
                else: ex.prove(s, it.g(s, 'del') == it.g(s, 'cnt'), 'every waiter taken from a list is resumed')
    # ---- loops
    def ptr_templ(self, ex, st):
        out = [('null', z3.IntVal(0))]
        for it in getattr(ex, 'insts', ()):
            if 'del%d' % it.k in st.ghost: out.append(('next waiter %s%d' % (it.X, it.k), it.at(it.g(st, 'del'))))
        return out
    def cands(self, ex, st, env, L):
        out = []
        for it in getattr(ex, 'insts', ()):
            if 'del%d' % it.k not in st.ghost: continue
            d, c = it.g(st, 'del'), it.g(st, 'cnt')
            if it.g(st, 'open') is False:
                out += [('0<=done<=taken %d' % it.k, z3.And(d >= 0, d <= c)), ('done<taken %d' % it.k, z3.And(d >= 0, d < c))]
            for kind, nm, v in L.slots:
                if kind == 'ptr' or isinstance(v, SPtr):
                    t = ex.to_int(v)
                    if isinstance(v, SPtr) and v.off: out.append(('%s is the link of a record of list %d' % (nm, it.k), it.owns(ex, st, v.t)))
                    out.append(('%s is a record of list %d or the list is empty' % (nm, it.k), z3.Or(z3.And(t == 0, it.n == 0), it.owns(ex, st, t))))
        return out + self.more_cands(ex, st, env, L)
    def more_cands(self, ex, st, env, L): return []
