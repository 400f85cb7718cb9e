"""async mutex.  Abstract state of the word: UNLOCKED | LOCKED without new waiters | LOCKED with a stack of new waiters
t(0) (latest) .. t(n-1) (oldest).  The holder owns the FIFO queue q(0..m-1) of older waiters."""
from .common import *

class MCell:
    def __init__(self, M): self.M = M
    def observe(self, ex, st, kind):
        M = self.M; out = []; g = st.ghost
        if not g['holds']:
            s = st.clone(); s.ghost['last'] = 'U'; out.append((s, M.U))
        if not g['seenlist']:
            s = st.clone(); s.ghost['last'] = 'L'; out.append((s, M.L))
        s = st.clone(); s.ghost['last'] = 'W'
        x = fresh_int('head'); s.assume(z3.And(x > 0, x < 2 ** 47, x != M.U, x != M.L, x % 8 == 0))
        if M.own is not None: s.assume(x != ex.addr(M.own))
        if g['holds'] and M.op == 'unlock': s.ghost['seenlist'] = True
        out.append((s, x))
        return out
    def on_load(self, ex, st, cur, order, loc):
        g = st.ghost
        if g['last'] != 'U': st.setg('saw_locked', True)
        if order in ACQ and 't' in g: st.setg('acq', True)
        self.M.seen(st, g['last'])
    def commit(self, ex, st, old, new, order, loc, kind):
        M = self.M; g = st.ghost; P = lambda c, nm: ex.prove(st, c, nm, loc)
        c = g['last']
        M.seen(st, c)
        if c != 'U': st.setg('saw_locked', True)
        P(kind != 'store', 'the mutex word is only changed by atomic read-modify-write steps')
        def is_(v): 
            q = ex.eq(new, v); return q is True or (q is not False and ex.valid(st, q))
        if M.own is not None and is_(Ptr(M.own, 0)):
            P(M.op == 'lock', 'only a lock request queues itself')
            P(c != 'U', 'a request never queues itself on an unlocked mutex (lost wake-up)')
            P(Not(zb(g['published'])), 'a lock request is queued once'); P(Not(zb(g['acquired'])), 'a granted request is not queued')
            P(order in REL, 'memory order: queueing the request releases its record')
            M.check_record(ex, st, old if c == 'W' else 0, loc)
            ex.getmem(st, M.own).own = False
            st.setg('published', True); return
        if is_(M.U):
            P(M.op == 'unlock' and zb(g['holds']), 'only the holder unlocks, once')
            P(c == 'L', 'unlocking drops no waiter: the word is set to unlocked only if nobody queued')
            P(order in REL, 'memory order: unlock releases what the holder did')
            P(g['m'] == 0, 'the mutex is unlocked only if no older waiter is queued')
            P(ex.eq(ex.peek(st, M.reg, M.qoff), 0), 'the queue of an unlocked mutex is empty')
            st.setg('holds', False); st.setg('released', True); ex.getmem(st, M.reg); st.guards[M.reg.id] = M.guard
            return
        if is_(M.L):
            if c == 'U':
                P(M.op in ('lock', 'try_lock'), 'only lock requests lock the mutex'); P(Not(zb(g['acquired'])), 'a request locks the mutex once')
                P(Not(zb(g['published'])), 'a queued request does not lock the mutex itself')
                P(order in ACQ, 'memory order: locking acquires what the previous holder did')
                st.setg('acquired', True); return
            if c == 'L': 
                P(M.op == 'unlock', 'the word is not rewritten'); return
            P(M.op == 'unlock' and zb(g['holds']), 'only the holder takes the queued waiters')
            P(not g.get('took'), 'the waiters are taken once')
            n = fresh_int('n'); I = z3.IntSort()
            k = 't'; t = z3.Function('t', I, I); idx = z3.Function('tidx', I, I)
            H = z3.Function('H', I, I); i = z3.Int('i')
            st.assume(n >= 1); st.assume(t(0) == ex.to_int(old))
            body = z3.And(idx(t(i)) == i, t(i) > 0, t(i) < 2 ** 47, t(i) != M.U)
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), body), patterns=[t(i)]))
            for j in (z3.IntVal(0), n - 1): st.assume(z3.And(idx(t(j)) == j, t(j) > 0))
            NX = z3.Const('NX0', z3.ArraySort(I, I))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(NX, t(i)) == z3.If(i + 1 < n, t(i + 1), 0)), patterns=[t(i)]))
            st.ghost['t'] = Holder((t, idx, n)); st.ghost['NX'] = NX; st.ghost['k'] = z3.IntVal(0); st.ghost['acq'] = order in ACQ; st.ghost['took'] = True
            st.ghost['seenlist'] = False; st.ghost['NX0'] = NX
            st.fams = st.fams + [TFam(M)]
            return
        ex.fail(st, 'the mutex word only ever holds unlocked, locked or a queued request', loc)

class Holder:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return isinstance(o, Holder) and o.v is self.v

class TFam:
    """the waiters taken from the word (next is mutable)"""
    def __init__(self, M): self.M = M
    def owns(self, ex, st, a):
        t, idx, n = st.ghost['t'].v
        return z3.And(idx(a) >= 0, idx(a) < n, t(idx(a)) == a)
    def chk(self, ex, st, a, loc):
        ex.prove(st, zb(st.ghost['acq']), 'memory order: taking the queued requests acquires their records', loc)
        ex.prove(st, Not(zb(st.ghost['resumed'])), 'a request is not touched after it was granted', loc)
    def load(self, ex, st, a, off, ty, loc):
        self.chk(ex, st, a, loc); sh = self.M.shape
        if off in sh['handle']: return SPtr(z3.Function('H', z3.IntSort(), z3.IntSort())(a))
        if off in sh['next']: return SPtr(z3.Select(st.ghost['NX'], a))
        return ex.fresh_of(ty, 'rec')
    def store(self, ex, st, a, off, v, ty, loc):
        self.chk(ex, st, a, loc)
        if off not in self.M.shape['next']: raise ToolLimit('store to waiter record at +%d' % off)
        st.setg('NX', z3.Store(st.ghost['NX'], a, ex.to_int(v))); st.setg('k', st.ghost['k'] + 1)

class QFam:
    """older waiters, in FIFO order, owned by the holder"""
    def __init__(self, M, q, idx, m): self.M = M; self.q = q; self.idx = idx; self.m = m
    def owns(self, ex, st, a): return z3.And(self.idx(a) >= 0, self.idx(a) < self.m, self.q(self.idx(a)) == a)
    def load(self, ex, st, a, off, ty, loc):
        ex.prove(st, Not(zb(st.ghost['resumed'])), 'a request is not touched after it was granted', loc)
        sh = self.M.shape; i = self.idx(a)
        if off in sh['handle']: return SPtr(z3.Function('H', z3.IntSort(), z3.IntSort())(a))
        if off in sh['next']: return SPtr(z3.If(i + 1 < self.m, self.q(i + 1), 0))
        return ex.fresh_of(ty, 'rec')
    def store(self, ex, st, a, off, v, ty, loc): ex.fail(st, 'the order of queued requests is kept', loc)

class Mutex:
    def __init__(self, V, mod): self.V = V; self.mod = mod; self.own = None; self.op = None; self.shape = None; self.learning = False
    def F(self, n): return self.mod.funcs['mx_' + n]
    def guard(self, ex, st, p, size, write, loc):
        if p.off == self.qoff: ex.prove(st, zb(st.ghost['holds']), 'the queue is accessed only by the holder of the mutex', loc)
    def seen(self, st, c): st.setg('seenU' if c == 'U' else 'seenN', True)
    def learn(self, ex):
        st = State(); r = ex.new_region(st, 'm', const(ex, self.mod, 'mx_size'))
        s1 = ex.exec_fn(st.clone(), self.F('ctor'), [Ptr(r, 0)])[0][0]; s2 = ex.exec_fn(st.clone(), self.F('ctorl'), [Ptr(r, 0)])[0][0]
        c1, c2 = s1.mem[r.id].cells, s2.mem[r.id].cells
        d = [o for o in c1 if not same(c1[o][1], c2.get(o, (0, None))[1])]
        if len(d) != 1: raise ToolLimit('mutex word not identified')
        self.woff = d[0]; self.U = c1[d[0]][1]; self.L = c2[d[0]][1]
        rest = [o for o in c1 if o != d[0]]
        if len(rest) != 1 or c1[rest[0]][1] != 0 or c2[rest[0]][1] != 0: raise ToolLimit('mutex queue not identified')
        self.qoff = rest[0]
        self.learning = True; self.cap = []
        st, a, H = self.lock_pre(ex)
        ex.trial += 1
        try: ex.exec_fn(st, self.F('suspend'), [Ptr(a, 0), H])
        finally: ex.trial -= 1
        self.learning = False
        sh = dict(handle=None, next=None, parent=None)
        for c in self.cap:
            for k in sh:
                offs = {o for o, kk in c if kk == k}
                sh[k] = offs if sh[k] is None else sh[k] & offs
        self.shape = {k: v or set() for k, v in sh.items()}
    def pre(self, ex, op, holds=False):
        self.op = op; st = State()
        self.reg = ex.new_region(st, 'mutex', const(ex, self.mod, 'mx_size')); ex.addr(self.reg)
        self.own = None
        st.shared[(self.reg.id, self.woff)] = MCell(self)
        st.guards[self.reg.id] = self.guard
        st.ghost.update(holds=holds, seenlist=False, last='?', saw_locked=False, seenU=False, seenN=False, published=False, acquired=False, released=False, resumed=False, m=z3.IntVal(0), acq=False, k=z3.IntVal(0))
        ex.hooks['resume'] = self.resume
        ex.loop_cands = [self.cands]; ex.ptr_templates = [self.templ]
        return st
    def lock_pre(self, ex):
        st = self.pre(ex, 'lock')
        a = ex.new_region(st, 'request', const(ex, self.mod, 'mx_lasize')); ex.addr(a)
        st = ex.exec_fn(st, self.F('lock'), [Ptr(self.reg, 0), Ptr(a, 0)])[0][0]
        self.own = a; self.H = addr_sym(ex, st, 'Hself')
        return st, a, self.H
    def check_record(self, ex, st, old, loc):
        cells = st.mem[self.own.id].cells
        def eqv(v, w):
            if isinstance(v, bool): return False
            c = ex.eq(v, w); return c is True or (c is not False and ex.valid(st, c))
        if self.learning:
            self.cap.append([(o, k) for o, (sz, v) in cells.items() if sz == 8 for k, w in (('handle', self.H), ('parent', Ptr(self.reg, 0)), ('next', old)) if eqv(v, w)]); return
        for k, w, nm in (('handle', self.H, 'the queued request holds the handle of the suspending coroutine'), ('next', old, 'the queued request links to the requests queued before it (none is lost)')):
            if not self.shape[k]: ex.fail(st, nm, loc)
            for o in self.shape[k]: ex.prove(st, ex.eq(cells[o][1], w) if o in cells else False, nm, loc)
    # -- unlock
    def prev(self, st, k):
        t, idx, n = st.ghost['t'].v
        return z3.If(k <= 0, 0, t(k - 1))
    def cur(self, st, k):
        t, idx, n = st.ghost['t'].v
        return z3.If(k < n, t(k), 0)
    def inv(self, st):
        t, idx, n = st.ghost['t'].v; k = st.ghost['k']; i = z3.Int('i'); NX = st.ghost['NX']
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(NX, t(i)) == z3.If(i < k, z3.If(i == 0, 0, t(i - 1)), z3.If(i + 1 < n, t(i + 1), 0))), patterns=[t(i)])
    def templ(self, ex, st):
        if 't' not in st.ghost: return [('null', z3.IntVal(0))]
        k = st.ghost['k']
        return [('null', z3.IntVal(0)), ('next request to reverse', self.cur(st, k)), ('last reversed request', self.prev(st, k))]
    def cands(self, ex, st, env, L):
        out = []
        if 't' in st.ghost:
            t, idx, n = st.ghost['t'].v; k = st.ghost['k']
            out += [('0<=k<=n', z3.And(k >= 0, k <= n)), ('k<n', z3.And(k >= 0, k < n)), ('prefix reversed', self.inv(st))]
        for q in ('seenU', 'seenN', 'acq', 'saw_locked', 'published', 'acquired', 'released', 'resumed', 'holds'):
            v = st.ghost[q]
            if isz(v): out += [(q, v), ('not ' + q, z3.Not(v))]
        return out
    def resume(self, ex, st, h, loc):
        g = st.ghost; P = lambda c, nm: ex.prove(st, c, nm, loc)
        P(self.op == 'unlock', 'only unlock resumes waiters')
        P(And(zb(g['holds']), Not(zb(g['resumed']))), 'the mutex is handed over at most once per unlock')
        P(Not(zb(g['released'])), 'the mutex is not both released and handed over')
        m = g['m']; Hf = z3.Function('H', z3.IntSort(), z3.IntSort())
        q, qi = self.q
        qv = ex.to_int(ex.peek(st, self.reg, self.qoff))
        hv = ex.to_int(h)
        if 't' in g:
            t, idx, n = g['t'].v
            P(m == 0, 'newer waiters are not taken while older ones are queued')
            P(hv == Hf(t(n - 1)), 'the mutex goes to the longest waiting request')
            P(qv == z3.If(n > 1, t(n - 2), 0), 'the remaining requests stay queued')
            i = z3.Int('i')
            P(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n - 1), z3.Select(g['NX'], t(i)) == z3.If(i == 0, 0, t(i - 1)))), 'the remaining requests stay queued in the order they arrived')
        else:
            P(m > 0, 'only a queued request is granted')
            P(hv == Hf(q(0)), 'the mutex goes to the longest waiting request')
            P(qv == z3.If(m > 1, q(1), 0), 'the remaining requests stay queued in order')
        st.setg('resumed', True); st.setg('holds', False)
        return None

def verify(V):
    mod = V.module('mutex.cpp'); M = Mutex(V, mod)
    def ctor(ex):
        M.learn(ex)
        ex.prove(State(), M.U != M.L, 'unlocked and locked are different states')
        for f, want in (('ctor', False), ('ctorl', True)):
            st = State(); r = ex.new_region(st, 'm', const(ex, mod, 'mx_size'))
            for s, k, v in ex.live(ex.exec_fn(st, M.F(f), [Ptr(r, 0)])):
                for s2, k2, v2 in ex.live(ex.exec_fn(s, M.F('is_locked'), [Ptr(r, 0)])):
                    ex.prove(s2, zb(v2) == want, 'constructed ' + ('locked' if want else 'unlocked'))
                for s2, k2, v2 in ex.live(ex.exec_fn(s, M.F('try_lock'), [Ptr(r, 0)])):
                    ex.prove(s2, zb(v2) == (not want), 'try_lock on a new mutex succeeds exactly if it was constructed unlocked')
                    for s3, k3, v3 in ex.exec_fn(s2, M.F('is_locked'), [Ptr(r, 0)]): ex.prove(s3, zb(v3), 'then it is locked')
    V.check('mutex.mutex', mod, ctor)
    if M.shape is None: return
    def q(ex):
        st = M.pre(ex, 'query')
        for s, k, v in ex.live(ex.exec_fn(st, M.F('is_locked'), [Ptr(M.reg, 0)])):
            ex.prove(s, Or(And(v, zb(s.ghost['seenN'])), And(Not(v), zb(s.ghost['seenU']))), 'is_locked reports the state of the mutex')
    V.check('mutex.is_locked', mod, q)
    def tl(ex):
        st = M.pre(ex, 'try_lock')
        for s, k, v in ex.live(ex.exec_fn(st, M.F('try_lock'), [Ptr(M.reg, 0)])):
            g = s.ghost
            ex.prove(s, k == 'ret' and zb(v) == zb(g['acquired']), 'try_lock reports exactly whether it locked the mutex')
            ex.prove(s, Or(zb(v), zb(g['saw_locked'])), 'try_lock fails only if the mutex was locked')
    V.check('mutex.try_lock', mod, tl)
    def lk(ex):
        st, a, H = M.lock_pre(ex)
        pre = []
        for s, k, v in ex.live(ex.exec_fn(st, M.F('ready'), [Ptr(a, 0)])):
            ex.prove(s, zb(v) == zb(s.ghost['acquired']), 'await_ready continues only if it locked the mutex')
            if v is False or (v is not True and ex.sat(s, Not(v))):
                s.assume(Not(v)); pre.append(s)
        for s0 in pre:
            for s, k, v in ex.live(ex.exec_fn(s0, M.F('suspend'), [Ptr(a, 0), H])):
                g = s.ghost
                ex.prove(s, k == 'ret', 'await_suspend does not throw')
                ex.prove(s, zb(v) == zb(g['published']), 'the coroutine stays suspended exactly if its request is queued')
                ex.prove(s, Or(zb(v), zb(g['acquired'])), 'continuing without suspending means the mutex was locked for it')
    V.check('mutex.lock await', mod, lk)
    def lres(ex):
        st, a, H = M.lock_pre(ex)
        for s, k, v in ex.live(ex.exec_fn(st, M.F('resume'), [Ptr(a, 0)])):
            ex.prove(s, k == 'ret' and not s.ghost['seenU'] and not s.ghost['seenN'], 'await_resume changes nothing')
    V.check('mutex.lock await_resume', mod, lres)
    def ul(ex):
        st = M.pre(ex, 'unlock', holds=True)
        I = z3.IntSort(); m = z3.Int('m'); qf = z3.Function('q', I, I); qi = z3.Function('qidx', I, I); i = z3.Int('i')
        st.assume(m >= 0)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(qi(qf(i)) == i, qf(i) > 0, qf(i) < 2 ** 47)), patterns=[qf(i)]))
        st.assume(z3.Implies(m > 0, z3.And(qi(qf(0)) == 0, qf(0) > 0)))
        M.q = (qf, qi); st.ghost['m'] = m
        st.fams = [QFam(M, qf, qi, m)]
        ex.poke(st, M.reg, M.qoff, SPtr(z3.If(m > 0, qf(0), 0)))
        for s, k, v in ex.live(ex.exec_fn(st, M.F('unlock'), [Ptr(M.reg, 0)])):
            g = s.ghost
            ex.prove(s, k == 'ret', 'unlock does not throw')
            ex.prove(s, Not(zb(g['holds'])), 'unlock gives the mutex up: it is unlocked or handed to a waiter')
    V.check('mutex.unlock', mod, ul)
    V.assume_note('only the holder calls unlock (documented precondition); the rely of unlock is that others only queue requests',
                  'a resumed coroutine may do anything, including unlock: the contract requires that nothing is touched after the hand-over')
