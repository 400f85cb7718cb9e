"""Contracts of the four event classes (and of anything built on them).

Abstract state of the event word:  UNSET (null) | SET (the event itself) | LIST (first record of the waiters).
Every atomic access lets all other threads act first (the word may hold any abstract value the protocol allows);
every write is checked against the transition relation below.  Waiter records live in a family s(0..n-1):
the list that was published link by link; next(s(i)) = s(i+1), handle = H(i), dispatcher = D(i), parent = the event.
"""
from vc.core import *
from vc.core import zi, zb
import z3, re

ACQ = ('acquire', 'acq_rel', 'seq_cst'); REL = ('release', 'acq_rel', 'seq_cst')

class Shape:
    """where the record of a suspended waiter keeps its fields (found by running the real await_suspend)"""
    def __init__(self): self.handle = set(); self.disp = set(); self.next = set(); self.parent = set()
    def __repr__(self): return 'handle@%s dispatcher@%s next@%s parent@%s' % (sorted(self.handle), sorted(self.disp), sorted(self.next), sorted(self.parent))

class Waiters:
    """the list of waiters this operation has taken"""
    def __init__(self, ev, n, k):
        self.ev = ev; self.n = n; self.k = k
        I = z3.IntSort()
        self.s = z3.Function('s%d' % k, I, I); self.idx = z3.Function('idx%d' % k, I, I)
        self.H = z3.Function('H%d' % k, I, I); self.D = z3.Function('D%d' % k, I, I)
    def at(self, i): return z3.If(zi(i) < zi(self.n), self.s(zi(i)), 0)
    def owns(self, ex, st, t):
        return z3.And(self.idx(t) >= 0, self.idx(t) < zi(self.n), self.s(self.idx(t)) == t)
    def d(self, st): return zi(st.ghost['delivered%d' % self.k])
    def load(self, ex, st, t, off, ty, loc):
        i = self.idx(t)
        ex.prove(st, i >= self.d(st), 'a waiter is not touched after it was resumed or queued', loc)
        ex.prove(st, zb(st.ghost['acq']), 'memory order: taking the waiters synchronises with the coroutine that published them (acquire)', loc)
        sh = self.ev.shape
        if off in sh.handle: return SPtr(self.H(i))
        if off in sh.disp: return SPtr(self.D(i))
        if off in sh.parent: return self.ev.this
        if off in sh.next: return SPtr(z3.If(i + 1 < zi(self.n), self.s(i + 1), 0))
        return ex.fresh_of(ty, 'waiterfield')
    def store(self, ex, st, t, off, v, ty, loc):
        raise ToolLimit('write into a taken waiter record')

class EventCell:
    def __init__(self, ev): self.ev = ev
    def observe(self, ex, st, kind):
        ev = self.ev; out = []
        if st.ghost.get('no_env'):   # sole owner
            return [(st, st.ghost['cell'])]
        s1 = st.clone(); s1.setg('last', 0); out.append((s1, 0))
        s2 = st.clone(); s2.setg('last', 1); out.append((s2, ev.this))
        if not (st.ghost.get('sole_waiter')):
            x = fresh_int('head')
            s3 = st.clone(); s3.setg('last', 2)
            s3.assume(z3.And(x > 0, x < 2 ** 47, x != ex.to_int(ev.this)))
            if ev.own is not None: s3.assume(x != ex.addr(ev.own))
            out.append((s3, SPtr(x)))
        return out
    def note(self, ex, st, cur, order, cls):
        """ghost: what this operation has seen"""
        if cls != 1:
            st.setg('saw_nonset', True); st.setg('gone', Or(st.ghost['gone'], st.ghost['saw_set']))
        if cls == 1: st.setg('saw_set', True)
        if order in ACQ:
            # acquiring the value of a set() or of a later read-modify-write of the same word (release sequence)
            st.setg('acqset', Or(st.ghost['acqset'], st.ghost['saw_set']))
            st.setg('acq', True)
        st.setg('nobs', True)
    def classify(self, st): return st.ghost['last']
    def on_load(self, ex, st, cur, order, loc):
        cls = self.classify(st)
        self.note(ex, st, cur, order, cls)
        ev = self.ev
        ev.obs(st, cls)
    def newclass(self, ex, st, new):
        ev = self.ev
        if ex.eq(new, 0) is True: return 0
        if ex.eq(new, ev.this) is True: return 1
        if ev.own is not None and ex.eq(new, Ptr(ev.own, 0)) is True: return 2
        for k, v in ((0, 0), (1, ev.this), (2, Ptr(ev.own, 0) if ev.own is not None else None)):
            if v is not None:
                c = ex.eq(new, v)
                if c is not False and ex.valid(st, c): return k
        return None
    def commit(self, ex, st, old, new, order, loc, kind):
        ev = self.ev; cls = self.classify(st)
        self.note(ex, st, old, order, cls)
        ev.obs(st, cls)
        nc = self.newclass(ex, st, new)
        P = lambda c, nm: ex.prove(st, c, nm, loc)
        if nc is None: ex.fail(st, 'event word: only unset, set or the own waiter record is ever stored', loc)
        if kind == 'store':
            # a blind store may overwrite anything the environment put there
            pass
        if nc == 2:
            st.setg('published', True)
            P(cls != 1, 'a waiter never queues itself on a set event (lost wake-up)')
            if not ev.multi: P(cls == 0, 'single consumer: at most one waiter is registered')
            P(order in REL, 'memory order: publishing the waiter record releases its contents')
            P(kind != 'store', 'publishing a waiter is one atomic step with reading the old state')
            ev.check_record(ex, st, old, loc)
            ex.getmem(st, ev.own).own = False
            st.setg('pub_count', ex.binop('add', st.ghost['pub_count'], 1, 64))
            return
        if cls == 2:
            # the waiters are taken
            P(ev.op == 'set', 'only set() removes waiters (no waiter is dropped)')
            P(kind != 'store', 'no waiter is dropped: taking the waiters is one atomic step with reading the state')
            P(zb(Not(st.ghost['taken'])), 'set() takes the waiters once')
            k = 1
            n = fresh_int('n') if ev.multi else 1
            w = Waiters(ev, n, k)
            if ev.multi: st.assume(n >= 1)
            i = z3.Int('i'); q = z3.Int('q')
            st.assume(w.s(0) == ex.to_int(old))
            rng = z3.And(i >= 0, i < zi(n))
            extra = [w.s(i) != ex.to_int(ev.this)]
            st.assume(z3.ForAll([i], z3.Implies(rng, z3.And(w.idx(w.s(i)) == i, w.s(i) > 0, w.s(i) < 2 ** 47, w.H(i) > 0, w.H(i) < 2 ** 47, w.D(i) >= 0, w.D(i) < 2 ** 47, *extra)), patterns=[w.s(i)]))
            st.assume(z3.And(w.idx(w.s(0)) == 0, w.s(0) > 0, w.H(0) > 0, w.H(0) < 2**47, w.D(0) >= 0, w.D(0) < 2**47))
            st.ghost['acq'] = order in ACQ
            st.ghost['taken'] = True
            st.ghost['w'] = w; st.ghost['delivered1'] = 0
            st.fams = st.fams + [w]
            if not ev.multi: st.ghost['sole_waiter'] = True   # the only consumer is suspended until it is resumed
        if nc == 1:
            P(ev.op == 'set', 'only set() sets the event')
            P(order in REL, 'memory order: set() releases what happened before it')
            if ev.auto and ev.multi: P(cls == 0, 'auto-reset: a signal delivered to waiters is not kept')
            st.setg('did_set', True); st.setg('pending_clear', zb(cls == 2) if False else (cls == 2))
        if nc == 0:
            if cls == 2:
                P(ev.auto, 'manual-reset: set() leaves the event set')
                st.setg('pending_clear', False)
            elif cls == 1:
                if ev.op == 'set':
                    P(ev.auto and zb(st.ghost['taken']) if ev.auto else False, 'set() does not clear the event')
                    if ev.auto: P(zb(st.ghost['pending_clear']), 'set() takes back at most its own signal, before the waiter it served runs')
                    st.setg('pending_clear', False); 
                elif ev.op == 'await':
                    P(ev.auto, 'awaiting a manual-reset event does not clear it')
                    P(zb(Not(st.ghost['consumed'])), 'one await consumes one signal')
                    st.setg('consumed', True)
                elif ev.op == 'reset':
                    st.setg('did_reset', True)
                else: P(False, 'a query does not change the event')
            elif cls == 0 and kind == 'store':
                pass
            if kind == 'store': P(cls != 1 or ev.op in ('reset',), 'no signal is overwritten')

class EventModel:
    def __init__(self, V, mod, prefix, multi, auto, latch=None):
        self.V = V; self.mod = mod; self.p = prefix; self.multi = multi; self.auto = auto
        self.own = None; self.op = None; self.shape = None; self.base = 0
        self.latch = latch; self.learning = False
    def F(self, n): return self.mod.funcs[self.p + '_' + n]
    def const(self, ex, n): 
        r = ex.exec_fn(State(), self.F(n), [])
        return r[0][2]
    def obs(self, st, cls):
        if self.auto and cls != 1: st.setg('pending_clear', False)
    # ---- pre-states
    def fresh_state(self, ex, op, disp=None):
        st = State(); self.op = op
        size = self.const(ex, 'size')
        self.reg = ex.new_region(st, 'event', size, 'obj', align=16)
        ex.addr(self.reg)
        self.this = Ptr(self.reg, self.base)
        self.own = None
        st.ghost.update(last=0, saw_set=False, gone=False, saw_nonset=False, acqset=False, acq=False, nobs=False, published=False, pub_count=0, taken=False,
                        did_set=False, did_reset=False, consumed=False, pending_clear=False, delivered1=0, sole_waiter=False, inclosure=False)
        if hasattr(self, 'moff'):
            st.shared[(self.reg.id, self.moff)] = EventCell(self)
            if self.latch: self.latch.add(ex, st)
        ex.hooks['resume'] = self.h_resume
        ex.vcall = self.h_vcall
        ex.iface = iface_dispatcher
        self.setter_disp = disp
        ex.ptr_templates = [self.templates]
        ex.loop_cands = [self.cands]
        return st
    def templates(self, ex, st):
        w = st.ghost.get('w')
        if w is None: return [('null', z3.IntVal(0))]
        return [('next undelivered waiter', w.at(w.d(st))), ('null', z3.IntVal(0))]
    def cands(self, ex, st, env, L):
        out = []
        w = st.ghost.get('w')
        if w is not None:
            out.append(('0 <= delivered <= n', z3.And(w.d(st) >= 0, w.d(st) <= zi(w.n))))
            out.append(('delivered < n', z3.And(w.d(st) >= 0, w.d(st) < zi(w.n))))
        for k in ('taken', 'did_set', 'consumed', 'published', 'pending_clear', 'saw_nonset', 'acqset', 'acq', 'did_reset', 'saw_set'):
            v = st.ghost[k]
            if isz(v):
                out.append((k, v)); out.append(('not ' + k, z3.Not(v)))
        for kind, nm, v in L.slots:
            if kind == 'ptr':
                t = ex.to_int(v); this = ex.to_int(self.this)
                out.append(('%s is set => set was observed with acquire' % nm, z3.Implies(t == this, zb(st.ghost['acqset']))))
                out.append(('%s is set => set was observed' % nm, z3.Implies(t == this, zb(st.ghost['saw_set']))))
                out.append(('%s is not set => unset was observed' % nm, z3.Implies(t != this, zb(st.ghost['saw_nonset']))))
        return out
    # ---- delivery
    def deliver(self, ex, st, h, via, loc):
        w = st.ghost.get('w')
        if w is None or not ex.valid(st, zb(st.ghost['taken'])):
            ex.fail(st, 'only coroutines taken from the event are resumed', loc)
        d = w.d(st)
        ex.prove(st, d < zi(w.n), 'each waiter is delivered at most once', loc)
        ex.prove(st, ex.to_int(h) == w.H(d), 'the coroutine delivered is the next waiter taken', loc)
        if self.auto: ex.prove(st, Not(zb(st.ghost['pending_clear'])), 'auto-reset: the signal is taken back before the waiter it released can run', loc)
        D = w.D(d); R = ex.to_int(self.setter_disp) if self.setter_disp is not None else z3.IntVal(0)
        eff = z3.If(D != 0, D, R)
        v = z3.IntVal(0) if via is None else ex.to_int(via)
        ex.prove(st, eff == v, 'the waiter is delivered on its dispatcher, else on that of set(), else inline', loc)
        st.setg('delivered1', d + 1)
    def h_resume(self, ex, st, h, loc):
        if st.ghost['inclosure'] is not False:
            st.ghost['inclosure'] = st.ghost['inclosure'] + [h]; return None
        self.deliver(ex, st, h, None, loc); return None
    def h_vcall(self, ex, st, slot, args, loc):
        # dispatcher::push(std::function) on an opaque dispatcher
        fn = args[1]
        hs = run_closure(ex, st, fn, loc)
        ex.prove(st, len(hs) == 1, 'the queued callback resumes exactly one coroutine', loc)
        self.deliver(ex, st, hs[0], args[0], loc)
        return [(st, 'ret', None)]
    # ---- the waiter's record
    def learn(self, ex):
        """find the event word and the layout of a waiter record by running the real code"""
        st = State(); r = ex.new_region(st, 'ev', self.const(ex, 'size')); this = Ptr(r, 0)
        outs = ex.exec_fn(st, self.F('ctor'), [this, True])
        st = outs[0][0]
        offs = [o for o, (sz, v) in st.mem[r.id].cells.items() if isinstance(v, Ptr) and v.r is r]
        if len(offs) != 1 or len(outs) != 1: raise ToolLimit('event word not identified: %s' % offs)
        self.moff = offs[0]
        self.shape = None
        self.learning = True
        cap = []
        self.cap = cap
        for st, a, H, D in [self.suspended_pre(ex)]:
            ex.trial += 1
            try: ex.exec_fn(st, self.F('suspend'), [Ptr(a, 0), H])
            finally: ex.trial -= 1
        self.learning = False
        sh = Shape()
        first = True
        for c in cap:
            got = Shape()
            for off, kind in c: getattr(got, kind).add(off)
            if first: sh = got; first = False
            else:
                for k in ('handle', 'disp', 'parent', 'next'): setattr(sh, k, getattr(sh, k) & getattr(got, k))
        self.shape = sh
    def suspended_pre(self, ex):
        st = self.fresh_state(ex, 'await')
        a = ex.new_region(st, 'awaiter', self.const(ex, 'asize'), 'obj')
        ex.addr(a)
        D = SPtr(z3.Int('Dwait')); H = SPtr(z3.Int('Hself'))
        st.assume(z3.And(z3.Int('Dwait') >= 0, z3.Int('Dwait') < 2 ** 47, z3.Int('Hself') > 0, z3.Int('Hself') < 2 ** 47))
        outs = ex.exec_fn(st, self.F('wait'), [Ptr(self.reg, 0), D, Ptr(a, 0)])
        if len(outs) != 1: raise ToolLimit('wait() has several outcomes')
        st = outs[0][0]
        self.own = a; self.H = H; self.D = D
        if not self.multi: st.ghost['sole_waiter'] = True
        return st, a, H, D
    def check_record(self, ex, st, old, loc):
        cells = st.mem[self.own.id].cells
        def eqv(v, w):
            if isinstance(v, bool) : return False
            c = ex.eq(v, w)
            return c is True or (c is not False and ex.valid(st, c))
        if self.learning:
            c = []
            for off, (sz, v) in cells.items():
                if sz != 8: continue
                if eqv(v, self.H): c.append((off, 'handle'))
                elif eqv(v, self.D): c.append((off, 'disp'))
                elif eqv(v, self.this): c.append((off, 'parent'))
                elif eqv(v, old): c.append((off, 'next'))
            self.cap.append(c); return
        sh = self.shape
        def field(offs, w, nm):
            if not offs: ex.fail(st, nm, loc)
            for o in offs:
                c = cells.get(o)
                v = c[1] if c else None
                if v is None: ex.fail(st, nm, loc)
                else: ex.prove(st, ex.eq(v, w), nm, loc)
        field(sh.handle, self.H, 'the published record holds the handle of the suspending coroutine')
        field(sh.disp, self.D, 'the published record holds the requested dispatcher')
        if self.multi: field(sh.next, old, 'the published record links to the previous waiters (none is dropped)')
        for o in sh.parent: ex.prove(st, ex.eq(cells[o][1], self.this), 'the published record belongs to this event', loc)
    # ---- contracts
    def verify_ctor(self):
        def body(ex):
            self.learn(ex)
            for init in (True, False):
                st = State(); r = ex.new_region(st, 'ev', self.const(ex, 'size')); 
                outs = ex.live(ex.exec_fn(st, self.F('ctor'), [Ptr(r, 0), init]))
                for s, k, v in outs:
                    ex.prove(s, ex.eq(s.mem[r.id].cells[self.moff][1], Ptr(r, 0) if init else 0), 'constructed %s' % ('set' if init else 'unset'))
        self.V.check(self.p + '.constructor', self.mod, body)
    def ok(self): return self.shape is not None
    def verify_queries(self):
        for q in ('is_set', 'is_awaited'):
            def body(ex, q=q):
                st = self.fresh_state(ex, 'query')
                st.ghost['seen'] = ()
                cell = st.shared[(self.reg.id, self.moff)]
                old = cell.on_load
                def onl(ex_, s, cur, order, loc):
                    s.ghost['seen'] = s.ghost['seen'] + (s.ghost['last'],)
                cell.on_load = onl
                outs = ex.live(ex.exec_fn(st, self.F(q), [Ptr(self.reg, 0)]))
                for s, k, v in outs:
                    want = 1 if q == 'is_set' else 2
                    hits = [c == want for c in s.ghost['seen']]
                    # some single observation must justify the answer
                    ex.prove(s, Or(And(v, any(hits)), And(Not(v), any(not h for h in hits))), '%s reports the state the event had at some moment of the call' % q)
            self.V.check('%s.%s' % (self.p, q), self.mod, body)
    def verify_set(self, fn='set'):
        def body(ex):
            disp = SPtr(z3.Int('Rset')) if fn == 'set' else None
            st = self.fresh_state(ex, 'set', disp)
            args = [Ptr(self.reg, 0)]
            if disp is not None:
                st.assume(z3.And(z3.Int('Rset') >= 0, z3.Int('Rset') < 2 ** 47)); args.append(disp)
            outs = ex.live(ex.exec_fn(st, self.F(fn), args))
            for s, k, v in outs:
                if k == 'stop': continue
                ex.prove(s, k == 'ret', 'set() does not throw')
                self.post_set(ex, s, v)
        self.V.check('%s.%s' % (self.p, fn), self.mod, body)
    def post_set(self, ex, s, v):
        g = s.ghost
        taken = zb(g['taken'])
        if 'w' in g:
            w = g['w']
            ex.prove(s, z3.Implies(taken, w.d(s) == zi(w.n)), 'every waiter taken is delivered')
            if v is not None: ex.prove(s, z3.Implies(taken, zb(v)), 'set() reports true when it took waiters')
        if v is not None: ex.prove(s, Implies(Not(taken), Not(v)), 'set() reports false when nobody was waiting')
        if self.auto:
            ex.prove(s, Or(taken, zb(g['did_set']), zb(g['saw_set'])), 'set() without waiter leaves the event set')
            if not self.multi: ex.prove(s, Not(zb(g['pending_clear'])), 'auto-reset: a signal that released a waiter is not left behind')
        else:
            ex.prove(s, Or(zb(g['did_set']), And(zb(g['saw_set']), Not(taken))), 'set() leaves the event set')
    def verify_reset(self):
        def body(ex):
            st = self.fresh_state(ex, 'reset')
            outs = ex.live(ex.exec_fn(st, self.F('reset'), [Ptr(self.reg, 0)]))
            for s, k, v in outs:
                ex.prove(s, k == 'ret', 'reset() does not throw')
                ex.prove(s, Or(zb(s.ghost['did_reset']), zb(s.ghost['saw_nonset'])), 'after reset() the event was seen not set')
        self.V.check(self.p + '.reset', self.mod, body)
    def verify_await(self):
        def ready(ex):
            st, a, H, D = self.suspended_pre(ex)
            st.ghost['sole_waiter'] = not self.multi
            outs = ex.live(ex.exec_fn(st, self.F('ready'), [Ptr(a, 0)]))
            for s, k, v in outs:
                g = s.ghost
                self.post_continue(ex, s, v, 'await_ready')
                ex.prove(s, Not(zb(g['published'])), 'await_ready does not register the waiter')
                if self.auto: ex.prove(s, Or(v, Not(zb(g['consumed']))), 'await_ready that does not continue leaves the signal')
        self.V.check(self.p + '.await_ready', self.mod, ready)
        def susp(ex):
            st, a, H, D = self.suspended_pre(ex)
            # await_ready ran before; the waiter's record is whatever wait() and await_ready left
            outs0 = ex.exec_fn(st, self.F('ready'), [Ptr(a, 0)])
            pre = []
            for s, k, v in outs0:
                if v is True: continue
                if v is not False:
                    s.assume(Not(v))
                    if not ex.sat(s): continue
                for q in ('gone', 'saw_set', 'saw_nonset', 'acqset', 'acq', 'consumed', 'published'): s.ghost[q] = False
                pre.append(s)
            seen = set()
            for s in pre[:1] if len({str(sorted((o, str(c)) for o, c in s.mem[a.id].cells.items())) for s in pre}) == 1 else pre:
                outs = ex.live(ex.exec_fn(s, self.F('suspend'), [Ptr(a, 0), H]))
                for s, k, v in outs:
                    g = s.ghost
                    ex.prove(s, k == 'ret', 'await_suspend does not throw')
                    ex.prove(s, Or(Not(v), zb(g['published'])), 'a coroutine that stays suspended is registered with the event (no lost waiter)')
                    ex.prove(s, Or(v, Not(zb(g['published']))), 'a registered coroutine stays suspended until it is resumed')
                    self.post_continue(ex, s, Not(v), 'await_suspend')
                    if self.auto: ex.prove(s, Or(Not(v), Not(zb(g['consumed']))), 'a coroutine that stays suspended has consumed no signal')
        self.V.check(self.p + '.await_suspend', self.mod, susp)
        def cow(ex):
            st = self.fresh_state(ex, 'await')
            cur = ex.exec_fn(st, self.F('current'), [])[0]
            st = cur[0]; D = cur[2]
            st.assume(z3.And(ex.to_int(D) >= 0))
            a = ex.new_region(st, 'awaiter', self.const(ex, 'asize')); ex.addr(a)
            outs = ex.live(ex.exec_fn(st, self.F('coawait'), [Ptr(self.reg, 0), Ptr(a, 0)]))
            for s, k, v in outs:
                for o in self.shape.disp:
                    c = s.mem[a.id].cells.get(o)
                    ex.prove(s, ex.eq(c[1], D) if c else False, 'awaiting directly asks for the current dispatcher of the thread')
                for o in self.shape.parent:
                    c = s.mem[a.id].cells.get(o)
                    ex.prove(s, ex.eq(c[1], self.this) if c else False, 'the awaiter refers to this event')
                if not self.shape.disp: ex.fail(s, 'the awaiter records a dispatcher')
        self.V.check(self.p + '.co_await', self.mod, cow)
        def res(ex):
            st, a, H, D = self.suspended_pre(ex)
            outs = ex.live(ex.exec_fn(st, self.F('resume'), [Ptr(a, 0)]))
            for s, k, v in outs: ex.prove(s, k == 'ret' and not s.ghost['published'] and not s.ghost['consumed'], 'await_resume changes nothing')
        self.V.check(self.p + '.await_resume', self.mod, res)
    def post_continue(self, ex, s, cont, nm):
        g = s.ghost
        if self.auto:
            # the only consumer may also find that a concurrent reset took the signal it has already seen
            ok = zb(g['consumed']) if self.multi else Or(zb(g['consumed']), zb(g['gone']))
            ex.prove(s, Or(Not(cont), ok), '%s: continuing without suspending consumes the signal' % nm)
        else:
            ex.prove(s, Or(Not(cont), zb(g['saw_set'])), '%s: continues without suspending only if the event is set' % nm)
        ex.prove(s, Or(Not(cont), zb(g['acqset'])), 'memory order: %s continuing synchronises with the set() it saw (acquire)' % nm)
    def all(self):
        self.V.report = lambda n: 'delivered on its dispatcher' not in n and 'requested dispatcher' not in n and 'current dispatcher' not in n
        self.verify_ctor()
        if not self.ok(): return
        self.verify_queries(); self.verify_set(); self.verify_set('set0'); self.verify_reset(); self.verify_await()

def iface_dispatcher(ex, st, p):
    # a pointer that only ever is a dispatcher: the field of a waiter or the argument / current dispatcher
    n = p.t.decl().name() if isz(p.t) else ''
    return 'dispatcher' if re.match(r'D\d+$|R|Dwait|cur|g__|disp', n) else None

def run_closure(ex, st, fn, loc):
    """execute a std::function<void()> the way a dispatcher does later: its captures only, the caller's stack is gone.
    Returns the handles it resumes; the state is left as before except that the function object was moved out."""
    P = ex.mk_ptr()
    inv = ex.raw_load(st, Ptr(fn.r, fn.off + 24), P)
    mgr = ex.raw_load(st, Ptr(fn.r, fn.off + 16), P)
    if not isinstance(inv, FnPtr) or not isinstance(mgr, FnPtr): raise ToolLimit('queued function is not known: %r' % (inv,))
    s = st.clone()
    box = ex.new_region(s, 'queued', 32, 'heap')
    for o in (0, 8):
        c = st.mem[fn.r.id].cells
        for oo, (sz, v) in c.items():
            if fn.off + o <= oo < fn.off + o + 8: s.mem[box.id].cells[oo - fn.off] = (sz, v)
    if getattr(fn.r, 'kind', '') == 'stack' or True:
        # find all stack objects of the caller
        for rid in list(s.mem):
            if rid in ex.stackids: s.mem[rid].alive = False
    s.ghost['inclosure'] = []
    w = s.writes; s.writes = None
    outs = ex.exec_fn(s, ex.mod.funcs[inv.name], [Ptr(box, 0)])
    outs = [o for o in outs if ex.sat(o[0])]
    if len(outs) != 1: raise ToolLimit('queued callback has %d outcomes' % len(outs))
    hs = outs[0][0].ghost['inclosure']
    # moved out
    ex.put(st, fn.r, fn.off + 16, 8, 0)
    return hs
