"""queue<T>: bounded queue with waiting pops and pushes"""
from .wlist import *
class Queue(WL):
    def containers(self, ex):
        self.sq = Seqs(ex, self.T, throws=False); self.sq.guard = self.seqguard
    def parent(self, it, i, v): return SPtr(z3.Function('Par%d' % it.k, I, I)(i))     # the queue may have been moved since
    def seqguard(self, ex, st, k, write, loc):
        if k[0] in getattr(self, 'regof', {}) and not self.learning:
            ex.prove(st, (k[0], self.mo) in st.ghost['held'], 'the buffer is only accessed with the lock held', loc)
    def construct(self, ex, st, r, X=None):
        cap = z3.Int('capsym'); d = addr_sym(ex, st, 'Q_disp', False); st.assume(And(cap == 1, d.t > 0))
        st = [o for o in ex.exec_fn(st, self.F('q_ctor'), [Ptr(r, 0), cap, d])][0][0]
        c = st.mem[r.id].cells
        a = [o for o, (sz, v) in c.items() if isz(v) and same(v, cap)]; b = [o for o, (sz, v) in c.items() if isinstance(v, SPtr) and same(v.t, d.t)]
        e = [int(k.split(':')[2]) for k in st.ghost if k.startswith('seq:%d:' % r.id) and k.endswith(':h')]
        if len(a) != 1 or len(b) != 1 or len(e) != 1: raise ToolLimit('queue fields not identified')
        self.capo, self.dspo, self.co = a[0], b[0], e[0]
        if X == 'U':
            v = ex.new_region(st, 'v', 16); ex.put(st, v, 0, 8, 5)
            o = [o for o in ex.exec_fn(st, self.F('q_trypush'), [Ptr(r, 0), Ptr(v, 0)]) if ex.sat(o[0])]
            if len(o) != 1: raise ToolLimit('learning: try_push')
            st = o[0][0]
        return st
    def protected(self, off, size): return WL.protected(self, off, size) or any(o < off + size and o + 8 > off for o in (self.capo, self.dspo))
    def acquire(self, ex, st, r, sec, loc):
        n = len(ex.insts); A, h, t = self.sq.init(st, (r.id, self.co), empty=False, name='q%d' % n)
        ex.qinst[A.decl().name()] = lambda i: Implies(And(i >= h, i < t), And(z3.Select(A, i) > 0, z3.Select(A, i) < 2 ** 60))
        cap = fresh_int('cap'); d = addr_sym(ex, st, 'Q_disp%d' % n, False)
        ex.put(st, r, self.capo, 8, cap); ex.put(st, r, self.dspo, 8, d)
        nP, nU = sec['P'].n, sec['U'].n
        st.assume(And(cap >= 1, cap < 2 ** 64, t - h <= cap, t - h < 2 ** 40, Implies(nP > 0, And(t == h, nU == 0)), Implies(nU > 0, t - h == cap)))
        st.ghost['pre%d' % r.id] = (A, h, t, cap, d)
    def release(self, ex, st, r, sec, res, post, loc):
        A, h, t = self.sq.flush(st, (r.id, self.co)); A0, h0, t0, cap0, d0 = st.ghost['pre%d' % r.id]
        cap = zi(ex.peek(st, r, self.capo)); d = ex.peek(st, r, self.dspo); i = fresh_int('sk')
        sz = t - h; nP, nU = post['P'], post['U']
        ex.prove(st, Implies(And(i >= h, i < t), z3.Select(A, i) > 0), 'every buffered element holds a value (none was moved out and left)', loc)
        ex.prove(st, sz <= cap, 'the buffer never holds more than capacity values', loc)
        ex.prove(st, Implies(nP > 0, And(sz == 0, nU == 0)), 'a pop waits only while nothing is available', loc)
        ex.prove(st, Implies(nU > 0, sz == cap), 'a push waits only while the buffer is full', loc)
        moved = [x for x in res.values() if isinstance(x, tuple)]
        if self.op != 'assign': ex.prove(st, And(cap == cap0, ex.eq(d, d0)), 'capacity and dispatcher of the queue stay', loc)
        return dict(pre=(A0, h0, t0, cap0, d0), post=(A, h, t, cap, d))
    def owndisp(self, ex, st):
        # the queue's dispatcher at the moment of queueing
        q = SPtr(ex.to_int(st.ghost['pre%d' % self.objs[0].id][4]))
        return SPtr(z3.If(self.D.t != 0, self.D.t, q.t))
    def expect(self, ex, st, it, d, res, tok, loc):
        if self.op in ('push', 'try_push'):
            ex.prove(st, it.X == 'P' and res, 'the waiting pop receives a value', loc)
            if res and it.X == 'P': ex.prove(st, tok == self.Vt, 'the waiting pop receives exactly the value that was pushed', loc)
        elif self.op in ('pop', 'try_pop'): ex.prove(st, it.X == 'U' and res, 'a waiting push whose value was taken into the buffer is told so', loc)
        elif self.op in ('clear', 'assign'): ex.prove(st, not res, 'pending operations that are dropped fail', loc)
        else: ex.prove(st, False, 'only push, pop, clear and move assignment resume waiters', loc)
    def more_cands(self, ex, st, env, L):
        out = []
        for k in [k for k in st.ghost if k.startswith('seq:') and k.endswith(':h')]:
            out.append(('buffer bounds', zi(st.ghost[k]) <= zi(st.ghost[k[:-1] + 't'])))
        ints = [(nm, v) for kind, nm, v in L.slots if not isinstance(v, (Ptr, SPtr, FnPtr)) and (isinstance(v, int) and not isinstance(v, bool) or isz(v) and z3.is_int(v))]
        ptrs = [(nm, v) for kind, nm, v in L.slots if isinstance(v, (Ptr, SPtr))]
        for r in self.objs:
            p = st.ghost.get('pre%d' % r.id)
            if not p: continue
            for bn, b in (('0', z3.IntVal(0)), ('buffered', p[2] - p[1])):
                for cn, c in ints:
                    for pn, q in ptrs:
                        for it in ex.insts:
                            if 'del%d' % it.k in st.ghost and it.g(st, 'open') is True:
                                j = zi(c) - b
                                out.append(('%s is waiter %s-%s of %s%d' % (pn, cn, bn, it.X, it.k), And(j >= 0, j <= it.n, ex.to_int(q) == it.at(j))))
        return out
def trans(s): return [(X, x['tr'][X]) for x in s.ghost['secs'] for X in ('P', 'U') if x['tr'][X] != 'same']
def same_seq(a, b):
    i = fresh_int('sk')
    return And(a[2] - a[1] == b[2] - b[1], Implies(And(i >= 0, i < a[2] - a[1]), z3.Select(a[0], a[1] + i) == z3.Select(b[0], b[1] + i)))
def verify(V):
    mod = V.module('queue.cpp')
    M = Queue(V, mod, 'q_size_', {'P': Kind('P', 'q_psize', 'q_pop', 'q_pready', 'q_psuspend', 'q_presume', False, True),
                                  'U': Kind('U', 'q_usize', 'q_push', 'q_uready', 'q_ususpend', 'q_uresume', True, False)})
    F = M.F
    def start(ex, op, nobj=1, learnonly=False):
        if M.templ is None: M.learn(ex)
        M.op = op
        return M.pre(ex, nobj)
    def split(ex, s, v):
        for b in (True, False):
            c = zb(v) if b else Not(zb(v))
            if ex.sat(s, c): s2 = s.clone(); s2.assume(c); yield b, s2
    def eff(ex, s): return [x for x in s.ghost['secs'] if x['tr']['P'] != 'same' or x['tr']['U'] != 'same' or not ex.valid(s, And(x['extra']['post'][1] == x['extra']['pre'][1], same_seq(x['extra']['pre'], x['extra']['post'])))]
    def nothing(ex, s, name): ex.prove(s, not eff(ex, s), name)
    def one(ex, s, name):
        e = eff(ex, s); ex.prove(s, len(e) == 1, name)
        return e[0] if len(e) == 1 else None
    def some(ex, s, name, f): ex.prove(s, Or(*[f(x) for x in s.ghost['secs']]) if s.ghost['secs'] else False, name)
    full = lambda x: x['extra']['pre'][2] - x['extra']['pre'][1] == x['extra']['pre'][3]
    empty = lambda x: x['extra']['pre'][2] == x['extra']['pre'][1]
    def put_ok(ex, s):
        """value accepted: handed to the longest waiting pop, or appended behind everything else"""
        x = one(ex, s, 'an accepted value has exactly one effect')
        if x is None: return
        pre, post = x['extra']['pre'], x['extra']['post']; tp, tu = x['tr']['P'], x['tr']['U']
        ex.prove(s, tu == 'same', 'accepting a value leaves the waiting pushes alone')
        if tp == 'pop1': ex.prove(s, same_seq(pre, post), 'a value handed to a waiting pop is not buffered as well')
        else:
            i = fresh_int('sk'); n = pre[2] - pre[1]
            ex.prove(s, tp == 'same' , 'an accepted value is handed to the longest waiting pop only')
            ex.prove(s, x['inst']['P'].n == 0, 'a value is buffered only if no pop waits')
            ex.prove(s, x['inst']['U'].n == 0, 'a value never overtakes a waiting push')
            ex.prove(s, And(post[2] - post[1] == n + 1, z3.Select(post[0], post[2] - 1) == M.Vt, Implies(And(i >= 0, i < n), z3.Select(post[0], post[1] + i) == z3.Select(pre[0], pre[1] + i))), 'an accepted value is buffered behind all others')
    def take_ok(ex, s, tok):
        x = one(ex, s, 'a successful pop has exactly one effect')
        if x is None: return
        pre, post = x['extra']['pre'], x['extra']['post']; tp, tu = x['tr']['P'], x['tr']['U']; U = x['inst']['U']
        i = fresh_int('sk'); n = pre[2] - pre[1]
        ex.prove(s, And(n > 0, tok == z3.Select(pre[0], pre[1])), 'pop returns the oldest value')
        ex.prove(s, tp == 'same', 'a pop leaves other waiting pops alone')
        ex.prove(s, Implies(And(i >= 0, i < n - 1), z3.Select(post[0], post[1] + i) == z3.Select(pre[0], pre[1] + 1 + i)), 'pop removes exactly the oldest value and keeps the order')
        if tu == 'pop1': ex.prove(s, And(post[2] - post[1] == n, z3.Select(post[0], post[2] - 1) == U.V(0)), 'the value of the longest waiting push is buffered behind all others when room is made')
        else:
            ex.prove(s, tu == 'same', 'room for one value serves the longest waiting push only')
            ex.prove(s, And(post[2] - post[1] == n - 1, U.n == 0), 'pop removes exactly one value; a waiting push takes the room')
    def val(ex, st, emplace=False):
        v = ex.new_region(st, 'v', 16); M.Vt = z3.Int('Vown'); st.assume(M.Vt > 0); ex.put(st, v, 0, 8, M.Vt); return Ptr(v, 0)
    def trypush(ex):
        st = start(ex, 'try_push'); a = val(ex, st)
        for s, k, r in ex.live(ex.exec_fn(st, F('q_trypush'), [Ptr(M.objs[0], 0), a])):
            ex.prove(s, k == 'ret', 'try_push does not throw'); M.done(ex, s)
            for b, s2 in split(ex, s, r):
                if b: put_ok(ex, s2)
                else: nothing(ex, s2, 'a failing try_push changes nothing'); some(ex, s2, 'try_push fails only if the buffer is full', full)
    V.check('queue.try_push', mod, trypush)
    def tryempl(ex):
        st = start(ex, 'try_push'); x = z3.Int('x'); st.assume(And(x >= 0, x < 2 ** 63)); M.Vt = M.T.make(st, [x]); M.T.throws = {'other'}; M.sq.throws = True
        M.T.other = lambda ex_, s, m, ps, a, loc: ([(s.clone(), 'throw', Exc(None, fresh_int('exc'))), (M.T.put(s, a[0], M.T.make(s, a[1:]), loc), (s, 'ret', None))[1]] if ps.startswith('long') else NotImplemented)
        for s, k, r in ex.live(ex.exec_fn(st, F('q_tryempl'), [Ptr(M.objs[0], 0), x])):
            M.done(ex, s)
            if k == 'throw': nothing(ex, s, 'try_emplace that throws changes nothing'); continue
            for b, s2 in split(ex, s, r):
                if b: put_ok(ex, s2)
                else: nothing(ex, s2, 'a failing try_emplace changes nothing'); some(ex, s2, 'try_emplace fails only if the buffer is full', full)
    V.check('queue.try_emplace', mod, tryempl)
    def trypop(ex):
        st = start(ex, 'try_pop'); out = ex.new_region(st, 'out', 16)
        for s, k, r in ex.live(ex.exec_fn(st, F('q_trypop'), [Ptr(M.objs[0], 0), Ptr(out, 0)])):
            ex.prove(s, k == 'ret', 'try_pop does not throw'); M.done(ex, s)
            for b, s2 in split(ex, s, r):
                if b: take_ok(ex, s2, M.T.get(s2, Ptr(out, 0)))
                else: nothing(ex, s2, 'a failing try_pop changes nothing'); some(ex, s2, 'try_pop fails only if nothing is available', empty)
    V.check('queue.try_pop', mod, trypop)
    def wait(op, X):
        K = M.kinds[X]
        def body(ex):
            st = start(ex, op); st, a = M.awaiting(ex, st, X)
            for s, k, v in ex.live(ex.exec_fn(st, F(K.ready), [Ptr(a, 0)])):
                ex.prove(s, k == 'ret', 'await_ready does not throw')
                for b, s2 in split(ex, s, v):
                    if b:
                        M.done(ex, s2)
                        for s3, res, tok in M.result(ex, s2.clone(), K, a):
                            ex.prove(s3, res, 'an operation that does not wait succeeds')
                            if res: (put_ok(ex, s3) if X == 'U' else take_ok(ex, s3, tok))
                        continue
                    for s3, k3, v3 in ex.live(ex.exec_fn(s2, F(K.suspend), [Ptr(a, 0), M.H])):
                        ex.prove(s3, k3 == 'ret', 'await_suspend does not throw'); M.done(ex, s3)
                        for b4, s4 in split(ex, s3, v3):
                            if b4:
                                x = one(ex, s4, 'a coroutine that stays suspended is queued exactly once')
                                if x is None: continue
                                ex.prove(s4, trans(s4) == [(X, 'append')], 'a coroutine that stays suspended is queued behind all others (and only then)')
                                ex.prove(s4, same_seq(x['extra']['pre'], x['extra']['post']), 'waiting does not change the buffer')
                                if X == 'U': ex.prove(s4, And(full(x), x['inst']['P'].n == 0), 'push waits only if the buffer is full')
                                else: ex.prove(s4, And(empty(x), x['inst']['U'].n == 0), 'pop waits only if nothing is available')
                            else:
                                for s5, res, tok in M.result(ex, s4.clone(), K, a):
                                    ex.prove(s5, res, 'an operation that does not wait succeeds')
                                    if res: (put_ok(ex, s5) if X == 'U' else take_ok(ex, s5, tok))
        V.check('queue.' + op, mod, body)
        def mk0(ex):
            st = start(ex, op); cur = ex.exec_fn(st, F('q_current'), [])[0]; st = cur[0]; D = cur[2]
            a = ex.new_region(st, 'awaiter', const(ex, mod, K.size)); args = [Ptr(M.objs[0], 0), Ptr(a, 0)]
            if K.value: v = ex.new_region(st, 'v', 16); ex.put(st, v, 0, 8, 7); args.append(Ptr(v, 0))
            for s, k, v in rets(ex, ex.exec_fn(st, F(K.mk + '0'), args)):
                for o, (sz, kind, _) in M.templ[X].items():
                    if kind == 'D': ex.prove(s, ex.eq(s.mem[a.id].cells[o][1], D), 'without resume_on the coroutine resumes on the current dispatcher')
                    if kind == 'V': ex.prove(s, zi(s.mem[a.id].cells[o][1]) == 7, 'the push holds the value it was given')
                ex.prove(s, s.ghost['secs'] == [], 'creating the awaiter does nothing to the queue')
        V.check('queue.%s awaiter' % op, mod, mk0)
    wait('push', 'U'); wait('pop', 'P')
    def size(ex):
        st = start(ex, 'query')
        for s, k, v in ex.live(ex.exec_fn(st, F('q_size'), [Ptr(M.objs[0], 0)])):
            ex.prove(s, k == 'ret', 'size does not throw'); M.done(ex, s); nothing(ex, s, 'size changes nothing')
            some(ex, s, 'size is the number of buffered values plus waiting pushes', lambda x: zi(v) == x['extra']['pre'][2] - x['extra']['pre'][1] + x['inst']['U'].n)
    V.check('queue.size', mod, size)
    def empt(ex):
        st = start(ex, 'query')
        for s, k, v in ex.live(ex.exec_fn(st, F('q_empty'), [Ptr(M.objs[0], 0)])):
            ex.prove(s, k == 'ret', 'empty does not throw'); M.done(ex, s); nothing(ex, s, 'empty changes nothing')
            some(ex, s, 'empty tells whether size is zero', lambda x: zb(v) == And(x['extra']['pre'][2] == x['extra']['pre'][1], x['inst']['U'].n == 0))
    V.check('queue.empty', mod, empt)
    def clear(ex):
        st = start(ex, 'clear')
        for s, k, v in ex.live(ex.exec_fn(st, F('q_clear'), [Ptr(M.objs[0], 0)])):
            ex.prove(s, k == 'ret', 'clear does not throw'); M.done(ex, s)
            some(ex, s, 'clear drops all buffered and waiting values', lambda x: And(x['extra']['post'][1] == x['extra']['post'][2], Or(x['tr']['U'] == 'all', x['inst']['U'].n == 0)))
            ex.prove(s, all(t == ('U', 'all') for t in trans(s)), 'clear leaves waiting pops alone')
    V.check('queue.clear', mod, clear)
    def ctor(ex):
        M.templ or M.learn(ex); M.base(ex); M.learning = True; st = State(); r = ex.new_region(st, 'q', const(ex, mod, 'q_size_'))
        cap = z3.Int('cap'); st.assume(And(cap >= 0, cap < 2 ** 64)); d = addr_sym(ex, st, 'D', False)
        for s, k, v in rets(ex, ex.exec_fn(st, F('q_ctor'), [Ptr(r, 0), cap, d])):
            c = s.mem[r.id].cells; A, h, t = M.sq.get(s, (r.id, M.co))
            ex.prove(s, And(ex.eq(c[M.heads['P']][1], 0), ex.eq(c[M.heads['U']][1], 0), zi(h) == zi(t)), 'a new queue is empty and nobody waits')
            ex.prove(s, And(zi(c[M.capo][1]) == cap, ex.eq(c[M.dspo][1], d)), 'a new queue has the given capacity and dispatcher')
        M.learning = False
    V.check('queue.queue()', mod, ctor)
    def carried(ex, s, x, src, seq, cap, dsp):
        pre, post = x['extra']['pre'], x['extra']['post']
        ex.prove(s, same_seq(pre, seq), 'a move carries over exactly the buffered values, in order')
        ex.prove(s, post[1] == post[2], 'a queue that was moved from holds no values')
        ex.prove(s, And(zi(cap) == pre[3], ex.eq(dsp, pre[4])), 'a move carries over capacity and dispatcher')
    def mctor(ex):
        st = start(ex, 'move'); q = ex.new_region(st, 'new', const(ex, mod, 'q_size_')); o = M.objs[0]
        for s, k, v in ex.live(ex.exec_fn(st, F('q_move'), [Ptr(q, 0), Ptr(o, 0)])):
            ex.prove(s, k == 'ret', 'move construction does not throw')
            secs = s.ghost['secs']; ex.prove(s, len(secs) == 1, 'the source is moved from in one critical section')
            if len(secs) != 1: continue
            x = secs[0]; c = s.mem[q.id].cells
            for X in ('P', 'U'):
                it = x['inst'][X]; ex.prove(s, Or(x['tr'][X] == 'all', it.n == 0), 'a queue that was moved from has no waiters')
                ex.prove(s, And(M.heads[X] in c, ex.to_int(c[M.heads[X]][1]) == it.at(0) if M.heads[X] in c else False), 'a move carries over the waiters, in order'); s.ghost['moved%d' % it.k] = q.id
            M.done(ex, s)
            ex.prove(s, M.sq.has(s, (q.id, M.co)) and M.capo in c and M.dspo in c, 'the new queue is complete')
            carried(ex, s, x, o, M.sq.get(s, (q.id, M.co)), c[M.capo][1], c[M.dspo][1])
    V.check('queue.queue(queue&&)', mod, mctor)
    def masgn(ex):
        st = start(ex, 'assign', 2); q, o = M.objs
        for s, k, v in ex.live(ex.exec_fn(st, F('q_masgn'), [Ptr(q, 0), Ptr(o, 0)])):
            ex.prove(s, k == 'ret', 'move assignment does not throw'); M.done(ex, s)
            e = [x for x in s.ghost['secs'] if x['rid'] == o.id]; d = [x for x in s.ghost['secs'] if x['rid'] == q.id]
            ex.prove(s, len(e) == 1 and len(d) == 1, 'move assignment is one critical section of both queues')
            if len(e) != 1 or len(d) != 1: continue
            x, y = e[0], d[0]
            for X in ('P', 'U'):
                ex.prove(s, Or(x['tr'][X] == 'all', x['inst'][X].n == 0), 'a queue that was moved from has no waiters')
                ty = y['tr'][X]
                ex.prove(s, Or(isinstance(ty, tuple) and ty[1] is x['inst'][X], And(x['inst'][X].n == 0, Or(ty == 'all', y['inst'][X].n == 0))), 'a move carries over the waiters, in order')
            p = y['extra']['post']; carried(ex, s, x, o, p, p[3], p[4])
    V.check('queue.operator=(queue&&)', mod, masgn)
    def selfasgn(ex):
        st = start(ex, 'move'); q = M.objs[0]
        for s, k, v in ex.live(ex.exec_fn(st, F('q_masgn'), [Ptr(q, 0), Ptr(q, 0)])):
            ex.prove(s, k == 'ret', 'self assignment does not throw'); M.done(ex, s); nothing(ex, s, 'self assignment changes nothing')
    V.check('queue.operator=(queue&&) self', mod, selfasgn)
    V.assume_note('std::mutex as specified by the standard; std::deque behaves as a sequence and its allocations succeed; dispatcher::push keeps the callback and does not throw; the element type is opaque, its moves do not throw',
                  'capacity at least one; a suspended awaiter stays in place until its coroutine is resumed (coroutine frame); awaiters are awaited at most once; a queue is not destroyed or moved from between await_ready and await_suspend of one of its awaiters (the lock is held in between)')
