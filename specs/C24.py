"""simple_dispatcher: a monitor (mutex, condition variable) over the sequence of pending callbacks and the stop flag"""
from .lib import *
PRE = ('preA', 'preh', 'pret', 'pred')
class Flag:
    """an atomic flag that is only set with the lock held: while the lock is held it does not change"""
    def __init__(self, M): self.M = M
    def observe(self, ex, st, kind):
        if self.M.held(st): return [(st, z3.If(zb(st.ghost['done']), z3.IntVal(1), z3.IntVal(0)))]
        b = fresh_bool('done'); st.assume(Implies(zb(st.ghost['seen']), b)); st.setg('seen', Or(st.ghost['seen'], b))
        return [(st, z3.If(b, z3.IntVal(1), z3.IntVal(0)))]
    def commit(self, ex, st, old, new, order, loc, kind):
        ex.prove(st, self.M.held(st), 'the stop flag changes only with the lock held (a run() about to wait cannot miss it)', loc)
        ex.prove(st, And(self.M.op == 'stop', zi(new) != 0), 'only stop() stops the dispatcher, for good', loc)
        st.setg('done', True)
    def plain(self, ex, st, v, loc): raise ToolLimit('plain stop flag')
class SD:
    def __init__(self, V, mod): self.V = V; self.mod = mod; self.F = lambda n: mod.funcs[n]; self.learnt = False
    def held(self, st): return (self.r.id, self.mo) in st.ghost['held']
    def learn(self, ex):
        fn = Opaque(ex, 'std::function<void ()>', empty=0, moved=0); sq = Seqs(ex, fn, throws=False)
        got = {}
        def lk(ex_, s, p, loc): got['m'] = keyof(ex_, s, p)[1]
        ex.hooks.update(lock=lk, unlock=lambda *a: None, notify_all=lambda *a: None, notify_one=lambda *a: None)
        ex.trial += 1
        st = State(); st.ghost['held'] = (); r = ex.new_region(st, 'sd', const(ex, self.mod, 'sd_size'))
        st = ex.exec_fn(st, self.F('sd_ctor'), [Ptr(r, 0)])[0][0]
        c = [int(k.split(':')[2]) for k in st.ghost if k.startswith('seq:%d:' % r.id) and k.endswith(':h')]
        before = dict(st.mem[r.id].cells)
        o = ex.exec_fn(st, self.F('sd_stop'), [Ptr(r, 0)])[0][0]
        d = [x for x, (sz, v) in o.mem[r.id].cells.items() if sz == 1 and not same(v, before.get(x, (1, None))[1])]
        ex.trial -= 1
        if len(c) != 1 or len(d) != 1 or 'm' not in got: raise ToolLimit('fields of simple_dispatcher not identified')
        self.co, self.do, self.mo = c[0], d[0], got['m']; self.init = before; self.learnt = True
    def pre(self, ex, op):
        if not self.learnt: self.learn(ex)
        self.op = op
        ex.contracts = []; self.fn = Opaque(ex, 'std::function<void ()>', empty=0, moved=0, call=self.call); self.sq = Seqs(ex, self.fn, throws=False, elemsize=32)
        st = State(); r = self.r = ex.new_region(st, 'sd', const(ex, self.mod, 'sd_size')); ex.addr(r)
        st.shared[(r.id, self.do)] = Flag(self)
        st.ghost.update(held=(), seen=False, done=None, secsig=False, eff=z3.IntVal(0), pend=z3.IntVal(0), sig=z3.IntVal(0), need=z3.IntVal(0))
        self.sq.guard = lambda ex_, s, k, w, loc: ex_.prove(s, self.held(s), 'the pending callbacks are only accessed with the lock held', loc) if k == (r.id, self.co) else None
        Locks(ex, self.acq, self.rel)
        ex.hooks['notify_all'] = ex.hooks['notify_one'] = self.notify
        ex.hooks['cv_wait'] = self.wait
        ex.loop_cands = [self.cands]
        return st
    def acq(self, ex, st, k, loc):
        if k != (self.r.id, self.mo): return
        A, h, t = self.sq.init(st, (self.r.id, self.co), empty=False, name='q'); ex.qinst[A.decl().name()] = lambda i: Implies(And(i >= h, i < t), z3.Select(A, i) > 0)
        b = fresh_bool('donel'); st.assume(Implies(zb(st.ghost['seen']), b)); st.setg('done', b); st.setg('seen', Or(st.ghost['seen'], b))
        for n, x in zip(PRE, (A, h, t, b)): st.setg(n, x)
        st.ghost['secsig'] = False
    def rel(self, ex, st, k, loc):
        if k != (self.r.id, self.mo): return
        A, h, t = self.sq.flush(st, (self.r.id, self.co)); A0, h0, t0, d0 = [st.ghost[n] for n in PRE]; i = fresh_int('sk')
        ex.prove(st, Implies(And(i >= h, i < t), z3.Select(A, i) > 0), 'every pending callback can be called (empty ones are never queued)', loc)
        keep = lambda n, o: Implies(And(i >= 0, i < n), z3.Select(A, h + i) == z3.Select(A0, h0 + o + i))
        n0, n = t0 - h0, t - h
        if ex.valid(st, And(n == n0, keep(n0, 0))): tr = 'same'
        elif self.op == 'run':
            ex.prove(st, And(n == n0 - 1, keep(n0 - 1, 1)), 'run takes callbacks from the front, one at a time, and keeps the others', loc); tr = 'pop'
            ex.prove(st, zi(st.ghost['pend']) == 0, 'the callback taken before was called first', loc)
            st.setg('pend', z3.Select(A0, h0))
        else:
            ex.prove(st, self.op == 'push', 'only push and run change the pending callbacks', loc)
            ex.prove(st, And(n == n0 + 1, keep(n0, 0), z3.Select(A, t - 1) == self.tok), 'push appends exactly the given callback behind all others', loc); tr = 'push'
            st.setg('eff', st.ghost['eff'] + 1)
        st.setg('seen', Or(st.ghost['seen'], st.ghost['done']))
        if tr == 'push' or (self.op == 'stop' and not ex.valid(st, zb(st.ghost['done']) == zb(d0))):
            st.setg('need', z3.IntVal(0) if st.ghost['secsig'] else z3.IntVal(1))
    def notify(self, ex, st, p, loc):
        st.ghost['secsig'] = True
        if not self.held(st): st.setg('need', z3.IntVal(0))
        return None
    def wait(self, ex, st, cv, lk, loc):
        m = ex.load(st, lk, ex.mk_ptr(), loc); k = keyof(ex, st, m)
        ex.prove(st, k in st.ghost['held'], 'waiting happens with the lock held', loc)
        A, h, t = self.sq.get(st, (self.r.id, self.co))
        ex.prove(st, And(h == t, Not(zb(st.ghost['done']))), 'run waits only if, with the lock held, nothing is pending and stop was not called (no lost wakeup)', loc)
        self.rel(ex, st, k, loc); self.acq(ex, st, k, loc); return None
    def call(self, ex, st, t, a, loc):
        ex.prove(st, self.op == 'run', 'callbacks are invoked only by run()', loc)
        ex.prove(st, not st.ghost['held'], 'callbacks run without the lock held', loc)
        ex.prove(st, And(zi(st.ghost['pend']) != 0, t == st.ghost['pend']), 'each callback taken is invoked exactly once', loc)
        cur = ex.exec_fn(st, self.F('sd_current'), []); st = cur[0][0]
        ex.prove(st, ex.eq(cur[0][2], self.base), 'while a callback runs the current dispatcher is this one', loc)
        st.setg('pend', z3.IntVal(0))
        return [(st, 'ret', None), (st.clone(), 'throw', Exc(None, fresh_int('exc')))]
    def cands(self, ex, st, env, L):
        out = [('no callback in hand', zi(st.ghost['pend']) == 0)]
        if self.held(st):
            A, h, t = self.sq.raw(st, (self.r.id, self.co))
            A0, h0, t0, d0 = [st.ghost[n] for n in PRE]
            if z3.is_const(A) and A.decl().name() not in ex.qinst: ex.qinst[A.decl().name()] = lambda i: Implies(And(A == A0, i >= h0, i < t0), z3.Select(A, i) > 0)
            out += [('nothing was queued or taken since the lock was acquired', And(A == A0, zi(h) == zi(h0), zi(t) == zi(t0))), ('stop was not called since the lock was acquired', zb(st.ghost['done']) == zb(d0))]
            out.append(('the sequence is well formed', zi(h) <= zi(t)))
        return out
def verify(V):
    mod = V.module('sdisp.cpp'); M = SD(V, mod); F = M.F
    for fnm in ('sd_push', 'sd_pushv'):
        def push(ex, fnm=fnm):
            st = M.pre(ex, 'push'); f = ex.new_region(st, 'f', 32); M.tok = z3.Int('tok'); st.assume(M.tok >= 0); ex.put(st, f, 0, 8, M.tok)
            if fnm == 'sd_pushv':
                s0 = ex.exec_fn(st, F('sd_ctor'), [Ptr(M.r, 0)])
                st = s0[0][0]
            for s, k, v in ex.live(ex.exec_fn(st, F(fnm), [Ptr(M.r, 0), Ptr(f, 0)])):
                ex.prove(s, k == 'ret', 'push does not throw'); ex.prove(s, not s.ghost['held'], 'the lock is released')
                ex.prove(s, zi(s.ghost['eff']) == z3.If(M.tok == 0, 0, 1), 'a callback is queued exactly once; empty ones are ignored')
                ex.prove(s, zi(s.ghost['need']) == 0, 'a waiting run() is woken for a new callback')
        if fnm == 'sd_push': V.check('simple_dispatcher.push', mod, push)
    def stop(ex):
        st = M.pre(ex, 'stop')
        for s, k, v in ex.live(ex.exec_fn(st, F('sd_stop'), [Ptr(M.r, 0)])):
            ex.prove(s, k == 'ret', 'stop does not throw'); ex.prove(s, not s.ghost['held'], 'the lock is released')
            ex.prove(s, zb(s.ghost['seen']), 'after stop the dispatcher is stopped')
            ex.prove(s, zi(s.ghost['need']) == 0, 'a waiting run() is woken by stop')
    V.check('simple_dispatcher.stop', mod, stop)
    def run(ex):
        st = M.pre(ex, 'run'); M.base = ex.exec_fn(st, F('sd_base'), [Ptr(M.r, 0)])[0][2]
        o = ex.exec_fn(st, F('sd_current'), [])[0]; st = o[0]; old = o[2]
        for s, k, v in ex.live(ex.exec_fn(st, F('sd_run'), [Ptr(M.r, 0)])):
            ex.prove(s, not s.ghost['held'], 'the lock is released'); ex.prove(s, zi(s.ghost['pend']) == 0, 'every callback that was taken is invoked')
            if k == 'ret': ex.prove(s, zb(s.ghost['seen']), 'run returns only after stop')
            c = ex.exec_fn(s, F('sd_current'), [])[0]
            ex.prove(c[0], ex.eq(c[2], old), 'after run the previous current dispatcher is current again')
    V.check('simple_dispatcher.run', mod, run)
    def ctor(ex):
        if not M.learnt: M.learn(ex)
        fn = Opaque(ex, 'std::function<void ()>', empty=0, moved=0); sq = Seqs(ex, fn, throws=False)
        st = State(); r = ex.new_region(st, 'sd', const(ex, mod, 'sd_size'))
        for s, k, v in rets(ex, ex.exec_fn(st, F('sd_ctor'), [Ptr(r, 0)])):
            A, h, t = sq.get(s, (r.id, M.co)); ex.prove(s, And(zi(h) == zi(t), zi(s.mem[r.id].cells[M.do][1]) == 0), 'a new dispatcher has nothing pending and is not stopped')
    V.check('simple_dispatcher()', mod, ctor)
    V.assume_note('std::mutex and std::condition_variable as specified by the standard (spurious wakeups included); std::deque behaves as a sequence and its allocations succeed; std::function is opaque',
                  'callbacks leave the current dispatcher as they found it; run() is not entered by two threads at once; termination (that stop is eventually called) is not claimed')
