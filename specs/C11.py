"""channel<T>"""
from .wlist import *
class Closed:
    def __init__(self, M): self.M = M
    def observe(self, ex, st, kind):
        g = st.ghost
        if (self.rid, self.M.mo) in g['held']: return [(st, z3.If(zb(g['closed']), z3.IntVal(1), z3.IntVal(0)))]
        b = fresh_bool('closed'); st.assume(Implies(zb(g['seen']), b)); st.setg('lastclosed', b); st.setg('open_seen', Or(g['open_seen'], Not(b))); st.setg('seen', Or(g['seen'], b))
        return [(st, z3.If(b, z3.IntVal(1), z3.IntVal(0)))]
    def commit(self, ex, st, old, new, order, loc, kind):
        ex.prove(st, (self.rid, self.M.mo) in st.ghost['held'], 'the channel is closed with its lock held', loc)
        ex.prove(st, And(self.M.op == 'close', zi(new) == 1), 'only close() closes the channel, and it is never reopened', loc)
        st.setg('closed', True)
class Chan(WL):
    def construct(self, ex, st, r, X=None): return ex.exec_fn(st, self.F('ch_ctor'), [Ptr(r, 0)])[0][0]
    def learn_closed(self, ex):
        self.base(ex); st = State(); r = ex.new_region(st, 'obj', const(ex, self.mod, self.sizefn)); st = self.construct(ex, st, r)
        c = [o for o, (sz, v) in st.mem[r.id].cells.items() if sz == 1]
        ok = []
        ex.trial += 1
        for o in c:
            s = st.clone(); ex.put(s, r, o, 1, 1)
            outs = ex.exec_fn(s, self.F('ch_isclosed'), [Ptr(r, 0)])
            if len(outs) == 1 and ex.valid(outs[0][0], zb(outs[0][2])): ok.append(o)
        ex.trial -= 1
        if len(ok) != 1: raise ToolLimit('closed flag not identified %s' % ok)
        self.co = ok[0]
    def shape(self, ex, st, r):
        c = Closed(self); c.rid = r.id; st.shared[(r.id, self.co)] = c
        st.ghost.update(seen=False, open_seen=False, closed=None)
    def acquire(self, ex, st, r, sec, loc):
        b = fresh_bool('closedl'); st.assume(Implies(zb(st.ghost['seen']), b)); st.ghost['closed'] = b; st.ghost['closed0'] = b
        nR, nW = sec['R'].n, sec['W'].n
        st.assume(z3.Or(nR == 0, nW == 0)); st.assume(Implies(b, And(nR == 0, nW == 0)))
    def release(self, ex, st, r, sec, res, post, loc):
        c = zb(st.ghost['closed'])
        ex.prove(st, z3.Or(post['R'] == 0, post['W'] == 0), 'readers and writers never wait at the same time', loc)
        ex.prove(st, Implies(c, And(post['R'] == 0, post['W'] == 0)), 'nobody waits on a closed channel', loc)
        st.setg('seen', Or(st.ghost['seen'], c)); st.setg('open_seen', Or(st.ghost['open_seen'], Not(zb(st.ghost['closed0']))))
        return dict(closed0=st.ghost['closed0'], closed=c)
    def expect(self, ex, st, it, d, res, tok, loc):
        if self.op in ('read', 'try_read'):
            ex.prove(st, it.X == 'W' and res, 'a writer whose value was taken is told so', loc)
        elif self.op in ('write', 'try_write'):
            ex.prove(st, it.X == 'R' and res, 'the reader receives a value', loc)
            if res: ex.prove(st, tok == self.Vt, 'the reader receives exactly the value that was written', loc)
        else: ex.prove(st, not res, 'closing completes waiting coroutines without a value', loc)
def trans(s): return [(X, x['tr'][X]) for x in s.ghost['secs'] for X in ('R', 'W') if x['tr'][X] != 'same']
def verify(V):
    mod = V.module('chan.cpp')
    M = Chan(V, mod, 'ch_size', {'R': Kind('R', 'ch_rsize', 'ch_read', 'ch_rready', 'ch_rsuspend', 'ch_rresume', False, True),
                                 'W': Kind('W', 'ch_wsize', 'ch_write', 'ch_wready', 'ch_wsuspend', 'ch_wresume', True, False)})
    F = M.F
    def start(ex, op, nobj=1):
        
        if M.templ is None or not hasattr(M, 'co'): M.learn_closed(ex); M.learn(ex)
        M.op = op; return M.pre(ex, nobj)
    def tr1(s, X):   # the section that popped X
        return [x for x in s.ghost['secs'] if x['tr'][X] == 'pop1']
    def split(ex, s, v):
        for b in (True, False):
            c = zb(v) if b else Not(zb(v))
            if ex.sat(s, c): s2 = s.clone(); s2.assume(c); yield b, s2
    def blocked(ex, s, X):
        """some moment at which the channel was closed or nobody waited on the other side"""
        return Or(zb(s.ghost['seen']), *[x['inst'][X].n == 0 for x in s.ghost['secs']])
    def tryread(ex):
        st = start(ex, 'try_read'); out = ex.new_region(st, 'out', 16)
        for s, k, v in ex.live(ex.exec_fn(st, F('ch_tryread'), [Ptr(M.objs[0], 0), Ptr(out, 0)])):
            ex.prove(s, k == 'ret', 'try_read does not throw'); M.done(ex, s)
            for b, s2 in split(ex, s, v):
                if b:
                    ex.prove(s2, trans(s2) == [('W', 'pop1')], 'a successful try_read takes exactly the longest waiting writer')
                    for x in tr1(s2, 'W'): ex.prove(s2, M.T.get(s2, Ptr(out, 0)) == x['inst']['W'].V(0), 'try_read returns the value of the longest waiting writer')
                else:
                    ex.prove(s2, trans(s2) == [], 'a failing try_read changes nothing'); ex.prove(s2, blocked(ex, s2, 'W'), 'try_read fails only if the channel is closed or no writer waits')
    V.check('channel.try_read', mod, tryread)
    def trywrite(ex):
        st = start(ex, 'try_write'); v = ex.new_region(st, 'v', 16); M.Vt = z3.Int('Vown'); st.assume(M.Vt > 0); ex.put(st, v, 0, 8, M.Vt)
        for s, k, r in ex.live(ex.exec_fn(st, F('ch_trywrite'), [Ptr(M.objs[0], 0), Ptr(v, 0)])):
            ex.prove(s, k == 'ret', 'try_write does not throw'); M.done(ex, s)
            for b, s2 in split(ex, s, r):
                if b: ex.prove(s2, trans(s2) == [('R', 'pop1')], 'a successful try_write hands the value to exactly the longest waiting reader')
                else: ex.prove(s2, trans(s2) == [], 'a failing try_write changes nothing'); ex.prove(s2, blocked(ex, s2, 'R'), 'try_write fails only if the channel is closed or no reader waits')
    V.check('channel.try_write', mod, trywrite)
    def own_result(ex, s, X, a, cont):
        for s2, res, tok in M.result(ex, s.clone(), M.kinds[X], a): cont(s2, res, tok)
    for X, other, op in (('R', 'W', 'read'), ('W', 'R', 'write')):
        K = M.kinds[X]
        def ready(ex, X=X, other=other, op=op, K=K):
            st = start(ex, op); st, a = M.awaiting(ex, st, X)
            for s, k, v in ex.live(ex.exec_fn(st, F(K.ready), [Ptr(a, 0)])):
                ex.prove(s, k == 'ret', 'await_ready does not throw'); M.done(ex, s); ex.prove(s, trans(s) == [], 'await_ready moves no value')
                for b, s2 in split(ex, s, v):
                    if b:
                        ex.prove(s2, zb(s2.ghost['seen']), '%s continues at once only if the channel is closed' % op)
                        def c(s3, res, tok): ex.prove(s3, not res, '%s on a closed channel reports failure' % op)
                        own_result(ex, s2, X, a, c)
        V.check('channel.%s.await_ready' % op, mod, ready)
        def susp(ex, X=X, other=other, op=op, K=K):
            st = start(ex, op); st, a = M.awaiting(ex, st, X)
            for s0, k0, v0 in ex.exec_fn(st, F(K.ready), [Ptr(a, 0)]):
                if k0 != 'ret' or not ex.sat(s0, Not(zb(v0))): continue
                s0.assume(Not(zb(v0)))
                for s, k, v in ex.live(ex.exec_fn(s0, F(K.suspend), [Ptr(a, 0), M.H])):
                    ex.prove(s, k == 'ret', 'await_suspend does not throw'); M.done(ex, s)
                    for b, s2 in split(ex, s, v):
                        t = trans(s2)
                        if b:
                            ex.prove(s2, t == [(X, 'append')], 'a coroutine that stays suspended is queued behind all others (and only then)')
                            for x in s2.ghost['secs']:
                                if x['tr'][X] == 'append': ex.prove(s2, And(x['inst'][other].n == 0, Not(x['extra']['closed'])), '%s waits only on an open channel with nobody waiting on the other side' % op)
                        else:
                            def c(s3, res, tok):
                                t3 = trans(s3)
                                if res:
                                    ex.prove(s3, t3 == [(other, 'pop1')], '%s succeeds only by a hand-over with exactly the longest waiting coroutine of the other side' % op)
                                    if X == 'R':
                                        for x in tr1(s3, other): ex.prove(s3, tok == x['inst'][other].V(0), 'read returns the value of the longest waiting writer')
                                else:
                                    ex.prove(s3, t3 == [], 'a failing %s takes and delivers no value' % op); ex.prove(s3, zb(s3.ghost['seen']), '%s fails only on a closed channel' % op)
                            own_result(ex, s2, X, a, c)
        V.check('channel.%s.await_suspend' % op, mod, susp)
        def mk0(ex, X=X, op=op, K=K):
            st = start(ex, op); cur = ex.exec_fn(st, F('ch_current'), [])[0]; st = cur[0]; D = cur[2]
            a = ex.new_region(st, 'awaiter', const(ex, mod, K.size)); args = [Ptr(M.objs[0], 0), Ptr(a, 0)]
            if K.value: v = ex.new_region(st, 'v', 16); ex.put(st, v, 0, 8, 7); args.append(Ptr(v, 0))
            for s, k, v in rets(ex, ex.exec_fn(st, F(K.mk + '0'), args)):
                for o, (sz, kind, _) in M.templ[X].items():
                    if kind == 'D': ex.prove(s, ex.eq(s.mem[a.id].cells[o][1], D), 'without resume_on the coroutine resumes on the current dispatcher')
                    if kind == 'V': ex.prove(s, zi(s.mem[a.id].cells[o][1]) == 7, 'the writer holds the value it was given')
                ex.prove(s, s.ghost['secs'] == [], 'creating the awaiter does nothing to the channel')
        V.check('channel.%s' % op, mod, mk0)
    def close(ex):
        st = start(ex, 'close')
        for s, k, v in ex.live(ex.exec_fn(st, F('ch_close'), [Ptr(M.objs[0], 0)])):
            ex.prove(s, k == 'ret', 'close does not throw'); M.done(ex, s)
            ex.prove(s, zb(s.ghost['seen']), 'after close() the channel is closed')
            for x in s.ghost['secs']:
                for X in ('R', 'W'): ex.prove(s, Or(x['tr'][X] in ('all',), x['inst'][X].n == 0), 'the close that closes the channel completes every waiting coroutine')
    V.check('channel.close', mod, close)
    def isclosed(ex):
        st = start(ex, 'query')
        for s, k, v in rets(ex, ex.exec_fn(st, F('ch_isclosed'), [Ptr(M.objs[0], 0)])):
            ex.prove(s, And(Implies(zb(v), zb(s.ghost['seen'])), Implies(Not(zb(v)), zb(s.ghost['open_seen']))), 'is_closed reports the state at some moment of the call')
    V.check('channel.is_closed', mod, isclosed)
    def ctor(ex):
        M.learn_closed(ex); M.learn(ex); M.base(ex); st = State(); r = ex.new_region(st, 'c', const(ex, mod, 'ch_size'))
        for s, k, v in rets(ex, ex.exec_fn(st, F('ch_ctor'), [Ptr(r, 0)])):
            c = s.mem[r.id].cells
            ex.prove(s, And(ex.eq(c[M.heads['R']][1], 0), ex.eq(c[M.heads['W']][1], 0), zi(c[M.co][1]) == 0), 'a new channel is open and nobody waits')
    V.check('channel.channel()', mod, ctor)
    V.assume_note('std::mutex as specified by the standard; dispatcher::push keeps the callback and does not throw; the element type is opaque, its moves do not throw',
                  'a suspended awaiter stays in place until its coroutine is resumed (coroutine frame); read()/write() awaiters are awaited at most once')
