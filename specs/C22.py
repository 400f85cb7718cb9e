"""async_launch_scope: rely/guarantee on the word that counts the tasks and shows the joiner; the lowered launch coroutines around arbitrary awaitables"""
from .coro import *
from .eventlib import ACQ, REL
from .C18 import live_frames
from .C31 import Adapter
CB = 2 ** 63; PB = 2 ** 62
def pbit(v): return zi(v) % CB >= PB
class Word:
    """n tasks, c: somebody is joining, p: the joiner is registered (and suspended).  Rely: tasks come and go; whoever joins sets c, then p; only the last task takes a registered joiner (clearing both), only the joiner itself clears c before that.
    While one task is held here n stays above zero, so p and the handle registered stay once they were seen"""
    def __init__(self, M): self.M = M
    def observe(self, ex, st, kind):
        g = st.ghost; out = []
        if self.M.op == 'launch':
            c, p, n = fresh_int('joining'), fresh_int('registered'), fresh_int('tasks')
            st.assume(And(n >= g['mine'], n < 2 ** 60, c >= 0, c <= 1, p >= 0, p <= c, z3.Implies(p == 1, n >= 1)))
            if g['mine']: st.assume(z3.Implies(zb(g['pk']), p == 1))
            for k, v in (('n', n), ('c', c), ('p', p)): st.setg(k, v)
            return [(st, n + c * CB + p * PB)]
        for c, p in ((0, 0), (1, 0), (1, 1)):
            if g['me'] == 'claimed' and (c, p) != (1, 0): continue
            s = st.clone(); n = fresh_int('tasks'); s.assume(And(n >= g['mine'] + p, n >= p, n < 2 ** 60))
            for k, v in (('n', n), ('c', z3.IntVal(c)), ('p', z3.IntVal(p))): s.setg(k, v)
            s.setg('zero', Or(zb(g['zero']), n == 0)); s.setg('dup', Or(zb(g['dup']), zb(c == 1)))
            if ex.sat(s): out.append((s, n + c * CB + p * PB))
        return out
    def on_load(self, ex, st, cur, order, loc):
        g = st.ghost
        if order in ACQ:
            if g['mine']: st.setg('pk', Or(zb(g['pk']), g['p'] == 1))
            st.setg('zacq', Or(zb(g['zacq']), g['n'] == 0))
    def commit(self, ex, st, old, new, order, loc, kind):
        g = st.ghost; P = lambda c, nm: ex.prove(st, c, nm, loc); M = self.M
        n, c, p = g['n'], g['c'], g['p']; new = zi(new); old = zi(old)
        if order in ACQ: self.on_load(ex, st, old, order, loc)
        P(kind != 'store', 'the task counter only changes by atomic read-modify-write')
        if ex.valid(st, new == old + 1):
            P(M.op == 'launch' and not g['mine'] and not g['drop'], 'each launch adds one task'); g['mine'] = 1; return
        if g['me'] == 'claimed':
            if ex.valid(st, new == old + PB):
                P(n >= 1, 'a joiner is only registered while tasks are outstanding'); P(order in REL, 'memory order: registering the joiner releases its handle')
                P(ex.eq(ex.peek(st, M.s, M.ho), M.joiner(st)), 'the handle registered is that of the joining coroutine'); g['me'] = 'published'; g['gone'] = True; return
            P(And(n == 0, new == 0), 'the joiner withdraws only when no task is outstanding'); P(order in ACQ, 'memory order: joining acquires what the tasks did'); g['me'] = 'none'; return
        if g['mine']:
            take = And(p == 1, n == 1)
            P(new == z3.If(take, 0, old - 1), 'a completion removes exactly one task, and takes the joiner exactly if it was the last')
            P(order in REL, 'memory order: a completion releases what the task did'); P(Or(n != 1, order in ACQ), 'memory order: the last completion acquires what the other tasks did')
            g['mine'] = 0; g['drop'] = True; g['gone'] = True; st.setg('take', take); return
        if M.op == 'join':
            if ex.valid(st, c == 1): P(new == old, 'a second joiner changes nothing'); return
            if ex.valid(st, new == old): return
            P(new == old + CB and g['me'] == 'none', 'joining announces itself'); g['me'] = 'claimed'; return
        P(new == old, 'only launches, completions and joins change the state of the scope')
class Scope:
    def __init__(self, ex, mod, V): self.mod = mod; self.op = None; self.F = lambda k: mod.funcs[k]; self.joiner = lambda st: st.ghost['env_h']
    def start(self, ex):
        C = self.C = Coro(ex, self.mod); st = State(); C.start(st); C.on_hresume = self.resumed; ex.unroll = 0
        self.aw = Opaque(ex, 'vt::aw', throws=('move', 'copy'), other=self.await_, dtor=self.dtor('aws')); self.aw.oncopy = self.copied('aws')
        self.fn = Opaque(ex, 'vt::fn', throws=('move', 'copy'), call=None, other=self.call, dtor=self.dtor('fns')); self.fn.oncopy = self.copied('fns')
        st.ghost.update(me='none', mine=0, drop=False, gone=False, pk=False, zero=False, zacq=False, dup=False, take=False, n=z3.IntVal(0), c=z3.IntVal(0), p=z3.IntVal(0), aws=1, fns=1, called=0, ready=0, susp=0, got=0, fgone=False)
        s = self.s = ex.new_region(st, 'scope', const(ex, self.mod, 's_size')); ex.addr(s)
        st.assume(And(z3.Int('awaitable') > 0, z3.Int('callable') > 0))
        self.A = z3.Int('awaitable'); self.Fn = z3.Int('callable')
        return C, st
    def learn(self, ex):
        ex.trial += 1
        try:
            C, st = self.start(ex); self.op = 'launch'; a = ex.new_region(st, 'a', 16); self.aw.put(st, Ptr(a, 0), self.A)
            st = ex.exec_fn(st, self.F('s_ctor'), [Ptr(self.s, 0)])[0][0]; b4 = dict(st.mem[self.s.id].cells)
            s2 = [x for x in ex.exec_fn(st, self.F('slaunch_rv'), [Ptr(self.s, 0), Ptr(a, 0)]) if x[0].ghost['fgone']][0][0]; now = s2.mem[self.s.id].cells
            ch = [o for o in now if not same(now[o][1], b4.get(o, (0, None))[1])]; other = [o for o in now if o not in ch]
            if len(ch) != 1 or len(other) != 1 or now[ch[0]][0] != 8 or now[other[0]][0] != 8: raise ToolLimit('members of the scope not identified')
            self.co, self.ho = ch[0], other[0]
        finally: ex.trial -= 1
    def shared(self, ex, st):
        st.shared[(self.s.id, self.co)] = Word(self); K = self.C.handle(st, 'joiner'); self.K = K; ex.put(st, self.s, self.ho, 8, K)
        st.guards = dict(st.guards); st.guards[self.s.id] = self.guard
        def cands(ex_, s_, env, L):
            g = s_.ghost; out = [(k, zb(g[k])) for k in ('pk', 'zero', 'zacq', 'dup', 'take')] + [('not ' + k, Not(zb(g[k]))) for k in ('pk', 'take', 'dup')]
            for kind, nm, v in L.slots:
                if kind not in ('bool', 'ptr') and (isinstance(v, int) or isz(v)): out.append((nm + ' shows a joiner only if it was seen', z3.Implies(pbit(v), zb(g['pk'])))); out.append((nm + ': joining, not registered', And(zi(v) >= CB, zi(v) < CB + PB))); out.append((nm + ' shows no task only if that was seen', z3.Implies(zi(v) % PB == 0, And(zb(g['zero']), zb(g['zacq'])))))
            return out
        ex.loop_cands = [cands]
    def guard(self, ex, st, p, size, write, loc):
        g = st.ghost
        if g['gone'] and g['me'] != 'none' or g['gone'] and g['drop']: ex.fail(st, 'the scope is not touched once the joiner may have continued', loc)
        if isinstance(p.off, int) and p.off == self.co and size == 8: return
        if write is True or ex.in_atomic and ex.in_atomic != 'load': ex.prove(st, g['me'] == 'claimed', 'the handle of the joiner is only written by the one coroutine that is joining', loc)
        else: ex.prove(st, Or(zb(g['pk']), g['me'] == 'claimed'), 'the handle of the joiner is only read once it was seen to be registered', loc)
    def resumed(self, ex, st, h, loc):
        g = st.ghost
        ex.prove(st, zb(g['take']), 'the joiner is resumed only by the task that took it', loc); ex.prove(st, ex.eq(h, self.K), 'it is the joiner that is resumed', loc)
        ex.prove(st, len(g['hresumed']) == 1, 'the joiner is resumed once', loc)
        st.mem[self.s.id].alive = False     # and may destroy the scope
    # ---- the launched awaitable / callable
    def copied(self, k):
        def f(ex, st, kind, t, loc): st.ghost[k] += 1
        return f
    def dtor(self, k):
        def f(ex, st, t, loc): st.ghost[k] -= 1
        return f
    def fth(self, st):
        s3 = st.clone(); e = fresh_int('exc'); s3.assume(e > 0); s3.ghost['exc'] = e; return (s3, 'throw', Exc(None, e))
    def call(self, ex, st, m, ps, a, loc):
        if not m.startswith('operator()'): return NotImplemented
        me = a[1]; g = st.ghost
        ex.prove(st, self.fn.get(st, me, loc) == self.Fn, 'it is the given callable that is invoked', loc); ex.prove(st, g['called'] == 0, 'the callable is invoked once', loc)
        ex.prove(st, isinstance(me, Ptr) and me.r.id in live_frames(st), 'the callable that is invoked belongs to the task', loc)
        if len(a) > 2: ex.prove(st, And(ex.eq(a[2], 42), ex.eq(a[3], self.arg)), 'with the given arguments', loc)
        if self.scoped: ex.prove(st, g['mine'] == 1, 'the task counts as outstanding when it starts', loc)
        g['called'] = 1; s3 = self.fth(st); g['aws'] += 1; self.aw.put(st, a[0], self.A, loc); return [(st, 'ret', None), s3]
    def await_(self, ex, st, m, ps, a, loc):
        if not m.startswith('await_'): return NotImplemented
        g = st.ghost; ex.prove(st, self.aw.get(st, a[0], loc) == self.A, 'it is the given awaitable that is awaited', loc)
        if self.scoped: ex.prove(st, g['mine'] == 1, 'the task counts as outstanding until its awaitable has finished', loc)
        if m == 'await_ready':
            ex.prove(st, g['ready'] == 0, 'the awaitable is awaited once', loc); g['ready'] = 1
            b = fresh_bool('ready'); s2 = st.clone(); st.assume(Not(b)); s2.assume(b); return [(st, 'ret', b), (s2, 'ret', b), self.fth(st)]
        if m == 'await_suspend':
            ex.prove(st, g['ready'] == 1 and g['susp'] == 0, 'the awaitable is awaited once', loc); g['susp'] = 1
            h = self.C.norm(st, a[1], loc); g['env_h'] = h; s2 = st.clone(); s3 = self.fth(st)
            g['fgone'] = True; st.guards = dict(st.guards); st.guards[h.r.id] = self.fguard
            return [(st, 'ret', 1), (s2, 'ret', 0), s3]
        ex.prove(st, g['got'] == 0 and not g['fgone'] and g['ready'] == 1, 'the result is taken once, when the awaitable has finished', loc); g['got'] = 1
        return [(st, 'ret', None), self.fth(st)]
    def fguard(self, ex, st, p, size, write, loc):
        if st.ghost['fgone']: ex.fail(st, 'the coroutine is not touched while someone else may be running it', loc)
def verify(V):
    mod = V.module('launch.cpp', coro=True); V.par = 8
    for f, txt in (('launch_rv', 'launch(rvalue)'), ('launch_lv', 'launch(lvalue)'), ('slaunch_rv', 'async_launch_scope::launch(rvalue)'), ('slaunch_lv', 'async_launch_scope::launch(const lvalue)'),
                   ('invoke_rv', 'async_launch_scope::invoke(rvalue, args)'), ('invoke_lv', 'async_launch_scope::invoke(lvalue, args)'), ('invoke0_rv', 'async_launch_scope::invoke(rvalue)'), ('invoket_rv', 'async_launch_scope::invoke_tuple(rvalue)'), ('invoket_lv', 'async_launch_scope::invoke_tuple(lvalue)')):
        def run(ex, f=f):
            M = Scope(ex, mod, V); M.scoped = False; M.learn(ex); C, st = M.start(ex); M.op = 'launch'; M.scoped = not f.startswith('launch'); M.shared(ex, st); inv = f.startswith('invoke')
            a = ex.new_region(st, 'awaitable' if not inv else 'callable', 16); (M.fn if inv else M.aw).put(st, Ptr(a, 0), M.Fn if inv else M.A); args = [Ptr(M.s, 0), Ptr(a, 0)]
            if inv: st.ghost['aws'] = 0; b = ex.new_region(st, 'arg', 8); M.arg = Ptr(b, 0); args.append(M.arg)
            else: st.ghost['fns'] = 0
            def finished(s, k):
                g = s.ghost
                if g['exc'] is not None and k == 'stop': return
                ex.prove(s, k == 'ret' and g['exc'] is None, 'an exception leaving the awaitable terminates the program, nothing else does'); ex.prove(s, g['got'] == 1, 'the awaitable was awaited')
                ex.prove(s, not live_frames(s), 'the task frees its frame'); ex.prove(s, g['aws'] == (0 if inv else 1) and g['fns'] == (1 if inv else 0), 'the copies of the awaitable and callable are destroyed')
                if M.scoped: ex.prove(s, g['mine'] == 0 and g['drop'], 'a task that finished does not count as outstanding')
                ex.prove(s, zb(g['take']) == zb(len(g['hresumed']) == 1), 'the last task resumes the joiner')
            for s, k, _ in ex.live(ex.exec_fn(st, M.F(f), args), ('ret', 'stop')):
                g = s.ghost
                if k == 'throw': ex.prove(s, g['ready'] == 0 and not g['called'] and g['mine'] == 0 and not live_frames(s) and not g['drop'], 'launching throws only if the arguments can not be copied, and leaves nothing behind'); continue
                if g['fgone']:
                    if M.scoped: ex.prove(s, g['mine'] == 1 and not g['drop'], 'a suspended task counts as outstanding')
                    if inv: ex.prove(s, g['fns'] == 2, 'the task keeps its callable until its awaitable has finished')
                    s.ghost['fgone'] = False; s.caught = []; s.ghost['pk'] = False
                    for s2, k2, _ in ex.live(ex.exec_fn(s, M.F('hres'), [g['env_h']]), ('ret', 'stop')): finished(s2, k2)
                else: finished(s, k)
        V.check(txt, mod, run)
    def ctor(ex):
        M = Scope(ex, mod, V); M.scoped = False; M.learn(ex); C, st = M.start(ex)
        for s, k, _ in ex.live(ex.exec_fn(st, M.F('s_ctor'), [Ptr(M.s, 0)])):
            ex.prove(s, k == 'ret' and ex.eq(ex.peek(s, M.s, M.co), 0), 'a new scope has no tasks and no joiner')
            for s2, k, _ in ex.live(ex.exec_fn(s, M.F('s_dtor'), [Ptr(M.s, 0)])): ex.prove(s2, k == 'ret', 'an idle scope can be destroyed')
    V.check('async_launch_scope construction', mod, ctor)
    def join(ex):
        M = Scope(ex, mod, V); M.scoped = False; M.learn(ex); C, st = M.start(ex); M.op = 'join'; M.shared(ex, st); j = ex.new_region(st, 'join', const(ex, mod, 'j_size')); H = C.handle(st, 'me'); st.ghost['env_h'] = H
        for s, k, _ in ex.live(ex.exec_fn(st, M.F('s_join'), [Ptr(M.s, 0), Ptr(j, 0)])):
            ex.prove(s, k == 'ret', 'join does not throw')
            for s1, k, r in ex.live(ex.exec_fn(s.clone(), M.F('j_ready'), [Ptr(j, 0)])):
                ex.prove(s1, k == 'ret' and s1.ghost['me'] == 'none', 'await_ready only looks'); ex.prove(s1, zb(r) == (s1.ghost['n'] == 0), 'joining completes at once exactly if no task is outstanding')
                ex.prove(s1, Or(Not(zb(r)), zb(s1.ghost['zacq'])), 'memory order: joining acquires what the tasks did')
            s.ghost.update(zero=False, zacq=False, dup=False)
            for s1, k, r in ex.live(ex.exec_fn(s, M.F('j_suspend'), [Ptr(j, 0), H]), ('ret', 'throw')):
                g = s1.ghost; ex.prove(s1, not g['hresumed'], 'the joiner is not resumed by its own await')
                if k == 'throw': ex.prove(s1, And(g['me'] == 'none', zb(g['dup'])), 'joining is refused only if somebody else is joining'); continue
                ex.prove(s1, k == 'ret', 'joining returns')
                if g['me'] == 'published': ex.prove(s1, zb(r), 'a registered joiner stays suspended')
                else: ex.prove(s1, And(g['me'] == 'none', Not(zb(r)), zb(g['zero']), zb(g['zacq'])), 'a joiner that is not registered continues at once, because no task is outstanding')
            for s1, k, r in ex.live(ex.exec_fn(st, M.F('j_resume'), [Ptr(j, 0)])): ex.prove(s1, k == 'ret', 'join yields nothing')
    V.check('async_launch_scope::join', mod, join)
    def future(ex):
        M = Scope(ex, mod, V); M.scoped = False; M.learn(ex); C, st = M.start(ex); M.op = 'join'; M.shared(ex, st); D = Adapter(ex, C, 'v', 'aw'); D.start(st); f = ex.new_region(st, 'future', 16)
        st.ghost.update(aws=1, ready=1, got=1, exc=None)
        M.joiner = lambda s: Ptr([r for r in ex.addr_list if r.id in live_frames(s)][0], 0)
        def finished(s, k, dup):
            ex.prove(s, k == 'ret', 'nothing leaves the coroutine'); P = s.ghost['P'].get(1); ex.prove(s, P is not None and P[0] == ('exc' if dup else 'val'), 'the future becomes ready when the join completes'); ex.prove(s, not live_frames(s), 'the frame is freed')
        for s, k, _ in ex.live(ex.exec_fn(st, M.F('s_future'), [Ptr(M.s, 0), Ptr(f, 0)])):
            g = s.ghost; ex.prove(s, k == 'ret' and D.fu.get(s, Ptr(f, 0)) == 1, 'the future of the promise is returned')
            if g['me'] == 'published':
                ex.prove(s, g['P'].get(1) is None, 'the future is pending while tasks are outstanding'); fr = M.joiner(s); s.mem[M.s.id].alive = False
                for s2, k2, _ in ex.live(ex.exec_fn(s, M.F('hres'), [fr])): finished(s2, k2, False)
            else:
                P = g['P'].get(1); dup = P is not None and P[0] == 'exc'
                ex.prove(s, zb(g['dup']) if dup else And(zb(g['zero']), zb(g['zacq'])), 'the future is ready at once only if no task is outstanding'); finished(s, k, dup)
    V.check('async_launch_scope::join_future', mod, future)
    def query(ex):
        M = Scope(ex, mod, V); M.scoped = False; M.learn(ex)
        for f in ('s_count', 's_done'):
            C, st = M.start(ex); M.op = 'query'; M.shared(ex, st)
            for s, k, r in ex.live(ex.exec_fn(st, M.F(f), [Ptr(M.s, 0)])):
                ex.prove(s, zi(r) == s.ghost['n'] if f == 's_count' else zb(r) == (s.ghost['n'] == 0), 'inflight_coroutines is the number of outstanding tasks' if f == 's_count' else 'all_done exactly if no task is outstanding')
    V.check('async_launch_scope queries', mod, query)
    V.assume_note('launch and join are called while the scope is alive; at most one coroutine joins at a time, or the later ones are refused', 'fewer than 2^60 tasks', 'allocation of the frame succeeds', 'std::promise and std::future by contract')
