"""bundled stop tokens: rely/guarantee over the state word (sources, lock, stop) and the owner count; the callback list under the
lock bit (dlist); the hand-over of a running callback between request_stop and the destructor of the callback"""
from .dlist import *
TU = 'stoptok.cpp'
class Word:
    """4 * sources + 2 * locked + stop requested"""
    def __init__(self, M, pre=''): self.M = M; self.pre = pre; self.dec = {}
    def observe(self, ex, st, kind):
        g = st.ghost; ex.prove(st, zi(g[self.pre + 'mine']) > 0, 'the shared state is only used while a reference to it is held')
        c = fresh_int('src'); st.assume(And(c >= g[self.pre + 'src'], c >= 0, c < 2 ** 28))
        if ex.valid(st, zb(g['hold'])): s, l = zi(g['stop']), z3.IntVal(1)
        else:
            s, l = fresh_int('stop'), fresh_int('locked'); st.assume(And(s >= 0, s <= 1, l >= 0, l <= 1, Implies(zb(g[self.pre + 'seen']), s == 1), Not(zb(g['hold']))))
        st.setg(self.pre + 'seen', Or(g[self.pre + 'seen'], s == 1)); st.setg(self.pre + 'unseen', Or(g[self.pre + 'unseen'], s == 0))
        st.setg(self.pre + 'pos', Or(g[self.pre + 'pos'], s == 1, c > 0)); st.setg(self.pre + 'neg', Or(g[self.pre + 'neg'], And(s == 0, c == 0)))
        v = 4 * c + 2 * l + s; self.dec[v.get_id()] = (v, c, l, s); return [(st, v)]
    def on_load(self, ex, st, cur, order, loc):
        v, c, l, s = self.dec[cur.get_id()]
        if order in ACQ: st.setg(self.pre + 'seenacq', Or(st.ghost[self.pre + 'seenacq'], s == 1))
    def commit(self, ex, st, old, new, order, loc, kind):
        g = st.ghost; v, c, l, s = self.dec[old.get_id()]; d = ex.simp(zi(new) - v); V = lambda x: ex.valid(st, x)
        if order in ACQ: st.setg(self.pre + 'seenacq', Or(g[self.pre + 'seenacq'], s == 1))
        if V(d == 4): ex.prove(st, zi(g[self.pre + 'src']) + 1 <= 2 ** 20, 'sources are counted', loc); st.setg(self.pre + 'src', ex.simp(zi(g[self.pre + 'src']) + 1)); return
        if V(d == -4):
            ex.prove(st, zi(g[self.pre + 'src']) > 0, 'only a source that exists is subtracted from the sources', loc); st.setg(self.pre + 'src', ex.simp(zi(g[self.pre + 'src']) - 1)); return
        if self.M.op == 'api': ex.prove(st, d == 0, 'copying, moving and asking changes nothing but the number of sources', loc); return
        if V(And(zb(g['hold']), d == -2)):
            ex.prove(st, order in REL, 'memory order: unlocking publishes the list of callbacks (release)', loc)
            self.M.release(ex, st, loc); st.setg('hold', z3.BoolVal(False)); return
        if V(And(Not(zb(g['hold'])), l == 0, Or(d == 2, d == 3))):
            ex.prove(st, kind == 'cas' or kind == 'or', 'the state is locked atomically', loc)
            ex.prove(st, order in ACQ, 'memory order: locking synchronises with the last holder (acquire)', loc)
            if not V(d == 2):
                ex.prove(st, And(d == 3, s == 0, self.M.op == 'request'), 'a stop is requested once, by request_stop', loc)
                ex.prove(st, order in REL, 'memory order: a stop request publishes what happened before (release)', loc)
                ex.prove(st, Not(zb(g['won'])), 'a stop is requested once', loc); st.setg('won', z3.BoolVal(True)); st.setg(self.pre + 'seen', z3.BoolVal(True)); st.setg('stop', z3.IntVal(1))
            else: st.setg('stop', ex.simp(s))
            st.setg('hold', z3.BoolVal(True)); self.M.acquire(ex, st, loc); return
        if V(d == 0): return
        ex.prove(st, False, 'the state word changes by one source, by locking when it is not locked, unlocking by the holder or requesting the stop once', loc)
class Owners:
    def __init__(self, M, pre=''): self.M = M; self.pre = pre
    def observe(self, ex, st, kind):
        g = st.ghost; m = g[self.pre + 'mine']; ex.prove(st, zi(m) > 0, 'the shared state is only used while a reference to it is held')
        n = fresh_int('owners'); st.assume(And(n >= m, n < 2 ** 30)); return [(st, n)]
    def commit(self, ex, st, old, new, order, loc, kind):
        p = self.pre + 'mine'; g = st.ghost
        if ex.valid(st, zi(new) == zi(old) + 1): st.setg(p, ex.simp(zi(g[p]) + 1)); return
        ex.prove(st, zi(new) == zi(old) - 1, 'references are counted one at a time', loc)
        ex.prove(st, And(order in REL, order in ACQ), 'memory order: dropping a reference is release (and acquire for the last one)', loc)
        st.setg(p, ex.simp(zi(g[p]) - 1)); st.setg(self.pre + 'last', ex.simp(Or(g[self.pre + 'last'], zi(old) == 1)))
class Done:
    def __init__(self, M): self.M = M
    def observe(self, ex, st, kind):
        g = st.ghost; ex.prove(st, zb(g['popped']), 'a destructor waits only for a callback that was taken for running')
        ex.prove(st, self.M.var == 'other', 'no deadlock: a destructor does not wait for its own thread')
        ex.prove(st, Not(zb(g['hold'])), 'no deadlock: a destructor does not wait with the state locked')
        n = fresh_int('done'); st.assume(And(n >= 0, n <= 1, Implies(zb(g['took']), n == 0))); return [(st, n)]
    def on_load(self, ex, st, cur, order, loc):
        if order in ACQ: st.setg('done', Or(st.ghost['done'], zi(cur) == 1))
    def commit(self, ex, st, old, new, order, loc, kind):
        if ex.valid(st, zi(old) == zi(new)): return self.on_load(ex, st, old, order, loc)
        ex.prove(st, And(zi(old) == 1, zi(new) == 0), 'the end of a run is consumed once it was signalled', loc)
        ex.prove(st, order in ACQ, 'memory order: the destructor synchronises with the end of the run (acquire)', loc)
        st.setg('done', z3.BoolVal(True)); st.setg('took', z3.BoolVal(True))
class Run:
    """the function of a callback that was taken from the list"""
    def __init__(self, M): self.M = M
    def vc_call(self, ex, st, args, loc):
        M = self.M; g = st.ghost; L = M.L
        ex.prove(st, And(zi(g['stage']) == 1, zi(ex.to_int(args[0])) == g['pend']), 'each callback taken from the list is run exactly once', loc)
        ex.prove(st, Not(zb(g['hold'])), 'callbacks run without the state locked', loc)
        ex.prove(st, And(g['won'], zi(ex.peek(st, M.S, L['req'])) == M.TID), 'callbacks run on the thread that requested the stop, which is known before', loc)
        fl = g['flag']; ok = isinstance(fl, Ptr) and st.mem.get(fl.r.id) is not None and st.mem[fl.r.id].alive
        if ok: ok = ex.eq(ex.peek(st, fl.r, fl.off, 1), 0)
        ex.prove(st, ok, 'while a callback runs, its destruction by itself can be told to request_stop', loc)
        s2 = st.clone()
        st.setg('stage', z3.IntVal(2))
        if isinstance(fl, Ptr): ex.put(s2, fl.r, fl.off, 1, 1)
        s2.setg('pend', z3.IntVal(0)); s2.setg('stage', z3.IntVal(0)); s2.setg('flag', None)
        return [(st, 'ret', None), (s2, 'ret', None)]
class Recs:
    """the registered callbacks"""
    def __init__(self, M): self.M = M
    def own(self, ex): return ex.addr(self.M.R) + self.M.L['node'] if self.M.R is not None else z3.IntVal(0)
    def locked(self, ex, st): return st.ghost['sec'] is not None and ex.valid(st, zb(st.ghost['hold']))
    def owns(self, ex, st, t):
        g = st.ghost; c = And(zi(g['stage']) > 0, t == g['pend'])
        if self.locked(ex, st): c = Or(c, And(self.M.D.inside(ex, st, t), t != self.own(ex)))
        return c
    def load(self, ex, st, t, off, ty, loc):
        M = self.M; L = M.L; g = st.ghost
        if off in (L['nx'], L['pv']):
            ex.prove(st, self.locked(ex, st), 'the list of callbacks is only used with the state locked', loc)
            return SPtr(M.D.read(ex, st, 'nx' if off == L['nx'] else 'pv', t))
        if off == L['fn']: return Run(M)
        if off == L['flag'] and ex.valid(st, t == g['pend']): return g['flag'] if g['flag'] is not None else 0
        raise ToolLimit('field of a callback record')
    def store(self, ex, st, t, off, v, ty, loc):
        M = self.M; L = M.L; g = st.ghost
        if off in (L['nx'], L['pv']):
            ex.prove(st, self.locked(ex, st), 'the list of callbacks is only used with the state locked', loc)
            M.D.write(ex, st, 'nx' if off == L['nx'] else 'pv', t, v); return
        if off == L['flag']:
            ex.prove(st, And(zi(g['stage']) > 0, t == g['pend']), 'only the thread that runs a callback uses its flag', loc)
            st.setg('flag', v if isinstance(v, Ptr) else None); return
        raise ToolLimit('write to a callback record')
    def atomic(self, ex, st, t, off, kind, ty, ops, order, extra, loc):
        M = self.M; L = M.L; g = st.ghost
        if off != L['done']: raise ToolLimit('atomic access to a callback record')
        ex.prove(st, And(zi(g['stage']) == 2, t == g['pend']), 'the end of a run is signalled once, after it, unless the callback destroyed itself', loc)
        ex.prove(st, kind in ('add', 'store', 'xchg') and same(ops[0], 1), 'the end of a run is signalled', loc)
        ex.prove(st, order in REL, 'memory order: the end of a run is published (release)', loc)
        ex.prove(st, g['flag'] is None, 'the flag of a callback is taken back before its destructor may go on', loc)
        st.setg('stage', z3.IntVal(0)); st.setg('pend', z3.IntVal(0))
        return [(st, None if kind == 'store' else 0)]
class Tok:
    def __init__(self, V, mod): self.V = V; self.mod = mod; self.F = lambda n: mod.funcs[n]
    def setup(self, ex, op, var=None):
        self.op = op; self.var = var; self.D = DList(); self.R = self.S = None; self.TID = z3.Int('tid'); self.rq = z3.Int('requester')
        C = lambda rx, f: (re.compile(rx), f)
        ex.contracts = [C(r'^pthread_self$', lambda ex_, st, F, a, loc: self.TID), C(r'^llvm\.x86\.sse2\.pause$', lambda *a: None), C(r'^vt::CB::', self.cb)]
        ex.loop_cands = [self.cands]; ex.ghost_havoc = {}
    def begin(self, ex):
        st = State(); st.assume(And(self.TID > 0, self.TID < 2 ** 47, self.rq >= 0, self.rq < 2 ** 47)); self.D.start(st)
        st.ghost.update(mine=z3.IntVal(0), src=z3.IntVal(0), hold=z3.BoolVal(False), seen=z3.BoolVal(False), unseen=z3.BoolVal(False), seenacq=z3.BoolVal(False), pos=z3.BoolVal(False),
            neg=z3.BoolVal(False), stop=z3.IntVal(0), won=z3.BoolVal(False), pend=z3.IntVal(0), stage=z3.IntVal(0), flag=None, last=z3.BoolVal(False), emp=z3.BoolVal(False),
            popped=z3.BoolVal(False), gone=z3.BoolVal(False), pub=z3.BoolVal(False), done=z3.BoolVal(False), took=z3.BoolVal(False), ran=z3.IntVal(0), cbs=z3.IntVal(0), dead=z3.BoolVal(False))
        return st
    def cands(self, ex, st, env, L):
        g = st.ghost; out = []
        if self.S is None: return out
        for n in ('mine', 'src', 'stop', 'pend', 'stage', 'ran', 'cbs'):
            for v in (0, 1, 2): out.append(('%s == %d' % (n, v), zi(g[n]) == v))
        for n in ('hold', 'seen', 'unseen', 'seenacq', 'won', 'last', 'emp', 'popped', 'gone', 'pub', 'done', 'took', 'dead', 'neg', 'pos'):
            out += [('%s' % n, zb(g[n])), ('not %s' % n, Not(zb(g[n])))]
        if g['sec'] is not None: out.append(('list head', zi(ex.to_int(ex.peek(st, self.S, self.L['head']))) == g['sec'].h)); out.append(('list unchanged', len(g['ov']) == 0))
        for kind, nm, v in L.slots:
            if kind in ('int', 'ptr') and (isinstance(v, int) or isz(v) and v.sort() == z3.IntSort()):
                out += [('%s: a stop was seen' % nm, Implies(zi(v) % 2 == 1, zb(g['seenacq']))), ('%s: no sources were seen' % nm, Implies(And(zi(v) < 4, zi(v) % 2 == 0), zb(g['neg'])))]
        out.append(('requester', zi(ex.to_int(ex.peek(st, self.S, self.L['req']))) == self.TID))
        out.append(('no flag', g['flag'] is None))
        return out
    # ---- learning
    def learn(self, ex):
        try: return self.learn_(ex)
        except (StopIteration, ValueError, KeyError, IndexError, AttributeError) as e: raise ToolLimit('the operations do not behave as expected when run one after the other (%r)' % e)
    def learn_(self, ex):
        """runs the real operations and looks where things are"""
        st = self.begin(ex); L = self.L = {}; ex.trial += 1; un = ex.unroll; ex.unroll = 8; ex.strong_cas = True; op, self.op = self.op, 'learn'
        c = lambda n: const(ex, self.mod, n)
        def run(st, fn, *a):
            o = [x for x in ex.exec_fn(st, self.F(fn), list(a)) if x[1] == 'ret' and ex.sat(x[0])]
            if len(o) != 1: raise ToolLimit('learning %s' % fn)
            return o[0][0], o[0][2]
        def new(n, sz): r = ex.new_region(st, n, c(sz)); ex.addr(r); return r
        cells = lambda st, r: dict((o, v) for o, (sz, v) in st.mem[r.id].cells.items())
        diff = lambda a, b: [o for o in b if not same(a.get(o), b[o])]
        h1 = new('src', 's_size'); st, _ = run(st, 's_ctor', Ptr(h1, 0))
        ho, p = next((o, v) for o, v in cells(st, h1).items() if isinstance(v, Ptr)); S = self.S0 = p.r; L['hs'] = ho; L['s0'] = cells(st, S); ex.addr(S)
        if p.off != 0: raise ToolLimit('state pointer')
        a = cells(st, S); t1 = new('tok', 't_size'); st2, _ = run(st.clone(), 's_token', Ptr(t1, 0), Ptr(h1, 0)); b = cells(st2, S)
        L['owners'], = diff(a, b); L['ht'] = next(o for o, v in cells(st2, t1).items() if isinstance(v, Ptr))
        h2 = new('src2', 's_size'); st3, _ = run(st.clone(), 's_copy', Ptr(h2, 0), Ptr(h1, 0))
        L['word'], = [o for o in diff(a, cells(st3, S)) if o != L['owners']]
        st3, _ = run(st.clone(), 's_request', Ptr(h1, 0)); d = diff(a, cells(st3, S)); L['req'], = [o for o in d if o != L['word']]
        if not same(cells(st3, S)[L['req']], self.TID): raise ToolLimit('requester')
        st = st2; A = new('cbA', 'c_size'); f = ex.new_region(st, 'f', 8); st, _ = run(st, 'c_ctor', Ptr(A, 0), Ptr(t1, 0), Ptr(f, 0)); b = cells(st, S)
        L['head'], n = next((o, v) for o, v in b.items() if isinstance(v, Ptr) and v.r is A); L['node'] = n.off
        st1 = st.clone(); Bb = new('cbB', 'c_size'); st, _ = run(st, 'c_ctor', Ptr(Bb, 0), Ptr(t1, 0), Ptr(f, 0))
        L['pv'] = next(o for o, v in cells(st, A).items() if isinstance(v, Ptr) and v.r is Bb) - n.off
        L['nx'] = next(o for o, v in cells(st, Bb).items() if isinstance(v, Ptr) and v.r is A) - n.off
        L['fn'] = next(o for o, v in cells(st, A).items() if isinstance(v, FnPtr)) - n.off
        L['hc'] = next(o for o, v in cells(st, A).items() if isinstance(v, Ptr) and v.r is S)
        self.probe = []
        st4, _ = run(st1.clone(), 's_request', Ptr(h1, 0))
        if not self.probe: raise ToolLimit('learning: callback not run')
        k = cells(self.probe[-1], A); L['flag'] = next(o for o, v in k.items() if isinstance(v, Ptr) and v.r not in (A, Bb, S)) - n.off
        L['done'] = next(o for o in diff(k, cells(st4, A)) if o != L['flag'] + n.off) - n.off
        self.probe = None
        ex.trial -= 1; ex.unroll = un; ex.strong_cas = False; self.op = op; self.regs = dict(S=S, A=A, src=h1, tok=t1)
        self.st1 = st1
        return st1
    def cb(self, ex, st, F, a, loc):
        m = method(F.dem)[1]; g = st.ghost
        if self.op == 'learn':
            if m == 'operator()': self.probe.append(st.clone())
            return None
        inner = isinstance(a[0], Ptr) and a[0].r is self.R
        if m == 'CB': st.setg('cbs', ex.simp(zi(g['cbs']) + 1)); ex.prove(st, And(inner, zi(st.ghost['cbs']) == 1), 'the callable is stored once', loc); return None
        if m == '~CB':
            ex.prove(st, And(self.op == 'dtor', inner, Not(zb(g['dead']))), 'the callable is destroyed once, with the callback', loc)
            ex.prove(st, self.finished(ex, st), 'a callback is destroyed only after it was deregistered or a run on another thread ended', loc)
            ex.prove(st, Not(zb(g['hold'])), 'user code runs without the state locked', loc); st.setg('dead', z3.BoolVal(True)); return None
        if m == 'operator()' and self.op == 'exec':
            ex.prove(st, inner, 'running a callback calls its callable', loc); st.setg('ran', ex.simp(zi(g['ran']) + 1)); return None
        if m == 'operator()':
            ex.prove(st, And(self.op == 'reg', inner, zi(g['cbs']) == 1), 'a callback that is not in the list is run by its constructor only', loc)
            ex.prove(st, And(g['seenacq'], Not(zb(g['pub'])), zi(g['ran']) == 0, Not(zb(g['hold']))), 'a constructor runs its callback only after the stop was requested, once, unregistered and without the state locked', loc)
            st.setg('ran', z3.IntVal(1)); return None
        raise ToolLimit('use of a callable: ' + F.dem)
    # ---- the lock
    def acquire(self, ex, st, loc):
        g = st.ghost; L = self.L; s = self.D.open(ex, st); ex.put(st, self.S, L['head'], 8, SPtr(s.h))
        if self.R is None: return
        a = self.recs.own(ex); self.D.touch(ex, st, a); n = L['node']
        if self.op == 'dtor':
            st.assume(Implies(Not(s.In(a)), And(s.pv(a) == 0, Or(g['gone'], zi(g['stop']) == 1)))); st.assume(Implies(Or(g['gone'], g['popped']), Not(s.In(a))))
            st.setg('popped', Or(g['popped'], And(Not(s.In(a)), Not(zb(g['gone'])))))
            ex.put(st, self.R, n + L['nx'], 8, SPtr(s.nx(a))); ex.put(st, self.R, n + L['pv'], 8, SPtr(s.pv(a)))
        else:
            st.assume(Implies(Not(zb(g['pub'])), Not(s.In(a))))
            if not ex.valid(st, Not(zb(g['pub']))): ex.put(st, self.R, n + L['nx'], 8, SPtr(s.nx(a))); ex.put(st, self.R, n + L['pv'], 8, SPtr(s.pv(a)))
    def release(self, ex, st, loc):
        g = st.ghost; L = self.L; s = g['sec']; D = self.D
        h2 = ex.to_int(ex.peek(st, self.S, L['head'])); st.assume(facts(s.tup(), s.h))
        D.touch(ex, st, zi(h2)); also = [s.h]; a = None
        if self.R is not None:
            a = self.recs.own(ex); n = L['node']; also.append(a)
            for f in ('nx', 'pv'): D.write(ex, st, f, a, ex.peek(st, self.R, n + L[f]))
        V = lambda In2, od2: (lambda r: ex.valid(*r))(D.holds(ex, st, h2, In2, od2, also))
        if V(s.In, s.od): pass
        elif self.op == 'request' and V(lambda t: And(s.In(t), t != s.h), s.od) and ex.valid(st, s.h != 0):
            ex.prove(st, And(g['won']), 'only the thread that requested the stop takes callbacks from the list to run them', loc)
            ex.prove(st, zi(g['stage']) == 0, 'the callback taken before was run', loc)
            st.setg('pend', s.h); st.setg('stage', z3.IntVal(1))
        elif self.op == 'dtor' and ex.valid(st, s.In(a)) and V(lambda t: And(s.In(t), t != a), s.od):
            st.setg('gone', z3.BoolVal(True))
        else:
            s2, c = D.holds(ex, st, h2, lambda t: Or(s.In(t), t == a) if a is not None else s.In(t), lambda t: z3.If(t == a, s.od(s.h) - 1, s.od(t)) if a is not None else s.od(t), also)
            ex.prove(st, self.op == 'reg', 'the list of callbacks stays intact when the lock is released', loc)
            if self.op != 'reg': return
            ex.prove(st, And(zi(g['stop']) == 0, zi(g['ran']) == 0, Not(zb(g['pub']))), 'a callback is registered once, and only while no stop was requested', loc)
            ex.prove(st, And(ex.eq(ex.peek(st, self.R, L['node'] + L['flag']), 0), ex.eq(ex.peek(st, self.R, L['node'] + L['done'], 4), 0)), 'a new callback is neither running nor done', loc)
            ex.prove(s2, c, 'the list of callbacks stays intact when the lock is released (a new callback is linked in front)', loc)
            st.setg('pub', z3.BoolVal(True))
        st.setg('emp', ex.simp(And(zi(h2) == 0, zi(g['stop']) == 1)))
    def guard(self, ex, st, p, size, write, loc):
        if ex.in_atomic or not isinstance(p.off, int): return
        g = st.ghost; L = self.L
        if not ex.valid(st, zi(g['mine']) > 0):
            ex.prove(st, Or(zi(g['mine']) > 0, g['last']), 'the shared state is only used while a reference to it is held', loc)
        if p.off == L['head']: ex.prove(st, zb(g['hold']), 'data race: the list of callbacks is only used with the state locked', loc)
        if p.off == L['req']:
            if write: ex.prove(st, And(g['hold'], g['won']), 'data race: the requesting thread is recorded with the state locked, by the one that requested the stop', loc)
            else: ex.prove(st, Or(g['won'], g['popped'], g['hold']), 'data race: the requesting thread is only read when it is known to be recorded', loc)
    def guardr(self, ex, st, p, size, write, loc):
        if not isinstance(p.off, int): return
        g = st.ghost; L = self.L; o = p.off - L['node']
        if o in (L['nx'], L['pv']) and self.op == 'dtor' : ex.prove(st, zb(g['hold']), 'data race: the links of a registered callback are only used with the state locked', loc)
        if self.op == 'reg' and o in (L['nx'], L['pv'], L['flag']): ex.prove(st, Or(Not(zb(g['pub'])), And(g['hold'], o != L['flag'])), 'data race: a registered callback belongs to the list', loc)
        if self.op == 'dtor' and o == L['flag']: ex.prove(st, And(g['popped'], self.var != 'other'), 'data race: the flag of a callback belongs to the thread that runs it', loc)
    def finished(self, ex, st):
        g = st.ghost; w = {'other': zb(g['done']), 'idle': True, 'running': True}[self.var]
        if self.var == 'running': w = ex.eq(ex.peek(st, self.flag, 0, 1), 1)
        return Or(g['gone'], And(g['popped'], w))
    def install(self, ex, st):
        """any number of other threads from here on"""
        S = self.S = self.S0; L = self.L; self.recs = Recs(self); st.fams.append(self.recs); self.D.havoc(ex)
        st.shared[(S.id, L['word'])] = Word(self); st.shared[(S.id, L['owners'])] = Owners(self); st.guards[S.id] = self.guard
        st.mem[S.id].cells.pop(L['head'], None); ex.put(st, S, L['req'], 8, self.rq); st.assume(self.rq != self.TID if self.var == 'other' else z3.BoolVal(True))
        st.writes = set()
    # ---- contracts
    def request(self, ex):
        self.setup(ex, 'request'); st = self.learn(ex); self.install(ex, st); st.ghost.update(mine=z3.IntVal(1), src=z3.IntVal(1)); h = self.regs['src']
        for st, k, v in ex.live(ex.exec_fn(st, self.F('s_request'), [Ptr(h, 0)])):
            if k != 'ret': ex.fail(st, 'request_stop returns'); continue
            g = st.ghost; w = zb(g['won'])
            ex.prove(st, zb(v) == w, 'request_stop returns true exactly when it requested the stop')
            ex.prove(st, Or(w, g['seenacq']), 'request_stop returns false only when a stop was requested')
            ex.prove(st, And(Not(zb(g['hold'])), zi(g['stage']) == 0), 'request_stop leaves the state unlocked and every callback it took was run and its end signalled')
            ex.prove(st, Implies(w, g['emp']), 'request_stop returns when no registered callback is left')
            ex.prove(st, And(zi(g['mine']) == 1, zi(g['src']) == 1, Not(zb(g['last']))), 'request_stop keeps the reference of its source')
    def reg(self, fn):
        def body(ex):
            self.setup(ex, 'reg'); st = self.learn(ex); L = self.L; t = self.regs['tok']; self.S = self.S0
            self.R = ex.new_region(st, 'callback', const(ex, self.mod, 'c_size')); ex.addr(self.R); st.assume(ex.addr(self.R) > 0); f = ex.new_region(st, 'callable', 8)
            self.install(ex, st); st.guards[self.R.id] = self.guardr; st.ghost.update(mine=z3.IntVal(1))
            for st, k, v in ex.live(ex.exec_fn(st, self.F(fn), [Ptr(self.R, 0), Ptr(t, 0), Ptr(f, 0)])):
                if k != 'ret': ex.fail(st, 'a callback is constructed'); continue
                g = st.ghost; held = ex.eq(ex.peek(st, self.R, L['hc']), Ptr(self.S, 0)); tk = ex.eq(ex.peek(st, t, L['ht']), Ptr(self.S, 0))
                ex.prove(st, Not(zb(g['hold'])), 'the state is unlocked')
                ex.prove(st, Or(g['pub'], zi(g['ran']) == 1, g['neg']), 'a callback is registered, or run at once when the stop was requested; only without sources neither')
                ex.prove(st, Not(And(g['pub'], zi(g['ran']) == 1)), 'a callback that was run at once is not registered')
                ex.prove(st, zb(g['pub']) == zb(held), 'the callback keeps the state alive exactly when it is registered')
                ex.prove(st, zi(g['mine']) == z3.If(zb(held), 1, 0) + z3.If(zb(tk), 1, 0), 'references are counted')
                if fn != 'c_mctor': ex.prove(st, tk, 'a token that is passed by reference keeps its state')
                ex.prove(st, zi(g['src']) == 0, 'a callback is no source')
                fr = S = self.S; ex.prove(st, zb(g['last']) == (S.id not in (st.ghost.get('heap') or ())), 'the state is freed exactly with its last reference')
                ex.prove(st, zi(g['cbs']) == 1, 'the callable is stored')
                if not ex.valid(st, zb(g['pub'])): continue
                self.op = 'exec'; fp = ex.peek(st, self.R, L['node'] + L['fn'])
                for s2, k2, _ in ex.live(ex.call_ptr(st, fp, [Ptr(self.R, L['node'])], '')): ex.prove(s2, And(k2 == 'ret', zi(s2.ghost['ran']) == 1), 'running a callback calls its callable once')
                self.op = 'reg'
        return body
    def regnull(self, fn):
        def body(ex):
            self.setup(ex, 'reg'); st = self.learn(ex); L = self.L; self.S = None; t = ex.new_region(st, 'token', const(ex, self.mod, 't_size')); ex.put(st, t, L['ht'], 8, 0)
            self.R = ex.new_region(st, 'callback', const(ex, self.mod, 'c_size')); ex.addr(self.R); f = ex.new_region(st, 'callable', 8)
            st.mem[self.S0.id].own = False
            for st, k, v in ex.live(ex.exec_fn(st, self.F(fn), [Ptr(self.R, 0), Ptr(t, 0), Ptr(f, 0)])):
                ex.prove(st, And(k == 'ret', ex.eq(ex.peek(st, self.R, L['hc']), 0), ex.eq(ex.peek(st, t, L['ht']), 0), zi(st.ghost['ran']) == 0, zi(st.ghost['cbs']) == 1), 'without a state nothing is registered or run')
        return body
    def dtor(self, var):
        def body(ex):
            self.setup(ex, 'dtor', var); st = self.learn(ex); L = self.L; n = L['node']; self.R = self.regs['A']
            self.install(ex, st); st.guards[self.R.id] = self.guardr; st.shared[(self.R.id, n + L['done'])] = Done(self); st.ghost.update(mine=z3.IntVal(1), cbs=z3.IntVal(1))
            if var != 'other':
                st.assume(self.rq == self.TID)
            if var == 'running':
                self.flag = ex.new_region(st, 'flag', 1); ex.addr(self.flag); ex.put(st, self.flag, 0, 1, 0); ex.put(st, self.R, n + L['flag'], 8, Ptr(self.flag, 0))
            else: ex.put(st, self.R, n + L['flag'], 8, 0)
            for st, k, v in ex.live(ex.exec_fn(st, self.F('c_dtor'), [Ptr(self.R, 0)])):
                if k != 'ret': ex.fail(st, 'a callback is destroyed'); continue
                g = st.ghost
                ex.prove(st, And(self.finished(ex, st), g['dead'], Not(zb(g['hold']))), 'a callback is deregistered, or its run has ended or knows')
                if var == 'running': ex.prove(st, Implies(g['gone'], ex.eq(ex.peek(st, self.flag, 0, 1), 0)), 'only a run is told')
                ex.prove(st, And(zi(g['mine']) == 0, zi(g['src']) == 0), 'the reference of the callback is dropped')
                ex.prove(st, zb(g['last']) == (self.S.id not in (st.ghost.get('heap') or ())), 'the state is freed exactly with its last reference')
        return body
    # ---- sources and tokens
    def api(self, op):
        T = dict(s_copy='Ns', s_move='Ns', s_assign='ss', s_massign='ss', s_dtor='s', s_swap='ss', s_fswap='ss', s_eq='ss', s_possible='s', s_requested='s', s_token='ns', s_none='N', s_ctor='N',
            t_ctor='n', t_copy='nt', t_move='nt', t_assign='tt', t_massign='tt', t_dtor='t', t_swap='tt', t_fswap='tt', t_eq='tt', t_possible='t', t_requested='t')
        sig = T[op]; what = op[2:]
        def body(ex):
            self.setup(ex, 'learn'); base = self.learn(ex); self.op = 'learn'; L = self.L; hx = ex.new_region(base, 'src2', const(ex, self.mod, 's_size'))
            (base, _, _), = [o for o in ex.exec_fn(base, self.F('s_ctor'), [Ptr(hx, 0)])]; S = {1: self.S0, 2: ex.peek(base, hx, L['hs']).r}; self.op = 'api'
            alone = [()] if sig[0] in 'nN' and len(sig) == 1 else [(x,) for x in (0, 1)] if len(sig) == 1 or sig[0] in 'nN' else [(x, y) for x in (0, 1) for y in (0, 1, 2)] + [('self', x) for x in (0, 1)]
            for vals in alone:
                st = base.clone(); self.S = None; self.R = None; st.writes = set()
                for i, q in ((1, ''), (2, 'b:')):
                    st.shared[(S[i].id, L['word'])] = Word(self, q); st.shared[(S[i].id, L['owners'])] = Owners(self, q); st.guards[S[i].id] = self.guard_api(q, S[i])
                    for n, v in (('mine', z3.IntVal(0)), ('src', z3.IntVal(0)), ('seen', False), ('unseen', False), ('seenacq', False), ('pos', False), ('neg', False), ('last', z3.BoolVal(False))): st.ghost[q + n] = v if isz(v) else z3.BoolVal(v)
                args = []; hs = []; own = list(vals); selfop = own[:1] == ['self']
                if selfop: own = [own[1]]
                for c in sig:
                    if selfop and hs: args.append(args[0]); continue
                    cls = 's' if c in 'sN' else 't'; r = ex.new_region(st, 'obj' + c, const(ex, self.mod, cls + '_size')); ex.addr(r); v = None
                    if c in 'st':
                        v = own.pop(0); ex.put(st, r, L['h' + cls], 8, Ptr(S[v], 0) if v else 0)
                        if v:
                            q = '' if v == 1 else 'b:'; st.ghost[q + 'mine'] = ex.simp(st.ghost[q + 'mine'] + 1)
                            if cls == 's': st.ghost[q + 'src'] = ex.simp(st.ghost[q + 'src'] + 1)
                    hs.append((r, cls, v)); args.append(Ptr(r, 0))
                for s, k, v in ex.live(ex.exec_fn(st, self.F(op), args)): self.after(ex, s, k, v, what, hs, selfop, S)
        return body
    def guard_api(self, q, S):
        def g(ex, st, p, size, write, loc):
            if not ex.in_atomic and not ex.valid(st, zb(st.ghost[q + 'last'])): ex.prove(st, False, 'copying, moving and asking only uses the counters of the state', loc)
        return g
    def after(self, ex, st, k, v, what, hs, selfop, S):
        L = self.L; g = st.ghost
        if k != 'ret': ex.fail(st, '%s returns' % what); return
        def val(r, cls):
            p = ex.peek(st, r, L['h' + cls])
            if isinstance(p, Ptr) and same(p.off, 0): return next((i for i in S if S[i] is p.r), p.r)
            return 0 if ex.valid(st, zi(ex.to_int(p)) == 0) else None
        live = [(r, cls) for r, cls, _ in hs] if what != 'dtor' else []
        now = [val(r, cls) for r, cls in live]; old = [x for _, _, x in hs]
        if what == 'ctor' and hs[0][1] == 's':
            n = now[0]; ok = hasattr(n, 'id'); c = dict((o, x) for o, (sz, x) in st.mem[n.id].cells.items()) if ok else {}
            ex.prove(st, And(ok, ex.eq(c.get(L['word'], 0), 4), ex.eq(c.get(L['owners'], 0), 1), ex.eq(c.get(L['head'], 1), 0)) if ok else False, 'a new source owns a new state: one source, one reference, no callback, no stop')
        exp = {'copy': lambda: [old[1], old[1]], 'move': lambda: [old[1], 0], 'assign': lambda: [old[1], old[1]], 'massign': lambda: [old[1], 0], 'swap': lambda: [old[1], old[0]], 'fswap': lambda: [old[1], old[0]],
            'eq': lambda: old, 'possible': lambda: old, 'requested': lambda: old, 'token': lambda: [old[1], old[1]], 'none': lambda: [0], 'dtor': lambda: [], 'ctor': lambda: [0] if hs[0][1] == 't' else now}[what]
        if not selfop: ex.prove(st, now == exp(), 'afterwards the handles refer to the states they should')
        elif what != 'massign': ex.prove(st, now == old, 'an operation of a handle with itself changes nothing')
        for i, q in ((1, ''), (2, 'b:')):
            ex.prove(st, g[q + 'mine'] == sum(1 for x in now if x == i), 'every handle holds exactly one reference')
            ex.prove(st, g[q + 'src'] == sum(1 for x, (r, c) in zip(now, live) if x == i and c == 's'), 'every source is counted as one')
            ex.prove(st, zb(g[q + 'last']) == (S[i].id not in (g.get('heap') or ())), 'the state is freed exactly with its last reference')
        o = old[0]
        if what == 'eq': ex.prove(st, zb(v) == (o == old[1] if not selfop else True), 'handles are equal when they share their state')
        if what == 'possible': ex.prove(st, And(Implies(zb(v), Or(g['pos'], bool(o) and hs[0][1] == 's')), Implies(Not(zb(v)), Or(not o, g['neg']))), 'a stop is possible exactly when it was requested or there is a source')
        if what == 'requested': ex.prove(st, And(Implies(zb(v), g['seenacq']), Implies(Not(zb(v)), Or(not o, g['unseen']))), 'stop_requested tells whether a stop was requested, and synchronises with it')
    def all(self):
        C = self.V.check
        for op in ('s_none', 's_ctor', 's_copy', 's_move', 's_assign', 's_massign', 's_dtor', 's_swap', 's_fswap', 's_eq', 's_possible', 's_requested', 's_token', 't_ctor', 't_copy', 't_move', 't_assign', 't_massign', 't_dtor', 't_swap', 't_fswap', 't_eq', 't_possible', 't_requested'):
            C({'s': 'stop_source ', 't': 'stop_token '}[op[0]] + op[2:], self.mod, self.api(op))
        C('stop_source::request_stop', self.mod, self.request)
        for fn in ('c_ctor', 'c_mctor', 'c_cctor'): C('stop_callback(token) ' + fn, self.mod, self.reg(fn)); C('stop_callback(token) without state ' + fn, self.mod, self.regnull(fn))
        for v in ('other', 'idle', 'running'): C('~stop_callback, stop requested by %s' % {'other': 'another thread', 'idle': 'this thread', 'running': 'this thread, which runs the callback now'}[v], self.mod, self.dtor(v))
def verify(V):
    V.par = 8; mod = V.module(TU)
    Tok(V, mod).all()
