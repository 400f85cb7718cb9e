"""timer: a monitor (mutex, condition variable) over the pushed callbacks and the two time ordered sets; the node of an entry is the
linear carrier of its callback: it is taken by the timer thread or by its cancellation, which run concurrently"""
from .lib import *
from .lib import method
CB = 'std::function<void (bool)>'; FN = 'std::function<void ()>'
BIG = 2 ** 61
class Flag:
    """the shutdown flag: set once, with the lock held"""
    def __init__(self, M): self.M = M
    def observe(self, ex, st, kind):
        if self.M.held(st) or st.ghost['solo']: return [(st, z3.If(zb(st.ghost['done']), z3.IntVal(1), z3.IntVal(0)))]
        b = fresh_bool('done'); st.assume(Implies(zb(st.ghost['seen']), b))
        if self.M.op in ('push', 'schedule'): b = self.M.down      # not concurrently with the destruction
        st.setg('seen', Or(st.ghost['seen'], b))
        return [(st, z3.If(b, z3.IntVal(1), z3.IntVal(0)))]
    def commit(self, ex, st, old, new, order, loc, kind):
        ex.prove(st, self.M.held(st), 'the shutdown flag changes only with the lock held (a waiting timer thread cannot miss it)', loc)
        ex.prove(st, And(self.M.op == 'dtor', zi(new) != 0), 'only the destructor shuts the timer down, for good', loc)
        st.setg('done', True); st.setg('seen', True)
    def plain(self, ex, st, v, loc): raise ToolLimit('plain shutdown flag')
class TM:
    def __init__(self, V, mod): self.V = V; self.mod = mod; self.F = lambda n: mod.funcs[n]; self.learnt = False
    def func(self, rx):
        c = [f for f in self.mod.funcs.values() if re.search(rx, f.dem) and not f.decl]
        if len(c) != 1: raise ToolLimit('%s: %d functions' % (rx, len(c)))
        return c[0]
    # ---- set up
    def learn(self, ex):
        c = lambda n, *a: const(ex, self.mod, n)
        self.size = c('tm_size'); self.ps = c('tm_psize'); self.cs = c('tm_csize'); self.CON, self.PEN, self.TAK = c('tm_constructing'), c('tm_pending'), c('tm_taken')
        ex.trial += 1; st = State(); r = ex.new_region(st, 'x', max(self.size, self.cs))
        o = lambda n: ex.simp(zi(ex.exec_fn(st.clone(), self.F(n), [Ptr(r, 0)])[0][2]))
        off = lambda n: (lambda v: v if isinstance(v, int) else v.as_long())(o(n))
        self.cur, self.tok_o, self.time, self.inv = off('tm_curoff'), off('tm_tokoff'), off('tm_timeoff'), off('tm_invoff')
        self.mo, self.qo, self.so, self.co, self.eo, self.to = off('tm_mtx'), off('tm_pushed'), off('tm_pset'), off('tm_cset'), off('tm_exit'), off('tm_thr')
        ex.trial -= 1; self.learnt = True
    def held(self, st): return (self.r.id, self.mo) in st.ghost['held']
    def pre(self, ex, op, alive=True):
        if not self.learnt: self.learn(ex)
        self.op = op; self.ex = ex; self.nodes = {}; self.nsec = {}; self.N = None; self.cb = None; self.tok = None; self.when = None; self.down = fresh_bool('down')
        ex.contracts = []
        self.uf = Opaque(ex, CB, empty=0, moved=0, call=self.ucall, other=lambda ex_, st, m, ps, a, loc: self.cl.mk(self.uf, ex_, st, m, ps, a, loc), dtor=self.udtor)
        self.pf = Opaque(ex, FN, empty=0, moved=0, call=self.pcall, dtor=self.pdtor, other=lambda ex_, st, m, ps, a, loc: self.cl.mk(self.pf, ex_, st, m, ps, a, loc))
        self.cl = Closures(); self.sq = Seqs(ex, self.pf, classes=r'std::(deque|queue)<', throws=False, elemsize=32)
        self.stk = Opaque(ex, 'std::stop_token', empty=0, moved=0)
        C = lambda rx, h: (re.compile(rx), h)
        ex.contracts = [
            C(r'std::multiset<asyncpp::timer::', self.mset), C(r'std::_Node_handle<asyncpp::timer::', self.handle),
            C(r'std::_Rb_tree_const_iterator<asyncpp::timer::\w+>::operator(->|\*)\(\) const$', lambda ex_, st, F, a, loc: self.deref(ex_, st, a, loc)),
            C(r'^std::stop_callback<.*>::(stop_callback<|~stop_callback\(\))', self.stopcb),
            C(r'^std::chrono::_V2::(steady|system)_clock::now\(\)$', self.now),
            C(r'^std::cv_status std::condition_variable::wait_for<|std::condition_variable::wait_until<', self.wait),
            C(r'^bool std::condition_variable::wait_|^std::condition_variable::wait', lambda *x: (_ for _ in ()).throw(ToolLimit('unexpected kind of wait'))),
            C(r'^pthread_self', lambda *x: fresh_int('self')), C(r'^pthread_setname_np', lambda *x: 0),
            C(r'^std::thread::_M_start_thread\(', self.spawn), C(r'^std::thread::join\(\)$', self.join),
        ] + ex.contracts
        self.sq.guard = lambda ex_, s, k, w, loc: self.access(ex_, s, k, loc)
        self.sq.hooks = {'emplace_back': self.eback, 'dropped': self.drop, 'pushed': self.pushed, 'destroyed': self.gone}
        st = State(); r = self.r = ex.new_region(st, 'timer', self.size); ex.addr(r)
        st.ghost.update(held=(), seen=False, done=None, secsig=False, eff=z3.IntVal(0), hand=z3.IntVal(0), htp=z3.IntVal(0), last=z3.IntVal(0), popped=z3.IntVal(0), plast=z3.IntVal(0), need=z3.IntVal(0), clock=z3.IntVal(0), fresh=False, reg=(), cancelled=False, inset=(), lost=False, rec=None, solo=not alive, joined=False, empty=False, started=False, out=(), grew=False, threw=False, rn1=z3.IntVal(0), rn2=z3.IntVal(0), rq=z3.IntVal(0), sec=z3.IntVal(0))
        if alive:
            st.shared[(r.id, self.eo)] = Flag(self)
            for n in ('pA', 'ph', 'pt', 'pd'): st.ghost[n] = None
        Locks(ex, self.acq, self.rel)
        ex.hooks['notify_all'] = ex.hooks['notify_one'] = self.notify
        ex.loop_cands = [self.cands]; ex.ghost_havoc = dict(getattr(ex, 'ghost_havoc', {}))
        for o in (self.so, self.co): ex.ghost_havoc[self.nm((r.id, o), 'kn')] = lambda ex_, s: (); ex.ghost_havoc[self.nm((r.id, o), 'first')] = lambda ex_, s: None
        return st
    def access(self, ex, st, k, loc):
        if k[0] == self.r.id: ex.prove(st, self.held(st) or bool(st.ghost['solo']), 'the entries of a running timer are only accessed with the lock held', loc)
    # ---- nodes of the sets
    def kind(self, cls): return 'c' if 'cancellable' in cls else 'p'
    def node(self, ex, st, kind, tp, tok, state=None, reg=True):
        r = ex.new_region(st, 'node_' + kind, self.cs if kind == 'c' else self.ps, 'heap'); ex.addr(r); self.nodes[r.id] = (r, kind)
        f = ex.new_region(st, 'f', 32); ex.put(st, f, 0, 8, tok); g = st.ghost; keep = g['rec']
        s = self.one(ex, ex.exec_fn(st, self.F('tm_mkentry' if kind == 'c' else 'tm_mkplain'), [Ptr(r, 0), tp, Ptr(f, 0)]), st)
        if state is not None:
            ex.put(st, r, self.cur, 4, state)
            if reg:
                k = ex.new_region(st, 'st', 16); ex.put(st, k, 0, 8, z3.IntVal(1)); self.quiet = True
                try: self.one(ex, ex.exec_fn(st, self.F('tm_engage'), [Ptr(r, 0), Ptr(k, 0), Ptr(self.r, 0), Ptr(r, 0)]), st)
                finally: self.quiet = False
        st.guards[r.id] = self.nguard
        return r
    quiet = False
    def one(self, ex, outs, st):
        outs = ex.live(outs)
        if len(outs) != 1 or outs[0][1] != 'ret': raise ToolLimit('entry not constructed')
        s = outs[0][0]
        if s is not st: st.__dict__.update(s.__dict__)
        return st
    def nguard(self, ex, st, p, size, write, loc):
        rid = p.r.id
        if rid in self.nsec and (self.op != 'schedule' or rid in st.ghost['inset']) and rid not in st.ghost['out'] and not st.ghost['solo']:
            ex.prove(st, self.held(st) and zi(self.nsec[rid]) == zi(st.ghost['sec']), 'an entry of the set is only accessed with the lock held, and not after it was released', loc)
        if isinstance(p.off, int) and p.off < self.cur + 4 and p.off + size > self.cur and p.r.id in st.ghost['reg']:
            ex.prove(st, self.held(st), 'the state of an entry that can be cancelled is only accessed with the lock held', loc)
    def nm(self, k, f): return 'ms:%d:%d:%s' % (k[0], k[1], f)
    def n(self, st, k): return zi(st.ghost[self.nm(k, 'n')])
    def initset(self, st, k, n=None, kn=()):
        n = z3.IntVal(0) if n is None else n
        st.setg(self.nm(k, 'n'), n); m = fresh_int('mintp'); st.assume(And(m > -BIG, m < BIG)); st.setg(self.nm(k, 'min'), m); st.ghost[self.nm(k, 'kn')] = kn; st.ghost[self.nm(k, 'first')] = None
    def kn(self, st, k): return st.ghost[self.nm(k, 'kn')]
    def it(self, ex, st, v, loc):
        if isinstance(v, SPtr):
            kk, x = ex.resolve(st, v, loc)
            if kk == 'reg': v = x
        if not isinstance(v, Ptr) or v.r.id not in self.nodes: raise ToolLimit('iterator %r' % (v,))
        return v.r.id
    def deref(self, ex, st, a, loc):
        v = ex.load(st, a[0], ex.mk_ptr(), loc); self.it(ex, st, v, loc); return v
    def val(self, ex, st, rid, off, sz=8): return zi(ex.to_int(st.mem[rid].cells[off][1])) if off in st.mem[rid].cells else None
    def mset(self, ex, st, F, a, loc):
        c, m, ps = method(F.dem)
        if c is None or not re.match(r'std::multiset<asyncpp::timer::\w+, asyncpp::timer::scheduled_entry::time_less', c) or re.search(r'>::', c): return NotImplemented
        kd = self.kind(c.split(',')[0]); m0 = re.sub(r'<.*', '', m) if not m.startswith('operator') else m; g = st.ghost
        sret = 1 if m0 == 'extract' else 0
        k = keyof(ex, st, a[sret], loc); shared = k[0] == self.r.id
        if m0 == 'multiset':
            if ps == '': self.initset(st, k); return None
            raise ToolLimit('no contract for ' + F.dem[:160])
        if self.nm(k, 'n') not in g: raise ToolLimit('set not constructed')
        self.access(ex, st, k, loc); n = self.n(st, k)
        if m0 == 'empty': return ex.simp(n == 0)
        if m0 == 'size': return ex.simp(n)
        if m0 in ('begin', 'cbegin'):
            f = g[self.nm(k, 'first')]
            if f is None and not shared and ex.valid(st, n == len(self.kn(st, k))) and len(self.kn(st, k)) == 1: f = self.kn(st, k)[0]
            if f is None:
                ex.prove(st, n > 0, 'no entry is taken from an empty set', loc)
                t = fresh_int('cb'); st.assume(t >= 0); r = self.node(ex, st, kd, z3.Int('_') if False else g[self.nm(k, 'min')], t, z3.IntVal(self.PEN) if kd == 'c' else None)
                f = r.id; self.nsec[f] = st.ghost['sec']; st.ghost[self.nm(k, 'kn')] = self.kn(st, k) + (f,); st.ghost[self.nm(k, 'first')] = f
            return Ptr(self.nodes[f][0], 0)
        if m0 == 'emplace':
            if len(a) != 3: raise ToolLimit('emplace with %d arguments' % len(a))
            tp = zi(ex.load(st, a[1], ex.mk_int(64), loc)); tp = self.sgn(st, tp); t = self.uf.get(st, a[2], loc); self.uf.put(st, a[2], 0, loc)
            r = self.node(ex, st, kd, tp, t)
            self.add(ex, st, k, r.id, kd, loc); return Ptr(r, 0)
        if m0 == 'insert' and kd == 'p' and ps.endswith('scheduled_entry&&'):
            v = a[1]; tp = self.sgn(st, zi(ex.load(st, Ptr(v.r, v.off + self.time), ex.mk_int(64), loc))); h = Ptr(v.r, v.off + self.inv); t = self.uf.get(st, h, loc); self.uf.put(st, h, 0, loc)
            r = self.node(ex, st, kd, tp, t); self.add(ex, st, k, r.id, kd, loc); return Ptr(r, 0)
        if m0 == 'insert':
            h = ex.load(st, a[1], ex.mk_ptr(), loc); rid = self.it(ex, st, h, loc); ex.store(st, a[1], 0, ex.mk_ptr(), loc)
            self.add(ex, st, k, rid, kd, loc); return Ptr(self.nodes[rid][0], 0)
        if m0 == 'merge':
            k2 = keyof(ex, st, a[1], loc); self.access(ex, st, k2, loc)
            if k2[0] == self.r.id or not ex.valid(st, self.n(st, k2) == len(self.kn(st, k2))): raise ToolLimit('merge of an unknown set')
            for rid in self.kn(st, k2): self.add(ex, st, k, rid, kd, loc)
            self.initset(st, k2); return None
        if m0 == 'extract':
            rid = self.it(ex, st, a[2], loc)
            ex.prove(st, rid in self.kn(st, k), 'only an element of the set is extracted from it', loc)
            if rid not in self.kn(st, k): return [(st, 'stop', 'bad')]
            if shared:
                ex.prove(st, self.op in ('run', 'cancel'), 'only the timer thread and a cancellation take entries out', loc)
                if self.op == 'run':
                    ex.prove(st, g[self.nm(k, 'first')] == rid, 'the timer thread takes the entry that is due first', loc)
                    ex.prove(st, zi(g['hand']) == 0, 'the callback of the entry taken before was called first', loc)
                    st.setg('hand', self.val(ex, st, rid, self.inv)); st.setg('htp', self.sgn(st, self.val(ex, st, rid, self.time)))
                st.ghost['out'] = g['out'] + (rid,)
            m_ = fresh_int('mintp'); st.assume(And(m_ >= zi(g[self.nm(k, 'min')]), m_ < BIG)); st.setg(self.nm(k, 'min'), m_)
            st.ghost[self.nm(k, 'kn')] = tuple(x for x in self.kn(st, k) if x != rid); st.ghost[self.nm(k, 'first')] = None; st.setg(self.nm(k, 'n'), ex.simp(n - 1))
            h = a[0]
            ex.store(st, h, Ptr(self.nodes[rid][0], 0), ex.mk_ptr(), loc); return None
        if m0 == 'clear' or m0.startswith('~'):
            ex.prove(st, n == len(self.kn(st, k)) if not shared else n == 0, 'no entry is dropped with its set', loc)
            outs = [st]
            for rid in (self.kn(st, k) if not shared else ()): outs = [o[0] for s in outs for o in self.destroy(ex, s, rid, loc)]
            for s in outs:
                if m0 == 'clear': self.initset(s, k)
                else:
                    for f in ('n', 'min', 'kn', 'first'): s.ghost.pop(self.nm(k, f), None)
            return [(s, 'ret', None) for s in outs]
        raise ToolLimit('no contract for ' + F.dem[:160])
    def sgn(self, st, t):
        t = zi(t); return self.ex.simp(z3.If(t >= 2 ** 63, t - 2 ** 64, t))
    def add(self, ex, st, k, rid, kd, loc):
        g = st.ghost; n = self.n(st, k); shared = k[0] == self.r.id; tp = self.sgn(st, self.val(ex, st, rid, self.time)); tok = self.val(ex, st, rid, self.inv)
        if shared:
            ex.prove(st, self.op == 'schedule', 'entries are added by schedule only', loc)
            ex.prove(st, Not(zb(self.down)), 'nothing is scheduled once the timer is being destroyed', loc)
            ex.prove(st, k[1] == (self.co if kd == 'c' else self.so), 'an entry goes to the set of its kind', loc)
            ex.prove(st, And(tp == self.when, tok == self.tok), 'the entry has the given due time and callback', loc)
            ex.prove(st, (rid in g['reg']) == (self.cancellable), 'an entry can be cancelled through its stop token once it is in the set', loc)
            st.setg('eff', g['eff'] + 1); st.ghost['grew'] = True; st.ghost['inset'] = g['inset'] + (rid,); self.nsec[rid] = g['sec']
        mn = zi(g[self.nm(k, 'min')]); st.setg(self.nm(k, 'min'), z3.If(And(n > 0, mn <= tp), mn, tp)); st.setg(self.nm(k, 'n'), ex.simp(n + 1))
        st.ghost[self.nm(k, 'kn')] = self.kn(st, k) + (rid,); st.ghost[self.nm(k, 'first')] = None
    def destroy(self, ex, st, rid, loc):
        r, kd = self.nodes[rid]
        outs = ex.exec_fn(st, self.func(r'^asyncpp::timer::%s::~' % ('cancellable_scheduled_entry' if kd == 'c' else 'scheduled_entry')), [Ptr(r, 0)])
        for s, k, v in outs: s.mem[rid].alive = False; s.ghost['out'] = tuple(x for x in s.ghost['out'] if x != rid)
        return outs
    def handle(self, ex, st, F, a, loc):
        c, m, ps = method(F.dem)
        if c is None or not c.startswith('std::_Node_handle<') or re.search(r'>::', c): return NotImplemented
        if m == '_Node_handle':
            if ps == '': ex.store(st, a[0], 0, ex.mk_ptr(), loc); return None
            if ps.endswith('&&'): ex.store(st, a[0], ex.load(st, a[1], ex.mk_ptr(), loc), ex.mk_ptr(), loc); ex.store(st, a[1], 0, ex.mk_ptr(), loc); return None
            raise ToolLimit('no contract for ' + F.dem[:160])
        h = ex.load(st, a[0], ex.mk_ptr(), loc)
        if m == 'value': self.it(ex, st, h, loc); return h
        if m.startswith('~'):
            if isinstance(h, Ptr): return self.destroy(ex, st, self.it(ex, st, h, loc), loc)
            return None
        if m in ('empty',): return not isinstance(h, Ptr)
        if m == 'operator bool': return isinstance(h, Ptr)
        raise ToolLimit('no contract for ' + F.dem[:160])
    # ---- stop callbacks, clock, threads
    def stopcb(self, ex, st, F, a, loc):
        c, m, ps = method(F.dem)
        if 'cancel_callback' not in c: return NotImplemented
        p = a[0]; k = keyof(ex, st, p, loc)
        if m.startswith('~'):
            own = self.op == 'cancel' and self.N is not None and k[0] == self.N.id
            ex.prove(st, own or not st.ghost['held'], 'no deadlock: a stop callback that may be running, waiting for the lock, is not awaited with the lock held', loc)
            st.ghost['reg'] = tuple(x for x in st.ghost['reg'] if x != k[0])
            if own: st.mem[self.cb.id].alive = False
            return None
        st.ghost['reg'] = st.ghost['reg'] + (k[0],)
        if self.quiet: return None
        ex.prove(st, not st.ghost['held'], 'no deadlock: a stop callback may be invoked at once, it is not registered with the lock held', loc)
        ex.prove(st, k[0] in self.nodes, 'a stop callback is part of its entry', loc)
        cbp = ex.load(st, a[2], ex.mk_ptr(), loc); q = a[2]; it = ex.load(st, Ptr(q.r, q.off + 8), ex.mk_ptr(), loc)
        ex.prove(st, And(ex.eq(cbp, Ptr(self.r, 0)), isinstance(it, Ptr) and it.r.id == k[0]), 'the stop callback knows its timer and its own entry', loc)
        ex.prove(st, self.stk.get(st, a[1], loc) == self.stok, 'it is registered with the given stop token', loc)
        ex.prove(st, self.val(ex, st, k[0], self.cur) == self.CON, 'an entry that is not in the set is not marked as such when its cancellation becomes possible', loc)
        return None
    def now(self, ex, st, F, a, loc):
        t = fresh_int('now'); st.assume(And(t > 0, t < BIG))
        if 'steady' in F.dem: st.assume(t >= zi(st.ghost['clock'])); st.setg('clock', t); st.ghost['fresh'] = True; self.nows = getattr(self, 'nows', ()) + (t,)
        else: self.sysnow = t
        return t
    def wait(self, ex, st, F, a, loc):
        off = 0; m = ex.load(st, a[1], ex.mk_ptr(), loc); k = keyof(ex, st, m, loc); g = st.ghost
        ex.prove(st, k in g['held'], 'waiting happens with the lock held', loc)
        d = self.sgn(st, ex.load(st, a[2], ex.mk_int(64), loc))
        A, h, t = self.sq.get(st, (self.r.id, self.qo)); 
        ex.prove(st, And(h == t, Not(zb(g['done']))), 'the timer thread waits only if, with the lock held, nothing is pushed and the timer is not shut down', loc)
        ex.prove(st, zi(g['hand']) == 0, 'nothing is in hand while the timer thread waits', loc)
        c = zi(g['clock']); until = 'wait_until' in F.dem
        ex.prove(st, until or bool(g['fresh']), 'the time to wait is based on the time it is now', loc)
        for o in (self.so, self.co):
            kk = (self.r.id, o); ex.prove(st, Implies(self.n(st, kk) > 0, (d if until else c + d) <= zi(g[self.nm(kk, 'min')])), 'the timer thread waits no longer than until the first entry is due', loc)
        self.rel(ex, st, k, loc); self.acq(ex, st, k, loc); return fresh_int('cvs')
    def spawn(self, ex, st, F, a, loc):
        s = ex.load(st, a[1], ex.mk_ptr(), loc); ex.store(st, a[1], 0, ex.mk_ptr(), loc); g = st.ghost
        ex.prove(st, self.op == 'ctor' and not g['started'], 'one thread is started, by the constructor', loc)
        for o in (self.so, self.co):
            k = (self.r.id, o); ex.prove(st, self.nm(k, 'n') in g and ex.valid(st, self.n(st, k) == 0), 'the thread starts with empty sets', loc)
        k = (self.r.id, self.qo); ok = self.sq.has(st, k)
        ex.prove(st, ok and ex.valid(st, zi(self.sq.raw(st, k)[1]) == zi(self.sq.raw(st, k)[2])), 'the thread starts with nothing pushed', loc)
        e = st.mem[self.r.id].cells.get(self.eo); ex.prove(st, e is not None and ex.valid(st, zi(e[1]) == 0), 'the thread starts before the shutdown', loc)
        self.ran = []
        s2 = st.clone(); s2.ghost['solo'] = False
        f = self.func(r"_State_impl<std::thread::_Invoker<std::tuple<asyncpp::timer::timer\(\)::'lambda'.*_M_run\(\)$")
        old = ex.contracts; ex.contracts = [(re.compile(r'^asyncpp::timer::run\(\)$'), lambda ex_, s, F_, a_, l: self.ran.append(a_[0]) or None)] + old
        try: ex.exec_fn(s2, f, [s])
        finally: ex.contracts = old
        ex.prove(st, len(self.ran) == 1 and ex.eq(self.ran[0], Ptr(self.r, 0)), 'the new thread runs the timer, once', loc)
        t = fresh_int('tid'); st.assume(And(t > 0, t < 2 ** 47)); ex.store(st, a[0], t, ex.mk_int(64), loc)
        st.ghost['started'] = True; st.ghost['solo'] = False; return None
    def join(self, ex, st, F, a, loc):
        k = keyof(ex, st, a[0], loc); g = st.ghost
        ex.prove(st, self.op == 'dtor' and k == (self.r.id, self.to) and not g['joined'], 'the thread is joined once, by the destructor', loc)
        ex.prove(st, not g['held'], 'no deadlock: the thread is not awaited with the lock held', loc)
        ex.prove(st, zb(g['seen']), 'the thread is told to leave before it is awaited', loc)
        ex.prove(st, zi(g['need']) == 0, 'the thread is woken to leave before it is awaited', loc)
        ex.store(st, a[0], 0, ex.mk_int(64), loc); st.ghost.update(joined=True, solo=True); st.setg('done', True)
        self.sq.init(st, (self.r.id, self.qo)); self.initset(st, (self.r.id, self.so)); self.initset(st, (self.r.id, self.co)); return None   # the postcondition of run()
    # ---- monitor
    def acq(self, ex, st, k, loc):
        if k != (self.r.id, self.mo): return
        g = st.ghost; st.setg('sec', ex.simp(zi(g['sec']) + 1))
        A, h, t = self.sq.init(st, (self.r.id, self.qo), empty=False, name='q'); ex.qinst[A.decl().name()] = lambda i: Implies(And(i >= h, i < t), z3.Select(A, i) >= 0)
        b = self.down if self.op in ('push', 'schedule') else fresh_bool('donel'); st.assume(Implies(zb(g['seen']), b)); st.setg('done', b); st.setg('seen', Or(g['seen'], b)) if self.op != 'run' else None
        for n_, x in zip(('pA', 'ph', 'pt', 'pd'), (A, h, t, b)): st.setg(n_, x)
        for o in (self.so, self.co):
            n = fresh_int('n'); st.assume(n >= 0); self.initset(st, (self.r.id, o), n)
            if self.op == 'run': st.assume(Implies(zb(g['seen']), n == zi(g['rn1']) if o == self.so else n <= zi(g['rn2'])))    # nothing is added once the shutdown began; cancellations move entries to the pushed ones
            if self.op == 'run' and o == self.co: st.assume(Implies(zb(g['seen']), t - h <= zi(g['rq']) + zi(g['rn2']) - n))
        st.ghost['secsig'] = False; st.ghost['fresh'] = False; st.ghost['grew'] = False
        if self.op == 'schedule':
            for rid in g['reg']:
                if rid in g['inset']: continue
                b2 = fresh_bool('cancelled'); st.assume(Implies(zb(g['cancelled']), b2)); st.setg('cancelled', b2)
                ex.put(st, self.nodes[rid][0], self.cur, 4, z3.If(b2, z3.IntVal(self.TAK), self.val(ex, st, rid, self.cur)))
        if self.op == 'cancel' and not g['acquired']:
            st.ghost['acquired'] = True; s = [st, st.clone(), st.clone()]; outs = []
            for s_, v in zip(s, (self.CON, self.PEN, self.TAK)):
                ex.put(s_, self.N, self.cur, 4, z3.IntVal(v)); s_.ghost['was'] = v; kk = (self.r.id, self.co)
                if v == self.PEN:
                    n = self.n(s_, kk); s_.assume(n > 0); s_.assume(zi(s_.ghost[self.nm(kk, 'min')]) <= self.ntp); s_.ghost[self.nm(kk, 'kn')] = (self.N.id,)
                outs.append((s_, 'ret', None))
            return outs
    def rel(self, ex, st, k, loc):
        if k != (self.r.id, self.mo): return
        g = st.ghost; A, h, t = self.sq.flush(st, (self.r.id, self.qo)); A0, h0, t0, d0 = [g[n] for n in ('pA', 'ph', 'pt', 'pd')]; i = fresh_int('sk')
        keep = lambda n, o: Implies(And(i >= 0, i < n), z3.Select(A, h + i) == z3.Select(A0, h0 + o + i))
        if self.op == 'run':
            ex.prove(st, And(h >= h0, h <= t, t == t0, Implies(And(i >= h, i < t), z3.Select(A, i) == z3.Select(A0, i))), 'the timer thread takes pushed callbacks from the front and keeps the others', loc)
            st.setg('rq', ex.simp(zi(t) - zi(h))); st.setg('rn1', self.n(st, (self.r.id, self.so))); st.setg('rn2', self.n(st, (self.r.id, self.co)))
            st.setg('empty', And(zi(h) == zi(t), self.n(st, (self.r.id, self.so)) == 0, self.n(st, (self.r.id, self.co)) == 0))
            st.setg('seen', Or(g['seen'], zb(g['done'])))
        else:
            add = zi(g['added']); ex.prove(st, And(h == h0, t == t0 + add, Implies(And(i >= h0, i < t0), z3.Select(A, i) == z3.Select(A0, i))), 'the callbacks pushed before are kept', loc); st.setg('added', z3.IntVal(0))
            grew = bool(g['grew']) or (self.op == 'dtor' and not ex.valid(st, zb(g['done']) == zb(d0)))
            if grew: st.setg('need', z3.IntVal(0) if g['secsig'] else z3.IntVal(1))
        known = self.kn(st, (self.r.id, self.co))
        for rid in known:
            ex.prove(st, self.val(ex, st, rid, self.cur) == self.PEN, 'an entry in the set is marked as such: a cancellation takes it out', loc)
        for rid in g['out']:
            if rid in g['reg']: ex.prove(st, self.val(ex, st, rid, self.cur) != self.PEN, 'an entry that was taken is marked as such: a concurrent cancellation leaves it alone', loc)
        for o in (self.so, self.co):
            kk = (self.r.id, o)
            for rid in self.kn(st, kk):
                st.ghost['reg'] = tuple(x for x in st.ghost['reg'] if x != rid)
            st.ghost[self.nm(kk, 'kn')] = (); st.ghost[self.nm(kk, 'first')] = None
    def notify(self, ex, st, p, loc):
        st.ghost['secsig'] = True
        if not self.held(st): st.setg('need', z3.IntVal(0))
        return None
    # ---- callbacks
    def ucall(self, ex, st, t, a, loc):
        arg = a[1]; g = st.ghost
        if g['rec'] is not None: st.ghost['rec'] = g['rec'] + ((t, arg),); return None
        b = zb(arg) if not isinstance(arg, bool) else z3.BoolVal(arg)
        ex.prove(st, self.op == 'run', 'scheduled callbacks are invoked by the timer thread only', loc)
        ex.prove(st, not g['held'], 'callbacks are invoked without the lock held', loc)
        ex.prove(st, And(zi(g['hand']) != 0, t == g['hand']), 'the callback of each entry that was taken is invoked exactly once', loc)
        ex.prove(st, Implies(b, zi(g['htp']) <= zi(g['clock'])), 'a callback is invoked with true not before it is due', loc)
        ex.prove(st, Implies(Not(b), zb(g['seen'])), 'the timer thread invokes a callback with false only after the shutdown began', loc)
        st.setg('last', t); st.setg('hand', z3.IntVal(0)); return self.after(ex, st)
    def after(self, ex, st):
        s2 = st.clone(); s2.ghost['threw'] = True; return [(st, 'ret', None), (s2, 'throw', Exc(None, fresh_int('exc')))]
    def udtor(self, ex, st, t, loc):
        if st.ghost['rec'] is not None or self.op in ('wait',): return
        if self.op == 'run' and st.ghost['held']: ex.prove(st, t == 0, 'no deadlock: a callback, which may own anything, is not destroyed with the lock held', loc)
        if self.op == 'run': ex.prove(st, Or(t == 0, t == zi(st.ghost['last'])), 'no callback is destroyed that was not invoked', loc)
        elif self.tok is not None and not ex.valid(st, t == 0): st.setg('lost', Or(st.ghost['lost'], And(t != 0, t == self.tok)))
    def pcall(self, ex, st, t, a, loc):
        g = st.ghost
        ex.prove(st, self.op == 'run', 'pushed callbacks are invoked by the timer thread only', loc)
        ex.prove(st, not g['held'], 'callbacks are invoked without the lock held', loc)
        ex.prove(st, And(zi(g['popped']) != 0, t == g['popped']), 'each pushed callback that was taken is invoked exactly once, in the order they were pushed', loc)
        st.setg('plast', t); st.setg('popped', z3.IntVal(0)); return self.after(ex, st)
    def pdtor(self, ex, st, t, loc):
        if self.op == 'run' and st.ghost['held']: ex.prove(st, t == 0, 'no deadlock: a callback, which may own anything, is not destroyed with the lock held', loc)
        if self.op == 'run': ex.prove(st, Or(t == 0, t == zi(st.ghost['plast'])), 'no pushed callback is destroyed that was not invoked', loc)
        elif self.op == 'push' and not ex.valid(st, t == 0): st.setg('lost', Or(st.ghost['lost'], And(t != 0, t == self.tok)))
    def drop(self, ex, st, k, e, loc):
        g = st.ghost
        ex.prove(st, self.op == 'run', 'pushed callbacks are taken by the timer thread only', loc)
        ex.prove(st, zi(g['popped']) == 0, 'the pushed callback taken before was invoked first', loc)
        ex.prove(st, zi(e) == 0, 'no pushed callback is destroyed that was not invoked', loc)
        A, h, t = self.sq.raw(st, k); st.setg('popped', z3.Select(g['pA'], h))
    def gone(self, ex, st, k, A, h, t, loc): ex.prove(st, zi(h) == zi(t), 'no pushed callback is dropped with its queue', loc)
    def pushed(self, ex, st, k, tok, loc):
        g = st.ghost; st.ghost['grew'] = True; st.setg('added', zi(g['added']) + 1) if 'added' in g else None
        ex.prove(st, self.op == 'push', 'only push queues the callback it was given', loc); ex.prove(st, zi(tok) == self.tok, 'exactly the given callback is queued', loc)
        ex.prove(st, Not(zb(self.down)), 'nothing is pushed once the timer is being destroyed', loc)
        st.setg('eff', g['eff'] + 1)
    def eback(self, ex, st, k, a, ps, loc):
        if ps.strip().startswith(FN): return NotImplemented
        self.access(ex, st, k, loc); lam = re.sub(r'( const)?\s*&&?$', '', ps.strip())
        c = [f for f in self.mod.funcs.values() if f.dem.startswith('%s::function<%s' % (FN, lam)) and not f.decl]
        if len(c) != 1: raise ToolLimit('construction of a pushed callback: %d candidates' % len(c))
        tmp = ex.new_region(st, 'tmp', 32); self.pf.F = c[0]; outs = []
        for s, kd, v in self.cl.mk(self.pf, ex, st, 'function<', ps, [Ptr(tmp, 0), a[1]], loc):
            if kd == 'ret':
                t = self.pf.get(s, Ptr(tmp, 0), loc); tk = self.cl.find(ex, s, t)
                s2 = s.clone(); s2.ghost['rec'] = (); res = ex.live(self.cl.run(ex, s2, tk, [], loc))
                for s3, k3, v3 in res:
                    rec = s3.ghost['rec']; ok = k3 == 'ret' and len(rec) == 1
                    ex.prove(s3, ok, 'a cancelled callback is invoked exactly once by the callback that is pushed', loc)
                    if ok: ex.prove(s3, And(rec[0][0] == self.tok, Not(zb(rec[0][1]) if not isinstance(rec[0][1], bool) else z3.BoolVal(rec[0][1]))), 'it is invoked with false', loc)
                if self.op == 'schedule': ex.prove(s, zb(s.ghost['cancelled']), 'schedule reports an entry as cancelled only if it was', loc)
                else: ex.prove(s, self.op == 'cancel' and s.ghost.get('was') == self.PEN and bool(s.ghost['out'] or True), 'a cancellation delivers only an entry that was in the set', loc)
                A, h, tt = self.sq.get(s, k); self.sq.set(s, k, z3.Store(A, tt, t), h, self.ex.simp(zi(tt) + 1))
                s.ghost['grew'] = True; s.setg('added', zi(s.ghost['added']) + 1); s.setg('eff', s.ghost['eff'] + 1)
                s.mem[tmp.id].alive = False
            outs.append((s, kd, None if kd == 'ret' else v))
        return outs
    def cands(self, ex, st, env, L):
        g = st.ghost; out = [('no callback in hand', zi(g['hand']) == 0), ('no pushed callback in hand', zi(g['popped']) == 0), ('the clock is in range', And(zi(g['clock']) >= 0, zi(g['clock']) < BIG))]
        out.append(('the shutdown was seen', zb(g['seen'])))
        if self.held(st):
            A, h, t = self.sq.raw(st, (self.r.id, self.qo)); A0, h0, t0, d0 = [g[n] for n in ('pA', 'ph', 'pt', 'pd')]
            if z3.is_const(A) and A.decl().name() not in ex.qinst: ex.qinst[A.decl().name()] = lambda i: Implies(And(A == A0, i >= h0, i < t0), z3.Select(A, i) >= 0)
            out += [('the queue is well formed', And(zi(h0) <= zi(h), zi(h) <= zi(t), zi(t) == zi(t0))), ('the queue is unchanged', A == A0), ('the flag did not change', zb(g['done']) == zb(d0))]
            out.append(('shut down', zb(g['done'])))
            i = fresh_int('sk'); out.append(('nothing is pushed', zi(h) == zi(t)))
            for nm_, o in (('plain', self.so), ('cancellable', self.co)):
                k = (self.r.id, o); mn = zi(g[self.nm(k, 'min')]); out += [('%s set: size' % nm_, self.n(st, k) >= 0), ('%s set: times in range' % nm_, And(mn > -BIG, mn < BIG)), ('%s set is empty' % nm_, self.n(st, k) == 0)]
                out.append(('%s set: nothing due' % nm_, Implies(self.n(st, k) > 0, mn > zi(g['clock']))))
        return out
def verify(V):
    mod = V.module('timer.cpp', ['-fno-access-control']); M = TM(V, mod); F = M.F; V.par = 8
    def fin(ex, s, thrown=False):
        ex.prove(s, not s.ghost['held'], 'the lock is released'); ex.prove(s, zi(s.ghost['need']) == 0, 'the timer thread is woken for the change')
    def less(ex):
        st = M.pre(ex, 'less'); a = z3.Int('a'); b = z3.Int('b'); st.assume(And(a > -BIG, a < BIG, b > -BIG, b < BIG))
        x = ex.new_region(st, 'x', M.ps); y = ex.new_region(st, 'y', M.ps); 
        for r, t in ((x, a), (y, b)): ex.put(st, r, M.time, 8, ex.simp(z3.If(t < 0, t + 2 ** 64, t)))
        for s, k, v in ex.live(ex.exec_fn(st, F('tm_less'), [Ptr(x, 0), Ptr(y, 0)])): ex.prove(s, And(k == 'ret', zb(v) == (a < b)), 'entries are ordered by due time')
    V.check('time_less', mod, less)
    def given(ex, st, big=BIG):
        f = ex.new_region(st, 'f', 32); M.tok = z3.Int('tok'); st.assume(M.tok >= 0); ex.put(st, f, 0, 8, M.tok)
        M.when = z3.Int('when'); st.assume(And(M.when > -big, M.when < big)); return f
    un = lambda ex, t: ex.simp(z3.If(t < 0, t + 2 ** 64, t))
    def push(ex):
        st = M.pre(ex, 'push'); st.ghost['added'] = z3.IntVal(0); f = given(ex, st)
        for s, k, v in ex.live(ex.exec_fn(st, F('tm_push'), [Ptr(M.r, 0), Ptr(f, 0)])):
            fin(ex, s)
            if k == 'ret': ex.prove(s, zi(s.ghost['eff']) == 1, 'push queues the callback exactly once'); ex.prove(s, Not(zb(s.ghost['lost'])), 'push does not destroy the callback')
            else: ex.prove(s, And(zb(s.ghost['seen']), zi(s.ghost['eff']) == 0), 'push refuses only once the timer is being destroyed')
    V.check('push', mod, push)
    for fnm, canc in (('tm_schedule', False), ('tm_schedulec', True)):
        def sched(ex, fnm=fnm, canc=canc):
            st = M.pre(ex, 'schedule'); M.cancellable = canc; st.ghost['added'] = z3.IntVal(0); f = given(ex, st); args = [Ptr(M.r, 0), Ptr(f, 0), un(ex, M.when)]
            if canc: k_ = ex.new_region(st, 'st', 16); M.stok = z3.Int('stok'); st.assume(M.stok > 0); ex.put(st, k_, 0, 8, M.stok); args.append(Ptr(k_, 0))
            for s, k, v in ex.live(ex.exec_fn(st, F(fnm), args)):
                fin(ex, s)
                if k == 'ret':
                    e = zi(s.ghost['eff']); ex.prove(s, And(e <= 1, Implies(M.tok != 0, e == 1)), 'the callback is scheduled, or delivered as cancelled, exactly once')
                    ex.prove(s, Not(zb(s.ghost['lost'])), 'schedule does not destroy the callback')
                    ex.prove(s, not s.ghost['reg'], 'no stop callback of an entry that is not in the set remains')
                else: ex.prove(s, And(zb(s.ghost['seen']), zi(s.ghost['eff']) == 0), 'schedule refuses only once the timer is being destroyed')
        V.check('schedule(%s)' % ('stop_token' if canc else ''), mod, sched)
    def cancel(ex):
        st = M.pre(ex, 'cancel'); st.ghost['added'] = z3.IntVal(0); st.ghost.update(acquired=False, was=None); given(ex, st); M.ntp = M.when
        M.N = None; N = M.node(ex, st, 'c', un(ex, M.when), M.tok, z3.IntVal(M.CON)); M.N = N
        cb = M.cb = ex.new_region(st, 'cb', const(ex, mod, 'tm_cbsize')); ex.put(st, cb, 0, 8, Ptr(M.r, 0)); ex.put(st, cb, 8, 8, Ptr(N, 0))
        for s, k, v in ex.live(ex.exec_fn(st, F('tm_cancel'), [Ptr(cb, 0)])):
            g = s.ghost; fin(ex, s); ex.prove(s, k == 'ret', 'a cancellation does not throw'); ex.prove(s, bool(g['acquired']), 'a cancellation synchronises with the timer thread')
            if g['was'] == M.PEN:
                e = zi(g['eff']); ex.prove(s, And(e <= 1, Implies(M.tok != 0, e == 1)), 'an entry in the set is delivered as cancelled, exactly once')
                ex.prove(s, Not(zb(g['lost'])), 'the callback is not destroyed'); ex.prove(s, not s.mem[N.id].alive, 'the entry is removed')
            else:
                ex.prove(s, zi(g['eff']) == 0, 'an entry that was taken already is left alone'); ex.prove(s, s.mem[N.id].alive, 'it is not destroyed here')
                if g['was'] == M.CON and s.mem[N.id].alive: ex.prove(s, M.val(ex, s, N.id, M.cur) == M.TAK, 'schedule learns that the entry was cancelled')
    V.check('cancel_callback', mod, cancel)
    def run(ex):
        st = M.pre(ex, 'run')
        for s, k, v in ex.live(ex.exec_fn(st, F('tm_run'), [Ptr(M.r, 0)])):
            if k == 'stop' and v == 'terminate': ex.prove(s, bool(s.ghost['threw']), 'the program is terminated only if a callback throws'); continue
            ex.prove(s, k == 'ret', 'the timer thread does not throw'); ex.prove(s, not s.ghost['held'], 'the lock is released')
            ex.prove(s, zb(s.ghost['seen']), 'the timer thread leaves only after the shutdown began')
            ex.prove(s, zb(s.ghost['empty']), 'the timer thread leaves with nothing scheduled and nothing pushed')
            ex.prove(s, And(zi(s.ghost['hand']) == 0, zi(s.ghost['popped']) == 0), 'every callback that was taken is invoked')
    V.check('run', mod, run)
    def dtor(ex):
        st = M.pre(ex, 'dtor'); st.ghost['added'] = z3.IntVal(0); t = fresh_int('tid'); st.assume(And(t > 0, t < 2 ** 47)); ex.put(st, M.r, M.to, 8, t)
        for s, k, v in ex.live(ex.exec_fn(st, F('tm_dtor'), [Ptr(M.r, 0)])):
            ex.prove(s, k == 'ret', 'the destructor does not throw'); ex.prove(s, bool(s.ghost['joined']), 'the destructor waits for the timer thread'); ex.prove(s, not s.ghost['held'], 'the lock is released')
    V.check('~timer', mod, dtor)
    def ctor(ex):
        st = M.pre(ex, 'ctor', alive=False)
        for s, k, v in rets(ex, ex.exec_fn(st, F('tm_ctor'), [Ptr(M.r, 0)])): ex.prove(s, bool(s.ghost['started']), 'the constructor starts the timer thread')
    V.check('timer()', mod, ctor)
    # overloads and awaiters: checked against the contract of the two schedule functions above
    def rec_schedule(ex, st):
        st.ghost['calls'] = ()
        def h(ex_, s, F_, a, loc):
            if 'asyncpp::timer::schedule(' not in F_.dem or not re.match(r'(void )?asyncpp::timer::schedule\(%s, std::chrono::time_point<std::chrono::_V2::steady_clock' % re.escape(CB), F_.dem): return NotImplemented
            t = M.uf.get(s, a[1], loc); M.uf.put(s, a[1], 0, loc); k = None
            if len(a) > 3: k = M.stk.get(s, a[3], loc); M.stk.put(s, a[3], 0, loc)
            ex_.prove(s, ex_.eq(a[0], Ptr(M.r, 0)), 'scheduled on this timer', loc)
            s.ghost['calls'] = s.ghost['calls'] + ((t, M.sgn(s, a[2]), k),)
            if s.ghost.get('aw') is not None: s.mem[s.ghost['aw']].own = False
            return None
        ex.contracts = [(re.compile(r'asyncpp::timer::schedule\('), h)] + ex.contracts
    def cellp(ex, st, arg):
        b = ex.new_region(st, 'arg', 1); ex.put(st, b, 0, 1, z3.IntVal(1 if arg else 0)); return Ptr(b, 0)
    def stoken(ex, st): k_ = ex.new_region(st, 'st', 16); M.stok = z3.Int('stok'); st.assume(M.stok > 0); ex.put(st, k_, 0, 8, M.stok); return k_
    for fnm in ('tm_schedule_ns', 'tm_schedulec_ns', 'tm_schedule_sys', 'tm_schedulec_sys'):
        def over(ex, fnm=fnm):
            st = M.pre(ex, 'wait'); rec_schedule(ex, st); f = given(ex, st, BIG); canc = 'lec' in fnm; args = [Ptr(M.r, 0), Ptr(f, 0), un(ex, M.when)]; M.nows = ()
            if canc: args.append(Ptr(stoken(ex, st), 0))
            for s, k, v in ex.live(ex.exec_fn(st, F(fnm), args)):
                c = s.ghost['calls']; ex.prove(s, k == 'ret' and len(c) == 1, 'scheduled exactly once')
                if len(c) == 1:
                    d = M.when - M.sysnow if 'sys' in fnm else M.when
                    ex.prove(s, And(c[0][0] == M.tok, c[0][1] == zi(s.ghost['clock']) + d), 'the given callback is scheduled for the time it is now plus the given duration (or the duration until the given time)')
                    ex.prove(s, c[0][2] == M.stok if canc else c[0][2] is None, 'with the given stop token')
        V.check(fnm[3:], mod, over)
    for p, canc in (('aw', False), ('awc', True)):
        for ctor in ('tm_wait', 'tm_wait_ns'):
            def aw(ex, p=p, canc=canc, ctor=ctor):
                for dec in ('ready', 'suspend'):
                    st = M.pre(ex, 'wait'); rec_schedule(ex, st); given(ex, st); M.nows = ()
                    H = addr_sym(ex, st, 'H'); res = []
                    def resume(ex_, s, h, loc):
                        ex_.prove(s, ex_.eq(h, H), 'the coroutine that waits is resumed', loc); s.ghost['resumed'] = s.ghost['resumed'] + 1
                        s.ghost['result'] = None
                        o = ex_.exec_fn(s.clone(), F(p + '_resume'), [Ptr(A, 0)]); ex_.prove(o[0][0], len(o) == 1 and o[0][1] == 'ret', 'await_resume does not throw', loc); s.ghost['result'] = o[0][2]
                        s.mem[A.id].alive = False; return None
                    ex.hooks['resume'] = resume
                    st.ghost['resumed'] = 0; st.ghost['aw'] = None
                    A = ex.new_region(st, 'aw', const(ex, mod, 'tm_%ssize' % p)); ex.addr(A); args = [Ptr(A, 0), Ptr(M.r, 0), un(ex, M.when)]
                    if canc: args.append(Ptr(stoken(ex, st), 0))
                    for s, k, v in ex.live(ex.exec_fn(st, F(ctor.replace('wait', 'waitc') if canc else ctor), args)):
                        ex.prove(s, k == 'ret', 'wait does not throw'); due = M.when if ctor == 'tm_wait' else ex.simp(M.when + zi(s.ghost['clock']))
                        ex.prove(s, not s.ghost['calls'], 'nothing is scheduled before the wait is awaited')
                        if dec == 'ready':
                            for s2, k2, v2 in ex.live(ex.exec_fn(s, F(p + '_ready'), [Ptr(A, 0)])):
                                ex.prove(s2, And(k2 == 'ret', zb(v2) == (zi(s2.ghost['clock']) >= due), not s2.ghost['calls']), 'the coroutine goes on at once exactly if the time has come')
                                for s3, k3, v3 in ex.live(ex.exec_fn(s2, F(p + '_resume'), [Ptr(A, 0)])): ex.prove(s3, And(k3 == 'ret', zb(v3)), 'then the result is true')
                        else:
                            s.ghost['aw'] = A.id
                            for s2, k2, v2 in ex.live(ex.exec_fn(s, F(p + '_suspend'), [Ptr(A, 0), H])):
                                c = s2.ghost['calls']; ex.prove(s2, And(k2 == 'ret', zb(v2), len(c) == 1, s2.ghost['resumed'] == 0), 'the coroutine stays suspended with exactly one callback scheduled')
                                if len(c) != 1: continue
                                ex.prove(s2, c[0][1] == due, 'it is due at the time waited for'); ex.prove(s2, c[0][2] == M.stok if canc else c[0][2] is None, 'with the given stop token')
                                t = M.cl.find(ex, s2, c[0][0]); ex.prove(s2, t is not None, 'the callback can be invoked')
                                if t is None: continue
                                for arg in (True, False):
                                    s3 = s2.clone(); s3.mem[A.id].own = True
                                    for s4, k4, v4 in ex.live(M.cl.run(ex, s3, t, [cellp(ex, s3, arg)])):
                                        ex.prove(s4, k4 == 'ret' and s4.ghost['resumed'] == 1, 'the callback resumes the coroutine exactly once')
                                        if s4.ghost['resumed'] == 1: ex.prove(s4, zb(s4.ghost['result']) == arg, 'the coroutine learns whether the time has come or the wait was cancelled')
            V.check('wait(%s)%s' % ('stop_token' if canc else '', '' if ctor == 'tm_wait' else ' duration'), mod, aw)
    V.assume_note('std::multiset as specified by the standard (an ordered bag of nodes; begin() is a least element, nodes keep their address when extracted or merged), std::deque behaves as a sequence, their allocations succeed; std::mutex and std::condition_variable as specified; std::function is opaque',
                  'the stop callback contract: a registered callback runs at most once, possibly during its registration, and its destructor waits for it unless it runs on the same thread (verified for the bundled implementation by C27, assumed of std::stop_callback)',
                  'apart from stop tokens the timer is not used concurrently with its destruction; due times and durations are within 2^61 ns; callbacks that throw terminate the program as documented; termination (fairness of the scheduler) is not claimed; get_default() and the co_await operators that use it are not under contract')
