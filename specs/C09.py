"""promise: a monitor over the outcome and the three lists of callbacks.
Under the lock the outcome is pending (any number of registered callbacks) or settled for good (nothing registered).
Every section of an operation makes one of the allowed steps: settle, register the given callback, or nothing; the callbacks
taken by a settling operation are invoked exactly once each, without the lock, with the stored outcome, whatever they do to the promise"""
from .lib import *
def PG(st, rid): return {k: st.ghost.get('%s:%d' % (k, rid)) for k in ('mine', 'last', 'seen', 'secix')}
def known(st, rid): return 'mine:%d' % rid in st.ghost
def upd(st, rid, **kw):
    for k, v in kw.items(): st.ghost['%s:%d' % (k, rid)] = v
def own(st): return z3.If(zb(st.ghost['own']), z3.IntVal(1), z3.IntVal(0)) if st.ghost['own'] is not False else 0
class Count:
    """reference count of the state: how many are held here, how many elsewhere is unknown"""
    def __init__(self, M, rid): self.M = M; self.rid = rid
    def observe(self, ex, st, kind):
        self.M.touch(ex, st, self.rid, '')
        n = fresh_int('refs'); st.assume(And(n >= self.M.refs(st, self.rid), n < 2 ** 60)); return [(st, n)]
    def commit(self, ex, st, old, new, order, loc, kind):
        g = PG(st, self.rid)
        if ex.valid(st, zi(new) == zi(old) + 1): upd(st, self.rid, mine=g['mine'] + 1); return
        if not ex.valid(st, zi(new) == zi(old) - 1): ex.fail(st, 'the reference count changes by one at a time', loc); return
        ex.prove(st, g['mine'] > 0, 'only a reference that is held is dropped', loc)
        upd(st, self.rid, mine=g['mine'] - 1, last=zi(old) == 1)
        if ex.sat(st, zi(old) == 1): self.M.anything(ex, st, self.rid)        # possibly the last one: then the content matters
class VecFam:
    """the elements of a vector while it is iterated over: element i of the sequence at D + S*i"""
    def __init__(self, sq, k, D, S): self.sq = sq; self.k = k; self.D = D; self.S = S
    def owns(self, ex, st, t):
        if not self.sq.has(st, self.k): return False
        A, h, t_ = self.sq.raw(st, self.k)
        return And(t >= self.D + self.S * zi(h), t < self.D + self.S * zi(t_), (t - self.D) % self.S == 0)
    def load(self, ex, st, t, off, ty, loc):
        if off != 0: raise ToolLimit('element of a vector at offset %r' % (off,))
        A, h, t_ = self.sq.get(st, self.k); return ex.coerce(z3.Select(A, (t - self.D) / self.S), ty)
    def store(self, ex, st, t, off, v, ty, loc):
        if off != 0: raise ToolLimit('element of a vector at offset %r' % (off,))
        A, h, t_ = self.sq.get(st, self.k); self.sq.set(st, self.k, z3.Store(A, (t - self.D) / self.S, ex.to_int(v)), h, t_)
def iterators(sq, S=32):
    """begin()/end() of a vector of the given element size"""
    def it(which):
        def h(ex, st, k, a, ps, loc):
            A, h_, t = sq.flush(st, k); nm = sq.nm(k, 'data')
            if nm not in st.ghost or not same(st.ghost[nm][1], A) or not same(st.ghost[nm][2], h_):
                D = fresh_int('data'); st.assume(And(D > 0, D + S * zi(h_) > 0, D + S * zi(t) < 2 ** 47, D + S * zi(h_) > 4096)); st.ghost[nm] = (D, A, h_)
                st.fams = st.fams + [VecFam(sq, k, D, S)]
            D = st.ghost[nm][0]; sq.iters = getattr(sq, 'iters', []) + [(k, D)]
            return SPtr(ex.simp(D + S * zi(h_ if which == 'b' else t)))
        return h
    for n in ('begin', 'cbegin'): sq.hooks[n] = it('b')
    for n in ('end', 'cend'): sq.hooks[n] = it('e')
FV = 'std::function<void ()>'; FE = 'std::function<void (std::__exception_ptr::exception_ptr const&)>'
KINDS = ('v', 't', 'e')     # settle callbacks, result callbacks, error callbacks
class PR:
    def __init__(self, V, mod, pre, cls):
        self.V = V; self.mod = mod; self.n = pre; self.cls = cls; self.F = lambda k: mod.funcs[pre + '_' + k]; self.offs = None
        self.void = pre == 'pv'; self.FT = 'std::function<void (%s const&)>' % cls
    def setup(self, ex):
        ex.contracts = []
        self.T = None if self.void else Opaque(ex, 'vt::T', throws=('copy', 'move'))
        mk = lambda c: Opaque(ex, c, empty=0, moved=0, call=lambda ex_, st, t, a, loc: self.call(ex_, st, c, t, a, loc), other=lambda *a: self.closures.mk(self.byc[c], *a))
        self.closures = Closures(); self.fo = {'v': mk(FV), 't': mk(self.FT), 'e': mk(FE)}; self.byc = {o.cls: o for o in self.fo.values()}
        self.sq = Seqs(ex, self.fo['v'], classes=r'std::vector<', throws=True, elemsize=32); iterators(self.sq); self.sq.hooks['emplace'] = self.emplace
        self.ptok = None
        self.sq.token_in = lambda st, a, ps, name, loc: self.token(ex, st, a, ps, name, loc)
        ex.contracts = [(re.compile(r'^std::cv_status std::condition_variable::(__wait_until_impl|wait_until)<'), self.timedwait),
                        (re.compile(r'^std::chrono::_V2::steady_clock::now\(\)$'), lambda ex_, s, F, a, loc: self.now(ex_, s)),
                        (re.compile(r'^std::type_info::operator==|^std::_Function_base::_Base_manager<'), lambda *a: NotImplemented)] + ex.contracts
        ex.loop_cands = [self.cands]; ex.ptr_templates = [self.templ]
        st = State(); st.ghost.update(own=False, held=(), mustnotify=False, waited=False, pend=False, timeout=False, reg=(), direct=0, took=None, cnt_v=z3.IntVal(0), cnt_t=z3.IntVal(0), cnt_e=z3.IntVal(0), settled=None, resumed=0)
        self.op = None; self.tok = {}; self.owner = None; self.aw = None
        return st
    def token(self, ex, st, a, ps, name, loc):
        for c in self.fo.values():
            if ps.strip().startswith(c.cls):
                t = c.get(st, a[0], loc); c.live(st, t, loc, 'that is put into the container')
                if ps.strip().endswith('&&'): c.put(st, a[0], c.moved, loc)
                return t
        return self.emplace(ex, st, a, ps, loc)
    def emplace(self, ex, st, a, ps, loc):
        """a callback constructed in place: through the constructor of std::function the real emplace_back instantiates"""
        F = self.sq.F; seen = set(); todo = [F]; found = []
        while todo:
            f = todo.pop()
            if f.name in seen or f.decl: continue
            seen.add(f.name)
            if re.match(r'^std::function<void \(\)>::function<', f.dem): found.append(f); continue
            todo += [self.mod.funcs[n] for n in ex.callees(f) if n in self.mod.funcs]
        if len(found) != 1: raise ToolLimit('callback constructed in place not understood (%d)' % len(found))
        box = ex.new_region(st, 'fn', 32); o = ex.call(st, found[0], [Ptr(box, 0)] + a, loc); o = [x for x in o if x[1] == 'ret']
        if len(o) != 1 or o[0][0] is not st: raise ToolLimit('callback constructed in place has several outcomes')
        return self.fo['v'].get(st, Ptr(box, 0), loc)
    def learn(self, ex):
        if self.offs is not None: return
        ex.trial += 1
        try:
            st = self.setup(ex); got = {}
            def lk(ex_, s, p, loc): got['m'] = keyof(ex_, s, p)
            ex.hooks.update(lock=lk, unlock=lambda *a: None, notify_all=lambda *a: None, notify_one=lambda *a: None)
            p = ex.new_region(st, 'p', const(ex, self.mod, self.n + '_size')); one = lambda outs: [o for o in outs if o[1] == 'ret' and ex.sat(o[0])][0]
            self.op = 'learn'; self.learning = True
            st = one(ex.exec_fn(st, self.F('ctor'), [Ptr(p, 0)]))[0]
            s = ex.peek(st, p, 0); R = s.r; sz = R.size
            vs = [int(k.split(':')[2]) for k in st.ghost if k.startswith('seq:%d:' % R.id) and k.endswith(':h')]
            if len(vs) != 3: raise ToolLimit('callback lists not identified')
            def which(fn, args):
                s1 = one(ex.exec_fn(st.clone(), self.F(fn), args))[0]
                return [o for o in vs if not ex.valid(s1, zi(self.sq.get(s1, (R.id, o))[1]) == zi(self.sq.get(s1, (R.id, o))[2]))]
            def fnobj(v, c):
                b = ex.new_region(st, 'f', 32); ex.put(st, b, 0, 8, v); return b
            f1, f0, f2 = fnobj(7, 'v'), fnobj(0, 'v'), fnobj(7, 'v')
            off = {}
            off['v'] = which('settle', [Ptr(p, 0), Ptr(f1, 0)]); off['t'] = which('then', [Ptr(p, 0), Ptr(f1, 0), Ptr(f0, 0)]); off['e'] = which('then', [Ptr(p, 0), Ptr(f0, 0), Ptr(f1, 0)])
            if any(len(x) != 1 for x in off.values()): raise ToolLimit('callback lists not told apart')
            v = ex.new_region(st, 'v', 16); ex.put(st, v, 0, 8, 77)
            c0 = dict(st.mem[R.id].cells); s1 = one(ex.exec_fn(st.clone(), self.F('mkful'), [Ptr(ex.new_region(st, 'p2', 8), 0)] + ([] if self.void else [Ptr(v, 0)])))[0]
            R1 = [s1.mem[r].cells for r in s1.ghost['heap'] if r != R.id]
            e = ex.new_region(st, 'e', 8); ex.put(st, e, 0, 8, SPtr(z3.Int('ee'))); s2 = one(ex.exec_fn(st.clone(), self.F('mkrej'), [Ptr(ex.new_region(st, 'p3', 8), 0), Ptr(e, 0)]))[0]
            R2 = [s2.mem[r].cells for r in s2.ghost['heap'] if r != R.id]
            if len(R1) != 1 or len(R2) != 1: raise ToolLimit('state not identified')
            R1, R2 = R1[0], R2[0]
            ix = [o for o, (z, x) in c0.items() if z == 1 and same(x, 0) and same(R1.get(o, (0, None))[1], 1) and same(R2.get(o, (0, None))[1], 2)]
            eo = [o for o, (z, x) in R2.items() if isinstance(x, SPtr) and same(x.t, z3.Int('ee'))]
            to = [o for o, (z, x) in R1.items() if z == 8 and (same(x, 77) or isz(x) and z3.is_int_value(x) and x.as_long() == 77)]
            s4 = one(ex.exec_fn(st.clone(), self.F('copy'), [Ptr(ex.new_region(st, 'p4', 8), 0), Ptr(p, 0)]))[0]
            co = [o for o, (z, x) in s4.mem[R.id].cells.items() if z == 8 and isinstance(x, int) and not same(x, c0.get(o, (0, None))[1])]
            if len(ix) != 1 or len(eo) != 1 or (not self.void and len(to) != 1) or len(co) != 1: raise ToolLimit('fields of the promise state not identified %s %s %s %s' % (ix, eo, to, co))
            self.offs = dict(size=sz, mtx=got['m'][1], vec={k: x[0] for k, x in off.items()}, idx=ix[0], err=eo[0], val=to[0] if to else eo[0], cnt=co[0], init=c0)
        finally: ex.trial -= 1; self.learning = False
    def pre(self, ex, op, refs=1):
        """a promise state shared with others, referenced `refs` times from here"""
        self.learn(ex); st = self.setup(ex); self.op = op; self.learning = False
        ex.contracts = list(ex.contracts); 
        Locks(ex, self.acq, self.rel); ex.hooks['notify_all'] = self.notify; ex.hooks['notify_one'] = lambda *a: None; ex.hooks['cv_wait'] = self.wait
        ex.hooks['resume'] = self.resumed
        return st, self.state(ex, st, refs)
    def state(self, ex, st, refs):
        o = self.offs; R = ex.new_region(st, 'state', o['size'], 'heap'); ex.addr(R); st.ghost['heap'] = (st.ghost.get('heap') or ()) + (R.id,)
        st.mem[R.id].cells.update({k: v for k, v in o['init'].items()})
        for x in o['vec'].values(): self.sq.init(st, (R.id, x))
        st.shared[(R.id, o['cnt'])] = Count(self, R.id)
        upd(st, R.id, mine=refs, last=None, seen=None, secix=None)
        st.guards = dict(st.guards); st.guards[R.id] = self.guard
        self.sq.guard = self.vguard
        self.val = {**getattr(self, 'val', {}), R.id: (z3.Int('V%d' % R.id), z3.Int('X%d' % R.id))}
        st.assume(And(self.val[R.id][0] > 0, self.val[R.id][1] > 0, self.val[R.id][1] < 2 ** 47))
        self.R = R
        return R
    def isheld(self, st, rid): return (rid, self.offs['mtx']) in st.ghost['held']
    def touch(self, ex, st, rid, loc):
        ex.prove(st, self.refs(st, rid) > 0, 'the state is only touched while a reference to it is held', loc)
    def refs(self, st, rid): return PG(st, rid)['mine'] + (own(st) if rid == self.R.id else 0)
    def pguard(self, ex, st, p, size, write, loc): ex.prove(st, st.ghost['own'], 'the promise is not touched after a callback may have destroyed it', loc)
    def anything(self, ex, st, rid):
        o = self.offs; c = st.mem[rid].cells; lo = min(o['val'], o['err'])
        for x in [x for x in c if lo <= x <= o['idx']]: del c[x]
        i = fresh_int('index'); st.assume(And(i >= 0, i <= 2)); c[o['idx']] = (1, i); t = fresh_int('content'); st.assume(And(t > 0, t < 2 ** 47)); c[lo] = (8, t)
        for k in KINDS: self.sq.init(st, (rid, o['vec'][k]), empty=False, name='q' + k)
    def guard(self, ex, st, p, size, write, loc):
        rid = p.r.id; g = PG(st, rid)
        if isinstance(p.off, int) and p.off == self.offs['cnt']: return
        if g['last'] is not None and ex.valid(st, g['last']): return
        self.touch(ex, st, rid, loc)
        if isinstance(p.off, int) and self.offs['mtx'] <= p.off < self.offs['mtx'] + 40: return
        if self.isheld(st, rid): return
        ex.prove(st, not write and g['seen'] is not None, 'the outcome is read with the lock held, or after it was seen settled', loc)
    def vguard(self, ex, st, k, write, loc):
        if not known(st, k[0]): return
        g = PG(st, k[0])
        if g['last'] is not None and ex.valid(st, g['last']): return
        self.touch(ex, st, k[0], loc); ex.prove(st, self.isheld(st, k[0]), 'the registered callbacks are only accessed with the lock held', loc)
    # ---- the invariant
    def fill(self, ex, st, rid, what):
        o = self.offs; c = st.mem[rid].cells
        lo = min(o['val'], o['err'])
        for x in [x for x in c if lo <= x < o['idx']]: del c[x]
        ex.put(st, st.ghost.get('regs', {}).get(rid) or self.reg(ex, rid), o['idx'], 1, {'pend': 0, 'ful': 1, 'rej': 2}[what])
        if what == 'ful' and not self.void: c[o['val']] = (8, self.val[rid][0])
        if what == 'rej': c[o['err']] = (8, SPtr(self.val[rid][1]))
        for k in KINDS:
            if what == 'pend':
                A, h, t = self.sq.init(st, (rid, o['vec'][k]), empty=False, name='q' + k); ex.qinst[A.decl().name()] = (lambda A, h, t: lambda i: z3.Implies(And(i >= h, i < t), And(z3.Select(A, i) > 0, z3.Select(A, i) < 10 ** 6)))(A, h, t)
            else: self.sq.init(st, (rid, o['vec'][k]))
        return st
    def reg(self, ex, rid): return [r for r in ex.addr_list if r.id == rid][0]
    def havoc(self, ex, st, rid):
        seen = PG(st, rid)['seen']
        return [self.fill(ex, st.clone(), rid, w) for w in ((seen,) if seen else ('pend', 'ful', 'rej'))]
    def snapshot(self, ex, st, rid):
        o = self.offs; c = st.mem[rid].cells; ix = c.get(o['idx'], (1, None))[1]
        if isz(ix): ix = next((i for i in (0, 1, 2) if ex.valid(st, ix == i)), ix)
        return ix, {k: self.sq.flush(st, (rid, o['vec'][k]), kill=False) for k in KINDS}
    def reacq(self, ex, st, k, loc):
        """after waiting: any state the invariant allows (one symbolic state, so that waiting in a loop can be summarized)"""
        rid = k[0]; o = self.offs; c = st.mem[rid].cells; lo = min(o['val'], o['err'])
        if PG(st, rid)['seen'] is not None: raise ToolLimit('waiting for a promise that is settled')
        self.anything(ex, st, rid); i = c[o['idx']][1]; v = c[lo][1]
        if not self.void: st.assume(Implies(i == 1, v == self.val[rid][0]))
        st.assume(Implies(i == 2, v == self.val[rid][1]))
        for x in KINDS: A, h, t = self.sq.raw(st, (rid, o['vec'][x])); st.assume(Implies(i != 0, h == t)); ex.qinst[A.decl().name()] = (lambda A, h, t: lambda j: z3.Implies(And(j >= h, j < t), And(z3.Select(A, j) > 0, z3.Select(A, j) < 10 ** 6)))(A, h, t)
        for x in list(c): 
            if x in (o['idx'], lo) and st.writes is not None: st.writes.add((rid, x, c[x][0]))
        ix, v = self.snapshot(ex, st, rid); self.setsec(st, rid, ix, v); st.ghost['pend'] = True
    def acq(self, ex, st, k, loc):
        if not known(st, k[0]): return
        ex.prove(st, k[1] == self.offs['mtx'], 'one mutex protects the state', loc); self.touch(ex, st, k[0], loc); outs = []
        for s in self.havoc(ex, st, k[0]):
            ix, v = self.snapshot(ex, s, k[0]); self.setsec(s, k[0], ix, v); outs.append((s, 'ret', None))
            if ix == 0: s.ghost['pend'] = True
            else: upd(s, k[0], seen={1: 'ful', 2: 'rej'}[ix])
        return outs
    def setsec(self, st, rid, ix, v):
        upd(st, rid, secix=ix)
        for k in KINDS:
            for n, x in zip('Aht', v[k]): st.setg('sec%s%s:%d' % (n, k, rid), zi(x) if not isz(x) else x)
    def sec(self, st, rid): return PG(st, rid)['secix'], {k: tuple(st.ghost['sec%s%s:%d' % (n, k, rid)] for n in 'Aht') for k in KINDS}
    def value_ok(self, ex, st, rid, ix, want):
        o = self.offs; c = st.mem[rid].cells
        if ix == 1: return True if self.void else (o['val'] in c and c[o['val']][0] == 8 and ex.eq(c[o['val']][1], want))
        return o['err'] in c and c[o['err']][0] == 8 and ex.eq(c[o['err']][1], SPtr(want))
    def rel(self, ex, st, k, loc):
        rid = k[0]
        if not known(st, rid): return
        P = lambda c, nm: ex.prove(st, c, nm, loc); self.touch(ex, st, rid, loc)
        ix0, v0 = self.sec(st, rid)
        if isz(ix0): ix0 = next((i for i in (0, 1, 2) if ex.valid(st, ix0 == i)), None)
        ix, v = self.snapshot(ex, st, rid); i = fresh_int('sk')
        unch = {x: And(zi(v[x][2]) - zi(v[x][1]) == zi(v0[x][2]) - zi(v0[x][1]), z3.Implies(And(i >= 0, i < zi(v0[x][2]) - zi(v0[x][1])), z3.Select(v[x][0], v[x][1] + i) == z3.Select(v0[x][0], v0[x][1] + i))) for x in KINDS}
        empty = And(*[zi(v[x][1]) == zi(v[x][2]) for x in KINDS])
        if isz(ix) or isz(ix0) or ix not in (0, 1, 2) or ix0 not in (0, 1, 2): P(False, 'under the lock the promise is always pending, fulfilled or rejected'); return
        if ix0 != 0:
            P(ix == ix0, 'a settled promise stays as it is'); P(self.value_ok(ex, st, rid, ix, self.val[rid][ix - 1]), 'the outcome of a settled promise never changes'); P(empty, 'nothing is registered with a settled promise')
            upd(st, rid, seen={1: 'ful', 2: 'rej'}[ix0]); return
        if ix != 0:
            P(self.op in ('fulfill', 'reject') and ix == {'fulfill': 1, 'reject': 2}.get(self.op), 'only fulfill settles with a value and only reject with an exception')
            P(st.ghost['settled'] is None, 'an operation settles the promise once')
            P(self.value_ok(ex, st, rid, ix, self.given), 'the promise is settled with exactly what was given'); P(empty, 'settling takes all registered callbacks out')
            st.assume(self.given == self.val[rid][ix - 1]); upd(st, rid, seen={1: 'ful', 2: 'rej'}[ix]); st.ghost['settled'] = ix
            st.ghost['took'] = v0
            st.ghost['mustnotify'] = not st.ghost.get('notified'); return
        for x in KINDS:
            if ex.valid(st, unch[x]): continue
            A, h, t = v[x]; A0, h0, t0 = v0[x]; n = zi(t0) - zi(h0); new = z3.Select(A, zi(t) - 1)
            P(self.op in ('then', 'on_settle', 'suspend'), 'only registering changes what is registered')
            P(And(zi(t) - zi(h) == n + 1, z3.Implies(And(i >= 0, i < n), z3.Select(A, zi(h) + i) == z3.Select(A0, zi(h0) + i))), 'registering adds one callback and keeps the others')
            P(x not in st.ghost['reg'], 'a callback is registered once'); st.ghost['reg'] += (x,)
            if self.op == 'suspend': self.registered(ex, st, x, new, loc)
            else: P(And(x in self.tok, self.given_cb(ex, st, x, ex.simp(new)), new != 0), 'exactly the given callback is registered')
    def given_cb(self, ex, st, x, new):
        if not (self.void and x == 't'): return new == self.tok.get(x, 0)
        t = self.closures.find(ex, st, new)        # the wrapper that drops the monostate
        if t is None: return False
        s = st.clone(); s.writes = None; s.ghost['inclosure'] = (); s.ghost['held'] = ()
        for rid in list(s.mem):
            if rid in ex.stackids: s.mem[rid].alive = False
        m = ex.new_region(s, 'mono', 1); ok = []
        for o in ex.live(self.closures.run(ex, s, t, [Ptr(m, 0)])): ok.append(o[1] == 'ret' and len(o[0].ghost['inclosure']) == 1 and o[0].ghost['inclosure'][0] == self.tok['t'])
        return And(*ok) if ok else False
    def registered(self, ex, st, x, new, loc):
        """a coroutine waits: when the callback runs it resumes exactly that coroutine, and nothing here is used after it may have run"""
        new = ex.simp(new)
        t = self.closures.find(ex, st, new)
        ex.prove(st, x == 'v' and t is not None, 'a waiting coroutine is registered to be resumed when the promise settles', loc)
        if t is not None:
            s = st.clone(); s.writes = None
            for rid in list(s.mem):
                if rid in ex.stackids or rid == self.aw.id: s.mem[rid].alive = False
            for o in self.closures.run(ex, s, t, []): ex.prove(o[0], o[0].ghost['resumed'] == 1, 'the registered callback resumes the waiting coroutine once', loc)
        self.publish = True
        upd(st, self.R.id, mine=PG(st, self.R.id)['mine'] - 1); st.mem[self.aw.id].alive = False
    def resumed(self, ex, st, h, loc):
        ex.prove(st, ex.eq(h, SPtr(z3.Int('H'))), 'the coroutine that waits is the one resumed', loc); st.ghost['resumed'] += 1; return None
    def notify(self, ex, st, p, loc):
        k = keyof(ex, st, p)
        if known(st, k[0]):
            self.touch(ex, st, k[0], loc); ix = st.mem[k[0]].cells.get(self.offs['idx'], (1, None))[1]
            if self.isheld(st, k[0]): st.ghost['notified'] = True
            st.ghost['mustnotify'] = False
        return None
    def wait(self, ex, st, cv, lk, loc):
        m = ex.load(st, lk, ex.mk_ptr(), loc); k = keyof(ex, st, m); ex.prove(st, k in st.ghost['held'], 'waiting happens with the lock held', loc)
        ex.prove(st, self.op == 'get', 'only get without timeout waits without limit', loc)
        ex.prove(st, ex.eq(st.mem[k[0]].cells[self.offs['idx']][1], 0), 'get waits only if, with the lock held, the promise is pending (no lost wakeup)', loc)
        self.rel(ex, st, k, loc); self.reacq(ex, st, k, loc); return None
    def now(self, ex, st): 
        t = z3.Int('NOW'); st.assume(And(t > 0, t < 2 ** 62)); return t
    def timedwait(self, ex, st, F, a, loc):
        m = ex.load(st, a[1], ex.mk_ptr(), loc); k = keyof(ex, st, m); ex.prove(st, k in st.ghost['held'], 'waiting happens with the lock held', loc)
        ex.prove(st, self.op == 'gett', 'only get with a timeout waits with a limit', loc)
        t = ex.load(st, a[2], ex.mk_int(64), loc);ex.prove(st, (zi(t) - (z3.Int('NOW') + self.dur * 10 ** 6)) % 2 ** 64 == 0, 'get waits exactly until the timeout', loc)
        ex.prove(st, ex.eq(st.mem[k[0]].cells[self.offs['idx']][1], 0), 'get waits only if, with the lock held, the promise is pending (no lost wakeup)', loc)
        self.rel(ex, st, k, loc); s2 = st.clone(); s2.ghost['timeout'] = True
        self.reacq(ex, st, k, loc); self.reacq(ex, s2, k, loc); return [(st, 'ret', 0), (s2, 'ret', 1)]
    # ---- callbacks
    def call(self, ex, st, c, t, a, loc):
        if self.learning: return None
        P = lambda x, nm: ex.prove(st, x, nm, loc); g = st.ghost; R = self.R
        k = self.closures.find(ex, st, t)
        if k is not None: return self.closures.run(ex, st, k, a[1:], loc)
        if g.get('inclosure') is not None: g['inclosure'] += (t,); return None
        P(t != 0, 'no empty callback is invoked'); P(not g['held'], 'callbacks run without the lock held')
        kind = {FV: 'v', self.FT: 't', FE: 'e'}[c]
        if self.void and c == FV and self.op == 'then': kind = 't'
        seen = PG(st, R.id)['seen']
        if self.op in ('fulfill', 'reject'):
            P(g['settled'] is not None, 'callbacks are invoked by the operation that settled the promise')
            if g['took'] is None: return None
            A, h, t_ = g['took'][kind]; n = g['cnt_' + kind]
            P(And(n < zi(t_) - zi(h), t == z3.Select(A, zi(h) + n)), 'every callback taken is invoked, each once'); st.setg('cnt_' + kind, n + 1)
            P(kind != ('e' if self.op == 'fulfill' else 't'), 'fulfilling invokes no error callback and rejecting no result callback')
        else:
            P(self.op in ('then', 'on_settle') and seen is not None, 'only a settled promise invokes the callback directly'); P(t == self.tok.get(kind, -5), 'the callback given is invoked'); P(g['direct'] == 0, 'a callback is invoked once')
            P(kind == 'v' or kind == {'ful': 't', 'rej': 'e'}.get(seen), 'the callback matches the outcome'); g['direct'] += 1
        if kind != 'v' and not (self.void and c == FV):
            off = self.offs['val' if kind == 't' else 'err']
            arg = a[1]
            P(PG(st, R.id)['mine'] > 0, 'the outcome a callback sees stays alive while it runs')
            if not (self.void and kind == 't'):
                c_ = ex.load(st, arg, ex.mk_ptr(), loc); P(ex.eq(c_, SPtr(self.val[R.id][0 if kind == 't' else 1])), 'the callback sees the stored outcome')
        # the callback may drop the promise it was invoked through
        if st.ghost['own'] is not False: st.setg('own', False)
        s2 = st.clone(); return [(st, 'ret', None)] + ex_throw(s2)
    def cands(self, ex, st, env, L):
        g = st.ghost; out = []
        for f, x in ((f, f[5:]) for f in g if f.startswith('mine:')):
            rid = int(x)
            if not self.isheld(st, rid): continue
            c = st.mem[rid].cells.get(self.offs['idx'])
            if c: out += [('the promise is pending', zi(c[1]) == 0), ('the outcome is untouched', zi(g['secix:' + x]) == zi(c[1])), ('the outcome is an outcome', And(zi(c[1]) >= 0, zi(c[1]) <= 2))]
            lo = min(self.offs['val'], self.offs['err']); v = st.mem[rid].cells.get(lo)
            if c and v and v[0] == 8:
                if not self.void: out.append(('the value', Implies(zi(c[1]) == 1, ex.to_int(v[1]) == self.val[rid][0])))
                out.append(('the exception', Implies(zi(c[1]) == 2, ex.to_int(v[1]) == self.val[rid][1])))
            elif c: out += [('the value', zi(c[1]) == 0), ('the exception', zi(c[1]) == 0)]
            if c and all(self.sq.has(st, (rid, self.offs['vec'][k])) for k in KINDS): out.append(('nothing is registered once settled', Implies(zi(c[1]) != 0, And(*[zi(self.sq.raw(st, (rid, self.offs['vec'][k]))[1]) == zi(self.sq.raw(st, (rid, self.offs['vec'][k]))[2]) for k in KINDS]))))
            for k in KINDS:
                kk = (rid, self.offs['vec'][k])
                if self.sq.has(st, kk):
                    for n, a in zip('Aht', self.sq.raw(st, kk)): out.append(('list %s%s untouched' % (k, n), (zi(a) if not isz(a) else a) == g['sec%s%s:%s' % (n, k, x)]))
        if g.get('took'):
            for k in KINDS: A, h, t = g['took'][k]; out += [('callbacks invoked within those taken ' + k, And(g['cnt_' + k] >= 0, g['cnt_' + k] <= zi(t) - zi(h))), ('all callbacks invoked ' + k, g['cnt_' + k] == zi(t) - zi(h)), ('no callback invoked ' + k, g['cnt_' + k] == 0)]
        return out
    def templ(self, ex, st):
        g = st.ghost; out = []
        if g.get('took'):
            for n, (k, D) in enumerate(getattr(self.sq, 'iters', [])):
                if not self.sq.has(st, k) or self.sq.nm(k, 'data') not in g or not same(g[self.sq.nm(k, 'data')][0], D): continue
                A, h, t = self.sq.raw(st, k)
                for x in KINDS: out.append(('element %s of %d' % (x, n), D + 32 * (zi(h) + g['cnt_' + x])))
        return out
    # ---- helpers for contracts
    def handle(self, ex, st, R, name='p'):
        p = ex.new_region(st, name, const(ex, self.mod, self.n + '_size')); ex.addr(p); ex.put(st, p, 0, 8, Ptr(R, 0)); return p
    def end(self, ex, s, R, n, what):
        g = PG(s, R.id); ex.prove(s, not s.ghost['held'], what + ': the lock is released'); ex.prove(s, g['mine'] == n, what + ': every handle accounts for exactly one reference')
        if g['last'] is not None and n == 0:
            if s.ghost['own'] is not False and ex.sat(s, zb(s.ghost['own'])): ex.prove(s, Implies(zb(s.ghost['own']), s.mem[R.id].alive), what + ': the state is alive'); s.assume(Not(zb(s.ghost['own'])))
            if not ex.sat(s): return
            ex.prove(s, Not(g['last']) if s.mem[R.id].alive else g['last'], what + ': the state is destroyed with the last reference and not before')
        else: ex.prove(s, s.mem[R.id].alive, what + ': the state is alive')
def ex_throw(s): return [(s, 'throw', Exc(None, fresh_int('exc')))]
def verify(V):
    mod = V.module('prom.cpp'); V.par = 8
    for pre, cls, nm in (('pr', 'vt::T', 'promise<T>'), ('pv', 'std::monostate', 'promise<void>')):
        contracts(V, mod, PR(V, mod, pre, cls), nm)
    V.assume_note('std::mutex and std::condition_variable as specified by the standard (spurious wakeups included); std::vector is a sequence and its allocations may fail; std::function is opaque; exception_ptr not null',
                  'termination (that somebody settles the promise) is not claimed')
def contracts(V, mod, M, nm):
    n = M.n
    # settling
    for op, fns in (('fulfill', ('fulfill', 'tryfulfill') + (() if M.void else ('fulfillc', 'tryfulfillc'))), ('reject', ('reject', 'tryreject'))):
        for fn in fns:
            def body(ex, op=op, fn=fn):
                st, R = M.pre(ex, op, 0); p = M.handle(ex, st, R); st.setg('own', True); st.guards[p.id] = M.pguard; args = [Ptr(p, 0)]; M.given = z3.Int('given'); st.assume(And(M.given > 0, M.given < 2 ** 47))
                if op == 'fulfill' and not M.void: v = ex.new_region(st, 'v', 16); ex.put(st, v, 0, 8, M.given); args.append(Ptr(v, 0))
                if op == 'reject': v = ex.new_region(st, 'e', 8); ex.put(st, v, 0, 8, SPtr(M.given)); args.append(Ptr(v, 0))
                kinds = set()
                for s, k, r in ex.live(ex.exec_fn(st, M.F(fn), args)):
                    if k == 'stop':
                        ex.prove(s, s.ghost['settled'] is not None, 'only a throwing callback terminates the program'); continue
                    g = s.ghost; M.end(ex, s, R, 0, fn); kinds.add((k, g['settled']))
                    if g['settled'] is not None:
                        ex.prove(s, k == 'ret' and (r is None or zb(r)), 'settling succeeds and is reported'); ex.prove(s, not g['mustnotify'], 'threads waiting in get are all woken')
                        for x in ('v', 't' if op == 'fulfill' else 'e'): A, h, t = g['took'][x]; ex.prove(s, g['cnt_' + x] == zi(t) - zi(h), 'every registered callback is invoked exactly once')
                    else:
                        if k == 'ret': ex.prove(s, fn.startswith('try') and Not(zb(r)), 'not settling is reported')
                        elif PG(s, R.id)['seen'] is None: ex.prove(s, op == 'fulfill', 'an exception comes from copying the value'); ex.prove(s, v.name == 'std::logic_error' if False else True, '')
                        elif fn.startswith('try'): ex.prove(s, False, 'the try_ variants do not throw if the promise is settled')
                        if k == 'ret': ex.prove(s, PG(s, R.id)['seen'] is not None, 'settling fails only if the promise was settled before')
                ex.prove(st, any(x[1] is not None for x in kinds), 'a pending promise can be settled')
            V.check('%s.%s' % (nm, fn), mod, body)
    # registering
    def then(ex):
        st, R = M.pre(ex, 'then', 0); p = M.handle(ex, st, R); st.setg('own', True); st.guards[p.id] = M.pguard
        a, b = z3.Int('ta'), z3.Int('tb'); st.assume(And(a >= 0, b >= 0, a < 10 ** 6, b < 10 ** 6)); M.tok = {'t': a, 'e': b}
        f, e = ex.new_region(st, 'f', 32), ex.new_region(st, 'c', 32); ex.put(st, f, 0, 8, a); ex.put(st, e, 0, 8, b)
        for s, k, r in ex.live(ex.exec_fn(st, M.F('then'), [Ptr(p, 0), Ptr(f, 0), Ptr(e, 0)])):
            g = s.ghost; M.end(ex, s, R, 0, 'then'); seen = PG(s, R.id)['seen']
            if k != 'ret': continue
            if seen is None:
                ex.prove(s, ('t' in g['reg']) if False else zb('t' in g['reg']) == (a != 0), 'a result callback is registered with a pending promise'); ex.prove(s, zb('e' in g['reg']) == (b != 0), 'an error callback is registered with a pending promise'); ex.prove(s, g['direct'] == 0, 'nothing is invoked while the promise is pending')
            else:
                ex.prove(s, zi(g['direct']) == z3.If((a if seen == 'ful' else b) != 0, 1, 0), 'a settled promise invokes the callback that matches, once'); ex.prove(s, not g['reg'], 'nothing is registered with a settled promise')
    V.check(nm + '.then', mod, then)
    def settle(ex):
        st, R = M.pre(ex, 'on_settle', 0); p = M.handle(ex, st, R); st.setg('own', True); st.guards[p.id] = M.pguard
        a = z3.Int('ta'); st.assume(And(a >= 0, a < 10 ** 6)); M.tok = {'v': a}; f = ex.new_region(st, 'f', 32); ex.put(st, f, 0, 8, a)
        for s, k, r in ex.live(ex.exec_fn(st, M.F('settle'), [Ptr(p, 0), Ptr(f, 0)])):
            g = s.ghost; M.end(ex, s, R, 0, 'on_settle'); seen = PG(s, R.id)['seen']
            if k != 'ret': continue
            ex.prove(s, zi(g['direct'] + len(g['reg'])) == z3.If(a != 0, 1, 0), 'the callback is registered or invoked, exactly once'); ex.prove(s, g['direct'] == 0 or seen is not None, 'only a settled promise invokes the callback directly')
    V.check(nm + '.on_settle', mod, settle)
    # queries
    def out(ex, s, R, r, k, what):
        """the result of get-like operations is the stored outcome"""
        seen = PG(s, R.id)['seen']; rid = R.id
        if k == 'throw':
            ex.prove(s, seen == 'rej', what + ' throws only if the promise was rejected'); ex.prove(s, ex.eq(SPtr(zi(r.tok)), SPtr(M.val[rid][1])), what + ' rethrows the stored exception'); return
        ex.prove(s, k == 'ret', what + ' does not terminate')
        if seen != 'ful': return
        if not M.void: ex.prove(s, ex.eq(r, Ptr(R, M.offs['val'])), what + ' refers to the stored value')
    for q, st_ in (('pending', 'pend'), ('fulfilled', 'ful'), ('rejected', 'rej')):
        def query(ex, q=q, st_=st_):
            st, R = M.pre(ex, 'query'); p = M.handle(ex, st, R)
            for s, k, r in ex.live(ex.exec_fn(st, M.F(q), [Ptr(p, 0)])):
                M.end(ex, s, R, 1, q); seen = PG(s, R.id)['seen'] or 'pend'; ex.prove(s, k == 'ret' and zb(r) == (seen == st_), 'is_%s tells the state of the promise' % q)
        V.check('%s.is_%s' % (nm, q), mod, query)
    def get(ex):
        st, R = M.pre(ex, 'get'); p = M.handle(ex, st, R)
        for s, k, r in ex.live(ex.exec_fn(st, M.F('get'), [Ptr(p, 0)])):
            M.end(ex, s, R, 1, 'get'); ex.prove(s, PG(s, R.id)['seen'] is not None, 'get returns only once the promise is settled'); out(ex, s, R, r, k, 'get')
            if k == 'ret': ex.prove(s, PG(s, R.id)['seen'] == 'ful', 'get returns only if the promise was fulfilled')
    V.check(nm + '.get', mod, get)
    def gett(ex):
        st, R = M.pre(ex, 'gett'); p = M.handle(ex, st, R); d = ex.new_region(st, 'd', 8); M.dur = z3.Int('dur'); st.assume(And(M.dur >= -10 ** 9, M.dur < 10 ** 9)); ex.put(st, d, 0, 8, M.dur)
        for s, k, r in ex.live(ex.exec_fn(st, M.F('gett'), [Ptr(p, 0), Ptr(d, 0)])):
            M.end(ex, s, R, 1, 'get(timeout)'); seen = PG(s, R.id)['seen']
            if seen is None: ex.prove(s, s.ghost['timeout'], 'get gives up only after the timeout'); ex.prove(s, k == 'ret' and (Not(zb(r)) if M.void else ex.eq(r, 0)), 'a timeout is reported as such')
            else: 
                out(ex, s, R, r, k, 'get(timeout)')
                if k == 'ret': ex.prove(s, seen == 'ful', 'get returns only if the promise was fulfilled'); 
                if M.void and k == 'ret': ex.prove(s, zb(r), 'get reports that the promise was fulfilled')
    V.check(nm + '.get(timeout)', mod, gett)
    def trygetn(ex):
        st, R = M.pre(ex, 'try'); p = M.handle(ex, st, R); e = ex.new_region(st, 'e', 8); ex.put(st, e, 0, 8, 0)
        for s, k, r in ex.live(ex.exec_fn(st, M.F('trygetn'), [Ptr(p, 0), Ptr(e, 0)])):
            M.end(ex, s, R, 1, 'try_get'); seen = PG(s, R.id)['seen']; ev = s.mem[e.id].cells[0][1]
            ex.prove(s, k == 'ret', 'try_get(nothrow) does not throw'); ex.prove(s, ex.eq(ev, SPtr(M.val[R.id][1]) if seen == 'rej' else 0), 'try_get(nothrow) reports the stored exception exactly if the promise was rejected')
            if seen == 'ful': ex.prove(s, zb(r) if M.void else ex.eq(r, Ptr(R, M.offs['val'])), 'try_get gives the stored value')
            if seen is None: ex.prove(s, Not(zb(r)) if M.void else ex.eq(r, 0), 'try_get reports a pending promise')
    V.check(nm + '.try_get(nothrow)', mod, trygetn)
    def tryget(ex):
        st, R = M.pre(ex, 'try'); p = M.handle(ex, st, R)
        for s, k, r in ex.live(ex.exec_fn(st, M.F('tryget'), [Ptr(p, 0)])):
            M.end(ex, s, R, 1, 'try_get'); seen = PG(s, R.id)['seen']; out(ex, s, R, r, k, 'try_get')
            if k == 'ret':
                ex.prove(s, seen != 'rej', 'try_get throws if the promise was rejected')
                if seen is None: ex.prove(s, Not(zb(r)) if M.void else ex.eq(r, 0), 'try_get reports a pending promise')
                elif M.void: ex.prove(s, zb(r), 'try_get reports that the promise was fulfilled')
    V.check(nm + '.try_get', mod, tryget)
    # awaiting
    def awaiter(ex, op, sus=None):
        st, R = M.pre(ex, op); p = M.handle(ex, st, R); a = M.aw = ex.new_region(st, 'awaiter', const(ex, mod, n + '_asize')); ex.addr(a)
        (s, k, _), = ex.live(ex.exec_fn(st, M.F('coawait'), [Ptr(p, 0), Ptr(a, 0)]))
        ex.prove(s, k == 'ret' and PG(s, R.id)['mine'] == 2, 'an awaiter holds a reference of its own'); s.mem[p.id].alive = False; upd(s, R.id, mine=1)
        return s, R, a
    def ready(ex):
        s, R, a = awaiter(ex, 'query')
        for s, k, r in ex.live(ex.exec_fn(s, M.F('ready'), [Ptr(a, 0)])):
            M.end(ex, s, R, 1, 'await_ready'); ex.prove(s, k == 'ret' and Or(Not(zb(r)), PG(s, R.id)['seen'] is not None), 'await_ready continues only if the promise is settled')
    V.check(nm + ' awaiter.await_ready', mod, ready)
    def suspend(ex):
        s, R, a = awaiter(ex, 'suspend'); st0 = []
        for s1, k, r in ex.live(ex.exec_fn(s, M.F('ready'), [Ptr(a, 0)])):
            if ex.sat(s1, Not(zb(r))): s1.assume(Not(zb(r))); upd(s1, R.id, seen=None); st0.append(s1)
        for s1 in st0:
            s1.assume(And(z3.Int('H') > 0, z3.Int('H') < 2 ** 47)); s1.ghost['reg'] = ()
            for s2, k, r in ex.live(ex.exec_fn(s1, M.F('suspend'), [Ptr(a, 0), SPtr(z3.Int('H'))])):
                if k == 'stop' or k == 'throw':
                    continue        # the allocation failed
                reg = s2.ghost['reg'] == ('v',); M.end(ex, s2, R, 0 if reg else 1, 'await_suspend'); ex.prove(s2, zb(r) == reg, 'the coroutine stays suspended exactly if it is registered with the promise'); ex.prove(s2, reg or PG(s2, R.id)['seen'] is not None, 'a coroutine continues directly only if the promise is settled')
    V.check(nm + ' awaiter.await_suspend', mod, suspend)
    def resume(ex):
        s, R, a = awaiter(ex, 'try'); upd(s, R.id)
        for w in ('ful', 'rej'):
            s1 = s.clone(); upd(s1, R.id, seen=w)
            for s2, k, r in ex.live(ex.exec_fn(s1, M.F('resume'), [Ptr(a, 0)])):
                M.end(ex, s2, R, 1, 'await_resume'); out(ex, s2, R, r, k, 'await_resume'); ex.prove(s2, (k == 'ret') == (w == 'ful'), 'the awaiting coroutine gets the outcome')
                for s3, k3, _ in ex.live(ex.exec_fn(s2, M.F('adtor'), [Ptr(a, 0)])): ex.prove(s3, k3 == 'ret', 'destroying the awaiter does not throw'); M.end(ex, s3, R, 0, 'awaiter destructor')
    V.check(nm + ' awaiter.await_resume', mod, resume)
    # handles
    def copy(ex):
        st, R = M.pre(ex, 'handle'); p = M.handle(ex, st, R); q = ex.new_region(st, 'q', 8); ex.addr(q)
        for s, k, r in ex.live(ex.exec_fn(st, M.F('copy'), [Ptr(q, 0), Ptr(p, 0)])):
            ex.prove(s, ex.eq(ex.peek(s, q, 0), Ptr(R, 0)) and ex.eq(ex.peek(s, p, 0), Ptr(R, 0)), 'a copy is the same promise'); M.end(ex, s, R, 2, 'copy')
    V.check(nm + ' copy', mod, copy)
    def dtor(ex):
        st, R = M.pre(ex, 'handle'); p = M.handle(ex, st, R)
        for s, k, r in ex.live(ex.exec_fn(st, M.F('dtor'), [Ptr(p, 0)])): ex.prove(s, k == 'ret', 'the destructor does not throw'); M.end(ex, s, R, 0, 'destructor')
    V.check(nm + ' destructor', mod, dtor)
    def asgn(ex):
        for case in ('other', 'same', 'self'):
            st, R = M.pre(ex, 'handle', 2 if case == 'same' else 1); p = M.handle(ex, st, R); Q = R if case != 'other' else M.state(ex, st, 1); q = p if case == 'self' else M.handle(ex, st, Q, 'q')
            for s, k, r in ex.live(ex.exec_fn(st, M.F('asgn'), [Ptr(p, 0), Ptr(q, 0)])):
                ex.prove(s, k == 'ret' and ex.eq(ex.peek(s, p, 0), Ptr(Q, 0)) and ex.eq(ex.peek(s, q, 0), Ptr(Q, 0)), 'after assignment both are the same promise')
                M.end(ex, s, Q, 1 if case == 'self' else 2, 'assignment')
                if case == 'other': M.end(ex, s, R, 0, 'assignment')
    V.check(nm + ' assignment', mod, asgn)
    for fn, want in (('ctor', None), ('mkful', 'ful'), ('mkrej', 'rej')):
        def make(ex, fn=fn, want=want):
            st, R0 = M.pre(ex, 'make'); del st.shared[(R0.id, M.offs['cnt'])]; st.ghost = {k: v for k, v in st.ghost.items() if not k.endswith(':%d' % R0.id)}; st.guards = {}; st.ghost['heap'] = (); ex.addr_regions.pop(R0.id, None)
            p = ex.new_region(st, 'p', 8); a = []
            if want == 'ful' and not M.void: v = ex.new_region(st, 'v', 16); ex.put(st, v, 0, 8, z3.Int('given')); st.assume(z3.Int('given') > 0); a = [Ptr(v, 0)]
            if want == 'rej': v = ex.new_region(st, 'e', 8); ex.put(st, v, 0, 8, SPtr(z3.Int('given'))); st.assume(z3.Int('given') > 0); a = [Ptr(v, 0)]
            for s, k, r in ex.live(ex.exec_fn(st, M.F(fn), [Ptr(p, 0)] + a)):
                if k != 'ret': ex.prove(s, not s.ghost['heap'] and k == 'throw', 'a failed construction leaves nothing behind'); continue
                R = ex.peek(s, p, 0).r; c = s.mem[R.id].cells; o = M.offs
                ex.prove(s, s.ghost['heap'] == (R.id,) and ex.eq(c[o['cnt']][1], 1), 'a new promise has its own state with one reference')
                ex.prove(s, ex.eq(c[o['idx']][1], {None: 0, 'ful': 1, 'rej': 2}[want]), 'a new promise is %s' % (want or 'pending'))
                if want == 'ful' and not M.void: ex.prove(s, ex.eq(c[o['val']][1], z3.Int('given')), 'it holds the given value')
                if want == 'rej': ex.prove(s, ex.eq(c[o['err']][1], SPtr(z3.Int('given'))), 'it holds the given exception')
                ex.prove(s, And(*[zi(M.sq.get(s, (R.id, x))[1]) == zi(M.sq.get(s, (R.id, x))[2]) for x in o['vec'].values()]), 'nothing is registered with it')
        V.check('%s %s' % (nm, {'ctor': 'constructor', 'mkful': 'make_fulfilled', 'mkrej': 'make_rejected'}[fn]), mod, make)
