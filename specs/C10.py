"""promise combinators over the contracts of promise (C09): each input invokes, once, exactly one of the callbacks registered with it,
at any time and on any thread (possibly during registration).  The callbacks are executed for an arbitrary number of
other inputs that settled before (rely/guarantee on the shared counter)"""
from .lib import *
from .C09 import FV, FE, ex_throw
FT = 'std::function<void (vt::T const&)>'; P = 'asyncpp::promise<vt::T>'; PV = 'asyncpp::promise<void>'
class Counter:
    """the number of inputs whose callback ran, in whatever encoding (start value and step are learned)"""
    def __init__(self, M): self.M = M
    def observe(self, ex, st, kind):
        c = fresh_int('ran'); st.assume(And(c >= st.ghost['mine'], c <= self.M.N - (1 if st.ghost['running'] else 0))); st.ghost['c'] = c
        return [(st, ex.simp(self.M.v0 + c * self.M.d))]
    def commit(self, ex, st, old, new, order, loc, kind):
        ex.prove(st, kind != 'store', 'the counter only changes by atomic read-modify-write', loc)
        ex.prove(st, And(zi(new) == zi(old) + self.M.d, st.ghost['running'] and st.ghost['counted'] is None), 'every callback counts its input once', loc)
        st.ghost['counted'] = st.ghost['c']; st.ghost['mine'] += 1
class Comb:
    def __init__(self, mod, fn, N): self.mod = mod; self.fn = fn; self.N = N; self.v0 = None; self.cell = None
    def setup(self, ex):
        ex.contracts = []
        mk = lambda c: Opaque(ex, c, empty=0, moved=0, other=lambda *a: self.closures.mk(self.fo[c], *a))
        self.T = Opaque(ex, 'vt::T'); self.fo = {c: mk(c) for c in (FV, FT, FE)}; self.closures = Closures()
        self.pr = {c: Opaque(ex, c, throws=(), other=lambda *a, c=c: self.promise(c, *a)) for c in (P, PV, 'asyncpp::promise<std::monostate>')}
        st = State(); st.ghost.update(reg=(), running=False, counted=None, mine=0, c=None, did=(), new=())
        return st
    def promise(self, c, ex, st, m, ps, a, loc):
        m0 = re.sub(r'<.*', '', m)
        tok = self.pr[c].get(st, a[0], loc); self.pr[c].live(st, tok, loc, 'that is used')
        if m0 in ('then', 'on_settle'):
            k = [i for i in range(self.N) if ex.valid(st, tok == self.inp(i))]
            ex.prove(st, len(k) == 1 and not any(r[0] == k[0] for r in st.ghost['reg'] if k), 'callbacks are registered once with every input', loc)
            if len(k) != 1: return []
            cb = [ex.simp((self.fo[FV] if m0 == 'on_settle' else self.fo[(FT, FE)[j]]).get(st, x, loc)) for j, x in enumerate(a[1:])]
            cb = [self.closures.find(ex, st, x) for x in cb]
            ex.prove(st, None not in cb, 'an input calls back whatever its outcome', loc)
            if None in cb: return []
            st.ghost['reg'] += ((k[0], tuple(cb)),)
            if self.learning: return [(st, 'ret', None)]
            outs = [(st.clone(), 'ret', None)]       # the input is pending, or settled already
            for o in ('ful', 'rej'):
                for s, kk, _ in self.fire(ex, st.clone(), k[0], cb, o, loc, True): outs.append((s, kk, None))
            return outs
        if m0 in ('try_fulfill', 'fulfill', 'try_reject', 'reject'):
            st.ghost['did'] += ((m0.replace('try_', ''), tok, a[1:] and self.arg(ex, st, m0, ps, a[1], loc), m0.startswith('try_')),)
            if self.learning: return [(st, 'ret', True if m0.startswith('try_') else None)]
            if m0.startswith('try_'): return [(st, 'ret', fresh_bool('won'))] + ([] if 'reject' in m0 or c == PV else [(st.clone(), 'throw', Exc(None, fresh_int('exc')))])
            return [(st, 'ret', None)]
        return NotImplemented
    def arg(self, ex, st, m0, ps, p, loc):
        if 'reject' in m0: return ex.to_int(ex.load(st, p, ex.mk_ptr(), loc))
        return self.T.get(st, p, loc)
    def inp(self, i): return z3.Int('input%d' % i)
    def fire(self, ex, st, i, cb, o, loc, inline):
        """input i settles with outcome o: it runs the matching callback once"""
        did0 = len(st.ghost['did']); st.ghost.update(running=True, counted=None)
        t = cb[0] if len(cb) == 1 or o == 'ful' else cb[1]; args = []
        V, X = z3.Int('V%d' % i), z3.Int('X%d' % i); st.assume(And(V > 0, X > 0, X < 2 ** 47))
        if len(cb) == 2:
            v = ex.new_region(st, 'v', 16); ex.put(st, v, 0, 8, V if o == 'ful' else SPtr(X)); args = [Ptr(v, 0)]
        out = []
        for s, k, r in ex.live(self.closures.run(ex, st, t, args)):
            d = s.ghost['did'][did0:]; c = s.ghost['counted']; R = self.result(s)
            if not self.learning: self.step(ex, s, i, o, d, c, R, V, X, k)
            s.ghost.update(running=False); out.append((s, 'ret', None))
        return out
    def result(self, s): return s.ghost.get('R')
    def step(self, ex, s, i, o, d, c, R, V, X, k):
        P_ = lambda x, nm: ex.prove(s, x, nm)
        if self.fn == 'first': want = (o, True)
        elif self.fn == 'succ': want = ('ful', True) if o == 'ful' else ('rej', c == self.N - 1 if c is not None else False)
        else: want = ('ful', c == self.N - 1 if c is not None else False)
        name = {'first': 'promise_first settles its result with whatever settles first', 'succ': 'promise_first_successful fulfils with any input that fulfils, and rejects exactly when all inputs have been rejected', 'all': 'promise_all fulfils exactly when all inputs have settled'}[self.fn]
        P_((len(d) == 1) == want[1] if isinstance(want[1], bool) else zb(len(d) == 1) == want[1], name); P_(len(d) <= 1, name)
        if self.fn == 'all' or self.fn == 'succ' and o == 'rej': P_(c is not None, 'every input counts')
        if self.fn == 'succ' and o == 'ful': P_(c is None, 'an input that is fulfilled does not count as rejected')
        for m, tok, arg, tr in d:
            P_(m == {'ful': 'fulfill', 'rej': 'reject'}[want[0]], name); P_(tok == s.ghost['R'] if s.ghost.get('R') is not None else True, 'the callbacks settle the promise that is returned'); s.ghost['new'] += (tok,)
            if self.fn != 'all': P_(arg == (V if want[0] == 'ful' else X), 'the result has the value or exception of the input'); P_(tr or self.fn == 'succ' and o == 'rej' and False, 'losing against another input is not an error')
        # a throwing copy of the value leaves through the callback (and terminates, C09)
        if k == 'throw': P_(o == 'ful' and self.fn != 'all', 'callbacks throw only if copying the value throws')
    def learn(self, ex):
        if self.v0 is not None: return
        self.learning = True; ex.trial += 1
        try:
            s, r = self.build(ex)
            self.v0 = 0; self.d = 1
            if self.fn != 'first':
                s.ghost['R'] = None; prev = {}; cand = None
                h = [x for x in s.ghost.get('heap') or ()]
                before = {(x, o): v for x in h for o, (z, v) in s.mem[x].cells.items() if z == 8 and isinstance(v, int)}
                i, cb = s.ghost['reg'][0]
                (s2, k, _), = self.fire(ex, s, i, cb, 'rej', '', False)
                ch = [(k_, s2.mem[k_[0]].cells[k_[1]][1] - v) for k_, v in before.items() if not same(s2.mem[k_[0]].cells.get(k_[1], (8, v))[1], v)]
                if len(ch) != 1: raise ToolLimit('counter not identified %s' % ch)
                (k_, self.d), = ch; self.v0 = before[k_]; self.cell = (h.index(k_[0]), k_[1])
        finally: ex.trial -= 1; self.learning = False
    def build(self, ex):
        st = self.setup(ex); args = []; res = ex.new_region(st, 'res', 8)
        for i in range(self.N):
            p = ex.new_region(st, 'in%d' % i, 8); st.assume(And(self.inp(i) > 0, *[self.inp(i) != self.inp(j) for j in range(i)])); ex.put(st, p, 0, 8, self.inp(i)); args.append(Ptr(p, 0))
        outs = ex.live(ex.exec_fn(st, self.mod.funcs['%s%d' % (self.fn, self.N)], [Ptr(res, 0)] + args))
        if self.learning:
            outs = [o for o in outs if o[1] == 'ret']
            return outs[0][0], res
        return outs, res
def verify(V):
    mod = V.module('comb.cpp'); V.par = 8
    for fn, nm in (('first', 'promise_first'), ('succ', 'promise_first_successful'), ('all', 'promise_all')):
        for N in (1, 2, 3):
            def body(ex, fn=fn, N=N):
                M = Comb(mod, fn, N); M.learn(ex)
                if M.cell is not None:
                    # the counter is shared from its construction on
                    def hook(ex_, st, r, n, loc):
                        if len(st.ghost['heap']) - 1 == M.cell[0]: st.shared[(r.id, M.cell[1])] = Pre(M)
                    ex.new_hook = hook
                outs, res = M.build(ex)
                for s, k, _ in outs:
                    if k == 'throw': ex.prove(s, True, 'registering may fail'); continue
                    ex.prove(s, k == 'ret', 'the combinator returns'); ex.prove(s, sorted(i for i, _ in s.ghost['reg']) == list(range(N)), 'every input is listened to')
                    R = (M.pr[PV if fn == 'all' else P]).get(s, Ptr(res, 0)); 
                    for t in s.ghost['new']: ex.prove(s, t == R, 'the promise returned is the one the callbacks settle')
                    s.ghost['R'] = R
                    if s.ghost['did'] or s.ghost['mine']: continue       # callbacks that ran already were checked above
                    # any input settles later, on any thread: the stack of the combinator is gone
                    for i, cb in s.ghost['reg']:
                        for o in ('ful', 'rej'):
                            s2 = s.clone()
                            for rid in list(s2.mem):
                                if rid in ex.stackids: s2.mem[rid].alive = False
                            M.fire(ex, s2, i, cb, o, '', False)
            V.check('%s of %d' % (nm, N), mod, body)
    V.assume_note('promise by its contract (C09): every input invokes exactly one of the callbacks registered with it, once',
                  'std::shared_ptr and std::make_shared are executed as real code; at least one input; instantiated for one to three inputs (the number of inputs is a template parameter)')
class Pre(Counter):
    """before it is initialized the counter is private"""
    def private(self, ex, st): return not st.ghost['reg']
