"""fire and forget coroutines: the lowered coroutine around the most general body; counted handles, any number of them on other threads (rely/guarantee on the reference count and the started flag)"""
from .coro import *
from .C18 import held, live_frames, susp

def G(st, rid): return st.ghost['F'][rid]
def upd(st, rid, **kw):
    f = dict(st.ghost['F']); f[rid] = dict(f[rid], **kw); st.ghost['F'] = f
class Count:
    """the reference count: one per handle and one for the running body"""
    def __init__(self, M, rid): self.M = M; self.rid = rid
    def observe(self, ex, st, kind):
        g = G(st, self.rid)
        ex.prove(st, g['mine'] > 0, 'the coroutine is only touched while a reference to it is held')
        n = fresh_int('refs'); st.assume(And(n >= g['mine'] + (1 if g['bodyenv'] else 0), n < 2 ** 60)); return [(st, n)]
    def commit(self, ex, st, old, new, order, loc, kind):
        g = G(st, self.rid)
        if ex.valid(st, zi(new) == zi(old) + 1): upd(st, self.rid, mine=g['mine'] + 1, bodyrun=g['bodyrun'] or g['depth'] > 0); return
        if not ex.valid(st, zi(new) == zi(old) - 1): ex.fail(st, 'the reference count changes by one at a time', loc); return
        ex.prove(st, g['mine'] > 0, 'only a reference that is held is dropped', loc)
        if g['depth'] > 0:
            # the body gives up its reference: from here on any other thread may destroy the coroutine
            ex.prove(st, g['bodyrun'], 'the body drops only the reference it took', loc)
            ex.prove(st, susp(st, g['h']) == 'done', 'the body drops its reference only when the coroutine is suspended at its end', loc)
            upd(st, self.rid, bodyrun=False)
        upd(st, self.rid, mine=g['mine'] - 1)
        if g['mine'] == 1: upd(st, self.rid, last=zi(old) == 1)
class Started:
    """only the first start() may resume the coroutine"""
    def __init__(self, M, rid): self.M = M; self.rid = rid
    def observe(self, ex, st, kind):
        g = G(st, self.rid); ex.prove(st, g['mine'] > 0, 'the coroutine is only touched while a reference to it is held')
        if g['claim'] or g['started'] is True: return [(st, 1)]
        s2 = st.clone(); upd(s2, self.rid, started=True); return [(st, 0), (s2, 1)]
    def commit(self, ex, st, old, new, order, loc, kind):
        ex.prove(st, kind in ('xchg', 'cas') or same(old, 1), 'the coroutine is claimed for starting in one atomic step', loc)
        ex.prove(st, zb(new), 'a coroutine that was started stays started', loc)
        if old == 0: upd(st, self.rid, claim=True, claimed=True)
class FF:
    def __init__(self, V, mod, n): self.V = V; self.mod = mod; self.n = n; self.F = lambda k: mod.funcs[n + '_' + k]; self.offs = None; self.owned = None
    def start(self, ex, stat=True):
        C = self.C = Coro(ex, self.mod); st = State(); C.start(st); self.bodyhook = None
        st.ghost.update(F={}, handled=0, incatch=True, exc=None)
        self.fo = Opaque(ex, 'std::function<void ()>', empty=0, moved=0, call=self.call, other=self.mkfn); self.fns = {}
        ex.contracts = [(re.compile(r'^vt::env_handler\('), lambda ex_, s, F, a, loc: self.fo.put(s, a[0], z3.Int('handler'), loc))] + ex.contracts
        st.assume(And(z3.Int('handler') > 0, z3.Int('handler') < 10 ** 6))
        ex.hooks['resume'] = self.resume; C.on_destroy_frame = self.on_destroy; C.on_body = lambda *a: self.bodyhook and self.bodyhook(*a)
        ex.contracts = [(rx, self.env_suspend if h == C.env_suspend else h) for rx, h in ex.contracts]
        if stat:
            # program start: the (constant) policies are zero before their initializers run
            for nm in self.mod.globals:
                if 'exception_policy' in nm and nm.startswith('_Z'): r = ex.global_region(st, nm); ex.zero(st, r, 0, r.meta[1])
            ex.contracts = [(re.compile('^__cxa_guard_acquire$'), lambda *a: 1), (re.compile('^__cxa_guard_release$'), lambda *a: None)] + ex.contracts
            for nm, f in list(self.mod.funcs.items()):
                if nm.startswith('__cxx_global_var_init') and not f.decl: (st, k, _), = ex.exec_fn(st, f, [])
        return C, st
    def mkfn(self, ex, st, m, ps, a, loc):
        """std::function from a callable: remembers which"""
        t = 10 ** 6 + len(self.fns) + 1
        cl = re.sub(r'( const)?\s*&+$', '', ps).strip()
        self.fns[t] = cl; self.fo.put(st, a[0], z3.IntVal(t), loc); return [(st, 'ret', None)]
    def call(self, ex, st, t, a, loc):
        st.ghost['handled'] += 1
        if not st.caught: st.ghost['incatch'] = False
        if ex.valid(st, t == z3.Int('handler')): return None
        ex.prove(st, t != 0, 'no empty handler is called', loc)
        for k, cl in self.fns.items():
            if ex.valid(st, t == k):
                c = [f for f in self.mod.funcs.values() if not f.decl and f.dem.startswith(cl + '::operator()(')]
                if len(c) != 1: raise ToolLimit('callable %s not found' % cl)
                return ex.call(st, c[0], [Ptr(ex.new_region(st, 'closure', 1), 0)], loc)
        raise ToolLimit('unknown handler %s %s' % (t, self.fns))
    def learn(self, ex):
        """which words of the frame are the count and (lazy) the started flag"""
        if self.offs is not None: return
        ex.trial += 1
        try:
            C, st = self.start(ex); o = ex.new_region(st, 'o', 8); p = ex.new_region(st, 'p', 8)
            C.on_destroy_frame = lambda *a: None; ex.hooks['resume'] = C.resume
            s = [x for x in ex.exec_fn(st, self.F('body'), [Ptr(o, 0)]) if x[1] == 'ret'][0][0]
            h = held(ex, s, o); before = dict(s.mem[h.r.id].cells)
            s2 = ex.exec_fn(s.clone(), self.F('copy'), [Ptr(p, 0), Ptr(o, 0)])[0][0]
            diff = lambda s_, sz_: [k for k, (sz, v) in s_.mem[h.r.id].cells.items() if sz == sz_ and not same(v, before.get(k, (0, None))[1]) and isinstance(v, int)]
            ch = diff(s2, 8)
            if len(ch) != 1: raise ToolLimit('reference count not identified')
            self.co = ch[0]; self.fl = None
            if self.n == 'l':
                ex.hooks['resume'] = lambda ex_, s_, h_, loc: None
                s3 = ex.exec_fn(s2, self.F('start'), [Ptr(o, 0)])[0][0]
                ch = diff(s3, 1)
                if len(ch) == 1: self.fl = ch[0]
            self.offs = True
        finally: ex.trial -= 1
    def share(self, ex, st, h, **kw):
        """from here on other threads may know the coroutine"""
        st.shared[(h.r.id, self.co)] = Count(self, h.r.id)
        if self.fl is not None: st.shared[(h.r.id, self.fl)] = Started(self, h.r.id)
        f = dict(st.ghost['F']); f[h.r.id] = dict(dict(h=h, mine=1, bodyrun=False, bodyenv=False, last=None, started=None, claim=False, claimed=False, depth=0, destroyed=False, env=False, ran=False), **kw); st.ghost['F'] = f
        st.guards = dict(st.guards); st.guards[h.r.id] = self.guard
    def guard(self, ex, st, p, size, write, loc):
        g = G(st, p.r.id)
        if isinstance(p.off, int) and (p.r.id, p.off) in st.shared: return
        if isinstance(p.off, int) and 16 <= p.off and size == 8 and write is None: return
        if g['depth'] > 0 and g['bodyrun'] or g['claim']: return
        if g['depth'] > 0 and g['ran'] and not g['bodyenv'] and g['mine'] > 0: return
        if g['last'] is not None and ex.valid(st, g['last']): return
        ex.fail(st, 'the frame is touched only by its running body, by the one call that starts it, or by whoever dropped the last reference', loc)
    def resume(self, ex, st, h, loc):
        h = self.C.norm(st, h, loc)
        if not isinstance(h, Ptr) or h.r.id not in st.ghost['F']: return self.C.resume(ex, st, h, loc)
        g = G(st, h.r.id)
        if not g['env']:
            ex.prove(st, g['claim'], 'a lazy coroutine is resumed only by the one call that starts it', loc)
            ex.prove(st, g['mine'] > 0, 'a coroutine is only started while a reference to it is held', loc)
        upd(st, h.r.id, depth=g['depth'] + 1, ran=True)
        f = st.mem[h.r.id].cells.get(0, (8, 0))[1]
        if not isinstance(f, FnPtr): ex.fail(st, 'a coroutine that is done is not resumed', loc); return []
        outs = ex.call_ptr(st, f, [h], loc)
        for o in outs: upd(o[0], h.r.id, depth=g['depth'], claim=False)
        return outs
    def env_suspend(self, ex, st, F, a, loc):
        """the body handed itself (and its reference) to whatever it awaits"""
        h = self.C.norm(st, a[1], loc); st.ghost['env_h'] = h
        for rid, g in st.ghost['F'].items():
            if isinstance(h, Ptr) and h.r.id == rid:
                ex.prove(st, g['bodyrun'], 'the running body holds a reference of its own', loc)
                upd(st, rid, mine=g['mine'] - 1, bodyrun=False, bodyenv=True, claim=False)
        return None
    def on_destroy(self, ex, st, h, loc):
        if h.r.id not in st.ghost['F']: return
        g = G(st, h.r.id)
        ex.prove(st, g['last'] is not None and g['mine'] == 0, 'the frame is destroyed only after the last reference was dropped', loc)
        if g['last'] is not None: ex.prove(st, g['last'], 'the frame is destroyed only by whoever dropped the last reference', loc)
        ex.prove(st, not g['destroyed'], 'the frame is destroyed once', loc); upd(st, h.r.id, destroyed=True)
        if self.owned and self.owned[0] == h.r.id: st.mem[self.owned[1]].alive = False
    def alive(self, st, h): return st.mem[h.r.id].alive
    def settle(self, ex, s, h, objs, what):
        """accounting at the end of an operation: the references held are exactly those of the handles given"""
        g = G(s, h.r.id); n = sum(1 for o in objs if (s.mem[o.id].alive or (self.owned or (0, 0))[1] == o.id) and ex.valid(s, ex.eq(held(ex, s, o), h)))
        ex.prove(s, g['mine'] == n, '%s: every handle accounts for exactly one reference' % what)
        if g['last'] is not None and g['mine'] == 0:
            if self.alive(s, h): ex.prove(s, Not(g['last']), '%s: dropping the last reference destroys the frame' % what)
            else:
                ex.prove(s, g['last'], '%s: the frame is destroyed only when the last reference goes' % what)
        else: ex.prove(s, self.alive(s, h), '%s: the frame lives while a reference is held' % what)
    def exc(self, ex, s, k, variant, was=None):
        """what happens to an exception that leaves the body"""
        if s.ghost['exc'] is None:
            ex.prove(s, k == 'ret', 'a body that does not throw does not terminate the program'); ex.prove(s, s.ghost['handled'] == 0, 'the exception handler is called only for an exception'); return k == 'ret'
        ex.prove(s, k in ('ret', 'stop'), 'no exception leaves a fire and forget coroutine')
        if variant in ('body', 'bodyt'): ex.prove(s, k == 'stop', 'an exception terminates the program by default'); return False
        ex.prove(s, k == 'ret', 'an exception is swallowed / passed to the handler as configured, without terminating')
        if variant == 'bodyh': ex.prove(s, s.ghost['handled'] == 1 and s.ghost['incatch'], 'the handler is called once, while the exception is being handled')
        return k == 'ret'
def verify(V):
    mod = V.module('faf.cpp', coro=True); V.par = 8
    def body(ex, M, s0, o, h, variant, prev, depth):
        """the awaited thing resumes the body, on whatever thread; the handles are elsewhere"""
        s0 = s0.clone(); M.share(ex, s0, h, mine=1, bodyrun=True, env=True, started=True); s0.ghost['exc'] = None; s0.ghost['handled'] = 0; M.bodyhook = None
        for s, k, _ in ex.live(ex.exec_fn(s0, mod.funcs['hres'], [h])):
            if not M.exc(ex, s, k, variant): continue
            g = G(s, h.r.id)
            if g['bodyenv']:
                ex.prove(s, g['mine'] == 0 and s.ghost['awaiters'] == 1 and susp(s, h) == 'suspended', 'the body is suspended in an await')
                if prev is not None and same_frame(ex, prev, s, h, M): continue
                if depth > 3: raise ToolLimit('suspended states do not repeat')
                body(ex, M, s, o, h, variant, s.clone(), depth + 1); continue
            ex.prove(s, g['mine'] == 0 and g['last'] is not None, 'a body that finished has dropped its reference')
            if g['last'] is None: continue
            if M.alive(s, h):
                ex.prove(s, Not(g['last']), 'the frame of a coroutine without handles is destroyed when its body finishes'); ex.prove(s, s.ghost['locals'] == 0, 'the locals of the body are destroyed')
            else:
                ex.prove(s, g['last'], 'a finished body destroys the frame only if no handle remains'); ex.prove(s, s.ghost['locals'] == 0 and s.ghost['awaiters'] == 0, 'the locals of the body are destroyed')
    def lazystart(ex, M, s0, o, h, variant, selfd):
        s0 = s0.clone(); M.bodyhook = None
        if selfd:
            def kill(ex_, s, loc):
                if s.mem[o.id].alive and not s.ghost.get('killed'):
                    s.ghost['killed'] = True
                    r = ex_.exec_fn(s, M.F('dtor'), [Ptr(o, 0)])
                    if len(r) != 1 or r[0][0] is not s: ex_.fail(s, 'a body may destroy the handle it was started through', loc)
                    s.mem[o.id].alive = False
            M.bodyhook = kill
        for s, k, _ in ex.live(ex.exec_fn(s0, M.F('start'), [Ptr(o, 0)])):
            if not M.exc(ex, s, k, variant): continue
            g = G(s, h.r.id)
            ex.prove(s, g['ran'] or g['started'] is True, 'start runs the body unless it was started before')
            if g['bodyenv'] and not selfd:
                # and the body, resumed later
                body(ex, M, s, o, h, variant, None, 0)
            M.settle(ex, s, h, [o], 'start')
            if M.alive(s, h) and g['ran'] and not g['bodyenv']: ex.prove(s, s.ghost['locals'] == 0, 'the locals of the body are destroyed')
            if s.mem[o.id].alive:
                # starting again does nothing
                for s2, k2, _ in ex.live(ex.exec_fn(s, M.F('start'), [Ptr(o, 0)])):
                    ex.prove(s2, k2 == 'ret' and G(s2, h.r.id)['ran'] == g['ran'], 'a second start through the same handle does nothing'); M.settle(ex, s2, h, [o], 'second start')
        M.bodyhook = None
    def mk(ex, M, s, frame):
        """a handle to a coroutine in the given situation; other handles may exist anywhere"""
        n = M.n; o = ex.new_region(s, 'o', const(ex, mod, n + '_size')); ex.addr(o); M.bodyhook = None
        outs = [x for x in ex.exec_fn(s, M.F('body'), [Ptr(o, 0)]) if x[1] == 'ret']
        if n == 'l': s = outs[0][0]; h = held(ex, s, o); M.share(ex, s, h)
        else:
            want = 1 if frame == 'S1' else 0
            s = [x[0] for x in outs if x[0].ghost['awaiters'] == want][0]; h = held(ex, s, o); M.share(ex, s, h, started=True, bodyenv=want == 1); s.ghost['awaiters'] = 0; s.ghost['locals'] = want
        if n == 'l' and frame != 'S0':
            p = ex.new_region(s, 'tmp', const(ex, mod, n + '_size')); s = ex.exec_fn(s, M.F('copy'), [Ptr(p, 0), Ptr(o, 0)])[0][0]
            outs = [x for x in ex.exec_fn(s, M.F('start'), [Ptr(p, 0)]) if x[1] == 'ret' and G(x[0], h.r.id)['ran']]
            s = [x[0] for x in outs if G(x[0], h.r.id)['bodyenv'] == (frame == 'S1')][0]
            upd(s, h.r.id, mine=1, started=True, claim=False, ran=False, last=None); s.ghost['awaiters'] = 0; s.ghost['locals'] = 1 if frame == 'S1' else 0
        if frame == 'S1': s.ghost['locals'] = 0
        upd(s, h.r.id, depth=0, ran=False)
        s.ghost['exc'] = None; s.ghost['handled'] = 0
        return s, o, h
    for n, what in (('e', 'eager_fire_and_forget_task'), ('l', 'fire_and_forget_task')):
        M = FF(V, mod, n)
        for variant in ('body', 'bodyi', 'bodyt', 'bodyh'):
            def life(ex, M=M, n=n, variant=variant):
                M.learn(ex); C, st = M.start(ex); o = ex.new_region(st, 'o', const(ex, mod, n + '_size')); ex.addr(o)
                if n == 'l':
                    def nobody(ex_, s, loc): ex_.fail(s, 'the body of a lazy coroutine does not run before it is started', loc)
                    M.bodyhook = nobody
                for s, k, _ in ex.live(ex.exec_fn(st, M.F(variant), [Ptr(o, 0)])):
                    if not M.exc(ex, s, k, variant): continue
                    h = held(ex, s, o); cnt = s.mem[h.r.id].cells[M.co][1]
                    ex.prove(s, M.alive(s, h), 'the frame lives while there is a handle')
                    if n == 'l':
                        ex.prove(s, susp(s, h) == 'suspended' and s.ghost['locals'] == 0, 'creating a lazy coroutine does not run its body'); ex.prove(s, zi(cnt) == 1, 'a new coroutine has one reference, for its handle')
                        M.bodyhook = None; M.share(ex, s, h); lazystart(ex, M, s, o, h, variant, False); lazystart(ex, M, s, o, h, variant, True); M.bodyhook = nobody
                    elif s.ghost['awaiters'] == 1:
                        ex.prove(s, susp(s, h) == 'suspended', 'the coroutine is suspended in its await'); ex.prove(s, zi(cnt) == 2, 'a running coroutine has one reference for its handle and one for the body')
                        body(ex, M, s, o, h, variant, None, 0)
                    else:
                        ex.prove(s, susp(s, h) == 'done' and s.ghost['locals'] == 0, 'an eager coroutine runs at once, up to its first suspension'); ex.prove(s, zi(cnt) == 1, 'a coroutine that finished has one reference, for its handle')
                        M.share(ex, s, h)
                        for s2, k2, _ in ex.live(ex.exec_fn(s, M.F('dtor'), [Ptr(o, 0)])): M.settle(ex, s2, h, [], 'destroying the handle of a finished coroutine')
            V.check('%s, %s' % (what, dict(body='default policy', bodyi='exceptions ignored', bodyt='terminate policy', bodyh='exception handler')[variant]), mod, life)
        def ops(ex, M=M, n=n):
            M.learn(ex); size = const(ex, mod, n + '_size')
            frames = ('S0', 'S1', 'F') if n == 'l' else ('S1', 'F')
            for fr in frames:
                for op in ('move', 'copy', 'dtor') + (('start',) if n == 'l' else ()):
                    C, st = M.start(ex); ex.trial += 1; st, o, h = mk(ex, M, st, fr); ex.trial -= 1; x = ex.new_region(st, 'x', size); a = [Ptr(x, 0), Ptr(o, 0)] if op in ('move', 'copy') else [Ptr(o, 0)]
                    for s, k, _ in ex.live(ex.exec_fn(st, M.F(op), a), ('ret', 'stop')):
                        if k == 'stop' and op == 'start' and s.ghost['exc'] is not None: continue
                        ex.prove(s, k == 'ret', op + ' does not throw')
                        if op == 'dtor': s.mem[o.id].alive = False
                        M.settle(ex, s, h, [o, x] if op in ('move', 'copy') else [o], op)
                        if op == 'copy': ex.prove(s, And(ex.eq(held(ex, s, x), h), ex.eq(held(ex, s, o), h)), 'a copy refers to the same coroutine')
                        if op == 'move': ex.prove(s, And(ex.eq(held(ex, s, x), h), ex.eq(held(ex, s, o), 0)), 'moving transfers the reference')
                        if op == 'start' and fr != 'S0': ex.prove(s, not G(s, h.r.id)['ran'], 'a coroutine that was started before is not started again')
                # assignment between handles of different coroutines, of the same, empty ones and to itself
                for op in ('masgn', 'casgn'):
                    for kind in ('two', 'same', 'self', 'src0', 'dst0'):
                        C, st = M.start(ex); ex.trial += 1; st, o, h = mk(ex, M, st, fr); ex.trial -= 1
                        x = o; hx = h; objs = [o]
                        if kind == 'two': ex.trial += 1; st, x, hx = mk(ex, M, st, fr); ex.trial -= 1; objs = [o, x]
                        if kind == 'same': x = ex.new_region(st, 'x', size); st = ex.exec_fn(st, M.F('copy'), [Ptr(x, 0), Ptr(o, 0)])[0][0]; objs = [o, x]; hx = h
                        if kind in ('src0', 'dst0'):
                            x = ex.new_region(st, 'x', size); ex.put(st, x, 0, 8, 0); objs = [o, x]; hx = 0
                        src, dst = (x, o) if kind == 'src0' else (o, x)
                        hs = 0 if kind == 'src0' else h; hd = h if kind == 'src0' else hx
                        # the coroutine that loses a handle may own the source of the assignment
                        if kind == 'two' and op == 'casgn': M.owned = (hd.r.id, src.id)
                        for s, k, _ in ex.live(ex.exec_fn(st, M.F(op), [Ptr(dst, 0), Ptr(src, 0)])):
                            ex.prove(s, k == 'ret', 'assignment does not throw')
                            M.settle(ex, s, h, objs, op)
                            if isinstance(hx, Ptr) and hx.r is not h.r: M.settle(ex, s, hx, objs, op)
                            ex.prove(s, ex.eq(held(ex, s, dst), hs), 'the target of an assignment refers to the coroutine of the source')
                            if op == 'casgn': ex.prove(s, ex.eq(held(ex, s, src), hs), 'copying leaves the source as it was')
                        M.owned = None
        V.check('%s handles' % what, mod, ops)
    V.assume_note('the body awaits, returns and throws arbitrarily; whatever it awaits resumes it once', 'the program holds at most 2^60 handles; allocation of the frame succeeds')
def same_frame(ex, a, b, h, M):
    ca, cb = a.mem[h.r.id].cells, b.mem[h.r.id].cells
    return set(ca) == set(cb) and all(ca[o][0] == cb[o][0] and (o in (M.co, M.fl) or ex.same_sem(b, ca[o][1], cb[o][1])) for o in ca)
