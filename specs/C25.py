"""thread_pool: per thread a monitor over its queue, and the protocol by which a pool grows and shrinks.
Rely/guarantee over two words: the valid size (which threads may be pushed to and stolen from) is lowered only with the thread
vector locked exclusively, the target size (which threads stay) never falls below it and is only raised when every thread beyond it
is gone.  A thread that saw the target at or below its index therefore owns its queue alone, and leaves only when it found it empty"""
from .lib import *
PRE = ('preA', 'preh', 'pret')
class Valid:
    """threads below the valid size exist and do not leave"""
    def __init__(self, M): self.M = M
    def observe(self, ex, st, kind):
        g = st.ghost
        if self.M.resizing(st): st.setg('zero', Or(g['zero'], zi(g['valid']) == 0)); return [(st, zi(g['valid']))]
        n = fresh_int('valid'); st.assume(And(n >= 0, n < 2 ** 40))
        if self.M.sh(ex, st): st.assume(n >= g['vb']); st.setg('vb', n)
        st.setg('zero', Or(g['zero'], n == 0)); return [(st, n)]
    def commit(self, ex, st, old, new, order, loc, kind):
        g = st.ghost
        ex.prove(st, self.M.resizing(st), 'the number of usable threads changes only by resize, one resize at a time', loc)
        ex.prove(st, Or(zi(new) >= g['valid'], zi(g['sh']) == 2), 'threads are taken out of use only with the threads locked exclusively (nobody is pushing to or stealing from them)', loc)
        ex.prove(st, zi(new) <= g['target'], 'only threads that stay are in use', loc)
        ex.prove(st, zi(new) <= g['filled'], 'only threads that exist are in use', loc)
        st.setg('valid', zi(new))
    def private(self, ex, st): return self.M.op == 'ctor' and ex.valid(st, zi(st.ghost['rs']) == 0)
    def plain(self, ex, st, v, loc): pass
class Target:
    """threads at or beyond the target size leave"""
    def __init__(self, M): self.M = M
    def observe(self, ex, st, kind):
        g = st.ghost
        if self.M.resizing(st): return [(st, zi(g['target']))]
        n = fresh_int('target'); st.assume(And(n >= 0, n < 2 ** 40))
        if self.M.op == 'run': st.assume(Implies(zb(g['retired']), n <= self.M.idx0)); st.setg('retired', Or(g['retired'], n <= self.M.idx0))
        return [(st, n)]
    def commit(self, ex, st, old, new, order, loc, kind):
        g = st.ghost
        ex.prove(st, self.M.resizing(st), 'the number of threads changes only by resize, one resize at a time', loc)
        ex.prove(st, zi(new) >= g['valid'], 'a thread is asked to leave only after it was taken out of use', loc)
        ex.prove(st, Or(zi(new) <= g['target'], zi(g['vsz']) <= g['target']), 'a thread that was asked to leave is not asked to stay again', loc)
        st.setg('target', zi(new))
    private = Valid.private
    def plain(self, ex, st, v, loc): pass
class Elems:
    """the elements of the vector of threads: element i at EL + 8*i"""
    def __init__(self, M): self.M = M; self.EL = z3.Int('threads_data')
    def owns(self, ex, st, t): return And(t >= self.EL, t < self.EL + 2 ** 44)
    def ix(self, ex, t): return ex.simp((t - self.EL) / 8)
    def check(self, ex, st, i, loc):
        g = st.ghost
        if self.M.resizing(st): ex.prove(st, And(i >= 0, i < g['vsz']), 'only elements of the thread vector are accessed', loc)
        else: ex.prove(st, And(zi(g['sh']) >= 1, i >= 0, i < g['vb']), 'threads are only accessed with the threads locked and below the valid size read since', loc)
    def load(self, ex, st, t, off, ty, loc):
        if off != 0: raise ToolLimit('element of the thread vector')
        i = self.ix(ex, t); self.check(ex, st, i, loc)
        for j, rid in st.ghost['memo']:
            if ex.valid(st, zi(i) == zi(j)): return Ptr(self.M.regs[rid], 0) if rid else 0
            if ex.sat(st, zi(i) == zi(j)): raise ToolLimit('element of the thread vector not decided')
        return Ptr(self.M.thread(ex, st, i), 0)
    def store(self, ex, st, t, off, v, ty, loc):
        g = st.ghost; i = self.ix(ex, t); self.check(ex, st, i, loc)
        ex.prove(st, self.M.resizing(st), 'only resize changes the threads', loc)
        if not isinstance(v, Ptr) or v.r.id not in g['spawned']: raise ToolLimit('element of the thread vector := %r' % (v,))
        ex.prove(st, Or(i >= g['valid'], zi(g['sh']) == 2), 'an element that others may read is only written with the threads locked exclusively', loc)
        ex.prove(st, i == g['filled'], 'every thread is stored once, in the next free place', loc)
        ex.prove(st, zi(self.M.ix[v.r.id]) == i, 'a thread is stored at its own index', loc)
        for f in ('A', 'h', 't', 'slots'): st.ghost.pop(self.M.sq.nm((v.r.id, self.M.L['q']), f), None)
        st.setg('filled', ex.simp(zi(g['filled']) + 1)); st.ghost['heap'] = tuple(x for x in g.get('heap', ()) if x != v.r.id); st.ghost['memo'] = tuple(x for x in g['memo'] if not ex.valid(st, zi(x[0]) == i)) + ((i, v.r.id),)
class TP:
    def __init__(self, V, mod): self.V = V; self.mod = mod; self.F = lambda n: mod.funcs[n]; self.learnt = None
    # ---- contracts
    def setup(self, ex):
        ex.contracts = []
        self.fn = Opaque(ex, 'std::function<void ()>', empty=0, moved=0, call=self.call); self.fn.ondrop = self.drop; self.fn.ondtor = self.drop
        self.sq = Seqs(ex, self.fn, classes=r'std::deque<', throws=False, elemsize=32)
        self.sq.guard = self.guardq; self.sq.hooks['empty'] = self.qempty
        none = lambda *a: None
        C = lambda rx, f: (re.compile(rx), f)
        fresh = lambda ex_, st, F, a, loc: ex_.fresh_of(F.ty.ret, 'x') if F.ty.ret.kind != 'void' else None
        ex.contracts = [
            C(r'^std::__cxx11::to_string|^std::(__cxx11::)?(basic_)?string.*::(~)?(basic_)?string\(|^std::__cxx11::basic_string<.*>::|basic_string<.*> std::operator\+', fresh),
            C(r'^pthread_(setname_np|self)$', fresh), C(r'^std::linear_congruential_engine<.*>::operator\(\)', self.rand),
            C(r'^std::chrono::_V2::steady_clock::now\(\)$', lambda ex_, s, F, a, loc: fresh_int('now')),
            C(r'^std::cv_status std::condition_variable::(__wait_until_impl|wait_until|wait_for)<', self.wait),
            C(r'^std::(shared_mutex|__shared_mutex_pthread)::(lock|unlock|lock_shared|unlock_shared|try_lock|try_lock_shared)\(\)$', self.rw),
            C(r'^std::thread::_M_start_thread\(', self.spawn), C(r'^std::thread::join\(\)$', self.join), C(r'^std::thread::detach\(\)$', lambda ex_, st, F, a, loc: ex_.fail(st, 'threads are joined', loc)),
            C(r'^(?:.* )?std::vector<std::unique_ptr<', self.vec)] + ex.contracts
        ex.hooks['notify_all'] = ex.hooks['notify_one'] = self.notify
        ex.hooks['cv_wait'] = lambda ex_, st, cv, lk, loc: ex_.fail(st, 'a thread waits for a bounded time only (wakeups are sent without its lock)', loc)
        Locks(ex, self.acq, self.rel); l0, t0 = ex.hooks['lock'], ex.hooks['try_lock']
        ex.hooks['lock'] = lambda ex_, st, p, loc: (self.blocking(ex_, st, keyof(ex_, st, p), loc), l0(ex_, st, p, loc))[1]
        ex.loop_cands = [self.cands]
        ex.ghost_havoc = {'memo': lambda ex_, st: self.memo0(), 'spawned': lambda ex_, st: ()}
    def memo0(self): return ((self.idx0, self.T.id),) if self.op == 'run' else ()
    def rand(self, ex, st, F, a, loc):
        n = fresh_int('rand'); st.assume(And(n >= 0, n < 2 ** 40)); return n
    def resizing(self, st): return self.L and (self.P.id, self.L['rm']) in st.ghost['held']
    def sh(self, ex, st): return ex.valid(st, zi(st.ghost['sh']) >= 1)
    def user(self, ex, st, what, loc):
        """user code runs here: it may push to this pool"""
        if self.L is None: return
        ex.prove(st, And(not st.ghost['held'], zi(st.ghost['sh']) == 0), '%s without a lock held' % what, loc)
        if self.op == 'run':
            for (n, off), v in self.L['tls'].items():
                cur = ex.load(st, Ptr(ex.global_region(st, n), off), ex.mk_ptr(), loc)
                ex.prove(st, ex.eq(cur, v), '%s while the thread is known as a thread of its pool (tasks it pushes are executed by itself)' % what, loc)
        st.setg('calls', True); st.setg('qe', False); st.setg('idle', z3.IntVal(0))
    def drop(self, ex, st, t, loc):
        t = ex.simp(zi(t)) if isz(t) else zi(t)
        if ex.valid(st, Or(t == 0, t == DEAD)): return
        self.user(ex, st, 'a callback is destroyed', loc)
    def call(self, ex, st, t, a, loc):
        if self.L is None:
            self.snap = st.clone(); return []
        ex.prove(st, self.op == 'run', 'callbacks are invoked only by the threads of the pool', loc)
        ex.prove(st, And(zi(st.ghost['pend']) != 0, t == st.ghost['pend']), 'each callback taken is invoked exactly once', loc)
        self.user(ex, st, 'callbacks run', loc)
        cur = ex.exec_fn(st, self.F('tp_current'), [])[0]; st = cur[0]
        ex.prove(st, ex.eq(cur[2], self.base), 'while a callback runs the current dispatcher is the pool', loc)
        st.setg('pend', z3.IntVal(0)); return [(st, 'ret', None)]
    # ---- locks
    def okx(self, ex, st, rid):
        if rid == self.T.id and self.own: return True
        if self.resizing(st): return True
        if rid not in self.ix: return False
        return And(zi(st.ghost['sh']) >= 1, zi(self.ix[rid]) < st.ghost['vb'])
    def guardx(self, ex, st, p, size, write, loc):
        if any(k[0] == p.r.id for k in st.ghost['held']): return
        ex.prove(st, self.okx(ex, st, p.r.id), 'a thread is only used while it cannot go away', loc)
    def guardq(self, ex, st, k, write, loc):
        if self.L is None or k[0] not in self.ix: return
        if k[0] in st.ghost['spawned']: raise ToolLimit('queue of a new thread')
        ex.prove(st, (k[0], self.L['m']) in st.ghost['held'], 'queues are only accessed with their lock held', loc)
    def blocking(self, ex, st, k, loc):
        if self.L is None: return
        if k == (self.P.id, self.L['rm']): ex.prove(st, And(not st.ghost['held'], zi(st.ghost['sh']) == 0), 'no deadlock: resize is entered without a lock held', loc)
        else: ex.prove(st, not [x for x in st.ghost['held'] if x != (self.P.id, self.L['rm'])], 'no deadlock: a queue is not waited for with another one locked', loc)
    def rw(self, ex, st, F, a, loc):
        m = method(F.dem)[1]; g = st.ghost
        if self.L is None: return (1 if m.startswith('try') else None)
        k = keyof(ex, st, a[0], loc); ex.prove(st, k == (self.P.id, self.L['tm']), 'the lock of the thread vector is the one used', loc)
        if m == 'unlock': ex.prove(st, zi(g['sh']) == 2, 'only the owner unlocks the threads', loc); st.setg('sh', z3.IntVal(0)); st.setg('vb', z3.IntVal(0)); return None
        if m == 'unlock_shared': ex.prove(st, zi(g['sh']) == 1, 'only an owner unlocks the threads', loc); st.setg('sh', z3.IntVal(0)); st.setg('vb', z3.IntVal(0)); return None
        ex.prove(st, zi(g['sh']) == 0, 'the threads are not locked twice by the same thread', loc)
        if not m.startswith('try'): ex.prove(st, not [x for x in g['held'] if x[0] != self.P.id], 'no deadlock: the threads are not waited for with a queue locked', loc)
        s2 = st.clone(); st.setg('sh', z3.IntVal(1 if m.endswith('shared') else 2)); st.setg('vb', z3.IntVal(0))
        if m.startswith('try'): return [(st, 'ret', True), (s2, 'ret', False)]
        return None
    def acq(self, ex, st, k, loc):
        if self.L is None: self.learnlock(ex, st, k); return
        g = st.ghost
        if k == (self.P.id, self.L['rm']):
            n = z3.IntVal(0) if self.op == 'ctor' else self.N0
            if self.op == 'ctor': ex.prove(st, And(zi(ex.peek(st, self.P, self.L['va'])) == 0, zi(ex.peek(st, self.P, self.L['ta'])) == 0, zi(g['vsz']) == 0), 'a new pool has no threads yet', loc)
            for x in ('valid', 'target', 'vsz', 'filled'): st.setg(x, n)
            st.setg('joined', fresh_bool('joined')); st.assume(Not(st.ghost['joined'])); st.setg('rs', g['rs'] + 1); return
        rid = k[0]
        if rid not in self.ix or k[1] != self.L['m']: raise ToolLimit('unknown mutex')
        ex.prove(st, self.okx(ex, st, rid), 'a queue is only locked while its thread cannot leave before it saw what is queued', loc)
        A, h, t = self.sq.init(st, (rid, self.L['q']), empty=False, name='q'); ex.qinst[A.decl().name()] = lambda i: Implies(And(i >= h, i < t), z3.Select(A, i) > 0)
        if self.op == 'run' and rid == self.T.id:
            st.assume(Implies(And(zb(g['stable']), Not(zb(g['calls']))), t - h == g['lastn']))
            st.setg('stable', Or(g['stable'], g['retired'])); st.setg('calls', False)
            st.setg('idle', ex.simp(z3.If(And(zb(g['stable']), h == t), zi(g['idle']) + 1, 0)))
            ex.prove(st, zi(g['idle']) <= 3, 'a thread that was asked to leave and has nothing to do leaves', loc)
        for n, x in zip(PRE, (A, h, t)): st.setg(n, x)
    def rel(self, ex, st, k, loc):
        if self.L is None: return
        g = st.ghost
        if k == (self.P.id, self.L['rm']):
            ex.prove(st, And(zi(g['target']) == g['valid'], zi(g['vsz']) == g['valid'], zi(g['filled']) == g['valid']), 'after a resize exactly the threads in use exist', loc)
            ex.prove(st, zi(g['sh']) == 0, 'the thread vector is unlocked', loc); return
        rid = k[0]; A, h, t = self.sq.flush(st, (rid, self.L['q'])); A0, h0, t0 = [g[n] for n in PRE]; i = fresh_int('sk')
        keep = lambda n, o: Implies(And(i >= 0, i < n), z3.Select(A, h + i) == z3.Select(A0, h0 + o + i))
        n0, n = t0 - h0, t - h
        if ex.valid(st, And(n == n0, keep(n0, 0))): pass
        elif ex.valid(st, n == n0 - 1) and self.op == 'run':
            front = ex.valid(st, keep(n0 - 1, 1))
            if not front: ex.prove(st, keep(n0 - 1, 0), 'one callback is taken, the others stay queued', loc)
            ex.prove(st, zi(g['pend']) == 0, 'the callback taken before was called first', loc)
            st.setg('pend', z3.Select(A0, h0) if front else z3.Select(A0, t0 - 1))
        else:
            ex.prove(st, self.op == 'push', 'only push adds callbacks and only the threads take them', loc)
            ex.prove(st, And(n == n0 + 1, keep(n0, 0), z3.Select(A, t - 1) == self.tok), 'push appends exactly the given callback', loc)
            st.setg('eff', g['eff'] + 1)
        for f in ('A', 'h', 't', 'slots'): st.ghost.pop(self.sq.nm((rid, self.L['q']), f), None)
        if self.op == 'run' and rid == self.T.id: st.setg('lastn', ex.simp(n)); st.setg('qe', ex.simp(And(zb(g['stable']), n == 0)))
    def notify(self, ex, st, p, loc):
        if self.L is None: return None
        k = keyof(ex, st, p, loc)
        if k[0] in self.ix: self.guardx(ex, st, Ptr(self.regs[k[0]], k[1]), 8, False, loc)
        return None
    def wait(self, ex, st, F, a, loc):
        m = ex.load(st, a[1], ex.mk_ptr(), loc); k = keyof(ex, st, m)
        ex.prove(st, k in st.ghost['held'], 'waiting happens with the lock held', loc)
        ex.prove(st, And(len(st.ghost['held']) == 1, zi(st.ghost['sh']) == 0), 'no other lock is held while waiting', loc)
        self.rel(ex, st, k, loc); self.acq(ex, st, k, loc); return ex.fresh_of(F.ty.ret, 'timeout')
    # ---- threads
    def spawn(self, ex, st, F, a, loc):
        p = a[1]; s = ex.load(st, p, ex.mk_ptr(), loc); ex.store(st, p, 0, ex.mk_ptr(), loc)
        if not isinstance(s, Ptr): raise ToolLimit('thread state %r' % (s,))
        k = keyof(ex, st, a[0], loc); t = fresh_int('tid'); st.assume(And(t > 0, t < 2 ** 47)); 
        st.ghost['heap'] = tuple(x for x in (st.ghost.get('heap') or ()) if x != s.r.id)
        if self.L is None: st.ghost['lsp'] = st.ghost['lsp'] + ((s, k),); ex.store(st, a[0], t, ex.mk_int(64), loc); return None
        L = self.L; v = st.mem[s.r.id].cells; g = st.ghost
        ex.prove(st, self.resizing(st), 'threads are started by resize', loc)
        ex.prove(st, k[1] == L['tid'] and all(same(x[1], L['S'].get(o)) if not (isinstance(x[1], Ptr) and x[1].r.id == k[0]) else isinstance(L['S'].get(o), Ptr) and L['S'][o].r.id == self.T.id and x[1].off == L['S'][o].off for o, x in v.items()), 'the new thread runs the thread body on its own state', loc)
        c = st.mem[k[0]].cells; ix = c.get(L['ix'], (8, None))[1]
        ex.prove(st, ix is not None and ex.eq(c.get(L['pool'], (8, 0))[1], Ptr(self.P, 0)), 'a thread is started after its pool and index are known', loc)
        ex.prove(st, self.sq.has(st, (k[0], L['q'])), 'a thread is started after its queue exists', loc)
        ix = ex.to_int(ix)
        ex.prove(st, And(ix >= 0, ix < zi(g['target'])), 'a thread is started only when it is to stay (it would leave at once)', loc)
        self.ix[k[0]] = ix; self.regs[k[0]] = next(r for r in ex.regions if r.id == k[0]) if hasattr(ex, 'regions') else a[0].r
        st.ghost['spawned'] = g['spawned'] + (k[0],); ex.store(st, a[0], t, ex.mk_int(64), loc); return None
    def join(self, ex, st, F, a, loc):
        if self.L is None: raise ToolLimit('join while learning')
        k = keyof(ex, st, a[0], loc); g = st.ghost
        ex.prove(st, k[1] == self.L['tid'] and k[0] in self.ix, 'a thread of the pool is joined', loc); i = zi(self.ix[k[0]])
        ex.prove(st, self.resizing(st), 'threads are joined by resize', loc)
        ex.prove(st, ex.load(st, a[0], ex.mk_int(64), loc) != 0, 'a thread is joined once', loc)
        ex.prove(st, zi(g['target']) <= i, 'a thread is joined only after it was asked to leave (else it never does)', loc)
        ex.prove(st, zi(g['sh']) == 0, 'no deadlock: the threads are not locked while one is joined', loc)
        ex.prove(st, len(g['held']) == 1, 'no deadlock: no queue is locked while a thread is joined', loc)
        ex.store(st, a[0], 0, ex.mk_int(64), loc)
        st.setg('joined', Or(g['joined'], i == self.w)); 
        return None
    def qempty(self, ex, st, k, a, ps, loc):
        # a thread that was joined left its queue empty
        if self.L is not None and self.resizing(st) and k[0] in self.ix and not self.sq.has(st, k) and ex.valid(st, zi(ex.peek(st, self.regs[k[0]], self.L['tid'])) == 0): return True
        return NotImplemented
    def thread(self, ex, st, i):
        """an existing thread: the one at index i"""
        r = ex.new_region(st, 'thread', self.L['size'], 'heap'); ex.addr(r); self.ix[r.id] = i; self.regs[r.id] = r; st.mem[r.id].alive = True
        ex.put(st, r, self.L['pool'], 8, Ptr(self.P, 0)); ex.put(st, r, self.L['ix'], 8, i)
        t = fresh_int('tid'); st.assume(And(t >= 0, t < 2 ** 47))
        st.assume(Implies(i == self.w, (t == 0) == zb(st.ghost['joined'])) if self.op in ('resize', 'ctor', 'dtor') else t > 0)
        ex.put(st, r, self.L['tid'], 8, t)
        st.guards[r.id] = self.guardx; st.ghost['memo'] = st.ghost['memo'] + ((i, r.id),); return r
    # ---- the vector of threads
    def vec(self, ex, st, F, a, loc):
        c, m, ps = method(F.dem)
        if c is None or re.search(r'>::', c) or not c.startswith('std::vector<std::unique_ptr<'): return NotImplemented
        m0 = re.sub(r'<.*', '', m) if not m.startswith('operator') else m; g = st.ghost
        if self.L is None:
            # concrete while learning
            if m0 == 'vector': st.ghost['lv'] = (); self.vk = keyof(ex, st, a[0]); return None
            if m0 == 'resize': 
                while len(st.ghost['lv']) < a[1]: st.ghost['lv'] += (ex.new_region(st, 'el', 8).id,)
                for rid in st.ghost['lv']: st.mem[rid].cells.setdefault(0, (8, 0))
                return None
            if m0 == 'size': return len(st.ghost['lv'])
            if m0 in ('operator[]', 'at'): return Ptr(self.lreg(st.ghost['lv'][a[1]]), 0)
            if m0.startswith('~'): return None
            raise ToolLimit('no contract for ' + F.dem[:160])
        n = g['vsz']
        if m0 == 'vector':
            if ps and not ps.startswith('std::allocator'): raise ToolLimit('no contract for ' + F.dem[:160])
            st.setg('vsz', z3.IntVal(0)); st.setg('filled', z3.IntVal(0)); return None
        if m0.startswith('~'):
            ex.prove(st, self.op == 'dtor' and n == 0, 'a pool goes away only after all its threads did', loc); return None
        if m0 in ('size', 'empty'):
            ex.prove(st, Or(self.resizing(st), zi(g['sh']) >= 1), 'the thread vector is only read with a lock held', loc)
            if not self.resizing(st): n = fresh_int('vsz'); st.assume(And(n >= g['vb'], n < 2 ** 40))
            return ex.simp(n) if m0 == 'size' else ex.simp(n == 0)
        if m0 in ('operator[]', 'at', 'front', 'back'):
            i = zi(a[1]) if len(a) > 1 else z3.IntVal(0) if m0 == 'front' else n - 1
            if m0 == 'back' and not self.resizing(st): raise ToolLimit('last thread')
            self.el.check(ex, st, i, loc); outs = []; p = SPtr(ex.simp(self.el.EL + 8 * i)); todo = [st]
            for j, rid in g['memo']:
                nxt = []
                for s in todo:
                    if ex.valid(s, i == zi(j)): outs.append((s, 'ret', p)); continue
                    if ex.sat(s, i == zi(j)): s2 = s.clone(); s2.assume(i == zi(j)); outs.append((s2, 'ret', p)); s.assume(i != zi(j))
                    nxt.append(s)
                todo = nxt
            for s in todo:
                if self.resizing(s) and not ex.valid(s, i < zi(s.ghost['filled'])):
                    if ex.sat(s, i < zi(s.ghost['filled'])): s2 = s.clone(); s2.assume(i < zi(s.ghost['filled'])); self.thread(ex, s2, i); outs.append((s2, 'ret', p)); s.assume(i >= zi(s.ghost['filled']))
                    s.ghost['memo'] = s.ghost['memo'] + ((i, 0),)
                elif self.resizing(s) and not ex.valid(s, i == self.w) and ex.sat(s, i == self.w):
                    s2 = s.clone(); s2.assume(i == self.w); s.assume(i != self.w); self.thread(ex, s2, i); self.thread(ex, s, i); outs.append((s2, 'ret', p))
                else: self.thread(ex, s, i)
                outs.append((s, 'ret', p))
            return outs
        if m0 in ('resize', 'clear', 'pop_back', 'reserve'):
            k = zi(a[1]) if m0 in ('resize', 'reserve') else z3.IntVal(0) if m0 == 'clear' else n - 1
            ex.prove(st, self.resizing(st), 'only resize changes the thread vector', loc)
            ex.prove(st, zi(g['sh']) == 2, 'the thread vector changes only with the threads locked exclusively', loc)
            if m0 == 'reserve': return None
            ex.prove(st, k >= 0, 'the size is not negative', loc)
            ex.prove(st, k >= g['valid'], 'a thread in use is not destroyed', loc)
            ex.prove(st, Implies(And(k <= self.w, self.w < g['filled']), zb(g['joined'])), 'every thread is joined before it is destroyed (it executed what was queued)', loc)
            st.setg('vsz', ex.simp(k)); st.setg('filled', ex.simp(z3.If(k < g['filled'], k, zi(g['filled'])))); st.ghost['memo'] = self.memo0(); return None
        raise ToolLimit('no contract for ' + F.dem[:160])
    # ---- learning the representation: a pool of two threads, and a thread that found a callback
    def lreg(self, rid): return self.lregs[rid]
    def learnlock(self, ex, st, k):
        if self.lq is not None and k[0] == self.lq:
            self.lm = k[1]; key = (k[0], self.lqo)
            if not st.ghost.get('lpush'): self.sq.set(st, key, z3.Store(z3.K(z3.IntSort(), z3.IntVal(0)), 0, 7), z3.IntVal(0), z3.IntVal(1)); st.ghost['lpush'] = True
        elif self.lq is None: self.lrm = k
    def learn(self, ex):
        self.L = None; self.setup(ex); self.snap = None; self.spawns = []; self.lq = None; self.lrm = self.lm = None; self.ltm = []; self.lregs = {}; self.op = 'learn'
        self.T = None; self.ix = {}; self.regs = {}; self.own = False; un = ex.unroll; ex.unroll = 8; nr = ex.new_region
        def newr(st, *a, **k):
            r = nr(st, *a, **k); self.lregs[r.id] = r; return r
        ex.new_region = newr; ex.trial += 1
        rw0 = self.rw
        try:
            st = State(); st.ghost.update(held=(), lv=(), heap=(), lsp=()); self.P = P = ex.new_region(st, 'pool', const(ex, self.mod, 'tp_size')); ex.addr(P)
            for i, (rx, h) in enumerate(ex.contracts):
                if h == self.rw: ex.contracts[i] = (rx, lambda ex_, s, F, a, loc: (self.ltm.append(keyof(ex_, s, a[0])), 1 if 'try' in F.dem else None)[1])
            outs = [o for o in ex.exec_fn(st, self.F('tp_ctor'), [Ptr(P, 0), 2]) if o[1] == 'ret']
            if len(outs) != 1 or len(outs[0][0].ghost['lsp']) != 2: raise ToolLimit('construction of a pool of two threads not understood')
            st = outs[0][0]; self.spawns = st.ghost['lsp']
            (S0, k0), (S1, k1) = self.spawns; T0, T1 = self.lregs[k0[0]], self.lregs[k1[0]]
            c0, c1 = st.mem[T0.id].cells, st.mem[T1.id].cells
            ixs = [o for o in c0 if o in c1 and same(c0[o][1], 0) and same(c1[o][1], 1)]; pool = [o for o in c0 if isinstance(c0[o][1], Ptr) and c0[o][1].r.id == P.id]
            qs = [int(k.split(':')[2]) for k in st.ghost if k.startswith('seq:%d:' % T0.id) and k.endswith(':h')]
            pc = st.mem[P.id].cells; sz = [o for o, (z, v) in pc.items() if z == 8 and same(v, 2)]
            if len(ixs) != 1 or len(pool) != 1 or len(qs) != 1 or len(sz) != 2 or k0[1] != k1[1] or not self.ltm: raise ToolLimit('fields of thread_pool not identified')
            # which of the two is reported by size()
            s2 = st.clone(); ex.put(s2, P, sz[0], 8, 5); r = ex.exec_fn(s2, self.F('tp_get'), [Ptr(P, 0)])[0][2]; va, ta = (sz[0], sz[1]) if same(r, 5) or (isz(r) and ex.valid(s2, r == 5)) else (sz[1], sz[0])
            st0 = st.clone(); self.lq = T0.id; self.lqo = qs[0]
            tls = [n for n in self.mod.globals if self.mod.is_tls(n)]
            run = self.body(ex, st, S0)
            ex.exec_fn(st, run, [S0])
            if self.snap is None or self.lm is None: raise ToolLimit('a thread does not execute its queue')
            T = {}
            for n in tls:
                r = ex.global_region(self.snap, n)
                new = self.snap.mem[r.id].cells if r.id in self.snap.mem else {}
                for o, (z, v) in new.items():
                    if isinstance(v, Ptr) and v.r.id in (T0.id, P.id): T[(n, o)] = v
            self.L = dict(rm=self.lrm[1], tm=self.ltm[0][1], m=self.lm, q=qs[0], ix=ixs[0], pool=pool[0], tid=k0[1], va=va, ta=ta, size=T0.size, S={o: x[1] for o, x in st0.mem[S0.r.id].cells.items()}, tls=T, run=run)
            if self.lrm[0] != P.id: raise ToolLimit('resize mutex not identified')
            for k in [k for k in st0.ghost if k.startswith('seq:')]: del st0.ghost[k]
            self.base_st = st0; self.T = T0; self.T1 = T1; self.S0 = S0
        finally: ex.trial -= 1; ex.unroll = un; del ex.new_region
    def body(self, ex, st, S):
        vt = ex.load(st, Ptr(S.r, 0), ex.mk_ptr()); f = ex.load(st, Ptr(vt.r, vt.off + 16), ex.mk_ptr())
        return self.mod.funcs[f.name] if hasattr(f, 'name') else f.F
    def pre(self, ex, op, own):
        self.learn(ex); L = self.L; self.op = op; self.own = own; self.setup(ex)
        st = self.base_st.clone(); st.events = []; P, T = self.P, self.T
        for n in ('lv', 'lpush', 'lsp'): st.ghost.pop(n, None)
        st.shared[(P.id, L['va'])] = Valid(self); st.shared[(P.id, L['ta'])] = Target(self)
        self.idx0 = z3.Int('index'); self.w = z3.Int('w'); self.N0 = z3.Int('size0')
        st.assume(And(self.idx0 >= 0, self.idx0 < 2 ** 40, self.w >= 0, self.N0 >= 0, self.N0 < 2 ** 40))
        ex.put(st, T, L['ix'], 8, self.idx0); self.ix = {}; self.regs = {}
        if own: self.ix[T.id] = self.idx0; self.regs[T.id] = T
        self.el = Elems(self); st.fams = st.fams + [self.el]; st.assume(And(self.el.EL >= 2 ** 45, self.el.EL < 2 ** 46))
        Z = z3.IntVal(0)
        st.ghost.update(held=(), sh=Z, vb=Z, zero=False, retired=False, stable=False, calls=True, qe=False, lastn=Z, idle=Z, pend=Z, eff=Z, rs=Z, memo=self.memo0(), spawned=(), valid=Z, target=Z, vsz=Z, filled=Z, joined=False, heap=())
        for n in PRE: st.ghost[n] = None
        for (nm, off), v in L['tls'].items():
            if v.r.id == T.id: ex.put(st, ex.global_region(st, nm), off, 8, 0)
        self.base = ex.exec_fn(st, self.F('tp_base'), [Ptr(P, 0)])[0][2]
        return st
    def cands(self, ex, st, env, L):
        g = st.ghost; out = [('no callback in hand', zi(g['pend']) == 0), ('the thread vector is unlocked', zi(g['sh']) == 0), ('no size read yet', zi(g['vb']) == 0)]
        if self.op == 'run':
            out += [('asked to leave', zb(g['retired'])), ('owns its queue', zb(g['stable'])), ('its queue was found empty', zb(g['qe'])), ('no user code since', Not(zb(g['calls']))), ('not idle', zi(g['idle']) == 0), ('owns its queue only when asked to leave', Implies(zb(g['stable']), zb(g['retired']))), ('idle only when it owns its queue', Or(zb(g['stable']), zi(g['idle']) == 0)), ('idle once', zi(g['idle']) <= 1)]
            kk = (self.T.id, self.L['m'])
            if kk in g['held'] and self.sq.has(st, (self.T.id, self.L['q'])):
                A, h, t = self.sq.raw(st, (self.T.id, self.L['q'])); A0, h0, t0 = [g[n] for n in PRE]
                if A0 is not None:
                    if z3.is_const(A) and A.decl().name() not in ex.qinst: ex.qinst[A.decl().name()] = lambda i: Implies(And(A == A0, i >= h0, i < t0), z3.Select(A, i) > 0)
                    out += [('nothing was queued or taken since the lock was acquired', And(A == A0, zi(h) == zi(h0), zi(t) == zi(t0)))]
                out.append(('the sequence is well formed', zi(h) <= zi(t)))
                if A0 is not None and z3.is_const(A0) and A0.decl().name() not in ex.qinst:
                    ex.qinst[A0.decl().name()] = lambda i: Implies(And(i >= h0, i < t0), z3.Select(A0, i) > 0)
        for k, nm, v in L.slots:
            if isinstance(v, int) or (isz(v) and z3.is_int(v)):
                out += [('within the threads in use [%s]' % nm, And(zi(v) >= 0, zi(v) <= zi(g['vb']))), ('within the thread vector [%s]' % nm, And(zi(v) >= 0, zi(v) <= zi(g['vsz'])))]
        if self.op in ('resize', 'ctor', 'dtor'):
            for k, nm, v in L.slots:
                if not (isinstance(v, int) or (isz(v) and z3.is_int(v))): continue
                v = zi(v)
                out += [(x + ' [%s]' % nm, c) for x, c in (('all threads before the current one exist', zi(g['filled']) == v), ('all threads before the current one were joined', Implies(And(self.w >= self.n, self.w < v), zb(g['joined']))), ('all threads behind the current one were joined', Implies(And(self.w >= v, self.w < g['filled']), zb(g['joined']))),
                        ('within the new size', v <= self.n), ('within the old size', v >= self.N0), ('beyond the new size', v >= self.n))]
        return out
def verify(V):
    mod = V.module('pool.cpp'); V.par = 8; M = TP(V, mod); F = M.F
    free = lambda ex, s: ex.prove(s, And(not s.ghost['held'], zi(s.ghost['sh']) == 0), 'no lock is left behind')
    def run(ex):
        st = M.pre(ex, 'run', True)
        for s, k, v in ex.live(ex.exec_fn(st, M.L['run'], [M.S0])):
            ex.prove(s, k == 'ret', 'a thread does not throw'); free(ex, s); g = s.ghost
            ex.prove(s, zi(g['pend']) == 0, 'every callback that was taken is invoked')
            ex.prove(s, zb(g['retired']), 'a thread leaves only when it was asked to')
            ex.prove(s, zb(g['qe']), 'a thread leaves only after it found its queue empty, when nobody else could add to it any more')
    V.check('thread_pool::thread_state::run', mod, run)
    for mode in ('outside thread', 'own thread', 'thread of another pool'):
        def push(ex, mode=mode):
            st = M.pre(ex, 'push', mode == 'own thread'); L = M.L
            if mode != 'outside thread':
                P2 = ex.new_region(st, 'pool2', 64); ex.addr(P2)
                fix = lambda v: Ptr(P2, v.off) if mode != 'own thread' and isinstance(v, Ptr) and v.r.id == M.P.id else v
                for (rid, off), v in L['tls'].items(): ex.put(st, ex.global_region(st, rid), off, 8, fix(v))
                c = st.mem[M.T.id].cells
                for o, (z, v) in list(c.items()): c[o] = (z, fix(v))
            f = ex.new_region(st, 'f', 32); M.tok = z3.Int('tok'); st.assume(M.tok >= 0); ex.put(st, f, 0, 8, M.tok)
            for s, k, v in ex.live(ex.exec_fn(st, F('tp_push'), [Ptr(M.P, 0), Ptr(f, 0)])):
                free(ex, s)
                if k == 'ret': ex.prove(s, zi(s.ghost['eff']) == z3.If(M.tok == 0, 0, 1), 'a callback is queued exactly once; empty ones are ignored')
                else:
                    ex.prove(s, zi(s.ghost['eff']) == 0, 'a refused callback is not queued')
                    ex.prove(s, mode != 'own thread', "the pool's own threads can always push")
                    ex.prove(s, zb(s.ghost['zero']), 'a callback is refused only by a pool without threads')
        V.check('thread_pool.push [%s]' % mode, mod, push)
    def resize(ex, op='resize', fn='tp_resize'):
        st = M.pre(ex, op, False); M.n = z3.Int('n') if op != 'dtor' else z3.IntVal(0); st.assume(And(M.n >= 0, M.n < 2 ** 40))
        args = [Ptr(M.P, 0)] + ([M.n] if op != 'dtor' else [])
        if op == 'ctor':
            st.mem[M.P.id].cells = {}
        for s, k, v in ex.live(ex.exec_fn(st, F(fn), args)):
            ex.prove(s, k == 'ret', 'it does not throw'); free(ex, s); g = s.ghost
            ex.prove(s, And(zi(g['rs']) == 1, zi(g['valid']) == M.n), 'it has the requested number of threads')
    V.check('thread_pool.resize', mod, resize)
    V.check('thread_pool()', mod, lambda ex: resize(ex, 'ctor', 'tp_ctor'))
    V.check('~thread_pool', mod, lambda ex: resize(ex, 'dtor', 'tp_dtor'))
    def size(ex):
        st = M.pre(ex, 'size', False)
        for s, k, v in ex.live(ex.exec_fn(st, F('tp_get'), [Ptr(M.P, 0)])): ex.prove(s, k == 'ret', 'size does not throw'); free(ex, s)
    V.check('thread_pool.size', mod, size)
    V.assume_note('std::mutex, std::shared_mutex, std::condition_variable and std::thread as specified by the standard; std::deque and std::vector behave as sequences; allocations and starting threads succeed; std::function is opaque and empty after it was moved from (as libstdc++ has it)',
                  'tasks and their destructors do not throw and leave the current dispatcher as they found it; a pool is not resized or destroyed by its own threads, and not destroyed while others use it; every locked section of a task queue terminates',
                  'that a queued task is eventually executed rests on fairness: a thread of the pool waits at most for its time-out before it looks at its queue again (untimed waits are rejected)')
