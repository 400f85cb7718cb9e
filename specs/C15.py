"""atomic_ref: the word is a pointer with a lock bit; an unlocked cell owns one count of the object it shows"""
from .common import *
from .reflib import *
LOCK = 1 << 63

class RefCell_:
    def __init__(self, rid): self.rid = rid
    """abstract state: (shown pointer p, locked?).  Whoever set the lock bit owns the cell's count until it writes the pointer back."""
    def observe(self, ex, st, kind):
        g = st.ghost; lk = g['locked']
        if isz(lk):
            out = []
            for b in (True, False):
                c = lk if b else z3.Not(lk)
                if ex.sat(st, c):
                    s = st.clone(); s.assume(c); s.ghost['locked'] = b; out += self.observe(ex, s, kind)
            return out
        if g['locked']:
            if not ex.valid(st, g['cellr'] == self.rid): raise ToolLimit('two cells while one is locked')
            return [(st, g['cellp'] + LOCK)]
        out = []
        if not g.get('sole'):
            s = st.clone(); p = fresh_int('shown'); s.assume(z3.And(p >= 0, p < 2 ** 47, p % 8 == 0)); s.ghost['lastp'] = p; s.ghost['lastlk'] = True
            out.append((s, p + LOCK))
        s = st.clone(); p = fresh_int('shown'); s.assume(z3.And(p >= 0, p < 2 ** 47, p % 8 == 0)); s.ghost['lastp'] = p; s.ghost['lastlk'] = False
        out.append((s, p)); return out
    def on_load(self, ex, st, cur, order, loc): st.ghost['lastread'] = cur
    def commit(self, ex, st, old, new, order, loc, kind):
        g = st.ghost; P = lambda c, nm: ex.prove(st, c, nm, loc)
        nv = ex.to_int(new)
        if g['locked']:
            if ex.valid(st, nv == ex.to_int(old)): return
            P(z3.And(nv >= 0, nv < LOCK), 'the pointer written back when unlocking carries no lock bit')
            P(order in REL, 'memory order: unlocking releases')
            g['gain'] = g['gain'] + [nv]; g['lost'] = g['lost'] + [g['cellp']]; g['locked'] = False; g['lin'] = g['lin'] + [(g['cellp'], nv, self.rid)]
            return
        P(kind != 'store', 'the shared pointer is only changed by atomic read-modify-write unless this operation holds the lock')
        p, lk = g['lastp'], g['lastlk']
        if lk:
            P(nv == ex.to_int(old), 'a locked pointer is left as it is by everyone but the owner of the lock'); return
        if ex.valid(st, nv == p): return
        if ex.valid(st, nv == p + LOCK):
            P(order in ACQ, 'memory order: locking acquires')
            P(True, 'locking keeps the pointer'); g['locked'] = True; g['cellp'] = p; g['cellr'] = z3.IntVal(self.rid); return
        P(z3.And(nv >= 0, nv < LOCK), 'the pointer is replaced atomically or locked, never changed to anything else')
        P(order in REL and order in ACQ, 'memory order: an atomic exchange acquires the old and releases the new object')
        g['gain'] = g['gain'] + [nv]; g['lost'] = g['lost'] + [p]; g['lin'] = g['lin'] + [(p, nv, self.rid)]

def sym(ex, st, name):
    t = z3.Int(name); st.assume(z3.And(t >= 0, t < 2 ** 47, t % 8 == 0)); return t

def verify(V):
    mod = V.module('ref.cpp'); F = lambda n: mod.funcs[n]
    def setup(ex, sole=False):
        st = State(); c = ex.new_region(st, 'cell', const(ex, mod, 'ar_size')); ex.addr(c)
        # locate the word: the default constructed cell
        s = ex.exec_fn(st.clone(), F('ar_ctor'), [Ptr(c, 0)])[0][0]
        offs = [o for o, (sz, v) in s.mem[c.id].cells.items() if sz == 8]
        if len(offs) != 1: raise ToolLimit('pointer word not identified')
        st.shared[(c.id, offs[0])] = RefCell_(c.id)
        st.ghost.update(locked=False, cellp=z3.IntVal(0), cellr=z3.IntVal(0), gain=[], lost=[], lin=[], lastp=z3.IntVal(0), lastlk=False, sole=sole)
        ex.spin = True
        def cands(ex_, s_, env, L):
            g = s_.ghost; lk = zb(g['locked']); out = [('locked', lk), ('not locked', z3.Not(lk)), ('seen locked by others iff not locked by us', zb(g['lastlk']) == z3.Not(lk)),
                  ('the locked cell shows what was read', z3.Implies(lk, g['cellp'] == g['lastp']))] + [('the cell locked is %d' % r_, z3.Implies(lk, g['cellr'] == r_)) for r_, o_ in s_.shared] + [('shown', z3.And(g['lastp'] >= 0, g['lastp'] < 2 ** 47))]
            for kind, nm, v in L.slots:
                if kind != 'bool' and (isinstance(v, int) or isz(v)): out.append((nm + ' is the word read', zi(v) == g['lastp'] + z3.If(lk, 0, LOCK)))
            return out
        ex.loop_cands = [cands]
        ex.asm_handler = lambda *a: None
        return st, c, offs[0]
    def handle(ex, st, n, v):
        r = ex.new_region(st, n, 8); ex.addr(r); ex.poke(st, r, 0, SPtr(v)); return r
    def locked(ex, st, p, loc, add):
        g = st.ghost
        if add: 
            own = Or(And(zb(g['locked']), g['cellp'] == p), *[zi(q) == p for q in ST['own']])
            ex.prove(st, own, 'a count is only raised while the object is owned: by the locked cell or by a handle', loc)
        else: ex.prove(st, Not(zb(g['locked'])), 'no reference is dropped (user destructor) while the cell is locked', loc)
    ST = {}
    def acct(ex, st, own):
        a = Acct(ex, st, own); a.locked = locked; ST['own'] = own; return a
    def end(ex, s, k, ac, gained, lost, nm, throw_ok=False):
        g = s.ghost; P = lambda c, t: ex.prove(s, c, '%s: %s' % (nm, t))
        P(Not(zb(g['locked'])), 'the lock is always released')
        if not throw_ok: P(k == 'ret', 'does not throw')
        ac.balance(ex, s, gained + g['gain'], lost + g['lost'], nm + ': no reference is lost or duplicated')
    val = lambda ex, s, r: ex.to_int(ex.peek(s, r, 0))
    def ctors(ex):
        st, c, off = setup(ex); st.shared = {}
        ac = acct(ex, st, [])
        for s, k, v in ex.live(ex.exec_fn(st.clone(), F('ar_ctor'), [Ptr(c, 0)])): ex.prove(s, k == 'ret' and ex.eq(ex.peek(s, c, off), 0), 'a new cell is empty')
        A = z3.Int('A'); st.assume(z3.And(A >= 0, A < 2 ** 64, A % 8 == 0)); h = handle(ex, st, 'h', A)
        ac = acct(ex, st, [A])
        for s, k, v in ex.live(ex.exec_fn(st, F('ar_ref'), [Ptr(c, 0), Ptr(h, 0)])):
            now = [ex.to_int(ex.peek(s, c, off))] if k == 'ret' else []
            if now: ex.prove(s, And(now[0] == A, A < LOCK), 'the cell shows the pointer of the handle')
            else: ex.prove(s, A >= LOCK, 'construction throws only if the pointer collides with the lock bit')
            ac.balance(ex, s, now + [val(ex, s, h)], [A], 'construction moves the reference of the handle')
    V.check('atomic_ref construction', mod, ctors)
    def loads(ex):
        for f in ('ar_load', 'ar_arrow'):
            st, c, off = setup(ex); ac = acct(ex, st, []); o = ex.new_region(st, 'out', 8)
            for s, k, v in ex.live(ex.exec_fn(st, F(f), [Ptr(o, 0), Ptr(c, 0)])):
                r = val(ex, s, o)
                end(ex, s, k, ac, [r], [], f[3:])
                ex.prove(s, r == s.ghost['lastp'], 'load returns an object the cell showed during the call')
                for a, b, _r in s.ghost['lin']: ex.prove(s, a == b, 'load does not change the pointer shown'); ex.prove(s, r == a, 'load returns the object whose count it raised while the cell owned it')
    V.check('atomic_ref load', mod, loads)
    def exch(ex):
        for f, src in (('ar_exch', 'h'), ('ar_store', 'h'), ('ar_asgn', 'c'), ('ar_masgn', 'h')):
            st, c, off = setup(ex); A = z3.Int('A'); st.assume(z3.And(A >= 0, A < 2 ** 64, A % 8 == 0)); h = handle(ex, st, 'h', A); ac = acct(ex, st, [A])
            o = ex.new_region(st, 'out', 8)
            for s, k, v in ex.live(ex.exec_fn(st, F(f), ([Ptr(o, 0)] if f == 'ar_exch' else []) + [Ptr(c, 0), Ptr(h, 0)])):
                hv = val(ex, s, h); lin = [x for x in s.ghost['lin']]
                gained = [hv]
                if k == 'ret':
                    ex.prove(s, len(lin) == 1, f[3:] + ': the pointer is replaced exactly once')
                    if len(lin) != 1: continue
                    ex.prove(s, lin[0][1] == A, f[3:] + ': the new pointer is installed')
                    ex.prove(s, hv == (A if src == 'c' else 0), f[3:] + ': the reference of the source is copied or moved')
                    if f == 'ar_exch':
                        r = val(ex, s, o); ex.prove(s, r == lin[0][0], 'exchange returns the old object'); gained.append(r)
                else:
                    ex.prove(s, A >= LOCK, f[3:] + ': throws only if the pointer collides with the lock bit'); ex.prove(s, not lin, f[3:] + ': a rejected pointer changes nothing')
                end(ex, s, k, ac, gained, [A], f[3:], throw_ok=True)
    V.check('atomic_ref exchange, store, assignment from ref', mod, exch)
    def drop(ex):
        for f in ('ar_release', 'ar_reset', 'ar_dtor'):
            st, c, off = setup(ex, sole=(f == 'ar_dtor')); ac = acct(ex, st, [])
            for s, k, v in ex.live(ex.exec_fn(st, F(f), [Ptr(c, 0)])):
                lin = s.ghost['lin']
                ex.prove(s, len(lin) == 1, f[3:] + ': the pointer is taken exactly once')
                if len(lin) != 1: continue
                ex.prove(s, lin[0][1] == 0, f[3:] + ': the cell is empty afterwards')
                if f == 'ar_release': ex.prove(s, ex.to_int(v) == lin[0][0], 'release returns the pointer held')
                end(ex, s, k, ac, [ex.to_int(v)] if f == 'ar_release' else [], [], f[3:])
    V.check('atomic_ref release, reset, destruction', mod, drop)
    def cells(ex):
        for f in ('ar_aasgn', 'ar_amasgn', 'ar_storea', 'ar_excha'):
            for same_ in (False, True):
                st, c, off = setup(ex); ac = acct(ex, st, [])
                if same_: d = c
                else:
                    d = ex.new_region(st, 'cell2', const(ex, mod, 'ar_size')); ex.addr(d); st.shared[(d.id, off)] = RefCell_(d.id)
                    # one operation never holds both locks: the ghost state is shared
                o = ex.new_region(st, 'out', 8)
                for s, k, v in ex.live(ex.exec_fn(st, F(f), ([Ptr(o, 0)] if f == 'ar_excha' else []) + [Ptr(c, 0), Ptr(d, 0)])):
                    end(ex, s, k, ac, [val(ex, s, o)] if f == 'ar_excha' else [], [], f[3:] + (' (self)' if same_ else ''))
                    src = [x for x in s.ghost['lin'] if x[2] == d.id]; dst = [x for x in s.ghost['lin'] if x[2] == c.id]
                    if same_: continue
                    ex.prove(s, len(dst) == 1 and len(src) <= 1, f[3:] + ': the pointer is replaced once')
                    if len(dst) != 1 or len(src) > 1: continue
                    if f == 'ar_amasgn': ex.prove(s, len(src) == 1 and And(src[0][1] == 0, dst[0][1] == src[0][0]), 'move assignment moves the pointer and empties the source')
                    else: ex.prove(s, And(src[0][1] == src[0][0], dst[0][1] == src[0][0]) if src else dst[0][1] == 0, f[3:] + ': the pointer the source showed is installed')
    V.check('atomic_ref to atomic_ref', mod, cells)
    def obs(ex):
        for lk in (False, True):
            st, c, off = setup(ex); st.shared = {}; ac = acct(ex, st, [])
            p = sym(ex, st, 'p'); q = sym(ex, st, 'q'); r = sym(ex, st, 'r'); d = ex.new_region(st, 'cell2', const(ex, mod, 'ar_size'))
            ex.poke(st, c, off, p + (LOCK if lk else 0))
            hs = []
            for lk2 in (False, True):
                s2 = st.clone(); ex.poke(s2, d, off, q + (LOCK if lk2 else 0))
                for f, args, want in (('ar_bool', [c], p != 0), ('ar_not', [c], p == 0), ('ar_eq', [c, d], p == q), ('ar_ne', [c, d], p != q), ('ar_lt', [c, d], p < q), ('ar_eqp', [c, SPtr(r)], p == r), ('ar_peq', [c, SPtr(r)], p == r),
                                      ('ar_nep', [c, SPtr(r)], p != r), ('ar_ltp', [c, SPtr(r)], p < r), ('ar_plt', [c, SPtr(r)], r < p)):
                    for s, k, v in ex.live(ex.exec_fn(s2.clone(), F(f), [Ptr(a, 0) if isinstance(a, Region) else a for a in args])):
                        ex.prove(s, k == 'ret' and not s.ghost['log'] and zb(v) == want, '%s depends on the pointers only, not on the lock bit' % f[3:])
                        ex.prove(s, ex.eq(ex.peek(s, c, off), p + (LOCK if lk else 0)), 'observers do not change the cell')
            s3 = st.clone(); ex.poke(s3, d, off, p)
            for s, k, v in ex.live(ex.exec_fn(s3, F('ar_hash'), [Ptr(c, 0)])):
                for s4, k4, v4 in ex.exec_fn(s, F('ar_hash'), [Ptr(d, 0)]): ex.prove(s4, ex.eq(v, v4), 'the hash does not depend on the lock bit')
    V.check('atomic_ref bool, comparison, hash', mod, obs)
    V.assume_note('object pointers of the cell are below 2^47 (user space); pointers offered to the cell are arbitrary', 'termination of the spin lock is not proved',
                  'counts of the user type change only through refcounted_add_ref/refcounted_remove_ref')
