from .common import *
from .reflib import *

def sym(ex, st, name):
    t = z3.Int(name); st.assume(z3.And(t >= 0, t < 2 ** 47, t % 8 == 0)); return t

def verify(V):
    mod = V.module('ref.cpp'); F = lambda n: mod.funcs[n]
    def run(ex, name, this, other=None, arg=None, same_obj=False, inside=False, ret=None):
        """this: None (fresh memory) or initial owned pointer; other: pointer owned by a second handle; arg: raw pointer"""
        st = State(); m = ex.new_region(st, 'handle', 8); ex.addr(m)
        own0 = []
        A = None
        if this:
            A = sym(ex, st, 'A'); ex.poke(st, m, 0, SPtr(A)); own0.append(A)
        o = None; Bv = None; args = [Ptr(m, 0)]
        if other:
            if same_obj: o = m; Bv = None
            else:
                o = ex.new_region(st, 'other', 8); ex.addr(o); Bv = sym(ex, st, 'B'); ex.poke(st, o, 0, SPtr(Bv)); own0.append(Bv)
            args.append(Ptr(o, 0))
        C = None
        if arg:
            C = sym(ex, st, 'C'); args.append(SPtr(C))
            if arg == 'owned': own0.append(C)
        acct = Acct(ex, st, own0)
        if inside: acct.inside = (A, o); st.assume(A > 0)
        outs = ex.exec_fn(st, F(name), args)
        return ex.live(outs), acct, m, o, A, Bv, C
    val = lambda ex, s, r: ex.to_int(ex.peek(s, r, 0))
    # ---- construction
    def ctors(ex):
        for name, other, arg in (('rf_ctor', 0, None), ('rf_adopt', 0, 'owned'), ('rf_ptr', 0, 'raw'), ('rf_copy', 1, None), ('rf_move', 1, None)):
            outs, ac, m, o, A, Bv, C = run(ex, name, None, other, arg)
            for s, k, v in outs:
                now = val(ex, s, m); P = lambda c, nm: ex.prove(s, c, '%s: %s' % (name[3:], nm))
                P(k == 'ret', 'does not throw')
                want = {'rf_ctor': 0, 'rf_adopt': C, 'rf_ptr': C, 'rf_copy': Bv, 'rf_move': Bv}[name]
                P(now == want, 'the handle holds the pointer given')
                if other: P(val(ex, s, o) == (Bv if name == 'rf_copy' else 0), 'the source keeps its pointer when copied and is empty when moved from')
                after = [now] + ([val(ex, s, o)] if other else [])
                ac.balance(ex, s, after, ac.own0)
    V.check('ref construction', mod, ctors)
    # ---- assignment / reset
    def assign(ex):
        for name in ('rf_asgn', 'rf_masgn'):
            for mode in ('distinct', 'self', 'inside'):
                outs, ac, m, o, A, Bv, C = run(ex, name, 1, 1, None, same_obj=(mode == 'self'), inside=(mode == 'inside'))
                for s, k, v in outs:
                    P = lambda c, nm: ex.prove(s, c, '%s: %s' % ({'rf_asgn': 'copy assignment', 'rf_masgn': 'move assignment'}[name], nm))
                    now = val(ex, s, m); P(k == 'ret', 'does not throw')
                    P(now == (A if mode == 'self' else Bv), 'the handle holds what was assigned')
                    gone = s.ghost.get('destroyed_inside')
                    after = [now]
                    if mode != 'self' and not gone:
                        ov = val(ex, s, o); after.append(ov)
                        P(ov == Bv if name == 'rf_asgn' else ov == 0, 'the source keeps its pointer when copied and is empty when moved from')
                    ac.balance(ex, s, after, ac.own0, '%s: the count of every object changes by exactly the change in owning handles' % name)
                    P(Not(ac.dead(s, now)), 'the object held afterwards still exists')
    V.check('ref assignment (distinct, self, handle inside the object replaced)', mod, assign)
    def resets(ex):
        for name, arg in (('rf_rst', 'raw'), ('rf_rsta', 'owned'), ('rf_rst0', None), ('rf_dtor', None)):
            outs, ac, m, o, A, Bv, C = run(ex, name, 1, 0, arg)
            for s, k, v in outs:
                P = lambda c, nm: ex.prove(s, c, '%s: %s' % (name[3:], nm))
                P(k == 'ret', 'does not throw')
                if name != 'rf_dtor':
                    now = val(ex, s, m); P(now == (C if arg else 0), 'the handle holds the new pointer')
                    P(Not(ac.dead(s, now)), 'the object held afterwards still exists')
                else: now = 0
                ac.balance(ex, s, [now], ac.own0)
    V.check('ref reset, destruction', mod, resets)
    def obs(ex):
        for name in ('rf_get', 'rf_arrow', 'rf_star', 'rf_bool', 'rf_not', 'rf_release', 'rf_hash'):
            st0 = None
            outs, ac, m, o, A, Bv, C = run(ex, name, 1)
            for s, k, v in outs:
                P = lambda c, nm: ex.prove(s, c, '%s: %s' % (name[3:], nm))
                P(k == 'ret' and not s.ghost['log'], 'changes no count')
                if name in ('rf_bool', 'rf_not'): P(zb(v) == ((A != 0) if name == 'rf_bool' else (A == 0)), 'reports whether the handle is empty')
                elif name == 'rf_hash': pass
                else: P(ex.to_int(v) == A, 'yields the pointer held')
                P(val(ex, s, m) == (0 if name == 'rf_release' else A), 'the handle is unchanged (release: empty)')
        for name in ('rf_eq', 'rf_ne', 'rf_lt'):
            outs, ac, m, o, A, Bv, C = run(ex, name, 1, 1)
            for s, k, v in outs: ex.prove(s, k == 'ret' and not s.ghost['log'] and zb(v) == {'rf_eq': A == Bv, 'rf_ne': A != Bv, 'rf_lt': A < Bv}[name], 'comparison of handles compares the pointers')
        for name in ('rf_eqp', 'rf_nep', 'rf_peq'):
            outs, ac, m, o, A, Bv, C = run(ex, name, 1, 0, 'raw')
            for s, k, v in outs: ex.prove(s, k == 'ret' and not s.ghost['log'] and zb(v) == (A != C if name == 'rf_nep' else A == C), 'comparison with a pointer compares the pointers')
    V.check('ref observers, release', mod, obs)
    def casts(ex):
        # offset of B inside D, from the real conversion
        ex.exc_bases = {}
        for name, move in (('rf_scast', 0), ('rf_scastm', 1), ('rf_sdown', 0), ('rf_sdownm', 1), ('rf_ccast', 0), ('rf_ccastm', 1), ('rf_dcast', 0), ('rf_dcastm', 1)):
            st = State(); src = ex.new_region(st, 'src', 8); dst = ex.new_region(st, 'dst', 8)
            obj = sym(ex, st, 'OBJ')      # address of the B part of the object, 0 = empty handle
            isd = z3.Bool('isD')
            up = name.startswith('rf_scast')
            OFF = 32
            # D handles hold obj-OFF
            st.assume(z3.Or(obj == 0, obj > 4096))
            asd = lambda x: z3.If(x == 0, 0, x - OFF)
            ex.poke(st, src, 0, SPtr(asd(obj)) if up else SPtr(obj))
            if name.startswith('rf_sdown'): st.assume(z3.Implies(obj != 0, isd))
            ac = Acct(ex, st, [obj])
            def dyn(ex_, s, F_, a, loc):
                ex_.prove(s, ex_.to_int(a[0]) != 0, 'dynamic cast of an object', loc)
                return SPtr(z3.If(isd, ex_.to_int(a[0]) - OFF, 0))
            ex.contracts.append((re.compile(r'^__dynamic_cast$'), dyn))
            for s, k, v in ex.live(ex.exec_fn(st, F(name), [Ptr(dst, 0), Ptr(src, 0)])):
                P = lambda c, nm: ex.prove(s, c, '%s: %s' % (name[3:], nm))
                r = val(ex, s, dst); sv = val(ex, s, src)
                src0 = asd(obj) if up else obj
                todd = not (up or name.startswith('rf_ccast'))
                want = obj if not todd else asd(obj)
                if name.startswith('rf_dcast'): want = z3.If(isd, want, 0)
                P(k == 'ret', 'does not throw')
                P(r == want, 'the cast handle refers to the same object (or is empty if the dynamic cast fails)')
                moved = (z3.If(isd, True, False) if name == 'rf_dcastm' else z3.BoolVal(bool(move)))
                P(sv == z3.If(moved, 0, src0), 'the source is emptied exactly if its reference moved into the result')
                b1 = z3.If(r == 0, 0, r + (OFF if todd else 0)); b2 = z3.If(sv == 0, 0, sv + (OFF if up else 0))
                ac.balance(ex, s, [b1, b2], [obj], '%s: the cast keeps the counts exact' % name[3:])
    V.check('static/const/dynamic_ref_cast', mod, casts)

    # ---- the counter itself
    class CountCell:
        def observe(self, ex, st, kind):
            c = fresh_int('count'); st.assume(z3.And(c >= st.ghost['mine'], c < 2 ** 63)); return [(st, c)]
        def on_load(self, ex, st, cur, order, loc): st.ghost['read'] = cur
        def commit(self, ex, st, old, new, order, loc, kind):
            ex.prove(st, kind != 'store', 'the count is changed by atomic read-modify-write', loc)
            g = st.ghost
            if g['op'] == 'add':
                ex.prove(st, ex.eq(new, old + 1), 'adding a reference raises the count by one', loc); g['adds'] += 1
            elif g['op'] == 'rem':
                ex.prove(st, ex.eq(new, old - 1), 'dropping a reference lowers the count by one', loc); g['rems'] += 1
                ex.prove(st, order in REL, 'memory order: dropping a reference releases what this thread did to the object', loc)
                st.ghost['last'] = old == 1; st.ghost['mine'] = 0
                st.ghost['acq'] = order in ACQ
            else: ex.fail(st, 'reading the count does not change it', loc)
            g['old'] = old
    def learn(ex, p):
        st = State(); r = ex.new_region(st, 'obj', const(ex, mod, p + '_size'))
        s1 = ex.exec_fn(st, F(p + '_ctor'), [Ptr(r, 0)])[0][0]
        before = dict(s1.mem[r.id].cells)
        base = Ptr(r, 0) if p != 'ov' else Ptr(r, 0)
        s2 = [o for o in ex.exec_fn(s1.clone(), F(p + '_add'), [Ptr(r, 0)]) if o[1] == 'ret'][0][0]
        after = s2.mem[r.id].cells
        d = [o for o in after if not same(after[o][1], before.get(o, (0, None))[1])]
        if len(d) != 1: raise ToolLimit('reference count not identified')
        ex.prove(s2, ex.eq(before[d[0]][1], 0), 'a new object has count zero'); ex.prove(s2, ex.eq(after[d[0]][1], 1), 'the first reference makes the count one')
        return r, d[0], s1
    def dtors(ex):
        def dt(ex_, st, F_, a, loc):
            ex_.prove(st, st.ghost.get('op') in ('rem', 'late'), 'only dropping a reference destroys the object', loc)
            ex_.prove(st, isinstance(a[0], Ptr) and a[0].r is st.ghost['objreg'].r and same(a[0].off, 0), 'the object destroyed is the one counted', loc)
            st.ghost['destroyed'] += 1
            acq = st.ghost.get('acq') or any(e[0] == 'fence' and e[1] in ACQ for e in st.events)
            ex_.prove(st, bool(acq), 'memory order: destruction happens after what other threads did before dropping their reference (acquire)', loc)
            return None
        ex.contracts = [(re.compile(r'^vt::O[UV]?::~O[UV]?\(\)'), dt)]
        def vc(ex_, st, slot, args, loc):
            dt(ex_, st, None, args, loc); ex_.getmem(st, args[0].r).alive = False
            st.event('delete', args[0].r); return [(st, 'ret', None)]
        ex.vcall = vc
    class RegBox:
        def __init__(self, r): self.r = r
    for p in ('oa', 'ou', 'ov'):
        def cnt(ex, p=p):
            dtors(ex)
            r, off, s1 = learn(ex, p)
            for op in ('add', 'rem', 'use'):
                if op == 'use' and p == 'ov': continue
                st = s1.clone(); r2 = r; r.kind = 'heap'
                g = st.ghost; g.update(op=op, adds=0, rems=0, mine=1 if op != 'add' else 0, destroyed=0, last=False, acq=(p == 'ou'), old=None, objreg=RegBox(r))
                if p == 'ov': 
                    pass
                if p == 'ou':
                    c = z3.Int('c'); st.assume(z3.And(c >= (0 if op == 'add' else 1), c < 2 ** 63)); ex.poke(st, r, off, c)
                else: st.shared[(r.id, off)] = CountCell()
                for s, k, v in ex.live(ex.exec_fn(st, F('%s_%s' % (p, op)), [Ptr(r, 0)])):
                    P = lambda c_, nm: ex.prove(s, c_, nm); g = s.ghost
                    alive = s.mem[r.id].alive
                    if p == 'ou':
                        now = ex.peek(s, r, off) if alive else None
                        if op == 'add': P(ex.eq(now, c + 1), 'adding a reference raises the count by one')
                        if op == 'rem': 
                            if alive: P(ex.eq(now, c - 1), 'dropping a reference lowers the count by one')
                            P(zb(not alive) == (c == 1), 'the object is destroyed exactly when its last reference goes')
                        if op == 'use': P(And(ex.eq(v, c), ex.eq(now, c)), 'use_count reports the count')
                    else:
                        if op == 'add': P(g['adds'] == 1, 'one reference adds one count'); P(alive, 'adding a reference keeps the object')
                        if op == 'rem':
                            P(g['rems'] == 1, 'dropping one reference removes one count')
                            P(zb(not alive) == zb(g['last']), 'the object is destroyed exactly when its last reference goes')
                        if op == 'use': P(ex.eq(v, g['read']), 'use_count reports the count')
                    P(g['destroyed'] == (0 if alive else 1), 'the destructor runs exactly once')
                    P(k == 'ret', 'does not throw')
            for op in ('add', 'rem'):
                st = State(); st.ghost.update(op='none')
                for s, k, v in ex.live(ex.exec_fn(st, F('%s_%s' % (p, op)), [0])): ex.prove(s, k == 'ret', 'a null pointer is not counted')
        V.check('intrusive_refcount ' + p, mod, cnt)
        def mk(ex, p=p):
            dtors(ex)
            r, off, s1 = learn(ex, p)
            st = State(); h = ex.new_region(st, 'h', 8); st.ghost.update(op='none', destroyed=0)
            for s, k, v in rets(ex, ex.exec_fn(st, F(p + '_make'), [Ptr(h, 0)])):
                q = ex.peek(s, h, 0)
                ex.prove(s, isinstance(q, Ptr) and q.r.kind == 'heap' and same(q.off, 0) and s.mem[q.r.id].alive, 'make_ref yields a handle to the new object')
                if isinstance(q, Ptr): ex.prove(s, ex.eq(ex.peek(s, q.r, off), 1), 'the new object is counted once')
        V.check('make_ref ' + p, mod, mk)
    def pol(ex):
        for pre in ('rc_', 'rc_u'):
            st = State(); r = ex.new_region(st, 'c', 8); n = z3.Int('n'); st.assume(z3.And(n >= 1, n < 2 ** 63))
            for s, k, v in ex.live(ex.exec_fn(st, F(pre + 'safe'), [Ptr(r, 0), n])):
                for op, dv in (('count', 0), ('inc', 1), ('dec', -1)):
                    for s2, k2, v2 in ex.live(ex.exec_fn(s.clone(), F(pre + op), [Ptr(r, 0)])):
                        ex.prove(s2, ex.eq(v2, n), 'counter policy: %s returns the count before' % op)
                        ex.prove(s2, ex.eq(ex.peek(s2, r, 0), n + dv), 'counter policy: %s changes the count by %d' % (op, dv))
    V.check('refcount policies', mod, pol)
    V.assume_note('refcounted_add_ref/refcounted_remove_ref of an arbitrary user type change the count by one and destroy the object when it reaches zero; user code run by a destructor destroys the handles inside the object',
                  'fewer than 2^63 references to one object', 'worst case for the accounting: nobody outside the operation holds a reference')
