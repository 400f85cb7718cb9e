"""generator and its iterator: the real promise and iterator code around the most general body, as lowered by the compiler"""
from .coro import *
from .C18 import opaqueT, held, live_frames, handle_ops, susp
def same_gen(ex, a, b, hs):
    """equal frames up to the value that was yielded last"""
    for h in hs:
        ca, cb = a.mem[h.r.id].cells, b.mem[h.r.id].cells
        if set(ca) != set(cb): return False
        for o in ca:
            if ca[o][0] != cb[o][0]: return False
            x, y = ca[o][1], cb[o][1]
            if ex.same_sem(b, x, y): continue
            if all(isz(v) or isinstance(v, SPtr) for v in (x, y)) and any(same(ex.to_int(x), a.ghost['vals'][i]) and same(ex.to_int(y), b.ghost['vals'][i]) for i in range(min(len(a.ghost['vals']), len(b.ghost['vals'])))): continue
            return False
    return True
def frames(ex, s): return [r for r in ex.addr_list if r.id in (s.ghost.get('heap') or ())]
def verify(V):
    mod = V.module('gen.cpp', flags=('-DREFS',), coro=True)
    def mk(ex, n, started=False):
        C = Coro(ex, mod); C.op = opaqueT(ex, C); st = State(); C.start(st); st.ghost.update(started=started, nres=0, vals=())
        o = ex.new_region(st, 'gen', const(ex, mod, n + '_size')); ex.addr(o); C.obj = o
        C.on_body = lambda ex_, s, loc: ex_.prove(s, s.ghost['started'], 'the body does not run before an element is asked for', loc)
        C.outer = None; inner = n == 'gf'
        def onres(ex_, s, h, loc):
            if inner and h.r is not C.outer.r: s.ghost['ninner'] = s.ghost.get('ninner', 0) + 1; return
            s.ghost['nres'] += 1; s.ghost['exc'] = None; s.ghost['val'] = None; s.ghost['applied'] = False
        C.on_resume_frame = onres
        if inner:
            fo = C.fn = Opaque(ex, 'vt::Fn', throws=()); fr = ex.new_region(st, 'fn', 8); ex.put(st, fr, 0, 8, z3.Int('fn')); st.assume(z3.Int('fn') > 0)
            def call(ex_, s, F, a, loc):
                t = fo.get(s, a[1], loc); ex_.prove(s, t == z3.Int('fn'), 'the function given is the one called', loc)
                v = C.op.get(s, a[2], loc); ex_.prove(s, s.ghost['val'] is not None and same(v, s.ghost['val']), 'the function is applied to the source element', loc)
                ex_.prove(s, not s.ghost['applied'], 'the function is applied once per element', loc); s.ghost['applied'] = True
                r = z3.Function('app', z3.IntSort(), z3.IntSort())(v); s.assume(r > 0); e = fresh_int('exc'); s2 = s.clone(); s2.assume(e > 0); s2.ghost['exc'] = e
                C.op.put(s, a[0], r, loc); s.ghost['val'] = r; s.ghost['vals'] = s.ghost['vals'] + (v,)
                return [(s, 'ret', None), (s2, 'throw', Exc(None, e))]
            ex.contracts = [(re.compile(r'^vt::Fn::operator\(\)\('), call), (re.compile(r'^vt_fn\('), lambda *a: Ptr(fr, 0))] + ex.contracts
        outs = ex.live(ex.exec_fn(st, mod.funcs[n + '_body'], [Ptr(o, 0)]))
        if len(outs) != 1 or outs[0][1] != 'ret': raise ToolLimit('creating the coroutine has %d outcomes' % len(outs))
        C.outer = held(ex, outs[0][0], o)
        return C, outs[0][0], o
    handle_ops(V, mod, 'gt', 'generator', lambda ex: mk(ex, 'gt'))
    def lifetime(n, what):
        F = lambda k: mod.funcs[n + '_' + k]
        def life(ex):
            C, st, o = mk(ex, n); h = held(ex, st, o); it = ex.new_region(st, 'it', const(ex, mod, n + '_isize'))
            def destroy(s, when):
                for s2, k, _ in ex.live(ex.exec_fn(s, F('dtor'), [Ptr(o, 0)])):
                    ex.prove(s2, k == 'ret' and not live_frames(s2), 'destroying the generator %s destroys its frame exactly once' % when)
                    ex.prove(s2, s2.ghost['locals'] == 0, 'destroying the generator %s destroys the locals of its body' % when)
            def ends(s, want, what):
                for f, w in (('eq0', want), ('eq1', want), ('ne0', not want), ('ne1', not want)):
                    for s2, k, v in ex.live(ex.exec_fn(s.clone(), F(f), [Ptr(o, 0), Ptr(it, 0)])):
                        ex.prove(s2, And(k == 'ret', zb(v) if w else Not(zb(v))), what); ex.prove(s2, s2.ghost['nres'] == s.ghost['nres'], 'comparing does not run the body')
            ex.prove(st, susp(st, h) == 'suspended', 'a new generator is suspended'); destroy(st.clone(), 'that never ran')
            st.ghost['started'] = True
            def step(s0, f, args, prev, depth):
                n0 = s0.ghost['nres']
                for s, k, v in ex.live(ex.exec_fn(s0.clone(), F(f), args), ('ret', 'throw')):
                    ex.prove(s, s.ghost['nres'] == n0 + 1, 'asking for an element runs the body exactly up to its next yield, once')
                    if k == 'throw' or s.ghost['exc'] is not None:
                        ex.prove(s, k == 'throw', 'an exception that leaves the body is rethrown at that point')
                        if k == 'throw':
                            ex.prove(s, s.ghost['exc'] is not None and same(v.tok, s.ghost['exc']), 'only the exception that left the body is thrown')
                            ex.prove(s, susp(s, h) == 'done', 'the body is finished')
                            if f != 'begin': ends(s, True, 'the iterator compares equal to the end after an exception')
                        destroy(s, 'after an exception'); continue
                    if k != 'ret': continue
                    if f != 'begin': ex.prove(s, ex.eq(v, Ptr(it, 0)), 'increment returns the iterator')
                    if s.ghost['val'] is None:
                        ex.prove(s, susp(s, h) == 'done', 'the body has returned'); ends(s, True, 'the iterator compares equal to the end exactly when the body returned'); destroy(s, 'at the end'); continue
                    ex.prove(s, susp(s, h) == 'suspended', 'the body waits at its yield'); ends(s, False, 'the iterator does not compare equal to the end while there is an element')
                    s.ghost['vals'] = (s.ghost['val'],) + (s.ghost['vals'][-1:] if n == 'gf' else ())
                    if n == 'gf': ex.prove(s, s.ghost['applied'], 'the function is applied to each element'); ex.prove(s, s.ghost['ninner'] == s.ghost['nres'], 'the source is advanced only as far as the element requested')
                    for f2 in ('deref', 'arrow'):
                        for s2, k2, p in ex.live(ex.exec_fn(s.clone(), F(f2), [Ptr(it, 0)])):
                            ex.prove(s2, k2 == 'ret' and s2.ghost['nres'] == s.ghost['nres'], 'reading the element does not run the body')
                            p = p if isinstance(p, Ptr) else ex.resolve(s2, p, '')[1] if isinstance(p, SPtr) else None
                            ex.prove(s2, p is not None, 'the element exists')
                            if p is not None:
                                t = C.op.get(s2, p); ex.prove(s2, t == s.ghost['val'], 'the element is exactly the value that was yielded, still alive')
                    destroy(s.clone(), 'with an element pending')
                    if prev is not None and same_gen(ex, prev, s, [Ptr(r_, 0) for r_ in frames(ex, s)]): continue
                    if depth > 3: raise ToolLimit('suspended states do not repeat')
                    step(s, 'inc', [Ptr(it, 0)], s, depth + 1)
                    step(s, 'post', [Ptr(it, 0)], s, depth + 1)
                    if depth == 0:
                        # a copy of the iterator stands for the same position
                        it2 = ex.new_region(s, 'it2', const(ex, mod, n + '_isize'))
                        for s3, k3, _ in ex.live(ex.exec_fn(s.clone(), F('icopy'), [Ptr(it2, 0), Ptr(it, 0)])):
                            for s4, k4, p in ex.live(ex.exec_fn(s3, F('deref'), [Ptr(it2, 0)])): ex.prove(s4, C.op.get(s4, p) == s.ghost['val'], 'a copied iterator refers to the same element')
            step(st, 'begin', [Ptr(o, 0), Ptr(it, 0)], None, 0)
        V.check(what, mod, life)
    lifetime('gt', 'generator<T>, temporaries yielded'); lifetime('gl', 'generator<T>, variables yielded'); lifetime('gc', 'generator<const T>')
    lifetime('gr', 'generator<T&>'); lifetime('gx', 'generator<T&&>')
    lifetime('gf', 'fmap(function, generator<T>)')
    def empty(ex):
        C, st, o = mk(ex, 'gt'); F = lambda k: mod.funcs['gt_' + k]; x = ex.new_region(st, 'x', const(ex, mod, 'gt_size')); it = ex.new_region(st, 'it', const(ex, mod, 'gt_isize'))
        st = rets(ex, ex.exec_fn(st, F('null'), [Ptr(x, 0)]))[0][0]
        for s, k, _ in ex.live(ex.exec_fn(st, F('begin'), [Ptr(x, 0), Ptr(it, 0)])):
            ex.prove(s, k == 'ret' and s.ghost['nres'] == 0, 'iterating an empty generator runs nothing')
            for s2, k2, v in ex.live(ex.exec_fn(s, F('eq0'), [Ptr(x, 0), Ptr(it, 0)])): ex.prove(s2, zb(v), 'an empty generator has no elements')
    V.check('empty generator', mod, empty)
    V.assume_note('the body yields, returns and throws arbitrarily (env_more/env_value); begin() is called once and an iterator at the end is not advanced (as the documentation of input iterators requires)', 'allocation of the frame succeeds')
