"""async_generator: the real promise, yield/begin/increment awaiters and iterator around the most general body"""
from .coro import *
from .C18 import opaqueT, held, live_frames, handle_ops, susp
from .C19 import same_gen
def verify(V):
    mod = V.module('agen.cpp', coro=True); hres = mod.funcs['hres']
    def mk(ex, n):
        C = Coro(ex, mod); C.op = opaqueT(ex, C); st = State(); C.start(st); st.ghost.update(turn=False, nres=0, vals=(), val=None)
        ex.contracts = [(re.compile(r'^vt::env_wait\('), lambda ex_, s, F, a, loc: C.mayth(ex_, s, fresh_bool('wait'), 'wait'))] + ex.contracts
        o = ex.new_region(st, 'gen', const(ex, mod, n + '_size')); ex.addr(o); C.obj = o
        C.on_body = lambda ex_, s, loc: ex_.prove(s, s.ghost['turn'], 'the body runs only while a consumer waits for an element', loc)
        outs = ex.live(ex.exec_fn(st, mod.funcs[n + '_body'], [Ptr(o, 0)]))
        if len(outs) != 1 or outs[0][1] != 'ret': raise ToolLimit('creating the coroutine has %d outcomes' % len(outs))
        return C, outs[0][0], o
    handle_ops(V, mod, 'gt', 'async_generator', lambda ex: mk(ex, 'gt'))
    def swap(ex):
        C, st, o = mk(ex, 'gt'); p = ex.new_region(st, 'p', const(ex, mod, 'gt_size')); st = rets(ex, ex.exec_fn(st, mod.funcs['gt_body'], [Ptr(p, 0)]))[0][0]
        h1, h2 = held(ex, st, o), held(ex, st, p)
        for s, k, _ in ex.live(ex.exec_fn(st, mod.funcs['gt_swap'], [Ptr(o, 0), Ptr(p, 0)])): ex.prove(s, And(k == 'ret', ex.eq(held(ex, s, o), h2), ex.eq(held(ex, s, p), h1)), 'swap exchanges the coroutines')
    V.check('swap', mod, swap)
    def lifetime(n, what):
        F = lambda k: mod.funcs[n + '_' + k]
        def life(ex):
            C, st, o = mk(ex, n); h = held(ex, st, o); it = ex.new_region(st, 'it', const(ex, mod, n + '_isize')); ex.addr(it)
            def destroy(s, when):
                outs = ex.live(ex.exec_fn(s, F('dtor'), [Ptr(o, 0)]))
                for s2, k, _ in outs:
                    ex.prove(s2, k == 'ret' and not live_frames(s2), 'destroying the generator %s destroys its frame exactly once' % when)
                    ex.prove(s2, s2.ghost['locals'] == 0 and s2.ghost['awaiters'] == 0, 'destroying the generator %s destroys the locals of its body' % when)
                return outs
            def ends(s, want, what):
                for f, w in (('eq0', want), ('eq1', want), ('ne0', not want), ('ne1', not want)):
                    for s2, k, v in ex.live(ex.exec_fn(s.clone(), F(f), [Ptr(o, 0), Ptr(it, 0)])): ex.prove(s2, And(k == 'ret', zb(v) if w else Not(zb(v))), what)
            ex.prove(st, susp(st, h) == 'suspended', 'a new generator is suspended'); destroy(st.clone(), 'that never ran')
            n_ = [0]
            def step(s0, op, prev, depth):
                """one co_await begin() / co_await ++it by some coroutine"""
                n_[0] += 1; b = 'b' if op == 'begin' else 'n'
                s0 = s0.clone(); s0.ghost['hresumed'] = (); aw = ex.new_region(s0, 'aw', const(ex, mod, n + '_%ssize' % b)); ex.addr(aw); cont = C.handle(s0, 'consumer%d' % n_[0])
                for s, k, _ in ex.live(ex.exec_fn(s0, F(op), [Ptr(aw, 0), Ptr(o if op == 'begin' else it, 0)])):
                    ex.prove(s, k == 'ret', 'asking for an element does not throw before it is awaited')
                    for s1, k, rd in ex.live(ex.exec_fn(s, F(b + 'ready'), [Ptr(aw, 0)])):
                        ex.prove(s1, Not(zb(rd)), 'the next element is not there before the body ran')
                        for s2, k, hh in ex.live(ex.exec_fn(s1, F(b + 'suspend'), [Ptr(aw, 0), cont])):
                            ex.prove(s2, And(k == 'ret', ex.eq(hh, h)), 'awaiting an element transfers control to exactly this generator')
                            ex.prove(s2, susp(s2, h) == 'suspended' and not s2.ghost['hresumed'], 'awaiting an element runs nothing by itself')
                            s2.ghost.update(turn=True, val=None, exc=None, hresumed=())
                            resumed(s2, aw, cont, b, prev, depth, None, 0)
            def resumed(s0, aw, cont, b, prev, depth, wprev, wd):
                def on_cons(ex_, s, hd, loc):
                    ex_.prove(s, ex_.eq(hd, cont), 'exactly the coroutine that awaits the element is resumed', loc)
                    ex_.prove(s, len(s.ghost['hresumed']) == 1, 'the consumer is resumed once per element', loc)
                    ex_.prove(s, susp(s, h) in ('suspended', 'done'), 'the generator is suspended while its consumer runs', loc)
                    s.ghost['turn'] = False; res = []
                    for s3, k, v in ex_.live(ex_.exec_fn(s, F(b + 'resume'), [Ptr(aw, 0), Ptr(it, 0)]), ('ret', 'throw')):
                        if s3.ghost['exc'] is not None:
                            ex_.prove(s3, k == 'throw' and same(v.tok, s3.ghost['exc']), 'an exception that leaves the body is rethrown to the consumer', loc); ex_.prove(s3, susp(s3, h) == 'done', 'the body is finished', loc)
                            if b == 'n': ends(s3, True, 'the iterator compares equal to the end after an exception')
                            res += destroy(s3, 'after an exception'); continue
                        ex_.prove(s3, k == 'ret', 'nothing is thrown unless an exception left the body', loc)
                        if k != 'ret': continue
                        if b == 'n': ex_.prove(s3, ex_.eq(v, Ptr(it, 0)), 'the await yields the iterator itself', loc)
                        if s3.ghost['val'] is None:
                            ex_.prove(s3, susp(s3, h) == 'done', 'the body has returned', loc); ends(s3, True, 'the iterator compares equal to the end exactly when the body returned'); res += destroy(s3, 'at the end'); continue
                        ex_.prove(s3, susp(s3, h) == 'suspended', 'the body waits at its yield', loc); ends(s3, False, 'the iterator does not compare equal to the end while there is an element')
                        for s4, k4, p in ex_.live(ex_.exec_fn(s3.clone(), F('deref'), [Ptr(it, 0)])):
                            p = p if isinstance(p, Ptr) else ex_.resolve(s4, p, '')[1] if isinstance(p, SPtr) else None
                            ex_.prove(s4, p is not None, 'the element exists', loc)
                            if p is not None: t = C.op.get(s4, p); ex_.prove(s4, t == s4.ghost['val'], 'the element is exactly the value that was yielded, still alive', loc)
                        s5 = s3.clone(); s3.ghost['vals'] = (s3.ghost['val'], cont.t)
                        res += [(x, 'ret', None) for x, _, _ in destroy(s5, 'with an element pending')]; res.append((s3, 'ret', None))
                    return [(x[0], 'ret', None) for x in res]
                C.on_hresume = on_cons
                for s3, k, _ in ex.live(ex.exec_fn(s0, hres, [h])):
                    ex.prove(s3, k == 'ret', 'no exception leaves the generator through resume()')
                    if not s3.ghost['hresumed']:
                        ex.prove(s3, susp(s3, h) == 'suspended' and s3.ghost['awaiters'] == 1, 'control comes back without resuming the consumer only while the body is suspended in an await')
                        ex.prove(s3, ex.eq(s3.ghost['env_h'], h), 'an await inside the body suspends this generator')
                        destroy(s3.clone(), 'suspended in an await')
                        s3.ghost['vals'] = (cont.t,)
                        if wprev is not None and same_gen(ex, wprev, s3, [h]): continue
                        if wd > 3: raise ToolLimit('suspended states do not repeat')
                        resumed(s3, aw, cont, b, prev, depth, s3.clone(), wd + 1)
                        C.on_hresume = on_cons; continue
                    if susp(s3, h) != 'suspended': continue
                    if prev is not None and any(same_gen(ex, p, s3, [h]) for p in prev): continue
                    if depth > 4: raise ToolLimit('suspended states do not repeat')
                    if prev is not None: prev.append(s3.clone())
                    step(s3, 'inc', prev, depth + 1)
                    C.on_hresume = on_cons
            step(st, 'begin', [], 0)
        V.check(what, mod, life)
    lifetime('gt', 'async_generator<T>, temporaries yielded'); lifetime('gl', 'async_generator<T>, variables yielded'); lifetime('gc', 'async_generator<const T>')
    lifetime('gr', 'async_generator<T&>'); lifetime('gx', 'async_generator<T&&>')
    def empty(ex):
        C, st, o = mk(ex, 'gt'); F = lambda k: mod.funcs['gt_' + k]; x = ex.new_region(st, 'x', const(ex, mod, 'gt_size')); it = ex.new_region(st, 'it', const(ex, mod, 'gt_isize')); aw = ex.new_region(st, 'aw', const(ex, mod, 'gt_bsize'))
        st = rets(ex, ex.exec_fn(st, F('null'), [Ptr(x, 0)]))[0][0]
        st = rets(ex, ex.exec_fn(st, F('begin'), [Ptr(aw, 0), Ptr(x, 0)]))[0][0]
        for s, k, rd in ex.live(ex.exec_fn(st, F('bready'), [Ptr(aw, 0)])):
            ex.prove(s, zb(rd), 'an empty generator does not suspend its consumer')
            for s1, k1, _ in ex.live(ex.exec_fn(s, F('bresume'), [Ptr(aw, 0), Ptr(it, 0)])):
                for s2, k2, v in ex.live(ex.exec_fn(s1, F('eq0'), [Ptr(x, 0), Ptr(it, 0)])): ex.prove(s2, And(k1 == 'ret', zb(v)), 'an empty generator has no elements')
    V.check('empty async_generator', mod, empty)
    V.assume_note('the body awaits, yields, returns and throws arbitrarily; one element is awaited at a time, begin() once and an iterator at the end is not advanced (input iterator)', 'allocation of the frame succeeds')
