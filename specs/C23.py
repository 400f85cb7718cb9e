from .common import *
from .eventlib import run_closure
def verify(V):
    mod = V.module('simple.cpp')
    for p in ('dfd', 'dfc'):
        def setup(ex, null=None, ctor='ptr', p=p):
            st = State(); r = ex.new_region(st, 'defer', const(ex, mod, p + '_size'))
            st.ghost.update(inclosure=False, pushes=(), inline=0)
            D = addr_sym(ex, st, 'D', nonnull=(null is False))
            if null is True: st.assume(D.t == 0)
            ex.iface = lambda ex_, s, q: 'dispatcher' if same(q.t, D.t) else None
            def resume(ex_, s, h, loc):
                if s.ghost['inclosure'] is not False: s.ghost['inclosure'] = s.ghost['inclosure'] + [h]
                else: s.ghost['inline'] += 1
                return None
            ex.hooks['resume'] = resume
            def push(ex_, s, target, fn, loc):
                s2 = s.clone()
                hs = run_closure(ex_, s, fn, loc)
                s.ghost['pushes'] = s.ghost['pushes'] + ((target, tuple(hs)),)
                # the push may also fail; then it kept nothing
                s2.ghost['pushfail'] = True
                return [(s, 'ret', None), (s2, 'throw', Exc(None, fresh_int('exc')))]
            ex.vcall = lambda ex_, s, slot, args, loc: push(ex_, s, args[0], args[1], loc)
            ex.contracts = [(re.compile(r'^vt::CD::push'), lambda ex_, s, F, a, loc: push(ex_, s, a[0], a[1], loc))]
            outs = ex.exec_fn(st, mod.funcs['%s_%s' % (p, ctor)], [Ptr(r, 0), D])
            return [(o[0], r, D) for o in outs if ex.sat(o[0])]
        def ready(ex):
            for ctor in ('ptr', 'ref'):
                for s, r, D in setup(ex, null=None if ctor == 'ptr' else False, ctor=ctor):
                    for s2, k, v in ex.live(ex.exec_fn(s, mod.funcs[p + '_ready'], [Ptr(r, 0)])):
                        ex.prove(s2, zb(v) == (D.t == 0), 'defer suspends exactly if there is a dispatcher')
                        ex.prove(s2, not s2.ghost['pushes'] and not s2.ghost['inline'], 'await_ready queues and resumes nothing')
        V.check(p + '.await_ready', mod, ready)
        def susp(ex):
            for ctor in ('ptr', 'ref'):
                for s, r, D in setup(ex, null=False, ctor=ctor):
                    H = addr_sym(ex, s, 'H')
                    for s2, k, v in ex.live(ex.exec_fn(s, mod.funcs[p + '_suspend'], [Ptr(r, 0), H])):
                        g = s2.ghost
                        ex.prove(s2, g['inline'] == 0, 'the coroutine is not resumed inline')
                        if k == 'ret':
                            ex.prove(s2, not g.get('pushfail'), 'a failing push is reported to the coroutine')
                            ex.prove(s2, zb(v), 'the coroutine stays suspended after the push')
                            ex.prove(s2, len(g['pushes']) == 1, 'exactly one callback is queued')
                            if len(g['pushes']) == 1:
                                d, hs = g['pushes'][0]
                                ex.prove(s2, ex.eq(d, D), 'it is queued on the target dispatcher')
                                ex.prove(s2, len(hs) == 1 and ex.eq(hs[0], H), 'it resumes exactly this coroutine, once')
                        else:
                            ex.prove(s2, bool(g.get('pushfail')) and not g['pushes'], 'an exception leaves only if the push failed, and then the coroutine was not handed out')
        V.check(p + '.await_suspend', mod, susp)
        def res(ex):
            for s, r, D in setup(ex, null=None):
                for s2, k, v in ex.live(ex.exec_fn(s, mod.funcs[p + '_resume'], [Ptr(r, 0)])):
                    ex.prove(s2, k == 'ret' and not s2.ghost['pushes'] and not s2.ghost['inline'], 'await_resume does nothing')
        V.check(p + '.await_resume', mod, res)
    V.assume_note('push(std::function) of the target dispatcher: keeps the callback and runs it later, or throws and keeps nothing')
