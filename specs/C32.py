from .common import *
REPLAY_VARIANTS = [['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], ['-fsanitize=thread'],
                   ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DSO'], ['-fsanitize=thread', '-DSO']]
def verify(V):
    for flags in ((), ('-DASYNCPP_SO_COMPAT', '-DASYNCPP_SO_COMPAT_IMPL')):
        mod = V.module('simple.cpp', flags)
        tag = 'inline' if not flags else 'ASYNCPP_SO_COMPAT'
        def touched(ex, s): return [n for n, r in ex.globals.items()]
        def body(ex):
            for null in (True, False):
                st = State(); D = addr_sym(ex, st, 'D', False); E = addr_sym(ex, st, 'E', False)
                o1 = ex.live(ex.exec_fn(st, mod.funcs['dc_current'], []))
                for s, k, v in o1:
                    ex.prove(s, k == 'ret', 'reading does not fail')
                    o2 = ex.exec_fn(s, mod.funcs['dc_current'], [])
                    for s2, k2, v2 in o2:
                        ex.prove(s2, ex.eq(v, v2), 'reading the current dispatcher does not change it')
                        for s3, k3, v3 in ex.live(ex.exec_fn(s2, mod.funcs['dc_install'], [D])):
                            ex.prove(s3, ex.eq(v3, v), 'installing a dispatcher returns the one installed before')
                            for s4, k4, v4 in ex.live(ex.exec_fn(s3, mod.funcs['dc_current'], [])):
                                ex.prove(s4, ex.eq(v4, D), 'after installing, the current dispatcher is the installed one')
                            for s5, k5, v5 in ex.live(ex.exec_fn(s3, mod.funcs['dc_install'], [E])):
                                ex.prove(s5, ex.eq(v5, D), 'installs nest: the previous one is handed back')
                                for s6, k6, v6 in ex.live(ex.exec_fn(s5, mod.funcs['dc_install'], [v5])):
                                    for s7, k7, v7 in ex.exec_fn(s6, mod.funcs['dc_current'], []):
                                        ex.prove(s7, ex.eq(v7, D), 'restoring the previous dispatcher works')
                for n in touched(ex, st):
                    ex.prove(st, mod.is_tls(n), 'the current dispatcher is stored per thread')
                    ini = mod.raw_initializer(n)
                    ex.prove(st, ini in ('null', 'zero'), 'a new thread has no current dispatcher')
                ex.prove(st, len(touched(ex, st)) >= 1, 'the current dispatcher is stored')
        V.check('dispatcher::current (%s)' % tag, mod, body)
    V.assume_note('thread_local storage of the implementation gives each thread its own object')
