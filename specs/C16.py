from .common import *
def verify(V):
    mod = V.module('simple.cpp')
    size = None
    def install(ex):
        def mv(ex_, st, F, a, loc):
            src = a[1]; tok = st.ghost.get('at_%r' % src, None)
            ex_.prove(st, tok is not None, 'the callback moved from is alive', loc)
            st.ghost['at_%r' % a[0]] = tok; st.event('move', tok); return None
        def dt(ex_, st, F, a, loc):
            tok = st.ghost.get('at_%r' % a[0], None)
            ex_.prove(st, tok is not None, 'a callback object is destroyed exactly once', loc)
            st.ghost['at_%r' % a[0]] = None; return None
        def cl(ex_, st, F, a, loc):
            tok = st.ghost.get('at_%r' % a[0], None)
            ex_.prove(st, tok is not None, 'the callback invoked is alive', loc)
            st.event('call', tok); return None
        ex.contracts = [(re.compile(r'^vt::Fn::Fn\(vt::Fn&&\)'), mv), (re.compile(r'^vt::Fn::~Fn'), dt), (re.compile(r'^vt::Fn::operator\(\)'), cl)]
    def made(ex, flag, one=False):
        """real constructor, then the guard in an arbitrary later state (any number of engage/disengage in between)"""
        st = State(); f = ex.new_region(st, 'f', 16); g = ex.new_region(st, 'guard', const(ex, mod, 'sg_size'))
        st.ghost['at_%r' % Ptr(f, 0)] = 'F'
        outs = ex.exec_fn(st, mod.funcs['sg_make1' if one else 'sg_make'], [Ptr(g, 0), Ptr(f, 0)] + ([] if one else [flag]))
        return outs, g, f
    def held(s, g): return [k for k, v in s.ghost.items() if k.startswith('at_&guard') and v == 'F']
    for one in (False, True):
        def ctor(ex, one=one):
            install(ex); b = True if one else fresh_bool('engaged')
            outs, g, f = made(ex, b, one)
            for s, k, v in rets(ex, outs):
                ex.prove(s, len(held(s, g)) == 1, 'the guard holds exactly the callback supplied')
                ex.prove(s, count(s.events, 'call') == 0, 'construction does not invoke the callback')
                for s2, k2, v2 in ex.exec_fn(s, mod.funcs['sg_is_engaged'], [Ptr(g, 0)]):
                    ex.prove(s2, zb(v2) == zb(b), 'a new guard is engaged as requested (by default engaged)')
        V.check('scope_guard.scope_guard' + ('(f)' if one else '(f,engaged)'), mod, ctor)
    def anystate(ex):
        install(ex)
        outs, g, f = made(ex, fresh_bool('engaged'))
        return [(s, g) for s, k, v in rets(ex, outs)]
    for op, want in (('sg_engage', True), ('sg_disengage', False)):
        def eng(ex, op=op, want=want):
            for s, g in anystate(ex):
                before = {o: c for o, c in s.mem[g.id].cells.items()}
                for s2, k, v in ex.live(ex.exec_fn(s, mod.funcs[op], [Ptr(g, 0)])):
                    ex.prove(s2, k == 'ret' and count(s2.events, 'call') == 0 and len(held(s2, g)) == 1, '%s keeps the callback and does not invoke it' % op[3:])
                    for s3, k3, v3 in ex.exec_fn(s2, mod.funcs['sg_is_engaged'], [Ptr(g, 0)]):
                        ex.prove(s3, zb(v3) == want, 'after %s the guard is %sengaged' % (op[3:], '' if want else 'not '))
        V.check('scope_guard.' + op[3:], mod, eng)
    def isen(ex):
        for s, g in anystate(ex):
            for s2, k, v in ex.live(ex.exec_fn(s, mod.funcs['sg_is_engaged'], [Ptr(g, 0)])):
                for s3, k3, v3 in ex.exec_fn(s2, mod.funcs['sg_is_engaged'], [Ptr(g, 0)]):
                    ex.prove(s3, zb(v3) == zb(v), 'is_engaged does not change the guard')
                ex.prove(s2, count(s2.events, 'call') == 0 and len(held(s2, g)) == 1, 'is_engaged does not invoke the callback')
    V.check('scope_guard.is_engaged', mod, isen)
    def dtor(ex):
        for s, g in anystate(ex):
            for s1, k, e in ex.exec_fn(s, mod.funcs['sg_is_engaged'], [Ptr(g, 0)]):
                for s2, k2, v2 in ex.live(ex.exec_fn(s1, mod.funcs['sg_dtor'], [Ptr(g, 0)])):
                    n = count(s2.events, 'call')
                    ex.prove(s2, n <= 1, 'the callback is invoked at most once')
                    ex.prove(s2, zb(e) == (n == 1), 'leaving the scope invokes the callback exactly if the guard is engaged')
                    ex.prove(s2, all(x[1] == 'F' for x in s2.events if x[0] == 'call'), 'the callback invoked is the one supplied')
                    ex.prove(s2, k2 == 'ret' and not held(s2, g), 'the callback object is destroyed with the guard')
    V.check('scope_guard.~scope_guard', mod, dtor)
    def fn(ex):
        for s, g in anystate(ex):
            h = held(s, g)[0]
            for w in ('sg_fn', 'sg_cfn'):
                for s2, k, v in ex.live(ex.exec_fn(s, mod.funcs[w], [Ptr(g, 0)])):
                    ex.prove(s2, isinstance(v, Ptr) and 'at_%r' % v == h, 'function() is the callback the guard will invoke')
    V.check('scope_guard.function', mod, fn)
    V.assume_note('the callback type is an opaque class: its move constructor, destructor and call operator are specified, not inspected; by static_assert its call does not throw',
                  'guards are verified from every state the constructors and engage/disengage can produce (the only members are the callback and the flag)')
