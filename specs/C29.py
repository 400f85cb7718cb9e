"""promise_allocator_base: operator new / operator delete of coroutine frames"""
from .lib import *
def verify(V):
    mod = V.module('alloc.cpp'); F = lambda n: mod.funcs[n]
    def setup(ex, cls):
        def alloc(ex_, st, F_, a, loc):
            tok = op.get(st, a[0], loc) if cls != 'vt::Z' else z3.IntVal(1)
            op.live(st, tok, loc, 'that allocates')
            r = ex_.new_region(st, 'frame', None, 'heap'); ex_.addr(r)
            st.ghost['allocs'] = st.ghost['allocs'] + ((r.id, tok, a[1]),); st.ghost['reg%d' % r.id] = r
            s2 = st.clone(); s2.ghost['allocs'] = s2.ghost['allocs'][:-1]; s2.ghost['failed'] = True
            return [(st, 'ret', Ptr(r, 0)), (s2, 'throw', Exc(None, fresh_int('exc')))]
        def dealloc(ex_, st, F_, a, loc):
            tok = op.get(st, a[0], loc) if cls != 'vt::Z' else z3.IntVal(1)
            ex_.prove(st, isinstance(a[1], Ptr) and same(a[1].off, 0) and a[1].r.name.startswith('frame'), 'the memory released is the block that was allocated', loc)
            rec = [x for x in st.ghost['allocs'] if x[0] == a[1].r.id]
            ex_.prove(st, len(rec) == 1, 'a frame is released exactly once', loc)
            ex_.prove(st, zi(a[2]) == zi(rec[0][2]), 'a frame is released with the size it was allocated with', loc)
            ex_.prove(st, tok == rec[0][1], 'a frame is released through an allocator equal to the one that allocated it', loc)
            ex_.prove(st, not [x for x in st.ghost['live'] if x[0] == a[1].r.id], 'the saved allocator is destroyed before its memory is released', loc)
            st.ghost['allocs'] = tuple(x for x in st.ghost['allocs'] if x[0] != a[1].r.id)
            ex_.getmem(st, a[1].r).alive = False
            return [(st, 'ret', None)]
        def other(ex_, st, m, ps, a, loc):
            return NotImplemented
        def ctor_hook(ex_, st, F_, a, loc):
            r = Opaque.handle(op, ex_, st, F_, a, loc)
            c, m, ps = method(F_.dem)
            base = re.sub(r'<.*', '', cls).split('::')[-1]
            if c == cls and isinstance(a[0], Ptr):
                if m == base: st.ghost['live'] = st.ghost['live'] + ((a[0].r.id, a[0].off),)
                if m.startswith('~'): 
                    ex_.prove(st, (a[0].r.id, a[0].off) in st.ghost['live'], 'only allocators that exist are destroyed', loc)
                    st.ghost['live'] = tuple(x for x in st.ghost['live'] if x != (a[0].r.id, a[0].off))
            return r
        ex.contracts = [(re.compile(r'^%s::allocate\(' % re.escape(cls)), alloc), (re.compile(r'^%s::deallocate\(' % re.escape(cls)), dealloc)]
        op = Opaque(ex, cls, empty=7777, moved=MOVED)
        ex.contracts = [(rx, h if h != op.handle else ctor_hook) for rx, h in ex.contracts]
        st = State(); st.ghost.update(allocs=(), live=())
        return st, op
    def run(cls, nm, newf, extra):
        def body(ex):
            st, op = setup(ex, cls); n = z3.Int('n'); st.assume(And(n >= 1, n < 2 ** 47))
            args = [n]; tok = z3.Int('tok'); st.assume(tok > 0)
            for e in extra:
                r = ex.new_region(st, e, 64); 
                if e == 'int': ex.put(st, r, 0, 4, 5)
                if e == 'other': ex.put(st, r, 0, 8, 4242)
                if e == 'alloc': ex.put(st, r, 0, 8, tok)
                if e != 'int': st.ghost['live'] += ((r.id, 0),)
                args.append(Ptr(r, 0))
            live0 = st.ghost['live']
            for s, k, p in ex.live(ex.exec_fn(st, F(newf), args)):
                if k != 'ret':
                    ex.prove(s, s.ghost.get('failed', False), 'an exception leaves only if the allocation failed'); ex.prove(s, s.ghost['live'] == live0, 'nothing is left behind'); continue
                ex.prove(s, len(s.ghost['allocs']) == 1, 'one block is allocated per frame')
                rid, atok, an = s.ghost['allocs'][0]; reg = s.ghost['reg%d' % rid]
                if 'alloc' in extra and cls != 'vt::A<8ul, true>': ex.prove(s, atok == tok, 'the frame comes from the allocator given as the last argument')
                ex.prove(s, isinstance(p, Ptr) and p.r is reg, 'the frame lies in the block that was allocated')
                if not isinstance(p, Ptr): continue
                ex.prove(s, And(zi(p.off) >= 0, zi(p.off) + n <= zi(an)), 'the frame is at least as large as requested')
                ex.prove(s, zi(p.off) % 16 == 0, 'the frame is aligned like the block it lies in')
                saved = [o for r_, o in s.ghost['live'] if r_ == rid]
                for o in saved: ex.prove(s, Or(zi(o) + const(ex, mod, nm + '_size') <= zi(p.off), zi(o) >= zi(p.off) + n), 'the frame does not overlap the saved allocator')
                # the coroutine writes its frame: anything inside [off, off+n) may change
                cells = s.mem[rid].cells
                for o in [o for o in cells if ex.valid(s, o + cells[o][0] > zi(p.off))]: del cells[o]
                ex.prove(s, set(s.ghost['live']) - {(rid, o) for o in saved} == set(live0), 'nothing else is left behind')
                # any other allocation state of the caller is gone by the time the frame is released
                for s2, k2, _ in ex.live(ex.exec_fn(s, F(nm + '_del'), [p, n])):
                    ex.prove(s2, k2 == 'ret', 'releasing a frame does not throw')
                    ex.prove(s2, not s2.ghost['allocs'], 'the frame is released')
                    ex.prove(s2, set(s2.ghost['live']) == set(live0), 'every saved allocator is destroyed')
        V.check('%s %s' % (cls, newf[-4:]), mod, body)
    for nm, cls in (('a8', 'vt::A<8ul, false>'), ('a16', 'vt::A<16ul, false>'), ('a24', 'vt::A<24ul, false>'), ('a33', 'vt::A<33ul, false>'), ('e8', 'vt::A<8ul, true>')):
        run(cls, nm, nm + '_new1', ['alloc']); run(cls, nm, nm + '_new3', ['int', 'other', 'alloc'])
    run('vt::Z', 'z', 'z_new0', []); run('vt::Z', 'z', 'z_new1', ['int'])
    def null(ex):
        for nm, cls in (('a8', 'vt::A<8ul, false>'), ('z', 'vt::Z')):
            st, op = setup(ex, cls)
            for s, k, v in ex.live(ex.exec_fn(st, F(nm + '_del'), [0, 5])):
                ex.prove(s, k == 'ret' and not s.ghost['allocs'], 'releasing null does nothing')
    V.check('operator delete(nullptr)', mod, null)
    V.assume_note('the allocator type is opaque: copies and moves of it are equal and do not throw; its blocks are aligned for any fundamental type', 'the frame size is below 2^47; operator delete is called with the size passed to operator new (coroutine ABI)')
