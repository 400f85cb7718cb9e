"""threadsafe_queue: every operation is one (or several, at most one effective) critical section(s) of its mutex;
the abstract state is the sequence of element tokens."""
from .lib import *
def verify(V):
    mod = V.module('tsq.cpp'); F = lambda n: mod.funcs[n]
    def setup(ex, nq=1):
        op = Opaque(ex, 'vt::T'); sq = Seqs(ex, op)
        st = State(); st.ghost['secs'] = []
        qs = []
        size = const(ex, mod, 'tq_size')
        # find mutex and container by running the constructor
        found = {}
        def learn_lock(ex_, s, p, loc): found['m'] = keyof(ex_, s, p)[1]
        r0 = ex.new_region(st, 'q', size)
        s0 = ex.exec_fn(st.clone(), F('tq_ctor'), [Ptr(r0, 0)])[0][0]
        cont = [int(k.split(':')[2]) for k in s0.ghost if k.startswith('seq:%d:' % r0.id) and k.endswith(':h')]
        if len(cont) != 1: raise ToolLimit('container not identified')
        ex.hooks['lock'] = learn_lock; ex.hooks['unlock'] = lambda *a: None
        sl = s0.clone(); v = ex.new_region(sl, 'v', 16); ex.put(sl, v, 0, 8, 5)
        ex.trial += 1; ex.exec_fn(sl, F('tq_push'), [Ptr(r0, 0), Ptr(v, 0)]); ex.trial -= 1
        if 'm' not in found: raise ToolLimit('no mutex is taken by push')
        mo = found['m']; co = cont[0]
        def guard(ex_, s, k, write, loc):
            if k[1] != co or k[0] not in s.ghost['queues']: return
            if k[0] in s.ghost['fresh']: return
            ex_.prove(s, (k[0], mo) in s.ghost.get('held', ()), 'the elements are only accessed with the mutex of the queue held', loc)
        sq.guard = guard
        def acq(ex_, s, k, loc):
            if k[1] == mo and k[0] in s.ghost['queues']:
                A, h, t = sq.init(s, (k[0], co), empty=False, name='q')
                i = z3.Int('i'); s.assume(z3.ForAll([i], z3.Implies(z3.And(i >= h, i < t), z3.Select(A, i) > 0), patterns=[z3.Select(A, i)]))
                s.ghost['pre%d' % k[0]] = (A, h, t)
        def rel(ex_, s, k, loc):
            if k[1] == mo and k[0] in s.ghost['queues']:
                post = sq.flush(s, (k[0], co))
                A, h, t = post; i = z3.Int('i')
                ex_.prove(s, z3.ForAll([i], z3.Implies(z3.And(i >= h, i < t), z3.Select(A, i) > 0), patterns=[z3.Select(A, i)]), 'every element in the queue holds a value (none was moved out and left)', loc)
                s.ghost['secs'] = s.ghost['secs'] + [(k[0], s.ghost['pre%d' % k[0]], post)]
        Locks(ex, acq, rel)
        st = State(); st.ghost['secs'] = []; st.ghost['fresh'] = (); st.ghost['queues'] = ()
        for i in range(nq):
            r = ex.new_region(st, 'q%d' % i, size); ex.addr(r)
            qs.append(r); st.ghost['queues'] += (r.id,)
        return st, qs, sq, op, co, mo
    def same_seq(a, b):
        i = z3.Int('i')
        return z3.And(a[1] == b[1], a[2] == b[2], z3.ForAll([i], z3.Implies(z3.And(i >= a[1], i < a[2]), z3.Select(a[0], i) == z3.Select(b[0], i))))
    def is_pop(pre, post, tok):
        i = z3.Int('i'); A, h, t = pre; B, g, u = post
        return z3.And(h < t, tok == z3.Select(A, h), u - g == t - h - 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < t - h - 1), z3.Select(B, g + i) == z3.Select(A, h + 1 + i))))
    def is_push(pre, post, tok):
        i = z3.Int('i'); A, h, t = pre; B, g, u = post
        return z3.And(u - g == t - h + 1, z3.Select(B, u - 1) == tok, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < t - h), z3.Select(B, g + i) == z3.Select(A, h + i))))
    def lin(ex, s, rel, name, noeff=True):
        """exactly one critical section performs the operation, the others change nothing"""
        secs = s.ghost['secs']
        alts = []
        for i, (q, a, b) in enumerate(secs):
            alts.append(And(rel(a, b), *[same_seq(x[1], x[2]) for j, x in enumerate(secs) if j != i]))
        ex.prove(s, Or(*alts) if alts else False, name)
    def none(ex, s, name): ex.prove(s, And(*[same_seq(a, b) for q, a, b in s.ghost['secs']]), name)
    def fin(ex, s): ex.prove(s, not s.ghost.get('held', ()), 'the queue is not left locked')
    def pop(ex):
        st, (q,), sq, op, co, mo = setup(ex); out = ex.new_region(st, 'out', 16)
        for s, k, v in ex.live(ex.exec_fn(st, F('tq_pop'), [Ptr(q, 0), Ptr(out, 0)])):
            fin(ex, s); ex.prove(s, k == 'ret', 'pop does not throw')
            for b in (True, False):
                c = zb(v) if b else z3.Not(zb(v))
                if not ex.sat(s, c): continue
                s2 = s.clone(); s2.assume(c)
                if b: lin(ex, s2, lambda x, y: is_pop(x, y, op.get(s2, Ptr(out, 0))), 'pop removes exactly the oldest element and returns it')
                else: lin(ex, s2, lambda x, y: And(same_seq(x, y), x[1] == x[2]), 'pop returns nothing only if the queue is empty at that moment, and changes nothing')
    V.check('threadsafe_queue.pop', mod, pop)
    for f in ('tq_push', 'tq_pushc', 'tq_empl', 'tq_emplm'):
        def push(ex, f=f):
            st, (q,), sq, op, co, mo = setup(ex); v = ex.new_region(st, 'v', 16); tok = z3.Int('tok'); st.assume(tok > 0); ex.put(st, v, 0, 8, tok)
            arg = z3.Int('x'); st.assume(z3.And(arg >= 0, arg < 2 ** 63))
            want = op.make(st, [arg]) if f == 'tq_empl' else tok
            for s, k, r in ex.live(ex.exec_fn(st, F(f), [Ptr(q, 0), arg if f == 'tq_empl' else Ptr(v, 0)])):
                fin(ex, s)
                if k == 'ret': lin(ex, s, lambda x, y: is_push(x, y, want), 'the element is appended exactly once, after all others')
                else: none(ex, s, 'an operation that fails changes nothing')
        V.check('threadsafe_queue.' + f[3:], mod, push)
    def ctor(ex):
        st, (q,), sq, op, co, mo = setup(ex); st.ghost['fresh'] = (q.id,)
        for s, k, v in rets(ex, ex.exec_fn(st, F('tq_ctor'), [Ptr(q, 0)])):
            A, h, t = sq.get(s, (q.id, co)); ex.prove(s, zi(h) == zi(t), 'a new queue is empty')
    V.check('threadsafe_queue.threadsafe_queue()', mod, ctor)
    for f in ('tq_copy', 'tq_move', 'tq_asgn', 'tq_masgn'):
        for self_ in ((False, True) if f.endswith('asgn') else (False,)):
            def cp(ex, f=f, self_=self_):
                st, (q, o), sq, op, co, mo = setup(ex, 2)
                if f in ('tq_copy', 'tq_move'): st.ghost['fresh'] = (q.id,)
                for s, k, v in ex.live(ex.exec_fn(st, F(f), [Ptr(q, 0), Ptr(q if self_ else o, 0)])):
                    fin(ex, s); secs = s.ghost['secs']
                    if self_: none(ex, s, 'self assignment changes nothing'); continue
                    so = [x for x in secs if x[0] == o.id]; sd = [x for x in secs if x[0] == q.id]
                    if k != 'ret':
                        ex.prove(s, And(*[same_seq(a, b) for _, a, b in so]), 'a failing transfer leaves the source unchanged'); continue
                    ex.prove(s, len(so) == 1, 'the elements are transferred in one critical section of the source')
                    if len(so) != 1: continue
                    _, a, b = so[0]
                    dst = sq.get(s, (q.id, co)) if f in ('tq_copy', 'tq_move') else (sd[-1][2] if sd else None)
                    ex.prove(s, dst is not None and same_seq_rel(a, dst), 'the target holds exactly the elements of the source, in order')
                    if f in ('tq_move', 'tq_masgn'): ex.prove(s, b[1] == b[2], 'a queue that was moved from is empty (no element is in both)')
                    else: ex.prove(s, same_seq(a, b), 'copying leaves the source unchanged')
                    if f.endswith('asgn'): ex.prove(s, len(sd) == 1, 'the target is replaced in one critical section')
            def same_seq_rel(a, b):
                i = z3.Int('i')
                return z3.And(a[2] - a[1] == b[2] - b[1], z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a[2] - a[1]), z3.Select(a[0], a[1] + i) == z3.Select(b[0], b[1] + i))))
            V.check('threadsafe_queue.' + f[3:] + (' self' if self_ else ''), mod, cp)
    V.assume_note('std::deque behaves as a sequence (push_back/copy may throw and then change nothing); std::mutex and std::lock as specified by the standard',
                  'the element type is opaque; its move does not throw')
