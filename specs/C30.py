from .common import *
def verify(V):
    mod = V.module('simple.cpp')
    fns = [(F, F.dem) for F in mod.funcs.values() if not F.decl and re.search(r'\bpt_(c?e?)(tag|untag|get)<', F.dem)]
    tags = {}; unt = {}; gets = []
    for F, d in fns:
        m = re.search(r'pt_(c?e?)tag<(\d+)ul, T<(\d+)ul>', d)
        if m: tags.setdefault(int(m.group(3)), []).append((m.group(1), int(m.group(2)), F)); continue
        m = re.search(r'pt_(c?e?)untag<T<(\d+)ul>', d)
        if m: unt.setdefault(int(m.group(2)), []).append((m.group(1), F)); continue
        m = re.search(r'pt_get<(.*?)>\(', d)
        if m: gets.append(([int(x) for x in re.findall(r'T<(\d+)ul>', m.group(1))], F))
    for A in sorted(tags):
        def body(ex, A=A):
            ex.prove(State(), len(tags[A]) == 4 * A and len(unt[A]) == 4, 'all tags below the alignment are covered')
            for c, ID, F in tags[A]:
                st = State(); p = z3.Int('p'); k = z3.Int('k'); st.assume(z3.And(p == k * A, p >= 0, p < 2 ** 64))
                for s, kk, v in ex.live(ex.exec_fn(st, F, [SPtr(p)])):
                    v = ex.to_int(v)
                    ex.prove(s, v == p + ID, 'tagging only adds the tag to an aligned pointer')
            for c, F in unt[A]:
                st = State(); p = z3.Int('p'); k = z3.Int('k'); t = z3.Int('t')
                st.assume(z3.And(p == k * A, p >= 0, p < 2 ** 64, t >= 0, t < A))
                r = ex.new_region(st, 'r', 8); q = ex.new_region(st, 'q', 8)
                for s, kk, v in ex.live(ex.exec_fn(st, F, [SPtr(p + t), Ptr(r, 0), Ptr(q, 0)])):
                    ex.prove(s, ex.to_int(s.mem[r.id].cells[0][1]) == p, 'untagging returns the pointer that was tagged')
                    ex.prove(s, ex.to_int(s.mem[q.id].cells[0][1]) == t, 'untagging returns the tag')
        V.check('ptr_tag/ptr_untag alignment %d' % A, mod, body)
    def get(ex):
        for al, F in gets:
            m = min(al); st = State(); p = z3.Int('p'); k = z3.Int('k'); t = z3.Int('t')
            st.assume(z3.And(p == k * m, p >= 0, p < 2 ** 64, t >= 0, t < m))
            for s, kk, v in ex.live(ex.exec_fn(st, F, [SPtr(p + t)])):
                ex.prove(s, ex.to_int(v) == t, 'ptr_get_tag returns the tag of any type set whose smallest alignment exceeds it')
    V.check('ptr_get_tag', mod, get)
    V.assume_note('templates are verified for alignments 1,2,4,8,16,64, every tag below the alignment and type sets of one to three of them; pointers are arbitrary 64-bit values')
