"""shared contracts: opaque value classes, sequence containers, mutexes"""
from .common import *
DEAD = -1; MOVED = -2

def keyof(ex, st, p, loc=''):
    if isinstance(p, SPtr):
        k, x = ex.resolve(st, p, loc)
        if k == 'reg': p = x
    if isinstance(p, Ptr) and isinstance(p.off, int): return (p.r.id, p.off)
    raise ToolLimit('object identity of %r' % (p,))

def method(dem):
    """demangled name -> (class incl. template arguments, method name, parameter text)"""
    # cut parameters
    d = 0; i = len(dem) - 1
    end = dem.rfind(')')
    j = end; d = 0
    while j >= 0:
        c = dem[j]
        if c == ')': d += 1
        if c == '(':
            d -= 1
            if d == 0: break
        j -= 1
    params = dem[j + 1:end]; head = dem[:j]
    if 'operator()' in head + '(' and head.endswith('operator'): head += '()'
    # last '::' at depth 0
    d = 0; k = len(head)
    op = re.search(r'operator(\W+| bool)$', head)
    lim = op.start() if op else len(head)
    i = lim - 1; cut = -1
    while i > 0:
        c = head[i]
        if c == '>': d += 1
        elif c == '<': d -= 1
        elif c == ':' and d == 0 and head[i - 1] == ':': cut = i - 1; break
        elif c == ' ' and d == 0: break
        i -= 1
    if cut < 0: return None, head, params
    name = head[cut + 2:]
    # class: from last space at depth 0 before cut
    i = cut - 1; d = 0
    while i >= 0:
        c = head[i]
        if c == '>': d += 1
        elif c == '<': d -= 1
        elif c == ' ' and d == 0: break
        i -= 1
    return head[i + 1:cut], name, params

class Opaque:
    """a class whose value is a token (an integer) kept in the first word of the object.
    empty: token of a default constructed object; moved: token left behind by a move (None: unspecified value MOVED)"""
    def __init__(self, ex, cls, empty=None, moved=MOVED, throws=(), call=None, other=None, dtor=None):
        self.ex = ex; self.cls = cls; self.empty = empty; self.moved = moved; self.throws = throws; self.call = call; self.other = other; self.ondtor = dtor
        base = re.sub(r'<.*', '', cls).split('::')[-1]; self.base = base
        esc = re.escape(cls)
        ex.contracts = ex.contracts + [(re.compile(r'^(?:.* )?%s::' % esc), self.handle)]
        ex.opaques = getattr(ex, 'opaques', {}); ex.opaques[cls] = self
    def get(self, st, p, loc=''):
        ex = self.ex
        v = ex.load(st, p, ex.mk_ptr(), loc)
        return ex.to_int(v) if not isinstance(v, int) else z3.IntVal(v)
    def put(self, st, p, tok, loc=''):
        ex = self.ex
        if isinstance(p, SPtr):
            k, x = ex.resolve(st, p, loc)
            if k == 'reg': p = x
            elif k == 'fam': x.store(ex, st, p.t, p.off, tok, ex.mk_ptr(), loc); return
        if not isinstance(p, Ptr): raise ToolLimit('object at %r' % (p,))
        ex.check_access(st, p, 8, loc, True)
        if isinstance(p.off, int): 
            c = ex.getmem(st, p.r).cells
            for o in [o for o, (s, _) in c.items() if o < p.off + 8 and o + s > p.off]: del c[o]
            ex.put(st, p.r, p.off, 8, tok)
        else: raise ToolLimit('object at %r' % (p,))
    def live(self, st, tok, loc, what):
        self.ex.prove(st, tok != DEAD, 'a %s %s is alive' % (self.base, what), loc)
    def mayfail(self, st, name, outs):
        if name in self.throws:
            s2 = self.pre
            outs = outs + [(s2, 'throw', Exc(None, fresh_int('exc')))]
        return outs
    def thrown(self, pre):
        e = fresh_int('exc'); pre.assume(e > 0)
        if 'exc' in pre.ghost: pre.ghost['exc'] = e
        return [(pre, 'throw', Exc(None, e))]
    def handle(self, ex, st, F, a, loc):
        c, m, ps = method(F.dem)
        if c != self.cls: return NotImplemented
        self.F = F
        m0 = re.sub(r'<.*', '', m) if not m.startswith('operator') else m
        T = self.cls
        if m0 == self.base:
            if ps == '' : kind = 'default'
            elif re.fullmatch(re.escape(T) + r' ?&&', ps): kind = 'move'
            elif re.fullmatch(re.escape(T) + r' const ?&', ps): kind = 'copy'
            else: kind = 'other'
            pre = st.clone() if kind in self.throws else None
            if kind == 'default':
                t = self.empty
                if t is None: t = fresh_int('tok'); st.assume(t > 0)
                self.put(st, a[0], t, loc)
            elif kind in ('move', 'copy'):
                t = self.get(st, a[1], loc); self.live(st, t, loc, 'that is %s from' % ('moved' if kind == 'move' else 'copied'))
                self.put(st, a[0], t, loc)
                if kind == 'move': self.put(st, a[1], self.moved, loc)
                if hasattr(self, 'oncopy'): self.oncopy(ex, st, kind, t, loc)
            else:
                if self.other is not None:
                    r = self.other(ex, st, m, ps, a, loc)
                    if r is not NotImplemented: return r
                self.put(st, a[0], self.make(st, a[1:]), loc)
            return [(st, 'ret', None)] + (self.thrown(pre) if pre is not None else [])
        if m0.startswith('~'):
            t = self.get(st, a[0], loc); self.live(st, t, loc, 'that is destroyed')
            if self.ondtor: self.ondtor(ex, st, t, loc)
            self.put(st, a[0], DEAD, loc); return None
        if m0 == 'operator=':
            if re.fullmatch(re.escape(T) + r' ?&&', ps): kind = 'move'
            elif re.fullmatch(re.escape(T) + r' const ?&', ps): kind = 'copy'
            elif ps == 'std::nullptr_t' or ps == 'decltype(nullptr)':
                if self.ondtor: self.ondtor(ex, st, self.get(st, a[0], loc), loc)
                self.put(st, a[0], self.empty, loc); return a[0]
            else: kind = 'other'
            if kind == 'other':
                if self.other is not None:
                    r = self.other(ex, st, m, ps, a, loc)
                    if r is not NotImplemented: return r
                raise ToolLimit('assignment %s' % F.dem)
            pre = st.clone() if kind in self.throws else None
            t = self.get(st, a[1], loc); self.live(st, t, loc, 'that is assigned from')
            same_ = isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0] == a[1]
            if not same_:
                self.put(st, a[0], t, loc)
                if kind == 'move': self.put(st, a[1], self.moved, loc)
            return [(st, 'ret', a[0])] + (self.thrown(pre) if pre is not None else [])
        if m0 == 'swap':
            t1 = self.get(st, a[0], loc); t2 = self.get(st, a[1], loc); self.put(st, a[0], t2, loc); self.put(st, a[1], t1, loc); return None
        if m0 == 'operator bool':
            t = self.get(st, a[0], loc); self.live(st, t, loc, 'that is tested'); r = ex.simp(t != self.empty); return r
        if m0 == 'operator()' and self.call:
            t = self.get(st, a[0], loc); self.live(st, t, loc, 'that is invoked')
            return self.call(ex, st, t, a, loc)
        if self.other is not None:
            r = self.other(ex, st, m, ps, a, loc)
            if r is not NotImplemented: return r
        raise ToolLimit('no contract for %s' % F.dem)
    def make(self, st, args):
        v = args[0]; f = z3.Function('tok_' + re.sub(r'\W', '_', self.cls), z3.IntSort(), z3.IntSort())
        t = f(self.ex.to_int(v)); st.assume(t > 0); return t

class Seqs:
    """std::deque / std::vector / std::list with abstract sequence semantics: elements A[h..t-1]"""
    I = z3.IntSort()
    def __init__(self, ex, elem, classes=r'std::(deque|vector|list)<', guard=None, throws=True, elemsize=8):
        self.ex = ex; self.elem = elem; self.guard = guard; self.throws = throws; self.elemsize = elemsize
        ex.contracts = ex.contracts + [(re.compile(r'^(?:.* )?' + classes), self.handle)]
        self.hooks = {}
    def nm(self, k, f): return 'seq:%d:%d:%s' % (k[0], k[1], f)
    def has(self, st, k): return self.nm(k, 'h') in st.ghost
    def init(self, st, k, empty=True, name='s'):
        A = z3.FreshConst(z3.ArraySort(self.I, self.I), name); h = z3.IntVal(0) if empty else fresh_int(name + 'h'); t = h if empty else fresh_int(name + 't')
        if not empty: st.assume(h <= t)
        st.ghost.setdefault(self.nm(k, 'slots'), ())
        self.set(st, k, A, h, t); return A, h, t
    def set(self, st, k, A, h, t):
        st.setg(self.nm(k, 'A'), A); st.setg(self.nm(k, 'h'), h); st.setg(self.nm(k, 't'), t)
    def raw(self, st, k): return st.ghost[self.nm(k, 'A')], st.ghost[self.nm(k, 'h')], st.ghost[self.nm(k, 't')]
    def get(self, st, k):
        """value with the live element references written back"""
        if not self.has(st, k): raise ToolLimit('container at %s not constructed' % (k,))
        A, h, t = self.raw(st, k)
        for rid, idx in (st.ghost.get(self.nm(k, 'slots')) or ()):
            m = st.mem.get(rid)
            if m is not None and m.alive and 0 in m.cells: A = z3.Store(A, idx, zi(m.cells[0][1]) if not isinstance(m.cells[0][1], (Ptr, SPtr)) else self.ex.to_int(m.cells[0][1]))
        return A, h, t
    def slot(self, st, k, idx):
        A, h, t = self.raw(st, k)
        ss = (st.ghost.get(self.nm(k, 'slots')) or ())
        for rid, i in ss:
            if self.ex.valid(st, zi(i) == zi(idx)) and st.mem[rid].alive: return Ptr(self.regs[rid], 0)
        A, h, t = self.get(st, k)
        r = self.ex.new_region(st, 'elem', self.elemsize, 'heap'); self.regs = getattr(self, 'regs', {}); self.regs[r.id] = r
        self.ex.put(st, r, 0, 8, z3.Select(A, idx))
        st.ghost[self.nm(k, 'slots')] = ss + ((r.id, idx),)
        return Ptr(r, 0)
    def flush(self, st, k, kill=True, only=None):
        """write references back and invalidate them"""
        A, h, t = self.get(st, k)
        keep = []
        for rid, idx in (st.ghost.get(self.nm(k, 'slots')) or ()):
            if only is not None and not self.ex.valid(st, zi(idx) == zi(only)): keep.append((rid, idx)); continue
            m = st.mem.get(rid)
            if kill and m is not None: m.alive = False; m.cells = {}
        st.ghost[self.nm(k, 'slots')] = tuple(keep)
        self.set(st, k, A, h, t)
        return A, h, t
    def token_in(self, st, a, ps, name, loc):
        ex = self.ex
        if self.elem == 'word':
            v = ex.load(st, a[0], ex.mk_ptr(), loc); return ex.to_int(v)
        cls = self.elem.cls
        if name.startswith('emplace') and not a: return zi(self.elem.empty)
        p0 = ps.strip()
        if p0.startswith(cls):
            t = self.elem.get(st, a[0], loc); self.elem.live(st, t, loc, 'that is put into the container')
            if p0.endswith('&&'): self.elem.put(st, a[0], self.elem.moved, loc)
            return t
        h = self.hooks.get('emplace')
        if h: return h(ex, st, a, ps, loc)
        v = ex.load(st, a[0], ex.mk_ptr(), loc) if ps.rstrip().endswith('&') else a[0]
        return self.elem.make(st, [v])
    def handle(self, ex, st, F, a, loc):
        c, m, ps = method(F.dem)
        if c is None: return NotImplemented
        self.F = F
        mm = re.match(r'std::(__cxx11::)?(deque|vector|list|queue)<', c)
        if not mm or mm.group(2) == 'queue': return NotImplemented
        kind = mm.group(2)
        if re.search(r'>::', c): return NotImplemented
        m0 = re.sub(r'<.*', '', m) if not m.startswith('operator') else m
        h = self.hooks.get(m0)
        k = keyof(ex, st, a[0], loc) if m0 != 'S_' else None
        if h:
            r = h(ex, st, k, a, ps, loc)
            if r is not NotImplemented: return r
        write = m0 not in ('empty', 'size', 'front', 'back', 'begin', 'end', 'cbegin', 'cend')
        if self.guard: self.guard(ex, st, k, write, loc)
        fail = lambda s: [(s, 'throw', Exc(None, fresh_int('exc')))] if self.throws else []
        if m0 == kind:
            if ps == '' or ps.startswith('std::allocator'): self.init(st, k); return None
            if ps.endswith('&&') :
                k2 = keyof(ex, st, a[1], loc); self.g2(ex, st, k2, loc); A, h_, t = self.flush(st, k2); self.set(st, k, A, h_, t); self.init(st, k2); return None
            if 'const&' in ps.replace(' ', '') and c.replace(' ', '') in ps.replace(' ', ''):
                k2 = keyof(ex, st, a[1], loc); self.g2(ex, st, k2, loc); s2 = st.clone(); A, h_, t = self.get(st, k2); self.set(st, k, A, h_, t); return [(st, 'ret', None)] + fail(s2)
            raise ToolLimit('no contract for ' + F.dem[:200])
        if m0.startswith('~'):
            A, h_, t = self.flush(st, k)
            if self.hooks.get('destroyed'): self.hooks['destroyed'](ex, st, k, A, h_, t, loc)
            for f in ('A', 'h', 't', 'slots'): st.ghost.pop(self.nm(k, f), None)
            return None
        if m0 == 'operator=':
            k2 = keyof(ex, st, a[1], loc); self.g2(ex, st, k2, loc)
            if k2 == k: return a[0]
            s2 = st.clone()
            A, h_, t = self.flush(st, k2); self.flush(st, k); self.set(st, k, A, h_, t)
            if ps.endswith('&&'): self.init(st, k2); return a[0]
            return [(st, 'ret', a[0])] + fail(s2)
        A, h_, t = self.get(st, k)
        if m0 == 'empty': return ex.simp(zi(h_) == zi(t))
        if m0 == 'size': return ex.simp(zi(t) - zi(h_)) if isz(t) or isz(h_) else t - h_
        if m0 in ('front', 'back', 'pop_front', 'pop_back'):
            ex.prove(st, zi(h_) < zi(t), 'no element is taken from an empty container', loc)
        if m0 == 'front': return self.slot(st, k, ex.simp(zi(h_) + 0))
        if m0 == 'back': return self.slot(st, k, ex.simp(zi(t) - 1))
        if m0 == 'pop_front':
            A, h_, t = self.flush(st, k, only=h_)
            if self.hooks.get('dropped'): self.hooks['dropped'](ex, st, k, z3.Select(A, h_), loc)
            self.set(st, k, A, ex.simp(zi(h_) + 1), t); return None
        if m0 == 'pop_back':
            A, h_, t = self.flush(st, k, only=zi(t) - 1)
            if self.hooks.get('dropped'): self.hooks['dropped'](ex, st, k, z3.Select(A, zi(t) - 1), loc)
            self.set(st, k, A, h_, ex.simp(zi(t) - 1)); return None
        if m0 in ('push_back', 'emplace_back'):
            s2 = st.clone()
            tok = self.token_in(st, a[1:], ps, m0, loc)
            A, h_, t = self.get(st, k)
            self.set(st, k, z3.Store(A, t, tok), h_, ex.simp(zi(t) + 1))
            if kind == 'vector': self.flush(st, k)
            if self.hooks.get('pushed'): self.hooks['pushed'](ex, st, k, tok, loc)
            ret = self.slot(st, k, zi(t)) if m0 == 'emplace_back' else None
            return [(st, 'ret', ret)] + fail(s2)
        if m0 in ('push_front', 'emplace_front'):
            s2 = st.clone(); tok = self.token_in(st, a[1:], ps, m0, loc); A, h_, t = self.get(st, k)
            self.set(st, k, z3.Store(A, zi(h_) - 1, tok), ex.simp(zi(h_) - 1), t)
            return [(st, 'ret', None)] + fail(s2)
        if m0 == 'clear':
            self.flush(st, k); self.set(st, k, A, t, t); return None
        if m0 == 'swap':
            k2 = keyof(ex, st, a[1], loc); self.g2(ex, st, k2, loc); x = self.flush(st, k); y = self.flush(st, k2); self.set(st, k, *y); self.set(st, k2, *x); return None
        if m0 == 'reserve' or m0 == 'shrink_to_fit': return [(st, 'ret', None)] + fail(st.clone())
        raise ToolLimit('no contract for ' + F.dem[:200])
    def g2(self, ex, st, k, loc):
        if self.guard: self.guard(ex, st, k, True, loc)

class Locks:
    """mutexes: acquire havocs what they protect (under the invariant), release proves the invariant"""
    def __init__(self, ex, acquire=None, release=None, nested=False):
        self.ex = ex; self.acquire = acquire; self.release = release; self.nested = nested
        ex.hooks['lock'] = self.lock; ex.hooks['unlock'] = self.unlock; ex.hooks['try_lock'] = self.try_lock
    def held(self, st): return st.ghost.get('held', ())
    def lock(self, ex, st, p, loc):
        k = keyof(ex, st, p, loc)
        ex.prove(st, k not in self.held(st), 'a thread does not lock a mutex it already holds', loc)
        st.ghost['held'] = self.held(st) + (k,)
        if self.acquire: 
            r = self.acquire(ex, st, k, loc)
            if r is not None: return r
        return None
    def try_lock(self, ex, st, p, loc):
        k = keyof(ex, st, p, loc); s2 = st.clone()
        ex.prove(st, k not in self.held(st), 'a thread does not lock a mutex it already holds', loc)
        st.ghost['held'] = self.held(st) + (k,)
        outs = [(st, 'ret', True)]
        if self.acquire:
            r = self.acquire(ex, st, k, loc)
            if r is not None: outs = [(x[0], 'ret', True) for x in r]
        return outs + [(s2, 'ret', False)]
    def unlock(self, ex, st, p, loc):
        k = keyof(ex, st, p, loc)
        ex.prove(st, k in self.held(st), 'only the thread that locked a mutex unlocks it', loc)
        r = None
        if self.release: r = self.release(ex, st, k, loc)
        for s in ([x[0] for x in r] if r is not None else [st]):
            s.ghost['held'] = tuple(x for x in self.held(s) if x != k)
        return r

class Closures:
    """callables put into std::function: the real constructor (or assignment) runs on a scratch object, which is kept;
    invoking means calling the stored invoker on a copy of it"""
    def __init__(self): self.c = {}
    def mk(self, fo, ex, st, m, ps, a, loc):
        """an Opaque's `other` for std::function: NotImplemented unless it is a construction from a callable"""
        if len(a) < 2 or not (m.startswith('function') or m.startswith('operator=')): return NotImplemented
        if '<' not in m: return NotImplemented
        F = fo.F
        if F.decl: raise ToolLimit('no body for %s' % F.dem[:120])
        box = ex.new_region(st, 'fn', 32); outs = []
        if m.startswith('operator='): 
            # assignment constructs a temporary and swaps
            return ex.exec_fn(st, F, list(a))
        for s, k, v in ex.exec_fn(st, F, [Ptr(box, 0)] + list(a[1:])):
            if k == 'ret':
                t = 10 ** 6 + len(self.c) + 1; cells = dict(s.mem[box.id].cells)
                if not isinstance(cells.get(24, (8, None))[1], FnPtr): raise ToolLimit('std::function: invoker not found')
                self.c[t] = cells; fo.put(s, a[0], z3.IntVal(t), loc)
            outs.append((s, k, None))
        return outs
    def find(self, ex, st, tok):
        tok = ex.simp(tok) if isz(tok) else tok
        return next((t for t in self.c if ex.valid(st, zi(tok) == t)), None)
    def run(self, ex, st, t, args, loc=''):
        cells = self.c[t]; box = ex.new_region(st, 'closure', 32); st.mem[box.id].cells.update(cells)
        return ex.call_ptr(st, cells[24][1], [Ptr(box, 0)] + list(args), loc)
