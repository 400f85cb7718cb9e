"""Verification-condition generator: symbolic execution of LLVM IR of the real code against contracts.

 * every function body is executed for *all* inputs (symbolic values, exact machine integers)
 * loops are cut at their header by invariants (candidates proved initially and inductively; Houdini)
 * calls: contract/model if one is registered for the callee, otherwise the callee's body is used
 * memory: concrete regions (objects whose identity is known) + families (sets of objects reached
   through pointers of unknown value; described by the data-structure invariant of the spec)
 * shared words: every atomic access first lets the environment act (observe = any value the
   invariant allows), every write is checked against the object's transition contract (commit)
 * obligations are discharged by z3 (cvc5 when z3 says unknown)
"""
import z3, time, re, os, itertools, sys
from . import ir as IR

sys.setrecursionlimit(20000)

class ToolLimit(Exception):
    pass

class Infeasible(Exception):
    pass

# ------------------------------------------------------------------ values
class Region:
    _n = itertools.count(1)
    __slots__ = ('id', 'name', 'size', 'kind', 'align', '_addr', 'meta')
    def __init__(self, name, size, kind='obj', align=16, meta=None):
        self.id = next(Region._n); self.name = name; self.size = size; self.kind = kind; self.align = align; self._addr = None
        self.meta = meta
    def __repr__(self): return '@%s' % self.name

class Ptr:
    __slots__ = ('r', 'off')
    def __init__(self, r, off=0): self.r = r; self.off = off
    def __eq__(self, o): return isinstance(o, Ptr) and o.r is self.r and same(o.off, self.off)
    def __hash__(self): return hash((self.r.id, str(self.off)))
    def __repr__(self): return '&%s+%s' % (self.r.name, self.off)

class SPtr:
    """pointer of symbolic value: term (z3 Int) + constant offset"""
    __slots__ = ('t', 'off')
    def __init__(self, t, off=0): self.t = t; self.off = off
    def __repr__(self): return 'sp(%s)+%s' % (self.t, self.off)

class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, FnPtr) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return 'fn:%s' % self.name

class Slot:
    """virtual table pointer / slot of an opaque object: cls is its static interface name"""
    __slots__ = ('obj', 'off', 'cls')
    def __init__(self, obj, off, cls): self.obj = obj; self.off = off; self.cls = cls
    def __repr__(self): return 'vtbl(%s)+%s' % (self.obj, self.off)

class Exc:
    """exception: type is a typeinfo global name or None (unknown user exception); tok identifies the object"""
    __slots__ = ('type', 'tok', 'obj')
    def __init__(self, type, tok, obj=None): self.type = type; self.tok = tok; self.obj = obj
    def __repr__(self): return 'exc(%s,%s)' % (self.type, self.tok)

_uniq = itertools.count(1)
def fresh_int(name='v'): return z3.Int('%s!%d' % (name, next(_uniq)))
def fresh_bool(name='b'): return z3.Bool('%s!%d' % (name, next(_uniq)))
def isz(v): return isinstance(v, z3.ExprRef)
def same(a, b):
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b)
    if isz(a) or isz(b): return False
    if isinstance(a, SPtr) and isinstance(b, SPtr): return same(a.t, b.t) and a.off == b.off
    if isinstance(a, Slot) and isinstance(b, Slot): return same(a.obj, b.obj) and a.off == b.off
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) != type(b) and not (isinstance(a, int) and isinstance(b, int)): return False
    return a == b
def zi(v):
    if isinstance(v, bool): return z3.IntVal(1 if v else 0)
    if isinstance(v, int): return z3.IntVal(v)
    return v
def zb(v):
    if isinstance(v, int): return z3.BoolVal(v != 0)
    if isz(v) and z3.is_int(v): return v != 0
    return v
def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs): return False
    if not xs: return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)
def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs): return True
    if not xs: return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)
def Not(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)
def Implies(a, b): return Or(Not(a), b)
def Ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a): return z3.If(c, zb(a), zb(b))
    return z3.If(c, zi(a), zi(b))

class RegMem:
    __slots__ = ('cells', 'alive', 'own', 'lazy')
    def __init__(self, lazy=None): self.cells = {}; self.alive = True; self.own = True; self.lazy = lazy
    def clone(self):
        m = RegMem(self.lazy); m.cells = dict(self.cells); m.alive = self.alive; m.own = self.own; return m

class State:
    def __init__(self):
        self.pc = []; self.mem = {}; self.ghost = {}; self.events = []; self.caught = []; self.writes = None; self.gwrites = None
        self.shared = {}; self.guards = {}; self.fams = []; self.trace = (); self.exc = None
    def clone(self):
        s = State.__new__(State)
        s.pc = list(self.pc); s.mem = {k: v.clone() for k, v in self.mem.items()}
        s.ghost = {k: (v.clone() if hasattr(v, 'clone') else (dict(v) if isinstance(v, dict) else (list(v) if isinstance(v, list) else v))) for k, v in self.ghost.items()}
        s.events = list(self.events); s.caught = list(self.caught); s.writes = self.writes; s.gwrites = self.gwrites
        s.shared = dict(self.shared); s.guards = dict(self.guards); s.fams = list(self.fams); s.trace = self.trace; s.exc = self.exc
        return s
    def assume(self, c):
        if c is True: return
        self.pc.append(zb(c))
    def setg(self, k, v):
        self.ghost[k] = v
    def event(self, *e): self.events.append(e)

class Obl:
    __slots__ = ('name', 'loc', 'ok', 'time', 'backend', 'detail', 'n')

SLOW = float(os.environ.get('VC_SLOW', '0'))
class Executor:
    def __init__(self, mod, timeout_ms=20000):
        self.mod = mod; self.contracts = []; self.models = []
        self.axioms = []; self.addr_regions = {}; self.addr_list = []; self._adcache = {}; self.stackids = set()
        self.trial = 0; self.obls = {}; self.nq = 0; self.tz3 = 0.0; self.tcvc5 = 0.0; self.timeout = timeout_ms
        self.discharged = {'z3': 0, 'cvc5': 0, 'syntactic': 0}
        self.failures = []; self.cur = '?'; self.assumptions = set(); self.inlined = set(); self.used_models = set()
        self.globals = {}; self.depth = 0; self.typeids = {}
        self.loop_cands = []      # fn(ex, st, env, L) -> list of (name, Bool)
        self.ptr_templates = []   # fn(ex, st) -> list of (name, int term)
        self.int_templates = []
        self._mcache = {}; self.qinst = {}; self._qcache = {}; self._qinstc = {}
        self.crosscheck = False; self.path_limit = 20000
        self.stats = {'paths': 0, 'loops': 0, 'loopinv': 0}
        self.smtlog = []
        self.on_access = None; self.iface = None; self.in_atomic = None

    # ---------------------------------------------------------------- solver
    def _solve(self, pc, extra):
        self.nq += 1
        t = time.time()
        s = z3.Solver(); s.set('timeout', self.timeout)
        for a in self.axioms: s.add(a)
        for p in pc: s.add(p)
        for e in extra: s.add(e)
        # the regions a query mentions are at distinct, aligned addresses
        ad = set()
        for p in pc: ad |= self._addrs(p)
        for p in extra: ad |= self._addrs(p)
        for p in self.axioms: ad |= self._addrs(p)
        for i in sorted(ad):
            for x in self.addr_regions[i][1]: s.add(x)
        if len(ad) > 1: s.add(z3.Distinct([self.addr_regions[i][0] for i in sorted(ad)]))
        if self.qinst: self._instantiate(s, pc, extra)
        r = s.check()
        self.tz3 += time.time() - t
        if SLOW and time.time() - t > SLOW:
            import sys, traceback
            print('SLOW %.1f %s trial=%d %s' % (time.time() - t, r, self.trial, str(extra)[:300].replace('\n', ' ')), ' < '.join(f.name for f in traceback.extract_stack()[-6:-1]), file=sys.stderr, flush=True)
        return r, s

    def _addrs(self, e):
        if not isz(e): return set()
        c = self._adcache.get(e.get_id())
        if c is None:
            seen = set(); out = set(); todo = [e]
            while todo:
                x = todo.pop(); i = x.get_id()
                if i in seen: continue
                seen.add(i)
                if i in self.addr_regions: out.add(i)
                todo.extend(x.children())
            c = self._adcache[e.get_id()] = (e, out)
        return c[1]
    def _qterms(self, e):
        """ground applications f(t), f registered in qinst, inside e"""
        c = self._qcache.get(e.get_id())
        if c is None:
            seen = set(); out = {}; todo = [e]
            while todo:
                x = todo.pop()
                if x.get_id() in seen or z3.is_quantifier(x): continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.num_args() == 1:
                        k = self.qinst.get(x.decl().name())
                        if k is not None: out[(k, x.arg(0).get_id())] = x.arg(0)
                    elif x.decl().kind() == z3.Z3_OP_SELECT:
                        ar = [x.arg(0)]
                        while ar:
                            y = ar.pop(); dk = y.decl().kind()
                            if dk == z3.Z3_OP_STORE: ar.append(y.arg(0))
                            elif dk == z3.Z3_OP_ITE: ar += [y.arg(1), y.arg(2)]
                            elif y.num_args() == 0 and y.decl().name() in self.qinst:
                                k = self.qinst[y.decl().name()]; out[(k, x.arg(1).get_id())] = x.arg(1)
                    todo.extend(x.children())
            c = self._qcache[e.get_id()] = (e, out, len(self.qinst))
        return c[1]
    def _instantiate(self, s, pc, extra):
        """axioms about all elements of a list, instantiated for every element a query mentions (sound: consequences of the axiom)"""
        done = set(); todo = list(pc) + list(extra) + list(self.axioms)
        while todo:
            e = todo.pop()
            for k, t in list(self._qterms(e).items()):
                if k in done: continue
                done.add(k); f = self._qinstc.get(k)
                if f is None: f = self._qinstc[k] = (k[0](t), t)
                s.add(f[0]); todo.append(f[0])

    def sat(self, st, *extra):
        """feasibility; unknown counts as feasible"""
        for e in extra:
            if e is False: return False
        ex = [zb(e) for e in extra if e is not True]
        r, s = self._solve(st.pc, ex)
        return r != z3.unsat

    def valid(self, st, c):
        if c is True: return True
        if c is False: return not self.sat(st)
        r, s = self._solve(st.pc, [z3.Not(zb(c))])
        if r == z3.unsat: return True
        if r == z3.unknown:
            return self._cvc5(s) == 'unsat'
        return False

    def _cvc5(self, s):
        t = time.time()
        try:
            import subprocess
            txt = '(set-logic ALL)\n' + s.to_smt2()
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % self.timeout, '--full-saturate-quant'], input=txt, capture_output=True, text=True)
            out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
        except Exception:
            out = 'unknown'
        self.tcvc5 += time.time() - t
        return out

    def prove(self, st, c, name, loc=''):
        """an obligation: under the path condition, c must hold"""
        if self.trial:
            if c is not True and c is not False: st.assume(c)
            elif c is False: raise Infeasible()
            return True
        key = name
        o = self.obls.setdefault(key, {'n': 0, 'fail': 0, 'fn': self.cur})
        o['n'] += 1
        if c is True:
            self.discharged['syntactic'] += 1; return True
        if c is False:
            r, s = self._solve(st.pc, [])
        else:
            r, s = self._solve(st.pc, [z3.Not(zb(c))])
        if r == z3.unsat:
            self.discharged['z3'] += 1
            if self.crosscheck:
                if self._cvc5(s) == 'unsat': self.discharged['cvc5'] += 1
            if c is not False: st.assume(c)
            return True
        if r == z3.unknown:
            if self._cvc5(s) == 'unsat':
                self.discharged['cvc5'] += 1
                if c is not False: st.assume(c)
                return True
            raise ToolLimit('solver gave no answer on obligation "%s" (%s) [%s]' % (name, loc, s.reason_unknown()))
        m = s.model()
        o['fail'] += 1
        self.failures.append(dict(obligation=name, loc=loc, fn=self.cur, model=self._model(m), trace=[str(x) for x in st.trace][-40:],
                                  events=[str(e) for e in st.events][-20:]))
        if c is not False: st.assume(c)
        else: raise Infeasible()
        return False

    def fail(self, st, name, loc=''):
        self.prove(st, False, name, loc)

    def _model(self, m):
        out = {}
        for d in m.decls():
            if d.arity() == 0:
                out[d.name()] = str(m[d])
        return dict(sorted(out.items())[:60])

    # ---------------------------------------------------------------- memory
    def new_region(self, st, name, size, kind='obj', lazy=None, align=16):
        r = Region(name, size, kind, align)
        if kind == 'stack': self.stackids.add(r.id)
        st.mem[r.id] = RegMem(lazy)
        return r

    def addr(self, r):
        if r._addr is None:
            r._addr = z3.Int('addr_%s_%d' % (re.sub(r'\W', '_', r.name), r.id))
            a = r._addr
            ax = [a > 0, a + (r.size if isinstance(r.size, int) else 0) < 2 ** 47]
            if r.align > 1: ax.append(a % r.align == 0)
            self.addr_regions[a.get_id()] = (a, ax); self.addr_list.append(r)
        return r._addr

    def to_int(self, v):
        if isinstance(v, Ptr):
            a = self.addr(v.r)
            return a if same(v.off, 0) else a + zi(v.off)
        if isinstance(v, SPtr): return v.t if v.off == 0 else v.t + v.off
        if isinstance(v, FnPtr): return z3.Int('fnaddr_' + v.name)
        if isinstance(v, Slot): return z3.Int('slot_%s_%s' % (v.obj, v.off))
        if isinstance(v, bool): return z3.IntVal(1 if v else 0)
        if isz(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return zi(v)

    def eq(self, a, b):
        """equality of two runtime values -> bool or z3 Bool"""
        if same(a, b): return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ptr) and isinstance(y, int) and y == 0: return False
            if isinstance(x, (FnPtr, Slot)) and isinstance(y, int) and y == 0: return False
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is not b.r: return False
            if isinstance(a.off, int) and isinstance(b.off, int): return a.off == b.off
        if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
        if isinstance(a, FnPtr) and isinstance(b, Ptr) or isinstance(a, Ptr) and isinstance(b, FnPtr): return False
        if isinstance(a, int) and isinstance(b, int): return int(a) == int(b)
        x, y = self.to_int(a), self.to_int(b)
        r = z3.simplify(x == y)
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return x == y

    def getmem(self, st, r):
        m = st.mem.get(r.id)
        if m is None:
            # global or foreign region first touched
            m = RegMem(); st.mem[r.id] = m
        return m

    def check_access(self, st, p, size, loc, write):
        m = self.getmem(st, p.r)
        if not m.alive:
            self.fail(st, 'memory safety: no access to a destroyed object', loc + ' [%r]' % p)
        if m.own is not True:
            if m.own is False:
                self.fail(st, 'ownership: object is not touched after it was handed over', loc + ' [%r]' % p)
            else:
                self.prove(st, m.own, 'ownership: object is not touched after it was handed over', loc + ' [%r]' % p)
        g = st.guards.get(p.r.id)
        if g is not None:
            g(self, st, p, size, write, loc)
        if self.on_access is not None: self.on_access(self, st, p, size, write, loc)

    def fresh_of(self, ty, name='u'):
        if ty.kind == 'ptr':
            t = fresh_int(name); self.axioms_range(t, 64); return SPtr(t)
        if ty.kind == 'int':
            if ty.width == 1: return fresh_bool(name)
            t = fresh_int(name); self.axioms_range(t, ty.width); return t
        if ty.kind == 'struct': return [self.fresh_of(f, name) for f in ty.fields]
        if ty.kind == 'array': return [self.fresh_of(ty.elem, name) for _ in range(ty.n)]
        if ty.kind in ('float', 'double', 'x86_fp80'): return fresh_int(name)
        raise ToolLimit('fresh value of type %r' % ty)

    def axioms_range(self, t, w):
        self.axioms.append(z3.And(t >= 0, t < 2 ** w))

    def resolve(self, st, p, loc, write=False):
        """symbolic pointer -> ('fam', fam) or ('reg', Ptr)"""
        for fam in st.fams:
            c = fam.owns(self, st, p.t)
            if c is True or (c is not False and self.valid(st, c)): return 'fam', fam
        for r in list(self.addr_list):
            if r.id in st.mem and self.valid(st, p.t == r._addr): return 'reg', Ptr(r, p.off)
        # one-off interior pointers
        for r in list(self.addr_list):
            if r.id in st.mem and isinstance(r.size, int) and self.sat(st, z3.And(p.t >= r._addr, p.t < r._addr + r.size)):
                for k in range(0, r.size, 8):
                    if self.valid(st, p.t == r._addr + k): return 'reg', Ptr(r, k + p.off)
        return None, None

    def load(self, st, p, ty, loc='', atomic=None):
        if isinstance(p, SPtr):
            k, x = self.resolve(st, p, loc)
            if k == 'fam': return x.load(self, st, p.t, p.off, ty, loc)
            if k == 'reg': return self.load(st, x, ty, loc, atomic)
            if p.off == 0 and ty.kind == 'ptr' and self.iface is not None:
                cls = self.iface(self, st, p)
                if cls:
                    self.prove(st, p.t != 0, 'memory safety: no call on a null object', loc)
                    return Slot(p, 0, cls)
            self.fail(st, 'memory safety: dereferenced pointer refers to an object this code owns', loc + ' [%r]' % p)
        if isinstance(p, int) and p == 0:
            self.fail(st, 'memory safety: no null dereference', loc)
        if isinstance(p, Slot):
            return Slot(p.obj, ('slot', p.off), p.cls)
        if not isinstance(p, Ptr): raise ToolLimit('load through %r at %s' % (p, loc))
        sh = st.shared.get((p.r.id, p.off)) if isinstance(p.off, int) else None
        if sh is not None and atomic is None and not getattr(sh, 'plain_ok', False):
            if getattr(sh, 'private', None) and sh.private(self, st): pass
            else: self.fail(st, 'data race: shared word accessed without an atomic operation', loc)
        self.check_access(st, p, ty.size, loc, False)
        return self.raw_load(st, p, ty, loc)

    def raw_load(self, st, p, ty, loc=''):
        if ty.kind == 'struct':
            return [self.raw_load(st, Ptr(p.r, p.off + o), f, loc) for o, f in zip(ty.offsets, ty.fields)]
        if ty.kind == 'array':
            return [self.raw_load(st, Ptr(p.r, p.off + i * ty.elem.size), ty.elem, loc) for i in range(ty.n)]
        m = self.getmem(st, p.r)
        if not isinstance(p.off, int): raise ToolLimit('load at symbolic offset %r' % (p.off,))
        size = ty.size
        c = m.cells.get(p.off)
        if c is not None and c[0] == size:
            v = c[1]
            return self.coerce(v, ty)
        # overlapping cells
        ov = [(o, s, v) for o, (s, v) in m.cells.items() if o < p.off + size and o + s > p.off]
        if ov:
            # integers: compose / slice
            if len(ov) == 1 and ov[0][0] <= p.off and ov[0][0] + ov[0][1] >= p.off + size and isinstance(ov[0][2], int):
                o, s, v = ov[0]
                return self.coerce((int(v) >> (8 * (p.off - o))) & ((1 << (8 * size)) - 1), ty)
            if all(o >= p.off and o + s <= p.off + size for o, s, v in ov):
                tot = 0; cov = 0
                for o, s, v in sorted(ov, key=lambda x: x[0]):
                    if isinstance(v, (Ptr, FnPtr, Slot)): raise ToolLimit('partial pointer load')
                    tot = tot + self.to_int(v) * (1 << (8 * (o - p.off))) if isz(tot) or not isinstance(v, int) else tot + int(v) * (1 << (8 * (o - p.off)))
                    cov += s
                if cov == size: return self.coerce(tot, ty)
                if size - cov > 0:
                    # padding bytes: unknown
                    u = fresh_int('pad'); self.axioms_range(u, 8 * size); return self.coerce(u, ty)
            o, s, v = ov[0]
            if len(ov) == 1 and o <= p.off and o + s >= p.off + size and isz(v) and not z3.is_bool(v):
                x = (v / (1 << (8 * (p.off - o)))) % (1 << (8 * size)) if p.off != o else v % (1 << (8 * size))
                return self.coerce(x, ty)
            raise ToolLimit('mixed-size load at %r size %d (%r) %s' % (p, size, ov, loc))
        v = None
        if m.lazy is not None: v = m.lazy(self, st, p, ty)
        if v is None: v = self.fresh_of(ty, re.sub(r'\W', '_', p.r.name) + '_%d' % p.off)
        m.cells[p.off] = (size, v)
        return v

    def coerce(self, v, ty):
        if ty.kind == 'ptr':
            if isz(v): return SPtr(v)
            return v
        if ty.kind == 'int':
            if isinstance(v, (Ptr, SPtr, FnPtr, Slot)):
                if ty.width == 64: return v if not isinstance(v, SPtr) else self.to_int(v)
                raise ToolLimit('pointer as i%d' % ty.width)
            if ty.width == 1: return self.trunc(v, 1)
        return v

    def store(self, st, p, v, ty, loc='', atomic=None):
        if isinstance(p, SPtr):
            k, x = self.resolve(st, p, loc, True)
            if k == 'fam': return x.store(self, st, p.t, p.off, v, ty, loc)
            if k == 'reg': return self.store(st, x, v, ty, loc, atomic)
            self.fail(st, 'memory safety: dereferenced pointer refers to an object this code owns', loc + ' [%r]' % p)
        if isinstance(p, int) and p == 0:
            self.fail(st, 'memory safety: no null dereference', loc)
        if not isinstance(p, Ptr): raise ToolLimit('store through %r' % (p,))
        sh = st.shared.get((p.r.id, p.off)) if isinstance(p.off, int) else None
        if sh is not None and atomic is None:
            if getattr(sh, 'private', None) and sh.private(self, st): pass
            else: self.fail(st, 'data race: shared word accessed without an atomic operation', loc)
        self.check_access(st, p, ty.size, loc, True)
        self.raw_store(st, p, v, ty, loc)

    def raw_store(self, st, p, v, ty, loc=''):
        if ty.kind == 'struct':
            for o, f, x in zip(ty.offsets, ty.fields, v): self.raw_store(st, Ptr(p.r, p.off + o), x, f, loc)
            return
        if ty.kind == 'array':
            for i, x in enumerate(v): self.raw_store(st, Ptr(p.r, p.off + i * ty.elem.size), x, ty.elem, loc)
            return
        if not isinstance(p.off, int): raise ToolLimit('store at symbolic offset')
        if ty.kind == 'int' and ty.width == 1: v = Ite(v, 1, 0) if not isinstance(v, int) else int(v)
        self.put(st, p.r, p.off, ty.size, v)

    def put(self, st, r, off, size, v):
        m = self.getmem(st, r)
        c = m.cells
        if not (off in c and c[off][0] == size):
            for o in [o for o, (s, _) in c.items() if o < off + size and o + s > off]:
                s, old = c[o]
                # keep the non-overlapped int parts
                del c[o]
                if isinstance(old, int) and not isinstance(old, bool):
                    for b in range(s):
                        if not (off <= o + b < off + size): c[o + b] = (1, (old >> (8 * b)) & 255)
                elif o < off or o + s > off + size:
                    # partial overwrite of a symbolic cell: remaining bytes unknown
                    for b in range(s):
                        if not (off <= o + b < off + size):
                            u = fresh_int('frag'); self.axioms_range(u, 8); c[o + b] = (1, u)
        c[off] = (size, v)
        if st.writes is not None: st.writes.add((r.id, off, size))

    def memcpy(self, st, d, s, n, loc):
        if n == 0: return
        if isinstance(n, int) and isinstance(s, SPtr):
            k, x = self.resolve(st, s, loc)
            if k == 'reg': s = x
            elif k == 'fam':
                for o in range(0, n, 8):
                    v = x.load(self, st, s.t, s.off + o, self.mk_int(64) if not hasattr(x, 'ptr_off') or (s.off + o) not in x.ptr_off else self.mk_ptr(), loc)
                    self.store_sz(st, d, o, 8, v, loc)
                return
        if isinstance(n, int) and isinstance(d, SPtr):
            k, x = self.resolve(st, d, loc)
            if k == 'reg': d = x
        if not (isinstance(d, Ptr) and isinstance(s, Ptr) and isinstance(n, int) and isinstance(d.off, int) and isinstance(s.off, int)):
            raise ToolLimit('memcpy %r %r %r at %s' % (d, s, n, loc))
        self.check_access(st, d, n, loc, True); self.check_access(st, s, n, loc, False)
        ms = self.getmem(st, s.r)
        cells = [(o, sz, v) for o, (sz, v) in ms.cells.items() if o >= s.off and o + sz <= s.off + n]
        strad = [(o, sz, v) for o, (sz, v) in ms.cells.items() if o < s.off + n and o + sz > s.off and not (o >= s.off and o + sz <= s.off + n)]
        cov = set()
        for o, sz, v in cells: cov.update(range(o, o + sz))
        # uncovered 8-aligned words become lazily created shared unknowns
        for o in range(s.off, s.off + n):
            if o in cov: continue
            w = 8 if o % 8 == 0 and all((o + k) not in cov for k in range(8)) and o + 8 <= s.off + n else 1
            if w == 8 and not strad:
                t = self.raw_load(st, Ptr(s.r, o), self.mk_ptr()); cells.append((o, 8, t)); cov.update(range(o, o + 8))
        md = self.getmem(st, d.r)
        for o in [o for o, (sz, _) in md.cells.items() if o < d.off + n and o + sz > d.off]:
            if o >= d.off and o + md.cells[o][0] <= d.off + n: del md.cells[o]
        for o, sz, v in cells: self.put(st, d.r, o - s.off + d.off, sz, v)

    def store_sz(self, st, d, o, sz, v, loc):
        if isinstance(d, Ptr): self.check_access(st, d, sz, loc, True); self.put(st, d.r, d.off + o, sz, v)
        else: raise ToolLimit('memcpy dest %r' % (d,))

    def mk_ptr(self):
        if not hasattr(self, '_tp'):
            t = IR.Type(); t.kind = 'ptr'; t.size = 8; t.align = 8; t.name = None; self._tp = t
        return self._tp
    def mk_int(self, w):
        k = '_ti%d' % w
        if not hasattr(self, k):
            t = IR.Type(); t.kind = 'int'; t.width = w; t.size = max(1, w // 8); t.align = t.size; t.name = None; setattr(self, k, t)
        return getattr(self, k)

    # convenience for specs
    def peek(self, st, r, off, size=8):
        m = self.getmem(st, r)
        c = m.cells.get(off)
        if c is not None and c[0] == size: return c[1]
        return self.raw_load(st, Ptr(r, off), self.mk_ptr() if size == 8 else self.mk_int(8 * size))
    def poke(self, st, r, off, v, size=8): self.put(st, r, off, size, v)

    # ---------------------------------------------------------------- globals
    def global_region(self, st, name):
        r = self.globals.get(name)
        if r is None:
            ini, ty = self.mod.initializer(name)
            r = Region('g:' + name, ty.size, 'global', max(ty.align, 1)); r.meta = (ini, ty)
            self.globals[name] = r
        if r.id not in st.mem:
            m = RegMem(); st.mem[r.id] = m
            ini, ty = r.meta
            if ini is not None:
                try: self.raw_store_const(st, r, 0, ini)
                except ToolLimit: pass
        return r
    def raw_store_const(self, st, r, off, c):
        ty = c.ty
        if c.kind in ('zero',):
            self.zero(st, r, off, ty); return
        if c.kind == 'struct':
            for o, x in zip(ty.offsets, c.ops): self.raw_store_const(st, r, off + o, x)
            return
        if c.kind == 'array':
            for i, x in enumerate(c.ops): self.raw_store_const(st, r, off + i * ty.elem.size, x)
            return
        w = st.writes; st.writes = None
        self.raw_store(st, Ptr(r, off), self.constval(st, c), ty)
        st.writes = w
    def zero(self, st, r, off, ty):
        if ty.kind == 'struct':
            for o, f in zip(ty.offsets, ty.fields): self.zero(st, r, off + o, f)
        elif ty.kind == 'array':
            for i in range(ty.n): self.zero(st, r, off + i * ty.elem.size, ty.elem)
        else:
            w = st.writes; st.writes = None
            self.put(st, r, off, ty.size, 0)
            st.writes = w

    def constval(self, st, c):
        k = c.kind
        if k == 'int': return bool(c.val) if c.ty.width == 1 else c.val
        if k == 'null': return 0
        if k == 'undef': return self.fresh_of(c.ty, 'undef')
        if k == 'zero':
            return self.zeroval(c.ty)
        if k == 'func': return FnPtr(c.val)
        if k == 'global': return Ptr(self.global_region(st, c.val), 0)
        if k in ('struct', 'array'): return [self.constval(st, o) for o in c.ops]
        if k == 'expr':
            if c.op == 'getelementptr':
                base = self.constval(st, c.ops[0]); idx = [self.constval(st, o) for o in c.ops[1:]]
                return self.gep(base, c.srcty, idx)
            if c.op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'): return self.constval(st, c.ops[0])
            a = [self.constval(st, o) for o in c.ops]
            if c.op in ('sub', 'add') and all(isinstance(x, Ptr) for x in a) and a[0].r is a[1].r: return a[0].off - a[1].off
            return self.binop(c.op, a[0], a[1], c.ty.width)
        if k == 'meta': return None
        if k == 'other' and c.ty.kind in ('float', 'double'): return z3.Int('fp_' + re.sub(r'\W', '_', c.val))
        raise ToolLimit('constant %r' % c)
    def zeroval(self, ty):
        if ty.kind == 'struct': return [self.zeroval(f) for f in ty.fields]
        if ty.kind == 'array': return [self.zeroval(ty.elem) for _ in range(ty.n)]
        if ty.kind == 'int' and ty.width == 1: return False
        return 0

    # ---------------------------------------------------------------- arithmetic (exact machine integers)
    def wrap(self, x, w, lo=None):
        M = 1 << w
        if isinstance(x, int): return x % M
        return z3.If(x >= M, x - M, z3.If(x < 0, x + M, x))
    def binop(self, op, a, b, w, flags=None):
        M = 1 << w
        if isinstance(a, bool) and w > 1: a = int(a)
        if isinstance(b, bool) and w > 1: b = int(b)
        if w == 1:
            a = bool(a) if isinstance(a, int) else a; b = bool(b) if isinstance(b, int) else b
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, bool): return Not(a) if b else a
                if isinstance(a, bool): return Not(b) if a else b
                return z3.Xor(a, b)
            raise ToolLimit('i1 op ' + op)
        # pointer arithmetic through integers
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub' and a.r is b.r: return (a.off - b.off) % M if isinstance(a.off, int) and isinstance(b.off, int) else a.off - b.off
        if isinstance(a, Ptr) and isinstance(b, int) and op in ('add', 'sub'):
            d = b if b < M // 2 else b - M
            return Ptr(a.r, a.off + d if op == 'add' else a.off - d)
        if isinstance(a, (Ptr, SPtr, FnPtr, Slot)): 
            if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and isinstance(a.off, int) and b < a.r.align and (b & (b + 1)) == 0:
                return a.off & b
            a = self.to_int(a)
        if isinstance(b, (Ptr, SPtr, FnPtr, Slot)): b = self.to_int(b)
        if isinstance(a, int) and isinstance(b, int):
            sa = a - M if a >= M // 2 else a; sb = b - M if b >= M // 2 else b
            if op == 'add': return (a + b) % M
            if op == 'sub': return (a - b) % M
            if op == 'mul': return (a * b) % M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) % M
            if op == 'lshr': return a >> b
            if op == 'ashr': return (sa >> b) % M
            if b != 0:
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                if op == 'sdiv': return int(abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)) % M
                if op == 'srem': return (abs(sa) % abs(sb) * (1 if sa >= 0 else -1)) % M
        if op == 'add':
            if isinstance(b, int) and b == 0: return a
            if isinstance(a, int) and a == 0: return b
            if isinstance(b, int) and b >= M // 2: return self.wrap(zi(a) - (M - b), w)
            return self.wrap(zi(a) + zi(b), w)
        if op == 'sub':
            if isinstance(b, int) and b == 0: return a
            return self.wrap(zi(a) - zi(b), w)
        if op == 'mul':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int) and x == 1: return y
                if isinstance(x, int) and x == 0: return 0
            return (zi(a) * zi(b)) % M
        if op == 'shl' and isinstance(b, int): return (zi(a) * (1 << b)) % M
        if op == 'lshr' and isinstance(b, int): return zi(a) / (1 << b)
        if op == 'udiv' and isinstance(b, int) and b > 0: return zi(a) / b
        if op == 'urem' and isinstance(b, int) and b > 0: return zi(a) % b
        if op == 'udiv': return zi(a) / zi(b)
        if op == 'urem': return zi(a) % zi(b)
        if op == 'ashr' and isinstance(b, int):
            a = zi(a); sa = z3.If(a >= M // 2, a - M, a)
            return (sa / (1 << b)) % M
        if op == 'sdiv' and isinstance(b, int) and 0 < b < M // 2:
            a = zi(a); sa = z3.If(a >= M // 2, a - M, a)
            return z3.If(sa >= 0, sa / b, -((-sa) / b)) % M
        if op in ('and', 'or', 'xor'):
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int): return self.bitconst(op, a, b, w)
            x = z3.BV2Int(self._bv(op, z3.Int2BV(zi(a), w), z3.Int2BV(zi(b), w)))
            return x
        if op in ('shl', 'lshr') :
            x = z3.Int2BV(zi(a), w); y = z3.Int2BV(zi(b), w)
            return z3.BV2Int(x << y if op == 'shl' else z3.LShR(x, y))
        raise ToolLimit('binop %s on %r,%r' % (op, a, b))
    def _bv(self, op, x, y): return x & y if op == 'and' else (x | y if op == 'or' else x ^ y)
    def bitconst(self, op, a, m, w):
        """bit operation with a constant mask, by contiguous bit groups (exact)"""
        M = 1 << w
        a = zi(a)
        if op == 'and':
            if m == M - 1: return a
            if m == 0: return 0
            return self._bitmask(a, m, w)
        if op == 'or':   # a | m = a - (a & m) + m
            if m == 0: return a
            return a - self._bitmask(a, m, w) + m
        # xor: a - (a&m) + (m - (a&m))
        if m == 0: return a
        x = self._bitmask(a, m, w)
        return a - 2 * x + m
    def _bitmask(self, a, m, w):
        tot = None; i = 0
        while i < w:
            if not (m >> i) & 1: i += 1; continue
            j = i
            while j < w and (m >> j) & 1: j += 1
            part = a
            if j < w: part = part % (1 << j)
            if i > 0: part = part - (part % (1 << i))
            tot = part if tot is None else tot + part
            i = j
        return tot if tot is not None else z3.IntVal(0)

    def icmp(self, pred, a, b, ty):
        if pred == 'eq': return self.eqv(a, b, ty)
        if pred == 'ne': return Not(self.eqv(a, b, ty))
        w = ty.width if ty.kind == 'int' else 64
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r: a, b = a.off, b.off
        a, b = (x if isinstance(x, int) else self.to_int(x) for x in (a, b))
        a, b = (int(x) if isinstance(x, bool) else x for x in (a, b))
        if pred[0] == 's':
            M = 1 << w
            def sg(x):
                if isinstance(x, int): return x - M if x >= M // 2 else x
                return z3.If(x >= M // 2, x - M, x)
            a, b = sg(a), sg(b)
        op = pred[1:]
        r = {'gt': lambda: a > b, 'ge': lambda: a >= b, 'lt': lambda: a < b, 'le': lambda: a <= b}[op]()
        if isz(r): r = self.simp(r)
        return r
    def eqv(self, a, b, ty):
        if ty.kind == 'int' and ty.width == 1:
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return bool(a) == bool(b)
            if isinstance(b, (bool, int)): return a if b else Not(a)
            if isinstance(a, (bool, int)): return b if a else Not(b)
            return a == b
        if isz(a) and isinstance(b, int) and not z3.is_bool(a):
            k = self.as_bool01(a)
            if k is not None and b in (0, 1): return k if b == 1 else Not(k)
        return self.eq(a, b)
    def as_bool01(self, a):
        """If(c,1,0) -> c"""
        if isz(a) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            x, y = a.arg(1), a.arg(2)
            if z3.is_int_value(x) and z3.is_int_value(y):
                if x.as_long() == 1 and y.as_long() == 0: return a.arg(0)
                if x.as_long() == 0 and y.as_long() == 1: return z3.Not(a.arg(0))
        return None
    def simp(self, r):
        r = z3.simplify(r)
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return r
    def trunc(self, v, w):
        if w == 1:
            if isinstance(v, bool): return v
            if isinstance(v, int): return bool(v & 1)
            if isz(v) and z3.is_bool(v): return v
            k = self.as_bool01(v)
            if k is not None: return k
            v = self.to_int(v)
            return self.simp(v % 2 == 1)
        if isinstance(v, int): return int(v) % (1 << w)
        if isinstance(v, (Ptr, SPtr, FnPtr)): v = self.to_int(v)
        return v % (1 << w)

    # ---------------------------------------------------------------- GEP
    def gep(self, base, ty, idx):
        off = 0; cur = ty
        for n, i in enumerate(idx):
            if n == 0: sc = ty.size
            elif cur.kind == 'struct':
                off = off + cur.offsets[i]; cur = cur.fields[i]; continue
            elif cur.kind == 'array': cur = cur.elem; sc = cur.size
            else: raise ToolLimit('gep into %r' % cur)
            if isinstance(i, bool): i = int(i)
            if isinstance(i, int):
                if i >= 2 ** 63: i -= 2 ** 64
                elif i >= 2 ** 31 and i < 2 ** 32 and n == 0: i = i - 2 ** 32 if i - 2 ** 32 > -4096 else i
                off = off + i * sc
            else:
                off = off + zi(i) * sc
        if isinstance(off, int) and off == 0: return base
        return self.padd(base, off)
    def padd(self, base, off):
        if isinstance(base, Ptr): return Ptr(base.r, base.off + off)
        if isinstance(base, SPtr):
            if isinstance(off, int): return SPtr(base.t, base.off + off)
            return SPtr(base.t + base.off + off, 0)
        if isinstance(base, Slot): return Slot(base.obj, base.off + off if isinstance(base.off, int) else ('x', base.off, off), base.cls)
        if isinstance(base, int): return (base + off) % 2 ** 64 if isinstance(off, int) else SPtr(base + off)
        raise ToolLimit('gep base %r' % (base,))
