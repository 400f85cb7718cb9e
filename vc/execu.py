"""control flow, calls, loops"""
import re, z3, itertools
from .core import *
from . import ir as IR

class LoopCtx:
    """what a loop-invariant candidate may talk about"""
    __slots__ = ('fn', 'header', 'slots', 'st0', 'env0')

class Exec(Executor):
    def __init__(self, mod, **k):
        super().__init__(mod, **k)
        self.unroll = 0
        self.vcall = None; self.opaque_call = None
        self.stack = []
        self.max_depth = 80
        self.loop_hints = {}

    # -------------------------------------------------------------- running
    def loc(self, F, I):
        return I.text or '%s' % (F.dem[:60],)

    def val(self, st, env, o):
        if isinstance(o, IR.Ref):
            return env[o.id]
        return self.constval(st, o)

    def callees(self, F):
        """names of the functions called directly"""
        self.mod.load(F); out = []
        for b in F.body:
            for I in b.instrs:
                if I.op in ('call', 'invoke'):
                    c = I.x['callee']
                    if isinstance(c, IR.Const) and c.kind == 'func': out.append(c.val)
        return out
    def exec_fn(self, st, F, args):
        """execute body of F; returns [(state, kind, value)], kind in ret|throw|stop"""
        if F.decl: raise ToolLimit('no contract and no body for %s' % F.dem)
        self.mod.load(F) if F.mod is None else F.mod.load(F)
        if len(self.stack) > self.max_depth: raise ToolLimit('recursion too deep in %s' % F.dem)
        self.stack.append(F.dem)
        try:
            env = {}
            for i, a in enumerate(args): env[('a', i)] = a
            env['allocas'] = []
            outs, backs, exits = self.run_region(F, [(st, env, 0, None)], None, None)
            assert not backs and not exits
            res = []
            for (s, e, kind, v) in outs:
                for r in e['allocas']:
                    m = s.mem.get(r.id)
                    if m is not None: m.alive = False; m.cells = {}
                if kind == 'throw' and F.nounwind:
                    s.event('terminate', F.dem); res.append((s, 'stop', 'terminate'))
                else:
                    res.append((s, kind, v))
            return res
        finally:
            self.stack.pop()

    def run_region(self, F, items, stop, body):
        outs = []; backs = []; exits = []
        work = list(items)
        while work:
            st, env, bb, prev = work.pop()
            first = (prev == 'START')
            if not first:
                if stop is not None and bb == stop:
                    backs.append((st, env, prev)); continue
                if body is not None and bb not in body:
                    exits.append((st, env, bb, prev)); continue
                if bb in F.headers:
                    o, ex = self.handle_loop(F, st, env, bb, prev)
                    outs += o
                    # exits of the loop continue here
                    work += ex
                    continue
            try:
                self.run_block(F, st, env, bb, prev, work, outs)
            except Infeasible:
                continue
            self.stats['paths'] += 1
            if self.stats['paths'] > self.path_limit: raise ToolLimit('path limit')
        return outs, backs, exits

    def phis(self, F, st, env, bb, prev):
        """values of the phis of bb when entered from prev"""
        new = {}
        for I in F.body[bb].instrs:
            if I.op != 'phi': break
            for p, o in I.x:
                if p == prev: new[I.id] = self.val(st, env, o); break
        return new

    def run_block(self, F, st, env, bb, prev, work, outs, skip_phi=False):
        B = F.body[bb]
        if prev is not None and prev != 'START':
            new = self.phis(F, st, env, bb, prev)
            env.update(new)
        pend = [(st, env, 0)]
        while pend:
            st, env, k = pend.pop()
            try:
                self.run_instrs(F, B, st, env, k, pend, work, outs)
            except Infeasible:
                pass

    def run_instrs(self, F, B, st, env, k, pend, work, outs):
        while True:
            I = B.instrs[k]; k += 1
            op = I.op
            if op == 'phi': continue
            v = None
            if op == 'alloca':
                t = I.x; n = self.val(st, env, I.ops[0])
                if not isinstance(n, int): raise ToolLimit('dynamic alloca')
                r = self.new_region(st, 'loc_' + (I.name or 't'), t.size * n, 'stack', align=max(t.align, 16))
                env['allocas'] = env['allocas'] + [r]
                v = Ptr(r, 0)
            elif op == 'load':
                p = self.val(st, env, I.ops[0])
                if I.x != 'na':
                    r = self.atomic(st, p, 'load', I.ty, [], I.x, None, self.loc(F, I))
                    self.fork_vals(r, I, env, k, pend); return
                if isinstance(p, Ptr) and not isinstance(p.off, int):
                    alts = self.enum_off(st, p)
                    for s2, p2 in alts:
                        e2 = dict(env)
                        try: e2[I.id] = self.load(s2, p2, I.ty, self.loc(F, I))
                        except Infeasible: continue
                        pend.append((s2, e2, k))
                    return
                v = self.load(st, p, I.ty, self.loc(F, I))
            elif op == 'store':
                v0 = self.val(st, env, I.ops[0]); p = self.val(st, env, I.ops[1])
                if I.x != 'na':
                    r = self.atomic(st, p, 'store', I.ops[0].ty, [v0], I.x, None, self.loc(F, I))
                    self.fork_vals(r, None, env, k, pend); return
                self.store(st, p, v0, I.ops[0].ty, self.loc(F, I))
            elif op == 'getelementptr':
                b = self.val(st, env, I.ops[0])
                v = self.gep(b, I.x, [self.val(st, env, o) for o in I.ops[1:]])
            elif op in ('add', 'sub', 'mul', 'shl', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem', 'lshr', 'ashr'):
                v = self.binop(op, self.val(st, env, I.ops[0]), self.val(st, env, I.ops[1]), I.ty.width, I.x)
            elif op == 'icmp':
                v = self.icmp(I.x, self.val(st, env, I.ops[0]), self.val(st, env, I.ops[1]), I.ops[0].ty)
            elif op == 'br':
                if len(I.x) == 1:
                    work.append((st, env, I.x[0], B.idx)); return
                c = self.val(st, env, I.ops[0])
                if isinstance(c, int):
                    work.append((st, env, I.x[0] if c else I.x[1], B.idx)); return
                # LLVM: successor 0 = true
                self.fork(F, st, env, c, I, B, work); return
            elif op == 'switch':
                c = self.val(st, env, I.ops[0]); dfl, cases = I.x
                if isinstance(c, int):
                    for o, d in cases:
                        if self.constval(st, o) == c: work.append((st, env, d, B.idx)); break
                    else: work.append((st, env, dfl, B.idx))
                    return
                neg = []
                for o, d in cases:
                    q = self.eq(c, self.constval(st, o))
                    if q is False: continue
                    if self.sat(st, q):
                        s2 = st.clone(); s2.assume(q); work.append((s2, dict(env), d, B.idx))
                    neg.append(Not(q))
                if self.sat(st, *neg):
                    for q in neg: st.assume(q)
                    work.append((st, env, dfl, B.idx))
                return
            elif op == 'ret':
                outs.append((st, env, 'ret', self.val(st, env, I.ops[0]) if I.ops else None)); return
            elif op == 'unreachable':
                self.fail(st, 'no undefined behaviour: control never reaches an unreachable point (missing return etc.)', '%s %s' % (F.dem[:80], self.loc(F, I)))
                return
            elif op in ('call', 'invoke'):
                res = self.exec_call(F, st, env, I)
                if res is None:      # simple, no effect on control
                    if op == 'invoke': work.append((st, env, I.x['normal'], B.idx)); return
                    continue
                if op == 'call' and len(res) == 1 and res[0][1] == 'ret' and res[0][0] is st:
                    v = res[0][2]
                else:
                    for (s2, kind, rv) in res:
                        e2 = dict(env)
                        if kind == 'ret':
                            if I.ty.kind != 'void': e2[I.id] = rv
                            if op == 'call': pend.append((s2, e2, k))
                            else: work.append((s2, e2, I.x['normal'], B.idx))
                        elif kind == 'throw':
                            if op == 'invoke': s2.exc = rv; work.append((s2, e2, I.x['unwind'], B.idx))
                            else: outs.append((s2, e2, 'throw', rv))
                        else:
                            outs.append((s2, e2, kind, rv))
                    return
            elif op == 'landingpad':
                exc = st.exc
                clauses, cleanup = I.x
                res = self.landing(st, exc, clauses, cleanup)
                if len(res) == 1 and res[0][0] is st: v = res[0][1]
                else:
                    for s2, rv in res:
                        e2 = dict(env); e2[I.id] = rv; pend.append((s2, e2, k))
                    return
            elif op == 'resume':
                v0 = self.val(st, env, I.ops[0])
                e = v0[0] if isinstance(v0[0], Exc) else st.exc
                outs.append((st, env, 'throw', e)); return
            elif op in ('zext',):
                v = self.val(st, env, I.ops[0])
                if isinstance(v, bool): v = int(v)
                elif isz(v) and z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            elif op == 'sext':
                v = self.val(st, env, I.ops[0]); w0 = I.ops[0].ty.width; w1 = I.ty.width
                if w0 == 1: v = Ite(v, (1 << w1) - 1, 0) if not isinstance(v, int) else ((1 << w1) - 1 if v else 0)
                elif isinstance(v, int): v = v if v < 1 << (w0 - 1) else v + (1 << w1) - (1 << w0)
                else: v = z3.If(zi(v) < 1 << (w0 - 1), zi(v), zi(v) + ((1 << w1) - (1 << w0)))
            elif op == 'trunc':
                v = self.trunc(self.val(st, env, I.ops[0]), I.ty.width)
            elif op in ('ptrtoint', 'bitcast', 'freeze', 'addrspacecast'):
                v = self.val(st, env, I.ops[0])
            elif op == 'inttoptr':
                v = self.val(st, env, I.ops[0])
                if isz(v): v = SPtr(v)
            elif op == 'select':
                c = self.val(st, env, I.ops[0]); a = self.val(st, env, I.ops[1]); b = self.val(st, env, I.ops[2])
                if isinstance(c, int): v = a if c else b
                elif same(a, b): v = a
                elif I.ty.kind == 'int' and not isinstance(a, (Ptr, SPtr, FnPtr)) and not isinstance(b, (Ptr, SPtr, FnPtr)): v = Ite(c, a, b)
                else:
                    for cc, x in ((c, a), (Not(c), b)):
                        if self.sat(st, cc):
                            s2 = st.clone(); s2.assume(cc); e2 = dict(env); e2[I.id] = x; pend.append((s2, e2, k))
                    return
            elif op == 'extractvalue':
                v = self.val(st, env, I.ops[0])
                for i in I.x: v = v[i]
            elif op == 'insertvalue':
                def ins(a, ix, x):
                    a = list(a)
                    if len(ix) == 1: a[ix[0]] = x
                    else: a[ix[0]] = ins(a[ix[0]], ix[1:], x)
                    return a
                v = ins(self.val(st, env, I.ops[0]), I.x, self.val(st, env, I.ops[1]))
            elif op == 'cmpxchg':
                p, e, n = (self.val(st, env, o) for o in I.ops)
                r = self.atomic(st, p, 'cas', I.ops[1].ty, [e, n], I.x[0], (I.x[1], I.x[2]), self.loc(F, I))
                self.fork_vals(r, I, env, k, pend); return
            elif op == 'atomicrmw':
                p, x = (self.val(st, env, o) for o in I.ops)
                r = self.atomic(st, p, I.x[0], I.ops[1].ty, [x], I.x[1], None, self.loc(F, I))
                self.fork_vals(r, I, env, k, pend); return
            elif op == 'fence':
                st.event('fence', I.x); continue
            elif op in ('uitofp', 'sitofp', 'fptoui', 'fptosi', 'fadd', 'fmul', 'fdiv', 'fsub', 'fpext', 'fptrunc', 'fneg'):
                v = self.fresh_of(I.ty, 'fp')
            elif op == 'fcmp':
                v = fresh_bool('fcmp')
            else:
                raise ToolLimit('instruction %s in %s' % (op, F.dem))
            if I.ty.kind != 'void': env[I.id] = v

    def enum_off(self, st, p, limit=24):
        res = []; s = st
        seen = []
        for _ in range(limit):
            r, sol = self._solve(st.pc, [zi(p.off) != x for x in seen])
            if r == z3.unsat: break
            if r == z3.unknown: raise ToolLimit('offset enumeration')
            x = sol.model().eval(zi(p.off), model_completion=True).as_long()
            seen.append(x)
        else:
            raise ToolLimit('symbolic offset with many values')
        for x in seen:
            s2 = st.clone(); s2.assume(zi(p.off) == x); res.append((s2, Ptr(p.r, x)))
        return res

    def fork_vals(self, res, I, env, k, pend):
        for s2, v in res:
            e2 = dict(env)
            if I is not None and I.ty.kind != 'void': e2[I.id] = v
            pend.append((s2, e2, k))

    def fork(self, F, st, env, c, I, B, work):
        t = self.sat(st, c); f = self.sat(st, Not(c))
        if t and f:
            s2 = st.clone(); s2.assume(Not(c)); s2.trace = s2.trace + (self.loc(F, I) + ':F',)
            work.append((s2, dict(env), I.x[1], B.idx))
            st.assume(c); st.trace = st.trace + (self.loc(F, I) + ':T',)
            work.append((st, env, I.x[0], B.idx))
        elif t:
            work.append((st, env, I.x[0], B.idx))
        elif f:
            work.append((st, env, I.x[1], B.idx))

    # -------------------------------------------------------------- exceptions
    def typeid(self, name):
        if name not in self.typeids: self.typeids[name] = len(self.typeids) + 1
        return self.typeids[name]
    def landing(self, st, exc, clauses, cleanup):
        res = []; cur = st
        for c in clauses:
            if c.kind == 'null':
                res.append((cur, [exc, self.typeid(None)])); return res
            if c.kind in ('array', 'zero'):   # filter clause (exception specification)
                res.append((cur, [exc, 0])); return res
            tn = c.val
            if exc is not None and exc.type is not None:
                m = self.exc_matches(exc.type, tn)
                if m is True: res.append((cur, [exc, self.typeid(tn)])); return res
                if m is False: continue
            # unknown dynamic type: both
            s2 = cur.clone(); s2.assume(z3.Bool('exctype_%s_is_%s' % (exc.tok, tn)))
            if self.sat(s2): res.append((s2, [exc, self.typeid(tn)]))
            cur.assume(z3.Not(z3.Bool('exctype_%s_is_%s' % (exc.tok, tn))))
        if cleanup or True:
            res.append((cur, [exc, 0]))
        return res
    def exc_matches(self, t, cl):
        if t == cl: return True
        bases = getattr(self, 'exc_bases', {})
        if cl in bases.get(t, ()): return True
        if cl == '_ZTISt9exception' and (t.startswith('_ZTISt') or t.startswith('_ZTIN')): return None
        return False

    # -------------------------------------------------------------- calls
    def handler_for(self, F):
        key = (id(self.contracts), len(self.contracts))
        if key != getattr(self, '_mkey', None): self._mcache = {}; self._mkey = key; self._mkeep = self.contracts
        h = self._mcache.get(F.name, 0)
        if h == 0:
            h = None
            for table in (self.contracts, self.models):
                for rx, fn in table:
                    if rx.search(F.dem): h = fn; break
                if h: break
            self._mcache[F.name] = h
        return h

    def exec_call(self, F, st, env, I):
        cal = I.x['callee']
        if isinstance(cal, IR.Const) and cal.kind == 'func':
            name = cal.val
            if name.startswith('llvm.'):
                args = None
                if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.coro.end')): return None
                args = [self.val(st, env, o) for o in I.ops]
                return self.intrinsic(F, st, name, args, I)
            args = [self.val(st, env, o) for o in I.ops]
            return self.call(st, self.mod.funcs[name], args, self.loc(F, I), I)
        if isinstance(cal, IR.Const) and cal.kind in ('other',) or 'asm' in I.x:
            h = getattr(self, 'asm_handler', None)
            args = [self.val(st, env, o) for o in I.ops]
            if h: return h(self, st, cal.val, args, I)
            if 'pause' in str(cal.val) or str(cal.val).strip('"') == '': return None
            raise ToolLimit('inline asm ' + str(cal.val)[:60])
        fp = self.val(st, env, cal)
        args = [self.val(st, env, o) for o in I.ops]
        return self.call_ptr(st, fp, args, self.loc(F, I), I)

    def call_ptr(self, st, fp, args, loc, I=None):
        if isinstance(fp, FnPtr):
            return self.call(st, self.mod.funcs[fp.name], args, loc, I)
        if hasattr(fp, 'vc_call'): return fp.vc_call(self, st, args, loc)
        if isinstance(fp, Slot) and self.vcall is not None:
            return self.vcall(self, st, fp, args, loc)
        if isinstance(fp, SPtr) or isz(fp):
            if self.opaque_call is not None:
                r = self.opaque_call(self, st, fp, args, loc)
                if r is not None: return r
            # maybe provably equal to a known function
        if isinstance(fp, int) and fp == 0:
            self.fail(st, 'no call through a null function pointer', loc)
        raise ToolLimit('indirect call through %r at %s' % (fp, loc))

    def call(self, st, F, args, loc='', I=None):
        h = self.handler_for(F)
        if h is not None:
            self.used_models.add(F.dem.split('(')[0][:100])
            r = h(self, st, F, args, loc)
            if r is not NotImplemented:
                if r is None: return [(st, 'ret', None)]
                if isinstance(r, list): return r
                return [(st, 'ret', r)]
        if F.decl:
            if F.name in self.mod.aliases: raise ToolLimit('alias ' + F.name)
            raise ToolLimit('external function without contract: %s (%s)' % (F.dem, loc))
        if F.dem.startswith('asyncpp::') or 'asyncpp::' in F.dem.split('(')[0]: self.inlined.add(F.dem[:120])
        return self.exec_fn(st, F, args)

    def intrinsic(self, F, st, name, args, I):
        loc = self.loc(F, I)
        R = lambda v: [(st, 'ret', v)]
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, args[0], args[1], args[2], loc); return R(None)
        if name.startswith('llvm.memset'):
            d, v, n = args[0], args[1], args[2]
            if isinstance(d, Ptr) and v == 0 and isinstance(n, int):
                self.check_access(st, d, n, loc, True)
                o = 0
                while o < n:
                    w = 8 if n - o >= 8 and (d.off + o) % 8 == 0 else 1
                    self.put(st, d.r, d.off + o, w, 0); o += w
                return R(None)
            if isinstance(d, Ptr) and isinstance(n, int) and isinstance(v, int):
                self.check_access(st, d, n, loc, True)
                for o in range(n): self.put(st, d.r, d.off + o, 1, v)
                return R(None)
            raise ToolLimit('memset %r' % (args,))
        if name.startswith('llvm.expect'): return R(args[0])
        if 'pause' in name or name.startswith('llvm.aarch64.hint'): return R(None)
        if name.startswith('llvm.launder') or name.startswith('llvm.strip'): return R(args[0])
        if name.startswith('llvm.threadlocal.address'):
            p = args[0]
            return R(p)
        if name.startswith('llvm.eh.typeid.for'):
            o = I.ops[0]
            return R(self.typeid(o.val if o.kind != 'null' else None))
        if name.startswith('llvm.trap'):
            self.fail(st, 'no undefined behaviour: control never reaches a trap', loc); return []
        if name.startswith('llvm.umin') or name.startswith('llvm.umax') or name.startswith('llvm.smin') or name.startswith('llvm.smax'):
            c = self.icmp('ult' if name[5] == 'u' else 'slt', args[0], args[1], I.ty)
            a, b = (args[0], args[1]) if 'min' in name else (args[1], args[0])
            return R(Ite(c, a, b))
        if name.startswith(('llvm.uadd.with.overflow', 'llvm.usub.with.overflow', 'llvm.umul.with.overflow')):
            w = I.ops[0].ty.width; a, b = args
            op = name[6:9]
            if isinstance(a, int) and isinstance(b, int):
                x = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]; return R([x % (1 << w), not (0 <= x < (1 << w))])
            x = {'add': zi(a) + zi(b), 'sub': zi(a) - zi(b), 'mul': zi(a) * zi(b)}[op]
            ov = Or(x >= (1 << w), x < 0)
            return R([x % (1 << w), ov])
        if name.startswith('llvm.coro'):
            h = getattr(self, 'coro_handler', None)
            if h: return h(self, st, name, args, I)
        if name.startswith(('llvm.stacksave', 'llvm.stackrestore', 'llvm.donothing', 'llvm.prefetch', 'llvm.va_')): return R(0)
        if name.startswith('llvm.is.constant'): return R(False)
        raise ToolLimit('intrinsic ' + name)

    # -------------------------------------------------------------- atomics
    def atomic(self, st, p, kind, ty, ops, order, extra, loc):
        """-> [(state, value)]"""
        if isinstance(p, SPtr):
            k, x = self.resolve(st, p, loc)
            if k == 'reg': p = x
            elif k == 'fam' and hasattr(x, 'atomic'):
                return x.atomic(self, st, p.t, p.off, kind, ty, ops, order, extra, loc)
            else:
                self.fail(st, 'memory safety: dereferenced pointer refers to an object this code owns', loc + ' [%r]' % p)
        if not isinstance(p, Ptr): 
            if isinstance(p, int) and p == 0: self.fail(st, 'memory safety: no null dereference', loc); return []
            raise ToolLimit('atomic on %r' % (p,))
        self.in_atomic = kind
        try: self.check_access(st, p, ty.size, loc, kind != 'load')
        finally: self.in_atomic = None
        cell = st.shared.get((p.r.id, p.off))
        ops = [self.mem_form(o, ty) for o in ops]
        if cell is None:
            return self.atomic_private(st, p, kind, ty, ops, extra, loc)
        out = []
        weak = extra[1] if extra else False
        for s, cur in cell.observe(self, st, kind):
            try:
                if kind == 'load':
                    if hasattr(cell, 'on_load'): cell.on_load(self, s, cur, order, loc)
                    out.append((s, self.coerce(cur, ty)))
                elif kind == 'store':
                    cell.commit(self, s, cur, ops[0], order, loc, 'store'); out.append((s, None))
                elif kind == 'cas':
                    c = self.eqv(cur, ops[0], ty)
                    if c is not False and self.sat(s, c):
                        s2 = s.clone(); s2.assume(c)
                        try:
                            s3 = s2.clone()
                            cell.commit(self, s2, cur, ops[1], order, loc, 'cas')
                            out.append((s2, [self.coerce(ops[0] if isinstance(ops[0], (Ptr, FnPtr)) else cur, ty), True]))
                        except Infeasible: s3 = s3
                        if weak:
                            if hasattr(cell, 'on_load'): cell.on_load(self, s3, cur, extra[0], loc)
                            out.append((s3, [self.coerce(cur, ty), False]))
                    if c is not True and self.sat(s, Not(c)):
                        s.assume(Not(c))
                        if hasattr(cell, 'on_load'): cell.on_load(self, s, cur, extra[0], loc)
                        out.append((s, [self.coerce(cur, ty), False]))
                else:
                    new = ops[0] if kind == 'xchg' else self.rmw_val(kind, cur, ops[0], ty)
                    cell.commit(self, s, cur, new, order, loc, kind)
                    out.append((s, self.coerce(cur, ty)))
            except Infeasible:
                continue
        return out
    def mem_form(self, v, ty):
        if ty.kind == 'int' and ty.width == 8 and isinstance(v, bool): return int(v)
        return v
    def rmw_val(self, kind, cur, x, ty):
        if kind in ('add', 'sub', 'and', 'or', 'xor'): return self.binop(kind, cur, x, ty.width)
        raise ToolLimit('atomicrmw ' + kind)
    def atomic_private(self, st, p, kind, ty, ops, extra, loc):
        cur = self.raw_load(st, p, ty, loc)
        if kind == 'load': return [(st, cur)]
        if kind == 'store': self.raw_store(st, p, ops[0], ty, loc); return [(st, None)]
        if kind == 'cas':
            out = []
            c = self.eqv(cur, ops[0], ty)
            if c is not False and self.sat(st, c):
                s2 = st.clone(); s2.assume(c); self.raw_store(s2, p, ops[1], ty, loc); out.append((s2, [ops[0], True]))
                if extra[1] and not getattr(self, 'strong_cas', False):
                    s3 = st.clone(); s3.assume(c); out.append((s3, [cur, False]))
            if c is not True and self.sat(st, Not(c)):
                s3 = st.clone(); s3.assume(Not(c)); out.append((s3, [cur, False]))
            return out
        new = ops[0] if kind == 'xchg' else self.rmw_val(kind, cur, ops[0], ty)
        self.raw_store(st, p, new, ty, loc)
        return [(st, cur)]

    # -------------------------------------------------------------- loops
    def handle_loop(self, F, st0, env0, header, prev):
        body = F.headers[header]
        self.stats['loops'] += 1
        env_in = dict(env0); env_in.update(self.phis(F, st0, env0, header, prev))
        phis = [I for I in F.body[header].instrs if I.op == 'phi']
        if self.unroll:
            r = self.try_unroll(F, st0, env_in, header, body)
            if r is not None: return r
        modphi = set(); modcell = set(); modghost = set(); modfam = set(); evts = False
        dropped = set()
        # pointers that are a fixed location first and a symbolic record later (pointer to pointer walks): case split
        split = {}; sname = {I.id: 'phi%d' % n for n, I in enumerate(phis)}
        def first(I, v): return I.id in split and isinstance(v, Ptr) and same(v, env_in[I.id])
        def slots_of(s, e):
            e = dict(e); gone = []
            for I in phis:
                if I.id not in split: continue
                v = e[I.id]
                if first(I, v): gone.append(sname[I.id])
                elif isinstance(v, SPtr): e[I.id] = SPtr(v.t + (v.off - split[I.id]) if v.off != split[I.id] else v.t, split[I.id])
            return [x for x in self.slots(s, e, phis, modphi, modcell) if x[1] not in gone], gone
        def absent(nm, gone): return any(re.search(r'\b%s\b' % g, nm) for g in gone)
        fninfo = '%s loop@%s' % (F.dem[:70], F.body[header].name)
        for rnd in range(60):
            st = st0.clone(); env = dict(env_in)
            self.havoc(st, env, F, phis, modphi, modcell, modghost, evts)
            L = LoopCtx(); L.fn = F; L.header = header; L.st0 = st0; L.env0 = env_in
            heads = []
            for pick in itertools.product(*[(0, 1)] * len(split)):
                hs, he = (st.clone(), dict(env)) if split else (st, env)
                for c, (i, off) in zip(pick, split.items()): he[i] = SPtr(fresh_int('phi_split'), off) if c else env_in[i]
                heads.append((hs, he))
            heads.reverse(); names = []; hc = []
            for hs, he in heads:
                L.slots, _ = slots_of(hs, he); cs = self.candidates(hs, he, L, modghost); hc.append(dict(cs)); names += [nm for nm, c in cs if nm not in names]
            # initial validity
            init_st, init_env = st0, env_in
            live = []
            L0 = LoopCtx(); L0.fn = F; L0.header = header; L0.st0 = st0; L0.env0 = env_in
            L0.slots, gone0 = slots_of(st0, env_in)
            c0 = dict(self.candidates(st0, env_in, L0, modghost))
            for nm in names:
                if nm in dropped: continue
                if nm not in c0:
                    if absent(nm, gone0): live.append(nm)
                    continue
                if not self.valid(st0, c0[nm]): dropped.add(nm); continue
                live.append(nm)
            for (hs, he), cs in zip(heads, hc):
                for nm in live:
                    if nm in cs: hs.assume(cs[nm])
            if split: heads = [h for h in heads if self.sat(h[0])]
            ins = [(hs.clone(), dict(he)) for hs, he in heads]; s_in = ins[0][0]
            for hs, he in heads: hs.writes = set()
            self.trial += 1
            try:
                o, backs, ex = self.run_region(F, [(hs, he, header, 'START') for hs, he in heads], header, body)
            finally:
                self.trial -= 1
            # new modifications?
            changed = False
            for (bs, be, bp) in backs:
                nv = self.phis(F, bs, be, header, bp)
                for I in phis:
                    if I.id not in modphi and not self.same_sem(bs, nv[I.id], env_in[I.id]):
                        modphi.add(I.id); changed = True
                        if isinstance(env_in[I.id], Ptr) and isinstance(nv[I.id], SPtr) and len(split) < 2: split[I.id] = nv[I.id].off
                for (rid, off, sz) in (bs.writes or ()):
                    if rid not in st0.mem: continue
                    if (rid, off, sz) in modcell: continue
                    m0 = st0.mem[rid].cells.get(off); m1 = bs.mem[rid].cells.get(off) if rid in bs.mem else None
                    if m0 is not None and m1 is not None and m0[0] == m1[0] and self.same_sem(bs, m0[1], m1[1]): continue
                    if not bs.mem[rid].alive: continue
                    modcell.add((rid, off, sz)); changed = True
                for k in set(bs.ghost) | set(s_in.ghost):
                    if k in modghost: continue
                    if k not in s_in.ghost or k not in bs.ghost or not self.same_ghost(bs, bs.ghost[k], s_in.ghost[k]):
                        modghost.add(k); changed = True
                if not evts and len(bs.events) != len(s_in.events): evts = True; changed = True
                for rid in st0.mem:
                    if rid in bs.mem:
                        a, b = st0.mem[rid], bs.mem[rid]
                        if a.alive != b.alive or not same(a.own, b.own):
                            raise ToolLimit('loop changes ownership of object %d in %s' % (rid, fninfo))
            if changed: continue
            bad = False
            for (bs, be, bp) in backs:
                be2 = dict(be); be2.update(self.phis(F, bs, be, header, bp))
                Lb = LoopCtx(); Lb.fn = F; Lb.header = header; Lb.st0 = st0; Lb.env0 = env_in
                Lb.slots, goneb = slots_of(bs, be2)
                cb = dict(self.candidates(bs, be2, Lb, modghost))
                for nm in live:
                    if nm in dropped: continue
                    if nm not in cb and absent(nm, goneb): continue
                    if nm not in cb or not self.valid(bs, cb[nm]):
                        dropped.add(nm); bad = True
            if bad: continue
            break
        else:
            raise ToolLimit('loop invariant inference did not converge: ' + fninfo)
        # final pass in reporting mode
        self.stats['loopinv'] += len(live)
        if not self.trial:
            for nm in live:
                self.obls.setdefault('loop invariant preserved: ' + nm, {'n': 0, 'fail': 0, 'fn': self.cur})['n'] += max(1, len(backs)) + 1
                self.discharged['z3'] += max(1, len(backs)) + 1
        outer_w = st0.writes
        for hs, he in ins: hs.writes = set() if outer_w is not None else None
        o, backs, ex = self.run_region(F, [(hs, he, header, 'START') for hs, he in ins], header, body)
        if not self.trial and self.silent(F, body):
            for (bs, be, bp) in backs:
                nv = self.phis(F, bs, be, header, bp); he = next((h for h in ins), None)[1]
                stuck = len(ins) == 1 and all(self.same_sem(bs, nv[I.id], he[I.id]) for I in phis)
                self.prove(bs, not stuck, 'the loop makes progress', fninfo)
        if self.loop_end_hook is not None and not self.trial:
            for (bs, be, bp) in backs: self.loop_end_hook(self, bs, F, header)
        # propagate writes to the enclosing loop
        def prop(s):
            if outer_w is not None:
                w = set(outer_w); w |= (s.writes or set()); w |= {c for c in modcell}
                s.writes = w
        for x in o: prop(x[0])
        for x in ex: prop(x[0])
        return o, ex
    loop_end_hook = None
    PURE = re.compile(r'^std::[\w:]*(queue|deque|vector|list|map|set|multiset|multimap|basic_string)<.*>::(empty|size|begin|end|cbegin|cend)\(|^llvm\.(dbg|lifetime|assume|experimental\.noalias)')
    def silent(self, F, body):
        """an iteration can neither write, nor observe or wait for anybody else: one that leaves the loop's variables as they are is repeated for ever"""
        for i in body:
            for I in F.body[i].instrs:
                if I.op in ('store', 'atomicrmw', 'cmpxchg', 'fence') or I.op == 'load' and I.x not in (None, 'na'): return False
                if I.op in ('call', 'invoke'):
                    c = I.x['callee']
                    if not (isinstance(c, IR.Const) and c.kind == 'func'): return False
                    f = self.mod.funcs.get(c.val)
                    if not self.PURE.match(getattr(f, 'dem', None) or c.val): return False
        return True

    def try_unroll(self, F, st0, env_in, header, body):
        items = [(st0.clone(), dict(env_in), header, 'START')]
        self.trial += 1
        try:
            n = 0
            while items and n <= self.unroll:
                o, backs, ex = self.run_region(F, items, header, body)
                items = []
                for (bs, be, bp) in backs:
                    be.update(self.phis(F, bs, be, header, bp)); items.append((bs, be, header, 'START'))
                n += 1
        finally:
            self.trial -= 1
        if items: return None
        outs = []; exs = []
        items = [(st0, env_in, header, 'START')]
        while items:
            o, backs, ex = self.run_region(F, items, header, body)
            outs += o; exs += ex; items = []
            for (bs, be, bp) in backs:
                be.update(self.phis(F, bs, be, header, bp)); items.append((bs, be, header, 'START'))
        return outs, exs

    def same_sem(self, st, a, b):
        if same(a, b): return True
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)): return False
        if isz(a) and z3.is_bool(a) or isz(b) and z3.is_bool(b) or isinstance(a, bool) or isinstance(b, bool):
            try: return self.valid(st, zb(a) == zb(b))
            except Exception: return False
        c = self.eq(a, b)
        return c is True or (c is not False and self.valid(st, c))
    def same_ghost(self, st, a, b):
        if same(a, b): return True
        if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
        if isz(a) and isz(b) and a.sort() == b.sort(): return self.valid(st, a == b)
        if isinstance(a, int) and isz(b) or isinstance(b, int) and isz(a):
            return self.valid(st, zi(a) == zi(b)) if not (isz(a) and z3.is_bool(a) or isz(b) and z3.is_bool(b)) else self.valid(st, zb(a) == zb(b))
        return a == b if type(a) == type(b) else False

    def havoc(self, st, env, F, phis, modphi, modcell, modghost, evts):
        for I in phis:
            if I.id in modphi: env[I.id] = self.fresh_of(I.ty, 'phi_' + re.sub(r'\W', '_', I.name or 'x'))
        for (rid, off, sz) in modcell:
            if rid in st.mem:
                c = st.mem[rid].cells
                old = c.get(off)
                for o in [o for o, (s, _) in c.items() if o < off + sz and o + s > off]: del c[o]
                t = fresh_int('cell%d' % off); self.axioms_range(t, 8 * sz)
                v = t
                if sz == 8 and old is not None and isinstance(old[1], (Ptr, SPtr, FnPtr)): v = SPtr(t)
                if sz == 1 and old is not None and (isinstance(old[1], int) and old[1] in (0, 1) or self.as_bool01(old[1]) is not None):
                    v = z3.If(fresh_bool('cellb'), z3.IntVal(1), z3.IntVal(0))
                c[off] = (sz, v)
        for k in modghost:
            v = st.ghost.get(k)
            hv = getattr(self, 'ghost_havoc', {}).get(k)
            if hv is not None: st.ghost[k] = hv(self, st); continue
            if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): st.ghost[k] = fresh_bool('g_' + k)
            elif isinstance(v, int) or (isz(v) and z3.is_int(v)): st.ghost[k] = fresh_int('g_' + k)
            elif isz(v): st.ghost[k] = z3.FreshConst(v.sort(), 'g_' + k)
            elif isinstance(v, SPtr): st.ghost[k] = SPtr(fresh_int('g_' + k))
            elif isinstance(v, str) or v is None: st.ghost[k] = None     # scratch value, unknown now
            else: raise ToolLimit('cannot havoc ghost %s=%r in loop' % (k, v))
        if evts: st.events = st.events + [('loop',)]

    def slots(self, st, env, phis, modphi, modcell):
        out = []
        for n, I in enumerate(phis):
            if I.id in modphi:
                out.append(('ptr' if I.ty.kind == 'ptr' else ('bool' if I.ty.kind == 'int' and I.ty.width == 1 else 'int'), 'phi%d' % n, env[I.id]))
        for (rid, off, sz) in sorted(modcell):
            if rid in st.mem and off in st.mem[rid].cells and st.mem[rid].cells[off][0] == sz:
                v = st.mem[rid].cells[off][1]
                out.append(('ptr' if isinstance(v, (Ptr, SPtr)) or sz == 8 else 'int', 'cell%d+%d' % (rid, off), v))
        return out

    def candidates(self, st, env, L, modghost):
        out = []
        for fn in self.loop_cands: out += fn(self, st, env, L) or []
        tm = []
        for fn in self.ptr_templates: tm += fn(self, st) or []
        tmi = []
        for fn in self.int_templates: tmi += fn(self, st) or []
        for kind, nm, v in L.slots:
            if kind == 'ptr' and isinstance(v, (Ptr, SPtr, int)) or (kind == 'ptr' and isz(v)):
                for tn, t in tm:
                    out.append(('%s is %s' % (nm, tn), self.to_int(v) == t))
            if isinstance(v, int) or (isz(v) and z3.is_int(v)):
                for tn, t in tmi: out.append(('%s is %s' % (nm, tn), zi(v) == t))
        return out

def outcomes_ret(outs): return [o for o in outs if o[1] == 'ret']
