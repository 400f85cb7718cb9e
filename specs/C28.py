from .lib import *
HB = 'asyncpp::detail::fiber_handle_base'; CTX = 'asyncpp::detail::fiber_context'; STK = 'asyncpp::detail::stack_context'
REPLAY_VARIANTS = [['-fsanitize=undefined', '-fno-sanitize-recover=all', '-DASYNCPP_HAS_VALGRIND=0'], ['-O1', '-DMOVEONLY', '-DASYNCPP_HAS_VALGRIND=0'], ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DMOVEONLY', '-DASYNCPP_HAS_VALGRIND=0'], ['-O2', '-DSAVE_TLS_STACK_PROTECTOR', '-fstack-protector-all', '-DASYNCPP_HAS_VALGRIND=0']]

# ---- the instructions of fiber_swap_stack, executed symbolically
class Machine:
    """registers and memory hold (symbol, offset) values; frames of different stacks and the slot for the stack pointer are disjoint (precondition)"""
    SAVED = ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15')
    def __init__(self, text):
        self.code = []
        for l in re.split(r'\\0A|\\0a|\n|;', text):
            l = re.sub(r'#.*', '', l).replace('\\09', ' ').strip()
            if l: self.code.append(l)
        self.n = 0
    def fresh(self, w='x'): self.n += 1; return ('%s!%d' % (w, self.n), 0)
    def addr(self, R, t):
        m = re.fullmatch(r'(-?(?:0x[0-9a-fA-F]+|\d+))?\(%(\w+)\)', t)
        if not m: raise ToolLimit('address ' + t)
        b, o = R[m.group(2)]; return (b, o + int(m.group(1) or '0', 0))
    def kill(self, M, a, n):
        for k in [k for k in M if k[0] == a[0] and k[1] < a[1] + n and k[1] + M[k][0] > a[1]]: del M[k]
    def wr(self, M, a, n, v, R):
        self.kill(M, a, n); M[a] = (n, v); self.writes.append((a, n, R['rsp'], self.phase))
    def rd(self, M, a, n):
        c = M.get(a)
        if c is None or c[0] != n:
            v = self.fresh('m%s%+d' % a); return v
        return c[1]
    def run(self, R, M):
        """-> final registers ('rip' is where execution continues)"""
        R = dict(R); self.writes = []; self.phase = 0
        def src(o, n=8):
            if o.startswith('%fs:'): return R.get('fs:%d' % int(o[4:], 0)) or self.fresh(o)
            if o.startswith('%'): return R[o[1:]]
            if o.startswith('$'): return ('', int(o[1:], 0))
            return self.rd(M, self.addr(R, o), n)
        def dst(o, v, n=8):
            if o.startswith('%fs:'):
                k = int(o[4:], 0)
                for q in [q for q in R if q.startswith('fs:') and abs(int(q[3:]) - k) < 8]: R[q] = self.fresh('tls')
                R['fs:%d' % k] = v
            elif o.startswith('%'):
                if o == '%rsp': self.phase = 1
                R[o[1:]] = v
            else: self.wr(M, self.addr(R, o), n, v, R)
        for l in self.code:
            m = re.fullmatch(r'(\w+)\s*(.*)', l); op = m.group(1); a = [x.strip() for x in re.split(r',(?![^()]*\))', m.group(2))] if m.group(2) else []
            if op in ('leaq', 'lea'): 
                v = self.addr(R, a[0]); R[a[1][1:]] = v
            elif op in ('movq', 'mov', 'movabsq'): dst(a[1], src(a[0]))
            elif op in ('pushq', 'push'):
                v = src(a[0]); b, o = R['rsp']; R['rsp'] = (b, o - 8); self.wr(M, R['rsp'], 8, v, R)
            elif op in ('popq', 'pop'):
                v = self.rd(M, R['rsp'], 8); b, o = R['rsp']; R['rsp'] = (b, o + 8); R[a[0][1:]] = v
            elif op in ('addq', 'add', 'subq', 'sub') and a[0].startswith('$'):
                k = int(a[0][1:], 0); b, o = R[a[1][1:]]; R[a[1][1:]] = (b, o + (k if op.startswith('add') else -k))
            elif op == 'stmxcsr': self.wr(M, self.addr(R, a[0]), 4, R['mxcsr'], R)
            elif op in ('fnstcw', 'fstcw'): self.wr(M, self.addr(R, a[0]), 2, R['x87'], R)
            elif op == 'ldmxcsr': R['mxcsr'] = self.rd(M, self.addr(R, a[0]), 4)
            elif op == 'fldcw': R['x87'] = self.rd(M, self.addr(R, a[0]), 2)
            elif op in ('nop', 'endbr64', 'fwait', 'wait'): pass
            elif op in ('ret', 'retq'):
                R['rip'] = self.rd(M, R['rsp'], 8); b, o = R['rsp']; R['rsp'] = (b, o + 8); return R
            elif op in ('jmp', 'jmpq') and a[0].startswith('*%'): R['rip'] = R[a[0][2:]]; return R
            else: raise ToolLimit('instruction ' + l)
        raise ToolLimit('fiber_swap_stack runs off its end')
def asm_text(mod):
    F = [f for f in mod.funcs.values() if f.dem.startswith('asyncpp::detail::fiber_swap_stack(')][0]
    mod.load(F)
    txt = [I.x['asm'] for b in F.body for I in b.instrs if I.op in ('call', 'invoke') and 'asm' in I.x]
    other = [I.op for b in F.body for I in b.instrs if not (I.op in ('call', 'invoke') and 'asm' in I.x) and I.op != 'unreachable']
    if len(txt) != 1 or other: raise ToolLimit('fiber_swap_stack is not a single block of assembler (%s)' % other)
    m = re.search(r'"((?:[^"\\]|\\.)*)"', txt[0]); return m.group(1).replace('$$', '$')
def context(n, guard):
    R = {r: ('%s%s' % (r, n), 0) for r in ('rax', 'rcx', 'rdx', 'r8', 'r9', 'r10', 'r11', 'mxcsr', 'x87') + Machine.SAVED}
    R['rsp'] = ('sp' + n, 0); R['fs:40'] = ('guard' + n if guard else 'guard', 0)
    return R

class StackMem:
    """memory of the stack being prepared: cells relative to its top"""
    def __init__(self, top, size): self.top = top; self.size = size
    def rel(self, ex, st, t, off):
        for d in (0, 8, 4, 16):
            if ex.valid(st, t == self.top - d): return off - d
        raise ToolLimit('stack address %s' % t)
    def owns(self, ex, st, t): return And(t <= self.top, t > self.top - self.size)
    def load(self, ex, st, t, off, ty, loc):
        c = st.ghost['stk'].get(self.rel(ex, st, t, off)); 
        if c is None or c[0] != ty.size: raise ToolLimit('read of the stack')
        return c[1]
    def put(self, ex, st, t, off, n, v, loc):
        k = self.rel(ex, st, t, off); d = dict(st.ghost['stk'])
        ex.prove(st, k + n <= 0 and -k <= 4096, 'memory safety: only the stack that was allocated is written', loc)
        for q in [q for q in d if q < k + n and q + d[q][0] > k]:
            z, x = d[q]
            if same(x, 0):
                for b in range(q, q + z):
                    if b < k or b >= k + n: d[b] = (1, 0)
            del d[q]
        d[k] = (n, v); st.ghost['stk'] = d
    def store(self, ex, st, t, off, v, ty, loc): self.put(ex, st, t, off, ty.size, v, loc)
def word(d, k, n):
    c = d.get(k)
    if c is not None and c[0] == n: return c[1]
    if all(any(q <= b < q + z and same(x, 0) for q, (z, x) in d.items()) for b in range(k, k + n)): return 0
    return None

class W:
    """a fiber and its surroundings"""
    def __init__(self, V, mod): 
        self.V = V; self.mod = mod
        lay = {n: o for o, d, t, n in mod.layouts[HB] if d == 1}; self.o = lay
        self.sp = {n: o for o, d, t, n in mod.layouts[CTX] if d == 1}['current_sp']
        self.so = {n: o for o, d, t, n in mod.layouts[STK] if d == 1}
        self.tls = [n for n in mod.globals if 'g_current_fiber' in n and mod.is_tls(n)][0]
        self.dti = [n for n in mod.globals if n.startswith('_ZTI') and 'fiber_destroy_requested_exception' in n][0]
    def setup(self, ex):
        self.ex = ex; st = State(); st.ghost.update(objs=0, ran=0, stack=None, swaps=0, side='main', sexc=0, hresumed=(), entry=None, life=0, want=None, dealloc=0, cbs=0, res=None, pub=False, strict=True)
        self.fn = Opaque(ex, 'vt::vfn', throws=('move', 'copy'), call=lambda e, s, t, a, l: self.body(s, l))
        self.tf = Opaque(ex, 'vt::tfn', throws=('move', 'copy')); self.T = Opaque(ex, 'vt::T', throws=('copy',))
        for q in (self.fn, self.tf, self.T):
            q.oncopy = lambda e, s, k, t, l: s.ghost.__setitem__('objs', s.ghost['objs'] + 1); q.ondtor = lambda e, s, t, l: s.ghost.__setitem__('objs', s.ghost['objs'] - 1)
        D = r'^(?:bool |void )?asyncpp::detail::'
        ex.contracts = [(re.compile(r'^vt::tfn::operator\(\)'), self.tbody), (re.compile(D + r'fiber_allocate_stack\('), self.alloc), (re.compile(D + r'fiber_deallocate_stack\('), self.dealloc),
            (re.compile(D + r'fiber_makecontext\('), self.makectx), (re.compile(D + r'fiber_swapcontext\('), self.swap), (re.compile(r'^std::uncaught_exceptions\(\)'), self.uncaught),
            (re.compile(r'^std::current_exception\(\)'), self.curexc), (re.compile(r'^vt::aw.::await_ready\('), self.aready), (re.compile(r'^vt::aw.::await_suspend\('), self.asuspend), (re.compile(r'^vt::aw.::await_resume\('), self.aresume)] + ex.contracts
        ex.opaque_call = self.handler; ex.hooks.update(resume=self.hresume); ex.loop_cands = [self.cands]; ex.ghost_havoc = {'sexc': lambda e, s: fresh_int('sexc')}
        intr = ex.intrinsic
        def intrinsic(F, s, name, args, I):
            if name.startswith('llvm.frameaddress'):
                p = addr_sym(ex, s, 'frame'); b = z3.Int('MMAP'); s.assume(And(p.t > b, p.t < b + z3.Int('MMAPN'))); return [(s, 'ret', p)]
            return intr(F, s, name, args, I)
        ex.intrinsic = intrinsic
        g = ex.global_region(st, self.tls); self.g = g
        self.old = addr_sym(ex, st, 'OUTER', nonnull=False); ex.poke(st, g, 0, self.old)
        return st
    def cur(self, s): return self.ex.peek(s, self.g, 0)
    def at(self, s, H, n, size=8, sub=0): return self.ex.peek(s, H, self.o[n] + sub, size)
    def set(self, s, H, n, v, size=8, sub=0): self.ex.put(s, H, self.o[n] + sub, size, v)
    def exc(self, st):
        e = fresh_int('exc'); st.assume(e > 0); return Exc(None, e)
    def cands(self, ex, st, env, L):
        H = getattr(self, 'H', None)
        if H is None or H.id not in st.mem or not st.mem[H.id].alive: return []
        return [('pending exception of the suspension', ex.eq(self.at(st, H, 'suspend_exception'), SPtr(zi(st.ghost['sexc'])))),
            ('finished or not', And(ex.eq(self.at(st, H, 'resume_cb'), 0) == (zi(st.ghost['life']) == 2), zi(st.ghost['life']) != 1)), ('finished without exception', Implies(zi(st.ghost['life']) == 2, zi(st.ghost['sexc']) == 0))]
    # ---- contracts of the lower layer (each proved on its own below)
    def alloc(self, ex, st, F, a, loc):
        ex.prove(st, st.ghost['stack'] is None, 'one stack is allocated', loc); ex.prove(st, zi(a[1]) == z3.Int('SIZE'), 'the stack is allocated with the size asked for', loc)
        s2 = st.clone(); S = addr_sym(ex, st, 'STACK'); N = z3.Int('STACKN'); B = addr_sym(ex, st, 'MMAP'); MN = z3.Int('MMAPN'); st.assume(And(N > 0, MN > N, N < 2 ** 62, MN < 2 ** 62, B.t + MN < 2 ** 47))
        for n, v in (('stack', S), ('stack_size', N), ('mmap_base', B), ('mmap_size', MN)): ex.store(st, self.plus(a[0], self.so[n]), v, ex.mk_ptr() if isinstance(v, SPtr) else ex.mk_int(64), loc)
        st.ghost['stack'] = 'alive'; return [(st, 'ret', 1), (s2, 'ret', 0)]
    def plus(self, p, n): return Ptr(p.r, p.off + n) if isinstance(p, Ptr) else SPtr(p.t, p.off + n)
    def dealloc(self, ex, st, F, a, loc):
        ex.prove(st, st.ghost['stack'] == 'alive', 'the stack is freed exactly once', loc)
        ex.prove(st, zi(st.ghost['life']) != 1, 'the stack is freed only after the fiber has finished, was unwound or if it never ran', loc)
        for n, v in (('mmap_base', z3.Int('MMAP')), ('mmap_size', z3.Int('MMAPN'))): ex.prove(st, ex.to_int(ex.load(st, self.plus(a[0], self.so[n]), ex.mk_ptr() if n == 'mmap_base' else ex.mk_int(64), loc)) == v, 'the stack that was allocated is freed', loc)
        st.ghost['stack'] = 'freed'; return 1
    def makectx(self, ex, st, F, a, loc):
        ex.prove(st, st.ghost['stack'] == 'alive', 'the context is made on the allocated stack', loc)
        for n, v in (('stack', z3.Int('STACK')), ('stack_size', z3.Int('STACKN'))): ex.prove(st, ex.to_int(ex.load(st, self.plus(a[1], self.so[n]), ex.mk_ptr() if n == 'stack' else ex.mk_int(64), loc)) == v, 'the context is made on the allocated stack', loc)
        s2 = st.clone(); st.ghost['entry'] = (a[2], a[3], a[0]); ex.store(st, self.plus(a[0], self.sp), addr_sym(ex, st, 'SP0'), ex.mk_ptr(), loc)
        return [(st, 'ret', 1), (s2, 'ret', 0)]
    def swap(self, ex, st, F, a, loc):
        H = self.H; mc, fc = Ptr(H, self.o['main_context']), Ptr(H, self.o['fiber_context']); st.ghost['swaps'] = True
        def other(s): 
            for c in ('main_context', 'fiber_context'): self.set(s, H, c, addr_sym(ex, s, str(fresh_int('sp'))), sub=self.sp)
        if st.ghost['side'] == 'main':
            ex.prove(st, And(ex.eq(a[0], mc), ex.eq(a[1], fc)), 'the running context is saved and the context of the fiber continued', loc)
            ex.prove(st, ex.eq(self.cur(st), Ptr(H, 0)), 'the fiber is the current fiber while it runs', loc)
            ex.prove(st, Not(ex.eq(self.at(st, H, 'resume_cb'), 0)), 'a fiber that has finished is not continued', loc)
            ex.prove(st, ex.eq(self.at(st, H, 'suspend_exception'), SPtr(zi(st.ghost['sexc']))), 'an exception of await_suspend is delivered to the fiber, no other is', loc)
            ex.prove(st, ex.eq(self.at(st, H, 'suspend_handler'), 0), 'a suspension is dealt with once', loc)
            ex.prove(st, not st.caught, 'the resumer is not inside an exception handler of its own when it switches', loc)
            rr = st.ghost.get('resreg')
            if rr is not None: ex.prove(st, st.mem[rr.id].alive, 'the place of the result exists as long as the function may run', loc)
            wd = self.at(st, H, 'want_destroy', 1); ex.prove(st, (ex.to_int(wd) if not z3.is_bool(wd) else z3.If(wd, 1, 0)) == (1 if st.ghost['destroying'] else 0), 'the fiber is unwound exactly if it is being destroyed', loc)
            other(st); st.setg('sexc', 0); self.set(st, H, 'suspend_exception', 0); self.set(st, H, 'was_started', 1, 1)
            fin = st.clone(); self.set(fin, H, 'resume_cb', 0); fin.ghost['life'] = 2
            if st.ghost['destroying']: return [(fin, 'ret', 1)]
            st.ghost['life'] = 1; self.set(st, H, 'suspend_handler', SPtr(z3.Int('HFN'))); self.set(st, H, 'suspend_handler_ptr', SPtr(z3.Int('HPTR'))); st.assume(And(z3.Int('HFN') > 0, z3.Int('HPTR') > 0))
            return [(fin, 'ret', 1), (st, 'ret', 1)]
        ex.prove(st, And(ex.eq(a[0], fc), ex.eq(a[1], mc)), 'the context of the fiber is saved and the resumer continued', loc)
        return self.fiberswap(ex, st, loc)
    def fiberswap(self, ex, st, loc):
        H = self.H
        if st.ghost['side'] == 'entry':
            ex.prove(st, ex.eq(self.at(st, H, 'resume_cb'), 0), 'a fiber that has finished is marked as finished', loc); ex.prove(st, st.ghost['ran'] == 1, 'the function is called once', loc)
            ex.prove(st, ex.eq(self.at(st, H, 'suspend_handler'), 0), 'a finished fiber is not taken for a suspended one', loc)
            ex.prove(st, not st.caught, 'no exception is being handled when the fiber ends', loc)
            self.ends.append(st); return [(st, 'stop', 'switched')]
        return self.on_await(ex, st, loc)
    def handler(self, ex, st, fp, a, loc):
        if not (isinstance(fp, SPtr) and ex.valid(st, fp.t == z3.Int('HFN'))): return None
        H = self.H
        ex.prove(st, zi(st.ghost['life']) == 1, 'await_suspend runs while the fiber is suspended', loc)
        ex.prove(st, And(ex.eq(a[0], SPtr(z3.Int('HPTR'))), ex.eq(a[1], Ptr(H, 0))), 'await_suspend gets the handle of this fiber', loc)
        ex.prove(st, ex.eq(self.at(st, H, 'suspend_handler'), 0), 'the fiber can be resumed as soon as await_suspend has its handle', loc)
        ex.prove(st, ex.eq(self.at(st, H, 'suspend_exception'), 0), 'the fiber can be resumed as soon as await_suspend has its handle (no stale exception)', loc)
        no, th = st.clone(), st.clone(); e = self.exc(th); th.setg('sexc', e.tok); th.ghost['life'] = no.ghost['life'] = 0
        # handed out: it may have been resumed, finished and destroyed by the time await_suspend returns
        st.mem[H.id].alive = False; st.mem[H.id].cells = {}; st.ghost['pub'] = True
        return [(st, 'ret', 1), (no, 'ret', 0), (th, 'throw', e)]
    def hresume(self, ex, st, h, loc):
        if st.ghost['side'] == 'main':
            H = self.H
            ex.prove(st, not st.ghost['destroying'], 'destroying a fiber resumes nobody', loc)
            ex.prove(st, And(zi(st.ghost['life']) == 2, not st.ghost['pub']), 'the awaiting coroutine is resumed only after the fiber has finished', loc)
            ex.prove(st, ex.eq(h, SPtr(z3.Int('CONT'))), 'the coroutine resumed is the one that awaits the fiber', loc)
            ex.prove(st, ex.eq(self.cur(st), self.old), 'the previous fiber is current again before the awaiting coroutine continues', loc)
            st.mem[H.id].alive = False; st.mem[H.id].cells = {}
        st.ghost['hresumed'] = st.ghost['hresumed'] + (h,); return None
    # ---- functions run by fibers
    def body(self, st, loc):
        st.ghost['ran'] += 1; s2 = st.clone(); e = Exc(self.dti, fresh_int('exc')); s2.assume(e.tok > 0); s2.ghost['unw'] = True
        return [(st, 'ret', None), (s2, 'throw', e)]
    def tbody(self, ex, st, F, a, loc):
        outs = self.body(st, loc); t = fresh_int('result'); st.assume(t > 0); self.T.put(st, a[0], t, loc); st.ghost['objs'] += 1; st.ghost['res'] = t; return outs
    def uncaught(self, ex, st, F, a, loc):
        n = fresh_int('uncaught'); st.assume(And(n >= 0, n < 2 ** 31)); st.ghost['unc'] = n; return n
    def curexc(self, ex, st, F, a, loc): ex.store(st, a[0], SPtr(st.caught[-1].tok) if st.caught else 0, ex.mk_ptr(), loc); return None
    # ---- awaitables
    def aready(self, ex, st, F, a, loc):
        ex.prove(st, st.ghost['aw'] == 'new' and ex.eq(a[0], Ptr(self.aw, 0)), 'the awaitable is asked once whether it is ready', loc)
        s2 = st.clone(); s2.ghost['aw'] = 'threw'; e = self.exc(s2); s2.ghost['axc'] = e.tok; b = fresh_bool('ready'); s3 = st.clone(); st.assume(b); st.ghost['aw'] = 'ready'; s3.assume(Not(b)); s3.ghost['aw'] = 'unready'
        return [(st, 'ret', True), (s3, 'ret', False), (s2, 'throw', e)]
    def asuspend(self, ex, st, F, a, loc):
        ex.prove(st, st.ghost['aw'] == 'switched', 'await_suspend runs once, after the fiber was suspended', loc)
        ex.prove(st, And(ex.eq(a[0], Ptr(self.aw, 0)), ex.eq(a[1], SPtr(z3.Int('ANYH')))), 'await_suspend of the awaitable gets the handle of the fiber', loc)
        th = st.clone(); e = self.exc(th); th.ghost['axc'] = e.tok; th.ghost['aw'] = 'sthrew'; st.ghost['aw'] = 'suspended'; k = F.dem[len('vt::aw')]
        if 'bool' in k or self.kind == 'b':
            b = fresh_bool('susp'); no = st.clone(); no.assume(Not(b)); st.assume(b); no.ghost['aw'] = 'notsuspended'
            st.mem[self.aw.id].alive = False
            return [(st, 'ret', True), (no, 'ret', False), (th, 'throw', e)]
        st.mem[self.aw.id].alive = False
        if self.kind == 'h': return [(st, 'ret', addr_sym(ex, st, 'NEXTH')), (th, 'throw', e)]
        return [(st, 'ret', None), (th, 'throw', e)]
    def aresume(self, ex, st, F, a, loc):
        ex.prove(st, st.ghost['aw'] in ('ready', 'resumed') and ex.eq(a[1], Ptr(self.aw, 0)), 'await_resume runs once, if the awaitable was ready or after the fiber was resumed', loc)
        s2 = st.clone(); s2.ghost['aw'] = 'rthrew'; e = self.exc(s2); s2.ghost['axc'] = e.tok
        t = fresh_int('value'); st.assume(t > 0); self.T.put(st, a[0], t, loc); st.ghost['objs'] += 1; st.ghost['val'] = t; st.ghost['aw'] = 'done'
        return [(st, 'ret', None), (s2, 'throw', e)]
    # ---- creation of a fiber; its states
    def create(self, ex, result=False):
        st = self.setup(ex); f = ex.new_region(st, 'fn', 8); (self.tf if result else self.fn).put(st, Ptr(f, 0), z3.IntVal(77)); st.ghost['objs'] = 1
        n = z3.Int('SIZE'); st.assume(And(n >= 0, n < 2 ** 64)); o = ex.new_region(st, 'out', 16 if result else 8); self.f = f; self.out = o; st.ghost['destroying'] = False
        heap0 = st.ghost.get('heap') or ()
        outs = ex.live(ex.exec_fn(st, self.mod.funcs['ft_ctor' if result else 'fb_handle'], [Ptr(o, 0), Ptr(f, 0), n]), ('ret', 'throw'))
        return outs
    def handle(self, s, result=False):
        p = self.ex.peek(s, self.out, 8 if result else 0); 
        if not isinstance(p, Ptr) or p.off != 0: raise ToolLimit('handle %r' % (p,))
        self.H = p.r; return p.r
    def states(self, ex, result=False, which=('new', 'suspended', 'done')):
        """the fiber as its owner finds it between two calls"""
        for s, k, v in self.create(ex, result):
            if k != 'ret': continue
            H = self.handle(s, result)
            for w in which:
                x = s.clone(); x.ghost['life'] = dict(new=0, suspended=1, done=2)[w]
                for c in ('main_context', 'fiber_context'): self.set(x, H, c, addr_sym(ex, x, str(fresh_int('sp'))), sub=self.sp)
                C = z3.Int('CONT'); x.assume(And(C >= 0, C < 2 ** 47)); self.set(x, H, 'continuation', SPtr(C))
                if w != 'new': self.set(x, H, 'was_started', 1, 1)
                self.set(x, H, 'suspend_handler_ptr', 0)
                if w == 'done': self.set(x, H, 'resume_cb', 0)
                yield x, H, w

def verify(V):
    mod = V.module('fiber.cpp', ['-DASYNCPP_HAS_VALGRIND=0'], layouts=True); modg = V.module('fiber.cpp', ['-DASYNCPP_HAS_VALGRIND=0', '-DSAVE_TLS_STACK_PROTECTOR'])
    F = lambda n: mod.funcs[n]; w = W(V, mod)
    # ---- stacks
    for page in (4096, 16384, 65536):
        for first in (True, False):
            def stack(ex, page=page, first=first):
                st = State(); c = ex.new_region(st, 'ctx', 32); n = z3.Int('SIZE'); st.assume(And(n >= 0, n < 2 ** 64)); st.ghost['map'] = None; st.ghost['prot'] = ()
                def mmap(e, s, F_, a, loc):
                    ex.prove(s, s.ghost['map'] is None, 'one mapping is made', loc); ex.prove(s, And(ex.eq(a[0], 0), zi(a[2]) == 3, zi(a[4]) == 2 ** 32 - 1), 'fresh readable and writable memory is asked for', loc)
                    ex.prove(s, isinstance(a[3], int) and a[3] & 0x22 == 0x22 and a[3] & 0x11 == 0, 'the memory is private and anonymous', loc)
                    s2 = s.clone(); B = addr_sym(ex, s, 'MMAP'); s.assume(And(B.t % page == 0, B.t + zi(a[1]) < 2 ** 47, zi(a[1]) > 0)); s.ghost['map'] = zi(a[1])
                    return [(s, 'ret', B), (s2, 'ret', SPtr(z3.IntVal(2 ** 64 - 1)))]
                def mprot(e, s, F_, a, loc):
                    ex.prove(s, zi(a[2]) == 0, 'guard pages are not accessible', loc); ex.prove(s, And(ex.to_int(a[0]) % page == 0, ex.to_int(a[0]) >= z3.Int('MMAP'), ex.to_int(a[0]) + zi(a[1]) <= z3.Int('MMAP') + s.ghost['map']), 'guard pages are pages of the mapping', loc)
                    s.ghost['prot'] = s.ghost['prot'] + ((ex.to_int(a[0]), zi(a[1])),); return 0
                def munmap(e, s, F_, a, loc):
                    ex.prove(s, And(ex.to_int(a[0]) == z3.Int('MMAP'), zi(a[1]) == s.ghost['map']), 'exactly the memory that was mapped is unmapped', loc); s.ghost['un'] = s.ghost.get('un', 0) + 1
                    b = fresh_bool('unmapped'); return z3.If(b, 0, 2 ** 32 - 1)
                ex.contracts = [(re.compile(r'^mmap(64)?$'), mmap), (re.compile(r'^mprotect$'), mprot), (re.compile(r'^munmap$'), munmap), (re.compile(r'^sysconf$'), lambda e, s, F_, a, l: page), (re.compile(r'^getpagesize$'), lambda e, s, F_, a, l: page),
                                (re.compile(r'^__cxa_guard_acquire$'), lambda *_: 1 if first else 0), (re.compile(r'^__cxa_guard_release$'), lambda *_: None)]
                gp = [g for g in mod.globals if g.endswith('pagesize') and g.startswith('_ZZ')]
                for g in gp:
                    if not first: ex.poke(st, ex.global_region(st, g), 0, page)
                    q = '_ZGV' + g[2:]
                    if q in mod.globals: ex.poke(st, ex.global_region(st, q), 0, 0 if first else 1)
                for s, k, v in rets(ex, ex.exec_fn(st, F('fb_alloc'), [Ptr(c, 0), n])):
                    P = lambda x, nm: ex.prove(s, x, nm)
                    ok = ex.valid(s, zb(v) if z3.is_bool(v) else zi(v) != 0)
                    if not ok:
                        P(Not(zb(v)) if z3.is_bool(v) else zi(v) == 0, 'the result tells whether there is a stack'); P(s.ghost['map'] is None, 'no memory is kept on failure')
                        continue
                    top, sz, B, MN = (ex.to_int(ex.peek(s, c, w.so[q])) for q in ('stack', 'stack_size', 'mmap_base', 'mmap_size'))
                    P(s.ghost['map'] is not None, 'success means there is a stack')
                    P(And(B == z3.Int('MMAP'), MN == s.ghost['map']), 'the mapping is remembered')
                    P(And(sz >= n, sz > 0, sz <= n + page), 'the stack is as big as asked for, rounded up to pages (at least one)')
                    P(And(top % 16 == 0, top - sz >= B, top <= B + MN), 'the stack is aligned and lies inside the mapping')
                    pr = s.ghost['prot']; P(Or(*[And(a <= top - sz - page, a + l >= top - sz) for a, l in pr]), 'a guard page is right below the stack')
                    P(Or(*[And(a <= top, a + l >= top + page) for a, l in pr]), 'a guard page is right above the stack')
                    P(And(*[Or(a + l <= top - sz, a >= top) for a, l in pr]), 'the whole stack can be used')
                    for s2, k2, v2 in rets(ex, ex.exec_fn(s, F('fb_dealloc'), [Ptr(c, 0)])): ex.prove(s2, s2.ghost.get('un') == 1, 'freeing the stack unmaps it once')
            V.check('fiber_allocate_stack, fiber_deallocate_stack (%d byte pages, %s)' % (page, 'first call' if first else 'later call'), mod, stack)
    def nostack(ex):
        st = State(); c = ex.new_region(st, 'ctx', 32); [ex.poke(st, c, o, 0) for o in (0, 8, 16, 24)]
        ex.contracts = [(re.compile(r'^munmap$'), lambda e, s, F_, a, l: ex.fail(s, 'nothing is unmapped if there is no stack', l))]
        for s, k, v in rets(ex, ex.exec_fn(st, F('fb_dealloc'), [Ptr(c, 0)])): ex.prove(s, zb(v) if z3.is_bool(v) else zi(v) != 0, 'nothing to free is no failure')
    V.check('fiber_deallocate_stack without a stack', mod, nostack)
    # ---- context switch
    for guard, m in ((False, mod), (True, modg)):
        def swap(ex, guard=guard, m=m):
            st = State(); ex.live([(st, 'ret', None)]); X = Machine(asm_text(m)); M = {}
            P = lambda c, nm: ex.prove(st, bool(c), nm)
            A = context('A', guard); M[('spA', 0)] = (8, ('retA', 0)); A['rdi'] = ('outA', 0); A['rsi'] = ('frameB', 0)
            R = X.run(A, M)
            for a, n, sp, ph in X.writes:
                P(ph == 0 and (a == ('outA', 0) and n == 8 or a[0] == 'spA' and a[1] + n <= 0 and sp[0] == 'spA' and a[1] >= sp[1] - 128), 'leaving a context writes its own unused stack and the slot for its stack pointer')
            c = M.get(('outA', 0)); P(c is not None and c[0] == 8, 'the stack pointer of the context left is saved')
            sp = c[1] if c else ('?', 0); P(sp[0] == 'spA' and all(a[0] != 'spA' or a[1] >= sp[1] for a, n, q, ph in X.writes), 'what is saved lies above the saved stack pointer (below it anything may be overwritten)')
            P(R['rsp'][0] == 'frameB', 'the stack of the other context is used from then on')
            # the slot and the stack from the saved stack pointer upwards are preserved while the context is suspended (its owner's property); everything else is arbitrary
            M2 = {k: v for k, v in M.items() if k[0] == 'spA' and k[1] >= sp[1]}
            Bc = context('B', guard); M2[('spB', 0)] = (8, ('retB', 0)); Bc['rdi'] = ('outB', 0); Bc['rsi'] = sp
            R2 = X.run(Bc, M2)
            for r in Machine.SAVED: P(R2[r] == A[r], 'register %s is preserved across a suspension' % r)
            P(R2['mxcsr'] == A['mxcsr'] and R2['x87'] == A['x87'], 'the floating point control words are preserved across a suspension')
            P(R2['rsp'] == ('spA', 8) and R2.get('rip') == ('retA', 0), 'execution continues after the call, with the stack as it was')
            P(R2['fs:40'] == A['fs:40'], 'the stack guard of the thread is intact' + (' (restored)' if guard else ''))
        V.check('fiber_swap_stack' + (' saving the stack guard' if guard else ''), m, swap)
    def make(ex):
        st = State(); c = ex.new_region(st, 'ctx', 24); k = ex.new_region(st, 'stack', 32); S = addr_sym(ex, st, 'STACK'); N = z3.Int('STACKN')
        st.assume(And(S.t % 4096 == 0, N >= 4096, N % 4096 == 0, S.t - N > 4096, N < 2 ** 62)); ex.poke(st, k, w.so['stack'], S); ex.poke(st, k, w.so['stack_size'], N); ex.poke(st, k, w.so['mmap_base'], SPtr(S.t - N, -4096)); ex.poke(st, k, w.so['mmap_size'], N + 8192)
        sm = StackMem(S.t, 4096); st.fams = list(st.fams) + [sm]; st.ghost['stk'] = {}
        E, A = addr_sym(ex, st, 'ENTRY'), addr_sym(ex, st, 'ARG', nonnull=False); cw = z3.Int('MXCSR'), z3.Int('X87CW'); st.assume(And(cw[0] >= 0, cw[0] < 2 ** 32, cw[1] >= 0, cw[1] < 2 ** 16))
        intr = ex.intrinsic
        def intrinsic(F_, s, name, args, I):
            if name.startswith('llvm.memset') and isinstance(args[0], SPtr):
                n = args[2] if isinstance(args[2], int) else None
                if n is None:
                    for q in range(0, 513, 4):
                        if ex.valid(s, zi(args[2]) == q): n = q; break
                if n is None: raise ToolLimit('memset of %s' % args[2])
                for b in range(n): sm.put(ex, s, args[0].t, args[0].off + b, 1, args[1], '')
                return [(s, 'ret', None)]
            return intr(F_, s, name, args, I)
        ex.intrinsic = intrinsic
        def asm(e, s, txt, args, I):
            t = str(txt)
            for op, n, v in (('stmxcsr', 4, cw[0]), ('fnstcw', 2, cw[1])):
                if op in t:
                    p = args[0]
                    if isinstance(p, Ptr): ex.put(s, p.r, p.off, n, v)
                    else: sm.put(ex, s, p.t, p.off, n, v, '')
                    return None
            raise ToolLimit('inline asm ' + t[:60])
        ex.asm_handler = asm; X = Machine(asm_text(mod)); V_ = lambda s, v: ex.to_int(v)
        for s, k_, v in rets(ex, ex.exec_fn(st, F('fb_make'), [Ptr(c, 0), Ptr(k, 0), E, A])):
            P = lambda x, nm: ex.prove(s, x, nm)
            P(zb(v) if z3.is_bool(v) else zi(v) != 0, 'making a context succeeds')
            sp = ex.peek(s, c, w.sp); rel = sm.rel(ex, s, sp.t, sp.off)
            d = s.ghost['stk']; M = {}; terms = {}
            for q in range(-512, 0):
                for n in (8, 4, 2):
                    x = word(d, q, n)
                    if x is not None and (n == 8 or d.get(q, (0, 0))[0] == n or not any(('top', b) in M for b in (q,))):
                        if ('top', q) not in M or d.get(q, (0,))[0] == n: nm = 'w%d' % q; terms[nm] = x; M[('top', q)] = (n, (nm, 0))
            # control words need their own width
            R = context('A', False); M[('spA', 0)] = (8, ('retA', 0)); R['rdi'] = ('outA', 0); R['rsi'] = ('top', rel)
            got = {}
            rd = X.rd
            def read(M_, a, n):
                if a[0] == 'top':
                    x = word(d, a[1], n)
                    if x is None: return X.fresh('uninit')
                    nm = 't%d_%d' % (a[1], n); terms[nm] = x; return (nm, 0)
                return rd(M_, a, n)
            X.rd = read; R2 = X.run(R, M); tv = lambda r: zi(ex.to_int(terms[R2[r][0]])) + R2[r][1] if R2.get(r, ('?',))[0] in terms else z3.Int('UNKNOWN')
            P(tv('rip') == E.t, 'a new context starts at its entry function'); P(tv('rdi') == A.t, 'the entry function gets its argument')
            P(R2['rsp'][0] == 'top' and R2['rsp'][1] <= -8, 'a new context starts on its own stack'); P(R2['rsp'][0] == 'top' and R2['rsp'][1] % 16 == 8, 'the stack is aligned as a called function expects it')
            P(R2['rsp'][0] == 'top' and R2['rsp'][1] >= -1024, 'nearly all of the stack can be used')
            m, f = tv('mxcsr'), tv('x87'); P(Or(m == cw[0], m == 0x1f80), 'floating point exceptions stay masked as they were (SSE)'); P(Or(f == cw[1], f == 0x37f), 'floating point exceptions stay masked as they were (x87)')
    V.check('fiber_makecontext', mod, make)
    def swapctx(ex):
        st = State(); a = ex.new_region(st, 'out', 24); b = ex.new_region(st, 'in', 24); sp = addr_sym(ex, st, 'SP'); ex.poke(st, b, w.sp, sp); st.ghost['n'] = 0
        for r in (a, b):
            for o in (0, 8, 16):
                if o != w.sp or r is a: ex.poke(st, r, o, z3.Int('c%d_%d' % (r.id, o)))
        def sw(e, s, F_, x, loc):
            ex.prove(s, And(ex.eq(x[0], Ptr(a, w.sp)), ex.eq(x[1], sp)), 'the stack pointer goes to the context left, the one of the context entered is used', loc); s.ghost['n'] += 1; return None
        ex.contracts = [(re.compile(r'^asyncpp::detail::fiber_swap_stack\('), sw)]
        for s, k, v in rets(ex, ex.exec_fn(st, F('fb_swapctx'), [Ptr(a, 0), Ptr(b, 0)])):
            ex.prove(s, s.ghost['n'] == 1, 'the contexts are switched once'); ex.prove(s, zb(v) if z3.is_bool(v) else zi(v) != 0, 'the switch succeeds')
    V.check('fiber_swapcontext', mod, swapctx)
    # ---- creation, entry, resume, destroy
    def create(ex):
        for s, k, v in w.create(ex):
            P = lambda x, nm: ex.prove(s, x, nm)
            if k == 'throw':
                P(not (s.ghost.get('heap') or ()) and s.ghost['stack'] in (None, 'freed') and s.ghost['objs'] == 1, 'nothing is kept if a fiber could not be created'); continue
            H = w.handle(s); P(s.ghost['stack'] == 'alive' and s.ghost['entry'] is not None and s.ghost['objs'] == 2 and s.ghost['ran'] == 0, 'a new fiber has its stack, its context and its function, which was not called')
            fn, arg, cx = s.ghost['entry']; P(ex.eq(arg, Ptr(H, 0)) and isinstance(fn, FnPtr), 'the entry function gets the fiber'); P(ex.eq(cx, Ptr(H, w.o['fiber_context'])), 'the context made is the one that is continued')
            P(isinstance(w.at(s, H, 'resume_cb'), FnPtr) and isinstance(w.at(s, H, 'destroy_cb'), FnPtr), 'a new fiber can be resumed and destroyed')
            P(And(*[ex.eq(w.at(s, H, n), 0) for n in ('suspend_handler', 'suspend_exception', 'continuation')] + [zi(w.at(s, H, n, 1)) == 0 for n in ('want_destroy', 'was_started')]), 'nobody waits for a new fiber, it was not started')
    V.check('make_fiber_handle', mod, create)
    def entry(ex):
        w.ends = []
        for s, k, v in w.create(ex):
            if k != 'ret': continue
            H = w.handle(s); s.ghost['side'] = 'entry'; fn, arg, cx = s.ghost['entry']
            for c in ('main_context', 'fiber_context'): w.set(s, H, c, addr_sym(ex, s, str(fresh_int('sp'))), sub=w.sp)
            for s2, k2, v2 in ex.live(ex.exec_fn(s, F(fn.name), [arg]), ('stop',)): ex.prove(s2, k2 == 'stop' and v2 == 'switched', 'a finished fiber switches back for the last time')
        for s in w.ends: ex.prove(s, zi(w.at(s, w.H, 'was_started', 1)) == 1, 'the fiber counts as started'); ex.prove(s, s.ghost['objs'] == 2, 'the function lives as long as the fiber')
        ex.prove(State(), len(w.ends) >= 2, 'the fiber ends after the function returned and after it was unwound')
    V.check('entry of a fiber', mod, entry)
    def resume(ex):
        for s, H, life in w.states(ex, which=('new', 'suspended')):
            s.ghost.update(life=0, swaps=True); fn = w.at(s, H, 'resume_cb')
            for s2, k, v in ex.live(ex.exec_fn(s, F(fn.name), [Ptr(H, 0)])):
                P = lambda x, nm: ex.prove(s2, x, nm)
                P(k == 'ret', 'resuming a fiber does not throw'); P(ex.eq(w.cur(s2), w.old), 'the previous fiber is current again'); g = s2.ghost
                if g['pub']: P(not g['hresumed'], 'nobody is resumed when the fiber is suspended')
                else: P(zi(g['life']) == 2, 'resuming ends with the fiber suspended or finished'); P((z3.Int('CONT') == 0) if not g['hresumed'] else And(z3.Int('CONT') != 0, len(g['hresumed']) == 1), 'whoever awaits the fiber is resumed exactly once when it has finished')
                P(g['objs'] == 2 and g['stack'] == 'alive' and not s2.caught, 'resuming a fiber frees nothing')
    V.check('resuming a fiber', mod, resume)
    def destroy(ex):
        for s, H, life in w.states(ex):
            ex.unroll = 4; s.ghost['destroying'] = True; fn = w.at(s, H, 'destroy_cb')
            for s2, k, v in ex.live(ex.exec_fn(s, F(fn.name), [Ptr(H, 0)])):
                P = lambda x, nm: ex.prove(s2, x, nm); g = s2.ghost
                P(k == 'ret', 'destroying a fiber does not throw'); P(bool(g['swaps']) == (life == 'suspended'), 'a suspended fiber is unwound, no other is entered'); P(g['stack'] == 'freed' and not (g.get('heap') or ()) and g['objs'] == 1, 'stack, function and fiber are freed exactly once')
                P(ex.eq(w.cur(s2), w.old), 'the previous fiber is current again')
    V.check('destroying a fiber', mod, destroy)
    # ---- fib_await
    for nm, kind in (('fa_v', 'v'), ('fa_b', 'b'), ('fa_h', 'h'), ('fa_kw', 'b'), ('fa_s', 'b'), ('fa_st', 'b')):
        def faw(ex, nm=nm, kind=kind):
            w.kind = kind; seen = []
            for s0, H, life in w.states(ex, which=('suspended',)):
                s = s0; s.ghost.update(side='await', aw='new', unc=None, axc=None, unw=None, val=None); w.aw = ex.new_region(s, 'awaiter', 8); ex.addr(w.aw); o = ex.new_region(s, 'dest', 8); ex.poke(s, w.g, 0, Ptr(H, 0)); objs = s.ghost['objs']
                def on_await(e, st, loc):
                    P = lambda x, q: ex.prove(st, x, q, loc)
                    P(st.ghost['aw'] == 'unready', 'the fiber is suspended once, if the awaitable is not ready')
                    h, p = w.at(st, H, 'suspend_handler'), w.at(st, H, 'suspend_handler_ptr'); P(isinstance(h, FnPtr), 'the resumer is told to call await_suspend')
                    # what the resumer does with it
                    if isinstance(h, FnPtr):
                        t = st.clone(); t.ghost.update(aw='switched', side='handler', hresumed=()); t.assume(And(z3.Int('ANYH') > 0))
                        for t2, k, v in ex.live(ex.exec_fn(t, F(h.name), [p, SPtr(z3.Int('ANYH'))]), ('ret', 'throw')):
                            Q = lambda x, q: ex.prove(t2, x, q, loc); a = t2.ghost['aw']; yes = (zb(v) if z3.is_bool(v) else zi(v) != 0) if k == 'ret' else None; seen.append(a)
                            if a == 'sthrew': Q(k == 'throw' and same(v.tok, t2.ghost['axc']), 'an exception of await_suspend is passed on'); continue
                            Q(k == 'ret', 'nothing else throws'); Q(yes if a == 'suspended' else Not(yes), 'the fiber stays suspended unless await_suspend returned false'); Q(a in ('suspended', 'notsuspended'), 'await_suspend is called')
                            Q(len(t2.ghost['hresumed']) == (1 if kind == 'h' else 0) and (kind != 'h' or ex.eq(t2.ghost['hresumed'][0], SPtr(z3.Int('NEXTH')))), 'the coroutine returned by await_suspend is resumed, nothing else is')
                    P(not st.caught, 'the fiber is not suspended inside an exception handler of its own')
                    # and when the fiber is continued (contract of the resumer)
                    outs = []
                    for c in ('main_context', 'fiber_context'): w.set(st, H, c, addr_sym(ex, st, str(fresh_int('sp'))), sub=w.sp)
                    w.set(st, H, 'suspend_handler', 0); w.set(st, H, 'suspend_handler_ptr', 0); st.ghost['aw'] = 'resumed'
                    s2 = st.clone(); e2 = fresh_int('sexc'); s2.assume(e2 > 0); w.set(s2, H, 'suspend_exception', SPtr(e2)); s2.ghost.update(aw='failed', axc=e2); outs.append((s2, 'ret', 1))
                    s3 = st.clone(); w.set(s3, H, 'want_destroy', 1, 1); s3.ghost['aw'] = 'unwind'; outs.append((s3, 'ret', 1))
                    return [(st, 'ret', 1)] + outs
                w.on_await = on_await
                for s2, k, v in ex.live(ex.exec_fn(s, F(nm), [Ptr(o, 0), Ptr(w.aw, 0)]), ('ret', 'throw')):
                    P = lambda x, q: ex.prove(s2, x, q); a = s2.ghost['aw']; n = s2.ghost['objs'] - objs; seen.append(a)
                    if k == 'stop': P(v == 'terminate' and s2.ghost['unc'] is not None and a == 'new', 'the program is terminated only before anything was done'); P(zi(s2.ghost['unc']) != 0, 'the program is terminated only during unwinding'); continue
                    if a == 'done': P(And(k == 'ret', n == 1) and ex.to_int(ex.peek(s2, o, 0)) == s2.ghost['val'], 'fib_await yields what await_resume returns')
                    elif a in ('threw', 'rthrew', 'failed'): P(k == 'throw' and same(v.tok, s2.ghost['axc']) and n == 0, 'fib_await throws what the awaitable threw')
                    else: P(a == 'unwind' and k == 'throw' and v.type == w.dti and n == 0, 'a fiber that is being destroyed is unwound')
                    P(And(ex.eq(w.at(s2, H, 'suspend_exception'), 0), ex.eq(w.at(s2, H, 'suspend_handler'), 0)), 'nothing of the suspension is left')
            ex.prove(State(), all(x in seen for x in ('done', 'threw', 'rthrew', 'failed', 'unwind', 'suspended', 'sthrew')), 'all outcomes are looked at')
        V.check('fib_await, %s' % nm, mod, faw)
    # ---- the classes users hold
    def fvoid(ex):
        def pre(o, x=None):
            st = w.setup(ex); st.ghost.update(destroyed=(), destroying=False); ex.hooks['destroy'] = lambda e, s, h, loc: s.ghost.__setitem__('destroyed', s.ghost['destroyed'] + (h,))
            r = [ex.new_region(st, 'fiber', 8), ex.new_region(st, 'other', 8)]; v = []
            for q, n in zip(r, ('X', 'Y')): 
                h = addr_sym(ex, st, n, nonnull=False); ex.poke(st, q, 0, h); v.append(h); ex.addr(q)
            return st, r, v
        for nm in ('fb_empty', 'fb_dtor', 'fb_move', 'fb_asgn', 'self'):
            st, (a, b), (x, y) = pre(None); args = [Ptr(a, 0)] + ([Ptr(a if nm == 'self' else b, 0)] if nm in ('fb_move', 'fb_asgn', 'self') else [])
            if nm in ('fb_empty', 'fb_move'): st.mem[a.id].cells = {}; ex.poke(st, a, 0, z3.Int('garbage'))
            for s, k, v in rets(ex, ex.exec_fn(st, F('fb_asgn' if nm == 'self' else nm), args)):
                P = lambda c, q: ex.prove(s, c, '%s: %s' % (nm, q)); d = s.ghost['destroyed']; now = ex.peek(s, a, 0)
                if nm in ('fb_dtor', 'fb_asgn'): P((And(x.t != 0, ex.eq(d[0], x)) if len(d) == 1 else (x.t == 0 if not d else False)), 'the fiber held before is destroyed exactly once, if there is one')
                else: P(not d, 'no fiber is destroyed')
                if nm == 'fb_empty': P(ex.eq(now, 0), 'the handle is empty')
                if nm == 'self': P(ex.eq(now, x), 'the handle keeps its fiber')
                if nm in ('fb_move', 'fb_asgn'): P(And(ex.eq(now, y), ex.eq(ex.peek(s, b, 0), 0)), 'the fiber moves into the handle, the source is empty')
        for nm in ('fb_await', 'fb_coawait'):
            st, (a, b), (x, y) = pre(None)
            for s, k, v in ex.live(ex.exec_fn(st, F(nm), [Ptr(b, 0), Ptr(a, 0)]), ('ret', 'throw')):
                P = lambda c, q: ex.prove(s, c, '%s: %s' % (nm, q)); P((x.t == 0) if k == 'throw' else And(x.t != 0, ex.eq(ex.peek(s, b, 0), x)), 'an empty handle is rejected, otherwise its fiber is awaited'); P(not s.ghost['destroyed'] and ex.eq(ex.peek(s, a, 0), x), 'the handle keeps its fiber')
        st, (a, b), (x, y) = pre(None)
        for s, k, v in rets(ex, ex.exec_fn(st, F('fb_resume'), [Ptr(a, 0)])): ex.prove(s, k == 'ret', 'awaiting a fiber without result yields nothing')
    V.check('fiber<void>: construction, destruction, assignment, await', mod, fvoid)
    def awaiters(ex):
        for sfx, n in (('fb_', 8), ('l', 16), ('r', 16)):
            nm = (lambda q: 'fb_' + q) if sfx == 'fb_' else (lambda q: 'ft_' + q + sfx)
            for s, H, life in w.states(ex):
                d = fresh_bool('isdone'); ex.hooks['done'] = lambda e, q, h, loc: (e.prove(q, e.eq(h, Ptr(H, 0)), 'the fiber awaited is asked', loc), d)[1]
                aw = ex.new_region(s, 'awaiter', n); ex.poke(s, aw, 0, Ptr(H, 0)); o = ex.new_region(s, 'to', 8); hr = ex.new_region(s, 'h', 8); h = addr_sym(ex, s, 'WAITER'); ex.poke(s, hr, 0, h)
                if n == 16: ex.poke(s, aw, 8, addr_sym(ex, s, 'RES'))
                for s2, k, v in rets(ex, ex.exec_fn(s.clone(), F(nm('ready')), [Ptr(aw, 0)])): ex.prove(s2, (zb(v) if z3.is_bool(v) else zi(v) != 0) == d, 'a fiber is awaited until it has finished')
                C = z3.Int('CONT')
                for s2, k, v in ex.live(ex.exec_fn(s, F(nm('suspend')), [Ptr(o, 0), Ptr(aw, 0), Ptr(hr, 0)]), ('ret', 'throw')):
                    P = lambda c, q: ex.prove(s2, c, q); ct = ex.to_int(w.at(s2, H, 'continuation'))
                    if k == 'throw': P(And(C != 0, ct == C), 'only a second await of the same fiber is rejected, the first one is not affected')
                    else: P(And(C == 0, ct == h.t), 'the awaiting coroutine is the one that is resumed in the end'); P(ex.eq(ex.peek(s2, o, 0), Ptr(H, 0)), 'the fiber is resumed')
    V.check('awaiting a fiber', mod, awaiters)
    def fresult(ex):
        n = 0
        for s, k, v in w.create(ex, True):
            if k == 'throw': ex.prove(s, not (s.ghost.get('heap') or ()) and s.ghost['stack'] in (None, 'freed') and s.ghost['objs'] == 1, 'nothing is kept if a fiber could not be created'); continue
            H = w.handle(s, True); R = ex.peek(s, w.out, 0); ex.prove(s, isinstance(R, Ptr) and R.off == 0 and s.mem[R.r.id].alive, 'there is a place for the result')
            ex.prove(s, s.ghost['objs'] == 2 and s.ghost['ran'] == 0, 'the function moves into the fiber and is not called yet')
            fn, arg, cx = s.ghost['entry']; s.ghost['side'] = 'entry'; w.ends = []
            for c in ('main_context', 'fiber_context'): w.set(s, H, c, addr_sym(ex, s, str(fresh_int('sp'))), sub=w.sp)
            for s2, k2, v2 in ex.live(ex.exec_fn(s, F(fn.name), [arg]), ('stop',)): ex.prove(s2, k2 == 'stop' and v2 == 'switched', 'a finished fiber switches back for the last time')
            for s2 in w.ends:
                s2.ghost.update(side='main', life=2, destroying=False); ex.hooks['done'] = lambda e, q, h, loc: e.eq(w.at(q, H, 'resume_cb'), 0)
                ex.hooks['destroy'] = lambda e, q, h, loc: (q.ghost.__setitem__('destroying', True), e.call_ptr(q, e.load(q, Ptr(H, 8), e.mk_ptr(), loc), [h], loc))[1]
                res = s2.ghost['res']
                def finish(s3, extra):
                    for s4, k4, v4 in rets(ex, ex.exec_fn(s3, F('ft_dtor'), [Ptr(w.out, 0)])): ex.prove(s4, s4.ghost['objs'] == 1 + extra and not (s4.ghost.get('heap') or ()) and s4.ghost['stack'] == 'freed', 'fiber, function, stack and result are freed exactly once')
                if res is None or s2.ghost.get('unw'): finish(s2, 0); continue
                for kind in ('l', 'r', 'c'):
                    t = s2.clone(); aw = ex.new_region(t, 'awaiter', 16); d = ex.new_region(t, 'dest', 8); ops = {'l': ('ft_awaitl', 'ft_resumel'), 'r': ('ft_awaitr', 'ft_resumer'), 'c': ('ft_coawaitr', 'ft_resumec')}[kind]
                    for t2, k2, v2 in rets(ex, ex.exec_fn(t, F(ops[0]), [Ptr(aw, 0), Ptr(w.out, 0)])):
                        for t3, k3, v3 in ex.live(ex.exec_fn(t2, F(ops[1]), [Ptr(d, 0), Ptr(aw, 0)]), ('ret', 'stop')):
                            if k3 == 'stop': ex.prove(t3, kind == 'l', 'only a throwing copy terminates the program'); continue
                            n += 1; ex.prove(t3, ex.to_int(ex.peek(t3, d, 0)) == res, 'awaiting the fiber yields what its function returned'); finish(t3, 1)
        ex.prove(State(), n >= 3, 'results are looked at')
    V.check('fiber<T>: from creation to result', mod, fresult)
    def fown(ex):
        def pre(eng, empty=()):
            st = w.setup(ex); st.ghost.update(destroyed=(), destroying=False, objs=0); a, b = ex.new_region(st, 'fiber', 16), ex.new_region(st, 'other', 16); ex.addr(a); ex.addr(b); rs = []
            for q, n in ((a, 'X'), (b, 'Y')):
                if n in empty: ex.poke(st, q, 0, 0); ex.poke(st, q, 8, 0); rs.append(None); continue
                R = ex.new_region(st, 'heap', 16, 'heap'); ex.addr(R); st.ghost['heap'] = (st.ghost.get('heap') or ()) + (R.id,); ex.poke(st, R, 8, 1 if eng else 0, 1)
                if eng: w.T.put(st, Ptr(R, 0), z3.IntVal(5)); st.ghost['objs'] += 1
                ex.poke(st, q, 0, Ptr(R, 0)); ex.poke(st, q, 8, addr_sym(ex, st, n)); rs.append(R)
            def destroy(e, s, h, loc):
                nm = 'X' if e.valid(s, e.eq(h, SPtr(z3.Int('X')))) else 'Y'; e.prove(s, e.eq(h, SPtr(z3.Int(nm))), 'a fiber that exists is destroyed', loc)
                R = rs[0 if nm == 'X' else 1]; e.prove(s, R is not None and s.mem[R.id].alive, 'the place of the result exists as long as the function may run', loc); s.ghost['destroyed'] += (nm,)
            ex.hooks['destroy'] = destroy; return st, a, b, rs
        for eng in (False, True):
            for empty in ((), ('X',), ('Y',), ('X', 'Y')):
                for nm in ('ft_empty', 'ft_dtor', 'ft_move', 'ft_asgn', 'self'):
                    if nm in ('ft_empty', 'ft_move') and 'X' not in empty: continue
                    st, a, b, (R, S) = pre(eng, empty); o0 = st.ghost['objs']; args = [Ptr(a, 0)] + ([Ptr(a if nm == 'self' else b, 0)] if nm in ('ft_move', 'ft_asgn', 'self') else [])
                    for s, k, v in rets(ex, ex.exec_fn(st, F('ft_asgn' if nm == 'self' else nm), args)):
                        P = lambda c, q: ex.prove(s, c, '%s: %s' % (nm, q)); gone = nm in ('ft_dtor', 'ft_asgn') and R is not None
                        P(s.ghost['destroyed'] == (('X',) if gone else ()), 'the fiber held before is destroyed exactly once, if there is one')
                        P(s.ghost['objs'] == o0 - (1 if gone and eng else 0), 'its result is destroyed once'); P(len(s.ghost.get('heap') or ()) == len([q for q in (R, S) if q]) - (1 if gone else 0), 'its memory is freed once')
                        if nm == 'ft_dtor': continue
                        want = (R, 'X') if nm in ('self',) else ((S, 'Y') if nm in ('ft_move', 'ft_asgn') else (None, None)); eq = lambda q, u, z: And(ex.eq(ex.peek(s, q, 0), Ptr(u, 0) if u else 0), ex.eq(ex.peek(s, q, 8), SPtr(z3.Int(z)) if u else 0))
                        P(eq(a, *want), 'the handle holds the fiber and the place of its result'); 
                        if nm in ('ft_move', 'ft_asgn'): P(eq(b, None, None), 'the source is empty')
            for nm, n in (('ft_awaitl', 16), ('ft_awaitr', 16), ('ft_coawaitl', 16), ('ft_coawaitr', 16)):
                for empty in ((), ('X',)):
                    st, a, b, (R, S) = pre(eng, empty + ('Y',)); st.mem[b.id].cells = {}
                    for s, k, v in ex.live(ex.exec_fn(st, F(nm), [Ptr(b, 0), Ptr(a, 0)]), ('ret', 'throw')):
                        P = lambda c, q: ex.prove(s, c, '%s: %s' % (nm, q)); P((k == 'throw') == (R is None), 'an empty handle is rejected')
                        if k == 'ret': P(And(ex.eq(ex.peek(s, b, 0), SPtr(z3.Int('X'))), ex.eq(ex.peek(s, b, 8), Ptr(R, 0)), ex.eq(ex.peek(s, a, 0), Ptr(R, 0)), ex.eq(ex.peek(s, a, 8), SPtr(z3.Int('X')))), 'its fiber is awaited and its result is taken, the handle keeps both')
    V.check('fiber<T>: construction, destruction, assignment, await', mod, fown)
    def unwound(ex):
        ex.unroll = 4
        for s, H, life in w.states(ex, True):
            R = ex.peek(s, w.out, 0); s.ghost['resreg'] = R.r
            ex.hooks['destroy'] = lambda e, q, h, loc: (q.ghost.__setitem__('destroying', True), e.prove(q, e.eq(h, Ptr(H, 0)), 'the fiber held is destroyed', loc), e.call_ptr(q, e.load(q, Ptr(H, 8), e.mk_ptr(), loc), [h], loc))[2]
            for s2, k, v in rets(ex, ex.exec_fn(s, F('ft_dtor'), [Ptr(w.out, 0)])):
                g = s2.ghost; ex.prove(s2, g['objs'] == 1 and not (g.get('heap') or ()) and g['stack'] == 'freed', 'fiber, function, stack and result are freed exactly once'); ex.prove(s2, bool(g['swaps']) == (life == 'suspended'), 'a suspended fiber is unwound, no other is entered')
    V.check('fiber<T>: destruction in every state', mod, unwound)
    V.assume_note('mmap, munmap, mprotect and sysconf as specified (mprotect on the own mapping succeeds); pages of 4, 16 or 64 KiB; the x86-64 branch of fiber.h without ucontext is what is verified (other architectures, ASYNCPP_FIBER_USE_UCONTEXT, Windows and the sanitizer/valgrind hooks are compiled out)',
                  'semantics of the x86-64 instructions used by fiber_swap_stack as encoded in specs/C28.py; two contexts have disjoint stacks and stack pointer slots, a suspended stack is changed by nobody above its saved stack pointer; the stack is big enough for the function',
                  'the function of a fiber does not throw and lets the exception that unwinds it pass; nothing is awaited inside a catch block; a fiber is resumed by one thread at a time and only while it is suspended; await_suspend throws only if it did not hand out the handle; a function passed as lvalue to fiber<void> outlives it',
                  'std::exception_ptr, std::current_exception and rethrow by contract; allocation of the handle succeeds; an address of the thread local current fiber is not cached across a switch by the compiler')
