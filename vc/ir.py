"""LLVM IR reader: loads textual IR through libLLVM-18's C API and exposes it as plain Python
objects.  No semantics here."""
import ctypes as C, glob, re, subprocess

_L = None
def lib():
    global _L
    if _L is None:
        for p in ('/usr/lib/llvm-18/lib/libLLVM-18.so', 'libLLVM-18.so', 'libLLVM.so.18.1'):
            try:
                _L = C.CDLL(p); break
            except OSError:
                continue
        if _L is None:
            raise RuntimeError('libLLVM-18 not found')
        P = C.c_void_p
        def f(name, res, *args):
            fn = getattr(_L, name); fn.restype = res; fn.argtypes = list(args)
        f('LLVMContextCreate', P)
        f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
        f('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
        f('LLVMGetModuleDataLayout', P, P)
        for n in ('GetFirstFunction', 'GetNextFunction', 'GetFirstBasicBlock', 'GetNextBasicBlock',
                  'GetFirstInstruction', 'GetNextInstruction', 'GetFirstGlobal', 'GetNextGlobal',
                  'GetInitializer', 'TypeOf', 'GetInstructionParent', 'GetBasicBlockTerminator',
                  'GlobalGetValueType', 'GetAllocatedType', 'GetGEPSourceElementType', 'GetCalledValue',
                  'GetCalledFunctionType', 'GetNormalDest', 'GetUnwindDest', 'GetElementType', 'GetReturnType',
                  'BasicBlockAsValue', 'ValueAsBasicBlock', 'GetFirstGlobalAlias', 'GetNextGlobalAlias', 'AliasGetAliasee',
                  'GetAggregateElement', 'GetPersonalityFn'):
            f('LLVM' + n, P, P)
        _L.LLVMGetAggregateElement.argtypes = [P, C.c_uint]
        f('LLVMGetValueName2', C.c_char_p, P, C.POINTER(C.c_size_t))
        f('LLVMGetBasicBlockName', C.c_char_p, P)
        for n in ('GetInstructionOpcode', 'GetNumOperands', 'GetTypeKind', 'GetIntTypeWidth', 'CountStructElementTypes',
                  'GetArrayLength2', 'CountParams', 'CountParamTypes', 'GetICmpPredicate', 'GetNumArgOperands', 'CountIncoming', 'GetConstOpcode',
                  'IsConstant', 'IsUndef', 'IsPoison', 'IsNull', 'GetOrdering', 'GetCmpXchgSuccessOrdering', 'GetCmpXchgFailureOrdering',
                  'GetWeak', 'GetAtomicRMWBinOp', 'GetValueKind', 'GetNumIndices', 'IsConditional', 'GetNumClauses', 'IsCleanup',
                  'IsDeclaration', 'GetNUW', 'GetNSW', 'GetVolatile', 'IsPackedStruct', 'GetFCmpPredicate', 'IsFunctionVarArg', 'IsConstantString', 'IsGlobalConstant', 'IsThreadLocal'):
            f('LLVM' + n, C.c_uint, P)
        _L.LLVMGetArrayLength2.restype = C.c_uint64
        f('LLVMConstIntGetZExtValue', C.c_uint64, P)
        f('LLVMGetOperand', P, P, C.c_uint)
        f('LLVMGetArgOperand', P, P, C.c_uint) if hasattr(_L, 'LLVMGetArgOperand') else None
        f('LLVMGetParam', P, P, C.c_uint)
        f('LLVMGetIncomingValue', P, P, C.c_uint)
        f('LLVMGetIncomingBlock', P, P, C.c_uint)
        f('LLVMGetSuccessor', P, P, C.c_uint)
        f('LLVMGetNumSuccessors', C.c_uint, P)
        f('LLVMGetIndices', C.POINTER(C.c_uint), P)
        f('LLVMGetClause', P, P, C.c_uint)
        f('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
        f('LLVMOffsetOfElement', C.c_uint64, P, P, C.c_uint)
        f('LLVMABISizeOfType', C.c_uint64, P, P)
        f('LLVMStoreSizeOfType', C.c_uint64, P, P)
        f('LLVMABIAlignmentOfType', C.c_uint, P, P)
        f('LLVMGetStructName', C.c_char_p, P)
        f('LLVMPrintTypeToString', C.c_char_p, P)
        f('LLVMPrintValueToString', C.c_char_p, P)
        f('LLVMGetParamTypes', None, P, C.POINTER(P))
        f('LLVMGetAlignment', C.c_uint, P)
        f('LLVMGetCallSiteAttributeCount', C.c_uint, P, C.c_uint)
        f('LLVMGetEnumAttributeKindForName', C.c_uint, C.c_char_p, C.c_size_t)
        f('LLVMGetEnumAttributeAtIndex', P, P, C.c_uint, C.c_uint)
        f('LLVMGetCallSiteEnumAttribute', P, P, C.c_uint, C.c_uint)
        f('LLVMGetDebugLocLine', C.c_uint, P)
        f('LLVMGetDebugLocFilename', C.c_char_p, P, C.POINTER(C.c_uint))
        f('LLVMGetAsString', C.c_char_p, P, C.POINTER(C.c_size_t))
    return _L

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',
 12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
 26:'alloca',27:'load',28:'store',29:'getelementptr',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',
 37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
 50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',
 58:'resume',59:'landingpad',47:'userop1',49:'va_arg'}
PRED = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
ORD = {0:'na',1:'unordered',2:'relaxed',4:'acquire',5:'release',6:'acq_rel',7:'seq_cst'}
RMW = {0:'xchg',1:'add',2:'sub',3:'and',4:'nand',5:'or',6:'xor',7:'max',8:'min',9:'umax',10:'umin'}
# type kinds (LLVMTypeKind, LLVM 18)
TK = {0:'void',1:'half',2:'float',3:'double',4:'x86_fp80',5:'fp128',6:'ppc',7:'label',8:'int',9:'func',10:'struct',11:'array',12:'ptr',13:'vector',14:'metadata',16:'token'}

class Type:
    __slots__ = ('kind', 'width', 'fields', 'offsets', 'elem', 'n', 'size', 'align', 'name', 'ret', 'params', 'h')
    def __repr__(self):
        if self.kind == 'int': return 'i%d' % self.width
        if self.kind == 'struct': return self.name or '{%s}' % ','.join(map(repr, self.fields))
        if self.kind == 'array': return '[%d x %r]' % (self.n, self.elem)
        return self.kind

class Const:       # constant operand; kind: int,null,undef,zero,global,func,expr,struct,array,data,bb
    __slots__ = ('kind', 'val', 'ty', 'ops', 'op', 'srcty')
    def __repr__(self): return '<%s %r>' % (self.kind, self.val)
class Ref:         # reference to an instruction / argument by SSA id
    __slots__ = ('id', 'ty')
    def __init__(self, id, ty): self.id = id; self.ty = ty
    def __repr__(self): return '%%%s' % (self.id,)
class Instr:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'name', 'text')
    def __repr__(self): return '%s=%s %r %r' % (self.id, self.op, self.ops, self.x)
class Block:
    __slots__ = ('idx', 'name', 'instrs', 'succs')
class Func:
    def __init__(self): self.body = None

class Module:
    def __init__(self, path):
        L = lib(); self.L = L
        self.ctx = L.LLVMContextCreate()
        buf = C.c_void_p(); msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError('read ' + path)
        m = C.c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError('parse: %s' % (msg.value,))
        self.m = m; self.dl = L.LLVMGetModuleDataLayout(m)
        self.types = {}; self.funcs = {}; self.globals = {}; self.aliases = {}
        self.kinds = {k: L.LLVMGetEnumAttributeKindForName(k.encode(), len(k)) for k in ('nounwind', 'noreturn', 'sret', 'byval', 'zeroext')}
        fn = L.LLVMGetFirstFunction(m)
        while fn:
            F = Func(); F.h = fn; F.name = self._name(fn)
            F.decl = bool(L.LLVMIsDeclaration(fn))
            F.ty = self.ty(L.LLVMGlobalGetValueType(fn))
            F.nounwind = bool(L.LLVMGetEnumAttributeAtIndex(fn, 0xFFFFFFFF, self.kinds['nounwind']))
            F.noreturn = bool(L.LLVMGetEnumAttributeAtIndex(fn, 0xFFFFFFFF, self.kinds['noreturn']))
            F.mod = self
            self.funcs[F.name] = F
            fn = L.LLVMGetNextFunction(fn)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.globals[self._name(g)] = g
            g = L.LLVMGetNextGlobal(g)
        g = L.LLVMGetFirstGlobalAlias(m)
        while g:
            self.aliases[self._name(g)] = self._name(L.LLVMAliasGetAliasee(g))
            g = L.LLVMGetNextGlobalAlias(g)
        names = list(self.funcs) + list(self.globals)
        dem = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True, check=True).stdout.split('\n')
        self.demangled = dict(zip(names, dem))
        for n, F in self.funcs.items():
            F.dem = self.demangled[n]
        self._init = {}

    def _name(self, v):
        n = C.c_size_t(); s = self.L.LLVMGetValueName2(v, C.byref(n))
        return s.decode()
    def ty(self, h):
        t = self.types.get(h)
        if t is not None: return t
        L = self.L
        t = Type(); t.h = h; t.kind = TK.get(L.LLVMGetTypeKind(h), 'other'); t.size = 0; t.align = 1; t.name = None
        self.types[h] = t
        if t.kind == 'int': t.width = L.LLVMGetIntTypeWidth(h)
        if t.kind == 'struct':
            n = L.LLVMCountStructElementTypes(h)
            s = L.LLVMGetStructName(h); t.name = s.decode() if s else None
            t.fields = [self.ty(L.LLVMStructGetTypeAtIndex(h, i)) for i in range(n)]
            try: t.offsets = [L.LLVMOffsetOfElement(self.dl, h, i) for i in range(n)]
            except Exception: t.offsets = []
        if t.kind == 'array':
            t.n = L.LLVMGetArrayLength2(h); t.elem = self.ty(L.LLVMGetElementType(h))
        if t.kind == 'func':
            n = L.LLVMCountParamTypes(h); a = (C.c_void_p * max(n, 1))(); L.LLVMGetParamTypes(h, a)
            t.params = [self.ty(a[i]) for i in range(n)]; t.ret = self.ty(L.LLVMGetReturnType(h))
        if t.kind in ('int', 'float', 'double', 'ptr', 'array', 'vector', 'x86_fp80') or (t.kind == 'struct'):
            t.size = L.LLVMABISizeOfType(self.dl, h) if not (t.kind == 'struct' and t.name and not t.fields and self._opaque(h)) else 0
            t.align = L.LLVMABIAlignmentOfType(self.dl, h) if t.size else 1
        return t
    def _opaque(self, h):
        s = self.L.LLVMPrintTypeToString(h)
        return b'opaque' in s

    # LLVMValueKind (18): 0 Argument,1 BasicBlock,... use robust probing
    def const(self, h):
        L = self.L
        c = Const(); c.ty = self.ty(L.LLVMTypeOf(h)); c.ops = None; c.val = None; c.op = None; c.srcty = None
        k = L.LLVMGetValueKind(h)
        VK = {5: 'func', 6: 'alias', 8: 'global'}
        if k == 5: c.kind = 'func'; c.val = self._name(h); return c
        if k == 6:
            c.kind = 'func'; c.val = self.aliases.get(self._name(h), self._name(h))
            if c.val not in self.funcs: c.kind = 'global'
            return c
        if k == 8: c.kind = 'global'; c.val = self._name(h); return c
        if L.LLVMIsUndef(h): c.kind = 'undef'; return c     # poison is an undef too
        if c.ty.kind == 'int' and k not in (10, ):           # ConstantInt or expr
            if L.LLVMIsNull(h): c.kind = 'int'; c.val = 0; return c
            s = L.LLVMPrintValueToString(h).decode()
            mm = re.match(r'^i(\d+) (-?\d+|true|false)$', s)
            if mm:
                v = mm.group(2)
                v = {'true': 1, 'false': 0}.get(v, None) if v in ('true', 'false') else int(v)
                c.kind = 'int'; c.val = v % (1 << c.ty.width); return c
        if L.LLVMIsNull(h):
            c.kind = 'null' if c.ty.kind == 'ptr' else 'zero'; return c
        if k == 10 or (L.LLVMGetNumOperands(h) and c.ty.kind in ('ptr', 'int')):
            c.kind = 'expr'; op = OPC.get(L.LLVMGetConstOpcode(h)); c.op = op
            c.ops = [self.const(L.LLVMGetOperand(h, i)) for i in range(L.LLVMGetNumOperands(h))]
            if op == 'getelementptr': c.srcty = self.ty(L.LLVMGetGEPSourceElementType(h))
            return c
        if c.ty.kind == 'struct':
            c.kind = 'struct'; c.ops = [self.const(L.LLVMGetAggregateElement(h, i)) for i in range(len(c.ty.fields))]; return c
        if c.ty.kind == 'array':
            c.kind = 'array'; c.ops = [self.const(L.LLVMGetAggregateElement(h, i)) for i in range(c.ty.n)]; return c
        c.kind = 'other'; c.val = L.LLVMPrintValueToString(h).decode()
        return c

    def initializer(self, name):
        if name not in self._init:
            g = self.globals[name]
            # the initial value of a mutable or thread-local global says nothing about its value now
            ini = self.L.LLVMGetInitializer(g) if self.L.LLVMIsGlobalConstant(g) else None
            self._init[name] = (self.const(ini) if ini else None, self.ty(self.L.LLVMGlobalGetValueType(g)))
        return self._init[name]

    def is_tls(self, name): return bool(self.L.LLVMIsThreadLocal(self.globals[name]))
    def raw_initializer(self, name):
        ini = self.L.LLVMGetInitializer(self.globals[name])
        return self.const(ini).kind if ini else None
    def load(self, F):
        """materialize a function body"""
        if F.body is not None or F.decl: return F
        L = self.L; h = F.h
        F.args = []; ids = {}
        n = len(F.ty.params)
        for i in range(n):
            a = L.LLVMGetParam(h, i); ids[a] = ('a', i); F.args.append(Ref(('a', i), F.ty.params[i]))
        blocks = []; bidx = {}
        bb = L.LLVMGetFirstBasicBlock(h)
        while bb:
            b = Block(); b.idx = len(blocks); b.name = L.LLVMGetBasicBlockName(bb).decode(); b.instrs = []
            bidx[bb] = b.idx; blocks.append((bb, b)); bb = L.LLVMGetNextBasicBlock(bb)
        cnt = 0; pend = []
        for bb, b in blocks:
            it = L.LLVMGetFirstInstruction(bb)
            while it:
                I = Instr(); I.id = ('i', cnt); cnt += 1; ids[it] = I.id
                I.op = OPC.get(L.LLVMGetInstructionOpcode(it), 'op%d' % L.LLVMGetInstructionOpcode(it))
                I.ty = self.ty(L.LLVMTypeOf(it)); I.name = self._name(it) if I.ty.kind != 'void' else ''
                I.x = None; I.text = None
                ln = L.LLVMGetDebugLocLine(it)
                if ln:
                    n_ = C.c_uint(); fnm = L.LLVMGetDebugLocFilename(it, C.byref(n_)); fnm = fnm[:n_.value].decode() if fnm else '?'
                    I.text = '%s:%d' % (fnm.rsplit('/', 1)[-1], ln)
                b.instrs.append(I); pend.append((it, I))
                it = L.LLVMGetNextInstruction(it)
        VB = {}
        for bb, b in blocks: VB[L.LLVMBasicBlockAsValue(bb)] = b.idx
        def opnd(o):
            if o in ids: return Ref(ids[o], self.ty(L.LLVMTypeOf(o)))
            if o in VB: return VB[o]
            t = self.ty(L.LLVMTypeOf(o))
            if t.kind in ('metadata', 'other', 'token'):
                c = Const(); c.kind = 'meta'; c.ty = t; c.val = None; c.ops = None; c.op = None; c.srcty = None; return c
            return self.const(o)
        for it, I in pend:
            op = I.op
            nops = L.LLVMGetNumOperands(it)
            if op == 'phi':
                I.ops = []
                I.x = []
                for i in range(L.LLVMCountIncoming(it)):
                    I.x.append((bidx[L.LLVMGetIncomingBlock(it, i)], opnd(L.LLVMGetIncomingValue(it, i))))
                continue
            if op in ('br',):
                ns = L.LLVMGetNumSuccessors(it)
                I.x = [bidx[L.LLVMGetSuccessor(it, i)] for i in range(ns)]
                I.ops = [opnd(L.LLVMGetOperand(it, 0))] if ns == 2 else []
                continue
            if op == 'switch':
                I.ops = [opnd(L.LLVMGetOperand(it, 0))]
                I.x = (bidx[L.LLVMGetSuccessor(it, 0)], [(opnd(L.LLVMGetOperand(it, 2 * i)), bidx[L.LLVMGetSuccessor(it, i)]) for i in range(1, nops // 2)])
                continue
            if op in ('call', 'invoke'):
                na = L.LLVMGetNumArgOperands(it)
                I.ops = [opnd(L.LLVMGetOperand(it, i)) for i in range(na)]
                cv = L.LLVMGetCalledValue(it)
                I.x = dict(callee=opnd(cv), fty=self.ty(L.LLVMGetCalledFunctionType(it)))
                I.x['nounwind'] = bool(L.LLVMGetCallSiteEnumAttribute(it, 0xFFFFFFFF, self.kinds['nounwind']))
                if I.x['callee'].__class__ is Const and I.x['callee'].kind == 'other':
                    I.x['asm'] = I.x['callee'].val
                if op == 'invoke':
                    I.x['normal'] = bidx[L.LLVMGetNormalDest(it)]; I.x['unwind'] = bidx[L.LLVMGetUnwindDest(it)]
                continue
            I.ops = [opnd(L.LLVMGetOperand(it, i)) for i in range(nops)]
            if op == 'icmp': I.x = PRED[L.LLVMGetICmpPredicate(it)]
            elif op == 'fcmp': I.x = L.LLVMGetFCmpPredicate(it)
            elif op == 'alloca': I.x = self.ty(L.LLVMGetAllocatedType(it))
            elif op == 'getelementptr': I.x = self.ty(L.LLVMGetGEPSourceElementType(it))
            elif op in ('extractvalue', 'insertvalue'):
                k = L.LLVMGetNumIndices(it); p = L.LLVMGetIndices(it); I.x = [p[i] for i in range(k)]
            elif op == 'cmpxchg':
                I.x = (ORD[L.LLVMGetCmpXchgSuccessOrdering(it)], ORD[L.LLVMGetCmpXchgFailureOrdering(it)], bool(L.LLVMGetWeak(it)))
            elif op == 'atomicrmw': I.x = (RMW[L.LLVMGetAtomicRMWBinOp(it)], ORD[L.LLVMGetOrdering(it)])
            elif op in ('load', 'store'): I.x = ORD[L.LLVMGetOrdering(it)]
            elif op == 'fence': I.x = ORD[L.LLVMGetOrdering(it)]
            elif op == 'landingpad':
                I.x = ([opnd(L.LLVMGetClause(it, i)) for i in range(L.LLVMGetNumClauses(it))], bool(L.LLVMIsCleanup(it)))
            elif op in ('add', 'sub', 'mul', 'shl'):
                I.x = (bool(L.LLVMGetNUW(it)), bool(L.LLVMGetNSW(it)))
        F.body = [b for _, b in blocks]
        for b in F.body:
            t = b.instrs[-1]
            b.succs = {'br': lambda: list(t.x), 'switch': lambda: [t.x[0]] + [d for _, d in t.x[1]],
                       'invoke': lambda: [t.x['normal'], t.x['unwind']]}.get(t.op, lambda: [])()
        self._loops(F)
        return F

    def _loops(self, F):
        """natural loops: F.headers: header -> set(body blocks)"""
        n = len(F.body)
        preds = [[] for _ in range(n)]
        for b in F.body:
            for s in b.succs: preds[s].append(b.idx)
        # dominators (iterative)
        dom = [set(range(n)) for _ in range(n)]; dom[0] = {0}
        reach = set(); st = [0]
        while st:
            x = st.pop()
            if x in reach: continue
            reach.add(x); st += F.body[x].succs
        ch = True
        while ch:
            ch = False
            for i in range(1, n):
                if i not in reach: continue
                ps = [dom[p] for p in preds[i] if p in reach]
                new = set.intersection(*ps) | {i} if ps else {i}
                if new != dom[i]: dom[i] = new; ch = True
        F.headers = {}
        for b in F.body:
            if b.idx not in reach: continue
            for s in b.succs:
                if s in dom[b.idx]:
                    body = F.headers.setdefault(s, {s}); st = [b.idx]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += preds[x]
        F.preds = preds

    def find(self, pattern, defined=True):
        r = re.compile(pattern)
        return [F for F in self.funcs.values() if r.search(F.dem) and (not defined or not F.decl)]
