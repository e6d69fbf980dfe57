"""LLVM IR loader: reads bitcode through the LLVM-C API (ctypes) into small Python objects.
Functions are converted lazily, on first use."""
import ctypes as C, sys

_L = None
def lib():
    global _L
    if _L is None:
        _L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM-18.so')
        vp, cp, u, i, ull, ll, sz = C.c_void_p, C.c_char_p, C.c_uint, C.c_int, C.c_ulonglong, C.c_longlong, C.c_size_t
        def d(n, r, *a):
            f = getattr(_L, n); f.restype = r; f.argtypes = list(a)
        d('LLVMContextCreate', vp)
        d('LLVMCreateMemoryBufferWithContentsOfFile', i, cp, C.POINTER(vp), C.POINTER(cp))
        d('LLVMParseBitcodeInContext2', i, vp, vp, C.POINTER(vp))
        d('LLVMLinkModules2', i, vp, vp)
        d('LLVMGetFirstFunction', vp, vp); d('LLVMGetNextFunction', vp, vp)
        d('LLVMGetNamedFunction', vp, vp, cp)
        d('LLVMGetFirstGlobal', vp, vp); d('LLVMGetNextGlobal', vp, vp)
        d('LLVMGetFirstGlobalAlias', vp, vp); d('LLVMGetNextGlobalAlias', vp, vp); d('LLVMAliasGetAliasee', vp, vp)
        d('LLVMGetNamedGlobal', vp, vp, cp)
        d('LLVMGetValueName2', C.c_void_p, vp, C.POINTER(sz))
        d('LLVMIsDeclaration', i, vp)
        d('LLVMGetInitializer', vp, vp); d('LLVMIsGlobalConstant', i, vp)
        d('LLVMGlobalGetValueType', vp, vp)
        d('LLVMCountParams', u, vp); d('LLVMGetParam', vp, vp, u)
        d('LLVMGetFirstBasicBlock', vp, vp); d('LLVMGetNextBasicBlock', vp, vp)
        d('LLVMGetFirstInstruction', vp, vp); d('LLVMGetNextInstruction', vp, vp)
        d('LLVMGetInstructionOpcode', i, vp)
        d('LLVMTypeOf', vp, vp); d('LLVMGetTypeKind', i, vp); d('LLVMGetIntTypeWidth', u, vp)
        d('LLVMGetNumOperands', i, vp); d('LLVMGetOperand', vp, vp, u)
        d('LLVMGetValueKind', i, vp)
        d('LLVMConstIntGetZExtValue', ull, vp)
        d('LLVMPrintValueToString', C.c_void_p, vp); d('LLVMDisposeMessage', None, C.c_void_p)
        d('LLVMPrintTypeToString', C.c_void_p, vp)
        d('LLVMConstRealGetDouble', C.c_double, vp, C.POINTER(i))
        d('LLVMGetConstOpcode', i, vp)
        d('LLVMGetNumSuccessors', u, vp); d('LLVMGetSuccessor', vp, vp, u)
        d('LLVMIsConditional', i, vp)
        d('LLVMGetICmpPredicate', i, vp); d('LLVMGetFCmpPredicate', i, vp)
        d('LLVMCountIncoming', u, vp); d('LLVMGetIncomingValue', vp, vp, u); d('LLVMGetIncomingBlock', vp, vp, u)
        d('LLVMGetCalledValue', vp, vp); d('LLVMGetNumArgOperands', u, vp)
        d('LLVMGetNormalDest', vp, vp); d('LLVMGetUnwindDest', vp, vp)
        d('LLVMGetAllocatedType', vp, vp)
        d('LLVMGetGEPSourceElementType', vp, vp)
        d('LLVMGetNumIndices', u, vp); d('LLVMGetIndices', C.POINTER(u), vp)
        d('LLVMGetNumClauses', u, vp); d('LLVMGetClause', vp, vp, u); d('LLVMIsCleanup', i, vp)
        d('LLVMGetAtomicRMWBinOp', i, vp); d('LLVMGetOrdering', i, vp)
        d('LLVMGetModuleDataLayout', vp, vp)
        d('LLVMABISizeOfType', ull, vp, vp); d('LLVMStoreSizeOfType', ull, vp, vp); d('LLVMOffsetOfElement', ull, vp, vp, u)
        d('LLVMGetElementType', vp, vp); d('LLVMGetArrayLength2', ull, vp)
        d('LLVMCountStructElementTypes', u, vp); d('LLVMStructGetTypeAtIndex', vp, vp, u); d('LLVMGetStructName', cp, vp)
        d('LLVMGetElementAsConstant', vp, vp, u)
        d('LLVMIsConstantString', i, vp); d('LLVMGetAsString', C.c_void_p, vp, C.POINTER(sz))
        d('LLVMGetDebugLocLine', u, vp); d('LLVMGetDebugLocFilename', C.c_void_p, vp, C.POINTER(u))
        d('LLVMGetEnumAttributeKindForName', u, cp, sz)
        d('LLVMGetCallSiteEnumAttribute', vp, vp, u, u)
        d('LLVMGetTypeAttributeValue', vp, vp)
        d('LLVMGetAlignment', u, vp)
        d('LLVMGetReturnType', vp, vp)
        d('LLVMGetCalledFunctionType', vp, vp)
    return _L

OPN = {1:'ret',2:'br',3:'switch',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',
37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',
56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',60:'addrspacecast',66:'fneg',68:'freeze'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
RMW = {0:'xchg',1:'add',2:'sub',3:'and',4:'nand',5:'or',6:'xor',7:'max',8:'min',9:'umax',10:'umin'}

# types: ('i',w) ('p',) ('f',w) ('v',) ('s',name,[(off,ty)],size) ('a',n,ty,size) ('x',)
class Instr:
    __slots__ = ('op','ty','ops','dst','x','line','file','name','fn')
    def __repr__(s): return f'<{s.op} {s.name} @{s.file}:{s.line}>'

class Block:
    __slots__ = ('name','ins','idx','succ','loop')

class Func:
    __slots__ = ('name','mod','ref','nparams','params','blocks','nregs','decl','loops','conv','ptypes','bymap','allocas')

class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()

class Module:
    def __init__(self, paths):
        L = self.L = lib()
        self.ctx = L.LLVMContextCreate()
        self.mod = None
        for p in paths:
            buf = C.c_void_p(); err = C.c_char_p()
            if L.LLVMCreateMemoryBufferWithContentsOfFile(p.encode(), C.byref(buf), C.byref(err)):
                raise Exception('cannot read ' + p)
            m = C.c_void_p()
            if L.LLVMParseBitcodeInContext2(self.ctx, buf, C.byref(m)):
                raise Exception('bad bitcode ' + p)
            if self.mod is None: self.mod = m
            elif L.LLVMLinkModules2(self.mod, m): raise Exception('link failed ' + p)
        self.td = L.LLVMGetModuleDataLayout(self.mod)
        self.tcache = {}
        self.funcs = {}     # name -> Func
        self.fref = {}      # ref -> Func
        self.globs = {}     # ref -> name ; name->ref
        self.gname = {}
        self.aliases = {}
        f = L.LLVMGetFirstFunction(self.mod)
        while f:
            n = self.vname(f)
            F = Func(); F.name = n; F.mod = self; F.ref = f; F.decl = bool(L.LLVMIsDeclaration(f)); F.conv = False
            self.funcs[n] = F; self.fref[f] = F
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(self.mod)
        while g:
            n = self.vname(g); self.globs[g] = n; self.gname[n] = g
            g = L.LLVMGetNextGlobal(g)
        g = L.LLVMGetFirstGlobalAlias(self.mod)
        while g:
            self.aliases[g] = L.LLVMAliasGetAliasee(g)
            n = self.vname(g)
            a = self.aliases[g]
            if a in self.fref: self.funcs[n] = self.fref[a]
            g = L.LLVMGetNextGlobalAlias(g)
        self.byval_kind = L.LLVMGetEnumAttributeKindForName(b'byval', 5)

    def vname(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode() if n.value else ''

    def vstr(self, v):
        p = self.L.LLVMPrintValueToString(v)
        s = C.string_at(p).decode(); self.L.LLVMDisposeMessage(p); return s

    def ty(self, t):
        r = self.tcache.get(t)
        if r is not None: return r
        L = self.L
        k = L.LLVMGetTypeKind(t)
        # 0 void 1 half 2 float 3 double 4 x86fp80 5 fp128 6 ppc 7 label 8 int 9 function 10 struct 11 array 12 pointer 13 vector 14 metadata
        if k == 8: r = ('i', L.LLVMGetIntTypeWidth(t))
        elif k == 12: r = ('p',)
        elif k == 0: r = ('v',)
        elif k == 2: r = ('f', 32)
        elif k == 3: r = ('f', 64)
        elif k == 4: r = ('f', 80)
        elif k == 10:
            n = L.LLVMCountStructElementTypes(t)
            nm = L.LLVMGetStructName(t)
            try: sz = L.LLVMABISizeOfType(self.td, t)
            except Exception: sz = 0
            r = ('s', nm.decode() if nm else '', [(L.LLVMOffsetOfElement(self.td, t, i), self.ty(L.LLVMStructGetTypeAtIndex(t, i))) for i in range(n)], sz)
        elif k == 11:
            e = self.ty(L.LLVMGetElementType(t)); n = L.LLVMGetArrayLength2(t)
            r = ('a', n, e, L.LLVMABISizeOfType(self.td, t))
        else: r = ('x', k)
        self.tcache[t] = r
        return r

    def size(self, t):
        k = t[0]
        if k == 'i':
            w = t[1]; return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else (w + 7) // 8
        if k == 'p': return 8
        if k == 'f': return 4 if t[1] == 32 else 8 if t[1] == 64 else 16
        if k in 'sa': return t[3]
        return 0

    # ---- constants -> neutral form:
    # ('int', v, w) ('null',) ('gl', name, off) ('fn', name) ('flt', v) ('undef',ty) ('agg', ty, [..]) ('zero', ty) ('bytes', b) ('psub', a, b, w)...
    def const(self, v):
        L = self.L; k = L.LLVMGetValueKind(v); t = self.ty(L.LLVMTypeOf(v))
        if k == 18:
            w = t[1]
            if w <= 64: return ('int', L.LLVMConstIntGetZExtValue(v) & ((1 << w) - 1), w)
            s = self.vstr(v).split()[-1]; s = {'true':1,'false':0}.get(s, s)
            return ('int', int(s) & ((1 << w) - 1), w)
        if k == 20: return ('null',)
        if k == 5: return ('fn', self.vname(v))
        if k == 8: return ('gl', self.vname(v), 0)
        if k == 6: return self.const(L.LLVMAliasGetAliasee(v))
        if k in (14, 25): return ('undef', t)
        if k == 15: return ('zero', t)
        if k == 19:
            b = C.c_int(); return ('flt', L.LLVMConstRealGetDouble(v, C.byref(b)))
        if k == 16:
            if t[2] == ('i', 8):
                n = C.c_size_t(); p = L.LLVMGetAsString(v, C.byref(n))
                return ('bytes', C.string_at(p, n.value))
            return ('agg', t, [self.const(L.LLVMGetElementAsConstant(v, i)) for i in range(t[1])])
        if k in (11, 12):
            return ('agg', t, [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))])
        if k == 10:
            op = OPN.get(L.LLVMGetConstOpcode(v))
            if op == 'gep':
                base = self.const(L.LLVMGetOperand(v, 0))
                off, dyn = self.gep(v, lambda o: self.const(o)[1])
                assert not dyn
                if base[0] == 'gl': return ('gl', base[1], base[2] + off)
                if base[0] == 'null': return ('int', off, 64)
                raise Exception('const gep ' + self.vstr(v))
            if op in ('bitcast', 'addrspacecast', 'ptrtoint'):
                return self.const(L.LLVMGetOperand(v, 0))
            if op == 'inttoptr':
                c = self.const(L.LLVMGetOperand(v, 0)); return ('i2p', c[1])
            if op in ('sub', 'add'):
                return (op, self.const(L.LLVMGetOperand(v, 0)), self.const(L.LLVMGetOperand(v, 1)), t[1])
            if op == 'trunc':
                return ('trunc', self.const(L.LLVMGetOperand(v, 0)), t[1])
            raise Exception('constexpr ' + self.vstr(v))
        raise Exception('const kind %d %s' % (k, self.vstr(v)))

    def gep(self, v, cint):
        """returns const offset and list of (operand ref, scale)"""
        L = self.L
        t = self.ty(L.LLVMGetGEPSourceElementType(v))
        off = 0; dyn = []
        for i in range(1, L.LLVMGetNumOperands(v)):
            o = L.LLVMGetOperand(v, i)
            isc = L.LLVMGetValueKind(o) == 18
            if i == 1: scale = self.size(t)
            elif t[0] == 's':
                idx = cint(o); off += t[2][idx][0]; t = t[2][idx][1]; continue
            elif t[0] == 'a':
                t = t[2]; scale = self.size(t)
            else: raise Exception('gep into ' + str(t))
            if isc:
                w = self.ty(L.LLVMTypeOf(o))[1]
                c = L.LLVMConstIntGetZExtValue(o) & ((1 << w) - 1)
                if c >> (w - 1): c -= 1 << w
                off += c * scale
            else: dyn.append((o, scale))
        return off, dyn

    def convert(self, F):
        if F.conv: return F
        L = self.L
        F.conv = True
        regs = {}
        F.nparams = L.LLVMCountParams(F.ref)
        F.params = []; F.ptypes = []
        for i in range(F.nparams):
            p = L.LLVMGetParam(F.ref, i); regs[p] = i; F.params.append(self.vname(p)); F.ptypes.append(self.ty(L.LLVMTypeOf(p)))
        nreg = F.nparams
        bbs = {}; order = []
        b = L.LLVMGetFirstBasicBlock(F.ref)
        while b:
            bbs[b] = len(order); order.append(b); b = L.LLVMGetNextBasicBlock(b)
        insl = []
        for b in order:
            l = []; i = L.LLVMGetFirstInstruction(b)
            while i:
                l.append(i); regs[i] = nreg; nreg += 1; i = L.LLVMGetNextInstruction(i)
            insl.append(l)
        F.nregs = nreg
        def operand(o):
            r = regs.get(o)
            if r is not None: return ('l', r)
            k = L.LLVMGetValueKind(o)
            if k == 22: return ('md',)
            if k == 23: return ('asm', self.vstr(o))
            return ('c', self.const(o))
        F.blocks = []
        F.allocas = {}
        for bi, l in enumerate(insl):
            B = Block(); B.idx = bi; B.name = ''; B.ins = []; B.loop = None
            for i in l:
                I = Instr(); I.fn = F
                opc = L.LLVMGetInstructionOpcode(i)
                op = I.op = OPN.get(opc, 'op%d' % opc)
                I.ty = self.ty(L.LLVMTypeOf(i)); I.dst = regs[i]; I.x = None; I.name = None
                I.line = L.LLVMGetDebugLocLine(i)
                n = C.c_uint(); p = L.LLVMGetDebugLocFilename(i, C.byref(n))
                I.file = sys.intern(C.string_at(p, n.value).decode()) if p and n.value else ''
                no = L.LLVMGetNumOperands(i)
                if op in ('call', 'invoke'):
                    na = L.LLVMGetNumArgOperands(i)
                    cv = L.LLVMGetCalledValue(i)
                    nm = None
                    while L.LLVMGetValueKind(cv) == 6: cv = L.LLVMAliasGetAliasee(cv)
                    if L.LLVMGetValueKind(cv) == 5: nm = self.vname(cv)
                    if nm and nm.startswith(('llvm.dbg.', 'llvm.lifetime', 'llvm.experimental.noalias')) and op == 'call':
                        continue
                    args = [L.LLVMGetOperand(i, j) for j in range(na)]
                    I.ops = [operand(a) for a in args]
                    bv = {}
                    for j in range(na):
                        at = L.LLVMGetCallSiteEnumAttribute(i, j + 1, self.byval_kind)
                        if at: bv[j] = self.size(self.ty(L.LLVMGetTypeAttributeValue(at)))
                    tys = [self.ty(L.LLVMTypeOf(a)) for a in args]
                    I.x = dict(name=nm, callee=None if nm else operand(cv), byval=bv, tys=tys)
                    if op == 'invoke':
                        I.x['nd'] = bbs[L.LLVMGetNormalDest(i)]; I.x['ud'] = bbs[L.LLVMGetUnwindDest(i)]
                elif op == 'br':
                    if L.LLVMIsConditional(i):
                        I.ops = [operand(L.LLVMGetOperand(i, 0))]
                        I.x = (bbs[L.LLVMGetSuccessor(i, 0)], bbs[L.LLVMGetSuccessor(i, 1)])
                    else:
                        I.ops = []; I.x = (bbs[L.LLVMGetSuccessor(i, 0)],)
                elif op == 'switch':
                    I.ops = [operand(L.LLVMGetOperand(i, 0))]
                    cases = []
                    for j in range(2, no, 2):
                        cases.append((self.const(L.LLVMGetOperand(i, j))[1], bbs[L.LLVMGetOperand(i, j + 1)]))
                    I.x = (bbs[L.LLVMGetOperand(i, 1)], cases, self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))[1])
                elif op == 'phi':
                    I.ops = []
                    I.x = {bbs[L.LLVMGetIncomingBlock(i, j)]: operand(L.LLVMGetIncomingValue(i, j)) for j in range(L.LLVMCountIncoming(i))}
                elif op == 'alloca':
                    I.ops = [operand(L.LLVMGetOperand(i, 0))]
                    t = self.ty(L.LLVMGetAllocatedType(i)); I.x = (self.size(t), t); I.name = self.vname(i)
                    F.allocas.setdefault(I.name, I.dst)
                elif op == 'gep':
                    def cint(o): return L.LLVMConstIntGetZExtValue(o)
                    off, dyn = self.gep(i, cint)
                    I.ops = [operand(L.LLVMGetOperand(i, 0))]
                    I.x = (off, [(operand(o), s, self.ty(L.LLVMTypeOf(o))[1]) for o, s in dyn])
                elif op == 'landingpad':
                    I.ops = []
                    cl = []
                    for j in range(L.LLVMGetNumClauses(i)):
                        c = L.LLVMGetClause(i, j)
                        if self.ty(L.LLVMTypeOf(c))[0] == 'p': cl.append(('catch', self.const(c)))
                        else: cl.append(('filter', self.const(c)))
                    I.x = (cl, bool(L.LLVMIsCleanup(i)))
                else:
                    I.ops = [operand(L.LLVMGetOperand(i, j)) for j in range(no)]
                    if op == 'icmp': I.x = (ICMP[L.LLVMGetICmpPredicate(i)], self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
                    elif op == 'fcmp': I.x = FCMP[L.LLVMGetFCmpPredicate(i)]
                    elif op in ('extractvalue', 'insertvalue'):
                        n = L.LLVMGetNumIndices(i); ix = L.LLVMGetIndices(i); I.x = [ix[j] for j in range(n)]
                    elif op == 'atomicrmw': I.x = RMW[L.LLVMGetAtomicRMWBinOp(i)]
                    elif op in ('store',): I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'select', 'cmpxchg', 'freeze'):
                        I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 1 if op in ('cmpxchg',) else 0)))
                if op in ('load', 'store') and L.LLVMGetOrdering(i): I.op = 'a' + op
                B.ins.append(I)
            t = B.ins[-1]
            if t.op == 'br': B.succ = list(t.x)
            elif t.op == 'switch': B.succ = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke': B.succ = [t.x['nd'], t.x['ud']]
            else: B.succ = []
            F.blocks.append(B)
        self.find_loops(F)
        return F

    def find_loops(self, F):
        n = len(F.blocks)
        preds = [[] for _ in range(n)]
        for b in F.blocks:
            for s in b.succ: preds[s].append(b.idx)
        # dominators (iterative)
        order = []; seen = set()
        stack = [(0, iter(F.blocks[0].succ))] if n else []
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(F.blocks[s].succ))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        dom = {0: {0}}
        allb = set(order)
        for b in order:
            if b: dom[b] = allb
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0: continue
                ps = [dom[p] for p in preds[b] if p in dom]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        loops = {}
        for b in order:
            for s in F.blocks[b].succ:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x); st.extend(p for p in preds[x] if p in dom)
        F.loops = loops
