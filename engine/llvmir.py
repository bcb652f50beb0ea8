"""Loads LLVM bitcode (produced by clang-18 from /repo's current headers) through
the LLVM C API (ctypes) and turns it into plain Python structures.

Nothing here interprets anything: it is a faithful transcription of the module.
"""
import ctypes as C
import subprocess

_L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
_P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


u = C.c_uint
ull = C.c_ulonglong
cs = C.c_char_p
CtxCreate = _f("LLVMContextCreate", _P)
MemBufFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, cs, C.POINTER(_P), C.POINTER(cs))
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, _P, _P, C.POINTER(_P))
GetDL = _f("LLVMGetModuleDataLayout", _P, _P)
FirstFn = _f("LLVMGetFirstFunction", _P, _P)
NextFn = _f("LLVMGetNextFunction", _P, _P)
FirstGV = _f("LLVMGetFirstGlobal", _P, _P)
NextGV = _f("LLVMGetNextGlobal", _P, _P)
FirstGA = _f("LLVMGetFirstGlobalAlias", _P, _P)
NextGA = _f("LLVMGetNextGlobalAlias", _P, _P)
Aliasee = _f("LLVMAliasGetAliasee", _P, _P)
ValName = _f("LLVMGetValueName2", cs, _P, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, _P)
CountBB = _f("LLVMCountBasicBlocks", u, _P)
FirstBB = _f("LLVMGetFirstBasicBlock", _P, _P)
NextBB = _f("LLVMGetNextBasicBlock", _P, _P)
FirstI = _f("LLVMGetFirstInstruction", _P, _P)
NextI = _f("LLVMGetNextInstruction", _P, _P)
Opcode = _f("LLVMGetInstructionOpcode", u, _P)
ConstOpcode = _f("LLVMGetConstOpcode", u, _P)
NumOps = _f("LLVMGetNumOperands", C.c_int, _P)
GetOp = _f("LLVMGetOperand", _P, _P, u)
TypeOf = _f("LLVMTypeOf", _P, _P)
VKind = _f("LLVMGetValueKind", u, _P)
TKind = _f("LLVMGetTypeKind", u, _P)
IntW = _f("LLVMGetIntTypeWidth", u, _P)
ICmpP = _f("LLVMGetICmpPredicate", u, _P)
FCmpP = _f("LLVMGetFCmpPredicate", u, _P)
AllocTy = _f("LLVMGetAllocatedType", _P, _P)
GEPTy = _f("LLVMGetGEPSourceElementType", _P, _P)
NumIdx = _f("LLVMGetNumIndices", u, _P)
Idx = _f("LLVMGetIndices", C.POINTER(u), _P)
CountInc = _f("LLVMCountIncoming", u, _P)
IncV = _f("LLVMGetIncomingValue", _P, _P, u)
IncB = _f("LLVMGetIncomingBlock", _P, _P, u)
IsCond = _f("LLVMIsConditional", C.c_int, _P)
Cond = _f("LLVMGetCondition", _P, _P)
NSucc = _f("LLVMGetNumSuccessors", u, _P)
Succ = _f("LLVMGetSuccessor", _P, _P, u)
Called = _f("LLVMGetCalledValue", _P, _P)
CalledFT = _f("LLVMGetCalledFunctionType", _P, _P)
NArg = _f("LLVMGetNumArgOperands", u, _P)
NormD = _f("LLVMGetNormalDest", _P, _P)
UnwD = _f("LLVMGetUnwindDest", _P, _P)
NClauses = _f("LLVMGetNumClauses", u, _P)
Clause = _f("LLVMGetClause", _P, _P, u)
IsCleanup = _f("LLVMIsCleanup", C.c_int, _P)
CIntZ = _f("LLVMConstIntGetZExtValue", ull, _P)
CRealD = _f("LLVMConstRealGetDouble", C.c_double, _P, C.POINTER(C.c_int))
PrintV = _f("LLVMPrintValueToString", cs, _P)
PrintT = _f("LLVMPrintTypeToString", cs, _P)
GInit = _f("LLVMGetInitializer", _P, _P)
GValT = _f("LLVMGlobalGetValueType", _P, _P)
IsConstG = _f("LLVMIsGlobalConstant", C.c_int, _P)
IsTls = _f("LLVMIsThreadLocal", C.c_int, _P)
CountParams = _f("LLVMCountParams", u, _P)
Param = _f("LLVMGetParam", _P, _P, u)
StoreSz = _f("LLVMStoreSizeOfType", ull, _P, _P)
AbiSz = _f("LLVMABISizeOfType", ull, _P, _P)
BitSz = _f("LLVMSizeOfTypeInBits", ull, _P, _P)
AbiAl = _f("LLVMABIAlignmentOfType", u, _P, _P)
OffEl = _f("LLVMOffsetOfElement", ull, _P, _P, u)
CountSE = _f("LLVMCountStructElementTypes", u, _P)
StructEl = _f("LLVMStructGetTypeAtIndex", _P, _P, u)
ElTy = _f("LLVMGetElementType", _P, _P)
ArrLen = _f("LLVMGetArrayLength2", ull, _P)
VecLen = _f("LLVMGetVectorSize", u, _P)
AggEl = _f("LLVMGetAggregateElement", _P, _P, u)
RetTy = _f("LLVMGetReturnType", _P, _P)
KindID = _f("LLVMGetEnumAttributeKindForName", u, cs, C.c_size_t)
CSAttr = _f("LLVMGetCallSiteEnumAttribute", _P, _P, u, u)
AttrT = _f("LLVMGetTypeAttributeValue", _P, _P)
BBVal = _f("LLVMBasicBlockAsValue", _P, _P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem',
       19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load',
       28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp',
       36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp',
       43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'vaarg', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       58: 'resume', 59: 'landingpad', 60: 'addrspacecast', 66: 'fneg', 68: 'freeze'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = ['false', 'oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'uno', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une',
        'true']


class Ty:
    """kind: void int float ptr struct array vector label other"""
    __slots__ = ('kind', 'w', 'size', 'align', 'el', 'n', 'offs', 'els', 'text')


class IRFunc:
    __slots__ = ('name', 'nparams', 'blocks', 'nregs', 'param_regs', 'ret', 'ninstr', 'demangled')


class Module:
    def __init__(self, path):
        self.ctx = CtxCreate()
        buf = _P()
        err = cs()
        if MemBufFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read " + path)
        m = _P()
        if ParseBC(self.ctx, buf, C.byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.m = m
        self.dl = GetDL(m)
        self.types = {}
        self.fn_ptr = {}     # name -> llvm value of functions (incl. declarations)
        self.val_name = {}   # llvm ptr -> name
        self.defined = set()
        self.globals = {}    # name -> llvm ptr
        self.aliases = {}
        self._funcs = {}
        f = FirstFn(m)
        while f:
            n = self.name(f)
            self.fn_ptr[n] = f
            self.val_name[f] = n
            if not IsDecl(f):
                self.defined.add(n)
            f = NextFn(f)
        g = FirstGV(m)
        while g:
            n = self.name(g)
            self.globals[n] = g
            self.val_name[g] = n
            g = NextGV(g)
        a = FirstGA(m)
        while a:
            n = self.name(a)
            self.aliases[n] = a
            self.val_name[a] = n
            a = NextGA(a)
        k = b"byval"
        self.k_byval = KindID(k, len(k))
        self._demangle = {}
        self.overrides = {n for n in list(self.defined) + list(self.globals) if n.startswith('vpo_')}

    def demangle(self, n):
        r = self._demangle.get(n)
        if r is None:
            names = [x for x in self.fn_ptr]
            out = subprocess.run(['/usr/bin/c++filt'], input="\n".join(names), capture_output=True, text=True).stdout
            self._demangle = dict(zip(names, out.split("\n")))
            r = self._demangle.get(n, n)
        return r

    def name(self, v):
        ln = C.c_size_t()
        s = ValName(v, C.byref(ln))
        return s.decode() if s else ''

    def ty(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        r = Ty()
        k = TKind(t)
        r.text = PrintT(t).decode()
        r.w = r.size = r.align = r.n = 0
        r.el = r.offs = r.els = None
        if k == 0:
            r.kind = 'void'
        elif k in (2, 3, 4):
            r.kind = 'float'
            r.w = {2: 32, 3: 64, 4: 80}[k]
        elif k == 8:
            r.kind = 'int'
            r.w = IntW(t)
        elif k == 12:
            r.kind = 'ptr'
            r.w = 64
        elif k == 10:
            r.kind = 'struct'
        elif k == 11:
            r.kind = 'array'
        elif k == 13:
            r.kind = 'vector'
        elif k == 7:
            r.kind = 'label'
        else:
            r.kind = 'other'
        if r.kind in ('int', 'float', 'ptr', 'struct', 'array', 'vector'):
            try:
                r.size = AbiSz(self.dl, t)
                r.align = AbiAl(self.dl, t)
            except Exception:
                pass
        self.types[t] = r
        if r.kind == 'struct':
            n = CountSE(t)
            r.n = n
            r.els = [self.ty(StructEl(t, i)) for i in range(n)]
            r.offs = [OffEl(self.dl, t, i) for i in range(n)]
        elif r.kind == 'array':
            r.n = ArrLen(t)
            r.el = self.ty(ElTy(t))
        elif r.kind == 'vector':
            r.n = VecLen(t)
            r.el = self.ty(ElTy(t))
        return r

    # ---- constants: returns a tagged tuple evaluated later by the executor
    def const(self, v):
        k = VKind(v)
        t = self.ty(TypeOf(v))
        # kinds: Argument0 BB1 MemUse.. Function5 GlobalAlias6 GlobalIFunc7 GlobalVariable8 BlockAddress9
        # ConstantExpr10 ConstantArray11 ConstantStruct12 ConstantVector13 Undef14 AggZero15 DataArray16
        # DataVector17 CInt18 CFP19 CNull20 TokenNone21 MDAsValue22 InlineAsm23 Instruction24 Poison25
        if k == 18:
            if t.w <= 64:
                return ('int', CIntZ(v), t)
            s = PrintV(v).decode().split()[-1]
            return ('int', int(s) & ((1 << t.w) - 1), t)
        if k == 19:
            lo = C.c_int()
            d = CRealD(v, C.byref(lo))
            if t.w == 80:
                s = PrintV(v).decode().split()[-1]
                return ('f80', s, t)
            return ('float', d, t)
        if k == 20:
            return ('null', None, t)
        if k in (14, 25):
            return ('undef', None, t)
        if k == 15:
            return ('zero', None, t)
        if k in (11, 12, 13, 16, 17):
            n = t.n
            return ('agg', [self.const(AggEl(v, i)) for i in range(n)], t)
        if k == 5:
            return ('func', self.val_name[v], t)
        if k == 8:
            return ('global', self.val_name[v], t)
        if k == 6:
            return self.const(Aliasee(v))
        if k == 10:
            op = OPC.get(ConstOpcode(v))
            ops = [self.const(GetOp(v, i)) for i in range(NumOps(v))]
            if op == 'gep':
                return ('cgep', (self.ty(GEPTy(v)), ops), t)
            return ('cexpr', (op, ops), t)
        if k in (22, 21, 23):
            return ('meta', None, t)
        raise RuntimeError("constant kind %d: %s" % (k, PrintV(v)))

    def resolve(self, name):
        if name in self.aliases:
            v = self.aliases[name]
            while v in self.val_name and self.val_name[v] in self.aliases:
                v = Aliasee(v)
            name = self.val_name.get(v, name)
        # a harness replaces the function or object X by defining vpo_X
        if self.overrides and 'vpo_' + name in self.overrides:
            return 'vpo_' + name
        return name

    def func(self, name):
        f = self._funcs.get(name)
        if f is None:
            f = self._build(name)
            self._funcs[name] = f
        return f

    def _build(self, name):
        fv = self.fn_ptr[name]
        F = IRFunc()
        F.name = name
        F.demangled = self.demangle(name)
        regs = {}
        F.nparams = CountParams(fv)
        F.param_regs = []
        for i in range(F.nparams):
            p = Param(fv, i)
            regs[p] = len(regs)
            F.param_regs.append(regs[p])
        bbs = []
        bidx = {}
        b = FirstBB(fv)
        while b:
            bidx[b] = len(bbs)
            bbs.append(b)
            b = NextBB(b)
        raw = []
        for b in bbs:
            lst = []
            i = FirstI(b)
            while i:
                regs[i] = len(regs)
                lst.append(i)
                i = NextI(i)
            raw.append(lst)
        F.nregs = len(regs)

        def opnd(v):
            r = regs.get(v)
            if r is not None:
                return ('r', r)
            return ('c', self.const(v))
        F.blocks = []
        F.ninstr = 0
        for lst in raw:
            out = []
            for i in lst:
                op = OPC.get(Opcode(i))
                t = self.ty(TypeOf(i))
                d = regs[i]
                F.ninstr += 1
                if op in ('br',):
                    if IsCond(i):
                        out.append(('condbr', d, t, opnd(Cond(i)), bidx[Succ(i, 0)], bidx[Succ(i, 1)]))
                    else:
                        out.append(('br', d, t, bidx[Succ(i, 0)]))
                elif op == 'switch':
                    n = NumOps(i)
                    cases = []
                    for k in range(2, n, 2):
                        cases.append((CIntZ(GetOp(i, k)), bidx[Succ(i, k // 2)]))
                    out.append(('switch', d, t, opnd(GetOp(i, 0)), self.ty(TypeOf(GetOp(i, 0))), bidx[Succ(i, 0)],
                                cases))
                elif op == 'phi':
                    inc = {}
                    for k in range(CountInc(i)):
                        inc[bidx[IncB(i, k)]] = opnd(IncV(i, k))
                    out.append(('phi', d, t, inc))
                elif op in ('call', 'invoke'):
                    cv = Called(i)
                    n = NArg(i)
                    args = []
                    tys = []
                    byv = []
                    for k in range(n):
                        o = GetOp(i, k)
                        at = self.ty(TypeOf(o))
                        tys.append(at)
                        args.append(opnd(o) if at.kind != 'other' else ('c', ('meta', None, at)))
                        a = CSAttr(i, k + 1, self.k_byval)
                        byv.append(self.ty(AttrT(a)) if a else None)
                    if VKind(cv) == 23:
                        callee = ('c', ('asm', PrintV(cv).decode(), None))
                    else:
                        callee = opnd(cv)
                    nd = ud = None
                    if op == 'invoke':
                        nd = bidx[NormD(i)]
                        ud = bidx[UnwD(i)]
                    out.append((op, d, t, callee, args, tys, byv, nd, ud))
                elif op == 'alloca':
                    out.append(('alloca', d, t, self.ty(AllocTy(i)), opnd(GetOp(i, 0))))
                elif op == 'load':
                    out.append(('load', d, t, opnd(GetOp(i, 0))))
                elif op == 'store':
                    out.append(('store', d, t, opnd(GetOp(i, 0)), self.ty(TypeOf(GetOp(i, 0))), opnd(GetOp(i, 1))))
                elif op == 'gep':
                    n = NumOps(i)
                    out.append(('gep', d, t, self.ty(GEPTy(i)), [opnd(GetOp(i, k)) for k in range(n)],
                                [self.ty(TypeOf(GetOp(i, k))) for k in range(n)]))
                elif op == 'icmp':
                    out.append(('icmp', d, t, ICMP[ICmpP(i)], opnd(GetOp(i, 0)), opnd(GetOp(i, 1)),
                                self.ty(TypeOf(GetOp(i, 0)))))
                elif op == 'fcmp':
                    out.append(('fcmp', d, t, FCMP[FCmpP(i)], opnd(GetOp(i, 0)), opnd(GetOp(i, 1)),
                                self.ty(TypeOf(GetOp(i, 0)))))
                elif op in ('extractvalue', 'insertvalue'):
                    ni = NumIdx(i)
                    ip = Idx(i)
                    idx = [ip[k] for k in range(ni)]
                    out.append((op, d, t, [opnd(GetOp(i, k)) for k in range(NumOps(i))], idx))
                elif op == 'landingpad':
                    cl = [self.const(Clause(i, k)) for k in range(NClauses(i))]
                    out.append(('landingpad', d, t, cl, bool(IsCleanup(i))))
                elif op == 'shufflevector':
                    getm = _f("LLVMGetMaskValue", C.c_int, _P, u)
                    nm = _f("LLVMGetNumMaskElements", u, _P)(i)
                    out.append(('shufflevector', d, t, [opnd(GetOp(i, k)) for k in range(2)],
                                [getm(i, k) for k in range(nm)], self.ty(TypeOf(GetOp(i, 0)))))
                elif op is None:
                    out.append(('unsupported', d, t, PrintV(i).decode()))
                else:
                    n = NumOps(i)
                    out.append((op, d, t, [opnd(GetOp(i, k)) for k in range(n)],
                                [self.ty(TypeOf(GetOp(i, k))) for k in range(n)]))
            F.blocks.append(out)
        return F
