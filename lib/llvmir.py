"""LLVM IR reader (ctypes over the installed libLLVM-18 C API): turns a module into plain Python objects."""
import ctypes as C, ctypes.util, os, struct
from fractions import Fraction

_paths = ['/usr/lib/llvm-18/lib/libLLVM.so.1', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so', '/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1']
L = None
for _p in _paths:
    if os.path.exists(_p):
        L = C.CDLL(_p); break
V = C.c_void_p
def _f(name, res, *args):
    fn = getattr(L, name); fn.restype = res; fn.argtypes = list(args); return fn
ContextCreate = _f('LLVMContextCreate', V)
CreateBufFile = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(V), C.POINTER(C.c_char_p))
ParseIR = _f('LLVMParseIRInContext', C.c_int, V, V, C.POINTER(V), C.POINTER(C.c_char_p))
GetDL = _f('LLVMGetModuleDataLayout', V, V)
SizeOf = _f('LLVMABISizeOfType', C.c_ulonglong, V, V)
StoreSize = _f('LLVMStoreSizeOfType', C.c_ulonglong, V, V)
OffOf = _f('LLVMOffsetOfElement', C.c_ulonglong, V, V, C.c_uint)
FirstFn = _f('LLVMGetFirstFunction', V, V); NextFn = _f('LLVMGetNextFunction', V, V)
FirstGl = _f('LLVMGetFirstGlobal', V, V); NextGl = _f('LLVMGetNextGlobal', V, V)
FirstAl = _f('LLVMGetFirstGlobalAlias', V, V); NextAl = _f('LLVMGetNextGlobalAlias', V, V)
AlAliasee = _f('LLVMAliasGetAliasee', V, V)
GetInit = _f('LLVMGetInitializer', V, V); IsConstGl = _f('LLVMIsGlobalConstant', C.c_int, V)
GVT = _f('LLVMGlobalGetValueType', V, V)
_GetName = _f('LLVMGetValueName2', C.c_void_p, V, C.POINTER(C.c_size_t))
IsDecl = _f('LLVMIsDeclaration', C.c_int, V)
FirstBB = _f('LLVMGetFirstBasicBlock', V, V); NextBB = _f('LLVMGetNextBasicBlock', V, V)
FirstI = _f('LLVMGetFirstInstruction', V, V); NextI = _f('LLVMGetNextInstruction', V, V)
CountParams = _f('LLVMCountParams', C.c_uint, V); GetParam = _f('LLVMGetParam', V, V, C.c_uint)
Opcode = _f('LLVMGetInstructionOpcode', C.c_int, V)
ConstOpcode = _f('LLVMGetConstOpcode', C.c_int, V)
NumOps = _f('LLVMGetNumOperands', C.c_int, V); GetOp = _f('LLVMGetOperand', V, V, C.c_uint)
ValKind = _f('LLVMGetValueKind', C.c_int, V)
TypeOf = _f('LLVMTypeOf', V, V); TypeKind = _f('LLVMGetTypeKind', C.c_int, V)
IntW = _f('LLVMGetIntTypeWidth', C.c_uint, V)
ElTy = _f('LLVMGetElementType', V, V)
ArrLen = _f('LLVMGetArrayLength2', C.c_ulonglong, V); VecLen = _f('LLVMGetVectorSize', C.c_uint, V)
NStructEl = _f('LLVMCountStructElementTypes', C.c_uint, V); StructEl = _f('LLVMStructGetTypeAtIndex', V, V, C.c_uint)
ZExt = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, V); SExt = _f('LLVMConstIntGetSExtValue', C.c_longlong, V)
RealD = _f('LLVMConstRealGetDouble', C.c_double, V, C.POINTER(C.c_int))
ICmpP = _f('LLVMGetICmpPredicate', C.c_int, V); FCmpP = _f('LLVMGetFCmpPredicate', C.c_int, V)
GEPTy = _f('LLVMGetGEPSourceElementType', V, V)
AllocTy = _f('LLVMGetAllocatedType', V, V)
NInc = _f('LLVMCountIncoming', C.c_uint, V); IncV = _f('LLVMGetIncomingValue', V, V, C.c_uint); IncB = _f('LLVMGetIncomingBlock', V, V, C.c_uint)
CalledV = _f('LLVMGetCalledValue', V, V); NArgs = _f('LLVMGetNumArgOperands', C.c_uint, V)
NSucc = _f('LLVMGetNumSuccessors', C.c_uint, V); Succ = _f('LLVMGetSuccessor', V, V, C.c_uint)
SwDefault = _f('LLVMGetSwitchDefaultDest', V, V)
AggEl = _f('LLVMGetAggregateElement', V, V, C.c_uint)
NIdx = _f('LLVMGetNumIndices', C.c_uint, V); Idxs = _f('LLVMGetIndices', C.POINTER(C.c_uint), V)
IsNull = _f('LLVMIsNull', C.c_int, V)
NSW = _f('LLVMGetNSW', C.c_int, V); NUW = _f('LLVMGetNUW', C.c_int, V)
MaskN = _f('LLVMGetNumMaskElements', C.c_uint, V); MaskV = _f('LLVMGetMaskValue', C.c_int, V, C.c_uint)
AtomicOp = _f('LLVMGetAtomicRMWBinOp', C.c_int, V)
RunPasses = _f('LLVMRunPasses', V, V, C.c_char_p, V, V)
PBO = _f('LLVMCreatePassBuilderOptions', V)
PBOUnroll = _f('LLVMPassBuilderOptionsSetLoopUnrolling', None, V, C.c_int)
PBOSLP = _f('LLVMPassBuilderOptionsSetSLPVectorization', None, V, C.c_int)
PBOLV = _f('LLVMPassBuilderOptionsSetLoopVectorization', None, V, C.c_int)
PBOLI = _f('LLVMPassBuilderOptionsSetLoopInterleaving', None, V, C.c_int)
PBOMF = _f('LLVMPassBuilderOptionsSetMergeFunctions', None, V, C.c_int)
ErrMsg = _f('LLVMGetErrorMessage', C.c_void_p, V)
AttrKind = _f('LLVMGetEnumAttributeKindForName', C.c_uint, C.c_char_p, C.c_size_t)
CreateAttr = _f('LLVMCreateEnumAttribute', V, V, C.c_uint, C.c_ulonglong)
AddAttr = _f('LLVMAddAttributeAtIndex', None, V, C.c_uint, V)
RemAttr = _f('LLVMRemoveEnumAttributeAtIndex', None, V, C.c_uint, C.c_uint)
PrintVal = _f('LLVMPrintValueToString', C.c_void_p, V)
PrintMod = _f('LLVMPrintModuleToFile', C.c_int, V, C.c_char_p, C.POINTER(C.c_char_p))
SetLinkage = _f('LLVMSetLinkage', None, V, C.c_int)
IsInstr = _f('LLVMIsAInstruction', V, V)
InlineAsm = _f('LLVMIsAInlineAsm', V, V)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem',
       20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep',
       30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext',
       39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze',
       55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 49: 'vaarg'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86fp80', 8: 'int', 9: 'function', 10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 7: 'label', 14: 'metadata', 16: 'token'}

def vname(v):
    n = C.c_size_t(); p = _GetName(v, C.byref(n))
    return C.string_at(p, n.value).decode() if p and n.value else ''

class Ty:
    __slots__ = ('kind', 'width', 'size', 'store', 'elems', 'offs', 'n', 'el')
    def __repr__(s):
        return {'int': f'i{s.width}'}.get(s.kind, s.kind)

class GlobalRef:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return '@' + s.name
class FnRef(GlobalRef): pass
class Undef:
    __slots__ = ('ty',)
    def __init__(s, ty): s.ty = ty
class CE:   # constant expression
    __slots__ = ('op', 'args', 'off')
    def __init__(s, op, args, off=0): s.op, s.args, s.off = op, args, off
class Null: pass
NULL = Null()
class V_:   # SSA value reference
    __slots__ = ('id',)
    def __init__(s, i): s.id = i
class Agg:
    __slots__ = ('vals', 'ty')
    def __init__(s, vals, ty): s.vals, s.ty = vals, ty

class Instr:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'ref', 'nsw', 'nuw')
    def __repr__(s): return pstr(s.ref)

def pstr(ref):
    p = PrintVal(ref); return C.string_at(p).decode().strip()

class Block:
    __slots__ = ('id', 'phis', 'ins', 'succ', 'idx', 'fn')
class Fn:
    def __init__(s): s.blocks = {}; s.entry = None

class Module:
    def __init__(m, path):
        m.ctx = ContextCreate()
        buf = V(); err = C.c_char_p()
        if CreateBufFile(path.encode(), C.byref(buf), C.byref(err)): raise RuntimeError(err.value)
        mod = V()
        if ParseIR(m.ctx, buf, C.byref(mod), C.byref(err)): raise RuntimeError(err.value)
        m.mod = mod; m.tys = {}; m.fns = {}; m.globals = {}; m.ready = False
    def fn_refs(m):
        f = FirstFn(m.mod)
        while f:
            yield f, vname(f)
            f = NextFn(f)
    def add_attr(m, fref, name):
        k = AttrKind(name.encode(), len(name))
        AddAttr(fref, 0xFFFFFFFF, CreateAttr(m.ctx, k, 0))
    def rem_attr(m, fref, name):
        RemAttr(fref, 0xFFFFFFFF, AttrKind(name.encode(), len(name)))
    def run_passes(m, pipeline):
        o = PBO(); PBOSLP(o, 0); PBOLV(o, 0); PBOLI(o, 0); PBOMF(o, 0); PBOUnroll(o, 0)
        e = RunPasses(m.mod, pipeline.encode(), None, o)
        if e: raise RuntimeError(C.string_at(ErrMsg(e)))
    def dump(m, path):
        e = C.c_char_p(); PrintMod(m.mod, path.encode(), C.byref(e))

    # ---- conversion
    def load(m):
        m.dl = GetDL(m.mod)
        g = FirstGl(m.mod)
        while g:
            m.globals[vname(g)] = dict(ref=g, const=bool(IsConstGl(g)), ty=m.ty(GVT(g)), init=GetInit(g)); g = NextGl(g)
        m.aliases = {}
        a = FirstAl(m.mod)
        while a:
            m.aliases[vname(a)] = vname(AlAliasee(a)); a = NextAl(a)
        m.decls = {}
        for f, n in m.fn_refs():
            if IsDecl(f): m.decls[n] = f
            else: m.fns[n] = (f, None)
        m.ready = True
    def init_of(m, name):
        g = m.globals[name]
        return m.const(g['init']) if g['init'] else None
    def ty(m, t):
        r = m.tys.get(t)
        if r: return r
        r = Ty(); r.kind = TK.get(TypeKind(t), 'other'); r.width = r.size = r.store = r.n = 0; r.elems = r.offs = r.el = None
        m.tys[t] = r
        k = r.kind
        if k in ('void', 'label', 'metadata', 'function', 'token', 'other'): return r
        if k == 'int': r.width = IntW(t)
        elif k == 'struct':
            n = NStructEl(t); r.elems = [m.ty(StructEl(t, i)) for i in range(n)]
            if not hasattr(m, 'dl'): m.dl = GetDL(m.mod)
            r.offs = [OffOf(m.dl, t, i) for i in range(n)]
        elif k == 'array': r.n = ArrLen(t); r.el = m.ty(ElTy(t))
        elif k == 'vector': r.n = VecLen(t); r.el = m.ty(ElTy(t))
        if k == 'struct' and r.elems and any(e.kind == 'other' for e in r.elems): return r
        r.size = SizeOf(m.dl, t); r.store = StoreSize(m.dl, t)
        return r
    def gep_parts(m, v, consts=False):
        """-> (const offset, [(scale, operand)])"""
        t = GEPTy(v); off = 0; parts = []
        n = NumOps(v)
        cur = m.ty(t)
        for i in range(1, n):
            o = m.operand(GetOp(v, i))
            if i == 1: scale = cur.size
            else:
                if cur.kind == 'struct':
                    off += cur.offs[o]; cur = cur.elems[o]; continue
                cur = cur.el; scale = cur.size
            if isinstance(o, int): off += scale * o
            else: parts.append((scale, o))
        return off, parts
    def const(m, v):
        k = ValKind(v)
        # LLVMValueKind: Argument 0, BasicBlock1, MemoryUse.., Function 5, GlobalAlias 6, GlobalIFunc 7, GlobalVariable 8, BlockAddress 9,
        # ConstantExpr 10, ConstantArray 11, ConstantStruct 12, ConstantVector 13, Undef 14, AggregateZero 15, DataArray 16, DataVector 17, Int 18, FP 19, PointerNull 20, TokenNone 21, ... Poison 25?
        t = m.ty(TypeOf(v))
        if k == 18: return SExt(v) if t.width > 1 else bool(ZExt(v))
        if k == 19:
            li = C.c_int(); d = RealD(v, C.byref(li))
            import math
            if math.isnan(d): return ('nan',)
            if math.isinf(d): return ('inf', 1 if d > 0 else -1)
            return Fraction(d)
        if k == 20: return NULL
        if k == 5: return FnRef(vname(v))
        if k in (6, 8): return GlobalRef(vname(v))
        if k == 14 or k == 25 or k == 26: return m.undef(t)
        if k == 15: return m.zero(t)
        if k in (11, 12, 13, 16, 17):
            if t.kind == 'struct': n = len(t.elems)
            else: n = t.n
            return Agg([m.const(AggEl(v, i)) for i in range(n)], t)
        if k == 10:
            op = OPC.get(ConstOpcode(v))
            if op == 'gep':
                off, parts = m.gep_parts(v)
                assert not parts
                return CE('gep', [m.const(GetOp(v, 0))], off)
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc'):
                return CE(op, [m.const(GetOp(v, 0))], t)
            return CE(op, [m.const(GetOp(v, i)) for i in range(NumOps(v))])
        return ('unk', k, pstr(v))
    def undef(m, t):
        if t.kind == 'struct': return Agg([m.undef(e) for e in t.elems], t)
        if t.kind in ('array', 'vector'): return Agg([m.undef(t.el)] * t.n, t)
        return Undef(t)
    def zero(m, t):
        if t.kind == 'int': return 0 if t.width > 1 else False
        if t.kind in ('double', 'float', 'half', 'x86fp80'): return Fraction(0)
        if t.kind == 'ptr': return NULL
        if t.kind == 'struct': return Agg([m.zero(e) for e in t.elems], t)
        return Agg([m.zero(t.el)] * t.n, t) if t.n < 100000 else ('bigzero', t)
    def operand(m, v):
        k = ValKind(v)
        if k in (0,) or IsInstr(v): return V_(v)
        if k == 1: return ('bb', v)
        if InlineAsm(v): return ('asm', pstr(v))
        if TK.get(TypeKind(TypeOf(v))) == 'metadata': return ('md',)
        return m.const(v)
    def fn(m, name):
        name = m.aliases.get(name, name)
        e = m.fns.get(name)
        if e is None: return None
        ref, f = e
        if f is None:
            f = m.convert(ref, name); m.fns[name] = (ref, f)
        return f
    def convert(m, ref, name):
        f = Fn(); f.name = name
        f.args = [GetParam(ref, i) for i in range(CountParams(ref))]
        f.argtys = [m.ty(TypeOf(a)) for a in f.args]
        b = FirstBB(ref); i = 0
        GetBBTerm = None
        while b:
            B = Block(); B.id = b; B.phis = []; B.ins = []; B.succ = []; B.idx = i; B.fn = f
            if f.entry is None: f.entry = b
            f.blocks[b] = B
            x = FirstI(b)
            while x:
                I = m.instr(x)
                if I.op == 'phi': B.phis.append(I)
                else: B.ins.append(I)
                x = NextI(x)
            B.succ = B.ins[-1].x.get('succ', []) if B.ins[-1].x else []
            b = NextBB(b); i += 1
        from loops import analyse
        analyse(f)
        return f
    def instr(m, x):
        I = Instr(); I.ref = x; I.id = x; op = OPC.get(Opcode(x), f'op{Opcode(x)}'); I.op = op
        I.ty = m.ty(TypeOf(x)); I.x = None; I.ops = None; I.nsw = I.nuw = False
        n = NumOps(x)
        if op == 'phi':
            I.x = {IncB(x, i): m.operand(IncV(x, i)) for i in range(NInc(x))}
            return I
        if op == 'gep':
            off, parts = m.gep_parts(x); I.ops = [m.operand(GetOp(x, 0))]; I.x = (off, parts); return I
        if op == 'br':
            ns = NSucc(x)
            I.x = dict(succ=[Succ(x, i) for i in range(ns)])
            I.ops = [m.operand(GetOp(x, 0))] if ns == 2 else []
            return I
        if op == 'switch':
            I.ops = [m.operand(GetOp(x, 0))]
            d = SwDefault(x)
            cases = [(m.const(GetOp(x, i)), Succ(x, i // 2)) for i in range(2, n, 2)]
            I.x = dict(succ=[d] + [c[1] for c in cases], cases=cases, default=d); return I
        if op in ('call', 'invoke'):
            na = NArgs(x)
            I.ops = [m.operand(GetOp(x, i)) for i in range(na)]
            cv = CalledV(x); I.x = dict(callee=m.operand(cv), argtys=[m.ty(TypeOf(GetOp(x, i))) for i in range(na)])
            if op == 'invoke': I.x['succ'] = [Succ(x, 0), Succ(x, 1)]
            return I
        I.ops = [m.operand(GetOp(x, i)) for i in range(n)]
        if op in ('add', 'sub', 'mul', 'shl'): I.nsw = bool(NSW(x)); I.nuw = bool(NUW(x))
        if op == 'icmp': I.x = (ICMP[ICmpP(x)], m.ty(TypeOf(GetOp(x, 0))))
        elif op == 'fcmp': I.x = FCMP[FCmpP(x)]
        elif op == 'alloca': I.x = m.ty(AllocTy(x))
        elif op == 'store': I.x = m.ty(TypeOf(GetOp(x, 0)))
        elif op in ('extractvalue', 'insertvalue'):
            p = Idxs(x); I.x = [p[i] for i in range(NIdx(x))]
        elif op == 'shufflevector': I.x = [MaskV(x, i) for i in range(MaskN(x))]
        elif op == 'atomicrmw': I.x = AtomicOp(x)
        elif op in ('trunc', 'zext', 'sext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'fptrunc', 'fpext'):
            I.x = m.ty(TypeOf(GetOp(x, 0)))
        return I
