"""Reader of LLVM bitcode (libLLVM 18 C API through ctypes).

Turns the bitcode clang makes of /repo's C++ into plain Python tuples, function by function on
demand. Nothing is dropped: an instruction this reader does not know raises Unsupported.
"""
import ctypes as C
import functools
import subprocess

L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
vp, u, cp = C.c_void_p, C.c_uint, C.c_char_p
sz = C.c_size_t
ull = C.c_ulonglong


class Unsupported(Exception):
    """The tool cannot handle this: the check is undecided, never a violation."""


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", vp)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, cp, C.POINTER(vp), C.POINTER(cp))
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, vp, vp, C.POINTER(vp))
GetDL = _f("LLVMGetModuleDataLayout", vp, vp)
FirstFn = _f("LLVMGetFirstFunction", vp, vp)
NextFn = _f("LLVMGetNextFunction", vp, vp)
NamedFn = _f("LLVMGetNamedFunction", vp, vp, cp)
FirstGl = _f("LLVMGetFirstGlobal", vp, vp)
NextGl = _f("LLVMGetNextGlobal", vp, vp)
FirstAlias = _f("LLVMGetFirstGlobalAlias", vp, vp)
NextAlias = _f("LLVMGetNextGlobalAlias", vp, vp)
AliasGet = _f("LLVMAliasGetAliasee", vp, vp)
GetName = _f("LLVMGetValueName2", vp, vp, C.POINTER(sz))
IsDecl = _f("LLVMIsDeclaration", C.c_int, vp)
FirstBB = _f("LLVMGetFirstBasicBlock", vp, vp)
NextBB = _f("LLVMGetNextBasicBlock", vp, vp)
FirstI = _f("LLVMGetFirstInstruction", vp, vp)
NextI = _f("LLVMGetNextInstruction", vp, vp)
Opc = _f("LLVMGetInstructionOpcode", C.c_int, vp)
NumOps = _f("LLVMGetNumOperands", C.c_int, vp)
Op = _f("LLVMGetOperand", vp, vp, u)
TypeOf = _f("LLVMTypeOf", vp, vp)
TypeKind = _f("LLVMGetTypeKind", C.c_int, vp)
IntW = _f("LLVMGetIntTypeWidth", u, vp)
ValueKind = _f("LLVMGetValueKind", C.c_int, vp)
ZExt = _f("LLVMConstIntGetZExtValue", ull, vp)
ICmpP = _f("LLVMGetICmpPredicate", C.c_int, vp)
FCmpP = _f("LLVMGetFCmpPredicate", C.c_int, vp)
GepTy = _f("LLVMGetGEPSourceElementType", vp, vp)
AllocTy = _f("LLVMGetAllocatedType", vp, vp)
CalledV = _f("LLVMGetCalledValue", vp, vp)
NumArg = _f("LLVMGetNumArgOperands", u, vp)
CountInc = _f("LLVMCountIncoming", u, vp)
IncV = _f("LLVMGetIncomingValue", vp, vp, u)
IncB = _f("LLVMGetIncomingBlock", vp, vp, u)
NumSucc = _f("LLVMGetNumSuccessors", u, vp)
Succ = _f("LLVMGetSuccessor", vp, vp, u)
IsCond = _f("LLVMIsConditional", C.c_int, vp)
Cond = _f("LLVMGetCondition", vp, vp)
SwDef = _f("LLVMGetSwitchDefaultDest", vp, vp)
StructN = _f("LLVMCountStructElementTypes", u, vp)
StructEl = _f("LLVMStructGetTypeAtIndex", vp, vp, u)
ElemTy = _f("LLVMGetElementType", vp, vp)
ArrLen = _f("LLVMGetArrayLength2", ull, vp)
OffEl = _f("LLVMOffsetOfElement", ull, vp, vp, u)
ABISz = _f("LLVMABISizeOfType", ull, vp, vp)
StoreSz = _f("LLVMStoreSizeOfType", ull, vp, vp)
ConstOpc = _f("LLVMGetConstOpcode", C.c_int, vp)
Init = _f("LLVMGetInitializer", vp, vp)
IsConstGl = _f("LLVMIsGlobalConstant", C.c_int, vp)
GlValTy = _f("LLVMGlobalGetValueType", vp, vp)
NumIdx = _f("LLVMGetNumIndices", u, vp)
Idx = _f("LLVMGetIndices", C.POINTER(u), vp)
AggEl = _f("LLVMGetAggregateElement", vp, vp, u)
ElAsConst = _f("LLVMGetElementAsConstant", vp, vp, u)
CountParams = _f("LLVMCountParams", u, vp)
GetParam = _f("LLVMGetParam", vp, vp, u)
IsNull = _f("LLVMIsNull", C.c_int, vp)
StructName = _f("LLVMGetStructName", cp, vp)
PrintV = _f("LLVMPrintValueToString", vp, vp)
BBAsV = _f("LLVMBasicBlockAsValue", vp, vp)
RealD = _f("LLVMConstRealGetDouble", C.c_double, vp, C.POINTER(C.c_int))
BBParent = _f("LLVMGetBasicBlockParent", vp, vp)
FnTyRet = _f("LLVMGetReturnType", vp, vp)
InstDbg = _f("LLVMGetDebugLocLine", u, vp)

OPS = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv",
       15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr",
       22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi",
       35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint",
       40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call",
       46: "select", 50: "extractelement", 51: "insertelement", 53: "extractvalue", 54: "insertvalue", 58: "resume",
       59: "landingpad", 68: "freeze"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge",
        40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno",
        9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
# value kinds
VK_ARG, VK_BB, VK_FN, VK_ALIAS, VK_GVAR = 0, 1, 5, 6, 8
VK_CEXPR, VK_CARR, VK_CSTRUCT = 10, 11, 12
VK_UNDEF, VK_AGGZ, VK_CDATAARR, VK_CINT, VK_CFP, VK_NULL = 14, 15, 16, 18, 19, 20
VK_INSTR, VK_POISON = 24, 25


def _probe_kinds():
    """Value kinds differ by release: checked in Module.__init__ by use, see const()."""


class Ty:
    __slots__ = ("k", "w", "size", "ref", "n", "el", "store")

    def __repr__(self):
        return f"{self.k}{self.w or ''}"


class Fn:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.decl = bool(IsDecl(ref))
        self._parsed = False

    @property
    def blocks(self):
        if not self._parsed:
            self.mod._parse_fn(self)
            self._parsed = True
        return self._blocks

    @property
    def params(self):
        self.blocks
        return self._params


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf, msg = vp(), cp()
        if MemBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise Unsupported(f"cannot read {path}")
        m = vp()
        if ParseBC(self.ctx, buf, C.byref(m)):
            raise Unsupported(f"cannot parse {path}")
        self.m, self.path = m, path
        self.dl = GetDL(m)
        self.types = {}
        self.fns, self.globals, self.aliases = {}, {}, {}
        self._const = {}
        r = FirstFn(m)
        while r:
            n = self.name(r)
            self.fns[n] = Fn(self, r, n)
            r = NextFn(r)
        r = FirstGl(m)
        while r:
            self.globals[self.name(r)] = r
            r = NextGl(r)
        r = FirstAlias(m)
        while r:
            self.aliases[self.name(r)] = AliasGet(r)
            r = NextAlias(r)

    @functools.cached_property
    def demangled(self):
        names = list(self.fns) + list(self.aliases)
        out = subprocess.run(["c++filt"], input="\n".join(names), text=True,
                             capture_output=True).stdout.split("\n")
        return dict(zip(names, out))

    @functools.cached_property
    def by_demangled(self):
        d = {}
        for k, v in self.demangled.items():
            d.setdefault(v, k)
        return d

    def name(self, v):
        n = sz()
        p = GetName(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def ty(self, r):
        t = self.types.get(r)
        if t is None:
            t = Ty()
            t.ref, t.w, t.n, t.el = r, 0, 0, None
            k = TypeKind(r)
            self.types[r] = t
            if k == 8:
                t.k, t.w = "int", IntW(r)
            elif k == 12:
                t.k, t.w = "ptr", 64
            elif k == 0:
                t.k = "void"
            elif k == 10:
                t.k = "struct"
                t.n = StructN(r)
                t.el = [self.ty(StructEl(r, i)) for i in range(t.n)]
            elif k == 11:
                t.k = "array"
                t.n = ArrLen(r)
                t.el = self.ty(ElemTy(r))
            elif k == 3:
                t.k, t.w = "double", 64
            elif k == 2:
                t.k, t.w = "float", 32
            elif k == 13:
                t.k = "vec"
            else:
                t.k = f"kind{k}"
            if t.k in ("void",) or t.k.startswith("kind"):
                t.size = t.store = 0
            else:
                t.size = ABISz(self.dl, r)
                t.store = StoreSz(self.dl, r)
        return t

    def vty(self, v):
        return self.ty(TypeOf(v))

    # ---- constants: symbolic descriptions, evaluated by the executor
    # ("i", val, w) ("null",) ("g", name, off) ("fn", name) ("undef", ty) ("fp", d, ty) ("agg", ty, ref)
    def const(self, r):
        c = self._const.get(r)
        if c is None:
            c = self._const[r] = self._mkconst(r)
        return c

    def _mkconst(self, r):
        k = ValueKind(r)
        t = self.vty(r)
        if k == VK_FN:
            return ("fn", self.name(r))
        if k == VK_ALIAS:
            a = self.const(AliasGet(r))
            return a
        if k == VK_GVAR:
            return ("g", self.name(r), 0)
        if k == VK_CINT:
            if t.w > 64:
                s = self.text(r).split()[-1]
                v = {"true": 1, "false": 0}.get(s)
                return ("i", int(s) & ((1 << t.w) - 1) if v is None else v, t.w)
            return ("i", ZExt(r) & ((1 << t.w) - 1), t.w)
        if k == VK_NULL:
            return ("i", 0, 64)
        if k in (VK_UNDEF, VK_POISON):
            return ("undef", t)
        if k == VK_CFP:
            loss = C.c_int()
            return ("fp", RealD(r, C.byref(loss)), t)
        if k == VK_CEXPR:
            o = OPS.get(ConstOpc(r))
            if o == "gep":
                base = self.const(Op(r, 0))
                off = 0
                cur = self.ty(GepTy(r))
                for i in range(1, NumOps(r)):
                    ix = self.const(Op(r, i))
                    if ix[0] != "i":
                        raise Unsupported("constant gep index")
                    v, w = ix[1], ix[2]
                    if v >> (w - 1):
                        v -= 1 << w
                    if i == 1:
                        off += v * cur.size
                    elif cur.k == "struct":
                        off += OffEl(self.dl, cur.ref, v)
                        cur = cur.el[v]
                    else:
                        cur = cur.el
                        off += v * cur.size
                if base[0] == "g":
                    return ("g", base[1], base[2] + off)
                if base[0] == "i":
                    return ("i", (base[1] + off) & (2**64 - 1), 64)
                raise Unsupported("constant gep base " + str(base))
            if o in ("ptrtoint", "inttoptr", "bitcast"):
                return self.const(Op(r, 0))
            ops = [self.const(Op(r, i)) for i in range(NumOps(r))]
            return ("cexpr", o, t, ops)
        if k in (VK_CARR, VK_CSTRUCT, VK_AGGZ, VK_CDATAARR):
            return ("agg", t, r)
        raise Unsupported(f"constant kind {k}: {self.text(r)[:100]}")

    def flatten(self, r, off=0, out=None):
        """Initialiser -> list of (offset, size, const)."""
        if out is None:
            out = []
        t = self.vty(r)
        k = ValueKind(r)
        if k == VK_AGGZ:
            out.append((off, t.size, ("zero",)))
        elif k in (VK_UNDEF, VK_POISON):
            out.append((off, t.size, ("undef", t)))
        elif k == VK_CSTRUCT:
            for i in range(t.n):
                self.flatten(Op(r, i), off + OffEl(self.dl, t.ref, i), out)
        elif k == VK_CARR:
            for i in range(t.n):
                self.flatten(Op(r, i), off + i * t.el.size, out)
        elif k == VK_CDATAARR:
            for i in range(t.n):
                out.append((off + i * t.el.size, t.el.size, self.const(ElAsConst(r, i))))
        else:
            out.append((off, t.store, self.const(r)))
        return out

    def const_init(self, name):
        """Initialiser of a constant global: [(offset, size, const)], or None."""
        r = self.globals.get(name)
        if r is None or IsDecl(r) or not IsConstGl(r):
            return None
        return self.flatten(Init(r))

    def text(self, r):
        p = PrintV(r)
        return C.string_at(p).decode()

    # ---- functions
    def _operand(self, r, slots):
        s = slots.get(r)
        if s is not None:
            return ("v", s)
        k = ValueKind(r)
        if k in (VK_INSTR, VK_ARG):
            raise Unsupported("operand before definition")
        return ("c", self.const(r))

    def _parse_fn(self, fn):
        slots = {}
        fn._params = []
        for i in range(CountParams(fn.ref)):
            p = GetParam(fn.ref, i)
            slots[p] = len(slots)
            fn._params.append((slots[p], self.vty(p)))
        bbs, bidx = [], {}
        bb = FirstBB(fn.ref)
        while bb:
            bidx[bb] = len(bbs)
            bbs.append(bb)
            bb = NextBB(bb)
        insts = []
        for bb in bbs:
            li = []
            i = FirstI(bb)
            while i:
                slots[i] = len(slots)
                li.append(i)
                i = NextI(i)
            insts.append(li)
        blocks = []
        for li in insts:
            out = []
            for r in li:
                out.append(self._parse_inst(r, slots, bidx))
            blocks.append(out)
        fn._blocks = blocks
        fn._nslots = len(slots)

    def _parse_inst(self, r, slots, bidx):
        o = OPS.get(Opc(r))
        d = slots[r]
        V = lambda x: self._operand(x, slots)
        if o is None:
            return ("unsupported", d, self.text(r))
        if o in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr",
                 "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
            return (o, d, self.vty(r), V(Op(r, 0)), V(Op(r, 1)))
        if o == "icmp":
            return (o, d, ICMP[ICmpP(r)], self.vty(Op(r, 0)), V(Op(r, 0)), V(Op(r, 1)))
        if o == "fcmp":
            return (o, d, FCMP[FCmpP(r)], self.vty(Op(r, 0)), V(Op(r, 0)), V(Op(r, 1)))
        if o == "load":
            return (o, d, self.vty(r), V(Op(r, 0)))
        if o == "store":
            return (o, d, self.vty(Op(r, 0)), V(Op(r, 0)), V(Op(r, 1)))
        if o == "gep":
            base = V(Op(r, 0))
            cur = self.ty(GepTy(r))
            const, var = 0, []
            for i in range(1, NumOps(r)):
                ixr = Op(r, i)
                ix = V(ixr)
                w = self.vty(ixr).w
                if i == 1:
                    scale = cur.size
                elif cur.k == "struct":
                    v = ix[1][1]
                    const += OffEl(self.dl, cur.ref, v)
                    cur = cur.el[v]
                    continue
                else:
                    cur = cur.el
                    scale = cur.size
                if ix[0] == "c" and ix[1][0] == "i":
                    v = ix[1][1]
                    if v >> (w - 1):
                        v -= 1 << w
                    const += v * scale
                else:
                    var.append((ix, w, scale))
            return (o, d, base, const, var)
        if o in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "fptoui", "fptosi",
                 "uitofp", "sitofp", "fptrunc", "fpext"):
            return (o, d, self.vty(Op(r, 0)), self.vty(r), V(Op(r, 0)))
        if o == "freeze":
            return ("bitcast", d, self.vty(r), self.vty(r), V(Op(r, 0)))
        if o == "fneg":
            return (o, d, self.vty(r), V(Op(r, 0)))
        if o == "phi":
            return (o, d, self.vty(r),
                    {bidx[IncB(r, i)]: V(IncV(r, i)) for i in range(CountInc(r))})
        if o == "select":
            return (o, d, self.vty(r), V(Op(r, 0)), V(Op(r, 1)), V(Op(r, 2)))
        if o == "br":
            if IsCond(r):
                return (o, d, V(Cond(r)), bidx[Succ(r, 0)], bidx[Succ(r, 1)])
            return (o, d, None, bidx[Succ(r, 0)], None)
        if o == "switch":
            cases = []
            n = NumSucc(r)
            for i in range(1, n):
                cases.append((self.const(Op(r, 2 * i))[1], bidx[Succ(r, i)]))
            t = self.vty(Op(r, 0))
            return (o, d, t, V(Op(r, 0)), bidx[SwDef(r)], cases)
        if o == "ret":
            return (o, d, V(Op(r, 0)) if NumOps(r) else None)
        if o in ("call", "invoke"):
            callee = CalledV(r)
            n = NumArg(r)
            args = []
            for i in range(n):
                a = Op(r, i)
                if self.vty(a).k == "kind14" or self.vty(a).k.startswith("kind"):
                    args.append(None)      # metadata
                else:
                    args.append(V(a))
            tys = [self.vty(Op(r, i)) for i in range(n)]
            normal = bidx[Succ(r, 0)] if o == "invoke" else None
            k = ValueKind(callee)
            if k not in (VK_INSTR, VK_ARG, VK_FN, VK_ALIAS, VK_CEXPR, VK_GVAR):
                return ("unsupported", d, self.text(r))
            return ("call", d, self.vty(r), V(callee), args, tys, normal, InstDbg(r))
        if o == "alloca":
            return (o, d, self.ty(AllocTy(r)), V(Op(r, 0)))
        if o in ("extractvalue",):
            ix = Idx(r)
            return (o, d, V(Op(r, 0)), [ix[i] for i in range(NumIdx(r))])
        if o == "insertvalue":
            ix = Idx(r)
            return (o, d, V(Op(r, 0)), V(Op(r, 1)), [ix[i] for i in range(NumIdx(r))])
        if o == "unreachable":
            return (o, d)
        return ("unsupported", d, self.text(r))
