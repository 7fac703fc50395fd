"""Reader of LLVM bitcode through libLLVM's C API (ctypes): the real code, compiled from /repo, as plain Python data."""
import ctypes as C
import glob

_lib = None
for _p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
           *glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM*18*so*")):
    try:
        _lib = C.CDLL(_p)
        break
    except OSError:
        pass
if _lib is None:
    raise SystemExit("libLLVM-18 not found")
L = _lib
V = C.c_void_p


def _f(name, res, *args):
    f = getattr(L, name)
    f.restype, f.argtypes = res, list(args)
    return f


U, I, S, B = C.c_uint, C.c_int, C.c_char_p, C.c_int
for n, r, *a in (
    ("LLVMContextCreate", V), ("LLVMContextDispose", None, V),
    ("LLVMCreateMemoryBufferWithContentsOfFile", B, S, C.POINTER(V), C.POINTER(S)),
    ("LLVMParseIRInContext", B, V, V, C.POINTER(V), C.POINTER(S)),
    ("LLVMGetFirstFunction", V, V), ("LLVMGetNextFunction", V, V),
    ("LLVMGetFirstGlobal", V, V), ("LLVMGetNextGlobal", V, V), ("LLVMGetInitializer", V, V),
    ("LLVMGlobalGetValueType", V, V), ("LLVMIsGlobalConstant", B, V),
    ("LLVMGetValueName2", S, V, C.POINTER(C.c_size_t)),
    ("LLVMIsDeclaration", B, V), ("LLVMCountParams", U, V), ("LLVMGetParam", V, V, U),
    ("LLVMGetFirstBasicBlock", V, V), ("LLVMGetNextBasicBlock", V, V),
    ("LLVMGetFirstInstruction", V, V), ("LLVMGetNextInstruction", V, V),
    ("LLVMGetInstructionOpcode", I, V), ("LLVMGetNumOperands", I, V), ("LLVMGetOperand", V, V, U),
    ("LLVMTypeOf", V, V), ("LLVMGetTypeKind", I, V), ("LLVMGetIntTypeWidth", U, V),
    ("LLVMGetElementType", V, V), ("LLVMGetVectorSize", U, V), ("LLVMGetArrayLength2", C.c_uint64, V),
    ("LLVMCountStructElementTypes", U, V), ("LLVMStructGetTypeAtIndex", V, V, U),
    ("LLVMGetModuleDataLayout", V, V), ("LLVMABISizeOfType", C.c_ulonglong, V, V),
    ("LLVMStoreSizeOfType", C.c_ulonglong, V, V),
    ("LLVMOffsetOfElement", C.c_ulonglong, V, V, U), ("LLVMSizeOfTypeInBits", C.c_ulonglong, V, V),
    ("LLVMGetICmpPredicate", I, V), ("LLVMGetGEPSourceElementType", V, V),
    ("LLVMGetAllocatedType", V, V), ("LLVMGetValueKind", I, V),
    ("LLVMGetAggregateElement", V, V, U), ("LLVMGetConstOpcode", I, V),
    ("LLVMGetNumMaskElements", U, V), ("LLVMGetMaskValue", I, V, U),
    ("LLVMGetCalledValue", V, V), ("LLVMCountIncoming", U, V), ("LLVMGetIncomingValue", V, V, U),
    ("LLVMGetIncomingBlock", V, V, U), ("LLVMGetNumSuccessors", U, V), ("LLVMGetSuccessor", V, V, U),
    ("LLVMIsConditional", B, V), ("LLVMGetCondition", V, V), ("LLVMGetSwitchDefaultDest", V, V),
    ("LLVMGetNumIndices", U, V), ("LLVMGetIndices", C.POINTER(U), V),
    ("LLVMConstIntGetZExtValue", C.c_ulonglong, V), ("LLVMPrintValueToString", V, V),
    ("LLVMDisposeMessage", None, V), ("LLVMGetInlineAsmAsmString", S, V, C.POINTER(C.c_size_t)),
    ("LLVMGetInlineAsmConstraintString", S, V, C.POINTER(C.c_size_t)),
    ("LLVMBasicBlockAsValue", V, V), ("LLVMGetReturnType", V, V), ("LLVMGetAlignment", U, V),
    ("LLVMGetBasicBlockTerminator", V, V), ("LLVMGetInstructionParent", V, V),
    ("LLVMGetUsedValue", V, V), ("LLVMGlobalGetValueType", V, V), ("LLVMGetLinkage", I, V),
    ("LLVMIsConstant", B, V), ("LLVMGetAsString", V, V, C.POINTER(C.c_size_t)), ("LLVMIsConstantString", B, V),
    ("LLVMGetDebugLocLine", U, V),
):
    _f(n, r, *a)

OPC = {1: "ret", 2: "br", 3: "switch", 7: "unreachable", 8: "add", 10: "sub", 12: "mul", 14: "udiv", 15: "sdiv",
       17: "urem", 18: "srem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca",
       27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 50: "extractelement",
       51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
# value kinds
VK = {0: "arg", 1: "bb", 5: "func", 6: "alias", 7: "ifunc", 8: "gvar", 9: "blockaddr", 10: "cexpr", 11: "carray",
      12: "cstruct", 13: "cvector", 14: "undef", 15: "zeroinit", 16: "cdarray", 17: "cdvector", 18: "cint", 19: "cfp",
      20: "null", 21: "cnone", 22: "md", 23: "inlineasm", 24: "inst", 25: "poison"}


class Unsupported(Exception):
    """The tool cannot handle this construct: an error of the check, never a verdict."""


def _name(v):
    n = C.c_size_t()
    s = L.LLVMGetValueName2(v, C.byref(n))
    return (s or b"").decode()


class Module:
    """functions: name -> Fn; globals: name -> Glob; everything as Python data"""

    def __init__(self, path):
        self.path = path
        self.ctx = L.LLVMContextCreate()
        mb, msg, m = V(), S(), V()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(mb), C.byref(msg)):
            raise Unsupported(f"cannot read {path}: {msg.value}")
        if L.LLVMParseIRInContext(self.ctx, mb, C.byref(m), C.byref(msg)):
            raise Unsupported(f"cannot parse {path}: {msg.value}")
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self._ty = {}
        self.funcs, self.globs = {}, {}
        self._raw = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            n = _name(f)
            self._raw[n] = f
            self.funcs[n] = not L.LLVMIsDeclaration(f)
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.globs[_name(g)] = g
            g = L.LLVMGetNextGlobal(g)
        self._fn = {}

    # ---- types: ('i',w) ('p',) ('v',n,elt) ('a',n,elt,size) ('s',size,(offs..),(elts..)) ('void',)
    def ty(self, t):
        r = self._ty.get(t)
        if r is None:
            r = self._ty[t] = self._mkty(t)
        return r

    def _mkty(self, t):
        k = L.LLVMGetTypeKind(t)
        if k == 0:
            return ("void",)
        if k == 8:
            return ("i", L.LLVMGetIntTypeWidth(t))
        if k == 12:
            return ("p",)
        if k in (2, 3):
            return ("f", 32 if k == 2 else 64)
        if k == 13:
            return ("v", L.LLVMGetVectorSize(t), self.ty(L.LLVMGetElementType(t)))
        if k == 11:
            return ("a", L.LLVMGetArrayLength2(t), self.ty(L.LLVMGetElementType(t)), L.LLVMABISizeOfType(self.dl, t))
        if k == 10:
            n = L.LLVMCountStructElementTypes(t)
            return ("s", L.LLVMABISizeOfType(self.dl, t), tuple(L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)),
                    tuple(self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)))
        if k == 7:
            return ("label",)
        if k == 14 or k == 16:
            return ("meta",)
        return ("other", k)

    def size(self, t):
        k = t[0]
        if k == "i":
            return (t[1] + 7) // 8
        if k == "f":
            return t[1] // 8
        if k == "p":
            return 8
        if k == "v":
            return t[1] * bits(t[2]) // 8
        if k == "a":
            return t[3]
        if k == "s":
            return t[1]
        raise Unsupported(f"size of {t}")

    # ---- constants
    def const(self, v):
        """-> ('c', intvalue) | ('u',) | ('g', name, off) | ('n',) | ('agg', type, [..])"""
        k = VK.get(L.LLVMGetValueKind(v))
        t = self.ty(L.LLVMTypeOf(v))
        if k == "cint":
            if t[1] <= 64:
                return ("c", L.LLVMConstIntGetZExtValue(v))
            p = L.LLVMPrintValueToString(v)
            s = C.string_at(p).decode()
            L.LLVMDisposeMessage(p)
            return ("c", int(s.split()[-1]) % (1 << t[1]))
        if k in ("undef", "poison"):
            return ("u", t)
        if k == "null":
            return ("n",)
        if k == "zeroinit":
            if t[0] in ("v",):
                return ("c", 0)
            return ("zero", t)
        if k in ("func", "gvar"):
            return ("g", _name(v), 0)
        if k in ("cdvector", "cvector"):
            w = bits(t[2])
            out, sym = 0, False
            for i in range(t[1]):
                e = self.const(L.LLVMGetAggregateElement(v, i))
                if e[0] == "u":
                    continue  # undefined element: any value will do
                if e[0] != "c":
                    raise Unsupported("vector of non-integers")
                out |= e[1] << (i * w)
            return ("c", out)
        if k in ("cdarray", "carray", "cstruct"):
            n = t[1] if t[0] == "a" else len(t[2])
            return ("agg", t, [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)])
        if k == "cexpr":
            op = OPC.get(L.LLVMGetConstOpcode(v))
            if op == "gep":
                base = self.const(L.LLVMGetOperand(v, 0))
                off = base[2] if base[0] == "g" else 0
                off += self.gep_const(v)
                if base[0] != "g":
                    raise Unsupported("constant gep")
                return ("g", base[1], off)
            if op in ("bitcast",):
                return self.const(L.LLVMGetOperand(v, 0))
            raise Unsupported(f"constant expression {op}")
        if k == "cfp":
            raise Unsupported("floating-point constant")
        raise Unsupported(f"constant kind {k}")

    def gep_const(self, v):
        off = 0
        for c, terms in (self.gep(v, lambda o: self.const(o)),):
            if terms:
                raise Unsupported("non-constant gep in constant")
            off = c
        return off

    def gep(self, v, opnd):
        """-> constant byte offset, [(scale, operand)]"""
        t = L.LLVMGetGEPSourceElementType(v)
        off, terms = 0, []
        n = L.LLVMGetNumOperands(v)
        for i in range(1, n):
            o = L.LLVMGetOperand(v, i)
            if i == 1:
                sz = L.LLVMABISizeOfType(self.dl, t)
            else:
                k = L.LLVMGetTypeKind(t)
                if k == 10:
                    idx = L.LLVMConstIntGetZExtValue(o)
                    off += L.LLVMOffsetOfElement(self.dl, t, idx)
                    t = L.LLVMStructGetTypeAtIndex(t, idx)
                    continue
                t = L.LLVMGetElementType(t)
                sz = L.LLVMABISizeOfType(self.dl, t)
            if VK.get(L.LLVMGetValueKind(o)) == "cint":
                w = L.LLVMGetIntTypeWidth(L.LLVMTypeOf(o))
                x = L.LLVMConstIntGetZExtValue(o)
                if x >> (w - 1):
                    x -= 1 << w
                off += sz * x
            else:
                terms.append((sz, opnd(o), self.ty(L.LLVMTypeOf(o))[1]))
        return off, terms

    def fn(self, name):
        if name not in self._fn:
            self._fn[name] = Fn(self, name, self._raw[name])
        return self._fn[name]

    def glob(self, name):
        g = self.globs[name]
        t = self.ty(L.LLVMGlobalGetValueType(g))
        init = L.LLVMGetInitializer(g)
        return t, (self.const(init) if init else None), bool(L.LLVMIsGlobalConstant(g))


def bits(t):
    k = t[0]
    if k in ("i", "f"):
        return t[1]
    if k == "p":
        return 64
    if k == "v":
        return t[1] * bits(t[2])
    raise Unsupported(f"bits of {t}")


class Fn:
    """params: [type]; blocks: [[inst]]; inst = (op, dest or None, type, payload)"""

    def __init__(self, mod, name, f):
        self.mod, self.name = mod, name
        n = L.LLVMCountParams(f)
        vid = {}
        self.params = []
        for i in range(n):
            p = L.LLVMGetParam(f, i)
            vid[p] = i
            self.params.append(mod.ty(L.LLVMTypeOf(p)))
        nxt = n
        bbs, bid = [], {}
        bb = L.LLVMGetFirstBasicBlock(f)
        while bb:
            bid[L.LLVMBasicBlockAsValue(bb)] = len(bbs)
            bid[bb] = len(bbs)
            bbs.append(bb)
            bb = L.LLVMGetNextBasicBlock(bb)
        raws = []
        for bb in bbs:
            lst = []
            i = L.LLVMGetFirstInstruction(bb)
            while i:
                vid[i] = nxt
                nxt += 1
                lst.append(i)
                i = L.LLVMGetNextInstruction(i)
            raws.append(lst)
        self.nvals = nxt

        def opnd(v):
            r = vid.get(v)
            if r is not None:
                return ("r", r)
            if VK.get(L.LLVMGetValueKind(v)) == "md":
                return ("md",)
            return mod.const(v)
        self.blocks = []
        for lst in raws:
            out = []
            for i in lst:
                op = OPC.get(L.LLVMGetInstructionOpcode(i))
                t = mod.ty(L.LLVMTypeOf(i))
                d = vid[i]
                nop = L.LLVMGetNumOperands(i)
                if op is None:
                    raise Unsupported(f"{name}: opcode {L.LLVMGetInstructionOpcode(i)}")
                if op == "call":
                    cv = L.LLVMGetCalledValue(i)
                    k = VK.get(L.LLVMGetValueKind(cv))
                    args = [L.LLVMGetOperand(i, j) for j in range(nop - 1)]
                    if k == "func":
                        cn = _name(cv)
                        if cn.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental.noalias")):
                            continue
                        callee = ("f", cn)
                    elif k == "inlineasm":
                        ln = C.c_size_t()
                        callee = ("asm", L.LLVMGetInlineAsmAsmString(cv, C.byref(ln)).decode(),
                                  L.LLVMGetInlineAsmConstraintString(cv, C.byref(ln)).decode())
                    else:
                        callee = ("ind", opnd(cv))
                    out.append((op, d, t, callee, [opnd(a) for a in args], [mod.ty(L.LLVMTypeOf(a)) for a in args]))
                elif op == "br":
                    if L.LLVMIsConditional(i):
                        out.append((op, None, t, opnd(L.LLVMGetCondition(i)), bid[L.LLVMGetSuccessor(i, 0)],
                                    bid[L.LLVMGetSuccessor(i, 1)]))
                    else:
                        out.append((op, None, t, None, bid[L.LLVMGetSuccessor(i, 0)], None))
                elif op == "switch":
                    cond = opnd(L.LLVMGetOperand(i, 0))
                    w = mod.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    cases = []
                    for j in range(2, nop, 2):
                        cases.append((L.LLVMConstIntGetZExtValue(L.LLVMGetOperand(i, j)), bid[L.LLVMGetOperand(i, j + 1)]))
                    out.append((op, None, w, cond, cases, bid[L.LLVMGetOperand(i, 1)]))
                elif op == "phi":
                    out.append((op, d, t, [(bid[L.LLVMGetIncomingBlock(i, j)], opnd(L.LLVMGetIncomingValue(i, j)))
                                           for j in range(L.LLVMCountIncoming(i))]))
                elif op == "gep":
                    off, terms = mod.gep(i, opnd)
                    if t[0] != "p":
                        raise Unsupported("vector gep")
                    out.append((op, d, t, opnd(L.LLVMGetOperand(i, 0)), off, terms))
                elif op == "alloca":
                    at = mod.ty(L.LLVMGetAllocatedType(i))
                    cnt = opnd(L.LLVMGetOperand(i, 0))
                    out.append((op, d, t, mod.size(at), cnt))
                elif op == "load":
                    out.append((op, d, t, opnd(L.LLVMGetOperand(i, 0))))
                elif op == "store":
                    st = mod.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    out.append((op, None, st, opnd(L.LLVMGetOperand(i, 0)), opnd(L.LLVMGetOperand(i, 1))))
                elif op == "icmp":
                    out.append((op, d, mod.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))), PRED[L.LLVMGetICmpPredicate(i)],
                                opnd(L.LLVMGetOperand(i, 0)), opnd(L.LLVMGetOperand(i, 1))))
                elif op == "shufflevector":
                    m = [L.LLVMGetMaskValue(i, j) for j in range(L.LLVMGetNumMaskElements(i))]
                    st = mod.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    out.append((op, d, t, st, opnd(L.LLVMGetOperand(i, 0)), opnd(L.LLVMGetOperand(i, 1)), m))
                elif op in ("extractvalue", "insertvalue"):
                    idx = L.LLVMGetIndices(i)
                    ix = [idx[j] for j in range(L.LLVMGetNumIndices(i))]
                    out.append((op, d, t, [opnd(L.LLVMGetOperand(i, j)) for j in range(nop)], ix))
                elif op in ("trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "freeze"):
                    o = L.LLVMGetOperand(i, 0)
                    out.append((op, d, t, mod.ty(L.LLVMTypeOf(o)), opnd(o)))
                elif op in ("extractelement", "insertelement"):
                    st = mod.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    out.append((op, d, t, st, [opnd(L.LLVMGetOperand(i, j)) for j in range(nop)]))
                elif op == "ret":
                    out.append((op, None, t, opnd(L.LLVMGetOperand(i, 0)) if nop else None))
                elif op == "unreachable":
                    out.append((op, None, t))
                elif op == "fcmp":
                    raise Unsupported(f"{name}: floating point")
                else:
                    out.append((op, d, t, [opnd(L.LLVMGetOperand(i, j)) for j in range(nop)]))
            self.blocks.append(out)
