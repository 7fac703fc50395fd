"""Symbolic execution of LLVM functions: each function is translated to Python code once; values are Python ints
(concrete), BV (symbolic bits), Ptr, or SI (symbolic integers, see si.py). Calls to functions under contract are decided
by the contract; other functions of the module are executed."""
import re

from . import bits as bt
from .bits import BV, Part
from .ll import Unsupported, bits as tbits


class Violation(Exception):
    """A failed obligation: kind, message, details"""

    def __init__(self, kind, msg, **kw):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg, self.kw = kind, msg, kw


class PathEnd(Exception):
    """this path is infeasible or cut"""


class Obj:
    """a memory object: list of byte cells: int | Part | PtrPart | None (not initialised)"""
    __slots__ = ("name", "size", "mem", "ro", "align", "opaque", "dead", "extra", "lo")

    def __init__(self, name, size, init=None, ro=False, align=1):
        self.name, self.size, self.ro, self.align = name, size, ro, align
        self.mem = init if init is not None else [None] * size
        self.opaque = None
        self.dead = False
        self.extra = None

    def __repr__(self):
        return f"<obj {self.name}[{self.size}]>"


class Zeros:
    """cells of a long read-only object of zero bytes"""

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if type(i) is slice:
            return [0] * len(range(*i.indices(self.n)))
        if not 0 <= i < self.n:
            raise IndexError(i)
        return 0


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __repr__(self):
        return f"<{self.o.name if self.o else 'null'}+{self.off}>"

    def __eq__(self, x):
        return type(x) is Ptr and x.o is self.o and x.off == self.off

    def __hash__(self):
        return hash((id(self.o), self.off if type(self.off) is int else 0))


class PtrPart:
    __slots__ = ("p", "i")

    def __init__(self, p, i):
        self.p, self.i = p, i

    def __eq__(self, o):
        return type(o) is PtrPart and o.p == self.p and o.i == self.i

    def __hash__(self):
        return hash((self.p, self.i))


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


NULL = Ptr(None, 0)


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


class Code:
    """a function translated to Python: list of block functions"""
    __slots__ = ("name", "blocks", "nregs", "nparams", "fn", "preds", "loops", "phis")


def compile_fn(fn):
    c = Code()
    c.name, c.nregs, c.nparams, c.fn = fn.name, fn.nvals, len(fn.params), fn
    mod = fn.mod
    consts = []
    env = {"Ptr": Ptr, "BV": BV, "NULL": NULL, "K": consts}
    # where is each register defined / used
    defb, usedout = {}, set()
    for i in range(len(fn.params)):
        defb[i] = -1
        usedout.add(i)
    for b, ins in enumerate(fn.blocks):
        for i in ins:
            if i[1] is not None:
                defb[i[1]] = b

    def refs(x, acc):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "r" and isinstance(x[1], int):
                acc.append(x[1])
                return
            for y in x:
                refs(y, acc)
        elif isinstance(x, list):
            for y in x:
                refs(y, acc)
    for b, ins in enumerate(fn.blocks):
        for i in ins:
            if i[0] == "phi":
                for _, v in i[3]:
                    if v[0] == "r":
                        usedout.add(v[1])
                usedout.add(i[1])
                continue
            acc = []
            refs(i[3:], acc)
            for r in acc:
                if defb[r] != b:
                    usedout.add(r)
    phis = {b: [i for i in ins if i[0] == "phi"] for b, ins in enumerate(fn.blocks)}
    c.phis = phis
    src = []
    for b, ins in enumerate(fn.blocks):
        L = []
        here = set()

        def o(v, t=None):
            k = v[0]
            if k == "r":
                return f"v{v[1]}" if v[1] in here else f"R[{v[1]}]"
            if k == "c":
                return str(v[1])
            if k == "n":
                return "NULL"
            if k == "u":
                return f"X.undef({tbits(v[1]) if v[1][0] in 'ipv' else 0})" if v[1][0] != "s" else "{}"
            if k == "g":
                return f"X.glob({id(mod)},{v[1]!r},{v[2]})" if v[1] not in mod.funcs else f"X.fnptr({v[1]!r})"
            raise Unsupported(f"operand {v}")

        def phimoves(frm, to):
            ps = phis[to]
            if not ps:
                return
            vals = []
            for p in ps:
                for blk, v in p[3]:
                    if blk == frm:
                        vals.append(o(v))
                        break
            if len(ps) == 1:
                L.append(f" R[{ps[0][1]}] = {vals[0]}")
            else:
                L.append(" " + ",".join(f"R[{p[1]}]" for p in ps) + " = " + ",".join(vals))

        def phimoves2(frm, to):
            n = len(L)
            phimoves(frm, to)
            x = L[n:]
            del L[n:]
            return [" " + y for y in x]
        L.append(f"def b{b}(R,X):")
        for i in ins:
            op, d, t = i[0], i[1], i[2]
            if op == "phi":
                continue
            D = f" v{d} = "
            if op in ("xor", "and", "or", "add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr"):
                n = tbits(t)
                w = tbits(t[2]) if t[0] == "v" else n
                av, bv_ = i[3]
                A, Bx = o(av), o(bv_)
                sl = f"X.{op}_({A},{Bx},{n},{w})"
                if t[0] == "i" and op in ("xor", "and", "or", "add", "sub", "mul", "shl", "lshr") and n <= 128:
                    tests = [f"type({q}) is int" for q, r in ((A, av), (Bx, bv_)) if r[0] != "c"]
                    M = (1 << n) - 1
                    f = {"xor": f"{A}^{Bx}", "and": f"{A}&{Bx}", "or": f"{A}|{Bx}", "add": f"({A}+{Bx})&{M}",
                         "sub": f"({A}-{Bx})&{M}", "mul": f"({A}*{Bx})&{M}"}.get(op)
                    if f is None and bv_[0] == "c" and bv_[1] < n:
                        f = f"({A}<<{bv_[1]})&{M}" if op == "shl" else f"{A}>>{bv_[1]}"
                    if f is not None and tests:
                        L.append(f"{D}{f} if {' and '.join(tests)} else {sl}")
                    else:
                        L.append(D + sl)
                else:
                    L.append(D + sl)
            elif op == "icmp":
                n = tbits(t)
                w = tbits(t[2]) if t[0] == "v" else n
                A, Bx = o(i[4]), o(i[5])
                pr = i[3]
                sl = f"X.icmp({pr!r},{A},{Bx},{n},{w},{t[0] == 'p'})"
                if t[0] == "i" and pr in ("eq", "ne", "ult", "ule", "ugt", "uge"):
                    tests = [f"type({q}) is int" for q, r in ((A, i[4]), (Bx, i[5])) if r[0] != "c"]
                    cmp = {"eq": "==", "ne": "!=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}[pr]
                    L.append(f"{D}(1 if {A} {cmp} {Bx} else 0) if {' and '.join(tests) or 'True'} else {sl}")
                else:
                    L.append(D + sl)
            elif op == "gep":
                base, off, terms = o(i[3]), i[4], i[5]
                if not terms:
                    L.append(f" _p = {base}")
                    L.append(f"{D}Ptr(_p.o,_p.off+{off}) if type(_p) is Ptr and type(_p.off) is int else X.gep(_p,{off},())")
                else:
                    tt = ",".join(f"({s},{o(v)},{w})" for s, v, w in terms)
                    if len(terms) == 1 and terms[0][1][0] == "r":
                        s, v, w = terms[0]
                        q = o(v)
                        H = 1 << (w - 1)
                        L.append(f" _p = {base}")
                        L.append(f"{D}Ptr(_p.o,_p.off+{off}+{s}*({q} if {q}<{H} else {q}-{2 * H})) if type(_p) is Ptr "
                                 f"and type({q}) is int and type(_p.off) is int else X.gep(_p,{off},({tt},))")
                    else:
                        L.append(f"{D}X.gep({base},{off},({tt},))")
            elif op == "load":
                if t[0] == "p":
                    L.append(f"{D}X.loadp({o(i[3])})")
                elif t[0] in "iv":
                    L.append(f"{D}X.load({o(i[3])},{mod.size(t)},{tbits(t)})")
                else:
                    raise Unsupported(f"load of {t}")
            elif op == "store":
                if t[0] == "p":
                    L.append(f" X.storep({o(i[4])},{o(i[3])})")
                elif t[0] in "iv":
                    L.append(f" X.store({o(i[4])},{o(i[3])},{mod.size(t)})")
                else:
                    raise Unsupported(f"store of {t}")
            elif op == "alloca":
                L.append(f"{D}X.alloca({fn.name + '.v' + str(d)!r},{i[3]},{o(i[4])})")
            elif op in ("trunc", "zext", "sext"):
                n, m = tbits(i[3]), tbits(t)
                w, wm = (tbits(i[3][2]), tbits(t[2])) if t[0] == "v" else (n, m)
                A = o(i[4])
                sl = f"X.{op}_({A},{n},{m},{w},{wm})"
                if t[0] == "i" and op == "zext":
                    L.append(f"{D}{A} if type({A}) is int else {sl}")
                elif t[0] == "i" and op == "trunc":
                    L.append(f"{D}{A}&{(1 << m) - 1} if type({A}) is int else {sl}")
                else:
                    L.append(D + sl)
            elif op in ("bitcast", "freeze", "ptrtoint", "inttoptr"):
                L.append(D + o(i[4]))
            elif op == "select":
                cnd, a, e = i[3]
                n = tbits(t)
                ct = "v" if t[0] == "v" else "i"
                w = tbits(t[2]) if t[0] == "v" else n
                L.append(f" _c = {o(cnd)}")
                if ct == "i":
                    L.append(f"{D}({o(a)} if _c else {o(e)}) if type(_c) is int else X.select(_c,{o(a)},{o(e)},{n},{n})")
                else:
                    L.append(f"{D}X.select(_c,{o(a)},{o(e)},{n},{w})")
            elif op == "br":
                if i[3] is None:
                    phimoves(b, i[4])
                    L.append(f" return {i[4]}")
                else:
                    L.append(f" _c = {o(i[3])}")
                    L.append(f" if (_c if type(_c) is int else X.branch(_c,{fn.name!r},{b})):")
                    L.extend(phimoves2(b, i[4]))
                    L.append(f"  return {i[4]}")
                    phimoves(b, i[5])
                    L.append(f" return {i[5]}")
            elif op == "switch":
                L.append(f" _c = {o(i[3])}")
                for val, tgt in i[4]:
                    L.append(f" if (_c == {val} if type(_c) is int else X.branch(X.icmp('eq',_c,{val},{tbits(t)},{tbits(t)},False),{fn.name!r},{b})):")
                    L.extend(phimoves2(b, tgt))
                    L.append(f"  return {tgt}")
                phimoves(b, i[5])
                L.append(f" return {i[5]}")
            elif op == "ret":
                if i[3] is not None:
                    L.append(f" X.rv = {o(i[3])}")
                else:
                    L.append(" X.rv = None")
                L.append(" return -1")
            elif op == "unreachable":
                L.append(f" X.unreachable({fn.name!r})")
            elif op == "shufflevector":
                n, w = i[3][1], tbits(i[3][2])
                L.append(f"{D}X.shuffle({o(i[4])},{o(i[5])},{n},{w},{tuple(i[6])!r})")
            elif op == "extractelement":
                n, w = i[3][1], tbits(i[3][2])
                L.append(f"{D}X.extel({o(i[4][0])},{o(i[4][1])},{n},{w})")
            elif op == "insertelement":
                n, w = i[3][1], tbits(i[3][2])
                L.append(f"{D}X.insel({o(i[4][0])},{o(i[4][1])},{o(i[4][2])},{n},{w})")
            elif op == "extractvalue":
                L.append(f"{D}{o(i[3][0])}[{i[4][0]}]")
            elif op == "insertvalue":
                L.append(f"{D}dict({o(i[3][0])}); v{d}[{i[4][0]}] = {o(i[3][1])}")
            elif op == "call":
                callee, args, at = i[3], i[4], i[5]
                a = ",".join("None" if v[0] == "md" else o(v) for v in args)
                rt = t
                if callee[0] == "f":
                    consts.append((rt, at))
                    L.append(f"{D}X.call({callee[1]!r},[{a}],K[{len(consts) - 1}],{id(mod)})")
                elif callee[0] == "asm":
                    consts.append((rt, at))
                    L.append(f"{D}X.asm({callee[1]!r},{callee[2]!r},[{a}],K[{len(consts) - 1}])")
                else:
                    consts.append((rt, at))
                    L.append(f"{D}X.call_indirect({o(callee[1])},[{a}],K[{len(consts) - 1}])")
            else:
                raise Unsupported(f"{fn.name}: {op}")
            if d is not None:
                here.add(d)
                if d in usedout and op not in ("store", "br", "switch", "ret", "unreachable"):
                    L.append(f" R[{d}] = v{d}")
        src.append("\n".join(L))
    code = "\n".join(src)
    exec(compile(code, f"<{fn.name}>", "exec"), env)
    c.blocks = [env[f"b{b}"] for b in range(len(fn.blocks))]
    return c


# functions with an accept/reject decision, taken there or in a function they call
ACCEPT = re.compile("Unwrap|_AE_Decipher|AE_Decipher")


class Machine:
    """Execution state: modules, memory, path decisions, contracts"""

    def __init__(self, mods, contracts=None):
        self.mods = {id(m): m for m in mods}
        self.modlist = list(mods)
        self.contracts = contracts or {}
        self.code = {}
        self.globs = {}
        self.rv = None
        self.defs = {}
        for m in mods:
            for f, d in m.funcs.items():
                if d and f not in self.defs:
                    self.defs[f] = m
        self.oracle = []      # decisions to replay
        self.trail = []       # decisions made: [value, alternatives left, cond]
        self.assumed = {}     # literal -> 0/1 on this path
        self.depth = 0
        self.names = []       # functions being executed
        self.strict = False   # True: a branch or address on symbolic data is a violation (constant-time obligations)
        self.steps = 0
        self.ct_events = []
        self.loop_hook = None
        self.fuel = None
        self.nobl = 0
        self.forked = 0

    # ---- paths
    def paths(self, run):
        """enumerate all feasible paths of run(); yields its results"""
        self.oracle = []
        while True:
            self.trail = []
            self.assumed = {}
            self.path_start()
            try:
                r = run()
                yield r
            except PathEnd:
                pass
            # next
            t = self.trail
            while t and not t[-1][1]:
                t.pop()
            if not t:
                return
            last = t[-1]
            self.oracle = [x[0] for x in t[:-1]] + [last[1][0]]
            self.pending_alts = last[1][1:]

    def path_start(self):
        pass

    def decide(self, options, what=None):
        k = len(self.trail)
        if k < len(self.oracle):
            v = self.oracle[k]
            if k == len(self.oracle) - 1:
                alts = self.pending_alts
            else:
                alts = self._old_alts(k, options, v)
        else:
            v, alts = options[0], list(options[1:])
            self.forked += 1
        self.trail.append((v, alts, what))
        return v

    def _old_alts(self, k, options, v):
        # alternatives not yet explored at an earlier decision: those listed after v
        i = list(options).index(v)
        return list(options[i + 1:])

    def branch(self, c, fname, blk):
        if type(c) is not BV:
            return self.branch_si(c, fname, blk)
        l = c.bits[0]
        e = l & -2
        if bt.TAINT:
            if self.strict and not any(map(ACCEPT.search, self.names[-2:])):
                raise Violation("secret-dependent-branch", f"branch on data in {fname}")
            return self.decide((0, 1), ("bit", 0))
        if e in self.assumed:
            return self.assumed[e] ^ (l & 1)
        if self.strict:
            raise Violation("secret-dependent-branch", f"branch on data in {fname}")
        v = self.decide((0, 1), ("bit", l))
        self.assumed[e] = v ^ (l & 1)
        return v

    def branch_si(self, c, fname, blk):
        raise Unsupported(f"branch on {c!r} in {fname}")

    # ---- memory
    def obj(self, name, size, init=None, ro=False, align=1):
        return Obj(name, size, init, ro, align)

    def alloca(self, name, size, cnt):
        if type(cnt) is not int:
            raise Unsupported("variable-size alloca")
        return Ptr(Obj(name, size * cnt, None, False, 64), 0)

    def glob(self, mid, name, off):
        m = self.mods[mid]
        o = self.globs.get((mid, name)) or self.globs.get(name)
        if o is None:
            own = m
            t, init, const = m.glob(name)
            if init is None:
                for m2 in self.modlist:
                    if name in m2.globs:
                        t2, i2, c2 = m2.glob(name)
                        if i2 is not None:
                            t, init, const, own = t2, i2, c2, m2
                            break
            if init is None:
                raise Unsupported(f"external global {name}")
            o = Obj(name, own.size(t), [0] * own.size(t), const, 64)
            self._ginit(own, o, 0, t, init)
            self.globs[(mid, name)] = o
        return Ptr(o, off)

    def _ginit(self, m, o, off, t, c):
        k = c[0]
        if k in ("zero", "n", "u"):
            return
        if k == "c":
            n = m.size(t)
            o.mem[off:off + n] = list(c[1].to_bytes(n, "little"))
        elif k == "agg":
            if t[0] == "a":
                es = m.size(t[2])
                for i, e in enumerate(c[2]):
                    self._ginit(m, o, off + i * es, t[2], e)
            else:
                for i, e in enumerate(c[2]):
                    self._ginit(m, o, off + t[2][i], t[3][i], e)
        elif k == "g":
            p = self.glob(id(m), c[1], c[2]) if c[1] not in m.funcs else FnPtr(c[1])
            o.mem[off:off + 8] = [PtrPart(p, i) for i in range(8)]
        else:
            raise Unsupported(f"global initialiser {k}")

    def fnptr(self, name):
        return FnPtr(name)

    def undef(self, n):
        return bt.var(n, "undef")

    def check(self, p, n, write=False):
        if type(p) is not Ptr or p.o is None:
            raise Violation("memory", f"{'write' if write else 'read'} of {n} bytes through {p!r}")
        o, off = p.o, p.off
        if type(off) is not int:
            raise Unsupported("symbolic address")
        if off < 0 or off + n > o.size or o.dead:
            raise Violation("memory", f"{'write' if write else 'read'} of {n} bytes at {o.name}+{off}, object size {o.size}")
        if write and o.ro:
            raise Violation("memory", f"write to read-only {o.name}+{off}")
        return o, off

    def load(self, p, n, nb):
        o = p.o
        off = p.off
        if type(off) is not int or o is None or off < 0 or off + n > o.size or o.opaque:
            if o is not None and (type(off) is not int or o.opaque):
                return self.load_special(p, n, nb)
            self.check(p, n)
        m = o.mem
        b = m[off:off + n]
        f = b[0]
        tf = type(f)
        if tf is int:
            if n == 1:
                return f if nb == 8 else f & ((1 << nb) - 1)
            try:
                v = int.from_bytes(bytes(b), "little")
                return v
            except TypeError:
                pass
        elif tf is Part:
            if f.i == 0 and f.bv.n == 8 * n and b == f.bv.parts:
                return f.bv
        out = []
        for i, x in enumerate(b):
            tx = type(x)
            if tx is Part:
                j = x.i * 8
                out.extend(x.bv.bits[j:j + 8])
            elif tx is int:
                out.extend(bt.bits_of(x, 8))
            elif x is None:
                v = bt.var(8, f"uninit:{o.name}+{off + i}")
                m[off + i] = v.parts[0]
                out.extend(v.bits)
            elif tx is PtrPart:
                if n == 8 and x.i == 0 and all(type(y) is PtrPart and y.p == x.p for y in b):
                    return x.p
                raise Unsupported("load of part of a pointer")
            else:
                return self.load_special(p, n, nb)
        if nb < 8 * n:
            out = out[:nb]
        return bt.mk(tuple(out))

    def load_special(self, p, n, nb):
        if p.o.opaque:
            raise Unsupported(f"direct access to the opaque {p.o.name}")
        raise Unsupported(f"load at symbolic address {p!r}")

    def store_special(self, p, v, n):
        if p.o.opaque:
            raise Unsupported(f"direct access to the opaque {p.o.name}")
        raise Unsupported(f"store at symbolic address {p!r}")

    def loadp(self, p):
        v = self.load(p, 8, 64)
        if type(v) is Ptr or type(v) is FnPtr:
            return v
        if v == 0:
            return NULL
        raise Unsupported(f"load of a pointer: {v!r} at {p!r}")

    def store(self, p, v, n):
        o = p.o
        off = p.off
        if o is None or type(off) is not int or off < 0 or off + n > o.size or o.ro or o.opaque:
            if o is not None and (type(off) is not int or o.opaque):
                return self.store_special(p, v, n)
            self.check(p, n, True)
        tv = type(v)
        if tv is int:
            if n == 1:
                o.mem[off] = v & 255
            else:
                o.mem[off:off + n] = list(v.to_bytes(n, "little"))
        elif tv is BV:
            if v.n < 8 * n:
                v = bt.mk(v.bits + (0,) * (8 * n - v.n))
            ps = v.parts
            o.mem[off:off + n] = ps
            # keep constants concrete
            bs = v.bits
            if 0 in bs or 1 in bs:
                for i in range(n):
                    x = bs[8 * i:8 * i + 8]
                    if max(x) < 2:
                        o.mem[off + i] = bt.mk(x)
        elif tv is Ptr or tv is FnPtr:
            self.storep(p, v)
        else:
            self.store_special(p, v, n)

    def storep(self, p, v):
        if type(v) is int or type(v) is BV:
            return self.store(p, v, 8)
        o, off = self.check(p, 8, True)
        if o.opaque:
            return self.store_special(p, v, 8)
        if v.__class__ is Ptr and v.o is None and v.off == 0:
            o.mem[off:off + 8] = [0] * 8
        else:
            o.mem[off:off + 8] = [PtrPart(v, i) for i in range(8)]

    def gep(self, p, off, terms):
        if type(p) is int and p == 0:
            p = NULL
        if type(p) is not Ptr:
            raise Unsupported(f"pointer arithmetic on {p!r}")
        x = p.off + off
        for s, v, w in terms:
            if type(v) is int:
                x = x + s * sgn(v, w)
            elif type(v) is BV:
                if self.strict:
                    raise Violation("secret-dependent-address", "address computed from data")
                raise Unsupported("address computed from data")
            else:
                x = x + self.si_signed(v, w) * s
        return Ptr(p.o, x)

    def si_signed(self, v, w):
        raise Unsupported("symbolic index")

    # ---- arithmetic slow paths
    def xor_(self, a, b, n, w):
        if type(a) in (int, BV) and type(b) in (int, BV):
            return bt.wxor(a, b, n)
        return self.si("xor", a, b, n)

    def and_(self, a, b, n, w):
        if type(a) in (int, BV) and type(b) in (int, BV):
            return bt.wand(a, b, n)
        return self.si("and", a, b, n)

    def or_(self, a, b, n, w):
        if type(a) in (int, BV) and type(b) in (int, BV):
            return bt.wor(a, b, n)
        return self.si("or", a, b, n)

    def _lanewise(self, f, a, b, n, w):
        out = []
        for x, y in zip(bt.lanes(a, n, w), bt.lanes(b, n, w)):
            r = f(bt.mk(x), bt.mk(y), w)
            out.extend(bt.bits_of(r, w))
        return bt.mk(tuple(out))

    def add_(self, a, b, n, w):
        if type(a) is int and type(b) is int and n == w:
            return (a + b) & ((1 << n) - 1)
        if type(a) in (int, BV) and type(b) in (int, BV):
            return self._lanewise(self._add, a, b, n, w)
        if type(a) is Ptr or type(b) is Ptr:
            p, i = (a, b) if type(a) is Ptr else (b, a)
            return self.gep(p, 0, ((1, i, 64),))
        return self.si("add", a, b, n)

    @staticmethod
    def _add(a, b, w):
        if type(a) is int and type(b) is int:
            return (a + b) & ((1 << w) - 1)
        if a == 0:
            return b
        if b == 0:
            return a
        return bt.add(a, b, w)

    @staticmethod
    def _sub(a, b, w):
        if type(a) is int and type(b) is int:
            return (a - b) & ((1 << w) - 1)
        if b == 0:
            return a
        return bt.sub(a, b, w)

    def sub_(self, a, b, n, w):
        if type(a) in (int, BV) and type(b) in (int, BV):
            return self._lanewise(self._sub, a, b, n, w)
        if type(a) is Ptr and type(b) is Ptr:
            if a.o is not b.o:
                raise Unsupported("difference of pointers to different objects")
            d = a.off - b.off
            return d & ((1 << 64) - 1) if type(d) is int else self.si_wrap(d, 64)
        if type(a) is Ptr:
            return self.gep(a, 0, ((-1, b, 64),))
        return self.si("sub", a, b, n)

    def si_wrap(self, d, n):
        raise Unsupported("symbolic difference")

    def mul_(self, a, b, n, w):
        if type(a) is int and type(b) is int and n == w:
            return (a * b) & ((1 << n) - 1)
        if type(a) in (int, BV) and type(b) in (int, BV):
            def m(x, y, w):
                if type(x) is int and type(y) is int:
                    return (x * y) & ((1 << w) - 1)
                if type(x) is int:
                    x, y = y, x
                r = 0
                for k in range(w):
                    yk = bt.bits_of(y, w)[k]
                    if yk:
                        t = bt.shl(x, k, w, w)
                        if yk != 1:
                            t = bt.wand(t, bt.mk((yk,) * w), w)
                        r = self._add(r, t, w)
                return r
            return self._lanewise(m, a, b, n, w)
        return self.si("mul", a, b, n)

    def _div(self, op, a, b, n, w):
        if type(a) is int and type(b) is int and n == w:
            if b == 0:
                raise Violation("undefined", "division by zero")
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            x, y = sgn(a, n), sgn(b, n)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == "sdiv" else x - q * y) & ((1 << n) - 1)
        if type(a) is BV and type(b) is int and b and b & (b - 1) == 0 and op in ("udiv", "urem") and n == w:
            k = b.bit_length() - 1
            return bt.lshr(a, k, n, n) if op == "udiv" else bt.wand(a, b - 1, n)
        if type(a) in (int, BV) and type(b) in (int, BV):
            if self.strict:
                raise Violation("secret-dependent-division", f"{op} on data")
            if bt.TAINT and n == w:
                return bt.var(n)
            raise Unsupported(f"{op} on data")
        return self.si(op, a, b, n)

    def udiv_(self, a, b, n, w):
        return self._div("udiv", a, b, n, w)

    def urem_(self, a, b, n, w):
        return self._div("urem", a, b, n, w)

    def sdiv_(self, a, b, n, w):
        return self._div("sdiv", a, b, n, w)

    def srem_(self, a, b, n, w):
        return self._div("srem", a, b, n, w)

    def _sh(self, op, a, b, n, w):
        if type(a) not in (int, BV) or type(b) not in (int, BV):
            return self.si(op, a, b, n)
        if type(b) is BV:
            # every lane must still be shifted by a known or an enumerable amount
            if n != w:
                raise Unsupported("vector shift by data")
            k = 0
            while (1 << k) < n:
                k += 1
            r = a
            f = getattr(bt, op)
            bb = b.bits
            for i in range(k):
                r = bt.mux(bb[i], f(r, 1 << i, n, n), r, n)
            for i in range(k, n):
                r = bt.mux(bb[i], 0, r, n)
            return r
        if n == w:
            if b >= n:
                return bt.var(n, "poison")      # arbitrary: shows up as a failed equality if it is used
            if type(a) is int:
                M = (1 << n) - 1
                return (a << b) & M if op == "shl" else a >> b if op == "lshr" else (sgn(a, n) >> b) & M
            return getattr(bt, op)(a, b, n, n)
        out = []
        for x, y in zip(bt.lanes(a, n, w), bt.lanes(b, n, w)):
            s = bt.mk(y)
            if s >= w:
                out.extend(bt.alloc(w, "poison"))
                continue
            out.extend(bt.bits_of(getattr(bt, op)(bt.mk(x), s, w, w), w))
        return bt.mk(tuple(out))

    def shl_(self, a, b, n, w):
        return self._sh("shl", a, b, n, w)

    def lshr_(self, a, b, n, w):
        return self._sh("lshr", a, b, n, w)

    def ashr_(self, a, b, n, w):
        return self._sh("ashr", a, b, n, w)

    def zext_(self, a, n, m, w, wm):
        if type(a) not in (int, BV):
            if type(a) is Ptr:
                return a
            return self.si_zext(a, n, m)
        if w == n:
            return a if type(a) is int else bt.mk(a.bits + (0,) * (m - n))
        out = []
        for l in bt.lanes(a, n, w):
            out.extend(l + (0,) * (wm - w))
        return bt.mk(tuple(out))

    def sext_(self, a, n, m, w, wm):
        if type(a) not in (int, BV):
            return self.si_sext(a, n, m)
        out = []
        for l in bt.lanes(a, n, w):
            out.extend(l + (l[-1],) * (wm - w))
        return bt.mk(tuple(out))

    def trunc_(self, a, n, m, w, wm):
        if type(a) not in (int, BV):
            return self.si_trunc(a, n, m)
        out = []
        for l in bt.lanes(a, n, w):
            out.extend(l[:wm])
        return bt.mk(tuple(out))

    def si(self, op, a, b, n):
        if type(a) is Ptr or type(b) is Ptr:
            return self.ptr_op(op, a, b, n)
        raise Unsupported(f"{op} on {a!r}, {b!r}")

    def ptr_op(self, op, a, b, n):
        p, q = (a, b) if type(a) is Ptr else (b, a)
        if op == "and" and type(q) is int and type(p.off) is int and p.o is not None and q < p.o.align:
            return p.off & q
        if op in ("and", "urem") and type(q) is int and type(p.off) is int and p.o is not None:
            # alignment of a buffer the caller chose: either way
            m = q if op == "and" else q - 1
            if m & (m + 1) == 0 and m < 64:
                k = self.decide(tuple(range(m + 1)), ("align", p.o.name))
                return (k + p.off) & m
        if op == "or" and type(q) is Ptr:
            return p
        raise Unsupported(f"{op} on {a!r}, {b!r}")

    def icmp(self, pr, a, b, n, w, isp):
        if type(a) is int and type(b) is int and n == w:
            if pr[0] == "s":
                x, y = sgn(a, n), sgn(b, n)
                pr = "u" + pr[1:]
            else:
                x, y = a, b
            return int({"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pr])
        if type(a) is Ptr or type(b) is Ptr:
            return self.icmp_ptr(pr, a, b)
        if type(a) is FnPtr or type(b) is FnPtr:
            r = (a is not NULL) and (b is not NULL) and getattr(a, "name", 0) == getattr(b, "name", 1)
            return int(r == (pr == "eq"))
        if type(a) in (int, BV) and type(b) in (int, BV):
            out = []
            for x, y in zip(bt.lanes(a, n, w), bt.lanes(b, n, w)):
                x, y = bt.mk(x), bt.mk(y)
                p = pr
                if p[0] == "s":
                    x, y = bt.wxor(x, 1 << (w - 1), w), bt.wxor(y, 1 << (w - 1), w)
                    p = "u" + p[1:]
                if p in ("eq", "ne"):
                    r = bt.eq(x, y, w) ^ (p == "ne")
                elif p == "ult":
                    r = bt.ult(x, y, w)
                elif p == "uge":
                    r = bt.ult(x, y, w) ^ 1
                elif p == "ugt":
                    r = bt.ult(y, x, w)
                else:
                    r = bt.ult(y, x, w) ^ 1
                out.append(int(r))
            return bt.mk(tuple(out))
        return self.icmp_si(pr, a, b, n)

    def icmp_si(self, pr, a, b, n):
        raise Unsupported(f"comparison {pr} of {a!r} and {b!r}")

    def icmp_ptr(self, pr, a, b):
        if type(a) is not Ptr:
            a = NULL if a == 0 else a
        if type(b) is not Ptr:
            b = NULL if b == 0 else b
        if type(a) is not Ptr or type(b) is not Ptr:
            raise Unsupported(f"comparison of {a!r} and {b!r}")
        if a.o is b.o:
            if type(a.off) is int and type(b.off) is int:
                return self.icmp(pr, a.off & (2 ** 64 - 1), b.off & (2 ** 64 - 1), 64, 64, False)
            return self.icmp_si_off(pr, a.off, b.off)
        if pr in ("eq", "ne"):
            return int(pr == "ne")
        # order of unrelated objects: unknown; decide either way
        return self.decide((0, 1), ("ptrorder", pr))

    def icmp_si_off(self, pr, a, b):
        raise Unsupported("symbolic pointer comparison")

    def select(self, c, a, b, n, w):
        if type(c) is not int and type(c) is not BV:
            return a if self.branch(c, "select", 0) else b
        if type(a) in (int, BV) and type(b) in (int, BV):
            if n == w:
                if type(c) is int:
                    return a if c else b
                return bt.mux(c.bits[0], a, b, n)
            k = n // w
            cb = bt.bits_of(c, k) if (type(c) is BV and c.n == k) or (type(c) is int and k > 1) else None
            out = []
            for i, (x, y) in enumerate(zip(bt.lanes(a, n, w), bt.lanes(b, n, w))):
                ci = cb[i]
                out.extend([bt.lmux(ci, p, q) for p, q in zip(x, y)])
            return bt.mk(tuple(out))
        if type(c) is int:
            return a if c else b
        return a if self.branch(c, "select", 0) else b

    def shuffle(self, a, b, n, w, mask):
        la = bt.lanes(a, n * w, w)
        lb = None
        out = []
        for m in mask:
            if m < 0 or m >= 2 * n:
                out.extend(bt.alloc(w, "undef"))
            elif m < n:
                out.extend(la[m])
            else:
                if lb is None:
                    lb = bt.lanes(b, n * w, w)
                out.extend(lb[m - n])
        return bt.mk(tuple(out))

    def extel(self, v, i, n, w):
        if type(i) is not int:
            raise Unsupported("variable vector index")
        return bt.mk(bt.bits_of(v, n * w)[i * w:(i + 1) * w])

    def insel(self, v, e, i, n, w):
        if type(i) is not int:
            raise Unsupported("variable vector index")
        b = bt.bits_of(v, n * w)
        return bt.mk(b[:i * w] + bt.bits_of(e, w) + b[(i + 1) * w:])

    def unreachable(self, f):
        raise Violation("undefined", f"unreachable code reached in {f}")

    # ---- calls
    def call_indirect(self, p, args, k):
        if type(p) is not FnPtr:
            raise Unsupported(f"indirect call through {p!r}")
        return self.call(p.name, args, k, None)

    def call(self, name, args, k, mid):
        c = self.contracts.get(name)
        if c is not None:
            return c(self, *args)
        m = self.mods[mid] if mid is not None else None
        if m is None or not m.funcs.get(name):
            m = self.defs.get(name)
        if m is not None:
            return self.run(m, name, args)
        b = getattr(self, "lib_" + name.replace(".", "_"), None)
        if b is not None:
            return b(args, k)
        if name.startswith("llvm."):
            return self.intrinsic(name, args, k)
        raise Unsupported(f"call of unknown function {name}")

    def run(self, m, name, args):
        key = (id(m), name)
        c = self.code.get(key)
        if c is None:
            c = self.code[key] = compile_fn(m.fn(name))
        R = [None] * c.nregs
        R[:len(args)] = args
        self.depth += 1
        if self.depth > 200:
            raise Unsupported("recursion")
        self.names.append(name)
        blocks = c.blocks
        b = 0
        hook = self.loop_hook
        if hook is None:
            n = 0
            while b >= 0:
                b = blocks[b](R, self)
                n += 1
                if n > 5000000:
                    raise Violation("nontermination", f"{name}: more than {n} basic blocks executed")
        else:
            hook(c, R, m)
        self.depth -= 1
        self.names.pop()
        return self.rv

    def call_fn(self, name, *args):
        """entry point for the harness"""
        self.depth = 0
        self.names = []
        m = self.defs.get(name)
        if m is None:
            raise Unsupported(f"no function {name}")
        return self.run(m, name, list(args))

    # ---- C library
    def _copy(self, d, s, n):
        if type(n) is not int:
            return self.copy_si(d, s, n)
        if n == 0:
            return
        so, sof = self.check(s, n)
        do, dof = self.check(d, n, True)
        do.mem[dof:dof + n] = self.rawslice(so, sof, n)

    def rawslice(self, o, off, n):
        return o.mem[off:off + n]

    def copy_si(self, d, s, n):
        raise Unsupported("memcpy of symbolic length")

    def set_si(self, d, v, n):
        raise Unsupported("memset of symbolic length")

    def lib_memcpy(self, a, k):
        d, s, n = a[:3]
        if type(n) is int and n and type(d.off) is int and type(s.off) is int and d.o is s.o and d.off != s.off \
                and abs(d.off - s.off) < n:
            raise Violation("undefined", "memcpy of overlapping ranges")
        self._copy(d, s, n)
        return d

    lib_llvm_memcpy_p0_p0_i64 = lib_memcpy

    def lib_memmove(self, a, k):
        self._copy(*a[:3])
        return a[0]

    lib_llvm_memmove_p0_p0_i64 = lib_memmove

    def lib_memset(self, a, k):
        d, v, n = a[:3]
        if type(n) is not int:
            return self.set_si(d, v, n)
        if n:
            o, off = self.check(d, n, True)
            if o.opaque:
                return self.store_special(d, v, n)
            if type(v) is int:
                o.mem[off:off + n] = [v & 255] * n
            else:
                o.mem[off:off + n] = [bt.mk(v.bits[:8]).parts[0]] * n
        return d

    lib_llvm_memset_p0_i64 = lib_memset

    def lib_memcmp(self, a, k):
        p, q, n = a[:3]
        if type(n) is not int:
            raise Unsupported("memcmp of symbolic length")
        if n == 0:
            return 0
        if bt.TAINT:
            self.check(p, n), self.check(q, n)
            return self.decide((0, 1), ("memcmp", 0))
        e = []
        for i in range(n):
            x = bt.bits_of(self.load(Ptr(p.o, p.off + i), 1, 8), 8)
            y = bt.bits_of(self.load(Ptr(q.o, q.off + i), 1, 8), 8)
            e += [bt.lxor(u, v) ^ 1 for u, v in zip(x, y)]
        r = bt.conj(e)
        if r < 2:
            return 1 - r
        # any nonzero value when different
        return bt.mk((r ^ 1,) + (0,) * 31)

    lib_bcmp = lib_memcmp

    def lib_strlen(self, a, k):
        p = a[0]
        n = 0
        while True:
            v = self.load(Ptr(p.o, p.off + n), 1, 8)
            if type(v) is not int:
                raise Unsupported("strlen of data")
            if v == 0:
                return n
            n += 1

    # ---- LLVM and x86 intrinsics
    def intrinsic(self, name, a, k):
        rt, at = k
        p = name.split(".")
        if p[1] == "stacksave":
            return NULL
        if p[1] == "stackrestore":
            return None
        if p[1] in ("fshl", "fshr"):
            n = tbits(rt)
            w = tbits(rt[2]) if rt[0] == "v" else n
            out = []
            for x, y, s in zip(bt.lanes(a[0], n, w), bt.lanes(a[1], n, w), bt.lanes(a[2], n, w)):
                s = bt.mk(s)
                if type(s) is not int:
                    raise Unsupported("funnel shift by data")
                s %= w
                if p[1] == "fshr":
                    s = (w - s) % w
                    if s == 0:
                        out.extend(y)
                        continue
                out.extend((y + x)[w - s:2 * w - s] if s else x)
            return bt.mk(tuple(out))
        if p[1] == "bswap":
            n = tbits(rt)
            b = bt.bits_of(a[0], n)
            return bt.mk(tuple(x for i in range(n // 8 - 1, -1, -1) for x in b[8 * i:8 * i + 8]))
        if p[1] in ("umin", "umax", "smin", "smax"):
            n = tbits(rt)
            pr = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[p[1]]
            return self.select(self.icmp(pr, a[0], a[1], n, n, False), a[0], a[1], n, n)
        if p[1] == "masked" and p[2] == "load":
            n, w = rt[1], tbits(rt[2])
            mask, out = a[2], []
            if type(mask) is not int:
                raise Unsupported("masked load with symbolic mask")
            for i in range(n):
                if mask >> i & 1:
                    v = self.load(Ptr(a[0].o, a[0].off + i * w // 8), w // 8, w)
                else:
                    v = bt.mk(bt.lanes(a[3], n * w, w)[i])
                out.extend(bt.bits_of(v, w))
            return bt.mk(tuple(out))
        if p[1] == "masked" and p[2] == "store":
            t = at[0]
            n, w = t[1], tbits(t[2])
            mask = a[3]
            if type(mask) is not int:
                raise Unsupported("masked store with symbolic mask")
            for i in range(n):
                if mask >> i & 1:
                    self.store(Ptr(a[1].o, a[1].off + i * w // 8), bt.mk(bt.lanes(a[0], n * w, w)[i]), w // 8)
            return None
        if p[1] == "x86":
            return self.x86(name, p, a, rt, at)
        if p[1] in ("trap",):
            raise Violation("undefined", "trap reached")
        if p[1] in ("prefetch",):
            return None
        raise Unsupported(f"intrinsic {name}")

    def x86(self, name, p, a, rt, at):
        q = ".".join(p[3:])
        if rt[0] == "v":
            n, w = rt[1], tbits(rt[2])
            N = n * w
        if p[3] in ("pslli", "psrli"):
            s = a[1]
            if type(s) is not int:
                raise Unsupported("vector shift by data")
            return (bt.shl if p[3] == "pslli" else bt.lshr)(a[0], s, N, w)
        if p[3] in ("psll", "psrl") and at[1][0] == "v":
            s = bt.mk(bt.bits_of(a[1], tbits(at[1]))[:64])
            if type(s) is not int:
                raise Unsupported("vector shift by data")
            return (bt.shl if p[3] == "psll" else bt.lshr)(a[0], s, N, w)
        if p[3] == "pshuf":
            if type(a[1]) is not int:
                raise Unsupported("pshufb with symbolic control")
            b = bt.lanes(a[0], N, 8)
            out = []
            for i in range(n):
                c = a[1] >> (8 * i) & 255
                out.extend((0,) * 8 if c & 0x80 else b[(i & ~15) + (c & 15)])
            return bt.mk(tuple(out))
        if p[3] == "pternlog":
            imm = a[3]
            A, Bb, Cc = (bt.bits_of(x, N) for x in a[:3])
            return bt.mk(ternlog(A, Bb, Cc, imm))
        if p[3] in ("permvar", "permd", "permps"):
            la = bt.lanes(a[0], N, w)
            out = []
            if type(a[1]) is not int:
                raise Unsupported("permutation by data")
            for i in range(n):
                out.extend(la[(a[1] >> (i * w)) & (n - 1)])
            return bt.mk(tuple(out))
        if p[3] == "vpermi2var":
            la, lb = bt.lanes(a[0], N, w), bt.lanes(a[2], N, w)
            out = []
            if type(a[1]) is not int:
                raise Unsupported("permutation by data")
            for i in range(n):
                x = (a[1] >> (i * w)) & (2 * n - 1)
                out.extend(lb[x - n] if x >= n else la[x])
            return bt.mk(tuple(out))
        if "gather" in q:
            it = at[2]
            iw = tbits(it[2])
            idx, mask, scale = a[2], a[3], a[4]
            if type(idx) is not int or type(mask) is not int:
                raise Unsupported("gather with symbolic indices")
            mw = tbits(at[3][2])
            out = []
            for i in range(n):
                if mask >> (i * mw + mw - 1) & 1:
                    x = sgn(idx >> (i * iw) & ((1 << iw) - 1), iw)
                    v = self.load(Ptr(a[1].o, a[1].off + x * scale), w // 8, w)
                else:
                    v = bt.mk(bt.lanes(a[0], N, w)[i])
                out.extend(bt.bits_of(v, w))
            return bt.mk(tuple(out))
        if "scatter" in q:
            it, vt = at[2], at[3]
            iw, w, n = tbits(it[2]), tbits(vt[2]), vt[1]
            mask, idx, scale = a[1], a[2], a[4]
            if type(idx) is not int or type(mask) is not int:
                raise Unsupported("scatter with symbolic indices")
            mw = tbits(at[1][2]) if at[1][0] == "v" else 1
            lv = bt.lanes(a[3], n * w, w)
            for i in range(n):
                if mask >> (i * mw + mw - 1) & 1:
                    x = sgn(idx >> (i * iw) & ((1 << iw) - 1), iw)
                    self.store(Ptr(a[0].o, a[0].off + x * scale), bt.mk(lv[i]), w // 8)
            return None
        raise Unsupported(f"intrinsic {name}")

    def asm(self, text, cons, args, k):
        t = " ".join(text.split())
        import re
        m = re.fullmatch(r"shld \$2,\$0,\$0", t)
        if m:
            n = tbits(k[0])
            if type(args[0]) is int:
                s = args[1] % n
                return ((args[0] << s) | (args[0] >> (n - s))) & ((1 << n) - 1)
            return bt.rotl(args[0], args[1], n, n)
        if not t:
            return args[0] if args else None   # compiler barrier
        raise Unsupported(f"inline assembly {t!r}")


_tl = {}


def ternlog(A, B, C, imm):
    k = _tl.get(imm)
    if k is None:
        f = [(imm >> i) & 1 for i in range(8)]     # index a<<2|b<<1|c
        anf = f[:]
        for bit in (1, 2, 4):
            for i in range(8):
                if i & bit:
                    anf[i] ^= anf[i ^ bit]
        k = _tl[imm] = [i for i in range(8) if anf[i]]
    lx, la = bt.lxor, bt.land
    out = []
    for a, b, c in zip(A, B, C):
        r = 0
        for m in k:
            if m == 0:
                t = 1
            elif m == 4:
                t = a
            elif m == 2:
                t = b
            elif m == 1:
                t = c
            elif m == 6:
                t = la(a, b)
            elif m == 5:
                t = la(a, c)
            elif m == 3:
                t = la(b, c)
            else:
                t = la(la(a, b), c)
            r = lx(r, t)
        out.append(r)
    return tuple(out)
