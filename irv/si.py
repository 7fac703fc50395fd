"""Loops without bound: lengths, counters and offsets as linear integer terms, loops cut at their heads by invariants.

A `Lin` is a linear form over integer symbols standing for a machine word whose value is that integer (every operation that
could leave the word's range is proved not to, or the path is split). Streams are memory objects of symbolic size.

A loop whose exit test depends on a symbol is cut at its head. The invariant is inferred and then checked:
  * each loop-carried integer or pointer equals v0 + i*d, i >= 0 the iteration number (d observed in a trial iteration), is in range,
    and the conditions the previous iteration went through held (or i = 0);
  * each loop-carried data word or byte equals T(S), T being its value when the loop was entered, S the abstract state at the
    current iteration: one iteration must turn T(S) into T(step(S)), step being the specification's;
  * what does not fit is havocked.
Base case, preservation and exit are then discharged for all iterations."""
import z3

from . import bits as bt
from .bits import BV, Part
from .exec import Machine, Obj, PathEnd, Ptr, PtrPart, FnPtr, Violation, sgn
from .ll import Unsupported


class Lin:
    __slots__ = ("t", "c", "_h")

    def __init__(self, t, c):
        self.t, self.c = t, c
        self._h = None

    def __add__(self, o):
        if type(o) is int:
            return Lin(self.t, self.c + o)
        d = dict(self.t)
        for k, v in o.t:
            d[k] = d.get(k, 0) + v
        return lin(d, self.c + o.c)

    __radd__ = __add__

    def __mul__(self, k):
        if type(k) is not int:
            raise Unsupported("product of two symbols")
        return lin({s: v * k for s, v in self.t}, self.c * k)

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __eq__(self, o):
        return type(o) is Lin and self.t == o.t and self.c == o.c

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.c))
        return self._h

    def __repr__(self):
        return "+".join(f"{v}*{k}" if v != 1 else str(k) for k, v in self.t) + f"+{self.c}"


def lin(d, c):
    t = tuple(sorted((k, v) for k, v in d.items() if v))
    return Lin(t, c) if t else c


_zi = {}


def zint(s):
    if s not in _zi:
        _zi[s] = z3.Int(s)
    return _zi[s]


def Z(v):
    if type(v) is int:
        return z3.IntVal(v)
    e = z3.IntVal(v.c)
    for k, c in v.t:
        e = e + c * zint(k)
    return e


class Stream(Obj):
    """memory of symbolic size; cells are created when addressed"""
    __slots__ = ("cells", "label", "input")

    def __init__(self, name, size, ro):
        super().__init__(name, 0, [], ro, 1)
        self.size = size
        self.opaque = "stream"
        self.cells = {}      # written in the current iteration or since the last cut
        self.input = {}      # what is there before


class LinPart:
    """byte i of an n-byte word holding a Lin"""
    __slots__ = ("v", "i", "n")

    def __init__(self, v, i, n):
        self.v, self.i, self.n = v, i, n

    def __eq__(self, o):
        return type(o) is LinPart and (o.v, o.i, o.n) == (self.v, self.i, self.n)

    def __hash__(self):
        return hash((self.v, self.i, self.n))


class Restart(Exception):
    pass


class Scouted(Restart):
    def apply(self, m):
        m.scouted = True
        return True


class NeedCut(Restart):
    def __init__(self, key):
        super().__init__(f"loop {key} needs an invariant")
        self.key = key

    def apply(self, m):
        m.cuts.add(self.key)
        return len(m.cuts) < 20


class Spec:
    """the loop specification of a scenario: abstract state (list of byte values), step(S, j) -> S' for block j, and the bytes
    [(stream, offset, value)] block j writes; stride of the stream per block"""

    def __init__(self, S, step, stream, stride, writes=None, auto=False, finish=None, base=0, prefix=()):
        self.prefix = prefix # bytes [(stream, offset, value)] written before block 0
        self.base = base     # offset of block 0 in the stream
        self.finish = finish # what the code does with the state after the loop, computed beforehand so that it is named
        self.auto = auto     # loops over the blocks are cut even where their number is known
        self.S, self.step, self.stream, self.stride, self.writes = list(S), step, stream, stride, writes
        self.done = 0        # blocks processed when the state is S (Lin)
        self.memo = {}

    def move(self, S, done):
        self.S, self.done, self.memo = S, done, {}

    def after(self, k):
        """state k blocks later"""
        if k not in self.memo:
            self.memo[k] = self.S if k == 0 else self.step(self.after(k - 1), self.done + (k - 1))
        return self.memo[k]

    def outputs(self, k):
        """what the k-th block from here writes"""
        key = (k, "w")
        if key not in self.memo:
            self.memo[key] = self.writes(self.after(k), self.done + k) if self.writes else []
        return self.memo[key]


class SIMachine(Machine):
    def __init__(self, mods, contracts=None):
        super().__init__(mods, contracts)
        self.facts = []
        self.objs = []
        self.spec = None
        self.cuts = set()
        self.cutinfo = {}
        self.nsym = 0
        self.values = {}
        self.stack = []
        self.base_facts = []
        self.qcache = {}
        self.invariants = []
        self.smt = 0
        self.solver_s = 0.0
        self.collect = None

    # ---- integer reasoning
    def path_start(self):
        self.facts = []
        self.pc = []
        self.objs = []
        self.spec = None
        self.concrete = None
        self.stack = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.qcache = {}
        self.depth = 0
        self.exploring = self.scouting = False
        self.nsym = 0
        self.turns = {}
        bt.reset()          # a path starts from fresh inputs

    def scout(self):
        """first attempt: on picked data, to find the loops to cut"""
        import random
        self.concretize([])
        self.concrete = random.Random(3)
        self.exploring = self.scouting = True

    def fact(self, e):
        self.facts.append(e)
        self.solver.add(e)
        self.qcache = {}

    def holds(self, e):
        """is e implied by the facts"""
        import time
        t = time.time()
        self.smt += 1
        self.solver.push()
        self.solver.add(z3.Not(e))
        r = self.solver.check()
        self.solver.pop()
        self.solver_s += time.time() - t
        if r == z3.unknown:
            raise Unsupported("integer solver: no answer")
        return r == z3.unsat

    def fixed(self, t):
        """the only value of a linear form under the facts, if there is one"""
        k = ("fixed", t)
        if k not in self.qcache:
            r = None
            e = Z(Lin(t, 0))
            if self.solver.check() == z3.sat:
                v = self.solver.model().eval(e, model_completion=True)
                if self.holds(e == v):
                    r = v.as_long()
            self.qcache[k] = r
        return self.qcache[k]

    def feasible(self):
        return self.solver.check() != z3.unsat

    def sym(self, name, lo=None, hi=None):
        self.nsym += 1
        s = Lin(((f"{name}!{self.nsym}", 1),), 0)
        if lo is not None:
            self.fact(Z(s) >= Z(lo))
        if hi is not None:
            self.fact(Z(s) <= Z(hi))
        return s

    def truth(self, e, what=None):
        """decide a condition: proved, refuted, or both ways"""
        k = e.sexpr()
        r = self.qcache.get(k)
        if r is not None:
            return r
        if self.holds(e):
            r = 1
        elif self.holds(z3.Not(e)):
            r = 0
        else:
            self.need_cut()
            r = self.decide((1, 0), ("int", k))
            self.fact(e if r else z3.Not(e))
            if not self.feasible():
                raise PathEnd()
            self.pc.append(e if r else z3.Not(e))
        self.qcache[k] = r
        return r

    unroll = 0      # decisions on lengths that a loop may take before it is cut
    pc = []
    exploring = scouting = scouted = False

    def need_cut(self):
        """the innermost loop around the block being executed is cut, once"""
        for c, b in reversed(self.stack):
            L = loops(c)
            inner = [h for h, body in L.items() if b[0] in body and any(x not in body for x in succs(c)[b[0]])]
            for h in sorted(inner, key=lambda h: len(L[h])):
                key = (c.name, h)
                if key not in self.cuts:
                    if not self.exploring or self.scouting:
                        t = self.turns[key, b[0]] = self.turns.get((key, b[0]), 0) + 1
                        if t <= self.unroll:
                            return
                    raise NeedCut(key)
                return
            if any(b[0] in body and (c.name, h) in self.cuts for h, body in L.items()):
                return

    def word(self, v, n):
        """an integer term as an n-bit word"""
        if type(v) is int:
            return v & ((1 << n) - 1)
        M = 1 << n
        for k in range(4):
            if self.holds(z3.And(Z(v) >= 0, Z(v) < M)):
                return v
            if self.truth(Z(v) < 0):
                v = v + M
            elif self.truth(Z(v) >= M):
                v = v - M
        raise Unsupported("wrap-around")

    def conc(self, v, limit=600):
        """enumerate the values of an integer term"""
        if type(v) is int:
            return v
        key = (tuple(x[0] for x in self.trail), repr(v), tuple(sorted(self.cuts)), len(self.facts))
        opts = self.values.get(key) if not self.exploring else None
        if opts is None:
            o = z3.Optimize()
            o.add(self.facts)
            h = o.minimize(Z(v))
            if o.check() != z3.sat:
                raise PathEnd()
            lo = o.lower(h)
            o = z3.Optimize()
            o.add(self.facts)
            h = o.maximize(Z(v))
            o.check()
            hi = o.upper(h)
            if not z3.is_int_value(lo) or not z3.is_int_value(hi) or hi.as_long() - lo.as_long() > limit:
                raise Unsupported(f"value of {v!r} used where it must be enumerated")
            lo, hi = lo.as_long(), hi.as_long()
            opts = tuple(x for x in range(lo, hi + 1) if x in (lo, hi) or not self.holds(Z(v) != x))
            if not self.exploring:
                self.values[key] = opts
        if len(opts) == 1:
            x = opts[0]
        else:
            self.need_cut()
            x = self.decide(opts, ("value", repr(v)))
        self.fact(Z(v) == x)
        if not self.feasible():
            raise PathEnd()
        return x

    # ---- arithmetic on words
    def si(self, op, a, b, n):
        if type(a) is Ptr or type(b) is Ptr:
            return self.ptr_op(op, a, b, n)
        if type(a) is BV or type(b) is BV:
            raise Unsupported(f"{op} of data and a symbolic integer")
        if op == "add":
            return self.word(a + b, n)
        if op == "sub":
            return self.word(a - b, n)
        if op == "mul" and (type(a) is int or type(b) is int):
            return self.word(a * b, n)
        if type(b) is int:
            if op == "shl":
                return self.word(a * (1 << b), n)
            if op in ("udiv", "urem", "lshr") and b:
                q, r = self.divmod(a, b if op != "lshr" else 1 << b)
                return r if op == "urem" else q
        if op == "and":
            if type(a) is int:
                a, b = b, a
            if type(b) is int:
                if b == 0:
                    return 0
                if b & (b + 1) == 0:
                    return self.divmod(a, b + 1)[1]
                inv = b ^ ((1 << n) - 1)
                if inv & (inv + 1) == 0:
                    return a - self.divmod(a, inv + 1)[1]
        if op == "or" and b == 0:
            return a
        if op in ("or", "xor") and a == 0:
            return b
        raise Unsupported(f"{op} on {a!r}, {b!r}")

    def divmod(self, a, m):
        if m == 1:
            return a, 0
        if type(a) is Lin and all(v % m == 0 for _, v in a.t):
            r = a.c % m
            return lin({k: v // m for k, v in a.t}, (a.c - r) // m), r
        q = self.sym("q", 0)
        self.fact(z3.And(Z(a) >= m * Z(q), Z(a) < m * Z(q) + m))
        return q, a - q * m

    def si_zext(self, a, n, m):
        return a

    def si_sext(self, a, n, m):
        return a if self.truth(Z(a) < 1 << (n - 1)) else self.word(a - (1 << n), m)

    def si_trunc(self, a, n, m):
        if m == 1:
            return self.divmod(a, 2)[1]
        if self.holds(Z(a) < 1 << m):
            return a
        if self.truth(Z(a) < 1 << m):
            return a
        return self.divmod(a, 1 << m)[1]

    def si_signed(self, v, w):
        return v if self.truth(Z(v) < 1 << (w - 1)) else v - (1 << w)

    def si_wrap(self, d, n):
        return self.word(d, n)

    def icmp_si(self, pr, a, b, n):
        if type(a) is BV or type(b) is BV:
            raise Unsupported("comparison of data with a symbolic integer")
        if pr[0] == "s":
            a, b = (x if type(x) is Lin and self.truth(Z(x) < 1 << (n - 1)) else sgn(x, n) if type(x) is int else x - (1 << n) for x in (a, b))
        x, y = Z(a), Z(b)
        k = pr[-2:] if pr not in ("eq", "ne") else pr
        e = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[k]
        return self.truth(e)

    def icmp_si_off(self, pr, a, b):
        return self.icmp_si(pr, a, b, 64)

    def branch_si(self, c, fname, blk):
        if type(c) is Lin:
            return self.truth(Z(c) != 0)
        return super().branch_si(c, fname, blk)

    # ---- memory
    def alloca(self, name, size, cnt):
        p = super().alloca(name, size, cnt)
        self.objs.append(p.o)
        return p

    def glob(self, mid, name, off):
        p = super().glob(mid, name, off)
        if not p.o.ro and p.o not in self.objs:
            self.objs.append(p.o)
        return p

    def bounds(self, p, n, write):
        o, off = p.o, p.off
        if write and o.ro:
            raise Violation("memory", f"write to read-only {o.name}+{off}")
        if not self.exploring and not self.holds(z3.And(Z(off) >= 0, Z(off + n) <= Z(o.size))):
            raise Violation("memory", f"{'write' if write else 'read'} of {n} bytes at {o.name}+{off!r}, object size {o.size!r}")
        return o, off

    def cell(self, o, off, initial=False):
        """byte of a stream at a linear offset"""
        if self.concrete:
            return o.cells.get(off, self.concrete.getrandbits(8))
        for d in ((o.input,) if initial else (o.cells, o.input)):
            v = d.get(off)
            if v is not None:
                return v
        if o.ro:
            for k, v in o.input.items():
                d = k - off if type(k) is Lin else off - k
                if type(d) is Lin and self.fixed(d.t) == -d.c:
                    return v
            v = o.input[off] = bt.var(8, o.name).parts[0]
            return v
        if o.cells and not initial:
            for k in o.cells:
                if type(k - off if type(k) is Lin else off - k) is Lin and not self.holds(Z(k) != Z(off)):
                    raise Unsupported("read of a stream near symbolic writes")
        v = o.input[off] = bt.var(8, o.name).parts[0]
        return v

    def load(self, p, n, nb):
        return self.load_special(p, n, nb) if type(p.o) is Stream else super().load(p, n, nb)

    def store(self, p, v, n):
        return self.store_special(p, v, n) if type(p.o) is Stream else super().store(p, v, n)

    def load_special(self, p, n, nb):
        o = p.o
        if type(o) is Stream:
            self.bounds(p, n, False)
            out = []
            for i in range(n):
                x = self.cell(o, p.off + i)
                out.extend(x.bits() if type(x) is Part else bt.bits_of(x, 8))
            return bt.mk(tuple(out[:nb]))
        if type(p.off) is Lin:
            q = Ptr(o, self.conc(p.off))
            return self.load(q, n, nb)
        if not o.opaque:
            b = o.mem[p.off:p.off + n]
            f = b[0]
            if type(f) is LinPart:
                if f.i == 0 and f.n == n and all(type(x) is LinPart and x.v == f.v and x.i == i for i, x in enumerate(b)):
                    return f.v if nb == 8 * n else self.si_trunc(f.v, 8 * n, nb)
                raise Unsupported("load of part of a symbolic integer")
        return super().load_special(p, n, nb)

    def store_special(self, p, v, n):
        o = p.o
        if type(o) is Stream:
            self.bounds(p, n, True)
            if type(v) is Lin:
                raise Unsupported("symbolic integer written to a stream")
            bs = bt.bits_of(v, 8 * n)
            for i in range(n):
                x = bt.mk(bs[8 * i:8 * i + 8])
                o.cells[p.off + i if type(p.off) is int else p.off + i] = x if type(x) is int else x.parts[0]
            return
        if type(p.off) is Lin:
            return self.store(Ptr(o, self.conc(p.off)), v, n)
        if type(v) is Lin and not o.opaque:
            o, off = self.check(p, n, True)
            o.mem[off:off + n] = [LinPart(v, i, n) for i in range(n)]
            return
        super().store_special(p, v, n)

    def check(self, p, n, write=False):
        if type(p) is Ptr and type(p.o) is Stream:
            return self.bounds(p, n, write)
        if type(p) is Ptr and type(p.off) is Lin:
            p = Ptr(p.o, self.conc(p.off))
        return super().check(p, n, write)

    def _copy(self, d, s, n):
        n = self.conc(n)
        if n == 0:
            return
        if type(d.o) is Stream or type(s.o) is Stream or type(d.off) is Lin or type(s.off) is Lin:
            vals = [self.load(Ptr(s.o, s.off + i), 1, 8) for i in range(n)]
            for i, v in enumerate(vals):
                self.store(Ptr(d.o, d.off + i), v, 1)
            return
        super()._copy(d, s, n)

    def set_si(self, d, v, n):
        n = self.conc(n)
        return self.lib_memset([d, v, n], None)

    def blocks(self, st, W, d, n, m):
        """contract of a function that processes the whole blocks of m bytes among the n bytes at d as the loop of the scenario does"""
        q, r = self.divmod(n, m)
        if self.truth(Z(q) == 0):
            return 0
        if d.o is not None and not self.holds(z3.And(Z(d.off) >= 0, Z(d.off + q * m) <= Z(d.o.size))):
            raise Violation("precondition", f"data of {q!r} blocks at {d.o.name}+{d.off!r}, object size {d.o.size!r}")
        if self.exploring and not self.scouting:
            raise Unsupported("nested unbounded loops")
        o, off = self.check(st, W, True)
        if self.scouting:
            return q * m
        sp = self.spec
        self.nobl += 1
        if sp is None or m != sp.stride or d.o is not sp.stream or not self.holds(Z(d.off) == Z(sp.base + sp.done * m)):
            raise Unsupported("blocks other than those of the specification")
        now = [x if type(x) is int else bt.mk(x.bits()) for x in o.mem[off:off + W]]
        if any(a is not b and a != b for a, b in zip(now, sp.S[:W])):
            raise Unsupported("state other than that of the specification")
        S = [bt.var(8, "S") for _ in sp.S]
        sp.move(S, sp.done + q)
        o.mem[off:off + W] = [x.parts[0] for x in S[:W]]
        return q * m

    # ---- execution with loop cuts
    def run(self, m, name, args):
        from .exec import compile_fn
        key = (id(m), name)
        c = self.code.get(key)
        if c is None:
            c = self.code[key] = compile_fn(m.fn(name))
        R = [None] * c.nregs
        R[:len(args)] = args
        self.depth += 1
        if self.depth > 200:
            raise Unsupported("recursion")
        cur = [0]
        self.stack.append((c, cur))
        b, n, active = 0, 0, {}
        heads = {h for f, h in self.cuts if f == c.name} if self.spec is not None or not self.unroll else ()
        L = loops(c) if heads else {}
        watch = {}
        while b >= 0:
            cur[0] = b
            if self.scouting and self.spec is not None and self.spec.auto and b in loops(c):
                self.watch(c, b, R, watch)
            if b in heads:
                if b in active:
                    self.back_edge(active[b], R)
                else:
                    info = self.enter(c, b, R)
                    if info is not None:
                        active[b] = info
            b = c.blocks[b](R, self)
            for h in list(active):
                if b not in L[h]:
                    active[h].left = True
                    del active[h]
            n += 1
            if n > 200000:
                raise Unsupported(f"{name}: more than {n} basic blocks executed")
        self.stack.pop()
        self.depth -= 1
        return self.rv

    def watch(self, c, b, R, w):
        """a loop that goes over the blocks of the data"""
        sp = self.spec
        at = {p[1]: R[p[1]].off for p in c.phis[b] if type(R[p[1]]) is Ptr and R[p[1]].o is sp.stream}
        old, n = w.get(b, ({}, 0))
        ok = any(r in old and type(at[r] - old[r]) is int and at[r] > old[r] and (at[r] - old[r]) % sp.stride == 0 for r in at)
        w[b] = (at, n + 1 if ok else 0)
        if w[b][1] >= 2:
            raise NeedCut((c.name, b))

    def snap(self):
        return [(o, list(o.mem), (dict(o.cells), ) if type(o) is Stream else None) for o in self.objs]

    def restore(self, s):
        n = len(s)
        del self.objs[n:]
        for o, mem, cells in s:
            o.mem[:] = mem
            if cells:
                o.cells = dict(cells[0])

    def concretize(self, R, seed=7):
        """pick values for all data (only the integers matter)"""
        import random
        f = bt.evaluator(random.Random(seed))
        conc = lambda bits: sum(f(l) << j for j, l in enumerate(bits))
        if bt.UFS and not bt.TAINT:
            rng, memo = random.Random(seed), {}
            pick = lambda l: l if l < 2 else (memo[l & -2] if l & -2 in memo else memo.setdefault(l & -2, rng.getrandbits(1))) ^ (l & 1)
            conc = lambda bits: sum(pick(l) << j for j, l in enumerate(bits))
        if bt.TAINT:
            rng = random.Random(seed)
            conc = lambda bits: sum((l if l < 2 else rng.getrandbits(1)) << j for j, l in enumerate(bits))
        for o in self.objs:
            m = o.mem
            for k, x in enumerate(m):
                if type(x) is Part:
                    m[k] = conc(x.bits())
        for k, x in enumerate(R):
            if type(x) is BV:
                R[k] = conc(x.bits)

    def explore(self, c, h, R0, first=False, data=False, seed=7):
        """paths from the loop head to itself on picked data: [(registers, memory, path conditions)], and the values at the start"""
        import random
        keep = (self.oracle, self.trail, getattr(self, "pending_alts", None), self.assumed, self.facts, self.solver, self.qcache, self.pc, list(self.stack), self.depth, self.rv)
        s0 = self.snap()
        L = loops(c)[h]
        out = []
        R0 = list(R0)
        if not data:
            self.concretize(R0, seed)
            self.concrete = random.Random(seed + 1)
        s1 = self.snap()
        self.exploring = True
        self.oracle = []
        while True:
            self.trail = []
            self.assumed = dict(keep[3])
            self.facts = list(keep[4])
            self.solver = z3.Solver()
            self.solver.set("timeout", 20000)
            self.solver.add(self.facts)
            self.qcache = {}
            self.pc = []
            self.restore(s1)
            R = list(R0)
            self.stack = list(keep[8])
            cur = self.stack[-1][1]
            try:
                b = h
                n = 0
                while True:
                    cur[0] = b
                    if n and (c.name, b) in self.cuts and b != h:
                        raise Unsupported("nested unbounded loops")
                    b = c.blocks[b](R, self)
                    n += 1
                    if b == h:
                        out.append((list(R), self.snap(), list(self.pc)))
                        break
                    if b not in L:
                        break
                    if n > 100000:
                        raise Unsupported("loop body too long")
            except (PathEnd, Violation):
                pass        # the result is a candidate only: what is left out here fails at the end of an iteration
            if first and out:
                break
            t = self.trail
            while t and not t[-1][1]:
                t.pop()
            if not t:
                break
            self.oracle = [x[0] for x in t[:-1]] + [t[-1][1][0]]
            self.pending_alts = t[-1][1][1:]
            if len(out) > 200:
                raise Unsupported("too many paths through a loop")
        self.concrete = None
        self.exploring = False
        self.restore(s0)
        (self.oracle, self.trail, self.pending_alts, self.assumed, self.facts, self.solver, self.qcache, self.pc, st, self.depth, self.rv) = keep
        self.stack = st
        return out, R0, s1

    def steady(self, sp, m):
        import random
        still = range(len(sp.S))
        for seed in (1, 2, 3):
            self.concrete = r = random.Random(seed)
            S = S0 = [r.getrandbits(8) for _ in sp.S]
            for k in range(m):
                S = sp.step(S, sp.done + k)
            still = [k for k in still if S[k] == S0[k]]
        self.concrete = None
        return still

    def diff(self, x, y):
        """stride between two values of a loop-carried integer or pointer, or None"""
        if type(x) is Ptr and type(y) is Ptr and x.o is y.o:
            d = (y.off - x.off)
        elif type(x) in (int, Lin) and type(y) in (int, Lin):
            d = y - x
        else:
            return None
        if type(d) is Lin:
            # equal to a constant under the facts?
            return None
        return d

    def enter(self, c, h, R):
        """first arrival at a cut loop head: find the invariant, move to an arbitrary iteration"""
        phis = [p[1] for p in c.phis[h]]
        v0 = {r: R[r] for r in phis}
        key = (c.name, h)
        arr, Rc, memc = self.explore(c, h, R, first=True)
        if not arr:
            return None
        R1, mem1, _ = arr[0]
        sp = self.spec
        i = self.sym("i", 0)
        ints, data, havoc = {}, {}, []
        info = Cut()
        info.name = f"{c.name}, block {h}"
        info.left = False
        delta = None
        dropped = self.cutinfo.setdefault((key, len(self.trail)), set())
        consts = []
        for p in c.phis[h]:
            r = p[1]
            a, b = v0[r], R1[r]
            if r in dropped:
                havoc.append(r)
                continue
            if type(a) is BV:
                data[r] = a
                continue
            d = self.diff(a, b)
            if type(a) is int and (p[2][0] == "v" and a != b or d is None or not -(1 << 40) < d - (1 << 64 if d > 1 << 62 else 0) < 1 << 40):
                consts.append(r)
                continue
            if d is None:
                if type(a) is type(b) and a == b or type(a) is FnPtr and a.name == b.name:
                    d = 0
                else:
                    raise Unsupported(f"loop-carried value {a!r} then {b!r} in {c.name}")
            # a word that wraps around: stride modulo 2^64 taken as a signed number
            if type(a) is not Ptr and d > 1 << 62:
                d -= 1 << 64
            ints[r] = (a, d)
            if type(a) is Ptr and sp is not None and a.o is sp.stream and d:
                delta = d if delta is None else min(delta, d)
        if delta is None and sp is not None:
            raise Unsupported(f"loop in {c.name} does not advance over the data")
        m = None
        if sp is not None:
            m, rem = divmod(delta, sp.stride)
            if rem or m < 1:
                raise Unsupported(f"loop in {c.name} advances by {delta}, blocks are {sp.stride} bytes")
        # bytes that change, on several choices of the data
        changed = {}
        for seed in (None, 8, 9):
            if seed:
                a, _, memc = self.explore(c, h, R, first=True, seed=seed)
                mem1 = a[0][1] if a else mem1
            old = {id(o): mem for o, mem, _ in memc}
            for o, mem, _ in mem1:
                if type(o) is not Stream and id(o) in old:
                    changed.setdefault(id(o), (o, set()))[1].update(k for k, (x, y) in enumerate(zip(mem, old[id(o)])) if x is not y and x != y)
        now = {id(o): list(o.mem) for o in self.objs}
        memdata, memhavoc, memconst = [], [], []
        for o, ks in changed.values():
            for k in sorted(ks):
                x = now[id(o)][k]
                if (o.name, k) in dropped or x is None:
                    memhavoc.append((o, k))
                elif type(x) is int:
                    memconst.append((o, k))
                else:
                    memdata.append((o, k, x))
        # T: the value at entry as a function of the abstract state at entry; where that is a constant, the bits of the state
        # that start and go on alike
        if sp is not None:
            S0, base = sp.S, sp.done
            # parts of the state that the step leaves alone keep their value (checked at the end of the iteration)
            info.still = self.steady(sp, m)
            S = [bt.var(8, "S") for _ in S0]
            for k in info.still:
                S[k] = S0[k]
            T = Subst(S0, S)
            lift = lambda v, n: bt.mk(tuple(T(l) for l in bt.bits_of(v, n)))
            data = {r: (v, lift(v, v.n)) for r, v in data.items()}
            memdata = [(o, k, lift(bt.mk(x.bits()), 8)) for o, k, x in memdata]
            if consts or memconst:
                Sm = sp.after(m)
                arr = self.explore(c, h, R, first=True, data=True)[0]
                if not arr:
                    return None
                R2, mem2 = arr[0][0], {id(o): x for o, x, _ in arr[0][1]}
                like = {}
                for x, y, z in zip(S0, Sm, S):
                    for l0, l1, t in zip(bt.bits_of(x, 8), bt.bits_of(y, 8), bt.bits_of(z, 8)):
                        like.setdefault((l0, l1), t)
                        like.setdefault((l0 ^ 1, l1 ^ 1), t ^ 1)

                def match(v, w, n):
                    out = []
                    for l0, l1 in zip(bt.bits_of(v, n), bt.bits_of(w, n)):
                        t = l0 if l0 == l1 else like.get((l0, l1))
                        if t is None:
                            return None
                        out.append(t)
                    return bt.mk(tuple(out))
                for r in consts:
                    n = bt_width(R2[r])
                    t = match(v0[r], R2[r], n) if type(R2[r]) in (int, BV) else None
                    if t is None:
                        havoc.append(r)
                    else:
                        data[r] = (v0[r], t)
                for o, k in memconst:
                    x = mem2[id(o)][k]
                    x = bt.mk(x.bits()) if type(x) is Part else x
                    t = match(now[id(o)][k], x, 8) if type(x) in (int, BV) else None
                    if t is None:
                        memhavoc.append((o, k))
                    else:
                        memdata.append((o, k, t))
        else:
            havoc += list(data) + consts
            memhavoc += [(o, k) for o, k, _ in memdata] + memconst
            data, memdata = {}, []
        info.__dict__.update(c=c, h=h, i=i, ints=ints, data=data, havoc=havoc, memdata=memdata, memhavoc=memhavoc, m=m, key=key,
                             dropkey=(key, len(self.trail)), sp=sp)
        # move to iteration i
        for r, (a, d) in ints.items():
            if d:
                R[r] = Ptr(a.o, a.off + i * d) if type(a) is Ptr else a + i * d
                if type(a) is not Ptr:
                    e = z3.And(Z(R[r]) >= 0, Z(R[r]) < 1 << 64)
                    if not self.holds(z3.And(Z(a) >= 0, Z(a) < 1 << 64)):
                        raise Unsupported("loop counter out of range at entry")
                    info.ranges.append((a, d))
        pre = list(self.facts)
        for a, d in info.ranges:
            x = a + i * d
            self.fact(z3.And(Z(x) >= 0, Z(x) < 1 << 64))
        for r in havoc:
            R[r] = bt.var(width(c, h, r, v0[r]), "havoc")
        for o, k in memhavoc:
            o.mem[k] = bt.var(8, "havoc").parts[0]
        if sp is not None:
            sp.move(S, base + i * m)
            info.spec = sp
            for r, (v, t) in data.items():
                n = bt_width(v, t)
                skip = [j for j in range(n // 8) if (r, j) in dropped]
                if skip:
                    bs = list(bt.bits_of(t, n))
                    for j in skip:
                        bs[8 * j:8 * j + 8] = bt.var(8, "havoc").bits
                    t = bt.mk(tuple(bs))
                R[r] = t
            for o, k, t in memdata:
                o.mem[k] = t if type(t) is int else t.parts[0]
            for o in self.objs:
                if type(o) is Stream and not o.ro:
                    self.check_prefix(o, sp, f"{c.name}, block {h}")
                    o.cells = {}
            sp.prefix = {}
        info.heap = {id(o): list(o.mem) for o in self.objs if type(o) is not Stream}
        # what the previous iteration went through
        info.known = self.outer_syms(info)
        arr = self.explore(c, h, R)[0]
        G = [z3.And(pc) if pc else z3.BoolVal(True) for _, _, pc in arr]
        info.G = z3.Or(G) if G else z3.BoolVal(True)
        info.iz = zint(i.t[0][0])
        self.fact(z3.Or(Z(i) == 0, self.shift(info, -1)))
        if sp is not None:
            for t in range(1, m + 1):
                sp.outputs(t - 1)
                sp.after(t)       # named before the code runs, so that the code's terms meet the specification's
            if sp.finish:
                sp.finish(sp.S, sp.done)
        self.ninv = getattr(self, "ninv", 0) + 1
        desc = [f"{v!r}+{d}*i" if type(v) is not Ptr else f"&{v.o.name}[{v.off!r}+{d}*i]" for v, d in ints.values() if d]
        info.desc = f"{info.name}: " + ", ".join(desc) + f"; {len(data)} words and {len(memdata)} bytes = T(S_i); {len(havoc) + len(memhavoc)} havocked; previous iteration: {z3.simplify(info.G).sexpr()[:200]}"
        return info

    def check_prefix(self, o, sp, what):
        """what is written before the loop over the blocks is what the scenario says"""
        if bt.TAINT:
            return
        w = {off: v for x, off, v in sp.prefix if x is o} if sp.prefix else {}
        self.nobl += 1
        if set(w) != set(o.cells):
            raise Unsupported(f"{what}: bytes other than those expected are written before the loop")
        for k, v in w.items():
            x = o.cells[k]
            x = x if type(x) is int else bt.mk(x.bits())
            if x is not v and x != v and not self.prove_eq(bt.bits_of(x, 8), bt.bits_of(v, 8)):
                raise Violation("output", f"{what}: {o.name}+{k!r} differs")

    def shift(self, info, k):
        """G at iteration i+k; symbols introduced inside the iteration are existential there"""
        g = info.G
        known = {str(info.iz)} | info.known
        loc = {}

        def walk(e):
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if e.decl().name() not in known:
                    loc[e.decl().name()] = e
            for ch in e.children():
                walk(ch)
        walk(g)
        if loc:
            return z3.BoolVal(True)
        return z3.substitute(g, (info.iz, info.iz + k))

    def outer_syms(self, info):
        s = set()

        def walk(e):
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                s.add(e.decl().name())
            for ch in e.children():
                walk(ch)
        for f in self.facts:
            walk(f)
        return s

    def back_edge(self, info, R):
        """end of an iteration: the invariant must hold again"""
        i = info.i
        for r, (a, d) in info.ints.items():
            want = (Ptr(a.o, a.off + (i + 1) * d) if type(a) is Ptr else a + (i + 1) * d) if d else a
            got = R[r]
            self.nobl += 1
            if got == want:
                continue
            if type(want) is Ptr:
                if type(got) is not Ptr or got.o is not want.o or not self.holds(Z(got.off) == Z(want.off)):
                    raise Unsupported(f"{info.name}: pointer {got!r}, {want!r} expected by the invariant")
            elif type(got) not in (int, Lin) or not self.holds(Z(got) == Z(want)):
                raise Unsupported(f"{info.name}: counter {got!r}, {want!r} expected by the invariant")
        for a, d in info.ranges:
            x = a + (i + 1) * d
            self.nobl += 1
            if not self.holds(z3.And(Z(x) >= 0, Z(x) < 1 << 64)):
                raise Unsupported(f"{info.name}: a counter may leave its range")
        self.nobl += 1
        if not self.holds(self.shift(info, 0)):
            raise Unsupported(f"{info.name}: path condition of the previous iteration not inductive")
        sp = info.spec
        drop = self.cutinfo[info.dropkey]
        bad = []
        if sp is not None:
            S1 = sp.after(info.m)
            self.nobl += 1
            for k in info.still:
                if S1[k] is not sp.S[k] and S1[k] != sp.S[k]:
                    raise Unsupported(f"{info.name}: byte {k} of the abstract state changes in a later block only")
            sub = Subst(sp.S, S1)
            for r, (_, v) in info.data.items():
                self.nobl += 1
                n = bt_width(v, R[r])
                g, w = bt.bits_of(R[r], n), bt.bits_of(v, n)
                w2 = tuple(sub(l) for l in w)
                if g == w2:
                    continue
                if n % 8:
                    if not self.prove_eq(g, w2):
                        bad.append((r, "register"))
                    continue
                for j in range(n // 8):
                    x, y = g[8 * j:8 * j + 8], w2[8 * j:8 * j + 8]
                    if x != y and (r, j) not in drop and not self.prove_eq(x, y):
                        bad.append(((r, j), f"register {r} byte {j}"))
            for o, k, v in info.memdata:
                self.nobl += 1
                x = o.mem[k]
                if type(x) not in (int, Part):
                    bad.append(((o.name, k), f"{o.name}+{k}"))
                    continue
                g = bt.bits_of(x, 8) if type(x) is int else x.bits()
                w2 = tuple(sub(l) for l in bt.bits_of(v, 8))
                if tuple(g) != w2 and not self.prove_eq(g, w2):
                    bad.append(((o.name, k), f"{o.name}+{k}"))
            self.check_writes(info, sp)
        # nothing else in memory may have changed
        chg = {(id(o), k) for o, k, *_ in info.memdata} | {(id(o), k) for o, k in info.memhavoc}
        for o in self.objs:
            old = info.heap.get(id(o))
            if old is None or type(o) is Stream:
                continue
            for k, (x, y) in enumerate(zip(o.mem, old)):
                if x is not y and x != y and (id(o), k) not in chg:
                    raise Unsupported(f"{info.name}: {o.name}+{k} changes in a later iteration only")
        if bad:
            key = lambda b: b[0]
            drop.update(key(b) for b in bad)
            self.badinfo = [b[1] for b in bad][:8]
            raise Retry(f"{info.name}: not as specified after one iteration: {self.badinfo}", len(drop))
        if info.desc not in self.invariants:
            self.invariants.append(info.desc)
        raise PathEnd()

    def prove_eq(self, g, w):
        import random
        from . import sat
        if bt.TAINT:
            return all(a == b or b > 1 for a, b in zip(g, w))
        pairs = [(a, b) for a, b in zip(g, w) if a != b]
        for t in range(3):
            f = bt.evaluator(random.Random(t))
            if not any(f(e) != v for e, v in self.assumed.items()) and any(f(a) != f(b) for a, b in pairs):
                return False
        return sat.solve(pairs, self.assumed)[0] == "equal"

    def check_writes(self, info, sp):
        outs = [o for o in self.objs if type(o) is Stream and not o.ro]
        want = {}
        if sp.writes is not None:
            for t in range(info.m):
                for o, off, v in sp.outputs(t):
                    want.setdefault(id(o), {})[off] = v
        for o in outs:
            w = want.get(id(o), {})
            self.nobl += 1
            for k in o.cells:
                if k not in w:
                    raise Violation("frame", f"{info.name}: write at {o.name}+{k!r}, not expected from this block")
            for k, v in w.items() if not bt.TAINT else ():
                x = o.cells.get(k)
                if x is None:
                    raise Violation("output", f"{info.name}: {o.name}+{k!r} not written")
                x = x if type(x) is int else bt.mk(x.bits())
                if x is not v and x != v and not self.prove_eq(bt.bits_of(x, 8), bt.bits_of(v, 8)):
                    raise Violation("output", f"{info.name}: {o.name}+{k!r} differs")


class Retry(Restart):
    def __init__(self, msg, n):
        super().__init__(msg)
        self.n = n

    def apply(self, m):
        m.tries = getattr(m, "tries", 0) + 1
        return m.tries < 8


class Cut:
    def __init__(self):
        self.ranges = []
        self.spec = None


def width(c, h, r, v):
    from .exec import tbits
    return v.n if type(v) is BV else tbits(next(p[2] for p in c.phis[h] if p[1] == r))


def bt_width(*vs):
    for v in vs:
        if type(v) is BV:
            return v.n
    return 64


class Subst:
    """replace the atoms of the abstract state"""

    def __init__(self, S, S1):
        self.m = {}
        for x, y in zip(S, S1):
            for l, t in zip(bt.bits_of(x, 8), bt.bits_of(y, 8)):
                e = l & -2
                if e and not (e in bt.SETS or e in bt.ANDN or e in bt.CONJ or e in bt.DEFS):
                    self.m.setdefault(e, t ^ (l & 1))

    def __call__(self, l):
        if bt.TAINT:
            return l
        e = l & -2
        r = self.m.get(e)
        if r is None:
            if e < 2:
                r = 0
            elif e in bt.SETS:
                r = 0
                for x in bt.SETS[e]:
                    r = bt.lxor(r, self(x))
            elif e in bt.ANDN:
                a, b = bt.ANDN[e]
                r = bt.land(self(a), self(b))
            elif e in bt.DEFS:
                r = self(bt.DEFS[e])
            elif e in bt.CONJ:
                r = bt.conj([self(x) for x in bt.CONJ[e]])
            elif e in bt.UFOUT:
                raise Unsupported("uninterpreted term in the invariant")
            else:
                r = e
            self.m[e] = r
        return r ^ (l & 1)


_loops = {}


def succs(c):
    loops(c)
    return _loops[id(c)][2]


def loops(c):
    """natural loops: head -> set of blocks"""
    k = id(c)
    if k in _loops and _loops[k][0] is c:
        return _loops[k][1]
    fn = c.fn
    succ = []
    for ins in fn.blocks:
        t = ins[-1]
        if t[0] == "br":
            succ.append([t[4]] if t[3] is None else [t[4], t[5]])
        elif t[0] == "switch":
            succ.append([x for _, x in t[4]] + [t[5]])
        else:
            succ.append([])
    n = len(succ)
    pred = [[] for _ in range(n)]
    for b, s in enumerate(succ):
        for x in s:
            pred[x].append(b)
    dom = [set(range(n)) for _ in range(n)]
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in range(1, n):
            if pred[b]:
                d = set.intersection(*(dom[p] for p in pred[b])) | {b}
            else:
                d = {b}
            if d != dom[b]:
                dom[b], ch = d, True
    L = {}
    for b in range(n):
        for s in succ[b]:
            if s in dom[b]:
                body = L.setdefault(s, {s})
                todo = [b]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo.extend(pred[x])
    _loops[k] = (c, L, succ)
    return L
