"""Scenarios are written once and run either on the symbolic machine (the obligation) or on the compiled library (the
replay). A scenario is a function of a Ctx; it makes inputs, buffers and calls, and states requirements."""
import ctypes
import mmap
import random

from . import bits as bt
from .bits import BV, Part
from .exec import Machine, Obj, Ptr, Violation, FnPtr, NULL
from .ll import Unsupported, Module


class Failed(Exception):
    """a requirement that does not hold"""

    def __init__(self, ob, kind, msg, model=None, seq=None):
        super().__init__(f"{ob}: {kind}: {msg}")
        self.ob, self.kind, self.msg, self.model, self.seq = ob, kind, msg, model, seq


class Base:
    native = False
    memonly = False

    def __init__(self):
        self.nobl = 0
        self.where = ""
        self.inputs = {}
        self.seq = {}

    def at(self, what):
        self.where = what

    def only_memory(self):
        """the values computed are not looked at: only what is touched, and what that depends on"""
        self.memonly = True
        self.req = self.reqi = self.same = self.reql = lambda *a, **k: None
        if not self.native:
            self.truth = lambda *a, **k: 1

    def fresh(self):
        """the next case shares nothing with the previous ones: their terms may be forgotten"""
        if self.native:
            self.bufs.clear()
        elif not self.m.trail and not self.m.assumed:
            bt.reset()
            self.inputs = {}

    def _iname(self, name):
        k = self.seq.get(name, 0)
        self.seq[name] = k + 1
        return f"{name}#{k}"


class SymCtx(Base):
    def __init__(self, mods, contracts=None, machine=Machine):
        super().__init__()
        self.m = machine(mods, contracts)
        self.free_inputs = True

    # inputs
    def inp(self, name, n):
        """n fresh symbolic bytes"""
        nm = self._iname(name)
        v = [bt.var(8) for _ in range(n)]
        self.inputs[nm] = v
        return v

    def buf(self, name, size, init=None, align=1, ro=False):
        o = Obj(name, size, None, ro, align)
        if init is not None:
            self.put(Ptr(o, 0), init)
        if hasattr(self.m, "objs"):
            self.m.objs.append(o)
        return Ptr(o, 0)

    def zeros(self, name, size):
        from .exec import Zeros
        return Ptr(Obj(name, size, Zeros(size), True, 1), 0)

    # lengths and streams without bound (irv/si.py)
    def length(self, name, lo=0, hi=1 << 48):
        return self.m.sym(name, lo, hi)

    def stream(self, name, size, ro=False):
        from .si import Stream
        o = Stream(name, size, ro)
        self.m.objs.append(o)
        return Ptr(o, 0)

    def sbytes(self, p, off, n):
        """n bytes of a stream as they were at the start"""
        return [x if type(x) is int else bt.mk(x.bits()) for x in (self.m.cell(p.o, p.off + off + i) for i in range(n))]

    def sbytes0(self, p, off, n):
        """the same, whatever has been written since"""
        return [x if type(x) is int else bt.mk(x.bits()) for x in (self.m.cell(p.o, p.off + off + i, True) for i in range(n))]

    def holds(self, a, op, b):
        """decide an integer condition"""
        from .si import Z
        import operator as o
        return self.m.truth({">=": o.ge, "<": o.lt, "==": o.eq}[op](Z(a), Z(b)))

    def final_writes(self, ob, N):
        """what was written since the last cut is what the remaining blocks write"""
        from .si import Z
        sp = self.m.spec
        want = {}
        for k in range(0, 9):
            if self.m.holds(Z(N) - Z(sp.done) == k):
                for t in range(k if sp.writes else 0):
                    for o, off, v in sp.outputs(t):
                        want.setdefault(id(o), {})[off] = v
                break
        for o in self.m.objs:
            if hasattr(o, "cells") and not o.ro:
                w = want.get(id(o), {})
                if set(w) != set(o.cells):
                    raise Failed(ob, "unknown", f"{self.where}: bytes written are not those of the blocks")
                ks = list(w)
                x = [o.cells[k] for k in ks]
                self.req(f"{ob}: output", [y if type(y) is int else bt.mk(y.bits()) for y in x], [w[k] for k in ks])

    def final_cells(self, ob, o, ref, tail):
        """bytes of the stream o written since the last cut: those of the blocks, then the tail [byte values] from ref on"""
        from .si import Z, Lin
        sp, m = self.m.spec, self.m
        self.nobl += 1
        want = {off: v for x, off, v in sp.prefix if x is o}
        for k in range(0, 9):
            if m.holds(Z(ref) - Z(sp.base + sp.done * sp.stride) == k * sp.stride):
                for t in range(k):
                    want.update({off: v for x, off, v in sp.outputs(t) if x is o})
                break
        want.update({ref + i: v for i, v in enumerate(tail)})
        if self.memonly:
            return

        def rel(k):
            d = k - ref if type(k) is Lin else -(ref - k)
            if type(d) is Lin:
                f = m.fixed(d.t)
                if f is None:
                    raise Failed(ob, "unknown", f"{self.where}: {o.name}+{k!r} written")
                d = f + d.c
            return d
        want = {rel(k): v for k, v in want.items()}
        got = {rel(k): v for k, v in o.cells.items()}
        if set(want) != set(got):
            raise Failed(ob, "refuted", f"{self.where}: bytes written are not those of the output")
        ks = list(want)
        self.req(ob, [got[k] if type(got[k]) is int else bt.mk(got[k].bits()) for k in ks], [want[k] for k in ks])

    def loop(self, *a, **k):
        from .si import Spec
        sp = self.m.spec = Spec(*a, **k)
        if not self.m.cuts:
            if not self.m.scouted:
                self.m.scout()
            else:
                sp.outputs(0)
                sp.after(1)
        return sp

    def quot(self, a, m):
        return self.m.divmod(a, m)[0]

    def reql(self, ob, got, want):
        """obligation on an integer term"""
        from .si import Z, Lin
        self.nobl += 1
        if type(got) not in (int, Lin) or not self.m.holds(Z(got) == Z(want)):
            raise Failed(ob, "unknown", f"{self.where}: {got!r} instead of {want!r}")

    def final(self, ob, N):
        """the abstract state after N blocks: N blocks are what the code has processed"""
        from .si import Z
        sp = self.m.spec
        for k in range(0, 9):
            if self.m.holds(Z(N) - Z(sp.done) == k):
                self.nobl += 1
                return sp.after(k)
        if self.memonly:
            return sp.S
        raise Failed(ob, "unknown", f"{self.where}: not the specified number of blocks")

    def put(self, p, vals):
        o, off = p.o, p.off
        for i, v in enumerate(vals):
            o.mem[off + i] = v if type(v) is int else v.parts[0] if type(v) is BV else v

    def get(self, p, n):
        o, off = p.o, p.off
        out = []
        for x in o.mem[off:off + n]:
            if type(x) is int:
                out.append(x)
            elif type(x) is Part:
                out.append(bt.mk(x.bits()))
            elif x is None:
                out.append(bt.var(8, "uninit"))
            else:
                raise Unsupported(f"not data: {x!r}")
        if len(out) != n:
            raise IndexError("get out of range")
        return out

    def snapshot(self, p):
        return list(p.o.mem)

    def same(self, ob, p, before):
        """obligation: the whole object is as in the snapshot (bytes never written stay so)"""
        self.nobl += 1
        a, b = p.o.mem, before
        bad = [i for i in range(len(b)) if not (a[i] is b[i] or a[i] == b[i])]
        if not bad:
            return
        if any(a[i] is None or b[i] is None or not isinstance(a[i], (int, Part)) or not isinstance(b[i], (int, Part)) for i in bad):
            raise Failed(ob, "refuted", f"{self.where}: byte {bad[0]} was written", self.model())
        q = [lambda x: x if type(x) is int else bt.mk(x.bits())][0]
        self.nobl -= 1
        self.req(ob, [q(a[i]) for i in bad], [q(b[i]) for i in bad])

    def split(self, fn):
        """every path of fn, which starts from fresh objects and returns nothing"""
        m = self.m
        keep = m.oracle, m.trail, m.assumed, getattr(m, "pending_alts", None), dict(self.seq)

        def once():
            self.seq, self.inputs = dict(keep[4]), {}
            fn()
        for _ in m.paths(once):
            pass
        m.oracle, m.trail, m.assumed, m.pending_alts = keep[:4]

    def truth(self, lits, ob):
        """truth of the conjunction of the literals under the decisions of this path; the path must determine it"""
        l = bt.conj(lits)
        if l < 2:
            return l
        asm = self.m.assumed
        if l & -2 in asm:
            return asm[l & -2] ^ (l & 1)
        from . import sat
        r = [sat.solve([(l, v)], asm, 20000, True)[0] for v in (0, 1)]
        if "equal" in r:
            return r.index("equal")
        if r == ["differ", "differ"]:
            raise Failed(ob, "refuted", f"{self.where}: the decision does not depend on the whole value", self.model())
        raise Unsupported(f"{ob}: decision not resolved")

    def has(self, fn):
        return fn in self.m.defs

    def call(self, fn, *args):
        if self.memonly:
            self.nobl += 1          # every access of this call within its object and permitted; every decision free of data
        r = self.m.call_fn(fn, *args)
        if getattr(self.m, "scouting", False):
            from .si import Scouted
            raise Scouted()
        return r

    def off(self, p, k):
        return Ptr(p.o, p.off + k)

    def req(self, ob, got, want):
        """obligation: got == want (lists of byte values)"""
        self.nobl += 1
        if got == want:
            return
        bad = [i for i, (g, w) in enumerate(zip(got, want)) if not (g is w or g == w)]
        if not bad and len(got) == len(want):
            return
        if len(got) != len(want):
            raise Failed(ob, "refuted", f"{self.where}: length {len(got)} instead of {len(want)}")
        self.mismatch(ob, got, want, bad)

    def reqi(self, ob, got, want, n=32):
        """obligation on an integer (status code, count)"""
        self.nobl += 1
        if type(got) is int and got == want:
            return
        if type(got) is BV or type(want) is BV:
            n = got.n if type(got) is BV else want.n
            if got is want:
                return
            g, w = bt.bits_of(got, n), bt.bits_of(want, n)
            bad = [i for i in range(n) if g[i] != w[i]]
            return self._mm(ob, [(g[i], w[i]) for i in bad], f"integer {got!r} instead of {want!r}")
        raise Failed(ob, "refuted", f"{self.where}: {got!r} instead of {want!r}", self.model())

    def mismatch(self, ob, got, want, bad):
        pairs = []
        for i in bad:
            g, w = bt.bits_of(got[i], 8), bt.bits_of(want[i], 8)
            pairs += [(a, b) for a, b in zip(g, w) if a != b]
        self._mm(ob, pairs, f"{len(bad)} bytes differ, first at {bad[0]}")

    def assumptions(self):
        return dict(self.m.assumed)

    def _mm(self, ob, pairs, msg):
        """pairs of literals that are not identical: find an assignment that tells one apart, or prove them equal"""
        asm = self.m.assumed
        for t in range(6):
            f = bt.evaluator(random.Random(t))
            if any(f(e) != v for e, v in asm.items()):
                continue
            for a, b in pairs[:64]:
                if f(a) != f(b):
                    raise Failed(ob, "refuted", f"{self.where}: {msg}", self.model(f))
        from . import sat
        r, f = sat.solve(pairs, asm)
        if r == "equal":
            return
        if r == "differ":
            raise Failed(ob, "refuted", f"{self.where}: {msg}", self.model(f))
        raise Failed(ob, "unknown", f"{self.where}: {msg}")

    def model(self, f=None):
        if f is None:
            f = bt.evaluator(random.Random(1), fixed={e: v for e, v in self.m.assumed.items()
                                                     if e not in bt.SETS and e not in bt.ANDN and e not in bt.DEFS and e not in bt.CONJ})
        out = {}
        for k, v in self.inputs.items():
            out[k] = bytes(x if type(x) is int else sum(f(l) << j for j, l in enumerate(x.bits)) for x in v).hex()
        return out


libc = ctypes.CDLL(None, use_errno=True)
PAGE = 4096


class NBuf:
    """native buffer between two inaccessible pages"""

    def __init__(self, name, size, align, endal, fill=True):
        self.name, self.size = name, size
        pages = (size + 2 * 64 + PAGE - 1) // PAGE
        total = (pages + 2) * PAGE
        self.map = mmap.mmap(-1, total)
        self.base = ctypes.addressof(ctypes.c_char.from_buffer(self.map))
        libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        libc.mprotect(self.base, PAGE, 0)
        libc.mprotect(self.base + (pages + 1) * PAGE, PAGE, 0)
        lo, hi = self.base + PAGE, self.base + (pages + 1) * PAGE
        if endal:
            a = hi - size
            a -= a % align
        else:
            a = lo
        self.addr = a
        self.lo, self.hi, self.fill = lo, hi, fill
        if fill:
            ctypes.memset(lo, 0xA5, hi - lo)

    def canary_ok(self):
        if not self.fill:
            return True
        x = ctypes.string_at(self.lo, self.addr - self.lo)
        y = ctypes.string_at(self.addr + self.size, self.hi - self.addr - self.size)
        return x.strip(b"\xa5") == b"" and y.strip(b"\xa5") == b""


class NPtr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o, self.off = o, off

    @property
    def addr(self):
        return self.o.addr + self.off if self.o is not None else self.off


class NatCtx(Base):
    """the same API on the compiled library"""
    native = True
    trace = None

    def __init__(self, so, seed=0, model=None, endal=True):
        super().__init__()
        self.lib = ctypes.CDLL(so)
        self.seed = seed
        if hasattr(self.lib, "w_trace"):
            self.lib.w_trace.restype = ctypes.c_uint64
        self.rng = random.Random(seed)
        self.model_in = model or {}
        self.endal = endal
        self.bufs = []

    def inp(self, name, n):
        nm = self._iname(name)
        h = self.model_in.get(nm)
        v = list(bytes.fromhex(h)) if h is not None and len(h) == 2 * n else [self.rng.getrandbits(8) for _ in range(n)]
        self.inputs[nm] = v
        return v

    def buf(self, name, size, init=None, align=1, ro=False):
        b = NBuf(name, size, align, self.endal)
        self.bufs.append(b)
        p = NPtr(b, 0)
        if init is not None:
            self.put(p, init)
        else:
            self.put(p, [self.rng.getrandbits(8) for _ in range(size)])
        b.ro = self.get(p, size) if ro else None
        return p

    def zeros(self, name, size):
        b = NBuf(name, size, 1, self.endal, False)
        b.ro = None
        self.bufs.append(b)
        return NPtr(b, 0)

    def timed(self, ob, fn, limit):
        """value of fn in a process of its own, which must answer in time"""
        import os, pickle, select, signal
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            signal.alarm(int(limit) + 2)
            try:
                os.write(w, pickle.dumps(fn()))
            finally:
                os._exit(0)
        os.close(w)
        ready = select.select([r], [], [], limit)[0]
        data = os.read(r, 65536) if ready else b""
        if not ready:
            os.kill(pid, signal.SIGKILL)
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        if not data:
            raise Failed(ob, "refuted", f"{self.where}: " + ("no result in %d s" % limit if not ready else f"process ended with status {st}"))
        return pickle.loads(data)

    def put(self, p, vals):
        ctypes.memmove(p.addr, bytes(vals), len(vals))

    def get(self, p, n):
        return list(ctypes.string_at(p.addr, n))

    def snapshot(self, p):
        return list(ctypes.string_at(p.o.addr, p.o.size))

    def same(self, ob, p, before):
        self.req(ob, self.snapshot(p), before)

    def split(self, fn):
        fn()

    def truth(self, lits, ob):
        return int(all(lits))

    def has(self, fn):
        try:
            getattr(self.lib, fn)
            return True
        except AttributeError:
            return False

    def off(self, p, k):
        return NPtr(p.o, p.off + k)

    def call(self, fn, *args):
        f = getattr(self.lib, fn)
        f.restype = ctypes.c_uint64
        a = []
        for x in args:
            if isinstance(x, NPtr):
                a.append(ctypes.c_void_p(x.addr))
            elif x is NULL:
                a.append(ctypes.c_void_p(0))
            else:
                a.append(ctypes.c_uint64(x & (1 << 64) - 1))
        r = f(*a)
        if self.trace is not None:
            self.trace.append(self.lib.w_trace())
        for b in self.bufs:
            if not b.canary_ok():
                raise Failed("memory", "refuted", f"{self.where}: {fn} wrote outside {b.name}[{b.size}]")
            if b.ro is not None and self.get(NPtr(b, 0), b.size) != b.ro:
                raise Failed("memory", "refuted", f"{self.where}: {fn} wrote to the input {b.name}")
        return r

    def req(self, ob, got, want):
        self.nobl += 1
        if list(got) != list(want):
            bad = [i for i, (g, w) in enumerate(zip(got, want)) if g != w]
            raise Failed(ob, "refuted", f"{self.where}: {len(bad)} bytes differ, first at {bad[:1]}")

    def reqi(self, ob, got, want, n=32):
        self.nobl += 1
        if (got ^ want) & ((1 << n) - 1):
            raise Failed(ob, "refuted", f"{self.where}: {got & ((1 << n) - 1)} instead of {want}")
