"""Scenarios for the duplex object and KeccakPRG (see irv/high.py)."""
import random

from . import hspec as H
from .high import inst, fresh, data, outb, ok, refused, bits, byts

P = "KeccakWidth1600"


def new(c, rate):
    s = inst(c, f"{P}_DuplexInstance")
    ok(c, "DuplexInitialize", c.call(f"{P}_DuplexInitialize", s, rate, 1600 - rate))
    return s, H.Duplex(rate)


class Ops:
    """each operation is accepted exactly when it fits, and then acts on the specification object alike"""

    def __init__(self, c, rate):
        self.c, self.rate = c, rate
        self.s, self.D = new(c, rate)

    def _feed(self, fn, n, how):
        c, D = self.c, self.D
        d = c.inp("sigma", min(n, 210))
        p = data(c, d, "input")
        args = (self.s, n) if how in ("zeroes", "owz") else (self.s, p, n)
        if 8 * n > D.room or how == "owz" and D.sigma:
            if how == "owz" and n == 0:
                pass
            return refused(c, f"{fn}: {n} bytes", self.s, [], lambda: c.call(f"{P}_{fn}", *args))
        ok(c, fn, c.call(f"{P}_{fn}", *args))
        if how == "feed":
            D.feed(bits(d))
        elif how == "zeroes":
            D.feed([0] * 8 * n)
        elif how == "ow":
            D.overwrite(bits(d))
        else:
            D.overwrite([0] * 8 * n)

    def feed(self, n):
        self._feed("DuplexingFeedPartialInput", n, "feed")

    def zeroes(self, n):
        self._feed("DuplexingFeedZeroes", n, "zeroes")

    def ow(self, n):
        self._feed("DuplexingOverwritePartialInput", n, "ow")

    def owz(self, n):
        self._feed("DuplexingOverwriteWithZeroes", n, "owz")

    def dup(self, n, d, z):
        """n bytes, delimited bits d, z bytes out"""
        c, D = self.c, self.D
        x = c.inp("sigma", min(n, 210))
        p = data(c, x, "input")
        q = c.buf("Z", z, c.inp("prevZ", z))
        call = lambda: c.call(f"{P}_Duplexing", self.s, p, n, q, z, d)
        tail = H.delimited(d) if d else []
        if d == 0 or 8 * n + len(tail) > D.room or z > (self.rate + 7) // 8:
            return refused(c, f"Duplexing: {n} bytes, end {d:#x}, {z} bytes out", self.s, [q], call)
        ok(c, "Duplexing", call())
        D.feed(bits(x))
        c.req("Duplexing: Z", c.get(q, z), byts(D.duplexing(tail, min(8 * z, self.rate))))
        D.pos = 8 * z

    def out(self, n, add=False, inplace=False):
        c, D = self.c, self.D
        top = (self.rate + 7) // 8
        pos = (D.pos + 7) // 8
        d = c.inp("addend", min(n, 210))
        fn = "DuplexingGetFurtherOutputAndAdd" if add else "DuplexingGetFurtherOutput"
        q = c.buf("output", min(n, 210), d)
        p = q if inplace else data(c, d, "input")
        call = lambda: c.call(f"{P}_{fn}", self.s, *((p, q, n) if add else (q, n)))
        if n > top - pos:
            return refused(c, f"{fn}: {n} bytes", self.s, [q], call)
        if 8 * pos < len(D.sigma):        # outside the contract: input queued over output that was not read
            return
        ok(c, fn, call())
        m = max(0, min(8 * n, self.rate - 8 * pos))
        z = D.Z[8 * pos:8 * pos + m]
        if add:
            z = H.xor(z, bits(d)[:m])
        D.pos = 8 * (pos + n)
        c.req(f"{fn}: output", c.get(q, n), byts(z + [0] * (8 * n - m)))


def seqs(c, rates, seed, steps=26, runs=1):
    for rate in rates:
        for run in range(runs):
            rnd = random.Random(f"{seed} {rate} {run}")
            fresh(c)
            c.at(f"duplex rate {rate}, sequence {run}")
            o = Ops(c, rate)
            hist = []
            for _ in range(steps):
                D = o.D
                room, left = D.room // 8, (rate + 7) // 8 - (D.pos + 7) // 8
                n = rnd.choice([0, 1, room, room - 1, room + 1, rnd.randrange(room + 1), rnd.randrange(room + 1), 2])
                n = max(0, n)
                k = rnd.randrange(12)
                if k < 2:
                    a = ("feed", n)
                elif k == 2:
                    a = ("zeroes", n)
                elif k == 3:
                    a = ("ow", n)
                elif k == 4:
                    a = ("owz", n)
                elif k < 8:
                    b = D.room - 8 * min(n, room)
                    d = rnd.choice([1, 1, 0, 6, 0x1F, 0xFF, 0x80, 0x40] + [1 << t for t in range(8)] + ([1 << min(7, b), (2 << b) - 1 & 0xFF, 2 << b & 0xFF] if 0 <= b < 8 else []))
                    a = ("dup", n, d, rnd.choice([0, 1, (rate + 7) // 8, rate // 8, (rate + 7) // 8 + 1, rnd.randrange((rate + 7) // 8 + 1)]))
                else:
                    m = max(0, rnd.choice([0, 1, left, left + 1, left - 1, rnd.randrange(left + 1)]))
                    a = ("out", m, k >= 10, k == 11)
                hist.append(a)
                c.at(f"duplex rate {rate}: {hist[-8:]}")
                getattr(o, a[0])(*a[1:])


def grid(c, rate, ks, ns):
    """every position: partial input k, then each kind of input of n, then the output observed"""
    for k in ks:
        for n in ns(rate, k):
            for how in ("feed", "zeroes", "ow", "owz"):
                fresh(c)
                c.at(f"duplex rate {rate}: {how} of {n} at {k}")
                o = Ops(c, rate)
                o.dup(0, 1, 0)
                o.feed(min(k, (rate - 2) // 8))
                getattr(o, how)(n)
                o.dup(0, 1, (rate + 7) // 8)


def ends(c, rates):
    """every delimited end at every length near the limit, with part of the input queued before"""
    for rate in rates:
        top = (rate - 2) // 8
        for k in sorted({0, 1, top // 2, top - 1, top} & set(range(top + 1))):
            for n in sorted({0, 1, top - k - 1, top - k, top - k + 1} & set(range(top + 2))):
                for d in [1 << t for t in range(8)] + [(2 << t) - 1 for t in range(8)] + [0]:
                    fresh(c)
                    c.at(f"duplex rate {rate}: {k} bytes queued, then {n} bytes and end {d:#x}")
                    o = Ops(c, rate)
                    o.feed(k)
                    o.dup(n, d, (rate + 7) // 8)
                    o.dup(0, 1, 8 if rate >= 64 else 0)


def outs(c, rates):
    """output in pieces up to the rate"""
    for rate in rates:
        top = (rate + 7) // 8
        for z in sorted({0, 1, top - 1, top}):
            for n in sorted({0, 1, top - z - 1, top - z, top - z + 1}):
                for add in (False, True):
                    if n < 0:
                        continue
                    fresh(c)
                    c.at(f"duplex rate {rate}: {z} bytes out, then {n}")
                    o = Ops(c, rate)
                    o.dup(0, 1, z)
                    o.out(n, add)
                    o.out(0, add)
                    o.out(1, add, add)
                    o.dup(0, 1, 0)


def params(c):
    for rate in list(range(-3, 20)) + [1340, 1590, 1597, 1598, 1599, 1600, 1601, 1602, 1608, 3200]:
        for cap in {1600 - rate, 1600 - rate + 1, -rate, 0}:
            fresh(c)
            c.at(f"duplex rate {rate} capacity {cap}")
            s = inst(c, f"{P}_DuplexInstance")
            c.put(s, c.inp("inst", s.o.size))
            call = lambda: c.call(f"{P}_DuplexInitialize", s, rate & 0xFFFFFFFF, cap & 0xFFFFFFFF)
            if 3 <= rate <= 1600 and rate + cap == 1600:
                ok(c, "DuplexInitialize", call())
            else:
                refused(c, "DuplexInitialize", s, [], call)


def big(c):
    """lengths that overflow 32-bit bit counts"""
    for rate in (3, 10, 1344, 1346, 1600):
        for n in (200, 1 << 28, 1 << 29, (1 << 29) + 1, 1 << 30, 1 << 31, (1 << 32) - 1, (1 << 32) - 100):
            fresh(c)
            c.at(f"duplex rate {rate}: {n} bytes")
            o = Ops(c, rate)
            o.dup(0, 1, 1)
            o.feed(min(1, (rate - 2) // 8))
            for f in (o.feed, o.zeroes, o.ow, o.owz, o.out):
                f(n)
            q = c.buf("Z", 8, c.inp("prevZ", 8))
            if n == 200:
                continue
            p = data(c, c.inp("x", 8))
            refused(c, "Duplexing", o.s, [q], lambda: c.call(f"{P}_Duplexing", o.s, p, n, q, 0, 1))
            refused(c, "Duplexing", o.s, [q], lambda: c.call(f"{P}_Duplexing", o.s, p, 0, q, n, 1))


# ---- KeccakPRG
def prg(c, cases):
    """[(capacity, [(operation, length)])]"""
    for cap, ops in cases:
        fresh(c)
        c.at(f"SpongePRG capacity {cap}: {ops}")
        s = inst(c, f"{P}_SpongePRG_Instance")
        ok(c, "Initialize", c.call(f"{P}_SpongePRG_Initialize", s, cap))
        G = H.SpongePRG(cap)
        for op, *n in ops:
            if op == "feed":
                d = c.inp("seed", n[0])
                ok(c, "Feed", c.call(f"{P}_SpongePRG_Feed", s, data(c, d), n[0]))
                G.feed(bits(d))
            elif op == "fetch":
                q = outb(c, n[0])
                ok(c, "Fetch", c.call(f"{P}_SpongePRG_Fetch", s, q, n[0]))
                c.req("Fetch: output", c.get(q, n[0]), byts(G.fetch(8 * n[0])))
            elif G.rho < cap:
                refused(c, "Forget", s, [], lambda: c.call(f"{P}_SpongePRG_Forget", s))
            else:
                ok(c, "Forget", c.call(f"{P}_SpongePRG_Forget", s))
                G.forget()


def prg_params(c):
    for cap in list(range(0, 1700, 53)) + [1, 7, 254, 1589, 1590, 1591, 1592, 1597, 1598, 1599, 1600, 1601, (1 << 32) - 1, (1 << 32) - 10, 1 << 31]:
        fresh(c)
        c.at(f"SpongePRG capacity {cap}")
        s = inst(c, f"{P}_SpongePRG_Instance")
        c.put(s, c.inp("inst", s.o.size))
        call = lambda: c.call(f"{P}_SpongePRG_Initialize", s, cap)
        if cap <= 1590:
            ok(c, "Initialize", call())
        else:
            refused(c, "Initialize", s, [], call)
