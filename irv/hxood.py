"""Scenarios for Xoodyak (see irv/high.py)."""
import random

from . import hspec as H
from .high import inst, fresh, data, outb
from .exec import NULL


class Obj:
    def __init__(self, c, kl, il, cl):
        self.c = c
        self.s = inst(c, "Xoodyak_Instance")
        k, i, n = c.inp("K", kl), c.inp("ID", il), c.inp("counter", cl)
        p = lambda v, nm: data(c, v, nm) if v else NULL
        c.call("Xoodyak_Initialize", self.s, p(k, "K"), kl, p(i, "ID"), il, p(n, "counter"), cl)
        self.X = H.Cyclist(k, i, n)

    def op(self, op, n):
        c, X, s = self.c, self.X, self.s
        if op == "absorb":
            d = c.inp("X", n)
            c.call("Xoodyak_Absorb", s, data(c, d, "X") if n else NULL, n)
            X.absorb(d)
        elif op in ("encrypt", "decrypt", "encrypt in place", "decrypt in place"):
            d = c.inp("text", n)
            q = c.buf("out", n, d if "place" in op else None)
            p = q if "place" in op else data(c, d, "in")
            dec = op[0] == "d"
            fn = "Xoodyak_Decrypt" if dec else "Xoodyak_Encrypt"
            c.call(fn, s, p, q, n)
            c.req(f"{fn}: output", c.get(q, n), X.decrypt(d) if dec else X.encrypt(d))
        elif op in ("squeeze", "squeeze key"):
            q = outb(c, n)
            fn = "Xoodyak_Squeeze" if op == "squeeze" else "Xoodyak_SqueezeKey"
            c.call(fn, s, q, n)
            c.req(f"{fn}: output", c.get(q, n), X.squeeze(n) if op == "squeeze" else X.squeeze_key(n))
        else:
            c.call("Xoodyak_Ratchet", s)
            X.ratchet()


def ops(c, cases):
    """cases: ((key, ID, counter lengths), [(operation, length)]); the state is observed by a final squeeze"""
    for key, seq in cases:
        fresh(c)
        c.at(f"Xoodyak {key}: {seq}")
        o = Obj(c, *key)
        for op, n in seq:
            o.op(op, n)
        o.op("squeeze", 16)


def inverse(c, cases):
    """sender and receiver: decryption gives the plaintext and the same state"""
    for key, ls in cases:
        fresh(c)
        c.at(f"Xoodyak {key}: encrypt and decrypt {ls}")
        a = Obj(c, *key)
        b = inst(c, "Xoodyak_Instance")
        c.put(b, c.get(a.s, a.s.o.size))
        for n in ls:
            d = c.inp("P", n)
            x, y = outb(c, n, "C"), outb(c, n, "P'")
            c.call("Xoodyak_Encrypt", a.s, data(c, d, "P"), x, n)
            c.call("Xoodyak_Decrypt", b, x, y, n)
            c.req("Xoodyak_Decrypt inverts Xoodyak_Encrypt", c.get(y, n), d)
            x, y = outb(c, 16, "tag"), outb(c, 16, "tag'")
            c.call("Xoodyak_Squeeze", a.s, x, 16)
            c.call("Xoodyak_Squeeze", b, y, 16)
            c.req("both sides derive the same tag", c.get(y, 16), c.get(x, 16))


OPS = ["absorb", "encrypt", "decrypt", "encrypt in place", "decrypt in place", "squeeze", "squeeze key", "ratchet"]


def every(deep):
    out = []
    key = (16, 0, 0)
    for op in OPS[:7]:
        for n in range(0, 200 if deep else 140) if op in ("absorb", "encrypt in place", "decrypt", "squeeze") or deep else (0, 1, 23, 24, 25, 43, 44, 45, 47, 48, 49, 71, 72, 73, 88, 96, 97, 300):
            out.append((key, [(op, n)]))
    for n in range(0, 120 if deep else 70):
        out += [((0, 0, 0), [("absorb", n)]), ((0, 0, 0), [("squeeze", n)])]
    for n in (500, 1000):
        out += [(key, [(op, n)]) for op in OPS[:7]] + [((0, 0, 0), [("absorb", n), ("squeeze", n)])]
    return out


def keys(deep):
    out = []
    for k in range(0, 44):
        for i in sorted({0, 1, 8, 16, 43 - k} & set(range(44 - k))) if not deep else range(44 - k):
            for n in (0, 1, 2, 17) if i in (0, 1, 43 - k) else (0, 3):
                out.append(((k, i, n), [("absorb", 3)]))
    return out


def sequences(count, deep):
    out = []
    for i in range(count):
        r = random.Random(f"xoodyak {i}")
        keyed = r.randrange(4)
        key = (r.randrange(1, 33), r.randrange(11), r.choice([0, 0, 1, 5])) if keyed else (0, 0, 0)
        seq = []
        for _ in range(8):
            n = r.choice([0, 1, 16, 17, 24, 25, 44, 45, 48, r.randrange(60), r.randrange(150), r.randrange(300)])
            seq.append((r.choice(OPS) if keyed else r.choice(["absorb", "squeeze"]), n))
        out.append((key, seq))
    pairs = [(a, b) for a in OPS for b in OPS]
    for a, b in pairs:
        for n in (0, 24, 100):
            out.append(((16, 16, 0), [(a, n), (b, n + 1)]))
    return out
