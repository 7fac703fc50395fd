"""Scenarios for Kravatte and Xoofff and their SANE / SANSE / WBC / WBC-AE modes (see irv/high.py)."""
import random

from . import hspec as H
from .high import inst, fresh, data, outb, ok, refused, bits, byts
from .hfips import bitdata, cleandata

INIT, LAST, SHORT = 1, 2, 4


class KRAVATTE:
    F, T, md, comp, exp, one = H.Kravatte, "Kravatte_Instance", "Kravatte_MaskDerivation", "Kra", "Vatte", "Kravatte"
    sane, sanse, wbc, ae = "Kravatte_SANE", "Kravatte_SANSE", "Kravatte_WBC", "Kravatte_WBCAE"


class XOOFFF:
    F, T, md, comp, exp, one = H.Xoofff, "Xoofff_Instance", "Xoofff_MaskDerivation", "Xoofff_Compress", "Xoofff_Expand", "Xoofff"
    sane, sanse, wbc, ae = "XoofffSANE", "XoofffSANSE", "XoofffWBC", "XoofffWBCAE"


ALG = {"K": KRAVATTE, "X": XOOFFF}


class Spec:
    """F_K with strings and output in pieces"""

    def __init__(self, F, key):
        self.F, self.h = F, H.Farfalle(F, key)
        self.q, self.phase = [], "C"

    def compress(self, b, flags):
        h = self.h
        if flags & INIT:
            h.kr, h.x, self.q = list(h.k), [0] * self.F.b, []
        if self.phase != "C":
            self.phase, self.q = "C", []
        self.q += b
        if flags & LAST:
            h.string(self.q)
            self.q = []

    def can_expand(self, n, flags):
        return not ((n % 8 and not flags & LAST) or (self.phase == "C" and self.q) or self.phase == "X")

    def expand(self, n, flags):
        if self.phase == "C":
            self.phase, self.z = "E", []
            self.y = list(self.h.x) if flags & SHORT else self.F.perm(self.h.x)
        while len(self.z) < n:
            self.z += H.xor(self.F.perm(self.y), self.h.kr)
            self.y = self.F.rolle(self.y)
        out, self.z = self.z[:n], self.z[n:]
        if flags & LAST:
            self.phase = "X"
        return out


class Obj:
    def __init__(self, c, A, klen):
        self.c, self.A = c, A
        self.s = inst(c, A.T)
        p, k = bitdata(c, klen, "key")
        ok(c, A.md, c.call(A.md, self.s, p, klen))
        self.S = Spec(A.F, k)

    def compress(self, n, flags):
        c, A = self.c, self.A
        p, b = cleandata(c, n, "input")
        call = lambda: c.call(A.comp, self.s, p, n, flags)
        if n % 8 and not flags & LAST:
            return refused(c, f"{A.comp}: {n} bits, not last", self.s, [], call)
        ok(c, A.comp, call())
        self.S.compress(b, flags)

    def expand(self, n, flags):
        c, A = self.c, self.A
        q = c.buf("output", (n + 7) // 8, c.inp("prev", (n + 7) // 8))
        call = lambda: c.call(A.exp, self.s, q, n, flags)
        if not self.S.can_expand(n, flags):
            return refused(c, f"{A.exp}: {n} bits", self.s, [q], call)
        ok(c, A.exp, call())
        c.req(f"{A.exp}: Farfalle output", c.get(q, (n + 7) // 8), byts(self.S.expand(n, flags)))

    def one(self, n, o, flags):
        c, A = self.c, self.A
        p, b = cleandata(c, n, "input")
        q = outb(c, (o + 7) // 8)
        ok(c, A.one, c.call(A.one, self.s, p, n, q, o, flags))
        self.S.compress(b, flags | LAST)
        c.req(f"{A.one}: Farfalle output", c.get(q, (o + 7) // 8), byts(self.S.expand(o, flags | LAST)))


def keys(c, alg, cases):
    A = ALG[alg]
    for n in cases:
        fresh(c)
        c.at(f"{A.one}: key of {n} bits")
        if n >= A.F.b:
            s = inst(c, A.T)
            c.put(s, c.inp("inst", s.o.size))
            p, _ = bitdata(c, min(n, 4000), "key")
            refused(c, A.md, s, [], lambda: c.call(A.md, s, p, n))
            continue
        o = Obj(c, A, n)
        o.one(3, A.F.b, 0)


def oneshot(c, alg, cases):
    """cases: [(input bits, output bits, flags)]"""
    A = ALG[alg]
    for n, o, fl in cases:
        fresh(c)
        c.at(f"{A.one}: {n} bits to {o} bits, flags {fl}")
        k = Obj(c, A, 128)
        k.one(n, o, fl)


def ops(c, alg, cases):
    """cases: lists of ('c', bits, flags), ('e', bits, flags), ('o', bits, bits, flags) on one instance"""
    A = ALG[alg]
    for seq in cases:
        fresh(c)
        c.at(f"{A.one}: {seq}")
        k = Obj(c, A, 256)
        for op, *a in seq:
            {"c": k.compress, "e": k.expand, "o": k.one}[op](*a)


def compress_grid(W, ks, ns, P):
    """pieces of k and n bytes, then the end"""
    out = []
    for k in ks:
        for n in ns(k):
            out.append([("c", 8 * k, INIT), ("c", 8 * n, 0), ("c", 3, LAST), ("e", 8 * W, LAST)])
            out.append([("c", 8 * k, 0), ("c", 8 * n + 5, LAST), ("e", 64, 0)])
    return out


def expand_grid(W, ks, ns):
    out = []
    for k in ks:
        for n in ns(k):
            out.append([("c", 9, INIT | LAST), ("e", 8 * k, 0), ("e", 8 * n, 0), ("e", 13, LAST), ("e", 8, 0)])
            out.append([("c", 16, LAST), ("e", 8 * k, SHORT), ("e", max(0, 8 * n - 3), LAST), ("e", 0, LAST)])
    return out


def sequences(W, P, seed, count, steps=9, big=True):
    """pseudo-random call sequences, refused calls included"""
    out = []
    b = 8 * W
    for i in range(count):
        r = random.Random(f"{seed} {i}")
        seq, left = [], 3 * P + 12
        q = 0
        for _ in range(steps):
            n = r.choice([0, 1, 7, W - 1, W, W + 1, r.randrange(2 * W), r.randrange(2 * W), 2 * W, P * W, P * W + W - 1 if big else 3])
            if n // W > left:
                n = r.randrange(W)
            left -= n // W
            k = r.randrange(10)
            if k < 4:
                seq.append(("c", 8 * n, r.choice([0, 0, 0, INIT])))
            elif k < 7:
                seq.append(("c", 8 * n + r.randrange(8), r.choice([LAST, LAST, LAST | INIT, 0])))
            if k >= 5:
                seq.append(("e", 8 * n + r.choice([0, 0, 0, r.randrange(8)]), r.choice([0, 0, SHORT, LAST])))
                if r.randrange(2):
                    seq.append(("e", 8 * r.randrange(2 * W), r.choice([0, LAST])))
        out.append(seq)
    return [drop(s, b) for s in out]


def drop(seq, b):
    """without requests for output in the middle of a string that is a whole number of blocks (outside the contract)"""
    out, q, ph = [], 0, "C"
    for op, n, fl in seq:
        if op == "c":
            if n % 8 and not fl & LAST:
                out.append((op, n, fl))
                continue
            if fl & INIT or ph != "C":
                q, ph = 0, "C"
            q = 0 if fl & LAST else q + n
        else:
            if ph == "C" and q and q % b == 0:
                continue
            if not (n % 8 and not fl & LAST or ph == "C" and q or ph == "X"):
                ph = "X" if fl & LAST else "E"
        out.append((op, n, fl))
    return out


# ---- SANE, SANSE
def ptr(c, b, name):
    return data(c, byts(b), name)


class Session:
    def __init__(self, c, A, mode, key, nonce):
        self.c, self.A, self.mode = c, A, mode
        self.pfx = A.sane if mode == "SANE" else A.sanse
        self.s = inst(c, self.pfx + "_Instance")
        if mode == "SANE":
            t = outb(c, 16, "tag")
            ok(c, self.pfx + "_Initialize", c.call(self.pfx + "_Initialize", self.s, ptr(c, key, "key"), len(key), ptr(c, nonce, "nonce"), len(nonce), t))
            self.S = H.SANE(A.F, key, nonce)
            c.req(f"{self.pfx}_Initialize: tag", c.get(t, 16), byts(self.S.tag0()))
        else:
            ok(c, self.pfx + "_Initialize", c.call(self.pfx + "_Initialize", self.s, ptr(c, key, "key"), len(key)))
            self.S = H.SANSE(A.F, key)
        self.tl = self.S.t // 8

    def wrap(self, pt, ad):
        c = self.c
        n = (len(pt) + 7) // 8
        q, t = outb(c, n, "ciphertext"), outb(c, self.tl, "tag")
        ok(c, self.pfx + "_Wrap", c.call(self.pfx + "_Wrap", self.s, ptr(c, pt, "plaintext"), q, len(pt), ptr(c, ad, "AD"), len(ad), t))
        ct, tag = self.S.wrap(ad, pt)
        c.req(f"{self.pfx}_Wrap: ciphertext", c.get(q, n), byts(ct))
        c.req(f"{self.pfx}_Wrap: tag", c.get(t, self.tl), byts(tag))
        return ct, tag

    def unwrap(self, ct, ad, tag, want=None):
        """tag: bits, arbitrary"""
        c = self.c
        n = (len(ct) + 7) // 8
        q = outb(c, n, "plaintext")
        r = c.call(self.pfx + "_Unwrap", self.s, ptr(c, ct, "ciphertext"), q, len(ct), ptr(c, ad, "AD"), len(ad), ptr(c, tag, "tag"))
        self.rejected = c.memonly and r != 0
        pt, t2 = self.S.unwrap(ad, ct) if self.mode == "SANE" else self.S.unwrap(ad, ct, tag)
        good = c.truth([1 ^ x for x in H.xor(t2, tag)], f"{self.pfx}_Unwrap: decision")
        c.reqi(f"{self.pfx}_Unwrap: {'success' if good else 'failure'}", r, 0 if good else 1)
        c.req(f"{self.pfx}_Unwrap: {'plaintext' if good else 'plaintext erased'}", c.get(q, n), byts(pt) if good else [0] * n)
        if want is not None:
            c.reqi(f"{self.pfx}: unwrap inverts wrap", 0 if good else 1, 0)
            if pt != want:
                c.req(f"{self.pfx}: unwrap inverts wrap", byts(pt), byts(want))
        return good


def bitsof(c, name, n):
    return bits(c.inp(name, (n + 7) // 8))[:n]


def flip(b, i):
    return b[:i] + [b[i] ^ 1] + b[i + 1:]


def sessions(c, alg, mode, cases):
    """cases: (key bits, nonce bits, [(plaintext bits, AD bits, tag bits to flip or None)]); sender and receiver run side by side"""
    A = ALG[alg]
    for kl, nl, msgs in cases:
        c.split(lambda: session(c, A, alg, mode, kl, nl, msgs))


def session(c, A, alg, mode, kl, nl, msgs):
    fresh(c)
    c.at(f"{alg} {mode}: key {kl} nonce {nl} messages {msgs}")
    key, nonce = bitsof(c, "key", kl), bitsof(c, "nonce", nl)
    a, b = Session(c, A, mode, key, nonce), Session(c, A, mode, key, nonce)
    for n, m, bad in msgs:
        pt, ad = bitsof(c, "plaintext", n), bitsof(c, "AD", m)
        ct, tag = a.wrap(pt, ad)
        if bad is not None:      # a rejected message ends the comparison of this session
            b.unwrap(ct, ad, flip(tag, bad))
            break
        b.unwrap(ct, ad, tag, want=pt)
        if b.rejected:
            break


def forged(c, alg, mode, n, m):
    """arbitrary ciphertext, AD and tag: accepted exactly when the tag is the one specified"""
    A = ALG[alg]
    fresh(c)
    c.at(f"{alg} {mode}: arbitrary message of {n} bits, AD {m} bits")
    b = Session(c, A, mode, bitsof(c, "key", 128), bitsof(c, "nonce", 128))
    ct, ad = bitsof(c, "ciphertext", n), bitsof(c, "AD", m)
    b.unwrap(ct, ad, bitsof(c, "tag", 8 * b.tl))


def badkey(c, alg):
    A = ALG[alg]
    for mode, pfx in (("SANE", A.sane), ("SANSE", A.sanse)):
        for n in (A.F.b, A.F.b + 1, A.F.b + 64, 1 << 32):
            fresh(c)
            c.at(f"{pfx}: key of {n} bits")
            s = inst(c, pfx + "_Instance")
            c.put(s, c.inp("inst", s.o.size))
            k = ptr(c, bitsof(c, "key", A.F.b + 64), "key")
            if mode == "SANE":
                t = c.buf("tag", 16, c.inp("prev", 16))
                b = c.snapshot(t)
                c.reqi(f"{pfx}_Initialize: refused", c.call(pfx + "_Initialize", s, k, n, k, 64, t), 1)
                c.same(f"{pfx}_Initialize: tag unchanged", t, b)
            else:
                c.reqi(f"{pfx}_Initialize: refused", c.call(pfx + "_Initialize", s, k, n), 1)


# ---- WBC, WBC-AE
def mask(c, A, klen):
    p, k = bitdata(c, klen, "key")
    s = inst(c, A.T)
    ok(c, A.md, c.call(A.md, s, p, klen))
    return s, k


def wbc(c, alg, cases):
    """cases: (bits, tweak bits): enciphering is the specified function, deciphering of arbitrary data likewise, and deciphering the ciphertext
    gives the plaintext"""
    A = ALG[alg]
    for n, w in cases:
        fresh(c)
        c.at(f"{A.wbc}: {n} bits, tweak {w} bits")
        s, key = mask(c, A, 128)
        pt, tw = bitsof(c, "plaintext", n), bitsof(c, "W", w)
        nb = (n + 7) // 8
        W = ptr(c, tw, "W")
        q = outb(c, nb, "ciphertext")
        ok(c, A.wbc + "_Encipher", c.call(A.wbc + "_Encipher", s, ptr(c, pt, "plaintext"), q, n, W, w))
        ct = H.wbc(A.F, key, tw, pt)
        c.req(A.wbc + "_Encipher: specification", c.get(q, nb), byts(ct))
        q = outb(c, nb, "plaintext")
        ok(c, A.wbc + "_Decipher", c.call(A.wbc + "_Decipher", s, ptr(c, ct, "ciphertext"), q, n, W, w))
        c.req(A.wbc + "_Decipher: inverts Encipher", c.get(q, nb), byts(pt))
        x = bitsof(c, "ciphertext", n)
        q = outb(c, nb, "plaintext")
        ok(c, A.wbc + "_Decipher", c.call(A.wbc + "_Decipher", s, ptr(c, x, "ciphertext"), q, n, W, w))
        c.req(A.wbc + "_Decipher: specification", c.get(q, nb), byts(H.wbc(A.F, key, tw, x, True)))


def ae(c, alg, cases):
    """WBC-AE of n bits: the n + 128 bits of plaintext and zeroes enciphered; intact data accepted"""
    A = ALG[alg]

    def one(n, w):
        fresh(c)
        c.at(f"{A.ae}: {n} bits, AD {w} bits")
        s, key = mask(c, A, 128)
        pt, ad = bitsof(c, "plaintext", n), bitsof(c, "AD", w)
        nb, N = (n + 7) // 8, (n + 128 + 7) // 8
        p = c.buf("plaintext", N, None)
        junk = bits(c.inp("junk", N))
        c.put(p, byts(pt + junk[n:8 * N]))
        W, q = ptr(c, ad, "AD"), outb(c, N, "ciphertext")
        ok(c, A.ae + "_Encipher", c.call(A.ae + "_Encipher", s, p, q, n, W, w))
        ct = H.wbc(A.F, key, ad, pt + [0] * 128)
        c.req(A.ae + "_Encipher: specification", c.get(q, N), byts(ct))
        q = outb(c, N, "plaintext")
        ok(c, A.ae + "_Decipher: intact data accepted", c.call(A.ae + "_Decipher", s, ptr(c, ct, "ciphertext"), q, n, W, w))
        c.req(A.ae + "_Decipher: plaintext", c.get(q, N), byts(pt + [0] * 128))
    for n, w in cases:
        c.split(lambda: one(n, w))


def ae_forged(c, alg, n, w):
    """arbitrary data: accepted exactly when the redundancy is intact, erased otherwise"""
    A = ALG[alg]
    fresh(c)
    c.at(f"{A.ae}: arbitrary data for {n} bits, AD {w} bits")
    s, key = mask(c, A, 128)
    N = (n + 128 + 7) // 8
    x, ad = bitsof(c, "ciphertext", n + 128), bitsof(c, "AD", w)
    q = outb(c, N, "plaintext")
    r = c.call(A.ae + "_Decipher", s, ptr(c, x, "ciphertext"), q, n, ptr(c, ad, "AD"), w)
    pt = H.wbc(A.F, key, ad, x, True)
    good = c.truth([x ^ 1 for x in pt[n:]], f"{A.ae}_Decipher: decision")
    c.reqi(f"{A.ae}_Decipher: {'accepted' if good else 'rejected'}", r, 0 if good else 1)
    c.req(f"{A.ae}_Decipher: output", c.get(q, N), byts(pt[:n] + [0] * 128) if good else [0] * N)


def ae_tampered(c, alg, cases):
    """constant redundancy errors: the decipherment of a block whose redundancy differs in one bit"""
    A = ALG[alg]

    def one(n, i):
        fresh(c)
        c.at(f"{A.ae}: {n} bits, redundancy bit {i} wrong")
        s, key = mask(c, A, 128)
        pt = bitsof(c, "plaintext", n)
        N = (n + 128 + 7) // 8
        z = [0] * 128
        z[i] = 1
        ct = H.wbc(A.F, key, [], pt + z)
        q = outb(c, N, "plaintext")
        c.reqi(A.ae + "_Decipher: rejected", c.call(A.ae + "_Decipher", s, ptr(c, ct, "ciphertext"), q, n, ptr(c, [], "AD"), 0), 1)
        c.req(A.ae + "_Decipher: output erased", c.get(q, N), [0] * N)
    for n, i in cases:
        c.split(lambda: one(n, i))
