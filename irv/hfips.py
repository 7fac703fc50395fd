"""Scenarios for KeccakHash, SimpleFIPS202, TurboSHAKE, KangarooTwelve and SP 800-185 (see irv/high.py)."""
from . import bits as bt
from . import hspec as H
from .high import inst, fresh, data, outb, ok, refused, bits, byts
from .exec import NULL

SHA3 = {"SHA3-224": (1152, 448, 224, 0x06), "SHA3-256": (1088, 512, 256, 0x06), "SHA3-384": (832, 768, 384, 0x06),
        "SHA3-512": (576, 1024, 512, 0x06), "SHAKE128": (1344, 256, 0, 0x1F), "SHAKE256": (1088, 512, 0, 0x1F)}


def bitdata(c, n, name="msg"):
    """n bits in ceil(n/8) bytes, the unused bits of the last byte being arbitrary -> (pointer, bits)"""
    d = c.inp(name, (n + 7) // 8)
    return data(c, d, name), bits(d)[:n]


def cleandata(c, n, name):
    """n bits, the unused bits of the last byte being zero"""
    b = bits(c.inp(name, (n + 7) // 8))[:n]
    return data(c, byts(b), name), b


# ---- SimpleFIPS202
def simple(c, ns, outs):
    for f, (rate, cap, hl, d) in SHA3.items():
        r = rate // 8
        for n in ns(r):
            for o in outs(r) if not hl else (hl // 8,):
                fresh(c)
                c.at(f"{f} of {n} bytes, output {o}")
                p, b = bitdata(c, 8 * n)
                q = outb(c, o)
                nm = f.replace("-", "_")
                ok(c, nm, c.call(nm, q, p, n) if hl else c.call(nm, q, o, p, n))
                c.req(f"{nm}: FIPS 202", c.get(q, o), byts(H.sponge(b, H.delimited(d), rate, 8 * o)))


# ---- Keccak_Hash
def kh_new(c, rate, cap, hl, d):
    s = inst(c, "Keccak_HashInstance")
    ok(c, "Keccak_HashInitialize", c.call("Keccak_HashInitialize", s, rate, cap, hl, d))
    return s


def kh(c, cases):
    """cases: [(rate, hashbitlen, suffix, bit lengths of the pieces, bit lengths squeezed)]"""
    for rate, hl, d, pieces, outs in cases:
        fresh(c)
        c.at(f"Keccak_Hash rate {rate} output {hl} suffix {d:#x}: update {pieces} bits, squeeze {outs} bits")
        s = kh_new(c, rate, 1600 - rate, hl, d)
        S = H.Sponge(rate)
        for n in pieces:
            p, b = bitdata(c, n)
            ok(c, "Keccak_HashUpdate", c.call("Keccak_HashUpdate", s, p, n))
            S.absorb(b)
        S.finish(H.delimited(d))
        q = outb(c, hl // 8, "hashval")
        ok(c, "Keccak_HashFinal", c.call("Keccak_HashFinal", s, q))
        c.req("Keccak_HashFinal: hash value", c.get(q, hl // 8), byts(S.squeeze(hl)))
        for o in outs:
            q = outb(c, o // 8)
            ok(c, "Keccak_HashSqueeze", c.call("Keccak_HashSqueeze", s, q, o))
            c.req("Keccak_HashSqueeze: output", c.get(q, o // 8), byts(S.squeeze(o)))


def kh_misuse(c):
    for rate, cap, d in ((1344, 256, 0), (1344, 255, 6), (0, 1600, 6), (1601, 0, 6), (1608, (1 << 32) - 8, 6), (1340, 260, 6), (1088, 513, 6)):
        fresh(c)
        c.at(f"Keccak_HashInitialize rate {rate} capacity {cap} suffix {d}")
        s = inst(c, "Keccak_HashInstance")
        c.put(s, c.inp("inst", s.o.size))
        refused(c, "Keccak_HashInitialize", s, [], lambda: c.call("Keccak_HashInitialize", s, rate, cap, 256, d))
    for rate, cap, hl, d in list(SHA3.values()) + [(8, 1592, 64, 1), (1600, 0, 24, 0x80)]:
        fresh(c)
        r = rate // 8
        c.at(f"Keccak_Hash rate {rate} misuse")
        s, S = kh_new(c, rate, cap, hl, d), H.Sponge(rate)
        p, b = bitdata(c, 8 * r + 8)
        ok(c, "Keccak_HashUpdate", c.call("Keccak_HashUpdate", s, p, 8 * r + 8))
        S.absorb(b)
        S.finish(H.delimited(d))
        q = c.buf("hashval", hl // 8 + 1, c.inp("prev", hl // 8 + 1))
        last = c.get(c.off(q, hl // 8), 1)
        ok(c, "Keccak_HashFinal", c.call("Keccak_HashFinal", s, q))
        c.req("Keccak_HashFinal: hash value", c.get(q, hl // 8), byts(S.squeeze(hl)))
        c.req("Keccak_HashFinal: writes no more", c.get(c.off(q, hl // 8), 1), last)
        for k in (0, 8, 8 * r - 8, 8 * r, 8):
            for n in (0, 8, 8 * r):
                refused(c, "Keccak_HashUpdate after Final", s, [], lambda: c.call("Keccak_HashUpdate", s, p, n))
            refused(c, "Keccak_HashUpdate after Final", s, [], lambda: c.call("Keccak_HashUpdate", s, p, 0))
            refused(c, "Keccak_HashFinal twice", s, [q], lambda: c.call("Keccak_HashFinal", s, q))
            for n in (1, 7, 9, 8 * r + 4):
                w = c.buf("output", r + 2, c.inp("prev", r + 2))
                refused(c, f"Keccak_HashSqueeze of {n} bits", s, [w], lambda: c.call("Keccak_HashSqueeze", s, w, n))
            w = outb(c, k // 8)
            ok(c, "Keccak_HashSqueeze", c.call("Keccak_HashSqueeze", s, w, k))
            c.req("Keccak_HashSqueeze: output", c.get(w, k // 8), byts(S.squeeze(k)))


# ---- TurboSHAKE
def ts_oneshot(c, cases):
    """[(capacity, n, domain, output length)]"""
    for cap, n, d, o in cases:
        fresh(c)
        c.at(f"TurboSHAKE capacity {cap} of {n} bytes, domain {d:#x}, output {o}")
        p, b = bitdata(c, 8 * n)
        q = outb(c, o)
        ok(c, "TurboSHAKE", c.call("TurboSHAKE", cap, p, n, d, q, o))
        c.req("TurboSHAKE: value", c.get(q, o), byts(H.turboshake(cap, b, d, 8 * o)))


def ts(c, cases):
    """[(capacity, pieces, domain or None, outs)]"""
    for cap, pieces, d, outs in cases:
        fresh(c)
        c.at(f"TurboSHAKE capacity {cap}: absorb {pieces}, domain {d}, squeeze {outs}")
        s = inst(c, "TurboSHAKE_Instance")
        ok(c, "TurboSHAKE_Initialize", c.call("TurboSHAKE_Initialize", s, cap))
        S = H.Sponge(1600 - cap, 12)
        for n in pieces:
            p, b = bitdata(c, 8 * n)
            ok(c, "TurboSHAKE_Absorb", c.call("TurboSHAKE_Absorb", s, p, n))
            S.absorb(b)
        if d is not None:
            ok(c, "TurboSHAKE_AbsorbDomainSeparationByte", c.call("TurboSHAKE_AbsorbDomainSeparationByte", s, d))
        S.finish(H.delimited(d if d is not None else 1))
        for o in outs:
            q = outb(c, o)
            ok(c, "TurboSHAKE_Squeeze", c.call("TurboSHAKE_Squeeze", s, q, o))
            c.req("TurboSHAKE_Squeeze: output", c.get(q, o), byts(S.squeeze(8 * o)))


def ts_misuse(c):
    for cap in (1, 7, 100, 257, 513, 516, 520, 1600, 1592, 1 << 31, (1 << 32) - 8, (1 << 32) - 1):
        fresh(c)
        c.at(f"TurboSHAKE capacity {cap}")
        s = inst(c, "TurboSHAKE_Instance")
        c.put(s, c.inp("inst", s.o.size))
        refused(c, "TurboSHAKE_Initialize", s, [], lambda: c.call("TurboSHAKE_Initialize", s, cap))
        d, q = data(c, c.inp("msg", 5)), c.buf("output", 9, c.inp("prev", 9))
        refused(c, "TurboSHAKE", None, [q], lambda: c.call("TurboSHAKE", cap, d, 5, 0x1F, q, 9))
    for cap in (256, 512, 0, 8, 504):
        fresh(c)
        r = 200 - cap // 8
        c.at(f"TurboSHAKE capacity {cap} misuse")
        d, q = data(c, c.inp("msg", r)), c.buf("output", 9, c.inp("prev", 9))
        refused(c, "TurboSHAKE domain 0", None, [q], lambda: c.call("TurboSHAKE", cap, d, 5, 0, q, 9))
        s, S = inst(c, "TurboSHAKE_Instance"), H.Sponge(1600 - cap, 12)
        ok(c, "TurboSHAKE_Initialize", c.call("TurboSHAKE_Initialize", s, cap))
        p, b = bitdata(c, 8 * r + 8)
        ok(c, "TurboSHAKE_Absorb", c.call("TurboSHAKE_Absorb", s, p, r + 1))
        S.absorb(b)
        refused(c, "domain 0", s, [], lambda: c.call("TurboSHAKE_AbsorbDomainSeparationByte", s, 0))
        ok(c, "TurboSHAKE_AbsorbDomainSeparationByte", c.call("TurboSHAKE_AbsorbDomainSeparationByte", s, 0x0B))
        S.finish(H.delimited(0x0B))
        for k in (0, 1, r - 1, r, 1):
            for n in (0, 1, r):
                refused(c, "absorb after squeeze", s, [], lambda: c.call("TurboSHAKE_Absorb", s, d, n))
            for x in (0, 1, 0x1F):
                refused(c, "domain after squeeze", s, [], lambda: c.call("TurboSHAKE_AbsorbDomainSeparationByte", s, x))
            w = outb(c, k)
            ok(c, "TurboSHAKE_Squeeze", c.call("TurboSHAKE_Squeeze", s, w, k))
            c.req("TurboSHAKE_Squeeze: output", c.get(w, k), byts(S.squeeze(8 * k)))


# ---- KangarooTwelve
def kt_oneshot(c, cases):
    """[(security, n, custom, output)]"""
    for sec, n, cl, o in cases:
        fresh(c)
        c.at(f"KangarooTwelve {sec} of {n} bytes, customization {cl}, output {o}")
        (p, m), (u, cu) = bitdata(c, 8 * n), bitdata(c, 8 * cl, "custom")
        q = outb(c, o)
        want = byts(H.kangarootwelve(sec, m, cu, 8 * o))
        ok(c, "KangarooTwelve", c.call("KangarooTwelve", sec, p, n, q, o, u, cl))
        c.req("KangarooTwelve: value", c.get(q, o), want)


def kt_long(c, cases):
    """many chunks of zeros: numbers of chunks that take two bytes and more; [(security, n, piece)]"""
    for sec, n, piece in cases:
        fresh(c)
        c.at(f"KangarooTwelve {sec} of {n} zero bytes in pieces of {piece}")
        p, q = c.zeros("msg", n), outb(c, 16)
        s = inst(c, "KangarooTwelve_Instance")
        ok(c, "KangarooTwelve_Initialize", c.call("KangarooTwelve_Initialize", s, sec, 16))
        for i in range(0, n, piece):
            ok(c, "KangarooTwelve_Update", c.call("KangarooTwelve_Update", s, c.off(p, i), min(piece, n - i)))
        ok(c, "KangarooTwelve_Final", c.call("KangarooTwelve_Final", s, q, NULL, 0))
        c.req("KangarooTwelve: value", c.get(q, 16), byts(H.kangarootwelve_zeros(sec, n, 128)))


def kt_named(c, cases):
    for sec, n, cl, o in cases:
        fresh(c)
        c.at(f"KT{sec} of {n} bytes, customization {cl}, output {o}")
        (p, m), (u, cu) = bitdata(c, 8 * n), bitdata(c, 8 * cl, "custom")
        q = outb(c, o)
        ok(c, f"KT{sec}", c.call(f"KT{sec}", p, n, q, o, u, cl))
        c.req(f"KT{sec}: value", c.get(q, o), byts(H.kangarootwelve(sec, m, cu, 8 * o)))


def kt(c, cases):
    """[(security, pieces, custom, output length at Initialize, squeezes)]"""
    for sec, pieces, cl, fixed, outs in cases:
        fresh(c)
        c.at(f"KangarooTwelve {sec}: update {pieces}, customization {cl}, output {fixed or outs}")
        s = inst(c, "KangarooTwelve_Instance")
        ok(c, "KangarooTwelve_Initialize", c.call("KangarooTwelve_Initialize", s, sec, fixed))
        M = []
        for n in pieces:
            p, b = bitdata(c, 8 * n)
            ok(c, "KangarooTwelve_Update", c.call("KangarooTwelve_Update", s, p, n))
            M += b
        u, cu = bitdata(c, 8 * cl, "custom")
        q = outb(c, fixed)
        ok(c, "KangarooTwelve_Final", c.call("KangarooTwelve_Final", s, q, u, cl))
        got = c.get(q, fixed)
        if not fixed:
            for o in outs:
                w = outb(c, o)
                ok(c, "KangarooTwelve_Squeeze", c.call("KangarooTwelve_Squeeze", s, w, o))
                got = got + c.get(w, o)
        c.req("KangarooTwelve: output", got, byts(H.kangarootwelve(sec, M, cu, 8 * len(got))))


def kt_misuse(c):
    for sec in (0, 1, 127, 129, 192, 255, 257, 512, -128, -256):
        fresh(c)
        c.at(f"KangarooTwelve security {sec}")
        s = inst(c, "KangarooTwelve_Instance")
        c.put(s, c.inp("inst", s.o.size))
        refused(c, "KangarooTwelve_Initialize", s, [], lambda: c.call("KangarooTwelve_Initialize", s, sec & 0xFFFFFFFF, 32))
        d, q = data(c, c.inp("msg", 5)), c.buf("output", 9, c.inp("prev", 9))
        refused(c, "KangarooTwelve", None, [q], lambda: c.call("KangarooTwelve", sec & 0xFFFFFFFF, d, 5, q, 9, NULL, 0))
    for sec in (128, 256):
        fresh(c)
        c.at(f"KangarooTwelve {sec}: no output length")
        d, q = data(c, c.inp("msg", 5)), c.buf("output", 9, c.inp("prev", 9))
        refused(c, "KangarooTwelve", None, [q], lambda: c.call("KangarooTwelve", sec, d, 5, q, 0, NULL, 0))
        for n in (0, 5, 8192, 8193, 8192 * 2, 8192 * 3 + 1):
            for fixed in (0, 32):
                fresh(c)
                c.at(f"KangarooTwelve {sec} misuse, {n} bytes, output length {fixed}")
                s = inst(c, "KangarooTwelve_Instance")
                ok(c, "KangarooTwelve_Initialize", c.call("KangarooTwelve_Initialize", s, sec, fixed))
                (p, m), (u, cu) = bitdata(c, 8 * n), bitdata(c, 24, "custom")
                ok(c, "KangarooTwelve_Update", c.call("KangarooTwelve_Update", s, p, n))
                q = c.buf("output", 40, c.inp("prev", 40))
                refused(c, "Squeeze before Final", s, [q], lambda: c.call("KangarooTwelve_Squeeze", s, q, 8))
                w = outb(c, fixed)
                ok(c, "KangarooTwelve_Final", c.call("KangarooTwelve_Final", s, w, u, 3))
                want = byts(H.kangarootwelve(sec, m, cu, 8 * 200))
                c.req("KangarooTwelve: output", c.get(w, fixed), want[:fixed])
                pos = 0
                for k in ((0, 1, 167, 0) if not fixed else (0, 0)):
                    for x in (0, 1, 5):
                        if x <= n:
                            refused(c, "Update after Final", s, [], lambda: c.call("KangarooTwelve_Update", s, p, x))
                    refused(c, "Final twice", s, [q], lambda: c.call("KangarooTwelve_Final", s, q, u, 3))
                    if fixed:
                        refused(c, "Squeeze of a fixed-length output", s, [q], lambda: c.call("KangarooTwelve_Squeeze", s, q, 8))
                    else:
                        z = outb(c, k)
                        ok(c, "Squeeze", c.call("KangarooTwelve_Squeeze", s, z, k))
                        c.req("KangarooTwelve: output", c.get(z, k), want[pos:pos + k])
                        pos += k


# ---- length encodings
def encoding(c, fn, left, zero=1):
    """contract of a length encoder (static function, when it is there under this name and type): every value of size_t"""
    if c.native or not c.has(fn) or [t[:2] for t in c.m.defs[fn].fn(fn).params] not in ([("p",), ("i", 64)], [("p", 0), ("i", 64)]):
        return
    for h in range(-1, 64):
        fresh(c)
        c.at(f"{fn} of a {h + 1}-bit value")
        v = bt.bits_of(bt.var(64), 64)[:max(h, 0)] + (1,) * (h >= 0) + (0,) * (64 - h - (h >= 0) - (h < 0))
        v = tuple(v[:64])
        n = max(zero, (h + 8) // 8)
        q = outb(c, n + 1, "encbuf")
        c.reqi(f"{fn}: length", c.call(fn, q, bt.mk(v)), n + 1)
        be = [bt.mk(v[8 * i:8 * i + 8]) for i in reversed(range(n))]
        c.req(f"{fn}: bytes", c.get(q, n + 1), [n] + be if left else be + [n])


def long_strings(c, cases):
    """strings whose length takes three bytes and more to encode; [(function, security, bits)], the string being constant"""
    for what, sec, n in cases:
        fresh(c)
        c.at(f"{what}{sec}, {n} bits")
        z = c.buf("long", n // 8, [0] * (n // 8), ro=True)
        Z = [0] * n
        q = outb(c, 8)
        if what == "cSHAKE":
            ok(c, what, c.call(f"cSHAKE{sec}", NULL, 0, q, 64, NULL, 0, z, n))
            w = H.cshake(sec, [], 64, [], Z)
        elif what == "KMAC":
            ok(c, what, c.call(f"KMAC{sec}", z, n, NULL, 0, q, 64, NULL, 0))
            w = H.kmac(sec, Z, [], 64, [], False)
        else:
            t = c.buf("tuple", 16, None, align=8)
            putptr(c, t, z)
            c.put(c.off(t, 8), list(n.to_bytes(8, "little")))
            ok(c, what, c.call(f"TupleHash{sec}", t, 1, q, 64, NULL, 0))
            w = H.tuplehash(sec, [Z], 64, [], False)
        c.req(f"{what}: value", c.get(q, 8), byts(w))


# ---- SP 800-185
def _squeezes(c, fn, s, outs, want):
    """outs in bits, only the last one partial"""
    pos = 0
    for o in outs:
        w = outb(c, (o + 7) // 8)
        ok(c, fn, c.call(fn, s, w, o))
        c.req(f"{fn}: output", c.get(w, (o + 7) // 8), byts(want[pos:pos + o]))
        pos += o


def cshake_oneshot(c, cases):
    """[(security, input bits, output bits, name bytes, custom bits)]"""
    for sec, n, o, nl, cl in cases:
        fresh(c)
        c.at(f"cSHAKE{sec} of {n} bits, output {o} bits, name {nl} bytes, customization {cl} bits")
        (p, m), (pn, nm), (pc, cu) = bitdata(c, n), bitdata(c, 8 * nl, "name"), cleandata(c, cl, "custom")
        q = outb(c, (o + 7) // 8)
        ok(c, f"cSHAKE{sec}", c.call(f"cSHAKE{sec}", p, n, q, o, pn, 8 * nl, pc, cl))
        c.req(f"cSHAKE{sec}: value", c.get(q, (o + 7) // 8), byts(H.cshake(sec, m, o, nm, cu)))


def cshake(c, cases):
    """[(security, pieces in bits, fixed output bits, squeezed bits, name bytes, custom bits)]"""
    for sec, pieces, fixed, outs, nl, cl in cases:
        fresh(c)
        c.at(f"cSHAKE{sec}: update {pieces} bits, output {fixed or outs} bits, name {nl} bytes, customization {cl} bits")
        (pn, nm), (pc, cu) = bitdata(c, 8 * nl, "name"), cleandata(c, cl, "custom")
        s = inst(c, "cSHAKE_Instance")
        ok(c, "Initialize", c.call(f"cSHAKE{sec}_Initialize", s, fixed, pn, 8 * nl, pc, cl))
        M = []
        for n in pieces:
            p, b = bitdata(c, n)
            ok(c, "Update", c.call(f"cSHAKE{sec}_Update", s, p, n))
            M += b
        q = outb(c, (fixed + 7) // 8)
        ok(c, "Final", c.call(f"cSHAKE{sec}_Final", s, q))
        want = H.cshake(sec, M, fixed or sum(outs), nm, cu)
        c.req(f"cSHAKE{sec}: value", c.get(q, (fixed + 7) // 8), byts(want[:fixed]))
        if not fixed:
            _squeezes(c, f"cSHAKE{sec}_Squeeze", s, outs, want)


def kmac_oneshot(c, cases):
    """[(security, key bits, input bytes, output bits, custom bits)]"""
    for sec, kl, n, o, cl in cases:
        fresh(c)
        c.at(f"KMAC{sec} key {kl} bits, input {n} bytes, output {o} bits, customization {cl} bits")
        (pk, key), (p, m), (pc, cu) = cleandata(c, kl, "key"), bitdata(c, 8 * n), cleandata(c, cl, "custom")
        q = outb(c, (o + 7) // 8)
        ok(c, f"KMAC{sec}", c.call(f"KMAC{sec}", pk, kl, p, 8 * n, q, o, pc, cl))
        c.req(f"KMAC{sec}: value", c.get(q, (o + 7) // 8), byts(H.kmac(sec, key, m, o, cu, False)))


def kmac(c, cases):
    """[(security, key bits, pieces in bytes, fixed output bits, squeezed bits, custom bits)]"""
    for sec, kl, pieces, fixed, outs, cl in cases:
        fresh(c)
        c.at(f"KMAC{sec}: key {kl} bits, update {pieces} bytes, output {fixed or outs} bits, customization {cl} bits")
        (pk, key), (pc, cu) = cleandata(c, kl, "key"), cleandata(c, cl, "custom")
        s = inst(c, "KMAC_Instance")
        ok(c, "Initialize", c.call(f"KMAC{sec}_Initialize", s, pk, kl, fixed, pc, cl))
        M = []
        for n in pieces:
            p, b = bitdata(c, 8 * n)
            ok(c, "Update", c.call(f"KMAC{sec}_Update", s, p, 8 * n))
            M += b
        q = outb(c, (fixed + 7) // 8)
        ok(c, "Final", c.call(f"KMAC{sec}_Final", s, q))
        want = H.kmac(sec, key, M, fixed or sum(outs), cu, not fixed)
        c.req(f"KMAC{sec}: value", c.get(q, (fixed + 7) // 8), byts(want[:fixed]))
        if not fixed:
            _squeezes(c, f"KMAC{sec}_Squeeze", s, outs, want)


def _tuple(c, lens):
    el, X = [], []
    for n in lens:
        p, b = bitdata(c, 8 * n, "element")
        el.append((p, n))
        X.append(b)
    t = c.buf("tuple", 16 * len(lens), None, align=8)
    for i, (p, n) in enumerate(el):
        putptr(c, c.off(t, 16 * i), p)
        c.put(c.off(t, 16 * i + 8), list((8 * n).to_bytes(8, "little")))
    return t, X


def putptr(c, at, p):
    if c.native:
        c.put(at, list(p.addr.to_bytes(8, "little")))
    else:
        c.m.storep(at, p)


def tuplehash_oneshot(c, cases):
    """[(security, element lengths in bytes, output bits, custom bits)]"""
    for sec, ls, o, cl in cases:
        fresh(c)
        c.at(f"TupleHash{sec} of {ls}, output {o} bits, customization {cl} bits")
        t, X = _tuple(c, ls)
        pc, cu = cleandata(c, cl, "custom")
        q = outb(c, (o + 7) // 8)
        ok(c, f"TupleHash{sec}", c.call(f"TupleHash{sec}", t, len(ls), q, o, pc, cl))
        c.req(f"TupleHash{sec}: value", c.get(q, (o + 7) // 8), byts(H.tuplehash(sec, X, o, cu, False)))


def tuplehash(c, cases):
    """[(security, [element lengths per update], fixed, squeezes, custom bits)]"""
    for sec, ups, fixed, outs, cl in cases:
        fresh(c)
        c.at(f"TupleHash{sec}: update {ups}, output {fixed or outs} bits, customization {cl} bits")
        pc, cu = cleandata(c, cl, "custom")
        s = inst(c, "TupleHash_Instance")
        ok(c, "Initialize", c.call(f"TupleHash{sec}_Initialize", s, fixed, pc, cl))
        X = []
        for ls in ups:
            t, x = _tuple(c, ls)
            ok(c, "Update", c.call(f"TupleHash{sec}_Update", s, t, len(ls)))
            X += x
        q = outb(c, (fixed + 7) // 8)
        ok(c, "Final", c.call(f"TupleHash{sec}_Final", s, q))
        want = H.tuplehash(sec, X, fixed or sum(outs), cu, not fixed)
        c.req(f"TupleHash{sec}: value", c.get(q, (fixed + 7) // 8), byts(want[:fixed]))
        if not fixed:
            _squeezes(c, f"TupleHash{sec}_Squeeze", s, outs, want)


def _after_final(c, kind, sec, s, fixed, want, calls, outs=(0, 8, 24, 5)):
    """phases after Final: no more input, no second Final; Squeeze only when no length was fixed, until a partial byte"""
    fn = f"{kind}{sec}"
    q = c.buf("output", 40, c.inp("prev", 40))
    pos, closed = 0, bool(fixed)
    for o in list(outs) + [8]:
        for what, f in calls:
            refused(c, f"{fn} {what} after Final", s, [q], f)
        refused(c, f"{fn}_Final twice", s, [q], lambda: c.call(f"{fn}_Final", s, q))
        if closed:
            refused(c, f"{fn}_Squeeze at the end", s, [q], lambda: c.call(f"{fn}_Squeeze", s, q, o))
        else:
            w = outb(c, (o + 7) // 8)
            ok(c, f"{fn}_Squeeze", c.call(f"{fn}_Squeeze", s, w, o))
            c.req(f"{fn}_Squeeze: output", c.get(w, (o + 7) // 8), byts(want[pos:pos + o]))
            pos += o
            closed = o % 8 != 0


def sp_phases(c):
    for sec in (128, 256):
        for fixed in (0, 64, 13):
            for part in (0, 3):
                fresh(c)
                c.at(f"cSHAKE{sec} phases, output length {fixed}, last piece of {40 + part} bits")
                s = inst(c, "cSHAKE_Instance")
                pn, nm = bitdata(c, 16, "name")
                ok(c, "Initialize", c.call(f"cSHAKE{sec}_Initialize", s, fixed, pn, 16, NULL, 0))
                q = c.buf("output", 40, c.inp("prev", 40))
                refused(c, "Squeeze before Final", s, [q], lambda: c.call(f"cSHAKE{sec}_Squeeze", s, q, 8))
                p, m = bitdata(c, 40 + part)
                ok(c, "Update", c.call(f"cSHAKE{sec}_Update", s, p, 40 + part))
                if part:
                    for n in (0, 8, 3):
                        refused(c, "Update after a partial byte", s, [], lambda: c.call(f"cSHAKE{sec}_Update", s, p, n))
                w = outb(c, (fixed + 7) // 8)
                ok(c, "Final", c.call(f"cSHAKE{sec}_Final", s, w))
                want = H.cshake(sec, m, 1000, nm, [])
                c.req("Final: output", c.get(w, (fixed + 7) // 8), byts(want[:fixed]))
                _after_final(c, "cSHAKE", sec, s, fixed, want, [("Update", lambda: c.call(f"cSHAKE{sec}_Update", s, p, 16)),
                                                                ("Update", lambda: c.call(f"cSHAKE{sec}_Update", s, p, 0))])
            fresh(c)
            c.at(f"KMAC{sec} phases, output length {fixed}")
            s = inst(c, "KMAC_Instance")
            (pk, key), (p, m), (pc, cu) = bitdata(c, 128, "key"), bitdata(c, 40), bitdata(c, 24, "custom")
            ok(c, "Initialize", c.call(f"KMAC{sec}_Initialize", s, pk, 128, fixed, pc, 24))
            q = c.buf("output", 40, c.inp("prev", 40))
            refused(c, "Squeeze before Final", s, [q], lambda: c.call(f"KMAC{sec}_Squeeze", s, q, 8))
            refused(c, "Update of 9 bits", s, [], lambda: c.call(f"KMAC{sec}_Update", s, p, 9))
            ok(c, "Update", c.call(f"KMAC{sec}_Update", s, p, 40))
            w = outb(c, (fixed + 7) // 8)
            ok(c, "Final", c.call(f"KMAC{sec}_Final", s, w))
            want = H.kmac(sec, key, m, fixed or 1000, cu, not fixed)
            c.req("Final: output", c.get(w, (fixed + 7) // 8), byts(want[:fixed]))
            _after_final(c, "KMAC", sec, s, fixed, want, [("Update", lambda: c.call(f"KMAC{sec}_Update", s, p, 8)),
                                                          ("Update", lambda: c.call(f"KMAC{sec}_Update", s, p, 0))])
            fresh(c)
            c.at(f"TupleHash{sec} phases, output length {fixed}")
            s = inst(c, "TupleHash_Instance")
            t, X = _tuple(c, (3, 0))
            pc, cu = bitdata(c, 24, "custom")
            ok(c, "Initialize", c.call(f"TupleHash{sec}_Initialize", s, fixed, pc, 24))
            q = c.buf("output", 40, c.inp("prev", 40))
            refused(c, "Squeeze before Final", s, [q], lambda: c.call(f"TupleHash{sec}_Squeeze", s, q, 8))
            ok(c, "Update", c.call(f"TupleHash{sec}_Update", s, t, 2))
            w = outb(c, (fixed + 7) // 8)
            ok(c, "Final", c.call(f"TupleHash{sec}_Final", s, w))
            want = H.tuplehash(sec, X, fixed or 1000, cu, not fixed)
            c.req("Final: output", c.get(w, (fixed + 7) // 8), byts(want[:fixed]))
            _after_final(c, "TupleHash", sec, s, fixed, want, [("Update", lambda: c.call(f"TupleHash{sec}_Update", s, t, 1))])
        # refused arguments
        fresh(c)
        c.at(f"SP 800-185 refused arguments, {sec}")
        q = c.buf("output", 40, c.inp("prev", 40))
        (p, m), (t, X) = bitdata(c, 40), _tuple(c, (3, 1))
        refused(c, "cSHAKE without output", None, [q], lambda: c.call(f"cSHAKE{sec}", p, 40, q, 0, p, 8, p, 8))
        refused(c, "KMAC without output", None, [q], lambda: c.call(f"KMAC{sec}", p, 40, p, 8, q, 0, p, 8))
        refused(c, "KMAC of 9 bits", None, [q], lambda: c.call(f"KMAC{sec}", p, 40, p, 9, q, 80, p, 8))
        refused(c, "TupleHash without output", None, [q], lambda: c.call(f"TupleHash{sec}", t, 2, q, 0, p, 8))
        for k in (1, 4, 9, 15):
            refused(c, f"cSHAKE name of {k} bits", None, [q], lambda: c.call(f"cSHAKE{sec}", p, 40, q, 80, p, k, p, 8))
            s = inst(c, "cSHAKE_Instance")
            c.put(s, c.inp("inst", s.o.size))
            refused(c, f"cSHAKE name of {k} bits", s, [], lambda: c.call(f"cSHAKE{sec}_Initialize", s, 80, p, k, p, 8))


def ph_oneshot(c, cases):
    """[(security, bytes, block, output bits, custom bits)]"""
    for sec, n, B, o, cl in cases:
        fresh(c)
        c.at(f"ParallelHash{sec} of {n} bytes, block {B}, output {o} bits, customization {cl} bits")
        (p, m), (pc, cu) = bitdata(c, 8 * n), cleandata(c, cl, "custom")
        q = outb(c, (o + 7) // 8)
        ok(c, f"ParallelHash{sec}", c.call(f"ParallelHash{sec}", p, 8 * n, B, q, o, pc, cl))
        c.req(f"ParallelHash{sec}: value", c.get(q, (o + 7) // 8), byts(H.parallelhash(sec, m, B, o, cu, False)))


def ph(c, cases):
    """[(security, pieces in bytes, block, fixed, squeezes, custom bits)]"""
    for sec, pieces, B, fixed, outs, cl in cases:
        fresh(c)
        c.at(f"ParallelHash{sec}: update {pieces} bytes, block {B}, output {fixed or outs} bits, customization {cl} bits")
        pc, cu = cleandata(c, cl, "custom")
        s = inst(c, "ParallelHash_Instance")
        ok(c, "Initialize", c.call(f"ParallelHash{sec}_Initialize", s, B, fixed, pc, cl))
        M = []
        for n in pieces:
            p, b = bitdata(c, 8 * n)
            ok(c, "Update", c.call(f"ParallelHash{sec}_Update", s, p, 8 * n))
            M += b
        q = outb(c, (fixed + 7) // 8)
        ok(c, "Final", c.call(f"ParallelHash{sec}_Final", s, q))
        want = H.parallelhash(sec, M, B, fixed or sum(outs), cu, not fixed)
        c.req(f"ParallelHash{sec}: value", c.get(q, (fixed + 7) // 8), byts(want[:fixed]))
        if not fixed:
            _squeezes(c, f"ParallelHash{sec}_Squeeze", s, outs, want)


def ph_misuse(c):
    for sec in (128, 256):
        for B in list(range(8)) + [9, 12, 24, 100, 1000, (1 << 32) + 8, (1 << 63) + 8, (1 << 64) - 1]:
            fresh(c)
            c.at(f"ParallelHash{sec} block {B}")
            s = inst(c, "ParallelHash_Instance")
            c.put(s, c.inp("inst", s.o.size))
            refused(c, "Initialize", s, [], lambda: c.call(f"ParallelHash{sec}_Initialize", s, B, 64, NULL, 0))
            p, _ = bitdata(c, 40)
            q = c.buf("output", 40, c.inp("prev", 40))
            refused(c, "ParallelHash", None, [q], lambda: c.call(f"ParallelHash{sec}", p, 40, B, q, 64, NULL, 0))
        fresh(c)
        c.at(f"ParallelHash{sec} refused arguments")
        p, _ = bitdata(c, 40)
        q = c.buf("output", 40, c.inp("prev", 40))
        refused(c, "no output", None, [q], lambda: c.call(f"ParallelHash{sec}", p, 40, 8, q, 0, NULL, 0))
        refused(c, "9 bits", None, [q], lambda: c.call(f"ParallelHash{sec}", p, 9, 8, q, 64, NULL, 0))
        for fixed in (0, 64, 13):
            for n in (0, 5, 8, 12):
                fresh(c)
                c.at(f"ParallelHash{sec} phases, output length {fixed}, {n} bytes")
                s = inst(c, "ParallelHash_Instance")
                (p, m), (pc, cu) = bitdata(c, 8 * n + 8), bitdata(c, 24, "custom")
                ok(c, "Initialize", c.call(f"ParallelHash{sec}_Initialize", s, 8, fixed, pc, 24))
                q = c.buf("output", 40, c.inp("prev", 40))
                refused(c, "Squeeze before Final", s, [q], lambda: c.call(f"ParallelHash{sec}_Squeeze", s, q, 8))
                for k in (1, 7):
                    refused(c, f"Update of {k} bits", s, [], lambda: c.call(f"ParallelHash{sec}_Update", s, p, k))
                ok(c, "Update", c.call(f"ParallelHash{sec}_Update", s, p, 8 * n))
                w = outb(c, (fixed + 7) // 8)
                ok(c, "Final", c.call(f"ParallelHash{sec}_Final", s, w))
                want = H.parallelhash(sec, m[:8 * n], 8, fixed or 1000, cu, not fixed)
                c.req("Final: output", c.get(w, (fixed + 7) // 8), byts(want[:fixed]))
                _after_final(c, "ParallelHash", sec, s, fixed, want, [("Update", lambda: c.call(f"ParallelHash{sec}_Update", s, p, 8)),
                                                                      ("Update", lambda: c.call(f"ParallelHash{sec}_Update", s, p, 0))])
