"""Contracts of the low-level layer (SnP / PlSnP), as seen by the functions of lib/high.

A state is held in its object as the standard byte string (lane-interleaved for parallel instances); a permutation is an
uninterpreted function of the 1600 or 384 state bits (the real one when all bits are constants). Preconditions (offset and
length within the state, data within its object) are obligations of the caller. The contracts assumed here are the ones
decided for each implementation under C01 to C08."""
from . import bits as bt
from .bits import Part
from .exec import Ptr, Violation, NULL
from .ll import Unsupported
from . import hspec
from .si import Lin


def rd(m, p, n):
    """n bytes at p, each an int or a BV"""
    if n == 0:
        return []
    o, off = m.check(p, n)
    if hasattr(o, "cells"):
        return [x if type(x) is int else bt.mk(x.bits()) for x in (m.cell(o, off + i) for i in range(n))]
    out = []
    for i, x in enumerate(o.mem[off:off + n]):
        if type(x) is int:
            out.append(x)
        elif type(x) is Part:
            out.append(bt.mk(x.bits()))
        elif x is None:
            v = bt.var(8, "uninit")
            o.mem[off + i] = v.parts[0]
            out.append(v)
        else:
            raise Unsupported(f"not data: {x!r}")
    return out


def wr(m, p, vals):
    if not vals:
        return
    o, off = m.check(p, len(vals), True)
    if hasattr(o, "cells"):
        for i, v in enumerate(vals):
            o.cells[off + i] = v if type(v) is int else v.parts[0]
        return
    o.mem[off:off + len(vals)] = [v if type(v) is int else v.parts[0] for v in vals]


def cint(m, v, what, w=32):
    if type(v) is int:
        return v & (1 << w) - 1
    if type(v) is bt.BV and m.strict:
        raise Violation("secret-dependent-length", f"{what} computed from data")
    if type(v) is Lin:
        return m.conc(v)
    raise Unsupported(f"{what} is not a constant: {v!r}")


def pre(c, what):
    if not c:
        raise Violation("precondition", what)


def scalar(pfx, W, perm, out):
    """contracts of a scalar SnP implementation"""
    def add(name):
        def deco(f):
            out[pfx + name] = f
            return f
        return deco

    def rng(m, o, n, what):
        o, n = cint(m, o, what), cint(m, n, what)
        pre(o + n <= W, f"{pfx}{what}: offset {o} + length {n} > {W}")
        return o, n

    @add("_StaticInitialize")
    def _(m):
        return None

    @add("_Initialize")
    def _(m, st):
        wr(m, st, [0] * W)

    @add("_AddByte")
    def _(m, st, b, o):
        o, _n = rng(m, o, 1, "_AddByte")
        p = Ptr(st.o, st.off + o)
        wr(m, p, [bt.wxor(rd(m, p, 1)[0], b, 8)])

    @add("_AddBytes")
    def _(m, st, d, o, n):
        o, n = rng(m, o, n, "_AddBytes")
        x = rd(m, d, n)
        p = Ptr(st.o, st.off + o)
        wr(m, p, [bt.wxor(a, b, 8) for a, b in zip(rd(m, p, n), x)])

    @add("_OverwriteBytes")
    def _(m, st, d, o, n):
        o, n = rng(m, o, n, "_OverwriteBytes")
        wr(m, Ptr(st.o, st.off + o), rd(m, d, n))

    @add("_OverwriteWithZeroes")
    def _(m, st, n):
        _o, n = rng(m, 0, n, "_OverwriteWithZeroes")
        wr(m, st, [0] * n)

    @add("_ExtractBytes")
    def _(m, st, d, o, n):
        o, n = rng(m, o, n, "_ExtractBytes")
        wr(m, d, rd(m, Ptr(st.o, st.off + o), n))

    @add("_ExtractAndAddBytes")
    def _(m, st, a, d, o, n):
        o, n = rng(m, o, n, "_ExtractAndAddBytes")
        x = rd(m, a, n)
        wr(m, d, [bt.wxor(p, q, 8) for p, q in zip(rd(m, Ptr(st.o, st.off + o), n), x)])

    def permute(nr):
        def f(m, st):
            wr(m, st, perm(rd(m, st, W), nr))
        return f

    @add("_Permute_Nrounds")
    def _(m, st, nr):
        nr = cint(m, nr, "number of rounds")
        wr(m, st, perm(rd(m, st, W), nr))
    for nr in (6, 12, 24):
        add(f"_Permute_{nr}rounds")(permute(nr))


def parallel(pfx, P, W, L, perm, out):
    """contracts of a PlSnP implementation; state: lane i of instance k at (i*P + k)*L"""
    def add(name):
        def deco(f):
            out[pfx + name] = f
            return f
        return deco
    n_all = W * P
    idx = [[(((o // L) * P + k) * L + o % L) for o in range(W)] for k in range(P)]

    def inst(m, k):
        k = cint(m, k, "instance index")
        pre(k < P, f"{pfx}: instance index {k}")
        return idx[k]

    def cells(m, st):
        return rd(m, st, n_all)

    def put(m, st, j, vals):
        """vals at the byte positions j of the object"""
        o, off = m.check(st, n_all, True)
        for a, v in zip(j, vals):
            o.mem[off + a] = v if type(v) is int else v.parts[0]

    def get(m, st, j):
        o, off = m.check(st, n_all)
        out = []
        for a in j:
            x = o.mem[off + a]
            out.append(x if type(x) is int else bt.mk(x.bits()) if type(x) is Part else rd(m, Ptr(o, off + a), 1)[0])
        return out

    def rng(m, o, n, what):
        o, n = cint(m, o, what), cint(m, n, what)
        pre(o + n <= W, f"{pfx}{what}: offset {o} + length {n} > {W}")
        return o, n

    @add("_StaticInitialize")
    def _(m):
        return None

    @add("_InitializeAll")
    def _(m, st):
        wr(m, st, [0] * n_all)

    @add("_AddByte")
    def _(m, st, k, b, o):
        o, _n = rng(m, o, 1, "_AddByte")
        j = inst(m, k)[o:o + 1]
        put(m, st, j, [bt.wxor(get(m, st, j)[0], b, 8)])

    @add("_AddBytes")
    def _(m, st, k, d, o, n):
        o, n = rng(m, o, n, "_AddBytes")
        j = inst(m, k)[o:o + n]
        x = rd(m, d, n)
        put(m, st, j, [bt.wxor(a, b, 8) for a, b in zip(get(m, st, j), x)])

    @add("_OverwriteBytes")
    def _(m, st, k, d, o, n):
        o, n = rng(m, o, n, "_OverwriteBytes")
        put(m, st, inst(m, k)[o:o + n], rd(m, d, n))

    @add("_OverwriteWithZeroes")
    def _(m, st, k, n):
        _o, n = rng(m, 0, n, "_OverwriteWithZeroes")
        put(m, st, inst(m, k)[:n], [0] * n)

    @add("_ExtractBytes")
    def _(m, st, k, d, o, n):
        o, n = rng(m, o, n, "_ExtractBytes")
        wr(m, d, get(m, st, inst(m, k)[o:o + n]))

    @add("_ExtractAndAddBytes")
    def _(m, st, k, a, d, o, n):
        o, n = rng(m, o, n, "_ExtractAndAddBytes")
        x = rd(m, a, n)
        wr(m, d, [bt.wxor(p, q, 8) for p, q in zip(get(m, st, inst(m, k)[o:o + n]), x)])

    def lanes(m, cnt, lo, what):
        cnt, lo = cint(m, cnt, what), cint(m, lo, what)
        pre(cnt * L <= W, f"{pfx}{what}: laneCount {cnt}")
        return cnt * L, lo * L

    @add("_AddLanesAll")
    def _(m, st, d, cnt, lo):
        n, s = lanes(m, cnt, lo, "_AddLanesAll")
        xs = [rd(m, Ptr(d.o, d.off + k * s), n) for k in range(P)]
        for k in range(P):
            j = idx[k][:n]
            put(m, st, j, [bt.wxor(a, b, 8) for a, b in zip(get(m, st, j), xs[k])])

    @add("_OverwriteLanesAll")
    def _(m, st, d, cnt, lo):
        n, s = lanes(m, cnt, lo, "_OverwriteLanesAll")
        xs = [rd(m, Ptr(d.o, d.off + k * s), n) for k in range(P)]
        for k in range(P):
            put(m, st, idx[k][:n], xs[k])

    @add("_ExtractLanesAll")
    def _(m, st, d, cnt, lo):
        n, s = lanes(m, cnt, lo, "_ExtractLanesAll")
        pre(s >= n or n == 0, f"{pfx}_ExtractLanesAll: overlapping outputs")
        for k in range(P):
            wr(m, Ptr(d.o, d.off + k * s), get(m, st, idx[k][:n]))

    @add("_ExtractAndAddLanesAll")
    def _(m, st, a, d, cnt, lo):
        n, s = lanes(m, cnt, lo, "_ExtractAndAddLanesAll")
        pre(s >= n or n == 0, f"{pfx}_ExtractAndAddLanesAll: overlapping outputs")
        xs = [rd(m, Ptr(a.o, a.off + k * s), n) for k in range(P)]
        for k in range(P):
            wr(m, Ptr(d.o, d.off + k * s), [bt.wxor(p, q, 8) for p, q in zip(get(m, st, idx[k][:n]), xs[k])])

    def permute_all(m, st, nr):
        new = [perm(get(m, st, idx[k]), nr) for k in range(P)]
        for k in range(P):
            put(m, st, idx[k], new[k])

    for nr in (4, 6, 12, 24):
        add(f"_PermuteAll_{nr}rounds")((lambda nr: lambda m, st: permute_all(m, st, nr))(nr))

    @add("_PermuteAll_Nrounds")
    def _(m, st, nr):
        permute_all(m, st, cint(m, nr, "number of rounds"))

    def fastloop(nr):
        def f(m, st, cnt, lop, los, d, n):
            cnt, lop, los, n = cint(m, cnt, "laneCount"), cint(m, lop, "laneOffsetParallel"), cint(m, los, "laneOffsetSerial"), cint(m, n, "dataByteLen", 64)
            pre(0 < cnt <= W // L, "FastLoop_Absorb: laneCount")
            size = ((P - 1) * lop + cnt) * L
            done = 0
            while n >= size:
                out[pfx + "_AddLanesAll"](m, st, Ptr(d.o, d.off + done), cnt, lop)
                permute_all(m, st, nr)
                done += los * L
                n -= los * L
                pre(los > 0, "FastLoop_Absorb: laneOffsetSerial")
            return done
        return f
    if W == 200:
        out[f"KeccakF1600times{P}_FastLoop_Absorb"] = fastloop(24)
        add("_12rounds_FastLoop_Absorb")(fastloop(12))
        for lvl, rate, cap in ((128, 168, 32), (256, 136, 64)):
            def leaves(m, inp, outp, rate=rate, cap=cap):
                res = []
                for k in range(P):
                    d = hspec.bits_of_bytes(rd(m, Ptr(inp.o, inp.off + 8192 * k), 8192))
                    res += hspec.bytes_of_bits(hspec.sponge(d, hspec.delimited(0x0B), rate * 8, cap * 8, 12))
                wr(m, outp, res)
            add(f"_KT{lvl}ProcessLeaves")(leaves)


def farfalle(compress, expand, W, P, F, out):
    """contracts of bulk compression / expansion kernels"""
    def c(m, k, x, d, n, xfirst):
        if xfirst:
            k, x = x, k
        n = cint(m, n, "input length", 64)
        done = 0
        kr, xa = hspec.bits_of_bytes(rd(m, k, W)), hspec.bits_of_bytes(rd(m, x, W))
        while n - done >= P * W:
            for _i in range(P):
                b = hspec.bits_of_bytes(rd(m, Ptr(d.o, d.off + done), W))
                xa = hspec.xor(xa, F.perm(hspec.xor(b, kr)))
                kr = F.rollc(kr)
                done += W
        wr(m, k, hspec.bytes_of_bits(kr))
        wr(m, x, hspec.bytes_of_bits(xa))
        return done

    def e(m, y, k, d, n):
        n = cint(m, n, "output length", 64)
        done = 0
        kr, ya = hspec.bits_of_bytes(rd(m, k, W)), hspec.bits_of_bytes(rd(m, y, W))
        while n - done >= P * W:
            for _i in range(P):
                z = hspec.xor(F.perm(ya), kr)
                ya = F.rolle(ya)
                wr(m, Ptr(d.o, d.off + done), hspec.bytes_of_bits(z))
                done += W
        wr(m, y, hspec.bytes_of_bits(ya))
        return done
    out[compress] = lambda m, a, b, d, n: c(m, a, b, d, n, compress.startswith("Keccak"))
    out[expand] = e


def addis(m, o, i, nbits):
    nbits = cint(m, nbits, "bit length", 64)
    n = nbits // 8
    a, b = rd(m, o, n), rd(m, i, n)
    wr(m, o, [bt.wxor(x, y, 8) for x, y in zip(a, b)])
    if nbits % 8:
        p, q = Ptr(o.o, o.off + n), Ptr(i.o, i.off + n)
        wr(m, p, [bt.wand(bt.wxor(rd(m, p, 1)[0], rd(m, q, 1)[0], 8), (1 << nbits % 8) - 1, 8)])


def cyclist(out):
    """Xoodyak full-block kernels: whole blocks only, each block as in Cyclist"""
    perm = hspec.xoodoo_bytes

    def blocks(rate, step):
        def f(m, st, *a):
            bufs, n = a[:-1], cint(m, a[-1], "length", 64)
            pre(n >= rate, "full-block function called without a full block")
            done = 0
            while n - done >= rate:
                step(m, st, [Ptr(b.o, b.off + done) for b in bufs])
                done += rate
            return done
        return f

    def xorat(m, st, o, v):
        p = Ptr(st.o, st.off + o)
        wr(m, p, [bt.wxor(a, b, 8) for a, b in zip(rd(m, p, len(v)), v)])

    def up(m, st):
        wr(m, st, perm(rd(m, st, 48), 12))

    def absorb(rate):
        def f(m, st, b):
            up(m, st)
            xorat(m, st, 0, rd(m, b[0], rate) + [1])
        return f

    def squeeze(rate):
        def f(m, st, b):
            xorat(m, st, 0, [1])
            up(m, st)
            wr(m, b[0], rd(m, st, rate))
        return f

    def crypt(dec):
        def f(m, st, b):
            i = rd(m, b[0], 24)
            up(m, st)
            o = [bt.wxor(x, y, 8) for x, y in zip(i, rd(m, st, 24))]
            wr(m, b[1], o)
            xorat(m, st, 0, (o if dec else i) + [1])
        return f
    X = "Xoodyak_"
    out[X + "AbsorbKeyedFullBlocks"] = blocks(44, absorb(44))
    out[X + "AbsorbHashFullBlocks"] = blocks(16, absorb(16))
    out[X + "SqueezeKeyedFullBlocks"] = blocks(24, squeeze(24))
    out[X + "SqueezeHashFullBlocks"] = blocks(16, squeeze(16))
    out[X + "EncryptFullBlocks"] = blocks(24, crypt(False))
    out[X + "DecryptFullBlocks"] = blocks(24, crypt(True))


def all_contracts():
    out = {}
    scalar("KeccakP1600", 200, hspec.keccak_bytes, out)
    scalar("Xoodoo", 48, hspec.xoodoo_bytes, out)
    for P in (2, 4, 8):
        parallel(f"KeccakP1600times{P}", P, 200, 8, hspec.keccak_bytes, out)
        farfalle(f"KeccakP1600times{P}_KravatteCompress", f"KeccakP1600times{P}_KravatteExpand", 200, P, hspec.Kravatte, out)
    for P in (4, 8, 16):
        parallel(f"Xoodootimes{P}", P, 48, 4, hspec.xoodoo_bytes, out)
        farfalle(f"Xooffftimes{P}_CompressFastLoop", f"Xooffftimes{P}_ExpandFastLoop", 48, P, hspec.Xoofff, out)
        out[f"Xooffftimes{P}_AddIs"] = addis
    farfalle("Xoofff_CompressFastLoop", "Xoofff_ExpandFastLoop", 48, 1, hspec.Xoofff, out)
    out["Xoofff_AddIs"] = addis
    cyclist(out)

    def fast(nr):
        def f(m, st, cnt, d, n):
            cnt = cint(m, cnt, "laneCount")
            pre(0 < cnt <= 25, "FastLoop_Absorb: laneCount")
            if type(n) is Lin:
                return m.blocks(st, 200, d, n, cnt * 8)
            n = cint(m, n, "dataByteLen", 64)
            done = 0
            while n - done >= cnt * 8:
                out["KeccakP1600_AddBytes"](m, st, Ptr(d.o, d.off + done), 0, cnt * 8)
                wr(m, st, hspec.keccak_bytes(rd(m, st, 200), nr))
                done += cnt * 8
            return done
        return f
    out["KeccakF1600_FastLoop_Absorb"] = fast(24)
    out["KeccakP1600_12rounds_FastLoop_Absorb"] = fast(12)
    for f in ("displayBytes", "displayText", "displayStateAsBytes", "displayBits", "displayStateAsLanes"):
        out[f] = lambda m, *a: None
    return out
