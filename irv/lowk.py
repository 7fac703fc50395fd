"""Contracts of the bulk kernels of the low-level layer (fast absorbing loops, Farfalle kernels, K12 leaves, Xoodyak full
blocks), stated block by block over the abstract state: what the kernel does is what the scalar definition does."""
import functools

from . import bits as bt, hspec
from .low import Impl, state, E_all, xb, keccak, xoodoo

bob, bib = hspec.bytes_of_bits, hspec.bits_of_bytes


def nblocks(n, need, step):
    return (n - need) // step + 1 if n >= need else 0


def fastloop(c, pfx, fn, nr, cases):
    """{E = s, |data| = n} KeccakX_FastLoop_Absorb(laneCount, data, n) {E = s absorbing every whole block of laneCount lanes}"""
    for cnt, k, tail in cases:
        c.fresh()
        I = Impl(pfx)
        st, _ = state(c, I)
        e = E_all(c, I, st)[0]
        n = cnt * 8 * k + tail
        data = c.inp("data", n)
        d = c.buf("data", n, data, ro=True)
        c.at(f"{fn} laneCount {cnt} dataByteLen {n}")
        m = cnt * 8
        for i in range(k):
            e = I.perm(xb(e[:m], data[i * m:(i + 1) * m]) + e[m:], nr)
        r = c.call(fn, st, cnt, d, n)
        c.reqi(f"{fn}: bytes processed", r, k * m, 64)
        c.req(f"{fn}: whole blocks absorbed", E_all(c, I, st)[0], e)


def fastloop_all(c, pfx, fn, nr, cnt):
    """fastloop for every data length"""
    if c.native:
        return fastloop(c, pfx, fn, nr, [(cnt, k, t) for k in (0, 1, 2, 5, 33) for t in (0, cnt * 8 - 1)])
    I = Impl(pfx)
    st, _ = state(c, I)
    e = E_all(c, I, st)[0]
    n, m = c.length("dataByteLen"), cnt * 8
    d = c.stream("data", n, ro=True)
    c.at(f"{fn} laneCount {cnt}, every dataByteLen")
    c.loop(e, lambda S, j: I.perm(xb(S[:m], c.sbytes(d, j * m, m)) + S[m:], nr), d.o, m)
    r = c.call(fn, st, cnt, d, n)
    N = c.quot(n, m)
    c.reql(f"{fn}: bytes processed", r, N * m)
    c.req(f"{fn}: whole blocks absorbed", E_all(c, I, st)[0], c.final(fn, N))


def fastloop_par(c, pfx, par, fn, nr, cases):
    """the same over P instances, block i of instance k at lane i*laneOffsetSerial + k*laneOffsetParallel"""
    for cnt, lop, los, k, tail in cases:
        c.fresh()
        I = Impl(pfx, par)
        st, _ = state(c, I)
        es = E_all(c, I, st)
        need = ((par - 1) * lop + cnt) * 8
        n = need + (k - 1) * los * 8 + tail if k else need - 1
        assert nblocks(n, need, los * 8) == k
        data = c.inp("data", n)
        d = c.buf("data", n, data, ro=True)
        c.at(f"{fn} laneCount {cnt} laneOffsetParallel {lop} laneOffsetSerial {los} dataByteLen {n}")
        m = cnt * 8
        for i in range(k):
            for j in range(par):
                o = (i * los + j * lop) * 8
                es[j] = I.perm(xb(es[j][:m], data[o:o + m]) + es[j][m:], nr)
        r = c.call(fn, st, cnt, lop, los, d, n)
        c.reqi(f"{fn}: bytes processed", r, k * los * 8, 64)
        got = E_all(c, I, st)
        for j in range(par):
            c.req(f"{fn}: whole blocks absorbed, instance {j}", got[j], es[j])


def fastloop_par_all(c, pfx, par, fn, nr, cnt, lop, los):
    """fastloop_par for every data length; the serial offset is at most the span of one round of blocks"""
    if c.native:
        return fastloop_par(c, pfx, par, fn, nr, [(cnt, lop, los, k, t) for k in (0, 1, 2, 5, 33) for t in (0, los * 8 - 1)])
    I = Impl(pfx, par)
    st, _ = state(c, I)
    e = [x for y in E_all(c, I, st) for x in y]
    n, m, W = c.length("dataByteLen"), cnt * 8, I.width
    d = c.stream("data", n, ro=True)
    c.at(f"{fn} laneCount {cnt} laneOffsetParallel {lop} laneOffsetSerial {los}, every dataByteLen")

    def step(S, j):
        out = []
        for k in range(par):
            s = S[k * W:(k + 1) * W]
            out += I.perm(xb(s[:m], c.sbytes(d, j * (los * 8) + k * lop * 8, m)) + s[m:], nr)
        return out
    c.loop(e, step, d.o, los * 8)
    r = c.call(fn, st, cnt, lop, los, d, n)
    need = ((par - 1) * lop + cnt) * 8
    N = c.quot(n - need, los * 8) + 1 if c.holds(n, ">=", need) else 0
    c.reql(f"{fn}: bytes processed", r, N * (los * 8))
    c.req(f"{fn}: whole blocks absorbed", [x for y in E_all(c, I, st) for x in y], c.final(fn, N))


def rolled(H, k, n):
    """k and its n images under the (nonlinear) rolling function, each new word named"""
    out = [k]
    for _ in range(n):
        out.append([bt.define(l) if type(l) is int else l for l in H.rolle(out[-1])])
    return out


def compress_all(c, F, par, fn, swap=False, align=1):
    """compress for every length of at least one group"""
    if c.native:
        return compress(c, F, par, fn, [(k, t) for k in (1, 2, 5, 33) for t in (0, 17)], swap, align)
    H, W, p = unit(F)
    x, kr = c.inp("x", W), c.inp("k", W)
    bx, bk = c.buf("xAccu", W, x, align=align), c.buf("kRoll", W, kr, align=align)
    n = c.length("length", par * W)
    d = c.stream("data", n, ro=True)
    c.at(f"{fn}, every length")

    # ghosts: the sum over the blocks at position t of each group
    def step(S, j):
        x, k, A = S[:W], S[W:2 * W], S[2 * W:]
        out = []
        for t in range(par):
            y = p(xb(k, c.sbytes(d, j * (par * W) + t * W, W)))
            x = xb(x, y)
            out += xb(A[t * W:(t + 1) * W], y)
            k = bob(H.rollc(bib(k)))
        return x + k + out
    total = lambda S: functools.reduce(xb, [S[2 * W + t * W:2 * W + (t + 1) * W] for t in range(par)])
    sp = c.loop(x + kr + [0] * (par * W), step, d.o, par * W)
    r = c.call(fn, *((bk, bx) if swap else (bx, bk)), d, n)
    N = c.quot(n, par * W)
    c.reql(f"{fn}: bytes processed", r, N * (par * W))
    S0 = sp.S
    S = c.final(fn, N)
    S1 = step(S0, sp.done)
    c.req(f"{fn}: lemma: the sum of the partial sums grows as the accumulator does", xb(S1[:W], total(S1)), xb(S0[:W], total(S0)))
    got = c.get(bx, W)
    c.req(f"{fn}: accumulator", got, S[:W] if got == S[:W] else xb(x, total(S)))
    c.req(f"{fn}: rolled key", c.get(bk, W), S[W:2 * W])


def expand_all(c, F, par, fn, align=1):
    """expand for every length of at least one group"""
    if c.native:
        return expand(c, F, par, fn, [(k, t) for k in (1, 2, 5, 33) for t in (0, 17)], align)
    H, W, p = unit(F)
    y, kr = c.inp("y", W), c.inp("k", W)
    by, bk = c.buf("yAccu", W, y, align=align), c.buf("kRoll", W, kr, align=align, ro=True)
    n = c.length("length", par * W)
    d = c.stream("output", n)
    c.at(f"{fn}, every length")

    def step(S, j):
        return bob(rolled(H, bib(S), par)[-1])

    def writes(S, j):
        out = []
        for t, y in enumerate(rolled(H, bib(S), par)[:par]):
            o = xb(p(bob(y)), kr)
            out += [(d.o, d.off + j * (par * W) + (t * W + b), v) for b, v in enumerate(o)]
        return out
    c.loop(y, step, d.o, par * W, writes)
    r = c.call(fn, by, bk, d, n)
    N = c.quot(n, par * W)
    c.reql(f"{fn}: bytes processed", r, N * (par * W))
    c.req(f"{fn}: accumulator", c.get(by, W), c.final(fn, N))
    c.final_writes(fn, N)


def unit(F):
    return (hspec.Kravatte, 25 * 8, lambda b: keccak(b, 6)) if F == "Kravatte" else (hspec.Xoofff, 48, lambda b: xoodoo(b, 6))


def compress(c, F, par, fn, cases, swap=False, align=1):
    """x += sum of p(k_i + m_i), k rolled once per block, for every whole group of P blocks"""
    H, W, p = unit(F)
    for k, tail in cases:
        c.fresh()
        n = par * W * k + tail
        x, kr, data = c.inp("x", W), c.inp("k", W), c.inp("data", n)
        bx, bk = c.buf("xAccu", W, x, align=align), c.buf("kRoll", W, kr, align=align)
        d = c.buf("data", n, data, ro=True)
        c.at(f"{fn} length {n}")
        for i in range(par * k):
            x = xb(x, p(xb(kr, data[i * W:(i + 1) * W])))
            kr = bob(H.rollc(bib(kr)))
        r = c.call(fn, *((bk, bx) if swap else (bx, bk)), d, n)
        c.reqi(f"{fn}: bytes processed", r, par * W * k, 64)
        c.req(f"{fn}: accumulator", c.get(bx, W), x)
        c.req(f"{fn}: rolled key", c.get(bk, W), kr)


def expand(c, F, par, fn, cases, align=1):
    """output block i = p(y_i) + k, y rolled once per block"""
    H, W, p = unit(F)
    for k, tail in cases:
        c.fresh()
        n = par * W * k + tail
        y, kr = c.inp("y", W), c.inp("k", W)
        by, bk = c.buf("yAccu", W, y, align=align), c.buf("kRoll", W, kr, align=align, ro=True)
        prev = c.inp("prev", n)
        d = c.buf("output", n, prev)
        c.at(f"{fn} length {n}")
        out = []
        if c.native:
            for i in range(par * k):
                out += xb(p(y), kr)
                y = bob(H.rolle(bib(y)))
        else:
            ys = rolled(H, bib(y), par * k)
            for z in ys[:-1]:
                out += xb(p(bob(z)), kr)
            y = bob(ys[-1])
        r = c.call(fn, by, bk, d, n)
        c.reqi(f"{fn}: bytes processed", r, par * W * k, 64)
        c.req(f"{fn}: output, and nothing after it", c.get(d, n), out + prev[len(out):])
        c.req(f"{fn}: accumulator", c.get(by, W), y)


def add_is(c, fn, lens):
    """output += input on bitLen bits; the unused bits of a partial last byte come out zero"""
    for n in lens:
        B = (n + 7) // 8
        a, b = c.inp("out", B), c.inp("in", B)
        o, i = c.buf("output", B, a), c.buf("input", B, b, ro=True)
        c.at(f"{fn} bitLen {n}")
        c.call(fn, o, i, n)
        want = xb(a, b)
        if n % 8:
            want[-1] = bt.wand(want[-1], (1 << n % 8) - 1, 8)
        c.req(f"{fn}: sum", c.get(o, B), want)


def leaves(c, sec, fn, par):
    """P chunks of 8192 bytes -> P chaining values: TurboSHAKE(chunk, 0x0B)"""
    R, cv = 200 - sec // 4, sec // 4
    n = 8192 * par
    data = c.inp("data", n)
    d = c.buf("input", n, data, ro=True)
    q = c.buf("output", cv * par, [0] * (cv * par))
    c.at(fn)
    want = []
    for j in range(par):
        x = data[8192 * j:8192 * (j + 1)]
        e = [0] * 200
        for i in range(0, 8192 - R + 1, R):
            e = keccak(xb(e[:R], x[i:i + R]) + e[R:], 12)
        last = x[8192 // R * R:] + [0x0B]
        last += [0] * (R - len(last))
        last[-1] = bt.wxor(last[-1], 0x80, 8)
        e = keccak(xb(e[:R], last) + e[R:], 12)
        want.append(e[:cv])
    c.call(fn, d, q)
    for j in range(par):
        c.req(f"{fn}: chaining value {j}", c.get(c.off(q, cv * j), cv), want[j])


def leaves_all(c, sec, fn, par):
    """leaves, the loop over the blocks being cut"""
    if c.native:
        return leaves(c, sec, fn, par)
    R, cv = 200 - sec // 4, sec // 4
    n, nb = 8192 * par, 8192 // R
    d = c.stream("input", n, ro=True)
    q = c.buf("output", cv * par, [0] * (cv * par))
    c.at(fn)

    def step(S, j):
        out = []
        for t in range(par):
            s = S[200 * t:200 * t + 200]
            out += keccak(xb(s[:R], c.sbytes(d, j * R + 8192 * t, R)) + s[R:], 12)
        return out

    def finish(S, j):
        out = []
        for t in range(par):
            x = c.sbytes(d, j * R + 8192 * t, 8192 - nb * R) + [0x0B]
            x += [0] * (R - len(x))
            x[-1] = bt.wxor(x[-1], 0x80, 8)
            s = S[200 * t:200 * t + 200]
            out.append(keccak(xb(s[:R], x) + s[R:], 12)[:cv])
        return out
    sp = c.loop([0] * (200 * par), step, d.o, R, auto=True, finish=finish)
    c.call(fn, d, q)
    S = c.final(fn, nb)
    want = finish(S, sp.done if S is sp.S else nb)
    for t in range(par):
        c.req(f"{fn}: chaining value {t}", c.get(c.off(q, cv * t), cv), want[t])


def xoodyak_all(c, op, inplace=False):
    """xoodyak for every length of at least one block"""
    pfx, fn = "Xoodoo", f"Xoodyak_{op}FullBlocks"
    R = {"AbsorbKeyed": 44, "AbsorbHash": 16, "SqueezeKeyed": 24, "SqueezeHash": 16, "Encrypt": 24, "Decrypt": 24}[op]
    if c.native:
        return xoodyak(c, op, [(k, t, inplace) for k in (1, 2, 3, 6, 33) for t in (0, R - 1)])
    I = Impl(pfx)
    st, _ = state(c, I)
    e = E_all(c, I, st)[0]
    n = c.length("length", R)
    c.at(f"{fn}, every length" + (" in place" if inplace else ""))

    def down(e, x):
        x = x + [1]
        return xb(e[:len(x)], x) + e[len(x):]
    w = None
    if op.startswith("Absorb"):
        d = c.stream("X", n, ro=True)
        step = lambda S, j: down(xoodoo(S, 12), c.sbytes(d, j * R, R))
        args = (st, d, n)
    elif op.startswith("Squeeze"):
        d = c.stream("Y", n)
        step = lambda S, j: xoodoo(down(S, []), 12)
        w = lambda S, j: [(d.o, d.off + j * R + b, v) for b, v in enumerate(step(S, j)[:R])]
        args = (st, d, n)
    else:
        q = d = c.stream("IO", n) if inplace else c.stream("I", n, ro=True)
        if not inplace:
            q = c.stream("O", n)

        def both(S, j):
            S = xoodoo(S, 12)
            x = c.sbytes0(d, j * R, R)
            o = xb(x, S[:R])
            return o, down(S, x if op == "Encrypt" else o)
        step = lambda S, j: both(S, j)[1]
        w = lambda S, j: [(q.o, q.off + j * R + b, v) for b, v in enumerate(both(S, j)[0])]
        args = (st, d, q, n)
    c.loop(e, step, d.o, R, w)
    r = c.call(fn, *args)
    N = c.quot(n, R)
    c.reql(f"{fn}: bytes processed", r, N * R)
    S = c.final(fn, N)
    c.req(f"{fn}: state", E_all(c, I, st)[0], S)
    c.final_writes(fn, N)


def xoodyak(c, op, cases):
    """the full-block loops of Xoodyak: Up / Down of Cyclist with colours zero"""
    pfx, fn = "Xoodoo", f"Xoodyak_{op}FullBlocks"
    keyed = "Keyed" in op or op in ("Encrypt", "Decrypt")
    R = {"AbsorbKeyed": 44, "AbsorbHash": 16, "SqueezeKeyed": 24, "SqueezeHash": 16, "Encrypt": 24, "Decrypt": 24}[op]
    for k, tail, inplace in cases:
        c.fresh()
        I = Impl(pfx)
        st, _ = state(c, I)
        e = E_all(c, I, st)[0]
        n = k * R + tail
        data = c.inp("data", n)
        c.at(f"{fn} length {n}" + (" in place" if inplace else ""))
        out = []

        def down(e, x):
            x = x + [1]
            return xb(e[:len(x)], x) + e[len(x):]
        if op.startswith("Absorb"):
            d = c.buf("X", n, data, ro=True)
            for i in range(k):
                e = down(xoodoo(e, 12), data[i * R:(i + 1) * R])
            r = c.call(fn, st, d, n)
        elif op.startswith("Squeeze"):
            d = c.buf("Y", n, data)
            for i in range(k):
                e = xoodoo(down(e, []), 12)
                out += e[:R]
            r = c.call(fn, st, d, n)
            c.req(f"{fn}: output", c.get(d, n), out + data[len(out):])
        else:
            if inplace:
                q = d = c.buf("IO", n, data)
                prev = data
            else:
                prev = c.inp("prev", n)
                d, q = c.buf("I", n, data, ro=True), c.buf("O", n, prev)
            for i in range(k):
                e = xoodoo(e, 12)
                x = data[i * R:(i + 1) * R]
                o = xb(x, e[:R])
                out += o
                e = down(e, x if op == "Encrypt" else o)
            r = c.call(fn, st, d, q, n)
            c.req(f"{fn}: output", c.get(q, n), out + prev[len(out):])
        c.reqi(f"{fn}: bytes processed", r, k * R, 64)
        c.req(f"{fn}: state", E_all(c, I, st)[0], e)
