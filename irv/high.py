"""Scenarios for the functions of lib/high, decided against the contracts of the low-level layer (irv/hl.py) and the
specifications of irv/hspec.py. Data, keys and states are symbolic; lengths and parameters are enumerated."""
from . import build, hl, hspec as H, targets as T, bits as bt
from .exec import NULL
from .run import Job
from .si import SIMachine

TARGETS = ["generic64", "reference", "reference32bits", "compact", "generic32", "generic64lc", "SSSE3", "AVX", "XOP", "AVX2",
           "AVX2noAsm", "AVX512", "AVX512noAsm"]


def contracts(job):
    return hl.all_contracts()


def sources(conf):
    return [s for s, _ in conf.cs if s.startswith("lib/high/")]


def configs(frag, roots, targets=None):
    """build targets whose code below the roots differs -> [(fragments, sources, [other targets with the same code])]"""
    confs, srcs = [], None
    for t in T.present(targets or TARGETS):
        fr = (t, frag)
        srcs = sources(build.Conf(*fr))
        confs.append(fr)
    out = {}
    for fr in confs:
        try:
            k = T.fingerprint(fr, roots, srcs)
        except Exception:
            k = fr
        out.setdefault(k, []).append(fr)
    return [(v[0], srcs, [x[0] for x in v[1:]]) for v in out.values()]


def has_low(target, what):
    return what in build.Conf(target).config


def jobs(pid, frag, hdr, types, scens, roots=None, targets=None, bounded=None, strict=False, timeout=700, thin=1):
    """scens: [(name, function, kw, weight[, True: only for the main target, False: only for the others])]; one job per scenario and per distinct code; thin: the
    targets other than the main one get every thin-th case, each another share"""
    out = []
    for ti, (fr, srcs, same) in enumerate(configs(frag, roots, targets) if roots else [((t, frag), sources(build.Conf(t, frag)), []) for t in T.present(targets)]):
        fl = f"-DHDR=\"{hdr}\" " + " ".join(f"-DT{i + 1}={t}" for i, t in enumerate(types)) + " " + T.mflags(fr)
        main = fr[0] == "generic64"
        for name, f, kw, w, *where in scens:
            if where and where[0] != main:
                continue
            if "cases" in kw and thin > 1 and not main:
                kw = dict(kw, cases=kw["cases"][ti % thin::thin])
            j = Job(f"{fr[0]}:{name}", fr, f, kw, srcs=srcs, harness=[("high.c", fl)], weight=w, contracts=contracts,
                    bounded=bounded, strict=strict, timeout=timeout)
            anylen(j)
            out.append(j)
    return out


def anylen(j):
    """contracts for any length: discharged with loop invariants; the bounded form stands in where no invariant is found"""
    f, kw = j.scen, j.kw
    if getattr(f, "anylen", False):
        j.engine, j.bounded = SIMachine, None
        j.fallback = (f, dict(kw, short=True), "lengths up to some blocks")
        if "eager" in f.__code__.co_varnames[:f.__code__.co_argcount]:
            j.alts = [dict(kw, eager=not kw.get("eager", True))]


def inst(c, t, name="instance"):
    n, a = c.call(f"w_sizeof_{t}") & 0xFFFFFFFF, c.call(f"w_alignof_{t}") & 0xFFFFFFFF
    return c.buf(name, n, None, align=a)


def fresh(c):
    """start of an independent sub-scenario"""
    c.inputs = {}
    if c.native:
        c.bufs.clear()
    else:
        bt.reset()
        c.m.globs.clear()


def data(c, vals, name="data"):
    return c.buf(name, len(vals), vals, ro=True)


def outb(c, n, name="output"):
    return c.buf(name, n, None)


def ok(c, what, r):
    c.reqi(f"{what}: success", r, 0)


def refused(c, what, inst_, bufs, call, code=1):
    """the call fails and leaves the instance and the buffers as they were"""
    ps = ([inst_] if inst_ is not None else []) + bufs
    before = [c.snapshot(p) for p in ps]
    c.reqi(f"{what}: refused", call(), code)
    for p, b in zip(ps, before):
        c.same(f"{what}: {p.o.name} unchanged", p, b)


def sp_params(c, pfx, lo, hi):
    """acceptance of (rate, capacity): exactly the byte-aligned rates of the width"""
    for rate in range(lo, hi):
        for cap in {1600 - rate, 1600 - rate + 1, 1600 - rate - 8, -rate, 1600}:
            rt, cp = rate & 0xFFFFFFFF, cap & 0xFFFFFFFF
            good = cap == 1600 - rate and 0 < rate <= 1600 and rate % 8 == 0
            fresh(c)
            c.at(f"{pfx} rate {rt} capacity {cp}")
            d, q = data(c, c.inp("msg", 5)), c.buf("output", 9, c.inp("prev", 9))
            s = inst(c, f"{pfx}_SpongeInstance")
            if good:
                ok(c, "SpongeInitialize", c.call(f"{pfx}_SpongeInitialize", s, rt, cp))
                ok(c, "Sponge", c.call(f"{pfx}_Sponge", rt, cp, d, 5, 0x06, q, 9))
            else:
                c.put(s, c.inp("inst", s.o.size))
                refused(c, "SpongeInitialize", s, [], lambda: c.call(f"{pfx}_SpongeInitialize", s, rt, cp))
                refused(c, "Sponge", None, [q], lambda: c.call(f"{pfx}_Sponge", rt, cp, d, 5, 0x06, q, 9))


def bits(vals):
    return H.bits_of_bytes(vals)


def byts(b):
    return H.bytes_of_bits(b)


def lens(r, k=0):
    """interesting lengths for a byte position k in blocks of r bytes"""
    s = {0, 1, 2, 7, 8, 9, r - k - 1, r - k, r - k + 1, r - 1, r, r + 1, 2 * r - k - 1, 2 * r - k, 2 * r - k + 1, 2 * r, 3 * r - k,
         3 * r - k + 1}
    return sorted(x for x in s if x >= 0)


# ---- sponge
def sp_oneshot(c, pfx, nr, rate, ns, suffixes, outs):
    r = rate // 8
    for n in ns:
        for sfx in suffixes:
            for o in outs:
                fresh(c)
                c.at(f"{pfx}_Sponge rate {rate} input {n} suffix {sfx:#x} output {o}")
                d = c.inp("msg", n)
                p, q = data(c, d), outb(c, o)
                ok(c, f"{pfx}_Sponge", c.call(f"{pfx}_Sponge", rate, 1600 - rate, p, n, sfx, q, o))
                c.req(f"{pfx}_Sponge: sponge[Keccak-p[1600,{nr}]]", c.get(q, o), byts(H.sponge(bits(d), H.delimited(sfx), rate, 8 * o, nr)))


def sp_rates(c, pfx, nr, rates):
    """one call and in pieces, at every rate"""
    for rate in rates:
        r = rate // 8
        sp_oneshot(c, pfx, nr, rate, sorted({0, 1, r - 1, r, r + 1, 2 * r}), (1, 0x1F, 0x80), (0, r, 2 * r + 1))
        sp_split(c, pfx, nr, rate, [(1, r, r - 1, r)], [(r, 1, r)])


def sp_new(c, pfx, rate):
    s = inst(c, f"{pfx}_SpongeInstance")
    ok(c, f"{pfx}_SpongeInitialize", c.call(f"{pfx}_SpongeInitialize", s, rate, 1600 - rate))
    return s


def sp_absorb(c, pfx, s, S, n):
    d = c.inp("msg", n)
    p = data(c, d)
    ok(c, f"{pfx}_SpongeAbsorb", c.call(f"{pfx}_SpongeAbsorb", s, p, n))
    S.absorb(bits(d))


def sp_squeeze(c, pfx, s, S, n):
    q = outb(c, n)
    ok(c, f"{pfx}_SpongeSqueeze", c.call(f"{pfx}_SpongeSqueeze", s, q, n))
    if S.sq is None:
        S.finish([])
    c.req(f"{pfx}_SpongeSqueeze: output", c.get(q, n), byts(S.squeeze(8 * n)))


def sp_absorb_all(c, pfx, nr, rate, ks, ns, out=None):
    """any position k in the block (state arbitrary: one whole block before), one absorb of n bytes; observed by the output"""
    r = rate // 8
    for k in ks:
        for n in ns(r, k):
            fresh(c)
            c.at(f"{pfx} rate {rate}: absorb of {n} at position {k}")
            s, S = sp_new(c, pfx, rate), H.Sponge(rate, nr)
            sp_absorb(c, pfx, s, S, r + k)
            sp_absorb(c, pfx, s, S, n)
            ok(c, "AbsorbLastFewBits", c.call(f"{pfx}_SpongeAbsorbLastFewBits", s, 0x06))
            S.finish(H.delimited(6))
            sp_squeeze(c, pfx, s, S, r if out is None else out)


def sp_squeeze_all(c, pfx, nr, rate, ks, ns):
    """any position k in the output block, squeezes of n and one more byte"""
    r = rate // 8
    for k in ks:
        for n in ns(r, k):
            fresh(c)
            c.at(f"{pfx} rate {rate}: squeeze of {n} at position {k}")
            s, S = sp_new(c, pfx, rate), H.Sponge(rate, nr)
            sp_absorb(c, pfx, s, S, 3)
            sp_squeeze(c, pfx, s, S, k)
            sp_squeeze(c, pfx, s, S, n)
            sp_squeeze(c, pfx, s, S, 1)


def sp_last(c, pfx, nr, rate, ks, suffixes):
    """suffix and padding at every position"""
    r = rate // 8
    for k in ks:
        for x in suffixes:
            fresh(c)
            c.at(f"{pfx} rate {rate}: last bits {x:#x} at position {k}")
            s, S = sp_new(c, pfx, rate), H.Sponge(rate, nr)
            sp_absorb(c, pfx, s, S, k)
            ok(c, "AbsorbLastFewBits", c.call(f"{pfx}_SpongeAbsorbLastFewBits", s, x))
            S.finish(H.delimited(x))
            sp_squeeze(c, pfx, s, S, r + 1)


def sp_split(c, pfx, nr, rate, pieces, outs):
    for ps in pieces:
        for os_ in outs:
            fresh(c)
            c.at(f"{pfx} rate {rate}: absorb {ps}, squeeze {os_}")
            s, S = sp_new(c, pfx, rate), H.Sponge(rate, nr)
            for n in ps:
                sp_absorb(c, pfx, s, S, n)
            for n in os_:
                sp_squeeze(c, pfx, s, S, n)


def sp_misuse(c, pfx, nr):
    """C11"""
    P = [(0, 1600), (1600, 1), (1608, (1 << 32) - 8), (1, 1599), (7, 1593), (4, 1596), (1599, 1), (1608, 0), (2400, (1 << 32) - 800), (576, 1023),
         (576, 1025), ((1 << 32) - 8, 1608), (0, 0), (1088, 0), (0xFFFFFFF8, 0x648)]
    for rate, cap in P:
        fresh(c)
        c.at(f"{pfx} rate {rate} capacity {cap}")
        s = inst(c, f"{pfx}_SpongeInstance")
        c.put(s, c.inp("inst", s.o.size))
        refused(c, f"{pfx}_SpongeInitialize", s, [], lambda: c.call(f"{pfx}_SpongeInitialize", s, rate, cap))
        d, q = data(c, c.inp("msg", 5)), c.buf("output", 9, c.inp("prev", 9))
        refused(c, f"{pfx}_Sponge", None, [q], lambda: c.call(f"{pfx}_Sponge", rate, cap, d, 5, 0x06, q, 9))
    for rate in (8, 16, 64, 72, 576, 1088, 1344, 1592, 1600):
        fresh(c)
        r = rate // 8
        c.at(f"{pfx} rate {rate} misuse")
        d, q = data(c, c.inp("msg", r)), c.buf("output", 9, c.inp("prev", 9))
        refused(c, f"{pfx}_Sponge, no suffix", None, [q], lambda: c.call(f"{pfx}_Sponge", rate, 1600 - rate, d, r, 0, q, 9))
        s, S = sp_new(c, pfx, rate), H.Sponge(rate, nr)
        sp_absorb(c, pfx, s, S, r + 1)
        refused(c, "AbsorbLastFewBits(0)", s, [], lambda: c.call(f"{pfx}_SpongeAbsorbLastFewBits", s, 0))
        sp_absorb(c, pfx, s, S, r)
        ok(c, "AbsorbLastFewBits", c.call(f"{pfx}_SpongeAbsorbLastFewBits", s, 0x1F))
        S.finish(H.delimited(0x1F))
        for k in (0, 1, r - 1, r, r + 1):
            sp_squeeze(c, pfx, s, S, k)
            for n in sorted({0, 1, r}):
                refused(c, "Absorb after squeeze", s, [], lambda: c.call(f"{pfx}_SpongeAbsorb", s, d, n))
            refused(c, "AbsorbLastFewBits after squeeze", s, [], lambda: c.call(f"{pfx}_SpongeAbsorbLastFewBits", s, 0x06))
            refused(c, "AbsorbLastFewBits after squeeze", s, [], lambda: c.call(f"{pfx}_SpongeAbsorbLastFewBits", s, 0))
        sp_squeeze(c, pfx, s, S, r)


# ---- any length
UNROLL = 3


def some_rem(c, R, r, rem):
    """quick tier: some of the lengths of the last, partial block"""
    if rem is not None:
        import z3
        from .si import Z
        c.m.fact(z3.Or([Z(R) == x % r for x in rem]))


def any_absorb(c, S, r, call, rem=None, state=None, step=None):
    """{S} call(data, N) {S absorbing N bytes} for every N; S has the whole state S.S and the queue S.q"""
    c.m.unroll = UNROLL
    k = len(S.q) // 8
    N = c.length("dataByteLen")
    d = c.stream("data", N, ro=True)
    first = r - k if k else 0
    if first and not c.holds(N, ">=", first):
        some_rem(c, N, first, rem)
        n = c.m.conc(N)
        c.m.spec = None
        call(d, N)
        S.absorb(bits(c.sbytes(d, 0, n)))
        return
    if first:
        S.absorb(bits(c.sbytes(d, 0, first)))
    Q, R = c.m.divmod(N - first, r)
    some_rem(c, R, r, rem)

    def step(st, j):
        T = S.copy()
        T.S, T.q = bits(st), []
        T.absorb(bits(c.sbytes(d, first + j * r, r)))
        return byts(T.S)
    c.loop(byts(S.S), step, d.o, r, base=first)
    call(d, N)
    S.S = bits(c.final("blocks absorbed", Q))
    R = c.m.conc(R)
    S.absorb(bits(c.sbytes(d, first + Q * r, R)))
    c.m.spec = None


def any_squeeze(c, S, r, call, rem=None, eager=False):
    """{S} call(output, N) {output = the next N bytes} for every N; S.S is the state, S.sq what is left of its block; eager: the loop permutes
    after a block and not before (whole blocks left only)"""
    c.m.unroll = UNROLL
    N = c.length("outputByteLen")
    d = c.stream("output", N)
    a = len(S.sq) // 8
    if eager and a == r:
        Q, R = c.m.divmod(N, r)
        some_rem(c, R, r, rem)

        def perm(st):
            T = S.copy()
            T.S, T.sq = bits(st), []
            T.squeeze(8)
            return byts(T.S)
        c.loop(byts(S.S), lambda st, j: perm(st), d.o, r, writes=lambda st, j: [(d.o, j * r + i, v) for i, v in enumerate(st[:r])])
        call(d, N)
        S.S = bits(c.final("blocks squeezed", Q))
        S.sq = S.S[:8 * r]
        R = c.m.conc(R)
        c.final_cells("output", d.o, Q * r, byts(S.squeeze(8 * R)))
        c.m.spec = None
        return
    if not c.holds(N, ">=", a + 1):
        some_rem(c, N, a + 1, rem)
        n = c.m.conc(N)
        from .si import Spec
        c.m.spec = None
        call(d, N)
        c.m.spec = Spec([], None, d.o, r)
        c.final_cells("output", d.o, 0, byts(S.squeeze(8 * n)))
        c.m.spec = None
        return
    pre = byts(S.sq)
    Q, R = c.m.divmod(N - a, r)
    some_rem(c, R, r, rem)

    def step(st, j):
        T = S.copy()
        T.S, T.sq = bits(st), []
        T.squeeze(8 * r)
        return byts(T.S)

    def writes(st, j):
        T = S.copy()
        T.S, T.sq = bits(st), []
        return [(d.o, a + j * r + i, v) for i, v in enumerate(byts(T.squeeze(8 * r)))]
    sp = c.loop(byts(S.S), step, d.o, r, writes=writes, base=a, prefix=[(d.o, i, v) for i, v in enumerate(pre)])
    call(d, N)
    S.S, S.sq = bits(c.final("blocks squeezed", Q)), []
    R = c.m.conc(R)
    T = S.copy()
    c.final_cells("output", d.o, a + Q * r, byts(T.squeeze(8 * R)))
    S.__dict__.update(T.__dict__)
    c.m.spec = None


def sp_absorb_any(c, pfx, nr, rate, k, rem=None, short=False):
    """position k in the block, any state, one absorb of any length"""
    r = rate // 8
    c.at(f"{pfx} rate {rate}: absorb of any length at position {k}")
    if c.native or short:
        sp_absorb_all(c, pfx, nr, rate, [k], lens)
        return sp_huge(c, pfx, rate, k) if c.native else None
    s, S = sp_new(c, pfx, rate), H.Sponge(rate, nr)
    sp_absorb(c, pfx, s, S, r + k)
    any_absorb(c, S, r, lambda d, n: ok(c, f"{pfx}_SpongeAbsorb", c.call(f"{pfx}_SpongeAbsorb", s, d, n)), rem)
    ok(c, "AbsorbLastFewBits", c.call(f"{pfx}_SpongeAbsorbLastFewBits", s, 0x06))
    S.finish(H.delimited(6))
    sp_squeeze(c, pfx, s, S, r)


def sp_squeeze_any(c, pfx, nr, rate, k, rem=None, short=False):
    r = rate // 8
    c.at(f"{pfx} rate {rate}: squeeze of any length at position {k}")
    if c.native or short:
        sp_squeeze_all(c, pfx, nr, rate, [k], lens)
        return
    s, S = sp_new(c, pfx, rate), H.Sponge(rate, nr)
    sp_absorb(c, pfx, s, S, 3)
    sp_squeeze(c, pfx, s, S, k)
    any_squeeze(c, S, r, lambda d, n: ok(c, f"{pfx}_SpongeSqueeze", c.call(f"{pfx}_SpongeSqueeze", s, d, n)), rem)
    sp_squeeze(c, pfx, s, S, 1)


def huge(c, what, n, run):
    """native: n bytes (more than 4 GiB) in one call and in several must give the same"""
    import time
    if c.seed not in (0, 100):
        return
    c.bufs.clear()
    c.inputs = {}
    d = c.zeros("data", n)
    c.at(f"{what}: {n} zero bytes, in one call and in several")
    t = time.time()
    a = c.timed(what, lambda: run(d, 1 << 30), 100)
    b = c.timed(what, lambda: run(d, n), 10 + 3 * (time.time() - t))
    c.req(f"{what}: value", b, a)


def sp_huge(c, pfx, rate, k):
    n = (1 << 32) + rate // 8 + 5

    def run(d, piece):
        s = inst(c, f"{pfx}_SpongeInstance")
        ok(c, f"{pfx}_SpongeInitialize", c.call(f"{pfx}_SpongeInitialize", s, rate, 1600 - rate))
        ok(c, f"{pfx}_SpongeAbsorb", c.call(f"{pfx}_SpongeAbsorb", s, d, k))
        for i in range(0, n, piece):
            ok(c, f"{pfx}_SpongeAbsorb", c.call(f"{pfx}_SpongeAbsorb", s, c.off(d, i), min(piece, n - i)))
        q = outb(c, 32)
        ok(c, f"{pfx}_SpongeSqueeze", c.call(f"{pfx}_SpongeSqueeze", s, q, 32))
        return c.get(q, 32)
    huge(c, f"{pfx}_SpongeAbsorb rate {rate} at position {k}", n, run)


# ---- one call, message or output of any length
def any_oneshot(c, what, r, nr, suffix, outs, call, rem=None):
    """call(data, N, output, m) = sponge(data || suffix)[m] for every N"""
    for m in outs:
        S = H.Sponge(8 * r, nr)
        c.at(f"{what}: message of any length, output of {m}")
        q = outb(c, m)
        any_absorb(c, S, r, lambda d, n: call(d, n, q, m), rem)
        S.finish(suffix)
        c.req(f"{what}: value", c.get(q, m), byts(S.squeeze(8 * m)))


def any_output(c, what, r, nr, suffix, n, call, rem=None, eager=True):
    """the same for a message of n bytes and any output length"""
    c.at(f"{what}: message of {n}, output of any length")
    m = c.inp("msg", n)
    p, S = data(c, m), H.Sponge(8 * r, nr)
    S.absorb(bits(m))
    S.finish(suffix)
    any_squeeze(c, S, r, lambda q, N: call(p, n, q, N), rem, eager)


def sp_oneshot_any(c, pfx, nr, rate, m=9, rem=None, short=False):
    if c.native or short:
        return sp_oneshot(c, pfx, nr, rate, lens(rate // 8), (0x1F,), (m,))
    any_oneshot(c, f"{pfx}_Sponge", rate // 8, nr, H.delimited(0x1F), (m,), lambda d, n, q, k: ok(
        c, f"{pfx}_Sponge", c.call(f"{pfx}_Sponge", rate, 1600 - rate, d, n, 0x1F, q, k)), rem)


def sp_output_any(c, pfx, nr, rate, n=3, rem=None, eager=True, short=False):
    if c.native or short:
        return sp_oneshot(c, pfx, nr, rate, (n,), (0x1F,), lens(rate // 8))
    any_output(c, f"{pfx}_Sponge", rate // 8, nr, H.delimited(0x1F), n, lambda d, k, q, N: ok(
        c, f"{pfx}_Sponge", c.call(f"{pfx}_Sponge", rate, 1600 - rate, d, k, 0x1F, q, N)), rem, eager)


for _f in (sp_absorb_any, sp_squeeze_any, sp_oneshot_any, sp_output_any):
    _f.anylen = True
