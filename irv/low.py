"""Scenarios (contracts) of the low-level layer: permutations and state access of SnP / PlSnP implementations.

The contract of an implementation with prefix X is stated over the abstract state E(raw) := ExtractBytes(raw, 0, size),
so that it says nothing about the internal representation."""
from . import bits as bt, kspec


# ---- permutations on byte lists, symbolic or concrete
def to_words(E, w):
    return [bt.concat([(b, 8) for b in E[i:i + w]]) for i in range(0, len(E), w)]


def from_words(W, w):
    out = []
    for x in W:
        b = bt.bits_of(x, 8 * w)
        out.extend(bt.mk(b[8 * i:8 * i + 8]) for i in range(w))
    return out


def keccak(E, nr):
    if bt.TAINT and any(type(b) is not int for b in E):
        return [bt.var(8)] * len(E)
    if all(type(b) is int for b in E):
        return list(kspec.keccak_p_bytes(bytes(E), nr))
    A = [bt.bits_of(x, 64) for x in to_words(E, 8)]
    return from_words([bt.mk(t) for t in kspec.keccak_p_bits(A, nr)], 8)


def xoodoo(E, nr):
    if bt.TAINT and any(type(b) is not int for b in E):
        return [bt.var(8)] * len(E)
    if all(type(b) is int for b in E):
        return list(kspec.xoodoo_bytes(bytes(E), nr))
    A = [bt.bits_of(x, 32) for x in to_words(E, 4)]
    return from_words([bt.mk(t) for t in kspec.xoodoo_bits(A, nr)], 4)


def xb(a, b):
    return [bt.wxor(x, y, 8) for x, y in zip(a, b)]


class Impl:
    """an implementation under contract: prefix, width in bytes, lane size, parallelism"""

    def __init__(self, pfx, par=1):
        self.pfx, self.par = pfx, par
        self.kec = pfx.startswith("Keccak")
        self.width, self.lane = (200, 8) if self.kec else (48, 4)
        self.perm = keccak if self.kec else xoodoo


def state(c, I, init=None, name="state"):
    if c.has(I.pfx + "_StaticInitialize"):
        c.call(I.pfx + "_StaticInitialize")
    n, a = c.call(f"w_{I.pfx}_size"), c.call(f"w_{I.pfx}_align")
    n, a = n & 0xFFFFFFFF, a & 0xFFFFFFFF
    st = c.buf(name, n, c.inp("raw", n), align=a)
    return st, n


def extract(c, I, st, inst=None):
    d = c.buf("out", I.width, [0] * I.width)
    if inst is None:
        c.call(I.pfx + "_ExtractBytes", st, d, 0, I.width)
    else:
        c.call(I.pfx + "_ExtractBytes", st, inst, d, 0, I.width)
    return c.get(d, I.width)


class Abs:
    """The abstract state as a function of the raw state. When every abstract bit is a raw bit or its complement (found by
    running ExtractBytes once on an arbitrary raw state), E of a later raw state is computed by that map."""

    def __init__(self, c, I, st):
        self.c, self.I, self.st = c, I, st
        self.e0 = E_all(c, I, st)
        self.map = None
        if c.native or bt.TAINT:
            return
        self.raw = list(st.o.mem)
        where = {}
        for j, p in enumerate(self.raw):
            if type(p) is not bt.Part:
                return
            for k, l in enumerate(p.bits()):
                where[l & -2] = (j, k, l & 1)
        m, dep = [], {}
        for i, e in enumerate(self.e0):
            row = []
            for b, v in enumerate(e):
                r = []
                for l in bt.bits_of(v, 8):
                    w = where.get(l & -2)
                    if w is None:
                        return
                    r.append((w[0], w[1], w[2] ^ (l & 1)))
                    dep.setdefault(w[0], set()).add((i, b))
                row.append(r)
            m.append(row)
        self.map, self.dep = m, {k: sorted(v) for k, v in dep.items()}

    def after(self):
        if self.map is None:
            return E_all(self.c, self.I, self.st)
        mem = self.st.o.mem
        es = [list(e) for e in self.e0]
        todo = set()
        for j, (x, y) in enumerate(zip(mem, self.raw)):
            if x is not y:
                todo.update(self.dep.get(j, ()))
        cache = {}
        for i, b in todo:
            out = []
            for j, k, p in self.map[i][b]:
                x = cache.get(j)
                if x is None:
                    x = mem[j]
                    x = cache[j] = x.bits() if type(x) is bt.Part else bt.bits_of(x, 8) if type(x) is int else None
                    if x is None:
                        return E_all(self.c, self.I, self.st)
                out.append(x[k] ^ p)
            es[i][b] = bt.mk(tuple(out))
        return es


def E_all(c, I, st):
    if c.memonly:
        return [[0 if c.native else bt.var(8)] * I.width for _ in range(I.par)]
    return [extract(c, I, st, i if I.par > 1 else None) for i in range(I.par)]


def permute(c, pfx, par, fn, nr, arg=False):
    """{E = s} fn {E = Keccak-p[1600,nr](s)} ; nothing but the state is written"""
    I = Impl(pfx, par)
    st, n = state(c, I)
    e0 = E_all(c, I, st)
    c.at(f"{fn}{'(%d)' % nr if arg else ''}")
    want = [I.perm(e, nr) for e in e0]
    c.call(fn, st, *([nr] if arg else []))
    e1 = E_all(c, I, st)
    for i in range(par):
        c.req(f"{fn}: permutation, {nr} rounds" + (f", instance {i}" if par > 1 else ""), e1[i], want[i])


def permute_all(c, pfx, par, fns):
    for fn, nr, arg in fns:
        permute(c, pfx, par, fn, nr, arg)


def initialize(c, pfx, par, fn):
    I = Impl(pfx, par)
    st, n = state(c, I)
    c.at(fn)
    c.call(fn, st)
    for e in E_all(c, I, st):
        c.req(f"{fn}: all-zero state", e, [0] * I.width)


def offlens(I, part, parts, full=True):
    """all (offset, length) with offset + length <= width, dealt to `parts` jobs"""
    k = 0
    W, L = I.width, I.lane
    for o in range(W + 1):
        for l in range(W - o + 1):
            if full == "few":
                if not (o <= L or W // 2 - 2 <= o < W // 2 + L or o >= W - 2 * L - 1) or not (l <= 2 * L + 1 or o + l >= W - L - 1):
                    continue
            elif not full:
                # both ends in every position relative to a lane, across lane and plane boundaries
                if l > 2 * I.lane + 1 and (o + l) % I.lane not in (0, 1, I.lane - 1) and o % I.lane not in (0, 1, I.lane - 1):
                    continue
            if k % parts == part:
                yield o, l
            k += 1


def access(c, pfx, par, op, part=0, parts=1, full=True, insts=None):
    """byte access: exactly the bytes [offset, offset+length) of one instance"""
    I = Impl(pfx, par)
    st, n = state(c, I)
    raw = c.snapshot(st)
    A = Abs(c, I, st)
    e0 = A.e0
    P = par > 1
    W = I.width

    def reset():
        if c.native:
            c.put(st, raw)
        else:
            st.o.mem[:] = raw

    def others(i, tag):
        e = A.after()
        for k in range(par):
            if k != i:
                c.req(f"{tag}: other instances unchanged", e[k], e0[k])
        return e[i]
    data = c.inp("data", W)
    data2 = c.inp("data2", W)
    fn = f"{pfx}_{op}" if op != "AddByte" else f"w_{pfx}_AddByte"
    for i in (insts if insts is not None else range(par)):
        ii = [i] if P else []
        e = e0[i]
        if op == "AddByte":
            for o in range(W):
                if o % parts != part:
                    continue
                c.at(f"{op} instance {i} offset {o}")
                b = data[o]
                c.call(fn, st, *ii, b, o)
                got = others(i, op)
                c.req(f"{op}: adds the byte at offset", got, e[:o] + xb([e[o]], [b]) + e[o + 1:])
                reset()
        elif op == "OverwriteWithZeroes":
            for l in range(W + 1):
                if l % parts != part:
                    continue
                c.at(f"{op} instance {i} byteCount {l}")
                c.call(fn, st, *ii, l)
                got = others(i, op)
                c.req(f"{op}: zeroes the first bytes only", got, [0] * l + e[l:])
                reset()
        else:
            for o, l in offlens(I, part, parts, full):
                c.at(f"{op} instance {i} offset {o} length {l}")
                if op in ("AddBytes", "OverwriteBytes"):
                    d = c.buf("data", l, data[:l], ro=True)
                    c.call(fn, st, *ii, d, o, l)
                    got = others(i, op)
                    mid = xb(e[o:o + l], data[:l]) if op == "AddBytes" else data[:l]
                    c.req(f"{op}: exactly the addressed bytes", got, e[:o] + mid + e[o + l:])
                    reset()
                elif op == "ExtractBytes":
                    d = c.buf("data", l, data2[:l])
                    c.call(fn, st, *ii, d, o, l)
                    c.req(f"{op}: returns the addressed bytes", c.get(d, l), e[o:o + l])
                    c.req(f"{op}: state unchanged", c.snapshot(st), raw)
                elif op == "ExtractAndAddBytes":
                    want = xb(e[o:o + l], data[:l])
                    d = c.buf("input", l, data[:l], ro=True)
                    q = c.buf("output", l, data2[:l])
                    c.call(fn, st, *ii, d, q, o, l)
                    c.req(f"{op}: input xor state", c.get(q, l), want)
                    d = c.buf("inout", l, data[:l])
                    c.call(fn, st, *ii, d, d, o, l)
                    c.req(f"{op}: input xor state, in place", c.get(d, l), want)
                    c.req(f"{op}: state unchanged", c.snapshot(st), raw)
                if c.native:
                    c.bufs[:] = [b for b in c.bufs if b.name not in ("data", "input", "output", "inout")]


def lanes_all(c, pfx, par, op):
    """lane-parallel access at every laneCount and a set of strides"""
    I = Impl(pfx, par)
    st, n = state(c, I)
    raw = c.snapshot(st)
    A = Abs(c, I, st)
    e0 = A.e0
    L, NL = I.lane, I.width // I.lane
    fn = f"{pfx}_{op}"
    for cnt in range(NL + 1):
        for lo in sorted({cnt, cnt + 1, NL, NL + 3, 1} if cnt else {0, 1, NL}):
            if lo < cnt and op not in ("AddLanesAll", "OverwriteLanesAll"):
                continue
            # exactly what the contract designates: (par-1)*lo + cnt lanes, gaps excluded
            size = ((par - 1) * lo + cnt) * L if cnt else 0
            c.at(f"{op} laneCount {cnt} laneOffset {lo}")
            data = c.inp("data", size)
            at = [list(range(k * lo * L, k * lo * L + cnt * L)) for k in range(par)]
            if op in ("AddLanesAll", "OverwriteLanesAll"):
                d = c.buf("data", size, data, ro=True)
                c.call(fn, st, d, cnt, lo)
                e1 = A.after()
                for k in range(par):
                    x = [data[j] for j in at[k]]
                    m = cnt * L
                    want = (xb(e0[k][:m], x) if op == "AddLanesAll" else x) + e0[k][m:]
                    c.req(f"{op}: instance {k}", e1[k], want)
                if c.native:
                    c.put(st, raw)
                else:
                    st.o.mem[:] = raw
            else:
                out = c.inp("prev", size)
                want = list(out)
                for k in range(par):
                    for j, p in enumerate(at[k]):
                        want[p] = e0[k][j] if op == "ExtractLanesAll" else bt.wxor(e0[k][j], data[p], 8)
                q = c.buf("output", size, out)
                if op == "ExtractLanesAll":
                    c.call(fn, st, q, cnt, lo)
                    c.req(f"{op}: exactly the addressed lanes", c.get(q, size), want)
                else:
                    d = c.buf("input", size, data, ro=True)
                    c.call(fn, st, d, q, cnt, lo)
                    c.req(f"{op}: exactly the addressed lanes", c.get(q, size), want)
                    d = c.buf("inout", size, data)
                    c.call(fn, st, d, d, cnt, lo)
                    want2 = list(data)
                    for k in range(par):
                        for j, p in enumerate(at[k]):
                            want2[p] = want[p]
                    c.req(f"{op}: in place", c.get(d, size), want2)
                c.req(f"{op}: state unchanged", c.snapshot(st), raw)
            if c.native:
                c.bufs[:] = [b for b in c.bufs if b.name not in ("data", "input", "output", "inout")]
