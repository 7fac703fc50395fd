"""Bit-level symbolic values with a canonical form.

A literal is an int: 2*node + polarity, node 0 being the constant 0 (literal 0 = false, 1 = true). A node is a variable,
an AND of two positive nodes, or an XOR-set of non-XOR nodes. XOR is kept fully flattened (a set), AND distributes over
complement (so that lane complementing and De Morgan variants meet in one form), and a *definition* introduces a fresh
atom t := e by rewriting the leading AND of e to t + (e minus that AND); since AND nodes then vanish into linear
combinations, equality modulo the definitions is decided by comparing literals. All rewriting is equality-preserving, so
equal literals denote equal functions (soundness); different literals are passed on to simulation / SAT.
"""
import gc
import random

gc.disable()

SETS = {}      # even literal of an XOR node -> frozenset of even literals
SETID = {}     # frozenset -> even literal
XM = {}        # xor memo (even, even) -> even literal
AM = {}        # and memo (even, even) -> literal
ANDN = {}      # even literal of an AND node -> (even, even)
CONJ = {}      # even literal of a conjunction -> tuple of literals
_CJ = {}
FACT = {}      # even literal -> AND nodes and named atoms whose (leading) product has it as a factor
DPIV = {}      # named atom -> (leading product, rest of its definition)
DEFS = {}      # even literal of a defined atom -> literal it stands for
UFS = {}       # key -> tuple of literals (uninterpreted functions)
UFOUT = {}     # literal -> (application, position)
RANGES = []    # (first literal, last literal, label): variables
TRIPLES = True # products f&g, f&(f+g), g&(f+g) share one node
_next = 2
INTERN = {}    # bits tuple -> BV
_zero = {}


def reset():
    global _next
    for d in (SETS, SETID, XM, AM, ANDN, CONJ, _CJ, DEFS, FACT, DPIV, UFS, UFOUT, INTERN, _wm, _ib, _cm):
        d.clear()
    RANGES.clear()
    _next = 2


def alloc(n, label=""):
    """n fresh variables"""
    global _next
    b = _next
    _next += 2 * n
    RANGES.append((b, _next, label))
    return tuple(range(b, b + 2 * n, 2))


def _node():
    global _next
    b = _next
    _next += 2
    return b


def lxor(a, b):
    if a < 2:
        return b ^ a
    if b < 2:
        return a ^ b
    p = (a ^ b) & 1
    a &= -2
    b &= -2
    if a == b:
        return p
    k = (a, b) if a < b else (b, a)
    r = XM.get(k)
    if r is None:
        sa = SETS.get(a)
        sb = SETS.get(b)
        if sa is None:
            s = sb ^ {a} if sb is not None else frozenset(k)
        elif sb is None:
            s = sa ^ {b}
        else:
            s = sa ^ sb
        if len(s) == 1:
            (r,) = s
        elif not s:
            r = 0
        else:
            r = SETID.get(s)
            if r is None:
                r = _node()
                SETID[s] = r
                SETS[r] = s
        XM[k] = r
    return r ^ p


def _keeps(x, q):
    """x & q for q = f&g and x one of f, g, f+g (+1): True if it is q, False if it is 0"""
    k = ANDN[q]
    return True if x in k else bool(lxor(*k) & 1)


def _and0(a, b):
    """AND of two distinct positive non-constant literals"""
    k = (a, b) if a < b else (b, a)
    r = AM.get(k)
    if r is None:
        # absorption: a & (a&c) = a&c ; a & (s + a&c) = a&s + a&c, also through named atoms
        for x, y in ((a, b), (b, a)):
            d = ANDN.get(y)
            if d is not None and x in d:
                AM[k] = y
                return y
            f = FACT.get(x)
            if f is not None:
                s = SETS.get(y)
                for p in f:
                    if p in s if s is not None else p == y:
                        # y = p + rest with p = q + e, q a product with the factor x: x&y = x&(rest + e) + x&q
                        q, e = DPIV[p] if p in DEFS else (p, 0)
                        r = land(x, lxor(lxor(y, p), e))
                        if _keeps(x, q):
                            r = lxor(r, lxor(p, e))
                        AM[k] = r
                        return r
        # a&b, a&(a+b), b&(a+b) determine each other: one node for the three, named by the two oldest
        if not TRIPLES:
            r = _node()
            ANDN[r] = k
            AM[k] = r
            for x in k:
                f = FACT.get(x)
                if f is None:
                    FACT[x] = [r]
                else:
                    f.append(r)
            return r
        c = lxor(a, b)
        t = sorted((a, b, c))
        p, q, s = t
        r = AM.get((p, q))
        if r is None or r & -2 not in ANDN:
            r = _node()
            ANDN[r] = (p, q)
            for x in t:
                f = FACT.get(x)
                if f is None:
                    FACT[x] = [r]
                else:
                    f.append(r)
            AM[(p, q)] = r
            AM[(p, s)] = lxor(p, r)
            AM[(q, s)] = lxor(q, r)
            r = AM[k]
        else:
            raise AssertionError("product table")
    return r


def land(a, b):
    if a < 2:
        return b if a else 0
    if b < 2:
        return a if b else 0
    pa, pb = a & 1, b & 1
    a ^= pa
    b ^= pb
    if a == b:
        return a ^ pa if pa == pb else 0
    r = _and0(a, b)
    if pa:
        r = lxor(r, b)
    if pb:
        r = lxor(r, a)
        if pa:
            r ^= 1
    return r


def lor(a, b):
    return land(a ^ 1, b ^ 1) ^ 1


def conj(lits):
    """one name for the conjunction of a set of literals"""
    s = set(lits)
    s.discard(1)
    if 0 in s or any(x ^ 1 in s for x in s):
        return 0
    if not s:
        return 1
    if len(s) == 1:
        return s.pop()
    k = frozenset(s)
    r = _CJ.get(k)
    if r is None:
        r = _CJ[k] = _node()
        CONJ[r] = tuple(sorted(s))
    return r


def lmux(c, t, e):
    return lxor(e, land(c, lxor(t, e)))


def define(lit, label=""):
    """names the function of this literal; later occurrences (also inside sums) become the name"""
    if lit < 2:
        return lit
    p = lit & 1
    a = lit ^ p
    s = SETS.get(a)
    if s is None:
        s = (a,)
    piv = None
    for x in s:
        if x in ANDN and (piv is None or x > piv):
            piv = x
    if piv is None:
        return lit
    t = _node()
    DEFS[t] = a
    # piv = t + (s - piv)
    if len(s) == 1:
        r = t
    else:
        q = (s - {piv}) | {t}
        r = SETID.get(q)
        if r is None:
            r = _node()
            SETID[q] = r
            SETS[r] = q
    e = lxor(a, piv)
    DPIV[t] = (piv, e)
    f, g = ANDN[piv]
    AM[(f, g)] = r
    if TRIPLES:
        z = lxor(f, g)
        for x, y, v in ((f, z, lxor(f, r)), (g, z, lxor(g, r))):
            AM[(x, y) if x < y else (y, x)] = v
    for x in (f, g, z) if TRIPLES else (f, g):
        f = FACT.get(x)
        if f is None:
            f = FACT[x] = []
        if piv in f:
            f.remove(piv)
        f.append(t)
    return t ^ p


def uf(name, ins, nout):
    """uninterpreted function application: equal arguments, equal result"""
    k = (name, ins)
    r = UFS.get(k)
    if r is None:
        r = UFS[k] = alloc(nout, name)
        for i, l in enumerate(r):
            UFOUT[l] = (k, i)
    return r


def lemma_and(x, y, v):
    """registers the (true) identity x & y = v for two literals"""
    px, py = x & 1, y & 1
    x ^= px
    y ^= py
    if x < 2 or y < 2 or x == y:
        return
    if px:
        v = lxor(v, y)
    if py:
        v = lxor(v, x)
    AM[(x, y) if x < y else (y, x)] = v ^ (px & py)


class BV:
    """a symbolic bit vector (immutable, interned: equal bits <=> same object)"""
    __slots__ = ("bits", "n", "_parts", "id")

    def __repr__(self):
        return f"<bv{self.n}#{self.id}>"

    @property
    def parts(self):
        p = self._parts
        if p is None:
            p = self._parts = [Part(self, i) for i in range(self.n // 8)]
        return p


class Part:
    """byte i of a symbolic word"""
    __slots__ = ("bv", "i")

    def __init__(self, bv, i):
        self.bv, self.i = bv, i

    def bits(self):
        return self.bv.bits[8 * self.i:8 * self.i + 8]

    def __eq__(self, o):
        return self is o or (type(o) is Part and self.bits() == o.bits())

    def __hash__(self):
        return hash(self.bits())

    def __repr__(self):
        return f"<byte {self.i} of {self.bv}>"


_ib = {}


def mk(bits):
    """bits (LSB first) -> int if constant else BV"""
    if max(bits) < 2:
        v = 0
        for i, b in enumerate(bits):
            if b:
                v |= 1 << i
        return v
    r = INTERN.get(bits)
    if r is None:
        r = BV()
        r.bits = bits
        r.n = len(bits)
        r._parts = None
        r.id = len(INTERN)
        INTERN[bits] = r
    return r


def bits_of(v, n):
    """int or BV -> tuple of n literals"""
    if type(v) is BV:
        return v.bits
    if type(v) is int:
        k = (v, n)
        r = _ib.get(k)
        if r is None:
            r = tuple([(v >> i) & 1 for i in range(n)])
            _ib[k] = r
        return r
    raise TypeError(f"not a bit vector: {v!r}")


def var(n, label=""):
    return mk(alloc(n, label))


def concat(parts):
    """[(value, width)] LSB first"""
    b = []
    for v, n in parts:
        b.extend(bits_of(v, n))
    return mk(tuple(b))


_wm = {}


def wxor(a, b, n):
    if type(a) is int and type(b) is int:
        return a ^ b
    if a is b:
        return 0
    k = ("x", a, b)
    r = _wm.get(k)
    if r is None:
        r = _wm[k] = mk(tuple(map(lxor, bits_of(a, n), bits_of(b, n))))
    return r


def wand(a, b, n):
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    k = ("a", a, b)
    r = _wm.get(k)
    if r is None:
        r = _wm[k] = mk(tuple(map(land, bits_of(a, n), bits_of(b, n))))
    return r


def wor(a, b, n):
    if type(a) is int:
        if type(b) is int:
            return a | b
        a, b = b, a
    k = ("o", a, b)
    r = _wm.get(k)
    if r is None:
        r = _wm[k] = mk(tuple(map(lor, bits_of(a, n), bits_of(b, n))))
    return r


def lanes(v, n, w):
    """split into lanes of w bits -> list of tuples"""
    b = bits_of(v, n)
    return [b[i:i + w] for i in range(0, n, w)]


def shl(v, s, n, w):
    k = ("shl", v, s, n, w)
    r = _wm.get(k)
    if r is None:
        r = _wm[k] = _shl(v, s, n, w)
    return r


def _shl(v, s, n, w):
    out = []
    z = (0,) * min(s, w)
    for l in lanes(v, n, w):
        out.extend(z + l[:w - len(z)])
    return mk(tuple(out))


def lshr(v, s, n, w):
    k = ("lshr", v, s, n, w)
    r = _wm.get(k)
    if r is None:
        r = _wm[k] = _lshr(v, s, n, w)
    return r


def _lshr(v, s, n, w):
    out = []
    s = min(s, w)
    z = (0,) * s
    for l in lanes(v, n, w):
        out.extend(l[s:] + z)
    return mk(tuple(out))


def ashr(v, s, n, w):
    out = []
    s = min(s, w - 1)
    for l in lanes(v, n, w):
        out.extend(l[s:] + (l[-1],) * s)
    return mk(tuple(out))


def rotl(v, s, n, w):
    s %= w
    out = []
    for l in lanes(v, n, w):
        out.extend(l[w - s:] + l[:w - s])
    return mk(tuple(out))


def add(a, b, n, cin=0):
    A, B = bits_of(a, n), bits_of(b, n)
    out, c = [], cin
    for x, y in zip(A, B):
        s = lxor(x, y)
        out.append(lxor(s, c))
        if c == 0:
            c = land(x, y)
        else:
            c = lxor(land(x, y), land(s, c))
    return mk(tuple(out))


def neg(a, n):
    return add(tuple_not(a, n), 0, n, 1)


def tuple_not(a, n):
    return mk(tuple([x ^ 1 for x in bits_of(a, n)]))


def sub(a, b, n):
    return add(a, tuple_not(b, n), n, 1)


def eq(a, b, n):
    r = 1
    for x, y in zip(bits_of(a, n), bits_of(b, n)):
        r = land(r, lxor(x, y) ^ 1)
        if r == 0:
            return 0
    return r


def ult(a, b, n):
    r = 0
    for x, y in zip(bits_of(a, n), bits_of(b, n)):
        r = lmux(lxor(x, y), y, r)
    return r


def mux(c, a, b, n):
    return mk(tuple([lmux(c, x, y) for x, y in zip(bits_of(a, n), bits_of(b, n))]))


# ---- evaluation under an assignment of the variables (even literal -> 0/1); used to refute equalities
_cm = {}


def evaluator(rng, fixed=None, ufs=None):
    """-> f(literal) evaluating the DAG; variables drawn from rng on demand"""
    val = {0: 0}
    if fixed:
        val.update(fixed)

    apps = {}

    def f(l):
        p = l & 1
        a = l ^ p
        v = val.get(a)
        if v is not None:
            return v ^ p
        st = [a]
        while st:
            x = st[-1]
            if x in val:
                st.pop()
                continue
            dep = SETS.get(x)
            k = 0
            if dep is None:
                dep = ANDN.get(x)
                k = 1
            if dep is None and x in DEFS:
                dep = (DEFS[x],)
                k = 2
            if dep is None and x in CONJ:
                dep, k = CONJ[x], 4
            if dep is None:
                u = UFOUT.get(x)
                if u is not None:
                    dep = u[0][1]
                    k = 3
                else:
                    val[x] = rng.getrandbits(1)
                    st.pop()
                    continue
            todo = [d for d in dep if d & -2 not in val]
            if todo:
                st.extend(d & -2 for d in todo)
                continue
            if k == 0:
                r = 0
                for d in dep:
                    r ^= val[d]
            elif k == 1:
                r = val[dep[0]] & val[dep[1]]
            elif k == 4:
                r = int(all(val[d & -2] ^ (d & 1) for d in dep))
            elif k == 3:
                key = (u[0][0], tuple([val[d & -2] ^ (d & 1) for d in dep]))
                bits = apps.get(key)
                if bits is None:
                    bits = apps[key] = {}
                r = bits.get(u[1])
                if r is None:
                    r = bits[u[1]] = rng.getrandbits(1)
            else:
                r = val[dep[0] & -2] ^ (dep[0] & 1)
            val[x] = r
            st.pop()
        return val[a] ^ p
    f.val = val
    return f


def differ(a, b, tries=4, seed=1):
    """True if a random assignment tells the two literals apart"""
    for i in range(tries):
        f = evaluator(random.Random(seed + i))
        if f(a) != f(b):
            return True
    return False


# ---- one secret literal only: what may depend on data, and nothing about its value
TAINT = False
T = 2


def taint():
    """from here on every data bit is the literal T (either polarity); constants are tracked exactly"""
    global TAINT, TRIPLES
    TAINT = True
    g = globals()

    def lxor(a, b):
        return a ^ b if a < 2 or b < 2 else T

    def land(a, b):
        return (b if a else 0) if a < 2 else (a if b else 0) if b < 2 else T

    def conj(lits):
        s = set(lits)
        return 0 if 0 in s else 1 if not s - {1} else T

    def lmux(c, t, e):
        return (t if c else e) if c < 2 else t if t == e and t < 2 else T

    def wxor(a, b, n):
        if type(a) is int and type(b) is int:
            return a ^ b
        k = ("x", a, b)
        r = _wm.get(k)
        if r is None:
            r = _wm[k] = mk(tuple(map(lxor, bits_of(a, n), bits_of(b, n))))
        return r

    def uf(name, ins, nout):
        return (T,) * nout
    g.update(lxor=lxor, land=land, conj=conj, lmux=lmux, wxor=wxor, uf=uf, alloc=lambda n, label="": (T,) * n,
             define=lambda l, label="": l, lemma_and=lambda x, y, v: None)
