"""Specifications of the modes: FIPS 202 sponge, duplex, SP 800-185, TurboSHAKE / KangarooTwelve (RFC 9861), Farfalle
(Kravatte, Xoofff) with its SANE / SANSE / WBC / WBC-AE modes, Cyclist (Xoodyak). Written from the standards, over lists
of literals (irv/bits.py), LSB of each byte first; constants (0/1) are literals too, so that the same text serves the
verifier and the replay on the compiled library. A permutation is an uninterpreted function of its input bits, and the
real permutation when all of them are constants."""
from . import bits as bt, kspec

_cb = {}


def byte_bits(v):
    r = _cb.get(v)
    if r is None:
        r = _cb[v] = [(v >> i) & 1 for i in range(8)]
    return r


def bits_of_bytes(bs):
    out = []
    for b in bs:
        out.extend(byte_bits(b) if type(b) is int else b.bits)
    return out


def bytes_of_bits(b):
    """last byte zero-padded"""
    b = list(b)
    if len(b) % 8:
        b += [0] * (8 - len(b) % 8)
    mk = bt.mk
    return [mk(tuple(b[i:i + 8])) for i in range(0, len(b), 8)]


def xor(a, b):
    return list(map(bt.lxor, a, b))


def num(bits):
    v = 0
    for i, b in enumerate(bits):
        if b:
            v |= 1 << i
    return v


def nbits(v, n):
    return [(v >> i) & 1 for i in range(n)]


def _perm(tag, W, real):
    def f(bits, nr):
        bits = tuple(bits)
        assert len(bits) == W
        if max(bits) < 2:
            return nbits(int.from_bytes(real(num(bits).to_bytes(W // 8, "little"), nr), "little"), W)
        return list(bt.uf(f"{tag}{nr}", bits, W))
    return f


keccak_p = _perm("K", 1600, kspec.keccak_p_bytes)
xoodoo_p = _perm("X", 384, kspec.xoodoo_bytes)


def keccak_bytes(bs, nr):
    return bytes_of_bits(keccak_p(bits_of_bytes(bs), nr))


def xoodoo_bytes(bs, nr):
    return bytes_of_bits(xoodoo_p(bits_of_bytes(bs), nr))


def delimited(d):
    """bits encoded in a delimited suffix byte: those below the most significant 1"""
    return nbits(d, d.bit_length() - 1)


def pad101(n, rate):
    """pad10*1 for a string of n bits"""
    return [1] + [0] * (-(n + 2) % rate) + [1]


class Sponge:
    """sponge[Keccak-p[1600, nr], pad10*1, rate]"""

    def __init__(self, rate, nr=24):
        self.r, self.nr = rate, nr
        self.S, self.q, self.sq = [0] * 1600, [], None

    def copy(self):
        s = Sponge(self.r, self.nr)
        s.S, s.q, s.sq = list(self.S), list(self.q), None if self.sq is None else list(self.sq)
        return s

    def absorb(self, bits):
        self.q += bits
        r = self.r
        i = 0
        while len(self.q) - i >= r:
            self.S = keccak_p(xor(self.S[:r], self.q[i:i + r]) + self.S[r:], self.nr)
            i += r
        self.q = self.q[i:]

    def finish(self, suffix):
        """suffix bits and pad10*1"""
        n = len(self.q) + len(suffix)
        self.absorb(list(suffix) + pad101(n, self.r))
        assert not self.q
        self.sq = self.S[:self.r]

    def squeeze(self, n):
        out = []
        while len(out) < n:
            if not self.sq:
                self.S = keccak_p(self.S, self.nr)
                self.sq = self.S[:self.r]
            k = min(n - len(out), len(self.sq))
            out += self.sq[:k]
            self.sq = self.sq[k:]
        return out


def sponge(msg, suffix, rate, nout, nr=24):
    s = Sponge(rate, nr)
    s.absorb(list(msg))
    s.finish(suffix)
    return s.squeeze(nout)


# ---- SP 800-185
def left_encode(x):
    n = max(1, (x.bit_length() + 7) // 8)
    return bits_of_bytes([n] + list(x.to_bytes(n, "big")))


def right_encode(x):
    n = max(1, (x.bit_length() + 7) // 8)
    return bits_of_bytes(list(x.to_bytes(n, "big")) + [n])


def encode_string(s):
    return left_encode(len(s)) + list(s)


def bytepad(x, w):
    z = left_encode(w) + list(x)
    return z + [0] * (-len(z) % (8 * w))


def str_bits(s):
    return bits_of_bytes(list(s.encode()))


RATE = {128: 1344, 256: 1088}


def cshake(sec, x, nout, n, s):
    if not n and not s:
        return sponge(x, [1, 1, 1, 1], RATE[sec], nout)
    return sponge(bytepad(encode_string(n) + encode_string(s), RATE[sec] // 8) + list(x), [0, 0], RATE[sec], nout)


def kmac(sec, key, x, nout, s, xof):
    w = RATE[sec] // 8
    return cshake(sec, bytepad(encode_string(key), w) + list(x) + right_encode(0 if xof else nout), nout, str_bits("KMAC"), s)


def tuplehash(sec, xs, nout, s, xof):
    z = []
    for x in xs:
        z += encode_string(x)
    return cshake(sec, z + right_encode(0 if xof else nout), nout, str_bits("TupleHash"), s)


def parallelhash(sec, x, b, nout, s, xof):
    n = (len(x) // 8 + b - 1) // b if len(x) % 8 == 0 else (len(x) + 8 * b - 1) // (8 * b)
    z = left_encode(b)
    for i in range(n):
        z = z + cshake(sec, x[8 * b * i:8 * b * (i + 1)], 2 * sec, [], [])
    return cshake(sec, z + right_encode(n) + right_encode(0 if xof else nout), nout, str_bits("ParallelHash"), s)


# ---- TurboSHAKE and KangarooTwelve (RFC 9861)
def turboshake(cap, m, d, nout):
    return sponge(m, delimited(d), 1600 - cap, nout, 12)


def length_encode(x):
    n = (x.bit_length() + 7) // 8
    return bits_of_bytes(list(x.to_bytes(n, "big")) + [n])


def kangarootwelve(sec, m, c, nout):
    """K12 on bits (whole bytes)"""
    cap = 2 * sec
    s = list(m) + list(c) + length_encode(len(c) // 8)
    B = 8192 * 8
    if len(s) <= B:
        return turboshake(cap, s, 0x07, nout)
    f = s[:B] + bits_of_bytes([3, 0, 0, 0, 0, 0, 0, 0])
    n = 0
    for i in range(B, len(s), B):
        f = f + turboshake(cap, s[i:i + B], 0x0B, cap)
        n += 1
    return turboshake(cap, f + length_encode(n) + bits_of_bytes([0xFF, 0xFF]), 0x06, nout)


def kangarootwelve_zeros(sec, n, nout):
    """K12 of n zero bytes, no customization; n a whole number of chunks less the byte that encodes the empty customization"""
    cap, B = 2 * sec, 8192 * 8
    assert (n + 1) % 8192 == 0 and n > 8192
    leaf = turboshake(cap, [0] * B, 0x0B, cap)
    k = (n + 1) // 8192 - 1
    f = [0] * B + bits_of_bytes([3, 0, 0, 0, 0, 0, 0, 0]) + leaf * k
    return turboshake(cap, f + length_encode(k) + bits_of_bytes([0xFF, 0xFF]), 0x06, nout)


# ---- Farfalle
def _lanes(b, w):
    return [list(b[i:i + w]) for i in range(0, len(b), w)]


def _rotl(v, s):
    n = len(v)
    s %= n
    return v[n - s:] + v[:n - s] if s else list(v)


def _shr(v, s):
    return v[s:] + [0] * s


def _shl(v, s):
    return [0] * s + v[:len(v) - s]


def _and(a, b):
    return list(map(bt.land, a, b))


def _flat(ls):
    return [x for l in ls for x in l]


class Kravatte:
    """Kravatte Achouffe parameters"""
    b = 1600

    @staticmethod
    def perm(x):
        return keccak_p(x, 6)

    @staticmethod
    def rollc(x):
        A = _lanes(x, 64)
        a = A[20:25]
        n = xor(xor(_rotl(a[0], 7), a[1]), _shr(a[1], 3))
        return _flat(A[:20] + a[1:] + [n])

    @staticmethod
    def rolle(x):
        A = _lanes(x, 64)
        a = A[15:25]
        n = xor(xor(_rotl(a[0], 7), _rotl(a[1], 18)), _and(a[2], _shr(a[1], 1)))
        return _flat(A[:15] + a[1:] + [n])


class Xoofff:
    b = 384

    @staticmethod
    def perm(x):
        return xoodoo_p(x, 6)

    @staticmethod
    def _roll(A, n):
        # planes y = 0..2 of lanes x = 0..3, lane 4y + x: plane 0 replaced, then planes rotated
        p = [A[0:4], A[4:8], A[8:12]]
        p[0] = [n] + p[0][1:]
        p[0] = p[0][1:] + p[0][:1]
        return _flat(p[1] + p[2] + p[0])

    @staticmethod
    def rollc(x):
        A = _lanes(x, 32)
        return Xoofff._roll(A, xor(xor(A[0], _shl(A[0], 13)), _rotl(A[4], 3)))

    @staticmethod
    def rolle(x):
        A = _lanes(x, 32)
        n = xor(xor(_rotl(A[0], 5), _rotl(A[4], 13)), _and(A[8], A[4]))
        return Xoofff._roll(A, xor(n, nbits(7, 32)))


def pad10(x, b):
    z = list(x) + [1]
    return z + [0] * (-len(z) % b)


class Farfalle:
    """F_K(M1 o ... o Mm) << q: state of the accumulation, reusable for further strings"""

    def __init__(self, F, key, mask=None):
        self.F = F
        self.k = mask if mask is not None else F.perm(pad10(key, F.b))
        self.kr, self.x = list(self.k), [0] * F.b

    def copy(self):
        f = Farfalle(self.F, None, self.k)
        f.kr, f.x = self.kr, self.x
        return f

    def string(self, m):
        """appends one string to the sequence"""
        F = self.F
        p = pad10(m, F.b)
        for i in range(0, len(p), F.b):
            self.x = xor(self.x, F.perm(xor(p[i:i + F.b], self.kr)))
            self.kr = F.rollc(self.kr)
        self.kr = F.rollc(self.kr)

    def expand(self, n, q=0, short=False):
        """n bits of the output from bit q; short: without the middle permutation"""
        F = self.F
        y = self.x if short else F.perm(self.x)
        out = []
        while len(out) < q + n:
            out += xor(F.perm(y), self.kr)
            y = F.rolle(y)
        return out[q:q + n]


# ---- modes over a Farfalle (Farfalle-SANE, -SANSE, -WBC, -WBC-AE)
class SANE:
    t, l = 128, 8

    def __init__(self, F, key, nonce):
        self.h = Farfalle(F, key)
        self.h.string(nonce)
        self.e = 0
        self.off = self.l * -(-self.t // self.l)

    def tag0(self):
        return self.h.expand(self.t)

    def _hist(self, a, c):
        if len(a) or not len(c):
            self.h.string(list(a) + [0, self.e])
        if len(c):
            self.h.string(list(c) + [1, self.e])
        self.e ^= 1

    def wrap(self, a, p):
        c = xor(p, self.h.expand(len(p), self.off)) if len(p) else []
        self._hist(a, c)
        return c, self.h.expand(self.t)

    def unwrap(self, a, c):
        """plaintext and expected tag"""
        p = xor(c, self.h.expand(len(c), self.off)) if len(c) else []
        self._hist(a, c)
        return p, self.h.expand(self.t)


class SANSE:
    t = 256

    def __init__(self, F, key):
        self.h = Farfalle(F, key)
        self.e = 0

    def _fork(self, m):
        g = self.h.copy()
        g.string(m)
        return g

    def _a(self, a, p):
        if len(a) or not len(p):
            self.h.string(list(a) + [0, self.e])

    def wrap(self, a, p):
        self._a(a, p)
        c = []
        if len(p):
            hp = self._fork(list(p) + [0, 1, self.e])
            t = hp.expand(self.t)
            c = xor(p, self._fork(t + [1, 1, self.e]).expand(len(p)))
            self.h = hp
        else:
            t = self.h.expand(self.t)
        self.e ^= 1
        return c, t

    def unwrap(self, a, c, t):
        self._a(a, c)
        p = []
        if len(c):
            p = xor(c, self._fork(list(t) + [1, 1, self.e]).expand(len(c)))
            self.h = self._fork(list(p) + [0, 1, self.e])
        self.e ^= 1
        return p, self.h.expand(self.t)


def wbc_split(n, b, l=8):
    if n <= 2 * b - (l + 2):
        return l * ((n + l) // (2 * l))
    q = -(-(n + l + 2) // b)
    x = max(k for k in range(64) if (1 << k) < q)
    return (q - (1 << x)) * b - l


def wbc(F, key, w, p, decipher=False, mask=None):
    b = F.b
    nl = wbc_split(len(p), b)
    L, R = list(p[:nl]), list(p[nl:])
    l0, r0 = min(b, len(L)), min(b, len(R))

    def H(x, n):
        f = Farfalle(F, key, mask)
        f.string(x)
        return f.expand(n, short=True)

    def G(x, n):
        f = Farfalle(F, key, mask)
        f.string(w)
        f.string(x)
        return f.expand(n)
    if not decipher:
        R = xor(R[:r0], H(L + [0], r0)) + R[r0:]
        L = xor(L, G(R + [1], len(L)))
        R = xor(R, G(L + [0], len(R)))
        L = xor(L[:l0], H(R + [1], l0)) + L[l0:]
    else:
        L = xor(L[:l0], H(R + [1], l0)) + L[l0:]
        R = xor(R, G(L + [0], len(R)))
        L = xor(L, G(R + [1], len(L)))
        R = xor(R[:r0], H(L + [0], r0)) + R[r0:]
    return L + R


# ---- Cyclist (Xoodyak)
class Cyclist:
    """Cyclist[Xoodoo[12], Rhash 16, Rkin 44, Rkout 24, lratchet 16] on bytes"""
    RH, RKI, RKO, LR, FB = 16, 44, 24, 16, 48

    def __init__(self, K, ID, counter):
        self.s = [0] * 48
        self.up = True
        self.keyed = False
        self.ra = self.rs = self.RH
        if K:
            self.keyed, self.ra, self.rs = True, self.RKI, self.RKO
            self.absorb_any(list(K) + list(ID) + [len(ID)], self.ra, 0x02)
            if counter:
                self.absorb_any(counter, 1, 0)

    def _x(self, o, v):
        for i, b in enumerate(v):
            self.s[o + i] = bt.wxor(self.s[o + i], b, 8)

    def down(self, X, cd):
        self._x(0, list(X) + [1])
        self._x(47, [cd if self.keyed else cd & 1])
        self.up = False

    def upf(self, n, cu):
        if self.keyed:
            self._x(47, [cu])
        self.s = xoodoo_bytes(self.s, 12)
        self.up = True
        return self.s[:n]

    @staticmethod
    def split(X, r):
        return [X[i:i + r] for i in range(0, len(X), r)] or [[]]

    def absorb_any(self, X, r, cd):
        for x in self.split(list(X), r):
            if not self.up:
                self.upf(0, 0)
            self.down(x, cd)
            cd = 0

    def crypt(self, I, dec):
        cu, out = 0x80, []
        for x in self.split(list(I), self.RKO):
            k = self.upf(len(x), cu)
            o = [bt.wxor(a, b, 8) for a, b in zip(x, k)]
            self.down(o if dec else x, 0)
            out += o
            cu = 0
        return out

    def squeeze_any(self, n, cu):
        Y = self.upf(min(n, self.rs), cu)
        while len(Y) < n:
            self.down([], 0)
            Y = Y + self.upf(min(n - len(Y), self.rs), 0)
        return Y

    def absorb(self, X):
        self.absorb_any(X, self.ra, 0x03)

    def encrypt(self, P):
        return self.crypt(P, False)

    def decrypt(self, C):
        return self.crypt(C, True)

    def squeeze(self, n):
        return self.squeeze_any(n, 0x40)

    def squeeze_key(self, n):
        return self.squeeze_any(n, 0x20)

    def ratchet(self):
        self.absorb_any(self.squeeze_any(self.LR, 0x10), self.ra, 0)


# ---- duplex construction and the generator built on it
class Duplex:
    """Duplex[Keccak-p[1600, nr], pad10*1, r]; the input of the next duplexing call is queued, the output of the last one
    (r bits) is read in order"""

    def __init__(self, rate, nr=24):
        self.r, self.nr = rate, nr
        self.S, self.sigma, self.Z, self.pos = [0] * 1600, [], [0] * rate, rate

    @property
    def room(self):
        return self.r - 2 - len(self.sigma)

    def feed(self, bits):
        self.sigma = self.sigma + list(bits)

    def overwrite(self, bits):
        """input such that the first part of the state becomes the given bits"""
        k = len(self.sigma)
        self.feed(xor(bits, self.S[k:k + len(bits)]))

    def duplexing(self, last, n):
        p = self.sigma + list(last)
        assert len(p) <= self.r - 2
        p += pad101(len(p), self.r)
        self.S = keccak_p(xor(self.S[:self.r], p) + self.S[self.r:], self.nr)
        self.sigma, self.Z, self.pos = [], self.S[:self.r], 0
        return self.output(n)

    def output(self, n):
        o = self.Z[self.pos:self.pos + n]
        self.pos += n
        return o


class SpongePRG:
    """SpongePRG of the duplex paper; rho = 8 floor((r-2)/8)"""

    def __init__(self, cap):
        self.D, self.cap = Duplex(1600 - cap), cap
        self.rho = (1600 - cap - 2) // 8 * 8
        self.q, self.out = [], []

    def feed(self, bits):
        self.q = self.q + list(bits)
        while len(self.q) >= self.rho:
            self.D.feed(self.q[:self.rho])
            self.D.duplexing([], 0)
            self.q = self.q[self.rho:]
        self.out = []

    def fetch(self, n):
        o = []
        while len(o) < n:
            if not self.out:
                self._turn()
            k = min(n - len(o), len(self.out))
            o += self.out[:k]
            self.out = self.out[k:]
        return o

    def _turn(self):
        self.D.feed(self.q)
        self.q = []
        self.out = self.D.duplexing([], self.rho)

    def forget(self):
        self._turn()
        self.D.feed(self.out)
        self.D.duplexing([], 0)
        self.out = []
