"""Specifications of the permutations, generic over bit-level symbolic values and ints. Written from FIPS 202 / the Xoodoo
paper, not from the code."""
import functools

from . import bits as bt


def keccak_rc():
    """round constants from the FIPS 202 LFSR"""
    out, R = [], 1
    for _ in range(24):
        rc = 0
        for j in range(7):
            if R & 1:
                rc |= 1 << ((1 << j) - 1)
            R = (R << 1) ^ (0x171 if R & 0x80 else 0)
        out.append(rc)
    return out


RC = keccak_rc()


def rho_offsets():
    r = {(0, 0): 0}
    x, y = 1, 0
    for t in range(24):
        r[(x, y)] = ((t + 1) * (t + 2) // 2) % 64
        x, y = y, (2 * x + 3 * y) % 5
    return r


RHO = rho_offsets()
M64 = (1 << 64) - 1


def keccak_f_int(A, nr):
    """A: 25 ints"""
    A = list(A)
    for ir in range(24 - nr, 24):
        C = [A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20] for x in range(5)]
        D = [C[(x + 4) % 5] ^ (((C[(x + 1) % 5] << 1) | (C[(x + 1) % 5] >> 63)) & M64) for x in range(5)]
        Bm = [0] * 25
        for x in range(5):
            for y in range(5):
                v = A[x + 5 * y] ^ D[x]
                s = RHO[(x, y)]
                Bm[y + 5 * ((2 * x + 3 * y) % 5)] = ((v << s) | (v >> (64 - s))) & M64 if s else v
        A = [Bm[i] ^ (~Bm[i - i % 5 + (i + 1) % 5] & Bm[i - i % 5 + (i + 2) % 5] & M64) for i in range(25)]
        A[0] ^= RC[ir]
    return A


def keccak_round_bits(A, ir):
    """A: 25 tuples of 64 literals"""
    lx, la = bt.lxor, bt.land
    C = []
    for x in range(5):
        c = A[x]
        for y in (5, 10, 15, 20):
            c = tuple(map(lx, c, A[x + y]))
        C.append(c)
    D = []
    for x in range(5):
        r = C[(x + 1) % 5]
        D.append(tuple(map(lx, C[(x + 4) % 5], r[63:] + r[:63])))
    Bm = [None] * 25
    for x in range(5):
        for y in range(5):
            v = tuple(map(lx, A[x + 5 * y], D[x]))
            s = RHO[(x, y)]
            Bm[y + 5 * ((2 * x + 3 * y) % 5)] = v[64 - s:] + v[:64 - s]
    out = []
    for i in range(25):
        b1, b2 = Bm[i - i % 5 + (i + 1) % 5], Bm[i - i % 5 + (i + 2) % 5]
        v = [lx(p, la(q ^ 1, r)) for p, q, r in zip(Bm[i], b1, b2)]
        if i == 0:
            rc = RC[ir]
            v = [l ^ ((rc >> z) & 1) for z, l in enumerate(v)]
        out.append(tuple([bt.define(l) for l in v]))
    return out


def keccak_p_bits(A, nr):
    for ir in range(24 - nr, 24):
        A = keccak_round_bits(A, ir)
    return A


@functools.lru_cache(4096)
def keccak_p_bytes(s, nr):
    """bytes -> bytes, concrete"""
    A = [int.from_bytes(s[8 * i:8 * i + 8], "little") for i in range(25)]
    return b"".join(x.to_bytes(8, "little") for x in keccak_f_int(A, nr))


# ---- Xoodoo: 3 planes of 4 lanes of 32 bits; lane index x + 4*y
XRC = [0x058, 0x038, 0x3C0, 0x0D0, 0x120, 0x014, 0x060, 0x02C, 0x380, 0x0F0, 0x1A0, 0x012]
M32 = (1 << 32) - 1


def _r32(v, s):
    return ((v << s) | (v >> (32 - s))) & M32 if s else v


def xoodoo_int(A, nr):
    A = [list(A[0:4]), list(A[4:8]), list(A[8:12])]
    for rc in XRC[12 - nr:]:
        P = [A[0][x] ^ A[1][x] ^ A[2][x] for x in range(4)]
        E = [_r32(P[(x - 1) % 4], 5) ^ _r32(P[(x - 1) % 4], 14) for x in range(4)]
        for y in range(3):
            for x in range(4):
                A[y][x] ^= E[x]
        A[1] = [A[1][(x - 1) % 4] for x in range(4)]
        A[2] = [_r32(v, 11) for v in A[2]]
        A[0][0] ^= rc
        Bm = [[~A[(y + 1) % 3][x] & A[(y + 2) % 3][x] & M32 for x in range(4)] for y in range(3)]
        for y in range(3):
            for x in range(4):
                A[y][x] ^= Bm[y][x]
        A[1] = [_r32(v, 1) for v in A[1]]
        A[2] = [_r32(A[2][(x - 2) % 4], 8) for x in range(4)]
    return A[0] + A[1] + A[2]


def xoodoo_bits(S, nr):
    """S: 12 tuples of 32 literals"""
    lx, la = bt.lxor, bt.land

    def rot(v, s):
        return v[32 - s:] + v[:32 - s] if s else v

    def x2(a, b):
        return tuple(map(lx, a, b))
    A = [list(S[0:4]), list(S[4:8]), list(S[8:12])]
    for rc in XRC[12 - nr:]:
        P = [x2(x2(A[0][x], A[1][x]), A[2][x]) for x in range(4)]
        E = [x2(rot(P[(x - 1) % 4], 5), rot(P[(x - 1) % 4], 14)) for x in range(4)]
        A = [[x2(A[y][x], E[x]) for x in range(4)] for y in range(3)]
        A[1] = [A[1][(x - 1) % 4] for x in range(4)]
        A[2] = [rot(v, 11) for v in A[2]]
        A[0][0] = tuple([l ^ ((rc >> z) & 1) for z, l in enumerate(A[0][0])])
        N = [[None] * 4 for _ in range(3)]
        for x in range(4):
            rows = [[], [], []]
            for a, b, c in zip(A[0][x], A[1][x], A[2][x]):
                ab, bc, ca = la(a, b), la(b, c), la(c, a)
                d = [bt.define(lx(lx(a, c), bc)), bt.define(lx(lx(b, a), ca)), bt.define(lx(lx(c, b), ab))]
                for y in range(3):
                    rows[y].append(d[y])
                # chi on three rows, in place: d0 d1 = a + ab + ac and cyclically (lemma, checked by check_chi3)
                if d[0] > 1 and d[1] > 1 and d[2] > 1:
                    ab, bc, ca = la(a, b), la(b, c), la(c, a)
                    bt.lemma_and(d[0], d[1], lx(a, lx(ab, ca)))
                    bt.lemma_and(d[1], d[2], lx(b, lx(bc, ab)))
                    bt.lemma_and(d[2], d[0], lx(c, lx(ca, bc)))
                    # distributivity within the row
                    for p, q, r, pq, pr in ((a, b, c, ab, ca), (b, a, c, ab, bc), (c, a, b, ca, bc)):
                        qr = lx(q, r)
                        bt.lemma_and(p, qr, lx(pq, pr))
                        bt.lemma_and(p, lx(p, qr), lx(p, lx(pq, pr)))
                        bt.lemma_and(qr, lx(p, qr), lx(qr, lx(pq, pr)))
            for y in range(3):
                N[y][x] = tuple(rows[y])
        A = N
        A[1] = [rot(v, 1) for v in A[1]]
        A[2] = [rot(A[2][(x - 2) % 4], 8) for x in range(4)]
    return A[0] + A[1] + A[2]


def xoodoo_bytes(s, nr):
    A = [int.from_bytes(s[4 * i:4 * i + 4], "little") for i in range(12)]
    return b"".join(x.to_bytes(4, "little") for x in xoodoo_int(A, nr))


def check_chi3():
    for v in range(8):
        a, b, c = v & 1, v >> 1 & 1, v >> 2
        d0, d1, d2 = a ^ ((1 ^ b) & c), b ^ ((1 ^ c) & a), c ^ ((1 ^ a) & b)
        assert d0 & d1 == a ^ a & b ^ a & c and d1 & d2 == b ^ b & c ^ a & b and d2 & d0 == c ^ a & c ^ b & c
        assert d0 == a ^ c ^ b & c and d1 == b ^ a ^ c & a and d2 == c ^ b ^ a & b


check_chi3()
