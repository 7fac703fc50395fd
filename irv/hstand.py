"""Standalone C implementations of the FIPS 202 functions: the permutation against the specification, the functions against
the contract of the permutation."""
from . import hspec as H, kspec, low
from . import high as h, hl
from .high import fresh, data, outb, byts, bits, lens
from .hfips import SHA3, bitdata

D = "Standalone/CompactFIPS202/C/"


class Impl:
    def __init__(self, file, perm, sponge, call):
        self.file, self.perm, self.sponge, self.call = D + file, perm, sponge, call


def fips(c, name, p, n, q, m):
    fn = "FIPS202_" + name.replace("-", "_")
    if name.startswith("SHAKE"):
        c.call(fn, p, n, q, m)
    else:
        c.call(fn, p, n, q)


def tweet(c, name, p, n, q, m):
    fn = "crypto_hash_" + name.replace("-", "").lower()
    if name.startswith("SHAKE"):
        c.call(fn, q, m, p, n)
    else:
        c.call(fn, q, p, n)


def sp3(c, r, p, n, sfx, q, m):
    c.call("Keccak", 8 * r, 1600 - 8 * r, p, n, sfx, q, m)


def sp1(c, r, p, n, sfx, q, m):
    c.call("k", r, p, n, sfx, q, m)


IMPLS = {
    "more-compact": Impl("Keccak-more-compact.c", "KeccakF1600", sp3, fips),
    "readable-and-compact": Impl("Keccak-readable-and-compact.c", "KeccakF1600_StatePermute", sp3, fips),
    "Tweetable": Impl("TweetableFIPS202.c", "F", sp1, tweet),
}


def contracts(job):
    I = IMPLS[job.kw["impl"]]

    def perm(m, st):
        hl.wr(m, st, H.keccak_bytes(hl.rd(m, st, 200), 24))
    return {I.perm: perm}


def permutation(c, impl):
    I = IMPLS[impl]
    c.at(f"{impl}: {I.perm}")
    e = c.inp("state", 200)
    p = c.buf("state", 200, e, align=8)
    want = low.keccak(e, 24)
    c.call(I.perm, p)
    c.req(f"{I.perm}: Keccak-f[1600]", c.get(p, 200), want)


def functions(c, impl, name, cases):
    I = IMPLS[impl]
    rate, cap, hl_, d = SHA3[name]
    for n, m in cases:
        fresh(c)
        m = hl_ // 8 or m
        c.at(f"{impl}: {name} of {n} bytes, output {m}")
        p, b = bitdata(c, 8 * n)
        q = outb(c, m)
        I.call(c, name, p, n, q, m)
        c.req(f"{name}: value", c.get(q, m), byts(H.sponge(b, H.delimited(d), rate, 8 * m, 24)))


def sponge(c, impl, cases):
    I = IMPLS[impl]
    for r, sfx, n, m in cases:
        fresh(c)
        c.at(f"{impl}: rate {8 * r}, suffix {sfx:#x}, {n} bytes, output {m}")
        p, b = bitdata(c, 8 * n)
        q = outb(c, m)
        I.sponge(c, r, p, n, sfx, q, m)
        c.req("value", c.get(q, m), byts(H.sponge(b, H.delimited(sfx), 8 * r, 8 * m, 24)))


def message_any(c, impl, r, m=33, rem=None, short=False):
    I = IMPLS[impl]
    if c.native or short:
        sponge(c, impl, [(r, 0x1F, n, m) for n in lens(r)])
        return
    c.at(f"{impl}: rate {8 * r}, message of any length")
    S = H.Sponge(8 * r, 24)
    q = outb(c, m)
    h.any_absorb(c, S, r, lambda d, n: I.sponge(c, r, d, n, 0x1F, q, m), rem)
    S.finish(H.delimited(0x1F))
    c.req("value", c.get(q, m), byts(S.squeeze(8 * m)))


def output_any(c, impl, r, n=3, rem=None, short=False, eager=True):
    I = IMPLS[impl]
    if c.native or short:
        return sponge(c, impl, [(r, 0x1F, n, m) for m in lens(r)])
    c.at(f"{impl}: rate {8 * r}, output of any length")
    S = H.Sponge(8 * r, 24)
    p, b = bitdata(c, 8 * n)
    S.absorb(b)
    S.finish(H.delimited(0x1F))
    h.any_squeeze(c, S, r, lambda q, N: I.sponge(c, r, p, n, 0x1F, q, N), rem, eager)


for f in (message_any, output_any):
    f.anylen = True
