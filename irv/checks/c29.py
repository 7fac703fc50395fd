from .. import build, high as h, hstand as s
from ..hfips import SHA3
from ..run import Job

LEVEL = "model_checking"
TECHNIQUE = ("contracts on the standalone C functions checked on the LLVM IR of the current sources: the permutation by symbolic execution against Keccak-f[1600], the "
             "sponge functions against the contract of the permutation; data symbolic; lengths symbolic with inferred loop invariants, and enumerated (bounded)")
ASSUMPTIONS = ["little-endian x86-64 data layout", "output lengths of the functions taking an int are non-negative"]
NOTE = ("All states (permutation, no bound); all messages; any message length (below 2^48, loop invariants) for "
        "the Tweetable one; lengths up to some blocks, suffixes and rates enumerated. The files .tweets and -stub.c (text fragments) are not compiled.")


def jobs(tier):
    deep = tier != "quick"
    out = []
    R = None if deep else (0, 1, 70, -1)

    def job(impl, name, f, kw, w=1, bounded=None):
        I = s.IMPLS[impl]
        j = Job(f"{impl}:{name}", ("@" + I.file,), f, dict(kw, impl=impl), contracts=s.contracts if f is not s.permutation else None,
                bounded=bounded, weight=w)
        if f is not s.permutation:
            j.over = (I.perm,)
        h.anylen(j)
        out.append(j)
    B = "lengths and rates enumerated; data symbolic"
    for impl in s.IMPLS:
        job(impl, "permutation", s.permutation, {}, 5)
        for n in SHA3:
            r = SHA3[n][0] // 8
            ns = range(3 * r + 2) if deep else sorted(set(range(0, r, 7)) | {1, 2, r - 2, r - 1, r, r + 1, r + 2, 2 * r - 1, 2 * r, 2 * r + 1, 3 * r + 5})
            cases = [(k, 32) for k in ns]
            if not SHA3[n][2]:
                cases += [(k, m) for k in (0, 1, r - 1, r) for m in (range(3 * r + 2) if deep else (0, 1, 7, 8, 9, r - 1, r, r + 1, 2 * r - 1, 2 * r, 2 * r + 1, 3 * r + 5, 256, 257, 520))]
            job(impl, n, s.functions, dict(name=n, cases=cases), 2, B)
        cases = [(r, 0x1F, n, m) for r in (1, 2, 8, 9, 21, 72, 104, 136, 144, 168, 185, 191, 199, 200) for n in {0, 1, r - 1, r, r + 1, 2 * r} for m in {0, 1, r, r + 1, 2 * r + 1}
                 if not (impl == "Tweetable" and r % 8)]
        cases += [(r, x, n, 8) for r in (72, 168) for x in (range(1, 128 if impl == "Tweetable" else 256) if deep else (1, 2, 3, 4, 6, 7, 0x1F, 0x20, 0x40, 0x7F)
                  + (() if impl == "Tweetable" else (0x80, 0x81, 0xC0, 0xFF))) for n in (0, 3, r - 2, r - 1, r)]
        job(impl, "rates and suffixes", s.sponge, dict(cases=cases), 3, B)
        for r in (1, 9, 72, 104, 136, 144, 168, 200):
            # (the loops of the other two files end in a shortened turn: lengths enumerated)
            if impl == "Tweetable" and r % 8 == 0:
                job(impl, f"rate {8 * r}, any message", s.message_any, dict(r=r, rem=R))
    return out
