from .. import high as h, hfips as f
from . import c10

LEVEL = "model_checking"
TECHNIQUE = c10.TECHNIQUE
ASSUMPTIONS = c10.ASSUMPTIONS
NOTE = ("All messages and customization strings; block lengths 8 to 4096 bytes; message lengths around multiples of the block up to several rounds of "
        "the widest parallel loop; divisions over updates and squeezes; every build target whose code differs (x8, x4, x2, x1 paths).")
ROOTS = [f"ParallelHash{s}{x}" for s in (128, 256) for x in ("", "_Initialize", "_Update", "_Final", "_Squeeze")]


def cases(sec, deep):
    one = []
    for B in (8, 16, 32, 64, 128, 256, 512, 1024, 4096):
        ks = (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 23, 31) if B < 300 or deep else (0, 1, 2, 5, 8, 9, 15)
        for k in ks:
            for d in (-1, 0, 1, B // 2):
                n = k * B + d
                if n >= 0:
                    one.append((sec, n, B, 64, 0))
    one += [(sec, n, 8, 64, 0) for n in range(0, 300 if deep else 170)] + [(sec, 8 * 255, 8, 64, 8), (sec, 8 * 256, 8, 64, 8), (sec, 8 * 256 + 1, 8, 64, 8)]
    one += [(sec, 5, 1 << k, 16, 3) for k in range(3, 61)] + [(sec, 0, 1 << k, 16, 3) for k in range(3, 64)] + [(sec, 100, 1 << k, 16, 3) for k in range(56, 64)]
    one += [(sec, 20, 8, 64, cl) for cl in list(range(0, 20)) + [8 * x for x in range(100, 175)]]
    one += [(sec, 20, 8, o, 8) for o in (1, 7, 9, 255, 256, 257, 8 * 136, 8 * 168 + 1, 65536)]
    inc = []
    for B in (8, 64, 128, 256, 1024):
        for ps in ((), (0,), (B,), (1, B - 1), (1, B), (B - 1, 1, B), (B - 1, 2, B), (B // 2, 9 * B), (3, 17 * B, B), (B, 8 * B, 5), (8 * B, 4 * B, 2 * B, B),
                   (5, 15 * B + B - 5, 1), (1, 0, 2), (2, B - 2, 0, 2 * B - 1), (7 * B + 1, 8 * B - 1), (1,) * 11):
            inc.append((sec, ps, B, 0, (64,), 8))
        for fx, os_ in ((0, (8, 1344, 13)), (0, (0, 24)), (100, ()), (1400, ())):
            inc.append((sec, (3, B), B, fx, os_, 5))
    return one, inc


def jobs(tier):
    deep = tier != "quick"
    sc = [("misuse", f.ph_misuse, {}, 2)]
    for sec in (128, 256):
        a, b = cases(sec, deep)
        sc += [(f"ParallelHash{sec} one-shot {i}", f.ph_oneshot, dict(cases=a[i::2]), 6) for i in range(2)] + [(f"ParallelHash{sec} incremental", f.ph, dict(cases=b), 6)]
    return h.jobs("C16", "SP800-185", "SP800-185.h", ["ParallelHash_Instance"], sc, roots=ROOTS, bounded=c10.BOUND, thin=1 if deep else 4)
