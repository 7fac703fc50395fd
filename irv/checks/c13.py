from .. import high as h, hfips as f
from . import c10
from .c12 import any_jobs

LEVEL = "model_checking"
TECHNIQUE = c10.TECHNIQUE
ASSUMPTIONS = c10.ASSUMPTIONS
NOTE = ("All messages; any length of each absorb and squeeze (below 2^48, loop invariants; quick: last blocks of chosen lengths); every domain byte 1..255; every accepted capacity; lengths and divisions around block boundaries. The absorb/squeeze loops "
        "themselves are those of C10.")
ROOTS = ["TurboSHAKE", "TurboSHAKE_Initialize", "TurboSHAKE_Absorb", "TurboSHAKE_AbsorbDomainSeparationByte", "TurboSHAKE_Squeeze"]


def one(deep):
    cs = []
    for cap in range(0, 513, 8):
        r = 200 - cap // 8
        for n in (0, r - 1, r, 2 * r + 3) if cap not in (256, 512) else h.lens(r):
            for o in (32, 2 * r + 1) if cap not in (256, 512) else (0, 1, r - 1, r, r + 1, 3 * r):
                cs.append((cap, n, 0x1F, o))
    return cs


def doms(deep):
    return [(cap, n, d, 16) for cap in (256, 512) for d in range(1, 256) for n in (0, 5, 200 - cap // 8 - 1, 200 - cap // 8)]


def inc(deep):
    cs = []
    for cap in (256, 512) + (tuple(range(0, 513, 8)) if deep else (0, 8, 64, 504)):
        r = 200 - cap // 8
        for ps in c10.SPLITS(r):
            for os_ in c10.OUTS(r)[:4] if not deep else c10.OUTS(r):
                cs.append((cap, ps, 0x07, os_))
        for k in range(0, r, 1 if deep else 7):
            cs.append((cap, (k, r), 0x0B, (k, 1, r)))
        cs.append((cap, (5,), None, (r, 3)))
    return cs


def jobs(tier):
    deep = tier != "quick"
    cs = inc(deep)
    sc = [("TurboSHAKE one-shot", f.ts_oneshot, dict(cases=one(deep)), 4), ("TurboSHAKE domains", f.ts_oneshot, dict(cases=doms(deep)), 4),
          ("TurboSHAKE misuse", f.ts_misuse, {}, 2)]
    sc += [(f"TurboSHAKE incremental {i}", f.ts, dict(cases=cs[i::4]), 3) for i in range(4)]
    ts = [f"TurboSHAKE {c}" for c in (256, 512) + (tuple(range(0, 513, 8)) if deep else (0, 8, 504))]
    sc += any_jobs(ts, ts, ts, ts, deep)
    return h.jobs("C13", "TurboSHAKE", "TurboSHAKE.h", ["TurboSHAKE_Instance"], sc, roots=ROOTS, bounded=c10.BOUND)
