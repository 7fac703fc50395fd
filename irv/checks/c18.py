import random

from .. import high as h, hduplex as f
from . import c10

LEVEL = "model_checking"
TECHNIQUE = c10.TECHNIQUE
ASSUMPTIONS = c10.ASSUMPTIONS
NOTE = ("All seeds; capacities over the whole range; sequences of feed, fetch and forget of up to 14 operations with lengths around multiples of the "
        "block, every position for both feed and fetch.")
P = "KeccakWidth1600_SpongePRG_"
ROOTS = [P + x for x in ("Initialize", "Feed", "Fetch", "Forget")] 


def cases(caps, runs):
    out = []
    for cap in caps:
        rho = (1598 - cap) // 8
        for run in range(runs):
            r = random.Random(f"{cap} {run}")
            ops, pos = [], 0
            for _ in range(14):
                k = r.randrange(7)
                n = max(0, r.choice([0, 1, rho - 1, rho, rho + 1, 2 * rho, 2 * rho + 1, rho - pos, rho - pos + 1, rho - pos - 1, r.randrange(rho + 1), r.randrange(3 * rho + 1)]))
                if k < 3:
                    ops.append(("feed", n))
                    pos = (pos + n) % rho
                elif k < 6:
                    ops.append(("fetch", n))
                    pos = 0 if n else pos
                else:
                    ops.append(("forget",))
                    pos = 0
            ops += [("fetch", min(40, rho + 1)), ("fetch", 1)]
            out.append((cap, ops))
    return out


def grid(cap, ks):
    rho = (1598 - cap) // 8
    out = []
    for k in ks:
        for n in sorted({0, 1, rho - k - 1, rho - k, rho - k + 1, 2 * rho - k, 2 * rho - k + 1} & set(range(10 ** 4))):
            out.append((cap, [("feed", rho + k), ("feed", n), ("fetch", 8)]))
            out.append((cap, [("feed", k), ("fetch", k), ("fetch", n), ("fetch", 1)]))
        out.append((cap, [("feed", k), ("forget",), ("fetch", 8), ("fetch", rho)]))
        out.append((cap, [("feed", 3), ("fetch", k), ("forget",), ("fetch", k), ("feed", 0), ("fetch", 8)]))
    return out


def jobs(tier):
    deep = tier != "quick"
    sc = [("parameters", f.prg_params, {}, 1)]
    g = grid(254, range(0, 169)) + grid(1590, (0, 1)) + grid(1574, range(0, 4)) + grid(0, (0, 1, 198, 199)) + grid(800, (0, 5, 99)) + grid(806, (0, 5)) + grid(798, (0, 98, 99))
    for i in range(4):
        sc.append((f"positions {i}", f.prg, dict(cases=g[i::4]), 4))
        caps = list(range(0, 1591)) if deep else list(range(0, 1591, 31)) + [254, 256, 510, 512, 790, 791, 794, 797, 798, 799, 800, 801, 802, 803, 1589, 1590]
        sc.append((f"sequences {i}", f.prg, dict(cases=cases(caps[i::4], 4 if deep else 1)), 4))
    return h.jobs("C18", "KeccakPRG", "KeccakPRG.h", ["KeccakWidth1600_SpongePRG_Instance"], sc, roots=ROOTS, bounded=c10.BOUND)
