from .. import high as h, hduplex as f
from . import c10

LEVEL = "model_checking"
TECHNIQUE = c10.TECHNIQUE
ASSUMPTIONS = c10.ASSUMPTIONS + ["output is read before input is queued over it (the calls share the state bytes)"]
NOTE = ("All inputs; rates 3..1600; operation sequences: every position with every kind of partial input, every delimited end near the limit, output in "
        "pieces, and sequences of 26 operations with edge-biased lengths (refused ones included).")
P = "KeccakWidth1600_Duplex"
ROOTS = [P + x for x in ("Initialize", "ing", "ingFeedPartialInput", "ingFeedZeroes", "ingOverwritePartialInput", "ingOverwriteWithZeroes",
                         "ingGetFurtherOutput", "ingGetFurtherOutputAndAdd")]


def near(rate, k):
    t = (rate - 2) // 8
    return sorted({0, 1, t - k - 1, t - k, t - k + 1, t, t + 1} & set(range(300)))


def jobs(tier):
    deep = tier != "quick"
    sc = [("parameters", f.params, {}, 1), ("large lengths", f.big, {}, 1)]
    for i in range(4):
        sc.append((f"sequences {i}", f.seqs, dict(rates=range(3 + i, 1601, 4 if deep else 52), seed=1, runs=8 if deep else 2), 4))
    for i in range(8):
        rates = (3, 4, 8, 9, 10, 11, 15, 16, 17, 18, 24, 72, 1088) + tuple(range(1337, 1353)) + tuple(range(1584, 1601))
        if deep:
            rates = range(3, 1601)
        sc.append((f"delimited ends {i}", f.ends, dict(rates=rates[i::8]), 4))
        sc.append((f"outputs {i}", f.outs, dict(rates=rates[i::8]), 2))
    for rate in (10, 66, 1026, 1344, 1346, 1600):
        t = (rate - 2) // 8
        sc.append((f"positions r{rate}", f.grid, dict(rate=rate, ks=range(t + 1) if deep or rate == 1346 else sorted({0, 1, 7, 8, t - 8, t - 1, t} & set(range(t + 1))), ns=near), 4, deep or rate != 1346 or True))
    return h.jobs("C17", "KeccakDuplex", "KeccakDuplex.h", ["KeccakWidth1600_DuplexInstance"], sc, roots=ROOTS, bounded=c10.BOUND)
