from .. import high as h, hxood as f
from . import c10

LEVEL = "model_checking"
TECHNIQUE = c10.TECHNIQUE.replace("the sponge functions", "the Cyclist functions").replace("contracts of Keccak-p[1600] (", "contracts of Xoodoo and the full-block kernels (")
ASSUMPTIONS = ["the low-level layer meets its contract (decided by C06, C08)", "lengths and operation sequences are those enumerated",
               "key and ID lengths sum to at most 43, keyed operations only with a key (asserted by the library in debug builds only)"]
NOTE = ("All keys, IDs, counters and data; every length up to 140 per operation, every key/ID length, pairs of operations and pseudo-random sequences of 8 operations; "
        "in place and not; with and without full-block acceleration.")
FN = ["Xoodyak_" + x for x in ("Initialize", "Absorb", "Encrypt", "Decrypt", "Squeeze", "SqueezeKey", "Ratchet")]


def jobs(tier):
    deep = tier != "quick"
    ev, ks, sq = f.every(deep), f.keys(deep), f.sequences(2000 if deep else 120, deep)
    inv = [((16, 16, 0), (a, b)) for a in (0, 1, 23, 24, 25, 48, 49, 100, 250) for b in (0, 7, 24, 73)]
    sc = [("decryption inverts encryption", f.inverse, dict(cases=inv), 2)]
    for i in range(4):
        sc += [(f"every length {i}", f.ops, dict(cases=ev[i::4]), 3), (f"keys {i}", f.ops, dict(cases=ks[i::4]), 2), (f"call sequences {i}", f.ops, dict(cases=sq[i::4]), 4)]
    return h.jobs("C25", "Xoodyak", "Xoodyak.h", ["Xoodyak_Instance"], sc, roots=FN, bounded=c10.BOUND)
