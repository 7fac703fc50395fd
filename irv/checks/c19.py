from .. import high as h, hfarf as f
from . import c10

LEVEL = "model_checking"
TECHNIQUE = c10.TECHNIQUE.replace("the sponge functions", "the Farfalle functions").replace("contracts of Keccak-p[1600] (", "contracts of the permutations and bulk kernels (")
ASSUMPTIONS = ["the low-level layer meets its contract (decided by C01, C02, C04, C05)", "lengths, flags and splits are those enumerated",
               "unused bits of a partial last input byte are zero", "no output is requested in the middle of a string"]
NOTE = ("All keys and data; key lengths around byte and width boundaries; input and output lengths up to 3 parallel batches, at every interesting "
        "position in the block; pseudo-random call sequences, refused calls included. Every build target whose code differs.")
FN = ["Kravatte_MaskDerivation", "Kra", "Vatte", "Kravatte"]


def scenarios(alg, W, P, deep):
    b = 8 * W
    sc = [("keys", f.keys, dict(alg=alg, cases=sorted(set(range(0, b, 1 if deep else 37)) | {0, 1, 7, 8, 9, 127, 128, 256, b - 9, b - 8, b - 7, b - 1, b, b + 1, b + 8, 2 * b, 1 << 32})), 3)]
    ks = sorted({0, 1, 7, 8, W // 2, W - 8, W - 1})
    near = lambda k: sorted({0, 1, W - k - 1, W - k, W - k + 1, 2 * W - k, 2 * W - k + 1, W} & set(range(4 * W)))
    far = lambda k: sorted({P * W - k, P * W - k - 1, P * W + W - k + 1, P * W, (P + 1) * W} & set(range(1 << 16)))
    bl = sorted({0, 1, 2, 7, 8, 9, b - 8, b - 1, b, b + 1, 2 * b - 1, 2 * b, 3 * b + 3})
    one = [(n, o, fl) for n in bl for o in (1, 8, b) for fl in (0, 1)] + [(n, o, fl) for n in (0, 5, b) for o in bl for fl in (0, 4, 5)]
    if deep:
        one += [(n, 8, 0) for n in range(0, 2 * b)] + [(1, n, 0) for n in range(0, 2 * b)]
    par = [(n, 8, 0) for m in (2, 4, 8, 16, P, 2 * P) for n in (m * b - 1, m * b, m * b + 1, (m + 1) * b, (m - 1) * b)]
    par += [(8, n, 0) for m in (2, 4, 8, 16, P, 2 * P) for n in (m * b - 1, m * b, m * b + 1, (m + 1) * b, (m - 1) * b)] + [(3 * P * b + 9, 3 * P * b + 1, 0)]
    cg, eg = f.compress_grid(W, ks, near, P), f.expand_grid(W, ks, near)
    if deep:
        cg, eg = f.compress_grid(W, range(W), near, P), f.expand_grid(W, range(W), near)
    cg += f.compress_grid(W, (0, 1, W - 1), far, P)
    eg += f.expand_grid(W, (0, 1, W - 1), far)
    sq = f.sequences(W, P, alg, 1600 if deep else 80)
    for i in range(4):
        sc += [(f"one call {i}", f.oneshot, dict(alg=alg, cases=one[i::4]), 3), (f"many blocks {i}", f.oneshot, dict(alg=alg, cases=sorted(set(par))[i::4]), 3),
               (f"input in pieces {i}", f.ops, dict(alg=alg, cases=cg[i::4]), 3), (f"output in pieces {i}", f.ops, dict(alg=alg, cases=eg[i::4]), 3),
               (f"call sequences {i}", f.ops, dict(alg=alg, cases=sq[i::4]), 4)]
    return sc


def jobs(tier):
    deep = tier != "quick"
    return h.jobs("C19", "Kravatte", "Kravatte.h", ["Kravatte_Instance"], scenarios("K", 200, 8, deep), roots=FN, bounded=c10.BOUND, thin=1 if deep else 3)
