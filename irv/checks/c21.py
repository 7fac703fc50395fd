from .. import high as h, hfarf as f
from . import c10, c19

LEVEL = "model_checking"
TECHNIQUE = c19.TECHNIQUE.replace("the Farfalle functions", "the wide-block-cipher functions")
ASSUMPTIONS = c19.ASSUMPTIONS[:3]
NOTE = ("All keys, tweaks and data (for rejection: all ciphertexts); lengths in bits around byte, block, split and batch boundaries; every redundancy bit. "
        "Every build target whose code differs.")


def scenarios(alg, W, P, deep):
    b = 8 * W
    ns = sorted(set(range(0, 40)) | {63, 64, 65, b - 1, b, b + 1, b + 8, b + 15, 2 * b - 12, 2 * b - 11, 2 * b - 10, 2 * b - 9, 2 * b - 8, 2 * b - 1, 2 * b, 3 * b - 11, 3 * b - 10,
                                    3 * b - 9, 3 * b, 4 * b - 10, 4 * b - 9, 4 * b + 5, 5 * b + 3})
    if deep:
        ns = sorted(set(ns) | set(range(0, 2 * b + 40)) | {k * b + d for k in range(2, 8) for d in range(-12, 4)})
    ws = (0, 1, 7, 8, b - 1, b, b + 3)
    cs = [(n, ws[i % len(ws)]) for i, n in enumerate(ns)] + [(n, w) for n in (16, 2 * b - 9, 3 * b) for w in ws]
    cs += [(m * b + d, 8) for m in (P, 2 * P, P + 1) for d in (-9, 3)]
    ae = sorted(set(range(0, 20)) | {120, 128, b - 129, b - 128, b - 127, b, 2 * b - 139, 2 * b - 138, 2 * b - 137, 2 * b - 136, 2 * b, 3 * b - 1, 4 * b - 138, 4 * b - 137})
    if deep:
        ae = sorted(set(ae) | set(range(2 * b + 40)))
    ac = [(n, ws[i % len(ws)]) for i, n in enumerate(ae) if n >= 0] + [(P * b, 0)]
    tc = [(n, i) for n in (8, 11) for i in range(128)] + [(n, i) for n in (0, 1, 64, b, 2 * b - 5, 3 * b) for i in (0, 5, 7, 8, 63, 120, 127)]
    sc = []
    for i in range(3):
        sc += [(f"WBC {i}", f.wbc, dict(alg=alg, cases=cs[i::3]), 4), (f"WBC-AE {i}", f.ae, dict(alg=alg, cases=ac[i::3]), 2),
               (f"WBC-AE redundancy {i}", f.ae_tampered, dict(alg=alg, cases=tc[i::3]), 2)]
    for n, w in ((0, 0), (1, 8), (7, 0), (16, 1), (64, 0), (b, 3), (2 * b - 130, 0), (3 * b + 5, 9)):
        sc.append((f"WBC-AE arbitrary data {n} {w}", f.ae_forged, dict(alg=alg, n=n, w=w), 1, True))
    return sc


def jobs(tier):
    deep = tier != "quick"
    roots = c19.FN + [f"Kravatte_{m}_{x}" for m in ("WBC", "WBCAE") for x in ("Encipher", "Decipher")]
    return h.jobs("C21", "Kravatte", "KravatteModes.h", ["Kravatte_Instance"], scenarios("K", 200, 8, deep), roots=roots, bounded=c10.BOUND, thin=1 if deep else 3)
