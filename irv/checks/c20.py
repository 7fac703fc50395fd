import random

from .. import high as h, hfarf as f
from . import c10, c19

LEVEL = "model_checking"
TECHNIQUE = c19.TECHNIQUE.replace("the Farfalle functions", "the authenticated-encryption functions")
ASSUMPTIONS = c19.ASSUMPTIONS[:3] + ["a session ends with the first rejected message"]
NOTE = ("All keys, nonces, metadata, plaintexts and (for rejection) all ciphertexts and tags; lengths in bits around byte, block and batch boundaries; "
        "sessions of up to 6 messages with sender and receiver side by side; every single-bit tag error. Every build target whose code differs.")


def cases(W, P, alg, mode, deep):
    b = 8 * W
    out = []
    ls = [0, 1, 5, 6, 7, 8, 9, 15, 16, 128, b - 130, b - 129, b - 128, b - 127, b - 9, b - 8, b - 7, b - 2, b - 1, b, b + 1, 2 * b - 128, 2 * b - 3, 2 * b]
    ls = [x for x in ls if x >= 0]
    for i, n in enumerate(ls):
        for j, m in enumerate((0, 1, 5, 6, 7, 8, b - 2, b - 1, b)):
            if deep or (i + j) % 2 == 0 or m == 0 or n == 0:
                out.append((128, 128, [(n, m, None)] + ([(m, n, None)] if deep else [])))
    for n in (0, 3, 8, b - 8, b - 1, b, b + 1):       # nonces and keys
        out.append((min(n, b - 1), n, [(9, 0, None)]))
    r = random.Random(f"{alg} {mode}")
    for i in range(200 if deep else 12):
        L = lambda: r.choice([0, 0, 1, 7, 8, r.randrange(b), r.randrange(b), b - 1, b, r.randrange(3 * b)])
        out.append((r.randrange(b), r.randrange(2 * b), [(L(), L(), None) for _ in range(6)]))
    for n in (P * b - 128, P * b, (P + 1) * b - 3, (2 * P + 1) * b):
        out.append((128, 96, [(n, 0, None), (1, n + 2, None)]))
    return out


def errors(W, mode, deep):
    t = 128 if mode == "SANE" else 256
    out = [(128, 128, [(n, 3, None)] * k + [(n, m, i)]) for i in range(t) for n, m, k in (((9, 0, 0),) if not deep else ((9, 0, 0), (0, 0, 1), (64, 5, 2)))]
    out += [(128, 128, [(n, m, None)] * k + [(n, m, i)]) for i in (0, 7, 8, t - 1, t - 8, 77) for n, m, k in ((0, 0, 0), (0, 8, 1), (1, 0, 1), (8 * W + 3, 1, 0), (7, 8 * W, 2))]
    return out


def scenarios(alg, W, P, deep):
    sc = [("refused keys", f.badkey, dict(alg=alg), 1)]
    for mode in ("SANE", "SANSE"):
        cs, es = cases(W, P, alg, mode, deep), errors(W, mode, deep)
        k = 4
        for i in range(k):
            sc.append((f"{mode} messages {i}", f.sessions, dict(alg=alg, mode=mode, cases=cs[i::k]), 4))
        for i in range(2):
            sc.append((f"{mode} wrong tags {i}", f.sessions, dict(alg=alg, mode=mode, cases=es[i::2]), 3))
        for n, m in ((0, 0), (1, 0), (8, 8), (0, 9), (13, 1), (8 * W, 0), (8 * W + 7, 16)):
            sc.append((f"{mode} arbitrary tag {n} {m}", f.forged, dict(alg=alg, mode=mode, n=n, m=m), 1, True))
    return sc


def jobs(tier):
    deep = tier != "quick"
    roots = c19.FN + [f"Kravatte_{m}_{x}" for m in ("SANE", "SANSE") for x in ("Initialize", "Wrap", "Unwrap")]
    return h.jobs("C20", "Kravatte", "KravatteModes.h", ["Kravatte_SANE_Instance", "Kravatte_SANSE_Instance"], scenarios("K", 200, 8, deep), roots=roots,
                  bounded=c10.BOUND, thin=1 if deep else 3)
