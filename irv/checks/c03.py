from .. import low, lowk, targets as T
from ..run import Job
from ..si import SIMachine

LEVEL = "proof"
TECHNIQUE = ("contract on each fast absorbing loop against the scalar permutation: loop invariant inferred and discharged (integers by SMT, data by "
             "symbolic execution of the LLVM IR in canonical xor/and form), for all states, data and data lengths, for every lane count")
ASSUMPTIONS = ["dataByteLen below 2^48", "laneCount 1 to 25"]
NOTE = ('All states, data and data lengths; every lane count 1..25 (quick tier: 1, 2, 4, 8, 9, 12, 13, 16, 17, 18, 20, 21, 24, 25); every C implementation. '
        'Assembly implementations are outside.')
FNS = (("KeccakF1600_FastLoop_Absorb", 24), ("KeccakP1600_12rounds_FastLoop_Absorb", 12))
QUICK = (1, 2, 4, 8, 9, 12, 13, 16, 17, 18, 20, 21, 24, 25)


def jobs(tier):
    out = []
    confs = [(f,) for f in T.present(T.K1600)]
    pfx = "KeccakP1600"
    for fn, nr in FNS:
        have = [fr for fr in confs if fn in T.defined(fr)]
        for fr, same in T.distinct(have, [fn, pfx + "_ExtractBytes"]):
            alias = " [same code: " + ", ".join(x[-1] for x in same) + "]" if same else ""
            h = T.harness(pfx, 1, fr)
            for n in QUICK if tier == "quick" else range(1, 26):
                cases = [(n, k, t) for k, t in ((0, 8 * n - 1), (1, 8 * n - 1), (2, 0), (3, 5))]
                out.append(Job(f"{fr[-1]}:{fn}:laneCount={n}{alias}", fr, lowk.fastloop_all, dict(pfx=pfx, fn=fn, nr=nr, cnt=n), harness=h, weight=nr, engine=SIMachine,
                               fallback=(lowk.fastloop, dict(pfx=pfx, fn=fn, nr=nr, cases=cases), "0 to 3 whole blocks")))
    return out
