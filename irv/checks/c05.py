from .. import low, lowk, targets as T
from ..run import Job
from ..si import SIMachine
from . import c04

LEVEL = "proof"
TECHNIQUE = ("contract on each bulk kernel against the scalar permutation and rolling functions: loop invariants (with the partial sums as ghost state) "
             "inferred and discharged (integers by SMT, data by symbolic execution of the LLVM IR in canonical xor/and form)")
ASSUMPTIONS = ["kRoll, xAccu and yAccu are aligned as in the Kravatte instance", "lengths below 2^48",
               "laneOffsetSerial is at most the span of one round of blocks", "Kravatte kernels: at least one whole group (the callers' guard)"]
NOTE = ("All states, keys, data and data lengths; KT128/KT256 leaves; sampled lane counts and strides (more in the thorough tier). "
        "Trusted: clang front end, IR semantics of the verifier, z3.")


def jobs(tier):
    out = []
    confs = [(f,) for f in T.present(c04.CONFS)]
    deep = tier != "quick"
    for par in (2, 4, 8):
        pfx = f"KeccakP1600times{par}"
        grp = [fr for fr in confs if fr[0][6] == str(par)]

        def over(fn):
            have = [fr for fr in grp if fn in T.defined(fr)]
            for fr, same in T.distinct(have, [fn, pfx + "_ExtractBytes"]):
                yield fr, " [same code: " + ", ".join(x[-1] for x in same) + "]" if same else "", T.harness(pfx, par, fr)
        for fn, nr in ((f"KeccakF1600times{par}_FastLoop_Absorb", 24), (f"KeccakP1600times{par}_12rounds_FastLoop_Absorb", 12)):
            for fr, alias, h in over(fn):
                # laneCount, laneOffsetParallel, laneOffsetSerial
                cs = [(21, 1024, 21), (17, 17, 17 * par)]
                if nr == 12:
                    cs += [(25, 25, 25 * par), (9, 10, 3)]
                if par * nr <= 48:
                    cs += [(1, 1, par), (16, 1024, 16), (18, 40, 18)]
                if deep:
                    cs += [(25, 25, 25 * par), (9, 10, 3), (1, 1, par), (16, 1024, 16), (18, 40, 18), (21, 21, 21 * par), (13, 13, 13 * par)]
                    cs += [(n, n, n * par) for n in range(2, 25)] + [(n, n + 3, n) for n in (1, 17, 20, 21, 25)]
                for cnt, lop, los in dict.fromkeys(cs):
                    kw = dict(pfx=pfx, par=par, fn=fn, nr=nr)
                    few = [(cnt, lop, los, k, t) for k, t in ((0, 0), (1, 7), (2, 0))]
                    out.append(Job(f"{fr[-1]}:{fn}:{cnt},{lop},{los}{alias}", fr, lowk.fastloop_par_all, dict(kw, cnt=cnt, lop=lop, los=los), harness=h,
                                   weight=nr * par, engine=SIMachine, mem=0.8 + par * nr / 50, fallback=(lowk.fastloop_par, dict(kw, cases=few), "0 to 2 iterations")))
        W = 200 * par
        for op in ("Compress", "Expand"):
            fn = f"{pfx}_Kravatte{op}"
            for fr, alias, h in over(fn):
                kw = dict(F="Kravatte", par=par, fn=fn, align=64)
                out.append(Job(f"{fr[-1]}:{fn}{alias}", fr, getattr(lowk, op.lower() + "_all"), kw, harness=h, weight=par * 12, engine=SIMachine, mem=par * 0.6,
                               fallback=(getattr(lowk, op.lower()), dict(kw, cases=[(1, 0), (1, W - 1), (2, 5)]), "1 or 2 groups of blocks")))
        for sec in (128, 256):
            fn = f"{pfx}_KT{sec}ProcessLeaves"
            for fr, alias, h in over(fn):
                out.append(Job(f"{fr[-1]}:{fn}{alias}", fr, lowk.leaves_all, dict(sec=sec, fn=fn, par=par), harness=h, weight=4000, engine=SIMachine, mem=6))
    return out
