from .. import low, lowk, targets as T
from ..run import Job
from ..si import SIMachine
from . import c04

LEVEL = "proof"
TECHNIQUE = c04.TECHNIQUE + "; Xoofff kernels: loop invariants (with the partial sums as ghost state) inferred and discharged for every length"
ASSUMPTIONS = ["kernels: at least one whole group of blocks is given (the callers' guard), lengths below 2^48, kRoll, xAccu and yAccu aligned as in the Xoofff instance"]
NOTE = ('All states and data; every x4/x8/x16 C implementation; lane strides sampled; Xoofff kernels for all keys, data and lengths. '
        'Trusted: clang front end, IR semantics of the verifier, z3.')


def rounds(pfx):
    return [(f"{pfx}_PermuteAll_{n}rounds", n, False) for n in (6, 12)] + [(f"{pfx}_PermuteAll_Nrounds", n, True) for n in range(1, 13)]


def base(f):
    return "Xoodoo-AVX512" if "AVX512" in f else "Xoodoo-SSE2"


def jobs(tier):
    confs = T.present(["Xoodoox4-SSSE3", "Xoodoox4-AVX512", "Xoodoox8-AVX2", "Xoodoox8-AVX512", "Xoodoox16-AVX512"])
    out = c04.par_jobs(tier, "Xoodoo", confs, lambda f: int(f.split("x")[1].split("-")[0]), rounds, base=base)
    for fr in [(f,) for f in T.present(["Xoodoo-AVX512"])] + [(base(f), f) for f in confs]:
        par = int(fr[-1].split("x")[1].split("-")[0]) if len(fr) > 1 else 1
        x = f"Xooffftimes{par}" if par > 1 else "Xoofff"
        pfx = f"Xoodootimes{par}" if par > 1 else "Xoodoo"
        have = T.defined(fr)
        h = T.harness(pfx, par, fr)
        mem = 2.5 if par < 16 else 5
        for op, swap in (("Compress", True), ("Expand", False)):
            fn = f"{x}_{op}FastLoop"
            if fn not in have:
                continue
            kw = dict(F="Xoofff", par=par, fn=fn, align=64)
            if swap:
                kw["swap"] = True
            W = 48 * par
            out.append(Job(f"{fr[-1]}:{fn}", fr, getattr(lowk, op.lower() + "_all"), kw, harness=h, weight=par * 12, engine=SIMachine, mem=mem,
                           fallback=(getattr(lowk, op.lower()), dict(kw, cases=[(1, 0), (1, W - 1), (2, 5)]), "1 or 2 groups of blocks")))
        if f"{x}_AddIs" in have:
            lens = sorted(set(range(0, 8 * 17)) | {n + d for n in (256, 384, 512, 1024, 1536, 2048) for d in (-8, -1, 0, 1, 8)} | {8 * n for n in range(100, 201, 7)})
            for i in range(4):
                out.append(Job(f"{fr[-1]}:{x}_AddIs:{i}", fr, lowk.add_is, dict(fn=f"{x}_AddIs", lens=lens[i::4]), harness=h, weight=par,
                               bounded="bit lengths up to 2056, sampled above 135"))
    return out
