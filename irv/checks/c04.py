from .. import low, targets as T
from ..run import Job
from . import c02

LEVEL = "proof"
TECHNIQUE = "contracts on every PlSnP function over P abstract states, discharged by symbolic execution of the LLVM IR with canonical xor/and normal form"
ASSUMPTIONS = []
NOTE = 'All states and data; round functions and access functions of every x2/x4/x8 C implementation; lane strides sampled. Trusted: clang front end, IR semantics of the verifier.'
CONFS = ["K1600x2-SSSE3-u2", "K1600x2-SSSE3-ua", "K1600x2-XOP-u2", "K1600x2-XOP-ua", "K1600x2-AVX512-u4", "K1600x2-AVX512-u12",
         "K1600x2-AVX512-ua", "K1600x4-AVX2-u6", "K1600x4-AVX2-u12", "K1600x4-AVX2-ua", "K1600x4-AVX512-u4", "K1600x4-AVX512-u12",
         "K1600x4-AVX512-ua", "K1600x8-AVX512-u12", "K1600x8-AVX512-ua"]
LANES = ("AddLanesAll", "OverwriteLanesAll", "ExtractLanesAll", "ExtractAndAddLanesAll")


def par_jobs(tier, pfx0, confs, par_of, rounds, base=()):
    out = []
    groups = {}
    for f in confs:
        groups.setdefault(par_of(f), []).append(tuple(base) + (f,) if isinstance(base, (list, tuple)) else (base(f), f))
    for par, frs in groups.items():
        pfx = f"{pfx0}times{par}"
        for fr in frs:
            f = fr[-1]
            h = T.harness(pfx, par, fr)
            have = T.defined(fr)
            for fn, n, arg in rounds(pfx):
                if fn in have:
                    out.append(Job(f"{f}:{fn}{n if arg else ''}", fr, low.permute, dict(pfx=pfx, par=par, fn=fn, nr=n, arg=arg), harness=h, weight=par * n / 12))
        roots = [f"{pfx}_{x}" for x in c02.OPS + LANES + ("OverwriteWithZeroes", "InitializeAll")]
        for fr, same in T.distinct(frs, roots):
            f = fr[-1]
            alias = " [same code: " + ", ".join(x[-1] for x in same) + "]" if same else ""
            h = T.harness(pfx, par, fr)
            for op in c02.OPS:
                full = tier == "thorough"
                out.append(Job(f"{f}:{op}{alias}", fr, low.access, dict(pfx=pfx, par=par, op=op, full=full), harness=h, weight=par,
                               bounded=None if full else "quick tier: lengths > 17 only where an end is next to a lane boundary; all in the thorough tier"))
            for op in ("AddByte", "OverwriteWithZeroes"):
                out.append(Job(f"{f}:{op}{alias}", fr, low.access, dict(pfx=pfx, par=par, op=op), harness=h))
            for op in LANES:
                out.append(Job(f"{f}:{op}{alias}", fr, low.lanes_all, dict(pfx=pfx, par=par, op=op), harness=h, weight=par / 2,
                               bounded="lane strides laneCount, laneCount+1, 25, 28 and, for input, 1: the stride enters the addresses linearly"))
            out.append(Job(f"{f}:InitializeAll{alias}", fr, low.initialize, dict(pfx=pfx, par=par, fn=f"{pfx}_InitializeAll"), harness=h))
    return out


def rounds(pfx):
    return [(f"{pfx}_PermuteAll_{n}rounds", n, False) for n in (4, 6, 12, 24)]


def jobs(tier):
    return par_jobs(tier, "KeccakP1600", T.present(CONFS), lambda f: int(f[6]), rounds)
