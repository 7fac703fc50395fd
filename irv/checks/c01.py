from .. import low, targets as T
from ..run import Job

LEVEL = "proof"
TECHNIQUE = "contracts on every permutation function, discharged by symbolic execution of the LLVM IR with canonical xor/and normal form and one cut per round"
ASSUMPTIONS = []
NOTE = "For every C implementation and every round count it offers: all 2^1600 states. Trusted: the clang front end and the verifier's reading of LLVM IR. The x86 assembler implementations are outside the IR verifier; they are covered by bounded differential runs only."


def jobs(tier):
    out = []
    for f in T.present(T.K1600):
        fr = (f,)
        pfx = "KeccakP1600"
        fns = [(f"{pfx}_Permute_{n}rounds", n, False) for n in (12, 24)]
        have = T.defined(fr)
        h = T.harness(pfx, 1, fr)
        if f"{pfx}_Permute_Nrounds" in have:
            for lo in range(1, 25, 4):
                out.append(Job(f"{f}:Nrounds{lo}-{lo + 3}", fr, low.permute_all, dict(pfx=pfx, par=1,
                           fns=[(f"{pfx}_Permute_Nrounds", n, True) for n in range(lo, lo + 4)]), harness=h, weight=3))
        out.append(Job(f"{f}:fixed", fr, low.permute_all, dict(pfx=pfx, par=1, fns=[x for x in fns if x[0] in have]), harness=h, weight=2))
        out.append(Job(f"{f}:init", fr, low.initialize, dict(pfx=pfx, par=1, fn=f"{pfx}_Initialize"), harness=h))
    return out
