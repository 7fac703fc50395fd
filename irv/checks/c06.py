from .. import low, targets as T
from ..run import Job
from . import c02

LEVEL = "proof"
TECHNIQUE = "contracts on the Xoodoo permutations and state-access functions, discharged by symbolic execution of the LLVM IR with canonical xor/and normal form"
ASSUMPTIONS = []
NOTE = 'All states, data, round counts, offsets and lengths, every C implementation. Trusted: clang front end, IR semantics of the verifier.'


def jobs(tier):
    out = []
    pfx = "Xoodoo"
    for f in T.present(["Xoodoo-ref", "Xoodoo-plain-ua", "Xoodoo-SSE2", "Xoodoo-AVX512"]):
        fr = (f,)
        h = T.harness(pfx, 1, fr)
        have = T.defined(fr)
        fns = [(f"{pfx}_Permute_{n}rounds", n, False) for n in (6, 12)]
        if f"{pfx}_Permute_Nrounds" in have:
            fns += [(f"{pfx}_Permute_Nrounds", n, True) for n in range(1, 13)]
        out.append(Job(f"{f}:permute", fr, low.permute_all, dict(pfx=pfx, par=1, fns=[x for x in fns if x[0] in have]), harness=h, weight=2))
        for op in c02.OPS + ("AddByte", "OverwriteWithZeroes"):
            out.append(Job(f"{f}:{op}", fr, low.access, dict(pfx=pfx, par=1, op=op), harness=h))
        out.append(Job(f"{f}:Initialize", fr, low.initialize, dict(pfx=pfx, par=1, fn=f"{pfx}_Initialize"), harness=h))
    return out
