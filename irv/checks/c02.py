from .. import low, targets as T
from ..run import Job

LEVEL = "proof"
TECHNIQUE = "contracts on every state-access function over the abstract 200-byte state, all (offset, length) enumerated, data and state symbolic"
ASSUMPTIONS = []
NOTE = 'All states, all data, every (offset, length); for K1600-ref-32bits the quick tier enumerates a subset of lengths. Trusted: clang front end, IR semantics of the verifier.'
OPS = ("AddBytes", "OverwriteBytes", "ExtractBytes", "ExtractAndAddBytes")


def jobs(tier):
    out = []
    pfx = "KeccakP1600"
    roots = [f"{pfx}_{x}" for x in OPS + ("AddByte", "OverwriteWithZeroes", "Initialize", "StaticInitialize")]
    for fr, same in T.distinct([(f,) for f in T.present(T.K1600)], roots):
        f = fr[0]
        alias = " [same code: " + ", ".join(x[0] for x in same) + "]" if same else ""
        h = T.harness(pfx, 1, fr)
        full = tier == "thorough" or f != "K1600-ref-32bits"
        for op in OPS:
            n = 6 if "32bits" in f else 2
            for k in range(n):
                out.append(Job(f"{f}:{op}:{k}{alias}", fr, low.access, dict(pfx=pfx, par=1, op=op, part=k, parts=n, full=full),
                               harness=h, weight=5 if "32bits" in f else 2,
                               bounded=None if full else "quick tier: lengths > 17 only where an end is next to a lane boundary; all in the thorough tier"))
        for op in ("AddByte", "OverwriteWithZeroes"):
            out.append(Job(f"{f}:{op}{alias}", fr, low.access, dict(pfx=pfx, par=1, op=op), harness=h))
        out.append(Job(f"{f}:Initialize{alias}", fr, low.initialize, dict(pfx=pfx, par=1, fn=f"{pfx}_Initialize"), harness=h))
    # implementations with macros differ in AddByte only
    return out
