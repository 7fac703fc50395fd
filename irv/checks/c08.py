from .. import low, lowk, targets as T
from ..run import Job
from ..si import SIMachine

LEVEL = "proof"
TECHNIQUE = ("contract on each Xoodyak full-block loop against Up/Down of Cyclist: loop invariants inferred and discharged (integers by SMT, data by symbolic "
             "execution of the LLVM IR in canonical xor/and form), for all states, data and lengths")
ASSUMPTIONS = ["at least one whole block is given (the callers' guard)", "lengths below 2^48"]
NOTE = 'All states, data and lengths; separate and in-place buffers; every C implementation. Trusted: clang front end, IR semantics of the verifier, z3.'
OPS = ("AbsorbKeyed", "AbsorbHash", "SqueezeKeyed", "SqueezeHash", "Encrypt", "Decrypt")
RATE = {"AbsorbKeyed": 44, "AbsorbHash": 16, "SqueezeKeyed": 24, "SqueezeHash": 16, "Encrypt": 24, "Decrypt": 24}


def jobs(tier):
    out = []
    for f in T.present(["Xoodoo-plain-u1", "Xoodoo-plain-ua", "Xoodoo-SSE2", "Xoodoo-AVX512", "Xoodoo-ref"]):
        fr = (f,)
        have = T.defined(fr)
        h = T.harness("Xoodoo", 1, fr)
        for op in OPS:
            if f"Xoodyak_{op}FullBlocks" not in have:
                continue
            r = RATE[op]
            for ip in ((False, True) if op in ("Encrypt", "Decrypt") else (False,)):
                cases = [(k, t, ip) for k in (1, 2, 3) for t in (0, 1, r - 1)]
                out.append(Job(f"{f}:Xoodyak_{op}FullBlocks{':in place' if ip else ''}", fr, lowk.xoodyak_all, dict(op=op, inplace=ip), harness=h, engine=SIMachine,
                               fallback=(lowk.xoodyak, dict(op=op, cases=cases), "1 to 3 whole blocks")))
    return out
