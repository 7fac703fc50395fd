from .. import high as h, hany as a, hfips as f
from . import c10

LEVEL = "model_checking"
TECHNIQUE = c10.TECHNIQUE
ASSUMPTIONS = c10.ASSUMPTIONS
NOTE = ("All messages of any byte length (below 2^48, loop invariants; quick: last blocks of chosen lengths), any output length; bit lengths around the block boundaries of each function (every residue modulo 8 and every byte position for the "
        "last piece), several divisions over updates and squeezes.")
ROOTS = ["Keccak_HashInitialize", "Keccak_HashUpdate", "Keccak_HashFinal", "Keccak_HashSqueeze"]


def kh_cases(name, deep):
    rate, _, hl, d = f.SHA3[name]
    r = rate // 8
    cs = []
    for n in range(0, 8 * r + 9) if deep else sorted(set(range(0, 34)) | set(range(4 * r - 4, 4 * r + 5)) | set(range(8 * r - 33, 8 * r + 33))):
        cs.append((rate, hl, d, (n,), () if hl else (hl or 8 * (n % 3), 8 * r, 8)))
    for k in (8, 8 * r - 8, 8 * r, 8 * r + 8):
        for n in list(range(0, 18)) + [8 * r - 9, 8 * r - 1, 8 * r, 8 * r + 1, 16 * r - 3]:
            cs.append((rate, hl, d, (k, n), () if hl else (8,)))
    for ps in [(0, 0, 5), (8,) * 6 + (3,), (8 * r, 8 * r, 7), (8 * r - 8, 8, 1), (16, 8 * r, 0, 8, 15), (24 * r + 6,), (24 * r - 1,)]:
        for os_ in ((), (0, 8, 8 * r), (8 * r - 8, 16, 8 * r)):
            cs.append((rate, hl, d, ps, os_))
    return cs


def suffixes(deep):
    """suffix bits and message bits together in one or two bytes"""
    return [(1344, 64, d, (k + n,), ()) for d in (range(1, 256) if deep else (1, 2, 3, 4, 6, 0x1F, 0x20, 0x3F, 0x40, 0x7F, 0x80, 0x81, 0xFF))
            for n in range(8) for k in (0, 1328, 1336)]


def any_jobs(absorb, squeeze, message, output, deep):
    """contracts for any length"""
    sc = []
    R = None if deep else (0, 1, 70, -1)
    for n in absorb:
        for k in range(200) if deep else (0, 1, 71):
            if k < RATES(n):
                sc.append((f"{n} update of any length at {k}", a.absorb_any, dict(name=n, k=k, rem=R), 1))
    for n in squeeze:
        for k in range(200) if deep else (0, 1, 71):
            if k <= RATES(n):
                sc.append((f"{n} squeeze of any length at {k}", a.squeeze_any, dict(name=n, k=k, rem=R), 1))
    sc += [(f"{n} of any message", a.message_any, dict(name=n, rem=R), 1) for n in message]
    return sc + [(f"{n} with any output length", a.output_any, dict(name=n, rem=R), 1) for n in output]


def RATES(n):
    w = n.split()
    if n.startswith("TurboSHAKE"):
        return 200 - int(w[1]) // 8
    return f.SHA3[w[-1]][0] // 8 if w[-1] in f.SHA3 else {"128": 168, "256": 136}[n[-3:]]


def jobs(tier):
    deep = tier != "quick"
    sc = [(f"Keccak_Hash {n}", f.kh, dict(cases=kh_cases(n, deep)), 4) for n in f.SHA3]
    sc += [("Keccak_Hash suffixes", f.kh, dict(cases=suffixes(deep)), 4), ("Keccak_Hash misuse", f.kh_misuse, {}, 2)]
    sc += any_jobs(["Keccak_Hash " + n for n in f.SHA3], ["Keccak_Hash SHAKE128", "Keccak_Hash SHAKE256"], (), (), deep)
    out = h.jobs("C12", "FIPS202", "KeccakHash.h", ["Keccak_HashInstance"], sc, roots=ROOTS, bounded=c10.BOUND)
    sc = [("SimpleFIPS202", f.simple, dict(ns=lambda r: range(2 * r + 2) if deep else (0, 1, r - 2, r - 1, r, r + 1, 2 * r - 1, 2 * r, 3 * r + 5),
                                           outs=lambda r: (0, 1, 32, r, r + 1, 2 * r, 3 * r + 1)), 5)]
    sc += any_jobs((), (), list(f.SHA3), ["SHAKE128", "SHAKE256"], deep)
    out += h.jobs("C12", "FIPS202", "KeccakHash.h", ["Keccak_HashInstance"], sc, roots=[x.replace("-", "_") for x in f.SHA3], bounded=c10.BOUND)
    return out
