from .. import high as h

LEVEL = "model_checking"
TECHNIQUE = ("contracts on the sponge functions checked on the LLVM IR of the current sources by symbolic execution against contracts of "
             "Keccak-p[1600] (permutation uninterpreted, state access exact); data symbolic; lengths symbolic with inferred loop invariants, and enumerated (bounded)")
ASSUMPTIONS = ["the low-level layer meets its contract (decided by C01-C04)", "lengths, rates, suffixes and splits are those enumerated"]
NOTE = ("All data; every byte-aligned rate. Absorbing and squeezing any length (below 2^48, loop invariants) from any state, at every position "
        "for small rates and chosen positions for the others (all in the thorough tier; quick: last blocks of chosen lengths). "
        "Enumerated besides: lengths up to a few blocks at every position, suffixes, splits. Every build target whose code differs.")
SPONGES = (("KeccakWidth1600", 24, "KeccakSponge", "KeccakSponge.h"), ("TurboSHAKE", 12, "TurboSHAKE", "TurboSHAKE.h"))
BOUND = "rates, lengths and splits enumerated; data and states symbolic"


def every(r, k):
    return range(2 * r + 2)


def few(r, k):
    return sorted({0, 1, r - k - 1, r - k, r - k + 1, 2 * r - k, 2 * r - k + 1} & set(range(10 ** 6)))


REM = lambda r: (0, 1, r // 2, r - 1)
SPLITS = lambda r: [(1,) * 5, (0, 0), (r, 0, r), (r - 1, 1, 1), (r - 1, 2), (1, r, 0, r - 1), (2 * r, 1), (r + 1, r - 1, r), (1, r - 1), (3 * r,),
                    (1, 2 * r + 1, r - 2)]
OUTS = lambda r: [(1,) * 5, (0, r, 0, 1), (r, r, 1), (r - 1, 2, r), (1, 2 * r), (2 * r, 2 * r), (r + 1, r - 1, r), (3 * r, 1), (1, r - 1, 3 * r, r, 1)]


def jobs(tier):
    out = []
    deep = tier != "quick"
    for pfx, nr, frag, hdr in SPONGES:
        sc = []
        P = dict(pfx=pfx, nr=nr)
        for rate in (8, 16, 24, 64, 72, 128):
            r = rate // 8
            sc.append((f"{pfx} absorb r{rate}", h.sp_absorb_all, dict(P, rate=rate, ks=range(r), ns=every), 1))
            sc.append((f"{pfx} squeeze r{rate}", h.sp_squeeze_all, dict(P, rate=rate, ks=range(r + 1), ns=every), 1))
        full = (576, 832, 1088, 1152, 1344) if deep else (1088, 1344)
        for rate in (576, 832, 1088, 1152, 1344, 1400, 1592, 1600):
            r = rate // 8
            some = sorted({0, 1, 7, 8, 64, r // 2, r - 8, r - 2, r - 1, r})
            for main in (True, False):
                std = rate in full and (main or deep)
                ks = range(r + 1) if std else some
                ns = every if std and deep else few if std or not main else h.lens
                sc.append((f"{pfx} absorb r{rate}", h.sp_absorb_all, dict(P, rate=rate, ks=[k for k in ks if k < r], ns=ns, out=8), 8 if std else 2, main))
                sc.append((f"{pfx} squeeze r{rate}", h.sp_squeeze_all, dict(P, rate=rate, ks=ks, ns=ns), 8 if std else 2, main))
        for i in range(8):
            rates = [x for x in range(8, 1601, 8) if x // 8 % 8 == i]
            sc.append((f"{pfx} one-shot {i}", h.sp_rates, dict(P, rates=rates), 6, True))
            sc.append((f"{pfx} one-shot {i}", h.sp_rates, dict(P, rates=rates if deep else rates[i % 4::4]), 2, False))
        for rate in (8, 64, 72, 1088, 1344, 1600):
            r = rate // 8
            sc.append((f"{pfx} suffix r{rate}", h.sp_last, dict(P, rate=rate, ks=sorted({0, 1, r // 2, r - 2, r - 1} & set(range(r))),
                       suffixes=range(1, 256) if deep or rate in (8, 1344) else (1, 2, 3, 6, 0x1F, 0x40, 0x7F, 0x80, 0x81, 0xFF)), 2))
            sc.append((f"{pfx} split r{rate}", h.sp_split, dict(P, rate=rate, pieces=[p for p in SPLITS(r) if min(p) >= 0],
                       outs=[o for o in OUTS(r) if min(o) >= 0]), 3))
        # any length: all positions and remainders for small rates, some for the others
        for rate in (8, 64, 72, 128) + ((576, 832, 1088, 1152, 1344, 1400, 1592, 1600) if deep else (576, 1088, 1344, 1592, 1600)):
            r = rate // 8
            rem = None if deep or r < 20 else REM(r)
            ks = range(r + 1) if deep or r < 20 else sorted({0, 1, r // 2, r - 1, r})
            for k in ks:
                where = () if deep or rate in (64, 72, 1344) and k in (0, 1, r - 1) else (True,)
                if k < r:
                    sc.append((f"{pfx} absorb of any length r{rate} at {k}", h.sp_absorb_any, dict(P, rate=rate, k=k, rem=rem), 2 if rem else 1, *where))
                sc.append((f"{pfx} squeeze of any length r{rate} at {k}", h.sp_squeeze_any, dict(P, rate=rate, k=k, rem=rem), 1, *where))
            where = () if deep or rate in (64, 72, 1344) else (True,)
            sc.append((f"{pfx} any message r{rate}", h.sp_oneshot_any, dict(P, rate=rate, rem=rem), 1, *where))
            sc.append((f"{pfx} any output length r{rate}", h.sp_output_any, dict(P, rate=rate, rem=rem), 1, *where))
        roots = [f"{pfx}_Sponge{x}" for x in ("", "Initialize", "Absorb", "AbsorbLastFewBits", "Squeeze")]
        out += h.jobs("C10", frag, hdr, [f"{pfx}_SpongeInstance"], sc, roots=roots, bounded=BOUND)
    return out
