from .. import high as h, hfips as f
from . import c10

LEVEL = "model_checking"
TECHNIQUE = c10.TECHNIQUE
ASSUMPTIONS = c10.ASSUMPTIONS
NOTE = ("Refusals and their absence of effect (instance and output bytes compared) for the sponge, Keccak_Hash, TurboSHAKE and KangarooTwelve "
        "entry points; instance contents and data symbolic, parameters and phases enumerated.")


def jobs(tier):
    out = []
    for pfx, nr, frag, hdr in c10.SPONGES:
        roots = [f"{pfx}_Sponge{x}" for x in ("", "Initialize", "Absorb", "AbsorbLastFewBits", "Squeeze")]
        out += h.jobs("C11", frag, hdr, [f"{pfx}_SpongeInstance"], [(f"{pfx} misuse", h.sp_misuse, dict(pfx=pfx, nr=nr), 3)], roots=roots, bounded=c10.BOUND)
        out += h.jobs("C11", frag, hdr, [f"{pfx}_SpongeInstance"],
                      [(f"{pfx} parameters {i}", h.sp_params, dict(pfx=pfx, lo=i, hi=i + 13), 3) for i in range(-7, 1710, 13)][::1 if tier != "quick" else 6],
                      roots=roots, bounded=c10.BOUND)
    hh = ["Keccak_HashInitialize", "Keccak_HashUpdate", "Keccak_HashFinal", "Keccak_HashSqueeze"]
    out += h.jobs("C11", "FIPS202", "KeccakHash.h", ["Keccak_HashInstance"], [("Keccak_Hash misuse", f.kh_misuse, {}, 3)], roots=hh, bounded=c10.BOUND)
    out += h.jobs("C11", "TurboSHAKE", "TurboSHAKE.h", ["TurboSHAKE_Instance"], [("TurboSHAKE misuse", f.ts_misuse, {}, 3)],
                  roots=["TurboSHAKE", "TurboSHAKE_Initialize", "TurboSHAKE_Absorb", "TurboSHAKE_AbsorbDomainSeparationByte", "TurboSHAKE_Squeeze"], bounded=c10.BOUND)
    return out
