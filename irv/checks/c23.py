from .. import high as h
from . import c10, c20

LEVEL, NOTE = c20.LEVEL, c20.NOTE
TECHNIQUE = c20.TECHNIQUE
ASSUMPTIONS = [a.replace("C01, C02, C04, C05", "C06, C07") for a in c20.ASSUMPTIONS]
FN = ["Xoofff_MaskDerivation", "Xoofff_Compress", "Xoofff_Expand", "Xoofff"]


def jobs(tier):
    deep = tier != "quick"
    roots = FN + [f"Xoofff{m}_{x}" for m in ("SANE", "SANSE") for x in ("Initialize", "Wrap", "Unwrap")]
    return h.jobs("C23", "Xoofff", "XoofffModes.h", ["XoofffSANE_Instance", "XoofffSANSE_Instance"], c20.scenarios("X", 48, 16, deep), roots=roots,
                  bounded=c10.BOUND, thin=1 if deep else 3)
