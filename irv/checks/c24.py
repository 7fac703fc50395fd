from .. import high as h
from . import c10, c21

LEVEL, NOTE = c21.LEVEL, c21.NOTE
TECHNIQUE = c21.TECHNIQUE
ASSUMPTIONS = [a.replace("C01, C02, C04, C05", "C06, C07") for a in c21.ASSUMPTIONS]
FN = ["Xoofff_MaskDerivation", "Xoofff_Compress", "Xoofff_Expand", "Xoofff"]


def jobs(tier):
    deep = tier != "quick"
    roots = FN + [f"Xoofff{m}_{x}" for m in ("WBC", "WBCAE") for x in ("Encipher", "Decipher")]
    return h.jobs("C24", "Xoofff", "XoofffModes.h", ["Xoofff_Instance"], c21.scenarios("X", 48, 16, deep), roots=roots, bounded=c10.BOUND,
                  thin=1 if deep else 3)
