from .. import high as h
from . import c10, c19

LEVEL, NOTE = c19.LEVEL, c19.NOTE
TECHNIQUE = c19.TECHNIQUE
ASSUMPTIONS = [a.replace("C01, C02, C04, C05", "C06, C07") for a in c19.ASSUMPTIONS]
FN = ["Xoofff_MaskDerivation", "Xoofff_Compress", "Xoofff_Expand", "Xoofff"]


def jobs(tier):
    deep = tier != "quick"
    return h.jobs("C22", "Xoofff", "Xoofff.h", ["Xoofff_Instance"], c19.scenarios("X", 48, 16, deep), roots=FN, bounded=c10.BOUND, thin=1 if deep else 3)
