from .. import high as h, hfips as f
from . import c10

LEVEL = "model_checking"
TECHNIQUE = c10.TECHNIQUE
ASSUMPTIONS = c10.ASSUMPTIONS
NOTE = ("All messages and customization strings; lengths around chunk boundaries up to a few rounds of the widest parallel loop; divisions over "
        "updates and squeezes; every build target whose code differs (x8, x4, x2, x1 leaf paths).")
ROOTS = ["KangarooTwelve_Initialize", "KangarooTwelve_Update", "KangarooTwelve_Final", "KangarooTwelve_Squeeze", "KangarooTwelve", "KT128", "KT256"]
K = 8192


def one(sec):
    cs = [(sec, n, 0, 32) for n in (0, 1, 167, 168, K - 2, K - 1, K, K + 1, 2 * K - 2, 2 * K - 1, 2 * K, 3 * K, 5 * K + 7, 9 * K - 1, 9 * K, 9 * K + 1)]
    cs += [(sec, n, cl, 17) for n, cl in ((0, 1), (1, 254), (0, 255), (0, 256), (5, K - 7), (5, K - 6), (K - 1, K), (0, K), (K, 1), (K, K), (2 * K + 5, 2 * K), (0, 65535), (3, 65536))]
    cs += [(sec, 10, 3, o) for o in (1, 135, 136, 137, 168, 169, 400)]
    return cs


def inc(sec, wide):
    cs = [(sec, ps, 5, 0, (32,)) for ps in
          [(1, K - 2, 1), (K, 0, 1), (K, 1), (K - 1, 1, 1), (K - 1, 2), (K, K), (K + 1, K - 1, K), (K + 1, K - 2, 1, 1), (2 * K, K, 1), (2 * K + 3, K - 3, 0, 5),
           (1, 2 * K), (3, 3 * K), (K - 3, 5 * K + 3, 9), (1, 0, K, K + 5), (K + 7, 4 * K), (K, 3 * K, 2 * K - 1, 1), (5 * K + 2, 4 * K - 2, 3)]]
    cs += [(sec, (K + 1, 17 * K, K - 1, 12 * K + 5), 300, 0, (1, 0, 200))] if wide else []
    cs += [(sec, (7,) * 3, 9, fx, ()) for fx in (1, 32, 168, 500)]
    cs += [(sec, (K + 9,), 2, 0, os_) for os_ in ((0,), (1, 1, 166, 1), (136, 168, 1), (500,), (135, 2, 300))]
    return cs


def jobs(tier):
    deep = tier != "quick"
    sc = [("misuse", f.kt_misuse, {}, 8), ("right_encode", f.encoding, dict(fn="right_encode", left=False, zero=0), 1)]
    for sec in (128, 256):
        a, b = one(sec), inc(sec, True)
        if deep:
            b += [(sec, (K - i, i + j, 2 * K - j), 1, 0, (20,)) for i in (0, 1, 7, 8) for j in (0, 1, 5, K - 1)]
            b += [(sec, (K + i, n * K + 1, K), 1, 0, (20,)) for i in (0, 1, K - 1) for n in range(1, 20)]
        sc += [(f"KT{sec} one-shot {i}", f.kt_oneshot, dict(cases=a[i::3]), 12) for i in range(3)]
        sc += [(f"KT{sec} incremental {i}", f.kt, dict(cases=b[i::3]), 12) for i in range(3)]
        sc += [(f"KT{sec} many chunks", f.kt_long, dict(cases=[(sec, 300 * K - 1, 1 << 40), (sec, 263 * K - 1, 5 * K + 1)]), 9)]
        sc += [(f"KT{sec} named", f.kt_named, dict(cases=[(sec, 5, 3, 32), (sec, K, 3, 1)]), 1)]
    return h.jobs("C14", "KangarooTwelve", "KangarooTwelve.h", ["KangarooTwelve_Instance"], sc, roots=ROOTS, bounded=c10.BOUND, thin=1 if deep else 4)
