from .. import high as h, hfips as f
from . import c10
from .c12 import any_jobs

LEVEL = "model_checking"
TECHNIQUE = c10.TECHNIQUE
ASSUMPTIONS = c10.ASSUMPTIONS
NOTE = ("All keys, messages, names and customization strings of the enumerated lengths (around block and length-encoding boundaries, bit lengths for "
        "the last piece and outputs); messages and squeezes of any byte length at chosen positions (loop invariants); the length encodings for every size_t value.")
FN = {"cSHAKE": [""], "KMAC": [""], "TupleHash": [""]}


def roots(k):
    return [f"{k}{s}{x}" for s in (128, 256) for x in ("", "_Initialize", "_Update", "_Final", "_Squeeze")]


def cs_cases(sec, deep):
    r = {128: 168, 256: 136}[sec]
    ns = [0, 1, 3, 5, 6, 7, 8, 13, 8 * r - 10, 8 * r - 3, 8 * r - 2, 8 * r - 1, 8 * r, 8 * r + 1, 16 * r - 4]
    one = [(sec, n, 256, nl, cl) for n in ns for nl, cl in ((0, 0), (3, 0), (0, 11), (2, 8))]
    # every fill of the padded prefix block
    one += [(sec, 20, 64, nl, 0) for nl in range(1, r + 8)]
    one += [(sec, 20, 64, 3, cl) for cl in list(range(1, 20)) + list(range(8 * r - 80, 8 * r + 8, 1 if deep else 3)) + [8 * 255, 8 * 256, 65528, 65535, 65536]]
    one += [(sec, 9, 64, nl, 5) for nl in (31, 32, 33, 8191, 8192)]
    one += [(sec, 9, o, nl, 0) for o in (1, 2, 7, 8, 9, 8 * r - 1, 8 * r, 8 * r + 1, 16 * r + 5) for nl in (0, 4)]
    inc = [(sec, ps, fx, os_, nl, cl) for nl, cl in ((0, 0), (4, 3)) for ps in
           ((), (0, 0, 3), (8, 8 * r, 7), (8 * r - 8, 8, 8), (8, 16 * r, 8 * r - 13), (8 * r, 8 * r, 0))
           for fx, os_ in ((0, (8, 8 * r, 13)), (0, (0, 8 * r - 8, 16, 8 * r)), (100, ()), (8 * r + 8, ()))]
    return one, inc


def km_cases(sec, deep):
    r = {128: 168, 256: 136}[sec]
    one = [(sec, kl, 13, 256, 0) for kl in [8 * k for k in range(0, r + 6, 1 if deep else 3)] + [1, 9, 255, 8 * (r - 5), 8 * (r - 4), 8 * (r - 3), 2048, 2040, 65536]]
    one += [(sec, 128, n, 64, cl) for n in (0, 1, r - 3, r - 2, r - 1, r, 2 * r + 1) for cl in (0, 5, 8, 8 * 150)]
    one += [(sec, 128, 5, o, 16) for o in (1, 8, 13, 255, 256, 8 * r, 8 * r + 1, 65536, 65530)]
    inc = [(sec, kl, ps, fx, os_, 16) for kl in (128, 8 * r) for ps in ((), (0, 1), (r, r, 3), (1, 2 * r, r - 1))
           for fx, os_ in ((0, (8, 8 * r, 13)), (0, (8, 0, 24)), (100, ()), (8 * r + 8, ()))]
    return one, inc


def th_cases(sec, deep):
    r = {128: 168, 256: 136}[sec]
    ts = [(), (0,), (0, 0), (1,), (3, 0, 5), (r - 2, r, 1), (31, 32, 33), (8191,), (8192, 2), (r,) * 3, (1,) * 9]
    one = [(sec, t, o, cl) for t in ts for o, cl in ((256, 0), (13, 5), (8 * r + 8, 16))]
    one += [(sec, (n,), 64, 0) for n in range(r - 20, r + 3)]
    inc = [(sec, us, fx, os_, 16) for us in ((), ((),), ((3,), (0, 5)), ((r,), (), (r - 2, 7)), ((1,), (1,), (1,)))
           for fx, os_ in ((0, (8, 8 * r, 13)), (100, ()), (8 * r + 8, ()))]
    return one, inc


def jobs(tier):
    deep = tier != "quick"
    out = []
    sc = [("phases", f.sp_phases, {}, 2), ("left_encode", f.encoding, dict(fn="left_encode", left=True), 1),
          ("right_encode", f.encoding, dict(fn="right_encode", left=False), 1)]
    for what in ("cSHAKE", "KMAC", "TupleHash"):
        sc.append((f"{what} long string", f.long_strings, dict(cases=[(what, 256 if what == "KMAC" else 128, 1 << 24)]), 20, True))
    for sec in (128, 256):
        for nm, g, one, inc in (("cSHAKE", cs_cases, f.cshake_oneshot, f.cshake), ("KMAC", km_cases, f.kmac_oneshot, f.kmac),
                                ("TupleHash", th_cases, f.tuplehash_oneshot, f.tuplehash)):
            a, b = g(sec, deep)
            sc += [(f"{nm}{sec} one-shot", one, dict(cases=a), 3), (f"{nm}{sec} incremental", inc, dict(cases=b), 3)]
    ks = ["cSHAKE128", "cSHAKE256", "KMAC128", "KMAC256"]
    sc += any_jobs(ks, ks, ks, (), deep)
    out += h.jobs("C15", "SP800-185", "SP800-185.h", ["cSHAKE_Instance", "KMAC_Instance", "TupleHash_Instance"], sc,
                  roots=roots("cSHAKE") + roots("KMAC") + roots("TupleHash"), bounded=c10.BOUND)
    return out
