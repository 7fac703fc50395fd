"""Implementations present in the build description and how they are put under contract."""
import re

from . import build, low
from .run import Job

K1600 = ["K1600-ref-64bits", "K1600-ref-32bits", "K1600-compact", "K1600-plain-32bits-inplace", "K1600-plain-64bits-u6",
         "K1600-plain-64bits-ua", "K1600-plain-64bits-lcu6", "K1600-plain-64bits-lcua", "K1600-plain-64bits-lcua-shld",
         "K1600-AVX512-C", "K1600-XOP-u6", "K1600-XOP-ua"]
K1600ASM = ["K1600-AVX2", "K1600-AVX512", "K1600-x86-64", "K1600-x86-64-shld"]
PAR = {"K1600x2": 2, "K1600x4": 4, "K1600x8": 8}


def present(names):
    build.resolve(())
    return [n for n in names if n in build._frags]


def mflags(frags):
    c = build.Conf(*frags)
    return " ".join(c.mflags())


def harness(pfx, par, frags):
    base = "KeccakP-1600" if pfx.startswith("Keccak") else "Xoodoo"
    hdr = f"{base}-SnP.h" if par == 1 else f"{base}-times{par}-SnP.h"
    return [("snp.c", f"-DPFX={pfx} -DHDR=\\\"{hdr}\\\"".replace("\\", "") + (f" -DPAR={par}" if par > 1 else "") + " " + mflags(frags))]


def defined(frags):
    """function names defined by the C sources of a configuration"""
    from . import ll
    c = build.Conf(*frags)
    out = set()
    for s, _ in c.cs:
        m = ll.Module(c.bc(s))
        out |= {f for f, d in m.funcs.items() if d}
    return out


_mods = {}


def modules(frags, srcs=None):
    from . import ll
    k = (tuple(frags), tuple(srcs) if srcs else None)
    if k not in _mods:
        c = build.Conf(*frags)
        _mods[k] = [ll.Module(c.bc(s)) for s in (srcs or [s for s, _ in c.cs])]
    return _mods[k]


def fingerprint(frags, roots, srcs=None):
    """hash of the code reachable from the roots: equal fingerprints, equal obligations"""
    import hashlib
    mods = modules(frags, srcs)
    h = hashlib.sha256()
    seen = set()

    def names(x, acc):
        if isinstance(x, (tuple, list)):
            if len(x) >= 2 and x[0] in ("g", "f") and isinstance(x[1], str):
                acc.append(x[1])
            for y in x:
                names(y, acc)

    def visit(n):
        if n in seen:
            return
        seen.add(n)
        for m in mods:
            if m.funcs.get(n):
                b = m.fn(n).blocks
                h.update(repr((n, m.fn(n).params, b)).encode())
                acc = []
                names(b, acc)
                for x in acc:
                    visit(x)
                return
        for m in mods:
            if n in m.globs:
                g = m.glob(n)
                if g[1] is not None:
                    h.update(repr((n, g)).encode())
                    acc = []
                    names(g, acc)
                    for x in acc:
                        visit(x)
                    return
        h.update(n.encode())
    for r in roots:
        visit(r)
    return h.hexdigest()


def distinct(confs, roots):
    """[(frags)] -> [(representative, [same code])], by fingerprint of the roots"""
    out = {}
    for fr in confs:
        out.setdefault(fingerprint(fr, roots), []).append(fr)
    return [(v[0], v[1:]) for v in out.values()]
