"""The scenarios of all properties taken together, for the properties that look at what is touched (C27) and at what the
control flow and the addresses depend on (C28) rather than at the values."""
import copy
import importlib
import re

LOW = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"]
HIGH = ["C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"]


def reduced(pid, kw):
    """quick tier: fewer of the cases that differ in lengths only"""
    kw = dict(kw)
    if "full" in kw or kw.get("op") in ("AddBytes", "OverwriteBytes", "ExtractBytes", "ExtractAndAddBytes"):
        kw["full"] = "few"
        if kw["par"] > 2:
            kw["insts"] = sorted({0, 1, kw["par"] - 1})
    if "ks" in kw and len(kw["ks"]) > 40:
        ks = list(kw["ks"])
        kw["ks"] = sorted(set(ks[:9:2] + ks[::7] + ks[-9:]))
    if len(kw.get("suffixes", ())) > 20:
        kw["suffixes"] = (1, 6, 0x1F, 0x7F, 0x80, 0xFF)
    if pid == "C10" and "rates" in kw:
        kw["rates"] = kw["rates"][::4]
    if "cases" in kw and pid in ("C20", "C23") and len(kw["cases"]) > 12:
        kw["cases"] = kw["cases"][::3]
    return kw


HEAVY = "long string|many chunks"


def jobs(tier, taint):
    out, seen = [], set()
    for pid in LOW + HIGH:
        m = importlib.import_module(f"irv.checks.{pid.lower()}")
        for j in m.jobs(tier):
            k = (j.name, pid if pid in LOW else "", j.scen, repr(j.kw), j.frags)
            if k in seen or tier == "quick" and re.search(HEAVY, j.name):
                continue
            if getattr(j.scen, "anylen", False):
                continue            # what they touch is decided with their values (C10, C12, C13, C15)
            seen.add(k)
            j = copy.copy(j)
            j.name = f"{pid}:{j.name}"
            if tier == "quick":
                j.kw = reduced(pid, j.kw)
            j.taint, j.strict = taint, taint == "ct"
            if j.fallback:
                j.fallback = None
            j.weight, j.mem = max(1, j.weight), max(1.5, j.mem / 2)
            out.append(j)
    return out
