"""Bit-level satisfiability of a disequality (z3), for the obligations that the canonical form does not settle."""
import random

from . import bits as bt


def solve(pairs, assumed, timeout_ms=8000, abstract=False):
    """-> ("equal", None) | ("differ", evaluator) | ("unknown", None); abstract: outputs of uninterpreted functions are taken as free"""
    import z3
    z = {}
    hasuf = []

    def conv(l):
        a = l & -2
        st = [a]
        while st:
            x = st[-1]
            if x in z or x == 0:
                st.pop()
                continue
            dep = bt.SETS.get(x)
            k = 0
            if dep is None:
                dep, k = bt.ANDN.get(x), 1
            if dep is None and x in bt.DEFS:
                dep, k = (bt.DEFS[x],), 2
            if dep is None and x in bt.CONJ:
                dep, k = bt.CONJ[x], 3
            if dep is None:
                z[x] = z3.Bool(f"v{x}")
                if x in bt.UFOUT:
                    hasuf.append(x)
                st.pop()
                continue
            todo = [d & -2 for d in dep if d & -2 and d & -2 not in z]
            if todo:
                st.extend(todo)
                continue
            if k == 0:
                r = None
                for d in dep:
                    r = z[d] if r is None else z3.Xor(r, z[d])
            elif k == 1:
                r = z3.And(z[dep[0]], z[dep[1]])
            elif k == 3:
                r = z3.And([z3.Not(z[d & -2]) if d & 1 else z[d] for d in dep])
            else:
                d = dep[0]
                r = z3.BoolVal(False) if d < 2 else z[d & -2]
                if d & 1:
                    r = z3.Not(r)
            z[x] = r
            st.pop()
        r = z3.BoolVal(False) if a == 0 else z[a]
        return z3.Not(r) if l & 1 else r
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for e, v in assumed.items():
        s.add(conv(e) if v else z3.Not(conv(e)))
    s.add(z3.Or([z3.Xor(conv(a), conv(b)) for a, b in pairs]))
    r = s.check()
    if r == z3.unsat:
        return "equal", None
    if abstract and r == z3.sat:
        return "differ", None
    if r != z3.sat or hasuf:
        return "unknown", None
    m = s.model()
    fixed = {}
    for x, v in z.items():
        if x not in bt.SETS and x not in bt.ANDN and x not in bt.DEFS and x not in bt.CONJ:
            fixed[x] = 1 if z3.is_true(m.eval(v, model_completion=True)) else 0
    return "differ", bt.evaluator(random.Random(0), fixed)
