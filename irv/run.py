"""Runs the obligations of one property: jobs in forked workers, replays, evidence."""
import ctypes
import gc
import importlib
import json
import os
import pickle
import re
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("IRV_PROCS", "8"))

TRUSTED = [
    "clang 18 front end (C to LLVM IR, no optimisation beyond sroa/early-cse/simplifycfg/always-inline) and its data layout",
    "irv/ll.py, irv/exec.py: reading of LLVM IR and semantics of its instructions and of the x86 intrinsics used",
    "irv/bits.py: rewriting of bit-level terms (xor sets, AND, named atoms)",
    "irv/kspec.py and irv/hspec.py: the specifications, written from the standards",
    "gcc/clang code generation (the property is decided on the IR of the current sources)",
]


class Job:
    def __init__(self, name, frags, scen, kw=None, srcs=None, harness=(), extra=(), weight=1, timeout=700, engine=None,
                 strict=False, bounded=None, replay=True, contracts=None, fallback=None, mem=2.5, taint=None):
        self.name, self.frags, self.scen, self.kw = name, tuple(frags), scen, kw or {}
        self.srcs, self.harness, self.extra, self.weight, self.timeout = srcs, tuple(harness), tuple(extra), weight, timeout
        self.alts = []
        self.over = ()                               # functions whose contract stands in although the body is there
        self.taint = taint                           # "mem": memory only; "ct": what control flow and addresses depend on
        self.fallback, self.mem = fallback, mem      # mem: GB expected
        self.engine, self.strict, self.bounded, self.replay, self.contracts = engine, strict, bounded, replay, contracts

    def conf(self):
        from . import build
        return build.Conf(*self.frags, extra=self.extra)


def harness_path(f):
    return f"{VERIF}/irv/harness/{f}"


def sym_run(job):
    from . import bits as bt
    bt.TRIPLES = not any("K1600" in f for f in job.frags)
    r = sym_run1(job)
    for kw in getattr(job, "alts", ()):
        if r["status"] in ("unknown", "unsupported"):
            import copy
            j2 = copy.copy(job)
            j2.kw = kw
            r2 = sym_run1(j2)
            if r2["status"] == "ok" or r["status"] == "unsupported":
                r = r2
    if job.fallback and r["status"] in ("unknown", "unsupported", "error"):
        # no inductive proof found: the bounded form of the same contract stands in, and is reported as such
        import copy
        j2 = copy.copy(job)
        j2.scen, j2.kw, j2.bounded = job.fallback
        j2.bounded, j2.fallback, j2.engine = f"no invariant found ({r['fail']['msg'][:200]}); stand-in: {j2.bounded}", None, None
        r1, r = r, sym_run1(j2)
        r["first"] = r1
        job.second = j2
    if not bt.TRIPLES and r["status"] == "unknown":
        bt.TRIPLES = True
        first = r.get("first")
        r = sym_run1(getattr(job, "second", job))
        r["first"] = first
    return r


def sym_run1(job):
    from . import bits as bt, ll
    from .ctx import SymCtx, Failed
    from .exec import Violation
    from .ll import Unsupported
    from .si import Restart, SIMachine
    t0 = time.time()
    res = dict(job=job.name, obligations=0, discharged=0, status="ok", functions=[], fail=None, bounded=job.bounded,
               frags=list(job.frags), solver_s=0.0, notes=[])
    bt.reset()
    if job.taint:
        bt.taint()
    ctx = None
    try:
        c = job.conf()
        srcs = job.srcs if job.srcs is not None else [s for s, _ in c.cs]
        paths = [c.bc(s) for s in srcs] + [c.bc(harness_path(h), own=fl) for h, fl in job.harness]
        mods = [ll.Module(p) for p in paths]
        res["build_s"] = round(time.time() - t0, 2)
        first = True
        contracts = job.contracts(job) if job.contracts else None
        if contracts:
            # a contract stands in for a function whose body is not among the sources of the job
            own = {f for m in mods for f, d in m.funcs.items() if d}
            contracts = {k: v for k, v in contracts.items() if k not in own or k in job.over}
        from .exec import Machine
        ctx = SymCtx(mods, contracts, job.engine or Machine)
        ctx.job = job
        ctx.m.strict = job.strict
        if job.taint:
            ctx.only_memory()

        def once():
            ctx.seq, ctx.inputs = {}, {}
            return job.scen(ctx, **job.kw)
        for attempt in range(60):
            n = 0
            ctx.nobl = 0
            try:
                for r in ctx.m.paths(once):
                    n += 1
                    if isinstance(r, dict):
                        res.setdefault("extra", {}).update(r)
                break
            except Restart as e:
                if not e.apply(ctx.m):
                    raise Failed("loop invariant", "unknown", str(e))
        res["paths"] = n
        res["invariants"] = list(getattr(ctx.m, "invariants", []))
        ctx.nobl += getattr(ctx.m, "nobl", 0)
    except Failed as e:
        res["status"] = e.kind
        res["fail"] = dict(ob=e.ob, msg=e.msg, model=e.model)
    except Violation as e:
        res["status"] = "refuted"
        res["fail"] = dict(ob=e.kind, msg=f"{ctx.where if ctx else ''}: {e.msg}", model=ctx.model() if ctx else None)
    except Unsupported as e:
        res["status"] = "unsupported"
        res["fail"] = dict(ob="verifier", msg=str(e), model=None)
    except Exception as e:
        tb = traceback.format_exc()
        res["status"] = "builderror" if type(e).__name__ == "BuildError" else "error"
        res["fail"] = dict(ob="verifier", msg=f"{type(e).__name__}: {e}\n{tb[-1500:]}", model=None)
    if job.taint and res["status"] == "refuted" and res["fail"]["ob"].startswith("secret") != (job.taint == "ct"):
        res["status"] = "other"         # decided elsewhere
    if res["status"] == "refuted" and ctx is not None and isinstance(ctx.m, SIMachine) and not job.taint:
        res["status"] = "unknown"       # the inferred invariant may be too weak: only a replay makes this a violation
    if ctx is not None:
        res["obligations"] = ctx.nobl
        res["discharged"] = max(0, ctx.nobl - (1 if res["status"] != "ok" else 0))
        res["functions"] = sorted({k[1] for k in ctx.m.code} | set(getattr(ctx.m, "contracted", ())))
        res["solver_s"] = getattr(ctx.m, "solver_s", 0.0)
        res["notes"] = list(getattr(ctx, "notes", []))
    if res["status"] != "ok":
        res["obligations"] = max(1, res["obligations"])
    res["wall"] = round(time.time() - t0, 2)
    return res


def native_so(job):
    c = job.conf()
    return c.native_with([(harness_path(h), fl) for h, fl in job.harness])


COV = ("-O1", "-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores")


def ct_replay(job):
    """two runs on different data: do they take the same way through the code and the memory?"""
    c = job.conf()
    try:
        so = c.native_with([(harness_path(h), fl) for h, fl in job.harness], COV, "cov")
    except Exception as e:
        return False, f"replay library not built: {str(e)[:300]}"
    a, b = (native_once(job, so, 1, None, True) for _ in range(2))
    if a != b:
        return False, "traces of the compiled library are not repeatable"
    for seed in (2, 3, 4, 5):
        b = native_once(job, so, seed, None, True)
        if a and b and a != b:
            x, y = a.split(), b.split()
            k = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return True, f"call {k} of the scenario takes different branches or addresses on random data of seeds 1 and {seed}"
    return False, "no difference seen between runs of the compiled library on random data"


def native_once(job, so, seed, model, endal):
    """in a child process: -> None or description of the failure"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        out = b"crash"
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.alarm(120)
            from .ctx import NatCtx, Failed
            try:
                ctx = NatCtx(so, seed, model, endal)
            except Exception as e:
                out = ("error:" + repr(e)).encode()
                raise
            ctx.job = job
            if job.taint:
                ctx.only_memory()
                ctx.trace = [] if job.taint == "ct" else None
            try:
                job.scen(ctx, **job.kw)
                out = b"ok"
                if ctx.trace is not None:
                    import hashlib
                    t = ctx.trace
                    k = max(1, len(t) // 200)
                    out = ("fail:" + " ".join(hashlib.sha1(repr(t[i:i + k]).encode()).hexdigest()[:12] for i in range(0, len(t), k))).encode()
            except Failed as e:
                out = ("fail:" + str(e)).encode()
            except Exception as e:
                out = ("error:" + repr(e)).encode()
        finally:
            os.write(w, out[:4000])
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        data += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) == signal.SIGALRM:
            return None
        return f"process ended by signal {os.WTERMSIG(st)} ({signal.Signals(os.WTERMSIG(st)).name})"
    d = data.decode(errors="replace")
    if os.environ.get("IRV_DEBUG"):
        print("native run:", d[:500], flush=True)
    return d[5:] if d.startswith("fail:") else None


def replay(job, model, tries=6):
    """-> (reproduced?, description)"""
    try:
        so = native_so(job)
    except Exception as e:
        return False, f"replay library not built: {str(e)[:300]}"
    runs = [(model, True, 0), (model, False, 0)] if model else []
    runs += [(None, i % 2 == 0, 100 + i) for i in range(tries)]
    for mdl, endal, seed in runs:
        r = native_once(job, so, seed, mdl, endal)
        if r is not None:
            return True, f"{r} [inputs: {'model' if mdl else 'random seed %d' % seed}, buffers at {'end' if endal else 'start'} of mapping]"
    return False, "not reproduced on the compiled library"


MEMORY = 27.0


def put(out, res):
    with open(out + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(out + ".tmp", out)


def add_replay(job, res):
    if job.taint == "ct":
        res["reproduced"], res["replay_desc"] = ct_replay(job) if res["status"] == "refuted" else (False, "")
        return
    ok, desc = replay(job, (res["fail"] or {}).get("model"))
    res["reproduced"], res["replay_desc"] = ok, desc


def child(job, out, res=None):
    if res is None:
        import resource
        lim = int(max(8, 1.7 * job.mem + 2) * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (lim, resource.getrlimit(resource.RLIMIT_AS)[1]))
        res = sym_run(job)
        put(out + ".sym", res)
        resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)
    bad = ("refuted", "unknown", "unsupported", "error", "timeout", "notrun")
    if res["status"] in bad and job.replay:
        add_replay(getattr(job, "second", job), res)
    first = res.get("first")
    if first and not res.get("reproduced") and job.replay:
        # the unbounded contract is not proved: it is tried on longer inputs than the stand-in covers
        add_replay(job, first)
        if first["reproduced"]:
            res = first
        elif first["status"] == "unknown" and res["status"] == "ok":
            # decided against by the verifier, for want of an invariant or of a short input
            res = dict(first, status="unproved")
    put(out, res)


def run_jobs(jobs, budget):
    from . import build
    sc = build.scratch()
    t0 = time.time()
    todo = sorted(range(len(jobs)), key=lambda i: -jobs[i].weight)
    run, results, second = {}, [None] * len(jobs), set()

    def start(i, res=None):
        out = f"{sc}/job{i}.res"
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)     # end with the parent
            try:
                child(jobs[i], out, res)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        run[pid] = (i, out, time.time())

    def lost(i, status, msg):
        """no result from the verifier: the contract is still tried on the compiled code"""
        r = dict(job=jobs[i].name, status=status, obligations=1, discharged=0, functions=[], fail=dict(ob="verifier", msg=msg, model=None),
                 wall=0, frags=list(jobs[i].frags), bounded=jobs[i].bounded)
        results[i] = r
        if jobs[i].replay and i not in second and time.time() - t0 < budget + 50:
            second.add(i)
            return r
        return None
    late = []
    while todo or run or late:
        now = time.time()
        if now - t0 >= budget and todo:
            for i in todo:
                r = lost(i, "notrun", "time budget of the check exhausted")
                if r:
                    late.append((i, r))
            todo = []
        while late and len(run) < NPROC:
            i, r = late.pop(0)
            if now - t0 < budget + 50:
                start(i, r)
        used = sum(jobs[i].mem for i, _, _ in run.values())
        while todo and len(run) < NPROC and (not run or used + min(jobs[j].mem for j in todo) <= MEMORY):
            k = next(k for k, j in enumerate(todo) if not run or used + jobs[j].mem <= MEMORY)
            i = todo.pop(k)
            used += jobs[i].mem
            start(i)
        if not run:
            continue
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            for p, (i, out, ts) in list(run.items()):
                if i in second and now - ts > 70 or i not in second and (now - ts > jobs[i].timeout or now - t0 > budget):
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            time.sleep(0.01)
            continue
        if pid not in run:
            continue
        i, out, ts = run.pop(pid)
        try:
            with open(out, "rb") as f:
                results[i] = pickle.load(f)
        except FileNotFoundError:
            if i in second:
                continue
            try:
                with open(out + ".sym", "rb") as f:     # the replay was cut short
                    results[i] = pickle.load(f)
                second.add(i)
            except FileNotFoundError:
                r = lost(i, "timeout" if os.WIFSIGNALED(st) else "error", f"worker ended with status {st} after {time.time() - ts:.0f} s")
                if r:
                    late.append((i, r))
    return results


def known_findings():
    try:
        with open(f"{VERIF}/KNOWN_FINDINGS.json") as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def main(pid, jobs, level="proof", technique="", assumptions=(), trusted=(), tier=None, only=None, verbose=False, budget=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if budget is None:
        budget = 780 if tier == "quick" else 6 * 3600
    if only:
        jobs = [j for j in jobs if re.search(only, j.name)]
    results = run_jobs(jobs, budget)
    viol, known, undis = [], [], []
    kf = [k for k in known_findings() if k["property"] == pid]
    os.makedirs(f"{VERIF}/replay", exist_ok=True)
    for job, r in zip(jobs, results):
        if verbose:
            print(f"{r['status']:11} {r['job']:60} {r['discharged']}/{r['obligations']} {r.get('wall')}s"
                  + (f"  {r['fail']['ob']}: {r['fail']['msg'][:1500]} | {r.get('replay_desc')}" if r["fail"] else ""), flush=True)
        if r["status"] == "ok":
            continue
        confirmed = r.get("reproduced", False)
        if r["status"] in ("refuted", "unproved") or confirmed:
            sig = f"{r['job']} | {r['fail']['ob']} | {r['fail']['msg']}"
            k = next((k for k in kf if k["status"] == "open" and re.search(k["match"], sig)), None)
            if k:
                known.append((k, r))
                continue
            path = f"{VERIF}/replay/{pid}-{re.sub('[^A-Za-z0-9_.+-]', '_', r['job'])[:80]}.json"
            with open(path, "w") as f:
                json.dump(dict(property=pid, job=r["job"], fragments=r["frags"], obligation=r["fail"]["ob"],
                               verifier_output=r["fail"]["msg"], inputs=r["fail"].get("model"), reproduced=confirmed,
                               native=r.get("replay_desc"),
                               how=f"python3-vt /verif/check.py {pid} --only '^{re.escape(r['job'])}$' -v"), f, indent=1)
            viol.append((path, confirmed, r))
        else:
            undis.append(r)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 1), violations=len(viol),
              assumptions=list(assumptions),
              coverage=dict(
                  obligations=sum(r["obligations"] for r in results), discharged=sum(r["discharged"] for r in results),
                  checker_cmd=f"python3-vt /verif/check.py {pid}",
                  trusted_base=TRUSTED + list(trusted),
                  technique=technique,
                  jobs=len(jobs), jobs_discharged=sum(r["status"] == "ok" for r in results),
                  functions_under_contract=sorted({f for r in results for f in r["functions"]}),
                  loop_invariants=sorted({i for r in results for i in r.get("invariants") or ()})[:150],
                  configurations=sorted({"+".join(r["frags"]) for r in results}),
                  bounded_stand_ins=sorted({r["job"] + ": " + r["bounded"] for r in results if r.get("bounded")}),
                  undischarged=[dict(job=r["job"], why=(r["fail"] or {}).get("msg", "")[:400], status=r["status"]) for r in undis],
                  backend="canonical xor/and form (irv/bits.py); z3 for residual bit and linear-arithmetic goals",
                  solver_s=round(sum(r.get("solver_s", 0) for r in results), 2),
                  verifier_cpu_s=round(sum(r.get("wall", 0) for r in results), 1),
                  per_job=[[r["job"], r["status"], r["obligations"], r.get("wall")] for r in results][:400]))
    if not only:
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
    for k, r in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for r in undis:
        print(f"not discharged: {r['job']}: {r['status']}: {(r['fail'] or {}).get('msg', '')[:200]!r}")
    for path, confirmed, r in viol[:20]:
        print(f"failed obligation {r['fail']['ob']} in {r['job']}: {r['fail']['msg'][:600]}")
        if r.get("replay_desc"):
            print("  replay: " + r["replay_desc"][:300])
        print(f"VIOLATION property={pid} replay={path}" + ("" if confirmed else " no-failing-input-found"))
    c = ev["coverage"]
    print(f"{pid}: {c['discharged']}/{c['obligations']} obligations discharged in {c['jobs_discharged']}/{c['jobs']} jobs, "
          f"{ev['wall_s']} s, {len(viol)} violations")
    sys.stdout.flush()
    return 1 if viol else 0
