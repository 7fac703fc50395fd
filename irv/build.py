"""Reads XKCP's build description (the .build files of /repo's working tree) and compiles /repo's current sources, to
LLVM bitcode for the verifier and to native shared objects for replays. Everything goes to a scratch directory."""
import atexit
import hashlib
import os
import shutil
import subprocess
import tempfile
import xml.etree.ElementTree as ET

REPO = os.environ.get("IRV_REPO", "/repo")
XI = "{http://www.w3.org/2001/XInclude}include"
CLANG, OPT, LINK = "/usr/lib/llvm-18/bin/clang", "/usr/lib/llvm-18/bin/opt", "/usr/lib/llvm-18/bin/llvm-link"
PASSES = "always-inline,function(sroa<modify-cfg>,early-cse,simplifycfg,sroa<modify-cfg>,early-cse,simplifycfg),globaldce"


class BuildError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="irv-")
        pid = os.getpid()
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True) if os.getpid() == pid else None)
    return _scratch


def fragments():
    found = {}

    def walk(node):
        for child in node:
            if child.tag == XI:
                walk(ET.parse(f"{REPO}/{child.get('href')}").getroot())
            elif child.tag == "fragment":
                found[child.get("name")] = child
            else:
                walk(child)
    walk(ET.parse(f"{REPO}/Makefile.build").getroot())
    return found


_frags = None


def resolve(names):
    global _frags
    if _frags is None:
        _frags = fragments()
    seen, out = set(), []

    def visit(name):
        if name in seen:
            return
        seen.add(name)
        if name not in _frags:
            raise BuildError(f"no fragment {name} in the build description")
        node = _frags[name]
        for parent in (node.get("inherits") or "").split():
            visit(parent)
        for e in node:
            if isinstance(e.tag, str):
                item = (e.tag, (e.text or "").strip(), e.get("gcc") or "")
                if item not in out:
                    out.append(item)
    for n in names:
        visit(n)
    return out


class Conf:
    """One configuration: a list of fragments -> include path, config.h, flags, sources"""

    def __init__(self, *names, extra=()):
        self.names = names
        # "@file": a file that stands alone
        items = resolve([n for n in names if not n.startswith("@")]) + [("c", n[1:], "") for n in names if n.startswith("@")]
        self.items = items
        config = "".join(f"#define {t}\n" for tag, t, _ in items if tag == "config")
        self.config = {t for tag, t, _ in items if tag == "config"}
        self.defs = [f"-D{t}" for tag, t, _ in items if tag == "define"]
        self.dirs = list(dict.fromkeys(os.path.dirname(t) for tag, t, _ in items if tag in ("h", "inc")))
        self.cs = [(t, a) for tag, t, a in items if tag == "c" and not t.startswith("tests/")]
        self.ss = [t for tag, t, a in items if tag == "s"]
        self.key = hashlib.sha1(("|".join(names) + config + "|".join(extra)).encode()).hexdigest()[:12]
        self.dir = f"{scratch()}/{self.key}"
        os.makedirs(self.dir, exist_ok=True)
        if not os.path.exists(f"{self.dir}/config.h"):
            with open(f"{self.dir}/config.h.{os.getpid()}", "w") as f:
                f.write(config)
            os.replace(f"{self.dir}/config.h.{os.getpid()}", f"{self.dir}/config.h")
        self.inc = [f"-I{self.dir}", *(f"-I{REPO}/{d}" for d in self.dirs)]
        self.extra = list(extra)

    def _run(self, cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"{' '.join(cmd)}\n{r.stderr[-3000:]}")
        return r.stdout

    def mflags(self, only=None):
        fl = []
        for t, a in self.cs:
            for x in a.split():
                if x not in fl:
                    fl.append(x)
        return fl

    def bc(self, src, own=None):
        """bitcode of one source file of the working tree"""
        if own is None:
            own = dict(self.cs).get(src, "")
        path = src if os.path.isabs(src) else f"{REPO}/{src}"
        out = f"{self.dir}/{src.strip('/').replace('/', '_')}-{hashlib.sha1(own.encode()).hexdigest()[:8]}.bc"
        if not os.path.exists(out):
            tmp = out + f".{os.getpid()}"
            self._run([CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-w", "-Wno-error=implicit-function-declaration", "-fno-strict-aliasing",
                       "-ffreestanding" if False else "-fno-builtin-memcmp", "-g0", *own.split(), *self.defs, *self.extra,
                       *self.inc, path, "-o", tmp])
            self._run([OPT, f"-passes={PASSES}", tmp, "-o", tmp + ".o"])
            os.replace(tmp + ".o", out)
            os.unlink(tmp)
        return out

    def native_with(self, harness=(), flags=("-O2",), name="replay"):
        """shared object of all sources of the configuration, plus harness files [(path, flags)]"""
        key = hashlib.sha1(repr((harness, flags)).encode()).hexdigest()[:8]
        out = f"{self.dir}/{name}-{key}.so"
        if os.path.exists(out):
            return out
        objs, procs = [], []
        d = tempfile.mkdtemp(dir=self.dir)
        more = [(os.path.dirname(os.path.abspath(__file__)) + "/harness/cov.c", "-fno-sanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores")] if name == "cov" else []
        for s, a in self.cs + list(harness) + more + [(os.path.dirname(os.path.abspath(__file__)) + "/harness/stubs.c", "")]:
            o = f"{d}/{len(objs)}.o"
            path = s if os.path.isabs(s) else f"{REPO}/{s}"
            fl = [*a.split(), *self.defs, *self.extra, *self.inc]
            if "-mxop" in a:
                # the processor at hand has no XOP: same IR, compiled without the extension
                cmd = ["sh", "-c", '"$@" | sed -e "s/[+-]xop,//g;s/[+-]fma4,//g" | ' + f"{CLANG} -O2 -fPIC -w -x ir -c - -o {o}", "sh",
                       CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", "-w", "-fPIC", "-fno-strict-aliasing", *fl, path, "-o", "-"]
            else:
                cmd = [CLANG, *flags, "-w", "-fPIC", "-fno-strict-aliasing", *fl, "-c", path, "-o", o]
            procs.append((cmd, subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True)))
            objs.append(o)
        for s in self.ss:
            o = f"{d}/{len(objs)}.o"
            cmd = ["gcc", "-x", "assembler", "-fPIC", "-c", f"{REPO}/{s}", "-o", o]
            procs.append((cmd, subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True)))
            objs.append(o)
        for cmd, p in procs:
            err = p.communicate()[1]
            if p.returncode:
                raise BuildError(f"{' '.join(cmd)}\n{err[-3000:]}")
        self._run([CLANG, "-shared", "-o", out + f".{os.getpid()}", *objs])
        os.replace(out + f".{os.getpid()}", out)
        return out
