"""Runs contract obligations with CBMC (goto-cc, goto-instrument --dfcc, cbmc)."""
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import annotate

REPO = os.environ.get("FV_REPO", "/repo")
FV = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(FV)

PROVED, FAILED, UNDECIDED = "proved", "failed", "undecided"

BASE_DEFS = ["-DOPENELP_MAJOR_VERSION=0", "-DOPENELP_MINOR_VERSION=9", "-DOPENELP_PATCH_VERSION=4",
             "-DOPENELP_VERSION=0.9.4-dev", "-DOPENELP_EXTRA_VERSION=dev",
             "-DOPENELP_CONFIG_HINT=../etc/ELProxy.conf", "-DPCRE2_CODE_UNIT_WIDTH=8",
             "-DHAVE_SYSLOG=1", "-DOPENELP_API=", "-DNDEBUG"]

SOLVERS = {
    "minisat": [],
    "kissat": ["--external-sat-solver", "kissat"],
    "cvc5": ["--cvc5"],
    "z3": ["--z3"],
}


def repo_includes():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]


class Ob:
    """One proof obligation bundle: one function (or lemma) under contract."""

    def __init__(self, name, tu, entry, enforce=None, replace=(), defs=(), unwind=None, unwindset=(),
                 loops=False, solver="minisat", timeout=300, canaries=1, kind="contract", functions=(),
                 dfcc=True, cbmc=(), note="", mem_gb=12, object_bits=None, thorough_only=False,
                 flags=(), sources=(), must=None):
        self.name, self.tu, self.entry = name, tu, entry
        self.enforce, self.replace = enforce, list(replace)
        self.defs, self.unwind, self.unwindset = list(defs), unwind, list(unwindset)
        self.loops, self.solver, self.timeout = loops, solver, timeout
        self.canaries, self.kind, self.functions = canaries, kind, list(functions or ([enforce] if enforce else []))
        self.dfcc, self.cbmc, self.note = dfcc, list(cbmc), note
        self.mem_gb, self.object_bits = mem_gb, object_bits
        self.thorough_only = thorough_only
        self.flags = list(flags)
        self.sources = list(sources)
        self.must = must


class Res:
    def __init__(self, ob):
        self.ob = ob
        self.status = UNDECIDED
        self.reason = ""
        self.props = []          # (id, line, file/func, desc, status)
        self.failed = []
        self.canary_ok = 0
        self.canary_missing = []
        self.n = 0
        self.t_solver = 0.0
        self.t_total = 0.0
        self.log = ""
        self.backend = ""


_live = set()
_live_lock = threading.Lock()


def run(cmd, timeout, cwd=None, mem_gb=12, env=None, stdin=None):
    def pre():
        os.setsid()
        if mem_gb:
            lim = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, preexec_fn=pre, env=env,
                         stdin=subprocess.DEVNULL if stdin is None else stdin)
    with _live_lock:
        _live.add(p.pid)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return 124, out.decode(errors="replace")
    finally:
        with _live_lock:
            _live.discard(p.pid)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


class Workspace:
    """A scratch directory with the annotated copy of /repo/src."""

    def __init__(self, tag):
        self.dir = tempfile.mkdtemp(prefix="fv-%s-" % tag)
        self.src = os.path.join(self.dir, "src")
        os.mkdir(self.src)
        self.loops = {}
        self.funcs = {}
        self.errors = {}
        self.hashes = {}

    def prepare(self, names):
        flags = ["-std=gnu90"] + repo_includes() + BASE_DEFS

        def one(n):
            p = os.path.join(REPO, "src", n)
            dst = os.path.join(self.src, n)
            try:
                self.loops[n], self.funcs[n] = annotate.annotate(p, dst, flags)
                self.hashes[n] = hashlib.sha256(open(p, "rb").read()).hexdigest()
            except Exception as e:      # the copy is then the plain file
                self.errors[n] = str(e)
                self.loops[n], self.funcs[n] = [], []
                if os.path.exists(p):
                    shutil.copy(p, dst)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, names))
        annotate.gen_defaults([x for l in self.loops.values() for x in l],
                              os.path.join(self.src, "fv_loop_defaults.h"))

    def close(self):
        if self.dir.startswith(tempfile.gettempdir() + "/fv-"):
            shutil.rmtree(self.dir, ignore_errors=True)


LINE = re.compile(r"^\[(?P<id>[^\]]+)\] (?:line (?P<line>\d+) )?(?P<desc>.*): (?P<st>SUCCESS|FAILURE|UNKNOWN|ERROR)$")
HDR = re.compile(r"^(?P<file>\S+) function (?P<func>\S+)$")


def parse(out):
    props, cur = [], ("", "")
    for l in out.splitlines():
        m = LINE.match(l)
        if m:
            props.append((m["id"], m["line"], cur[0] + ":" + cur[1], m["desc"], m["st"]))
            continue
        m = HDR.match(l)
        if m:
            cur = (m["file"], m["func"])
    return props


def run_ob(ob, ws, extra_defs=(), want_trace=False):
    r = Res(ob)
    t0 = time.time()
    d = os.path.join(ws.dir, re.sub(r"\W", "_", ob.name))
    os.makedirs(d, exist_ok=True)
    a, b = os.path.join(d, "a.gb"), os.path.join(d, "b.gb")
    tu = os.path.join(FV, "tu", ob.tu)
    cmd = (["goto-cc", "-std=gnu90", "-o", a, "--function", ob.entry, "-include", os.path.join(FV, "prelude.h"),
            "-I" + ws.src, "-I" + os.path.join(FV, "tu")] + repo_includes() + BASE_DEFS + ["-DFV_OB_" + ob.entry]
           + list(ob.defs) + list(extra_defs) + [tu])
    rc, out = run(cmd, 120, mem_gb=ob.mem_gb)
    r.log = "$ " + " ".join(cmd) + "\n" + out
    if rc != 0 or not os.path.exists(a):
        r.reason = "does not attach (goto-cc): " + _first_err(out)
        r.t_total = time.time() - t0
        return r
    if ob.dfcc:
        cmd = ["goto-instrument", "--dfcc", ob.entry]
        if ob.enforce:
            cmd += ["--enforce-contract", ob.enforce]
        for f in ob.replace:
            cmd += ["--replace-call-with-contract", f]
        if ob.loops:
            cmd += ["--apply-loop-contracts"]
        cmd += ob.flags + [a, b]
        rc, out = run(cmd, 300, mem_gb=ob.mem_gb)
        r.log += "$ " + " ".join(cmd) + "\n" + out[-6000:]
        if rc != 0 or not os.path.exists(b):
            r.reason = "does not attach (goto-instrument): " + _first_err(out)
            r.t_total = time.time() - t0
            return r
    else:
        b = a
    cmd = ["cbmc", b] + SOLVERS[ob.solver if (ob.solver != "kissat" or shutil.which("kissat")) else "minisat"] + list(ob.cbmc)
    if ob.unwind:
        cmd += ["--unwind", str(ob.unwind)]
    if ob.unwindset:
        cmd += ["--unwindset", ",".join(ob.unwindset)]
    if ob.object_bits:
        cmd += ["--object-bits", str(ob.object_bits)]
    if want_trace:
        cmd += ["--trace"]
    t1 = time.time()
    rc, out = run(cmd, ob.timeout, mem_gb=ob.mem_gb)
    r.t_solver = time.time() - t1
    r.t_total = time.time() - t0
    r.backend = "cbmc 6.11 + " + ob.solver
    r.log += "$ " + " ".join(cmd) + "\n" + out
    r.props = parse(out)
    if rc == 124:
        r.reason = "solver timeout after %ds" % ob.timeout
        return r
    if rc not in (0, 10) or not r.props:
        r.reason = "cbmc ended with %d: %s" % (rc, _first_err(out[-3000:]))
        return r
    unw, other, real = [], [], []
    for p in r.props:
        if p[3].startswith("CANARY"):
            if p[4] == "FAILURE":
                r.canary_ok += 1
            else:
                r.canary_missing.append(p[3])
            continue
        real.append(p)
        if p[4] == "SUCCESS":
            continue
        if p[4] == "FAILURE":
            (unw if (".unwind." in p[0] or "unwinding assertion" in p[3] or p[0].startswith("recursion")) else other).append(p)
        else:
            other.append(p) if p[4] == "ERROR" else unw.append(p)
    r.n = len(real)
    r.failed = other
    if other:
        nobody = [p for p in other if "no body for" in p[3] or "undefined function" in p[3] or ".no-body." in p[0]]
        if len(nobody) == len(other):
            r.reason = "does not attach: " + nobody[0][3]
            r.failed = []
            return r
        r.status = FAILED
        r.reason = "; ".join("%s (%s line %s): %s" % (p[0], p[2], p[1], p[3]) for p in other[:4])
    elif unw:
        r.reason = "loop without a contract: " + "; ".join(p[0] + " line " + str(p[1]) for p in unw[:3])
    elif r.n == 0:
        r.reason = "no obligation was generated"
    elif r.canary_missing or r.canary_ok < ob.canaries:
        r.reason = "vacuous: %s not reachable" % (r.canary_missing or "canary")
    elif rc == 10 or rc == 0:
        r.status = PROVED
    return r


def _first_err(out):
    for l in out.splitlines():
        if "error" in l.lower() or "fail" in l.lower() or "invariant" in l.lower():
            return l.strip()[:300]
    return out.strip().splitlines()[-1][:300] if out.strip() else "no output"


def run_all(obs, ws, jobs=8, on_done=None):
    res = [None] * len(obs)

    def one(i):
        res[i] = run_ob(obs[i], ws)
        if on_done:
            on_done(res[i])
    order = sorted(range(len(obs)), key=lambda i: -obs[i].timeout)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, order))
    return res
