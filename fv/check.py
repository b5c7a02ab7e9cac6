#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: every obligation generated from /repo's current source
has to be discharged.  See DESIGN.md for the meaning of the outcomes.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from engine import PROVED, FAILED, UNDECIDED, REPO, VERIF, FV
import props

EVID = os.environ.get("FV_EVID") or os.path.join(VERIF, "evidence")
T0 = time.time()


def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property="):
                m = re.match(r"finding: property=(\S+) obligation=(\S+) (.*)", l)
                if m:
                    out.append((m[1], m[2], m[3]))
    return out


class Native:
    """Compiles and runs the replay harness of the property."""

    def __init__(self, spec, ws):
        self.spec, self.ws = spec, ws
        self.exe = None
        self.build_err = None

    def build(self):
        s = self.spec
        exe = os.path.join(self.ws.dir, "nat_" + re.sub(r"\W", "_", s["src"]))
        cmd = (["gcc", "-g", "-O1", "-w", "-std=gnu99", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                "-fno-sanitize-recover=undefined", "-o", exe, "-I" + os.path.join(FV, "native")]
               + engine.repo_includes() + [d for d in engine.BASE_DEFS if d != "-DNDEBUG"] + s.get("cflags", [])
               + [os.path.join(FV, "native", s["src"])]
               + [os.path.join(REPO, "src", x) for x in s["repo"]]
               + ["-Wl,--wrap=" + w for w in s.get("wrap", [])] + ["-lpthread"] + s.get("libs", []))
        rc, out = engine.run(cmd, 180, mem_gb=None)
        if rc != 0:
            self.build_err = engine._first_err(out)
            return False
        self.exe = exe
        return True

    def search(self, seed, first, count, secs):
        """-> (found, text, scenarios)"""
        if self.exe is None and (self.build_err or not self.build()):
            return False, "replay harness does not build: %s" % self.build_err, 0
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1",
                   UBSAN_OPTIONS="print_stacktrace=1")
        d = os.path.join(self.ws.dir, "natcwd")
        os.makedirs(d, exist_ok=True)
        rc, out = engine.run([self.exe, str(seed), str(first), str(count), str(secs)], secs + 60, cwd=d, mem_gb=None, env=env)
        m = re.search(r"^OK scenarios=(\d+)", out, re.M)
        if rc == 0 and m:
            return False, out[-500:], int(m[1])
        m = re.search(r"^FAIL ", out, re.M)
        if rc == 1 and m:
            return True, out[-12000:], 0
        return False, "replay harness ended with %s: %s" % (rc, out[-1500:]), 0


def search_parallel(nat, seed, secs, jobs=8, count=100000000):
    res = [None] * jobs
    if nat.exe is None and not nat.build():
        return False, "replay harness does not build: %s" % nat.build_err, 0

    def one(j):
        res[j] = nat.search(seed + 1000 * (j + 1) if j else seed, 0, count, secs)
    ts = [threading.Thread(target=one, args=(j,)) for j in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for r in res:
        if r and r[0]:
            return r
    return False, (res[0] or (0, "", 0))[1], sum(r[2] for r in res if r)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--dev", action="store_true", help="run the obligations only, write nothing")
    ap.add_argument("--only", help="regular expression on obligation names (development)")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    pid = a.prop
    spec = props.PROPS[pid]
    obs = [o for o in spec["obs"] if tier == "thorough" or not o.thorough_only]
    if a.only:
        obs = [o for o in obs if re.search(a.only, o.name)]
    ws = engine.Workspace(pid)
    try:
        rc = decide(pid, spec, obs, ws, seed, tier, a)
    finally:
        ws.close()
    sys.stdout.flush()
    return rc


def decide(pid, spec, obs, ws, seed, tier, a):
    known = [k for k in load_known() if k[0] == pid]
    ws.prepare(spec["sources"])
    nats = [Native(n, ws) for n in spec.get("native", [])]
    budget = 560 if tier == "quick" else 100000
    if tier == "thorough":
        for o in obs:
            o.timeout *= 4

    def progress(r):
        if a.v or a.dev:
            print("  %-44s %-9s n=%-5d %6.1fs  %s" % (r.ob.name, r.status, r.n, r.t_total, r.reason[:260]), flush=True)
    res = engine.run_all(obs, ws, jobs=8, on_done=progress)
    if a.dev:
        return 0
    proved = [r for r in res if r.status == PROVED]
    failed = [r for r in res if r.status == FAILED]
    undec = [r for r in res if r.status == UNDECIDED]

    # a loop that has been added, removed or moved makes the loop contracts of
    # its function meaningless: such a failure is "undecided", not "violated"
    moved = []
    for src in spec["sources"]:
        want = props.LOOPS.get(src)
        if want is not None and (sorted(want) != sorted(ws.loops.get(src, []))):
            moved.append(src)

    # a loop that has got another local variable is outside the frame its contract
    # states: the contract does not fit any more, which says nothing about the property
    for r in [r for r in failed if r.ob.loops and r.failed and
              all(re.match(r"Check that [A-Za-z_]\w* is assignable$", str(p[3]).strip()) for p in r.failed)]:
        failed.remove(r)
        r.status = UNDECIDED
        r.reason = "the loop contract's frame does not know a local variable: " + r.reason
        undec.append(r)

    lines, violation = [], None
    nat_runs, nat_text = 0, ""
    found = False
    if failed or undec:
        secs = spec.get("search_s", 40) if tier == "quick" else 600
        left = budget - (time.time() - T0)
        for n in nats:
            f, txt, cnt = search_parallel(n, seed, int(max(15, min(secs, left / max(1, len(nats))))))
            nat_runs += cnt
            if f:
                found, nat_text = True, txt
                break
            nat_text = txt
    else:
        for n in nats:
            cnt0 = n.spec.get("quick_count", 4000) * (1 if tier == "quick" else 50)
            f, txt, cnt = n.search(seed, 0, cnt0, 60 if tier == "quick" else 1200)
            nat_runs += cnt
            nat_text = txt
            if f:
                found = True
                break

    # failed obligations that are recorded findings
    kf = []
    if failed and not found:
        rest = []
        for r in failed:
            ids = {p[0] for p in r.failed}
            ks = [k for k in known if k[1].split("::")[0] == r.ob.name and ids <= set(k[1].split("::")[1].split(","))]
            if ks:
                kf += ks
            else:
                rest.append(r)
        failed = rest

    bounded = []
    if undec and not found:
        for r in undec:
            # ghost code is attached to loops, so it says nothing once they moved
            if moved and r.ob.loops:
                continue
            b = bounded_standin(r, ws, tier)
            if b is not None:
                bounded.append((r, b))
                if b.status == FAILED:
                    failed.append(b)

    # what fails only because the ghost code no longer sits where it belongs
    exempt = [r for r in failed if moved and r.ob.loops and r.ob.kind != "bounded"]
    only_loops = failed and len(exempt) == len(failed)
    replay = None
    if found or (failed and not only_loops):
        os.makedirs(EVID, exist_ok=True)
        replay = os.path.join(EVID, "replay-%s.txt" % pid)
        write_replay(replay, pid, spec, failed or undec, nat_text if found else None, nat_text, ws, seed)
        rel = os.path.relpath(replay, VERIF)
        tail = "" if found else " no-failing-input-found"
        for r in (failed or []):
            lines.append("failed obligation: %s: %s" % (r.ob.name, r.reason))
        violation = "VIOLATION property=%s replay=%s%s" % (pid, rel, tail)
    for k in kf:
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, k[2]))

    nob = sum(r.n for r in res)
    dis = sum(r.n for r in proved)
    coverage = {
        "obligations": nob,
        "discharged": dis,
        "checker_cmd": "goto-cc; goto-instrument --dfcc --enforce-contract F [--replace-call-with-contract G..] [--apply-loop-contracts]; cbmc (CBMC 6.11.0)",
        "trusted_base": spec.get("trusted", []) + props.TRUSTED_COMMON,
        "functions_under_contract": sorted({f for r in proved for f in r.ob.functions}),
        "obligation_groups": [{"name": r.ob.name, "status": r.status, "obligations": r.n, "back_end": r.backend,
                               "solver_s": round(r.t_solver, 2), "vacuity_witnesses": r.canary_ok,
                               "kind": r.ob.kind, "reason": r.reason} for r in res],
        "solver_s_total": round(sum(r.t_solver for r in res), 1),
        "undecided": [{"name": r.ob.name, "reason": r.reason} for r in undec],
        "bounded_standins": [{"for": r.ob.name, "bound": b.ob.note, "status": b.status, "obligations": b.n} for r, b in bounded],
        "replay_scenarios_run": nat_runs,
        "replay_note": nat_text.strip().splitlines()[-1][:200] if nat_text.strip() else "",
        "sources": {s: ws.hashes.get(s, "missing") for s in spec["sources"]},
        "loops_moved_in": moved,
        "mechanical_extraction": "copy of each source file; inserted: the macro FV_LOOP_<function>_<n> (loop contract) at each loop, FV_GHOST_<function>_<n> (ghost code) at the start of its body, FV_COND_<function>_<n> (ghost call) before its condition, all empty unless the unit defines them; nothing dropped. External functions are models; printing and, in proxyd.c, the system calls are replaced by macros of the unit",
    }
    level = spec.get("level", "proof")
    if undec or exempt:
        level = "model_checking" if bounded else "exploration"    # not proved on this tree
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": spec.get("assumptions", []) + props.ASSUME_COMMON, "wall_s": round(time.time() - T0, 1),
          "violations": 1 if violation else 0}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))

    print("property %s (%s): %d/%d obligation groups proved, %d obligations discharged of %d, %d replay scenarios, %.0f s" % (
        pid, tier, len(proved), len(res), dis, nob, nat_runs, time.time() - T0))
    for r in undec:
        print("undecided (bounded stand-in used where one exists): %s: %s" % (r.ob.name, r.reason))
    for l in lines:
        print(l)
    if found:
        print(nat_text[:3000])
    if violation:
        print(violation)
        return 1
    if failed:
        print("note: obligations failed only because loops moved in %s; bounded exploration found no violation" % ", ".join(moved))
    return 0


def bounded_standin(r, ws, tier):
    """The same contract without loop contracts: loops are unwound to a bound."""
    o = r.ob
    if o.kind != "contract" or "does not attach (goto-cc)" in r.reason and not o.loops:
        return None
    b = engine.Ob(o.name + "#bounded", o.tu, o.entry, enforce=o.enforce, replace=o.replace,
                  defs=o.defs + ["-DFV_BOUNDED", "-DFV_IO_MAX=3u"], unwind=max(o.unwind or 0, 4), loops=False,
                  solver="minisat", timeout=120, canaries=0, kind="bounded", functions=o.functions,
                  cbmc=o.cbmc + ["--no-unwinding-assertions"], note="loops unwound 4 times, transfers of at most 3 bytes")
    x = engine.run_ob(b, ws)
    if x.status == UNDECIDED and not x.failed and x.n and "vacuous" not in x.reason and not x.reason.startswith("loop"):
        pass
    return x


def write_replay(path, pid, spec, rs, found_text, any_text, ws, seed):
    with open(path, "w") as f:
        f.write("property %s\n" % pid)
        for r in rs:
            f.write("\nfailed obligation group: %s\n" % r.ob.name)
            f.write("function(s) under contract: %s\n" % ", ".join(r.ob.functions))
            for p in r.failed:
                f.write("  obligation %s  at %s line %s: %s\n" % (p[0], p[2], p[1], p[3]))
            if r.reason:
                f.write("  %s\n" % r.reason)
        if found_text:
            f.write("\nfailing scenario on the real code (replay: build fv/native/%s as fv/check.py does, arguments 'SEED INDEX 1 60'):\n%s\n" % (
                ", ".join(n["src"] for n in spec.get("native", [])), found_text))
        else:
            f.write("\nno failing input found by the replay harness: %s\n" % (any_text or "")[-800:])
        for r in rs[:3]:
            if r.status == FAILED and r.failed:
                x = engine.run_ob(r.ob, ws, want_trace=True)
                f.write("\n==== verifier output for %s (trace) ====\n%s\n" % (r.ob.name, x.log[-60000:]))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:      # an error of the machinery is never reported as a violation
        import traceback
        traceback.print_exc()
        sys.exit(2)
