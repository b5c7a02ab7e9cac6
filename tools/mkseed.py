#!/usr/bin/env python3
"""mkseed.py SPEC.py...: each SPEC defines ID, PROP, EDITS [(file, old, new)],
FILES {name: text}, DEMO (shell), NEEDS, BREAKS.  Confirms the bug in a scratch copy of /repo
(builds, tests pass, demo fails with it and passes without) and writes seeded/ID/."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, t=300):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors="replace")


def build(d):
    return sh("export CC=/usr/bin/gcc; cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DBUILD_SHARED_LIBS=ON "
              "-DOPENELP_BUNDLE_PCRE=OFF -DOPENELP_USE_OPENSSL=OFF -DCMAKE_C_FLAGS=-Wno-error >/dev/null && ninja -C _b && ctest --test-dir _b --timeout 60", d)


def nat_demo(g, dd):
    """NAT = (property, which harness, scenarios[, first]): the demo runs that harness on the tree it stands in"""
    sys.path.insert(0, os.path.join(V, "fv"))
    import engine, glob, props
    pid, i, count = g["NAT"][:3]
    n = props.PROPS[pid]["native"][i]
    for h in glob.glob(os.path.join(V, "fv/native/*.h")) + [os.path.join(V, "fv/native", n["src"])]:
        shutil.copy(h, dd)
    g["DEMO"] = """d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
gcc -g -O1 -w -std=gnu99 -fsanitize=address,undefined -fno-sanitize-recover=undefined -I"$d" -Iinclude -Isrc %s -o "$w/t" "$d/%s" %s || exit 2
cd "$w" && ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 timeout 280 ./t 1 %d %d 240
""" % (" ".join([x for x in engine.BASE_DEFS if x != "-DNDEBUG"] + n.get("cflags", [])), n["src"],
       " ".join(["src/" + x for x in n["repo"]] + ["-Wl,--wrap=" + x for x in n.get("wrap", [])] + ["-lpthread"] + n.get("libs", [])),
       g["NAT"][3] if len(g["NAT"]) > 3 else 0, count)


def do(spec):
    g = {}
    exec(open(spec).read(), g)
    out = os.path.join(V, "seeded", g["ID"])
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        d = os.path.join(w, "repo")
        sh("git clone -q /repo %s" % d, w)
        dd = os.path.join(w, "demo")
        os.mkdir(dd)
        for n, t in g.get("FILES", {}).items():
            if t.startswith("@"):
                shutil.copy(os.path.join(V, t[1:]), os.path.join(dd, n))
            else:
                open(os.path.join(dd, n), "w").write(t)
        if "NAT" in g:
            nat_demo(g, dd)
        open(os.path.join(dd, "demo.sh"), "w").write("#!/bin/bash\n# exit 0: the property holds here\n" + g["DEMO"])
        rc, o = build(d)
        if rc:
            return "clean build/tests fail: " + o[-500:]
        rc, o = sh("bash %s/demo.sh" % dd, d)
        if rc:
            return "demo fails on the clean tree: " + o[-1500:]
        for f, a, b in g["EDITS"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(a) != 1:
                return "edit of %s matches %d times: %r" % (f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        rc, patch = sh("git diff", d)
        rc, o = build(d)
        if rc:
            return "build/tests fail with the bug: " + o[-800:]
        rc, o = sh("bash %s/demo.sh" % dd, d)
        if rc == 0:
            return "demo passes with the bug"
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(dd, out)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        return "ok; demo with the bug: rc %d %s" % (rc, o.strip()[-200:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


for s in sys.argv[1:]:
    print(s, do(s), flush=True)
