#!/usr/bin/env python3
"""Records which loops each function of /repo/src has (fv/loops.json); run by
hand after a deliberate change of the source the contracts are written for."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "fv"))
import annotate, engine
out = {}
for n in sorted(os.listdir(engine.REPO + "/src")):
    if n.endswith(".c") and "win" not in n and n not in ("service.c", "conn_wsa_errno.c"):
        out[n], _ = annotate.annotate(engine.REPO + "/src/" + n, "/tmp/x.annot.c", ["-std=gnu90"] + engine.repo_includes() + engine.BASE_DEFS)
os.unlink("/tmp/x.annot.c")
json.dump(out, open(engine.FV + "/loops.json", "w"), indent=1, sort_keys=True)
