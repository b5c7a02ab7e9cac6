"""Mechanical extraction of the verified text from /repo.

For every C file of /repo/src that an obligation uses, a copy is made in which
the only change is that the name of a macro is inserted at the position where a
CBMC loop contract belongs:

    while (c) FV_LOOP_<function>_<n> body
    for (...) FV_LOOP_<function>_<n> body
    do FV_LOOP_<function>_<n> body while (c);

and FV_COND_<function>_<n> in front of the loop's condition (for a ghost hint, see FV_REBASE) and
FV_GHOST_<function>_<n> directly behind the opening brace of the body, where a unit
may update ghost variables.  Nothing is dropped, nothing else is added (a loop body that is a single statement is put into braces).  Loops are located with clang's AST
(so the text inside inactive #ifdef branches is not touched).  A macro that the
verification unit does not define expands to nothing (see gen_defaults).
"""
import json
import os
import re
import subprocess

LOOPS = {"WhileStmt", "ForStmt", "DoStmt"}


def clang_ast(path, cflags):
    p = subprocess.run(["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json"] + cflags + [path],
                       capture_output=True, timeout=120)
    if not p.stdout:
        raise RuntimeError("clang could not parse %s: %s" % (path, p.stderr.decode(errors="replace")[:800]))
    return json.loads(p.stdout)


class _Walk:
    def __init__(self, main):
        self.main = main
        self.cur = None
        self.out = []       # (func, ordinal, insert_offset, kind)
        self.func = None
        self.n = 0
        self.funcs = []

    def _loc(self, loc):
        """Track clang's 'file only when it changes' compression.  Returns
        (file, offset, toklen) of the expansion location."""
        if not loc:
            return None
        if "spellingLoc" in loc or "expansionLoc" in loc:
            r = None
            for k in ("spellingLoc", "expansionLoc"):
                if k in loc:
                    r = self._loc(loc[k])
            return None      # macro positions are never annotated
        if "file" in loc:
            self.cur = loc["file"]
        if "offset" not in loc:
            return None
        return (self.cur, loc["offset"], loc.get("tokLen", 0))

    def walk(self, node):
        if not isinstance(node, dict):
            return
        kind = node.get("kind")
        self._loc(node.get("loc"))
        rng = node.get("range") or {}
        b = self._loc(rng.get("begin"))
        e = self._loc(rng.get("end"))
        node["_b"], node["_e"] = b, e
        prev = None
        isdef = kind == "FunctionDecl" and any(c.get("kind") == "CompoundStmt" for c in node.get("inner", []) if c)
        if isdef:
            prev = (self.func, self.n)
            self.func, self.n = node.get("name"), 0
            if b and b[0] == self.main:
                self.funcs.append(self.func)
        ordn = None
        if kind in LOOPS and self.func:
            ordn = self.n
            self.n += 1
        for c in node.get("inner", []):
            self.walk(c)
        if ordn is not None:
            inner = [c for c in node.get("inner", []) if c and c.get("kind")]
            body = inner[0] if kind == "DoStmt" else inner[-1]
            cond = None
            if kind == "WhileStmt":
                cond = inner[0]
            elif kind == "DoStmt":
                cond = inner[1]
            elif kind == "ForStmt" and len(node["inner"]) == 5 and node["inner"][2].get("kind"):
                cond = node["inner"][2]
            cb = cond.get("_b") if cond else None
            bb = body.get("_b")
            if bb and bb[0] == self.main:
                be = body.get("_e")
                self.out.append((self.func, ordn, bb[1], kind, body.get("kind") == "CompoundStmt",
                                 be[1] + be[2] if be and be[0] == self.main else None,
                                 cb[1] if cb and cb[0] == self.main else None))
        if isdef:
            self.func, self.n = prev


def annotate(path, dst, cflags):
    """Writes the annotated copy; returns (list of loop names, list of functions)."""
    ast = clang_ast(path, cflags)
    w = _Walk(path)
    w.walk(ast)
    data = open(path, "rb").read()
    names, ins = [], []
    for func, n, off, kind, compound, end, cond in w.out:
        name = "FV_LOOP_%s_%d" % (func, n)
        names.append(name)
        ghost = " FV_GHOST_%s_%d " % (func, n)
        if cond is not None:
            ins.append((cond, " FV_COND_%s_%d " % (func, n)))
        if compound and data[off:off + 1] == b"{":
            ins.append((off, " %s " % name))
            ins.append((off + 1, ghost))
        elif end is not None and not compound:
            # a single statement as the body is put into braces
            m = re.match(rb"\s*;", data[end:])
            if m:
                end += m.end()
            ins.append((off, " %s {%s" % (name, ghost)))
            ins.append((end, " }"))
        else:
            ins.append((off, " %s " % name))
    for off, text in sorted(ins, key=lambda t: -t[0]):
        data = data[:off] + text.encode() + data[off:]
    tmp = dst + ".tmp"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, dst)
    return sorted(names), w.funcs


def gen_defaults(names, dst):
    with open(dst, "w") as f:
        for n in sorted(set(names)):
            g = n.replace("FV_LOOP_", "FV_GHOST_", 1)
            f.write("#ifndef %s\n#define %s\n#endif\n" % (n, n))
            f.write("#ifndef %s\n#define %s\n#endif\n" % (g, g))
            g = n.replace("FV_LOOP_", "FV_COND_", 1)
            f.write("#ifndef %s\n#define %s\n#endif\n" % (g, g))
