"""Running the compiler on sets of files and describing what it did."""
import os, random, re
import core
from schema import *

CLASSES = [("Invalid name", "name"), ("Duplicate type", "dup-type"), ("Duplicate item", "dup-item"),
           ("Not find:", "no-base"), ("Repeated tag key", "tag"), ("cannot be empty", "key-null"),
           ("Map keys can only", "key-type"), ("Type can only be data", "not-data"),
           ("Cyclic extends", "cycle"), ("Not import", "import")]


def error_class(out):
    line = [l for l in out.splitlines() if core.ERR.search(l)]
    if not line:
        return ""
    for k, c in CLASSES:
        if k in line[0]:
            return c
    return ""


def put(d, texts):
    core.write_files(d, texts)


def run_files(ctx, texts, roots, typ="ts", pattern=None, out=None):
    """texts: {path: text}.  Compiles pattern (or the single root)."""
    d = ctx.dir()
    put(os.path.join(d, "in"), texts)
    out = out or os.path.join(d, "out")
    pat = pattern or roots[0]
    res = ctx.compile(os.path.join(d, "in", pat), out, typ)
    return d, out, res


def record(files_toks, roots, res, lits):
    """files_toks: {path: raw tokens}; lits: {path: import literals}"""
    return {"files": [record_file(p, t, lits.get(p, [])) for p, t in sorted(files_toks.items())],
            "roots": sorted(roots), "verdict": res.verdict, "class": error_class(res.out) if res.verdict == "reject" else ""}
