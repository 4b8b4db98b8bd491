"""C05: layout and comments do not matter (Grammar.tla, LayoutEval.tla)."""
import os, random, re, shutil
import core, gen, layout, rich, runs
from schema import *

LEVEL = "model_checking"


# what ends a line, and so a comment
LINES = {"go": "\n", "dart": "[\n\r]", "java": "[\n\r]", "ts": "[\n\r\u2028\u2029]"}


def strip(text, target):
    """generated text without comments and blank lines; '//' inside a string is no comment"""
    if target == "java":
        # before anything else, even in comments
        text = re.sub(r"(?<!\\)((?:\\\\)*)\\u+([0-9a-fA-F]{4})?", lambda x: x.group(1) + (chr(int(x.group(2), 16)) if x.group(2) else "\nillegal\n"), text)
    out = []
    for line in re.split(LINES[target], text):
        q = None
        i = 0
        while i < len(line):
            c = line[i]
            if q:
                if c == "\\" and q != "`":
                    i += 1
                elif c == q:
                    q = None
            elif c in "\"'`":
                q = c
            elif line.startswith("//", i):
                line = line[:i]
                break
            i += 1
        line = line.rstrip()
        if line:
            out.append(line)
    return "\n".join(out)


def run(ctx):
    rng = random.Random(ctx.seed * 101 + 5)
    n = 3000 if ctx.thorough else 420
    k = 5
    cases = []
    for _ in range(n):
        files = gen.schema(rng, nfiles=1, max_decls=4, pkgs=(("go", "demo"), ("java", "com.demo")))
        p = "a.hbuf"
        f = files[p]
        if [d for d in f["decls"] if d["kind"] == "data" and d["fields"]] and [d for d in f["decls"] if d["kind"] == "enum"]:
            rich.decorate(rng, files)
        base = file_toks(f)
        t = rng.choice(["go", "ts", "dart", "java"])
        texts = [plain(base)] + [layout.layout(rng, base) for _ in range(k)]
        inks = [text(texts[0])] + [layout.ink(rng, x, comments=i > 1) for i, x in enumerate(texts[1:])]
        cases.append((texts, inks, t))

    def one(c):
        res = []
        for ink in c[1]:
            d, out, r = runs.run_files(ctx, {"a.hbuf": ink}, ["a.hbuf"], c[2])
            o = core.tree(out) if os.path.isdir(out) else {}
            res.append((r.verdict, {n: strip(b.decode("utf-8", "replace"), c[2]) for n, b in o.items()}, o))
            shutil.rmtree(d, ignore_errors=True)
        return res
    results = ctx.pmap(one, cases)
    recs = [{"texts": c[0], "verdicts": [x[0] for x in r],
             "outs": [core.digest(repr(sorted(x[1].items())).encode()) for x in r]} for c, r in zip(cases, results)]
    for c, r, v in zip(cases, results, ctx.tlc_eval("LayoutEval", recs)):
        ctx.count("traces_validated_against_impl", len(c[1]))
        ctx.count("layouts_with_equal_declarations", v["same"] - 1)
        if v["same"] != len(c[1]) or not v["parses"]:
            raise core.CheckError("a layout that the grammar does not parse alike:\n" + "\n=====\n".join(c[1]))
        # no comments: equal to the letter
        if r[0][0] == r[1][0] and r[0][2] != r[1][2]:
            v["differ"] = sorted(set(v["differ"]) | {2})
        for j in v["differ"]:
            names = [n for n in sorted(set(r[0][1]) | set(r[j - 1][1])) if r[0][1].get(n) != r[j - 1][1].get(n)]
            ctx.violation("layout: two texts of the same declarations, one %s, the other %s, different outputs %s" %
                          (r[0][0], r[j - 1][0], names), "target " + c[2],
                          {"text 1": c[1][0], "text 2": c[1][j - 1],
                           **{"out 1 " + n: r[0][1].get(n, "") for n in names[:2]}, **{"out 2 " + n: r[j - 1][1].get(n, "") for n in names[:2]}})
            break
    ctx.sample({"texts": cases[0][1][:3]})
