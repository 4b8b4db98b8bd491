"""C20: any text is either built or refused with an error (Grammar.tla)."""
import os, random, shutil
import core, gen, runs, layout
from schema import *

LEVEL = "model_checking"


def said(r):
    return "says %s with exit status %d" % ("an error" if r.rc == 0 else "no error", r.rc) if r.unclear else r.verdict


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 20)
    n = 16000 if ctx.thorough else 3200
    cases = []
    for k in range(n):
        files = gen.schema(rng, nfiles=rng.choice([1, 1, 2]), max_decls=3)
        for p, f in files.items():
            decorate(rng, f)
        toks = {p: layout.layout(rng, file_toks(f)) for p, f in files.items()}
        victim = rng.choice(sorted(toks))
        r = rng.random()
        if r < 0.05:
            toks[victim] = layout.unended(rng, toks[victim])
        elif r < 0.93:
            pool = layout.POOL + toks[victim]
            toks[victim] = layout.damage(rng, toks[victim], pool)
        texts = {p: layout.ink(rng, t, comments=not any(x["t"] == "bad" for x in t)) for p, t in toks.items()}
        root = rng.choice(sorted(files))
        every = rng.random() < 0.5
        lits = {p: [t["v"] for t in ts if t["t"] == "str"] for p, ts in toks.items()}
        cases.append((toks, texts, sorted(files) if every else [root], "*.hbuf" if every else root,
                      rng.choice(["ts", "go", "dart", "java"]), lits))

    def one(c):
        toks, texts, roots, pat, t, lits = c
        d, out, res = runs.run_files(ctx, texts, roots, t, pat)
        shutil.rmtree(d, ignore_errors=True)
        return res
    results = ctx.pmap(one, cases)
    recs = [runs.record(c[0], c[2], r, c[5]) for c, r in zip(cases, results)]
    verdicts = ctx.tlc_eval("VerdictEval", recs)
    acc = 0
    for c, r, rec, v in zip(cases, results, recs, verdicts):
        ctx.count("traces_validated_against_impl")
        acc += v["want"] == "accept"
        if r.crashed or r.unclear or r.verdict != v["want"]:
            ctx.violation("text: the specification says %s %s, the compiler %s" % (v["want"], sorted(v["errors"]), said(r)),
                          "target %s, build of %s\ncompiler output:\n%s" % (c[4], c[3], r.out[:3000]), c[1])
    ctx.cov["accepted"] = acc
    garbage(ctx, rng)
    active(ctx, rng)
    ctx.sample({"files": cases[0][1], "verdict": results[0].verdict})


def decorate(rng, f):
    """inert tags, so that the tag syntax is exercised"""
    def tags():
        return [tag(n, *[(k, [rng.choice(["a", "b c", "x=?"])] * rng.choice([1, 1, 2])) for k in rng.sample(["k", "l", "m"], rng.randint(0, 3))])
                for n in rng.sample(["note", "memo"], rng.choice([0, 0, 1, 2]))]
    for d in f["decls"]:
        d["tags"] = tags()
        for m in d["fields"] + d["items"] + d["methods"]:
            if rng.random() < 0.3:
                m["tags"] = tags()


VALUES = {
    "db": {"name": ["user", "", "a.b"], "schema": ["s", ""], "table": ["User", "Order", "A", "Nope", ""],
           "insert": ["self", "parent", "true", ""], "inserts": ["self", "true"], "update": ["self", "parent", "true"],
           "set": ["self", "true", "NOW()"], "get": ["self", "parent", "true"], "list": ["self", "parent", "x"],
           "map": ["id:self", "id:parent", "id", "nope:self", ":", ""], "count": ["true", ""], "del": ["true", "self"],
           "rm": ["true"], "fake": ["true", "false", ""], "key": ["true", "false", ""],
           "where": ["AND id = ?", "AND a = ${name}", "${nope}", "?{id}", "?{nope}", "$", "AND x > ? AND y < ?", ""],
           "order": ["?", "id", "${id}", ""], "limit": ["?", "true", ""], "offset": ["?", "true"], "group": ["?", "id"],
           "force": ["true"], "converter": ["json", ""]},
    "db2": {"where": ["AND id = ?"]}, "dbx": {"name": ["x"]},
    "bind": {"value": ["UserServer.get", "Admin.Ping", "Nope.get", "UserServer", ".", "A.get", "UserServer.nope", "", "a.b.c"]},
    "verify": {"format": ["A.On", "User.On", "Nope.X", "A", "", ".", "A.nope", "A.On.x"]},
    "format": {"null": ["true", "false", ""], "reg": ["^a$", "[", ""], "min": ["1", "x", ""], "max": ["3", "", "-1", "2020-01-02T03:04:05Z"]},
    "lang": {"zh": ["x", ""], "en": ["y"]},
    "ui": {"onlyRead": ["true"], "form": ["text", "select", "date", "x", ""], "table": ["text", "image", ""],
           "index": ["1", "x", ""], "digit": ["2", "x"], "width": ["10", "x"], "height": ["10"], "extension": ["jpg"],
           "maxLine": ["3", "x"], "maxCount": ["2"], "format": ["yyyy"], "toNull": ["true"], "clip": ["1:1"], "suffix": ["x"]},
    "cache": {"min": ["1", "x", ""], "max": ["2", "x"]},
    "tag": {"a": ["b"], "auth": ["x"]}}


def active_tags(rng):
    ts = []
    for n in rng.sample(sorted(VALUES), rng.choice([0, 1, 1, 2])):
        ks = rng.sample(sorted(VALUES[n]), rng.randint(0, min(4, len(VALUES[n]))))
        ts.append(tag(n, *[(k, [rng.choice(VALUES[n][k]) for _ in range(rng.choice([1, 1, 1, 2]))]) for k in ks]))
    return ts


def active(ctx, rng):
    """tags that the generators act upon, with sensible and odd values.  Which of them are
    accepted is not a matter of the schema rules, but a schema that breaks a rule stays
    refused whatever its tags say."""
    n = 12000 if ctx.thorough else 2400
    cases = []
    for k in range(n):
        files = gen.schema(rng, nfiles=rng.choice([1, 2]), max_decls=4)
        for p, f in files.items():
            f["pkgs"] = [{"k": "go", "v": rng.choice(["demo", "demo", "a.demo", ""])}, {"k": "java", "v": "com.demo"}]
            for d in f["decls"]:
                d["tags"] = active_tags(rng)
                for m in d["fields"] + d["items"] + d["methods"]:
                    m["tags"] = active_tags(rng)
        if rng.random() < 0.2:
            files = gen.mutate(rng, files)
        cases.append((files, rng.choice(["go", "go", "ts", "dart", "java"])))

    def one(c):
        d, out, res = runs.run_files(ctx, {p: render(f) for p, f in c[0].items()}, sorted(c[0]), c[1], "*.hbuf")
        shutil.rmtree(d, ignore_errors=True)
        return res
    results = ctx.pmap(one, cases)
    recs = [runs.record({p: plain(file_toks(f)) for p, f in c[0].items()}, sorted(c[0]), r,
                        {p: f["imports"] for p, f in c[0].items()}) for c, r in zip(cases, results)]
    for c, r, v in zip(cases, results, ctx.tlc_eval("VerdictEval", recs)):
        ctx.count("tagged_schemas")
        if r.crashed or r.unclear or (v["want"] == "reject" and r.verdict != "reject"):
            ctx.violation("tags: the specification says %s %s, the compiler %s" % (v["want"], sorted(v["errors"]), said(r)),
                          "target %s\n%s" % (c[1], r.out[:3000]), {p: render(f) for p, f in c[0].items()})


def garbage(ctx, rng):
    """texts that are no token sequence of ours: nothing but termination without a crash is demanded"""
    n = 4000 if ctx.thorough else 800
    alpha = "abAB01 \t\n\r{}[]()<>=:;,?.\"`'/*\\_-$\u00e9\u4e2d\x00\ufeff"
    texts = []
    for k in range(n):
        if rng.random() < 0.5:
            files = gen.schema(rng, nfiles=1, max_decls=2)
            b = bytearray(layout.ink(rng, layout.layout(rng, file_toks(files["a.hbuf"]))).encode())
            for _ in range(rng.randint(1, 6)):
                i = rng.randrange(len(b) + 1)
                k2 = rng.random()
                if k2 < 0.4:
                    b[i:i + rng.randint(1, 4)] = b""
                elif k2 < 0.8:
                    b[i:i] = rng.choice(alpha).encode()
                else:
                    b[i:i + 1] = bytes([rng.randrange(256)])
            texts.append(bytes(b))
        else:
            texts.append("".join(rng.choice(alpha) if rng.random() < 0.6 else rng.choice([" data ", " enum ", " server ", "\n", "int8 x = 1\n", " A ", "{", "}", "[a:b=\"c\"]\n"])
                                 for _ in range(rng.randint(1, 60))).encode())

    def one(t):
        d, out, res = runs.run_files(ctx, {"a.hbuf": t}, ["a.hbuf"], "ts")
        shutil.rmtree(d, ignore_errors=True)
        return res
    for t, r in zip(texts, ctx.pmap(one, texts)):
        ctx.count("garbage_texts")
        if r.crashed or r.unclear:
            ctx.violation("text: the compiler %s" % said(r), r.out[:3000], {"a.hbuf": repr(t)})
