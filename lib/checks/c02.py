"""C02: which schemas are accepted (Rules.tla, judged by VerdictEval.tla)."""
import os, random, shutil
import gen, runs
from schema import *

LEVEL = "model_checking"


def run(ctx):
    rng = random.Random(ctx.seed)
    small_scope(ctx, rng)
    random_scope(ctx, rng)


def small_scope(ctx, rng):
    """every schema of two declarations that MC_Rules enumerates, compiled"""
    cases = ctx.tlc_cases("MC_Rules", "MC_RulesBig" if ctx.thorough else "MC_Rules", workers=8, heap="8g")
    ctx.cov["small_scope_schemas"] = len(cases)
    cap = 60000 if ctx.thorough else 6000
    if len(cases) > cap:
        cases = rng.sample(cases, cap)

    def files(c):
        ds = [c["a"]] + ([c["b"]] if c["b"]["name"] else [])
        if c["layout"] == "one":
            return {"x.hbuf": hfile(ds)}
        return {"x.hbuf": hfile(ds[:1], [] if c["layout"] == "none" else ["y.hbuf"]),
                "y.hbuf": hfile(ds[1:], ["x.hbuf"] if c["layout"] == "both" else [])}

    def one(c):
        fs = files(c)
        d, out, res = runs.run_files(ctx, {p: render(f) for p, f in fs.items()}, sorted(fs), "ts", "*.hbuf")
        shutil.rmtree(d, ignore_errors=True)
        return res
    for c, r in zip(cases, ctx.pmap(one, cases)):
        ctx.count("traces_validated_against_impl")
        want = "reject" if c["errors"] else "accept"
        cls = runs.error_class(r.out) if r.verdict == "reject" else ""
        if r.verdict != want or (cls and cls not in c["errors"]):
            ctx.violation("rules %s: the specification says %s %s, the compiler %s %s" %
                          ("/".join(sorted(c["errors"])) or "valid", want, sorted(c["errors"]), r.verdict, cls),
                          "compiler output:\n" + r.out[:1500], {p: render(f) for p, f in files(c).items()})


def random_scope(ctx, rng):
    n = 20000 if ctx.thorough else 3000
    cases = []
    for k in range(n):
        files = gen.schema(rng, nfiles=rng.choice([1, 1, 2, 2, 3]), max_decls=rng.choice([2, 3, 5]))
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            files = gen.mutate(rng, files)
        root = rng.choice(sorted(files))
        allroots = rng.random() < 0.6
        cases.append((files, sorted(files) if allroots else [root], "*.hbuf" if allroots else root,
                      rng.choice(["ts", "go", "dart", "java"])))

    def one(c):
        files, roots, pat, typ_ = c
        d, out, res = runs.run_files(ctx, {p: render(f) for p, f in files.items()}, roots, typ_, pat)
        shutil.rmtree(d, ignore_errors=True)
        return res
    results = ctx.pmap(one, cases)
    recs = [runs.record({p: plain(file_toks(f)) for p, f in c[0].items()}, c[1], r,
                        {p: f["imports"] for p, f in c[0].items()}) for c, r in zip(cases, results)]
    verdicts = ctx.tlc_eval("VerdictEval", recs)
    acc = 0
    classes = {}
    for c, r, rec, v in zip(cases, results, recs, verdicts):
        ctx.count("traces_validated_against_impl")
        acc += v["want"] == "accept"
        for e in v["errors"]:
            classes[e] = classes.get(e, 0) + 1
        if not v["ok"]:
            ctx.violation("rules %s: the specification says %s %s, the compiler %s %s" %
                          ("/".join(sorted(v["errors"])) or "valid", v["want"], v["errors"], r.verdict, rec["class"]),
                          "target %s, build of %s\ncompiler output:\n%s" % (c[3], c[2], r.out[:1500]),
                          {p: render(f) for p, f in c[0].items()})
    ctx.cov["accepted"] = acc
    ctx.cov["rejected_by_class"] = classes
    ctx.sample({"files": {p: render(f) for p, f in cases[0][0].items()}, "verdict": results[0].verdict})
