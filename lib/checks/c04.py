"""C04: output is a function of the file and its imports (Pipeline.tla)."""
import random
import pipeline

LEVEL = "model_checking"


def run(ctx):
    ctx.tlc("MC_Pipeline", workers=8)
    num = 1600 if ctx.thorough else 260
    hs = pipeline.histories(ctx, num, cfg="MC_PipelineGood")
    check(ctx, hs, 4, lambda e: e[0] != "verdict")


def check(ctx, hs, salt, mine=lambda e: True):
    seeds = ["%d/%d/%d" % (ctx.seed, salt, k) for k in range(len(hs))]
    res = ctx.pmap(lambda x: pipeline.replay(ctx, x[0], x[1]), list(zip(hs, seeds)))
    out = ctx.tlc_eval("PipelineTrace", [r[0] for r in res])
    for (rec, texts, log), v in zip(res, out):
        ctx.count("traces_validated_against_impl")
        for s in rec["steps"]:
            ctx.count("builds", s["op"] == "build")
            ctx.count("successful_builds", s["op"] == "build" and s["verdict"] == "accept")
        errs = sorted(e for e in map(tuple, v["errors"]) if mine(e))
        if errs:
            ctx.violation("history: " + "; ".join("%s (step %s: %s)" % (e[0], e[1], e[2]) for e in errs[:3]),
                          "\n".join("%d. %s" % (i + 1, l) for i, l in enumerate(log)), texts)
    ctx.sample({"history": res[0][2]})
