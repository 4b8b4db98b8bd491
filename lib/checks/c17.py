"""C17: validation in generated Go (Verify.tla, VerifyEval.tla)."""
import random, shutil
import core, gorun, verify
from names import hump
from schema import *

LEVEL = "model_checking"


def said(a):
    """what a generated function answered"""
    return {"err": bool(a.get("err")), "msg": a.get("err", ""), "code": a.get("code", 0)}


def replay(ctx, cfg):
    """every case of MC_Verify with the real code: one field for each list of formats"""
    cases = ctx.tlc_cases("MC_Verify", cfg, workers=4)
    files, where, home = verify.replay(random.Random(ctx.seed), cases)
    b = gorun.GoBatch(ctx)
    b.add("mc", files)
    if not b.build():
        ctx.violation("generated Go does not compile", b.errors["mc"][:4000], dict(b.texts["mc"], **b.source("mc")))
        return
    cmds = []
    for f, c in where:
        v = c["value"]
        d = {"k": "null"} if v["k"] == "null" else {"k": "str", "v": "".join(v["s"])} if v["k"] == "s" else \
            {"k": "int", "v": ("-" if v["n"]["neg"] else "") + ("".join(map(str, v["n"]["int"])) or "0")}
        cmds.append({"op": "verify", "type": "mc." + home[f["name"]], "method": "Verify" + hump(f["name"]),
                     "value": {"k": "data", "m": [{"n": f["name"], "v": d}]}})
    for (f, c), a in zip(where, b.run(cmds, chunks=4)):
        ctx.count("traces_validated_against_impl")
        ctx.count("replayed_cases")
        msg = c["verdict"][:1].upper() + c["verdict"][1:]
        got = said(a)
        if a.get("panic") or got["msg"] != msg or got["err"] != (msg != ""):
            ctx.violation("%s%s with formats %s: the specification says %r for %s, the generated function %r" % (
                c["field"]["kind"], "?" if c["field"]["opt"] else "", [x["item"] for x in c["field"]["formats"]], c["verdict"], c["value"],
                a.get("panic") or a.get("err", "")), str(c), b.source("mc"))
    shutil.rmtree(b.dir, ignore_errors=True)


def run(ctx):
    replay(ctx, "MC_VerifyBig" if ctx.thorough else "MC_Verify")
    rng = random.Random(ctx.seed * 571 + 17)
    total = 3000 if ctx.thorough else 180
    done = 0
    while done < total:
        b = gorun.GoBatch(ctx)
        schemas = {}
        for k in range(min(60, total - done)):
            key = "v%d" % k
            schemas[key] = s = verify.Schema(rng, key)
            b.add(key, s.files)
        done += len(schemas)
        keys = b.build()
        for key, out in sorted(b.errors.items()):
            ctx.violation("generated Go does not compile: " + (out.strip().splitlines() or [""])[0][:300], out[:4000],
                          dict(b.texts[key], **b.source(key)))
        cmds, recs, at = [], [], []
        for key in keys:
            s = schemas[key]
            for name, fields in s.records.items():
                for _ in range(12):
                    vals = [s.value(f, r) for f, r in fields]
                    d = {"k": "data", "m": [{"n": f["name"], "v": v[1]} for (f, _), v in zip(fields, vals)]}
                    methods = ["Verify" + hump(f["name"]) for f, _ in fields] + (["Verify"] if name in s.whole else [])
                    recs.append({"fields": [r for _, r in fields], "values": [v[0] for v in vals]})
                    at.append((key, name, d, len(cmds), methods))
                    cmds += [{"op": "verify", "type": key + "." + name, "method": m, "value": d} for m in methods]
        answers = b.run(cmds, chunks=4)
        for rec, (key, name, d, start, methods) in zip(recs, at):
            got = answers[start:start + len(methods)]
            for m, a in zip(methods, got):
                if a.get("panic") or a.get("err", "").startswith("cannot build"):
                    ctx.violation("%s of %s: %s" % (m, name, a.get("panic") or a["err"]), str(d), dict(b.texts[key], **b.source(key)))
            n = len(rec["fields"])
            rec["got"] = [said(a) for a in got[:n]]
            rec["whole"] = [said(a) for a in got[n:]]
        for rec, (key, name, d, start, methods), v in zip(recs, at, ctx.tlc_eval("VerifyEval", recs)):
            ctx.count("traces_validated_against_impl", len(methods))
            ctx.count("invalid", sum(1 for w in v["want"] if w))
            for n in v["bad"]:
                f, g = rec["fields"][n - 1], rec["got"][n - 1]
                ctx.violation("%s of %s: the specification says %r, the generated function %r (%d)" % (
                    methods[n - 1], name, v["want"][n - 1], g["msg"], g["code"]),
                    "field %s\nvalue %s" % (f, rec["values"][n - 1]), dict(b.texts[key], **b.source(key)))
            if not v["whole"]:
                ctx.violation("Verify of %s: the specification says %r, the generated function %s" % (name, v["data"], rec["whole"]),
                              "values %s\nfields %s" % (d, v["want"]), dict(b.texts[key], **b.source(key)))
        if recs:
            ctx.sample({"schema": b.texts[at[0][0]], "record": recs[0]})
        shutil.rmtree(b.dir, ignore_errors=True)
