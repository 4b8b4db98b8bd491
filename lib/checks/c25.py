"""C25: validation in generated Dart forms (Forms.tla, FormsEval.tla)."""
import datetime, random, shutil
import core, dartrun, verify
from names import *
from schema import *

LEVEL = "model_checking"
EPOCH = datetime.datetime(1970, 1, 1)


def key_of(x):
    """the text of an enum item without texts of its own"""
    return hump(x["item"].rpartition(".")[2])


def entered(rng, f, v, d):
    """the text of a form for a value, as (value of Forms.tla, text)"""
    k = v["k"]
    if k == "null":
        # nothing at all, which a field that needs a value takes for an empty text
        text = rng.choice([None, ""])
        return (v if (f["type"]["opt"] if f["type"]["shape"] == "one" else f["type"]["copt"]) else {"k": "t", "s": []}), text
    if k in ("c", "d"):
        return v, rng.choice(["a text", "{}", "[1]"])
    if d["k"] == "date":
        t = EPOCH + datetime.timedelta(milliseconds=int(d["v"]))
        form = rng.choice(["%Y-%m-%dT%H:%M:%S", "%Y-%m-%d %H:%M:%S"])
        return v, t.strftime(form).rjust(19, "0") + (".%03d" % (t.microsecond // 1000) if t.microsecond or rng.random() < 0.5 else "") + "Z"
    if k == "n":
        return {"k": "t", "s": list(d["v"])}, d["v"]
    return v, d["v"]


def replay(ctx, cfg):
    """every case of MC_Forms with the real code"""
    cases = ctx.tlc_cases("MC_Forms", cfg, workers=4)
    files, where, home = verify.replay(random.Random(ctx.seed), cases)
    b = dartrun.DartBatch(ctx)
    b.add("mc", files)
    if not b.build():
        ctx.violation("generated Dart does not compile", b.errors["mc"][:4000], dict(b.texts["mc"], **b.source("mc")))
        return
    cmds = []
    for f, c in where:
        v = c["value"]
        text = None if v["k"] == "null" else "".join(v["s"]) if v["k"] == "t" else "".join(map(str, v["n"]["int"])) or "0"
        cmds.append({"op": "verify", "type": "mc.%s.%s" % (home[f["name"]], f["name"]), "text": text})
    for (f, c), cmd, a in zip(where, cmds, b.run(cmds)):
        ctx.count("traces_validated_against_impl")
        ctx.count("replayed_cases")
        want = [key_of({"item": c["dart"]}) if c["dart"] else ""]
        if a.get("said") != want:
            ctx.violation("%s%s with formats %s: the specification says %s for %r, the form %s" % (
                c["field"]["of"], "?" if c["field"]["opt"] else "", [x["item"] for x in c["field"]["formats"]], want, cmd["text"],
                a.get("said", a.get("panic"))), str(c), b.source("mc"))
    shutil.rmtree(b.dir, ignore_errors=True)


def run(ctx):
    replay(ctx, "MC_FormsBig" if ctx.thorough else "MC_Forms")
    rng = random.Random(ctx.seed * 677 + 25)
    for batch in range(8 if ctx.thorough else 1):
        b = dartrun.DartBatch(ctx)
        schemas = {}
        for k in range(120 if ctx.thorough else 60):
            key = "v%d" % k
            schemas[key] = s = verify.Schema(rng, key)
            b.add(key, s.files)
        keys = b.build()
        for key, out in sorted(b.errors.items()):
            ctx.violation("generated Dart does not compile: " + (out.strip().splitlines() or [""])[0][:300], out[:4000], dict(b.texts[key], **b.source(key)))
        cmds, recs, at = [], [], []
        for key in keys:
            s = schemas[key]
            for name, fields in s.records.items():
                for f, r in fields:
                    vals, start = [], len(cmds)
                    for _ in range(12):
                        if f["type"]["shape"] == "one" and r["kind"] in ("int", "num", "dec", "str", "date") and rng.random() < 0.6:
                            v, text = s.typed(f, r)
                        else:
                            v, text = entered(rng, f, *s.value(f, r))
                        if v["k"] == "c" and v["empty"] or v["k"] == "e" and not v["known"]:
                            continue
                        vals.append(v)
                        cmds.append({"op": "verify", "type": "%s.%s.%s" % (key, name, f["name"]), "text": text})
                    if vals:
                        r = dict(r, of=f["type"]["of"], formats=[dict(x, key=key_of(x)) for x in r["formats"]])
                        recs.append({"lang": "dart", "field": r, "values": vals})
                        at.append((key, name, f, start))
        answers = b.run(cmds)
        for rec, (key, name, f, start) in zip(recs, at):
            rec["got"] = [a.get("said", ["panic"]) for a in answers[start:start + len(rec["values"])]]
        for rec, (key, name, f, start), v in zip(recs, at, ctx.tlc_eval("FormsEval", recs)):
            ctx.count("traces_validated_against_impl", len(rec["values"]))
            ctx.count("invalid", sum(1 for w in v["want"] if w))
            if v["strange"]:
                raise core.CheckError("the specifications of forms and of servers differ: %s %s" % (rec["field"], [rec["values"][n - 1] for n in v["strange"]]))
            for n in v["bad"]:
                ctx.violation("validation of %s %s.%s: the specification says %r for %r, the form %s" % (
                    f["type"]["of"], name, f["name"], v["want"][n - 1], cmds[start + n - 1]["text"], answers[start + n - 1]),
                    "field %s" % rec["field"], dict(b.texts[key], **b.source(key)))
        if recs:
            ctx.sample({"schema": b.texts[at[0][0]], "record": recs[0]})
        shutil.rmtree(b.dir, ignore_errors=True)
