"""C18: validation in generated TypeScript forms (Forms.tla, FormsEval.tla)."""
import random, shutil
import core, tsrun, verify
from names import *
from schema import *

LEVEL = "model_checking"


def key_of(x):
    """the key of the text of an enum item"""
    e, _, n = x["item"].rpartition(".")
    return "%sLang.%s" % (first_lower(e or "E"), hump(n))


def replay(ctx, cfg):
    """every case of MC_Forms with the real code"""
    cases = ctx.tlc_cases("MC_Forms", cfg, workers=4)
    files, where, home = verify.replay(random.Random(ctx.seed), cases)
    b = tsrun.TsBatch(ctx)
    b.add("mc", files)
    if not b.build():
        ctx.violation("generated TypeScript cannot be loaded", b.errors["mc"][:4000], dict(b.texts["mc"], **b.source("mc")))
        return
    cmds = []
    for f, c in where:
        v = c["value"]
        cmd = {"op": "verify", "type": "mc.%s.%s" % (home[f["name"]], f["name"]), "t": f["type"]}
        if v["k"] == "n":
            cmd["value"] = {"k": "int", "v": "".join(map(str, v["n"]["int"])) or "0"}
        else:
            cmd["text"] = None if v["k"] == "null" else "".join(v["s"])
        cmds.append(cmd)
    for (f, c), cmd, a in zip(where, cmds, b.run(cmds, chunks=4)):
        ctx.count("traces_validated_against_impl")
        ctx.count("replayed_cases")
        want = [key_of({"item": c["verdict"]}) if c["verdict"] else ""]
        if a.get("said") != want:
            ctx.violation("%s%s with formats %s: the specification says %s for %s, the form %s" % (
                c["field"]["of"], "?" if c["field"]["opt"] else "", [x["item"] for x in c["field"]["formats"]], want, cmd.get("text", cmd.get("value")),
                a.get("said", a.get("panic"))), str(c), b.source("mc"))
    shutil.rmtree(b.dir, ignore_errors=True)


def run(ctx):
    replay(ctx, "MC_FormsBig" if ctx.thorough else "MC_Forms")
    rng = random.Random(ctx.seed * 659 + 18)
    for batch in range(12 if ctx.thorough else 1):
        b = tsrun.TsBatch(ctx)
        schemas = {}
        for k in range(150 if ctx.thorough else 80):
            key = "v%d" % k
            schemas[key] = s = verify.Schema(rng, key)
            b.add(key, s.files)
        keys = b.build()
        for key, out in sorted(b.errors.items()):
            ctx.violation("generated TypeScript cannot be loaded: " + (out.strip().splitlines() or [""])[0][:300], out[:4000], dict(b.texts[key], **b.source(key)))
        cmds, recs, at = [], [], []
        for key in keys:
            s = schemas[key]
            for name, fields in s.records.items():
                for f, r in fields:
                    vals, start = [], len(cmds)
                    for _ in range(12):
                        cmd = {"op": "verify", "type": "%s.%s.%s" % (key, name, f["name"]), "t": f["type"]}
                        if f["type"]["shape"] == "one" and r["kind"] in ("int", "num", "dec", "str", "date") and rng.random() < 0.5:
                            v, text = s.typed(f, r)
                            cmd["text"] = text
                        else:
                            v, d = s.value(f, r)
                            if d["k"] == "map":
                                d = {"k": "map", "m": [{"n": e["k"]["v"], "v": e["v"]} for e in d["m"]]}
                            if v["k"] == "e" and not v["known"] or v["k"] == "c" and (v["empty"] or known(d)):
                                continue
                            cmd["value"] = d
                        vals.append(v)
                        cmds.append(cmd)
                    if vals:
                        r = dict(r, of=f["type"]["of"], formats=[dict(x, key=key_of(x)) for x in r["formats"]])
                        recs.append({"lang": "ts", "field": r, "values": vals})
                        at.append((key, name, f, start))
        answers = b.run(cmds, chunks=4)
        for rec, (key, name, f, start) in zip(recs, at):
            rec["got"] = [a.get("said", ["panic"]) for a in answers[start:start + len(rec["values"])]]
        for rec, (key, name, f, start), v in zip(recs, at, ctx.tlc_eval("FormsEval", recs)):
            ctx.count("traces_validated_against_impl", len(rec["values"]))
            ctx.count("invalid", sum(1 for w in v["want"] if w))
            if v["strange"]:
                raise core.CheckError("the specifications of forms and of servers differ: %s %s" % (rec["field"], [rec["values"][n - 1] for n in v["strange"]]))
            for n in v["bad"]:
                x = cmds[start + n - 1]
                ctx.violation("validation of %s %s.%s: the specification says %r for %s, the form %s" % (
                    f["type"]["of"], name, f["name"], v["want"][n - 1], x.get("text", x.get("value")), answers[start + n - 1]),
                    "field %s" % rec["field"], dict(b.texts[key], **b.source(key)))
        if recs:
            ctx.sample({"schema": b.texts[at[0][0]], "record": recs[0]})
        shutil.rmtree(b.dir, ignore_errors=True)


def known(d):
    """a collection with an enum value that does not exist, or one that a form cannot tell from nothing"""
    xs = d["l"] if d["k"] == "list" else [e["v"] for e in d["m"]]
    return any(x["k"] == "enum" for x in xs) or all(x["k"] == "str" and x["v"] in ("", "null", "undefined") for x in xs)
