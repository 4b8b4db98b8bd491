"""C09: JSON of generated TypeScript data, and its way to Go and back (Wire.tla, WireEval.tla)."""
import random, shutil
import core, gen, gorun, tsrun, values
from checks import wire
from checks.c08 import KEYS, no_bytes
from schema import *
from names import *

LEVEL = "model_checking"
TSKEYS = KEYS + ["bool", "date", "decimal"]      # what TypeScript can have as map keys; Go cannot


def schemas(rng, n, go):
    for k in range(n):
        key = "s%d" % k
        if k == 0:
            files = gen.every_type(rng, (("go", key),), KEYS if go else TSKEYS)
        elif k == 1 and not go:
            files = gen.family(rng, (("go", key),), ("data",))
        else:
            files = gen.schema(rng, nfiles=rng.choice([1, 1, 2]), max_decls=6, pkgs=(("go", key),), servers=False)
            tame(rng, files, KEYS if go else TSKEYS, () if go else ("data",))
        if go:
            no_bytes(files)
        yield key, files


def failed(ctx, what, a, detail, texts):
    e = a.get("panic") or a.get("err")
    if e:
        ctx.violation("%s fails: %s" % (what, e), str(detail), texts)
    return bool(e)


def broken(ctx, b, who="TypeScript"):
    for key, out in sorted(b.errors.items()):
        ctx.violation("generated " + who + (" cannot be loaded: " if who == "TypeScript" else " does not compile: ") + (out.strip().splitlines() or [""])[0][:300], out[:4000], dict(b.texts[key], **b.source(key)))


def json_steps(ctx, rng, b, keys, per, who="TypeScript"):
    """encoding and decoding by one language alone"""
    jobs, cmds = [], []
    for key in keys:
        m = b.models[key]
        for n in m.of_kind("data"):
            for _ in range(per):
                v = values.data(rng, m, n)
                jobs.append((key, n, "encode", v))
                cmds.append({"op": "encode", "type": key + "." + n, "value": v})
                j = values.random_json(rng, m, values.data(rng, m, n), values.plain(n))
                jobs.append((key, n, "decode", j))
                cmds.append({"op": "decode", "type": key + "." + n, "text": values.json_text(j)})
    answers = b.run(cmds, chunks=4)
    again = [(job, a["text"]) for job, a in zip(jobs, answers) if job[2] == "encode" and not a.get("panic")]
    back = b.run([{"op": "decode", "type": job[0] + "." + job[1], "text": t} for job, t in again], chunks=4)
    for (job, t), a in zip(again, back):
        jobs.append((job[0], job[1], "decode", values.parse_json(t)))
        answers.append(a)
    steps = {}
    for (key, n, op, x), a in zip(jobs, answers):
        if failed(ctx, "%s %s of %s" % (who, op, n), a, x, dict(b.texts[key], **b.source(key))):
            continue
        if op == "encode":
            s = {"op": op, "value": x, "json": values.parse_json(a["text"]), "getters": {"k": "null"}, "built": {"k": "null"}}
        else:
            s = {"op": op, "json": x, "value": tsrun.from_driver(a["value"])}
        steps.setdefault((key, n), []).append(s)
    return steps


def trips(ctx, rng, t, g, keys, per, who="TypeScript"):
    """values that Go sends to the other language and gets back, and the other way round"""
    jobs, cg, ct = [], [], []
    for key in keys:
        m = t.models[key]
        for n in m.of_kind("data"):
            for _ in range(per):
                v, w = values.data(rng, m, n), values.data(rng, m, n)
                jobs.append((key, n, v, w))
                cg.append({"op": "encode", "type": key + "." + n, "value": values.to_driver(v, values.plain(n), m)})
                ct.append({"op": "encode", "type": key + "." + n, "value": w})
    sent_g, sent_t = g.run(cg, chunks=4), t.run(ct, chunks=4)
    ok = [k for k in range(len(jobs)) if not sent_g[k].get("err") and not sent_g[k].get("panic") and not sent_t[k].get("panic")]
    name = lambda k: jobs[k][0] + "." + jobs[k][1]
    by_t = t.run([{"op": "again", "type": name(k), "text": sent_g[k]["text"]} for k in ok], chunks=4)
    by_g = g.run([{"op": "decode", "type": name(k), "text": sent_t[k]["text"]} for k in ok], chunks=4)
    back_g = g.run([{"op": "decode", "type": name(k), "text": a.get("text", "")} for k, a in zip(ok, by_t)], chunks=4)
    good = [i for i, a in enumerate(by_g) if not a.get("err") and not a.get("panic")]
    resent = g.run([{"op": "encode", "type": name(ok[i]), "value": by_g[i]["value"]} for i in good], chunks=4)
    back_t = dict(zip(good, t.run([{"op": "decode", "type": name(ok[i]), "text": a.get("text", "null")} for i, a in zip(good, resent)], chunks=4)))
    steps = {}
    for i, k in enumerate(ok):
        key, n, v, w = jobs[k]
        files = dict(t.texts[key], **{"sent by Go": sent_g[k]["text"], "sent by " + who: sent_t[k]["text"], "sent back by " + who: by_t[i].get("text", "")})
        for doing, x in ((who + " reading what Go wrote, of", by_t[i]), ("Go reading what " + who + " wrote back, of", back_g[i]),
                         ("Go reading what " + who + " wrote, of", by_g[i]), (who + " reading what Go wrote back, of", back_t.get(i, {}))):
            if failed(ctx, doing + " " + n, x, v, files):
                break
        else:
            steps.setdefault((key, n), []).append({"op": "trip", "value": v, "back": values.from_driver(back_g[i]["value"])})
            steps[key, n].append({"op": "trip", "value": w, "back": values.from_driver(by_g[i]["value"])})
            steps[key, n].append({"op": "trip", "value": w, "back": tsrun.from_driver(back_t[i]["value"])})
    return steps


def run(ctx):
    ctx.tlc("MC_Wire", "MC_WireBig" if ctx.thorough else "MC_Wire", workers=4)
    rng = random.Random(ctx.seed * 431 + 9)
    for batch in range(6 if ctx.thorough else 1):
        # with what only TypeScript can
        t = tsrun.TsBatch(ctx)
        for key, files in schemas(rng, 60 if ctx.thorough else 20, False):
            t.add(key, files)
        keys = t.build()
        broken(ctx, t)
        wire.judge(ctx, "TypeScript", json_steps(ctx, rng, t, keys, 8), t.models, t.texts)
        shutil.rmtree(t.dir, ignore_errors=True)
        # with what Go can, too
        t, g = tsrun.TsBatch(ctx), gorun.GoBatch(ctx)
        for key, files in schemas(rng, 60 if ctx.thorough else 24, True):
            t.add(key, files)
            g.add(key, files)
        keys = t.build()
        broken(ctx, t)
        gk = g.build()
        for key, out in sorted(g.errors.items()):
            ctx.violation("generated Go does not compile: " + (out.strip().splitlines() or [""])[0][:300], out[:4000], g.texts[key])
        steps = trips(ctx, rng, t, g, [k for k in keys if k in gk], 5)
        wire.judge(ctx, "Go and TypeScript", steps, t.models, t.texts)
        shutil.rmtree(t.dir, ignore_errors=True)
        shutil.rmtree(g.dir, ignore_errors=True)
