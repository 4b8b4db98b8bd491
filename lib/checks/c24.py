"""C24: generated Dart: what it declares, its data and its JSON, its servers (DartTypes.tla, DartEval.tla, WireEval.tla, RpcTsEval.tla)."""
import copy, random, shutil
import core, dartrun, gen, gorun, tsrun, values
from checks import c11, c12, wire
from checks.c08 import no_bytes
from checks.c09 import TSKEYS, broken, failed, json_steps, schemas, trips
from schema import *
from names import *

LEVEL = "model_checking"


def no_void(files):
    """methods without a result, which Dart cannot have"""
    for f in files.values():
        for d in f["decls"]:
            d["methods"] = [x for x in d["methods"] if x["res"] != "void"]
    return files


def near(rng, m, n, v):
    """a value that differs from v a little, or not at all"""
    w = copy.deepcopy(v)
    r = rng.random()
    if r < 0.3:
        return w
    if r < 0.4:
        return values.data(rng, m, n)
    o = values.data(rng, m, n)
    at, x, y = n, w, o
    while x["m"]:
        k = rng.randrange(len(x["m"]))
        e, f = x["m"][k], y["m"][k]
        if e["v"]["k"] == f["v"]["k"] == "data" and rng.random() < 0.7:
            x, y = e["v"], f["v"]
            continue
        e["v"] = copy.deepcopy(f["v"])
        break
    return w


def steps_of(rng, m, key, per):
    """[(step, command)]: what is declared, copied and compared"""
    for n, d in m.decl.items():
        for suffix in {"data": [""], "enum": [""], "server": ["", "Client", "Router"]}[d["kind"]]:
            yield {"op": "facts", "name": n, "suffix": suffix}, {"op": "facts", "type": key + "." + n, "suffix": suffix}
    for n in m.of_kind("data"):
        for _ in range(per):
            v, c = values.data(rng, m, n), values.data(rng, m, n)
            c["m"] = [e for e in c["m"] if rng.random() < 0.6]
            yield {"op": "with", "name": n, "value": v, "change": c}, {"op": "with", "type": key + "." + n, "value": v, "change": c}
            w = near(rng, m, n, v)
            s = rng.random() < 0.7
            yield {"op": "same", "name": n, "value": v, "other": w, "share": s}, {"op": "same", "type": key + "." + n, "value": v, "other": w, "share": s}


def classes(ctx, rng, b, keys, per):
    jobs = [(key, s, c) for key in keys for s, c in steps_of(rng, b.models[key], key, per)]
    steps = {}
    for (key, s, c), a in zip(jobs, b.run([c for _, _, c in jobs])):
        if failed(ctx, "Dart %s of %s" % (s["op"], s["name"]), a, c, dict(b.texts[key], **b.source(key))):
            continue
        if s["op"] == "facts":
            s["found"] = a
        else:
            s.update(a)
        steps.setdefault(key, []).append(s)
    ids = sorted(steps)
    recs = [{"decls": [{k: d[k] for k in ("kind", "name", "bases", "fields", "items", "methods", "pkg")} for d in b.models[k].record()], "steps": steps[k]} for k in ids]
    for key, rec, v in zip(ids, recs, ctx.tlc_eval("DartEval", recs)):
        for s, r in zip(rec["steps"], v["steps"]):
            ctx.count("traces_validated_against_impl")
            ctx.count("steps_" + s["op"])
            if r:
                ctx.violation("Dart %s of %s is wrong: %s" % (s["op"], s["name"], str(r)[:600]), str(s), dict(b.texts[key], **b.source(key)))
    if recs:
        ctx.sample({"schema": b.texts[ids[0]], "step": recs[0]["steps"][0]})


def clones(ctx, rng, b, keys, per):
    jobs = [(key, n, values.data(rng, b.models[key], n)) for key in keys for n in b.models[key].of_kind("data") for _ in range(per)]
    steps = {}
    for (key, n, v), a in zip(jobs, b.run([{"op": "clone", "type": key + "." + n, "value": v} for key, n, v in jobs])):
        if not failed(ctx, "Dart copy of %s" % n, a, v, dict(b.texts[key], **b.source(key))):
            steps.setdefault((key, n), []).append({"op": "clone", "value": v, "copy": a["copy"], "after": a["after"]})
    wire.judge(ctx, "Dart", steps, b.models, b.texts, b.source)


def by_id(rng, b, keys):
    """routers asked for methods by their ids"""
    jobs = []
    for key in keys:
        m = b.models[key]
        for s in m.of_kind("server"):
            for x, _ in m.methods(s):
                jobs.append((key, s, x, values.data(rng, m, x["par"], 1), values.data(rng, m, x["res"], 1)))
    steps = {}
    cmds = [{"op": "route", "type": key + "." + s, "path": "", "text": "", "value": a, "fail": "",
             "byId": [{"id": x["id"], "method": x["name"], "value": v}]} for key, s, x, v, a in jobs]
    for (key, s, x, v, a), out in zip(jobs, b.run(cmds)):
        steps.setdefault(key, []).append({"op": "id", "server": s, "method": x["name"], "param": v, "ids": out.get("ids") or [], "err": out.get("panic") or out["err"],
                                          "seen": [{"method": y["method"], "param": tsrun.from_driver(y["param"])} for y in out.get("seen") or []]})
    return steps


def run(ctx):
    rng = random.Random(ctx.seed * 883 + 24)
    for batch in range(5 if ctx.thorough else 1):
        # by itself
        b = dartrun.DartBatch(ctx)
        for key, files in schemas(rng, 60 if ctx.thorough else 24, False):
            b.add(key, files)
        keys = b.build()
        broken(ctx, b, "Dart")
        classes(ctx, rng, b, keys, 4)
        wire.judge(ctx, "Dart", json_steps(ctx, rng, b, keys, 6, "Dart"), b.models, b.texts, b.source)
        clones(ctx, rng, b, keys, 4)
        shutil.rmtree(b.dir, ignore_errors=True)
        # together with Go
        b, g = dartrun.DartBatch(ctx), gorun.GoBatch(ctx)
        for key, files in schemas(rng, 40 if ctx.thorough else 14, True):
            b.add(key, files)
            g.add(key, files)
        for k in range(50 if ctx.thorough else 20):
            files = no_void(c11.make(rng, "r%d" % k))
            no_bytes(files)
            b.add("r%d" % k, files)
            g.add("r%d" % k, files)
        dk, gk = b.build(), g.build()
        broken(ctx, b, "Dart")
        for key, out in sorted(g.errors.items()):
            ctx.violation("generated Go does not compile: " + (out.strip().splitlines() or [""])[0][:300], out[:4000], g.texts[key])
        keys = [k for k in dk if k in gk]
        data, calls = [k for k in keys if k[0] == "s"], [k for k in keys if k[0] == "r"]
        wire.judge(ctx, "Go and Dart", trips(ctx, rng, b, g, data, 3, "Dart"), b.models, b.texts, b.source)
        classes(ctx, rng, b, calls, 0)
        steps = {}
        for part in (c12.alone(ctx, rng, b, calls, "Dart"), c12.routes(b, g, calls), c12.hops(ctx, rng, b, g, calls, "Dart"),
                     by_id(rng, b, calls)):
            for k, l in part.items():
                steps.setdefault(k, []).extend(l)
        c12.judge(ctx, b, steps, "Dart")
        shutil.rmtree(b.dir, ignore_errors=True)
        shutil.rmtree(g.dir, ignore_errors=True)
