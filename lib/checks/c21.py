"""C21: views and their texts in generated TypeScript (Views.tla, MC_Views.tla, ViewsEval.tla)."""
import random, shutil
import core, tsrun, views
from names import *
from schema import *

LEVEL = "model_checking"


def out(v):
    return views.split(tsrun.from_driver(v))


def arrangements(ctx):
    """every case of MC_Views with the real code"""
    cases = ctx.tlc_cases("MC_Views", "MC_ViewsBig" if ctx.thorough else "MC_Views", workers=4, timeout=800)
    b = tsrun.TsBatch(ctx, views=True)
    tags = [tag("ui", ("form", "text"), ("table", "text"))]
    base = data("Base", [field("userId", typ("int32"), 0, tags)])
    b.add("mc", {"a.hbuf": hfile([base, data("View", [field("note", typ("string"), 1, tags), field("hidden", typ("string"), 2), field("kind", typ("bool", True), 3, tags)], ["Base"],
                                         [tag("ui", ("form", "true"), ("table", "true"))])], [], (("go", "mc"),))})
    if not b.build():
        ctx.violation("generated views cannot be loaded", b.errors["mc"][:4000], dict(b.texts["mc"], **b.source("mc")))
        return
    zero = {"k": "data", "m": []}
    jobs = [(c, {"op": "view", "type": "mc.View", "view": v, "keysOnly": True, "value": zero, "slots": c["slots"],
                 **({"position": c["position"]} if c["position"] or n % 2 else {}), **({"hide": sorted(c["hide"])} if c["hide"] or n % 3 else {})})
            for n, c in enumerate(cases) for v in ("form", "table")]
    for (c, cmd), a in zip(jobs, b.run([j[1] for j in jobs], chunks=8, timeout=800)):
        ctx.count("traces_validated_against_impl")
        ctx.count("replayed_cases")
        if a.get("keys") != c["shown"]:
            ctx.violation("%s with position %s, hide %s and slots %s shows %s, by the specification %s" % (
                cmd["view"], c["position"], sorted(c["hide"]), c["slots"], a.get("keys", a), c["shown"]), str(a), dict(b.texts["mc"], **b.source("mc")))
    shutil.rmtree(b.dir, ignore_errors=True)


def run(ctx):
    arrangements(ctx)
    rng = random.Random(ctx.seed * 487 + 21)
    for batch in range(10 if ctx.thorough else 1):
        b = tsrun.TsBatch(ctx, views=True)
        for k in range(150 if ctx.thorough else 80):
            b.add("w%d" % k, views.Schema(rng, "w%d" % k).files)
        keys = b.build()
        for key, err in sorted(b.errors.items()):
            ctx.violation("generated views cannot be loaded: " + (err.strip().splitlines() or [""])[0][:300], err[:4000], dict(b.texts[key], **b.source(key)))
        jobs, cmds = [], []
        for key in keys:
            m = b.models[key]
            decls = m.record()
            for n in m.decl:
                q = key + "." + n
                if m.decl[n]["kind"] == "data":
                    for v in ("form", "table"):
                        r = {"kind": "view", "decls": decls, "name": n, "view": v, "exists": None, "shows": [], "events": []}
                        for _ in range(3):
                            c = {"op": "view", "type": q, "view": v, "value": views.data_value(rng, m, n), "events": views.events(rng, m, n) if v == "form" else []}
                            jobs.append((key, r, c))
                            cmds.append(c)
                r = {"kind": "texts", "decls": decls, "name": n}
                jobs.append((key, r, None))
                cmds.append({"op": "lang", "type": q})
        recs, at = [], []
        fault = lambda m: {"faultLang." + hump(f["tags"][k]["kvs"][0]["v"][0].split(".")[1]): f["name"]
                           for d in m.decl.values() for f in d["fields"] for k in range(len(f["tags"])) if f["tags"][k]["name"] == "verify"}
        for (key, r, c), a in zip(jobs, b.run(cmds, chunks=4)):
            m = b.models[key]
            if not recs or recs[-1] is not r:
                recs.append(r)
                at.append(key)
            if a.get("panic"):
                ctx.violation("%s of %s fails: %s" % (r.get("view", "texts"), r["name"], a["panic"]), str(c), dict(b.texts[key], **b.source(key)))
                recs.pop()
                at.pop()
                continue
            if c is None:
                r["texts"] = [{"lang": l, "texts": [{"key": k, "text": t} for k, t in ts.items()]} for l, ts in (a["lang"] or {}).items()]
                continue
            r["exists"] = a["exists"]
            if not a["exists"]:
                continue
            rules = fault(m)
            items = [dict(i, key=k, shown=out(i["shown"]), **({"rule": rules.get(i["rule"], i["rule"])} if "rule" in i else {})) for k, i in zip(a["keys"], a["items"])]
            r["shows"].append({"value": views.split(c["value"]), "items": items, "after": out(a["after"])})
            r["events"] += [{"field": e["field"], "event": views.split(e["event"]), "now": out(x)} for e, x in zip(c["events"], a["events"])]
        for key, r, v in zip(at, recs, ctx.tlc_eval("ViewsEval", recs)):
            ctx.count("traces_validated_against_impl", max(1, len(r.get("shows", [])) + len(r.get("events", []))))
            for w in v["wrong"]:
                ctx.violation("%s of %s is not what the schema asks for: %s" % (r.get("view", "texts"), r["name"], w), str(r)[:20000], dict(b.texts[key], **b.source(key)))
        if recs:
            ctx.sample({"schema": b.texts[at[0]], "record": recs[0]})
        shutil.rmtree(b.dir, ignore_errors=True)
