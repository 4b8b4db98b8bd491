"""C26: forms and tables in generated Flutter (Flutter.tla, MC_Select.tla, FlutterEval.tla)."""
import random, shutil
import core, dartrun, flutter, views
from names import *
from schema import *

LEVEL = "model_checking"


def choices(ctx):
    """every case of MC_Select with a generated table"""
    cases = ctx.tlc_cases("MC_Select", "MC_SelectBig" if ctx.thorough else "MC_Select", workers=4, timeout=800)
    b = dartrun.DartBatch(ctx)
    b.add("mc", {"a.hbuf": hfile([data("Row", [field("id", typ("int32"), 0, [tag("ui", ("table", "text"))])], [], [tag("ui", ("table", "true"))])], [], (("go", "mc"),))})
    if not b.build():
        ctx.violation("a generated table cannot be loaded", b.errors["mc"][:4000], dict(b.texts["mc"], **b.source("mc")))
        return
    row = lambda k: {"k": "data", "m": [{"n": "id", "v": {"k": "int", "v": str(k)}}]}
    cmds = [{"op": "select", "type": "mc.Row", "locale": "en", "rows": [row(k) for k in range(c["count"] + 1)], "count": c["count"],
             "chosen": [k - 1 for k in c["chosen"]], "clicks": c["clicks"]} for c in cases]
    for c, a in zip(cases, b.run(cmds)):
        ctx.count("traces_validated_against_impl")
        ctx.count("replayed_cases")
        if a.get("looks") != c["looks"] or a["first"] != "select_checkbox" or a["index"] != -1:
            ctx.violation("the boxes of a table of %s rows, with the rows %s chosen, clicked at %s, are %s, by the specification %s" % (
                c["count"], c["chosen"], c["clicks"], a.get("looks", a), c["looks"]), str(a), dict(b.texts["mc"], **b.source("mc")))
    shutil.rmtree(b.dir, ignore_errors=True)


def rows(rng, m, n):
    """different rows: what is chosen is a set of data"""
    out = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        v = flutter.data_value(rng, m, n)
        if v not in out:
            out.append(v)
    return out


def run(ctx):
    choices(ctx)
    rng = random.Random(ctx.seed * 619 + 26)
    for batch in range(8 if ctx.thorough else 1):
        b = dartrun.DartBatch(ctx)
        for k in range(120 if ctx.thorough else 80):
            b.add("w%d" % k, (flutter.Schema if k else flutter.Every)(rng, "w%d" % k).files)
        keys = b.build()
        for key, err in sorted(b.errors.items()):
            ctx.violation("generated forms and tables cannot be compiled: " + (err.strip().splitlines() or [""])[0][:300], err[:4000], dict(b.texts[key], **b.source(key)))
        jobs, cmds = [], []
        for key in keys:
            m = b.models[key]
            for n in m.of_kind("data"):
                for view in ("form", "table"):
                    r = {"view": view, "decls": m.record(), "name": n, "exists": None, "shows": [], "entries": [], "said": []}
                    for k in range(3):
                        c = {"op": view, "type": key + "." + n, "locale": rng.choice(flutter.LOCALES)}
                        if view == "form":
                            c.update(value=flutter.data_value(rng, m, n), readOnly=rng.random() < 0.3, builder=rng.random() < 0.5,
                                     entries=flutter.entries(rng, m, n), tried=flutter.tried(rng, m, n),
                                     unsaved=[f["name"] for f in m.fields(n) if flutter.one_way(m, f)])
                        else:
                            c.update(rows=rows(rng, m, n), chosen=[])
                            c["count"] = len(c["rows"])
                        jobs.append((key, r, c))
                        cmds.append(c)
        recs, at, bad = [], [], set()
        for (key, r, c), a in zip(jobs, b.run(cmds)):
            m = b.models[key]
            if a.get("panic"):
                ctx.violation("the %s of %s fails: %s" % (r["view"], r["name"], a["panic"]), str(c), dict(b.texts[key], **b.source(key)))
                bad.add(id(r))
                continue
            if not recs or recs[-1] is not r:
                recs.append(r)
                at.append(key)
            r["exists"] = a["exists"]
            if not a["exists"]:
                continue
            out = views.split
            if r["view"] == "table":
                r["shows"].append({"values": [out(v) for v in c["rows"]], "locale": c["locale"], "count": a["count"], "rows": a["rows"], "columns": a["columns"]})
                if a["built"] != c["rows"]:
                    ctx.violation("a table of %s changes its rows: %s" % (r["name"], a["built"]), str(c), dict(b.texts[key], **b.source(key)))
                continue
            rules = {f["name"]: f["tags"][k]["kvs"][0]["v"][0].split(".")[1] for f in m.fields(r["name"]) for k in range(len(f["tags"])) if f["tags"][k]["name"] == "verify"}
            items = [dict(i, shown=out(i["shown"]) if isinstance(i["shown"], dict) else i["shown"]) for i in a["items"]]
            r["shows"].append({"value": out(c["value"]), "items": items, "after": out(a["after"]), "built": out(a["built"]), "locale": c["locale"], "readOnly": c["readOnly"]})
            r["entries"] += [{"field": e["field"], "entry": out(e["entry"]), "value": out(c["value"]), "now": out(x)} for e, x in zip(c["entries"], a["entries"])]
            r["said"] += [{"field": e["field"], "text": e["text"], "rule": rules[e["field"]], "said": x} for e, x in zip(c["tried"], a["said"])]
        recs, at = [r for r in recs if id(r) not in bad], [k for r, k in zip(recs, at) if id(r) not in bad]
        for key, r, v in zip(at, recs, ctx.tlc_eval("FlutterEval", recs)):
            ctx.count("traces_validated_against_impl", max(1, len(r["shows"]) + len(r["entries"]) + len(r["said"])))
            for w in v["wrong"]:
                ctx.violation("the %s of %s is not what the schema asks for: %s" % (r["view"], r["name"], " ".join(map(str, w))), str(r)[:20000], dict(b.texts[key], **b.source(key)))
        if recs:
            ctx.sample({"schema": b.texts[at[0]], "record": recs[0]})
        shutil.rmtree(b.dir, ignore_errors=True)
