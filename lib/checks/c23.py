"""C23: generated Java declares the schema, holds values and calls servers (JavaTypes.tla, JavaEval.tla)."""
import random, shutil
import core, gen, javarun, tsrun, values
from checks import c11
from schema import *
from names import *

LEVEL = "model_checking"
KEYS = ["string", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "date", "decimal"]


def packages(rng, key, files):
    """one Java package for all files, or some in others"""
    for f in files.values():
        f["pkgs"] = [p for p in f["pkgs"] if p["k"] != "java"] + [{"k": "java", "v": "k." + key + rng.choice(["", "", "", ".sub", ".other"])}]
    return files


def make(rng, key):
    if key.endswith("s0"):
        files = gen.every_type(rng, (("go", key),), KEYS)
    elif key.endswith("s1"):
        files = gen.family(rng, (("go", key),))
    elif rng.random() < 0.5:
        files = c11.make(rng, key)
    else:
        files = tame(rng, gen.schema(rng, nfiles=rng.choice([1, 2, 3]), max_decls=6, pkgs=(("go", key),)), KEYS, ("data", "server"))
    return packages(rng, key, files)


def steps_of(rng, m, key, per):
    """[(step, command)]"""
    for n, d in m.decl.items():
        for suffix in {"data": ["", "Impl"], "enum": [""], "server": ["", "Client"]}[d["kind"]]:
            yield {"op": "facts", "name": n, "suffix": suffix}, {"op": "facts", "type": key + "." + n, "suffix": suffix}
    for n in m.of_kind("data"):
        yield {"op": "new", "name": n}, {"op": "new", "type": key + "." + n}
        for _ in range(per):
            v = values.data(rng, m, n)
            yield {"op": "hold", "name": n, "given": v}, {"op": "hold", "type": key + "." + n, "value": v}
    for n in m.of_kind("server"):
        for x, _ in m.methods(n):
            for _ in range(2):
                v = values.data(rng, m, x["par"], 2)
                a = values.data(rng, m, x["res"], 2) if x["res"] != "void" else {"k": "null"}
                fail = rng.choice(["", "", "it broke"])
                c = {"op": "call", "type": key + "." + n, "method": first_lower(x["name"]), "param": key + "." + x["par"], "value": v,
                     "result": key + "." + x["res"], "answer": a}
                if fail:
                    c["fail"] = fail
                yield {"op": "call", "server": n, "method": x["name"], "param": v, "answer": a, "fail": fail}, c


def fill(s, a):
    see = tsrun.from_driver
    if s["op"] == "facts":
        s["found"] = a
    elif s["op"] == "new":
        s["value"] = see(a["value"])
    elif s["op"] == "hold":
        for k in ("value", "copy", "after"):
            s[k] = see(a[k])
    else:
        s["out"] = {"name": a["name"], "read": a["read"], "err": a.get("err", ""), "result": [see(v) for v in a.get("result") or []],
                    "seen": [dict(r, param=see(r["param"])) for r in a["seen"]]}


def run(ctx):
    rng = random.Random(ctx.seed * 719 + 23)
    for batch in range(6 if ctx.thorough else 1):
        b = javarun.JavaBatch(ctx)
        for k in range(120 if ctx.thorough else 50):
            b.add("s%d" % k, make(rng, "s%d" % k))
        keys = b.build()
        for key, out in sorted(b.errors.items()):
            ctx.violation("generated Java does not compile: " + (out.strip().splitlines() or [""])[0][:300], out[:4000], dict(b.texts[key], **b.source(key)))
        jobs = [(key, s, c) for key in keys for s, c in steps_of(rng, b.models[key], key, 4)]
        steps = {}
        for (key, s, c), a in zip(jobs, b.run([c for _, _, c in jobs], chunks=4)):
            what = s.get("name") or "%s.%s" % (s["server"], s["method"])
            if a.get("panic"):
                ctx.violation("Java %s of %s fails: %s" % (s["op"], what, a["panic"]), str(c), dict(b.texts[key], **b.source(key)))
                continue
            fill(s, a)
            steps.setdefault(key, []).append(s)
        ids = sorted(steps)
        recs = [{"decls": [{k: d[k] for k in ("kind", "name", "bases", "fields", "items", "methods", "pkg")} for d in b.models[k].record()], "steps": steps[k]} for k in ids]
        for key, rec, v in zip(ids, recs, ctx.tlc_eval("JavaEval", recs)):
            for s, r in zip(rec["steps"], v["steps"]):
                ctx.count("traces_validated_against_impl")
                ctx.count("steps_" + s["op"])
                if r:
                    what = s.get("name") or "%s.%s" % (s["server"], s["method"])
                    ctx.violation("Java %s of %s is wrong: %s" % (s["op"], what, str(r)[:600]), str(s), dict(b.texts[key], **b.source(key)))
        if recs:
            ctx.sample({"schema": b.texts[ids[0]], "step": recs[0]["steps"][0]})
        shutil.rmtree(b.dir, ignore_errors=True)
