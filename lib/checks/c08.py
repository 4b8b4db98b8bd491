"""C08: JSON of generated Go data (Wire.tla, WireEval.tla)."""
import random, shutil
import core, gen, gorun, values
from schema import *
from names import *

LEVEL = "model_checking"
KEYS = ["string", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]


def no_bytes(files):
    for f in files.values():
        for d, x in walk_fields(f):
            if x["type"]["shape"] == "list" and x["type"]["of"] == "uint8" and not x["type"]["opt"]:
                x["type"]["of"] = "int8"


def make(rng, b, n):
    for k in range(n):
        key = "s%d" % k
        if k == 0:
            files = gen.every_type(rng, (("go", key),), KEYS)
        else:
            files = gen.schema(rng, nfiles=rng.choice([1, 1, 2]), max_decls=6, pkgs=(("go", key),), servers=False)
            tame(rng, files, KEYS)
        no_bytes(files)
        b.add(key, files)
    # lists of uint8 apart: Go writes them as base64
    b.add("bytes", {"a.hbuf": hfile([data("Blob", [field("raw", lst("uint8"), 1), field("id", typ("int32"), 2)])], [], [("go", "bytes")])})
    return b.build()


def run(ctx):
    rc, out = ctx.tlc("MC_Wire", "MC_WireBig" if ctx.thorough else "MC_Wire", workers=4)
    rng = random.Random(ctx.seed * 419 + 8)
    for batch in range(8 if ctx.thorough else 1):
        b = gorun.GoBatch(ctx)
        keys = make(rng, b, 100 if ctx.thorough else 45)
        for key, out in sorted(b.errors.items()):
            ctx.violation("generated Go does not compile: " + (out.strip().splitlines() or [""])[0][:300], out[:4000], b.texts[key])
        jobs, cmds = [], []
        for key in keys:
            m = b.models[key]
            for n in m.of_kind("data"):
                for _ in range(12 if ctx.thorough else 8):
                    v = values.data(rng, m, n)
                    q = key + "." + n
                    jobs.append((key, n, "encode", v))
                    cmds.append({"op": "encode", "type": q, "value": values.to_driver(v, values.plain(n), m)})
                    j = values.random_json(rng, m, values.data(rng, m, n), values.plain(n))
                    jobs.append((key, n, "decode", j))
                    cmds.append({"op": "decode", "type": q, "text": values.json_text(j)})
        answers = b.run(cmds, chunks=4)
        # what was written must also be read again
        again = [(job, a["text"]) for job, a in zip(jobs, answers) if job[2] == "encode" and not a.get("err") and not a.get("panic")]
        back = b.run([{"op": "decode", "type": job[0] + "." + job[1], "text": t} for job, t in again], chunks=4)
        for (job, t), a in zip(again, back):
            jobs.append((job[0], job[1], "decode", values.parse_json(t)))
            answers.append(a)
        steps = {}
        for (key, n, op, x), a in zip(jobs, answers):
            if a.get("panic") or a.get("err"):
                ctx.violation("Go %s of %s fails: %s" % (op, n, a.get("panic") or a["err"]), str(x), b.texts[key])
                continue
            if op == "encode":
                try:
                    j = values.parse_json(a["text"])
                except ValueError:
                    ctx.violation("Go encoding of %s is no JSON" % n, a["text"], b.texts[key])
                    continue
                s = {"op": op, "value": x, "json": j, "getters": values.from_driver(a["getters"]), "built": values.from_driver(a["value"])}
            else:
                s = {"op": op, "json": x, "value": values.from_driver(a["value"])}
            steps.setdefault((key, n), []).append(s)
        recs, ids = [], sorted(steps)
        for key, n in ids:
            recs.append({"decls": [{k: d[k] for k in ("kind", "name", "bases", "fields", "items", "pkg")} for d in b.models[key].record()],
                         "type": n, "steps": steps[key, n]})
        for (key, n), rec, v in zip(ids, recs, ctx.tlc_eval("WireEval", recs)):
            for s, r in zip(rec["steps"], v["steps"]):
                ctx.count("traces_validated_against_impl")
                if key == "bytes" and r["value"] == ["raw"] and any(e["n"] == "raw" and e["v"]["k"] == "str" for e in s["json"]["m"]):
                    ctx.violation("a field of type uint8[] is base64 text in the JSON of Go", values.json_text(s["json"]), b.texts[key])
                    continue
                for what in ("value", "keys", "nulls", "getters", "built"):
                    if r[what]:
                        ctx.violation("Go %s of %s: wrong %s: %s" % (s["op"], n, what, sorted(r[what])),
                                      "json %s\nstep %s" % (values.json_text(s["json"]), s), b.texts[key])
        if recs:
            ctx.sample({"schema": b.texts[ids[0][0]], "step": recs[0]["steps"][0]})
        shutil.rmtree(b.dir, ignore_errors=True)
