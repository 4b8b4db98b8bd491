"""What C08, C09 and C12 share: judging JSON steps by WireEval.tla."""
import core, values


def record(m, n, steps):
    for s in steps:
        if "json" in s:
            s["json"] = values.canon_json(m, values.plain(n), s["json"])
    return {"decls": [{k: d[k] for k in ("kind", "name", "bases", "fields", "items", "pkg")} for d in m.record()], "type": n, "steps": steps}


def judge(ctx, who, steps, models, texts, files=lambda key: {}):
    """steps: {(key, data): [step]}"""
    ids = sorted(steps)
    recs = [record(models[k], n, steps[k, n]) for k, n in ids]
    for (key, n), rec, v in zip(ids, recs, ctx.tlc_eval("WireEval", recs)):
        for s, r in zip(rec["steps"], v["steps"]):
            ctx.count("traces_validated_against_impl")
            ctx.count("steps_" + s["op"])
            for what in ("value", "keys", "getters", "built"):
                if r[what]:
                    ctx.violation("%s %s of %s: wrong %s: %s" % (who, s["op"], n, what, sorted(r[what])),
                                  ("json %s\n" % values.json_text(s["json"]) if "json" in s else "") + "step %s" % s, dict(texts[key], **files(key)))
    if recs:
        ctx.sample({"schema": texts[ids[0][0]], "step": recs[0]["steps"][0]})
