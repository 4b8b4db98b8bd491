"""C12: remote calls of generated TypeScript, alone and together with Go (Rpc.tla, RpcTsEval.tla)."""
import json, random, shutil
import core, gorun, tsrun, values
from checks import c11
from checks.c08 import no_bytes
from checks.c09 import broken
from schema import *
from names import *

LEVEL = "model_checking"


def both(ctx, rng, n):
    t, g = tsrun.TsBatch(ctx), gorun.GoBatch(ctx)
    for k in range(n):
        key = "s%d" % k
        files = c11.make(rng, key)
        no_bytes(files)
        t.add(key, files)
        g.add(key, files)
    tk, gk = t.build(), g.build()
    broken(ctx, t)
    for key, out in sorted(g.errors.items()):
        ctx.violation("generated Go does not compile: " + (out.strip().splitlines() or [""])[0][:300], out[:4000], g.texts[key])
    return t, g, [k for k in tk if k in gk]


def answer(rng, m, res):
    if rng.random() < 0.2:
        return {"err": "it broke", "value": {"k": "null"}}
    return {"err": "", "value": values.data(rng, m, res, 2) if res != "void" else {"k": "null"}}


def calls(ctx, rng, b, key):
    """what one client and one router of TypeScript do: [(step, command)]"""
    m = b.models[key]
    for s in m.of_kind("server"):
        ms = [{"ts": first_lower(x["name"]), "n": x["name"], "par": key + "." + x["par"], "res": "" if x["res"] == "void" else key + "." + x["res"]}
              for x, _ in m.methods(s)]
        for x, _ in m.methods(s):
            for _ in range(3):
                v = values.data(rng, m, x["par"], 2)
                given = {"k": "null"}
                if x["res"] != "void":
                    given = values.random_json(rng, m, values.data(rng, m, x["res"], 2), values.plain(x["res"]))
                fail = rng.choice(["", "", "", "it broke"])
                yield {"op": "call", "server": s, "method": x["name"], "param": v, "given": given, "fail": fail}, \
                    {"op": "call", "type": key + "." + s, "method": first_lower(x["name"]), "param": key + "." + x["par"], "value": v, "fail": fail,
                     "result": key + "." + x["res"], "text": values.json_text(given)}
                given = values.random_json(rng, m, values.data(rng, m, x["par"], 2), values.plain(x["par"]))
                a = answer(rng, m, x["res"])
                yield {"op": "route", "server": s, "path": "%s/%s" % (underline(s), underline(x["name"])), "given": given, "answer": a}, \
                    {"op": "route", "type": key + "." + s, "methods": ms, "path": "%s/%s" % (underline(s), underline(x["name"])),
                     "text": values.json_text(given), "value": a["value"], "fail": a["err"]}
        for path in (underline(s), underline(s) + "/", underline(s) + "/zzz", "/" + underline(s) + "/get"):
            yield {"op": "route", "server": s, "path": path, "given": {"k": "obj", "m": []}, "answer": {"err": "", "value": {"k": "null"}}}, \
                {"op": "route", "type": key + "." + s, "methods": ms, "path": path, "text": "{}", "value": {"k": "null"}, "fail": ""}


def alone(ctx, rng, t, keys, who="TypeScript"):
    jobs = [(key, s, c) for key in keys for s, c in calls(ctx, rng, t, key)]
    steps = {}
    for (key, s, c), a in zip(jobs, t.run([c for _, _, c in jobs], chunks=4)):
        if a.get("panic"):
            ctx.violation("%s %s of %s %s fails: %s" % (who, s["op"], s["server"], s.get("method") or s["path"], a["panic"]), str(s),
                          dict(t.texts[key], **t.source(key)))
            continue
        m = t.models[key]
        if s["op"] == "call":
            x = [y for y, _ in m.methods(s["server"]) if y["name"] == s["method"]][0]
            s["given"] = values.canon_json(m, values.plain(x["res"]), s["given"]) if x["res"] != "void" else s["given"]
            s["out"] = {"err": a.get("err", ""), "result": [tsrun.from_driver(v) for v in a.get("result") or []],
                        "seen": [{"server": r["server"], "name": r["name"], "id": str(r["id"]),
                                  "json": values.canon_json(m, values.plain(x["par"]), values.parse_json(r["text"]))} for r in a["seen"]]}
        else:
            x = [y for y, _ in m.methods(s["server"]) if "%s/%s" % (underline(s["server"]), underline(y["name"])) == s["path"]]
            s["out"] = {"err": a.get("err", ""), "json": {"k": "null"}, "seen": [{"method": r["method"], "param": tsrun.from_driver(r["param"])} for r in a["seen"]]}
            if x:
                s["given"] = values.canon_json(m, values.plain(x[0]["par"]), s["given"])
                if a.get("text"):
                    s["out"]["json"] = values.canon_json(m, values.plain(x[0]["res"]), values.parse_json(a["text"])) if x[0]["res"] != "void" else values.parse_json(a["text"])
        steps.setdefault(key, []).append(s)
    return steps


def routes(t, g, keys):
    jobs = [(key, s) for key in keys for s in t.models[key].of_kind("server")]
    go = g.run([{"op": "routes", "type": k + "." + s} for k, s in jobs])
    ts = t.run([{"op": "route", "type": k + "." + s, "methods": [], "path": "", "text": "{}", "value": {"k": "null"}, "fail": ""} for k, s in jobs])
    first = {}
    for key in keys:
        for s in t.models[key].of_kind("server"):
            ms = t.models[key].methods(s)
            if ms:
                first[key, s] = ms[0][0]
    cs = {ks: a for ks, a in zip(first, t.run([{"op": "call", "type": k + "." + s, "method": first_lower(x["name"]), "param": k + "." + x["par"],
                                                  "value": values.data(random.Random(0), t.models[k], x["par"]), "result": "", "text": "{}", "fail": "no"} for (k, s), x in first.items()]))}
    steps = {}
    for (key, s), a, b in zip(jobs, go, ts):
        if "panic" in b:
            b = {"name": b["panic"], "routes": []}
        steps.setdefault(key, []).append({"op": "routes", "server": s, "go": a.get("routes") or [], "ts": b["routes"], "router": b["name"],
                                          "client": cs[key, s].get("name", "") if (key, s) in cs else underline(s)})
    return steps


def hops(ctx, rng, t, g, keys, lang="TypeScript"):
    """a client in another language of a server in Go, and the other way round"""
    jobs = []
    for key in keys:
        m = t.models[key]
        for s in m.of_kind("server"):
            for x, _ in m.methods(s):
                for _ in range(2):
                    jobs.append((key, s, x, values.data(rng, m, x["par"], 2), answer(rng, m, x["res"])))

    def tcall(key, s, x, v, text, fail):
        return {"op": "call", "type": key + "." + s, "method": first_lower(x["name"]), "param": key + "." + x["par"], "value": v, "fail": fail,
                "result": "" if x["res"] == "void" else key + "." + x["res"], "text": text}

    def gcmd(op, key, s, x, m, v, a):
        script = {x["name"]: {"err": a["err"], "code": 0, "value": values.to_driver(a["value"], values.plain(x["res"]), m)}}
        return {"op": op, "type": key + "." + s, "method": hump(x["name"]), "names": [key + "." + s], "binds": {key + "." + s: script},
                "value": values.to_driver(v, values.plain(x["par"]), m)}
    steps = {}

    def bad(key, s, x, who, a, what):
        e = a.get("panic") or what
        ctx.violation("%s: call of %s %s fails: %s" % (who, s, x["name"], e), str(a), dict(t.texts[key], **t.source(key)))
    # TypeScript calls Go
    asked = t.run([tcall(key, s, x, v, "{}", "later") for key, s, x, v, a in jobs], chunks=4)
    served = g.run([dict(gcmd("raw", key, s, x, t.models[key], v, a),
                         text="/%s/%s" % (q["seen"][0]["server"], q["seen"][0]["name"]) if q.get("seen") else "",
                         method=q["seen"][0]["text"] if q.get("seen") else "") for (key, s, x, v, a), q in zip(jobs, asked)], chunks=4)
    cs = []
    for (key, s, x, v, a), r in zip(jobs, served):
        j = json.loads(r.get("answer") or '{"code": 1, "msg": "no answer"}')
        text = json.dumps(j.get("data"))
        if j["code"] == 0:                     # the text as it was written
            w = values.parse_json(r["answer"])
            text = values.json_text([e["v"] for e in w["m"] if e["n"] == "data"][0])
        cs.append(tcall(key, s, x, v, text if x["res"] != "void" else "{}", j["msg"] if j["code"] else ""))
    back = t.run(cs, chunks=4)
    for (key, s, x, v, a), r, z in zip(jobs, served, back):
        if r.get("panic") or z.get("panic"):
            bad(key, s, x, lang + " client, Go server", r if r.get("panic") else z, "")
            continue
        steps.setdefault(key, []).append({"op": "hop", "who": lang + " client, Go server", "server": s, "method": x["name"], "param": v, "answer": a,
                                          "seen": [{"method": e["method"], "param": values.from_driver(e["param"])} for e in r.get("seen") or []],
                                          "err": z.get("err", ""), "result": [tsrun.from_driver(y) for y in z.get("result") or []]})
    # Go calls TypeScript
    none = {"err": "later", "value": {"k": "null"}}
    asked = g.run([gcmd("call", key, s, x, t.models[key], v, none) for key, s, x, v, a in jobs], chunks=4)
    served = t.run([{"op": "route", "type": key + "." + s, "path": q.get("path", "").split("/", 2)[-1], "text": q.get("request") or "null",
                     "value": a["value"], "fail": a["err"],
                     "methods": [{"ts": first_lower(y["name"]), "n": y["name"], "par": key + "." + y["par"], "res": "" if y["res"] == "void" else key + "." + y["res"]}
                                 for y, _ in t.models[key].methods(s)]} for (key, s, x, v, a), q in zip(jobs, asked)], chunks=4)
    back = g.run([dict(gcmd("call", key, s, x, t.models[key], v, none),
                       text='{"code":500,"msg":%s}' % json.dumps(r.get("err") or r.get("panic")) if r.get("err") or r.get("panic") else
                       '{"code":0,"msg":"Ok","data":%s}' % (r.get("text") or "null")) for (key, s, x, v, a), r in zip(jobs, served)], chunks=4)
    for (key, s, x, v, a), q, r, z in zip(jobs, asked, served, back):
        if r.get("panic") or z.get("panic"):
            bad(key, s, x, "Go client, %s server" % lang, r if r.get("panic") else z, "")
            continue
        steps.setdefault(key, []).append({"op": "hop", "who": "Go client, %s server" % lang, "server": s, "method": x["name"], "param": v, "answer": a,
                                          "seen": [{"method": e["method"], "param": tsrun.from_driver(e["param"])} for e in r.get("seen") or []],
                                          "err": z.get("err", ""), "result": [values.from_driver(y) for y in z.get("result") or [] if y["k"] != "null"]})
    return steps


def judge(ctx, t, steps, lang="TypeScript"):
    ids = sorted(steps)
    recs = [{"decls": t.models[k].record(), "steps": steps[k]} for k in ids]
    for key, rec, v in zip(ids, recs, ctx.tlc_eval("RpcTsEval", recs)):
        for s, r in zip(rec["steps"], v["steps"]):
            ctx.count("traces_validated_against_impl")
            ctx.count("steps_" + s["op"])
            if r:
                ctx.violation("%s of %s %s: wrong %s" % (s.get("who") or lang + " " + s["op"], s["server"], s.get("method") or s.get("path", ""), sorted(r)),
                              str(s), dict(t.texts[key], **{n: x for n, x in t.source(key).items() if "server" in n}))
    if recs:
        ctx.sample({"schema": t.texts[ids[0]], "steps": recs[0]["steps"][:2]})


def run(ctx):
    ctx.tlc("MC_Rpc", "MC_RpcBig" if ctx.thorough else "MC_Rpc", workers=8 if ctx.thorough else 4, timeout=800)
    rng = random.Random(ctx.seed * 617 + 12)
    for batch in range(6 if ctx.thorough else 1):
        t, g, keys = both(ctx, rng, 60 if ctx.thorough else 36)
        steps = {}
        for part in (alone(ctx, rng, t, keys), routes(t, g, keys), hops(ctx, rng, t, g, keys)):
            for k, l in part.items():
                steps.setdefault(k, []).extend(l)
        judge(ctx, t, steps)
        shutil.rmtree(t.dir, ignore_errors=True)
        shutil.rmtree(g.dir, ignore_errors=True)
