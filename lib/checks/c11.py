"""C11: remote calls of generated Go code (Rpc.tla, RpcEval.tla)."""
import copy, random, shutil
import core, gen, gorun, values, verify
from schema import *
from names import *

LEVEL = "model_checking"
KEYS = ["string", "int32", "int64"]
TAGVALUES = ["admin", "a b", "x", "1", ""]


def make(rng, key):
    if key[1:] == "1":
        return gen.family(rng, (("go", key),), ("server",))
    files = gen.schema(rng, nfiles=rng.choice([1, 2]), max_decls=6, pkgs=(("go", key),), servers=False)
    m = Model(files)
    paths = sorted(files)
    # servers over what there is
    names = list(gen.SERVERS)
    rng.shuffle(names)
    made = []
    for p in paths:
        vis = [n for n in m.visible(p) if n in m.decl and m.decl[n]["kind"] == "data"]
        own = [d for d in files[p]["decls"] if d["kind"] == "data"]
        if not vis or not own:
            continue
        for _ in range(rng.randint(1, 3)):
            if not names:
                break
            s = server(names.pop())
            seen = {d["name"] for d in files[p]["decls"]} | {d["name"] for l in files[p]["imports"] for d in files[resolve(p, l)]["decls"]}
            bases = [b for b in made if b["name"] in seen]
            if bases and rng.random() < 0.7:
                # rather a long chain than a broad one
                s["bases"] = [bases[-1]["name"]] if rng.random() < 0.6 else \
                    [b["name"] for b in rng.sample(bases, min(len(bases), rng.choice([1, 1, 2])))]
            for i, n in enumerate(rng.sample(gen.METHODS, rng.choice([0, 1, 1, 2, 3]))):
                ts = []
                if rng.random() < 0.5:
                    ks = rng.sample(["role", "auth", "a_b"], rng.randint(1, 3))
                    ts = [tag("tag", *[(k, rng.choices(TAGVALUES, k=rng.randint(1, 3))) for k in ks])]
                s["methods"].append(method(n, rng.choice(vis + ["void"]), rng.choice(vis), i, pname=rng.choice(gen.PARAMS), tags=ts))
            files[p]["decls"].append(s)
            made.append(s)
    tame(rng, files, KEYS, diamonds=("server",))
    if made and rng.random() < 0.7:
        bind(rng, files, made, key)
    return files


def bind(rng, files, made, key):
    """a server whose methods are bound to methods of other servers"""
    m = Model(files)
    p = sorted(files)[-1]
    f = files[p]
    vis = set(m.visible(p))
    front = server("Front")
    errs = enum("FrontErr", [])
    targets = [(s, x) for s in made if s["name"] in vis for x in s["methods"]]
    rng.shuffle(targets)
    for i, (s, x) in enumerate(targets[:3]):
        if x["par"] not in vis or (x["res"] != "void" and x["res"] not in vis):
            continue
        par = data("FrontReq%d" % i, [checked(rng, errs)], [x["par"]], [tag("verify")] if rng.random() < 0.8 else [])
        f["decls"].append(par)
        res = "void"
        if x["res"] != "void":
            res = "FrontRes%d" % i
            f["decls"].append(data(res, [field("front_own", typ("int32", True), 90)], [x["res"]]))
        front["methods"].append(method("call%d" % i, res, par["name"], i, pname=rng.choice(gen.PARAMS),
                                       tags=[tag("bind", ("value", s["name"] + "." + x["name"]))]))
    if front["methods"]:
        f["decls"].append(front)
        if errs["items"]:
            f["decls"].append(errs)


def checked(rng, errs):
    """a field of a request, perhaps with formats"""
    of = rng.choice(["string", "int32"])
    names = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        n = "%s%d" % (rng.choice(["bad", "too_low", "Wrong"]), len(errs["items"]))
        a = rng.randint(0, 3)
        kvs = [rng.choice([("min", str(a)), ("max", str(a + 2))])] + ([("null", "true")] if rng.random() < 0.5 else [])
        errs["items"].append(item(n, len(errs["items"]) + 1, [tag("format", *kvs)]))
        names.append("FrontErr." + n)
    return field("front_own", typ(of, rng.random() < 0.6), 90, [tag("verify", ("format", names))] if names else [])


def checks(m, par, v):
    """the validated fields of a request and their values, for Verify.tla, if it has a validation of its own"""
    d = m.decl[par]
    fs, vs = [], []
    if not [t for t in d["tags"] if t["name"] == "verify"]:
        return fs, vs
    for f in d["fields"]:
        for t in f["tags"]:
            if t["name"] != "verify":
                continue
            forms = []
            for x in t["kvs"][0]["v"]:
                it = [y for y in m.decl["FrontErr"]["items"] if y["name"] == x.split(".")[1]][0]
                kv = {y["k"]: y["v"][0] for y in it["tags"][0]["kvs"]}
                forms.append({"item": x, "msg": "".join(w[:1].upper() + w[1:] for w in it["name"].split("_")), "code": int(it["id"]), "on": True, "null": kv.get("null") == "true",
                              "min": [verify.number(kv["min"])] if "min" in kv else [], "max": [verify.number(kv["max"])] if "max" in kv else [], "reg": []})
            fs.append({"name": f["name"], "kind": "str" if f["type"]["of"] == "string" else "int", "shape": "one", "opt": f["type"]["opt"],
                       "zero": False, "formats": forms})
            vs.append(member(v, f["name"]))
    return fs, vs


def near(rng, v):
    """a small value for the validated field"""
    for x in v["m"]:
        if x["n"] == "front_own" and x["v"]["k"] == "str":
            x["v"]["v"] = rng.choice(["", "a", "日本", "xyz", "abcdef"])
        elif x["n"] == "front_own" and x["v"]["k"] == "int":
            x["v"]["v"] = str(rng.randint(-1, 6))


def member(v, name):
    """the value of a field of a data value, for Verify.tla"""
    for x in v["m"]:
        if x["n"] == name:
            w = x["v"]
            if w["k"] == "null":
                return w
            return {"k": "s", "s": list(w["v"])} if w["k"] == "str" else {"k": "n", "n": verify.number(w["v"])}
    return {"k": "null"}


def answer_of(rng, m, res):
    r = rng.random()
    if r < 0.15:
        return {"err": "it broke", "code": 0, "value": {"k": "null"}}
    if r < 0.3:
        return {"err": "refused", "code": rng.choice([1, 7, 403]), "value": {"k": "null"}}
    return {"err": "", "code": 0, "value": values.data(rng, m, res, 1) if res != "void" else {"k": "null"}}


def outcome(a, model):
    return {"err": a.get("err", "") or a.get("panic", ""), "code": a.get("code", 0), "path": a.get("path", ""),
            "result": [values.from_driver(v) for v in a.get("result") or []],
            "seen": [{"server": s["server"].split(".", 1)[1], "method": s["method"], "param": values.from_driver(s["param"])} for s in a.get("seen") or []],
            "tags": [{"k": k, "v": v} for k, v in sorted((a.get("tags") or {}).items())]}


def run(ctx):
    ctx.tlc("MC_Rpc", "MC_RpcBig" if ctx.thorough else "MC_Rpc", workers=8 if ctx.thorough else 4, timeout=800)
    rng = random.Random(ctx.seed * 523 + 11)
    for batch in range(6 if ctx.thorough else 1):
        b = gorun.GoBatch(ctx)
        for k in range(90 if ctx.thorough else 60):
            b.add("s%d" % k, make(rng, "s%d" % k))
        keys = b.build()
        for key, out in sorted(b.errors.items()):
            ctx.violation("generated Go does not compile: " + (out.strip().splitlines() or [""])[0][:300], out[:4000],
                          dict(b.texts[key], **b.source(key)))
        jobs, cmds = [], []

        def add(key, step, cmd):
            jobs.append((key, step))
            cmds.append(cmd)
        for key in keys:
            m = b.models[key]
            servers = m.of_kind("server")
            for s in servers:
                add(key, {"op": "routes", "server": s}, {"op": "routes", "type": key + "." + s})
                for here in (True, False):
                    add(key, {"op": "getserver", "server": s, "here": here}, {"op": "getserver", "type": key + "." + s, "text": "here" if here else ""})
                for x, owner in m.methods(s):
                    for _ in range(3):
                        reg = [t for t in servers if t == s and rng.random() < 0.9 or t != s and rng.random() < 0.6]
                        v = values.data(rng, m, x["par"], 2)
                        a = answer_of(rng, m, x["res"])
                        script = {x["name"]: dict(a, value=values.to_driver(a["value"], values.plain(x["res"]), m))}
                        cmd = {"type": key + "." + s, "method": hump(x["name"]), "value": values.to_driver(v, values.plain(x["par"]), m),
                               "names": [key + "." + t for t in reg], "binds": {key + "." + s: script}}
                        add(key, {"op": "call", "servers": reg, "server": s, "method": x["name"], "param": v, "answer": a}, dict(cmd, op="call"))
                    # the default implementation
                    bd = [kv["v"][0].split(".") for t in x["tags"] if t["name"] == "bind" for kv in t["kvs"]]
                    bound = {"server": "", "method": ""}
                    a = {"err": "", "code": 0, "value": {"k": "null"}}
                    binds = {}
                    if bd:
                        bound = {"server": bd[0][0], "method": bd[0][1]}
                        bm = [y for y, _ in m.methods(bd[0][0]) if y["name"] == bd[0][1]][0]
                        a = answer_of(rng, m, bm["res"])
                        binds = {key + "." + bd[0][0]: {bd[0][1]: dict(a, value=values.to_driver(a["value"], values.plain(bm["res"]), m))}}
                    others = [t for t in servers if t != s]
                    for reg in (others, []) + ((others, others, []) if bd else ()):
                        v = values.data(rng, m, x["par"], 2)
                        if bd:
                            near(rng, v)
                        fs, vs = checks(m, x["par"], v) if bd else ([], [])
                        add(key, {"op": "default", "servers": reg, "server": s, "method": x["name"], "param": v, "answer": a, "bound": bound,
                                  "fields": fs, "values": vs},
                            {"op": "default", "type": key + "." + s, "method": hump(x["name"]), "names": [key + "." + t for t in reg],
                             "value": values.to_driver(v, values.plain(x["par"]), m), "binds": binds})
                    # what comes in from other programs
                    v = values.data(rng, m, x["par"], 2)
                    text = values.json_text(values.random_json(rng, m, v, values.plain(x["par"]), 0, 0))
                    path = "/%s/%s/%s" % (underline(s), underline(s), underline(x["name"]))
                    for body, pth in (("good", path), ("bad", path),
                                      ("good", rng.choice([path + "x", path[1:], path.upper(), "/" + path.split("/", 2)[2], "/", ""]))):
                        add(key, {"op": "raw", "servers": servers, "path": pth, "body": body, "param": v},
                            {"op": "raw", "type": key + "." + s, "names": [key + "." + t for t in servers], "text": pth,
                             "method": text if body == "good" else rng.choice(["", "{", "[1]", "nope", text[:-1]])})
        answers = b.run(cmds, chunks=4)
        steps = {}
        for (key, s), a in zip(jobs, answers):
            if a.get("panic"):
                ctx.violation("Go %s of %s %s panics: %s" % (s["op"], s.get("server", ""), s.get("method", ""), a["panic"]), str(s), b.texts[key])
                continue
            s = dict(s)
            if s["op"] == "routes":
                n = a["name"].split(" ")
                s.update(routes=a.get("routes") or [], router=n[0], client=n[1])
            elif s["op"] == "getserver":
                s["found"] = a["text"] == "true"
            else:
                s["out"] = outcome(a, b.models[key])
                if s["op"] == "raw":
                    import json
                    s["out"]["code"] = json.loads(a["answer"])["code"] if a.get("answer") else -1
            steps.setdefault(key, []).append(s)
        ids = sorted(steps)
        recs = [{"decls": b.models[k].record(), "steps": steps[k]} for k in ids]
        for key, rec, v in zip(ids, recs, ctx.tlc_eval("RpcEval", recs)):
            for s, r in zip(rec["steps"], v["steps"]):
                ctx.count("traces_validated_against_impl")
                ctx.count("steps_" + s["op"])
                if r:
                    ctx.violation("Go %s of %s %s: wrong %s" % (s["op"], s.get("server", s.get("path")), s.get("method", ""), sorted(r)),
                                  str(s), dict(b.texts[key], **{n: t for n, t in b.source(key).items() if "server" in n}))
        ctx.sample({"schema": b.texts[ids[0]], "steps": recs[0]["steps"][:2]})
        shutil.rmtree(b.dir, ignore_errors=True)
