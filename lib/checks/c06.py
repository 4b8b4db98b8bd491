"""C06: generated Go compiles and declares what the schema says (GoTypes.tla)."""
import random
import core, gen, gorun, rich
from schema import *
from names import *

LEVEL = "model_checking"
KEYS = ["string", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]


def packages(rng, files, key):
    """several Go packages, where the imports allow it"""
    order = sorted(files)
    cyclic = any(order.index(resolve(p, l)) > order.index(p) for p in files for l in files[p]["imports"])
    n = key
    for i, p in enumerate(order):
        if i and not cyclic and rng.random() < 0.5:
            n = key + rng.choice(["_", ""]) + p[0]
        files[p]["pkgs"] = [{"k": "go", "v": n}]
    # parameters that are called like a package
    names = [f["pkgs"][0]["v"] for f in files.values()]
    of = {d["name"]: f["pkgs"][0]["v"] for f in files.values() for d in f["decls"]}
    for f in files.values():
        for d in f["decls"]:
            for m in d["methods"]:
                if rng.random() < 0.3:
                    m["pname"] = rng.choice(names + [of.get(m["res"], key)] * 2)


def readable(rng, files):
    """every table has a column, and one to read"""
    for f in files.values():
        for d in f["decls"]:
            for x in d["fields"]:
                for t in x["tags"]:
                    if t["name"] == "db" and [k for k in t["kvs"] if k["k"] == "where"]:
                        t["kvs"].append({"k": "get", "v": ["?"]})
    m = Model(files)
    for f in files.values():
        for d in f["decls"]:
            # the first of a name is the field: one of a base hides the own one
            if d["kind"] == "data" and not [x for x in d["fields"] if [t for t in x["tags"] if t["name"] == "db"] and
                                            not [b for b in m.fields(d["name"]) if b["name"] == x["name"] and b is not x]]:
                d["tags"] = [t for t in d["tags"] if t["name"] not in ("db", "cache")]


def names_of(key, xs):
    return {n.split(".", 1)[1]: v for n, v in xs.items() if n.startswith(key + ".")}


def run(ctx):
    rng = random.Random(ctx.seed * 613 + 6)
    total = 1200 if ctx.thorough else 240
    done = 0
    while done < total:
        b = gorun.GoBatch(ctx)
        for k in range(min(120, total - done)):
            key = "s%d" % k
            files = gen.schema(rng, nfiles=rng.choice([1, 2, 2, 3]), max_decls=5, pkgs=(("go", key),))
            packages(rng, files, key)
            # compiling needs no unique members along the bases, but names differ from their bases'
            tame(rng, files, KEYS, diamonds=("server",))
            if k == 0:
                files = gen.every_type(rng, (("go", key),), KEYS)
            elif k == 1:
                files = gen.family(rng, (("go", key),), ("server",))
            if rng.random() < 0.5:
                rich.decorate(rng, files)
                readable(rng, files)
            b.add(key, files)
        done += len(b.models)
        keys = b.build(vet=True)
        for key, out in sorted(b.errors.items()):
            ctx.violation("generated Go does not compile: " + (out.strip().splitlines() or [""])[0][:300], out[:4000],
                          dict(b.texts[key], **b.source(key)))
        types, enums, ifaces = [r["types"] or {} if "types" in r else {} for r in
                                b.run([{"op": "types"}, {"op": "enums"}, {"op": "ifaces"}])]
        recs = []
        for key in keys:
            recs.append({"decls": b.models[key].record(), "structs": names_of(key, types),
                         "enums": {n: [{"name": x["name"], "value": x["value"]} for x in v] for n, v in names_of(key, enums).items()},
                         "ifaces": names_of(key, ifaces)})
        for key, rec, v in zip(keys, recs, ctx.tlc_eval("GoTypesEval", recs)):
            ctx.count("traces_validated_against_impl")
            ctx.count("declarations_compared", v["checked"])
            for what in ("structs", "enums", "ifaces"):
                for x in v[what]:
                    ctx.violation("Go %s of %s is not what the schema says: %s" % (what, x["name"], str(x["diff"])[:600]), str(x["diff"]),
                                  dict(b.texts[key], **b.source(key)))
        if keys:
            ctx.sample({"schema": b.texts[keys[0]], "structs": recs[0]["structs"]})
        import shutil
        shutil.rmtree(b.dir, ignore_errors=True)
