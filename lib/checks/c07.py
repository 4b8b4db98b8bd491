"""C07: generated TypeScript type-checks and declares what the schema says (TsTypes.tla)."""
import random, shutil
import core, gen, rich, tsrun, verify
from schema import *
from names import *

LEVEL = "model_checking"
KEYS = ["string", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "date", "decimal"]


def schemas(rng, n):
    for k in range(n):
        key = "s%d" % k
        if k == 0:
            yield key, gen.every_type(rng, (("go", key),), KEYS)
            continue
        if k == 1:
            yield key, gen.family(rng, (("go", key),))
            continue
        if rng.random() < 0.15:
            yield key, verify.Schema(rng, key).files
            continue
        files = gen.schema(rng, nfiles=rng.choice([1, 2, 2, 3]), max_decls=6, pkgs=(("go", key),))
        tame(rng, files, KEYS, diamonds=("data", "server"))
        if rng.random() < 0.5:
            rich.decorate(rng, files)
        yield key, files


def run(ctx):
    rng = random.Random(ctx.seed * 811 + 7)
    for batch in range(8 if ctx.thorough else 1):
        t = tsrun.TsBatch(ctx)
        for key, files in schemas(rng, 150 if ctx.thorough else 100):
            t.add(key, files)
        t.compile()
        for key, out in sorted(t.errors.items()):
            ctx.violation("hbuf refuses the schema: " + out.strip()[:300], out[:2000], t.texts[key])
        keys = [k for k in sorted(t.models) if k not in t.errors]
        errors, decls = tsrun.facts(t)
        for key, es in sorted(errors.items()):
            ctx.violation("generated TypeScript does not type-check: " + es[0][:300], "\n".join(es[:20]), dict(t.texts[key], **t.source(key)))
        recs = []
        for key in keys:
            m = t.models[key]
            recs.append({"decls": [{k: d[k] for k in ("kind", "name", "bases", "fields", "items", "methods")} for d in m.record()],
                         "homes": {n: tsrun.stem(p) for n, p in m.home.items()},
                         "found": [d for d in decls.get(key, []) if d.pop("kind") in ("data", "enum", "server")]})
        for key, rec, v in zip(keys, recs, ctx.tlc_eval("TsTypesEval", recs)):
            ctx.count("traces_validated_against_impl")
            ctx.count("declarations_compared", v["checked"])
            if key in errors:
                continue        # the types of what is wrong are not known
            for what in ("missing", "extra"):
                if v[what]:
                    ctx.violation("%s TypeScript declarations: %s" % (what, sorted(v[what])), str(v[what]), dict(t.texts[key], **t.source(key)))
            for x in v["differ"]:
                ctx.violation("TypeScript %s is not what the schema says: %s" % ("/".join(x["at"]), str({k: y for k, y in x.items() if k != "at"})[:600]), str(x),
                              dict(t.texts[key], **t.source(key)))
        if keys:
            ctx.sample({"schema": t.texts[keys[0]], "found": recs[0]["found"]})
        shutil.rmtree(t.dir, ignore_errors=True)
