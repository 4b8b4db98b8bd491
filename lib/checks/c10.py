"""C10: an enum has the same items, numbers and names in every language (Enums.tla, MC_Enums.tla, EnumEval.tla)."""
import json, random, shutil
import core, dartrun, gen, gorun, javarun, tsrun
from schema import *
from names import *

LEVEL = "model_checking"
WORDS = ["On", "Off", "NotReady", "high_low", "z", "Level1", "aB", "is_a", "X9", "uRL", "default", "none", "NONE_of", "Name", "value", "val", "a1b2", "Big_One"]
LANGS = ["en", "zh", "de"]
ENUMS = ["Rule", "user_kind", "aState", "Zone", "OrderStatus", "Type_A", "K2"]


def fixed(cases):
    """all enums of the model, a hundred per schema"""
    for at in range(0, len(cases), 100):
        key = "m%d" % (at // 100)
        yield key, {"a.hbuf": hfile([enum("E%d" % k, [item(x["name"], x["id"]) for x in c]) for k, c in enumerate(cases[at:at + 100])],
                                    [], (("go", key), ("java", "k." + key)))}


def drawn(rng, n):
    for k in range(n):
        key = "s%d" % k
        files = {}
        pool = rng.sample(ENUMS, len(ENUMS))
        for p in ["a.hbuf", "user_b.hbuf"][:rng.choice([1, 2])]:
            ds = []
            for _ in range(rng.randint(1, 3)):
                items, seen = [], set()
                for w in rng.sample(WORDS, rng.randint(1, 6)):
                    v = rng.choice([0, 1, 2, 3, 7, 8, 9, 10, 100, 255, 65536, 2**31 - 1, rng.randint(0, 2**31 - 1)])
                    if v not in seen:
                        seen.add(v)
                        items.append(item(w, v))
                        if rng.random() < 0.3:
                            items[-1]["idt"] = spell(rng, items[-1]["id"])
                    if rng.random() < 0.4:
                        ls = [(l, rng.choice(["x", "two words", "für $1", "a${b}$", "it's", "50%", "", "\\u4e2d", 'say \\"yes\\"', "C:\\\\n"])) for l in rng.sample(LANGS, rng.randint(1, 3))]
                        items[-1]["tags"] = [tag("lang", *ls)]
                rng.shuffle(items)
                d = enum(pool.pop(), items)
                if rng.random() < 0.4:
                    d["tags"] = [tag("ui")]
                ds.append(d)
            files[p] = hfile(ds, [], (("go", key), ("java", "k." + key)))
        yield key, files


def probes(rng, m, n):
    items = m.decl[n]["items"]
    others = [str(v) for v in (0, 1, 2, 5, 2**31 - 1, -1)]
    numbers = sorted({i["id"] for i in items} | set(rng.sample(others, 3)))
    names = sorted({hump(i["name"]) for i in items} | {i["name"] for i in items} | {all_upper(i["name"]) for i in items} | {"", "Nope", "none"})
    return numbers, names


def run(ctx):
    cases = ctx.tlc_cases("MC_Enums", "MC_EnumsBig" if ctx.thorough else "MC_Enums", workers=4)
    rng = random.Random(ctx.seed * 577 + 10)
    cases = [c for c in cases if c]
    ctx.count("enums_of_the_model", len(cases))
    pick = cases if len(cases) <= 3000 else rng.sample(cases, 3000)
    schemas = list(fixed(pick)) + list(drawn(rng, 200 if ctx.thorough else 60))
    bs = [("go", gorun.GoBatch(ctx)), ("ts", tsrun.TsBatch(ctx)), ("java", javarun.JavaBatch(ctx)), ("dart", dartrun.DartBatch(ctx))]
    for key, files in schemas:
        for _, b in bs:
            b.add(key, files)
    recs, where = {}, {}
    for lang, b in bs:
        keys = b.build()
        for key, out in sorted(b.errors.items()):
            ctx.violation("generated %s does not compile: %s" % (lang, (out.strip().splitlines() or [""])[0][:300]), out[:4000], b.texts[key])
        jobs = []
        for key in keys:
            m = b.models[key]
            for n in m.decl:
                numbers, names = probes(random.Random(key + n), m, n)
                r = recs.setdefault((key, n), {"enum": n, "ui": any(t["name"] == "ui" for t in m.decl[n]["tags"]),
                                               "items": [{"name": i["name"], "id": i["id"], "texts": [{"lang": kv["k"], "text": json.loads('"%s"' % kv["v"][0])} for t in i["tags"] for kv in t["kvs"]]}
                                                         for i in m.decl[n]["items"]],
                                               "numbers": numbers, "names": names, "langs": []})
                for locale in LANGS + ["fr"] if lang == "dart" and r["ui"] else ["en"]:
                    jobs.append((r, key + "." + n, locale))
                where[key, n] = b.texts[key]
        cmds = [{"op": "enum", "type": q, "names": r["names"], ("probes" if lang == "go" else "values"): r["numbers"], "locale": locale} for r, q, locale in jobs]
        for (r, q, locale), a in zip(jobs, b.run(cmds)):
            if a.get("panic"):
                ctx.violation("enum %s of %s fails: %s" % (q, lang, a["panic"]), str(r), where[tuple(q.split("."))])
                continue
            a = a["types"]["enum"] if lang == "go" else a
            r["langs"].append({"lang": lang, "locale": locale, **{k: a[k] for k in ("items", "consts", "byValue", "byName", "equal")}})
    ids = sorted(recs)
    for (key, n), v in zip(ids, ctx.tlc_eval("EnumEval", [recs[k] for k in ids])):
        for l, wrong in zip(recs[key, n]["langs"], v["langs"]):
            ctx.count("traces_validated_against_impl")
            if wrong:
                ctx.violation("enum %s in %s: wrong %s" % (n, l["lang"], sorted(wrong)), str(recs[key, n]), where[key, n])
    if ids:
        ctx.sample(recs[ids[-1]])
    for _, b in bs:
        shutil.rmtree(b.dir, ignore_errors=True)
