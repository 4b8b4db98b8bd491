"""C16: cached reads (Cache.tla, CacheTrace.tla)."""
import json, random, shutil
import core, dbrun, gorun

LEVEL = "model_checking"
TAGS = [((), 7200, 10800), ((("min", "10"), ("max", "20")), 10, 20), ((("min", "5"),), 5, 10800), ((("max", "8000"),), 7200, 8000),
        ((("min", "0"), ("max", "9")), 0, 9), ((("min", "1"), ("max", "2")), 1, 2), ((("max", "50"), ("min", "40")), 40, 50),
        ((("min", "30"), ("max", "30")), 30, 31), ((("max", "60"),), 0, 7201)]

NONE = [json.dumps(x, sort_keys=True) for x in ({"k": "obj", "m": []}, {"k": "arr", "l": []})]


def run(ctx):
    ctx.tlc("Cache", "MC_Cache", workers=2)
    rng = random.Random(ctx.seed * 331 + 16)
    total = 400 if ctx.thorough else 54
    done = 0
    while done < total:
        b = gorun.GoBatch(ctx)
        tabs, bounds = {}, {}
        for k in range(min(54, total - done)):
            key = "d%d" % k
            args, lo, hi = TAGS[k % len(TAGS)]
            tabs[key] = dbrun.Table(rng, key, cache=args)
            bounds[key] = (lo, hi)
            b.add(key, {"a.hbuf": tabs[key].file()})
            tabs[key].model = b.models[key]
        done += len(tabs)
        keys = b.build()
        for key, out in sorted(b.errors.items()):
            ctx.violation("generated Go does not compile: " + (out.strip().splitlines() or [""])[0][:300], out[:4000],
                          dict(b.texts[key], **b.source(key)))
        cmds, steps = [], []
        for key in keys:
            for n in range(4):
                c, s = dbrun.history(rng, tabs[key], 12, {"insert": 2, "inserts": 1, "get": 3, "list": 4, "map": 3, "count": 3, "del": .6, "rm": .4},
                                     faults=0 if n == 0 else 0.35, again=0.5)
                cmds += c
                steps += [(key, x) for x in s]
        answers = b.run(cmds)
        runs, at, start = [], [], 0
        for n in range(1, len(steps) + 1):
            if n == len(steps) or steps[n][1] is None:
                key = steps[start][0]
                r = dbrun.record(tabs[key], [s for _, s in steps[start:n]], answers[start:n])
                r["min"], r["max"] = bounds[key]
                r["none"] = NONE
                runs.append(r)
                at.append((key, answers[start:n]))
                start = n
        for (key, ans), r, v in zip(at, runs, ctx.tlc_eval("CacheTrace", runs)):
            for k, (s, bad) in enumerate(zip(r["steps"], v["steps"])):
                ctx.count("traces_validated_against_impl")
                ctx.count("hits" if "query" not in s["log"] and s["op"]["op"] not in dbrun.WRITES else "misses")
                if s["panic"] or bad:
                    hist = "\n".join("%s %s fail %s log %s err %s" % (x["op"]["op"], x["type"], x["fail"], x["log"], x["err"]) for x in r["steps"][:k + 1])
                    ctx.violation("%s of %s: %s" % (dbrun.METHOD[s["op"]["op"]], s["type"], s["panic"] or ", ".join(sorted(bad))),
                                  "history\n%s\n\nvalues %s\nbefore %s\nafter %s\nresult %s\nttl %s\nstatement %s\nerror %s" % (
                                      hist, s["g"], s["before"], s["after"], s["result"], s["ttl"], ans[k + 1].get("text"), ans[k + 1].get("err")),
                                  dict(b.texts[key], **b.source(key)))
        if runs:
            ctx.sample({"schema": b.texts[at[0][0]], "log": [s["log"] for s in runs[0]["steps"]]})
        shutil.rmtree(b.dir, ignore_errors=True)
