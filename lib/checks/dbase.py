"""The checks of database operations: histories of generated code on a table."""
import random, shutil
import core, dbrun, gorun


def histories(ctx, weights, ops, mc, tables, per, length):
    rng = random.Random(ctx.seed * 977 + sum(map(ord, ctx.prop)))
    for cfg in mc:
        ctx.tlc("MC_Db", cfg, workers=6, timeout=700)
    done = 0
    while done < tables:
        b = gorun.GoBatch(ctx)
        tabs = {}
        for k in range(min(60, tables - done)):
            key = "d%d" % k
            tabs[key] = dbrun.Table(rng, key)
            b.add(key, {"a.hbuf": tabs[key].file()})
            tabs[key].model = b.models[key]
        done += len(tabs)
        keys = b.build()
        for key, out in sorted(b.errors.items()):
            ctx.violation("generated Go does not compile: " + (out.strip().splitlines() or [""])[0][:300], out[:4000],
                          dict(b.texts[key], **b.source(key)))
        cmds, steps = [], []
        for key in keys:
            if not any(weights.get(o, 1) and (o in ops) for t in tabs[key].types.values() for o in t["ops"]):
                continue
            for _ in range(per):
                c, s = dbrun.history(rng, tabs[key], length, weights)
                cmds += c
                steps += [(key, x) for x in s]
        answers = b.run(cmds, chunks=1)
        runs, at = [], []
        start = 0
        for n in range(1, len(steps) + 1):
            if n == len(steps) or steps[n][1] is None:
                key = steps[start][0]
                runs.append(dbrun.record(tabs[key], [s for _, s in steps[start:n]], answers[start:n]))
                at.append((key, [c for c in cmds[start:n]], answers[start:n]))
                start = n
        for (key, cs, ans), run, v in zip(at, runs, ctx.tlc_eval("DbTrace", runs, timeout=800)):
            for k, (s, j) in enumerate(zip(run["steps"], v["steps"])):
                o = s["op"]["op"]
                if o not in ops:
                    continue
                ctx.count("traces_validated_against_impl")
                ctx.count("op_" + o)
                a = ans[k + 1]
                if s["panic"]:
                    ctx.violation("%s of %s: panic %s" % (dbrun.METHOD[o], s["type"], s["panic"]), str(s["g"]), dict(b.texts[key], **b.source(key)))
                elif j["bad"]:
                    ctx.violation("%s of %s: wrong %s" % (dbrun.METHOD[o], s["type"], ", ".join(sorted(j["bad"]))),
                                  "values %s\nlist %s\nbefore %s\nstatement %s\nerror %s\n\nwant %s\n\ngot rows %s count %s result %s" % (
                                      s["g"], s["list"], s["before"], a.get("text"), a.get("err"), j["want"], s["after"], s["count"], s["result"]),
                                  dict(b.texts[key], **b.source(key)))
        if runs:
            ctx.sample({"schema": b.texts[at[0][0]], "first step": {k: runs[0]["steps"][0][k] for k in ("op", "g", "err", "count")}})
        shutil.rmtree(b.dir, ignore_errors=True)
