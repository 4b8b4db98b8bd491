"""C22: new and cloned objects of generated TypeScript (Wire.tla, WireEval.tla)."""
import random, shutil
import core, tsrun, values
from checks import wire
from checks.c09 import TSKEYS, broken, failed, schemas
from schema import *
from names import *

LEVEL = "model_checking"


def run(ctx):
    rng = random.Random(ctx.seed * 941 + 22)
    for batch in range(8 if ctx.thorough else 1):
        t = tsrun.TsBatch(ctx)
        for key, files in schemas(rng, 90 if ctx.thorough else 50, False):
            t.add(key, files)
        keys = t.build()
        broken(ctx, t)
        jobs, cmds = [], []
        for key in keys:
            m = t.models[key]
            for n in m.of_kind("data"):
                jobs.append((key, n, "new", None))
                cmds.append({"op": "new", "type": key + "." + n})
                for _ in range(8):
                    v = values.data(rng, m, n)
                    jobs.append((key, n, "clone", v))
                    cmds.append({"op": "clone", "type": key + "." + n, "value": v})
        steps = {}
        for (key, n, op, v), a in zip(jobs, t.run(cmds, chunks=4)):
            if failed(ctx, "TypeScript %s of %s" % (op, n), a, v, dict(t.texts[key], **t.source(key))):
                continue
            s = {"op": op, "value": v, "copy": tsrun.from_driver(a["copy"]), "after": tsrun.from_driver(a["after"])} if op == "clone" else \
                {"op": op, "value": tsrun.from_driver(a["value"])}
            steps.setdefault((key, n), []).append(s)
        wire.judge(ctx, "TypeScript", steps, t.models, t.texts, t.source)
        shutil.rmtree(t.dir, ignore_errors=True)
