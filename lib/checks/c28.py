"""C28: where the messages of refused builds point at (Places.tla, judged by PlacesEval.tla)."""
import os, random, shutil
import gen, layout, places, runs
from schema import *

LEVEL = "model_checking"


def run(ctx):
    ctx.tlc("MC_Places", "MC_PlacesBig" if ctx.thorough else "MC_Places", workers=8 if ctx.thorough else 4, timeout=800)
    rng = random.Random(ctx.seed * 991 + 28)
    cases = []
    for k in range(48000 if ctx.thorough else 6000):
        files = gen.schema(rng, nfiles=rng.choice([1, 1, 2, 2, 3]), max_decls=rng.choice([2, 3, 5]))
        wild = k % 5 < 2
        if wild:
            victims = rng.sample(sorted(files), rng.choice([1, 1, len(files)]))
        else:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                files = gen.mutate(rng, files)
        texts, spots, toks = {}, {}, {}
        for p, f in files.items():
            marks = []
            raw = layout.layout(rng, places.file_at(p, f))
            if wild and p in victims:
                raw = layout.damage(rng, raw, layout.POOL + raw) if rng.random() < 0.9 else layout.unended(rng, raw)
            raw = [dict(t) for t in raw]
            texts[p] = layout.ink(rng, raw, comments=not any(x["t"] == "bad" for x in raw), marks=marks)
            spots[p] = places.spots(texts[p], raw, marks)
            toks[p] = raw
        imports = {p: [t["v"] for t in ts if t["t"] == "str"] for p, ts in toks.items()}
        cases.append((toks, texts, spots, rng.choice(["ts", "go", "dart", "java"]), imports, wild))

    def one(c):
        d, out, res = runs.run_files(ctx, c[1], sorted(c[0]), c[3], "*.hbuf")
        shutil.rmtree(d, ignore_errors=True)
        return res, places.where(res, os.path.join(d, "in"))
    recs, at = [], []
    for c, (res, (p, line, col, msg)) in zip(cases, ctx.pmap(one, cases)):
        toks, texts, spots, typ_, imports, wild = c
        ctx.count("builds")
        if res.verdict != "reject":
            continue
        rec = runs.record(toks, sorted(toks), res, imports)
        if wild and rec["class"]:          # its words are not what they say any more
            continue
        here = [(t, n) for a, b, t, n in spots.get(p, ()) if a <= (line, col) <= b]
        named = [t["at"] for t, n in here if t.get("at")]
        rec.update(at=named[0] if named else "", name=msg.split(": ", 1)[1] if ": " in msg else "",
                   words=["%s//%d" % (p, n) for t, n in here])
        recs.append(rec)
        at.append((c, res, p, line, col, msg))
    classes = {}
    for rec, (c, res, p, line, col, msg), v in zip(recs, at, ctx.tlc_eval("PlacesEval", recs)):
        ctx.count("traces_validated_against_impl")
        k = rec["class"] or "syntax"
        classes[k] = classes.get(k, 0) + 1
        if not v["ok"]:
            ctx.violation("the message %r (%s) points at %s:%d:%d, which is %s; the specification knows %s" %
                          (msg[:80], rec["class"] or "syntax", p, line, col, rec["at"] or " ".join(rec["words"]) or "no word of a rule", sorted((x["class"], x["at"], x["name"]) for x in v["want"])[:4]),
                          "target %s\ncompiler output:\n%s" % (c[3], res.out[:1500]), c[1])
    ctx.cov["rejected_by_class"] = classes
    if at:
        ctx.sample({"files": at[0][0][1], "message": at[0][1].out[:300], "at": recs[0]["at"]})
