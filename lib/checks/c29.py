"""C29: what the values of tags refer to is there, or the build is refused (Refs.tla, judged by RefsEval.tla)."""
import os, random, shutil
import core, gen, layout, places, runs
from schema import *

LEVEL = "model_checking"
PKGS = [("go", "demo"), ("java", "com.demo")]


def spoil(rng, s):
    """a reference that may mean nothing"""
    a, b = s.split(".")
    return rng.choice([a + ".nope", "Nope." + b, a, b + "." + a, s + ".x", "." + b, a + ".", "", s + " ", a.lower() + "." + b, a + "." + b.upper(), a + ".." + b])


def refer(rng, files):
    """formats, binds and conditions that refer to anything there is"""
    said = []
    every = [d for f in files.values() for d in f["decls"]]

    def ref(p, kind):
        near = {p} | {resolve(p, x) for x in files[p]["imports"]}
        ds = [d for q in files for d in files[q]["decls"] if q in near and d["kind"] == kind and (d["items"] or d["methods"])]
        if rng.random() < 0.04 or not ds:
            ds = [d for d in every if d["items"] or d["methods"] or d["fields"]]
        if not ds:
            return "E.x"
        d = rng.choice(ds)
        s = d["name"] + "." + rng.choice(d["items"] + d["methods"] + d["fields"])["name"]
        heirs = [x for q in near if q in files for x in files[q]["decls"] if x["kind"] == kind and d["name"] in x["bases"]]
        if heirs and rng.random() < 0.1:    # a member that is inherited only
            s = rng.choice(heirs)["name"] + s[s.index("."):]
        if said and rng.random() < 0.05:    # the same words again, maybe elsewhere
            s = rng.choice(said)
        said.append(s)
        return spoil(rng, s) if rng.random() < 0.05 else s

    def fits(p, kind):
        near = {p} | {resolve(p, x) for x in files[p]["imports"]}
        return rng.random() < 0.04 or any(d["kind"] == kind and (d["items"] or d["methods"]) for q in files for d in files[q]["decls"] if q in near)

    def format_(p):
        other = [("note", ["a", "b"][:rng.randint(1, 2)])] if rng.random() < 0.2 else []
        return tag("verify", *([("format", [ref(p, "enum") for _ in range(rng.choice([1, 1, 2, 3]))])] + other)[::rng.choice([1, -1])])

    def near_data(p):
        near = {p} | {resolve(p, x) for x in files[p]["imports"]}
        ds = [d for q in files for d in files[q]["decls"] if d["kind"] == "data" and d["name"] and (q in near or rng.random() < 0.05)]
        return rng.choice(ds if rng.random() < 0.95 else every)
    for p, f in files.items():
        for d in f["decls"]:
            if d["kind"] == "data":
                if rng.random() < 0.15 and fits(p, "enum"):
                    d["tags"].append(format_(p))
                if rng.random() < 0.6:
                    kv = [("name", d["name"].lower())]
                    fields = d["fields"]
                    if rng.random() < 0.4:
                        kv.append(("list", rng.choice(["self", "self", "Self", "parent", "PARENT", "none"])))
                    if rng.random() < 0.15:
                        kv.append(("count", rng.choice(["true", "false", "True"])))
                    if rng.random() < 0.3:
                        t = near_data(p)
                        kv.append(("table", t["name"] + rng.choice([""] * 30 + ["x", ".a", " "]) if rng.random() < 0.97 else rng.choice(["", "Nope"])))
                        fields = fields + t["fields"]
                    if rng.random() < 0.2 and fields:
                        kv.append(("map", rng.choice(fields)["name"] + rng.choice([":self", ":parent", ":Self", ":PARENT", ":none", "", "x:self", ":self:x"])))
                    rng.shuffle(kv)
                    d["tags"].insert(0, tag("db", *kv))
                for x in d["fields"]:
                    if rng.random() < 0.3 and fits(p, "enum"):
                        x["tags"].append(format_(p))
                    if rng.random() < 0.6:
                        kv = [("name", underline_(x["name"]))]
                        if rng.random() < 0.5:
                            n = rng.choice([y["name"] for y in d["fields"]] * 6 + [y["name"] for y in rng.choice(every)["fields"]][:1] + ["nope", "a-b", ""][:rng.randint(0, 3)])
                            kv = [("where", [rng.choice(["AND c = ?{%s}", "AND ${%s} = ?", "AND c IN (?{%s}) AND d > ?", "AND c = ? AND ${c", "AND {%s} = 1"]).replace("%s", n)
                                             for _ in range(rng.choice([1, 1, 2]))])]
                        x["tags"].insert(rng.randint(0, len(x["tags"])), tag("db", *kv))
            for m in d["methods"]:
                if rng.random() < 0.4 and fits(p, "server"):
                    m["tags"].append(tag("bind", ("value", [ref(p, "server")] + (["x"] if rng.random() < 0.1 else []))) if rng.random() < 0.95 else
                                     tag("bind", ("other", ["a.b"])))
    return files


def underline_(n):
    return n.strip("_").lower() or "x"


def run(ctx):
    rng = random.Random(ctx.seed * 877 + 29)
    model = ctx.tlc_cases("MC_Refs", workers=4)
    sets = []
    for c in model if ctx.thorough else rng.sample(model, 4500):
        files = {p: dict(f, pkgs=[{"k": k, "v": v} for k, v in PKGS]) for p, f in c["disk"].items()}
        for t in (["go", "ts", "dart", "java"] if ctx.thorough else [rng.choice(["go"] * 6 + ["ts", "ts", "dart", "dart", "java"])]):
            sets.append((files, t))
    nrandom = 16000 if ctx.thorough else 2000
    for k in range(nrandom):
        files = refer(rng, gen.schema(rng, nfiles=rng.choice([1, 2, 3, 3]), max_decls=rng.choice([3, 5, 6]), pkgs=PKGS))
        sets.append((files, rng.choice(["go", "go", "ts", "dart", "java"])))
    cases = []
    for files, t in sets:
        texts, spots = {}, {}
        for p, f in files.items():
            marks, raw = [], layout.layout(rng, places.file_at(p, f))
            texts[p] = layout.ink(rng, raw, marks=marks)
            spots[p] = places.spots(texts[p], raw, marks)
        cases.append((files, texts, spots, t))

    def one(c):
        d, out, res = runs.run_files(ctx, c[1], sorted(c[0]), c[3], "*.hbuf")
        shutil.rmtree(d, ignore_errors=True)
        return res, places.where(res, os.path.join(d, "in"))
    done = ctx.pmap(one, cases)
    recs = []
    for (files, texts, spots, t), (res, (p, line, col, msg)) in zip(cases, done):
        ctx.count("builds")
        ctx.count("random_built", len(recs) >= len(done) - nrandom and res.verdict == "accept")
        ctx.count("refused", res.verdict == "reject")
        rec = runs.record({q: plain(file_toks(f)) for q, f in files.items()}, sorted(files), res, {q: f["imports"] for q, f in files.items()})
        at = [w["at"] for a, b, w, n in spots.get(p, ()) if a <= (line, col) <= b and w.get("at")]
        rec.update(at=at[0] if at else "", target=t)
        recs.append(rec)
    wrong = {}
    for c, (res, (p, line, col, msg)), rec, v in zip(cases, done, recs, ctx.tlc_eval("RefsEval", recs)):
        ctx.count("traces_validated_against_impl")
        for x in v["want"]:
            wrong[c[3]] = wrong.get(c[3], 0) + 1
        if v["rules"]:
            raise core.CheckError("a schema that breaks a rule: %s\n%s" % (v["rules"], c[1]))
        if not v["ok"]:
            ctx.violation("%s: references %s, the compiler %s" % (c[3], "that mean nothing at %s" % sorted(x["at"][0] for x in v["want"])[:3] if v["want"] else "are right",
                          "accepts" if res.verdict == "accept" else "%ss with %r at %s:%d:%d (%s)" % (res.verdict, msg[:80], p, line, col, rec["at"])),
                          "target %s\ncompiler output:\n%s" % (c[3], res.out[:1500]), c[1])
    ctx.cov["states_of_the_model"] = len(model)
    ctx.cov["wrong_references"] = wrong
    ctx.sample({"files": cases[-1][1], "target": cases[-1][3], "verdict": done[-1][0].verdict})
