"""C01: what a build reads and writes (Loader.tla)."""
import os, posixpath, random, shutil
import core, runs
from schema import *

LEVEL = "model_checking"
TARGETS = ["go", "ts", "dart", "java"]


def run(ctx):
    rng = random.Random(ctx.seed * 31 + 1)
    graphs(ctx, rng)
    trees(ctx, rng)


def spell(rng, lit):
    """another spelling of the same relative path"""
    k = rng.random()
    if k < 0.2:
        return "./" + lit
    if k < 0.3:
        return "zz/../" + lit
    if k < 0.35 and "/" in lit:
        return lit.replace("/", "//", 1)
    return lit


def outputs(d):
    return sorted(core.tree(d)) if os.path.isdir(d) else []


def graphs(ctx, rng):
    cases = ctx.tlc_cases("MC_Loader", workers=8)
    ctx.cov["import_graphs"] = len(cases)
    cap = 16384 if ctx.thorough else 2600
    if len(cases) > cap:
        cases = rng.sample(cases, cap)

    def one(c):
        r = random.Random(repr(c))
        place = {n: r.choice(["", "s", "s/t", "u"]) for n in c["graph"]}
        path = {n: posixpath.join(place[n], n + ".hbuf") for n in place}
        path["ghost"] = posixpath.join(r.choice(["", "s"]), "ghost.hbuf")
        files = {}
        for n, imps in c["graph"].items():
            fs = [field("f" + m, typ("D" + m.upper(), True), i) for i, m in enumerate(imps) if m != "ghost"]
            files[path[n]] = hfile([data("D" + n.upper(), fs)],
                                   [spell(r, posixpath.relpath(path[m], place[n] or ".")) for m in imps if m != n])
        # a file that imports itself declares its own types twice; not a loading matter
        roots = c["roots"]
        pat = "*.hbuf" if len(roots) > 1 else roots[0] + ".hbuf"
        if len(roots) == 1 and r.random() < 0.5:
            pat = posixpath.join(place[roots[0]], pat)
        out, t = "out", r.choice(["ts", "dart"])
        d, out, res = runs.run_files(ctx, {p: render(f) for p, f in files.items()}, [], t, pat)
        got = outputs(out)
        shutil.rmtree(d, ignore_errors=True)
        return files, t, res, got, pat
    for c, (files, t, res, got, pat) in zip(cases, ctx.pmap(one, cases)):
        ctx.count("traces_validated_against_impl")
        want = sorted("%s.data.%s" % (n, t) for n in c["reached"]) if c["loads"] else []
        if res.verdict != ("accept" if c["loads"] else "reject") or got != want:
            ctx.violation("import graph: the specification %s %s, the compiler %s %s" %
                          ("loads" if c["loads"] else "refuses", want, res.verdict, got),
                          "target %s, -i in/%s\n%s" % (t, pat, res.out[:1500]), {p: render(f) for p, f in files.items()})


NAMES = ["user", "user_info", "b", "xb", "order2", "Main", "a_b_c", "items", "log", "u"]
DIRS = [[], ["s"], ["s", "t"], ["u"], ["u", "v", "w"], ["user"]]


def trees(ctx, rng):
    n = 12000 if ctx.thorough else 2200
    cases = []
    for k in range(n):
        # a name for every file; files of one base name may lie in different directories
        info = {}
        for i, b in enumerate(rng.sample(NAMES, rng.randint(1, 6))):
            for dirs in rng.sample(DIRS, rng.choice([1, 1, 1, 1, 2, 3])):
                info["%s%d" % (b, len(info))] = {"base": b, "dirs": dirs, "path": "/".join(dirs + [b + ".hbuf"])}
        names = sorted(info)
        rng.shuffle(names)
        files = {}
        recs = []
        for b in names:
            f = info[b]
            others = [x for x in names if x != b]
            imps = [info[x]["path"] for x in rng.sample(others, min(len(others), rng.choice([0, 0, 1, 1, 2, 3])))]
            if rng.random() < 0.05:
                imps.append("/".join(rng.choice(DIRS) + ["nothing.hbuf"]))
            kinds = rng.sample(["data", "enum", "server"], rng.choice([0, 1, 1, 2, 3]))
            go = rng.choice(["demo", "demo", "demo.api", "x", "", ""])
            java = rng.choice(["com.x", "com.x", ""])
            pkgs = ([("go", go)] if go or rng.random() < 0.5 else []) + ([("java", java)] if java else [])
            h = b.replace("_", "").capitalize()
            ds = []
            if "data" in kinds or "server" in kinds:
                ds.append(data("D" + h, [field("x", typ("int32"), 0)]))
                kinds = sorted(set(kinds) | {"data"})
            if "enum" in kinds:
                ds.append(enum("E" + h, [item("A", 0)]))
            if "server" in kinds:
                ds.append(server("S" + h, [method("get", "D" + h, "D" + h, 0)]))
            rng.shuffle(ds)
            lits = [spell(rng, posixpath.relpath(p, "/".join(f["dirs"]) or ".")) for p in imps]
            if lits and rng.random() < 0.2:
                lits.append(lits[0])
            files[f["path"]] = hfile(ds, lits, pkgs)
            recs.append({"path": f["path"], "base": f["base"], "dirs": f["dirs"], "imports": imps, "kinds": kinds,
                         "pkg": {"go": go, "java": java}})
        b = rng.choice(names)
        dirs = info[b]["dirs"][:rng.randint(0, len(info[b]["dirs"]))]
        b = info[b]["base"]
        pat = rng.choice([b + ".hbuf", b + ".hbuf", "*.hbuf", "*", b[:1] + "*", "*" + b[-1:] + ".hbuf", b[:1] + "*.hb*f",
                          b + "*.hbuf", "nomatch.hbuf", b[:-1] + ".hbuf"])
        if pat == "*":
            pat = "*.hbuf"
        cases.append((files, recs, dirs, pat, rng.choice(TARGETS), rng.random() < 0.3))

    def one(c):
        files, recs, dirs, pat, t, rel = c
        d = ctx.dir()
        core.write_files(os.path.join(d, "in"), {p: render(f) for p, f in files.items()})
        os.makedirs(os.path.join(d, "in", *dirs), exist_ok=True)
        core.write_files(os.path.join(d, "in"), {"README.txt": "x", "s/user.hbuf.bak": "data X {"})
        if rel:
            res = ctx.compile("/".join(["in"] + dirs + [pat]), "out", t, cwd=d)
        else:
            res = ctx.compile(os.path.join(d, "in", *dirs, pat), os.path.join(d, "out"), t)
        got = outputs(os.path.join(d, "out"))
        shutil.rmtree(d, ignore_errors=True)
        return res, got
    # a pattern that ends with '*' would also select the .bak file: not a schema
    cases = [c for c in cases if not c[3].endswith("*")]
    results = ctx.pmap(one, cases)
    out = ctx.tlc_eval("LoaderEval", [{"files": c[1], "dirs": c[2], "pattern": c[3], "target": c[4],
                                       "verdict": r.verdict, "wrote": got} for c, (r, got) in zip(cases, results)])
    for c, (r, got), v in zip(cases, results, out):
        ctx.count("traces_validated_against_impl")
        ctx.count("accepted", v["want"] == "accept")
        if not v["ok"]:
            ctx.violation("tree: the specification says %s, the compiler %s; missing %s, unexpected %s" %
                          (v["want"], r.verdict, v["missing"], v["extra"]),
                          "target %s, -i in/%s/%s\n%s" % (c[4], "/".join(c[2]), c[3], r.out[:1500]),
                          {p: render(f) for p, f in c[0].items()})
    ctx.sample({"tree": sorted(cases[0][0]), "pattern": cases[0][3], "target": cases[0][4], "wrote": results[0][1]})
