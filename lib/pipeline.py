"""Replays histories of Pipeline.tla with the real compiler and gives the
recorded history to PipelineTrace.tla."""
import copy, os, random, shutil
import core, gen, rich, runs
from schema import *

TARGETS = ["go", "ts", "dart", "java"]


def version(rng, f, graph, n):
    """the n-th good version of file f"""
    F = f.upper()
    reach = sorted(graph[f])
    marker = field("marker%d" % n, typ(rng.choice([b for b in BASE if b != "date"]), rng.random() < 0.5), 90 + n)
    dn = ["D" + F] + ["D" + g.upper() for g in reach]
    en = ["E" + F] + ["E" + g.upper() for g in reach]
    fs = [marker]
    for i, nm in enumerate(rng.sample(gen.FIELDS, rng.randint(0, 5))):
        t = gen.pick_type(rng, dn, en)
        if t["of"] in dn and t["shape"] == "one":
            t["opt"] = True
        fs.append(field(nm, t, i))
    rng.shuffle(fs)
    # bases only towards later letters: never cyclic
    bases = [d for d in dn[1:] if d[1] > F and rng.random() < 0.5]
    d1 = data("D" + F, fs, bases)
    e1 = enum("E" + F, [item(x, i) for i, x in enumerate(["Keep"] + rng.sample(gen.ITEMS, rng.randint(0, 3)))] + [item("Mark%d" % n, 50 + n)])
    ms = [method(m, rng.choice(dn), rng.choice(dn), i) for i, m in enumerate(["mark%d" % n] + rng.sample(gen.METHODS, rng.randint(0, 3)))]
    s1 = server("S" + F, ms, ["S" + g.upper() for g in reach if g.upper() > F and rng.random() < 0.5][:1])
    ds = [d1, e1, s1]
    if rng.random() < 0.3:
        ds.append(data("X" + F, [field("id", typ("int64"), 0)], ["D" + F]))
    rng.shuffle(ds)
    return hfile(ds, [], [("go", rng.choice(["demo", "demo", "demo", "x.y"]) if n == 9 else "demo"), ("java", "com.demo")])


def histories(ctx, num, depth=9, cfg="MC_PipelineSim"):
    rc, out = ctx.tlc("MC_Pipeline", cfg, args=("-simulate", "num=%d" % num, "-depth", str(depth + 4), "-seed", str(ctx.seed * 1000 + 7)))
    seen = {}
    for c in core.parse_cases(out):
        key = repr((c["graph"], c["steps"][:-1]))
        seen.setdefault(key, []).append(c)
    rng = random.Random(ctx.seed)
    # the last step of a trace is emitted in all its variants; builds tell more than edits
    return [rng.choice([c for c in cs if c["steps"][-1]["op"] == "build"] or cs) for _, cs in sorted(seen.items())]


def replay(ctx, hist, seed, place=True):
    """runs a history; returns the record for PipelineTrace, the texts and a log"""
    rng = random.Random(seed)
    graph = {f: sorted(v) for f, v in hist["graph"].items()}
    dirs = {f: rng.choice(["", "", "sub", "sub/deep"]) for f in graph}
    path = {f: os.path.join(dirs[f], {"a": "alpha", "b": "beta_x", "c": "gamma"}[f] + ".hbuf") for f in graph}
    base = {f: os.path.basename(path[f])[:-5] for f in graph}
    texts = {}
    features = [x for x in rich.FEATURES if rng.random() < 0.6]
    for f in sorted(graph):
        for n in (1, 2, 3):
            h = version(random.Random("%s %s %d" % (seed, f, n)), f, graph, n)
            h = rich.decorate(random.Random("%s %s %d t" % (seed, f, n)), {"f": h}, features, True)["f"]
            h["imports"] = [os.path.relpath(path[g], dirs[f] or ".") for g in graph[f] if g != f]
            texts[f, "v%d" % n] = render(h)
    d = ctx.dir()
    home = os.path.join(d, "in")
    outd = os.path.join(d, "out")
    os.makedirs(outd)
    core.write_files(outd, {"keep.txt": "mine", "demo/keep.go": "package demo\n"})
    foreign = {"keep.txt": b"mine", "demo/keep.go": b"package demo\n"}
    cur = {f: "v1" for f in graph}
    body = {f: texts[f, "v1"] for f in graph}
    core.write_files(home, {path[f]: body[f] for f in graph})
    steps, log = [], []
    for s in hist["steps"]:
        if s["op"] == "edit":
            f, v = s["f"], s["v"]
            cur[f] = v
            if v.startswith("v"):
                body[f] = texts[f, v]
            else:
                body[f] = broken(rng, texts[f, rng.choice(["v1", "v2", "v3"])], v)
            core.write_files(home, {path[f]: body[f]})
            steps.append({"op": "edit", "f": f, "v": v})
            log.append("edit %s -> %s" % (path[f], v))
            continue
        t = s["t"]
        roots = s["roots"]
        src, cwd = home, None
        k = rng.random()
        if k < 0.25:                       # the same sources at another place
            src = os.path.join(d, "elsewhere%d" % len(steps))
            shutil.copytree(home, src)
        pat = "*.hbuf" if len(roots) > 1 else base[roots[0]] + ".hbuf"
        inp, o = os.path.join(src, pat), outd
        if rng.random() < 0.3:
            inp, o, cwd = os.path.relpath(inp, d), "out", d
        res = ctx.compile(inp, o, t, cwd=cwd)
        seen, strange = {}, []
        for name, content in core.tree(outd).items():
            if foreign.get(name) == content:
                continue
            who = owner(name, base)
            if who is None or name in foreign:
                strange.append(name)
            else:
                seen.setdefault(who, []).append(name + ":" + core.digest(content))
        for name in foreign:
            if not os.path.exists(os.path.join(outd, name)):
                strange.append("gone: " + name)
        steps.append({"op": "build", "roots": sorted(roots), "t": t, "verdict": res.verdict,
                      "seen": [{"f": f, "t": tt, "d": core.digest(" ".join(sorted(x)).encode())} for (f, tt), x in sorted(seen.items())],
                      "strange": sorted(strange)})
        log.append("build -i %s -t %s: %s %s" % (inp, t, res.verdict, res.out.strip()[:200]))
    shutil.rmtree(d, ignore_errors=True)
    used = {path[f] + "@" + v: texts[f, v] for (f, v) in texts}
    return {"graph": graph, "steps": steps}, used, log


def owner(name, base):
    b = os.path.basename(name)
    for f, n in base.items():
        if name.startswith("demo/") and b.startswith(n + ".") and b.endswith(".go"):
            return f, "go"
        if "/" not in name and b.startswith(n + ".") and b.endswith((".ts", ".tsx")):
            return f, "ts"
        if "/" not in name and b.startswith(n + ".") and b.endswith(".dart"):
            return f, "dart"
        if "/" not in name and b.endswith(".java") and b.startswith("".join(x.capitalize() for x in n.split("_"))):
            return f, "java"
    return None


def broken(rng, text, how):
    kind = rng.choice(["syntax", "syntax", "rule", "rule", "import"])
    F = text
    if kind == "import":
        return 'import "nowhere.hbuf"\n' + F
    if kind == "rule":
        return F + rng.choice(["data string {\n}\n", "data Zz {\n Nope x = 0\n}\n", "data Zz {\n int8 x = 0\n int8 x = 1\n}\n",
                               "data Zz : Zz = 1 {\n}\n", "enum Zz {\n A = 0\n B = 0\n}\n", "server Zz {\n int8 f(int8 x) = 0\n}\n",
                               "data Zz {\n int8<Nope> x = 0\n}\n", "data Zz {\n}\nenum Zz {\n A = 0\n}\n",
                               "[a: x=\"1\"; x=\"2\"]\ndata Zz {\n}\n", "data Zz : Missing = 1 {\n}\n"])
    return rng.choice([F + "data {\n", F + "}\n", F + "data Q {\n int8 = 0\n}\n", F + "enum Q {\n A 0\n}\n", F + "\"", F + "data Q",
                       "@" + F, F + "server Q {\n A f(B) = 0\n}\n"])
