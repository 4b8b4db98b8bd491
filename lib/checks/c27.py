"""C27: the documentation of a schema stands at its declarations in the code (Docs.tla, MC_Docs.tla, DocsEval.tla)."""
import os, random, re, shutil
import core
from schema import *

LEVEL = "model_checking"
TARGETS = ["go", "ts", "java", "dart"]
# what a line of code declares: (pattern, place); the groups are owner and name, or name
OWNER = {
    "go": r"type (\w+) |func \(\w+ \*?(\w+)\)",
    "ts": r"export (?:class|interface) (\w+)",
    "java": r"(?:interface|class) (\w+)",
    "dart": r"(?:abstract )?class (\w+)",
}
DECLARES = {
    "go": [(r"type Default(\w+) struct", "default"), (r"type (\w+) ", "type"), (r"const (\w+) ", "item"),
           (r"func \(\w+ \*?Default\w+\) (\w+)\(", "default method"), (r"func \(\w+ \*?\w+Client\) (\w+)\(", "client method"),
           (r"func \(\w+ \*?\w+\) Get(\w+)\(", "get"), (r"func \(\w+ \*?\w+\) Set(\w+)\(", "set"),
           (r"(\w+)\(", "method"), (r"(\w+)\s+\S", "field")],
    "ts": [(r"export (?:class|interface) (\w+)", "type"), (r"public static readonly (\w+)", "item"), (r"(\w+)\(", "method"), (r"(\w+)\??:", "field")],
    "java": [(r"(?:public |static )*(?:interface|class) (\w+)", "type"), (r"public static final \w+ (\w+)", "item"),
             (r"[\w<>, ?]+ get(\w+)\(\)", "get"), (r"void set(\w+)\(", "set"), (r"CompletableFuture<.*?> (\w+)\(", "method")],
    "dart": [(r"(?:abstract )?class (\w+)", "type"), (r"static final (?:\w+ )?(\w+) =", "item"), (r"\S.* get (\w+)", "get"), (r"set (\w+)\(", "set"),
             (r"Future<.*?> (\w+)\(", "method")],
}


def plain_name(n, cut=""):
    n = n.replace("_", "").lower()
    return n[len(cut):] if cut and n.startswith(cut) else n


def comments(target, texts):
    """the comments with words of ours, with what they stand at"""
    res = []
    for n in sorted(texts):
        owner, waiting = "", []
        for line in texts[n].split("\n"):
            code, slash, said = line.partition("//")
            code = code.strip()
            if not code and not slash:
                waiting = []
                continue
            if code:
                m = re.match(OWNER[target], code)
                if m:
                    owner = next(g for g in m.groups() if g)
                place, name = "nothing", code
                for p, what in DECLARES[target]:
                    m = re.match(p, code)
                    if m:
                        place, name = what, m.group(1)
                        break
                o = plain_name(owner)
                if target == "go":
                    o = re.sub("^default", "", o)
                if o.endswith("client"):
                    o = o[:-6]
                    place = "client method" if place == "method" else place
                if place == "item" and target == "go":
                    name = plain_name(name, o)
                for text in waiting + [said]:
                    ws = re.findall(r"\bw\d+[a-z]*\b", text)
                    if ws:
                        res.append({"place": place, "owner": o, "name": plain_name(name), "ws": ws})
                waiting = []
            else:
                waiting = [waiting[0] + " " + said] if waiting else [said]
    return res


class Writer:
    """schemas whose declarations have the lines of the model above them"""

    def __init__(self, rng, cases):
        self.rng, self.cases, self.word = rng, cases, 0

    def lines(self):
        if not self.cases:
            return []
        self.word += 1
        return [{"k": l["k"], "ws": ["w%d%s" % (self.word, w[1:].translate(str.maketrans("12345", "vwxyz"))) for w in l["ws"]]} for l in self.cases.pop()]

    def text(self, lines, indent):
        """trailing comment, lines above"""
        r, trail = [], ""
        say = lambda ws: self.rng.choice(["%s", "says %s.", "%s, %s"]).replace("%s", " ".join(ws), 1).replace("%s", "\u4e2d*")
        for k, l in enumerate(lines):
            ws = l["ws"]
            r.append(indent + {"blank": lambda: "", "line": lambda: "//" + self.rng.choice([" ", "  ", "\t"]) + say(ws), "block": lambda: "/* %s */" % say(ws),
                               "span": lambda: "/* %s\n%s * %s\n%s */" % (say(ws[:1]), indent, say(ws[1:]), indent), "pair": lambda: "/* %s */ // %s" % (ws[0], ws[1]),
                               "bare": lambda: self.rng.choice(["//", "// "]), "directive": lambda: "//a:" + ws[0],
                               "tag": lambda: '[t%d:a="1"]' % k + self.rng.choice(["", " // " + say(ws), " /* %s */" % say(ws)]),
                               "trail": lambda: ""}[l["k"]]())
            if l["k"] == "trail":
                r.pop()
                trail = self.rng.choice(["// %s", "/* %s */"]) % say(ws)
        return trail, r

    def schema(self):
        rng = self.rng
        out = ['package go="g"', 'package java="j"']
        decls = []

        def add(d, indent, clause):
            d["lines"] = self.lines()
            trail, above = self.text(d["lines"], indent)
            if trail:
                out[-1] += " " + trail
            out.extend(above)
            out.append(indent + clause)

        def one(kind, k):
            name = {"data": "da", "enum": "en", "server": "se"}[kind] + str(k)
            d = {"kind": kind, "name": name, "bases": [], "fields": [], "items": [], "methods": []}
            same = [x["name"] for x in decls if x["kind"] == kind]
            if kind != "enum" and same and rng.random() < 0.5:
                d["bases"] = rng.sample(same, 1)
            up = "".join((": " if i == 0 else ", ") + "%s = %d" % (b.title(), i + 1) for i, b in enumerate(d["bases"]))
            add(d, "", "%s %s %s{" % (kind, name.title(), up + " " if up else ""))
            decls.append(d)
            for j in range(rng.randint(1, 8)):
                x = {"name": {"data": "fa", "enum": "it", "server": "me"}[kind] + "%dx%d" % (k, j)}
                t = rng.choice(["int32", "string?", "bool[]", "int64", "double?", "string<string>"])
                add(x, "  ", {"data": "%s %s = %d" % (t, x["name"], j + 1), "enum": "%s = %d" % (x["name"], j), "server": "Da0 %s(Da0 r) = %d" % (x["name"], j)}[kind])
                d[{"data": "fields", "enum": "items", "server": "methods"}[kind]].append(x)
            out.append("}")
        one("data", 0)
        for k in range(1, rng.randint(4, 10)):
            one(rng.choice(["data", "data", "enum", "server"]), k)
        return decls, "\n".join(out) + "\n"


def run(ctx):
    cases = ctx.tlc_cases("MC_Docs", "MC_DocsBig" if ctx.thorough else "MC_Docs", workers=4)
    ctx.count("lines_of_the_model", len(cases))
    rng = random.Random(ctx.seed * 991 + 27)
    queue = [c["lines"] for c in cases]
    rng.shuffle(queue)
    w = Writer(rng, queue)
    schemas = []
    while queue:
        schemas.append(w.schema())
    jobs = [(decls, text, t) for decls, text in schemas for t in TARGETS]

    def one(job):
        decls, text, t = job
        d = ctx.dir()
        core.write_files(d, {"a.hbuf": text})
        r = ctx.compile(os.path.join(d, "a.hbuf"), os.path.join(d, "o"), t)
        texts = {n: b.decode("utf-8", "replace") for n, b in core.tree(os.path.join(d, "o")).items()} if r.rc == 0 else None
        shutil.rmtree(d, ignore_errors=True)
        return r, texts
    recs, of = [], []
    for job, (r, texts) in zip(jobs, ctx.pmap(one, jobs)):
        if texts is None:
            ctx.violation("%s: not built: %s" % (job[2], r.out.strip()[:200]), r.out, {"a.hbuf": job[1]})
            continue
        recs.append({"target": job[2], "decls": job[0], "seen": comments(job[2], texts)})
        of.append((job, texts))
    for rec, (job, texts), v in zip(recs, of, ctx.tlc_eval("DocsEval", recs)):
        ctx.count("traces_validated_against_impl")
        ctx.count("documented_places", v["want"])
        for what in ("missing", "extra", "twice"):
            if v[what]:
                x = sorted(v[what], key=str)[0]
                ctx.violation("%s: documentation %s at %s of %s" % (job[2], what, x["place"], x["owner"]), str(v), dict(texts, **{"a.hbuf": job[1]}))
    if recs:
        ctx.sample({"target": recs[0]["target"], "seen": recs[0]["seen"][:5]})
