"""Generated Java, compiled into one program per batch and driven through it."""
import json, os, re, shutil, subprocess
import core
from names import *
from schema import *

RT = os.path.join(core.VERIF, "rt", "java")


class JavaBatch:
    """add() schemas, build(), then run() commands; every file must say package java = "k.<key>" or "k.<key>.<more>"."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.dir = ctx.dir()
        self.models, self.texts, self.results, self.errors = {}, {}, {}, {}

    def add(self, key, files, texts=None):
        self.models[key] = Model(files)
        self.texts[key] = texts or {p: render(f) for p, f in files.items()}

    def javac(self, cp, files):
        with open(os.path.join(self.dir, "args"), "w") as f:
            f.write("\n".join(files))
        p = subprocess.run(["javac", "-J-Xss16m", "-nowarn", "-proc:none", "-encoding", "UTF-8", "-Xmaxerrs", "10000", "-cp", cp, "-d", os.path.join(self.dir, "classes"),
                            "@" + os.path.join(self.dir, "args")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        return p.returncode, p.stdout

    def compile(self):
        def one(key):
            d = os.path.join(self.dir, "src", key)
            core.write_files(d, self.texts[key])
            return key, self.ctx.compile(os.path.join(d, "*.hbuf"), os.path.join(self.dir, "gen", key), "java")
        for key, r in self.ctx.pmap(one, sorted(self.models)):
            self.results[key] = r
            if r.verdict != "accept":
                self.errors[key] = r.out

    def sources(self, key):
        return [os.path.join(self.dir, "gen", key, n) for n in sorted(core.tree(os.path.join(self.dir, "gen", key)))]

    def build(self):
        os.makedirs(os.path.join(self.dir, "classes"))
        rc, out = self.javac(os.path.join(self.dir, "classes"), [os.path.join(d, n) for d, _, ns in os.walk(RT) for n in ns if n.endswith(".java")])
        if rc:
            raise core.CheckError("javac failed:\n" + out[:4000])
        self.compile()
        keys = [k for k in sorted(self.models) if k not in self.errors]
        for attempt in range(12):
            rc, out = self.javac(os.path.join(self.dir, "classes"), [f for k in keys for f in self.sources(k)])
            if rc == 0:
                break
            bad = {}
            for m in re.finditer(r"gen/([A-Za-z0-9]+)/\S*:\d+: error: .*(?:\n(?!\S*gen/).*){0,4}", out):
                bad[m.group(1)] = bad.get(m.group(1), "") + m.group(0).split("/gen/")[-1] + "\n"
            if not set(bad) & set(keys):
                raise core.CheckError("javac failed:\n" + out[:4000])
            self.errors.update(bad)
            keys = [k for k in keys if k not in bad]
        else:
            raise core.CheckError("javac failed:\n" + out[:4000])
        self.keys = keys
        return keys

    def init(self):
        classes, kinds, fields = {}, {}, {}
        for k in self.keys:
            m = self.models[k]
            for n, d in m.decl.items():
                f = m.files[m.home[n]]
                pkg = [p["v"] for p in f["pkgs"] if p["k"] == "java"][0]
                stem = os.path.basename(m.home[n])[:-len(".hbuf")]
                kinds["%s.%s" % (k, n)] = d["kind"]
                classes["%s.%s" % (k, n)] = "%s.%s%s$%s" % (pkg, hump(stem), {"data": "Data", "enum": "Enum", "server": "Server"}[d["kind"]], hump(n))
                if d["kind"] == "data":
                    fields["%s.%s" % (k, n)] = [{"n": x["name"], "hump": hump(x["name"]), "t": x["type"]} for x in m.fields(n)]
        return {"op": "init", "classes": classes, "kinds": kinds, "fields": fields}

    def run(self, cmds, timeout=300, chunks=1):
        init = self.init()

        def one(part):
            text = "\n".join(json.dumps(c) for c in [init] + part) + "\n"
            p = subprocess.run(["java", "-Xss16m", "-cp", os.path.join(self.dir, "classes"), "app.Driver"], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=timeout)
            res = [json.loads(l) for l in p.stdout.splitlines()][1:]
            if p.returncode or len(res) != len(part):
                raise core.CheckError("Java driver: %d %s" % (p.returncode, p.stderr[-2000:]))
            return res
        size = max(1, (len(cmds) + chunks - 1) // chunks)
        res = []
        for r in self.ctx.pmap(one, [cmds[i:i + size] for i in range(0, len(cmds), size)]):
            res += r
        return res

    def source(self, key):
        return {n: b.decode("utf-8", "replace") for n, b in core.tree(os.path.join(self.dir, "gen", key)).items()}
