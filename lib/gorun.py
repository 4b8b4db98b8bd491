"""Generated Go code, compiled into one program per batch and driven through it."""
import json, os, re, shutil, subprocess
import core
from names import *
from schema import *

RT = os.path.join(core.VERIF, "rt", "go")


def owner(pkg, keys):
    """the schema a package belongs to"""
    m = re.match(r"[A-Za-z]+\d*", pkg)
    for n in range(m.end(), 0, -1):
        if pkg[:n] in keys:
            return pkg[:n]
    m = re.match(r"[A-Za-z]+\d*[A-Za-z]*", pkg)
    return m.group(0) if m.group(0) in keys else None


class GoBatch:
    """add() schemas, build(), then run() commands.  key: name of the schema in the batch;
    every file of it must say package go = "<key>" or "<key><letter>..."."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.dir = ctx.dir()
        shutil.copytree(os.path.join(RT, "hbuf_golang"), os.path.join(self.dir, "hbuf_golang"))
        shutil.copytree(os.path.join(RT, "app"), os.path.join(self.dir, "app"))
        self.app = os.path.join(self.dir, "app")
        self.models = {}
        self.texts = {}
        self.results = {}
        self.errors = {}          # key -> compiler output of Go

    def add(self, key, files, texts=None):
        self.models[key] = Model(files)
        self.texts[key] = texts or {p: render(f) for p, f in files.items()}

    def compile(self):
        def one(key):
            d = os.path.join(self.dir, "src", key)
            core.write_files(d, self.texts[key])
            return key, self.ctx.compile(os.path.join(d, "*.hbuf"), os.path.join(self.app, "gen"), "go", pack="app/gen/")
        for key, r in self.ctx.pmap(one, sorted(self.models)):
            self.results[key] = r
            if r.verdict != "accept":
                self.errors[key] = r.out

    def package(self, key, name):
        m = self.models[key]
        return [p["v"] for p in m.files[m.home[name]]["pkgs"] if p["k"] == "go"][0]

    def registry(self, keys):
        out, imports, body = [], {}, []

        def alias(pkg):
            imports[pkg] = "g_" + pkg
            return "g_" + pkg
        for key in keys:
            m = self.models[key]
            for n in m.decl:
                a = alias(self.package(key, n)) + "." + hump(n)
                q = '"%s.%s"' % (key, n)
                k = m.decl[n]["kind"]
                if k == "data":
                    body.append("\tdatas[%s] = reflect.TypeOf(%s{})" % (q, a))
                elif k == "enum":
                    body.append("\tenums[%s] = Enum{reflect.TypeOf(%s(0)), %sValues(), map[string]int{%s}}" % (
                        q, a, a, ", ".join('"%s": int(%s%s)' % (hump(i["name"]), a, hump(i["name"])) for i in m.decl[n]["items"])))
                else:
                    pk, h = a.rsplit(".", 1)
                    fake = "fake_%s_%s" % (key, h)
                    body.append("\tservers[%s] = Server{reflect.TypeOf((*%s)(nil)).Elem(), %s.New%sRouter, %s.New%sClient, &%s.Default%s{}, %s.Get%s, "
                                "func(f *Fake) any { return &%s{f} }}" % (q, a, pk, h, pk, h, pk, h, pk, h, fake))
                    out.append("type %s struct{ f *Fake }\n\nfunc (x *%s) Init(ctx context.Context) {}\n" % (fake, fake))
                    for me, _ in m.methods(n):
                        par = alias(self.package(key, me["par"])) + "." + hump(me["par"])
                        if me["res"] == "void":
                            out.append("func (x *%s) %s(ctx context.Context, p *%s) error {\n\t_, err := x.f.Call(%s, p)\n\treturn err\n}\n"
                                       % (fake, hump(me["name"]), par, json.dumps(me["name"])))
                        else:
                            res = alias(self.package(key, me["res"])) + "." + hump(me["res"])
                            out.append("func (x *%s) %s(ctx context.Context, p *%s) (*%s, error) {\n\treturn answer[%s](x.f.Call(%s, p))\n}\n"
                                       % (fake, hump(me["name"]), par, res, res, json.dumps(me["name"])))
        text = "package main\n\nimport (\n\t\"context\"\n\t\"reflect\"\n" + "".join(
            '\t%s "app/gen/%s"\n' % (a, p) for p, a in sorted(imports.items())) + ")\n\nvar _ context.Context\nvar _ reflect.Type\n\n"
        return text + "\n".join(out) + "\nfunc init() {\n" + "\n".join(body) + "\n}\n"

    def go(self, *args, timeout=600):
        p = subprocess.run(["go", *args], cwd=self.app, env=core.go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return p.returncode, p.stdout

    def build(self, vet=False):
        """compiles everything; schemas whose code does not compile go to errors"""
        self.compile()
        keys = [k for k in sorted(self.models) if k not in self.errors]
        if os.path.isdir(os.path.join(self.app, "gen")):
            rc, out = self.go("build", "-gcflags=-e", "./gen/...") if not vet else self.go("vet", "./gen/...")
            if rc:
                self.blame(out, keys)
        keys = [k for k in keys if k not in self.errors]
        for attempt in range(9):
            with open(os.path.join(self.app, "registry.go"), "w") as f:
                f.write(self.registry(keys))
            rc, out = self.go("build", "-gcflags=-e", "-o", "driver", ".")
            if rc == 0:
                break
            bad = self.blame_registry(out, keys)
            if not bad:
                raise core.CheckError("the driver does not compile:\n" + out[:4000])
            keys = [k for k in keys if k not in self.errors]
        else:
            raise core.CheckError("the driver does not compile:\n" + out[:4000])
        self.keys = keys
        return keys

    def blame(self, out, keys):
        for line in out.splitlines():
            m = re.match(r"(?:vet: )?(?:\./)?gen/(\w+)/", line) or re.match(r"package app/gen/(\w+)", line)
            k = m and owner(m.group(1), keys)
            if k:
                self.errors[k] = self.errors.get(k, "") + line + "\n"
        if not any(k in self.errors for k in keys):
            raise core.CheckError("go build failed:\n" + out[:4000])

    def blame_registry(self, out, keys):
        lines = open(os.path.join(self.app, "registry.go")).read().split("\n")
        bad = False
        for line in out.splitlines():
            m = re.match(r"(?:\./)?registry\.go:(\d+):", line)
            if m:
                ks = re.findall(r"g_(\w+)\.", lines[int(m.group(1)) - 1]) + re.findall(r"fake_(\w+)_", lines[int(m.group(1)) - 1])
                for k in ks[:1]:
                    k = owner(k, keys)
                    if k:
                        bad = True
                        self.errors[k] = self.errors.get(k, "") + line + "\n"
            m = re.match(r"(?:\./)?gen/(\w+)", line)
            k = m and owner(m.group(1), keys)
            if k:
                bad = True
                self.errors[k] = self.errors.get(k, "") + line + "\n"
        return bad

    def fields(self):
        return {"%s.%s" % (k, n): [[f["name"], hump(f["name"])] for f in self.models[k].fields(n)]
                for k in self.keys for n in self.models[k].of_kind("data")}

    def run(self, cmds, timeout=300, chunks=1):
        """performs the commands, one driver per chunk; returns the answers"""
        init = {"op": "init", "fields": self.fields()}

        def one(part):
            text = "\n".join(json.dumps(c) for c in [init] + part) + "\n"
            p = subprocess.run([os.path.join(self.app, "driver")], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=timeout)
            res = [json.loads(l) for l in p.stdout.splitlines()][1:]
            if p.returncode or len(res) != len(part):
                raise core.CheckError("driver: %d %s" % (p.returncode, p.stderr[-2000:]))
            return res
        size = max(1, (len(cmds) + chunks - 1) // chunks)
        res = []
        for r in self.ctx.pmap(one, [cmds[i:i + size] for i in range(0, len(cmds), size)]):
            res += r
        return res

    def source(self, key):
        """the generated files of a schema, for reports"""
        r = {}
        for n, b in core.tree(os.path.join(self.app, "gen")).items():
            if n.split("/")[0].split("_")[0] == key:
                r[n] = b.decode("utf-8", "replace")
        return r
