"""Generated TypeScript, bundled into one program per batch and driven through it."""
import json, os, re, shutil, subprocess
import core
from names import *
from schema import *

RT = os.path.join(core.VERIF, "rt", "ts")
NODE = "/opt/veriftools/node/node_modules"


def stem(path):
    return os.path.basename(path)[:-len(".hbuf")]


class TsBatch:
    """add() schemas, build(), then run() commands; the counterpart of gorun.GoBatch"""

    def __init__(self, ctx, views=False):
        """views: also the generated views; as the JSX compiler of vue does, v-model is taken apart"""
        self.ctx = ctx
        self.dir = ctx.dir()
        self.views = views
        for f in ("driver.ts", "jsx.ts"):
            shutil.copy(os.path.join(RT, f), self.dir)
        shutil.copytree(os.path.join(RT, "stub"), os.path.join(self.dir, "stub"))
        self.models = {}
        self.texts = {}
        self.results = {}
        self.errors = {}

    def add(self, key, files, texts=None):
        self.models[key] = Model(files)
        self.texts[key] = texts or {p: render(f) for p, f in files.items()}

    def compile(self):
        def one(key):
            d = os.path.join(self.dir, "src", key)
            core.write_files(d, self.texts[key])
            return key, self.ctx.compile(os.path.join(d, "*.hbuf"), os.path.join(self.dir, "gen", key), "ts")
        for key, r in self.ctx.pmap(one, sorted(self.models)):
            self.results[key] = r
            if r.verdict != "accept":
                self.errors[key] = r.out

            elif self.views:
                d = os.path.join(self.dir, "gen", key)
                for n in os.listdir(d):
                    if n.endswith(".tsx"):
                        with open(os.path.join(d, n), encoding="utf-8") as f:
                            text = f.read()
                        with open(os.path.join(d, n), "w", encoding="utf-8") as f:
                            f.write(re.sub(r"v-model=\{([^{}]*)\}", r"modelValue={\1} onUpdate:modelValue={($event: any) => \1 = $event}", text))

    def has(self, key, name, ext=".ts"):
        return os.path.exists(os.path.join(self.dir, "gen", key, name + ext))

    def registry(self, keys):
        imports, body = [], []
        for key in keys:
            m = self.models[key]
            alias = {}

            def mod(name):
                if name not in alias:
                    alias[name] = "m_%s_%d" % (key, len(alias))
                    imports.append('import * as %s from "./gen/%s/%s"' % (alias[name], key, name))
                return alias[name]
            for n in m.decl:
                k = m.decl[n]["kind"]
                f = stem(m.home[n])
                a = mod("%s.%s" % (f, k))
                for suffix in [""] if k != "server" else ["Client", "Router"]:
                    body.append('classes["%s.%s%s"] = (%s as any).%s%s' % (key, n, suffix, a, hump(n), suffix))
                if k == "data" and self.has(key, f + ".verify"):
                    v = mod(f + ".verify")
                    for x in m.fields(n):
                        body.append('verifies["%s.%s.%s"] = (%s as any).verify%s_%s' % (key, n, x["name"], v, hump(n), hump(x["name"])))
                if self.views and k == "data" and self.has(key, f + ".ui", ".tsx"):
                    for v, suffix in (("form", "FormItems"), ("table", "TableColumn")):
                        body.append('views["%s.%s.%s"] = (%s as any).%s%s' % (key, n, v, mod(f + ".ui"), hump(n), suffix))
                if k != "server" and self.has(key, f + ".lang"):
                    body.append('langs["%s.%s"] = (%s as any).%sLang' % (key, n, mod(f + ".lang"), first_lower(n)))
        return "\n".join(imports) + "\nexport const classes: Record<string, any> = {}\nexport const verifies: Record<string, any> = {}\n" \
            "export const langs: Record<string, any> = {}\nexport const views: Record<string, any> = {}\n" + "\n".join(body) + "\n"

    def build(self):
        self.compile()
        keys = [k for k in sorted(self.models) if k not in self.errors]
        for attempt in range(4):
            with open(os.path.join(self.dir, "registry.ts"), "w") as f:
                f.write(self.registry(keys))
            cmd = [os.path.join(NODE, ".bin", "esbuild"), "driver.ts", "--bundle", "--platform=node", "--outfile=driver.js", "--log-level=error", "--log-limit=0"] + \
                ["--alias:%s=./stub/%s/index.ts" % (n, d) for n, d in (("hbuf_ts", "hbuf_ts"), ("long", "long"), ("decimal.js", "decimal"), ("element-plus", "element-plus"), ("vue", "vue"))] + \
                ["--jsx=transform", "--jsx-factory=H", "--jsx-fragment=F", "--inject:./jsx.ts"]
            p = subprocess.run(cmd, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            if p.returncode == 0:
                break
            bad = False
            lines = p.stdout.splitlines()
            for i, line in enumerate(lines):
                g = re.match(r"\s*(?:gen/([A-Za-z0-9]+)/\S*|registry\.ts):\d+:\d+:", line)
                if g:
                    k = g.group(1)
                    if not k:
                        t = re.search(r"gen/([A-Za-z0-9]+)/", " ".join(lines[max(0, i - 1):i + 2]))
                        k = t.group(1) if t else None
                    if k in keys:
                        bad = True
                        self.errors[k] = self.errors.get(k, "") + "\n".join(lines[max(0, i - 1):i + 3]) + "\n"
            if not bad:
                raise core.CheckError("esbuild failed:\n" + p.stdout[:4000])
            keys = [k for k in keys if k not in self.errors]
        else:
            raise core.CheckError("esbuild failed")
        self.keys = keys
        return keys

    def init(self):
        return {"op": "init",
                "fields": {"%s.%s" % (k, n): [{"n": f["name"], "ts": first_lower(f["name"]), "t": f["type"]} for f in self.models[k].fields(n)]
                           for k in self.keys for n in self.models[k].of_kind("data")},
                "kinds": {"%s.%s" % (k, n): d["kind"] for k in self.keys for n, d in self.models[k].decl.items()}}

    def run(self, cmds, timeout=300, chunks=1):
        init = self.init()

        def one(part):
            text = "\n".join(json.dumps(c) for c in [init] + part) + "\n"
            p = subprocess.run(["node", "driver.js"], cwd=self.dir, env=dict(os.environ, TZ="UTC"), input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
            res = [json.loads(l) for l in p.stdout.splitlines()][1:]
            if p.returncode or len(res) != len(part):
                raise core.CheckError("TypeScript driver: %d %s" % (p.returncode, p.stderr[-2000:]))
            return res
        size = max(1, (len(cmds) + chunks - 1) // chunks)
        res = []
        for r in self.ctx.pmap(one, [cmds[i:i + size] for i in range(0, len(cmds), size)]):
            res += r
        return res

    def source(self, key):
        return {n: b.decode("utf-8", "replace") for n, b in core.tree(os.path.join(self.dir, "gen", key)).items()}


def from_driver(v):
    """numbers in canonical form"""
    from values import canon
    if v["k"] in ("num", "dec"):
        try:
            return {"k": v["k"], "v": canon(v["v"])}
        except Exception:
            return {"k": "bad", "v": v["v"]}
    if v["k"] == "list":
        return {"k": "list", "l": [from_driver(x) for x in v["l"]]}
    if v["k"] in ("map", "data"):
        return {"k": v["k"], "m": [{"n": e["n"], "v": from_driver(e["v"])} for e in v["m"]]}
    return v


def facts(batch):
    """what the type checker says: {schema: [error]}, {schema: [declaration]}"""
    p = subprocess.run(["node", os.path.join(RT, "facts.js"), os.path.join(NODE, "typescript"), batch.dir], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, timeout=600)
    if p.returncode:
        raise core.CheckError("type checker: " + p.stderr[-3000:])
    r = json.loads(p.stdout)
    decls = {}
    for d in r["decls"]:
        decls.setdefault(d.pop("key"), []).append(d)
    return r["errors"], decls
