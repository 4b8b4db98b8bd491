"""Random tables, types over them, and histories of their operations (see Db.tla)."""
import json, os, random, shutil
import core, gorun, values
from schema import *
from names import *

NOW = 1700000000000
STR = sorted(["", "a", "b c", "don't", "zz", "Zoë", "日本", "%", "?"], key=lambda s: s.encode())
DEC = ["0", "1", "-2.5", "0.125", "123456789012345678901234.5", "1000000"]
FLOAT = ["-2.25", "-1", "0", "0.5", "1", "3.75", "1000"]
INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
ENUM = [("Off", 0), ("On", 1), ("Late", 5)]
CMP = ["=", "=", "<>", "<", ">", "<=", ">="]


def cell(rng, of, null=0.0):
    """a random cell of a column"""
    if rng.random() < null:
        return {"k": "null"}
    if of in INTS:
        n = rng.randint(0, 5) if of[0] == "u" else rng.randint(-3, 5)
        return {"k": "int", "v": str(n), "i": n}
    if of == "bool":
        n = rng.randint(0, 1)
        return {"k": "bool", "v": "true" if n else "false", "i": n}
    if of == "string":
        n = rng.randrange(len(STR))
        return {"k": "str", "v": STR[n], "i": n}
    if of in ("float", "double"):
        n = rng.randrange(len(FLOAT))
        return {"k": "num", "v": FLOAT[n], "i": n}
    if of == "decimal":
        n = rng.randrange(len(DEC))
        return {"k": "dec", "v": DEC[n], "i": n}
    if of == "date":
        n = rng.choice([-5, -1, 0, 1, 7, 1000])
        return {"k": "date", "v": str(NOW + n * 1000), "i": n}
    if of == "State":
        n = rng.choice(ENUM)[1]
        return {"k": "enum", "v": str(n), "i": n}
    raise KeyError(of)


def ordinal(k, v):
    """the cell of a text"""
    if k == "str":
        return {"k": k, "v": v, "i": STR.index(v) if v in STR else -1}
    if k in ("num", "dec"):
        v = values.canon(v)
        pal = FLOAT if k == "num" else DEC
        return {"k": k, "v": v, "i": pal.index(v) if v in pal else -1}
    if k == "bool":
        return {"k": k, "v": v, "i": 1 if v == "true" else 0}
    if k == "date":
        n = int(v) - NOW
        return {"k": k, "v": v, "i": n // 1000 if abs(n) < 10**12 else -1}
    n = int(v)
    return {"k": k, "v": v, "i": n if abs(n) < 2**31 else -1}


KIND = {"bool": "bool", "string": "str", "float": "num", "double": "num", "decimal": "dec", "date": "date", "State": "enum"}


def kind(of):
    return KIND.get(of, "int")


def lean(j):
    """without the members that Go leaves out of an object"""
    if j["k"] == "arr":
        return {"k": "arr", "l": [lean(x) for x in j["l"]]}
    if j["k"] == "obj":
        return {"k": "obj", "m": sorted(([e["n"], lean(e["v"])] for e in j["m"] if e["v"]["k"] != "null" and e["v"].get("v") != ""), key=str)}
    return j


def json_cell(text):
    j = lean(values.parse_json(text))
    return {"k": "null"} if j["k"] == "null" else {"k": "json", "v": json.dumps(j, sort_keys=True), "i": 0}


class Table:
    """One table: a data type T with its columns, and other types over it.
    self.types: name -> {"own", "fields" (records of Db.tla), "ops", "types": {field: schema type}}"""

    def __init__(self, rng, key, cache=None):
        self.rng, self.key = rng, key
        r = rng.random
        self.fake = r() < 0.7
        self.tname = rng.choice(["Item", "user_info", "OrderLine"])
        opts = []
        self.name = underline(self.tname)
        if r() < 0.5:
            self.name = rng.choice(["items", "t_order", "x"])
            opts.append(("name", self.name))
        if r() < 0.3:
            opts.append(("schema", "shop"))
            self.name = "shop." + self.name
        if not self.fake or r() < 0.2:
            opts.append(("fake", "true" if self.fake else "false"))
        self.cache = cache
        cachetags = [] if cache is None else [tag("cache", *cache)]
        self.decls = [enum("State", [item(n, v) for n, v in ENUM]), data("Part", [field("a", typ("int32", True), 0), field("b_c", typ("string"), 1)])]
        self.cols = []          # (col, of, shape, opt)
        self.types = {}
        self.columns()
        ops = {}
        for o, p in (("insert", .9), ("inserts", .6), ("update", .9), ("set", .7), ("get", .9), ("list", .9)):
            if r() < p:
                ops[o] = "self"
        for o, p in (("del", .7), ("rm", .6), ("count", .7)):
            if r() < p:
                ops[o] = "true"
        ks = [f for f in self.own if f["shape"] == "one" and f["of"] in INTS + ["string", "State"] and not f["rec"]["conds"]
              and not f["opt"]]
        if r() < 0.7 and ks:
            ops["map"] = rng.choice(ks)["name"] + ":self"
        if r() < 0.25 and any(f["rec"]["get"] for f in self.own):
            ops["list"] = "parent"
        if r() < 0.25 and any(f["rec"]["set"] for f in self.own):
            for o in ("update", "set"):
                if o in ops and r() < 0.5:
                    ops[o] = "parent"
        if not ops:
            ops["list"] = "self"
        self.ops_of(self.tname, ops, self.own, True)
        items = list(opts) + [(o, v) for o, v in ops.items()]
        rng.shuffle(items)
        self.declare(self.tname, self.own, [tag("db", *items)] + cachetags)
        for n in range(rng.randint(1, 3)):
            self.query("Find%d" % n, cachetags)
        for n in range(rng.choice([0, 1, 1])):
            self.stat("Stat%d" % n, cachetags)
        for n in range(rng.choice([0, 1, 1, 2])):
            self.write("Edit%d" % n, cachetags)

    # ------------------------------------------------------------------ parts
    def rec(self, name, col, t, **kw):
        l = t["shape"] == "list"
        r = {"name": name, "col": col, "list": l, "opt": t["copt"] if l else t["copt"] if t["shape"] == "map" else t["opt"],
             "eopt": l and t["opt"], "key": False, "force": False,
             "get": "", "set": "", "conds": [], "order": "", "group": "", "limit": False, "offset": False}
        r.update(kw)
        return r

    def entry(self, name, t, rec, kvs, json=False):
        kvs = list(kvs)
        self.rng.shuffle(kvs)
        return {"name": name, "type": t, "shape": t["shape"], "of": t["of"], "opt": rec["opt"], "rec": rec, "json": json,
                "tags": [tag("db", *kvs)]}

    def columns(self):
        rng = self.rng
        names = rng.sample(["age", "userName", "nick_name", "score", "open", "birthDay", "price", "state", "memo", "Rank"], rng.randint(2, 6))
        fs = []
        keyat = rng.randint(0, 1)
        for n, name in enumerate(["id"] + names):
            kvs = []
            col = underline(name)
            if rng.random() < 0.25:
                col = "c_" + col
                kvs.append(("name", col))
            js = False
            if name == "id":
                t = typ(rng.choice(["int64", "int32", "string", "uint64"]), rng.random() < 0.2)
            else:
                of = rng.choice(INTS + ["bool", "string", "string", "float", "double", "decimal", "date", "date", "State"])
                t = typ(of, rng.random() < 0.5)
                if rng.random() < 0.2:
                    js = True
                    t = rng.choice([lst("string", copt=True), lst("int32", True), mapt("int64", "string", copt=rng.random() < .5), typ("Part", True),
                                    lst("Part", copt=rng.random() < .5)])
                    kvs.append(("converter", "json"))
            rec = self.rec(name, col, t)
            if name == "id":
                rec["key"] = True
                if keyat == 0 or rng.random() < 0.7:
                    kvs.append(("key", "true"))
                    keyat = 1
            if rec["opt"] and name != "id" and rng.random() < 0.3:
                rec["force"] = True
                kvs.append(("force", "true"))
            if not js and name != "id":
                if rng.random() < 0.2:
                    rec["get"] = "?"
                    kvs.append(("get", "?"))
                    if t["opt"] and rng.random() < 0.6:
                        rec["conds"] = [[self.alt(col, "=", t["of"])]]
                        kvs.append(("where", "AND %s %s ?" % (col, rec["conds"][0][0]["cmp"])))
                if rng.random() < 0.2:
                    rec["set"] = "?"
                    kvs.append(("set", "?"))
            fs.append(self.entry(name, t, rec, kvs, js))
        # without key=true the first column is the key
        if not any(k["k"] == "key" for f in fs for x in f["tags"] for k in x["kvs"]):
            pass
        else:
            rng.shuffle(fs)
        self.own = fs
        self.cols = [(f["rec"]["col"], f) for f in fs]

    def alt(self, col, cmp, of, frm="", arg=""):
        if of == "decimal" and cmp not in ("IN", "="):
            cmp = "="
        return {"col": col, "from": frm, "cmp": cmp, "arg": arg}

    def column(self, kinds=None):
        cs = [(c, f) for c, f in self.cols if not f["json"] and (kinds is None or f["of"] in kinds)]
        return self.rng.choice(cs) if cs else None

    def conditions(self, fs, minimum=0, named=False):
        """fields with conditions; named: one of them may name its column"""
        rng = self.rng
        for n in range(rng.randint(minimum, 3)):
            c, f = self.column()
            of = f["of"]
            name = "%s_%d" % (rng.choice(["min", "by", "want"]), n)
            k = rng.random()
            conj = "AND "
            if k < 0.25:        # IN
                t = lst(of, rng.random() < 0.2, rng.random() < 0.6)
                conds = [[self.alt(c, "IN", of)]]
                texts = [conj + "%s IN (?)" % c]
            elif k < 0.5:       # one condition for each element
                t = lst(of, rng.random() < 0.4, rng.random() < 0.5)
                conds = [[self.alt(c, rng.choice(CMP), of)] for _ in range(2)]
                if rng.random() < 0.5 and of != "decimal":
                    conds = [[self.alt(c, ">=", of)], [self.alt(c, "<", of)]]
                texts = [conj + "%s %s ?" % (x[0]["col"], x[0]["cmp"]) for x in conds]
            elif k < 0.7:       # alternatives
                t = typ(of, rng.random() < 0.5)
                c2, f2 = self.column([of])
                alts = [self.alt(c, rng.choice(CMP), of), self.alt(c2, rng.choice(CMP), of)]
                conds = [alts]
                texts = [conj + "(" + " OR ".join("%s %s ?" % (a["col"], a["cmp"]) for a in alts) + ")"]
            elif k < 0.85:          # the value of another field, or the values of a list
                other = [x for x in fs if x["rec"]["conds"] and x["of"] == of and (x["shape"] == "one" or not x["opt"] and len(x["rec"]["conds"]) == 1 and x["rec"]["conds"][0][0]["cmp"] == "IN")]
                t = typ(of, rng.random() < 0.5) if rng.random() < 0.6 else lst(of, rng.random() < 0.4, rng.random() < 0.6)
                if t["shape"] == "list" and not [x for x in other if x["shape"] == "list"] and rng.random() < 0.7:
                    w = lst(of, rng.random() < 0.2, False)
                    other = [self.entry(name + "_of", w, self.rec(name + "_of", underline(name + "_of"), w, conds=[[self.alt(c, "IN", of)]]), [("where", [conj + "%s IN (?)" % c])])]
                    fs += other
                if other:
                    o = rng.choice(other)
                    a = self.alt(c, "IN" if o["shape"] == "list" else rng.choice(CMP), of, arg=o["name"])
                    b = self.alt(c, rng.choice(CMP), of)
                    conds = rng.choice([[[a], [b]], [[b], [a]]])
                    texts = [conj + "%s %s" % (c, x["cmp"]) + (" (?{%s})" if x["cmp"] == "IN" else " ?{%s}") % x["arg"] if x["arg"] else conj + "%s %s ?" % (c, x["cmp"]) for x, in conds]
                elif t["shape"] == "list":
                    conds = [[self.alt(c, "IN", of)]]
                    texts = [conj + "%s IN (?)" % c]
                else:
                    conds = [[self.alt(c, rng.choice(CMP), of)]]
                    texts = [conj + "%s %s ?" % (c, conds[0][0]["cmp"])]
            elif k < 0.92 and named:      # the column is named by a field
                same = sorted({x for x, y in self.cols if not y["json"] and y["of"] == of})
                fs.append(dict(self.entry(name + "_col", typ("string"), self.rec(name + "_col", "c", typ("string")), []), pick=same))
                t = typ(of, rng.random() < 0.5)
                conds = [[self.alt("", rng.choice(CMP), of, frm=name + "_col")]]
                texts = [conj + "${%s_col} %s ?" % (name, conds[0][0]["cmp"])]
            else:
                t = typ(of, rng.random() < 0.5)
                conds = [[self.alt(c, rng.choice(CMP), of)] for _ in range(rng.choice([1, 1, 2]))]
                texts = [conj + "%s %s ?" % (x[0]["col"], x[0]["cmp"]) for x in conds]
            rec = self.rec(name, underline(name), t, conds=conds)
            fs.append(self.entry(name, t, rec, [("where", texts)]))
        return fs

    def ops_of(self, name, ops, fs, own):
        self.types[name] = {"own": own, "ops": ops, "fields": fs}

    def declare(self, name, fs, tags):
        """a type with these fields, the first of which may be inherited"""
        rng = self.rng
        out = [field(f["name"], f["type"], n, f["tags"]) for n, f in enumerate(fs)]
        bases = []
        if rng.random() < 0.3 and len(fs) > 1:
            cut = rng.randint(1, len(fs) - 1)
            parts = [out[:cut]] if cut < 2 or rng.random() < 0.5 else [out[:1], out[1:cut]]
            out = out[cut:]
            above = []
            for n, part in enumerate(parts):
                b = "%s%d" % (rng.choice(["base_of", "BaseOf"]) + name, n)
                nest = n > 0 and rng.random() < 0.5     # a base of the base, or two bases
                self.decls.append(data(b, part, bases=above if nest else []))
                above = [b] if nest or not n else above + [b]
            bases = above
        self.decls.append(data(name, out, bases=bases, tags=tags))

    def over(self, name, ops, fs, cachetags):
        rng = self.rng
        items = [("table", self.tname)] + list(ops.items())
        rng.shuffle(items)
        fs = list(fs)
        rng.shuffle(fs)
        self.declare(name, fs, [tag("db", *items)] + cachetags)
        self.ops_of(name, ops, fs, False)

    def query(self, name, cachetags):
        rng = self.rng
        fs = self.conditions([], named=True)
        for n in range(rng.choice([0, 1, 1, 2])):
            c = self.column()
            if c[1]["of"] == "decimal":
                continue
            t = typ("string", rng.random() < 0.5)
            fs.append(self.entry("sort%d" % n, t, self.rec("sort%d" % n, "s", t, order=c[0]), [("order", c[0] + " $")]))
        if rng.random() < 0.6:
            t = typ(rng.choice(["int32", "int64"]))
            fs.append(self.entry("limit", t, self.rec("limit", "limit", t, limit=True), [("limit", "?")]))
            if rng.random() < 0.7:
                t = typ(rng.choice(["int32", "int64"]))
                fs.append(self.entry("offset", t, self.rec("offset", "offset", t, offset=True), [("offset", "?")]))
        if not fs:
            fs = self.conditions([], 1)
        paged = any(f["rec"]["offset"] for f in fs)
        ops = {}
        for o, p in (("list", .8), ("get", .6)):
            if rng.random() < p:
                ops[o] = "parent"
        for o, p in (("count", .7), ("del", .4), ("rm", .4)):
            if rng.random() < p and not (paged and o in ("del", "rm")):
                ops[o] = "true"
        ks = [f["name"] for f in self.own if f["shape"] == "one" and not f["opt"] and f["of"] in INTS + ["string", "State"] and (f["rec"]["get"] or not f["rec"]["conds"])]
        if rng.random() < 0.5 and ks:
            ops["map"] = rng.choice(ks) + ":parent"
        if not ops:
            ops["list"] = "parent"
        self.over(name, ops, fs, cachetags)

    def stat(self, name, cachetags):
        """aggregates, possibly by group"""
        rng = self.rng
        fs = self.conditions([])
        for n in range(rng.randint(1, 3)):
            fn = rng.choice(["COUNT", "MAX", "MIN", "SUM"])
            c = self.column(["int8", "int16", "int32", "int64", "uint8"] if fn == "SUM" else None if fn == "COUNT" else INTS + ["date", "string", "State"])
            if c is None:
                fn, c = "COUNT", self.column()
            t = typ("int64") if fn == "COUNT" else typ("int64", True) if fn == "SUM" else typ(c[1]["of"], True)
            fs.append(self.entry("v%d" % n, t, self.rec("v%d" % n, c[0], t, get=fn), [("get", fn + "(?)"), ("name", c[0])]))
        for n in range(rng.choice([0, 1, 1, 2])):
            c = self.column(INTS + ["string", "State", "bool"])
            if c is None:
                continue
            t = typ(c[1]["of"], True)
            # without a value there is no group: give it always one
            f = self.entry("g%d" % n, t, self.rec("g%d" % n, c[0], t, get="?", group=c[0]), [("get", "?"), ("name", c[0]), ("group", c[0])])
            f["always"] = True
            fs.append(f)
        ops = {}
        for o, p in (("list", .8), ("get", .6)):
            if rng.random() < p:
                ops[o] = "self"
        ops = ops or {"list": "self"}
        self.over(name, ops, fs, cachetags)

    def write(self, name, cachetags):
        """a type that sets some columns where its conditions hold"""
        rng = self.rng
        conds = self.conditions([])
        fs = []
        for c, f in rng.sample(self.cols, min(len(self.cols), rng.randint(1, 3))):
            t = f["type"]
            if f["shape"] == "one" and rng.random() < 0.5:
                t = dict(t, opt=True)
            n = "new_" + underline(f["name"])
            rec = self.rec(n, c, t, set="?")
            kvs = [("set", "?"), ("name", c)]
            if not f["json"] and f["of"] in ("int32", "int64") and rng.random() < 0.5:
                rec["set"] = "ADD"
                kvs = [("set", c + " + ?"), ("name", c)]
            if f["json"]:
                kvs.append(("converter", "json"))
            if rec["opt"] and f["rec"]["opt"] and rng.random() < 0.3:
                rec["force"] = True
                kvs.append(("force", "true"))
            fs.append(dict(self.entry(n, t, rec, kvs, f["json"]), nonnull=not f["rec"]["opt"]))
        ops = {}
        for o, p in (("update", .8), ("set", .5)):
            if rng.random() < p:
                ops[o] = "self"
        if not any(x["rec"]["set"] == "ADD" for x in fs) and {f["rec"]["col"] for f in fs} >= {c for c, f in self.cols if not f["rec"]["opt"]}:
            ops["insert"] = "self"
        self.over(name, ops or {"update": "self"}, conds + fs, cachetags)

    # ------------------------------------------------------------------ values
    def file(self):
        return hfile(self.decls, [], [("go", self.key)])

    def value(self, f):
        """a value of a field, in the form of Db.tla and of the driver"""
        rng, t = self.rng, f["type"]
        r = f["rec"]
        if f["json"]:
            m = self.model
            v = values.value(rng, m, t, 1)
            return self.of_json(v, t), values.to_driver(v, t, m)
        if r["order"]:
            s = rng.choice(["ASC", "DESC", "ASC", "DESC", "up", ""])
            if t["opt"] and rng.random() < 0.3:
                return {"k": "null"}, {"k": "null"}
            return {"k": "str", "v": s, "i": 0}, {"k": "str", "v": s}
        if r["limit"] or r["offset"]:
            n = rng.choice([1, 1, 2, 3, 5, 0]) if r["limit"] else rng.choice([0, 0, 1, 2, 4])
            c = {"k": "int", "v": str(n), "i": n}
            return c, {"k": "int", "v": str(n)}
        if f.get("pick"):
            s = rng.choice(f["pick"])
            return {"k": "str", "v": s, "i": 0}, {"k": "str", "v": s}
        if t["shape"] == "list":
            if t["copt"] and rng.random() < 0.2:
                return {"k": "null"}, {"k": "null"}
            n = rng.choice([0, 1, 2, 2, 3]) if t["copt"] or len(r["conds"]) > 1 else rng.choice([1, 2, 3])
            l = [cell(rng, t["of"], 0.25 if t["opt"] else 0) for _ in range(n)]
            return {"k": "list", "l": l}, {"k": "list", "l": [{"k": c["k"], "v": c.get("v", "")} for c in l]}
        c = cell(rng, t["of"], 0 if not t["opt"] or f.get("always") else 0.35)
        return c, {"k": c["k"], "v": c.get("v", "")}

    def of_json(self, v, t):
        if v["k"] == "null":
            return {"k": "null"}
        return json_cell(values.json_text(values.random_json(random.Random(0), self.model, v, t, 0, 0)))

    def args(self, name, key=None, byset=False):
        """values of all fields of a type; key: one of the existing keys"""
        g, d = {}, []
        for f in self.types[name]["fields"]:
            c, v = self.value(f)
            if byset and f.get("nonnull") and c["k"] == "null":
                c = cell(self.rng, f["of"])
                v = {"k": c["k"], "v": c["v"]}
            if self.types[name]["own"] and f["name"] == "id":
                c = key
                v = {"k": c["k"], "v": c["v"]}
            g[f["name"]] = c
            d.append({"n": f["name"], "v": v})
        return g, {"k": "data", "m": d}

    def table(self):
        return {"fake": self.fake, "cols": [c for c, _ in self.cols] + (["delete_time"] if True else []),
                "fields": [f["rec"] for f in self.own], "own": True}

    def dump(self):
        """the empty table, for the driver"""
        kinds = {c: "json" if f["json"] else {"int": "int", "bool": "int", "enum": "int", "num": "num", "date": "date"}.get(kind(f["of"]), "str")
                 for c, f in self.cols}
        kinds["delete_time"] = "date"
        return {"app_" + self.name: {"cols": [c for c, _ in self.cols] + ["delete_time"], "rows": [], "kind": kinds}}

    def rows(self, tables):
        """rows of the driver as rows of Db.tla"""
        t = tables["app_" + self.name]
        col = dict(self.cols)
        res = []
        for row in t["rows"]:
            r = {}
            for c, s in zip(t["cols"], row):
                if s is None:
                    r[c] = {"k": "null"}
                elif c == "delete_time":
                    r[c] = ordinal("date", s)
                elif col[c]["json"]:
                    r[c] = json_cell(s)
                elif col[c]["of"] == "bool":
                    r[c] = ordinal("bool", {"0": "false", "1": "true"}.get(s, s))
                else:
                    r[c] = ordinal(kind(col[c]["of"]), s)
            res.append(r)
        return res

    def result(self, name, v):
        """a data value of the driver as a function from fields to cells"""
        fs = {f["name"]: f for f in self.types[name]["fields"]}
        r = {}
        for e in v.get("m") or []:
            f, x = fs[e["n"]], e["v"]
            if f["json"]:
                r[e["n"]] = self.of_json(values.from_driver(x), f["type"])
            elif x["k"] == "null":
                r[e["n"]] = {"k": "null"}
            elif x["k"] in ("list", "map", "data"):
                r[e["n"]] = {"k": "null"}
            else:
                r[e["n"]] = ordinal(x["k"], x.get("v", ""))
        return r

    def returned(self, name, op):
        """the type that a read gives"""
        t = self.types[name]
        return name if t["own"] or t["ops"][op].split(":")[-1] == "self" else self.tname


METHOD = {"insert": "DbInsert", "inserts": "DbInsertList", "update": "DbUpdate", "set": "DbSet", "del": "DbDel", "rm": "DbRemove",
          "get": "DbGet", "list": "DbList", "map": "DbMap", "count": "DbCount"}
WRITES = ["insert", "inserts", "update", "set", "del", "rm"]


def history(rng, tab, length, weights, faults=0.0, again=0.0):
    """commands of the driver with the steps they stand for"""
    ids = [cell(rng, next(f["of"] for f in tab.own if f["name"] == "id")) for _ in range(4)]
    cmds, steps = [{"op": "tables", "tables": tab.dump()}], [None]
    choices = [(n, o, weights.get(o, 1) * (3 if t["own"] and o in ("insert", "inserts") else 1)) for n, t in sorted(tab.types.items())
               for o in sorted(t["ops"]) if weights.get(o, 1)]
    asked = []
    for k in range(length):
        if asked and rng.random() < again:      # ask the same again
            c, s = rng.choice(asked[-3:])
            c, s = {x: y for x, y in c.items() if x != "fail"}, dict(s, fail=[])
            if rng.random() < faults:
                s["fail"] = c["fail"] = rng.sample(["query", "get", "set"], 1)
            cmds.append(c)
            steps.append(s)
            continue
        n, o, _ = rng.choices(choices, [w for _, _, w in choices])[0]
        t = tab.types[n]
        g, d = tab.args(n, rng.choice(ids), o == "set" or o == "insert")
        c = {"op": "db", "type": tab.key + "." + n, "method": METHOD[o], "value": d}
        scope, _, _ = t["ops"][o].rpartition(":")
        s = {"op": {"op": o, "scope": t["ops"][o].split(":")[-1], "key": scope}, "type": n, "g": g, "list": []}
        if o == "inserts":
            c["values"] = []
            for _ in range(rng.choice([0, 1, 2, 3])):
                g2, d2 = tab.args(n, rng.choice(ids))
                s["list"].append(g2)
                c["values"].append(d2)
        if rng.random() < faults:
            c["fail"] = rng.sample(["exec", "query", "get", "set", "del"], rng.choice([1, 1, 2]))
        s["fail"] = c.get("fail", [])
        if o not in WRITES:
            asked.append((c, s))
        cmds.append(c)
        steps.append(s)
    return cmds, steps


def record(tab, steps, answers):
    """what happened, for DbTrace.tla; None where the driver has no answer"""
    res, before = [], []
    for s, a in zip(steps, answers):
        if s is None:
            before = []
            continue
        r = dict(s)
        r["before"] = before
        r["panic"] = a.get("panic") or ("" if "tables" in a else a.get("err") or "no answer")
        r["err"] = bool(a.get("err"))
        r["count"], r["result"] = 0, []
        r["after"] = before
        if not r["panic"]:
            r["after"] = before = tab.rows(a["tables"])
            out = a.get("result") or []
            o = s["op"]["op"]
            if o in WRITES or o == "count":
                n = int(out[0].get("v", "0"))
                r["count"] = n if abs(n) < 2**31 else -1
            elif not r["err"]:
                ret = tab.returned(s["type"], o)
                v = out[0]
                if o == "get":
                    r["result"] = [] if v["k"] == "null" else [tab.result(ret, v)]
                elif o == "list":
                    r["result"] = [tab.result(ret, x) for x in v.get("l") or []]
                else:
                    r["result"] = [dict(tab.result(ret, e["v"]), **{"": ordinal(e["k"]["k"], e["k"].get("v", ""))}) for e in v.get("m") or []]
        r["log"] = [x.split(" ")[0] for x in a.get("log") or []]
        r["locked"] = bool(a.get("locked"))
        r["ttl"] = a.get("ttl") or []
        r["fields"] = [f["rec"] for f in tab.types[s["type"]]["fields"]]
        r["own"] = tab.types[s["type"]]["own"]
        res.append(r)
    return {"table": tab.table(), "steps": res}
