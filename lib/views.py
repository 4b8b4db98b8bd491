"""Schemas with [ui] and [lang] tags that make sense together, values for them and events at their items."""
import random
import values
from names import *
from schema import *

PICKERS = ["datetime", "date", "dates", "month", "year"]
INPUTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "string", "string", "decimal", "date"]
NAMES = ["userId", "user_name", "Kind", "memo", "bigOne", "x", "note", "state2", "createTime", "is_a", "total", "nick", "zone", "Y1", "level"]
TYPES = ["User", "user_log", "OrderItem", "box", "Ab_c", "Report"]
LANGS = ["en", "zh", "zhCn", "de", "FR"]


class Schema:
    def __init__(self, rng, key):
        self.rng = rng
        self.n = 0
        self.fault = enum("Fault", [])
        self.names = iter(())
        used = set()
        files = {}
        names = rng.sample(TYPES, rng.randint(1, 4))
        enums = rng.sample(["Mode", "user_kind", "aState"], rng.randint(1, 3))
        two = rng.random() < 0.5
        ds = {"a.hbuf": [], "b.hbuf": []}
        where = {}
        for e in enums:
            p = "b.hbuf" if two and rng.random() < 0.5 else "a.hbuf"
            where[e] = p
            ids = rng.sample([0, 1, 2, 5, 9, 100], rng.randint(1, 4))
            ds[p].append(enum(e, [item(n, i, self.lang(n)) for n, i in zip(rng.sample(["On", "off", "not_ready", "Level1"], len(ids)), ids)],
                              [tag("ui")] if rng.random() < 0.7 else []))
        for k, n in enumerate(names):
            p = "b.hbuf" if two and k < len(names) // 2 else "a.hbuf"
            where[n] = p
            bases = [b for b in names[:k] if (p == "a.hbuf" or where[b] == p) and rng.random() < 0.35][:1]
            self.pool = rng.sample(NAMES, len(NAMES))
            seen = {e for e in enums if p == "a.hbuf" or where[e] == p}
            fs = [self.field(fid, sorted(seen)) for fid in range(rng.randint(1, 6))]
            tags = []
            u = [(v, "true") for v in ("form", "table") if rng.random() < 0.8] + ([("form", "false")] if rng.random() < 0.1 else [])
            if u and rng.random() < 0.9:
                tags.append(tag("ui", *dict(u).items()))
            ds[p].append(data(n, fs, bases, tags))
        if self.fault["items"]:
            ds["b.hbuf" if two else "a.hbuf"].append(self.fault)
        for p in ds:
            if ds[p]:
                files[p] = hfile(ds[p], ["b.hbuf"] if two and p == "a.hbuf" and ds["b.hbuf"] else [], (("go", key),))
        self.files = tame(rng, files)

    def lang(self, name):
        rng = self.rng
        if rng.random() < 0.4:
            return []
        return [tag("lang", *[(l, "%s %s" % (l, rng.choice([name, "text", "", "'$1' & <x>", "${a}", "{b}"]))) for l in rng.sample(LANGS, rng.randint(1, 3))])]

    def field(self, fid, enums):
        rng = self.rng
        form = rng.choice(PICKERS + ["menu", "menu", "radio", "radioButton", "switch", "pass", "list", ""] + ["text"] * 8)
        opt = rng.random() < 0.5
        if not enums and form in ("menu", "radio", "radioButton"):
            form = "text"
        if form in PICKERS:
            t = lst("date", False, opt) if rng.random() < 0.5 else typ("date", opt)
        elif form in ("menu", "radio", "radioButton"):
            t = typ(rng.choice(enums), opt)
        elif form == "switch":
            t = typ("bool", opt)
        elif form == "pass":
            t = typ("string", opt)
        elif form == "list":
            t = lst("string", False, opt)
        else:
            t = typ(rng.choice(INPUTS + enums), opt)
        kvs = []
        if form:
            kvs.append(("form", form))
        if rng.random() < 0.7 and (t["shape"] == "one" or t["of"] == "string"):
            kvs.append(("table", "image" if t["of"] == "string" and t["shape"] == "one" and rng.random() < 0.4 else "switch" if t["of"] == "bool" and rng.random() < 0.5 else "text"))
        for k, vs in (("onlyRead", ["true", "true", "false"]), ("digit", ["0", "1", "2", "3"]), ("format", ["yyyy-MM-dd", "HH:mm"]), ("width", ["80", "120.5", "200"]),
                      ("unlink", ["true"]), ("maxLine", ["3"]), ("toNull", ["true"]), ("index", ["0", "1", "7"]), ("height", ["80", "44.5"]), ("maxCount", ["1", "3"]),
                      ("clip", ["true"]), ("extensions", ["png"])):
            if rng.random() < 0.3:
                kvs.append((k, rng.choice(vs)))
        rng.shuffle(kvs)
        tags = self.lang("f")
        if kvs:
            tags.append(tag("ui", *kvs))
        if t["shape"] == "one" and t["of"] in INPUTS and t["of"] not in ("bool", "date") and rng.random() < 0.35:
            self.n += 1
            n = "bad%d" % self.n
            self.fault["items"].append(item(n, self.n, [tag("format", *([("reg", "^#$")] if t["of"] == "string" else []), ("null", "true"))]))
            tags.append(tag("verify", ("format", "Fault." + n)))
        rng.shuffle(tags)
        return field(self.pool.pop(), t, fid, tags)


def date(rng):
    return {"k": "date", "v": str(rng.choice([0, 1, 86399999, 951782400000, 951868799999, 1709164800000, 1700000000123, 1735689599999, rng.randint(0, 2000000000000)]))}


def scalar(rng, m, f):
    of = f["type"]["of"]
    if of == "date":
        return date(rng)
    if of in ("float", "double", "decimal"):
        # nothing half way between two roundings
        v = "%s%d" % (rng.choice(["", "-"]), rng.choice([0, 1, 9, 99, 1234]))
        n = rng.randint(0, 4)
        if n:
            v += "." + "".join(rng.choice("01239") for _ in range(n - 1)) + rng.choice("123789")
        return {"k": "dec" if of == "decimal" else "num", "v": values.canon(v)}
    if of == "string":
        return {"k": "str", "v": rng.choice(["", "a", "x y", "<b>", "null"])}
    return values.scalar(rng, m, of)


def value(rng, m, f):
    t = f["type"]
    if rng.random() < 0.3 and (t["opt"] if t["shape"] == "one" else t["copt"]):
        return {"k": "null"}
    if t["shape"] == "list":
        return {"k": "list", "l": [scalar(rng, m, f) for _ in range(rng.choice([0, 1, 2, 2]))]}
    return scalar(rng, m, f)


def data_value(rng, m, n):
    return {"k": "data", "m": [{"n": f["name"], "v": value(rng, m, f)} for f in m.fields(n)]}


def ui(f, k):
    for t in f["tags"]:
        if t["name"] == "ui":
            for x in t["kvs"]:
                if x["k"] == k:
                    return x["v"][0]
    return ""


def events(rng, m, n):
    """[{"field", "event"}]"""
    r = []
    for f in m.fields(n):
        form, t = ui(f, "form"), f["type"]
        null = t["opt"] if t["shape"] == "one" else t["copt"]
        if not form:
            continue
        es = []
        if form in PICKERS:
            if t["shape"] == "list" or form == "dates":
                two = sorted([date(rng), date(rng)], key=lambda d: int(d["v"]))
                es.append({"k": "local", "l": [d["v"] for d in two]})
                if form == "dates":
                    es.append({"k": "local", "l": [d["v"] for d in two[:1]]})
            else:
                es.append({"k": "local", "v": date(rng)["v"]})
            if null:
                es.append({"k": "null"})
        elif form in ("menu", "radio", "radioButton", "switch"):
            es.append(values.scalar(rng, m, t["of"]))
            if null and form == "menu":
                es.append({"k": "null"})
        elif t["shape"] == "list":
            es.append({"k": "list", "l": [{"k": "str", "v": "a"}, {"k": "str", "v": "b c"}]})
        elif t["of"] in m.decl or t["of"] == "date":
            continue
        else:
            ts = ["", "true", "false", "x", "12x", "x12", "1.5", "-3", "-", "12-", "0", "007", "42", "-0.25", "1.", ".5", "1.2.3", " 7", "99.9"]
            if t["of"] in ("int64", "uint64"):
                ts += ["9223372036854775807", "9007199254740993"]
            if t["of"] == "uint64":
                ts += ["18446744073709551615"] * 3
            if t["of"] == "int64":
                ts += ["-9223372036854775808"] * 2
            if t["of"] == "decimal":
                ts = [x for x in ts if x not in ("1.", ".5")] + ["123456789012345678901234567890.12"]
            es += [{"k": "text", "v": x} for x in rng.sample(ts, 4)]
        r += [{"field": f["name"], "event": e} for e in es]
    return r


def split(v):
    """dates as days and milliseconds, for TLC"""
    if v["k"] == "date" and "v" in v and v["v"] != "NaN":
        d, t = divmod(int(v["v"]), 86400000)
        return {"k": "date", "d": d, "t": t}
    if v["k"] == "local":
        if "l" in v:
            return {"k": "list", "l": [split({"k": "date", "v": x}) for x in v["l"]]}
        return split({"k": "date", "v": v["v"]})
    if v["k"] == "list":
        return {"k": "list", "l": [split(x) for x in v["l"]]}
    if v["k"] in ("map", "data"):
        return {"k": v["k"], "m": [{"n": e["n"], "v": split(e["v"])} for e in v["m"]]}
    return v
