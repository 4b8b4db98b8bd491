"""Schemas for the forms and tables of Flutter, values for them and what is entered."""
import values, views
from names import *
from schema import *
from views import ui, NAMES
from dartrun import nullable

INPUTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "uint64", "bool", "float", "double", "string", "string", "string", "decimal"]
URLS = ["http://a/1.png", "https://b.c/x?y=1&z=2", "http"]
LOCALES = ["en", "zh", "de", "fr"]


class Schema(views.Schema):
    def field(self, fid, enums):
        rng = self.rng
        form = rng.choice(["text"] * 6 + ["click", "click", "file", "image", "image", "menu", "menu", "date", "date", "switch", ""])
        opt = rng.random() < 0.5
        if form == "menu" and not enums:
            form = "text"
        if form == "text":
            t = lst("string", False, opt) if rng.random() < 0.2 else typ(rng.choice(INPUTS), opt)
            if rng.random() < 0.15:
                t = typ(rng.choice(enums + ["date"]), opt)
        elif form == "click":
            t = rng.choice([typ(rng.choice(INPUTS + ["date"] + enums), opt), lst("string", False, opt), lst("int32", rng.random() < 0.5, opt)])
        elif form == "file":
            t = typ("string", opt)
        elif form == "image":
            t = rng.choice([typ("string", opt), lst("string", False, opt)])
        elif form == "menu":
            t = typ(rng.choice(enums), opt)
        elif form == "date":
            t = typ("date", opt)
        elif form == "switch":
            t = typ("bool", opt)
        else:
            t = typ(rng.choice(INPUTS + enums + ["date"]), opt)
        return self.make(fid, form, t, rng.random() < (0.35 if form == "text" and t["of"] in enums + ["date"] else 0.1), rng.random() < 0.4)

    def make(self, fid, form, t, only, checked):
        rng = self.rng
        kvs = [("form", form)] if form else []
        one = t["shape"] == "one"
        if rng.random() < 0.7 and (one or not t["opt"] and t["of"] in ("string", "int32")):
            kvs.append(("table", "image" if t["of"] == "string" and rng.random() < 0.4 else "text"))
        if only or rng.random() < 0.2:
            kvs.append(("onlyRead", "true" if only else "false"))
        for k, vs in (("digit", ["0", "1", "2", "3"]), ("format", ["yyyy-MM-dd", "HH:mm"]), ("width", ["80", "120.5", "200"]), ("height", ["80", "44.5"]), ("maxLine", ["3", "1"]),
                      ("maxCount", ["1", "3"]), ("clip", ["true", "false"]), ("index", ["0", "1", "7"]), ("unlink", ["true"]), ("toNull", ["true"])):
            if rng.random() < 0.25:
                kvs.append((k, rng.choice(vs)))
        if rng.random() < 0.25:
            kvs.append(("extensions", rng.choice(["png", "jpg"])))
        rng.shuffle(kvs)
        tags = self.lang("f")
        if kvs:
            tags.append(tag("ui", *kvs))
            for x in tags[-1]["kvs"]:
                if x["k"] == "extensions" and rng.random() < 0.5:
                    x["v"].append("gif")
        if one and t["of"] in INPUTS + ["date"] and t["of"] != "bool" and checked:
            self.n += 1
            n = "bad%d" % self.n
            self.fault["items"].append(item(n, self.n, [tag("format", *([("reg", "^#$")] if t["of"] == "string" else []), ("null", "true"))]))
            tags.append(tag("verify", ("format", "Fault." + n)))
        rng.shuffle(tags)
        return field(self.pool.pop(), t, fid, tags)


class Every(Schema):
    """every kind of field: of each control and each type it is for"""

    def __init__(self, rng, key):
        self.rng, self.n, self.fault = rng, 0, enum("Fault", [])
        one = [typ(of, o) for o in (False, True) for of in sorted(set(INPUTS)) + ["date", "aState"]]
        words = [lst("string", False, o) for o in (False, True)]
        numbers = [lst("int32", e, o) for e in (False, True) for o in (False, True)]
        of = lambda name: [t for t in one if t["of"] == name]
        kinds = [(form, t, only, checked) for form, ts in (("text", one + words), ("click", one + words + numbers), ("file", of("string")), ("image", of("string") + words),
                                                          ("menu", of("aState")), ("date", of("date")), ("switch", of("bool")), ("", one))
                 for t in ts for only in (False, True) for checked in (False, True)]
        rng.shuffle(kinds)
        ds = [enum("aState", [item("On", 0, self.lang("On")), item("not_ready", 7)], [tag("ui")])]
        for k in range(0, len(kinds), 12):
            self.pool = rng.sample(NAMES, len(NAMES))
            ds.append(data("all%d" % k, [self.make(i, *x) for i, x in enumerate(kinds[k:k + 12])], [], [tag("ui", ("form", "true"), ("table", "true"))]))
        self.files = tame(rng, {"a.hbuf": hfile(ds + [self.fault], [], (("go", key),))})


def scalar(rng, m, f):
    if f["type"]["of"] == "string" and "image" in (ui(f, "form"), ui(f, "table")) and rng.random() < 0.7:
        return {"k": "str", "v": rng.choice(URLS)}
    if f["type"]["of"] == "string" and ui(f, "form") == "image" and f["type"]["opt"]:
        return {"k": "str", "v": ""}
    return views.scalar(rng, m, f)


def value(rng, m, f):
    t = f["type"]
    if rng.random() < 0.3 and nullable(t):
        return {"k": "null"}
    if t["shape"] == "list":
        return {"k": "list", "l": [{"k": "null"} if t["opt"] and rng.random() < 0.3 else scalar(rng, m, f) for _ in range(rng.choice([0, 1, 2, 2]))]}
    return scalar(rng, m, f)


def data_value(rng, m, n):
    return {"k": "data", "m": [{"n": f["name"], "v": value(rng, m, f)} for f in m.fields(n)]}


def one_way(m, f):
    """a text that is not read back: the words of an item, a date in any format"""
    return ui(f, "form") == "text" and (f["type"]["of"] in m.decl or f["type"]["of"] == "date")


def texts(rng, of):
    """texts that are values of a type"""
    if of == "string":
        return ["", "#", "a", " b ", "x,y", "true", "\U0001F600"]
    if of == "bool":
        return ["true", "false"]
    if of == "decimal":
        return ["0", "-3", "1.5", "-0.25", "123456789012345678901234567890.12"]
    if of in ("float", "double"):
        return ["0", "-3", "1.5", "-0.25", "42", "100.125"]
    lo, hi = values.RANGE[of]
    return ["0", "7", "42", "007", str(lo), str(hi), str(hi - 1)]


def entries(rng, m, n):
    """[{"field", "entry"}]: what is entered into the controls of a form"""
    r = []
    for f in m.fields(n):
        form, t = ui(f, "form"), f["type"]
        null = nullable(t)
        if not form or ui(f, "onlyRead") == "true" or one_way(m, f):
            continue
        if form in ("text", "file"):
            if t["shape"] == "list":
                es = rng.sample(["", "a", "a,b", "a,,b c", ","], 3)
            else:
                ts = texts(rng, t["of"])
                es = rng.sample(ts, min(3, len(ts))) + ([""] if null else [])
            es = [{"k": "text", "v": x} for x in es]
        elif form == "image":
            es = [{"k": "urls", "l": rng.sample(URLS, k)} for k in (1, 2)]
            if t["shape"] == "list" or null:
                es.append({"k": "urls", "l": []})
        else:
            es = [value(rng, m, f) for _ in range(2)] + ([{"k": "null"}] if null or form == "switch" else [])
        r += [{"field": f["name"], "entry": e} for e in es]
    return r


def tried(rng, m, n):
    """[{"field", "text"}]: texts to ask the checks of controls about"""
    r = []
    for f in m.fields(n):
        if ui(f, "form") and any(t["name"] == "verify" for t in f["tags"]):
            of = f["type"]["of"]
            ts = [""] if of == "date" else texts(rng, of) + (["x", "12x", "1.5.2"] if of != "string" and ui(f, "form") in ("text", "file") else [])
            r += [{"field": f["name"], "text": x} for x in rng.sample(ts, min(3, len(ts)))]
    return r
