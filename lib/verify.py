"""Schemas with validated fields, and values for them (see Verify.tla)."""
import datetime, json
import decimal
from decimal import Decimal
from schema import *
from names import underline
from values import RANGE

decimal.getcontext().prec = 80
LETTERS = ["a", "b", "c", "Z", "0", "1", "9", "é", "日", "_", "'", "/", "$", ".", " "]
SPECIAL = ["$", "."]           # in patterns within brackets only
WIDE = LETTERS + ["😀"]        # not in patterns


def number(text):
    d = Decimal(text)
    sign, digits, exp = d.as_tuple()
    s = format(abs(d), "f")
    i, _, f = s.partition(".")
    i, f = i.lstrip("0"), f.rstrip("0")
    return {"neg": sign == 1 and (i + f) != "", "int": [int(c) for c in i], "frac": [int(c) for c in f]}


def kind(of, model=None):
    if of in RANGE:
        return "int"
    return {"float": "num", "double": "num", "decimal": "dec", "date": "date", "string": "str", "bool": "bool"}.get(of) or \
        ("data" if model and model.decl[of]["kind"] == "data" else "enum")


# ----------------------------------------------------------------- patterns
def pattern(rng):
    atoms = []
    for _ in range(rng.randint(1, 3)):
        s = rng.sample(LETTERS[:-1], rng.randint(1, 4)) if rng.random() < 0.7 else list("0123456789")
        lo = rng.choice([0, 0, 1, 1, 2])
        atoms.append({"set": s, "lo": lo, "hi": lo + rng.choice([0, 1, 2, 4])})
        if atoms[-1]["hi"] == 0:
            atoms[-1]["hi"] = 1
    return {"from": rng.random() < 0.8, "to": rng.random() < 0.8, "atoms": atoms}


def reg_text(rng, rs, escapes=True):
    """the text of a pattern of several alternatives"""
    return "|".join(alternative(rng, r, escapes) for r in rs)


def alternative(rng, r, escapes):
    out = "^" if r["from"] else ""
    for a in r["atoms"]:
        if a["set"] == list("0123456789"):
            out += rng.choice(["[0-9]", "\\\\d"] if escapes else ["[0-9]"])
        elif len(a["set"]) == 1 and a["set"][0] not in SPECIAL:
            out += a["set"][0]
        else:
            out += "[" + "".join(a["set"]) + "]"
        lo, hi = a["lo"], a["hi"]
        if (lo, hi) == (1, 1):
            pass
        elif (lo, hi) == (0, 1) and rng.random() < 0.7:
            out += "?"
        elif lo == hi:
            out += "{%d}" % lo
        else:
            out += "{%d,%d}" % (lo, hi)
    return out + ("$" if r["to"] else "")


def like(rng, r):
    """a text that matches the pattern or nearly does"""
    s = []
    for a in r["atoms"]:
        s += [rng.choice(a["set"]) for _ in range(rng.randint(a["lo"], a["hi"]))]
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.random()
        if k < 0.4:
            s.insert(rng.randint(0, len(s)), rng.choice(WIDE))
        elif k < 0.7 and s:
            s.pop(rng.randrange(len(s)))
        elif s:
            s[rng.randrange(len(s))] = rng.choice(LETTERS)
    return s


# ------------------------------------------------------------------- schema
class Schema:
    """self.files; self.checked: data name -> its validated fields [(field, record of Verify.tla)];
    self.whole: the data that has a Verify of its own.  item names are keyed by "Enum.item"."""

    def __init__(self, rng, key, kinds=None, shapes=True, escapes=True):
        self.rng, self.key, self.escapes = rng, key, escapes
        self.formats = {}
        self.enums = []
        split = rng.random() < 0.5          # the formats are in a file of their own
        # one enum of ordinary values
        zero = rng.random() < 0.5
        vals = [("Off", 0 if zero else 1), ("On", 4), ("late_one", 7)]
        self.decls = [enum("Mode", [item(n, v) for n, v in vals]), data("Part", [field("a", typ("int32"), 0)])]
        self.zero = zero
        self.values = [v for _, v in vals]
        self.kinds = kinds or (list(RANGE) + ["float", "double", "string", "string", "date", "decimal", "bool", "Mode", "Part"])
        self.shapes = shapes
        self.enums = {n: [] for n in rng.sample(["Err", "user_fault", "ErrNo"], rng.randint(1, 2))}
        self.codes = {n: list(range(0, 60)) for n in self.enums}
        for c in self.codes.values():
            rng.shuffle(c)
        self.pool = {}
        self.records = {}
        self.fields = 0
        self.whole = set()
        names = []
        base = None
        n = rng.randint(2, 3)
        for k in range(n):
            name = ["Reg", "user_form", "OrderLine"][k]
            bases = []
            if base and rng.random() < 0.5:
                bases = [base]
            self.make(name, bases)
            names.append(name)
            base = name
        ed = [enum(n, items) for n, items in self.enums.items()]
        pk = [("go", key)]
        if split:
            pk2 = pk if rng.random() < 0.5 else [("go", key + "_x")]
            self.files = {"a.hbuf": hfile(self.decls, ["f.hbuf"], pk), "f.hbuf": hfile(ed, [], pk2)}
        else:
            self.files = {"a.hbuf": hfile(ed + self.decls, [], pk)}

    def format(self, of):
        """an item with a format that fits fields of this type, perhaps one that is there already"""
        rng = self.rng
        k = kind(of) if of != "Part" else "data"
        group = of if of in RANGE or of in ("float", "double") else k
        have = self.pool.setdefault(group, []) + (self.pool.setdefault("small", []) if k in ("int", "num", "dec", "str") else [])
        if have and rng.random() < 0.3:
            return rng.choice(have)
        en = rng.choice(sorted(self.enums))
        name = "%s%d" % (rng.choice(["bad", "tooLow", "not_ok", "Wrong"]), len(self.enums[en]))
        code = self.codes[en].pop()
        f = {"item": en + "." + name, "msg": "".join(p[:1].upper() + p[1:] for p in name.split("_")), "code": code, "on": rng.random() < 0.85,
             "null": rng.random() < 0.5, "min": [], "max": [], "reg": []}
        kvs = []
        texts = {}
        if rng.random() < 0.5 or f["null"]:
            kvs.append(("null", "true" if f["null"] else "false"))
        small = k in ("int", "num", "dec", "str") and rng.random() < 0.2
        lo, hi = self.bounds(of if not small else "int8")
        if small:
            lo, hi = str(rng.randint(0, 3)), str(rng.randint(3, 9))
            self.pool["small"].append(f)
        else:
            self.pool[group].append(f)
        if k in ("int", "num", "dec", "str", "date") and lo is not None:
            if rng.random() < 0.65:
                kvs.append(("min", lo))
                texts["min"] = lo
            if rng.random() < 0.65:
                kvs.append(("max", hi))
                texts["max"] = hi
            for x, t in texts.items():
                if k == "date":
                    t = str(int(datetime.datetime.strptime(t, "%Y-%m-%dT%H:%M:%SZ").replace(tzinfo=datetime.timezone.utc).timestamp()) * 1000)
                f[x] = [number(t)]
        if k == "str" and not small and rng.random() < 0.5:
            f["reg"] = [pattern(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            kvs.append(("reg", reg_text(rng, f["reg"], self.escapes)))
        rng.shuffle(kvs)
        self.enums[en].append(item(name, code, [tag("format", *kvs)] if f["on"] else []))
        if not f["on"]:
            f.update(null=False, min=[], max=[], reg=[])
        return f

    def bounds(self, of):
        rng = self.rng
        if of in RANGE:
            lo, hi = RANGE[of]
            a, b = sorted([rng.choice([lo, lo + 1, 0, 1, hi - 1]), rng.choice([hi, hi - 1, 100, 7, max(lo, -3)])])
            if rng.random() < 0.2:
                b = a
            return str(a), str(b)
        if of in ("float", "double"):
            a, b = sorted([rng.choice([-100.5, -0.25, 0, 0.5, 3]), rng.choice([-2, 0.25, 7.75, 1024.5])])
            return str(a), str(b)
        if of == "decimal":
            return rng.choice([("-0.000000001", "0.000000001"), ("0.1", "0.3"), ("-5", "1.05"), ("12345678901234567890.0000000001", "12345678901234567890.5"),
                               ("0", "100")])
        if of == "date":
            return rng.choice([("1970-01-01T00:00:00Z", "2024-02-29T23:59:59Z"), ("2001-09-09T01:46:40Z", "2001-09-09T01:46:40Z"), ("1969-12-31T00:00:00Z", "2100-01-01T00:00:00Z")])
        if of == "string":
            a = rng.choice([0, 1, 2, 3])
            return str(a), str(a + rng.choice([0, 1, 3]))
        return None, None

    def make(self, name, bases):
        rng = self.rng
        own, recs = [], []
        for b in bases:
            recs += self.records[b]
        for k in range(rng.randint(2, 6)):
            n = rng.choice(["age", "userName", "nick_name", "score", "Rank", "price", "when"]) + str(self.fields)
            self.fields += 1
            of = rng.choice(self.kinds)
            t = typ(of, rng.random() < 0.5)
            if self.shapes and rng.random() < 0.12:
                t = lst(of, rng.random() < 0.3, rng.random() < 0.6)
            elif self.shapes and rng.random() < 0.06:
                t = mapt(of, "string", copt=rng.random() < 0.6)
            opt = t["opt"] if t["shape"] == "one" else t["copt"]
            if rng.random() < 0.12:
                own.append(field(n, t, len(recs) + k))
                continue
            fs = []
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
                x = self.format(of)
                if all(x["item"] != y["item"] for y in fs):
                    fs.append(x)
            kvs = [("format", [x["item"] for x in fs])] if fs else []
            f = field(n, t, len(recs) + k, [tag("verify", *kvs)])
            own.append(f)
            recs.append((f, {"name": n, "kind": "data" if of == "Part" else kind(of), "shape": t["shape"], "opt": opt, "zero": self.zero, "formats": fs}))
        tags = []
        if rng.random() < 0.6:
            tags = [tag("verify")]
            self.whole.add(name)
        # ids must be unique in a data
        for k, f in enumerate(own):
            f["id"] = str(k + 10 * len(bases) * 3)
        self.records[name] = recs
        self.decls.append(data(name, own, bases=bases, tags=tags))

    # ----------------------------------------------------------------- values
    def value(self, f, rec):
        """(value of Verify.tla, value for the driver)"""
        rng, t = self.rng, f["type"]
        if rec["opt"] and rng.random() < 0.25:
            return {"k": "null"}, {"k": "null"}
        if t["shape"] != "one":
            n = rng.choice([1, 2]) if rec["opt"] else rng.choice([0, 1, 2])
            v = [self.scalar(t["of"], rec)[1] for _ in range(n)]
            d = {"k": "list", "l": v} if t["shape"] == "list" else {"k": "map", "m": [{"k": {"k": "str", "v": "k%d" % i}, "v": x} for i, x in enumerate(v)]}
            return {"k": "c", "empty": n == 0}, d
        return self.scalar(t["of"], rec)

    def typed(self, f, rec):
        """what may be typed for a field: (value of Forms.tla, the text)"""
        rng = self.rng
        v, d = self.scalar(f["type"]["of"], rec)
        if rec["kind"] == "str":
            s = "".join(v["s"]) if rng.random() < 0.9 else rng.choice(["null", "undefined", ""])
        elif rec["kind"] == "date":
            s = rng.choice(["", "never", "12 o'clock", "null"])
        else:
            s = d["v"]
            lo, hi = RANGE.get(f["type"]["of"], (0, 0))
            k = rng.random()
            if k < 0.15 and rec["kind"] == "int":
                s = str(rng.choice([lo - 1, hi + 1, lo, hi, hi * 10, -hi]))
            elif k < 0.25:
                s = rng.choice(["", "null", "undefined", "x", s + "x", "x" + s, s + " 1", "1 2", "-", "--1", "1..2", s + ".", s + "-"])
            elif k < 0.35:
                s = s + rng.choice([".0", ".5", "e1", "e-1", "E+2", ".e1", "e"]) if "." not in s else s + rng.choice(["0", "e2", "e-3", ".1"])
            elif k < 0.45:
                s = ("-" if s[:1] == "-" else "") + "0" * rng.randint(1, 3) + s.lstrip("-")
        return {"k": "t", "s": list(s)}, s

    def scalar(self, of, rec):
        rng = self.rng
        k = rec["kind"]
        if k == "enum":
            v = rng.choice(self.values + [99, 2])
            return {"k": "e", "known": v in self.values}, {"k": "enum", "v": str(v)}
        if k == "bool":
            return {"k": "b"}, {"k": "bool", "v": rng.choice(["true", "false"])}
        if k == "data":
            return {"k": "d"}, {"k": "data", "m": [{"n": "a", "v": {"k": "int", "v": "1"}}]}
        if k == "str":
            rs = [r for x in rec["formats"] for r in x["reg"]]
            if rs and rng.random() < 0.7:
                s = like(rng, rng.choice(rs))
            else:
                s = [rng.choice(WIDE) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6]))]
            return {"k": "s", "s": s}, {"k": "str", "v": "".join(s)}
        near = [x for y in rec["formats"] for x in y["min"] + y["max"]]
        texts = [("-" if n["neg"] else "") + ("".join(map(str, n["int"])) or "0") + ("." + "".join(map(str, n["frac"])) if n["frac"] else "") for n in near]
        step = {"int": ["0", "1", "-1"], "num": ["0", "0.25", "-0.25"], "dec": ["0", "0.0000000001", "-0.0000000001"], "date": ["0", "1", "-1"]}[k]
        if texts and rng.random() < 0.8:
            v = Decimal(rng.choice(texts)) + Decimal(rng.choice(step))
        else:
            v = Decimal(rng.choice(["0", "1", "-7", "100", "1000000"])) + (Decimal("0.5") if k in ("num", "dec") and rng.random() < 0.5 else 0)
        if k == "int":
            lo, hi = RANGE[of]
            v = min(max(v, lo), hi)
        s = str(int(v)) if k in ("int", "date") else format(v, "f")
        return {"k": "n", "n": number(s)}, {"k": {"int": "int", "num": "num", "dec": "dec", "date": "date"}[k], "v": s}


def replay(rng, cases):
    """a schema with a field for each list of formats of the cases of MC_Verify or MC_Forms:
    its files, [(field, case)] and {field name: data}"""
    fields, items, where = {}, {}, []
    for c in cases:
        f = c["field"]
        for x in f["formats"]:
            kvs = [("null", "true")] if x["null"] else []
            for b in ("min", "max"):
                kvs += [(b, "".join(map(str, n["int"])) or "0") for n in x[b]]
            kvs += [("reg", reg_text(rng, x["reg"]))] if x["reg"] else []
            items[x["item"]] = item(x["item"], x["code"], [tag("format", *kvs)] if x["on"] else [])
        of = f.get("of") or {"int": "int32", "str": "string"}[f["kind"]]
        k = (of, f["opt"], tuple(x["item"] for x in f["formats"]))
        if k not in fields:
            n = "f%d" % len(fields)
            kvs = [("format", ["E." + i for i in k[2]])] if k[2] else []
            fields[k] = field(n, typ(of, k[1]), len(fields), [tag("verify", *kvs)])
        where.append((fields[k], c))
    fs = list(fields.values())
    datas, home = [], {}
    for n in range(0, len(fs), 60):
        d = "D%d" % (n // 60)
        datas.append(data(d, fs[n:n + 60]))
        for f in fs[n:n + 60]:
            home[f["name"]] = d
    return {"a.hbuf": hfile([enum("E", list(items.values()))] + datas, [], [("go", "mc")])}, where, home
