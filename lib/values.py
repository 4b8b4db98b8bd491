"""Random values of the schema language, and JSON as tagged trees (see Wire.tla).
A value: {"k":..., "v": text} / {"k":"list","l":[..]} / {"k":"map"/"data","m":[{"n","v"}]}"""
import decimal, json, random
from decimal import Decimal

decimal.getcontext().prec = 80

RANGE = {"int8": (-2**7, 2**7 - 1), "int16": (-2**15, 2**15 - 1), "int32": (-2**31, 2**31 - 1), "int64": (-2**63, 2**63 - 1),
         "uint8": (0, 2**8 - 1), "uint16": (0, 2**16 - 1), "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1)}
STRINGS = ["", "a", "Zoë", "x y", "\"quote\\\"", "line\nbreak", "日本語", "<&>", "null", "0", "a_b-C", "😀", "true"]


def canon(text):
    """one text for every number"""
    d = Decimal(text)
    if d == 0:
        return "0"
    s = format(d.normalize(), "f")
    return s


def scalar(rng, model, of):
    if of in RANGE:
        lo, hi = RANGE[of]
        return {"k": "int", "v": str(rng.choice([lo, hi, 0, 0, 1, max(lo, -1), rng.randint(lo, hi), rng.randint(max(lo, -99), 99)]))}
    if of == "bool":
        return {"k": "bool", "v": rng.choice(["true", "false"])}
    if of in ("float", "double"):
        return {"k": "num", "v": canon(rng.choice(["0", "1", "-1", "0.5", "-2.25", "1048576", "3.125", "0.0009765625", "1.5e9"]))}
    if of == "string":
        return {"k": "str", "v": rng.choice(STRINGS)}
    if of == "date":
        return {"k": "date", "v": str(rng.choice([0, 1, 1700000000123, 1700000000000, 999, -1000, 253402300799000]))}
    if of == "decimal":
        return {"k": "dec", "v": canon(rng.choice(["0", "1", "-1.5", "0.1", "123456789012345678901234567890.123456789", "1000000", "-0.000001"]))}
    d = model.decl[of]
    return {"k": "enum", "v": rng.choice(d["items"])["id"]}


def zero(model, of):
    if of in RANGE:
        return {"k": "int", "v": "0"}
    return {"bool": {"k": "bool", "v": "false"}, "float": {"k": "num", "v": "0"}, "double": {"k": "num", "v": "0"},
            "string": {"k": "str", "v": ""}, "date": {"k": "date", "v": "0"}, "decimal": {"k": "dec", "v": "0"}}.get(of) or \
        {"k": "enum", "v": model.decl[of]["items"][0]["id"]}


def one(rng, model, of, depth):
    if of in model.decl and model.decl[of]["kind"] == "data":
        return data(rng, model, of, depth - 1)
    return scalar(rng, model, of)


def key(rng, model, t):
    return scalar(rng, model, t["key"])["v"] if t["key"] != "float" else "1"


def value(rng, model, t, depth=3, p_null=0.3):
    """a value of a field type; depth limits nesting through optional references"""
    isdata = t["of"] in model.decl and model.decl[t["of"]]["kind"] == "data"
    if t["shape"] == "one":
        if t["opt"] and (rng.random() < p_null or isdata and depth <= 0):
            return {"k": "null"}
        return one(rng, model, t["of"], depth)
    if t["copt"] and rng.random() < p_null:
        return {"k": "null"}
    n = 0 if isdata and depth <= 0 else rng.choice([0, 1, 1, 2, 3])

    def elem():
        if t["opt"] and rng.random() < p_null:
            return {"k": "null"}
        return one(rng, model, t["of"], depth)
    if t["shape"] == "list":
        return {"k": "list", "l": [elem() for _ in range(n)]}
    return {"k": "map", "m": [{"n": k, "v": elem()} for k in sorted({key(rng, model, t) for _ in range(n)})]}


def data(rng, model, name, depth=None):
    depth = rng.choice([1, 2, 2, 3]) if depth is None else depth
    return {"k": "data", "m": [{"n": f["name"], "v": value(rng, model, f["type"], depth)} for f in model.fields(name)]}


# --------------------------------------------------------------- JSON trees
class Num(str):
    pass


def parse_json(text):
    """JSON text -> tagged tree; keeps repeated keys and the text of numbers"""
    def conv(x):
        if x is None:
            return {"k": "null"}
        if isinstance(x, bool):
            return {"k": "bool", "v": "true" if x else "false"}
        if isinstance(x, Num):
            return {"k": "num", "v": canon(x)}
        if isinstance(x, str):
            return {"k": "str", "v": x}
        if isinstance(x, list):
            return {"k": "arr", "l": [conv(y) for y in x]}
        return {"k": "obj", "m": [{"n": k, "v": conv(v)} for k, v in x.items]}

    class Obj:
        def __init__(self, items):
            self.items = items
    return conv(json.loads(text, parse_int=Num, parse_float=Num, object_pairs_hook=Obj))


def json_text(j):
    if j["k"] == "null":
        return "null"
    if j["k"] in ("bool", "num"):
        return j["v"]
    if j["k"] == "str":
        return json.dumps(j["v"], ensure_ascii=False)
    if j["k"] == "arr":
        return "[" + ",".join(json_text(x) for x in j["l"]) + "]"
    return "{" + ",".join(json.dumps(e["n"], ensure_ascii=False) + ":" + json_text(e["v"]) for e in j["m"]) + "}"


def canon_json(model, t, j):
    """one text for every decimal that is written as text"""
    if t["shape"] == "list" and j["k"] == "arr":
        return {"k": "arr", "l": [canon_json(model, dict(t, shape="one"), x) for x in j["l"]]}
    if t["shape"] == "map" and j["k"] == "obj":
        return {"k": "obj", "m": [{"n": e["n"], "v": canon_json(model, dict(t, shape="one"), e["v"])} for e in j["m"]]}
    if t["shape"] != "one":
        return j
    if t["of"] in model.decl and model.decl[t["of"]]["kind"] == "data" and j["k"] == "obj":
        from names import underline
        ft = {underline(f["name"]): f["type"] for f in model.fields(t["of"])}
        return {"k": "obj", "m": [{"n": e["n"], "v": canon_json(model, ft[e["n"]], e["v"]) if e["n"] in ft else e["v"]} for e in j["m"]]}
    if t["of"] == "decimal" and j["k"] == "str":
        try:
            return {"k": "str", "v": canon(j["v"])}
        except decimal.InvalidOperation:
            pass
    return j


def random_json(rng, model, v, t, p_drop=0.15, p_extra=0.15):
    """JSON another program might send for v: fields in any order, some left out, null, or unknown"""
    from names import underline
    if v["k"] == "null":
        return {"k": "null"}
    if v["k"] == "list":
        return {"k": "arr", "l": [random_json(rng, model, x, dict(t, shape="one"), p_drop, p_extra) for x in v["l"]]}
    if v["k"] == "map":
        return {"k": "obj", "m": [{"n": e["n"], "v": random_json(rng, model, e["v"], dict(t, shape="one"), p_drop, p_extra)} for e in v["m"]]}
    if v["k"] == "data":
        ft = {f["name"]: f["type"] for f in model.fields(t["of"])}
        m = []
        for e in v["m"]:
            r = rng.random()
            if r < p_drop:
                continue
            if e["v"]["k"] == "null" and r < 0.6:
                continue
            m.append({"n": underline(e["n"]), "v": {"k": "null"} if r > 1 - p_drop / 2 else random_json(rng, model, e["v"], ft[e["n"]], p_drop, p_extra)})
        names = {underline(n) for n in ft}
        if rng.random() < p_extra:
            n = rng.choice(["zzz", "Id", "unknown_field", "q"])
            if n.lower() not in {x.lower() for x in names}:
                m.append({"n": n, "v": rng.choice([{"k": "num", "v": "1"}, {"k": "obj", "m": []}, {"k": "str", "v": "x"}, {"k": "null"}])})
        rng.shuffle(m)
        return {"k": "obj", "m": m}
    kind = {"int": "num", "num": "num", "date": "num", "enum": "num", "str": "str", "bool": "bool", "dec": "str"}[v["k"]]
    if t["of"] in ("int64", "uint64"):
        kind = "str"
    return {"k": kind, "v": v["v"]}


# ------------------------------------------------- the form the Go driver uses
def to_driver(v, t=None, model=None):
    """map keys become values of the key type"""
    if v["k"] == "list":
        return {"k": "list", "l": [to_driver(x, dict(t, shape="one"), model) for x in v["l"]]}
    if v["k"] == "map":
        kk = "str" if t["key"] == "string" else "int" if t["key"] in RANGE else "enum"
        return {"k": "map", "m": [{"k": {"k": kk, "v": e["n"]}, "v": to_driver(e["v"], dict(t, shape="one"), model)} for e in v["m"]]}
    if v["k"] == "data":
        ft = {f["name"]: f["type"] for f in model.fields(t["of"])}
        return {"k": "data", "m": [{"n": e["n"], "v": to_driver(e["v"], ft[e["n"]], model)} for e in v["m"]]}
    return v


def from_driver(v):
    if v["k"] == "list":
        return {"k": "list", "l": [from_driver(x) for x in v.get("l") or []]}
    if v["k"] == "map":
        return {"k": "map", "m": [{"n": e["k"].get("v", ""), "v": from_driver(e["v"])} for e in v.get("m") or []]}
    if v["k"] == "data":
        return {"k": "data", "m": [{"n": e["n"], "v": from_driver(e["v"])} for e in v.get("m") or []]}
    if v["k"] in ("num", "dec"):
        return {"k": v["k"], "v": canon(v.get("v", "0"))}
    if v["k"] == "null":
        return {"k": "null"}
    return {"k": v["k"], "v": v.get("v", "")}


def plain(n):
    return {"shape": "one", "of": n, "opt": False, "copt": False, "key": "", "kopt": False}
