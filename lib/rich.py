"""Schemas that use every tag the generators act upon, with values that make sense."""
from schema import *

UI_FORM = ["text", "text", "select", "date", "datetime", "dates", "month", "year", "menu", "radio", "radioButton", "pass", "switch", "image", "file"]
UI_TABLE = ["text", "text", "image", "switch"]
UI_MORE = [("onlyRead", "true"), ("width", "120.5"), ("height", "80"), ("digit", "2"), ("format", "yyyy-MM-dd"), ("toNull", "true"), ("maxLine", "3"),
           ("clip", "true"), ("unlink", "true"), ("maxCount", "2"), ("extensions", ["png", "jpg"])]


def langs(rng, name):
    return tag("lang", *[(k, k[0] + " " + name) for k in rng.sample(["zh", "en", "de", "fr", "ja", "ru"], rng.choice([1, 2, 2, 4, 6]))])


def rich_tags(rng, kind, name, enums, fmt):
    """tags of a member; fmt: names of "Enum.Item" formats in the same file"""
    ts = []
    if kind == "field":
        if rng.random() < 0.4:
            ts.append(tag("db", *rng.sample([("where", "AND %s = ?" % name), ("force", "true"), ("set", "?"), ("get", "MAX(?)")],
                                            rng.choice([0, 0, 1]))))
        if fmt and rng.random() < 0.3:
            ts.append(tag("verify", ("format", rng.sample(fmt, rng.randint(1, min(2, len(fmt)))))))
        if rng.random() < 0.3:
            ts.append(tag("ui", ("form", rng.choice(UI_FORM)), ("table", rng.choice(UI_TABLE)), ("index", str(rng.randint(0, 9))),
                         *rng.sample(UI_MORE, rng.choice([0, 0, 1, 3]))))
        if rng.random() < 0.3:
            ts.append(langs(rng, name))
    elif kind == "item":
        if rng.random() < 0.4:
            ts.append(langs(rng, name))
        if rng.random() < 0.5:
            ts.append(tag("format", *rng.sample([("min", "1"), ("max", "9"), ("null", "true")], rng.randint(1, 3))))
    elif kind == "method":
        if rng.random() < 0.3:
            ts.append(tag("tag", *[(k, rng.sample(["x", "y", "z", "a b"], rng.choice([1, 1, 2, 3])))
                                   for k in rng.sample(["auth", "role", "level", "scope", "audit", "k9"], rng.randint(1, 6))]))
    elif kind == "data":
        if rng.random() < 0.4:
            ts.append(tag("db", ("name", name.lower()), *rng.sample([("insert", "self"), ("list", "self"), ("count", "true"),
                                                                   ("inserts", "self")], rng.randint(0, 4))))
            if rng.random() < 0.3:
                ts.append(tag("cache", ("min", "1"), ("max", "5")))
        if rng.random() < 0.3:
            ts.append(tag("ui", ("form", "true"), ("table", "true")))
        if rng.random() < 0.3:
            ts.append(tag("verify"))
    elif kind == "enum":
        if rng.random() < 0.3:
            ts.append(tag("ui", ("form", "true")))
    return [t for t in ts if t["kvs"] or t["name"] in ("db", "verify")]


FEATURES = ["db", "verify", "ui", "lang"]


def decorate(rng, files, features=FEATURES, force=False):
    """Adds active tags of the given kinds to the declarations of every file; with
    force every kind is used at least once, so that the set of generated files does
    not depend on chance."""
    for p, f in files.items():
        fmt = [d["name"] + "." + i["name"] for d in f["decls"] if d["kind"] == "enum" for i in d["items"]]
        for d in f["decls"]:
            d["tags"] = rich_tags(rng, d["kind"], d["name"], [], fmt)
            for k, ms in (("field", d["fields"]), ("item", d["items"]), ("method", d["methods"])):
                for m in ms:
                    ts = rich_tags(rng, k, m["name"], [],
                                          fmt if k != "field" or m["type"]["of"] != "date" else [])
                    m["tags"] = [t for t in ts if t["name"] in features or t["name"] not in FEATURES]
            d["tags"] = [t for t in d["tags"] if t["name"] in features or (t["name"] not in FEATURES + ["cache"])
                         or (t["name"] == "cache" and "db" in features)]
        if force:
            e = [d for d in f["decls"] if d["kind"] == "enum" and d["items"]][0]
            x = [d for d in f["decls"] if d["kind"] == "data" and d["fields"]][0]
            v = [y for y in x["fields"] if y["type"]["of"] in BASE and y["type"]["of"] != "date" and y["type"]["shape"] == "one"][:1]
            if "ui" in features and not any(t["name"] == "ui" for t in e["tags"]):
                e["tags"].append(tag("ui", ("form", "true")))
            if "ui" in features:
                x["tags"] = [t for t in x["tags"] if t["name"] != "ui"] + [tag("ui", ("form", "true"), ("table", "true"))]
                if not any(t["name"] == "ui" for t in v[0]["tags"]):
                    v[0]["tags"].append(tag("ui", ("form", "text"), ("table", "text")))
            if "db" in features and not any(t["name"] == "db" for t in x["tags"]):
                x["tags"].append(tag("db", ("list", "self")))
            if "verify" in features and v and not any(t["name"] == "verify" for t in v[0]["tags"]):
                v[0]["tags"].append(tag("verify", ("format", fmt[0])))
    return files
