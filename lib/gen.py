"""Seeded random schemas."""
import copy
from schema import *

NAMES = ["User", "Order", "Item", "NickName", "A", "B1", "UserInfo", "user_log", "Box", "GoodsList", "Z9x", "Ab_c", "_Part"]
FIELDS = ["id", "name", "nickName", "big_one", "BigTwo", "x", "a1", "status2", "createTime", "uRL", "f_g_h", "kind",
          "userId", "Total", "tmp", "e", "zone", "val", "memo", "by_x1_of", "p_2d", "_lead"]
ITEMS = ["On", "Off", "NotReady", "high_low", "z", "Level1", "aB", "to_v2_end", "_top"]
METHODS = ["get", "getInfo", "setName", "List_all", "Ping", "del", "x", "of_b2_all", "_hid"]
PARAMS = ["req", "req", "req", "user_req", "param", "ctx", "type", "new", "r", "s", "ret", "err", "json", "delete", "client", "hbuf"]
SERVERS = ["UserServer", "Admin", "BaseApi", "log_server", "S1", "_sub_srv"]


def pick_type(rng, datas, enums, keys=None, p_coll=0.35):
    of = rng.choice(BASE) if (rng.random() < 0.65 or not (datas or enums)) else rng.choice(datas + enums)
    r = rng.random()
    if r < 1 - p_coll:
        opt = rng.random() < 0.4
        if of in datas:
            opt = opt or rng.random() < 0.5
        return typ(of, opt)
    if r < 1 - p_coll / 2:
        return lst(of, rng.random() < 0.3, rng.random() < 0.3)
    key = rng.choice((keys or BASE) + enums if rng.random() < 0.3 else ["string", "int32", "int64"])
    return mapt(of, key, rng.random() < 0.3, rng.random() < 0.3)


def schema(rng, nfiles=2, max_decls=5, pkgs=(("go", "demo"),), servers=True, names=NAMES, valid=True, paths=None):
    """A set of files {path: file} that follows all rules."""
    paths = paths or ["%s.hbuf" % c for c in "abcdef"[:nfiles]]
    files = {}
    pool = list(names)
    rng.shuffle(pool)
    spool = list(SERVERS)
    rng.shuffle(spool)
    decls = {}          # path -> list
    order = list(paths)
    edges = {p: [] for p in paths}
    for i, p in enumerate(paths):
        for q in paths[:i]:
            if rng.random() < 0.6:
                edges[p].append(q)
        if i and rng.random() < 0.15:
            q = rng.choice(paths[:i])
            edges[q].append(p)          # a cycle
    used = {}
    for p in order:
        vis = [p] + edges[p]
        decls[p] = []
        kinds = [rng.choice(["data", "data", "data", "enum"] + (["server"] if servers else [])) for _ in range(rng.randint(1, max_decls))]
        for k in kinds:
            if k == "server":
                if not spool:
                    continue
                n = spool.pop()
            else:
                if not pool:
                    continue
                n = pool.pop()
            d = decl(k, n)
            decls[p].append(d)
            used[n] = (p, k, d)
        files[p] = hfile(decls[p], [relative(p, q) for q in edges[p]], pkgs)
    kind = {n: k for n, (p, k, d) in used.items()}
    for p in order:
        vis = {p} | set(edges[p])
        datas = [n for n, (q, k, _) in used.items() if k == "data" and q in vis]
        enums = [n for n, (q, k, _) in used.items() if k == "enum" and q in vis]
        servs = [n for n, (q, k, _) in used.items() if k == "server" and q in vis]
        for d in decls[p]:
            if d["kind"] == "data":
                earlier = [n for n in datas if before(n, d["name"], used, order)]
                if earlier and rng.random() < 0.45:
                    d["bases"] = rng.sample(earlier, min(len(earlier), rng.choice([1, 1, 2, 3])))
                    if rng.random() < 0.3:
                        # beside a base, one of its bases or another type with that base
                        up = [b for x in d["bases"] for b in used[x][2]["bases"]]
                        kin = [n for n in earlier if n not in d["bases"] and (n in up or set(used[n][2]["bases"]) & set(up))]
                        if kin:
                            d["bases"].insert(rng.randint(0, len(d["bases"])), rng.choice(kin))
                fs = rng.sample(FIELDS, rng.randint(0, 5))
                # fields refer to other data only in a way that ends
                for i, n in enumerate(fs):
                    t = pick_type(rng, datas, enums)
                    if t["of"] in datas and t["shape"] == "one" and not t["opt"] and \
                            not before(t["of"], d["name"], used, order):
                        t["opt"] = True
                    d["fields"].append(field(n, t, i))
            elif d["kind"] == "enum":
                for i, n in enumerate(rng.sample(ITEMS, rng.randint(1, 4))):
                    d["items"].append(item(n, i * rng.choice([1, 1, 3]) if i else rng.choice([0, 0, 0, 5])))
                vs = set()
                for it in d["items"]:
                    while it["id"] in vs:
                        it["id"] = str(int(it["id"]) + 7)
                    vs.add(it["id"])
            else:
                earlier = [n for n in servs if before(n, d["name"], used, order)]
                if earlier and rng.random() < 0.5:
                    d["bases"] = rng.sample(earlier, min(len(earlier), rng.choice([1, 1, 2])))
                if datas:
                    for i, n in enumerate(rng.sample(METHODS, rng.randint(0, 4))):
                        d["methods"].append(method(n, rng.choice(datas + ["void"]), rng.choice(datas), i, pname=rng.choice(PARAMS)))
            for x in d["fields"] + d["items"] + d["methods"]:
                if rng.random() < 0.08:
                    x["idt"] = spell(rng, x["id"])
    return files


def before(n, m, used, order):
    """n is declared before m: references from m to n cannot form a cycle"""
    pn, pm = used[n][0], used[m][0]
    if pn != pm:
        return order.index(pn) < order.index(pm)
    ds = [d["name"] for d in [x[2] for x in used.values() if x[0] == pn]]
    return ds.index(n) < ds.index(m)


def relative(p, q):
    import posixpath
    return posixpath.relpath(q, posixpath.dirname(p) or ".")


# ----------------------------------------------------------- rule breaking
def mutate(rng, files):
    """Changes one thing of a schema; the result may or may not follow the rules."""
    files = copy.deepcopy(files)
    p = rng.choice(sorted(files))
    f = files[p]
    allnames = [d["name"] for g in files.values() for d in g["decls"]] or ["A"]
    ds = f["decls"]
    if not ds:
        return files
    d = rng.choice(ds)
    members = d["fields"] or d["items"] or d["methods"]
    m = rng.choice(members) if members else None
    op = rng.randrange(18)
    if op == 0:
        d["name"] = rng.choice(allnames)
    elif op == 1:
        d["name"] = rng.choice(["int8", "string", "date", "decimal", "bool", "Fresh"])
    elif op == 2:
        d["bases"] = d["bases"] + [rng.choice(allnames + ["Nope", "int32"])] if d["kind"] != "enum" else []
    elif op == 3 and d["bases"]:
        d["bases"].append(rng.choice(d["bases"]))
    elif op == 4 and m:
        m["name"] = rng.choice([x["name"] for x in members] + ["string", "fresh1"])
    elif op == 5 and m:
        m["id"] = rng.choice([x["id"] for x in members] + ["77", "63"])
        m["idt"] = spell(rng, m["id"])
    elif op == 6 and d["fields"]:
        m["type"]["of"] = rng.choice(allnames + ["Nope", "void", "int32"])
    elif op == 7 and d["fields"]:
        m["type"] = mapt(rng.choice(BASE + allnames), rng.choice(allnames + ["Nope", "string", "decimal", "bool"]),
                         kopt=rng.random() < 0.3)
    elif op == 8 and d["methods"]:
        m[rng.choice(["res", "par"])] = rng.choice(allnames + ["void", "int32", "Nope"])
    elif op == 9 and d["methods"]:
        m[rng.choice(["resopt", "paropt"])] = True
    elif op == 10 and d["methods"]:
        m["pname"] = rng.choice(["string", "int64", "other"])
    elif op == 11:
        ts = [tag(rng.choice(["note", "memo", "mark"]), *[(rng.choice(["a", "b", "c"]), "1") for _ in range(rng.randint(0, 2))])
              for _ in range(rng.randint(1, 3))]
        (m if m and rng.random() < 0.6 else d)["tags"] = ts
    elif op == 12 and f["imports"]:
        f["imports"].remove(rng.choice(f["imports"]))
    elif op == 13:
        q = rng.choice(sorted(files) + ["missing.hbuf"])
        f["imports"].append(relative(p, q))
    elif op == 14:
        x = copy.deepcopy(rng.choice(ds))
        x["name"] = x["name"] + rng.choice(["", "X"])
        ds.append(x)
    elif op == 15:
        rng.shuffle(ds)
    elif op == 16:
        g = files[rng.choice(sorted(files))]
        if g is not f:
            ds.remove(d)
            g["decls"].append(d)
    elif op == 17:
        d["kind"] = d["kind"] if d["kind"] != "enum" else "enum"
        if d["kind"] in ("data", "server"):
            cand = [x["name"] for x in ds if x["kind"] == d["kind"]]
            d["bases"] = [rng.choice(cand)]
    return files


# ---------------------------------------------- every way to inherit twice
def family(rng, pkgs, kinds=("data", "server")):
    """bases that come in several ways: beside a type with that base, by two types, at
    several depths, before and after each other"""
    tree = [("A", []), ("B", []), ("C", ["A", "B"]), ("D", ["C"]), ("E", ["C", "D"]), ("F", ["D", "C"]), ("G", ["A"]), ("H", ["G", "C"]),
            ("I", ["B", "C", "G"]), ("J", ["H", "D", "B"]), ("K", ["J"]), ("L", ["F", "I"])]
    decls = [data("Parcel", [field("weight", typ("int32"), 0), field("label", typ("string", True), 1)])]
    if "data" in kinds:
        for n, (x, bases) in enumerate(tree):
            bases = rng.sample(bases, len(bases)) if rng.random() < 0.3 else bases
            fs = [field("%s%d_of" % (x.lower(), k), pick_type(rng, ["Parcel"], [], ["string", "int32", "uint64"]), 10 * n + k) for k in range(rng.randint(1, 2))]
            if x in "DHL" and rng.random() < 0.7:
                fs.append(copy.deepcopy(decls[1]["fields"][0]))
            decls.append(data("Kin" + x, fs, ["Kin" + b for b in bases]))
    if "server" in kinds:
        first = len(decls)
        for n, (x, bases) in enumerate(tree):
            bases = rng.sample(bases, len(bases)) if rng.random() < 0.3 else bases
            ms = [method("%s%d_do" % (x.lower(), k), rng.choice(["Parcel", "Parcel", "void"]), "Parcel", 10 * n + k, pname="req") for k in range(rng.randint(1, 2))]
            if x in "DHL" and rng.random() < 0.7:
                ms.append(copy.deepcopy(decls[first]["methods"][0]))
            decls.append(server("Work" + x, ms, ["Work" + b for b in bases]))
    return {"kin.hbuf": hfile(decls, [], pkgs)}


# -------------------------------------------------------- every type there is
def every_type(rng, pkgs, keys, tree=True):
    """a schema with a field of every type: all bases, an enum with and one without a
    zero, and a data, alone, in lists and in maps, with every place optional or not, and
    maps with every kind of key; half of the fields are inherited"""
    ofs = BASE + ["Colour", "Grade", "Leaf"]
    types = [typ(of, o) for of in ofs for o in (False, True)]
    types += [lst(of, o, c) for of in ofs for o in (False, True) for c in (False, True)]
    types += [mapt(of, rng.choice(["string", "int32", "int64"]), o, c) for of in ofs for o in (False, True) for c in (False, True)]
    types += [mapt(rng.choice(BASE + ["Leaf", "Grade"]), k, rng.random() < 0.5, rng.random() < 0.5) for k in keys + ["Colour"] for _ in range(2)]
    rng.shuffle(types)
    decls = [enum("Colour", [item("None", 0), item("red", 3), item("Dark_blue", 1)]), enum("Grade", [item("Low", 2), item("High", 9)]),
             data("Leaf", [field("a", typ("int32"), 0), field("big", typ("uint64"), 1), field("note", typ("string", True), 2)])]
    per, n = 12, 0
    for i in range(0, len(types), per):
        fs = [field("v%dx" % (i + k), t, i + k) for k, t in enumerate(types[i:i + per])]
        bases = ["Every%d" % (n - 1)] if n % 2 and tree else []
        decls.append(data("Every%d" % n, fs, bases))
        n += 1
    return {"every.hbuf": hfile(decls, [], pkgs)}
