"""hbuf schemas as plain JSON values, and their text.

file: {"pkgs": [{"k","v"}], "imports": [literal], "decls": [decl]}
decl: {"kind","name","tags","bases","fields","items","methods"}
type: {"shape": one/list/map, "of","opt","copt","key","kopt"}
tag:  {"name", "kvs": [{"k", "v": [..]}]}
The same values are what the TLA+ modules work on.
"""
import posixpath, re, zlib

BASE = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float",
        "double", "string", "date", "decimal"]
PUNCT = "=:,;{}()[]<>?"
KEYWORDS = ("package", "import", "data", "server", "enum")


def typ(of, opt=False, shape="one", copt=False, key="", kopt=False):
    return {"shape": shape, "of": of, "opt": opt, "copt": copt, "key": key, "kopt": kopt}


def lst(of, opt=False, copt=False):
    return typ(of, opt, "list", copt)


def mapt(of, key, opt=False, copt=False, kopt=False):
    return typ(of, opt, "map", copt, key, kopt)


def field(name, t, fid, tags=()):
    return {"name": name, "type": t, "id": str(fid), "tags": list(tags)}


def item(name, iid, tags=()):
    return {"name": name, "id": str(iid), "tags": list(tags)}


def method(name, res, par, mid, pname="req", tags=(), resopt=False, paropt=False):
    return {"name": name, "res": res, "resopt": resopt, "par": par, "paropt": paropt, "pname": pname,
            "id": str(mid), "tags": list(tags)}


def tag(name, *kvs):
    return {"name": name, "kvs": [{"k": k, "v": list(v) if isinstance(v, (list, tuple)) else [v]} for k, v in kvs]}


def decl(kind, name, bases=(), fields=(), items=(), methods=(), tags=()):
    return {"kind": kind, "name": name, "tags": list(tags), "bases": list(bases), "fields": list(fields),
            "items": list(items), "methods": list(methods)}


def data(name, fields=(), bases=(), tags=()):
    return decl("data", name, bases=bases, fields=fields, tags=tags)


def enum(name, items=(), tags=()):
    return decl("enum", name, items=items, tags=tags)


def server(name, methods=(), bases=(), tags=()):
    return decl("server", name, bases=bases, methods=methods, tags=tags)


def hfile(decls=(), imports=(), pkgs=()):
    return {"pkgs": [{"k": k, "v": v} for k, v in pkgs], "imports": list(imports), "decls": list(decls)}


# ------------------------------------------------------------------ tokens
def T(t, v=None):
    return {"t": t, "v": t if v is None else v}


def I(v):
    return {"t": "ident", "v": v}


def N(v, x=None):
    """x: another way to write the number v"""
    return {"t": "int", "v": str(v), "x": x or str(v)}


def spell(rng, v):
    """some way to write a number"""
    n = int(v)
    w = rng.choice(["%d", "0x%x", "0X%X", "0%o", "0o%o", "b", "_"])
    if w == "b":
        return "0b" + format(n, "b")
    if w == "_":
        return "1_000" if n == 1000 else "%d_%d" % (n // 10, n % 10) if n > 9 else "0x_%x" % n
    return w % n


def S(v):
    return {"t": "str", "v": v}


END = {"t": "END", "v": ""}      # the end of a clause: a line break or ';'
NL = {"t": "nl", "v": "\n"}


def type_toks(t):
    r = [I(t["of"])]
    if t["opt"]:
        r.append(T("?"))
    if t["shape"] == "list":
        r += [T("["), T("]")]
    elif t["shape"] == "map":
        r += [T("<"), I(t["key"])] + ([T("?")] if t["kopt"] else []) + [T(">")]
    if t["shape"] != "one" and t["copt"]:
        r.append(T("?"))
    return r


def is_raw(k, v):
    """every fourth value that can be is written between backquotes, where nothing is escaped"""
    return re.fullmatch(r'(?:[^\\`]|\\["\\])*', v) and zlib.crc32((k + v).encode()) % 4 == 1


def tag_toks(tags):
    r = []
    for t in tags:
        r += [T("["), I(t["name"]), T(":")]
        for i, kv in enumerate(t["kvs"]):
            if i:
                r.append(T(";"))
            r += [I(kv["k"]), T("=")]
            for j, v in enumerate(kv["v"]):
                if j:
                    r.append(T(","))
                r.append(dict(S(v), raw=True) if is_raw(kv["k"], v) else S(v))
        r += [T("]"), END]
    return r


def decl_toks(d):
    r = tag_toks(d["tags"]) + [T(d["kind"]), I(d["name"])]
    for i, b in enumerate(d["bases"]):
        r += [T("," if i else ":"), I(b), T("="), N(i + 1)]
    r.append(T("{"))
    for f in d["fields"]:
        r += tag_toks(f["tags"]) + type_toks(f["type"]) + [I(f["name"]), T("="), N(f["id"], f.get("idt")), END]
    for e in d["items"]:
        r += tag_toks(e["tags"]) + [I(e["name"]), T("="), N(e["id"], e.get("idt")), END]
    for m in d["methods"]:
        r += tag_toks(m["tags"]) + [I(m["res"])] + ([T("?")] if m["resopt"] else []) + [I(m["name"]), T("("), I(m["par"])]
        r += ([T("?")] if m["paropt"] else []) + [I(m["pname"]), T(")"), T("="), N(m["id"], m.get("idt")), END]
    return r + [T("}"), END]


def file_toks(f):
    r = []
    for p in f["pkgs"]:
        r += [T("package"), I(p["k"]), T("="), S(p["v"]), END]
    for i in f["imports"]:
        r += [T("import"), S(i), END]
    for d in f["decls"]:
        r += decl_toks(d)
    return r


def plain(toks):
    """END -> line break, and a line break after '{'"""
    r = []
    for t in toks:
        if t is END or t["t"] == "END":
            r.append(NL)
        else:
            r.append(t)
            if t["t"] == "{":
                r.append(NL)
    return r


def tok_text(t):
    if t["t"] == "str":
        if t.get("raw"):                                # the text itself, between backquotes
            return "`%s`" % re.sub(r'\\(["\\])', r"\1", t["v"])
        return '"%s"' % t["v"]
    return t.get("x", t["v"])


def text(toks, sep=" "):
    """raw tokens -> text; blank between any two words on a line"""
    out = []
    for t in toks:
        out.append(tok_text(t))
        if t["t"] != "nl":
            out.append(sep)
    return "".join(out)


def render(f):
    return text(plain(file_toks(f)))


def resolve(path, lit):
    return posixpath.normpath(posixpath.join(posixpath.dirname(path), lit))


def record_file(path, toks, lits):
    """file of a recorded run for the TLA+ modules"""
    return {"path": path, "toks": [{"t": t["t"], "v": t["v"]} for t in toks], "imports": [{"k": l, "v": resolve(path, l)} for l in sorted(set(lits))]}


def walk_fields(f):
    for d in f["decls"]:
        for x in d["fields"]:
            yield d, x
