"""Tokens that know what they are, and where a message points at (see Places.tla)."""
import os, re
import core
from schema import *


def tags_at(tags, at):
    r = tag_toks(tags)
    n = k = v = 0
    inside = False
    for j, t in enumerate(r):
        if t["t"] == "[":
            n, k = n + 1, 0
            t["at"] = "%s/t%d" % (at, n)
        elif t["t"] == "ident" and r[j - 1]["t"] in (":", ";"):
            k, v = k + 1, 0
            t["at"] = "%s/t%d/k%d" % (at, n, k)
        elif t["t"] == "str":
            v += 1
            t["at"] = "%s/t%d/k%d/v%d" % (at, n, k, v)
    return r


def decl_at(d, at):
    def name(v, what):
        return dict(I(v), at=at + what)
    r = tags_at(d["tags"], at) + [T(d["kind"]), name(d["name"], "/name")]
    for i, b in enumerate(d["bases"]):
        r += [T("," if i else ":"), name(b, "/b%d" % (i + 1)), T("="), N(i + 1)]
    r.append(T("{"))
    for i, f in enumerate(d["fields"]):
        a = "/f%d" % (i + 1)
        ts = type_toks(f["type"])
        ts[0]["at"] = at + a + "/of"
        for j, t in enumerate(ts):
            if t["t"] == "<":
                ts[j + 1]["at"] = at + a + "/key"
        r += tags_at(f["tags"], at + a) + ts + [name(f["name"], a + "/name"), T("="), dict(N(f["id"], f.get("idt")), at=at + a + "/id"), END]
    for i, e in enumerate(d["items"]):
        a = "/i%d" % (i + 1)
        r += tags_at(e["tags"], at + a) + [name(e["name"], a + "/name"), T("="), dict(N(e["id"], e.get("idt")), at=at + a + "/id"), END]
    for i, m in enumerate(d["methods"]):
        a = "/m%d" % (i + 1)
        r += tags_at(m["tags"], at + a) + [name(m["res"], a + "/res")] + ([T("?")] if m["resopt"] else []) + [name(m["name"], a + "/name"), T("(")]
        r += [name(m["par"], a + "/par")] + ([T("?")] if m["paropt"] else []) + [name(m["pname"], a + "/pname"), T(")"), T("="), N(m["id"], m.get("idt")), END]
    return r + [T("}"), END]


def file_at(p, f):
    r = []
    for x in f["pkgs"]:
        r += [T("package"), I(x["k"]), T("="), S(x["v"]), END]
    for i, x in enumerate(f["imports"]):
        at = "%s/import%d" % (p, i + 1)
        r += [dict(T("import"), at=at), dict(S(x), at=at), END]
    for k, d in enumerate(f["decls"]):
        r += decl_at(d, "%s/d%d" % (p, k + 1))
    return r


def spot(text, a, b):
    """line, column of the first byte, and of the last one's end"""
    def at(o):
        return text.count("\n", 0, o) + 1, len(text[text.rfind("\n", 0, o) + 1:o].encode()) + 1
    return at(a), at(b)


def spots(text, raw, marks):
    """[(begin, end, token, its number)] of a text; a line break, and the end, is anywhere between two words"""
    r, last, = [], 0
    starts = [a for a, b, t in marks] + [len(text)]
    k = 0
    for n, t in enumerate(raw + [{"t": "eof"}]):
        if t["t"] in ("nl", "eof"):
            a, b = last, starts[k]
        else:
            a, b, _ = marks[k]
            k, last = k + 1, b
        r.append(spot(text, a, b) + (t, n + 1))
    return r


POS = re.compile(r"(\S*\.hbuf):(\d+):(\d+): (.*)")


def where(res, root):
    """file, line, column and text of the message"""
    line = [l for l in res.out.splitlines() if core.ERR.search(l)]
    m = line and POS.search(line[0])
    if not m:
        return "", 0, 0, line[0] if line else ""
    return os.path.relpath(m[1], root), int(m[2]), int(m[3]), m[4]
