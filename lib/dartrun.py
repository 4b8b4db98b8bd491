"""Generated Dart: its type checker (dart.check) and a machine that runs it (dart.run), one program per schema."""
import multiprocessing, os, traceback
import core
from names import *
from schema import *
from values import canon
from dart.check import Program, Bad, Ty, DYN
from dart.run import Run, Throw, Future, Fun, Obj, DList, DMap, TypeV, decode, encode, i64, dec, date, u8, parse_dec
from tsrun import stem

CODE = {"data": ".data.dart", "enum": ".enum.dart", "server": ".server.dart"}
_base = []


def base():
    if not _base:
        _base.append(Program({}))
        if _base[0].errors:
            raise core.CheckError("the libraries of Dart: " + str(_base[0].errors[:5]))
    return _base[0]


def dart_type(m, t):
    """the type a user of the generated code writes"""
    names = {"bool": "bool", "float": "double", "double": "double", "string": "String", "date": "DateTime", "decimal": "Decimal", "int64": "Int64", "uint64": "Int64"}

    def one(of, opt=False):
        return (hump(of) if of in m.decl else names.get(of, "int")) + ("?" if opt else "")
    if t["shape"] == "one":
        return one(t["of"], t["opt"])
    if t["shape"] == "list":
        return "List<%s>" % one(t["of"], t["opt"]) + ("?" if t["copt"] else "")
    return "Map<%s, %s>" % (one(t["key"]), one(t["of"], t["opt"])) + ("?" if t["copt"] else "")


def user(m):
    """a program that uses what the schema declares: servers to put behind the routers, and the types of all there is"""
    out = ["import 'dart:typed_data';", "import 'package:fixnum/fixnum.dart';", "import 'package:decimal/decimal.dart';", "import 'package:hbuf_dart/hbuf_dart.dart';"]
    out += ["import '%s';" % f for f in sorted({stem(m.home[n]) + CODE[m.decl[n]["kind"]] for n in m.decl})]
    for n in m.of_kind("data"):
        x = hump(n)
        fs = [(first_lower(f["name"]), f["type"]) for f in m.fields(n)]
        out += ["%s use%s(%s) {" % (x, x, ("{%s}" % ", ".join(("" if nullable(t) else "required ") + dart_type(m, t) + " " + f for f, t in fs)) if fs else ""),
                "final %s v = %s(%s);" % (x, x, ", ".join("%s: %s" % (f, f) for f, _ in fs)), "final Data d = v;", "final Map<String, dynamic> json = d.toMap();"]
        for i, (f, t) in enumerate(fs):
            out += ["final %s g%d = v.%s;" % (dart_type(m, t), i, f), "v.%s = g%d;" % (f, i)]
        out += ["final %s b%s = v;" % (hump(b), i) for i, b in enumerate(m.decl[n]["bases"])]
        out += ["final %s w = v.copyWith(%s);" % (x, ", ".join("%s: %s" % (f, f) for f, _ in fs)), "final ByteData bytes = w.toData();",
                "return identical(v, w) ? %s.fromMap(json) : bytes == null ? %s.fromData(bytes) : w.copy();" % (x, x), "}"]
    for n in m.of_kind("enum"):
        x = hump(n)
        out += ["List<%s> use%s(int i, String s) {" % (x, x), "final %s a = %s.valueOf(i);" % (x, x), "final %s b = %s.nameOf(s);" % (x, x), "final int v = a.value;",
                "final String t = b.name;", "final List<%s> all = %s.values;" % (x, x),
                "return [a, b, %s];" % ", ".join("%s.%s" % (x, all_upper(i["name"])) for i in m.decl[n]["items"]), "}"]
    for n in m.of_kind("server"):
        x = hump(n)
        out += ["class Fake%s implements %s {" % (x, x), "final dynamic Function(String name, Data data) answer;", "Fake%s(this.answer);" % x]
        for q, _ in m.methods(n):
            r = "void" if q["res"] == "void" else hump(q["res"])
            out += ["@override", "Future<%s> %s(%s p, [Context? ctx]) async {" % (r, first_lower(q["name"]), hump(q["par"]))]
            out += ["answer('%s', p);" % q["name"], "}"] if r == "void" else ["return answer('%s', p) as %s;" % (q["name"], r), "}"]
        out += ["}", "ServerRouter route%s(Fake%s s) => %sRouter(s);" % (x, x, x), "%s call%s(Client c) => %sClient(c);" % (x, x, x)]
        out += ["%s base%s_%d(%s s) => s;" % (hump(b), x, i, x) for i, b in enumerate(m.decl[n]["bases"])]
    return "\n".join(out) + "\n"


def nullable(t):
    return t["opt"] if t["shape"] == "one" else t["copt"]


class Session:
    """one program and what is done with it"""

    def __init__(self, m, files):
        self.m = m
        self.p = Program(dict(files, **{"user.dart": user(m)}), base())
        self.errors = self.p.errors
        if not self.errors:
            self.r = Run(self.p)

    def cls(self, n, suffix=""):
        return self.p.libs[stem(self.m.home[n]) + CODE[self.m.decl[n]["kind"]]].decls[hump(n) + suffix]

    def ty(self, of, opt=False):
        if of in self.m.decl:
            return Ty(self.cls(of), (), opt)
        lib = {"date": self.p.core, "decimal": self.p.libs["package:decimal/decimal.dart"], "int64": self.p.libs["package:fixnum/fixnum.dart"],
               "uint64": self.p.libs["package:fixnum/fixnum.dart"]}.get(of, self.p.core)
        name = {"date": "DateTime", "decimal": "Decimal", "int64": "Int64", "uint64": "Int64", "bool": "bool", "float": "double", "double": "double", "string": "String"}.get(of, "int")
        return Ty(lib.decls[name], (), opt)

    # -- values
    def scalar(self, of, v):
        if of in ("int64", "uint64"):
            return i64(self.r, int(v))
        if of == "bool":
            return v == "true"
        if of in ("float", "double"):
            return float(v)
        if of == "string":
            return v
        if of == "date":
            return date(self.r, int(v) * 1000)
        if of == "decimal":
            return parse_dec(self.r, v)
        if of in self.m.decl:
            return next(x for x in self.items(of) if x.f["value"] == int(v))
        return int(v)

    def items(self, n):
        c = self.cls(n)
        return [self.r.static(c.stat[all_upper(i["name"])]) for i in self.m.decl[n]["items"]]

    def to(self, t, v):
        if v["k"] == "null":
            return None
        el = {"shape": "one", "of": t["of"], "opt": t["opt"]}
        if t["shape"] == "list":
            return DList([self.to(el, x) for x in v["l"]], self.ty(t["of"], t["opt"]))
        if t["shape"] == "map":
            return self.r.map([(self.scalar(t["key"], e["n"]), self.to(el, e["v"])) for e in v["m"]], self.ty(t["key"]), self.ty(t["of"], t["opt"]))
        if v["k"] == "data":
            return self.build(t["of"], v)
        return self.scalar(t["of"], v["v"])

    def named(self, n, v):
        ft = {f["name"]: f["type"] for f in self.m.fields(n)}
        return {first_lower(e["n"]): self.to(ft[e["n"]], e["v"]) for e in v["m"]}

    def build(self, n, v):
        return self.r.new(self.cls(n), "", [], self.named(n, v))

    def see(self, t, x):
        """a Dart value in the form of values.py"""
        if x is None:
            return {"k": "null"}
        el = {"shape": "one", "of": t["of"], "opt": t["opt"]}
        if t["shape"] == "list":
            return {"k": "list", "l": [self.see(el, y) for y in x.l]} if isinstance(x, DList) else self.odd(x)
        if t["shape"] == "map":
            kt = {"shape": "one", "of": t["key"], "opt": False}
            return {"k": "map", "m": [{"n": self.see(kt, k).get("v", ""), "v": self.see(el, y)} for k, y in x.d.values()]} if isinstance(x, DMap) else self.odd(x)
        of = t["of"]
        if not self.r.isa(x, self.ty(of)):
            return self.odd(x)
        if of in self.m.decl:
            return self.read(of, x) if self.m.decl[of]["kind"] == "data" else {"k": "enum", "v": str(x.f["value"])}
        if of == "uint64":
            return {"k": "int", "v": str(x.v & (2**64 - 1))}
        if of == "int64":
            return {"k": "int", "v": str(x.v)}
        if of == "bool":
            return {"k": "bool", "v": "true" if x else "false"}
        if of in ("float", "double"):
            return {"k": "num", "v": canon(repr(x))} if x == x and abs(x) != float("inf") else {"k": "num", "v": str(x)}
        if of == "string":
            return {"k": "str", "v": x}
        if of == "date":
            return {"k": "date", "v": str(x.v[1] // 1000) if x.v[1] % 1000 == 0 else "%d us" % x.v[1]}
        if of == "decimal":
            return {"k": "dec", "v": canon(str(x.v))}
        return {"k": "int", "v": str(x)}

    def odd(self, x):
        return {"k": "a " + repr(self.r.type_of(x)), "v": self.r.text(x)}

    def read(self, n, o):
        return {"k": "data", "m": [{"n": f["name"], "v": self.see(f["type"], self.r.get(o, first_lower(f["name"])))} for f in self.m.fields(n)]}

    def call(self, o, name, args=(), named=None):
        return self.r.invoke(o, self.r.find(o, name), list(args), named or {})

    def static(self, n, name, *args):
        return self.r.invoke(None, self.cls(n).stat[name], list(args), {})

    def spoil(self, n, o, deep=3):
        """changes o wherever it can be"""
        for f in self.m.fields(n):
            t, name = f["type"], first_lower(f["name"])
            x = self.r.get(o, name)
            isdata = t["of"] in self.m.decl and self.m.decl[t["of"]]["kind"] == "data"
            if isdata and deep:
                for y in [x] if t["shape"] == "one" else x.l if isinstance(x, DList) else [y for _, y in x.d.values()] if x is not None else []:
                    if y is not None:
                        self.spoil(t["of"], y, deep - 1)
            if t["shape"] != "one" and x is not None:
                (x.l if isinstance(x, DList) else x.d).clear()
            if nullable(t):
                self.r.set(o, name, None)
            elif t["shape"] == "one" and not isdata:
                self.r.set(o, name, self.other(t["of"]))

    def other(self, of):
        if of in self.m.decl:
            return self.items(of)[-1]
        return self.scalar(of, {"bool": "true", "string": "other"}.get(of, "77"))

    # -- what can be asked
    def do(self, c):
        self.r.steps = 0
        c = dict(c, name=c["type"].split(".", 1)[1])
        try:
            return getattr(self, "do_" + c["op"])(c)
        except Throw as e:
            return {"panic": str(e)}

    def do_facts(self, c):
        """what the class declares, as its users see it"""
        n = c["name"]
        x = self.cls(n, c.get("suffix", ""))
        out = {"what": "abstract class" if x.abstract else "class", "bases": sorted(t.cls.name for t in self.p.supers(x) if t.cls.name != "Object"),
               "fields": [], "methods": [], "create": [], "with": [], "statics": []}

        def named(f):
            return sorted("%s%r %s" % ("required " if q else "", t, a) for a, (t, q) in f.named.items())
        for k, ms in self.p.all_members(x).items():
            m, _, owner = ms[0]
            if owner.name == "Object" or k.startswith("_") or k.endswith("=") and k not in ("==", "<=", ">="):
                continue
            t = self.p.member(Ty(x), k)[0].ty
            if m.kind in ("field", "getter"):
                out["fields"].append("%r %s%s" % (t, k, "" if k + "=" in self.p.all_members(x) or m.kind == "field" and "final" not in m.mods else " (read only)"))
            elif k == "copyWith":
                out["with"] = named(t.fn)
                out["methods"].append("copyWith %r" % t.fn.ret)
            else:
                out["methods"].append("%s %r" % (k, t))
        if "" in x.ctors:
            out["create"] = named(x.ctors[""].fn) + ["%r" % t for t in x.ctors[""].fn.pos]
        out["statics"] = ["%s %r" % (k, m.ty) for k, m in x.stat.items() if not k.startswith("_")]
        return out

    def do_encode(self, c):
        o = self.build(c["name"], c["value"])
        return {"text": encode(self.r, self.call(o, "toMap")), "built": self.read(c["name"], o)}

    def do_decode(self, c):
        return {"value": self.read(c["name"], self.static(c["name"], "fromMap", decode(self.r, c["text"])))}

    def do_again(self, c):
        return {"text": encode(self.r, self.call(self.static(c["name"], "fromMap", decode(self.r, c["text"])), "toMap"))}

    def do_clone(self, c):
        n = c["name"]
        o = self.build(n, c["value"])
        x = self.call(o, "copy")
        out = {"value": self.read(n, o), "copy": self.read(n, x)}
        self.spoil(n, x)
        return dict(out, after=self.read(n, o))

    def do_with(self, c):
        n = c["name"]
        o = self.build(n, c["value"])
        x = self.call(o, "copyWith", (), self.named(n, c["change"]))
        return {"copy": self.read(n, x), "after": self.read(n, o)}

    def do_same(self, c):
        """two data, the second one with the lists and maps of the first where share says so"""
        n = c["name"]
        a, b = self.build(n, c["value"]), self.build(n, c["other"])
        if c["share"]:
            self.share(n, a, b)
        return {"equal": self.r.eq(a, b), "back": self.r.eq(b, a), "hash": self.r.hash(a) == self.r.hash(b), "self": self.r.eq(a, a)}

    def share(self, n, a, b):
        for f in self.m.fields(n):
            t, name = f["type"], first_lower(f["name"])
            x, y = self.r.get(a, name), self.r.get(b, name)
            if x is None or y is None:
                continue
            if t["shape"] == "one" and t["of"] in self.m.decl and self.m.decl[t["of"]]["kind"] == "data":
                self.share(t["of"], x, y)
            elif t["shape"] != "one" and self.see(t, x) == self.see(t, y):
                self.r.set(b, name, x)

    def do_text(self, c):
        return {"text": self.r.text(self.build(c["name"], c["value"]))}

    def do_call(self, c):
        r, m = self.r, self.m
        q = [x for x, _ in m.methods(c["name"]) if first_lower(x["name"]) == c["method"]][0]
        seen = []

        def transport(this, name, id, data, form_map, form_data):
            seen.append({"server": r.get(this, "name"), "name": name, "id": str(id), "text": encode(r, self.call(data, "toMap"))})
            if c["fail"]:
                return Future(error=Throw(c["fail"], c["fail"]))
            return Future(r.callf(form_map, [decode(r, c["text"])]))
        r.transport = transport
        client = r.new(self.cls(c["name"], "Client"), "", [r.new(r.sdk("package:hbuf_dart/hbuf_dart.dart", "Client"), "", [])])
        f = self.call(client, c["method"], [self.build(q["par"], c["value"])])
        out = {"name": r.get(client, "name"), "seen": seen, "err": "", "result": []}
        try:
            v = r.await_(f)
            if q["res"] != "void":
                out["result"] = [self.see({"shape": "one", "of": q["res"], "opt": False}, v)]
        except Throw as e:
            out["err"] = e.text
        return out

    def do_route(self, c):
        r, m = self.r, self.m
        seen, par = [], {x["name"]: x for x, _ in m.methods(c["name"])}

        def answer(a, k, rt=()):
            seen.append({"method": a[0], "param": self.see({"shape": "one", "of": par[a[0]]["par"], "opt": False}, a[1])})
            if c["fail"]:
                raise Throw(c["fail"], c["fail"])
            try:
                return self.build(par[a[0]]["res"], c["value"]) if par[a[0]]["res"] != "void" else None
            except KeyError:               # the value is for another method
                raise Throw("not asked", "not asked")
        fake = self.p.libs["user.dart"].decls["Fake" + hump(c["name"])]
        router = r.new(self.cls(c["name"], "Router"), "", [r.new(fake, "", [Fun(answer)])])
        routes = r.get(router, "invokeNames")
        out = {"seen": seen, "err": "", "text": "", "routes": [k for k, _ in routes.d.values()], "name": r.get(router, "name")}
        # every route by its id, with a parameter of the method that should be behind it
        byid = {str(k): x for k, x in r.get(router, "invokeIds").d.values()}
        out["ids"] = sorted(byid)
        for y in c.get("byId", ()):
            p = self.build(par[y["method"]]["par"], y["value"])
            ctx = r.new(r.sdk("package:hbuf_dart/hbuf_dart.dart", "Context"), "", [])
            try:
                r.await_(r.callf(r.get(byid[y["id"]], "invoke"), [ctx, p])) if y["id"] in byid else None
            except Throw as e:
                out["err"] = e.text
        hit = routes.d.get(r.key(c["path"]))
        if hit is None:
            return out
        x = hit[1]
        try:
            p = r.await_(r.callf(r.get(x, "toData"), [u8(r, c["text"].encode("utf-8"))]))
            res = r.await_(r.callf(r.get(x, "invoke"), [r.new(r.sdk("package:hbuf_dart/hbuf_dart.dart", "Context"), "", []), p]))
            out["text"] = bytes(r.await_(r.callf(r.get(x, "formData"), [res])).l).decode("utf-8")
        except Throw as e:
            out["err"] = e.text
        return out

    def do_enum(self, c):
        r, n = self.r, c["name"]
        cls = self.cls(n)
        hide = lambda f: "none" if f is None else f

        def ask(name, x, get):
            try:
                return get(self.static(n, name, x))
            except Throw:
                return "none"
        context = self.page(c.get("locale", "en"))
        items = r.static(cls.stat["values"]).l
        show = (lambda x: self.call(x, "toText", [context])) if c.get("texts", True) else (lambda x: r.text(x))
        consts = {k: str(r.static(x).f["value"]) for k, x in cls.stat.items() if x.kind == "field" and k != "values" and not k.startswith("_")}
        return {"items": [{"name": r.get(x, "name"), "value": str(r.get(x, "value")), "text": show(x)} for x in items], "consts": consts,
                "byValue": [ask("valueOf", int(v), lambda x: r.text(x)) for v in c["values"]],
                "byName": [ask("nameOf", v, lambda x: str(r.get(x, "value"))) for v in c["names"]],
                "equal": [[str(a.f["value"]), str(b.f["value"])] for a in items for b in items if r.eq(a, b) and r.hash(a) == r.hash(b)]}

    # -- Flutter
    def flutter(self, name):
        return self.r.sdk("package:hbuf_flutter/hbuf_flutter.dart", name)

    def page(self, locale):
        """what widgets are built in, with the texts of all files"""
        r = self.r
        r.delegates = [r.static(c.stat["delegate"]) for k, l in self.p.libs.items() if k.endswith(".ui.dart") for x, c in l.decls.items()
                       if x.endswith("Localizations") and "delegate" in getattr(c, "stat", {})]
        return r.new(r.sdk("package:flutter/widgets.dart", "BuildContext"), "", [r.new(r.sdk("package:flutter/widgets.dart", "Locale"), "", [locale])])

    def ui(self, n, cls):
        lib = self.p.libs.get(stem(self.m.home[n]) + ".ui.dart")
        return lib and lib.decls.get(cls)

    def form(self, c):
        """(info, the form of it, [(key, control)])"""
        r, n = self.r, c["name"]
        info = self.build(n, c["value"])
        self.sizes = DMap(Ty(r.c["double"]), Ty(r.c["int"]))
        self.padding = r.new(r.sdk("package:flutter/widgets.dart", "EdgeInsets"), "only", [])
        form = r.new(self.ui(n, "Form%sBuild" % hump(n)), "", [info], {"readOnly": c["readOnly"], "sizes": self.sizes, "padding": self.padding})
        seen = []
        ws = self.call(form, "build", [self.page(c["locale"])], {"builder": Fun(lambda a, k, rt=(): seen.append(a[1]))} if c["builder"] else {})
        if c["builder"] and seen != [form]:
            raise Throw("builder", "the builder was called with %s" % seen)
        return info, form, [(next((k for k, x in form.f.items() if x is w.v), "?"), w.v) for w in ws.l]

    def do_form(self, c):
        r, n = self.r, c["name"]
        if not self.ui(n, "Form%sBuild" % hump(n)):
            return {"exists": False}
        fs = {first_lower(f["name"]): f for f in self.m.fields(n)}
        byname = {f["name"]: k for k, f in fs.items()}
        fs["?"] = {"name": "?", "type": None}
        info, _, items = self.form(c)
        out = {"exists": True, "items": [], "built": self.read(n, info)}
        for k, w in items:
            out["items"].append(self.control(fs[k], k, w))
        for k, w in items:
            if fs[k]["name"] not in c["unsaved"]:
                self.save(w, self.untouched(fs[k], info, w))
        out["after"] = self.read(n, info)
        out["entries"], out["said"] = [], []
        for e in c["entries"]:
            info, _, items = self.form(c)
            self.save(dict(items)[byname[e["field"]]], self.entered(fs[byname[e["field"]]], e["entry"]))
            out["entries"].append(self.read(n, info))
        for e in c["tried"]:
            info, _, items = self.form(c)
            k, w = byname[e["field"]], dict(items)[byname[e["field"]]]
            said = r.callf(w.f["validator"], [self.checked(fs[k], w, e["text"])])
            out["said"].append("" if said is None else said)
        return out

    def control(self, f, k, w):
        r, kind, t = self.r, w.cls.name, f["type"]
        url = lambda x: r.get(x, "url")
        x = {"key": k, "kind": kind, "label": r.get(w.f["decoration"], "labelText"), "readOnly": w.f["readOnly"], "same": w.f["widthSizes"] is self.sizes and w.f["padding"] is self.padding,
             "saves": w.f["onSaved"] is not None, "checks": w.f["validator"] is not None}
        shown = w.f["value" if kind == "MenuFormBuild" else "initialValue"]
        if kind in ("TextFormBuild", "FileFormBuild", "DatetimeFormBuild"):
            x["shown"] = "" if shown is None else shown
        elif kind == "ImageFormBuild":
            x["shown"] = [url(i) for i in shown.l]
        else:
            x["shown"] = self.see(t, shown)
        if kind == "TextFormBuild":
            x["lines"] = w.f["maxLines"]
        if kind in ("FileFormBuild", "ImageFormBuild"):
            x["extensions"] = [] if w.f["extensions"] is None else list(w.f["extensions"].l)
        if kind == "ImageFormBuild":
            x.update(count=w.f["maxCount"], clip=w.f["clip"], width=canon(repr(float(w.f["outWidth"]))), height=canon(repr(float(w.f["outHeight"]))))
        if kind == "MenuFormBuild":
            x["options"] = [{"value": self.see(t, r.get(i, "value")), "text": self.widget(r.get(i, "child"))} for i in w.f["items"].l]
        return x

    def widget(self, w):
        """what a widget shows"""
        r, k = self.r, w.cls.name
        if k == "Text":
            return "text:" + r.get(w, "data")
        if k == "Tooltip":
            inner = self.widget(r.get(w, "child"))
            return inner if inner == "text:" + r.get(w, "message") else "%s with the message %s" % (inner, r.get(w, "message"))
        return {"Image": lambda: "image:" + r.get(w, "src"), "SizedBox": lambda: "nothing"}.get(k, lambda: k)()

    def save(self, w, v):
        if w.f["onSaved"] is not None:
            self.r.callf(w.f["onSaved"], [v])

    def untouched(self, f, info, w):
        """what a control holds that nobody touched"""
        kind = w.cls.name
        if kind == "DatetimeFormBuild":
            return self.r.get(info, first_lower(f["name"]))
        v = w.f["value" if kind == "MenuFormBuild" else "initialValue"]
        return "" if v is None and kind == "TextFormBuild" else v

    def images(self, urls):
        c = self.flutter("ImageFormImage")
        return DList([self.r.new(c, "", [u]) for u in urls], Ty(c))

    def entered(self, f, e):
        if e["k"] == "text":
            return e["v"]
        return self.images(e["l"]) if e["k"] == "urls" else self.to(f["type"], e)

    def checked(self, f, w, text):
        """what a control holds when text is what is in it"""
        kind, t = w.cls.name, f["type"]
        if kind in ("TextFormBuild", "FileFormBuild"):
            return text
        if kind == "ImageFormBuild":
            return self.images([text] if text else [])
        return self.scalar(t["of"], text) if t["of"] == "string" or text != "" else None

    def table(self, c, calls=None):
        r, n = self.r, c["name"]
        rows = [self.build(n, v) for v in c["rows"]]
        el = Ty(self.cls(n))
        chosen = DList([rows[i] for i in c["chosen"]], el, "Set")
        kw = {"select": chosen}
        if calls is not None:
            kw["onSelect"] = Fun(lambda a, k, rt=(): calls.append(a[1] is chosen))
        table = r.new(self.ui(n, "Table%sBuild" % hump(n)), "", [DList(rows[:c["count"]], el)], kw)
        page = self.page(c["locale"])
        self.call(table, "build", [page])
        return rows, chosen, r.get(table, "tables"), page

    def do_table(self, c):
        """the columns of a table of the first rows"""
        r, n = self.r, c["name"]
        if not self.ui(n, "Table%sBuild" % hump(n)):
            return {"exists": False}
        rows, _, t, page = self.table(c)
        out = {"exists": True, "count": t.f["rowCount"], "rows": [], "columns": [], "built": [self.read(n, x) for x in rows]}
        for y in range(t.f["rowCount"]):
            d = r.get(r.callf(t.f["rowBuilder"], [page, y]), "data")
            out["rows"].append(next((i + 1 for i, x in enumerate(rows) if x is d), 0))
        for k, x in r.get(t, "columns").d.values():
            cells = [self.widget(r.get(r.callf(r.get(x, "cellBuilder"), [page, 1, y, rows[y]]), "child")) for y in range(c["count"])]
            out["columns"].append({"key": k, "index": r.get(x, "index"), "label": self.widget(r.get(r.callf(r.get(x, "headerBuilder"), [page]), "child")), "cells": cells})
        return out

    def do_select(self, c):
        """the boxes of a table where rows can be chosen, before and after each click: at the head (0) or at a row"""
        r, calls, out = self.r, [], []
        rows, chosen, t, page = self.table(c, calls)
        x = r.get(t, "columns").d[r.key("select_checkbox")][1]

        def box(y=None):
            cell = r.callf(r.get(x, "headerBuilder"), [page]) if y is None else r.callf(r.get(x, "cellBuilder"), [page, 0, y, rows[y]])
            return r.get(cell, "child")

        def look():
            h = box()
            out.append({"head": {None: "some", True: "all", False: "none"}[r.get(h, "value")], "three": r.get(h, "tristate"),
                        "boxes": [r.get(box(y), "value") is True for y in range(c["count"])], "chosen": sorted(i + 1 for i, d in enumerate(rows) if any(d is e for e in chosen.l)),
                        "size": len(chosen.l), "calls": len(calls), "same": all(calls)})
        look()
        for at in c["clicks"]:
            b = box(None if at == 0 else at - 1)
            was = r.get(b, "value")
            # how a Checkbox of Flutter goes on
            new = {False: True, True: None, None: False}[was] if r.get(b, "tristate") else not was
            r.callf(r.get(b, "onChanged"), [new])
            look()
        return {"index": r.get(x, "index"), "first": [k for k, _ in r.get(t, "columns").d.values()][0], "looks": out}

    def do_verify(self, c):
        """what the form of a field says of a text, None for nothing"""
        r = self.r
        n, f = c["name"].split(".")
        lib = self.p.libs.get(stem(self.m.home[n]) + ".verify.dart")
        fn = lib and lib.decls.get("verify%s_%s" % (hump(n), hump(f)))
        if not fn:
            return {"said": ["no function"]}
        context = r.new(r.sdk("package:flutter/widgets.dart", "BuildContext"), "", [r.new(r.sdk("package:flutter/widgets.dart", "Locale"), "", ["en"])])
        said = r.invoke(None, fn, [context, c["text"]], {})
        return {"said": ["" if said is None else said]}


def work(job):
    m, d, cmds = job
    try:
        files = {n: b.decode("utf-8", "replace") for n, b in core.tree(d).items() if n.endswith(".dart")}
        s = Session(m, files)
        if s.errors:
            return s.errors, []
        return [], [s.do(c) for c in cmds]
    except Exception:
        return ["internal: " + traceback.format_exc()], []


class DartBatch:
    """add() schemas, build(), then run() commands, whose types begin with the key of their schema; the counterpart of gorun.GoBatch"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.dir = ctx.dir()
        self.models, self.texts, self.results, self.errors = {}, {}, {}, {}

    def add(self, key, files, texts=None):
        self.models[key] = Model(files)
        self.texts[key] = texts or {p: render(f) for p, f in files.items()}

    def compile(self):
        def one(key):
            d = os.path.join(self.dir, "src", key)
            core.write_files(d, self.texts[key])
            return key, self.ctx.compile(os.path.join(d, "*.hbuf"), self.out(key), "dart")
        for key, r in self.ctx.pmap(one, sorted(self.models)):
            self.results[key] = r
            if r.verdict != "accept":
                self.errors[key] = r.out

    def out(self, key):
        return os.path.join(self.dir, "gen", key)

    def each(self, jobs):
        """jobs: [(key, cmds)] -> [(errors, answers)]"""
        base()
        with multiprocessing.get_context("fork").Pool(min(8, max(1, len(jobs)))) as pool:
            res = pool.map(work, [(self.models[k], self.out(k), cs) for k, cs in jobs], chunksize=1)
        for (k, _), (errors, _) in zip(jobs, res):
            if errors and errors[0].startswith("internal: "):
                raise core.CheckError("Dart of %s: %s\n%s" % (k, errors[0][-3000:], self.texts[k]))
        return res

    def build(self):
        self.compile()
        jobs = [(k, []) for k in sorted(self.models) if k not in self.errors]
        for (k, _), (errors, _) in zip(jobs, self.each(jobs)):
            if errors:
                self.errors[k] = "\n".join(errors)
        self.keys = [k for k in sorted(self.models) if k not in self.errors]
        return self.keys

    def run(self, cmds, chunks=1):
        by = {}
        for i, c in enumerate(cmds):
            by.setdefault(c["type"].split(".")[0], []).append(i)
        jobs = [(k, [cmds[i] for i in ix]) for k, ix in sorted(by.items())]
        out = [None] * len(cmds)
        for (k, cs), (errors, answers) in zip(jobs, self.each(jobs)):
            for i, a in zip(by[k], answers):
                out[i] = a
        return out

    def source(self, key):
        return {n: b.decode("utf-8", "replace") for n, b in core.tree(self.out(key)).items()}
