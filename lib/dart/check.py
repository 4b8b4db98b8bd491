"""Static semantics: libraries, names, types with nullability and inference. Leaves on the tree what run.py needs."""
import os
from dart.parse import N, parse, Bad

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "rt", "dart")
SDK = {"dart:core": "core", "dart:typed_data": "typed_data", "dart:convert": "convert", "dart:async": None,
       "package:fixnum/fixnum.dart": "fixnum", "package:decimal/decimal.dart": "decimal", "package:hbuf_dart/hbuf_dart.dart": "hbuf_dart",
       "package:flutter/widgets.dart": "widgets", "package:flutter/material.dart": "material", "package:flutter/foundation.dart": "foundation",
       "package:hbuf_flutter/hbuf_flutter.dart": "hbuf_flutter"}


# -------------------------------------------------------------------- types
class Ty:
    __slots__ = ("cls", "args", "q", "fn")

    def __init__(self, cls, args=(), q=False, fn=None):
        self.cls, self.args, self.q, self.fn = cls, tuple(args), q, fn

    def __eq__(self, o):
        return isinstance(o, Ty) and self.cls is o.cls and self.args == o.args and self.q == o.q and self.fn == o.fn

    def __hash__(self):
        return hash((id(self.cls), self.args, self.q))

    def __repr__(self):
        if self.fn:
            return repr(self.fn) + ("?" if self.q else "")
        return (self.cls if isinstance(self.cls, str) else self.cls.name) + ("<%s>" % ", ".join(map(repr, self.args)) if self.args else "") + ("?" if self.q else "")


class Fn:
    """the type of a function: ret, pos [Ty], opt [Ty], named {name: (Ty, required)}"""
    def __init__(self, ret, pos, opt=(), named=None, tparams=()):
        self.ret, self.pos, self.opt, self.named, self.tparams = ret, list(pos), list(opt), named or {}, list(tparams)

    def __eq__(self, o):
        return isinstance(o, Fn) and (self.ret, self.pos, self.opt, self.named) == (o.ret, o.pos, o.opt, o.named)

    def __repr__(self):
        ps = [repr(p) for p in self.pos] + (["[%s]" % ", ".join(map(repr, self.opt))] if self.opt else []) + \
            (["{%s}" % ", ".join("%s%r %s" % ("required " if r else "", t, n) for n, (t, r) in self.named.items())] if self.named else [])
        return "%r Function(%s)" % (self.ret, ", ".join(ps))


class TVar:
    def __init__(self, name, bound=None):
        self.name, self.bound = name, bound


DYN, VOID, NULL, NEVER = Ty("dynamic"), Ty("void"), Ty("Null"), Ty("Never")


def fty(fn, q=False):
    return Ty("Function", (), q, fn)


def nonnull(t):
    if t is NULL:
        return NEVER
    return Ty(t.cls, t.args, False, t.fn) if t.q else t


def orNull(t):
    if t in (DYN, VOID, NULL) or t.q:
        return t
    if t is NEVER:
        return NULL
    return Ty(t.cls, t.args, True, t.fn)


def subst(t, m):
    if isinstance(t.cls, TVar):
        if t.cls in m:
            return orNull(m[t.cls]) if t.q else m[t.cls]
        return t
    if t.fn:
        return Ty(t.cls, (), t.q, Fn(subst(t.fn.ret, m), [subst(x, m) for x in t.fn.pos], [subst(x, m) for x in t.fn.opt],
                                     {k: (subst(x, m), r) for k, (x, r) in t.fn.named.items()}, t.fn.tparams))
    return Ty(t.cls, [subst(a, m) for a in t.args], t.q) if t.args else t


def free(t):
    """does the type mention type variables"""
    if isinstance(t.cls, TVar):
        return True
    if t.fn:
        return any(free(x) for x in [t.fn.ret] + t.fn.pos + t.fn.opt + [x for x, _ in t.fn.named.values()])
    return any(free(a) for a in t.args)


class Class:
    def __init__(self, name, lib, node):
        self.name, self.lib, self.node = name, lib, node
        self.tvars, self.ext, self.impl = [], None, []
        self.inst, self.stat, self.ctors = {}, {}, {}
        self.abstract = getattr(node, "abstract", False)
        self.resolved = False

    def __repr__(self):
        return self.name

    def this(self, q=False):
        return Ty(self, [Ty(v) for v in self.tvars], q)


class Member:
    """an instance or static member: kind method/field/getter; a setter is kept apart under 'name='"""
    def __init__(self, kind, name, owner, node, mods=()):
        self.kind, self.name, self.owner, self.node, self.mods = kind, name, owner, node, set(mods)
        self.ty = None        # of a field or getter or setter's value, or the Fn type of a method
        self.abstract = False
        self.init = None
        self.tvars = []
        self.params = []


class Ctor:
    def __init__(self, name, owner, node):
        self.name, self.owner, self.node = name, owner, node
        self.params = []
        self.fn = None


class Lib:
    def __init__(self, uri, native):
        self.uri, self.native = uri, native
        self.decls = {}
        self.imports = []
        self.extensions = []
        self.unit = None


class Var:
    def __init__(self, name, ty, final=False):
        self.name, self.ty, self.final = name, ty, final
        self.assigned = False


class Scope:
    def __init__(self, up=None, fn=None):
        self.up, self.vars, self.promo = up, {}, {}
        self.fn = fn or (up.fn if up else None)

    def find(self, name):
        s = self
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.up
        return None

    def promoted(self, v):
        s = self
        while s is not None:
            if v in s.promo:
                return s.promo[v]
            s = s.up
        return v.ty

    def with_(self, facts):
        s = Scope(self)
        s.promo.update(facts)
        return s


class FnCtx:
    """the function whose body is checked"""
    def __init__(self, cls, static, ret, asynch, infer=False):
        self.cls, self.static, self.ret, self.asynch, self.infer = cls, static, ret, asynch, infer
        self.returns = []


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, files, base=None):
        """files: {uri: source}; every problem is in self.errors"""
        self.files = files
        self.libs = dict(base.libs) if base else {}
        self.errors = []
        self.core = None
        if base:
            self.core, self.c = base.core, base.c
        else:
            self.load("dart:core")
            self.core = self.libs["dart:core"]
            self.c = {n: d for n, d in self.core.decls.items()}
        mine = [u for u in files if u not in self.libs]
        for u in mine:
            self.guard(u, lambda u=u: self.load(u))
        if not base:
            for u in list(SDK):
                self.load(u)
        todo = [l for l in self.libs.values() if base is None or l.uri in files]
        for phase in (self.resolve_lib, self.check_classes, self.check_bodies):
            if not self.errors:
                for l in todo:
                    phase(l)

    def guard(self, where, f):
        try:
            return f()
        except Bad as e:
            self.errors.append("%s: %s" % (where, e))

    # -- loading
    def load(self, uri):
        if uri in self.libs:
            return self.libs[uri]
        if uri in SDK:
            lib = Lib(uri, True)
            src = open(os.path.join(HERE, SDK[uri] + ".dart")).read() if SDK[uri] else ""
        elif uri in self.files:
            lib = Lib(uri, False)
            src = self.files[uri]
        else:
            raise Bad("import of %s, which does not exist" % uri)
        self.libs[uri] = lib
        try:
            lib.unit = parse(src)
        except Bad as e:
            self.errors.append("%s:%s" % (uri, e))
            return lib
        for d in lib.unit.decls:
            if d.kind in ("class", "enum"):
                o = Class(d.name, lib, d)
            elif d.kind == "extension":
                lib.extensions.append(d)
                continue
            elif d.kind == "field":
                for n, e in d.vars:
                    o = self.field(n, None, d, e)
                    o.lib = lib
                    self.declare(lib, n, o, d.line)
                continue
            else:
                o = Member(d.kind, d.name, None, d)
            o.lib = lib
            self.declare(lib, d.name if d.kind != "setter" else d.name + "=", o, d.line)
        for i in lib.unit.imports:
            try:
                lib.imports.append((i, self.load(self.relative(uri, i.uri))))
            except Bad as e:
                self.errors.append("%s:%d: %s" % (uri, i.line, e))
        return lib

    def relative(self, base, uri):
        if uri.startswith(("dart:", "package:")) or uri in SDK:
            return uri
        return os.path.normpath(os.path.join(os.path.dirname(base), uri))

    def declare(self, lib, name, o, line):
        if name in lib.decls:
            self.errors.append("%s:%d: %s is declared twice" % (lib.uri, line, name))
        lib.decls[name] = o

    def field(self, n, owner, d, e):
        m = Member("field", n, owner, d, d.mods)
        m.init = e
        return m

    # -- names
    def exports(self, lib, name, seen=None):
        seen = seen or set()
        if lib.uri in seen or name.startswith("_"):
            return set()
        seen.add(lib.uri)
        r = {lib.decls[name]} if name in lib.decls else set()
        for i, l in lib.imports:
            if i.kind == "export":
                r |= self.exports(l, name, seen)
        return r

    def lookup(self, lib, name, prefix=None):
        if prefix is None and name in lib.decls:
            return lib.decls[name]
        sdk, other = set(), set()
        for i, l in lib.imports:
            if i.kind == "import" and i.prefix == prefix and (i.show is None or name in i.show) and name not in i.hide:
                (sdk if l.uri.startswith("dart:") else other).update(self.exports(l, name))
        if prefix is None:
            sdk |= self.exports(self.core or lib, name)
        found = other or sdk
        if len(found) > 1:
            raise Bad("%s is imported from several libraries" % name)
        return found.pop() if found else None

    def extension(self, lib, t, name):
        """the member of an extension that t.name means in lib"""
        libs, found = [lib], []
        for i, l in lib.imports:
            todo, seen = [l], set()
            while i.kind == "import" and todo:
                x = todo.pop()
                if x.uri not in seen:
                    seen.add(x.uri)
                    libs.append(x)
                    todo += [y for j, y in x.imports if j.kind == "export"]
        for l in libs:
            for d in l.extensions:
                if name in d.inst and self.sub(t, d.ty) and d.inst[name] not in found:
                    found.append(d.inst[name])
        if len(found) > 1:
            raise Bad("%s is in several extensions" % name)
        return found[0] if found else None

    def core_type(self, name, *args, q=False):
        return Ty(self.c[name], args, q)

    @property
    def INT(self):
        return self.core_type("int")

    def type(self, lib, t, tvars=()):
        """a written type"""
        if t is None:
            return DYN
        if t.kind == "ftype":
            return fty(Fn(self.type(lib, t.ret, tvars) if t.ret is not None else DYN, [self.type(lib, x, tvars) for x in t.pos], [self.type(lib, x, tvars) for x in t.opt],
                          {k: (self.type(lib, x, tvars), r) for k, (x, r) in t.named.items()}), t.q)
        n = t.name
        if n in ("dynamic", "void", "Never") and t.prefix is None:
            return {"dynamic": DYN, "void": VOID, "Never": NEVER}[n]
        if n == "Null" and t.prefix is None:
            return NULL
        for v in tvars:
            if v.name == n:
                return Ty(v, (), t.q)
        o = self.lookup(lib, n, t.prefix)
        if o is None:
            raise Bad("the type %s is not defined" % n, "%s:%d" % (lib.uri, t.line))
        if isinstance(o, Member) and o.kind == "typedef":
            r = self.type(o.lib, o.node.type)
            return orNull(r) if t.q else r
        if not isinstance(o, Class):
            raise Bad("%s is not a type" % n, "%s:%d" % (lib.uri, t.line))
        args = [self.type(lib, a, tvars) for a in t.args]
        want = len(o.node.tparams) if o.node.kind == "class" else 0
        if args and len(args) != want:
            raise Bad("%s takes %d types, not %d" % (n, want, len(args)), "%s:%d" % (lib.uri, t.line))
        return Ty(o, args or [DYN] * want, t.q)

    # -- declarations
    def resolve_lib(self, lib):
        for o in list(lib.decls.values()):
            self.guard(lib.uri, lambda: self.resolve(o))
        for d in lib.extensions:
            d.ty = self.type(lib, d.on)
            for m in d.members:
                x = Member(m.kind, m.name, None, m, m.mods)
                x.lib = lib
                self.resolve_fn(x, lib, m, [])
                x.native = "%s.%s" % (d.name, m.name)
                d.inst = dict(getattr(d, "inst", {}), **{m.name: x})

    def resolve(self, o):
        lib = o.lib if hasattr(o, "lib") else None
        if isinstance(o, Class):
            return self.resolve_class(o)
        if o.kind == "method":
            self.resolve_fn(o, lib, o.node, [])
        elif o.kind in ("getter",):
            o.ty = self.type(lib, o.node.type)
        elif o.kind == "field":
            o.ty = self.type(lib, o.node.type) if o.node.type is not None else None
        elif o.kind == "setter":
            o.ty = self.type(lib, o.node.params[0].type)

    def params(self, lib, ps, tvars, cls=None):
        """-> Fn pieces; fills p.ty"""
        pos, opt, named, seen = [], [], {}, set()
        for p in ps:
            if p.name in seen:
                raise Bad("the parameter %s is there twice" % p.name, "%s:%d" % (lib.uri, p.line))
            seen.add(p.name)
            p.ty = self.type(lib, p.type, tvars) if p.type is not None else None
            if p.field:
                f = cls.inst.get(p.name) if cls else None
                if f is None or f.kind != "field":
                    raise Bad("this.%s is not a field" % p.name, "%s:%d" % (lib.uri, p.line))
                if p.ty is None:
                    p.ty = f.ty
            if p.ty is None:
                p.ty = DYN
            if p.how == "named" and p.name.startswith("_"):
                raise Bad("a named parameter must not be private: %s" % p.name, "%s:%d" % (lib.uri, p.line))
            if p.how == "pos":
                pos.append(p.ty)
            elif p.how == "opt":
                opt.append(p.ty)
            else:
                named[p.name] = (p.ty, p.req)
            if p.how != "pos" and not p.req and p.default is None and not (p.ty.q or p.ty in (DYN, NULL, VOID)) and not lib.native:
                raise Bad("the parameter %s needs a default: %r has no null" % (p.name, p.ty), "%s:%d" % (lib.uri, p.line))
        return pos, opt, named

    def resolve_fn(self, m, lib, node, tvars):
        m.tvars = [TVar(n) for n, _ in node.tparams]
        tv = list(tvars) + m.tvars
        for v, (_, b) in zip(m.tvars, node.tparams):
            v.bound = self.type(lib, b, tv) if b is not None else None
        pos, opt, named = self.params(lib, node.params, tv)
        m.params = node.params
        m.ty = fty(Fn(self.type(lib, node.type, tv) if node.type is not None else DYN, pos, opt, named, m.tvars))

    def resolve_class(self, c):
        if c.resolved:
            return
        c.resolved = True
        lib, node = c.lib, c.node
        where = lambda n: "%s:%d" % (lib.uri, n.line)
        if node.kind == "enum":
            for k, n in enumerate(node.items):
                m = Member("field", n, c, node, {"static", "final"})
                m.ty = Ty(c)
                c.stat[n] = m
            return
        c.tvars = [TVar(n) for n, _ in node.tparams]
        for v, (_, b) in zip(c.tvars, node.tparams):
            v.bound = self.type(lib, b, c.tvars) if b is not None else None
        sup = [node.ext] if node.ext is not None else []
        tys = [self.type(lib, t, c.tvars) for t in sup + node.mix + node.impl]
        for t in tys:
            if not isinstance(t.cls, Class) or t.q:
                raise Bad("%s cannot extend %r" % (c.name, t), where(node))
            if t.cls.lib.native and not c.lib.native and t.cls.name in ("int", "double", "num", "String", "bool", "Null", "DateTime0"):
                raise Bad("%s cannot implement %r" % (c.name, t), where(node))
        if node.ext is not None:
            c.ext = tys[0]
        c.impl = tys[1 if node.ext is not None else 0:]
        if len(set(map(lambda t: t.cls, c.impl))) != len(c.impl):
            raise Bad("%s implements a class twice" % c.name, where(node))
        for t in tys:
            self.resolve_class(t.cls)
        # members
        for m in node.members:
            if m.kind == "ctor":
                if m.name in c.ctors:
                    raise Bad("the constructor %s.%s is there twice" % (c.name, m.name), where(m))
                c.ctors[m.name] = Ctor(m.name, c, m)
                continue
            names = m.vars if m.kind == "field" else [(m.name, None)]
            for n, e in names:
                x = Member(m.kind, n, c, m, m.mods)
                x.init = e
                table, other = (c.stat, c.inst) if "static" in m.mods else (c.inst, c.stat)
                key = n + "=" if m.kind == "setter" else n
                clash = [key] if m.kind in ("getter", "setter") else [n, n + "="]
                if m.kind == "getter" and n in table or m.kind == "setter" and n in table and table[n].kind not in ("getter",) and not ("final" in table[n].mods):
                    clash = [n]
                if any(k in table for k in clash) and not (m.kind == "getter" and n not in table):
                    raise Bad("%s.%s is declared twice" % (c.name, n), where(m))
                if n in other or n + "=" in other:
                    raise Bad("%s.%s is declared static and not static" % (c.name, n), where(m))
                if n == c.name:
                    raise Bad("the member %s is named like its class" % n, where(m))
                table[key] = x
                if m.kind == "field":
                    x.ty = self.type(lib, m.type, c.tvars) if m.type is not None else None
                elif m.kind == "getter":
                    x.ty = self.type(lib, m.type, c.tvars)
                    x.abstract = m.body is None and c.abstract and "external" not in m.mods and "static" not in m.mods
                elif m.kind == "setter":
                    if len(m.params) != 1 or m.params[0].how != "pos":
                        raise Bad("the setter %s takes one value" % n, where(m))
                    self.params(lib, m.params, c.tvars)
                    x.params = m.params
                    x.ty = m.params[0].ty
                    x.abstract = m.body is None and c.abstract
                else:
                    self.resolve_fn(x, lib, m, c.tvars)
                    x.abstract = m.body is None and c.abstract and "external" not in m.mods and "static" not in m.mods
                if m.kind != "field" and m.body is None and not c.abstract and not lib.native:
                    raise Bad("%s.%s has no body" % (c.name, n), where(m))
        for k in c.ctors:
            if k and (k in c.stat):
                raise Bad("%s.%s is a constructor and a static member" % (c.name, k), where(node))
        for k in c.ctors.values():
            self.resolve_ctor(c, k)
        if not c.ctors:
            node2 = N("ctor", node.line, name="", params=[], inits=[], body=None, mods=set(), redirect=None)
            k = c.ctors[""] = Ctor("", c, node2)
            self.resolve_ctor(c, k)

    def resolve_ctor(self, c, k):
        pos, opt, named = self.params(c.lib, k.node.params, c.tvars, c)
        k.params = k.node.params
        k.fn = Fn(c.this(), pos, opt, named, c.tvars)

    # -- supertypes and members
    def supers(self, c):
        r = ([c.ext] if c.ext else []) + c.impl
        if not r and c.name != "Object":
            r = [Ty(self.c["Object"])]
        return r

    def member(self, t, name):
        """(member, substitution) of an instance member of an interface type"""
        if t.fn:
            return self.member(Ty(self.c["Object"]), name)
        if isinstance(t.cls, TVar):
            return self.member(t.cls.bound or Ty(self.c["Object"]), name)
        if isinstance(t.cls, str):
            return self.member(Ty(self.c["Object"]), name)
        m = dict(zip(t.cls.tvars, t.args))
        if name in t.cls.inst:
            return t.cls.inst[name], m
        for s in self.supers(t.cls):
            r = self.member(subst(s, m), name)
            if r and r[0].owner.name != "Object":
                return r
        o = self.c["Object"].inst
        return (o[name], {}) if name in o else None

    def all_members(self, c, seen=None):
        """{name: [(member, substitution)]} over c and all it extends and implements"""
        r = {}

        def walk(t):
            m = dict(zip(t.cls.tvars, t.args))
            for n, x in t.cls.inst.items():
                r.setdefault(n, []).append((x, m, t.cls))
            for s in self.supers(t.cls):
                walk(subst(s, m))
        walk(c.this())
        return r

    def concrete(self, c, name):
        """the member an object of class c has"""
        k = c
        while k is not None:
            x = k.inst.get(name)
            if x is not None and not x.abstract:
                return x
            if x is None and name.endswith("=") and name[:-1] in k.inst and k.inst[name[:-1]].kind == "field" and "final" not in k.inst[name[:-1]].mods:
                return k.inst[name[:-1]]
            k = k.ext.cls if k.ext else None
        return self.c["Object"].inst.get(name)

    def is_sub_class(self, c, d):
        return c is d or any(self.is_sub_class(s.cls, d) for s in self.supers(c))

    def as_super(self, t, d):
        """the type arguments for d of an interface type"""
        if not isinstance(t.cls, Class):
            return None
        if t.cls is d:
            return t
        m = dict(zip(t.cls.tvars, t.args))
        for s in self.supers(t.cls):
            r = self.as_super(subst(s, m), d)
            if r:
                return r
        return None

    def sub(self, a, b):
        if a == b or b in (DYN, VOID) or a is NEVER:
            return True
        if isinstance(b.cls, Class) and b.cls.name == "Object" and b.cls.lib.native and b.q:
            return True
        if a is NULL:
            return b.q or b is NULL
        if a in (DYN, VOID):
            return False
        if a.q and not b.q:
            return False
        a, b = nonnull(a), nonnull(b)
        if a == b:
            return True
        if isinstance(a.cls, TVar):
            return a.cls is b.cls or self.sub(a.cls.bound or self.core_type("Object", q=True), b)
        if isinstance(b.cls, TVar):
            return False
        if isinstance(b.cls, Class) and b.cls.name == "Object" and b.cls.lib.native:
            return True
        if a.fn:
            if not b.fn:
                return isinstance(b.cls, Class) and b.cls.name == "Function"
            x, y = a.fn, b.fn
            if not (y.ret is VOID or self.sub(x.ret, y.ret)):
                return False
            if len(x.pos) > len(y.pos) or len(x.pos) + len(x.opt) < len(y.pos) + len(y.opt):
                return False
            xs, ys = x.pos + x.opt, y.pos + y.opt
            if not all(self.sub(q, p) for p, q in zip(xs, ys)):
                return False
            if any(n not in x.named or not self.sub(t, x.named[n][0]) for n, (t, _) in y.named.items()):
                return False
            return all(not r or (n in y.named and y.named[n][1]) for n, (_, r) in x.named.items())
        if not isinstance(b.cls, Class) or not isinstance(a.cls, Class):
            return False
        s = self.as_super(a, b.cls)
        return s is not None and all(self.sub(p, q) for p, q in zip(s.args, b.args))

    def assignable(self, a, b):
        return a is DYN or self.sub(a, b)

    def lub(self, a, b):
        if a == b:
            return a
        if DYN in (a, b):
            return DYN
        if VOID in (a, b):
            return VOID
        if a is NEVER or b is NEVER:
            return b if a is NEVER else a
        if a is NULL or b is NULL:
            return orNull(b if a is NULL else a)
        q = a.q or b.q
        x, y = nonnull(a), nonnull(b)
        r = None
        if self.sub(x, y):
            r = y
        elif self.sub(y, x):
            r = x
        elif isinstance(x.cls, Class) and isinstance(y.cls, Class) and x.cls is y.cls:
            r = Ty(x.cls, [self.lub(p, w) for p, w in zip(x.args, y.args)])
        else:
            num = self.core_type("num")
            r = num if self.sub(x, num) and self.sub(y, num) else self.common(x, y)
        return orNull(r) if q else r

    def common(self, x, y):
        """the deepest type that is above both and alone at its depth"""
        top = self.core_type("Object")
        if x.fn or y.fn or not isinstance(x.cls, Class) or not isinstance(y.cls, Class):
            return top

        def above(t, out):
            m = dict(zip(t.cls.tvars, t.args))
            d = 0
            for s in self.supers(t.cls):
                d = max(d, 1 + above(subst(s, m), out))
            out[t] = d
            return d
        a, b = {}, {}
        above(x, a)
        above(y, b)
        both = [t for t in a if t in b]
        for d in sorted({a[t] for t in both}, reverse=True):
            at = [t for t in both if a[t] == d]
            if len(at) == 1:
                return at[0]
        return top

    # -- classes
    def check_classes(self, lib):
        for c in lib.decls.values():
            if isinstance(c, Class) and c.node.kind == "class" and not lib.native:
                self.guard("%s:%d" % (lib.uri, c.node.line), lambda: self.check_class(c))

    def prop(self, x):
        return x.kind in ("field", "getter")

    def check_class(self, c):
        allm = self.all_members(c)
        for n, ms in allm.items():
            own = c.inst.get(n)
            for x, m, k in ms:
                if x is own or k.name == "Object":
                    continue
                if own is None and n.endswith("=") and n[:-1] in c.inst and self.prop(c.inst[n[:-1]]) and c.inst[n[:-1]].kind == "field":
                    if "final" in c.inst[n[:-1]].mods:
                        raise Bad("%s.%s has no setter, as %s demands" % (c.name, n[:-1], k.name))
                    t = c.inst[n[:-1]].ty
                    if not self.sub(subst(x.ty, m), t):
                        raise Bad("the setter %s.%s does not override that of %s" % (c.name, n[:-1], k.name))
                    continue
                if own is None:
                    continue
                if (own.kind == "method") != (x.kind == "method"):
                    raise Bad("%s.%s and %s.%s are of different kinds" % (c.name, n, k.name, n))
                if own.kind == "setter":
                    if not self.sub(subst(x.ty, m), own.ty):
                        raise Bad("the setter %s.%s does not override that of %s" % (c.name, n[:-1], k.name))
                elif own.ty is not None and x.ty is not None and not self.sub(self.rename(own, x), self.loosen(subst(x.ty, m), x, own)):
                    raise Bad("%s.%s is a %r, %s demands a %r" % (c.name, n, own.ty, k.name, subst(x.ty, m)))
        # conflicts between what is inherited
        for n, ms in allm.items():
            if n not in c.inst:
                tys = [(x, subst(x.ty, m)) for x, m, k in ms if x.ty is not None and k.name != "Object"]
                if tys and len({x.kind == "method" for x, _ in tys}) > 1:
                    raise Bad("%s inherits different kinds of %s" % (c.name, n))
                if len(tys) > 1 and not n.endswith("=") and not any(all(self.sub(a, b) for _, b in tys) for _, a in tys) and not (n[:-1] in c.inst):
                    raise Bad("%s inherits %s with different types" % (c.name, n))
        if not c.abstract:
            for n, ms in allm.items():
                x = self.concrete(c, n)
                if any(y.abstract for y, _, _ in ms) or any(k is not c and not self.extends(c, k) for _, _, k in ms):
                    if all(k.name == "Object" for _, _, k in ms):
                        continue
                    if x is None or (x.owner.name == "Object" and not any(k.name == "Object" for _, _, k in ms)):
                        raise Bad("%s does not implement %s of %s" % (c.name, n, ms[0][2].name))
                    for y, m, k in ms:
                        if y.kind == "field" and "final" not in y.mods and k is not c and not self.extends(c, k):
                            if self.concrete(c, n + "=") is None:
                                raise Bad("%s does not implement the setter %s of %s" % (c.name, n, k.name))
        # fields without values
        gens = [k for k in c.ctors.values() if "factory" not in k.node.mods and k.node.redirect is None and not any(i.kind == "redirect" for i in k.node.inits)]
        for n, x in c.inst.items():
            if x.kind == "field" and x.init is None and "late" not in x.node.mods and x.ty is not None and not (x.ty.q or x.ty in (DYN, NULL, VOID)) or \
                    x.kind == "field" and x.init is None and "final" in x.mods and "late" not in x.mods:
                for k in gens:
                    if not any(p.field and p.name == n for p in k.params) and not any(i.kind == "set" and i.name == n for i in k.node.inits):
                        raise Bad("the field %s.%s has no value" % (c.name, n))
        for n, x in c.stat.items():
            if x.kind == "field" and x.init is None and "late" not in x.mods and (x.ty is None or not (x.ty.q or x.ty is DYN)):
                raise Bad("the static field %s.%s has no value" % (c.name, n))

    def loosen(self, t, x, own):
        """a covariant parameter may also be of a smaller type"""
        ps = [p for p in getattr(x.node, "params", None) or [] if p.how == "pos"] if x.kind == "method" else []
        if not t.fn or not any(p.cov for p in ps) or not own.ty.fn:
            return t
        pos = [o if p.cov and self.sub(o, w) else w for p, w, o in zip(ps, t.fn.pos, own.ty.fn.pos)] + t.fn.pos[len(own.ty.fn.pos):]
        return Ty(t.cls, t.args, t.q, Fn(t.fn.ret, pos, t.fn.opt, t.fn.named, t.fn.tparams))

    def rename(self, own, x):
        if own.kind == "method" and own.tvars and len(own.tvars) == len(x.tvars):
            return subst(own.ty, dict(zip(own.tvars, [Ty(v) for v in x.tvars])))
        return own.ty

    def extends(self, c, k):
        while c is not None:
            if c is k:
                return True
            c = c.ext.cls if c.ext else None
        return k.name == "Object"

    # -- bodies
    def check_bodies(self, lib):
        if lib.native:
            for d in lib.decls.values():
                if isinstance(d, Class):
                    for x in list(d.stat.values()) + list(d.inst.values()):
                        if x.kind == "field" and x.init is not None:
                            Body(self, lib, d, True).value(x)
                elif d.kind == "field" and d.init is not None:
                    Body(self, lib, None, True).value(d)
            return
        for d in lib.decls.values():
            if isinstance(d, Class):
                for x in list(d.inst.values()) + list(d.stat.values()):
                    if d.node.kind == "class":
                        self.guard(lib.uri, lambda: Body(self, lib, d, "static" in x.mods).member(x))
                for k in d.ctors.values():
                    if d.node.kind == "class":
                        self.guard(lib.uri, lambda: Body(self, lib, d, False).ctor(k))
            else:
                self.guard(lib.uri, lambda: Body(self, lib, None, True).member(d))


def assigned_names(n, out):
    """names of variables that are assigned somewhere below"""
    if isinstance(n, N):
        if n.kind in ("assign", "post") and n.target.kind == "id":
            out.add(n.target.name)
        for v in n.__dict__.values():
            assigned_names(v, out)
    elif isinstance(n, (list, tuple)):
        for x in n:
            assigned_names(x, out)
    return out


class Body:
    def __init__(self, prog, lib, cls, static):
        self.p, self.lib, self.cls, self.static = prog, lib, cls, static
        self.tvars = list(cls.tvars) if cls else []
        self.fn = None
        self.assigned = set()

    def bad(self, n, msg):
        raise Bad(msg, "%s:%d" % (self.lib.uri, n.line))

    def T(self, name, *args, q=False):
        return self.p.core_type(name, *args, q=q)

    def wtype(self, t):
        return self.p.type(self.lib, t, self.tvars)

    # -- members
    def value(self, x):
        if x.ty is None:
            x.ty = self.infer(x.init, None, Scope())
        else:
            self.check(x.init, x.ty, Scope())

    def member(self, x):
        n = x.node
        if x.kind == "field":
            if x.init is not None and not getattr(x, "done", False):
                x.done = True
                self.value(x)
            elif x.ty is None:
                x.ty = DYN
            return
        if x.kind == "typedef":
            self.p.type(self.lib, n.type)
            return
        if n.body is None:
            return
        ret = x.ty if x.kind == "getter" else VOID if x.kind == "setter" else x.ty.fn.ret
        self.tvars = self.tvars + x.tvars
        self.function(n.params if x.kind != "getter" else [], n.body, ret)

    def function(self, params, body, ret):
        s = Scope()
        self.assigned = assigned = assigned_names(body, set())
        for p in params:
            v = Var(p.name, p.ty)
            v.assigned = p.name in assigned
            s.vars[p.name] = v
            if p.default is not None:
                self.check(p.default, p.ty, Scope())
        self.fn = FnCtx(self.cls, self.static, ret, body.asynch)
        self.body(body, s, ret)

    def flatten(self, t):
        return t.args[0] if isinstance(t.cls, Class) and t.cls.name == "Future" else t

    def body(self, body, s, ret):
        """checks a body against its return type"""
        if body.asynch:
            if not (ret in (DYN, VOID) or isinstance(ret.cls, Class) and ret.cls.name in ("Future", "FutureOr", "Object")):
                self.bad(body, "an async function returns a Future, not %r" % ret)
            inner = self.flatten(ret) if ret not in (DYN, VOID) else ret
        else:
            inner = ret
        self.fn.inner = inner
        if body.expr is not None:
            if inner is VOID:
                self.infer(body.expr, None, Scope(s))
            else:
                t = self.infer(body.expr, inner, Scope(s))
                if body.asynch:
                    t2 = self.flatten(t)
                    body.expr.await_ = t2 is not t
                    self.fits(body.expr, t2, inner)
                else:
                    self.fits(body.expr, t, inner)
        else:
            ends = self.block(body.stmts, Scope(s))
            if not ends and not (inner in (VOID, DYN, NULL) or inner.q):
                self.bad(body, "the function may end without a value of type %r" % inner)

    def ctor(self, k):
        n = k.node
        s = Scope()
        for p in n.params:
            s.vars[p.name] = Var(p.name, p.ty)
            if p.default is not None:
                self.check(p.default, p.ty, Scope())
            if p.field and p.type is not None:
                self.p.sub(p.ty, self.cls.inst[p.name].ty) or self.bad(n, "this.%s is a %r" % (p.name, p.ty))
        if "factory" in n.mods:
            if n.redirect is not None:
                self.bad(n, "redirecting factories are not supported")
            self.static = True
            if n.body is None:
                self.bad(n, "the factory has no body")
            self.fn = FnCtx(self.cls, True, self.cls.this(), False)
            self.body(n.body, s, self.cls.this())
            return
        sup = None
        self.static = True
        self.fn = FnCtx(self.cls, True, VOID, False)
        for i in n.inits:
            if i.kind == "super":
                sup = i
            elif i.kind == "set":
                f = self.cls.inst.get(i.name)
                if f is None or f.kind != "field":
                    self.bad(i, "%s is not a field" % i.name)
                self.check(i.value, f.ty, s)
            elif i.kind == "redirect":
                t = self.cls.ctors.get(i.name)
                if t is None:
                    self.bad(i, "no constructor %s.%s" % (self.cls.name, i.name))
                self.call(i, t.fn, i.args, [], None, s)
        if self.cls.ext is not None and not any(i.kind == "redirect" for i in n.inits):
            sc = self.cls.ext.cls
            name = sup.name if sup is not None else ""
            t = sc.ctors.get(name)
            if t is None:
                self.bad(n, "%s has no constructor %s" % (sc.name, name or "without a name"))
            if "factory" in t.node.mods:
                self.bad(n, "the constructor of %s is a factory" % sc.name)
            dummy = sup or N("super", n.line, name="", args=[])
            self.call(dummy, t.fn, dummy.args, [], None, s)
        elif sup is not None and self.cls.ext is None and sup.args:
            self.bad(n, "%s extends nothing" % self.cls.name)
        self.static = False
        if n.body is not None:
            self.fn = FnCtx(self.cls, False, VOID, False)
            self.body(n.body, s, VOID)

    # -- statements; the result tells that the end is not reached
    def block(self, stmts, s):
        for k, x in enumerate(stmts):
            if self.stmt(x, s):
                return True
        return False

    def declare(self, n, s, name, v):
        if name in s.vars:
            self.bad(n, "%s is declared twice" % name)
        s.vars[name] = v

    def stmt(self, n, s):
        k = n.kind
        if k == "expr":
            self.infer(n.value, None, s)
            e = n.value
            while e.kind == "paren":
                e = e.of
            return e.kind == "throw"
        if k == "block":
            x = Scope(s)
            end = self.block(n.stmts, x)
            s.promo.update({v: t for v, t in x.promo.items() if v not in x.vars.values()})
            return end
        if k == "var":
            t = self.wtype(n.type) if n.type is not None else None
            for name, e in n.vars:
                if e is None:
                    v = Var(name, t if t is not None else DYN, n.final)
                    if v.ty not in (DYN, VOID) and not v.ty.q:
                        v.late = True
                else:
                    if t is None:
                        x = self.infer(e, None, s)
                        v = Var(name, DYN if x is NULL else x, n.final)
                        if x is VOID:
                            self.bad(n, "a value of type void cannot be used")
                    else:
                        self.check(e, t, s)
                        v = Var(name, t, n.final)
                v.assigned = name in self.assigned
                self.declare(n, s, name, v)
            return False
        if k == "return":
            self.fn.returned = True
            if n.value is None:
                if not (self.fn.infer or self.fn.inner in (VOID, DYN, NULL) or self.fn.inner.q):
                    self.bad(n, "a value of type %r must be returned" % self.fn.inner)
                self.fn.returns.append(NULL)
            elif self.fn.infer:
                t = self.infer(n.value, self.fn.inner, s)
                if self.fn.asynch:
                    t2 = self.flatten(t)
                    n.value.await_ = t2 is not t
                    t = t2
                self.fn.returns.append(t)
            else:
                inner = self.fn.inner
                t = self.infer(n.value, inner, s)
                if self.fn.asynch:
                    t2 = self.flatten(t)
                    n.value.await_ = t2 is not t
                    t = t2
                if inner is VOID:
                    if t not in (VOID, DYN, NULL):
                        self.bad(n, "a value is returned where there is none")
                elif t is VOID and inner is not DYN:
                    self.bad(n, "a value of type void cannot be used")
                else:
                    self.fits(n.value, t, inner)
            return True
        if k == "if":
            self.check(n.cond, self.T("bool"), s)
            x, y = s.with_(self.facts(n.cond, s, True)), s.with_(self.facts(n.cond, s, False))
            a = self.stmt(n.then, x)
            b = self.stmt(n.other, y) if n.other is not None else False
            if a and not b:
                s.promo.update(y.promo)
            elif b and not a:
                s.promo.update(x.promo)
            elif not a:
                s.promo.update({v: t for v, t in x.promo.items() if y.promoted(v) == t})
            return a and b
        if k == "while":
            self.check(n.cond, self.T("bool"), s)
            self.stmt(n.body, s.with_(self.facts(n.cond, s, True)))
            return n.cond.kind == "lit" and n.cond.v is True
        if k == "forin":
            x = Scope(s)
            x.vars[n.name] = Var(n.name, self.looped(n, s))
            self.stmt(n.body, x)
            return False
        if k == "for":
            x = Scope(s)
            if n.init is not None:
                self.stmt(n.init, x)
            if n.cond is not None:
                self.check(n.cond, self.T("bool"), x)
            for e in n.step:
                self.infer(e, None, x)
            self.stmt(n.body, Scope(x))
            return False
        if k == "switch":
            t = self.infer(n.value, None, s)
            default, ends = False, True
            for labels, ss in n.cases:
                for l in labels:
                    if l is None:
                        default = True
                    else:
                        lt = self.infer(l, t, s)
                        if not (self.p.sub(lt, nonnull(t)) or t is DYN):
                            self.bad(l, "the case is a %r, not a %r" % (lt, t))
                x = Scope(s)
                done = False
                for st in ss:
                    done = self.stmt(st, x)
                    if st.kind in ("break",):
                        ends = False
                        done = True
                if ss and not done:
                    if labels is not n.cases[-1][0]:
                        self.bad(n, "a case runs into the next")
                    ends = False
            return ends and default
        if k in ("break", "continue"):
            return True
        if k == "rethrow":
            return True
        if k == "assert":
            self.check(n.args[0][1], self.T("bool"), s)
            return False
        if k == "try":
            a = self.block(n.body, Scope(s))
            for t, e, st, b in n.catches:
                x = Scope(s)
                if e:
                    x.vars[e] = Var(e, self.wtype(t) if t is not None else self.T("Object"))
                if st:
                    x.vars[st] = Var(st, self.T("StackTrace"))
                a = self.block(b, x) and a
            if n.fin is not None:
                a = self.block(n.fin, Scope(s)) or a
            return a
        if k == "localfn":
            t = self.infer(n.fn, None, s)
            self.declare(n, s, n.name, Var(n.name, t, True))
            return False
        self.bad(n, "unknown statement")

    # -- flow
    def facts(self, c, s, yes):
        """what is known of variables when c is yes"""
        if c.kind == "paren":
            return self.facts(c.of, s, yes)
        if c.kind == "un" and c.op == "!":
            return self.facts(c.of, s, not yes)
        if c.kind == "bin" and c.op in ("&&", "||"):
            if (c.op == "&&") == yes:
                a = self.facts(c.a, s, yes)
                return {**a, **self.facts(c.b, s.with_(a), yes)}
            return {}
        if c.kind == "is":
            v = self.local(c.of, s)
            if v is not None and yes != c.neg:
                t = c.test
                cur = s.promoted(v)
                if cur is DYN or self.p.sub(t, cur) and t != cur:
                    return {v: t}
            return {}
        if c.kind == "bin" and c.op in ("==", "!="):
            for a, b in ((c.a, c.b), (c.b, c.a)):
                if a.kind == "lit" and a.v is None:
                    v = self.local(b, s)
                    if v is not None and (c.op == "!=") == yes:
                        cur = s.promoted(v)
                        if cur.q:
                            return {v: nonnull(cur)}
        return {}

    def local(self, e, s):
        while e.kind == "paren":
            e = e.of
        return s.find(e.name) if e.kind == "id" else None

    # -- expressions
    def check(self, n, want, s):
        """n as a value of type want"""
        t = self.infer(n, want, s)
        if t is VOID and want is not VOID:
            self.bad(n, "a value of type void cannot be used")
        self.fits(n, t, want)
        return t

    def fits(self, n, t, want):
        if want is VOID:
            return
        if t is VOID and want is not DYN:
            self.bad(n, "a value of type void cannot be used")
        if not self.p.assignable(t, want):
            self.bad(n, "a value of type %r where a %r is needed" % (t, want))
        if t is DYN and want is not DYN:
            n.cast = want

    def infer(self, n, ctx, s):
        t = getattr(self, "e_" + n.kind)(n, ctx, s)
        n.ty = t
        return t

    def e_lit(self, n, ctx, s):
        return NULL if n.v is None else self.T("bool")

    def e_int(self, n, ctx, s):
        if ctx is not None and isinstance(ctx.cls, Class) and ctx.cls is self.p.c["double"]:
            n.double = True
            return self.T("double")
        return self.T("int")

    def e_double(self, n, ctx, s):
        return self.T("double")

    def e_str(self, n, ctx, s):
        for p in n.parts:
            if not isinstance(p, str):
                if self.infer(p, None, s) is VOID:
                    self.bad(n, "a value of type void cannot be used")
        return self.T("String")

    def e_paren(self, n, ctx, s):
        return self.infer(n.of, ctx, s)

    def e_hole(self, n, ctx, s):
        return n.ty

    def e_this(self, n, ctx, s):
        if self.static or self.cls is None:
            self.bad(n, "there is no this here")
        return self.cls.this()

    def e_superref(self, n, ctx, s):
        if self.static or self.cls is None:
            self.bad(n, "there is no super here")
        return self.cls.ext or self.T("Object")

    def e_throw(self, n, ctx, s):
        t = self.infer(n.value, None, s)
        if t.q or t in (NULL, VOID):
            self.bad(n, "cannot throw a %r" % t)
        return NEVER

    def e_await(self, n, ctx, s):
        if not self.fn or not self.fn.asynch:
            self.bad(n, "await outside of an async function")
        return self.flatten(self.infer(n.of, None, s))

    def e_id(self, n, ctx, s):
        v = s.find(n.name)
        if v is not None:
            n.ref = ("local",)
            return s.promoted(v)
        if self.cls is not None:
            if n.name in self.cls.stat:
                return self.static_ref(n, self.cls, n.name)
            if not self.static:
                r = self.p.member(self.cls.this(), n.name)
                if r is not None:
                    n.ref = ("this",)
                    return self.mtype(n, r)
            else:
                if self.p.member(self.cls.this(), n.name) is not None and n.name in self.cls.inst:
                    self.bad(n, "%s is not static" % n.name)
        try:
            o = self.p.lookup(self.lib, n.name)
        except Bad as e:
            self.bad(n, str(e))
        if o is None:
            for i, l in self.lib.imports:
                if i.prefix == n.name:
                    n.ref = ("prefix", n.name)
                    return self.T("Type")
            for tv in self.tvars:
                if tv.name == n.name:
                    n.ref = ("tvar", tv)
                    return self.T("Type")
            self.bad(n, "%s is not defined" % n.name)
        return self.top_ref(n, o)

    def top_ref(self, n, o):
        if isinstance(o, Class):
            n.ref = ("class", o)
            return self.T("Type")
        n.ref = ("top", o)
        if o.kind == "typedef":
            self.bad(n, "a typedef is not a value")
        if o.kind == "field" and o.ty is None:
            Body(self.p, o.lib, None, True).member(o)
        return o.ty

    def static_ref(self, n, cls, name):
        m = cls.stat[name]
        n.ref = ("static", cls, m)
        if m.kind == "field" and m.ty is None:
            b = Body(self.p, cls.lib, cls, True)
            m.done = True
            b.value(m)
        if m.kind == "setter":
            self.bad(n, "%s has no getter" % name)
        return m.ty

    def mtype(self, n, r):
        m, sub = r
        n.member = m
        if m.kind == "setter":
            self.bad(n, "%s has no getter" % m.name)
        if m.kind == "field" and m.ty is None:
            b = Body(self.p, m.owner.lib, m.owner, False)
            m.done = True
            b.value(m)
        return subst(m.ty, sub)

    def e_tid(self, n, ctx, s):
        o = self.p.lookup(self.lib, n.name)
        if not isinstance(o, Class):
            self.bad(n, "%s is not a type" % n.name)
        n.ref = ("class", o)
        n.rtargs = [self.wtype(t) for t in n.targs]
        return self.T("Type")

    def class_of(self, n):
        """the class an expression names"""
        r = getattr(n, "ref", None)
        return r[1] if r and r[0] == "class" and n.kind in ("id", "tid", "get") else None

    def e_get(self, n, ctx, s):
        t = self.infer(n.of, None, s)
        c = self.class_of(n.of)
        if getattr(n.of, "ref", ("",))[0] == "prefix":
            o = self.p.lookup(self.lib, n.name, n.of.ref[1])
            if o is None:
                self.bad(n, "%s.%s is not defined" % (n.of.ref[1], n.name))
            return self.top_ref(n, o)
        if c is not None:
            if n.name in c.stat:
                if n.name.startswith("_") and c.lib is not self.lib:
                    self.bad(n, "%s.%s is private" % (c.name, n.name))
                return self.static_ref(n, c, n.name)
            if c.node.kind == "enum" and n.name == "values":
                n.ref = ("enumvalues", c)
                return self.T("List", Ty(c))
            if n.name in c.ctors:
                n.ref = ("ctor", c, c.ctors[n.name])
                if n.name.startswith("_") and c.lib is not self.lib:
                    self.bad(n, "%s.%s is private" % (c.name, n.name))
                return fty(c.ctors[n.name].fn)
            if n.name not in ("toString", "hashCode", "runtimeType"):
                self.bad(n, "%s has no static member %s" % (c.name, n.name))
        r = self.get(n, t, n.name, n.q)
        return r

    def get(self, n, t, name, q):
        """the type of t.name"""
        if t is NEVER or t is DYN and name not in ("toString", "hashCode", "runtimeType"):
            return DYN
        if t is DYN:
            return self.mtype(n, self.p.member(self.T("Object"), name))
        if t is VOID:
            self.bad(n, "a value of type void cannot be used")
        if t is NULL and q:
            return NULL
        base = t
        if t.q or t is NULL:
            if q:
                base = nonnull(t)
            elif self.shorted(n.of):
                base = nonnull(t)
            elif name not in ("toString", "hashCode", "runtimeType", "noSuchMethod"):
                self.bad(n, "%s of a %r, which may be null" % (name, t))
        r = self.p.member(base, name)
        if base.fn and name == "call":
            return base
        if r is None:
            x = self.p.extension(self.lib, base, name)
            if x is None:
                self.bad(n, "a %r has no %s" % (base, name))
            n.ext = x
            return orNull(x.ty) if (t.q and q) or (self.shorted(n.of) and t.q) else x.ty
        if name.startswith("_") and r[0].owner.lib is not self.lib:
            self.bad(n, "%s is private" % name)
        x = self.mtype(n, r)
        if (t.q and q) or (self.shorted(n.of) and t.q):
            return orNull(x)
        return x

    def shorted(self, e):
        """is e part of a chain with ?. before it, where null ends the chain"""
        while True:
            if e.kind == "get":
                if e.q:
                    return True
                e = e.of
            elif e.kind == "call":
                e = e.fn
            elif e.kind == "index":
                if e.q:
                    return True
                e = e.of
            elif e.kind == "bang":
                e = e.of
            else:
                return False

    def e_index(self, n, ctx, s):
        t = self.infer(n.of, None, s)
        if t is DYN:
            self.infer(n.at, None, s)
            return DYN
        chain = self.shorted(n.of)
        if (t.q or t is NULL) and not n.q and not chain:
            self.bad(n, "[] of a %r, which may be null" % t)
        r = self.p.member(nonnull(t), "[]")
        if r is None:
            self.bad(n, "a %r has no []" % t)
        f = subst(r[0].ty, r[1]).fn
        self.check(n.at, f.pos[0], s)
        return orNull(f.ret) if t.q else f.ret

    def e_bang(self, n, ctx, s):
        t = self.infer(n.of, orNull(ctx) if ctx is not None else None, s)
        if t is VOID:
            self.bad(n, "a value of type void cannot be used")
        return DYN if t is DYN else nonnull(t)

    def e_un(self, n, ctx, s):
        if n.op == "!":
            self.check(n.of, self.T("bool"), s)
            return self.T("bool")
        if n.op == "-" and n.of.kind == "int":
            return self.infer(n.of, ctx, s)
        t = self.infer(n.of, None, s)
        if t is DYN:
            return DYN
        if not self.p.sub(t, self.T("num")):
            self.bad(n, "%s of a %r" % (n.op, t))
        return t

    def e_bin(self, n, ctx, s):
        op = n.op
        B = self.T("bool")
        if op in ("&&", "||"):
            self.check(n.a, B, s)
            self.check(n.b, B, s.with_(self.facts(n.a, s, op == "&&")))
            return B
        if op == "??":
            a = self.infer(n.a, orNull(ctx) if ctx is not None else None, s)
            b = self.infer(n.b, ctx if ctx is not None and ctx is not DYN else (nonnull(a) if a not in (DYN, NULL) else None), s)
            if VOID in (a, b):
                self.bad(n, "a value of type void cannot be used")
            return self.p.lub(nonnull(a) if a is not DYN else DYN, b)
        if op in ("==", "!="):
            a = self.infer(n.a, None, s)
            b = self.infer(n.b, None, s)
            if VOID in (a, b):
                self.bad(n, "a value of type void cannot be used")
            return B
        a = self.infer(n.a, None, s)
        I, D, M = self.T("int"), self.T("double"), self.T("num")
        if a is DYN:
            self.infer(n.b, None, s)
            return DYN
        if a.q or a in (NULL, VOID):
            self.bad(n, "%s of a %r" % (op, a))
        if self.p.sub(a, M):
            b = self.infer(n.b, D if a == D and n.b.kind == "int" else None, s)
            if b is not DYN and (b in (NULL, VOID) or not self.p.sub(b, M)):
                self.bad(n, "%r %s %r" % (a, op, b))
            if b is DYN:
                n.b.cast = M
            if op in ("<", ">", "<=", ">="):
                return B
            if op in ("<<", ">>", "|", "&", "^"):
                if a != I or b not in (I, DYN):
                    self.bad(n, "%r %s %r" % (a, op, b))
                return I
            if op == "/":
                return D
            if op == "~/":
                return I
            if a == I and b == I:
                return I
            if D in (a, b):
                return D
            return M
        if a == B and op in ("|", "&", "^"):
            self.check(n.b, B, s)
            return B
        r = self.p.member(a, op)
        if r is None:
            self.bad(n, "a %r has no operator %s" % (a, op))
        f = subst(r[0].ty, r[1]).fn
        self.check(n.b, f.pos[0], s)
        n.opmember = r[0]
        return f.ret

    def e_is(self, n, ctx, s):
        if self.infer(n.of, None, s) is VOID:
            self.bad(n, "a value of type void cannot be used")
        n.test = self.wtype(n.type)
        return self.T("bool")

    def e_as(self, n, ctx, s):
        if self.infer(n.of, None, s) is VOID:
            self.bad(n, "a value of type void cannot be used")
        n.test = self.wtype(n.type)
        return n.test

    def e_cond(self, n, ctx, s):
        self.check(n.cond, self.T("bool"), s)
        a = self.infer(n.then, ctx, s.with_(self.facts(n.cond, s, True)))
        b = self.infer(n.other, ctx, s.with_(self.facts(n.cond, s, False)))
        return self.p.lub(a, b)

    def e_assign(self, n, ctx, s):
        t = n.target
        if t.kind == "id" and s.find(t.name) is not None:
            v = s.find(t.name)
            if v.final:
                self.bad(n, "%s is final" % t.name)
            t.ref = ("local",)
            want = v.ty
            cur = s.promoted(v)
        elif t.kind == "index":
            o = self.infer(t.of, None, s)
            if o is DYN:
                self.infer(t.at, None, s)
                want = DYN
            else:
                if o.q:
                    self.bad(n, "[] of a %r" % o)
                r = self.p.member(o, "[]=")
                if r is None:
                    self.bad(n, "a %r has no []=" % o)
                f = subst(r[0].ty, r[1]).fn
                self.check(t.at, f.pos[0], s)
                want = f.pos[1]
            cur = want
        else:
            want, cur = self.set_type(t, s)
        if n.op == "=":
            x = self.check(n.value, want, s)
            self.assigned_to(t, s, x)
            return x
        if n.op == "??=":
            x = self.p.lub(nonnull(cur), self.check(n.value, want, s))
            self.assigned_to(t, s, x)
            return x
        fake = N("bin", n.line, op=n.op[:-1], a=N("typed", n.line, t=cur), b=n.value)
        r = self.infer(fake, None, s)
        self.fits(n, r, want)
        return r

    def e_typed(self, n, ctx, s):
        return n.t

    def assigned_to(self, t, s, x):
        """what is known of a variable after an assignment of a x"""
        v = s.find(t.name) if t.kind == "id" else None
        if v is not None:
            self.unpromote(s, v)
            if v.ty is not DYN and v.ty.q and x is not DYN and not x.q and x is not NULL:
                s.promo[v] = nonnull(v.ty)

    def unpromote(self, s, v):
        while s is not None:
            s.promo.pop(v, None)
            s = s.up

    def set_type(self, t, s):
        """(type to set, type read) of a property"""
        if t.kind == "id":
            if self.cls is not None and t.name in self.cls.stat:
                m = self.cls.stat[t.name]
                t.ref = ("static", self.cls, m)
            elif self.cls is not None and not self.static and (self.p.member(self.cls.this(), t.name) or self.p.member(self.cls.this(), t.name + "=")):
                t.ref = ("this",)
                return self.setter(t, self.cls.this(), t.name)
            else:
                o = self.p.lookup(self.lib, t.name)
                if o is None or isinstance(o, Class) or o.kind != "field":
                    self.bad(t, "cannot assign to %s" % t.name)
                t.ref = ("top", o)
                m = o
            if m.kind != "field" or m.mods & {"final", "const"}:
                self.bad(t, "cannot assign to %s" % t.name)
            return m.ty, m.ty
        o = self.infer(t.of, None, s)
        c = self.class_of(t.of)
        if c is not None and t.name in c.stat:
            m = c.stat[t.name]
            t.ref = ("static", c, m)
            if m.kind != "field" or m.mods & {"final", "const"}:
                self.bad(t, "cannot assign to %s" % t.name)
            return m.ty, m.ty
        if o is DYN:
            return DYN, DYN
        if o.q and not t.q:
            self.bad(t, "%s of a %r, which may be null" % (t.name, o))
        return self.setter(t, nonnull(o), t.name)

    def setter(self, n, o, name):
        r = self.p.member(o, name + "=")
        if r is not None:
            return subst(r[0].ty, r[1]), subst(r[0].ty, r[1])
        r = self.p.member(o, name)
        if r is None or r[0].kind != "field" or r[0].mods & {"final", "const"}:
            self.bad(n, "cannot assign to %s of a %r" % (name, o))
        t = subst(r[0].ty, r[1])
        return t, t

    def e_post(self, n, ctx, s):
        fake = N("assign", n.line, op=n.op + "=", target=n.target, value=N("int", n.line, v=1))
        n.fake = fake
        self.infer(n.target, None, s)
        self.infer(fake, None, s)
        return n.target.ty

    def e_cascade(self, n, ctx, s):
        t = self.infer(n.of, ctx, s)
        n.hole.ty = nonnull(t) if n.q else t
        for d in n.does:
            self.infer(d, None, s)
        return t

    def spread(self, x, kind, s):
        t = self.infer(x.of, None, s)
        if t is DYN:
            return (DYN,) if kind != "map" else (DYN, DYN)
        if t.q and not x.q:
            self.bad(x, "a spread of a %r" % t)
        c = self.p.as_super(nonnull(t), self.p.c["Map" if kind == "map" else "Iterable"])
        if c is None:
            self.bad(x, "a spread of a %r" % t)
        return c.args

    def elems(self, x, e, s, out):
        if x.kind == "spread":
            out.append(self.spread(x, "list", s)[0])
        elif x.kind == "ifelem":
            self.check(x.cond, self.T("bool"), s)
            self.elems(x.then, e, s.with_(self.facts(x.cond, s, True)), out)
            if x.other is not None:
                self.elems(x.other, e, s.with_(self.facts(x.cond, s, False)), out)
        elif x.kind == "forelem":
            y = Scope(s)
            y.vars[x.name] = Var(x.name, self.looped(x, s))
            self.elems(x.does, e, y, out)
        elif x.kind == "entry":
            self.bad(x, "an entry of a map in a list")
        else:
            if e is None:
                out.append(self.infer(x, None, s))
            else:
                self.check(x, e, s)
                out.append(e)

    def looped(self, n, s):
        """the type of the variable of a for"""
        t = self.infer(n.of, None, s)
        if t is DYN:
            e = DYN
        else:
            it = None if t.q else self.p.as_super(t, self.p.c["Iterable"])
            if it is None:
                self.bad(n, "cannot iterate over a %r" % t)
            e = it.args[0]
        want = self.wtype(n.type) if n.type is not None else e
        if not self.p.assignable(e, want):
            self.bad(n, "%s is a %r, not a %r" % (n.name, e, want))
        return want

    def lub_all(self, ts):
        if not ts:
            return DYN
        r = ts[0]
        for t in ts[1:]:
            r = self.p.lub(r, t)
        return r

    def e_list(self, n, ctx, s):
        return self.seq(n, ctx, s, "List")

    def e_set(self, n, ctx, s):
        return self.seq(n, ctx, s, "Set")

    def seq(self, n, ctx, s, cls):
        e = None
        if n.targs is not None:
            if len(n.targs) != 1:
                self.bad(n, "a list takes one type")
            e = self.wtype(n.targs[0])
        elif ctx is not None and isinstance(ctx.cls, Class) and ctx.cls.name in ("List", "Iterable", "Set") and not free(ctx):
            e = ctx.args[0]
        out = []
        for x in n.items:
            self.elems(x, e, s, out)
        n.elem = e if e is not None else self.lub_all(out)
        return self.T(cls, n.elem)

    def e_map(self, n, ctx, s):
        if not n.items and n.targs is None and ctx is not None and isinstance(ctx.cls, Class) and ctx.cls.name in ("Set", "Iterable"):
            n.isset = True
            return self.seq(n, ctx, s, "Set")
        kt = vt = None
        if n.targs is not None:
            if len(n.targs) != 2:
                self.bad(n, "a map takes two types")
            kt, vt = [self.wtype(t) for t in n.targs]
        elif ctx is not None and isinstance(ctx.cls, Class) and ctx.cls.name == "Map" and not free(ctx):
            kt, vt = ctx.args
        ks, vs = [], []

        def go(x, s):
            if x.kind == "entry":
                ks.append(self.check(x.key, kt, s) if kt is not None else self.infer(x.key, None, s))
                vs.append(self.check(x.value, vt, s) if vt is not None else self.infer(x.value, None, s))
            elif x.kind == "spread":
                k, v = self.spread(x, "map", s)
                if kt is not None and not (self.p.assignable(k, kt) and self.p.assignable(v, vt)):
                    self.bad(x, "a spread of a Map<%r, %r> in a Map<%r, %r>" % (k, v, kt, vt))
                ks.append(k)
                vs.append(v)
            elif x.kind == "ifelem":
                self.check(x.cond, self.T("bool"), s)
                go(x.then, s.with_(self.facts(x.cond, s, True)))
                if x.other is not None:
                    go(x.other, s.with_(self.facts(x.cond, s, False)))
            else:
                self.bad(x, "an element without a key in a map")
        for x in n.items:
            go(x, s)
        n.k, n.v = (kt, vt) if kt is not None else (self.lub_all(ks), self.lub_all(vs))
        return self.T("Map", n.k, n.v)

    def e_closure(self, n, ctx, s):
        f = ctx.fn if ctx is not None and ctx.fn else None
        pos, opt, named = [], [], {}
        x = Scope(s)
        # variables assigned anywhere are not promoted in a closure
        u = s
        while u is not None:
            for v in u.promo:
                if v.assigned:
                    x.promo[v] = v.ty
            u = u.up
        i = 0
        seen = set()
        for p in n.params:
            if p.name in seen:
                self.bad(n, "the parameter %s is there twice" % p.name)
            seen.add(p.name)
            want = None
            if f is not None:
                if p.how == "named":
                    want = f.named.get(p.name, (None,))[0]
                else:
                    ps = f.pos + f.opt
                    want = ps[i] if i < len(ps) else None
                    i += 1
            p.ty = self.wtype(p.type) if p.type is not None else (want if want is not None and not free(want) else DYN)
            x.vars[p.name] = Var(p.name, p.ty)
            if p.how == "pos":
                pos.append(p.ty)
            elif p.how == "opt":
                opt.append(p.ty)
            else:
                named[p.name] = (p.ty, p.req)
            if p.default is not None:
                self.check(p.default, p.ty, Scope())
            elif p.how != "pos" and not p.req and not (p.ty.q or p.ty is DYN):
                self.bad(n, "the parameter %s needs a default" % p.name)
        want = self.wtype(n.type) if n.type is not None else (f.ret if f is not None else None)
        if want is not None and free(want):
            want = None
        save = self.fn
        self.fn = FnCtx(self.cls, self.static, want, n.body.asynch, infer=True)
        inner = want
        if n.body.asynch and want is not None and want not in (DYN, VOID):
            inner = self.flatten(want)
        self.fn.inner = inner
        if n.body.expr is not None:
            t = self.infer(n.body.expr, inner if inner is not VOID else None, x)
            if n.body.asynch:
                t2 = self.flatten(t)
                n.body.expr.await_ = t2 is not t
                t = t2
            if inner is not None and inner is not VOID and t is DYN and inner is not DYN:
                n.body.expr.cast = inner
                t = inner
            if inner is VOID:
                t = VOID
        else:
            ends = self.block(n.body.stmts, Scope(x))
            ts = list(self.fn.returns)
            for r in [r for r in returns(n.body.stmts) if r.value is not None]:
                if r.value.ty is DYN and inner is not None and inner not in (DYN, VOID):
                    r.value.cast = inner
            if inner is not None and inner not in (DYN, VOID):
                ts = [inner if t is DYN else t for t in ts]
            if not ends:
                ts.append(NULL if self.fn.returns and any(t is not NULL for t in ts) else VOID if inner is VOID or inner is None else NULL)
                if inner is not None and not (inner in (VOID, DYN, NULL) or inner.q):
                    self.bad(n, "the function may end without a value of type %r" % inner)
            t = self.lub_all(ts) if ts else NEVER
            if inner is VOID and t in (NULL, NEVER):
                t = VOID
        self.fn = save
        if n.type is not None:
            if not self.p.assignable(t, inner) and inner is not VOID:
                self.bad(n, "a value of type %r where a %r is needed" % (t, inner))
            ret = want
        else:
            ret = self.T("Future", t) if n.body.asynch else t
        return fty(Fn(ret, pos, opt, named))

    # -- calls
    def e_call(self, n, ctx, s):
        f = n.fn
        t = self.infer(f, None, s)
        targs = [self.wtype(x) for x in n.targs]
        c = self.class_of(f) if f.kind in ("id", "tid", "get") else None
        if c is not None:
            k = c.ctors.get("")
            if k is None:
                self.bad(n, "%s has no constructor without a name" % c.name)
            return self.construct(n, c, k, targs or getattr(f, "rtargs", []), ctx, s)
        r = getattr(f, "ref", ("",))
        if r[0] == "ctor":
            return self.construct(n, r[1], r[2], getattr(f.of, "rtargs", []), ctx, s)
        if r[0] == "static" and f.kind == "get" and getattr(f.of, "rtargs", None):
            targs = f.of.rtargs
        if t is DYN or t is NEVER:
            for _, a in n.args:
                self.infer(a, None, s)
            return DYN
        base = t
        chain = self.shorted(f)
        if t.q and chain:
            base = nonnull(t)
        elif t.q or t in (NULL, VOID):
            self.bad(n, "a call of a %r, which may be null" % t)
        if not base.fn:
            self.bad(n, "a %r is not a function" % t)
        ret = self.call(n, base.fn, n.args, targs, ctx, s)
        return orNull(ret) if t.q and chain else ret

    def construct(self, n, c, k, targs, ctx, s):
        if c.abstract and "factory" not in k.node.mods and not (c.lib.native and c.name in ("Map",)):
            self.bad(n, "%s is abstract" % c.name)
        if k.name.startswith("_") and c.lib is not self.lib:
            self.bad(n, "the constructor %s.%s is private" % (c.name, k.name))
        if c.name.startswith("_") and c.lib is not self.lib:
            self.bad(n, "%s is private" % c.name)
        if c.node.kind == "enum":
            self.bad(n, "an enum has no constructor")
        n.ref = ("new", c, k)
        return self.call(n, k.fn, n.args, targs, ctx, s)

    def match(self, pat, t, m, tvars, fill):
        """binds type variables of pat to make t fit"""
        if isinstance(pat.cls, TVar) and pat.cls in tvars:
            x = nonnull(t) if pat.q and t is not DYN else t
            if fill and pat.cls not in m:
                m[pat.cls] = x
            elif fill == 2:
                m[pat.cls] = self.p.lub(m[pat.cls], x)
            return
        if t in (DYN, NULL, NEVER, VOID):
            return
        if pat.fn and t.fn:
            self.match(pat.fn.ret, t.fn.ret, m, tvars, fill)
            for a, b in zip(pat.fn.pos, t.fn.pos):
                self.match(a, b, m, tvars, fill)
            return
        if isinstance(pat.cls, Class) and isinstance(t.cls, Class):
            u = self.p.as_super(t, pat.cls)
            if u is None:
                return
            for a, b in zip(pat.args, u.args):
                self.match(a, b, m, tvars, fill)

    def call(self, n, f, args, targs, ctx, s):
        tv = f.tparams
        m = {}
        if targs:
            if len(targs) != len(tv):
                self.bad(n, "%d types are given, %d are needed" % (len(targs), len(tv)))
            m = dict(zip(tv, targs))
        elif tv and ctx is not None and ctx not in (DYN, VOID):
            # what the context asks for
            if isinstance(f.ret.cls, Class) and isinstance(ctx.cls, Class):
                if f.ret.cls is ctx.cls:
                    for a, b in zip(f.ret.args, ctx.args):
                        if not free(b):
                            self.match(a, b, m, tv, 1)
                else:
                    u = self.p.as_super(f.ret, ctx.cls)
                    if u is not None:
                        for a, b in zip(u.args, ctx.args):
                            if not free(b):
                                self.match(a, b, m, tv, 1)
            elif isinstance(f.ret.cls, TVar) and not free(ctx):
                m[f.ret.cls] = nonnull(ctx) if f.ret.q else ctx
        down = set(m)
        pos = [a for k, a in args if k is None]
        named = {}
        for k, a in args:
            if k is not None:
                if k in named:
                    self.bad(n, "the argument %s is there twice" % k)
                if k not in f.named:
                    self.bad(n, "there is no parameter %s" % k)
                named[k] = a
        if len(pos) < len(f.pos) or len(pos) > len(f.pos) + len(f.opt):
            self.bad(n, "%d arguments where %d are needed" % (len(pos), len(f.pos)))
        for k, (t, req) in f.named.items():
            if req and k not in named:
                self.bad(n, "the argument %s is missing" % k)
        todo = list(zip(pos, f.pos + f.opt)) + [(a, f.named[k][0]) for k, a in named.items()]
        todo.sort(key=lambda x: x[0].kind == "closure")
        got = []
        for a, want in todo:
            w = subst(want, m)
            t = self.infer(a, self.hole(w), s)
            if tv:
                self.match(want, t, m, [v for v in tv if v not in down], 2)
            got.append((a, t, want))
        for v in tv:
            if v not in m:
                m[v] = v.bound if v.bound is not None else DYN
            if v.bound is not None and not self.p.sub(m[v], subst(v.bound, m)) and m[v] is not DYN:
                self.bad(n, "%r does not extend %r" % (m[v], v.bound))
        for a, t, want in got:
            w = subst(want, m)
            if t is VOID and w is not VOID:
                self.bad(a, "a value of type void cannot be used")
            self.fits(a, t, w)
        n.rt = [m[v] for v in tv]
        n.pnames = None
        return subst(f.ret, m)

    def hole(self, t):
        """a context for an argument: variables that are not known yet are left out"""
        if not free(t):
            return t
        if t.fn:
            return t
        return None


def returns(stmts):
    """the return statements of a body, not those of closures in it"""
    out = []

    def walk(n):
        if isinstance(n, N):
            if n.kind in ("closure", "localfn"):
                return
            if n.kind == "return":
                out.append(n)
            for k, v in n.__dict__.items():
                if k not in ("ty", "ref", "member"):
                    walk(v)
        elif isinstance(n, (list, tuple)):
            for x in n:
                walk(x)
    walk(stmts)
    return out
