"""Runs a checked program: values, calls, and what the stand-ins for the libraries do."""
import datetime, decimal, json, re
from decimal import Decimal
from dart.check import *

decimal.getcontext().prec = 80


class Throw(Exception):
    """a thrown Dart value"""
    def __init__(self, value, text):
        super().__init__(text)
        self.value, self.text = value, text


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Short(Exception):
    """a ?. on null ends its chain"""


class Obj:
    __slots__ = ("cls", "f", "v", "rt")

    def __init__(self, cls, v=None, rt=()):
        self.cls, self.f, self.v, self.rt = cls, {}, v, rt


class DList:
    __slots__ = ("l", "elem", "cls")

    def __init__(self, l, elem=DYN, cls="List"):
        self.l, self.elem, self.cls = l, elem, cls


class DMap:
    __slots__ = ("d", "k", "v")

    def __init__(self, k=DYN, v=DYN):
        self.d, self.k, self.v = {}, k, v


class Future:
    __slots__ = ("value", "error", "ty")

    def __init__(self, value=None, error=None, ty=DYN):
        self.value, self.error, self.ty = value, error, ty


class Fun:
    __slots__ = ("call", "fn")

    def __init__(self, call, fn=None):
        self.call, self.fn = call, fn


class TypeV:
    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, TypeV) and o.cls is self.cls

    def __hash__(self):
        return id(self.cls)


class Env:
    __slots__ = ("vars", "up", "this", "cls")

    def __init__(self, up=None, this=None, cls=None):
        self.vars, self.up = {}, up
        self.this = this if up is None or this is not None else up.this
        self.cls = cls if up is None or cls is not None else up.cls

    def home(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.up
        return None


MISSING = object()
NATIVE = {}


def native(*names):
    def deco(f):
        for n in names:
            NATIVE[n] = f
        return f
    return deco


def wrap64(x):
    x &= 2**64 - 1
    return x - 2**64 if x >= 2**63 else x


class Run:
    def __init__(self, prog):
        self.p = prog
        self.c = prog.c
        self.statics = {}
        self.steps = 0
        self.transport = None
        self.delegates = []

    # -- values
    def cls_of(self, v):
        if v is None:
            return self.c["Null"]
        if isinstance(v, bool):
            return self.c["bool"]
        if isinstance(v, int):
            return self.c["int"]
        if isinstance(v, float):
            return self.c["double"]
        if isinstance(v, str):
            return self.c["String"]
        if isinstance(v, DList):
            return self.sdk("dart:typed_data", "Uint8List") if v.cls == "Uint8List" else self.c[v.cls]
        if isinstance(v, DMap):
            return self.c["Map"]
        if isinstance(v, Future):
            return self.c["Future"]
        if isinstance(v, Fun):
            return self.c["Function"]
        if isinstance(v, TypeV):
            return self.c["Type"]
        return v.cls

    def sdk(self, lib, name):
        return self.p.libs[lib].decls[name]

    def type_of(self, v):
        c = self.cls_of(v)
        if v is None:
            return NULL
        if isinstance(v, DList):
            return Ty(c, [v.elem] if c.tvars else ())
        if isinstance(v, DMap):
            return Ty(c, (v.k, v.v))
        if isinstance(v, Future):
            return Ty(c, (v.ty,))
        if isinstance(v, Fun):
            return fty(v.fn) if v.fn else Ty(c)
        return Ty(c, getattr(v, "rt", ()) if c.tvars else ())

    def isa(self, v, t):
        if t in (DYN, VOID):
            return True
        if v is None:
            return t.q or t is NULL
        if isinstance(v, Fun) and v.fn is None:
            return bool(t.fn) or t.cls is self.c["Function"] or t.cls is self.c["Object"]
        return self.p.sub(self.type_of(v), t)

    def throw(self, kind, msg):
        o = Obj(self.c.get(kind) or self.c["Error"], msg)
        raise Throw(o, "%s: %s" % (kind, msg))

    def cast(self, v, t):
        if not self.isa(v, t):
            self.throw("TypeError", "type '%r' is not a subtype of type '%r'" % (self.type_of(v), t))
        return v

    def eq(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, (int, float)):
            return isinstance(b, (int, float)) and a == b
        if isinstance(a, str):
            return isinstance(b, str) and a == b
        if isinstance(a, TypeV):
            return a == b
        if isinstance(a, Obj):
            m = self.p.concrete(a.cls, "==")
            if m is not None and m.node.body is not None:
                return self.invoke(a, m, [b], {})
            if a.v is not None and isinstance(b, Obj) and a.cls is b.cls:
                return a.v == b.v
        return False

    def hash(self, v):
        if isinstance(v, Obj):
            m = self.p.concrete(v.cls, "hashCode")
            if m is not None and m.node.body is not None:
                return self.getter(v, m)
            if isinstance(v.v, (int, str, Decimal, tuple)):
                return wrap64(hash(v.v))
            return wrap64(id(v))
        if v is None or isinstance(v, (bool, int, float, str)):
            return wrap64(hash(v))
        return wrap64(id(v))

    def key(self, v):
        """a hashable for the keys of maps"""
        if v is None or isinstance(v, (bool, str)):
            return (type(v).__name__, v)
        if isinstance(v, (int, float)):
            return ("num", v)
        if isinstance(v, Obj):
            return ("obj", Keyed(self, v))
        return ("id", id(v))

    def text(self, v):
        """toString()"""
        if v is None:
            return "null"
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, int):
            return str(v)
        if isinstance(v, float):
            return double_text(v)
        if isinstance(v, str):
            return v
        if isinstance(v, DList):
            b = "()" if v.cls == "Iterable" else "{}" if v.cls == "Set" else "[]"
            return b[0] + ", ".join(self.text(x) for x in v.l) + b[1]
        if isinstance(v, DMap):
            return "{" + ", ".join("%s: %s" % (self.text(k), self.text(x)) for k, x in v.d.values()) + "}"
        if isinstance(v, TypeV):
            return v.cls.name
        if isinstance(v, Obj):
            m = self.p.concrete(v.cls, "toString")
            if m is not None and m.node.body is not None:
                return self.invoke(v, m, [], {})
            f = NATIVE.get(v.cls.name + ".toString")
            if f:
                return f(self, v, [], {}, ())
            return "Instance of '%s'" % v.cls.name
        return "Closure"

    def strcall(self, v):
        return self.text(v)

    def list(self, l, elem=DYN):
        return DList(list(l), elem)

    def map(self, pairs, k=DYN, v=DYN):
        m = DMap(k, v)
        for a, b in pairs:
            m.d[self.key(a)] = (a, b)
        return m

    # -- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, n, env):
        self.steps += 1
        if self.steps > 3000000:
            raise Throw(None, "does not end")
        k = n.kind
        if k == "expr":
            self.ev(n.value, env)
        elif k == "return":
            v = None
            if n.value is not None:
                v = self.ev(n.value, env)
                if getattr(n.value, "await_", False):
                    v = self.await_(v)
            raise Return(v)
        elif k == "var":
            for name, e in n.vars:
                env.vars[name] = self.ev(e, env) if e is not None else (MISSING if n.type is not None and not n.type.q and getattr(n.type, "name", "") != "dynamic" else None)
        elif k == "block":
            self.block(n.stmts, Env(env))
        elif k == "if":
            if self.ev(n.cond, env):
                self.stmt(n.then, Env(env))
            elif n.other is not None:
                self.stmt(n.other, Env(env))
        elif k == "forin":
            it = self.ev(n.of, env)
            for x in list(it.l):
                e = Env(env)
                e.vars[n.name] = x
                try:
                    self.stmt(n.body, e)
                except Break:
                    break
                except Continue:
                    continue
        elif k == "for":
            e = Env(env)
            if n.init is not None:
                self.stmt(n.init, e)
            while n.cond is None or self.ev(n.cond, e):
                try:
                    self.stmt(n.body, Env(e))
                except Break:
                    break
                except Continue:
                    pass
                for x in n.step:
                    self.ev(x, e)
                self.steps += 1
                if self.steps > 3000000:
                    raise Throw(None, "does not end")
        elif k == "while":
            while self.ev(n.cond, env):
                try:
                    self.stmt(n.body, Env(env))
                except Break:
                    break
                except Continue:
                    pass
                self.steps += 1
                if self.steps > 3000000:
                    raise Throw(None, "does not end")
        elif k == "switch":
            v = self.ev(n.value, env)
            hit = None
            for i, (labels, _) in enumerate(n.cases):
                if any(l is not None and self.eq(self.ev(l, env), v) for l in labels):
                    hit = i
                    break
            if hit is None:
                hit = next((i for i, (labels, _) in enumerate(n.cases) if None in labels), None)
            if hit is not None:
                try:
                    self.block(n.cases[hit][1], Env(env))
                except Break:
                    pass
        elif k == "break":
            raise Break()
        elif k == "continue":
            raise Continue()
        elif k == "assert":
            pass
        elif k == "try":
            try:
                self.block(n.body, Env(env))
            except Throw as e:
                for t, name, st, b in n.catches:
                    if t is None or self.isa(e.value, self.p.type(env.cls.lib if env.cls else self.p.core, t)):
                        x = Env(env)
                        if name:
                            x.vars[name] = e.value
                        if st:
                            x.vars[st] = Obj(self.c["StackTrace"])
                        self.block(b, x)
                        break
                else:
                    raise
            finally:
                if n.fin is not None:
                    self.block(n.fin, Env(env))
        elif k == "localfn":
            env.vars[n.name] = self.ev(n.fn, env)
        else:
            raise AssertionError(k)

    # -- functions
    def bind(self, params, args, named, env):
        i = 0
        for p in params:
            if p.how == "named":
                v = named[p.name] if p.name in named else (self.ev(p.default, env) if p.default is not None else None)
            else:
                if i < len(args):
                    v = args[i]
                else:
                    v = self.ev(p.default, env) if p.default is not None else None
                i += 1
            if p.ty is not None and v is not None and not self.isa(v, p.ty) and not free(p.ty):
                self.throw("TypeError", "the argument %s is a '%r', not a '%r'" % (p.name, self.type_of(v), p.ty))
            if v is None and p.ty is not None and not self.isa(v, p.ty) and not free(p.ty):
                self.throw("TypeError", "the argument %s is null, not a '%r'" % (p.name, p.ty))
            env.vars[p.name] = v

    def body(self, body, env):
        def go():
            if body.expr is not None:
                v = self.ev(body.expr, env)
                return self.await_(v) if getattr(body.expr, "await_", False) else v
            try:
                self.block(body.stmts, env)
            except Return as r:
                return r.value
            return None
        if body.asynch:
            try:
                return Future(go())
            except Throw as e:
                return Future(error=e)
        return go()

    def await_(self, v):
        if isinstance(v, Future):
            if v.error is not None:
                raise v.error
            return v.value
        return v

    def invoke(self, this, m, args, named, rt=()):
        """a method of this (or a static one, this is None)"""
        n = m.node
        if n.body is None:
            return self.native_call(m.owner, m.name, this, args, named, rt)
        env = Env(None, this, m.owner)
        if m.owner is None:
            env.cls = LibOf(m.lib)
        self.bind(m.params, args, named, env)
        return self.body(n.body, env)

    def native_call(self, owner, name, this, args, named, rt):
        o = owner
        while o is not None:
            f = NATIVE.get(o.name + "." + name)
            if f:
                return f(self, this, args, named, rt)
            sup = self.p.supers(o)
            o = sup[0].cls if sup else None
        if owner is None and name in NATIVE:
            return NATIVE[name](self, this, args, named, rt)
        raise AssertionError("no native %s.%s" % (owner.name if owner else "", name))

    def getter(self, this, m):
        if m.kind == "field":
            if this is not None:
                if m.name in this.f:
                    return this.f[m.name]
                self.throw("LateError", "the field %s has no value" % m.name)
            return self.static(m)
        if m.kind == "method":
            return Fun(lambda a, k, rt=(): self.invoke(this, m, a, k, rt), m.ty.fn)
        if m.node.body is None:
            return self.native_call(m.owner, m.name, this, [], {}, ())
        env = Env(None, this, m.owner or LibOf(m.lib))
        return self.body(m.node.body, env)

    def static(self, m):
        if m not in self.statics:
            if m.owner is not None and m.owner.node.kind == "enum":
                o = Obj(m.owner, (m.owner.name, m.name))
                self.statics[m] = o
            else:
                self.statics[m] = None
                lib = m.owner.lib if m.owner else m.lib
                self.statics[m] = self.ev(m.init, Env(None, None, m.owner or LibOf(lib))) if m.init is not None else None
        return self.statics[m]

    def find(self, v, name):
        c = self.cls_of(v)
        m = self.p.concrete(c, name)
        if m is None or (m.owner.name == "Object" and m.owner is not c):
            r = self.p.member(Ty(c, [DYN] * len(c.tvars)), name) if c.lib.native else None
            if r is not None and r[0].owner.name != "Object":
                m = r[0]
        return m

    def get(self, v, name):
        """v.name"""
        if v is None and name not in ("toString", "hashCode", "runtimeType"):
            self.throw("NoSuchMethodError", "%s was called on null" % name)
        if name == "toString":
            return Fun(lambda a, k, rt=(): self.strcall(v))
        if name == "hashCode":
            return self.hash(v)
        if name == "runtimeType":
            return TypeV(self.cls_of(v))
        if isinstance(v, Fun) and name == "call":
            return v
        m = self.find(v, name)
        if m is None or m.kind == "setter":
            self.throw("NoSuchMethodError", "%s has no %s" % (self.cls_of(v).name, name))
        return self.getter(v, m)

    def set(self, v, name, x):
        m = self.p.concrete(self.cls_of(v), name + "=") or self.p.concrete(self.cls_of(v), name)
        if m is None:
            self.throw("NoSuchMethodError", "%s has no setter %s" % (self.cls_of(v).name, name))
        if m.kind == "field":
            self.cast(x, subst(m.ty, dict(zip(m.owner.tvars, v.rt))) if v.rt else m.ty)
            v.f[name] = x
        else:
            env = Env(None, v, m.owner)
            self.bind(m.params, [x], {}, env)
            self.body(m.node.body, env)

    def callf(self, f, args, named=None, rt=()):
        if not isinstance(f, Fun):
            m = self.find(f, "call") if f is not None else None
            if m is None:
                self.throw("NoSuchMethodError", "call of a %s" % self.cls_of(f).name)
            return self.invoke(f, m, args, named or {})
        return f.call(args, named or {}, rt)

    def new(self, cls, name, args, named=None, rt=()):
        named = named or {}
        k = cls.ctors[name]
        if "factory" in k.node.mods:
            env = Env(None, None, cls)
            self.bind(k.params, args, named, env)
            return self.body(k.node.body, env)
        f = NATIVE.get("new %s%s" % (cls.name, "." + name if name else "")) if cls.lib.native else None
        if f:
            return f(self, None, args, named, rt)
        o = Obj(cls, None, rt)
        self.construct(o, cls, k, args, named)
        return o

    def construct(self, o, cls, k, args, named):
        env = Env(None, None, cls)
        self.bind(k.params, args, named, env)
        for i in k.node.inits:
            if i.kind == "redirect":
                a, kw = self.args(i, env)
                return self.construct(o, cls, cls.ctors[i.name], a, kw)
        for n, m in cls.inst.items():
            if m.kind == "field":
                if m.init is not None:
                    o.f[n] = self.ev(m.init, Env(None, None, cls))
                elif m.ty is None or m.ty.q or m.ty is DYN:
                    o.f[n] = None
        for p in k.params:
            if p.field:
                o.f[p.name] = env.vars[p.name]
        sup = None
        for i in k.node.inits:
            if i.kind == "set":
                o.f[i.name] = self.ev(i.value, env)
            elif i.kind == "super":
                sup = i
        if cls.ext is not None:
            a, kw = self.args(sup, env) if sup is not None else ([], {})
            self.construct(o, cls.ext.cls, cls.ext.cls.ctors[sup.name if sup is not None else ""], a, kw)
        if k.node.body is not None:
            e = Env(env, o, cls)
            self.body(k.node.body, e)

    # -- expressions
    def ev(self, n, env):
        try:
            v = getattr(self, "x_" + n.kind)(n, env)
        except Short:
            v = None
        t = getattr(n, "cast", None)
        if t is not None:
            self.cast(v, t)
        return v

    def sel(self, n, env):
        """like ev, within a chain: a Short goes on"""
        if n.kind in ("get", "call", "index", "bang"):
            v = getattr(self, "x_" + n.kind)(n, env)
            t = getattr(n, "cast", None)
            return v if t is None else self.cast(v, t)
        return self.ev(n, env)

    def x_lit(self, n, env):
        return n.v

    def x_int(self, n, env):
        return float(n.v) if getattr(n, "double", False) else n.v

    def x_double(self, n, env):
        return float(n.v)

    def x_str(self, n, env):
        return "".join(p if isinstance(p, str) else self.text(self.ev(p, env)) for p in n.parts)

    def x_paren(self, n, env):
        return self.ev(n.of, env)

    def x_hole(self, n, env):
        return n.value

    def x_this(self, n, env):
        return env.this

    def x_throw(self, n, env):
        v = self.ev(n.value, env)
        raise Throw(v, "thrown: " + self.text(v))

    def x_await(self, n, env):
        return self.await_(self.ev(n.of, env))

    def x_id(self, n, env):
        r = n.ref[0]
        if r == "local":
            v = env.home(n.name).vars[n.name]
            if v is MISSING:
                self.throw("LateError", "%s has no value" % n.name)
            return v
        if r == "this":
            return self.get(env.this, n.name)
        return self.ref(n)

    x_tid = lambda self, n, env: self.ref(n)

    def ref(self, n):
        r = n.ref
        if r[0] == "class":
            return TypeV(r[1])
        if r[0] == "static" or r[0] == "top":
            m = r[-1]
            if m.kind == "method":
                return Fun(lambda a, k, rt=(): self.invoke(None, m, a, k, rt), m.ty.fn)
            return self.getter(None, m)
        if r[0] == "enumvalues":
            return self.list([self.static(r[1].stat[x]) for x in r[1].node.items], Ty(r[1]))
        if r[0] == "ctor":
            return Fun(lambda a, k, rt=(): self.new(r[1], r[2].name, a, k, rt), r[2].fn)
        raise AssertionError(r)

    def x_get(self, n, env):
        if getattr(n, "ref", None):
            return self.ref(n)
        if n.of.kind == "superref":
            m = self.p.concrete(env.cls.ext.cls, n.name) if env.cls.ext else None
            if m is None:
                return self.get(env.this, n.name)
            return self.getter(env.this, m)
        v = self.sel(n.of, env)
        if v is None and n.q:
            raise Short()
        if getattr(n, "ext", None):
            return Fun(lambda a, k, rt=(): NATIVE[n.ext.native](self, v, a, k, rt), n.ext.ty.fn)
        return self.get(v, n.name)

    def x_index(self, n, env):
        v = self.sel(n.of, env)
        if v is None and n.q:
            raise Short()
        return self.index(v, self.ev(n.at, env))

    def index(self, v, i):
        if isinstance(v, DMap):
            r = v.d.get(self.key(i))
            return r[1] if r else None
        if isinstance(v, (DList, str)):
            l = v.l if isinstance(v, DList) else v
            if not isinstance(i, int) or not 0 <= i < len(l):
                self.throw("RangeError", "index %s" % i)
            return l[i]
        m = self.find(v, "[]") if v is not None else None
        if m is None:
            self.throw("NoSuchMethodError", "[] of %s" % self.cls_of(v).name)
        return self.invoke(v, m, [i], {})

    def x_bang(self, n, env):
        v = self.sel(n.of, env)
        if v is None:
            self.throw("TypeError", "null check operator used on a null value")
        return v

    def x_un(self, n, env):
        v = self.ev(n.of, env)
        if n.op == "!":
            return not v
        return -v if n.op == "-" else ~v

    def x_bin(self, n, env):
        op = n.op
        if op == "&&":
            return bool(self.ev(n.a, env)) and self.ev(n.b, env)
        if op == "||":
            return bool(self.ev(n.a, env)) or self.ev(n.b, env)
        a = self.ev(n.a, env)
        if op == "??":
            return a if a is not None else self.ev(n.b, env)
        return self.op(op, a, self.ev(n.b, env))

    def op(self, op, a, b):
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            return not self.eq(a, b)
        if isinstance(a, (int, float)) and not isinstance(a, bool):
            if not isinstance(b, (int, float)) or isinstance(b, bool):
                self.throw("TypeError", "%s %s" % (op, self.text(b)))
            both = isinstance(a, int) and isinstance(b, int)
            if op in ("<", ">", "<=", ">="):
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
            if op == "+":
                r = a + b
            elif op == "-":
                r = a - b
            elif op == "*":
                r = a * b
            elif op == "/":
                return a / b if b else (float("nan") if not a else float("inf") if a > 0 else float("-inf"))
            elif op == "~/":
                if not b:
                    self.throw("UnsupportedError", "division by zero")
                return int(a / b) if not both else (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
            elif op == "%":
                r = a % abs(b)
            elif op == "<<":
                r = a << b if b < 64 else 0
            elif op == ">>":
                r = a >> b
            elif op == "|":
                r = a | b
            elif op == "&":
                r = a & b
            else:
                r = a ^ b
            return wrap64(r) if both else float(r)
        if isinstance(a, bool):
            return {"|": a | b, "&": a & b, "^": a ^ b}[op]
        if isinstance(a, str) and op == "+":
            return a + b
        if isinstance(a, str) and op == "*":
            return a * b
        if a is None:
            self.throw("NoSuchMethodError", "%s was called on null" % op)
        m = self.find(a, op)
        if m is None:
            self.throw("NoSuchMethodError", "%s has no operator %s" % (self.cls_of(a).name, op))
        return self.invoke(a, m, [b], {})

    def x_is(self, n, env):
        return self.isa(self.ev(n.of, env), n.test) != n.neg

    def x_as(self, n, env):
        return self.cast(self.ev(n.of, env), n.test)

    def x_cond(self, n, env):
        return self.ev(n.then if self.ev(n.cond, env) else n.other, env)

    def x_typed(self, n, env):
        return n.value

    def load(self, t, env):
        return self.ev(t, env)

    def store(self, t, v, env):
        if t.kind == "id":
            r = t.ref[0]
            if r == "local":
                env.home(t.name).vars[t.name] = v
            elif r == "this":
                self.set(env.this, t.name, v)
            else:
                self.statics[t.ref[-1]] = v
        elif t.kind == "get":
            if getattr(t, "ref", None):
                self.statics[t.ref[-1]] = v
                return
            o = self.ev(t.of, env)
            if o is None and t.q:
                return
            self.set(o, t.name, v)
        else:
            o, i = self.ev(t.of, env), self.ev(t.at, env)
            if isinstance(o, DMap):
                self.cast(i, o.k)
                self.cast(v, o.v)
                o.d[self.key(i)] = (i, v)
            elif isinstance(o, DList):
                if not 0 <= i < len(o.l):
                    self.throw("RangeError", "index %s" % i)
                self.cast(v, o.elem)
                o.l[i] = v
            else:
                self.invoke(o, self.find(o, "[]="), [i, v], {})

    def x_assign(self, n, env):
        if n.op == "=":
            v = self.ev(n.value, env)
        elif n.op == "??=":
            v = self.load(n.target, env)
            if v is not None:
                return v
            v = self.ev(n.value, env)
        else:
            v = self.op(n.op[:-1], self.load(n.target, env), self.ev(n.value, env))
        self.store(n.target, v, env)
        return v

    def x_post(self, n, env):
        v = self.load(n.target, env)
        self.store(n.target, self.op(n.op, v, 1), env)
        return v

    def x_cascade(self, n, env):
        v = self.ev(n.of, env)
        if v is None and n.q:
            return None
        for d in n.does:
            save = getattr(n.hole, "value", None)
            n.hole.value = v
            self.ev(d, env)
            n.hole.value = save
        return v

    def elems(self, x, env, out):
        if x.kind == "spread":
            v = self.ev(x.of, env)
            if v is not None:
                out += v.l
        elif x.kind == "ifelem":
            if self.ev(x.cond, env):
                self.elems(x.then, env, out)
            elif x.other is not None:
                self.elems(x.other, env, out)
        elif x.kind == "forelem":
            for v in list(self.ev(x.of, env).l):
                e = Env(env)
                e.vars[x.name] = v
                self.elems(x.does, e, out)
        else:
            out.append(self.ev(x, env))

    def x_list(self, n, env):
        out = []
        for x in n.items:
            self.elems(x, env, out)
        return DList(out, n.elem)

    def x_set(self, n, env):
        out = []
        for x in n.items:
            self.elems(x, env, out)
        seen = {}
        for v in out:
            seen.setdefault(self.key(v), v)
        return DList(list(seen.values()), n.elem, "Set")

    def x_map(self, n, env):
        if getattr(n, "isset", False):
            return self.x_set(n, env)
        m = DMap(n.k, n.v)

        def go(x):
            if x.kind == "entry":
                k = self.ev(x.key, env)
                m.d[self.key(k)] = (k, self.ev(x.value, env))
            elif x.kind == "spread":
                v = self.ev(x.of, env)
                if v is not None:
                    m.d.update(v.d)
            elif self.ev(x.cond, env):
                go(x.then)
            elif x.other is not None:
                go(x.other)
        for x in n.items:
            go(x)
        return m

    def x_closure(self, n, env):
        def call(args, named, rt=()):
            e = Env(env)
            self.bind(n.params, args, named, e)
            return self.body(n.body, e)
        return Fun(call, n.ty.fn)

    def args(self, n, env):
        pos, named = [], {}
        for k, a in n.args:
            v = self.ev(a, env)
            if k is None:
                pos.append(v)
            else:
                named[k] = v
        return pos, named

    def x_call(self, n, env):
        r = getattr(n, "ref", None)
        if r and r[0] == "new":
            a, k = self.args(n, env)
            return self.new(r[1], r[2].name, a, k, n.rt)
        f = n.fn
        rt = getattr(n, "rt", ())
        if f.kind == "get" and not getattr(f, "ref", None) and not getattr(f, "ext", None) and f.of.kind != "superref":
            v = self.sel(f.of, env)
            if v is None and f.q:
                raise Short()
            a, k = self.args(n, env)
            if f.name == "toString" and not a:
                return self.strcall(v)
            if v is None:
                self.throw("NoSuchMethodError", "%s was called on null" % f.name)
            m = self.find(v, f.name)
            if m is not None and m.kind == "method":
                return self.invoke(v, m, a, k, rt)
            return self.callf(self.get(v, f.name), a, k, rt)
        g = self.sel(f, env)
        if g is None and self.chain(f):
            raise Short()
        a, k = self.args(n, env)
        return self.callf(g, a, k, rt)

    def chain(self, f):
        return False


class LibOf:
    """a place outside of classes"""
    def __init__(self, lib):
        self.lib, self.ext = lib, None


class Keyed:
    def __init__(self, run, v):
        self.run, self.v = run, v

    def __hash__(self):
        return self.run.hash(self.v)

    def __eq__(self, o):
        return self.run.eq(self.v, o.v)


def double_text(v):
    if v != v:
        return "NaN"
    if v in (float("inf"), float("-inf")):
        return "Infinity" if v > 0 else "-Infinity"
    if v == int(v) and abs(v) < 1e21:
        return "%d.0" % v if v or str(v)[0] != "-" else "-0.0"
    r = repr(v)
    if "e" in r:
        m, e = r.split("e")
        e = int(e)
        if -7 < e < 21:
            return format(Decimal(r), "f")
        return "%se%s%d" % (m[:-2] if m.endswith(".0") else m, "+" if e > 0 else "", e)
    return r


# ------------------------------------------------------------------ natives
NUM = re.compile(r"\s*[+-]?(\d+(\.\d+)?|\.\d+)([eE][+-]?\d+)?\s*$")


def parse_num(s):
    t = s.strip()
    if re.fullmatch(r"[+-]?\d+", t):
        v = int(t)
        return v if -2**63 <= v < 2**63 else float(v)
    if re.fullmatch(r"[+-]?0[xX][0-9a-fA-F]+", t):
        return int(t, 16)
    if NUM.match(t):
        return float(t)
    return {"NaN": float("nan"), "Infinity": float("inf"), "-Infinity": float("-inf")}.get(t)


def parse_int(s):
    t = s.strip()
    if re.fullmatch(r"[+-]?\d+", t) and -2**63 <= int(t) < 2**63:
        return int(t)
    if re.fullmatch(r"[+-]?0[xX][0-9a-fA-F]+", t):
        return wrap64(int(t, 16))
    return None


def parse_double(s):
    t = s.strip()
    if re.fullmatch(r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?", t):
        return float(t)
    return {"NaN": float("nan"), "Infinity": float("inf"), "-Infinity": float("-inf")}.get(t)


def must(f):
    def g(R, s, a, k, rt):
        v = f(a[0])
        if v is None:
            R.throw("FormatException", a[0])
        return v
    return g


NATIVE["num.tryParse"] = lambda R, s, a, k, rt: parse_num(a[0])
NATIVE["num.parse"] = must(parse_num)
NATIVE["int.tryParse"] = lambda R, s, a, k, rt: parse_int(a[0])
NATIVE["int.parse"] = must(parse_int)
NATIVE["double.tryParse"] = lambda R, s, a, k, rt: parse_double(a[0])
NATIVE["double.parse"] = must(parse_double)


def to_int(R, s):
    if isinstance(s, float):
        if s != s or s in (float("inf"), float("-inf")):
            R.throw("UnsupportedError", "toInt of %s" % s)
        return max(-2**63, min(2**63 - 1, int(s)))
    return s


def simple(name, f):
    NATIVE[name] = lambda R, s, a, k, rt: f(s, *a)


NATIVE["num.toInt"] = NATIVE["num.truncate"] = lambda R, s, a, k, rt: to_int(R, s)
simple("num.toDouble", float)
simple("num.abs", abs)
simple("int.abs", abs)
simple("double.abs", abs)
simple("num.isNaN", lambda s: s != s)
simple("num.isNegative", lambda s: s < 0)
simple("num.isInfinite", lambda s: s in (float("inf"), float("-inf")))
simple("num.isFinite", lambda s: s == s and s not in (float("inf"), float("-inf")))
simple("num.sign", lambda s: (s > 0) - (s < 0))
simple("num.compareTo", lambda s, o: (s > o) - (s < o))
simple("num.round", lambda s: int(Decimal(s).to_integral_value(rounding=decimal.ROUND_HALF_UP)))
simple("num.floor", lambda s: int(s // 1))
simple("num.ceil", lambda s: -int(-s // 1))
simple("num.clamp", lambda s, a, b: max(a, min(b, s)))
simple("num.toStringAsFixed", lambda s, n: str(Decimal(s).quantize(Decimal(1).scaleb(-n), rounding=decimal.ROUND_HALF_UP)))
simple("int.isEven", lambda s: s % 2 == 0)
simple("int.isOdd", lambda s: s % 2 == 1)
simple("int.bitLength", lambda s: s.bit_length())
simple("int.toUnsigned", lambda s, w: s & ((1 << w) - 1))
simple("int.toSigned", lambda s, w: (s & ((1 << w) - 1)) - ((1 << w) if s >> (w - 1) & 1 else 0))

# text; lengths are in UTF-16 units, which the check's texts make no use of beyond emptiness
simple("String.length", lambda s: len(s.encode("utf-16-le")) // 2)
simple("String.isEmpty", lambda s: not s)
simple("String.isNotEmpty", lambda s: bool(s))
simple("String.compareTo", lambda s, o: (s > o) - (s < o))
simple("String.substring", lambda s, a, b=None: s[a:b])
simple("String.trim", lambda s: s.strip())
simple("String.toLowerCase", lambda s: s.lower())
simple("String.toUpperCase", lambda s: s.upper())
simple("String.padLeft", lambda s, n, c=" ": s.rjust(n, c))
simple("String.endsWith", lambda s, o: s.endswith(o))


def pat(p):
    return p.v if isinstance(p, Obj) else re.compile(re.escape(p))


simple("String.contains", lambda s, p, i=0: bool(pat(p).search(s, i)))
simple("String.startsWith", lambda s, p, i=0: bool(pat(p).match(s, i)))
simple("String.indexOf", lambda s, p, i=0: (lambda m: m.start() if m else -1)(pat(p).search(s, i)))
simple("String.replaceAll", lambda s, p, r: pat(p).sub(lambda m: r, s))
NATIVE["String.split"] = lambda R, s, a, k, rt: R.list(pat(a[0]).split(s) if a[0] != "" else list(s), R.p.core_type("String"))


NATIVE["String.runes"] = lambda R, s, a, k, rt: DList([ord(c) for c in s], R.p.core_type("int"), "Iterable")


@native("String.codeUnits")
def _(R, s, a, k, rt):
    b = s.encode("utf-16-le")
    return DList([b[i] + 256 * b[i + 1] for i in range(0, len(b), 2)], R.p.core_type("int"))


@native("new RegExp")
def _(R, s, a, k, rt):
    # $ is the very end of a text, \d a digit of ASCII
    out, inside, text = "", False, a[0]
    for m in re.finditer(r"\\.|[\s\S]", text):
        c = m.group()
        inside = c == "[" or inside and c != "]"
        out += r"\Z" if c == "$" and not inside else c
    try:
        return Obj(R.c["RegExp"], re.compile(out, re.ASCII))
    except re.error:
        R.throw("FormatException", text)


simple("RegExp.hasMatch", lambda s, t: bool(s.v.search(t)))


# collections
def it(R, v):
    if isinstance(v, DList):
        return v.l
    R.throw("TypeError", "not an Iterable")


NATIVE["Iterable.map"] = lambda R, s, a, k, rt: DList([R.callf(a[0], [x]) for x in s.l], rt[0] if rt else DYN, "Iterable")
NATIVE["Iterable.where"] = lambda R, s, a, k, rt: DList([x for x in s.l if R.callf(a[0], [x])], s.elem, "Iterable")
NATIVE["Iterable.expand"] = lambda R, s, a, k, rt: DList([y for x in s.l for y in R.callf(a[0], [x]).l], rt[0] if rt else DYN, "Iterable")
NATIVE["Iterable.whereType"] = lambda R, s, a, k, rt: DList([x for x in s.l if R.isa(x, rt[0])], rt[0], "Iterable")
NATIVE["Iterable.cast"] = NATIVE["List.cast"] = lambda R, s, a, k, rt: DList([R.cast(x, rt[0]) for x in s.l], rt[0], s.cls)
NATIVE["Iterable.toList"] = lambda R, s, a, k, rt: DList(list(s.l), s.elem)
NATIVE["Iterable.toSet"] = lambda R, s, a, k, rt: DList(list({R.key(x): x for x in s.l}.values()), s.elem, "Set")
NATIVE["Iterable.length"] = lambda R, s, a, k, rt: len(s.l)
NATIVE["Iterable.isEmpty"] = lambda R, s, a, k, rt: not s.l
NATIVE["Iterable.isNotEmpty"] = lambda R, s, a, k, rt: bool(s.l)
NATIVE["Iterable.contains"] = lambda R, s, a, k, rt: any(R.eq(x, a[0]) for x in s.l)
NATIVE["Iterable.join"] = lambda R, s, a, k, rt: (a[0] if a else "").join(R.text(x) for x in s.l)
NATIVE["Iterable.any"] = lambda R, s, a, k, rt: any(R.callf(a[0], [x]) for x in s.l)
NATIVE["Iterable.every"] = lambda R, s, a, k, rt: all(R.callf(a[0], [x]) for x in s.l)
NATIVE["Iterable.skip"] = lambda R, s, a, k, rt: DList(s.l[a[0]:], s.elem, "Iterable")
NATIVE["Iterable.take"] = lambda R, s, a, k, rt: DList(s.l[:a[0]], s.elem, "Iterable")
NATIVE["Iterable.followedBy"] = lambda R, s, a, k, rt: DList(s.l + a[0].l, s.elem, "Iterable")


@native("Iterable.forEach")
def _(R, s, a, k, rt):
    for x in list(s.l):
        R.callf(a[0], [x])


@native("Iterable.fold")
def _(R, s, a, k, rt):
    v = a[0]
    for x in s.l:
        v = R.callf(a[1], [v, x])
    return v


@native("Iterable.firstWhere")
def _(R, s, a, k, rt):
    for x in s.l:
        if R.callf(a[0], [x]):
            return x
    if k.get("orElse") is not None:
        return R.callf(k["orElse"], [])
    R.throw("StateError", "no element")


def at(i):
    def f(R, s, a, k, rt):
        j = a[0] if i is None else i
        if not s.l or (i is None and not 0 <= j < len(s.l)):
            R.throw("StateError", "no element")
        return s.l[j]
    return f


NATIVE["Iterable.first"], NATIVE["Iterable.last"], NATIVE["Iterable.elementAt"] = at(0), at(-1), at(None)
NATIVE["List.from"] = lambda R, s, a, k, rt: DList([R.cast(x, rt[0]) for x in it(R, a[0])] if rt else list(a[0].l), rt[0] if rt else DYN)
NATIVE["List.of"] = NATIVE["List.unmodifiable"] = NATIVE["List.from"]
NATIVE["List.empty"] = lambda R, s, a, k, rt: DList([], rt[0] if rt else DYN)
NATIVE["List.filled"] = lambda R, s, a, k, rt: DList([a[1]] * a[0], rt[0] if rt else DYN)
NATIVE["List.generate"] = lambda R, s, a, k, rt: DList([R.callf(a[1], [i]) for i in range(a[0])], rt[0] if rt else DYN)
NATIVE["List.+"] = lambda R, s, a, k, rt: DList(s.l + a[0].l, s.elem)
NATIVE["List.add"] = lambda R, s, a, k, rt: s.l.append(R.cast(a[0], s.elem))
NATIVE["List.addAll"] = NATIVE["Set.addAll"] = lambda R, s, a, k, rt: s.l.extend(R.cast(x, s.elem) for x in a[0].l)
NATIVE["List.clear"] = NATIVE["Set.clear"] = lambda R, s, a, k, rt: s.l.clear()
NATIVE["List.insert"] = lambda R, s, a, k, rt: s.l.insert(a[0], a[1])
NATIVE["List.removeAt"] = lambda R, s, a, k, rt: s.l.pop(a[0])
NATIVE["List.removeLast"] = lambda R, s, a, k, rt: s.l.pop()
NATIVE["List.reversed"] = lambda R, s, a, k, rt: DList(s.l[::-1], s.elem, "Iterable")
NATIVE["List.sublist"] = lambda R, s, a, k, rt: DList(s.l[a[0]:a[1] if len(a) > 1 else None], s.elem)
NATIVE["List.indexOf"] = lambda R, s, a, k, rt: next((i for i, x in enumerate(s.l) if R.eq(x, a[0])), -1)


@native("List.remove", "Set.remove")
def _(R, s, a, k, rt):
    for i, x in enumerate(s.l):
        if R.eq(x, a[0]):
            del s.l[i]
            return True
    return False


@native("Set.add")
def _(R, s, a, k, rt):
    if any(R.eq(x, a[0]) for x in s.l):
        return False
    s.l.append(a[0])
    return True


@native("List.sort")
def _(R, s, a, k, rt):
    import functools
    s.l.sort(key=functools.cmp_to_key(lambda x, y: R.callf(a[0], [x, y]) if a and a[0] is not None else (x > y) - (x < y)))


@native("Map.map")
def _(R, s, a, k, rt):
    m = DMap(*(rt or (DYN, DYN)))
    for x, y in list(s.d.values()):
        e = R.callf(a[0], [x, y])
        m.d[R.key(e.f["key"])] = (e.f["key"], e.f["value"])
    return m


@native("Map.forEach")
def _(R, s, a, k, rt):
    for x, y in list(s.d.values()):
        R.callf(a[0], [x, y])


@native("Map.from", "Map.of", "Map.cast")
def _(R, s, a, k, rt):
    m = DMap(*(rt or (DYN, DYN)))
    for x, y in (s or a[0]).d.values():
        m.d[R.key(x)] = (R.cast(x, m.k), R.cast(y, m.v))
    return m


@native("Map.fromEntries")
def _(R, s, a, k, rt):
    return R.map([(e.f["key"], e.f["value"]) for e in a[0].l], *(rt or (DYN, DYN)))


NATIVE["Map.containsKey"] = lambda R, s, a, k, rt: R.key(a[0]) in s.d
NATIVE["Map.containsValue"] = lambda R, s, a, k, rt: any(R.eq(v, a[0]) for _, v in s.d.values())
NATIVE["Map.remove"] = lambda R, s, a, k, rt: s.d.pop(R.key(a[0]), (None, None))[1]
NATIVE["Map.clear"] = lambda R, s, a, k, rt: s.d.clear()
NATIVE["Map.addAll"] = lambda R, s, a, k, rt: s.d.update(a[0].d)
NATIVE["Map.keys"] = lambda R, s, a, k, rt: DList([x for x, _ in s.d.values()], s.k, "Iterable")
NATIVE["Map.values"] = lambda R, s, a, k, rt: DList([x for _, x in s.d.values()], s.v, "Iterable")
NATIVE["Map.length"] = lambda R, s, a, k, rt: len(s.d)
NATIVE["Map.isEmpty"] = lambda R, s, a, k, rt: not s.d
NATIVE["Map.isNotEmpty"] = lambda R, s, a, k, rt: bool(s.d)


@native("Map.entries")
def _(R, s, a, k, rt):
    c = R.c["MapEntry"]
    return DList([R.new(c, "", [x, y], {}, (s.k, s.v)) for x, y in s.d.values()], Ty(c, (s.k, s.v)), "Iterable")


@native("Map.putIfAbsent")
def _(R, s, a, k, rt):
    if R.key(a[0]) not in s.d:
        s.d[R.key(a[0])] = (a[0], R.callf(a[1], []))
    return s.d[R.key(a[0])][1]


# dates: ("date", microseconds, utc)
def date(R, us, utc=False):
    return Obj(R.c["DateTime"], ("date", us, bool(utc)))


NATIVE["new DateTime.fromMillisecondsSinceEpoch"] = lambda R, s, a, k, rt: date(R, a[0] * 1000, k.get("isUtc"))
NATIVE["new DateTime.fromMicrosecondsSinceEpoch"] = lambda R, s, a, k, rt: date(R, a[0], k.get("isUtc"))
NATIVE["new DateTime.now"] = lambda R, s, a, k, rt: date(R, 1700000000000000)


def civil(R, a, utc):
    y, mo, d, h, mi, se, ms, us = (list(a) + [1, 1, 0, 0, 0, 0, 0][len(a) - 1:])[:8]
    y, mo = y + (mo - 1) // 12, (mo - 1) % 12 + 1
    days = datetime.date(y, mo, 1).toordinal() - 719163 + d - 1
    return date(R, ((((days * 24 + h) * 60 + mi) * 60 + se) * 1000 + ms) * 1000 + us, utc)


NATIVE["new DateTime"] = lambda R, s, a, k, rt: civil(R, a, False)
NATIVE["new DateTime.utc"] = lambda R, s, a, k, rt: civil(R, a, True)
simple("DateTime.millisecondsSinceEpoch", lambda s: s.v[1] // 1000)
simple("DateTime.microsecondsSinceEpoch", lambda s: s.v[1])
simple("DateTime.isUtc", lambda s: s.v[2])
simple("DateTime.isBefore", lambda s, o: s.v[1] < o.v[1])
simple("DateTime.isAfter", lambda s, o: s.v[1] > o.v[1])
simple("DateTime.isAtSameMomentAs", lambda s, o: s.v[1] == o.v[1])
simple("DateTime.compareTo", lambda s, o: (s.v[1] > o.v[1]) - (s.v[1] < o.v[1]))
NATIVE["DateTime.toUtc"] = lambda R, s, a, k, rt: date(R, s.v[1], True)
NATIVE["DateTime.toLocal"] = lambda R, s, a, k, rt: date(R, s.v[1])
for _n, _f in (("year", lambda d: d.year), ("month", lambda d: d.month), ("day", lambda d: d.day), ("hour", lambda d: d.hour), ("minute", lambda d: d.minute),
               ("second", lambda d: d.second), ("weekday", lambda d: d.isoweekday()), ("millisecond", lambda d: d.microsecond // 1000)):
    simple("DateTime." + _n, lambda s, f=_f: f(datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=s.v[1])))


def iso(s):
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=s.v[1])
    return d.strftime("%Y-%m-%d %H:%M:%S.") + "%03d" % (d.microsecond // 1000) + ("Z" if s.v[2] else "")


simple("DateTime.toString", iso)
simple("DateTime.toIso8601String", lambda s: iso(s).replace(" ", "T"))


@native("DateTime.tryParse", "DateTime.parse")
def _(R, s, a, k, rt):
    m = re.fullmatch(r"(\d{4})-?(\d\d)-?(\d\d)(?:[ T](\d\d)(?::?(\d\d)(?::?(\d\d)(?:[.,](\d{1,6}))?)?)?)? ?([zZ])?", a[0])
    if not m:
        return None
    g = [int(x or 0) for x in m.groups()[:6]]
    us = int((m.group(7) or "0").ljust(6, "0"))
    return civil(R, g + [us // 1000, us % 1000], bool(m.group(8)))


NATIVE["Future.value"] = lambda R, s, a, k, rt: Future(a[0] if a else None)
NATIVE["Future.error"] = lambda R, s, a, k, rt: Future(error=Throw(a[0], "thrown: " + R.text(a[0])))
NATIVE["Future.then"] = lambda R, s, a, k, rt: Future(R.callf(a[0], [s.value])) if s.error is None else s
NATIVE["new SynchronousFuture"] = lambda R, s, a, k, rt: Future(a[0])
NATIVE["identical"] = lambda R, s, a, k, rt: a[0] is a[1] or (isinstance(a[0], (int, str, float, bool)) and type(a[0]) is type(a[1]) and a[0] == a[1])
NATIVE["print"] = lambda R, s, a, k, rt: None
for _c in ("Exception", "ArgumentError", "StateError", "UnimplementedError", "UnsupportedError"):
    NATIVE["new " + _c] = lambda R, s, a, k, rt, c=_c: Obj(R.c[c], R.text(a[0]) if a else "")
    simple(_c + ".toString", lambda s, c=_c: "%s: %s" % (c, s.v))


# fixnum
def i64(R, v):
    return Obj(R.sdk("package:fixnum/fixnum.dart", "Int64"), wrap64(v))


def int_of(R, x):
    return x.v if isinstance(x, Obj) else x


def parse64(R, s, radix=10):
    digits = "0123456789abcdefghijklmnopqrstuvwxyz"[:radix]
    t = s[1:] if s[:1] == "-" else s
    if not t or any(c.lower() not in digits for c in t):
        return None
    v = int(t, radix)
    return i64(R, -v if s[:1] == "-" else v)


@native("Int64.parseInt", "Int64.parseRadix")
def _(R, s, a, k, rt):
    v = parse64(R, *a)
    if v is None:
        R.throw("FormatException", a[0])
    return v


NATIVE["Int64.tryParseInt"] = lambda R, s, a, k, rt: parse64(R, a[0])
NATIVE["new Int64"] = lambda R, s, a, k, rt: i64(R, a[0] if a else 0)
simple("Int64.toInt", lambda s: s.v)
simple("Int64.toDouble", lambda s: float(s.v))
simple("Int64.toString", lambda s: str(s.v))
simple("Int64.toStringUnsigned", lambda s: str(s.v & (2**64 - 1)))
simple("Int64.isNegative", lambda s: s.v < 0)
simple("Int64.isZero", lambda s: s.v == 0)
NATIVE["Int64.compareTo"] = lambda R, s, a, k, rt: (s.v > int_of(R, a[0])) - (s.v < int_of(R, a[0]))
for _o, _f in (("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b)):
    NATIVE["Int64." + _o] = lambda R, s, a, k, rt, f=_f: i64(R, f(s.v, int_of(R, a[0])))
for _o, _f in (("<", lambda a, b: a < b), (">", lambda a, b: a > b), ("<=", lambda a, b: a <= b), (">=", lambda a, b: a >= b)):
    NATIVE["Int64." + _o] = lambda R, s, a, k, rt, f=_f: f(s.v, int_of(R, a[0]))
    NATIVE["Decimal." + _o] = lambda R, s, a, k, rt, f=_f: f(s.v, a[0].v)


# decimal
def dec(R, v):
    return Obj(R.sdk("package:decimal/decimal.dart", "Decimal"), v)


def parse_dec(R, s):
    m = re.fullmatch(r"[+-]?\d+(\.\d*)?([eE][+-]?\d+)?|[+-]?\d*\.\d+([eE][+-]?\d+)?", s)
    return dec(R, Decimal(s)) if m else None


def dec_text(s):
    if s.v == 0:
        return "0"
    return format(s.v.normalize(), "f")


@native("Decimal.parse", "new Decimal.fromJson")
def _(R, s, a, k, rt):
    v = parse_dec(R, a[0])
    if v is None:
        R.throw("FormatException", a[0])
    return v


NATIVE["Decimal.tryParse"] = lambda R, s, a, k, rt: parse_dec(R, a[0])
NATIVE["Decimal.fromInt"] = lambda R, s, a, k, rt: dec(R, Decimal(a[0]))
simple("Decimal.toString", dec_text)
simple("Decimal.toJson", dec_text)
simple("Decimal.toDouble", lambda s: float(s.v))
simple("Decimal.signum", lambda s: (s.v > 0) - (s.v < 0))
simple("Decimal.compareTo", lambda s, o: (s.v > o.v) - (s.v < o.v))
simple("Decimal.toStringAsFixed", lambda s, n: str(s.v.quantize(Decimal(1).scaleb(-n), rounding=decimal.ROUND_HALF_UP)))
for _o, _f in (("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b)):
    NATIVE["Decimal." + _o] = lambda R, s, a, k, rt, f=_f: dec(R, f(s.v, a[0].v))


# typed data, conversions
def u8(R, bs):
    return DList(list(bs), R.p.core_type("int"), "Uint8List")


def buf(R, l):
    return Obj(R.sdk("dart:typed_data", "ByteBuffer"), l)


NATIVE["new Uint8List"] = lambda R, s, a, k, rt: u8(R, [0] * a[0])
NATIVE["new Uint8List.fromList"] = lambda R, s, a, k, rt: u8(R, [x & 255 for x in a[0].l])
NATIVE["Uint8List.buffer"] = lambda R, s, a, k, rt: buf(R, s.l)
NATIVE["new ByteData"] = lambda R, s, a, k, rt: Obj(R.sdk("dart:typed_data", "ByteData"), [0] * a[0])
NATIVE["new ByteData.view"] = lambda R, s, a, k, rt: Obj(R.sdk("dart:typed_data", "ByteData"), a[0].v)
NATIVE["ByteData.buffer"] = lambda R, s, a, k, rt: buf(R, s.v)
NATIVE["ByteBuffer.asUint8List"] = lambda R, s, a, k, rt: u8(R, s.v)
simple("ByteData.lengthInBytes", lambda s: len(s.v))
simple("ByteBuffer.lengthInBytes", lambda s: len(s.v))


def decode(R, text):
    S = R.p.core_type("String")

    def num(t):
        v = int(t)
        return v if -2**63 <= v < 2**63 else float(v)

    def conv(x):
        if isinstance(x, list):
            return DList([conv(y) for y in x])
        if isinstance(x, Pairs):
            return R.map([(k, conv(v)) for k, v in x.l], S, DYN)
        return x

    class Pairs:
        def __init__(self, l):
            self.l = l
    try:
        return conv(json.loads(text, parse_int=num, object_pairs_hook=Pairs))
    except ValueError as e:
        R.throw("FormatException", str(e))


def encode(R, v, seen=0):
    if v is None or isinstance(v, (bool, int, str)):
        return json.dumps(v, ensure_ascii=False)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            R.throw("JsonUnsupportedObjectError", str(v))
        return double_text(v)
    if isinstance(v, DList) and v.cls in ("List", "Uint8List"):
        return "[" + ",".join(encode(R, x) for x in v.l) + "]"
    if isinstance(v, DMap):
        if any(not isinstance(k, str) for k, _ in v.d.values()):
            R.throw("JsonUnsupportedObjectError", "a key that is not a text")
        return "{" + ",".join(json.dumps(k, ensure_ascii=False) + ":" + encode(R, x) for k, x in v.d.values()) + "}"
    m = R.find(v, "toJson")
    if m is None or seen:
        R.throw("JsonUnsupportedObjectError", "a %s" % R.cls_of(v).name)
    return encode(R, R.invoke(v, m, [], {}), 1)


NATIVE["JsonCodec.decode"] = NATIVE["jsonDecode"] = lambda R, s, a, k, rt: decode(R, a[0])
NATIVE["JsonCodec.encode"] = NATIVE["jsonEncode"] = lambda R, s, a, k, rt: encode(R, a[0])
NATIVE["Utf8Codec.encode"] = lambda R, s, a, k, rt: u8(R, a[0].encode("utf-8"))


@native("Utf8Codec.decode")
def _(R, s, a, k, rt):
    try:
        return bytes(a[0].l).decode("utf-8")
    except UnicodeDecodeError as e:
        R.throw("FormatException", str(e))


# hbuf and flutter
@native("ServerClient.invoke")
def _(R, s, a, k, rt):
    return R.transport(s, *a)


NATIVE["FormBuild.build"] = NATIVE["TablesBuild.build"] = lambda R, s, a, k, rt: Obj(R.sdk("package:flutter/widgets.dart", "Widget"), s)


@native("TablesBuild.columns")
def _(R, s, a, k, rt):
    if s.v is None:
        s.v = DMap(Ty(R.c["String"]), Ty(R.sdk("package:hbuf_flutter/hbuf_flutter.dart", "TablesColumn"), s.rt))
    return s.v


@native("DateTimeFormat.format")
def _(R, s, a, k, rt):
    d, t = divmod(s.v[1] // 1000, 86400000)
    return "fd:%d:%d:%s" % (d, t, a[0])


@native("Localizations.of")
def _(R, s, a, k, rt):
    for d in R.delegates:
        if isinstance(a[1], TypeV) and R.p.as_super(Ty(d.cls), R.sdk("package:flutter/widgets.dart", "LocalizationsDelegate")).args[0].cls is a[1].cls:
            f = R.invoke(d, R.find(d, "load"), [a[0].f["locale"]], {})
            return R.await_(f)
    return None
