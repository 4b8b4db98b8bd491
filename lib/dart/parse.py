"""Dart source -> syntax tree. Nodes are N(kind, ...attributes)."""
import re


class Bad(Exception):
    """the program is not valid Dart (or nothing this Dart knows)"""
    def __init__(self, msg, where=None):
        super().__init__(msg if where is None else "%s: %s" % (where, msg))


class N:
    def __init__(self, kind, line=0, **kw):
        self.kind = kind
        self.line = line
        self.__dict__.update(kw)

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join("%s=%r" % x for x in self.__dict__.items() if x[0] not in ("kind", "line")))


# ------------------------------------------------------------------- tokens
SYMBOLS = ["...?", "??=", "...", "?..", "~/=", "<<=", "=>", "==", "!=", "<=", "&&", "||", "??", "?.", "..", "<<", "+=", "-=", "*=", "/=", "++", "--", "~/",
           "|=", "&=", "^=", "%="]
RESERVED = set("assert break case catch class const continue default do else enum extends false final finally for if in is new null rethrow return super switch "
               "this throw true try var void while with".split())
ESC = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f", "v": "\v"}


class T:
    __slots__ = ("k", "v", "line", "end", "start")

    def __init__(self, k, v, line, start, end):
        self.k, self.v, self.line, self.start, self.end = k, v, line, start, end

    def __repr__(self):
        return "%s:%r" % (self.k, self.v)


def tokens(src, line=1, base=0):
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c == "\n":
            line += 1
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth, j = depth + 1, j + 2
                elif src.startswith("*/", j):
                    depth, j = depth - 1, j + 2
                else:
                    j += 1
            if depth:
                raise Bad("comment without end", line)
            line += src.count("\n", i, j)
            i = j
            continue
        if c in "'\"" or (c == "r" and i + 1 < n and src[i + 1] in "'\""):
            parts, j = string(src, i, line)
            out.append(T("str", parts, line, base + i, base + j))
            line += src.count("\n", i, j)
            i = j
            continue
        m = re.compile(r"0[xX][0-9a-fA-F]+|[0-9]+\.[0-9]+([eE][+-]?[0-9]+)?|\.[0-9]+([eE][+-]?[0-9]+)?|[0-9]+[eE][+-]?[0-9]+|[0-9]+").match(src, i)
        if m:
            t = m.group()
            if m.end() < n and (src[m.end()].isalpha() or src[m.end()] in "_$"):
                raise Bad("number followed by a name: %s" % src[i:m.end() + 5], line)
            hexa = t[:2] in ("0x", "0X")
            out.append(T("int" if hexa or t.isdigit() else "double", int(t, 16) if hexa else int(t) if t.isdigit() else float(t), line, base + i, base + m.end()))
            i = m.end()
            continue
        m = re.compile(r"[A-Za-z_$][A-Za-z0-9_$]*").match(src, i)
        if m:
            out.append(T("id", m.group(), line, base + i, base + m.end()))
            i = m.end()
            continue
        for s in SYMBOLS:
            if src.startswith(s, i):
                break
        else:
            s = c
            if c not in "(){}[]<>;:,.?=!+-*/%&|^~@#":
                raise Bad("unexpected character %r" % c, line)
        out.append(T("sym", s, line, base + i, base + i + len(s)))
        i += len(s)
    out.append(T("eof", "end of file", line, base + n, base + n))
    return out


def string(src, i, line):
    raw = src[i] == "r"
    if raw:
        i += 1
    q = src[i:i + 3] if src[i:i + 3] in ("'''", '"""') else src[i]
    i += len(q)
    parts, text = [], []
    if len(q) == 3:      # whitespace on the first line is dropped with its newline
        m = re.compile(r"[ \t]*\r?\n").match(src, i)
        if m:
            i = m.end()
    while True:
        if i >= len(src) or (len(q) == 1 and src[i] == "\n"):
            raise Bad("string without end", line)
        if src.startswith(q, i):
            i += len(q)
            break
        c = src[i]
        if c == "\\" and not raw:
            e = src[i + 1:i + 2]
            if e == "u":
                m = re.compile(r"\{([0-9a-fA-F]{1,6})\}|([0-9a-fA-F]{4})").match(src, i + 2)
                if not m:
                    raise Bad("bad \\u escape", line)
                text.append(chr(int(m.group(1) or m.group(2), 16)))
                i = m.end()
                continue
            if e == "x":
                m = re.compile(r"[0-9a-fA-F]{2}").match(src, i + 2)
                if not m:
                    raise Bad("bad \\x escape", line)
                text.append(chr(int(m.group(), 16)))
                i = m.end()
                continue
            text.append(ESC.get(e, e))
            i += 2
            continue
        if c == "$" and not raw:
            if text:
                parts.append("".join(text))
                text = []
            if src[i + 1:i + 2] == "{":
                depth, j = 1, i + 2
                while j < len(src) and depth:
                    if src[j] in "'\"":
                        _, j = string(src, j, line)
                        continue
                    depth += {"{": 1, "}": -1}.get(src[j], 0)
                    j += 1
                p = Parser(src[i + 2:j - 1], line)
                parts.append(p.expr())
                p.end()
                i = j
                continue
            m = re.compile(r"[A-Za-z_][A-Za-z0-9_]*").match(src, i + 1)
            if not m:
                raise Bad("a $ that begins no interpolation", line)
            parts.append(N("this", line) if m.group() == "this" else N("id", line, name=m.group()))
            i = m.end()
            continue
        text.append(c)
        i += 1
    if text:
        parts.append("".join(text))
    return parts, i


# ------------------------------------------------------------------- parser
BIN = [["??"], ["||"], ["&&"], ["==", "!="], None, ["|"], ["^"], ["&"], ["<<", ">>"], ["+", "-"], ["*", "/", "%", "~/"]]
MODS = {"static", "final", "const", "late", "external", "factory", "var", "covariant", "abstract"}


class Parser:
    def __init__(self, src, line=1):
        self.t = tokens(src, line)
        self.i = 0

    # -- tokens
    @property
    def tok(self):
        return self.t[self.i]

    def at(self, *vs):
        return self.tok.v in vs and self.tok.k in ("sym", "id")

    def peek(self, n=1):
        return self.t[min(self.i + n, len(self.t) - 1)]

    def accept(self, *vs):
        if self.at(*vs):
            self.i += 1
            return self.t[self.i - 1].v
        return None

    def expect(self, v):
        if not self.accept(v):
            raise Bad("expected %r, found %s" % (v, self.show()), self.tok.line)

    def show(self):
        return repr(self.tok.v if not isinstance(self.tok.v, list) else "a string")

    def name(self):
        if self.tok.k != "id" or self.tok.v in RESERVED:
            raise Bad("expected a name, found %s" % self.show(), self.tok.line)
        self.i += 1
        return self.t[self.i - 1].v

    def end(self):
        if self.tok.k != "eof":
            raise Bad("unexpected %s" % self.show(), self.tok.line)

    def attempt(self, f):
        i = self.i
        try:
            r = f()
            if r is not None:
                return r
        except Bad:
            pass
        self.i = i
        return None

    # -- types
    def type(self):
        line = self.tok.line
        if self.at("void"):
            self.i += 1
            t = N("type", line, name="void", args=[], q=False, prefix=None)
        elif self.at("Function") and self.peek().v in ("(", "<"):
            t = None
        else:
            n = self.name()
            prefix = None
            if self.at(".") and self.peek().k == "id":
                self.i += 1
                prefix, n = n, self.name()
            args = self.type_args() if self.at("<") else []
            q = bool(self.accept("?"))
            t = N("type", line, name=n, args=args, q=q, prefix=prefix)
        while self.at("Function") and self.peek().v in ("(", "<"):
            self.i += 1
            self.expect("(")
            pos, named, opt = [], {}, []
            while not self.at(")"):
                if self.accept("["):
                    while not self.at("]"):
                        opt.append(self.type())
                        if self.tok.k == "id":
                            self.name()
                        if not self.accept(","):
                            break
                    self.expect("]")
                elif self.accept("{"):
                    while not self.at("}"):
                        req = bool(self.accept("required"))
                        x = self.type()
                        named[self.name()] = (x, req)
                        if not self.accept(","):
                            break
                    self.expect("}")
                else:
                    pos.append(self.type())
                    if self.tok.k == "id":
                        self.name()
                if not self.accept(","):
                    break
            self.expect(")")
            t = N("ftype", line, ret=t, pos=pos, opt=opt, named=named, q=bool(self.accept("?")))
        return t

    def type_args(self):
        self.expect("<")
        r = [self.type()]
        while self.accept(","):
            r.append(self.type())
        self.expect(">")
        return r

    def type_params(self):
        r = []
        if self.accept("<"):
            while True:
                n = self.name()
                r.append((n, self.type() if self.accept("extends") else None))
                if not self.accept(","):
                    break
            self.expect(">")
        return r

    # -- program
    def unit(self):
        imports, decls = [], []
        while self.at("import", "export", "library", "part") and self.peek().v != "(":
            w = self.accept("import", "export", "library", "part")
            if w == "library":
                while not self.at(";"):
                    self.i += 1
                self.expect(";")
                continue
            if self.tok.k != "str" or any(not isinstance(p, str) for p in self.tok.v):
                raise Bad("expected a URI", self.tok.line)
            uri = "".join(self.tok.v)
            line = self.tok.line
            self.i += 1
            prefix, show, hide = None, None, set()
            if self.accept("as"):
                prefix = self.name()
            while self.at("show", "hide"):
                w2 = self.accept("show", "hide")
                ns = {self.name()}
                while self.accept(","):
                    ns.add(self.name())
                if w2 == "show":
                    show = ns
                else:
                    hide |= ns
            self.expect(";")
            imports.append(N(w, line, uri=uri, prefix=prefix, show=show, hide=hide))
        while self.tok.k != "eof":
            decls.append(self.top())
        return N("unit", 1, imports=imports, decls=decls)

    def annotations(self):
        r = []
        while self.accept("@"):
            n = self.name()
            while self.accept("."):
                n += "." + self.name()
            if self.at("("):
                self.args()
            r.append(n)
        return r

    def top(self):
        self.annotations()
        line = self.tok.line
        if self.at("abstract") or self.at("class") or (self.at("mixin") and self.peek().k == "id"):
            return self.klass(line)
        if self.at("enum"):
            self.i += 1
            n = self.name()
            self.expect("{")
            items = []
            while not self.at("}"):
                self.annotations()
                items.append(self.name())
                if not self.accept(","):
                    break
            self.expect("}")
            return N("enum", line, name=n, items=items)
        if self.at("extension") and self.peek().k == "id":
            self.i += 1
            n = self.name()
            if self.accept("on") is None:
                raise Bad("expected 'on', found %s" % self.show(), line)
            on = self.type()
            self.expect("{")
            members = []
            while not self.at("}"):
                members.append(self.member(n))
            self.expect("}")
            return N("extension", line, name=n, on=on, members=members)
        if self.at("typedef"):
            self.i += 1
            n = self.name()
            tp = self.type_params()
            self.expect("=")
            t = self.type()
            self.expect(";")
            return N("typedef", line, name=n, type=t, tparams=tp)
        m = self.member(None)
        if m.kind not in ("method", "field", "getter", "setter"):
            raise Bad("unexpected %s" % m.kind, line)
        return m

    def klass(self, line):
        abstract = bool(self.accept("abstract"))
        if not self.accept("mixin"):
            self.expect("class")
        n = self.name()
        tp = self.type_params()
        ext, impl, mix = None, [], []
        if self.accept("extends"):
            ext = self.type()
        if self.accept("with"):
            mix.append(self.type())
            while self.accept(","):
                mix.append(self.type())
        if self.accept("implements"):
            impl.append(self.type())
            while self.accept(","):
                impl.append(self.type())
        self.expect("{")
        members = []
        while not self.at("}"):
            if self.tok.k == "eof":
                raise Bad("class %s without end" % n, line)
            members.append(self.member(n))
        self.expect("}")
        return N("class", line, name=n, abstract=abstract, tparams=tp, ext=ext, impl=impl, mix=mix, members=members)

    def member(self, cls):
        ann = self.annotations()
        line = self.tok.line
        mods = set()
        while self.tok.v in MODS and self.tok.k == "id" and self.peek().v not in ("(", ";", "=", "=>", ","):
            mods.add(self.tok.v)
            self.i += 1
        # constructors
        if cls is not None and self.tok.k == "id" and self.tok.v == cls and (self.peek().v == "(" or self.peek().v == "." and self.peek(3).v == "("):
            self.i += 1
            cname = ""
            if self.accept("."):
                cname = self.name()
            ps = self.params()
            inits, redirect = [], None
            if self.accept("="):
                redirect = self.expr()
                self.expect(";")
                return N("ctor", line, name=cname, params=ps, inits=[], body=None, mods=mods, redirect=redirect)
            if self.accept(":"):
                while True:
                    inits.append(self.init())
                    if not self.accept(","):
                        break
            body = None if self.accept(";") else self.body()
            return N("ctor", line, name=cname, params=ps, inits=inits, body=body, mods=mods, redirect=None)
        t = None
        if self.at("get", "set") and self.peek().k == "id" and self.peek().v not in RESERVED:
            pass
        elif self.at("operator") and self.peek().k == "sym":
            pass
        elif "var" in mods:
            pass
        elif self.tok.k == "id" and self.peek().v in ("(", "=", ";", ",", "=>", "async") and not self.at("void", "Function"):
            pass
        else:
            t = self.type()
        if self.at("get") and self.peek().k == "id" and self.peek().v not in RESERVED:
            self.i += 1
            n = self.name()
            body = None if self.accept(";") else self.body()
            return N("getter", line, name=n, type=t, body=body, mods=mods, ann=ann)
        if self.at("set") and self.peek().k == "id" and self.peek().v not in RESERVED:
            self.i += 1
            n = self.name()
            ps = self.params()
            body = None if self.accept(";") else self.body()
            return N("setter", line, name=n, params=ps, body=body, mods=mods, ann=ann)
        if self.at("operator") and self.peek().k == "sym":
            self.i += 1
            op = self.tok.v
            self.i += 1
            if op == "[":
                self.expect("]")
                op = "[]"
                if self.accept("="):
                    op = "[]="
            if op in (">", "<") and self.at(op):
                self.i += 1
                op += op
            if op == ">" and self.at("="):
                self.i += 1
                op = ">="
            ps = self.params()
            body = None if self.accept(";") else self.body()
            return N("method", line, name=op, type=t, params=ps, tparams=[], body=body, mods=mods, ann=ann)
        n = self.name()
        if self.at("(") or self.at("<"):
            tp = self.type_params()
            ps = self.params()
            body = None if self.accept(";") else self.body()
            return N("method", line, name=n, type=t, params=ps, tparams=tp, body=body, mods=mods, ann=ann)
        vars = [(n, self.expr() if self.accept("=") else None)]
        while self.accept(","):
            n = self.name()
            vars.append((n, self.expr() if self.accept("=") else None))
        self.expect(";")
        return N("field", line, type=t, vars=vars, mods=mods, ann=ann)

    def init(self):
        line = self.tok.line
        if self.accept("super"):
            cname = self.name() if self.accept(".") else ""
            return N("super", line, name=cname, args=self.args())
        if self.at("this") and self.peek().v in ("(",) or self.at("this") and self.peek().v == "." and self.peek(3).v == "(":
            self.i += 1
            cname = self.name() if self.accept(".") else ""
            return N("redirect", line, name=cname, args=self.args())
        if self.accept("assert"):
            return N("assert", line, args=self.args())
        if self.accept("this"):
            self.expect(".")
        n = self.name()
        self.expect("=")
        return N("set", line, name=n, value=self.expr())

    def params(self):
        self.expect("(")
        r = []
        while not self.at(")"):
            if self.accept("["):
                while not self.at("]"):
                    r.append(self.param("opt"))
                    if not self.accept(","):
                        break
                self.expect("]")
            elif self.accept("{"):
                if self.at("}"):
                    raise Bad("expected a parameter, found '}'", self.tok.line)
                while not self.at("}"):
                    r.append(self.param("named"))
                    if not self.accept(","):
                        break
                self.expect("}")
            else:
                r.append(self.param("pos"))
            if not self.accept(","):
                break
        self.expect(")")
        return r

    def param(self, how):
        self.annotations()
        line = self.tok.line
        req = False
        if how == "named" and self.at("required") and self.peek().k == "id":
            self.i += 1
            req = True
        self.accept("final")
        cov = bool(self.accept("covariant"))
        self.accept("var")
        field, t = False, None
        if self.at("this") and self.peek().v == ".":
            self.i += 2
            field, n = True, self.name()
        elif self.tok.k == "id" and self.peek().v in (",", ")", "]", "}", "=", ":"):
            n = self.name()
        else:
            t = self.type()
            if self.at("this") and self.peek().v == ".":
                self.i += 2
                field = True
            n = self.name()
            if self.at("("):
                ps = self.params()
                t = N("ftype", line, ret=t, pos=[p.type for p in ps if p.how == "pos"], opt=[p.type for p in ps if p.how == "opt"],
                      named={p.name: (p.type, p.req) for p in ps if p.how == "named"}, q=bool(self.accept("?")))
        default = self.expr() if self.accept("=") or (how == "named" and self.accept(":")) else None
        return N("param", line, name=n, type=t, how=how, req=req, field=field, default=default, cov=cov)

    # -- bodies and statements
    def body(self):
        line = self.tok.line
        a = None
        if self.at("async", "sync"):
            a = self.accept("async", "sync")
            if self.accept("*"):
                raise Bad("generators are not supported", line)
        if self.accept("=>"):
            e = self.expr()
            self.expect(";")
            return N("body", line, expr=e, stmts=None, asynch=a == "async")
        return N("body", line, expr=None, stmts=self.block(), asynch=a == "async")

    def block(self):
        self.expect("{")
        r = []
        while not self.at("}"):
            if self.tok.k == "eof":
                raise Bad("block without end", self.tok.line)
            r.append(self.stmt())
        self.expect("}")
        return r

    def stmt(self):
        line = self.tok.line
        if self.at("{"):
            return N("block", line, stmts=self.block())
        if self.accept(";"):
            return N("block", line, stmts=[])
        if self.tok.k == "id":
            if self.accept("return"):
                e = None if self.at(";") else self.expr()
                self.expect(";")
                return N("return", line, value=e)
            if self.accept("if"):
                self.expect("(")
                c = self.expr()
                self.expect(")")
                a = self.stmt()
                b = self.stmt() if self.accept("else") else None
                return N("if", line, cond=c, then=a, other=b)
            if self.accept("while"):
                self.expect("(")
                c = self.expr()
                self.expect(")")
                return N("while", line, cond=c, body=self.stmt())
            if self.accept("for"):
                return self.forstmt(line)
            if self.accept("switch"):
                return self.switch(line)
            if self.accept("break"):
                self.expect(";")
                return N("break", line)
            if self.accept("continue"):
                self.expect(";")
                return N("continue", line)
            if self.accept("rethrow"):
                self.expect(";")
                return N("rethrow", line)
            if self.accept("assert"):
                a = self.args()
                self.expect(";")
                return N("assert", line, args=a)
            if self.accept("try"):
                b = self.block()
                catches, fin = [], None
                while self.at("on", "catch"):
                    t = self.type() if self.accept("on") else None
                    e = s = None
                    if self.accept("catch"):
                        self.expect("(")
                        e = self.name()
                        if self.accept(","):
                            s = self.name()
                        self.expect(")")
                    catches.append((t, e, s, self.block()))
                if self.accept("finally"):
                    fin = self.block()
                return N("try", line, body=b, catches=catches, fin=fin)
            v = self.attempt(self.vardecl)
            if v is not None:
                return v
            f = self.attempt(self.localfn)
            if f is not None:
                return f
        e = self.expr()
        self.expect(";")
        return N("expr", line, value=e)

    def vardecl(self, semi=True):
        line = self.tok.line
        late = bool(self.accept("late"))
        w = self.accept("final", "const", "var")
        t = None
        if not (w and self.tok.k == "id" and self.peek().v in ("=", ";", ",", "in")):
            t = self.type()
        if self.tok.k != "id" or self.tok.v in RESERVED or self.peek().v not in ("=", ";", ",", "in"):
            return None
        vars = []
        while True:
            n = self.name()
            vars.append((n, self.expr() if self.accept("=") else None))
            if not self.accept(","):
                break
        if semi:
            self.expect(";")
        return N("var", line, type=t, vars=vars, final=w in ("final", "const"), late=late)

    def localfn(self):
        line = self.tok.line
        t = None if self.peek().v == "(" else self.type()
        n = self.name()
        if not self.at("("):
            return None
        ps = self.params()
        if not self.at("{", "=>", "async"):
            return None
        b = self.body()
        return N("localfn", line, name=n, fn=N("closure", line, params=ps, body=b, type=t))

    def forstmt(self, line):
        self.expect("(")
        v = None if self.at(";") else self.attempt(lambda: self.vardecl(False))
        if v is not None and self.accept("in"):
            e = self.expr()
            self.expect(")")
            return N("forin", line, type=v.type, name=v.vars[0][0], of=e, body=self.stmt())
        if v is None and not self.at(";"):
            v = N("expr", line, value=self.expr())
        self.expect(";")
        c = None if self.at(";") else self.expr()
        self.expect(";")
        step = []
        while not self.at(")"):
            step.append(self.expr())
            if not self.accept(","):
                break
        self.expect(")")
        return N("for", line, init=v, cond=c, step=step, body=self.stmt())

    def switch(self, line):
        self.expect("(")
        e = self.expr()
        self.expect(")")
        self.expect("{")
        cases = []
        while not self.at("}"):
            labels = []
            while True:
                if self.accept("case"):
                    labels.append(self.expr())
                    self.expect(":")
                elif self.accept("default"):
                    labels.append(None)
                    self.expect(":")
                else:
                    break
            if not labels:
                raise Bad("expected a case, found %s" % self.show(), self.tok.line)
            ss = []
            while not self.at("case", "default", "}"):
                ss.append(self.stmt())
            cases.append((labels, ss))
        self.expect("}")
        return N("switch", line, value=e, cases=cases)

    # -- expressions
    def expr(self):
        line = self.tok.line
        if self.tok.k == "id" and self.accept("throw"):
            return N("throw", line, value=self.expr())
        e = self.cond()
        op = self.tok.v if self.tok.k == "sym" else None
        if op in ("=", "??=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "%=", "~/=", "<<="):
            if e.kind not in ("id", "get", "index"):
                raise Bad("cannot assign to this", line)
            self.i += 1
            return N("assign", line, op=op, target=e, value=self.expr())
        while self.at("..", "?.."):
            q = self.accept("..", "?..") == "?.."
            parts = []
            hole = N("hole", line)
            s = self.selectors(N("get", line, of=hole, name=self.name(), q=False), True)
            if self.tok.k == "sym" and self.at("="):
                self.i += 1
                s = N("assign", line, op="=", target=s, value=self.cond())
            parts.append(s)
            e = N("cascade", line, of=e, hole=hole, does=parts, q=q)
        return e

    def cond(self):
        line = self.tok.line
        c = self.binary(0)
        if self.tok.k == "sym" and self.accept("?"):
            a = self.expr_nocascade()
            self.expect(":")
            b = self.expr_nocascade()
            return N("cond", line, cond=c, then=a, other=b)
        return c

    def expr_nocascade(self):
        line = self.tok.line
        if self.tok.k == "id" and self.accept("throw"):
            return N("throw", line, value=self.expr_nocascade())
        e = self.cond()
        if self.tok.k == "sym" and self.tok.v in ("=", "??=", "+=", "-="):
            op = self.tok.v
            self.i += 1
            return N("assign", line, op=op, target=e, value=self.expr_nocascade())
        return e

    def binary(self, level):
        if level == len(BIN):
            return self.unary()
        if BIN[level] is None:
            return self.relational(level)
        e = self.binary(level + 1)
        n = 0
        while self.tok.k == "sym":
            line = self.tok.line
            op = self.tok.v
            if ">>" in BIN[level] and op == ">" and self.peek().v == ">" and self.peek().start == self.tok.end:
                self.i += 2
                op = ">>"
            elif op in BIN[level]:
                self.i += 1
            else:
                break
            n += 1
            if op in ("==", "!=") and n > 1:
                raise Bad("comparisons do not chain", line)
            e = N("bin", line, op=op, a=e, b=self.binary(level + 1))
        return e

    def relational(self, level):
        e = self.binary(level + 1)
        line = self.tok.line
        if self.tok.k == "id" and self.accept("is"):
            neg = bool(self.accept("!"))
            return N("is", line, of=e, type=self.testtype(), neg=neg)
        if self.tok.k == "id" and self.accept("as"):
            e = N("as", line, of=e, type=self.testtype())
            if self.tok.k == "id" and self.at("as", "is"):
                raise Bad("unexpected %s" % self.show(), line)
            return e
        if self.tok.k == "sym" and (self.at("<", "<=") or self.at(">") and self.peek().v != ">"):
            op = self.tok.v
            self.i += 1
            if op == ">" and self.at("=") and self.tok.start == self.t[self.i - 1].end:
                self.i += 1
                op = ">="
            elif op == ">" and self.at("=="):
                raise Bad("unexpected '=='", line)
            return N("bin", line, op=op, a=e, b=self.binary(level + 1))
        return e

    def testtype(self):
        """a type after is or as, where a ? may begin a conditional"""
        i = self.i
        t = self.type()
        if getattr(t, "q", False):
            # x is T ? a : b
            save = self.i
            try:
                if not self.at(")", "]", "}", ",", ";", "&&", "||", "?", ":", "??", "==", "!=") and self.tok.k != "eof":
                    raise Bad("")
            except Bad:
                t.q = False
                self.i = save - 1
        return t

    def unary(self):
        line = self.tok.line
        if self.tok.k == "sym" and self.at("!", "-", "~"):
            op = self.tok.v
            self.i += 1
            return N("un", line, op=op, of=self.unary())
        if self.tok.k == "sym" and self.at("++", "--"):
            op = self.tok.v
            self.i += 1
            t = self.unary()
            return N("assign", line, op=op[0] + "=", target=t, value=N("int", line, v=1))
        if self.tok.k == "id" and self.at("await") and (self.peek().k in ("id", "str", "int") or self.peek().v in ("(", "[", "{")):
            self.i += 1
            return N("await", line, of=self.unary())
        return self.postfix()

    def postfix(self):
        e = self.selectors(self.primary(), False)
        if self.tok.k == "sym" and self.at("++", "--"):
            line = self.tok.line
            op = self.tok.v
            self.i += 1
            return N("post", line, op=op[0], target=e)
        return e

    def selectors(self, e, cascade):
        while True:
            line = self.tok.line
            if self.tok.k != "sym":
                return e
            if self.at(".") or self.at("?."):
                q = self.tok.v == "?."
                self.i += 1
                if self.tok.k == "id" and self.at("new"):
                    self.i += 1
                    n = "new"
                else:
                    n = self.name()
                e = N("get", line, of=e, name=n, q=q)
            elif self.at("("):
                e = N("call", line, fn=e, targs=[], args=self.args())
            elif self.at("["):
                self.i += 1
                x = self.expr()
                self.expect("]")
                e = N("index", line, of=e, at=x, q=False)
            elif self.at("?") and self.peek().v == "[" and self.peek().start == self.tok.end and self.attempt(self.qindex):
                e = N("index", line, of=e, at=self.last, q=True)
            elif self.at("!") and self.peek().v not in ("=",):
                self.i += 1
                e = N("bang", line, of=e)
            elif self.at("<") and e.kind in ("id", "get"):
                def generic():
                    ts = self.type_args()
                    return ts if self.at("(") or (self.at(".") and e.kind == "id") else None
                ts = self.attempt(generic)
                if ts is None:
                    return e
                if self.at("."):
                    e = N("tid", line, name=e.name, targs=ts)
                    continue
                e = N("call", line, fn=e, targs=ts, args=self.args())
            else:
                return e

    def qindex(self):
        self.expect("?")
        self.expect("[")
        self.last = self.expr()
        self.expect("]")
        if self.at(":"):
            return None
        return True

    def args(self):
        self.expect("(")
        r = []
        while not self.at(")"):
            if self.tok.k == "id" and self.peek().v == ":" and self.peek().k == "sym" and self.tok.v not in RESERVED:
                n = self.name()
                self.expect(":")
                r.append((n, self.expr()))
            else:
                r.append((None, self.expr()))
            if not self.accept(","):
                break
        self.expect(")")
        return r

    def closure_ahead(self):
        """at '(': is this the parameters of a closure?"""
        depth, j = 0, self.i
        while j < len(self.t):
            t = self.t[j]
            if t.k == "sym" and t.v in "([{" and len(t.v) == 1:
                depth += 1
            elif t.k == "sym" and t.v in ")]}" and len(t.v) == 1:
                depth -= 1
                if depth == 0:
                    n = self.t[j + 1]
                    return n.v in ("=>", "{", "async") and n.k in ("sym", "id")
            elif t.k == "eof":
                return False
            j += 1
        return False

    def closure(self):
        line = self.tok.line
        ps = self.params()
        a = bool(self.accept("async"))
        if self.accept("=>"):
            b = N("body", line, expr=self.expr_nocascade(), stmts=None, asynch=a)
        else:
            b = N("body", line, expr=None, stmts=self.block(), asynch=a)
        return N("closure", line, params=ps, body=b, type=None)

    def primary(self):
        t = self.tok
        line = t.line
        if t.k in ("int", "double"):
            self.i += 1
            if t.k == "int" and t.v > 2**63 - 1 and not (t.v == 2**63):
                raise Bad("the integer %d does not fit" % t.v, line)
            return N(t.k, line, v=t.v)
        if t.k == "str":
            parts = []
            while self.tok.k == "str":
                parts += self.tok.v
                self.i += 1
            return N("str", line, parts=parts)
        if t.k == "sym":
            if t.v == "(":
                if self.closure_ahead():
                    return self.closure()
                self.i += 1
                e = self.expr()
                self.expect(")")
                return N("paren", line, of=e)
            if t.v in ("[", "{", "<"):
                return self.literal(line)
            raise Bad("unexpected %s" % self.show(), line)
        if t.k == "id":
            if t.v in ("null", "true", "false"):
                self.i += 1
                return N("lit", line, v={"null": None, "true": True, "false": False}[t.v])
            if t.v == "this":
                self.i += 1
                return N("this", line)
            if t.v == "super":
                self.i += 1
                return N("superref", line)
            if t.v in ("const", "new"):
                self.i += 1
                if self.at("[", "{", "<"):
                    return self.literal(line)
                return self.selectors(N("id", line, name=self.name()), False)
            if t.v in RESERVED:
                raise Bad("unexpected %s" % self.show(), line)
            self.i += 1
            return N("id", line, name=t.v)
        raise Bad("unexpected %s" % self.show(), line)

    def element(self, map_ok):
        line = self.tok.line
        if self.at("...", "...?"):
            q = self.accept("...", "...?") == "...?"
            return N("spread", line, of=self.expr(), q=q)
        if self.tok.k == "id" and self.at("if"):
            self.i += 1
            self.expect("(")
            c = self.expr()
            self.expect(")")
            a = self.element(map_ok)
            b = self.element(map_ok) if self.accept("else") else None
            return N("ifelem", line, cond=c, then=a, other=b)
        if self.tok.k == "id" and self.at("for"):
            self.i += 1
            self.expect("(")
            v = self.attempt(lambda: self.vardecl(False))
            if v is None or not self.accept("in"):
                raise Bad("this kind of for elements is not supported", line)
            e = self.expr()
            self.expect(")")
            return N("forelem", line, type=v.type, name=v.vars[0][0], of=e, does=self.element(map_ok))
        k = self.expr()
        if map_ok and self.accept(":"):
            return N("entry", line, key=k, value=self.expr())
        return k

    def literal(self, line):
        targs = self.type_args() if self.at("<") else None
        if self.accept("["):
            r = []
            while not self.at("]"):
                r.append(self.element(False))
                if not self.accept(","):
                    break
            self.expect("]")
            return N("list", line, targs=targs, items=r)
        self.expect("{")
        r = []
        while not self.at("}"):
            r.append(self.element(True))
            if not self.accept(","):
                break
        self.expect("}")
        isset = (targs is not None and len(targs) == 1) or (targs is None and r and r[0].kind not in ("entry", "spread", "ifelem", "forelem"))
        return N("set" if isset else "map", line, targs=targs, items=r)


def parse(src):
    p = Parser(src)
    return p.unit()
