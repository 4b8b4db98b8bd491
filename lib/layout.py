"""Different texts for the same declarations, and broken ones."""
from schema import *

ENDS = {"ident", "int", "str", ")", "]", "}", ">"}
COMMENTS = ["// c", "// data X {", "//", "/* c */", "/* [db: */", "/**/", "// \u4e2d\u6587 \"", "/* } // */", "// in C:\\users \\u000a x", "/* \\u */ //", "// one \u2028 two \u2029 }", "// a\rb", "/* \r} */"]


def layout(rng, toks):
    """tokens with END -> raw tokens: every clause ends with a line break or ';',
    extra line breaks where they have no meaning"""
    r = []
    n = len(toks)
    for i, t in enumerate(toks):
        if t["t"] == "END":
            last = r[-1]["t"]
            nxt = toks[i + 1]["t"] if i + 1 < n else None
            k = rng.random()
            if nxt == "}" and k < 0.15:
                continue                       # nothing is needed before '}'
            if k < 0.3:
                r.append(T(";"))
                if rng.random() < 0.7:
                    r.append(NL)
            else:
                r.append(NL)
            while rng.random() < 0.3:
                r.append(NL)
            continue
        r.append(t)
        if t["t"] not in ENDS and rng.random() < (0.6 if t["t"] == "{" else 0.08):
            r.append(NL)
    while rng.random() < 0.2:
        r.insert(0, NL)
    if r and r[-1]["t"] == "nl" and rng.random() < 0.2:
        r.pop()                                # no line break at the end of the file
    return r


def wordy(t):
    return t["t"] in ("ident", "int", "bad") or t["t"] in KEYWORDS


def ink(rng, raw, comments=True, crlf=None, marks=None):
    """raw tokens -> text with random blanks and comments; marks: takes where each token begins and ends"""
    crlf = rng.random() < 0.2 if crlf is None else crlf
    out = []
    prev = None
    for t in raw:
        if t["t"] == "nl":
            if comments and rng.random() < 0.06:       # a comment with a line break is one
                out.append(rng.choice([" /* two\n lines */ ", "/*\n*/", "/* a */ /* b\r\n c */"]))
                prev = t
                continue
            if comments and rng.random() < 0.2:
                out.append(" " * rng.randint(0, 2) + rng.choice(COMMENTS))
            elif comments and rng.random() < 0.03:
                out.append("/* two\n lines */")
            out.append(rng.choice(["", "", " ", "\t"]))
            out.append("\r\n" if crlf else "\n")
            prev = t
            continue
        if prev is not None and wordy(prev) and wordy(t):
            gap = rng.choice([" ", "  ", "\t", " \t "])
        else:
            gap = rng.choice(["", "", " ", "\t", "   "])
        if comments and rng.random() < 0.03:
            gap = rng.choice([gap, ""]) + rng.choice(["/* in */", "/**/", "/***/"]) + rng.choice([" ", ""])
        out.append(gap)
        if t["t"] == "str" and rng.random() < 0.2 and not set(t["v"]) & set("\\`\n\r"):
            t = dict(t, raw=not t.get("raw"))
        out.append(spell(rng, t["v"]) if t["t"] == "int" and t["v"].isdigit() and rng.random() < 0.2 else tok_text(t))
        if marks is not None:
            end = sum(map(len, out))
            marks.append((end - len(out[-1]), end, t))
        prev = t
    if prev is not None and prev["t"] != "nl" and comments and rng.random() < 0.3:
        out.append(" // end")
    return "".join(out)


BAD = [".", "$", "#", "@", "!", "%", "&", "*", "+", "-", "|", "~", "^", "\\", "'", "\"open", "0x", "09", "1__2", "0b2", "/*open",
       "\x01", "\u20ac", "1.5", ".5", "99999999999999999999", "0x8000000000000000", "`raw"]


def damage(rng, raw, pool):
    """a few token-level edits of a text"""
    raw = list(raw)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not raw:
            raw = [NL]
        i = rng.randrange(len(raw))
        k = rng.random()
        if k < 0.3:
            del raw[i]
        elif k < 0.6:
            raw.insert(i, rng.choice(pool))
        elif k < 0.8:
            raw[i] = rng.choice(pool)
        elif k < 0.88:
            j = rng.randrange(len(raw))
            raw[i], raw[j] = raw[j], raw[i]
        elif k < 0.94:
            raw = raw[:i]
        elif k < 0.97:
            j = min(len(raw), i + rng.randint(1, 6))
            raw = raw[:j] + raw[i:j] + raw[j:]
        else:
            raw.insert(i, {"t": "bad", "v": rng.choice(BAD)})
    return raw


def unended(rng, raw):
    """a text that stops within a comment or a string, where all before it is complete: nothing
    but its missing end is wrong"""
    ends = [0, len(raw)] + [i + 1 for i, t in enumerate(raw) if t["t"] == "nl"]
    i = rng.choice([len(raw), rng.choice(ends), rng.choice(ends)])
    if i and raw[i - 1]["t"] != "nl":
        raw = raw[:i] + [NL]
        i += 1
    return raw[:i] + [{"t": "bad", "v": rng.choice(["/*", "/* open", "/* open\n", "/* two\nlines", "/* a\n * b\n", "/*/", "/* *\n/ ", "\"open", "\"",
                                                    "`raw\n", "'"])}]


POOL = [T(c) for c in PUNCT] + [T(k) for k in KEYWORDS] + [NL, NL] + \
       [I(x) for x in ("int8", "string", "User", "x", "void", "go", "db", "map")] + [N(1), N(7)] + \
       [S("a"), S("t"), S("b.hbuf")]
