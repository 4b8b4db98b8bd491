"""C31: how the characters of a schema are read (Scan.tla, judged by ScanEval.tla)."""
import json, os, random, re, shutil, subprocess
import core

LEVEL = "model_checking"
CHARS = {"nl": b"\n", "cr": b"\r", "tab": b"\t", "E1": "\u00e9".encode(), "C1": "\u4e2d".encode(), "D1": "\u0663".encode(), "S1": "\u00a0".encode(),
         "bom": "\ufeff".encode(), "nul": b"\0", "bad": b"\xff"}
# a schema around each place, and the target it is built for
PLACES = {"num": (b"enum E {\n A = ", b"\n}\n", "ts"), "id": (b"data A {\n int8 ", b" = 0\n}\n", "ts"),
          "com": (b"enum E {\n A = 0 ", b"}\n", "ts"), "start": (b"", b"data A {\n int8 a = 0\n}\n", "ts"), "end": (b"data A {\n int8 a = 0\n}", b"", "ts"),
          "str": (b'package go="x"\ndata A {\n int8 a = 0\n}\nserver S {\n [tag:k="', b'"]\n A m(A r) = 0\n}\n', "go"),
          "raw": (b'package go="x"\ndata A {\n int8 a = 0\n}\nserver S {\n [tag:k=`', b'`]\n A m(A r) = 0\n}\n', "go")}
ODD = {"num": list("0178_9xXobBOaAfFg.- ") + ["cr", "D1"], "id": list("aZ_09-$ q") + ["E1", "C1", "D1", "S1", "bom", "nul"],
       "str": list("a\\\"nxuU0478`' /") + ["nl", "cr", "E1", "C1", "nul", "bom", "tab"], "raw": list("a`\\\"n/*") + ["nl", "cr", "E1", "bad", "tab"],
       "com": list("/* x\"`:0") + ["nl", "cr", "E1", "bad"], "start": list("/* ") + ["bom", "nl", "cr", "tab"], "end": list("/*x ") + ["bom", "nl", "cr", "tab"]}
LINE = [list("//line x:0"), list("//line :3:0"), list("/*line y:9*/"), list("/*line a:b:x*/"), list("//line "), list("//!line 7")]


def likely(rng, place):
    """mostly texts that fit, longer than those of the model"""
    if place == "num":
        pre, ds = rng.choice([("", "0123456789"), ("0x", "0123456789abcdefABCDEF"), ("0X", "09afF"), ("0o", "01234567"), ("0", "01234567"), ("0b", "01"), ("0B", "01"), ("0O", "07")])
        s = "".join(rng.choice(ds) for _ in range(rng.randint(1, 12)))
        s = s.lstrip("0") or "1" if not pre else s
        for _ in range(rng.choice([0, 0, 1, 2])):
            i = rng.randint(1, len(s))
            s = s[:i] + "_" * (i < len(s)) + s[i:] if rng.random() < 0.9 else s[:i] + "_" + s[i:]
        return list(pre + ("_" if pre and pre != "0" and rng.random() < 0.2 else "") + s)
    if place == "id":
        x = [rng.choice(["a", "Z", "_", "E1", "C1", "b"])] + [rng.choice(["a", "Z", "_", "0", "7", "E1", "C1", "D1"]) for _ in range(rng.randint(0, 9))]
        return [" "] * rng.randint(0, 2) + x + [" "] * rng.randint(0, 1)
    if place in ("str", "raw"):
        x = []
        for _ in range(rng.randint(0, 7)):
            esc = rng.choice([["\\", rng.choice("abfnrtv\\\"")], ["\\", "x"] + [rng.choice("09afAF7") for _ in range(2)],
                              ["\\", rng.choice("001234")] + [rng.choice("01234567") for _ in range(2)],
                              ["\\", "u"] + [rng.choice("00d7D8fF9") for _ in range(4)],
                              ["\\", "U", "0", "0", "0", rng.choice("01"), rng.choice("0f")] + [rng.choice("0189cF") for _ in range(3)],
                              ["\\", "U", "0", "0", "1", rng.choice("001"), rng.choice("0F")] + [rng.choice("0F") for _ in range(3)]])
            x += esc if rng.random() < 0.5 else [rng.choice(["a", "Z", " ", "'", "/", "$", "{", "%", "E1", "C1", "D1", "S1", "tab", "`" if place == "str" else "\"", "nl" if place == "raw" else "q", "cr"])]
        return x
    x = []
    for _ in range(rng.randint(0, 4)):
        body = [rng.choice(["*", "/", " ", "x", "\"", "`", "}", "cr", "E1", "*"]) for _ in range(rng.randint(0, 7))]
        k = rng.random()
        if k < 0.15:
            x += ["/", "/"] + list(rng.choice(LINE))[2:] + ["nl"] if rng.random() < 0.5 else ["nl"] + list(rng.choice(LINE)) + ["nl"]
        elif k < 0.45:
            x += ["/", "/"] + body + ["nl"]
        elif k < 0.85:
            x += ["/", "*"] + body + rng.choice([[], ["nl"]]) + ["*"] * rng.choice([1, 1, 2, 3]) + ["/"]
        else:
            x += [rng.choice([" ", "tab", "cr", "nl"])]
    return (["bom"] if place == "start" and rng.random() < 0.4 else []) + x


def texts(rng, n):
    for _ in range(n):
        place = rng.choice(["num", "id", "str", "str", "raw", "com", "com", "start", "end"])
        x = likely(rng, place)
        if rng.random() < 0.35:
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randint(0, len(x))
                x[i:i + rng.choice([0, 0, 1, 1, 2])] = [rng.choice(ODD[place])] * rng.choice([0, 1, 1])
        yield place, x


def written(x):
    return b"".join(CHARS.get(c) or c.encode() for c in x)


UNQUOTE = """package main

import (
	"encoding/json"
	"os"
	"strconv"
)

func main() {
	var in []string
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		panic(err)
	}
	out := make([][]int, len(in))
	for i, s := range in {
		if t, err := strconv.Unquote(s); err == nil {
			out[i] = []int{}
			for _, b := range []byte(t) {
				out[i] = append(out[i], int(b))
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
"""


def unquote(ctx, literals):
    """the bytes that Go reads in each of the literals; None if it is none"""
    d = ctx.dir()
    core.write_files(d, {"go.mod": "module unquote\n\ngo 1.20\n", "main.go": UNQUOTE})
    p = subprocess.run(["go", "run", "."], cwd=d, env=core.go_env(), input=json.dumps(literals).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode:
        raise core.CheckError("reading literals fails: " + p.stderr.decode()[:1000])
    return json.loads(p.stdout)


def run(ctx):
    rng = random.Random(ctx.seed * 787 + 31)
    cases = [(c["place"], c["text"]) for c in ctx.tlc_cases("MC_Scan", cfg="MC_ScanBig" if ctx.thorough else "MC_Scan", workers=4)]
    model = len(cases)
    cases += texts(rng, 40000 if ctx.thorough else 5000)

    def one(case):
        place, x = case
        before, after, target = PLACES[place]
        d = ctx.dir()
        with open(os.path.join(d, "a.hbuf"), "wb") as f:
            f.write(before + written(x) + after)
        r = ctx.compile(os.path.join(d, "a.hbuf"), os.path.join(d, "out"), target)
        got, broken = None, ""
        for b, _, fs in os.walk(os.path.join(d, "out")):
            for f in fs:
                raw = open(os.path.join(b, f), "rb").read()
                try:
                    code = raw.decode()
                except UnicodeDecodeError:
                    broken = f
                    code = raw.decode("utf-8", "replace")
                if place == "num" and f == "a.enum.ts":
                    got = (re.findall(r'new E\((\d+)', code) or [None])[0]
                elif place in ("str", "raw") and f == "a.server.go":
                    got = (re.findall(r'SetTag\(ctx, "k", (".*"|`[^`]*`)\)', code) or [None])[0]
        shutil.rmtree(d, ignore_errors=True)
        return r, got, broken
    done = ctx.pmap(one, cases)
    at = [i for i, (r, got, _) in enumerate(done) if cases[i][0] in ("str", "raw") and got is not None]
    read = dict(zip(at, unquote(ctx, [done[i][1] for i in at])))
    recs = []
    for i, ((place, x), (r, got, _)) in enumerate(zip(cases, done)):
        means = read.get(i) if place in ("str", "raw") else [int(got) if int(got) < 1 << 31 else -1] if got else None
        recs.append({"place": place, "text": x, "ok": r.verdict == "accept", "means": [-2] if means is None and place in ("num", "str", "raw") else means or []})
    for (place, x), (r, got, broken), rec, v in zip(cases, done, recs, ctx.tlc_eval("ScanEval", recs)):
        ctx.count("traces_validated_against_impl")
        ctx.count("fitting_" + place, v["want"])
        before, after, target = PLACES[place]
        src = {"a.hbuf": repr(before + written(x) + after)}
        info = "%s\nthe specification: %s %s\nin the code: %s" % (r.out[:800], "fits" if v["want"] else "does not fit", v["means"], got)
        if r.crashed or r.unclear:
            ctx.violation("%s %s: the compiler %s" % (place, written(x), "crashes" if r.crashed else "is unclear"), info, src)
        elif not v["ok"]:
            ctx.violation("%s %s: %s, the compiler %ss it%s" % (place, written(x), "fits" if v["want"] else "does not fit", r.verdict,
                          " as %s" % got if r.verdict == "accept" and got else ""), info, src)
        elif broken:
            ctx.violation("%s %s: %s is not UTF-8" % (place, written(x), broken), info, src)
    ctx.cov["texts_of_the_model"] = model
    ctx.sample({"place": cases[-1][0], "text": written(cases[-1][1]).decode("utf-8", "replace"), "ok": recs[-1]["ok"]})
