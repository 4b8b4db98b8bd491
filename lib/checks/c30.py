"""C30: the command line builds what it is asked for, or nothing (Cli.tla, judged by CliEval.tla)."""
import os, random, re, shutil, subprocess
import core

LEVEL = "model_checking"
TEXTS = {"src/a.hbuf": 'package go="x"\npackage java="c.d"\nimport "b.hbuf"\ndata A {\n int8 a = 0\n B b = 1\n}\n',
         "src/b.hbuf": 'package go="y"\npackage java="c.e"\ndata B {\n int8 a = 0\n}\n', "file": "file\n"}
OF_B = ["y/b.data.go", "b.data.ts", "b.data.dart", "BData.java", "BEnum.java", "BServer.java"]
VALUES = {"o": ["out", "o2/sub", "./o2/../out", "file", "a=b", "x y", "-t", "", ".", "o2/..", "full", "dirs"], "i": ["src/a.hbuf", "./src/../src/b.hbuf", "src/*.hbuf", "none.hbuf", "no/a.hbuf", "src", ""],
          "t": ["go", "ts", "dart", "java", "js", "GO", "go ", ""], "p": ["demo/", "", "a=b/", "-v", "m/n/"]}


def line(rng):
    """mostly complete lines in any order and spelling"""
    ws = []
    fl = [f for f in "oitp" if rng.random() < (0.96 if f != "p" else 0.6)]
    fl += [rng.choice("oitp")] * (rng.random() < 0.3)
    rng.shuffle(fl)
    for f in fl:
        v = rng.choice(VALUES[f][:4] if rng.random() < 0.8 else VALUES[f])
        d = rng.choice(["-", "--"])
        ws += [d + f, v] if rng.random() < 0.6 else [d + f + "=" + v]
        if rng.random() < 0.07:
            ws.append(rng.choice(["-v", "--v=true", "-v=0", "--v=F", "-v=no", "--", "rest", "-", "-q", "-h", "-v=", "--=", "-vv", ""]))
    return ws


def files_in(d):
    return {os.path.relpath(os.path.join(b, f), d) for b, _, fs in os.walk(d) for f in fs}


def run(ctx):
    rng = random.Random(ctx.seed * 881 + 30)
    lines = [c["words"] for c in ctx.tlc_cases("MC_Cli", cfg="MC_CliLong" if ctx.thorough else "MC_Cli", workers=4)]
    model = len(lines)
    lines += [line(rng) for _ in range(20000 if ctx.thorough else 2500)]

    def one(ws):
        d = os.path.join(ctx.dir(), "w")
        core.write_files(d, TEXTS)
        if any("full" in w or "dirs" in w for w in ws):
            for f in OF_B:
                os.makedirs(os.path.join(d, "dirs", f))
                os.makedirs(os.path.join(d, "full", os.path.dirname(f)), exist_ok=True)
                os.symlink("/dev/full", os.path.join(d, "full", f))
        r = subprocess.run([ctx.hbuf] + ws, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        new = sorted(f for f in files_in(d) - set(TEXTS) if not os.path.islink(os.path.join(d, f)))
        text = {f: open(os.path.join(d, f)).read() for f in new}
        kept = all(open(os.path.join(d, f)).read() == s for f, s in TEXTS.items())
        shutil.rmtree(d, ignore_errors=True)
        return r.returncode, r.stdout.decode("utf-8", "replace"), text, kept
    done = ctx.pmap(one, lines)
    recs = [{"words": ws, "ok": rc == 0, "files": sorted(text), "imports": sorted({m for s in text.values() for m in re.findall(r'^\t?(?:import )?"(.*y)"$', s, re.M)})}
            for ws, (rc, out, text, kept) in zip(lines, done)]
    verdicts = ctx.tlc_eval("CliEval", recs)
    usual = {}     # what a plain line with the same settings writes
    for v in verdicts:
        k = tuple(v["like"][:3])
        if k and k not in usual:
            usual[k] = one(["-i", k[0], "-o", "out", "-t", k[1]] + (["-p", k[2]] if k[2] else []))[2]
    for ws, (rc, out, text, kept), rec, v in zip(lines, done, recs, verdicts):
        ctx.count("traces_validated_against_impl")
        ctx.count("built", bool(text))
        info = "hbuf %s\nexit status %d\n%s\nwritten: %s\nGo imports: %s\nthe specification: %s" % (ws, rc, out[:800], rec["files"], rec["imports"], v["want"])
        if not v["ok"]:
            ctx.violation("%s: %s" % (" ".join(ws) or "no words", "exit status %d, %s written" % (rc, rec["files"] or "nothing")), info)
        elif not kept:
            ctx.violation("%s: a file of the schemas is changed" % " ".join(ws), info)
        elif rec["ok"] and text and {f[len(v["like"][3]):]: s for f, s in text.items()} != {f[4:]: s for f, s in usual[tuple(v["like"][:3])].items()}:
            ctx.violation("%s: the code is not that of a plain line" % " ".join(ws), info)
        elif rc != 0 and not out.strip():
            ctx.violation("%s: refused without a word" % " ".join(ws), info)
    ctx.cov["lines_of_the_model"] = model
    ctx.sample({"words": lines[-1], "files": recs[-1]["files"]})
