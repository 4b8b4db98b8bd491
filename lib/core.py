"""Common machinery of the checks: building the compiler, running it, running
TLC, reporting.  Python 3 standard library only."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NODE_MODULES = "/opt/veriftools/node/node_modules"


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


def go_env():
    env = dict(os.environ)
    env.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off",
               GOFLAGS="-mod=mod", GOWORK="off")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + env.get("PATH", "")
    return env


class Result:
    __slots__ = ("rc", "out", "timeout", "panic")

    def __init__(self, rc, out, timeout):
        self.rc, self.out, self.timeout = rc, out, timeout
        self.panic = (not timeout) and rc not in (0, 1) or "panic:" in out or "goroutine 1 [" in out

    @property
    def crashed(self):
        return self.timeout or self.panic

    @property
    def refused(self):
        """the compiler told the user that it did not build"""
        return (not self.crashed) and (self.rc != 0 or bool(ERR.search(self.out)))

    @property
    def unclear(self):
        """exit status and messages do not agree"""
        return (not self.crashed) and (self.rc != 0) != bool(ERR.search(self.out))

    @property
    def verdict(self):
        if self.timeout:
            return "hang"
        if self.panic:
            return "crash"
        return "reject" if self.refused else "accept"


ERR = re.compile(r"error\s*:", re.I)


class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="hbufverif-%s-" % prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": []}
        self.violations = []
        self.findings_hit = {}
        self.assumptions = []
        self._hbuf = None
        self.hangs = 0
        self.n = 0
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            kf = json.load(f)
        self.known = [k for k in kf["findings"] if k["property"] == prop and k.get("status", "open") == "open"]

    # ---------------------------------------------------------------- scratch
    def dir(self, name=None):
        self.n += 1
        d = os.path.join(self.work, name or ("d%d" % self.n))
        os.makedirs(d, exist_ok=True)
        return d

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # --------------------------------------------------------------- compiler
    @property
    def hbuf(self):
        if self._hbuf is None:
            out = os.path.join(self.work, "hbuf")
            p = subprocess.run(["go", "build", "-o", out, "./cmd"], cwd=REPO, env=go_env(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise CheckError("the compiler does not build:\n" + p.stdout)
            self._hbuf = out
        return self._hbuf

    def compile(self, inp, out, typ, pack="gen/", cwd=None, timeout=20):
        if self.hangs >= 4:
            timeout = 3
        for attempt in (0, 1):
            try:
                p = subprocess.run([self.hbuf, "-i", inp, "-o", out, "-t", typ, "-p", pack], cwd=cwd,
                                   stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   timeout=timeout * (1 + 2 * attempt))
                return Result(p.returncode, p.stdout.decode("utf-8", "replace"), False)
            except subprocess.TimeoutExpired as e:
                res = Result(-9, (e.stdout or b"").decode("utf-8", "replace")[:2000], True)
                if self.hangs >= 4:
                    break
        self.hangs += 1
        return res

    def pmap(self, fn, items, workers=8):
        with ThreadPoolExecutor(workers) as ex:
            return list(ex.map(fn, items))

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, args=(), env=None, workers=None, timeout=600, files=None,
            heap="4g", ok_codes=(0,)):
        """Runs TLC on specs/<module>.tla in a scratch copy of specs/.
        Returns (rc, stdout)."""
        d = self.dir()
        for f in os.listdir(SPECS):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPECS, f), d)
        for name, content in (files or {}).items():
            with open(os.path.join(d, name), "w") as f:
                f.write(content)
        cfg = cfg or module
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d,
               "-cp", TLA_CP, "tlc2.TLC", "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
               "-deadlock", "-workers", str(workers or 1), "-config", cfg + ".cfg", *args, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        out = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.cov["transitions"] += int(m[-1][0])
            self.cov["states"] += int(m[-1][1])
        else:
            m = re.findall(r"(\d+) states checked", out)
            if m:
                self.cov["states"] += int(m[-1])
                self.cov["transitions"] += int(m[-1])
        if ok_codes is not None and p.returncode not in ok_codes:
            raise CheckError("TLC failed (%d) on %s/%s:\n%s" % (p.returncode, module, cfg, out[-6000:]))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return p.returncode, out

    def tlc_cases(self, module, cfg=None, **kw):
        """Runs TLC on a generator module; every line of the form
        "CASE <json>" that the specification prints is a predicted behaviour."""
        rc, out = self.tlc(module, cfg, **kw)
        return parse_cases("\n".join(sorted(out.splitlines())))         # the workers print in any order

    def tlc_eval(self, module, records, timeout=600, chunk=None, cfg=None):
        """Gives the records of real executions to specs/<module>.tla, whose
        only behaviour walks through them one by one; the module prints
        <<"OUT", i, json>> for every record.  Returns the list of outputs."""
        chunk = chunk or max(1, (len(records) + 7) // 8)
        parts = [records[i:i + chunk] for i in range(0, len(records), chunk)]

        def one(part):
            rc, out = self.tlc(module, cfg, files={"in.ndjson": "\n".join(json.dumps(r) for r in part) + "\n"},
                               timeout=timeout, heap="3g")
            res = parse_cases(out)
            if len(res) != len(part):
                raise CheckError("%s answered %d of %d records:\n%s" % (module, len(res), len(part), out[-3000:]))
            return res
        res = []
        for r in self.pmap(one, parts):
            res.extend(r)
        return res

    # -------------------------------------------------------------- reporting
    def sample(self, s, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, sig, detail, files=None):
        """sig: short text naming the failing input / call site / history.
        A listed finding matches when its regular expression matches sig."""
        for k in self.known:
            if re.search(k["match"], sig):
                self.findings_hit.setdefault(k["id"], (k, sig))
                return
        n = len(self.violations)
        path = None
        if n < 10:
            rd = os.path.join(VERIF, "evidence", "replay", self.prop)
            if n == 0:
                shutil.rmtree(rd, ignore_errors=True)
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%d.txt" % n)
            with open(path, "w") as f:
                f.write("property %s\nseed %d tier %s\n%s\n\n%s\n" % (self.prop, self.seed, self.tier, sig, detail))
                for name, text in (files or {}).items():
                    f.write("\n===== %s\n%s\n" % (name, text))
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            print("   " + sig[:400], flush=True)
        self.violations.append((sig, path))

    def finish(self):
        for k, sig in self.findings_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
        cov = dict(self.cov)
        cov["known_findings_seen"] = sorted(self.findings_hit)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %s  (%.1fs, %s)" % (self.prop, "FAIL %d" % len(self.violations) if self.violations else "ok",
                                       time.time() - self.t0,
                                       {k: v for k, v in cov.items() if isinstance(v, int)}), flush=True)
        return 1 if self.violations else 0


def parse_cases(out):
    """the JSON values that a specification printed with Emit (Base.tla)"""
    return [json.loads(tla_unquote(line.strip())[4:]) for line in out.splitlines() if line.startswith('"CASE')]


def tla_unquote(s):
    assert s[0] == '"' and s[-1] == '"', s[:80]
    s = s[1:-1]
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            i += 1
            c = {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(s[i], s[i])
        out.append(c)
        i += 1
    return "".join(out)


def tree(d):
    """relative path -> content of every file below d"""
    res = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                res[os.path.relpath(p, d)] = fh.read()
    return res


def digest(b):
    return hashlib.sha1(b).hexdigest()[:12]


def write_files(d, files):
    for name, text in files.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode())


def main(prop, run, level="model_checking"):
    ctx = Ctx(prop, level)
    try:
        run(ctx)
        rc = ctx.finish()
    except CheckError as e:
        print("CHECK ERROR %s: %s" % (prop, e), flush=True)
        rc = 2
        if ctx.violations:
            ctx.finish()
            rc = 1
    except Exception:
        traceback.print_exc()
        rc = 2
        if ctx.violations:
            ctx.finish()
            rc = 1
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.cleanup()
        else:
            print("kept", ctx.work)
    sys.exit(rc)
