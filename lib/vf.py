"""Shared machinery: building, the driver process, TLC, evidence, findings, violations."""
import base64, hashlib, json, os, resource, random, re, select, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
POSY = os.path.join(V, "build/target/debug/posy")
SHIM = os.path.join(V, "build/preload.so")
SPEC = os.path.join(V, "spec")
OUT = os.path.join(V, "out")
EVID = os.path.join(V, "evidence")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """Something in the checker (not in posy) went wrong: exit 2."""


def b64(b):
    return base64.b64encode(b).decode()


def unb64(s):
    return base64.b64decode(s)


def sha256(b):
    return hashlib.sha256(b).hexdigest()


def build():
    r = subprocess.run(["bash", os.path.join(V, "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("build failed:\n" + r.stdout[-4000:])


def scratch_root():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return base


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="posyv-", dir=scratch_root())
        return self.path

    def __exit__(self, *a):
        assert os.path.basename(self.path).startswith("posyv-")
        shutil.rmtree(self.path, ignore_errors=True)


class Refused(ToolError):
    """posy answered an operation with an error that has to work whatever the seed."""


class Died(Exception):
    """The driver crashed (rc: its exit status) or, after a long wait, gave no answer (rc None)."""

    def __init__(self, rc, op=""):
        self.rc, self.op = rc, op
        super().__init__(rc, op)

    def __str__(self):
        return "posy %s on %s" % ("gives no answer" if self.rc is None else "died (%s)" % self.rc, self.op)


class Driver:
    """A posy process running the verification driver."""

    def __init__(self, env=None, cwd=None, shim=None, stderr=None, user=None):
        r_cmd, w_cmd = os.pipe()
        r_rep, w_rep = os.pipe()
        e = {
            "PATH": "/usr/local/bin:/usr/bin:/bin",
            "HOME": cwd or "/nonexistent",
            "LANG": "C.UTF-8",
            "POSY_VERIF_FDS": "%d,%d" % (r_cmd, w_rep),
            "RUST_BACKTRACE": "0",
            "NO_PROXY": "*",
        }
        e.update(env or {})
        if shim is not None:
            e["LD_PRELOAD"] = SHIM
            e["VERIF_EXE"] = os.path.realpath(POSY)
            e.update(shim)
        self.p = subprocess.Popen([POSY], env=e, cwd=cwd or "/", pass_fds=(r_cmd, w_rep), stdin=subprocess.DEVNULL,
                                  **({"user": user, "group": user, "extra_groups": []} if user else {}),
                                  stdout=subprocess.DEVNULL, stderr=stderr if stderr is not None else subprocess.DEVNULL)
        os.close(r_cmd)
        os.close(w_rep)
        try:  # (before it takes everybody's)
            resource.prlimit(self.p.pid, resource.RLIMIT_AS, (3 << 30, 3 << 30))
        except OSError:
            pass
        self.w = os.fdopen(w_cmd, "w")
        self.fd_r = r_rep
        self.r = os.fdopen(r_rep, "r", closefd="VERIF_SOCK" not in (shim or {}))
        self.pid = self.p.pid
        self.patience, self.last = 200, ""

    def send(self, op, **kw):
        kw["op"] = op
        self.last = json.dumps(kw)[:600]
        try:
            self.w.write(json.dumps(kw) + "\n")
            self.w.flush()
        except (BrokenPipeError, ValueError):
            raise Died(self.p.wait(), self.last)

    def recv(self):
        if not select.select([self.fd_r], [], [], self.patience)[0]:
            self.p.kill()
            self.p.wait()
            raise Died(None, self.last)
        line = self.r.readline()
        if not line:
            raise Died(self.p.wait(), self.last)
        return json.loads(line)

    def call(self, op, **kw):
        self.send(op, **kw)
        rep = self.recv()
        check_driver(rep)
        return rep

    def batch(self, items, chunk=2000):
        out = []
        for i in range(0, len(items), chunk):
            rep = self.call("batch", items=items[i:i + chunk])
            for x in rep["ok"]:
                check_driver(x)
            out += rep["ok"]
        return out

    def ok(self, op, **kw):
        rep = self.call(op, **kw)
        if "ok" not in rep:
            raise Refused("%s %s has to work, but: %s" % (op, str(kw)[:600], str(rep)[:800]))
        return rep["ok"]

    def close(self):
        for f in (self.w, self.r):
            try:
                f.close()
            except Exception:
                pass
        try:
            self.p.wait(timeout=10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()

    def kill(self):
        self.p.kill()
        self.p.wait()
        for f in (self.w, self.r):
            try:
                f.close()
            except Exception:
                pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.kill()


def check_driver(rep):
    if isinstance(rep, dict) and str(rep.get("err", "")).startswith("DRIVER:"):
        if rep["err"].startswith(("DRIVER: brief", "DRIVER: like", "DRIVER: blueprint")):
            raise Refused("what is valid was refused: " + rep["err"][:800])
        raise ToolError("driver: " + rep["err"])


# ---------------------------------------------------------------- TLC

class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else None
        self.finished = "Model checking completed. No error has been found" in out or "Finished in" in out
        self.error = None
        m = re.search(r"Error: (.*)", out)
        if m:
            self.error = m.group(1)
        self.prints = [l for l in out.splitlines() if l.startswith("<<") or l.startswith("[") or l.startswith('"')]


def tlc(module, cfg_text, env=None, workers=8, timeout=600, extra=(), mem="6g", props=()):
    """Runs TLC on spec/<module>.tla with the given configuration text."""
    with Scratch() as tmp:
        cfg = os.path.join(tmp, module + ".cfg")
        open(cfg, "w").write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-DTLA-Library=" + SPEC] + list(props) + [
            "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(tmp, "states"), "-noGenerateSpecTE",
            "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=tmp, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        return TLCResult(r.stdout, r.returncode, time.time() - t)


BAD_RE = re.compile(r'^<<"BAD", (\d+), (.*)$')


def judge(module, cases, chunk=64, timeout=600, env=None, workers=8, mem="6g"):
    """Has TLC check each recorded case (a JSON object) against `Verdict` of the module.
    Returns {index: expected-as-text} for the cases the specification rejects, and the result."""
    if not cases:
        raise ToolError("no cases for " + module)
    with Scratch() as tmp:
        f = os.path.join(tmp, "cases.ndjson")
        with open(f, "w") as h:
            for c in cases:
                h.write(json.dumps({k: v for k, v in c.items() if v is not None}, ensure_ascii=True) + "\n")
        e = {"CASES": f, "CHUNK": str(max(1, min(chunk, (len(cases) + 15) // 16)))}
        e.update(env or {})
        res = tlc(module, "INIT JInit\nNEXT JNext\nINVARIANT JConforms\nCHECK_DEADLOCK FALSE\n", env=e, timeout=timeout, workers=workers, mem=mem)
    if "No error has been found" not in res.out:
        raise ToolError("TLC failed on %s:\n%s" % (module, res.out[-3000:]))
    bad = {}
    out = res.out
    # values may be printed over several lines
    for m in re.finditer(r'<<\s*"BAD",\s*(\d+),(.*?)"END"\s*>>', out, re.S):
        bad[int(m.group(1)) - 1] = re.sub(r"\s+", " ", m.group(2)).strip().rstrip(",")
    if out.count('"BAD"') != len(re.findall(r'<<\s*"BAD",\s*\d+,.*?"END"\s*>>', out, re.S)):
        raise ToolError("garbled TLC output")
    if res.distinct < len(cases):
        raise ToolError("TLC saw only %d states for %d cases" % (res.distinct, len(cases)))
    return bad, res


# ---------------------------------------------------------------- reporting

def known_findings():
    path = os.path.join(V, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m:
                out.append({"property": m.group(1), "id": m.group(2), "text": m.group(3)})
    return out


class Check:
    """One run of one property's check."""

    level = "model_checking"

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.violations = []
        self.known_seen = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.t0 = time.time()
        self.known = {k["id"]: k for k in known_findings() if k["property"] == prop}

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def add_tlc(self, res):
        self.cov["states"] += res.distinct
        self.cov["transitions"] += res.generated

    def count(self, key, k=1):
        self.cov[key] = self.cov.get(key, 0) + k

    def traces(self, k=1):
        self.cov["traces_validated_against_impl"] += k

    def sample(self, x, limit=6):
        if len(self.cov["samples"]) < limit:
            s = json.dumps(x, default=str)
            self.cov["samples"].append(x if len(s) < 3000 else s[:3000])

    def violation(self, what, detail, known_id=None):
        """Records that the real code broke the property."""
        if known_id and known_id in self.known:
            self.known_seen.setdefault(known_id, []).append(detail)
            return
        self.violations.append({"what": what, "detail": detail})

    def judge(self, module, cases, describe, classify=None, known=None, count_as_traces=True, **kw):
        bad, res = judge(module, cases, **kw)
        self.add_tlc(res)
        if count_as_traces:
            self.traces(len(cases))
        for i, want in sorted(bad.items()):
            self.violation(describe(cases[i]) + " -- specification says: " + want, {"case": cases[i], "expected": want},
                           known_id=known(cases[i], want) if known else None)
        return bad

    def model(self, module, cfg, expect_ok=True, min_states=1, **kw):
        """Exhaustive model checking of a state machine; the model itself must satisfy its properties."""
        res = tlc(module, cfg, **kw)
        self.add_tlc(res)
        if expect_ok and "No error has been found" not in res.out:
            raise ToolError("model %s does not satisfy its own properties:\n%s" % (module, res.out[-6000:]))
        if res.distinct < min_states:
            raise ToolError("model %s: only %d states" % (module, res.distinct))
        self.cov.setdefault("models", []).append({"module": module, "distinct": res.distinct, "generated": res.generated, "depth": res.depth})
        return res

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "wall_s": round(wall, 2)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        ev["violations"] = len(self.violations)
        tmp = os.path.join(EVID, self.prop + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1, default=str)
        os.rename(tmp, os.path.join(EVID, self.prop + ".json"))
        for kid, ds in self.known_seen.items():
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (self.prop, self.known[kid]["text"], len(ds)))
        if self.violations:
            os.makedirs(OUT, exist_ok=True)
            rp = os.path.join(OUT, "%s-%s.json" % (self.prop, time.strftime("%H%M%S")))
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "violations": self.violations[:200]},
                      open(rp, "w"), indent=1, default=str)
            for v in self.violations[:10]:
                print("  " + v["what"][:1500])
            if len(self.violations) > 10:
                print("  ... and %d more" % (len(self.violations) - 10))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s states=%d transitions=%d validated=%d wall=%.1fs" % (
            self.prop, self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"], wall))
        return 0


def parallel(fn, items, n=8):
    """Runs fn(item) over items on n threads; results in order; first exception is raised."""
    items = list(items)
    out = [None] * len(items)
    errs = []
    it = iter(range(len(items)))
    lock = threading.Lock()

    def work():
        while not errs:
            with lock:
                i = next(it, None)
            if i is None:
                return
            try:
                out[i] = fn(items[i])
            except BaseException as e:
                errs.append(e)
                return

    ts = [threading.Thread(target=work) for _ in range(min(n, max(1, len(items))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return out


def pparallel(fn, items, n=8):
    """Like parallel, in forked processes (for work that is heavy in Python)."""
    import pickle
    items = list(items)
    out = [None] * len(items)

    def one(i):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                os.close(r)
                try:
                    data = pickle.dumps(("ok", fn(items[i])))
                except BaseException as e:
                    import traceback
                    data = pickle.dumps(("died", (e.rc, e.op)) if isinstance(e, Died) else ("refused", str(e)) if isinstance(e, Refused) else
                                        ("tool" if isinstance(e, ToolError) else "err", "".join(traceback.format_exc())))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:
                rc = 1
            os._exit(rc)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise ToolError("worker process died")
        kind, val = pickle.loads(data)
        if kind == "died":
            raise Died(*val)
        if kind == "refused":
            raise Refused(val)
        if kind != "ok":
            raise ToolError(val)
        out[i] = val

    parallel(one, range(len(items)), n)
    return out
