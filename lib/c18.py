"""C18, C24: building from source, alone and in parallel, judged by Build.tla."""
import json, os, random, signal, threading, time
import crash, vf, pkgs, builds
from origin import Origin

FOREIGN = "win_amd64"
NAMES = ["pa", "pb", "pc", "pd", "pe", "pf"]


def universe(rng, acyclic=False, lies=True, fails=0.0, n=None):
    n = n or rng.choice([1, 2, 2, 3, 3, 4, 4, 5])
    P = range(1, n + 1)
    dens = rng.choice([.15, .3, .5]) if n > 2 else .5
    back = 0 if acyclic else rng.choice([0, 0, .1, .3])

    def some(p):
        return [q for q in P if rng.random() < (dens if q > p else back)]
    u = {"n": n, "kind": [rng.choice(["wheel", "sdist", "sdist", "sdist", "both"]) for _ in P],
         "req": [some(p) for p in P], "stat": [some(p) for p in P], "dyn": [some(p) if rng.random() < .5 else [] for p in P],
         "hook": [rng.random() < .6 for _ in P], "tag": [rng.choice(["any", "any", "minor"]) for _ in P],
         "lies": [rng.choice(["prepare", "wheel"]) if lies and rng.random() < .06 else "" for _ in P],
         "natives": rng.choice([[31102], [31102, 31001], [31102, 31105, 31001], [31001, 30904], [31102, 31001, 30904]])}
    u["fail"] = [{h: [rng.choice(["half", "raise", "exit", "kill", "killposy"]), rng.choice([1, 1, 2])] for h in ["requires", "prepare", "wheel"] if rng.random() < fails} for _ in P]
    # how they say what builds them
    u["system"], u["tsystem"], u["asks"], u["std"] = [], [], [], []
    u["tnames"] = NAMES[:n]
    ways = builds.OWN * 2
    std = rng.random() < .4
    if std:
        ways = ways + builds.USES_SETUPTOOLS * 2 + builds.DEFAULT * 2
    if lies and rng.random() < .15:
        ways = ways + builds.BAD
    if std:
        # setuptools and wheel are packages like any other
        u["tnames"] += ["setuptools", "wheel"]
        u["n"], u["std"] = n + 2, [n + 1, n + 2]
        for q in u["std"]:
            u["kind"].append(rng.choice(["wheel", "wheel", "sdist"]))
            u["req"].append(rng.choice([[], [], [], [n + 2] if q == n + 1 else [], [] if acyclic else [rng.randint(1, n)]]))
            u["stat"].append([n + 2] if q == n + 1 and rng.random() < .3 else [])
            for k, x in (("dyn", []), ("hook", rng.random() < .6), ("tag", "any"), ("lies", ""), ("fail", {})):
                u[k].append(x)
    for p in range(u["n"]):
        way = rng.choice(ways) if p < n else rng.choice(builds.OWN * 5 + ([] if acyclic else builds.DEFAULT))
        u["tsystem"].append(way)
        u["system"].append("bad" if way in builds.BAD else "default" if way in builds.DEFAULT else "own")
        if way in builds.DEFAULT:
            u["stat"][p] = []
        if way in builds.USES_SETUPTOOLS:
            u["stat"][p] = sorted(set(u["stat"][p] + [n + 1]))
        u["asks"].append(rng.random() < .8)
        if not u["asks"][p]:
            u["dyn"][p] = []
            u["fail"][p].pop("requires", None)
    u["foreign"] = rng.choice([[], [31102], [30904], [31107], [31007], [30907]])
    if rng.random() < .2:
        u["slow"] = 1
    return u


def decorate(rng, names):
    """The same requirements, said in another way, and some that don't apply here."""
    names = [rng.choice([x, x, x.upper(), x + " >=1", x + "==1.0", x + "~=1.0 ; os_name == 'posix'", x + ";python_version>='3'", x + " (<2)"]) for x in names]
    if rng.random() < .15:
        names.append(rng.choice(["nosuch; os_name == 'nt'", "pa; python_version < '3'", "nosuch ; sys_platform == 'win32' and os_name == 'posix'"]))
    if rng.random() < .15 and names:
        names.append(names[0])
    return names


class World:
    def __init__(self, tmp, o, u, slow=0):
        rng = random.Random(json.dumps(u))
        self.tmp, self.o, self.u = tmp, o, u
        self.names = u["tnames"]
        os.mkdir(tmp + "/outside")
        with open(tmp + "/outside/vbackend.py", "w") as f:
            f.write(builds.BACKEND)
        self.log, self.state = tmp + "/log", tmp + "/state"
        os.mkdir(self.state)
        self.index = ix = pkgs.Index(o, "/i")
        self.files = []

        def add(project, f):
            ix.add(project, *f)
            self.files.append(f[0])

        def ver(v):
            return "%d.%d.%d" % (v // 10000, v // 100 % 100, v % 100)
        for v in u["natives"]:
            add("cpython", builds.python(ver(v)))
        for v in u["foreign"]:
            add("cpython", builds.python(ver(v), FOREIGN))
        for i in range(u["n"]):
            said = {k: decorate(rng, [self.names[q - 1] for q in u[k][i]]) for k in ("req", "stat", "dyn")}
            names = said.get
            name = self.names[i]
            mod = [("mod_%s.py" % name, b"")] + (builds.SETUPTOOLS if name == "setuptools" else [])
            if u["kind"][i] == "wheel":
                add(name, pkgs.wheel(name, "1", requires=names("req"), files=mod))
                continue
            kw = {}
            if u["lies"][i] == "prepare":
                kw["hook_meta"] = pkgs.metadata(*[("p", "1"), (name, "2")][i % 2], names("req"))
            elif u["lies"][i] == "wheel":
                kw["wheel_as"] = ["p-1-py3-none-any.whl", "%s-1.0.1-py3-none-any.whl" % name][i % 2]
            add(name, builds.source(name, "1", log=self.log, state=self.state, requires=names("req"), static=names("stat"), dynamic=names("dyn"), hook=u["hook"][i], asks=u["asks"][i], system=u["tsystem"][i], outside=tmp + "/outside", extra=mod[1:], fail=u["fail"][i], slow=slow,
                                    tag="py3-none-any" if u["tag"][i] == "any" else "cp3MINOR-cp3MINOR-linux_x86_64", **kw))
            if u["kind"][i] == "both":
                add(name, pkgs.wheel(name, "1", requires=names("req"), files=mod, tag="py3-none-win32"))
        ix.publish()
        self.ops, self.order = [], threading.Lock()

    def driver(self, store, forest=1):
        return Runner(self, store, forest)

    def events(self):
        ev = []
        log = builds.read_log(self.log)
        for i, op in enumerate(self.ops):
            ev.append((op["at"], 0, dict(e="start", what=op["what"], top=op["top"], want=op["want"], foreign=op["foreign"], dir=op["dir"])))
            end = dict(e="end", op=i + 1, got=op["got"], inst=op["inst"])
            if op["got"] != "ok":
                end["tdetail"] = op["detail"]
            ev.append((op["end"], 2, end))
        for l in log:
            mine = [i for i, op in enumerate(self.ops) if op["pid"] == l["pid"] and op["at"] <= l["at"] <= op["end"]]
            if not mine:
                continue  # of an operation that was killed
            pkg = self.names.index(l["pkg"].split("-")[0]) + 1
            e = dict(e=l["hook"], op=mine[0] + 1, p=pkg, py=l["py"], mods=[self.names.index(m[4:]) + 1 for m in l["mods"]], given="none")
            if l["hook"].endswith("!"):
                e.update(e="fails", hook=l["hook"][:-1], silent=l["what"] == "exit")
            if l.get("metadata_directory"):
                e["given"] = "right" if l["given"] == ["METADATA", "WHEEL"] and l["metadata_directory"].endswith("/%s-1.dist-info" % self.names[pkg - 1]) else "wrong"
            ev.append((l["at"], 1, e))
        return [e for _, _, e in sorted(ev, key=lambda x: x[:2])]

    def case(self, deaths=0):
        got = {}
        for r in self.o.log:
            f = r.path.split("/")[-1]
            if r.method == "GET" and not r.get("Range") and f in self.files:
                got[f] = got.get(f, 0) + 1
        u = {k: v for k, v in self.u.items() if k not in ("foreign", "fail", "slow") and k[0] != "t" or k == "tag"}
        return {"u": u, "events": self.events(), "got": [{"tf": f, "n": n} for f, n in sorted(got.items())], "deaths": deaths}


class Runner:
    """A posy process."""

    def __init__(self, w, store, forest=1):
        self.w, self.store = w, store
        self.d = vf.Driver(cwd=w.tmp)
        self.d.patience = 45
        self.native = self.d.ok("native")
        self.d.ok("forest.new", path=w.tmp + "/forest%d" % forest, **{"as": "forest"})
        self.d.ok("kd.new", path=w.tmp + "/build%d" % store, **{"as": "bs"})
        self.d.ok("db.new", forest="forest", build_store="bs", index=[w.index.url], cache=w.tmp + "/cache", **{"as": "db"})
        self.dead = False

    def close(self):
        self.d.close()

    def run(self, what, top, want, foreign=False, blueprint=None):
        """-> the blueprint"""
        w = self.w
        op = dict(what=what, top=list(top), want=want, foreign=foreign, dir=self.store, pid=self.d.pid, got="died", inst=[], end=0, detail="")
        plat = [FOREIGN] if foreign else self.native
        with w.order:
            op["at"] = time.time()
            w.ops.append(op)
        try:
            bp, r = blueprint, None
            if bp is None:
                py = "cpython==%d.%d.%d" % (want // 10000, want // 100 % 100, want % 100)
                r = self.d.call("resolve", db="db", brief={"python": py, "requirements": [w.names[p - 1] for p in top], "allow_pre": ["cpython"]}, platforms=plat)
                bp = r.get("ok")
                if bp:
                    op["inst"] = sorted(w.names.index(x[0]["name"].lower()) + 1 for x in bp["wheels"])
            if bp and what == "install":
                r = self.d.call("get_env", db="db", forest="forest", blueprint=bp, platforms=plat)
                if "ok" in r:
                    op["inst"] = sorted(w.names.index(f[4:-3]) + 1 for l in r["ok"]["lib_dirs"] if os.path.isdir(l) for f in os.listdir(l) if f.startswith("mod_"))
            if "ok" in (r or {"ok": 1}):
                op["got"] = "ok"
            else:
                op["detail"] = str(r.get("err", r.get("panic")))[:300]
                op["got"] = "panic" if "panic" in r else "loop" if "loop" in str(r.get("err")) + str(r.get("detail")) else "err"
                bp = None
        except vf.Died as e:
            self.dead = True
            op["got"] = "died" if e.rc == -9 and not getattr(self.d, "late", False) else "hang" if e.rc is None else "crash"
            bp = None
        op["end"] = time.time()
        return bp


def sequence(args):
    """One process after the other, on a cache and a build directory that remain or don't."""
    seed, quick = args
    rng = random.Random("c18:%s" % seed)
    u = universe(rng, fails=rng.choice([0, 0, .1, .3]))
    with vf.Scratch() as tmp, Origin() as o:
        w = World(tmp, o, u, slow=0)
        store, forest, r, saved = 1, 1, None, []
        for _ in range(rng.choice([2, 3, 4, 6])):
            if r is None or r.dead or rng.random() < .25:
                if r:
                    r.close()
                    if rng.random() < .3:
                        store += 1
                    if rng.random() < .2:
                        forest += 1
                r = w.driver(store, forest)
            foreign = bool(u["foreign"]) and rng.random() < .25
            want = rng.choice(u["foreign"] if foreign else u["natives"])
            top = sorted(rng.sample(range(1, u["n"] + 1), rng.choice([1, 1, min(2, u["n"])])))
            what = rng.choice(["resolve", "install", "install"])
            if saved and rng.random() < .3:
                what, top, want, foreign, bp = rng.choice(saved)
                r.run("install", top, want, foreign, bp)
                continue
            bp = r.run(what, top, want, foreign)
            if bp:
                saved.append((what, top, want, foreign, bp))
        r.close()
        return w.case()


def children(pid):
    try:
        return [int(x) for x in open("/proc/%d/task/%d/children" % (pid, pid)).read().split()]
    except OSError:
        return []


def together(args):
    """Several processes at the same time, some of which are killed."""
    seed, quick = args
    rng = random.Random("c24:%s" % seed)
    u = universe(rng, acyclic=True, lies=False)
    with vf.Scratch() as tmp, Origin() as o:
        w = World(tmp, o, u, slow=rng.choice([0, 0, .02, .1]))

        def op(rng):
            foreign = bool(u["foreign"]) and rng.random() < .1
            return (rng.choice(["resolve", "install", "install", "install"]), sorted(rng.sample(range(1, u["n"] + 1), rng.choice([1, min(2, u["n"]), u["n"]]))),
                    rng.choice(u["foreign"] if foreign else u["natives"][:rng.choice([1, 3])]), foreign)
        n = rng.choice([2, 2, 3, 4])
        apart = rng.random() < .3  # each with environments of its own
        runners = [w.driver(i + 1, i if apart else 1) for i in range(n)]
        todo = [[op(rng) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(n)]
        if rng.random() < .4:
            todo = [todo[0] for _ in range(n)]

        def work(r, ops):
            for x in ops:
                if not r.dead:
                    r.run(*x)
        ts = [threading.Thread(target=work, args=x) for x in zip(runners, todo)]
        for t in ts:
            t.start()
        deaths = 0
        if rng.random() < .5:
            for r in rng.sample(runners, rng.choice([1, 1, n - 1])):
                time.sleep(rng.choice([.02, .1, .3, .6]) * rng.random())
                kids = children(r.d.pid)
                r.d.p.kill()
                deaths += 1
                for k in kids:
                    try:
                        os.kill(k, signal.SIGKILL)
                    except OSError:
                        pass
        for t in ts:
            t.join()
        for r in runners:
            r.close()
        # and then it's all there
        r = w.driver(n + 1)
        for ops in todo:
            work(r, ops[-1:])
        r.close()
        return w.case(deaths)


def gather(c, fn, n, jobs):
    """(stops early when something hangs)"""
    out = []
    for i in range(0, n, 40):
        out += vf.pparallel(fn, [("%s-%d" % (c.seed, k), c.quick) for k in range(i, min(n, i + 40))], n=jobs)
        if any(e.get("got") == "hang" for x in out for e in x["events"]):
            break
    return out


def explain(case):
    return "builds: " + json.dumps([{k: v for k, v in e.items() if k != "py"} for e in case["events"]])[:600]


def tally(c, cases):
    for x in cases:
        for e in x["events"]:
            c.count("event " + e["e"] + (" " + e["got"] if e["e"] == "end" else ""))
        if len(x["events"]) > 8:
            c.sample({"universe": x["u"], "events": x["events"][:12]}, 2)


def model(n, req, procs, deaths, live=False):
    return ("SPECIFICATION Spec\nINVARIANT Right\nINVARIANT Once\nINVARIANT Needed\nINVARIANT Moves\n" + ("PROPERTY Finishes\n" if live else "") +
            "CHECK_DEADLOCK FALSE\nCONSTANTS N = %d\nMaxReq = %d\nKinds = {\"wheel\", \"sdist\", \"both\"}\nProcs = {%s}\nWhats = {\"resolve\", \"install\"}\nDeaths = %d\nLoopCheckFirst = TRUE\n"
            % (n, req, ", ".join(map(str, range(1, procs + 1))), deaths))


def check_C18(c):
    c.model("BuildModel", model(2, 2, 1, 0, live=True), min_states=50000, timeout=800)
    if not c.quick:
        c.model("BuildModel", model(3, 1, 1, 0), min_states=5000000, timeout=850, mem="12g")
    cases = gather(c, sequence, c.n(320, 4000), 8)
    tally(c, cases)
    c.judge("BuildJudge", cases, explain)


def check_C24(c):
    c.model("BuildModel", model(2, 1, 2, 1), min_states=50000, timeout=800)
    if not c.quick:
        c.model("BuildModel", model(2, 2, 2, 1, live=True), min_states=2000000, timeout=850, mem="12g")
    cases = gather(c, together, c.n(240, 2400), 5)
    tally(c, cases)
    c.judge("BuildJudge", cases, explain)
    crash.check_together(c)
