"""C06, C07, C08: the stores under every kind of schedule, crash and fault, one file-system
call at a time, judged by Store.tla."""
import json, os, random
import vf, sched, crash
from sched import EINTR, EIO, ENOSPC

KEYS = ["alpha", "beta", "sha256=" + "00" * 32, "sha256=" + "00" * 31 + "01"]


def keyarg(k):
    return {"hash": k} if k.startswith("sha") else {"key": vf.b64(k.encode())}


def value(rng, tag):
    n = rng.choice([0, 1, 2, 3])
    return ["%s.%d;" % (tag, i) for i in range(n)]


def filescript(rng, tag, keys):
    """What one user of the file store does."""
    steps = []
    for i in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(keys)
        t = "%s%d" % (tag, i)
        r = rng.random()
        if r < .35:
            chunks = value(rng, t)
            fails = rng.random() < .25
            steps.append({"do": "set", "k": k, "fails": fails, "producer": [{"op": "w", "data": c} for c in chunks] + ([{"op": "fail"}] if fails else []), "val": [[[], "".join(chunks)]]})
        elif r < .5:
            steps.append({"do": "get", "k": k})
        else:
            steps.append({"do": "lock" if r < .93 else "lock_if_exists", "k": k})
            for _ in range(rng.choice([1, 1, 2, 3])):
                r = rng.random()
                if r < .3:
                    steps.append({"do": "read"})
                elif r < .9:
                    steps.append({"do": "begin"})
                    steps += [{"do": "write", "data": c} for c in value(rng, "%s%s" % (t, "abcdef"[len(steps) % 6]))]
                    steps.append({"do": "commit" if rng.random() < .75 else "abandon"})
                else:
                    steps.append({"do": "remove"})
                    break
            if steps[-1]["do"] != "remove":
                steps.append({"do": "unlock"})
    steps.append({"do": "reread"})
    return steps


def tree(rng, tag):
    out, val = [], []
    for i in range(rng.choice([0, 1, 2, 3])):
        n = rng.choice(["a", "b", "sub/c", "sub/d", "e f"])
        if any(o["name"] == n for o in out):
            continue
        if "/" in n and not any(o["name"] == "sub" for o in out):
            out.append({"op": "dir", "name": "sub"})
            val.append([["sub"], None])
        out.append({"op": "file", "name": n, "data": "%s.%d;" % (tag, i)})
        val.append([n.split("/"), "%s.%d;" % (tag, i)])
    return out, [[[], None]] + val


def dirscript(rng, tag, keys):
    steps = []
    for i in range(rng.choice([1, 2, 2])):
        k = rng.choice(keys)
        if rng.random() < .85:
            out, val = tree(rng, "%s%d" % (tag, i))
            fails = rng.random() < .3
            if fails:
                out = out[:rng.randrange(len(out) + 1)] + [{"op": "fail"}]
            steps.append({"do": "dset", "k": k, "fails": fails, "producer": out, "val": val})
        else:
            steps += [{"do": "dlock", "k": k}, {"do": "unlock"}]
    return steps


def wire(step):
    s = dict(step)
    s.pop("val", None), s.pop("fails", None)
    if "k" in s:
        s.update(keyarg(s.pop("k")))
    if "data" in s:
        s["data"] = vf.b64(s["data"].encode())
    if "producer" in s:
        s["producer"] = [dict(o, data=vf.b64(o["data"].encode())) if "data" in o else o for o in s["producer"]]
    return s


def codes(s):
    return [-1] if s is None else list(s.encode())


class Run:
    """One recorded run: groups of actors, one process each, then a check of what is left."""

    def __init__(self, rng, kind, tmp, paths, groups, faults, checker=True):
        self.rng, self.faults, self.kind = rng, faults, kind
        self.paths = paths
        self.keys = sorted(paths)
        self.names, self.scripts, self.nproc, self.trail = {}, {}, 0, []
        root = tmp + "/r"
        os.mkdir(root)
        with sched.World(root, tmp) as w:
            self.w, self.rec = w, sched.Recorder(root)
            for g in groups:
                self.launch(g)
            later = []
            self.drive(later)
            for g in later:
                self.launch(g)
            self.drive(None)
            if checker and kind == "files":
                self.faults = {}
                self.launch({"z": [{"do": "get", "k": k} for k in self.keys] + [{"do": "reread"}]})
                self.drive(None)
            elif checker:
                self.faults = {}
                self.launch({"z": [{"do": "dset", "k": k, "fails": False, "producer": [{"op": "file", "name": "z", "data": "z"}], "val": [[[], None], [["z"], "z"]]} for k in self.keys]})
                self.drive(None)

    def launch(self, g):
        p = sched.Proc(self.w)
        self.nproc += 1
        p.number = self.nproc
        p.actors = []
        for n, steps in g.items():
            self.names[n] = len(self.names) + 1
            self.scripts[n] = steps
        p.start("kv.actors", expect=len(g), root=self.w.root, threads=[{"name": n, "steps": [wire(s) for s in steps]} for n, steps in g.items()])

    def drive(self, later):
        w, rng, f = self.w, self.rng, self.faults
        last = None
        stay = f.get("stay", .5)
        while True:
            try:
                w.settle()
            except sched.Stuck:
                self.rec.add(ev="stuck", p=0, q=0)
                return
            for p in w.procs:
                if p.reply is not None and "panic" in str(p.reply)[:200]:
                    self.rec.add(ev="end", p=0, q=p.number, res="panic")
            ready = w.ready()
            if not ready:
                if w.waiting():
                    self.rec.add(ev="stuck", p=0, q=0)
                return
            c = last if last in ready and rng.random() < stay else rng.choice(ready)
            last = c
            if self.step(c) == "died" and later is not None and rng.random() < .7:
                n = "y%d" % (len(self.names) + len(later))
                later.append({n: (filescript if self.kind == "files" else dirscript)(rng, n, self.keys)})

    def step(self, c):
        w, rng, f = self.w, self.rng, self.faults
        q = c.ask
        m = sched.marker(q)
        if m is not None:
            self.mark(c, m)
            w.grant(c, "E2")
            c.done = c.done or m["ev"] == "done"
            return
        v, hurt = "G", False
        if c.name and rng.random() < f.get("p", 0):
            v = rng.choice(f["verdicts"])
            if v == "T" and q["op"] != "write":
                v = "K"
            if v == "K" and q["op"] in ("lock", "blocked"):
                v = "D"
            if v == "E" and not hasattr(c, "step"):
                v = "G"
            if v == "T":
                v = "T%d" % rng.randrange(q["len"] + 1)
            elif v == "S":
                v = "S%d" % rng.randrange(1, q["len"] + 1) if q["op"] == "write" and q["len"] else "G"
            elif v == "INT":
                v = "E%d" % EINTR if q["op"] in ("lock", "blocked", "open", "write", "fsync") else "G"
            elif v == "E":
                e = {"write": ENOSPC, "open": rng.choice([EIO, ENOSPC]), "mkdir": ENOSPC}.get(q["op"], EIO)
                v, hurt = ("E%d" % e, True) if q["op"] not in ("close", "blocked") else ("G", False)
        if v != "G":
            self.trail.append("%s %s of %s: %s" % (c.name, q["op"], os.path.basename(q["p1"]), v))
        actor = self.names.get(c.name, 0)
        try:
            q, r = w.grant(c, v)
        except sched.Stuck:
            self.rec.add(ev="stuck", p=0, q=0)
            raise vf.ToolError("stuck in a call")
        if c.ask is not None and c.ask["op"] == "blocked" and r is None:
            if not (q["op"] == "blocked"):
                self.rec.add(ev="blocked", p=actor, q=c.proc.number, path=sched.rel(w.root, q["p1"]))
            return
        if r is not None:
            self.rec.call(actor, c.proc.number, q, r, hurt)
        if c.proc.dead:
            for n in c.proc.actors:
                self.rec.add(ev="death", p=self.names[n], q=c.proc.number)
            return "died"

    def mark(self, c, m):
        ev = m["ev"]
        if ev == "actor":
            c.name = m["name"]
            c.proc.actors.append(c.name)
            return
        base = {"p": self.names[c.name], "q": c.proc.number}
        if ev == "done":
            pass
        elif ev == "start":
            s = self.scripts[c.name][m["step"]]
            c.step = s
            self.rec.add(ev="start", do=s["do"], k=self.keys.index(s["k"]) + 1 if "k" in s else 0, fails=s.get("fails", False),
                         val=[[p, codes(d)] for p, d in s.get("val", [])], data=codes(s.get("data", "")), **base)
        elif ev == "end":
            r = m["res"]
            e = {"res": "err"} if "err" in r else {"res": "ok"}
            ok = r.get("ok")
            if isinstance(ok, dict) and "some" in ok:
                e = {"res": "some", "some": [list(vf.unb64(ok["some"]))]}
            elif isinstance(ok, dict) and c.step["do"] in ("get", "read", "lock_if_exists"):
                e = {"res": "none"}
            elif isinstance(ok, list):
                e = {"res": "some", "some": [list(vf.unb64(x)) for x in ok]}
            self.rec.add(ev="end", twhy=r.get("err", ""), **e, **base)
        else:
            self.rec.add(ev=ev, **base)

    def case(self):
        d = "files" if self.kind == "files" else "dirs"
        return {"keys": [[d] + self.paths[k].split("/") for k in self.keys], "events": self.rec.events, "tscripts": json.dumps(self.scripts), "ttrail": self.trail, "tkeys": self.keys}


def describe(x, want=None):
    def t(e):
        b = {k: v for k, v in e.items() if k not in ("ev", "p", "q") and v not in ([], False, 0, "")}
        return "%s.%s%s" % (e["p"], e["ev"], json.dumps(b) if b else "")
    import re
    n = int(re.search(r"at \|-> (\d+)", want).group(1)) if want else len(x["events"])
    return "scripts %s, faults %s, ... %s" % (x["tscripts"][:400], x["ttrail"], "; ".join(t(e)[:160] for e in x["events"][max(0, n - 8):n]))


FAULTS = [{}, {}, {"p": .02, "verdicts": ["D", "K", "T"]}, {"p": .05, "verdicts": ["D", "K", "T", "T"]}, {"p": .08, "verdicts": ["S", "INT", "INT"]},
          {"p": .04, "verdicts": ["E"]}, {"p": .05, "verdicts": ["E", "D", "K", "T", "S", "INT"]}]


def busyscript(rng, tag, keys):
    """Users that all want the same entries."""
    steps = []
    for i in range(rng.choice([1, 1, 2])):
        k, t = rng.choice(keys), "%s%d" % (tag, i)
        chunks, fails = value(rng, t), rng.random() < .3
        if rng.random() < .8:
            steps.append({"do": "set", "k": k, "fails": fails, "producer": [{"op": "w", "data": x} for x in chunks] + ([{"op": "fail"}] if fails else []), "val": [[[], "".join(chunks)]]})
        else:
            steps += [{"do": "lock", "k": k}, {"do": "read"}, {"do": rng.choice(["unlock", "remove"])}]
    return steps


def plan(rng, kind, style=None):
    script = style or (filescript if kind == "files" else dirscript)
    keys = rng.sample(KEYS, rng.choice([1, 1, 1, 2, 2, 3]))
    shape = rng.choice([[1, 1], [1, 1], [1, 1, 1], [2], [2, 1], [3], [1]])
    groups, n = [], 0
    for k in shape:
        g = {}
        for _ in range(k):
            g["abcdef"[n]] = script(rng, "abcdef"[n], keys)
            n += 1
        groups.append(g)
    f = dict(rng.choice(FAULTS), stay=rng.choice([0, .3, .6, .9]))
    return keys, groups, f


def key_paths():
    with vf.Driver() as d:
        return {k: d.ok("kv.path", **keyarg(k))["path"] for k in KEYS}


def shard(args):
    seed, n, kind, paths, style = args
    rng = random.Random(seed)
    out = []
    for i in range(n):
        with vf.Scratch() as tmp:
            keys, groups, f = plan(rng, kind, style)
            out.append(Run(rng, kind, tmp, {k: paths[k] for k in keys}, groups, f).case())
    return out


def stores(c, kind, n, style=None):
    paths = key_paths()
    cases = []
    for r in vf.pparallel(shard, [("%s/%d" % (c.seed, i), n, kind, paths, style) for i in range(16)]):
        cases += r
    c.sample({"scripts": cases[0]["tscripts"], "events": [e["ev"] for e in cases[0]["events"]]})
    return cases


# ---------------------------------------------------------------- the model

def config(actors, keys, starts, crashes, kinds, inv="Obeys", record="FALSE", extra="", flaw="none"):
    return "SPECIFICATION Spec\nINVARIANT %s\n%s\nCHECK_DEADLOCK TRUE\nCONSTANTS Actors={%s} NKeys=%d Starts=%d Crashes=%d Kinds={%s} Record=%s Flaw=\"%s\"\n" % (
        inv, extra, ",".join(str(i + 1) for i in range(actors)), keys, starts, crashes, ",".join('"%s"' % k for k in kinds), record, flaw)


def model(c, kinds, big, flaws):
    """The design, for every interleaving and crash point; and wrong designs, which the rules must reject."""
    for a in big:
        c.model("StoreModel", config(*a, extra="PROPERTY Served" if a[0] * a[2] < 4 else ""), min_states=200, timeout=850)
    for f in flaws:
        res = vf.tlc("StoreModel", config(2, 2, 1, 0, kinds, flaw=f))
        if "Invariant Obeys is violated" not in res.out:
            raise vf.ToolError("the rules accept the wrong design %s:\n%s" % (f, res.out[-1500:]))
        c.count("wrong_designs_rejected")


def behaviours(c, n, kinds, actors=2, keys=2, starts=2, crashes=1):
    import re
    res = vf.tlc("StoreModel", config(actors, keys, starts, crashes, kinds, inv="Tell", record="TRUE"), workers=1,
                 extra=["-simulate", "num=%d" % n, "-depth", "90", "-seed", str(c.rng.randrange(1 << 30))], timeout=600)
    out = sorted(set(re.findall(r'<<\s*"TRACE",\s*"(.*?)",\s*"END"\s*>>', res.out, re.S)))
    if len(out) < n // 20 or "Error:" in res.out:
        raise vf.ToolError("no behaviours:\n" + res.out[-2000:])
    return [json.loads(re.sub(r"\s*\n\s*", "", t).replace('\\"', '"')) for t in out]


def job_steps(kind, k, tag):
    prod = [{"op": "w", "data": tag + "."}, {"op": "w", "data": tag + ";"}]
    val = [[[], tag + "." + tag + ";"]]
    d = [{"op": "file", "name": "f", "data": tag}]
    return {"set": [{"do": "set", "k": k, "fails": False, "producer": prod, "val": val}],
            "setfail": [{"do": "set", "k": k, "fails": True, "producer": prod[:1] + [{"op": "fail"}], "val": val}],
            "get": [{"do": "get", "k": k}],
            "put": [{"do": "lock", "k": k}, {"do": "begin"}] + [{"do": "write", "data": o["data"]} for o in prod] + [{"do": "commit"}, {"do": "unlock"}],
            "abandon": [{"do": "lock", "k": k}, {"do": "begin"}] + [{"do": "write", "data": o["data"]} for o in prod] + [{"do": "abandon"}, {"do": "unlock"}],
            "remove": [{"do": "lock", "k": k}, {"do": "remove"}],
            "dset": [{"do": "dset", "k": k, "fails": False, "producer": d, "val": [[[], None], [["f"], tag]]}],
            "dsetfail": [{"do": "dset", "k": k, "fails": True, "producer": d + [{"op": "fail"}], "val": [[[], None], [["f"], tag]]}]}[kind]


TARGET = {"openlock": ["open"], "miss": ["open"], "lock": ["lock"], "look": ["open"], "tmp": ["open", "mkdir"], "write": ["write"], "fail": ["unlink", "rmdir"],
          "sync": ["fsync", "rename"], "rename": ["rename"], "remove": ["unlink"], "unlock": ["close"]}
JOBS = ("set", "setfail", "get", "put", "abandon", "remove", "dset", "dsetfail")


class Replay(Run):
    """Takes the real code through a behaviour of StoreModel: each actor is let run up to the
    call that its next action in the model stands for."""

    def __init__(self, rng, kind, tmp, paths, hist):
        self.hist = hist
        keys = sorted(paths)
        self.life = {}
        scripts, n = {}, 0
        for p, what, k in hist:
            if what in JOBS:
                n += 1
                scripts.setdefault((p, self.life.get(p, 0)), []).extend(job_steps(what, keys[k - 1], "v%d" % n))
            elif what == "crash":
                self.life[p] = self.life.get(p, 0) + 1
        self.life = {}
        self.todo = scripts
        first = {"p%d" % p: s for (p, l), s in sorted(scripts.items()) if l == 0}
        crash = any(w == "crash" for _, w, _ in hist)
        groups = [{n: s} for n, s in first.items()] if crash or rng.random() < .5 else [first]
        Run.__init__(self, rng, kind, tmp, paths, groups, {})

    def drive(self, later):
        if later is None or not self.hist:
            return Run.drive(self, later)
        w, names = self.w, {}
        for p, what, k in self.hist:
            if what in JOBS:
                continue
            name = "p%d" % p + "'" * self.life.get(p, 0)
            for _ in range(60):
                try:
                    w.settle()
                except sched.Stuck:
                    self.rec.add(ev="stuck", p=0, q=0)
                    return
                cs = [c for c in w.ready() if c.name in (name, None)]
                cs.sort(key=lambda c: c.name is not None)
                if not cs:
                    break
                c = cs[0]
                if c.name is None:
                    self.step(c)
                    continue
                if what == "crash":
                    if sched.marker(c.ask) is not None:
                        self.step(c)
                        continue
                    self.trail.append("%s %s of %s: D" % (c.name, c.ask["op"], os.path.basename(c.ask["p1"])))
                    w.grant(c, "D")
                    for n in c.proc.actors:
                        self.rec.add(ev="death", p=self.names[n], q=c.proc.number)
                    self.life[p] = self.life.get(p, 0) + 1
                    if (p, self.life[p]) in self.todo:
                        self.launch({name + "'": self.todo[p, self.life[p]]})
                    break
                op, m = c.ask["op"], sched.marker(c.ask)
                self.step(c)
                if m is None and op in TARGET[what]:
                    break
        self.hist = []
        Run.drive(self, None)


def replay_shard(args):
    seed, hists, kind, paths = args
    rng = random.Random(seed)
    out = []
    for h in hists:
        with vf.Scratch() as tmp:
            ks = rng.sample(KEYS, 2)
            out.append(Replay(rng, kind, tmp, {k: paths[k] for k in ks}, h).case())
    return out


def replays(c, kind, hists):
    paths = key_paths()
    cases = []
    for r in vf.pparallel(replay_shard, [("%s/r%d" % (c.seed, i), hists[i::16], kind, paths) for i in range(16)]):
        cases += r
    c.count("behaviours_replayed", len(cases))
    return cases


def judge(c, cases):
    for x in cases:
        c.count("events", len(x["events"]))
        for e in x["events"]:
            if e["ev"] in ("death", "blocked", "produce"):
                c.count(e["ev"] + "s")
            if e.get("hurt"):
                c.count("injected_errors")
    bad, res = vf.judge("StoreJudge", cases, chunk=16, timeout=850)
    c.add_tlc(res)
    c.traces(len(cases))
    for i, want in sorted(bad.items()):
        c.violation(describe(cases[i], want) + " -- specification says: " + want, {"case": cases[i], "expected": want})


FILEJOBS = ["set", "setfail", "put", "get", "remove", "abandon"]


def check_C06(c):
    big = [(2, 1, 1, 1, FILEJOBS)]
    if not c.quick:
        big += [(2, 2, 2, 1, ["set", "put"]), (3, 1, 1, 1, ["set", "setfail", "put"]), (2, 1, 2, 2, ["set", "put", "remove"])]
    model(c, ["set", "put"], big, ["nosync", "inplace", "sharedtmp"])
    cases = replays(c, "files", behaviours(c, c.n(250, 4000), FILEJOBS))
    judge(c, cases + stores(c, "files", c.n(50, 1500)))


def keycases(c):
    """Which places different keys get."""
    rng = c.rng
    hexes = lambda n: "".join(rng.choice("0123456789abcdef") for _ in range(n))
    ks = {"b:" + vf.b64(bytes(rng.choice(b"ab\x00\xff/.") for _ in range(rng.randrange(0, 6)))) for _ in range(c.n(300, 3000))}
    ks |= {"b:" + vf.b64(hexes(64).encode()) for _ in range(50)}
    for mode, n in (("sha256", 64), ("sha384", 96), ("sha512", 128), ("md5", 32), ("sha224", 56), ("sha1", 40), ("blake2b", 128)):
        base = hexes(n)
        for _ in range(c.n(60, 300)):
            i = rng.randrange(n)
            ks.add("h:%s=%s" % (mode, rng.choice([hexes(n), base[:i] + rng.choice("0123456789abcdef") + base[i + 1:], base[:n - 8] + "%08x" % rng.randrange(300)])))
    ks = sorted(ks)
    with vf.Driver() as d:
        rs = d.batch([dict({"op": "kv.path"}, **({"key": k[2:]} if k[0] == "b" else {"hash": k[2:]})) for k in ks])
    ps = [r["ok"]["path"].split("/") if "ok" in r else None for r in rs]
    return [{"keys": [], "events": [], "kind": "places", "places": [p for p in ps if p], "tscripts": "", "ttrail": [k for k, p in zip(ks, ps) if p][:3]}]


def check_C07(c):
    big = [(3, 1, 1, 1, ["set", "setfail"])] if c.quick else [(3, 1, 1, 1, ["set", "setfail", "put"]), (3, 2, 1, 1, ["set", "setfail"]), (2, 1, 2, 1, FILEJOBS)]
    model(c, ["set", "put"], big, ["nolock"])
    cases = replays(c, "files", behaviours(c, c.n(150, 3000), ["set", "setfail"], actors=3, starts=1))
    cases += replays(c, "files", behaviours(c, c.n(100, 2000), ["set", "put", "remove"], keys=1))
    judge(c, keycases(c) + cases + stores(c, "files", c.n(40, 1000), busyscript) + stores(c, "files", c.n(15, 500)))


def check_C08(c):
    big = [(3, 1, 1, 1, ["dset", "dsetfail"])] if c.quick else [(3, 2, 1, 1, ["dset", "dsetfail"]), (2, 2, 2, 2, ["dset", "dsetfail"])]
    model(c, ["dset", "dsetfail"], big, ["nolock", "inplace"])
    cases = replays(c, "dirs", behaviours(c, c.n(200, 3000), ["dset", "dsetfail"]))
    judge(c, cases + stores(c, "dirs", c.n(30, 1000)))
    crash.check_interrupted(c)
