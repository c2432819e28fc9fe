"""Installs that die in the middle, at any file-system call, and start over; judged by Crash.tla."""
import hashlib, io, json, os, random, shutil, zipfile
import vf, pkgs, builds, sched
from origin import Origin
from sched import ENOSPC, EIO

TAG = "manylinux_2_17_x86_64"
STORES = ["forest", "build-forest", "cache/local-wheels"]


def content(p):
    """A digest of what's there."""
    h = hashlib.sha256()

    def go(p, rel):
        if os.path.islink(p):
            h.update(("l %s %s\n" % (rel, os.readlink(p))).encode())
        elif os.path.isdir(p):
            h.update(("d %s\n" % rel).encode())
            for n in sorted(os.listdir(p)):
                if n != "__pycache__":
                    go(p + "/" + n, rel + "/" + n)
        else:
            data = open(p, "rb").read()
            if p.endswith(".exe"):  # (has the time in it)
                z = zipfile.ZipFile(io.BytesIO(data))
                data = data[:data.find(b"PK\x03\x04")] + json.dumps([[i.filename, z.read(i).hex()] for i in z.infolist()]).encode()
            h.update(("f %s %d %o %s\n" % (rel, len(data), os.stat(p).st_mode & 0o111, hashlib.sha256(data).hexdigest())).encode())
    go(p, "")
    return h.hexdigest()[:20]


def places(store):
    """The directories and files at the places where a store keeps its entries."""
    out = []
    for a in sorted(os.listdir(store)) if os.path.isdir(store) else []:
        if a == "tmp" or a.endswith(".lock"):
            continue
        at = [store + "/" + a]
        for _ in range(4):
            at = [p + "/" + n for p in at if os.path.isdir(p) for n in sorted(os.listdir(p))]
        out += [p for p in at if not p.endswith(".lock")]
    return out


def look(root, stores, sdist):
    """The entries that are there. Under the hash of a source distribution, it's the wheels made from it."""
    seen = []

    def add(name, what, p):
        seen.append({"name": name, "what": what, "content": content(p), "ino": os.lstat(p).st_ino % 1000000007, "tpath": p})
    for s in stores + ["cache/by-hash"]:
        for p in places(root + "/" + s):
            rel = p[len(root) + len(s) + 2:]
            if s.startswith("build-store"):
                if os.path.exists(p):
                    for n in ("sdist", "build-frontend.py"):
                        if os.path.exists(p + "/" + n):
                            add(s + "/" + rel + "/" + n, "build/%s/%s" % (rel, n), p + "/" + n)
                        else:
                            seen.append({"name": s + "/" + rel + "/" + n, "what": "build/%s/%s" % (rel, n), "content": "missing", "ino": 0})
                continue
            whls = [n for n in sorted(os.listdir(p)) if n.endswith(".whl")] if os.path.isdir(p) else []
            kind = "unpacked" if s in ("forest", "build-forest") else s
            if whls or s == "cache/local-wheels":
                for n in whls:
                    add(s + "/" + rel + "/" + n, "%s/%s/%s" % (kind, rel, n), p + "/" + n)
            elif s == "cache/by-hash" or os.listdir(p):
                add(s + "/" + rel, kind + "/" + rel, p)
            elif rel != sdist:
                # (an empty directory is fine for a source distribution: no wheels yet)
                seen.append({"name": s + "/" + rel, "what": "empty/" + rel, "content": "", "ino": 0})
    return seen


class Go:
    """One process that resolves or installs; dies or is hurt at its k-th call."""

    def __init__(self, root, tmp, ops, at=None, verdict="G"):
        self.calls, self.hurt, self.results, self.died = [], False, [], False
        self.n = len(ops)
        with sched.World(root, tmp) as w:
            p = sched.Proc(w)
            for kw in ops:
                kw = dict(kw)
                p.start(kw.pop("op"), **kw)
                while p.reply is None and not p.dead:
                    w.settle()
                    ready = w.ready()
                    if not ready:
                        if p.reply is None and not p.dead:
                            raise vf.ToolError("waits for nothing: %s" % [c.ask for c in w.waiting()])
                        break
                    c = ready[0]
                    q = c.ask
                    self.calls.append(q["op"])
                    v = "G"
                    if at is not None and len(self.calls) == at:
                        v = verdict
                        if v == "T":
                            v = "T%d" % (q["len"] // 2) if q["op"] == "write" else "K"
                        if v == "K" and q["op"] in ("lock", "blocked"):
                            v = "D"
                        if v == "E":
                            v = "E%d" % (ENOSPC if q["op"] in ("write", "open", "mkdir") else EIO) if q["op"] not in ("close", "blocked") else "G"
                        self.hurt = v != "G"
                        self.what = "%s at call %d, %s of %s" % (v, at, q["op"], q["p1"][len(root):][-90:])
                    w.grant(c, v)
                if p.dead:
                    self.died = True
                    return
                self.results.append(p.reply)
                if "ok" not in p.reply:
                    return

    def env(self, root):
        if not self.died and len(self.results) == self.n and "ok" in self.results[-1]:
            return hashlib.sha256(json.dumps(self.results[-1]["ok"], sort_keys=True).replace(root, "ROOT").encode()).hexdigest()[:20]
        return ""


class Site:
    """Packages on an index, a brief for some of them, and what it resolves to."""

    def __init__(self, rng, o, tmp, hooks=True):
        ix = self.ix = pkgs.Index(o, "/i")
        ix.add("cpython", *builds.python())
        reqs = []
        for n in rng.sample(["alpha", "beta", "gamma"], rng.choice([0, 1, 2])):
            fs = [("%s.py" % n, b"x = 1\n"), ("%s/data" % n, b"y" * rng.choice([1, 5000, 70000]))][:rng.choice([1, 2])]
            if rng.random() < .5:
                fs.append(("%s-1.data/scripts/do_%s" % (n, n), b"#!python\nprint(1)\n"))
            ix.add(n, *pkgs.wheel(n, "1", files=fs, entry_points="[console_scripts]\n%s = %s:main\n" % (n, n) if rng.random() < .5 else None))
            reqs.append(n)
        self.sdist = rng.random() < .75 or not reqs
        if self.sdist:
            os.mkdir(tmp + "/state")
            needs = [n for n in reqs if rng.random() < .5]
            tag = rng.choice(["py3-none-any", "py3-none-any", "cp3MINOR-cp3MINOR-linux_x86_64"])
            src = builds.source("delta", "1", log=tmp + "/log", state=tmp + "/state", static=needs[:1], dynamic=needs[1:], hook=rng.random() < .7, tag=tag,
                                extra=[("delta_data/d", b"z" * rng.choice([1, 60000]))])
            ix.add("delta", *src)
            reqs.append("delta")
        ix.publish()
        self.reqs, self.brief = reqs, {"python": "cpython", "requirements": reqs}
        with vf.Driver(cwd=tmp) as d:
            d.ok("forest.new", path=tmp + "/pre/bf", **{"as": "bf"})
            d.ok("kd.new", path=tmp + "/pre/bs", **{"as": "bs"})
            d.ok("db.new", forest="bf", build_store="bs", index=[ix.url], cache=tmp + "/pre/cache", **{"as": "db"})
            self.blueprint = d.ok("resolve", db="db", brief=self.brief, platforms=[TAG])
            self.at = d.ok("kv.path", hash="sha256=" + hashlib.sha256(src[1]).hexdigest())["path"] if self.sdist else None

    def ops(self, root, n, resolving):
        """What one process does: everything in common but the n-th build directory"""
        r = [{"op": "forest.new", "as": "f", "path": root + "/forest"}, {"op": "forest.new", "as": "bf", "path": root + "/build-forest"},
             {"op": "kd.new", "as": "bs", "path": root + "/build-store%d" % n},
             {"op": "db.new", "as": "db", "forest": "bf", "build_store": "bs", "cache": root + "/cache", "index": [self.ix.url]}]
        if resolving:
            r.append({"op": "resolve", "db": "db", "brief": self.brief, "platforms": [TAG]})
        return r + [{"op": "get_env", "db": "db", "forest": "f", "blueprint": self.blueprint, "platforms": [TAG]}]


def reference(site, tmp, resolving):
    """(the run, what's there after it)"""
    ref = tmp + "/ref"
    os.mkdir(ref)
    g = Go(ref, tmp, site.ops(ref, 0, resolving))
    if not g.env(ref):
        raise vf.Refused("nothing happened to it, but: %s" % str(g.results)[-1500:])
    whole = look(ref, STORES + ["build-store0"], site.at)
    case = {"ref": sorted([{"what": e["what"], "content": e["content"]} for e in whole], key=str), "env": g.env(ref), "needed": [e["what"] for e in whole if e["name"].startswith("forest/")]}
    return g, case


def world(args):
    seed, every = args
    rng = random.Random("crash:%s" % seed)
    cases = []
    with vf.Scratch() as tmp, Origin() as o:
        site = Site(rng, o, tmp)
        fresh = rng.random() < .5  # posy's own build directories are new each time
        resolving = rng.random() < .4
        ops = lambda root, n: site.ops(root, n if fresh else 0, resolving)
        stores = lambda n: STORES + ["build-store%d" % k for k in (range(n + 1) if fresh else [0])]
        first, case = reference(site, tmp, resolving)
        case["tworld"] = json.dumps([site.reqs, site.sdist, fresh, resolving, seed])
        calls = first.calls
        kinds = sorted(set(calls))
        if every is not None:
            plans = [[k] for k in range(1 + every[0], len(calls) + 1, every[1])]
        else:
            plans = []
            for _ in range(5):
                ks = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    if rng.random() < .5:
                        ks.append(rng.randrange(len(calls)) + 1)
                    else:
                        kind = rng.choice(kinds)
                        ks.append(rng.choice([i + 1 for i, x in enumerate(calls) if x == kind]))
                plans.append(ks)
        for i, ks in enumerate(plans):
            root = "%s/w%d" % (tmp, i)
            os.mkdir(root)
            x = dict(case, runs=[], ttrail=[], calls=0)
            for n, k in enumerate(ks + [None]):
                g = Go(root, tmp, ops(root, n), k, rng.choice("DDKKTE"))
                if g.hurt:
                    x["ttrail"].append(g.what)
                x["calls"] += len(g.calls)
                x["runs"].append({"hurt": g.hurt, "ok": g.env(root) != "", "env": g.env(root), "seen": [{k_: e[k_] for k_ in ("name", "what", "content", "ino")} for e in look(root, stores(n), site.at)],
                                  "twhy": "" if g.env(root) else "died" if g.died else str(g.results[-1:])[:600]})
            cases.append(x)
            shutil.rmtree(root)
    return cases


def together(seed):
    """Several processes at once, one call at a time."""
    rng = random.Random("together:%s" % seed)
    cases = []
    with vf.Scratch() as tmp, Origin() as o:
        site = Site(rng, o, tmp)
        resolving = rng.random() < .2
        first, case = reference(site, tmp, resolving)
        for i in range(3):
            root = "%s/w%d" % (tmp, i)
            os.mkdir(root)
            n = rng.choice([2, 2, 3])
            stay = rng.choice([0, .5, .9, .98])
            die = {k: rng.randrange(len(first.calls)) + 1 for k in range(n - 1) if rng.random() < .3}
            o.log.clear()
            open(tmp + "/log", "w").close()
            x = dict(case, runs=[], stuck=False, resolving=resolving, tworld=json.dumps([site.reqs, site.sdist, n, stay, seed, i]), ttrail=[], calls=0)
            with sched.World(root, tmp) as w:
                ps = []
                for k in range(n):
                    p = sched.Proc(w)
                    p.todo, p.results, p.k, p.hurt = site.ops(root, k, resolving), [], 0, False
                    ps.append(p)
                last = None

                def feed():
                    for p in ps:
                        if p.dead or p.busy:
                            continue
                        if p.reply is not None:
                            p.results.append(p.reply)
                            p.reply = None
                            if "ok" not in p.results[-1]:
                                p.todo = []
                        if p.todo:
                            kw = dict(p.todo.pop(0))
                            p.start(kw.pop("op"), **kw)
                            yield p
                while True:
                    while list(feed()):
                        w.settle()
                    w.settle()
                    if any(p.reply is not None for p in ps if not p.dead):
                        continue
                    ready = w.ready()
                    if not ready:
                        x["stuck"] = bool(w.waiting())
                        if x["stuck"]:
                            x["ttrail"].append("waiting: %s" % [(ps.index(c.proc), c.ask["p1"][len(root):]) for c in w.waiting()])
                        break
                    c = last if last in ready and rng.random() < stay else rng.choice(ready)
                    last = c
                    p = c.proc
                    p.k += 1
                    q, v = c.ask, "G"
                    if die.get(ps.index(p)) == p.k:
                        v = "D" if q["op"] in ("lock", "blocked") else rng.choice("DK")
                        p.hurt = True
                        x["ttrail"].append("process %d: %s of %s: %s" % (ps.index(p), q["op"], q["p1"][len(root):][-90:], v))
                    w.grant(c, v)
                x["calls"] = sum(p.k for p in ps)
                for k, p in enumerate(ps):
                    done = not p.dead and len(p.results) == len(site.ops(root, 0, resolving)) and "ok" in p.results[-1]
                    env = hashlib.sha256(json.dumps(p.results[-1]["ok"], sort_keys=True).replace(root, "ROOT").encode()).hexdigest()[:20] if done else ""
                    x["runs"].append({"hurt": p.hurt and p.dead, "ok": done, "env": env, "twhy": "" if done else "died" if p.dead else str(p.results[-1:])[:500]})
            x["seen"] = [{q: e[q] for q in ("name", "what", "content", "ino")} for e in look(root, STORES + ["build-store%d" % k for k in range(n)], site.at)]
            got = {}
            for r in o.log:
                if "/files/" in r.path and r.method == "GET" and not r.get("Range"):
                    got[r.path] = got.get(r.path, 0) + 1
            x["fetched"] = [{"file": f.split("/")[-1], "n": k} for f, k in sorted(got.items())]
            x["built"] = sum(e["hook"] == "wheel" for e in builds.read_log(tmp + "/log"))
            cases.append(x)
            shutil.rmtree(root)
    return cases


def describe(x):
    return "installing %s; %s; processes: %s" % (x["tworld"], "; ".join(x["ttrail"]) or "nothing happens", [r["twhy"] or "ok" for r in x["runs"]])


FLAWS = ["inplace", "late", "again", "torn"]
CFG = "SPECIFICATION Spec\nINVARIANT AllOrNothing\nINVARIANT Lasting\nINVARIANT Installed\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\nCONSTANTS NItems=%d Pieces=%d Crashes=%d Flaw=\"%s\"\n"


def check_interrupted(c):
    c.model("CrashModel", CFG % (c.n(3, 5), c.n(3, 5), c.n(3, 6), "none"), min_states=150, timeout=800)
    for f in FLAWS:
        res = vf.tlc("CrashModel", CFG % (3, 3, 3, f))
        if "is violated" not in res.out:
            raise vf.ToolError("the rules accept the wrong design %s:\n%s" % (f, res.out[-1500:]))
        c.count("wrong_designs_rejected")
    jobs = [("%s-%d" % (c.seed, i), None) for i in range(c.n(32, 600))]
    if not c.quick:
        jobs += [("%s-e%d" % (c.seed, i), (j, 16)) for i in range(2) for j in range(16)]
    cases = [x for xs in vf.pparallel(world, jobs) for x in xs]
    for x in cases:
        c.count("installs interrupted", sum(r["hurt"] for r in x["runs"]))
        c.count("entries compared", sum(len(r["seen"]) for r in x["runs"]))
        c.count("calls of installs", x["calls"])
    c.judge("CrashJudge", cases, lambda x: describe(x)[:1800])


def check_together(c):
    cases = [x for xs in vf.pparallel(together, ["%s-%d" % (c.seed, i) for i in range(c.n(32, 500))]) for x in xs]
    for x in cases:
        c.count("processes under imposed schedules", len(x["runs"]))
        c.count("deaths among them", sum(r["hurt"] for r in x["runs"]))
        c.count("calls scheduled", x["calls"])
    c.judge("TogetherJudge", cases, lambda x: ("%s; downloads %s, %d builds" % (describe(x), [(f["file"], f["n"]) for f in x["fetched"]], x["built"]))[:1800])
