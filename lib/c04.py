"""C04, C17: environments are what blueprints say; judged by Install.tla."""
import hashlib, json, os, random, re, shutil
import vf, pkgs, builds, c14
from origin import Origin
from uni import codes

PKGS = ["alpha", "Beta_b", "gamma-c"]
REQS = ["foo", "foo>=1", "foo[bar]>=1,<2", "foo==1.*; python_version < '3'", "quux ; extra == 'x'", "zip-zap[a,b]!=1.5", "foo>=2", "foo; os_name == 'nt' and extra == \"y\""]
RPS = ["", ">=3.7", ">=3.8", "<4,>=3", "!=3.2.*"]


def norm(s):
    return re.sub(r"[-_.]+", "-", s).lower()


def some_meta(rng):
    return {"reqs": rng.sample(REQS, rng.choice([0, 0, 1, 1, 2, 3])), "rp": rng.choice(RPS), "extras": rng.sample(["x", "y", "long-name"], rng.choice([0, 0, 1, 2]))}


def respell(rng, m):
    """The same, written in another way."""
    def req(s):
        name = re.match(r"[\w-]+", s).group(0)
        n = "".join(rng.choice([c, c.upper()]) for c in name).replace("-", rng.choice(["-", "_", "."])) if rng.random() < .5 else name
        s = n + s[len(name):]
        if rng.random() < .3:
            s = re.sub(r"([<>=!]=|[<>])", lambda x: rng.choice([" ", ""]) + x.group(1) + rng.choice([" ", ""]), s)
        if rng.random() < .3:
            s = s.replace(";", " ; ").replace("'", '"')
        if rng.random() < .2:
            s = s.replace("[a,b]", "[b, A]")
        return s
    return {"reqs": [req(s) for s in m["reqs"]], "rp": m["rp"].replace(",", rng.choice([",", " , "])), "extras": [e.replace("-", rng.choice("-_.")).upper() if rng.random() < .3 else e for e in rng.sample(m["extras"], len(m["extras"]))]}


def change(rng, m):
    """Something else."""
    m = json.loads(json.dumps(m))
    k = rng.choice(["add", "drop", "swap", "rp", "extras", "order"])
    if k == "add" or (k in ("drop", "swap", "order") and not m["reqs"]):
        m["reqs"].insert(rng.randrange(len(m["reqs"]) + 1), rng.choice(REQS))
    elif k == "drop":
        m["reqs"].pop(rng.randrange(len(m["reqs"])))
    elif k == "swap":
        m["reqs"][rng.randrange(len(m["reqs"]))] = rng.choice(REQS)
    elif k == "order":
        rng.shuffle(m["reqs"])
    elif k == "rp":
        m["rp"] = rng.choice(RPS)
    else:
        m["extras"] = rng.sample(["x", "y", "long-name"], rng.choice([0, 1, 2]))
    return m


def meta_text(name, version, m):
    return pkgs.metadata(name, version, m["reqs"], m["rp"] or None, m["extras"])


OTHER_NAMES = ["other", "alpha2", "alph"]


def bad_wheel(rng, pkg, v, tag, mod, m):
    kind = rng.choice(["name", "version", "distinfo", "nometa", "junk", "two", "wheelversion", "distver"])
    kw = dict(files=mod, tag=tag)
    n = pkgs.esc(pkg)
    if kind == "name":
        return kind, pkgs.wheel(pkg, v, meta=meta_text(rng.choice(OTHER_NAMES), v, m), **kw)
    if kind == "version":
        return kind, pkgs.wheel(pkg, v, meta=meta_text(pkg, v + ".1", m), **kw)
    if kind == "distinfo":
        return kind, pkgs.wheel(pkg, v, meta=meta_text(pkg, v, m), distinfo="other-%s.dist-info" % v, **kw)
    if kind == "distver":
        return kind, pkgs.wheel(pkg, v, meta=meta_text(pkg, v, m), distinfo="%s-%s.1.dist-info" % (n, v), **kw)
    if kind == "nometa":
        return kind, pkgs.wheel(pkg, v, meta=False, **kw)
    if kind == "wheelversion":
        return kind, pkgs.wheel(pkg, v, meta=meta_text(pkg, v, m), wheel_file="Wheel-Version: 2.0\nRoot-Is-Purelib: true\n", **kw)
    if kind == "two":
        f, d = pkgs.wheel(pkg, v, meta=meta_text(pkg, v, m), files=mod + [("%s-%s.1.dist-info/METADATA" % (n, v), b"x")], tag=tag)
        return kind, (f, d)
    f, d = pkgs.wheel(pkg, v, meta=meta_text(pkg, v, m), **kw)
    return kind, (f, rng.choice([d[:len(d) // 2], b"junk"]) + b"%d" % rng.randrange(10 ** 9))


class World:
    def __init__(self, rng, tmp, native, names=False):
        # names: mostly about files that aren't what their names say, or whose needs have changed
        self.rng, self.tmp = rng, tmp
        self.src = rng.random() < .35
        self.cores = list(native) if self.src else rng.sample(c14.CORES, rng.choice([1, 1, 2, 3]))
        self.files, self.data = [], []
        self.had, self.names = set(), names
        self.py = "cpython"
        tms = [c14.templates(rng), c14.templates(rng) + ["py3-none-any"]] if not self.src else [["cp311-cp311-PLATFORM", "py3-none-any", "py3-none-PLATFORM"]]
        self.base = {p: some_meta(rng) for p in PKGS}
        # Pythons
        for _ in range(1 if self.src else rng.choice([1, 2, 4])):
            tag = self.cores[0] if self.src or (not self.files and rng.random() < .93) else ".".join(sorted({c14.near(rng, rng.choice(self.cores)) for _ in range(rng.choice([1, 1, 2]))}))
            self.python(rng.choice(["3.11.2"] * (1 if names else 4) + ["3.11.1"]) if self.files else "3.11.2", tag, rng.choice(tms))
        for p in PKGS:
            if rng.random() < (.4 if self.src else .7):
                self.wheel(p, "1", "py3-none-any")
            for _ in range(rng.choice([0, 1, 2, 3] if self.src else [1, 2, 3, 4])):
                if self.src:
                    tag = rng.choice(["py3-none-any", "py3-none-" + self.cores[0], "py3-none-win32", "cp310-cp310-" + self.cores[0], "py3-none-win_amd64"])
                else:
                    tag = c14.wheel_tag(rng, rng.choice(self.cores), rng.choice(tms)) if rng.random() < .7 else "py3-none-any"
                self.wheel(p, rng.choice(["1", "1", "1", "1", "2"]), tag)
            for _ in range(rng.choice([1, 1, 2]) if self.src else rng.choice([0, 0, 1])):
                self.sdist(p, rng.choice(["1", "1", "1", "2"]))

    def put(self, f, what, **kw):
        fn, data = what
        self.files.append(dict(name=codes(fn), tname=fn, templates=[], **f, **kw))
        self.data.append(data)
        self.hashes = getattr(self, "hashes", []) + [hashlib.sha256(data).hexdigest()]

    def meta(self, p):
        x = self.rng.random()
        a, b = (.3, .7) if self.names else (.5, .87)
        return self.base[p] if x < a else respell(self.rng, self.base[p]) if x < b else change(self.rng, self.base[p])

    def mod(self):
        return [("id_%d.py" % (len(self.files) + 1), b"x = %d\n" % self.rng.randrange(10 ** 6))]

    def python(self, v, tag, tm):
        rng, h = self.rng, len(self.files) + 1
        kw, good, why = {}, True, ""
        if not self.src and rng.random() < (.2 if self.names else .12):
            good, why = False, rng.choice(["name", "version", "junk"])
            if why == "name":
                kw["meta_name"] = rng.choice(["cpython2", "pypy"])
            elif why == "version":
                kw["meta_version"] = v + "1"
        elif rng.random() < .2:
            kw.update(rng.choice([dict(meta_version=v + ".0"), dict(meta_name="CPython")]))
        fn, data = pkgs.pybi("cpython", v, tag, wheel_tags=tm, files=[("id", b"%d" % h), ("code", b"31102"), ("minor", b"11")], **kw)
        if why == "junk":
            data = rng.choice([b"junk", data[:len(data) // 2]]) + b"%d" % rng.randrange(10 ** 9)
        self.put(dict(k="pybi", pkg="cpython", v=v, good=good, twhy=why, meta={"reqs": [], "rp": [], "extras": []}), (fn, data))
        self.files[-1]["templates"] = [codes(t) for t in tm]

    def wheel(self, p, v, tag, again=None):
        rng, m = self.rng, self.meta(p)
        if rng.random() < (.25 if self.names else .08):
            why, what = bad_wheel(rng, p, v, tag, self.mod(), m)
            good = False
        else:
            good, why = True, ""
            what = pkgs.wheel(p, v, meta=meta_text(rng.choice([p, p, p.upper().replace("-", ".")]), rng.choice([v, v, v + ".0"]), m), files=self.mod(), tag=tag)
        self.put(dict(k="wheel", pkg=norm(p), v=v, good=good, twhy=why, meta=self.codes(m)), what)
        if not again and rng.random() < .25:
            self.wheel(p, v, tag, True)

    def sdist(self, p, v):
        rng, m = self.rng, self.meta(p)
        kw, good, why = {}, True, ""
        meta = meta_text(p, v, m)
        if not self.src:
            # (whether it can be built for that platform isn't the point here)
            good, why, kw["fail"] = False, "fails", {"wheel": ["raise", 1000]}
        elif rng.random() < (.5 if self.names else .2):
            good, why = False, rng.choice(["as name", "as version", "name", "version", "junk", "fails", "junk wheel"])
            if why == "as name":
                kw["wheel_as"] = "other-%s-py3-none-any.whl" % v
            elif why == "as version":
                kw["wheel_as"] = "%s-%s.1-py3-none-any.whl" % (pkgs.esc(p), v)
            elif why == "name":
                meta = meta_text("other", v, m)
            elif why == "version":
                meta = meta_text(p, v + ".1", m)
            elif why == "fails":
                kw["fail"] = {"wheel": ["raise", 1000]}
            elif why == "junk wheel":
                kw["fail"] = {"wheel": ["junk", 1000]}
        fn, data = builds.source(p, v, log=self.tmp + "/log", state=self.tmp, hook=rng.random() < .5, wheel_meta=meta, extra=self.mod(), **kw)
        if why == "junk":
            data = rng.choice([b"junk", data[:len(data) // 2]]) + b"%d" % rng.randrange(10 ** 9)
        self.put(dict(k="sdist", pkg=norm(p), v=v, good=good, twhy=why, meta=self.codes(m)), (fn, data))

    @staticmethod
    def codes(m):
        return {"reqs": [codes(r) for r in m["reqs"]], "rp": codes(m["rp"]), "extras": [codes(e) for e in m["extras"]]}

    def operation(self, calm):
        """What to do; calm: nothing goes wrong"""
        rng, F = self.rng, self.files
        wild = 0 if calm else rng.choice([0, .05, .15])
        swaps = 0 if calm else rng.choice([0, .2, .4] if self.names else [0, 0, .1, .3])
        index = []
        for i, f in enumerate(F):
            if rng.random() < (.07 if f["k"] != "pybi" or not self.src else 0):
                continue
            same = [j + 1 for j, g in enumerate(F) if g["tname"] == f["tname"] and j != i]
            h = got = i + 1
            if not (self.src and f["k"] == "pybi"):
                if same and rng.random() < wild:
                    h = rng.choice(same)
                if same and rng.random() < wild:
                    got = rng.choice(same)
                if rng.random() < wild:
                    got = rng.choice([0, i + 1, h])
                if rng.random() < wild / 2:
                    h = 0
                if rng.random() < swaps:
                    some = [j + 1 for j, g in enumerate(F) if g["k"] == f["k"] or rng.random() < .2]
                    h = got = rng.choice([j for j in some if j in self.had] * rng.choice([0, 1]) or some)
            index.append({"f": i + 1, "h": h, "got": got})
        rng.shuffle(index)

        def hashes(pkg):
            keep = rng.choice([1, 1, 1, .8, .5])
            return [i + 1 for i, f in enumerate(F) if (f["pkg"] == pkg or swaps) and rng.random() < keep] + [0] * rng.choice([0, 0, 1])
        pins = [{"tpkg": p, "pkg": norm(p), "v": rng.choice(["1"] * 7 + ["2"]), "hashes": hashes(norm(p)), "m": self.base[p] if rng.random() < .6 else respell(rng, self.base[p]) if rng.random() < .75 else change(rng, self.base[p])}
                for p in rng.sample(PKGS, rng.choice([0, 1, 1, 2, 3]))]
        plats = list(self.cores)
        if rng.random() < .2:
            rng.shuffle(plats)
        return {"index": index, "plats": plats, "py": {"pkg": "cpython", "v": rng.choice(["3.11.2"] * 5 + sorted({f["v"] for f in F if f["k"] == "pybi"})), "hashes": list(range(1, len(F) + 1)) if self.src else hashes("cpython")}, "pins": pins,
                "wipe": [x for x in ("forest", "cache") if rng.random() < .15]}


def history(args):
    seed, names = args
    rng = random.Random("c04:%s:%s" % (seed, names))
    with vf.Scratch() as tmp, Origin() as o, vf.Driver(cwd=tmp) as d:
        d.patience = 90
        w = World(rng, tmp, d.ok("native"), names)
        ops, prev = [], None
        for n in range(rng.choice([1, 2, 3, 4, 5])):
            op = w.operation(rng.random() < .5)
            if prev and rng.random() < .3:  # the same again, but not everything
                k = rng.choice(["index", "pins", "plats", "m"])
                op = dict(json.loads(json.dumps(prev)), **dict({k: op[k]} if k != "m" else {}, wipe=op["wipe"]))
                if k == "m":  # just another opinion on what they need
                    for p in op["pins"]:
                        p["m"] = change(rng, p["m"]) if rng.random() < .5 else respell(rng, p["m"])
            prev = json.loads(json.dumps(op))
            ops.append(run(w, d, o, tmp, op, n))
            if ops[-1]["status"] == "bad":
                break
        return {"files": w.files, "ops": ops}


def run(w, d, o, tmp, op, n):
    for x in op["wipe"]:
        shutil.rmtree(tmp + "/" + x, ignore_errors=True)
    o.files.clear()
    pages, urls = {}, {}
    sha = lambda h: w.hashes[h - 1] if h else None
    for i, e in enumerate(op["index"]):
        f = w.files[e["f"] - 1]
        path = "/f/%d/%d/%s" % (n, i, f["tname"])
        urls[path] = i + 1
        if e["got"]:
            o.files[path] = (w.data[e["got"] - 1], [])
        pages.setdefault(f["pkg"], []).append((f["tname"], o.base + path + ("#sha256=" + sha(e["h"]) if e["h"] else ""), {}))
    for p, es in pages.items():
        o.files["/i/%d/%s/" % (n, p)] = (pkgs.index_page(es).encode(), [("Content-Type", "text/html")])
    d.ok("forest.new", path=tmp + "/forest", **{"as": "forest"})
    d.ok("kd.new", path=tmp + "/bs%d" % n, **{"as": "bs"})
    d.ok("db.new", forest="forest", build_store="bs", index=[o.base + "/i/%d/" % n], cache=tmp + "/cache", **{"as": "db"})
    hx = lambda hs: ["sha256=" + (sha(h) or "%064x" % 7) for h in hs]
    bp = {"pybi": {"name": "cpython", "version": op["py"]["v"], "hashes": hx(op["py"]["hashes"])},
          "wheels": [[{"name": p["tpkg"], "version": p["v"], "hashes": hx(p["hashes"])}, {"provenance": "x", "requires-dist": p["m"]["reqs"], "requires-python": p["m"]["rp"], "extras": p["m"]["extras"]}] for p in op["pins"]],
          "marker-expressions": {}}
    mark = len(o.log)
    try:
        r = d.call("get_env", db="db", forest="forest", blueprint=bp, platforms=op["plats"])
    except vf.Died as e:
        r = {"panic": "died: %s" % e.rc}
    gets = sorted({urls[q.path] for q in o.log[mark:] if q.path in urls and q.method == "GET" and not q.get("Range")})
    py, used = 0, []
    if "ok" in r:
        d.ok("drop", obj="db")
        py = int(open(os.path.dirname(os.path.dirname(r["ok"]["python"])) + "/id").read())
        for l in r["ok"]["lib_dirs"]:
            ids = [int(x[3:-3]) for x in (os.listdir(l) if os.path.isdir(l) else []) if x.startswith("id_")]
            used.append(ids[0] if len(ids) == 1 else 0)
    return dict(index=op["index"], plats=[codes(p) for p in op["plats"]], tplats=op["plats"], py=op["py"],
                pins=[{"pkg": p["pkg"], "v": p["v"], "hashes": p["hashes"], "meta": w.codes(p["m"])} for p in op["pins"]], wipe=op["wipe"],
                status="ok" if "ok" in r else "bad" if "panic" in r else "err", usedpy=py, used=used, gets=gets, tries=any(f["k"] == "sdist" for f in w.files), twhy=str(r.get("err", r.get("panic", "")))[:300])


def explain(x):
    return "environments from %s: %s" % (["%d %s%s" % (i + 1, f["tname"], "" if f["good"] else " (bad: %s)" % f["twhy"]) for i, f in enumerate(x["files"])],
                                         [dict(plats=op["tplats"], py=op["py"]["hashes"], pins=[(p["pkg"], p["v"], p["hashes"]) for p in op["pins"]], wipe=op["wipe"], status=op["status"], used=[op["usedpy"]] + op["used"], gets=op["gets"],
                                               why=op["twhy"][:160]) for op in x["ops"]])


def model_files():
    """A Python, one that is broken; of one package: a wheel, a better one that needs something else, one of the same name that is
    broken, and a source distribution."""
    a, b = World.codes({"reqs": ["foo"], "rp": "", "extras": []}), World.codes({"reqs": ["foo", "bar"], "rp": "", "extras": []})
    none = World.codes({"reqs": [], "rp": "", "extras": []})

    def f(k, name, pkg, v, good, meta, templates=()):
        return {"k": k, "name": codes(name), "pkg": pkg, "v": v, "good": good, "meta": meta, "templates": [codes(t) for t in templates]}
    tm = ("py3-none-PLATFORM", "py3-none-any")
    return {"plats": [codes("manylinux_2_17_x86_64")], "metas": [a, b], "files": [
        f("pybi", "cpython-3.11.2-manylinux_2_5_x86_64.pybi", "cpython", "3.11.2", True, none, tm),
        f("pybi", "cpython-3.11.2-manylinux_2_17_x86_64.pybi", "cpython", "3.11.2", False, none, tm),
        f("wheel", "p-1-py3-none-any.whl", "p", "1", True, a), f("wheel", "p-1-py3-none-any.whl", "p", "1", False, a),
        f("wheel", "p-1-py3-none-manylinux_2_5_x86_64.whl", "p", "1", True, b), f("sdist", "p-1.tar.gz", "p", "1", True, a)]}


CFG = """INIT Init
NEXT Next
INVARIANT Fine
INVARIANT Believes
CHECK_DEADLOCK FALSE
CONSTANTS
MaxPins = %d
Forgets = %s
NoHash = %s
PythonFits <- TabPython
WheelFits <- TabWheel
Means <- TabMeans
InOrder <- TabOrder
"""


def models(c):
    # which of the files there are, how many packages, whether things get removed, entries without hash
    for some, pins, forgets, nohash in c.n([([1, 3, 4, 6], 1, "FALSE", "FALSE"), ([1, 2, 3, 5], 1, "FALSE", "TRUE"), ([1, 3, 5], 1, "TRUE", "FALSE"), ([1, 3, 5], 2, "FALSE", "FALSE")],
                                           [([1, 3, 4, 6], 1, "TRUE", "TRUE"), ([1, 2, 3, 5], 1, "TRUE", "TRUE"), ([1, 3, 4, 5, 6], 1, "FALSE", "FALSE"), ([1, 3, 5, 6], 2, "TRUE", "FALSE")]):
        m = model_files()
        m["files"] = [m["files"][i - 1] for i in some]
        with vf.Scratch() as tmp:
            open(tmp + "/files", "w").write(json.dumps(m) + "\n")
            c.model("InstallModel", CFG % (pins, forgets, nohash), min_states=20, timeout=c.n(300, 880), env={"FILES": tmp + "/files"})


def count(c, cases):
    for x in cases:
        for op in x["ops"]:
            c.count("environments: " + op["status"])
            if op["status"] == "err":
                c.count("refusals: " + re.sub(r"\d.*|[A-Z]\w+ \{.*", "", op["twhy"].split("\n")[0])[:50])
        if len(x["ops"]) > 1 and x["ops"][-1]["status"] == "ok":
            c.sample({"files": [f["tname"] for f in x["files"]], "ops": [{k: op[k] for k in ("index", "py", "used", "usedpy", "gets", "status")} for op in x["ops"]]}, 1)


def check_C04(c):
    models(c)
    cases = vf.pparallel(history, [("%s-%d" % (c.seed, i), False) for i in range(c.n(1500, 16000))])
    count(c, cases)
    c.judge("InstallJudge", cases, lambda x: explain(x)[:1500])


NAMES = ["alpha", "Alpha", "al_pha", "AL.PHA", "alpha2", "alph", "al.pha", "b"]
VERSIONS = ["1", "1.0", "1.0.0", "1.1", "1a1", "1.0a1", "1.a.1", "1.post1", "1.0-1", "1+x", "1.0+X", "1+y", "0!1", "1!1", "01", "1rc1", "1.c1", "v1", "2", "1.dev0"]


def embedded(seed):
    """Metadata of misnamed files, some of them read before under a name that's right."""
    rng = random.Random("embedded:%s" % seed)
    out = []
    with vf.Scratch() as tmp, Origin() as o, vf.Driver(cwd=tmp) as d:
        names, versions = rng.sample(NAMES, 3), rng.sample(VERSIONS, rng.choice([1, 3]))
        pick = lambda: [rng.choice(names), rng.choice(versions)]
        files = []
        for h in range(4):
            a, b = pick(), pick()
            if rng.random() < .5:
                b = a
            k = rng.choice(["wheel", "wheel", "pybi"])
            if k == "wheel":
                b[1] = b[1].replace("-", ".post")
                di = "%s-%s.dist-info" % tuple(b)
                data = pkgs.wheel("x", "1", meta=pkgs.metadata(*a), distinfo=di, files=[("x%d.py" % h, b"%d" % h)])[1]
            else:
                b = a
                data = pkgs.pybi("x", "1", meta_name=a[0], meta_version=a[1], vars=pkgs.DEFAULT_VARS, files=[("id", b"%d" % h)])[1]
            files.append((k, a, b, data, hashlib.sha256(data).hexdigest()))
        d.ok("forest.new", path=tmp + "/forest", **{"as": "forest"})
        d.ok("kd.new", path=tmp + "/bs", **{"as": "bs"})
        for n in range(rng.choice([2, 4, 8])):
            k, a, b, data, sha = rng.choice(files)
            says = rng.choice([pick(), a, b])
            fn = "%s-%s-%s" % (says[0].replace("-", "_"), says[1].replace("-", ".post"), "py3-none-any.whl" if k == "wheel" else "manylinux_2_17_x86_64.pybi")
            path = "/f/%d/%s" % (n, fn)
            o.files[path] = (data, [])
            proj = norm(says[0])
            o.files["/i/%d/%s/" % (n, proj)] = (pkgs.index_page([(fn, o.base + path + ("#sha256=" + sha if rng.random() < .8 else ""), {})]).encode(), [("Content-Type", "text/html")])
            d.ok("db.new", forest="forest", build_store="bs", index=[o.base + "/i/%d/" % n], cache=tmp + "/cache", **{"as": "db"})
            if rng.random() < .2:
                for _, ais in d.ok("db.available", db="db", name=says[0]):
                    d.call("db.artifact", db="db", name=says[0], file=ais[0]["name"])
            r = d.call("db.%s_metadata" % k, db="db", name=says[0], version=says[1].replace("-", ".post"))
            out.append({"says": [codes(says[0]), codes(says[1].replace("-", ".post"))], "is": [codes(t) for t in a], "dir": [codes(t) for t in b], "ok": "ok" in r, "tfile": fn, "tis": a, "tdir": b, "tkind": k, "twhy": str(r)[:300]})
            d.ok("drop", obj="db")
    return out


def check_C17(c):
    cases = [x for xs in vf.pparallel(embedded, ["%s-%d" % (c.seed, i) for i in range(c.n(300, 4000))]) for x in xs]
    for x in cases:
        c.count("embedded names: %s" % ("accepted" if x["ok"] else "refused"))
    c.judge("EmbeddedJudge", cases, lambda x: "metadata from %s (metadata: %s, directory: %s): %s" % (x["tfile"], x["tis"], x["tdir"], x["twhy"]))
    cases = vf.pparallel(history, [("%s-%d" % (c.seed, i), True) for i in range(c.n(1200, 14000))])
    count(c, cases)
    c.judge("InstallJudge", cases, lambda x: explain(x)[:1500])
