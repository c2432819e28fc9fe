"""Random universes of releases: generated as structures, served as an index, resolved by posy,
and turned into cases for Resolve.tla."""
import json, os, pickle
import vf, pkgs
from origin import Origin
from pep440gen import *

codes = lambda s: [ord(c) for c in s]

PLATFORMS = ["manylinux_2_17_x86_64", "win_amd64", "macosx_11_0_arm64", "musllinux_1_1_x86_64"]
# a few tags each, the most specific first
PLAT_TAGS = {"manylinux_2_17_x86_64": ["manylinux_2_17_x86_64", "manylinux_2_12_x86_64", "manylinux_2_5_x86_64"],
             "win_amd64": ["win_amd64"],
             "macosx_11_0_arm64": ["macosx_11_0_arm64", "macosx_11_0_universal2", "macosx_10_9_universal2"],
             "musllinux_1_1_x86_64": ["musllinux_1_1_x86_64", "musllinux_1_0_x86_64"],
             "macosx_10_15_x86_64": ["macosx_10_15_x86_64", "macosx_10_9_x86_64", "macosx_10_9_universal2"],
             "macosx_12_0_universal2": ["macosx_11_0_universal2", "macosx_10_9_universal2"]}
MACHINES = {"macosx_11_0_arm64": ["arm64"], "macosx_10_15_x86_64": ["x86_64"]}

VPOOL = [V([1]), V([1, 1]), V([2]), V([2, 1]), V([3]), V([1, 0, 1]), V([10])]
VPRE = [V([2], pre=(2, 1)), V([3], pre=(0, 1)), V([3], dev=0), V([4], pre=(1, 2)), V([1], dev=3)]
VODD = [V([2], post=1), V([1, 1], post=0), V([1], e=1), V([1, 1], loc=["x"]), V([2], loc=[1])]
EXTRAS = ["bar", "opt-dep", "x"]
VARVALS = {"python_version": ["3.11", "3.10", "3.9", "2.7", "3"], "sys_platform": ["linux", "win32", "darwin"], "os_name": ["posix", "nt"],
           "platform_machine": ["x86_64", "arm64"], "implementation_name": ["cpython", "pypy"], "python_full_version": ["3.11.2", "3.10.0", "3.11"],
           "platform_system": ["Linux", "Windows"]}
PYNAME = "cpython_x"


def spell(rng, name):
    """Another spelling of the same name."""
    out = ""
    for ch in name:
        if ch == "-":
            out += rng.choice(["-", "_", ".", "-", "-", "--", "_-"])
        else:
            out += ch.upper() if rng.random() < .1 else ch
    return out


def lit(s):
    return {"var": [], "lit": [s]}


def var(s):
    return {"var": [s], "lit": []}


class Gen:
    def __init__(self, rng, style):
        self.rng, self.style, self.nomachine = rng, style, False

    # -------------------------------------------------------------- markers
    def marker(self, extras, depth=2, extra_ok=True):
        r = self.rng
        if depth > 0 and r.random() < .4:
            return {"t": r.choice(["and", "or"]), "l": self.marker(extras, depth - 1, extra_ok), "r": self.marker(extras, depth - 1, extra_ok)}
        if extra_ok and r.random() < .45:
            e = r.choice(extras or EXTRAS)
            op = r.choice(["==", "==", "==", "==", "!=", "in"]) if self.style != "plain" else "=="
            l, rr = var("extra"), lit(spell(r, e))
            if op != "in" and r.random() < .2:
                l, rr = rr, l
            return {"t": "cmp", "op": op, "l": l, "r": rr}
        v = "platform_machine" if self.nomachine and r.random() < .5 else r.choice(list(VARVALS))
        val = r.choice(VARVALS[v])
        if v.startswith("python"):
            op = r.choice(["==", "!=", "<", "<=", ">", ">=", "~="])
            if op == "~=" and "." not in val:
                val = "3.0"
            if op in ("==", "!=") and r.random() < .3:
                val += ".*"
        else:
            op = r.choice(["==", "!=", "==", "in", "not in", "<", ">="])
        l, rr = var(v), lit(val)
        if r.random() < .15 and not val.endswith("*") and op != "~=":
            l, rr = rr, l
        return {"t": "cmp", "op": op, "l": l, "r": rr}

    def marker_text(self, m, top=True):
        r = self.rng
        if m["t"] == "cmp":
            def o(x):
                if x["var"]:
                    n = x["var"][0]
                    return n
                q = r.choice(["'", '"'])
                return q + x["lit"][0] + q
            return "%s %s %s" % (o(m["l"]), m["op"], o(m["r"]))
        def sub(x, parent):
            t = self.marker_text(x, False)
            need = x["t"] != "cmp" and x["t"] != parent and not (parent == "or" and x["t"] == "and")
            return "(" + t + ")" if need or (x["t"] != "cmp" and r.random() < .3) else t
        # the grammar is right-recursive: a left child with the same operator needs parentheses to keep its shape
        lt = sub(m["l"], m["t"])
        if m["l"]["t"] == m["t"] and not lt.startswith("("):
            lt = "(" + lt + ")"
        elif m["l"]["t"] == m["t"] and lt.startswith("("):
            lt = "(" + self.marker_text(m["l"], False) + ")"
        return "%s %s %s" % (lt, m["t"], sub(m["r"], m["t"]))

    # -------------------------------------------------------------- requirements
    def clauses(self, versions, tight):
        r = self.rng
        out = []
        n = r.choice([0, 1, 1, 2] if not tight else [1, 1, 1, 2])
        for _ in range(n):
            v = r.choice(versions) if versions and r.random() < .9 else r.choice(VPOOL)
            op = r.choice(["==", ">=", "<=", "<", ">", "!=", "~=", ">=", "<"])
            wild = op in ("==", "!=") and r.random() < .3 and not v["dev"] and not v["loc"] and not v["pre"] and not v["post"]
            if op not in ("==", "!="):
                v = dict(v, loc=[])
            if op == "~=" and len(v["r"]) < 2:
                v = dict(v, r=v["r"] + [0])
            out.append({"op": op, "wild": wild, "v": v})
        return out

    def clauses_text(self, cls):
        return ",".join("%s%s%s%s" % (c["op"], self.rng.choice(["", " "]), render(c["v"], self.rng if self.rng.random() < .2 else None), ".*" if c["wild"] else "") for c in cls)

    def req(self, u, frm=None):
        r = self.rng
        n = len(u["pkgs"])
        st = self.style
        x = r.random()
        if x < .06:
            to = 0
        elif frm and x < .12:
            to = frm
        else:
            to = r.randrange(1, n + 1)
        versions = [rel["v"] for rel in u["pkgs"][to - 1]] if to else []
        extras = []
        if to:
            pool = sorted({e for rel in u["pkgs"][to - 1] for e in rel["extras"]})
            if pool and r.random() < (.5 if st in ("extras", "markers") else .25):
                extras = r.sample(pool, r.choice([1, 1, min(2, len(pool))]))
        cls = self.clauses(versions, st == "tight" and r.random() < .7)
        marker = []
        if frm is None:
            if r.random() < (.3 if st in ("extras", "markers") else .1):
                marker = [self.marker([], 2 if st == "markers" else 1, False)]
        elif r.random() < (.6 if st in ("extras", "markers") else .15):
            mine = sorted({e for rel in u["pkgs"][frm - 1] for e in rel["extras"]})
            marker = [self.marker(mine, 2 if st == "markers" else 1)]
        return {"to": to, "extras": extras, "cls": cls, "marker": marker}

    def req_text(self, rq, u):
        r = self.rng
        name = spell(r, u["names"][rq["to"] - 1]) if rq["to"] else "no-such-thing"
        s = name
        if rq["extras"]:
            s += "[" + ",".join(spell(r, e) for e in rq["extras"]) + "]"
        if rq["cls"]:
            t = self.clauses_text(rq["cls"])
            s += " (" + t + ")" if r.random() < .2 else " " + t
        if rq["marker"]:
            s += r.choice(["; ", ";", " ; "]) + self.marker_text(rq["marker"][0])
        return s

    # -------------------------------------------------------------- universes
    def universe(self):
        r, st = self.rng, self.style
        self.nomachine = r.random() < (.3 if st == "markers" else .12)
        npk = r.choice([2, 3, 3, 4, 4, 5]) if st != "small" else 2
        u = {"names": ["aa", "bb-c", "cc", "dd-e-f", "ee"][:npk]}
        r.shuffle(u["names"])
        nv = 4 if npk <= 3 else 3
        u["pkgs"] = []
        for p in range(npk):
            pool = list(VPOOL)
            if st == "prefer" or r.random() < .25:
                pool += VPRE * (2 if st == "prefer" else 1)
            if r.random() < .2:
                pool += VODD
            if st == "prefer" and r.random() < .25:
                pool = list(VPRE)
            vs = []
            for v in r.sample(pool, len(pool)):
                if all(v is not w and tla(v) != tla(w) for w in vs):
                    vs.append(v)
                if len(vs) == r.choice([1, 2, nv, nv, nv]):
                    break
            own = r.sample(EXTRAS, r.choice([0, 1, 2])) if st in ("extras", "markers") or r.random() < .3 else []
            rels = []
            for v in vs:
                files = []
                withdrawn = st == "prefer" and r.random() < .2
                for k in range(r.choice([1, 1, 2, 3]) if st == "prefer" else 1):
                    files.append({"yanked": st == "prefer" and (withdrawn or r.random() < .3), "hash": "", "rp": [self.pyclauses()] if st == "prefer" and r.random() < .3 else []})
                rels.append({"v": v, "files": files, "reqs": [], "rp": self.pyclauses() if r.random() < .12 else [],
                             "extras": [e for e in own if r.random() < .9]})
            u["pkgs"].append(rels)
        for p in range(npk):
            for rel in u["pkgs"][p]:
                for _ in range(r.choice([0, 1, 1, 2, 3] if st != "prefer" else [0, 0, 1, 1, 2])):
                    rel["reqs"].append(self.req(u, p + 1))
        # Python releases
        vs = r.sample([V([3, 11, 2]), V([3, 10, 0]), V([3, 9, 7]), V([3, 12, 0], pre=(0, 3)), V([2, 7, 18])], r.choice([1, 2, 3]))
        u["nplats"] = r.choice([1, 1, 2, 3]) if st == "prefer" else 1
        u["plats"] = r.sample(PLATFORMS, u["nplats"]) if st == "prefer" else PLATFORMS[:1]
        if self.nomachine and r.random() < .9:
            # Pythons that do not say platform_machine
            u["plats"] = r.sample(["macosx_11_0_arm64", "macosx_10_15_x86_64"] + ["macosx_12_0_universal2"] * (r.random() < .2), min(u["nplats"], 2))
            u["nplats"] = len(u["plats"])
        u["pys"] = []
        for v in vs:
            files = []
            tags = set()
            for k in range(r.choice([1, 2, 3]) if st == "prefer" else 1):
                tag = r.choice(PLAT_TAGS[r.choice(PLATFORMS[:3])]) if st == "prefer" and r.random() < .7 else r.choice(PLAT_TAGS[u["plats"][0]])
                if tag in tags:
                    continue
                tags.add(tag)
                plats = [{"n": i + 1, "rank": PLAT_TAGS[pl].index(tag) + 1} for i, pl in enumerate(u["plats"]) if tag in PLAT_TAGS[pl]]
                files.append({"plats": plats, "tag": tag, "yanked": st == "prefer" and r.random() < .2, "hash": "", "rp": []})
            full = render(v)
            env = {"python_full_version": full if not v["pre"] else full, "python_version": ".".join(full.split(".")[:2]), "sys_platform": r.choice(VARVALS["sys_platform"]),
                   "os_name": r.choice(VARVALS["os_name"]), "platform_machine": r.choice(VARVALS["platform_machine"]),
                   "implementation_name": r.choice(VARVALS["implementation_name"]), "platform_system": r.choice(VARVALS["platform_system"])}
            if self.nomachine:
                del env["platform_machine"]
            for f in files:
                f["env"] = dict(env)
                if st == "prefer":
                    # which file was used shows in a marker
                    f["env"]["sys_platform"] = "linux" if f["plats"] and f["plats"][0]["n"] == 1 else "win32"
            u["pys"].append({"v": v, "files": files})
        u["brief"] = {"py": self.pyclauses() if r.random() < .3 else [], "reqs": [self.req(u) for _ in range(r.choice([1, 2, 2, 3]))],
                      "pre": sorted(r.sample(range(1, npk + 1), r.choice([0, 0, 1]))), "preAll": r.random() < .12, "prePy": r.random() < .15}
        u["like"] = []
        return u

    def pyclauses(self):
        r = self.rng
        v = r.choice([V([3]), V([3, 10]), V([3, 11]), V([3, 9]), V([2, 7])])
        op = r.choice([">=", ">=", "<", "!=", "==", "~=", ">", "<="])
        wild = op in ("==", "!=") and r.random() < .8
        if op == "~=" and len(v["r"]) < 2:
            v = V([3, 0])
        return [{"op": op, "wild": wild, "v": v}]


def publish(gen, u, origin, prefix):
    """Serves the universe; fills in the files' hashes; returns the index and the brief for posy."""
    ix = pkgs.Index(origin, prefix)
    u["hashes"] = {}
    for rel in u["pys"]:
        for f in rel["files"]:
            fn, data = pkgs.pybi(PYNAME, render(rel["v"]), f["tag"], vars=dict({"platform_machine": None}, **f["env"]))
            attrs = {"data-yanked": "because"} if f["yanked"] else {}
            f["hash"] = ix.add("cpython-x", fn, data, attrs)
    if not u["pys"]:
        ix.project("cpython-x")
    for name, rels in zip(u["names"], u["pkgs"]):
        ix.project(name)
        order = list(rels)
        gen.rng.shuffle(order)
        for rel in order:
            for k, f in enumerate(rel["files"]):
                reqs = [gen.req_text(q, u) for q in rel["reqs"]] if k == 0 else texts
                texts = reqs
                fn, data = pkgs.wheel(name, render(rel["v"]), reqs, gen.clauses_text(rel["rp"]) or None, [spell(gen.rng, e) for e in rel["extras"]] if k == 0 else ex,
                                      build=str(k + 1) if k else None, files=[("f%d.py" % k, b"")])
                if k == 0:
                    ex = rel["extras"]
                attrs = {}
                if f["yanked"]:
                    attrs["data-yanked"] = gen.rng.choice(["", "broken"])
                if f["rp"]:
                    attrs["data-requires-python"] = gen.clauses_text(f["rp"][0])
                f["hash"] = ix.add(name, fn, data, attrs)
    ix.publish()
    b = u["brief"]
    brief = {"python": (PYNAME + " " + gen.clauses_text(b["py"])).strip(), "requirements": [gen.req_text(q, u) for q in b["reqs"]]}
    if b["preAll"]:
        brief["allow_pre"] = ":all:"
    else:
        brief["allow_pre"] = [spell(gen.rng, u["names"][p - 1]) for p in b["pre"]] + ([spell(gen.rng, "cpython-x")] if b["prePy"] else [])
    return ix, brief


def random_like(gen, u):
    """A previous blueprint (as posy's JSON and as the model's record)."""
    r = gen.rng
    def hs(files):
        # (a release may have lost the files that were pinned, and got others)
        x = [f["hash"] for f in files if r.random() < .7] if r.random() < .7 else []
        return x + (["00" * 32] if r.random() < .2 or not x and r.random() < .7 else [])
    pyrel = r.choice(u["pys"])
    py = {"v": pyrel["v"] if r.random() < .9 else V([3, 8]), "hashes": hs(pyrel["files"])}
    pins, seen = [], set()
    for i, rels in enumerate(u["pkgs"]):
        if r.random() < .7:
            rel = r.choice(rels)
            v = rel["v"] if r.random() < .85 else V([1, 5])
            pins.append({"p": i + 1, "v": v, "hashes": hs(rel["files"])})
    return {"py": py, "pins": pins}


def like_json(gen, u):
    if not u["like"]:
        return None
    l = u["like"][0]
    H = lambda hs: ["sha256=" + h for h in hs]
    return {"pybi": {"name": spell(gen.rng, "cpython-x"), "version": render(l["py"]["v"]), "hashes": H(l["py"]["hashes"])},
            "wheels": [[{"name": spell(gen.rng, u["names"][p["p"] - 1]), "version": render(p["v"]), "hashes": H(p["hashes"])},
                        {"provenance": "x", "requires-dist": [], "requires-python": "", "extras": []}] for p in l["pins"]],
            "marker-expressions": {}}


def tla_marker(m):
    if m["t"] == "cmp":
        o = lambda x: {"var": x["var"], "lit": [codes(x["lit"][0])] if x["lit"] else []}
        return {"t": "cmp", "op": m["op"], "l": o(m["l"]), "r": o(m["r"])}
    return {"t": m["t"], "l": tla_marker(m["l"]), "r": tla_marker(m["r"])}


def tla_cls(cls):
    return [dict(c, v=tla(c["v"])) for c in cls]


def tla_req(q):
    return {"to": q["to"], "extras": [codes(e) for e in q["extras"]], "cls": tla_cls(q["cls"]), "marker": [tla_marker(m) for m in q["marker"]]}


def tla_u(u):
    f = lambda x: {"yanked": x["yanked"], "hash": x["hash"], "rp": [tla_cls(c) for c in x["rp"]]}
    return {"pys": [{"v": tla(r["v"]), "files": [dict(f(x), plats=x["plats"], env={k: codes(v) for k, v in x["env"].items()}) for x in r["files"]]} for r in u["pys"]],
            "pkgs": [[{"v": tla(r["v"]), "files": [f(x) for x in r["files"]], "reqs": [tla_req(q) for q in r["reqs"]], "rp": tla_cls(r["rp"]), "extras": [codes(e) for e in r["extras"]]}
                      for r in rels] for rels in u["pkgs"]],
            "brief": {"py": tla_cls(u["brief"]["py"]), "reqs": [tla_req(q) for q in u["brief"]["reqs"]], "pre": u["brief"]["pre"], "preAll": u["brief"]["preAll"], "prePy": u["brief"]["prePy"]},
            "like": [{"py": {"v": tla(l["py"]["v"]), "hashes": l["py"]["hashes"]}, "pins": [{"p": p["p"], "v": tla(p["v"]), "hashes": p["hashes"]} for p in l["pins"]]} for l in u["like"]],
            "nplats": u["nplats"], "machines": [[codes(m) for m in MACHINES.get(p, [])] for p in u["plats"]]}


def parsed_marker(a):
    """posy's AST of a marker -> the model's"""
    if "and" in a or "or" in a:
        t = "and" if "and" in a else "or"
        return {"t": t, "l": parsed_marker(a[t][0]), "r": parsed_marker(a[t][1])}
    o = lambda x: {"var": [x["var"]], "lit": []} if "var" in x else {"var": [], "lit": [codes(x["lit"])]}
    return {"t": "cmp", "op": a["op"], "l": o(a["lhs"]), "r": o(a["rhs"])}


def outcome(d, u, rep):
    """What posy answered, in the model's terms."""
    out = {"status": "ok" if "ok" in rep else "panic" if "panic" in rep else "err", "py": 0, "pins": [0] * len(u["pkgs"]), "extraPins": False,
           "hashesOK": True, "markers": [], "why": str(rep.get("err", rep.get("panic", "")))[:600]}
    if out["status"] != "ok":
        return out
    bp = rep["ok"]
    norm = lambda s: __import__("re").sub(r"[-_.]+", "-", s).lower()
    for i, rel in enumerate(u["pys"]):
        if render(rel["v"]) == bp["pybi"]["version"] and norm(bp["pybi"]["name"]) == "cpython-x":
            out["py"] = i + 1
            if sorted(set(bp["pybi"]["hashes"])) != sorted({"sha256=" + f["hash"] for f in rel["files"]}):
                out["hashesOK"] = False
    for pin, meta in bp["wheels"]:
        n = norm(pin["name"])
        if n not in u["names"]:
            out["extraPins"] = True
            continue
        p = u["names"].index(n)
        if out["pins"][p] != 0:
            out["extraPins"] = True
        out["pins"][p] = -1
        for i, rel in enumerate(u["pkgs"][p]):
            if render(rel["v"]) == pin["version"]:
                out["pins"][p] = i + 1
                if sorted(set(pin["hashes"])) != sorted({"sha256=" + f["hash"] for f in rel["files"]}):
                    out["hashesOK"] = False
    for text, val in bp["marker-expressions"].items():
        rep = d.call("smarker", s=text)
        if "ok" not in rep:
            out["markers"].append({"m": {"t": "cmp", "op": "==", "l": {"var": ["extra"], "lit": []}, "r": {"var": [], "lit": [codes(text)]}}, "val": val})
        else:
            out["markers"].append({"m": parsed_marker(rep["ok"]["ast"]), "val": val})
    return out


def show(u, brief, like=None):
    s = "brief %s" % json.dumps(brief)
    for n, rels in zip(u["names"], u["pkgs"]):
        s += "; %s: %s" % (n, ["%s%s" % (render(r["v"]), "(yanked)" if all(f["yanked"] for f in r["files"]) else "") for r in rels])
    return s


def run_shard(args):
    seed, style, n, with_like = args
    import random
    rng = random.Random(seed)
    out = []
    with vf.Scratch() as tmp, Origin() as o, vf.Driver(cwd=tmp) as d:
        d.ok("forest.new", path=tmp + "/forest", **{"as": "forest"})
        d.ok("kd.new", path=tmp + "/build", **{"as": "bs"})
        for i in range(n):
            gen = Gen(rng, style if isinstance(style, str) else style[i % len(style)])
            u = gen.universe()
            ix, brief = publish(gen, u, o, "/u%d" % i)
            if with_like and rng.random() < with_like:
                u["like"] = [random_like(gen, u)]
            d.ok("db.new", forest="forest", build_store="bs", index=[ix.url], cache=tmp + "/cache%d" % i, **{"as": "db"})
            rep = d.call("resolve", db="db", brief=brief, platforms=u["plats"], like=like_json(gen, u))
            case = outcome(d, u, rep)
            case["u"] = tla_u(u)
            case["brief"] = show(u, brief)
            case["texts"] = {n: {render(rel["v"]): [gen.req_text(q, u) for q in rel["reqs"]] for rel in rels} for n, rels in zip(u["names"], u["pkgs"])}
            case["pybi"] = rep.get("ok", {}).get("pybi", {}).get("version", "")
            out.append(case)
            for path in [p for p in o.files if p.startswith("/u%d/" % i)]:
                del o.files[path]
            o.log.clear()
            d.ok("drop", obj="db")
    return out


def resolve_many(c, style, n, with_like=0, shards=8):
    per = (n + shards - 1) // shards
    res = []
    for r in vf.pparallel(run_shard, [("%s/%s/%s" % (c.prop, c.seed, i), style, per, with_like) for i in range(shards)]):
        res += r
    return res


def describe(x):
    pins = {n: p for n, p in enumerate(x["pins"], 1) if p}
    return "%s; requirements %s; posy: %s python=%s pins=%s %s" % (x["brief"], json.dumps(x["texts"]), x["status"], x["pybi"], pins, x["why"][:300])
