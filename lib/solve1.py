"""Resolving a brief for one project with one release (the solver's view of a specifier)."""
import vf, pkgs
from origin import Origin
from pep440gen import *
import c15


PY_NAME, PY_VERSION = "cpython", "3.11.2"


def setup_db(d, tmp, index_url, name, cache=None):
    d.ok("forest.new", path=tmp + "/forest", **{"as": "forest"})
    d.ok("kd.new", path=tmp + "/build", **{"as": "bs"})


def solve_single(c, n):
    rng = c.rng
    jobs = []
    uni = universe()
    for k in range(n):
        cand = rng.choice(uni) if rng.random() < .6 else rnd_version(rng)
        cls = []
        for _ in range(rng.choice([1, 1, 2])):
            v = cand if rng.random() < .5 else neighbours(rng, cand)
            op = rng.choice(OPS)
            wild = op in ("==", "!=") and rng.random() < .3 and not v["dev"] and not v["loc"]
            if op not in ("==", "!="):
                v = dict(v, loc=[])
            if op == "~=" and len(v["r"]) < 2:
                v = dict(v, r=v["r"] + [0])
            cls.append({"op": op, "wild": wild, "v": v})
        jobs.append((cand, cls))
    shards = [jobs[i::8] for i in range(8)]
    shards = [s for s in shards if s]

    def run(item):
        si, shard = item
        out = []
        with vf.Scratch() as tmp, Origin() as o, vf.Driver(cwd=tmp) as d:
            d.ok("forest.new", path=tmp + "/forest", **{"as": "forest"})
            d.ok("kd.new", path=tmp + "/build", **{"as": "bs"})
            fn, data = pkgs.pybi(PY_NAME, PY_VERSION)
            for i, (cand, cls) in enumerate(shard):
                ix = pkgs.Index(o, "/u%d" % i)
                ix.add(PY_NAME, fn, data)
                wfn, wdata = pkgs.wheel("proj", render(cand))
                ix.add("proj", wfn, wdata)
                ix.publish()
                d.ok("db.new", forest="forest", build_store="bs", index=[ix.url], cache=tmp + "/cache", **{"as": "db"})
                text = "proj " + ",".join(c15.clause_text(cl, rng) for cl in cls)
                rep = d.call("resolve", db="db", brief={"python": PY_NAME, "requirements": [text], "allow_pre": ":all:"}, platforms=["manylinux_2_17_x86_64"])
                st = c15.status(rep)
                if st == "ok":
                    pins = [(w[0]["name"], w[0]["version"]) for w in rep["ok"]["wheels"]]
                    if pins != [("proj", render(cand))]:
                        st = "wrong"
                out.append({"kind": "solve", "text": text + " against " + render(cand), "cls": [dict(cl, v=tla(cl["v"])) for cl in cls],
                            "c": tla(cand), "status": st, "why": str(rep.get("err", rep.get("panic", "")))[:300]})
        return out

    res = []
    for r in vf.parallel(run, list(enumerate(shards))):
        res += r
    return res
