"""C14: platform compatibility."""
import os
import vf, pkgs, builds
from origin import Origin
from uni import codes

ARCHS = ["x86_64", "i686", "aarch64", "armv7l", "ppc64le", "x86", "64"]
MARCHS = ["x86_64", "arm64", "universal2", "intel", "fat64", "fat3", "universal", "i386", "ppc"]
OTHERS = ["win32", "win_amd64", "win_arm64", "any", "linux_x86_64", "freebsd_13_amd64", "manylinux", "manylinux_x86_64", "manylinux_2_x86_64", "macosx_10_x86_64", "macosx_9_5_x86_64", "manylinux2015_x86_64",
          "musllinux1_x86_64", "musllinux2014_x86_64", "xmanylinux_2_5_x86_64", "macosx_x86_64", "MANYLINUX_2_5_x86_64", "macosx_10_9_X86_64"]


def all_tags(arch, march, top=20):
    out = list(OTHERS)
    for a in arch:
        for pre in ("manylinux_2_", "musllinux_1_"):
            out += [pre + "%d_%s" % (m, a) for m in list(range(top)) + [27, 28, 35, 40]]
        out += ["manylinux_1_5_" + a, "manylinux_3_5_" + a, "musllinux_2_5_" + a, "manylinux_2_05_" + a]
        out += ["manylinux%s_%s" % (l, a) for l in ("1", "2010", "2014")]
    for a in march:
        out += ["macosx_10_%d_%s" % (m, a) for m in range(18)] + ["macosx_%d_%d_%s" % (M, m, a) for M in (11, 12, 13, 20) for m in (0, 1, 3)] + ["macosx_10_09_" + a, "macosx_9_5_" + a]
    return out


def case(d, core, ask):
    r = d.call("platform", core=core, ask=ask)
    ok = r.get("ok", {"tags": [], "scores": []})
    return {"kind": "platform", "status": "ok" if "ok" in r else "bad", "tcore": core, "core": codes(core), "task": ask, "ask": [codes(t) for t in ask],
            "tags": [codes(t) for t in ok["tags"]], "scores": [[] if s is None else [s] for s in ok["scores"]]}


PY = ["cp311", "cp310", "py3", "py2", "cp37", "py311"]
ABI = ["cp311", "abi3", "none", "cp310"]


def plat(rng):
    x = rng.random()
    if x < .35:
        return rng.choice(["manylinux_2_%d_%s" % (rng.choice([4, 5, 12, 16, 17, 18, 28]), rng.choice(ARCHS[:3])), "manylinux%s_%s" % (rng.choice(["1", "2010", "2014"]), rng.choice(ARCHS[:3]))])
    if x < .45:
        return "musllinux_1_%d_%s" % (rng.randrange(4), rng.choice(ARCHS[:3]))
    if x < .8:
        return "macosx_%s_%s" % (rng.choice(["10_9", "10_15", "10_16", "11_0", "12_0", "11_1", "10_6", "13_0"]), rng.choice(MARCHS[:6]))
    return rng.choice(["win_amd64", "win32", "any", "any", "win_arm64"])


def near(rng, core):
    """A platform tag that has something to do with this one."""
    p = core.split("_")
    if rng.random() < .3 or len(p) < 4:
        return plat(rng) if rng.random() < .6 else core
    arch = "_".join(p[3:])
    if rng.random() < .25:
        arch = rng.choice(MARCHS if core.startswith("mac") else ARCHS)
    lev = max(0, int(p[2]) + rng.choice([0, 0, -1, -2, -5, 1]))
    maj = p[1]
    if core.startswith("mac") and rng.random() < .6:
        maj, lev = rng.choice([("10", 9), ("10", 15), ("11", 0), ("12", 0), ("10", 4), ("10", 15)])
    if core.startswith("many") and rng.random() < .3:
        return "manylinux%s_%s" % (rng.choice(["1", "2010", "2014"]), arch)
    return "%s_%s_%s_%s" % (p[0], maj, lev, arch)


def templates(rng):
    out = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        t = rng.choice(PY) + "-" + rng.choice(ABI) + "-" + rng.choice(["PLATFORM", "PLATFORM", "any", plat(rng)])
        out.append(t)
    if rng.random() < .6:
        out.append("py3-none-any")
    return out


def wheel_tag(rng, core, tmpl):
    t = rng.choice(tmpl).split("-")
    py = [t[0]] if rng.random() < .85 else []
    while not py or rng.random() < .2:
        py.append(rng.choice(PY))
    abi = [t[1]] if rng.random() < .85 else []
    while not abi or rng.random() < .15:
        abi.append(rng.choice(ABI))
    pl = [near(rng, core) if t[2] == "PLATFORM" or rng.random() < .3 else t[2]]
    while rng.random() < .25:
        pl.append(near(rng, core))
    f = lambda xs: ".".join(rng.sample(sorted(set(xs)), len(set(xs))))
    return "%s-%s-%s" % (f(py), f(abi), f(pl))


CORES = ["manylinux_2_17_x86_64", "manylinux2014_aarch64", "manylinux_2_28_x86_64", "manylinux1_i686", "musllinux_1_2_x86_64", "macosx_12_0_x86_64", "macosx_11_0_arm64", "macosx_10_15_x86_64",
         "macosx_10_9_x86_64", "win_amd64", "win32", "macosx_13_0_arm64", "macosx_11_3_x86_64", "manylinux2010_x86_64"]


def wheels_cases(args):
    seed, n = args
    import random
    rng = random.Random(seed)
    out = []
    with vf.Driver() as d:
        for _ in range(n):
            core = rng.choice(CORES)
            tm = templates(rng)
            names = ["foo-1-%s.whl" % wheel_tag(rng, core, tm) for _ in range(8)]
            r = d.call("wheel_platform", core=core, tags=tm, names=names)
            ok = r.get("ok", {"scores": []})
            out.append({"kind": "wheels", "status": "ok" if "ok" in r else "bad", "tcore": core, "ttm": tm, "tnames": names, "core": codes(core), "templates": [codes(t) for t in tm],
                        "names": [codes(x) for x in names], "scores": [[] if s is None else [s] for s in ok["scores"]]})
    return out


def pick_cases(args):
    """Which file is really installed."""
    seed, n = args
    import random
    rng = random.Random(seed)
    out = []
    with vf.Scratch() as tmp, Origin() as o, vf.Driver(cwd=tmp) as d:
        d.ok("kd.new", path=tmp + "/build", **{"as": "bs"})
        for i in range(n):
            ix = pkgs.Index(o, "/p%d" % i)
            cores = rng.sample(CORES, rng.choice([1, 1, 2, 3]))
            core = cores[0]
            tm = templates(rng)
            d.ok("forest.new", path=tmp + "/forest%d" % i, **{"as": "forest"})
            # Pythons
            pnames = []
            for _ in range(rng.choice([1, 2, 4])):
                tag = ".".join(sorted({near(rng, rng.choice(cores)) for _ in range(rng.choice([1, 1, 2]))}))
                b = str(len(pnames) + 1)
                fn, data = pkgs.pybi("cpython", "3.11.2", tag, wheel_tags=tm, build=b, files=[("build", b.encode())])
                pnames.append(fn)
                ix.add("cpython", fn, data)
            # a Python that fits the first platform for the packages
            fn, data = pkgs.pybi("cpy", "1", core.replace("_11_3_", "_11_0_"), wheel_tags=tm)
            cpy = ix.add("cpy", fn, data)
            groups = []
            for g in range(4):
                names = []
                for _ in range(rng.choice([1, 2, 3, 4])):
                    b = str(len(names) + 1)
                    fn, data = pkgs.wheel("pkg%d" % g, "1", build=b, tag=wheel_tag(rng, core, tm), files=[("b%s.py" % b, b"")])
                    names.append(fn)
                    ix.add("pkg%d" % g, fn, data)
                groups.append(names)
            hashes = {p: ["sha256=" + u.split("sha256=")[1] for _, u, _ in es] for p, es in ix.projects.items()}
            for es in ix.projects.values():
                rng.shuffle(es)
            ix.publish()
            d.ok("db.new", forest="forest", build_store="bs", index=[ix.url], cache=tmp + "/cache%d" % i, **{"as": "db"})

            def env(py, pins, plats):
                bp = {"pybi": {"name": py[0], "version": py[1], "hashes": hashes[py[0]]},
                      "wheels": [[{"name": p, "version": "1", "hashes": hashes[p]}, {"provenance": "x", "requires-dist": [], "requires-python": "", "extras": []}] for p in pins], "marker-expressions": {}}
                return d.call("get_env", db="db", forest="forest", blueprint=bp, platforms=plats)
            r = env(("cpython", "3.11.2"), [], cores)
            got = 0
            if "ok" in r:
                got = int(open(os.path.dirname(os.path.dirname(r["ok"]["python"])) + "/build").read())
            out.append({"kind": "pybipick", "status": "bad" if "panic" in r else "ok", "tcore": cores, "cores": [codes(x) for x in cores], "tnames": pnames, "names": [codes(x) for x in pnames], "got": got, "why": str(r.get("err", ""))[:200]})
            for g, names in enumerate(groups):
                r = env(("cpy", "1"), ["pkg%d" % g], [core])
                got = 0
                if "ok" in r:
                    fs = [f for f in os.listdir(r["ok"]["lib_dirs"][0]) if f.startswith("b") and f.endswith(".py")]
                    got = int(fs[0][1:-3])
                out.append({"kind": "wheelpick", "status": "bad" if "panic" in r else "ok", "tcore": core, "ttm": tm, "core": codes(core), "templates": [codes(t) for t in tm], "tnames": names,
                            "names": [codes(x) for x in names], "got": got, "why": str(r.get("err", ""))[:200]})
            d.ok("drop", obj="db")
            for p in [p for p in o.files if p.startswith("/p%d/" % i)]:
                del o.files[p]
    return out


def kept_cases(args):
    """Which of several wheels that were built from one source distribution is used."""
    seed, n = args
    import random
    rng = random.Random(seed)
    out = []
    with vf.Scratch() as tmp, Origin() as o, vf.Driver(cwd=tmp) as d:
        for i in range(n):
            t = tmp + "/k%d" % i
            os.makedirs(t + "/state")
            ix = pkgs.Index(o, "/k%d" % i)
            plats = ["manylinux_2_%d_x86_64" % k for k in rng.sample([5, 6, 10, 12, 17, 20], rng.choice([2, 3, 3, 4]))]
            for p in plats:
                ix.add("cpython", *builds.python(tag=p))
            ix.add("foo", *builds.source("foo", "1", log=t + "/log", state=t + "/state", tag=rng.choice(["cp311-cp311-linux_x86_64", "cp311-cp311-linux_x86_64", "py3-none-linux_x86_64", "py3-none-any"])))
            ix.publish()
            d.ok("forest.new", path=t + "/bf", **{"as": "bf"})
            shared, bp, names = rng.random() < .5, None, []
            # newest first: only then there are several that fit
            order = sorted(plats, key=lambda p: -int(p.split("_")[2])) if rng.random() < .7 else []
            for k, core in enumerate(order + [rng.choice(plats) for _ in range(3)]):
                d.ok("forest.new", path=t + "/forest%s" % ("" if shared else k), **{"as": "forest"})
                d.ok("kd.new", path=t + "/build%d" % k, **{"as": "bs"})
                d.ok("db.new", forest="bf", build_store="bs", index=[ix.url], cache=t + "/cache", **{"as": "db"})
                bp = bp or d.ok("resolve", db="db", brief={"python": "cpython", "requirements": ["foo"]}, platforms=[core])
                r = d.call("get_env", db="db", forest="forest", blueprint=bp, platforms=[core])
                if "ok" not in r:
                    raise vf.Refused("no environment: %s" % str(r)[:800])
                name = r["ok"]["lib_dirs"][0].split("/")[-2]
                tm = ["cp311-cp311-PLATFORM", "py3-none-any", "py3-none-PLATFORM"]
                out.append({"kind": "keptpick", "status": "ok", "tcore": core, "ttm": tm, "core": codes(core), "templates": [codes(x) for x in tm], "tnames": list(names) + [name], "names": [codes(x) for x in names],
                            "new": codes(name), "got": names.index(name) + 1 if name in names else 0, "why": "one directory" if shared else "new directories"})
                if name not in names:
                    names.append(name)
                for x in ("db", "bs", "forest"):
                    d.ok("drop", obj=x)
    return out


def describe(x):
    if x["kind"] == "platform":
        return "platform %s: %s; answers for %s: %s" % (x["tcore"], x["status"], x["task"][:60], x["scores"][:60])
    if x["kind"] == "wheels":
        return "platform %s, Python tags %s: scores of %s: %s" % (x["tcore"], x["ttm"], x["tnames"], x["scores"])
    return "%s on %s %s among %s: %s %s" % (x["kind"], x["tcore"], x.get("ttm", ""), x["tnames"], x["tnames"][x["got"] - 1] if x["got"] else "none", x["why"])


def check_C14(c):
    inv = "".join("INVARIANT %s\n" % i for i in ("ReadBack", "CoreIsBest", "OlderRunsOnNewer", "RanksDecide"))
    c.model("PlatformModel", "INIT Init\nNEXT Next\n%sCHECK_DEADLOCK FALSE\n" % inv, min_states=1000)
    rng = c.rng
    cases = []
    cores = all_tags(ARCHS[:2] if c.quick else ARCHS, MARCHS[:5] if c.quick else MARCHS)
    ask = all_tags(ARCHS[:3], MARCHS)
    with vf.Driver() as d:
        for core in cores:
            mine = [t for t in ask if t.split("_")[0][:5] == core.split("_")[0][:5]]
            cases.append(case(d, core, rng.sample(mine, min(len(mine), c.n(50, 150))) + rng.sample(ask, 10) + [core]))
    k = len(cases)
    for r in vf.pparallel(wheels_cases, [("%s/w%d" % (c.seed, i), c.n(150, 2500)) for i in range(8)]):
        cases += r
    for r in vf.pparallel(pick_cases, [("%s/p%d" % (c.seed, i), c.n(12, 150)) for i in range(8)]):
        cases += r
    for r in vf.pparallel(kept_cases, [("%s/k%d" % (c.seed, i), c.n(4, 40)) for i in range(8)]):
        cases += r
    for x in cases:
        c.count(x["kind"])
    c.cov["picks_none"] = sum(1 for x in cases if x["kind"].endswith("pick") and x["got"] == 0)
    c.sample({k: v for k, v in cases[-1].items() if k in ("kind", "tcore", "ttm", "tnames", "got")})
    c.judge("PlatformJudge", cases, describe, chunk=16, timeout=850)
