"""C21: environments in use; judged by Env.tla."""
import base64, json, os, random, subprocess
import vf, pkgs
from origin import Origin

PYTHON = "/usr/bin/python3"
WRAPPER = b"""#!/bin/bash
here="$(cd "${0%%/*}/%s" && pwd)"
export PYTHONHOME="$here" PYTHONDONTWRITEBYTECODE=1
exec -a "$0" %s%s "$@"
"""
NOBODY, USER, CWD, OLD, BUILTIN = 999, 1001, 1002, 1003, 1004
MODS = ["m1", "m2", "m3", "m4"]
_stdlib = []


def stdlib():
    """What a Python needs to start: (version, [(name, contents)])"""
    if not _stdlib:
        out = subprocess.run([PYTHON, "-S", "-c", """
import sys, os, json, runpy, re, importlib, importlib.util, importlib.machinery, site, keyword, linecache, tokenize, textwrap
d = os.path.dirname(os.__file__)
print(json.dumps([sys.version_info[:3], d, sorted({m.__file__ for m in sys.modules.values() if (getattr(m, "__file__", None) or "").startswith(d + "/")})]))
"""], stdout=subprocess.PIPE, check=True).stdout
        v, d, files = json.loads(out)
        names = {os.path.relpath(f, d) for f in files if f.endswith(".py")} | {"encodings/ascii.py", "encodings/latin_1.py", "encodings/cp437.py"}
        _stdlib.append((v, [(n, open(os.path.join(d, n), "rb").read()) for n in sorted(names) if os.path.basename(n) not in ("sitecustomize.py", "usercustomize.py")]))
    return _stdlib[0]


def b(text):
    return list(text.encode() if isinstance(text, str) else text)


def script(where=b""):
    return b"#!/bin/sh\necho \"$0\"\n" + where


LAUNCHED = """import sys, json
WHO = %d
def main(*a):
    ms = {}
    stray = "stray" in sys.modules
    for m in %r:
        try:
            ms[m] = __import__(m).WHO
        except ImportError:
            ms[m] = 999
    print(json.dumps([sys.executable, stray, ms]))
    return 0
"""


def world(seed):
    rng = random.Random("env:%s" % seed)
    out = []
    with vf.Scratch() as tmp, Origin() as o, vf.Driver(cwd=tmp) as d:
        (major, minor, micro), std = stdlib()
        pyver = "%d.%d.%d" % (major, minor, micro)
        lib = "lib/python%d.%d" % (major, minor)
        core = d.ok("native")[0]
        # the Python; from 3.11 on its site module is frozen, earlier ones read it from the file
        frozen = rng.random() < .5
        scripts = rng.choice(["bin", "bin", "Scripts", "x/bin"])
        mine = rng.sample(MODS, rng.choice([0, 0, 1]))
        atlib = [(m, rng.choice([lib, lib + "/dist-packages"])) for m in mine]
        files = [(lib + "/" + n, data) for n, data in std if n != "site.py"] + [("%s/%s.py" % (at, m), b"WHO = 0\n") for m, at in atlib]
        site = [data for n, data in std if n == "site.py"][0]
        odd = rng.random() < .1
        if odd:  # it's fine to refuse this one
            site = site.replace(b"\nENABLE_USER_SITE = None", b"\nENABLE_USER_SITE = (None)")
        elif rng.random() < .2:
            site = site.replace(b"\n", b"\r\n")
        progs0 = rng.sample(["x", "y", "z"], rng.choice([0, 0, 1]))
        files += [("%s/%s" % (scripts, p), script(), 0o100755) for p in progs0]
        fn, data = pkgs.pybi("cpython", pyver, core, wheel_tags=["py3-none-any"],
                             paths={"stdlib": lib, "purelib": lib + "/dist-packages", "platlib": lib + "/dist-packages", "scripts": scripts, "data": "."}, files=files + [("pyid", b"")])
        import io, zipfile
        z = zipfile.ZipFile(io.BytesIO(data))
        members = [(i.filename, z.read(i), i.external_attr >> 16) for i in z.infolist() if not i.filename.startswith(("lib/python/", "bin/"))]
        wrapper = WRAPPER % ("/".join([".."] * (scripts.count("/") + 1)).encode(), PYTHON.encode(), b"" if frozen else b" -X frozen_modules=off")
        data = pkgs.zip_bytes([m for m in members if not m[0].startswith(scripts + "/")] + [(lib + "/site.py", site), (lib + "/dist-packages/README", b"x"), (scripts + "/python", wrapper, 0o100755)]
                              + [("%s/%s" % (scripts, p), script(), 0o100755) for p in progs0])
        o.files["/f/" + fn] = (data, [])
        sha = lambda x: __import__("hashlib").sha256(x).hexdigest()
        o.files["/i/cpython/"] = (pkgs.index_page([(fn, o.base + "/f/" + fn + "#sha256=" + sha(data), {})]).encode(), [("Content-Type", "text/html")])
        bp = {"pybi": {"name": "cpython", "version": pyver, "hashes": ["sha256=" + sha(data)]}, "wheels": [], "marker-expressions": {}}
        # packages
        n = rng.choice([0, 1, 1, 2, 2, 3, 4])
        wheels, launchers = [], []
        everything = MODS + ["id_%d" % (k + 1) for k in range(n)] + ["um", "pm", "cm", "om", "usercustomize", "nothing"]
        for k in range(1, n + 1):
            mods = rng.sample(MODS, rng.choice([0, 1, 1, 2]))
            fs = [("id_%d.py" % k, (LAUNCHED % (k, everything)).encode())]
            for m in mods:
                how = rng.choice(["py", "py", "pkg", "plat", "pth"])
                who = b"WHO = %d\n" % k
                if how == "py":
                    fs.append((m + ".py", who))
                elif how == "pkg":
                    fs.append((m + "/__init__.py", who))
                elif how == "plat":
                    fs.append(("p%d-1.data/%s/%s.py" % (k, rng.choice(["platlib", "purelib"]), m), who))
                else:
                    fs += [("sub%d/%s.py" % (k, m), who), (rng.choice("azZ") + "_%s.pth" % m, b"# comment\nsub%d\nnot-there\n" % k)]
            ps = rng.sample(["x", "y", "z"], rng.choice([0, 0, 1, 2]))
            fs += [("p%d-1.data/scripts/%s" % (k, p), script()) for p in ps]
            ep = None
            if rng.random() < .6:
                ep = "[console_scripts]\nrun%d = id_%d:main\n" % (k, k)
                launchers.append(("run%d" % k, k))
            if rng.random() < .3:
                fs.append(("p%d-1.data/scripts/pys%d" % (k, k), b"#!python\nimport id_%d\nid_%d.main()\n" % (k, k)))
                launchers.append(("pys%d" % k, k))
            wfn, wdata = pkgs.wheel("p%d" % k, "1", files=fs, entry_points=ep)
            o.files["/f/" + wfn] = (wdata, [])
            o.files["/i/p%d/" % k] = (pkgs.index_page([(wfn, o.base + "/f/" + wfn + "#sha256=" + sha(wdata), {})]).encode(), [("Content-Type", "text/html")])
            bp["wheels"].append([{"name": "p%d" % k, "version": "1", "hashes": ["sha256=" + sha(wdata)]}, {"provenance": "x", "requires-dist": [], "requires-python": "", "extras": []}])
            wheels.append({"mods": ["id_%d" % k] + mods, "progs": ps + (["run%d" % k] if ep else []) + [l for l, j in launchers if j == k and l.startswith("pys")]})
        order = list(range(n))
        rng.shuffle(order)
        bp["wheels"] = [bp["wheels"][i] for i in order]
        forest = tmp + "/" + rng.choice(["forest"] * 6 + ["for est", "f\u00f6rest", "fo:rest"])
        d.ok("forest.new", path=forest, **{"as": "forest"})
        d.ok("kd.new", path=tmp + "/bs", **{"as": "bs"})
        d.ok("db.new", forest="forest", build_store="bs", index=[o.base + "/i/"], cache=tmp + "/cache", **{"as": "db"})
        r = d.call("get_env", db="db", forest="forest", blueprint=bp, platforms=[core], **{"as": "env"})
        if "err" in r and odd:
            return out
        if "ok" not in r:
            raise vf.Refused("no environment: %s" % r)
        # where it all is
        at = {}
        for root, ds, fs in os.walk(forest):
            if "pyid" in fs:
                at["py"] = root
            for f in fs:
                if f.startswith("id_") and f.endswith(".py"):
                    at[int(f[3:-3])] = os.path.dirname(root)
        env = {"python": b(at["py"] + "/" + scripts + "/python"), "pybin": b(at["py"] + "/" + scripts), "std": mine,
               "wheels": [{"bin": b(at[i + 1] + "/bin"), "lib": b(at[i + 1] + "/lib"), "mods": wheels[i]["mods"]} for i in order]}
        who = {i + 1: k + 1 for k, i in enumerate(order)}
        who[0] = 0
        # other things there
        home, cwd, oldsite = tmp + "/home", tmp + "/cwd", tmp + "/oldsite"
        shadow = {}
        usite = "%s/.local/%s/site-packages" % (home, lib)
        for p, w, ms in ((usite, USER, ["um", "usercustomize", "stray", "pth/pm"]), (cwd, CWD, ["cm"]), (oldsite, OLD, ["om"])):
            os.makedirs(p + "/pth")
            shadow[w] = ms + [rng.choice(MODS)]
            for m in shadow[w]:
                open("%s/%s.py" % (p, m), "w").write("WHO = %d\n" % w)
            open(p + "/a.pth", "w").write("pth\n" + ("import stray\n" if p == usite else ""))
        dirs = [("x/bin", []), ("", ["x"]), (".", ["x"])]
        base = [{"dir": env["pybin"], "progs": progs0 + ["python"]}] + [{"dir": e["bin"], "progs": wheels[i]["progs"]} for i, e in zip(order, env["wheels"])]
        for rel in (b"", b"rel"):
            os.makedirs(os.path.join(cwd.encode(), rel), exist_ok=True)
        olds = {b"": ["z"], b".": ["z"], b"rel": ["y"]}
        for name, ps in ((b"one", ["x", "y"]), (b"two words", ["y", "run1"]), ("\u00fcber".encode(), ["z", "python"]), (b"by\xff\xfetes", ["x", "z"])):
            olds[tmp.encode() + b"/" + name] = ps
        for p, ps in olds.items():
            full = os.path.join(cwd.encode(), p) if not p.startswith(b"/") else p
            os.makedirs(full, exist_ok=True)
            for q in ps:
                f = os.path.join(full, q.encode())
                open(f, "wb").write(script())
                os.chmod(f, 0o755)
        entries = list(olds) + [b"/usr/bin", b"/bin", b"/nowhere", env_bytes(env["pybin"]), b"~"]
        dirs = base + [{"dir": list(p), "progs": ps} for p, ps in olds.items()]
        for case in range(3):
            q = [rng.choice(entries) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            if rng.random() < .3:
                q = [e for e in q if e != b""]
            old = b":".join(q) if rng.random() < .9 else None
            if old is None:
                d.ok("setenv", k="PATH")
            else:
                d.ok("setenv", k="PATH", b64=base64.b64encode(old).decode())
            nested = rng.random() < .4
            for k in ("POSY_PYTHON", "POSY_PYTHONW", "POSY_PYTHON_PACKAGES"):
                d.ok("setenv", k=k, **({"v": oldsite} if nested else {}))
            r = d.call("env_vars", env="env")
            x = {"env": env, "dirs": dirs, "old": [] if old is None else [list(old)], "vars": [], "progs": [], "imports": [], "ran": [], "stray": False, "frozen": frozen,
                 "early": [m for m, p in atlib if p == lib], "user": [os.path.basename(m) for m in shadow[USER]], "cwd": shadow[CWD], "told": repr(old), "tnames": [bp["wheels"][k][0]["name"] for k in range(n)], "twhy": str(r)[:800]}
            out.append(x)
            if "ok" not in r:
                continue
            vs = {k: base64.b64decode(v) for k, v in r["ok"].items()}
            x["vars"] = [{"path": list(vs.get("PATH", b"")), "python": list(vs.get("POSY_PYTHON", b"")), "pythonw": list(vs.get("POSY_PYTHONW", b"")), "libs": list(vs.get("POSY_PYTHON_PACKAGES", b"")),
                          "others": sorted(set(vs) - {"PATH", "POSY_PYTHON", "POSY_PYTHONW", "POSY_PYTHON_PACKAGES"})}]
            if old is None:
                continue
            ev = {b"HOME": home.encode(), b"LANG": b"C.UTF-8"}
            if nested:
                ev.update({b"POSY_PYTHON": oldsite.encode(), b"POSY_PYTHON_PACKAGES": oldsite.encode()})
            ev.update({k.encode(): v for k, v in vs.items()})

            def go(*cmd):
                p = subprocess.run(["/usr/bin/env"] + list(cmd), env=ev, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
                return p.stdout, p.stderr, p.returncode
            for p in ("x", "y", "z"):
                s, _, rc = go(p)
                x["progs"].append({"name": p, "dir": [list(s.rstrip(b"\n")[:-len(p) - 1] if b"/" in s else b"")] if rc == 0 else []})
            runs = [("python", "-P", "-c", LAUNCHED % (0, everything) + "main()")] + [(l,) for l, k in launchers]
            for cmd in runs:
                s, e, rc = go(*cmd)
                try:
                    exe, stray, ms = json.loads(s)
                except ValueError:
                    exe, stray, ms = ("does not run: %s %s" % (s[:200], e[-300:]), False, {})
                x["ran"].append(b(exe))
                x["stray"] |= stray
                x["imports"] += [{"mod": m, "owner": who.get(w, w)} for m, w in sorted(ms.items())]
            x["imports"] = [json.loads(t) for t in sorted({json.dumps(m) for m in x["imports"]})]
    return out


def env_bytes(codes):
    return bytes(codes)


def explain(x):
    t = lambda q: bytes(q).decode(errors="backslashreplace")
    v = x["vars"][0] if x["vars"] else None
    return "environment of %s%s with $PATH %s: %s; programs %s, modules %s, interpreters %s" % (
        x["tnames"], " (the user's .pth files are run)" if x["stray"] else "", x["told"], {k: t(q) if k != "others" else q for k, q in v.items()} if v else x["twhy"], [(p["name"], [t(q) for q in p["dir"]]) for p in x["progs"]],
        [(m["mod"], m["owner"]) for m in x["imports"]], sorted({t(q) for q in x["ran"]}))


def check_C21(c):
    for s, u, want in (("TRUE", "FALSE", True),):
        c.model("EnvModel", "INIT Init\nNEXT Next\nINVARIANT Kept\nINVARIANT Programs\nINVARIANT Imports\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMaxPath = %d\nMaxWheels = 2\nSkipEmpty = %s\nUserSite = %s\n" % (c.n(4, 6), s, u), min_states=1000, timeout=800)
    stdlib()
    cases = [x for xs in vf.pparallel(world, ["%s-%d" % (c.seed, i) for i in range(c.n(64, 900))]) for x in xs]
    for x in cases:
        c.count("no search path" if not x["old"] else "refused" if not x["vars"] else "environments started, %d packages" % len(x["env"]["wheels"]))
        c.count("launchers and interpreters run", len(x["ran"]))
    c.sample({"old": cases[0]["told"], "imports": cases[0]["imports"][:6], "progs": len(cases[0]["progs"])}, 1)
    c.judge("EnvJudge", cases, lambda x: explain(x)[:1800],
            known=lambda x, want: "frozen-site" if "known: user site" in want else "no-packages-cwd" if "known: current directory" in want else None)
