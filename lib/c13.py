"""C13: the layout of installed wheels, and their entry points."""
import json, os, random, re, subprocess, warnings
import vf, pkgs, c12
from c15 import status
from uni import codes

warnings.simplefilter("ignore")
DISTS = [("foo", "foo"), ("Foo.Bar", "foo-bar"), ("foo_bar", "Foo.Bar"), ("a", "a"), ("foo__bar", "foo-bar")]
VERS = [("1.0", "1.0"), ("1.0", "1.0.0"), ("2.0rc1", "2.0-rc.1"), ("1.0+local.1", "1.0+local-1"), ("1!2.0", "1!2"), ("0.1.dev2", "0.1.dev2")]
STUBS = "/repo/src/trampolines/windows-trampolines/posy-trampoline-%s.exe"

FINDER = '''
import sys, json, os
class R:
    def __init__(self, mod, obj): self.m, self.o = mod, obj
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return R(self.m, self.o + [n])
    def __call__(self):
        print(json.dumps({"what": self.m + ":" + ".".join(self.o), "argv": sys.argv, "which": os.environ["WHICH"]}))
        return 7
import importlib.abc, importlib.machinery
class F(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] in ("foomod", "_pkg", "m", "Mod2"):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
    def create_module(self, spec): return None
    def exec_module(self, module):
        name = module.__name__
        def get(n):
            if n.startswith("__"): raise AttributeError(n)
            return R(name, [n])
        module.__getattr__ = get
sys.meta_path.insert(0, F())
'''

ENDS = ["import sys, json, os\nprint(json.dumps({'what': '%d', 'argv': sys.argv, 'which': os.environ['WHICH']}))\nsys.exit(7)\n",
        "from __future__ import annotations\nimport sys, json, os\nif True:\n\tprint(json.dumps({'what': '%d', 'argv': sys.argv, 'which': os.environ['WHICH']}))\n\tsys.exit(7)"]
ENDS += ["# -*- coding: latin-1 -*-\nimport sys, json, os\nassert len('\xe9') == 1\n" + ENDS[0].split("\n", 1)[1], "# \xe9: no encoding here, coding UTF-8\nassert len('\xe9') == 1\n" + ENDS[0]]
HEADS = [("#!python\n", 0), ("#!pythonw\n", 1), ("#!python\r\n", 0), ("#!python -E\n", 0), ("#!pythonw -s -E\n", 1)]


PADS = [0, 0, 120, 0, 360, 0, 2800, 8000]


def content(i):
    """File contents by number; 1000..1099 are scripts for Python."""
    if 1000 <= i < 1100:
        s = HEADS[i % len(HEADS)][0] + ENDS[(i // 7) % 4] % i
        # (some are long: 3, 9, 70 or 200 KB of comments before the code)
        s = s.replace("import sys", "# filler, no code at all\n" * PADS[i // 3 % len(PADS)] + "import sys", 1)
        return s.encode("latin-1" if "latin-1" in s else "utf-8")
    return [b"", b"\x7fELF\x00\x01", b"#!/bin/sh\nexit 0\n", b"#!pyth", b"# python %d\n" % i, b"#!/usr/bin/python\n", b"#! python\n", bytes(range(256)) * 50, b"\n#!python\n"][i % 9] + (b"" if i % 9 == 0 else b"%d" % i)


IDS = {content(i): i for i in list(reversed(range(1000)))}
INSTALLER = b"posy\n"


def script_name(rng):
    return rng.choice(["run", "run", "run-it", "run.it", "run_it", "Run2", "a b", "x", "tool"])


EPNAMES = ["cmd", "cmd", "my-cmd", "my.cmd", "c", "Cmd_2", "cmd3", "two words", "ünï"]
MODS = ["foomod", "foomod.sub", "foomod.sub.deep", "_pkg", "m", "Mod2.x1"]
OBJS = ["main", "main", "Cls.run", "m", "_x", "a.b.c", "run2"]


def ep_line(rng, used, sec):
    n = rng.choice([x for x in EPNAMES if x not in used] or ["z%d" % rng.randrange(10**6)])
    used.add(n)
    ws = lambda *a: rng.choice(("", " ") + a)
    obj = rng.choice(OBJS) if sec in ("console_scripts", "gui_scripts") or rng.random() < .6 else None
    s = ws() + n + ws(" ", "\t") + "=" + ws(" ", "  ") + rng.choice(MODS)
    if obj:
        s += ws() * (rng.random() < .2) + ":" + ws() * (rng.random() < .2) + obj
    if rng.random() < .15:
        s += ws() + rng.choice(["[extra]", "[a,b]", "[ x ]"])
    s += rng.choice(["", "", "", " ", "\t", "\r", " # note", " ; note", "#x = y:z"])
    return s


def ep_text(rng, evil):
    out, used = [], set()
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        sec = rng.choice(["console_scripts", "console_scripts", "gui_scripts", "pytest11", "other.group", "Console_Scripts", "console_script"])
        if rng.random() < .15:
            out.append(rng.choice(["", "# comment", "; comment", "  ", "#[console_scripts]"]))
        out.append(rng.choice(["[%s]", "[%s]", "[%s] ", " [%s]", "[%s] # c", "[%s]\r"]) % sec)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            out.append(ep_line(rng, used, sec) if sec in ("console_scripts", "gui_scripts") else ep_line(rng, set(), sec))
            if rng.random() < .1:
                out.append(rng.choice(["", "# x", "\t"]))
    if evil:
        bad = rng.choice(["nonsense", "cmd9 = ", "= foomod:main", "cmd9 = 1x:main", "cmd9 = foomod:main extra", "[", "[]", "cmd9 foomod:main", "cmd9 = foo-mod:main", "cmd9 = foomod:", "cmd9 = foomod:1", "cmd9 = :main", "cmd9 == foomod:main", "[x", "cmd9 = foomod:a:b"])
        out.insert(rng.randrange(len(out) + 1), bad)
    elif rng.random() < .05:
        out.insert(0, "early = foomod:main")
    return "\n".join(out) + rng.choice(["\n", "", "\n\n"])


def wheel(rng):
    dist, alt = rng.choice(DISTS)
    ver, altv = rng.choice(VERS)
    fn = "%s-%s-py3-none-any.whl" % (dist.replace("-", "_"), ver)
    dname = lambda: (dist if rng.random() < .8 else alt.replace("-", "_")) + "-" + (ver if rng.random() < .85 or "-" in altv else altv)
    di = dname() + ".dist-info"
    data = dname() + ".data"
    bad = rng.choice(["nodi", "twodi", "otherdi", "othervdi", "twodata", "otherdata", "nowheel", "nometa", "wversion", "wversion", "rip", "rip", "metaname", "metaversion", "category", "link", "wmal", "ep", "metabad", "clash"]) if rng.random() < .35 else ""
    ms = []
    f = lambda n, i=None, **k: dict({"name": n, "kind": "file", "data": rng.choice(list(IDS.values())[:60]) if i is None else i, "mode": rng.choice([0o644, 0o644, 0o755, 0o600])}, **k)
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        ms.append(f(rng.choice(["foo/__init__.py", "foo/a.py", "foo.py", "bar/data/x.txt", "foo/sub/deep/y.so", "foo-1.0.data.txt", "bin/z", "lib/q.py", "scripts/s", "x.dist-info.txt", "foo/run", "./foo/dot.py", "foo/../up.py", "foo//slash.py"])))
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        cat = rng.choice(["purelib", "platlib", "scripts", "scripts", "scripts", "data", "data"])
        if cat == "scripts":
            n = script_name(rng)
            ms.append(f("%s/scripts/%s" % (data, n if rng.random() < .9 else "sub/" + n), rng.randrange(1000, 1100) if rng.random() < .6 else None))
        else:
            ms.append(f("%s/%s/%s" % (data, cat, rng.choice(["foo/p.py", "q.py", "etc/conf.d/x", "share/man/y", "a b/c"]))))
    if rng.random() < .2:
        ms.append({"name": rng.choice([data + "/", data + "/scripts/", data + "/data/", data + "/purelib/", "foo/", di + "/", data + "/platlib/etc/"]), "kind": "dir"})
    seen = set()
    ms = [m for m in ms if not (m["name"] in seen or seen.add(m["name"]))]
    wv = rng.choice(["1.0", "1.0", "1.0", "1.9", "1.0.1"])
    rip = rng.choice(["true", "false"])
    if bad == "wversion":
        wv = rng.choice(["2.0", "0.9", "10.0", "1", "", "11.1", None, "x"])
    if bad == "rip":
        rip = rng.choice([None, "maybe", "", "yes", "truefalse"])
    wtext = ("Wheel-Version: %s\n" % wv if wv is not None else "") + "Generator: x\n" + ("Root-Is-Purelib: %s\n" % rip if rip is not None else "") + "Tag: py3-none-any\n"
    if bad == "wmal":
        wtext = rng.choice(["garbage", "Wheel-Version: 1.0\n" + wtext, wtext + "Root-Is-Purelib: true\n", "", "Wheel-Version 1.0\n"])
    mtext = pkgs.metadata(alt if rng.random() < .2 else dist, altv if rng.random() < .2 and "-" not in altv else ver)
    if bad == "metaname":
        mtext = pkgs.metadata("other", ver)
    if bad == "metaversion":
        mtext = pkgs.metadata(dist, ver + ".post9" if "+" not in ver else "9")
    if bad == "metabad":
        mtext = rng.choice(["", "Name: foo\n", mtext + "Name: foo\n", mtext.replace("2.1", "3.0"), mtext + "Requires-Dist: ???\n"])
    if bad == "nodi":
        di = rng.choice(["foo.dist_info", "foo", di + ".x", "dist"])
    if bad == "otherdi":
        di = rng.choice(["other-%s.dist-info" % ver, "foox-%s.dist-info" % ver, "%s.dist-info" % dist, ".dist-info"])
    if bad == "othervdi":
        di = "%s-%s.dist-info" % (dist, rng.choice(["9.9", ver + ".1" if "+" not in ver else "1", "x"]))
    meta = []
    t = lambda n, text: {"name": n, "kind": "file", "text": text, "mode": 0o644}
    if bad != "nowheel":
        meta.append(t(di + "/WHEEL", wtext))
    if bad != "nometa":
        meta.append(t(di + "/METADATA", mtext))
    meta.append(t(di + "/RECORD", ""))
    if bad == "ep" or rng.random() < .6:
        meta.append(t(di + "/entry_points.txt", ep_text(rng, bad == "ep")))
    if bad == "twodi":
        meta.append(t(rng.choice(["other-1.0.dist-info", dist + "-9.dist-info", "%s-%s.0.dist-info" % (dist, ver)]) + rng.choice(["/METADATA", "/WHEEL", "/x"]), mtext))
    if bad == "twodata":
        ms += [f(data + "/purelib/w.py"), f(rng.choice(["other-1.0.data", dist + "-9.data"]) + "/purelib/v.py")]
    if bad == "otherdata":
        ms = [m for m in ms if ".data/" not in m["name"]] + [f(rng.choice(["other-%s.data" % ver, dist + "-9.9.data", dist + ".data", ".data"]) + "/purelib/v.py")]
    if bad == "category":
        ms.append(f("%s/%s/x" % (data, rng.choice(["include", "lib", "Purelib", "script", "stdlib", "bin", "dist-info", "docs"]))))
    if bad == "link":
        ms.append({"name": "foo/link", "kind": "link", "target": rng.choice(["a.py", "foo.py", ".", "../../x"]), "data": 0, "mode": 0o777})
    if bad == "clash":
        ms += [f("%s/purelib/foo.py" % data), f("foo.py")]
    rng.random() < .5 and rng.shuffle(ms)
    ms = meta + ms if rng.random() < .3 else ms + meta
    if rng.random() < .1:
        rng.shuffle(ms)
    return fn, ms


def raw(m):
    return m["text"].encode() if "text" in m else m["target"].encode() if m["kind"] == "link" else b"" if m["kind"] == "dir" else content(m["data"])


def observe(dest, tools, ids):
    """The tree, with what the programs in bin do."""
    tree = c12.snapshot(dest)
    out = []
    for r, k, i, e, t in tree:
        p = os.path.join(dest, *r)
        if k == "file":
            data = open(p, "rb").read()
            i = ids.get((r[-1], data), ids.get(data, -1))
            if r[0] == "bin" and (i == -1 or i >= 9000):
                k, t, i = launch(p, data, tools)
        out.append({"path": [codes(x) for x in r], "kind": k, "data": i, "exec": e, "target": codes(t)})
    return out, ["/".join(r) + ("/" if k == "dir" else "*" if e else "") for r, k, i, e, t in tree]


def launch(p, data, tools):
    exe = p.endswith(".exe")
    args = ["one", "two words", "", "-x"]
    env = {"PATH": "/usr/bin:/bin", "POSY_PYTHON": tools + "/py", "POSY_PYTHONW": tools + "/pyw", "PYTHONPATH": tools, "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8"}
    if exe:
        which = [w for w in ("console", "gui") if data.startswith(open(STUBS % w, "rb").read())]
        if len(which) != 1:
            return "launch.exe", "unknown stub", 0
        cmd = [tools + ("/py" if which == ["console"] else "/pyw"), p] + args
    else:
        cmd = [p] + args
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, text=True, timeout=60, cwd=tools)
        j = json.loads(r.stdout)
    except (OSError, ValueError) as e:
        return "launch.exe" if exe else "launch", "does not run: %s" % str(e)[:100], 0
    a0 = p[:-4] if exe and ":" in j["what"] else p
    ok = r.returncode == 7 and j["argv"] == [a0] + args
    return "launch.exe" if exe else "launch", j["which"] + ":" + j["what"] + ("" if ok else " (with arguments %s, status %d)" % (j["argv"], r.returncode)), 0


def shard(args):
    seed, n = args
    rng = random.Random(seed)
    out = []
    with vf.Scratch() as tmp, vf.Driver(cwd=tmp) as d:
        tools = tmp + "/tools"
        os.mkdir(tools)
        open(tools + "/sitecustomize.py", "w").write(FINDER)
        for w, n_ in (("py", "console"), ("pyw", "gui")):
            open(tools + "/" + w, "w").write("#!/bin/sh\nWHICH=%s exec /usr/bin/python3 \"$@\"\n" % n_)
            os.chmod(tools + "/" + w, 0o755)
        for i in range(n):
            fn, ms = wheel(rng)
            mods = {"link": 0o120777, "dir": 0o40755}
            data = pkgs.zip_bytes([(m["name"], raw(m), mods.get(m["kind"], 0o100000 | m.get("mode", 0o644))) for m in ms])
            open(tmp + "/w.whl", "wb").write(data)
            dest = tmp + "/dest%d" % i
            os.mkdir(dest)
            r = d.call("unpack", kind="wheel", name=fn, file=tmp + "/w.whl", dest=dest)
            ids = dict(IDS)
            ids[("INSTALLER", INSTALLER)] = 9000
            for k, m in enumerate(ms):
                if "text" in m:
                    m["data"] = 9001 + k
                    ids[(m["name"].rsplit("/", 1)[-1], m["text"].encode())] = 9001 + k
                elif m["kind"] == "file" and m["data"] >= 1000:
                    ids.setdefault(("", ""), 0)
            for m in ms:
                if m["kind"] == "file" and 1000 <= m["data"] < 9000 and "/scripts/" not in m["name"]:
                    ids[content(m["data"])] = m["data"]
            tree, ttree = observe(dest, tools, ids) if "ok" in r else ([], [])
            out.append({"kind": "wheel", "tfile": fn, "file": codes(fn), "status": status(r), "why": str(r.get("err", r.get("panic", "")))[:200], "tree": tree, "ttree": ttree,
                        "tmembers": [m["name"] + (": %r" % m["text"] if "text" in m and not m["name"].endswith("RECORD") else "") for m in ms],
                        "tlaunch": ["/".join(map(uncode, e["path"])) + " -> " + uncode(e["target"]) for e in tree if e["kind"].startswith("launch")],
                        "members": [{"name": codes(m["name"]), "kind": m["kind"], "data": m.get("data", 0), "exec": bool(m.get("mode", 0) & 0o100) and m["kind"] == "file", "text": codes(m.get("text", "")), "head": codes(raw(m)[:12].decode("latin-1"))} for m in ms]})
            c12.shutil.rmtree(dest)
    return out


def uncode(s):
    return "".join(map(chr, s))


TOKENS = ["[console_scripts]", "[", "]", "\n", "a", "b1", "=", ":", ".", " ", "#", ";", "foo", "[x]", "\r", "-", "1"]


def entry_cases(d, texts):
    out = []
    for s, r in zip(texts, d.batch([{"op": "entry_points", "s": s} for s in texts])):
        ok = r.get("ok")
        es = []
        for sec, l in (ok or {}).items():
            es += [[codes(sec), codes(n), codes(m), codes(o or "")] for n, m, o in l]
        out.append({"kind": "entries", "tkind": repr(s), "s": codes(s), "status": status(r), "es": es, "tes": str(ok), "why": str(r.get("err", r.get("panic", "")))[:100]})
    return out


def describe(x):
    if x["kind"] == "entries":
        return "entry_points.txt %s: %s, %s" % (x["tkind"], (x["status"] + " " + x["why"]).strip(), x["tes"])
    return "installing %s with %s: %s, gives %s, launchers %s" % (x["tfile"], x["tmembers"], (x["status"] + " " + x["why"]).strip(), x["ttree"], x["tlaunch"])


def check_C13(c):
    cases = []
    for r in vf.pparallel(shard, [("%s/%d" % (c.seed, i), c.n(130, 2000)) for i in range(8)]):
        cases += r
    rng = c.rng
    texts = [ep_text(rng, rng.random() < .3) for _ in range(c.n(1500, 20000))]
    texts += ["".join(rng.choice(TOKENS) for _ in range(rng.randrange(1, 9))) for _ in range(c.n(1500, 20000))]
    texts += ["[console_scripts]\n" + "".join(rng.choice(TOKENS) for _ in range(rng.randrange(3, 9))) for _ in range(c.n(1500, 20000))]
    with vf.Driver() as d:
        cases += entry_cases(d, texts)
    for x in cases:
        c.count(x["kind"] + "_" + x["status"])
        c.count("launchers_run", len(x.get("tlaunch", [])))
    c.sample({k: v for k, v in cases[0].items() if k[0] == "t" and k != "tree"})
    c.judge("WheelLayoutJudge", cases, describe, chunk=16, timeout=850)
