"""Packages that are built from source: source distributions whose build backend does what it is told and records what it sees."""
import json, os
import pkgs

BACKEND = r'''
import base64, json, os, sys, time, io, zipfile
HERE = os.path.dirname(os.path.abspath(__file__))
CFG = json.load(open("verif.json"))

def note(hook, **kw):
    found = []
    for p in sys.path:
        if os.path.isdir(p) and os.path.basename(p) == "lib":
            found += [f[:-3] for f in os.listdir(p) if f.startswith("mod_") and f.endswith(".py")]
    home = os.path.dirname(os.path.dirname(os.environ.get("POSY_PYTHON") or "/x/x/x"))
    kw.update(hook=hook, py=int(open(os.path.join(home, "code")).read()), pkg=CFG["pkg"], pid=os.getppid(), at=time.time(), mods=sorted(found), python=os.environ.get("POSY_PYTHON"), cwd=os.getcwd(),
              packages=os.environ.get("POSY_PYTHON_PACKAGES"))
    fd = os.open(CFG["log"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o666)
    os.write(fd, (json.dumps(kw) + "\n").encode())
    os.close(fd)

def act(hook):
    """fail or die if told to, for the first so many times"""
    what = CFG["fail"].get(hook)
    if what:
        n = os.path.join(CFG["state"], CFG["pkg"] + "." + hook)
        k = int(open(n).read()) if os.path.exists(n) else 0
        open(n, "w").write(str(k + 1))
        if k < what[1]:
            note(hook + "!", what=what[0])
            if what[0] == "raise" or (what[0] == "half" and hook == "requires"):
                raise RuntimeError("told to fail")
            if what[0] in ("half", "junk"):
                return what[0]
            if what[0] == "exit":
                os._exit(0)
            if what[0] == "kill":
                os.kill(os.getpid(), 9)
            if what[0] == "killposy":
                os.kill(os.getppid(), 9)
                os.kill(os.getpid(), 9)
    time.sleep(CFG.get("slow", 0))

if CFG["asks"]:
    def get_requires_for_build_wheel(config_settings=None):
        act("requires")
        note("requires")
        return CFG["dynamic"]

def put(d, name, data):
    os.makedirs(os.path.join(d, os.path.dirname(name)), exist_ok=True)
    open(os.path.join(d, name), "wb").write(data)

if CFG["hook"]:
    def prepare_metadata_for_build_wheel(d, config_settings=None):
        note("prepare+")
        if act("prepare") == "half":
            put(d, CFG["distinfo"] + "/METADATA", b"")
            raise RuntimeError("told to fail")
        put(d, CFG["distinfo"] + "/METADATA", CFG["metadata"].encode())
        put(d, CFG["distinfo"] + "/WHEEL", b"Wheel-Version: 1.0\n")
        note("prepare")
        return CFG["distinfo"]

def build_wheel(d, config_settings=None, metadata_directory=None):
    note("wheel+", metadata_directory=metadata_directory, given=sorted(os.listdir(metadata_directory)) if metadata_directory else None)
    minor = open(os.path.join(os.path.dirname(os.path.dirname(os.environ["POSY_PYTHON"])), "minor")).read().strip()
    name = CFG["wheel_name"].replace("MINOR", minor)
    data = base64.b64decode(CFG["wheel"])
    what = act("wheel")
    if what == "junk":
        open(os.path.join(d, name), "wb").write(b"junk")
        return name
    if what == "half":
        open(os.path.join(d, name), "wb").write(data[:len(data) // 2])
        raise RuntimeError("told to fail")
    open(os.path.join(d, name), "wb").write(data)
    note("wheel", name=name, minor=minor)
    return name

# the same as an object, and deeper inside
class __legacy__:
    class inner:
        pass
for n in ["get_requires_for_build_wheel", "prepare_metadata_for_build_wheel", "build_wheel"]:
    if n in globals():
        for c in (__legacy__, __legacy__.inner):
            setattr(c, n, staticmethod(globals()[n]))
        if CFG["legacy"]:
            del globals()[n]
'''
DECOY = b"raise Exception('the wrong backend')\n"
# not the host's
PTH = b"import sys; sys.path[:] = [p for p in sys.path if 'dist-packages' not in p]\n"
SETUPTOOLS = [("setuptools/__init__.py", b""), ("setuptools/build_meta.py", BACKEND.encode()), ("no_host_packages.pth", PTH)]

# how a source distribution says how it's built: (pyproject.toml or None, other files); REQ is what it requires, STD that and setuptools
REAL = ("vbackend.py", BACKEND.encode())
SYSTEMS = {
    "own": ('[build-system]\nrequires = REQ\nbuild-backend = "vbackend"\nbackend-path = ["."]\n', [REAL]),
    "object": ('[build-system]\nbuild-backend = "vbackend:__legacy__"\nrequires = REQ\nbackend-path = ["."]\n', [REAL]),
    "inner": ('[project]\nname = "x"\n[build-system]\nrequires = REQ\nbuild-backend = \'vbackend:__legacy__.inner\'\nbackend-path = ["./"]\n[tool.x]\ny = 1\n', [REAL]),
    "module": ('[build-system]\nrequires = REQ\nbuild-backend = "vb.en.d"\nbackend-path = ["x/../src"]\n', [("src/vb/en/d.py", REAL[1]), ("src/vb/__init__.py", b""), ("vb.py", DECOY), ("x/y", b"")]),
    "order": ('build-system = { requires = REQ, build-backend = "vbackend", backend-path = ["a", "b"] }\n', [("a/vbackend.py", REAL[1]), ("b/vbackend.py", DECOY), ("vbackend.py", DECOY)]),
    "second": ('[build-system]\nrequires = REQ\nbuild-backend = "vbackend"\nbackend-path = ["a", "b"]\n', [("a/x.py", b""), ("b/vbackend.py", REAL[1]), ("vbackend.py", DECOY)]),
    "named": ('[build-system]\nrequires = STD\nbuild-backend = "setuptools.build_meta"\n', [("setuptools/build_meta.py", DECOY), ("setuptools/__init__.py", DECOY)]),
    "nobackend": ('[build-system]\nrequires = STD\n', [("setup.py", b"")]),
    "nosystem": ('[tool.x]\nbuild-system = 1\n[project]\nname = "a"\n', [("vbackend.py", DECOY)]),
    "empty": ('', []),
    "notoml": (None, [("sub/pyproject.toml", b"[")]),
    "outside": ('[build-system]\nrequires = REQ\nbuild-backend = "vbackend"\nbackend-path = ["OUTSIDE"]\n', [("x/y", b"")]),
    "outside2": ('[build-system]\nrequires = REQ\nbuild-backend = "vbackend"\nbackend-path = [".", "x/../.."]\n', [REAL, ("x/y", b"")]),
    "outside3": ('[build-system]\nrequires = REQ\nbuild-backend = "vbackend"\nbackend-path = [".", "../BESIDE"]\n', [REAL]),
    "syntax": ('[build-system]\nrequires = REQ\nbuild-backend = "vbackend\nbackend-path = ["."]\n', [REAL]),
    "latin": ('[build-system]\nrequires = REQ\nbuild-backend = "vbackend"\nbackend-path = ["."]\nx = "\xff"\n', [REAL]),
    "type": ('[build-system]\nrequires = "wheel"\nbuild-backend = "vbackend"\nbackend-path = ["."]\n', [REAL]),
    "type2": ('[build-system]\nrequires = REQ\nbuild-backend = ["vbackend"]\nbackend-path = ["."]\n', [REAL]),
    "noattr": ('[build-system]\nrequires = REQ\nbuild-backend = "vbackend:nothing"\nbackend-path = ["."]\n', [REAL]),
    "nomodule": ('[build-system]\nrequires = REQ\nbuild-backend = "nosuch"\n', [REAL]),
    "badreq": ('[build-system]\nrequires = ["p !"]\nbuild-backend = "vbackend"\nbackend-path = ["."]\n', [REAL]),
}
OWN = ["own", "own", "object", "inner", "module", "order", "second"]
USES_SETUPTOOLS = ["named", "nobackend"]
DEFAULT = ["nosystem", "empty", "notoml"]
BAD = ["outside", "outside2", "outside3", "syntax", "latin", "type", "type2", "noattr", "nomodule", "badreq"]


def source(name, version="1", log=None, state=None, requires=(), static=(), dynamic=(), hook=True, fail=None, tag="py3-none-any", wheel_meta=None, hook_meta=None,
           slow=0, extra=(), wheel_as=None, system="own", asks=True, outside="/x"):
    """(file name, bytes) of a source distribution."""
    import base64
    meta = pkgs.metadata(name, version, requires)
    wn, data = pkgs.wheel(name, version, files=[("mod_%s.py" % name, b"")] + list(extra), tag=tag.replace("MINOR", "0"), meta=wheel_meta or meta)
    n = pkgs.esc(name)
    cfg = {"pkg": "%s-%s" % (name, version), "log": log, "state": state, "dynamic": list(dynamic), "hook": hook, "asks": asks, "legacy": system in DEFAULT + ["nobackend", "object"], "metadata": hook_meta or meta,
           "distinfo": "%s-%s.dist-info" % (n, version), "wheel_name": wheel_as or "%s-%s-%s.whl" % (n, version, tag), "wheel": base64.b64encode(data).decode(), "fail": fail or {}, "slow": slow}
    toml, other = SYSTEMS[system]
    if toml is not None:
        toml = toml.replace("REQ", json.dumps(list(static))).replace("STD", json.dumps(list(static) + ["setuptools"])).replace("OUTSIDE", outside).replace("BESIDE", "%s-%s-beside" % (n, version))
        other = [("pyproject.toml", toml.encode("latin-1"))] + other
    return pkgs.sdist(name, version, other + [("verif.json", json.dumps(cfg).encode()), ("PKG-INFO", meta.encode())])


def code(version):
    a, b, c = version.split(".")
    return int(a) * 10000 + int(b) * 100 + int(c)


PYTHON = pkgs.FAKE_PYTHON.replace(b"PYTHONDONT", b"SETUPTOOLS_USE_DISTUTILS=stdlib PYTHONDONT")


def python(version="3.11.2", tag="manylinux_2_17_x86_64", name="cpython"):
    minor = version.split(".")[1]
    return pkgs.pybi(name, version, tag, python=PYTHON, files=[("minor", minor.encode()), ("code", b"%d" % code(version)), ("fakelib/distutils/__init__.py", b""), ("fakelib/distutils/sysconfig.py", b"")], wheel_tags=("cp3%s-cp3%s-PLATFORM" % (minor, minor), "py3-none-any", "py3-none-PLATFORM"))


def read_log(path):
    if not os.path.exists(path):
        return []
    return [json.loads(l) for l in open(path)]
