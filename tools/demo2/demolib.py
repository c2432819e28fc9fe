"""Runs posy's own functions (driver.rs) from Python, with everything below the current directory."""
import base64, json, os, subprocess, sys
import builds, origin, pkgs  # noqa: F401
from origin import Origin  # noqa: F401

WORK = os.getcwd()
NATIVE = "manylinux_2_17_x86_64"


class Driver:
    def __init__(self, **env):
        r_cmd, w_cmd = os.pipe()
        r_rep, w_rep = os.pipe()
        e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": WORK, "LANG": "C.UTF-8", "NO_PROXY": "*", "POSY_VERIF_FDS": "%d,%d" % (r_cmd, w_rep)}
        e.update(env)
        self.p = subprocess.Popen([os.environ["POSY"]], env=e, cwd=WORK, pass_fds=(r_cmd, w_rep), stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=None if os.environ.get("LOUD") else subprocess.DEVNULL)
        os.close(r_cmd)
        os.close(w_rep)
        self.w, self.r = os.fdopen(w_cmd, "w"), os.fdopen(r_rep, "r")

    def call(self, op, **kw):
        kw["op"] = op
        self.w.write(json.dumps(kw) + "\n")
        self.w.flush()
        line = self.r.readline()
        if not line:
            print("posy died")
            sys.exit(1)
        return json.loads(line)

    def ok(self, op, **kw):
        r = self.call(op, **kw)
        check("ok" in r, "%s: %s" % (op, str(r)[:1500]))
        return r["ok"]


def check(good, what):
    if not good:
        print("BROKEN: " + what)
        sys.exit(1)


def unb(s):
    return base64.b64decode(s)


def b64(b):
    return base64.b64encode(b).decode()


class World:
    """One index (World.add, World.publish) and posy processes (World.posy) that share a cache and an environment directory."""

    def __init__(self, name="w"):
        self.o = Origin()
        self.index = pkgs.Index(self.o, "/i")
        self.dir = os.path.join(WORK, name)
        self.n = 0

    def add(self, project, file, attrs=None):
        return self.index.add(project, file[0], file[1], attrs)

    def publish(self):
        self.index.publish()

    def posy(self, shared=True, **env):
        self.n += 1
        at = self.dir if shared else "%s-%d" % (self.dir, self.n)
        d = Driver(**env)
        d.ok("forest.new", **{"as": "f", "path": at + "/forest"})
        d.ok("forest.new", **{"as": "bf", "path": at + "/build-forest"})
        d.ok("kd.new", **{"as": "bs", "path": "%s/build-store-%d" % (at, self.n)})
        self.db(d, at)
        return d

    def db(self, d, at=None):
        """start again from the index"""
        d.ok("db.new", **{"as": "db", "forest": "bf", "build_store": "bs", "cache": (at or self.dir) + "/cache", "index": [self.index.url]})

    def got(self, suffix):
        return [r for r in self.o.log if r.method == "GET" and r.path.endswith(suffix)]


def resolve(d, python, reqs, allow_pre=None, like=None, platforms=(NATIVE,)):
    brief = {"python": python, "requirements": list(reqs)}
    if allow_pre is not None:
        brief["allow_pre"] = allow_pre
    return d.call("resolve", db="db", brief=brief, like=like, platforms=list(platforms))


def pins(r):
    check("ok" in r, "resolving failed: " + str(r)[:1000])
    return {w[0]["name"]: w[0]["version"] for w in r["ok"]["wheels"]}


def get_env(d, blueprint, platforms=(NATIVE,), **kw):
    return d.call("get_env", db="db", forest="f", blueprint=blueprint, platforms=list(platforms), **kw)


def http():
    d = Driver()
    d.ok("http.new", **{"as": "h", "http": WORK + "/http", "hashed": WORK + "/hashed"})
    return d


def fetch(d, url, mode="Default", **kw):
    return d.call("http.request", http="h", url=url, mode=mode, **kw)
