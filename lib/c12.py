"""C12: unpacking archives.  posy runs as an unprivileged user, and what it unpacks lies
several directories deep in a scratch directory of that user."""
import gzip, io, itertools, os, random, shutil, stat, tarfile, warnings, zipfile
import vf, pkgs
from c15 import status
from uni import codes

warnings.simplefilter("ignore")
NOBODY = 65534
DEEP = ["o1", "o2", "o3", "o4"]
# the universe of PathsModel
NAMES = ["a", "b", "a/b", "../a", "a/b/a", "b/a", "a/../b", "a/a"]
TARGETS = ["..", "../..", "a", "b", "../a", "a/..", ".", "b/.."]
PIECES = ["a", "b", "c", "lib", "x.py", "data-1.0", "é", "日本", "with blank", ".hidden", "..x", "...y", "_", "UPPER", "a.b.c"]
ODD = ["", "dot.", "blank ", "c:", "q?", "st*r", "back\\slash", "pi|pe", "<", "\"q\"", "ctl\x01", "tab\t", "del\x7f", "x" * 300, "NUL" * 0 + "con"]
FILEMODES = [0o644, 0o644, 0o600, 0o444, 0o755, 0o700, 0o744, 0o4755, 0o777, 0o666]


def content(i):
    return [b"", b"x", b"data %d\n" % i, bytes(range(256)) * 40, (b"%d " % i) * 9000, b"#!/bin/sh\nexit 0\n"][i % 6] + (b"|%d" % i if i % 6 else b"")


IDS = {content(i): i for i in reversed(range(200))}


def name(rng, evil, absdir):
    k = rng.choice([1, 1, 2, 2, 3, 4])
    ps = [rng.choice(PIECES[:rng.choice([3, len(PIECES)])]) for _ in range(k)]
    if evil:
        x = rng.random()
        if x < .5:
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                ps.insert(rng.randrange(len(ps) + 1) if rng.random() < .5 else 0, "..")
        elif x < .7:
            ps[rng.randrange(k)] = rng.choice(ODD)
        elif x < .8:
            return absdir + "/" + "/".join(ps)
        elif x < .85:
            return rng.choice(["", ".", "./", "/", "..", "../", "./.", "a/..", "../..", "...", "a//..//.."])
    s = "/".join(ps)
    if rng.random() < .2:
        s = rng.choice(["./" + s, s.replace("/", "//"), s.replace("/", "/./"), "a/../" + s if evil else "./" + s, s])
    return s


def target(rng, depth, evil, absdir, names):
    x = rng.random()
    if evil and x < .12:
        return rng.choice([absdir, absdir + "/canary", "/", "/proc/self/cwd", "a/../../b", "a/../../../b", "", "..\\..", "../" * (depth + 1), "../" * depth + "..", "b/../../" + "a", "./../.."])
    up = rng.randrange(depth + (2 if evil else 0)) if depth else 0
    n = rng.choice(names) if names and rng.random() < .6 else rng.choice(PIECES[:4])
    t = "../" * up + n.lstrip("./")
    if x > .85:
        t = rng.choice([".", "..", "../.." if depth > 2 or evil else ".", t + "/"])
    if evil and rng.random() < .25:
        t = rng.choice([t + "/..", "b/../" + t, t + "/../..", "./" + t, t.replace("/", "//")])
    return t


def archive(rng, links, absdir, evil):
    ms = []
    names = []
    for i in range(rng.choice([1, 2, 2, 3, 3, 4, 5, 7])):
        e = evil and rng.random() < .35
        n = name(rng, e, absdir)
        if names and rng.random() < .25:
            n = rng.choice(names)
            if rng.random() < .7:
                n = n + "/" + rng.choice(PIECES[:4]) if rng.random() < .5 or "/" not in n else n.rsplit("/", 1)[0]
        names.append(n)
        x = rng.random()
        if x < .2:
            ms.append({"name": n + "/", "kind": "dir"})
        elif x < (.5 if links else .2 if not evil else .27):
            if links:
                ms.append({"name": n, "kind": "link", "target": target(rng, n.count("/") + 1 - 1, e or evil and rng.random() < .3, absdir, names)})
            else:
                ms.append({"name": n, "kind": "odd", "target": rng.choice(names), "type": rng.choice([tarfile.SYMTYPE, tarfile.LNKTYPE, tarfile.FIFOTYPE, tarfile.CHRTYPE, tarfile.BLKTYPE])})
        else:
            ms.append({"name": n, "kind": "file", "data": IDS[content(rng.randrange(200))], "mode": rng.choice(FILEMODES)})
    return ms


def make_zip(rng, ms):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for m in ms:
            zi = zipfile.ZipInfo("x", (2020, 1, 1, 0, 0, 0))
            zi.filename = m["name"]
            zi.create_system = m.get("system", 3)
            zi.compress_type = rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])
            data = b""
            if m["kind"] == "dir":
                mode = 0o40755 if rng.random() < .8 else 0
            elif m["kind"] == "link":
                mode, data = 0o120777, m["target"].encode("utf-8", "surrogateescape")
            else:
                mode, data = (0o100000 if rng.random() < .8 else 0) | m["mode"], content(m["data"])
            zi.external_attr = mode << 16
            z.writestr(zi, data)
    return b.getvalue()


def make_targz(rng, ms):
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode="w", format=rng.choice([tarfile.PAX_FORMAT, tarfile.GNU_FORMAT])) as t:
        for m in ms:
            ti = tarfile.TarInfo(m["name"])
            ti.mtime = 1577836800
            data = b""
            if m["kind"] == "dir":
                ti.type, ti.mode = tarfile.DIRTYPE, 0o755
            elif m["kind"] == "odd":
                ti.type, ti.mode, ti.linkname = m["type"], 0o644, m["target"]
            else:
                ti.mode, data = m["mode"], content(m["data"])
                ti.size = len(data)
            t.addfile(ti, io.BytesIO(data))
    return gzip.compress(raw.getvalue(), 1)


def snapshot(root, skip=None):
    out = []

    def walk(p, rel):
        for e in sorted(os.scandir(p), key=lambda e: e.name):
            r = rel + [e.name]
            st = e.stat(follow_symlinks=False)
            if stat.S_ISLNK(st.st_mode):
                out.append((r, "link", 0, False, os.readlink(e.path)))
            elif stat.S_ISDIR(st.st_mode):
                if e.path != skip:
                    out.append((r, "dir", 0, False, ""))
                    walk(e.path, r)
            elif stat.S_ISREG(st.st_mode):
                out.append((r, "file", IDS.get(open(e.path, "rb").read(), -1), bool(st.st_mode & 0o100), ""))
            else:
                out.append((r, "other", 0, False, ""))
    walk(root, [])
    return out


class Box:
    """A directory to unpack into, deep inside directories that are watched."""

    def __init__(self, tmp):
        self.top = os.path.join(tmp, "top")
        self.dest = os.path.join(self.top, *DEEP, "dest")
        os.makedirs(os.path.dirname(self.dest))
        p = self.top
        for d in [None] + DEEP:
            p = os.path.join(p, d) if d else p
            open(os.path.join(p, "canary"), "w").write("x")
            os.makedirs(os.path.join(p, "lib"))
        for dp, dns, fns in os.walk(self.top):
            for n in [dp] + [os.path.join(dp, f) for f in fns]:
                os.chown(n, NOBODY, NOBODY)
        self.base = self.outside()

    def outside(self):
        return [(x, os.lstat(os.path.join(self.top, *x[0])).st_mtime_ns if x[1] != "dir" else 0) for x in snapshot(self.top, skip=self.dest)]

    def clear(self):
        shutil.rmtree(self.dest, ignore_errors=True)
        os.mkdir(self.dest)
        os.chown(self.dest, NOBODY, NOBODY)


def run(d, box, kind, fname, data, ms, links, broken=False, mapped=False):
    box.clear()
    f = os.path.join(os.path.dirname(box.top), "f")
    open(f, "wb").write(data)
    r = d.call("unpack", kind=kind, file=f, dest=box.dest, name=fname)
    tree = snapshot(box.dest)
    ok = box.outside() == box.base
    if not ok:
        box.__dict__["dirty"] = True
    cm = lambda m: {"name": codes(m["name"]), "kind": m["kind"], "data": m.get("data", 0), "exec": bool(m.get("mode", 0) & 0o100) and m.get("system", 3) == 3, "target": codes(m.get("target", ""))}
    return {"kind": kind, "file": fname, "tmembers": ["%(kind)s %(name)r" % m + (" -> %r" % m["target"] if "target" in m else "") for m in ms], "members": [cm(m) for m in ms], "links": links, "broken": broken, "mapped": mapped,
            "status": status(r), "why": str(r.get("err", r.get("panic", "")))[:200], "untouched": ok,
            "tree": [{"path": [codes(p) for p in r], "kind": k, "data": i, "exec": e, "target": codes(t)} for r, k, i, e, t in tree],
            "ttree": ["/".join(r) + (" -> " + t if k == "link" else "/" if k == "dir" else "*" if e else "") for r, k, i, e, t in tree]}


def damage(rng, data):
    x = rng.random()
    if x < .5:
        return data[:rng.randrange(1, len(data) - 30)] if len(data) > 40 else b""
    return data[:rng.randrange(len(data))]


def shard(args):
    seed, fixed, n = args
    rng = random.Random(seed)
    out = []
    with vf.Scratch() as tmp:
        os.chmod(tmp, 0o755)
        with vf.Driver(cwd=tmp, user=NOBODY) as d:
            box = Box(tmp)

            def go(*a, **k):
                nonlocal box
                out.append(run(d, box, *a, **k))
                if getattr(box, "dirty", False):
                    shutil.rmtree(box.top)
                    box = Box(tmp)
            for ms in fixed:
                go("zip", "x.zip", make_zip(rng, ms), ms, True)
            for i in range(n):
                kind = rng.choice(["zip", "zip", "targz", "targz", "pybi", "sdist", "wheel"])
                tar = kind == "targz" or kind == "sdist" and rng.random() < .6
                ms = archive(rng, not tar, box.top, rng.random() < .55)
                fname = {"pybi": "cpython-3.11.2-manylinux_2_17_x86_64.pybi", "wheel": "foo-1.0-py3-none-any.whl", "sdist": "foo-1.0.tar.gz" if tar else "foo-1.0.zip"}.get(kind, "x")
                if kind == "wheel":
                    cats = ["purelib", "platlib", "scripts", "data", "headers"]
                    for m in ms:
                        if rng.random() < .5:
                            m["name"] = "foo-1.0.data/%s/%s" % (rng.choice(cats[:4] + cats[:4] + cats), m["name"])
                    if rng.random() < .7:
                        for m in ms:
                            if m["kind"] == "link":
                                m.update(kind="file", data=1, mode=0o644)
                                del m["target"]
                    ms += [{"name": "foo-1.0.dist-info/METADATA", "kind": "raw", "raw": b"Metadata-Version: 2.1\nName: foo\nVersion: 1.0\n"},
                           {"name": "foo-1.0.dist-info/WHEEL", "kind": "raw", "raw": b"Wheel-Version: 1.0\nRoot-Is-Purelib: %s\nTag: py3-none-any\n" % rng.choice([b"true", b"false"])}]
                    if rng.random() < .5:
                        ms.append({"name": "foo-1.0.dist-info/entry_points.txt", "kind": "raw", "raw": ("[console_scripts]\n%s = foo:main\n" % rng.choice(["ok", "../x", "../../x", "../../../../x", "..", ".", "/abs", "a/b", "../purelib/x", box.top + "/z"])).encode()})
                    b = io.BytesIO()
                    with zipfile.ZipFile(b, "w") as z:
                        for m in ms:
                            zi = zipfile.ZipInfo("x")
                            zi.filename = m["name"]
                            zi.create_system = 3
                            zi.external_attr = {"link": 0o120777, "dir": 0o40755}.get(m["kind"], 0o100644) << 16
                            z.writestr(zi, m["raw"] if "raw" in m else m["target"].encode() if m["kind"] == "link" else b"" if m["kind"] == "dir" else content(m["data"]))
                    go(kind, fname, b.getvalue(), [m if m["kind"] != "raw" else dict(m, kind="file") for m in ms], False, mapped=True)
                    continue
                if not tar and rng.random() < .15:
                    for m in ms:
                        if m["kind"] != "link":
                            m["system"] = 0
                data = make_targz(rng, ms) if tar else make_zip(rng, ms)
                broken = rng.random() < .08 and len(data) > 60
                if broken:
                    data = data[:rng.randrange(len(data) - 22)]
                go(kind, fname, data, ms, not tar, broken=broken)
    return out


def describe(x):
    return "unpacking %s %s with members %s%s: %s, gives %s, outside unchanged: %s" % (x["kind"], x["file"], x["tmembers"], " (cut short)" if x["broken"] else "", (x["status"] + " " + x["why"]).strip(), x["ttree"][:30], x["untouched"])


def check_C12(c):
    cfg = "CONSTANT N=%d\nCONSTANT NN=%d\nCONSTANT NT=%d\nCONSTANT LinksLast=%s\nCONSTANT Tidied=%s\nINIT Init\nNEXT Next\nINVARIANT NoEscape\nINVARIANT LinksStay\nINVARIANT Faithful\nCHECK_DEADLOCK FALSE\n"
    c.model("PathsModel", cfg % (2, 8, 8, "TRUE", "TRUE"), min_states=20000)
    c.model("PathsModel", cfg % (3, c.n(4, 6), c.n(4, 6), "TRUE", "TRUE"), min_states=20000, timeout=850)
    for bad in (("FALSE", "TRUE"), ("TRUE", "FALSE")):
        if "is violated" not in vf.tlc("PathsModel", cfg % ((2, 8, 8) + bad)).out:
            raise vf.ToolError("the naive ways of unpacking should fail")
    mem = [{"name": n, "kind": "file", "data": 1, "mode": 0o644} for n in NAMES] + [{"name": n + "/", "kind": "dir"} for n in NAMES] + [{"name": n, "kind": "link", "target": t} for n in NAMES for t in TARGETS]
    fixed = [[dict(a)] for a in mem] + [[dict(a), dict(b)] for a in mem for b in mem]
    if c.quick:
        fixed = fixed[:80] + c.rng.sample(fixed[80:], 2500)
    else:
        fixed += [[dict(c.rng.choice(mem)) for _ in range(3)] for _ in range(20000)]
    # where a link may aim: every short way up and down, from several depths
    ways = [w for n in range(1, c.n(7, 8)) for w in itertools.product(["..", "a"] if c.quick else ["..", "a", "."], repeat=n)]
    fixed += [[{"name": "/".join(["d"] * k + ["l"]), "kind": "link", "target": "/".join(w)}] for w in ways for k in range(4)]
    cases = []
    for r in vf.pparallel(shard, [("%s/%d" % (c.seed, i), fixed[i::8], c.n(450, 4000)) for i in range(8)]):
        cases += r
    for x in cases:
        c.count(x["kind"] + "_" + x["status"])
    c.sample({k: x for k, x in cases[0].items() if k[0] == "t" or k == "kind"})
    c.judge("PathsJudge", cases, describe, chunk=16, timeout=850)
