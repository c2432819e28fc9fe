"""C19: package names and artifact file names."""
import re
import vf, reqgen, pep440gen
from c15 import status
from uni import codes

EXTS = [".whl", ".pybi", ".tar.gz", ".zip", ".WHL", ".tar.bz2", ".tgz", ".whl.zip", ".zip.whl", ".egg", "", ".exe", ".tar.gz.pybi"]
TOKENS = ["foo", "1.0", "-", "_", ".", "py3", "none", "any", "1", ".whl", ".pybi", ".zip", ".tar.gz"]


def name(rng):
    return rng.choice(["foo", "Foo", "foo.bar", "foo_bar", "FOO", "a", "foo__bar", "foo-bar", "x1", "1x", "f.oo-b_ar", ".foo", "foo.", "fo o", ""] + ["foo", "foo_bar", "Foo.Bar"] * 4)


def version(rng):
    v = rng.choice(pep440gen.universe())
    s = pep440gen.render(v, rng if rng.random() < .3 else None)
    return s if rng.random() < .9 else rng.choice(["1.0.x", "", "1..0", "abc", "1.0-1", "99999999999.0", "4294967295"])


def tags(rng):
    return ".".join(rng.choice(["py3", "py2", "cp311", "none", "any", "abi3", "cp37", "manylinux_2_17_x86_64", "win_amd64", "macosx_11_0_universal2", "macosx_10_9_x86_64"]) if rng.random() > .03 else rng.choice(["", "é", "a b", "py3~", "+"])
                    for _ in range(rng.choice([1, 1, 1, 2, 3])))


def filename(rng):
    x = rng.random()
    ext = rng.choice(EXTS[:4]) if rng.random() < .93 else rng.choice(EXTS)
    parts = [name(rng), version(rng)]
    if ext in (".whl", ".pybi") or rng.random() < .1:
        if rng.random() < .35:
            parts.append(rng.choice(["1", "01", "1local", "007abc", "local", "1.2", "4294967295", "4294967296", "99999999999x", "", "1a_b", "0"]))
        n = 3 if ext == ".whl" else 1
        if rng.random() < .08:
            n = rng.choice([0, 1, 2, 3, 4])
        parts += [tags(rng) for _ in range(n)]
    return "-".join(parts) + ext


def canon(s, printed):
    """Is the version (and build number) of this name spelled the way posy prints them?"""
    ver = lambda f: f.rsplit("-", 1)[1] if re.search(r"\.(zip|tar\.gz)$", f) else f.split("-")[1]
    b = lambda f: re.match(r"\d*", f.split("-")[2]).group() if not re.search(r"\.(zip|tar\.gz)$", f) else ""
    n = lambda t: re.sub(r"\.(zip|tar\.gz)$", "", t)
    if re.match(r"0\d", b(s)):
        return False
    return n(ver(s)) == n(ver(printed)) or False


def file_cases(d, names):
    out = []
    for s, r in zip(names, d.batch([{"op": "artifact", "s": s} for s in names])):
        ok = r.get("ok")
        x = {"kind": "file", "text": s, "s": codes(s), "status": status(r), "why": str(r.get("err", r.get("panic", "")))[:100], "printed": [], "eq": False, "canon": False, "fields": {}}
        if ok:
            f = ok["fields"]
            bn = f.get("build_number")
            x.update(printed=codes(ok["str"]), ptext=ok["str"], eq=bool(ok["eq"]), canon=canon(s, ok["str"]),
                     fields={"kind": f.get("format", f["kind"]), "dist": codes(f["norm"]), "v": codes(f["version"]), "build": [] if bn is None else [codes(str(bn))],
                             "bname": codes(f.get("build_name", "")), "tags": [[codes(t) for t in f[k]] for k in {"wheel": ("py", "abi", "arch"), "pybi": ("arch",), "sdist": ()}[f["kind"]]]})
        out.append(x)
    return out


def describe(x):
    if x["kind"] == "name":
        return "package name %r: %s %r" % (x["text"], x["status"], x.get("ntext"))
    if x["kind"] == "pair":
        return "names %r and %r: eq=%s extra eq=%s hash eq=%s/%s cmp=%s in a set: %d" % (x["ta"], x["tb"], x["eq"], x["extraEq"], x["hashEq"], x["extraHashEq"], x["cmp"] - 1, x["set"])
    if x["kind"] == "file":
        return "file name %r: %s%s" % (x["text"], x["status"], " -> %r %s" % (x["ptext"], x["eq"]) if "ptext" in x else "")
    return "order of files %s" % (x["texts"],)


def check_C19(c):
    c.model("NamesModel", "CONSTANT N = %d\nINIT Init\nNEXT Next\nINVARIANT NormalFormsAreNames\nINVARIANT FilesReadBack\nCHECK_DEADLOCK FALSE\n" % c.n(4, 5), min_states=100)
    rng, t = c.rng, reqgen.Text(c.rng)
    names = list(reqgen.exhaustive("aB1-_.", c.n(4, 5))) + ["foo bar", "foo\n", "föö", " foo", "foo ", "a" * 80, "ſ", "K", "foo/bar", "a\0", "Ⅷ", "a--", "İ"]
    names += [t.mutate(n) for n in names[-600:]]
    # each normal form in every spelling, and near misses
    valid = [n for n in names if re.fullmatch(r"(?i)[a-z0-9]([a-z0-9._-]*[a-z0-9])?", n) and n.isascii()]
    groups = {}
    for n in valid:
        groups.setdefault(re.sub(r"[-_.]+", "-", n).lower(), []).append(n)
    pairs = [(a, b) for g in groups.values() for a in g[:12] for b in g[:12]]
    rng.shuffle(pairs)
    pairs = pairs[:c.n(3000, 30000)] + [(rng.choice(valid), rng.choice(valid)) for _ in range(c.n(2000, 20000))]
    files = [filename(rng) for _ in range(c.n(6000, 80000))]
    files += [t.mutate(f) for f in files[:c.n(2000, 20000)]]
    files += list(reqgen.exhaustive(TOKENS, c.n(3, 4)))
    files += ["foo-1.0-py3-none-any.whl", "foo-1.0.tar.gz", "foo-bar-1.0.tar.gz", "foo-1.0-1.tar.gz", "foo-1.0.post1.zip", "foo-1.0-cp311-cp311-macosx_11_0_universal2.whl", "foo-1.0+local.1-py3-none-any.whl",
              "-1.0.tar.gz", "foo-.tar.gz", "foo.tar.gz", ".tar.gz", ".whl", ".pybi", "foo-1.0.whl", "foo-1.0-py3-none-any", "foo-1.0-py3-none-any.whl ", "foo-1.0.tar.gz\n", "foo-1.0-any.pybi", "cpython-3.10b1-manylinux_2_17_x86_64.pybi", "a-1-1-1-1-1.whl", "a-1-1-1-1-1-1.whl"]
    bigdig = re.compile(r"\d{10}")
    with vf.Driver() as d:
        cases = []
        for n, r in zip(names, d.batch([{"op": "name", "s": n} for n in names])):
            cases.append({"kind": "name", "text": n, "s": codes(n), "status": status(r), "norm": codes(r.get("ok", {}).get("norm", "")), "given": codes(r.get("ok", {}).get("given", "")), "ntext": r.get("ok", {}).get("norm")})
        for (a, b), r in zip(pairs, d.batch([{"op": "name_eq", "a": a, "b": b} for a, b in pairs])):
            o = r.get("ok", {})
            cases.append({"kind": "pair", "ta": a, "tb": b, "a": codes(a), "b": codes(b), "status": status(r), "eq": o.get("eq", False), "extraEq": o.get("extra_eq", False), "hashEq": o.get("hash_eq", False),
                          "extraHashEq": o.get("extra_hash_eq", False), "cmp": o.get("cmp", -1) + 1, "set": o.get("set", 0)})
        fc = file_cases(d, files)
        cases += fc
        good = sorted({x["text"] for x in fc if x["status"] == "ok" and not bigdig.search(x["text"])})
        few = [f for f in good if re.match(r"(?i)foo[-._]?(bar)?[-._]1\.[01]", f)] or good
        for i in range(c.n(60, 600)):
            fs = [rng.choice(few if rng.random() < .8 else good) for _ in range(9)]
            rs = d.batch([{"op": "artifact_cmp", "a": a, "b": b} for a in fs for b in fs])
            m = [[rs[i * 9 + j]["ok"] for j in range(9)] for i in range(9)]
            cases.append({"kind": "order", "texts": fs, "files": [codes(f) for f in fs], "status": "ok", "cmp": [[x["cmp"] + 1 for x in row] for row in m], "eq": [[x["eq"] for x in row] for row in m]})
    c.cov["cases"] = {k: sum(1 for x in cases if x["kind"] == k) for k in ("name", "pair", "file", "order")}
    c.cov["accepted_file_names"] = len(good)
    c.sample({k: fc[0].get(k) for k in ("text", "status", "ptext")})
    c.judge("NamesJudge", cases, describe, timeout=850)
