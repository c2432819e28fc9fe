"""C22: requirements, specifiers, hashes and documents survive being written down."""
import itertools, json
import vf, uni, reqgen, pep440gen
from c15 import status
from uni import codes, parsed_marker

JSON_WS = ["", " ", "\n"]


def req_cases(d, jobs):
    """jobs: (kind of requirement, text)"""
    reps = d.batch([{"op": "req", "kind": k, "s": s} for k, s in jobs])
    out = []
    for (k, s), r in zip(jobs, reps):
        ok = r.get("ok")
        x = {"kind": "python" if k == "python" else "req", "type": k, "extraOK": k == "package", "s": codes(s), "text": s, "status": status(r), "why": str(r.get("err", r.get("panic", "")))[:200],
             "printed": [], "rt": False, "name": [], "extras": [], "specs": [], "marker": []}
        if ok is None and "JSON-RT" in x["why"]:
            x["status"] = "panic"
        if ok:
            q = ok["req"]
            x.update(printed=codes(ok["str"]), rt=bool(ok["reparse"] and ok["eq"] and ok["json_eq"]), name=codes(q["norm"]), extras=[codes(e) for e in q["extras_norm"]],
                     specs=[{"op": o, "v": codes(v)} for o, v in q["specs"]], marker=[parsed_marker(q["marker"])] if q["marker"] else [])
            x["ptext"] = ok["str"]
        out.append(x)
    return out


def simple_cases(d, kind, op, texts):
    reps = d.batch([{"op": op, "s": s} for s in texts])
    out = []
    for s, r in zip(texts, reps):
        ok = r.get("ok")
        x = {"kind": kind, "type": kind, "s": codes(s), "text": s, "status": status(r), "why": str(r.get("err", r.get("panic", "")))[:200], "printed": [], "rt": False, "specs": [], "marker": []}
        if ok:
            x.update(printed=codes(ok["str"]), rt=bool(ok["eq"]), ptext=ok["str"])
            if kind == "specs":
                x["specs"] = [{"op": o, "v": codes(v)} for o, v in ok["specs"]]
            if kind == "marker":
                x["marker"] = [parsed_marker(ok["ast"])]
        out.append(x)
    return out


def describe(x):
    return "%s %r: %s%s%s" % (x["type"], x["text"], x["status"], " -> %r" % x["ptext"] if "ptext" in x else "", "" if x["rt"] or x["status"] != "ok" else " (does not read back equal)")


# ---------------------------------------------------------------- documents
def T(what, s):
    return {"what": what, "s": codes(s)}


def pin_texts(p):
    return [T("name", p["name"]), T("version", p["version"]), T("text", "%d" % len(p["hashes"]))] + [T("hash", h) for h in p["hashes"]]


def by_meaning(ms):
    return sorted(ms)


def blueprint_texts(b, order=None):
    """All the texts of a blueprint, in an order that does not depend on how maps and sets are written."""
    out = pin_texts(b["pybi"]) + [T("text", "%d wheels" % len(b["wheels"]))]
    for pin, m in b["wheels"]:
        out += pin_texts(pin) + [T("text", m["provenance"]), T("text", "%d" % len(m["requires-dist"]))] + [T("req", r) for r in m["requires-dist"]] + [T("specs", m["requires-python"])]
        out += [T("name", e) for e in sorted(m["extras"], key=nrm)]
    squash = lambda s: "".join(ch for ch in s if ch not in " \t()").replace("'", '"')
    for m in sorted(b["marker-expressions"], key=squash):
        out.append(T("true" if b["marker-expressions"][m] else "false", m))
    return out


def nrm(s):
    import re
    return re.sub(r"[-_.]+", "-", s).lower()


def brief_texts(b):
    ap = b.get("allow_pre", [])
    if not isinstance(ap, str):
        # a set of names, whatever their spelling
        ap = [n for i, n in enumerate(sorted(ap, key=nrm)) if nrm(n) not in map(nrm, sorted(ap, key=nrm)[:i])]
    return [T("python", b["python"]), T("text", "%d" % len(b["requirements"]))] + [T("userreq", r) for r in b["requirements"]] + \
        ([T("text", ap)] if isinstance(ap, str) else [T("name", n) for n in ap])


def gen_pin(rng, t):
    return {"name": t.name() if rng.random() > .03 else "-x", "version": rng.choice(["1.0", "2.0rc1", "1!3.0.post1", "0.dev0", "1.0+local.2", "v01.2", "1.0-alpha-2"]) if rng.random() > .03 else "one",
            "hashes": ["sha256=%064x" % rng.getrandbits(256) for _ in range(rng.choice([0, 1, 1, 3]))] + (["sha256=xyz"] if rng.random() < .02 else []) + (["md5=%032X" % rng.getrandbits(128)] if rng.random() < .1 else [])}


def gen_blueprint(rng, t):
    ws = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        ex = {}
        for e in rng.sample(reqgen.EXTRAS, rng.choice([0, 0, 1, 2])):
            ex[e.lower().replace("_", "-").replace(".", "-")] = e
        ws.append([gen_pin(rng, t), {"provenance": rng.choice(["https://example.com/a-1.0-py3-none-any.whl#sha256=00", "file:///x y/\u00e9\"\\.whl"]),
                                     "requires-dist": [t.req() for _ in range(rng.choice([0, 1, 2]))], "requires-python": t.specs() if rng.random() < .5 else "", "extras": list(ex.values())}])
    ms = {}
    for _ in range(rng.choice([0, 1, 2])):
        m = t.marker(False, 1)
        k = "".join(ch for ch in m if ch not in " \t()").replace("'", '"')
        ms[k] = (m.strip(), rng.random() < .5)
    return {"pybi": gen_pin(rng, t), "wheels": ws, "marker-expressions": dict(ms.values())}


def gen_brief(rng, t):
    b = {"python": t.name() + t.ws() + (t.specs() if rng.random() < .7 else ""), "requirements": [t.req(False) for _ in range(rng.choice([0, 1, 2, 3]))]}
    if rng.random() < .03:
        b["python"] += "; os_name == 'a'"
    x = rng.random()
    if x < .3:
        b["allow_pre"] = ":all:"
    elif x < .7:
        b["allow_pre"] = [t.name() for _ in range(rng.choice([0, 1, 2]))]
    elif x < .73:
        b["allow_pre"] = ":none:"
    return b


def doc_cases(d, kind, docs):
    out = []
    reps = d.batch([{"op": kind + "_rt", "s": json.dumps(b, ensure_ascii=i % 2 == 0)} for i, b in enumerate(docs)])
    f = blueprint_texts if kind == "blueprint" else brief_texts
    for b, r in zip(docs, reps):
        x = {"kind": "doc", "type": kind, "text": json.dumps(b), "status": status(r), "why": str(r.get("err", r.get("panic", "")))[:200], "ins": f(b), "outs": [], "rt": False, "s": []}
        if x["status"] == "err" and "-RT" in x["why"]:
            x["status"] = "unreadable"
        if "allow_pre" in b and b["allow_pre"] == ":none:":
            x["ins"].append(T("name", ":none:"))
        if "ok" in r:
            o = r["ok"]
            x["outs"], x["ptext"] = f(json.loads(o["text"])), o["text"]
            x["rt"] = o["eq"] if "eq" in o else f(json.loads(o["text"])) == f(json.loads(o["text2"]))
        out.append(x)
    return out


def rt_shard(args):
    """Blueprints that posy itself made."""
    seed, n = args
    import random
    rng = random.Random(seed)
    docs = []
    with vf.Scratch() as tmp, uni.Origin() as o, vf.Driver(cwd=tmp) as d:
        d.ok("forest.new", path=tmp + "/forest", **{"as": "forest"})
        d.ok("kd.new", path=tmp + "/build", **{"as": "bs"})
        for i in range(n):
            gen = uni.Gen(rng, rng.choice(["markers", "extras", "prefer"]))
            u = gen.universe()
            ix, brief = uni.publish(gen, u, o, "/u%d" % i)
            d.ok("db.new", forest="forest", build_store="bs", index=[ix.url], cache=tmp + "/cache%d" % i, **{"as": "db"})
            rep = d.call("resolve", db="db", brief=brief, platforms=u["plats"], like=None)
            if "ok" in rep:
                docs.append(rep["ok"])
            d.ok("drop", obj="db")
        return doc_cases(d, "blueprint", docs)


def check_C22(c):
    c.model("MarkersModel", "CONSTANT Depth = 1\nINIT Init\nNEXT Next\nINVARIANT PrintReads\nCHECK_DEADLOCK FALSE\n", min_states=100)
    rng, t, td = c.rng, reqgen.Text(c.rng), reqgen.Text(c.rng, False)
    jobs = []
    for i in range(c.n(7000, 80000)):
        k = rng.choice(["package", "package", "user", "python"])
        s = t.req(k == "package" or rng.random() < .1) if k != "python" or rng.random() < .2 else t.name() + t.ws() + (t.specs() if rng.random() < .8 else "")
        if rng.random() < .3:
            s = t.mutate(s)
        jobs.append((k, s))
    jobs += [("package", s) for s in reqgen.exhaustive(reqgen.REQ_TOKENS, c.n(3, 4))]
    jobs += [("package", "foo" + s) for s in reqgen.exhaustive(reqgen.REQ_TOKENS, 3)]
    jobs += [(k, s) for k in ("package", "user", "python") for s in
             ["foo @ https://example.com/x", "foo@file:///x ; os_name=='a'", "foo[a] @ http://x", "foo ===1.0", "foo==1.0; extra=='a'", "foo; extra in 'a'", "foo (>=1)", "foo ( >= 1 , < 2 )", "foo()", "foo (>=1", "foo >=1)",
              "foo[]", "foo[ a , b ]", "foo[a,]", "foo[,a]", "foo[a b]", "", " ", "foo bar", "foo,bar", "foo>=1,", "foo>=1;", "foo;", "föö", "foo>=é", "foo[é]", "foo; os_name=='é'", "foo\n", "foo>=1\n", "foo #c", "-r x", "foo-", "_foo", "foo.", "foo>=1 <2", "foo>=1 and"]]
    specs = [t.specs() for _ in range(c.n(1500, 20000))]
    specs = [t.mutate(s) if rng.random() < .3 else s for s in specs] + list(reqgen.exhaustive(reqgen.SPEC_TOKENS, c.n(3, 4)))
    marks = [t.marker(rng.random() < .05, rng.choice([0, 1, 2])) for _ in range(c.n(2500, 30000))]
    marks = [t.mutate(s) if rng.random() < .3 else s for s in marks]
    vers = []
    uv = pep440gen.universe()
    for v in uv:
        vers += [pep440gen.render(v), pep440gen.render(v, rng), pep440gen.render(v, rng)]
    vers += [t.mutate(s) for s in vers] + [t.mutate(pep440gen.render(rng.choice(uv), rng)) for _ in range(c.n(500, 8000))]
    import re
    big = lambda s: re.search(r"\d{9}", s)
    vers = [s for s in vers if not big(s)]
    hashes = []
    for _ in range(c.n(800, 8000)):
        n = rng.choice([64, 64, 64, 62, 66, 32, 40, 30, 2, 0, 63, 128])
        s = rng.choice(["sha256", "sha256", "sha256", "md5", "sha512", "SHA256", "sha-1", "a/b", "..", "", "x y", "é", "sha3_256"]) + rng.choice(["=", "=", "=", ":", "", "=="]) + "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(n))
        hashes.append(t.mutate(s) if rng.random() < .2 else s)
    with vf.Driver() as d:
        cases = req_cases(d, jobs)
        cases += simple_cases(d, "specs", "spec_rt", specs)
        cases += simple_cases(d, "marker", "smarker", marks)
        cases += simple_cases(d, "version", "version", vers)
        cases += simple_cases(d, "hash", "hash", hashes)
        cases += doc_cases(d, "blueprint", [gen_blueprint(rng, td) for _ in range(c.n(500, 6000))])
        cases += doc_cases(d, "brief", [gen_brief(rng, td) for _ in range(c.n(500, 6000))])
    for r in vf.pparallel(rt_shard, [("%s/%s" % (c.seed, i), c.n(12, 150)) for i in range(8)]):
        cases += r
    kinds = {}
    for x in cases:
        kinds.setdefault(x["type"], {}).setdefault(x["status"], 0)
        kinds[x["type"]][x["status"]] += 1
    c.cov["answers"] = kinds
    c.sample({k: cases[0].get(k) for k in ("type", "text", "status", "ptext")})
    c.judge("ReqJudge", cases, describe, timeout=850)
