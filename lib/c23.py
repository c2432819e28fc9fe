"""C23: core metadata."""
import json
import vf, reqgen
from c15 import status
from uni import codes

HEAD = [("Metadata-Version", ["2.1", "2.1", "2.1", "1.0", "2.3", "2", "2.99", "1.2"]), ("Name", ["foo", "Foo.Bar_baz", "a"]), ("Version", ["1.0", "01.2.post3", "1!2rc1", "2.0+local.1"])]
BADV = {"Metadata-Version": ["3.0", "3", "3.1", "x", "", "1!1.0", "10.0", "4"], "Name": ["", "-foo", "foo bar", "f\u00f6\u00f6"], "Version": ["", "one", "1.0 0", "1..0"]}
OTHER = [("Summary", "some thing: with colons; and more"), ("Classifier", "Framework :: Trio"), ("Author", "J\u00f6rg"), ("Description", "line\n        line two\n        |\n       three"), ("Home-page", ""), ("Keywords", "a,b,c"),
         ("X-Foo", "Name: bar"), ("Requires", "os"), ("Provides", "x"), ("Requires-External", "C"), ("Project-URL", "a, https://example.com/?a=b"), ("Dynamic", "Version"), ("Description-Content-Type", "text/x-rst"), ("License", "MIT\n\tand\n more")]
BODIES = ["", "\n", "\n\n", "body\n", "Name: other\nVersion: 9\n", "Requires-Dist: evil\n\nMetadata-Version: 7", "\tx\r\ny", " \n ", "\x00\x01", "no newline"]


def case_of(rng, s):
    return rng.choice([s, s, s, s.lower(), s.upper(), s.swapcase()])


class Doc:
    def __init__(self, rng, t, kind):
        self.rng, self.t, self.kind = rng, t, kind

    def fields(self):
        r, t = self.rng, self.t
        fs = [(n, r.choice(v)) for n, v in HEAD]
        if r.random() < .12:
            i = r.randrange(3)
            fs[i] = (fs[i][0], r.choice(BADV[fs[i][0]]))
        if self.kind == "wheel":
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                s = t.req().strip(" \t")
                fs.append(("Requires-Dist", t.mutate(s).replace("\n", " ") if r.random() < .04 else s))
            if r.random() < .5:
                fs.append(("Requires-Python", t.specs().strip(" \t") if r.random() < .93 else r.choice(["", "three", ">=", ">= 3.6 ,", "3.6"])))
            for _ in range(r.choice([0, 0, 1, 2])):
                fs.append(("Provides-Extra", r.choice(reqgen.EXTRAS) if r.random() < .95 else r.choice(["", "a b", "-x"])))
        else:
            vs = {"os_name": "posix", "python_version": "3.11", "x": "\u00e9\""}
            j = lambda d: json.dumps(d, ensure_ascii=r.random() < .8)
            v = j({k: vs[k] for k in r.sample(list(vs), r.randrange(4))})
            ps = {"scripts": "bin", "purelib": "lib/python3.11/site-packages", "data": ".", "stdlib": "lib/python3.11"}
            p = j({k: ps[k] for k in r.sample(list(ps), r.randrange(5))})
            if r.random() < .06:
                v = r.choice(["{", "[]", "{\"a\": 1}", "", "null", "{\"a\": \"b\"} x"])
            if r.random() < .06:
                p = r.choice(["{", "[\"bin\"]", "{\"a\": 1}", "", "{\"scripts\": \"/bin\"}", "{\"scripts\": \"../bin\"}"])
            fs += [("Pybi-Environment-Marker-Variables", v), ("Pybi-Paths", p)]
            for _ in range(r.choice([0, 1, 2, 3])):
                fs.append(("Pybi-Wheel-Tag", r.choice(["cp311-cp311-PLATFORM", "py3-none-any", "cp311-abi3-PLATFORM"])))
        fs += [r.choice(OTHER) for _ in range(r.choice([0, 0, 1, 2]))]
        x = r.random()
        if x < .08:
            fs.append(r.choice(fs))              # repeated
        elif x < .14:
            fs.pop(r.randrange(len(fs)))         # missing
        if r.random() < .7:
            # any order, but the repeated ones keep theirs
            keyed = {}
            for n, v in fs:
                keyed.setdefault(n, []).append(v)
            names = [n for n, _ in fs]
            r.shuffle(names)
            fs = [(n, keyed[n].pop(0)) for n in names]
        return fs

    def text(self):
        r = self.rng
        eol = r.choice(["\n", "\n", "\n", "\r\n", "\r"])
        out = []
        for n, v in self.fields():
            sep = r.choice([": ", ": ", ": ", ":", ":\t", ":  "])
            line = case_of(r, n) + sep + v.replace("\n", eol)
            if r.random() < .02:
                line += r.choice([" ", "\t"])
            if r.random() < .02:
                line = line.replace(" ", eol + "  ", 1)
            if r.random() < .015:
                line = r.choice([" " + line, line.replace(":", "", 1), n + " : x", ":" + line, "just text", "\u00fcml: x"])
            out.append(line)
        s = eol.join(out)
        x = r.random()
        if x < .3:
            s += eol
        elif x < .8:
            s += eol + eol + r.choice(BODIES)
        return s


def jpairs(s):
    """The meaning of a JSON object of texts, or None."""
    try:
        d = json.loads(s)
    except ValueError:
        return None
    if not isinstance(d, dict) or not all(isinstance(v, str) for v in d.values()):
        return None
    return d


def cases_of(d, docs):
    """docs: (kind, bytes)"""
    out = []
    for (kind, b), r in zip(docs, d.batch([{"op": "metadata", "kind": kind, "data": vf.b64(b)} for kind, b in docs], chunk=500)):
        ok = r.get("ok")
        s = b.decode("utf-8", "replace")
        x = {"kind": kind, "text": s, "s": codes(s), "status": status(r), "why": str(r.get("err", r.get("panic", "")))[:200]}
        if kind == "pybi":
            js = []
            unfolded = []
            for line in __import__("re").split(r"\r\n|\r|\n", s):
                if line[:1] in (" ", "\t") and unfolded:
                    unfolded[-1] += "\n" + line
                else:
                    unfolded.append(line)
            for line in unfolded:
                if ":" in line:
                    v = line.split(":", 1)[1].lstrip(" \t")
                    p = jpairs(v)
                    if p is not None and line.lower().startswith("pybi-paths"):
                        if any(q.startswith("/") or ".." in q.split("/") for q in p.values()):
                            p = None
                    if p is not None:
                        js.append({"s": codes(v), "pairs": [[codes(k), codes(q)] for k, q in p.items()]})
            x["jsons"] = js
        if ok:
            x.update(name=codes(ok["name"]), v=codes(ok["version"]))
            if kind == "wheel":
                x.update(reqs=[codes(q) for q in ok["requires_dist"]], rp=codes(ok["requires_python"]), extras=[codes(e) for e in ok["extras"]])
            else:
                pt = lambda m: [[codes(k), codes(v)] for k, v in m.items()]
                x.update(tags=[codes(t) for t in ok["tags"]], vars=pt(ok["vars"]), paths=pt(ok["paths"]))
            x["got"] = ok
        out.append(x)
    return out


def describe(x):
    return "metadata %r: %s %s" % (x["text"], x["status"], x.get("got", x["why"]))


def check_C23(c):
    inv = "".join("INVARIANT %s\n" % i for i in ("OrderDoesNotMatter", "CaseDoesNotMatter", "UnrelatedDoNotMatter", "BodyDoesNotMatter", "RepeatedRefused"))
    c.model("MetadataModel", "CONSTANT MaxLines = %d\nINIT Init\nNEXT Next\n%sCHECK_DEADLOCK FALSE\n" % (c.n(3, 4), inv), min_states=1000)
    rng = c.rng
    t = reqgen.Text(rng)
    docs = []
    for i in range(c.n(5000, 60000)):
        kind = "pybi" if i % 4 == 0 else "wheel"
        s = Doc(rng, t, kind).text()
        if rng.random() < .15:
            s = t_mut(rng, s)
        b = s.encode("utf-8")
        if rng.random() < .03:
            b = b.replace(b"J\xc3\xb6rg", b"J\xf6rg")
        docs.append((kind, b))
    lines = ["Metadata-Version: 2.1", "Name: foo", "Version: 1.0", "Requires-Dist: bar", "", " more", "nonsense"]
    import itertools
    for n in range(0, c.n(4, 6) + 1):
        for p in itertools.product(lines, repeat=n):
            if n > 4 and rng.random() > .2:
                continue
            for end in ("", "\n"):
                docs.append(("wheel", ("\n".join(p) + end).encode()))
    with vf.Driver() as d:
        cases = cases_of(d, docs)
    st = {}
    for x in cases:
        st[x["status"]] = st.get(x["status"], 0) + 1
    c.cov["answers"] = st
    c.count("documents", len(cases))
    c.sample({k: cases[1].get(k) for k in ("text", "status", "got")})
    c.judge("MetadataJudge", cases, describe, timeout=850)


def t_mut(rng, s):
    k = rng.randrange(len(s) + 1)
    x = rng.random()
    if x < .4 and s:
        k = min(k, len(s) - 1)
        return s[:k] + s[k + 1:]
    if x < .9:
        return s[:k] + rng.choice(["\n", "\r", " ", "\t", ":", "\n\n", "\n ", "x", "\u00e9", "\u2028", "\x0b", "\x0c", "\x85"]) + s[k:]
    ls = s.split("\n")
    rng.shuffle(ls)
    return "\n".join(ls)
