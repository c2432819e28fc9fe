"""C20: package index pages."""
import html, random
import vf, pkgs
from c15 import status
from origin import Origin, Reply
from uni import codes

H = lambda rng: "%064x" % rng.getrandbits(256)
VERS = ["1.0", "1.0.0", "2.0", "1.1", "1.10", "1.2", "2.0rc1", "2.0.post1", "1!0.1", "0.dev0", "1.0+local.1", "1.0+a", "01.1", "3.0a1", "2.0.dev3"]


def fname(rng, proj):
    v = rng.choice(VERS)
    p = rng.choice([proj, proj.upper(), proj.replace("-", "_"), proj.replace("-", "."), proj])
    b = rng.choice(["", "", "", "1-", "2b-"])
    w = p.replace("-", "_")
    return rng.choice(["%s-%s.tar.gz" % (p, v), "%s-%s.zip" % (p, v),
                       "%s-%s-%spy3-none-any.whl" % (w, v, b), "%s-%s-%scp311.cp310-abi3-manylinux_2_17_x86_64.manylinux2014_x86_64.whl" % (w, v, b),
                       "%s-%s-%s%s.pybi" % (w, v, b, rng.choice(["manylinux_2_17_x86_64", "macosx_11_0_universal2", "macosx_10_9_universal2.win32", "win_amd64", "macosx_12_0_arm64"]))])


def junk(rng, proj):
    return rng.choice(["%s-1.0.exe" % proj, "%s.egg" % proj, "%s-1.0.tar.bz2" % proj, "%s-one.zip" % proj, "%s-1.0-py3-none.whl" % proj, "../", "..", "", "/", "?", "#", "index.html", "%s-1.0.tar.gz.asc" % proj,
                       "mailto:%s-1.0.zip" % proj, "javascript:x", "%s-1.0-py3-none-any.whl.metadata" % proj, "-1.0.zip", "%s-.zip" % proj, "foo%2", "%zz-1.0.zip"])


def enc(rng, s):
    """The same file name, some characters percent-encoded."""
    x = rng.random()
    if x < .5:
        return s.replace("+", "%2B")
    if x < .6:
        k = rng.randrange(len(s))
        return s[:k] + rng.choice(["%%%02x", "%%%02X"]) % ord(s[k]) + s[k + 1:]
    return s


def href(rng, proj, fn):
    d = rng.choice(["", "", "", "./", "../", "../../files/", "/files/", "/a/../b/./", "sub dir/", "http://other.example/x/", "https://OTHER.example:8443/", "//cdn.example/y/", "../../../../up/", "a/b/", "../pkgs/%s/" % fn[:2], "HTTP://h.example/", "x:y/../"[0:0]])
    s = d + enc(rng, fn)
    x = rng.random()
    if x < .15:
        s += rng.choice(["?token=a/b&c=d", "?", "?x=y z"])
    x = rng.random()
    if x < .55:
        s += "#sha256=" + (H(rng) if rng.random() < .85 else H(rng).upper())
    elif x < .7:
        s += rng.choice(["#", "#md5=%032x" % rng.getrandbits(128), "#sha256=abc", "#sha256", "#egg=x", "#sha256=%s&x=1" % H(rng), "#SHA256=" + H(rng), "#sha512=%0128x" % rng.getrandbits(512), "#a b"])
    if rng.random() < .06:
        s = rng.choice([" " + s, s + "\n", "\t" + s + " ", s[:3] + "\n" + s[3:]])
    return s


def page(rng, proj, nmax=6):
    els = []
    if rng.random() < .5:
        els.append({"el": "meta", "name": ["pypi:repository-version"], "content": [rng.choice(["1.0", "1.0", "1.1", "1.9", "1.15"])] if rng.random() < .93 else [rng.choice(["2.0", "10.0", "2.1", "0.9"])]})
    if rng.random() < .2:
        els.append({"el": "meta", "name": [rng.choice(["generator", "pypi:other", "x"])], "content": ["2.0"]})
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        els.append({"el": "base", "href": [] if rng.random() < .2 else [rng.choice(["http://base.example/p/", "/newbase/", "sub/", "../", "//b2.example/q", "http://base.example/p/page.html?x#y", "./"])]})
    for _ in range(rng.randrange(nmax + 1)):
        els.append({"el": "a", "href": [] if rng.random() < .03 else [junk(rng, proj) if rng.random() < .2 else href(rng, proj, fname(rng, proj))],
                    "yanked": [rng.choice(["", "broken", "a < b & \"c\"", "é", "true", "false"])] if rng.random() < .25 else [],
                    "rp": [rng.choice([">=3.7", ">= 3.6, <4", "", "<3", "nonsense", "!=3.0.*"])] if rng.random() < .3 else []})
    rng.random() < .2 and els and els[-1]["el"] == "a" and els.append(dict(els[-1]))
    return els


def q(rng, s):
    s = s.replace("&", "&amp;")
    x = rng.random()
    if x < .2 and s and not any(ch in s for ch in " \t\n\"'=<>`"):
        return s
    if x < .45:
        return "'" + s.replace("'", "&#39;").replace("<", "&lt;") + "'"
    return '"' + s.replace('"', rng.choice(["&quot;", "&#34;", "&#x22;"])).replace(">", rng.choice([">", "&gt;"])) + '"'


def cs(rng, s):
    return rng.choice([s, s, s.upper(), s.capitalize()])


def tag(rng, name, attrs):
    sp = lambda: rng.choice([" ", " ", "\n", "  "])
    attrs = list(attrs)
    rng.random() < .3 and rng.shuffle(attrs)
    out = "<" + cs(rng, name)
    for k, v in attrs:
        out += sp() + cs(rng, k)
        if v != "" or rng.random() < .6:
            out += rng.choice(["=", "=", " = "]) + q(rng, v) if v != "" else '=""'
    if rng.random() < .3:
        out += sp() + rng.choice(["class=x", "rel=internal", "data-x='y'", "data-gpg-sig=true", "data-dist-info-metadata=\"true\"", "data-dist-info-metadata='sha256=%064x'" % 5])
    return out + rng.choice([">", " >"])


def render(rng, els):
    head, body = "", ""
    for e in els:
        if e["el"] == "meta":
            head += tag(rng, "meta", [("name", e["name"][0]), ("content", e["content"][0])])
        elif e["el"] == "base":
            head += tag(rng, "base", [("href", e["href"][0])] if e["href"] else [("target", "_blank")])
        else:
            a = tag(rng, "a", ([("href", e["href"][0])] if e["href"] else []) + [("data-yanked", y) for y in e["yanked"]] + [("data-requires-python", y) for y in e["rp"]])
            a += rng.choice(["text", "", "foo-9.9.tar.gz", "a &lt; b"])
            a += rng.choice(["</a>", "</a>", "</a>", "</A>", ""])
            if rng.random() < .2:
                a = rng.choice(["<p>%s</p>", "<div><b>%s</b></div>", "<ul><li>%s</ul>"]) % a
            body += a + rng.choice(["<br/>", "<br>\n", "\n", ""])
        if rng.random() < .08:
            x = rng.choice(["<!-- <a href=\"foo-7.0.zip\">x</a> -->", "<script>var x = '<a href=\"foo-7.1.zip\">';</script>"])
            if e["el"] == "a":
                body += x
            else:
                head += x
    x = rng.random()
    if x < .6:
        return rng.choice(["<!DOCTYPE html>\n", "", "<!doctype HTML>"]) + "<html><head>" + head + rng.choice(["<title>Links</title>", ""]) + "</head><body>" + rng.choice(["<h1>Links</h1>", ""]) + body + "</body></html>"
    if x < .8:
        return "<!DOCTYPE html>" + head + "<title>t</title>" + body
    return head + body


def T(els):
    f = lambda o: [codes(o[0])] if o else []
    return [dict({k: f(v) for k, v in e.items() if k != "el"}, el=e["el"]) for e in els]


def theirs(ais):
    o = lambda v: [] if v is None else [codes(v)]
    return [{"name": codes(a["name"]), "url": codes(a["url"]), "hash": o(a["hash"]), "yanked": [codes(a["reason"] or "")] if a["yanked"] else [], "rp": o(a["requires_python"])} for a in ais]


TYPES = ["text/html", "text/html", "text/html; charset=utf-8", "TEXT/HTML", "text/html;charset=UTF-8", None]
BADTYPES = ["application/vnd.pypi.simple.v1+json", "text/plain", "application/octet-stream", "application/xhtml+xml"]


def shard(args):
    seed, npages, nprojs = args
    rng = random.Random(seed)
    out = []
    seen = []

    def handler(req):
        seen.append(req.path)
        r = table.get(req.path)
        return r if r else Reply(404, body=b"none")
    table = {}
    with vf.Scratch() as tmp, Origin(handler) as o, vf.Driver(cwd=tmp) as d:
        def serve(path, els):
            """Puts a page there, perhaps behind redirects; returns the URL it finally comes from."""
            text = render(rng, els).encode()
            ty = rng.choice(TYPES)
            rep = Reply(200, [("Content-Type", ty)] if ty else [], text, chunked=rng.random() < .2)
            for k in range(rng.choice([0, 0, 0, 0, 1, 2])):
                nxt = rng.choice(["%s/moved%d/" % (path.rstrip("/"), k), "/elsewhere%s%d/page.html" % (path, k), path.rstrip("/") + "x%d" % k])
                loc = nxt if rng.random() < .5 else o.base + nxt
                table[path] = Reply(rng.choice([301, 302, 303, 307, 308]), [("Location", loc)])
                path = nxt
            table[path] = rep
            return o.base + path, text.decode()
        d.ok("http.new", http=tmp + "/http", hashed=tmp + "/hashed", **{"as": "h"})
        for i in range(npages):
            proj = rng.choice(["foo", "foo-bar", "a"])
            els = page(rng, proj, 5)
            url, text = serve("/s%d/%s/" % (i, proj), els)
            r = d.call("simple_api", http="h", url=o.base + "/s%d/%s/" % (i, proj))
            ok = r.get("ok")
            out.append({"kind": "page", "status": status(r), "why": str(r.get("err", r.get("panic", "")))[:200], "text": text, "turl": url, "url": codes(url), "els": T(els), "files": theirs(ok["artifacts"]) if ok else [],
                        "tfiles": [str(a) for a in ok["artifacts"]] if ok else []})
            table.clear()
        d.ok("forest.new", path=tmp + "/forest", **{"as": "forest"})
        d.ok("kd.new", path=tmp + "/build", **{"as": "bs"})
        for i in range(nprojs):
            norm = rng.choice(["foo", "foo-bar", "a"])
            ixs, urls, texts = [], [], []
            for k in range(rng.choice([1, 2, 2, 3])):
                root = "/i%d/%d/simple/" % (i, k)
                urls.append(o.base + root)
                x = rng.random()
                path = root + norm + "/"
                if x < .25:
                    ixs.append({"status": 404, "html": True, "url": codes(o.base + path), "els": []})
                    texts.append("404")
                elif x < .32:
                    st = rng.choice([403, 401, 410, 400, 502, 429, 300, 304, 302])
                    table[path] = Reply(st, [("Content-Type", "text/html")], b"<html><a href='foo-6.0.zip'>x</a></html>")
                    ixs.append({"status": st, "html": True, "url": codes(o.base + path), "els": []})
                    texts.append("status %d" % st)
                else:
                    els = page(rng, norm, 6)
                    url, text = serve(path, els)
                    ix = {"status": 200, "html": True, "url": codes(url), "els": T(els)}
                    if x > .96:
                        table[url[len(o.base):]].headers = [("Content-Type", rng.choice(BADTYPES))]
                        ix["html"] = False
                    ixs.append(ix)
                    texts.append(text)
            d.ok("db.new", forest="forest", build_store="bs", index=urls, cache=tmp + "/cache%d" % i, **{"as": "db"})
            del seen[:]
            sp = lambda: "".join(rng.choice(["-", "_", ".", "--"]) if ch == "-" else ch.upper() if rng.random() < .3 else ch for ch in norm)
            r = d.call("db.available", db="db", name=sp())
            ok = r.get("ok")
            x = {"kind": "project", "status": status(r), "why": str(r.get("err", r.get("panic", "")))[:200], "texts": texts, "turls": urls, "indexes": ixs, "groups": [], "again": True}
            if ok is not None:
                x["groups"] = [{"v": codes(v), "files": theirs(ais)} for v, ais in ok]
                x["tgroups"] = [[v, [a["name"] for a in ais]] for v, ais in ok]
                # the index changes in the meantime
                for p in list(table):
                    if rng.random() < .5:
                        del table[p]
                    else:
                        table[p] = Reply(200, [("Content-Type", "text/html")], b"<a href='%s-9.9.zip'>x</a>" % norm.encode())
                r2 = d.call("db.available", db="db", name=sp())
                x["again"] = r2.get("ok") == ok
            out.append(x)
            table.clear()
            d.ok("drop", obj="db")
    return out


def describe(x):
    if x["kind"] == "page":
        return "page at %s: %r: %s %s" % (x["turl"], x["text"], x["status"] + " " + x["why"], x["tfiles"])
    return "project on indexes %s: %r: %s %s, second lookup the same: %s" % (x["turls"], x["texts"], x["status"] + " " + x["why"], x.get("tgroups"), x["again"])


def check_C20(c):
    inv = "".join("INVARIANT %s\n" % i for i in ("Readable", "ReadsBack", "Idempotent", "NoDots", "SameHost"))
    c.model("UrlModel", "CONSTANT N = %d\nINIT Init\nNEXT Next\n%sCHECK_DEADLOCK FALSE\n" % (c.n(5, 6), inv), min_states=1000)
    cases = []
    for r in vf.pparallel(shard, [("%s/x%d" % (c.seed, i), c.n(350, 5000), c.n(70, 1000)) for i in range(8)]):
        cases += r
    for x in cases:
        c.count(x["kind"])
        c.count(x["kind"] + "_" + x["status"])
    c.sample({k: v for k, v in cases[1].items() if k in ("kind", "turl", "text", "tfiles")})
    c.judge("IndexJudge", cases, describe, chunk=16, timeout=850)
