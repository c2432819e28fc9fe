"""C05, C09, C10: histories of requests against origins of every kind, judged by Http.tla."""
import collections, email.utils, hashlib, json, os, random, re, struct, threading, time
from urllib.parse import urljoin
import vf, origin
from origin import Reply

BASE = 1_700_000_000
EMPTY, FOREIGN = 1, -1


class Bodies:
    """Every body has a number; a page whose only file says which."""

    def __init__(self, rng):
        self.rng, self.made, self.ids, self.near = rng, {EMPTY: b""}, {b"": EMPTY}, {}

    def new(self):
        n = len(self.made) + 1
        pad = b"<!-- %s -->" % (b"%d." % n * self.rng.choice([0, 0, 1, 40, 3000, 30000]))
        b = b'<!DOCTYPE html><html><body><a href="x-%d.tar.gz">x</a>%s</body></html>' % (n, pad)
        self.made[n], self.ids[b] = b, n
        return n

    def nearly(self, n):
        """A body that no one has; its hash differs from that of body n in a single digit."""
        m = len(self.made) + 1
        self.made[m], self.near[m] = b"no one has this %d" % m, (n, self.rng.choice([0, 1, 7, 31, 32, 33, 62, 63, -1, -2]))
        return m

    def hash(self, n, alg):
        if n not in self.near:
            return hashlib.new(alg, self.made[n]).hexdigest()
        m, at = self.near[n]
        h = list(self.hash(m, alg))
        h[at] = "0" if h[at] != "0" else "1"
        return "".join(h)

    def id(self, data):
        return self.ids.get(data, FOREIGN)


def httpdate(t):
    return email.utils.formatdate(t, usegmt=True)


class Resource:
    """What one URL serves: d holds the current version, which changes."""

    def __init__(self, site, path, **d):
        self.site, self.path = site, path
        self.faults = collections.deque()
        self.cuts = collections.deque()
        self.d = dict(status=200, bodies={}, etag="", lm=-1, hdr={}, vary="", loc="", html=True, confirm="good", tag="", framing="length", lazy304=False)
        self.d.update(d)

    def headers(self, lang):
        """(the header fields as the specification has them, as they are sent)"""
        d, now = self.d, self.site.now
        h, out = dict(d["hdr"]), []
        cc = []
        for f, s in (("maxage", "max-age=%d"), ("nostore", "no-store"), ("nocache", "no-cache"), ("mustrev", "must-revalidate"), ("private", "private"), ("public", "public")):
            if f in h:
                cc.append(s % h[f] if "%" in s else s)
        if cc:
            out += [("Cache-Control", ", ".join(cc))] if len(cc) % 2 else [("Cache-Control", x) for x in cc]
        if "expires" in h:
            out.append(("Expires", httpdate(now + h["expires"]) if h["expires"] != -1 else "0"))
            h["expires"] = now + h["expires"] if h["expires"] != -1 else -1
        if "date" in h:
            out.append(("Date", httpdate(now - h["date"])))
            h["date"] = now - h["date"]
        if "age" in h:
            out.append(("Age", str(h["age"])))
        if d["vary"]:
            h["vary"] = d["vary"]
            out.append(("Vary", {"lang": "X-Lang", "star": "*"}[d["vary"]]))
        if d["etag"]:
            h["etag"] = self.etag(lang)
            out.append(("ETag", h["etag"]))
        if d["lm"] >= 0:
            h["lm"] = d["lm"]
            out.append(("Last-Modified", httpdate(d["lm"])))
        if d["loc"]:
            out.append(("Location", d["loc"].format(**self.site.bases)))
            h["loc"] = self.target()
        h["html"] = d["html"]
        out.append(("Content-Type", "text/html; charset=utf-8" if d["html"] else "application/json"))
        h["tag"] = d["tag"]
        out.append(("X-Tag", d["tag"]))
        return h, out

    def etag(self, lang):
        return self.d["etag"] % (lang if self.d["vary"] == "lang" else "")

    def url(self):
        return self.site.url(self.path)

    def target(self):
        l = self.d["loc"].format(**self.site.bases)
        if "[" in l or not l.startswith(("http:", "/", ".", "?", "#")) and ":" in l:
            return "?"
        return self.site.canonical(urljoin(self.url(), l))

    def body(self, lang):
        return self.d["bodies"][lang if self.d["vary"] == "lang" else ""]


class Site:
    def __init__(self, rng, tmp):
        self.rng, self.tmp, self.now = rng, tmp, BASE
        self.bodies = Bodies(rng)
        self.res = {}
        self.exs, self.lock, self.kill_at = [], threading.Lock(), None
        self.origins = [origin.Origin(lambda r, i=i: self.serve(i, r)) for i in (0, 1)]
        self.bases = {"A": self.origins[0].base, "B": self.origins[1].base, "a": self.origins[0].base[5:], "b": self.origins[1].base[5:]}
        self.events, self.d, self.lives, self.killed, self.hung = [], None, 0, None, False
        self.clock = tmp + "/clock"
        self.settime()
        self.start()

    def url(self, path):
        return self.bases[path[0]] + path[1:]

    def canonical(self, u):
        return u.split("#")[0]

    def add(self, path, **d):
        self.res[path] = Resource(self, path, **d)
        return self.res[path]

    def settime(self):
        with open(self.clock, "r+b" if os.path.exists(self.clock) else "wb") as f:
            f.write(struct.pack("<q", self.now - int(time.time())))
        self.when = time.time()

    def start(self):
        if self.d:
            self.d.kill()
        self.lives += 1
        self.d = vf.Driver(shim={"VERIF_CLOCK": self.clock, "VERIF_NOSLEEP": "1"}, env={"TMPDIR": self.tmp})
        self.d.patience = 40
        self.d.ok("http.new", http=self.tmp + "/http", hashed=self.tmp + "/hashed", **{"as": "h"})

    def close(self):
        self.d.kill()
        for o in self.origins:
            o.close()

    def serve(self, i, req):
        path = "AB"[i] + req.path
        r = self.res.get(path)
        lang, inm, ims = req.get("X-Lang") or "", req.get("If-None-Match") or "", req.get("If-Modified-Since")
        ims = int(email.utils.parsedate_to_datetime(ims).timestamp()) if ims else -1
        x = {"method": req.method, "url": self.url(path), "lang": lang, "inm": inm, "ims": ims, "h": {}}
        with self.lock:
            self.exs.append(x)
            if r is None:
                x.update(status=404, body=EMPTY)
                return Reply(404, body=b"")
            if r.faults:
                f = r.faults.popleft()
                if f in ("drop", "reset"):
                    x["fault"] = True
                    return Reply(drop=f == "drop", reset=f == "reset")
                n = self.bodies.new()
                x.update(status=f, body=n if req.method != "HEAD" else EMPTY, h={"html": True})
                return Reply(f, [("Content-Type", "text/html")], self.bodies.made[n])
            d = r.d
            h, out = r.headers(lang)
            x["h"] = h
            same = (inm == h["etag"] if inm and "etag" in h else ims >= h["lm"] if ims >= 0 and "lm" in h and not inm else False)
            if d["confirm"] == "never":
                same = False
            elif d["confirm"] == "always":
                same = bool(inm or ims >= 0)
            if same and req.method == "GET":
                if d["confirm"] == "bare":
                    h.pop("etag", None), h.pop("lm", None)
                    out = [p for p in out if p[0] not in ("ETag", "Last-Modified")]
                elif d["confirm"] == "other" and "etag" in h:
                    h["etag"] = '"other"'
                    out = [(k, '"other"' if k == "ETag" else v) for k, v in out]
                x.update(status=304, body=0)
                return Reply(304, out)
            n = r.body(lang) if d["status"] not in (204, 304) else EMPTY
            x.update(status=d["status"], body=n if req.method != "HEAD" else EMPTY)
            data = self.bodies.made[n]
            if d["framing"] == "mid" and r.cuts:
                x["cut"] = True
                return Reply(200, out, data, cut=int(r.cuts.popleft() * len(data)), chunked="mid")
            kw = {"length": {}, "chunked": {"chunked": True}, "mid": {"chunked": True}, "close": {"length": False}}[d["framing"]]
            if r.cuts and req.method == "GET" and d["status"] == 200 and len(data) > 1:
                k = r.cuts.popleft()
                x["cut"] = True
                if k == "kill":
                    def gone(p=self.d.p):
                        self.killed = p
                        p.kill()
                        p.wait()
                    return Reply(200, out, data, gate=(len(data) // 2, gone))
                return Reply(200, out, data, cut=int(k * len(data)), chunked=d["framing"] == "chunked")
            return Reply(d["status"], out, data, **kw)

    # ------------------------------------------------------------ operations
    def op(self, op="request", method="GET", url="", mode="default", lang="", reqmax=-1, hash=0, alg="sha256", **more):
        """hash: the number of a body; 0: none"""
        o = {"op": op, "method": method, "url": self.canonical(url), "mode": mode, "lang": lang, "reqmax": reqmax, "hash": hash, "alg": alg}
        self.settime()
        self.exs = []
        kw = {"mode": {"cached": "OnlyIfCached", "nostore": "NoStore"}[mode]} if mode != "default" else {}
        got = {"got": "err", "status": 0, "body": 0, "url": "*", "tag": ""}
        dead = False
        try:
            if op == "request":
                hs = ([["X-Lang", lang]] if lang else []) + ([["Cache-Control", "max-age=%d" % reqmax]] if reqmax >= 0 else [])
                r = self.d.call("http.request", http="h", url=url, method=method, headers=hs, **kw)
            elif op == "index":
                o["reqmax"] = 0
                o["dirs"] = {u: re.sub("[^/]*$", "", u.split("?")[0]) for u in [r.url() for r in self.res.values()] + [o["url"]]}
                r = self.d.call("simple_api", http="h", url=url)
            else:
                h = "%s=%s" % (alg, self.bodies.hash(hash, alg)) if hash else None
                r = self.d.call("http.get_hashed", http="h", url=url, hash=h, **{"as": "f"}, **kw)
                if "ok" in r:
                    r = self.readback()
        except vf.Died as e:
            dead = True
            r = {"err": "killed"}
            if self.killed is not self.d.p:
                r = {"panic": "died: %s" % e.rc}
                self.hung = self.hung or e.rc is None
            elif not any(x.get("cut") for x in self.exs):
                self.slow = True  # it was meant for the operation before
                return got
        self.why = r
        with self.lock:
            exs = list(self.exs)[:60]
        if "panic" in r:
            got["got"] = "panic"
        elif "ok" in r:
            r = r["ok"]
            got["got"] = "ok"
            if op == "request":
                if r["body_err"] is not None:
                    got["got"] = "err"
                got.update(status=r["status"], url=r["url"], body=self.bodies.id(vf.unb64(r["body"])), tag=next((v for k, v in r["headers"] if k == "x-tag"), ""))
                if method == "HEAD" and r["body"] == "":
                    got["body"] = EMPTY
            elif op == "index":
                if "none" in r:
                    got["got"] = "none"
                elif not r["artifacts"]:
                    got["body"] = EMPTY
                else:
                    m = re.match(r"(.*/)x-(\d+)\.tar\.gz$", r["artifacts"][0]["url"])
                    got.update(body=int(m.group(2)), url=m.group(1))
            else:
                got["body"] = self.bodies.id(vf.unb64(r["data"]))
        self.events.append({"op": o, "exs": exs, "res": got, "now": self.now})
        self.slow = time.time() - self.when > 4 or self.hung
        if dead:
            self.start()
        return got

    def readback(self):
        """The file, read from its beginning, and again in pieces from elsewhere."""
        ops = [{"r": "read_all"}, {"r": "end", "n": 0}, {"r": "read_all"}, {"r": "start", "n": 0}, {"r": "read", "n": 1}, {"r": "read_all"}, {"r": "end", "n": 0}]
        r = self.d.call("r.ops", r="f", ops=ops)
        self.d.call("drop", obj="f")
        if "ok" not in r or "err" in r["ok"][0]:
            return r if "ok" not in r else {"err": r["ok"][0]["err"]}
        data, x = vf.unb64(r["ok"][0]["data"]), r["ok"]
        same = (all("err" not in y for y in x) and x[1]["pos"] == x[6]["pos"] == len(data) and x[2]["data"] == "" and x[3]["pos"] == 0
                and vf.unb64(x[4]["data"]) + vf.unb64(x[5]["data"]) == data)
        return {"ok": {"data": vf.b64(data if same else b"?")}}

    def case(self):
        return {"events": self.events, "tlives": self.lives}


# ------------------------------------------------------------ random sites

PROFILES = [{}, {"maxage": 15}, {"maxage": 25}, {"maxage": 0}, {"maxage": 15, "mustrev": True}, {"nostore": True}, {"nostore": True, "maxage": 25}, {"nocache": True},
            {"nocache": True, "maxage": 25}, {"private": True, "maxage": 25}, {"public": True}, {"public": True, "maxage": 35}, {"expires": 15}, {"expires": 35}, {"expires": -50},
            {"expires": -1}, {"expires": 35, "date": 20}, {"expires": 35, "maxage": 5}, {"maxage": 25, "age": 10}, {"maxage": 25, "age": 100}, {"maxage": 25, "date": 100}, {"date": 0}]
STATUSES = [200] * 14 + [404, 404, 410, 403, 401, 203, 204, 400, 502, 504, 429]


def change(rng, r, what=None):
    """A new version of a resource."""
    d, site = r.d, r.site
    if what is None:
        what = rng.random()
    n = len(site.bodies.made) + 1
    langs = ["", "x", "y"] if d["vary"] == "lang" else [""]
    if what < .8 or not d["bodies"]:
        d["bodies"] = {l: site.bodies.new() if rng.random() < .93 else EMPTY for l in langs}
        if EMPTY in d["bodies"].values():
            d["html"] = False
    d["tag"] = "t%d" % n
    if d["etag"]:
        d["etag"] = (rng.choice(['"%d%%s"', '"%d%%s"', 'W/"%d%%s"']) % n)
    if d["lm"] >= 0:
        d["lm"] = site.now - rng.choice([0, 0, 50, 300, 1000])
    if rng.random() < .15:
        d["status"] = rng.choice(STATUSES)
    if rng.random() < .15:
        d["hdr"] = dict(rng.choice(PROFILES))


def page(rng, site, path):
    r = site.add(path, status=rng.choice(STATUSES), hdr=dict(rng.choice(PROFILES)), vary=rng.choice([""] * 6 + ["lang", "lang", "star"]), etag=rng.choice(["", "x", "x"]),
                 lm=rng.choice([-1, 0]), html=rng.random() < .9, confirm=rng.choice(["good"] * 8 + ["bare", "bare", "other", "never", "always"]), framing=rng.choice(["length"] * 3 + ["chunked", "close"]))
    change(rng, r, 0)
    return r


def link(rng, site, path, target):
    """A redirect, written in one of the ways there are."""
    host, p = target[0], target[1:]
    ways = ["{%s}%s" % (host, p), "{%s}%s" % (host, p), "{%s}%s" % (host.lower(), p), "{%s}%s#part" % (host, p)]
    if host == path[0]:
        ways += [p, p, p + "#x"]
        a, b = path[1:].split("/")[:-1], p.split("/")
        common = 0
        while common < len(a) and common < len(b) - 1 and a[common] == b[common]:
            common += 1
        rel = "../" * (len(a) - common) + "/".join(b[common:])
        ways += [rel or "./", "./" + rel, rel] if not rel.startswith("?") else []
    site.add(path, status=rng.choice([301, 302, 303, 307, 308]), loc=rng.choice(ways), hdr=dict(rng.choice([{}, {}] + PROFILES)), etag=rng.choice(["", "", "x"]),
             confirm=rng.choice(["good"] * 4 + ["bare"]), bodies={"": EMPTY if rng.random() < .5 else site.bodies.new()}, tag="r%d" % len(site.res))
    r = site.res[path]
    if r.d["etag"]:
        r.d["etag"] = '"%s%%s"' % path.replace("/", "")


FAULTS = ["drop", "drop", "reset", 500, 503, 520, 527, 500, 503]


def trouble(rng, r):
    k = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 9])
    same = rng.random() < .3
    f = rng.choice(FAULTS)
    r.faults.extend(f if same else rng.choice(FAULTS) for _ in range(k))


def someop(rng, site, r, weights):
    kind = rng.choices(["request", "index", "hashed", "file"], weights)[0]
    url = r.url() + (rng.choice(["", "", "", "#frag"]))
    mode = rng.choices(["default", "cached", "nostore"], [8, 3, 2])[0]
    if kind == "request":
        method = "HEAD" if mode == "nostore" and rng.random() < .4 else "GET"
        return dict(op="request", method=method, url=url, mode=mode, lang=rng.choice(["", "", "x", "y"]), reqmax=rng.choice([-1] * 5 + [0, 5, 15, 100]))
    if kind == "index":
        return dict(op="index", url=url)
    if kind == "file":
        return dict(op="hashed", url=url, mode=mode)
    end = r
    for _ in range(7):
        if end is None or not end.d["loc"]:
            break
        t = end.target()
        end = next((x for x in site.res.values() if x.url() == t), None)
    mine = list(end.d["bodies"].values()) if end is not None else []
    n = rng.choice(mine) if mine and rng.random() < .7 else rng.choice(list(site.bodies.made))
    if rng.random() < .12 and n not in site.bodies.near:
        n = site.bodies.nearly(n)
    return dict(op="hashed", url=url, hash=n, alg=rng.choice(["sha256", "sha256", "sha384", "sha512"]), mode=rng.choice(["default"] * 4 + ["cached"]))


def wander(rng, site, steps, weights, p):
    """A random history. p: how likely each kind of event is."""
    rs = list(site.res.values())
    fav = rng.sample(rs, min(len(rs), rng.choice([1, 2, 3])))
    last = None
    for _ in range(steps):
        for what, q in p.items():
            if rng.random() < q:
                r = rng.choice(fav)
                if what == "tick":
                    site.now += rng.choice([10, 10, 20, 30, 100])
                elif what == "change" and not r.d["loc"]:
                    change(rng, r)
                elif what == "fault":
                    trouble(rng, r)
                elif what == "cut":
                    r.cuts.append(rng.choice([0, .3, .5, .99, "kill"]))
                elif what == "restart":
                    site.start()
        o = last if last and rng.random() < .3 else someop(rng, site, rng.choice(fav if rng.random() < .9 else rs), weights)
        last = o
        site.op(**o)
        if site.slow:
            break


def cache_site(rng, tmp):
    s = Site(rng, tmp)
    for i in range(rng.choice([1, 2, 3])):
        page(rng, s, "%s/p%s/" % (rng.choice("AB"), i))
    if rng.random() < .5:  # URLs that differ little
        p = rng.choice(list(s.res))
        for q in rng.sample(["AB"[p[0] == "A"] + p[1:], p + "?v=1", p + "?v=2", p[:-1], p.replace("p", "P")], 2):
            page(rng, s, q)
    if rng.random() < .4:
        link(rng, s, "A/r/", rng.choice(list(s.res)))
    return s


def redirect_site(rng, tmp):
    s = Site(rng, tmp)
    for i in range(rng.choice([1, 2])):
        r = page(rng, s, rng.choice(["A/p%d/", "B/q/p%d/", "A/p/q/%d/"]) % i)
        if rng.random() < .6:
            r.d["status"] = 200
    ends = list(s.res)
    n = rng.choice([1, 2, 3, 5, 6, 7, 8])
    names = ["%s%s/" % (rng.choice("AAB"), rng.choice(["/r%d", "/x/r%d", "/x/y/r%d", "/r%d/s"]) % i) for i in range(n)]
    for i, p in enumerate(names):
        x = rng.random()
        t = names[i - 1] if i and x < .8 else rng.choice(names) if x < .88 else rng.choice(ends) if x < .97 else "A/nowhere/"
        link(rng, s, p, t)
        if rng.random() < .07:
            s.res[p].d["loc"] = rng.choice(["", "http://[bad/", "ftp:/x/", "mailto:x@y"])
    if n > 1 and rng.random() < .3:
        link(rng, s, names[0], rng.choice(names + ends))
    return s


def shard(args):
    seed, n, kind = args
    rng = random.Random(seed)
    out = []
    for _ in range(n):
        with vf.Scratch() as tmp:
            if kind == "cache":
                s = cache_site(rng, tmp)
                w, p, steps = [6, 2, 0, 2], {"tick": .5, "change": .3, "fault": .03, "cut": .06, "restart": .05}, rng.choice([8, 15, 25])
            elif kind == "redirects":
                s = redirect_site(rng, tmp)
                w, p, steps = [5, 3, 1, 1], {"tick": .2, "change": .1, "fault": .4, "cut": .02, "restart": .02}, rng.choice([5, 10, 15])
            else:
                s = cache_site(rng, tmp) if rng.random() < .7 else redirect_site(rng, tmp)
                w, p, steps = [0, 0, 9, 1], {"tick": .1, "change": .3, "fault": .1, "cut": .25, "restart": .1}, rng.choice([8, 15, 25])
            try:
                wander(rng, s, steps, w, p)
                out.append(s.case())
                if s.hung:
                    break
            finally:
                s.close()
    return out


# ------------------------------------------------------------ behaviours of the model

def behaviours(c, n, urls, steps):
    res = vf.tlc("HttpModel", config(urls, steps, "TRUE", "Tell"), workers=1, extra=["-simulate", "num=%d" % (n // 4), "-depth", str(steps + 1), "-seed", str(c.rng.randrange(1 << 30))], timeout=600)
    out = sorted(set(re.findall(r'<<\s*"TRACE",\s*"(.*?)",\s*"END"\s*>>', res.out, re.S)))
    if len(out) < n // 2 or "Error:" in res.out:
        raise vf.ToolError("no behaviours:\n" + res.out[-2000:])
    out = c.rng.sample(out, min(n, len(out)))
    return [json.loads(re.sub(r"\s*\n\s*", "", t).replace('\\"', '"')) for t in out]


def config(urls, steps, record="FALSE", inv="Truthful ByHash Offline Bounded LoopFails Able"):
    return "INIT Init\nNEXT Next\n%s\nCHECK_DEADLOCK FALSE\nCONSTANTS Urls={%s} Steps=%d Record=%s\n" % (
        "\n".join("INVARIANT " + i for i in inv.split()), ",".join('"%s"' % u for u in urls), steps, record)


MODEL = {"a": dict(hdr={"maxage": 15}, etag="x"), "b": dict(hdr={"nostore": True, "maxage": 45}), "c": dict(hdr={"nocache": True}, lm=0), "d": dict(hdr={"public": True}),
         "e": dict(hdr={"maxage": 25}, vary="lang", etag="x"), "r": dict(hdr={"maxage": 15}, loc="/a/", status=301), "s": dict(loc="/s/", status=307)}


def replay_shard(args):
    seed, hists = args
    rng = random.Random(seed)
    out = []
    for hist in hists:
        with vf.Scratch() as tmp:
            s = Site(rng, tmp)
            try:
                bodies = {}
                for u, d in MODEL.items():
                    r = s.add("A/%s/" % u, **d)
                    r.d["hdr"] = dict(d["hdr"]) if "hdr" in d else {}
                    version(s, r, u, 1, bodies)
                vers = {u: 1 for u in MODEL}
                for h in hist:
                    if h["do"] == "tick":
                        s.now += 10 * h["d"]
                    elif h["do"] == "change":
                        u = h["url"]
                        vers[u] += 1
                        version(s, s.res["A/%s/" % u], u, vers[u], bodies)
                    else:
                        o = dict(h["op"])
                        o["url"] = s.url("A/%s/" % o["url"])
                        if o["op"] == "hashed":
                            v = o["hash"] % 10
                            o["hash"] = bodies.get((h["op"]["url"], v)) or bodies.setdefault((h["op"]["url"], v), s.bodies.new())
                        s.op(**o)
                        if s.slow:
                            break
                out.append(s.case())
                if s.hung:
                    break
            finally:
                s.close()
    return out


def version(s, r, u, v, bodies):
    d = r.d
    n = bodies.get((u, v)) or bodies.setdefault((u, v), s.bodies.new())
    d["bodies"] = {"": n} if d["vary"] != "lang" else {l: s.bodies.new() for l in ("", "x")}
    d["tag"] = "%s%d" % (u, v)
    if d["etag"]:
        d["etag"] = '"%s%d%%s"' % (u, v)
    if d["lm"] >= 0:
        d["lm"] = s.now
    if u == "d":
        d["status"] = 404 if v % 2 == 0 else 200


# ------------------------------------------------------------ checks

def describe(x, want=None):
    m = re.search(r"at \|-> (\d+)", want or "")
    n = int(m.group(1)) if m else len(x["events"])

    def op(e):
        o = e["op"]
        return " ".join(str(v) for v in (o["op"], o["method"], o["mode"], o["url"], o["lang"], "max-age=%d" % o["reqmax"] if o["reqmax"] >= 0 else "", "hash of %d (%s)" % (o["hash"], o["alg"]) if o["hash"] else "") if v)

    def ex(x):
        s = "%s %s" % (x["method"], x["url"].split("/", 3)[3])
        if x["inm"] or x["ims"] >= 0:
            s += " if not %s %s" % (x["inm"], x["ims"])
        return s + " -> " + ("dropped" if x.get("fault") else "%d body %d%s %s" % (x["status"], x["body"], " (cut)" if x.get("cut") else "", json.dumps({k: v for k, v in x["h"].items() if k != "html" or not v})))

    e = x["events"][n - 1]
    before = [f for f in x["events"][:n - 1] if f["op"]["url"] == e["op"]["url"] or any(y["url"] == e["op"]["url"] for y in f["exs"])]
    return "at time %d, %s [%s] gave %s; earlier: %s" % (e["now"] - BASE, op(e), "; ".join(map(ex, e["exs"])), json.dumps(e["res"]),
                                                      " | ".join("%d: %s [%s] %s %s" % (f["now"] - BASE, op(f), "; ".join(map(ex, f["exs"])), f["res"]["got"], f["res"]["body"]) for f in before[-3:]))


def histories(c, kind, n):
    out = []
    for r in vf.pparallel(shard, [("%s/%s/%d" % (c.seed, kind, i), -(-n // 16), kind) for i in range(16)]):
        out += r
    tell(c, out)
    return out


def tell(c, cases):
    c.count("histories", len(cases))
    k = collections.Counter()
    for x in cases:
        for e in x["events"]:
            k["operations"] += 1
            k["exchanges"] += len(e["exs"])
            k["got " + e["res"]["got"]] += 1
            k["answered without contact"] += not e["exs"] and e["res"]["got"] == "ok"
            k["confirmed"] += any(y.get("status") == 304 for y in e["exs"])
            k["faults"] += sum(bool(y.get("fault")) for y in e["exs"])
            k["cut short"] += sum(bool(y.get("cut")) for y in e["exs"])
    for a, b in k.items():
        c.count(a.replace(" ", "_"), b)
    c.sample({"event": cases[0]["events"][0]})


def models(c, sets):
    for urls, q, t in sets:
        c.model("HttpModel", config(urls, c.n(q, t)), min_states=100, timeout=850)


def replayed(c, n, urls, steps):
    hists = behaviours(c, n, urls, steps)
    k = -(-len(hists) // 16)
    out = []
    for r in vf.pparallel(replay_shard, [("%s/%d" % (c.seed, i), hists[i:i + k]) for i in range(0, len(hists), k)]):
        out += r
    tell(c, out)
    return out


def check_C09(c):
    models(c, [("a", 5, 6), ("ar", 4, 5), ("bc", 5, 5), ("e", 4, 5)])
    decide(c, replayed(c, c.n(500, 6000), "abcder", 12) + histories(c, "cache", c.n(400, 6000)))
    midchunk(c)


def midchunk(c):
    """The known finding: chunked bodies that are cut within a chunk."""
    cases = []
    for cut in (.2, .5, .9):
        with vf.Scratch() as tmp:
            s = Site(c.rng, tmp)
            s.add("A/p/", framing="mid", hdr={"maxage": 15}, bodies={"": s.bodies.new()}, tag="t")
            s.res["A/p/"].cuts.append(cut)
            s.op(url=s.url("A/p/"))
            s.close()
            cases.append(s.case())
    decide(c, cases, lambda x: "chunk-cut" if x["events"][0]["res"]["got"] == "ok" and x["events"][0]["res"]["body"] == FOREIGN else None)


def check_C10(c):
    models(c, [("ds", 4, 5), ("ar", 4, 5)])
    decide(c, replayed(c, c.n(250, 3000), "rsda", 8) + histories(c, "redirects", c.n(600, 8000)))


def check_C05(c):
    models(c, [("d", 5, 6), ("bc", 4, 5)])
    decide(c, replayed(c, c.n(250, 3000), "abcd", 10) + histories(c, "files", c.n(600, 8000)))


def decide(c, cases, known=lambda x: None):
    bad, res = vf.judge("HttpJudge", cases, timeout=850)
    c.add_tlc(res)
    c.traces(len(cases))
    for i, want in sorted(bad.items()):
        c.violation(describe(cases[i], want) + " -- specification says: " + want, {"case": cases[i], "expected": want}, known_id=known(cases[i]))
