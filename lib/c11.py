"""C11: lazily read remote files, judged by LazyFile.tla."""
import hashlib, json, random, re, threading
import vf, origin
from origin import Reply

WINDOW = 10_000


def spoil(data):
    return data[:-1] + bytes([data[-1] ^ 1]) if data else b"x"


class Served:
    """A file on a server that may get things wrong."""

    def __init__(self, rng, tmp, length, head="range", full="ok", wrongs=None, faults=0, where="direct", claim=None, hashed=True, p=0.0):
        self.rng, self.data, self.head, self.full = rng, bytes(rng.randrange(256) for _ in range(length)) if length < 4000 else rng.randbytes(length), head, full
        self.wrongs, self.p, self.where = wrongs or [], p, where
        self.claim = length if claim is None else claim
        self.reqs, self.fulls, self.heads, self.faults = [], 0, 0, faults
        self.origin = origin.Origin(self.serve)
        self.url = self.origin.base + ("/file" if where == "direct" else "/r%d/file" % where)
        self.hash = "sha256=" + hashlib.sha256(self.data).hexdigest() if hashed else None

    def serve(self, req):
        m = re.match(r"/r(\d+)/file$", req.path)
        if m and int(m.group(1)) > 0:
            n = int(m.group(1)) - 1
            return Reply(self.rng.choice([301, 302, 307, 308]), [("Location", self.rng.choice(["/r%d/file", "../r%d/file", self.origin.base + "/r%d/file"]) % n)], b"moved")
        L, rng = self.claim, self.rng
        if req.method == "HEAD":
            self.heads += 1
            if self.faults and self.heads <= self.faults:
                return Reply(rng.choice([500, 503]), []) if rng.random() < .5 else Reply(drop=True)
            if self.head == "range":
                if len(self.data) == 0:
                    return Reply(416, [("Content-Range", "bytes */%d" % L)])
                return Reply(206, [("Content-Range", "bytes 0-%d/%d" % (min(1, len(self.data) - 1), L))], length=min(2, len(self.data)))
            if self.head == "416":
                return Reply(416, [("Content-Range", rng.choice(["bytes */%d", "bytes 0-1/%d"]) % L)])
            if self.head == "none":
                return Reply(200, [], length=len(self.data))
            if self.head == "wrong":
                return rng.choice([Reply(206, []), Reply(206, [("Content-Range", "bytes 0-1/*")]), Reply(206, [("Content-Range", "octets 0-1/5")]), Reply(206, [("Content-Range", "bytes 0-1/99999999999999999999999")]),
                                   Reply(416, []), Reply(416, [("Content-Range", "bytes */x")]), Reply(204, []), Reply(302, [])])
            return Reply(rng.choice([404, 403, 410, 400, 502]), [])
        r = req.get("Range")
        if not r:
            self.fulls += 1
            if self.full == "ok":
                return Reply(200, [], self.data)
            if self.full == "wrong":
                return Reply(200, [], spoil(self.data))
            return Reply(rng.choice([404, 403, 410, 502]), [], self.data)
        m = re.match(r"bytes=(\d+)-(\d+)$", r)
        if not m:
            self.reqs.append({"a": 0, "b": -1, "ans": "ok", "len": 0, "tr": r})
            return Reply(400)
        a, b = int(m.group(1)), int(m.group(2))
        d, T = self.data, len(self.data)
        part = d[a:b + 1]
        w = rng.choice(self.wrongs) if self.wrongs and rng.random() < self.p else "ok"
        if w == "short" and len(part) < 2:
            w = "ok"
        if self.claim != T and w in ("ok", "short", "honest"):
            w = "size"
        x = {"a": a, "b": b, "ans": {"ok": "ok", "honest": "ok", "chunked": "ok", "short": "short", "drop": "fault", "503": "fault"}.get(w, "wrong"), "len": len(part), "tw": w}
        if x["ans"] == "ok" and (len(part) != b - a + 1 or a > b):
            x["ans"] = "wrong"  # asked for what is not there
        self.reqs.append(x)

        def cr(off, n, total=T):
            return [("Content-Range", "bytes %d-%d/%d" % (off, off + n - 1, total))]
        if w in ("ok", "honest", "size"):
            return Reply(206, cr(a, len(part)), part)
        if w == "chunked":
            return Reply(206, cr(a, len(part)), part, chunked=True)
        if w == "short":
            k = rng.randrange(1, len(part))
            x["len"] = k
            return Reply(206, cr(a, k), part[:k])
        if w == "empty":
            return Reply(206, cr(a, len(part)), b"")
        if w == "long":
            k = rng.choice([1, 10, 20000])
            return Reply(206, cr(a, len(part) + k), (d[a:] + d)[:len(part) + k])
        if w == "elsewhere":
            o = rng.choice([a + 1, a - 1, 0, a + len(part), max(0, T - len(part))])
            if o == a or o < 0:
                o = a + 1
            return Reply(206, cr(o, len(part)), (d + d)[o:o + len(part)])
        if w == "total":
            return Reply(206, cr(a, len(part), T + rng.choice([-1, 1, 10**6, 2**64 - 1 - T])), part)
        if w == "headerless":
            return Reply(206, [], part)
        if w == "garbled":
            return Reply(206, [("Content-Range", rng.choice(["bytes", "bytes 0-1/*", "bytes a-b/c", "items 0-1/2"]))], part)
        if w == "all":
            return Reply(200, [], d)
        if w == "cut":
            return Reply(206, cr(a, len(part)), part, cut=len(part) // 2)
        if w == "416":
            return Reply(416, [("Content-Range", "bytes */%d" % T)])
        if w == "drop":
            return Reply(drop=True)
        if w == "503":
            return Reply(503, [], b"busy")
        return Reply(int(w), [], part)


WRONGS = ["empty", "long", "elsewhere", "total", "headerless", "garbled", "all", "cut", "416", "404", "204", "502"]


def occurrences(data, piece):
    out, i = [], data.find(piece)
    while i >= 0 and len(out) < 2000:
        out.append(i)
        i = data.find(piece, i + 1)
    return out


class Session:
    def __init__(self, d, s):
        self.d, self.s, self.events = d, s, []
        self.unknown = self.far = False
        r = d.call("http.lazy", http="h", url=s.url, hash=s.hash, **{"as": "f"})
        self.opened = "ok" if "ok" in r else "err" if "err" in r else "panic"
        head = s.head if s.head != "416" else "range"
        if s.faults > 1 and self.opened == "err":
            head = "failed"
        full = "no" if s.fulls == 0 else s.full if s.full != "wrong" or s.hash else "ok"
        if s.full == "wrong" and not s.hash:
            s.data = spoil(s.data)
        self.open = {"head": head, "full": full, "len": s.claim if head == "range" else len(s.data), "twhere": s.where, "thash": bool(s.hash), "tfaults": s.faults, "theads": s.heads, "twrongs": s.wrongs, "thead": s.head}
        self.open["len"] = min(self.open["len"], 2**31 - 1)
        self.open["ttold"] = str(r.get("err") or "")[:300]

    def op(self, r, n=0):
        s = self.s
        s.reqs = []
        w = {"r": "start", "n": 2**64 - 1} if r == "max" else {"r": r, "n": n}
        rep = self.d.call("r.ops", r="f", ops=[w])
        res = {"got": "panic", "pos": 0, "len": 0, "ats": []}
        if "ok" in rep:
            x = rep["ok"][0]
            res["got"] = "err" if "err" in x else "ok"
            if "pos" in x:
                res["pos"] = min(x["pos"], 2**31 - 1)
            elif "data" in x:
                b = vf.unb64(x["data"])
                res.update(len=len(b), ats=occurrences(s.data, b) if b else [])
        self.events.append({"op": {"r": r, "n": n}, "reqs": list(s.reqs), "res": res})
        self.far = r == "max" or (self.far and r not in ("start", "end"))
        self.unknown = res["got"] != "ok" or (r == "cur" and self.far)
        return res

    def case(self):
        return {"open": self.open, "opened": self.opened, "events": self.events}


def wander(rng, x, length, steps):
    spots = [0, 1, length - 1, length, length - WINDOW, WINDOW, length // 2, length - 2 * WINDOW, length - WINDOW - 1]
    for _ in range(steps):
        k = rng.random()
        if x.unknown or k < .4:
            r = rng.random()
            at = rng.choice(spots) + rng.choice([0, 0, 1, -1, 22]) if rng.random() < .5 else rng.randrange(length + 2)
            if r < .5 or at < 0:
                x.op("start", max(0, at))
            elif r < .95 or x.unknown:
                x.op("end", at - length)
            else:
                x.op("max")
        elif k < .5:
            x.op("cur", rng.choice([0, 1, -1, 100, -5000, 9999, 10000, 10001, -length]))
        elif k < .8:
            x.op("read", rng.choice([0, 1, 2, 22, 512, 4096, 9999, 10000, 10001, 30000]))
        elif k < .95:
            x.op("exact", rng.choice([0, 1, 4, 30, 1000, 9999, 10001, 25000]))
        else:
            x.op("read_all")
        if x.events[-1]["res"]["got"] == "panic":
            return


def shard(args):
    seed, n = args
    rng = random.Random(seed)
    out = []
    for _ in range(n):
        with vf.Scratch() as tmp, vf.Driver(shim={"VERIF_NOSLEEP": "1"}, env={"TMPDIR": tmp}) as d:
            d.patience = 40
            for i in range(3):
                d.ok("http.new", http=tmp + "/http%d" % i, hashed=tmp + "/hashed%d" % i, **{"as": "h"})
                length = rng.choice([0, 1, 2, 3, 100, 9999, 10000, 10001, 10002, 19999, 20000, 20001, 25000, 33333, 52000])
                kw = {}
                k = rng.random()
                if k < .3:
                    kw.update(wrongs=rng.sample(WRONGS, rng.choice([1, 2, 4])), p=rng.choice([.1, .3, 1]))
                elif k < .42:
                    kw.update(wrongs=["short", "chunked", "honest"], p=.5)
                elif k < .5:
                    kw.update(wrongs=["drop", "503", "drop"], p=.3, faults=rng.choice([0, 0, 1, 2, 3, 9]))
                elif k < .55:
                    kw.update(claim=max(0, length + rng.choice([-1, 1, 5, -5, 10000, 10**6])))
                kw["head"] = rng.choice(["range"] * 14 + ["416", "none", "none", "none", "wrong", "failed"])
                kw["full"] = rng.choice(["ok"] * 5 + ["wrong", "failed"])
                kw["where"] = rng.choice(["direct"] * 5 + [1, 2, 5])
                s = Served(rng, tmp, length, hashed=rng.random() < .6, **kw)
                x = Session(d, s)
                if x.opened == "ok":
                    wander(rng, x, x.open["len"], rng.choice([6, 12, 25]))
                    d.call("drop", obj="f")
                s.origin.close()
                out.append(x.case())
    return out


SCALE = WINDOW // 4


def replay_shard(args):
    seed, hists = args
    rng = random.Random(seed)
    out = []
    with vf.Scratch() as tmp, vf.Driver(shim={"VERIF_NOSLEEP": "1"}, env={"TMPDIR": tmp}) as d:
        d.ok("http.new", http=tmp + "/http", hashed=tmp + "/hashed", **{"as": "h"})
        for h in hists:
            s = Served(rng, tmp, h["len"] * SCALE)
            x = Session(d, s)
            if x.opened == "ok":
                for o in h["ops"]:
                    if x.unknown and o["r"] not in ("start", "end"):
                        x.op("start", 0)
                    x.op(o["r"], o["n"] * SCALE)
                d.call("drop", obj="f")
            s.origin.close()
            out.append(x.case())
    return out


def config(lengths, steps, reads=(0, 1, 2, 5), record=False):
    return "INIT Init\nNEXT Next\n%s\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANTS Lengths={%s} Window=4 Reads={%s} Steps_=%d Record=%s\n" % (
        "INVARIANT Tell" if record else "INVARIANT Fine\nINVARIANT Bounded", ",".join(map(str, lengths)), ",".join(map(str, reads)), steps, str(record).upper())


def describe(x, want=None):
    m = re.search(r"at \|-> (-?\d+)", want or "")
    n = int(m.group(1)) if m else 0
    ev = x["events"][:n] if n > 0 else []
    t = lambda e: "%s %s [%s] %s %s" % (e["op"]["r"], e["op"]["n"], "; ".join("%d-%d %s (%s) %d" % (q["a"], q["b"], q["ans"], q.get("tw", q.get("tr")), q["len"]) for q in e["reqs"]), e["res"]["got"], e["res"]["pos"] or e["res"]["len"])
    return "file %s opened: %s; %s" % (json.dumps(x["open"]), x["opened"], " | ".join(map(t, ev[-6:])))


def check_C11(c):
    c.model("LazyFileModel", config(range(0, c.n(11, 14)), c.n(5, 6), (0, 1, 2, 5, 9)), min_states=1000, timeout=850)
    res = vf.tlc("LazyFileModel", config(range(0, 22), 10, (1, 2, 3, 5, 8), True), workers=1, extra=["-simulate", "num=%d" % c.n(100, 1000), "-depth", "11", "-seed", str(c.rng.randrange(1 << 30))], timeout=600)
    hs = sorted(set(re.findall(r'<<\s*"TRACE",\s*"(.*?)",\s*"END"\s*>>', res.out, re.S)))
    if len(hs) < 100 or "Error:" in res.out:
        raise vf.ToolError("no behaviours:\n" + res.out[-2000:])
    hs = [json.loads(re.sub(r"\s*\n\s*", "", t).replace('\\"', '"')) for t in c.rng.sample(hs, min(len(hs), c.n(400, 4000)))]
    k = -(-len(hs) // 16)
    cases = []
    for r in vf.pparallel(replay_shard, [("%s/%d" % (c.seed, i), hs[i:i + k]) for i in range(0, len(hs), k)]):
        cases += r
    for r in vf.pparallel(shard, [("%s/%d" % (c.seed, i), c.n(12, 150)) for i in range(16)]):
        cases += r
    c.count("files", len(cases))
    c.count("opened", sum(x["opened"] == "ok" for x in cases))
    c.count("operations", sum(len(x["events"]) for x in cases))
    c.count("requests", sum(len(e["reqs"]) for x in cases for e in x["events"]))
    c.count("wrong_answers", sum(q["ans"] != "ok" for x in cases for e in x["events"] for q in e["reqs"]))
    c.sample({"open": cases[0]["open"], "event": cases[0]["events"][:1]})
    bad, res = vf.judge("LazyFileJudge", cases, timeout=850)
    c.add_tlc(res)
    c.traces(len(cases))
    for i, want in sorted(bad.items()):
        c.violation(describe(cases[i], want) + " -- specification says: " + want, {"case": cases[i], "expected": want})
