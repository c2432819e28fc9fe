"""C16: environment markers and extras."""
import vf, uni, reqgen
from c15 import status
from uni import codes


def eval_cases(d, jobs):
    reps = d.batch([{"op": "marker", "s": s, "env": e} for s, e in jobs])
    return [{"kind": "eval", "s": codes(s), "text": s, "envtext": e, "env": {k: codes(v) for k, v in e.items()}, "status": status(r),
             "got": r["ok"]["got"] if "ok" in r else False, "why": str(r.get("err", r.get("panic", "")))[:200]} for (s, e), r in zip(jobs, reps)]


def describe(x):
    return "marker %r in %s: posy says %s %s" % (x["text"], {k: v for k, v in x["envtext"].items() if k in x["text"] or "." in x["text"]}, x["got"] if x["status"] == "ok" else x["status"], x["why"])


def norm(s):
    import re
    return re.sub(r"[-_.]+", "-", s).lower()


def check_C16(c):
    c.model("MarkersModel", "CONSTANT Depth = %d\nINIT Init\nNEXT Next\nINVARIANT SimplifyIsSound\nINVARIANT PrintReads\nCHECK_DEADLOCK FALSE\n" % c.n(1, 2), min_states=100)
    rng, t = c.rng, reqgen.Text(c.rng)
    jobs = []
    ex = [norm(e) for e in reqgen.EXTRAS]
    for i in range(c.n(12000, 150000)):
        s = t.marker(True, rng.choice([0, 0, 1, 1, 2, 3]))
        if rng.random() < .25:
            s = t.mutate(s)
        if "\x00" in s:
            continue
        extra = rng.choice(ex + ["", "", None])
        jobs.append((s, reqgen.env(rng, extra)))
    # every comparison of every variable, both ways round
    e0 = reqgen.env(rng, "opt-dep")
    for v in reqgen.VARS + reqgen.LEGACY + ["extra"]:
        for op in reqgen.OPS + ["===", "=", "<>", "not", "is", "~", "=>"]:
            for l in reqgen.LITS + reqgen.EXTRAS[:4]:
                if c.quick and rng.random() > .3:
                    continue
                for s in ("%s %s '%s'" % (v, op, l), "\"%s\" %s %s" % (l, op, v)):
                    jobs.append((s, reqgen.env(rng, "opt-dep")))
    toks = list(reqgen.exhaustive(reqgen.MARKER_TOKENS, c.n(3, 4)))
    full = {"os_name": "nt", "extra": "a"}
    jobs += [(s, full) for s in toks]
    # longer texts around something valid
    for a, b in __import__("itertools").product(reqgen.MARKER_TOKENS, repeat=2):
        for pat in ("os_name=='nt'%s%s", "%sos_name=='nt'%s", "os_name=='nt'and%s%sextra=='a'", "(os_name=='nt'%s%s)", "%sos_name %s'nt'"):
            jobs.append((pat % (a, b), full))
    with vf.Driver() as d:
        cases = eval_cases(d, jobs)
    st = {k: sum(1 for x in cases if x["status"] == k) for k in ("ok", "err", "panic")}
    c.count("markers", len(cases))
    c.cov["marker_answers"] = dict(st, true=sum(1 for x in cases if x["status"] == "ok" and x["got"]))
    c.sample({k: cases[0][k] for k in ("text", "envtext", "status", "got")})
    c.judge("ReqJudge", cases, describe, timeout=850)
    # what resolving records
    res = uni.resolve_many(c, ["markers", "extras", "markers", "prefer"], c.n(500, 5000), .1)
    for x in res:
        x["kind"] = "markers"
    snd = [dict(x, kind="sound") for x in res]
    c.count("universes", len(res))
    c.count("recorded_conditions", sum(len(x["markers"]) for x in res))
    cpl = [dict(x, kind="complete") for x in res]
    c.judge("ResolveJudge", res + snd + cpl, uni.describe, timeout=850)
