"""C15: version specifiers mean what PEP 440 says."""
import itertools
import vf
from pep440gen import *


def clause_text(cl, rng=None):
    sp = rng.choice(["", " ", "  "]) if rng else " "
    return cl["op"] + sp + render(cl["v"], rng) + (".*" if cl["wild"] else "")


def status(rep):
    return "ok" if "ok" in rep else "panic" if "panic" in rep else "err"


def spec_cases(jobs, d):
    """jobs: [(clauses, text, cands, cand_texts)]"""
    reps = d.batch([{"op": "spec", "s": t, "versions": ct} for _, t, _, ct in jobs], chunk=200)
    cases = []
    for (cls, t, cands, ct), rep in zip(jobs, reps):
        f = compress([c["v"] for c in cls] + cands)
        cases.append({"kind": "spec", "text": t, "cls": [dict(c, v=tla(f(c["v"]))) for c in cls], "cands": [tla(f(c)) for c in cands],
                      "texts": ct, "status": status(rep), "got": rep.get("ok", {}).get("got", []), "why": str(rep.get("panic", rep.get("err", "")))[:200]})
    return cases


def describe(x):
    if x["kind"] == "spec":
        return "specifier %r: posy said %s%s for candidates %s" % (x["text"], x["status"], x["got"] if len(x["got"]) < 12 else "", x["texts"] if len(x["texts"]) < 12 else "(index: [n, expected])")
    if x["kind"] == "cmp":
        return "comparing %r with %r gave %s" % (x["ta"], x["tb"], x["cmp"] - 1)
    return "%s %r: %s" % (x["kind"], x["text"], x["status"])


# texts that are no specifier set
BAD = ["===1.0", "=== 1.0", "1.0", "=1.0", ">", "==", "> =1.0", "=>1.0", "==1.0.*.*", "==1.*.0", "==*", ">=1.*", "<1.*", "~=1.*", "<=1.0.*", ">1.0.*",
       "~=1", "~=1a1", "~=1!2", "~=3.dev1", "==1.0+x.*", "==1.0.dev1.*", "!=1.0.dev1.*", "!=1.0+a.*", ">=1.0+x", "<=1.0+x", ">1.0+x", "<1.0+x", "~=1.0+x", "==1.0+",
       "==1.0+a+b", "==a", "==1.0,", ">=1.0 <2.0", ">=1.0;", "==1.0 ,, <2", "==1.0x", "==1..0", "==.1", "==1.0.", "== 1.0-", "!1.0", "~1.0", "!==1.0",
       "==1.0.post99999999999", "==1.0.dev99999999999", "==99999999999.0", "==1.0a99999999999", "==99999999999!1", ">=4294967296", "== 1.0 foo", "<>1.0", "==1.0\t\n&", "==１.0"]
GOOD = [">=1.0", ">= 1.0", ">=1.0,<2", ">= 1.0 , < 2", "==1.0.*", "!=1.0.*", "==1!1.0.*", "~=1.0", "~=1.0a1", "==v1.0", "==1.0-1", "==1.0+abc.1", "!=1.0+a", ">=1.0.post1,!=2.0rc1", "<1!0"]


def check_C15(c):
    c.model("Pep440Model", "INIT Init\nNEXT Next\nINVARIANT TotalOrder\nINVARIANT Relations\nCHECK_DEADLOCK FALSE\n", min_states=1000)
    rng = c.rng
    cases = []
    uni = universe()
    ut = [render(v) for v in uni]
    with vf.Driver() as d:
        # 1. every clause over the universe against every version of the universe
        jobs = []
        for v in uni:
            for op in OPS:
                cl = {"op": op, "wild": False, "v": v}
                jobs.append(([cl], clause_text(cl), uni, ut))
            for op in ("==", "!=", ">=", "~="):
                cl = {"op": op, "wild": True, "v": v}
                jobs.append(([cl], clause_text(cl), uni, ut))
        if c.quick:
            # every clause is tested; the candidates of each are a sample plus the versions next to it
            thin = []
            for cls, t, _, _ in jobs:
                idx = sorted(rng.sample(range(len(uni)), 40) + [i for i, u in enumerate(uni) if u["r"] == cls[0]["v"]["r"] and u["e"] == cls[0]["v"]["e"]][:60])
                idx = sorted(set(idx))
                thin.append((cls, t, [uni[i] for i in idx], [ut[i] for i in idx]))
            jobs = thin
        cases += spec_cases(jobs, d)
        c.count("clauses", len(jobs))
        # 2. random sets of clauses in random spellings, candidates near them
        jobs = []
        for k in range(c.n(1500, 40000)):
            big = k % 5 == 0
            base = rnd_version(rng, big)
            cls = []
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                v = base if rng.random() < .4 else neighbours(rng, base)
                op = rng.choice(OPS)
                wild = op in ("==", "!=") and rng.random() < .3 and not v["dev"] and not v["loc"]
                if op not in ("==", "!=") and rng.random() < .9:
                    v = dict(v, loc=[])
                if op == "~=" and len(v["r"]) < 2 and rng.random() < .9:
                    v = dict(v, r=v["r"] + [rng.choice([0, 1])])
                cls.append({"op": op, "wild": wild, "v": v})
            cands = [base] + [neighbours(rng, base) for _ in range(5)]
            cands += [neighbours(rng, neighbours(rng, base)) for _ in range(4)] + [rnd_version(rng, big)]
            text = rng.choice([",", ", ", " , "]).join(clause_text(cl, rng) for cl in cls)
            jobs.append((cls, text, cands, [render(x, rng) for x in cands]))
        cases += spec_cases(jobs, d)
        # 3. the order itself
        pairs = [(a, b) for a in uni for b in uni]
        if c.quick:
            pairs = rng.sample(pairs, 4000)
        for _ in range(c.n(2000, 30000)):
            a = rnd_version(rng, rng.random() < .2)
            pairs.append((a, neighbours(rng, a)))
        texts = [(render(a, rng), render(b, rng)) for a, b in pairs]
        for (a, b), (ta, tb), rep in zip(pairs, texts, d.batch([{"op": "vercmp", "a": ta, "b": tb} for ta, tb in texts])):
            f = compress([a, b])
            cases.append({"kind": "cmp", "a": tla(f(a)), "b": tla(f(b)), "ta": ta, "tb": tb, "status": status(rep),
                          "cmp": rep.get("ok", {}).get("cmp", 0) + 1, "eq": rep.get("ok", {}).get("eq", False)})
        # 4. texts that are (not) specifiers
        for allowed, ts in ((False, BAD), (True, GOOD)):
            for t, rep in zip(ts, d.batch([{"op": "spec", "s": t, "versions": []} for t in ts])):
                cases.append({"kind": "text", "text": t, "allowed": allowed, "status": status(rep), "why": str(rep)[:200]})
        # numbers at the limit may be refused or handled, but never crash or change meaning
        edge = [2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 2 ** 64]
        jobs = []
        for n in edge:
            for v in (V([1, n]), V([n]), V([1], post=n), V([1], dev=n), V([1], pre=(0, n)), V([1, 0], post=1, dev=n)):
                for op in OPS:
                    for wild in ((False, True) if op in ("==", "!=") and not v["dev"] else (False,)):
                        cl = {"op": op, "wild": wild, "v": v}
                        cands = [V([1]), V([1], pre=(0, 0)), V([0], dev=0)] + ([v] if n < 2 ** 32 - 1 else [])
                        if Allowed_len(cl):
                            jobs.append(([cl], clause_text(cl), cands, [render(x) for x in cands]))
        for x in spec_cases(jobs, d):
            if x["status"] == "err" and any(str(n) in x["text"] for n in edge[1:]):
                continue  # refusing what does not fit is fine
            cases.append(x)
    c.sample([{k: x.get(k) for k in ("kind", "text", "status", "got")} for x in rng.sample(cases, 5)])
    c.judge("Pep440Judge", cases, describe, timeout=800)
    # 5. through the dependency solver: a project with a single release
    from solve1 import solve_single
    solved = solve_single(c, c.n(250, 3000))
    c.judge("Pep440Judge", solved, describe)


def Allowed_len(cl):
    return cl["op"] != "~=" or len(cl["v"]["r"]) >= 2
