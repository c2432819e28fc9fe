"""Structured PEP 440 versions: generation, rendering in many spellings, translation to TLA+."""
import itertools


def V(r, pre=None, post=None, dev=None, loc=(), e=0):
    return {"e": e, "r": list(r), "pre": list(pre) if pre else [], "post": [] if post is None else [post],
            "dev": [] if dev is None else [dev], "loc": list(loc)}


def tla(v):
    return dict(v, loc=[{"n": [s], "s": []} if isinstance(s, int) else {"n": [], "s": [ord(c) for c in s]} for s in v["loc"]])


def render(v, rng=None):
    """Text of a version; with rng, a random alternative spelling of the same version."""
    alt = rng is not None
    ch = (lambda xs: rng.choice(xs)) if alt else (lambda xs: xs[0])
    s = ""
    if alt and rng.random() < .1:
        s += ch(["v", "V"])
    if v["e"] or (alt and rng.random() < .05):
        s += "%d!" % v["e"]
    num = lambda n: ("0" * ch([0, 0, 0, 1]) if alt else "") + str(n)
    s += ".".join(num(x) for x in v["r"])
    sep = lambda: ch(["", "", ".", "-", "_"]) if alt else ""
    if v["pre"]:
        k, n = v["pre"]
        name = ch([["a", "alpha", "A", "Alpha"], ["b", "beta", "B"], ["rc", "c", "pre", "preview", "RC"]][k])
        s += sep() + name
        if not (alt and n == 0 and rng.random() < .5 and not v["post"] and not v["dev"]):
            s += (ch(["", "", ".", "-", "_"]) if alt else "") + num(n)
    if v["post"]:
        n = v["post"][0]
        if alt and rng.random() < .3:
            s += "-" + num(n)
        else:
            s += (ch([".", "", "-", "_"]) if alt else ".") + ch(["post", "rev", "r", "POST"]) + (ch(["", "."]) if alt else "") + num(n)
    if v["dev"]:
        s += (ch([".", "", "-", "_"]) if alt else ".") + ch(["dev", "DEV"]) + num(v["dev"][0])
    if v["loc"]:
        s += "+" + (ch([".", "-", "_"]) if alt else ".").join(str(x) if isinstance(x, int) else (ch([x, x.upper()]) if alt else x) for x in v["loc"])
    return s


def compress(cases_versions):
    """Order-preserving renumbering (0 stays 0) so that numbers up to 2^32 fit TLC's integers."""
    nums = set()
    for v in cases_versions:
        nums.add(v["e"])
        nums.update(v["r"])
        nums.update(v["pre"][1:])
        nums.update(v["post"])
        nums.update(v["dev"])
        nums.update(x for x in v["loc"] if isinstance(x, int))
    nums.add(0)
    if max(nums) < 2 ** 31:
        return lambda v: v
    m = {x: i for i, x in enumerate(sorted(nums))}
    return lambda v: {"e": m[v["e"]], "r": [m[x] for x in v["r"]], "pre": v["pre"][:1] + [m[x] for x in v["pre"][1:]],
                      "post": [m[x] for x in v["post"]], "dev": [m[x] for x in v["dev"]],
                      "loc": [m[x] if isinstance(x, int) else x for x in v["loc"]]}


def universe():
    """Every shape of version around 1.0 and its neighbours."""
    out = []
    for r in ([1, 0], [1]):
        for pre in (None, (0, 0), (0, 1), (1, 0), (2, 1)):
            for post in (None, 0, 1, 2):
                for dev in (None, 0, 1):
                    out.append(V(r, pre, post, dev))
        # local labels
    for l in ([0], [1], [1, 0], ["a"], ["a", 0], ["ab"], ["1a"], [2], [10], ["a", "b"]):
        out.append(V([1, 0], loc=l))
    for l in ([1], ["x"]):
        out.append(V([1, 0], post=1, loc=l))
        out.append(V([1, 0], pre=(0, 1), loc=l))
        out.append(V([1, 0], dev=1, loc=l))
        out.append(V([1, 1], loc=l))
        out.append(V([1, 0, 0], loc=l))
    for r in ([0], [0, 9], [0, 0, 1], [1, 0, 0], [1, 0, 1], [1, 1], [1, 1, 0], [1, 2], [1, 10], [2], [2, 0], [1, 0, 0, 1], [1, 9], [0, 0]):
        out.append(V(r))
        out.append(V(r, dev=0))
        out.append(V(r, pre=(0, 0), dev=0))
        out.append(V(r, post=0))
    for e in (1, 2):
        out += [V([1, 0], e=e), V([0], e=e, dev=0), V([1, 0], e=e, post=1), V([1], e=e, pre=(2, 0))]
    return out


def rnd_version(rng, big=False):
    n = lambda: rng.choice([0, 0, 1, 1, 2, 3, 10] + ([2 ** 31, 2 ** 32 - 2, 2 ** 32 - 3, 20230101] if big else []))
    r = [n() for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    pre = (rng.randrange(3), n()) if rng.random() < .3 else None
    post = n() if rng.random() < .3 else None
    dev = n() if rng.random() < .3 else None
    loc = []
    if rng.random() < .25:
        loc = [rng.choice([0, 1, 2, 10, "a", "b", "ab", "1a", "a1", "z"]) for _ in range(rng.choice([1, 1, 2, 3]))]
    return V(r, pre, post, dev, loc, e=rng.choice([0] * 9 + [1, 2]))


def neighbours(rng, v):
    """A version that differs from v in one respect."""
    w = {k: (list(x) if isinstance(x, list) else x) for k, x in v.items()}
    k = rng.randrange(8)
    d = lambda x: max(0, x + rng.choice([-1, 1])) if x < 2 ** 32 - 2 else x - 1
    if k == 0:
        i = rng.randrange(len(w["r"]))
        w["r"][i] = d(w["r"][i])
    elif k == 1:
        w["r"] = w["r"] + [0] * rng.choice([1, 2])
    elif k == 2:
        w["pre"] = [] if w["pre"] else [rng.randrange(3), rng.choice([0, 1])]
    elif k == 3:
        w["post"] = [d(w["post"][0])] if w["post"] and rng.random() < .6 else ([] if w["post"] else [rng.choice([0, 1])])
    elif k == 4:
        w["dev"] = [d(w["dev"][0])] if w["dev"] and rng.random() < .6 else ([] if w["dev"] else [rng.choice([0, 1])])
    elif k == 5:
        w["loc"] = w["loc"] + [rng.choice([0, 1, "a"])] if rng.random() < .5 else w["loc"][:-1]
    elif k == 6:
        w["r"] = w["r"][:-1] or [1]
    else:
        w["e"] = 1 - min(1, w["e"])
    return w


OPS = ["==", "!=", "<=", ">=", "<", ">", "~="]
