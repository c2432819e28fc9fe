"""C01-C03: what resolving a brief yields."""
import vf, uni


def run(c, kind, styles, n, with_like=0):
    cases = uni.resolve_many(c, styles, n, with_like)
    for x in cases:
        x["kind"] = kind
    st = {}
    for x in cases:
        st[x["status"]] = st.get(x["status"], 0) + 1
    c.cov["outcomes"] = st
    c.count("universes", len(cases))
    c.sample({k: cases[0][k] for k in ("brief", "texts", "status", "pins")})
    c.judge("ResolveJudge", cases, uni.describe, timeout=850)
    if not c.violations and st.get("ok", 0) < n // 10:
        raise vf.ToolError("only %s resolutions succeeded" % st)
    return cases


def check_C01(c):
    run(c, "sound", ["extras", "plain", "tight", "markers", "prefer"], c.n(5000, 20000), .2)


def check_C02(c):
    run(c, "complete", ["tight", "extras", "plain", "tight", "markers"], c.n(4000, 12000), .35)


def check_C03(c):
    run(c, "prefer", ["prefer", "prefer", "plain", "tight"], c.n(4000, 12000), .5)
