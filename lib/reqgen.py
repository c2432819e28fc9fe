"""Texts in and around the PEP 508 grammar."""
import itertools
from pep440gen import V, render


VARS = ["python_version", "python_full_version", "os_name", "sys_platform", "platform_release", "platform_system", "platform_version", "platform_machine",
        "platform_python_implementation", "implementation_name", "implementation_version"]
LEGACY = ["os.name", "sys.platform", "platform.version", "platform.machine", "platform.python_implementation", "python_implementation"]
LITS = ["3.8", "3.10", "3.11", "3", "2.7", "3.11.0", "3.10.0", "3.11.2", "posix", "nt", "linux", "linux2", "win32", "darwin", "x86_64", "arm64", "CPython", "cpython", "pypy", "", "a", "b",
        "Linux", "5.10.0", "5.10.0-8-amd64", "#1 SMP Debian", "1.0rc1", "1.0.dev0", "v1", "1!2", "1.0+x", "3.*", "3.1*", "it is (not) in", "a and b", "z ; q", "Z", "3.10 3.11", "3.8,3.9"]
EXTRAS = ["bar", "opt-dep", "Opt_Dep", "opt.dep", "x", "X", "b-a-r", "test", "opt", "foo", "fOO", "foO"]
OPS = ["==", "!=", "<", "<=", ">", ">=", "~=", "in", "not in"]


def env(rng, extra):
    full = rng.choice(["3.11.2", "3.10.0", "3.8.16", "3.12.0rc1", "2.7.18", "3.11.0"])
    e = {"python_version": ".".join(full.split(".")[:2]), "python_full_version": full, "os_name": rng.choice(["posix", "nt"]), "sys_platform": rng.choice(["linux", "linux2", "win32", "darwin"]),
         "platform_release": rng.choice(["5.10.0", "5.10.0-8-amd64", "10"]), "platform_system": rng.choice(["Linux", "Windows"]),
         "platform_version": rng.choice(["#1 SMP Debian", "10.0.19041"]), "platform_machine": rng.choice(["x86_64", "arm64"]),
         "platform_python_implementation": rng.choice(["CPython", "PyPy"]), "implementation_name": rng.choice(["cpython", "pypy"]), "implementation_version": full}
    if extra is not None:
        e["extra"] = extra
    for v in VARS:
        if rng.random() < .04:
            del e[v]
    return e


class Text:
    def __init__(self, rng, legacy=True):
        self.rng, self.legacy = rng, legacy

    def ws(self, must=False):
        return self.rng.choice([" ", " ", "  ", "\t"] if must else ["", "", " ", " ", "  ", "\t"])

    def lit(self, s):
        r = self.rng
        q = r.choice("'\"")
        if r.random() < .04:
            s = s + {"'": '"', '"': "'"}[q]
        return q + s + q

    def value(self, extra_ok):
        r = self.rng
        x = r.random()
        if x < .08 and self.legacy:
            return r.choice(LEGACY)
        if x < .6:
            return r.choice(VARS)
        if x < .7 and extra_ok:
            return "extra"
        return self.lit(r.choice(LITS + EXTRAS))

    def cmp(self, extra_ok):
        r = self.rng
        if extra_ok and r.random() < .3:
            a, b = "extra", self.lit(r.choice(EXTRAS))
            if r.random() < .3:
                a, b = b, a
            op = r.choice(["==", "==", "!=", "in", "not in", "<"])
        elif r.random() < .6:
            v = r.choice(VARS[:2] + VARS)
            if v.startswith("python") or v == "implementation_version":
                b = self.lit(r.choice(LITS[:8] + ["3.*", "3.11.*", "3.1*", "2.7.*", "3.10.0rc1"]))
            elif v == "os_name":
                b = self.lit(r.choice(["posix", "nt", "Posix", "os"]))
            elif v == "sys_platform":
                b = self.lit(r.choice(["linux", "linux2", "win32", "win", "darwin"]))
            else:
                b = self.lit(r.choice(LITS))
            a, op = v, r.choice(OPS)
            if r.random() < .2:
                a, b = b, a
        else:
            a, b, op = self.value(extra_ok), self.value(extra_ok), r.choice(OPS)
        if op == "not in":
            op = "not" + self.ws(True) + "in"
        return self.ws() + a + self.ws() + op + self.ws() + b

    def marker(self, extra_ok, depth):
        r = self.rng
        x = r.random()
        if depth == 0 or x < .3:
            return self.cmp(extra_ok)
        if x < .45:
            return self.ws() + "(" + self.marker(extra_ok, depth - 1) + self.ws() + ")"
        return self.marker(extra_ok, depth - 1) + self.ws() + r.choice(["and", "or"]) + self.ws() + self.marker(extra_ok, depth - 1)

    def version(self):
        r = self.rng
        return r.choice(["1", "1.0", "01.0", "2.0.0", "1.0a1", "1.0-ALPHA", "1.0.post1", "1.0-1", "1.0.dev3", "1!2.0", "v1.2", "1.0+local.1", "1.0+LOCAL_2", "3.*", "1.0.*", "bananas", "1.0.0rc01", "1*"])

    def specs(self):
        r = self.rng
        n = r.choice([1, 1, 1, 2, 2, 3])
        s = ",".join(self.ws() + r.choice(["<=", "<", "!=", "==", ">=", ">", "~="]) + self.ws() + self.version() + self.ws() for _ in range(n))
        return "(" + s + ")" if r.random() < .25 else s

    def name(self):
        r = self.rng
        return r.choice(["foo", "Foo", "foo-bar", "foo_bar", "Foo.Bar", "foo--bar", "a", "A1", "7zip", "x.y-z_w", "foo-._bar", "and", "or2", "in"])

    def req(self, extra_ok=True):
        r = self.rng
        s = self.ws() + self.name() + self.ws()
        if r.random() < .3:
            s += "[" + self.ws() + (self.ws() + "," + self.ws()).join(r.choice(EXTRAS) for _ in range(r.choice([0, 1, 1, 2, 3]))) + self.ws() + "]" + self.ws()
        if r.random() < .6:
            s += self.specs() + self.ws()
        if r.random() < .45:
            s += ";" + self.ws() + self.marker(extra_ok, r.choice([0, 1, 1, 2])) + self.ws()
        return s

    def mutate(self, s):
        r = self.rng
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.randrange(len(s) + 1)
            x = r.random()
            if x < .35 and s:
                k = r.randrange(len(s))
                s = s[:k] + s[k + 1:]
            elif x < .75:
                s = s[:k] + r.choice(list("'\"()[],;<>=!~.-_ \t@*+#\\&|:") + ["and", "or", "in", "not", "extra", "==", "===", "\n", "é", "\0", "a", "1"]) + s[k:]
            elif s:
                a, b = sorted((r.randrange(len(s) + 1), r.randrange(len(s) + 1)))
                s = s[:a] + s[b:] if x < .88 else s[:b] + s[a:b] + s[b:]
        return s[:120]


def exhaustive(alphabet, n):
    for k in range(0, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield "".join(t)


MARKER_TOKENS = ["os_name", "extra", "'nt'", "\"a'", "==", "in", "not ", " ", "(", ")", "and", "or"]
REQ_TOKENS = ["foo", "-", " ", "[", "]", ",", "(", ")", ">=", "1.0", ";", "os_name=='a'", "@", "."]
SPEC_TOKENS = ["==", "=", "<", ">", "~", "!", "1.0", ".*", " ", ",", "(", ")", "\t"]
