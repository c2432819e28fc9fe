"""Builds wheels, source distributions, Python builds and index pages."""
import base64, hashlib, html, io, json, tarfile, zipfile


def zip_bytes(members, comp=zipfile.ZIP_STORED):
    """members: [(name, bytes)] or [(name, bytes, unix mode)]"""
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", comp) as z:
        for m in members:
            zi = zipfile.ZipInfo(m[0], (2020, 1, 1, 0, 0, 0))
            zi.create_system = 3
            zi.compress_type = comp
            zi.external_attr = (m[2] if len(m) > 2 else 0o100644) << 16
            z.writestr(zi, m[1])
    return b.getvalue()


def targz_bytes(members):
    """members: [(name, bytes)] (regular), or tarfile.TarInfo-likes (name, bytes, dict of TarInfo attributes)"""
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode="w:gz", format=tarfile.PAX_FORMAT) as t:
        for m in members:
            ti = tarfile.TarInfo(m[0])
            ti.size = len(m[1])
            ti.mode = 0o644
            ti.mtime = 1577836800
            for k, v in (m[2] if len(m) > 2 else {}).items():
                setattr(ti, k, v)
            if ti.type != tarfile.REGTYPE:
                ti.size = 0
            t.addfile(ti, io.BytesIO(m[1]))
    return raw.getvalue()


def metadata(name, version, requires=(), requires_python=None, extras=(), other=()):
    s = "Metadata-Version: 2.1\nName: %s\nVersion: %s\n" % (name, version)
    for r in requires:
        s += "Requires-Dist: %s\n" % r
    if requires_python is not None:
        s += "Requires-Python: %s\n" % requires_python
    for e in extras:
        s += "Provides-Extra: %s\n" % e
    for k, v in other:
        s += "%s: %s\n" % (k, v)
    return s


def esc(name):
    import re
    return re.sub(r"[^\w.]+", "_", name)


def wheel(name, version, requires=(), requires_python=None, extras=(), files=(), tag="py3-none-any", build=None,
          entry_points=None, meta=None, distinfo=None, wheel_file=None, root_purelib=True, meta_name=None, meta_version=None, record=True, scripts=()):
    """Returns (file name, bytes)."""
    n = esc(name)
    di = distinfo or "%s-%s.dist-info" % (n, version)
    members = [(f[0], f[1]) + tuple(f[2:]) for f in files]
    if not members:
        members.append(("%s.py" % n.replace(".", "_"), b"__version__ = '%s'\n" % version.encode()))
    members += list(scripts)
    if meta is None:
        meta = metadata(meta_name or name, meta_version or version, requires, requires_python, extras)
    if meta is not False:
        members.append((di + "/METADATA", meta.encode() if isinstance(meta, str) else meta))
    if wheel_file is None:
        wheel_file = "Wheel-Version: 1.0\nGenerator: verif\nRoot-Is-Purelib: %s\n" % ("true" if root_purelib else "false") + "".join("Tag: %s\n" % t for t in expand(tag))
    if wheel_file is not False:
        members.append((di + "/WHEEL", wheel_file.encode() if isinstance(wheel_file, str) else wheel_file))
    if entry_points is not None:
        members.append((di + "/entry_points.txt", entry_points.encode()))
    if record:
        members.append((di + "/RECORD", b""))
    fn = "%s-%s-%s%s.whl" % (n, version, (build + "-") if build else "", tag)
    return fn, zip_bytes(members)


def expand(tag):
    p, a, l = tag.split("-")
    return ["%s-%s-%s" % (x, y, z) for x in p.split(".") for y in a.split(".") for z in l.split(".")]


SITE = b"import sys\nENABLE_USER_SITE = None\n"
DEFAULT_VARS = {"python_full_version": "3.11.2", "python_version": "3.11", "implementation_name": "cpython", "implementation_version": "3.11.2",
                "os_name": "posix", "platform_machine": "x86_64", "platform_python_implementation": "CPython", "platform_system": "Linux",
                "platform_release": "5", "platform_version": "1", "sys_platform": "linux"}


def pybi(name="cpython", version="3.11.2", tag="manylinux_2_17_x86_64", vars=None, wheel_tags=("py3-none-any", "py3-none-PLATFORM"), build=None,
         files=(), python=None, meta_name=None, meta_version=None, paths=None, extra_members=()):
    v = dict(DEFAULT_VARS, python_full_version=version, python_version=".".join(version.split(".")[:2]), implementation_version=version)
    v.update(vars or {})
    v = {k: x for k, x in v.items() if x is not None}
    p = paths or {"stdlib": "lib/python", "purelib": "lib/python/site-packages", "platlib": "lib/python/site-packages", "scripts": "bin", "data": "."}
    m = metadata(meta_name or name, meta_version or version) + "Pybi-Environment-Marker-Variables: %s\nPybi-Paths: %s\n" % (json.dumps(v), json.dumps(p))
    for t in wheel_tags:
        m += "Pybi-Wheel-Tag: %s\n" % t
    members = [("pybi-info/PYBI", b"Pybi-Version: 1.0\nGenerator: verif\nTag: x\n"), ("pybi-info/METADATA", m.encode()),
               ("pybi-info/RECORD", b""),
               ("bin/python", python if python is not None else FAKE_PYTHON, 0o100755),
               ("lib/python/site.py", SITE), ("lib/python/distutils/sysconfig.py", b""), ("lib/python/distutils/__init__.py", b""), ("lib/python/site-packages/README.txt", b"")]
    members += list(files)
    return "%s-%s-%s%s.pybi" % (esc(name), version, (build + "-") if build else "", tag), zip_bytes(members)


# runs the host's Python as the environment's Python, the way posy's sitecustomize.py would
FAKE_PYTHON = b"""#!/bin/sh
here="$(cd "$(dirname "$0")/.." && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/lib/python/site-packages:$here/fakelib" exec /usr/bin/python3 "$@"
"""


def sdist(name, version, files=(), top=None):
    n = esc(name)
    top = top or "%s-%s" % (n, version)
    return "%s-%s.tar.gz" % (n, version), targz_bytes([("%s/%s" % (top, f[0]),) + tuple(f[1:]) for f in files])


def index_page(entries):
    """entries: [(file name, url, dict of extra attributes)]"""
    s = "<!DOCTYPE html><html><head><meta name=\"pypi:repository-version\" content=\"1.0\"></head><body>\n"
    for fn, url, attrs in entries:
        s += "<a href=\"%s\"%s>%s</a><br>\n" % (html.escape(url), "".join(" %s=\"%s\"" % (k, html.escape(v)) for k, v in attrs.items()), html.escape(fn))
    return s + "</body></html>\n"


class Index:
    """A package index on an Origin under a path prefix."""

    def __init__(self, origin, prefix, shared=None):
        self.o, self.prefix = origin, prefix
        self.projects = {}
        self.url = origin.base + prefix + "/simple/"

    def add(self, project, fn, data, attrs=None, hash=True):
        path = "%s/files/%s/%s" % (self.prefix, project, fn)
        self.o.files[path] = (data, [("Cache-Control", "max-age=3600")])
        h = hashlib.sha256(data).hexdigest()
        self.projects.setdefault(project, []).append((fn, self.o.base + path + ("#sha256=" + h if hash else ""), attrs or {}))
        return h

    def project(self, project):
        self.projects.setdefault(project, [])

    def publish(self):
        for p, es in self.projects.items():
            self.o.files["%s/simple/%s/" % (self.prefix, p)] = (index_page(es).encode(), [("Content-Type", "text/html")])
