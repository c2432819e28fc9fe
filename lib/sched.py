"""Runs posy processes under the preload shim: every file-system call below a directory is
handed to us, one at a time, and we decide who goes next, what fails and who dies."""
import base64, json, os, selectors, socket, time
import vf

O_CREAT, O_TRUNC, O_WR = 0o100, 0o1000, 3
EINTR, ENOENT, EIO, ENOSPC = 4, 2, 5, 28
MUTATES = {"open", "write", "fsync", "ftruncate", "truncate", "close", "lock", "trylock", "unlock", "unlink", "rmdir", "mkdir", "rename", "link", "symlink", "chmod"}


class Stuck(Exception):
    pass


class Conn:
    def __init__(self, sock):
        self.s, self.buf, self.ask, self.proc, self.name, self.done, self.retry = sock, b"", None, None, None, False, True

    def lines(self):
        while b"\n" in self.buf:
            l, self.buf = self.buf.split(b"\n", 1)
            yield l.decode("utf-8", "replace").split("\t")


class Proc:
    def __init__(self, world, env=None, cwd=None, expect=1, **kw):
        shim = {"VERIF_ROOT": world.root, "VERIF_SOCK": world.sock_path}
        shim.update(world.shim)
        self.world, self.expect, self.reply, self.dead, self.busy = world, expect, None, False, False
        self.d = vf.Driver(env=env, cwd=cwd or world.cwd, shim=shim, **kw)
        self.conns = []
        self.buf = b""
        self.d.r = None  # read below, unbuffered
        world.procs.append(self)
        world.sel.register(self.d.fd_r, selectors.EVENT_READ, ("reply", self))

    def start(self, op, expect=1, **kw):
        self.reply, self.busy, self.expect = None, True, expect
        self.d.send(op, **kw)

    def settled(self):
        if self.dead or self.reply is not None or not self.busy:
            return True
        live = [c for c in self.conns if not c.done]
        return len([c for c in self.conns if c.ask or c.done]) >= self.expect and all(c.ask for c in live)

    def kill(self):
        if not self.dead:
            self.d.p.kill()
            self.gone()

    def gone(self):
        self.d.p.wait()
        self.dead, self.busy = True, False
        w = self.world
        for c in self.conns:
            # what it said last might not have been read yet
            c.s.settimeout(5) if c.s.fileno() >= 0 else None
            while not c.done:
                try:
                    data = c.s.recv(1 << 16)
                except OSError:
                    data = b""
                if not data:
                    break
                w.take(c, data)
            c.done, c.ask = True, None
            w.drop(c)
        try:
            w.sel.unregister(self.d.fd_r)
        except KeyError:
            pass
        os.close(self.d.fd_r)
        try:
            self.d.w.close()
        except OSError:
            pass
        for c in w.conns():
            c.retry = True


class World:
    """What happens below `root`. Subclasses look at each call in `log`."""

    def __init__(self, root, scratch, shim=None, cwd=None, timeout=90):
        self.root, self.cwd, self.shim, self.timeout = root, cwd or scratch, shim or {}, timeout
        self.sock_path = os.path.join(scratch, "s%x" % (id(self) & 0xffffff))
        self.l = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.l.bind(self.sock_path)
        self.l.listen(64)
        os.chmod(self.sock_path, 0o777)
        self.sel = selectors.DefaultSelector()
        self.sel.register(self.l, selectors.EVENT_READ, ("accept", None))
        self.procs = []
        self.calls = 0

    def conns(self):
        return [c for p in self.procs for c in p.conns if not c.done]

    def drop(self, c):
        try:
            self.sel.unregister(c.s)
            c.s.close()
        except (KeyError, ValueError):
            pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for p in self.procs:
            p.kill()
        self.sel.close()
        self.l.close()
        os.unlink(self.sock_path)

    # ---- input
    def pump(self, wait):
        for key, _ in self.sel.select(wait):
            kind, x = key.data
            if kind == "accept":
                s, _ = self.l.accept()
                self.sel.register(s, selectors.EVENT_READ, ("conn", Conn(s)))
            elif kind == "conn":
                self.read_conn(x)
            elif not x.dead:
                data = os.read(x.d.fd_r, 1 << 20)
                if not data:
                    x.gone()
                    continue
                x.buf += data
                if x.buf.endswith(b"\n"):
                    x.reply, x.buf, x.busy = json.loads(x.buf.decode()), b"", False
                    vf.check_driver(x.reply)

    def read_conn(self, c):
        try:
            data = c.s.recv(1 << 16)
        except OSError:
            data = b""
        if not data:
            self.drop(c)
            c.ask = None
            if not c.done:
                c.done = True
                if c.proc and not c.proc.dead:
                    c.proc.gone()
            return
        self.take(c, data)

    def take(self, c, data):
        c.buf += data
        for f in c.lines():
            if f[0] == "H":
                c.proc = next(p for p in self.procs if p.d.pid == int(f[1]))
                c.proc.conns.append(c)
            elif f[0] == "Q":
                c.ask = {"op": f[1], "a": int(f[2]), "p1": f[3], "p2": f[4], "ino": int(f[5]), "len": int(f[6]), "data": bytes.fromhex(f[7])}
            elif f[0] == "R":
                c.result = {"ret": int(f[1]), "errno": int(f[2]), "ino": int(f[3])}

    def settle(self):
        end = time.time() + self.timeout
        while True:
            if all(p.settled() for p in self.procs):
                return
            if time.time() > end:
                raise Stuck("a process neither finishes nor does anything")
            self.pump(1)

    # ---- decisions
    def grant(self, c, verdict="G"):
        """Lets a pending call happen. Returns its outcome: {"ret", "errno", "ino"}, or None if the process died before it."""
        q, c.ask, c.result = c.ask, None, None
        self.calls += 1
        try:
            c.s.sendall(verdict.encode() + b"\n")
        except OSError:
            pass
        end = time.time() + self.timeout
        while c.result is None and c.ask is None and not c.done:
            if time.time() > end:
                raise Stuck("a %s of %s does not return" % (q["op"], q["p1"]))
            self.pump(1)
        if verdict[0] in "DKT":
            while not c.proc.dead:
                if time.time() > end:
                    raise vf.ToolError("process does not die")
                self.pump(1)
        r = c.result
        if c.ask is not None and c.ask["op"] == "blocked":
            c.retry = False
        if r and (q["op"] in ("close", "unlock") or c.proc.dead):
            for o in self.conns():
                o.retry = True
        return q, r

    def ready(self):
        """Calls that can be granted (a blocked lock only once something was released)."""
        return [c for c in self.conns() if c.ask and (c.ask["op"] != "blocked" or c.retry)]

    def waiting(self):
        return [c for c in self.conns() if c.ask]


def marker(q):
    """The in-band announcement that a call is, if it is one."""
    b = os.path.basename(q["p1"])
    if q["op"] == "unlink" and b.startswith("@"):
        return json.loads(base64.urlsafe_b64decode(b[1:] + "=" * (-len(b[1:]) % 4)))


def rel(root, p):
    return [x for x in p[len(root):].split("/") if x] if p.startswith(root) else (["/"] + p.split("/") if p else [])


class Recorder:
    """Turns calls into the events of Store.tla."""

    def __init__(self, root):
        self.root, self.events, self.inos = root, [], {}

    def ino(self, n):
        return self.inos.setdefault(n, len(self.inos) + 1) if n else 0

    def call(self, p, q_, q, r, hurt):
        """p: the actor, q_: its process, q: the call, r: what came of it."""
        op = q["op"]
        e = {"ev": op, "p": p, "q": q_, "ok": r["ret"] >= 0, "hurt": hurt}
        if q["p1"]:
            e["path"] = rel(self.root, q["p1"])
        if q["p2"]:
            e["path2"] = rel(self.root, q["p2"])
        if op == "open":
            e.update(ino=self.ino(r["ino"]), fd=r["ret"], creat=bool(q["a"] & O_CREAT), trunc=bool(q["a"] & O_TRUNC))
        elif op == "write":
            if r["ret"] > len(q["data"]):
                raise vf.ToolError("a write too long to record")
            e.update(ino=self.ino(q["ino"]), at=q["a"], data=list(q["data"][:max(0, r["ret"])]))
        elif op in ("ftruncate", "truncate"):
            e.update(ev="truncate", ino=self.ino(q["ino"]), at=q["a"])
        elif op == "fsync":
            e.update(ino=self.ino(q["ino"]))
        elif op == "close":
            e.update(fd=q["a"])
        elif op in ("lock", "trylock", "blocked"):
            e.update(ev="lock", fd=q["len"])
        elif op == "unlock":
            e.update(fd=q["len"])
        elif op not in ("unlink", "rmdir", "mkdir", "rename", "link"):
            return
        if op in ("write", "fsync", "truncate", "ftruncate", "close"):
            e.pop("path", None)
        self.events.append(e)

    def add(self, **e):
        self.events.append(e)
