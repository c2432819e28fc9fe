"""A scriptable HTTP/1.1 origin server on the loopback interface."""
import socket, threading, re, hashlib, time


class Reply:
    """status, headers (list of pairs), body.  cut: send only that many body bytes and then
    drop the connection (the declared length stays; chunked: after a whole chunk, or within
    one if chunked is "mid").  drop: close without answering.
    length: declared Content-Length (None = real, False = none, body ends at close)."""

    def __init__(self, status=200, headers=(), body=b"", cut=None, drop=False, length=None, chunked=False, reset=False, wait=None, gate=None):
        self.status, self.headers, self.body = status, list(headers), body
        self.cut, self.drop, self.length, self.chunked, self.reset, self.wait, self.gate = cut, drop, length, chunked, reset, wait, gate


class Request:
    def __init__(self, method, path, headers, n):
        self.method, self.path, self.headers, self.n = method, path, headers, n

    def get(self, name):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v
        return None


class Origin:
    def __init__(self, handler=None):
        self.handler = handler or self.static
        self.files = {}  # path -> (bytes, headers)
        self.log = []
        self.lock = threading.Lock()
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(256)
        self.port = self.sock.getsockname()[1]
        self.base = "http://127.0.0.1:%d" % self.port
        self.closed = False
        self.conns = set()
        threading.Thread(target=self._accept, daemon=True).start()

    def _accept(self):
        while not self.closed:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            with self.lock:
                self.conns.add(c)
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def close(self):
        self.closed = True
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()
        with self.lock:
            for c in list(self.conns):
                try:
                    c.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _serve(self, c):
        try:
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            buf = b""
            while True:
                while b"\r\n\r\n" not in buf:
                    d = c.recv(65536)
                    if not d:
                        return
                    buf += d
                head, buf = buf.split(b"\r\n\r\n", 1)
                lines = head.decode("latin1").split("\r\n")
                method, path, _ = lines[0].split(" ")
                hs = [tuple(x.strip() for x in l.split(":", 1)) for l in lines[1:]]
                with self.lock:
                    req = Request(method, path, hs, len(self.log))
                    self.log.append(req)
                r = self.handler(req)
                if not self._send(c, req, r):
                    return
        except OSError:
            return
        finally:
            with self.lock:
                self.conns.discard(c)
            c.close()

    def _send(self, c, req, r):
        if r.wait:
            r.wait()
        if r.reset:
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
            return False
        if r.drop:
            return False
        body = r.body
        hs = list(r.headers)
        names = {k.lower() for k, _ in hs}
        nobody = req.method == "HEAD" or r.status in (204, 304)
        keep = True
        if r.chunked:
            hs.append(("Transfer-Encoding", "chunked"))
        elif r.length is False:
            hs.append(("Connection", "close"))
            keep = False
        elif r.length is not None:
            hs.append(("Content-Length", str(r.length)))
            keep = keep and (r.length == len(body) or nobody)
        elif "content-length" not in names and r.status != 304:
            hs.append(("Content-Length", str(len(body))))
        out = "HTTP/1.1 %d X\r\n" % r.status + "".join("%s: %s\r\n" % h for h in hs) + "\r\n"
        out = out.encode("latin1")
        if nobody:
            c.sendall(out)
            return keep
        if r.cut is not None:
            if r.chunked == "mid":
                out += b"%x\r\n" % len(body) + body[:r.cut]
            elif r.chunked:
                out += b"%x\r\n" % r.cut + body[:r.cut] + b"\r\n" if r.cut else b""
            else:
                out += body[:r.cut]
            c.sendall(out)
            return False
        if r.gate:
            at, fn = r.gate
            c.sendall(out + body[:at])
            fn()
            c.sendall(body[at:])
            return keep
        if r.chunked:
            out += b"".join(b"%x\r\n" % len(body[i:i + 4096]) + body[i:i + 4096] + b"\r\n" for i in range(0, len(body), 4096)) + b"0\r\n\r\n"
        else:
            out += body
        c.sendall(out)
        return keep

    # ------------------------------------------------------------ static files
    def put(self, path, body, headers=()):
        self.files[path] = (body, list(headers))
        return self.base + path

    def static(self, req):
        path = req.path.split("?")[0]
        f = self.files.get(path)
        if f is None:
            return Reply(404, body=b"not found")
        return serve_bytes(req, f[0], f[1])


def serve_bytes(req, body, headers):
    rng = req.get("Range")
    hs = list(headers) + [("Accept-Ranges", "bytes")]
    if rng:
        m = re.match(r"bytes=(\d+)-(\d*)$", rng)
        if m:
            a = int(m.group(1))
            b = int(m.group(2)) if m.group(2) else len(body) - 1
            b = min(b, len(body) - 1)
            if a >= len(body):
                return Reply(416, hs + [("Content-Range", "bytes */%d" % len(body))])
            part = body[a:b + 1]
            hs.append(("Content-Range", "bytes %d-%d/%d" % (a, b, len(body))))
            if req.method == "HEAD":
                return Reply(206, hs, b"", length=len(part))
            return Reply(206, hs, part)
    if req.method == "HEAD":
        return Reply(200, hs, b"", length=len(body))
    return Reply(200, hs, body)
