"""Simulated browsers talking ASGI to the real studio application.

Everything that happens is kept in `history` in order, each entry with a
sequence number and the simulated time.
"""
import asyncio
import json

from .loop import CONN


class ClientGone(OSError):
    """What the server's protocol layer raises when the peer has gone."""


class Net:
    """Draws delays; `faults` are counted when they happen."""

    def __init__(self, loop, rng, latency=(0.0, 0.05), block=0.0, block_time=(0.0, 1.0), drop=0.0):
        self.drop = drop
        self.loop, self.rng = loop, rng
        self.latency, self.block, self.block_time = latency, block, block_time
        self.faults = {}

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def delay(self):
        lo, hi = self.latency
        return lo + (hi - lo) * self.rng.random() ** 2


class Web:
    def __init__(self, app, loop, net):
        self.app, self.loop, self.net = app, loop, net
        self.history = []
        self.crashes = []           # exceptions that left the application
        self.n = 0

    def log(self, kind, **kw):
        e = dict(kind=kind, seq=self.loop.tick(), t=self.loop.now, **kw)
        self.history.append(e)
        return e

    # -- HTTP ---------------------------------------------------------------
    async def request(self, op_id, method, path, body=None, chunks=1, cut=None):
        """One request; returns the finished entry.  `cut` closes the connection after that many chunks."""
        self.n += 1
        token = CONN.set("http-%d" % self.n)
        e = self.log("invoke", op=op_id, method=method, path=path)
        raw = b"" if body is None else body if isinstance(body, bytes) else json.dumps(body).encode()
        step = max(1, -(-len(raw) // chunks))
        parts = [raw[i:i + step] for i in range(0, len(raw), step)] or [b""]
        gone = cut is not None and cut < len(parts)
        if gone:
            parts = parts[:cut]
            self.net.fault("request_cut")
        sent = [0]
        done = asyncio.Event()

        async def receive():
            i = sent[0]
            sent[0] += 1
            if i < len(parts):
                await asyncio.sleep(self.net.delay())
                return {"type": "http.request", "body": parts[i], "more_body": gone or i + 1 < len(parts)}
            if gone:
                await asyncio.sleep(self.net.delay())
                return {"type": "http.disconnect"}
            await done.wait()
            return {"type": "http.disconnect"}
        out = dict(status=None, body=b"", headers=[])

        async def send(m):
            if m["type"] == "http.response.start":
                out["status"] = m["status"]
                out["headers"] = m.get("headers", [])
                out["seq"] = self.loop.tick()
                if self.on_response:
                    self.on_response(op_id, out)
            elif m["type"] == "http.response.body":
                out["body"] += m.get("body", b"")
        headers = [(b"host", b"sim"), (b"content-type", b"application/json"), (b"content-length", str(len(raw)).encode())]
        scope = dict(type="http", asgi={"version": "3.0", "spec_version": "2.3"}, http_version="1.1", method=method, scheme="http",
                     path=path, raw_path=path.encode(), query_string=b"", root_path="", headers=headers, client=("c", 1), server=("sim", 80), state={})
        try:
            await self.app(scope, receive, send)
        except Exception as x:
            out["exception"] = x
            self.crashes.append(x)
        finally:
            done.set()
            CONN.reset(token)
        if out["status"] is None and not gone:
            out["status"] = 500             # what a server answers for an application that gave none
        js = None
        if out["body"]:
            try:
                js = json.loads(out["body"], parse_constant=lambda c: "bad constant " + c)
            except ValueError:
                pass
        e["seq_end"] = self.loop.tick()
        r = self.log("response", op=op_id, status=out["status"], json=js, invoked=e["seq"], answered=out.get("seq"), gone=gone,
                        exception=repr(out.get("exception")) if out.get("exception") else None)
        return dict(r, raw=out["body"].decode("utf-8", "replace"))

    on_response = None

    # -- websocket ----------------------------------------------------------
    def connect(self, name):
        return Socket(self, name)


class Socket:
    """One browser tab."""

    def __init__(self, web, name):
        self.web, self.name, self.loop = web, name, web.loop
        self.inbox = asyncio.Queue()
        self.accepted = asyncio.Event()
        self.gone = False           # the client has left
        self.broken = False         # and the server's sends fail
        self.told = False           # and the server was told by receive()
        self.closed = None          # closed by the server
        self.ended = False
        self.error = None
        self.arrive = self.loop.now
        self.stall_until = 0.0
        self.received = asyncio.Event()
        self._post({"type": "websocket.connect"})
        self.task = self.loop.create_task(self._serve())

    async def _serve(self):
        CONN.set(self.name)
        scope = dict(type="websocket", asgi={"version": "3.0", "spec_version": "2.3"}, http_version="1.1", scheme="ws", path="/ws", raw_path=b"/ws",
                     query_string=b"", root_path="", headers=[(b"host", b"sim")], client=(self.name, 1), server=("sim", 80), subprotocols=[], state={})
        try:
            await self.web.app(scope, self._receive, self._send)
        except Exception as x:
            self.error = x
            self.web.crashes.append(x)
        self.ended = True
        self.web.log("handler-end", conn=self.name, error=repr(self.error) if self.error else None)

    async def _receive(self):
        m = await self.inbox.get()
        self.web.log("delivered", conn=self.name, message=m.get("tag", m["type"]))
        if m["type"] == "websocket.disconnect":
            self.told = True
        return {k: v for k, v in m.items() if k != "tag"}

    async def _send(self, m):
        if m["type"] == "websocket.accept":
            self.accepted.set()
            self.web.log("accept", conn=self.name)
            return
        if m["type"] == "websocket.close":
            self.closed = m.get("code", 1000)
            self.web.log("server-close", conn=self.name, code=self.closed)
            return
        if self.broken or self.closed is not None:
            self.web.log("send-failed", conn=self.name)
            self.web.net.fault("send_after_disconnect")
            raise ClientGone("the peer has gone")
        bad = []
        try:
            body = json.loads(m["text"], parse_constant=lambda c: bad.append(c) or "bad constant " + c) if m.get("text") is not None else m.get("bytes")
        except ValueError:
            body = m["text"]
            bad.append("syntax")
        self.web.log("sent", conn=self.name, message=body, lost=self.gone, bad=bad)
        self.received.set()
        self.received = asyncio.Event()
        net = self.web.net
        if not (self.gone and net.drop) and (net.rng.random() < net.block or self.loop.now < self.stall_until):
            net.fault("slow_client")
            lo, hi = net.block_time
            d = max(lo + (hi - lo) * net.rng.random(), self.stall_until - self.loop.now)
            end = self.loop.now + d
            while self.loop.now < end and not self.broken:
                await asyncio.sleep(min(0.5, end - self.loop.now))
            if self.broken:
                self.web.log("send-failed", conn=self.name)
                net.fault("send_after_disconnect")
                raise ClientGone("the peer has gone")

    # client side
    def _post(self, m):
        self.arrive = max(self.arrive + 1e-6, self.loop.now + self.web.net.delay())
        self.loop.call_at(self.arrive, self.inbox.put_nowait, m)

    def send_json(self, obj, tag):
        self._post({"type": "websocket.receive", "text": json.dumps(obj), "tag": tag})

    def send_text(self, text, tag):
        self._post({"type": "websocket.receive", "text": text, "tag": tag})

    def send_bytes(self, data, tag):
        self._post({"type": "websocket.receive", "bytes": data, "tag": tag})

    def leave(self, code=1001, notice=None):
        """Closes the tab.  Sends start to fail and receive() reports it, each after its own delay."""
        if self.gone:
            return
        self.gone = True
        self.web.log("left", conn=self.name)
        net = self.web.net
        net.fault("disconnect")
        if net.drop:
            # a half-open connection: nothing fails, nothing arrives, until the server is told
            net.fault("half_open")
            self.arrive = max(self.arrive, self.loop.now) + net.drop * net.rng.random()
        else:
            self.loop.call_later(net.delay() if notice is None else notice, self._break)
        self._post({"type": "websocket.disconnect", "code": code})

    def _break(self):
        self.broken = True
