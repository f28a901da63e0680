"""The studio page: the real app.js in a node process that does nothing between commands, its requests,
socket and timers carried by the simulated loop."""
import asyncio
import json
import os
import subprocess

from . import web as simweb
from .build import HERE

REPO = os.environ.get("DST_REPO", "/repo")


class Host:
    """The node process; it is only ever busy while a command is being answered."""

    def __init__(self):
        self.p = subprocess.Popen(["node", "--experimental-vm-modules", "--no-warnings", os.path.join(HERE, "native", "page.mjs")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8")
        self.call(c="boot", dir=os.path.join(REPO, "pvtrace", "studio", "static"))

    def call(self, **m):
        self.p.stdin.write(json.dumps(m) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the page's process has ended (%s)" % self.p.poll())
        r = json.loads(line)
        if "fatal" in r:
            raise RuntimeError("the page's host failed: " + r["fatal"])
        return r


_host = None


def host():
    global _host
    if _host is None or _host[0] != os.getpid():
        _host = (os.getpid(), Host())
    return _host[1]


class PageSocket(simweb.Socket):
    def __init__(self, web, name, page, ident):
        self.page, self.ident = page, ident
        self.back = 0.0
        super().__init__(web, name)

    def to_page(self, **m):
        self.back = max(self.back + 1e-6, self.loop.now + self.page.delay())
        self.loop.call_at(self.back, self.page.ws, self, m)

    async def _send(self, m):
        if m["type"] == "websocket.send" and not self.gone and not self.broken:
            self.to_page(kind="message", data=m.get("text"))
        if m["type"] == "websocket.accept":
            self.to_page(kind="open")
        if m["type"] == "websocket.close":
            self.to_page(kind="close", code=m.get("code", 1000))
        await super()._send(m)


class Page:
    """One tab.  `log` is everything that passed between the page and the world, in order."""

    def __init__(self, loop, web, name, faults, storage=None, calm=False):
        self.loop, self.web, self.name, self.faults, self.calm = loop, web, name, faults, calm
        self.log = []
        self.errors = []
        self.timers = {}
        self.socks = {}
        self.opened = {}            # socket id -> state as the page knows it
        self.gone = False
        self.waiting = 0
        self.n = 0
        self.storage = storage or {}
        self.brief = None
        self.cmd(c="new", storage=self.storage)

    def delay(self):
        d = self.web.net.delay()
        f = self.faults
        if not self.calm and f.get("slow") and self.web.net.rng.random() < f["slow"]:
            self.web.net.fault("late_delivery")
            d += f["slow_time"] * self.web.net.rng.random()
        return d

    def note(self, kind, **k):
        e = dict(kind=kind, seq=self.loop.tick(), t=self.loop.now, **k)
        self.log.append(e)
        return e

    def cmd(self, **m):
        if self.gone:
            return None
        m.update(page=self.name, now=self.loop.now)
        r = host().call(**m)
        for x in r["errors"]:
            self.errors.append((m["c"], x))
            self.note("error", what=x)
        for e in r["effects"]:
            k = e["e"]
            if k == "fetch":
                self.note("fetch", id=e["id"], method=e["method"], url=e["url"], body=e["body"])
                self.waiting += 1
                self.loop.create_task(self.fetch(e))
            elif k == "timer":
                self.timers[e["id"]] = self.loop.call_later(max(e["delay"], 1e-4), self.timer, e["id"])
            elif k == "untimer":
                t = self.timers.pop(e["id"], None)
                if t:
                    t.cancel()
            elif k == "ws-open":
                self.note("ws-open", id=e["id"], url=e["url"])
                self.loop.call_later(self.delay(), self.ws_connect, e["id"])
            elif k == "ws-send":
                self.note("ws-send", id=e["id"], data=e["data"])
                s = self.socks.get(e["id"])
                if s is not None and not s.gone:
                    try:
                        tag = json.loads(e["data"]).get("cmd")
                    except (ValueError, AttributeError):
                        tag = e["data"][:40]
                    s.send_text(e["data"], tag)
            elif k == "ws-close":
                self.note("ws-close", id=e["id"])
                s = self.socks.get(e["id"])
                if s is not None:
                    s.leave()
                    self.loop.call_later(self.delay(), self.ws, s, dict(kind="close", code=1000))
        if "brief" in r:
            self.brief = r["brief"]
        return r["info"]

    def timer(self, ident):
        self.timers.pop(ident, None)
        if not self.gone:
            self.note("timer", id=ident)
            self.cmd(c="timer", id=ident)
            self.seen("timer")

    def chance(self, what):
        if self.calm or self.web.net.rng.random() >= self.faults.get(what, 0.0):
            return False
        self.web.net.fault(what)
        return True

    async def fetch(self, e):
        await asyncio.sleep(self.delay())
        lost = self.chance("request_lost")
        r = None
        if not lost:
            self.n += 1
            f = self.note("arrive", id=e["id"])
            r = await self.web.request((self.name, self.n), e["method"], e["url"], None if e["body"] is None else e["body"].encode())
            f["status"], f["json"] = r["status"], r["json"]
            lost = self.chance("answer_lost")
        await asyncio.sleep(self.delay())
        self.waiting -= 1
        if self.gone:
            return
        if lost:
            x = self.note("failed", id=e["id"], reached=r is not None)
            self.cmd(c="fetch", id=e["id"], fail=True, brief=True)
        else:
            x = self.note("answer", id=e["id"], status=r["status"], json=r["json"])
            self.cmd(c="fetch", id=e["id"], status=r["status"], body=r["raw"], brief=True)
        self.seen("answer", x, e)

    def ws_connect(self, ident):
        if self.gone:
            return
        if self.chance("connection_refused"):
            self.note("ws", id=ident, what="refused")
            self.opened[ident] = "closed"
            self.cmd(c="ws", id=ident, kind="close", error=True, brief=True)
            self.seen("ws")
            return
        self.socks[ident] = PageSocket(self.web, "%s-ws%d" % (self.name, ident), self, ident)

    def ws(self, s, m):
        if self.gone or self.opened.get(s.ident) == "closed":
            return
        if m["kind"] == "open":
            self.opened[s.ident] = "open"
        if m["kind"] == "close":
            self.opened[s.ident] = "closed"
        x = self.note("ws", id=s.ident, what=m["kind"], data=m.get("data"))
        self.cmd(c="ws", id=s.ident, brief=True, **m)
        self.seen("ws", x)

    def cut(self):
        """The connection breaks: both sides learn of it, each in its own time."""
        for ident, s in self.socks.items():
            if not s.gone and self.opened.get(ident) == "open":
                self.web.net.fault("connection_lost")
                s.leave()
                self.loop.call_later(self.delay(), self.ws, s, dict(kind="close", code=1006))

    @property
    def connected(self):
        ids = sorted(self.opened)
        return bool(ids) and any(self.opened[i] == "open" for i in ids)

    def close(self):
        if self.gone:
            return
        self.storage = (self.dump(True) or {}).get("storage", {})
        host().call(c="drop", page=self.name)
        self.gone = True
        for t in self.timers.values():
            t.cancel()
        for s in self.socks.values():
            s.leave()

    def act(self, **a):
        x = self.note("act", a=a)
        info = self.cmd(c="act", a=a)
        x["info"] = info
        return x

    def dump(self, full=False):
        return self.cmd(c="dump", full=full)

    watch = None

    def seen(self, kind, entry=None, request=None):
        if self.watch:
            self.watch(kind, entry, request)
