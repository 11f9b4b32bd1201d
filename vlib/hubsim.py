"""A real Hub on in-memory streams."""
import asyncio
import hashlib
import json
import os
import shutil
import tempfile

from vlib import clock

clock.install()

from vlib.fakes import FakeLoop, FakeStream, make_session, quiet_log
from vlib.runner import HarnessError, Violation, check, same

DELIM = b"<IDS|MSG>"
KEY = b"hub-key"
_aio = []


def aio():
    """one asyncio loop per process"""
    if not _aio or _aio[0][0] != os.getpid():
        loop = asyncio.new_event_loop()
        _aio[:] = [(os.getpid(), loop)]
    asyncio.set_event_loop(_aio[0][1])
    return _aio[0][1]


class R(dict):
    """(part of) a reply: what is missing is a violation"""

    def __missing__(self, k):
        raise Violation("no %r in (part of) a reply: %r" % (k, dict(self)))


def reply_(x):
    if isinstance(x, dict):
        return R({k: reply_(v) for k, v in x.items()})
    if isinstance(x, list):
        return [reply_(v) for v in x]
    return x


class Box:
    """the streams of a hub, and requests to it"""

    def __init__(self, db=None, state_file="", timeout=10, restore=False, key=KEY, session=None):
        from ipyparallel.controller.hub import Hub

        self.aio = aio()
        self.loop = FakeLoop()
        self.key = key
        self.session = session or make_session(key, "hub")
        self.query = FakeStream("query", self.loop)
        self.monitor = FakeStream("monitor", self.loop)
        self.notifier = FakeStream("notifier", self.loop)
        self.resubmit = FakeStream("resubmit", self.loop)
        self.timeout = timeout
        self.notified = 0

        async def make():
            hub = Hub(loop=self.loop, session=self.session, monitor=self.monitor, query=self.query, notifier=self.notifier,
                      resubmit=self.resubmit, db=db, heartmonitor_period=3000, engine_info={"registration": "E"},
                      client_info={"registration": "C"}, log=quiet_log(), registration_timeout=timeout)
            if state_file:
                hub.engine_state_file = state_file
                if restore:
                    hub._load_engine_state()
            return hub

        self.hub = self.aio.run_until_complete(make())

    def run(self, f):
        async def go():
            f()
            me = asyncio.current_task()
            for _ in range(1000):
                if all(t is me or t.done() for t in asyncio.all_tasks()):
                    return
                await asyncio.sleep(0)
            raise HarnessError("requests don't end")

        self.aio.run_until_complete(go())

    # -- messages -----------------------------------------------------------
    def parse(self, frames):
        """idents, message; raises Violation if it isn't correctly signed"""
        if DELIM not in frames:
            raise Violation("a message without delimiter: %r" % (frames,))
        i = frames.index(DELIM)
        if self.session.key:
            self.session.digest_history.discard(frames[i + 1])
            self.session.digest_history.discard(bytes(frames[i + 1]))
        try:
            msg = self.session.deserialize(frames[i + 1:], content=True)
        except Exception as e:
            raise Violation("the hub sent an invalid message: %r: %r" % (e, frames))
        self.session.digest_history.discard(bytes(frames[i + 1]))
        return frames[:i], msg

    @staticmethod
    def frames(sess, msg_type, content=None, parent=None, header=None, metadata=None, buffers=(), ident=()):
        msg = sess.msg(msg_type, content=content or {}, parent=parent, header=header, metadata=metadata)
        return msg, [bytes(b) for b in sess.serialize(msg, ident=list(ident))] + [bytes(b) for b in buffers]

    def ask(self, sess, ident, msg_type, content=None, raw=None):
        """send a request; the replies to it as (type, content, buffers)"""
        msg, fr = self.frames(sess, msg_type, content)
        before = len(self.query.sent)
        self.run(lambda: self.query.deliver([ident] + (raw if raw is not None else fr)))
        out = []
        for fr in self.query.sent[before:]:
            idents, reply = self.parse(fr)
            same(idents, [ident], "idents of the reply to %s" % msg_type)
            out.append((reply["header"]["msg_type"], reply_(reply["content"]), [bytes(b) for b in reply["buffers"]]))
        del self.query.sent[before:]
        return out

    def request(self, sess, ident, msg_type, content=None):
        """exactly one reply"""
        got = self.ask(sess, ident, msg_type, content)
        check(len(got) == 1, "%d replies to %s %r: %r", len(got), msg_type, content, [g[0] for g in got])
        t, c, bufs = got[0]
        check(c.get("status") in ("ok", "error"), "%s: status %r", t, c.get("status"))
        if c["status"] == "error":
            check(c.get("ename") and isinstance(c.get("evalue"), str) and "traceback" in c, "%s: malformed error %r", t, c)
        return t, c, bufs

    def notifications(self):
        out = []
        for fr in self.notifier.sent:
            idents, m = self.parse(fr)
            out.append((m["header"]["msg_type"], m["content"].get("id"), m["content"].get("uuid")))
        self.notifier.sent = []
        return out

    def mon(self, topics, sess, msg_type, content, flush=True, **kw):
        msg, fr = self.frames(sess, msg_type, content, **kw)
        self.monitor.queue_in(list(topics) + fr)
        if flush:
            self.run(self.monitor.pump)
        return msg, fr

    def advance(self, dt):
        self.run(lambda: self.loop.advance(dt))
