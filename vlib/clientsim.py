"""A real Client on in-memory streams, with engines that run the real kernel's apply code, and optionally
a real hub and a real broadcast tree. What is delivered when is up to the caller."""
import ast
import collections
import contextlib
import io
import itertools
import os
import sys
import threading
import time
import traceback

import zmq

from vlib import clock

clock.install()

from vlib.fakes import FakeStream, make_session, quiet_log
from vlib.runner import HarnessError, Violation, check, same

DELIM = b"<IDS|MSG>"
KEY = b"client-key"
CHANNELS = ("control", "task", "mux", "iopub", "notification", "registration", "broadcast")
HANG_S = float(os.environ.get("VERIF_HANG_S", "12"))
_ctx = []
_n = itertools.count()
real_sleep = time.sleep
_current = threading.local()


class FastTime:
    """the time module for modules that poll"""

    def __getattr__(self, name):
        return getattr(time, name)

    @staticmethod
    def sleep(s):
        real_sleep(min(s, 0.001))


def current_shell():
    return getattr(_current, "shell", None)


class SimSocket(zmq.Socket):
    def connect(self, url):
        # nobody is bound elsewhere; libzmq keeps such sockets
        if url.endswith(":%i" % (CHANNELS.index("registration") + 1)):
            return super().connect(url)


class SimContext(zmq.Context):
    _socket_class = SimSocket


def context():
    if not _ctx or _ctx[0][0] != os.getpid():
        _ctx[:] = [(os.getpid(), SimContext())]
    return _ctx[0][1]


class Stream(FakeStream):
    def send_multipart(self, msg, flags=0, copy=True, track=False, callback=None, **kw):
        super().send_multipart(msg, flags, copy, track, callback, **kw)
        return zmq.MessageTracker()


class Loop:
    """the client's IO loop: callbacks wait until the net is pumped"""

    def __init__(self):
        self.q = collections.deque()
        self.cond = threading.Condition()
        self.timeouts = []

    def add_callback(self, cb, *a, **k):
        with self.cond:
            self.q.append(lambda: cb(*a, **k))
            self.cond.notify_all()
        self.on_callback()

    def on_callback(self):
        pass

    def time(self):
        return time.monotonic()

    def add_timeout(self, deadline, cb, *a, **k):
        h = [deadline, lambda: cb(*a, **k), True]
        self.timeouts.append(h)
        return h

    def remove_timeout(self, h):
        h[2] = False

    def fire_timeouts(self):
        for h in sorted((h for h in self.timeouts if h[2]), key=lambda h: h[0]):
            if h[2]:
                h[2] = False
                h[1]()

    def stop(self):
        pass

    def close(self, all_fds=False):
        pass


class Shell:
    def __init__(self, eid):
        self.user_ns = {"__name__": "__main__", "__builtins__": __builtins__, "engine_id": eid}
        self.user_global_ns = self.user_ns
        self._last_traceback = None
        self.colors = "nocolor"

    def showtraceback(self):
        self._last_traceback = traceback.format_exc().splitlines()

    def reset(self, new_session=False):
        for k in [k for k in self.user_ns if not k.startswith("__") and k != "engine_id"]:
            del self.user_ns[k]


def make_engine(eid, uuid, key):
    from vlib.treesim import Engine

    e = Engine(eid, uuid, key)
    equip(e)
    return e


def equip(e):
    k = e.kernel
    e.shell = Shell(e.id)
    k._trait_values["shell"] = e.shell
    k._trait_values["log"] = quiet_log()
    k.aborted = set()
    e.count = 0
    e.ran = []           # msg_ids of requests run
    e.alive = True


def make_stream(owner, socket, out):
    name = owner.sockets[socket]
    st = Stream(name)
    st.socket = socket
    st.closed = lambda: socket.closed
    st.on_out = lambda frames: out(name, frames)
    owner.streams[name] = st
    return st


class Peer:
    """another client's place in a Net"""

    def __init__(self, net, n):
        self.net = net
        self.n = n
        self.ident = b"%s-peer-%i" % (net.ident, n)

    def _stream(self, socket, loop=None):
        return make_stream(self, socket, lambda name, frames: self.net._from_client(name, frames, self))


class Net:
    def __init__(self, ids=(0, 1), key=KEY, hub=False, depth=None, scheme="leastload", picks=(), handler=None, db=None, **client_kw):
        self.key = key
        self.queues = {}
        self.errors = []
        self.engines = {}
        self.dead = []
        self.ident = b"client-%i" % next(_n)
        self.picks = list(picks)
        self.npick = 0
        self.pumping = False
        self.eager = False
        self.calling = 0
        self.closed = False
        self.handler = handler or self.execute
        self.log = []                # (stream, message) sent by the client
        self.placed = {}             # msg_id of an apply through the scheduler -> engine id
        self.tree = None
        self.box = None
        self.uuids = itertools.count()
        self.peers = []
        if depth is not None:
            from vlib.treesim import Tree

            self.tree = Tree(depth, False, key=key)
            self.tree.on_client = self._from_tree
            self.tree.add_client(self.ident)
        if hub:
            from ipyparallel.controller.dictdb import DictDB
            from vlib.hubsim import Box

            self.box = Box(db=db or DictDB(log=quiet_log()), key=key)
            self.monitor_n = 0
        for eid in ids:
            self.add_engine(eid, notify=False)
        self.loop = Loop()
        self.loop.on_callback = self._on_callback
        self.client = self._make_client(scheme, client_kw)
        self.session = make_session(key, "peer")

    # -- setting up -----------------------------------------------------------
    def add_engine(self, eid=None, notify=True, uuid=None):
        if self.box is not None:
            uuid = uuid or "e%03i-%s" % (next(self.uuids), eid)
            s = make_session(self.key, "engine-" + uuid)
            content = {"uuid": uuid}
            if eid is not None:
                content["id"] = eid
            t, c, _ = self.box.request(s, uuid.encode(), "registration_request", content)
            same(c["status"], "ok", "registration")
            eid = c["id"]
            self.box.run(lambda: self.box.hub.handle_new_heart(uuid.encode()))
            check(eid in self.box.hub.ids, "engine %r was not registered", eid)
            if notify:
                self._hub_out()
            else:
                del self.box.notifier.sent[:]
        elif eid is None:
            eid = max(list(self.engines) + [e.id for e in self.dead] + [-1]) + 1
        uuid = uuid or "e%03i-%s" % (next(self.uuids), eid)
        if self.tree is not None:
            e = self.tree.add_engine(eid, uuid)
            equip(e)
        else:
            e = make_engine(eid, uuid, self.key)
        self.engines[eid] = e
        if notify and self.box is None:
            self.notify("registration_notification", {"id": eid, "uuid": uuid})
        return e

    def kill(self, eid):
        """an engine dies; what it had sent already still arrives"""
        e = self.engines.pop(eid)
        e.alive = False
        self.dead.append(e)
        for k in [k for k in self.queues if k[0] in ("exec", "ctl") and k[1] == e.uuid]:
            del self.queues[k]
        if self.box is not None:
            self.box.run(lambda: self.box.hub.handle_stopped_heart(e.uuid.encode()))
            self._hub_out()
        else:
            self.notify("unregistration_notification", {"id": eid, "uuid": e.uuid})
        return e

    def notify(self, typ, content):
        s = make_session(self.key, "hub")
        fr = [bytes(b) for b in s.serialize(s.msg(typ, content=content))]
        self.put(("notif",), fr)
        for p in self.peers:
            self.put(("peer", p.n, "notification"), fr)

    def _make_client(self, scheme, kw, owner=None):
        from ipyparallel.client import asyncresult, client as mod, view
        from ipyparallel import util

        net = self
        owner = owner or self

        mod.ZMQStream = owner._stream
        asyncresult.time = view.time = FastTime()
        util.get_ipython = view.get_ipython = current_shell
        owner.streams = {}
        owner.sockets = {}

        class SimClient(mod.Client):
            def _start_io_thread(self):
                self._io_loop = net.loop
                owner.sockets = {getattr(self, "_%s_socket" % n): n for n in
                                 ("query", "control", "mux", "task", "iopub", "notification", "broadcast")}
                self._setup_streams()

            def _connect(self, *a, **k):
                # the hub's answer is there before the client asks
                net._answer_connection(owner)
                return super()._connect(*a, **k)

        base = next(_n)
        info = {"interface": "inproc://net%i-%i" % (os.getpid(), base), "task_scheme": scheme, "key": self.key.decode(), "pack": "json",
                "unpack": "json", "signature_scheme": "hmac-sha256", "ssh": "", "location": None}
        info.update({n: i + 1 for i, n in enumerate(CHANNELS)})
        owner.info = info
        owner.reg = context().socket(zmq.DEALER)
        owner.reg.linger = 0
        owner.reg.bind("%s:%s" % (info["interface"], info["registration"]))
        kw = dict({"session": "session-%i" % base, "username": "u"}, **kw)
        c = SimClient(info, context=context(), timeout=5, **kw)
        return c

    def add_client(self, scheme="leastload", **kw):
        """another client of the same cluster"""
        p = Peer(self, len(self.peers))
        self.peers.append(p)
        p.client = self._make_client(scheme, kw, p)
        return p

    def _answer_connection(self, owner):
        s = make_session(self.key, "hub")
        s.send(owner.reg, "connection_reply", content={"status": "ok", "engines": {str(i): e.uuid for i, e in self.engines.items()}})

    def _stream(self, socket, loop=None):
        return make_stream(self, socket, lambda name, frames: self._from_client(name, frames))

    def close(self):
        self.closed = True
        try:
            self.client.close(linger=0)
            for p in self.peers:
                p.client.close(linger=0)
        finally:
            self.reg.close(linger=0)
            for p in self.peers:
                p.reg.close(linger=0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- queues -----------------------------------------------------------------
    def put(self, key, item):
        self.queues.setdefault(key, collections.deque()).append(item)

    def pending(self):
        return [k for k in sorted(self.queues, key=repr) if self.queues[k]]

    def _on_callback(self):
        if self.eager and not self.pumping and threading.current_thread() is threading.main_thread():
            self.run()

    def run_callbacks(self):
        while True:
            with self.loop.cond:
                if not self.loop.q:
                    return
                cb = self.loop.q.popleft()
            cb()

    def pick(self, n):
        if n == 1 or not self.picks:
            return 0
        self.npick += 1
        return self.picks[(self.npick * 7919 // 64 + self.npick) % len(self.picks)] % n

    def step(self, only=None):
        """deliver one message; False if there is none"""
        was, self.pumping = self.pumping, True
        try:
            self.run_callbacks()
            keys = [k for k in self.pending() if only is None or only(k)]
            if not keys:
                return False
            self.deliver(keys[self.pick(len(keys))])
            self.run_callbacks()
            return True
        finally:
            self.pumping = was

    def run(self, only=None, limit=100000):
        n = 0
        while self.step(only):
            n += 1
            if n > limit:
                raise Violation("messages never end")
        return n

    def deliver(self, key):
        item = self.queues[key].popleft()
        if not self.queues[key]:
            del self.queues[key]
        kind = key[0]
        if kind == "exec":
            self._run_on_engine(*item)
        elif kind == "ctl":
            self._control(*item)
        elif kind in ("reply", "iopub", "notif", "hubr"):
            stream = {"iopub": "iopub", "notif": "notification", "hubr": "query"}.get(kind) or key[1]
            self.to_client(stream, item)
        elif kind == "hubq":
            ident = self.ident if len(key) == 1 else self.peers[key[1]].ident
            self.box.run(lambda: self.box.query.deliver([ident] + item))
            self._hub_out()
        elif kind == "peer":
            self.to_client(key[2], item, self.peers[key[1]])
        else:
            raise HarnessError(key)

    def to_client(self, stream, frames, peer=None):
        if peer is not None and stream not in peer.streams:
            # its client was closed
            return
        try:
            (peer or self).streams[stream].deliver(frames)
        except Exception:
            # the IO loop logs it and goes on
            self.errors.append(traceback.format_exc())

    def call(self, fn, what="a blocking call", only=None, hang_s=None):
        """fn() in another thread while messages are delivered"""
        box = {}
        done = threading.Event()

        def go():
            try:
                box["value"] = fn()
            except BaseException as e:
                box["error"] = e
            done.set()
            with self.loop.cond:
                self.loop.cond.notify_all()

        t = threading.Thread(target=go, daemon=True)
        self.calling += 1
        t.start()
        last = time.monotonic()
        n = 0
        while not done.is_set():
            if self.step(only):
                last = time.monotonic()
                n += 1
                if n > 6000:
                    raise Violation("%s does not return, but asks over and over again" % what)
                continue
            with self.loop.cond:
                if not self.loop.q and not done.is_set():
                    self.loop.cond.wait(0.02)
            if time.monotonic() - last > (hang_s or HANG_S) and not done.is_set():
                fr = sys._current_frames().get(t.ident)
                where = "".join(traceback.format_stack(fr)[-4:]) if fr else ""
                raise Violation("%s does not return, and nothing is left to be delivered. It waits in\n%s%s" % (what, where, "".join(self.errors[-1:])))
        t.join()
        self.calling -= 1
        if "error" in box:
            raise box["error"]
        return box["value"]

    # -- what the client sends --------------------------------------------------
    def _from_client(self, name, frames, peer=None):
        ident = (peer or self).ident
        if peer is None:
            self.log.append((name, frames))
        if name == "mux" or name == "control":
            uuid = frames[0].decode()
            for e in self.engines.values():
                if e.uuid == uuid:
                    self.put(("exec" if name == "mux" else "ctl", uuid), (e, name, [ident], frames[1:]))
                    if name == "mux":
                        self._monitor(b"in", [uuid.encode(), ident] + frames[1:])
                    return
            if not any(e.uuid == uuid for e in self.dead):
                raise Violation("the client sent a message to nobody: %r" % frames[0])
        elif name == "task":
            e = self.place(frames)
            if e is not None:
                self.put(("exec", e.uuid), (e, name, [ident], frames))
                self._monitor(b"intask", [ident] + frames)
        elif name == "broadcast":
            if self.tree is None:
                raise HarnessError("no tree")
            self.tree.submit(ident, frames)
            for e in list(self.engines.values()):
                while e.inbox:
                    idents, msg = e.inbox.pop(0)
                    self.put(("exec", e.uuid), (e, name, idents, msg))
        elif name == "query":
            if self.box is None:
                raise HarnessError("no hub")
            self.put(("hubq",) if peer is None else ("hubq", peer.n), frames)
        else:
            raise HarnessError(name)

    def place(self, frames):
        """the task scheduler's part: pick an engine"""
        i = frames.index(DELIM)
        import json

        md = json.loads(frames[i + 4])
        hdr = json.loads(frames[i + 2])
        es = [self.engines[i] for i in sorted(self.engines) if not md.get("targets") or self.engines[i].uuid in md["targets"]]
        if not es:
            return None
        e = es[self.pick(len(es))]
        self.placed[hdr["msg_id"]] = e.id
        return e

    def _monitor(self, topic, frames):
        if self.box is None:
            return
        self.box.monitor.queue_in([topic] + list(frames))
        self.box.run(self.box.monitor.pump)
        self._hub_out()

    def _hub_out(self):
        for fr in self.box.query.take():
            if fr[0] == self.ident:
                self.put(("hubr",), fr[1:])
            for p in self.peers:
                if fr[0] == p.ident:
                    self.put(("peer", p.n, "query"), fr[1:])
        for fr in self.box.notifier.take():
            self.put(("notif",), fr)
            for p in self.peers:
                self.put(("peer", p.n, "notification"), fr)
        for fr in self.box.resubmit.take():
            # the scheduler's ROUTER socket puts the identity of the hub's there
            fr = [b"hub-resubmit"] + list(fr)
            i = fr.index(DELIM)
            e = self.place(fr[i:])
            if e is not None:
                self._monitor(b"intask", list(fr))
                self.put(("exec", e.uuid), (e, "task", [bytes(x) for x in fr[:i]], [bytes(x) for x in fr[i:]]))

    # -- engines ------------------------------------------------------------------
    def _run_on_engine(self, e, origin, idents, frames):
        if not e.alive:
            return
        if isinstance(frames, list):
            i = frames.index(DELIM)
            try:
                msg = e.session.deserialize(frames[i + 1:], content=True)
            except Exception as ex:
                raise Violation("engine %i got an invalid message: %r" % (e.id, ex))
        else:
            msg = frames
        e.session.digest_history.clear()
        mid = msg["header"]["msg_id"]
        if origin == "task":
            self._monitor_msg(b"tracktask", "task_destination", {"msg_id": mid, "engine_id": e.uuid})
        if mid in e.kernel.aborted:
            e.kernel.aborted.discard(mid)
            content, bufs = {"status": "aborted"}, []
        else:
            e.ran.append(mid)
            self.iopub(e, msg, "status", {"execution_state": "busy"})
            r = self.handler(e, msg)
            if r is None:
                return       # no answer
            content, bufs = r
            self.iopub(e, msg, "status", {"execution_state": "idle"})
        self.reply(e, origin, idents, msg, content, bufs)

    def reply(self, e, origin, idents, msg, content, bufs=()):
        bufs = [bytes(memoryview(b)) for b in bufs]
        frames, _ = e.reply(idents, msg, content, bufs)
        if origin == "broadcast":
            self.tree.engine_send(e, frames)
            return
        i = frames.index(DELIM)
        body = frames[i:]
        if self.box is not None:
            if origin == "task":
                self._monitor(b"outtask", frames)
            else:
                self._monitor(b"out", frames[:1] + [e.uuid.encode()] + frames[1:])
        if frames[0] == self.ident:
            self.put(("reply", origin, e.uuid), ([e.uuid.encode()] if origin == "mux" else []) + body)
        for p in self.peers:
            if frames[0] == p.ident:
                self.put(("peer", p.n, origin, e.uuid), ([e.uuid.encode()] if origin == "mux" else []) + body)

    def _from_tree(self, frames):
        self.put(("reply", "broadcast"), frames[1:])

    def iopub(self, e, parent, typ, content, buffers=(), metadata=None):
        md = dict(metadata or {})
        md.setdefault("engine", e.uuid)
        m = e.session.msg(typ, content=content, parent=parent, metadata=md)
        frames = [b"engine.%i.%s" % (e.id, typ.encode())] + [bytes(b) for b in e.session.serialize(m)] + [bytes(b) for b in buffers]
        self.put(("iopub", e.uuid), frames)
        for p in self.peers:
            self.put(("peer", p.n, "iopub", e.uuid), frames)
        if self.box is not None:
            self._monitor(b"iopub", frames)

    def _monitor_msg(self, topic, typ, content):
        if self.box is None:
            return
        s = make_session(self.key, "scheduler")
        self._monitor(topic, [bytes(b) for b in s.serialize(s.msg(typ, content=content), ident=[topic])][1:])

    def execute(self, e, msg):
        typ = msg["header"]["msg_type"]
        _current.shell = e.shell
        try:
            if typ == "apply_request":
                bufs = [zmq.Message(bytes(b)).buffer for b in msg["buffers"]]
                md = e.kernel.init_metadata(msg)
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    content, rbufs = e.kernel.do_apply(msg["content"], bufs, msg["header"]["msg_id"], md)
                if out.getvalue():
                    self.iopub(e, msg, "stream", {"name": "stdout", "text": out.getvalue()})
                return content, rbufs
            return self._execute_code(e, msg), []
        finally:
            _current.shell = None

    def _execute_code(self, e, msg):
        code, silent = msg["content"]["code"], msg["content"].get("silent")
        ns = e.shell.user_ns
        e.count += 1
        out = io.StringIO()
        self.iopub(e, msg, "execute_input", {"code": code, "execution_count": e.count})
        value = None
        try:
            tree = ast.parse(code)
            last = tree.body.pop() if tree.body and isinstance(tree.body[-1], ast.Expr) else None
            with contextlib.redirect_stdout(out):
                exec(compile(tree, "<code>", "exec"), ns)
                if last is not None:
                    value = eval(compile(ast.Expression(last.value), "<code>", "eval"), ns)
        except Exception as ex:
            if out.getvalue():
                self.iopub(e, msg, "stream", {"name": "stdout", "text": out.getvalue()})
            content = {"status": "error", "ename": type(ex).__name__, "evalue": str(ex), "traceback": traceback.format_exc().splitlines(),
                       "execution_count": e.count}
            self.iopub(e, msg, "error", {k: content[k] for k in ("ename", "evalue", "traceback")})
            content["engine_info"] = e.kernel.get_engine_info(method="execute")
            return content
        if out.getvalue():
            self.iopub(e, msg, "stream", {"name": "stdout", "text": out.getvalue()})
        if value is not None and not silent:
            self.iopub(e, msg, "execute_result", {"execution_count": e.count, "data": {"text/plain": repr(value)}, "metadata": {}})
        return {"status": "ok", "execution_count": e.count, "payload": [], "user_expressions": {}}

    def _control(self, e, name, idents, frames):
        if not e.alive:
            return
        msg = e.session.deserialize(frames[frames.index(DELIM) + 1:], content=True)
        e.session.digest_history.clear()
        st = FakeStream("ctl")
        typ = msg["header"]["msg_type"]
        handler = getattr(e.kernel, typ, None) if typ in ("abort_request", "clear_request") else None
        if handler is not None:
            handler(st, list(idents), msg)
        else:
            e.session.send(st, typ.replace("_request", "_reply"), content=getattr(e, "refuse", {}).get(typ, {"status": "ok"}), parent=msg, ident=list(idents))
        for fr in st.sent:
            self.put(next((("peer", p.n, "control", e.uuid) for p in self.peers if idents[0] == p.ident), ("reply", "control", e.uuid)), [e.uuid.encode()] + fr[len(idents):])
        e.control = getattr(e, "control", []) + [(typ, msg["content"])]
