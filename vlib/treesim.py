"""The broadcast tree as the controller wires it, on in-memory ROUTER sockets."""
import collections
import itertools
import os
import shutil
import tempfile

import zmq

from vlib.fakes import make_session
from vlib.runner import HarnessError, Violation, check, same

DELIM = b"<IDS|MSG>"
KEY = b"tree-key"


class Engine:
    def __init__(self, eid, uuid, key):
        from ipyparallel.engine.kernel import IPythonParallelKernel

        self.id = eid
        self.uuid = uuid
        self.session = make_session(key, "engine-" + uuid)
        k = IPythonParallelKernel.__new__(IPythonParallelKernel)
        k.ident = uuid
        k.engine_id = eid
        k.session = self.session
        self.kernel = k
        self.inbox = []      # (idents, msg)

    def reply(self, idents, msg, content, buffers=()):
        """frames of the reply to a message, as the kernel would send it"""
        k = self.kernel
        md = k.init_metadata(msg)
        content = dict(content)
        if content["status"] == "error":
            content.setdefault("engine_info", k.get_engine_info(method="apply"))
        md = k.finish_metadata(msg, md, content)
        typ = msg["header"]["msg_type"].replace("_request", "_reply")
        reply = self.session.msg(typ, content=content, parent=msg, metadata=md)
        return [bytes(b) for b in self.session.serialize(reply, ident=list(idents))] + [bytes(b) for b in buffers], reply


class Tree:
    """on_client(frames) gets what reaches clients"""

    def __init__(self, depth, threads=False, key=KEY, ids=()):
        from checks import c32
        from traitlets.config import Config
        from ipyparallel.controller.broadcast_scheduler import BroadcastScheduler

        self.key = key
        self.tmp = tempfile.mkdtemp(prefix="tree-")
        cfg = Config()
        cfg.IPController.broadcast_scheduler_depth = depth
        cfg.IPController.use_threads = threads
        cfg.IPController.log_level = 50
        cfg.IPController.auto_create = True
        cfg.ProfileDir.location = os.path.join(self.tmp, "profile")
        cfg.Session.key = key
        start = BroadcastScheduler.start
        try:
            app, rec = c32.start_controller(cfg, itertools.count(30000))
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        app.clear_instance()
        self.nodes = [s for s in rec.schedulers if isinstance(s, BroadcastScheduler)]
        for s in self.nodes:
            start(s)
        self.client_info, self.engine_info = dict(app.hub.client_info), dict(app.hub.engine_info)
        url = "%s:%s" % (self.client_info["interface"], self.client_info["broadcast"])
        root = [s for s in self.nodes if any(c32.reachable(url, b) for b in s.client_stream.socket.bound)]
        same(len(root), 1, "schedulers that bound %s" % url)
        self.root = root[0]
        # ROUTER sockets: stream -> {identity: where to}
        self.peers = {}
        self.queue = collections.deque()
        self.on_client = None
        streams = []
        for s in self.nodes:
            outs = [s.engine_stream] if s.is_leaf else list(s.outgoing_streams)
            for st in outs + [s.client_stream]:
                st.peers = {}
                streams.append(st)
        for a in streams:
            for url in a.socket.connected:
                for b in streams:
                    if any(c32.reachable(url, x) for x in b.socket.bound):
                        ia, ib = a.socket.opts.get(zmq.IDENTITY), b.socket.opts.get(zmq.IDENTITY)
                        if ia is None or ib is None:
                            raise Violation("a ROUTER without identity is connected to %s" % url)
                        check(ia not in b.peers and ib not in a.peers, "two peers with the same identity at %s", url)
                        b.peers[ia] = a
                        a.peers[ib] = b
        for st in streams:
            st.on_out = lambda frames, st=st: self.queue.append((st, frames))
        self.streams = streams
        self.engines = {}
        for eid in ids:
            self.add_engine(eid)
        self.lost = []

    def add_engine(self, eid, uuid=None):
        from checks import c32

        e = Engine(eid, uuid or "e%03i-%i" % (eid, len(self.engines)), self.key)
        urls = self.engine_info["broadcast"]
        # as the engine does
        url = "%s:%s" % (self.engine_info["interface"], urls[eid % len(urls)])
        at = [st for st in self.streams if any(c32.reachable(url, b) for b in st.socket.bound)]
        same(len(at), 1, "sockets bound to the engine's endpoint %s" % url)
        e.at = at[0]
        e.at.peers[e.uuid.encode()] = e
        self.engines[eid] = e
        return e

    def add_client(self, ident):
        self.root.client_stream.peers[ident] = ident

    def step(self):
        """carry one message over one hop"""
        st, frames = self.queue.popleft()
        st.sent.clear()
        to = st.peers.get(frames[0])
        if to is None:
            # a ROUTER drops what it can't route
            self.lost.append(frames)
            return
        if isinstance(to, Engine):
            e = to
            i = frames.index(DELIM)
            try:
                msg = e.session.deserialize(frames[i + 1:], content=True)
            except Exception as ex:
                raise Violation("engine %i got an invalid message: %r" % (e.id, ex))
            e.inbox.append((frames[1:i], msg))
        elif isinstance(to, bytes):
            self.on_client(frames)
        else:
            to.deliver([st.socket.opts[zmq.IDENTITY]] + frames[1:])

    def run(self):
        n = 0
        while self.queue:
            n += 1
            if n > 100000:
                raise Violation("messages circulate in the tree")
            self.step()

    def submit(self, ident, frames, run=True):
        self.root.client_stream.deliver([ident] + frames)
        if run:
            self.run()

    def engine_send(self, e, frames, run=True):
        e.at.deliver([e.uuid.encode()] + frames)
        if run:
            self.run()
