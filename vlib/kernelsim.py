"""A real engine kernel (IPythonParallelKernel with its IPython shell) on in-memory streams."""
import asyncio
import os
import sys
import tempfile

import zmq

from vlib import clock

clock.install()

from vlib.fakes import ErrLog, FakeLoop, FakeStream, make_session, quiet_log
from vlib.runner import HarnessError, Violation, check, same

DELIM = b"<IDS|MSG>"
KEY = b"engine-key"
_one = []


class Loop(FakeLoop):
    def add_callback(self, callback, *args, **kwargs):
        def run():
            r = callback(*args, **kwargs)
            if asyncio.iscoroutine(r):
                asyncio.ensure_future(r)

        super().add_callback(run)


class EngineBox:
    """one kernel per process, emptied for each case"""

    def __init__(self):
        os.environ.setdefault("PYDEVD_DISABLE_FILE_VALIDATION", "1")
        if "IPYTHONDIR" not in os.environ:
            os.environ["IPYTHONDIR"] = tempfile.mkdtemp(prefix="verif-ipython-")
        from traitlets.config import Config

        from ipyparallel.engine.kernel import IPythonParallelKernel

        cfg = Config()
        cfg.HistoryManager.enabled = False
        cfg.InteractiveShell.colors = "NoColor"
        cfg.InteractiveShell.xmode = "Plain"
        self.session = make_session(KEY, "engine")
        self.iopub = FakeStream("iopub")
        self.shell = FakeStream("shell")
        self.control = FakeStream("control")
        self.ns = {}
        out = sys.stdout, sys.stderr, sys.displayhook, sys.excepthook
        self.log = quiet_log()
        self.kernel = IPythonParallelKernel(
            session=self.session, engine_id=3, ident="e003", iopub_socket=self.iopub, shell_streams=[self.shell], control_stream=self.control,
            log=self.log, user_ns=self.ns, config=cfg)
        sys.stdout, sys.stderr, sys.displayhook, sys.excepthook = out
        self.aio = asyncio.new_event_loop()
        self.loop = Loop()
        self.loop.initialize()
        self.kernel.io_loop = self.loop
        self.kernel._control_lock = asyncio.Lock()
        self.kernel.shell.showsyntaxerror  # (fail early)

    def fresh(self):
        k = self.kernel
        k.shell.reset(new_session=True)
        k.aborted.clear()
        k._aborting = False
        for st in (self.iopub, self.shell, self.control):
            st.sent.clear()
        self.client = make_session(KEY, "client")
        self.session.digest_history.clear()
        return self

    def message(self, typ, content=None, bufs=(), md=None, msg=None):
        m = msg or self.client.msg(typ, content=content or {}, metadata=md)
        return m, [bytes(b) for b in self.client.serialize(m, ident=[b"client"])] + [bytes(b) for b in bufs]

    def dispatch(self, frames, channel="shell"):
        """what was sent: (shell or control replies, iopub messages)"""
        asyncio.set_event_loop(self.aio)
        frames = [zmq.Message(f) for f in frames]
        f = self.kernel.dispatch_shell if channel == "shell" else self.kernel.dispatch_control

        async def go():
            await f(frames)
            for _ in range(50):
                await asyncio.sleep(0)
                self.loop.run_callbacks()
                if len(asyncio.all_tasks()) == 1:
                    break

        out = sys.stdout, sys.stderr
        try:
            self.aio.run_until_complete(go())
        finally:
            sys.stdout, sys.stderr = out
        return self.take()

    def take(self):
        out = []
        for st in (self.shell, self.control, self.iopub):
            out.append([self.parse(fr) for fr in st.sent])
            st.sent.clear()
        if out[0] and out[1]:
            raise Violation("replies on both channels")
        return (out[0] or out[1]), out[2]

    def parse(self, frames):
        if DELIM not in frames:
            raise Violation("a message without delimiter: %r" % (frames,))
        i = frames.index(DELIM)
        self.client.digest_history.clear()
        try:
            m = self.client.deserialize(frames[i + 1:], content=True)
        except Exception as e:
            raise Violation("the engine sent an invalid message: %r: %r" % (e, frames))
        m["idents"] = frames[:i]
        return m


def box():
    if not _one or _one[0][0] != os.getpid():
        _one[:] = [(os.getpid(), EngineBox())]
    return _one[0][1].fresh()
