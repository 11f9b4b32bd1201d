"""In-memory stand-ins for ZMQ streams and the event loop, so that the controller's
components can be driven deterministically through the same callbacks as in production."""
import datetime
import heapq
import itertools
import logging
import time

import zmq
from tornado import ioloop
from zmq.eventloop import zmqstream

from vlib import clock
from vlib.runner import HarnessError


def quiet_log():
    log = logging.getLogger("verif")
    log.handlers = [logging.NullHandler()]
    log.propagate = False
    log.setLevel(logging.CRITICAL + 1)
    return log


class ErrLog(logging.Handler):
    """collects log records with exception info"""

    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)


class FakeLoop(ioloop.IOLoop):
    def __init__(self, *a, **k):
        pass

    def initialize(self, *a, **k):
        self._timeouts = []
        self._callbacks = []
        self._n = itertools.count()
        self.errors = []

    def time(self):
        return time.time()

    def add_timeout(self, deadline, callback, *args, **kwargs):
        if isinstance(deadline, datetime.timedelta):
            deadline = self.time() + deadline.total_seconds()
        h = [deadline, next(self._n), callback, args, kwargs, True]
        heapq.heappush(self._timeouts, h)
        return h

    def call_at(self, when, callback, *args, **kwargs):
        return self.add_timeout(when, callback, *args, **kwargs)

    def call_later(self, delay, callback, *args, **kwargs):
        return self.add_timeout(self.time() + delay, callback, *args, **kwargs)

    def remove_timeout(self, h):
        h[5] = False

    def add_callback(self, callback, *args, **kwargs):
        self._callbacks.append((callback, args, kwargs))

    add_callback_from_signal = add_callback

    def spawn_callback(self, callback, *args, **kwargs):
        self.add_callback(callback, *args, **kwargs)

    def add_future(self, future, callback):
        future.add_done_callback(lambda f: self.add_callback(callback, f))

    def start(self):
        raise HarnessError("loop.start called")

    def stop(self):
        pass

    def close(self, all_fds=False):
        pass

    def make_current(self):
        pass

    def clear_current(self):
        pass

    def add_handler(self, *a):
        pass

    def update_handler(self, *a):
        pass

    def remove_handler(self, *a):
        pass

    def run_callbacks(self):
        n = 0
        while self._callbacks:
            n += 1
            if n > 10000:
                raise HarnessError("callbacks do not end")
            cb, a, k = self._callbacks.pop(0)
            cb(*a, **k)

    def pending_timeouts(self):
        return [h for h in self._timeouts if h[5]]

    def advance(self, seconds, step=None):
        """Move virtual time on by `seconds`, running the timeouts that fall due, in order."""
        target = self.time() + seconds
        self.run_callbacks()
        while True:
            while self._timeouts and not self._timeouts[0][5]:
                heapq.heappop(self._timeouts)
            if not self._timeouts or self._timeouts[0][0] > target:
                break
            h = heapq.heappop(self._timeouts)
            clock.advance_to(h[0])
            h[5] = False
            if step:
                step()
            h[2](*h[3], **h[4])
            self.run_callbacks()
        clock.advance_to(target)


class FakeStream(zmqstream.ZMQStream):
    def __init__(self, name="", loop=None):
        self.name = name
        self.sent = []           # list of lists of bytes
        self._partial = []
        self._cb = None
        self._cb_copy = True
        self.inflight = []       # messages that arrived but were not read yet
        self.io_loop = loop
        self.socket = FakeSocket(name)
        self.on_out = None       # called with every sent message

    def __repr__(self):
        return "FakeStream(%s)" % self.name

    # receiving -----------------------------------------------------
    def on_recv(self, callback, copy=True):
        self._cb = callback
        self._cb_copy = copy

    def on_recv_stream(self, callback, copy=True):
        self._cb = None if callback is None else (lambda msg: callback(self, msg))
        self._cb_copy = copy

    def stop_on_recv(self):
        self._cb = None

    def on_send(self, *a, **k):
        pass

    def on_err(self, *a, **k):
        pass

    stop_on_send = on_send
    stop_on_err = on_send

    def deliver(self, frames):
        """hand a message to the component"""
        self.inflight.append([bytes(f) for f in frames])
        self.pump()

    def queue_in(self, frames):
        self.inflight.append([bytes(f) for f in frames])

    def pump(self):
        while self.inflight and self._cb is not None:
            frames = self.inflight.pop(0)
            if self._cb_copy:
                self._cb(list(frames))
            else:
                self._cb([zmq.Message(f) for f in frames])

    def flush(self, flag=None, limit=None):
        n = len(self.inflight)
        self.pump()
        return n

    def receiving(self):
        return self._cb is not None

    def sending(self):
        return False

    # sending -------------------------------------------------------
    @staticmethod
    def _b(f):
        if isinstance(f, zmq.Frame):
            return f.bytes
        if isinstance(f, (bytes, bytearray)):
            return bytes(f)
        if isinstance(f, memoryview):
            return f.tobytes()
        return bytes(memoryview(f))

    def send(self, msg, flags=0, copy=True, track=False, callback=None, **kw):
        self._partial.append(self._b(msg))
        if not flags & zmq.SNDMORE:
            self._done()

    def send_multipart(self, msg, flags=0, copy=True, track=False, callback=None, **kw):
        self._partial.extend(self._b(m) for m in msg)
        if not flags & zmq.SNDMORE:
            self._done()

    def _done(self):
        out, self._partial = self._partial, []
        self.sent.append(out)
        if self.on_out:
            self.on_out(out)

    def take(self):
        out, self.sent = self.sent, []
        return out

    # misc ------------------------------------------------------------
    def close(self, linger=None):
        self._cb = None

    def closed(self):
        return False

    def bind(self, *a, **k):
        return 0

    connect = setsockopt = set = setsockopt_string = bind

    def getsockopt(self, *a):
        return 0

    get = getsockopt

    def __del__(self):
        pass


class FakeSocket:
    def __init__(self, name):
        self.name = name
        self.closed = False
        self.identity = name.encode()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: 0


def make_session(key=b"secret-key", name=None, **kw):
    from ipyparallel import util
    from jupyter_client.session import Session

    util._disable_session_extract_dates()
    kw.setdefault("username", "u")
    if name:
        kw["session"] = name
    return Session(key=key, **kw)
