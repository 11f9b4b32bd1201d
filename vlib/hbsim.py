"""A real HeartMonitor whose beats are triggered by hand."""
from vlib import clock

clock.install()

from vlib.fakes import FakeLoop, FakeStream, make_session, quiet_log
from vlib.runner import HarnessError

KEY = b"hub-key"


class Beats:
    def __init__(self, misses, period=3000, key=KEY):
        from tornado import ioloop

        from ipyparallel.controller import heartmonitor

        self.loop = FakeLoop()
        self.ping = FakeStream("ping", self.loop)
        self.pong = FakeStream("pong", self.loop)
        self.mon = FakeStream("mon", self.loop)
        self.mon.socket = Subscribed("mon")
        self.session = make_session(key, "heartmonitor")
        started = []

        class Periodic:
            def __init__(self, callback, callback_time, *a, **k):
                self.callback, self.callback_time = callback, callback_time

            def start(self):
                started.append(self)

            def stop(self):
                started.remove(self)

            def is_running(self):
                return self in started

        orig = ioloop.PeriodicCallback
        ioloop.PeriodicCallback = Periodic
        try:
            self.hm = heartmonitor.HeartMonitor(ping_stream=self.ping, pong_stream=self.pong, monitor_stream=self.mon, session=self.session,
                                                period=period, max_heartmonitor_misses=misses, loop=self.loop, log=quiet_log())
            self.hm.start()
        finally:
            ioloop.PeriodicCallback = orig
        if len(started) != 1:
            raise HarnessError("%d timers" % len(started))
        self.timer = started[0]
        self.pings = []
        self.t = 1

    def beat(self):
        """one period passes; the ping sent"""
        clock.advance_to(clock.now() + self.timer.callback_time / 1000)
        self.timer.callback()
        sent = self.ping.take()
        self.pings.extend(fr[0] if len(fr) == 1 else fr for fr in sent)
        return sent

    def answer(self, heart, ping, queued=False):
        if queued:
            self.pong.queue_in([heart, ping])
        else:
            self.pong.deliver([heart, ping])

    def take(self):
        return self.mon.take()


class Subscribed:
    closed = False

    def __init__(self, name):
        self.identity = name.encode()

    def recv_multipart(self, *a, **k):
        return [b"\x01"]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: 0
