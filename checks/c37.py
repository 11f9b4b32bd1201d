"""C37: log records sent by controllers, schedulers and engines, and what the log watcher makes of them, over real (in-process) sockets."""
import contextlib
import logging
import os

from vlib.runner import Sub, Violation, check, same

PROPERTY = "C37"
RULE = ("cases: controllers, schedulers and engines (before and after they get their ids) forwarding their logs at any level, a watcher for any topics that change on the way, "
        "and histories of log calls with any text, arguments and exceptions, and invalid messages; what the watcher logs is compared with the records. Non-trivial: a record below the level of its sender, a changed set of topics, or records of two senders")
ASSUMPTIONS = ["the five standard levels (pyzmq's handler has formats for no others)", "text before '::' is a subtopic (pyzmq)", "topics are prefixes (zmq)"]
SHARDS = 4
QUICK_S = 15
THOROUGH_S = 150

LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
SOURCES = ["controller", "scheduler", "engine", "engine2"]


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    text = st.one_of(st.sampled_from(["hello", "", "a\nb", "ends\n", "\n", "100%", "%s and %i", "sub.topic::rest", "tcp://[::1]:5555", "\u00fcml\u00e4ut \u2603", "INFO", "x.DEBUG.y", "engine.5", "a::b::c", "::", " ", "\x00", "DEBUG::x"]),
                     st.text(max_size=8).filter(lambda t: not any(0xd800 <= ord(c) < 0xe000 for c in t)))
    topics = st.lists(st.sampled_from(["", "engine", "engine.0", "engine.1", "controller", "scheduler.INFO", "controller.ERROR", "engine.12.WARNING", "sch", "nothing", "\u00fc"]), min_size=1, max_size=3, unique=True)
    op = weighted((8, st.tuples(st.just("log"), st.integers(0, 3), st.sampled_from(sorted(LEVELS)), text, st.sampled_from([None, None, None, "args", "exc", "obj"]))),
                  (1, st.tuples(st.just("id"), st.integers(2, 3), st.sampled_from([0, 1, 10, 12]))), (1, st.tuples(st.just("topics"), topics)),
                  (1, st.tuples(st.just("raw"), st.lists(st.sampled_from([b"", b"x", b"controller.INFO", b"\xff.INFO", b".", b"engine.0.INFO", b"text\n", b"\xff\xfe", b"engine.WHAT", b"controller."]), min_size=1, max_size=3))))
    return st.fixed_dictionaries({"topics": st.one_of(st.just([""]), topics), "levels": st.lists(st.sampled_from(sorted(LEVELS.values())), min_size=4, max_size=4),
                                  "ids": st.lists(st.sampled_from([None, 0, 1, 10]), min_size=2, max_size=2), "ops": st.lists(op, min_size=1, max_size=12)})


class Rec(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.got = []

    def emit(self, record):
        self.got.append((record.levelno, record.getMessage()))


_n = [0]


def fresh_logger():
    _n[0] += 1
    log = logging.getLogger("c37.%i.%i" % (os.getpid(), _n[0]))
    log.propagate = False
    log.setLevel(1)
    return log


def run(case, ctx):
    from unittest import mock

    import zmq

    from ipyparallel import util
    from ipyparallel.apps.logwatcher import LogWatcher
    from ipyparallel.controller import app as capp
    from ipyparallel.engine import app as eapp
    from vlib.fakes import FakeLoop

    zctx = zmq.Context()
    errors = []
    try:
        with contextlib.ExitStack() as stack:
            stack.enter_context(mock.patch.object(zmq.Context, "instance", classmethod(lambda cls, *a, **k: zctx)))
            stack.enter_context(mock.patch.object(logging.Handler, "handleError", lambda self, record: errors.append(record)))
            rec, wlog = Rec(), fresh_logger()
            wlog.addHandler(rec)
            loop = FakeLoop()
            loop.initialize()
            watcher = LogWatcher(url="inproc://log", context=zctx, loop=loop, log=wlog, topics=case["topics"])
            stack.callback(watcher.stream.close)
            watcher.start()
            del rec.got[:]
            loggers, apps = [], {}
            for i, name in enumerate(SOURCES):
                level = case["levels"][i]
                if name == "controller":
                    a = capp.IPController(log=fresh_logger())
                    a.log_level = level
                    a.log.setLevel(1)
                    a.log_url = "inproc://log"
                    a.forward_logging()
                    loggers.append(a.log)
                elif name == "scheduler":
                    log = fresh_logger()
                    log = util.connect_logger(log.name, zctx, "inproc://log", root="scheduler", loglevel=level)
                    check(isinstance(log, logging.Logger), "connect_logger returned %r", log)
                    # a second time does not double what is sent
                    again = util.connect_logger(log.name, zctx, "inproc://log", root="scheduler", loglevel=level)
                    check(again is log, "connect_logger the second time returned %r", again)
                    loggers.append(log)
                else:
                    a = eapp.IPEngine(log=fresh_logger())
                    a.context = zctx
                    a.id = case["ids"][i - 2]
                    a.log_level = level
                    a.log.setLevel(1)
                    a.log_url = "inproc://log"
                    a.forward_logging()
                    apps[i] = a
                    loggers.append(a.log)
            socks = []
            for log in loggers:
                hs = [h for h in log.handlers if hasattr(h, "socket")]
                same(len(hs), 1, "handlers that forward")
                socks.append(hs[0].socket)
                stack.callback(hs[0].socket.close, 0)
            raw = zctx.socket(zmq.PUB)
            stack.callback(raw.close, 0)
            raw.connect("inproc://log")
            topics = list(case["topics"])
            senders = set()

            def sync():
                for _ in range(3):
                    for s in [watcher.stream.socket] + socks + [raw]:
                        s.getsockopt(zmq.EVENTS)

            def drain():
                sync()
                del rec.got[:]
                watcher.stream.flush()
                return list(rec.got)

            for op in case["ops"]:
                if op[0] == "topics":
                    drain()
                    topics = list(op[1])
                    watcher.topics = list(op[1])
                    ctx.tag("topics")
                    ctx.nontrivial()
                elif op[0] == "id":
                    apps[op[1]].id = op[2]
                elif op[0] == "raw":
                    sync()
                    raw.send_multipart(op[1])
                    got = drain()
                    wanted = any(op[1][0].startswith(t.encode()) for t in topics)
                    check(len(got) == int(wanted), "for the message %r the watcher logged %r", op[1], got)
                    ctx.tag("raw")
                else:
                    _, i, lname, text, extra = op
                    level = LEVELS[lname]
                    sync()
                    args = ()
                    kw = {}
                    msg = text
                    if extra == "args":
                        msg = text.replace("%", "%%") + " %s|%i"
                        args = ("\u00e9::x", 7)
                    elif extra == "obj":
                        msg = Obj(text)
                    if extra == "exc":
                        try:
                            raise ValueError("boom \u00fc")
                        except ValueError:
                            loggers[i].log(level, msg, *args, exc_info=True)
                    else:
                        loggers[i].log(level, msg, *args)
                    check(not errors, "a record could not be sent: %r", errors)
                    got = drain()
                    root = SOURCES[i]
                    if i >= 2:
                        root = "engine" if apps[i].id is None else "engine.%i" % apps[i].id
                    sub, sep, rest = str(msg).partition("::")
                    if not sep:
                        sub, rest = "", sub
                    if args:
                        if sep:
                            rest = rest % args
                        else:
                            rest = rest % args
                    topic = root + "." + lname + ("." + sub if sub else "")
                    if level < case["levels"][i]:
                        ctx.tag("below")
                        ctx.nontrivial()
                        same(got, [], "logged by the watcher for a record below the level of its sender")
                        continue
                    if not any(topic.encode().startswith(t.encode()) for t in topics):
                        ctx.tag("other_topic")
                        same(got, [], "logged by a watcher of %r for %r", topics, topic)
                        continue
                    senders.add(i)
                    ctx.tag("logged", lname)
                    same(len(got), 1, "times the watcher logged a %s of %s: %r", lname, root, got)
                    glevel, line = got[0]
                    same(glevel, level, "level of a %s of %s in the watcher (%r)", lname, root, line)
                    origin = root + ("." + sub if sub else "")
                    check(line.startswith("[%s] " % origin), "a record of %r was logged as %r", origin, line)
                    body = line[len("[%s] " % origin):]
                    if extra == "exc":
                        check(rest in body and "boom \u00fc" in body, "text and error of a record: %r in %r", rest, body)
                    elif lname == "INFO":
                        same(body, rest, "text of a record")
                    elif lname == "ERROR":
                        check(rest in body, "text of a record: %r in %r", rest, body)
                    else:
                        check(body.endswith(" - " + rest), "text of a record: %r in %r", rest, body)
            ctx.nontrivial(len(senders) > 1)
            watcher.stop()
            sync()
            for log in loggers:
                log.critical("late")
            same(drain(), [], "logged by a watcher that was stopped")
    finally:
        for name in list(logging.Logger.manager.loggerDict):
            if name.startswith("c37."):
                log = logging.getLogger(name)
                log.handlers[:] = []
                del logging.Logger.manager.loggerDict[name]
        zctx.destroy(linger=0)


class Obj:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


SUBS = [Sub("logs", strategy, run, quick=1000, thorough=12000)]
