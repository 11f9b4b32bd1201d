"""C35: an engine process: its registration, its watch over the controller's heartbeat, and its nanny (with stand-ins, and as real processes)."""
import asyncio
import contextlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

from vlib import forge
from vlib.runner import HarnessError, Sub, Violation, check, same

PROPERTY = "C35"
RULE = ("cases: (1) nannies: histories of control requests of any type with any buffers, signals by number and name, forged messages, replies of the engine, and the exit of the engine noticed in any order; "
        "(2) registrations: connection information, requested ids, curve keys, ssh tunnels, MPI ranks, replies granting another id, refusing, or never arriving; (3) schedules of pings and of the engine's checks for them; "
        "(4) real engines' nannies: requests and signals relayed, then a death of any kind. Non-trivial: (1) something relayed and a signal, or an exit; (2) tunnels, several broadcast leaves or a refusal; (3) missed pings; (4) each")
ASSUMPTIONS = ["no ping is counted as missed at the first check", "the clock does not run backwards"]
SHARDS = 8
QUICK_S = 28
THOROUGH_S = 300

DELIM = b"<IDS|MSG>"
KEY = b"engine-key"


# 1: the nanny, in memory -------------------------------------------------------------------------

def nanny_strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    sig = st.sampled_from([2, 15, 9, 10, 12, 0, "SIGINT", "SIGTERM", "SIGUSR1", "SIGKILL", "SIGNOPE", "", None, "absent", 1000, "SIGCONT"])
    typ = st.sampled_from(["execute_request", "apply_request", "clear_request", "abort_request", "shutdown_request", "signal", "kernel_info_request", "x", "signals_request", "interrupt_request", "signal_reply"])
    bufs = st.lists(st.sampled_from([b"", b"x", b"\x00" * 3, DELIM, b"<IDS|", b"long" * 100]), max_size=3)
    idents = st.lists(st.sampled_from([b"client", b"c\x00\xff", b"", b"sched"]), min_size=1, max_size=3)
    op = weighted((4, st.tuples(st.just("relay"), typ, idents, bufs)), (4, st.tuples(st.just("signal"), sig, idents)), (3, st.tuples(st.just("reply"), st.integers(0, 9), bufs)),
                  (1, st.tuples(st.just("forged"), st.booleans(), forge.strategy())), (1, st.tuples(st.just("garbage"), st.lists(st.binary(max_size=5), max_size=3))),
                  (1, st.tuples(st.just("dead"))), (1, st.tuples(st.just("pipe"))), (1, st.tuples(st.just("thread"), st.integers(0, 2))), (1, st.tuples(st.just("loop"))))
    # most engines end, which is noticed in more than one way
    signs = st.lists(st.sampled_from([("pipe",), ("thread", 0), ("thread", 2), ("both", True), ("both", False), ("loop",)]), max_size=4).map(lambda x: [("dead",)] + x)
    ops = st.tuples(st.lists(op, max_size=12), st.one_of(signs, signs, st.just([("loop",)])), st.lists(op, max_size=2)).map(lambda t: t[0] + t[1] + t[2])
    return st.fixed_dictionaries({"id": st.sampled_from([0, 1, 7, 123]), "ident": st.sampled_from([b"e1", b"\xc3\xa9", b"0000-1111"]), "curve": st.booleans(), "ops": ops,
                                  "status": st.sampled_from([None, 0, 1, -9, -15])})


class Process:
    """psutil's view of the engine"""

    def __init__(self):
        self.signals, self.dead, self.patience, self.code, self.waits = [], False, 0, None, 0

    def send_signal(self, sig):
        import psutil

        if self.dead:
            raise psutil.NoSuchProcess(4242)
        if not isinstance(sig, int):
            raise TypeError("signal number: %r" % (sig,))
        if sig > 64:
            raise OSError(22, "Invalid argument")
        self.signals.append(int(sig))

    def wait(self, timeout=None):
        import psutil

        self.waits += 1
        if not self.dead:
            if timeout is None:
                raise HarnessError("waiting forever for a process that lives")
            raise psutil.TimeoutExpired(timeout, 4242)
        if self.patience:
            self.patience -= 1
            raise psutil.TimeoutExpired(timeout, 4242)
        return self.code

    def status(self):
        import psutil

        if self.dead:
            raise psutil.NoSuchProcess(4242)
        return "sleeping"

    def is_running(self):
        return not self.dead


class Pipe:
    def __init__(self):
        self.written, self.closed = "", False

    def write(self, s):
        self.written += s

    def flush(self):
        pass

    def close(self):
        self.closed = True


class Sock:
    """a socket that records"""

    def __init__(self, env, kind):
        self.__dict__.update(env=env, kind=kind, connected=[], bound=[], opts={}, sent=[], closed=False, after=0)
        env.append(self)

    def __setattr__(self, k, v):
        import zmq

        opt = getattr(zmq, k.upper(), None) if k not in ("closed",) else None
        if opt is not None:
            self.opts[int(opt)] = v
        else:
            self.__dict__[k] = v

    def setsockopt(self, opt, v):
        self.opts[int(opt)] = v
        if self.connected or self.bound:
            self.after += 1

    set = setsockopt

    def connect(self, url):
        self.connected.append(url)

    def bind(self, url):
        self.bound.append(url)

    def bind_to_random_port(self, url, *a, **k):
        self.bound.append(url)
        return 4000 + len(self.env)

    def send_multipart(self, msg, flags=0, copy=True, track=False, **kw):
        if self.closed:
            raise HarnessError("sending on a closed socket")
        self.sent.append([bytes(m) for m in msg])

    def close(self, linger=None):
        self.closed = True

    def opt(self, name):
        import zmq

        return self.opts.get(int(getattr(zmq, name)))


def nanny_run(case, ctx):
    import logging
    from unittest import mock

    import zmq
    from traitlets.config import Config

    from ipyparallel.engine import nanny as mod
    from vlib.fakes import FakeLoop, FakeStream, make_session

    socks, streams, threads = [], [], []

    class Context:
        def socket(self, kind, *a, **k):
            return Sock(socks, kind)

        def term(self):
            pass

    class Stream(FakeStream):
        def __init__(self, socket, io_loop=None):
            FakeStream.__init__(self, "nanny", io_loop)
            self.socket = socket
            streams.append(self)

    class Thread:
        def __init__(self, target=None, name=None, daemon=None, args=(), kwargs=None):
            self.target, self.args, self.kwargs = target, args, kwargs or {}
            threads.append(self)

        def start(self):
            self.started = True

    class LoopClass:
        current = staticmethod(lambda *a, **k: loop)
        READ, ERROR, WRITE = 1, 4, 2

    loop = FakeLoop()
    loop.initialize()
    handlers, stopped = {}, []
    loop.add_handler = lambda fd, h, ev: handlers.__setitem__(fd, h)
    loop.remove_handler = lambda fd: handlers.pop(fd, None)
    loop.stop = lambda: stopped.append(1)
    proc, pipe = Process(), Pipe()
    proc.code = case["status"]
    curve = case["curve"]
    keys = (b"S" * 40, b"P" * 40, b"K" * 40) if curve else (b"", b"", b"")
    config = Config()
    config.Session.key = KEY
    pub = []

    def keypair():
        pub.append(1)
        return b"G" * 40, b"H" * 40
    with contextlib.ExitStack() as stack:
        p = lambda *a, **k: stack.enter_context(mock.patch.object(*a, **k))
        p(mod.psutil, "Process", lambda pid: proc)
        p(mod.zmq, "Context", Context)
        p(mod.zmq, "curve_keypair", keypair)
        p(mod, "ZMQStream", Stream)
        p(mod, "Thread", Thread)
        p(mod, "IOLoop", LoopClass)
        p(mod.signal, "signal", lambda *a: None)
        logging.getLogger("KernelNanny.%i" % case["id"]).handlers[:] = []
        n = mod.KernelNanny(pid=4242, engine_id=case["id"], control_url="tcp://10.0.0.1:1", registration_url="tcp://10.0.0.1:2", identity=case["ident"], curve_serverkey=keys[0], curve_publickey=keys[1],
                            curve_secretkey=keys[2], config=config, pipe=pipe, log_level=100)
        n.log.setLevel(100)
        asyncio.new_event_loop().run_until_complete(n.start())
        client, engine = make_session(KEY, "client"), make_session(KEY, "engine")
        up = [s for s in streams if s.socket.connected]
        down = [s for s in streams if s.socket.bound]
        check(len(up) == 1 and len(down) == 1 and len(streams) == 2, "sockets of the nanny: %r", [(s.socket.connected, s.socket.bound) for s in streams])
        up, down = up[0], down[0]
        same(up.socket.connected, ["tcp://10.0.0.1:1"], "control url of the nanny")
        same(up.socket.kind, zmq.ROUTER, "kind of the control socket")
        same(up.socket.opt("IDENTITY"), case["ident"], "identity of the control socket")
        same(up.socket.opt("CURVE_SERVERKEY") or b"", keys[0], "server key of the control socket")
        url = pipe.written
        check(url.endswith("\n") and url.count("\n") == 1, "told the engine %r", url)
        check(url.startswith("tcp://127.0.0.1:") and url.strip().rpartition(":")[2].isdigit(), "told the engine %r", url)
        same(down.socket.opt("CURVE_SECRETKEY") or b"", keys[2], "secret key towards the engine")
        same(bool(down.socket.opt("CURVE_SERVER")), curve, "curve towards the engine")
        same([s.socket.after for s in streams], [0, 0], "options set after connecting")
        same(len(threads), 1, "threads watching")
        last = None
        exited = False          # told that the engine has exited
        relayed = 0
        mark = len(socks)
        for op in case["ops"]:
            what = op[0]
            if stopped:
                break
            ctx.tag(what)
            if what == "relay":
                m = client.msg(op[1], content={"a": 1})
                frames = [bytes(f) for f in client.serialize(m, ident=list(op[2]))] + list(op[3])
                up.deliver(frames)
                got = down.take()
                same(got, [frames], "a %s relayed to the engine", op[1])
                same(up.take(), [], "replies of the nanny to a %s", op[1])
                last = frames
                relayed += 1
            elif what == "reply":
                m = engine.msg("any_reply", content={"n": op[1]})
                frames = [b"client"] + [bytes(f) for f in engine.serialize(m)] + list(op[2])
                down.deliver(frames)
                same(up.take(), [frames], "a reply of the engine relayed")
                same(down.take(), [], "sent to the engine with a reply")
            elif what == "signal":
                sig = op[1]
                content = {} if sig == "absent" else {"sig": sig}
                m = client.msg("signal_request", content=content)
                frames = [bytes(f) for f in client.serialize(m, ident=list(op[2]))]
                before = list(proc.signals)
                up.deliver(frames)
                same(down.take(), [], "sent to the engine with a signal request")
                out = up.take()
                same(len(out), 1, "replies to a signal request")
                i = out[0].index(DELIM)
                same(out[0][:i], list(op[2]), "where the reply to a signal request goes")
                client.digest_history.clear()
                r = client.deserialize(out[0][i + 1:])
                same(r["parent_header"].get("msg_id"), m["header"]["msg_id"], "parent of the reply")
                number = sig if isinstance(sig, int) and sig < 64 else int(getattr(signal, sig)) if isinstance(sig, str) and sig.startswith("SIG") and hasattr(signal, sig) else None
                if number is None or proc.dead:
                    same(proc.signals, before, "signals sent for %r", sig)
                    same(r["content"]["status"], "error", "status of a failed signal request (%r)", sig)
                    check(r["content"].get("ename") and "evalue" in r["content"] and "traceback" in r["content"], "error of a failed signal request: %r", r["content"])
                else:
                    same(proc.signals, before + [number], "signals sent for %r", sig)
                    same(r["content"], {"status": "ok"}, "reply to a signal request (%r)", sig)
                same(r["header"]["msg_type"], "signal_reply", "type of the reply to a signal request")
            elif what in ("forged", "garbage"):
                if what == "forged":
                    m = client.msg("signal_request" if op[1] else "clear_request", content={"sig": 15})
                    frames = forge.forge([b"client"] + [bytes(f) for f in client.serialize(m)], op[2], last)
                    before = list(proc.signals)
                    up.deliver(frames)
                    same(proc.signals, before, "signals sent for a forged message")
                else:
                    up.deliver(list(op[1]))
                same(up.take(), [], "replies to a %s message", what)
                same(down.take(), [], "%s message relayed", what)
            elif what == "dead":
                proc.dead = True
            elif what == "pipe":
                h = handlers.get(pipe)
                if h is not None:
                    # closed, though the engine may still be there for a moment
                    h(pipe, 1)
                    exited = True
                    check(pipe not in handlers, "still watching a closed pipe")
            elif what in ("thread", "both"):
                def closed():
                    h = handlers.get(pipe)
                    if what == "both" and h is not None:
                        h(pipe, 1)
                if proc.dead and threads[0] is not None:
                    # (both: in the same turn of the loop, in any order)
                    if what == "both" and op[1]:
                        closed()
                    proc.patience = op[1] if what == "thread" else 0
                    t, threads[0] = threads[0], None
                    t.target(*t.args, **t.kwargs)
                    closed()
                    exited = True
                    ctx.tag("noticed")
            if what in ("thread", "pipe", "both", "loop"):
                loop.run_callbacks()
                loop.run_callbacks()
            if what not in ("thread", "both"):
                judge_exit(socks[mark:], exited, client, case["id"], keys, stopped)
        loop.run_callbacks()
        loop.run_callbacks()
        judge_exit(socks[mark:], exited, client, case["id"], keys, stopped)
        same(len(stopped) > 0, exited, "the nanny stopped")
        if exited:
            ctx.tag("exited")
        ctx.nontrivial(exited or relayed and bool(proc.signals))


def judge_exit(socks, exited, client, eid, keys, stopped):
    if not exited:
        same(socks, [], "sockets opened by a nanny whose engine lives")
        check(not stopped, "the nanny of a living engine stopped")
        return
    same(len(socks), 1, "sockets opened to report the exit")
    s = socks[0]
    same(s.connected, ["tcp://10.0.0.1:2"], "where the exit is reported")
    same([s.opt("CURVE_SERVERKEY") or b"", s.opt("CURVE_PUBLICKEY") or b"", s.opt("CURVE_SECRETKEY") or b""], list(keys), "curve keys for the report of the exit")
    same(len(s.sent), 1, "reports of the exit")
    client.digest_history.clear()
    i = s.sent[0].index(DELIM)
    m = client.deserialize(s.sent[0][i + 1:])
    same((m["header"]["msg_type"], m["content"]), ("unregistration_request", {"id": eid}), "report of the exit")
    linger = s.opt("LINGER")
    check(linger is None or linger != 0, "the report is dropped when the socket closes: LINGER %r", linger)


# 2: registration ---------------------------------------------------------------------------------

def register_strategy():
    from hypothesis import strategies as st

    port = st.integers(1, 65535)
    return st.fixed_dictionaries({
        "interface": st.sampled_from(["tcp://127.0.0.1", "tcp://*", "tcp://0.0.0.0", "tcp://10.0.0.9", "ipc:///tmp/x"]),
        "location": st.sampled_from(["", "10.0.0.7", "10.0.0.77", "other.host"]),
        "override": st.sampled_from([None, None, None, "10.0.0.8"]),
        "ports": st.lists(port, min_size=8, max_size=8, unique=True),
        "leaves": st.lists(st.integers(1, 65535), min_size=1, max_size=5, unique=True),
        "curve": st.booleans(),
        "ssh": st.sampled_from([None, None, "server", "file", "key", "both"]),
        "password": st.booleans(),
        "want": st.sampled_from([None, None, 0, 1, 5, 150]),
        "mpi": st.booleans(),
        "given": st.sampled_from(["same", "same", "other", "zero"]),
        "reply": st.sampled_from(["ok", "ok", "ok", "ok", "ok", "error", "silence", "error2", "forged"]),
        "nanny": st.booleans(),
        "ident": st.sampled_from(["", "my-engine", "\u00e9"]),
        "env": st.booleans(),
        "misses": st.sampled_from([0, 1, 50]),
        "period": st.sampled_from([100, 3000]),
        "startup": st.sampled_from([None, "x = 1"]),
    })


@contextlib.contextmanager
def scratch():
    d = os.path.realpath(tempfile.mkdtemp(prefix="c35-"))
    here = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(here)
        import shutil

        assert "/c35-" in d
        shutil.rmtree(d)


class Exit(Exception):
    pass


def register_run(case, ctx):
    out = sys.stdout, sys.stderr, sys.displayhook, list(sys.path)
    env = dict(os.environ)
    try:
        with scratch() as d:
            Registration(case, ctx, d).go()
    finally:
        sys.stdout, sys.stderr, sys.displayhook = out[:3]
        sys.path[:] = out[3]
        os.environ.clear()
        os.environ.update(env)


class Registration:
    def __init__(self, case, ctx, d):
        self.case, self.ctx, self.d = case, ctx, d

    def go(self):
        from unittest import mock

        import zmq
        import zmq.asyncio
        from traitlets.config import Config

        from ipyparallel import util
        from ipyparallel.engine import app as mod
        from vlib.fakes import FakeLoop, FakeStream, make_session, quiet_log

        case, ctx = self.case, self.ctx
        self.socks = socks = []
        hub = make_session(KEY, "hub")
        p = case["ports"]
        server = case["ssh"] in ("server", "both") and "gate" or ""
        info = {"interface": case["interface"], "location": case["location"], "registration": p[0], "control": p[1], "mux": p[2], "task": p[3], "iopub": p[4], "hb_ping": p[5], "hb_pong": p[6],
                "broadcast": case["leaves"], "key": KEY.decode(), "signature_scheme": "hmac-sha256", "pack": "json", "unpack": "json", "ssh": "filegate" if case["ssh"] == "file" else ""}
        curve = case["curve"]
        if curve:
            info["curve_serverkey"] = "S" * 40
        cfg = Config()
        if server:
            cfg.IPEngine.sshserver = server
        if case["ssh"] in ("key", "both"):
            cfg.IPEngine.sshkey = "/some/key"
        cfg.IPEngine.enable_nanny = case["nanny"]
        cfg.IPEngine.max_heartbeat_misses = case["misses"]
        if case["startup"]:
            cfg.IPEngine.startup_command = case["startup"]
        os.environ.pop("IPP_CONNECTION_INFO", None)
        path = os.path.join(self.d, "f.json")
        if case["env"]:
            os.environ["IPP_CONNECTION_INFO"] = json.dumps(info)
        else:
            with open(path, "w") as f:
                json.dump(info, f)
        want = case["want"]
        tunnels, hearts, nannies, kernels, exits, timers, slept, apps, outs, got_pass = [], [], [], [], [], [], [], [], [], []

        class Context(zmq.Context):
            def __init__(self, *a, **k):
                pass

            def socket(self, kind, *a, **k):
                return Sock(socks, kind)

            def __del__(self):
                pass

            destroy = term = lambda self, *a, **k: None

        class Tunnel:
            def try_passwordless_ssh(self, server, keyfile, paramiko=None):
                tunnels.append(("try", server, keyfile))
                return not case["password"]

            def tunnel_connection(self, sock, url, server, keyfile=None, password=None, paramiko=None, timeout=60):
                tunnels.append((url, server, keyfile, password))
                sock.connect("tunnel:" + url)

            def open_tunnel(self, url, server, keyfile=None, password=None, paramiko=None, timeout=60):
                tunnels.append((url, server, keyfile, password))
                return "tunnel:" + url, object()

        class Heart:
            def __init__(self, ping, pong, mon=None, **k):
                self.__dict__.update(k, ping=ping, pong=pong, mon=mon, started=0)
                hearts.append(self)

            def start(self):
                self.started += 1

        class Stub:
            def __init__(self, *a, **k):
                self.args, self.kw, self.started = a, k, 0

            def start(self):
                self.started += 1

            def __getattr__(self, name):
                if name.startswith("__"):
                    raise AttributeError(name)
                return lambda *a, **k: None

        class Thread(Stub):
            io_loop = FakeLoop()

        class IOPub(Stub):
            def __init__(self, socket, pipe=False, session=False):
                Stub.__init__(self)
                self.socket = socket

        from ipykernel.displayhook import ZMQDisplayHook
        from ipykernel.iostream import OutStream

        class Out(OutStream):
            def __init__(self, session, iopub, name, **k):
                self.iopub, self.name, self.written = iopub, name, []
                outs.append(self)

            def __del__(self):
                pass

            def write(self, s):
                self.written.append(s)

            def flush(self):
                pass

        class Hook(ZMQDisplayHook):
            def __init__(self, session, iopub, **k):
                self.__dict__.update(name="execute_result", iopub=iopub)
                outs.append(self)

        class Shell:
            class display_pub:
                topic = None

        class Kern(mod.Kernel):
            def __init__(self, **k):
                self.__dict__["kw"] = k
                self.__dict__["starts"] = 0
                self.__dict__["sh"] = Shell()
                kernels.append(self)

            shell = property(lambda self: self.sh)

            @classmethod
            def instance(cls, *a, **k):
                return cls(*a, **k)

            def start(self):
                self.__dict__["starts"] += 1

        class KApp(mod.IPKernelApp):
            def __init__(self, **k):
                self.__dict__.update(kw=k, calls=[], lines=list(k["parent"].config.IPKernelApp.get("exec_lines", [])))
                apps.append(self)

            exec_lines = property(lambda self: self.lines)
            init_profile_dir = init_gui_pylab = init_extensions = lambda self, *a: None

            def init_code(self):
                self.calls.append(list(self.lines))

        class Poller:
            def register(self, sock, flags=0):
                self.sock = sock

            async def poll(self, timeout=None):
                check(timeout is not None and timeout > 0, "waiting forever for the reply to a registration")
                slept.append(("poll", timeout))
                return [] if case["reply"] == "silence" else [(self.sock, 1)]

        class Periodic:
            def __init__(self, callback, callback_time, *a, **k):
                self.callback, self.time, self.started = callback, callback_time, 0
                timers.append(self)

            def start(self):
                self.started += 1

            def stop(self):
                self.started -= 1

        class Stream(FakeStream):
            def __init__(self, socket, io_loop=None):
                FakeStream.__init__(self, "engine", io_loop)
                self.socket = socket

        def start_nanny(**k):
            nannies.append(k)
            return "tcp://127.0.0.1:5555", object()

        eng = mod.IPEngine(config=cfg, log=quiet_log())
        if case["ident"]:
            eng.ident = case["ident"]
        rank = None
        if case["mpi"]:
            eng.use_mpi = True
        if want is not None:
            eng.id = want
        if case["override"]:
            eng.location = case["override"]
            eng.cli_config = Config({"IPEngine": {"location": case["override"]}})
        eng.url_file = path
        eng.out_stream_factory = Out
        eng.display_hook_factory = Hook

        def leave(code=0):
            exits.append(code)
            raise Exit(code)
        gave = {"same": want if want is not None else 3, "other": 8 if want != 8 else 9, "zero": 0}[case["given"]]
        failed = None
        with contextlib.ExitStack() as stack:
            pt = lambda *a, **k: stack.enter_context(mock.patch.object(*a, **k))
            pt(mod.IPEngine, "exit", lambda self, code=0: leave(code))
            pt(mod.IPEngine, "tunnel_mod", Tunnel())
            pt(mod.IPEngine, "registrar", None)
            pt(mod.IPEngine, "init_signal", lambda self: None)
            pt(mod.sys, "exit", leave)
            pt(mod, "start_nanny", start_nanny)
            pt(mod, "Heart", Heart)
            pt(mod, "ControlThread", Thread)
            pt(mod, "IOPubThread", IOPub)
            pt(mod, "IPKernelApp", KApp)
            pt(mod, "Kernel", Kern)
            pt(mod, "getpass", lambda prompt: got_pass.append(prompt) or "secret")
            pt(mod.time, "sleep", lambda s: slept.append(("sleep", s)))
            pt(mod.ioloop, "PeriodicCallback", Periodic)
            pt(mod.zmqstream, "ZMQStream", Stream)
            pt(zmq.asyncio, "Poller", Poller)
            pt(mod.zmq, "curve_keypair", lambda: (b"P" * 40, b"K" * 40))
            for m in (util, mod):
                if hasattr(m, "localhost"):
                    pt(m, "localhost", lambda: "127.0.0.1")
            pt(util, "is_public_ip", lambda ip: ip == "10.0.0.77")
            pt(util, "public_ips", lambda: ["10.0.0.77"])
            pt(util, "ip_for_host", lambda h: "10.5.5.5")
            eng.context = Context()
            eng.kernel = None
            loop = FakeLoop()
            loop.initialize()
            eng.loop = loop
            stack.callback(setattr, mod.IPKernelApp, "_instance", None)
            try:
                eng.init_engine()
                uuid = eng.ident

                def recv(sock):
                    kw = {"ok": dict(status="ok", id=gave, hb_period=case["period"]), "forged": dict(status="ok", id=gave, hb_period=case["period"]),
                          "error": hub_error("id taken"), "error2": {"status": "error", "ename": "KeyError", "evalue": "x", "traceback": []}}[case["reply"]]
                    s = make_session(b"wrong", "hub") if case["reply"] == "forged" else hub
                    return [bytes(f) for f in s.serialize(s.msg("registration_reply", content=kw))]
                Sock.recv_multipart = recv
                stack.callback(delattr, Sock, "recv_multipart")
                aio = asyncio.new_event_loop()
                try:
                    aio.run_until_complete(eng.register())
                finally:
                    aio.close()
            except Exit as e:
                failed = e
        self.judge(eng, uuid, gave, failed, hub, info, server, dict(tunnels=tunnels, hearts=hearts, nannies=nannies, kernels=kernels, exits=exits, timers=timers, slept=slept, apps=apps, outs=outs, got_pass=got_pass))

    def judge(self, eng, uuid, gave, failed, hub, info, server, r):
        import zmq

        case, ctx, socks = self.case, self.ctx, self.socks
        ok = case["reply"] == "ok"
        location = case["override"] or case["location"]
        proto, _, host = case["interface"].partition("://")
        if host in ("*", "0.0.0.0"):
            if not location:
                host = "127.0.0.1"
            elif location == "other.host":
                host = "10.5.5.5"
            elif location == "10.0.0.77":
                host = "127.0.0.1"
            else:
                host = location
        base = "%s://%s" % (proto, host)
        url = lambda port: "%s:%i" % (base, port)
        server = server or info["ssh"]
        key = "/some/key" if case["ssh"] in ("key", "both") else ""
        if key and not server:
            server = host if proto == "tcp" else None
        ssh = bool(server or key)
        curve = case["curve"]
        same(bool(failed), not ok, "an engine gave up")
        reg = [s for s in socks if s.sent]
        check(len(reg) == 1 and reg[0] is socks[0], "registration requests on %i sockets", len(reg))
        reg = reg[0]
        wrap = (lambda u: "tunnel:" + u) if ssh else (lambda u: u)
        same(reg.connected, [wrap(url(info["registration"]))], "where the engine registers")
        msgs = []
        for fr in reg.sent:
            hub.digest_history.clear()
            m = hub.deserialize(fr[fr.index(DELIM) + 1:])
            msgs.append((m["header"]["msg_type"], m["content"]))
        content = {"uuid": uuid}
        if case["want"] is not None:
            content["id"] = case["want"]
        same(msgs[0], ("registration_request", content), "registration request")
        ident = uuid.encode()
        same(reg.opt("IDENTITY"), ident, "identity of the registration")
        if case["ident"]:
            same(uuid, case["ident"], "uuid of the engine")
        delays = [s for w, s in r["slept"] if w == "sleep"]
        if case["mpi"] and (case["want"] or 0) >= 100:
            check(delays and abs(delays[0] - case["want"] * 0.02) < 1e-6, "delays %r", delays)
        elif ok:
            same(delays, [], "delays")
        same([t for w, t in r["slept"] if w == "poll"], [5000], "patience in ms")
        if ssh:
            ctx.tag("ssh")
        servers = {t[1] for t in r["tunnels"]}
        check(servers <= {server}, "tunnels through %r instead of %r", servers, server) if server else None
        check(all(t[2] == key for t in r["tunnels"]), "keys of tunnels: %r", r["tunnels"])
        same(len([t for t in r["tunnels"] if t[0] == "try"]), int(ssh), "tries without a password")
        same(len(r["got_pass"]), int(ssh and case["password"]), "passwords asked for")
        check(all(t[3] == ("secret" if case["password"] else False) for t in r["tunnels"] if t[0] != "try"), "passwords of tunnels: %r", r["tunnels"])
        ctx.nontrivial(ssh or len(info["broadcast"]) > 1 or not ok)
        if not ok:
            ctx.tag("refused")
            same(r["exits"], [255], "exit code of an engine that is refused")
            same([len(r[k]) for k in ("hearts", "kernels", "nannies", "timers")], [0] * 4, "what a refused engine started")
            if case["reply"] == "silence":
                same(msgs[1:], [("unregistration_request", {"id": case["want"]})], "what an engine tells that gives up")
            return
        same(msgs[1:], [], "further messages of a registered engine")
        same(r["exits"], [], "exits")
        same(eng.id, gave, "id of the engine")
        # sockets
        leaf = info["broadcast"][gave % len(info["broadcast"])]
        want = {"shell": [url(info["mux"]), url(info["task"]), url(leaf)], "iopub": [url(info["iopub"])], "control": [url(info["control"])]}
        if case["nanny"]:
            same(len(r["nannies"]), 1, "nannies")
            k = r["nannies"][0]
            same((k["engine_id"], k["identity"], k["control_url"], k["registration_url"]), (gave, ident, url(info["control"]), url(info["registration"])), "what the nanny is told")
            same(bytes(k["config"].Session.key), KEY, "key of the nanny")
            same((k["curve_serverkey"], k["curve_publickey"], k["curve_secretkey"]), ((b"S" * 40, b"P" * 40, b"K" * 40) if curve else (b"", b"", b"")), "curve keys of the nanny")
            want["control"] = ["tcp://127.0.0.1:5555"]
            ctx.tag("nanny")
        else:
            same(r["nannies"], [], "nannies")
        same(len(r["kernels"]), 1, "kernels")
        kernel = r["kernels"][0]
        found = {"shell": kernel.kw["shell_streams"][0].socket if len(kernel.kw["shell_streams"]) == 1 else None, "iopub": kernel.kw["iopub_socket"].socket, "control": kernel.kw["control_stream"].socket}
        check(found["shell"] is not None, "%i shell streams", len(kernel.kw["shell_streams"]))
        for name, s in found.items():
            same(sorted(s.connected), sorted(wrap(u) for u in want[name]), "what %s connects to", name)
            same(s.opt("IDENTITY"), ident, "identity of %s", name)
            keys = None
            if curve:
                keys = (b"P" * 40 if name == "control" and case["nanny"] else b"S" * 40, b"P" * 40, b"K" * 40)
                same((s.opt("CURVE_SERVERKEY"), s.opt("CURVE_PUBLICKEY"), s.opt("CURVE_SECRETKEY")), keys, "curve keys of %s", name)
            else:
                check(not s.opt("CURVE_SERVERKEY"), "curve key without curve for %s", name)
        same(found["iopub"].opt("SNDHWM"), 0, "output dropped")
        same((kernel.kw["engine_id"], kernel.kw["ident"]), (gave, uuid), "id and ident of the kernel")
        same(kernel.starts, 1, "starts of the kernel")
        same(kernel.kw["iopub_socket"].started, 1, "starts of the output thread")
        same(kernel.sh.display_pub.topic, b"engine.%i.displaypub" % gave, "topic of displayed data")
        same(sorted((o.name, o.topic) for o in r["outs"]), [(n, b"engine.%i.%s" % (gave, n.encode())) for n in ("execute_result", "stderr", "stdout")], "topics of output")
        check(all(o.iopub is kernel.kw["iopub_socket"] for o in r["outs"]), "output goes to another socket")
        same(len(r["apps"]), 1, "kernel apps")
        lines = r["apps"][0].calls
        same(len(lines), 1, "runs of the startup code")
        expect = [case["startup"]] if case["startup"] else []
        if case["mpi"]:
            expect = [eng.init_mpi] + expect
        same(lines[0], expect, "startup code")
        # messages
        rec = Sock([], 0)
        kernel.kw["session"].send(rec, "any", content={}, metadata={"x": 1})
        kernel.kw["session"].send(rec, "any", content={})
        for fr, x in zip(rec.sent, ({"x": 1}, {})):
            hub.digest_history.clear()
            m = hub.deserialize(fr[fr.index(DELIM) + 1:])
            same(m["metadata"], dict(x, engine=uuid), "metadata of messages")
        # heart
        same(len(r["hearts"]), 1, "hearts")
        h = r["hearts"][0]
        same((h.ping, h.pong, h.heart_id, h.started), (wrap(url(info["hb_ping"])), wrap(url(info["hb_pong"])), ident, 1), "the heart")
        same((h.curve_serverkey, h.curve_secretkey, h.curve_publickey), (b"S" * 40, b"K" * 40, b"P" * 40) if curve else (b"", b"", b""), "curve keys of the heart")
        if case["misses"]:
            same(len(r["timers"]), 1, "timers")
            check(r["timers"][0].started == 1 and r["timers"][0].time > case["period"], "pings come every %r ms, and are looked for every %r ms", case["period"], r["timers"][0].time)
            check(h.mon is not None, "nobody tells the engine of pings")
        else:
            same((r["timers"], h.mon), ([], None), "watching for pings, though disabled")


def hub_error(why):
    from ipyparallel import error

    try:
        raise KeyError(why)
    except KeyError:
        return error.wrap_exception()


# 3: watching the controller ----------------------------------------------------------------------

def beats_strategy():
    from hypothesis import strategies as st

    # per check: how many pings arrive, when, and whether they are read at once or wait in the queue
    window = st.tuples(st.sampled_from([0, 0, 0, 1, 1, 2]), st.floats(0.01, 0.99), st.booleans())
    run = st.tuples(window, st.integers(1, 5))
    return st.tuples(st.integers(1, 5), st.sampled_from([100, 3000]), st.lists(run, min_size=1, max_size=6))


def beats_run(case, ctx):
    from unittest import mock

    from vlib import clock

    clock.install()
    from ipyparallel.engine import app as mod
    from vlib.fakes import FakeLoop, FakeStream, make_session, quiet_log

    misses, period, runs = case
    plan = [w for w, k in runs for _ in range(k)]
    timers, stopped, socks, listeners = [], [], [], []
    hub = make_session(KEY, "hub")

    class Periodic:
        def __init__(self, callback, callback_time, *a, **k):
            self.callback, self.time, self.on = callback, callback_time, False
            timers.append(self)

        def start(self):
            self.on = True

        def stop(self):
            self.on = False

    class Stream(FakeStream):
        def __init__(self, socket, io_loop=None):
            FakeStream.__init__(self, "hb", io_loop)
            self.socket = socket
            listeners.append(self)

    class Heart:
        def __init__(self, *a, **k):
            pass

        def start(self):
            pass

    import zmq

    class Context(zmq.Context):
        def __init__(self, *a, **k):
            pass

        def socket(self, kind, *a, **k):
            return Sock(socks, kind)

        def __del__(self):
            pass

        destroy = term = lambda self, *a, **k: None

    eng = mod.IPEngine(log=quiet_log())
    eng.log.setLevel(100)
    eng.session = make_session(KEY, "engine")
    eng.max_heartbeat_misses = misses
    eng.id = 3
    eng.context = Context()
    loop = FakeLoop()
    loop.initialize()
    loop.stop = lambda: stopped.append(1)
    eng.loop = loop
    registrar = Sock(socks, 0)
    with mock.patch.object(mod, "Heart", Heart), mock.patch.object(mod.ioloop, "PeriodicCallback", Periodic), mock.patch.object(mod.zmqstream, "ZMQStream", Stream):
        with mock.patch.object(type(eng), "registrar", registrar):
            eng.start_heartbeat("tcp://a:1", "tcp://a:2", period, b"e3")
            same((len(timers), len(listeners)), (1, 1), "timers and listeners")
            timer, listener = timers[0], listeners[0]
            check(timer.on and timer.time >= period, "the timer: %r ms for pings every %r ms", timer.time, period)
            start = clock.now()
            row = 0
            died = None
            for i, (n, at, read) in enumerate(plan):
                t0 = start + i * timer.time / 1000
                for k in range(n):
                    clock.advance_to(t0 + timer.time / 1000 * (at + k * (1 - at) / 3))
                    (listener.deliver if read else listener.queue_in)([b"ping", b"%i" % k])
                clock.advance_to(t0 + timer.time / 1000)
                timer.callback()
                # the reference
                if n:
                    row = 0
                elif i:
                    row += 1
                else:
                    ctx.tag("quiet_start")
                if n and not read:
                    ctx.tag("queued")
                if row >= misses and died is None:
                    died = i
                if died is None:
                    same((stopped, registrar.sent), ([], []), "an engine shut down after %i of %i misses in a row", row, misses)
                else:
                    ctx.tag("shut_down")
                    same(len(stopped), 1, "an engine that missed %i of %i pings in a row stopped", row, misses)
                    same(len(registrar.sent), 1, "messages of an engine that shuts down")
                    fr = registrar.sent[0]
                    m = hub.deserialize(fr[fr.index(DELIM) + 1:])
                    same((m["header"]["msg_type"], m["content"]), ("unregistration_request", {"id": 3}), "what an engine tells that shuts down")
                    break
                if row:
                    ctx.tag("missed")
                    ctx.nontrivial()


# 4: real nannies ---------------------------------------------------------------------------------

ENGINE = """
import os, signal, sys, time, json
sys.path.insert(0, sys.argv[2])
cfg = json.loads(sys.argv[1])
got = open("signals", "a", buffering=1)
for s in (signal.SIGUSR1, signal.SIGUSR2, signal.SIGINT):
    signal.signal(s, lambda n, f: got.write("%i\\n" % n))
from traitlets.config import Config
from ipyparallel.engine.nanny import start_nanny
import zmq
c = Config()
c.Session.key = cfg["key"].encode()
curve = {k: v.encode() for k, v in cfg["curve"].items()}
url, p = start_nanny(engine_id=cfg["id"], identity=cfg["ident"].encode(), control_url=cfg["control"], registration_url=cfg["registration"], config=c, log_level=100, **curve)
s = zmq.Context().socket(zmq.ROUTER)
s.identity = cfg["ident"].encode()
if curve["curve_publickey"]:
    s.curve_serverkey, s.curve_publickey, s.curve_secretkey = curve["curve_publickey"], curve["curve_publickey"], curve["curve_secretkey"]
s.connect(url)
print(p.pid, flush=True)
while True:
    if s.poll(100):
        frames = s.recv_multipart()
        what = frames[-1]
        if what.startswith(b"die"):
            how = what.split(b" ")[1]
            if how == b"exit0":
                sys.exit(0)
            if how == b"exit3":
                os._exit(3)
            if how == b"raise":
                raise SystemError("x")
            if how == b"close":
                os.close(p.stdout.fileno())
                time.sleep(0.3)
                os._exit(0)
            os.kill(os.getpid(), int(how))
        s.send_multipart(frames + [b"seen"])
"""


def death_strategy():
    from hypothesis import strategies as st

    op = st.one_of(st.tuples(st.just("relay"), st.binary(max_size=20)), st.tuples(st.just("signal"), st.sampled_from(["SIGUSR1", "SIGUSR2", "SIGINT"]), st.booleans()))
    return st.fixed_dictionaries({"id": st.sampled_from([0, 5]), "ident": st.sampled_from(["e1", "\u00e9x"]), "curve": st.booleans(), "ops": st.lists(op, max_size=4),
                                  "death": st.sampled_from(["9", "15", "11", "exit0", "exit3", "raise", "kill", "signal9", "close"])})


def death_run(case, ctx):
    import zmq

    import ipyparallel
    from vlib.fakes import make_session

    session = make_session(KEY, "client")
    context = zmq.Context()
    root = os.path.dirname(os.path.dirname(os.path.abspath(ipyparallel.__file__)))
    proc = None
    nanny = None
    with scratch() as d:
        try:
            curve = {"curve_serverkey": "", "curve_publickey": "", "curve_secretkey": ""}
            socks = {}
            if case["curve"]:
                spub, ssec = zmq.curve_keypair()
                pub, sec = zmq.curve_keypair()
                curve = {"curve_serverkey": spub.decode(), "curve_publickey": pub.decode(), "curve_secretkey": sec.decode()}
            urls = {}
            for name in ("control", "registration"):
                s = socks[name] = context.socket(zmq.ROUTER)
                s.linger = 0
                s.router_mandatory = 1
                if case["curve"]:
                    s.curve_server, s.curve_secretkey = 1, ssec
                urls[name] = "tcp://127.0.0.1:%i" % s.bind_to_random_port("tcp://127.0.0.1")
            cfg = dict(urls, key=KEY.decode(), curve=curve, id=case["id"], ident=case["ident"])
            with open("err", "w") as err:
                proc = subprocess.Popen([sys.executable, "-c", ENGINE, json.dumps(cfg), root], stdout=subprocess.PIPE, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True, cwd=d)
            line = proc.stdout.readline()
            if not line.strip():
                raise Violation("the nanny did not start: %s", open("err").read()[-500:])
            nanny = int(line)
            ident = case["ident"].encode()
            ctl = socks["control"]
            end = time.monotonic() + 60

            def send(frames):
                while True:
                    try:
                        ctl.send_multipart([ident] + frames)
                        return
                    except zmq.ZMQError as e:
                        if time.monotonic() > end:
                            raise Violation("the nanny never connected: %r" % e)
                        time.sleep(0.02)

            def recv(s, what, seconds=30):
                if not s.poll(int(seconds * 1000)):
                    raise Violation("%s did not arrive" % what)
                return s.recv_multipart()

            def request(typ, content, last=None):
                m = session.msg(typ, content=content)
                frames = [b"client"] + [bytes(f) for f in session.serialize(m)] + ([last] if last is not None else [])
                send(frames)
                return m, frames
            sent = []
            for op in case["ops"]:
                if op[0] == "relay":
                    _, frames = request("x_request", {}, b"data" + op[1])
                    # through both: what arrives at the engine, and back
                    got = recv(ctl, "the reply to a relayed request")
                    same(got, [ident] + frames + [b"seen"], "a request relayed to the engine and back")
                else:
                    num = int(getattr(signal, op[1]))
                    m, _ = request("signal_request", {"sig": op[1] if op[2] else num})
                    got = recv(ctl, "the reply to a signal")
                    session.digest_history.clear()
                    r = session.deserialize(got[got.index(DELIM) + 1:])
                    same((got[:got.index(DELIM)], r["parent_header"]["msg_id"], r["content"]), ([ident, b"client"], m["header"]["msg_id"], {"status": "ok"}), "reply to a signal")
                    sent.append(num)
                    t = time.monotonic() + 30
                    while open("signals").read().split() != ["%i" % n for n in sent] and time.monotonic() < t:
                        time.sleep(0.01)
                    same(open("signals").read().split(), ["%i" % n for n in sent], "signals the engine got")
                    ctx.tag("signal")
            check(proc.poll() is None, "the engine exited: %s", open("err").read()[-500:])
            same(socks["registration"].poll(0), 0, "reports of the exit of a living engine")
            how = case["death"]
            ctx.tag(how)
            if how == "kill":
                proc.kill()
            elif how == "signal9":
                request("signal_request", {"sig": 9})
            else:
                request("x_request", {}, b"die " + how.encode())
            got = recv(socks["registration"], "the report of the exit (%s)" % how)
            session.digest_history.clear()
            m = session.deserialize(got[got.index(DELIM) + 1:])
            same((m["header"]["msg_type"], m["content"]), ("unregistration_request", {"id": case["id"]}), "report of the exit")
            proc.wait(30)
            t = time.monotonic() + 30
            while alive(nanny) and time.monotonic() < t:
                time.sleep(0.02)
            check(not alive(nanny), "the nanny of an engine that exited is still there")
            same(socks["registration"].poll(50), 0, "further reports of the exit")
            ctx.nontrivial()
        finally:
            if proc is not None:
                if proc.poll() is None:
                    proc.kill()
                proc.wait()
                proc.stdout.close()
            for s in socks.values():
                s.close()
            context.term()
            # it leaves by itself once its engine is gone
            t = time.monotonic() + 5
            while nanny and alive(nanny) and time.monotonic() < t:
                time.sleep(0.02)
            if nanny and alive(nanny) and ours(nanny, root):
                os.kill(nanny, signal.SIGKILL)


def alive(pid):
    try:
        with open("/proc/%i/stat" % pid) as f:
            return f.read().rpartition(")")[2].split()[0] not in "ZX"
    except (FileNotFoundError, ProcessLookupError):
        return False


def ours(pid, root):
    try:
        with open("/proc/%i/cmdline" % pid, "rb") as f:
            return b"ipyparallel.engine.nanny" in f.read()
    except (FileNotFoundError, ProcessLookupError):
        return False


SUBS = [Sub("nanny", nanny_strategy, nanny_run, quick=2500, thorough=30000, weight=1.0), Sub("register", register_strategy, register_run, quick=900, thorough=10000, weight=1.2),
        Sub("beats", beats_strategy, beats_run, quick=900, thorough=10000, weight=0.6), Sub("death", death_strategy, death_run, quick=110, thorough=1200, weight=1.6)]
