"""C44: clients find, reach and leave the controller they are told of (real client and sockets; addresses are endpoints in memory)."""
import contextlib
import json
import os
import shutil
import socket
import tempfile
import threading
import time
import types
import warnings
from unittest import mock

from vlib.runner import HarnessError, Skip, Sub, Violation, check, same

PROPERTY = "C44"
RULE = ("cases: how a client is told of a cluster (a file, its content, a profile by name or directory, with a cluster id, among the files of other clusters; files that are missing, appear later or are "
        "incomplete), what the file says (addresses, location, ssh server, keys, schemes), what the machine is called and which addresses it has, ssh options, how the hub answers, and what happens then. "
        "Non-trivial: connected with curve or ssh, or from one of several files, or refused")
ASSUMPTIONS = ["zmq's ssh tunnels do what they are asked (stand-ins record the request)"]
SHARDS = 6
QUICK_S = 25
THOROUGH_S = 240

PORTS = ["registration", "control", "task", "mux", "iopub", "notification", "broadcast"]
ME = "me"
DNS = {"me": "10.1.1.1", "alias": "10.1.1.1", "other": "10.2.2.2", "elsewhere.example": "10.3.3.3", "10.1.1.1": "10.1.1.1", "10.2.2.2": "10.2.2.2", "127.0.0.1": "127.0.0.1"}
LOCAL = ["127.0.0.1", "10.1.1.1"]
WRONG = "wrong cluster"


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    cid = st.sampled_from(["", "", "a", "b-1", "\u00fc x"])
    tell = weighted((3, st.just("path")), (2, st.just("dict")), (1, st.just("url_file")), (1, st.just("url_or_file")), (3, st.just("profile")), (2, st.just("default")), (2, st.just("profile_dir")), (1, st.just("url")))
    info = st.fixed_dictionaries({
        "ip": st.sampled_from(["127.0.0.1", "127.0.0.1", "10.1.1.1", "10.2.2.2", "0.0.0.0", "*", "other"]), "location": st.sampled_from(["absent", None, "", "me", "alias", "other", "10.1.1.1", "10.2.2.2", "unknown"]),
        "ssh": st.sampled_from(["", "", "gate", "u@gate:22"]), "curve": st.sampled_from([None, None, "file", "env", "both"]), "pack": st.sampled_from(["json", "pickle"]),
        "scheme": st.sampled_from(["hmac-sha256", "hmac-sha256", "hmac-sha512"]), "key": st.sampled_from(["k", "", "\u00fc-key", "0000-1111"]), "task_scheme": st.sampled_from(["leastload", "pure", "none"]),
        "base": st.integers(1, 9)})
    opts = st.fixed_dictionaries({}, optional={"sshserver": st.sampled_from(["gw", "me@gw:2222"]), "sshkey": st.just("/k/id"), "password": st.sampled_from(["pw", False]), "paramiko": st.sampled_from([True, False])})
    op = weighted((3, st.tuples(st.just("apply"), st.integers(0, 3))), (3, st.just(("task",))), (2, st.just(("all",))), (2, st.just(("query",))), (2, st.just(("control",))), (2, st.tuples(st.just("new"), st.integers(0, 9))),
                  (2, st.tuples(st.just("gone"), st.integers(0, 3))), (1, st.just(("end",))))
    return st.fixed_dictionaries({
        "tell": tell, "cid": cid, "others": st.lists(cid, max_size=3), "there": weighted((12, st.just(0)), (2, st.just(0.5)), (2, st.just(3)), (1, st.just(None))), "timeout": st.sampled_from([10, 1, 5]),
        "info": info, "drop": weighted((12, st.none()), (1, st.sampled_from(["key", "pack", "unpack", "signature_scheme", "registration", "interface", "task_scheme"]))), "opts": opts, "try": st.booleans(),
        "context": st.booleans(), "with": st.booleans(), "reply": weighted((12, st.just("ok")), (1, st.just("error")), (1, st.just("forged")), (1, st.just("none"))),
        "engines": st.lists(st.integers(0, 6), max_size=4, unique=True), "ops": st.lists(op, max_size=6)})


class Net:
    """what is listening where"""

    def __init__(self, ctx):
        import zmq

        self.ctx = ctx
        self.sockets = {}
        self.zmq = zmq

    def listen(self, url, kind):
        s = self.ctx.real(kind)
        s.linger = 0
        s.bind(endpoint(url))
        self.sockets[url] = s
        return s


_ctx = []
OPTS = {}     # options set on sockets


def context():
    """a context whose sockets connect in memory, and remember how"""
    import zmq

    if _ctx and _ctx[0][0] == os.getpid():
        return _ctx[0][1]

    class Rec(zmq.Socket):
        def set(self, option, value):
            super().set(option, value)
            OPTS.setdefault(id(self), {})[int(option)] = value

        setsockopt = set

        def connect(self, url):
            curve = [OPTS.get(id(self), {}).get(int(o), b"") for o in (zmq.CURVE_SERVERKEY, zmq.CURVE_PUBLICKEY, zmq.CURVE_SECRETKEY)]
            if W is not None:
                W.connected.append((url, self, self.type, curve))
            return super().connect(endpoint(url))

    class Ctx(zmq.Context):
        _socket_class = Rec

        def socket(self, kind, *a, **k):
            s = super().socket(kind, *a, **k)
            OPTS.pop(id(s), None)
            if W is not None:
                W.opened.append(s)
            return s

        def real(self, kind):
            return zmq.Context.socket(self, kind, socket_class=zmq.Socket)
    _ctx[:] = [(os.getpid(), Ctx())]
    return _ctx[0][1]


W = None
_n = [0]


def endpoint(url):
    # (one of its own for every case: they are given up some time after sockets are closed)
    return "inproc://%i/%s" % (_n[0], url)


class World:
    def __init__(self, case, box):
        self.case, self.box = case, box
        self.opened, self.connected, self.tunnels, self.asked = [], [], [], []
        self.clock = 0.0
        self.slept = []
        self.later = None

    def sleep(self, t):
        self.clock += max(t, 0)
        self.slept.append(t)
        if len(self.slept) > 1000:
            raise HarnessError("slept 1000 times")
        if self.later is not None and self.clock >= self.later[0]:
            at, path, text = self.later
            self.later = None
            write(path, text)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf8") as f:
        f.write(text)


def run(case, ctx):
    global W
    box = os.path.realpath(tempfile.mkdtemp(prefix="c44-"))
    here, env = os.getcwd(), dict(os.environ)
    _n[0] += 1
    W = World(case, box)
    try:
        os.chdir(box)
        Case(case, ctx, box, W).run()
    finally:
        W = None
        os.chdir(here)
        os.environ.clear()
        os.environ.update(env)
        assert "/c44-" in box
        shutil.rmtree(box)


def is_ip(s):
    return s.replace(".", "").isdigit()


class Case:
    def __init__(self, case, ctx, box, w):
        self.case, self.ctx, self.box, self.w = case, ctx, box, w

    def content(self, base, serverkey):
        i = self.case["info"]
        d = {"interface": "tcp://" + i["ip"], "ssh": i["ssh"], "pack": i["pack"], "unpack": i["pack"], "signature_scheme": i["scheme"], "key": i["key"], "task_scheme": i["task_scheme"]}
        if i["location"] != "absent":
            d["location"] = i["location"]
        if i["curve"] in ("file", "both"):
            d["curve_serverkey"] = serverkey.decode()
        for n, k in enumerate(PORTS):
            d[k] = base * 100 + n
        return d

    def host(self):
        """the host to connect to"""
        i = self.case["info"]
        loc = i["location"] if i["location"] != "absent" else None
        if i["ip"] not in ("0.0.0.0", "*"):
            return i["ip"]
        if not loc or loc == ME:
            return "127.0.0.1"
        loc = DNS.get(loc, loc)
        return "127.0.0.1" if loc == "10.1.1.1" else loc

    def gate(self, host):
        """(use ssh, server)"""
        i, o = self.case["info"], self.case["opts"]
        loc = i["location"] if i["location"] != "absent" else None
        server = o.get("sshserver") or ""
        elsewhere = True
        if loc is not None and host == "127.0.0.1":
            elsewhere = DNS.get(loc, loc) not in LOCAL
        if not server and elsewhere:
            server = i["ssh"]
        use = bool(server or o.get("sshkey") or o.get("password"))
        return use, (server or host) if use else ""

    def run(self):
        import zmq

        from ipyparallel.client import client as mod
        from jupyter_client import localinterfaces as li
        from zmq.ssh import tunnel

        case, w, ctx = self.case, self.w, self.ctx
        info = case["info"]
        c = context()
        net = Net(c)
        os.environ["IPYTHONDIR"] = os.path.join(self.box, "ipython")
        os.environ.pop("IPP_CURVE_SERVERKEY", None)
        serverkey, envkey = zmq.curve_keypair()[0], zmq.curve_keypair()[0]
        if info["curve"] in ("env", "both"):
            os.environ["IPP_CURVE_SERVERKEY"] = envkey.decode()
        content = self.content(info["base"], serverkey)
        if case["drop"]:
            del content[case["drop"]]
        # -- the files
        profile = os.path.join(self.box, "ipython", {"profile": "profile_p q", "default": "profile_default"}.get(case["tell"], "profile_x"))
        if case["tell"] == "profile_dir":
            profile = os.path.join(self.box, "some dir")
        name = lambda cid: "ipcontroller-%s-client.json" % cid if cid else "ipcontroller-client.json"
        for p in {profile, os.path.join(self.box, "ipython", "profile_default"), os.path.join(self.box, "ipython", "profile_p q")}:
            os.makedirs(os.path.join(p, "security"))
            for cid in ["", "a", "zz"] + case["others"]:
                if p != profile or cid != case["cid"]:
                    d = self.content(77, serverkey)
                    d["key"] = WRONG
                    write(os.path.join(p, "security", name(cid)), json.dumps(d))
        by_profile = case["tell"] in ("profile", "default", "profile_dir")
        path = os.path.join(profile, "security", name(case["cid"])) if by_profile else os.path.join(self.box, "moved", "file.json")
        text = json.dumps(content)
        found = True
        if case["tell"] not in ("dict", "url"):
            if case["there"] == 0:
                write(path, text)
            else:
                found = False
                if case["there"] is not None:
                    w.later = (case["there"], path, text)
                    found = by_profile and case["there"] <= (case["timeout"] if case["reply"] != "none" else 0)
        kw = dict(case["opts"])
        before = json.dumps(content, sort_keys=True)
        tell = case["tell"]
        args = []
        if tell == "path":
            args = [path]
        elif tell == "dict":
            args = [content]
        elif tell == "url":
            args = ["tcp://127.0.0.1:100"]
        elif tell in ("url_file", "url_or_file"):
            kw[tell] = path
        elif tell == "profile":
            kw["profile"] = "p q"
        elif tell == "profile_dir":
            kw["profile_dir"] = profile
        if case["cid"]:
            kw["cluster_id"] = case["cid"]
        if case["context"]:
            kw["context"] = c
        kw["timeout"] = case["timeout"]
        # -- who listens
        host = self.host()
        use_ssh, server = self.gate(host)
        urls = {k: "tcp://%s:%i" % (host, info["base"] * 100 + n) for n, k in enumerate(PORTS)}
        far = lambda u: "tunnel/" + u if use_ssh else u
        for k, u in urls.items():
            net.listen(far(u), zmq.XPUB if k in ("iopub", "notification") else zmq.ROUTER)
        if case["reply"] == "none":
            kw["timeout"] = 0.05
        hub = {"alive": True}
        sess = lambda key: self.session(key, info)
        requests = []

        def serve():
            """the hub answers a connection request"""
            s = net.sockets[far(urls["registration"])]
            while hub["alive"]:
                if not s.poll(20):
                    continue
                frames = s.recv_multipart()
                requests.append(frames)
                if case["reply"] == "none":
                    continue
                me = sess(info["key"])
                try:
                    idents, rest = me.feed_identities(frames)
                    m = me.deserialize(rest)
                except Exception as e:
                    requests.append(e)
                    continue
                me = sess("forger") if case["reply"] == "forged" else me
                if m["header"]["msg_type"] == "connection_request":
                    body = {"status": "ok", "engines": {str(e): "uuid-%i" % e for e in case["engines"]}}
                    if case["reply"] == "error":
                        body = {"status": "error", "ename": "Refused", "evalue": "not you", "traceback": ["first line", "Refused: not you"]}
                    me.send(s, "connection_reply", content=body, parent=m["header"], ident=idents)
                else:
                    me.send(s, "queue_reply", content={"status": "ok", "unassigned": 0}, parent=m["header"], ident=idents)
        t = threading.Thread(target=serve, daemon=True)

        class Time:
            sleep = staticmethod(w.sleep)

            def __getattr__(self, k):
                return getattr(time, k)

        def resolve(h):
            if h in DNS:
                return (h, [], [DNS[h]])
            raise socket.gaierror("unknown host %s" % h)

        def connect(s, url, server, keyfile=None, password=None, paramiko=None, timeout=60):
            w.tunnels.append((url, server, keyfile, password, paramiko))
            s.connect("tunnel/" + url)

        def passwordless(server, keyfile=None, paramiko=None):
            w.asked.append(("try", server, keyfile))
            return case["try"]

        def ask(prompt=""):
            w.asked.append(("ask", prompt))
            return "typed"
        threads = set(threading.enumerate())
        failed = client = None
        with contextlib.ExitStack() as stack:
            p = lambda *a, **k: stack.enter_context(mock.patch.object(*a, **k))
            li.localhost()
            p(li, "LOCAL_IPS", list(LOCAL))
            p(li, "PUBLIC_IPS", ["10.1.1.1"])
            p(li, "LOCALHOST", "127.0.0.1")
            p(socket, "gethostname", lambda: ME)
            p(socket, "gethostbyname_ex", resolve)
            p(socket, "gethostbyname", lambda h: resolve(h)[2][0])
            p(tunnel, "tunnel_connection", connect)
            p(tunnel, "try_passwordless_ssh", passwordless)
            p(mod, "getpass", ask)
            p(mod, "time", Time())
            p(zmq.Context, "instance", classmethod(lambda cls, *a, **k: c))
            stack.enter_context(contextlib.redirect_stdout(open(os.devnull, "w")))
            caught = stack.enter_context(warnings.catch_warnings(record=True))
            warnings.simplefilter("always")
            t.start()
            try:
                try:
                    client = mod.Client(*args, **kw)
                except Exception as e:
                    failed = e
                self.judge(client, failed, found, far, urls, host, use_ssh, server, serverkey, envkey, requests, caught, net)
                same(json.dumps(content, sort_keys=True), before, "the connection information that was given, afterwards")
                if client is not None:
                    self.use(client, net, far, urls, sess, hub, t)
                    if case["with"]:
                        with client as same_:
                            check(same_ is client, "with: another client")
                    else:
                        client.close()
                        client.close()
            finally:
                hub["alive"] = False
                t.join(10)
                if client is not None:
                    client.close()
                left = [s for s in w.opened if not s.closed]
                for s in left + list(net.sockets.values()):
                    s.close(linger=0)
        same(len(left), 0, "sockets left open (%s)" % ("after close()" if client is not None else "by a client that did not connect"))
        end = time.monotonic() + 5
        more = lambda: [x.name for x in threading.enumerate() if x not in threads and x is not t]
        while more() and time.monotonic() < end:
            time.sleep(0.002)
        same(more(), [], "threads left")

    def session(self, key, info):
        from jupyter_client.session import Session

        s = Session(packer=info["pack"], unpacker=info["pack"], key=key.encode("utf8"), signature_scheme=info["scheme"], username="hub")
        return s

    def judge(self, client, failed, found, far, urls, host, use_ssh, server, serverkey, envkey, requests, caught, net):
        import zmq

        from ipyparallel import error

        case, w, info = self.case, self.w, self.case["info"]
        if case["tell"] == "url":
            check(isinstance(failed, ValueError), "a client made from a url: %r", failed)
            return
        if case["tell"] == "dict":
            found = True
        if not found:
            check(isinstance(failed, OSError), "no connection file, but %r", failed)
            check(w.clock <= case["timeout"] + 1, "waited %s seconds for a connection file, with timeout=%s", w.clock, case["timeout"])
            self.ctx.tag("no file")
            return
        if case["tell"] in ("url_file", "url_or_file"):
            check(any(issubclass(x.category, DeprecationWarning) and case["tell"] in str(x.message) for x in caught), "no warning about %s", case["tell"])
        if case["drop"]:
            check(failed is not None, "connected with a connection file without %s", case["drop"])
            if case["drop"] in ("key", "pack", "unpack", "signature_scheme"):
                check(isinstance(failed, ValueError) and case["drop"] in str(failed), "error for a connection file without %s: %r", case["drop"], failed)
            self.ctx.tag("incomplete file")
            return
        for x in requests:
            check(not isinstance(x, Exception), "the request to connect: %r", x)
        if case["reply"] == "none":
            check(isinstance(failed, error.TimeoutError), "the hub does not answer: %r", failed)
        elif case["reply"] == "error":
            check(failed is not None and "Refused: not you" in str(failed), "the hub refuses: %r", failed)
        elif case["reply"] == "forged" and info["key"]:
            check(failed is not None, "connected although the hub's reply is not signed")
        else:
            check(failed is None, "did not connect: %r", failed)
        self.ctx.tag(case["reply"], case["tell"])
        same(len(requests), 1, "requests to connect")
        # -- where it connected
        key = {None: b"", "file": serverkey, "env": envkey, "both": serverkey}[info["curve"]]
        at = dict((u, (k, x)) for u, s, k, x in w.connected)
        want = {far(urls["registration"]): zmq.DEALER}
        if failed is None:
            for k in PORTS:
                want[far(urls[k])] = zmq.SUB if k in ("iopub", "notification") else zmq.DEALER
        same(sorted(u for u, s, k, x in w.connected), sorted(want), "addresses connected to")
        same({u: k for u, (k, x) in at.items()}, want, "kinds of sockets")
        same(len({id(s) for u, s, k, x in w.connected}), len(want), "sockets")
        mine = set()
        for u, (k, x) in at.items():
            same(x[0], key, "curve server key for %s" % u)
            if key:
                check(len(x[1]) == 40 and len(x[2]) == 40, "curve keys for %s", u)
                same(zmq.curve_public(x[2]), x[1], "curve key pair for %s" % u)
            mine.add(tuple(x))
        if use_ssh:
            o = case["opts"]
            password = o.get("password")
            asked = []
            if password is None:
                asked.append(("try", server, o.get("sshkey")))
                password = False
                if not case["try"]:
                    asked.append("ask")
                    password = "typed"
            same([a if a[0] == "try" else "ask" for a in w.asked], asked, "questions about the password")
            same(sorted(set(map(repr, w.tunnels))), sorted(repr((urls[k], server, o.get("sshkey"), password, o.get("paramiko"))) for k in (PORTS if failed is None else ["registration"])), "tunnels")
            same(len(w.tunnels), len(want), "tunnels")
            self.ctx.tag("ssh")
        else:
            same((w.tunnels, w.asked), ([], []), "tunnels")
        loc = info["location"] if info["location"] != "absent" else None
        loc = loc if loc is not None else None
        warned = any("listening on localhost" in str(x.message) for x in caught)
        if loc not in (None, "") and host == "127.0.0.1":
            far_ = DNS.get(loc, loc) not in LOCAL and loc != ME
            same(warned, far_ and not (case["opts"].get("sshserver") or info["ssh"]), "warned that the controller is on another machine")
        elif loc is None:
            same(warned, False, "warned that the controller is on another machine")
        self.ctx.nontrivial(bool(key) or use_ssh or failed is not None or case["tell"] in ("profile", "default", "profile_dir"))

    def use(self, client, net, far, urls, sess, hub, t):
        """each kind of request goes where it should; registrations are noticed"""
        import ipyparallel as ipp

        case, info = self.case, self.case["info"]
        hub["alive"] = False
        t.join(10)
        engines = sorted(case["engines"])
        disabled = info["task_scheme"] == "pure" and engines != list(range(len(engines)))
        same(client.ids, engines, "engines after connecting")
        me = sess(info["key"])

        def recv(what):
            """the one message that arrived, and where"""
            end = time.monotonic() + 20
            while time.monotonic() < end:
                for k, u in urls.items():
                    if k in ("iopub", "notification"):
                        continue
                    s = net.sockets[far(u)]
                    if s.poll(0):
                        idents, rest = me.feed_identities(s.recv_multipart())
                        return k, idents, me.deserialize(rest)
                time.sleep(0.0005)
            check(False, "%s: nothing arrived", what)

        def notify(typ, content, until, what):
            s = net.sockets[far(urls["notification"])]
            me.send(s, typ, content=content)
            end = time.monotonic() + 20
            while not until():
                check(time.monotonic() < end, "%s: not noticed", what)
                time.sleep(0.0005)
        # subscribed by now
        s = net.sockets[far(urls["notification"])]
        check(s.poll(20000), "not subscribed to notifications")
        same(s.recv(), b"\x01", "subscription to notifications")
        s = net.sockets[far(urls["iopub"])]
        check(s.poll(20000), "not subscribed to output")
        same(s.recv(), b"\x01", "subscription to output")
        ended = False
        for i, op in enumerate(case["ops"]):
            what = "step %i %r" % (i, op)
            if ended:
                break
            self.ctx.tag(op[0])
            if op[0] == "apply":
                if not engines:
                    continue
                e = engines[op[1] % len(engines)]
                client[e].apply_async(abs, -1)
                k, idents, m = recv(what)
                same((k, m["header"]["msg_type"]), ("mux", "apply_request"), "%s: what arrived where" % what)
                same(idents[-1], b"uuid-%i" % e, "%s: the engine" % what)
            elif op[0] == "task":
                if info["task_scheme"] == "none":
                    continue
                if disabled:
                    try:
                        client.load_balanced_view().apply_async(abs, -1)
                    except Exception:
                        continue
                    check(False, "%s: accepted although there is no task scheduler", what)
                if not engines:
                    continue
                client.load_balanced_view().apply_async(abs, -1)
                k, idents, m = recv(what)
                same((k, m["header"]["msg_type"]), ("task", "apply_request"), "%s: what arrived where" % what)
            elif op[0] == "all":
                if not engines:
                    continue
                client.broadcast_view().apply_async(abs, -1)
                k, idents, m = recv(what)
                same((k, m["header"]["msg_type"]), ("broadcast", "apply_request"), "%s: what arrived where" % what)
            elif op[0] in ("query", "control"):
                got = []
                if op[0] == "control" and not engines:
                    continue
                call = client.queue_status if op[0] == "query" else (lambda: client.abort(jobs=["x"], targets=engines[:1], block=False))
                th = threading.Thread(target=lambda: got.append(call()), daemon=True)
                th.start()
                k, idents, m = recv(what)
                if op[0] == "query":
                    same((k, m["header"]["msg_type"]), ("registration", "queue_request"), "%s: what arrived where" % what)
                    me.send(net.sockets[far(urls[k])], "queue_reply", content={"status": "ok", "unassigned": 3}, parent=m["header"], ident=idents)
                else:
                    same((k, m["header"]["msg_type"]), ("control", "abort_request"), "%s: what arrived where" % what)
                    same(idents[-1], b"uuid-%i" % engines[0], "%s: the engine" % what)
                th.join(20)
                check(not th.is_alive(), "%s: does not return", what)
                if op[0] == "query":
                    same(got, [{"unassigned": 3}], "%s: answer" % what)
            elif op[0] == "new":
                e = op[1]
                if e in engines:
                    continue
                engines = sorted(engines + [e])
                disabled = disabled or info["task_scheme"] == "pure" and engines != list(range(len(engines)))
                notify("registration_notification", {"id": e, "uuid": "uuid-%i" % e}, lambda: list(client.ids) == engines, what)
            elif op[0] == "gone":
                if not engines:
                    continue
                e = engines.pop(op[1] % len(engines))
                disabled = disabled or info["task_scheme"] == "pure"
                notify("unregistration_notification", {"id": e, "uuid": "uuid-%i" % e}, lambda: list(client.ids) == engines, what)
            elif op[0] == "end":
                notify("shutdown_notification", {}, lambda: client._closed, what)
                ended = True
            if not ended:
                same(list(client.ids), engines, "%s: engines" % what)
        if ended:
            try:
                client[:].apply_async(abs, -1)
            except Exception:
                return
            check(False, "accepted work after the controller has shut down")


SUBS = [Sub("connect", strategy, run, quick=1200, thorough=20000)]
