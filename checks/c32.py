"""C32: what the controller binds against what it tells engines and clients to connect to.

IPController.initialize runs for real (hub, schedulers and heart monitor included, the
ones meant for other processes in this one), on contexts and sockets that record binds
and connects instead of opening ports."""
import contextlib
import io
import json
import os
import shutil
import tempfile

from vlib.runner import Sub, Violation, check, same

PROPERTY = "C32"
RULE = ("cases: transports, interfaces, port pools (ranges and lists, overlapping, exhausted, deprecated pairs), broadcast depth, task scheme, "
        "threads or processes, curve keys, reuse of connection files. Non-trivial: at least one configured port, a wildcard or non-tcp "
        "interface, a depth other than 1, or a reload")
ASSUMPTIONS = ["sockets are stand-ins that record the endpoints; two endpoints collide if port and transport agree and the hosts agree or one is a wildcard",
               "a reloaded controller is configured with the same broadcast depth (and curve key pair) as the one that wrote the files",
               "with the 'none' task scheme nothing serves the task endpoint (documented)",
               "the deprecated single ports and port pairs are not mixed with the port pools that replace them",
               "the order in which the services draw from a pool is not specified"]
SHARDS = 6
QUICK_S = 25
THOROUGH_S = 300

LOCAL = "127.0.0.1"


def strategy():
    from hypothesis import strategies as st

    port = st.integers(20000, 20060)

    def pool(lo):
        rng = st.integers(1, 20).map(lambda n: list(range(lo, lo + n)))
        lst = st.lists(st.integers(lo, lo + 60), min_size=1, max_size=10, unique=True)
        any_ = st.lists(port, min_size=1, max_size=8)
        return st.one_of(st.just([]), st.just([]), rng, lst, any_)

    # ip '' with ipc: a path in the scratch directory is put there
    side = st.one_of(
        st.tuples(st.just("tcp"), st.sampled_from(["127.0.0.1", "127.0.0.1", "*", "0.0.0.0", "10.0.0.1", "192.168.7.3"])),
        st.tuples(st.just("ipc"), st.sampled_from(["a", "b"])),
    )
    return st.fixed_dictionaries(dict(
        common=st.one_of(st.none(), side),
        engine=side, client=side, monitor=side,
        ports=pool(20000), engine_ports=pool(21000), client_ports=pool(22000),
        asrange=st.booleans(),
        pairs=st.one_of(st.just({}), st.dictionaries(st.sampled_from(["mux", "task", "control", "iopub", "hb"]), st.integers(0, 90).map(lambda i: (23000 + i * 2, 23001 + i * 2)), max_size=3)),
        single=st.one_of(st.just({}), st.dictionaries(st.sampled_from(["regport", "mon_port", "notifier_port"]), st.integers(23300, 23399), max_size=2)),
        depth=st.sampled_from([1, 1, 0, 2, 3]),
        scheme=st.sampled_from([None, "lru", "pure", "none", "leastload", "twobin"]),
        threads=st.booleans(),
        curve=st.sampled_from([False, False, True]),
        cluster_id=st.sampled_from(["", "", "x1"]),
        ssh=st.sampled_from(["", "user@host"]),
        engine_ssh=st.sampled_from(["", "e@host:22"]),
        location=st.sampled_from([None, "10.9.8.7", "some.host"]),
        packer=st.sampled_from([None, "pickle", "orjson?"]),
        sig=st.sampled_from([None, "hmac-md5"]),
        key=st.sampled_from([None, "secret"]),
        reloads=st.sampled_from([0, 0, 1, 1, 2]),
    )).map(unmix)


def unmix(case):
    if case["pairs"] or case["single"]:
        case = dict(case, ports=[], engine_ports=[], client_ports=[])
    return case


class Rec:
    """everything bound and connected, by actor"""

    def __init__(self):
        self.sockets = []
        self.actor = "hub"
        self.processes = []
        self.devices = []
        self.schedulers = []
        self.hearts = []


class RecSocket:
    def __init__(self, rec, kind):
        self.__dict__.update(rec=rec, kind=kind, actor=rec.actor, bound=[], connected=[], opts={}, closed=False)
        rec.sockets.append(self)

    def bind(self, url):
        self.bound.append(url)

    def connect(self, url):
        self.connected.append(url)

    def setsockopt(self, opt, value):
        self.opts[opt] = value

    set = setsockopt

    def setsockopt_string(self, opt, value, encoding="utf8"):
        self.opts[opt] = value.encode(encoding)

    set_string = setsockopt_string

    def __setattr__(self, k, v):
        import zmq
        opt = getattr(zmq, k.upper(), None)
        if opt is not None:
            self.opts[opt] = v
        else:
            self.__dict__[k] = v

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: 0


def make_env(rec):
    import zmq
    from vlib.fakes import FakeStream

    class Ctx(zmq.Context):
        def socket(self, kind, *a, **k):
            return RecSocket(rec, kind)

        def destroy(self, *a, **k):
            pass

        term = destroy

    ctx = Ctx()
    Ctx.instance = classmethod(lambda cls, *a, **k: ctx)

    class Stream(FakeStream):
        def __init__(self, socket, io_loop=None):
            FakeStream.__init__(self, "rec", io_loop)
            self.socket = socket

        def bind(self, url):
            self.socket.bind(url)

        def connect(self, url):
            self.socket.connect(url)

        def setsockopt(self, opt, value):
            self.socket.setsockopt(opt, value)

        set = setsockopt

    class Process:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self.target, self.name, self.args, self.kwargs = target, name, args, dict(kwargs or {})
            rec.processes.append(self)

    class Device:
        def __init__(self, in_type, out_type, mon_type=zmq.PUB, in_prefix=b"in", out_prefix=b"out"):
            self.types = (in_type, out_type, mon_type)
            self.prefix = (in_prefix, out_prefix)
            self.side = {}
            actor, rec.actor = rec.actor, "device"
            for s, t in zip(("in", "out", "mon"), self.types):
                self.side[s] = RecSocket(rec, t)
            rec.actor = actor
            rec.devices.append(self)

        def __getattr__(self, name):
            verb, _, side = name.rpartition("_")
            if side in ("in", "out", "mon") and verb in ("bind", "connect", "setsockopt"):
                return getattr(self.side[side], verb)
            raise AttributeError(name)

    return Ctx, ctx, Stream, Process, Device


@contextlib.contextmanager
def patched(rec, randoms):
    import asyncio
    from unittest import mock
    import zmq
    import zmq.devices
    import zmq.eventloop.zmqstream
    from ipyparallel.controller import app as appmod, broadcast_scheduler, heartmonitor, hub, scheduler, task_scheduler

    Ctx, ctx, Stream, Process, Device = make_env(rec)
    real_loop = asyncio.new_event_loop

    class Loop:
        """a loop that does not run forever"""

        def __init__(self):
            self._loop = real_loop()

        def __getattr__(self, name):
            return getattr(self._loop, name)

        def run_forever(self):
            pass

    def start_scheduler(self):
        rec.schedulers.append(self)

    with contextlib.ExitStack() as stack:
        def patch(obj, name, value):
            if hasattr(obj, name):
                stack.enter_context(mock.patch.object(obj, name, value))

        patch(zmq, "Context", Ctx)
        for mod in (appmod, broadcast_scheduler, heartmonitor, hub, scheduler, task_scheduler, zmq.eventloop.zmqstream):
            patch(mod, "ZMQStream", Stream)
        patch(zmq.devices, "ProcessMonitoredQueue", Device)
        patch(zmq.devices, "ThreadMonitoredQueue", Device)
        patch(appmod, "ProcessMonitoredQueue", Device)
        patch(appmod, "Process", Process)
        patch(asyncio, "new_event_loop", Loop)
        import time
        patch(time, "sleep", lambda s: None)
        patch(task_scheduler.TaskScheduler, "start", start_scheduler)
        patch(broadcast_scheduler.BroadcastScheduler, "start", start_scheduler)
        patch(heartmonitor.HeartMonitor, "start", lambda self: rec.hearts.append(self))
        from ipyparallel import util
        patch(util, "select_random_ports", lambda n: [next(randoms) for _ in range(n)])
        yield ctx


def conflict(a, b):
    if a == b:
        return True
    pa, _, ra = a.partition("://")
    pb, _, rb = b.partition("://")
    if pa != "tcp" or pb != "tcp":
        return False
    ha, _, na = ra.rpartition(":")
    hb, _, nb = rb.rpartition(":")
    return na == nb and (ha == hb or ha in ("*", "0.0.0.0") or hb in ("*", "0.0.0.0"))


def reachable(url, bound):
    """whether connecting to url reaches the endpoint bound"""
    if url == bound:
        return True
    pa, _, ra = url.partition("://")
    pb, _, rb = bound.partition("://")
    ha, _, na = ra.rpartition(":")
    hb, _, nb = rb.rpartition(":")
    return pa == pb == "tcp" and na == nb and hb in ("*", "0.0.0.0")


def configure(case, tmp):
    from traitlets.config import Config

    c = Config()
    ic = c.IPController

    def side(s):
        proto, ip = s
        return proto, (os.path.join(tmp, ip) if proto == "ipc" else ip)

    if case["common"]:
        ic.transport, ic.ip = side(case["common"])
    else:
        for name in ("engine", "client", "monitor"):
            proto, ip = side(case[name])
            ic[name + "_transport"] = proto
            ic[name + "_ip"] = ip
    for name in ("ports", "engine_ports", "client_ports"):
        ports = case[name]
        if ports:
            ic[name] = ",".join(map(str, ports)) if case["asrange"] else list(ports)
    for name, pair in case["pairs"].items():
        ic[name] = tuple(pair)
    for name, p in case["single"].items():
        ic[name] = p
    ic.broadcast_scheduler_depth = case["depth"]
    if case["scheme"]:
        c.TaskScheduler.scheme_name = case["scheme"]
    ic.use_threads = case["threads"]
    if case["curve"]:
        ic.curve_publickey = b"p" * 40
        ic.curve_secretkey = b"s" * 40
        ic.enable_curve = True
    ic.cluster_id = case["cluster_id"]
    ic.ssh_server = case["ssh"]
    ic.engine_ssh_server = case["engine_ssh"]
    if case["location"]:
        ic.location = case["location"]
    if case["packer"] == "pickle":
        c.Session.packer = c.Session.unpacker = "pickle"
    if case["sig"]:
        c.Session.signature_scheme = case["sig"]
    if case["key"]:
        c.Session.key = case["key"].encode()
    c.ProfileDir.location = os.path.join(tmp, "profile")
    ic.log_level = 50
    ic.auto_create = True
    c.ProfileDir.location = os.path.join(tmp, "profile")
    return c


def start_controller(cfg, randoms):
    """initialize a controller and everything it would have started"""
    from ipyparallel.controller.app import IPController

    rec = Rec()
    with patched(rec, randoms) as ctx:
        app = IPController(config=cfg, context=ctx)
        app.log.setLevel(50)
        app.initialize(argv=[])
        for p in list(rec.processes):
            rec.actor = "process"
            if p.target.__name__ != "start_heartmonitor":
                p.kwargs["in_thread"] = True
            p.target(*p.args, **p.kwargs)
        hm = app.heartmonitor_process
        check(hm in rec.processes, "the heart monitor is not among the processes")
    return app, rec


class Services:
    """endpoints by role, found from the objects that use them"""

    def __init__(self, app, rec, case):
        import zmq

        self.bound = {}      # role -> list of endpoints
        hub = app.hub
        self.bound["query"] = hub.query.socket.bound
        self.bound["notification"] = hub.notifier.socket.bound
        self.bound["monitor"] = hub.monitor.socket.bound
        same(len(rec.hearts), 1, "heart monitors")
        self.bound["hb_ping"] = rec.hearts[0].ping_stream.socket.bound
        self.bound["hb_pong"] = rec.hearts[0].pong_stream.socket.bound
        names = {b"iopub": "iopub", b"in": "mux", b"incontrol": "control", b"intask": "task"}
        for d in rec.devices:
            name = names[d.prefix[0]]
            check((name, "in") not in self.bound, "two devices for %s", name)
            c, e = ("out", "in") if name == "iopub" else ("in", "out")
            self.bound[name, "client"] = d.side[c].bound
            self.bound[name, "engine"] = d.side[e].bound
        self.tree = {}
        for s in rec.schedulers:
            if type(s).__name__ == "TaskScheduler":
                check(("task", "client") not in self.bound, "two task schedulers")
                self.bound["task", "client"] = s.client_stream.socket.bound
                self.bound["task", "engine"] = s.engine_stream.socket.bound
            else:
                ident = s.client_stream.socket.opts.get(zmq.IDENTITY)
                check(ident not in self.tree, "two broadcast schedulers with identity %r", ident)
                self.tree[ident] = s


def run(case, ctx):
    import itertools

    tmp = tempfile.mkdtemp(prefix="c32-")
    randoms = itertools.count(40000)
    # the system may hand out ports of the pools, too
    randoms = iter(itertools.chain(case["ports"][-2:], case["engine_ports"][-1:], itertools.count(40000)))
    ctx.tag("depth%i" % case["depth"], "threads" if case["threads"] else "processes", "reload%i" % case["reloads"])
    ctx.nontrivial(bool(case["ports"] or case["engine_ports"] or case["client_ports"] or case["pairs"] or case["reloads"] or case["depth"] != 1
                        or any(s and (s[0] != "tcp" or s[1] in "*0.0.0.0") for s in (case["common"], case["engine"], case["client"]))))
    if case["pairs"] or case["single"]:
        ctx.tag("deprecated")
    try:
        first = None
        for n in range(case["reloads"] + 1):
            cfg = configure(case, tmp)
            if case["reloads"]:
                cfg.IPController.reuse_files = True
            if n and not case["key"]:
                cfg.Session.pop("key", None)
            app, rec = start_controller(cfg, randoms)
            try:
                files = judge(case, app, rec, tmp, reloaded=bool(n))
                if first is None:
                    first = files
                else:
                    same(files, first, "connection files after a reload")
            finally:
                app.clear_instance() if hasattr(app, "clear_instance") else None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(case, app, rec, tmp, reloaded):
    import zmq

    base = "ipcontroller" + ("-" + case["cluster_id"] if case["cluster_id"] else "")
    files = {}
    sec = os.path.join(tmp, "profile", "security")
    for kind in ("client", "engine"):
        path = os.path.join(sec, "%s-%s.json" % (base, kind))
        with open(path) as f:
            files[kind] = json.load(f)
        same(os.stat(path).st_mode & 0o077, 0, "access of others to " + path)
    client, engine = files["client"], files["engine"]
    # what the hub hands out and what is in the files
    for kind, info in (("client", app.hub.client_info), ("engine", app.hub.engine_info)):
        for k, v in info.items():
            same(files[kind].get(k), v, "%s connection file, %s" % (kind, k))
    s = Services(app, rec, case)
    # 1. every endpoint is bound once
    bound = [u for sock in rec.sockets for u in sock.bound]
    for i, a in enumerate(bound):
        for b in bound[:i]:
            check(not conflict(a, b), "bound both %s and %s", a, b)
    for u in bound:
        check("://" in u and u.rpartition(":")[2].isdigit(), "odd endpoint %s", u)

    def url(info, key, i=None):
        port = info[key]
        if i is not None:
            port = port[i]
        check(isinstance(port, int), "%s: port %r", key, port)
        return "%s:%i" % (info["interface"], port)

    # 2. the connection info names the endpoints bound for them
    same(s.bound["notification"], [url(client, "notification")], "notification endpoint")
    same(s.bound["hb_ping"], [url(engine, "hb_ping")], "heartbeat ping endpoint")
    same(s.bound["hb_pong"], [url(engine, "hb_pong")], "heartbeat pong endpoint")
    same(client["registration"], engine["registration"], "registration ports")
    for info in (client, engine):
        u = url(info, "registration")
        check(any(reachable(u, b) or conflict(u, b) and u.split("://")[0] == "tcp" for b in s.bound["query"]),
              "nothing listens at the registration endpoint %s, only %r", u, s.bound["query"])
    check(len(s.bound["query"]) <= 2, "registration bound at %r", s.bound["query"])
    for name in ("mux", "control", "iopub", "task"):
        if name == "task" and case["scheme"] == "none":
            check(("task", "client") not in s.bound, "a task scheduler with scheme none")
            continue
        same(s.bound.get((name, "client")), [url(client, name)], name + " endpoint for clients")
        same(s.bound.get((name, "engine")), [url(engine, name)], name + " endpoint for engines")
    # broadcast tree
    depth = case["depth"]
    leaves = 2 ** depth
    same(len(engine["broadcast"]), leaves, "broadcast endpoints for engines")
    same(len(s.tree), 2 * leaves - 1, "broadcast schedulers")
    roots = [b for b in s.tree.values() if b.client_stream.socket.bound]
    same(len(roots), 1, "roots of the broadcast tree")
    same(roots[0].client_stream.socket.bound, [url(client, "broadcast")], "broadcast endpoint for clients")
    seen = set()

    def descend(node, level, path):
        ident = node.client_stream.socket.opts[zmq.IDENTITY]
        check(ident not in seen, "broadcast scheduler %r has two parents", ident)
        seen.add(ident)
        same(node.depth, level, "depth of %r" % ident)
        same(node.max_depth, depth, "max_depth of %r" % ident)
        if level == depth:
            check(node.is_leaf, "%r at the bottom is no leaf", ident)
            # engines connect to the endpoint of their id, and messages for them are routed by it
            for e in range(2 * leaves):
                if format(e % leaves, "0%ib" % (depth + 1))[1:] == path:
                    same(node.engine_stream.socket.bound, [url(engine, "broadcast", e % leaves)], "broadcast endpoint for engine %i" % e)
            if depth == 0:
                same(node.engine_stream.socket.bound, [url(engine, "broadcast", 0)], "broadcast endpoint for engines")
            return
        check(not node.is_leaf, "%r is a leaf", ident)
        same(len(node.outgoing_streams), 2, "branches of %r" % ident)
        for i, (sub, stream) in enumerate(zip(node.connected_sub_scheduler_ids, node.outgoing_streams)):
            check(sub in s.tree, "%r is connected to unknown %r", ident, sub)
            child = s.tree[sub]
            same(len(stream.socket.bound), 1, "endpoints of branch %i of %r" % (i, ident))
            same(child.client_stream.socket.connected, stream.socket.bound, "endpoint %r connects to" % sub)
            descend(child, level + 1, path + str(i))

    descend(roots[0], 0, "")
    same(len(seen), len(s.tree), "broadcast schedulers in the tree")
    # 3. everything that connects finds what it wants
    want = {"query_stream": s.bound["query"], "notifier_stream": s.bound["notification"], "mon_stream": s.bound["monitor"]}
    for sch in rec.schedulers:
        for name, targets in want.items():
            got = getattr(sch, name).socket.connected
            check(len(got) == 1 and any(reachable(got[0], b) for b in targets), "%s of %s connects to %r, not to %r", name, sch, got, targets)
    for d in rec.devices:
        got = d.side["mon"].connected
        check(len(got) == 1 and any(reachable(got[0], b) for b in s.bound["monitor"]), "monitor of %s connects to %r, not to %r", d.prefix, got, s.bound["monitor"])
    got = rec.hearts[0].monitor_stream.socket.connected
    check(len(got) == 1 and any(reachable(got[0], b) for b in s.bound["monitor"]), "heart monitor connects to %r, not to %r", got, s.bound["monitor"])
    if case["scheme"] != "none":
        got = app.hub.resubmit.socket.connected
        check(len(got) == 1 and any(reachable(got[0], b) for b in s.bound["task", "client"]), "resubmission connects to %r, not %r", got, s.bound["task", "client"])
    # 4. security
    key = app.session.key
    for kind in ("client", "engine"):
        same(files[kind]["key"].encode(), key, "key in the %s file" % kind)
        same(files[kind]["signature_scheme"], app.session.signature_scheme, "signature scheme")
        same((files[kind]["pack"], files[kind]["unpack"]), (app.session.packer, app.session.unpacker), "serialization")
        same(files[kind]["curve_serverkey"], "p" * 40 if case["curve"] else None, "curve key in the %s file" % kind)
        if case["location"]:
            same(files[kind]["location"], case["location"], "location in the %s file" % kind)
    same(client["ssh"], case["ssh"], "ssh server for clients")
    same(engine["ssh"], case["engine_ssh"], "ssh server for engines")
    same(client["task_scheme"], case["scheme"] or client["task_scheme"], "task scheme")
    for part in rec.schedulers + [app.hub, rec.hearts[0]]:
        sess = getattr(part, "session", None)
        same((sess.key, sess.signature_scheme, sess.packer), (key, app.session.signature_scheme, app.session.packer), "session of %s" % type(part).__name__)
    if case["curve"]:
        for sock in rec.sockets:
            if sock.bound:
                same((sock.opts.get(zmq.CURVE_SERVER), sock.opts.get(zmq.CURVE_SECRETKEY)), (1, b"s" * 40), "curve options of %r" % sock.bound)
            if sock.connected:
                same(sock.opts.get(zmq.CURVE_SERVERKEY), b"p" * 40, "curve server key for %r" % sock.connected)
    # 5. interfaces and ports are those configured
    iface = {}
    for name in ("engine", "client", "monitor"):
        proto, ip = case["common"] or case[name]
        iface[name] = "%s://%s" % (proto, os.path.join(tmp, ip) if proto == "ipc" else ip)
    same(client["interface"], iface["client"], "interface for clients")
    same(engine["interface"], iface["engine"], "interface for engines")
    check(len(s.bound["monitor"]) == 1 and s.bound["monitor"][0].startswith(iface["monitor"] + ":"), "monitor bound at %r", s.bound["monitor"])
    if not reloaded:
        judge_ports(case, s, client, engine, rec)
    # 6. an engine that reads its file
    judge_engine(engine, os.path.join(sec, base + "-engine.json"), key)
    return files


def judge_ports(case, s, client, engine, rec):
    pools = {"engine": list(case["engine_ports"]), "client": list(case["client_ports"]), "common": list(case["ports"])}
    for name, (a, b) in case["pairs"].items():
        if name == "hb":
            pools["engine"] += [a, b]
        else:
            pools["client"].append(a)
            pools["engine"].append(b)
    for name, p in case["single"].items():
        pools[{"regport": "engine", "mon_port": "common", "notifier_port": "client"}[name]].append(p)
    eports = [engine[k] for k in ("registration", "control", "mux", "task", "iopub", "hb_ping", "hb_pong")] + list(engine["broadcast"])
    cports = [client[k] for k in ("control", "mux", "task", "iopub", "notification", "broadcast")]
    iports = [int(u.rpartition(":")[2]) for u in s.bound["monitor"]]
    for b in s.tree.values():
        if not b.is_leaf:
            iports += [int(x.socket.bound[0].rpartition(":")[2]) for x in b.outgoing_streams]
    every = eports + cports + iports
    same(len(set(every)), len(every), "number of distinct ports among %r" % every)
    used = set(every)
    for name, ports in (("engine", eports), ("client", cports), ("common", iports)):
        own = pools[name] if name != "common" else pools["common"]
        for p in ports:
            if p in own:
                continue
            check(set(own) <= used, "%s port %r was not from its pool %r, which is not used up (%r)", name, p, own, sorted(used))
            if p not in pools["common"]:
                check(set(pools["common"]) <= used, "%s port %r was not from the common pool %r, which is not used up (%r)", name, p, pools["common"], sorted(used))
                check(p >= 40000 or p in case["engine_ports"] + case["ports"], "%s port %r is from nowhere", name, p)
    if not (set(pools["engine"]) & set(pools["common"] + pools["client"])) and not case["pairs"] and not case["single"]:
        for name, ports in (("engine", eports), ("client", cports)):
            if set(pools[name]) & set(pools["common"]) or set(pools["client"]) & set(pools["common"]):
                continue
            mine = list(dict.fromkeys(pools[name]))
            # first ports of the pool first
            same({p for p in ports if p in mine}, set(mine[:len(ports)]), "ports taken from the %s pool %r" % (name, mine))


def judge_engine(info, path, key):
    from unittest import mock
    from ipyparallel import util
    from ipyparallel.engine.app import IPEngine

    app = IPEngine()
    app.log.setLevel(50)
    app.url_file = path
    with mock.patch.object(util, "localhost", lambda: LOCAL), mock.patch.object(util, "is_public_ip", lambda ip: False), \
            mock.patch.object(util, "public_ips", lambda: ["10.0.0.77"]), mock.patch.object(util, "ip_for_host", lambda h: "10.5.5.5"):
        app.load_connection_file()
    same(app.session.key, key, "key of the engine")
    same(app.session.signature_scheme, info["signature_scheme"], "signature scheme of the engine")
    same(app.session.packer, info["pack"], "packer of the engine")
    proto, ip = info["interface"].split("://")
    if ip not in ("*", "0.0.0.0"):
        same(app.registration_url, "%s:%i" % (info["interface"], info["registration"]), "registration url of the engine")
    check(app.registration_url.endswith(":%i" % info["registration"]), "registration url %r", app.registration_url)
    for k in ("control", "mux", "task", "iopub", "hb_ping", "hb_pong", "broadcast"):
        same(app.connection_info[k], info[k], "%s of the engine" % k)
    same(app.connection_info["interface"], app.registration_url.rpartition(":")[0], "interface of the engine")
    if info["curve_serverkey"]:
        same(app.curve_serverkey, info["curve_serverkey"].encode(), "curve key of the engine")


# -- what port pools are configured to be --------------------------------------------------
def pools_strategy():
    from hypothesis import strategies as st

    port = st.one_of(st.integers(1, 70), st.sampled_from([1, 1024, 10101, 65534, 65535]), st.integers(10000, 10010))
    ok = st.one_of(port.map(lambda p: (p, None)), st.tuples(port, st.integers(0, 8)).map(lambda x: (x[0], min(x[0] + x[1], 65535))))
    bad = st.sampled_from([(0, None), (65536, None), (65530, 65536), (0, 3), (65536, 65537), (70000, None), ("x", None), ("", None), ("1.5", None)])
    return st.fixed_dictionaries({"parts": st.lists(ok, min_size=1, max_size=4), "bad": st.one_of(st.none(), st.none(), bad), "at": st.integers(0, 4),
                                  "how": st.sampled_from(["text", "list", "config text", "config list", "argument", "arguments"]), "pool": st.sampled_from(["ports", "engine_ports", "client_ports"]), "space": st.booleans()})


def run_pools(case, ctx):
    """a port pool has the ports it is configured to have, in order, or is refused"""
    from ipyparallel.controller.app import IPController
    from traitlets import TraitError
    from traitlets.config import Config
    from traitlets.config.loader import DeferredConfigList, DeferredConfigString

    parts = list(case["parts"])
    if case["bad"] is not None:
        parts.insert(case["at"] % (len(parts) + 1), case["bad"])
    want = []
    for a, b in parts:
        want.extend([a] if b is None else range(a, b + 1))
    said = [str(a) if b is None else "%s-%s" % (a, b) for a, b in parts]
    text = (", " if case["space"] else ",").join(said)
    try:
        if case["how"] == "text":
            app = IPController()
            setattr(app, case["pool"], text)
        elif case["how"] == "list":
            app = IPController()
            setattr(app, case["pool"], want)
        else:
            value = {"config text": text, "config list": want, "argument": DeferredConfigString(text), "arguments": DeferredConfigList(said)}[case["how"]]
            with contextlib.redirect_stderr(io.StringIO()):
                app = IPController(config=Config({"IPController": {case["pool"]: value}}))
        got = list(getattr(app, case["pool"]))
    except (TraitError, ValueError, SystemExit) as e:
        check(case["bad"] is not None, "%s = %r is refused: %r", case["pool"], text, e)
        ctx.tag("refused")
        ctx.nontrivial()
        return
    check(case["bad"] is None, "%s = %r (%s) gives %r, though not all of these are ports", case["pool"], text, case["how"], got)
    same(got, want, "%s = %r (%s)", case["pool"], text, case["how"])
    for other in ("ports", "engine_ports", "client_ports"):
        if other != case["pool"]:
            same(list(getattr(app, other)), [], "%s, when %s = %r", other, case["pool"], text)
    if len(parts) > 1:
        ctx.nontrivial()
    ctx.tag(case["how"])


SUBS = [Sub("controller", strategy, run, quick=2000, thorough=12000), Sub("pools", pools_strategy, run_pools, quick=400, thorough=8000, weight=0.2)]
