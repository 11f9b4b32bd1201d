"""C45: become_dask and stop_dask of a real client, hub and engines, with a stand-in for dask.distributed that records who was started and closed."""
import asyncio
import sys
import types
from unittest import mock

from vlib.runner import HarnessError, Sub, Violation, check, same

PROPERTY = "C45"
RULE = ("cases: engines with any ids, histories of become_dask (targets, port, nanny, scheduler and worker arguments; schedulers that cannot be made or started) and stop_dask, "
        "engines that join and leave in between, and users who rebind the workers' names. Non-trivial: workers were started, and later closed or kept by a second become_dask")
ASSUMPTIONS = ["dask.distributed is a stand-in: what is started has to be closed; an address is known only while a scheduler runs; closing is a coroutine",
               "one request at a time; after stopping some engines' workers, all are stopped before starting again"]
SHARDS = 6
QUICK_S = 15
THOROUGH_S = 200


def strategy():
    from hypothesis import strategies as st
    from vlib.gen import weighted

    i = st.integers(0, 30)
    sargs = st.dictionaries(st.sampled_from(["host", "port", "protocol", "dashboard"]), st.integers(1, 9), max_size=2)
    wargs = st.dictionaries(st.sampled_from(["nthreads", "memory_limit", "name", "local_directory"]), st.integers(2, 9), max_size=2)
    targets = st.one_of(st.just("all"), st.just("all"), st.lists(i, min_size=1, max_size=3), i)
    ops = [
        (5, st.tuples(st.just("become"), targets, st.fixed_dictionaries({"port": st.sampled_from([None, None, 0, 8786]), "nanny": st.sampled_from([None, False, True]),
                                                                         "sargs": st.one_of(st.none(), sargs), "wargs": wargs,
                                                                         "fail": st.sampled_from(["no"] * 5 + ["make", "start"])}))),
        (4, st.tuples(st.just("stop"), targets)),
        (1, st.tuples(st.just("join"))),
        (1, st.tuples(st.just("leave"), i)),
        (1, st.tuples(st.just("rebind"), i, st.sampled_from(["dask_worker", "distributed_worker"]), st.booleans())),
    ]
    return st.fixed_dictionaries({"ids": st.one_of(st.integers(1, 3).map(lambda n: list(range(n))), st.lists(st.integers(0, 9), min_size=1, max_size=3, unique=True)),
                                  "ops": st.lists(weighted(*ops), min_size=1, max_size=7), "picks": st.lists(st.integers(0, 60), max_size=8)})


class Dask:
    """the stand-in"""

    def __init__(self):
        dask = self
        self.servers = []
        self.clients = []
        self.fail = "no"
        self.n = 0

        class Server:
            def __init__(self, *args, **kw):
                self.args, self.kw, self.state = args, kw, "new"
                dask.servers.append(self)

            async def start(self):
                await asyncio.sleep(0)
                if dask.fail == "start" and isinstance(self, Scheduler):
                    raise OSError("the port is in use")
                if self.state == "new":
                    self.state = "running"
                return self

            async def close(self, *args, **kw):
                if self.state != "closed":
                    self.state = "closing"
                await asyncio.sleep(0)
                self.state = "closed"

        class Scheduler(Server):
            def __init__(self, **kw):
                if dask.fail == "make":
                    raise TypeError("no such argument")
                super().__init__(**kw)
                dask.n += 1
                self.number = dask.n

            def known(self):
                if self.state != "running":
                    raise ValueError("cannot get address of non-running Server")

            @property
            def address(self):
                self.known()
                return "tcp://10.0.0.1:%i" % self.port

            @property
            def ip(self):
                self.known()
                return "10.0.0.1"

            @property
            def port(self):
                self.known()
                return 4000 + self.number

        class Worker(Server):
            pass

        class Nanny(Server):
            pass

        class Client:
            def __init__(self, address):
                self.address = address
                dask.clients.append(self)

        self.module = types.ModuleType("distributed")
        self.module.__dict__.update(Scheduler=Scheduler, Worker=Worker, Nanny=Nanny, Client=Client, __version__="2026.8.0")
        self.Scheduler, self.Client = Scheduler, Client

    def running(self, kind):
        return [s for s in self.servers if isinstance(s, getattr(self.module, kind)) and s.state == "running"]


def run(case, ctx):
    from vlib import clientsim
    from vlib.fakes import quiet_log

    from ipyparallel import error, util

    dask = Dask()

    def shell():
        s = clientsim.current_shell()
        if s is None:
            raise HarnessError("not on an engine")
        if not hasattr(s, "kernel"):
            s.kernel = types.SimpleNamespace(log=quiet_log())
        return s

    scheduler = None          # {"args": ..}
    workers = {}              # engine -> {"kind", "args", "address", "it"}
    partial = False
    with clientsim.Net(case["ids"], hub=True, picks=case["picks"]) as net, mock.patch.dict(sys.modules, {"distributed": dask.module}), mock.patch.object(util, "get_ipython", shell):
        c = net.client

        def settle():
            async def wait():
                for _ in range(12):
                    await asyncio.sleep(0)
            net.run()
            net.run_callbacks()
            net.box.aio.run_until_complete(wait())

        def call(fn, what):
            try:
                r = "ok", net.call(fn, what)
            except (Violation, HarnessError):
                raise
            except Exception as e:
                r = "error", e
            settle()
            return r

        def judge(what):
            got = dask.running("Scheduler")
            same([s.kw for s in got], [scheduler["args"]] if scheduler else [], "%s: arguments of the schedulers that run", what)
            for i, e in net.engines.items():
                w = workers.get(i)
                names = {n: e.shell.user_ns.get(n) for n in ("dask_worker", "distributed_worker")}
                if w is None:
                    for n, x in names.items():
                        check(x is None or x == "mine", "%s: engine %d has no worker, but %s is %r", what, i, n, x)
                    continue
                for n, x in names.items():
                    check(x == "mine" or x is w["it"], "%s: %s on engine %d is %r", what, n, i, x)
            live = dask.running("Worker") + dask.running("Nanny")
            mine = [w["it"] for w in workers.values()]
            check(len(live) == len(mine) and all(any(x is y for y in mine) for x in live), "%s: workers %r run, should be %r", what,
                  [(type(x).__name__, x.args, x.kw) for x in live], [(w["kind"], w["args"]) for w in workers.values()])

        for op in case["ops"]:
            ids = sorted(net.engines)
            if op[0] in ("become", "stop"):
                t = op[1]
                if not ids:
                    continue
                if op[0] == "become" and partial:
                    t0, op = op, ("stop", "all")
                    t = "all"
                targets = "all" if t == "all" else ids[t % len(ids)] if isinstance(t, int) else list(dict.fromkeys(ids[x % len(ids)] for x in t))
                on = ids if targets == "all" else [targets] if isinstance(targets, int) else targets
            if op[0] == "become":
                d = op[2]
                kw = dict(d["wargs"])
                sargs = None if d["sargs"] is None else dict(d["sargs"])
                for k in ("port", "nanny"):
                    if d[k] is not None:
                        kw[k] = d[k]
                if sargs is not None:
                    kw["scheduler_args"] = sargs
                what = "become_dask(%r, %r)" % (targets, kw)
                dask.fail = d["fail"]
                n = len(dask.clients)
                before = len(dask.servers)
                r = call(lambda: c.become_dask(targets, **kw), what)
                dask.fail = "no"
                same(sargs, d["sargs"], "%s: the scheduler arguments passed", what)
                if d["fail"] != "no" and scheduler is None:
                    check(r[0] == "error" and isinstance(r[1], error.RemoteError) and r[1].ename == {"make": "TypeError", "start": "OSError"}[d["fail"]],
                          "%s, where the scheduler fails: %r", what, r)
                    same(dask.clients[n:], [], "%s, which failed: clients", what)
                    ctx.tag("failed")
                    ctx.nontrivial()
                    judge(what)
                    continue
                check(r[0] == "ok", "%s: %r", what, r)
                if scheduler is None:
                    args = dict(d["sargs"] or {})
                    if d["port"]:
                        args.setdefault("port", d["port"])
                    args.setdefault("port", 0)
                    run_ = dask.running("Scheduler")
                    check(len(run_) == 1, "%s: %d schedulers run", what, len(run_))
                    # no port is any port
                    have = dict(run_[0].kw)
                    have.setdefault("port", 0)
                    same(have, args, "%s: arguments of the scheduler", what)
                    scheduler = {"args": run_[0].kw, "it": run_[0]}
                else:
                    ctx.nontrivial()
                    ctx.tag("again")
                address = scheduler["it"].address
                check(isinstance(r[1], dask.Client) and r[1].address == address, "%s gives %r", what, r)
                for i in on:
                    e = net.engines[i]
                    if i in workers:
                        ctx.tag("kept")
                        continue
                    it = e.shell.user_ns.get("distributed_worker")
                    check(any(it is s for s in dask.servers[before:]) and it.state == "running", "%s: the worker of engine %d is %r", what, i, it)
                    same((type(it).__name__, it.args, it.kw), ("Nanny" if d["nanny"] else "Worker", (address,), {"nthreads": 1, **d["wargs"]}), "%s: the worker of engine %d", what, i)
                    workers[i] = {"kind": type(it).__name__, "args": it.kw, "it": it}
            elif op[0] == "stop":
                what = "stop_dask(%r)" % (targets,)
                r = call(lambda: c.stop_dask(targets), what)
                check(r == ("ok", None), "%s: %r", what, r)
                if scheduler or workers:
                    ctx.nontrivial()
                scheduler = None
                for i in on:
                    workers.pop(i, None)
                partial = bool(workers)
            elif op[0] == "join":
                net.add_engine()
                net.run()
                what = "an engine joined"
            elif op[0] == "leave":
                if len(ids) < 2:
                    continue
                i = ids[op[1] % len(ids)]
                net.kill(i)
                net.run()
                w = workers.pop(i, None)
                if w:
                    # with its process
                    w["it"].state = "closed"
                what = "engine %d left" % i
            else:
                if not ids:
                    continue
                i = ids[op[1] % len(ids)]
                ns = net.engines[i].shell.user_ns
                if op[3]:
                    ns[op[2]] = "mine"
                elif ns.get(op[2]) == "mine":
                    w = workers.get(i)
                    if w:
                        ns[op[2]] = w["it"]
                    else:
                        del ns[op[2]]
                what = "%s rebound" % op[2]
            judge(what)


SUBS = [Sub("dask", strategy, run, quick=1200, thorough=20000)]
