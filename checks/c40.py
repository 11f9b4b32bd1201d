"""C40: joblib's Parallel with a view as its backend, against the same calls made here."""
import logging

from vlib.runner import Skip, Sub, Violation, check, same as _same

PROPERTY = "C40"
RULE = ("cases: calls of joblib.Parallel with a registered view (load-balanced, some or all engines): batch sizes, dispatch limits, inputs that are lists or generators or "
        "fail on the way, tasks with values, keywords, arrays, errors, nested Parallels; several calls in one context, on one backend, by views with different names; engines joining "
        "and other work of the view at the same time. Messages delivered in any order. Non-trivial: more than one batch, and more than one engine or an error")
ASSUMPTIONS = ["joblib's own part works as documented: with one engine, it runs the tasks itself; after an error, a Parallel is not used again (it keeps batches of the failed call)"]
SHARDS = 6
QUICK_S = 25
THOROUGH_S = 300


def same(a, b, what, *args):
    _same(a, b, what % args if args else what)


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    task = st.tuples(weighted((6, st.just("ok")), (2, st.just("kw")), (2, st.just("arr")), (1, st.just("err")), (1, st.just("none")), (1, st.just("nest"))), st.integers(0, 30))
    call = st.fixed_dictionaries({
        "tasks": st.lists(task, max_size=14), "batch": st.sampled_from(["auto", 1, 1, 2, 3, 20]), "pre": st.sampled_from(["2 * n_jobs", "all", 1, 2, "n_jobs", 5]),
        "n_jobs": st.sampled_from([None, 1, 2, -1, 7]), "input": st.sampled_from(["list", "gen", "gen", "genfail"]), "verbose": st.just(0)})
    return st.fixed_dictionaries({
        "ids": st.one_of(st.integers(1, 4).map(lambda n: list(range(n))), st.lists(st.integers(0, 20), min_size=1, max_size=4, unique=True)),
        "targets": st.sampled_from([None, None, 0, 1, 2]), "calls": st.lists(call, min_size=1, max_size=4), "context": st.booleans(), "other": st.booleans(),
        "join": st.booleans(), "how": st.sampled_from(["name", "config", "default"]), "picks": st.lists(st.integers(0, 60), min_size=1, max_size=12)})


RAN = []


def job(n, kind, x, plus=0):
    import numpy

    from vlib.clientsim import current_shell

    sh = current_shell()
    RAN.append((n, None if sh is None else sh.user_ns["engine_id"]))
    if kind == "err":
        raise ValueError("%s:%s" % (n, x))
    if kind == "arr":
        return numpy.arange(x * 30)
    if kind == "none":
        return None
    if kind == "nest":
        from joblib import Parallel, delayed

        return Parallel(n_jobs=1)(delayed(divmod)(i, 2) for i in range(x % 5))
    return (n, x, plus)


def expected(n, kind, x):
    import numpy

    if kind == "arr":
        return numpy.arange(x * 30)
    if kind == "none":
        return None
    if kind == "nest":
        return [divmod(i, 2) for i in range(x % 5)]
    return (n, x, x if kind == "kw" else 0)


class InputError(Exception):
    pass


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(self.format(record))


def run(case, ctx):
    import warnings

    from checks.c09 import norm
    from ipyparallel import error
    from vlib.clientsim import Net

    warnings.simplefilter("ignore")
    try:
        from joblib import Parallel, delayed, parallel_config
        import joblib.parallel as jp
    except ImportError:
        raise Skip("no joblib")
    ids = case["ids"]
    log = Log()
    logging.getLogger("concurrent.futures").addHandler(log)
    was = jp.DEFAULT_BACKEND
    net = Net(ids, picks=case["picks"])
    c = net.client
    try:
        order = sorted(ids)
        targets = None if case["targets"] is None else order[:case["targets"] + 1]
        view = c.load_balanced_view(targets) if targets else c.load_balanced_view()
        allowed = set(targets or order)
        name = "verif"
        decoy = c.load_balanced_view(order[0])
        decoy.register_joblib_backend("verif-other")
        if case["how"] == "default":
            view.register_joblib_backend(name, make_default=True)
        else:
            view.register_joblib_backend(name)
        serial = [0]

        def config():
            if case["how"] == "config":
                return parallel_config(backend=name)
            import contextlib

            return contextlib.nullcontext()

        def make(spec):
            kw = {"batch_size": spec["batch"], "pre_dispatch": spec["pre"], "n_jobs": spec["n_jobs"], "verbose": 0}
            if case["how"] == "name":
                kw["backend"] = name
            p = Parallel(**kw)
            check(type(p._backend).__name__ == "IPythonParallelBackend", "the backend is %r", p._backend)
            check(p._backend._view is view, "the backend's view is not the registered one")
            return p

        def one(p, spec):
            tasks = spec["tasks"]
            base = serial[0]
            serial[0] += len(tasks)
            taken = []

            def inputs():
                for n, (kind, x) in enumerate(tasks):
                    if spec["input"] == "genfail" and n == len(tasks) - 1:
                        raise InputError(n)
                    taken.append(n)
                    yield delayed(job)(base + n, kind, x, plus=x) if kind == "kw" else delayed(job)(base + n, kind, x)
            arg = inputs()
            if spec["input"] == "list":
                arg = list(arg)
            try:
                got = "ok", p(arg)
            except InputError as e:
                got = "input", e
            except error.RemoteError as e:
                got = "remote", e
            except ValueError as e:
                if len(allowed) > 1:
                    raise
                got = "local", e
            return got, base, tasks, taken

        def judge(r, spec, what):
            got, base, tasks, taken = r
            errs = [base + n for n, (k, x) in enumerate(tasks) if k == "err"]
            fails = spec["input"] == "genfail" and tasks
            if fails:
                errs = [e for e in errs if e != base + len(tasks) - 1]
            if got[0] == "ok":
                check(not errs and not fails, "%s returned %r, but %s", what, got[1], "tasks failed" if errs else "its input failed")
                same(norm(got[1]), norm([expected(base + n, k, x) for n, (k, x) in enumerate(tasks)]), "%s", what)
                same(sorted(n for n, e in RAN if base <= n < base + len(tasks)), [base + n for n in range(len(tasks))], "%s: tasks that ran", what)
            elif got[0] in ("remote", "local"):
                check(errs, "%s raised %r", what, got[1])
                if got[0] == "remote":
                    same(got[1].ename, "ValueError", "%s: error", what)
                check(int((got[1].evalue if got[0] == "remote" else str(got[1])).split(":")[0]) in errs, "%s: error %r, failing tasks: %r", what, got[1], errs)
                ctx.tag("error")
            else:
                check(fails, "%s raised %r", what, got[1])
                ctx.tag("input-error")
            runs = [n for n, e in RAN]
            check(len(set(runs)) == len(runs), "%s: tasks ran more than once: %r", what, sorted(runs))
            check({e for n, e in RAN if e is not None} <= allowed, "%s: tasks ran on %r, not only on %r", what, {e for n, e in RAN}, allowed)
            if len(tasks) > 1 and (len(allowed) > 1 or errs):
                ctx.nontrivial()

        del RAN[:]
        others = []
        if case["other"]:
            others = [(i, view.apply_async(divmod, 7, i)) for i in (2, 3)]
        if case["join"]:
            e = net.add_engine()
            net.run(only=lambda k: k[0] == "notif")
            if targets is None:
                allowed.add(e.id)
        if case["context"]:
            with config():
                p = make(case["calls"][0])

                def go():
                    out = []
                    with p:
                        for spec in case["calls"]:
                            out.append((one(p, dict(spec, batch=case["calls"][0]["batch"])), spec))
                            if out[-1][0][0][0] != "ok":
                                break
                    return out
                for r, spec in net.call(go, "calls of a Parallel context"):
                    judge(r, spec, "a call in a Parallel context %r" % (spec,))
        else:
            for spec in case["calls"]:
                with config():
                    p = make(spec)
                    n = net.call(lambda: p._backend.effective_n_jobs(spec["n_jobs"]), "effective_n_jobs")
                    same(n, len(targets) if targets else len(net.engines), "effective_n_jobs")
                    r = net.call(lambda: one(p, spec), "Parallel%r" % (spec,))
                net.run()
                judge(r, spec, "Parallel%r" % (spec,))
        net.run()
        for i, ar in others:
            same(net.call(ar.get, "another result of the view"), divmod(7, i), "another result of the view")
        check(not c.outstanding, "still outstanding: %r", c.outstanding)
        check(not net.errors, "an exception while a message was handled: %s", net.errors[:1])
        check(not log.lines, "logged: %s", log.lines[:1])
    finally:
        logging.getLogger("concurrent.futures").removeHandler(log)
        if case["how"] == "default":
            jp.DEFAULT_BACKEND = was
        net.close()


# --- the default backend: its own client, maybe its own cluster ---
def default_strategy():
    from hypothesis import strategies as st

    call = st.lists(st.tuples(st.sampled_from(["ok", "ok", "ok", "kw", "arr", "none", "err"]), st.integers(0, 30)), max_size=8)
    return st.fixed_dictionaries({
        "n": st.integers(1, 4), "found": st.booleans(), "engines": st.booleans(), "said": st.booleans(),
        "how": st.sampled_from(["one", "config", "with", "each"]), "calls": st.lists(call, min_size=1, max_size=4), "batch": st.sampled_from([1, 2, 3, "auto"]),
        "picks": st.lists(st.integers(0, 60), min_size=1, max_size=8)})


def run_default(case, ctx):
    import contextlib
    import warnings
    from unittest import mock

    import ipyparallel as ipp
    from checks.c09 import norm
    from ipyparallel import error
    from ipyparallel.serialize import canning
    from vlib.clientsim import Net

    warnings.simplefilter("ignore")
    try:
        from joblib import Parallel, delayed, parallel_config
    except ImportError:
        raise Skip("no joblib")
    log = Log()
    logging.getLogger("concurrent.futures").addHandler(log)
    n = case["n"]
    net = Net(list(range(n)), picks=case["picks"])
    saved = dict(canning.can_map)
    peers = []
    world = {"found": case["found"], "engines": case["engines"] if case["found"] else False, "ours": []}

    class Cluster:
        n = None

        @classmethod
        def from_file(cls, *args, **kw):
            if not world["found"]:
                raise FileNotFoundError("no cluster")
            self = cls()
            self.mine = False
            return self

        def __init__(self, **kw):
            self.mine = True
            self.n = n if case["said"] else None
            self.state = "new"

        @property
        def engines(self):
            return {"e": 1} if world["engines"] else {}

        def start_cluster_sync(self, **kw):
            check(self.mine and not world["found"], "the cluster was started, but it is running")
            self.state = "running"
            world["ours"].append(self)
            world["found"] = world["engines"] = True

        def start_engines_sync(self, *args, **kw):
            check(not world["engines"], "engines were started, but there are some")
            world["engines"] = True

        def stop_cluster_sync(self):
            check(self.mine and self.state == "running", "a cluster was stopped that %s", "was stopped before" if self.mine else "was running before")
            check(all(p._closed for p in peers), "the cluster was stopped before the client was closed")
            self.state = "stopped"
            world["found"] = world["engines"] = False

        def connect_client_sync(self, **kw):
            check(world["found"] and world["engines"], "a client connected, but there are no engines")
            peers.append(net.add_client().client)
            return peers[-1]

    ipp.register_joblib_backend("verif-default")
    base = [0]
    try:
        del RAN[:]

        def one(p, spec):
            b = base[0]
            base[0] += len(spec)
            try:
                got = "ok", p([delayed(job)(b + k, kind, x, plus=x) if kind == "kw" else delayed(job)(b + k, kind, x) for k, (kind, x) in enumerate(spec)])
            except (error.RemoteError, ValueError) as e:
                got = "err", e
            open_ = [c for c in peers if not c._closed]
            errs = [k for k, (kind, x) in enumerate(spec) if kind == "err"]
            if got[0] == "err":
                check(errs, "Parallel raised %r", got[1])
                if len(net.engines) > 1:
                    check(isinstance(got[1], error.RemoteError) and got[1].ename == "ValueError", "Parallel raised %r", got[1])
            else:
                check(not errs, "Parallel returned %r, but a task failed", got[1])
                same(norm(got[1]), norm([expected(b + k, kind, x) for k, (kind, x) in enumerate(spec)]), "results of call %d of the default backend", len(calls))
                same(sorted(r for r, e in RAN if r >= b), [b + k for k in range(len(spec))], "tasks that ran")
            calls.append((got[0], open_))
            return got[0] == "ok"

        calls = []

        def go():
            kw = {"batch_size": case["batch"]}
            with contextlib.ExitStack() as stack:
                if case["how"] == "config":
                    stack.enter_context(parallel_config(backend="verif-default"))
                else:
                    kw["backend"] = "verif-default"
                p = None
                if case["how"] in ("one", "with"):
                    p = Parallel(**kw)
                if case["how"] == "with":
                    stack.enter_context(p)
                for k, spec in enumerate(case["calls"]):
                    if case["how"] in ("config", "each"):
                        p = Parallel(**kw)
                        check(type(p._backend).__name__ == "IPythonParallelBackend", "the backend is %r", p._backend)
                    one_ok = one(p, spec)
                    if n > 1 and case["how"] != "with":
                        check(not calls[-1][1], "after call %d, %d clients of the default backend are open", k, len(calls[-1][1]))
                        check(all(c.state == "stopped" for c in world["ours"]), "after call %d, the cluster it started is running", k)
                        if k and len(calls) > 1 and not case["found"]:
                            ctx.tag("restarted")
                    if not one_ok and case["how"] in ("one", "with"):
                        break
        with mock.patch.object(ipp, "Cluster", Cluster):
            net.call(go, "calls with the default joblib backend")
        if n > 1:
            check(all(c._closed for c in peers), "%d of %d clients of the default backend are still open", sum(not c._closed for c in peers), len(peers))
            check(all(c.state == "stopped" for c in world["ours"]), "a cluster that the default backend started is running")
            ctx.tag("clients:%d" % min(3, len(peers)))
        if case["found"]:
            check(not world["ours"], "a cluster was started, though one was running")
        check(not net.errors, "an exception while a message was handled: %s", net.errors[:1])
        check(not log.lines, "logged: %s", log.lines[:1])
        if n > 1 and len(calls) > 1:
            ctx.nontrivial()
    finally:
        logging.getLogger("concurrent.futures").removeHandler(log)
        canning.use_pickle()
        canning.can_map.clear()
        canning.can_map.update(saved)
        net.close()


SUBS = [Sub("parallel", strategy, run, quick=1500, thorough=20000),
        Sub("default", default_strategy, run_default, quick=500, thorough=8000)]
