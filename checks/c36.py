"""C36: clusters and the server extension, on launchers that record what they are told."""
import asyncio
import gc
import inspect
import json
import logging
import os
import shutil
import tempfile
import threading
import time
from unittest import mock

from vlib import entry
from vlib.runner import HarnessError, Skip, Sub, Violation, check, same

entry.cache()
PROPERTY = "C36"
RULE = ("cases: (1) clusters of any settings on launchers that are synchronous or not, take their time, fail to start, stop or be signalled, or exit on their own, and histories of calls - single or concurrent, awaited, "
        "synchronous, or synchronous inside a running loop - with context managers, connecting and cleaning up at exit; (2) histories of requests to the server extension over HTTP. What the launchers were told, "
        "what the cluster shows and what callers got is compared with a model. Non-trivial: something failed or exited on its own, calls overlapped, or two engine sets were involved")
ASSUMPTIONS = ["a launcher's stop that fails has not stopped it", "starting a second controller for a cluster is not defined after the first one exited on its own"]
SHARDS = 6
QUICK_S = 32
THOROUGH_S = 300

SETS = [None, "a", "b", "\u00fc x"]


class Fail(Exception):
    pass


def launcher_strategy():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "async": st.booleans(), "hops": st.integers(0, 4),
        "start": st.sampled_from(["ok"] * 8 + ["raise", "late"]), "stop": st.sampled_from(["ok"] * 7 + ["raise", "late"]),
        "signal": st.sampled_from(["ok"] * 5 + ["raise"]), "info": st.sampled_from(["ok"] * 9 + ["raise"]), "info_async": st.booleans(),
        "args": st.sampled_from([True, True, True, False]), "count": st.sampled_from([None, None, None, 5]), "output": st.sampled_from(["", "text\n"])})


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    n = st.sampled_from([None, 0, 1, 2, 3])
    sid = st.sampled_from(SETS)
    i = st.integers(0, 5)
    start = st.tuples(st.just("engines"), n, sid, st.booleans())
    single = weighted(
        (3, st.tuples(st.just("controller"), st.booleans())), (6, start), (2, st.tuples(st.just("cluster"), n)),
        (3, st.tuples(st.just("stopset"), st.one_of(st.none(), i, st.just("nosuch")))), (2, st.just(("stopctl",))), (2, st.just(("stop",))),
        (2, st.tuples(st.just("restart"), st.one_of(st.none(), i))),
        (3, st.tuples(st.just("signal"), st.sampled_from([2, 9, "INT"]), st.one_of(st.none(), i, st.just("nosuch")))))
    both = st.tuples(st.just("both"), st.lists(st.one_of(start, st.tuples(st.just("controller"), st.booleans())), min_size=2, max_size=3))
    conn = st.sampled_from(["ok", "ok", "ok", "refused", "timeout"])
    op = weighted(
        (20, single), (2, both), (3, st.tuples(st.just("exit"), st.sampled_from(["controller", "set"]), i, st.integers(0, 1))),
        (2, st.tuples(st.just("connect"), n, st.booleans(), conn)), (2, st.tuples(st.just("with"), st.sampled_from(["ok", "raise"]), conn, st.lists(single, max_size=2))),
        (1, st.just(("atexit",))), (1, st.tuples(st.just("keep"), st.booleans())))
    style = st.sampled_from(["await", "sync", "inside"])
    words = st.lists(st.sampled_from(["--debug", "--x=1 2", ""]), max_size=2)
    return st.fixed_dictionaries({
        "n": st.sampled_from([None, None, 0, 2, 4]), "send": st.sampled_from([True, True, False]), "delay": st.sampled_from([0, 0, 0.01]),
        "ip": st.sampled_from(["", "", "*", "::1"]), "location": st.sampled_from(["", "", "host"]), "args": words, "conf_args": words, "keep": st.sampled_from([False, False, False, True]),
        "file": st.sampled_from([True, True, False]), "cid": st.sampled_from(["", "c", "\u00fc"]), "launchers": st.lists(launcher_strategy(), min_size=1, max_size=8),
        "ops": st.lists(st.tuples(style, op), min_size=1, max_size=9)})


class World:
    """what the launchers were told, in order"""

    def __init__(self, case, ctx, box):
        self.case, self.ctx, self.box = case, ctx, box
        self.made = []           # launchers, in order
        self.now = 0
        self.clients = []
        self.conn = "ok"
        self.specs = case["launchers"]
        self.log = logging.getLogger("c36.%i" % os.getpid())
        self.log.propagate = False
        self.log.handlers = [logging.NullHandler()]

    def tick(self):
        self.now += 1
        return self.now


def classes(w):
    from traitlets import Any, Integer

    from ipyparallel.cluster import launcher

    def common(base, kind):
        class Stub(base):
            def __init__(self, **kw):
                self.kw = dict(kw)
                self.spec = w.specs[len(w.made) % len(w.specs)]
                self.events = []
                self.infos = []
                self.kind = kind
                self.alive = False
                super().__init__(**kw)
                w.made.append(self)

            def find_args(self):
                return ["stub"]

            def event(self, *a):
                self.events.append((w.tick(),) + a)

            def did(self, name):
                return [e for e in self.events if e[1] == name]

            async def _hops(self):
                for _ in range(self.spec["hops"]):
                    await asyncio.sleep(0)

            def act(self, how, name, finish):
                """synchronous or not; failing at once or late"""
                if how == "raise":
                    self.event(name + " failed")
                    raise Fail("%s %s" % (name, id(self)))
                if not self.spec["async"]:
                    if how == "late":
                        self.event(name + " failed")
                        raise Fail("%s %s" % (name, id(self)))
                    finish()
                    self.event(name + " done")
                    return None

                async def go():
                    await self._hops()
                    if how == "late":
                        self.event(name + " failed")
                        raise Fail("%s %s" % (name, id(self)))
                    finish()
                    self.event(name + " done")
                return go()

            def start(self, *n):
                self.event("start", n, dict(self.environment), list(getattr(self, "controller_args", None) or []))

                def ok():
                    self.alive = True
                    if n:
                        self.n = n[0]
                    self.notify_start({"x": 1})
                return self.act(self.spec["start"], "start", ok)

            def stop(self):
                self.event("stop")

                def ok():
                    self.alive = False
                    self.notify_stop({"exit_code": 0})
                return self.act(self.spec["stop"], "stop", ok)

            def signal(self, sig):
                self.event("signal", sig)
                return self.act(self.spec["signal"], "signal", lambda: None)

            def get_output(self, remove=False):
                self.event("output", remove)
                return self.spec["output"]

            def poll(self):
                return None if self.alive else 0

        return Stub

    class Controller(common(launcher.ControllerLauncher, "controller")):
        def get_connection_info(self, timeout=None):
            self.event("info")
            info = {"client": {"c": len(self.events), "k": str(id(self))}, "engine": {"e": len(self.events), "\u00fc": str(id(self))}}

            def get():
                if self.spec["info"] == "raise":
                    raise Fail("info")
                self.infos.append((w.tick(), info))
                return info

            async def later():
                await self._hops()
                return get()
            return later()

    class NoArgs(Controller):
        controller_args = None

    class Engines(common(launcher.LocalEngineSetLauncher, "engines")):
        n = Integer(0).tag(to_dict=True)

        def __init__(self, **kw):
            super().__init__(**kw)
            if self.spec["count"] is not None:
                self.engine_count = self.spec["count"]

    return Controller, NoArgs, Engines


class FakeClient:
    w = None

    def __init__(self, info, **kw):
        if self.w.conn == "refused":
            raise Fail("connecting")
        self.info, self.kw = info, kw
        self.closed = 0
        self.waits = []
        self.views = []
        self.w.clients.append(self)

    def wait_for_engines(self, n, *, block=True, timeout=None, **kw):
        import concurrent.futures

        self.waits.append((n, block, timeout, kw))
        f = concurrent.futures.Future()
        threading.Thread(target=lambda: f.set_exception(TimeoutError("engines")) if self.w.conn == "timeout" else f.set_result(None)).start()
        return f

    def close(self, *a, **k):
        self.closed += 1

    def __getitem__(self, k):
        v = mock.Mock()
        self.views.append((k, v))
        return v


def run(case, ctx):
    box = os.path.realpath(tempfile.mkdtemp(prefix="c36-"))
    here = os.getcwd()
    try:
        os.chdir(box)
        with mock.patch("atexit.register") as reg:
            History(case, ctx, box, reg).go()
    finally:
        os.chdir(here)
        shutil.rmtree(box)


class History:
    def __init__(self, case, ctx, box, reg):
        import ipyparallel
        from traitlets.config import Config

        from ipyparallel.cluster import cluster as mod

        self.case, self.ctx, self.reg, self.mod = case, ctx, reg, mod
        self.w = w = World(case, ctx, box)
        self.profile = os.path.join(box, "profile")
        mod._atexit_clusters.clear()
        mod._atexit_cleanup_clusters.registered = False
        Controller, NoArgs, Engines = classes(w)
        FakeClient.w = w
        self.patch = mock.patch.object(ipyparallel, "Client", FakeClient)
        cfg = Config()
        cfg.ControllerLauncher.controller_args = list(case["conf_args"])
        kw = {}
        if not case["file"]:
            kw["cluster_file"] = ""
        with_args = case["launchers"][0]["args"]
        self.c = mod.Cluster(
            config=cfg, load_profile=False, profile_dir=self.profile, cluster_id=case["cid"], n=case["n"], delay=case["delay"], controller_ip=case["ip"], controller_location=case["location"],
            controller_args=list(case["args"]), send_engines_connection_env=case["send"], log=w.log, controller=Controller if with_args else NoArgs, engines=Engines, shutdown_atexit=not case["keep"], engine_timeout=7, **kw)
        self.with_args = with_args
        self.keep = case["keep"]
        self.seen = {}               # launcher -> events that are accounted for
        self.sets = {}               # id -> launcher
        self.ctl = None
        self.mark = 0
        self.watched = False         # whether it's told when the process ends

    # -- calling -------------------------------------------------------------
    def call(self, style, name, *args, **kw):
        """(value, exception)"""
        c = self.c

        async def awaited():
            return await getattr(c, name)(*args, **kw)

        async def inside():
            return getattr(c, name + "_sync")(*args, **kw)

        try:
            if style == "await":
                return asyncio.run(awaited()), None
            if style == "sync":
                return getattr(c, name + "_sync")(*args, **kw), None
            return asyncio.run(inside()), None
        except (Fail, RuntimeError, KeyError, TimeoutError) as e:
            return None, e

    def new(self, l):
        """what it was told since it was last asked"""
        k = self.seen.get(id(l), 0)
        self.seen[id(l)] = len(l.events)
        return l.events[k:]

    def untouched(self, what, *but):
        for l in self.w.made:
            if l not in but:
                got = [e for e in self.new(l)]
                check(not got, "%s: a %s it does not concern was told %r", what, l.kind, got)

    # -- model ---------------------------------------------------------------
    def go(self):
        with self.patch:
            for style, op in self.case["ops"]:
                self.what = "%s (%s)" % (op, style)
                n = len(self.w.made)
                getattr(self, "op_" + op[0])(style, *op[1:])
                if len(self.w.made) > n and not self.keep:
                    self.watched = True
                self.settled()
                if self.c is None:
                    return

    def settled(self):
        c = self.c
        if c is None:
            return
        what = "after " + self.what
        check(c.controller is self.ctl, "controller %s: got %r, expected %r", what, c.controller, self.ctl)
        check(set(c.engines) == set(self.sets) and all(c.engines[k] is v for k, v in self.sets.items()), "engine sets %s: got %r, expected %r", what, c.engines, self.sets)
        running = [l for l in [self.ctl] + list(self.sets.values()) if l is not None and l.state != "after"]
        same(c._is_running(), bool(running), "whether it runs " + what)
        if self.case["file"]:
            same(os.path.exists(c.cluster_file), bool(running), "the cluster file is there " + what)
            if running:
                with open(c.cluster_file) as f:
                    same(json.load(f), json.loads(json.dumps(c.to_dict())), "the cluster file " + what)
        else:
            check(not os.path.exists(os.path.join(self.profile, "security")) or not os.listdir(os.path.join(self.profile, "security")), "a file was written, though it's switched off")
        for l in self.w.made:
            if l.alive and l not in self.sets.values() and l is not self.ctl:
                raise Violation("%s a running %s is not known to the cluster" % (what, l.kind))
        self.untouched(what)

    def started_controller(self, l, kw):
        """a controller launcher as it should have been made and started"""
        c = self.c
        given = dict(l.kw)
        want = {"work_dir": ".", "parent": c, "profile_dir": self.profile, "cluster_id": self.case["cid"], "log": self.w.log}
        want.update(kw)
        same({k: given.get(k) for k in want}, want, "settings of the controller")
        ev = self.new(l)
        st = [e for e in ev if e[1] == "start"]
        same(len(st), 1, "times the controller was started")
        args = list(self.case["conf_args"]) if self.with_args else []
        if self.with_args:
            if self.case["ip"]:
                args.append("--ip=" + self.case["ip"])
            if self.case["location"]:
                args.append("--location=" + self.case["location"])
            args.extend(self.case["args"])
        same(st[0][4], args, "arguments of the controller")
        same(st[0][2], (), "arguments of start()")
        # the rest is about what followed
        self.seen[id(l)] = 1 + max(k for k, e in enumerate(l.events) if e[1].startswith("start"))

    def model_controller(self, e, first, kw):
        """after start_controller"""
        made = [l for l in self.w.made[first:] if l.kind == "controller"]
        if self.ctl is not None:
            check(isinstance(e, RuntimeError), "%s: another controller was not refused: %r", self.what, e)
            check(not made, "%s: a second controller was started", self.what)
            return False
        same(len(made), 1, "controllers that were made")
        l = made[0]
        self.started_controller(l, kw)
        if l.spec["start"] != "ok":
            self.ctx.nontrivial()
            check(isinstance(e, Fail), "%s: the controller failed to start, but: %r", self.what, e)
            return False
        check(l.did("start done"), "%s: the start was not waited for", self.what)
        self.ctl = l
        return True

    def op_controller(self, style, extra):
        first = len(self.w.made)
        kw = {"output_limit": 7} if extra else {}
        v, e = self.call(style, "start_controller", **kw)
        ok = self.model_controller(e, first, kw)
        check(not ok or e is None, "%s failed: %r", self.what, e)
        self.exits()

    def exits(self):
        """output is asked for when a process is over"""
        self.mark = self.w.now
        for l in self.w.made:
            self.new(l)

    def model_engines(self, l, n, sid, value, e, kw):
        c = self.c
        infos = self.ctl.events if self.ctl is not None else []
        ask = self.case["send"] and self.ctl is not None
        began = l.did("start")[0][0] if l.did("start") else 1e9
        same(len([x for x in infos if x[1] == "info" and self.mark < x[0] < began]), 1 if ask else 0, "%s: times the controller's connection info was asked for" % self.what)
        self.mark = min(began, self.w.now)
        given = {k: l.kw.get(k) for k in ["work_dir", "parent", "profile_dir", "cluster_id", "log", "engine_set_id"] + list(kw)}
        sid_ = l.kw["engine_set_id"]
        same(given, dict({"work_dir": ".", "parent": c, "profile_dir": self.profile, "cluster_id": self.case["cid"], "log": self.w.log, "engine_set_id": sid or sid_}, **kw), "settings of the engine set")
        check(sid_ and isinstance(sid_, str), "id of an engine set: %r", sid_)
        ev = self.new(l)
        st = [x for x in ev if x[1] == "start"]
        if ask and self.ctl.spec["info"] == "raise":
            self.ctx.nontrivial()
            check(isinstance(e, Fail) and not st, "%s: connection info failed, but: %r, %r", self.what, e, ev)
            return
        same(len(st), 1, "times an engine set was started")
        want = l.spec["count"] or (n if n is not None else self.case["n"])
        if want is None:
            want = os.cpu_count()
        same(st[0][2], (want,), "number of engines")
        env = dict(kw.get("environment", {}))
        if ask:
            env["IPP_CONNECTION_INFO"] = json.dumps([x for k, x in self.ctl.infos if k < began][-1]["engine"])
        same(st[0][3], env, "environment of the engines")
        if l.spec["start"] != "ok":
            self.ctx.nontrivial()
            check(isinstance(e, Fail), "%s: the engines failed to start, but: %r", self.what, e)
            return
        check(l.did("start done"), "%s: the start was not waited for", self.what)
        check(e is None, "%s failed: %r", self.what, e)
        if value is not False:
            same(value, sid_, "what %s returns" % self.what)
        check(sid_ not in self.sets or not self.sets[sid_].alive, "%s: a running set was replaced", self.what)
        self.sets[sid_] = l
        if len(self.sets) > 1:
            self.ctx.nontrivial()

    def op_engines(self, style, n, sid, extra):
        first = len(self.w.made)
        old = self.sets.get(sid)
        kw = {"environment": {"A": "\u00fc"}} if extra else {}
        v, e = self.call(style, "start_engines", n, sid, **kw)
        made = self.w.made[first:]
        if old is not None and old.alive:
            self.ctx.tag("taken")
            check(isinstance(e, RuntimeError) and not any(l.did("start") for l in made), "%s: the id of a running set was not refused: %r", self.what, e)
            return
        if old is not None:
            self.sets.pop(sid)
        same([l.kind for l in made], ["engines"], "launchers made by " + self.what)
        self.model_engines(made[0], n, sid, v, e, kw)
        self.exits()

    def op_cluster(self, style, n, name="start_cluster"):
        first = len(self.w.made)
        had = self.ctl
        t = time.monotonic()
        v, e = self.call(style, name, n)
        self.model_cluster(had, first, n, e, t)
        if e is None and name == "start_cluster":
            check(v is self.c, "start_cluster returns %r", v)
        return v, e

    def model_cluster(self, had, first, n, e, t):
        if had is None:
            if not self.model_controller(e, first, {}):
                same([l.kind for l in self.w.made[first:]], ["controller"], "launchers made by " + self.what)
                self.exits()
                return False
            first += 1
        made = self.w.made[first:]
        same([l.kind for l in made], ["engines"], "launchers made by " + self.what)
        before = dict(self.sets)
        self.model_engines(made[0], n, None, False, None if made[0].did("start done") else e, {})
        if had is None and made[0].did("start"):
            check(made[0].did("start")[0][0] > self.ctl.did("start done")[0][0], "%s: engines were started before the controller", self.what)
        if made[0].did("start"):
            check(time.monotonic() - t >= self.case["delay"], "%s: there was no delay", self.what)
        self.exits()
        return before != self.sets

    def name(self, i):
        if i is None or i == "nosuch":
            return i
        ids = list(self.sets)
        return ids[i % len(ids)] if ids else "nosuch"

    def op_stopset(self, style, i):
        sid = self.name(i)
        if sid == "nosuch":
            v, e = self.call(style, "stop_engines", sid)
            check(isinstance(e, KeyError), "stopping a set that isn't there: %r", e)
            self.untouched(self.what)
            return
        v, e = self.call(style, "stop_engines", sid)
        self.model_stop(list(self.sets) if sid is None else [sid], False, e)

    def op_stopctl(self, style):
        v, e = self.call(style, "stop_controller")
        self.model_stop([], True, e)

    def op_stop(self, style):
        v, e = self.call(style, "stop_cluster")
        self.model_stop(list(self.sets), True, e)

    def stopped(self, l, before_alive, what):
        """whether it is gone, after a stop"""
        ev = self.new(l)
        names = [x[1] for x in ev]
        if l.kind == "engines" or before_alive:
            same(names.count("stop"), 1, "times the %s was told to stop (%s)" % (l.kind, what))
        if l.spec["stop"] != "ok" and "stop" in names:
            self.ctx.nontrivial()
            check("stop failed" in names, "%s: the stop was not waited for: %r", what, names)
            return False
        if "stop" in names:
            check("stop done" in names, "%s: the stop was not waited for: %r", what, names)
            k = names.index("stop done")
        else:
            k = -1
        check(any(x[1] == "output" and x[2] for x in ev[k + 1:]), "%s: output was not retrieved after the %s stopped: %r", what, l.kind, ev)
        return True

    def model_stop(self, ids, ctl, e, alive=None):
        if len(ids) + bool(ctl and self.ctl) > 1:
            self.ctx.nontrivial()
        ok = True
        concerned = [self.sets[i] for i in ids] + ([self.ctl] if ctl and self.ctl else [])
        self.untouched(self.what, *concerned)
        for i in ids:
            if self.stopped(self.sets[i], True, self.what):
                del self.sets[i]
            else:
                ok = False
        if ctl and self.ctl:
            if self.stopped(self.ctl, not self.ctl_exited(), self.what):
                self.ctl = None
            else:
                ok = False
        check(ok == (e is None), "%s: %s, but: %r", self.what, "all stopped" if ok else "a stop failed", e)
        check(e is None or isinstance(e, Fail), "%s raised %r", self.what, e)

    def ctl_exited(self):
        return bool(self.ctl.did("exit"))

    def op_restart(self, style, i):
        sid = self.name(i)
        ids = list(self.sets) if sid is None else [sid]
        first = len(self.w.made)
        v, e = self.call(style, "restart_engines", sid)
        made = self.w.made[first:]
        if sid == "nosuch":
            check(isinstance(e, KeyError) and not made, "restarting a set that isn't there: %r", e)
            return
        if len(ids) > 1:
            self.ctx.nontrivial()
        failed = None
        for s in ids:
            old = self.sets[s]
            if failed:
                break
            if not self.stopped(old, True, self.what):
                failed = True
                break
            del self.sets[s]
            check(made, "%s: %r was not started again", self.what, s)
            l = made.pop(0)
            check(not l.did("start") or l.did("start")[0][0] > old.did("stop done")[-1][0], "%s: started again before it had stopped", self.what)
            # the model of a start with that number and id
            self.model_engines(l, old.n, s, False, None if l.did("start done") else e, {})
            if s not in self.sets:
                failed = True
        check(not made, "%s started %i more sets", self.what, len(made))
        check(bool(failed) == (e is not None), "%s: %r, failed: %r", self.what, e, failed)
        self.exits()

    def op_signal(self, style, sig, i):
        sid = self.name(i)
        v, e = self.call(style, "signal_engines", sig, sid)
        if sid == "nosuch":
            check(isinstance(e, KeyError), "signalling a set that isn't there: %r", e)
            return
        ids = list(self.sets) if sid is None else [sid]
        failed = False
        for s in ids:
            ev = self.new(self.sets[s])
            same([x[2] for x in ev if x[1] == "signal"], [sig], "signals that set %r got (%s)" % (s, self.what))
            f = any(x[1] == "signal failed" for x in ev)
            check(f or any(x[1] == "signal done" for x in ev), "%s: the signal was not waited for", self.what)
            failed = failed or f
        if failed:
            self.ctx.nontrivial()
        check(failed == (e is not None), "%s: %r, failed: %r", self.what, e, failed)

    def op_both(self, style, ops):
        """calls at the same time"""
        c = self.c
        first = len(self.w.made)
        taken = set()
        todo = []
        for op in ops:
            if op[0] == "engines":
                if op[2] is not None and (op[2] in taken or op[2] in self.sets):
                    continue
                taken.add(op[2])
                todo.append(("start_engines", (op[1], op[2])))
            elif self.ctl is None and not any(t[0] == "start_controller" for t in todo):
                # engines that start at the same time may or may not be given what it says
                if self.case["send"]:
                    continue
                todo.append(("start_controller", ()))
        if len(todo) < 2:
            return
        self.ctx.nontrivial()
        self.ctx.tag("concurrent")

        async def go():
            return await asyncio.gather(*[getattr(c, n)(*a) for n, a in todo], return_exceptions=True)

        got = asyncio.run(go())
        made = self.w.made[first:]
        for (n, a), r in zip(todo, got):
            e = r if isinstance(r, Exception) else None
            if n == "start_controller":
                l = [l for l in made if l.kind == "controller"]
                same(len(l), 1, "controllers that were made")
                self.started_controller(l[0], {})
                same(e is None, l[0].spec["start"] == "ok", "%s: the controller could start" % self.what)
                if e is None:
                    self.ctl = l[0]
        sets = [l for l in made if l.kind == "engines"]
        same(len(sets), len([t for t in todo if t[0] == "start_engines"]), "engine sets that were made")
        up = [l for l in sets if l.did("start done")]
        same(len({l.kw["engine_set_id"] for l in up} | set(self.sets)), len(up) + len(self.sets), "distinct ids of engine sets")
        k = 0
        for (n, a), r in zip(todo, got):
            if n == "start_engines":
                l = sets[k]
                k += 1
                e = r if isinstance(r, Exception) else None
                if l.did("start done"):
                    same(r, l.kw["engine_set_id"], "what start_engines returns")
                    self.sets[r] = l
                else:
                    check(isinstance(e, Fail), "%s: %r", self.what, r)
                if l.did("start"):
                    want = l.spec["count"] or (a[0] if a[0] is not None else self.case["n"])
                    same(l.did("start")[0][2], (os.cpu_count() if want is None else want,), "number of engines")
        self.exits()

    def op_exit(self, style, what, i, code):
        """a process ends on its own"""
        l = self.ctl if what == "controller" else self.sets.get(self.name(i))
        if l is None or not l.alive:
            return
        self.ctx.nontrivial()
        self.ctx.tag("exit")
        l.alive = False
        l.event("exit")
        l.notify_stop({"exit_code": code})
        self.exits()

    # -- clients ---------------------------------------------------------------
    def judge_connect(self, e, n, client, nclients, activate):
        """start_and_connect after the cluster was started"""
        if self.ctl.spec["info"] == "raise" or self.w.conn == "refused":
            self.ctx.nontrivial()
            check(isinstance(e, Fail), "%s: connecting failed, but: %r", self.what, e)
            return False
        new = self.w.clients[nclients:]
        same(len(new), 1, "clients that were made")
        cl = new[0]
        same(cl.info, self.ctl.infos[-1][1]["client"], "connection info of the client")
        same({k: cl.kw.get(k) for k in ("cluster", "profile_dir", "cluster_id")}, {"cluster": self.c, "profile_dir": self.profile, "cluster_id": self.case["cid"]}, "arguments of the client")
        if n is None:
            n = self.case["n"]
        if n is None:
            n = sum(l.n for l in self.sets.values())
        same([(x[0], x[2]) for x in cl.waits], [(n, 7)] if n else [], "engines that were waited for, and how long")
        if self.w.conn == "timeout" and n:
            self.ctx.nontrivial()
            check(isinstance(e, TimeoutError), "%s: engines did not come, but: %r", self.what, e)
            return False
        check(e is None and client is cl, "%s: %r, %r", self.what, e, client)
        if activate:
            same([k for k, v in cl.views], [slice(None)], "views that were made")
            v = cl.views[0][1]
            same((v.block, v.activate.call_count), (True, 1), "the view is activated and blocking")
        else:
            same(cl.views, [], "views that were made")
        return True

    def op_connect(self, style, n, activate, conn):
        self.w.conn = conn
        had, first, nc = self.ctl, len(self.w.made), len(self.w.clients)
        t = time.monotonic()
        v, e = self.call(style, "start_and_connect", n, activate)
        if self.model_cluster(had, first, n, e, t):
            if self.judge_connect(e, n, v, nc, activate) and v is not None:
                same(v.closed, 0, "times the client was closed")
        else:
            check(e is not None, "%s: the cluster was not started, but: %r", self.what, v)
        self.w.conn = "ok"
        self.exits()

    def op_with(self, style, how, conn, ops):
        """as a context manager"""
        self.w.conn = conn
        c = self.c
        had, first, nc = self.ctl, len(self.w.made), len(self.w.clients)
        t = time.monotonic()
        outer = list(self.w.made)
        entered = []
        boom = ZeroDivisionError("in the block")

        def body(client, style):
            entered.append(client)
            ok = self.model_cluster(had, first, None, None, t)
            check(ok, "%s: entered, though the cluster was not started", self.what)
            check(self.judge_connect(None, None, client, nc, False), "%s: entered, though connecting failed", self.what)
            self.w.conn = "ok"
            self.settled()
            return ok

        def inner():
            saved = self.what
            for op in ops:
                self.what = "%s in %s" % (op, saved)
                getattr(self, "op_" + op[0])("sync" if style == "sync" else "inside", *op[1:])
                self.settled()
            self.what = saved
            if how == "raise":
                raise boom

        async def awaited():
            async with c as client:
                body(client, style)
                if how == "raise":
                    raise boom

        async def inside():
            with c as client:
                body(client, style)
                if how == "raise":
                    raise boom

        e = None
        try:
            if style == "await":
                asyncio.run(awaited())
            elif style == "inside":
                asyncio.run(inside())
            else:
                with c as client:
                    body(client, style)
                    inner()
        except (Fail, RuntimeError, KeyError, TimeoutError, ZeroDivisionError) as e_:
            e = e_
        self.w.conn = "ok"
        if entered:
            same(entered[0].closed, 1, "times the client was closed")
            ids = list(self.sets)
            fails = any(l.spec["stop"] != "ok" for l in self.sets.values()) or self.ctl is not None and self.ctl.spec["stop"] != "ok" and not self.ctl_exited()
            if how == "raise" and not fails:
                check(e is boom, "%s: the error of the block became %r", self.what, e)
                e = None
            elif not fails:
                check(e is None, "%s raised %r", self.what, e)
            self.model_stop(ids, True, e)
        else:
            self.ctx.nontrivial()
            check(e is not None, "%s: not entered", self.what)
            for cl in self.w.clients[nc:]:
                same(cl.closed, 1, "times the client was closed")
            # nothing stays behind that can be stopped
            self.sets = {k: l for k, l in c.engines.items()}
            self.ctl = c.controller
            for l in self.w.made:
                if l.alive:
                    check(l.did("stop failed"), "%s failed, and a %s is left running", self.what, l.kind)
            self.exits()

    # -- the end -----------------------------------------------------------------
    def op_keep(self, style, keep):
        self.c.shutdown_atexit = not keep
        self.keep = keep

    def op_atexit(self, style):
        """the process ends"""
        calls = [a.args[0] for a in self.reg.call_args_list]
        running = bool(self.ctl or self.sets)
        import contextlib
        import io

        with contextlib.redirect_stderr(io.StringIO()):
            for f in {id(f): f for f in calls}.values():
                f()
        if running and not self.keep and self.watched:
            ids = list(self.sets)
            self.model_stop_quiet(ids)
        else:
            self.untouched(self.what)

    def model_stop_quiet(self, ids):
        ok = True
        for i in ids:
            if self.stopped(self.sets[i], True, self.what):
                del self.sets[i]
        if self.ctl:
            if self.stopped(self.ctl, not self.ctl_exited(), self.what):
                self.ctl = None


# ---------------------------------------------------------------------------
# the server extension

def server_strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    k = st.integers(0, 6)
    profile = st.sampled_from([None, "", "default", "p2", "p \u00fc?#%", "PATH", "p2"])
    cid = st.sampled_from([None, "", "c", "c d", "\u00fc%2F?", "p2:c"])
    n = st.sampled_from([None, None, 0, 2, 3])
    op = weighted(
        (4, st.tuples(st.just("create"), profile, cid, n, st.sampled_from(["all", "given"]))), (4, st.tuples(st.just("start"), k, st.one_of(n, st.sampled_from(["no body", "x", 1.5])))),
        (3, st.tuples(st.just("stop"), k)), (2, st.tuples(st.just("get"), k)), (4, st.just(("list",))), (2, st.tuples(st.just("exit"), k, st.sampled_from(["controller", "set", "all"]))),
        (1, st.tuples(st.just("stranger"), st.sampled_from(["create", "start", "stop", "get", "list"]), k)), (1, st.tuples(st.just("bad"), st.sampled_from(["json", "list", "key", "n", "args"]), k)),
        (1, st.tuples(st.just("unknown"), st.sampled_from(["start", "stop", "get"]))), (1, st.tuples(st.just("profile"), st.sampled_from(["p3", "x y"]))))
    return st.fixed_dictionaries({"launchers": st.lists(launcher_strategy(), min_size=1, max_size=5), "base": st.sampled_from(["/", "/b/"]), "n": st.sampled_from([None, 2]),
                                  "profiles": st.lists(st.sampled_from(["default", "p2", "p1"]), max_size=2, unique=True), "ops": st.lists(op, min_size=1, max_size=12)})


_apps = {}
TOKEN = "tok"


def server_app(base):
    """a Jupyter server with the extension; it does not listen"""
    if base not in _apps:
        import warnings

        home = tempfile.mkdtemp(prefix="c36-home-")
        env = {"HOME": home, "JUPYTER_CONFIG_DIR": home + "/c", "JUPYTER_DATA_DIR": home + "/d", "JUPYTER_RUNTIME_DIR": home + "/r", "IPYTHONDIR": home + "/i", "JUPYTER_NO_CONFIG": "1"}
        with mock.patch.dict(os.environ, env), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            from jupyter_server.serverapp import ServerApp

            import ipyparallel

            class App(ServerApp):
                def init_signal(self):
                    pass

            App.__module__ = "jupyter_server.c36"
            app = App(log_level=50, open_browser=False, token=TOKEN, allow_root=True, port=0, root_dir=home, base_url=base)
            app.initialize(argv=[], new_httpserver=False, find_extensions=False)
            app.log.setLevel(60)
            logging.getLogger("tornado.access").setLevel(60)
            logging.getLogger("tornado.application").setLevel(60)
            logging.getLogger("tornado.general").setLevel(60)
            ipyparallel._load_jupyter_server_extension(app)
        _apps[base] = app
    return _apps[base]


class Entry:
    """a cluster as the server should know it"""

    def __init__(self, key, profile, profile_dir, cid, n):
        self.key, self.profile, self.profile_dir, self.cid, self.n = key, profile, profile_dir, cid, n
        self.ctl = None
        self.sets = []


def server_run(case, ctx):
    box = os.path.realpath(tempfile.mkdtemp(prefix="c36-"))
    here = os.getcwd()
    try:
        os.chdir(box)
        with mock.patch("atexit.register"), mock.patch.dict(os.environ, {"IPYTHONDIR": os.path.join(box, "ipy"), "HOME": box}):
            asyncio.run(Server(case, ctx, box).go())
    finally:
        os.chdir(here)
        shutil.rmtree(box)


class Server:
    def __init__(self, case, ctx, box):
        self.case, self.ctx, self.box = case, ctx, box
        self.w = World(case, ctx, box)
        self.entries = {}

    async def go(self):
        from tornado.httpclient import AsyncHTTPClient
        from tornado.httpserver import HTTPServer
        from tornado.testing import bind_unused_port
        from traitlets.config import Config

        from ipyparallel.cluster import ClusterManager
        from ipyparallel.cluster import cluster as mod

        mod._atexit_clusters.clear()
        app = server_app(self.case["base"])
        self.ipy = os.path.join(self.box, "ipy")
        os.mkdir(self.ipy)
        for p in self.case["profiles"]:
            self.make_profile(p)
        Controller, _, Engines = classes(self.w)
        cfg = Config()
        cfg.Cluster.controller_launcher_class = Controller
        cfg.Cluster.engine_launcher_class = Engines
        cfg.Cluster.load_profile = False
        cfg.Cluster.delay = 0
        cfg.Cluster.n = self.case["n"]
        self.m = ClusterManager(config=cfg, log=self.w.log)
        app.web_app.settings["cluster_manager"] = self.m
        sock, port = bind_unused_port()
        server = HTTPServer(app.web_app)
        server.add_sockets([sock])
        self.client = AsyncHTTPClient(force_instance=True)
        self.url = "http://127.0.0.1:%i%sipyparallel/clusters" % (port, self.case["base"])
        try:
            for op in self.case["ops"]:
                self.what = repr(op)
                self.told = {id(l): len(l.events) for l in self.w.made}
                await getattr(self, "op_" + op[0])(*op[1:])
                await self.settled()
        finally:
            server.stop()
            await server.close_all_connections()
            self.client.close()

    def make_profile(self, p):
        d = os.path.join(self.ipy, "profile_" + p)
        if not os.path.isdir(d):
            os.mkdir(d)

    async def ask(self, method, path="", body=None, token=True):
        """(status, parsed body)"""
        h = {"Authorization": "token " + TOKEN} if token else {}
        if body is not None and not isinstance(body, str):
            body = json.dumps(body)
        r = await self.client.fetch(self.url + path, method=method, body=body if method == "POST" else None, headers=h, raise_error=False, allow_nonstandard_methods=True, follow_redirects=False)
        text = r.body.decode()
        if r.code == 200:
            return r.code, json.loads(text)
        return r.code, text

    def pick(self, k):
        keys = list(self.entries)
        return self.entries[keys[k % len(keys)]] if keys else None

    def quoted(self, e):
        from urllib.parse import quote

        return "/" + quote(e.key, safe="")

    def running(self, e):
        return bool(e.ctl and e.ctl.alive or any(l.alive for l in e.sets))

    def model(self, e, d):
        """the model of a cluster as it is shown"""
        what = "cluster %r as shown by %s" % (e.key, self.what)
        same(d["id"], e.key, "id of " + what)
        same({k: d["cluster"].get(k) for k in ("cluster_id", "profile", "profile_dir", "n")}, {"cluster_id": e.cid, "profile": e.profile, "profile_dir": e.profile_dir, "n": e.n}, what)
        same(d["cluster_file"], os.path.join(e.profile_dir, "security", "cluster-%s.json" % e.cid), "file of " + what)
        same(bool(d.get("controller")), bool(e.ctl and e.ctl.alive), "controller of " + what)
        sets = [l for l in e.sets if l.alive]
        same(sorted(d["engines"]["sets"]), sorted(l.kw["engine_set_id"] for l in sets), "engine sets of " + what)
        for l in sets:
            same(d["engines"]["sets"][l.kw["engine_set_id"]]["n"], l.n, "engines in " + what)
        same(d["engines"]["n"], sum(l.n for l in sets), "number of engines of " + what)

    async def settled(self):
        same(sorted(self.m.clusters), sorted(self.entries), "clusters after %s" % self.what)
        known = [l for e in self.entries.values() for l in [e.ctl] + e.sets if l is not None]
        for l in self.w.made:
            if l.alive:
                check(l in known, "after %s a running %s belongs to no cluster", self.what, l.kind)

    def untouched(self, but=()):
        for l in self.w.made:
            if l not in but:
                got = l.events[self.told.get(id(l), 0):]
                check(not got, "%s: a %s it does not concern was told %r", self.what, l.kind, got)

    def resolve(self, profile, cid):
        """(profile, profile dir, cluster id or None) as the server understands them"""
        if profile in (None, ""):
            name = "default"
        elif profile == "PATH":
            return os.path.join(self.box, "elsewhere"), os.path.join(self.box, "elsewhere"), None if cid in (None, "") else cid
        else:
            name = profile
        d = os.path.join(self.ipy, "profile_" + name)
        if cid in (None, ""):
            cid = "" if profile not in (None, "") and name + ":" not in self.entries else None
        return name, d, cid

    async def op_create(self, profile, cid, n, style):
        body = {"profile": os.path.join(self.box, "elsewhere") if profile == "PATH" else profile, "cluster_id": cid, "n": n}
        if style == "given":
            body = {k: v for k, v in body.items() if v is not None}
        name, d, cid = self.resolve(profile, cid)
        code, got = await self.ask("POST", body=body)
        self.untouched()
        if cid is not None and "%s:%s" % (name, cid) in self.entries:
            check(code >= 400, "%s: a cluster that exists was created: %r", self.what, got)
            self.ctx.tag("exists")
            return
        same(code, 200, "status of %s (%s)" % (self.what, got if code != 200 else ""))
        if cid is None:
            cid = got["cluster"]["cluster_id"]
            check(cid, "%s: no id was made", self.what)
        key = "%s:%s" % (name, cid)
        check(key not in self.entries, "%s: %r is taken", self.what, key)
        e = self.entries[key] = Entry(key, name, d, cid, n if n is not None else self.case["n"])
        self.model(e, got)

    async def op_start(self, k, n):
        e = self.pick(k)
        if e is None:
            return
        body = None if n == "no body" else {} if n is None else {"n": n}
        first = len(self.w.made)
        had = e.ctl
        code, got = await self.ask("POST", self.quoted(e), body="" if body is None else body)
        made = self.w.made[first:]
        if isinstance(n, (str, float)) and n != "no body":
            same(code, 400, "status of %s" % self.what)
            check(not made, "%s: something was started", self.what)
            return
        self.untouched([had] + made)
        failed = False
        if had is None:
            check(made and made[0].kind == "controller", "%s: no controller was started", self.what)
            l = made.pop(0)
            same({k: l.kw[k] for k in ("profile_dir", "cluster_id")}, {"profile_dir": e.profile_dir, "cluster_id": e.cid}, "settings of the controller")
            failed = not l.alive
            if not failed:
                e.ctl = l
        if not failed:
            same([l.kind for l in made], ["engines"], "launchers made by " + self.what)
            l = made.pop(0)
            same({k: l.kw[k] for k in ("profile_dir", "cluster_id")}, {"profile_dir": e.profile_dir, "cluster_id": e.cid}, "settings of the engines")
            failed = not l.alive
            if l.did("start"):
                want = l.spec["count"] or (n if isinstance(n, int) else e.n)
                same(l.did("start")[0][2], (os.cpu_count() if want is None else want,), "number of engines")
            if not failed:
                e.sets.append(l)
        check(not made, "%s made more: %r", self.what, made)
        if failed:
            self.ctx.nontrivial()
            check(code >= 500, "%s: status %i, though it failed: %r", self.what, code, got)
            return
        same(code, 200, "status of %s (%s)" % (self.what, got if code != 200 else ""))
        self.model(e, got)

    async def op_stop(self, k):
        e = self.pick(k)
        if e is None:
            return
        mine = [l for l in [e.ctl] + e.sets if l is not None]
        code, got = await self.ask("DELETE", self.quoted(e))
        self.untouched(mine)
        left = [l for l in mine if l.alive]
        for l in left:
            check(l.did("stop"), "%s: a %s was not told to stop", self.what, l.kind)
        bad = [l for l in mine if any(x[1] == "stop failed" for x in l.events[self.told[id(l)]:])]
        if bad:
            self.ctx.nontrivial()
            check(code >= 500, "%s: status %i, though something could not be stopped", self.what, code)
            check(all(l in bad for l in left), "%s: something was not stopped, because something else could not be", self.what)
            if e.ctl not in bad:
                e.ctl = None
            e.sets = [l for l in e.sets if l in bad]
            return
        if mine:
            self.ctx.nontrivial()
        check(not left, "%s: left running: %r", self.what, left)
        same(code, 204, "status of %s (%s)" % (self.what, got))
        del self.entries[e.key]
        check(not os.path.exists(os.path.join(e.profile_dir, "security", "cluster-%s.json" % e.cid)), "%s: the cluster file is still there", self.what)

    async def op_get(self, k):
        e = self.pick(k)
        if e is None:
            return
        code, got = await self.ask("GET", self.quoted(e))
        self.untouched()
        same(code, 200, "status of %s (%s)" % (self.what, got if code != 200 else ""))
        self.model(e, got)

    async def op_list(self):
        code, got = await self.ask("GET")
        self.untouched()
        same(code, 200, "status of %s (%s)" % (self.what, got if code != 200 else ""))
        # what has stopped by itself is forgotten
        for key, e in list(self.entries.items()):
            if e.ctl is not None and not self.running(e):
                del self.entries[key]
                self.ctx.tag("forgotten")
        for d in os.listdir(self.ipy):
            if d.startswith("profile_"):
                full = os.path.join(self.ipy, d)
                sec = os.path.join(full, "security")
                key = d[len("profile_"):] + ":"
                if key not in self.entries and not (os.path.isdir(sec) and any(f.startswith("cluster-") for f in os.listdir(sec))):
                    self.entries[key] = Entry(key, key[:-1], full, "", self.case["n"])
        want = sorted(self.entries.values(), key=lambda e: (not (e.ctl and e.ctl.alive), e.profile != "default", e.cid != "", e.profile, e.cid))
        same([d["id"] for d in got], [e.key for e in want], "clusters listed by %s" % self.what)
        for d, e in zip(got, want):
            self.model(e, d)
        if len(got) > 1:
            self.ctx.nontrivial()

    async def op_exit(self, k, what):
        e = self.pick(k)
        if e is None:
            return
        for l in ([e.ctl] if what != "set" else []) + (e.sets if what != "controller" else []):
            if l is not None and l.alive:
                self.ctx.nontrivial()
                l.alive = False
                l.event("exit")
                l.notify_stop({"exit_code": 1})

    async def op_stranger(self, what, k):
        """without a token"""
        e = self.pick(k)
        path = "/x" if e is None else self.quoted(e)
        method, path, body = {"create": ("POST", "", {}), "start": ("POST", path, {}), "stop": ("DELETE", path, None), "get": ("GET", path, None), "list": ("GET", "", None)}[what]
        code, got = await self.ask(method, path, body, token=False)
        check(code in (302, 401, 403), "%s: a request without a token got %i: %r", self.what, code, got)
        check(len(self.w.made) == len(self.told), "%s: a request without a token started something", self.what)
        self.untouched()

    async def op_bad(self, what, k):
        e = self.pick(k)
        body = {"json": "{not", "list": [1], "key": {"nothing": 1}, "n": {"n": "many"}, "args": {"controller_args": 3}}[what]
        path = "" if what in ("key", "n", "args", "list") or e is None else self.quoted(e)
        code, got = await self.ask("POST", path, body)
        if what == "key":
            # what a Cluster does not know is ignored, as for any configurable
            if code == 200:
                d = got["cluster"]
                self.entries[got["id"]] = Entry(got["id"], d["profile"], d["profile_dir"], d["cluster_id"], d["n"])
                return
        check(code >= 400, "%s got %i: %r", self.what, code, got)
        check(len(self.w.made) == len(self.told), "%s started something", self.what)
        self.untouched()

    async def op_unknown(self, what):
        code, got = await self.ask({"start": "POST", "stop": "DELETE", "get": "GET"}[what], "/no%20such:cluster", {} if what == "start" else None)
        same(code, 404, "status of %s" % self.what)
        check(len(self.w.made) == len(self.told), "%s started something", self.what)
        self.untouched()

    async def op_profile(self, p):
        """somebody makes a profile"""
        self.make_profile(p)


SUBS = [
    Sub("cluster", strategy, run, quick=3500, thorough=100000, weight=3),
    Sub("server", server_strategy, server_run, quick=1200, thorough=30000, weight=2),
]
