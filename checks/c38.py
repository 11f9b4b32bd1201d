"""C38: the ipcluster command, on launchers that record what they are told, in virtual time."""
import asyncio
import contextlib
import io
import json
import logging
import os
import selectors
import shutil
import signal
import sys
import tempfile
import types
import warnings
from unittest import mock

from vlib import entry, guard
from vlib.runner import HarnessError, Skip, Sub, Violation, check, same

PROPERTY = "C38"
RULE = ("cases: histories of ipcluster commands (start, engines, stop, list, clean) with options from the command line, configuration files and the environment, for several profiles and cluster ids, "
        "on launchers whose processes may fail to start or to stop, and exit on their own, and with signals at any step of a command. Non-trivial: two clusters were known, something failed, exited on its own, or was interrupted")
ASSUMPTIONS = ["a launcher's stop that fails has not stopped it", "of several clusters to stop, none may be stopped if one does not exist"]
SHARDS = 6
QUICK_S = 30
THOROUGH_S = 300

CIDS = ["", "a", "b-1", "\u00fc x"]
HORIZON = 2.0       # timers due within it are awaited before the next step


class Fail(Exception):
    pass


class Hang(BaseException):
    pass


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    cid = st.sampled_from(CIDS)
    profile = st.sampled_from([0, 0, 0, 1, 2])
    n = st.sampled_from([None, 0, 1, 3])
    launch = st.fixed_dictionaries({
        "start": st.sampled_from(["ok"] * 20 + ["raise", "late"]), "stop": st.sampled_from(["ok"] * 9 + ["raise", "late"]), "hops": st.sampled_from([0, 1, 3, 12]), "async": st.booleans()})
    event = st.one_of(
        st.tuples(st.just("sig"), st.sampled_from(["SIGINT", "SIGTERM"])), st.tuples(st.just("sig"), st.sampled_from(["SIGUSR1", "SIGUSR2"])), st.tuples(st.just("wait"), st.sampled_from([3, 10, 40])),
        st.tuples(st.just("exit"), st.sampled_from(["controller", "engines"]), st.integers(0, 1)))
    script = st.lists(st.tuples(st.sampled_from([None, None, None, 0, 1, 2, 4]), event), max_size=4)
    # (a lot happens once it has been running for some time)
    late = st.tuples(st.sampled_from([3, 10, 40]), script).map(lambda t: [(None, ("wait", t[0]))] + t[1])
    script = st.one_of(script, late, late.map(lambda x: x[:1] + [(None, ("exit", "engines", 0))] + x[1:]))
    opts = st.fixed_dictionaries({
        "n": n, "how": st.sampled_from(["alias", "long", "deprecated", "file", "both", "old"]), "ip": st.sampled_from([None, None, "*", "::1"]), "location": st.sampled_from([None, None, "h"]),
        "delay": st.sampled_from([None, 0, 0.5, 1.5, 5]), "daemonize": st.booleans(), "early": st.sampled_from([None, None, 0, 20]), "extra": st.lists(st.sampled_from(["--x=1", "--Hub.y", "z z"]), max_size=2)})
    op = weighted(
        (8, st.tuples(st.just("start"), profile, cid, opts, script)), (3, st.tuples(st.just("engines"), profile, cid, opts, script)),
        (4, st.tuples(st.just("several"), profile, st.lists(cid, min_size=2, max_size=3, unique=True), opts)),
        (5, st.tuples(st.just("stop"), profile, st.one_of(st.just("all"), st.lists(cid, min_size=1, max_size=3, unique=True), st.just("default")), cid)), (5, st.tuples(st.just("stop"), st.just(9), st.sampled_from(["all", "known", "default"]), cid)),
        (5, st.tuples(st.just("list"), st.sampled_from(["text", "json", None]), st.one_of(st.none(), profile))),
        (3, st.tuples(st.just("clean"), st.one_of(st.none(), profile), st.booleans(), st.booleans())),
        (3, st.tuples(st.just("die"), st.integers(0, 5))), (1, st.tuples(st.just("corrupt"), profile, cid, st.sampled_from(["", "{", "[]", "{}"]))))
    return st.fixed_dictionaries({"where": st.sampled_from(["name", "dir", "env"]), "idenv": st.booleans(), "bad": st.sampled_from([[], [], ["0"], ["zz"], ["0", "A", "bb", "zz"]]), "launch": st.lists(launch, min_size=1, max_size=6), "ops": st.lists(op, min_size=1, max_size=10)})


class Proc:
    def __init__(self, w, kind, l, n):
        self.kind, self.n = kind, n
        self.profile, self.cid = l.profile_dir, l.cluster_id
        self.env = dict(l.get_env())
        self.args = list(getattr(l, "controller_args", None) or [])
        self.alive = True
        self.signals, self.stops = [], 0
        self.launchers = []
        self.spec = l.spec
        self.sid = getattr(l, "engine_set_id", None)
        self.pid = len(w.procs) + 1
        self.since = w.now()
        w.procs.append(self)

    def die(self, code):
        self.alive = False
        for l in self.launchers:
            l.notify_stop({"exit_code": code})


class World:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.procs = []
        self.made = 0
        self.driver = None
        self.failed = []       # what failed in the command that is running

    def now(self):
        return self.driver.clock if self.driver else 0


W = None          # the world of the stubs
STUBS = "verif_stubs_c38"


def stubs():
    if STUBS in sys.modules:
        return sys.modules[STUBS]
    from traitlets import Integer

    from ipyparallel.cluster import launcher

    mod = types.ModuleType(STUBS)

    def make(base, kind_):
        class Stub(base):
            kind = kind_
            pid = Integer(0).tag(to_dict=True)
            proc = None

            def __init__(self, **kw):
                self.spec = W.case["launch"][W.made % len(W.case["launch"])]
                W.made += 1
                super().__init__(**kw)

            def find_args(self):
                return ["stub"]

            @classmethod
            def from_dict(cls, d, **kw):
                W.made -= 1
                self = super().from_dict(d, **kw)
                self.proc = W.procs[self.pid - 1]
                if not self.proc.alive:
                    raise launcher.NotRunning("%s is gone" % self.pid)
                self.proc.launchers.append(self)
                self.spec = self.proc.spec
                return self

            def act(self, name, finish):
                how = self.spec[name]
                if how == "raise" or (how == "late" and not self.spec["async"]):
                    W.failed.append(name)
                    raise Fail(name)
                if not self.spec["async"]:
                    finish()
                    return None

                async def go():
                    for _ in range(self.spec["hops"]):
                        await asyncio.sleep(0)
                    if how == "late":
                        W.failed.append(name)
                        raise Fail(name)
                    finish()
                return go()

            def start(self, *n):
                def spawn():
                    self.n = n[0] if n else 0
                    self.proc = Proc(W, self.kind, self, n[0] if n else None)
                    self.pid = self.proc.pid
                    self.proc.launchers.append(self)
                    self.notify_start({"pid": self.pid})
                if self.spec["start"] != "ok":
                    return self.act("start", None)
                # (as processes do, it runs from now on)
                spawn()
                return self.act("start", lambda: None)

            def stop(self):
                self.proc.stops += 1

                def done():
                    if self.proc.alive:
                        self.proc.die(0)
                return self.act("stop", done)

            def signal(self, sig):
                if self.proc.alive:
                    self.proc.signals.append(sig)

            def get_output(self, remove=False):
                return ""

            def poll(self):
                return None if self.proc.alive else 0

        return Stub

    class StubController(make(launcher.ControllerLauncher, "controller")):
        n = Integer(0)

        async def get_connection_info(self, timeout=None):
            return {"client": {"c": self.pid}, "engine": {"e": self.pid}}

    class StubEngines(make(launcher.EngineLauncher, "engines")):
        n = Integer(0).tag(to_dict=True)
        engine_set_id = __import__("traitlets").Unicode("")

    for c in (StubController, StubEngines):
        c.__module__ = STUBS
        c.__qualname__ = c.__name__
        setattr(mod, c.__name__, c)
    sys.modules[STUBS] = mod
    return mod


class Select(selectors.DefaultSelector):
    driver = None

    def select(self, timeout=None):
        return super().select(self.driver.idle(timeout))


class Loop(asyncio.SelectorEventLoop):
    def __init__(self, driver):
        s = Select()
        s.driver = driver
        self.driver = driver
        super().__init__(s)

    def time(self):
        return self.driver.clock


class Driver:
    """runs the script while the loop of a command has nothing (else) to do"""

    def __init__(self, run, script):
        self.run = run
        self.clock = 1000.0
        self.script = list(script)
        self.turns = 0
        self.final = False
        self.cause = None        # what the command has to end for
        self.after = 0           # times it was idle since
        self.hung = None

    def hang(self, what):
        self.hung = Hang(what)
        raise self.hung

    def idle(self, timeout):
        self.turns += 1
        if self.turns > 5000:
            self.hang("does not come to rest")
        if self.script and self.script[0][0] is not None and self.turns > self.script[0][0]:
            self.step(False)
            return 0
        if timeout is not None and timeout <= 0:
            return 0
        if timeout is not None and timeout <= HORIZON:
            self.clock += timeout + 1e-6
            return 0
        # nothing happens until something is done
        self.run.rest()
        if self.cause:
            if timeout is not None and timeout <= 6 and self.after < 10:
                self.clock += timeout + 1e-6
                self.after += 1
                return 0
            self.after += 9
            if self.after > 20:
                self.hang("still there after " + self.cause)
            return 0
        if self.script:
            self.step(True)
        elif not self.final:
            self.final = True
            self.script.append((None, ("sig", "SIGINT")))
            self.step(True)
        else:
            self.hang("still there after everything")
        return 0

    def step(self, calm):
        op = self.script.pop(0)[1]
        self.turns = 0
        if op[0] == "sig":
            self.run.signalled(op[1], calm)
            signal.raise_signal(getattr(signal, op[1]))
        elif op[0] == "wait":
            self.clock += op[1]
        else:
            for p in self.run.mine():
                if p.alive and p.kind == op[1]:
                    self.run.exits(p, op[2], calm)
                    p.die(op[2])
                    break


class Command:
    """one run of `ipcluster start` or `ipcluster engines`"""

    def __init__(self, h, name, profile, cid, opts):
        self.h, self.w, self.name, self.profile, self.cid, self.opts = h, h.w, name, profile, cid, opts
        self.first = len(self.w.procs)
        self.relayed = {}        # process -> signals it should have got
        self.late = False
        self.vague = False       # whether signals came while it did something else

    def mine(self):
        return self.w.procs[self.first:]

    def rest(self):
        d = self.w.driver
        if self.w.failed and not d.cause and "start" in self.w.failed:
            d.cause = "the start failed"
        for p in self.mine():
            want = self.relayed.get(p, [])
            if not self.vague:
                same(p.signals, want, "signals passed on to the %s" % p.kind)
            elif p.kind == "controller":
                same(p.signals, [], "signals passed on to the controller")

    def early(self):
        e = self.opts["early"]
        return 30 if e is None else e

    def signalled(self, name, calm):
        d = self.w.driver
        num = int(getattr(signal, name))
        if self.name == "start" and name in ("SIGINT", "SIGTERM"):
            if self.opts["daemonize"] and len(self.mine()) > 1 and not d.cause:
                # it may be done, or not
                self.late = True
            d.cause = d.cause or name
            return
        if not calm:
            self.vague = True
        for p in self.mine():
            if p.kind == "engines" and p.alive:
                self.relayed.setdefault(p, []).append(num)
        if self.name == "engines" and name in ("SIGINT", "SIGTERM") and d.final:
            # they exit, as engines do
            for p in self.mine():
                if p.kind == "engines" and p.alive:
                    asyncio.get_event_loop().call_later(0.5, lambda p=p: p.alive and (self.exits(p, 0, True), p.die(0)))
            if not any(p.alive for p in self.mine()):
                d.cause = d.cause or name

    def exits(self, p, code, calm):
        d = self.w.driver
        self.w.ctx.nontrivial()
        if not calm:
            # a signal may be on its way
            self.vague = True
        if self.opts["daemonize"]:
            # (it does not watch them)
            self.late = True
        if p.kind == "controller":
            d.cause = d.cause or "the controller exited"
        elif self.name == "engines":
            d.cause = d.cause or "the engines exited"
        elif self.early() and d.clock - p.since < self.early():
            d.cause = d.cause or "the engines exited early"
        elif self.early() and d.clock - p.since < self.early() + HORIZON + 1:
            d.cause = None
            raise Skip()


class History:
    def __init__(self, case, ctx, box):
        self.case, self.ctx, self.box = case, ctx, box
        self.w = World(case, ctx)
        self.home = os.path.join(box, "ipython")
        self.profiles = [os.path.join(self.home, "profile_default"), os.path.join(self.home, "profile_b c"), os.path.join(box, "elsewhere")]
        for p in self.profiles:
            for d in ("security", "log", "pid", "startup"):
                os.makedirs(os.path.join(p, d))
        os.makedirs(os.path.join(self.home, "profiles"))
        # files that cannot be loaded
        for bad in case.get("bad", []):
            for i in range(3):
                self.write(self.file(i, bad), "{")
        self.saved = {}        # (profile, cid) -> {"procs": [...]} or "corrupt", what its file is about
        self.keepers = {}
        for i, p in enumerate(self.profiles):
            f = os.path.join(p, "security", "other-%i.json" % i)
            self.write(f, "{}")
            self.keepers[f] = "{}"

    def write(self, f, s):
        with open(f, "w") as fo:
            fo.write(s)

    def file(self, p, cid):
        return os.path.join(self.profiles[p], "security", "cluster-%s.json" % cid)

    def where(self, i, env):
        """options for a profile"""
        how = self.case["where"]
        if i == 2:
            if how == "env":
                env["IPP_PROFILE_DIR"] = self.profiles[2]
                return []
            return ["--profile-dir=" + self.profiles[2]]
        if how == "dir":
            return ["--profile-dir=" + self.profiles[i]]
        return ["--profile=b c"] if i else []

    def ids(self, cid, env):
        if self.case["idenv"]:
            env["IPP_CLUSTER_ID"] = cid
            return []
        return ["--cluster-id=" + cid] if cid else []

    def main(self, argv, env, script=None, command=None):
        """(exit code or exception, stdout)"""
        from ipyparallel.cluster import app as mod
        from ipyparallel.cluster import cluster as clusters

        w = self.w
        w.failed = []
        for p in w.procs:
            p.launchers = []
        d = w.driver = Driver(command, script) if command else None
        if d:
            command.driver = d
        loop = Loop(d) if d else asyncio.new_event_loop()
        out = io.StringIO()
        stack = contextlib.ExitStack()
        old = {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2)}
        path, hook, here = list(sys.path), sys.excepthook, os.getcwd()
        res = None
        with stack:
            stack.enter_context(mock.patch.dict(os.environ, dict({"IPYTHONDIR": self.home}, **env)))
            stack.enter_context(mock.patch("atexit.register"))
            stack.enter_context(contextlib.redirect_stdout(out))
            self.err = stack.enter_context(contextlib.redirect_stderr(io.StringIO()))
            stack.enter_context(warnings.catch_warnings())
            warnings.simplefilter("ignore")
            asyncio.set_event_loop(loop)
            apps = [mod.IPCluster] + [c for c, _ in mod.IPCluster.subcommands.values()]
            from IPython.core.profiledir import ProfileDir

            try:
                for s in old:
                    if s not in (signal.SIGINT,):
                        signal.signal(s, signal.SIG_DFL if s != signal.SIGUSR1 else signal.SIG_IGN)
                for c in apps:
                    c.clear_instance()
                mod.IPCluster.launch_instance(argv=argv)
            except SystemExit as e:
                res = e.code
            except Hang as e:
                res = e
            except (Violation, HarnessError, Skip):
                raise
            except Exception as e:
                if os.environ.get("VERIF_TB"):
                    import traceback
                    traceback.print_exc(file=sys.__stderr__)
                res = e
            finally:
                # the process ends
                if not (d and d.hung) and sys.exc_info()[0] is None:
                    clusters._atexit_cleanup_clusters()
                for c in list(clusters._atexit_clusters):
                    c.shutdown_atexit = False
                clusters._atexit_clusters.clear()
                for c in apps:
                    c.clear_instance()
                for s, f in old.items():
                    signal.signal(s, f)
                sys.path[:], sys.excepthook = path, hook
                os.chdir(here)
                w.driver = None
                asyncio.set_event_loop(None)
                for t in asyncio.all_tasks(loop):
                    t._log_destroy_pending = False
                loop.close()
                for name in list(logging.root.manager.loggerDict):
                    if name.startswith("traitlets") or name.startswith("IP"):
                        logging.getLogger(name).handlers[:] = []
        if d and d.hung:
            res = d.hung
        return res, out.getvalue()

    # -- model -----------------------------------------------------------------
    def alive(self, key):
        """processes the cluster file of a cluster is about, which are running"""
        s = self.saved.get(key)
        return [p for p in s if p.alive] if isinstance(s, list) else []

    def go(self):
        for op in self.case["ops"]:
            self.what = "%r" % (op,)
            getattr(self, "op_" + op[0])(*op[1:])
            if len([k for k in self.saved if self.alive(k)]) > 1:
                self.ctx.nontrivial()
            for f, s in self.keepers.items():
                check(os.path.exists(f), "%s removed %s", self.what, os.path.relpath(f, self.box))
                with open(f) as fo:
                    same(fo.read(), s, "%s: contents of %s" % (self.what, os.path.relpath(f, self.box)))
            for p in range(3):
                for cid in CIDS:
                    key = (p, cid)
                    if self.alive(key):
                        check(os.path.exists(self.file(*key)), "after %s there is no file of the running cluster %r", self.what, key)
                        with open(self.file(*key)) as f:
                            d = json.load(f)
                        got = sorted(x["pid"] for x in ([d["controller"]["state"]] if d.get("controller") else []) + list(d["engines"]["sets"].values()) if self.w.procs[x["pid"] - 1].alive)
                        same(got, sorted(x.pid for x in self.alive(key)), "%s: what the file of the cluster %r tells" % (self.what, key))
                    elif key not in self.saved:
                        check(not os.path.exists(self.file(*key)), "after %s there is a file of a cluster %r that isn't there", self.what, key)

    def snapshot(self):
        return [(p.alive, p.stops, list(p.signals)) for p in self.w.procs]

    def unchanged(self, before, but=()):
        for p, b in zip(self.w.procs, before):
            if p not in but:
                same((p.alive, p.stops, p.signals), b, "%s: state of a process (%s of %s, %r) it's not about" % (self.what, p.kind, os.path.basename(p.profile), p.cid))

    def settings(self, name, p, opts, argv):
        """how it's told; and what is to be expected"""
        cls = {"start": "IPClusterStart", "engines": "IPClusterEngines"}[name]
        conf = []
        n, how = opts["n"], opts["how"]
        eng, ctl = STUBS + ".StubEngines", STUBS + ".StubController"
        if how in ("file", "both", "old"):
            if n is not None:
                conf.append("c.Cluster.n = %r" % (n + 5 if how == "both" else n))
            conf.append("c.Cluster.engine_launcher_class = %r" % eng)
            conf.append("c.Cluster.controller_launcher_class = %r" % ctl)
        if how != "file" and n is not None:
            argv.append({"alias": "--n=%i", "both": "-n=%i", "long": "--Cluster.n=%i", "deprecated": "--" + cls + ".n=%i", "old": "--" + cls + ".n=%i"}[how] % (n + 5 if how == "old" else n))
        if how == "alias":
            argv.append("--engines=" + eng)
            if name == "start":
                argv.append("--controller=" + ctl)
        elif how == "long":
            argv += ["--Cluster.engine_launcher_class=" + eng, "--Cluster.controller_launcher_class=" + ctl]
        elif how == "deprecated":
            argv += ["--%s.engine_launcher_class=%s" % (cls, eng), "--%s.controller_launcher_class=%s" % (cls, ctl)]
        if name == "start":
            pre = "--IPClusterStart.%s=%s" if how == "deprecated" else "--%s=%s"
            for k, a in (("ip", "controller_ip"), ("location", "controller_location"), ("delay", "delay")):
                v = opts[k]
                if how == "deprecated":
                    k = a
                if v is not None:
                    argv.append(pre % (k, v))
                elif k == "delay":
                    argv.append(pre % (k, 0))
        if opts["early"] is not None:
            argv.append("--%s.early_shutdown=%i" % (cls, opts["early"]))
        if opts["daemonize"]:
            argv.append("--daemonize")
        argv += ["--"] + list(opts["extra"]) if opts["extra"] else []
        self.write(os.path.join(self.profiles[p], "ipcluster_config.py"), "c = get_config()\n" + "\n".join(conf) + "\n")

    def expect_n(self, opts):
        return opts["n"] if opts["n"] is not None else os.cpu_count()

    def op_start(self, p, cid, opts, script, name="start"):
        key = (p, cid)
        env = {}
        argv = [name] + self.where(p, env) + self.ids(cid, env)
        self.settings(name, p, opts, argv)
        before = self.snapshot()
        logs = {f: os.path.join(self.profiles[p], "log", f) for f in ("ipcluster-%s-%i.log" % (cid, 12), "ipcluster-%s-%i.out" % (cid, 3), "ipcontroller-x-1.log", "other.log")}
        for f in logs.values():
            self.write(f, "")
        running = self.alive(key)
        cmd = Command(self, name, p, cid, opts)
        res, out = self.main(argv, env, script, cmd)
        d_failed = list(self.w.failed)
        self.unchanged(before)
        for f, path_ in logs.items():
            there = os.path.exists(path_)
            if there:
                os.remove(path_)
            check(there == (name == "engines" or not f.startswith("ipcluster-")), "%s: the log file %r of an earlier run is %s", self.what, f, "left" if there else "removed")
        mine = cmd.mine()
        joins = running and name == "engines"
        if joins:
            self.ctx.tag("engines of a running cluster")
        elif running:
            same(res, 10, "%s: exit code for a cluster that is running (%s)" % (self.what, self.err.getvalue()[-300:]))
            check(not mine, "%s started %d processes, though the cluster is running", self.what, len(mine))
            self.ctx.tag("running already")
            return
        what = "%s (%s)" % (self.what, " ".join(argv))
        if isinstance(res, Hang):
            raise Violation("%s: %s (failed: %r); %s" % (what, res, d_failed, self.err.getvalue()[-300:]))
        for q in mine:
            same(q.profile, self.profiles[p], what + ": profile of the " + q.kind)
            same(q.cid, cid, what + ": cluster id of the " + q.kind)
        ctl = [q for q in mine if q.kind == "controller"]
        eng = [q for q in mine if q.kind == "engines"]
        check(len(ctl) <= (name == "start") and len(eng) <= 1, "%s started %r", what, [q.kind for q in mine])
        for q in ctl:
            want = []
            if opts["ip"]:
                want.append("--ip=" + opts["ip"])
            if opts["location"]:
                want.append("--location=" + opts["location"])
            same(q.args, want + opts["extra"], what + ": arguments of the controller")
        for q in eng:
            same(q.n, self.expect_n(opts), what + ": number of engines")
            same(json.loads(q.env.get("IPP_CONNECTION_INFO", "null")), {"e": ctl[0].pid} if ctl else None, what + ": connection information of the engines")
            if ctl:
                check(q.since - ctl[0].since >= (opts["delay"] or 0) - 1e-3, "%s: the delay was %s", what, q.since - ctl[0].since)
        bad = "start" in d_failed
        if not bad and not opts["daemonize"]:
            check(cmd.driver.cause, "%s ended, though nothing happened that it should end for (%r): %s", what, res, self.err.getvalue()[-500:])
        left = [q for q in mine if q.alive]
        if d_failed:
            self.ctx.nontrivial()
        stuck = [q for q in left if q.spec["stop"] != "ok"]
        if cmd.late:
            pass
        elif bad or not opts["daemonize"] or cmd.driver.cause:
            check(left == stuck, "%s ended (%r, failed: %r), and left running: %r", what, res, d_failed, [q.kind for q in left if q not in stuck])
            for q in stuck:
                check(q.stops, "%s did not try to stop the %s", what, q.kind)
            if bad:
                check(res not in (None, 0), "%s failed, but its exit code is %r", what, res)
                self.ctx.tag("start failed")
            elif not d_failed:
                check(res in (None, 0), "%s: exit code %r", what, res)
        elif opts["daemonize"]:
            check(res in (None, 0), "%s: exit code %r: %s", what, res, self.err.getvalue()[-500:])
            same(sorted(q.kind for q in mine), ["controller", "engines"] if name == "start" else ["engines"], what + " started")
            self.ctx.tag("daemonized")
        if joins:
            pass
        elif left:
            self.saved[key] = left
        else:
            self.saved.pop(key, None)
            check(not os.path.exists(self.file(*key)), "%s left a cluster file, and no process", what)

    def op_several(self, p, cids, opts):
        for cid in cids:
            self.op_start(p, cid, dict(opts, daemonize=True), [])

    def op_engines(self, p, cid, opts, script):
        self.op_start(p, cid, opts, script, "engines")

    def known(self, p):
        """ids of clusters with a file that can be read"""
        return [c for c in CIDS if os.path.exists(self.file(p, c)) and self.saved.get((p, c)) != "corrupt"]

    def op_stop(self, p, which, cid):
        env = {}
        if p == 9:
            p = max(range(3), key=lambda q: len([c for c in CIDS if self.alive((q, c))]))
        if which == "known":
            which = [c for c in self.known(p) if c] or "all"
        argv = ["stop"] + self.where(p, env)
        if which == "all":
            argv.append("--all")
            ids = self.known(p)
        elif which == "default":
            argv += self.ids(cid, env)
            ids = [cid]
        else:
            if "" in which:
                raise Skip()
            argv += which
            ids = which
        if any(self.saved.get((p, c)) == "corrupt" for c in ids):
            raise Skip()
        missing = [c for c in ids if not os.path.exists(self.file(p, c))]
        before = self.snapshot()
        concerned = [q for c in ids for q in self.alive((p, c))]
        res, out = self.main(argv, env)
        what = "%s (%s)" % (self.what, " ".join(argv))
        self.unchanged(before, concerned)
        if missing:
            same(res, 11, what + ": exit code for a cluster that isn't there")
            self.ctx.tag("missing")
        else:
            for q in concerned:
                same(q.stops - before[q.pid - 1][1], 1, "%s: times the %s was told to stop (%s)" % (what, q.kind, self.err.getvalue()[-500:]))
                check(q.alive == (q.spec["stop"] != "ok"), "%s: the %s is %s", what, q.kind, "running" if q.alive else "stopped")
            stuck = [q for q in concerned if q.alive]
            if len({q.cid for q in concerned}) > 1:
                self.ctx.tag("several stopped%s" % (" but not all" if stuck else ""))
            if stuck:
                self.ctx.nontrivial()
                check(res not in (None, 0), "%s failed, but its exit code is %r", what, res)
            else:
                check(res in (None, 0), "%s: exit code %r: %s", what, res, self.err.getvalue()[-500:])
        for c in ids:
            if not self.alive((p, c)) and self.saved.get((p, c)) != "corrupt":
                if not missing:
                    check(not os.path.exists(self.file(p, c)), "%s left the cluster file of %r", what, c)
                self.saved.pop((p, c), None) if not os.path.exists(self.file(p, c)) else None

    def op_list(self, fmt, p):
        env = {}
        argv = ["list"]
        if fmt:
            argv.append({"text": "-o=text", "json": "-o=json"}[fmt])
        ps = [0, 1]
        if p:
            argv += self.where(p, env)
            ps = [p]
        elif p == 0 and self.case["where"] == "dir":
            argv += self.where(0, env)
            ps = [0]
        before = self.snapshot()
        keys = [(q, c) for q in ps for c in self.known(q)]
        res, out = self.main(argv, env)
        what = "%s (%s)" % (self.what, " ".join(argv))
        self.unchanged(before)
        check(res in (None, 0), "%s: exit code %r: %s", what, res, self.err.getvalue()[-500:])
        want = {}
        for k in keys:
            a = self.alive(k)
            want[k] = (any(q.kind == "controller" for q in a), sum(q.n for q in a if q.kind == "engines"))
        got = {}
        if fmt == "json":
            for d in json.loads(out):
                c = d["cluster"]
                k = (self.profiles.index(c["profile_dir"]), c["cluster_id"])
                check(k not in got, "%s: listed twice: %r", what, k)
                got[k] = (bool(d.get("controller")), sum(s["n"] for s in d["engines"]["sets"].values()))
        else:
            lines = out.splitlines()
            same(lines[0].split(), ["PROFILE", "CLUSTER", "ID", "RUNNING", "ENGINES", "LAUNCHER"], what + ": the head")
            names = {"default": 0, "b c": 1, self.profiles[2]: 2}
            for l in lines[1:]:
                rest, n, launcher = l.rsplit(None, 2)
                same(launcher, "StubEngines", what + ": launcher")
                rest, run = rest.rsplit(None, 1)
                for name, i in names.items():
                    if rest.startswith(name + " "):
                        c = rest[len(name):].strip()
                        k = (i, "" if c == "''" else c)
                        check(k not in got, "%s: listed twice: %r", what, k)
                        got[k] = (run == "True", int(n))
                        break
                else:
                    raise Violation("%s: a line %r" % (what, l))
        # (those which aren't running may be listed)
        for k, v in want.items():
            if v != (False, 0) or self.alive(k):
                check(k in got, "%s: %r is running, but not listed: %r", what, k, out)
        for k, v in got.items():
            check(k in want, "%s: %r is listed, but isn't there", what, k)
            same(v, want[k], "%s: whether %r is running, and how many engines" % (what, k))
        if len(want) > 1:
            self.ctx.nontrivial()
        for k in keys:
            if not self.alive(k) and not os.path.exists(self.file(*k)):
                self.saved.pop(k, None)

    def op_clean(self, p, force, api):
        env = {}
        argv = ["clean"]
        if p is None:
            argv.append("--all")
            ps = [0, 1]
        else:
            argv += self.where(p, env)
            ps = [p]
        if force:
            argv.append("--force")
        junk = {}
        for q in range(3):
            junk[q] = [os.path.join(self.profiles[q], "log", "x-%s.log" % "abc"), os.path.join(self.profiles[q], "security", "ipcontroller-%s-engine.json" % "q"), os.path.join(self.profiles[q], "security", "ipcontroller-client.json")]
            for f in junk[q]:
                self.write(f, "x")
        before = self.snapshot()
        files = {(q, c) for q in range(3) for c in CIDS if os.path.exists(self.file(q, c))}
        for q in ps:
            os.makedirs(os.path.join(self.profiles[q], "log", "a folder"), exist_ok=True)
        if api:
            argv = ["clean_cluster_files"]
            res = self.api(lambda: self.clean([self.profiles[q] for q in ps] if p is not None else None, force))
        else:
            res, out = self.main(argv, env)
        what = "%s (%s)" % (self.what, " ".join(argv))
        self.unchanged(before)
        refused = not force and any(self.alive((q, c)) for q in ps for c in CIDS)
        if refused:
            self.ctx.tag("refused to clean")
            check(res not in (None, 0), "%s: clusters are running, but: %r", what, res)
        else:
            check(res in (None, 0), "%s: %r: %s", what, res, self.err.getvalue()[-500:])
        for q in range(3):
            busy = not force and any(self.alive((q, c)) for c in CIDS)
            for c in CIDS:
                k = (q, c)
                there = os.path.exists(self.file(*k))
                if q not in ps:
                    same(there, k in files, "%s: cluster file of %r in another profile" % (what, k))
                elif not refused:
                    check(not there, "%s: the cluster file of %r is left", what, k)
                if not there:
                    if q in ps and self.alive(k) and not force:
                        raise Violation("%s removed the file of the running cluster %r" % (what, k))
                    self.saved.pop(k, None)
            for f in junk[q]:
                there = os.path.exists(f)
                if q not in ps or busy:
                    check(there, "%s removed %s", what, os.path.relpath(f, self.box))
                elif not refused:
                    check(not there, "%s left %s", what, os.path.relpath(f, self.box))
                if there:
                    os.remove(f)

    def clean(self, profiles, force):
        from ipyparallel.cluster.cluster import clean_cluster_files

        clean_cluster_files(profiles[0] if profiles and len(profiles) == 1 else profiles, force=force)

    def api(self, f):
        """what it raised"""
        for q in self.w.procs:
            q.launchers = []
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        self.err = io.StringIO()
        with mock.patch.dict(os.environ, {"IPYTHONDIR": self.home}), contextlib.redirect_stderr(self.err):
            try:
                f()
            except Exception as e:
                return e
            finally:
                asyncio.set_event_loop(None)
                loop.close()

    def op_die(self, i):
        ps = [p for p in self.w.procs if p.alive]
        if ps:
            p = ps[i % len(ps)]
            p.launchers = []
            p.die(1)
            self.ctx.nontrivial()
            # the file stays until somebody looks at it
            for k, v in list(self.saved.items()):
                if isinstance(v, list) and p in v and not os.path.exists(self.file(*k)):
                    self.saved.pop(k)

    def op_corrupt(self, p, cid, text):
        if self.alive((p, cid)):
            raise Skip()
        self.write(self.file(p, cid), text)
        self.saved[p, cid] = "corrupt"


def run(case, ctx):
    global W
    here = os.getcwd()
    # (the default of work_dir is that of the import)
    os.chdir("/")
    entry.cache()
    stubs()
    import ipyparallel.cluster.app  # noqa: F401

    box = os.path.realpath(tempfile.mkdtemp(prefix="c38-"))
    try:
        os.chdir(box)
        h = History(case, ctx, box)
        W = h.w
        with guard.contained():
            h.go()
    finally:
        os.chdir(here)
        shutil.rmtree(box)


SUBS = [Sub("commands", strategy, run, quick=1500, thorough=40000)]
