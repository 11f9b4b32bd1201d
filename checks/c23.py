"""C23: saved clusters against a model, over histories of starting, stopping, killing and restoring, with real processes."""
import asyncio
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vlib import entry, guard
from vlib.runner import HarnessError, Skip, Sub, Violation, check, same

entry.cache()
PROPERTY = "C23"
RULE = ("cases: profile directories and cluster ids with any characters, clusters with any settings, made directly, by a manager or of a subclass, and histories of starting and stopping controllers and "
        "engine sets (local processes, or a batch system's stub commands), processes being killed (noticed, or while nobody watches), starts that fail, restoring from the file, from a dictionary or "
        "through a manager, and cleaning up; after each step the file's presence and content, every other cluster's file, and what a restored cluster and a listing show are compared with a model. "
        "Non-trivial: a running cluster was restored, or something was listed after a process died")
ASSUMPTIONS = ["one Cluster object at a time is in charge of a cluster", "ids contain no path separators", "process ids are not reused within a case"]
SHARDS = 8
QUICK_S = 28
THOROUGH_S = 300

IDS = ["", "a", "b", "x y", "[a]", "a*", "\u00fc", "a-b.json"]
PROFILES = ["profile_p", "prof [1]", "p*", "profile_\u00fc"]


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    words = st.lists(st.sampled_from(["--debug", "a b", "--x=\u00fc", '"', "", "--log-level=10"]), max_size=2)
    settings = st.fixed_dictionaries({}, optional={"controller_args": words, "controller_ip": st.sampled_from(["*", "127.0.0.1", "::1"]), "controller_location": st.sampled_from(["host", "\u00fc"]),
                                                   "delay": st.sampled_from([0.5, 2.0]), "n": st.sampled_from([None, 1, 3])})
    c = st.integers(0, 3)
    new = st.tuples(st.just("new"), st.integers(0, 1), st.integers(0, 2), settings, st.sampled_from(["direct", "manager", "sub"]), st.sampled_from(["local", "local", "local", "batch"]))
    op = weighted(
        (1, new),
        (4, st.tuples(st.just("controller"), c)), (5, st.tuples(st.just("engines"), c, st.integers(1, 3), st.sampled_from([None, "s1", "s 2", "\u00fc"]))),
        (2, st.tuples(st.just("stopset"), c, st.integers(0, 3))), (1, st.tuples(st.just("stopall"), c)), (2, st.tuples(st.just("stopctl"), c)),
        (3, st.tuples(st.just("kill"), c, st.sampled_from(["controller", "set", "engine", "all"]), st.integers(0, 5), st.booleans())),
        (4, st.tuples(st.just("restore"), c, st.sampled_from(["file", "dict", "path", "moved", "ids"]), st.booleans())),
        (2, st.tuples(st.just("list"), st.sampled_from(["dir", "dirs"]), st.booleans())),
        (1, st.tuples(st.just("fail"), c, st.sampled_from(["controller", "engines"]))),
        (1, st.tuples(st.just("foreign"), st.integers(0, 1), st.sampled_from(["garbage", "empty", "other", "connection", "list"]))),
        (1, st.tuples(st.just("clean"), st.integers(0, 1), st.booleans())),
        (1, st.tuples(st.just("restart"), c, st.integers(0, 3))))
    return st.fixed_dictionaries({"profiles": st.lists(st.sampled_from(PROFILES), min_size=2, max_size=2, unique=True), "ids": st.lists(st.sampled_from(IDS), min_size=3, max_size=3, unique=True),
                                  "ops": st.tuples(st.lists(new, min_size=1, max_size=3), st.lists(st.one_of(st.tuples(st.just("controller"), c), st.tuples(st.just("engines"), c, st.integers(1, 3), st.sampled_from([None, "s1"]))), min_size=1, max_size=4),
                                                   st.lists(op, min_size=1, max_size=10)).map(lambda t: t[0] + t[1] + t[2])})


_sub = None


def subclass():
    global _sub, MyCluster
    if _sub is None:
        from ipyparallel.cluster import Cluster

        class MyCluster_(Cluster):
            pass
        MyCluster_.__name__ = MyCluster_.__qualname__ = "MyCluster"
        MyCluster_.__module__ = __name__
        MyCluster = _sub = MyCluster_
    return _sub


def alive(pid):
    try:
        with open("/proc/%i/stat" % pid) as f:
            return f.read().rpartition(")")[2].split()[0] not in "ZX"
    except (FileNotFoundError, ProcessLookupError):
        return False


def exists(pid):
    return os.path.exists("/proc/%i" % pid)


def run(case, ctx):
    box = os.path.realpath(tempfile.mkdtemp(prefix="c23-"))
    here = os.getcwd()
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    w = None
    try:
        os.chdir(box)
        with guard.contained():
            w = World(case, ctx, box)
            try:
                loop.run_until_complete(w.history())
            finally:
                w.neutralise_all()
    finally:
        os.chdir(here)
        if w is not None:
            w.killall()
            loop.run_until_complete(asyncio.sleep(0))
        asyncio.set_event_loop(None)
        loop.close()
        assert "/c23-" in box
        shutil.rmtree(box)


class Model:
    def __init__(self, profile, cid, kind):
        self.profile, self.cid, self.kind = profile, cid, kind
        self.obj = None
        self.controller = None     # pid or job id
        self.sets = {}             # id -> list of (identifier, pid) or ("job", id, n)
        self.attrs = {}
        self.unsure = None         # its path, if it was removed while the cluster runs, which may write it at any time
        self._file = False
        self.dead_controller = False
        self.dead_sets = set()

    def running(self):
        return self.controller is not None or bool(self.sets)

    @property
    def file(self):
        """whether the file is there"""
        return os.path.exists(self.unsure) if self.unsure else self._file

    @file.setter
    def file(self, value):
        self._file, self.unsure = value, None


class World:
    def __init__(self, case, ctx, box):
        from traitlets.config import Config

        from ipyparallel.cluster import cluster as mod
        from vlib.fakes import quiet_log

        self.case, self.ctx, self.box, self.mod = case, ctx, box, mod
        self.log = quiet_log()
        self.pids = set()
        self.objects = []
        self.profiles = []
        for p in case["profiles"]:
            d = os.path.join(box, p)
            for s in ("", "log", "security"):
                os.makedirs(os.path.join(d, s), exist_ok=True)
            self.profiles.append(d)
        self.jobs = os.path.join(box, "jobs")
        submit = os.path.join(box, "submit")
        with open(submit, "w") as f:
            f.write("#!/bin/sh\nn=$(cat %s 2>/dev/null || echo 100)\nn=$((n+1))\necho $n > %s\necho $n.server\n" % (self.jobs, self.jobs))
        os.chmod(submit, 0o755)
        self.deleted = os.path.join(box, "deleted")
        delete = os.path.join(box, "delete")
        with open(delete, "w") as f:
            f.write("#!/bin/sh\necho \"$1\" >> %s\n" % self.deleted)
        os.chmod(delete, 0o755)
        c = self.config = Config()
        c.LocalControllerLauncher.controller_cmd = ["/bin/sh", "-c", "exec sleep 1000"]
        c.LocalEngineLauncher.engine_cmd = c.LocalEngineSetLauncher.engine_cmd = ["/bin/sh", "-c", "exec sleep 1000"]
        c.LocalEngineSetLauncher.delay = 0.0
        for l in ("PBSControllerLauncher", "PBSEngineSetLauncher"):
            c[l].submit_command = [submit]
            c[l].delete_command = [delete]
        c.Cluster.load_profile = False
        c.Cluster.send_engines_connection_env = False
        self.manager = mod.ClusterManager(config=c, log=self.log)
        self.models = []
        self.foreign = {}   # path -> content
        self.broken = set()

    # -- processes
    def kill(self, pid):
        os.kill(pid, signal.SIGKILL)

    def killall(self):
        for p in self.pids:
            if alive(p) and guard._ours(p):
                os.kill(p, signal.SIGKILL)
        end = time.monotonic() + 5
        for p in self.pids:
            while exists(p) and time.monotonic() < end:
                try:
                    os.waitpid(p, os.WNOHANG)
                except OSError:
                    pass
                time.sleep(0.002)

    async def until(self, f, what, timeout=20):
        end = time.monotonic() + timeout
        while not f():
            check(time.monotonic() < end, "%s", what)
            await asyncio.sleep(0.003)

    def launchers(self, obj):
        out = []
        if obj.controller:
            out.append(obj.controller)
        for s in obj.engines.values():
            out.append(s)
            out.extend(getattr(s, "launchers", {}).values())
        return out

    def neutralise(self, obj):
        """nobody hears of this object's processes any more"""
        from vlib.fakes import FakeLoop

        obj.shutdown_atexit = False
        for l in self.launchers(obj):
            l.loop = FakeLoop()
            l.stop_callbacks = []

    def neutralise_all(self):
        for o in self.objects:
            self.neutralise(o)

    # -- what is expected
    def path(self, m):
        return os.path.join(self.profiles[m.profile], "security", "cluster-%s.json" % m.cid)

    def files(self):
        out = {}
        for p in self.profiles:
            d = os.path.join(p, "security")
            for f in sorted(os.listdir(d)):
                with open(os.path.join(d, f)) as fh:
                    out[os.path.join(d, f)] = fh.read()
        return out

    def check_restored(self, m, r, what, cls=None, file=None):
        """compare a restored cluster with the model"""
        same(r.cluster_id, m.cid, "%s: cluster_id" % what)
        same(r.profile_dir, self.profiles[m.profile], "%s: profile_dir" % what)
        for k, v in m.attrs.items():
            same(getattr(r, k), v, "%s: %s" % (what, k))
        same(type(r), type(m.obj), "%s: class" % what)
        same(r.engine_launcher_class, m.obj.engine_launcher_class, "%s: class of engine sets" % what)
        same(r.controller_launcher_class, m.obj.controller_launcher_class, "%s: class of controllers" % what)
        if m.controller is None:
            same(r.controller, None, "%s: controller" % what)
        else:
            check(r.controller is not None, "%s: no controller", what)
            same(r.controller_launcher_class, m.obj.controller_launcher_class, "%s: class of the controller" % what)
            same(type(r.controller), type(m.obj.controller), "%s: class of the controller" % what)
            same(r.controller.state, "running", "%s: state of the controller" % what)
            same(r.controller.job_id if m.kind == "batch" else r.controller.pid, m.controller, "%s: controller" % what)
            same((r.controller.cluster_id, r.controller.profile_dir), (m.cid, self.profiles[m.profile]), "%s: the controller's cluster" % what)
        running = {k: v for k, v in r.engines.items()}
        same(sorted(running), sorted(m.sets), "%s: engine sets" % what)
        for k, s in running.items():
            same(s.state, "running", "%s: state of engine set %r" % (what, k))
            same(s.engine_set_id, k, "%s: id of engine set %r" % (what, k))
            same((s.cluster_id, s.profile_dir), (m.cid, self.profiles[m.profile]), "%s: cluster of engine set %r" % (what, k))
            if m.kind == "batch":
                same((s.job_id, s.n), m.sets[k], "%s: engine set %r" % (what, k))
            else:
                same({i: l.pid for i, l in s.launchers.items()}, dict(m.sets[k]), "%s: engines of set %r" % (what, k))
                same(s.n, len(m.sets[k]), "%s: n of engine set %r" % (what, k))
        if file is not None:
            same(r.cluster_file, file, "%s: cluster_file" % what)

    def check_file(self, m, what):
        p = self.path(m)
        same(os.path.exists(p), m.file, "%s: cluster file of %r is there" % (what, m.cid))
        if m.file and p not in self.foreign and not m.stale:
            with open(p) as f:
                d = json.load(f)
            self.check_dict(m, d, what)

    def check_dict(self, m, d, what):
        same(d["cluster"]["cluster_id"], m.cid, "%s: saved cluster_id" % what)
        c = d.get("controller")
        if c and not c.get("state"):
            c = None
        same(bool(c), m.controller is not None, "%s: a controller is saved" % what)
        if c:
            same(c["state"]["job_id" if m.kind == "batch" else "pid"], m.controller, "%s: saved controller" % what)
        sets = d["engines"]["sets"]
        same(sorted(sets), sorted(m.sets), "%s: saved engine sets" % what)

    # -- the history
    def start_pids(self, obj):
        for l in self.launchers(obj):
            if getattr(l, "pid", -1) > 0:
                self.pids.add(l.pid)

    async def history(self):
        for i, op in enumerate(self.case["ops"]):
            self.what = what = "step %i %r" % (i, op)
            before = self.files()
            self.touched = set()
            await getattr(self, "op_" + op[0])(what, *op[1:])
            after = self.files()
            for p in set(before) | set(after):
                if p not in self.touched and not any(m.unsure == p for m in self.models):
                    same(after.get(p), before.get(p), "%s: content of the untouched file %s" % (what, os.path.relpath(p, self.box)))
            for m in self.models:
                self.check_file(m, what)
        self.touched = set()
        await self.final()

    def pick(self, c):
        return self.models[c % len(self.models)] if self.models else None

    async def op_new(self, what, p, i, settings, how, kind):
        cid = self.case["ids"][i]
        profile = self.profiles[p]
        if any(m.profile == p and m.cid == cid for m in self.models):
            if any(m.profile == p and m.cid == cid and m.managed for m in self.models):
                try:
                    self.manager.new_cluster(cluster_id=cid, profile_dir=profile)
                except KeyError:
                    pass
                else:
                    check(False, "%s: a second cluster of the same name was made", what)
            return
        if len(self.models) >= 4:
            return
        m = Model(p, cid, kind)
        kw = dict(settings)
        if kind == "batch":
            kw.update(engines="pbs", controller="pbs")
        if how == "manager":
            key, obj = self.manager.new_cluster(cluster_id=cid, profile_dir=profile, **kw)
            want = self.mod.abbreviate_profile_dir(profile) + ":" + cid
            same(key, want, "%s: key" % what)
            check(self.manager.get_cluster(key) is obj, "%s: get_cluster(%r)", what, key)
            m.managed = key
        else:
            cls = subclass() if how == "sub" else self.mod.Cluster
            obj = cls(cluster_id=cid, profile_dir=profile, config=self.config, log=self.log, **kw)
            m.managed = None
        obj.shutdown_atexit = False
        m.obj = obj
        m.stale = False
        m.attrs = dict({"controller_args": [], "controller_ip": "", "controller_location": "", "delay": 1.0, "n": None}, **settings)
        self.objects.append(obj)
        self.models.append(m)

    def wrote(self, m):
        m.file = m.running()
        m.stale = False
        self.touched.add(self.path(m))
        self.foreign.pop(self.path(m), None)
        self.broken.discard(self.path(m))

    async def op_controller(self, what, c):
        m = self.pick(c)
        if m is None or m.obj is None:
            return
        if m.controller is not None:
            try:
                await m.obj.start_controller()
            except RuntimeError:
                return
            check(False, "%s: a second controller was started", what)
        if m.dead_controller:
            await m.obj.stop_controller()
            m.dead_controller = False
        await m.obj.start_controller()
        self.start_pids(m.obj)
        m.controller = m.obj.controller.job_id if m.kind == "batch" else m.obj.controller.pid
        if m.kind != "batch":
            check(alive(m.controller), "%s: the controller is not running", what)
        self.wrote(m)

    async def op_engines(self, what, c, n, sid):
        m = self.pick(c)
        if m is None or m.obj is None or sid in m.sets or sid in m.dead_sets:
            return
        got = await m.obj.start_engines(n, engine_set_id=sid)
        self.start_pids(m.obj)
        if sid is not None:
            same(got, sid, "%s: id of the engine set" % what)
        check(got not in m.sets, "%s: id %r of the engine set is taken", what, got)
        s = m.obj.engines[got]
        if m.kind == "batch":
            m.sets[got] = (s.job_id, n)
        else:
            m.sets[got] = [(i, l.pid) for i, l in s.launchers.items()]
            same(len(m.sets[got]), n, "%s: engines started" % what)
            check(all(alive(p) for i, p in m.sets[got]), "%s: an engine is not running", what)
        self.wrote(m)

    def deletions(self):
        try:
            with open(self.deleted) as f:
                return f.read().split()
        except FileNotFoundError:
            return []

    def others(self, m, gone):
        """all processes that must be running still"""
        for o in self.models:
            if o.kind == "batch":
                continue
            if o.controller is not None and o.controller not in gone:
                check(alive(o.controller), "%s: controller %i of %r is gone", self.what, o.controller, o.cid)
            for k, s in o.sets.items():
                for i, p in s:
                    if p not in gone:
                        check(alive(p), "%s: engine %i of %r is gone", self.what, p, o.cid)

    async def stop_set(self, m, k, call):
        was = m.sets.pop(k, None)
        m.dead_sets.discard(k)
        before = self.deletions()
        await call()
        if m.kind == "batch":
            same(self.deletions(), before + [was[0]] if was else before, "%s: deleted jobs" % self.what)
        elif was:
            for i, p in was:
                await self.until(lambda: not alive(p), "%s: engine %s still runs" % (self.what, i))
        self.others(m, ())
        check(k not in m.obj.engines, "%s: engine set %r is still there", self.what, k)

    async def op_stopset(self, what, c, j):
        m = self.pick(c)
        if m is None or m.obj is None:
            return
        ids = sorted(list(m.sets) + list(m.dead_sets))
        if not ids:
            return
        k = ids[j % len(ids)]
        await self.stop_set(m, k, lambda: m.obj.stop_engines(k))
        self.wrote(m)

    async def op_stopall(self, what, c):
        m = self.pick(c)
        if m is None or m.obj is None:
            return
        pids = [p for s in m.sets.values() for i, p in s] if m.kind != "batch" else []
        jobs = [s[0] for s in m.sets.values()] if m.kind == "batch" else []
        before = self.deletions()
        had = bool(m.sets or m.dead_sets)
        m.sets, m.dead_sets = {}, set()
        await m.obj.stop_engines()
        for p in pids:
            await self.until(lambda: not alive(p), "%s: an engine still runs" % what)
        same(sorted(self.deletions()), sorted(before + jobs), "%s: deleted jobs" % what)
        same(dict(m.obj.engines), {}, "%s: engine sets" % what)
        self.others(m, ())
        if had:
            self.wrote(m)

    async def op_stopctl(self, what, c):
        m = self.pick(c)
        if m is None or m.obj is None:
            return
        was, m.controller = m.controller, None
        before = self.deletions()
        m.dead_controller = False
        await m.obj.stop_controller()
        if m.kind == "batch":
            same(self.deletions(), before + [was] if was else before, "%s: deleted jobs" % what)
        elif was:
            await self.until(lambda: not alive(was), "%s: the controller still runs" % what)
        same(m.obj.controller, None, "%s: controller" % what)
        self.others(m, ())
        self.wrote(m)

    async def op_restart(self, what, c, j):
        m = self.pick(c)
        if m is None or m.obj is None or not m.sets:
            return
        k = sorted(m.sets)[j % len(m.sets)]
        was = m.sets[k]
        n = was[1] if m.kind == "batch" else m.obj.engines[k].n
        await m.obj.restart_engines(k)
        self.start_pids(m.obj)
        s = m.obj.engines[k]
        if m.kind == "batch":
            m.sets[k] = (s.job_id, n)
            check(s.job_id != was[0], "%s: same job", what)
        else:
            for i, p in was:
                await self.until(lambda: not alive(p), "%s: engine %s still runs" % (what, i))
            m.sets[k] = [(i, l.pid) for i, l in s.launchers.items()]
            same(len(m.sets[k]), n, "%s: engines after the restart" % what)
        self.others(m, ())
        self.wrote(m)

    async def op_kill(self, what, c, which, j, noticed):
        m = self.pick(c)
        if m is None or m.obj is None or m.kind == "batch" or not m.running():
            return
        if not noticed and (not m.file or self.path(m) in self.broken):
            return
        if not noticed:
            old = m.obj
            self.neutralise(old)
        dead = []
        def ctl():
            if m.controller is not None:
                dead.append(m.controller)
                m.controller = None
                m.dead_controller = True
        def engset(k):
            dead.extend(p for i, p in m.sets.pop(k))
            m.dead_sets.add(k)
        if which == "all":
            ctl()
            for k in list(m.sets):
                engset(k)
        elif which == "controller" or not m.sets:
            ctl()
        else:
            k = sorted(m.sets)[j % len(m.sets)]
            if which == "set" or len(m.sets[k]) == 1:
                engset(k)
            else:
                i, p = m.sets[k].pop(j % len(m.sets[k]))
                dead.append(p)
        for p in dead:
            self.kill(p)
        for p in dead:
            await self.until(lambda: not exists(p), "(harness) process %i is not collected" % p)
        self.what = what
        if noticed:
            def seen():
                o = m.obj
                if m.dead_controller and o.controller and o.controller.state != "after":
                    return False
                for k, s in o.engines.items():
                    if k in m.dead_sets:
                        if s.state != "after":
                            return False
                    elif set(s.launchers) != {i for i, p in m.sets[k]}:
                        return False
                return True
            await self.until(seen, "%s: the end of processes %s is not noticed" % (what, dead))
            # a partly dead set is saved at the next change only
            self.touched.add(self.path(m))
            if m.dead_controller or m.dead_sets:
                m.file = m.running()
        else:
            # as if the process in charge was gone
            m.stale = True
            await self.restore_from(m, "path", True, what)

    async def restore_from(self, m, how, take, what):
        obj = m.obj
        p = self.path(m)
        if not m.file:
            try:
                r = type(obj).from_file(p, config=self.config, log=self.log)
            except FileNotFoundError:
                return
            check(False, "%s: restored from a file that is not there", what)
        moved = None
        partly = m.stale
        if p in self.broken:
            return
        if how == "dict":
            d = json.loads(json.dumps(obj.to_dict()))
            if not m.running():
                return
            self.check_dict(m, d, what)
            r = self.mod.Cluster.from_dict(d, config=self.config, log=self.log)
        elif how == "path":
            r = self.mod.Cluster.from_file(p, config=self.config, log=self.log)
        elif how == "moved":
            moved = os.path.join(self.box, "moved.json")
            shutil.copyfile(p, moved)
            r = self.mod.Cluster.from_file(moved, config=self.config, log=self.log)
        elif how == "ids":
            r = self.mod.Cluster.from_file(profile_dir=self.profiles[m.profile], cluster_id=m.cid, config=self.config, log=self.log)
        else:
            r = type(obj).from_file(p, config=self.config, log=self.log)
        self.objects.append(r)
        self.ctx.nontrivial(m.running())
        self.check_restored(m, r, what + " restored by " + how, file=moved or p)
        same(r.shutdown_atexit, False, "%s: a restored cluster is stopped at exit" % what)
        if moved:
            same(os.path.exists(moved), m.running(), "%s: the moved file is there" % what)
            if os.path.exists(moved):
                os.remove(moved)
            take = False
        else:
            self.touched.add(p)
            m.stale = False
            m.file = m.running()
        if m.running():
            d = json.loads(json.dumps(r.to_dict()))
            self.check_dict(m, d, what)
            if not moved:
                with open(p) as f:
                    same(json.load(f), d, "%s: the file and the restored cluster" % what)
        if take:
            self.neutralise(obj)
            r.shutdown_atexit = False
            m.obj = r
            m.dead_controller = False
            m.dead_sets = set()
            m.managed = None
        else:
            self.neutralise(r)

    async def op_restore(self, what, c, how, take):
        m = self.pick(c)
        if m is None or m.obj is None:
            return
        await self.restore_from(m, how, take, what)

    async def op_list(self, what, how, init):
        mgr = self.mod.ClusterManager(config=self.config, log=self.log)
        if how == "dir":
            groups = [[0], [1]]
        else:
            groups = [[0, 1]]
        for g in groups:
            mgr = self.mod.ClusterManager(config=self.config, log=self.log)
            kw = {"profile_dir": self.profiles[g[0]]} if how == "dir" else {"profile_dirs": [self.profiles[i] for i in g]}
            got = mgr.load_clusters(init_default_clusters=init, **kw)
            want = {}
            for m in self.models:
                if m.profile in g and m.file and self.path(m) not in self.broken:
                    want[self.mod.abbreviate_profile_dir(self.profiles[m.profile]) + ":" + m.cid] = m
            keys = set(want)
            if init:
                for i in g:
                    d = os.path.join(self.profiles[i], "security")
                    if not any(f.startswith("cluster-") for f in os.listdir(d)):
                        keys.add(self.mod.abbreviate_profile_dir(self.profiles[i]) + ":")
            same(sorted(got), sorted(keys), "%s: clusters listed" % what)
            for k, r in got.items():
                self.objects.append(r)
                if k in want:
                    self.check_restored(want[k], r, "%s: listed %r" % (what, k))
                    self.touched.add(self.path(want[k]))
                    self.ctx.nontrivial()
                else:
                    check(not r._is_running(), "%s: %r, which was never started, is running", what, k)
                self.neutralise(r)

    async def op_fail(self, what, c, which):
        m = self.pick(c)
        if m is None or m.obj is None:
            return
        if which == "controller" and (m.controller is not None or m.dead_controller):
            return
        bad = ["/nonexistent/program"]
        try:
            if m.kind == "batch":
                if which == "controller":
                    await m.obj.start_controller(submit_command=bad)
                else:
                    await m.obj.start_engines(2, submit_command=bad, engine_set_id="failing")
            elif which == "controller":
                await m.obj.start_controller(controller_cmd=bad)
            else:
                await m.obj.start_engines(2, engine_cmd=bad, engine_set_id="failing")
        except OSError:
            pass
        else:
            check(False, "%s: started a program that does not exist", what)
        check("failing" not in m.obj.to_dict()["engines"]["sets"], "%s: the failed engine set is part of the cluster's state", what)
        if which == "controller":
            check(not (m.obj.to_dict().get("controller") or {}).get("state"), "%s: the failed controller is part of the cluster's state", what)
        same(m.obj._is_running(), m.running(), "%s: running" % what)
        self.wrote(m)

    async def op_foreign(self, what, p, kind):
        d = os.path.join(self.profiles[p], "security")
        name, text = {"garbage": ("cluster-garbage.json", "{not json"), "empty": ("cluster-empty.json", ""), "other": ("other.json", "{}"), "connection": ("ipcontroller-client.json", '{"x": 1}'),
                      "list": ("cluster-list.json", "[]")}[kind]
        path = os.path.join(d, name)
        with open(path, "w") as f:
            f.write(text)
        self.foreign[path] = text
        if name.startswith("cluster-"):
            self.broken.add(path)
        self.touched.add(path)

    async def op_clean(self, what, p, force):
        d = self.profiles[p]
        running = [m for m in self.models if m.profile == p and m.running() and m.file]
        stale = [m for m in self.models if m.profile == p]
        logs = os.path.join(d, "log")
        with open(os.path.join(logs, "some.log"), "w") as f:
            f.write("x")
        other = self.profiles[1 - p]
        other_logs = sorted(os.listdir(os.path.join(other, "log")))
        made = []
        real = self.mod.Cluster.__init__

        def init(obj, **k):
            real(obj, **k)
            made.append(obj)
        self.mod.Cluster.__init__ = init
        try:
            try:
                self.mod.clean_cluster_files(d, force=force, log=self.log)
            finally:
                self.mod.Cluster.__init__ = real
                for r in made:
                    self.neutralise(r)
        except ValueError:
            check(running and not force, "%s: refused although nothing runs", what)
        else:
            check(force or not running, "%s: cleaned up although %s run", what, [m.cid for m in running])
            same(os.listdir(logs), [], "%s: logs left" % what)
            left = [f for f in os.listdir(os.path.join(d, "security")) if f.startswith(("cluster-", "ipcontroller-"))]
            same(left, [], "%s: files left" % what)
            for m in stale:
                m.file = False
                if m.running():
                    m.unsure = self.path(m)
                    m.stale = True
        same(sorted(os.listdir(os.path.join(other, "log"))), other_logs, "%s: logs of the other profile" % what)
        for m in running:
            if not force:
                check(os.path.exists(self.path(m)), "%s: the file of the running cluster %r is gone", what, m.cid)
        for f in list(self.foreign):
            if f.startswith(d + os.sep) and not os.path.exists(f):
                self.touched.add(f)
                self.foreign.pop(f)
                self.broken.discard(f)
        for m in stale:
            self.touched.add(self.path(m))
            if not os.path.exists(self.path(m)) and not m.running():
                m.file = False
        self.others(None, ())
        for path in list(self.foreign):
            pass

    async def final(self):
        """a manager notices that clusters stop"""
        mgr = self.mod.ClusterManager(config=self.config, log=self.log)
        dirs = self.profiles
        models = [m for m in self.models if m.kind != "batch" and m.running() and m.file and self.path(m) not in self.broken]
        if not models:
            return
        mgr.load_clusters(profile_dirs=dirs)
        for r in mgr.clusters.values():
            self.objects.append(r)
        key = lambda m: self.mod.abbreviate_profile_dir(self.profiles[m.profile]) + ":" + m.cid
        for m in models:
            check(key(m) in mgr.clusters, "at the end: %r is not listed", key(m))
            same(mgr.clusters[key(m)]._is_running(), True, "at the end: %r is running" % key(m))
        m = models[0]
        had = mgr.clusters[key(m)].controller is not None
        await m.obj.stop_cluster()
        if had:
            def gone():
                mgr.load_clusters(profile_dirs=dirs)
                return key(m) not in mgr.clusters
            await self.until(gone, "at the end: the stopped cluster %r is still listed" % key(m))
        for o in models[1:]:
            check(key(o) in mgr.clusters, "at the end: %r is not listed any more", key(o))
        check(not os.path.exists(self.path(m)), "at the end: the stopped cluster has a file")


SUBS = [Sub("saved", strategy, run, quick=2000, thorough=30000)]
