"""C34: launchers and the processes they start: real local processes, and processes on hosts that are a model behind the ssh sender."""
import asyncio
import json
import os
import shutil
import signal
import sys
import tempfile
import threading
import time

from vlib import entry, guard
from vlib.runner import HarnessError, Sub, Violation, check, same

entry.cache()
PROPERTY = "C34"
RULE = ("cases: (local) a launcher of one process, of a set, or through a (stub) mpiexec, with any command, arguments, environment and directory; (ssh) sets of engines over hosts with users, ports and "
        "settings of their own, controllers and proxies; then histories of output, signals, exits with any code, kills (noticed or not), joins, polls, restorations from the saved state, and stops, with "
        "processes that obey TERM, exit with a code of their own, or ignore it. Non-trivial: a process exited by itself or was signalled while others ran, or a launcher was restored")
ASSUMPTIONS = ["process ids are not reused within a case", "one launcher at a time is in charge of a process", "exit codes of restored processes may be unknown, those of remote processes are"]
SHARDS = 8
QUICK_S = 30
THOROUGH_S = 300

WORDS = ["--debug", "a b", "--x=\u00fc", '"q"', "", "$HOME", "*", "a\nb", "-n", "\\", "'", ";", "--log-level=10"]
SIGS = ["USR1", "INT", "HUP", "USR2"]
TEXTS = ["%s\n", "%s", "x %s \u2603\n", "%s\n\n  y\n", "[[%s]]\n" * 3, "b\udcff%s\n"]

PROG = r"""#!/usr/bin/python3 -IS
import os, select, signal, sys

rec = os.environ["REC"]
P = "%s/%i" % (rec, os.getpid())
os.mkfifo(P + ".fifo")
fifo = os.open(P + ".fifo", os.O_RDWR)


def write(name, data, flags=os.O_TRUNC):
    fd = os.open(name, os.O_WRONLY | os.O_CREAT | flags, 0o644)
    os.write(fd, data)
    os.close(fd)


write(P + ".args", b"".join(os.fsencode(a) + b"\0" for a in sys.argv[1:]))
write(P + ".cwd", os.fsencode(os.getcwd()) + b"\n")
with open("/proc/self/environ", "rb") as f:
    write(P + ".env", f.read())
with open(rec + "/mode") as f:
    mode = f.read()
names = ["USR1", "USR2", "INT", "HUP"] + (["TERM"] if mode in ("ignore", "code") else [])
pending = []
for s in names:
    # the handler only notes it: it is written once, and in the order of arrival
    signal.signal(getattr(signal, "SIG" + s), lambda n, f, s=s: pending.append(s))
write(P + ".ready", b"")
buf = b""
while True:
    while pending:
        s = pending.pop(0)
        write(P + ".sig", s.encode() + b"\n", os.O_APPEND)
        if s == "TERM" and mode == "code":
            os.write(1, b"bye-%i-\n" % os.getpid())
            os._exit(7)
    if select.select([fifo], [], [], 0.02)[0]:
        buf += os.read(fifo, 65536)
    while b"\n" in buf:
        line, _, buf = buf.partition(b"\n")
        if line.startswith(b"say "):
            with open(line[4:], "rb") as f:
                os.write(1, f.read())
            write(line[4:] + b".done", b"")
        elif line.startswith(b"exit "):
            os._exit(int(line[5:]))
    if not os.path.isdir(rec):
        os._exit(99)
"""


def common():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    i = st.integers(0, 7)
    sig = st.tuples(st.sampled_from(SIGS), st.sampled_from(["int", "int", "enum", "name", "fullname"]))
    op = weighted((4, st.tuples(st.just("say"), i, st.sampled_from(TEXTS))), (3, st.just(("output",))),
                  (5, st.tuples(st.just("exit"), i, st.sampled_from([0, 0, 1, 3, 77]), st.booleans())),
                  (2, st.tuples(st.just("kill"), i, st.booleans())),
                  (5, st.tuples(st.just("signal"), sig)), (2, st.just(("spin",))), (3, st.tuples(st.just("restore"), st.none() | i)),
                  (1, st.tuples(st.just("join"), i)), (1, st.tuples(st.just("poll"), i)), (1, st.just(("onstop",))), (1, st.just(("again",))),
                  (1, st.just(("stop",))))
    return st, weighted, st.lists(op, max_size=9)


def env_strategy(st):
    return st.dictionaries(st.sampled_from(["AA", "B_B", "IPP_X", "LANG"]), st.sampled_from(["1", "", "a b", "\u00fc", "$x", "a=b"]), max_size=3)


def local_strategy():
    st, weighted, ops = common()
    return st.fixed_dictionaries({"kind": st.sampled_from(["engine", "controller", "set", "set", "set", "mpi"]), "n": st.integers(1, 4), "args": st.lists(st.sampled_from(WORDS), max_size=4),
                                  "cid": st.sampled_from(["", "c", "x y"]), "env": env_strategy(st), "mode": st.sampled_from(["die", "die", "code", "ignore"]), "cwd": st.sampled_from(["", "w d"]),
                                  "ops": ops})


def ssh_strategy():
    st, weighted, ops = common()
    host = st.sampled_from(["h1", "h2", "u@h1", "h3:2222", "u@h4:2222", "v@h5:22", "h2:2022"])
    over = st.fixed_dictionaries({}, optional={"n": st.integers(1, 3), "engine_args": st.lists(st.sampled_from(WORDS), max_size=2), "environment": env_strategy(st), "ssh_args": st.just(["-i", "key"]),
                                               "remote_python": st.just("/opt/py")})
    hosts = st.lists(st.tuples(host, st.one_of(st.integers(1, 3), over)), min_size=1, max_size=4, unique_by=lambda t: t[0])
    return st.fixed_dictionaries({"kind": st.sampled_from(["set", "set", "set", "controller", "proxy", "one"]), "hosts": hosts, "n": st.integers(1, 8), "args": st.lists(st.sampled_from(WORDS), max_size=3),
                                  "ssh_args": st.sampled_from([[], ["-q"], ["-o", "X=y"]]), "scp_args": st.sampled_from([[], ["-C"]]), "twice": st.booleans(), "loc": st.booleans(),
                                  "cid": st.sampled_from(["", "c", "x y"]), "env": env_strategy(st), "mode": st.sampled_from(["die", "die", "ignore"]), "ops": ops})


def proc_state(pid):
    try:
        with open("/proc/%i/stat" % pid) as f:
            return f.read().rpartition(")")[2].split()[0]
    except (FileNotFoundError, ProcessLookupError):
        return None


def alive(pid):
    return proc_state(pid) not in (None, "Z", "X")


class Proc:
    def __init__(self, ident, pid):
        self.ident = ident
        self.pid = pid
        self.said = ""
        self.exit = None       # ("exit", code) once it is dead
        self.noticed = False
        self.sigs = []
        self.restored = False


class World:
    """what both kinds have in common"""

    prefix = "c34-"

    def __init__(self, case, ctx, box):
        from vlib.fakes import quiet_log

        self.case, self.ctx, self.box = case, ctx, box
        self.log = quiet_log()
        self.profile = os.path.join(box, "profile_p")
        for s in ("log", "security"):
            os.makedirs(os.path.join(self.profile, s))
        self.procs = []
        self.notes = []         # of the current launcher
        self.ntok = 0
        self.stopped = False
        self.events = 0
        self.all_objs = []
        self.inner = {}         # notices of the engines of a set

    async def until(self, f, what, timeout=90):
        end = time.monotonic() + timeout
        while not f():
            check(time.monotonic() < end, "%s", what)
            await asyncio.sleep(0.002)

    def until_block(self, f, what, timeout=90):
        end = time.monotonic() + timeout
        while not f():
            check(time.monotonic() < end, "%s", what)
            time.sleep(0.002)

    def watch(self):
        notes = self.notes = []
        self.obj.on_stop(lambda d: notes.append(d))

    def is_set(self):
        return self.case["kind"] == "set"

    def living(self):
        return [p for p in self.procs if p.exit is None]

    def members(self):
        """launchers of the processes"""
        return dict(self.obj.launchers) if self.is_set() else {self.procs[0].ident: self.obj}

    async def history(self):
        await self.start()
        for i, op in enumerate(self.case["ops"]):
            self.what = "step %i %r" % (i, op)
            await getattr(self, "op_" + op[0])(*op[1:])
            self.invariant()
        self.what = "the end"
        await self.op_spin()
        if not self.stopped:
            await self.op_stop()
        self.invariant()
        check(not self.foreign(), "%s: processes nobody asked for: %r", self.what, self.foreign())
        if self.events:
            self.ctx.nontrivial()

    def invariant(self):
        what = self.what
        for p in self.procs:
            if p.exit is None:
                check(self.alive(p), "%s: process %s died", what, p.ident)
                same(self.sigs(p), p.sigs, "%s: signals that %s got" % (what, p.ident))
        done = all(p.noticed for p in self.procs)
        same(self.obj.state, "after" if done else "running", "%s: state of the launcher" % what)
        same(len(self.notes), 1 if done else 0, "%s: times the launcher told that it stopped" % what)
        if self.is_set():
            same(sorted(self.obj.launchers), sorted(p.ident for p in self.procs if not p.noticed), "%s: engines of the set" % what)
        if done:
            self.check_note(self.notes[0])

    def code(self, p):
        return p.exit[1]

    def code_ok(self, p, got):
        return got == self.code(p) or (p.restored and got is None)

    def check_note(self, d):
        what = self.what
        if not self.is_set():
            p = self.procs[0]
            same((d["pid"], d["identifier"]), (p.pid, p.ident), "%s: process that stopped" % what)
            check(self.code_ok(p, d["exit_code"]), "%s: exit code %r of %s, which exited with %r", what, d["exit_code"], p.ident, self.code(p))
            return
        e = d["engines"]
        mine = [p for p in self.procs if not p.before]
        same(sorted(e), sorted(p.ident for p in mine), "%s: engines that stopped" % what)
        for p in mine:
            same((e[p.ident]["pid"], e[p.ident]["identifier"]), (p.pid, p.ident), "%s: engine that stopped" % what)
            check(self.code_ok(p, e[p.ident]["exit_code"]), "%s: exit code %r of engine %s, which exited with %r", what, e[p.ident]["exit_code"], p.ident, self.code(p))
        codes = [e[p.ident]["exit_code"] for p in mine]
        bad = [c for c in codes if c]
        if bad:
            check(d["exit_code"] in bad, "%s: exit code %r of a set whose engines exited with %r", what, d["exit_code"], codes)
        else:
            check(not d["exit_code"], "%s: exit code %r of a set whose engines exited with %r", what, d["exit_code"], codes)

    # -- operations
    def pick(self, i):
        l = self.living()
        return l[i % len(l)] if l else None

    async def op_say(self, i, text):
        p = self.pick(i)
        if p is None:
            return
        self.ntok += 1
        text = text.replace("%s", "T%i-%s." % (self.ntok, p.pid))
        self.say(p, text)
        p.said += text

    async def op_output(self):
        self.check_output()

    def said(self, p):
        return p.said.encode("utf8", "surrogateescape").decode("utf8", "replace")

    def check_output(self):
        got = self.obj.get_output()
        if not self.is_set():
            same(got, self.said(self.procs[0]), "%s: output" % self.what)
            return
        want = [p for p in self.procs if p.said and not p.before]
        for p in self.procs:
            same(got.count("Output for engine %s\n" % p.ident), 1 if p in want else 0, "%s: times the output of %s is shown" % (self.what, p.ident))
        for p in want:
            for line in self.said(p).splitlines():
                if any(c.isdigit() for c in line):
                    same(got.count(line), p.said.encode("utf8", "surrogateescape").decode("utf8", "replace").count(line), "%s: times the line %r is in the output" % (self.what, line))

    async def op_exit(self, i, code, spin):
        p = self.pick(i)
        if p is None:
            return
        self.end(p, code)
        p.exit = ("exit", code)
        self.events += len(self.living()) > 0 or not self.is_set()
        if spin:
            await self.op_spin()

    async def op_kill(self, i, spin):
        p = self.pick(i)
        if p is None:
            return
        self.end(p, None)
        p.exit = ("kill", self.killed())
        self.ctx.tag("killed")
        if spin:
            await self.op_spin()

    def killed(self):
        return -9

    async def op_spin(self):
        dead = [p for p in self.procs if p.exit is not None and not p.noticed]
        members = self.members()
        for p in dead:
            l = members.get(p.ident)
            if l is not None:
                await self.until(lambda: l.state == "after", "%s: the end of %s is not noticed" % (self.what, p.ident))
            p.noticed = True
        for k in range(3):
            await asyncio.sleep(0)

    async def op_signal(self, sig):
        name, how = sig
        num = getattr(signal, "SIG" + name)
        value = {"int": int(num), "enum": num, "name": name, "fullname": "SIG" + name}[how]
        if self.ssh and how in ("name", "fullname"):
            value = num
        unnoticed = [p for p in self.procs if p.exit is not None and not p.noticed]
        try:
            self.obj.signal(value)
        except Exception as e:
            if self.living() or not unnoticed:
                raise Violation("%s: signal raised %r" % (self.what, e))
        for p in self.living():
            p.sigs.append(name)
            self.await_sig(p)
        if unnoticed and self.living():
            self.ctx.tag("signal-with-dead")
        if self.living():
            self.events += 1

    async def op_restore(self, i):
        await self.op_spin()
        if self.stopped or not self.living():
            return
        d = json.loads(json.dumps(self.obj.to_dict()))
        # the old launcher is given up
        self.give_up(self.obj)
        if i is not None and len(self.living()) > 1:
            # this happens while no launcher is there
            self.ctx.tag("lost")
            p = self.pick(i)
            self.end(p, 3)
            p.exit = ("exit", 3)
        self.obj = type(self.obj).from_dict(d, **self.restore_kw())
        self.all_objs.append(self.obj)
        self.watch()
        self.ctx.tag("restored")
        self.events += 1
        for p in self.procs:
            if p.noticed or p.exit is not None and not self.ssh:
                # known to the former launcher only
                p.noticed = p.before = True
            else:
                p.restored = True
        same(self.obj.state, "running", "%s: state of the restored launcher" % self.what)
        same({i: l.pid for i, l in self.members().items()}, {p.ident: p.pid for p in self.procs if not p.before}, "%s: processes of the restored launcher" % self.what)
        if self.is_set():
            same(self.obj.n, len([p for p in self.procs if not p.before]), "%s: n of the restored set" % self.what)

    def give_up(self, obj):
        from vlib.fakes import FakeLoop

        for l in [obj] + list(getattr(obj, "launchers", {}).values()):
            l.loop = FakeLoop()
            l.stop_callbacks = []
            if getattr(l, "_stop_waiting", None):
                l._stop_waiting.set()

    async def op_join(self, i):
        members = self.members()
        p = self.procs[i % len(self.procs)]
        l = members.get(p.ident)
        if l is None or self.stopped:
            return
        try:
            await l.join(timeout=0.05 if p.exit is None else 90)
        except TimeoutError:
            check(p.exit is not None or self.alive(p), "%s", self.what)
            check(p.exit is None, "%s: join of a process that exited timed out", self.what)
        else:
            check(p.exit is not None, "%s: join of a running process returned", self.what)
            await self.op_spin()
        await self.op_spin()

    async def op_poll(self, i):
        pass

    async def op_onstop(self):
        if self.obj.state == "after":
            got = []
            self.obj.on_stop(got.append)
            same(got, [self.notes[0]], "%s: on_stop of a launcher that stopped" % self.what)

    async def op_again(self):
        pass

    async def op_stop(self):
        self.what += " (stop)"
        was = self.living()
        if self.case["mode"] == "ignore" and was:
            self.ctx.tag("stop-kills")
        await self.obj.stop()
        for p in self.procs:
            check(not self.alive(p), "%s: %s still runs when stop has returned", self.what, p.ident)
        for p in was:
            p.exit = ("stop", self.stop_code())
            if self.case["mode"] == "code":
                p.said += "bye-%i-\n" % p.pid
        for p in self.procs:
            if not p.noticed:
                await self.until(lambda: p.ident not in self.members() or self.members()[p.ident].state == "after", "%s: the end of %s is not noticed" % (self.what, p.ident))
                p.noticed = True
        await asyncio.sleep(0)
        self.stopped = True
        self.check_output()


class Local(World):
    ssh = False

    def __init__(self, case, ctx, box):
        super().__init__(case, ctx, box)
        from traitlets.config import Config

        from ipyparallel.cluster import launcher as mod

        self.mod = mod
        self.rec = os.path.join(box, "rec")
        os.makedirs(self.rec)
        with open(os.path.join(self.rec, "mode"), "w") as f:
            f.write(case["mode"])
        self.prog = os.path.join(box, "prog")
        with open(self.prog, "w") as f:
            f.write(PROG)
        os.chmod(self.prog, 0o755)
        self.work = os.path.join(box, case["cwd"] or "w")
        os.makedirs(self.work)
        env = dict(case["env"], REC=self.rec)
        c = self.config = Config()
        kind = case["kind"]
        kw = dict(config=c, log=self.log, profile_dir=self.profile, cluster_id=case["cid"], work_dir=self.work, environment=env, stop_seconds_until_kill=0 if case["mode"] == "ignore" else 10)
        self.kw = dict(config=c, log=self.log, work_dir=self.work, environment=env, stop_seconds_until_kill=kw["stop_seconds_until_kill"])
        if kind == "set":
            kw.update(engine_set_id="s", delay=0.0)
            self.kw.update(engine_set_id="s")
            # members read it from the configuration
            c.LocalEngineLauncher.stop_seconds_until_kill = kw["stop_seconds_until_kill"]
            cls = mod.LocalEngineSetLauncher
        elif kind == "engine":
            cls = mod.LocalEngineLauncher
        elif kind == "controller":
            cls = mod.LocalControllerLauncher
        else:
            cls = mod.MPIEngineSetLauncher
            kw.update(mpi_cmd=[self.prog, "mpi"], mpi_args=["--np x"])
            self.kw.update(engine_set_id="s")
            kw.update(engine_set_id="s")
        self.kw = {k: v for k, v in self.kw.items()}
        if kind == "controller":
            kw.update(controller_cmd=[self.prog, "one two"], controller_args=case["args"])
        else:
            kw.update(engine_cmd=[self.prog, "one two"], engine_args=case["args"])
        self.obj = cls(**kw)
        self.all_objs.append(self.obj)
        self.n = case["n"] if kind == "set" else 1
        self.env = env

    def restore_kw(self):
        return dict(self.kw)

    def ready(self):
        return sorted(int(f[:-6]) for f in os.listdir(self.rec) if f.endswith(".ready"))

    async def start(self):
        self.what = "start"
        self.watch()
        kind = self.case["kind"]
        if kind == "set":
            self.obj.start(self.n)
        elif kind == "mpi":
            self.obj.start(self.case["n"])
        else:
            self.obj.start()
        self.until_block(lambda: len(self.ready()) >= self.n, "processes do not start: %r of %i" % (self.ready(), self.n))
        if kind == "set":
            same(sorted(self.obj.launchers), [str(i) for i in range(self.n)], "engines of the set")
            self.procs = [Proc(i, l.pid) for i, l in self.obj.launchers.items()]
        else:
            self.procs = [Proc(self.obj.identifier, self.obj.pid)]
        for p in self.procs:
            p.before = False
        same(self.ready(), sorted(p.pid for p in self.procs), "processes started")
        self.obj.identifier
        want = [self.prog] + (["mpi", "-n", str(self.case["n"]), "--np x", self.prog] if kind == "mpi" else []) + ["one two"] + (["--mpi"] if kind == "mpi" else []) + list(self.case["args"])
        env = dict(os.environ)
        env.update({"IPP_CLUSTER_ID": self.case["cid"], "IPP_PROFILE_DIR": self.profile})
        env.update(self.env)
        for p in self.procs:
            f = os.path.join(self.rec, str(p.pid))
            with open(f + ".args", "rb") as fh:
                args = [os.fsdecode(a) for a in fh.read().split(b"\0")[:-1]]
            same(args, want[1:], "arguments of %s" % p.ident)
            with open(f + ".cwd") as fh:
                same(fh.read()[:-1], self.work, "directory of %s" % p.ident)
            with open(f + ".env", "rb") as fh:
                got = dict(os.fsdecode(a).partition("=")[::2] for a in fh.read().split(b"\0")[:-1])
            same({k: v for k, v in got.items() if k not in ("_",)}, {k: v for k, v in env.items() if k not in ("_",)}, "environment of %s" % p.ident)
            check(os.getsid(p.pid) == p.pid, "%s is in the session of its parent: it would get its signals", p.ident)
        self.invariant()

    def alive(self, p):
        return alive(p.pid)

    def sigs(self, p):
        f = os.path.join(self.rec, "%i.sig" % p.pid)
        if not os.path.exists(f):
            return []
        with open(f) as fh:
            return fh.read().split()

    def await_sig(self, p):
        self.until_block(lambda: len(self.sigs(p)) >= len(p.sigs) or not self.alive(p), "%s: %s did not get signal %s" % (self.what, p.ident, p.sigs[-1]))

    def say(self, p, text):
        f = os.path.join(self.rec, "text%i" % self.ntok)
        with open(f, "w", errors="surrogateescape", encoding="utf8") as fh:
            fh.write(text)
        self.tell(p, "say " + f)
        self.until_block(lambda: os.path.exists(f + ".done"), "process does not answer")

    def tell(self, p, line):
        with open(os.path.join(self.rec, "%i.fifo" % p.pid), "w") as fh:
            fh.write(line + "\n")

    def end(self, p, code):
        if code is None:
            os.kill(p.pid, signal.SIGKILL)
        else:
            self.tell(p, "exit %i" % code)
        self.until_block(lambda: not self.alive(p), "process does not exit")
        # the thread that waits for it gets to know
        t = self.members()[p.ident]._wait_thread
        if t is not None:
            t.join(60)

    def stop_code(self):
        return {"die": -15, "code": 7, "ignore": -9}[self.case["mode"]]

    def foreign(self):
        return [p for p in self.ready() if p not in [q.pid for q in self.procs]]

    async def op_poll(self, i):
        if self.is_set() or self.stopped or self.obj.state != "running":
            return
        p = self.procs[0]
        got = self.obj.poll()
        if p.exit is None:
            same(got, None, "%s: poll of a running process" % self.what)
        else:
            check(got is not None, "%s: poll says that a process runs which does not", self.what)
            check(self.code_ok(p, got) or got == "unknown" and p.restored, "%s: poll: %r of a process that exited with %r", self.what, got, self.code(p))
            if got == "unknown":
                self.notes[0]["exit_code"] = None
            p.noticed = True
            await self.op_spin()

    async def op_again(self):
        if self.is_set():
            return
        n = len(self.ready())
        try:
            self.obj.start(1) if self.case["kind"] == "mpi" else self.obj.start()
        except Exception as e:
            check(type(e).__name__ == "ProcessStateError", "%s: starting a launcher again: %r", self.what, e)
        else:
            raise Violation("%s: a launcher was started again" % self.what)
        same(len(self.ready()), n, "%s: processes" % self.what)

    def cleanup(self):
        for o in self.all_objs:
            self.give_up(o)
        # the programs exit when their directory is gone; do not wait for that
        pids = set(self.ready()) | {p.pid for p in self.procs}
        for l in self.all_objs:
            for x in [l] + list(getattr(l, "launchers", {}).values()):
                if getattr(x, "pid", -1) > 0:
                    pids.add(x.pid)
        for p in pids:
            if alive(p) and guard._ours(p):
                os.kill(p, signal.SIGKILL)
        end = time.monotonic() + 5
        for p in pids:
            while os.path.exists("/proc/%i" % p) and time.monotonic() < end:
                try:
                    os.waitpid(p, os.WNOHANG)
                except OSError:
                    pass
                time.sleep(0.002)


# -- ssh ------------------------------------------------------------------------
here = threading.local()


class Stdout:
    def __init__(self, real):
        self.real = real

    def write(self, s):
        b = getattr(here, "out", None)
        if b is None:
            return self.real.write(s)
        b.append(s)
        return len(s)

    def __getattr__(self, n):
        return getattr(self.real, n)


class Remote:
    """a process on a host"""

    def __init__(self, host, pid, cmd, env, out):
        self.host, self.pid, self.cmd, self.env, self.out = host, pid, cmd, env, out
        self.alive = True
        self.sigs = []
        self.files = dict(host.files)    # what was there when it started


class Host:
    """what a login on a host shows: files and processes"""

    def __init__(self, world, user, name, port):
        self.world, self.user, self.name, self.port = world, user, name, port
        self.files = {}
        self.dirs = {"", "."}
        self.procs = {}
        self.cond = threading.Condition()
        self.npid = 100 * (len(world.hosts) + 1)


class FakeProcess:
    def __init__(self, pid):
        self.pid = pid
        host = here.host
        if pid not in host.procs:
            import psutil

            raise psutil.NoSuchProcess(pid)
        self.p = host.procs[pid]

    def is_running(self):
        return self.p.alive

    def wait(self, timeout=None):
        import psutil

        p = self.p
        # a remote second is a hundredth of ours
        end = time.monotonic() + (timeout / 100 if timeout is not None else 20)
        with p.host.cond:
            while p.alive:
                left = end - time.monotonic()
                if left <= 0 or p.host.world.over:
                    if p.host.world.over:
                        raise psutil.NoSuchProcess(self.pid)
                    raise psutil.TimeoutExpired(timeout, self.pid)
                p.host.cond.wait(left)
        return None


class PsutilShim:
    def __getattr__(self, n):
        import psutil

        if n == "Process" and getattr(here, "host", None) is not None:
            return FakeProcess
        return getattr(psutil, n)


class Ssh(World):
    ssh = True

    def __init__(self, case, ctx, box):
        super().__init__(case, ctx, box)
        from traitlets.config import Config

        from ipyparallel.cluster import launcher as mod

        self.mod = mod
        self.hosts = {}
        self.over = False
        self.problems = []
        self.logins = []        # (user, host, port, other options) of each ssh or scp
        self.files = {}
        cid = case["cid"]
        pre = "ipcontroller" + ("-" + cid if cid else "")
        self.names = {k: os.path.join(self.profile, "security", "%s-%s.json" % (pre, k)) for k in ("client", "engine")}
        kind = case["kind"]
        if kind != "controller":
            for k, f in self.names.items():
                with open(f, "w") as fh:
                    fh.write('{"kind": "%s"}' % k)
        self.saved = [(mod, n, getattr(mod, n)) for n in ("ShellCommandSend", "check_output", "psutil")]
        mod.ShellCommandSend = lambda *a, **k: Sender(self, *a, **k)
        mod.check_output = self.scp
        mod.psutil = PsutilShim()
        self.stdout = sys.stdout
        sys.stdout = Stdout(self.stdout)
        c = self.config = Config()
        cls = {"set": mod.SSHEngineSetLauncher, "controller": mod.SSHControllerLauncher, "proxy": mod.SSHProxyEngineSetLauncher, "one": mod.SSHEngineLauncher}[kind]
        sec = c[cls.__name__]
        sec.ssh_args = list(case["ssh_args"])
        sec.scp_args = list(case["scp_args"])
        sec.stop_seconds_until_kill = 0 if case["mode"] == "ignore" else 1000
        if kind == "set":
            c.SSHEngineLauncher.stop_seconds_until_kill = sec.stop_seconds_until_kill
            sec.delay = 0.0
            sec.engines = {h: (dict(v) if isinstance(v, dict) else v) for h, v in case["hosts"]}
        else:
            h = case["hosts"][0][0].partition(":")[0]
            if case["loc"]:
                sec.location = h
            else:
                if "@" in h:
                    sec.user, h = h.split("@")
                sec.hostname = h
        if kind == "controller":
            sec.controller_args = list(case["args"])
        elif kind == "proxy":
            sec.ipcluster_args = list(case["args"])
        else:
            sec.engine_args = list(case["args"])
        self.cls = cls
        self.new()

    def new(self):
        kw = dict(config=self.config, log=self.log, profile_dir=self.profile, cluster_id=self.case["cid"], environment=dict(self.case["env"]))
        if self.case["kind"] != "controller":
            kw["engine_set_id"] = "s"
        self.obj = self.cls(**kw)
        self.all_objs.append(self.obj)

    def restore_kw(self):
        kw = dict(config=self.config, log=self.log)
        if self.case["kind"] != "controller":
            kw["engine_set_id"] = "s"
        return kw

    def login(self, cmd, args):
        """the host that a command line means"""
        port, rest, i = 22, [], 0
        flag = "-p" if cmd == "ssh" else "-P"
        while i < len(args):
            if args[i] == flag:
                port = int(args[i + 1])
                i += 2
            else:
                rest.append(args[i])
                i += 1
        loc = rest.pop()
        user, _, name = loc.rpartition("@")
        self.logins.append((cmd, user, name, port, rest))
        return self.host(user, name, port)

    def host(self, user, name, port):
        key = (user, name, port)
        if key not in self.hosts:
            self.hosts[key] = Host(self, user, name, port)
        return self.hosts[key]

    def scp(self, cmd, input=None, **kw):
        same(cmd[0], "scp", "command for copying files")
        src, dst = cmd[-2:]
        if ":" in src and not os.path.exists(src):
            loc, _, path = src.partition(":")
            h = self.login("scp", list(cmd[1:-2]) + [loc])
            if path not in h.files:
                raise OSError("scp: %s: no such file" % path)
            with open(dst, "wb") as f:
                f.write(h.files[path])
        else:
            loc, _, path = dst.partition(":")
            h = self.login("scp", list(cmd[1:-2]) + [loc])
            if os.path.dirname(path) not in h.dirs:
                raise OSError("scp: %s: no such directory" % path)
            with open(src, "rb") as f:
                h.files[path] = f.read()
        return b""

    def expected(self):
        """[(ident, user, host, port, cmd, env, ssh options)]"""
        case = self.case
        kind = case["kind"]
        env = {"IPP_CLUSTER_ID": case["cid"], "IPP_PROFILE_DIR": self.profile}
        if kind != "set":
            h = case["hosts"][0][0].partition(":")[0]
            user, _, name = h.rpartition("@")
            e = dict(env, **case["env"])
            if kind == "controller":
                cmd = ["python3", "-m", "ipyparallel.controller"] + case["args"]
            elif kind == "one":
                cmd = ["python3", "-m", "ipyparallel.engine"] + case["args"]
            else:
                cmd = ["python3", "-m", "ipyparallel.cluster", "engines", "-n", str(case["n"]), "--profile-dir", self.profile, "--cluster-id", case["cid"]] + case["args"]
            return [(None, user, name, 22, cmd, e, case["ssh_args"])]
        out = []
        for key, v in case["hosts"]:
            o = v if isinstance(v, dict) else {"n": v}
            user, _, host = key.rpartition("@")
            name, _, port = host.partition(":")
            for i in range(o.get("n", 1)):
                if len(out) == case["n"]:
                    break
                cmd = ["python3", "-m", "ipyparallel.engine"]
                out.append(("%s/%i" % (key, i), user, name, int(port or 22), (cmd if "remote_python" not in o else None, o.get("engine_args", case["args"])),
                            dict(env, **o.get("environment", case["env"])), o.get("ssh_args", case["ssh_args"])))
        return out

    async def start(self):
        self.what = "start"
        kind = self.case["kind"]
        if self.case["twice"] and kind == "set":
            # another launcher with the same configuration, before
            self.ctx.tag("twice")
            self.obj.start(self.case["n"])
            for h in self.hosts.values():
                for p in h.procs.values():
                    with h.cond:
                        p.alive = False
                        h.cond.notify_all()
            self.give_up(self.obj)
            self.hosts.clear()
            del self.logins[:]
            self.new()
        self.watch()
        if kind in ("set", "proxy"):
            self.obj.start(self.case["n"])
        else:
            self.obj.start()
        want = self.expected()
        procs = [p for h in self.hosts.values() for p in h.procs.values()]
        same(len(procs), len(want), "processes started")
        if kind == "set":
            same(sorted(self.obj.launchers), sorted(w[0] for w in want), "engines of the set")
        for ident, user, name, port, cmd, env, opts in want:
            l = self.obj.launchers[ident] if ident else self.obj
            ident = ident or self.obj.identifier
            h = self.hosts.get((user, name, port))
            check(h is not None, "nothing was started on %s@%s:%s, only on %r", user, name, port, sorted(self.hosts))
            check(l.pid in h.procs, "%s was not started on %s@%s:%s", ident, user, name, port)
            r = h.procs[l.pid]
            if isinstance(cmd, tuple):
                if cmd[0] is not None:
                    same(r.cmd[:len(r.cmd) - len(cmd[1])], cmd[0], "command of %s" % ident)
                same(r.cmd[len(r.cmd) - len(cmd[1]):], list(cmd[1]), "arguments of %s" % ident)
            else:
                same(r.cmd, cmd, "command of %s" % ident)
            same(r.env, env, "environment of %s" % ident)
            for c, u, n, po, rest in self.logins:
                if (u, n, po) == (user, name, port):
                    same(rest, list(opts) if c == "ssh" else self.case["scp_args"], "options of %s to %s" % (c, name))
            if kind != "controller":
                for k, f in self.names.items():
                    with open(f, "rb") as fh:
                        same(r.files.get(f), fh.read(), "connection file for %ss on the host of %s when it started" % (k, ident))
            p = Proc(ident, l.pid)
            p.r = r
            p.before = False
            self.procs.append(p)
        check({(u, n, po) for c, u, n, po, rest in self.logins} == {(w[1], w[2], w[3]) for w in want}, "logged in at %r", sorted({l[1:4] for l in self.logins}))
        if kind == "controller":
            for k, f in self.names.items():
                with open(f) as fh:
                    same(fh.read(), "from %s" % k, "fetched connection file for %ss" % k)
        if kind == "set":
            same(self.obj.n, len(want), "n of the set")
        self.invariant()

    def alive(self, p):
        return p.r.alive

    def sigs(self, p):
        return [s for s in p.r.sigs]

    def await_sig(self, p):
        pass

    def say(self, p, text):
        p.r.host.files[p.r.out] += text.encode("utf8", "surrogateescape")

    def end(self, p, code):
        with p.r.host.cond:
            p.r.alive = False
            p.r.host.cond.notify_all()

    def code_ok(self, p, got):
        return got in (None, -1) or got == self.code(p)

    def stop_code(self):
        return None

    def foreign(self):
        known = [p.r for p in self.procs]
        return [r for h in self.hosts.values() for r in h.procs.values() if r not in known]

    def cleanup(self):
        self.over = True
        for o in self.all_objs:
            self.give_up(o)
        for h in self.hosts.values():
            with h.cond:
                for p in h.procs.values():
                    p.alive = False
                h.cond.notify_all()
        for o in self.all_objs:
            for l in [o] + list(getattr(o, "launchers", {}).values()):
                t = getattr(l, "_wait_thread", None)
                if t is not None:
                    t.join(60)
        sys.stdout = self.stdout
        for m, n, v in self.saved:
            setattr(m, n, v)


class Sender:
    """a model of what ShellCommandSend does, on a Host"""

    def __init__(self, world, shell, args, python_path, log=None, **kw):
        same(list(shell), ["ssh"], "command for logging in")
        self.h = world.login("ssh", list(args))
        self.world = world
        self.python = python_path
        self.breakaway_support = None

    @property
    def is_linux(self):
        return True

    def get_shell_info(self):
        return ["Linux", "bash"]

    def has_python(self, python_path=None):
        return True

    def cmd_exists(self, path):
        return path in self.h.files or path in self.h.dirs

    def cmd_mkdir(self, p):
        while p not in self.h.dirs and p not in ("", "/"):
            self.h.dirs.add(p)
            p = os.path.dirname(p)

    def cmd_remove(self, p):
        self.h.files.pop(p, None)

    def cmd_start(self, cmd, env=None, output_file=None):
        h = self.h
        h.npid += 1
        d = os.path.dirname(output_file)
        if d not in h.dirs:
            raise RuntimeError("%s: no such directory" % d)
        h.files[output_file] = b""
        h.procs[h.npid] = Remote(h, h.npid, list(cmd), dict(env or {}), output_file)
        if self.world.case["kind"] == "controller":
            for k, f in self.world.names.items():
                h.files[f] = b"from " + k.encode()
        return h.npid

    def cmd_start_python_module(self, args, env=None, output_file=None):
        return self.cmd_start([self.python, "-m"] + list(args), env, output_file)

    def cmd_running(self, pid):
        return pid in self.h.procs and self.h.procs[pid].alive

    def cmd_kill(self, pid, sig=None):
        p = self.h.procs.get(pid)
        if p is None or not p.alive:
            raise ProcessLookupError(pid)
        sig = signal.SIGTERM if sig is None else signal.Signals(sig)
        with self.h.cond:
            if sig == signal.SIGKILL or sig == signal.SIGTERM and self.world.case["mode"] != "ignore":
                p.alive = False
                self.h.cond.notify_all()
            elif sig != signal.SIGTERM:
                p.sigs.append(sig.name[3:])

    def check_output_python_module(self, args):
        check(list(args)[:3] == ["IPython", "profile", "create"], "ran python -m %r", args)
        d = args[args.index("--profile-dir") + 1]
        for s in ("", "/log", "/security", "/pid", "/startup"):
            self.cmd_mkdir(d + s)
        return ""

    def check_output_python_code(self, code):
        here.host, here.out = self.h, []
        try:
            exec(compile(code, "<remote>", "exec"), {"__name__": "__main__"})
            return "".join(here.out)
        finally:
            here.host = here.out = None


def runner(World):
    def run(case, ctx):
        box = os.path.realpath(tempfile.mkdtemp(prefix="c34-"))
        cwd = os.getcwd()
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        w = None
        try:
            os.chdir(box)
            with guard.contained():
                w = World(case, ctx, box)
                try:
                    loop.run_until_complete(w.history())
                finally:
                    w.cleanup()
        finally:
            os.chdir(cwd)
            loop.run_until_complete(asyncio.sleep(0))
            asyncio.set_event_loop(None)
            loop.close()
            assert "/c34-" in box
            shutil.rmtree(box)
    return run


# -- connection files -----------------------------------------------------------------
def info_strategy():
    from hypothesis import strategies as st

    when = st.sampled_from([0, 0, 0.05, 0.3, 0.7, 1, 2, 4.5, 30, None])
    info = st.dictionaries(st.sampled_from(["key", "location", "ssh", "interface", "pack", "u\u00fc"]), st.one_of(st.text(max_size=5), st.integers(), st.lists(st.integers(), max_size=2)), max_size=4)
    # when a file is there, how long it takes to be written, and what of it is written first
    f = st.fixed_dictionaries({"at": when, "takes": st.sampled_from([0, 0, 0.02, 0.3, 0.9, 2.5, None]), "part": st.integers(0, 30), "info": info})
    return st.fixed_dictionaries({"files": st.tuples(f, f), "dies": st.sampled_from([None, None, None, 0, 0.4, 1.5, 3, 40]), "code": st.integers(0, 3), "timeout": st.sampled_from([None, -1, 0, 0.5, 3, 10]),
                                  "default": st.sampled_from([60, 5, -1]), "poll": st.booleans(), "cluster": st.sampled_from(["", "x"])})


def run_info(case, ctx):
    """get_connection_info, on a clock of its own"""
    from unittest import mock

    from ipyparallel.cluster import launcher as mod

    d = tempfile.mkdtemp(prefix="verif-c34-", dir="/tmp")
    now = [0.0]
    try:
        os.mkdir(os.path.join(d, "security"))
        L = mod.LocalControllerLauncher(profile_dir=d, cluster_id=case["cluster"], connection_info_timeout=case["default"])
        pre = "ipcontroller-%s" % (case["cluster"] + "-" if case["cluster"] else "")
        paths = {"client": os.path.join(d, "security", pre + "client.json"), "engine": os.path.join(d, "security", pre + "engine.json")}
        files = dict(zip(("client", "engine"), case["files"]))
        waited = []

        def look():
            for k, f in files.items():
                if f["at"] is not None and now[0] >= f["at"]:
                    text = json.dumps(f["info"])
                    full = f["takes"] is not None and now[0] >= f["at"] + f["takes"]
                    with open(paths[k], "w") as o:
                        o.write(text if full else text[:min(f["part"], len(text) - 1)])

        async def sleep(t, *a):
            waited.append(t)
            now[0] += max(t, 0.001)
            if now[0] > 500:
                raise Forever()
            look()

        class Forever(BaseException):
            pass

        def blocking(t):
            raise Violation("get_connection_info blocks the event loop for %s s" % t)

        def poll():
            return case["code"] if case["dies"] is not None and now[0] >= case["dies"] else None

        async def apoll():
            return poll()
        L.poll = apoll if case["poll"] else poll
        look()
        timeout = case["default"] if case["timeout"] is None else case["timeout"]
        with mock.patch.object(mod.asyncio, "sleep", sleep), mock.patch.object(mod.time, "sleep", blocking), mock.patch.object(mod.time, "monotonic", lambda: now[0]):
            co = L.get_connection_info() if case["timeout"] is None else L.get_connection_info(timeout=case["timeout"])
            try:
                co.send(None)
                raise HarnessError("not over")
            except StopIteration as e:
                got = ("ok", e.value)
            except (TimeoutError, RuntimeError, ValueError, Forever) as e:
                got = (type(e).__name__, e)
        t = now[0]
        there = max(f["at"] if f["at"] is not None else 1e9 for f in files.values())
        done = max(f["at"] + f["takes"] if f["at"] is not None and f["takes"] is not None else 1e9 for f in files.values())
        dies = 1e9 if case["dies"] is None else case["dies"]
        limit = 1e9 if timeout < 0 else timeout
        slack = 0.25
        if got[0] == "ok":
            same(got[1], {k: f["info"] for k, f in files.items()}, "the connection info")
            check(t >= done and t <= done + slack, "the files are complete after %s s, it is over after %s s", done, t)
        elif got[0] == "Forever":
            check(min(done, dies, limit) > 400, "it is not over, though the files are complete after %s s, the controller dies after %s s, and the timeout is %s", done, case["dies"], timeout)
        elif got[0] == "RuntimeError":
            check(dies <= t <= max(dies, 0.1) + slack and done > dies - 0.11 and str(case["code"]) in str(got[1]), "after %s s: %r, but the files were complete after %s s and the controller dies after %s s", t, got[1], done, case["dies"])
            ctx.tag("dies")
            ctx.nontrivial()
        elif got[0] == "TimeoutError":
            check(limit <= t <= limit + slack and there > limit, "after %s s: %r, the timeout is %s s and the files are there after %s s", t, got[1], timeout, there)
            for k, f in files.items():
                check((paths[k] in str(got[1])) == (f["at"] is None or f["at"] > t), "%s is there after %s s: %r", k, f["at"], got[1])
            ctx.tag("timeout")
            ctx.nontrivial()
        else:
            # a file that is not complete when its time is over
            check(done > t - slack and limit <= t <= max(limit, there) + 0.5 + slack, "after %s s: %r, the files are complete after %s s, the timeout is %s", t, got[1], done, timeout)
            ctx.tag("incomplete")
            ctx.nontrivial()
        if done == 0:
            check(got[0] == "ok" and not waited, "the files are there, and it waits: %r", got)
        if there < done < 400:
            ctx.tag("written slowly")
            ctx.nontrivial()
    finally:
        shutil.rmtree(d)


# -- streamed output --------------------------------------------------------------------
def stream_strategy():
    from hypothesis import strategies as st

    text = st.one_of(st.sampled_from(["a\n", "b", "x y\n\n", "\u2603\n", "end"]), st.text("ab\n ", max_size=6))
    return st.fixed_dictionaries({"out": st.lists(st.tuples(text, st.sampled_from([0, 0, 1, 2])), max_size=5), "code": st.integers(0, 2), "bad": st.sampled_from([False, False, True]), "how": st.sampled_from(["exit", "exit", "stop"])})


def run_stream(case, ctx):
    """at debug level, what a process prints is streamed to stderr, all of it"""
    import io
    import logging
    from unittest import mock

    from ipyparallel.cluster import launcher as mod
    from traitlets.config import Config

    d = tempfile.mkdtemp(prefix="verif-c34-", dir="/tmp")
    log = logging.Logger("c34", logging.DEBUG)
    log.addHandler(logging.NullHandler())
    now = threading.Event()
    said = io.StringIO()
    try:
        chunks = [t.encode() for t, _ in case["out"]]
        if case["bad"]:
            chunks.append(b"\xff\xfe\n")
        script = os.path.join(d, "prog")
        with open(script, "w") as f:
            f.write("#!/bin/bash\n")
            for k, c in enumerate(chunks):
                with open(os.path.join(d, "c%d" % k), "wb") as o:
                    o.write(c)
                f.write("cat %s/c%d\n" % (d, k))
                if k < len(case["out"]) and case["out"][k][1]:
                    f.write("sleep 0.0%d\n" % case["out"][k][1])
            if case["how"] == "stop":
                f.write("trap 'echo bye; exit 3' TERM\ntouch %s/up\nwhile :; do sleep 0.01; done\n" % d)
            f.write("exit %d\n" % case["code"])
        os.chmod(script, 0o755)
        os.makedirs(os.path.join(d, "log"), exist_ok=True)
        L = mod.LocalProcessLauncher(cmd_and_args=[script], profile_dir=d, work_dir=d, log=log, identifier="p", stop_seconds_until_kill=10, output_limit=0)
        real = sys.stderr
        with mock.patch.object(mod.sys, "stderr", said):
            try:
                L.start()
                if case["how"] == "stop":
                    end = time.monotonic() + 10
                    while not os.path.exists(os.path.join(d, "up")) and time.monotonic() < end:
                        time.sleep(0.005)
                    L.process.terminate()
                L._wait_thread.join(10)
                t = L._stream_thread
                # the launcher is told that it stopped
                if L.state == "running":
                    L.notify_stop({"exit_code": case["code"], "pid": L.pid, "identifier": "p"})
                t.join(10)
            finally:
                if L._wait_thread.is_alive():
                    L._popen_process.kill()
                    L._wait_thread.join(10)
                L._stop_waiting.set()
        sys.stderr = real
        check(not t.is_alive(), "the output of a process that is over is streamed for ever")
        want = b"".join(chunks).decode("utf8", "replace") + ("bye\n" if case["how"] == "stop" else "")
        same(said.getvalue(), want, "what is streamed of the output")
        if want:
            ctx.nontrivial()
    finally:
        shutil.rmtree(d)


SUBS = [Sub("info", info_strategy, run_info, quick=700, thorough=30000, weight=0.3), Sub("stream", stream_strategy, run_stream, quick=120, thorough=2000, weight=0.5),
        Sub("local", local_strategy, runner(Local), quick=2400, thorough=40000, weight=2), Sub("ssh", ssh_strategy, runner(Ssh), quick=4000, thorough=60000)]
