"""C14: hubs that save their state and are restarted from it, at any point of a history,
crashes in the middle of a save included; a reference registry with all ids ever announced."""
import builtins
import contextlib
import io
import os
import shutil
import tempfile

from vlib import hubsim
from vlib.runner import Sub, Violation, check, same

PROPERTY = "C14"
RULE = ("cases: histories of registrations, departures and restarts; restarts where some engines are gone by then, or after a crash at a chosen "
        "character or file operation of a save. Non-trivial: a restart with at least one engine registered")
ASSUMPTIONS = ["a file operation either happened or not; characters written before a crash are on disk",
               "the heart monitor is restarted with the hub: each engine still there beats anew",
               "an id is assigned once its registration completed; ids an engine asks for are exempt"]
NOTE = "crashes are exceptions at the n-th character written or at renames and removals below the scratch directory"
SHARDS = 6
QUICK_S = 20
THOROUGH_S = 300

TIMEOUT = 10


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import oplist, weighted

    u = st.integers(0, 7)
    crash = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["write", "write", "write", "rename", "open", "remove"]), st.integers(0, 160)))
    op = weighted(
        (7, st.tuples(st.just("join"), u, st.one_of(st.none(), st.none(), st.none(), st.integers(0, 9)), crash)),
        (3, st.tuples(st.just("leave"), u, st.sampled_from(["unreg", "stop", "bye"]), crash)),
        (1, st.tuples(st.just("reg"), u)),
        (4, st.tuples(st.just("restart"), st.lists(u, max_size=3), crash)),
        (2, st.tuples(st.just("beats"), st.lists(u, max_size=8))),
        (2, st.tuples(st.just("adv"), st.sampled_from([2, 5, 11]))),
    )
    return oplist(op, 22)


class Crash(BaseException):
    pass


class Faults:
    """the process dies at the n-th character written below tmp, or at a file operation"""

    def __init__(self, tmp, spec):
        self.tmp = os.path.realpath(tmp)
        self.kind, self.n = spec or (None, 0)
        self.fired = False

    def mine(self, path):
        try:
            return os.path.realpath(os.fspath(path)).startswith(self.tmp + os.sep)
        except TypeError:
            return False

    def die(self):
        self.fired = True
        raise Crash()

    def __enter__(self):
        faults = self
        real = self.saved = {"open": builtins.open, "replace": os.replace, "rename": os.rename, "remove": os.remove, "unlink": os.unlink}
        if not self.kind:
            return self

        class F:
            def __init__(self, f):
                self.f = f

            def write(self, s):
                if faults.fired:
                    raise Crash()
                if faults.kind == "write" and faults.n < len(s):
                    self.f.write(s[:faults.n])
                    self.f.flush()
                    faults.die()
                faults.n -= len(s)
                return self.f.write(s)

            def __enter__(self):
                return self

            def __exit__(self, *exc):
                self.f.close()

            def __getattr__(self, name):
                return getattr(self.f, name)

        def open_(path, mode="r", *a, **k):
            if faults.mine(path) and any(c in mode for c in "wax+"):
                if faults.fired:
                    raise Crash()
                if faults.kind == "open":
                    if faults.n % 2:
                        real["open"](path, mode, *a, **k).close()
                    faults.die()
                f = real["open"](path, mode, *a, **k)
                return F(f) if faults.kind == "write" else f
            return real["open"](path, mode, *a, **k)

        def wrap(name, kind):
            def op(*a, **k):
                if a and faults.mine(a[0]):
                    if faults.fired:
                        raise Crash()
                    if faults.kind == kind:
                        if faults.n % 2:
                            real[name](*a, **k)
                        faults.die()
                return real[name](*a, **k)
            return op

        builtins.open = open_
        os.replace = wrap("replace", "rename")
        os.rename = wrap("rename", "rename")
        os.remove = wrap("remove", "remove")
        os.unlink = wrap("unlink", "remove")
        return self

    def __exit__(self, *exc):
        builtins.open = self.saved["open"]
        for k in ("replace", "rename", "remove", "unlink"):
            setattr(os, k, self.saved[k])


def run(ops, ctx):
    from ipyparallel.controller.dictdb import DictDB
    from vlib import clock

    tmp = tempfile.mkdtemp(prefix="verif-c14-")
    path = os.path.join(tmp, "engines.json")
    eng = hubsim.make_session(hubsim.KEY, "engine")
    cli = hubsim.make_session(hubsim.KEY, "client")
    mon = hubsim.make_session(hubsim.KEY, "monitor")
    serial = [0]
    names = {}
    live = {}        # uuid -> id
    waiting = {}     # restored engines without a beat: uuid -> deadline
    ever = {}        # id -> uuid, announced
    pending = {}     # uuid -> (id, deadline)
    gone = set()
    box = None

    def start():
        return hubsim.Box(db=DictDB(log=hubsim.quiet_log()), timeout=TIMEOUT, state_file=path, restore=True)

    def engines(b):
        t, c, _ = b.request(cli, b"c", "connection_request", {})
        return {u: int(i) for i, u in c["engines"].items()}

    def announced():
        out = box.notifications()
        for kind, eid, u in out:
            if kind == "registration_notification":
                ever[eid] = u
        return out

    def die(before, after, what):
        """the hub died: the next one has what the state was before or after"""
        nonlocal box
        announced()
        ctx.tag("crash")
        box = start()
        got = engines(box)
        check(got == before or got == after, "after a crash in %s: %r, before %r, after %r", what, got, before, after)
        live.clear()
        live.update(got)
        pending.clear()
        waiting.clear()
        waiting.update({u: clock.now() + TIMEOUT for u in live})
        if live:
            ctx.nontrivial()

    def uuid(i, fresh=False):
        # an engine that left doesn't come back: the next one has another uuid
        if i not in names or (fresh and names[i] in gone):
            serial[0] += 1
            names[i] = "e%d-%d" % (i, serial[0])
        return names[i]

    def beat(us):
        box.mon([b"heartmonitor", b""], mon, "new_heart", {"hearts": us})
        for u in us:
            waiting.pop(u, None)
            if u in pending:
                live[u] = pending.pop(u)[0]

    def register(u, want):
        content = {"uuid": u}
        if want is not None:
            content["id"] = want
        t, c, _ = box.request(eng, b"r", "registration_request", content)
        same(c["status"], "ok", "registration of %s" % u)
        eid = c["id"]
        check(eid not in live.values(), "id %d of a registered engine was given to another", eid)
        if want is None or eid != want:
            check(eid not in ever, "id %d, which %s had, was given to %s", eid, ever.get(eid), u)
        pending[u] = (eid, clock.now() + TIMEOUT)

    def advance(dt):
        end = clock.now() + dt + 0.01
        box.advance(dt)
        for u in [u for u, d in waiting.items() if d <= end]:
            del waiting[u]
            if u in live:
                del live[u]
                gone.add(u)
                ctx.tag("dropped")
        for u in [u for u, (_, d) in pending.items() if d <= end]:
            del pending[u]
            gone.add(u)

    try:
        box = start()
        for op in ops:
            name = op[0]
            if name in ("join", "reg"):
                u = uuid(op[1], fresh=True)
                if u in live:
                    continue
                if u not in pending:
                    register(u, op[2] if name == "join" else None)
                if name == "join":
                    before = dict(live)
                    after = dict(live)
                    after[u] = pending[u][0]
                    with Faults(tmp, op[3]) as faults:
                        try:
                            beat([u])
                        except Crash:
                            pass
                    if faults.fired:
                        die(before, after, "a registration")
                        # what was announced is in use
                        for eid, v in ever.items():
                            if v == u and after.get(u) == eid and u not in live:
                                check(False, "engine %s was announced to clients as %d and is forgotten after a crash", u, eid)
            elif name == "leave":
                u = uuid(op[1])
                if u not in live:
                    continue
                before = dict(live)
                with Faults(tmp, op[3]) as faults:
                    try:
                        if op[2] == "unreg":
                            box.ask(eng, b"r", "unregistration_request", {"id": live[u]})
                        elif op[2] == "stop":
                            box.mon([b"heartmonitor", b""], mon, "stopped_heart", {"hearts": [u]})
                        else:
                            box.mon([b"iopub", b"t"], hubsim.make_session(hubsim.KEY, u), "shutdown_reply", {"status": "ok"})
                    except Crash:
                        pass
                del live[u]
                waiting.pop(u, None)
                gone.add(u)
                if faults.fired:
                    die(before, dict(live), "an unregistration")
                    if u in live:
                        gone.discard(u)
            elif name == "restart":
                for u in pending:
                    gone.add(u)
                announced()
                want = dict(live)
                with Faults(tmp, op[2]) as faults:
                    try:
                        box = start()
                    except Crash:
                        pass
                if faults.fired:
                    # dying while starting
                    ctx.tag("crash_at_start")
                    box = start()
                same(engines(box), want, "engines after a restart")
                pending.clear()
                waiting.clear()
                waiting.update({u: clock.now() + TIMEOUT for u in live})
                if live:
                    ctx.nontrivial()
                    ctx.tag("restart")
                    t, c, _ = box.request(cli, b"c", "queue_request", {"targets": None})
                    same(c["status"], "ok", "queue status after a restart")
                # all but some are still there
                lost = {uuid(i) for i in op[1]}
                here = [u for u in live if u not in lost]
                if here:
                    beat(here)
            elif name == "beats":
                # of those that are there, or not known any more
                us = [uuid(i) for i in op[1]]
                us = list(dict.fromkeys(us))
                if us:
                    beat(us)
            elif name == "adv":
                advance(op[1])
            announced()
            same(engines(box), dict(live), "registered engines")
            # what is on disk
            if os.path.exists(path):
                cp = os.path.join(tmp, "copy.json")
                shutil.copy(path, cp)
                other = hubsim.Box(db=DictDB(log=hubsim.quiet_log()), timeout=TIMEOUT, state_file=cp, restore=True)
                same(engines(other), dict(live), "engines in the state file")
            else:
                check(not live, "no state file with %r registered", live)
        advance(TIMEOUT + 1)
        same(engines(box), dict(live), "registered engines at the end")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


CORPUS = [
    [("join", 0, None, None), ("join", 1, None, None), ("leave", 1, "stop", None), ("restart", [], None), ("restart", [], None), ("join", 2, None, None)],
    [("join", 0, None, None), ("join", 1, None, ("write", 20)), ("join", 2, None, None)],
    [("join", 0, None, None), ("join", 1, None, None), ("restart", [1], None), ("adv", 11), ("restart", [], None)],
    [("join", 0, None, None), ("restart", [], None), ("restart", [], ("write", 5)), ("restart", [], None)],
]
SUBS = [Sub("restarts", strategy, run, quick=1500, thorough=40000, examples=CORPUS)]
