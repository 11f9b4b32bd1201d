"""C42: waiting for engines, and shutting engines and the hub down."""
import sys
import threading
import time

from vlib.runner import Sub, check, same as _same

PROPERTY = "C42"
RULE = ("cases: histories of engines joining and leaving, engine sets of the cluster stopping, time running out, and waits for engines (any number of them at once, blocking or not, with timeouts, cancelled), with registrations "
        "delivered at any moment, also while a wait begins; and of shutdowns of engines and the hub by one of two clients, with tasks under way and engines that refuse. Non-trivial: two waits at once, or a wait that began too early; "
        "a shutdown of some engines or with an error")
ASSUMPTIONS = ["an engine that leaves fails the waits under way (documented by its error)"]
SHARDS = 6
QUICK_S = 25
THOROUGH_S = 250


def same(a, b, what, *args):
    _same(a, b, what % args if args else what)


# --- waits ---
def wait_strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    wait = st.fixed_dictionaries({"n": st.one_of(st.none(), st.integers(0, 6)), "timeout": st.sampled_from([-1, -1, 0, 0.5, 30]), "block": st.booleans(), "bar": st.booleans(), "meanwhile": st.integers(0, 3)})
    op = weighted((4, st.tuples(st.just("wait"), wait)), (4, st.tuples(st.just("join"))), (4, st.tuples(st.just("deliver"))), (1, st.tuples(st.just("leave"), st.integers(0, 5))),
                  (1, st.tuples(st.just("stop"), st.integers(0, 2))), (1, st.tuples(st.just("time"))), (1, st.tuples(st.just("cancel"), st.integers(0, 3))))
    return st.fixed_dictionaries({
        "n": st.integers(0, 3), "cluster": st.booleans(), "known": st.booleans(), "sets": st.lists(st.integers(1, 3), max_size=3), "ops": st.lists(op, min_size=3, max_size=18)})


class EngineSet:
    """the part of an engine set's launcher that the client uses is the launcher's own"""


def make_set(n, hook):
    from ipyparallel.cluster import launcher

    class Launcher(launcher.BaseLauncher):
        def on_stop(self, f):
            r = super().on_stop(f)
            hook()
            return r

        @property
        def args(self):
            return ["set"]

        def _log_output(self, data):
            pass
    import logging

    log = logging.getLogger("verif-quiet")
    log.disabled = True
    s = Launcher(log=log)
    s.n = n
    s.state = "running"
    return s


class Bar:
    def __init__(self, initial, total):
        self.n, self.total, self.closed = initial, total, False

    def update(self, k):
        check(not self.closed, "the progress bar moves after it was closed")
        self.n += k

    def refresh(self):
        pass

    def close(self):
        self.closed = True


class Cluster:
    def __init__(self, n, engines):
        self.n, self.engines = n, engines


def waiting(t):
    fr = sys._current_frames().get(t.ident)
    return fr is not None and fr.f_code.co_name == "wait" and fr.f_code.co_filename == threading.__file__


def run_wait(case, ctx):
    from concurrent.futures import CancelledError
    from unittest import mock

    from ipyparallel import error, util
    from vlib.clientsim import Net

    net = Net(list(range(case["n"])))
    c = net.client
    notif = (lambda k: k[0] == "notif")
    hooks = []

    def hook():
        if hooks:
            hooks.pop()()

    sets = [make_set(n, hook) for n in case["sets"]]
    others = {}
    for k, s in enumerate(sets):
        # someone else's
        others[k] = []
        s.stop_callbacks.append(lambda d, k=k: others[k].append(("first", d)))
    if case["cluster"]:
        c._trait_values["cluster"] = Cluster((sum(case["sets"]) or 2) if case["known"] else None, {"s%d" % k: s for k, s in enumerate(sets)})
    ids = set(range(case["n"]))     # those the client knows
    coming = []                     # what it will be told
    waits = []
    bars = []

    def told(kind, i):
        """the client is told"""
        if kind == "join":
            ids.add(i)
        else:
            ids.discard(i)
        for w in waits:
            if w["state"] is None:
                if kind == "leave":
                    w["state"] = ("left", i)
                elif len(ids) >= w["n"]:
                    w["state"] = ("ok",)

    def deliver():
        if not coming:
            return False
        told(*coming.pop(0))
        check(net.step(notif), "nothing to deliver")
        return True

    def progress(**kw):
        b = Bar(kw["initial"], kw["total"])
        bars.append(b)
        hook()
        return b

    def outcome(w):
        f = w["future"]
        if f is None:
            t = w["thread"]
            if w["state"] is None:
                return None if t.is_alive() else w["box"].get("r")
            t.join(3)
            if t.is_alive():
                return None
            return w["box"]["r"]
        if not f.done():
            return None
        try:
            return "ok", f.result()
        except BaseException as e:
            return "error", e

    def judge(what):
        for k, w in enumerate(waits):
            got = outcome(w)
            s = w["state"]
            where = "after %s: %s wait for %d engines (%d there)" % (what, "blocking" if w["future"] is None else "non-blocking", w["n"], len(ids))
            if s is None:
                check(got is None, "%s is over too early: %r", where, got)
                continue
            check(got is not None, "%s is not over, though %s", where, {"ok": "they are there", "left": "an engine left", "stop": "an engine set stopped", "time": "its time is over", "cancel": "it was cancelled"}[s[0]])
            if s[0] == "ok":
                check(got == ("ok", None), "%s: %r", where, got)
            elif s[0] == "left":
                check(got[0] == "error" and isinstance(got[1], error.EngineError) and str(s[1]) in str(got[1]), "%s, engine %r left: %r", where, s[1], got)
            elif s[0] == "stop":
                check(got[0] == "error" and isinstance(got[1], error.EngineError) and repr(s[1]) in str(got[1]), "%s, a set stopped with %r: %r", where, s[1], got)
            elif s[0] == "time":
                check(got[0] == "error" and isinstance(got[1], TimeoutError), "%s: %r", where, got)
            elif s[0] == "cancel":
                check(got[0] == "error" and isinstance(got[1], CancelledError), "%s: %r", where, got)

    def begin(spec):
        n = spec["n"]
        want = n
        if n is None:
            if c.cluster is None:
                try:
                    c.wait_for_engines(block=False)
                except TypeError:
                    ctx.tag("no-number")
                    return
                check(False, "a wait for an unknown number of engines began")
            want = c.cluster.n or sum(case["sets"])
        w = {"n": want, "state": None, "future": None, "thread": None, "box": {}, "timeout": spec["timeout"] if spec["timeout"] is not None else -1}
        there = len(ids) >= want
        if there:
            w["state"] = ("ok",)
        elif any(s.state == "after" for s in sets) and c.cluster is not None:
            w["state"] = ("stop", [s for s in sets if s.state == "after"][0].stop_data)
        # while it begins, registrations arrive
        early = []
        if not there and spec["meanwhile"] and spec["bar"]:
            def now():
                for _ in range(spec["meanwhile"]):
                    if coming and coming[0][0] == "join":
                        early.append(coming[0])
                        deliver()
            hooks.append(now)
        kw = {"timeout": w["timeout"], "interactive": spec["bar"]}
        if n is not None:
            kw["n"] = n

        def go():
            if spec["block"]:
                def run():
                    try:
                        w["box"]["r"] = ("ok", c.wait_for_engines(**kw))
                    except BaseException as e:
                        w["box"]["r"] = ("error", e)
                t = w["thread"] = threading.Thread(target=run, daemon=True)
                t.start()
                end = time.monotonic() + 3
                while t.is_alive() and time.monotonic() < end and not waiting(t):
                    time.sleep(0.0003)
            else:
                w["future"] = c.wait_for_engines(block=False, **kw)
                check(w["future"] is not None, "no future")
        go()
        del hooks[:]
        if w["state"] is None and len(ids) >= want:
            w["state"] = ("ok",)
        waits.append(w)
        if early:
            ctx.tag("meanwhile")
            ctx.nontrivial()
        net.run_callbacks()

    with mock.patch.object(util, "progress", progress):
        try:
            for op in case["ops"]:
                if op[0] == "wait":
                    begin(op[1])
                    if sum(w["state"] is None for w in waits) > 1:
                        ctx.nontrivial()
                        ctx.tag("two-waits")
                elif op[0] == "join":
                    e = net.add_engine()
                    coming.append(("join", e.id))
                elif op[0] == "leave" and net.engines:
                    i = sorted(net.engines)[op[1] % len(net.engines)]
                    net.kill(i)
                    coming.append(("leave", i))
                elif op[0] == "deliver":
                    deliver()
                elif op[0] == "stop" and sets:
                    s = sets[op[1] % len(sets)]
                    if s.state != "after":
                        data = {"exit_code": 10 + op[1]}
                        s.stop_callbacks.append(lambda d, k=sets.index(s): others[k].append(("last", d)))
                        s.notify_stop(data)
                        same(others[sets.index(s)], [("first", data), ("last", data)], "others told of the set's stop")
                        if c.cluster is not None:
                            for w in waits:
                                if w["state"] is None:
                                    w["state"] = ("stop", data)
                elif op[0] == "time":
                    net.run_callbacks()
                    net.loop.fire_timeouts()
                    for w in waits:
                        if w["state"] is None and w["timeout"] >= 0:
                            w["state"] = ("time",)
                            ctx.tag("timeout")
                elif op[0] == "cancel":
                    ws = [w for w in waits if w["future"] is not None]
                    if ws:
                        w = ws[op[1] % len(ws)]
                        if w["future"].cancel():
                            check(w["state"] in (None, ("cancel",)), "a finished wait was cancelled")
                            w["state"] = ("cancel",)
                            ctx.tag("cancel")
                judge(op[0])
            while deliver():
                judge("deliver")
            for _ in range(12):
                if all(w["state"] for w in waits):
                    break
                coming.append(("join", net.add_engine().id))
                deliver()
                judge("join and deliver")
            same(len(c._registration_callbacks), 0, "callbacks of finished waits that are left")
            for s in sets:
                if s.state != "after":
                    same(len(s.stop_callbacks), 1, "callbacks of finished waits that engine sets still have (with one of another)")
            net.run_callbacks()
            check(not [h for h in net.loop.timeouts if h[2]], "timeouts of finished waits are left")
            check(not net.errors, "an exception while a message was handled: %s", net.errors[:1])
        finally:
            # let threads go
            for w in waits:
                if w["thread"] is not None and w["thread"].is_alive():
                    for cb in list(c._registration_callbacks):
                        try:
                            cb({"event": "unregister", "id": -1})
                        except Exception:
                            pass
            c.cluster = None
            net.close()


# --- shutting down ---
def shutdown_strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    down = st.fixed_dictionaries({
        "targets": st.sampled_from(["all", "one", None, "one", "some", "some", "last", "one", "slice", "bad", "badlist"]), "pick": st.integers(0, 31), "hub": weighted((4, st.just(False)), (1, st.just(True))),
        "block": st.sampled_from([True, True, False, None]), "via": st.sampled_from(["view", "client", "view", "peer"]), "restart": weighted((9, st.just(False)), (1, st.just(True)))})
    op = weighted((4, st.tuples(st.just("task"), st.integers(0, 5))), (4, st.tuples(st.just("deliver"), st.integers(1, 6))), (8, st.tuples(st.just("down"), down)),
                  (2, st.tuples(st.just("refuse"), st.integers(0, 5))))
    return st.fixed_dictionaries({"ids": st.one_of(st.integers(1, 4).map(lambda n: list(range(n))), st.lists(st.integers(0, 9), max_size=4, unique=True)), "ops": st.lists(op, min_size=4, max_size=14), "picks": st.lists(st.integers(0, 60), min_size=1, max_size=8)})


def task(x):
    return ("done", x)


def run_shutdown(case, ctx):
    from ipyparallel import error
    from vlib.clientsim import Net

    ids = case["ids"]
    net = Net(ids, hub=True, picks=case["picks"])
    c = net.client
    peer = net.add_client().client
    order = sorted(ids)
    tasks = []
    alive = dict(net.engines)
    asked = {i: 0 for i in ids}
    hub_asked = False
    refusing = {}
    try:
        for op in case["ops"]:
            if op[0] == "task" and alive:
                i = sorted(alive)[op[1] % len(alive)]
                tasks.append((i, op[1], c[i].apply_async(task, op[1])))
            elif op[0] == "deliver":
                for _ in range(op[1]):
                    net.step()
            elif op[0] == "refuse" and alive:
                i = sorted(alive)[op[1] % len(alive)]
                refusing[i] = "Refused%d" % i
                alive[i].refuse = {"shutdown_request": {"status": "error", "ename": refusing[i], "evalue": "no", "traceback": [], "engine_info": {"engine_id": i, "engine_uuid": alive[i].uuid}}}
            elif op[0] == "down":
                d = op[1]
                who = peer if d["via"] == "peer" else c
                hub = d["hub"]
                now = sorted(alive)
                t = d["targets"]
                bad = None
                if t in ("all", None):
                    arg, want = t, now
                elif not now:
                    continue
                elif t == "one":
                    arg = now[d["pick"] % len(now)]
                    want = [arg]
                elif t == "last":
                    arg, want = -1, now[-1:]
                elif t == "slice":
                    arg, want = slice(None, None, 2), now[::2]
                elif t == "some":
                    want = [i for k, i in enumerate(now) if d["pick"] >> k & 1] or now[:1]
                    arg = want[::-1] if d["pick"] & 16 else want
                    want = list(arg)
                elif t == "bad":
                    arg, bad, want = 77, IndexError, []
                else:
                    arg, bad, want = [77], (IndexError, KeyError), []
                obj = who
                if d["via"] == "view":
                    if not now or t in ("bad", "badlist"):
                        continue
                    if t in ("all", None):
                        want = [i for k, i in enumerate(now) if d["pick"] >> k & 1] or now
                        obj = c[want]
                    else:
                        # targets that are given do not depend on the view's
                        obj = c[now if d["pick"] & 8 else now[-1:]]
                if hub:
                    want = now
                    if t in ("bad", "badlist"):
                        bad = None
                if d["restart"]:
                    bad, want = NotImplementedError, []
                kw = {"hub": hub, "restart": d["restart"]}
                if d["block"] is not None:
                    kw["block"] = d["block"]
                if t is not None or d["via"] != "view":
                    kw["targets"] = arg
                seen = {}

                def go():
                    try:
                        return "ok", obj.shutdown(**kw)
                    except BaseException as e:
                        return "error", e
                    finally:
                        seen.update({i: [x[0] for x in getattr(e, "control", [])].count("shutdown_request") for i, e in alive.items()})
                        seen["pending"] = [k for k in net.pending() if k[0] == "ctl"]
                what = "%s.shutdown(%s)" % (d["via"], ", ".join("%s=%r" % x for x in sorted(kw.items())))
                got = net.call(go, what)
                blocked = bool(d["block"]) or hub
                if bad:
                    check(got[0] == "error" and isinstance(got[1], bad), "%s: %r", what, got)
                else:
                    for i in want:
                        asked[i] += 1
                    names = [refusing[i] for i in want if i in refusing]
                    if blocked:
                        for i in want:
                            same(seen[i], asked[i], "%s returned; shutdown requests engine %d had got", what, i)
                    if blocked and names:
                        check(got[0] == "error" and isinstance(got[1], error.RemoteError) and got[1].ename in names, "%s, refused by %r: %r", what, names, got)
                        ctx.tag("refused")
                        ctx.nontrivial()
                    else:
                        check(got[0] == "ok" and got[1] is None, "%s: %r", what, got)
                    if 0 < len(want) < len(now):
                        ctx.nontrivial()
                    if hub:
                        ctx.tag("hub")
                        hub_asked = True
                        check(who._closed == (not names), "%s, refused by %r: the client is%s closed", what, names, "" if who._closed else " not")
                net.run()
                for i, e in net.engines.items():
                    rs = [x for x in getattr(e, "control", []) if x[0] == "shutdown_request"]
                    same(len(rs), asked[i], "%s: shutdown requests to engine %d", what, i)
                    check(all(x[1] == {"restart": False} for x in rs), "%s: requests %r", what, rs)
                if hub_asked:
                    other = c if who is peer else peer
                    check(other._closed, "%s: the hub is shut down, but another client is still connected", what)
                    break
                if not bad:
                    # those that are asked, and do not refuse, end
                    for i in want:
                        if i not in refusing:
                            for x in list(net.queues):
                                if x[0] == "exec" and x[1] == alive[i].uuid:
                                    net.run(only=lambda k, x=x: k == x)
                            net.kill(i)
                            alive.pop(i)
                    net.run()
                    for cl in (c, peer):
                        same(cl.ids, sorted(alive), "%s: engines a client knows afterwards", what)
        if not hub_asked:
            net.run()
            for i, x, ar in tasks:
                got = net.call(ar.get, "the result of a task")
                same(got, task(x), "the result of a task of engine %d", i)
            check(not c.outstanding, "outstanding: %r", c.outstanding)
        check(not net.errors, "an exception while a message was handled: %s", net.errors[:1])
    finally:
        net.close()


def control_strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    ask = st.fixed_dictionaries({
        "what": st.sampled_from(["clear", "signal", "abort", "shutdown", "signal", "apply"]), "pick": st.integers(1, 31), "block": st.booleans(),
        # which engines die while it is under way, and after how many more messages
        "deaths": st.lists(st.tuples(st.integers(0, 9), st.integers(0, 4)), max_size=2)})
    op = weighted((2, st.tuples(st.just("task"), st.integers(0, 9))), (2, st.tuples(st.just("deliver"), st.integers(1, 6))), (6, st.tuples(st.just("ask"), ask)),
                  (1, st.tuples(st.just("refuse"), st.integers(0, 9))), (1, st.tuples(st.just("join"))))
    return st.fixed_dictionaries({"n": st.integers(1, 4), "ops": st.lists(op, min_size=2, max_size=10), "hub": st.booleans(), "picks": st.lists(st.integers(0, 60), min_size=1, max_size=8)})


TYPES = {"clear": "clear_request", "signal": "signal_request", "abort": "abort_request", "shutdown": "shutdown_request"}


def run_control(case, ctx):
    from ipyparallel import error
    from vlib.clientsim import Net

    net = Net(list(range(case["n"])), hub=case["hub"], picks=case["picks"])
    c = net.client
    tasks, pending = [], []
    step0 = net.step
    plan = []
    gone = {}
    try:
        def kill(i):
            if i in net.engines:
                gone[i] = net.kill(i)

        def step(only=None):
            while plan and plan[0][1] <= 0:
                kill(plan.pop(0)[0])
            if plan:
                plan[0][1] -= 1
            if step0(only):
                return True
            if plan:
                kill(plan.pop(0)[0])
                return True
            return False

        net.step = step

        def fate(e, k, typ):
            """what a request that is the k-th of its type to an engine may come to"""
            kinds = set()
            if len([x for x in e.control if x[0] == typ]) > k:
                kinds.add("refused" if typ in e.refuse else "ok")
                if typ in e.refuse and k < e.before.get(typ, 0):
                    # when it came, before or after it began to refuse, is not followed
                    kinds.add("ok")
            if not e.alive:
                kinds.add("ok" if typ == "shutdown_request" else "died")
            return kinds

        def judge(p, contents):
            """one answer of each engine"""
            for (e, k), content in zip(p["to"], contents):
                may = fate(e, k, p["typ"])
                if content["status"] == "ok":
                    got = "ok"
                else:
                    got = {"EngineError": "died", "Refused%d" % e.id: "refused"}.get(content["ename"], content["ename"])
                check(got in may, "%s: the outcome for engine %d is %r, should be of %r: %r", p["label"], e.id, got, sorted(may), content)
                if got == "died":
                    ctx.nontrivial()
                    ctx.tag("died")
                    check(str(e.id) in content["evalue"] or e.uuid in content["evalue"], "%s: which engine died is not said: %r", p["label"], content["evalue"])

        for op in case["ops"]:
            now = sorted(i for i in net.engines if i in c.ids)
            for e in net.engines.values():
                e.control = getattr(e, "control", [])
                e.refuse = getattr(e, "refuse", {})
            if op[0] == "join":
                net.add_engine()
                net.run()
            elif op[0] == "deliver":
                for _ in range(op[1]):
                    step()
            elif not now:
                continue
            elif op[0] == "task":
                i = now[op[1] % len(now)]
                tasks.append((net.engines[i], op[1], c[i].apply_async(task, op[1])))
            elif op[0] == "refuse":
                e = net.engines[now[op[1] % len(now)]]
                if not e.refuse:
                    e.before = dict(getattr(e, "asked", {}))
                e.refuse = {t: {"status": "error", "ename": "Refused%d" % e.id, "evalue": "no", "traceback": [], "engine_info": {"engine_id": e.id, "engine_uuid": e.uuid}} for t in ("signal_request", "shutdown_request")}
            elif op[0] == "ask":
                d = op[1]
                want = [i for k, i in enumerate(now) if d["pick"] >> k & 1] or now
                typ = TYPES.get(d["what"])
                to = []
                for i in want:
                    e = net.engines[i]
                    # requests that are on their way come before it
                    e.asked = getattr(e, "asked", {})
                    to.append((e, e.asked.get(typ, 0)))
                    e.asked[typ] = e.asked.get(typ, 0) + 1
                dead = sorted({d1[0] % len(now): d1[1] for d1 in d["deaths"]}.items(), key=lambda x: x[1])
                plan[:] = [[now[x], y] for x, y in dead]
                p = {"to": to, "typ": typ, "label": "%s of engines %r (block=%r)" % (d["what"], want, d["block"])}
                kw = {"targets": want, "block": d["block"]}

                def go():
                    try:
                        if d["what"] == "apply":
                            return "ok", getattr(c[want], "apply_sync" if d["block"] else "apply_async")(task, 5)
                        if d["what"] == "clear":
                            return "ok", c.clear(**kw)
                        if d["what"] == "signal":
                            return "ok", c.send_signal(10, **kw)
                        if d["what"] == "abort":
                            return "ok", c.abort(["none"], **kw)
                        return "ok", c.shutdown(**kw)
                    except BaseException as e:
                        return "error", e

                if d["block"]:
                    got = net.call(go, p["label"] + ", while engines %r die" % [x[0] for x in plan] if plan else p["label"])
                    died = [e.id for e, _ in to if not e.alive]
                    if died and got[0] == "error" and isinstance(got[1], (IndexError, error.NoEnginesRegistered)):
                        # it had left before it was looked up, nothing was sent
                        ctx.tag("left before")
                        for e, _ in to:
                            e.asked[typ] -= 1
                        continue
                    if typ is None:
                        if got[0] == "ok":
                            same(got[1], [task(5)] * len(to), "%s: results", p["label"])
                        else:
                            names = {x[0] for x in got[1].elist} if isinstance(got[1], error.CompositeError) else {getattr(got[1], "ename", type(got[1]).__name__)}
                            check(died and names <= {"EngineError"}, "%s: %r; engines %r died", p["label"], got, died)
                            ctx.nontrivial()
                            ctx.tag("died-blocking")
                        continue
                    fates = [fate(e, k, typ) for e, k in to]
                    must = [x for x in fates if "ok" not in x]
                    if got[0] == "ok":
                        check(got[1] is None and not must, "%s: %r, but the engines' outcomes are %r", p["label"], got, [sorted(x) for x in fates])
                    else:
                        check(isinstance(got[1], (error.RemoteError, error.EngineError)), "%s: %r", p["label"], got)
                        name = getattr(got[1], "ename", None) or type(got[1]).__name__
                        kinds = set().union(*fates)
                        check(("died" in kinds if name == "EngineError" else "refused" in kinds), "%s: %r, but the engines' outcomes are %r", p["label"], got, [sorted(x) for x in fates])
                        if name == "EngineError":
                            ctx.nontrivial()
                            ctx.tag("died-blocking")
                else:
                    got = go()
                    net.run_callbacks()
                    check(got[0] == "ok", "%s: %r", p["label"], got)
                    if typ is None:
                        tasks.extend((e, 5, ar) for (e, _), ar in zip(to, got[1]._children))
                    elif d["what"] != "shutdown":
                        p["future"] = got[1]
                        pending.append(p)
        net.run()
        net.run_callbacks()
        for p in pending:
            check(p["future"].done(), "%s is not over, though all is delivered; engines %r died", p["label"], sorted(gone))
            judge(p, [m["content"] for m in p["future"].result()])
        for e, x, ar in tasks:
            try:
                if hasattr(ar, "get"):
                    got = net.call(ar.get, "the result of a task")
                else:
                    net.call(ar.wait, "the result of a task")
                    got = ar.result()
                    if isinstance(got, Exception):
                        raise got
                same(got, task(x), "the result of a task of engine %d", e.id)
            except error.RemoteError as err:
                check(err.ename == "EngineError" and not e.alive, "the result of a task of engine %d: %r", e.id, err)
        check(not c.outstanding and not c._futures, "left over: %r %r", c.outstanding, list(c._futures))
        check(not net.errors, "an exception while a message was handled: %s", net.errors[:1])
    finally:
        net.close()


SUBS = [Sub("wait", wait_strategy, run_wait, quick=1500, thorough=30000),
        Sub("shutdown", shutdown_strategy, run_shutdown, quick=2000, thorough=10000),
        Sub("control", control_strategy, run_control, quick=800, thorough=10000)]
