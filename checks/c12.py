"""C12: a reference registry against the hub, under interleaved registrations, hearts,
failures, unregistrations and time.

The hub is real, on in-memory streams and virtual time; the heart monitor's messages are
generated in one sub and come from a real HeartMonitor with generated beats in the other."""
import contextlib

from vlib import hubsim
from vlib.runner import Sub, check, same

PROPERTY = "C12"
RULE = ("cases: histories of registrations (new, repeated, without uuid, with requested ids), first and failing hearts of any of them (also "
        "queued when a timeout is due), unregistrations by request and by engine shutdown, tasks on engines, time. Non-trivial: at least two "
        "engines got registered and one of: conflict, timeout, failure, task lost")
ASSUMPTIONS = ["messages of one connection arrive in order", "virtual time replaces the wall clock",
               "ids an engine asks for are exempt from increasing order"]
SHARDS = 6
QUICK_S = 20
THOROUGH_S = 300

UUIDS = ["e%d" % i for i in range(6)]


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import oplist, weighted

    u = st.integers(0, 5)
    i = st.integers(0, 8)
    op = weighted(*[
        (5, st.tuples(st.just("reg"), u, st.one_of(st.none(), st.none(), st.none(), i))),
        (1, st.just(("badreg",))),
        (5, st.tuples(st.just("heart"), u)),
        (2, st.tuples(st.just("queued"), u)),
        (2, st.tuples(st.just("stop"), u)),
        (1, st.tuples(st.just("stops"), st.lists(u, min_size=2, max_size=3, unique=True))),
        (1, st.tuples(st.just("hearts"), st.lists(u, min_size=2, max_size=4, unique=True))),
        (2, st.tuples(st.just("unreg"), i)),
        (1, st.tuples(st.just("unregu"), u)),
        (1, st.tuples(st.just("bye"), u)),
        (6, st.tuples(st.just("join"), u)),
        (2, st.tuples(st.just("bounce"), u, st.sampled_from(["bye", "stop", "unregu"]), st.sampled_from([0.5, 1, 4, 9.5]),
                      st.sampled_from([0.5, 4, 7, 9.5, 10.5]))),
        (3, st.tuples(st.just("adv"), st.sampled_from([1, 4, 9.5, 10.5, 25]))),
        (3, st.tuples(st.just("task"), u)),
        (2, st.tuples(st.just("result"), st.integers(0, 9))),
        (2, st.tuples(st.just("lost"), st.integers(0, 9))),
    ])
    return oplist(op, 28)


class Model:
    def __init__(self):
        self.pending = {}   # uuid -> (id, deadline)
        self.live = {}      # uuid -> id
        self.top = -1       # highest id given so far
        self.inflight = []
        self.tasks = []     # dicts


def run(ops, ctx):
    from ipyparallel.controller.dictdb import DictDB
    from vlib import clock

    box = hubsim.Box(db=DictDB(log=hubsim.quiet_log()), timeout=10)
    m = Model()
    eng = hubsim.make_session(hubsim.KEY, "engine")
    cli = hubsim.make_session(hubsim.KEY, "client")
    mon = hubsim.make_session(hubsim.KEY, "monitor")
    stats = {"reg": 0, "hard": 0}
    expected = []

    def finish(u):
        if u in m.pending:
            m.live[u] = m.pending.pop(u)[0]
            expected.append(("registration_notification", m.live[u], u))
            stats["reg"] += 1

    def drain():
        while m.inflight:
            finish(m.inflight.pop(0))

    def leave(u):
        if u in m.live:
            eid = m.live.pop(u)
            expected.append(("unregistration_notification", eid, u))
            for t in m.tasks:
                if t["uuid"] == u and t["state"] == "pending":
                    t["state"] = "stranded"
                    t["due"] = clock.now() + 10
                    stats["hard"] += 1

    def hearts(us, kind="new_heart", flush=True):
        box.mon([b"heartmonitor", b""], mon, kind, {"hearts": us}, flush=flush)

    def register(u, want=None):
        content = {"uuid": u}
        if want is not None:
            content["id"] = want
        t, c, _ = box.request(eng, b"reg-" + u.encode(), "registration_request", content)
        same(t, "registration_reply", "type of the reply to a registration")
        if u in m.live or u in m.pending:
            check(c["status"] == "error", "registration of %s, which is in use, was accepted", u)
            stats["hard"] += 1
            ctx.tag("conflict")
            return
        check(c["status"] == "ok", "registration of %s refused: %r", u, c)
        eid = c["id"]
        used = set(m.live.values()) | {p[0] for p in m.pending.values()}
        check(eid not in used, "id %r given twice: %r %r", eid, m.live, m.pending)
        if want is not None and want not in used:
            same(eid, want, "requested id")
        else:
            check(isinstance(eid, int) and eid > m.top, "id %r after %r was given", eid, m.top)
        same(c.get("connection_info"), {"registration": "E"}, "connection info for engines")
        same(c.get("hb_period"), 3000, "heartbeat period for engines")
        m.top = max(m.top, eid)
        m.pending[u] = (eid, clock.now() + 10)

    def advance(dt):
        end = clock.now() + dt
        box.advance(dt)
        slack = 0.01
        # first hearts waiting to be read count, whenever they are read
        drain()
        for u in [u for u, (_, d) in m.pending.items() if d <= end + slack]:
            del m.pending[u]
            stats["hard"] += 1
            ctx.tag("timeout")
        box.run(box.monitor.pump)
        for t in m.tasks:
            if t["state"] == "stranded" and t["due"] <= end + slack:
                t["state"] = "failed"
                ctx.tag("failed_tasks")

    def result(t, late=False):
        content = {"status": "ok", "n": t["n"]}
        box.mon([b"out", b"client", t["uuid"].encode()], eng, "apply_reply", content, parent=t["msg"]["header"],
                metadata={"engine": t["uuid"], "status": "ok"}, buffers=[b"r%d" % t["n"]])
        drain()
        # (once it was reported as failed, either is fine)
        t["state"] = "either" if t["state"] in ("failed", "either") else "done"

    steps = []
    for op in ops:
        if op[0] == "bounce":
            # comes, leaves and comes back, slowly
            u = op[1]
            steps += [("join", u), (op[2], u), ("adv", op[3]), ("reg", u, None), ("adv", op[4]), ("heart", u)]
        else:
            steps.append(op)
    for op in steps:
        name = op[0]
        if name == "reg":
            register(UUIDS[op[1]], op[2])
        elif name == "badreg":
            t, c, _ = box.request(eng, b"reg-x", "registration_request", {"id": 3})
            check(c["status"] == "error", "registration without uuid: %r", c)
        elif name == "join":
            u = UUIDS[op[1]]
            if u not in m.live and u not in m.pending:
                register(u)
                hearts([u])
                drain()
                finish(u)
        elif name == "heart":
            u = UUIDS[op[1]]
            hearts([u])
            drain()
            finish(u)
        elif name == "hearts":
            us = [UUIDS[i] for i in op[1]]
            hearts(us)
            drain()
            for u in us:
                finish(u)
        elif name == "queued":
            u = UUIDS[op[1]]
            hearts([u], flush=False)
            m.inflight.append(u)
            if u in m.pending:
                ctx.tag("queued_heart")
        elif name == "stop":
            u = UUIDS[op[1]]
            hearts([u], "stopped_heart")
            drain()
            leave(u)
        elif name == "stops":
            us = [UUIDS[i] for i in op[1]]
            hearts(us, "stopped_heart")
            drain()
            for u in us:
                leave(u)
        elif name in ("unreg", "unregu"):
            if name == "unreg":
                eid = op[1]
            else:
                u = UUIDS[op[1]]
                eid = m.live.get(u, m.pending.get(u, (None,))[0])
                if eid is None:
                    continue
            box.ask(eng, b"reg-e", "unregistration_request", {"id": eid})
            # (the notification, not a reply, tells)
            who = [u for u, i in m.live.items() if i == eid]
            if who:
                leave(who[0])
            else:
                for u in [u for u, (i, _) in m.pending.items() if i == eid]:
                    del m.pending[u]
                    ctx.tag("canceled")
                    stats["hard"] += 1
            box.run(box.monitor.pump)
            drain()
        elif name == "bye":
            u = UUIDS[op[1]]
            s = hubsim.make_session(hubsim.KEY, u)
            box.mon([b"iopub", b"engine.x.shutdown_reply"], s, "shutdown_reply", {"status": "ok"})
            drain()
            leave(u)
        elif name == "adv":
            advance(op[1])
        elif name == "task":
            u = UUIDS[op[1]]
            n = len(m.tasks)
            if u in m.live:
                msg, _ = box.mon([b"in", u.encode(), b"client"], cli, "apply_request", {"n": n}, metadata={"n": n}, buffers=[b"x"])
                drain()
                m.tasks.append({"n": n, "msg": msg, "uuid": u, "id": m.live.get(u), "state": "pending"})
        elif name == "result":
            todo = [t for t in m.tasks if t["state"] == "pending" and t["uuid"] in m.live]
            if todo:
                result(todo[op[1] % len(todo)])
        elif name == "lost":
            # sent before the engine left, but seen after that
            todo = [t for t in m.tasks if t["state"] in ("stranded", "failed", "either")]
            if todo:
                result(todo[op[1] % len(todo)])
                ctx.tag("late_result")
                stats["hard"] += 1

        if m.inflight:
            continue   # until they are read
        judge(box, cli, m, expected)
    advance(21)
    advance(1)
    judge(box, cli, m, expected)
    for t in m.tasks:
        check(t["state"] != "stranded", "harness")
    ctx.nontrivial(stats["reg"] >= 2 and stats["hard"] > 0)


def judge(box, cli, m, expected):
    check(not box.query.sent, "unexpected messages: %r", box.query.sent)
    t, c, _ = box.request(cli, b"client", "connection_request", {})
    same(t, "connection_reply", "reply to connection_request")
    same(c["engines"], {str(i): u for u, i in m.live.items()}, "engines reported to clients")
    got = box.notifications()
    check(sorted(map(repr, got)) == sorted(map(repr, expected)), "announced %r, expected %r", got, expected)
    # of one engine, in order
    for u in {e[2] for e in expected}:
        same([g for g in got if g[2] == u], [e for e in expected if e[2] == u], "announcements about %s" % u)
    del expected[:]
    t, c, _ = box.request(cli, b"client", "queue_request", {"targets": None, "verbose": True})
    if m.live:
        same(c["status"], "ok", "queue_request")
        eids = {int(k) for k in c if k.isdigit()}
        same(eids, set(m.live.values()), "engines of queue_request")
        for u, eid in m.live.items():
            mine = [t["msg"]["header"]["msg_id"] for t in m.tasks if t["uuid"] == u and t["id"] == eid and t["state"] == "pending"]
            same(sorted(c[str(eid)]["queue"]), sorted(mine), "queue of engine %d" % eid)
    ids = [t["msg"]["header"]["msg_id"] for t in m.tasks]
    if not ids:
        return
    t, c, bufs = box.request(cli, b"client", "result_request", {"msg_ids": ids, "status_only": False})
    same(c["status"], "ok", "result_request")
    for t in m.tasks:
        mid = t["msg"]["header"]["msg_id"]
        if t["state"] in ("pending", "stranded"):
            check(mid in c["pending"], "%s task is not pending", t["state"])
        else:
            check(mid in c["completed"] and mid not in c["pending"], "%s task (engine %s) is still pending", t["state"], t["uuid"])
            r = c[mid]["result_content"]
            if t["state"] == "either":
                check(r and (r["status"] == "ok" or r["ename"] == "EngineError"), "result of a lost task: %r", r)
            elif t["state"] == "failed":
                check(r["status"] == "error" and r["ename"] == "EngineError", "task of a lost engine: %r", r)
                same(c[mid]["result_metadata"].get("engine"), t["uuid"], "engine of a lost task")
            else:
                same(r, {"status": "ok", "n": t["n"]}, "result of a task")


def beat_strategy():
    from hypothesis import strategies as st

    # per engine: joins at beat j, answers `alive` beats, misses `gap`, and so on
    eng = st.tuples(st.integers(0, 6), st.lists(st.tuples(st.integers(1, 6), st.integers(0, 7)), min_size=1, max_size=4),
                    st.sampled_from(["now", "late", "queued"]))
    return st.tuples(st.integers(1, 4), st.lists(eng, min_size=1, max_size=4), st.integers(8, 26))


def run_beats(case, ctx):
    """registrations and a real heart monitor: an engine that goes on answering stays, one that stops leaves"""
    from ipyparallel.controller.dictdb import DictDB

    from vlib.hbsim import Beats

    misses, engines, nbeats = case
    box = hubsim.Box(db=DictDB(log=hubsim.quiet_log()), timeout=12)
    hb = Beats(misses)
    cli = hubsim.make_session(hubsim.KEY, "client")
    eng = hubsim.make_session(hubsim.KEY, "engine")
    sched = []
    for j, spans, how in engines:
        s = [None] * j
        for alive, gap in spans:
            s += [True] * alive + [False] * gap
        sched.append((s, how))
    # what should be registered
    state = {}
    for b in range(nbeats):
        hb.beat()
        forward(hb, box)
        for i, (s, how) in enumerate(sched):
            u = "e%d" % i
            v = s[b] if b < len(s) else s[-1]
            if v is None:
                continue
            if i not in state:
                t, c, _ = box.request(eng, b"r", "registration_request", {"uuid": u})
                same(c["status"], "ok", "registration")
                state[i] = ["pending", c["id"], 0]
            if v:
                hb.answer(u.encode(), hb.pings[-1], how == "queued")
        # the model: registered when the beat after the first answer notices it; gone after misses+1 silent beats
        box.advance(3)
        t, c, _ = box.request(cli, b"c", "connection_request", {})
        for i, st_ in state.items():
            s, how = sched[i]
            hist = [s[k] if k < len(s) else s[-1] for k in range(b)]   # answers noticed so far (beat b saw those before it)
            answered = [k for k, x in enumerate(hist) if x]
            here = str(st_[1]) in c["engines"]
            if not answered:
                check(not here, "engine %d is registered before any beat", i)
                continue
            silent = 0
            dead = False
            for x in hist[answered[0]:]:
                silent = 0 if x else silent + 1
                dead = dead or silent > misses
            check(here != dead, "engine %d, answers %r, allowance %d: registered %s", i, hist, misses, here)
            if dead:
                ctx.tag("dead")
                ctx.nontrivial()
            elif silent or any(not x for x in hist[answered[0]:]):
                ctx.tag("missed_some")
                ctx.nontrivial()


def forward(hb, box):
    """what the heart monitor told reaches the hub"""
    for fr in hb.take():
        box.run(lambda: box.monitor.deliver(fr))


CORPUS = [
    [("join", 0), ("join", 1), ("task", 0), ("stop", 0), ("join", 0), ("adv", 10.5)],
    [("reg", 0, None), ("unregu", 0), ("adv", 4), ("reg", 0, None), ("adv", 9.5), ("heart", 0), ("join", 1)],
    [("join", 0), ("join", 1), ("task", 0), ("unregu", 0), ("lost", 0), ("adv", 25)],
    [("reg", 0, None), ("queued", 0), ("adv", 25), ("join", 1)],
]
SUBS = [
    Sub("registry", strategy, run, quick=3000, thorough=40000, weight=3, examples=CORPUS),
    Sub("heartbeats", beat_strategy, run_beats, quick=500, thorough=10000, weight=1),
]
