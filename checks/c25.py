"""C25: forged messages amid valid traffic.

The histories of C13 (hub), C01-C04 (task scheduler), C16 (broadcast scheduler) and C17 (client) are run with forged
messages in between, under the same oracles, which know nothing of the forged ones: whatever
one of them causes is a disagreement. A disagreement that remains without the forged messages
belongs to those properties and is not judged here."""
from vlib import hubsim
from vlib.runner import HarnessError, Skip, Sub, Violation, check, same

PROPERTY = "C25"
RULE = ("cases: histories of valid traffic with forged messages in between: valid messages that would have an effect, signed with another key, with an "
        "altered, cut, missing or foreign signature, altered in a signed frame, or with frames missing, repeated or swapped. Non-trivial: at "
        "least one forged message was read by the component and valid messages followed")
ASSUMPTIONS = ["buffers are not covered by the signature", "replays are not forgeries"]
SHARDS = 6
QUICK_S = 25
THOROUGH_S = 400

HUB_BASES = ["in", "intask", "out", "outtask", "tracktask", "iopub", "shutdown", "stopped", "purge", "unreg", "reg", "resubmit", "heart"]


def hub_strategy():
    from hypothesis import strategies as st

    from checks import c13
    from vlib import forge
    from vlib.gen import weighted

    base = c13.strategy()
    f = st.tuples(st.just("forge"), st.sampled_from(HUB_BASES), st.integers(0, 9), forge.strategy())
    ops = st.tuples(base, st.lists(st.tuples(st.integers(0, 40), f), min_size=1, max_size=8))

    def mix(t):
        (kind, ops), fs = t
        ops = list(ops)
        for pos, f in fs:
            ops.insert(min(pos, len(ops)), f)
        return (kind, ops)

    return ops.map(mix)


def run_hub(case, ctx):
    differential(case[1], lambda ops, ctx: hub_history((case[0], ops), ctx), ctx)


class Quiet:
    tags = set()
    tier = "quick"

    def tag(self, *a):
        pass

    nontrivial = tag


def differential(ops, run, ctx):
    try:
        run(ops, ctx)
    except Violation:
        try:
            run([op for op in ops if op[0] != "forge"], Quiet())
        except Violation:
            raise Skip("not because of a forged message")
        raise


def hub_history(case, ctx):
    from checks import c13

    kind, ops = case
    w = c13.World(kind, ctx)
    w.box.notifications()
    n = 0
    try:
        for k, op in enumerate(ops):
            if op[0] == "forge":
                if forge_hub(w, *op[1:]):
                    n += 1
                    ctx.tag("forged_" + op[1])
                    ctx.nontrivial(any(o[0] != "forge" for o in ops[k + 1:]))
                # engines are the same, nobody was told anything
                t, c, _ = w.ask("connection_request", {})
                same(c["engines"], {str(i): u for i, u in enumerate(w.engines)}, "engines after a forged message")
                check(not w.box.resubmit.sent, "tasks were resubmitted on a forged request")
            else:
                c13.step(w, op, ctx, {"after": 0})
                w.box.notifications()
            c13.brief(w)
        w.box.advance(21)
        t, c, _ = w.ask("connection_request", {})
        same(c["engines"], {str(i): u for i, u in enumerate(w.engines)}, "engines after a forged message")
        c13.full(w)
    finally:
        w.close()


def forge_hub(w, base, i, spec):
    from checks import c13
    from vlib import forge

    box = w.box
    eng = w.engine_sessions[w.engines[i % len(w.engines)]]
    uuid = w.engines[i % len(w.engines)]
    t = c13.pick(w, i, lambda t: t.submitted)
    p = c13.pick(w, i, lambda t: t.pending and t.queue)
    cli = w.clients[0]
    header = (p or t).msg["header"] if (p or t) else None
    query = None
    if base in ("in", "intask"):
        _, fr = box.frames(cli, "apply_request", {"n": -1}, buffers=[b"b"])
        prefix = [b"in", uuid.encode(), b"c0"] if base == "in" else [b"intask", b"c0"]
    elif base in ("out", "outtask"):
        if not p:
            return False
        u = p.engine or uuid
        _, fr = box.frames(eng, "apply_reply", {"status": "ok"}, parent=header, metadata={"engine": u, "status": "ok"}, buffers=[b"b"])
        prefix = [b"out", b"c0", u.encode()] if p.queue == "mux" else [b"outtask", b"c0"]
    elif base == "tracktask":
        if not p:
            return False
        _, fr = box.frames(w.sched, "task_destination", {"msg_id": c13.mid(p), "engine_id": uuid})
        prefix = [b"tracktask", b"sched"]
    elif base == "iopub":
        if not t:
            return False
        _, fr = box.frames(eng, "stream", {"name": "stdout", "text": "forged"}, parent=t.msg["header"])
        prefix = [b"iopub", b"engine.%s.stdout" % uuid.encode()]
    elif base == "shutdown":
        _, fr = box.frames(eng, "shutdown_reply", {"status": "ok"})
        prefix = [b"iopub", b"engine"]
    elif base in ("stopped", "heart"):
        _, fr = box.frames(w.sched, "stopped_heart" if base == "stopped" else "new_heart", {"hearts": [uuid, "new"]})
        prefix = [b"heartmonitor", b""]
    else:
        query, content = {
            "purge": ("purge_request", {"msg_ids": "all"}),
            "unreg": ("unregistration_request", {"id": i % len(w.engines)}),
            "reg": ("registration_request", {"uuid": "new"}),
            "resubmit": ("resubmit_request", {"msg_ids": [c13.mid(t)] if t and not t.purged else []}),
        }[base]
        _, fr = box.frames(cli, query, content)
        prefix = []
    _, other = box.frames(cli, "nothing", {})
    fr = prefix + forge.forge(fr, spec, other)
    if query:
        before = len(box.query.sent)
        box.run(lambda: box.query.deliver([b"forger"] + fr))
        for r in box.query.sent[before:]:
            idents, m = box.parse(r)
            check(m["content"].get("status") == "error", "a forged %s got %s: %r", query, m["header"]["msg_type"], m["content"])
        del box.query.sent[before:]
        if base == "reg":
            # had it been accepted, it would be live now
            box.mon([b"heartmonitor", b""], w.sched, "new_heart", {"hearts": ["new"]})
    else:
        box.run(lambda: box.monitor.deliver(fr))
    got = box.notifications()
    check(not got, "a forged %s was announced: %r", base, got)
    return True


# ---------------------------------------------------------------------------
SCHED_BASES = ["sub", "sub", "res", "res", "unreg", "reg", "down"]


def sched_strategy():
    from hypothesis import strategies as st

    from vlib import forge, schedsim

    f = st.tuples(st.just("forge"), st.sampled_from(SCHED_BASES), st.integers(0, 9), st.sampled_from(["ok", "error", "unmet"]), forge.strategy())
    base = schedsim.strategy("mixed", max_ops=22)

    def mix(t):
        case, fs = t
        ops = list(case["ops"])
        for pos, f in fs:
            ops.insert(min(pos, len(ops)), f)
        return dict(case, ops=ops)

    return st.tuples(base, st.lists(st.tuples(st.integers(0, 25), f), min_size=1, max_size=8)).map(mix)


def run_sched(case, ctx):
    differential(case["ops"], lambda ops, ctx: sched_history(dict(case, ops=ops), ctx), ctx)


def sched_history(case, ctx):
    from vlib import forge, schedsim

    class Sim(schedsim.Sim):
        def op_forge(self, base, i, kind, spec):
            s = self.client_sessions[i % 3]
            other = [bytes(f) for f in s.serialize(s.msg("nothing"))]
            st = "client"
            if base == "sub":
                fr = [b"client-0"] + [bytes(f) for f in s.serialize(s.msg("apply_request", {"n": -1}))]
            elif base == "res":
                run = [t for t in self.tasks if t.state == "running" and t in t.engine.out]
                if not run:
                    return
                t = run[i % len(run)]
                fr = [bytes(f) for f in self.engine_reply(t, t.engine, kind)]
                st = "engine"
            else:
                live = [e for e in self.engines if e.alive]
                if base == "unreg" and not live:
                    return
                e = live[i % len(live)] if live else None
                mt, c = {"unreg": ("unregistration_notification", {"uuid": e.ident.decode() if e else "", "id": e.idx if e else 0}),
                         "reg": ("registration_notification", {"uuid": "forged", "id": 99}),
                         "down": ("shutdown_notification", {})}[base]
                h = self.hub_session
                fr = [mt.encode()] + [bytes(f) for f in h.serialize(h.msg(mt, c))]
                st = "notifier"
            self.streams[st].deliver(forge.forge(fr, spec, other))
            self.ctx.tag("forged_" + base)
            self.forged = True

    sim = Sim(case, ctx, {"C01", "C02", "C03", "C04"})
    sim.forged = False
    for op in case["ops"]:
        getattr(sim, "op_" + op[0])(*op[1:])
        sim.steady()
        sim.quiescent()
    sim.final()
    ctx.nontrivial(sim.forged and len(sim.tasks) > 0)


# ---------------------------------------------------------------------------
def tree_strategy():
    from hypothesis import strategies as st

    from checks import c16
    from vlib import forge

    f = st.tuples(st.just("forge"), st.sampled_from(["sub", "res", "res", "hop", "hop"]), st.integers(0, 63), forge.strategy())

    def mix(t):
        case, fs = t
        ops = list(case[-1])
        for pos, f in fs:
            ops.insert(min(pos, len(ops)), f)
        return tuple(case[:-1]) + (ops,)

    return st.tuples(c16.strategy(), st.lists(st.tuples(st.integers(0, 30), f), min_size=1, max_size=8)).map(mix)


def run_tree(case, ctx):
    from checks import c16

    differential(case[-1], lambda ops, ctx: c16.run(tuple(case[:-1]) + (ops,), ctx), ctx)


# ---------------------------------------------------------------------------
def client_strategy():
    from hypothesis import strategies as st

    from checks import c17
    from vlib import forge

    return st.tuples(c17.strategy(), st.lists(st.tuples(st.integers(0, 40), forge.strategy()), min_size=1, max_size=12)).map(
        lambda t: dict(t[0], forge=t[1]))


def run_client(case, ctx):
    from checks import c17

    try:
        c17.run(case, ctx)
    except Violation as e:
        if "forged" in str(e):
            raise
        try:
            c17.run(dict(case, forge=[]), Quiet())
        except Violation:
            raise Skip("not because of a forged message")
        raise


SUBS = [
    Sub("hub", hub_strategy, run_hub, quick=700, thorough=20000, weight=2),
    Sub("scheduler", sched_strategy, run_sched, quick=900, thorough=20000, weight=2),
    Sub("tree", tree_strategy, run_tree, quick=400, thorough=15000, weight=2),
    Sub("client", client_strategy, run_client, quick=350, thorough=10000, weight=3),
]
