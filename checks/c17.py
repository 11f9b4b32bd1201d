"""C17: the client's record of its messages, against a model that watches what goes in and out."""
import itertools
import warnings

from vlib.runner import HarnessError, Skip, Sub, Violation, check, same as _same

PROPERTY = "C17"
RULE = ("cases: histories of submissions (direct, load-balanced and broadcast views), deliveries in any order, aborts, engines dying and registering, waits with and "
        "without timeout, purges, result queries and resubmissions; the model follows the messages that are delivered to the client. Non-trivial: "
        "an engine died with messages outstanding, a reply was late or aborted, results were purged or taken from the hub, or a blocking wait returned")
ASSUMPTIONS = ["each engine's replies reach the client in the order they were sent", "a task on an engine that dies is failed by the scheduler (C04)"]
SHARDS = 6
QUICK_S = 35
THOROUGH_S = 500


def same(a, b, what, *args):
    _same(a, b, what % args if args else what)


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    i = st.integers(0, 60)
    jobs = weighted(
        (2, st.none()), (2, st.tuples(st.just("int"), i)), (2, st.tuples(st.just("id"), i)), (3, st.tuples(st.just("ar"), i)),
        (5, st.tuples(st.just("list"), st.lists(st.tuples(st.sampled_from(["int", "neg", "id", "ar", "id"]), i), max_size=4), st.sampled_from(["list", "tuple", "set", "gen"]))),
    )
    task = st.tuples(st.sampled_from(["ok", "ok", "ok", "err", "arr", "none", "bad"]), st.integers(0, 99))
    ops = [
        (8, st.tuples(st.just("submit"), st.integers(0, 5), st.sampled_from(["apply", "apply", "execute", "map"]), task, st.integers(0, 63))),
        (8, st.tuples(st.just("step"), st.integers(1, 12))),
        (1, st.just(("run",))),
        (3, st.tuples(st.just("kill"), i, st.booleans())),
        (1, st.just(("engine",))),
        (3, st.tuples(st.just("wait"), jobs, st.sampled_from(["zero", "short", "block", "block"]), st.booleans())),
        (2, st.tuples(st.just("abort"), st.one_of(st.none(), jobs), st.booleans())),
        (3, st.tuples(st.just("get"), jobs, st.booleans(), st.integers(0, 3))),
        (2, st.tuples(st.just("status"), jobs, st.booleans())),
        (2, st.tuples(st.just("purge"), st.one_of(st.just("all"), jobs), st.integers(0, 8))),
        (2, st.tuples(st.just("purge"), st.just(("list", [], "list")), st.integers(1, 15))),
        (1, st.tuples(st.just("hubpurge"), jobs, st.integers(0, 8))),
        (1, st.tuples(st.just("resubmit"), jobs)),
        (1, st.tuples(st.just("bad"), st.integers(0, 5))),
        (1, st.just(("everything",))),
        (3, st.tuples(st.just("output"), i)),
        (2, st.tuples(st.just("outpurge"), i)),
    ]
    return st.fixed_dictionaries({
        "ids": st.one_of(st.integers(1, 4).map(lambda n: list(range(n))), st.lists(st.integers(0, 20), min_size=1, max_size=4, unique=True)),
        "ops": st.lists(weighted(*ops), min_size=1, max_size=16), "picks": st.lists(st.integers(0, 60), min_size=1, max_size=12)})


def task(kind, x):
    import numpy

    from vlib.clientsim import current_shell

    eid = current_shell().user_ns["engine_id"]
    if kind == "err":
        raise ValueError("%s on %s" % (x, eid))
    if kind == "arr":
        return numpy.arange(x + 1) + eid
    if kind == "none":
        return None
    if kind == "bad":
        return [numpy.arange(x * 9.0), BadLoad(), numpy.arange(300)]
    return (x, eid)


class BadLoad:
    """cannot be unpickled"""

    def __reduce__(self):
        return int, ("not an int",)


class Rec:
    def __init__(self, mid, view, kind, uuids, what, ar=None):
        self.mid = mid
        self.view = view
        self.kind = kind            # direct, lb, sub (of a broadcast), orig, cbc
        self.uuids = uuids          # engines that its loss is charged to
        self.what = what            # what it does: (kind, x), or ("code", kind, x) or ("map", ...)
        self.done = False
        self.outcome = None         # ok, err, aborted, engine
        self.reply = None           # the content of the reply
        self.meta = None            # the metadata of the reply
        self.header = None
        self.eid = None
        self.late = False
        self.hub = kind in ("direct", "lb")
        self.label = None


class World:
    def __init__(self, case, ctx):
        from vlib.clientsim import Net

        self.ctx = ctx
        self.net = net = Net(case["ids"], picks=case["picks"], hub=True, depth=1)
        self.c = net.client
        self.recs = {}
        self.order = []
        self.vhist = {}
        self.ars = []              # (ar, [msg ids], single)
        self.names = {e.uuid: i for i, e in net.engines.items()}
        self.purged_hub = set()
        self.fetched = set()       # results that were taken from the hub and are kept
        self.lost_lb = set()
        deliver = net.to_client

        forged = dict(case.get("forge", ()))      # (only in C25)
        self.nforged = itertools.count()

        def to_client(stream, frames):
            spec = forged.get(next(self.nforged))
            if spec:
                self.forge(stream, frames, spec, deliver)
            self.watch(stream, frames)
            deliver(stream, frames)
            if net.errors:
                raise Violation("an exception while a %s message was handled:\n%s" % (stream, net.errors[0]))
            self.invariant("after a %s message" % stream)

        net.to_client = to_client

    def forge(self, stream, frames, spec, deliver):
        """a forged copy arrives first"""
        from vlib import forge

        c, net = self.c, self.net
        fr = forge.forge([bytes(f) for f in frames], spec, [bytes(f) for f in net.session.serialize(net.session.msg("nothing"))])
        seen = set(c.session.digest_history)

        def state():
            return {"outstanding": set(c.outstanding), "by engine": {k: set(v) for k, v in c._outstanding_dict.items() if v}, "history": list(c.history),
                    "results": sorted(c.results), "futures": sorted(m for m, f in c._futures.items() if f.done()), "engines": dict(c._engines),
                    "ids": list(c._ids), "metadata": {m: repr(sorted(md.items())) for m, md in c.metadata.items()},
                    "coalesced": repr(sorted(c._coalesced_msg_ids.items(), key=repr)), "output": sorted(m for m, f in c._output_futures.items() if f.done())}

        alone = not net.calling            # else another thread changes things too
        before, sent = alone and state(), len(net.log)
        deliver(stream, fr)
        net.errors.clear()
        if alone:
            after = state()
            for k in before:
                same(after[k], before[k], "%s after a forged message from %s (%s)", k, stream, spec[0])
            check(len(net.log) == sent, "a forged message made the client send %r", net.log[sent:][:1])
        # (a copied signature is remembered as seen by jupyter_client's Session)
        c.session.digest_history.intersection_update(seen)
        self.ctx.tag("forged_" + stream)
        self.ctx.nontrivial()

    def unpack(self, frames):
        i = frames.index(b"<IDS|MSG>")
        u = self.c.session.unpack
        return u(frames[i + 2]), u(frames[i + 3]), u(frames[i + 4]), u(frames[i + 5])

    def watch(self, stream, frames):
        """what the client is about to get"""
        if stream == "notification":
            header, _, _, content = self.unpack(frames)
            if header["msg_type"] == "unregistration_notification":
                uuid = content["uuid"]
                for r in self.recs.values():
                    if not r.done and uuid in r.uuids:
                        r.done, r.outcome, r.eid, r.meta = True, "engine", None, {"engine": uuid}
                        self.ctx.nontrivial()
                        self.ctx.tag("stranded")
                self.settle()
            return
        if stream not in ("mux", "task", "broadcast"):
            return
        header, parent, meta, content = self.unpack(frames)
        mid = parent["msg_id"]
        if meta.get("is_broadcast") and meta.get("is_coalescing"):
            mid = meta["original_msg_id"]
        r = self.recs.get(mid)
        if r is None:
            raise HarnessError("a reply to %r" % mid)
        if r.done:
            r.late = True
            self.ctx.nontrivial()
            self.ctx.tag("late")
            return
        r.done = True
        r.reply, r.meta, r.header = content, meta, header
        # whether the client has been told about the engine
        r.known = self.names.get(meta.get("engine")) in self.c.ids
        r.outcome = {"ok": "ok", "error": "err", "aborted": "aborted"}[content["status"]]
        if r.outcome == "aborted":
            self.ctx.nontrivial()
            self.ctx.tag("aborted")
        if meta.get("scheduler"):
            r.outcome = "engine"
        if not isinstance(meta.get("engine"), list):
            r.eid = self.names.get(meta.get("engine"))
        self.settle()

    def settle(self):
        """a broadcast is done when all of its parts are"""
        for r in self.recs.values():
            if r.kind == "orig" and all(self.recs[m].done for m in r.what):
                r.done = True

    def outstanding(self):
        return {m for m, r in self.recs.items() if not r.done}

    def invariant(self, when):
        c = self.c
        same(set(c.outstanding), self.outstanding(), "outstanding %s", when)
        same(list(c.history), self.order, "history %s", when)

    def value(self, r):
        """the result of a finished message, as ("ok", v) or ("err", ...)"""
        import numpy

        if r.outcome == "aborted":
            return ("aborted",)
        if r.outcome == "engine":
            return ("err", "EngineError", None)
        if r.what[0] == "code":
            return ("err", "ValueError", str(r.what[2])) if r.what[1] == "err" else ("code", r.reply["execution_count"])
        if r.what[0] == "map":
            return ("ok", [x * 2 for x in r.what[1]])
        k, x = r.what
        if r.kind == "cbc":
            if k in ("err", "bad"):
                return ("err", "ValueError", None)
            out = []
            for u in r.uuids:
                out.append(self.value_of(k, x, self.names[u]))
            return ("ok", out)
        if k == "err":
            return ("err", "ValueError", "%s on %s" % (x, r.eid))
        if k == "bad":
            # it ran, but the client cannot read its result
            return ("err", "ValueError", "invalid literal for int() with base 10: 'not an int'")
        return ("ok", self.value_of(k, x, r.eid))

    def value_of(self, k, x, eid):
        import numpy

        return None if k == "none" else numpy.arange(x + 1) + eid if k == "arr" else (x, eid)

    def judge(self, r, got, what):
        """compare a result (exceptions are given as such)"""
        from checks.c09 import norm
        from ipyparallel import error

        want = self.value(r)
        what = "%s of message %s (%s %r)" % (what, r.mid, r.kind, r.what)
        if want[0] == "aborted":
            check(isinstance(got, error.TaskAborted), "%s: got %r, but it was aborted", what, got)
        elif want[0] == "err":
            if r.late and not isinstance(got, Exception):
                return            # the late result of an engine that was thought dead
            if r.kind == "cbc" and isinstance(got, error.CompositeError):
                return
            check(isinstance(got, error.RemoteError), "%s: got %r, expected %r", what, got, want)
            same(got.ename, want[1], "%s: exception name", what)
            if want[2] is not None:
                same(got.evalue, want[2], "%s: exception value", what)
        elif want[0] == "code":
            same(type(got).__name__, "ExecuteReply", "%s: type", what)
            same(got.execution_count, want[1], "%s: execution count", what)
        else:
            same(norm(got), norm(want[1]), "%s", what)

    def judge_meta(self, r, md, what):
        what = "%s of message %s (%s)" % (what, r.mid, r.kind)
        same(md["msg_id"], r.mid if r.kind != "sub" else r.mid, "msg_id in %s", what)
        want = {"ok": "ok", "err": "error", "aborted": "aborted", "engine": "error"}[r.outcome]
        if r.late:
            return
        same(md["status"], want, "status in %s", what)
        if r.outcome != "engine" and r.kind != "cbc":
            same(md["engine_uuid"], r.meta["engine"], "engine_uuid in %s", what)
            if md["engine_id"] is not None or r.known:
                same(md["engine_id"], r.eid, "engine_id in %s", what)
            same(str(md["completed"])[:26], str(r.header["date"]).replace("T", " ")[:26], "completed in %s", what)
            same(str(md["started"])[:26], str(r.meta["started"]).replace("T", " ")[:26], "started in %s", what)
            check(md["received"] is not None and md["submitted"] is not None, "stamps are missing in %s: %r", what, md)
        if r.label and r.outcome != "engine":
            same(md["label"], r.label, "label in %s", what)


def run(case, ctx):
    import os

    import builtins

    from ipyparallel import error
    from ipyparallel.client import client as cmod
    from ipyparallel.client.asyncresult import AsyncHubResult, AsyncResult

    from vlib.fakes import make_session

    ids = sorted(case["ids"])
    printed = []
    cmod.print = lambda *a, **k: printed.append(a)
    w = World(case, ctx)
    net, c = w.net, w.c
    views = {}

    def view(k):
        """made when used: the engines change"""
        live = c.ids
        if not live:
            return None
        key = (k, tuple(live))
        if key not in views:
            v = [lambda: c[:], lambda: c[live[0]], lambda: c.load_balanced_view(), lambda: c.broadcast_view(), lambda: c.broadcast_view(is_coalescing=True),
                 lambda: c[live[::-2]]][k]()
            views[key] = v
            w.vhist[id(v)] = []
        return views[key]

    def jobs_arg(spec, allow_none=True):
        """(argument, message ids it means) - None if it can't be used"""
        def one(kind, i):
            if kind == "int":
                return (i % len(w.order), [w.order[i % len(w.order)]]) if w.order else None
            if kind == "neg":
                return (-1 - i % len(w.order), [w.order[-1 - i % len(w.order)]]) if w.order else None
            if kind == "id":
                all_ = list(w.recs)
                return (all_[i % len(all_)], [all_[i % len(all_)]]) if all_ else None
            ars = w.ars
            if not ars:
                return None
            ar, mids, _ = ars[i % len(ars)]
            return ar, mids

        if spec is None:
            return (None, sorted(w.outstanding())) if allow_none else None
        if spec[0] != "list":
            return one(*spec)
        items = [one(*s) for s in spec[1]]
        if any(x is None for x in items):
            return None
        mids = [m for _, ms in items for m in ms]
        args = [a for a, _ in items]
        if spec[2] == "set":
            # no order
            args = set(args)
        elif spec[2] == "tuple":
            args = tuple(args)
        elif spec[2] == "gen":
            args = (a for a in list(args))
        return args, mids

    def submit(k, how, task_, mask):
        v = view(k)
        if v is None:
            return
        kind, x = task_
        n = len(c.history)
        before = set(w.recs)
        coal = k == 4
        if k in (3, 4) and any(e.uuid for e in ()):
            return
        if how == "execute" and k in (2, 4) or how == "map" and k in (3, 4):
            how = "apply"
        live = c.ids
        uu = {i: u for i, u in ((i, c._engines[i]) for i in live)}
        label = None
        if how == "apply":
            if k == 2:
                if mask % 3 == 0:
                    label = "label-%i" % mask
                with v.temp_flags(label=label):
                    ar = v.apply_async(task, kind, x)
            else:
                if k in (0, 1, 5) and mask % 3 == 0:
                    label = "label-%i" % mask
                    v.label = label
                ar = v.apply_async(task, kind, x)
                v.label = None
            what = (kind, x)
        elif how == "execute":
            code = "raise ValueError(%i)" % x if kind == "err" else "x%i = %i" % (x, x)
            ar = v.execute(code, block=False)
            what = ("code", kind, x)
        else:
            seq = list(range(mask % 9 + 1))
            ar = v.map(lambda a: a * 2, seq, block=False)
            what = ("map", seq)
        new = c.history[n:]
        w.order.extend(new)
        w.vhist[id(v)].extend(new)
        if k in (3, 4):
            same(len(new), 1, "messages submitted by a broadcast")
            targets = [uu[i] for i in v.targets]
            if coal:
                r = Rec(new[0], v, "cbc", targets, what)
                w.recs[new[0]] = r
                mids = new
            else:
                subs = ["%s_%s" % (new[0], u) for u in targets]
                for m, u in zip(subs, targets):
                    w.recs[m] = Rec(m, v, "sub", [u], what)
                w.recs[new[0]] = Rec(new[0], v, "orig", [], subs)
                mids = subs
        elif k == 2:
            mids = new
            if how == "map":
                same(len(new), len(seq), "messages submitted by a map of %i elements", len(seq))
            for i, m in enumerate(new):
                w.recs[m] = Rec(m, v, "lb", [], what if how != "map" else ("map", seq[i:i + 1]))
        else:
            targets = [v.targets] if isinstance(v.targets, int) else list(v.targets)
            if how == "map":
                targets = targets[:len(new)]
            same(len(new), len(targets), "messages submitted by %s to %r", how, targets)
            parts = None
            if how == "map":
                q, rem = divmod(len(seq), len(targets))
                parts, at = [], 0
                for j in range(len(targets)):
                    e = at + q + (j < rem)
                    parts.append(seq[at:e])
                    at = e
            for j, (m, t) in enumerate(zip(new, targets)):
                w.recs[m] = Rec(m, v, "direct", [uu[t]], what if how != "map" else ("map", parts[j]))
                if t not in net.engines:
                    # the engine is gone, but the client wasn't told yet
                    w.recs[m].hub = "maybe"
            mids = new
        for m in mids:
            w.recs[m].label = label
        same(list(ar.msg_ids), list(mids), "msg_ids of the result")
        w.ars.append((ar, list(mids), k == 1 and how != "map" or k == 2 and how != "map" or k == 4))
        w.invariant("after %s" % how)

    def kill(i, late):
        live = sorted(net.engines)
        if len(live) < 2:
            return
        eid = live[i % len(live)]
        e = net.engines[eid]
        if not late:
            # its replies are lost
            for k in [k for k in net.queues if k[0] == "reply" and k[-1] == e.uuid]:
                for fr in net.queues[k]:
                    m = w.unpack(fr)[1]["msg_id"]
                    if m not in w.recs:
                        continue          # the answer to an abort
                    if k[1] == "task":
                        net.placed[m] = eid
                        w.recs[m].hub = w.recs[m].hub and "maybe"
                    w.recs[m].hub = w.recs[m].hub and "maybe"
                del net.queues[k]
        queued = {w.unpack(fr)[1]["msg_id"] for k, q in net.queues.items() if k[0] == "reply" and k[1] == "task" for fr in q}
        net.kill(eid)
        net.box.advance(30)
        # the task scheduler fails what was on it
        s = make_session(net.key, "scheduler")
        for m, at in sorted(net.placed.items()):
            r = w.recs.get(m)
            if r is None or at != eid or r.done or m in queued or m in w.lost_lb:
                continue
            w.lost_lb.add(m)
            try:
                raise error.EngineError("Engine %r died while running task %r" % (e.uuid, m))
            except error.EngineError:
                content = error.wrap_exception()
            msg = s.msg("apply_reply", content, parent={"msg_id": m, "session": c.session.session, "username": "u", "msg_type": "apply_request", "version": "5.3"},
                        metadata={"status": "error", "engine": e.uuid, "scheduler": True})
            fr = [bytes(b) for b in s.serialize(msg)]
            net.put(("reply", "task", "scheduler"), fr)
            net._monitor(b"outtask", [e.uuid.encode(), net.ident] + fr)

    def wait(spec, how, through):
        obj = c
        if through and views:
            obj = list(views.values())[-1]
        a = jobs_arg(spec)
        if a is None:
            return
        arg, mids = a
        if obj is not c and spec is None:
            mids = list(w.vhist[id(obj)])
        what = "%s.wait(%r)" % (type(obj).__name__, spec)

        def done():
            return all(w.recs[m].done for m in mids)

        if how == "zero":
            want = done()
            same(obj.wait(arg, 0), want, "%s with timeout 0", what)
        elif how == "short":
            want = done()
            same(obj.wait(arg, 0.002), want, "%s with a timeout, while nothing arrives", what)
        else:
            def body():
                # is everything done when it returns?
                if spec is None and obj is c:
                    r = obj.wait(timeout=-1)
                else:
                    r = obj.wait(arg, -1)
                return r, done()
            r, d = net.call(body, what)
            same(r, True, "%s without timeout", what)
            check(d, "%s returned before all were done: %r", what, [m for m in mids if not w.recs[m].done])
            if mids:
                ctx.nontrivial()
                ctx.tag("blocked")
        if obj is not c:
            obj.spin()
            vout = set(obj.outstanding)
            mine = set(w.vhist[id(obj)]) | {m for m, r in w.recs.items() if r.view is obj}
            same(vout, mine & w.outstanding(), "outstanding of the view after %s", what)
            same(list(obj.history), w.vhist[id(obj)], "history of the view")

    def get(spec, block, n):
        a = jobs_arg(spec, allow_none=False)
        if a is None:
            return
        arg, mids = a
        if not mids or spec[0] == "list" and spec[2] == "set":
            return
        recs = [w.recs[m] for m in mids]
        if len(set(mids)) < len(mids) or any(r.kind == "orig" for r in recs):
            return
        local = all(not r.done or m in c._futures or m in c.results for m, r in zip(mids, recs))
        if not local and any(r.kind in ("sub", "cbc") or r.hub == "maybe" or m in w.purged_hub or r.late for m, r in zip(mids, recs)):
            # the hub doesn't know all of them
            return
        owner = bool(n % 2)
        if any(m in w.fetched for m in mids):
            owner = False
        what = "get_result(%r -> %r, owner=%r)" % (spec, mids, owner)
        ar = c.get_result(arg, block=False, owner=owner)
        check(isinstance(ar, AsyncResult), "%s: %r", what, ar)
        same(list(ar.msg_ids), mids, "msg_ids of %s", what)
        ctx.tag("get-hub" if isinstance(ar, AsyncHubResult) else "get-local")
        if not all(r.done for r in recs) and not block:
            return
        if isinstance(ar, AsyncHubResult):
            ctx.nontrivial()

        def body():
            try:
                return ("ok", ar.get(return_exceptions=True))
            except TimeoutError:
                raise
            except Exception as e:
                return ("raised", e)
        if n >= 2:
            same(net.call(lambda: ar.wait(), what), True, "wait() of %s", what)
            check(ar.ready(), "%s is not ready after wait()", what)
        how, got = net.call(body, what)
        if how == "raised":
            raise Violation("%s: get(return_exceptions=True) raised %r" % (what, got))
        single = spec[0] != "list" and not (spec[0] == "ar" and not [s for a_, m_, s in w.ars if a_ is arg][0])
        if single:
            got = [got]
        same(len(got), len(mids), "number of results of %s", what)
        for r, g in zip(recs, got):
            w.judge(r, g, what)
        if isinstance(ar, AsyncHubResult) and not owner:
            w.fetched.update(m for m in mids if m in c.results)

    def status(spec, only):
        a = jobs_arg(spec, allow_none=False)
        if a is None:
            return
        arg, mids = a
        recs = [w.recs[m] for m in mids]
        if len(set(mids)) < len(mids) or any(r.kind not in ("direct", "lb") or r.hub == "maybe" or m in w.purged_hub or r.late or r.outcome == "engine" for m, r in zip(mids, recs)):
            return
        # what the hub has seen
        net.run_callbacks()
        what = "result_status(%r, status_only=%r)" % (mids, only)
        try:
            got = net.call(lambda: c.result_status(arg, status_only=only), what, only=lambda k: k[0] in ("hubq", "hubr"))
        except error.KernelError:
            # the tasks' errors are raised
            got = None
        if got is None:
            check(not only, "%s failed", what)
            # some of them failed
            check(any(w_ and w_[0] in ("err", "aborted") for w_ in [w.value(r) if r.done else None for r in recs]) or any(not r.done for r in recs), "%s failed, though no task did", what)
            return
        pend, comp = sorted(got["pending"]), sorted(got["completed"])
        same(sorted(pend + comp), sorted(mids), "ids in %s", what)
        for m, r in zip(mids, recs):
            if r.done:
                check(m in comp, "%s: %s is finished, but said to be pending", what, m)
            if m in comp and not only:
                check(m in got, "no result for %s in %s", m, what)
                if r.done:
                    w.judge(r, got[m], what)
        ctx.nontrivial(bool(mids))

    def purge(spec, tmask):
        live = c.ids
        targets = [i for j, i in enumerate(live) if tmask >> j & 1]
        if spec == "all":
            arg, mids = "all", None
        else:
            a = jobs_arg(spec, allow_none=False)
            arg, mids = a if a is not None else ([], [])
        what = "purge_local_results(%r -> %r, targets=%r)" % (spec, mids, targets)
        tarr = targets[0] if len(targets) == 1 and tmask > 3 else targets
        snap = (dict(c.results), set(c.metadata))
        meta_engines = {m: c.metadata[m]["engine_uuid"] for m in list(c.metadata) if m != "submitted"}
        if not targets and (arg == [] or isinstance(arg, (list, tuple, set)) and not arg):
            try:
                c.purge_local_results(arg, targets)
            except ValueError:
                return
            raise Violation("%s was accepted" % what)
        if mids is None:
            victims = None
        else:
            uu = [c._engines[t] for t in targets]
            victims = set(mids) | {m for m, u in meta_engines.items() if u in uu or isinstance(u, list) and set(u) & set(uu)}
        bad = w.outstanding() if victims is None else victims & w.outstanding()
        try:
            c.purge_local_results(arg, tarr)
        except RuntimeError as e:
            check(bad, "%s refused: %r", what, e)
            same((dict(c.results), set(c.metadata)), snap, "results and metadata after %s was refused", what)
            return
        check(not bad, "%s accepted, though outstanding: %r", what, bad)
        ctx.nontrivial()
        ctx.tag("purged")
        if victims is None:
            check(not c.results and not c.metadata, "left after %s: %r, %r", what, dict(c.results), dict(c.metadata))
            w.fetched.clear()
        else:
            same(set(c.results), set(snap[0]) - victims, "results after %s", what)
            same(set(c.metadata), snap[1] - victims, "metadata after %s", what)
            w.fetched -= victims
        w.invariant("after %s" % what)

    def hubpurge(spec, tmask):
        a = jobs_arg(spec, allow_none=False)
        arg, mids = a if a is not None else ([], [])
        if not mids:
            return
        net.run_callbacks()
        recs = [w.recs[m] for m in mids]
        db = net.box.hub.db
        before = set(db.get_history())
        what = "purge_hub_results(%r)" % (mids,)
        ok = all(r.kind in ("direct", "lb") and r.done and not r.hub == "maybe" and not r.late for r in recs) and set(mids) <= before
        try:
            net.call(lambda: c.purge_hub_results(arg), what, only=lambda k: k[0] in ("hubq", "hubr"))
        except Exception as e:
            check(not ok, "%s failed: %r", what, e)
            w.purged_hub.update(before - set(db.get_history()))
            return
        same(before - set(db.get_history()), set(mids) & before, "records that %s removed", what)
        w.purged_hub.update(mids)
        ctx.nontrivial()

    def resubmit(spec):
        a = jobs_arg(spec, allow_none=False)
        if a is None:
            return
        arg, mids = a
        recs = [w.recs[m] for m in mids]
        if not mids or len(set(mids)) < len(mids) or spec[0] == "list" and spec[2] in ("set", "gen") or not net.engines:
            return
        if any(r.kind != "lb" or not r.done or r.hub == "maybe" or r.late or m in w.purged_hub or r.outcome == "engine" for m, r in zip(mids, recs)):
            return
        what = "resubmit(%r)" % (mids,)
        ctx.nontrivial()
        ctx.tag("resubmit")
        ar = net.call(lambda: c.resubmit(arg, block=False), what, only=lambda k: k[0] in ("hubq", "hubr"))
        check(len(ar.msg_ids) == len(mids) and not set(ar.msg_ids) & set(w.recs), "msg_ids of %s: %r", what, ar.msg_ids)
        got = net.call(lambda: ar.get(return_exceptions=True), what)
        check(isinstance(got, list) and len(got) == len(mids), "%s: %r", what, got)
        for new, r, g in zip(ar.msg_ids, recs, got):
            r2 = Rec(new, r.view, "lb", [], r.what)
            r2.done = True
            r2.outcome = "err" if r.what[0] == "err" else "ok"
            r2.eid = ar.metadata[got.index(g) if 0 else list(ar.msg_ids).index(new)]["engine_id"]
            check(r2.eid in w.names.values(), "engine_id of %s: %r", what, r2.eid)
            w.judge(r2, g, what)
        w.invariant("after %s" % what)

    def output(i):
        """a task that runs prints something: from then on the client knows where it runs"""
        cand = []
        for m, r in w.recs.items():
            if not r.done and r.kind in ("direct", "lb", "sub"):
                e = net.engines.get(net.placed.get(m)) if r.kind == "lb" else net.engines.get(w.names.get(r.uuids[0])) if r.uuids else None
                if e is not None:
                    cand.append((m, e))
        if cand:
            m, e = cand[i % len(cand)]
            head = {"msg_id": m, "session": c.session.session, "username": "u", "msg_type": "apply_request", "date": "2026-01-01T00:00:00Z", "version": "5.3"}
            net.iopub(e, {"header": head}, "stream", {"name": "stdout", "text": "x\n"})
            net.run(only=lambda k: k[0] == "iopub")
            ctx.tag("output")
            return e.id

    def bad(n):
        v = view(n)
        if v is None or n in (3, 4):
            return
        before = list(v.history)
        try:
            if n == 2:
                v._really_apply(len, [], {}, follow=5.5, block=False)
            elif n == 1:
                v._really_apply(len, [], {}, targets=10**6, block=False)
            else:
                v.execute("a=1", targets=["no"], block=False)
        except Exception:
            pass
        else:
            raise Violation("an invalid submission was accepted")
        same(list(v.history), before, "history of the view after an invalid submission")
        w.invariant("after an invalid submission")

    try:
        for op in case["ops"]:
            if op[0] == "submit":
                submit(*op[1:])
            elif op[0] == "step":
                for _ in range(op[1]):
                    if not net.step():
                        break
            elif op[0] == "run":
                net.run()
            elif op[0] == "kill":
                net.run_callbacks()
                kill(op[1], op[2])
            elif op[0] == "engine":
                e = net.add_engine()
                w.names[e.uuid] = e.id
            elif op[0] == "wait":
                wait(*op[1:])
            elif op[0] == "abort":
                a = jobs_arg(op[1])
                if a is None or not c.ids or not isinstance(a[0], (type(None), str, list, tuple, AsyncResult)) or isinstance(a[0], (list, tuple)) and any(isinstance(x, int) for x in a[0]):
                    continue
                if not a[1]:
                    # engines then abort all that waits
                    continue
                if op[2] and not all(i in net.engines for i in c.ids):
                    # an engine that is dead already never answers
                    continue
                if op[2]:
                    net.call(lambda: c.abort(a[0], block=True), "abort")
                else:
                    c.abort(a[0], block=False)
            elif op[0] == "get":
                get(*op[1:])
            elif op[0] == "status":
                status(*op[1:])
            elif op[0] == "purge":
                purge(*op[1:])
            elif op[0] == "hubpurge":
                hubpurge(*op[1:])
            elif op[0] == "resubmit":
                resubmit(op[1])
            elif op[0] == "bad":
                bad(op[1])
            elif op[0] == "output":
                output(op[1])
            elif op[0] == "outpurge":
                # all that is on one engine, when the client knows that something runs there
                eid = output(op[1])
                if eid in c.ids:
                    purge(("list", [], "list"), 1 << c.ids.index(eid))
            elif op[0] == "everything":
                if w.outstanding():
                    try:
                        net.call(c.purge_everything, "purge_everything")
                    except RuntimeError:
                        pass
                    else:
                        raise Violation("purge_everything with outstanding tasks was accepted")
                    continue
            w.invariant("after %r" % (op,))
        # everything arrives
        net.run()
        for e in list(net.dead):
            pass
        ctx.tag(*["kind-" + r.kind for r in w.recs.values()])
        same(sorted(w.outstanding()), [], "messages outstanding at the end")
        same(c.wait(timeout=0), True, "wait() at the end")
        for ar, mids, single in w.ars:
            check(ar.done(), "a result is not done at the end: %r", mids)
            recs = [w.recs[m] for m in mids]
            if getattr(ar, "_children", None):
                for r, ch in zip(recs, ar._children):
                    w.judge(r, ch.result(), "result at the end")
            for r, md in zip(recs, ar._metadata):
                ar._parse_metadata_dates()
                w.judge_meta(r, md, "metadata")
        for v in views.values():
            v.spin()
            same(set(v.outstanding), set(), "outstanding of a view at the end")
            same(list(v.history), w.vhist[id(v)], "history of a view")
        check("submitted" not in c.metadata, "metadata of a message named 'submitted'")
    finally:
        cmod.__dict__.pop("print", None)
        net.close()


SUBS = [Sub("record", strategy, run, quick=2400, thorough=60000)]
