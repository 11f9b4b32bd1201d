"""Model-based driver for the load-balancing scheduler.

``run_case(case, ctx, active)`` interprets a list of operations against a real
TaskScheduler wired to in-memory streams, and judges every message it emits with a
validity predicate (not a re-implementation): a dispatch, reply or monitor record is
either allowed by the rules in ``active`` or a violation.
"""
import json
import random

from vlib import clock

clock.install()

from vlib.fakes import FakeLoop, FakeStream, make_session, quiet_log
from vlib.runner import HarnessError, Violation

KEY = b"scheduler-key"
DELIM = b"<IDS|MSG>"
EPS = 0.2


class T:
    """one task, as the harness sees it"""

    def __init__(self, idx, msg_id):
        self.idx = idx
        self.msg_id = msg_id
        self.state = "new"       # new, waiting, running, done
        self.engine = None
        self.black = set()
        self.errors = 0
        self.outcome = None
        self.ok = None
        self.ran_at = None
        self.replies = []        # frames (after idents) of engine replies sent for it
        self.dispatches = []
        self.queued_at = None
        self.final = 0
        self.ever_dispatched = False


class E:
    def __init__(self, idx, ident):
        self.idx = idx
        self.ident = ident
        self.alive = True
        self.dead_at = None
        self.out = set()         # tasks dispatched there and unanswered
        self.last_assigned = -1
        self.completed = set()
        self.failed = set()


def sat(dep, completed, failed):
    if dep is None or not dep["ids"]:
        return True
    acc = [i for i in dep["ids"] if (dep["success"] and i in completed) or (dep["failure"] and i in failed)]
    return len(set(acc)) == len(set(dep["ids"])) if dep["all"] else bool(acc)


class Sim:
    def __init__(self, case, ctx, active):
        self.ctx = ctx
        self.active = set(active)
        cfg = case["cfg"]
        self.hwm = cfg["hwm"]
        self.scheme = cfg["scheme"]
        random.seed(cfg.get("seed", 0))
        try:
            import numpy

            numpy.random.seed(cfg.get("seed", 0))
        except ImportError:
            pass
        self.loop = FakeLoop()
        self.tasks = []
        self.by_id = {}
        self.engines = []
        self.by_ident = {}
        self.completed = set()
        self.failed = set()
        self.assign_n = 0
        self.mon_in = []
        self.mon_out = {}
        self.mon_track = []
        self.dispatch_log = []
        self.pumping_for = None
        self.leaving = None
        self.client_sessions = [make_session(KEY, "client%d" % i) for i in range(3)]
        self.engine_session = make_session(KEY, "engines")
        self.hub_session = make_session(KEY, "hub")
        self.verify_session = make_session(KEY, "verify")
        from ipyparallel.controller.task_scheduler import TaskScheduler
        from traitlets.config import Config

        self.streams = {n: FakeStream(n, self.loop) for n in ("client", "engine", "mon", "notifier", "query")}
        config = Config()
        config.TaskScheduler.hwm = self.hwm
        config.TaskScheduler.scheme_name = self.scheme
        self.sched_session = make_session(KEY, "scheduler")
        self.sched = TaskScheduler(
            client_stream=self.streams["client"], engine_stream=self.streams["engine"],
            mon_stream=self.streams["mon"], notifier_stream=self.streams["notifier"],
            query_stream=self.streams["query"], loop=self.loop, session=self.sched_session,
            log=quiet_log(), config=config)
        self.viol = None
        self.streams["engine"].on_out = self.guard(self.on_dispatch)
        self.streams["client"].on_out = self.guard(self.on_reply)
        self.streams["mon"].on_out = self.guard(self.on_mon)
        self.sched.start()
        req = self.streams["query"].take()
        if len(req) != 1:
            self.bad("C01 C02 C03 C04", "scheduler asks the hub for its engines: sent %r" % (req,))
        boot = {}
        for _ in range(cfg["engines"]):
            e = self.new_engine()
            boot[str(e.idx)] = e.ident.decode()
        self.hub_send("query", "connection_reply", dict(status="ok", engines=boot))

    # ------------------------------------------------------------------
    def bad(self, props, msg, *a):
        if self.active & set(props.split()):
            raise Violation(msg % a if a else msg)

    def guard(self, f):
        """the component may swallow exceptions raised in its callbacks: keep ours"""

        def g(frames):
            if self.viol is not None:
                return
            try:
                f(frames)
            except (Violation, HarnessError) as ex:
                self.viol = ex

        return g

    def reraise(self):
        if self.viol is not None:
            raise self.viol

    def new_engine(self):
        e = E(len(self.engines), b"engine-%d" % len(self.engines))
        self.engines.append(e)
        self.by_ident[e.ident] = e
        return e

    def hub_send(self, stream, msg_type, content, queue=False):
        s = self.hub_session
        msg = s.msg(msg_type, content)
        idents = [b"registration_notification"] if stream == "notifier" else []
        frames = s.serialize(msg, ident=idents)
        st = self.streams[stream]
        (st.queue_in if queue else st.deliver)(frames)

    def parse(self, frames):
        idents, rest = self.verify_session.feed_identities(list(frames))
        s = self.verify_session
        s.digest_history.clear()
        return idents, s.deserialize(rest)

    # -- events emitted by the scheduler --------------------------------
    def can_run(self, t, e, room=True):
        if room and self.hwm and len(e.out) >= self.hwm:
            return False
        if not e.alive or e in t.black:
            return False
        if t.targets is not None and e.ident not in t.targets:
            return False
        return sat(t.follow, e.completed, e.failed)

    def on_dispatch(self, frames):
        ident = frames[0]
        try:
            idents, msg = self.parse(frames[1:])
        except Exception as ex:
            self.bad("C01 C02 C03 C04", "message to engine %r cannot be read: %r", ident, ex)
            return
        mid = msg["header"]["msg_id"]
        e = self.by_ident.get(ident)
        t = self.by_id.get(mid)
        if e is None or t is None:
            self.bad("C01 C03", "dispatched unknown task %r or to unknown engine %r", mid, ident)
            raise HarnessError("unknown dispatch")
        self.dispatch_log.append((t, e))
        if frames[1:] != t.raw:
            self.bad("C01", "task %d reached the engine altered", t.idx)
        if not e.alive or (self.leaving is e and not self.pumping):
            self.bad("C01 C03 C04", "task %d dispatched to engine %d, which is gone", t.idx, e.idx)
        if t.state == "done":
            self.bad("C01 C02 C04", "task %d dispatched to engine %d after its final reply", t.idx, e.idx)
        if t.state == "running":
            self.bad("C01 C03 C04", "task %d dispatched to engine %d while running on engine %d", t.idx, e.idx, t.engine.idx)
        if t.invalid and not t.maybe_valid:
            self.bad("C02", "task %d depends on an unknown task but was run", t.idx)
        if not sat(t.after, self.completed, self.failed):
            self.bad("C02", "task %d dispatched although its time dependencies %r are not met (completed %r, failed %r)",
                     t.idx, t.after, sorted(self.completed), sorted(self.failed))
        if not sat(t.follow, e.completed, e.failed):
            self.bad("C02", "task %d dispatched to engine %d, where its location dependencies %r were not run", t.idx, e.idx, t.follow)
        if e in t.black:
            self.bad("C04", "task %d dispatched to engine %d again, where it had failed or was unmet", t.idx, e.idx)
        if t.targets is not None and e.ident not in t.targets:
            self.bad("C03", "task %d with targets %r dispatched to %r", t.idx, t.targets, e.ident)
        if self.hwm and len(e.out) >= self.hwm:
            self.bad("C03", "engine %d has %d outstanding tasks (limit %d) and got another", e.idx, len(e.out), self.hwm)
        # scheme
        elig = [x for x in self.engines if self.can_run(t, x) and x is not self.leaving and not self.unread(x)]
        if e in elig:
            if self.scheme == "leastload":
                m = min(len(x.out) for x in elig)
                if len(e.out) != m:
                    self.bad("C03", "leastload sent task %d to engine %d with %d outstanding, although engines with %d were eligible (%r)",
                             t.idx, e.idx, len(e.out), m, [(x.idx, len(x.out)) for x in elig])
                elig = [x for x in elig if len(x.out) == m]
            if self.scheme in ("leastload", "lru"):
                o = min(x.last_assigned for x in elig)
                if e.last_assigned != o:
                    self.bad("C03", "%s sent task %d to engine %d, but %r was assigned longer ago", self.scheme, t.idx, e.idx,
                             [x.idx for x in elig if x.last_assigned == o])
                if len(elig) > 1:
                    self.ctx.tag("scheme_choice")
        # FIFO among equals
        if not t.ever_dispatched:
            for o in self.tasks[: t.idx]:
                if (o.state == "waiting" and not o.ever_dispatched and o.targets == t.targets
                        and o.after == t.after and o.follow == t.follow and sat(o.after, self.completed, self.failed)):
                    self.bad("C03", "task %d dispatched before task %d, submitted earlier with the same constraints", t.idx, o.idx)
                    self.ctx.tag("fifo")
        self.assign_n += 1
        e.last_assigned = self.assign_n
        e.out.add(t)
        t.ever_dispatched = True
        t.dispatches.append(e)
        t.state = "running"
        t.engine = e

    def impossible(self, t, now=False):
        """nothing that can still happen will ever let t run
        (now: and there is nothing it may first wait for)"""

        def dead(dep):
            if dep is None or not dep["ids"]:
                return False
            live = [i for i in dep["ids"]
                    if not (i in self.completed and not dep["success"]) and not (i in self.failed and not dep["failure"])]
            return len(live) < len(dep["ids"]) if dep["all"] else not live

        if dead(t.after) or dead(t.follow):
            return True
        if now and not sat(t.after, self.completed, self.failed):
            return False

        def could(e):
            if e is not None:
                if not e.alive or e in t.black or (t.targets is not None and e.ident not in t.targets) or e is self.leaving:
                    return False
            elif t.targets is not None:
                return False
            if t.follow is None or not t.follow["ids"]:
                return True
            res = []
            for i in t.follow["ids"]:
                if i in self.completed or i in self.failed:
                    here = e is not None and ((t.follow["success"] and i in e.completed) or (t.follow["failure"] and i in e.failed))
                    res.append(here)
                else:
                    res.append(True)
            return all(res) if t.follow["all"] else any(res)

        return not any(could(e) for e in self.engines + [None])

    def on_reply(self, frames):
        try:
            idents, msg = self.parse(frames)
        except Exception as ex:
            self.bad("C01", "reply cannot be read: %r", ex)
            return
        mid = msg["parent_header"].get("msg_id")
        t = self.by_id.get(mid)
        if t is None:
            self.bad("C01", "reply for unknown task %r", mid)
            raise HarnessError("unknown reply")
        if t.state == "done":
            self.bad("C01 C04", "second final reply for task %d", t.idx)
            return
        if idents[0] != t.client:
            self.bad("C01", "reply for task %d sent to %r, submitted by %r", t.idx, idents[0], t.client)
        if msg["header"]["msg_type"] != "apply_reply":
            self.bad("C01", "reply for task %d has type %r", t.idx, msg["header"]["msg_type"])
        body = frames[frames.index(DELIM):]
        content = msg["content"]
        now = clock.now()
        match = [r for r in t.replies if r["body"] == body]
        if match:
            r = match[0]
            e = r["engine"]
            if idents != [t.client, e.ident]:
                self.bad("C01", "reply for task %d has routing %r, expected client %r and engine %r", t.idx, idents, t.client, e.ident)
            if r["kind"] == "unmet":
                self.bad("C04 C01", "unmet dependency of task %d on engine %d was reported as final", t.idx, e.idx)
            if r["kind"] == "error" and r["left"] > 0:
                self.bad("C04", "task %d failed finally with %d retries left", t.idx, r["left"])
            if r is not t.replies[-1]:
                self.bad("C04", "task %d: an outcome other than the last was reported", t.idx)
            t.ok = r["kind"] == "ok"
            t.ran_at = e
            t.outcome = r["kind"]
            (e.completed if t.ok else e.failed).add(mid)
        else:
            ename = content.get("ename") if isinstance(content, dict) else None
            if ename not in ("InvalidDependency", "ImpossibleDependency", "TaskTimeout", "EngineError"):
                self.bad("C01", "reply for task %d is neither an engine's nor a scheduler error: %r", t.idx, content)
            if content.get("status") != "error":
                self.bad("C01", "scheduler error for task %d has status %r", t.idx, content.get("status"))
            if ename == "EngineError":
                e = t.engine
                if t.state != "running" or e is None or e.alive:
                    self.bad("C04 C01", "task %d failed with an engine error but its engine did not die", t.idx)
                elif now < e.dead_at + 5 - EPS:
                    self.bad("C04", "task %d was given up %.1f s after its engine was lost", t.idx, now - e.dead_at)
                elif t.retries - t.errors > 0:
                    self.bad("C04", "task %d failed with an engine error with %d retries left", t.idx, t.retries - t.errors)
                t.ran_at = e
                if e is not None:
                    e.failed.add(mid)
                    e.out.discard(t)
                self.ctx.tag("engine_error")
            else:
                if t.state == "running" and t not in self.just_failed:
                    self.bad("C02 C04 C01", "task %d failed with %s while running", t.idx, ename)
                if ename == "InvalidDependency":
                    if not t.invalid:
                        self.bad("C02", "task %d failed with InvalidDependency, but all its dependencies are known", t.idx)
                    self.ctx.tag("invalid")
                elif ename == "ImpossibleDependency":
                    if t.invalid and t.maybe_invalid_only and not t.maybe_valid:
                        self.bad("C02", "task %d depends on an unknown task and failed with %s", t.idx, ename)
                    if (t.maybe_valid or not t.invalid) and not self.impossible(t):
                        self.bad("C02 C04", "task %d failed as impossible, but it could still run (after %r follow %r targets %r black %r)",
                                 t.idx, t.after, t.follow, t.targets, [x.idx for x in t.black])
                    self.ctx.tag("impossible")
                elif ename == "TaskTimeout":
                    if not t.timeout:
                        self.bad("C04", "task %d without timeout timed out", t.idx)
                    elif t.queued_at is None or now < t.queued_at + t.timeout - EPS:
                        self.bad("C04", "task %d timed out after waiting %r s (timeout %r)", t.idx,
                                 None if t.queued_at is None else now - t.queued_at, t.timeout)
                    self.ctx.tag("timeout")
            t.ok = False
            t.outcome = ename
        t.state = "done"
        (self.completed if t.ok else self.failed).add(mid)
        t.reply = body

    def on_mon(self, frames):
        topic = frames[0]
        if topic == b"intask":
            self.mon_in.append(frames[1:])
        elif topic == b"outtask":
            try:
                idents, msg = self.parse(frames[1:])
            except Exception as ex:
                self.bad("C01", "completion record cannot be read: %r", ex)
                return
            mid = msg["parent_header"].get("msg_id")
            body = frames[frames.index(DELIM):]
            self.mon_out.setdefault(mid, []).append((idents, body))
        elif topic == b"tracktask":
            try:
                idents, msg = self.parse(frames[1:])
            except Exception as ex:
                self.bad("C01", "dispatch record cannot be read: %r", ex)
                return
            self.mon_track.append((msg["content"].get("msg_id"), msg["content"].get("engine_id"), idents))

    @property
    def pumping(self):
        return self._pump > 0

    _pump = 0
    just_failed = ()

    # -- operations --------------------------------------------------------
    def resolve_dep(self, spec, own):
        if spec is None:
            return None
        rel, all_, (s, f), extra = spec
        ids = []
        for r in rel:
            if self.tasks:
                i = self.tasks[-1 - (r % len(self.tasks))].msg_id
                if i not in ids:
                    ids.append(i)
        if extra == "unknown":
            ids.append("nonexistent-task")
        elif extra == "self":
            ids.append(own)
        if not ids:
            return None
        return {"ids": ids, "all": all_, "success": s, "failure": f}

    def op_sub(self, client, targets, after, follow, retries, timeout, nbuf):
        sess = self.client_sessions[client % 3]
        header = sess.msg_header("apply_request")
        t = T(len(self.tasks), header["msg_id"])
        t.client = b"client-%d" % (client % 3)
        t.header = header
        t.after = self.resolve_dep(after, t.msg_id)
        t.follow = self.resolve_dep(follow, t.msg_id)
        t.retries = retries
        t.timeout = timeout
        t.targets = None
        if targets is not None and self.engines:
            t.targets = sorted({self.engines[i % len(self.engines)].ident for i in targets})
            if not t.targets:
                t.targets = None
        md = {}
        if t.targets is not None:
            md["targets"] = [x.decode() for x in t.targets]
        for name in ("after", "follow"):
            d = getattr(t, name)
            if d is not None:
                md[name] = {"dependencies": d["ids"], "all": d["all"], "success": d["success"], "failure": d["failure"]}
            elif retries % 2:
                md[name] = {}
        if retries or client == 1:
            md["retries"] = retries
        if timeout:
            md["timeout"] = timeout
        bufs = [b"buffer-%d-%d" % (t.idx, i) * (i + 1) for i in range(nbuf)]
        msg = sess.msg("apply_request", {"n": t.idx}, header=header, metadata=md)
        t.raw = [t.client] + sess.serialize(msg) + bufs
        known = set(self.by_id)

        def invalid(d):
            return d is not None and any(i not in known for i in d["ids"])

        t.invalid = invalid(t.after) or invalid(t.follow)
        # an any-mode time dependency that is already satisfied may be dropped before it is validated
        t.maybe_valid = (not invalid(t.follow)) and invalid(t.after) and sat(t.after, self.completed, self.failed)
        t.maybe_invalid_only = not self.impossible(t) if t.invalid else False
        self.tasks.append(t)
        self.by_id[t.msg_id] = t
        t.state = "waiting"
        t.queued_at = clock.now()
        self.streams["client"].deliver(t.raw)
        if t.invalid and not t.maybe_valid and t.state != "done":
            self.bad("C02", "task %d depends on an unknown task or itself and did not fail at once", t.idx)
        if t.after or t.follow:
            self.ctx.tag("deps")

    def engine_reply(self, t, e, kind, nbuf=0):
        md = {"engine": e.ident.decode(), "status": "ok" if kind == "ok" else "error"}
        content = {"status": md["status"]}
        if kind == "ok" and nbuf % 2:
            md["dependencies_met"] = True
        if kind == "unmet":
            md["dependencies_met"] = False
            content.update(ename="UnmetDependency", evalue="", traceback=[])
        elif kind == "error":
            content.update(ename="ZeroDivisionError", evalue="x%d" % len(t.replies), traceback=["tb"])
        s = self.engine_session
        msg = s.msg("apply_reply", content, parent=t.header, metadata=md)
        frames = s.serialize(msg) + [b"result-%d" % i for i in range(nbuf)]
        return [e.ident, t.client] + frames

    def send_result(self, t, e, kind, nbuf, queue=False):
        frames = self.engine_reply(t, e, kind, nbuf)
        body = frames[frames.index(DELIM):]
        left = t.retries - t.errors
        accepted = t.state == "running" and t.engine is e and t in e.out
        if accepted:
            t.replies.append({"body": body, "engine": e, "kind": kind, "left": left})
        pend = (t, e, kind, left, accepted)
        if queue:
            self.queued.append((frames, pend))
            e.reserved.add(t) if hasattr(e, "reserved") else None
            return
        self.deliver_result(frames, pend)

    def deliver_result(self, frames, pend):
        t, e, kind, left, accepted = pend
        if not accepted:
            # a stale answer from an engine that was already given up on
            self.streams["engine"].deliver(frames)
            self.ctx.tag("stale_result")
            return
        self.before_result(pend)
        self._pump += 1
        try:
            self.streams["engine"].deliver(frames)
        finally:
            self._pump -= 1
        self.after_result(pend)

    def before_result(self, pend):
        t, e, kind, left, accepted = pend
        e.out.discard(t)
        if kind == "unmet" or (kind == "error" and left > 0):
            t.black.add(e)
            t.state = "waiting"
            t.engine = None
            t.queued_at = clock.now()
            if kind == "error":
                t.errors += 1
            self.ctx.tag("retry" if kind == "error" else "unmet")

    def after_result(self, pend):
        t, e, kind, left, accepted = pend
        if kind == "ok" or (kind == "error" and left <= 0):
            if t.state != "done" and self.viol is None:
                self.bad("C01 C04", "result of task %d (%s) was not passed on to the client", t.idx, kind)

    def op_res(self, i, kind, nbuf):
        run = [t for t in self.tasks if t.state == "running" and t in t.engine.out]
        if not run:
            return
        t = run[i % len(run)]
        self.send_result(t, t.engine, kind, nbuf)

    def op_burst(self, items):
        for i, kind in items:
            self.op_res(i, kind, 0)

    def op_reg(self, via):
        if len(self.engines) >= 9:
            return
        e = self.new_engine()
        # the hub knows the engine under this uuid; it is announced to the scheduler
        self.hub_send("notifier", "registration_notification", dict(uuid=e.ident.decode(), id=e.idx), queue=(via == "inflight"))
        if via == "both":
            self.hub_send("query", "connection_reply", dict(status="ok", engines={str(e.idx): e.ident.decode()}))
            self.ctx.tag("announced_twice")

    def op_unreg(self, i, inflight):
        """the engine is announced as gone; some of its results may be in flight (read by then)"""
        live = [e for e in self.engines if e.alive]
        if not live:
            return
        e = live[i % len(live)]
        self.streams["notifier"].pump()
        pends = []
        st = self.streams["engine"]
        if inflight:
            for n, t in enumerate(sorted(e.out, key=lambda t: t.idx)):
                if n >= len(inflight):
                    break
                kind = inflight[n]
                frames = self.engine_reply(t, e, kind, 0)
                body = frames[frames.index(DELIM):]
                left = t.retries - t.errors
                t.replies.append({"body": body, "engine": e, "kind": kind, "left": left})
                pends.append((frames, (t, e, kind, left, True)))
            self.ctx.tag("inflight_at_unreg")
        self.leaving = e
        # flush() of the engine stream inside the notification handler reads these
        sim = self
        orig_cb = st._cb

        def reading(raw):
            frames = [f.bytes if hasattr(f, "bytes") else bytes(f) for f in raw]
            for fr, p in list(pends):
                if fr == frames:
                    sim.before_result(p)
                    sim._pump += 1
                    try:
                        orig_cb(raw)
                    finally:
                        sim._pump -= 1
                    sim.after_result(p)
                    pends.remove((fr, p))
                    return
            orig_cb(raw)

        st._cb = reading
        for fr, p in pends:
            st.queue_in(fr)
        try:
            self.hub_send("notifier", "unregistration_notification", dict(uuid=e.ident.decode(), id=e.idx))
            e.alive = False
            e.dead_at = clock.now()
            self.leaving = None
            st.pump()  # results read later
        finally:
            self.leaving = None
            st._cb = orig_cb
        e.alive = False
        self.ctx.tag("unreg")

    def op_die(self, i, late):
        """a (preferably busy) engine is lost and its grace period passes; perhaps it answers then"""
        live = [e for e in self.engines if e.alive]
        busy = [e for e in live if e.out]
        if not busy:
            return
        e = busy[i % len(busy)]
        self.op_unreg(live.index(e), [])
        self.steady()
        self.quiescent()
        self.op_adv(5.5)
        if late:
            self.steady()
            self.op_late(i, late)

    def op_late(self, i, kind):
        """an engine that was announced as gone answers after all"""
        cands = []
        for t in self.tasks:
            for e in t.dispatches:
                if not e.alive and not any(r["engine"] is e for r in t.replies):
                    cands.append((t, e))
        if not cands:
            return
        t, e = cands[i % len(cands)]
        self.send_result(t, e, kind, 0)

    def op_adv(self, secs):
        # engines lost for more than 5 s: their unanswered tasks are retried or failed
        deadline_dead = clock.now() + secs
        self.stranding = True
        self.advance(secs)

    def advance(self, secs):
        sim = self
        # when a lost engine's grace period ends its tasks are failed or retried: let the
        # model know at the moment the timer fires
        def step():
            now = clock.now()
            for e in sim.engines:
                if not e.alive and e.dead_at is not None and now >= e.dead_at + 5 - EPS and not getattr(e, "stranded", False):
                    e.stranded = True
                    for t in sorted(e.out, key=lambda t: t.idx):
                        if t.state == "running" and t.engine is e and t.retries - t.errors > 0:
                            t.black.add(e)
                            t.errors += 1
                            t.state = "waiting"
                            t.engine = None
                            t.queued_at = now
                            e.out.discard(t)
                            sim.ctx.tag("death_retry")
        self.loop.advance(secs, step=step)
        self.reraise()
        now = clock.now()
        for e in self.engines:
            if not e.alive and e.dead_at is not None and now > e.dead_at + 5 + EPS:
                for t in list(e.out):
                    if t.state == "running" and t.engine is e:
                        self.bad("C04 C01", "task %d was on engine %d, lost %.1f s ago, and was neither failed nor retried",
                                 t.idx, e.idx, now - e.dead_at)
        for t in self.tasks:
            if t.state == "waiting" and t.timeout and now > t.queued_at + t.timeout + EPS:
                self.bad("C04", "task %d has been waiting %.1f s, its timeout is %.1f s", t.idx, now - t.queued_at, t.timeout)

    # -- checks ------------------------------------------------------------
    def steady(self):
        """after every operation"""
        self.reraise()
        for t in self.tasks:
            if t.state != "waiting" or not sat(t.after, self.completed, self.failed):
                continue
            for e in self.engines:
                if self.can_run(t, e) and not self.unread(e):
                    self.bad("C03 C02" if (t.after or t.follow) else "C03",
                             "task %d waits although engine %d could run it now (after %r follow %r targets %r)",
                             t.idx, e.idx, t.after, t.follow, t.targets)
            if self.hwm and t.ever_dispatched is False:
                self.ctx.tag("queued")

    def unread(self, e):
        """whether the registration of e is still in flight"""
        return any(e.ident in b"".join(m) for m in self.streams["notifier"].inflight)

    def quiescent(self):
        """nothing is running: whoever still waits must have a reason"""
        self.reraise()
        if any(t.state == "running" for t in self.tasks):
            return
        live = [e for e in self.engines if e.alive and not self.unread(e)]
        if not live:
            return
        for t in self.tasks:
            if t.state == "waiting" and self.impossible(t, now=True):
                self.bad("C01 C02", "task %d can never run (after %r follow %r targets %r failed on %r), but got no reply",
                         t.idx, t.after, t.follow, t.targets, [e.idx for e in t.black])

    def drain(self):
        self.streams["notifier"].pump()
        for rnd in range(200):
            self.advance(0.01)
            run = [t for t in self.tasks if t.state == "running" and t.engine.alive]
            if not run:
                if any(t.state == "running" for t in self.tasks):
                    self.advance(5.5)
                    continue
                break
            for t in run:
                if t.state == "running" and t.engine.alive:
                    self.send_result(t, t.engine, "ok", 0)
                    self.steady()
        else:
            self.bad("C01", "tasks keep being dispatched")
        self.steady()
        self.quiescent()

    def final(self):
        self.drain()
        if any(t.timeout and t.state == "waiting" for t in self.tasks):
            self.advance(40)
            self.drain()
        # a last engine: whoever waited for a new engine gets it
        if any(t.state == "waiting" for t in self.tasks):
            self.op_reg("now")
            self.drain()
        live = [e for e in self.engines if e.alive]
        for t in self.tasks:
            if t.state == "waiting" and live:
                # only tasks waiting for another waiting task, or for yet another engine, may remain
                if t.targets is None and t.after is None and t.follow is None and any(e not in t.black for e in live):
                    self.bad("C01", "task %d is never run nor failed", t.idx)
            if t.state == "running" and t.engine.alive:
                self.bad("C01", "task %d never finished", t.idx)
        # monitor
        if [f for f in self.mon_in] != [t.raw for t in self.tasks]:
            self.bad("C01", "submission records on the monitor stream: %d for %d tasks", len(self.mon_in), len(self.tasks))
        for t in self.tasks:
            recs = self.mon_out.get(t.msg_id, [])
            if t.state == "done":
                if len(recs) != 1:
                    self.bad("C01", "%d completion records on the monitor stream for task %d (%s)", len(recs), t.idx, t.outcome)
                idents, body = recs[0]
                if body != t.reply:
                    self.bad("C01", "completion record of task %d differs from the reply", t.idx)
                if t.client != idents[0]:
                    self.bad("C01", "completion record of task %d names client %r", t.idx, idents)
            elif recs:
                self.bad("C01", "completion record for unfinished task %d", t.idx)
        want = [(t.msg_id, e.ident.decode()) for t, e in self.dispatch_log]
        got = [(m, e) for m, e, _ in self.mon_track]
        if want != got:
            self.bad("C01", "dispatch records %r differ from dispatches %r", got, want)


def run_case(case, ctx, active):
    sim = Sim(case, ctx, active)
    ctx.tag("hwm%d" % min(sim.hwm, 3), sim.scheme)
    for op in case["ops"]:
        name, args = op[0], op[1:]
        getattr(sim, "op_" + name)(*args)
        sim.steady()
        sim.quiescent()
    sim.final()
    n = sum(1 for t in sim.tasks if t.ever_dispatched)
    ctx.nontrivial(len(sim.tasks) >= 2 and n >= 1)
    return sim


# ---------------------------------------------------------------------------
def strategy(emphasis="mixed", max_ops=40):
    from hypothesis import strategies as st

    small = st.integers(0, 7)
    flags = st.sampled_from([(True, False), (True, False), (False, True), (True, True)])
    extra = st.sampled_from([None] * 9 + ["unknown", "self"])
    dep = st.tuples(st.lists(small, min_size=1, max_size=3), st.booleans(), flags, extra)
    no = st.none()
    w = {
        "mixed": dict(dep=2, tgt=2, retry=2, to=1, death=2),
        "deps": dict(dep=6, tgt=1, retry=1, to=0, death=1),
        "place": dict(dep=1, tgt=4, retry=1, to=0, death=1),
        "faults": dict(dep=1, tgt=2, retry=5, to=3, death=4),
        "flow": dict(dep=1, tgt=1, retry=2, to=1, death=3),
    }[emphasis]

    def maybe(s, weight):
        return st.sampled_from([0] * 4 + [1] * weight).flatmap(lambda x: s if x else no)

    targets = maybe(st.lists(small, min_size=1, max_size=3), w["tgt"])
    retries = st.sampled_from([0] * 5 + [1, 2, 3, 1][: max(1, w["retry"])])
    timeout = st.sampled_from([None] * 6 + [1.0, 3.0, 8.0, 30][: w["to"]]) if w["to"] else no
    sub = st.tuples(st.just("sub"), st.integers(0, 2), targets, maybe(dep, w["dep"]), maybe(dep, w["dep"]), retries, timeout, st.integers(0, 2))
    kind = st.sampled_from(["ok"] * 4 + ["error"] * (1 + w["retry"]) + ["unmet"] * (1 + w["retry"] // 2))
    res = st.tuples(st.just("res"), small, kind, st.integers(0, 2))
    burst = st.tuples(st.just("burst"), st.lists(st.tuples(small, kind), min_size=1, max_size=4))
    reg = st.tuples(st.just("reg"), st.sampled_from(["now", "now", "inflight", "both"]))
    unreg = st.tuples(st.just("unreg"), small, st.lists(st.sampled_from(["ok", "error", "unmet"]), max_size=2))
    late = st.tuples(st.just("late"), small, st.sampled_from(["ok", "error", "unmet"]))
    die = st.tuples(st.just("die"), small, st.sampled_from([None, None, "ok", "error", "unmet"]))
    adv = st.tuples(st.just("adv"), st.sampled_from([0.5, 1.5, 3.5, 5.5, 12.0]))
    from vlib.gen import oplist, weighted

    op = weighted((9, sub), (7, res), (1, burst), (1, reg), (max(1, w["death"] // 2), unreg), (max(1, w["death"] // 2), late), (max(1, w["death"] // 2), die), (1 + w["to"] // 2, adv))
    cfg = st.fixed_dictionaries({
        "hwm": st.sampled_from([1, 1, 2, 3, 0]),
        "scheme": st.sampled_from(["leastload", "leastload", "lru", "twobin", "weighted", "plainrandom"]),
        "engines": st.sampled_from([2, 3, 1, 3, 4, 2, 0]),
        "seed": st.integers(0, 999),
    })
    return st.fixed_dictionaries({"cfg": cfg, "ops": oplist(op, max_ops)})
