"""C18: asynchronous results against a model that watches which replies have reached the client."""
import io
import contextlib
import sys
import warnings

from vlib.runner import HarnessError, Skip, Sub, Violation, check, same

PROPERTY = "C18"
RULE = ("cases: submissions of all kinds (one target, several, load-balanced, maps with chunks, broadcasts, executes; joined and split results), mixtures of errors, "
        "aborts and dying engines, and accesses to the results while replies arrive in any order; the model follows the replies delivered. "
        "Non-trivial: a result was accessed when some, but not all, of its parts were there, or some of its parts failed")
ASSUMPTIONS = ["each engine's replies reach the client in the order they were sent"]
SHARDS = 6
QUICK_S = 35
THOROUGH_S = 500


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    i = st.integers(0, 60)
    outcome = st.sampled_from(["ok", "ok", "ok", "err", "none", "list", "dict"])
    pattern = st.one_of(st.just(["ok"]), st.lists(outcome, min_size=1, max_size=4), st.just(["err"]))
    submit = st.tuples(st.just("submit"), st.sampled_from(["one", "all", "some", "lb", "bc", "cbc", "exec", "exec1", "lbmap", "lbmap", "dmap", "dmap", "onelist", "push", "pull", "pfunc", "joined"]),
                       pattern, st.integers(0, 9), st.integers(0, 4), st.booleans(), st.booleans())
    access = st.tuples(st.just("access"), i, st.sampled_from(
        ["ready", "successful", "get0", "getshort", "get", "getre", "getwhen", "dict", "int", "slice", "key", "attr", "iter", "iterpart", "len", "progress", "wait0", "waitshort",
         "wait", "waitwhen", "waitwhen", "split", "splitjoin", "times", "sent", "repr", "abortdone", "future", "interactive", "badkey", "r"]), i)
    ops = [(5, submit), (6, st.tuples(st.just("step"), st.integers(1, 14))), (16, access), (1, st.tuples(st.just("kill"), i)), (1, st.tuples(st.just("abort"), i, st.booleans()))]
    return st.fixed_dictionaries({"n": st.integers(1, 4), "first": st.lists(submit, min_size=1, max_size=3), "ops": st.lists(weighted(*ops), min_size=1, max_size=18),
                                  "picks": st.lists(st.integers(0, 60), min_size=1, max_size=12)})


def work(pattern, x):
    from vlib.clientsim import current_shell

    return outcome(pattern[current_shell().user_ns["engine_id"] % len(pattern)], x, current_shell().user_ns["engine_id"])


def element(p, x):
    return outcome(p, x, None)


def outcome(kind, x, eid):
    if kind == "err":
        raise ValueError("%s on %s" % (x, eid))
    if kind == "none":
        return None
    if kind == "list":
        return [x, eid]
    if kind == "dict":
        return {"x": x, "e": eid}
    return (x, eid)


class Reply:
    """an ExecuteReply"""


class Part:
    def __init__(self, mid, eid, want, n=1):
        self.mid = mid
        self.eid = eid          # where it runs, if known beforehand
        self.want = want        # what comes out if it runs: function of the engine id -> ("ok", v) or ("err", ename, evalue)
        self.n = n              # number of elements
        self.done = False
        self.got = None         # ("ok", v), ("err", ename, evalue), ("aborted",), ("engine",)
        self.uuid = None
        self.sure = True


class Res:
    def __init__(self, ar, parts, single, is_map=False, rexc=False, what="", ordered=True, owner=True, coalesced=False):
        self.ar = ar
        self.parts = parts
        self.single = single
        self.is_map = is_map
        self.rexc = rexc
        self.what = what
        self.ordered = ordered
        self.owner = owner
        self.coalesced = coalesced
        self.called = 0

    @property
    def done(self):
        return all(p.done for p in self.parts)

    @property
    def failed(self):
        return [p for p in self.parts if p.done and p.got[0] != "ok"]


def attempt(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("raised", e)


class World:
    def __init__(self, case, ctx):
        from vlib.clientsim import Net

        self.ctx = ctx
        self.net = net = Net(tuple(range(case["n"])), picks=case["picks"], depth=1)
        self.c = net.client
        self.parts = {}
        self.res = []
        self.names = {e.uuid: i for i, e in net.engines.items()}
        deliver = net.to_client

        def to_client(stream, frames):
            self.watch(stream, frames)
            deliver(stream, frames)
            if net.errors:
                raise Violation("an exception while a %s message was handled:\n%s" % (stream, net.errors[0]))

        net.to_client = to_client

    def watch(self, stream, frames):
        i = frames.index(b"<IDS|MSG>")
        u = self.c.session.unpack
        if stream == "notification":
            header, content = u(frames[i + 2]), u(frames[i + 5])
            if header["msg_type"] == "unregistration_notification":
                for p in self.parts.values():
                    if not p.done and p.uuid and content["uuid"] in p.uuid:
                        p.done, p.got = True, ("engine",)
                        self.ctx.tag("stranded")
            return
        if stream not in ("mux", "task", "broadcast"):
            return
        parent, meta, content = u(frames[i + 3]), u(frames[i + 4]), u(frames[i + 5])
        mid = parent["msg_id"]
        if meta.get("is_broadcast") and meta.get("is_coalescing"):
            mid = meta["original_msg_id"]
        p = self.parts.get(mid)
        if p is None:
            raise HarnessError("a reply to %r" % mid)
        if p.done:
            p.sure = False
            return
        p.done = True
        if content["status"] == "aborted":
            p.got = ("aborted",)
        else:
            if p.eid is None and not isinstance(meta["engine"], list):
                p.eid = self.names[meta["engine"]]
            p.got = p.want(p.eid)
            same(content["status"], {"ok": "ok", "err": "error"}[p.got[0]], "outcome of %s" % (p.mid,))

    # -- judging -------------------------------------------------------------
    def is_error(self, p, e, what):
        from ipyparallel import error

        if p.got[0] == "aborted":
            check(isinstance(e, error.TaskAborted), "%s: %r, but the task was aborted", what, e)
            return
        check(isinstance(e, error.RemoteError), "%s: got %r, expected %r", what, e, p.got)
        if p.got[0] == "engine":
            same(e.ename, "EngineError", "%s: name of the exception" % what)
        elif p.got[1] is not None:
            same((e.ename, e.evalue), p.got[1:], "%s: exception" % what)
            same(e.engine_info.get("engine_id"), p.eid, "%s: engine of the exception" % what)

    def composite(self, parts, e, what):
        """one error that lists every part that failed, in order"""
        from ipyparallel import error

        bad = [p for p in parts if p.got[0] != "ok"]
        check(isinstance(e, error.CompositeError), "%s raised %r, expected the errors of %i parts", what, e, len(bad))
        same(len(e.elist), len(bad), "%s: number of errors" % what)
        for p, (en, ev, tb, ei) in zip(bad, e.elist):
            if p.got[0] == "aborted":
                same(en, "TaskAborted", "%s: name" % what)
            elif p.got[0] == "engine":
                same(en, "EngineError", "%s: name" % what)
            else:
                same((en, ev, ei.get("engine_id")), p.got[1:] + (p.eid,), "%s: an error" % what)
                check("ValueError" in tb, "%s: traceback %r", what, tb)
        str(e), repr(e), e.render_traceback()

    def value(self, r, got, what):
        """got: value of a result, errors in place"""
        from checks.c09 import norm

        if r.is_map:
            check(isinstance(got, list), "%s: %r is not a list", what, got)
            got = list(got)
            want = []
            for p in r.parts:
                if p.got[0] == "ok":
                    n = len(p.got[1])
                    same(norm(got[:n]), norm(p.got[1]), "%s: elements of part %s" % (what, p.mid))
                    del got[:n]
                else:
                    check(got, "%s: too few results", what)
                    self.is_error(p, got.pop(0), what)
            check(not got, "%s: %i elements too many: %r", what, len(got), got)
            return
        if r.single:
            got = [got]
        else:
            check(isinstance(got, list), "%s: %r is not a list", what, got)
        same(len(got), len(r.parts), "%s: number of results" % what)
        for p, g in zip(r.parts, got):
            if p.got[0] == "ok":
                same(self.norm(g), self.norm(p.got[1]), "%s: result of %s" % (what, p.mid))
            else:
                self.is_error(p, g, what)

    def norm(self, v):
        from checks.c09 import norm

        if type(v).__name__ in ("ExecuteReply", "Reply"):
            return "reply"
        return norm(v)

    def final(self, r, res, what, in_place=None):
        """res: attempt() to get all of a finished result"""
        rexc = r.rexc if in_place is None else in_place
        how, got = res
        if not r.failed or rexc:
            if how == "raised" and isinstance(got, Violation):
                raise got
            check(how == "ok", "%s of %s raised %r", what, r.what, got)
            self.value(r, got, what)
            return
        check(how == "raised", "%s of %s gives %r, though %i parts failed", what, r.what, got, len(r.failed))
        if isinstance(got, Violation):
            raise got
        if r.single:
            self.is_error(r.parts[0], got, what)
        elif r.coalesced:
            pass
        else:
            self.composite(r.parts, got, what)


def submit(w, kind, pattern, x, chunk, flag, rexc):
    net, c = w.net, w.c
    live = c.ids
    if not live:
        return
    if any(i not in net.engines for i in live):
        # not told yet that one is gone
        net.run(only=lambda k: k[0] == "notif")
        live = c.ids
    what = "%s(%r, %r)" % (kind, pattern, x)
    n0 = len(c.history)

    def want(p, code=False):
        def f(eid):
            try:
                return ("ok", outcome(p[eid % len(p)], x, eid))
            except ValueError as e:
                return ("err", "ValueError", str(e))
        return f

    def welement(items):
        def f(eid):
            out = []
            for k, v in items:
                try:
                    out.append(outcome(k, v, None))
                except ValueError as e:
                    return ("err", "ValueError", str(e))
            return ("ok", out)
        return f

    def parts(targets, wants, mids=None, ns=None):
        mids = mids or c.history[n0:]
        same(len(mids), len(wants), "messages of %s" % what)
        ps = []
        for j, (m, wt) in enumerate(zip(mids, wants)):
            p = Part(m, targets[j] if targets else None, wt, ns[j] if ns else 1)
            if targets:
                p.uuid = [c._engines[targets[j]]]
            w.parts[m] = p
            ps.append(p)
        return ps

    if kind in ("one", "all", "some", "onelist"):
        t = {"one": live[x % len(live)], "all": live, "some": live[::-2], "onelist": [live[x % len(live)]]}[kind]
        v = c[t]
        v.track = bool(chunk & 1)
        ar = v.apply_async(work, pattern, x)
        t = [t] if kind == "one" else t
        r = Res(ar, parts(t, [want(pattern)] * len(t)), kind == "one", what=what)
    elif kind in ("push", "pull"):
        v = c[live] if flag else c[live[0]]
        t = live if flag else live[:1]
        if kind == "push":
            ar = v.push({"k%i" % x: x}, block=False)
            wt = lambda eid: ("ok", None)
        else:
            ar = v.pull("engine_id", block=False)
            wt = lambda eid: ("ok", eid)
        r = Res(ar, parts(t, [wt] * len(t)), not flag, what=what)
    elif kind in ("exec", "exec1"):
        t = live if kind == "exec" else live[:1]
        v = c[live] if kind == "exec" else c[live[0]]
        bad = "err" in pattern
        ar = v.execute("raise ValueError(engine_id * 10 + %i)" % x if bad else "x = %i" % x, block=False)

        def wexec(eid):
            if bad:
                return ("err", "ValueError", str(eid * 10 + x))
            return ("ok", Reply())
        ps = parts(t, [wexec] * len(t))
        r = Res(ar, ps, kind == "exec1", what=what)
    elif kind == "lb":
        v = c.load_balanced_view()
        v.track = bool(chunk & 1)
        ar = v.apply_async(work, pattern, x)
        r = Res(ar, parts(None, [want(pattern)]), True, what=what)
    elif kind == "joined":
        v = c.load_balanced_view() if flag else c[live[0]]
        k = 1 + x % 3
        ars = [v.apply_async(work, pattern, x) for _ in range(k)]
        if k < 2:
            ar = ars[0]
        else:
            ar = type(ars[0]).join(*ars)
        r = Res(ar, parts(None if flag else [live[0]] * k, [want(pattern)] * k), k < 2, what=what)
    elif kind in ("bc", "cbc"):
        v = c.broadcast_view(is_coalescing=kind == "cbc")
        t = list(v.targets)
        v.track = bool(chunk & 1)
        ar = v.apply_async(work, pattern, x)
        if kind == "bc":
            r = Res(ar, parts(t, [want(pattern)] * len(t), ["%s_%s" % (c.history[n0], c._engines[i]) for i in t]), False, what=what)
        else:
            if any(pattern[i % len(pattern)] == "err" for i in t):
                def wt(eid):
                    return ("err", None, None)
            else:
                def wt(eid):
                    return ("ok", [outcome(pattern[i % len(pattern)], x, i) for i in t])
            p = Part(c.history[n0], None, wt)
            p.targets = t
            p.uuid = [c._engines[i] for i in t]
            w.parts[p.mid] = p
            r = Res(ar, [p], True, what=what, coalesced=True)
    else:
        n = x
        if not n and rexc:
            rexc = False
        items = [(pattern[i % len(pattern)], i) for i in range(n)]
        kw = {}
        if rexc:
            kw["return_exceptions"] = True
        if kind == "dmap":
            ar = c[live].map(element, [k for k, _ in items], [v for _, v in items], block=False, **kw)
            new = c.history[n0:]
            nt = len(new)
            if not n:
                # nothing to wait for
                check(list(ar) == [], "a map over nothing gives %r", ar)
                return
            q, rem = divmod(n, nt)
            sizes = [q + (j < rem) for j in range(nt)]
            t = live[:nt]
        else:
            lb = c.load_balanced_view()
            if kind == "pfunc":
                from ipyparallel import ParallelFunction
                ar = ParallelFunction(lb, element, block=False, chunksize=chunk + 1, ordered=flag, **kw).map([k for k, _ in items], [v for _, v in items])
            else:
                ar = lb.map(element, [k for k, _ in items], [v for _, v in items], block=False, chunksize=chunk + 1, ordered=flag, **kw)
            new = c.history[n0:]
            if not n:
                check(list(ar) == [], "a map over nothing gives %r", ar)
                return
            # evenly, none larger than the chunks asked for
            nt = -(-n // (chunk + 1))
            sizes = [n // nt + (j < n % nt) for j in range(nt)]
            t = None
        at, wants = 0, []
        for s in sizes:
            wants.append(welement(items[at:at + s]))
            at += s
        r = Res(ar, parts(t, wants, ns=sizes), False, is_map=True, rexc=rexc, ordered=flag if kind != "dmap" else True, what=what)
    w.res.append(r)

    def cb(f, r=r):
        r.called += 1
        if f is not r.ar:
            r.called += 100
    r.ar.add_done_callback(cb)
    same(list(r.ar.msg_ids), [p.mid for p in r.parts], "msg_ids of %s" % what)


def access(w, r, how, n):
    import concurrent.futures as cf

    from ipyparallel.client.asyncresult import AsyncMapResult, AsyncResult

    net, c, ar, ctx = w.net, w.c, r.ar, w.ctx
    net.run_callbacks()
    some = any(p.done for p in r.parts) and not r.done
    if some or r.failed:
        ctx.nontrivial()
    if some:
        ctx.tag("partly")
    what = how

    def call(f, name=None):
        return attempt(lambda: net.call(f, "%s of %s" % (name or what, r.what)))

    def timed_out(res):
        how, e = res
        if how == "raised" and isinstance(e, Violation):
            raise e
        check(how == "raised" and isinstance(e, TimeoutError), "%s of %s gives %s %r before all results are there", what, r.what, how, e)

    was = r.done
    if how == "ready":
        same(ar.ready(), was, "ready() of %s" % r.what)
        same(ar.done(), was, "done() of %s" % r.what)
    elif how == "successful":
        k, v = attempt(ar.successful)
        if not was:
            check(k == "raised" and isinstance(v, RuntimeError), "successful() of the incomplete %s: %r", r.what, v)
        elif not r.rexc:
            same((k, v), ("ok", not r.failed), "successful() of %s" % r.what)
    elif how in ("get0", "getshort", "r") and (how != "r" or was):
        t = {"get0": 0, "getshort": 0.002, "r": None}[how]
        res = attempt(lambda: ar.r if how == "r" else ar.get(t))
        if was:
            w.final(r, res, what)
        else:
            timed_out(res)
            check(not ar.done() and not ar.ready(), "%s is done after a timeout", r.what)
    elif how == "get":
        w.final(r, call(lambda: ar.get(None if n % 2 else -1)), what)
    elif how == "getre":
        if r.coalesced and r.failed:
            return
        w.final(r, call(lambda: ar.get(return_exceptions=True)), what, in_place=True)
    elif how == "getwhen":
        when = [cf.FIRST_EXCEPTION, cf.ALL_COMPLETED, cf.FIRST_COMPLETED][n % 3]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = call(lambda: ar.get(return_when=when))
        what = "get(return_when=%s)" % when
        if res[0] == "raised" and isinstance(res[1], Violation):
            raise res[1]
        if when != cf.FIRST_EXCEPTION or not (r.failed and not r.done):
            if r.failed and when == cf.FIRST_EXCEPTION and not was and not r.rexc:
                # raised what was there first
                check(res[0] == "raised", "%s of %s gives %r, though parts failed", what, r.what, res[1])
            else:
                w.final(r, res, what)
        elif not r.rexc:
            check(res[0] == "raised" and not isinstance(res[1], (TimeoutError, TypeError, KeyError, AttributeError)), "%s of %s: %r, though a part failed", what, r.what, res[1])
    elif how == "dict":
        if r.is_map or r.coalesced and r.failed:
            return
        res = attempt(lambda: ar.get_dict(0))
        if not was:
            return timed_out(res)
        eids = r.parts[0].targets if r.coalesced else [p.eid for p in r.parts]
        if r.failed:
            return w.final(r, res, what)
        if len(set(eids)) < len(eids):
            check(res[0] == "raised" and isinstance(res[1], ValueError), "get_dict() of %s with several jobs on an engine: %r", r.what, res[1])
            return
        check(res[0] == "ok", "get_dict() of %s raised %r", r.what, res[1])
        vals = r.parts[0].got[1] if r.coalesced else [p.got[1] for p in r.parts]
        d = res[1]
        same(sorted(d), sorted(eids), "engines in get_dict() of %s" % r.what)
        for e, v in zip(eids, vals):
            same(w.norm(d[e]), w.norm(v), "get_dict()[%r] of %s" % (e, r.what))
        same(sorted(ar.result_dict), sorted(eids), "result_dict of %s" % r.what)
    elif how in ("int", "slice"):
        key = (n % 7 - 3) if how == "int" else slice(*[[None, 0, 1, 2, -1][(n // k) % 5] for k in (1, 5)] + [[None, 1, 2, -1][n % 4]])
        res = attempt(lambda: ar[key])
        if not was:
            return timed_out(res)
        if r.failed and not r.rexc:
            check(res[0] == "raised", "[%r] of the failed %s gives %r", key, r.what, res[1])
            return
        ref = attempt(lambda: ar.get(0)[key])
        same(res[0], ref[0], "[%r] of %s, compared to its value" % (key, r.what))
        if res[0] == "ok":
            same(w.norm(res[1]), w.norm(ref[1]), "[%r] of %s" % (key, r.what))
        else:
            same(type(res[1]), type(ref[1]), "[%r] of %s: exception" % (key, r.what))
        # and directly
        if res[0] == "ok" and not r.is_map and not r.single and not r.rexc and how == "int":
            same(w.norm(res[1]), w.norm(r.parts[key].got[1]), "[%r] of %s" % (key, r.what))
    elif how in ("key", "attr"):
        keys = ["status", "engine_id", "engine_uuid", "msg_id", "stdout", "execute_result", "outputs", "completed", "submitted", "started", "received"]
        key = keys[n % len(keys)]
        got = ar[key] if how == "key" else getattr(ar, key)
        md = ar.metadata
        if r.single:
            same(got, md[key], "[%r] of %s and its metadata" % (key, r.what))
            got = [got]
        else:
            same(got, [m[key] for m in md], "[%r] of %s and its metadata" % (key, r.what))
        same(len(got), len(r.parts), "number of values of [%r] of %s" % (key, r.what))
        for p, g in zip(r.parts, got):
            if not p.sure or r.coalesced:
                continue
            if key == "msg_id" and (p.done or g is not None):
                same(g, p.mid, "msg_id")
            if key == "submitted":
                check(g is not None, "no time of submission")
            if not p.done:
                if key in ("status", "completed", "received"):
                    check(g is None, "%s of the unfinished %s is %r", key, p.mid, g)
                continue
            if key == "status":
                same(g, {"ok": "ok", "err": "error", "engine": "error", "aborted": "aborted"}[p.got[0]], "status of %s" % p.mid)
            elif key == "engine_id" and p.got[0] != "engine":
                same(g, p.eid if p.eid is not None else g, "engine_id of %s" % p.mid)
            elif key in ("completed", "received", "started") and p.got[0] in ("ok", "err"):
                check(g is not None and g.tzinfo is not None, "%s of %s is %r", key, p.mid, g)
    elif how == "badkey":
        k, v = attempt(lambda: ar["nothing"])
        check(k == "raised" and isinstance(v, KeyError), "['nothing'] of %s: %r", r.what, v)
        k, v = attempt(lambda: ar.nothing)
        check(k == "raised" and isinstance(v, AttributeError), ".nothing of %s: %r", r.what, v)
        k, v = attempt(lambda: ar[2.5])
        check(k == "raised" and isinstance(v, TypeError), "[2.5] of %s: %r", r.what, v)
    elif how in ("iter", "iterpart"):
        if r.single:
            k, v = attempt(lambda: list(ar))
            check(k == "raised" and isinstance(v, TypeError), "iterating over the single %s: %r", r.what, v)
            return
        out = []

        def go():
            for x in ar:
                out.append(x)
        if how == "iterpart":
            # the parts that are there come without waiting for others
            it = iter(ar)
            for p in r.parts:
                if not p.done or p.got[0] != "ok" or not r.ordered or r.failed and r.done:
                    return
                for e in p.got[1] if r.is_map else [p.got[1]]:
                    k, v = attempt(lambda: next(it))
                    check(k == "ok", "iterating over %s: raised %r", r.what, v)
                    same(w.norm(v), w.norm(e), "iterating over %s" % r.what)
            k, v = attempt(lambda: next(it))
            check(isinstance(v, StopIteration), "iterating over %s gives too much: %r", r.what, v)
            return
        res = call(go)
        if res[0] == "raised" and isinstance(res[1], Violation):
            raise res[1]
        if r.rexc or not r.failed:
            check(res[0] == "ok", "iterating over %s raised %r", r.what, res[1])
            if r.ordered:
                w.value(r, out, "iteration")
            elif not r.failed:
                want = [repr(w.norm(e)) for p in r.parts for e in p.got[1]]
                same(sorted(repr(w.norm(e)) for e in out), sorted(want), "iteration over %s in any order" % r.what)
            else:
                same(len(out), sum(len(p.got[1]) if p.got[0] == "ok" else 1 for p in r.parts), "number of items in the iteration over %s" % r.what)
            return
        check(res[0] == "raised", "iteration over %s raised nothing, though parts failed: %r", r.what, out)
        if r.ordered:
            want = []
            for p in r.parts:
                if p.got[0] != "ok":
                    break
                want.extend(p.got[1] if r.is_map else [p.got[1]])
            same([w.norm(o) for o in out], [w.norm(o) for o in want[:len(out)]], "what the iteration over %s gave before it raised" % r.what)
            check(len(out) in (0, len(want)), "the iteration over %s gave %i items, %i before the first that failed", r.what, len(out), len(want))
    elif how == "len":
        if not r.coalesced:
            same(len(ar), sum(p.n for p in r.parts), "len() of %s" % r.what)
    elif how == "progress":
        if not r.coalesced:
            same(ar.progress, sum(p.n for p in r.parts if p.done), "progress of %s" % r.what)
    elif how in ("wait0", "waitshort"):
        same(ar.wait(0 if how == "wait0" else 0.002), was, "%s of %s" % (how, r.what))
    elif how == "wait":
        f = lambda: (ar.wait(-1 if n % 2 else None), r.done)
        k, v = call(f)
        if k == "raised":
            raise v if isinstance(v, Violation) else Violation("wait() of %s raised %r" % (r.what, v))
        same(v, (True, True), "wait() of %s, and whether everything had arrived" % r.what)
    elif how == "waitwhen":
        when = [cf.FIRST_COMPLETED, cf.FIRST_EXCEPTION, cf.ALL_COMPLETED][n % 3]
        timeout = [None, -1, 0, 0.002][n // 3 % 4]
        what = "wait(%r, %s)" % (timeout, when)
        snap = [p.done for p in r.parts]
        if timeout in (None, -1):
            k, v = call(lambda: ar.wait(timeout, return_when=when))
        else:
            k, v = attempt(lambda: ar.wait(timeout, return_when=when))
        if k == "raised":
            raise v if isinstance(v, Violation) else Violation("%s of %s raised %r" % (what, r.what, v))
        done, pend = v
        check(not set(done) & set(pend), "%s of %s: results both done and pending", what, r.what)
        ids = sorted(m for a in list(done) + list(pend) for m in a.msg_ids)
        same(ids, sorted(p.mid for p in r.parts), "messages in %s of %s" % (what, r.what))
        dset = {m for a in done for m in a.msg_ids}
        for p, s in zip(r.parts, snap):
            if s:
                check(p.mid in dset, "%s of %s: %s had been done, but is said to be pending", what, r.what, p.mid)
            if p.mid in dset:
                check(p.done, "%s of %s: %s is said to be done", what, r.what, p.mid)
        if timeout in (None, -1):
            if when == cf.FIRST_COMPLETED:
                check(dset, "%s of %s returned, but nothing is done", what, r.what)
            elif when == cf.ALL_COMPLETED:
                check(not pend, "%s of %s returned, but some are pending", what, r.what)
            elif pend:
                check(any(p.got[0] != "ok" for p in r.parts if p.mid in dset) and not r.rexc, "%s of %s returned, though none failed and some are pending", what, r.what)
    elif how in ("split", "splitjoin"):
        pieces = ar.split()
        same([list(a.msg_ids) for a in pieces], [[p.mid] for p in r.parts], "split() of %s" % r.what)
        check(ar.split() == pieces, "split() of %s gives other objects", r.what)
        for a, p in zip(pieces, r.parts):
            same(a.ready(), p.done, "ready() of a part of %s" % r.what)
            if p.done and not r.coalesced and not (r.rexc and p.got[0] != "ok"):
                same(a.successful(), p.got[0] == "ok", "successful() of a part of %s" % r.what)
            if p.done and not r.coalesced and not r.is_map:
                res = attempt(lambda: a.get(0, return_exceptions=True))
                check(res[0] == "ok", "get() of a part of %s raised %r", r.what, res[1])
                w.value(Res(a, [p], len(r.parts) > 1 or r.single), res[1], "part of the result")
        if how == "splitjoin" and not r.is_map and not r.coalesced:
            back = AsyncResult.join(*pieces)
            same(list(back.msg_ids), [p.mid for p in r.parts], "msg_ids of the joined parts of %s" % r.what)
            same(back.ready(), was, "ready() of the joined parts of %s" % r.what)
            if was:
                w.final(Res(back, r.parts, r.single, what="joined parts of " + r.what), attempt(lambda: back.get(0)), "get")
    elif how == "times":
        if r.coalesced or any(not p.done or p.got[0] not in ("ok", "err") for p in r.parts):
            if not was:
                for name in ("serial_time", "wall_time"):
                    k, v = attempt(lambda: getattr(ar, name))
                    check(k == "raised" and isinstance(v, (TimeoutError, AttributeError)), "%s of the unfinished %s: %r", name, r.what, v)
                check(ar.elapsed >= 0, "elapsed time of %s", r.what)
            return
        check(ar.elapsed == ar.wall_time, "elapsed time %r of the finished %s, wall time %r", ar.elapsed, r.what, ar.wall_time)
        md = [ar.metadata] if r.single else ar.metadata
        want = (max(m["received"] for m in md) - min(m["submitted"] for m in md)).total_seconds()
        check(abs(ar.wall_time - want) < 1e-6, "wall_time of %s is %r, expected %r", r.what, ar.wall_time, want)
        want = sum((m["completed"] - m["started"]).total_seconds() for m in md)
        check(abs(ar.serial_time - want) < 1e-6, "serial_time of %s is %r, expected %r", r.what, ar.serial_time, want)
    elif how == "sent":
        k, v = attempt(lambda: ar.wait_for_send(1))
        check(k == "ok", "wait_for_send() of %s raised %r", r.what, v)
        check(ar.sent, "%s was not sent", r.what)
    elif how == "repr":
        want = "pending" if not was else "failed" if r.failed and not r.rexc else "finished"
        check(repr(ar).endswith(": %s>" % want), "repr of %s is %r, expected %s", r.what, repr(ar), want)
    elif how == "abortdone":
        if was:
            k, v = attempt(ar.abort)
            check(k == "raised" and isinstance(v, RuntimeError), "abort() of the finished %s: %r", r.what, v)
    elif how == "future":
        k, v = attempt(lambda: ar.result(timeout=0))
        k2, v2 = attempt(lambda: ar.exception(timeout=0))
        if not was:
            timed_out((k, v))
            check(isinstance(v2, TimeoutError), "exception() of the unfinished %s: %r", r.what, v2)
        else:
            w.final(r, (k, v), "result()")
            same(k2, "ok", "exception() of %s" % r.what)
            same(v2 is None, k == "ok", "exception() of %s is None" % r.what)
    elif how == "interactive":
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            when = [cf.ALL_COMPLETED, cf.FIRST_COMPLETED, cf.FIRST_EXCEPTION][n % 3]
            k, v = call(lambda: ar.wait_interactive(interval=0.003, widget=False, return_when=when))
        if k == "raised":
            raise v if isinstance(v, Violation) else Violation("wait_interactive() of %s raised %r" % (r.what, v))
        if when == cf.ALL_COMPLETED:
            check(r.done, "wait_interactive() of %s returned before it was done", r.what)
        elif when == cf.FIRST_COMPLETED:
            check(any(p.done for p in r.parts), "wait_interactive(FIRST_COMPLETED) of %s returned, though nothing is done", r.what)
        else:
            check(r.done or r.failed, "wait_interactive(FIRST_EXCEPTION) of %s returned, though nothing failed", r.what)


def run(case, ctx):
    w = World(case, ctx)
    net, c = w.net, w.c
    from ipyparallel.client import client as cmod

    cmod.print = lambda *a, **k: None
    try:
        for op in case["first"] + [("step", case["picks"][0] % 14)] + case["ops"]:
            if op[0] == "submit":
                submit(w, *op[1:])
            elif op[0] == "step":
                for _ in range(op[1]):
                    if not net.step():
                        break
            elif op[0] == "access":
                if w.res:
                    access(w, w.res[op[1] % len(w.res)], op[2], op[3])
            elif op[0] == "kill":
                net.run_callbacks()
                lost = {m for m, e in net.placed.items() if m in w.parts and not w.parts[m].done}
                if len(net.engines) > 1 and not lost:
                    eid = sorted(net.engines)[op[1] % len(net.engines)]
                    net.kill(eid)
            elif op[0] == "abort":
                net.run_callbacks()
                if not w.res or any(e.uuid and i not in net.engines for i, e in list(net.engines.items())):
                    continue
                if sorted(c.ids) != sorted(net.engines):
                    continue
                r = w.res[op[1] % len(w.res)]
                if r.done:
                    continue
                k, v = attempt(lambda: net.call(lambda: c.abort(r.ar, block=True), "abort"))
                if k == "raised":
                    raise v if isinstance(v, Violation) else Violation("abort of %s raised %r" % (r.what, v))
            net.run_callbacks()
            for r in w.res:
                same(r.ar.done(), r.done, "done() of %s after %r" % (r.what, op))
                same(r.called, int(r.done), "number of calls of the done-callback of %s" % r.what)
        net.run()
        for r in w.res:
            check(r.done and r.ar.ready(), "%s never gets ready", r.what)
            w.final(r, attempt(lambda: r.ar.get(0)), "get() at the end")
            if not (r.coalesced and r.failed):
                w.final(r, attempt(lambda: r.ar.get(0, return_exceptions=True)), "get(return_exceptions=True) at the end", in_place=True)
            same(r.called, 1, "number of calls of the done-callback of %s" % r.what)
            if r.failed:
                ctx.nontrivial()
                ctx.tag("failed")
            ctx.tag(r.what.split("(")[0])
    finally:
        cmod.__dict__.pop("print", None)
        net.close()


SUBS = [Sub("results", strategy, run, quick=2600, thorough=60000)]
