"""C27: captured output, against a model that watches which output messages have reached the client.

The client is real; the engines' output messages are generated. What the client stores, shows (display_outputs)
and streams (stream_output), and when it calls the output complete, is compared with what was delivered to it."""
import contextlib
import io
import re

from vlib.runner import HarnessError, Skip, Sub, Violation, check, same

PROPERTY = "C27"
RULE = ("cases: tasks of all kinds (one target, several, load-balanced, maps, broadcasts with and without coalescing, executes) whose engines publish generated "
        "sequences of stream, display, input, error, result and data messages, delivered in any interleaving with the replies, with aborts, dying engines and "
        "foreign messages among them. Non-trivial: output arrived after the reply of its task, or output of several tasks interleaved, or output was shown or streamed")
ASSUMPTIONS = ["each engine's output messages reach the client in the order they were published", "an engine's idle message follows all output of the task"]
SHARDS = 6
QUICK_S = 30
THOROUGH_S = 400
CR = re.compile(r".*\r(?=[^\n])")


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    i = st.integers(0, 60)
    text = st.one_of(st.sampled_from(["", "a", "a\n", "\n", "é☃\n", "a b\nc", "line\n" * 3, "[x] \n"]), st.text("ab\n ", max_size=5))
    crtext = st.sampled_from(["\r", "a\r", "\rb", "a\rb\n", "10%\r20%", "a\r\n", "\r\r", "x\n\ry"])
    op = weighted((6, st.tuples(st.just("out"), st.sampled_from(["stdout", "stdout", "stderr"]), text)),
                  (1, st.tuples(st.just("cr"), st.sampled_from(["stdout", "stderr"]), crtext)),
                  (3, st.tuples(st.just("disp"), st.booleans())),
                  (1, st.tuples(st.just("data"), st.integers(0, 2))),
                  (1, st.just(("input",))),
                  (1, st.just(("other",))))
    script = st.tuples(st.lists(op, max_size=6), st.sampled_from(["none", "none", "result", "result", "err"]))
    submit = st.tuples(st.just("submit"), st.sampled_from(["one", "all", "all", "lb", "exec", "exec", "exec1", "bc", "bcexec", "cbc", "cbc", "lbmap", "dmap"]),
                       st.lists(script, min_size=1, max_size=4))
    ops = [(6, submit), (12, st.tuples(st.just("step"), st.integers(1, 12))), (3, st.tuples(st.just("iopub"), st.integers(1, 8))),
           (2, st.tuples(st.just("replies"), st.integers(1, 4))),
           (2, st.tuples(st.just("noise"), st.sampled_from(["foreign", "unknown", "noparent", "stale", "comm"]), i)),
           (1, st.tuples(st.just("abort"), i)), (1, st.tuples(st.just("kill"), i)),
           (4, st.tuples(st.just("stream"), i, st.integers(0, 14))),
           (3, st.tuples(st.just("show"), i, st.sampled_from(["type", "engine", "order"]), st.booleans()))]
    return st.fixed_dictionaries({"n": st.integers(1, 3), "ip": st.sampled_from(["none", "plain", "plain", "kernel"]),
                                  "first": st.lists(submit, min_size=1, max_size=3), "ops": st.lists(weighted(*ops), min_size=1, max_size=14),
                                  "picks": st.lists(st.integers(0, 60), min_size=1, max_size=12), "hub": st.booleans()})


class Part:
    def __init__(self, mid, task, scripts, execute):
        self.mid = mid
        self.task = task
        self.scripts = scripts      # uuid (or None: any) -> script
        self.execute = execute
        self.raw = {"stdout": "", "stderr": ""}
        self.outputs = []
        self.error = None
        self.result = None
        self.input = None
        self.data = {}
        self.replied = False
        self.idle = set()           # engines that are done with it
        self.waits = set(scripts)   # engines whose idle messages are needed
        self.complete = False
        self.frozen = False
        self.lost = False
        self.uuid = None

    def norm(self, name):
        return CR.sub("", self.raw[name])


class Task:
    def __init__(self, ar, kind, parts, single):
        self.ar = ar
        self.kind = kind
        self.parts = parts
        self.single = single

    def complete(self):
        return all(p.replied and p.complete for p in self.parts)

    def ready(self):
        return all(p.replied for p in self.parts)


class FakeIP:
    def __init__(self, kernel):
        self.published = []
        if kernel:
            self.kernel = self
            self.iopub_socket = None
            self.session = self
            self.comm_manager = self
        self.display_pub = self

    # display_pub
    def publish(self, data, metadata=None, **kw):
        self.published.append((data, dict(metadata or {})))

    # kernel
    def get_parent(self, channel=None):
        return {}

    def send(self, *a, **k):
        pass

    def register_comm(self, comm):
        pass


@contextlib.contextmanager
def patched(ip):
    from ipyparallel.client import asyncresult as A, client as C

    rec = {"display": [], "raw": [], "pub": []}
    names = {(A, "get_ipython"): lambda: ip, (C, "get_ipython"): lambda: ip,
             (A, "display"): lambda *a, **k: rec["display"].extend(a),
             (A, "display_pretty"): lambda *a, **k: rec["raw"].append(a),
             (A, "publish_display_data"): lambda data, metadata=None, transient=None, update=False, **k: rec["pub"].append((data, transient or {}, update)),
             (C, "print"): lambda *a, **k: None}
    missing = object()
    old = {(m, n): m.__dict__.get(n, missing) for m, n in names}
    for (m, n), f in names.items():
        setattr(m, n, f)
    try:
        yield rec
    finally:
        for (m, n), f in old.items():
            if f is missing:
                delattr(m, n)
            else:
                setattr(m, n, f)


def key_of(content):
    return content["data"].get("text/plain")


class World:
    def __init__(self, case, ctx):
        from vlib.clientsim import Net

        self.ctx = ctx
        self.net = Net(list(range(case["n"])), picks=case["picks"], depth=1, handler=self.handle, hub=case["hub"])
        self.c = self.net.client
        self.parts = {}             # id that engines use -> part
        self.tasks = []
        self.aborted = set()
        self.tokens = 0
        self.names = {e.uuid: i for i, e in self.net.engines.items()}
        self.mixed = None
        deliver = self.net.to_client

        def to_client(stream, frames):
            self.watch(stream, frames)
            deliver(stream, frames)
            if self.net.errors:
                raise Violation("an exception while a %s message was handled:\n%s" % (stream, self.net.errors[0]))
            self.invariant()

        self.net.to_client = to_client

    # -- engines -------------------------------------------------------------
    def token(self, p):
        self.tokens += 1
        return "<%i.%i>" % (p.task, self.tokens)

    def handle(self, e, msg):
        from ipyparallel.serialize import serialize_object

        p = self.parts.get(msg["header"]["msg_id"])
        if p is None:
            raise HarnessError("a request that nobody made: %r" % (msg["header"],))
        ops, end = p.scripts.get(e.uuid) or p.scripts[None]
        method = "execute" if p.execute else "apply"
        for op in ops:
            if op[0] == "out":
                self.net.iopub(e, msg, "stream", {"name": op[1], "text": self.token(p) + op[2]})
            elif op[0] == "cr":
                self.net.iopub(e, msg, "stream", {"name": op[1], "text": op[2]})
            elif op[0] == "disp":
                self.net.iopub(e, msg, "display_data", {"data": {"text/plain": self.token(p)}, "metadata": {"m": 1} if op[1] else {}, "transient": {}})
            elif op[0] == "data":
                self.net.iopub(e, msg, "data_message", {}, buffers=serialize_object({"k%i" % op[1]: self.token(p)}))
            elif op[0] == "input":
                self.net.iopub(e, msg, "execute_input", {"code": self.token(p), "execution_count": 1})
            elif op[0] == "other":
                self.net.iopub(e, msg, "clear_output", {"wait": False})
        if end == "err":
            t = self.token(p)
            content = {"ename": "ValueError", "evalue": t, "traceback": ["trace", "ValueError: " + t]}
            self.net.iopub(e, msg, "error", dict(content))
            return dict(content, status="error", engine_info=e.kernel.get_engine_info(method=method)), []
        if p.execute:
            if end == "result":
                self.net.iopub(e, msg, "execute_result", {"execution_count": 1, "data": {"text/plain": self.token(p)}, "metadata": {}})
            return {"status": "ok", "execution_count": 1, "payload": [], "user_expressions": {}}, []
        return {"status": "ok"}, serialize_object([1] if p.seq else 1)

    # -- the model -----------------------------------------------------------
    def unpack(self, frames):
        i = frames.index(b"<IDS|MSG>")
        u = self.c.session.unpack
        return u(frames[i + 2]), u(frames[i + 3]), u(frames[i + 4]), u(frames[i + 5])

    def watch(self, stream, frames):
        if stream == "notification":
            header, _, _, content = self.unpack(frames)
            if header["msg_type"] == "unregistration_notification":
                for p in self.all_parts():
                    if not p.replied and content["uuid"] in p.direct:
                        p.replied = p.complete = p.frozen = True
                        self.ctx.tag("stranded")
            return
        if stream == "query":
            return
        header, parent, meta, content = self.unpack(frames)
        if stream == "iopub":
            if parent.get("session") != self.c.session.session:
                return
            p = self.parts.get(parent.get("msg_id"))
            if p is None or p.frozen:
                return
            uuid = meta["engine"]
            t = header["msg_type"]
            if t not in ("status",):
                if p.replied:
                    self.ctx.nontrivial()
                    self.ctx.tag("output_after_reply")
                if self.mixed not in (None, p) and not self.mixed.complete:
                    self.ctx.nontrivial()
                    self.ctx.tag("interleaved")
                self.mixed = p
            if t == "stream":
                p.raw[content["name"]] += content["text"]
            elif t == "display_data":
                p.outputs.append((content["data"]["text/plain"], self.names[uuid]))
            elif t == "execute_result":
                p.result = content["data"]["text/plain"]
            elif t == "execute_input":
                p.input = content["code"]
            elif t == "error":
                p.error = content["evalue"]
            elif t == "data_message":
                from ipyparallel.serialize import deserialize_object

                i = frames.index(b"<IDS|MSG>")
                p.data.update(deserialize_object(frames[i + 6:])[0])
            elif t == "status" and content["execution_state"] == "idle":
                p.idle.add(uuid)
                if None in p.waits or p.waits <= p.idle:
                    p.complete = True
            return
        # replies
        if stream not in ("mux", "task", "broadcast"):
            return
        p = self.parts.get(parent["msg_id"])
        if p is None:
            raise HarnessError("a reply to %r" % (parent,))
        if p.replied:
            return
        p.replied = True
        p.uuid = meta.get("engine")
        if content["status"] == "aborted":
            p.complete = p.frozen = True
            self.ctx.tag("aborted")
        elif content["status"] == "error" and not content.get("engine_info"):
            p.complete = p.frozen = True

    def all_parts(self):
        return [p for t in self.tasks for p in t.parts]

    def invariant(self):
        for i, t in enumerate(self.tasks):
            done = t.complete()
            same(bool(t.ar.wait_for_output(0)), done, "wait_for_output(0) of task %i (%s)", i, t.kind)
            for j, p in enumerate(t.parts):
                if p.frozen:
                    continue
                md = t.ar._children[j].output.metadata
                self.judge(p, md, "metadata of part %i of task %i (%s)" % (j, i, t.kind))

    def judge(self, p, md, what, data=True, displays=True):
        for name in ("stdout", "stderr"):
            same(CR.sub("", md[name] or ""), p.norm(name), "%s in %s", name, what)
        if displays:
            same([key_of(o) for o in md["outputs"]], [k for k, _ in p.outputs], "outputs in %s", what)
        r = md["execute_result"]
        same(r and key_of(r), p.result, "execute_result in %s", what)
        same(md["execute_input"], p.input, "execute_input in %s", what)
        e = md["error"]
        # (from the hub as it was published)
        same(e and (e["evalue"] if isinstance(e, dict) else e.evalue), p.error, "error in %s", what)
        if data:
            same(dict(md["data"]), p.data, "data in %s", what)

    def public(self, t, i):
        """as users see it"""
        ar = t.ar
        for name in ("stdout", "stderr"):
            got = getattr(ar, name)
            got = [got] if t.single else got
            for p, g in zip(t.parts, got):
                if not p.frozen:
                    same(CR.sub("", g), p.norm(name), "%s of task %i (%s)", name, i, t.kind)
        got = ar.outputs
        got = [got] if t.single else got
        for p, g in zip(t.parts, got):
            if not p.frozen:
                same([key_of(o) for o in g], [k for k, _ in p.outputs], "outputs of task %i (%s)", i, t.kind)


def tokens(s):
    return re.findall(r"<\d+\.\d+>", s)


def run(case, ctx):
    ip = None if case["ip"] == "none" else FakeIP(case["ip"] == "kernel")
    if ip is not None and case["ip"] == "plain":
        # as in a terminal: no kernel
        del ip
        ip = FakeIP(False)
    w = World(case, ctx)
    with w.net, patched(ip) as rec:
        drive(case, ctx, w, ip, rec)


def drive(case, ctx, w, ip, rec):
    import warnings

    net, c = w.net, w.c
    warnings.simplefilter("ignore")

    def submit(kind, scripts):
        live = sorted(net.engines)
        if not live or sorted(c.ids) != live:
            return
        k = len(w.tasks)
        uu = {i: net.engines[i].uuid for i in live}

        def scr(i):
            return scripts[i % len(scripts)]

        execute = kind in ("exec", "exec1", "bcexec")
        single = kind in ("one", "lb", "exec1", "cbc")
        if kind == "one":
            ar = c[live[-1]].apply_async(id, 1)
            targets = [live[-1]]
        elif kind == "all":
            ar = c[:].apply_async(id, 1)
            targets = live
        elif kind == "lb":
            ar = c.load_balanced_view().apply_async(id, 1)
            targets = [None]
        elif kind == "exec":
            ar = c[:].execute("pass", silent=False, block=False)
            targets = live
        elif kind == "exec1":
            ar = c[live[0]].execute("pass", silent=False, block=False)
            targets = [live[0]]
        elif kind == "lbmap":
            ar = c.load_balanced_view().map_async(id, list(range(len(scripts))))
            targets = [None] * len(scripts)
        elif kind == "dmap":
            n = min(len(scripts), len(live))
            ar = c[:].map_async(id, list(range(n)))
            targets = live[:n]
        elif kind == "bc":
            ar = c.broadcast_view().apply_async(id, 1)
            targets = live
        elif kind == "bcexec":
            ar = c.broadcast_view().execute("pass", silent=False, block=False)
            targets = live
        else:
            ar = c.broadcast_view(is_coalescing=True).apply_async(id, 1)
            targets = live
        mids = list(ar.msg_ids)
        parts = []
        if kind == "cbc":
            # (an error in one of them is not the matter here)
            p = Part(mids[0], k, {uu[i]: (scr(j)[0], "none") for j, i in enumerate(live)}, execute)
            for i in live:
                w.parts["%s_%s" % (mids[0], uu[i])] = p
            w.parts[mids[0]] = p
            p.direct = [uu[i] for i in live]
            parts.append(p)
            ctx.tag("coalesced")
        else:
            same(len(mids), len(targets), "parts of the result of %s", kind)
            for j, (m, t) in enumerate(zip(mids, targets)):
                p = Part(m, k, {None: scr(j)}, execute)
                p.direct = [uu[t]] if t is not None else []
                p.where = t
                w.parts[m] = p
                parts.append(p)
        for p in parts:
            p.seq = kind in ("lbmap", "dmap")
        w.tasks.append(Task(ar, kind, parts, single))

    def noise(kind, i):
        live = sorted(net.engines)
        if not live:
            return
        e = net.engines[live[i % len(live)]]
        me = c.session.session
        if kind == "foreign":
            ps = list(w.parts)
            # (ids contain the session: the hub sees no two alike)
            parent = {"header": {"msg_id": ps[i % len(ps)] if ps and not case["hub"] else "x", "session": "somebody-else", "username": "v", "msg_type": "apply_request", "version": "5.3"}}
        elif kind == "noparent":
            parent = None
        elif kind == "comm":
            parent = {"header": {"msg_id": (list(w.parts) or ["x"])[i % max(1, len(w.parts))], "session": me, "username": "v", "msg_type": "apply_request", "version": "5.3"}}
            net.iopub(e, parent, "comm_msg", {"comm_id": "c%i" % i, "data": {}})
            return
        else:
            parent = {"header": {"msg_id": "nobody-%i" % i, "session": me, "username": "v", "msg_type": "apply_request", "version": "5.3"}}
        typ, content = [("stream", {"name": "stdout", "text": "<noise>"}), ("status", {"execution_state": "idle"}),
                        ("display_data", {"data": {"text/plain": "<noise>"}, "metadata": {}})][i % 3]
        net.iopub(e, parent, typ, content)

    def captured():
        out, err = io.StringIO(), io.StringIO()
        return out, err, contextlib.redirect_stdout(out), contextlib.redirect_stderr(err)

    def show(i, groupby, result_only):
        if not w.tasks:
            return
        i %= len(w.tasks)
        t = w.tasks[i]
        if not t.complete() or any(p.frozen for p in t.parts):
            return
        failed = any(p.error is not None for p in t.parts)
        rec["display"].clear()
        if ip is not None:
            ip.published.clear()
        out, err, a, b = captured()
        t.ar._last_display_prefix, t.ar._stream_trailing_newline = "", True
        with a, b:
            try:
                net.call(lambda: t.ar.display_outputs(groupby=groupby, result_only=result_only), "display_outputs", hang_s=3)
            except Exception as e:
                check(failed and t.single, "display_outputs(%r) of task %i (%s) raised %r", groupby, i, t.kind, e)
                raised = True
            else:
                raised = False
        ctx.tag("shown_" + groupby)
        ctx.nontrivial()
        what = "display_outputs(%r, %r) of task %i (%s)" % (groupby, result_only, i, t.kind)
        for name, buf in (("stdout", out), ("stderr", err)):
            if any("\r" in p.raw[name] for p in t.parts):
                continue
            want = [] if result_only else [x for p in t.parts for x in tokens(p.norm(name))]
            same(tokens(buf.getvalue()), want, "%s shown on %s", what, name)
            if not t.single:
                under(buf.getvalue(), name, {x: w.names.get(p.uuid) for p in t.parts for x in tokens(p.norm(name))}, what)
        if ip is None:
            return
        eids = [w.names.get(p.uuid) if isinstance(p.uuid, str) else None for p in t.parts]
        want = [] if result_only else [(n, j, k) for j, p in enumerate(t.parts) for n, (k, _) in enumerate(p.outputs)]
        if groupby == "order":
            want.sort(key=lambda x: x[:2])
        same([d["text/plain"] for d, _ in ip.published], [k for _, _, k in want], "%s: displayed", what)
        if t.kind != "cbc":
            # (an engine that left before isn't known anymore)
            same([m.get("engine") if eids[j] in net.engines else eids[j] for (_, m), (_, j, _) in zip(ip.published, want)], [eids[j] for _, j, _ in want],
                 "%s: engines of what was displayed", what)
        if not raised:
            # (its result is displayed, whatever that looks like)
            same(len(rec["display"]), sum(p.result is not None for p in t.parts), "%s: number of results displayed", what)

    def under(text, name, where, what):
        """everything is shown below the name of its engine"""
        at = None
        for piece in re.findall(r"\[%s:[^\]\n]*\] ?\n|<\d+\.\d+>" % name, text):
            if piece.startswith("<"):
                want = where[piece]
                check(at == str(want) or at == "None" and want not in net.engines, "%s: %s of engine %s is shown below %r: %r", what, piece, want, at, text)
            elif text.find(piece) >= 0:
                at = piece.split(":")[1].split("]")[0]

    def stream(i, n):
        if not w.tasks:
            return
        i %= len(w.tasks)
        t = w.tasks[i]
        if any(p.frozen for p in t.parts):
            return
        rec["display"].clear()
        rec["pub"].clear()
        if ip is not None:
            ip.published.clear()
        out, err, a, b = captured()
        errs = [p.error for p in t.parts]
        with a, b:
            with t.ar.stream_output():
                for _ in range(n):
                    if not net.step():
                        break
        if any(p.frozen for p in t.parts):
            return
        ctx.tag("streamed")
        ctx.nontrivial()
        what = "stream_output of task %i (%s)" % (i, t.kind)
        for name, buf in (("stdout", out), ("stderr", err)):
            cr = any("\r" in p.raw[name] for p in t.parts)
            if case["ip"] == "kernel":
                # displays that are updated
                ids = {}
                for d, tr, update in rec["pub"]:
                    text = d["text/plain"]
                    if text.startswith("[%s:" % name):
                        ids.setdefault(tr.get("display_id"), []).append((text, update))
                for did, seq in ids.items():
                    same([u for _, u in seq], [False] + [True] * (len(seq) - 1), "%s: updates of one display (%s)", what, name)
                got = sorted(CR.sub("", seq[-1][0].split("] ", 1)[1]) for seq in ids.values())
                # (a part without text need not have any)
                same([g for g in got if g], sorted(x for x in (p.norm(name) for p in t.parts) if x), "%s: final displays of %s", what, name)
                continue
            if cr:
                continue
            allowed = {x: p for p in t.parts for x in tokens(p.raw[name])}
            seen = [x for x in tokens(buf.getvalue()) if x in allowed]
            if name == "stdout":
                same(len(seen), len(tokens(buf.getvalue())), "%s: number of texts of this task shown on %s", what, name)
            for p in t.parts:
                same([x for x in seen if allowed[x] is p], tokens(p.raw[name]), "%s: shown on %s", what, name)
            if len(t.parts) == 1 and t.kind != "cbc" and name == "stdout" and not t.parts[0].raw["stderr"]:
                body = re.sub(r"\A\[stdout:[^\]]*\] ?\n", "", buf.getvalue())
                same(body, p.raw[name], "%s: text shown on %s", what, name)
            if t.kind != "cbc" and name == "stdout":
                under(buf.getvalue(), name, {x: where(p) for x, p in allowed.items()}, what)
        for p, before in zip(t.parts, errs):
            if p.error is not None and before is None:
                check(p.error in err.getvalue(), "%s: error %s is not shown in %r", what, p.error, err.getvalue())
        if ip is None:
            return
        if case["ip"] == "plain":
            got = [(d["text/plain"], m.get("engine")) for d, m in ip.published]
            for p in t.parts:
                mine = [k for k, _ in p.outputs]
                same([k for k, _ in got if k in mine], mine, "%s: displayed", what)
                if t.kind != "cbc":
                    same({m for k, m in got if k in mine} - ({None} if where(p) not in net.engines else set()) or {where(p)}, {where(p)}, "%s: engine of what was displayed", what)
            same(len(got), sum(len(p.outputs) for p in t.parts), "%s: number of displays", what)
            same(len(rec["display"]), sum(p.result is not None for p in t.parts), "%s: number of results displayed", what)

    def where(p):
        if getattr(p, "where", None) is not None:
            return p.where
        return net.placed.get(p.mid)

    def kill(i):
        live = sorted(net.engines)
        if len(live) < 2:
            return
        e = net.engines[live[i % len(live)]]
        queued = {w.unpack(fr[3] if len(fr) > 3 else fr)[0]["msg_id"] for k, q in net.queues.items() if k == ("exec", e.uuid) for fr in q if isinstance(fr[3], list)}
        net.kill(e.id)
        for p in w.all_parts():
            if p.mid in queued and not p.direct or p.mid in queued and p.direct == []:
                p.lost = True
            if len(p.direct) > 1 and e.uuid in p.direct or p.direct == []:
                p.lost = p.lost or not p.replied
            elif e.uuid in p.direct:
                p.lost = p.lost or not p.replied

    def one(op):
        if op[0] == "submit":
            submit(op[1], op[2])
        elif op[0] == "step":
            for _ in range(op[1]):
                if not net.step():
                    break
        elif op[0] == "iopub":
            for _ in range(op[1]):
                if not net.step(lambda k: k[0] == "iopub"):
                    break
        elif op[0] == "replies":
            for _ in range(op[1]):
                if not net.step(lambda k: k[0] == "reply"):
                    break
        elif op[0] == "noise":
            noise(op[1], op[2])
        elif op[0] == "abort":
            net.run_callbacks()
            todo = [p for p in w.all_parts() if not p.replied and p.direct and len(p.direct) == 1]
            if todo:
                p = todo[op[1] % len(todo)]
                for e in net.engines.values():
                    if e.uuid in p.direct:
                        e.kernel.aborted.add(p.mid)
        elif op[0] == "kill":
            net.run_callbacks()
            kill(op[1])
        elif op[0] == "stream":
            stream(op[1], op[2])
        elif op[0] == "show":
            show(op[1], op[2], op[3])
        w.invariant()

    for op in case["first"] + case["ops"]:
        one(op)
    net.run()
    w.invariant()
    for i, t in enumerate(w.tasks):
        lost = any(p.lost for p in t.parts)
        if not lost:
            check(t.complete(), "task %i (%s) is not complete in the end: %r", i, t.kind, [(p.replied, p.idle, p.waits) for p in t.parts])
        if t.ready():
            w.public(t, i)
    for j, g in enumerate(("type", "engine", "order")):
        for i in range(len(w.tasks)):
            show(i, g, False)
    if case["hub"]:
        from_hub(case, ctx, w)


def from_hub(case, ctx, w):
    """the hub's copy"""
    net, c = w.net, w.c
    ts = [t for t in w.tasks if t.kind not in ("bc", "bcexec", "cbc") and t.complete() and not any(p.frozen or p.lost for p in t.parts)]
    if not ts:
        return
    parts = [p for t in ts for p in t.parts]
    c.purge_local_results("all") if not c.outstanding else None
    if c.outstanding:
        return
    ar = net.call(lambda: c.get_result([p.mid for p in parts], owner=False), "get_result")
    net.call(lambda: ar.wait(10), "waiting for results of the hub")
    check(ar.ready(), "results of the hub are not there")
    ctx.tag("from_hub")
    for p, md in zip(parts, ar._metadata):
        w.judge(p, md, "metadata of task %i from the hub" % p.task, data=False, displays=False)


CORPUS = [
    {"n": 2, "ip": "plain", "first": [("submit", "cbc", [([("out", "stdout", "a\n"), ("disp", True)], "none")])], "ops": [("step", 3), ("stream", 0, 4)], "picks": [3, 1], "hub": False},
    {"n": 2, "ip": "plain", "first": [("submit", "lbmap", [([("out", "stdout", "a\n"), ("disp", True)], "none"), ([("disp", False), ("disp", False)], "none"), ([], "none")])],
     "ops": [("stream", 0, 9)], "picks": [3, 1], "hub": False},
    {"n": 2, "ip": "none", "first": [("submit", "exec", [([("out", "stdout", "a"), ("cr", "stdout", "\rb")], "result"), ([("out", "stderr", "x")], "err")])],
     "ops": [("iopub", 4), ("show", 0, "engine", False)], "picks": [0], "hub": True},
    {"n": 2, "ip": "kernel", "first": [("submit", "all", [([("out", "stdout", "a\n"), ("out", "stdout", "b\n")], "none")])], "ops": [("step", 6), ("stream", 0, 9)], "picks": [3, 1], "hub": False},
]


def reply_strategy():
    from hypothesis import strategies as st

    text = st.one_of(st.sampled_from(["", "1", "x" * 32, "x" * 33, "a\nb", "\na\nb", "é☃", "[0 1]\n", "\n"]), st.text(max_size=40))
    mimes = ["text/plain", "text/html", "image/png", "application/json", "image/svg+xml", "text/latex", "application/javascript", "image/jpeg"]
    data = st.dictionaries(st.sampled_from(mimes), text, max_size=4)
    meta = st.dictionaries(st.sampled_from(mimes + ["isolated"]), st.fixed_dictionaries({"width": st.integers(0, 9)}), max_size=3)
    return st.fixed_dictionaries({
        "result": st.one_of(st.none(), st.fixed_dictionaries({"data": data, "metadata": meta, "execution_count": st.integers(1, 99)}), st.fixed_dictionaries({"data": data, "metadata": meta, "execution_count": st.integers(1, 99)})),
        "count": st.integers(0, 999), "engine": st.integers(0, 99), "stdout": text, "shell": st.sampled_from([None, "NoColor", "Linux", "nocolor", "LightBG"]),
        "outputs": st.lists(st.fixed_dictionaries({"data": data, "metadata": meta}), max_size=2), "copy": st.sampled_from(["no", "copy", "deepcopy", "pickle"])})


def run_reply(case, ctx):
    """what the result of an execute shows of itself"""
    import copy
    import pickle
    from unittest import mock

    import IPython.display
    from ipyparallel.client import client as mod

    r = case["result"]
    md = mod.Metadata()
    now = __import__("datetime").datetime(2020, 1, 2)
    md.update({"execute_result": r and dict(r), "engine_id": case["engine"], "stdout": case["stdout"], "outputs": [dict(o) for o in case["outputs"]], "submitted": now, "status": "ok"})
    er = mod.ExecuteReply("m", {"execution_count": case["count"], "status": "ok"}, md)
    if case["copy"] != "no":
        er = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[case["copy"]](er)
        check(type(er) is mod.ExecuteReply and type(er.metadata) is mod.Metadata, "a copy is %r with %r", type(er), type(er.metadata))
        same(dict(er.metadata), dict(md), "metadata of a copy")
        ctx.tag("copy")
    shell = case["shell"] and type("Shell", (), {"colors": case["shell"]})()
    data = r["data"] if r else {}
    meta = r["metadata"] if r else {}
    plain = data.get("text/plain", "")
    same(er["engine_id"], case["engine"], "er['engine_id']")
    same(er.stdout, case["stdout"], "er.stdout")
    same(er.execution_count, case["count"], "er.execution_count")
    same(er.data, data, "er.data")
    for o in ("no_such_thing", "__wrapped__"):
        check(not hasattr(er, o), "er has %s", o)
    try:
        er["no_such_thing"]
        check(False, "er['no_such_thing'] is there")
    except KeyError:
        pass
    short = plain if len(plain) <= 32 else plain[:29] + "..."
    same(repr(er), "<ExecuteReply[%d]: %s>" % (case["count"], short), "repr")
    with mock.patch.object(mod, "get_ipython", lambda: shell):
        out = er._plaintext()
        bundle = er._repr_mimebundle_()
        seen = []
        p = type("P", (), {"text": lambda self, x: seen.append(x)})()
        er._repr_pretty_(p, False)
    same(seen, [out], "what is pretty printed")
    bare = re.sub("\x1b\\[[0-9;]*m", "", out[:60]) + out[60:]
    if plain:
        want = "Out[%d:%d]: " % (case["engine"], case["count"])
        check(bare.startswith(want), "the text %r should begin with %r", out, want)
        check(out.endswith(plain), "the text %r should end with the result's %r", out, plain)
        same(bare[len(want):], ("\n" if "\n" in plain and not plain.startswith("\n") else "") + plain, "the text of the result") if len(want) < 30 else None
        if shell is None or shell.colors.lower() == "nocolor":
            check("\x1b" not in out[:len(out) - len(plain)], "no colours are to be used: %r", out)
    else:
        same(out, "", "the text without a result")
    got, gmeta = bundle
    same(dict(got), {**data, "text/plain": out} if "text/plain" in data else data, "the data of the display")
    same(dict(gmeta), meta, "the metadata of the display")
    same(er.data, data, "the data, after it was displayed")
    for m, name in (("text/html", "html"), ("image/png", "png"), ("application/json", "json"), ("image/svg+xml", "svg"), ("text/latex", "latex")):
        same(getattr(er, "_repr_%s_" % name)(), None if m not in data else ((data[m], meta[m]) if m in meta else data[m]), "_repr_%s_()", name)
    calls = []

    def publish(data, metadata=None, **kw):
        calls.append((data, metadata, kw))
    with mock.patch.object(IPython.display, "publish_display_data", publish):
        er.display()
    same([(dict(a), dict(b or {}), k) for a, b, k in calls], [(data, meta, {})], "what display() publishes")
    if len(data) > 1 or meta:
        ctx.nontrivial()
    if r is None:
        ctx.tag("no-result")


SUBS = [Sub("output", strategy, run, quick=1500, thorough=30000, examples=CORPUS, weight=9),
        Sub("reply", reply_strategy, run_reply, quick=600, thorough=20000)]
