"""C33: the parallel magics, against a model of what they were asked to do.

A real IPython shell, real views and the real client; the engines are simulated and record each execute request they get.
Sequences of magics, options, plain cells, automatic mode and engines coming and going are generated."""
import contextlib
import io
import time

from vlib.runner import Sub, Violation, check, same

PROPERTY = "C33"
RULE = ("cases: 1-2 sets of magics over views with generated targets and blocking; sequences of %px, %%px with options, %pxconfig, %pxresult, %autopx and plain cells, given as text or as calls, "
        "with failing code, engines that join and leave, invalid options and interrupts. Non-trivial: at least three commands of two kinds, and one with options or in automatic mode")
ASSUMPTIONS = ["each engine's output messages reach the client in the order they were published", "a cell in automatic mode is valid Python for the local shell too",
               "one view in automatic mode at a time"]
SHARDS = 6
QUICK_S = 30
THOROUGH_S = 400
_shell = []


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    code = st.lists(st.sampled_from(["print", "print", "perr", "set", "multi", "brace", "dollar", "pct", "fail", "failsome", "comment", "blank", "uni", "value", "value"]), min_size=1, max_size=4)
    tgt = st.sampled_from(["all", "0", "-1", "[0]", "[0,1]", "0,1", ":", "::2", "1:", "[1,0]", "-1:"])
    badtgt = st.sampled_from(["99", "[0,99]", "nope", "1/0", "[0"])
    opt = weighted((4, st.tuples(st.just("block"), st.sampled_from(["-b", "--block"]))),
                   (4, st.tuples(st.just("noblock"), st.sampled_from(["-a", "--noblock"]))),
                   (3, st.just(("stream", "--stream"))), (3, st.just(("nostream", "--no-stream"))),
                   (5, st.tuples(st.just("targets"), tgt, st.sampled_from(["-t ", "--targets ", "--targets="]))),
                   (1, st.tuples(st.just("targets"), badtgt, st.just("-t "))),
                   (3, st.just(("verbose", "--verbose"))), (2, st.just(("noverbose", "--no-verbose"))),
                   (2, st.tuples(st.just("progress"), st.sampled_from(["-1", "0", "2", "0.01"]))),
                   (2, st.tuples(st.just("signal"), st.sampled_from(["SIGINT", "2", "0", "SIGKILL", "9", "SIGTERM"]))))
    outopt = weighted((2, st.just(("group", "order", "-r"))), (2, st.just(("group", "engine", "-e"))),
                      (3, st.sampled_from(["engine", "order", "type"]).map(lambda g: ("group", g, "--group-outputs=" + g))),
                      (3, st.tuples(st.just("out"), st.sampled_from(["res", "r2", "é"]), st.sampled_from(["-o ", "--out ", "--out="]))))
    local = st.just(("local", "--local"))
    via = st.sampled_from(["call", "text"])
    m = st.integers(0, 3)
    ops = weighted((6, st.tuples(st.just("px"), m, via, code)),
                   (10, st.tuples(st.just("cell"), m, via, st.lists(weighted((5, opt), (3, outopt), (1, local)), max_size=4), code)),
                   (2, st.tuples(st.just("intr"), m, st.lists(weighted((5, opt), (1, outopt)), max_size=3), code)),
                   (4, st.tuples(st.just("conf"), m, via, st.lists(opt, max_size=3))),
                   (3, st.tuples(st.just("result"), m, via, st.lists(outopt, max_size=2))),
                   (4, st.tuples(st.just("auto"), m, st.sampled_from(["call", "text", "text", "spaced"]))),
                   (6, st.tuples(st.just("plain"), code)),
                   (1, st.tuples(st.just("join"))),
                   (1, st.tuples(st.just("leave"), m)),
                   (1, st.tuples(st.just("setblock"), m, st.booleans())),
                   (2, st.tuples(st.just("finish"))))
    view = st.tuples(st.sampled_from(["all", "list", "list", "int", "slice"]), st.booleans())
    return st.fixed_dictionaries({"n": st.integers(1, 4), "views": st.lists(view, min_size=1, max_size=2), "suffix": st.sampled_from(["_b", "1", "even"]),
                                  "stream": st.booleans(), "late": st.booleans(), "picks": st.lists(st.integers(0, 60), min_size=1, max_size=12),
                                  "ops": st.lists(ops, min_size=2, max_size=12)})


def shell():
    if not _shell:
        from IPython.core.interactiveshell import InteractiveShell
        from traitlets.config import Config

        cfg = Config()
        cfg.HistoryManager.enabled = False
        cfg.InteractiveShell.colors = "nocolor"
        cfg.InteractiveShell.autocall = 0
        sh = InteractiveShell(config=cfg)
        _shell.append((sh, set(sh.user_ns)))
    sh, names = _shell[0]
    for n in ("run_cell", "run_ast_nodes"):
        sh.__dict__.pop(n, None)
    for n in set(sh.user_ns) - names:
        del sh.user_ns[n]
    return sh


class Model:
    """one set of magics"""

    def __init__(self, suffix, view, targets, block, stream):
        self.suffix = suffix
        self.view = view
        self.targets = targets       # "all", an int, or a list of ids
        self.block = block
        self.stream = stream
        self.verbose = False
        self.progress = 2
        self.signal = "SIGINT"
        self.last = None             # a Run


class Run:
    def __init__(self, ar, code, toks, engines, outs, single):
        self.ar = ar
        self.code = code
        self.toks = toks
        self.engines = engines
        self.outs = outs
        self.single = single


class World:
    def __init__(self, case, ctx):
        from ipyparallel.client import asyncresult as A, magics, view as V
        from vlib.clientsim import Net

        self.ctx = ctx
        self.case = case
        self.net = Net(list(range(case["n"])), picks=case["picks"], handler=self.handle)
        self.c = self.net.client
        self.sh = shell()
        self.out = io.StringIO()
        self.ran = []           # (engine id, code, silent)
        self.ntok = 0
        self.auto = None
        self.stack = contextlib.ExitStack()
        self.local = []
        for mod, name, f in ((V, "get_ipython", lambda: self.sh), (A, "get_ipython", lambda: self.sh), (A, "display", self.display),
                             (A, "display_pretty", lambda *a, **k: self.out.write("".join(map(str, a)) + "\n"))):
            self.stack.callback(setattr, mod, name, getattr(mod, name))
            setattr(mod, name, f)
        self.sh.user_ns.update(engine_id="L", perr=lambda s: self.out.write(s + "\n"), x="client")
        self.Ms = []
        for i, (kind, block) in enumerate(case["views"]):
            ids = sorted(self.net.engines)
            if kind == "all":
                v, t = self.c.direct_view("all"), "all"
            elif kind == "list":
                v, t = self.c[:], ids
            elif kind == "int":
                v, t = self.c[ids[-1]], ids[-1]
            else:
                v, t = self.c[::2], ids[::2]
            v.block = block
            suffix = case["suffix"] if i else ""
            v.activate(suffix)
            M = Model(suffix, v, t, block, case["stream"])
            M.obj = self.sh.magics_manager.magics["line"]["px" + suffix].__self__
            M.obj.stream_output = case["stream"]
            self.Ms.append(M)

    def close(self):
        self.stack.close()
        for n in ("run_cell", "run_ast_nodes"):
            self.sh.__dict__.pop(n, None)
        self.net.close()

    def display(self, *objs, **kw):
        for o in objs:
            self.out.write("<%s>\n" % (getattr(o, "execute_result", None) or {}).get("data", {}).get("text/plain", o))

    # -- engines -------------------------------------------------------------
    def handle(self, e, msg):
        import ast
        import traceback

        code = msg["content"]["code"]
        self.ran.append((e.id, code, msg["content"].get("silent")))
        e.count += 1
        ns = e.shell.user_ns
        send = lambda name: lambda s: self.net.iopub(e, msg, "stream", {"name": name, "text": s + "\n"})
        ns.update(print=send("stdout"), perr=send("stderr"))
        try:
            tree = ast.parse(code)
            last = tree.body.pop() if tree.body and isinstance(tree.body[-1], ast.Expr) else None
            exec(compile(tree, "<code>", "exec"), ns)
            value = eval(compile(ast.Expression(last.value), "<code>", "eval"), ns) if last is not None else None
        except Exception as ex:
            content = {"status": "error", "ename": type(ex).__name__, "evalue": str(ex), "traceback": traceback.format_exc().splitlines(), "execution_count": e.count}
            self.net.iopub(e, msg, "error", {k: content[k] for k in ("ename", "evalue", "traceback")})
            content["engine_info"] = e.kernel.get_engine_info(method="execute")
            return content, []
        if value is not None and not msg["content"].get("silent"):
            self.net.iopub(e, msg, "execute_result", {"execution_count": e.count, "data": {"text/plain": repr(value)}, "metadata": {}})
        return {"status": "ok", "execution_count": e.count, "payload": [], "user_expressions": {}}, []

    # -- code -----------------------------------------------------------------
    def code(self, kinds, oneline):
        """text, and what it does: list of (what, token)"""
        lines, does, failed = [], [], None
        value = None
        for k in kinds:
            self.ntok += 1
            t = "T%iz" % self.ntok
            value = None
            if k == "print":
                lines.append("print('%s-%%s.' %% engine_id)" % t)
                does.append(("out", t))
            elif k == "perr":
                lines.append("perr('%s-%%s.' %% engine_id)" % t)
                does.append(("err", t))
            elif k == "set":
                lines.append("last_set = %r" % t)
                does.append(("set", t))
            elif k == "multi":
                if oneline:
                    continue
                lines.append("for _i in range(1):\n    print('%s-%%s.' %% engine_id)\n\n    _j = '''\n  %%autopx\n'''" % t)
                does.append(("out", t))
            elif k == "brace":
                lines.append("last_set = '{x} {engine_id} %s'" % t)
                does.append(("set", "{x} {engine_id} " + t))
            elif k == "dollar":
                lines.append("last_set = '$x $$engine_id %s'" % t)
                does.append(("set", "$x $$engine_id " + t))
            elif k == "pct":
                lines.append("last_set = '%%px %s'" % t)
                does.append(("set", "%px " + t))
            elif k == "fail":
                lines.append("assert False, %r" % t)
                does.append(("fail", None))
            elif k == "failsome":
                lines.append("assert engine_id in ('L', 1, 3), %r" % t)
                does.append(("fail", (1, 3, "L")))
            elif k == "comment":
                if not oneline:
                    lines.append("# %s %%%%px --local" % t)
            elif k == "blank":
                if not oneline:
                    lines.append("")
            elif k == "uni":
                lines.append("last_set = '☃\\té\\\\ %s'" % t)
                does.append(("set", "☃\té\\ " + t))
            elif k == "value":
                value = "value %s" % t
                lines.append(repr(value))
                does.append(("value", value))
        if not does:
            lines.append("last_set = 'nothing'")
            does.append(("set", "nothing"))
        return (";  " if oneline else "\n").join(lines), does

    def effects(self, does, eid):
        """(out tokens, err tokens, set, value, failed) on an engine"""
        outs, errs, s, value, failed = [], [], None, None, False
        for i, (k, t) in enumerate(does):
            if k == "out":
                outs.append(t)
            elif k == "err":
                errs.append(t)
            elif k == "set":
                s = t
            elif k == "fail" and (t is None or eid not in t):
                failed = True
                break
            elif k == "value" and i == len(does) - 1:
                value = t
        return outs, errs, s, value, failed

    # -- expectations -----------------------------------------------------------
    def resolve(self, targets):
        ids = sorted(self.net.engines)
        if targets == "all":
            return (ids, False) if ids else None
        if isinstance(targets, int):
            if targets < 0:
                if -targets > len(ids):
                    return None
                targets = ids[targets]
            return ([targets], True) if targets in ids else None
        out = []
        for t in targets:
            if t not in ids:
                return None
            out.append(t)
        return (out, False) if out else None

    def parse_targets(self, text):
        """None: not valid"""
        ids = sorted(self.net.engines)
        if ":" in text:
            a = [int(p) if p else None for p in text.split(":")]
            return ids[slice(*a)]
        if text == "all":
            return "all"
        if text in ("nope", "1/0", "[0"):
            return None
        if text.startswith("["):
            return [int(x) for x in text[1:-1].split(",")]
        if "," in text:
            return [int(x) for x in text.split(",")]
        return int(text)

    def options(self, opts):
        """(text, dict); the last of contradicting options counts"""
        text, d = [], {}
        for o in opts:
            k = o[0]
            if k in ("block", "noblock"):
                d["block"] = k == "block"
                text.append(o[1])
            elif k in ("stream", "nostream"):
                d["stream"] = k == "stream"
                text.append(o[1])
            elif k in ("verbose", "noverbose"):
                d["verbose"] = k == "verbose"
                text.append(o[1])
            elif k == "targets":
                d["targets"] = o[1]
                # -1: is an option for argparse
                text.append(("--targets=" if o[1] == "-1:" else o[2]) + o[1])
            elif k == "progress":
                d["progress"] = float(o[1])
                text.append("--progress-after " + o[1])
            elif k == "signal":
                d["signal"] = int(o[1]) if o[1].isdigit() else o[1]
                text.append("--signal-on-interrupt " + o[1])
            elif k == "group":
                d["group"] = o[1]
                text.append(o[2])
            elif k == "out":
                d["out"] = o[1]
                text.append(o[2] + o[1])
            elif k == "local":
                d["local"] = True
                text.append(o[1])
        return " ".join(text), d

    def invoke(self, fn, blocking):
        """(value, error, output) of a command; nothing is delivered if it is not to block"""
        self.out.seek(0)
        self.out.truncate()
        value = err = None
        with contextlib.redirect_stdout(self.out), contextlib.redirect_stderr(self.out):
            try:
                value = self.net.call(fn, "a command that blocks" if blocking else "a command that is not to block", only=self.gate() if blocking else (lambda k: False))
            except Violation:
                raise
            except BaseException as e:
                err = e
            # what was handed to the IO thread is sent
            self.net.run_callbacks()
        return value, err, self.out.getvalue()

    def gate(self):
        """what may be delivered while a command blocks: anything, or output a little later than replies"""
        if not self.case["late"]:
            return None
        quiet = []

        def only(k):
            if k[0] != "iopub":
                return True
            if any(k[0] != "iopub" for k in self.net.pending()):
                del quiet[:]
                return False
            quiet[:] = quiet or [time.monotonic()]
            return time.monotonic() - quiet[0] > 0.03

        return only

    def sent(self, since):
        """execute requests sent: (engine id, code, silent, type)"""
        out = []
        for name, frames in self.net.log[since:]:
            if name != "mux":
                continue
            e = next(e for e in list(self.net.engines.values()) + self.net.dead if e.uuid == frames[0].decode())
            m = e.session.deserialize([bytes(f) for f in frames[2:]], content=True)
            e.session.digest_history.clear()
            out.append((e.id, m))
        return out

    def text_result(self, r):
        """what shell.run_cell came to, as a call would have it"""
        if r.error_before_exec is not None:
            raise r.error_before_exec
        if r.error_in_exec is not None:
            raise r.error_in_exec
        return r.result

    def expect_run(self, M, label, fn, code, does, targets, block, stream, verbose, group="type", out=None, local=False, loose=False, caught=False):
        """run a command that is to execute code on targets, and compare"""
        net = self.net
        n = len(net.log)
        where = self.resolve(targets) if targets is not None else None
        was = M.last
        value, err, text = self.invoke(fn, block)
        reqs = self.sent(n)
        if where is None:
            self.ctx.tag("invalid-targets")
            same(len(reqs), 0, "%s: requests sent although the targets are not there" % label)
            check(caught or err is not None, "%s with targets that are not there raised nothing", label)
            check(not isinstance(err, KeyboardInterrupt), "%s: interrupted", label)
            return None
        engines, single = where
        same(sorted(e for e, m in reqs), sorted(engines), "%s: engines that got a request" % label)
        for e, m in reqs:
            same(m["header"]["msg_type"], "execute_request", "%s: the request's type" % label)
            got = m["content"]["code"]
            if loose and got == code + "\n":
                got = code
            same(got, code, "%s: the code sent" % label)
            check(not m["content"].get("silent"), "%s: the request is silent", label)
        ar = M.obj.last_result
        check(ar is not None and (was is None or ar is not was.ar), "%s: the last result is not that of this command", label)
        same(sorted(ar.msg_ids), sorted(m["header"]["msg_id"] for e, m in reqs), "%s: requests of the last result" % label)
        outs = {e: self.effects(does, e) for e in engines}
        run = M.last = Run(ar, code, does, engines, outs, single)
        if out is not None:
            check(self.sh.user_ns.get(out) is ar, "%s: the result was not saved as %s", label, out)
        same("execution on engine(s)" in text, verbose, "%s: the message about the execution was printed" % label)
        if verbose:
            # a cell that runs locally too is submitted without blocking
            if not local:
                same("Async parallel execution" in text, not block, "%s: the message says the execution is asynchronous" % label)
        failed = any(o[4] for o in outs.values())
        if local:
            lo, le, ls, lv, lf = self.effects(does, "L")
            for t in lo + le:
                same(text.count(t + "-L."), 1, "%s: times the local output %s was printed" % (label, t))
            if ls is not None:
                same(self.sh.user_ns.get("last_set"), ls, "%s: value set locally" % label)
        else:
            check("-L." not in text, "%s: the code ran locally too", label)
        if not block:
            check(err is None, "%s raised %r", label, err)
            # a cell run in a cell makes IPython forget the outer cell's value
            if not caught and not (local and loose):
                check(value is ar, "%s does not return its result, but %r", label, value)
            check(not any("%s-%s." % (t, e) in text for e in engines for t in outs[e][0] + outs[e][1]), "%s: output of engines that have not run yet", label)
            return run
        self.judge_blocked(M, label, run, value, err, text, stream and not local, group, caught, failed)
        return run

    def judge_blocked(self, M, label, run, value, err, text, stream, group, caught, failed):
        from ipyparallel import error

        check(run.ar._ready, "%s blocks, but returned before its result was there", label)
        check(value is None, "%s blocks, but returned %r", label, value)
        if not caught:
            if failed:
                check(isinstance(err, error.RemoteError), "%s: failed on engines, but raised %r", label, err)
            else:
                check(err is None, "%s raised %r", label, err)
        else:
            check(err is None, "%s raised %r", label, err)
        self.judge_output(label, run, text, stream, group)
        for e in run.engines:
            if run.outs[e][2] is not None:
                same(self.net.engines[e].shell.user_ns.get("last_set"), run.outs[e][2], "%s: value set on engine %i" % (label, e))

    def judge_output(self, label, run, text, stream, group):
        order = []
        for e in run.engines:
            outs, errs, s, value, failed = run.outs[e]
            for t in outs + errs:
                n = text.count("%s-%s." % (t, e))
                if stream:
                    check(n >= 1, "%s: output %s of engine %i was not shown", label, t, e)
                else:
                    same(n, 1, "%s: times output %s of engine %i was shown" % (label, t, e))
            if value is not None:
                n = text.count("<'%s'>" % value)
                check(n >= 1, "%s: the value %r was not shown", label, value)
        if stream or run.single:
            return
        values = [run.outs[e][3] for e in run.engines if run.outs[e][3] is not None]
        for v in set(values):
            same(text.count("<'%s'>" % v), values.count(v), "%s: times the value %r was shown" % (label, v))
        O = lambda e: ["%s-%s." % (t, e) for t in run.outs[e][0]]
        E = lambda e: ["%s-%s." % (t, e) for t in run.outs[e][1]]
        if group == "engine":
            want = [t for e in run.engines for t in O(e) + E(e)]
        else:
            want = [t for e in run.engines for t in O(e)] + [t for e in run.engines for t in E(e)]
        got = sorted(want, key=text.index)
        same(got, want, "%s: order of the output, grouped by %s" % (label, group))

    # -- operations -----------------------------------------------------------
    def M(self, i):
        return self.Ms[i % len(self.Ms)]

    def call(self, M, name, via, line, cell=None):
        if via == "text":
            text = ("%%" if cell is not None else "%") + name + M.suffix + (" " + line if line else "") + ("\n" + cell if cell is not None else "")
            return lambda: self.text_result(self.sh.run_cell(text))
        if cell is None:
            return lambda: self.sh.run_line_magic(name + M.suffix, line)
        return lambda: self.sh.run_cell_magic(name + M.suffix, line, cell)

    def op_px(self, op):
        M = self.M(op[1])
        code, does = self.code(op[3], True)
        if op[2] == "text" and self.auto is not None:
            return
        self.expect_run(M, "%%px (%s)" % op[2], self.call(M, "px", op[2], code), code, does, M.targets, M.block, M.stream, M.verbose, loose=op[2] == "text")

    def op_cell(self, op, interrupt=False):
        M = self.M(op[1])
        via = op[2]
        if self.auto is not None:
            if via == "text":
                return
        code, does = self.code(op[4], False)
        text, d = self.options(op[3])
        if d.get("local") and self.auto is not None:
            return
        targets = M.targets
        if "targets" in d:
            targets = self.parse_targets(d["targets"])
            self.ctx.tag("cell-targets")
        block = d.get("block", M.block)
        self.opts = True
        for k in d:
            self.ctx.tag("opt-" + k)
        kw = dict(group=d.get("group", "type"), out=d.get("out"), local=d.get("local", False))
        if targets is None or self.resolve(targets) is None:
            kw["out"] = None
        label = "%%%%px %s (%s)" % (text, via)
        fn = self.call(M, "px", via, text, code)
        if not interrupt:
            if block and d.get("progress", M.progress) < 0:
                self.ctx.tag("no-progress")
            self.expect_run(M, label, fn, code, does, targets, block, d.get("stream", M.stream), d.get("verbose", M.verbose), loose=via == "text", **kw)
        else:
            self.interrupted(M, label, fn, code, does, targets, block, d)
        same(M.view.targets, M.targets, "targets of the view after %s" % label)
        same(M.view.block, M.block, "blocking of the view after %s" % label)

    def op_intr(self, op):
        self.op_cell(("cell", op[1], "call", [o for o in op[2] if o[0] not in ("block", "noblock", "progress")] + [("block", "-b")], op[3]), True)

    def interrupted(self, M, label, fn, code, does, targets, block, d):
        """the user interrupts a command while it waits"""
        from ipyparallel import AsyncResult

        if targets is None or self.resolve(targets) is None or M.progress <= 0:
            return
        engines, single = self.resolve(targets)
        self.ctx.tag("interrupt")
        before = {e: len(getattr(self.net.engines[e], "control", [])) for e in self.net.engines}
        orig = AsyncResult.wait
        n = []

        def wait(ar, *a, **k):
            if not n:
                n.append(1)
                raise KeyboardInterrupt()
            return orig(ar, *a, **k)

        AsyncResult.wait = wait
        try:
            value, err, text = self.invoke(fn, True)
        finally:
            AsyncResult.wait = orig
        check(n, "%s does not wait for its result", label)
        check(err is None, "%s raised %r after an interrupt", label, err)
        sig = d.get("signal", M.signal)
        for e in self.net.engines:
            got = [(t, c.get("sig")) for t, c in getattr(self.net.engines[e], "control", [])[before[e]:]]
            same(got, [("signal_request", sig)] if e in engines else [], "signals sent to engine %i on an interrupt of %s" % (e, label))
        M.last = Run(M.obj.last_result, code, does, engines, {e: self.effects(does, e) for e in engines}, single)

    def op_conf(self, op):
        M = self.M(op[1])
        if op[2] == "text" and self.auto is not None:
            return
        text, d = self.options(op[3])
        n = len(self.net.log)
        label = "%%pxconfig %s" % text
        value, err, out = self.invoke(self.call(M, "pxconfig", op[2], text), False)
        same(len(self.net.log), n, "%s: messages sent" % label)
        if "targets" in d:
            t = self.parse_targets(d["targets"])
            if t is None:
                check(err is not None, "%s did not fail", label)
                same(M.view.targets, M.targets, "targets after an invalid %s" % label)
                return
            M.targets = t
        check(err is None, "%s raised %r", label, err)
        if "targets" in d:
            got = M.view.targets
            same(list(got) if isinstance(got, (tuple, list)) else got, M.targets, "targets after %s" % label)
            M.targets = got if isinstance(got, tuple) else M.targets
        M.block = d.get("block", M.block)
        same(M.view.block, M.block, "blocking after %s" % label)
        M.stream = d.get("stream", M.stream)
        M.verbose = d.get("verbose", M.verbose)
        M.signal = d.get("signal", M.signal)
        M.progress = d.get("progress", M.progress)
        if d:
            self.opts = True

    def op_result(self, op):
        from IPython.core.error import UsageError

        M = self.M(op[1])
        if op[2] == "text" and self.auto is not None:
            return
        text, d = self.options(op[3])
        n = len(self.net.log)
        label = "%%pxresult %s" % text
        save = d.get("out")
        value, err, out = self.invoke(self.call(M, "pxresult", op[2], text), save is None)
        same(len(self.net.log), n, "%s: messages sent" % label)
        run = M.last
        if run is None:
            check(isinstance(err, UsageError), "%s without a result: %r", label, err)
            return
        self.ctx.tag("pxresult")
        if save is not None:
            check(err is None, "%s raised %r", label, err)
            check(self.sh.user_ns.get(save) is run.ar, "%s: saved %r", label, self.sh.user_ns.get(save))
            return
        from ipyparallel import error

        if any(o[4] for o in run.outs.values()):
            check(isinstance(err, error.RemoteError), "%s of a failed execution: %r", label, err)
            return
        check(err is None, "%s raised %r", label, err)
        self.judge_output(label, run, out, False, d.get("group", "type"))

    def op_auto(self, op):
        M = self.M(op[1])
        if self.auto is not None:
            M = self.auto
        n = len(self.net.log)
        cmd = "autopx" + M.suffix
        text = {"text": "%" + cmd, "spaced": "  %" + cmd + " \n"}.get(op[2])
        if text is None:
            fn = lambda: self.sh.run_line_magic(cmd, "")
        else:
            fn = lambda: self.text_result(self.sh.run_cell(text))
        value, err, out = self.invoke(fn, False)
        check(err is None, "%%%s raised %r", cmd, err)
        same(len(self.net.log), n, "%%%s: messages sent when switching automatic mode %s" % (cmd, "on" if self.auto is None else "off"))
        self.auto = M if self.auto is None else None
        self.ctx.tag("autopx" + ("-suffix" if M.suffix else ""))
        self.opts = True

    def op_plain(self, op):
        code, does = self.code(op[1], False)
        if self.auto is None:
            n = len(self.net.log)
            value, err, text = self.invoke(lambda: self.sh.run_cell(code), False)
            same(len(self.net.log), n, "messages sent for a plain cell")
            outs, errs, s, v, failed = self.effects(does, "L")
            check(err is None, "a plain cell raised %r", err)
            for t in outs + errs:
                same(text.count(t + "-L."), 1, "times a plain cell's output was printed")
            if s is not None:
                same(self.sh.user_ns.get("last_set"), s, "value set by a plain cell")
            same(value.success, not failed, "success of a plain cell")
            return
        M = self.auto
        before = self.sh.user_ns.get("last_set")
        self.ctx.tag("auto-cell")
        r = self.expect_run(M, "a cell in automatic mode", lambda: (self.sh.run_cell(code), None)[1], code, does, M.targets, M.block, M.stream, M.verbose, caught=True)
        same(self.sh.user_ns.get("last_set"), before, "local value after a cell in automatic mode")
        if M.block and r is not None:
            same(self.sh.last_execution_succeeded, not any(o[4] for o in r.outs.values()), "success of a cell in automatic mode")

    def op_join(self, op):
        self.net.add_engine()
        self.net.run()

    def op_leave(self, op):
        # only engines without work
        self.net.run()
        ids = sorted(self.net.engines)
        if len(ids) > 1:
            self.net.kill(ids[op[1] % len(ids)])
            self.net.run()

    def op_setblock(self, op):
        M = self.M(op[1])
        M.view.block = M.block = op[2]

    def op_finish(self, op):
        n = self.net.run()
        if n:
            self.ctx.tag("finished-later")


def run(case, ctx):
    w = World(case, ctx)
    w.opts = False
    kinds = []
    try:
        for op in case["ops"]:
            getattr(w, "op_" + op[0])(op)
            kinds.append(op[0])
        if w.auto is not None:
            w.op_auto(("auto", 0, "text"))
            w.op_plain(("plain", ["set", "print"]))
        w.net.run()
        # what engines ran is what was sent
        for M in w.Ms:
            if M.last is not None:
                check(M.last.ar.done() or M.last.ar.ready(), "a result is missing in the end")
        if w.net.errors:
            raise Violation("the client failed on a message:\n" + w.net.errors[-1])
        if len(kinds) >= 3 and len(set(kinds)) >= 2 and w.opts:
            ctx.nontrivial()
    finally:
        w.close()


SUBS = [Sub("magics", strategy, run, quick=1200, thorough=10000)]
