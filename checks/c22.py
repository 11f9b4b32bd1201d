"""C22: a real engine kernel against a model of its namespace and of what is to be answered."""
import contextlib
import io
import re

from vlib.runner import HarnessError, Skip, Sub, Violation, check, same

PROPERTY = "C22"
RULE = ("cases: sequences of apply, execute, abort and clear requests - functions that return anything, set and read globals, raise anything, take arrays apart, tamper with the "
        "request's temporary names, return what cannot be sent, depend on the namespace - handled by a real kernel with its shell, aborts arriving before, between and "
        "after the requests. Non-trivial: a request failed, was aborted, or depended on an earlier one")
ASSUMPTIONS = ["requests are handled one after another, in the order in which they arrived", "nothing but the requests changes the namespace"]
SHARDS = 6
QUICK_S = 30
THOROUGH_S = 400

FUNCS = {
    "ident": "def f(*a, **k): return [a, k]",
    "set": "def f(n, v):\n    globals()[n] = v\n    return n",
    "set0": "def f(n, v):\n    global g0\n    g0 = v\n    return n",
    "get0": "def f(n): return g0",
    "get1": "def f(n): return g1",
    "del": "def f(n):\n    del globals()[n]",
    "raise": "def f(mk, x): raise mk(x)",
    "unpicklable": "def f():\n    import threading\n    return threading.Lock()",
    "generator": "def f(): return (x for x in [1])",
    "arrays": "def f(a, b, n=1):\n    return a * n, len(b), bytes(b[:2])",
    "mutate": "def f(d):\n    d['x'] = 1\n    d['l'].append(2)\n    return d",
    "tamper": "def f(v):\n    g = globals()\n    for k in [k for k in g if 'client' in k]:\n        del g[k]\n    return v",
    "overwrite": "def f(v):\n    g = globals()\n    for k in [k for k in g if 'client' in k]:\n        g[k] = 'overwritten'\n    return v",
    "names": "def f(): return sorted(k for k in globals() if k[0] == 'g' and k[1:].isdigit())",
    "nested": "def f(v):\n    def g(x): return x + [v]\n    return (lambda h: h([1]))(g)",
    "recurse": "def f(n): return 1 if n == 0 else f(n - 1)",
    "none": "def f(): pass",
    "exit": "def f():\n    import sys\n    sys.exit(3)",
    "interrupt": "def f(): raise KeyboardInterrupt()",
    "badstr": "def f():\n    class E(Exception):\n        def __str__(self): raise ValueError('no')\n    raise E('x')",
    "notstr": "def f():\n    class E(Exception):\n        def __str__(self): return 3\n    raise E('x')",
    "unicode": "def f():\n    class Été(Exception): pass\n    raise Été('ö')",
    "usage": "def f(v):\n    from IPython.core.error import UsageError\n    raise UsageError(v)",
    "chain": "def f(v):\n    try:\n        1 / 0\n    except ZeroDivisionError as e:\n        raise LookupError(v) from e",
    "badtb": "def f(v):\n    class E(Exception):\n        @property\n        def __traceback__(self): raise ValueError('tb')\n    raise E(v)",
}
MESSAGES = ["boom", "", "é☃\U0001f600", "two\nlines", "\udc80file", "\ud800", "a\x00b", "%s %d {x}", "x" * 3000]
EXC = ["ValueError", "KeyError", "OSError", "ZeroDivisionError", "StopIteration", "AssertionError", "UnicodeError", "BaseException", "GeneratorExit", "SystemExit", "SyntaxError",
       "ImportError", "MemoryError", "RecursionError"]


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    name = st.sampled_from(["g0", "g1", "g2"])
    val = st.one_of(st.integers(-3, 3), st.text(max_size=3), st.lists(st.integers(0, 9), max_size=3), st.none(), st.dictionaries(st.sampled_from("xyz"), st.integers(0, 3), max_size=2))
    call = weighted(
        (4, st.tuples(st.just("ident"), st.lists(val, max_size=3), st.dictionaries(st.sampled_from(["k1", "f", "args", "self", "result"]), val, max_size=3))),
        (4, st.tuples(st.just("set"), name, val)),
        (2, st.tuples(st.just("set0"), val)),
        (3, st.tuples(st.sampled_from(["get0", "get1"]))),
        (2, st.tuples(st.just("del"), name)),
        (4, st.tuples(st.just("raise"), st.sampled_from(EXC), st.sampled_from(MESSAGES))),
        (1, st.tuples(st.sampled_from(["unpicklable", "generator", "none", "exit", "interrupt", "badstr", "notstr", "unicode", "names", "badargs", "badfunc"]))),
        (2, st.tuples(st.just("arrays"), st.integers(0, 5), st.integers(0, 5), st.integers(0, 3))),
        (1, st.tuples(st.just("mutate"), st.lists(st.integers(0, 3), max_size=3))),
        (2, st.tuples(st.sampled_from(["tamper", "overwrite", "nested", "chain", "badtb", "usage"]), st.integers(0, 9))),
        (1, st.tuples(st.just("recurse"), st.integers(0, 4))),
        (3, st.tuples(st.just("depend"), st.sampled_from(["true", "false", "global", "raise", "missing"]), name, val)),
        (1, st.tuples(st.just("require"), st.sampled_from(["math", "no_such_module_x", "os.path"]))),
    )
    code = weighted(
        (3, st.tuples(st.just("assign"), name, val)), (2, st.tuples(st.just("expr"), name)), (1, st.tuples(st.just("error"), st.sampled_from(["boom", "é"]))),
        (1, st.just(("syntax",))), (1, st.tuples(st.just("uexpr"), name)), (1, st.tuples(st.just("print"), st.sampled_from(["a", "é"]))), (1, st.tuples(st.just("del"), name)))
    op = weighted((10, st.tuples(st.just("apply"), call, st.booleans())), (3, st.tuples(st.just("exec"), code, st.booleans())),
                  (4, st.tuples(st.just("abort"), st.lists(st.integers(0, 30), min_size=1, max_size=3), st.booleans())),
                  (1, st.just(("clear",))), (1, st.tuples(st.just("abortall"), st.booleans())), (8, st.tuples(st.just("run"), st.integers(1, 5))), (1, st.tuples(st.just("junk"), st.sampled_from(["type", "frames", "content"]))))
    return st.lists(op, min_size=1, max_size=16)


class Bad:
    """can be sent, but not received"""

    def __reduce__(self):
        return (explode, ("cannot be loaded",))


def explode(x):
    raise ValueError(x)


def function(name):
    ns = {"__name__": "__main__"}
    exec(FUNCS[name], ns)
    f = ns["f"]
    f.__module__ = "__main__"
    return f


class Req:
    def __init__(self, mid, frames, want, effect=None):
        self.mid = mid
        self.frames = frames
        self.want = want        # function of the namespace -> ("ok", value) / ("err", ename, evalue or None) / ("exec", ...)
        self.state = "new"


def run(ops, ctx):
    import warnings

    from vlib import kernelsim

    warnings.simplefilter("ignore")
    box = kernelsim.box()
    g = {}                # the namespace, as it should be
    queue, reqs = [], []
    aborted = set()
    last = [None, None]   # the last traceback, and of what
    box.label = 0

    def outcome(r):
        """of a request that is run now; changes the model"""
        return r.want()

    def handle(r):
        queue.remove(r)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            replies, iopub = box.dispatch(r.frames)
        what = "%s (%r)" % (r.typ, r.what)
        check(len(replies) == 1, "%s: %d replies: %r", what, len(replies), replies)
        m = replies[0]
        same(m["idents"], [b"client"], "%s: idents of the reply", what)
        same(m["header"]["msg_type"], r.typ.replace("_request", "_reply"), "%s: type of the reply", what)
        same(m["parent_header"]["msg_id"], r.mid, "%s: parent of the reply", what)
        c, md = m["content"], m["metadata"]
        same(md.get("status"), c["status"], "%s: status in the metadata", what)
        same(md.get("engine"), "e003", "%s: engine in the metadata", what)
        same(md.get("label"), r.label, "%s: label in the metadata", what)
        check("started" in md, "%s: no start time", what)
        states = [i["content"]["execution_state"] for i in iopub if i["header"]["msg_type"] == "status" and i["parent_header"].get("msg_id") == r.mid]
        same(states, ["busy", "idle"], "%s: status messages", what)
        for i in iopub:
            same(i["parent_header"].get("msg_id"), r.mid, "%s: parent of a %s message", what, i["header"]["msg_type"])
        kinds = [i["header"]["msg_type"] for i in iopub]
        if r.mid in aborted:
            aborted.discard(r.mid)
            same(c["status"], "aborted", "%s was aborted, but its status", what)
            same(set(kinds), {"status"}, "%s was aborted, but published", what)
            ctx.nontrivial()
            ctx.tag("aborted")
        else:
            judge(r, outcome(r), c, md, m["buffers"], kinds, what)
        spaces(what)

    def judge(r, want, c, md, bufs, kinds, what):
        from ipyparallel.serialize import deserialize_object

        met = md.get("dependencies_met")
        if want[0] == "ok":
            same(c["status"], "ok", "%s: status (%s: %s)", what, c.get("ename"), c.get("evalue"))
            same(met, True, "%s: dependencies_met", what)
            got, rest = deserialize_object([bytes(b) for b in bufs])
            check(not rest, "%s: buffers left over", what)
            check(eq(got, want[1]), "%s: returned %r, expected %r", what, got, want[1])
            return
        if want[0] == "exec":
            same(c["status"], "ok", "%s: status (%s: %s)", what, c.get("ename"), c.get("evalue"))
            check(("execute_result" in kinds) == want[1], "%s: published %r", what, kinds)
            for k, v in (want[2] or {}).items():
                same(c["user_expressions"][k]["status"], v, "%s: user expression", what)
            return
        ctx.nontrivial()
        same(c["status"], "error", "%s: status", what)
        same(c["ename"], want[1], "%s: name of the error", what)
        check(isinstance(c["evalue"], str), "%s: evalue %r", what, c["evalue"])
        if want[2] is not None:
            same(c["evalue"], want[2], "%s: message of the error", what)
        check(isinstance(c["traceback"], list) and all(isinstance(t, str) for t in c["traceback"]), "%s: traceback %r", what, c["traceback"])
        if len(want) > 3 and want[3]:
            check(c["ename"] in "\n".join(c["traceback"]), "%s: traceback %r", what, c["traceback"])
        # (some errors have none; none has one of another request)
        if c["traceback"]:
            check(c["traceback"] != last[0] or c["ename"] == last[1], "%s: the traceback is that of the %s before: %r", what, last[1], c["traceback"])
            last[:] = c["traceback"], c["ename"]
        same(c["engine_info"], {"engine_uuid": "e003", "engine_id": 3, "method": r.typ.split("_")[0]}, "%s: engine_info", what)
        same(met, want[1] != "UnmetDependency", "%s: dependencies_met", what)
        check(not bufs, "%s: an error with buffers", what)
        ctx.tag("error")

    def spaces(what):
        ns = box.kernel.shell.user_ns
        left = [k for k in ns if "client" in k and re.search(r"\d", k)]
        check(not left, "after %s names are left in the namespace: %r", what, left)
        mine = {k: ns[k] for k in ns if re.fullmatch(r"g\d", k)}
        check(set(mine) == set(g) and all(eq(mine[k], g[k]) for k in g), "after %s the namespace has %r, expected %r", what, mine, g)

    def apply_(call, label):
        import numpy

        from ipyparallel.controller.dependency import depend, require
        from ipyparallel.serialize import pack_apply_message

        kind = call[0]
        f, args, kwargs = None, (), {}
        if kind == "ident":
            f, args, kwargs = function(kind), tuple(call[1]), dict(call[2])
            want = lambda: ("ok", [args, kwargs])
        elif kind in ("set", "set0"):
            n, v = ("g0", call[1]) if kind == "set0" else call[1:]
            f, args = function(kind), (n, v)

            def want():
                g[n] = v
                return ("ok", n)
        elif kind in ("get0", "get1"):
            n = "g" + kind[3]
            f, args = function(kind), (n,)

            def want():
                if n in g:
                    ctx.nontrivial()
                    return ("ok", g[n])
                return ("err", "NameError", "name %r is not defined" % n)
        elif kind == "del":
            f, args = function(kind), (call[1],)

            def want():
                if call[1] in g:
                    del g[call[1]]
                    return ("ok", None)
                return ("err", "KeyError", repr(call[1]))
        elif kind == "raise":
            import builtins

            e = getattr(builtins, call[1])
            f, args = function(kind), (e, call[2])
            try:
                text = str(e(call[2]))
            except Exception:
                text = None
            # (a lone surrogate has no encoding)
            soft = call[2].encode("utf8", "replace") != call[2].encode("utf8", "surrogatepass")
            want = lambda: ("err", call[1], None if soft or call[1] == "SyntaxError" else text, call[1] not in ("SystemExit", "SyntaxError") and not soft)
        elif kind in ("unpicklable", "generator"):
            f = function(kind)
            want = lambda: ("err", "TypeError", None)
        elif kind == "none":
            f = function(kind)
            want = lambda: ("ok", None)
        elif kind == "exit":
            f = function(kind)
            want = lambda: ("err", "SystemExit", "3")
        elif kind == "interrupt":
            f = function(kind)
            want = lambda: ("err", "KeyboardInterrupt", "")
        elif kind in ("badstr", "notstr"):
            f = function(kind)
            want = lambda: ("err", "E", None)
        elif kind == "unicode":
            f = function(kind)
            want = lambda: ("err", "Été", "ö", True)
        elif kind == "names":
            f = function(kind)
            want = lambda: ("ok", sorted(g))
        elif kind == "badargs":
            f, args = function("ident"), (Bad(),)
            want = lambda: ("err", "ValueError", "cannot be loaded")
        elif kind == "badfunc":
            f = 3
            want = lambda: ("err", "TypeError", None, True)
        elif kind == "arrays":
            a = numpy.arange(call[1] * 400)
            b = bytes(range(call[2])) * 300
            f, args, kwargs = function(kind), (a, b), {"n": call[3]}
            want = lambda: ("ok", (a * call[3], len(b), b[:2]))
        elif kind == "mutate":
            f, args = function(kind), ({"l": list(call[1])},)
            want = lambda: ("ok", {"l": list(call[1]) + [2], "x": 1})
        elif kind in ("tamper", "overwrite"):
            f, args = function(kind), (call[1],)
            want = lambda: ("ok", call[1])
        elif kind == "nested":
            f, args = function(kind), (call[1],)
            want = lambda: ("ok", [1, call[1]])
        elif kind == "chain":
            f, args = function(kind), (call[1],)
            want = lambda: ("err", "LookupError", str(call[1]), True)
        elif kind == "badtb":
            f, args = function(kind), (call[1],)
            want = lambda: ("err", "E", str(call[1]))
        elif kind == "usage":
            f, args = function(kind), (call[1],)
            want = lambda: ("err", "UsageError", str(call[1]))
        elif kind == "recurse":
            # (its own name is not known there)
            f, args = function(kind), (call[1],)
            want = lambda: ("ok", 1) if call[1] == 0 else ("err", "NameError", "name 'f' is not defined")
        elif kind == "depend":
            test, n, v = call[1:]
            src = {"true": "def t(x): return x or True", "false": "def t(x): return not (x or True)", "global": "def t(x): return %s == x" % n,
                   "raise": "def t(x): raise OSError('test')", "missing": "def t(x): return no_such_name"}[test]
            ns = {"__name__": "__main__"}
            exec(src, ns)
            f = depend(ns["t"], v)(function("set"))
            args = (n, v)

            def want():
                ok = {"true": True, "false": False, "global": n in g and eq(g.get(n), v)}.get(test)
                if test == "global" and n not in g or test == "missing":
                    return ("err", "NameError", None)
                if test == "raise":
                    return ("err", "OSError", "test")
                if not ok:
                    ctx.tag("unmet")
                    return ("err", "UnmetDependency", None)
                ctx.tag("met")
                g[n] = v
                return ("ok", n)
        elif kind == "require":
            f, args = require(call[1])(function("ident")), (1,)
            want = lambda: ("ok", [(1,), {}]) if call[1] in ("math", "os.path") else ("err", "UnmetDependency", None)
        else:
            raise HarnessError(kind)
        bufs = pack_apply_message(f, args, kwargs, buffer_threshold=64, item_threshold=64)
        md = {"label": "L%i" % len(reqs)} if label else {}
        add("apply_request", {}, [bytes(memoryview(b).cast("B")) if len(memoryview(b).shape) else bytes(b) for b in bufs], md, want, call)

    def add(typ, content, bufs, md, want, what):
        m, frames = box.message(typ, content, bufs, md)
        r = Req(m["header"]["msg_id"], frames, want)
        r.typ, r.what, r.label = typ, what, md.get("label")
        reqs.append(r)
        queue.append(r)

    def exec_(code, silent):
        kind = code[0]
        ue = {}
        if kind == "assign":
            src = "%s = %r" % code[1:]

            def want():
                g[code[1]] = code[2]
                return ("exec", False, None)
        elif kind == "expr":
            src = code[1]
            want = lambda: ("exec", not silent and g[code[1]] is not None, None) if code[1] in g else ("err", "NameError", "name %r is not defined" % code[1], True)
        elif kind == "error":
            src = "raise LookupError(%r)" % code[1]
            want = lambda: ("err", "LookupError", code[1], True)
        elif kind == "syntax":
            src = "a b c"
            want = lambda: ("err", "SyntaxError", None, True)
        elif kind == "uexpr":
            src, ue = "", {"u": code[1]}
            want = lambda: ("exec", False, {"u": "ok" if code[1] in g else "error"})
        elif kind == "print":
            src = "print(%r)" % code[1]
            want = lambda: ("exec", False, None)
        else:
            src = "del " + code[1]

            def want():
                if code[1] in g:
                    del g[code[1]]
                    return ("exec", False, None)
                return ("err", "NameError", "name %r is not defined" % code[1], True)
        add("execute_request", {"code": src, "silent": silent, "user_expressions": ue, "allow_stdin": False}, [], {}, want, code)

    def control(typ, content):
        m, frames = box.message(typ, content)
        replies, iopub = box.dispatch(frames, "control")
        check(len(replies) == 1, "%d replies to %s", len(replies), typ)
        same(replies[0]["header"]["msg_type"], typ.replace("_request", "_reply"), "type of a reply")
        same(replies[0]["parent_header"]["msg_id"], m["header"]["msg_id"], "parent of a reply")
        same(replies[0]["idents"], [b"client"], "idents of a reply")
        same(replies[0]["content"]["status"], "ok", "status of %s", typ)

    for op in ops:
        if op[0] == "apply":
            apply_(op[1], op[2])
        elif op[0] == "exec":
            exec_(op[1], op[2])
        elif op[0] == "run":
            for _ in range(op[1]):
                if queue:
                    handle(queue[0])
        elif op[0] == "abort":
            if reqs:
                ids = [reqs[i % len(reqs)].mid for i in op[1]]
                one = op[2] and len(set(ids)) == 1
                control("abort_request", {"msg_ids": ids[0] if one else ids})
                # (requests that were handled before don't come again)
                aborted.update(m for m in ids if m in {q.mid for q in queue})
        elif op[0] == "abortall":
            # what is queued in the kernel: nothing, here
            control("abort_request", {"msg_ids": None} if op[1] else {})
        elif op[0] == "clear":
            control("clear_request", {})
            g.clear()
            spaces("clear")
        elif op[0] == "junk":
            # nothing to be answered, nothing to be disturbed
            if op[1] == "frames":
                frames = [b"client", b"<IDS|MSG>", b"x", b"{}", b"{}", b"{}", b"{}"]
            elif op[1] == "type":
                _, frames = box.message("nonsense_request", {})
            else:
                _, frames = box.message("comm_info_request", {})
            replies, _ = box.dispatch(frames)
            check(len(replies) <= (op[1] == "content"), "junk was answered: %r", replies)
            spaces("junk")
    while queue:
        handle(queue[0])


def eq(a, b):
    import numpy

    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return len(a) == len(b) and all(map(eq, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    return type(a) is type(b) and a == b


SUBS = [Sub("requests", strategy, run, quick=1500, thorough=30000)]
