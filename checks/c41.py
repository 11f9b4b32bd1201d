"""C41: switching how functions are serialised, on either side, with messages in flight."""
import atexit
import os
import pickle
import struct
import subprocess
import sys

from vlib.runner import HarnessError, Skip, Sub, check

PROPERTY = "C41"
RULE = ("cases: histories of switches (use_pickle, use_dill, use_cloudpickle; on the client, the engine or both), of functions, closures, classes, methods, instances, partials and arrays sent to be used or "
        "to be sent back, with any number of messages in flight at a switch; the engine is another process. Each object is used there, and back here, next to the one that was sent. Non-trivial: two switches, and "
        "an object sent in one mode and read in another")
ASSUMPTIONS = ["functions sent with dill or cloudpickle carry the globals they use; with pickle, they use the engine's", "with pickle, objects whose classes only exist in the client's __main__, and methods, cannot be sent"]
SHARDS = 4
QUICK_S = 20
THOROUGH_S = 200

# name: (source of `obj`, how it is used, whether it needs dill or cloudpickle)
KINDS = {
    "def": ("def obj(x, y=2, *a, k=3): return (x, y, a, k)", "call", False),
    "lambda": ("obj = lambda x, y=[1, 2]: (x, y)", "call", False),
    "closure": ("def make(n):\n    def inner(x): return (x, n, len(m))\n    m = [n, b'z' * 3000]\n    return inner\nobj = make(5)", "call", False),
    "closures": ("def make(n):\n    def g(x): return (x, n)\n    def f(x): return g(x + 1)\n    return f\nobj = make(5)", "call", False),
    "defaults": ("def obj(x, f=lambda v: v + 1, *, g=lambda v: v * 2): return (f(x), g(x))", "call", False),
    "partial": ("import functools\ndef f(a, b, c=0): return (a, b, c)\nobj = functools.partial(f, 7, c=b'z' * 2000)", "call", False),
    "class": ("class C:\n    n = 4\n    def __init__(self, v=1): self.v = v\n    def m(self, x): return (self.v, self.n, x)\n    @staticmethod\n    def s(x): return ('s', x)\n    @property\n    def p(self): return ('p', self.v)\nobj = C", "class", False),
    "subclass": ("class B:\n    def m(self, x): return ('B', x)\nclass C(B):\n    @staticmethod\n    def s(x): return ('s', x)\n    p = 3\nobj = C", "class", False),
    "list": ("obj = [lambda x: x + 1, 5, lambda x: (x, 'two')]", "each", False),
    "dict": ("obj = {'b': lambda x: x + 1, 'a': lambda x: (x, 'two')}", "each", False),
    "array": ("import numpy\nobj = numpy.arange(1000).reshape(10, 100)", "value", False),
    "objarray": ("import numpy\nobj = numpy.array([1, 'two', None], dtype=object)", "value", False),
    "bytes": ("obj = b'q' * 5000", "value", False),
    "builtin": ("obj = divmod", "call2", False),
    "module-function": ("import os.path\nobj = os.path.join", "call2s", False),
    "engine-global": ("def obj(x): return (x, ENGINE_ONLY)", "call", False),
    "nested-lambda": ("obj = [[lambda x: x + 1], {'k': (lambda x: (x,),)}]", "deep", True),
    "instance": ("class C:\n    def __init__(self, v): self.v = v\n    def __call__(self, x): return (self.v, x)\nobj = C(9)", "call", True),
    "bound": ("class C:\n    def __init__(self, v): self.v = v\n    def m(self, x): return (self.v, x)\nobj = C(9).m", "call", True),
    "classmethod": ("class C:\n    @classmethod\n    def m(cls, x): return (cls.__name__, x)\nobj = C.m", "call", True),
    "local-class": ("def make():\n    class L:\n        def __call__(self, x): return ('L', x)\n    return L()\nobj = make()", "call", True),
    "recursive": ("def make():\n    def fact(x): return 1 if x < 2 else x * fact(x - 1)\n    return fact\nobj = make()", "call", True),
    "object-array": ("import numpy\nobj = numpy.empty(2, dtype=object)\nobj[0] = lambda x: x + 1\nobj[1] = lambda x: (x, 2)", "each", True),
    "attribute": ("def obj(x): return (x, 'attr')\nobj.note = lambda v: v", "call", False),
}
MODES = ["pickle", "dill", "cloudpickle"]


def use(how, obj, x):
    if how == "call":
        return obj(x)
    if how == "call2":
        return obj(x, 3)
    if how == "call2s":
        return obj("a", str(x))
    if how == "class":
        o = obj()
        return (obj.__name__, o.m(x), obj.s(x), o.p, [c.__name__ for c in obj.__mro__])
    if how == "each":
        if isinstance(obj, dict):
            return [(k, f(x)) for k, f in obj.items()]
        return [f(x) if callable(f) else f for f in obj]
    if how == "deep":
        return (obj[0][0](x), obj[1]["k"][0](x) if isinstance(obj[1]["k"], tuple) else obj[1]["k"](x))
    if hasattr(obj, "tolist"):
        return (str(obj.dtype), obj.shape, obj.tolist())
    return obj


def used(how, obj, x):
    try:
        return "value", use(how, obj, x)
    except Exception as e:
        return "error", type(e).__name__, str(e)


def back(how, obj, x):
    """on the engine: the object is sent back"""
    return obj


# --- the engine: another process, with its own serialisation ---
def worker():
    # what this process says is not for the protocol
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    inp = sys.stdin.buffer
    from ipyparallel import serialize

    while True:
        head = inp.read(4)
        if len(head) < 4:
            return
        op, arg = pickle.loads(inp.read(struct.unpack("!i", head)[0]))
        try:
            if op == "mode":
                res = "ok", getattr(serialize, "use_" + arg)()
            else:
                ns = {"__name__": "__main__", "ENGINE_ONLY": "from the engine"}
                f, args, kw = serialize.unpack_apply_message(arg, ns)
                r = f(*args, **kw)
                res = "ok", [bytes(b) for b in serialize.serialize_object(r)]
        except BaseException as e:
            res = "error", type(e).__name__, str(e)[:300]
        data = pickle.dumps(res)
        out.write(struct.pack("!i", len(data)) + data)
        out.flush()


PROC = []


def engine():
    if PROC and PROC[0][0] == os.getpid() and PROC[0][1].poll() is None:
        return PROC[0][1]
    import ipyparallel

    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.path.dirname(os.path.dirname(os.path.abspath(ipyparallel.__file__)))
    code = "import sys; sys.dont_write_bytecode = True; sys.path[:0] = %r; from checks.c41 import worker; worker()" % [repo, root]
    p = subprocess.Popen([sys.executable, "-c", code], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    PROC[:] = [(os.getpid(), p)]
    atexit.register(p.kill)
    return p


def ask(op, arg):
    p = engine()
    data = pickle.dumps((op, arg))
    p.stdin.write(struct.pack("!i", len(data)) + data)
    p.stdin.flush()
    head = p.stdout.read(4)
    if len(head) < 4:
        raise HarnessError("the engine stand-in ended, doing %r" % op)
    return pickle.loads(p.stdout.read(struct.unpack("!i", head)[0]))


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    kind = st.sampled_from(sorted(KINDS))
    op = weighted(
        (4, st.tuples(st.just("send"), kind, st.sampled_from(["use", "back"]), st.integers(-2, 6), st.sampled_from(["arg", "kwarg", "f"]))),
        (3, st.tuples(st.just("mode"), st.sampled_from(["both", "both", "client", "engine"]), st.sampled_from(MODES))),
        (3, st.tuples(st.just("engine"), st.integers(0, 3))),
        (3, st.tuples(st.just("client"), st.integers(0, 3))))
    return st.lists(op, min_size=3, max_size=16)


def make_object(kind):
    src, how, rich = KINDS[kind]
    ns = {"__name__": "__main__"}
    exec(compile(src, "<cell>", "exec"), ns)
    return ns.pop("obj") if kind not in ("def", "attribute", "engine-global") else ns["obj"], how, rich


def norm(v):
    return repr(v)


def run(case, ctx):
    import warnings

    warnings.simplefilter("ignore")
    try:
        import cloudpickle  # noqa
        import dill  # noqa
    except ImportError:
        raise Skip("dill and cloudpickle are needed")
    from ipyparallel import serialize
    from ipyparallel.serialize import canning

    mode = {"client": "pickle", "engine": "pickle"}
    serialize.use_pickle()
    ask("mode", "pickle")
    original = dict(canning.can_map)
    sent, replies = [], []
    switches = 0
    crossed = False

    def engine_step(i):
        nonlocal crossed
        m = sent.pop(i)
        crossed |= m["client"] != mode["engine"]
        rich = m["rich"]
        r = ask("call", m["frames"])
        if r[0] == "error":
            check(m["what"] == "back" and rich and mode["engine"] == "pickle", "%s, sent with %s, %s on an engine with %s: %s", m["kind"], m["client"], m["what"], mode["engine"], r)
            ctx.tag("cannot-return")
            return
        if mode["engine"] == "pickle":
            check(m["client"] != "pickle" or not any(w in b for b in r[1] for w in (b"dill", b"cloudpickle")), "%s, sent back with pickle, needs more than pickle to be read", m["kind"])
        replies.append(dict(m, reply=r[1], engine=mode["engine"]))

    def client_step(i):
        nonlocal crossed
        m = replies.pop(i)
        crossed |= m["engine"] != mode["client"]
        what = "%s, sent with %s, %s with %s, read with %s" % (m["kind"], m["client"], m["what"], m["engine"], mode["client"])
        try:
            got, rest = serialize.deserialize_object(m["reply"], {"__name__": "__main__", "ENGINE_ONLY": "from the engine"})
        except Exception as e:
            check(False, "%s: %r", what, e)
        check(not rest, "%s: %d buffers left", what, len(rest))
        if m["what"] == "back":
            got = used(m["how"], got, m["x"])
        want = m["want"]
        if m["kind"] == "engine-global":
            if m["client"] != "pickle" or m["what"] == "back" and m["engine"] != "pickle":
                # its globals are those it was sent with, or the engine's; it was sent with none
                return
            want = ("value", (m["x"], "from the engine"))
        check(norm(got) == norm(want), "%s: %r, expected %r", what, got, want)

    try:
        for op in case:
            if op[0] == "mode":
                for side in ("client", "engine"):
                    if op[1] not in ("both", side):
                        continue
                    switches += mode[side] != op[2]
                    mode[side] = op[2]
                    if side == "client":
                        getattr(serialize, "use_" + op[2])()
                        if op[2] == "pickle":
                            check(dict(canning.can_map) == original, "after use_pickle(), types are not sent as they were: %r", set(map(str, original)) ^ set(map(str, canning.can_map)))
                    else:
                        r = ask("mode", op[2])
                        check(r[0] == "ok", "use_%s on the engine: %r", op[2], r)
            elif op[0] == "send":
                _, kind, what, x, place = op
                obj, how, rich = make_object(kind)
                if place == "f" and (what != "use" or how != "call"):
                    place = "arg"
                want = used(how, obj, x)
                if place == "f":
                    want = want[:1] + want[1:]
                f = used if what == "use" else back
                args, kw = {"arg": ((how, obj, x), {}), "kwarg": ((), {"how": how, "obj": obj, "x": x}), "f": ((x,), {})}[place]
                if place == "f":
                    if want[0] == "error" and kind != "engine-global" or kind == "engine-global":
                        continue
                    f, want = obj, want[1]
                try:
                    frames = [bytes(b) for b in serialize.pack_apply_message(f, args, kw)]
                except Exception as e:
                    check(rich and mode["client"] == "pickle", "%s cannot be sent with %s: %r", kind, mode["client"], e)
                    ctx.tag("cannot-send")
                    continue
                # an engine that only has what was chosen can read it
                for other in {b"dill", b"cloudpickle"} - {mode["client"].encode()}:
                    check(not any(other in b for b in frames), "%s, sent with %s, needs %s to be read", kind, mode["client"], other.decode())
                check(norm(used(how, obj, x)) == norm(want if place != "f" else ("value", want)), "%s changed when it was sent", kind)
                ctx.tag(kind)
                sent.append({"kind": kind, "what": what, "x": x, "how": how, "rich": rich, "frames": frames, "client": mode["client"], "want": want})
            elif op[0] == "engine" and sent:
                engine_step(op[1] % len(sent))
            elif op[0] == "client" and replies:
                client_step(op[1] % len(replies))
        while sent:
            engine_step(0)
        while replies:
            client_step(0)
        if switches >= 2 and crossed:
            ctx.nontrivial()
    finally:
        serialize.use_pickle()


# --- the methods of views ---
def view_strategy():
    from hypothesis import strategies as st

    op = st.tuples(st.sampled_from(["use_dill", "use_cloudpickle", "use_pickle"]), st.integers(0, 15), st.booleans(), st.booleans())
    return st.fixed_dictionaries({"n": st.integers(1, 4), "ops": st.lists(op, min_size=1, max_size=5), "picks": st.lists(st.integers(0, 60), min_size=1, max_size=8)})


CALLS = []
REAL = {}


def switched(name):
    from vlib.clientsim import current_shell

    sh = current_shell()
    CALLS.append((name, None if sh is None else sh.user_ns["engine_id"]))
    return REAL[name]()


def run_views(case, ctx):
    from unittest import mock

    from ipyparallel import serialize
    from ipyparallel.serialize import canning
    from vlib.clientsim import Net

    try:
        import cloudpickle  # noqa
        import dill  # noqa
    except ImportError:
        raise Skip("dill and cloudpickle are needed")
    n = case["n"]
    net = Net(list(range(n)), picks=case["picks"])
    calls = CALLS
    stack = []
    serialize.use_pickle()

    def wrap(name):
        REAL[name] = getattr(canning, name)

        # may be sent by value, too
        def switch(name=name):
            from checks.c41 import switched

            return switched(name)
        switch.__module__, switch.__name__, switch.__qualname__ = canning.__name__, name, name
        for mod in (canning, serialize):
            m = mock.patch.object(mod, name, switch)
            m.start()
            stack.append(m)

    try:
        for name in ("use_dill", "use_cloudpickle", "use_pickle"):
            wrap(name)
        for name, bits, block, one in case["ops"]:
            targets = [i for i in range(n) if bits >> i & 1] or list(range(n))
            view = net.client[targets[0] if one else targets]
            if one:
                targets = targets[:1]
            view.block = block
            del calls[:]
            got = net.call(getattr(view, name), "view.%s()" % name)
            if not block:
                got = net.call(got.get, "the result of view.%s()" % name)
            net.run()
            check(got == (None if one else [None] * len(targets)), "view.%s() gave %r", name, got)
            check(sorted(calls, key=str) == sorted([(name, None)] + [(name, t) for t in targets], key=str), "view(%r).%s() called %r", targets, name, calls)
            check(calls[0] == (name, None), "view.%s() sent something before it switched here: %r", name, calls)
            # what needs more than pickle goes through exactly if it was switched to
            obj, how, rich = make_object("nested-lambda")
            if name != "use_pickle":
                check(net.call(lambda: net.client[targets].apply_sync(used, how, obj, 3), "a call after %s()" % name) == [used(how, obj, 3)] * len(targets), "a call after %s()", name)
            else:
                obj, how, rich = make_object("engine-global")
                net.call(lambda: net.client[targets].push({"ENGINE_ONLY": 5}, block=True), "a push")
                check(net.call(lambda: net.client[targets].apply_sync(obj, 3), "a call after %s()" % name) == [(3, 5)] * len(targets), "a call after %s()", name)
        if len(case["ops"]) > 1:
            ctx.nontrivial()
        check(not net.errors, "an exception while a message was handled: %s", net.errors[:1])
    finally:
        for m in reversed(stack):
            m.stop()
        serialize.use_pickle()
        net.close()


SUBS = [Sub("views", view_strategy, run_views, quick=200, thorough=3000),
        Sub("modes", strategy, run, quick=2500, thorough=40000)]
