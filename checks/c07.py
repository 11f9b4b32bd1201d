"""C07: functions, classes, partials and references sent to engines."""
import functools
import re
import traceback
import types

from vlib.runner import Sub, Violation, check

PROPERTY = "C07"
RULE = ("cases: the source of a function (parameters of every kind, defaults, closure variables, free globals, body) or class, the namespaces of client and "
        "engine, and calls; the function is serialised, transported and rebuilt, and called next to the same source executed directly in an identical "
        "engine namespace. Non-trivial: the function has a default, closure, or global, or the class has at least two members")
ASSUMPTIONS = ["the reference is the same source executed in the engine's namespace", "both sides run the same Python version"]
SHARDS = 4
QUICK_S = 20
THOROUGH_S = 300

PNAMES = ["p", "q", "r", "s", "t", "u"]
GNAMES = ["G1", "G2", "G3", "GF"]
VALUES = ["1", "-2", "'a'", "None", "[1, 2]", "(1, 'x')", "{'k': 1}", "b'xyz'", "b'big' * 600", "_arr(3)", "_arr(400)", "(lambda v: ('dl', v))",
          "_partial(int, base=2)", "1.5", "{1, 2}", "(lambda v: ('G', G1, v))", "[(1, 2)]", "_mv(2000)", "_partial(_pf, b'z' * 1500, k=_arr(200))", "Ellipsis", "len", "_M"]
STMTS = [
    ["x = [G for G in range(3)]"],
    ["x = sum(v for v in range(4))"],
    ["try:", "    x = G1 + 1", "except Exception as e:", "    x = (type(e).__name__, str(e))", "else:", "    x = (x, 'else')", "finally:", "    y = 'fin'"],
    ["x = G1"],
    ["x = G2, G3"],
    ["x = GF(2)"],
    ["def inner(a, b=2, *, c=3):", "    nonlocal x", "    x = (a, b, c, G1)", "    return x", "inner(1)"],
    ["class K:", "    z = 1", "    def m(self):", "        return (self.z, G1)", "x = K().m()"],
    ["global G1", "G1 = 'changed'"],
    ["global GNEW", "GNEW = 17"],
    ["x = f'{G1!r:>5} {y}'"],
    ["if (w := G1) is not None:", "    x = w"],
    ["for i in range(3):", "    if i == 2: break", "    x = i", "else:", "    x = 'no break'"],
    ["while True:", "    x = 'w'", "    break"],
    ["raise ValueError('no', G1)"],
    ["assert y == 0, 'not zero'"],
    ["x = 1 / 0"],
    ["import os.path as osp", "x = osp.join('a', 'b')"],
    ["with _cm('c') as cmv:", "    x = cmv"],
    ["match y:", "    case 0: x = 'zero'", "    case _: x = 'other'"],
    ["x = (lambda a, *b, k=y, **kw: (a, b, k, kw, x))(1, 2, z=3)"],
    ["del x", "x = 'again'"],
    ["x = NOT_DEFINED"],
    ["x = {k: v for k, v in zip('ab', (G1, y))}"],
    ["x = __name__"],
    ["x = sorted(locals())"],
    ["try:", "    raise KeyError('k')", "except* KeyError as eg:", "    x = 'group'"],
    ["x = 0x1_0000_0000, 1e300, 2j, b'\\x00', 'é', ..., frozenset({1}), -0.0"],
    ["x = 'docstring'.upper()", "'stray'"],
]


def fn_strategy():
    from hypothesis import strategies as st

    val = st.sampled_from(range(len(VALUES)))
    params = st.tuples(
        st.lists(st.none(), max_size=1), st.integers(0, 2), st.integers(0, 2), st.lists(val, max_size=3),   # posonly count via [0], pos, -, defaults
        st.booleans(), st.lists(st.one_of(st.none(), val), max_size=2), st.booleans())
    closure = st.lists(val, max_size=3)
    body = st.lists(st.integers(0, len(STMTS) - 1), max_size=4)
    kind = st.sampled_from(["def", "def", "lambda", "gen", "recursive", "nested", "factory", "async", "method", "annotated", "interactive"])
    g = st.lists(st.sampled_from(range(len(VALUES))), min_size=3, max_size=3)
    cval = st.one_of(st.integers(-3, 3), st.text(max_size=2), st.none())
    call = st.tuples(st.lists(cval, max_size=5), st.lists(st.tuples(st.sampled_from(PNAMES + ["zz"]), cval), max_size=3, unique_by=lambda t: t[0]))
    return st.tuples(kind, params, closure, body, g, g, st.sampled_from(["all", "all", "all", "missing"]), st.lists(call, min_size=1, max_size=4), st.booleans())


def render_params(params):
    pos_only, npos, nmore, defaults, vararg, kwonly, kwarg = params
    names = PNAMES[: (1 if pos_only else 0) + npos + nmore]
    names = names[:4]
    nd = min(len(defaults), len(names))
    out = []
    for i, n in enumerate(names):
        d = i - (len(names) - nd)
        out.append(n + ("=" + VALUES[defaults[d]] if d >= 0 else ""))
        if pos_only and i == 0:
            out.append("/")
    used = list(names)
    kw = []
    for i, v in enumerate(kwonly):
        n = PNAMES[4 + i]
        used.append(n)
        kw.append(n + ("=" + VALUES[v] if v is not None else ""))
    if vararg:
        out.append("*rest")
        used.append("rest")
    elif kw:
        out.append("*")
    out += kw
    if kwarg:
        out.append("**more")
        used.append("more")
    return ", ".join(out), used


def render(case):
    kind, params, closure, body, _, _, _, _, doc = case
    if kind == "recursive":
        closure = []
    sig, used = render_params(params)
    cn = ["c%d" % i for i in range(len(closure))]
    lines = []
    ret = "(" + "".join(n + ", " for n in used + cn) + "%s)"
    if kind == "lambda":
        f = ["f = lambda %s: %s" % (sig, ret % "G1")]
    elif kind == "method":
        f = ["class Holder:", "    def f(self, %s):" % sig, "        return " + ret % "'method'", "f = Holder.f"]
    else:
        b = []
        if doc:
            b.append("'a docstring'")
        if not any("global G1" in STMTS[i][0] for i in body):
            pass
        stm = []
        glob = []
        for i in body:
            for l in STMTS[i]:
                if l.startswith("global"):
                    if l not in glob:
                        glob.append(l)
                else:
                    stm.append(l)
        b += glob + ["x = 'x0'", "y = 0"] + stm
        if kind == "gen":
            b += ["got = yield x", "yield (got, %s)" % (ret % "x"), "return 'end'"]
        elif kind == "recursive":
            b += ["global DEPTH", "DEPTH = DEPTH + 1", "if DEPTH % 3:", "    return ('rec', %s)" % ("f(%s)" % ", ".join(
                (["*rest"] if "rest" in used else []) + (["**more"] if "more" in used else []))), "return " + ret % "x"]
            b.sort(key=lambda l: not l.startswith("global"))
        elif kind == "nested":
            b += ["def deep(n):", "    def deeper(m): return (m, n, x)", "    return deeper(n + 1)", "return (deep(1), %s)" % (ret % "x")]
        elif kind == "async":
            b += ["return " + ret % "x"]
        else:
            b += ["return " + ret % "x"]
        ann = ""
        if kind == "annotated":
            ann = " -> 'ret'"
            if used and used[0] in PNAMES:
                sig = sig.replace(used[0], used[0] + ": (1, 'ann')", 1) if not sig.startswith("*") else sig
        f = [("async " if kind == "async" else "") + "def f(%s)%s:" % (sig, ann)] + ["    " + l for l in b]
    if kind == "interactive":
        closure = []
        cn = []
        src = "\n".join(f).replace("c0, ", "").replace("c1, ", "").replace("c2, ", "")
        return src + "\n"
    if closure or kind == "factory":
        lines = ["def make():"] + ["    %s = %s" % (n, VALUES[v]) for n, v in zip(cn, closure)] + ["    " + l for l in f] + ["    return f", "f = make()"]
    else:
        lines = f
    return "\n".join(lines) + "\n"


class CM:
    def __init__(self, v):
        self.v = v

    def __enter__(self):
        return self.v

    def __exit__(self, *a):
        return False


def arr(n):
    import numpy

    return numpy.arange(n)


def _pf(*a, **k):
    return ("pf", len(a), [desc(x) for x in a], sorted((n, desc(v)) for n, v in k.items()))


def base_ns(gvals, missing, mod="__main__"):
    ns = {"__name__": mod, "_arr": arr, "_partial": functools.partial, "_mv": lambda n: memoryview(bytes(n)), "_cm": CM, "_pf": _pf, "_M": Mod, "DEPTH": 0}
    exec("def GF(a): return ('GF', a)", ns)
    exec("__builtins__ = __builtins__", ns)
    for i, v in enumerate(gvals):
        if missing and i == 0:
            continue
        ns["G%d" % (i + 1)] = eval(VALUES[v], ns)
    return ns


class Mod:
    """an importable class"""


def desc(v, depth=0):
    """a comparable description of a value"""
    if depth > 6:
        return "..."
    if type(v).__name__ == "ndarray":
        return ("array", str(v.dtype), v.tolist())
    if isinstance(v, memoryview):
        return ("mv", v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [desc(x, depth + 1) for x in v])
    if isinstance(v, dict):
        return ("dict", [(desc(k, depth + 1), desc(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, sorted(noaddr(repr(x)) for x in v))
    if isinstance(v, functools.partial):
        return ("partial", desc(v.func, depth + 1), desc(v.args, depth + 1), desc(v.keywords, depth + 1))
    if isinstance(v, types.FunctionType):
        if v.__code__.co_name == "<lambda>" and v.__code__.co_argcount == 1 and depth < 4:
            try:
                return ("function", v.__name__, desc(v(5), depth + 1))
            except Exception as e:
                return ("function", v.__name__, type(e).__name__, str(e))
        return ("function", v.__name__)
    if isinstance(v, type):
        return ("class", v.__name__)
    if isinstance(v, Exception):
        return (type(v).__name__, noaddr(str(v)))
    return (type(v).__name__, noaddr(repr(v)))


def noaddr(s):
    return re.sub("0x[0-9a-f]{6,}", "0x", s)


def outcome(f, args, kwargs, kind, tbfile):
    try:
        r = f(*args, **kwargs)
        if kind == "gen":
            out = [next(r)]
            out.append(r.send("sent"))
            try:
                next(r)
            except StopIteration as e:
                out.append(e.value)
            r = out
        elif kind == "async":
            try:
                r.send(None)
                raise AssertionError("no stop")
            except StopIteration as e:
                r = e.value
        return ("value", desc(r))
    except AssertionError as e:
        if str(e) == "no stop":
            raise
        exc = e
    except Exception as e:
        exc = e
    tb = [fr.lineno for fr in traceback.extract_tb(exc.__traceback__) if fr.filename == tbfile]
    return ("error", type(exc).__name__, noaddr(str(exc)), tb)


def send(obj, g):
    from ipyparallel.serialize import deserialize_object, serialize_object

    bufs = serialize_object(obj)
    raw = [b.tobytes() if isinstance(b, memoryview) else bytes(b) for b in bufs]
    out, rest = deserialize_object(raw, g)
    check(not rest, "%d buffers left over", len(rest))
    return out


def snapshot(f):
    cl = []
    for c in f.__closure__ or ():
        try:
            cl.append((id(c), id(c.cell_contents)))
        except ValueError:
            cl.append((id(c), None))
    return (f.__code__, f.__name__, f.__module__, [id(d) for d in f.__defaults__ or ()], {k: id(v) for k, v in (f.__kwdefaults__ or {}).items()},
            cl, dict(f.__annotations__), desc(f.__defaults__), desc(f.__kwdefaults__))


SKIP_NS = ("__builtins__", "f", "make", "Holder", "__annotations__")


def run_fn(case, ctx):
    import ipyparallel
    from ipyparallel.serialize import canning

    interactive = canning.interactive if len(case[5]) and case[5][0] % 2 else ipyparallel.interactive

    kind, params, closure, body, g1, g2, miss, calls, doc = case
    src = render(case)
    code = compile(src, "<cell>", "exec")
    client, engine, ref = base_ns(g1, False), base_ns(g2, miss == "missing"), base_ns(g2, miss == "missing")
    try:
        exec(code, client)
    except Exception as e:
        return
    if kind == "interactive":
        # defined in a module, but marked as if it were defined interactively
        client["__name__"] = "checks.c07"
        client["f"].__module__ = "checks.c07"
    try:
        exec(code, ref)
    except NameError:
        # a default or closure value that exists only on the client
        return
    f, fref = client["f"], ref["f"]
    if kind == "interactive":
        fi = interactive(f)
        check(fi.__module__ == "__main__", "interactive function belongs to %r", fi.__module__)
        f = fi
    engine["f"] = None
    before = snapshot(f)
    cns = {k: desc(v) for k, v in client.items() if k not in SKIP_NS}
    sent = send(f, engine)
    engine["f"] = sent if kind == "recursive" else None
    check(snapshot(f) == before, "sending changed the function")
    again = send(f, dict(engine))
    check(isinstance(sent, types.FunctionType), "a %s arrived", type(sent))
    check(sent.__globals__ is engine, "the function does not use the engine's namespace")
    check(sent.__name__ == f.__name__, "name %r, was %r", sent.__name__, f.__name__)
    check(sent.__doc__ == fref.__doc__, "docstring %r, was %r", sent.__doc__, f.__doc__)
    check(sent.__code__ == f.__code__, "code differs")
    check(desc(sent.__annotations__) == desc(f.__annotations__), "annotations %r, were %r", sent.__annotations__, f.__annotations__)
    ctx.nontrivial(bool(closure or f.__defaults__ or f.__kwdefaults__ or any("G" in l for i in body for l in STMTS[i])))
    ctx.tag(kind, "closure%d" % len(f.__closure__ or ()), "defaults%d" % len(f.__defaults__ or ()), "kwdefaults%d" % len(f.__kwdefaults__ or {}))
    for args, kw in calls:
        kw = dict(kw)
        want = outcome(fref, args, kw, kind, "<cell>")
        got = outcome(sent, args, kw, kind, "<cell>")
        check(got == want, "%s\ncalled with %r %r: %r, expected %r", src, args, kw, got, want)
        ctx.tag(got[0])
    en = {k: desc(v) for k, v in engine.items() if k not in SKIP_NS}
    rn = {k: desc(v) for k, v in ref.items() if k not in SKIP_NS}
    check(en == rn, "%s\nnamespace differs: %r, expected %r", src, {k: v for k, v in en.items() if rn.get(k) != v}, {k: v for k, v in rn.items() if en.get(k) != v})
    check({k: desc(v) for k, v in client.items() if k not in SKIP_NS} == cns, "the client's namespace changed")
    check(snapshot(f) == before, "calling the copy changed the function")


# ---------------------------------------------------------------- classes

MEMBERS = [
    ["a = 1"], ["arr = _arr(5)"], ["big = b'z' * 3000"], ["lst = [1, (2, 3)]"],
    ["def m1(self, x=2):", "    return ('m1', x, G1)"],
    ["def __init__(self, v=3):", "    self.v = v"],
    ["def m2(self, *a, k=_arr(2), **kw):", "    return ('m2', getattr(self, 'v', None), a, k, kw)"],
    ["@staticmethod", "def sm(x=1):", "    return ('sm', x)"],
    ["@classmethod", "def cm(cls, x=1):", "    return ('cm', cls.__name__, x, G1)"],
    ["@property", "def pr(self):", "    return ('pr', G1)"],
    ["'docstring of the class'"],
    ["f = lambda self: 'lam'"],
    ["def __eq__(self, other):", "    return True"],
    ["def __call__(self):", "    return ('call', [x for x in range(3)])"],
    ["b: int = 4"],
    ["nested = {'k': (1, 2)}"],
    ["part = _partial(int, base=2)"],
]
PROBE = ["a", "arr", "big", "lst", "b", "nested", "m1", "m2", "sm", "cm", "pr", "f", "__call__", "__doc__", "__annotations__", "v", "part"]


def cls_strategy():
    from hypothesis import strategies as st

    mem = st.lists(st.integers(0, len(MEMBERS) - 1), max_size=6, unique=True)
    bases = st.sampled_from(["", "", "Base", "Base, Mixin", "dict", "Exception", "_M", "Base, dict", "Mixin"])
    g = st.lists(st.sampled_from([0, 1, 2, 3]), min_size=3, max_size=3)
    return st.tuples(mem, bases, mem, mem, g, g, st.sampled_from(["class", "instance_of", "list", "closure", "default"]))


def run_cls(case, ctx):
    mem, bases, bmem, mmem, g1, g2, how = case

    def cls(name, bases, mem):
        ls = [l for i in sorted(mem, key=lambda i: MEMBERS[i][0][0] != "'") for l in MEMBERS[i]]
        return ["class %s%s:" % (name, "(%s)" % bases if bases else "")] + ["    " + l for l in ls or ["pass"]]

    src = "\n".join(cls("Base", "", bmem) + cls("Mixin", "", mmem) + cls("C", bases, mem)) + "\n"
    src += "def use():\n    return C\ndef make():\n    K = C\n    def f(): return K\n    return f\nclosed = make()\ndef dflt(k=C): return k\n"
    code = compile(src, "<cell>", "exec")
    client, engine, ref = base_ns(g1, False), base_ns(g2, False), base_ns(g2, False)
    exec(code, client)
    exec(code, ref)
    C = client["C"]
    before = {k: id(v) for k, v in C.__dict__.items()}
    if how == "list":
        sent = send([C, 1], engine)[0]
    elif how == "closure":
        sent = send(client["closed"], engine)()
    elif how == "default":
        sent = send(client["dflt"], engine)()
    else:
        sent = send(C, engine)
    check({k: id(v) for k, v in C.__dict__.items()} == before, "sending changed the class")
    R = ref["C"]
    ctx.nontrivial(len(mem) >= 2)
    ctx.tag(how, "bases:" + bases)
    check(isinstance(sent, type) and sent.__name__ == "C", "%r arrived", sent)
    check([b.__name__ for b in sent.__mro__ if b is not object][:1] == ["C"], "mro")
    seen = set()
    smro = [b.__name__ for b in sent.__mro__]
    for b in R.__mro__:
        check(b.__name__ in smro, "%s is not a base class any more: %r", b.__name__, smro)

    def probe(K):
        out = []
        try:
            obj = K()
        except Exception as e:
            return ("init", type(e).__name__, str(e))
        for name in PROBE:
            for o in (K, obj):
                try:
                    v = getattr(o, name)
                    if isinstance(v, property):
                        v = "property"
                    elif callable(v) and not isinstance(v, type):
                        try:
                            v = ("called", desc(v()))
                        except Exception as e:
                            v = ("raised", type(e).__name__, noaddr(str(e)))
                except Exception as e:
                    v = ("no", type(e).__name__, noaddr(str(e)))
                out.append((name, desc(v)))
        out.append(obj == 17)
        return out

    a, b = probe(sent), probe(R)
    if a != b:
        raise Violation("%s\nclass differs: %r" % (src, [(x, y) for x, y in zip(a, b) if x != y] if type(a) is type(b) else (a, b)))


# ---------------------------------------------------------------- references and friends


def ref_strategy():
    from hypothesis import strategies as st

    name = st.sampled_from(["G1", "G2", "GF", "GF(3)", "[G1, G2]", "G3", "missing", "DEPTH + 1", "_M", "len"])
    where = st.sampled_from(["arg", "kwarg", "list", "dict", "default", "kwdefault", "closure", "partial", "partialkw", "self", "tuple", "set", "biglist", "bigdict"])
    g = st.lists(st.integers(0, len(VALUES) - 1), min_size=3, max_size=3)
    return st.tuples(name, where, g)


def run_ref(case, ctx):
    from ipyparallel import Reference
    from ipyparallel.serialize import pack_apply_message, unpack_apply_message

    name, where, gv = case
    client, engine, refns = base_ns(gv, False), base_ns(gv, False), base_ns(gv, False)
    for k in list(client):
        if k.startswith("G"):
            del client[k]
    R = Reference(name)
    exec("def ident(*a, **k): return a, k", client)
    ident = client["ident"]
    try:
        want = ("value", desc(eval(name, refns)))
    except Exception as e:
        want = ("error", type(e).__name__, str(e))
    f, args, kw = ident, (), {}
    get = lambda out: out[0][0]
    if where == "arg":
        args = (R,)
    elif where == "kwarg":
        kw, get = {"k": R}, lambda out: out[1]["k"]
    elif where in ("list", "tuple", "set"):
        args, get = ({"list": list, "tuple": tuple, "set": set}[where]([R]),), lambda out: list(out[0][0])[0]
        if where == "set" and want[0] == "value":
            try:
                hash(eval(name, refns))
            except TypeError:
                return
    elif where == "biglist":
        args, get = ([R] * 30,), lambda out: out[0][0][29]
    elif where == "dict":
        args, get = ({1: R},), lambda out: out[0][0][1]
    elif where == "bigdict":
        args, get = ({"a": 1, 2: R, None: 3},), lambda out: out[0][0][2]
    elif where in ("default", "kwdefault", "closure"):
        client["R"] = R
        exec({"default": "def h(x=R): return x", "kwdefault": "def h(*, x=R): return x", "closure": "def mk(x):\n def h(): return x\n return h\nh = mk(R)"}[where], client)
        f, get = client["h"], lambda out: out
    elif where == "partial":
        f = functools.partial(ident, R)
    elif where == "partialkw":
        f, get = functools.partial(ident, k=R), lambda out: out[1]["k"]
    elif where == "self":
        f, args, get = Reference("GF"), (3,), lambda out: out
        want = ("value", desc(("GF", 3)))
    bufs = pack_apply_message(f, args, kw)
    raw = [b.tobytes() if isinstance(b, memoryview) else bytes(b) for b in bufs]
    try:
        f2, a2, k2 = unpack_apply_message(raw, engine)
        got = ("value", desc(get(f2(*a2, **k2))))
    except Exception as e:
        got = ("error", type(e).__name__, str(e))
    check(got == want, "a reference to %r as %s gives %r, expected %r", name, where, got, want)
    ctx.nontrivial()
    ctx.tag(where, got[0])
    for bad in (1, None, b"x"):
        try:
            Reference(bad)
        except TypeError:
            pass
        else:
            raise Violation("Reference(%r) was accepted" % (bad,))


def probe_recursive_closure():
    ns = {"__name__": "__main__"}
    exec("def mk():\n def h(n): return 1 if n < 1 else n * h(n - 1)\n return h\nh = mk()", ns)
    try:
        return send(ns["h"], {})(4) != 24
    except RecursionError:
        return True


def probe_super():
    ns = {"__name__": "__main__"}
    exec("class A:\n def __init__(self):\n  super().__init__()\n  self.x = 1", ns)
    try:
        return send(ns["A"], {})().x != 1
    except RecursionError:
        return True


def probe_diamond():
    ns = {"__name__": "__main__"}
    exec("class A:\n x = 'A'\nclass B(A): pass\nclass C(A):\n x = 'C'\nclass D(B, C): pass", ns)
    return send(ns["D"], {}).x != "C"


PROBES = [("recursive-closure", probe_recursive_closure), ("class-super", probe_super), ("class-diamond", probe_diamond)]

SUBS = [
    Sub("functions", fn_strategy, run_fn, quick=6000, thorough=80000, weight=3),
    Sub("classes", cls_strategy, run_cls, quick=3000, thorough=30000, weight=2),
    Sub("references", ref_strategy, run_ref, quick=1500, thorough=8000),
]
