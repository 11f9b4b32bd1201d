"""C29: moving data and code with a direct view, against a model of the engines' namespaces."""
import os
import tempfile

from vlib.runner import HarnessError, Skip, Sub, Violation, check, same

PROPERTY = "C29"
RULE = ("cases: histories of push, pull, scatter, gather, apply, execute, run and clear on direct and broadcast views (any targets, blocking or not), with "
        "replies delivered in any order; the oracle is a model of each engine's namespace. Non-trivial: replies of "
        "one operation arrived in an order other than its targets', or an operation failed on some engine, or a scattered sequence was gathered")
ASSUMPTIONS = ["requests of one client reach an engine in the order they were sent"]
SHARDS = 6
QUICK_S = 25
THOROUGH_S = 400
NAMES = ["a", "b", "c", "_x", "data", "Z9"]


def value_strategy():
    from hypothesis import strategies as st

    leaf = st.one_of(st.integers(-5, 1000), st.sampled_from(["", "s", "é\u2603", None, True, 1.5, b"", b"\x00\xff", -2**70]), st.binary(max_size=5), st.text(max_size=5),
                     st.tuples(st.just("$array"), st.integers(0, 5), st.sampled_from(["f8", "i4", "S2", "b1", "O"])),
                     st.tuples(st.just("$big"), st.integers(0, 3)))
    return st.recursive(leaf, lambda x: st.one_of(st.lists(x, max_size=3), st.tuples(x, x), st.dictionaries(st.sampled_from(["k", "l"]), x, max_size=2)), max_leaves=5)


def make(v):
    import numpy

    if isinstance(v, tuple) and v[:1] == ("$array",) and len(v) == 3 and type(v[1]) is int:
        return numpy.arange(v[1]).astype("U2").astype(v[2]) if v[2] == "S2" else numpy.arange(v[1]).astype(v[2])
    if isinstance(v, tuple) and v[:1] == ("$big",) and len(v) == 2 and type(v[1]) is int:
        return numpy.arange(3000).reshape(30, 100)[:, ::v[1] + 1] if v[1] < 3 else b"x" * 70000
    if isinstance(v, (list, tuple)):
        return type(v)(make(x) for x in v)
    if isinstance(v, dict):
        return {k: make(x) for k, x in v.items()}
    return v


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    v = value_strategy()
    ids = st.one_of(st.integers(1, 5).map(lambda n: list(range(n))), st.lists(st.integers(0, 20), min_size=1, max_size=5, unique=True))
    name = st.sampled_from(NAMES)
    tgt = st.one_of(st.just("view"), st.just("view"), st.just("all"), st.integers(0, 63), st.tuples(st.just("one"), st.integers(0, 9)),
                    st.tuples(st.just("rev"), st.integers(0, 63)))
    blk = st.booleans()
    view = st.integers(0, 4)
    seq = st.one_of(st.lists(v, max_size=8), st.lists(v, max_size=8).map(tuple), st.integers(0, 14).map(lambda n: ("$arr1", n)), st.integers(0, 14).map(lambda n: ("$arr2", n)))
    ops = [
        (4, st.tuples(st.just("push"), view, tgt, blk, st.dictionaries(name, v, max_size=3), st.integers(0, 2))),
        (3, st.tuples(st.just("pull"), view, tgt, blk, st.one_of(name, st.lists(name, max_size=3)), st.integers(0, 2))),
        (3, st.tuples(st.just("scatter"), view, tgt, blk, name, seq, st.booleans())),
        (2, st.tuples(st.just("gather"), view, tgt, blk, name)),
        (4, st.tuples(st.just("apply"), view, tgt, blk, st.lists(v, max_size=3), st.dictionaries(name, v, max_size=2), st.integers(0, 3), st.one_of(st.none(), st.none(), st.integers(0, 5)))),
        (3, st.tuples(st.just("execute"), view, tgt, blk, name, st.integers(0, 5), st.booleans(), st.one_of(st.none(), st.none(), st.integers(0, 5)))),
        (1, st.tuples(st.just("clear"), view, tgt)),
        (5, st.tuples(st.just("step"), st.integers(1, 12))),
    ]
    return st.fixed_dictionaries({"ids": ids, "ops": st.lists(weighted(*ops), min_size=1, max_size=14), "picks": st.lists(st.integers(0, 60), min_size=1, max_size=12),
                                  "tree": weighted((2, st.just(None)), (1, st.integers(0, 2)))})


APPLY = [
    "def f(*args, **kw):\n    hits.append(TOKEN)\n    return (engine_id, args, kw)",
    "def f(*args, **kw):\n    global last\n    hits.append(TOKEN)\n    last = (args, kw)\n    return [engine_id, len(args)]",
    "lambda *args, **kw: (hits.append(TOKEN), None)[1]",
    "def f(*args, __k=[1], **kw):\n    hits.append(TOKEN)\n    __k.append(2)\n    return args, kw, list(__k)",
]


def run(case, ctx):
    from checks.c09 import norm

    from ipyparallel import error

    from vlib.clientsim import Net

    ids = sorted(case["ids"])
    with Net(case["ids"], picks=case["picks"], depth=case["tree"]) as net:
        c = net.client
        model = {i: {} for i in ids}          # engine -> name -> value
        hits = {i: [] for i in ids}
        order = {}                            # message -> engines in the order they ran... of its group
        for e in net.engines.values():
            e.shell.user_ns["hits"] = []
        views = [c[:], c.direct_view("all"), c[ids[0]], c[ids[::-1]], c[ids[1:] or ids]]
        vt = [ids, ids, [ids[0]], ids[::-1], ids[1:] or ids]
        if case["tree"] is not None:
            views[1] = c.broadcast_view()
            views[3] = c.broadcast_view(ids[::-1], is_coalescing=True)
            views[4] = c.broadcast_view(ids[1:] or ids)
        bc = [type(v).__name__ == "BroadcastView" for v in views]
        waiting = []                          # (ar, judge)
        token = [0]

        def targets(k, t):
            """(argument or None, ids, single)"""
            if t == "view":
                return None, vt[k], k == 2
            if t == "all":
                return "all", ids, False
            if isinstance(t, tuple):
                if t[0] == "one":
                    i = ids[t[1] % len(ids)]
                    if bc[k]:
                        return [i], [i], False
                    return i, [i], True
                l = [i for n, i in enumerate(ids) if t[1] >> n & 1][::-1] or ids
                return l, l, False
            l = [i for n, i in enumerate(ids) if t >> n & 1] or ids
            return l, l, False

        def fixed(want):
            """want: list per target of ('ok', value) or ('!', ename, evalue)"""
            return want

        def judge(what, want, single, get):
            bad = [w for w in want if w[0] == "!"]
            try:
                got = get()
            except (error.RemoteError, error.CompositeError) as e:
                check(bad, "%s failed: %r", what, e)
                if isinstance(e, error.CompositeError):
                    errs = [(x[0], x[1]) for x in e.elist]
                    where = [x[3].get("engine_id") if x[3] else None for x in e.elist]
                else:
                    errs, where = [(e.ename, e.evalue)], [e.engine_info.get("engine_id")]
                if coalesced(what):
                    check(errs[0] in [w[1:3] for w in bad], "%s: errors %r, expected one of %r", what, errs, bad)
                    return
                same(errs, [w[1:3] for w in bad], "errors of %s" % what)
                same(where, [w[3] for w in bad], "engines of the errors of %s" % what)
                ctx.nontrivial()
                return
            check(not bad, "%s: no error, though it failed on %r", what, bad)
            exp = [w[1] for w in want]
            if single:
                same(norm(got), norm(exp[0]), what)
            else:
                check(isinstance(got, list), "%s: a %s", what, type(got))
                same([norm(g) for g in got], [norm(x) for x in exp], what)

        def coalesced(what):
            return "/coalescing" in what

        def finish(what, want, single, blk, call, is_view_call=True):
            """make the call; now or later, judge its result"""
            if blk:
                judge(what, want, single, lambda: net.call(call, what))
            else:
                ar = call()
                waiting.append((ar, what, want, single))

        def collect(all_=False):
            for item in list(waiting):
                ar, what, want, single = item
                if not ar.ready():
                    check(not all_, "%s is not ready though everything was delivered", what)
                    continue
                waiting.remove(item)
                judge(what, want, single, lambda: ar.get(0))

        def partition(seq, n):
            q, r = divmod(len(seq), n)
            out, p = [], 0
            for i in range(n):
                k = q + (i < r)
                out.append(seq[p:p + k])
                p += k
            return out

        ran = {}
        for op in case["ops"]:
            kind = op[0]
            if kind == "step":
                for _ in range(op[1]):
                    net.step()
                collect()
                continue
            k, t = op[1] % len(views), op[2]
            arg, tids, single = targets(k, t)
            view = views[k]
            what = "%s%s on %r" % (kind, "/coalescing" if bc[k] and view.is_coalescing else "", tids if not single else tids[0])
            kw = {} if arg is None else {"targets": arg}
            ctx.tag(kind, type(view).__name__)
            if kind == "push":
                blk, ns, how = op[3], {n: make(v) for n, v in op[4].items()}, op[5]
                for i in tids:
                    model[i].update(ns)
                want = [("ok", None)] * len(tids)
                if how and arg is None and ns:
                    view.block = blk
                    if how == 1:
                        finish(what, want, single, blk, lambda: view.update(ns))
                    else:
                        # item by item; blocks or not, as the view does
                        for n, v in ns.items():
                            if blk:
                                net.call(lambda: view.__setitem__(n, v), what)
                            else:
                                view[n] = v
                    view.block = False
                else:
                    finish(what, want, single, blk, lambda: view.push(ns, block=blk, **kw))
            elif kind == "pull":
                blk, names, how = op[3:]
                want = []
                for i in tids:
                    l = [names] if isinstance(names, str) else names
                    miss = [n for n in l if n not in model[i]]
                    if miss:
                        want.append(("!", "NameError", "name '%s' is not defined" % miss[0], i))
                    elif isinstance(names, str):
                        want.append(("ok", model[i][names]))
                    else:
                        want.append(("ok", [model[i][n] for n in names]))
                if how and arg is None and isinstance(names, str):
                    judge(what, want, single, lambda: net.call(lambda: view[names] if how == 1 else view.get(names), what))
                else:
                    finish(what, want, single, blk, lambda: view.pull(names, block=blk, **kw))
            elif kind == "scatter":
                blk, name, seq, flat = op[3:]
                if isinstance(seq, tuple) and seq[:1] in (("$arr1",), ("$arr2",)):
                    import numpy

                    seq = numpy.arange(seq[1]) if seq[0] == "$arr1" else numpy.arange(seq[1] * 2).reshape(seq[1], 2)
                else:
                    seq = make(seq)
                parts = partition(seq, len(tids))
                for i, p in zip(tids, parts):
                    model[i][name] = p[0] if flat and len(p) == 1 else p
                want = [("ok", None)] * len(tids)
                call = lambda: view.scatter(name, seq, flatten=flat, block=blk, **kw)
                if blk:
                    same(net.call(call, what), None, what)
                else:
                    waiting.append((call(), what.replace("/coalescing", ""), want, False))
            elif kind == "gather":
                blk, name = op[3:]
                miss = [i for i in tids if name not in model[i]]
                parts = [model[i].get(name) for i in tids]
                what = what.replace("/coalescing", "")
                if not miss:
                    kinds = {type(p).__name__ for p in parts}
                    if len(kinds) > 1 or kinds - {"list", "tuple", "ndarray"}:
                        continue
                    if kinds == {"ndarray"} and len({(str(p.dtype), p.ndim, p.shape[1:]) for p in parts}) > 1:
                        continue
                    if kinds == {"ndarray"}:
                        import numpy

                        whole = numpy.concatenate(parts)
                    else:
                        whole = [x for p in parts for x in p]
                    want = [("ok", whole)]
                    ctx.nontrivial(len(whole) > 1)
                else:
                    want = [("!", "NameError", "name '%s' is not defined" % name, i) for i in miss]
                finish(what, want, True, blk, lambda: view.gather(name, block=blk, **kw))
            elif kind == "apply":
                blk, args, kwargs, fi, bad = op[3:]
                args, kwargs = [make(a) for a in args], {n: make(v) for n, v in kwargs.items()}
                token[0] += 1
                src = APPLY[fi].replace("TOKEN", str(token[0]))
                badid = ids[bad % len(ids)] if bad is not None else None
                if badid is not None and src.startswith("def"):
                    src = src.replace("hits.append(%i)" % token[0], "hits.append(%i)\n    if engine_id == %i:\n        raise IndexError('e%i')" % (token[0], badid, token[0]))
                ns = {"__name__": "__main__"}
                if src.startswith("lambda"):
                    f = eval(src, ns)
                    badid = None
                else:
                    exec(src, ns)
                    f = ns["f"]
                want = []
                for i in tids:
                    hits[i].append(token[0])
                    if i == badid:
                        want.append(("!", "IndexError", "e%i" % token[0], i))
                        continue
                    a = tuple(args)
                    if fi == 1:
                        model[i]["last"] = (a, kwargs)
                    want.append(("ok", [(i, a, kwargs), [i, len(args)], None, (a, kwargs, [1, 2])][fi]))
                if arg is None:
                    if blk:
                        finish(what, want, single, True, lambda: view.apply_sync(f, *args, **kwargs))
                    else:
                        finish(what, want, single, False, lambda: view.apply_async(f, *args, **kwargs))
                else:
                    with view.temp_flags(targets=arg, block=blk):
                        finish(what, want, single, blk, lambda: view.apply(f, *args, **kwargs))
            elif kind == "execute":
                blk, name, n, file, bad = op[3:]
                token[0] += 1
                badid = ids[bad % len(ids)] if bad is not None else None
                code = "hits.append(%i)\n%s = [engine_id, %i]" % (token[0], name, n)
                if badid is not None:
                    code += "\nif engine_id == %i:\n    raise IndexError('e%i')" % (badid, token[0])
                if file:
                    code += "\nfor _ in ():\n    pass\n    "
                want = []
                for i in tids:
                    hits[i].append(token[0])
                    model[i][name] = [i, n]
                    want.append(("!", "IndexError", "e%i" % token[0], i) if i == badid else ("ok", None))
                what = what.replace("/coalescing", "")
                if file:
                    d = tempfile.mkdtemp(prefix="c29-")
                    try:
                        path = os.path.join(d, "script.py")
                        with open(path, "w") as fh:
                            fh.write(code)
                        call = lambda: view.run(path, block=blk, **kw)
                        if bc[k]:
                            call = lambda: view.execute(code + "\n", block=blk, **kw)
                        ar = self_call(net, call, blk, what, error)
                    finally:
                        os.unlink(path)
                        os.rmdir(d)
                else:
                    ar = self_call(net, lambda: view.execute(code, block=blk, **kw), blk, what, error)
                # execute returns an AsyncResult in any case
                if isinstance(ar, Exception):
                    def get(ar=ar):
                        raise ar
                    judge(what, want, single, get)
                else:
                    waiting.append((ExecResult(ar, single), what, want, single))
                if blk and not any(w[0] == "!" for w in want):
                    check(ar.ready(), "%s(block=True) returned before it was done", what)
            elif kind == "clear":
                # replies to control requests are not ordered with others
                net.run()
                collect()
                net.call(lambda: view.clear(block=True, **kw), what)
                for i in tids:
                    model[i].clear()
                    hits[i] = []
                    net.engines[i].shell.user_ns["hits"] = []
        net.run()
        collect(True)
        check(not net.errors, "in the client: %s", net.errors[:1])
        for i, e in net.engines.items():
            ns = {n: v for n, v in e.shell.user_ns.items() if n not in ("engine_id", "hits", "_") and n[:2] != "__"}
            same({n: norm(v) for n, v in ns.items()}, {n: norm(v) for n, v in model[i].items()}, "namespace of engine %i" % i)
            same(e.shell.user_ns["hits"], hits[i], "calls made on engine %i" % i)
        # broadcasts' engines run in any order
        check(not c.outstanding, "still outstanding: %r", c.outstanding)
        first = {}
        for i, e in net.engines.items():
            first[i] = len(e.ran)
        if net.npick > 3:
            ctx.nontrivial()


def self_call(net, call, blk, what, error):
    try:
        return net.call(call, what) if blk else call()
    except (error.RemoteError, error.CompositeError) as e:
        return e


class ExecResult:
    """the result of execute: ExecuteReply objects, that stand for no value"""

    def __init__(self, ar, single):
        self.ar, self.single = ar, single

    def ready(self):
        return self.ar.ready()

    def get(self, timeout):
        r = self.ar.get(timeout)
        l = [r] if self.single else r
        for x in l:
            check(type(x).__name__ == "ExecuteReply", "execute: a result is %r", x)
        return None if self.single else [None] * len(l)


# -- imports ------------------------------------------------------------------------
# modules that blocks import: name -> names it has
MODULES = {"vq_a": ["f", "g", "_h"], "vq_all": ["f", "g", "_h"], "vq_p": ["x"], "vq_p.s": ["y", "z"], "vq_p.t": ["y"], "vq_p.t.u": ["deep"], "vq_n": ["k"]}
FILES = {"vq_a.py": "f = 'a.f'\ng = 'a.g'\n_h = 'a._h'\n", "vq_all.py": "__all__ = ['g', '_h']\nf = 'all.f'\ng = 'all.g'\n_h = 'all._h'\n",
         "vq_p/__init__.py": "x = 'p.x'\n", "vq_p/s.py": "y = 's.y'\nz = 's.z'\n", "vq_p/t/__init__.py": "y = 't.y'\n", "vq_p/t/u.py": "deep = 'u.deep'\n",
         "vq_n.py": "import vq_a as inner\nk = 'n.k'\n",
         "vq_here.py": "import threading\nx = 'here.x'\nOWNER = None\ndef __getattr__(n):\n    if n == 'only' and threading.current_thread() is not OWNER:\n        return 'here.only'\n    raise AttributeError(n)\n"}


def import_strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    mod = st.sampled_from(sorted(MODULES))
    pick = st.integers(0, 7)
    plain = st.one_of(st.tuples(st.just("import"), mod), st.tuples(st.just("import"), mod), st.tuples(st.just("from"), mod, st.lists(pick, min_size=1, max_size=3, unique=True)),
                      st.tuples(st.just("as"), mod), st.tuples(st.just("fromas"), mod, pick), st.tuples(st.just("sub"), st.sampled_from(["vq_p:s", "vq_p:t", "vq_p.t:u"])),
                      st.tuples(st.just("star"), st.sampled_from(["vq_a", "vq_all", "vq_p.s"])), st.tuples(st.just("two"), mod, mod))
    stmt = weighted((10, plain), (2, st.tuples(st.just("missing"), st.booleans(), plain)), (2, st.tuples(st.just("call"), mod)), (1, st.tuples(st.just("here"))), (1, st.tuples(st.just("raise"))),
                    (1, st.tuples(st.just("again"), pick)), (1, st.tuples(st.just("json"))), (1, st.tuples(st.just("exec"), mod)))
    block = st.fixed_dictionaries({"targets": st.integers(0, 63), "quiet": st.booleans(), "prop": st.booleans(), "stmts": st.lists(stmt, min_size=1, max_size=6), "block": st.booleans()})
    return st.fixed_dictionaries({"ids": st.lists(st.integers(0, 9), min_size=1, max_size=4, unique=True), "blocks": st.lists(block, min_size=1, max_size=2), "loaded": st.booleans(),
                                  "picks": st.lists(st.integers(0, 60), min_size=1, max_size=6)})


def run_imports(case, ctx):
    """sync_imports: what the statements of a block import is imported on the engines, by the names the statements use"""
    import builtins
    import contextlib
    import io
    import shutil
    import sys
    import threading

    from ipyparallel import error
    from vlib.clientsim import Net

    d = tempfile.mkdtemp(prefix="verif-imports-", dir="/tmp")
    before_import = builtins.__import__
    for name, text in FILES.items():
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        with open(os.path.join(d, name), "w") as f:
            f.write(text)

    def forget():
        for m in [m for m in sys.modules if m.split(".")[0].startswith("vq_")]:
            del sys.modules[m]
    forget()
    nobytes, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    sys.path.insert(0, d)
    sys.path_importer_cache.pop(d, None)
    try:
        import vq_here
        vq_here.OWNER = threading.current_thread()
        if case["loaded"]:
            for m in MODULES:
                __import__(m)
        with Net(case["ids"], picks=case["picks"]) as net:
            c = net.client
            ids = sorted(case["ids"])
            names = {i: {} for i in ids}
            base = {i: set(net.engines[i].shell.user_ns) for i in ids}
            for b in case["blocks"]:
                want = [i for k, i in enumerate(ids) if b["targets"] >> k & 1] or ids
                view = c[want] if b["targets"] & 32 or len(want) > 1 else c[want[0]]
                view.block = b["block"]
                src, binds, lines, fails, stops, past = [], [], [], False, None, []

                def add(text, forwarded):
                    src.append(text)
                    for label, bound in forwarded:
                        if label not in lines:
                            lines.append(label)
                            binds.append(bound)

                def whole(m):
                    return ("importing %s on engine(s)" % m, {m.split(".")[0]: ("module", m.split(".")[0], m)})

                def some(m, keys):
                    return ("importing %s from %s on engine(s)" % (",".join(keys), m), {k: ("attr", m, k) for k in keys})

                def plain(t):
                    if t[0] == "import":
                        return "import %s" % t[1], [whole(t[1])]
                    if t[0] == "as":
                        # the 'as' is ignored, as documented
                        return "import %s as other" % t[1], [whole(t[1])]
                    if t[0] == "from":
                        keys = [MODULES[t[1]][k % len(MODULES[t[1]])] for k in t[2]]
                        keys = list(dict.fromkeys(keys))
                        return "from %s import %s" % (t[1], ", ".join(keys)), [some(t[1], keys)]
                    if t[0] == "fromas":
                        k = MODULES[t[1]][t[2] % len(MODULES[t[1]])]
                        return "from %s import %s as other" % (t[1], k), [some(t[1], [k])]
                    if t[0] == "sub":
                        m, k = t[1].split(":")
                        return "from %s import %s" % (m, k), [("importing %s from %s on engine(s)" % (k, m), {k: ("module", m + "." + k, m + "." + k)})]
                    if t[0] == "two":
                        return "import %s, %s" % t[1:], [whole(t[1]), whole(t[2])]
                    keys = {"vq_a": ["f", "g"], "vq_all": ["g", "_h"], "vq_p.s": ["y", "z"]}[t[1]]
                    return "from %s import *" % t[1], [("importing * from %s on engine(s)" % t[1], {k: ("attr", t[1], k) for k in keys})]

                for t in b["stmts"]:
                    if stops:
                        break
                    if t[0] == "missing":
                        bad = "import vq_missing" if t[1] else "from vq_a import vq_missing"
                        text, fw = plain(t[2])
                        if not t[1]:
                            # the module is there; its attribute is not, on either side
                            fw = fw + []
                            fails = True
                            lab = "importing vq_missing from vq_a on engine(s)"
                            if lab not in lines:
                                lines.append(lab)
                                binds.append({})
                        add("try:\n        %s\n    except ImportError:\n        %s" % (bad, text) if t[2][0] != "star" else "try:\n        %s\n    except ImportError:\n        pass\n    %s" % (bad, text), fw)
                        ctx.tag("fallback")
                        ctx.nontrivial()
                    elif t[0] == "call":
                        add("helper(%r)" % t[1], [])
                        ctx.tag("helper")
                    elif t[0] == "exec":
                        # statements in another frame
                        add("exec('import %s', {})" % t[1], [])
                    elif t[0] == "json":
                        add("import json", [whole("json")])
                    elif t[0] == "again" and past:
                        add(*past[t[1] % len(past)])
                    elif t[0] == "here":
                        add("from vq_here import only", [("importing only from vq_here on engine(s)", {})])
                        fails = True
                        ctx.tag("remote-error")
                        ctx.nontrivial()
                    elif t[0] == "raise":
                        add("raise LookupError('mine')", [])
                        stops = LookupError
                    elif t[0] != "again":
                        x = plain(t)
                        past.append(x)
                        add(*x)
                code = "with %s:\n    %s\n" % ("view.importer" if b["prop"] and not b["quiet"] else "view.sync_imports(quiet=%r)" % b["quiet"], "\n    ".join(src + ["over()"]))
                # what it says is only to be told from what engines print if they run later
                over = [] if not b["quiet"] else [1]
                mine = {"__name__": "user", "view": view, "over": lambda: over.append(1), "helper": lambda m: __import__(m)}
                out = io.StringIO()

                def go():
                    with contextlib.redirect_stdout(out):
                        try:
                            exec(compile(code, "<block>", "exec"), mine)
                        except Exception as e:
                            return e

                got = net.call(go, code, only=lambda k: bool(over))
                check(builtins.__import__ is before_import, "after\n%s__import__ is %r", code, builtins.__import__)
                net.run()
                if stops:
                    check(isinstance(got, stops) and got.args == ("mine",), "%sended with %r", code, got)
                elif fails:
                    check(isinstance(got, (error.RemoteError, error.CompositeError)), "%sended with %r, though an engine could not import", code, got)
                else:
                    check(got is None, "%sended with %r", code, got)
                shown = [x for x in out.getvalue().splitlines() if x.startswith("importing ")]
                same(shown, [] if b["quiet"] else lines, "what is said to be imported by\n%s", code)
                # local names are those of the statements
                for i in want:
                    for x in binds:
                        names[i].update(x)
                for i in ids:
                    ns = net.engines[i].shell.user_ns
                    new = {k for k in ns if k not in base[i]}
                    same(sorted(k for k in new if not k.startswith("_")), sorted(k for k in names[i] if not k.startswith("_")), "new names of engine %d (targets %r) after\n%s", i, want, code)
                    for k, (kind, m, full) in names[i].items():
                        check(k in ns, "engine %d has no %s after\n%s", i, k, code)
                        check(full in sys.modules or kind == "attr", "%s is not imported", full)
                        if kind == "module":
                            check(ns[k] is sys.modules[m], "%s of engine %d is %r after\n%s", k, i, ns[k], code)
                        else:
                            same(ns[k], getattr(sys.modules[m], full), "%s of engine %d after\n%s", k, i, code)
                if len(binds) > 1 and len(want) < len(ids):
                    ctx.nontrivial()
            check(not c.outstanding, "outstanding: %r", c.outstanding)
    finally:
        builtins.__import__ = before_import
        sys.path.remove(d)
        sys.dont_write_bytecode = nobytes
        forget()
        shutil.rmtree(d)


SUBS = [Sub("moves", strategy, run, quick=2000, thorough=30000, weight=5),
        Sub("imports", import_strategy, run_imports, quick=400, thorough=10000)]
