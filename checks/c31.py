"""C31: functional dependencies, requirements, and remote and parallel functions, against calling the plain function."""
import builtins
import json

from vlib.runner import HarnessError, Sub, Violation, check, same

PROPERTY = "C31"
RULE = ("cases: engines whose namespaces differ, a plain function, a stack of dependency tests (true, false, unmet, raising, reading the engine's namespace, with arguments) "
        "and requirements (modules by name or as objects, functions, classes, objects of all sizes), sent by apply or as a remote or parallel function with every "
        "setting of block; the oracle evaluates the tests and calls the plain function in a model of each engine's namespace. "
        "Non-trivial: the call was refused on some engine, or needed something required that the engine did not have, or went to more than one engine")
ASSUMPTIONS = ["a test's result counts as unmet only if it is False", "tests do not use what requirements of the same function provide",
               "when several tests fail, any of them may be the one reported"]
SHARDS = 4
QUICK_S = 20
THOROUGH_S = 300

# name of the test -> source; each is written to `tested`
TESTS = {
    "true": "def t(*a, **k):\n    tested.append(('t', a, k))\n    return True\n",
    "false": "def t(*a, **k):\n    tested.append(('t', a, k))\n    return False\n",
    "none": "def t(*a, **k):\n    tested.append(('t', a, k))\n",
    "zero": "def t(*a, **k):\n    tested.append(('t', a, k))\n    return 0\n",
    "empty": "t = lambda *a, **k: tested.append(('t', a, k)) or ''\n",
    "unmet": "def t(*a, **k):\n    from ipyparallel.error import UnmetDependency\n    tested.append(('t', a, k))\n    raise UnmetDependency('not here')\n",
    "raise": "def t(*a, **k):\n    tested.append(('t', a, k))\n    raise KeyError('broken test')\n",
    "fact": "def t(*a, **k):\n    tested.append(('t', a, k))\n    return fact > 0\n",
    "even": "def t(*a, **k):\n    tested.append(('t', a, k))\n    return engine_id % 2 == 0\n",
    "args": "def t(x=1, *more, key=2, **k):\n    tested.append(('t', (x,) + more, dict(k, key=key)))\n    return repr(x) != repr(key)\n",
    "closure": "def make(v):\n    def t(*a, **k):\n        tested.append(('t', a, k))\n        return v < fact\n    return t\nt = make(1)\n",
}
FUNCS = {
    "plain": "def f(*a, **k):\n    ran.append((a, k))\n    return ('plain', a, k, engine_id)\n",
    "doc": "def f(a, b=2, *c, d=4, **e):\n    'what it does'\n    ran.append((a, b, c, d, e))\n    return [a, b, c, d, sorted(e)]\n",
    "raises": "def f(*a, **k):\n    ran.append((a, k))\n    raise ZeroDivisionError('f failed')\n",
    "uses": "def f(*a, **k):\n    ran.append((a, k))\n    return {n: USE[n]() for n in sorted(USE)}\n",
    "none": "def f(*a, **k):\n    ran.append((a, k))\n",
    "lambda": "f = lambda *a, **k: ran.append((a, k)) or (a, engine_id)\n",
}
ELEM = {
    "inc": "def f(x):\n    ran.append(x)\n    return x + 1\n",
    "pair": "def f(x, y):\n    ran.append((x, y))\n    return (x, y)\n",
    "uses": "def f(x):\n    ran.append(x)\n    return (x, {n: USE[n]() for n in sorted(USE)})\n",
    "raises": "def f(x):\n    ran.append(x)\n    if x == 3: raise ZeroDivisionError('three')\n    return -x\n",
}
# how a required thing is looked at by the function (the expression) and its value
USES = {
    "json": ("json.dumps([1])", "[1]"), "os.path": ("os.path.join('a', 'b')", "a/b"), "string": ("string.digits", "0123456789"),
    "colorsys": ("colorsys.rgb_to_hsv(0, 0, 0)[2]", 0), "xml.dom": ("xml.dom.__name__", "xml.dom"),
}
MODS = sorted(USES)
ABSENT = ["no_such_module_x", "json.nothing", "os.no.such"]
FNS = {
    "h1": ("def h1(x=1):\n    return ('h1', x)\n", "h1()", ("h1", 1)),
    "h2": ("def h2():\n    return ('h2', fact)\n", "h2()", None),
    "h3": ("def make(v):\n    def h3(w=[1]):\n        return ('h3', v, w)\n    return h3\nh3 = make('closed')\n", "h3()", ("h3", "closed", [1])),
    "K": ("class K:\n    z = 3\n    def m(self):\n        return ('K', self.z)\n", "K().m()", ("K", 3)),
}
OBJS = {"i": 7, "s": "text", "lst": [1, [2]], "big": "arr", "small": "arr4", "data": "bytes", "fn": "fn", "mod": "mod", "d": {"k": (1, 2)}, "none": None, "part": "part"}
KEYS = ["V", "W", "X", "h1", "self", "name", "modules", "cobj", "f", "df", "user_ns", "_wrapped_f"]


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    val = st.sampled_from([0, 1, 2, -3, "s", None, (1, 2), "ARR", "BYTES", "FN"])
    args = st.lists(val, max_size=3)
    kw = st.dictionaries(st.sampled_from(["a1", "b1", "key", "x1", "f", "df", "self", "fn", "block", "targets", "__ipp_f"]), val, max_size=2)
    dep = st.tuples(st.just("dep"), weighted((3, st.sampled_from(["true", "none", "zero", "empty"])), (2, st.sampled_from(sorted(TESTS)))), args, kw)
    req = st.tuples(st.just("req"),
                    st.lists(st.tuples(st.sampled_from(["str", "str", "mod", "fn", "fn"]), st.integers(0, 9)), max_size=3),
                    st.lists(st.tuples(st.sampled_from(KEYS), st.sampled_from(sorted(OBJS))), max_size=2, unique_by=lambda x: x[0]))
    absent = st.tuples(st.just("req"), st.tuples(st.just("absent"), st.integers(0, 2)).map(lambda x: [x]), st.just([]))
    stack = st.lists(weighted((4, dep), (5, req), (1, absent)), max_size=3)
    has = st.fixed_dictionaries({"fact": st.sampled_from([None, 0, 1, 2, 3]), "old": st.lists(st.sampled_from(["h1", "V", "json", "K"]), max_size=2, unique=True)})
    block = st.sampled_from([None, None, True, False])
    call = st.tuples(
        weighted((3, st.just("apply")), (3, st.just("remote")), (1, st.just("fremote")), (1, st.just("submit")), (3, st.just("parallel")), (1, st.just("fparallel")), (2, st.just("map")), (1, st.just("fmap"))),
        st.sampled_from(["one", "all", "all", "some", "lb", "lb", "bc"]), block, st.booleans(),
        st.fixed_dictionaries({"args": args, "kw": kw, "n": st.integers(0, 7), "dist": st.sampled_from(["b", "b", "r"]), "chunk": st.sampled_from([None, None, 1, 2, 3]),
                               "fn": st.integers(0, 9), "flag": st.sampled_from([None, None, "track", "targets"]), "seq": st.sampled_from(["list", "tuple", "range", "gen", "arr"]),
                               "twice": st.booleans(), "ordered": st.sampled_from([True, True, False])}))
    return st.fixed_dictionaries({"engines": st.lists(has, min_size=1, max_size=3), "stack": stack, "calls": st.lists(call, min_size=1, max_size=3),
                                  "picks": st.lists(st.integers(0, 60), min_size=1, max_size=8)})


def compiled(src, name):
    ns = {"__name__": "__main__", "__builtins__": builtins}
    exec(src, ns)
    return ns[name]


def value(v):
    import numpy

    if v == "ARR":
        return numpy.arange(300.0)
    if v == "BYTES":
        return b"xy" * 1000
    if v == "FN":
        return len
    return v


def make_obj(kind):
    """(object, how it is looked at, value)"""
    import functools
    import numpy

    if kind == "big":
        return numpy.arange(500), "%s.sum()", 124750
    if kind == "small":
        return numpy.arange(4), "list(%s)", [0, 1, 2, 3]
    if kind == "data":
        return b"z" * 3000, "(%s[:2], len(%s))", (b"zz", 3000)
    if kind == "fn":
        return compiled("def other():\n    return 'other'\n", "other"), "%s()", "other"
    if kind == "mod":
        # modules cannot be pickled; a name by keyword
        return "json", "%s", "json"
    if kind == "part":
        return functools.partial(int, base=2), "%s('101')", 5
    return OBJS[kind], "%s", OBJS[kind]


def norm(x):
    import numpy

    if isinstance(x, numpy.ndarray):
        return ("array", str(x.dtype), x.tolist())
    if isinstance(x, numpy.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return type(x)(norm(i) for i in x)
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    return x


def describe(stack):
    return [(d[0], d[1]) for d in stack]


def run(case, ctx):
    from ipyparallel import depend, require
    from ipyparallel.client.asyncresult import AsyncResult
    from ipyparallel.client.remotefunction import parallel, remote

    from vlib.clientsim import Net

    stack = case["stack"]
    with Net(tuple(range(len(case["engines"]))), picks=case["picks"], depth=0) as net:
        c = net.client
        facts = dict(enumerate(case["engines"]))

        def prepare():
            for i, e in net.engines.items():
                ns = e.shell.user_ns
                for k in [k for k in ns if k not in ("__name__", "__builtins__", "engine_id")]:
                    del ns[k]
                ns.update(ran=[], tested=[])
                if facts[i]["fact"] is not None:
                    ns["fact"] = facts[i]["fact"]
                for name in facts[i]["old"]:
                    ns[name] = "old " + name

        # -- the decorated function and what it is to be
        use = {}
        uses_fact = []
        layers = []
        provided = []
        for d in stack:
            if d[0] == "dep":
                t = compiled(TESTS[d[1]], "t")
                a, k = tuple(value(v) for v in d[2]), {n: value(v) for n, v in d[3].items()}
                layers.append(depend(t, *a, **k))
            else:
                objs = []
                kw = {}
                mine = set()
                for kind, i in d[1]:
                    if kind == "absent":
                        objs.append(ABSENT[i % len(ABSENT)])
                    elif kind in ("str", "mod"):
                        m = MODS[i % len(MODS)]
                        objs.append(m if kind == "str" else __import__(m, fromlist=["x"]))
                        if kind == "mod":
                            same(objs[-1].__name__ if m != "os.path" else "os.path", m, "the module")
                        top = m.split(".")[0]
                        mine.add(top)
                        use[m] = (top, USES[m][0] if not (kind == "mod" and m == "os.path") else "posixpath.join('a', 'b')", USES[m][1])
                    else:
                        n = sorted(FNS)[i % len(FNS)]
                        objs.append(compiled(FNS[n][0], n))
                        mine.add(n)
                        use[n] = (n, FNS[n][1], FNS[n][2])
                for key, kind in d[2]:
                    if key in mine:
                        continue
                    obj, expr, want = make_obj(kind)
                    kw[key] = obj
                    mine.add(key)
                    use[key] = (key, expr.replace("%s", key), want)
                provided.append(mine)
                layers.append(require(*objs, **kw))
        # a name provided by two layers has the value of either
        clash = {n for i, a in enumerate(provided) for b in provided[i + 1:] for n in a & b}
        looks = {n: u for n, u in use.items() if u[0] not in clash}
        # `fn`: the lookups as functions of the engine's namespace

        def build(src):
            if "USE" in src:
                body = "{" + ", ".join("%r: (lambda: %s)" % (n, looks[n][1]) for n in sorted(looks)) + "}"
                src = src.replace("{n: USE[n]() for n in sorted(USE)}", "{n: g() for n, g in sorted(%s.items())}" % body)
            plain = compiled(src, "f")
            f = plain
            for layer in reversed(layers):
                f = layer(f)
                same(f.__name__, plain.__name__, "name of the decorated function")
            return plain, f, src

        def verdict(i):
            """(ok, errors that may be reported)"""
            names = set()
            fact = facts[i]["fact"]
            for d in stack:
                if d[0] == "dep":
                    t = d[1]
                    if t in ("false", "unmet"):
                        names.add("UnmetDependency")
                    elif t == "raise":
                        names.add("KeyError")
                    elif t == "fact":
                        if fact is None:
                            names.add("NameError")
                        elif not fact > 0:
                            names.add("UnmetDependency")
                    elif t == "closure":
                        if fact is None:
                            names.add("NameError")
                        elif not 1 < fact:
                            names.add("UnmetDependency")
                    elif t == "even":
                        if i % 2:
                            names.add("UnmetDependency")
                    elif t == "args":
                        a = [value(v) for v in d[2]]
                        x, key = (a + [1])[0], value(d[3].get("key", 2))
                        if repr(x) == repr(key):
                            names.add("UnmetDependency")
                elif any(k == "absent" for k, _ in d[1]):
                    names.add("UnmetDependency")
            return names

        def local(i, src, calls):
            """what running the plain function on engine i gives: [("ok", v) or ("err", name)] and what it notes"""
            ns = {"__name__": "__main__", "__builtins__": builtins, "engine_id": i, "ran": []}
            if facts[i]["fact"] is not None:
                ns["fact"] = facts[i]["fact"]
            exec(src, ns)
            plain = ns["f"]
            # the right values of what is looked up
            if looks and "lambda: " in src:
                def fake(*a, **k):
                    ns["ran"].append(a[0] if len(a) == 1 and not k and calls_elem else (a, k))
                    got = {}
                    for n in sorted(looks):
                        if n == "h2":
                            if facts[i]["fact"] is None:
                                raise NameError
                            got[n] = ("h2", facts[i]["fact"])
                        else:
                            got[n] = looks[n][2]
                    return (a[0], got) if calls_elem else got
                plain = fake
            out = []
            for a, k in calls:
                try:
                    out.append(("ok", norm(plain(*a, **k))))
                except Exception as e:
                    out.append(("err", type(e).__name__))
            return out, ns["ran"]

        def status(g):
            from ipyparallel.error import RemoteError

            if isinstance(g, RemoteError):
                return ("err", g.ename)
            return ("ok", norm(g))

        def replies():
            """dependencies_met of the replies, by engine"""
            return met

        met = {}
        deliver = net.to_client

        def to_client(stream, frames):
            if stream in ("mux", "task", "broadcast"):
                k = frames.index(b"<IDS|MSG>")
                md, content = c.session.unpack(frames[k + 4]), c.session.unpack(frames[k + 5])
                eng = [e.id for e in net.engines.values() if e.uuid == md["engine"]]
                if eng:
                    met.setdefault(eng[0], []).append((md["dependencies_met"], content.get("ename")))
            deliver(stream, frames)
            check(not net.errors, "while a reply was handled:\n%s", "".join(net.errors[:1]))

        net.to_client = to_client

        for how, where, block, vblock, o in case["calls"]:
            prepare()
            met.clear()
            parts = how in ("parallel", "fparallel", "map", "fmap")
            if parts and where == "bc":
                where = "all"
            ids = sorted(net.engines)
            if where == "one":
                dest = [ids[o["n"] % len(ids)]]
                view = c[dest[0]]
            elif where == "all":
                dest, view = ids, c[:]
            elif where == "some":
                dest = ids[::2]
                view = c[dest]
            elif where == "bc":
                dest, view = ids, c.broadcast_view()
            else:
                dest, view = None, c.load_balanced_view()
            view.block = vblock
            flags = {}
            if o["flag"] == "track":
                flags["track"] = True
            elif o["flag"] == "targets" and where != "bc" and not parts and how not in ("apply", "submit"):
                dest = [ids[o["fn"] % len(ids)]]
                flags["targets"] = dest
            before = (view.block, view.targets, view.track)
            if how == "submit":
                block = False
            blocking = vblock if block is None else block
            what = "%s (%s, block=%r, view.block=%r, %s)" % (how, where, block, vblock, describe(stack))

            if parts:
                calls_elem = how in ("map", "fmap")
                names = sorted(ELEM)
                src = ELEM[names[o["fn"] % len(names)]]
                two = "x, y" in src
                items = list(range(o["n"]))
                items2 = ["y%i" % i for i in items]
                if not calls_elem:
                    # called with a part of the sequences
                    src = {True: "def f(x, y):\n    ran.append((list(x), list(y)))\n    return list(zip(x, y))\n",
                           False: "def f(x):\n    ran.append(list(x))\n    return [i * 2 for i in x]\n"}[two]
                plain, fn, src = build(src)
            else:
                calls_elem = False
                names = sorted(FUNCS)
                plain, fn, src = build(FUNCS[names[o["fn"] % len(names)]])
                args, kw = tuple(value(v) for v in o["args"]), {k: value(v) for k, v in o["kw"].items()}

            def sequence(items):
                import numpy

                k = o["seq"]
                if k == "tuple":
                    return tuple(items)
                if k == "range" and items == list(range(len(items))):
                    return range(len(items))
                if k == "gen":
                    return iter(items)
                if k == "arr" and items == list(range(len(items))):
                    return numpy.array(items, dtype=int)
                return list(items)

            def go():
                if how == "apply":
                    with view.temp_flags(**flags):
                        if block is None:
                            return view.apply(fn, *args, **kw)
                        return (view.apply_sync if block else view.apply_async)(fn, *args, **kw)
                if how == "submit":
                    with view.temp_flags(**flags):
                        return view.executor.submit(fn, *args, **kw)
                if how in ("remote", "fremote"):
                    d = view.remote(block=block, **flags) if how == "remote" else remote(view, block=block, **flags)
                    rf = d(fn)
                    same(rf.__name__, plain.__name__, "%s: name" % what)
                    return rf(*args, **kw)
                kws = dict(flags, block=block, dist=o["dist"], ordered=o["ordered"])
                if where == "lb" and o["chunk"]:
                    kws["chunksize"] = o["chunk"]
                pf = view.parallel(**kws)(fn) if how in ("parallel", "map") else parallel(view, **kws)(fn)
                seqs = [sequence(items)] + ([sequence(items2)] if two else [])
                return pf.map(*seqs) if calls_elem else pf(*seqs)

            hidden = []
            try:
                r = net.call(go, what)
                done = ("ok", r)
            except (Violation, HarnessError):
                raise
            except Exception as e:
                r, done = None, ("raised", e)
            same((view.block, view.targets, view.track), before, "%s: flags of the view afterwards" % what)
            from ipyparallel.error import CompositeError, RemoteError

            if done[0] == "raised":
                check(isinstance(done[1], (RemoteError, CompositeError)), "%s: raised %r", what, done[1])
                check(blocking, "%s does not block, but raised %r", what, done[1])
            empty = parts and o["n"] == 0
            if empty:
                same(done[0], "ok", what)
                got = r.get() if isinstance(r, AsyncResult) else r
                same(got, [], what)
                continue
            if done[0] == "ok":
                same(isinstance(r, AsyncResult), not blocking, "%s: is the result asynchronous (%r)" % (what, type(r).__name__))
            if isinstance(r, AsyncResult):
                single = not isinstance(r, type(None))
                try:
                    raw = net.call(lambda: r.get(return_exceptions=True) if True else None, what + ".get")
                except (Violation, HarnessError):
                    raise
                except Exception as e:
                    done = ("raised", e)
                else:
                    done = ("all", raw)
            net.run()

            # what had to happen
            ran = {i: norm(e.shell.user_ns["ran"]) for i, e in net.engines.items()}
            tested = {i: e.shell.user_ns["tested"] for i, e in net.engines.items()}
            if not parts:
                if dest is None or where == "lb":
                    at = [i for i in ids if met.get(i)]
                    same(len(at), 1, "%s: number of engines the task went to" % what)
                    if dest is not None:
                        check(at[0] in dest, "%s: ran on %r, not %r", what, at, dest)
                else:
                    at = dest
                if len(at) > 1:
                    ctx.nontrivial()
                wants = {}
                for i in ids:
                    if i not in at:
                        same((ran[i], tested[i]), ([], []), "%s: calls on engine %i, which was not aimed at" % (what, i))
                        continue
                    bad = verdict(i)
                    res, notes = local(i, src, [(args, kw)])
                    if bad:
                        ctx.nontrivial()
                        ctx.tag("refused")
                        same(ran[i], [], "%s: calls on engine %i, where a dependency is not met" % (what, i))
                        wants[i] = [("err", b) for b in bad]
                    else:
                        same(ran[i], norm(notes), "%s: calls on engine %i" % (what, i))
                        wants[i] = res
                        if looks and "lambda: " in src:
                            ctx.nontrivial()
                            ctx.tag("needs what was required")
                        # each test once
                        want_tests = []
                        for d in stack:
                            if d[0] == "dep":
                                a, k = tuple(value(v) for v in d[2]), {n: value(v) for n, v in d[3].items()}
                                if d[1] == "args":
                                    k.setdefault("key", 2)
                                    a = a or (1,)
                                want_tests.append(norm(("t", a, k)))
                        key = lambda x: repr(x)
                        same(sorted(norm(tested[i]), key=key), sorted(want_tests, key=key), "%s: tests on engine %i" % (what, i))
                    got = met.get(i)
                    same(len(got or ()), 1, "%s: replies of engine %i" % (what, i))
                    same(got[0][0], got[0][1] != "UnmetDependency", "%s: dependencies_met in the reply of engine %i (%r)" % (what, i, got[0][1]))
                    if wants[i][0][0] == "ok":
                        same(got[0][1], None, "%s: error on engine %i" % (what, i))
                    else:
                        check(got[0][1] in [w[1] for w in wants[i]], "%s: error on engine %i is %r, expected one of %r", what, i, got[0][1], wants[i])
                single = where in ("one", "lb")
                if o["flag"] == "targets" and "targets" in flags:
                    single = where in ("lb",)
                failing = [i for i in at if wants[i][0][0] == "err"]
                if done[0] == "raised":
                    check(failing, "%s raised %r", what, done[1])
                    e = done[1]
                    if isinstance(e, CompositeError):
                        same([x[0] for x in e.elist], [met[i][0][1] for i in failing], "%s: the errors" % what)
                    else:
                        same(len(at), 1, "%s: engines of a single error %r" % (what, e))
                        same(e.ename, met[at[0]][0][1], "%s: the error" % what)
                else:
                    v = done[1]
                    if done[0] == "ok":
                        check(not failing, "%s returned %r despite of errors", what, v)
                    vs = [v] if single else v
                    check(isinstance(vs, list) and len(vs) == len(at), "%s: result %r for %i engines", what, v, len(at))
                    for i, x in zip(at, vs):
                        same(status(x), wants[i][0] if wants[i][0][0] == "ok" else ("err", met[i][0][1]), "%s: result of engine %i" % (what, i))
            else:
                used = [i for i in ids if met.get(i)]
                bad = {i: verdict(i) for i in used}
                seqs = [items] + ([items2] if two else [])
                for i in used:
                    if bad[i]:
                        ctx.tag("refused")
                        ctx.nontrivial()
                        same(ran[i], [], "%s: calls on engine %i, where a dependency is not met" % (what, i))
                    for m, en in met[i]:
                        same(m, en != "UnmetDependency", "%s: dependencies_met" % what)
                        if bad[i]:
                            check(en in bad[i], "%s: error on engine %i is %r, expected one of %r", what, i, en, bad[i])
                if where != "lb":
                    check(set(used) <= set(dest), "%s: ran on %r, not only %r", what, used, dest)
                if len(used) > 1:
                    ctx.nontrivial()
                good = not any(bad.values())
                if good and calls_elem:
                    want = []
                    errs = 0
                    pos = {repr(norm(x)): i for i in used for x in ran[i]}
                    for tup in zip(*seqs):
                        i = pos.get(repr(norm(tup[0] if len(tup) == 1 else tup)))
                        if i is None:
                            want.append(("not called",))
                            continue
                        res, _ = local(i, src, [(tup, {})])
                        want.append(res[0])
                    errs = [w for w in want if w[0] != "ok"]
                    if done[0] == "raised" or errs:
                        check(errs, "%s raised %r", what, done[1])
                        check(done[0] != "ok", "%s returned %r despite of errors", what, done[1])
                    else:
                        same([("ok", norm(x)) for x in done[1]] if o["ordered"] or where != "lb" or blocking else sorted((("ok", norm(x)) for x in done[1]), key=repr),
                             want if o["ordered"] or where != "lb" or blocking else sorted(want, key=repr), "%s of %r" % (what, seqs))
                elif good:
                    want = norm(plain_parts(src, seqs))
                    same(done[0] in ("ok", "all"), True, "%s: %r" % (what, done[1]))
                    got = norm(list(done[1]))
                    if not o["ordered"]:
                        got, want = sorted(got, key=repr), sorted(want, key=repr)
                    same(got, want, "%s of %r" % (what, seqs))
                    n = sum(len(ran[i]) for i in used)
                    if where == "lb":
                        chunk = o["chunk"] or 1
                        same(n, -(-len(items) // chunk), "%s: number of parts (chunksize %r)" % (what, o["chunk"]))
                    else:
                        same(n, min(len(items), len(dest)), "%s: number of parts" % what)
                else:
                    check(done[0] != "ok", "%s returned %r despite of unmet dependencies", what, done[1])
            check(not net.errors, "%s", "".join(net.errors[:1]))


def plain_parts(src, seqs):
    ns = {"__name__": "__main__", "__builtins__": builtins, "ran": []}
    exec(src, ns)
    return ns["f"](*seqs)


SUBS = [Sub("decorations", strategy, run, quick=1500, thorough=20000)]
