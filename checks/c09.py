"""C09: map against the builtin map, on a real client, engines that run the real apply code, and any order of answers."""
from vlib.runner import HarnessError, Skip, Sub, Violation, check, same

PROPERTY = "C09"
RULE = ("cases: a function (source text; of any arity; it may raise for some arguments), 1-3 sequences of any type and length, a view (direct, single "
        "engine, load-balanced or broadcast), chunk size, options, engines with any ids, and an order in which requests are run and answers arrive; the oracle is the "
        "builtin map, together with which calls were made by which message. Non-trivial: at least two messages were answered in an order other "
        "than that of submission, or a call failed")
ASSUMPTIONS = ["the task scheduler's choice of engines is any choice", "single-pass iterators are given once"]
SHARDS = 6
QUICK_S = 25
THOROUGH_S = 400

FUNCS = [
    "lambda *a: (_calls.append(a), a)[1]",
    "lambda *a: (_calls.append(a), a[0])[1]",
    "lambda *a: (_calls.append(a), [a[0], 'x'])[1]",
    "lambda *a: (_calls.append(a), [])[1]",
    "lambda *a: (_calls.append(a), None)[1]",
    "def f(*a, k=3):\n    _calls.append(a)\n    return {'n': len(repr(a)), 'k': k}",
    "def f(*a):\n    _calls.append(a)\n    if crc(a) % 3 == 0:\n        raise ValueError(repr(a))\n    return crc(a)",
    "def f(*a):\n    _calls.append(a)\n    if crc(a) % 7 == 0:\n        raise KeyError(repr(a))\n    return [repr(a)]",
    "def f(*a):\n    _calls.append(a)\n    raise ZeroDivisionError(repr(a))",
    "def f(*a):\n    _calls.append(a)\n    return ValueError(repr(a)) if 0 else (crc(a), a)",
    # any arity is wrong
    "def f(a, b):\n    _calls.append((a, b))\n    return (b, a)",
]
# carries state, which changes between two maps of the same function
CARRIES = """def make():
    box = [0]
    n = 0
    def f(*a, d=[5], **k):
        _calls.append(a)
        return (a, box[0], d, n)
    def change(k):
        nonlocal n
        if k & 1:
            box[0] += 1
        if k & 2:
            f.__defaults__ = None
            f.__kwdefaults__["d"] = [k]
        if k & 4:
            n += 1
        if k & 8:
            f.__kwdefaults__["d"].append(k)
        if k & 16:
            f.__code__ = (lambda *a, d=[5], **k: (_calls.append(a), "new", box, n)[1:2]).__code__
    return f, change
f, change = make()
"""
PRELUDE = "import zlib\ndef crc(a):\n    return zlib.crc32(repr(a).encode())\n"


def seq_strategy():
    from hypothesis import strategies as st

    v = st.one_of(st.integers(-3, 9), st.sampled_from(["", "a", "xyz", None, 1.5, (1, 2), [3], [], {"k": 1}, b"b", True]))
    n = st.one_of(st.integers(0, 6), st.integers(0, 25))
    return st.one_of(
        st.tuples(st.just("list"), st.lists(v, max_size=12)),
        st.tuples(st.just("tuple"), st.lists(v, max_size=12)),
        st.tuples(st.sampled_from(["range", "gen", "str", "array", "array2", "dict", "iter", "keys", "bytes", "set", "deque"]), n),
        st.tuples(st.sampled_from(["list", "gen_"]), st.lists(v, min_size=1, max_size=40)))


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    ids = st.one_of(st.integers(1, 6).map(lambda n: list(range(n))), st.lists(st.integers(0, 30), min_size=1, max_size=6, unique=True))
    kind = weighted((4, st.just("direct")), (1, st.just("all")), (1, st.just("one")), (4, st.just("balanced")), (1, st.just("broadcast")), (1, st.just("coalescing")))
    how = st.sampled_from(["sync", "async", "async", "iter", "iter", "block", "view.block", "imap", "early", "iter2", "twice"])
    return st.fixed_dictionaries({
        "ids": ids, "kind": kind, "how": how, "f": st.integers(0, len(FUNCS) - 1), "again": weighted((4, st.none()), (1, st.integers(0, 31))), "seqs": weighted((4, st.lists(seq_strategy(), min_size=1, max_size=1)), (2, st.lists(seq_strategy(), min_size=2, max_size=3))),
        "chunk": st.one_of(st.none(), st.integers(1, 7), st.integers(1, 50)), "ordered": st.booleans(), "exc": st.booleans(),
        "picks": st.lists(st.integers(0, 60), min_size=1, max_size=12), "eager": st.booleans(), "sub": st.integers(0, 63)})


def build(spec):
    import collections

    kind, x = spec
    if kind == "list":
        return list(x)
    if kind == "tuple":
        return tuple(x)
    if kind == "gen_":
        return (v for v in x)
    n = x
    if kind == "range":
        return range(2, 2 + n)
    if kind == "gen":
        return (i * i for i in range(n))
    if kind == "str":
        return "abcdefghijklmnopqrstuvwxyz"[:n]
    if kind == "bytes":
        return bytes(range(n))
    if kind == "iter":
        return iter(list(range(n)))
    if kind == "dict":
        return {"k%i" % i: i for i in range(n)}
    if kind == "keys":
        return {"k%i" % i: i for i in range(n)}.keys()
    if kind == "set":
        return {7 * i % 64 for i in range(n)}
    if kind == "deque":
        return collections.deque(range(n))
    import numpy

    if kind == "array":
        return numpy.arange(n) * 1.5
    if kind == "array2":
        return numpy.arange(n * 2).reshape(n, 2)
    raise HarnessError(kind)


def norm(v):
    """comparable form: value and type"""
    import numpy

    if isinstance(v, numpy.ndarray):
        return ("array", str(v.dtype), v.shape, v.tolist())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [norm(x) for x in v])
    if isinstance(v, dict):
        return ("dict", sorted(((norm(k), norm(x)) for k, x in v.items()), key=repr))
    return (type(v).__name__, repr(v))


class Boom:
    """a failed call, or the exception that stands for it"""

    def __init__(self, ename, evalue):
        self.v = ("!", ename, evalue)


def failure(e):
    check(hasattr(e, "ename"), "not a remote error: %r", e)
    return ("!", e.ename, e.evalue)


def run(case, ctx):
    from ipyparallel import error

    from vlib.clientsim import DELIM, Net

    kind, how = case["kind"], case["how"]
    ids = case["ids"]
    src = FUNCS[case["f"]]
    ns = {"__name__": "__main__", "_calls": []}
    exec(PRELUDE, ns)
    again = case.get("again")
    if again is not None:
        exec(CARRIES, ns)
        f = ns["f"]
    elif src.startswith("lambda"):
        f = eval(src, ns)
    else:
        exec(src, ns)
        f = ns["f"]
    def oracle():
        """what the builtin says, call by call"""
        want = []
        for a in calls:
            try:
                want.append(norm(f(*a)))
            except Exception as e:
                want.append(("!", type(e).__name__, str(e)))
        return want

    calls = list(zip(*[build(s) for s in case["seqs"]]))
    ncalls = [norm(a) for a in calls]
    messages = {}

    with Net(ids, picks=case["picks"], depth=1 if kind in ("broadcast", "coalescing") else None) as net:
        c = net.client

        def handler(e, msg):
            log = e.shell.user_ns["_calls"] = []
            r = net.execute(e, msg)
            got = [norm(a) for a in log]
            check(msg["header"]["msg_id"] not in messages, "a message is run twice")
            mid = msg["header"]["msg_id"]
            if "apply_temp" in repr(sorted(e.shell.user_ns)):
                raise HarnessError("?")
            messages[mid] = (got, failure_of(r[0]), e.id)
            return r

        def failure_of(content):
            return None if content["status"] == "ok" else ("!", content["ename"], content["evalue"])

        net.handler = handler
        for e in net.engines.values():
            exec(PRELUDE, e.shell.user_ns)
            e.shell.user_ns["_calls"] = []
        sids = sorted(ids)
        targets = sids
        if kind == "all":
            view = c.direct_view("all")
        elif kind == "one":
            targets = [sids[case["sub"] % len(sids)]]
            view = c[targets[0]]
        elif kind == "balanced":
            sub = [i for n, i in enumerate(sids) if case["sub"] >> n & 1]
            view = c.load_balanced_view(sub or None)
            targets = sub or sids
        else:
            targets = [i for n, i in enumerate(sids) if case["sub"] >> n & 1] or sids
            if kind == "direct":
                view = c[targets]
            else:
                view = c.broadcast_view(targets, is_coalescing=kind == "coalescing")
        ctx.tag(kind, how)
        kw = {"return_exceptions": case["exc"]}
        if kind == "balanced" and case["chunk"]:
            kw["chunksize"] = case["chunk"]
        ordered = True
        if kind == "balanced" and how not in ("imap",):
            kw["ordered"] = ordered = case["ordered"]
        seqs = [build(s) for s in case["seqs"]]
        skip = 0
        if again is not None:
            # the same function was mapped before
            view.map_async(f, range(1 + case["sub"] % 3), **{k: v for k, v in kw.items() if k != "chunksize"})
            net.run()
            same(len(messages) > 0, True, "the first map was run")
            messages.clear()
            skip = len(c.history)
            ns["change"](again)
            ctx.tag("again")
        want = oracle()
        got, exc = None, None
        net.eager = case["eager"]
        ar = None
        results = []

        def start():
            ar = view.map_async(f, *seqs, **kw)
            return ar

        def consume(ar):
            out = []
            try:
                for x in ar:
                    out.append(x)
            except error.RemoteError as e:
                return out, e
            except error.CompositeError as e:
                return out, e
            return out, None

        def attempt(g):
            try:
                return g(), None
            except (error.RemoteError, error.CompositeError) as e:
                return None, e

        partial = None
        try:
            if how in ("sync", "block", "view.block"):
                net.eager = False
                if how == "view.block":
                    view.block = True
                    g = lambda: view.map(f, *seqs, **kw)
                elif how == "block":
                    g = lambda: view.map(f, *seqs, block=True, **kw)
                else:
                    g = lambda: view.map_sync(f, *seqs, **kw)
                got, exc = attempt(lambda: net.call(g, "map_sync"))
            elif how == "imap" and kind != "balanced":
                net.eager = False
                it = view.imap(f, *seqs, **kw)
                partial, exc = net.call(lambda: consume(it), "iterating")
                got = partial if exc is None else None
            else:
                ar = start()
                net.eager = False
                empty = isinstance(ar, list)
                if empty:
                    same(ar, [], "result of a map without elements")
                    same(want, [], "result of the builtin map")
                    got = []
                elif how in ("async", "twice", "imap"):
                    if how != "async":
                        net.step()
                        try:
                            ar.get(0)
                        except TimeoutError:
                            check(net.pending() or net.loop.q, "get(0) times out, but nothing is left to be delivered")
                        except (error.RemoteError, error.CompositeError):
                            pass
                    net.run()
                    check(ar.ready(), "the result is not ready though all messages were delivered")
                    got, exc = attempt(lambda: ar.get(0))
                    if how == "twice":
                        g2, e2 = attempt(lambda: ar.get(0))
                        same((norm(g2), e2 is exc), (norm(got), True), "a second get()")
                elif how in ("iter", "early", "iter2"):
                    if how == "early":
                        for _ in range(case["sub"] % 7):
                            net.step()
                    if how == "iter2":
                        net.run()
                    partial, exc = net.call(lambda: consume(ar), "iterating")
                    got = partial if exc is None else None
                    net.run()
                    results.append(attempt(lambda: ar.get(0)))
        finally:
            net.eager = False
        net.run()
        check(not net.errors, "in the client: %s", net.errors[:1])

        # which calls were made, in order of submission
        order = [m for m in c.history[skip:]] if kind not in ("broadcast", "coalescing") else None
        if order is None:
            mine = [(targets.index(eid), g, fail) for g, fail, eid in messages.values() if g or fail]
            mine.sort(key=lambda t: t[0])
            msgs = [(g, fail) for _, g, fail in mine]
        else:
            same(sorted(m for m in order), sorted(messages), "messages that were run")
            msgs = [messages[m][:2] for m in order]
            if kind != "balanced":
                where = [messages[m][2] for m in order]
                same(where, [t for t in targets if t in where], "engines that were used, in order")
            else:
                check(all(messages[m][2] in targets for m in order), "an engine that is not a target was used")
        parts = []          # per message: list of expected values, or failure
        ps, skipped = {0}, False       # positions that may be next
        for g, fail in msgs:
            if fail is not None and not g:
                # the call itself was impossible (wrong arity)
                check(("!", "TypeError") == fail[:2], "unexpected failure: %r", fail)
                parts.append(fail)
                skipped = True
                continue
            starts = range(min(ps), len(ncalls) + 1) if skipped else ps
            at = {i for i in starts if ncalls[i:i + len(g)] == g}
            check(at, "calls of one message: %r; expected the calls from position %r on of %r", g, sorted(ps), calls)
            ps = {i + len(g) for i in at}
            skipped = skipped and not g
            vals = want[min(at):min(at) + len(g)]
            if fail is not None:
                same(vals[-1] if vals else None, fail, "failure of the last call of a message")
                parts.append(fail)
                skipped = True
            else:
                check(not any(v[0] == "!" for v in vals), "a failing call is not reported: %r", vals)
                parts.append(vals)
        check(skipped or len(calls) in ps, "only %i of %i calls were made", max(ps), len(calls))
        fails = [x for x in parts if isinstance(x, tuple)]
        flat = []
        for x in parts:
            flat.extend([x] if isinstance(x, tuple) else x)

        def nval(x):
            return failure(x) if isinstance(x, Exception) else norm(x)

        def judge(got, exc, what, partial=None, unordered=False):
            if fails and not case["exc"]:
                check(exc is not None, "%s: no error was raised, though calls failed: %r", what, fails)
                if isinstance(exc, error.CompositeError):
                    errs = [("!", e[0], e[1]) for e in exc.elist]
                else:
                    errs = [failure(exc)]
                check(errs and all(e in fails for e in errs), "%s: errors %r, expected %r", what, errs, fails)
                if partial is None:
                    same(errs, fails, "%s: errors" % what)
                else:
                    # what came before the error
                    vals = [nval(x) for x in partial]
                    if unordered:
                        rest = [v for x in parts if not isinstance(x, tuple) for v in x]
                        for v in vals:
                            check(v in rest, "%s: unexpected value %r", what, v)
                            rest.remove(v)
                    else:
                        k = flat.index(fails[0]) if fails[0] in flat else 0
                        check(vals in ([], flat[:k]), "%s: values before the error: %r, expected %r", what, vals, flat[:k])
                return
            check(exc is None, "%s: raised %r", what, exc)
            import numpy

            check(isinstance(got, (list,)), "%s: a %s", what, type(got))
            vals = [nval(x) for x in got]
            if unordered:
                same(sorted(vals, key=repr), sorted(flat, key=repr), "%s (in any order)" % what)
            else:
                same(vals, flat, what)

        judge(got, exc, "map with %s view, %s" % (kind, how), partial, not ordered and partial is not None)
        for g, e in results:
            judge(g, e, "get() after iterating")
        if fails:
            ctx.tag("failed")
            ctx.nontrivial()
        answered = [m for m in messages]
        if order is not None and len(order) > 1 and answered != order:
            ctx.tag("reordered")
            ctx.nontrivial()
        if not case["exc"] and fails:
            ctx.tag("raised")


SUBS = [Sub("map", strategy, run, quick=4000, thorough=30000)]
