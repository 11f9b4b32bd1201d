"""C21: exceptions of engines at the client, against what was raised."""
import contextlib
import copy
import io
import json
import pickle

from vlib.runner import HarnessError, Sub, Violation, check, same

PROPERTY = "C21"
RULE = ("cases: (objects) error contents, composites and mixtures of values and errors, nested, which are packed in every way (wrapped, sent as JSON, pickled, copied) and collected, "
        "against the list of what was put in; (calls) exceptions of all kinds of types and messages raised on a generated subset of engines in calls, executions and maps, "
        "whose results are collected again and again, against what was raised where. Non-trivial: there were at least two errors, or one together with a value, or a message that is not plain text")
ASSUMPTIONS = ["unprintable exceptions arrive with some message", "lone surrogates are escaped"]
SHARDS = 4
QUICK_S = 20
THOROUGH_S = 300

NAMES = ["ValueError", "Custom", "KeyError", "TaskAborted", "CompositeError", "E\u00e9", "X"]
TEXTS = ["", "plain", "two\nlines", "\u00fc\u2028\U0001f600", "%s %(x)s {0}", "a" * 3000, "\\", "'", "[0:apply]", "None", "\x00\x1b[31m"]


def objects_strategy():
    from hypothesis import strategies as st

    text = st.one_of(st.sampled_from(TEXTS), st.text(max_size=20))
    info = st.one_of(st.just({}), st.none(), st.integers(0, 12).map(lambda i: {"engine_uuid": "u%i" % i, "engine_id": i, "method": "apply"}),
                     st.fixed_dictionaries({}, optional={"engine_uuid": st.just("u"), "engine_id": st.integers(0, 12), "method": st.sampled_from(["apply", "execute"])}))
    err = st.tuples(st.just("err"), st.sampled_from(NAMES), text, st.lists(text, max_size=3), info)
    leaf = st.one_of(st.tuples(st.just("value"), st.sampled_from([0, None, "x", "err", [1], {"status": "error"}])), err, err, st.tuples(st.just("aborted"), text))
    comp = st.recursive(st.tuples(st.just("comp"), text, st.lists(st.one_of(err, st.tuples(st.just("aborted"), text)), min_size=1, max_size=6)),
                        lambda c: st.tuples(st.just("comp"), text, st.lists(st.one_of(err, c, leaf), min_size=1, max_size=4)), max_leaves=4)
    item = st.one_of(leaf, leaf, comp)
    how = st.lists(st.sampled_from(["pickle0", "pickle2", "pickle", "copy", "deepcopy", "canned", "none"]), min_size=1, max_size=3)
    return st.fixed_dictionaries({"items": st.lists(item, max_size=6), "as": st.sampled_from(["list", "tuple", "dict"]), "how": how, "method": text, "i": st.integers(-1, 8)})


def run_objects(case, ctx):
    from ipyparallel import error
    from ipyparallel.serialize import deserialize_object, serialize_object

    from vlib.fakes import make_session

    s = make_session(b"k", "a")
    r = make_session(b"k", "b")

    def pack(e):
        for h in case["how"]:
            if h.startswith("pickle"):
                e = pickle.loads(pickle.dumps(e, int(h[6:] or pickle.HIGHEST_PROTOCOL)))
            elif h == "copy":
                e = copy.copy(e)
            elif h == "deepcopy":
                e = copy.deepcopy(e)
            elif h == "canned":
                e = deserialize_object([bytes(memoryview(b)) for b in serialize_object(e)])[0]
        return e

    def flat(items):
        out = []
        for x in items:
            if x[0] == "err":
                out.append((x[1], x[2], "\n".join(x[3]), x[4] or {}))
            elif x[0] == "aborted":
                out.append(("TaskAborted", x[1], "", {}))
            elif x[0] == "comp":
                out += flat(x[2]) or []
        return out

    def make(x):
        if x[0] == "value":
            return x[1]
        if x[0] == "aborted":
            return pack(error.TaskAborted(x[1]))
        if x[0] == "err":
            content = {"status": "error", "ename": x[1], "evalue": x[2], "traceback": list(x[3])}
            if x[4] is not None:
                content["engine_info"] = x[4]
            m = s.msg("apply_reply", content=content)
            frames = s.serialize(m)
            content = r.deserialize(frames[1:])["content"]
            r.digest_history.clear()
            e = error.unwrap_exception(content)
            judge(e, x)
            e = pack(e)
            judge(e, x)
            return e
        items = [make(i) for i in x[2]]
        want = flat(x[2])
        if not want:
            return 17
        try:
            error.collect_exceptions(items, x[1])
        except error.CompositeError as e:
            judge_comp(e, want, x[1])
            e = pack(e)
            judge_comp(e, want, x[1])
            return e
        raise Violation("no exception from %r" % (items,))

    def judge(e, x):
        same(type(e), error.RemoteError, "type")
        same((e.ename, e.evalue, e.traceback, e.engine_info), (x[1], x[2], "\n".join(x[3]), x[4] or {}), "name, message, traceback and engine")
        same(tuple(e.args), (x[1], x[2]), "args")
        texts(e, [(x[1], x[2], "\n".join(x[3]), x[4] or {})])

    def texts(e, errs, limit=99):
        text = str(e)
        for en, ev, tb, ei in errs[:limit]:
            check("%s: %s" % (en, ev) in text, "%r is not in the text %r", "%s: %s" % (en, ev), text)
            if "engine_id" in ei:
                check("[%s:" % ei["engine_id"] in text, "engine %r is not in the text %r", ei["engine_id"], text)
        check(isinstance(repr(e), str), "repr")
        lines = e.render_traceback()
        all_lines = "\n".join(lines)
        for en, ev, tb, ei in errs[:limit]:
            want = "\n".join((tb or "No traceback available").splitlines())
            check(want in all_lines, "the traceback %r is missing in %r", want, all_lines)
            if "engine_id" in ei:
                check("[%s:" % ei["engine_id"] in all_lines, "engine %r is not in the traceback %r", ei["engine_id"], all_lines)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            e.print_traceback()
        same(out.getvalue(), "\n".join(lines) + "\n", "printed traceback")

    def judge_comp(e, want, method):
        same(type(e), error.CompositeError, "type")
        same([tuple(x) for x in e.elist], want, "the errors of the composite")
        same(list(e.args), [w[0] for w in want], "args of the composite")
        check(method in e.msg and e.msg in str(e), "message %r of the composite of %r; str %r", e.msg, method, str(e))
        texts(e, want, e.tb_limit)
        for i in [0, len(want) - 1, case["i"] if -len(want) <= case["i"] < len(want) else 0]:
            en, ev, tb, ei = want[i]
            lines = "\n".join(e.render_traceback(i))
            check("\n".join((tb or "No traceback available").splitlines()) in lines, "traceback %i is %r", i, lines)
            try:
                e.raise_exception(i)
            except error.RemoteError as one:
                same((type(one), one.ename, one.evalue, one.traceback, one.engine_info), (error.RemoteError, en, ev, tb, ei), "exception %i" % i)
            else:
                raise Violation("raise_exception(%i) did not raise" % i)
        for f in (e.raise_exception, e.render_traceback, e.print_traceback):
            try:
                f(len(want))
            except IndexError:
                pass
            else:
                raise Violation("there is no exception %i, but %s gave one" % (len(want), f.__name__))

    items = [make(x) for x in case["items"]]
    if case["as"] == "dict":
        data = {"k%i" % i: v for i, v in enumerate(items)}
    else:
        data = (list if case["as"] == "list" else tuple)(items)
    want = flat(case["items"])
    if len(want) > 1 or want and len(items) > 1:
        ctx.nontrivial()
    before = list(items)
    try:
        got = error.collect_exceptions(data, case["method"])
    except error.CompositeError as e:
        check(want, "an exception from %r: %r", data, e)
        judge_comp(e, want, case["method"])
        judge_comp(pack(e), want, case["method"])
    else:
        check(not want, "no exception from %r", data)
        check(got is data, "collect_exceptions gave %r instead of its argument", got)
    check(len(before) == len(items) and all(a is b for a, b in zip(before, items)), "the results were changed")


# ---------------------------------------------------------------------------------
RAISES = {
    "value": ("raise ValueError({m!r})", "ValueError", str),
    "key": ("raise KeyError({m!r})", "KeyError", repr),
    "noargs": ("raise IndexError", "IndexError", lambda m: ""),
    "custom": ("class Custom(Exception):\n    def __init__(self, a, b):\n        self.a, self.b = a, b\n    def __str__(self):\n        return 'custom ' + self.b\nraise Custom(1, {m!r})", "Custom", lambda m: "custom " + m),
    "unprintable": ("class Bad(Exception):\n    def __str__(self):\n        raise RuntimeError('no str')\nraise Bad()", "Bad", None),
    "chain": ("try:\n    1 / 0\nexcept Exception as e:\n    raise LookupError({m!r}) from e", "LookupError", str),
    "group": ("raise ExceptionGroup('g', [ValueError({m!r}), TypeError('t')])", "ExceptionGroup", lambda m: "g (2 sub-exceptions)"),
    "exit": ("raise SystemExit({m!r})", "SystemExit", str),
    "base": ("class B(BaseException): pass\nraise B({m!r})", "B", str),
    "interrupt": ("raise KeyboardInterrupt({m!r})", "KeyboardInterrupt", str),
    "remote": ("from ipyparallel.error import RemoteError\nraise RemoteError('Inner', {m!r}, 'tb', {{'engine_id': 77, 'method': 'apply'}})", "RemoteError", lambda m: "[77:apply] Inner: " + m),
    "composite": ("from ipyparallel.error import CompositeError\nraise CompositeError('several', [('One', {m!r}, 'tb1', {{'engine_id': 77, 'method': 'apply'}}), ('Two', 'b', 'tb2', {{}})])", "CompositeError",
                  lambda m: "several\n[77:apply]One: " + m + "\n[Engine Exception]Two: b"),
    "stop": ("raise StopIteration({m!r})", "StopIteration", str),
    "timeout": ("raise TimeoutError({m!r})", "TimeoutError", str),
    "aborted": ("from ipyparallel.error import TaskAborted\nraise TaskAborted({m!r})", "TaskAborted", str),
    "name": ("undefined_name", "NameError", lambda m: "name 'undefined_name' is not defined"),
    "deep": ("def g(n):\n    if n == 0:\n        raise ArithmeticError({m!r})\n    g(n - 1)\ng(5)", "ArithmeticError", str),
    "unpicklable": ("import threading\nreturn_value = threading.Lock()\nresult.append(return_value)", "TypeError", None),
}
KINDS = sorted(RAISES)
MSGS = ["", "plain text", "two\nlines", "\u00fc\U0001f600", "%d %s {x}", "m" * 500, "\\n'\"", "a\x00b"]


def calls_strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    fail = st.tuples(st.sampled_from(KINDS), st.sampled_from(range(len(MSGS))))
    call = st.tuples(st.sampled_from(["apply", "apply", "execute", "map", "lbmap", "lb", "single", "single", "onelist", "bc", "cbc"]),
                     st.lists(weighted((2, st.none()), (3, fail)), min_size=1, max_size=7),
                     st.sampled_from(["block", "get", "get", "iter", "re", "index", "slice", "result", "dict", "again"]), st.integers(0, 7))
    return st.fixed_dictionaries({"n": weighted((3, st.integers(1, 4)), (1, st.integers(5, 7))), "calls": st.lists(call, min_size=1, max_size=3),
                                  "collect": st.booleans(), "picks": st.lists(st.integers(0, 60), min_size=1, max_size=8)})


def source(fail, i):
    """source of a function of an element or engine that fails as given"""
    kind, m = fail
    return RAISES[kind][0].format(m=MSGS[m])


def run_calls(case, ctx):
    from ipyparallel import error
    from ipyparallel.client.asyncresult import AsyncResult

    from vlib.clientsim import Net

    with Net(tuple(range(case["n"])), picks=case["picks"], depth=1) as net:
        c = net.client
        history = []

        def function(pattern, over_engine):
            """runs pattern[i]: i is the engine's id or the element"""
            lines = ["def f(x=None):", "    i = %s" % ("engine_id" if over_engine else "x"), "    i %%= %i" % len(pattern), "    result = []"]
            for k, p in enumerate(pattern):
                if p is not None:
                    lines.append("    if i == %i:" % k)
                    lines += ["        " + l for l in source(p, k).split("\n")]
            lines.append("    return result[0] if result else ('fine', i)")
            ns = {"__name__": "__main__"}
            exec("\n".join(lines), ns)
            return ns["f"], "\n".join(lines) + "\nf()"

        def wanted(p, eid):
            """("ok",) or (name, message or None, engine id)"""
            if p is None:
                return None
            kind, m = p
            _, name, text = RAISES[kind]
            return (name, None if text is None else text(MSGS[m]), eid, kind)

        def judge(e, w, what, method):
            same(e[0], w[0], what + ": name")
            if w[1] is not None:
                same(e[1], w[1], what + ": message")
            same(e[3].get("engine_id"), w[2], what + ": engine")
            same(e[3].get("engine_uuid"), net.engines[w[2]].uuid, what + ": uuid of the engine")
            same(e[3].get("method"), method, what + ": method")
            tb = e[2]
            check(isinstance(tb, str), "%s: traceback %r", what, tb)
            if w[3] not in ("unprintable", "group"):
                # with non-ASCII text and the like, the last line only
                check(w[0] in tb, "%s: %r is not in the traceback %r", what, w[0], tb)
                if w[3] in ("value", "chain", "deep") and w[1] and "\n" not in w[1]:
                    check(w[1] in tb, "%s: %r is not in the traceback %r", what, w[1], tb)
            if w[3] == "deep":
                check(tb.count("g(n - 1)") >= 2 or tb.count("in g") >= 2, "%s: the frames are not in the traceback %r", what, tb)
            if w[3] == "chain":
                check("ZeroDivisionError" in tb, "%s: the cause is not in the traceback %r", what, tb)

        def four(e):
            return (e.ename, e.evalue, e.traceback, e.engine_info)

        def judge_single(e, w, what, method):
            check(type(e) is error.RemoteError, "%s: raised %r, expected a RemoteError for %r", what, e, w)
            judge(four(e), w, what, method)
            check("%s: %s" % (e.ename, e.evalue) in str(e) and "[%i:%s]" % (w[2], method) in str(e), "%s: str is %r", what, str(e))
            e.render_traceback(), repr(e)

        def judge_comp(e, ws, what, method):
            check(type(e) is error.CompositeError, "%s: raised %r, expected a CompositeError of %r", what, e, ws)
            same(len(e.elist), len(ws), "%s: number of errors in %r" % (what, e.elist))
            for i, (x, w) in enumerate(zip(e.elist, ws)):
                judge(x, w, "%s: error %i" % (what, i), method)
                try:
                    e.raise_exception(i)
                except error.RemoteError as one:
                    judge_single(one, w, "%s: raised error %i" % (what, i), method)
                e.render_traceback(i)
            str(e), repr(e), e.render_traceback()

        for how, pattern, access, k in case["calls"]:
            if how in ("execute", "map", "lbmap"):
                # fails when the function has returned
                pattern = [p if p is None or p[0] not in ("unpicklable",) else None for p in pattern]
            if how in ("execute",):
                # the stand-in for execution takes only ordinary exceptions
                pattern = [p if p is None or p[0] not in ("unprintable", "base", "exit", "interrupt") else None for p in pattern]
            over_engine = how not in ("map", "lbmap", "lb")
            f, src = function(pattern, over_engine)
            ids = sorted(net.engines)
            what = "%s of %r by %s" % (how, pattern, access)
            method = "execute" if how == "execute" else "apply"
            block = access == "block"
            single = False
            if how == "single":
                view, single = c[ids[k % len(ids)]], True
                at = [ids[k % len(ids)]]
                call = lambda: view.apply(f)
            elif how == "onelist":
                at = [ids[k % len(ids)]]
                view = c[at]
                call = lambda: view.apply(f)
            elif how == "lb":
                view, single, at = c.load_balanced_view(), True, None
                call = lambda: view.apply(f, k)
            elif how in ("bc", "cbc"):
                view, at = c.broadcast_view(is_coalescing=how == "cbc"), ids
                call = lambda: view.apply(f)
            elif how == "execute":
                view, at = c[:], ids
                call = lambda: view.execute(src, block=block)
            elif how == "map":
                view, at = c[:], None
                call = lambda: view.map(f, list(range(k)))
            elif how == "lbmap":
                view, at = c.load_balanced_view(), None
                call = lambda: view.map(f, list(range(k)), chunksize=1 + k % 3)
            else:
                view, at = c[:], ids
                call = lambda: view.apply(f)
            view.block = block
            mapping = how in ("map", "lbmap")
            n = k if mapping else None
            if mapping and not k:
                continue
            box = {}

            def go():
                ar = call()
                if block:
                    return ar
                box["ar"] = ar
                if access == "iter":
                    if single:
                        return ar.get()
                    return list(ar)
                if access == "re":
                    return ar.get(return_exceptions=True)
                if access == "index":
                    ar.wait()
                    i = k % len(ar) if not single else 0
                    box["index"] = i
                    return ar[i]
                if access == "slice":
                    ar.wait()
                    return ar[0:2]
                if access == "result":
                    return ar.result()
                if access == "dict":
                    return ar.get_dict()
                if access == "again":
                    for _ in range(2):
                        try:
                            ar.get()
                        except error.RemoteError:
                            pass
                return ar.get()

            if access in ("index", "slice", "dict") and (single or mapping or how == "cbc") or access == "iter" and how == "cbc":
                access = "get"
            try:
                out = ("ok", net.call(go, what))
            except (Violation, HarnessError):
                raise
            except Exception as e:
                out = ("raised", e)
            net.run()
            check(not net.errors, "%s: %s", what, "".join(net.errors[:1]))
            placed = [net.placed[m] for m in sorted(net.placed)]

            # what was to fail, in order
            if mapping:
                # parts in order; the first failing element of each
                ar = box.get("ar")
                view_ids = ids
                if how == "map":
                    q, r_ = divmod(n, len(ids))
                    sizes = [q + (i < r_) for i in range(len(ids))]
                    where = ids
                else:
                    sz = 1 + k % 3
                    parts = -(-n // sz)
                    q, r_ = divmod(n, parts)
                    sizes = [q + (i < r_) for i in range(parts)]
                    where = [None] * parts
                ws, pos = [], 0
                for eid, size in zip(where, sizes):
                    w = next((w for w in (wanted(pattern[i % len(pattern)], eid) for i in range(pos, pos + size)) if w), None)
                    pos += size
                    if size:
                        ws.append(w)
                if how == "lbmap":
                    # lb tasks in the order submitted
                    sent = [m for m in view.history][-len(ws):]
                    ws = [w and (w[0], w[1], net.placed[m], w[3]) for w, m in zip(ws, sent)]
            elif how == "lb":
                ws = [wanted(pattern[k % len(pattern)], net.placed[view.history[-1]])]
            else:
                ws = [wanted(pattern[i % len(pattern)], i) for i in at]
            bad = [w for w in ws if w]
            if len(bad) > 1 or bad and len(ws) > 1:
                ctx.nontrivial()
            if any(w[3] not in ("value", "key", "name") for w in bad):
                ctx.nontrivial()
            history.append((box.get("ar"), ws, single, method))
            sub = bad
            if access in ("index", "slice") and bad:
                # all errors, or those of the items asked for
                part = [w for w in (ws[:2] if access == "slice" else [ws[box["index"]]]) if w]
                if out[0] == "ok" and not part:
                    continue
                if out[0] == "raised" and part and isinstance(out[1], error.CompositeError) and len(out[1].elist) == len(part):
                    sub = part
            if how == "cbc" and bad:
                # one reply for all; see C18
                check(out[0] == "raised" or access == "re", "%s: got %r", what, out[1])
                continue
            if access == "re" and not block:
                same(out[0], "ok", "%s with return_exceptions: %r" % (what, out[1]))
                if single:
                    vals = [out[1]]
                elif mapping:
                    vals = [v for v in out[1] if isinstance(v, error.RemoteError)]
                    same(len(vals), len(bad), "%s: number of exceptions" % what)
                    for v, w in zip(vals, bad):
                        judge_single(v, w, what, method)
                    continue
                else:
                    vals = out[1]
                same(len(vals), len(ws), "%s: number of results" % what)
                for v, w in zip(vals, ws):
                    if w:
                        judge_single(v, w, what, method)
                    else:
                        check(not isinstance(v, Exception), "%s: %r", what, v)
                continue
            if not sub:
                same(out[0], "ok", "%s: %r" % (what, out[1]))
                continue
            check(out[0] == "raised", "%s: got %r, but %r failed", what, out[1], sub)
            e = out[1]
            if access == "result" and not single:
                # the errors themselves, if it is a future's result
                check(isinstance(e, error.RemoteError), "%s: raised %r", what, e)
                if isinstance(e, error.CompositeError):
                    judge_comp(e, sub, what, method)
            elif access == "iter" and not single and type(e) is error.CompositeError and len(e.elist) < len(sub):
                # as they came
                check(not mapping, "%s: %r", what, e) if False else None
                for x in e.elist:
                    ok = [w for w in sub if w[2] == x[3].get("engine_id") and w[0] == x[0]]
                    check(ok, "%s: error %r, expected one of %r", what, x[:2], sub)
            elif single:
                judge_single(e, sub[0], what, method)
            else:
                judge_comp(e, sub, what, method)

        if case["collect"]:
            # results of several calls together
            errs, want = [], []
            for ar, ws, single, method in history:
                if ar is None or not isinstance(ar, AsyncResult) or any(w is None and False for w in ws):
                    continue
                try:
                    net.call(ar.get, "get")
                except (Violation, HarnessError):
                    raise
                except error.RemoteError as e:
                    errs.append(e)
                    want += [(x[0], x[1], x[3].get("engine_id")) for x in (e.elist if isinstance(e, error.CompositeError) else [four(e)])]
                else:
                    errs.append(17)
            try:
                error.collect_exceptions(errs, "all of them")
            except error.CompositeError as e:
                same([(x[0], x[1], x[3].get("engine_id")) for x in e.elist], want, "errors of %i results" % len(errs))
            else:
                same(want, [], "errors of %i results" % len(errs))


# ---------------------------------------------------------------------------------
def wrap_strategy():
    from hypothesis import strategies as st

    text = st.one_of(st.sampled_from(TEXTS + ["\ud800", "x\udfff"]), st.text(max_size=20))
    return st.fixed_dictionaries({"kind": st.sampled_from(["plain", "args", "chain", "unprintable", "nonstr", "group", "key", "remote", "composite", "deep", "os"]), "text": text,
                                  "info": st.sampled_from([{}, {"engine_uuid": "u", "engine_id": 3, "method": "m"}])})


class Unprintable(Exception):
    def __str__(self):
        raise RuntimeError("no text")


class NonStr(Exception):
    def __str__(self):
        return 5


def run_wrap(case, ctx):
    from ipyparallel import error

    from vlib.fakes import make_session

    t = case["text"]
    kind = case["kind"]

    def go():
        if kind == "plain":
            raise ValueError(t)
        if kind == "args":
            raise ValueError(t, 2)
        if kind == "chain":
            try:
                raise ValueError(t)
            except Exception as e:
                raise LookupError("then") from e
        if kind == "unprintable":
            raise Unprintable(t)
        if kind == "nonstr":
            raise NonStr(t)
        if kind == "group":
            raise ExceptionGroup("g", [ValueError(t)])
        if kind == "key":
            raise KeyError(t)
        if kind == "remote":
            raise error.RemoteError("Inner", t, "tb", {"engine_id": 1, "method": "x"})
        if kind == "composite":
            raise error.CompositeError(t, [("A", t, "tb", {}), ("B", "b", None, {"engine_id": 3})])
        if kind == "os":
            raise OSError(2, t, "file")
        if kind == "deep":
            def g(n):
                if n:
                    return g(n - 1)
                raise ValueError(t)
            g(4)

    if kind not in ("plain", "args") or not t.isascii():
        ctx.nontrivial()
    try:
        go()
    except Exception as e:
        try:
            content = error.wrap_exception(case["info"])
        except Exception as ex:
            raise Violation("wrap_exception of a %s: %r" % (type(e).__name__, ex))
        orig = e
    s, r = make_session(b"k", "a"), make_session(b"k", "b")
    content = dict(content)
    try:
        frames = s.serialize(s.msg("reply", content=content))
        got = r.deserialize(frames[1:])["content"]
    except Exception as ex:
        raise Violation("a wrapped %s cannot be sent: %r" % (type(orig).__name__, ex))
    same(got["status"], "error", "status")
    e = error.unwrap_exception(got)
    same(e.ename, type(orig).__name__, "name")
    same(e.engine_info, case["info"], "engine")
    if kind not in ("unprintable", "nonstr"):
        same(e.evalue, str(orig).encode("utf8", "backslashreplace").decode("utf8"), "message")
    check(type(orig).__name__ in e.traceback and "in go" in e.traceback, "traceback %r", e.traceback)
    if kind == "chain":
        check("ValueError" in e.traceback, "no cause in %r", e.traceback)
    if kind == "deep":
        check("in g" in e.traceback, "traceback %r", e.traceback)
    str(e), repr(e), e.render_traceback()


SUBS = [Sub("objects", objects_strategy, run_objects, quick=1500, thorough=20000), Sub("calls", calls_strategy, run_calls, quick=800, thorough=12000, weight=2),
        Sub("wrap", wrap_strategy, run_wrap, quick=300, thorough=3000, weight=0.5)]
