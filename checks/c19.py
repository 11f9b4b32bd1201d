"""C19: the lazy map of load-balanced views and executors, watched from its input to its output."""
import itertools
import threading

from vlib.runner import HarnessError, Sub, Violation, check, same

PROPERTY = "C19"
RULE = ("cases: inputs (finite, infinite, failing, several of different lengths), limits, orderings, failing elements, orders of replies, and what the consumer does "
        "(reads all, cancels, gives up, asks again); every draw from the input and every message is counted. Non-trivial: at least three elements were drawn and "
        "replies were out of order, or something failed, or the map was cancelled")
ASSUMPTIONS = ["the input is drawn by one thread; one element may be drawn while the map is being cancelled"]
SHARDS = 6
QUICK_S = 40
THOROUGH_S = 500


def strategy():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "n": st.one_of(st.integers(0, 14), st.just(None)),                   # None: never ends
        "lens": st.lists(st.integers(0, 14), max_size=2),                    # further inputs
        "limit": st.sampled_from(["auto", "auto", 0, 1, 2, 3, 5, 20]),
        "ordered": st.booleans(),
        "rexc": st.booleans(),
        "bad": st.lists(st.integers(0, 12), max_size=3, unique=True),        # elements that fail on the engine
        "inerr": st.one_of(st.none(), st.none(), st.none(), st.integers(0, 10)),   # the input itself fails
        "unpick": st.one_of(st.none(), st.none(), st.none(), st.integers(0, 10)),  # an element that can't be sent
        "consume": st.one_of(st.just(("all",)), st.just(("all",)), st.tuples(st.just("cancel"), st.integers(0, 8)), st.tuples(st.just("stop"), st.integers(0, 8)),
                             st.tuples(st.just("late"), st.integers(0, 30))),
        "via": st.sampled_from(["imap", "imap", "imap", "executor"]),
        "engines": st.integers(1, 4),
        "iter": st.booleans(),
        "picks": st.lists(st.integers(0, 60), min_size=1, max_size=12),
    })


def work(i, *more):
    if i < 0:
        raise ValueError("bad %i" % i)
    return (i, len(more))


class BadInput(Exception):
    pass


class Unsendable:
    def __reduce__(self):
        raise BadInput("can't be sent")


class Input:
    """counts what is drawn; and how many replies had arrived then"""

    def __init__(self, case, watch):
        self.case = case
        self.watch = watch
        self.drawn = []
        self.ended = False
        self.over = False
        self.threads = set()

    def __iter__(self):
        return self

    def __next__(self):
        self.threads.add(threading.get_ident())
        i = len(self.drawn)
        self.watch(self, i)
        n = self.case["n"]
        if n is None and i > 400:
            self.over = True
            raise StopIteration
        if n is not None and i >= n:
            self.ended = True
            raise StopIteration
        if self.case["inerr"] == i:
            self.ended = True
            raise BadInput("input %i" % i)
        self.drawn.append(i)
        if self.case["unpick"] == i:
            return Unsendable()
        return -1 - i if i in self.case["bad"] else i


def run(case, ctx):
    import json

    from ipyparallel import error
    from vlib.clientsim import Net

    case = dict(case)
    consume = case["consume"]
    if case["n"] is None and consume[0] in ("all", "late"):
        consume = ("cancel", 9)
    if case["n"] is None and case["limit"] == 0:
        case["n"] = 12
    with Net(tuple(range(case["engines"])), picks=case["picks"]) as net:
        c = net.client
        v = c.load_balanced_view()
        limit = case["limit"]
        nmax = {"auto": case["engines"], 0: None}.get(limit, limit)
        if case["via"] == "executor":
            nmax = case["engines"]
        st = {"replies": 0, "sent": 0, "max": 0}
        order = []
        problems = []
        deliver = net.to_client

        def to_client(stream, frames):
            if stream == "task":
                i = frames.index(b"<IDS|MSG>")
                order.append(json.loads(frames[i + 3])["msg_id"])
                st["replies"] += 1
            deliver(stream, frames)

        net.to_client = to_client
        run_engine = net._run_on_engine

        def watch(inp, i):
            # what is drawn now would be task i + 1
            if nmax is not None and i + 1 > st["replies"] + nmax:
                problems.append("element %i was drawn when %i of %i tasks were finished, limit %i" % (i, st["replies"], i, nmax))

        inp = Input(case, watch)
        seqs = [inp] + [iter(range(n)) for n in case["lens"]]
        ends = [n for n in [case["n"]] + case["lens"] if n is not None]
        total = min(ends) if ends else None
        # the input is drawn up to where something ends it
        for k in ("inerr", "unpick"):
            if case[k] is not None and (total is None or case[k] < total):
                total = case[k]
        raises = [case[k] for k in ("inerr", "unpick") if case[k] is not None and case[k] == total and (case["n"] is None or case["n"] > case[k]) and all(n > case[k] or k == "inerr" and n >= case[k] for n in case["lens"])]
        orig_from = net._from_client

        def from_client(name, frames):
            if name == "task":
                st["sent"] += 1
                out = st["sent"] - st["replies"]
                st["max"] = max(st["max"], out)
                if nmax is not None and out > nmax:
                    problems.append("%i tasks outstanding, limit %i" % (out, nmax))
            orig_from(name, frames)

        net._from_client = from_client
        got, end = [], []
        box = {}

        def start():
            if case["via"] == "executor":
                box["ex"] = v.executor
                box["it"] = box["ex"].map(work, *seqs, **({"return_exceptions": True} if case["rexc"] else {}))
            else:
                box["it"] = v.imap(work, *seqs, ordered=case["ordered"], max_outstanding=limit, return_exceptions=case["rexc"])

        net.call(start, "imap")
        ordered = case["ordered"] or case["via"] == "executor"
        it = box["it"]
        if consume[0] == "late":
            # nobody is reading yet
            for _ in range(consume[1]):
                net.step()

        def read():
            src = iter(it) if case["iter"] else it
            n = 0
            while consume[0] not in ("cancel", "stop") or n < consume[1]:
                try:
                    got.append(next(src))
                except StopIteration:
                    end.append(None)
                    return
                except Exception as e:
                    end.append(e)
                    return
                n += 1
            if consume[0] == "cancel":
                it.cancel()
                box["at"] = len(inp.drawn)
                while True:
                    try:
                        got.append(next(src))
                    except StopIteration:
                        end.append(None)
                        return
                    except Exception as e:
                        end.append(e)
                        return

        net.call(read, "reading from the lazy map")
        drawn = len(inp.drawn)
        err = end[0] if end else None
        # what comes next
        if end and err is not None:
            def again():
                try:
                    return next(it)
                except StopIteration:
                    return "over"
                except Exception as e:
                    return e
            box["again"] = net.call(again, "reading on after an error")
        if "ex" in box:
            if consume[0] == "stop" and not end:
                it.cancel()
            net.call(lambda: box["ex"].shutdown(), "shutdown of the executor")
            check(not c.outstanding, "tasks are outstanding after the executor was shut down: %r", c.outstanding)
        if consume[0] == "stop":
            if "ex" not in box:
                it.cancel()
            net.run()
        n1 = len(inp.drawn)
        for _ in range(3):
            net.run()
        if problems:
            raise Violation(problems[0])
        check(len(inp.threads) <= 1, "the input was drawn from %i threads", len(inp.threads))
        check(not inp.over, "a limited map without anybody reading took more than 400 elements from the input")

        def expected(i):
            return ("err", "bad %i" % (-1 - i)) if i in case["bad"] else ("ok", (i, len(case["lens"])))

        def seen(g):
            if isinstance(g, error.RemoteError):
                return ("err", g.evalue)
            return ("ok", g)

        seen_ = [seen(g) for g in got]
        # elements of which the result may be given
        upto = min(total, drawn) if total is not None else drawn
        if ordered:
            same(seen_, [expected(i) for i in range(len(got))], "values of the map")
        else:
            left = [expected(i) for i in range(upto)]
            for s in seen_:
                check(s in left, "the map yields %r once more, or though it isn't there: of %r", s, upto)
                left.remove(s)
        if not case["rexc"]:
            check(not any(s[0] == "err" for s in seen_), "an exception was yielded: %r", seen_)
        if err is not None:
            if isinstance(err, error.RemoteError):
                check(not case["rexc"], "%r was raised, though exceptions were to be returned", err)
                if ordered:
                    same(seen(err), expected(len(got)), "error raised by the map after %i values" % len(got))
                else:
                    check(seen(err) in left, "the map raises %r", err)
            else:
                check(isinstance(err, BadInput), "the map raised %r", err)
                check(raises, "the map raised %r", err)
                if ordered:
                    same(len(got), total, "values before the input failed")
        elif end:
            if consume[0] != "cancel":
                # it ended
                same(len(got), total, "number of values when the map ended")
                check(not raises, "the input failed at %r, but nothing is raised", raises)
                check(case["rexc"] or not any(i in case["bad"] for i in range(total)), "elements failed, but nothing is raised: %r", got)
            else:
                # everything that was sent comes
                if "at" in box:
                    check(n1 <= box["at"] + 1, "%i elements were drawn after the map was cancelled", n1 - box["at"])
                    same(len(got), min(st["sent"], n1), "values of the cancelled map, of %i tasks" % st["sent"])
        if err is not None:
            ctx.tag("raised")
        ctx.tag(consume[0], "ordered" if ordered else "unordered")
        mids = list(c.history)
        if drawn >= 3 and (order != [m for m in mids if m in order] or err is not None or "at" in box):
            ctx.nontrivial()
        if nmax is not None and st["max"] == nmax:
            ctx.tag("full")
        # nothing is left behind
        if end:
            check(not v._outstanding_maps, "the map is said to be outstanding after its end")


def ex_strategy():
    from hypothesis import strategies as st

    op = st.one_of(st.tuples(st.just("submit"), st.integers(-3, 9)), st.tuples(st.just("submit"), st.integers(0, 9)),
                   st.tuples(st.just("map"), st.lists(st.integers(-1, 9), max_size=6), st.sampled_from(["read", "leave", "some"])),
                   st.tuples(st.just("step"), st.integers(1, 12)))
    return st.fixed_dictionaries({"view": st.sampled_from(["lb", "all", "one", "client", "bc"]), "ops": st.lists(op, min_size=1, max_size=8), "how": st.sampled_from(["with", "shutdown", "nowait"]),
                                  "engines": st.integers(1, 3), "picks": st.lists(st.integers(0, 60), min_size=1, max_size=8)})


def run_ex(case, ctx):
    import concurrent.futures as cf

    from ipyparallel import error
    from vlib.clientsim import Net

    n = case["engines"]
    with Net(tuple(range(n)), picks=case["picks"], depth=1) as net:
        c = net.client
        ex = {"lb": lambda: c.load_balanced_view().executor, "all": lambda: c[:].executor, "one": lambda: c[0].executor,
              "client": lambda: c.executor(), "bc": lambda: c.broadcast_view().executor}[case["view"]]()
        single = case["view"] in ("lb", "one", "client")
        check(isinstance(ex, cf.Executor), "%r is no executor", ex)
        futs, maps = [], []

        def body():
            for op in case["ops"]:
                if op[0] == "submit":
                    f = ex.submit(work, op[1])
                    check(isinstance(f, cf.Future), "submit() returns %r", f)
                    futs.append((op[1], f))
                elif op[0] == "map":
                    if case["view"] == "bc":
                        continue
                    it = ex.map(work, list(op[1]))
                    m = [op[1], it, [], None]
                    maps.append(m)
                    k = {"read": 99, "leave": 0, "some": 2}[op[2]]
                    for _ in range(k):
                        try:
                            m[2].append(next(it))
                        except StopIteration:
                            m[3] = "end"
                            break
                        except error.RemoteError as e:
                            m[3] = e
                            break
                        except Exception as e:
                            raise Violation("map over %r raised %r" % (op[1], e))

        if case["how"] == "with":
            def go():
                with ex:
                    body()
            net.call(go, "the with-statement of an executor")
        else:
            net.call(body, "submit and map")
            net.call(lambda: ex.shutdown(wait=case["how"] == "shutdown"), "shutdown")
        if case["how"] != "nowait":
            check(not c.outstanding, "outstanding after shutdown: %r", c.outstanding)
            for x, f in futs:
                check(f.done(), "a future is not done after shutdown")
        net.run()
        for x, f in futs:
            check(f.done(), "a future never gets done")
            if x < 0:
                e = f.exception(timeout=0)
                check(isinstance(e, error.RemoteError), "exception() is %r", e)
                ctx.nontrivial()
            else:
                r = f.result(timeout=0)
                same(r, (x, 0) if single else [(x, 0)] * n, "result of a future")
        for xs, it, vals, end in maps:
            bad = next((i for i, x in enumerate(xs) if x < 0), None)
            upto = len(xs) if bad is None else bad
            same(vals, [(x, 0) for x in xs[:len(vals)]], "values of map over %r" % (xs,))
            check(len(vals) <= upto, "map over %r gives %r", xs, vals)
            if end == "end":
                same((len(vals), bad), (len(xs), None), "values when the map over %r ended" % (xs,))
            elif end is not None:
                check(bad is not None, "map over %r raised %r", xs, end)
            elif end is None and case["how"] != "nowait":
                # what was submitted can still be read
                def rest():
                    out = []
                    try:
                        for g in it:
                            out.append(g)
                    except error.RemoteError as e:
                        return out, e
                    return out, None
                out, e = net.call(rest, "reading the map after shutdown")
                vals = vals + out
                same(vals, [(x, 0) for x in xs[:len(vals)]], "values of map over %r, read after shutdown" % (xs,))
                if bad is None:
                    same((len(vals), e), (len(xs), None), "number of values, exception")
                else:
                    check(e is not None, "map over %r raises nothing", xs)
            ctx.nontrivial(len(xs) > 2)
        ctx.tag(case["view"], case["how"])


SUBS = [Sub("executor", ex_strategy, run_ex, quick=500, thorough=10000), Sub("imap", strategy, run, quick=1800, thorough=20000)]
