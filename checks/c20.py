"""C20: every way of naming engines selects what indexing the sorted ids would; flags are restored."""
from vlib.runner import HarnessError, Skip, Sub, Violation, check, same as _same

PROPERTY = "C20"
RULE = ("cases: histories of engines coming and going, views made with every form of target specification, operations and control requests with targets, "
        "and (nested, failing) temporary flags; the oracle is Python's own indexing of the sorted list of live ids, compared with the destinations of the "
        "messages that were sent. Non-trivial: a specification of a list, range, slice or negative index was used while ids were not contiguous, or an invalid "
        "specification was refused, or temporary flags had to be restored after an error")
ASSUMPTIONS = ["items of lists, tuples and ranges are ids, not indices"]
SHARDS = 6
QUICK_S = 25
THOROUGH_S = 400


def spec_strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    i = st.integers(-7, 12)
    opt = st.one_of(st.none(), st.integers(-6, 6))
    pos = st.integers(0, 9)
    return weighted(
        (3, st.tuples(st.just("int"), i)), (2, st.tuples(st.just("int"), st.integers(-4, -1))),
        (3, st.tuples(st.just("slice"), opt, opt, st.one_of(st.none(), st.sampled_from([1, 2, 3, -1, -2])))),
        (3, st.tuples(st.just("live"), st.lists(pos, max_size=5), st.sampled_from(["list", "tuple"]))),
        (2, st.tuples(st.just("list"), st.lists(i, max_size=4), st.sampled_from(["list", "tuple"]))),
        (2, st.tuples(st.just("range"), st.integers(-2, 8), st.integers(-2, 10), st.sampled_from([1, 2, 3, -1]))),
        (2, st.just(("all", "all"))), (1, st.just(("all", "ALL"))), (2, st.just(("none",))),
        (1, st.tuples(st.just("bad"), st.integers(0, 8))),
    )


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    spec = spec_strategy()
    ids = st.one_of(st.integers(1, 5).map(lambda n: list(range(n))), st.lists(st.integers(0, 11), min_size=1, max_size=6, unique=True))
    view = st.integers(0, 30)
    flags = st.fixed_dictionaries({}, optional={
        "targets": spec, "track": st.booleans(), "label": st.sampled_from(["a", "b", None]), "bogus": st.just(1),
        "after": st.sampled_from([None, "m1", ["m1"], 5, ["x", 3]]), "follow": st.sampled_from([None, "m2", 1.5]),
        "timeout": st.sampled_from([None, 1, 2.5, -1, "x"]), "retries": st.sampled_from([0, 3, "x"]), "block": st.sampled_from([False, True, "maybe"])})
    order = st.permutations(["targets", "track", "label", "bogus", "after", "follow", "timeout", "retries", "block"])
    ops = [
        (3, st.tuples(st.just("make"), st.sampled_from(["index", "direct", "lbv", "bv", "executor", "iter", "cbv"]), spec)),
        (6, st.tuples(st.just("use"), view, st.sampled_from(["apply", "execute", "push", "pull", "scatter", "gather", "map", "fn", "pfn", "submit"]), st.one_of(st.just("view"), st.just("view"), spec), st.integers(0, 7))),
        (3, st.tuples(st.just("control"), st.one_of(st.none(), view), st.sampled_from(["clear", "abort", "send_signal", "queue_status", "shutdown"]), st.one_of(st.just("view"), spec))),
        (2, st.tuples(st.just("engine"), st.booleans(), st.integers(0, 12))),
        (3, st.tuples(st.just("temp"), view, flags, order, st.sampled_from(["ok", "raise", "use", "nest", "set", "for good"]), flags)),
        (1, st.tuples(st.just("setflags"), view, spec)),
    ]
    return st.fixed_dictionaries({"ids": ids, "ops": st.lists(weighted(*ops), min_size=1, max_size=10)})


def same(a, b, what, *args):
    _same(a, b, what % args if args else what)


class Body(Exception):
    pass


BAD = ["first", "", 1.5, {0: 1}, {0, 1}, ["0"], [None], (0, "all"), object]


def build(spec, ids):
    """(the argument, the engines meant or None if it is invalid)"""
    kind = spec[0]
    if kind == "int":
        i = spec[1]
        try:
            return i, [ids[i]] if i < 0 else [ids[ids.index(i)]]
        except (IndexError, ValueError):
            return i, None
    if kind == "slice":
        s = slice(*spec[1:])
        return s, ids[s]
    if kind in ("live", "list", "range"):
        if kind == "range":
            arg = range(spec[1], spec[2], spec[3])
            want = list(arg)
        else:
            want = [ids[k % len(ids)] for k in spec[1]] if kind == "live" and ids else list(spec[1])
            arg = tuple(want) if spec[2] == "tuple" else list(want)
        return arg, want if set(want) <= set(ids) else None
    if kind == "all":
        return spec[1], list(ids)
    if kind == "none":
        return None, list(ids)
    if kind == "bad":
        return BAD[spec[1]], None
    raise HarnessError(spec)


def run(case, ctx):
    from ipyparallel.client.view import BroadcastView, DirectView, LoadBalancedView
    from jupyter_client.session import Session

    from vlib.clientsim import Net

    with Net(case["ids"], hub=True, depth=0) as net:
        c = net.client
        uuids = {eid: e.uuid for eid, e in net.engines.items()}
        ids = sorted(uuids)
        names = {u: i for i, u in uuids.items()}
        quiet = lambda k: k[0] in ("notif", "hubq", "hubr")
        same(c.ids, ids, "client.ids")

        def sent():
            """[(stream, msg_type, [engine ids])] of what was sent since"""
            net.run_callbacks()
            out = []
            for name, frames in net.log:
                if name == "query":
                    continue
                dest = None
                if name in ("mux", "control"):
                    dest = [names[frames[0].decode()]]
                k = frames.index(b"<IDS|MSG>")
                head = c.session.unpack(frames[k + 2])
                if name in ("task", "broadcast"):
                    t = c.session.unpack(frames[k + 4])["targets"]
                    if name == "broadcast":
                        for u, i in t:
                            same(names[u], i, "the id that a broadcast gives for engine %s", u)
                        t = [u for u, _ in t]
                    dest = [names[u] for u in t]
                out.append((name, head["msg_type"], dest))
            del net.log[:]
            return out

        def attempt(fn, want, what):
            """fn() has to fail and send nothing if want is None"""
            net.run_callbacks()
            del net.log[:]
            waited = set(c.outstanding)
            r = attempt_(fn, want, what)
            if not r[1]:
                same(set(c.outstanding), waited, "tasks that are waited for after %s, which failed", what)
            return r

        def attempt_(fn, want, what):
            if want is None:
                ctx.nontrivial()
                try:
                    r = fn()
                except Exception as e:
                    check(not isinstance(e, (HarnessError, Violation)), "%s", e)
                    same(sent(), [], "messages sent by %s, which failed with %r,", what, e)
                    return None, False
                raise Violation("%s of an invalid target was accepted: %r (live: %r)" % (what, getattr(r, "targets", r), ids))
            try:
                return fn(), True
            except (Violation, HarnessError):
                raise
            except Exception as e:
                if not ids:
                    same(type(e).__name__, "NoEnginesRegistered", "the error of %s without engines", what)
                    same(sent(), [], "messages sent by %s, which failed", what)
                    return None, False
                if not want and not isinstance(e, AttributeError):
                    # nothing to do it on
                    same(sent(), [], "messages sent by %s, which failed with %r,", what, e)
                    return None, False
                import traceback

                raise Violation("%s failed: %s" % (what, traceback.format_exc()[-900:]))

        views = []                      # (view, kind, spec-like stored value)

        def resolve(v):
            """the engines that a view's targets mean now; None if invalid"""
            t = v.targets
            if t is None:
                return list(ids)
            if isinstance(t, str):
                return list(ids) if t.lower() == "all" else None
            if isinstance(t, int):
                try:
                    return [ids[t]] if t < 0 else [ids[ids.index(t)]]
                except (IndexError, ValueError):
                    return None
            if isinstance(t, slice):
                return ids[t]
            try:
                t = list(t) if isinstance(t, (list, tuple, range)) else None
                return t if t is not None and set(t) <= set(ids) else None
            except TypeError:
                return None

        def make(how, spec):
            arg, want = build(spec, ids)
            what = "%s with %r" % (how, arg)
            if not ids:
                want = want if want is None else []
            if how == "index":
                if not isinstance(arg, (int, slice, tuple, list, range)):
                    # documented: int, slice, collections
                    want = None
                v, ok = attempt(lambda: c[arg], want, what)
            elif how == "direct":
                v, ok = attempt(lambda: c.direct_view(arg), want, what)
            elif how in ("bv", "cbv"):
                v, ok = attempt(lambda: c.broadcast_view(arg, is_coalescing=how == "cbv"), want, what)
            elif how in ("lbv", "executor"):
                if arg is None or arg == "all":
                    want = []
                v, ok = attempt((lambda: c.load_balanced_view(arg)) if how == "lbv" else (lambda: c.executor(arg)), want, what)
                if ok and how == "executor":
                    v = v.view
                if ok and (arg is None or arg == "all"):
                    same(v.targets, None, "targets of %s", what)
                    views.append(v)
                    return
            elif how == "iter":
                l = list(c)
                same([x.targets for x in l], ids, "targets of the views that iterating over the client gives")
                views.extend(l[:2])
                return
            if not ok:
                return
            if how == "direct" and arg == "all":
                same(v.targets, "all", "targets of %s", what)
            elif isinstance(arg, int) and how in ("index", "direct"):
                same(v.targets, want[0], "targets of %s (live: %r)", what, ids)
            else:
                same(v.targets, want, "targets of %s (live: %r)", what, ids)
            if spec[0] in ("slice", "live", "list", "range") or isinstance(arg, int) and arg < 0:
                if ids != list(range(len(ids))):
                    ctx.nontrivial()
            same(len(v), 1 if isinstance(v.targets, int) else len(want), "len of the view")
            views.append(v)

        def use(v, how, spec, n):
            lb = isinstance(v, LoadBalancedView)
            bc = isinstance(v, BroadcastView)
            if v.targets is None and not lb:
                return
            kw = {}
            if spec == "view":
                want = resolve(v)
                lazy = v.targets is None
            else:
                arg, want = build(spec, ids)
                lazy = False
                if arg is None:
                    # None: the view's own
                    want = resolve(v)
                    lazy = v.targets is None
                else:
                    kw["targets"] = arg
            if bc and want and len(set(want)) < len(want):
                # a broadcast to the same engine twice has no defined meaning
                return
            what = "%s of %r with %r" % (how, v, kw)
            msg_type = "apply_request"
            if lb:
                if how not in ("apply", "map", "fn", "pfn", "submit"):
                    return
                if lazy:
                    want = []
                if v._task_scheme == "pure" or v.retries and not isinstance(v.retries, int):
                    return
            if not lb and how == "submit":
                return
            count = 1
            if how == "apply":
                fn = lambda: v._really_apply(len, ([],), block=False, **kw)
            elif how == "submit":
                if kw:
                    return
                fn = lambda: v.executor.submit(len, [])
            elif how == "execute":
                msg_type = "execute_request"
                fn = lambda: v.execute("a=1", block=False, **kw)
            elif how == "push":
                fn = lambda: v.push({"a": 1}, block=False, **kw)
            elif how == "pull":
                fn = lambda: v.pull("a", block=False, **kw)
            elif how == "scatter":
                fn = lambda: v.scatter("a", range(n), block=False, **kw)
            elif how == "gather":
                fn = lambda: v.gather("a", block=False, **kw)
            elif how in ("map", "fn", "pfn"):
                if how == "fn":
                    fn = lambda: v.remote(block=False, **kw)(len)([])
                elif how == "pfn":
                    if kw:
                        return
                    fn = lambda: v.parallel(block=False)(len)(range(n))
                else:
                    if kw:
                        return
                    fn = lambda: v.map(abs, range(n), block=False)
                if how != "fn":
                    if n == 0:
                        # nothing has to be sent, whether or not the engines are there
                        return
                    if bc and how == "map":
                        # scatter, then a broadcast
                        if not want and want is not None:
                            return
                    elif lb:
                        count = n
                    elif want is not None:
                        want = want[:n]
                    elif isinstance(v.targets, list) and n < len(v.targets):
                        # may or may not fail if the dead ones aren't needed
                        return
            r, ok = attempt(fn, want, what)
            if not ok:
                return
            got = sent()
            if bc and want == [] and hasattr(r, "ready"):
                # nobody will answer it
                check(r.ready(), "%s is accepted and never over (live: %r)", what, ids)
            if lb:
                same([(a, t, sorted(set(d))) for a, t, d in got], [("task", msg_type, sorted(set(want)))] * count, "messages sent by %s (live: %r)", what, ids)
            elif bc and how == "map":
                same(got[-1], ("broadcast", msg_type, want), "the last message sent by %s", what)
                for a, t, d in got:
                    check(set(d) <= set(want), "%s sent a message to %r, not to %r", what, d, want)
            elif bc and how in ("scatter", "gather", "pfn"):
                same([d for _, _, d in got], [[i] for i in want], "destinations of messages sent by %s (live: %r)", what, ids)
            elif bc:
                same(got, [("broadcast", msg_type, want)], "messages sent by %s (live: %r)", what, ids)
            else:
                same(got, [("mux", msg_type, [i]) for i in want], "messages sent by %s (live: %r)", what, ids)
            if ids != list(range(len(ids))) and want != ids:
                ctx.nontrivial()

        def control(v, how, spec):
            obj = c if v is None else v
            if how == "send_signal" and v is not None:
                return
            kw = {}
            if spec == "view":
                want = list(ids) if v is None else resolve(v)
                arg = "all" if v is None else v.targets
            else:
                arg, want = build(spec, ids)
                kw["targets"] = arg
                if v is not None and (arg is None or arg == "all" and how == "shutdown"):
                    want = resolve(v)
                    arg = v.targets
            if v is not None and (isinstance(v, LoadBalancedView)) and how == "clear":
                return
            what = "%s of %r with %r" % (how, obj, kw)
            if how == "queue_status":
                r, ok = attempt(lambda: net.call(lambda: obj.queue_status(**kw), what, only=quiet), want, what)
                if not ok or not want:
                    return
                if isinstance(arg, int):
                    same(sorted(r), ["completed", "queue", "tasks"], "the answer to %s", what)
                else:
                    same(sorted(k for k in r if k != "unassigned"), sorted(set(want)), "engines in the answer to %s (live: %r)", what, ids)
                net.run_callbacks()
                del net.log[:]
                return
            if how == "clear":
                fn = lambda: obj.clear(block=False, **kw)
                t = "clear_request"
            elif how == "abort":
                fn = lambda: obj.abort(["m1"], block=False, **kw)
                t = "abort_request"
            elif how == "send_signal":
                fn = lambda: obj.send_signal(0, block=False, **kw)
                t = "signal_request"
            else:
                fn = lambda: obj.shutdown(block=False, **kw)
                t = "shutdown_request"
                if not ids:
                    return
            _, ok = attempt(fn, want, what)
            if ok:
                same(sent(), [("control", t, [i]) for i in want], "messages sent by %s (live: %r)", what, ids)

        def flagvals(v):
            return {n: getattr(v, n) for n in v._flag_names}

        def realflags(v, flags, order):
            out = {}
            for k in order:
                if k in flags:
                    out[k] = build(flags[k], ids)[0] if k == "targets" else flags[k]
            return out

        def judge_flags(v, f1):
            """whether some of the flags are to be refused"""
            return "bogus" in f1 or any(k not in v._flag_names for k in f1) or any(
                k in f1 and f1[k] in ([5, ["x", 3]] if k == "after" else [1.5] if k == "follow" else [-1, "x"] if k == "timeout" else ["x"] if k == "retries" else ["maybe"])
                for k in ("after", "follow", "timeout", "retries", "block"))

        def temp(v, f1, order, body, f2):
            f1, f2 = realflags(v, f1, order), realflags(v, f2, order)
            before = flagvals(v)
            entered = False
            raised = None
            if body == "for good":
                try:
                    r = v.set_flags(**f1)
                except Exception as e:
                    same(flagvals(v), before, "flags after set_flags(%r), which failed with %r", f1, e)
                    check(judge_flags(v, f1), "set_flags(%r) failed: %r", f1, e)
                    ctx.nontrivial()
                else:
                    check(r is v, "what set_flags gives")
                    same(flagvals(v), {**before, **f1}, "flags after set_flags(%r)", f1)
                    for k, x in before.items():
                        setattr(v, k, x)
                return
            try:
                with v.temp_flags(**f1):
                    entered = True
                    for k, x in f1.items():
                        same(getattr(v, k), x, "flag %s inside temp_flags(%r)", k, f1)
                    for k in before:
                        if k not in f1:
                            same(getattr(v, k), before[k], "flag %s inside temp_flags(%r)", k, f1)
                    if body == "raise":
                        raise Body
                    if body == "set":
                        for k, x in f2.items():
                            try:
                                setattr(v, k, x) if k in before else None
                            except Exception:
                                pass
                    if body == "nest":
                        mid = flagvals(v)
                        try:
                            with v.temp_flags(**f2):
                                if len(f2) % 2:
                                    raise Body
                        except (Body, KeyError, ValueError, TypeError, Exception):
                            pass
                        same(flagvals(v), mid, "flags after the inner temp_flags(%r)", f2)
                    if body == "use":
                        use(v, "apply", "view", 1)
            except Body:
                raised = "body"
            except (Violation, HarnessError):
                raise
            except Exception as e:
                raised = e
            same(flagvals(v), before, "flags after temp_flags(%r) (%r)", f1, raised)
            if isinstance(raised, Exception):
                check(not entered, "temp_flags(%r) failed only after its body: %r", f1, raised)
                legit = judge_flags(v, f1)
                check(legit, "temp_flags(%r) failed: %r", f1, raised)
            if raised:
                ctx.nontrivial()

        make("index", ("slice", None, None, None))
        make("lbv", ("none",))
        for op in case["ops"]:
            if op[0] == "make":
                make(op[1], op[2])
            elif op[0] == "use":
                use(views[op[1] % len(views)], *op[2:])
            elif op[0] == "control":
                control(None if op[1] is None else views[op[1] % len(views)], op[2], op[3])
            elif op[0] == "engine":
                if op[1]:
                    e = net.add_engine(op[2] if op[2] not in net.engines else None)
                    uuids[e.id] = e.uuid
                    names[e.uuid] = e.id
                elif ids:
                    net.kill(ids[op[2] % len(ids)])
                net.run(quiet)
                ids = sorted(net.engines)
                same(c.ids, ids, "client.ids")
                same(len(c), len(ids), "len(client)")
                net.run_callbacks()
                del net.log[:]
            elif op[0] == "temp":
                temp(views[op[1] % len(views)], *op[2:])
            elif op[0] == "setflags":
                v = views[op[1] % len(views)]
                arg, want = build(op[2], ids)
                if want is not None and not (arg is None and not isinstance(v, LoadBalancedView)):
                    v.set_flags(targets=arg)
                    same(v.targets, arg, "targets after set_flags")
        check(not net.errors, "%s", net.errors[:1])


SUBS = [Sub("targets", strategy, run, quick=2400, thorough=40000)]
