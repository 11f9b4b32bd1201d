"""C05: Dependency readiness/impossibility against a truth-table oracle over all futures."""
import itertools
import json

from vlib.runner import Sub, Violation, check

PROPERTY = "C05"
RULE = ("cases: a dependency (id set, all/any, success/failure flags, how it was built) and a history of task completions; "
        "the oracle decides readiness from the definition and impossibility by enumerating every outcome of the unfinished tasks. "
        "Non-trivial: non-empty dependency of which at least one task has finished")
ASSUMPTIONS = ["task outcomes are success or failure, and final"]
SHARDS = 4
QUICK_S = 25
THOROUGH_S = 200

IDS = ["a%d" % i for i in range(7)]


def strategy():
    from hypothesis import strategies as st

    ids = st.lists(st.sampled_from(IDS), max_size=5)
    flags = st.sampled_from([(True, False), (False, True), (True, True)])
    form = st.sampled_from(["list", "set", "tuple", "dict", "json", "dep", "ar", "mixed", "twice", "dict_over", "str"])
    events = st.lists(st.tuples(st.sampled_from(IDS), st.booleans()), max_size=8)
    return st.tuples(ids, st.booleans(), flags, form, events, st.sampled_from(["set", "none", "dep"]))


def make_ar(ids):
    from ipyparallel.client.asyncresult import AsyncResult

    class HandleStub(AsyncResult):
        def __init__(self, ids):
            self.msg_ids = list(ids)

        def __repr__(self):
            return "HandleStub(%r)" % self.msg_ids

        def __del__(self):
            pass

    return HandleStub(ids)


def build(ids, all_, success, failure, form):
    from ipyparallel import Dependency

    kw = dict(all=all_, success=success, failure=failure)
    if form == "str":
        if len(set(ids)) == 1:
            return Dependency(ids[0], **kw)
        form = "list"
    if form == "list":
        return Dependency(list(ids), **kw)
    if form == "set":
        return Dependency(set(ids), **kw)
    if form == "tuple":
        return Dependency(tuple(ids), **kw)
    if form == "dict":
        return Dependency(Dependency(ids, **kw).as_dict())
    if form == "dict_over":
        # settings saved in the dictionary win over constructor defaults
        return Dependency(dict(Dependency(ids, **kw).as_dict()), all=True, success=True, failure=False)
    if form == "json":
        return Dependency(json.loads(json.dumps(Dependency(ids, **kw).as_dict())))
    if form == "twice":
        return Dependency(json.loads(json.dumps(Dependency(Dependency(ids, **kw).as_dict()).as_dict())))
    if form == "dep":
        return Dependency(Dependency(ids), **kw)
    if form == "ar":
        return Dependency(make_ar(ids), **kw)
    if form == "mixed":
        h = len(ids) // 2
        return Dependency([make_ar(ids[:h])] + list(ids[h:]), **kw)
    raise ValueError(form)


def satisfied(ids, all_, success, failure, done):
    if not ids:
        return True
    acc = [i for i in ids if i in done and ((done[i] and success) or (not done[i] and failure))]
    return len(acc) == len(ids) if all_ else len(acc) > 0


def run(case, ctx):
    ids, all_, (success, failure), form, events, failform = case
    dep = build(ids, all_, success, failure, form)
    ids = set(ids)
    check(set(dep) == ids, "dependency %r built from %r holds %r", form, sorted(ids), sorted(dep))
    check((bool(dep.all), bool(dep.success), bool(dep.failure)) == (all_, success, failure),
          "flags %r became %r", (all_, success, failure), (dep.all, dep.success, dep.failure))
    ctx.tag(form, "all" if all_ else "any", "s%d f%d" % (success, failure))
    done = {}
    was_ready = was_dead = False
    hist = [None] + list(events)
    for ev in hist:
        if ev is not None:
            if ev[0] in done:
                continue
            done[ev[0]] = ev[1]
        completed = {i for i in done if done[i]}
        failed = {i for i in done if not done[i]}
        c0, f0 = set(completed), set(failed)
        exp = satisfied(ids, all_, success, failure, done)
        got = dep.check(completed, failed)
        check(bool(got) == exp, "check(completed=%r, failed=%r) of %r = %r, expected %r", sorted(completed), sorted(failed), dep.as_dict(), got, exp)
        unfinished = sorted(ids - set(done))
        possible = False
        for outcome in itertools.product([True, False], repeat=len(unfinished)):
            d2 = dict(done)
            d2.update(zip(unfinished, outcome))
            if satisfied(ids, all_, success, failure, d2):
                possible = True
                break
        got = dep.unreachable(completed, failed)
        check(bool(got) == (not possible), "unreachable(completed=%r, failed=%r) of %r = %r, expected %r",
              sorted(completed), sorted(failed), dep.as_dict(), got, not possible)
        # without failures
        if not failed:
            check(bool(dep.check(completed)) == exp, "check without failed set differs")
            check(bool(dep.unreachable(completed)) == (not possible), "unreachable without failed set differs")
        check((completed, failed) == (c0, f0), "the sets passed in were modified")
        check(set(dep) == ids, "asking modified the dependency")
        if was_ready:
            check(exp, "oracle: readiness must be stable")
        was_ready = exp
        if ids & set(done):
            ctx.nontrivial()
        if exp:
            ctx.tag("ready")
        if not possible:
            ctx.tag("impossible")
        d = dep.as_dict()
        check(sorted(d["dependencies"]) == sorted(ids), "as_dict lists %r", d)
        check((d["all"], d["success"], d["failure"]) == (all_, success, failure), "as_dict flags %r", d)


def reject_strategy():
    from hypothesis import strategies as st

    bad = st.sampled_from([1, 2.5, None, b"bytes", ("t",), {}])
    return st.tuples(st.sampled_from(["flags", "type"]), st.lists(st.sampled_from(IDS), max_size=3), bad, st.booleans())


def run_reject(case, ctx):
    from ipyparallel import Dependency

    kind, ids, bad, all_ = case
    ctx.nontrivial()
    ctx.tag(kind)
    try:
        if kind == "flags":
            Dependency(ids, all=all_, success=False, failure=False)
        else:
            Dependency(list(ids) + [bad], all=all_)
    except (ValueError if kind == "flags" else TypeError):
        return
    raise Violation("%s: invalid dependency accepted: %r" % (kind, case))


def ok(x):
    return x


def bad(x):
    raise ValueError("bad %r" % (x,))


def flags_strategy():
    from hypothesis import strategies as st

    ref = st.integers(0, 5)
    dspec = st.one_of(
        st.tuples(st.sampled_from(["ar", "str"]), ref),
        st.tuples(st.sampled_from(["list", "set", "tuple"]), st.lists(st.tuples(st.sampled_from(["ar", "str"]), ref), max_size=3)),
        st.tuples(st.sampled_from(["dict", "dep", "jdict"]), st.lists(st.tuples(st.sampled_from(["ar", "str"]), ref), max_size=3),
                  st.booleans(), st.sampled_from([(True, False), (False, True), (True, True)])),
        st.just(("none",)))
    flag = st.one_of(st.tuples(st.sampled_from(["after", "follow"]), dspec), st.tuples(st.sampled_from(["after", "follow"]), dspec),
                     st.tuples(st.just("timeout"), st.sampled_from([None, 0, 2.5, 7])), st.tuples(st.just("retries"), st.integers(0, 4)),
                     st.tuples(st.just("label"), st.sampled_from([None, "l", "m"])),
                     st.tuples(st.just("targets"), st.sampled_from([None, "all", [0], [1, 2], 2, slice(0, 2), -1])))
    flags = st.lists(flag, max_size=4).map(lambda l: sorted(dict(l).items()))
    what = st.one_of(st.sampled_from(["ok", "bad", "ok", "map", "call", "fn"]), st.tuples(st.just("map"), st.integers(1, 4)))
    op = st.one_of(st.tuples(st.just("submit"), what, st.sampled_from(["temp", "set", "attr", "plain", "one"]), flags),
                   st.tuples(st.just("submit"), what, st.sampled_from(["temp", "set", "attr", "one"]), flags),
                   st.tuples(st.just("run"), st.integers(0, 30)),
                   st.tuples(st.just("invalid"), st.sampled_from(["after", "follow"]), st.sampled_from([5, [3], {"a": 1}, b"x", [None]])))
    return st.tuples(st.lists(op, min_size=2, max_size=10), st.lists(st.integers(0, 5), max_size=5))


def run_flags(case, ctx):
    """what a load-balanced view is told reaches the scheduler with every task"""
    from ipyparallel import Dependency
    from vlib.clientsim import Net
    from vlib.runner import same

    ops, picks = case
    with Net(ids=(0, 1, 2), picks=picks) as net:
        c = net.client
        v = c.load_balanced_view()
        handles = [v.apply_async(ok, 0)]      # result handles
        state = dict(after=None, follow=None, timeout=None, retries=0, label=None, targets=None)
        uuids = {i: e.uuid for i, e in net.engines.items()}

        def resolve(spec):
            """the object given, its ids and flags"""
            k = spec[0]
            if k == "none":
                return None, (set(), True, True, False)

            def one(s):
                h = handles[s[1] % len(handles)]
                if s[0] == "ar":
                    return h, list(h.msg_ids)
                m = h.msg_ids[s[1] % len(h.msg_ids)]
                return m, [m]
            if k in ("ar", "str"):
                o, ids = one(spec)
                return o, (set(ids), True, True, False)
            got = [one(s) for s in spec[1]]
            ids = {m for _, l in got for m in l}
            objs = [o for o, _ in got]
            if k == "set":
                objs = [o if isinstance(o, str) else o.msg_ids[0] for o in objs]
                return set(objs), (set(objs), True, True, False)
            if k in ("list", "tuple"):
                return (objs if k == "list" else tuple(objs)), (ids, True, True, False)
            dep = Dependency(objs, all=spec[2], success=spec[3][0], failure=spec[3][1])
            exp = (ids, spec[2]) + spec[3]
            if k == "dep":
                return dep, exp
            d = dep.as_dict()
            return (json.loads(json.dumps(d)) if k == "jdict" else d), exp

        def value(name, x):
            if name in ("after", "follow"):
                return resolve(x)
            return x, x

        def current(over):
            st = dict(state)
            st.update(over)
            return st

        for op in ops:
            if op[0] == "run":
                for _ in range(op[1]):
                    if not net.step():
                        break
                continue
            if op[0] == "invalid":
                saved = {n: getattr(v, n) for n in ("after", "follow")}
                try:
                    with v.temp_flags(**{op[1]: op[2]}):
                        raise Violation("%s=%r is accepted as a dependency" % op[1:])
                except (TypeError, ValueError):
                    pass
                check(all(getattr(v, n) is saved[n] for n in saved), "flags are not restored after the invalid %s=%r", op[1], op[2])
                continue
            _, what, how, flags = op
            if how == "attr" or how == "set":
                # labels and targets are as they were given
                given = {n: value(n, x) for n, x in flags}
                if how == "set":
                    v.set_flags(**{n: o for n, (o, e) in given.items()})
                else:
                    for n, (o, e) in given.items():
                        setattr(v, n, o)
                state.update({n: e for n, (o, e) in given.items()})
                st = dict(state)
            elif how == "plain":
                given = {}
                st = dict(state)
            else:
                given = {n: value(n, x) for n, x in flags}
                st = current({n: e for n, (o, e) in given.items()})
            net.run_callbacks()
            n0 = len(net.log)
            before = {n: getattr(v, n) for n in state}

            def submit():
                if what == "ok":
                    return v.apply_async(ok, 1)
                if what == "bad":
                    return v.apply_async(bad, 1)
                if what == "call":
                    return v.apply_async(lambda *a, **k: 3, 1, x=2)
                if what == "fn":
                    return v.remote(block=False)(ok)(3)
                n = what[1] if isinstance(what, tuple) else 3
                return v.map_async(ok, range(n))
            if how == "temp":
                with v.temp_flags(**{n: o for n, (o, e) in given.items()}):
                    ar = submit()
            elif how == "one" and what in ("ok", "bad"):
                # flags of this call only; None is whatever the view says
                ar = v._really_apply(ok if what == "ok" else bad, (1,), {}, block=False, **{n: o for n, (o, e) in given.items()})
                for n, (o, e) in given.items():
                    if o is None:
                        st[n] = state[n]
            elif how == "one":
                st = dict(state)
                ar = submit()
            else:
                ar = submit()
            for n in before:
                check(getattr(v, n) is before[n] or getattr(v, n) == before[n], "flag %s is %r afterwards, was %r", n, getattr(v, n), before[n])
            net.run_callbacks()
            sent = [(s, f) for s, f in net.log[n0:] if s == "task"]
            same([m for m in ar.msg_ids], [json.loads(f[f.index(b"<IDS|MSG>") + 2])["msg_id"] for s, f in sent], "messages of %r", op)
            for s, f in sent:
                md = json.loads(f[f.index(b"<IDS|MSG>") + 4])
                for n in ("after", "follow"):
                    exp = st[n] or (set(), True, True, False)
                    raw = md.get(n)
                    # as the scheduler reads it
                    d = Dependency(raw) if raw else Dependency([])
                    check(set(d) == exp[0], "%s of %r is %r, expected %r", n, op, raw, sorted(exp[0]))
                    if exp[0]:
                        check((bool(d.all), bool(d.success), bool(d.failure)) == exp[1:], "%s of %r is satisfied by %r, expected all, success, failure = %r", n, op, raw, exp[1:])
                        ctx.nontrivial()
                        if exp[1:] != (True, True, False):
                            ctx.tag("special flags")
                for n in ("timeout", "retries", "label"):
                    # without timeout: 0 or None
                    check(md.get(n) == st[n] or (not md.get(n) and not st[n]), "%s of %r is %r, expected %r", n, op, md.get(n), st[n])
                t = st["targets"]
                if t is None:
                    exp = []
                elif t == "all":
                    exp = [0, 1, 2]
                elif isinstance(t, int):
                    exp = [2 if t == -1 else t]
                elif isinstance(t, slice):
                    exp = [0, 1]
                else:
                    exp = list(t)
                check(sorted(md.get("targets") or []) == sorted(uuids[i] for i in exp), "targets of %r are %r, expected %r", op, md.get("targets"), exp)
            handles.append(ar)
        net.run()
        for ar in handles:
            check(ar.done(), "results never arrive")


SUBS = [
    Sub("flags", flags_strategy, run_flags, quick=1500, thorough=20000, weight=3),
    Sub("truth_table", strategy, run, quick=6000, thorough=200000, weight=5),
    Sub("rejects", reject_strategy, run_reject, quick=200, thorough=2000, weight=1),
]
