"""C06: serialisation round trips."""
import collections
import copy
import datetime
import decimal
import functools
import pickle

from vlib.runner import Sub, Violation, check

PROPERTY = "C06"
RULE = ("cases: a generated object tree (scalars, byte strings and arrays of sizes around the thresholds, nested containers, instances), buffer and item "
        "thresholds, frame representation and how the buffers are transported; the result is compared type by type and value by value with the original. "
        "Non-trivial: the object is a container or was sent in more than one frame")
ASSUMPTIONS = ["objects are picklable, or are buffers/functions at a level that canning looks at (itself or elements of the outermost container)"]
SHARDS = 4
QUICK_S = 20
THOROUGH_S = 300

SIZES = [0, 1, 2, 9, 10, 11, 31, 32, 33, 1023, 1024, 1025, 1026, 5000]
DTYPES = ["i4", "f8", "u1", "S3", "U4", "?", "c16", "O", ">i2", "M8[s]", "m8[D]", "rec", "f2", "g", "V3", "S0", "align", "nested", "nestO", "titled", "T", "sub"]


class Point:
    def __init__(self, x, y):
        self.x, self.y = x, y

    def __eq__(self, o):
        return type(o) is Point and same(self.x, o.x) and same(self.y, o.y)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "Point(%r, %r)" % (self.x, self.y)


class MyList(list):
    pass


class MyDict(dict):
    pass


NT = collections.namedtuple("NT", "a b")


def mkdtype(name):
    import numpy as np

    if name == "rec":
        return np.dtype([("a", "i4"), ("b", "S4")])
    if name == "align":
        return np.dtype([("a", "i1"), ("b", "f8")], align=True)
    if name == "nested":
        return np.dtype([("a", [("x", "i4")]), ("b", "f8", (2,))])
    if name == "nestO":
        return np.dtype([("a", [("x", "O")]), ("b", "f8")])
    if name == "titled":
        return np.dtype([(("T", "a"), "i4")])
    if name == "sub":
        return np.dtype([("a", "i2", (2, 2))])
    if name == "T":
        return np.dtypes.StringDType()
    return np.dtype(name)


def mkarray(dtype, shape, order, salt):
    import numpy as np

    dt = mkdtype(dtype)
    total = 1
    for s in shape:
        total *= s
    base = (np.arange(total) * 13 + salt) % 251
    if dtype in ("rec", "align", "nested", "nestO", "titled", "sub"):
        a = np.zeros(total, dtype=dt)
        for i in range(total):
            v = int(base[i])
            if dtype == "rec":
                a[i] = (v, b"%d" % v)
            elif dtype == "align":
                a[i] = (v % 100, v / 7)
            elif dtype == "nested":
                a[i] = ((v,), (v, v + 1))
            elif dtype == "nestO":
                a["a"]["x"][i] = "o%d" % v
                a["b"][i] = v
            elif dtype == "titled":
                a["a"][i] = v
            else:
                a["a"][i] = v
    elif dtype == "O":
        a = np.empty(total, dtype=object)
        for i in range(total):
            a[i] = [int(base[i])] if base[i] % 2 else None
    elif dtype in ("V3", "S0"):
        a = np.zeros(total, dtype=dt)
        if dtype == "V3":
            a = np.frombuffer(b"".join(bytes([int(x), 1, 2]) for x in base), dtype=dt) if total else a
    elif dtype in ("S3", "U4", "T"):
        a = np.array([str(int(x)) for x in base], dtype=dt)
    else:
        a = base.astype(dt)
    a = a.reshape(shape)
    if order == "F":
        a = np.asfortranarray(a)
    elif order == "rev" and a.ndim:
        a = a[::-1]
    elif order == "T":
        a = a.T
    elif order == "step" and a.ndim and a.shape[0]:
        a = a[::2]
    elif order == "bcast":
        a = np.broadcast_to(a, (2,) + a.shape)
    elif order == "ro":
        a.flags.writeable = False
    return a


def nbytes(n, salt):
    return bytes((salt + i * 7) % 256 for i in range(n))


def identity(*a, **k):
    return a, k


def other(*a, **k):
    return k, a


def build(spec):
    t = spec[0]
    if t == "lit":
        return spec[1]
    if t == "bytes":
        return nbytes(spec[1], spec[2])
    if t == "bytearray":
        return bytearray(nbytes(spec[1], spec[2]))
    if t == "mv":
        return memoryview(nbytes(spec[1], spec[2]))
    if t == "arr":
        return mkarray(*spec[1:])
    if t == "npscalar":
        import numpy as np

        return [np.float64(1.5), np.int8(-3), np.datetime64("2020-01-01"), np.str_("x")][spec[1] % 4]
    if t == "list":
        return [build(s) for s in spec[1]]
    if t == "tuple":
        return tuple(build(s) for s in spec[1])
    if t == "mylist":
        return MyList(build(s) for s in spec[1])
    if t == "set":
        return {build(s) for s in spec[1]}
    if t == "frozenset":
        return frozenset(build(s) for s in spec[1])
    if t == "dict":
        return {k: build(v) for k, v in spec[1]}
    if t == "mydict":
        return MyDict((k, build(v)) for k, v in spec[1])
    if t == "odict":
        return collections.OrderedDict((k, build(v)) for k, v in spec[1])
    if t == "nt":
        return NT(build(spec[1]), build(spec[2]))
    if t == "point":
        return Point(build(spec[1]), build(spec[2]))
    if t == "many":
        return [build(spec[2])] * spec[1]
    if t == "manyof":
        return [build(spec[2][i % len(spec[2])]) for i in range(spec[1])]
    if t == "manydict":
        return {"k%d" % i: build(spec[2][i % len(spec[2])]) for i in range(spec[1])}
    if t == "date":
        return datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(spec[1])
    if t == "dec":
        return decimal.Decimal(spec[1])
    if t == "partial":
        return functools.partial(identity if spec[1] else other, *[build(s) for s in spec[2]], **{k: build(v) for k, v in spec[3]})
    raise AssertionError(t)


def nomv(spec):
    """memoryviews can't be pickled: use byte strings in containers that are not looked into"""
    if isinstance(spec, tuple) and spec and spec[0] == "mv" and len(spec) == 3:
        return ("bytes",) + spec[1:]
    if isinstance(spec, (tuple, list)):
        return type(spec)(nomv(s) for s in spec)
    return spec


def fit(spec, item_threshold):
    n = {"list": lambda: len(spec[1]), "tuple": lambda: len(spec[1]), "set": lambda: len(build(spec)), "dict": lambda: len(spec[1]),
         "manyof": lambda: spec[1], "manydict": lambda: spec[1]}.get(spec[0])
    if n and n() >= item_threshold:
        return nomv(spec)
    return spec


def same(a, b, path="object"):
    """equal in type and value; raises Violation"""
    check(type(a) is type(b), "%s: type %s, expected %s", path, type(a), type(b))
    if type(a).__module__ == "numpy" and type(a).__name__ == "ndarray":
        # pickle may change the byte order
        check(a.dtype == b.dtype or (a.dtype.kind != "T" and a.dtype.newbyteorder("=") == b.dtype.newbyteorder("=")), "%s: dtype %r, expected %r", path, a.dtype, b.dtype)
        check(a.shape == b.shape, "%s: shape %r, expected %r", path, a.shape, b.shape)
        x, y = a.tolist(), b.tolist()
        check(repr(x) == repr(y), "%s: values %r, expected %r", path, x, y)
    elif isinstance(a, (list, tuple)):
        check(len(a) == len(b), "%s: length %d, expected %d", path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, "%s[%d]" % (path, i))
    elif isinstance(a, dict):
        ak, bk = ({(type(k).__name__, k) for k in d} for d in (a, b))
        check(len(a) == len(b) and ak == bk, "%s: keys %r, expected %r", path, list(a), list(b))
        for k in b:
            same(a[k], b[k], "%s[%r]" % (path, k))
    elif isinstance(a, functools.partial):
        check(a.func.__code__ == b.func.__code__ and a.func.__name__ == b.func.__name__, "%s: partial of %r, expected %r", path, a.func, b.func)
        same(a.args, b.args, path + ".args")
        same(a.keywords, b.keywords, path + ".keywords")
    elif isinstance(a, memoryview):
        check(a.tobytes() == b.tobytes(), "%s: %r, expected %r", path, a.tobytes()[:50], b.tobytes()[:50])
    elif isinstance(a, Point):
        same(a.x, b.x, path + ".x")
        same(a.y, b.y, path + ".y")
    elif isinstance(a, float):
        check(repr(a) == repr(b), "%s: %r, expected %r", path, a, b)
    elif isinstance(a, (set, frozenset)):
        if any(isinstance(x, functools.partial) for x in b):
            key = lambda p: (type(p).__name__, p.func.__name__, repr(p.args), repr(p.keywords)) if isinstance(p, functools.partial) else (type(p).__name__, repr(bytes(p) if isinstance(p, memoryview) else p))
            same(sorted(a, key=key), sorted(b, key=key), path + "(sorted)")
        else:
            check(a == b, "%s: %r, expected %r", path, a, b)
            check(sorted(type(x).__name__ for x in a) == sorted(type(x).__name__ for x in b), "%s: types differ", path)
    else:
        check(a == b, "%s: %r, expected %r", path, a, b)
    return True


def spec_strategy():
    from hypothesis import strategies as st
    from vlib.gen import weighted

    lit = st.one_of(st.none(), st.booleans(), st.integers(), st.floats(), st.text(max_size=12), st.complex_numbers(allow_nan=False)).map(lambda x: ("lit", x))
    size = st.one_of(st.sampled_from(SIZES), st.integers(0, 40))
    salt = st.integers(0, 9)
    byt = st.tuples(st.just("bytes"), size, salt)
    bya = st.tuples(st.just("bytearray"), size, salt)
    mv = st.tuples(st.just("mv"), size, salt)
    shape = st.one_of(st.lists(st.integers(0, 4), max_size=3), st.lists(st.integers(1, 5), min_size=1, max_size=2), st.sampled_from([[200], [20, 20], [128], [129]])).map(tuple)
    arr = st.tuples(st.just("arr"), st.sampled_from(DTYPES), shape, st.sampled_from(["C", "C", "F", "rev", "T", "step", "bcast", "ro"]), salt)
    misc = st.one_of(st.tuples(st.just("npscalar"), st.integers(0, 3)), st.tuples(st.just("date"), st.integers(0, 99)),
                     st.tuples(st.just("dec"), st.sampled_from(["1.5", "NaN" if False else "2", "-0"])))
    leaf = weighted((2, lit), (2, byt), (1, bya), (2, arr), (1, misc))
    hlit = st.one_of(st.none(), st.integers(-5, 5), st.text(max_size=3), st.tuples(st.integers(0, 3)), st.binary(max_size=3))
    hashable = st.one_of(hlit.map(lambda x: ("lit", x)), byt, st.tuples(st.just("frozenset"), st.lists(hlit.map(lambda x: ("lit", x)), max_size=3)))
    key = st.one_of(st.text(max_size=3), st.integers(-3, 3), st.none(), st.booleans(), st.binary(max_size=2), st.tuples(st.integers(0, 2), st.text(max_size=1)), st.frozensets(st.integers(0, 3), max_size=2))
    skey = st.sampled_from(["a", "b", "c", "dd", "z"])

    def pairs(v, n=5):
        return st.one_of(st.lists(st.tuples(key, v), max_size=n), st.lists(st.tuples(skey, v), max_size=n)).map(lambda l: list({k: (k, v) for k, v in l}.values()))

    def extend(inner):
        l = st.lists(inner, max_size=5)
        return st.one_of(st.tuples(st.sampled_from(["list", "tuple", "mylist"]), l), st.tuples(st.sampled_from(["dict", "mydict", "odict"]), pairs(inner)),
                         st.tuples(st.just("nt"), inner, inner), st.tuples(st.just("point"), inner, inner),
                         st.tuples(st.sampled_from(["set", "frozenset"]), st.lists(hashable, max_size=4)))

    inner = st.recursive(leaf, extend, max_leaves=8)
    pkw = st.lists(st.tuples(skey, inner), max_size=2, unique_by=lambda t: t[0])
    # several keywords with buffers of their own, in any order
    bkw = st.lists(st.tuples(skey, st.one_of(arr, mv)), min_size=2, max_size=4, unique_by=lambda t: t[0])
    part = st.tuples(st.just("partial"), st.booleans(), st.lists(st.one_of(inner, mv), max_size=3), st.one_of(pkw, bkw))
    spart = st.tuples(st.just("partial"), st.booleans(), st.lists(st.one_of(byt, lit.filter(lambda l: l[1] == l[1])), max_size=2), st.just([]))
    big = st.tuples(st.sampled_from(["manyof", "manydict"]), st.sampled_from([0, 1, 3, 31, 62, 63, 64, 65, 130]), st.lists(st.one_of(byt, lit, arr, mv), min_size=1, max_size=3))
    elem = weighted((4, inner), (1, mv), (1, part))
    outer = weighted((3, inner), (2, st.tuples(st.sampled_from(["list", "tuple"]), st.lists(elem, max_size=6))), (2, st.tuples(st.just("dict"), pairs(elem))),
                     (1, st.tuples(st.just("set"), st.lists(st.one_of(hashable, spart, st.tuples(st.just("mv"), size, salt)), max_size=5))), (1, part), (1, mv), (2, big))
    return outer


def cfg_strategy():
    from hypothesis import strategies as st

    return st.tuples(st.sampled_from([0, 1, 10, 32, 1024, 10**6, 5000]), st.sampled_from([0, 1, 2, 4, 64, 65, 200, 10**6]), st.sampled_from(["bytes", "mv", "frame", "buffer", "asis"]))


def strategy():
    from hypothesis import strategies as st

    return st.tuples(spec_strategy(), cfg_strategy(), st.integers(0, 2), st.booleans())


def transport(bufs, form):
    import zmq

    # what reaches the other side is bytes
    raw = [b.tobytes() if isinstance(b, memoryview) else bytes(b) for b in bufs]
    if form == "bytes":
        return raw
    if form == "mv":
        return [memoryview(b) for b in raw]
    if form == "frame":
        return [zmq.Frame(b).buffer for b in raw]
    if form == "buffer":
        return [zmq.Frame(b) if i else memoryview(b) for i, b in enumerate(raw)]
    return list(bufs)


def run(case, ctx):
    from ipyparallel.serialize import PrePickled, deserialize_object, serialize_object

    spec, (bt, it, form), extra, pre = case
    spec = fit(spec, min(it, 64) if pre else it)
    obj = build(spec)
    ref = build(spec)
    bufs = serialize_object(obj, buffer_threshold=bt, item_threshold=it)
    same(obj, ref, "original")
    check(isinstance(bufs[0], bytes), "the first frame is %r", type(bufs[0]))
    for b in bufs[1:]:
        n = b.nbytes if isinstance(b, memoryview) else len(b)
        check(n > bt, "a buffer of %d bytes was separated, threshold %d", n, bt)
    ctx.nontrivial(len(bufs) > 1 or spec[0] in ("list", "tuple", "dict", "set", "manyof", "manydict"))
    ctx.tag("frames%d" % min(len(bufs), 5), spec[0])
    tail = [b"extra%d" % i for i in range(extra)]
    frames = transport(bufs, form)
    keep = list(frames)
    got, rest = deserialize_object(frames + tail)
    check([bytes(x) for x in rest] == tail, "%d buffers left over, expected %d", len(rest), extra)
    check(len(frames) == len(keep), "the list of buffers given was changed")
    same(got, ref)
    # the same frames can be read again
    if form != "asis":
        got2, rest = deserialize_object(frames)
        same(got2, ref, "second reading")
        check(not rest, "buffers left over")
    if pre:
        p = PrePickled(obj)
        for _ in range(2):
            b2 = serialize_object(p)
            got, rest = deserialize_object(transport(b2, "bytes"))
            check(not rest, "buffers left over")
            same(got, ref, "prepickled")


def call_strategy():
    from hypothesis import strategies as st

    s = spec_strategy()
    kw = st.lists(st.tuples(st.sampled_from(["a", "b", "z", "kk", "A"]), s), max_size=3, unique_by=lambda t: t[0])
    f = st.one_of(st.just(("id",)), st.just(("lambda", 0)), st.tuples(st.just("pf"), st.lists(s, max_size=2)))
    return st.tuples(f, st.lists(s, max_size=3), kw, cfg_strategy(), st.lists(st.sampled_from([False, True]), min_size=8, max_size=8))


def run_call(case, ctx):
    from ipyparallel.serialize import PrePickled, pack_apply_message, unpack_apply_message

    fs, aspec, kspec, (bt, it, form), pre = case
    aspec = [fit(s, min(it, 64)) for s in aspec]
    kspec = [(k, fit(s, min(it, 64))) for k, s in kspec]
    args = [build(s) for s in aspec]
    kwargs = {k: build(s) for k, s in kspec}
    rargs = tuple(build(s) for s in aspec)
    rkw = {k: build(s) for k, s in kspec}
    if fs[0] == "pf":
        fs = ("pf", [s if s[0] == "mv" else nomv(s) for s in fs[1]])
    if fs[0] == "id":
        f = identity
    elif fs[0] == "lambda":
        f = eval("lambda *a, **k: ('called', len(a), sorted(k))", {"__name__": "__main__"})
    else:
        f = functools.partial(identity, *[build(s) for s in fs[1]])
    sent = [PrePickled(a) if pre[i % 4] else a for i, a in enumerate(args)]
    ksent = {k: PrePickled(v) if pre[4 + i % 4] else v for i, (k, v) in enumerate(kwargs.items())}
    bufs = pack_apply_message(f, sent, ksent, buffer_threshold=bt, item_threshold=it)
    same(args, list(rargs), "args after packing")
    g = {}
    f2, a2, k2 = unpack_apply_message(transport(bufs, form), g)
    check(isinstance(a2, tuple), "args unpacked as %s", type(a2))
    same(a2, rargs, "args")
    check(set(k2) == set(rkw), "kwargs %r, expected %r", sorted(k2), sorted(rkw))
    for k in rkw:
        same(k2[k], rkw[k], "kwargs[%r]" % k)
    if fs[0] == "pf":
        same(f2, functools.partial(identity, *[build(s) for s in fs[1]]), "function")
    elif fs[0] == "id":
        check(f2(1, a=2) == ((1,), {"a": 2}), "another function: %r", f2)
    else:
        check(f2(1, b=1, a=2) == ("called", 1, ["a", "b"]), "another function: %r", f2)
        check(f2.__globals__ is g, "the function does not use the given namespace")
    ctx.nontrivial(len(bufs) > 3)
    ctx.tag("args%d" % len(args), "kw%d" % len(kwargs), "frames%d" % min(9, len(bufs)))


CORPUS = [
    (("dict", [("a", ("bytes", 2000, 1)), (1, ("bytes", 3000, 2))]), (1024, 64, "bytes"), 1, True),
    (("manyof", 130, [("bytes", 9, 1), ("bytes", 2000, 3)]), (1024, 200, "bytes"), 1, True),
    (("partial", False, [("arr", "u1", (5000,), "C", 3)], [("z", ("arr", "i4", (30, 2), "C", 1)), ("a", ("mv", 2000, 2)), ("dd", ("arr", "f8", (4,), "C", 5))]), (10, 64, "bytes"), 1, False),
    (("set", [("partial", True, [("bytes", 40 + i, i)], []) for i in range(4)]), (10, 64, "bytes"), 0, False),
    (("arr", "align", (3,), "C", 1), (10, 64, "bytes"), 0, False),
    (("arr", "M8[s]", (3,), "C", 1), (10, 64, "bytes"), 0, False),
    (("dict", [("z", ("bytes", 2000, 1)), ("a", ("bytes", 3000, 2)), ("m", ("arr", "i4", (30, 2), "F", 1))]), (0, 64, "frame"), 1, True),
]
SUBS = [
    Sub("objects", strategy, run, quick=5000, thorough=120000, weight=3, examples=CORPUS),
    Sub("calls", call_strategy, run_call, quick=1600, thorough=40000, weight=2),
]
