"""C08: partition / join identity."""
import collections
import itertools

from vlib.runner import Sub, Violation, check

PROPERTY = "C08"
RULE = ("cases: a sequence (kind, length, element types, array shape and dtype) and a number of partitions, optionally an explicit length; pieces are "
        "compared with the balanced contiguous split computed independently, then joined. Non-trivial: at least two partitions and two elements")
ASSUMPTIONS = ["one-shot iterators are out of scope: callers turn them into lists first"]
SHARDS = 4
QUICK_S = 15
THOROUGH_S = 200

KINDS = ["list", "tuple", "str", "bytes", "range", "array", "deque", "set", "dict", "keys", "userlist", "iterable", "listsub", "nested", "bytearray", "ddict"]
DTYPES = ["i4", "f8", "u1", "S3", "U4", "?", "c16", "O", ">i2", "M8[s]", "rec", "i8"]


def strategy():
    from hypothesis import strategies as st

    n = st.one_of(st.integers(0, 12), st.integers(0, 70))
    q = st.one_of(st.integers(1, 8), st.integers(1, 80))
    shape = st.lists(st.integers(0, 3), max_size=2)
    order = st.sampled_from(["C", "F", "rev", "step", "T"])
    return st.tuples(st.sampled_from(KINDS + ["array"] * 4 + ["list"] * 2), n, q, st.sampled_from(DTYPES), shape, order,
                     st.one_of(st.none(), st.none(), st.integers(-8, 8)), st.integers(0, 10**6))


class ListSub(list):
    pass


class Rest:
    """iterable, not sliceable"""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)


def make_array(n, dtype, shape, order, salt):
    import numpy as np

    shp = (n,) + tuple(shape)
    total = 1
    for s in shp:
        total *= s
    base = np.arange(total) * 7 + salt
    if dtype == "rec":
        a = np.zeros(total, dtype=[("a", "i4"), ("b", "S4")])
        a["a"] = base
        a["b"] = [b"%d" % (x % 1000) for x in base]
    elif dtype == "O":
        a = np.empty(total, dtype=object)
        for i, x in enumerate(base):
            a[i] = [int(x)]
    elif dtype == "i8":
        a = base + 2**53 + 1
    elif dtype in ("S3", "U4"):
        a = (base % 1000).astype(dtype)
    else:
        a = base.astype(dtype) if dtype != "u1" else (base % 256).astype(dtype)
    a = a.reshape(shp)
    if order == "F":
        a = np.asfortranarray(a)
    elif order == "rev":
        a = a[::-1]
    elif order == "step":
        b = np.zeros((2 * n,) + tuple(shape), dtype=a.dtype)
        b[::2] = a
        a = b[::2]
    elif order == "T" and len(shp) == 2:
        a = np.array(a.T, order="C").T
    return a


def make(kind, n, dtype, shape, order, salt):
    items = [salt + 3 * i for i in range(n)]
    if kind == "list":
        return items, items
    if kind == "nested":
        items = [[x] if x % 2 else (x, None) for x in items]
        return items, items
    if kind == "listsub":
        return ListSub(items), items
    if kind == "tuple":
        return tuple(items), items
    if kind == "str":
        s = "".join(chr(97 + x % 26) for x in items)
        return s, list(s)
    if kind in ("bytes", "bytearray"):
        b = bytes(x % 256 for x in items)
        return (bytearray(b) if kind == "bytearray" else b), list(b)
    if kind == "range":
        r = range(salt, salt + 3 * n, 3)
        return r, list(r)
    if kind == "deque":
        return collections.deque(items), items
    if kind == "set":
        s = set(items)
        return s, list(s)
    if kind == "dict":
        return dict.fromkeys(items, 0), items
    if kind == "ddict":
        d = collections.defaultdict(int)
        for i in items:
            d[i] = 1
        return d, items
    if kind == "keys":
        return dict.fromkeys(items).keys(), items
    if kind == "userlist":
        return collections.UserList(items), items
    if kind == "iterable":
        return Rest(items), items
    if kind == "array":
        a = make_array(n, dtype, shape, order, salt)
        return a, a
    raise AssertionError(kind)


def split_oracle(items, q, n):
    """cut n items in q contiguous pieces, the first ones longer by one"""
    sizes = [n // q] * q
    for i in range(n - sum(sizes)):
        sizes[i] += 1
    out, at = [], 0
    for s in sizes:
        out.append(items[at : at + s])
        at += s
    return out


def same_array(a, b, what, byteorder=True):
    check(type(a) is type(b), "%s: type %r, expected %r", what, type(a), type(b))
    da, db = (a.dtype, b.dtype) if byteorder else (a.dtype.newbyteorder("="), b.dtype.newbyteorder("="))
    check(da == db and a.shape == b.shape, "%s: %s %r, expected %s %r", what, a.dtype, a.shape, b.dtype, b.shape)
    check(a.tolist() == b.tolist(), "%s: values differ: %r, expected %r", what, a, b)


def run(case, ctx):
    from ipyparallel.client.map import Map

    kind, n, q, dtype, shape, order, dn, salt = case
    seq, items = make(kind, n, dtype, shape, order, salt)
    n = len(seq)
    length = n if dn is None else max(0, n + dn)
    m = Map()
    ctx.tag(kind)
    ctx.nontrivial(n >= 2 and q >= 2)
    parts = []
    for p in range(q):
        if dn is None:
            parts.append(m.getPartition(seq, p, q))
        else:
            parts.append(m.getPartition(seq, p, q, length))
    want = split_oracle(items, q, length)
    check(len(seq) == n, "the sequence was changed by partitioning it")
    for p, (got, exp) in enumerate(zip(parts, want)):
        if kind == "array":
            same_array(got, exp, "piece %d of %d" % (p, q))
        else:
            check(list(got) == list(exp), "piece %d of %d is %r, expected %r", p, q, list(got), list(exp))
            if kind in ("list", "tuple", "str", "bytes", "range", "nested"):
                check(type(got) is type(seq), "piece of a %s is a %s", type(seq), type(got))
    if dn is None:
        sizes = [len(x) for x in parts]
        check(max(sizes) - min(sizes) <= 1 and sum(sizes) == n, "sizes %r for %d elements", sizes, n)
    for p in (-1, q, q + 1):
        try:
            m.getPartition(seq, p, q)
        except ValueError:
            pass
        else:
            raise Violation("piece %d of %d was made" % (p, q))
    # and back
    if dn is not None and dn < 0:
        whole = items[:length]
    else:
        whole = items
    joined = m.joinPartitions(parts)
    if kind == "array":
        same_array(joined, whole, "joined", False)
        return
    if type(parts[0]) in (list, tuple):
        check(list(joined) == list(whole), "joined %r, expected %r", joined, whole)
        check(isinstance(joined, list), "joined is a %s", type(joined))
    else:
        # not joined, but nothing lost
        check(list(itertools.chain.from_iterable(joined)) == list(whole), "joined %r, expected %r", joined, whole)


def run_rr(case, ctx):
    from ipyparallel.client.map import dists

    kind, n, q, dtype, shape, order, dn, salt = case
    if kind not in ("array", "list", "tuple"):
        kind = ("array", "list", "tuple")[salt % 3]
    seq, items = make(kind, n, dtype, shape, order, salt)
    m = dists["r"]()
    ctx.tag(kind)
    ctx.nontrivial(n >= 2 and q >= 2)
    parts = [m.getPartition(seq, p, q) for p in range(q)]
    for p in range(q):
        exp = [items[i] for i in range(n) if i % q == p]
        if kind == "array":
            check(parts[p].tolist() == [e.tolist() if hasattr(e, "tolist") else e for e in exp], "piece %d: %r", p, parts[p])
        else:
            check(list(parts[p]) == exp, "piece %d is %r, expected %r", p, parts[p], exp)
    joined = m.joinPartitions(parts)
    if kind == "array":
        same_array(joined, items, "joined", False)
    else:
        check(joined == list(items), "joined %r, expected %r", joined, items)


CORPUS = [("array", 5, 7, "i8", [2], "F", None, 1), ("dict", 5, 2, "i4", [], "C", None, 1), ("ddict", 5, 2, "i4", [], "C", None, 1)]
SUBS = [
    Sub("partition_join", strategy, run, quick=6000, thorough=200000, weight=3, examples=CORPUS),
    Sub("round_robin", strategy, run_rr, quick=1500, thorough=40000, examples=CORPUS),
]
