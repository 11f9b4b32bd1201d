"""Generator helpers."""
from hypothesis import strategies as st


def _same(x):
    return x


def weighted(*pairs):
    """one_of with weights (hypothesis' own one_of drops repeated strategies)"""
    out = []
    for w, s in pairs:
        out.append(s)
        out.extend(s.map(_make_same()) for _ in range(int(w) - 1))
    return st.one_of(*out)


def _make_same():
    return lambda x: x


def oplist(op, max_size, short=10):
    return st.one_of(st.lists(op, min_size=1, max_size=short), st.lists(op, min_size=min(short, max_size), max_size=max_size))
