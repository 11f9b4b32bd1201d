"""entry points are read from disk once, not again for each launcher class that is looked up"""
import importlib.metadata
import types

_real = importlib.metadata.distributions
_known = []


def _distributions(**kw):
    if kw:
        return _real(**kw)
    if not _known:
        for d in _real():
            eps = d.entry_points
            if eps:
                _known.append(types.SimpleNamespace(_normalized_name=d._normalized_name, entry_points=eps))
    return _known


def cache():
    importlib.metadata.distributions = _distributions
