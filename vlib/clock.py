"""Deterministic virtual time: replaces time.time for this process."""
import time as _t

real_time = _t.time
_now = [1.7e9]


def virtual_time():
    _now[0] += 1e-6
    return _now[0]


def install():
    _t.time = virtual_time


def uninstall():
    _t.time = real_time


def advance_to(t):
    if t > _now[0]:
        _now[0] = t


def now():
    return _now[0]
