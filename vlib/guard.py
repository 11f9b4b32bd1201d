"""Stand-ins for destructive calls: they act only inside scratch directories and on processes this process started."""
import contextlib
import os
import shutil

from vlib.runner import Violation


def _scratch(path):
    p = os.path.abspath(os.fspath(path))
    d = os.path.realpath(os.path.dirname(p))
    return d.startswith(("/tmp/verif-", "/tmp/c2", "/tmp/c3")) or d == "/tmp/verif"


def _ours(pid):
    pid = int(pid)
    if pid <= 1 or pid == os.getpid():
        return False
    try:
        with open("/proc/%i/stat" % pid) as f:
            return int(f.read().rpartition(")")[2].split()[1]) == os.getpid()
    except FileNotFoundError:
        return None
    except ProcessLookupError:
        return None


@contextlib.contextmanager
def contained(log=None):
    """yields a list of refused calls; code under test that makes one gets an error"""
    refused = []
    saved = []

    def patch(mod, name, make):
        old = getattr(mod, name)
        saved.append((mod, name, old))
        setattr(mod, name, make(old))

    def on_path(name):
        def make(old):
            def f(path, *a, **k):
                if isinstance(path, int) or k.get("dir_fd") is not None or _scratch(path):
                    return old(path, *a, **k)
                refused.append((name, str(path)))
                raise PermissionError("refused: %s(%r)" % (name, path))
            return f
        return make

    def on_pid(name):
        def make(old):
            def f(pid, sig):
                ok = _ours(pid)
                if sig == 0 and pid > 0:
                    return old(pid, sig)
                if ok is None:
                    raise ProcessLookupError(3, "No such process")
                if ok:
                    return old(pid, sig)
                refused.append((name, pid))
                raise PermissionError("refused: %s(%r, %r)" % (name, pid, sig))
            return f
        return make

    for n in ("remove", "unlink", "rmdir"):
        patch(os, n, on_path(n))
    patch(shutil, "rmtree", on_path("rmtree"))
    patch(os, "kill", on_pid("kill"))
    patch(os, "killpg", on_pid("killpg"))
    try:
        yield refused
    finally:
        for mod, name, old in reversed(saved):
            setattr(mod, name, old)
    if refused:
        raise Violation("calls outside of the scratch directory or on foreign processes: %r" % (refused,))
