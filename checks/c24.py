"""C24: commands sent over a stand-in for ssh, run by a real shell as a user of its own, against what programs record and a mirror of the file system."""
import ctypes
import json
import os
import random
import re
import shutil
import signal
import stat
import subprocess
import tempfile
import time

from vlib.runner import HarnessError, Skip, Sub, Violation, check, same

PROPERTY = "C24"
RULE = ("cases: a shell (joining its arguments as ssh does, or 'bash -c'), and a history of sending commands (strings, lists, python code and modules), starting processes with arguments, "
        "environment and output files of arbitrary text, asking whether processes run, killing them, and file operations on names of arbitrary text; everything runs for real as an "
        "unprivileged user in a scratch directory, programs record how they were called, files are compared with a mirror. "
        "Non-trivial: an argument, path or variable has characters special to a shell, or a process was queried or killed after another was started")
ASSUMPTIONS = ["POSIX shells only", "the path of python on the remote side is shell text", "text is UTF-8 without carriage returns, file names without surrogates"]
SHARDS = 8
QUICK_S = 28
THOROUGH_S = 300
PY = "/opt/venv/bin/python"
UID = 300000 + os.getpid() % 100000

SSH = """#!/bin/sh
# stand-in for ssh: joins its arguments with spaces, has the user's shell run the result
port=22
while [ $# -gt 0 ]; do
  case "$1" in
    -p) port="$2"; shift 2;;
    -i|-o) shift 2;;
    -*) shift;;
    *) break;;
  esac
done
host="$1"; shift
printf '%%s\\n' "$host:$port" >> %(box)s/hosts
cd "%(home)s/$host:$port" || exit 255
exec env -i HOME="%(home)s/$host:$port" PATH="%(bin)s:/usr/bin:/bin" SHELL=%(shell)s KEEP="kept as is" LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 %(drop)s %(shell)s -c "$*"
"""
LOCAL = """#!/bin/sh
# a local shell, as another user
cd "%(home)s/local:22" || exit 255
exec env -i HOME="%(home)s/local:22" PATH="%(bin)s:/usr/bin:/bin" SHELL=%(shell)s KEEP="kept as is" LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 %(drop)s %(shell)s "$@"
"""
SCP = """#!/bin/sh
# stand-in for scp: host:path is below the host's home
port=22
while [ $# -gt 0 ]; do
  case "$1" in
    -P) port="$2"; shift 2;;
    -*) shift;;
    *) break;;
  esac
done
where() {
  case "$1" in
    /*) printf '%%s' "$1";;
    *:/*) printf '%%s' "${1#*:}";;
    *:*) printf '%%s' "%(home)s/${1%%%%:*}:$port/${1#*:}";;
    *) printf '%%s' "$1";;
  esac
}
a="$(where "$1")"; b="$(where "$2")"
printf '%%s\\n' "$port $1 $2" >> %(box)s/scp-calls
exec %(drop)s cp "$a" "$b"
"""
# records its process id, arguments, environment and directory
REC = """#!/bin/sh
d=%(rec)s
{ printf '%%s\\0' "$@"; } > "$d/argv.$$"
[ $# -gt 0 ] || : > "$d/argv.$$"
/usr/bin/env -0 > "$d/env.$$"
pwd > "$d/cwd.$$"
mv "$d/cwd.$$" "$d/done.$$"
case "$1" in
  sleep) exec /bin/sleep 600;;
  print) shift; printf '%%s' "$*"; printf '%%s' err >&2;;
  fail) exit 7;;
  trap) trap 'echo got > '"$d"'/usr1.$$' USR1; while :; do /bin/sleep 0.02; done;;
esac
"""


class Box:
    def __init__(self, shell, hosts=("local:22",)):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="c24-"))
        d = self.dir
        while d.startswith("/tmp/verif-") or d.startswith("/tmp/c24-"):
            os.chmod(d, 0o711)
            d = os.path.dirname(d)
        self.home = os.path.join(self.dir, "home")
        self.bin = os.path.join(self.dir, "bin")
        self.rec = os.path.join(self.dir, "rec")
        self.hosts = hosts
        self.root = os.geteuid() == 0
        drop = "setpriv --reuid=%i --regid=%i --clear-groups --no-new-privs" % (UID, UID) if self.root else ""
        os.mkdir(self.bin)
        for p in [self.home, self.rec] + [os.path.join(self.home, h) for h in hosts]:
            os.mkdir(p)
            self.own(p)
        v = {"box": self.dir, "home": self.home, "bin": self.bin, "rec": self.rec, "drop": drop, "shell": shell}
        for name, text in [("ssh", SSH), ("sh-as", LOCAL), ("scp", SCP), ("rec", REC), ("rec two", REC), ("r$c'x", REC)]:
            p = os.path.join(self.bin, name)
            with open(p, "w") as f:
                f.write(text % v)
            os.chmod(p, 0o755)
        self.drop = drop.split()

    def own(self, p):
        if self.root:
            os.chown(p, UID, UID)

    def recorded(self, pid, timeout=30):
        """how the process was called: (argv, environment, directory), or None"""
        end = time.monotonic() + timeout
        p = os.path.join(self.rec, "done.%i" % pid)
        while not os.path.exists(p):
            if time.monotonic() > end:
                return None
            time.sleep(0.005)
        rd = lambda n: open(os.path.join(self.rec, "%s.%i" % (n, pid)), "rb").read().decode("utf8", "surrogateescape")
        argv = rd("argv").split("\0")[:-1]
        env = dict(x.partition("=")[::2] for x in rd("env").split("\0") if x)
        return argv, env, rd("done")[:-1]

    def all_recorded(self):
        return sorted(int(x[5:]) for x in os.listdir(self.rec) if x.startswith("done."))

    def close(self):
        if self.root:
            subprocess.run(self.drop + ["/bin/sh", "-c", "kill -9 -1"], capture_output=True)
        else:
            for x in os.listdir(self.rec):
                if x.startswith("argv."):
                    try:
                        os.kill(int(x[5:]), 9)
                    except OSError:
                        pass
        reap()
        assert "/c24-" in self.dir
        shutil.rmtree(self.dir)


_dead = set()


def subreaper():
    if not getattr(subreaper, "done", False):
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
        subreaper.done = True


def reap(pid=None):
    """collect processes that ended (they are adopted by this process)"""
    import multiprocessing  # noqa

    while True:
        try:
            p, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            return
        if p == 0:
            return
        _dead.add(p)


def alive(pid):
    """whether the process exists and has not ended"""
    reap()
    try:
        with open("/proc/%i/stat" % pid) as f:
            return f.read().rpartition(")")[2].split()[0] not in "ZX"
    except (FileNotFoundError, ProcessLookupError):
        return False


def wait_for(f, timeout=20):
    end = time.monotonic() + timeout
    while not f():
        if time.monotonic() > end:
            return False
        time.sleep(0.005)
    return True


SPECIAL = re.compile(r"[^\w./=-]", re.A)
ALPHA = " ab=-'\"\\$`;&|<>*?[]{}()~#!\t\n%,:.@^\u00e9"


def texts(st):
    from vlib.gen import weighted

    return weighted((3, st.sampled_from(["plain", "a b", "it's", '"q"', "$HOME", "`ls`", "a;b", "", "{n}", "*", "\\", "a\nb", "-", "~", "--x='y z'", "%d", "\u00fc", "$(id)", "!!", "a\\nb", "{{}}", "'''", '"""', "&", ">x", "\u65e5", "__remote_pid=1__"])),
                    (2, st.text(ALPHA, max_size=8)))


def names(st):
    from vlib.gen import weighted

    return weighted((2, st.sampled_from(["a", "b", "c d", "it's", "$HOME", "*", "-rf", "~", "{x}", "\u00fc", '"', "a\\b", ";", "..a", "a\nb", "%s", "`x`"])),
                    (1, st.text(ALPHA.replace("/", ""), min_size=1, max_size=6).filter(lambda s: s not in (".", ".."))))


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    t = texts(st)
    name = names(st)
    path = st.tuples(weighted((5, st.just("rel")), (2, st.just("abs")), (1, st.just("dot"))), st.lists(weighted((3, st.sampled_from(["a", "b"])), (2, name)), min_size=1, max_size=3)).map(list)
    envs = st.dictionaries(st.sampled_from(["AA", "B_1", "KEEP", "lower", "IPP_X"]), st.one_of(t, st.none(), st.sampled_from([0, 1, 99, -1, 0.0, False, True])), max_size=3)
    output = st.one_of(st.none(), name)
    op = weighted(
        (4, st.tuples(st.just("start"), weighted((3, st.just("rec")), (1, st.just("rec two")), (1, st.just("r$c'x"))), st.sampled_from(["sleep", "print", "fail", "other", "trap"]), st.lists(t, max_size=4), envs, output)),
        (1, st.tuples(st.just("startstr"), st.sampled_from(["rec", "rec two", "r$c'x"]), envs)),
        (1, st.tuples(st.just("startpy"), st.lists(t, max_size=3), envs, output, st.sampled_from(["exit", "sleep"]))),
        (1, st.tuples(st.just("startmod"), st.lists(t, max_size=3), envs)),
        (1, st.tuples(st.just("badstart"), st.sampled_from(["missing", "dir"]))),
        (3, st.tuples(st.just("running"), st.integers(0, 5))),
        (1, st.tuples(st.just("norunning"), st.integers(0, 5))),
        (3, st.tuples(st.just("kill"), st.integers(0, 5), st.sampled_from([None, 15, 9, 10, 0, 2]))),
        (2, st.tuples(st.just("mkdir"), path)), (2, st.tuples(st.just("rmdir"), path)), (2, st.tuples(st.just("exists"), path)), (2, st.tuples(st.just("remove"), path)),
        (3, st.tuples(st.just("put"), st.sampled_from(["f", "f", "link", "dangling", "linkdir"]), path)),
        (2, st.tuples(st.just("text"), t, st.sampled_from(["printf", "python", "fail"]))),
        (2, st.tuples(st.just("list"), st.sampled_from(["rec", "rec two"]), st.lists(t, max_size=4))),
        (2, st.tuples(st.just("code"), st.lists(t, max_size=3), st.sampled_from(["ok", "raise", "exit"]))),
        (2, st.tuples(st.just("module"), st.lists(t, max_size=4), st.booleans())),
        (1, st.just(("python",))),
    )
    return st.fixed_dictionaries({"kind": weighted((3, st.just("ssh")), (2, st.just("bash")), (1, st.just("shc"))), "shell": st.sampled_from(["/bin/bash", "/bin/sh"]), "code": weighted((5, st.just(True)), (1, st.just(False))),
                                  "ops": st.lists(op, min_size=1, max_size=8)})


MODULE = "import sys, json, os\nprint(json.dumps([sys.argv[1:], os.getcwd()]))\nif os.environ.get('REC_DIR'):\n    pass\n"


def run(case, ctx):
    subreaper()
    box = Box(case["shell"])
    try:
        _run(case, ctx, box)
    finally:
        box.close()


def special(*ss):
    return any(SPECIAL.search(str(s)) or s == "" for s in ss)


def _run(case, ctx, box):
    from ipyparallel.cluster.shellcmd import ShellCommandSend
    from vlib.fakes import quiet_log

    if case["kind"] == "ssh":
        shell, args = [os.path.join(box.bin, "ssh")], ["-p", "22", "local"]
    else:
        shell, args = [os.path.join(box.bin, "sh-as")], ["-c"]
    s = ShellCommandSend(shell, args, PY, send_receiver_code=case["code"], log=quiet_log())
    home = os.path.join(box.home, "local:22")
    mirror = os.path.join(box.dir, "mirror")
    os.mkdir(mirror)
    shells = s.get_shell_info()
    same(shells[1], case["shell"], "the shell")
    if case["shell"] == "/bin/bash":
        same(shells[0], "linux-gnu", "the system")
    same(bool(s.is_powershell), False, "powershell")
    with open(os.path.join(box.bin, "recmod.py"), "w") as f:
        f.write(MODULE)
    procs = []       # (pid, mode)
    outputs = {}     # file -> expected content, once the process ended
    used_outputs = set()

    def tree(top):
        out = {}
        for d, ds, fs in os.walk(top):
            for x in ds + fs:
                p = os.path.join(d, x)
                r = os.path.relpath(p, top)
                if os.path.islink(p):
                    out[r] = ("link", os.readlink(p))
                elif os.path.isdir(p):
                    out[r] = ("dir",)
                else:
                    out[r] = ("file",) if r in used_outputs else ("file", open(p).read())
        return out

    def unchanged(what):
        a, b = tree(home), tree(mirror)
        same(a, b, "%s: files", what)

    def where(path, top):
        kind, parts = path
        rel = os.path.join(*parts)
        if kind == "abs":
            return os.path.join(top, rel)
        return "./" + rel if kind == "dot" else rel

    def failing(f, what):
        try:
            f()
        except subprocess.CalledProcessError:
            return True
        return False

    def base_env(env):
        want = {"HOME": home, "KEEP": "kept as is", "LANG": "C.UTF-8"}
        gone = []
        for k, v in env.items():
            if v is None or v == "":
                want.pop(k, None)
                gone.append(k)
            else:
                want[k] = str(v)
        return want, gone

    def check_env(got, env, what):
        want, gone = base_env(env)
        for k, v in want.items():
            same(got.get(k), v, "%s: variable %s" % (what, k))
        for k in gone:
            check(k not in got, "%s: variable %s is set to %r", what, k, got.get(k))

    def started(pid, argv, env, what):
        check(isinstance(pid, int) and pid > 1, "%s: pid %r", what, pid)
        rec = box.recorded(pid)
        if rec is None:
            check(False, "%s: no program was run as process %r (those that were: %s)", what, pid, box.all_recorded())
        same(rec[0], argv, "%s: arguments of the program" % what)
        check_env(rec[1], env, what)
        same(rec[2], home, "%s: directory" % what)

    def claim_output(f):
        """whether the output file can be used: its place must be free or a file"""
        if f is None:
            return True
        p = os.path.join(mirror, f)
        if os.path.isdir(p) or os.path.islink(p) or f in used_outputs or os.path.exists(p):
            return False
        used_outputs.add(f)
        open(p, "w").close()
        return True

    n_rec = 0
    for op in case["ops"]:
        what = "%s %r" % (case["kind"], op)
        k = op[0]
        before = len(box.all_recorded())
        if k == "start":
            _, prog, mode, rest, env, out = op
            if not claim_output(out):
                continue
            ctx.nontrivial(special(prog, *rest) or special(*[v for v in env.values() if v is not None]))
            argv = ([mode] if mode != "other" else []) + rest
            if mode == "other" and rest and rest[0] in ("sleep", "print", "fail", "trap"):
                continue
            pid = s.cmd_start([os.path.join(box.bin, prog)] + argv, env=dict(env) or None, output_file=out)
            started(pid, argv, env, what)
            same(len(box.all_recorded()), before + 1, "%s: programs run" % what)
            procs.append((pid, mode))
            if mode not in ("sleep", "trap"):
                check(wait_for(lambda: not alive(pid)), "%s: process %i does not end", what, pid)
            else:
                check(alive(pid), "%s: process %i ended", what, pid)
            if out is not None:
                want = {"print": " ".join(rest) + "err"}.get(mode, "")
                same(open(os.path.join(home, out)).read(), want, "%s: content of the output file" % what)
        elif k == "startstr":
            _, prog, env = op
            pid = s.cmd_start(os.path.join(box.bin, prog), env=dict(env))
            started(pid, [], env, what)
            check(wait_for(lambda: not alive(pid)), "%s: process %i does not end", what, pid)
            procs.append((pid, "other"))
        elif k in ("startpy", "startmod"):
            env = op[2]
            rest = op[1]
            out = op[3] if k == "startpy" else None
            if not claim_output(out):
                continue
            ctx.nontrivial(special(*rest))
            # it becomes the recording program, as the same process
            prog = os.path.join(box.bin, "rec")
            sleeps = k == "startpy" and op[4] == "sleep"
            argv = (["sleep"] if sleeps else ["py"]) + rest
            if k == "startpy":
                code = "import os, sys\n# %s\ndef f(x):\n    return os.execv(%r, [%r] + x)\nprint('\u00fc', flush=True)\nif sys.argv[1:] == []:\n    f(%r)\n" % (
                    "".join(c for c in "".join(rest) if c.isprintable()), prog, prog, argv)
                pid = s.cmd_start_python_code(code, env=dict(env) or None, output_file=out)
            else:
                with open(os.path.join(box.bin, "startmod.py"), "w") as f:
                    f.write("import os, sys\nos.environ.pop('PYTHONPATH')\nos.execv(%r, [%r, 'py'] + sys.argv[1:])\n" % (prog, prog))
                e = dict(env)
                e["PYTHONPATH"] = box.bin
                pid = s.cmd_start_python_module(["startmod"] + rest, env=e)
            started(pid, argv, env, what)
            procs.append((pid, "sleep" if sleeps else "other"))
            if not sleeps:
                check(wait_for(lambda: not alive(pid)), "%s: process %i does not end", what, pid)
            if out is not None:
                same(open(os.path.join(home, out)).read(), "\u00fc\n", "%s: content of the output file" % what)
        elif k == "badstart":
            cmd = os.path.join(box.bin, "no such program") if op[1] == "missing" else home
            try:
                got = s.cmd_start([cmd, "x"])
            except (subprocess.CalledProcessError, RuntimeError):
                pass
            else:
                check(False, "%s: started %r as process %r", what, cmd, got)
        elif k == "running":
            if not procs:
                continue
            pid, mode = procs[op[1] % len(procs)]
            ctx.nontrivial(len(procs) > 1)
            a = alive(pid)
            same(s.cmd_running(pid), a, "%s: process %i (%s)" % (what, pid, mode))
        elif k == "norunning":
            # a process id that nobody has
            pid = 4194000 + op[1]
            if os.path.exists("/proc/%i" % pid):
                continue
            same(s.cmd_running(pid), False, what)
        elif k == "kill":
            if not procs:
                continue
            i = op[1] % len(procs)
            pid, mode = procs[i]
            sig = op[2]
            others = [(p, alive(p)) for p, m in procs if p != pid]
            was = alive(pid)
            ctx.nontrivial(len(procs) > 1)
            kill = lambda: s.cmd_kill(pid) if sig is None else s.cmd_kill(pid, sig)
            if not was:
                failing(kill, what)
            else:
                kill()
                if mode == "trap" and sig == 10:
                    check(wait_for(lambda: os.path.exists(os.path.join(box.rec, "usr1.%i" % pid))), "%s: process %i did not get the signal", what, pid)
                    check(alive(pid), "%s: process %i ended", what, pid)
                elif sig == 0:
                    time.sleep(0.03)
                    check(alive(pid), "%s: process %i ended", what, pid)
                else:
                    check(wait_for(lambda: not alive(pid)), "%s: process %i does not end", what, pid)
            same([(p, alive(p)) for p, a in others], others, "%s: other processes running" % what)
        elif k in ("mkdir", "rmdir", "remove", "exists"):
            ctx.nontrivial(special(*op[1][1]))
            there, here = where(op[1], home), os.path.join(mirror, os.path.join(*op[1][1]))
            if any(os.path.join(*op[1][1]).startswith(f) for f in used_outputs):
                continue
            if k == "exists":
                same(s.cmd_exists(there), os.path.exists(here), what)
                continue
            ok = True
            try:
                {"mkdir": lambda p: os.makedirs(p, exist_ok=True), "rmdir": shutil.rmtree, "remove": os.remove}[k](here)
            except OSError as e:
                ok = False
            failed = failing(lambda: getattr(s, "cmd_" + k)(there), what)
            same(failed, not ok, "%s: failed" % what)
            unchanged(what)
        elif k == "put":
            rel = os.path.join(*op[2][1])
            for top in (home, mirror):
                p = os.path.join(top, rel)
                if os.path.lexists(p) or not os.path.isdir(os.path.dirname(p)) or os.path.realpath(os.path.dirname(p)) != os.path.dirname(p):
                    break
                if op[1] == "f":
                    with open(p, "w") as f:
                        f.write("x")
                else:
                    os.symlink({"link": "a", "dangling": "nowhere", "linkdir": "b"}[op[1]], p)
                if box.root:
                    os.chown(p, UID, UID, follow_symlinks=False)
        elif k == "text":
            t = op[1]
            ctx.nontrivial(special(t))
            import shlex

            q = "'" + t.replace("'", "'\\''") + "'"
            if op[2] == "printf":
                same(s.check_output("printf '<%s>' " + q), "<" + t + ">", what)
            elif op[2] == "python":
                same(s.check_output("X=" + q + " && export X && " + PY + " -c 'import os; print(os.environ[\"X\"])' | cat"), t + "\n", what)
            else:
                try:
                    s.check_output("printf %s " + q + "; exit 3")
                except subprocess.CalledProcessError as e:
                    same((e.returncode, e.output), (3, t), what)
                else:
                    check(False, "%s: no error", what)
        elif k == "list":
            rest = op[2]
            ctx.nontrivial(special(*rest))
            got = s.check_output([os.path.join(box.bin, op[1]), "print"] + rest, stderr=subprocess.DEVNULL)
            same(got, " ".join(rest), "%s: output" % what)
            now = box.all_recorded()
            same(len(now), before + 1, "%s: programs run" % what)
            match = [p for p in now if box.recorded(p)[0] == ["print"] + rest]
            check(match, "%s: arguments of the program: %s", what, [box.recorded(p)[0] for p in now])
        elif k == "code":
            ctx.nontrivial(special(*op[1]))
            code = "import os, json\nx = %r\nprint(json.dumps([x, os.getcwd(), __name__]))\n" % (op[1],) + {"ok": "", "raise": "raise ValueError(1)", "exit": "import sys; sys.exit(4)"}[op[2]]
            try:
                got = s.check_output_python_code(code, stderr=subprocess.DEVNULL)
                rc = 0
            except subprocess.CalledProcessError as e:
                got, rc = e.output, e.returncode
            same(json.loads(got), [op[1], home, "__main__"], "%s: output" % what)
            same(rc, {"ok": 0, "raise": 1, "exit": 4}[op[2]], "%s: exit status" % what)
        elif k == "module":
            ctx.nontrivial(special(*op[1]))
            with open(os.path.join(home, "recmod.py"), "w") as f:
                f.write(MODULE)
            try:
                if op[2] and not op[1]:
                    got = s.check_output_python_module("recmod")
                else:
                    got = s.check_output_python_module(["recmod"] + op[1])
            finally:
                os.remove(os.path.join(home, "recmod.py"))
            same(json.loads(got), [op[1], home], "%s: output" % what)
        elif k == "python":
            same(s.has_python(), True, what)
            same(s.has_python(os.path.join(box.bin, "no-such-python")), False, what)
    unchanged("at the end")


SUBS = [Sub("commands", strategy, run, quick=600, thorough=6000)]
