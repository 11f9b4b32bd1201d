"""C28: batch scripts against a rendering of their own, run by a real shell; submit and delete commands that are recorded."""
import json
import os
import re
import shutil
import stat
import subprocess
import tempfile

from vlib.runner import HarnessError, Skip, Sub, Violation, check, same

PROPERTY = "C28"
RULE = ("cases: a batch system, a role, settings (queue, output file, account, quality of service, time limit, number of engines, variables), a template (the default, a user's, "
        "one in a file, one of a subclass with some directives already there), program and arguments of arbitrary text, and a history of submitting, restoring, signalling and "
        "stopping jobs with commands that record how they were called; the script is compared with an independent rendering and run by /bin/sh. "
        "Non-trivial: an argument needs quoting, or the template is not the default, or a directive was configured")
ASSUMPTIONS = ["templates have at least two lines", "HTCondor has quoting rules of its own: arguments there are plain words", "settings are made before the first start"]
SHARDS = 6
QUICK_S = 25
THOROUGH_S = 300

SYSTEMS = ["PBS", "Slurm", "SGE", "LSF", "HTCondor"]
PREFIX = {"PBS": "#PBS", "Slurm": "#SBATCH", "SGE": "#$", "LSF": "#BSUB", "HTCondor": None}
QUEUE = {"PBS": "#PBS -q %s", "Slurm": "#SBATCH --partition=%s", "SGE": "#$ -q %s", "LSF": "#BSUB -q %s"}
ARRAY = {"PBS": "#PBS -t 1-%s", "Slurm": "#SBATCH --ntasks=%s", "SGE": "#$ -t 1-%s", "LSF": "#BSUB -J ipengine[1-%s]", "HTCondor": "queue %s"}
OUTPUT = {"PBS": ["#PBS -j oe", "#PBS -o %s"], "SGE": ["#$ -j y", "#$ -o %s"], "Slurm": ["#SBATCH --output=%s"], "LSF": ["#BSUB -o %s", "#BSUB -e %s"]}
SUBMITTED = {"PBS": "%s.server.example\n", "Slurm": "Submitted batch job %s\n", "SGE": 'Your job %s ("ipengine") has been submitted\n',
             "LSF": "Job <%s> is submitted to default queue <normal>.\n", "HTCondor": "Submitting job(s)...\n3 job(s) submitted to cluster %s.\n"}
ALPHA = " ab=-'\"\\$`;&|<>*?[]{}()~#!\t\n%,:.@^\u00e9"


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    arg = weighted((3, st.sampled_from(["--debug", "--log-level=10", "a b", "it's", '"q"', "$HOME", "`ls`", "a;b", "", "{n}", "{}", "*", "\\", "a\nb", "-", "~", "--x='y z'", "%d", "\u00fc"])),
                   (2, st.text(ALPHA, max_size=8)))
    name = st.sampled_from(["short", "very_short.q", "gpu-1", "Q7", "a,b"])
    line = st.sampled_from(["n", "expr", "div", "queue", "profile", "cluster", "output", "braces", "var", "literal", "env", "slurm", "percent", "dollar", "spec", "method"])
    template = st.one_of(st.none(), st.tuples(st.sampled_from(["string", "file"]), st.lists(line, max_size=5), st.sampled_from(["prog", "split", "both", "none"])),
                         st.none(), st.tuples(st.just("sub"), st.lists(st.sampled_from(["queue", "queuelit", "array", "arraylit", "output", "outputlit"]), max_size=3, unique_by=lambda x: x[:5])))
    op = weighted((3, st.tuples(st.just("start"), st.integers(1, 300), st.integers(1, 99999))), (2, st.just(("stop",))), (2, st.tuples(st.just("signal"), st.sampled_from([2, 15, "KILL"]))),
                  (2, st.just(("restore",))), (1, st.tuples(st.just("badstart"), st.sampled_from(["", "error: no such queue\n", "qsub: denied"]))), (1, st.just(("failstart",))),
                  (1, st.tuples(st.just("output"), st.sampled_from(["text\n", "\u00fc\n", "bytes"]))))
    return st.fixed_dictionaries({
        "system": st.sampled_from(SYSTEMS), "role": st.sampled_from(["controller", "engines"]), "queue": st.one_of(st.just(""), name),
        "output": st.one_of(st.none(), st.just(""), st.sampled_from(["out.log", "sub dir/out.log", "/tmp-not-used/x.log"])), "n": st.integers(1, 300),
        "account": st.one_of(st.just(""), name), "qos": st.one_of(st.just(""), name), "timelimit": st.sampled_from(["", "", 30, "1:00:00"]), "options": st.sampled_from(["", "", "--mem=4G", "--exclusive --x=y"]),
        "how": st.sampled_from(["config", "attr", "kw"]), "program": st.lists(arg, max_size=2), "args": st.lists(arg, max_size=4), "late": st.booleans(),
        "template": template, "cluster_id": st.sampled_from(["", "c-1", "x y"]), "env": st.dictionaries(st.sampled_from(["AA", "BB"]), st.sampled_from(["1", "x y", "\u00e9\"'"]), max_size=2),
        "regexp": st.sampled_from([None, None, None, (r"id=(\w+)", 1), (r"job-\w+", 0)]), "submit_extra": st.lists(st.sampled_from(["--opt", "a b", "$x"]), max_size=2),
        "ops": st.lists(op, min_size=1, max_size=6), "workdir": st.sampled_from(["w", "w d", "w'$x\""])})


STUB = """#!/bin/sh
# records how it was called
d=%s
i=0
while [ -e "$d/call.$i" ]; do i=$((i+1)); done
printf '%%s\\0' "$0" "$@" > "$d/call.$i"
/usr/bin/env -0 > "$d/env.$i"
if [ -e "$d/read-stdin" ]; then cat > "$d/stdin.$i"; fi
if [ -e "$d/fail" ]; then exit 3; fi
cat "$d/answer"
"""


class Box:
    def __init__(self, names):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="c28-"))
        self.bin = os.path.join(self.dir, "bin")
        os.mkdir(self.bin)
        for n in names:
            d = os.path.join(self.dir, "calls-" + n)
            os.mkdir(d)
            p = os.path.join(self.bin, n)
            with open(p, "w") as f:
                f.write(STUB % d)
            os.chmod(p, 0o755)
        self.seen = {n: 0 for n in names}

    def path(self, name):
        return os.path.join(self.bin, name)

    def answer(self, name, text):
        with open(os.path.join(self.dir, "calls-" + name, "answer"), "w") as f:
            f.write(text)

    def flag(self, name, flag, on=True):
        p = os.path.join(self.dir, "calls-" + name, flag)
        if on:
            open(p, "w").close()
        elif os.path.exists(p):
            os.remove(p)

    def calls(self, name):
        """new calls: (argv without the name, environment, stdin)"""
        d = os.path.join(self.dir, "calls-" + name)
        out = []
        while os.path.exists(os.path.join(d, "call.%i" % self.seen[name])):
            i = self.seen[name]
            self.seen[name] += 1
            argv = open(os.path.join(d, "call.%i" % i), "rb").read().decode("utf8", "surrogateescape").split("\0")[1:-1]
            env = dict(x.partition("=")[::2] for x in open(os.path.join(d, "env.%i" % i), "rb").read().decode("utf8", "surrogateescape").split("\0") if x)
            p = os.path.join(d, "stdin.%i" % i)
            stdin = open(p, "rb").read().decode("utf8") if os.path.exists(p) else None
            out.append((argv, env, stdin))
        return out


def run(case, ctx):
    import asyncio

    box = Box(["submit", "delete", "signal", "srun"])
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    here = os.getcwd()
    try:
        os.chdir(box.dir)
        _run(case, ctx, box)
    finally:
        os.chdir(here)
        asyncio.set_event_loop(None)
        loop.close()
        assert "/c28-" in box.dir
        shutil.rmtree(box.dir)


def _run(case, ctx, box):
    import shlex

    from traitlets.config import Config

    from ipyparallel.cluster import launcher as mod
    from vlib.fakes import quiet_log

    system, role = case["system"], case["role"]
    name = {"PBS": "PBS", "Slurm": "Slurm", "SGE": "SGE", "LSF": "LSF", "HTCondor": "HTCondor"}[system] + ("ControllerLauncher" if role == "controller" else "EngineSetLauncher")
    base = getattr(mod, name)
    condor = system == "HTCondor"
    word = lambda s: re.sub(r"[^\w.=-]", "", s, flags=re.A)
    program_words = [a for a in case["program"]] if not condor else [word(a) for a in case["program"]]
    args = [a for a in case["args"]] if not condor else [word(a) for a in case["args"]]
    args = [a for a in args if a] if condor else args
    # the program records its arguments
    prog = [box.path("submit")] + program_words
    if not condor and any(shlex.quote(a) != a for a in args + program_words):
        ctx.nontrivial()
    work = os.path.join(box.dir, case["workdir"])
    profile = os.path.join(box.dir, "profile")
    os.mkdir(work)
    os.mkdir(profile)
    out = case["output"]
    queue = case["queue"]
    slurm = system == "Slurm"
    settings = {"queue": queue}
    if out is not None:
        settings["output_file"] = out
    if slurm:
        for k in ("account", "qos", "timelimit", "options"):
            settings[k] = case[k]
    cls = base
    template = case["template"]
    ns = {"walltime": "00:10:00", "count": 4}
    # -- the template
    prefix = PREFIX[system] or "#"
    user = None
    if template is not None:
        ctx.nontrivial()
    if template is not None and template[0] in ("string", "file"):
        lines, shown = ["#!/bin/sh"], ["#!/bin/sh"]
        final_out = out if out is not None else None

        def add(a, b):
            lines.append(a)
            shown.append(b)
        for k in template[1]:
            if k == "n":
                add(prefix + " -x 1-{n}", prefix + " -x 1-%(n)s")
            elif k == "expr":
                add(prefix + " {n * 2 + count}", prefix + " %(n2)s")
            elif k == "div":
                add(prefix + " nodes={n//4}:ppn=4", prefix + " nodes=%(n4)s:ppn=4")
            elif k == "queue":
                add(prefix + " -q {queue}", prefix + " -q %(queue)s")
            elif k == "profile":
                add("# {profile_dir}", "# %(profile_dir)s")
            elif k == "cluster":
                add("# <{cluster_id}>", "# <%(cluster_id)s>")
            elif k == "output":
                add("# {output_file}", "# %(output_file)s")
            elif k == "braces":
                add("# {{n}} ${{HOME}}", "# {n} ${HOME}")
            elif k == "var":
                add("# {walltime}", "# 00:10:00")
            elif k == "literal":
                add("# a 'quoted' \"line\" \\ $x %d \u00fc", "# a 'quoted' \"line\" \\ $x %%d \u00fc")
            elif k == "env":
                add("# {environment_json}", "# %(env)s")
            elif k == "slurm":
                if slurm:
                    add("# {account} {qos} {timelimit} {options}", "# %(account)s %(qos)s %(timelimit)s %(options)s")
            elif k == "percent":
                add("# 100%", "# 100%%")
            elif k == "dollar":
                add("# $PBS_O_WORKDIR", "# $PBS_O_WORKDIR")
            elif k == "spec":
                add("# {n:05d} {queue!r}", "# %(n5)s %(rqueue)s")
            elif k == "method":
                add("# {queue.upper()}", "# %(upper)s")
        cmd = {"prog": "{program_and_args}", "split": "{program} {program_args}", "both": "{program_and_args}\n{program_and_args}", "none": "true"}[template[2]]
        user = ("\n".join(lines) + "\n" + cmd + "\n# end", "\n".join(shown) + "\n", template[2])
        if template[0] == "string":
            settings["batch_template"] = user[0]
        else:
            p = os.path.join(box.dir, "user.template")
            with open(p, "w", encoding="utf8") as f:
                f.write(user[0])
            settings["batch_template_file"] = p
    have = []
    if template is not None and template[0] == "sub" and not condor:
        have = [h for h in template[1]]
        extra = []
        for h in have:
            if h == "queue":
                extra.append(QUEUE[system] % "{queue}")
            elif h == "queuelit":
                extra.append(QUEUE[system] % "fixed")
            elif h == "array":
                extra.append(ARRAY[system] % "{n}")
            elif h == "arraylit":
                extra.append(ARRAY[system] % "8")
            elif h == "output":
                extra.append(OUTPUT[system][-1] % "{output_file}" if system != "LSF" else OUTPUT[system][0] % "{output_file}")
            elif h == "outputlit":
                extra.append(OUTPUT[system][-1] % "/x/y.log" if system != "LSF" else OUTPUT[system][0] % "/x/y.log")

        class Sub_(base):
            pass
        first, _, rest = base.class_traits()["default_template"].default_value.partition("\n")
        import traitlets

        Sub_ = type(base.__name__, (base,), {"default_template": traitlets.Unicode("\n".join([first] + extra) + "\n" + rest)})
        cls = Sub_
    # -- commands
    submit = [box.path("submit")] + list(case["submit_extra"])
    cmds = {"submit_command": submit, "delete_command": [box.path("delete"), "-d"], "signal_command": [box.path("signal"), "-s"]}
    regexp = case["regexp"]
    if regexp:
        cmds["job_id_regexp"], cmds["job_id_regexp_group"] = regexp
    if system == "LSF":
        box.flag("submit", "read-stdin")
    env = dict(case["env"])

    def make(restore=None):
        cfg = Config()
        sec = cfg[name]
        for k, v in cmds.items():
            sec[k] = v
        sec["environment"] = dict(env)
        sec["namespace"] = dict(ns)
        which = "controller" if role == "controller" else "engine"
        if not case["late"] or restore is not None:
            sec[which + "_cmd"] = list(prog)
            sec[which + "_args"] = list(args)
        kw = dict(work_dir=work, config=cfg, log=quiet_log())
        if restore is None:
            kw.update(profile_dir=profile, cluster_id=case["cluster_id"])
        if case["how"] == "config":
            for k, v in settings.items():
                sec[k] = v
        elif case["how"] == "kw" and restore is None:
            kw.update(settings)
        if restore is not None:
            l = cls.from_dict(restore, **kw)
            if case["how"] != "config":
                # these are not part of the saved state: they come from the configuration
                for k in ("account", "qos", "timelimit", "options", "batch_template_file"):
                    if k in settings:
                        setattr(l, k, settings[k])
            return l
        l = cls(**kw)
        if case["how"] == "attr":
            for k, v in settings.items():
                setattr(l, k, v)
        if case["late"]:
            setattr(l, which + "_cmd", list(prog))
            setattr(l, which + "_args", list(args))
        return l

    if queue or (slurm and (case["account"] or case["qos"] or case["timelimit"])):
        ctx.nontrivial()
    l = make()
    started = 0
    job = None
    running = False
    what = "%s of %s" % (name, "the default template" if template is None else template)
    check(os.path.dirname(l.batch_file) == work, "%s: batch file %r is not in %r", what, l.batch_file, work)

    def script(n):
        n = 1 if role == "controller" else n
        text = open(l.batch_file, encoding="utf8").read()
        mode = os.stat(l.batch_file).st_mode
        check(mode & stat.S_IXUSR and mode & stat.S_IRUSR, "%s: mode of the script: %o", what, mode)
        outf = out if out is not None else l.output_file
        if out is None:
            check(outf.startswith(os.path.join(profile, "log") + os.sep), "%s: default output file %r", what, outf)
        full_env = {"IPP_CLUSTER_ID": case["cluster_id"], "IPP_PROFILE_DIR": profile}
        full_env.update(env)
        if system == "LSF" and role == "engines":
            full_env["LSB_STDOUT_DIRECT"] = "Y"
        if user:
            body, _, rest = text.rpartition("\n# end")
            same(rest, "", "%s: what follows the script" % what)
            m = re.search(r"^# (\{.*\})$", text, re.M) if "{environment_json}" in user[0] else None
            envs = "?"
            if "{environment_json}" in user[0]:
                for line in text.split("\n"):
                    if line.startswith("# {\""):
                        envs = line[2:]
                same(json.loads(envs), full_env, "%s: environment_json" % what)
            want = user[1] % {"n": n, "n2": n * 2 + 4, "n4": n // 4, "queue": queue, "profile_dir": profile, "cluster_id": case["cluster_id"], "output_file": outf, "env": envs,
                              "n5": "%05d" % n, "rqueue": repr(queue), "upper": queue.upper(), "account": case["account"], "qos": case["qos"], "timelimit": case["timelimit"], "options": case["options"]}
            check(body.startswith(want), "%s: script\n%s\ndoes not begin with\n%s", what, text, want)
            shown = body[len(want):]
            n_prog = {"prog": 1, "split": 1, "both": 2, "none": 0}[user[2]]
            if condor:
                for w in ([prog[0]] + args if user[2] != "none" else []):
                    check(w in shown, "%s: %r is not in the script\n%s", what, w, text)
                return
        else:
            lines = text.split("\n")
            # the lines of the default template
            dt = l.default_template if not isinstance(l.default_template, bytes) else None
            n_prog = 1
            dirs = [x.strip() for x in lines if (x.strip().startswith(prefix) and prefix != "#" and not x.startswith("#!")) or condor and x.strip().startswith("queue")]
            want = []
            for x in dt.split("\n"):
                x = x.strip()
                if prefix != "#" and x.startswith(prefix):
                    x = x.replace("{cluster_id}", case["cluster_id"]).replace("{n}", str(n)).replace("{queue}", queue).replace("{output_file}", outf)
                    want.append(x.strip())
            if queue and not condor and not any(h.startswith("queue") for h in have):
                want.append(QUEUE[system] % queue)
            ntasks_there = slurm and role == "controller"
            if not any(h.startswith("array") for h in have) and not ntasks_there:
                want.append(ARRAY[system] % n)
            if outf and not condor and not any(h.startswith("output") for h in have):
                want += [x.replace("%s", outf) for x in OUTPUT[system]]
            if slurm:
                for k, t in (("account", "--account=%s"), ("qos", "--qos=%s"), ("timelimit", "--time=%s"), ("options", "%s")):
                    if case[k]:
                        want.append("#SBATCH " + t % case[k])
            same(sorted(dirs), sorted(want), "%s: directives (queue %r, output %r)" % (what, queue, outf))
            first = dt.split("\n")[0]
            same(lines[0], first.replace("{cluster_id}", case["cluster_id"]), "%s: first line" % what)
            if not condor:
                # directives come before the first command
                cmd_at = [i for i, x in enumerate(lines) if x.strip() and not x.strip().startswith("#")]
                last = max([i for i, x in enumerate(lines) if x.strip() in want] or [0])
                check(cmd_at and last < cmd_at[0], "%s: directives after the command in\n%s", what, text)
            else:
                same([x for x in lines if x.strip()][-1], "queue %i" % n, "%s: last line" % what)
                m = re.search(r'^arguments[ ]*=[ ]*(.*)$', text, re.M)
                check(m, "%s: no arguments in\n%s", what, text)
                v = m.group(1).strip()
                if v.startswith('"'):
                    v = v[1:-1]
                same(v.split(), args, "%s: arguments" % what)
                return
        # run it
        box.answer("submit", "")
        box.answer("srun", "")
        box.flag("submit", "read-stdin", False)
        box.flag("submit", "fail", False)
        scratch = os.path.join(box.dir, "run")
        os.makedirs(scratch, exist_ok=True)
        r = subprocess.run(["/bin/sh", l.batch_file], cwd=scratch, env={"PATH": box.bin + ":/usr/bin:/bin", "HOME": "/nonexistent"}, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        check(r.returncode == 0 and not r.stderr, "%s: the script fails with %r:\n%s", what, r.stderr[-300:], text)
        if slurm and not user:
            stub = "srun" if role == "engines" else "submit"
        else:
            stub = "submit"
        calls = box.calls(stub)
        want = program_words + args
        if stub == "srun":
            want = [box.path("submit")] + want
        same([c[0] for c in calls], [want] * n_prog, "%s: programs run by\n%s\n" % (what, text))
        check(not os.listdir(scratch), "%s: the script made files %r", what, os.listdir(scratch))
        if system == "LSF":
            box.flag("submit", "read-stdin")

    for op in case["ops"]:
        if op[0] in ("start", "badstart", "failstart"):
            n = op[1] if op[0] == "start" else 2
            box.flag("submit", "fail", op[0] == "failstart")
            if op[0] == "start":
                ident = str(op[2])
                text = SUBMITTED[system] % ident
                if regexp:
                    text = "accepted 55 id=j%s job-x%s\n" % (ident, ident)
                    ident = ("j" + ident) if regexp[1] else "job-x" + ident
            else:
                text = op[1] if op[0] == "badstart" else ""
            box.answer("submit", text)
            before = l.job_id, l.state
            try:
                got = l.start(n) if role == "engines" else l.start()
            except (mod.LauncherError, subprocess.CalledProcessError) as e:
                check(op[0] != "start", "%s: start failed: %r", what, e)
                same(l.job_id, before[0], "%s: job id after a failed start" % what)
                same(l.state, before[1], "%s: state after a failed start" % what)
                box.calls("submit")
                continue
            check(op[0] == "start", "%s: start gave %r although submitting failed", what, got)
            same((got, l.job_id, l.state), (ident, ident, "running"), "%s: id of the job (submit says %r)" % (what, text))
            job, running = ident, True
            calls = box.calls("submit")
            same(len(calls), 1, "%s: submit commands" % what)
            argv, seen_env, stdin = calls[0]
            if system == "LSF":
                same(argv, submit[1:], "%s: arguments of the submit command" % what)
                same(stdin, open(l.batch_file, encoding="utf8").read(), "%s: input of the submit command" % what)
            else:
                same(argv, submit[1:] + [l.batch_file], "%s: arguments of the submit command" % what)
            for k, v in [("IPP_CLUSTER_ID", case["cluster_id"]), ("IPP_PROFILE_DIR", profile)] + sorted(env.items()):
                same(seen_env.get(k), v, "%s: %s in the environment of the submit command" % (what, k))
            script(n)
            started += 1
        elif op[0] == "stop":
            if not running:
                continue
            box.answer("delete", "deleted\n")
            stopped = []
            l.on_stop(stopped.append)
            l.stop()
            same([c[0] for c in box.calls("delete")], [["-d", job]], "%s: arguments of the delete command" % what)
            same(len(stopped), 1, "%s: notifications of the stop" % what)
            same(l.state, "after", "%s: state after stop" % what)
            running = False
            break
        elif op[0] == "signal":
            if not running:
                continue
            box.answer("signal", "")
            l.signal(op[1])
            same([c[0] for c in box.calls("signal")], [["-s", str(op[1]), job]], "%s: arguments of the signal command" % what)
        elif op[0] == "restore":
            d = json.loads(json.dumps(l.to_dict()))
            l2 = make(restore=d)
            same((l2.job_id, l2.state, l2.queue, l2.n, l2.cluster_id, l2.profile_dir, l2.output_file), (l.job_id, l.state, l.queue, l.n, l.cluster_id, l.profile_dir, l.output_file),
                 "%s: the restored launcher" % what)
            if out is None:
                out = l2.output_file
            l = l2
        elif op[0] == "output":
            f = l.output_file
            if not f or os.path.isabs(f) and not f.startswith(box.dir):
                continue
            f = os.path.join(box.dir, f)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as fh:
                fh.write(b"\xff\xfe\x80 raw\n" if op[1] == "bytes" else op[1].encode("utf8"))


# 2: Windows HPC job files ------------------------------------------------------------------------

XMLNS = "{http://schemas.microsoft.com/HPCS2008/scheduler/}"
JOB = {"min_cores": "MinCores", "max_cores": "MaxCores", "min_sockets": "MinSockets", "max_sockets": "MaxSockets", "min_nodes": "MinNodes", "max_nodes": "MaxNodes", "unit_type": "UnitType",
       "auto_calculate_min": "AutoCalculateMin", "auto_calculate_max": "AutoCalculateMax", "run_until_canceled": "RunUntilCanceled", "is_exclusive": "IsExclusive", "username": "UserName",
       "job_type": "JobType", "priority": "Priority", "requested_nodes": "RequestedNodes", "project": "Project"}


def winhpc_strategy():
    from hypothesis import strategies as st

    text = st.one_of(st.sampled_from(["", "HEAD\\me", "a b", "node1,node2", "A_B_C", "x_Y_z", "_A_", "<&>\"'", "\u00fc", "\u4e2d", "it's"]), st.text("aB_ <&\"'\u00fc=", max_size=6))
    num, flag = st.integers(0, 9), st.booleans()
    job = st.fixed_dictionaries({}, optional={"min_cores": num, "max_cores": num, "min_sockets": num, "max_sockets": num, "min_nodes": num, "max_nodes": num, "unit_type": st.sampled_from(["Core", "Node", "Socket"]),
                                              "auto_calculate_min": flag, "auto_calculate_max": flag, "run_until_canceled": flag, "is_exclusive": flag, "username": text, "job_type": text,
                                              "priority": st.sampled_from(["Lowest", "Normal", "Highest"]), "requested_nodes": text, "project": text})
    arg = st.one_of(st.sampled_from(["--debug", "--log-level=10", "--x=A_B_C", "-k", "_Q_", "\u00fc"]), st.text("ab_AB-=<&", min_size=1, max_size=6))
    op = st.one_of(st.tuples(st.just("start"), st.integers(1, 6), st.integers(1, 99999)), st.just(("stop",)), st.tuples(st.just("refused"), st.sampled_from(["", "denied\n"])))
    return st.fixed_dictionaries({"role": st.sampled_from(["controller", "engines"]), "job": job, "env": st.dictionaries(st.sampled_from(["AA", "B_C_D"]), st.sampled_from(["1", "x_Y_z", "<&>", "\u00fc", " "]), max_size=2),
                                  "cmd": st.one_of(st.none(), st.lists(arg, min_size=1, max_size=2)), "own": st.one_of(st.none(), st.lists(arg, max_size=2)), "args": st.lists(arg, max_size=3),
                                  "profile": st.sampled_from(["profile_default", "profile_X_y", "p \u00fc", "A_B_C"]), "cluster_id": st.sampled_from(["", "c-1", "c_D_e"]),
                                  "scheduler": st.sampled_from(["", "HEADNODE", "h_A_b"]), "workdir": st.sampled_from(["w", "w_X_y d"]), "locale": st.sampled_from(["utf8", "other"]), "ops": st.lists(op, min_size=1, max_size=5)})


def winhpc_run(case, ctx):
    import asyncio
    import builtins
    from unittest import mock

    box = Box(["job"])
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    here = os.getcwd()
    real = builtins.open

    def other(file, mode="r", buffering=-1, encoding=None, *a, **k):
        # (where the encoding of files is not utf-8 unless asked for)
        if "b" not in mode and encoding is None:
            encoding = "utf-16"
        return real(file, mode, buffering, encoding, *a, **k)
    try:
        os.chdir(box.dir)
        loop.run_until_complete(_winhpc(case, ctx, box, lambda: mock.patch.object(builtins, "open", other if case["locale"] == "other" else real)))
    finally:
        os.chdir(here)
        asyncio.set_event_loop(None)
        loop.close()
        assert "/c28-" in box.dir
        shutil.rmtree(box.dir)


async def _winhpc(case, ctx, box, locale):
    import inspect
    from xml.etree import ElementTree as ET

    from traitlets.config import Config

    from ipyparallel.cluster import launcher as mod
    from vlib.fakes import quiet_log

    engines = case["role"] == "engines"
    cls = mod.WindowsHPCEngineSetLauncher if engines else mod.WindowsHPCControllerLauncher
    who = "engine" if engines else "controller"
    work = os.path.join(box.dir, case["workdir"])
    profile = os.path.join(box.dir, case["profile"])
    os.makedirs(work)
    os.makedirs(profile)
    c = Config()
    kind = "IPEngineSet" if engines else "IPController"
    for k, v in case["job"].items():
        c[kind + "Job"][k] = v
    task = c["IPEngineTask" if engines else "IPControllerTask"]
    if case["env"]:
        task.environment_variables = dict(case["env"])
    if case["cmd"] is not None:
        task[who + "_cmd"] = list(case["cmd"])
    if case["own"] is not None:
        task[who + "_args"] = list(case["own"])
    l = cls(config=c, log=quiet_log(), work_dir=work, profile_dir=profile, cluster_id=case["cluster_id"], scheduler=case["scheduler"], job_cmd=box.path("job"), **{who + "_args": list(case["args"])})
    started, stopped = [], []
    l.on_stop(stopped.append)
    job = None
    for i, op in enumerate(case["ops"]):
        what = "step %i %r" % (i, op)
        if op[0] in ("start", "refused"):
            if l.state == "running":
                continue
            if l.state == "after":
                break
            n = op[1] if op[0] == "start" and engines else 1
            box.answer("job", "Job has been submitted. ID: %i.\r\n" % op[2] if op[0] == "start" else op[1])
            try:
                with locale():
                    r = l.start(n) if engines else l.start()
                    if inspect.isawaitable(r):
                        await r
            except Exception as e:
                check(op[0] == "refused", "%s: failed: %r", what, e)
                box.calls("job")
                continue
            check(op[0] == "start", "%s: started although nothing was submitted", what)
            job = str(op[2])
            calls = box.calls("job")
            same(len(calls), 1, "%s: calls of the job command" % what)
            argv = calls[0][0]
            same([a for a in argv if not a.startswith("/jobfile:")], ["submit", "/scheduler:" + case["scheduler"]], "%s: arguments of the job command" % what)
            path = [a for a in argv if a.startswith("/jobfile:")][0][len("/jobfile:"):]
            same(os.path.dirname(path), work, "%s: where the job file is" % what)
            same((l.job_id, l.state), (job, "running"), "%s: the launcher" % what)
            with open(path, "rb") as f:
                data = f.read()
            check(data.startswith(b'<?xml version="1.0" encoding="utf-8"?>'), "%s: start of the job file: %r", what, data[:60])
            root = ET.fromstring(data)
            want = {"Version": "2.000", "Name": kind, "MinCores": "1", "MaxCores": "1", "MinSockets": "1", "MaxSockets": "1", "MinNodes": "1", "MaxNodes": "1", "UnitType": "Core", "AutoCalculateMin": "true",
                    "AutoCalculateMax": "true", "RunUntilCanceled": "false", "IsExclusive": "false", "JobType": "Batch", "Priority": "Highest", "Project": "IPython"}
            for k, v in case["job"].items():
                v = str(v).lower() if isinstance(v, bool) else str(v)
                if v:
                    want[JOB[k]] = v
                else:
                    want.pop(JOB[k], None)
            if "UserName" in want:
                want["Owner"] = want["UserName"]
            same(root.tag, XMLNS + "Job", "%s: root of the job file" % what)
            same(dict(root.attrib), want, "%s: attributes of the job" % what)
            order = ["Version", "Name", "UnitType", "MinCores", "MaxCores", "MinSockets", "MaxSockets", "MinNodes", "MaxNodes", "RunUntilCanceled", "IsExclusive", "UserName", "JobType", "Priority", "RequestedNodes",
                     "AutoCalculateMax", "AutoCalculateMin", "Project", "Owner"]
            same(list(root.attrib), [k for k in order if k in want], "%s: order of the attributes" % what)
            same([e.tag for e in root], [XMLNS + "Dependencies", XMLNS + "Tasks"], "%s: parts of the job" % what)
            tasks = list(root[1])
            same(len(tasks), n, "%s: tasks" % what)
            own = ["--log-level=40"] if case["own"] is None else case["own"]
            words = (case["cmd"] or ["ip%s.exe" % who]) + own + case["args"]
            outs = set()
            for t in tasks:
                a = dict(t.attrib)
                out, err = a.pop("StdOutFilePath"), a.pop("StdErrFilePath")
                check(out.endswith(".out") and err.endswith(".err") and out != err and out not in outs, "%s: output of the task: %r, %r", what, out, err)
                outs.add(out)
                command = a.pop("CommandLine")
                same(split(command), words, "%s: command line %r" % (what, command))
                same(a, {"Version": "2.000", "Name": "IPEngine" if engines else "IPController", "MinCores": "1", "MaxCores": "1", "MinSockets": "1", "MaxSockets": "1", "MinNodes": "1", "MaxNodes": "1",
                         "WorkDirectory": profile, "IsRerunnable": "true", "IsParametric": "false", "UnitType": "Core"}, "%s: attributes of a task" % what)
                same([e.tag for e in t], [XMLNS + "EnvironmentVariables"], "%s: parts of a task" % what)
                env = dict(case["env"], IPP_CLUSTER_ID=case["cluster_id"], IPP_PROFILE_DIR=profile)
                same({v.find(XMLNS + "Name").text: v.find(XMLNS + "Value").text or "" for v in t[0]}, env, "%s: environment of a task" % what)
            ctx.nontrivial(n > 1 or bool(case["job"]))
        else:
            if l.state != "running":
                continue
            box.answer("job", "")
            box.flag("job", "fail", i % 2 == 0)
            r = l.stop()
            if inspect.isawaitable(r):
                await r
            same([x[0] for x in box.calls("job")], [["cancel", job, "/scheduler:" + case["scheduler"]]], "%s: arguments of the job command" % what)
            same((l.state, len(stopped)), ("after", 1), "%s: the launcher" % what)


def split(s):
    """arguments of a Windows command line"""
    out, cur, quoted, any_, i = [], "", False, False, 0
    while i < len(s):
        ch = s[i]
        if ch == "\\":
            j = i
            while j < len(s) and s[j] == "\\":
                j += 1
            k = j - i
            if j < len(s) and s[j] == '"':
                cur += "\\" * (k // 2)
                if k % 2:
                    cur += '"'
                    j += 1
            else:
                cur += "\\" * k
            any_ = True
            i = j
            continue
        if ch == '"':
            quoted = not quoted
            any_ = True
        elif ch in " \t" and not quoted:
            if any_:
                out.append(cur)
            cur, any_ = "", False
        else:
            cur += ch
            any_ = True
        i += 1
    if any_:
        out.append(cur)
    return out


SUBS = [Sub("scripts", strategy, run, quick=1500, thorough=15000),
        Sub("winhpc", winhpc_strategy, winhpc_run, quick=500, thorough=5000, weight=0.25)]
