"""Property runner: generated-input search with hypothesis, sharded over processes.

A check module defines

    PROPERTY = "C05"
    RULE     = "how cases are made and what makes one non-trivial"
    ASSUMPTIONS = [...]
    SUBS     = [Sub(...), ...]

A Sub has a hypothesis strategy that yields a *literal* case (repr/ast.literal_eval
round-trips) and a ``run(case, ctx)`` that executes it against the code in /repo and
raises Violation when the oracle disagrees.  Uncaught exceptions whose traceback goes
through /repo/ipyparallel are violations too; any other exception is a harness error
(exit status 2, never reported as a violation).
"""

import argparse
import ast
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Violation(AssertionError):
    """The oracle disagrees with the code under test."""


class HarnessError(Exception):
    """Something is wrong with the harness itself."""


class Skip(Exception):
    """The case is not applicable (counted, not judged)."""


class TimeUp(KeyboardInterrupt):
    """Ends a hypothesis run when its time is used up."""


class Ctx:
    """What a run tells the runner about a case."""

    def __init__(self, tier="quick"):
        self.tags = set()
        self.trivial = True
        self.tier = tier

    def tag(self, *names):
        for n in names:
            self.tags.add(str(n))

    def nontrivial(self, cond=True):
        if cond:
            self.trivial = False


class Sub:
    def __init__(self, name, strategy, run, quick=400, thorough=20000, weight=1.0,
                 examples=(), confirm=2, setup=None, teardown=None, shards=None, shrink_s=40):
        self.name = name
        self.strategy = strategy      # zero-arg callable returning a strategy
        self.run = run                # run(case, ctx)
        self.quick = quick
        self.thorough = thorough
        self.weight = weight          # share of the time budget
        self.examples = list(examples)
        self.confirm = confirm        # failing case must fail again within this many reruns
        self.setup = setup
        self.teardown = teardown
        self.shards = shards          # if set, only that many shards run this sub
        self.shrink_s = shrink_s


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(actual, expected, what="", *args):
    if actual != expected:
        raise Violation("%s: got %r, expected %r" % (what % args if args else what, actual, expected))


def in_repo(exc):
    """Whether the exception (or its causes) passed through the code under test."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fr in traceback.extract_tb(exc.__traceback__):
            if fr.filename.startswith(os.path.join(os.path.realpath(REPO), "ipyparallel")) or fr.filename.startswith(
                os.path.join(REPO, "ipyparallel")
            ):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def execute(sub, case, tier):
    """Run one case. returns (status, message, ctx); status in ok, skip, violation, error"""
    ctx = Ctx(tier)
    try:
        sub.run(case, ctx)
    except TimeUp:
        raise
    except Skip:
        return "skip", "", ctx
    except Violation as e:
        return "violation", "%s" % e, ctx
    except HarnessError as e:
        return "error", traceback.format_exc(), ctx
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        if in_repo(e):
            return "violation", "unexpected exception from the code under test:\n" + traceback.format_exc(), ctx
        return "error", traceback.format_exc(), ctx
    return "ok", "", ctx


def case_key(sub, case):
    return hashlib.sha1((sub.name + repr(case)).encode("utf8", "replace")).hexdigest()[:16]


def run_worker(mod, args):
    import random

    from hypothesis import HealthCheck, Phase, Verbosity, given, seed, settings

    tier, shard, nshards = args.tier, args.worker, args.nshards
    out = {"evaluations": 0, "skipped": 0, "keys": [], "tags": {}, "samples": [], "failure": None,
           "error": None, "unconfirmed": [], "per_sub": {}}
    subs = [s for s in mod.SUBS if (not args.sub or s.name in args.sub)]
    subs = [s for s in subs if s.shards is None or shard < s.shards]
    total_w = sum(s.weight for s in subs) or 1
    keys = set()
    t_start = time.monotonic()

    for sub in subs:
        budget = args.budget * sub.weight / total_w
        t0 = time.monotonic()
        deadline = t0 + budget
        st = {"n": 0, "nontrivial": 0, "s": 0}
        state = {"best": None, "fail_t": None}
        samples = []

        def one(case, from_corpus=False):
            status, msg, ctx = execute(sub, case, tier)
            out["evaluations"] += 1
            st["n"] += 1
            if status == "skip":
                out["skipped"] += 1
                return
            if status == "error":
                out["error"] = {"sub": sub.name, "case": repr(case), "message": msg}
                raise TimeUp()
            for t in ctx.tags:
                k = sub.name + ":" + t
                out["tags"][k] = out["tags"].get(k, 0) + 1
            if not ctx.trivial:
                k = case_key(sub, case)
                if k not in keys:
                    keys.add(k)
                    st["nontrivial"] += 1
                    r = repr(case)
                    if len(samples) < 2 and 20 < len(r) < 1500:
                        samples.append({"sub": sub.name, "case": r})
            if status == "violation":
                r = repr(case)
                if state["best"] is None or len(r) <= len(state["best"][0]):
                    state["best"] = (r, msg, case)
                if state["fail_t"] is None:
                    state["fail_t"] = time.monotonic()
                raise Violation(msg)

        try:
            if sub.setup:
                sub.setup()
            try:
                for i, case in enumerate(sub.examples):
                    if nshards > 1 and i % nshards != shard and sub.shards is None:
                        continue
                    one(case, True)
                n = sub.quick if tier == "quick" else sub.thorough
                if args.scale:
                    n = int(n * args.scale)
                n = max(1, n // (min(nshards, sub.shards) if sub.shards else nshards))

                def test(case):
                    now = time.monotonic()
                    if state["fail_t"] is not None:
                        if now > state["fail_t"] + min(sub.shrink_s, 3 * budget + 10):
                            raise TimeUp()
                    elif now > deadline:
                        raise TimeUp()
                    one(case)

                s = settings(max_examples=n, deadline=None, database=None,
                             suppress_health_check=list(HealthCheck), derandomize=False,
                             report_multiple_bugs=False, verbosity=Verbosity.quiet,
                             phases=[Phase.generate, Phase.shrink], print_blob=False)
                sd = int(hashlib.sha1(("%d/%d/%s" % (args.seed, shard, sub.name)).encode()).hexdigest()[:12], 16)
                random.seed(sd)
                f = seed(sd)(s(given(sub.strategy())(test)))
                f()
            except TimeUp:
                pass
            except BaseException as e:
                if state["best"] is None:
                    if isinstance(e, KeyboardInterrupt):
                        raise
                    if out["error"] is None:
                        out["error"] = {"sub": sub.name, "case": "", "message": traceback.format_exc()}
            if state["best"] is not None:
                r, msg, case = state["best"]
                again = 0
                for _ in range(sub.confirm):
                    status, msg2, _c = execute(sub, case, tier)
                    if status == "violation":
                        again += 1
                        msg = msg2
                        break
                if again or not sub.confirm:
                    out["failure"] = {"sub": sub.name, "case": r, "message": msg}
                else:
                    out["unconfirmed"].append({"sub": sub.name, "case": r, "message": msg})
        except BaseException:
            if out["error"] is None:
                out["error"] = {"sub": sub.name, "case": "", "message": traceback.format_exc()}
        finally:
            try:
                if sub.teardown:
                    sub.teardown()
            except Exception:
                if out["error"] is None:
                    out["error"] = {"sub": sub.name, "case": "", "message": traceback.format_exc()}
        st["s"] = round(time.monotonic() - t0, 2)
        out["per_sub"][sub.name] = st
        out["samples"].extend(samples)
        if out["failure"] or out["error"]:
            break
    out["keys"] = sorted(keys)
    with open(args.out, "w") as f:
        json.dump(out, f)


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def env_for(scratch):
    env = dict(os.environ)
    for d in ("home", "ipython", "tmp", "jupyter"):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    env.update(
        HOME=os.path.join(scratch, "home"),
        IPYTHONDIR=os.path.join(scratch, "ipython"),
        JUPYTER_CONFIG_DIR=os.path.join(scratch, "jupyter"),
        JUPYTER_RUNTIME_DIR=os.path.join(scratch, "jupyter"),
        JUPYTER_PLATFORM_DIRS="1",
        TMPDIR=os.path.join(scratch, "tmp"),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONNOUSERSITE="1",
        IPP_DISABLE_JS="1",
        MPLBACKEND="agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        LANG="C.UTF-8",
        LC_ALL="C.UTF-8",
        PYTHONPATH=os.pathsep.join([REPO, VERIF]),
        PYTHONWARNINGS="ignore",
    )
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--budget", type=float, default=0, help="seconds of generation per shard")
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--scale", type=float, default=0)
    ap.add_argument("--sub", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int, default=-1)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--probes", action="store_true")
    ap.add_argument("--inner", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"

    if args.worker >= 0 or args.inner:
        sys.path.append(HYP)
        mod = load(args.prop)
        if not args.budget:
            args.budget = 100.0
        if args.worker >= 0:
            run_worker(mod, args)
            finish(0)
        if args.replay:
            with open(args.replay) as f:
                d = json.load(f)
            sub = [s for s in mod.SUBS if s.name == d["sub"]][0]
            case = ast.literal_eval(d["case"])
            if sub.setup:
                sub.setup()
            try:
                status, msg, ctx = execute(sub, case, args.tier)
            finally:
                if sub.teardown:
                    sub.teardown()
            print(status, sorted(ctx.tags))
            print(msg)
            finish({"ok": 0, "skip": 0, "violation": 1}.get(status, 2))
        if args.probes:
            res = []
            for name, fn in getattr(mod, "PROBES", []):
                try:
                    res.append([name, bool(fn())])
                except Exception:
                    res.append([name, False])
            with open(args.out, "w") as f:
                json.dump(res, f)
            finish(0)

    # ---- parent
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % args.prop, dir="/tmp")
    procs = []

    def cleanup(*a):
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
        if a:
            os._exit(2)

    signal.signal(signal.SIGTERM, cleanup)
    py = sys.executable
    script = os.path.join(VERIF, "run.py")
    try:
        env = env_for(scratch)
        if args.replay:
            p = subprocess.Popen([py, script, args.prop, "--inner", "--replay", os.path.abspath(args.replay), "--tier", args.tier],
                                 env=env, cwd=VERIF, start_new_session=True)
            procs.append(p)
            rc = p.wait()
            cleanup()
            return rc
        sys.path.append(HYP)
        meta = static_meta(args.prop)
        quick = args.tier == "quick"
        shards = args.shards or meta.get("SHARDS", 4)
        if not quick and not args.shards:
            shards = meta.get("SHARDS_THOROUGH", 8 if shards >= 4 else shards)
        budget = args.budget or (meta.get("QUICK_S", 25) if quick else meta.get("THOROUGH_S", 400))
        hard = budget * 4 + 240 if quick else budget * 2 + 300
        hard = min(hard, 840)
        outs = []
        for i in range(shards):
            o = os.path.join(scratch, "out%d.json" % i)
            outs.append(o)
            cmd = [py, script, args.prop, "--worker", str(i), "--nshards", str(shards), "--out", o,
                   "--tier", args.tier, "--seed", str(args.seed), "--budget", str(budget)]
            if args.scale:
                cmd += ["--scale", str(args.scale)]
            for s in args.sub or ():
                cmd += ["--sub", s]
            sdir = os.path.join(scratch, "s%d" % i)
            e = env_for(sdir)
            log = open(os.path.join(scratch, "log%d" % i), "wb")
            p = subprocess.Popen(cmd, env=e, cwd=VERIF, start_new_session=True, stdout=log, stderr=subprocess.STDOUT)
            procs.append(p)
        # probes of known findings
        probes = []
        if meta.get("PROBES"):
            o = os.path.join(scratch, "probes.json")
            pp = subprocess.Popen([py, script, args.prop, "--inner", "--probes", "--out", o], env=env_for(os.path.join(scratch, "sp")),
                                  cwd=VERIF, start_new_session=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            procs.append(pp)
            try:
                pp.wait(120)
                probes = json.load(open(o))
            except Exception:
                probes = []
        results, bad = [], []
        end = t0 + hard
        failed_at = None
        pending = list(range(shards))
        while pending:
            for i in list(pending):
                if procs[i].poll() is not None:
                    pending.remove(i)
                    try:
                        r = json.load(open(outs[i]))
                        results.append(r)
                        if r["failure"] and failed_at is None:
                            failed_at = time.monotonic()
                    except Exception:
                        log = open(os.path.join(scratch, "log%d" % i), errors="replace").read()[-3000:]
                        bad.append("shard %d ended with %s and no result:\n%s" % (i, procs[i].returncode, log))
            if failed_at and time.monotonic() > failed_at + 5:
                break
            if time.monotonic() > end:
                for i in pending:
                    log = open(os.path.join(scratch, "log%d" % i), errors="replace").read()[-3000:]
                    bad.append("shard %d timed out:\n%s" % (i, log))
                break
            time.sleep(0.05)
        if os.environ.get("VERIF_DEBUG"):
            for i in range(shards):
                sys.stderr.write(open(os.path.join(scratch, "log%d" % i), errors="replace").read()[-5000:])
        rc = report(args, meta, results, bad, probes, time.monotonic() - t0, shards)
    finally:
        cleanup()
    return rc


def finish(rc):
    """Leave without waiting for stray threads."""
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def static_meta(prop):
    """Constants of a check module, without importing the code under test."""
    path = os.path.join(VERIF, "checks", prop.lower() + ".py")
    tree = ast.parse(open(path).read())
    meta = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            name = node.targets[0].id
            try:
                meta[name] = ast.literal_eval(node.value)
            except Exception:
                if name == "PROBES":
                    meta[name] = True
    return meta


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        d = json.load(open(path))
    except FileNotFoundError:
        return []
    return [f for f in d.get("findings", []) if f["property"] == prop]


def report(args, meta, results, bad, probes, wall, shards):
    prop = meta["PROPERTY"]
    ev, keys, tags, samples, per = 0, set(), {}, [], {}
    skipped = 0
    failures, errors, unconf = [], [], []
    for r in results:
        ev += r["evaluations"]
        skipped += r["skipped"]
        keys.update(r["keys"])
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        samples.extend(r["samples"])
        if r["failure"]:
            failures.append(r["failure"])
        if r["error"]:
            errors.append(r["error"])
        unconf.extend(r["unconfirmed"])
        for k, st in r["per_sub"].items():
            d = per.setdefault(k, {"n": 0, "nontrivial": 0, "s": 0})
            d["n"] += st["n"]
            d["nontrivial"] += st["nontrivial"]
            d["s"] = max(d["s"], st["s"])
    by_sub = {}
    for s in samples:
        by_sub.setdefault(s["sub"], []).append(s)
    samples = [s for l in by_sub.values() for s in l[:2]][:12]
    evidence = {
        "property": prop, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(keys), "rule": meta["RULE"],
            "samples": samples, "skipped": skipped, "tags": dict(sorted(tags.items())),
            "per_sub": per, "shards": shards, "unconfirmed": unconf[:3],
        },
        "assumptions": meta.get("ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, path)
    kf = known_findings(prop)
    for name, present in probes:
        entry = [f for f in kf if f["id"] == name]
        if present and entry:
            print("KNOWN-FINDING: property=%s %s" % (prop, entry[0]["what"]))
        elif present:
            failures.append({"sub": "probe", "case": repr(name), "message": "probe %s" % name})
    print("%s %s: %d cases, %d distinct non-trivial, %d skipped, %.1f s" % (prop, args.tier, ev, len(keys), skipped, wall))
    for k, d in per.items():
        print("   %-28s n=%d nontrivial=%d %.1fs" % (k, d["n"], d["nontrivial"], d["s"]))
    if failures:
        f = min(failures, key=lambda f: len(f["case"]))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        h = hashlib.sha1((f["sub"] + f["case"]).encode("utf8", "replace")).hexdigest()[:10]
        rp = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, h))
        with open(rp, "w") as fh:
            json.dump({"property": prop, "sub": f["sub"], "case": f["case"], "message": f["message"],
                       "replay_with": "/opt/venv/bin/python run.py %s --replay %s" % (prop, rp)}, fh, indent=1)
        print("minimal failing case (%s): %s" % (f["sub"], f["case"][:3000]))
        print(f["message"][:4000])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors or bad:
        for e in errors[:2]:
            print("HARNESS ERROR in %s case %s\n%s" % (e["sub"], e["case"][:2000], e["message"]))
        for b in bad[:2]:
            print("HARNESS ERROR " + b)
        return 2
    for u in unconf[:2]:
        print("unconfirmed (not reproduced): %s %s\n%s" % (u["sub"], u["case"][:1000], u["message"][:1000]))
    return 0
