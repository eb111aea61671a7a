"""Explicit-state exploration driver.

A check module provides

    PROPERTY   the property id
    BOUNDS     {tier: text} describing the explored space
    configs(tier)    -> list of JSON values, every configuration of the space
    run(cfg, ctx)    -> executes one configuration on the real code and compares
                        it with the reference model; raises Violation

The driver deals the configurations to forked workers in a fixed order.
"""

import contextlib
import hashlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN_FILE = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Violation(Exception):
    """The real code and the model disagree."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


# Raised by the comparison itself if the code returns something else than the
# kind of object it returns now (None instead of a number, a missing entry, ...)
UNUSABLE = (TypeError, ValueError, AttributeError, LookupError, ArithmeticError, FileNotFoundError)


class Timeout(BaseException):
    pass


class Ctx:
    """Counters of one worker and helpers for the checks."""

    def __init__(self, scratch):
        self.states = set()
        self.ops = 0
        self.traces = 0
        self.outcomes = {}
        self._scratch = scratch
        self._dir = None

    def state(self, key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def op(self, n=1):
        self.ops += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg, key)

    @contextlib.contextmanager
    def scratch(self):
        """An empty directory, the working directory inside the block."""
        d = tempfile.mkdtemp(dir=self._scratch)
        old = os.getcwd()
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)


def _alarm(signum, frame):
    raise Timeout()


def execute(mod, cfg, ctx, limit):
    """Runs one configuration.  Returns None, ("violation", msg, key) or
    ("error", msg, None)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.run(cfg, ctx)
        return None
    except Violation as v:
        return ("violation", str(v), v.key)
    except Timeout:
        return ("violation", f"no result within {limit} s", None)
    except Exception as e:
        tb = traceback.format_exc()
        src = os.path.join(REPO, "src") + os.sep
        frames = traceback.extract_tb(e.__traceback__)
        if any(os.path.abspath(f.filename).startswith(src) for f in frames):
            return ("violation", f"raised {type(e).__name__}: {e}\n{tb}", None)
        if isinstance(e, UNUSABLE):
            return ("violation", f"a result is not of the expected kind: {type(e).__name__}: {e}\n{tb}", None)
        return ("error", tb, None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _quiet():
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    sys.stderr = devnull


def _spawn(fn, out):
    """Runs fn in a forked child and stores the pickled result in out."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 0
    try:
        _quiet()
        with open(out + ".part", "wb") as f:
            pickle.dump(fn(), f)
        os.rename(out + ".part", out)
    except BaseException:
        with open(out + ".err", "w") as f:
            f.write(traceback.format_exc())
        code = 3
    os._exit(code)


def _in_child(fn, work):
    out = os.path.join(work, f"child-{time.monotonic_ns()}")
    pid = _spawn(fn, out)
    os.waitpid(pid, 0)
    if not os.path.exists(out):
        err = open(out + ".err").read() if os.path.exists(out + ".err") else "died"
        return ("error", err, None)
    with open(out, "rb") as f:
        return pickle.load(f)


def load_known(prop):
    known = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith("known:"):
                f = line[len("known:") :].split()
                if f[0] == f"property={prop}" and f[1].startswith("key="):
                    known[f[1][4:]] = " ".join(f[2:])
    return known


def jsonable(x):
    return json.loads(json.dumps(x))


def run_sequence(mod, cfgs, work, limit):
    """Runs configurations one after another in a fresh process and returns
    the result of the last one."""

    def fn():
        ctx = Ctx(work)
        for c in cfgs[:-1]:
            execute(mod, c, ctx, limit)
        return execute(mod, cfgs[-1], ctx, limit)

    return _in_child(fn, work)


def main(mod, tier, replay=None, jobs=8, only=None):
    prop = mod.PROPERTY
    limit = getattr(mod, "TIMEOUT", 120)
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        if replay:
            return _replay(mod, replay, work, limit)
        return _explore(mod, prop, tier, work, limit, jobs, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _replay(mod, path, work, limit):
    with open(path) as f:
        rep = json.load(f)
    res = run_sequence(mod, rep.get("history", []) + [rep["config"]], work, limit)
    if res is None:
        print("replay: the configuration behaves as the model says")
        return 0
    print(f"replay: {res[0]}: {res[1]}")
    if res[0] == "violation":
        print(f"VIOLATION property={mod.PROPERTY} replay={path}")
        return 1
    return 2


def _explore(mod, prop, tier, work, limit, jobs, only):
    t0 = time.time()
    cfgs = jsonable(mod.configs(tier))
    if only is not None:
        cfgs = cfgs[only : only + 1]
    known = load_known(prop)
    jobs = max(1, min(jobs, len(cfgs)))
    max_viol = 3

    def worker(w):
        def fn():
            ctx = Ctx(os.path.join(work))
            found, done, skipped = [], 0, 0
            seen_known = {}
            start = time.time()
            slow = (0.0, None)
            for i in range(w, len(cfgs), jobs):
                t = time.time()
                res = execute(mod, cfgs[i], ctx, limit)
                dt = time.time() - t
                if dt > slow[0]:
                    slow = (dt, i)
                done += 1
                if res is not None:
                    kind, msg, key = res
                    if kind == "violation" and key is not None and key in known:
                        seen_known.setdefault(key, i)
                        continue
                    found.append((i, kind, msg, key))
                    if len(found) >= max_viol:
                        break
            return dict(
                states=ctx.states,
                ops=ctx.ops,
                traces=ctx.traces,
                outcomes=ctx.outcomes,
                found=found,
                done=done,
                known=seen_known,
                slow=slow,
                busy=time.time() - start,
            )

        return fn

    outs = [os.path.join(work, f"w{w}") for w in range(jobs)]
    pids = [_spawn(worker(w), outs[w]) for w in range(jobs)]
    for p in pids:
        os.waitpid(p, 0)

    results, errors = [], []
    for o in outs:
        if os.path.exists(o):
            with open(o, "rb") as f:
                results.append(pickle.load(f))
        else:
            e = o + ".err"
            errors.append(open(e).read() if os.path.exists(e) else f"worker {o} died")

    states = set()
    outcomes, seen_known = {}, {}
    ops = traces = done = 0
    found = []
    for w, r in enumerate(results):
        states |= r["states"]
        ops += r["ops"]
        traces += r["traces"]
        done += r["done"]
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in r["known"].items():
            seen_known.setdefault(k, v)
        found += r["found"]
    found.sort()

    # Confirm every mismatch in a fresh process
    violations = []
    rdir = os.path.join(VERIF, "evidence", "replays")
    for i, kind, msg, key in found[:6]:
        if kind == "error":
            errors.append(f"config {cfgs[i]}\n{msg}")
            continue
        if len(violations) >= 3:
            continue
        history = []
        res = run_sequence(mod, [cfgs[i]], work, limit)
        if res is None or res[0] != "violation":
            history = cfgs[i % jobs : i : jobs]
            res = run_sequence(mod, history + [cfgs[i]], work, limit * 4)
        if res is None or res[0] != "violation":
            errors.append(f"not reproducible: config {cfgs[i]}: {msg}")
            continue
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.blake2b(json.dumps(cfgs[i]).encode(), digest_size=5).hexdigest()
        path = os.path.join(rdir, f"{prop}-{h}.json")
        with open(path, "w") as f:
            json.dump(
                dict(
                    property=prop,
                    config=cfgs[i],
                    history=history,
                    message=res[1],
                    command=f"/opt/venv/bin/python checks/run.py {prop} --replay {path}",
                ),
                f,
                indent=1,
            )
        violations.append(dict(config=cfgs[i], message=res[1][:2000], replay=path))

    n = len(cfgs)
    picks = sorted({0, n // 3, (2 * n) // 3, n - 1})
    evidence = dict(
        property=prop,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level="model_checking",
        coverage=dict(
            states=len(states),
            transitions=ops,
            traces_validated_against_impl=traces,
            samples=[cfgs[i] for i in picks],
            configurations_listed=n,
            configurations_executed=done,
            exhaustive=bool(done == n and not errors),
            outcomes=outcomes,
            bounds=mod.BOUNDS[tier] if tier in mod.BOUNDS else mod.BOUNDS["quick"],
            known_findings=sorted(seen_known),
        ),
        wall_s=round(time.time() - t0, 2),
        violations=violations,
    )
    if getattr(mod, "ASSUMPTIONS", None):
        evidence["assumptions"] = list(mod.ASSUMPTIONS)
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, f".{prop}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.rename(tmp, os.path.join(edir, f"{prop}.json"))

    print(
        f"{prop} {tier}: {done}/{n} configurations, {len(states)} states, "
        f"{ops} transitions, {traces} traces, outcomes {outcomes}, "
        f"{evidence['wall_s']} s"
    )
    if os.environ.get("VERIF_DEBUG"):
        for r in results:
            print("  worker busy", round(r["busy"], 1), "slowest", r["slow"][0], cfgs[r["slow"][1]] if r["slow"][1] is not None else None)
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {k}: {known[k]}")
    for v in violations:
        print(f"config: {json.dumps(v['config'])}")
        print(f"mismatch: {v['message']}")
        print(f"VIOLATION property={prop} replay={v['replay']}")
    if violations:
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR:", e, file=sys.stderr)
        return 2
    if done != n or not traces or not states:
        print("ERROR: incomplete exploration", file=sys.stderr)
        return 2
    return 0
