"""Common driver of all checks.

A check module (mc/checks/cXX.py) defines
    ID, BOUNDS(tier) -> str/dict
    cases(tier)      -> list of JSON-able cases, simplest first (a finite space, completely enumerated)
    run(case)        -> Result; raises Violation
Every case is executed on the real code; an unexpected exception of the code
under test is a violation. The first failing case (in the order of enumeration)
becomes a replay file.
"""

import argparse
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from mc import env

VERIF = env.VERIF
OUT = os.environ.get("VERIF_OUT", VERIF)  # where evidence/ and replays/ go
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "240"))


class Violation(Exception):
    pass


class Result:
    """What one case covered.

    states: distinct model states / inputs on which the property was evaluated
    transitions: operations (steps) of the real code compared with the model
    traces: executions of the real code replayed against the model
    outcome: short label of the observed behaviour (to detect vacuity)
    """

    __slots__ = ("states", "transitions", "traces", "outcomes", "note")

    def __init__(self, states=0, transitions=0, traces=0, outcomes=(), note=None):
        self.states, self.transitions, self.traces = states, transitions, traces
        self.outcomes = {outcomes} if isinstance(outcomes, str) else set(outcomes)
        self.note = note


def need(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


class _Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise _Timeout()


_mod = None


def _load(pid):
    global _mod
    env.setup()
    # Warm the interpreter with what the code under test imports.
    import numpy  # noqa: F401
    import scipy.sparse.linalg  # noqa: F401
    import scipy.special  # noqa: F401
    import sympy.physics.wigner  # noqa: F401

    _mod = importlib.import_module("mc.checks." + pid.lower())
    return _mod


def execute(case):
    """Run one case. Returns (None or message, Result or None)."""
    import numpy as np

    from mc import mpicore

    mpicore.client.reset()
    out = io.StringIO()
    old = signal.signal(signal.SIGALRM, _alarm)
    limit = getattr(_mod, "TIMEOUT", CASE_TIMEOUT)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
            res = _mod.run(case)
        return None, res
    except Violation as e:
        return str(e), None
    except _Timeout:
        return "did not finish within %d s" % limit, None
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # the code under test must not raise here
        return "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6)), None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _worker(todo, results):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        item = todo.get()
        if item is None:
            break
        for i, case in item:
            msg, res = execute(case)
            results.put((i, msg, res))
    fin = getattr(_mod, "worker_exit", None)
    if fin:
        fin()
    results.put(("exit", None, None))


def load_known(pid):
    """Known findings of this property: {canonical case: text}."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2].strip()
                if rest.startswith("case="):
                    dec = json.JSONDecoder()
                    case, end = dec.raw_decode(rest[5:])
                    known[json.dumps(case, sort_keys=True)] = rest[5 + end:].strip()
    return known


def run_all(pid, tier, jobs):
    mod = _mod
    cases = list(mod.cases(tier))
    keys = set()
    t0 = time.time()
    jobs = min(jobs, getattr(mod, "MAX_JOBS", jobs), max(1, len(cases)))
    fails = {}
    total = dict(states=0, transitions=0, traces=0, done=0)
    outcomes = {}
    known = load_known(pid)
    known_hit = {}

    def account(i, msg, res):
        total["done"] += 1
        if msg is not None:
            k = json.dumps(cases[i], sort_keys=True)
            if k in known:
                known_hit[i] = known[k]
            else:
                fails[i] = msg
            return
        total["states"] += res.states
        total["transitions"] += res.transitions
        total["traces"] += res.traces
        for o in res.outcomes:
            outcomes[o] = outcomes.get(o, 0) + 1

    for c in cases:
        keys.add(json.dumps(c, sort_keys=True))
    dup = len(cases) - len(keys)
    chunk = max(1, min(getattr(mod, "CHUNK", 8), len(cases) // (4 * jobs) or 1))
    if jobs == 1:
        for i, c in enumerate(cases):
            account(i, *execute(c))
            if fails:
                break
        fin = getattr(mod, "worker_exit", None)
        if fin:
            fin()
    else:
        ctx = mp.get_context("fork")
        todo, results = ctx.Queue(), ctx.Queue()
        procs = [ctx.Process(target=_worker, args=(todo, results), daemon=False) for _ in range(jobs)]
        for p in procs:
            p.start()
        pos, out = 0, {}

        def feed():
            nonlocal pos
            if pos < len(cases) and not fails:
                items = [(i, cases[i]) for i in range(pos, min(pos + chunk, len(cases)))]
                pos += chunk
                for i, _ in items:
                    out[i] = True
                todo.put(items)
                return True
            return False

        for _ in range(2 * jobs):
            feed()
        left = {i for i in out}
        last = time.time()
        while out:
            try:
                i, msg, res = results.get(timeout=5)
            except Exception:
                if all(p.is_alive() for p in procs) and time.time() - last < getattr(mod, "TIMEOUT", CASE_TIMEOUT) + 120:
                    continue
                i = min(out)
                dead = [p.exitcode for p in procs if not p.is_alive()]
                fails[i] = "the process running this case (or one near it) died or hung, exit codes %s" % dead
                break
            last = time.time()
            account(i, msg, res)
            out.pop(i, None)
            if fails and min(out, default=1 << 60) > min(fails):
                break
            if fails:
                continue
            if len(out) < 2 * jobs * chunk:
                feed()
        del left
        for _ in procs:
            todo.put(None)
        if fails:
            deadline = time.time() + 2
        else:
            deadline = time.time() + 20
        for p in procs:
            p.join(max(0.1, deadline - time.time()))
        for p in procs:
            if p.is_alive():
                p.terminate()
                p.join(5)
            if p.is_alive():
                p.kill()
        todo.cancel_join_thread()
        results.cancel_join_thread()
    total["wall"] = time.time() - t0
    return cases, fails, known_hit, total, outcomes, dup


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="model and tools only, no check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    args = ap.parse_args()
    if args.selftest:
        return selftest()
    pid = args.property.upper()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    replay_path = os.path.join("replays", pid + ".json")

    def violation(case, msg, more=0):
        with open(os.path.join(OUT, replay_path), "w") as f:
            json.dump(dict(property=pid, tier=args.tier, case=case, message=msg,
                           how="./check %s --replay %s" % (pid, replay_path)), f, indent=1)
        print("case:", json.dumps(case)[:2000])
        print("what:", msg[:4000])
        if more:
            print("(%d more failing cases seen)" % more)
        print("VIOLATION property=%s replay=%s" % (pid, replay_path))
        sys.stdout.flush()

    try:
        mod = _load(pid)
    except Exception as e:
        tb = traceback.format_exc()
        if env.REPO in tb or "impurityModel" in tb:
            violation({"import": str(e)}, "the code under test can not be imported:\n" + tb)
            evidence(pid, args.tier, seed, {}, None, 1, time.time() - t0, None)
            sys.exit(1)
        raise

    if args.replay:
        case = json.load(open(args.replay))["case"]
        msg, res = execute(case)
        print("case:", json.dumps(case)[:2000])
        if msg is None:
            print("property held on this case")
            sys.exit(0)
        print("what:", msg)
        print("VIOLATION property=%s replay=%s" % (pid, args.replay))
        sys.exit(1)
    if args.list:
        cs = list(mod.cases(args.tier))
        print(len(cs), "cases")
        for c in cs[:10]:
            print(json.dumps(c)[:300])
        return

    cases, fails, known_hit, total, outcomes, dup = run_all(pid, args.tier, args.jobs)
    for i in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, known_hit[i]))
    evidence(pid, args.tier, seed, total, cases, len(fails), time.time() - t0, outcomes, mod, len(known_hit), dup)
    print(
        "%s %s: %d cases, states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs"
        % (pid, args.tier, total["done"], total["states"], total["transitions"], total["traces"], len(outcomes),
           time.time() - t0)
    )
    if fails:
        i = min(fails)
        violation(cases[i], fails[i], len(fails) - 1)
        sys.exit(1)
    sys.exit(0)


def selftest():
    """The reference model satisfies the canonical anticommutation relations; tools are present."""
    import itertools

    from mc import ref

    env.setup()
    for n in (1, 2, 3, 4):
        for x, y in itertools.product([(i, a) for i in range(n) for a in "ca"], repeat=2):
            f = ref.fock(n)
            anti = ref.matrix({(x, y): 1}, f) + ref.matrix({(y, x): 1}, f)
            want = 1.0 * (x[0] == y[0] and x[1] != y[1])
            assert abs(anti - want * ref.np.eye(1 << n)).max() < 1e-14
    from mc import fast

    op = {((i, a), (j, b), (k, c)): 0.3 * i - 0.2 * j + 1j * k for i, j, k in itertools.product(range(5), repeat=3) for a, b, c in ("cca", "aca", "cac")}
    op.update({((1, "c"), (4, "a")): 2.0, ((3, "c"),): 1j})
    for r in (None, {(0, 2, 3): (1, 2)}):
        f = ref.fock(5)
        assert abs(fast.matrix(op, f, f, r) - ref.matrix(op, f, r)).max() < 1e-13
        hop = {k: v for k, v in op.items() if len(k) == 2}
        assert all(set(fast.closure(hop, [m], r)) == ref.closure(hop, [m], r) for m in f)
    import h5py, mpi4py, scipy, sympy  # noqa: F401,E401

    print("selftest ok")


def evidence(pid, tier, seed, total, cases, nviol, wall, outcomes, mod=None, nknown=0, dup=0):
    cov = dict(
        states=total.get("states", 0),
        transitions=total.get("transitions", 0),
        traces_validated_against_impl=total.get("traces", 0),
        samples=[],
    )
    if cases:
        idx = sorted({0, len(cases) // 3, 2 * len(cases) // 3, len(cases) - 1})
        cov["samples"] = [cases[i] for i in idx]
        cov["cases"] = len(cases)
        cov["cases_completed"] = total["done"]
        cov["cases_duplicated"] = dup
        cov["exhaustive"] = bool(total["done"] == len(cases) and not nviol)
        cov["distinct_outcomes"] = len(outcomes)
        cov["outcomes"] = dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:30])
        cov["bounds"] = mod.BOUNDS(tier)
        cov["known_findings_hit"] = nknown
        cov["meaning"] = getattr(mod, "MEANING", "")
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(wall, 2),
              violations=nviol, assumptions=list(getattr(mod, "ASSUMPTIONS", [])) if mod else [])
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    # Run as the importable module, so that check modules share its classes.
    from mc import harness

    harness.main()
