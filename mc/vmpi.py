"""Schedule explorer for programs on several virtual MPI ranks.

`Cluster(n)` keeps n worker processes (hash seed = rank dependent). `run` executes
one schedule: a list of choices among the possible completion events; beyond the
end of the list the default (first) event is taken. `explore` enumerates all
schedules with at most `bound` departures from the default, in both buffering
modes, and on request the schedules in which one rank, all messages of one
rank or one channel are delayed as long as anything else can happen.
"""

import os
import select
import subprocess
import sys

from mc import env, mpicore
from mc.vworker import Pipe

HORIZON = 20000


class Cluster:
    def __init__(self, size, seedbase=1, timeout=120):
        self.size, self.timeout, self.seedbase = size, timeout, seedbase
        self.procs, self.pipes = [], []
        for r in range(size):
            self._spawn(r)

    def _spawn(self, r):
        a_r, a_w = os.pipe()
        b_r, b_w = os.pipe()
        e = dict(os.environ)
        e["PYTHONHASHSEED"] = str(self.seedbase + 7 * r)
        e["PYTHONPATH"] = env.VERIF
        p = subprocess.Popen(
            [sys.executable, "-B", "-m", "mc.vworker", str(a_r), str(b_w), str(r)],
            pass_fds=(a_r, b_w),
            env=e,
            cwd=env.VERIF,
            stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL,
        )
        os.close(a_r)
        os.close(b_w)
        self.procs[r:r + 1] = [p]
        self.pipes[r:r + 1] = [Pipe(b_r, a_w)]

    def close(self):
        for p in self.procs:
            p.kill()
        for p in self.procs:
            p.wait()
        for q in self.pipes:
            try:
                q.r.close()
                q.w.close()
            except OSError:
                pass
        self.procs, self.pipes = [], []

    def restart(self):
        self.close()
        for r in range(self.size):
            self._spawn(r)

    # One execution. Returns a dict.
    def run(self, size, fn, args_of_rank, choices, mode, policy=None):
        world = mpicore.World(size, mode)
        running = set(range(size))
        started = [False] * size
        results = [None] * size
        status = ["run"] * size
        points, log = [], []
        error = None

        def kill(msg):
            # Ask blocked ranks to abandon; a rank that does not is restarted.
            for r in list(world.pending):
                try:
                    self.pipes[r].send(("abort", msg))
                except OSError:
                    pass
            for r in range(size):
                if status[r] == "run":
                    try:
                        while True:
                            ready, _, _ = select.select([self.pipes[r].r], [], [], 10)
                            if not ready:
                                raise EOFError
                            k = self.pipes[r].recv()[0]
                            if k in ("done", "aborted", "exc"):
                                break
                            self.pipes[r].send(("abort", msg))
                    except (EOFError, OSError):
                        self.restart()
                        return

        for r in range(size):
            self.pipes[r].send(("job", size, fn, args_of_rank[r]))
        nev = 0
        transitions = 0
        while True:
            # Let every running rank reach its next blocking call, in rank order.
            for r in sorted(running):
                while r in running:
                    ready, _, _ = select.select([self.pipes[r].r], [], [], self.timeout)
                    if not ready:
                        error = "rank %d does not finish a local computation within %d s" % (r, self.timeout)
                        self.restart()
                        return dict(error=error, points=points, log=log, results=results, transitions=transitions)
                    try:
                        k, v = self.pipes[r].recv()
                    except EOFError:
                        error = "rank %d died" % r
                        self.restart()
                        return dict(error=error, points=points, log=log, results=results, transitions=transitions)
                    if k == "op":
                        try:
                            done, res = world.post(r, v)
                        except mpicore.MPIError as e:
                            error = str(e)
                            world.pending[r] = v
                            running.discard(r)
                            break
                        transitions += 1
                        if done:
                            self.pipes[r].send(("ok", res))
                        else:
                            running.discard(r)
                    else:
                        running.discard(r)
                        status[r] = k
                        results[r] = v
                        if k == "exc" and error is None:
                            error = "exception on rank %d of %d: %s" % (r, size, v)
                if error:
                    break
            if error:
                running.clear()
                kill(error)
                break
            if all(s != "run" for s in status):
                left = [m for m in world.msgs]
                if left:
                    error = "%d message(s) were never received" % len(left)
                break
            ev = world.events()
            spin = [e for e in ev if e[0] == "test" or (e[0] == "probe" and e[2] is None)]
            ev = [e for e in ev if e not in spin]
            if policy is not None:
                if policy[0] == "reverse":
                    ev.reverse()
                ev.sort(key=lambda e: world.held_back(e, policy))
            ev += spin
            if not ev:
                what = {r: _show(op) for r, op in world.pending.items()}
                error = "deadlock (%s mode): %s; finished ranks: %s" % (
                    mode,
                    what,
                    [r for r in range(size) if status[r] != "run"],
                )
                kill(error)
                break
            i = len(points)
            c = choices[i] if i < len(choices) else 0
            if c >= len(ev):
                error = "DIVERGENCE: choice %d of %d events at point %d" % (c, len(ev), i)
                kill(error)
                break
            points.append(len(ev))
            log.append(ev[c][:2])
            nev += 1
            if nev > HORIZON:
                error = "no termination within %d events (livelock)" % HORIZON
                kill(error)
                break
            try:
                woken = world.fire(ev[c])
            except mpicore.MPIError as e:
                error = str(e)
                kill(error)
                break
            transitions += 1
            for r, value in woken:
                self.pipes[r].send(("ok", value))
                running.add(r)
        return dict(error=error, points=points, log=log, results=results, transitions=transitions)

    def explore(self, size, fn, args_of_rank, bound, modes=("eager", "rendezvous"), cap=None, policies=()):
        """Yields (mode, choices, execution) for every schedule within the bound and of every policy."""
        for mode in modes:
            for policy in policies:
                x = self.run(size, fn, args_of_rank, [], mode, policy)
                yield mode + " " + str(policy), [], x
                if x["error"]:
                    return
            stack = [([], 0)]
            n = 0
            while stack:
                prefix, used = stack.pop()
                x = self.run(size, fn, args_of_rank, prefix, mode)
                n += 1
                yield mode, prefix, x
                if x["error"]:
                    return
                if cap is not None and n >= cap:
                    break
                if used < bound:
                    full = prefix + [0] * (len(x["points"]) - len(prefix))
                    for i in range(len(x["points"]) - 1, len(prefix) - 1, -1):
                        for alt in range(1, x["points"][i]):
                            stack.append((full[:i] + [alt], used + 1))


def delays(size):
    """The policies for that number of ranks."""
    if size < 2:
        return []
    return [("reverse",)] + [(kind, r) for kind in ("slow", "mute") for r in range(size)] + [("channel", a, b) for a in range(size) for b in range(size) if a != b and size > 2]


def _show(op):
    return [x if not isinstance(x, (bytes, tuple, list)) or len(x) < 8 else "..." for x in op[:5]]
