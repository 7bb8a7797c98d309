"""Glue between checks and the schedule explorer."""

from mc import vmpi
from mc.harness import need

_clusters = {}
SIZE = 4


def cluster(seed=0, size=SIZE):
    key = seed, max(size, SIZE)
    c = _clusters.get(key)
    if c is None:
        # keep few processes alive
        while len(_clusters) >= 2:
            _clusters.pop(next(iter(_clusters))).close()
        c = _clusters[key] = vmpi.Cluster(max(size, SIZE), seedbase=1 + 101 * seed)
    return c


def close():
    for c in _clusters.values():
        c.close()
    _clusters.clear()


def every(size, fn, args_of_rank, bound, res, judge, where, seed=0, modes=("eager", "rendezvous"), cap=None, delays=False):
    """Run fn on all ranks under every schedule within the bound (and with every rank, sender and channel delayed); judge(results, where) each."""
    for mode, choices, x in cluster(seed, size).explore(size, fn, args_of_rank, bound, modes, cap, vmpi.delays(size) if delays else ()):
        dev = [(i, c) for i, c in enumerate(choices) if c]
        w = f"{where} [{size} ranks, {mode} sends, hash seed {seed}, schedule deviations {dev}]"
        need(not x["error"], w, "->", x["error"])
        judge(x["results"], w)
        res.states += len(x["points"]) + 1
        res.transitions += x["transitions"]
        res.traces += 1
