"""C24: gathering dictionaries over the ranks.

The real code runs on 1-4 virtual ranks (operating system processes with different hash
seeds); a controller decides when every communication call returns and explores, in
two buffering modes, all schedules within a bound of departures from the default. For
every combination of per-rank sizes 0..3, chunk sizes below, at and above them, previous
content of the collection, repeated calls and every root, each rank's result is compared
with the union; missing progress is a deadlock, unread messages are reported.
"""

import itertools

from mc import mpicheck
from mc.harness import Result, need

ID = "C24"
MEANING = "states: scheduling points visited; transitions: communication calls and completions; traces: complete executions (schedules) of the real code on all ranks"
ASSUMPTIONS = ["keys of different ranks are distinct (documented precondition)", "MPI semantics of mc/mpicore.py"]
TIMEOUT = 400
worker_exit = mpicheck.close


def BOUNDS(tier):
    return dict(ranks="1..4 (5, 6, 8: default schedules)", sizes="0..3 per rank", chunk_sizes="1,2,3,5,default", deviations=1 if tier == "quick" else 2, modes=["eager", "rendezvous"], hash_seeds=1 if tier == "quick" else 3)


def cases(tier):
    out = []
    deep = tier == "thorough"
    for size in (1, 2, 3, 4):
        for lens in itertools.product(range(4) if size < 4 else (0, 2, 3) if deep else (0, 2), repeat=size):
            for chunk in (1, 2, 3, 5, None):
                bound = (2 if size < 4 else 1) if deep else (1 if size < 4 else 0)
                for seed in range(3 if deep and size == 3 else 1):
                    out.append(["gather", size, list(lens), chunk, bound, seed])
    for size in (2, 3):
        for a, b in itertools.product(range(4), repeat=2):
            out.append(["twice", size, a, b, 1])
    for size in (1, 2, 3, 4):
        for n in range(7):
            for chunk in (1, 2, 3, 4, None):
                for root in range(size):
                    out.append(["chunks", size, n, chunk, root, 1 if size < 4 else 0])
    for size in (5, 6, 8):
        for lens in itertools.product((0, 3), (0, 2), (1, 4)):
            out += [["gather", size, [lens[r % 3] for r in range(size)], chunk, 0, 0] for chunk in (1, 3, None)]
        out += [["twice", size, a, b, 0] for a, b in ((0, 1), (2, 3))]
        out += [["chunks", size, n, chunk, root, 0] for n in (0, 3, 6) for chunk in (2, None) for root in range(size)]
    out += [["big", size, n, chunk] for size in (1, 2, 5) for n in (2500, 40000) for chunk in (None, 999, 2000)]
    return out


def item(r, j):
    return bytes([r]) + j.to_bytes(1 + (j > 255), "big"), {bytes([j % 256]): complex(r, j), b"x": 1.0 + j}


def data(r, n):
    return dict(item(r, j) for j in range(n))


def run(case):
    res = Result()
    if case[0] == "gather":
        _, size, lens, chunk, bound, seed = case
        ds = [data(r, n) for r, n in enumerate(lens)]
        union = {k: v for d in ds for k, v in d.items()}
        for prior in range(3):
            totals = [{} if prior == 0 else data(9, 2) if prior == 1 else data(10 + r, r + 1) for r in range(size)]
            # an empty collection under all schedules, others under the default one
            b = bound if prior == 2 or size < 3 else 0

            def judge(results, w):
                for r in range(size):
                    d, t, ret, sent = results[r]
                    need(chunk is None or sent <= chunk, w, "rank", r, "sends", sent, "elements at once")
                    need(ret is None, w, "rank", r, "returned", ret)
                    need(d == ds[r], w, "rank", r, "its own data changed:", d)
                    exp = dict(totals[r], **{})
                    exp.update(union)
                    need(t == exp, w, "rank", r, "holds", sorted(t), "expected", sorted(exp))

            mpicheck.every(size, "allgather", [(ds[r], totals[r], chunk) for r in range(size)], b, res, judge, f"allgather_dict sizes {lens} chunk {chunk} prior {prior}", seed)
        res.outcomes.add("%d ranks" % size)
    elif case[0] == "big":
        _, size, n, chunk = case
        ds = [data(r, n + r) for r in range(size)]
        union = {k: v for d in ds for k, v in d.items()}

        def judge(results, w):
            for r in range(size):
                need(results[r][0] == ds[r], w, "rank", r, "its own data changed")
                need(chunk is None or results[r][3] <= chunk, w, "rank", r, "sends", results[r][3], "elements at once")
                need(results[r][1] == union, w, "rank", r, "holds", len(results[r][1]), "of", len(union), "elements")

        mpicheck.every(size, "allgather", [(ds[r], {}, chunk) for r in range(size)], 0, res, judge, f"allgather_dict of {n} elements per rank, chunk {chunk}")
        res.outcomes.add("big")
    elif case[0] == "twice":
        _, size, a, b, bound = case
        da = [data(r, (a + r) % 4) for r in range(size)]
        db = [data(20 + r, (b + 2 * r) % 4) for r in range(size)]
        ua = {k: v for d in da for k, v in d.items()}
        ub = dict(ua, **{})
        for d in db:
            ub.update(d)

        def judge(results, w):
            for r in range(size):
                d1, first, d2, t = results[r]
                need(first == ua and t == ub and d1 == da[r] and d2 == db[r], w, "rank", r, "holds", sorted(first), "then", sorted(t))

        for c1, c2 in ((1, 10), (2, 1), (10, 10)):
            mpicheck.every(size, "allgather_twice", [(da[r], {}, c1, db[r], c2) for r in range(size)], bound, res, judge, f"two gathers {case} chunks {c1, c2}", delays=True)
        res.outcomes.add("twice")
    else:
        _, size, n, chunk, root, bound = case
        d = data(root, n)

        def judge(results, w):
            got, own = results[root][1], [x[0] for x in results]
            need(own[root] == d, w, "data changed")
            for r in range(size):
                need(len(results[r][1]) == len(got), w, "rank", r, "sees", len(results[r][1]), "chunks, root", len(got))
                need(r == root or all(x is None for x in results[r][1]), w, "rank", r, "got", results[r][1])
            m = 10**6 if chunk is None else chunk
            need(all(isinstance(x, dict) and len(x) <= m for x in got), w, "chunk sizes", [len(x) for x in got])
            need(sum(len(x) for x in got) == n, w, "chunks overlap or are incomplete:", got)
            u = {}
            for x in got:
                u.update(x)
            need(u == d, w, "chunks hold", u)

        args = [(d if r == root else data(r, (n + r) % 3), chunk, root) for r in range(size)]
        mpicheck.every(size, "chunks", args, bound, res, judge, f"chunks {case}")
        res.outcomes.add("chunks")
    return res
