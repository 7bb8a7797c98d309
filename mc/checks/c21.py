"""C21: division of work.

Every number of tasks up to 40 (150), every number of ranks up to 20 (40), tasks given
as range, list, tuple of integers, labels, product states (bytes), tuples, mixed types,
repeated tasks, dictionaries or an array: the lists of all ranks are collected and
checked for completeness, disjointness and balance, and each rank's list is computed
again, between the calls of the other ranks and on a virtual rank other than 0.
"""

from collections import Counter

import numpy as np

from mc.harness import Result, need

ID = "C21"
MEANING = "states: (tasks, ranks) inputs; transitions: task lists; traces: complete divisions"
ASSUMPTIONS = ["every rank calls with the same number of ranks and the same task list"]


def BOUNDS(tier):
    return dict(tasks=40 if tier == "quick" else 150, ranks=20 if tier == "quick" else 40, containers=12, large="up to 5000 tasks on up to 1024 ranks")


def cases(tier):
    out = [["n", n, 20 if tier == "quick" else 40] for n in range((40 if tier == "quick" else 150) + 1)]
    return out + [["large", n, size] for n in (63, 257, 1000, 5000) for size in (7, 64, 129, 1024)]


def run(case):
    from impurityModel.ed import finite
    from impurityModel.ed.finite import get_job_tasks

    res = Result()
    n = case[1]
    kinds = [range(n), list(range(n)), tuple(3 * i - 7 for i in range(n)), ["task%d" % i for i in range(n)], range(n, 0, -1)]
    # objects which some array types would change: trailing zeros, equal lengths, unequal types
    kinds.append([i.to_bytes(2, "little") for i in range(n)])
    kinds.append([(i, -i) for i in range(n)])
    kinds.append([(i, "task%d" % i, None)[: 1 + i % 3] for i in range(n)])
    kinds.append(np.arange(n))
    # tasks that occur several times, tasks that can not be hashed or compared
    kinds += [[i // 2 for i in range(n)], ["x"] * n, [{b"%d" % i: 1.0 * i} for i in range(n)]]
    for size in range(1, case[2] + 1) if case[0] == "n" else [case[2]]:
        for kind, tasks in enumerate(kinds):
            keep = list(tasks)
            lists = [list(get_job_tasks(r, size, tasks)) for r in range(size)]
            where = f"get_job_tasks of {n} tasks (kind {kind}) on {size} ranks:"
            need(list(tasks) == keep, where, "task list modified")
            every = [t for x in lists for t in x]
            need(Counter(map(repr, every)) == Counter(map(repr, keep)), where, "together", every, "expected", keep)
            lens = [len(x) for x in lists]
            need(max(lens) - min(lens) <= 1, where, "numbers of tasks", lens)
            try:  # the rank this process has is irrelevant
                finite.rank, finite.ranks = size - 1, 3
                again = [list(get_job_tasks(r, size, tasks)) for r in reversed(range(size))][::-1]
            finally:
                finite.rank, finite.ranks = 0, 1
            need(again == lists, where, "differs on the second call", again, lists)
            res.transitions += 2 * size
            res.traces += 1
            res.states += 1
        res.outcomes.add("%s tasks than ranks" % ("fewer" if n < size else "more"))
    return res
