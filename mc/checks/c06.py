"""C06: labels and indices.

Every ordered arrangement of up to 3 distinct shells l = 0..3 into separate keys or
keys of shells sharing bath states (all ordered groupings), with every combination
of bath counts, and for each arrangement every label and index, and every label or
index just outside.
"""

import itertools

from mc.harness import Result, need

ID = "C06"
MEANING = "states: labels of an arrangement; transitions: real calls; traces: arrangements whose complete table was compared with the model"


def BOUNDS(tier):
    return dict(shells="l in 0..3, up to 3 shells, any order and grouping", bath_counts=list(counts(tier)) + ["30 and 150 for up to 2 shells"])


def counts(tier):
    if tier == "many":
        return (1, 30, 150)
    return (0, 1, 2, 5) if tier == "quick" else (0, 1, 2, 3, 5, 10)


def groupings(ls):
    """All ways to cut the sequence into consecutive groups; singles as int or 1-tuple."""
    if not ls:
        yield []
        return
    for k in range(1, len(ls) + 1):
        for rest in groupings(ls[k:]):
            if k == 1:
                yield [ls[0]] + rest
                yield [(ls[0],)] + rest
            else:
                yield [tuple(ls[:k])] + rest


def cases(tier):
    out = []
    for k in (1, 2, 3):
        for ls in itertools.permutations(range(4), k):
            out += [[ [list(g) if isinstance(g, tuple) else g for g in gr], tier] for gr in groupings(list(ls))]
        if k < 3:
            for ls in itertools.permutations(range(4), k):
                out += [[[list(g) if isinstance(g, tuple) else g for g in gr], "many"] for gr in groupings(list(ls))]
    return out


def refused(f, *a):
    try:
        r = f(*a)
    except Exception:
        return
    need(False, f.__name__, a, "returned", r, "instead of an exception")


def run(case):
    from impurityModel.ed.finite import c2i, i2c

    keys = [tuple(k) if isinstance(k, list) else k for k in case[0]]
    res = Result()
    for nb in itertools.product(counts(case[1]), repeat=len(keys)):
        nBaths = dict(zip(keys, nb))
        copy = dict(nBaths)
        labels = []
        for k in keys:
            for l in k if isinstance(k, tuple) else (k,):
                labels += [(l, s, m) for s in range(2) for m in range(-l, l + 1)]
        for k in keys:
            labels += [(k, b) for b in range(nBaths[k])]
        for i, lab in enumerate(labels):
            need(c2i(nBaths, lab) == i, "c2i", nBaths, lab, "is", c2i(nBaths, lab), "expected", i)
            need(i2c(nBaths, i) == lab, "i2c", nBaths, i, "is", i2c(nBaths, i), "expected", lab)
            res.transitions += 2
        n = len(labels)
        for i in (n, n + 1, n + 2, n + 7, n + 50, -1, -2, -n, -n - 1):
            refused(i2c, nBaths, i)
        present = {l for k in keys for l in (k if isinstance(k, tuple) else (k,))}
        bad = [(k, nBaths[k]) for k in keys] + [(k, -1) for k in keys] + [(k, nBaths[k] + 3) for k in keys]
        for l in range(5):
            if l not in present:
                bad += [(l, s, m) for s in range(2) for m in (-l, 0, l)]
            else:
                bad += [(l, 2, 0), (l, -1, 0), (l, 0, l + 1), (l, 1, -l - 1), (l,), (l, 0, 0, 0)]
            if l not in nBaths:
                bad += [(l, 0)]
        for k in keys:
            if isinstance(k, tuple) and len(k) > 1:
                bad += [(k[::-1], 0), (k, 0, 0)]
        for lab in bad:
            refused(c2i, nBaths, lab)
        res.transitions += 9 + len(bad)
        need(nBaths == copy, "arrangement modified")
        res.states += n
        res.traces += 1
    res.outcomes = {"%d keys, %s" % (len(keys), "shared" if any(isinstance(k, tuple) for k in keys) else "separate")}
    return res
