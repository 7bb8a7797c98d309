"""C01: representations of product states.

Space: every product state of every n in SMALL (all 2^n), and for wide n at byte
and word boundaries: vacuum, full, all one- and two-electron states and their
complements. The states of the model are (n, product state); the transitions are
the conversions (edges of the conversion graph). Every edge is checked against
the model, and every two-edge path is executed, which by induction covers every
chain.
"""

from mc import ref
from mc.harness import Result, need

ID = "C01"
CONV = [
    # name, source, target, needs n
    ("str2int", "str", "int", False),
    ("int2str", "int", "str", True),
    ("str2tuple", "str", "tuple", False),
    ("tuple2str", "tuple", "str", True),
    ("tuple2int", "tuple", "int", True),
    ("int2tuple", "int", "tuple", True),
    ("bitarray2bytes", "bitarray", "bytes", False),
    ("bytes2bitarray", "bytes", "bitarray", True),
    ("int2bitarray", "int", "bitarray", True),
    ("bitarray2int", "bitarray", "int", False),
    ("bitarray2str", "bitarray", "str", False),
    ("str2bitarray", "str", "bitarray", False),
    ("tuple2bitarray", "tuple", "bitarray", True),
    ("bitarray2tuple", "bitarray", "tuple", False),
    ("tuple2bytes", "tuple", "bytes", True),
    ("bytes2tuple", "bytes", "tuple", True),
    ("str2bytes", "str", "bytes", False),
    ("bytes2str", "bytes", "str", True),
    ("int2bytes", "int", "bytes", True),
    ("bytes2int", "bytes", "int", True),
]


def BOUNDS(tier):
    return dict(all_states_of_n="1..%d" % (10 if tier == "quick" else 13), wide_n=wide(tier),
                wide_states="<=2 electrons or <=2 holes", chains="all conversion paths of length 2 (composition closes the rest)")


MEANING = "states: (n, product state); transitions: conversions executed and compared; traces: conversion chains of length two"


def wide(tier):
    w = [15, 16, 17, 24, 25, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129]
    return w if tier == "quick" else w + [72, 73, 256, 257, 316]


def cases(tier):
    top = 10 if tier == "quick" else 13
    out = []
    for n in range(1, top + 1):
        step = 512
        for lo in range(0, 1 << n, step):
            out.append(["all", n, lo, min(1 << n, lo + step)])
    for n in wide(tier):
        out.append(["wide", n, 0, 0])
        pairs = n * (n - 1) // 2
        if n <= 66 or tier == "thorough":
            step = 600
            for lo in range(0, pairs, step):
                out.append(["pairs", n, lo, min(pairs, lo + step)])
        else:
            out.append(["neighbours", n, 0, 0])
    return out


def _states(case):
    kind, n, lo, hi = case
    full = (1 << n) - 1
    if kind == "all":
        return list(range(lo, hi))
    if kind == "wide":
        s = [0, full, full & 0x5555_5555 | 0] + [1 << i for i in range(n)]
        return s + [full ^ x for x in s[3:]]
    if kind == "neighbours":
        s = [1 << i | 1 << (i + 1) for i in range(n - 1)] + [1 << i | 1 << (n - 1) for i in range(n - 2)]
        return s + [full ^ x for x in s]
    import itertools

    s = [1 << i | 1 << j for i, j in itertools.islice(itertools.combinations(range(n), 2), lo, hi)]
    return s + [full ^ x for x in s]


def run(case):
    from bitarray import bitarray

    from impurityModel.ed import product_state_representation as psr

    n = case[1]
    res = Result()
    seen = {"tuple": {}, "str": {}, "int": {}, "bitarray": {}, "bytes": {}}
    for m in _states(case):
        want = {
            "tuple": ref.occ(m),
            "str": ref.to_str(m, n),
            "int": ref.to_int(m, n),
            "bitarray": bitarray(ref.to_str(m, n)),
            "bytes": ref.enc(m, n),
        }
        res.states += 1
        for k, v in want.items():
            key = v.to01() if k == "bitarray" else v
            need(seen[k].setdefault(key, m) == m, "two states share the", k, "representation", v)
        for name, src, dst, withn in CONV:
            f = getattr(psr, name)
            arg = want[src].copy() if src == "bitarray" else want[src]
            got = f(arg, n) if withn else f(arg)
            res.transitions += 1
            need(type(got) is type(want[dst]), name, "returned a", type(got).__name__)
            need(got == want[dst], f"{name} of {want[src]!r} (n={n}) gives {got!r}, expected {want[dst]!r}")
            need(arg == want[src], name, "changed its argument", want[src])
            if dst == "bitarray":
                # mutable results must be independent of the argument and of later calls
                got.invert()
                need(arg == want[src], name, "result shares storage with its argument", want[src])
                again = f(arg, n) if withn else f(arg)
                need(again == want[dst], name, "result shares storage with an earlier result", want[src])
                got.invert()
            # chains of length two from the returned object itself
            for name2, src2, dst2, withn2 in CONV:
                if src2 == dst:
                    g = getattr(psr, name2)
                    got2 = g(got, n) if withn2 else g(got)
                    res.traces += 1
                    need(got2 == want[dst2], f"{name2}({name}({want[src]!r})) (n={n}) gives {got2!r}")
                    if dst == "bitarray":
                        need(got == want[dst], name2, "changed its argument", want[dst])
    res.outcomes = {f"n mod 8 = {n % 8}"}
    return res
