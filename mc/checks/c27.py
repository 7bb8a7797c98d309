"""C27: command lines.

Both run scripts are executed as __main__ with every option given or left out (each option alone, each pair of
options, all, none), in several orders and spellings, and with the calculation replaced by
a recorder at the first thing main needs (the script's own main still receives and passes on
the values): the recorded arguments must be the given or the documented default values. All
violations of a length or range rule, alone and in pairs, at and around
the limits, must be refused with a non-zero exit status before any calculation.
"""

import itertools
import os
import runpy
import sys
from fractions import Fraction  # noqa: F401

from mc.checks.c25 import scratch
from mc.harness import Result, need

ID = "C27"
MEANING = "states: command lines; transitions: argument values compared; traces: executions of the scripts"
MODULES = {"cf": "impurityModel.ed.get_spectra_using_CF", "op": "impurityModel.ed.get_spectra"}
DEFAULT = dict(ls=[1, 2], nBaths=[0, 10], nValBaths=[0, 10], n0imps=[6, 8], dnTols=[0, 2], dnValBaths=[0, 2], dnConBaths=[0, 0], Fdd=[7.5, 0, 9.9, 0, 6.6], Fpp=[0.0, 0.0, 0.0],
               Fpd=[8.9, 0, 6.8], Gpd=[0.0, 5.0, 0, 2.8], xi_2p=11.629, xi_3d=0.096, chargeTransferCorrection=1.5, hField=[0, 0, 0.0001], nPsiMax=5, nPrintSlaterWeights=3,
               tolPrintOccupation=0.5, T=300, energy_cut=10, delta=0.2, deltaRIXS=0.05, deltaNIXS=0.1)
INT = {"ls", "nBaths", "nValBaths", "n0imps", "dnTols", "dnValBaths", "dnConBaths", "nPsiMax", "nPrintSlaterWeights"}
# distinct values everywhere
GIVEN = dict(ls=[1, 2], nBaths=[4, 20], nValBaths=[3, 10], n0imps=[5, 7], dnTols=[1, 3], dnValBaths=[3, 4], dnConBaths=[1, 5], Fdd=[7.25, 0.5, 9.125, 0.25, 6.5], Fpp=[1.5, 0.125, 2.5],
             Fpd=[8.25, 0.75, 6.125], Gpd=[0.375, 5.5, 0.625, 2.75], xi_2p=10.5, xi_3d=0.0625, chargeTransferCorrection=1.75, hField=[0.03125, -0.015625, 0.5], nPsiMax=7,
             nPrintSlaterWeights=2, tolPrintOccupation=0.875, T=150.5, energy_cut=12.5, delta=0.1875, deltaRIXS=0.0375, deltaNIXS=0.4375)
OPTS = list(DEFAULT)
POS = ("some h0.file", "some radial.file")


def BOUNDS(tier):
    return dict(scripts=2, options=len(OPTS), given="all, none, every single one, every pair" + (", every triple" if tier == "thorough" else ""), refused="every rule, every pair of rules")


def cases(tier):
    out = []
    for s in MODULES:
        out += [["given", s, []], ["given", s, OPTS], ["order", s]]
        out += [["given1", s, i] for i in range(len(OPTS))]
        if tier == "thorough":
            out += [["given2", s, i, j] for i in range(len(OPTS)) for j in range(i)]
        out += [["refuse", s, i] for i in range(len(bad(s)))]
        out += [["accept", s, i] for i in range(len(good(s)))]
        out += [["usage", s, i] for i in range(7)]
    return out


def bad(s):
    """Changes that break exactly one rule (of the default command line)."""
    out = [
        dict(nBaths=[0]), dict(nBaths=[0, 10, 0]), dict(nValBaths=[0]), dict(nValBaths=[0, 10, 0]), dict(ls=[1, 2, 3]),
        dict(nBaths=[0, 10], nValBaths=[1, 10]), dict(nBaths=[3, 10], nValBaths=[4, 10]), dict(n0imps=[7, 8]), dict(n0imps=[6, 11]), dict(n0imps=[-1, 8]),
        dict(n0imps=[6, -1]), dict(n0imps=[100, 8]), dict(n0imps=[8, 6]), dict(Fdd=[1.0]), dict(Fdd=[1.0] * 4), dict(Fdd=[1.0] * 6), dict(Fpp=[1.0, 0.0]), dict(Fpp=[1.0] * 4),
        dict(Fpd=[1.0, 0.0]), dict(Fpd=[1.0] * 4), dict(Gpd=[1.0, 0.0, 0.0]), dict(Gpd=[1.0] * 5), dict(hField=[0.0, 0.1]), dict(hField=[0.1]), dict(hField=[0.0] * 4),
    ]
    if s == "cf":
        out += [dict(ls=[2, 1], n0imps=[8, 6]), dict(ls=[1, 3]), dict(ls=[0, 2], n0imps=[2, 8]), dict(ls=[2, 2]), dict(nBaths=[0, 11]), dict(nBaths=[0, 30]), dict(nBaths=[0, 0], nValBaths=[0, 0]),
                dict(nBaths=[0, 9], nValBaths=[0, 9]), dict(nBaths=[0, 10], nValBaths=[0, 9]), dict(nBaths=[0, 20], nValBaths=[0, 20]), dict(nBaths=[0, 20], nValBaths=[0, 0]), dict(nBaths=[0, 15]),
                dict(nBaths=[0, 19]), dict(nBaths=[0, 21]), dict(nBaths=[0, 20], nValBaths=[0, 11])]
    else:
        out += [dict(nBaths=[0, 9]), dict(nBaths=[0, 0]), dict(nBaths=[2, 10], nValBaths=[3, 5])]
    return out


def good(s):
    """Consistent command lines at the limits of the rules."""
    out = [dict(n0imps=[0, 0]), dict(n0imps=[6, 10]), dict(n0imps=[6, 0]), dict(n0imps=[0, 10]), dict(nBaths=[2, 10], nValBaths=[2, 10]), dict(nBaths=[2, 10], nValBaths=[0, 10]),
           dict(nBaths=[0, 20]), dict(nBaths=[7, 20], nValBaths=[7, 10]), dict(Fdd=[0.0] * 5, Fpp=[0.0] * 3, Fpd=[0.0] * 3, Gpd=[0.0] * 4), dict(T=1e-3), dict(nPsiMax=1), dict(nPsiMax=1000),
           dict(chargeTransferCorrection=-2.5), dict(hField=[-1.0, -2.0, -3.0]), dict(delta=1e-9, deltaRIXS=2e-9, deltaNIXS=3e-9), dict(energy_cut=0.0), dict(nPrintSlaterWeights=0)]
    if s == "op":
        out += [dict(nBaths=[0, 0], nValBaths=[0, 0]), dict(nBaths=[0, 3], nValBaths=[0, 2]), dict(nBaths=[5, 300], nValBaths=[4, 299]), dict(nBaths=[0, 10], nValBaths=[0, 0]),
                dict(ls=[1, 2, 3], nBaths=[0, 1, 2], nValBaths=[0, 1, 1], n0imps=[6, 10, 14], dnTols=[0, 1, 2], dnValBaths=[0, 1, 2], dnConBaths=[0, 0, 1]), dict(ls=[2], nBaths=[4], nValBaths=[2], n0imps=[10], dnTols=[1], dnValBaths=[1], dnConBaths=[0])]
    return out


class Reached(Exception):
    pass


def execute(s, argv):
    """Run the script; returns (exit error or None, recorded arguments of main or None).

    main is replaced the moment it is defined by a function of the same signature: everything of the script but the
    calculation is the real code."""
    import inspect

    rec = []
    name = MODULES[s]

    def tracer(frame, event, arg):
        if event == "call" and frame.f_code.co_name == "main" and frame.f_globals.get("__name__") == "__main__":
            info = inspect.getargvalues(frame)
            need(not info.varargs, "main takes positional arguments")
            rec.append({k: info.locals[k] for k in info.args})
            if info.keywords:
                rec[-1].update(info.locals[info.keywords])
            raise Reached()

    old, main = sys.argv, sys.modules["__main__"]
    sys.argv = ["script"] + list(argv)
    err = None
    prev = sys.gettrace()
    devnull = os.open(os.devnull, os.O_WRONLY)
    keep = sys.stderr
    import io

    sys.stderr = io.StringIO()
    try:
        sys.settrace(tracer)
        try:
            runpy.run_module(name, run_name="__main__")
        finally:
            sys.settrace(prev)
    except Reached:
        pass
    except SystemExit as e:
        err = e
    except Exception as e:
        err = e
    finally:
        sys.stderr = keep
        sys.argv = old
        sys.modules["__main__"] = main
        os.close(devnull)
    return err, rec


def line(change):
    out = []
    for k, v in change.items():
        out.append("--" + k)
        out += [repr(x) for x in v] if isinstance(v, list) else [repr(v)]
    return out


def expected(s, change):
    exp = {k: tuple(v) if isinstance(v, list) else v for k, v in dict(DEFAULT, **change).items()}
    exp["h0_CF_filename" if s == "cf" else "h0_filename"] = POS[0]
    exp["radial_filename"] = POS[1]
    return exp


def accepted(s, argv, change, res):
    err, rec = execute(s, argv)
    w = f"{MODULES[s]} {' '.join(argv)}:"
    need(err is None and len(rec) == 1, w, "is refused or does not run once:", repr(err), len(rec))
    exp = expected(s, change)
    got = rec[0]
    need(set(got) >= set(exp), w, "arguments missing:", set(exp) - set(got))
    for k, v in exp.items():
        x = got[k]
        ok = tuple(x) == v if isinstance(v, tuple) else x == v
        need(ok, w, "argument", k, "is", x, "expected", v)
        if k in INT:
            need(all(isinstance(y, int) for y in (x if isinstance(v, tuple) else [x])), w, "argument", k, "is not an integer:", x)
        res.transitions += 1
    res.states += 1
    res.traces += 1


def refused(s, argv, res):
    before = set(os.listdir("."))
    err, rec = execute(s, argv)
    w = f"{MODULES[s]} {' '.join(argv)}:"
    need(not rec, w, "is accepted")
    need(isinstance(err, Exception) or isinstance(err, SystemExit) and err.code not in (None, 0), w, "is not refused:", repr(err))
    need(set(os.listdir(".")) == before, w, "wrote files")
    res.states += 1
    res.traces += 1


def allowed(s, change):
    """The documented rules."""
    p = dict(DEFAULT, **change)
    ok = len(p["ls"]) == len(p["nBaths"]) == len(p["nValBaths"])
    ok = ok and all(b >= v for b, v in zip(p["nBaths"], p["nValBaths"])) and all(0 <= n <= 2 * (2 * l + 1) for l, n in zip(p["ls"], p["n0imps"]))
    ok = ok and [len(p[k]) for k in ("Fdd", "Fpp", "Fpd", "Gpd", "hField")] == [5, 3, 3, 4, 3]
    if s == "cf":
        ok = ok and list(p["ls"])[:2] == [1, 2] and p["nBaths"][1] in (10, 20) and p["nValBaths"][1] == 10
    return ok


def run(case):
    res = Result()
    s = case[1]
    with scratch():
        if case[0] == "given":
            ch = {k: GIVEN[k] for k in case[2]}
            accepted(s, list(POS) + line(ch), ch, res)
        elif case[0] == "given1":
            k = OPTS[case[2]]
            # alone and with every other option; bath lists only together, as the rules demand
            for others in itertools.combinations(OPTS, 1):
                ch = {x: GIVEN[x] for x in {k, *others}}
                if "nValBaths" in ch and "nBaths" not in ch:
                    ch["nBaths"] = GIVEN["nBaths"]
                accepted(s, list(POS) + line(ch), ch, res)
        elif case[0] == "given2":
            for k in OPTS[: case[3]]:
                ch = {x: GIVEN[x] for x in (OPTS[case[2]], OPTS[case[3]], k)}
                if "nValBaths" in ch and "nBaths" not in ch:
                    ch["nBaths"] = GIVEN["nBaths"]
                accepted(s, list(POS) + line(ch), ch, res)
        elif case[0] == "order":
            for r in range(0, len(OPTS), 4):
                ks = OPTS[r:] + OPTS[:r]
                ch = {k: GIVEN[k] for k in ks[::-1]}
                accepted(s, list(POS) + line(ch), ch, res)
                # positional arguments last, separated by a single-valued option
                ch2 = {k: v for k, v in ch.items() if k not in ("T",)}
                ch2["T"] = GIVEN["T"]
                accepted(s, line(ch2) + list(POS), ch2, res)
            accepted(s, list(POS) + ["--T=12.5", "--nPsiMax=3"], dict(T=12.5, nPsiMax=3), res)
            accepted(s, list(POS) + ["--T", "5", "--T", "6"], dict(T=6.0), res)
        elif case[0] == "refuse":
            all_bad = bad(s)
            b = all_bad[case[2]]
            need(not allowed(s, b), "bad case", b)
            refused(s, list(POS) + line(b), res)
            for g in good(s) + all_bad[:: 3]:
                ch = dict(g, **b)
                if not allowed(s, ch):
                    refused(s, list(POS) + line(ch), res)
        elif case[0] == "accept":
            gs = good(s)
            g = gs[case[2]]
            need(allowed(s, g), "bad case", g)
            accepted(s, list(POS) + line(g), g, res)
            for x in gs:
                ch = dict(x, **g)
                if allowed(s, ch):
                    accepted(s, list(POS) + line(ch), ch, res)
        else:
            i = case[2]
            if i == 0:
                refused(s, [], res)
            elif i == 1:
                refused(s, [POS[0]], res)
            elif i == 2:
                refused(s, list(POS) + ["third"], res)
            elif i == 3:
                refused(s, list(POS) + ["--unknown", "1"], res)
            elif i == 4:
                for k in OPTS:
                    refused(s, list(POS) + ["--" + k], res)
                    refused(s, list(POS) + ["--" + k, "text"], res)
            elif i == 5:
                for k in sorted(INT):
                    v = ["1.5"] * (len(DEFAULT[k]) if isinstance(DEFAULT[k], list) else 1)
                    refused(s, list(POS) + ["--" + k] + v, res)
            else:
                err, rec = execute(s, ["--help"])
                need(isinstance(err, SystemExit) and err.code in (None, 0) and not rec, "--help", repr(err))
                res.traces += 1
    res.outcomes = {case[0] + " " + s}
    return res
